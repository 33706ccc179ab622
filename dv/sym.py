"""Symbolic executor for MIR: the verification-condition generator.

Bodies come from rustc (see mirsrv).  Calls into the crate under verification are executed through
their real MIR; library functions with a model (models.py) go through that model, i.e. through an
assumed contract.  Loops are cut: the state at a loop head is generalised and the loop body is
verified once for an arbitrary iteration (see loop())."""
import sys, time
import terms as z3
from vals import *
from terms import T as T_

sys.setrecursionlimit(20000)


class Obj:
    """a heap object.  shared: reachable by other threads; rc: number of strong references when known"""
    __slots__ = ('val', 'ty', 'shared', 'rc', 'tag')

    def __init__(s, val, ty, shared=False, rc=None, tag=None):
        s.val, s.ty, s.shared, s.rc, s.tag = val, ty, shared, rc, tag

    def with_(s, **k):
        d = dict(val=s.val, ty=s.ty, shared=s.shared, rc=s.rc, tag=s.tag)
        d.update(k)
        return Obj(**d)


class State:
    __slots__ = ('L', 'H', 'pc', 'g', 'depth', 'fn')

    def __init__(s):
        s.L, s.H, s.pc, s.g, s.depth, s.fn = {}, {}, (), {}, 0, ()

    def copy(s):
        n = State.__new__(State)
        n.L, n.H, n.pc, n.g, n.depth, n.fn = dict(s.L), dict(s.H), s.pc, dict(s.g), s.depth, s.fn
        return n


class Obligation:
    __slots__ = ('clause', 'entry', 'where', 'ok', 'model', 'detail', 'kind')

    def __init__(s, clause, entry, where, ok, model, detail):
        s.clause, s.entry, s.where, s.ok, s.model, s.detail = clause, entry, where, ok, model, detail


SHAPES = {}
NOVARS = frozenset()
SM_U = ('U', (), (), (), NOVARS)
SM_T = ('.b', (True,), (), (), NOVARS)
SM_F = ('.b', (False,), (), (), NOVARS)


class Engine:
    MAXDEPTH = 60

    def __init__(self, srv, spec, budget=None):
        self.seen = {}         # blocks of xtra's functions that were reached
        self.phivars = {}      # joined value -> the variables its definition mentions
        self.srv, self.spec = srv, spec
        self.sol = z3.Solver()
        self.cnt = 0
        self.obl = []           # obligations of the exploration under way
        self.entry = '?'
        self.cfg_cache = {}
        self.inlined = {}       # function name -> times executed
        self.modelled = {}
        self.assumed = {}
        self.deadline = None
        self.steps = 0
        self.loopstats = {}
        self.zv_cache = {}
        self.keep = []
        import models
        self.models = models.MODELS
        self.mod = models
        spec.eng = self
        spec.srv = srv

    # ---------------------------------------------------------------- basics
    def fresh_name(self, p='x'):
        self.cnt += 1
        return '%s%d' % (p, self.cnt)

    def int(self, S, p='i', lo=0, hi=None):
        v = z3.Int(self.fresh_name(p))
        if lo is not None:
            self.assume(S, v >= lo)
        if hi is not None:
            self.assume(S, v <= hi)
        return v

    def bool(self, p='b'):
        return z3.Bool(self.fresh_name(p))

    def assume(self, S, c):
        c = con(c)
        if c is True:
            return
        new = S.pc + (zv(c),)
        self.sol.grown(S.pc, new)
        S.pc = new

    def feas(self, S):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the entry used up')
        return self.sol.full(S.pc) != 'unsat'

    def must(self, S, c):
        """is c implied"""
        c = con(c)
        if isinstance(c, bool):
            return c
        return self.sol.check(S.pc, z3.Not(c)) == 'unsat'

    def may(self, S, c):
        c = con(c)
        if isinstance(c, bool):
            return c
        return self.sol.check(S.pc, c) != 'unsat'

    def split(self, S, c):
        """[(state, truth)]"""
        c = con(c)
        if isinstance(c, bool):
            return [(S, c)]
        if isinstance(c, int):
            return [(S, c != 0)]
        if c.int:
            c = con(c != 0)
            if isinstance(c, bool):
                return [(S, c)]
        out = []
        t = self.may(S, c)
        f = self.may(S, z3.Not(c))
        if t and f:
            S2 = S.copy()
            self.assume(S2, z3.Not(c))
            self.assume(S, c)
            return [(S, True), (S2, False)]
        if t:
            return [(S, True)]
        if f:
            return [(S, False)]
        return []

    def where(self, S):
        return '/'.join(S.fn[-3:])

    def oblige(self, S, c, clause, detail=''):
        """a proof obligation: c must hold in S"""
        c = con(c)
        if c is True:
            self.obl.append(Obligation(clause, self.entry, self.where(S), True, None, ''))
            return True
        cz = zv(c)
        if self.sol.check(S.pc, z3.Not(cz)) == 'unsat' or self.sol.full(S.pc, z3.Not(cz)) == 'unsat':
            self.obl.append(Obligation(clause, self.entry, self.where(S), True, None, ''))
            return True
        m = r = self.sol.model(S.pc, z3.Not(cz))
        if r == 'unsat':
            self.obl.append(Obligation(clause, self.entry, self.where(S), True, None, ''))
            return True
        if callable(detail):
            detail = detail()
        self.obl.append(Obligation(clause, self.entry, ' > '.join(S.fn[-6:]), False, m or str(r), detail))
        return False

    # ---------------------------------------------------------------- types
    def ty(self, t):
        return self.srv.ty(t)

    def tn(self, t):
        i = self.srv.ty(t)
        return i.get('name') if i['k'] == 'Adt' else i['k']

    def targs(self, t):
        return [a['t'] for a in self.srv.ty(t).get('args', []) if 't' in a]

    def is_box(self, t):
        i = self.srv.ty(t)
        return i['k'] == 'Adt' and i.get('box')

    # ---------------------------------------------------------------- places
    def vget(self, S, v, e):
        if isinstance(e, int):
            if isinstance(v, Agg):
                return v.vals[e]
            if isinstance(v, Cor):
                return v.up[e]
            if isinstance(v, (P, Arc, Guard, End, Opq)):
                return v                    # newtype wrappers around a pointer (Unique, NonNull, ..)
            if isinstance(v, tuple) and v and v[0] == 'DC':
                base, k = v[1], v[2]
                if isinstance(base, Enum):
                    if k not in base.pl or e >= len(base.pl[k]):
                        raise Unsupported('field %s of variant %s of %r' % (e, k, base))
                    return base.pl[k][e]
                if isinstance(base, Cor):
                    return base.fl.get(self.srv.ty(base.ty)['vf'][k][e], UNINIT)
            raise Unsupported('field %s of %r' % (e, v))
        if e[0] == 'v':
            return ('DC', v, e[1])
        if e[0] == 'lk' and isinstance(v, Lock):
            return v.val
        if e[0] == 'trk' and isinstance(v, Coll):
            return v.trk[e[1]][1]
        if e[0] == 'top' and isinstance(v, Coll):
            return v.top[1]
        raise Unsupported('projection %r of %r' % (e, v))

    def vset(self, S, v, proj, x):
        if not proj:
            return x
        e = proj[0]
        if isinstance(e, int):
            if isinstance(v, Agg):
                l = list(v.vals)
                l[e] = self.vset(S, l[e], proj[1:], x)
                return Agg(v.ty, l)
            if isinstance(v, Cor):
                l = list(v.up)
                l[e] = self.vset(S, l[e], proj[1:], x)
                return Cor(v.ty, v.d, l, v.fl)
            raise Unsupported('set field %s of %r' % (e, v))
        if e[0] == 'v':
            if isinstance(v, Enum):
                k, f = e[1], proj[1]
                l = list(v.pl.get(k, ()))
                while len(l) <= f:
                    l.append(UNINIT)
                l[f] = self.vset(S, l[f], proj[2:], x)
                return Enum(v.ty, v.d, {**v.pl, k: tuple(l)})
            if isinstance(v, Cor):
                sl = self.srv.ty(v.ty)['vf'][e[1]][proj[1]]
                return Cor(v.ty, v.d, v.up, {**v.fl, sl: self.vset(S, v.fl.get(sl, UNINIT), proj[2:], x)})
            if v is UNINIT:
                raise Unsupported('variant write into uninitialised value')
        if e[0] == 'lk':
            return Lock(v.kind, v.ty, self.vset(S, v.val, proj[1:], x), v.held)
        if e[0] == 'trk':
            p, el, r = v.trk[e[1]]
            return v.with_(trk={**v.trk, e[1]: (p, self.vset(S, el, proj[1:], x), r)}, top=v.top, pos=v.pos)
        if e[0] == 'top':
            return v.with_(top=('oth', self.vset(S, v.top[1], proj[1:], x)), pos=v.pos)
        raise Unsupported('set %r of %r' % (e, v))

    def root(self, S, r):
        if r[0] == 'L':
            return S.L.get((r[1], r[2]), UNINIT)
        if r[0] == 'H':
            o = S.H.get(r[1])
            if o is None:
                raise Unsupported('dangling object %s' % r[1])
            return o.val
        if r[0] == 'S':
            return Opq('static')
        raise Unsupported('root %r' % (r,))

    def load(self, S, p):
        v = self.root(S, p.root)
        for e in p.proj:
            v = self.vget(S, v, e)
        return v

    def store(self, S, p, x):
        r = p.root
        if r[0] == 'L':
            k = (r[1], r[2])
            S.L[k] = x if not p.proj else self.vset(S, S.L.get(k, UNINIT), p.proj, x)
        elif r[0] == 'H':
            o = S.H[r[1]]
            S.H[r[1]] = o.with_(val=self.vset(S, o.val, p.proj, x))
        else:
            raise Unsupported('store to %r' % (p,))

    def place(self, S, pl):
        p = P(('L', S.depth, pl['local']))
        for e in pl['projection']:
            if e == 'Deref':
                v = self.load(S, p)
                p = self.deref(S, v)
            elif 'Field' in e:
                i = e['Field'][0]
                if not (p.proj and isinstance(p.proj[-1], tuple) and p.proj[-1][0] == 'v'):
                    # newtype wrappers around pointers are transparent
                    v = self.load(S, p)
                    if isinstance(v, (P, Arc, Guard, End)):
                        continue
                p = P(p.root, p.proj + (i,))
            elif 'Downcast' in e:
                p = P(p.root, p.proj + (('v', e['Downcast']),))
            elif 'OpaqueCast' in e or 'Subtype' in e:
                continue
            else:
                raise Unsupported('place projection %r' % (e,))
        return p

    def deref(self, S, v):
        if isinstance(v, P):
            return v
        if isinstance(v, Agg) and len(v.vals) == 1:
            return self.deref(S, v.vals[0])
        raise Unsupported('deref of %r' % (v,))

    def alloc(self, S, val, ty, name=None, **k):
        n = name or self.fresh_name('h')
        S.H[n] = Obj(val, ty, **k)
        self.pin(S, n)
        return n

    def pin(self, S, n):
        """keep object n, which a library contract under way holds, in sight of merging"""
        p = S.g.get('pins', ())
        if n not in p:
            S.g['pins'] = p + (n,)

    def pty(self, S, p):
        """the type of the object p points to (heap roots, whole objects)"""
        if p.meta is not None:
            return p.meta
        if p.root[0] == 'H' and not p.proj:
            return S.H[p.root[1]].ty
        raise Unsupported('type of %r' % (p,))

    # ---------------------------------------------------------------- operands and rvalues
    def const(self, S, c):
        c = c['const_']
        t = self.ty(c['ty'])
        k = c['kind']
        if k == 'ZeroSized':
            return self.zst(c['ty'])
        if isinstance(k, dict) and 'Allocated' in k:
            a = k['Allocated']
            if any(b is None for b in a['bytes']) and t['k'] != 'Adt':
                raise Unsupported('uninit const')
            if t['k'] == 'Bool':
                return bool(a['bytes'][0])
            if t['k'] in ('Uint', 'Int', 'Char'):
                n = int.from_bytes(bytes(a['bytes']), 'little', signed=t['k'] == 'Int')
                return n
            if t['k'] == 'Ref':
                return P(('S', c.get('id', 0), json_key(a)), (), None)
            if t['k'] == 'Adt':
                return self.const_adt(c['ty'], t, a)
        raise Unsupported('constant of type %s: %s' % (t, str(k)[:120]))

    def const_adt(self, ty, t, a):
        bs = a['bytes']
        if t['ak'] == 'Struct' and len(t['variants'][0]['fields']) == 1:
            ft = self.ty(t['variants'][0]['fields'][0]['ty'])
            if ft['k'] in ('Uint', 'Int', 'Bool'):
                n = int.from_bytes(bytes(bs), 'little', signed=ft['k'] == 'Int')
                return Agg(ty, [bool(n) if ft['k'] == 'Bool' else n])
        if t['ak'] == 'Enum' and all(not v['fields'] for v in t['variants']) and all(b is not None for b in bs):
            n = int.from_bytes(bytes(bs), 'little')
            for i, v in enumerate(t['variants']):
                if (int(v['discr']) & ((1 << (8 * len(bs))) - 1)) == n:
                    return Enum(ty, i, {i: ()})
        if t['ak'] == 'Enum' and all(b is None or b == 0 for b in bs) and len(bs) <= 16:
            # all-zero: with a one-byte tag in front this is variant 0 (no niche for the types used here)
            v0 = t['variants'][0]
            if not v0['fields']:
                return Enum(ty, 0, {0: ()})
        raise Unsupported('constant of type %s: %s' % (t['s'], str(a)[:200]))

    def zst(self, ty):
        t = self.ty(ty)
        if t['k'] == 'Adt':
            if t['ak'] == 'Enum':
                vs = [i for i, v in enumerate(t['variants']) if not v['fields']]
                if len(t['variants']) == 1:
                    return Enum(ty, 0, {0: tuple(self.zst(f['ty']) for f in t['variants'][0]['fields'])})
                # e.g. Result<(), !>
                return Enum(ty, 0, {0: tuple(self.zst(f['ty']) for f in t['variants'][0]['fields'])})
            return Agg(ty, [self.zst(f['ty']) for f in t['variants'][0]['fields']])
        if t['k'] == 'Tuple':
            return Agg(ty, [self.zst(x) for x in t['tys']])
        return Agg(ty, ())

    def operand(self, S, o):
        if 'Copy' in o:
            return self.load(S, self.place(S, o['Copy']))
        if 'Move' in o:
            p = self.place(S, o['Move'])
            v = self.load(S, p)
            if p.root[0] == 'L' and not isinstance(v, (int, bool)) and not sym(v) and not isinstance(v, P):
                self.store(S, p, UNINIT)
            elif isinstance(v, P) and p.root[0] == 'L' and not p.proj:
                self.store(S, p, UNINIT)
            return v
        if 'Constant' in o:
            return self.const(S, o['Constant'])
        if 'RuntimeChecks' in o:
            return False
        raise Unsupported('operand %r' % (o,))

    def discr(self, v):
        if isinstance(v, Enum):
            if sym(v.d):
                return v.d      # by convention already the discriminant value
            return int(self.ty(v.ty)['variants'][v.d]['discr'])
        if isinstance(v, Cor):
            return v.d
        raise Unsupported('discriminant of %r' % (v,))

    def rvalue(self, S, r, dty=None):
        if isinstance(r, str):
            raise Unsupported('rvalue ' + r)
        k, v = next(iter(r.items()))
        if k == 'Use':
            return self.operand(S, v[0] if isinstance(v, list) else v)
        if k == 'Ref' or k == 'AddressOf':
            pl = v[2] if k == 'Ref' else v[1]
            p = self.place(S, pl)
            # a reborrow keeps the known concrete type
            return p
        if k == 'CopyForDeref':
            return self.load(S, self.place(S, v))
        if k == 'Discriminant':
            return self.discr(self.load(S, self.place(S, v)))
        if k == 'Aggregate':
            ak, ops = v
            vals = [self.operand(S, o) for o in ops]
            if ak == 'Tuple' or (isinstance(ak, dict) and 'Array' in ak):
                return Agg(None, vals)
            if 'Adt' in ak:
                vi = ak['Adt'][1]
                t = self.ty(dty)
                if t['k'] == 'Adt' and t['ak'] == 'Enum':
                    x = Enum(dty, vi, {vi: tuple(vals)})
                else:
                    x = Agg(dty, vals)
                self.spec.on_aggregate(S, dty, x)
                return x
            if 'Closure' in ak:
                return Agg(dty, vals)
            if 'Coroutine' in ak:
                return Cor(dty, 0, vals, {})
            if 'RawPtr' in ak:
                return vals[0]
            raise Unsupported('aggregate %r' % (ak,))
        if k == 'Cast':
            ck, o, t = v
            x = self.operand(S, o)
            if ck in ('BoxDerefTransmute', 'PtrToPtr', 'Transmute', 'PointerExposeAddress', 'PointerWithExposedProvenance', 'FnPtrToPtr'):
                if isinstance(x, (P, Arc, Guard, End, Opq)) or ck in ('PtrToPtr',):
                    if ck == 'PointerExposeAddress':
                        return self.spec.addr(S, x)
                    return x
                if isinstance(x, Agg) and ck == 'Transmute':
                    return self.transmute(S, x, t)
                if ck == 'Transmute' and (sym(x) or isinstance(x, (int, bool))):
                    return x
                if ck == 'PointerExposeAddress':
                    return self.spec.addr(S, x)
                raise Unsupported('cast %s of %r' % (ck, x))
            if ck == 'IntToInt':
                return self.int_cast(S, x, t)
            if isinstance(ck, dict) and 'PointerCoercion' in ck:
                pc = ck['PointerCoercion']
                if pc == 'Unsize':
                    return self.unsize(S, x, self.opty(S, o), t)
                return x
            if ck == 'Subtype':
                return x
            raise Unsupported('cast %r' % (ck,))
        if k in ('BinaryOp', 'CheckedBinaryOp'):
            op, oa, ob = v
            a, b = self.operand(S, oa), self.operand(S, ob)
            if op in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked', 'Mul', 'MulUnchecked') and not isinstance(a, (P, Arc)):
                rg = self.int_range(self.opty(S, oa))
                if rg and (rg[1] - rg[0] < 2 ** 60 or rg[0] < 0):
                    return self.arith(S, op[:3], a, b, k == 'CheckedBinaryOp', *rg)
            return self.binop(S, op, a, b, k == 'CheckedBinaryOp')
        if k == 'UnaryOp':
            op, a = v
            a = self.operand(S, a)
            if op == 'Not':
                if isinstance(a, bool) or (sym(a) and a.sort() == BOOL):
                    return not_(a)
            if op in ('Neg', 'Not') and (isinstance(a, int) or sym(a)):
                rg = self.int_range(self.opty(S, v[1]))
                if rg:
                    r = self.sub(0, a) if op == 'Neg' else self.sub(-1 if rg[0] < 0 else rg[1], a)
                    return self.wrap(S, r, *rg)
            if op == 'PtrMetadata':
                return Opq('meta')
            raise Unsupported('unop %s %r' % (op, a))
        if k == 'Len':
            raise Unsupported('Len')
        raise Unsupported('rvalue %s' % str(r)[:120])

    def transmute(self, S, x, t):
        # pointer-like newtypes
        y = x
        while isinstance(y, Agg) and len(y.vals) == 1:
            y = y.vals[0]
        if isinstance(y, P):
            return y
        if self.ty(t)['k'] == 'Adt':
            return x
        raise Unsupported('transmute %r' % (x,))

    def int_cast(self, S, x, t):
        ti = self.ty(t)
        if isinstance(x, Enum):
            x = self.discr(x)
        if isinstance(x, (P, Arc)):
            return x
        x = b2i(x)
        r = self.int_range(t)
        return x if r is None else self.wrap(S, x, *r)

    RANGES = {'U8': (0, 2 ** 8 - 1), 'U16': (0, 2 ** 16 - 1), 'U32': (0, 2 ** 32 - 1), 'U64': (0, 2 ** 64 - 1), 'Usize': (0, 2 ** 64 - 1), 'U128': (0, 2 ** 128 - 1),
              'I8': (-2 ** 7, 2 ** 7 - 1), 'I16': (-2 ** 15, 2 ** 15 - 1), 'I32': (-2 ** 31, 2 ** 31 - 1), 'I64': (-2 ** 63, 2 ** 63 - 1), 'Isize': (-2 ** 63, 2 ** 63 - 1),
              'I128': (-2 ** 127, 2 ** 127 - 1)}

    def int_range(self, t):
        """(least, greatest) value of an integer type"""
        ti = self.ty(t)
        return self.RANGES.get(ti.get('w')) if ti['k'] in ('Uint', 'Int') else None

    def wrap(self, S, x, lo, hi):
        """x modulo the size of the type"""
        m = hi - lo + 1
        if isinstance(x, int):
            return (x - lo) % m + lo
        if self.must(S, and_(cmp_('Ge', x, lo), cmp_('Le', x, hi))):
            return x
        k = self.int(S, 'wrap', None)
        r = self.int(S, 'wr', lo, hi)
        self.assume(S, eq(add(r, k * m), x))
        return r

    def opty(self, S, o):
        """static type of an operand (local without projection only is enough here)"""
        if 'Constant' in o:
            return o['Constant']['const_']['ty']
        pl = o.get('Copy') or o.get('Move')
        t = S_body(S, self)['locals'][pl['local']]
        for e in pl['projection']:
            if e == 'Deref':
                i = self.ty(t)
                t = i['ty'] if 'ty' in i else self.targs(t)[0]
            elif 'Field' in e:
                t = e['Field'][1]
        return t

    def unsize(self, S, x, src, dst):
        """give the pointer inside x the concrete type it loses here"""
        i = self.ty(src)
        if i['k'] in ('Ref', 'RawPtr'):
            return self.setmeta(S, x, i['ty'])
        if i['k'] == 'Adt':
            n = i['name']
            a = self.targs(src)
            if i.get('box') or n in ('std::sync::Arc', 'std::sync::Weak', 'std::ptr::NonNull'):
                return self.setmeta(S, x, a[0])
            if n in ('std::pin::Pin',):
                return Agg(dst, [self.unsize(S, x.vals[0], a[0], a[0])])
            if len(a) >= 1:
                return x
        raise Unsupported('unsize %s' % (i,))

    def setmeta(self, S, x, t):
        if self.ty(t)['k'] == 'Dyn':
            return x
        if isinstance(x, P):
            return P(x.root, x.proj, t)
        if isinstance(x, Arc):
            return Arc(x.name, x.weak, t)
        raise Unsupported('unsize of %r' % (x,))

    def binop(self, S, op, a, b, checked=False):
        if op in ('Eq', 'Ne'):
            if (isinstance(a, P) and b.__class__ is int and b == 0) or (isinstance(b, P) and a.__class__ is int and a == 0):
                r = False       # a reference is not null
            elif isinstance(a, (P, Arc)) or isinstance(b, (P, Arc)):
                r = self.spec.ptr_eq(S, a, b)
            elif isinstance(a, (Agg, Enum)) or isinstance(b, (Agg, Enum)):
                if isinstance(a, Agg) and isinstance(b, Agg) and not a.vals and not b.vals:
                    r = True
                else:
                    raise Unsupported('eq on %r' % (a,))
            else:
                r = eq(a, b)
            return r if op == 'Eq' else not_(r)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, P) or isinstance(b, P):
                a, b = self.spec.addr(S, a), self.spec.addr(S, b)
            return cmp_(op, a, b)
        if op == 'Cmp':
            if isinstance(a, P) or isinstance(b, P):
                a, b = self.spec.addr(S, a), self.spec.addr(S, b)
            return self.ordering(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and all(isinstance(x, bool) or (sym(x) and x.sort() == BOOL) for x in (a, b)):
            if op == 'BitAnd':
                return and_(a, b)
            if op == 'BitOr':
                return or_(a, b)
            return not_(eq(a, b))
        if op == 'BitAnd' and isinstance(a, P) and isinstance(b, int) and b in (1, 3, 7, 15):
            return 0        # alignment check of a reference
        if op in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked'):
            if isinstance(a, (P, Arc)):
                raise Unsupported('pointer arithmetic')
            neg = op.startswith('Sub')
            r = add(a, b) if not neg else self.sub(a, b)
            if checked:
                # counters are taken not to wrap upwards (2^64 increments); going below zero is checked
                return Agg(None, [r, cmp_('Lt', a, b) if neg else False])
            if neg:
                if self.must(S, cmp_('Ge', a, b)):
                    return r
                return ite(cmp_('Ge', a, b), r, add(r, 2 ** 64))
            return r
        if op in ('Mul',) and (not sym(a) or not sym(b)):
            r = a * b
            return Agg(None, [r, False]) if checked else r
        raise Unsupported('binop %s %r %r' % (op, a, b))

    def arith(self, S, op, a, b, checked, lo, hi):
        """exact machine arithmetic (the 64 bit counters are taken not to wrap upwards, see binop)"""
        if op == 'Mul':
            if sym(a) and sym(b):
                raise Unsupported('product of two unknowns')
            r = a * b if sym(a) or not sym(b) else b * a
        else:
            r = add(a, b) if op == 'Add' else self.sub(a, b)
        if checked:
            return Agg(None, [r, not_(and_(cmp_('Ge', r, lo), cmp_('Le', r, hi)))])
        return self.wrap(S, r, lo, hi)

    def sub(self, a, b):
        a, b = b2i(a), b2i(b)
        if not sym(a) and not sym(b):
            return a - b
        return con(z3.simplify(zv(a) - zv(b)))

    def ordering(self, a, b):
        """std::cmp::Ordering value as a symbolic enum: d = -1/0/1"""
        a, b = b2i(a), b2i(b)
        if not sym(a) and not sym(b):
            return Enum(self.spec.ordering_ty(), (a > b) - (a < b) + 1, {(a > b) - (a < b) + 1: ()})
        a, b = zv(a), zv(b)
        if a.eq(b):
            return Enum(self.spec.ordering_ty(), 1, {1: ()})
        return Enum(self.spec.ordering_ty(), z3.If(a < b, z3.IntVal(-1), z3.If(a == b, z3.IntVal(0), z3.IntVal(1))), {})

    # ---------------------------------------------------------------- control flow
    def cfg(self, inst):
        r = self.cfg_cache.get(inst)
        if r:
            return r
        b = self.srv.body(inst)
        succ = []
        for bb in b['blocks']:
            t = bb['terminator']['kind']
            s = []
            if isinstance(t, dict):
                k, v = next(iter(t.items()))
                if k == 'SwitchInt':
                    s = [x[1] for x in v['targets']['branches']] + [v['targets']['otherwise']]
                elif k in ('Goto', 'Drop', 'Assert'):
                    s = [v['target']]
                elif k == 'Call':
                    s = [v['target']] if v['target'] is not None else []
            succ.append(s)
        n = len(succ)
        order, seen = [], set()

        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        order.reverse()
        idx = {x: i for i, x in enumerate(order)}
        pred = {x: [] for x in order}
        for x in order:
            for y in succ[x]:
                pred[y].append(x)
        # every cycle contains the target of a retreating edge (its first node in reverse postorder): cutting at
        # those is enough also for irreducible control flow (coroutines resume in the middle of their loops)
        loops = {}
        for x in order:
            for y in succ[x]:
                if idx[y] <= idx[x]:
                    L = loops.setdefault(y, {y})
                    w = [x]
                    while w:
                        z = w.pop()
                        if z not in L and idx[z] >= idx[y]:
                            L.add(z)
                            w.extend(pred[z])
        live = self.liveness(b, succ, order)
        npred = {x: len(set(pred[x])) for x in order}
        r = self.cfg_cache[inst] = (b, succ, loops, live, idx, npred)
        return r

    def liveness(self, b, succ, order):
        """locals live at block entry (uses through references are found by reachability)"""
        n = len(b['blocks'])
        gen, kill = [set() for _ in range(n)], [set() for _ in range(n)]

        def use(i, l):
            if l not in kill[i]:
                gen[i].add(l)

        def upl(i, pl):
            use(i, pl['local'])

        def uop(i, o):
            if isinstance(o, dict):
                if 'Copy' in o:
                    upl(i, o['Copy'])
                elif 'Move' in o:
                    upl(i, o['Move'])

        def walk(i, x):
            if isinstance(x, dict):
                if 'local' in x and 'projection' in x:
                    upl(i, x)
                    return
                for y in x.values():
                    walk(i, y)
            elif isinstance(x, list):
                for y in x:
                    walk(i, y)
        for i, bb in enumerate(b['blocks']):
            for st in bb['statements']:
                k = st['kind']
                if isinstance(k, str):
                    continue
                if 'Assign' in k:
                    pl, rv = k['Assign']
                    walk(i, rv)
                    if pl['projection']:
                        upl(i, pl)
                    else:
                        kill[i].add(pl['local'])
                elif 'StorageDead' in k or 'StorageLive' in k:
                    kill[i].add(k.get('StorageDead', k.get('StorageLive')))
                else:
                    walk(i, k)
            t = bb['terminator']['kind']
            if t == 'Return':
                use(i, 0)
            if isinstance(t, dict):
                k, v = next(iter(t.items()))
                if k == 'Call':
                    walk(i, v['args'])
                    walk(i, v['func'])
                    d = v['destination']
                    if d['projection']:
                        upl(i, d)
                    else:
                        kill[i].add(d['local'])
                else:
                    walk(i, v)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in reversed(order):
                o = set()
                for s in succ[i]:
                    o |= live[s]
                x = gen[i] | (o - kill[i])
                if x != live[i]:
                    live[i] = x
                    ch = True
        return live

    def call(self, S, inst, args, name=None):
        """run an instance on argument values: [(state, return value)]"""
        b = self.srv.body(inst)
        if 'err' in b:
            raise Unsupported('no body: %s' % (name or b.get('name')))
        if S.depth > self.MAXDEPTH:
            raise Unsupported('call depth')
        self.inlined[b['name']] = self.inlined.get(b['name'], 0) + 1
        cf = self.cfg(inst)
        S.depth += 1
        d = S.depth
        fn0 = S.fn
        S.fn = S.fn + (b['name'],)
        for i, a in enumerate(args):
            S.L[(d, i + 1)] = a
        if len(args) != b['nargs']:
            raise Unsupported('arity of %s: %d vs %d' % (b['name'], len(args), b['nargs']))
        self.bodies = getattr(self, 'bodies', {})
        self.bodies[d] = b
        outs = []
        self.frames = getattr(self, 'frames', {})
        for (T, bb) in self.blocks(S, inst, cf, [(S, 0)], None, None, None):
            # bb == 'ret'
            v = T.L.get((d, 0), UNINIT)
            for k in [k for k in T.L if k[0] >= d]:
                del T.L[k]
            T.depth = d - 1
            T.fn = fn0
            outs.append((T, v))
        if len(outs) > 1:
            outs = self.merge(outs)
        return outs

    # ---- joining states.  Values are immutable, so the shape of each is computed once
    def summ(self, v):
        """(shape id, leaves, heap names, locals pointed to, variables)"""
        try:
            return v.sm
        except AttributeError:
            pass
        if v is UNINIT or v is None:
            return SM_U
        if v is True or v is False:
            return SM_T if v else SM_F
        if isinstance(v, int):
            return ('.i', (v,), (), (), NOVARS)
        sk, le, nm, lr = [], [], [], []

        def sub(x):
            a, b, c, d, _ = self.summ(x)
            sk.append(a)
            le.extend(b)
            nm.extend(c)
            lr.extend(d)
        if isinstance(v, Agg):
            sk.append(('A', v.ty))
            for x in v.vals:
                sub(x)
        elif isinstance(v, Enum):
            if sym(v.d):
                sk.append(('E?', v.ty))
                le.append(v.d)
                for k in sorted(v.pl):
                    sk.append(k)
                    for x in v.pl[k]:
                        sub(x)
            else:
                sk.append(('E', v.ty, v.d))
                for x in v.pl.get(v.d, ()):
                    sub(x)
        elif isinstance(v, Cor):
            sk.append(('Cor', v.ty, v.d))
            for x in v.up:
                sub(x)
            for k in sorted(v.fl):
                if v.fl[k] is not UNINIT:
                    sk.append(('f', k))
                    sub(v.fl[k])
        elif isinstance(v, P):
            if v.root[0] == 'H':
                nm.append(v.root[1])
                sk.append(('PH', v.proj, v.meta))
            else:
                if v.root[0] == 'L':
                    lr.append((v.root[1], v.root[2]))
                sk.append(('P', v.root, v.proj, v.meta))
        elif isinstance(v, Arc):
            nm.append(v.name)
            sk.append(('Arc', v.weak, v.meta))
        elif isinstance(v, End):
            nm.append(v.name)
            sk.append(('End', v.kind))
        elif isinstance(v, Coll):
            sk.append(('C', v.kind, v.ety))
            for i, t in v.pos:
                sub(i)
                if t[0] == 'oth':
                    nm.append(t[1].root[1])
                    sk.append('oth')
                else:
                    sk.append(t)
            sub(v.len)
            sub(v.lo)
            sub(v.hi)
            for k in sorted(v.trk):
                p, x, r = v.trk[k]
                sk.append((k, p is False, p is True))
                if p is False:
                    continue
                if p is not True:
                    sub(p)
                sub(x)
                sub(r)
            if v.top is not None:
                sk.append(v.top if v.top[0] == 'trk' else 'oth')
                if v.top[0] == 'oth':
                    sub(v.top[1])
        elif isinstance(v, It):
            sk.append(('It', v.ad))
            sub(v.coll)
            sub(v.src)
        elif isinstance(v, Lock):
            sk.append(('Lk', v.kind, v.held))
            sub(v.val)
        elif isinstance(v, Guard):
            sk.append(('G', v.kind))
            sub(v.lock)
        elif isinstance(v, Atomic):
            sk.append('At')
            sub(v.t)
        elif isinstance(v, Opq):
            sk.append(('Opq', v.what))
        elif isinstance(v, Pair):
            sk.append(('Pair', v.a))
            sub(v.b)
        else:
            raise Unsupported('summ %r' % (v,))
        k = SHAPES.setdefault(tuple(sk), len(SHAPES))
        vs = [x.vs for x in le if isinstance(x, T_)]
        r = v.sm = (k, tuple(le), tuple(nm), tuple(lr), (vs[0] if len(vs) == 1 else frozenset().union(*vs)) if vs else NOVARS)
        return r

    def fastkey(self, S, live):
        """(key, leaves, order of locals, order of objects): states with equal keys differ in their leaves only"""
        fixed = self.spec.fixed
        depth = S.depth
        ks = sorted(k for k in S.L if live is None or k[0] != depth or k[1] in live)
        seenl = set(ks)
        names, order = {}, []
        sk, leaves = [], []

        def nid(n):
            r = names.get(n)
            if r is None:
                r = names[n] = n if fixed(n) else len(order)
                order.append(n)
            return r

        def visit(v):
            a, b, c, d, _ = self.summ(v)
            leaves.extend(b)
            sk.append(a)
            for n in c:
                sk.append(nid(n))
            for l in d:
                if l not in seenl:
                    seenl.add(l)
                    ks.append(l)
        i = 0
        hd = 0

        def drain():
            nonlocal i, hd
            while i < len(ks) or hd < len(order):
                while i < len(ks):
                    k = ks[i]
                    i += 1
                    v = S.L.get(k, UNINIT)
                    if v is UNINIT:
                        continue
                    sk.append(k)
                    visit(v)
                if hd < len(order):
                    n = order[hd]
                    hd += 1
                    o = S.H.get(n)
                    if o is None:
                        sk.append('dead')
                        continue
                    sk.append((o.ty, o.shared, o.rc, o.tag))
                    visit(o.val)
        drain()
        for n in S.g.get('pins', ()):
            sk.append(nid(n))
        drain()
        for n in sorted(S.H):
            if fixed(n) and n not in names:
                sk.append(n)
                nid(n)
        drain()
        gl = []
        for k in sorted(S.g, key=str):
            v = S.g[k]
            kk = k
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str) and not fixed(k[1]):
                if k[1] not in names:
                    continue
                kk = (k[0], names[k[1]])
            sk.append(kk)
            if sym(v) or self.spec.leafghost(k, v):
                sk.append('.b' if isinstance(v, bool) or v.sort() == BOOL else '.i')
                leaves.append(v)
                gl.append(k)
            elif isinstance(v, V):
                visit(v)
                gl.append(k)
            elif isinstance(v, str):
                sk.append(('n', names[v]) if v in names else v)
            elif isinstance(v, tuple):
                sk.append(tuple(names.get(x, x) if isinstance(x, str) else x for x in v))
            else:
                sk.append(('c', v))
        drain()
        return tuple(sk), leaves

    def merge(self, outs, live=None):
        """join states of the same shape: leaves that differ become new variables, defined by cases"""
        recs = {}
        # most states differ in something close at hand
        quick = {}
        summ, fixed = self.summ, self.spec.fixed
        for T, v in outs:
            d = T.depth
            k = []
            if v is not None:
                k.append(summ(v)[0])
            else:
                for l in live:
                    k.append(summ(T.L.get((d, l), UNINIT))[0])
            for n, o in T.H.items():
                if fixed(n):
                    k.append(summ(o.val)[0])
                    k.append(o.tag)
            quick.setdefault((tuple(k), T.g['held'], T.g.get('notified')), []).append((T, v))
        res = []
        if len(quick) > 1:
            for l in quick.values():
                if len(l) == 1:
                    res.append(l[0])
                else:
                    res += self.merge(l, live)
            return res
        # states that differ in the content of a few places only
        reps = []
        for T, v in outs:
            for r in reps:
                d = self.near(r[0], r[1], T, v, live)
                if d is not None:
                    r[2].append((T, v))
                    r[3].update(d)
                    break
            else:
                reps.append((T, v, [], {}))
        outs = [self.join_near(r, live) if r[2] else (r[0], r[1]) for r in reps]
        if len(outs) == 1:
            return outs
        for T, v in outs:
            if v is not None:
                T.L[(T.depth + 1, 0)] = v
            key, leaves = self.fastkey(T, live)
            T.L.pop((T.depth + 1, 0), None)
            recs.setdefault(key, []).append((T, v, leaves))
        self.nmerged = getattr(self, 'nmerged', 0) + len(outs) - len(recs)
        for l in recs.values():
            if len(l) == 1:
                res.append((l[0][0], l[0][1]))
            else:
                res.append(self.join(l, live))
        return res

    def near(self, A, va, B, vb, live):
        """the places in which A and B differ, if only in leaves; else None"""
        if A.fn is not B.fn and A.fn != B.fn:
            return None
        summ = self.summ
        d = {}

        def same(x, y, slot):
            if x is y:
                return True
            a, b = summ(x), summ(y)
            if a[0] != b[0] or a[2] != b[2] or a[3] != b[3]:
                return False
            d[slot] = 1
            return True
        if va is not None and not same(va, vb, ('v',)):
            return None
        depth = A.depth
        AL, BL = A.L, B.L
        n = 0
        for k, x in AL.items():
            if live is None or k[0] != depth or k[1] in live:
                if k not in BL:
                    if x is UNINIT:
                        continue
                    return None
                n += 1
                y = BL[k]
                if x is not y and not same(x, y, ('L', k)):
                    return None
        for k in BL:
            if k not in AL and (live is None or k[0] != depth or k[1] in live) and BL[k] is not UNINIT:
                return None
        fixed = self.spec.fixed
        AH, BH = A.H, B.H
        onea, oneb = [], []
        for k, x in AH.items():
            y = BH.get(k)
            if y is None:
                if fixed(k):
                    return None
                onea.append(k)
                continue
            if x is not y:
                if x.ty != y.ty or x.shared != y.shared or x.rc != y.rc or x.tag != y.tag or not same(x.val, y.val, ('H', k)):
                    return None
        if len(BH) > len(AH) - len(onea):
            for k in BH:
                if k not in AH:
                    if fixed(k):
                        return None
                    oneb.append(k)
        if onea and not self.unref(B, onea):
            return None
        if oneb and not self.unref(A, oneb):
            return None
        Ag, Bg = A.g, B.g
        if Ag.get('pins', ()) != Bg.get('pins', ()):
            return None
        leafghost = self.spec.leafghost
        for k, x in Ag.items():
            if k in Bg:
                y = Bg[k]
                if x is y:
                    continue
                lx = isinstance(x, T_) or leafghost(k, x)
                ly = isinstance(y, T_) or leafghost(k, y)
                if lx or ly:
                    if not (lx and ly) or self.isb(x) != self.isb(y):
                        return None
                    if isinstance(x, T_) or isinstance(y, T_) or x != y:
                        d[('g', k)] = 1
                elif isinstance(x, V):
                    if not isinstance(y, V) or not same(x, y, ('g', k)):
                        return None
                elif isinstance(y, V) or x != y:
                    return None
            elif not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str) and not fixed(k[1]) and k[1] not in BH):
                return None
            else:
                if not self.unref(B, [k[1]]):
                    return None
        for k in Bg:
            if k not in Ag:
                if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str) and not fixed(k[1]) and k[1] not in AH):
                    return None
                if not self.unref(A, [k[1]]):
                    return None
        return d

    def isb(self, x):
        return isinstance(x, bool) or (isinstance(x, T_) and not x.int)

    def unref(self, S, names):
        """nothing in S mentions any of the names"""
        summ = self.summ
        for v in S.L.values():
            if v is not UNINIT:
                for n in summ(v)[2]:
                    if n in names:
                        return False
        for o in S.H.values():
            for n in summ(o.val)[2]:
                if n in names:
                    return False
        for k, v in S.g.items():
            if isinstance(v, V):
                for n in summ(v)[2]:
                    if n in names:
                        return False
            elif isinstance(v, str):
                if v in names:
                    return False
            elif isinstance(v, tuple):
                for n in v:
                    if isinstance(n, str) and n in names:
                        return False
        return True

    def vars_of(self, v):
        return self.summ(v)[4]

    def live_vars(self, S, v, live, lv):
        depth = S.depth
        vo = self.vars_of
        if v is not None:
            x = vo(v)
            if x:
                lv |= x
        for k, y in S.L.items():
            if live is None or k[0] != depth or k[1] in live:
                x = vo(y)
                if x:
                    lv |= x
        for o in S.H.values():
            x = vo(o.val)
            if x:
                lv |= x
        for y in S.g.values():
            if isinstance(y, (V, T_)):
                x = vo(y)
                if x:
                    lv |= x

    def slot_get(self, S, v, slot):
        if slot[0] == 'v':
            return v
        if slot[0] == 'L':
            return S.L.get(slot[1], UNINIT)
        if slot[0] == 'H':
            return S.H[slot[1]].val
        return S.g[slot[1]]

    def join_near(self, r, live):
        T, v, ms, d = r
        self.nmerged = getattr(self, 'nmerged', 0) + len(ms)
        al = [T] + [X for X, _ in ms]
        slots = [sl for sl in d if sl[0] in 'vL' or all(sl[1] in (X.H if sl[0] == 'H' else X.g) for X in al)]
        l = []
        lv = set()
        for X, w in [(T, v)] + ms:
            ls = []
            for sl in slots:
                y = self.slot_get(X, w, sl)
                if isinstance(y, V):
                    ls.extend(self.summ(y)[1])
                else:
                    ls.append(y)
            l.append((X, w, ls))
            self.live_vars(X, w, live, lv)
        pc, sub = self.join_core(l, lv)
        new = [sub.get(i) for i in range(len(l[0][2]))]
        k = 0
        BH = [X.H for X, _ in ms]
        for sl in slots:
            y = self.slot_get(T, v, sl)
            n = len(self.summ(y)[1]) if isinstance(y, V) else 1
            nn = new[k:k + n]
            k += n
            if all(x is None for x in nn):
                continue
            z = self.rebuild(y, iter(nn))
            if sl[0] == 'v':
                v = z
            elif sl[0] == 'L':
                T.L[sl[1]] = z
            elif sl[0] == 'H':
                T.H[sl[1]] = T.H[sl[1]].with_(val=z)
            else:
                T.g[sl[1]] = z
        for n in list(T.H):
            for h in BH:
                if n not in h:
                    del T.H[n]
                    break
        for kk in [kk for kk in T.g if isinstance(kk, tuple) and len(kk) == 2 and isinstance(kk[1], str) and not self.spec.fixed(kk[1])]:
            for X, _ in ms:
                if kk not in X.g:
                    del T.g[kk]
                    break
        T.pc = pc
        return T, v

    def join(self, l, live):
        T, v, leaves = l[0]
        lv = set()
        for _, _, ls in l:
            for x in ls:
                if sym(x):
                    lv |= x.vs
        pc, sub = self.join_core(l, lv)
        if sub:
            if v is not None:
                T.L[(T.depth + 1, 0)] = v
            T = self.subst(T, live, [sub.get(i) for i in range(len(leaves))])
            v = T.L.pop((T.depth + 1, 0), None)
        T.pc = pc
        return T, v

    def join_core(self, l, lv):
        """(path condition, new variable for each leaf that differs)"""
        T, v, leaves = l[0]
        diff = []
        for i, a in enumerate(leaves):
            for _, _, ls in l[1:]:
                b = ls[i]
                if a is b:
                    continue
                if isinstance(a, T_) or isinstance(b, T_) or a != b:
                    diff.append(i)
                    break
        sub = {}
        phi = {}
        for i in diff:
            col = tuple(ls[i].i if isinstance(ls[i], T_) else ('c', ls[i]) for _, _, ls in l)
            x = phi.get(col)
            if x is None:
                x = phi[col] = self.bool('jb') if self.isb(leaves[i]) else z3.Int(self.fresh_name('ji'))
            sub[i] = x
        n = 0
        m = min(len(X.pc) for X, _, _ in l)
        while n < m and all(X.pc[n] is T.pc[n] for X, _, _ in l[1:]):
            n += 1
        # a joined value that is itself dead can still be what decides about a live one (`match a.cmp(&b)`)
        dead = {w for X, _, _ in l for c in X.pc[n:] for w in c.vs if w not in lv and w in self.phivars}
        lv = set(lv).union(w for w in dead if not self.phivars[w].isdisjoint(lv))
        rests = [self.relevant(X.pc[n:], lv) for X, _, _ in l]
        pre = T.pc[:n]
        ids = [frozenset(c.i for c in r) for r in rests]
        common = frozenset.intersection(*ids)
        pc = pre + tuple(c for c in rests[0] if c.i in common)
        alts, seen = [], set()
        for (X, _, ls), r, i in zip(l, rests, ids):
            k = i - common
            eqs, done = [], set()
            for j in diff:
                x = sub[j]
                if x.i not in done:
                    done.add(x.i)
                    eqs.append(self.teq(x, ls[j]))
            kk = (k, tuple(e.i for e in eqs))
            if kk in seen:
                continue
            seen.add(kk)
            alts.append(and_(*([c for c in r if c.i in k] + eqs)))
        o = or_(*alts)
        if o is not True:
            o = zv(o)
            pc = pc + (o,)
            vs = set(o.vs).union(*[self.phivars.get(w, ()) for w in o.vs])
            for x in phi.values():
                self.phivars[x.i] = vs
        return pc, sub

    def subst(self, S, live, new):
        """replace the i-th leaf (in fastkey order) by new[i] where given"""
        fixed = self.spec.fixed
        depth = S.depth
        ks = sorted(k for k in S.L if live is None or k[0] != depth or k[1] in live)
        seenl = set(ks)
        names, order = set(), []
        N = S.copy()
        pos = [0]

        def rb(v):
            le = self.summ(v)[1]
            k = pos[0]
            pos[0] += len(le)
            if all(x is None for x in new[k:k + len(le)]):
                return v
            return self.rebuild(v, iter(list(new[k:k + len(le)])))

        def nid(n):
            if n not in names:
                names.add(n)
                order.append(n)

        def visit(v):
            _, _, c, d, _ = self.summ(v)
            for n in c:
                nid(n)
            for x in d:
                if x not in seenl:
                    seenl.add(x)
                    ks.append(x)
            return rb(v)
        i = hd = 0

        def drain():
            nonlocal i, hd
            while i < len(ks) or hd < len(order):
                while i < len(ks):
                    k = ks[i]
                    i += 1
                    v = S.L.get(k, UNINIT)
                    if v is UNINIT:
                        continue
                    N.L[k] = visit(v)
                if hd < len(order):
                    n = order[hd]
                    hd += 1
                    o = S.H.get(n)
                    if o is None:
                        continue
                    x = visit(o.val)
                    if x is not o.val:
                        N.H[n] = o.with_(val=x)
        drain()
        for n in S.g.get('pins', ()):
            nid(n)
        drain()
        for n in sorted(S.H):
            if fixed(n) and n not in names:
                nid(n)
        drain()
        for k in sorted(S.g, key=str):
            v = S.g[k]
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str) and not fixed(k[1]) and k[1] not in names:
                continue
            if sym(v) or self.spec.leafghost(k, v):
                if new[pos[0]] is not None:
                    N.g[k] = new[pos[0]]
                pos[0] += 1
            elif isinstance(v, V):
                N.g[k] = visit(v)
        drain()
        if pos[0] != len(new):
            raise Unsupported('join bookkeeping %d %d' % (pos[0], len(new)))
        return N

    def rebuild(self, v, it):
        """v with its leaves (in summ order) replaced where the iterator gives a value"""
        if v is UNINIT or v is None:
            return v
        if isinstance(v, (bool, int)) or sym(v):
            x = next(it)
            return v if x is None else x
        r = lambda x: self.rebuild(x, it)
        if isinstance(v, Agg):
            return Agg(v.ty, [r(x) for x in v.vals])
        if isinstance(v, Enum):
            if sym(v.d):
                x = next(it)
                d = v.d if x is None else x
                return Enum(v.ty, d, {k: tuple(r(x) for x in v.pl[k]) for k in sorted(v.pl)})
            return Enum(v.ty, v.d, {v.d: tuple(r(x) for x in v.pl.get(v.d, ()))})
        if isinstance(v, Cor):
            up = [r(x) for x in v.up]
            return Cor(v.ty, v.d, up, {k: r(v.fl[k]) for k in sorted(v.fl) if v.fl[k] is not UNINIT})
        if isinstance(v, (P, Arc, End, Opq)):
            return v
        if isinstance(v, Pair):
            return Pair(v.a, r(v.b))
        if isinstance(v, Coll):
            pos = tuple((r(i), t) for i, t in v.pos)
            ln, lo, hi = r(v.len), r(v.lo), r(v.hi)
            trk = {}
            for k in sorted(v.trk):
                p, x, rk = v.trk[k]
                if p is False:
                    trk[k] = v.trk[k]
                    continue
                if p is not True:
                    p = r(p)
                x = r(x)
                trk[k] = (p, x, r(rk))
            top = v.top
            if top is not None and top[0] == 'oth':
                top = ('oth', r(top[1]))
            return Coll(v.kind, v.ety, ln, trk, lo, hi, top, pos)
        if isinstance(v, It):
            c = r(v.coll)
            return It(c, r(v.src), v.ad)
        if isinstance(v, Lock):
            return Lock(v.kind, v.ty, r(v.val), v.held)
        if isinstance(v, Guard):
            return v
        if isinstance(v, Atomic):
            return Atomic(r(v.t))
        raise Unsupported('rebuild %r' % (v,))

    def zvars(self, x):
        return x.vs

    def relevant(self, cs, live):
        """the constraints connected to the live variables"""
        live = set(live)
        cs = list(cs)
        vs = [self.zvars(c) for c in cs]
        keep = [False] * len(cs)
        ch = True
        while ch:
            ch = False
            for i, v in enumerate(vs):
                if not keep[i] and (v & live or not v):
                    keep[i] = True
                    if not v <= live:
                        live |= v
                        ch = True
        return [c for c, k in zip(cs, keep) if k]

    def blocks(self, S, inst, cf, start, head, region, arrivals):
        """explore from start; returns the states that return or leave the region: [(state, 'ret'|block)]"""
        b, succ, loops, live, idx, npred = cf
        outs = []
        pend = {}
        for S, bb in start:
            pend.setdefault(bb, []).append(S)
        first = True
        seen = self.seen.setdefault(b['name'], set()) if 'xtra' in b['name'] else set()
        while pend:
            # blocks in topological order (loops are single nodes), so that all states that meet at a join are there
            bb = min(pend, key=lambda x: -1 if x == 'ret' else idx[x])
            states = pend.pop(bb)
            if bb == 'ret' or (region is not None and bb not in region):
                outs.extend((S, bb) for S in states)
                continue
            if bb == head and not first:
                arrivals.extend(states)
                continue
            if len(states) > 1:
                states = [S for S, _ in self.merge([(S, None) for S in states], live[bb])]
            seen.add(bb)
            nxt = []
            if bb in loops and bb != head:
                for S in states:
                    nxt += self.loop(S, inst, cf, bb)
            else:
                first = False
                for S in states:
                    nxt += self.block(S, inst, b, bb)
            for S, x in nxt:
                pend.setdefault(x, []).append(S)
        return outs

    def block(self, S, inst, b, bb):
        blk = b['blocks'][bb]
        self.steps += 1
        self.cur = b
        for st in blk['statements']:
            k = st['kind']
            if isinstance(k, str):
                continue
            if 'Assign' in k:
                pl, rv = k['Assign']
                self.curb = b
                dty = self.place_ty(S, b, pl) if isinstance(rv, dict) and 'Aggregate' in rv else None
                S_BODY[0] = b
                v = self.rvalue(S, rv, dty)
                self.store(S, self.place(S, pl), v)
            elif 'StorageDead' in k:
                S.L.pop((S.depth, k['StorageDead']), None)
            elif 'StorageLive' in k:
                S.L.pop((S.depth, k['StorageLive']), None)
            elif 'SetDiscriminant' in k:
                sd = k['SetDiscriminant']
                p = self.place(S, sd['place'])
                v = self.load(S, p)
                if isinstance(v, Cor):
                    # state change: keep what the new state stores
                    self.store(S, p, Cor(v.ty, sd['variant_index'], v.up, v.fl))
                elif isinstance(v, Enum):
                    self.store(S, p, Enum(v.ty, sd['variant_index'], v.pl))
                else:
                    raise Unsupported('SetDiscriminant on %r' % (v,))
            elif 'Intrinsic' in k or 'FakeRead' in k or 'Retag' in k or 'PlaceMention' in k or 'AscribeUserType' in k or 'Coverage' in k or 'ConstEvalCounter' in k:
                continue
            else:
                raise Unsupported('statement %r' % (k,))
        t = blk['terminator']['kind']
        if t == 'Return':
            return [(S, 'ret')]
        if t == 'Unreachable':
            if self.feas(S):
                raise Unsupported('reached Unreachable in %s bb%d' % (b['name'], bb))
            return []
        if isinstance(t, str):
            raise Unsupported('terminator ' + t)
        k, v = next(iter(t.items()))
        if k == 'Goto':
            return [(S, v['target'])]
        if k == 'SwitchInt':
            return self.switch(S, b, v)
        if k == 'Assert':
            c = self.operand(S, v['cond'])
            bad = c if not v['expected'] else not_(c)
            out = []
            for T, x in self.split(S, bad):
                if x:
                    self.spec.on_panic(T, 'assert:%s' % (str(v['msg'])[:60]))
                else:
                    self.spec.no_panic(T)
                    out.append((T, v['target']))
            return out
        if k == 'Drop':
            dinfo = b['drops'][str(bb)]
            if dinfo['empty']:
                return [(S, v['target'])]
            p = self.place(S, v['place'])
            res = self.drop(S, dinfo['ty'], p)
            if p.root[0] == 'L' and not p.proj:
                for T in res:
                    T.L.pop((p.root[1], p.root[2]), None)
            return [(T, v['target']) for T in res]
        if k == 'Call':
            args = [self.operand(S, o) for o in v['args']]
            self.curargs = v['args']
            S_BODY[0] = b
            dp = v['destination']
            c = b['calls'].get(str(bb))
            if c is None or 'inst' not in c:
                fv = self.operand(S, v['func'])
                raise Unsupported('indirect call %r %s' % (fv, c))
            dty = self.place_ty(S, b, dp)
            outs = []
            for T, r in self.invoke(S, c, args, dty):
                if v['target'] is None:
                    continue
                self.store(T, self.place(T, dp), r)
                outs.append((T, v['target']))
            return outs
        raise Unsupported('terminator %s' % k)

    def place_ty(self, S, b, pl):
        t = b['locals'][pl['local']]
        for e in pl['projection']:
            if e == 'Deref':
                i = self.ty(t)
                t = i['ty'] if i['k'] in ('Ref', 'RawPtr') else self.targs(t)[0]
            elif 'Field' in e:
                t = e['Field'][1]
        return t

    def as_signed(self, b, o, val):
        """a branch value of a switch (MIR has the bits, unsigned) as a value of the operand's type"""
        if val < 128:
            return val
        pl = o.get('Copy') or o.get('Move')
        r = self.int_range(self.place_ty(None, b, pl)) if pl else None
        if r and r[0] < 0 and val > r[1]:
            return val - (r[1] - r[0] + 1)
        return val

    def switch(self, S, b, v):
        d = self.operand(S, v['discr'])
        tg = v['targets']
        d = con(d)
        if not sym(d):
            d = int(d)
            for val, bb in tg['branches']:
                if self.as_signed(b, v['discr'], val) == d:
                    return [(S, bb)]
            return [(S, tg['otherwise'])]
        if d.sort() == BOOL:
            out = []
            for T, x in self.split(S, d):
                for val, bb in tg['branches']:
                    if val == int(x):
                        out.append((T, bb))
                        break
                else:
                    out.append((T, tg['otherwise']))
            return out
        out = []
        rest = []
        for val, bb in tg['branches']:
            c = con(z3.simplify(d == self.as_signed(b, v['discr'], val)))
            if c is False:
                continue
            rest.append(c)
            if self.may(S, c):
                T = S.copy()
                self.assume(T, c)
                out.append((T, bb))
        no = not_(or_(*rest)) if rest else True
        if self.may(S, no):
            T = S.copy()
            self.assume(T, no)
            out.append((T, tg['otherwise']))
        return out

    # ---------------------------------------------------------------- calls
    INLINE = ('xtra', 'vharness', 'futures_util', 'futures_core', 'std::option', 'std::result', 'std::ops', 'std::pin',
              'std::future', 'std::convert', 'std::cmp', 'std::task', 'std::mem', 'core', 'std::bool', 'std::boxed',
              'std::iter', 'std::borrow', 'pin_project_lite', 'std::default', 'std::clone', 'std::num', 'std::ptr', 'alloc',
              'catty', 'std::tuple', 'std::hash', 'std::marker')

    def invoke(self, S, c, args, dty):
        pins = S.g.get('pins', ())
        out = self.invoke_(S, c, args, dty)
        for T, _ in out:
            T.g['pins'] = pins
        if c.get('src', '').endswith('Future::poll') and c.get('srcargs'):
            out = self.spec.polled(c, out)
        return out

    def invoke_(self, S, c, args, dty):
        d = c['def']
        src = c.get('src') or d
        for key in (d, src):
            m = self.models.get(key)
            if m:
                self.modelled[key] = self.modelled.get(key, 0) + 1
                r = m(self, S, c, args, dty)
                if r is not NotImplemented:
                    return r
        if c['kind'].startswith('Virtual'):
            return self.virtual(S, c, args, dty)
        if src in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call') and not c['has_body'] or \
                (src in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')):
            return self.call_closure(S, c['srcargs'][0]['t'], args[0], list(args[1].vals), src.rsplit('_', 1)[-1])
        if c['kind'] == 'Intrinsic':
            raise Unsupported('intrinsic %s' % c.get('intr'))
        h = self.spec.contract(S, c, args, dty)
        if h is not None:
            return h
        if not c['has_body']:
            raise Unsupported('no model and no body: %s' % d)
        base = d.lstrip('<').lstrip('&')
        tr_ = d.split(' as ', 1)[1] if ' as ' in d else ''
        if not (base.startswith(self.INLINE) or tr_.startswith(self.INLINE) or 'xtra::' in d or '{closure' in d or '{impl' in d):
            raise Unsupported('library function without model: %s (from %s)' % (d, src))
        return self.call(S, c['inst'], args, d)

    def call_closure(self, S, fty, fv, args, how='once'):
        """call a closure / fn item value (fv may be a reference to it)"""
        t = self.ty(fty)
        if t['k'] == 'Ref':
            v = self.load(S, fv) if self.ty(t['ty'])['k'] == 'Ref' else fv
            t2 = self.ty(t['ty'])
            if t2['k'] == 'Ref':
                return self.call_closure(S, t['ty'], v, args, how)
            return self.call_closure(S, t['ty'], fv, args, 'mut')
        if t['k'] == 'FnDef':
            r = self.srv.closure(fty, 'FnOnce')
            if 'inst' not in r:
                raise Unsupported('fn item %s' % t)
            r.setdefault('src', r['def'])
            rt = None
            return self.invoke(S, dict(r, srcargs=r['args']), args, None)
        if t['k'] != 'Closure':
            raise Unsupported('call of %s' % t)
        env = self.ty(t['args'][-3]['t']) if False else None
        # which way does the closure body take its environment?
        for ck in ('Fn', 'FnMut', 'FnOnce'):
            r = self.srv.closure(fty, ck)
            if 'inst' in r and r['kind'] == 'Item':
                b = self.srv.body(r['inst'])
                if 'err' in b:
                    continue
                byref = self.ty(b['locals'][1])['k'] == 'Ref'
                if byref:
                    if isinstance(fv, P):
                        self_arg = fv
                    else:
                        n = self.alloc(S, fv, fty)
                        self_arg = P(('H', n))
                else:
                    self_arg = self.load(S, fv) if isinstance(fv, P) else fv
                outs = self.call(S, r['inst'], [self_arg] + args)
                if byref and not isinstance(fv, P):
                    # the closure value itself is dropped by the caller of call_once
                    res = []
                    for T, v in outs:
                        for U in self.drop(T, fty, P(('H', n))):
                            U.H.pop(n, None)
                            res.append((U, v))
                    return res
                return outs
        raise Unsupported('closure %s' % t['s'])

    def closure_ret(self, fty):
        for ck in ('Fn', 'FnMut', 'FnOnce'):
            r = self.srv.closure(fty, ck)
            if 'inst' in r:
                b = self.srv.body(r['inst'])
                if 'err' not in b:
                    return b['locals'][0]
        return None

    def selfptr(self, v):
        """the pointer inside a receiver argument"""
        if isinstance(v, (P, Arc)):
            return v
        if isinstance(v, Agg) and len(v.vals) == 1:
            return self.selfptr(v.vals[0])
        raise Unsupported('receiver %r' % (v,))

    def virtual(self, S, c, args, dty):
        p = self.selfptr(args[0])
        if isinstance(p, Arc):
            t = p.meta
            o = S.H.get(p.name)
            if t is None:
                t = o.ty
        else:
            t = self.pty(S, p)
        if self.ty(t)['k'] == 'Dyn':
            n = self.spec.lazy(S, p)
            if n:
                r = self.spec.lazy_virtual(S, n, c, dty)
                if r is not None:
                    return r
                out = []
                for T in self.spec.materialise(S, n):
                    out += self.virtual(T, c, args, dty)
                return out
            raise Unsupported('dyn object of unknown type')
        a = [x['t'] for x in c['srcargs'] if 't' in x]
        r = self.srv.resolve(c['src'], [t] + a[1:])
        r = [x for x in r if 'inst' in x] if isinstance(r, list) else []
        if not r:
            raise Unsupported('cannot resolve %s for %s' % (c['src'], self.ty(t).get('s')))
        r = dict(r[0], src=c['src'], srcargs=[{'t': t}] + [{'t': x} for x in a[1:]])
        return self.invoke(S, r, args, dty)

    def trait_call(self, S, trait_fn, tys, args, dty=None):
        r = self.srv.resolve(trait_fn, tys)
        r = [x for x in r if 'inst' in x] if isinstance(r, list) else []
        if not r:
            raise Unsupported('cannot resolve %s' % trait_fn)
        return self.invoke(S, dict(r[0], src=trait_fn, srcargs=[{'t': x} for x in tys]), args, dty)

    # ---------------------------------------------------------------- drop
    def drop(self, S, ty, p):
        pins = S.g.get('pins', ())
        out = self.drop_(S, ty, p)
        for T in out:
            T.g['pins'] = pins
        return out

    def drop_(self, S, ty, p):
        t = self.ty(ty)
        k = t['k']
        if k in ('Bool', 'Char', 'Int', 'Uint', 'Float', 'Ref', 'RawPtr', 'FnDef', 'FnPtr', 'Str', 'Never'):
            return [S]
        if k == 'Dyn':
            t = self.pty(S, p)
            n = self.spec.lazy(S, p)
            if n and self.ty(t)['k'] == 'Dyn':
                out = []
                for T in self.spec.materialise(S, n):
                    out += self.drop(T, T.H[n].ty, P(p.root, p.proj))
                return out
            return self.drop(S, t, P(p.root, p.proj))
        if k == 'Adt':
            if t.get('box'):
                return self.drop_box(S, ty, p)
            h = self.mod.DROPS.get(t['name'])
            if h:
                return h(self, S, ty, p)
            self.spec.on_drop_start(S, ty, p)
        d = self.srv.drop(ty)
        if d['empty']:
            return [S]
        b = self.srv.body(d['inst'])
        if 'err' in b:
            raise Unsupported('drop glue of %s' % t.get('s'))
        return [T for T, _ in self.call(S, d['inst'], [P(p.root, p.proj, p.meta)])]

    def drop_box(self, S, ty, p):
        v = self.load(S, p)
        inner = self.targs(ty)[0]
        if v is UNINIT:
            return [S]
        q = self.selfptr(v)
        t = inner
        if self.ty(inner)['k'] == 'Dyn':
            t = self.pty(S, q)
        self.spec.on_box_drop(S, ty, q)
        if q.root[0] == 'H':
            self.pin(S, q.root[1])
        out = []
        for T in self.drop(S, t, P(q.root, q.proj)):
            if q.root[0] == 'H' and not q.proj and not self.spec.fixed(q.root[1]):
                T.H.pop(q.root[1], None)
            out.append(T)
        return out

    def drop_value(self, S, ty, v):
        """drop a value that is not in a place"""
        n = self.alloc(S, v, ty)
        out = []
        for T in self.drop(S, ty, P(('H', n))):
            T.H.pop(n, None)
            out.append(T)
        return out

    def strong_refs(self, S, n):
        """number of strong references to n held by the values of this state"""
        k = 0

        def go(v):
            nonlocal k
            if isinstance(v, Arc):
                if v.name == n and not v.weak:
                    k += 1
            elif isinstance(v, Agg):
                for x in v.vals:
                    go(x)
            elif isinstance(v, Enum):
                for xs in v.pl.values():
                    for x in xs:
                        go(x)
            elif isinstance(v, Cor):
                for x in v.up:
                    go(x)
                for x in v.fl.values():
                    go(x)
            elif isinstance(v, Lock):
                if v.val is not None:
                    go(v.val)
            elif isinstance(v, Coll):
                for p, x, r in v.trk.values():
                    if p is not False:
                        go(x)
        for d in (S.L.values(), (o.val for o in S.H.values())):
            for v in d:
                if isinstance(v, V) and n in self.summ(v)[2]:
                    go(v)
        return k

    # ---------------------------------------------------------------- arbitrary values
    def fresh(self, S, ty, h=None):
        """all shapes of an arbitrary valid value of type ty: [(state, value)]; h: hints for the spec"""
        r = self.spec.fresh(S, ty, h)
        if r is not None:
            return r
        t = self.ty(ty)
        k = t['k']
        if k == 'Bool':
            return [(S, self.bool('fb'))]
        if k in ('Uint', 'Int'):
            mx = {'U8': 255, 'U16': 65535, 'U32': 2 ** 32 - 1, 'U64': 2 ** 64 - 1, 'Usize': 2 ** 64 - 1}.get(t['w'])
            return [(S, self.int(S, 'fi', 0 if k == 'Uint' else None, mx))]
        if k == 'Tuple':
            return self.fresh_fields(S, t['tys'], lambda vs: Agg(None, vs), h)
        if k == 'Ref':
            out = []
            for T, v in self.fresh(S, t['ty'], h):
                out.append((T, P(('H', self.alloc(T, v, t['ty'])))))
            return out
        if k == 'Adt':
            f = self.mod.FRESH.get(t['name'])
            if f:
                return f(self, S, ty, h)
            if t.get('box'):
                out = []
                for ct in self.concrete(self.targs(ty)[0]):
                    for T, v in self.fresh(S.copy(), ct, h):
                        n = self.alloc(T, v, ct)
                        out.append((T, P(('H', n), (), ct if ct != self.targs(ty)[0] else None)))
                return out
            if t['ak'] == 'Enum':
                out = []
                for i, v in enumerate(t['variants']):
                    if any(self.ty(f['ty'])['k'] == 'Never' for f in v['fields']):
                        continue
                    out += self.fresh_fields(S.copy(), [f['ty'] for f in v['fields']], lambda vs, i=i: Enum(ty, i, {i: tuple(vs)}), h)
                return out
            out = self.fresh_fields(S, [f['ty'] for f in t['variants'][0]['fields']], lambda vs: Agg(ty, vs), h)
            for T, v in out:
                self.spec.on_fresh(T, ty, v)
            return out
        raise Unsupported('arbitrary value of type %s' % (t.get('s') or k))

    def sym_enum(self, S, ty):
        """an arbitrary value of an enum with plain integers in it, as one value"""
        t = self.ty(ty)
        pl = {}
        for i, v in enumerate(t['variants']):
            fs = []
            for f in v['fields']:
                if self.ty(f['ty'])['k'] not in ('Uint', 'Int', 'Bool'):
                    return None
                fs.append(self.fresh(S, f['ty'])[0][1])
            pl[i] = tuple(fs)
        d = z3.Int(self.fresh_name('ed'))
        self.assume(S, or_(*[d == int(v['discr']) for v in t['variants']]))
        return Enum(ty, d, pl)

    def enum_eq(self, a, b):
        vs = self.ty(a.ty)['variants']
        alts = []
        for i, v in enumerate(vs):
            c = [eq(self.discr(a), int(v['discr'])), eq(self.discr(b), int(v['discr']))]
            if c[0] is False or c[1] is False:
                continue
            if not (i in a.pl or not v['fields']) or not (i in b.pl or not v['fields']):
                continue
            c += [eq(x, y) for x, y in zip(a.pl.get(i, ()), b.pl.get(i, ()))]
            alts.append(and_(*c))
        return or_(*alts)

    def fresh_fields(self, S, tys, mk, h):
        cur = [(S, [])]
        for ft in tys:
            nxt = []
            for T, vs in cur:
                for U, v in self.fresh(T, ft, h):
                    nxt.append((U, vs + [v]))
            cur = nxt
        return [(T, mk(vs)) for T, vs in cur]

    def concrete(self, t):
        if self.ty(t)['k'] != 'Dyn':
            return [t]
        r = self.spec.dyn_types(t)
        if not r:
            raise Unsupported('no implementor known for %s' % self.ty(t)['s'])
        return r

    # ---------------------------------------------------------------- loops
    def canon(self, S, live=None, fl=None, rename=True):
        """traverse everything reachable; returns (skeleton, leaves, new state with fl applied)"""
        leaves, names, order = [], {}, []
        fixed = self.spec.fixed

        def leaf(x):
            leaves.append(x)
            return fl(len(leaves) - 1, x) if fl else x

        def name(n):
            if n not in names:
                names[n] = n if fixed(n) else '@%d' % len(names)
                order.append(n)
            return names[n]
        N = State.__new__(State)
        N.L, N.H, N.pc, N.depth, N.fn = {}, {}, S.pc, S.depth, S.fn
        sk = []

        def visit(v):
            def fnm(n):
                name(n)
                return n
            nv, s = tr(v, leaf, fnm)
            return nv, self.sk_names(s, names)
        for k in self.reach(S, live):
            v = S.L.get(k, UNINIT)
            if v is UNINIT:
                continue
            nv, s = visit(v)
            N.L[k] = nv
            sk.append(('L', k[0], k[1], s))
        for n in S.g.get('pins', ()):
            name(n)
        hdone = 0
        while hdone < len(order):
            n = order[hdone]
            hdone += 1
            o = S.H.get(n)
            if o is None:
                continue
            nv, s = visit(o.val)
            N.H[n] = o.with_(val=nv)
            sk.append(('H', names[n], s, o.ty, o.shared, o.rc, o.tag))
        # fixed objects stay even when not reachable
        for n in sorted(S.H):
            if fixed(n) and n not in N.H:
                name(n)
                o = S.H[n]
                nv, s = visit(o.val)
                N.H[n] = o.with_(val=nv)
                sk.append(('H', n, s, o.ty, o.shared, o.rc, o.tag))
                while hdone < len(order):
                    m = order[hdone]
                    hdone += 1
                    o2 = S.H.get(m)
                    if o2 is None or m in N.H:
                        continue
                    nv, s = visit(o2.val)
                    N.H[m] = o2.with_(val=nv)
                    sk.append(('H', names[m], s, o2.ty, o2.shared, o2.rc, o2.tag))
        g2 = {}
        for k in sorted(S.g, key=str):
            v = S.g[k]
            kk = k
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str) and not fixed(k[1]):
                if k[1] not in names:
                    continue                # ghost fact about an unreachable object
                kk = (k[0], names[k[1]])
            if sym(v) or self.spec.leafghost(k, v):
                g2[k] = leaf(v)
                sk.append(('g', kk, '.Bool' if isinstance(v, bool) or v.sort() == BOOL else '.Int'))
            elif isinstance(v, V):
                nv, s = visit(v)
                g2[k] = nv
                sk.append(('g', kk, s))
            elif isinstance(v, int) and not isinstance(v, bool) and k in self.spec.numeric_ghost:
                g2[k] = leaf(v)
                sk.append(('g', kk, '.Int'))
            elif isinstance(v, str) and v in names:
                g2[k] = v
                sk.append(('g', kk, 'n' + names[v]))
            elif isinstance(v, tuple):
                g2[k] = v
                sk.append(('g', kk, tuple(names.get(x, x) if isinstance(x, str) else x for x in v)))
            else:
                g2[k] = v
                sk.append(('g', kk, v))
        N.g = g2
        return tuple(sk), leaves, N

    def reach(self, S, live):
        """the locals that matter: live in the current frame, all of the callers', and any pointed to"""
        ks = set(k for k in S.L if live is None or k[0] != S.depth or k[1] in live)
        seen = set()
        todo = [S.L[k] for k in ks]
        todo += [S.H[n].val for n in S.g.get('pins', ()) if n in S.H]

        def go(v):
            if isinstance(v, P):
                if v.root[0] == 'L':
                    k = (v.root[1], v.root[2])
                    if k not in ks and k in S.L:
                        ks.add(k)
                        todo.append(S.L[k])
                elif v.root[0] == 'H':
                    nm(v.root[1])
            elif isinstance(v, (Arc, End)):
                nm(v.name)
            elif isinstance(v, Agg):
                for x in v.vals:
                    go(x)
            elif isinstance(v, Enum):
                for xs in v.pl.values():
                    for x in xs:
                        go(x)
            elif isinstance(v, Cor):
                for x in v.up:
                    go(x)
                for x in v.fl.values():
                    go(x)
            elif isinstance(v, Lock):
                go(v.val)
            elif isinstance(v, Guard):
                go(v.lock)
            elif isinstance(v, Pair):
                go(v.b)
            elif isinstance(v, It):
                go(v.coll)
                go(v.src)
            elif isinstance(v, Coll):
                for p, e, r in v.trk.values():
                    go(e)
                for i, t in v.pos:
                    if t[0] == 'oth':
                        nm(t[1].root[1])
                if v.top is not None and v.top[0] == 'oth':
                    go(v.top[1])

        def nm(n):
            if n not in seen:
                seen.add(n)
                if n in S.H:
                    todo.append(S.H[n].val)
        while todo:
            go(todo.pop())
        return sorted(ks)

    def sk_names(self, s, names):
        if isinstance(s, tuple):
            if s and s[0] == 'P' and isinstance(s[1], tuple) and s[1][0] == 'H':
                return ('P', ('H', names[s[1][1]]), tuple((e[0], names.get(e[1], e[1])) if isinstance(e, tuple) and e[0] == 'trk' else e for e in s[2]), s[3])
            if s and s[0] == 'Arc':
                return ('Arc', names[s[1]], s[2], s[3])
            if s and s[0] == 'End':
                return ('End', s[1], names[s[2]])
            return tuple(self.sk_names(x, names) for x in s)
        return s

    def loop(self, S0, inst, cf, head):
        b, succ, loops, live, idx, npred = cf
        region = loops[head]
        recs = {}
        dirty = []
        if not hasattr(self, 'roots'):
            self.roots = {}
        self.nloops = getattr(self, 'nloops', 0) + 1
        lname = '%s:bb%d' % (b['name'], head)
        roots = self.roots.setdefault((inst, head), [])

        def absorb(S):
            if not self.feas(S):
                return
            self.spec.at_loop_head(S)
            key, leaves, N = self.canon(S, live[head])
            r = recs.get(key)
            begun = self.spec.begun(S)
            if r is None and begun and roots:
                # the same situation as before anything happened: all behaviours from there are explored anyway
                # (by this run, or by the runs that take the other parts of the cases)
                lk, ll, _ = self.canon(self.spec.loose(S), live[head])
                for k0, l0 in roots:
                    if k0 == lk and len(l0) == len(ll) and all(eq(x, y) is True for x, y in zip(l0, ll)):
                        self.subsumed = getattr(self, 'subsumed', 0) + 1
                        return
            if r is None:
                if not begun:
                    lk, ll, _ = self.canon(self.spec.loose(S), live[head])
                    roots.append((lk, ll))
                if len(recs) > 400:
                    raise Unsupported('too many loop shapes in ' + lname)
                r = recs[key] = dict(key=key, leaves=leaves, pc=S.pc, cands=None, gen={}, S=N, exits=[], obl=[])
                dirty.append(r)
                return
            changed = False
            # leaves that differ become arbitrary
            diff = [i for i, (a, c) in enumerate(zip(r['leaves'], leaves))
                    if i not in r['gen'] and eq(a, c) is not True and not self.must(S, self.teq(a, c))]
            pre = 0
            while pre < len(r['pc']) and pre < len(S.pc) and r['pc'][pre] is S.pc[pre]:
                pre += 1
            if diff:
                old = [r['gen'].get(i, x) for i, x in enumerate(r['leaves'])]
                oldS = State()
                oldS.pc = r['pc'] + tuple(z for z in (r['cands'] or {}).values())
                for i in diff:
                    x = r['leaves'][i]
                    isb = isinstance(x, bool) or (sym(x) and x.sort() == BOOL)
                    r['gen'][i] = self.bool('lb') if isb else z3.Int(self.fresh_name('li'))
                new = [r['gen'].get(i, x) for i, x in enumerate(r['leaves'])]
                # candidate invariants: relations that hold before and in the new arrival
                cands = dict(r['cands'] or {})
                for cid, mk in self.templates(r['leaves'], set(r['gen']), diff):
                    a, c = mk(old), mk(leaves)
                    if self.must(oldS, a) and self.must(S, c):
                        z = mk(new)
                        if z is not True:
                            cands[cid] = zv(z)
                            r.setdefault('mk', {})[cid] = mk
                r['cands'] = cands
                changed = True
            if pre < len(r['pc']):
                r['pc'] = r['pc'][:pre]
                changed = True
            # candidates that do not hold on arrival go
            for cid in list(r['cands'] or {}):
                if not self.must(S, r['mk'][cid](leaves)):
                    del r['cands'][cid]
                    changed = True
            if changed and r not in dirty:
                dirty.append(r)

        absorb(S0)
        rounds = 0
        while dirty:
            rounds += 1
            if rounds > 600:
                raise Unsupported('loop does not stabilise: ' + lname)
            r = dirty.pop(0)
            T = r['S']
            gen = r['gen']
            if gen:
                vals = [gen.get(i, x) for i, x in enumerate(r['leaves'])]
                _, _, T = self.canon(T, None, lambda i, x: vals[i])
            else:
                T = T.copy()
            T.pc = r['pc']
            for i, x in gen.items():
                if x.sort() == INT:
                    pass
            for c in (r['cands'] or {}).values():
                self.assume(T, c)
            saved, self.obl = self.obl, []
            arr = []
            try:
                ex = self.blocks(T, inst, cf, [(T, head)], head, region, arr)
            finally:
                r['obl'], self.obl = self.obl, saved
            r['exits'] = ex
            for A in arr:
                absorb(A)
        outs = []
        for r in recs.values():
            self.obl.extend(r['obl'])
            outs.extend(r['exits'])
        st = self.loopstats.setdefault(lname, [0, 0, 0])
        st[0] += 1
        st[1] = max(st[1], len(recs))
        st[2] += rounds
        return outs

    def teq(self, a, b):
        return z3.teq(a, b)

    def templates(self, leaves, gen, diff):
        """candidate loop invariants over the leaf vector"""
        isb = [isinstance(x, bool) or (sym(x) and x.sort() == BOOL) for x in leaves]
        ints = [i for i in range(len(leaves)) if not isb[i]]
        out = []
        for i in diff:
            if isb[i]:
                continue
            out.append((('ge0', i), lambda l, i=i: cmp_('Ge', l[i], 0)))
            out.append((('ge1', i), lambda l, i=i: cmp_('Ge', l[i], 1)))
            for j in ints:
                if j == i or (j in gen and j in diff and j < i):
                    continue
                out.append((('le', i, j), lambda l, i=i, j=j: le(l[i], l[j])))
                out.append((('ge', i, j), lambda l, i=i, j=j: le(l[j], l[i])))
        # entry value bounds
        for i in diff:
            if not isb[i]:
                x = leaves[i]
                out.append((('le0', i), lambda l, i=i, x=x: le(l[i], x)))
                out.append((('gee', i), lambda l, i=i, x=x: le(x, l[i])))
        return out


S_BODY = [None]


def S_body(S, eng):
    return S_BODY[0]


def json_key(a):
    return str(a)[:200]
