"""Symbolic values (immutable)."""
import terms as z3
from terms import T, TRUE, FALSE

INT, BOOL = z3.IntSort(), z3.BoolSort()


class Unsupported(Exception):
    pass


def con(x):
    """python constant if a literal"""
    if isinstance(x, T) and x.op == 'k':
        return x.args
    return x


def sym(x):
    return isinstance(x, T)


def zv(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def b2i(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, T) and not x.int:
        return con(z3.If(x, 1, 0))
    return x


def eq(a, b):
    if a is b:
        return True
    if not isinstance(a, T) and not isinstance(b, T):
        return a == b
    return con(z3.teq(a, b))


def not_(a):
    return con(z3.Not(a))


def and_(*xs):
    return con(z3.And(*xs))


def or_(*xs):
    return con(z3.Or(*xs))


def imp(a, b):
    return con(z3.Or(z3.Not(a), b))


def ite(c, a, b):
    return con(z3.If(c, a, b))


def add(*xs):
    return con(z3.Sum(xs))


def cmp_(op, a, b):
    if op == 'Le':
        return con(z3.tle(a, b, 0))
    if op == 'Lt':
        return con(z3.tle(a, b, -1))
    if op == 'Gt':
        return con(z3.tle(b, a, -1))
    return con(z3.tle(b, a, 0))


def le(a, b):
    return con(z3.tle(a, b, 0))


def lt(a, b):
    return con(z3.tle(a, b, -1))


class V:
    __slots__ = ('sm',)             # cached summary


class _Uninit(V):
    def __repr__(self):
        return 'UNINIT'


UNINIT = _Uninit()


class Agg(V):
    """struct / tuple / closure"""
    __slots__ = ('ty', 'vals')

    def __init__(s, ty, vals):
        s.ty, s.vals = ty, tuple(vals)

    def __repr__(s):
        return '(%s)' % ','.join(map(repr, s.vals))


class Enum(V):
    """d: variant *index* (python int) or, for payload-free symbolic results, an int term"""
    __slots__ = ('ty', 'd', 'pl')

    def __init__(s, ty, d, pl=None):
        s.ty, s.d, s.pl = ty, d, pl or {}

    def __repr__(s):
        return 'E%s%r' % (s.d, s.pl.get(s.d, '') if not sym(s.d) else s.pl)


class Cor(V):
    """coroutine: d = state, up = captured, fl = saved local -> value"""
    __slots__ = ('ty', 'd', 'up', 'fl')

    def __init__(s, ty, d, up, fl):
        s.ty, s.d, s.up, s.fl = ty, d, tuple(up), fl

    def __repr__(s):
        return 'Cor%s%r%r' % (s.d, s.up, s.fl)


class P(V):
    """pointer: root = ('L',depth,local) | ('H',name) | ('S',..)"""
    __slots__ = ('root', 'proj', 'meta')

    def __init__(s, root, proj=(), meta=None):
        s.root, s.proj, s.meta = root, tuple(proj), meta

    def __repr__(s):
        return '&%s%s' % ('.'.join(map(str, s.root)), list(s.proj) or '')


class Arc(V):
    __slots__ = ('name', 'weak', 'meta')

    def __init__(s, name, weak=False, meta=None):
        s.name, s.weak, s.meta = name, weak, meta

    def __repr__(s):
        return '%s:%s' % ('Weak' if s.weak else 'Arc', s.name)


class End(V):
    """one end of an oneshot / an event listener / a waker handle: name of the shared object and side"""
    __slots__ = ('kind', 'name')

    def __init__(s, kind, name):
        s.kind, s.name = kind, name

    def __repr__(s):
        return '%s:%s' % (s.kind, s.name)


class Coll(V):
    """kind: 'vec' | 'deque' | 'heap'; trk: name -> (present, elem, rank); len counts everything.
    top: None | ('trk', name) | ('oth', elem): the known maximum of a heap"""
    __slots__ = ('kind', 'ety', 'len', 'trk', 'lo', 'hi', 'top', 'pos')

    def __init__(s, kind, ety, ln, trk, lo=0, hi=0, top=None, pos=()):
        s.kind, s.ety, s.len, s.trk, s.lo, s.hi, s.top, s.pos = kind, ety, ln, trk, lo, hi, top, pos

    def with_(s, **k):
        d = dict(kind=s.kind, ety=s.ety, ln=s.len, trk=s.trk, lo=s.lo, hi=s.hi, top=None, pos=())
        if 'len' in k:
            k['ln'] = k.pop('len')
        d.update(k)
        return Coll(**d)

    def __repr__(s):
        return 'Coll(%s,len=%s,%s)' % (s.kind, s.len, {k: v[0] for k, v in s.trk.items()})


class It(V):
    """iterator: remaining elements; src = P to the collection for by-reference iterators.
    ad: tuple of adaptors applied, e.g. ('enumerate',) or ('rev','enumerate')"""
    __slots__ = ('coll', 'src', 'ad')

    def __init__(s, coll, src=None, ad=()):
        s.coll, s.src, s.ad = coll, src, ad

    def __repr__(s):
        return 'It(%s%s)' % (s.coll, s.ad or '')


class Lock(V):
    """kind 'std' | 'spin'; val None = content not known (shared, to be chosen at lock time)"""
    __slots__ = ('kind', 'ty', 'val', 'held')

    def __init__(s, kind, ty, val, held=False):
        s.kind, s.ty, s.val, s.held = kind, ty, val, held

    def __repr__(s):
        return 'Lock(%s,%s%s)' % (s.kind, s.val, ',held' if s.held else '')


class Guard(V):
    __slots__ = ('lock', 'kind')

    def __init__(s, lock, kind):
        s.lock, s.kind = lock, kind

    def __repr__(s):
        return 'Guard(%s)' % (s.lock,)


class Atomic(V):
    __slots__ = ('t',)

    def __init__(s, t):
        s.t = t

    def __repr__(s):
        return 'Atomic(%s)' % (s.t,)


class Opq(V):
    """an opaque value of a library type without modelled content"""
    __slots__ = ('what',)

    def __init__(s, what):
        s.what = what

    def __repr__(s):
        return '<%s>' % s.what


def unit(ty=None):
    return Agg(ty, ())


def tr(v, fl, fn):
    """rebuild v; fl(term)->term on scalar leaves, fn(name)->name on heap names.
    Returns (value, skeleton)."""
    if v is UNINIT or v is None:
        return v, 'U'
    if isinstance(v, (int, bool)) or sym(v):
        t = fl(v)
        return t, ('.b' if (isinstance(v, bool) or (sym(v) and v.sort() == BOOL)) else '.i')
    if isinstance(v, Agg):
        r = [tr(x, fl, fn) for x in v.vals]
        return Agg(v.ty, [a for a, _ in r]), ('A', v.ty, tuple(b for _, b in r))
    if isinstance(v, Enum):
        if sym(v.d):
            d = fl(v.d)
            pl, sk = {}, []
            for k in sorted(v.pl):
                r = [tr(x, fl, fn) for x in v.pl[k]]
                pl[k] = tuple(a for a, _ in r)
                sk.append((k, tuple(b for _, b in r)))
            return Enum(v.ty, d, pl), ('E?', v.ty, tuple(sk))
        r = [tr(x, fl, fn) for x in v.pl.get(v.d, ())]
        return Enum(v.ty, v.d, {v.d: tuple(a for a, _ in r)}), ('E', v.ty, v.d, tuple(b for _, b in r))
    if isinstance(v, Cor):
        ru = [tr(x, fl, fn) for x in v.up]
        fl2, sk = {}, []
        for k in sorted(v.fl):
            if v.fl[k] is UNINIT:
                continue
            a, b = tr(v.fl[k], fl, fn)
            fl2[k] = a
            sk.append((k, b))
        return Cor(v.ty, v.d, [a for a, _ in ru], fl2), ('Cor', v.ty, v.d, tuple(b for _, b in ru), tuple(sk))
    if isinstance(v, P):
        r = v.root
        if r[0] == 'H':
            r = ('H', fn(r[1]))
        pj = tuple((e[0], fn(e[1])) if isinstance(e, tuple) and e[0] == 'trk' else e for e in v.proj)
        return P(r, pj, v.meta), ('P', r, pj, v.meta)
    if isinstance(v, Arc):
        n = fn(v.name)
        return Arc(n, v.weak, v.meta), ('Arc', n, v.weak, v.meta)
    if isinstance(v, End):
        n = fn(v.name)
        return End(v.kind, n), ('End', v.kind, n)
    if isinstance(v, Coll):
        pos, spos = [], []
        for i, t in v.pos:
            i2, _ = tr(i, fl, fn)
            if t[0] == 'oth':
                n = fn(t[1].root[1])
                t = ('oth', P(('H', n), t[1].proj, t[1].meta))
                spos.append(('P', ('H', n), (), None))
            else:
                spos.append(t)
            pos.append((i2, t))
        ln, _ = tr(v.len, fl, fn)
        lo, _ = tr(v.lo, fl, fn)
        hi, _ = tr(v.hi, fl, fn)
        trk, sk = {}, []
        for k in sorted(v.trk):
            p, e, r = v.trk[k]
            if p is False:
                trk[k] = (False, None, None)
                sk.append((k, False))
                continue
            c = p is True
            if not c:
                p, _ = tr(p, fl, fn)
            e, se = tr(e, fl, fn)
            r, _ = tr(r, fl, fn)
            trk[k] = (p, e, r)
            sk.append((k, c or '?', se))
        top, stop = v.top, None
        if top is not None:
            if top[0] == 'oth':
                e, stop = tr(top[1], fl, fn)
                top = ('oth', e)
            else:
                top = ('trk', fn(top[1]))
                stop = top
        return Coll(v.kind, v.ety, ln, trk, lo, hi, top, tuple(pos)), ('C', v.kind, v.ety, tuple(sk), stop, tuple(spos))
    if isinstance(v, It):
        c, sc = tr(v.coll, fl, fn)
        s, ss = tr(v.src, fl, fn) if v.src is not None else (None, None)
        return It(c, s, v.ad), ('It', sc, ss, v.ad)
    if isinstance(v, Lock):
        x, sx = tr(v.val, fl, fn)
        return Lock(v.kind, v.ty, x, v.held), ('Lk', v.kind, sx, v.held)
    if isinstance(v, Guard):
        p, sp = tr(v.lock, fl, fn)
        return Guard(p, v.kind), ('G', sp, v.kind)
    if isinstance(v, Atomic):
        t, _ = tr(v.t, fl, fn)
        return Atomic(t), 'At'
    if isinstance(v, Opq):
        return v, ('Opq', v.what)
    if isinstance(v, Pair):
        b, sk = tr(v.b, fl, fn)
        return Pair(v.a, b), ('Pair', v.a, sk)
    raise Unsupported('tr %r' % (v,))


class Pair(V):
    """a function name and a value (ghost)"""
    __slots__ = ('a', 'b')

    def __init__(s, a, b):
        s.a, s.b = a, b

    def __getitem__(s, i):
        return (s.a, s.b)[i]

    def __repr__(s):
        return 'Pair(%r)' % (s.b,)
