"""Hash-consed terms over integers and booleans, kept in a normal form (linear sums, comparisons with
zero).  Only the decision of satisfiability is left to z3."""
import z3 as Z
from math import gcd

Z.z3core.Elementaries.Check = lambda self, ctx: None
CTX = Z.main_ctx()

TAB = {}
IDS = [0]


class T:
    __slots__ = ('op', 'args', 'i', 'int', 'z', 'vs', 'neg', 'sm')

    def sort(s):
        return s.int

    def get_id(s):
        return s.i

    def eq(s, o):
        return s is o

    def __hash__(s):
        return s.i

    def __bool__(s):
        raise TypeError('symbolic condition %r' % (s,))

    def __eq__(s, o):
        return teq(s, o)

    def __ne__(s, o):
        return Not(teq(s, o))

    def __le__(s, o):
        return tle(s, o, 0)

    def __lt__(s, o):
        return tle(s, o, -1)

    def __ge__(s, o):
        return tle(o, s, 0)

    def __gt__(s, o):
        return tle(o, s, -1)

    def __add__(s, o):
        return lin_add([(1, s), (1, o)])
    __radd__ = __add__

    def __sub__(s, o):
        return lin_add([(1, s), (-1, o)])

    def __rsub__(s, o):
        return lin_add([(-1, s), (1, o)])

    def __mul__(s, k):
        if isinstance(k, T) and k.op == 'k':
            k = k.args
        if not isinstance(k, int):
            raise TypeError('non-linear')
        return lin_add([(k, s)])
    __rmul__ = __mul__

    def __neg__(s):
        return lin_add([(-1, s)])

    def __repr__(s):
        o, a = s.op, s.args
        if o == 'k' or o == 'var':
            return str(a)
        if o == 'lin':
            return '+'.join((str(c) + '*' if c != 1 else '') + repr(x) for c, x in a[1]) + ('%+d' % a[0] if a[0] else '')
        if o in ('le', 'eq'):
            return '(%s %s %d)' % ('+'.join((str(c) + '*' if c != 1 else '') + repr(x) for c, x in a[0]), '<=' if o == 'le' else '==', a[1])
        return '%s(%s)' % (o, ', '.join(map(repr, a)))

    def children(s):
        return kids(s)


def kids(s):
    o, a = s.op, s.args
    if o in ('k', 'var'):
        return ()
    if o == 'lin':
        return tuple(x for _, x in a[1])
    if o in ('le', 'eq'):
        return tuple(x for _, x in a[0])
    return a


def mk(op, args, isint):
    if op == 'lin':
        key = ('lin', args[0]) + tuple((c, x.i) for c, x in args[1])
    elif op in ('le', 'eq'):
        key = (op, args[1]) + tuple((c, x.i) for c, x in args[0])
    elif op == 'k':
        key = (op, args, isint)
    elif op == 'var':
        key = (op, args, isint)
    else:
        key = (op,) + tuple(x.i for x in args)
    t = TAB.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.int, t.z, t.neg = op, args, isint, None, None
        IDS[0] += 1
        t.i = IDS[0]
        if op == 'k':
            t.vs = frozenset()
        elif op == 'var':
            t.vs = frozenset((t.i,))
        else:
            ks = kids(t)
            t.vs = ks[0].vs if len(ks) == 1 else frozenset().union(*[x.vs for x in ks])
        t.sm = ('.i' if isint else '.b', (t,), (), (), t.vs)
        TAB[key] = t
    return t


def IntVal(k):
    return mk('k', int(k), True)


def BoolVal(b):
    return TRUE if b else FALSE


TRUE = mk('k', True, False)
FALSE = mk('k', False, False)


def Int(n):
    return mk('var', n, True)


def Bool(n):
    return mk('var', n, False)


def IntSort():
    return True


def BoolSort():
    return False


def pv(x):
    """python value of a literal"""
    if isinstance(x, T) and x.op == 'k':
        return x.args
    return x


def lin_of(x, c, acc):
    """add c*x to the accumulator; returns the constant part"""
    if not isinstance(x, T):
        return c * int(x)
    if x.op == 'k':
        return c * int(x.args)
    if not x.int:
        x = If(x, 1, 0)
        if not isinstance(x, T):
            return c * x
    if x.op == 'lin':
        for d, y in x.args[1]:
            acc[y] = acc.get(y, 0) + c * d
        return c * x.args[0]
    acc[x] = acc.get(x, 0) + c
    return 0


def ident(t):
    return t.i


def lin_parts(ps):
    acc = {}
    k = 0
    for c, x in ps:
        k += lin_of(x, c, acc)
    if len(acc) > 1:
        return k, tuple((acc[x], x) for x in sorted(acc, key=ident) if acc[x])
    return k, tuple((c, x) for x, c in acc.items() if c)


def lin_add(ps):
    k, at = lin_parts(ps)
    if not at:
        return IntVal(k)
    if k == 0 and len(at) == 1 and at[0][0] == 1:
        return at[0][1]
    return mk('lin', (k, at), True)


def cmp0(op, k, at):
    """sum(at) + k (op) 0"""
    if not at:
        return BoolVal(k <= 0 if op == 'le' else k == 0)
    # a conditional decided on both sides
    for j, (c, x) in enumerate(at):
        if x.op == 'ite':
            g, a, b = x.args
            rest = [(d, y) for i, (d, y) in enumerate(at) if i != j]
            ra = cmp0(op, *plus(k, lin_parts([(c, a)] + rest)))
            rb = cmp0(op, *plus(k, lin_parts([(c, b)] + rest)))
            if ra.op == 'k' or rb.op == 'k' or ra is rb:
                return If(g, ra, rb)
    g = 0
    for c, _ in at:
        g = gcd(g, c)
    if op == 'le':
        if g > 1:
            at = tuple((c // g, x) for c, x in at)
            k = -((-k) // g)
        return mk('le', (at, -k), False)
    if g > 1:
        if k % g:
            return FALSE
        at = tuple((c // g, x) for c, x in at)
        k //= g
    if at[0][0] < 0:
        at = tuple((-c, x) for c, x in at)
        k = -k
    return mk('eq', (at, -k), False)


def plus(k, p):
    return k + p[0], p[1]


def tle(a, b, off):
    """a <= b + off"""
    k, at = lin_parts([(1, a), (-1, b)])
    return cmp0('le', k - off, at)


def teq(a, b):
    if not isinstance(b, T) and not isinstance(b, (int, bool)):
        return FALSE
    if isinstance(a, T) and isinstance(b, T) and a is b:
        return TRUE
    a, b = pv(a), pv(b)
    ab = (isinstance(a, T) and not a.int) or isinstance(a, bool)
    bb = (isinstance(b, T) and not b.int) or isinstance(b, bool)
    if ab and bb:
        if isinstance(a, bool):
            a, b = b, a
        if isinstance(b, bool):
            if isinstance(a, bool):
                return BoolVal(a == b)
            return a if b else Not(a)
        if a.neg is b:
            return FALSE
        if a.i > b.i:
            a, b = b, a
        return mk('iff', (a, b), False)
    k, at = lin_parts([(1, a), (-1, b)])
    return cmp0('eq', k, at)


def Not(a):
    if isinstance(a, bool):
        return not a
    if a.neg is not None:
        return a.neg
    if a.op == 'k':
        r = BoolVal(not a.args)
    elif a.op == 'not':
        r = a.args[0]
    elif a.op == 'le':
        at, k = a.args
        r = mk('le', (tuple((-c, x) for c, x in at), -k - 1), False)
    else:
        r = mk('not', (a,), False)
    a.neg = r
    if r.neg is None:
        r.neg = a
    return r


def nary(op, xs):
    unit = op == 'and'
    seen = {}
    for x in xs:
        if isinstance(x, (list, tuple)):
            ys = x
        else:
            ys = (x,)
        for y in ys:
            y = pv(y)
            if isinstance(y, bool):
                if y is unit:
                    continue
                return BoolVal(not unit)
            for z in (y.args if y.op == op else (y,)):
                seen[z.i] = z
    if not seen:
        return BoolVal(unit)
    for z in seen.values():
        n = z.neg
        if n is not None and n.i in seen:
            return BoolVal(not unit)
    if len(seen) == 1:
        return next(iter(seen.values()))
    return mk(op, tuple(seen.values()), False)


def And(*xs):
    return nary('and', xs)


def Or(*xs):
    return nary('or', xs)


def Implies(a, b):
    return Or(Not(a), b)


def Sum(xs):
    return lin_add([(1, x) for x in xs])


def If(c, a, b):
    c = pv(c)
    if isinstance(c, bool):
        return (a if c else b)
    pa, pb = pv(a), pv(b)
    ab = isinstance(pa, bool) or (isinstance(pa, T) and not pa.int)
    bb = isinstance(pb, bool) or (isinstance(pb, T) and not pb.int)
    if ab and bb:
        if pa is True:
            return Or(c, b)
        if pa is False:
            return And(Not(c), b)
        if pb is True:
            return Or(Not(c), a)
        if pb is False:
            return And(c, a)
        if pa is pb:
            return pa
        return And(Or(Not(c), pa), Or(c, pb))
    if not isinstance(pa, T):
        a = IntVal(pa)
    elif not a.int:
        a = If(a, 1, 0)
    if not isinstance(pb, T):
        b = IntVal(pb)
    elif not b.int:
        b = If(b, 1, 0)
    if a is b:
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b), True)


def simplify(x):
    return x


def is_true(x):
    return x is TRUE


def is_false(x):
    return x is FALSE


def is_int_value(x):
    return x.op == 'k' and x.int


def to_z(t):
    r = t.z
    if r is not None:
        return r
    o, a = t.op, t.args
    if o == 'k':
        r = Z.IntVal(a) if t.int else Z.BoolVal(a)
    elif o == 'var':
        r = Z.Int(a) if t.int else Z.Bool(a)
    elif o in ('lin', 'le', 'eq'):
        k, at = (a[0], a[1]) if o == 'lin' else (a[1], a[0])
        ss = [to_z(x) if c == 1 else c * to_z(x) for c, x in at]
        if o == 'lin' and k:
            ss.append(Z.IntVal(k))
        r = ss[0] if len(ss) == 1 else Z.Sum(ss)
        if o == 'le':
            r = r <= k
        elif o == 'eq':
            r = r == k
    elif o == 'not':
        r = Z.Not(to_z(a[0]))
    elif o == 'and':
        r = Z.And(*[to_z(x) for x in a])
    elif o == 'or':
        r = Z.Or(*[to_z(x) for x in a])
    elif o == 'iff':
        r = to_z(a[0]) == to_z(a[1])
    elif o == 'ite':
        r = Z.If(to_z(a[0]), to_z(a[1]), to_z(a[2]))
    else:
        raise TypeError(o)
    t.z = r
    return r


def evaluate(t, m, memo):
    """value under a model (name -> value; what is missing is 0 or false)"""
    r = memo.get(t.i)
    if r is not None:
        return r
    o, a = t.op, t.args
    if o == 'k':
        r = a
    elif o == 'var':
        r = m.get(a, 0 if t.int else False)
    elif o == 'lin':
        r = a[0] + sum([c * evaluate(x, m, memo) for c, x in a[1]])
    elif o == 'le':
        r = sum([c * evaluate(x, m, memo) for c, x in a[0]]) <= a[1]
    elif o == 'eq':
        r = sum([c * evaluate(x, m, memo) for c, x in a[0]]) == a[1]
    elif o == 'not':
        r = not evaluate(a[0], m, memo)
    elif o == 'and':
        r = True
        for x in a:
            if not evaluate(x, m, memo):
                r = False
                break
    elif o == 'or':
        r = False
        for x in a:
            if evaluate(x, m, memo):
                r = True
                break
    elif o == 'iff':
        r = evaluate(a[0], m, memo) == evaluate(a[1], m, memo)
    else:
        r = evaluate(a[1] if evaluate(a[0], m, memo) else a[2], m, memo)
    memo[t.i] = r
    return r


SK = {}
SKID = {}


def skel(t):
    """(shape, variables in order of occurrence): equal shapes are equal up to names"""
    r = SK.get(t.i)
    if r is not None:
        return r
    o, a = t.op, t.args
    if o == 'k':
        r = (('k', a), ())
    elif o == 'var':
        r = ('vi' if t.int else 'vb', (t.i,))
    else:
        if o == 'lin':
            h = (o, a[0]) + tuple(c for c, _ in a[1])
        elif o in ('le', 'eq'):
            h = (o, a[1]) + tuple(c for c, _ in a[0])
        else:
            h = (o,)
        num, out = {}, [h]
        for x in kids(t):
            sk, vs = skel(x)
            out.append((sk, tuple(num.setdefault(v, len(num)) for v in vs)))
        r = (tuple(out), tuple(num))
    k = SKID.setdefault(r[0], len(SKID))
    r = SK[t.i] = (k, r[1])
    return r


class Solver:
    """satisfiability of a conjunction; the part that does not share variables with the question is left out"""
    def __init__(s):
        s.s = Z.SimpleSolver()
        s.s.set('rlimit', 40000000)
        s.n = 0
        s.t = 0.0
        s.memo = {}
        s.memo2 = {}
        s.idx = {}
        s.models = []
        s.hits = 0
        s.last = None

    def index(s, pc):
        """variable -> group, a group being the positions in pc of constraints connected by variables"""
        r = s.idx.get(id(pc))
        if r is not None:
            return r[1]
        if len(s.idx) > 20000:
            s.idx.clear()
        d = {}
        for i, c in enumerate(pc):
            s.extend(d, i, c)
        s.idx[id(pc)] = (pc, d)
        return d

    @staticmethod
    def extend(d, i, c):
        vs = c.vs
        gs = []
        for v in vs:
            g = d.get(v)
            if g is not None and g not in gs:
                gs.append(g)
        if len(gs) == 1:
            g = gs[0]
            n = (g[0] + (i,), g[1] | vs)
            for v in n[1]:
                d[v] = n
        elif not gs:
            n = ((i,), vs)
            for v in vs:
                d[v] = n
        else:
            ps, w = [i], vs
            for g in gs:
                ps.extend(g[0])
                w = w | g[1]
            ps.sort()
            n = (tuple(ps), w)
            for v in w:
                d[v] = n

    def grown(s, pc, new):
        """new is pc and one more constraint"""
        r = s.idx.get(id(pc))
        if r is not None:
            d = dict(r[1])
            s.extend(d, len(pc), new[-1])
            s.idx[id(new)] = (new, d)

    def slice(s, pc, vs):
        d = s.index(pc)
        gs = []
        for v in vs:
            g = d.get(v)
            if g is not None and g not in gs:
                gs.append(g)
        if not gs:
            return []
        if len(gs) == 1:
            return [pc[i] for i in gs[0][0]]
        ps = []
        for g in gs:
            ps.extend(g[0])
        ps.sort()
        return [pc[i] for i in ps]

    def solve(s, cs):
        """cs: list of terms -> 'sat' | 'unsat' | 'unknown'"""
        ids = [c.i for c in cs]
        k2 = tuple(ids)
        r = s.memo2.get(k2)
        if r is not None:
            return r
        r = s.memo2[k2] = s.solve2(cs, set(ids))
        return r

    def solve2(s, cs, ids):
        if FALSE.i in ids:
            return 'unsat'
        for c in cs:
            n = c.neg
            if n is not None and n.i in ids:
                return 'unsat'
        num, key = {}, []
        for c in cs:
            sk, vs = skel(c)
            key.append(sk)
            for v in vs:
                key.append(num.setdefault(v, len(num)))
        key = tuple(key)
        r = s.memo.get(key)
        if r is not None:
            return r
        for k, (m, memo) in enumerate(s.models):
            for c in cs:
                if not evaluate(c, m, memo):
                    break
            else:
                s.hits += 1
                if k > 4:
                    s.models.insert(0, s.models.pop(k))
                s.memo[key] = 'sat'
                return 'sat'
        import time
        t = time.time()
        s.n += 1
        s.s.push()
        so, cr, f = s.s.solver, CTX.ref(), Z.z3core.Z3_solver_assert
        for c in cs:
            f(cr, so, to_z(c).ast)
        q = s.s.check()
        if q == Z.sat:
            mm = s.s.model()
            m = {}
            for d in mm.decls():
                v = mm[d]
                m[d.name()] = v.as_long() if Z.is_int_value(v) else Z.is_true(v)
            s.models.insert(0, (m, {}))
            del s.models[12:]
            r = 'sat'
        else:
            r = 'unsat' if q == Z.unsat else 'unknown'
        s.s.pop()
        s.t += time.time() - t
        s.memo[key] = r
        return r

    def check(s, pc, extra):
        """is pc and extra satisfiable, given that pc is"""
        if extra is TRUE:
            return 'sat'
        if extra is FALSE:
            return 'unsat'
        cs = s.slice(pc, extra.vs)
        cs.append(extra)
        return s.solve(cs)

    def full(s, pc, extra=None):
        """satisfiable: every group of connected constraints is"""
        if extra is not None:
            pc = pc + (extra,)
        for c in pc:
            if c is FALSE:
                return 'unsat'
        d = s.index(pc)
        seen = set()
        for g in d.values():
            if id(g) not in seen:
                seen.add(id(g))
                if s.solve([pc[i] for i in g[0]]) == 'unsat':
                    return 'unsat'
        return 'sat'

    def model(s, pc, extra):
        cs = list(pc) + [extra]
        s.s.push()
        s.s.add(*[to_z(c) for c in cs])
        q = s.s.check()
        r = str(q)
        if q == Z.sat:
            mm = s.s.model()
            r = {str(d): str(mm[d]) for d in list(mm.decls())[:40]}
        s.s.pop()
        return r
