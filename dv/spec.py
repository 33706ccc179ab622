"""Contracts and the monitor invariant of xtra, as hooks of the symbolic executor.

Everything a thread cannot see is an environment step: content of the channel is arbitrary (subject to
the monitor invariant) at every lock operation, counters are arbitrary (subject to the tokens this
thread owns) at every atomic operation, and the far end of a oneshot may act whenever it is not ours."""
import terms as z3
from vals import *
from models import opt, ok, err, U, cget

CTRL, REPLY = 'ctrl', 'reply'


class Types:
    """finds the pieces of the crate by the structure of the types, not by field order"""

    def __init__(s, srv):
        s.srv = srv
        s.cache = {}
        b = srv.body(srv.roots['vharness::strong::is_connected']['inst'])
        s.addr_strong = srv.ty(b['locals'][1])['ty']
        s.chan = s.find(s.addr_strong, lambda i: i.get('name') == 'std::sync::Arc')
        arc = s.chan
        s.arc_chan = arc
        s.chan = srv.ty(arc)['args'][0]['t']
        s.act = [a['t'] for a in srv.ty(s.addr_strong)['args'] if 't' in a][0]
        s.fields = {}
        ci = srv.ty(s.chan)
        if ci['k'] != 'Adt' or ci['ak'] != 'Struct':
            raise Unsupported('channel type')
        s.lockf = None
        s.counters = {}
        for i, f in enumerate(ci['variants'][0]['fields']):
            n = srv.ty(f['ty']).get('name')
            if n == 'std::sync::Mutex':
                s.lockf = i
                s.inner = srv.ty(f['ty'])['args'][0]['t']
            elif n == 'std::sync::atomic::Atomic':
                nm = f['name']
                s.counters[i] = 'tx' if 'send' in nm or 'tx' in nm else 'rx' if 'rec' in nm or 'rx' in nm else nm
            elif n == 'event_listener::Event':
                s.eventf = i
        if s.lockf is None or sorted(s.counters.values()) != ['rx', 'tx']:
            raise Unsupported('channel layout')
        s.roles = {}
        ii = srv.ty(s.inner)
        s.tailf = None
        ints = []
        for i, f in enumerate(ii['variants'][0]['fields']):
            r = s.coll_role(f['ty'])
            if r:
                if r in s.roles:
                    raise Unsupported('two fields for ' + r)
                s.roles[r] = i
            else:
                t = srv.ty(f['ty'])
                if t.get('name') == 'std::option::Option' and srv.ty(t['args'][0]['t'])['k'] == 'Uint':
                    s.capf = i
                elif t['k'] == 'Uint':
                    ints.append((i, f['name'], t['w']))
        if len(ints) == 1:
            s.tailf = ints[0][0]
        else:
            for i, n, w in ints:
                if 'tail' in n or ('broadcast' in n and w == 'Usize'):
                    s.tailf = i
        s.inner_ints = [i for i, n, w in ints if i != s.tailf]
        for r in ('U', 'Q', 'W1', 'WA', 'R'):
            if r not in s.roles:
                raise Unsupported('no field for role ' + r)

    def find(s, t, pred, depth=8, seen=None):
        seen = set() if seen is None else seen
        if t in seen or depth == 0:
            return None
        seen.add(t)
        i = s.srv.ty(t)
        if pred(i):
            return t
        if i['k'] == 'Adt':
            for v in i['variants']:
                for f in v['fields']:
                    r = s.find(f['ty'], pred, depth - 1, seen)
                    if r is not None:
                        return r
        return None

    def has(s, t, what, depth=10, seen=None):
        """does the type own / point to something matching (through Arc, Weak, Box, locks)"""
        seen = set() if seen is None else seen
        if t in seen or depth == 0:
            return False
        seen.add(t)
        i = s.srv.ty(t)
        if what(i):
            return True
        sub = []
        if i['k'] == 'Adt':
            n = i['name']
            if n.startswith('std::') or n.startswith('spin::') or n.startswith('catty') or n.startswith('alloc'):
                sub = [a['t'] for a in i['args'] if 't' in a]
            else:
                sub = [f['ty'] for v in i['variants'] for f in v['fields']]
        elif i['k'] == 'Tuple':
            sub = i['tys']
        return any(s.has(x, what, depth - 1, seen) for x in sub)

    def is_dyn(s, i, which):
        return i['k'] == 'Dyn' and which in i['s']

    def lock_role(s, t):
        """role of the content type of a lock"""
        k = ('lock', t)
        if k not in s.cache:
            s.cache[k] = s._lock_role(t)
        return s.cache[k]

    def _lock_role(s, t):
        i = s.srv.ty(t)
        if t == s.inner:
            return 'inner'
        if i['k'] == 'Adt' and i['name'] == 'std::collections::BinaryHeap':
            return 'bq'
        if i['k'] == 'Adt' and i['ak'] == 'Enum':
            if s.has(t, lambda x: s.is_dyn(x, 'MessageEnvelope')):
                return 'W1'
            if s.has(t, lambda x: s.is_dyn(x, 'BroadcastEnvelope')):
                return 'WA'
        return None

    def coll_role(s, t):
        i = s.srv.ty(t)
        if i['k'] != 'Adt' or i['name'] not in ('std::vec::Vec', 'std::collections::VecDeque', 'std::collections::BinaryHeap'):
            return None
        return s.elem_role(i['args'][0]['t'])

    def elem_role(s, e):
        k = ('elem', e)
        if k not in s.cache:
            s.cache[k] = s._elem_role(e)
        return s.cache[k]

    def _elem_role(s, e):
        if s.has(e, lambda x: x.get('name') == 'catty::Sender'):
            return 'R'
        lk = []

        def lockc(x):
            if x.get('name') in ('spin::mutex::Mutex', 'std::sync::Mutex'):
                lk.append(x['args'][0]['t'])
                return True
            return False
        if s.has(e, lockc):
            r = s.lock_role(lk[0])
            return {'bq': 'Q', 'W1': 'W1', 'WA': 'WA'}.get(r)
        if s.has(e, lambda x: s.is_dyn(x, 'MessageEnvelope')):
            return 'U'
        if s.has(e, lambda x: s.is_dyn(x, 'BroadcastEnvelope')):
            return 'B'
        return None


NAMES = {'U': ('m1', 'm2'), 'B': ('b1', 'b2', 's1'), 'W1': ('w1', 'w2'), 'WA': ('a1', 'a2'), 'R': ('r1',), 'Q': ('q1',)}
FIXED = ('chan', 'w1', 'w2', 'a1', 'a2', 'r1', 'q1', 'o1', 'noop', 'lst', 'm1', 'm2', 'b1', 'b2', 's1')


class Spec:
    numeric_ghost = ()
    check_frame = False

    def __init__(self, srv, focus=(), pre=(), kind='', opts=None):
        self.srv = srv
        self.T = Types(srv)
        self.focus = set(focus)
        self.pre = set(pre)
        self.kind = kind
        self.opts = opts or {}
        self.quiet = False
        self.order = {}
        self._dyn = None
        self.assumptions = set()
        b = srv.body(srv.roots['vharness::strong::cmp']['inst'])
        self._ordty = b['locals'][0]

    def param(self, S, ty, i):
        """arguments of an entry: (state, value)"""
        h = {'param': True, 'id': {'send': 'm1', 'bcast': 'b1'}.get(self.kind)}
        n = self.srv.ty(ty).get('name')
        if n in ('vharness::Msg', 'vharness::BMsg'):
            m = 'm1' if n.endswith('::Msg') else 'b1'
            S.g[('loc', m)] = 'local'
            S.g[('prio', m)] = 0
            return [(S, Agg(ty, [Opq(m)]))]
        if self.srv.ty(ty)['k'] == 'Uint' and self.srv.ty(ty)['w'] == 'U32':
            v = self.eng.int(S, 'uprio', 0, 2 ** 32 - 1)
            for m in ('m1', 'b1'):
                if S.g.get(('loc', m)) == 'local':
                    S.g[('prio', m)] = v
            return [(S, v)]
        chans = self.opts.get('chans', 1)
        if chans > 1 and i > 0 and self.T.has(ty, lambda x: x.get('name') == 'std::sync::Arc' and x['args'][0].get('t') == self.T.chan):
            # the address of any of the channels seen so far or of another one
            out = []
            for j in range(S.g.get('nchan', 1) + 1):
                T = S.copy()
                nm = 'chan' if j == 0 else 'chan%d' % (j + 1)
                if nm not in T.H:
                    if j >= chans:
                        continue
                    T.g['nchan'] = j + 1
                    T.H[nm] = T.H['chan'].with_(tag='otherchan')
                    for k in range(j):
                        self.eng.assume(T, not_(eq(z3.Int('addr_' + nm), z3.Int('addr_chan%s' % ('' if k == 0 else k + 1)))))
                T.g['chan_as'] = nm
                for X, v in self.eng.fresh(T, ty, {'param': True}):
                    X.g['chan_as'] = 'chan'
                    out.append((X, v))
            return out
        return self.eng.fresh(S, ty, {'param': True})

    # ------------------------------------------------------------ laws
    def addr_info(self, S, p):
        """(channel, is it strong) of the address or channel pointer behind p"""
        def f(v, depth=8):
            if depth == 0:
                return None
            if isinstance(v, Agg):
                for x in v.vals:
                    if isinstance(x, Arc) and not x.weak and x.name in S.H and S.H[x.name].tag in ('chan', 'otherchan'):
                        w = Agg(v.ty, [Arc('chan', False, y.meta) if y is x else y for y in v.vals])
                        return x.name, self.ptr_kind(S, v.ty, w) == 'tx'
                for x in v.vals:
                    r = f(x, depth - 1)
                    if r:
                        return r
            elif isinstance(v, Enum) and not sym(v.d):
                for x in v.pl.get(v.d, ()):
                    r = f(x, depth - 1)
                    if r:
                        return r
            elif isinstance(v, P) and v.root[0] == 'H' and v.root[1] in S.H and S.H[v.root[1]].tag not in ('chan', 'otherchan'):
                return f(self.eng.load(S, v), depth - 1)
            return None
        r = f(self.eng.load(S, p))
        if r is None:
            raise Unsupported('the address behind a handle')
        return r

    def x_vassert(self, S, a, dty):
        k = a[0]
        self.ob(S, a[1], 'C%02d.k%04d' % (k // 100, k), 'a law of the interface fails')
        return [(S, U)]

    def x_truth_same(self, S, a, dty):
        return [(S, self.addr_info(S, a[0])[0] == self.addr_info(S, a[1])[0])]

    def x_truth_strong(self, S, a, dty):
        return [(S, self.addr_info(S, a[0])[1])]

    def x_new_hasher(self, S, a, dty):
        n = S.g.get('nhash', 0)
        S.g['nhash'] = n + 1
        S.g[('hash', n)] = ()
        return [(S, Agg(dty, [Opq('hasher%d' % n)]))]

    def hasher(self, S, p):
        v = self.eng.load(S, p)
        w = v.vals[0].what if isinstance(v, Agg) and isinstance(v.vals[0], Opq) else 'any'
        return int(w[6:]) if w.startswith('hasher') else None

    def x_h_write(self, S, a, dty):
        n = self.hasher(S, a[0])
        if n is not None:
            x = a[2]
            if isinstance(x, (P, Arc)):
                x = self.addr(S, x)
            elif isinstance(x, Opq):
                raise Unsupported('hash of bytes')
            S.g[('hash', n)] = S.g[('hash', n)] + ((a[1], x),)
        return [(S, U)]

    def x_h_bytes(self, S, a, dty):
        if self.hasher(S, a[0]) is not None:
            raise Unsupported('hash of bytes')
        return [(S, U)]

    def x_hash_same(self, S, a, dty):
        x, y = (S.g[('hash', self.hasher(S, p))] for p in a[:2])
        if len(x) != len(y) or any(i[0] != j[0] for i, j in zip(x, y)):
            return [(S, False)]
        return [(S, and_(True, *[eq(i[1], j[1]) for i, j in zip(x, y)]))]

    def x_found_unicast(self, S, a, dty):
        p = S.g.get('found')
        return [(S, self.coll(S, 'U', p).len if p is not None else self.eng.int(S, 'found', 0))]

    def x_found_tail(self, S, a, dty):
        p = S.g.get('found')
        return [(S, p.vals[self.T.tailf] if p is not None else self.eng.int(S, 'found', 0))]

    def x_found_queue(self, S, a, dty):
        e = self.eng
        p, q = S.g.get('found'), S.g.get('foundq')
        n = e.int(S, 'found', 0)
        if p is not None:
            if not isinstance(q, Coll):
                return [(S, 0)]
            l = self.pres(self.coll(S, 'Q', p), 'q1')
            e.assume(S, imp(l, eq(n, q.len)))
            e.assume(S, imp(not_(l), eq(n, 0)))
        return [(S, n)]

    def x_found_cap(self, S, a, dty):
        c, v = S.g['cap'], a[0]
        if not isinstance(v, Enum) or sym(v.d):
            raise Unsupported('capacity %r' % (v,))
        if isinstance(c, str):
            return [(S, not v.pl.get(v.d))]
        return [(S, eq(v.pl[v.d][0], c) if v.pl.get(v.d) else False)]

    def x_ev_conn(self, S, a, dty):
        strong, r = a
        rx, tx = S.g.get('last_rx'), S.g.get('last_tx')
        up = and_(False if rx is None else cmp_('Ge', rx, 1), True if strong else False if tx is None else cmp_('Ge', tx, 1))
        down = or_(False if rx is None else eq(rx, 0), False if tx is None or strong else eq(tx, 0))
        self.ob(S, and_(imp(r, up), imp(not_(r), down)), 'C11.connected', 'is_connected does not tell whether there is a mailbox and a strong address')
        return [(S, U)]

    def x_ev_upgrade(self, S, a, dty):
        tx = S.g.get('last_tx')
        self.ob(S, or_(a[0], False if tx is None else eq(tx, 0)), 'C14.upgrade', 'try_upgrade fails although there may be a strong address')
        return [(S, U)]

    # ------------------------------------------------------------ small things
    def fixed(self, n):
        return n in FIXED

    def ordering_ty(self):
        return self._ordty

    def ob(self, S, c, clause, detail=''):
        if self.quiet:
            return True
        return self.eng.oblige(S, c, clause, detail)

    def inner_ptr(self, S):
        return P(('H', 'chan'), (self.T.lockf, ('lk',)))

    def start(self, S):
        """the state before an entry: the channel is shared and nothing of it is known"""
        e = self.eng
        S.g.update(held=(), own_tx=0, own_rx=0, dtx=0, drx=0, otx=0, orx=0, tx0=False, rx0=False, rx_shut=False, tx_shut=False,
                   must_rx=False, must_tx=False, polling=False, discard=False, notified=False)
        ci = self.srv.ty(self.T.chan)
        vals = []
        for i, f in enumerate(ci['variants'][0]['fields']):
            if i == self.T.lockf:
                vals.append(Lock('std', self.T.inner, None))
            elif i in self.T.counters:
                vals.append(Atomic(0))
            elif self.srv.ty(f['ty']).get('name') == 'event_listener::Event':
                vals.append(End('event', 'ev'))
            else:
                r = e.fresh(S, f['ty'])
                if len(r) != 1:
                    raise Unsupported('channel field ' + f['name'])
                vals.append(r[0][1])
        S.H['chan'] = Obj_(Agg(self.T.chan, vals), self.T.chan, shared=True, tag='chan')
        S.g['rx_shut'] = e.bool('rxshut')
        S.g['tx_shut'] = e.bool('txshut')
        # either unbounded or bounded
        A, B = S, S.copy()
        A.g['cap'] = 'none'
        c = e.int(B, 'cap', self.opts.get('mincap', 0))
        B.g['cap'] = c
        # a run may take one part of the cases: bits of 'part' fix the answer to the first of these questions
        self.bits = list(self.opts.get('part', ()))
        out = [A, B] if not self.bits else [A] if self.bits.pop(0) else [B]
        for nm in sorted(self.pre, key=lambda n: (n[0] in 'wa', n)):
            nxt = []
            for T in out:
                nxt += self.pre_object(T, nm)
            out = nxt
        return out

    def pre_object(self, S, nm):
        """a tracked object that exists in the shared state before the entry starts"""
        e = self.eng
        if nm in ('m1', 'm2', 'b1', 'b2'):
            S.g[('loc', nm)] = 'shared'
            S.g[('prio', nm)] = e.int(S, 'prio_' + nm, 0, 2 ** 32 - 1)
            return [S]
        if nm == 's1':
            # the notice of stop_all
            S.g[('loc', nm)] = 'shared'
            S.g[('prio', nm)] = 2 ** 32
            return [S]
        if nm in ('w1', 'w2', 'a1', 'a2'):
            role = 'W1' if nm[0] == 'w' else 'WA'
            t = self.lock_type(role)
            S.H[nm] = Obj_(Lock('spin', t, None), self.mutex_type(role), shared=True, tag='ws')
            S.g[('client', nm)] = False
            mid = {'w1': 'm1', 'w2': 'm2', 'a1': 'b1', 'a2': 'b2'}[nm]
            if mid in self.pre:
                S.g[('loc', mid)] = 'cell'
            return [S]
        if nm == 'r1':
            S.H['r1'] = self.os_obj('idle', UNINIT, frozenset(['tx', 'rx']), self.ctrl_type())
            return [S]
        if nm == 'q1':
            t = self.lock_type('bq')
            S.H['q1'] = Obj_(Lock('spin', t, None), self.mutex_type('bq'), shared=True, tag='bq')
            # the mailbox (of those alive now) that stays longest: it goes when the receiving side is shut down
            S.g[('mine', 'q1')] = 'last'
            return [S]
        raise Unsupported('pre ' + nm)

    def field_ty(self, role):
        return self.srv.ty(self.T.inner)['variants'][0]['fields'][self.T.roles[role]]['ty']

    def mutex_type(self, role):
        e = self.srv.ty(self.field_ty({'bq': 'Q'}.get(role, role)))['args'][0]['t']
        r = []

        def f(i):
            if i.get('name') in ('spin::mutex::Mutex', 'std::sync::Mutex'):
                r.append(i['id'])
                return True
        self.T.has(e, f)
        return r[0]

    def lock_type(self, role):
        return self.srv.ty(self.mutex_type(role))['args'][0]['t']

    def ctrl_type(self):
        e = self.srv.ty(self.field_ty('R'))['args'][0]['t']
        r = []

        def f(i):
            if i.get('name') == 'catty::Sender':
                r.append(i['args'][0]['t'])
                return True
        self.T.has(e, f)
        return r[0]

    # ------------------------------------------------------------ identity of messages
    def msg_id(self, S, v, depth=12):
        """the tracked message inside a value (through boxes and arcs), or None"""
        if depth == 0:
            return None
        if isinstance(v, Agg):
            n = self.srv.ty(v.ty).get('name') if v.ty is not None else None
            if n in ('vharness::Msg', 'vharness::BMsg'):
                x = v.vals[0]
                return x.what if isinstance(x, Opq) and x.what != 'other' else None
            for x in v.vals:
                r = self.msg_id(S, x, depth - 1)
                if r:
                    return r
        elif isinstance(v, Enum):
            if not sym(v.d):
                for x in v.pl.get(v.d, ()):
                    r = self.msg_id(S, x, depth - 1)
                    if r:
                        return r
        elif isinstance(v, P):
            if v.root[0] == 'H' and v.root[1] != 'chan' and v.root[1] in S.H:
                return self.msg_id(S, self.eng.load(S, v), depth - 1)
        elif isinstance(v, Arc):
            if v.name != 'chan' and v.name in S.H and not v.weak:
                o = S.H[v.name]
                if o.tag in ('chan', 'bq', 'ws'):
                    return None
                return self.msg_id(S, o.val, depth - 1)
        return None

    def elemkey(self, S, x):
        """the name under which an element is tracked"""
        e = x
        while isinstance(e, Agg) and len(e.vals) == 1:
            e = e.vals[0]
        if isinstance(e, Arc) and e.weak:
            return e.name if e.name in FIXED and e.name in S.H else None
        if isinstance(e, End):
            return e.name if e.name in FIXED and e.name in S.H else None
        m = self.msg_id(S, x)
        return m if m in ('m1', 'm2', 'b1', 'b2') and m in self.focus else None

    # ------------------------------------------------------------ arbitrary values
    def fresh(self, S, ty, h):
        t = self.srv.ty(ty)
        if t['k'] == 'Adt':
            n = t['name']
            if n == 'vharness::Msg' or n == 'vharness::BMsg':
                return [(S, Agg(ty, [Opq((h or {}).get('id', 'other'))]))]
            if n in ('vharness::Ret',):
                return [(S, Agg(ty, [Opq('other')]))]
            if n in ('vharness::Act', 'vharness::StopVal', 'vharness::UserOut', 'vharness::UserFut', 'vharness::H'):
                return [(S, Agg(ty, [Opq('any')]))]
            if n == 'std::sync::Arc' or n == 'std::sync::Weak':
                a = t['args'][0]['t']
                weak = n.endswith('Weak')
                if a == self.T.chan:
                    return [(S, Arc(S.g.get('chan_as', 'chan'), weak))]
                ai = self.srv.ty(a)
                if ai.get('name') in ('spin::mutex::Mutex', 'std::sync::Mutex'):
                    role = self.T.lock_role(ai['args'][0]['t'])
                    nm = (h or {}).get('arc')
                    if nm is None and role == 'bq' and 'q1' in self.focus and 'q1' not in S.H and (h or {}).get('param') and not self.opts.get('newq'):
                        nm = 'q1'
                        S.g[('mine', 'q1')] = True
                    if nm is None:
                        nm = self.eng.fresh_name('x')
                    if nm not in S.H:
                        if nm not in FIXED:
                            S.g[('dead', nm)] = False
                        S.H[nm] = Obj_(Lock('spin', ai['args'][0]['t'], None), a, shared=True, tag='bq' if role == 'bq' else 'ws')
                    return [(S, Arc(nm, weak))]
                if ai['k'] == 'Dyn' and 'BroadcastEnvelope' in ai['s']:
                    return self.fresh_env(S, a, True, h)
                if ai['k'] == 'Dyn' and 'MessageEnvelope' in ai['s']:
                    return self.fresh_env(S, a, True, h)
                raise Unsupported('arbitrary Arc<%s>' % ai.get('s'))
            if t.get('box'):
                a = t['args'][0]['t']
                ai = self.srv.ty(a)
                if ai['k'] == 'Dyn' and 'Envelope' in ai['s'] and 'Erased' not in ai['s']:
                    return self.fresh_env(S, a, False, h)
            if n == 'std::marker::PhantomData':
                return [(S, Agg(ty, ()))]
        if t['k'] == 'Uint' and h and h.get('prio') is not None and t['w'] == 'U32':
            return [(S, h['prio'])]
        return None

    def fresh_env(self, S, dyn, arc, h):
        """an arbitrary envelope behind Box<dyn ..> / Arc<dyn ..>"""
        e = self.eng
        out = []
        mid = (h or {}).get('id')
        if not mid and len(self.dyn_types(dyn)) > 1:
            # nothing is known about it: its concrete type is chosen when it matters
            n = e.alloc(S, Opq('lazyenv'), dyn, shared=arc, rc=None, tag='env')
            return [(S, Arc(n, False, None) if arc else P(('H', n), (), None))]
        for ct in self.dyn_types(dyn):
            T = S.copy()
            h2 = dict(h or {})
            if mid == 's1':
                if self.T.has(ct, lambda i: i.get('name') in ('vharness::Msg', 'vharness::BMsg')):
                    continue
            elif mid:
                if not self.T.has(ct, lambda i: i.get('name') in ('vharness::Msg', 'vharness::BMsg')):
                    continue
                h2['prio'] = T.g.get(('prio', mid))
                if mid == 'm1' and 'o1' in T.H:
                    h2['reply'] = 'o1'
            else:
                h2.pop('id', None)
            for X, v in e.fresh(T, ct, h2):
                n = e.alloc(X, v, ct, shared=arc, rc=None)
                X.H[n] = X.H[n].with_(tag='env')
                if arc:
                    out.append((X, Arc(n, False, ct)))
                else:
                    out.append((X, P(('H', n), (), ct)))
        return out

    def lazy(self, S, p):
        """the object behind p if its concrete type is still open"""
        n = p.name if isinstance(p, Arc) else p.root[1] if isinstance(p, P) and p.root[0] == 'H' and not p.proj else None
        o = S.H.get(n) if n else None
        return n if o is not None and isinstance(o.val, Opq) and o.val.what == 'lazyenv' else None

    def materialise(self, S, n):
        """all concrete types an envelope can have"""
        e = self.eng
        o = S.H[n]
        out = []
        for ct in self.dyn_types(o.ty):
            for X, v in e.fresh(S.copy(), ct, None):
                X.H[n] = o.with_(val=v, ty=ct)
                pr = X.g.pop(('eprio', n), None)
                if pr is None:
                    out.append(X)
                    continue
                for Y, pv in e.trait_call(X, pr[0], [ct], [P(('H', n))]):
                    e.assume(Y, e.enum_eq(pv, pr[1]))
                    if e.feas(Y):
                        out.append(Y)
        return out

    def lazy_virtual(self, S, n, c, dty):
        """a method whose result does not need the concrete type: the priority"""
        if not c['src'].endswith('HasPriority::priority') or dty is None:
            return None
        t = self.srv.ty(dty)
        if t['k'] != 'Adt' or t['ak'] != 'Enum':
            return None
        pr = S.g.get(('eprio', n))
        if pr is None:
            v = self.eng.sym_enum(S, dty)
            if v is None:
                return None
            pr = Pair(c['src'], v)
            S.g[('eprio', n)] = pr
        return [(S, pr[1])]

    def on_fresh(self, S, ty, v):
        self.token(S, ty, v, 1)

    def fresh_end(self, S, side, t, h):
        """an arbitrary end of a oneshot; the far end belongs to someone else"""
        nm = (h or {}).get('end')
        if nm is None and (h or {}).get('reply') and side == 'tx' and t != self.ctrl_type():
            nm = h['reply']
        if nm is None:
            nm = self.eng.fresh_name('os')
            S.H[nm] = self.os_obj('idle', UNINIT, frozenset(['rx' if side == 'tx' else 'tx']), t)
            if (h or {}).get('id') and side == 'tx':
                S.g[('replyto', nm)] = h['id']
        return [(S, End(side, nm))]

    def os_obj(self, st, item, env, t):
        return Obj_(Agg(None, (Opq(st), item, UNINIT)), t, shared=bool(env), tag=tuple(sorted(env)))

    def dyn_types(self, t):
        if self._dyn is None:
            self._dyn = {}
            seen, todo = set(), [r['inst'] for n, r in self.srv.roots.items() if n.startswith('vharness::')]
            seen.update(todo)
            while todo:
                i = todo.pop()
                b = self.srv.body(i)
                if 'err' in b:
                    continue
                for bb in b['blocks']:
                    for st in bb['statements']:
                        k = st['kind']
                        if isinstance(k, dict) and 'Assign' in k and isinstance(k['Assign'][1], dict) and 'Cast' in k['Assign'][1]:
                            ck, o, dt = k['Assign'][1]['Cast']
                            if isinstance(ck, dict) and ck.get('PointerCoercion') == 'Unsize':
                                import sym as _s
                                _s.S_BODY[0] = b
                                try:
                                    stt = self.eng.opty(None, o)
                                except Exception:
                                    continue
                                self.unsz(stt, dt)
                for c in b['calls'].values():
                    if 'inst' in c and c['inst'] not in seen and c['has_body'] and any(x in c['def'] for x in ('xtra', 'vharness', 'closure', 'futures')):
                        seen.add(c['inst'])
                        todo.append(c['inst'])
                # virtual targets are reached through the types themselves
        return self._dyn.get(t, [])

    def unsz(self, s, d):
        si, di = self.srv.ty(s), self.srv.ty(d)
        if si['k'] in ('Ref', 'RawPtr'):
            a, b = si['ty'], di['ty']
        elif si['k'] == 'Adt' and si['args']:
            a, b = si['args'][0]['t'], di['args'][0]['t']
            ai = self.srv.ty(a)
            if ai['k'] == 'Adt' and ai.get('box') or ai.get('name') == 'std::sync::Arc':
                return self.unsz(a, b)
        else:
            return
        if self.srv.ty(b)['k'] == 'Dyn' and self.srv.ty(a)['k'] != 'Dyn':
            l = self._dyn.setdefault(b, [])
            if a not in l:
                l.append(a)

    def fresh_coll(self, S, kind, ety, h):
        role = self.T.elem_role(ety)
        e = self.eng
        ln = e.int(S, 'len')
        trk = {}
        lo = hi = 0
        if kind != 'heap':
            hi = e.int(S, 'hi')
        for nm in NAMES.get(role, ()):
            el = self.tracked_elem(S, role, nm, ety, h)
            if el is None:
                continue
            p, v = el
            r = e.int(S, 'rk') if kind != 'heap' else 0
            if kind != 'heap':
                e.assume(S, lt(r, hi))
            trk[nm] = (p, v, r)
        fl = [p for p, _, _ in trk.values()]
        if fl:
            e.assume(S, cmp_('Ge', ln, add(*fl)))
        ks = sorted(trk)
        if kind != 'heap' and len(ks) == 2:
            e.assume(S, not_(eq(trk[ks[0]][2], trk[ks[1]][2])))
        return [(S, Coll(kind, ety, ln, trk, lo, hi))]

    def tracked_elem(self, S, role, nm, ety, h):
        """(present, element) of the tracked name in a collection of the channel, or None when it cannot be there"""
        e = self.eng
        if role == 'U':
            if nm not in self.focus or S.g.get(('loc', nm)) not in ('shared',):
                return None
            r = e.fresh(S, ety, {'id': nm})
            if len(r) != 1:
                raise Unsupported('element shapes')
            S2, v = r[0]
            if S2 is not S:
                S.H, S.pc, S.g = S2.H, S2.pc, S2.g
            return (e.bool('in_' + nm), v)
        if role == 'B':
            if nm not in self.focus or S.g.get(('loc', nm)) not in ('shared',) or (h or {}).get('queue') != 'q1':
                return None
            r = e.fresh(S, ety, {'id': nm})
            if len(r) != 1:
                raise Unsupported('element shapes')
            S2, v = r[0]
            if S2 is not S:
                S.H, S.pc, S.g = S2.H, S2.pc, S2.g
            return (e.bool('in_' + nm), v)
        if role in ('W1', 'WA'):
            if nm not in S.H:
                return None
            pres = S.g.get(('inlist', nm))
            if pres is None or pres is False:
                return None
            r = e.fresh(S, ety, {'arc': nm})
            return (True, r[0][1])
        if role == 'R':
            if nm not in S.H:
                return None
            pres = S.g.get(('inlist', nm))
            if pres is None or pres is False:
                return None
            r = e.fresh(S, ety, {'end': nm})
            return (pres, r[0][1])
        if role == 'Q':
            if nm not in S.H or not S.H[nm].shared:
                return None
            r = e.fresh(S, ety, {'arc': nm})
            return (e.bool('in_' + nm), r[0][1])
        return None

    def fresh_elem(self, S, coll):
        """an element of the collection that is none of the tracked ones"""
        r = self.eng.fresh(S, coll.ety, {'other': True})
        return r

    def on_push(self, S, coll, x, p=None):
        if self.T.elem_role(coll.ety) == 'R':
            self.publish(S, x)      # from now on others may answer
        k = self.elemkey(S, x)
        if k in ('m1', 'b1') and S.g.get(('loc', k)) == 'local':
            self.requested(S, k, x)
        if self.T.elem_role(coll.ety) == 'B':
            if not S.g.get('bpush'):
                self.tight(S)
            S.g['bpush'] = True
            for n in self.eng.summ(x)[2]:
                o = S.H.get(n)
                if o is not None and not self.T.has(o.ty, lambda i: i.get('name') == 'vharness::BMsg' or i['k'] == 'Dyn'):
                    S.g['bcast_exempt'] = True      # the notice of stop_all
                    if self.stop_only():
                        self.ob(S, False, 'C16.only_self', 'stop_self, or a dispatch in which only stop_self is called, gives the notice of stop_all to the mailboxes')
                    if p is not None and p.root == ('H', 'q1'):
                        S.g['notice'] = True
                if n not in FIXED and self.chan_held(S):
                    # a reference stays in that mailbox for as long as the channel is locked
                    S.g[('esc', n)] = True

    def requested(self, S, mid, v):
        """the envelope around the user's message says the priority the user asked for"""
        n = self.env_of(S, v)
        o = S.H.get(n)
        if o is None or ('prio', mid) not in S.g or self.quiet or isinstance(o.val, Opq):
            return
        try:
            rs = self.eng.trait_call(S.copy(), 'xtra::chan::priority::HasPriority::priority', [o.ty], [P(('H', n))])
        except Unsupported:
            return
        for T, pv in rs:
            w = S.g[('prio', mid)]
            c = False
            if isinstance(pv, Enum):
                alts = [and_(eq(pv.d, i), eq(x[0], w)) for i, x in pv.pl.items() if len(x) == 1 and (sym(x[0]) or isinstance(x[0], int))]
                c = or_(*alts) if alts else False
            self.ob(T, c, 'C03.requested', 'a message is queued with another priority than the one asked for')

    def env_of(self, S, v, depth=12):
        """the heap object of the envelope inside a value"""
        if isinstance(v, Agg):
            vs = v.vals
        elif isinstance(v, Enum) and not sym(v.d):
            vs = v.pl.get(v.d, ())
        elif isinstance(v, (P, Arc)) and depth:
            n = v.name if isinstance(v, Arc) else v.root[1] if v.root[0] == 'H' else None
            o = S.H.get(n)
            if o is None or o.tag in ('chan', 'otherchan', 'bq'):
                return None
            if o.tag == 'env' or isinstance(o.val, Agg) and self.T.has(o.ty, lambda i: i.get('name') in ('vharness::Msg', 'vharness::BMsg')):
                return n
            return self.env_of(S, o.val, depth - 1) if not isinstance(o.val, Lock) else self.env_of(S, o.val.val, depth - 1)
        else:
            return None
        for x in vs:
            r = self.env_of(S, x, depth)
            if r:
                return r
        return None

    def on_dup_push(self, S, coll, key, pres):
        role = self.T.elem_role(coll.ety)
        cl = {'B': 'C02', 'U': 'C01'}.get(role, 'C06')
        self.ob(S, not_(pres), cl + '.duplicate', '%s is put twice into the same collection' % key)

    def forget(self, S, coll, x):
        pass

    def note_rank(self, S, p, r):
        pass

    def frame_key(self, S, el):
        k = []
        for n in FIXED:
            if n in S.H:
                k.append((n, repr(S.H[n].val), S.H[n].shared))
        for x in sorted(S.g, key=str):
            if isinstance(x, str) and x not in ('pins', 'bpush', 'bcast_exempt'):
                k.append((x, repr(S.g[x])))
        return k

    def frame_diff(self, A, B, el):
        pass

    # ------------------------------------------------------------ tokens and counters
    def ptr_kind(self, S, ty, v):
        """'tx' | 'rx' | None for a channel pointer value"""
        i = self.srv.ty(ty)
        if i['k'] != 'Adt' or i['ak'] != 'Struct' or not i['name'].startswith('xtra::'):
            return None
        fs = i['variants'][0]['fields']
        if not any(f['ty'] == self.T.arc_chan for f in fs) or len(fs) != 2:
            return None
        j = 1 if fs[0]['ty'] == self.T.arc_chan else 0
        a = v.vals[1 - j]
        if not (isinstance(a, Arc) and a.name == 'chan'):
            return 'local' if isinstance(a, Arc) else None
        rc = v.vals[j]
        n = self.srv.ty(fs[j]['ty'])
        nm = n['name'].rsplit('::', 1)[-1]
        nm = {'Strong': 'TxStrong', 'Weak': 'TxWeak', 'Either': 'TxEither'}.get(nm, nm)
        if n['ak'] == 'Enum':
            vn = n['variants'][rc.d]['name']
            return 'tx' if vn == 'Strong' else None
        return {'TxStrong': 'tx', 'Rx': 'rx'}.get(nm)

    def token(self, S, ty, v, d):
        k = self.ptr_kind(S, ty, v)
        if k in ('tx', 'rx'):
            S.g['own_' + k] += d
            S.g['o' + k] += d

    def on_aggregate(self, S, ty, x):
        if isinstance(x, Agg):
            self.token(S, ty, x, 1)

    def on_drop_start(self, S, ty, p):
        i = self.srv.ty(ty)
        if i['k'] == 'Adt' and i['ak'] == 'Struct' and i['name'].startswith('xtra::'):
            fs = i['variants'][0]['fields']
            if len(fs) == 2 and any(f['ty'] == self.T.arc_chan for f in fs):
                v = self.eng.load(S, p)
                if isinstance(v, Agg):
                    self.token(S, ty, v, -1)

    def on_forget(self, S, ty, v):
        m = self.msg_id(S, v)
        self.ob(S, m is None, 'C01.leak', 'a message is forgotten')

    def atomic(self, S, op, p, args, dty):
        e = self.eng
        v = e.load(S, p)
        o = S.H.get(p.root[1]) if p.root[0] == 'H' else None
        if o is None or o.tag != 'chan' or not o.shared:
            return self.atomic_local(S, op, p, v, args, dty, o)
        w = self.T.counters.get(p.proj[0]) if p.proj else None
        if w not in ('tx', 'rx'):
            # some other atomic of the channel: arbitrary value
            if op == 'load':
                return [(S, e.bool('at') if self.srv.ty(dty)['k'] == 'Bool' else e.int(S, 'at'))]
            raise Unsupported('atomic %s on a shared field' % op)
        own, zero = S.g['own_' + w], S.g[w + '0']

        def cur(S):
            x = e.int(S, w + 'n')
            e.assume(S, x >= max(0, S.g['own_' + w] + max(0, S.g['d' + w] - S.g['o' + w])))
            e.assume(S, imp(S.g[w + '0'], x == 0))
            S.g[w + '0'] = or_(S.g[w + '0'], x == 0)
            if self.chan_held(S):
                # inside a critical section: a positive count means that nobody has shut down yet
                e.assume(S, imp(x > 0, not_(S.g[w + '_shut'])))
            return x
        if op == 'load':
            x = cur(S)
            if w == 'rx' or w == 'tx':
                self.saw(S, w, x)
            return [(S, x)]
        if op == 'cas_ok':
            x = args[0]
            d = e.sub(args[1], args[0])
            return self.change(S, w, x, d, U)
        if op in ('compare_exchange', 'compare_exchange_weak'):
            exp, new = args[0], args[1]
            out = []
            T = S.copy()
            x = cur(S)
            e.assume(S, eq(x, exp))
            self.last(S, w, x)
            if e.feas(S):
                for X, _ in self.change(S, w, x, e.sub(new, exp), U):
                    out.append((X, ok(dty, x)))
            y = cur(T)
            self.last(T, w, y)
            if op == 'compare_exchange':
                e.assume(T, not_(eq(y, exp)))
            if e.feas(T):
                out.append((T, err(dty, y)))
            return out
        if op in ('fetch_add', 'fetch_sub'):
            x = cur(S)
            return self.change(S, w, x, args[0] if op == 'fetch_add' else e.sub(0, args[0]), x)
        raise Unsupported('atomic %s' % op)

    def change(self, S, w, x, d, ret):
        e = self.eng
        d = con(z3.simplify(d)) if sym(d) else d
        if sym(d) or d not in (1, -1):
            self.ob(S, False, 'C13.count_step', '%s counter changed by %s' % (w, d))
            return []
        if d == 1:
            self.ob(S, cmp_('Ge', x, 1), 'C13.resurrect', 'the %s count is raised from zero' % w)
            S.g['d' + w] += 1
            return [(S, ret)]
        out = []
        e.assume(S, cmp_('Ge', x, 1))
        for T, last in e.split(S, eq(x, 1)):
            T.g['d' + w] -= 1
            if last:
                T.g[w + '0'] = True
                T.g['must_' + w] = True
                T.g['saw0_' + w] = True
            out.append((T, ret))
        return out

    def saw(self, S, w, x):
        self.last(S, w, x)
        for k in [k for k in S.g if isinstance(k, tuple) and k[0] == 'lst']:
            pass
        if S.g.get('lst_reg'):
            S.g['lst_seen_' + w] = or_(S.g.get('lst_seen_' + w, False), cmp_('Ge', x, 1))

    def atomic_local(self, S, op, p, v, args, dty, o):
        e = self.eng
        if o is not None and o.shared:
            raise Unsupported('atomic on a shared object')
        x = v.t if isinstance(v, Atomic) else None
        if op == 'load':
            return [(S, x)]
        if op == 'store':
            e.store(S, p, Atomic(args[0]))
            return [(S, U)]
        if op in ('fetch_add', 'fetch_sub'):
            e.store(S, p, Atomic(add(x, args[0]) if op == 'fetch_add' else e.sub(x, args[0])))
            return [(S, x)]
        if op in ('compare_exchange', 'compare_exchange_weak'):
            out = []
            for T, b in e.split(S, eq(x, args[0])):
                if b:
                    if op.endswith('weak'):
                        out.append((T.copy(), err(dty, x)))
                    e.store(T, p, Atomic(args[1]))
                    out.append((T, ok(dty, x)))
                else:
                    out.append((T, err(dty, x)))
            return out
        if op == 'cas_ok':
            e.store(S, p, Atomic(args[1]))
            return [(S, U)]
        if op == 'swap':
            e.store(S, p, Atomic(args[0]))
            return [(S, x)]
        raise Unsupported('atomic %s' % op)

    # ------------------------------------------------------------ panics
    def on_panic(self, S, what):
        if self.eng.feas(S):
            self.ob(S, False, 'C25.panic', 'reachable panic: %s in %s' % (what, self.eng.where(S)))

    def no_panic(self, S):
        self.ob(S, True, 'C25.panic')

    # ------------------------------------------------------------ pointers
    def addr(self, S, x):
        a = self.addr_(S, x)
        self.eng.assume(S, and_(a > 0, a < 2 ** 64))
        return a

    def addr_(self, S, x):
        if isinstance(x, Arc):
            return z3.Int('addr_' + x.name)
        if isinstance(x, P):
            if x.root[0] == 'H':
                if x.proj:
                    return z3.Int('addr_%s_%s' % (x.root[1], '_'.join(map(str, x.proj))))
                return z3.Int('addr_' + x.root[1])
        raise Unsupported('address of %r' % (x,))

    def ptr_eq(self, S, a, b):
        if isinstance(a, P) and isinstance(b, P) and a.root == b.root and a.proj == b.proj:
            return True
        return eq(self.addr(S, a), self.addr(S, b))

    # ------------------------------------------------------------ arcs
    def new_name(self, S, t, v):
        i = self.srv.ty(t)
        if t == self.T.chan:
            return None
        if i.get('name') in ('spin::mutex::Mutex', 'std::sync::Mutex'):
            role = self.T.lock_role(i['args'][0]['t'])
            if role in ('W1', 'WA'):
                m = self.msg_id(S, v.val)
                nm = {'m1': 'w1', 'm2': 'w2', 'b1': 'a1', 'b2': 'a2'}.get(m)
                if nm and nm in self.focus and nm not in S.H:
                    S.g[('client', nm)] = True
                    return nm
            if role == 'bq' and 'q1' in self.focus and 'q1' not in S.H and self.opts.get('newq'):
                S.g[('mine', 'q1')] = True
                return 'q1'
        return None

    def new_tag(self, S, t):
        i = self.srv.ty(t)
        if i.get('name') in ('spin::mutex::Mutex', 'std::sync::Mutex'):
            role = self.T.lock_role(i['args'][0]['t'])
            return 'bq' if role == 'bq' else 'ws'
        if t == self.T.chan:
            return 'chan'
        return 'env' if i['k'] == 'Adt' and 'Envelope' in i['name'] else None

    def on_arc_clone(self, S, v):
        pass

    def on_arc_drop(self, S, v):
        if v.weak:
            return
        m = self.msg_id(S, v)
        if m and m[0] == 'b':
            self.bcast_ref_dropped(S, m)
        o = S.H.get(v.name)
        if o is not None and o.tag == 'ws' and o.shared and ('up', v.name) not in S.g and isinstance(o.val, Lock):
            # the sender's own reference goes: nothing that runs foreign code may be left to the channel's side
            c = o.val.val
            a = self.ws_variants(o.val.ty)[0]
            self.ob(S, isinstance(c, Enum) and (sym(c.d) or c.d != a), 'C24.ws_drop', 'a cancelled send leaves its message behind for whoever drops the cell last')

    def bcast_ref_dropped(self, S, m):
        if S.g.get(('loc', m)) == 'taken' and self.kind in ('recv',) and not S.g['discard']:
            if self.drop_allowed(S):
                return
            q = S.H.get('q1')
            inq = False
            if q is not None and isinstance(q.val, Lock) and isinstance(q.val.val, Coll):
                inq = q.val.val.trk.get(m, (False,))[0]
            self.ob(S, inq, 'C02.lost', 'a broadcast taken from the mailbox is dropped without being handed out')

    def maybe_last(self, S, v):
        o = S.H[v.name]
        if o.tag == 'chan':
            self.assumptions.add('the channel object itself is not destroyed inside an entry (its drop glue drops every queued element)')
            return [(S, False)]
        if self.eng.strong_refs(S, v.name) > 1:
            return [(S, False)]
        if S.g.get(('esc', v.name)) and self.chan_held(S):
            return [(S, False)]
        if S.g.get(('mine', v.name)) == 'last':
            return [(S, False)]
        if o.tag == 'bq' and ('up', v.name) in S.g:
            # a temporary upgrade: the mailbox may have been dropped meanwhile
            S.g.pop(('up', v.name), None)
            return [(S, False), (S.copy(), True)] if self.opts.get('bqlast') else [(S, False)]
        return [(S, False), (S.copy(), True)]

    def before_last(self, S, v, t):
        o = S.H[v.name]
        if isinstance(o.val, Lock) and o.val.val is None:
            out = []
            for T, c in self.content(S, v.name, o.val, self.T.lock_role(o.val.ty)):
                T.H[v.name] = T.H[v.name].with_(val=Lock(o.val.kind, o.val.ty, c))
                out.append(T)
            return out
        if o.tag == 'ws' and o.shared:
            # nobody else can hold it any more; the state may have moved on since we last looked
            out = []
            for T, c in self.content(S, v.name, o.val, self.T.lock_role(o.val.ty)):
                if ('up', v.name) in T.g and isinstance(c, Enum) and not sym(c.d) and c.d == self.ws_variants(o.val.ty)[0]:
                    continue        # the sender's reference went before: see C24.ws_drop
                T.H[v.name] = T.H[v.name].with_(val=Lock(o.val.kind, o.val.ty, c))
                out.append(T)
            return out
        return [S]

    def after_last(self, S, v):
        if v.name in S.H and self.fixed(v.name):
            S.H.pop(v.name, None)
            S.g.pop(('inlist', v.name), None)

    def leafghost(self, k, v):
        return k[0] == 'dead' and isinstance(v, bool) and isinstance(k, tuple) and k[1] not in FIXED

    def keep_dead(self, S, n):
        o = S.H.get(n)
        if o is not None and o.tag == 'ws' and o.shared:
            self.bury(S, n)
            return True
        return False

    def upgrade(self, S, v):
        e = self.eng
        o = S.H.get(v.name)
        if v.name == 'chan':
            T = S.copy()
            return [(S, True), (T, False)]
        if o is None:
            return [(S, False)]
        if not o.shared and o.rc is not None:
            return [(S, o.rc > 0)]
        if S.g.get(('mine', v.name)) is True or S.g.get(('client', v.name)) is True:
            return [(S, True)]
        d = S.g.get(('dead', v.name))
        if S.g.get(('mine', v.name)) == 'last':
            return [(X, not gone) for X, gone in e.split(S, S.g['rx_shut'])]
        if v.name in FIXED:
            if d:
                return [(S, False)]
            if self.opts.get('staying') and S.g.get(('inlist', v.name)) is True:
                S.g[('up', v.name)] = True
                return [(S, True)]      # this run is about senders that do not give up
            T = S.copy()
            T.g[('dead', v.name)] = True
            S.g[('up', v.name)] = True
            return [(S, True), (T, False)]
        # an arbitrary object: whether it is gone is one value, so that states can be joined
        out = []
        for X, gone in (e.split(S, d) if sym(d) else [(S, bool(d))]):
            if gone:
                self.bury(X, v.name)
                out.append((X, False))
                continue
            T = X.copy()
            self.bury(T, v.name)
            X.g[('dead', v.name)] = False
            X.g[('up', v.name)] = True
            out += [(X, True), (T, False)]
        return out

    def bury(self, S, n):
        """object n, behind a weak reference, is gone"""
        S.g[('dead', n)] = True
        S.g[('up', n)] = True
        o = S.H.get(n)
        if o is not None and o.tag == 'ws' and isinstance(o.val, Lock):
            S.H[n] = o.with_(val=Lock(o.val.kind, o.val.ty, self.ws_done(S, o.val.ty)))

    def ws_done(self, S, ty):
        """a waiting sender that is no longer waiting"""
        a, d, c = self.ws_variants(ty)
        vs = self.srv.ty(ty)['variants']
        i = z3.Int(self.eng.fresh_name('wd'))
        self.eng.assume(S, or_(i == int(vs[d]['discr']), i == int(vs[c]['discr'])))
        return Enum(ty, i, {d: (), c: ()})

    # ------------------------------------------------------------ locks
    def chan_held(self, S):
        return any(h[0] == 'inner' for h in S.g['held'])

    def try_lock(self, S, p, kind):
        """(state, guard or None): fails whenever somebody else may hold the lock"""
        v = self.eng.load(S, p)
        if not isinstance(v, Lock):
            raise Unsupported('lock on %r' % (v,))
        root = p.root[1] if p.root[0] == 'H' else str(p.root)
        if (self.T.lock_role(v.ty), root) in S.g['held'] or v.held:
            return [(S, None)]
        o = S.H.get(root)
        out = [(S.copy(), None)] if o is not None and o.shared else []
        return out + self.lock(S, p, kind, True)

    def lock(self, S, p, kind, tried=False):
        e = self.eng
        v = e.load(S, p)
        if not isinstance(v, Lock):
            raise Unsupported('lock on %r' % (v,))
        role = self.T.lock_role(v.ty)
        if role is None or p.root[0] == 'H' and p.root[1] in S.H and S.H[p.root[1]].tag == 'otherchan':
            raise Unsupported('unknown lock')
        root = p.root[1] if p.root[0] == 'H' else str(p.root)
        lid = (role, root)
        if lid in S.g['held'] or v.held:
            self.ob(S, False, 'C24.relock', 'the %s lock is taken while this thread holds it' % role)
            return []
        if role == 'inner' and S.g['held'] and not tried:
            self.ob(S, False, 'C24.order', 'the channel lock is taken while a lock nested in it is held')
            return []
        for h in S.g['held']:
            o = S.H.get(h[1])
            if o is not None and o.shared and p.root[0] == 'H' and p.root[1] in S.H and S.H[p.root[1]].shared and not tried:
                self.order.setdefault((h[0], role), e.where(S))
        self.ob(S, True, 'C24.relock')
        self.ob(S, True, 'C24.order')
        o = S.H.get(root)
        out = []
        if o is None or not o.shared:
            states = [(S, v.val)]
        else:
            states = self.content(S, root, v, role)
        for T, c in states:
            T.g['held'] = T.g['held'] + (lid,)
            if role in ('W1', 'WA') and root in NAMES[role]:
                T.g['wspre_' + root] = c
            e.store(T, p, Lock(v.kind, v.ty, c, True))
            if role == 'inner' and o is not None and o.shared:
                self.entered(T, p)
                if not e.feas(T):
                    continue
            out.append((T, Guard(p, role)))
        return out

    def content(self, S, root, v, role):
        """content of a shared lock as found by whoever acquires it: [(state, value)]"""
        e = self.eng
        if role == 'inner':
            return self.fresh_inner(S)
        if role == 'bq':
            if isinstance(v.val, Coll) and self.chan_held(S):
                return [(S, v.val)]         # only changed under the channel lock
            r = e.fresh(S, v.ty, {'queue': root})
            if self.chan_held(S) and not S.g.get('bpush') and 'pre' in S.g:
                # C22.I4 for an arbitrary mailbox
                for T, c in r:
                    if isinstance(c, Coll):
                        e.assume(T, le(c.len, T.g['pre'].vals[self.T.tailf]))
                        if 'omax' in T.g:
                            e.assume(T, le(c.len, T.g['omax']))
            return r
        if role in ('W1', 'WA'):
            return self.ws_content(S, root, v, role)
        raise Unsupported('lock role')

    def ws_variants(self, ty):
        vs = self.srv.ty(ty)['variants']
        act = [i for i, x in enumerate(vs) if x['fields']]
        cl = [i for i, x in enumerate(vs) if not x['fields'] and 'lose' in x['name'].lower()]
        dl = [i for i, x in enumerate(vs) if not x['fields'] and i not in cl]
        if len(act) != 1 or len(cl) != 1 or len(dl) != 1:
            raise Unsupported('states of a waiting sender')
        return act[0], dl[0], cl[0]

    def ws_active(self, S, root, role, ty, waker=None):
        """Active content of the cell `root`"""
        e = self.eng
        a, _, _ = self.ws_variants(ty)
        fs = self.srv.ty(ty)['variants'][a]['fields']
        mid = {'w1': 'm1', 'w2': 'm2', 'a1': 'b1', 'a2': 'b2'}.get(root)
        if mid is not None and S.g.get(('loc', mid)) not in ('cell',):
            mid = None
        outs = [(S, [])]
        for f in fs:
            nxt = []
            for T, vs in outs:
                if self.T.has(f['ty'], lambda i: i['k'] == 'Dyn'):
                    for X, v in e.fresh(T, f['ty'], {'id': mid} if mid else None):
                        nxt.append((X, vs + [v]))
                else:
                    so = self.sym_opt(T, f['ty']) if root not in FIXED or self.opts.get('staying') else None
                    if so is not None:
                        nxt.append((T, vs + [so]))
                        continue
                    for X, v in e.fresh(T, f['ty']):
                        nxt.append((X, vs + [v]))
            outs = nxt
        return [(T, Enum(ty, a, {a: tuple(vs)})) for T, vs in outs]

    def sym_opt(self, S, ty):
        """an Option whose payload has one shape, present or not"""
        i = self.srv.ty(ty)
        if i['k'] != 'Adt' or i['name'] != 'std::option::Option':
            return None
        r = self.eng.fresh(S, i['args'][0]['t'])
        if len(r) != 1 or r[0][0] is not S:
            return None
        d = self.eng.int(S, 'od', 0, 1)
        return Enum(ty, d, {0: (), 1: (r[0][1],)})

    def ws_content(self, S, root, v, role):
        e = self.eng
        a, d, c = self.ws_variants(v.ty)
        known = v.val
        client = S.g.get(('client', root)) is True
        mid = {'w1': 'm1', 'w2': 'm2', 'a1': 'b1', 'a2': 'b2'}.get(root)
        if isinstance(known, Enum) and (sym(known.d) or known.d in (d, c)):
            return [(S, known)]
        out = []
        if root not in FIXED and not client:
            T = S.copy()
            return self.ws_active(S, root, role, v.ty) + [(T, self.ws_done(T, v.ty))]
        inlist = S.g.get(('inlist', root))
        if self.chan_held(S) and inlist is True:
            # still registered: nobody but us can complete it, but the sender may give up
            if isinstance(known, Enum) and client:
                return [(S, known)]
            if self.opts.get('staying'):
                return self.ws_active(S, root, role, v.ty)
            T = S.copy()
            T.g[('dead', root)] = True
            if mid and T.g.get(('loc', mid)) == 'cell':
                T.g[('loc', mid)] = 'gone'
            return self.ws_active(S, root, role, v.ty) + [(T, Enum(v.ty, c, {c: ()}))]
        if S.g.get(('mine_handle', root)):
            if isinstance(known, Enum) and client:
                return [(S, known)]
            return self.ws_active(S, root, role, v.ty)
        # not under our control: any state reachable from the last known one
        T1, T2 = S.copy(), S.copy()
        if isinstance(known, Enum) and client:
            out.append((S, known))
        else:
            out += self.ws_active(S, root, role, v.ty)
        if mid and mid in self.focus:
            if T1.g.get(('loc', mid)) == 'cell':
                T1.g[('loc', mid)] = 'shared'
            if T2.g.get(('loc', mid)) == 'cell':
                T2.g[('loc', mid)] = 'gone'
        T1.g[('inlist', root)] = False
        T2.g[('inlist', root)] = False
        out.append((T1, Enum(v.ty, d, {d: ()})))
        if client:
            # closed only when every receiver is gone
            T2.g['rx0'] = True
            T2.g['ws_closed'] = True
            if T2.g['own_rx'] > 0:
                return out
        out.append((T2, Enum(v.ty, c, {c: ()})))
        return out

    def fresh_inner(self, S):
        e = self.eng
        # where are the tracked individuals?
        states = [S]
        for nm in ('w1', 'w2', 'a1', 'a2'):
            if nm not in S.H or not S.H[nm].shared:
                continue
            nxt = []
            for T in states:
                nxt += self.place_ws(T, nm)
            states = nxt
        if 'r1' in S.H and S.H['r1'].shared:
            nxt = []
            for T in states:
                nxt += self.place_r1(T)
            states = nxt
        out = []
        for T in states:
            if T.g['own_rx'] > 0:
                T.g['rx_shut'] = False
            if T.g['own_tx'] > 0:
                T.g['tx_shut'] = False
            for w in ('rx', 'tx'):
                old = T.g[w + '_shut']
                if old is not False and old is not True:
                    b = e.bool(w + 'shut')
                    e.assume(T, imp(old, b))
                    T.g[w + '_shut'] = b
                elif old is False and T.g['own_' + w] == 0:
                    b = e.bool(w + 'shut')
                    T.g[w + '_shut'] = b
            if T.g['must_rx']:
                # this thread is the one that still has to shut the channel down
                if sym(T.g['rx_shut']):
                    T.g['rx_shut'] = False
            if T.g['must_tx']:
                T.g['tx_shut'] = False
            ii = self.srv.ty(self.T.inner)
            vals = []
            cur = [(T, [])]
            for i, f in enumerate(ii['variants'][0]['fields']):
                nxt = []
                for X, vs in cur:
                    if i == self.T.capf:
                        c = X.g['cap']
                        nxt.append((X, vs + [opt(e, f['ty'], None if isinstance(c, str) else c)]))
                    else:
                        for Y, v in e.fresh(X, f['ty'], {'inner': True}):
                            nxt.append((Y, vs + [v]))
                cur = nxt
            for X, vs in cur:
                q = X.H.get('q1')
                if q is not None and q.shared and isinstance(q.val, Lock) and not q.val.held:
                    for Y, c in e.fresh(X, q.val.ty, {'queue': 'q1'}):
                        Y.H['q1'] = Y.H['q1'].with_(val=Lock(q.val.kind, q.val.ty, c))
                        out.append((Y, Agg(self.T.inner, vs)))
                else:
                    out.append((X, Agg(self.T.inner, vs)))
        return out

    def place_ws(self, S, nm):
        """registered (and Active), or not registered"""
        if S.g.get(('mine_handle', nm)) or S.g.get(('gone', nm)):
            return [S]
        if S.g.get(('client', nm)) is False and not S.g.get('mw_' + nm):
            # somebody else's: only critical sections that find it registered matter to what is said about it;
            # the others are those of a run that does not track it
            if S.g.get(('inlist', nm)) is False:
                return []
            v = S.H[nm].val
            if isinstance(v.val, Enum) and (sym(v.val.d) or v.val.d != self.ws_variants(v.ty)[0]):
                return []
            S.g[('inlist', nm)] = True
            return [S]
        v = S.H[nm].val
        a, d, c = self.ws_variants(v.ty)
        if isinstance(v.val, Enum) and v.val.d in (d, c):
            S.g[('inlist', nm)] = False
            return [S]
        if S.g.get(('inlist', nm)) is False:
            return [S]
        T = S.copy()
        S.g[('inlist', nm)] = True
        T.g[('inlist', nm)] = False
        mid = {'w1': 'm1', 'w2': 'm2', 'a1': 'b1', 'a2': 'b2'}.get(nm)
        if T.g.get(('loc', mid)) == 'cell':
            # taken by somebody (or about to be closed by somebody)
            T.g[('loc', mid)] = 'shared'
            T.H[nm] = T.H[nm].with_(val=Lock(v.kind, v.ty, None))
            X = T.copy()
            X.g[('loc', mid)] = 'gone'
            X.g['rx0'] = True
            X.H[nm] = X.H[nm].with_(val=Lock(v.kind, v.ty, Enum(v.ty, c, {c: ()})))
            T.H[nm] = T.H[nm].with_(val=Lock(v.kind, v.ty, Enum(v.ty, d, {d: ()})))
            r = [S, T]
            if X.g['own_rx'] == 0:
                r.append(X)
            return r
        return [S, T]

    def place_r1(self, S):
        o = S.H['r1']
        st = o.val.vals[0].what
        if 'tx' not in o.tag or st != 'idle':
            return [S]
        if 'rx' in o.tag:
            S.g[('inlist', 'r1')] = self.eng.bool('in_r1')
            return [S]
        T = S.copy()
        S.g[('inlist', 'r1')] = True
        T.g[('inlist', 'r1')] = False
        T.H['r1'] = o.with_(val=Agg(None, (Opq('unknown'),) + o.val.vals[1:]))
        return [S, T]

    # ------------------------------------------------------------ the monitor invariant
    def inner_of(self, S):
        return self.eng.load(S, self.inner_ptr(S))

    def coll(self, S, role, inner=None):
        inner = inner if inner is not None else self.inner_of(S)
        v = inner.vals[self.T.roles[role]]
        if not isinstance(v, Coll):
            raise Unsupported('field of role %s was moved out' % role)
        return v

    def cap(self, S):
        c = S.g['cap']
        return None if isinstance(c, str) else c

    def pres(self, coll, nm):
        t = coll.trk.get(nm)
        return t[0] if t else False

    def inv(self, S, inner):
        """[(clause, formula, what)] over the content of the channel"""
        e = self.eng
        out = []
        uq, w1, wa, rr, qq = (self.coll(S, r, inner) for r in ('U', 'W1', 'WA', 'R', 'Q'))
        tail = inner.vals[self.T.tailf]
        cap = self.cap(S)
        for nm, c, ln, cl in (('w1', w1, uq.len, 'C06.I1u'), ('w2', w1, uq.len, 'C06.I1u'), ('a1', wa, tail, 'C06.I1b'), ('a2', wa, tail, 'C06.I1b')):
            p = self.pres(c, nm)
            if p is False or nm not in S.H:
                continue
            st = S.H[nm].val.val
            a, d, cc = self.ws_variants(S.H[nm].val.ty)
            active = not (isinstance(st, Enum) and st.d != a) and not S.g.get(('dead', nm))
            if active:
                out.append((cl, imp(p, False if cap is None else cmp_('Ge', ln, cap)),
                            'a sender stays waiting although the mailbox has room'))
        p = self.pres(rr, 'r1')
        if p is not False and 'r1' in S.H and self.r1_accepting(S):
            out.append(('C07.I3u', imp(p, eq(uq.len, 0)), 'a receiver stays waiting although a message is queued'))
            q = S.H.get('q1')
            if q is not None and isinstance(q.val, Lock) and isinstance(q.val.val, Coll):
                out.append(('C07.I3b', imp(p, eq(q.val.val.len, 0)), 'a receiver stays waiting although its mailbox holds a broadcast'))
            out.append(('C15.I3s', imp(p, not_(S.g['tx_shut'])), 'a receiver waits after the last sender is gone and the waiting receivers were told'))
        q = S.H.get('q1')
        if q is not None and q.shared and isinstance(q.val, Lock) and isinstance(q.val.val, Coll):
            out.append(('C22.I4', imp(self.pres(qq, 'q1'), le(q.val.val.len, tail)), 'the broadcast length is below the length of a broadcast queue'))
            if S.g.get(('mine', 'q1')) == 'last':
                out.append(('C02.listed', imp(not_(S.g['rx_shut']), self.pres(qq, 'q1')), 'a live mailbox is no longer registered for broadcasts'))
            if S.g.get(('mine', 'q1')) is True and S.g['own_rx'] > 0:
                out.append(('C02.listed', self.pres(qq, 'q1'), 'a live mailbox is no longer registered for broadcasts'))
        for r, c, cl in (('U', uq, 'C12.I5'), ('W1', w1, 'C12.I5'), ('WA', wa, 'C12.I5')):
            out.append((cl, imp(S.g['rx_shut'], eq(c.len, 0)), 'something is left in or added to the %s queue after the last mailbox is gone' % r))
        out.append(('C15.I5r', imp(S.g['tx_shut'], eq(rr.len, 0)), 'a receiver is registered after the last sender is gone'))
        return out

    def r1_accepting(self, S):
        return S.H['r1'].val.vals[0].what in ('idle',)

    def entered(self, S, p):
        """just acquired the channel lock"""
        e = self.eng
        inner = e.load(S, P(p.root, p.proj + (('lk',),)))
        for cl, f, _ in self.inv(S, inner):
            if f is False:
                S.pc = S.pc + (z3.BoolVal(False),)
                return
            e.assume(S, f)
        first = not S.g.get('parted')
        S.g['parted'] = True
        if self.bits and first:
            qs = [eq(self.coll(S, 'U', inner).len, 0)]
            q = S.H.get('q1')
            if q is not None and isinstance(q.val, Lock) and isinstance(q.val.val, Coll):
                qs.append(eq(q.val.val.len, 0))
            qs.append(S.g['tx_shut'])
            for b, c in zip(self.bits, qs):
                e.assume(S, c if b else not_(c))
        self.fifo_entered(S, inner)
        S.g['pre'] = inner
        S.g.pop('omax', None)
        S.g['bpush'] = False
        S.g['bcast_exempt'] = False
        for k in [k for k in S.g if isinstance(k, tuple) and k[0] == 'esc']:
            del S.g[k]
        for k in ('w1', 'w2', 'a1', 'a2'):
            for x in ('took', 'hi', 'lo'):
                S.g.pop((x, k), None)
        q = S.H.get('q1')
        S.g['preq'] = q.val.val if q is not None and isinstance(q.val, Lock) and isinstance(q.val.val, Coll) else UNINIT
        S.g['got'] = 0
        if self.opts.get('tight') and isinstance(S.g['preq'], Coll) and S.g.get(('mine', 'q1')) is True:
            # any bound on the lengths of the queues once a broadcast has been taken from this one
            S.g['omax'] = z3.Int(e.fresh_name('omax'))
            e.assume(S, cmp_('Ge', S.g['omax'], 0))
            e.assume(S, le(S.g['preq'].len, add(S.g['omax'], 1)))
        if self.kind == 'laws':
            S.g['found'], S.g['foundq'] = inner, S.g['preq']

    def unlock(self, S, g):
        e = self.eng
        p = g.lock
        v = e.load(S, p)
        root = p.root[1] if p.root[0] == 'H' else str(p.root)
        role = g.kind
        lid = (role, root)
        S.g['held'] = tuple(h for h in S.g['held'] if h != lid)
        o = S.H.get(root)
        if self.opts.get('newq') and v.ty == self.T.inner:
            S.g['newlisted'] = self.pres(self.coll(S, 'Q', v.val), 'q1')
        if o is None or not o.shared:
            e.store(S, p, Lock(v.kind, v.ty, v.val, False))
            return [S]
        if role == 'inner':
            return self.leave(S, p, v)
        if role in ('W1', 'WA'):
            self.ws_leave(S, root, v)
            c = v.val
            if root not in FIXED and S.g.get(('client', root)) is not True and isinstance(c, Enum) and (sym(c.d) or c.d != self.ws_variants(v.ty)[0]):
                c = self.ws_done(S, v.ty)
            e.store(S, p, Lock(v.kind, v.ty, c, False))
            self.publish(S, v.val)
            return [S]
        if role == 'bq':
            self.publish(S, v.val)
            e.store(S, p, Lock(v.kind, v.ty, v.val if self.chan_held(S) else None, False))
            return [S]
        return [S]

    def waker_in(self, v):
        if isinstance(v, End):
            return v.name if v.kind == 'waker' else None
        for x in (v.vals if isinstance(v, Agg) else v.pl.get(v.d, ()) if isinstance(v, Enum) and not sym(v.d) else ()):
            r = self.waker_in(x)
            if r:
                return r
        return None

    def ws_leave(self, S, root, v):
        """two-state contract of the cell shared by a waiting sender and the channel"""
        pre = S.g.pop('wspre_' + root, None)
        st = v.val
        a, d, c = self.ws_variants(v.ty)
        if not isinstance(pre, Enum) or not isinstance(st, Enum):
            return
        client = S.g.get(('client', root)) is True
        if root not in FIXED and not client or sym(pre.d) or sym(st.d):
            return          # any cell can be the tracked one
        wk, nw = (None, None) if self.opts.get('staying') else (self.waker_in(pre), self.waker_in(st))
        if pre.d == a and st.d == a:
            if client and nw:
                S.g['reg'] = nw
            if not client:
                self.ob(S, wk == nw, 'C06.waker_kept', 'the waker of a waiting sender is replaced by the channel')
            m0, m1 = self.msg_id(S, pre), self.msg_id(S, st)
            if m0 != m1:
                self.ob(S, False, 'C01.swapped', 'the message of a waiting sender is exchanged')
        elif pre.d == a:
            if client:
                return
            if wk and not S.g.get('woken_' + wk):
                S.g['mw_' + root] = wk
            if st.d == d:
                S.g[('took', root)] = True
                if S.g.get('pre') is not None:
                    self.took_first(S, root)
                mid = {'w1': 'm1', 'w2': 'm2', 'a1': 'b1', 'a2': 'b2'}.get(root)
                if mid and S.g.get(('loc', mid)) == 'cell':
                    S.g[('loc', mid)] = 'taken'
            else:
                S.g['mc_' + root] = True
                self.ob(S, S.g.get('saw0_rx', False), 'C12.closed', 'a waiting sender is told that the channel is closed although a mailbox remains')
        elif st.d != pre.d and not client:
            self.ob(S, st.d == d and pre.d == c, 'C12.flip', 'a finished waiting sender changes its outcome')

    def took_first(self, S, na):
        """a registered sender is let in: is it the one of highest priority, and the first of those, at this moment?"""
        nb = na[0] + {'1': '2', '2': '1'}[na[1]]
        mk = 'm' if na[0] == 'w' else 'b'
        ma, mb = mk + na[1], mk + nb[1]
        c0 = self.coll(S, 'W1' if na[0] == 'w' else 'WA', S.g['pre'])
        if self.pres(c0, na) is False or self.pres(c0, nb) is False or ('prio', ma) not in S.g or ('prio', mb) not in S.g:
            return
        x, y = S.g[('prio', ma)], S.g[('prio', mb)]
        both = and_(self.pres(c0, na), self.pres(c0, nb))
        S.g[('hi', na)] = self.eng.must(S, imp(both, cmp_('Ge', x, y)))
        S.g[('lo', na)] = self.eng.must(S, imp(and_(both, eq(x, y)), self.first(c0.trk[na][2], c0.trk[nb][2])))

    def first(self, x, y):
        """the place in the queue of waiting senders: who came first is in front, or at the back (template 'wait')"""
        return lt(x, y) if self.opts.get('wait', 'front') == 'front' else lt(y, x)

    def check_wakes(self, S):
        for nm in ('w1', 'w2', 'a1', 'a2'):
            if S.g.get('mw_' + nm) and S.g.get('mc_' + nm):
                self.ob(S, False, 'C12.woken', 'a waiting sender is not woken although the channel is closed')
            elif S.g.get('mw_' + nm):
                self.ob(S, False, 'C06.wake', 'a waiting sender is completed without its waker being woken')

    def leave(self, S, p, v):
        e = self.eng
        inner = v.val
        pre = S.g['pre']
        self.shut_progress(S, inner)
        for cl, f, what in self.inv(S, inner):
            self.ob(S, f, cl, what)
        self.two_state(S, pre, inner)
        if self.kind == 'recv':
            self.drained(S, inner)
            if not S.g.get('bpush'):
                self.tight(S)
        self.fifo_leave(S, pre, inner)
        self.relocate(S, pre, inner)
        self.publish(S, inner)
        q = S.H.get('q1')
        if q is not None and q.shared and isinstance(q.val, Lock):
            self.publish(S, q.val.val)
            S.H['q1'] = S.H['q1'].with_(val=Lock(q.val.kind, q.val.ty, None))
        e.store(S, p, Lock(v.kind, v.ty, None, False))
        S.g.pop('pre', None)
        S.g.pop('preq', None)
        for k in ('bpush', 'bcast_exempt', 'got', 'announced'):
            S.g.pop(k, None)
        for k in [k for k in S.g if isinstance(k, tuple) and k[0] == 'inlist' and k[1] == 'r1']:
            S.g.pop(k)
        return [S]

    # ------------------------------------------------------------ order of arrival
    # template: every queued element carries a number (a field of the queue's element, seq), which is bounded by a
    # counter of the channel and grows with the order of arrival.  opts['fifo'] = 'le' or 'lt': seq <= / < counter
    def seq(self, el):
        l = []
        def f(v):
            if isinstance(v, Agg):
                for x in v.vals:
                    f(x)
            elif isinstance(v, int) and not isinstance(v, bool) or sym(v) and v.sort() != BOOL:
                l.append(v)
        f(el)
        return l[0] if len(l) == 1 else None

    def fifo_pairs(self, S, inner):
        q = S.H.get('q1')
        c = [('U', ('m1', 'm2'), self.coll(S, 'U', inner))]
        if q is not None and isinstance(q.val, Lock) and isinstance(q.val.val, Coll):
            c.append(('B', ('b1', 'b2'), q.val.val))
        return c

    def fifo_aux(self, S, inner):
        out = []
        for role, nms, c in self.fifo_pairs(S, inner):
            for nm in nms:
                p = self.pres(c, nm)
                if p is False:
                    continue
                x = self.seq(c.trk[nm][1])
                if x is None:
                    continue
                for i in self.T.inner_ints:
                    out.append(imp(p, (le if self.opts['fifo'] == 'le' else lt)(x, inner.vals[i])))
        return out

    def fifo_order(self, c, a, b):
        """a came before b: the numbers say so too"""
        x, y = self.seq(c.trk[a][1]), self.seq(c.trk[b][1])
        return False if x is None or y is None else lt(x, y)

    def fifo_entered(self, S, inner):
        if not self.opts.get('fifo'):
            return
        e = self.eng
        for f in self.fifo_aux(S, inner):
            e.assume(S, f)
        for role, (a, b), c in self.fifo_pairs(S, inner):
            pa, pb = self.pres(c, a), self.pres(c, b)
            if pa is False or pb is False:
                continue
            arr = S.g['arr' + role] = e.bool('arr')
            if self.seq(c.trk[a][1]) is not None and self.seq(c.trk[b][1]) is not None:
                e.assume(S, imp(and_(pa, pb, arr), self.fifo_order(c, a, b)))
                e.assume(S, imp(and_(pa, pb, not_(arr)), self.fifo_order(c, b, a)))

    def fifo_leave(self, S, pre, inner):
        if not self.opts.get('fifo'):
            return
        for f in self.fifo_aux(S, inner):
            self.ob(S, f, 'C04.number', 'the number of a queued message is not bounded by the counter')
        old = {r: c for r, _, c in self.fifo_pairs(S, pre)}
        if isinstance(S.g.get('preq'), Coll):
            old['B'] = S.g['preq']
        for role, (a, b), c in self.fifo_pairs(S, inner):
            o = old.get(role)
            if o is None:
                continue
            pa0, pb0, pa, pb = self.pres(o, a), self.pres(o, b), self.pres(c, a), self.pres(c, b)
            arr = S.g.get('arr' + role, True)
            for x, y, x0, y0, px, py, ar in ((a, b, pa0, pb0, pa, pb, arr), (b, a, pb0, pa0, pb, pa, not_(arr))):
                if px is not False and py is not False:
                    self.ob(S, imp(and_(x0, not_(y0), px, py), self.fifo_order(c, x, y)), 'C04.order', '%s is put before %s, of equal rank, which waited already' % (y, x))
                    self.ob(S, imp(and_(x0, y0, px, py, ar), self.fifo_order(c, x, y)), 'C04.order', 'the order of waiting messages changes')
                # x is older and of equal priority, both are there, and y is taken
                if self.kind == 'recv' and x0 is not False and y0 is not False and ('prio', x) in S.g and ('prio', y) in S.g:
                    self.ob(S, imp(and_(x0, y0, ar, px, not_(py), eq(S.g[('prio', x)], S.g[('prio', y)]), not_(S.g['rx_shut'])), False),
                            'C04.first', '%s is taken before %s, which has the same priority and was sent before' % (y, x))
        S.g.pop('arrU', None)
        S.g.pop('arrB', None)

    def shut_progress(self, S, inner):
        uq, w1, wa, rr = (self.coll(S, r, inner) for r in ('U', 'W1', 'WA', 'R'))
        e = self.eng
        if S.g['must_rx']:
            done = and_(eq(uq.len, 0), eq(w1.len, 0), eq(wa.len, 0))
            if e.must(S, done):
                S.g['must_rx'] = False
                S.g['rx_shut'] = True
        if S.g['must_tx']:
            if e.must(S, eq(rr.len, 0)):
                S.g['must_tx'] = False
                S.g['tx_shut'] = True

    def tight(self, S):
        """once a receive has taken a broadcast, the count of broadcasts is no more than the longest queue"""
        q, q0 = S.H.get('q1'), S.g.get('preq')
        q = q.val.val if q is not None and isinstance(q.val, Lock) else None
        if 'omax' in S.g and isinstance(q, Coll) and isinstance(q0, Coll):
            tail = self.inner_of(S).vals[self.T.tailf]
            self.ob(S, imp(lt(q.len, q0.len), le(tail, S.g['omax'])), 'C06.count', 'a receive makes room for broadcasts but the channel still counts the broadcast')

    def drained(self, S, inner):
        """nothing was available to this mailbox in a critical section at whose end no sender was left"""
        q = S.H.get('q1')
        q = q.val.val if q is not None and isinstance(q.val, Lock) else None
        c = [S.g['tx0'], eq(self.coll(S, 'U', inner).len, 0)]
        if isinstance(q, Coll) and S.g.get(('mine', 'q1')) is True:
            c.append(eq(q.len, 0))
        if self.eng.must(S, and_(*c)):
            S.g['drained'] = True

    def two_state(self, S, pre, inner):
        e = self.eng
        T = self.T
        uq0, uq = self.coll(S, 'U', pre), self.coll(S, 'U', inner)
        cap = self.cap(S)
        self.ob(S, eq_opt(pre.vals[T.capf], inner.vals[T.capf]), 'C22.cap_const', 'the capacity changes')
        t0, t1 = pre.vals[T.tailf], inner.vals[T.tailf]
        if cap is not None:
            slack = S.g.get('got', 0)
            self.ob(S, or_(le(uq.len, add(uq0.len, slack)), le(uq.len, cap)), 'C05.unicast', 'more messages are queued than the capacity allows')
            if not S.g.get('bcast_exempt'):
                self.ob(S, or_(le(t1, t0), le(t1, cap)), 'C05.broadcast', 'more broadcasts are queued than the capacity allows')
        # only a receiver takes messages out, one at a time, until the channel is shut down
        gone = 1 if self.kind == 'recv' else 0
        kept = imp(not_(S.g['rx_shut']), cmp_('Ge', add(uq.len, gone), uq0.len))
        self.ob(S, kept, 'C01.removed', 'messages are taken out of the mailbox which nobody receives')
        self.ob(S, kept, 'C15.drained', 'messages are thrown away although there is a mailbox to drain them')
        q0, q = S.g.get('preq'), S.H.get('q1')
        qc = q.val.val if q is not None and isinstance(q.val, Lock) else None
        if isinstance(q0, Coll) and isinstance(qc, Coll) and S.g.get(('mine', 'q1')) is not True:
            self.ob(S, imp(not_(S.g['rx_shut']), cmp_('Ge', qc.len, q0.len)), 'C02.removed', 'broadcasts are taken out of the queue of another mailbox')
        elif isinstance(q0, Coll) and isinstance(qc, Coll):
            self.ob(S, imp(not_(S.g['rx_shut']), cmp_('Ge', add(qc.len, gone), q0.len)), 'C02.removed', 'more than one broadcast is taken out at once')
            self.ob(S, imp(not_(S.g['rx_shut']), cmp_('Ge', add(qc.len, gone), q0.len)), 'C15.drained', 'broadcasts are thrown away although there is a mailbox to drain them')
        rec = []        # (name, prio, present before, present after, kind)
        for nm in ('m1', 'm2'):
            if nm in self.focus and ('prio', nm) in S.g:
                rec.append((nm, S.g[('prio', nm)], self.pres(uq0, nm), self.pres(uq, nm), 'U'))
        if isinstance(q0, Coll) and isinstance(qc, Coll) and S.g.get(('mine', 'q1')) is True:
            for nm in NAMES['B']:
                if nm in self.focus and ('prio', nm) in S.g:
                    rec.append((nm, S.g[('prio', nm)], self.pres(q0, nm), self.pres(qc, nm), 'B'))
        if self.kind == 'recv':
            for a in rec:
                for b in rec:
                    if a[0] == b[0] or a[2] is False or b[2] is False:
                        continue
                    taken = and_(a[2], not_(a[3]), b[2], b[3], not_(S.g['rx_shut']))
                    if taken is False:
                        continue
                    if b[0] == 's1':
                        if a[4] == b[4] or not S.g.get('announced'):
                            self.ob(S, not_(taken), 'C16.first', '%s is taken although the notice of stop_all is in the mailbox' % a[0])
                        continue
                    if a[4] != b[4] and S.g.get('announced'):
                        continue        # it waited and was given this broadcast, as it would be given a message
                    self.ob(S, imp(taken, cmp_('Ge', a[1], b[1])), 'C03.priority',
                            '%s is taken although %s, of higher priority, is in the same mailbox' % (a[0], b[0]))
        w0, w = self.coll(S, 'W1', pre), self.coll(S, 'W1', inner)
        x0, x = self.coll(S, 'WA', pre), self.coll(S, 'WA', inner)
        first = self.first
        for na, nb, c0, c, mk in (('w1', 'w2', w0, w, 'm'), ('w2', 'w1', w0, w, 'm'), ('a1', 'a2', x0, x, 'b'), ('a2', 'a1', x0, x, 'b')):
            ma, mb = mk + na[1], mk + nb[1]
            pa0, pb0, pa, pb = self.pres(c0, na), self.pres(c0, nb), self.pres(c, na), self.pres(c, nb)
            if pa0 is not False and pb0 is not False:
                if S.g.get(('took', na)) and nb in S.H and not S.g.get(('dead', nb)) and ('prio', ma) in S.g and ('prio', mb) in S.g:
                    self.ob(S, imp(and_(pa0, pb0, pb), S.g.get(('hi', na), False)), 'C03.waiting',
                            'a waiting message is promoted before one of higher priority')
                    self.ob(S, imp(and_(pa0, pb0, pb), S.g.get(('lo', na), False)), 'C04.waiting',
                            'a waiting message is promoted before one of equal priority that waits longer')
                if na < nb and pa is not False and pb is not False:
                    self.ob(S, imp(and_(pa0, pb0, pa, pb), or_(and_(first(c0.trk[na][2], c0.trk[nb][2]), first(c.trk[na][2], c.trk[nb][2])),
                                                              and_(first(c0.trk[nb][2], c0.trk[na][2]), first(c.trk[nb][2], c.trk[na][2])))), 'C04.enqueue', 'the order of waiting senders changes')
            elif pa0 is not False and pa is not False and pb is not False:
                self.ob(S, imp(and_(pa0, pa, pb), first(c.trk[na][2], c.trk[nb][2])), 'C04.enqueue', 'a sender queues up in front of one that waits already')
        for na in ('a1', 'a2'):
            nb = na.replace('a', 'b')
            if S.g.get(('took', na)) and nb in self.focus and qc is not None and isinstance(qc, Coll):
                live = not_(S.g['rx_shut']) if S.g.get(('mine', 'q1')) == 'last' else S.g['own_rx'] > 0 and S.g.get(('mine', 'q1')) is True
                self.ob(S, imp(live, self.pres(qc, nb)), 'C02.promoted', 'a waiting broadcast is let in without reaching every mailbox')
        # registered cells must not disappear without being completed
        for r, c0, c in (('W1', w0, w), ('WA', self.coll(S, 'WA', pre), self.coll(S, 'WA', inner))):
            for nm in NAMES[r]:
                if nm in c.trk and c.trk[nm][0] is not False:
                    el = c.trk[nm][1]
                    self.ob(S, not has_strong(el, nm), 'C09.weak', 'the channel keeps a cancelled send alive')

    def relocate(self, S, pre, inner):
        """where the tracked messages are after the critical section"""
        uq0, uq = self.coll(S, 'U', pre), self.coll(S, 'U', inner)
        for nm in ('m1', 'm2'):
            if nm not in self.focus:
                continue
            p0, p1 = self.pres(uq0, nm), self.pres(uq, nm)
            if p1 is True:
                S.g[('loc', nm)] = 'shared'
            elif p0 is True and p1 is False:
                if S.g.get(('loc', nm)) == 'shared':
                    S.g[('loc', nm)] = 'taken'
        q0, q = S.g.get('preq'), S.H.get('q1')
        qc = q.val.val if q is not None and isinstance(q.val, Lock) else None
        for nm in NAMES['B']:
            if nm in self.focus and isinstance(q0, Coll) and isinstance(qc, Coll):
                p0, p1 = self.pres(q0, nm), self.pres(qc, nm)
                if p1 is True:
                    S.g[('loc', nm)] = 'shared'
                elif p0 is True and p1 is False and S.g.get(('loc', nm)) == 'shared':
                    S.g[('loc', nm)] = 'taken'
        for nm in ('w1', 'w2', 'a1', 'a2'):
            if nm not in S.H:
                continue
            r = 'W1' if nm[0] == 'w' else 'WA'
            if self.pres(self.coll(S, r, inner), nm) is True:
                mid = nm.replace('w', 'm').replace('a', 'b')
                if mid in self.focus and isinstance(S.H[nm].val.val, Enum) and self.msg_id(S, S.H[nm].val.val) == mid:
                    if S.g.get(('loc', mid)) == 'local' and mid in ('m1', 'b1'):
                        self.requested(S, mid, S.H[nm].val.val)
                    S.g[('loc', mid)] = 'cell'
                S.g[('inlist', nm)] = None
                S.g.pop(('inlist', nm))
            elif nm in S.H and S.H[nm].shared:
                S.g[('inlist', nm)] = False

    def publish(self, S, v, seen=None):
        seen = set() if seen is None else seen
        if isinstance(v, Agg):
            for x in v.vals:
                self.publish(S, x, seen)
        elif isinstance(v, Enum):
            if not sym(v.d):
                for x in v.pl.get(v.d, ()):
                    self.publish(S, x, seen)
        elif isinstance(v, Coll):
            for p, el, r in v.trk.values():
                if p is not False:
                    self.publish(S, el, seen)
        elif isinstance(v, P):
            if v.root[0] == 'H' and v.root[1] not in seen and v.root[1] in S.H:
                seen.add(v.root[1])
                self.publish(S, S.H[v.root[1]].val, seen)
        elif isinstance(v, Arc):
            if v.name in S.H and v.name not in seen:
                seen.add(v.name)
                S.H[v.name] = S.H[v.name].with_(shared=True, rc=None)
                self.publish(S, S.H[v.name].val, seen)
        elif isinstance(v, End) and v.kind in ('tx', 'rx'):
            o = S.H.get(v.name)
            if o is not None and v.kind not in (o.tag or ()):
                S.H[v.name] = o.with_(shared=True, tag=tuple(sorted(set(o.tag or ()) | {v.kind})))
        elif isinstance(v, Lock):
            if v.val is not None:
                self.publish(S, v.val, seen)

    def lock_content_for_drop(self, S, p, v):
        if v.val is not None:
            return [S]
        out = []
        role = self.T.lock_role(v.ty)
        root = p.root[1] if p.root[0] == 'H' else None
        for T, c in self.content(S, root, v, role):
            self.eng.store(T, p, Lock(v.kind, v.ty, c))
            out.append(T)
        return out

    # ------------------------------------------------------------ wakers
    def on_wake(self, S, w):
        hit = False
        for nm in ('w1', 'w2', 'a1', 'a2'):
            if S.g.get('mw_' + nm) == w:
                S.g.pop('mw_' + nm)
                hit = True
            p = S.g.get('wspre_' + nm)
            if p is not None and self.waker_in(p) == w:
                S.g['woken_' + w] = True

    # ------------------------------------------------------------ oneshots
    def os_kind(self, t):
        return CTRL if t == self.ctrl_type() else REPLY

    def new_oneshot(self, S, t):
        n = None
        if self.os_kind(t) == CTRL:
            if 'r1' in self.focus and ('r1' not in S.H):
                n = 'r1'
        elif 'o1' in self.focus and 'o1' not in S.H:
            n = 'o1'
        n = n or self.eng.fresh_name('os')
        S.H[n] = self.os_obj('idle', UNINIT, frozenset(), t)
        return n

    def env_item(self, S, n):
        """what the far sender may put into oneshot n: [(state, item)]"""
        e = self.eng
        t = S.H[n].ty
        if self.os_kind(t) == CTRL:
            out = []
            for i, v in enumerate(self.srv.ty(t)['variants']):
                if not v['fields']:
                    T = S.copy()
                    out.append((T, Enum(t, i, {i: ()})))
                    if 'hut' in v['name']:
                        T.g['tx0'] = True
                        T.g['told_shutdown'] = True
                        if T.g['own_tx'] > 0:
                            out.pop()
                    continue
                T = S.copy()
                for X, m in e.fresh(T, v['fields'][0]['ty'], {'other': True}):
                    out.append((X, Enum(t, i, {i: (m,)})))
                for nm in ('m1', 'm2'):
                    if nm in self.focus and S.g.get(('loc', nm)) == 'shared':
                        T = S.copy()
                        for X, m in e.fresh(T, v['fields'][0]['ty'], {'id': nm}):
                            X.g[('loc', nm)] = 'taken'
                            if self.chan_held(X):
                                # handed over before this critical section, so it is not queued
                                e.assume(X, not_(self.pres(self.coll(X, 'U'), nm)))
                            out.append((X, Enum(t, i, {i: (m,)})))
            return out
        return [(S, Agg(t, [Opq('reply')]))]

    def os_set(self, S, n, st, item=UNINIT):
        o = S.H[n]
        S.H[n] = o.with_(val=Agg(None, (Opq(st), item, o.val.vals[2])))

    def os_observe(self, S, n):
        """the receiver looks: [(state, 'idle'|'sent'|'closed', item)]"""
        o = S.H[n]
        st = o.val.vals[0].what
        if st == 'sent':
            return [(S, 'sent', o.val.vals[1])]
        if st in ('txdrop', 'taken'):
            return [(S, 'closed', None)]
        if st == 'idle' and 'tx' not in (o.tag or ()):
            return [(S, 'idle', None)]
        ctrl = self.os_kind(o.ty) == CTRL
        if st == 'idle' and ctrl and self.chan_held(S):
            return [(S, 'idle', None)]      # registered, and we hold the lock
        out = []
        T = S.copy()
        if st == 'unknown' and self.chan_held(S):
            pass
        out.append((T, 'idle', None))
        if self.os_kind(o.ty) == REPLY and S.g.get(('loc', 'm1')) in ('cell', 'local') and n == 'o1':
            return out
        for X, it in self.env_item(S.copy(), n):
            out.append((X, 'sent', it))
        Y = S.copy()
        out.append((Y, 'closed', None))
        return out

    def os_poll(self, S, rx, cx, dty):
        """Poll<Result<T, Disconnected>>"""
        e = self.eng
        t = self.srv.ty(dty)
        rty = t['variants'][0]['fields'][0]['ty']
        out = []
        for T, st, it in self.os_observe(S, rx.name):
            if st == 'idle':
                w = self.waker_of(T, cx)
                o = T.H[rx.name]
                T.H[rx.name] = o.with_(val=Agg(None, (Opq('idle'), UNINIT, End('waker', w))))
                T.g['reg'] = w
                out.append((T, Enum(dty, 1, {1: ()})))
            elif st == 'sent':
                self.os_set(T, rx.name, 'taken')
                if isinstance(it, Enum) and not sym(it.d) and not it.pl.get(it.d):
                    T.g['announced'] = True
                out.append((T, Enum(dty, 0, {0: (Enum(rty, 0, {0: (it,)}),)})))
            else:
                self.os_set(T, rx.name, 'txdrop')
                if self.os_kind(T.H[rx.name].ty) == REPLY:
                    T.g[('osclosed', rx.name)] = True
                out.append((T, Enum(dty, 0, {0: (Enum(rty, 1, {1: (e.zst(self.srv.ty(rty)['variants'][1]['fields'][0]['ty']),)}),)})))
        return out

    def os_try_recv(self, S, rx, dty):
        """Result<Option<T>, Disconnected>"""
        e = self.eng
        oty = self.srv.ty(dty)['variants'][0]['fields'][0]['ty']
        ety = self.srv.ty(dty)['variants'][1]['fields'][0]['ty']
        out = []
        for T, st, it in self.os_observe(S, rx.name):
            if st == 'idle':
                if T.H[rx.name].val.vals[0].what == 'unknown':
                    self.os_set(T, rx.name, 'idle')
                out.append((T, ok(dty, opt(e, oty))))
            elif st == 'sent':
                self.os_set(T, rx.name, 'taken')
                if self.os_kind(T.H[rx.name].ty) == CTRL and self.msg_in(it):
                    T.g['got'] = T.g.get('got', 0) + 1
                out.append((T, ok(dty, opt(e, oty, it))))
            else:
                self.os_set(T, rx.name, 'txdrop')
                out.append((T, err(dty, e.zst(ety))))
        return out

    def msg_in(self, it):
        return isinstance(it, Enum) and bool(it.pl.get(it.d))

    def os_send(self, S, tx, val, t, dty):
        """Result<(), T>"""
        e = self.eng
        o = S.H.get(tx.name)
        ctrl = t == self.ctrl_type()
        if ctrl and self.msg_in(val):
            self.ob(S, self.chan_held(S), 'C10.handover', 'a message is handed to a waiting receiver without holding the channel lock')
        if ctrl and not self.msg_in(val) and 'hut' in self.srv.ty(t)['variants'][val.d]['name']:
            self.ob(S, S.g['tx0'], 'C15.told', 'a receiver is told to shut down although senders remain')
        if not ctrl:
            self.reply_sent(S, tx.name, val)
        if o is None:
            return [(S, err(dty, val))]
        out = []
        if 'rx' in (o.tag or ()):
            T = S.copy()
            mid = self.msg_id(S, val)
            if mid in ('m1', 'm2'):
                S.g[('loc', mid)] = 'shared'
            self.publish(S, val)
            self.os_set(S, tx.name, 'gone')
            out.append((S, ok(dty, U)))
            self.os_set(T, tx.name, 'gone')
            out.append((T, err(dty, val)))
            return out
        self.os_set(S, tx.name, 'sent', val)
        return [(S, ok(dty, U))]

    def reply_sent(self, S, n, val):
        m = S.g.get(('replyto', n))
        x = val.vals[0] if isinstance(val, Agg) and val.vals else None
        if m:
            S.g[('replied', m)] = True
            self.ob(S, isinstance(x, Opq) and x.what == 'res:' + m, 'C08.value', 'the reply to %s is not what its handler returned' % m)

    def os_drop(self, S, v, t):
        e = self.eng
        o = S.H.get(v.name)
        if o is None:
            return [S]
        st = o.val.vals[0].what
        if v.kind == 'tx':
            if st in ('idle', 'unknown') and 'rx' not in (o.tag or ()):
                self.os_set(S, v.name, 'txdrop')
            elif not self.fixed(v.name) or v.name == 'r1':
                if 'rx' in (o.tag or ()):
                    self.os_set(S, v.name, 'gone')
            return [S]
        out = []
        ctrl = self.os_kind(o.ty) == CTRL
        cases = [(S, None)]
        if st == 'sent':
            cases = [(S, o.val.vals[1])]
        elif ctrl and st in ('idle', 'unknown') and 'tx' in (o.tag or ()) and not (st == 'idle' and self.chan_held(S)):
            cases = [(S.copy(), None)] + [(X, it) for X, it in self.env_item(S.copy(), v.name) if self.msg_in(it)]
        for T, it in cases:
            T.H.pop(v.name, None)
            T.g.pop(('inlist', v.name), None)
            if it is None:
                out.append(T)
            else:
                T.g['in_os_drop'] = True
                for X in e.drop_value(T, o.ty, it):
                    X.g.pop('in_os_drop', None)
                    out.append(X)
        return out

    def waker_of(self, S, cx):
        v = cx
        while isinstance(v, P):
            v = self.eng.load(S, v)
        return v.name

    # ------------------------------------------------------------ event listener
    def new_event(self, S):
        return 'ev'

    def ev_listen(self, S, ev):
        S.g['lst_reg'] = True
        S.g['lst_seen_rx'] = False
        S.g['lst_seen_tx'] = False
        return [(S, End('listener', 'lst'))]

    def ev_notify(self, S, ev, n, how):
        S.g['notified'] = True
        self.ob(S, eq(n, 2 ** 64 - 1), 'C20.notify_all', 'not every join handle is notified')
        ret = U
        return [(S, ret)]

    def ev_poll(self, S, l, cx, dty):
        T = S.copy()
        S.g['reg'] = self.waker_of(S, cx)
        # the wake-up only comes if the listener existed before the last mailbox went away
        self.ob(S, S.g.get('lst_seen_rx', False), 'C20.registered', 'the join handle waits although the disconnect may have been announced before it listened')
        self.ob(S, S.g.get('lst_seen_tx', False), 'C20.connected', 'the join handle waits although the address may have been disconnected before')
        T.g['rx0'] = True
        return [(S, Enum(dty, 1, {1: ()})), (T, Enum(dty, 0, {0: (U,)}))]

    # ------------------------------------------------------------ harness events
    def contract(self, S, c, args, dty):
        d = c['def']
        if d.startswith('vharness::') and not c['has_body']:
            f = getattr(self, 'x_' + d.rsplit('::', 1)[-1], None)
            if f is None:
                raise Unsupported('harness function ' + d)
            return f(S, args, dty)
        if c.get('src', d).endswith('Future::poll') and c.get('srcargs'):
            n = self.srv.ty(c['srcargs'][0]['t']).get('name') or ''
            if n.startswith('xtra::') and n.endswith('::ReceiveFuture') and self.opts.get('absrecv'):
                return self.recv_contract(S, args, dty)
        return None

    def recv_contract(self, S, args, dty):
        """the contract of polling a ReceiveFuture (proved by the runs of life::recv): Pending with the waker registered, or
        a message with the mailbox it came to"""
        e = self.eng
        p = args[0]
        while isinstance(p, Agg) and len(p.vals) == 1:
            p = p.vals[0]
        v = e.load(S, p)
        q, ty = p, None
        while isinstance(v, Agg):
            live = [i for i, x in enumerate(v.vals) if not (isinstance(x, Agg) and not x.vals)]
            if len(live) != 1:
                raise Unsupported('shape of a receive future')
            q = P(q.root, q.proj + (live[0],), q.meta)
            v = v.vals[live[0]]
        if not isinstance(v, Enum) or sym(v.d):
            raise Unsupported('shape of a receive future')
        vs = self.srv.ty(v.ty)['variants']
        done = [i for i, x in enumerate(vs) if not x['fields']]
        if v.d in done:
            self.on_panic(S, 'a receive future is polled after it completed')
            return []
        have = {f['ty']: x for f, x in zip(vs[v.d]['fields'], v.pl[v.d])}
        if len(done) != 1 or len(have) != len(vs[v.d]['fields']):
            raise Unsupported('shape of a receive future')
        out = []
        T = S.copy()
        T.g['reg'] = self.waker_of(T, args[1])
        out.append((T, Enum(dty, 1, {1: ()})))
        mty = self.srv.ty(dty)['variants'][0]['fields'][0]['ty']
        fs = self.srv.ty(mty)['variants'][0]['fields']
        rest = [f for f in fs if f['ty'] not in have]
        if len(rest) != 1:
            raise Unsupported('shape of a message')
        for X, am in self.fresh_message(S, rest[0]['ty']):
            e.store(X, q, Enum(v.ty, done[0], {done[0]: ()}))
            X.g['stopped_self'] = False
            X.g['hc'] = 0
            out.append((X, Enum(dty, 0, {0: (Agg(mty, [have.get(f['ty'], am) for f in fs]),)})))
        return out

    def fresh_message(self, S, ty):
        e = self.eng
        out = []
        for i, v in enumerate(self.srv.ty(ty)['variants']):
            if not v['fields']:
                T = S.copy()
                T.g['msg'] = 'stop'
                out.append((T, Enum(ty, i, {i: ()})))
                continue
            uni = self.T.has(v['fields'][0]['ty'], lambda j: j['k'] == 'Dyn' and 'BroadcastEnvelope' not in j['s'] and 'MessageEnvelope' in j['s'])
            for X, m in e.fresh(S.copy(), v['fields'][0]['ty'], {'other': True}):
                X.g['msg'] = 'uni' if uni else 'all'
                out.append((X, Enum(ty, i, {i: (m,)})))
            for nm in ('m1', 'm2') if uni else ('b1', 'b2'):
                if nm in self.focus and S.g.get(('loc', nm)) == 'shared':
                    for X, m in e.fresh(S.copy(), v['fields'][0]['ty'], {'id': nm}):
                        X.g[('loc', nm)] = 'taken'
                        X.g['msg'] = nm
                        out.append((X, Enum(ty, i, {i: (m,)})))
        return out

    def x_nondet(self, S, a, dty):
        T = S.copy()
        return [(S, True), (T, False)]

    def x_change_waker(self, S, a, dty):
        n = self.eng.fresh_name('k')
        self.eng.store(S, a[0], End('waker', n))
        S.g['polling'] = True
        S.g['reg'] = None
        S.g['dip'] = False
        S.g.pop('announced', None)
        return [(S, U)]

    def x_ev_pending(self, S, a, dty):
        S.g['polling'] = False
        self.check_wakes(S)
        w = self.waker_of(S, a[0])
        self.ob(S, S.g.get('reg') == w or S.g.get('user_pending', False) is True, {'recv': 'C07'}.get(self.kind, 'C06') + '.waker',
                'Pending is returned without the current waker being registered')
        self.ob(S, not S.g.get('dip'), 'C01.dropped', 'the message is dropped but the send stays pending')
        return [(S, U)]

    def x_ev_ready(self, S, a, dty):
        S.g['polling'] = False
        self.on_ready(S, a[0], a[1])
        return [(S, U)]

    def on_ready(self, S, what, p):
        v = self.eng.load(S, p)
        getattr(self, 'ready_%s' % what, lambda *x: None)(S, v)

    def err_name(self, v):
        return self.srv.ty(v.ty)['variants'][v.d]['name']

    def disconnected_known(self, S):
        return or_(S.g['rx0'], S.g['tx0'])

    def ready_1(self, S, r):
        """send future resolved: Result<Ret, Error>"""
        if r.d == 0:
            x = r.pl[0][0].vals[0]
            self.ob(S, isinstance(x, Opq) and x.what == 'reply', 'C08.result', 'the result is not the reply to this message')
            self.ob(S, not S.g.get('dip'), 'C01.dropped', 'the send succeeds although the message was dropped')
            return
        en = self.err_name(r.pl[1][0])
        if en == 'Disconnected':
            self.ob(S, self.disconnected_known(S), 'C11.disconnected', 'Disconnected is reported although both sides may be alive')
            self.ob(S, S.g.get(('loc', 'm1')) in ('gone', 'local', None), 'C11.undelivered', 'Disconnected is reported although the message may be handled')
        else:
            self.ob(S, S.g.get(('osclosed', 'o1'), False), 'C08.interrupted', 'Interrupted is reported although the message may still be handled')
            self.ob(S, not S.g.get('dip') and not S.g.get('ws_closed'), 'C11.interrupted', 'a message that was never accepted is reported as Interrupted')

    def ready_2(self, S, r):
        if r.d == 0:
            self.ob(S, not S.g.get('dip'), 'C01.dropped', 'the detached send succeeds although the message was dropped')
            self.ob(S, S.g.get(('loc', 'm1')) in ('shared',), 'C01.detached', 'the detached send succeeds before the message is in the mailbox (%s)' % (S.g.get(('loc', 'm1')),))
        else:
            self.ob(S, self.disconnected_known(S), 'C11.disconnected', 'Disconnected is reported although both sides may be alive')
            self.ob(S, S.g.get(('loc', 'm1')) in ('gone', 'local', None), 'C11.undelivered', 'an error is reported although the message may be handled')
            self.ob(S, self.err_name(r.pl[1][0]) == 'Disconnected', 'C11.interrupted', 'a message that was never accepted is reported as Interrupted')

    ready_3 = ready_1

    def ready_4(self, S, r):
        if r.d == 0:
            self.ob(S, S.g.get(('loc', 'b1')) in ('shared', 'sent'), 'C02.accepted', 'the broadcast succeeds before it is in the mailboxes')
        else:
            self.ob(S, self.disconnected_known(S), 'C11.disconnected', 'Disconnected is reported although both sides may be alive')
            self.ob(S, self.err_name(r.pl[1][0]) == 'Disconnected', 'C11.interrupted', 'a broadcast that was never accepted is reported as Interrupted')

    def ready_5(self, S, r):
        self.ob(S, self.disconnected_known(S), 'C20.join', 'the join handle resolves although the actor may be connected')

    def ready_6(self, S, v):
        """a receive resolved to a message or to the request to stop"""
        for x in self.find_enums(v):
            vs = self.srv.ty(x.ty)['variants']
            if not (any(f for f in vs if f['fields'] and self.T.has(f['fields'][0]['ty'], lambda j: j['k'] == 'Dyn' and 'MessageEnvelope' in j['s']))
                    and any(not f['fields'] for f in vs)):
                continue
            stop = or_(*[eq(self.eng.discr(x), int(f['discr'])) for f in vs if not f['fields']])
            self.ob(S, imp(stop, or_(S.g.get('told_shutdown', False), S.g.get('drained', False))), 'C15.drains',
                    'a receive returns the request to stop although a message may be available or a strong address may exist')
            return
        raise Unsupported('shape of a message')

    def find_enums(self, v):
        if isinstance(v, Agg):
            for x in v.vals:
                yield from self.find_enums(x)
        elif isinstance(v, Enum):
            yield v
            if not sym(v.d):
                for x in v.pl.get(v.d, ()):
                    yield from self.find_enums(x)

    def x_ev_discard(self, S, a, dty):
        S.g['discard'] = a[0]
        return [(S, U)]

    def x_ev_ctx(self, S, a, dty):
        # the mailbox of the context is the one the message came to
        v, names, chans = self.eng.load(S, a[0]), [], []
        def f(v, depth=6):
            if isinstance(v, Agg):
                for x in v.vals:
                    f(x, depth)
            elif isinstance(v, Enum) and not sym(v.d):
                for x in v.pl.get(v.d, ()):
                    f(x, depth)
            elif isinstance(v, P) and depth and v.root[0] in 'HL':
                f(self.eng.load(S, v), depth - 1)
            elif isinstance(v, Arc) and v.name in S.H and not v.weak:
                t = self.srv.ty(S.H[v.name].ty)
                if t.get('name') in ('spin::mutex::Mutex', 'std::sync::Mutex') and self.T.lock_role(t['args'][0]['t']) == 'bq':
                    names.append(v.name)
                elif S.H[v.name].tag in ('chan', 'otherchan'):
                    chans.append(v.name)
        f(v)
        if len(names) != 1:
            raise Unsupported('the broadcast queue of a context')
        self.ob(S, names[0] == 'q1' and all(c == 'chan' for c in chans), 'C02.context', 'the context of a handler does not hold the mailbox its message came to')
        return [(S, U)]

    def x_ev_stop_self(self, S, a, dty):
        S.g['stopped_self'] = True
        return [(S, U)]

    def x_user_pending(self, S, a, dty):
        S.g['reg'] = self.waker_of(S, a[0])
        return [(S, U)]

    def x_ev_life(self, S, a, dty):
        k = a[0]
        lc = S.g.get('lc', 0)
        if k in (3, 4):
            i = a[1].what if isinstance(a[1], Opq) else None
            S.g['hc'] = min(2, S.g.get('hc', 0) + 1)
            S.g['hid'] = i
            m = S.g.get('msg')
            if m is not None:
                self.ob(S, S.g['hc'] == 1, 'C18.once', 'the handler is called twice for one message')
                want = {'uni': 3, 'all': 4, 'm1': 3, 'm2': 3, 'b1': 4, 'b2': 4}.get(m)
                self.ob(S, k == want, 'C18.which', 'a handler is called for %s' % m)
                if m in FIXED:
                    self.ob(S, i == m, 'C18.same', 'the handler gets another message than the one dispatched')
            if self.kind == 'run':
                self.ob(S, lc == 5, 'C17.order', 'a message is handled before started succeeded or after the end')
                self.ob(S, not S.g.get('inh'), 'C17.sequential', 'two messages are handled at the same time')
                self.ob(S, S.g.get('flow') != 'break', 'C17.stop', 'a message is handled although the actor was to stop')
            elif self.kind in ('select',):
                self.ob(S, not S.g.get('inh'), 'C19.sequential', 'two messages are handled at the same time')
                self.ob(S, S.g.get('flow') != 'break', 'C19.stop', 'a message is handled although the actor was to stop')
            S.g['inh'] = True
        elif self.kind == 'run':
            if k == 1:
                self.ob(S, lc == 0, 'C17.started', 'started is called twice or late')
            elif k in (5, 6):
                self.ob(S, lc == 1, 'C17.started', 'the future of started is polled out of order')
            elif k == 2:
                self.ob(S, lc == 5 and not S.g.get('inh'), 'C17.stopped', 'stopped is called in state %s' % lc)
                self.ob(S, S.g.get('flow') != 'cont', 'C17.reason', 'stopped is called although the last message let the actor continue')
            S.g['lc'] = k
        return [(S, U)]

    def handled(self, S):
        S.g['inh'] = False

    def polled(self, c, out):
        n = self.srv.ty(c['srcargs'][0]['t']).get('name') or ''
        if not (n.startswith('xtra::') and n.endswith('::DispatchFuture')):
            return out
        res = []
        for S, v in out:
            if not isinstance(v, Enum) or sym(v.d):
                raise Unsupported('joined result of a dispatch')
            if v.d == 0:
                f = v.pl[0][0]
                if sym(f.d):
                    for T, b in self.eng.split(S, eq(f.d, 1)):
                        w = Enum(f.ty, 1 if b else 0, f.pl)
                        self.on_dispatched(T, w)
                        res.append((T, Enum(v.ty, 0, {0: (w,)})))
                    continue
                self.on_dispatched(S, f)
            res.append((S, v))
        return res

    def on_dispatched(self, S, v):
        """a dispatch completed with this ControlFlow"""
        m, hc = S.g.get('msg'), S.g.get('hc', 0)
        if m is None or sym(v.d):
            return
        br = v.d == 1
        S.g['flow'] = 'break' if br else 'cont'
        if m == 'stop':
            self.ob(S, hc == 0 and br, 'C18.stop', 'a stop request does not stop the actor')
        else:
            if m != 'all' or hc:
                self.ob(S, hc == 1, 'C18.handled', 'a message is dispatched without calling its handler')
                self.ob(S, br == bool(S.g.get('stopped_self')), 'C18.flow', 'the dispatch ends with %s, stop_self called: %s' % (('Continue', 'Break')[br], bool(S.g.get('stopped_self'))))
                self.ob(S, br == bool(S.g.get('stopped_self')), 'C16.stop_self', 'stop_self and the outcome of the dispatch disagree')
            else:
                self.ob(S, br, 'C16.stop_all', 'the notice of stop_all does not stop the actor')
            if m in ('m1', 'm2') and 'o1' in self.focus:
                self.ob(S, S.g.get(('replied', m), False), 'C08.replied', 'a handled message is not answered')
        S.g['msg'] = None
        S.g['hc'] = 0
        S.g['stopped_self'] = False
        S.g['hid'] = None

    def ready_8(self, S, v):
        self.ob(S, S.g.get('flow') == ('cont', 'break')[v.d], 'C18.result', 'the result of the dispatch is lost')

    def ready_9(self, S, v):
        w = v.vals[0].what if isinstance(v.vals[0], Opq) else None
        self.ob(S, w in ('stop2', 'stop6') and w == 'stop%s' % S.g.get('lc'), 'C17.result', 'run returns %s in state %s' % (w, S.g.get('lc')))

    def ready_10(self, S, v):
        self.ob(S, S.g.get('flow') == ('cont', 'break')[v.d], 'C17.yield', 'yield_once does not return the outcome of the dispatch')

    def ready_11(self, S, v):
        if v.d == 0:
            w = v.pl[0][0].vals[0].what
            self.ob(S, w == 'uout' and S.g.get('uout'), 'C19.result', 'select returns a value which is not that of the future')
        else:
            self.ob(S, S.g.get('flow') == 'break', 'C19.end', 'select gives the future back although the actor was not stopped')
            self.ob(S, not S.g.get('uout'), 'C19.lost_result', 'select gives a future back which has completed')
        self.ob(S, S.g.get('msg') is None, 'C19.dispatched', 'select returns with a message that was not dispatched')

    def ready_12(self, S, v):
        w = v.vals[0].what
        self.ob(S, w == 'uout' and S.g.get('uout'), 'C19.result', 'join returns a value which is not that of the future')
        self.ob(S, S.g.get('msg') is None, 'C19.dispatched', 'join returns with a message that was not dispatched')

    def ready_13(self, S, v):
        if v.d == 0:
            self.ob(S, self.disconnected_known(S), 'C20.scoped', 'a scoped task is given up although the actor may be connected')
        else:
            w = v.pl[1][0].vals[0].what
            self.ob(S, w == 'uout' and S.g.get('uout'), 'C20.scoped_result', 'a scoped task returns a value which is not that of the future')

    def drop_allowed(self, S):
        return S.g['discard'] is True or S.g['must_rx'] or S.g['rx_shut'] is True or S.g.get('saw0_rx', False) is True

    def user_drop(self, S):
        self.ob(S, not S.g['held'], 'C24.user_drop', "a message's destructor runs while the %s lock is held" % (S.g['held'][-1][0] if S.g['held'] else ''))

    def x_msg_dropped(self, S, a, dty):
        self.user_drop(S)
        m = a[0].what if isinstance(a[0], Opq) else None
        if m in ('m1', 'm2') and m in self.focus:
            if S.g['polling'] and self.kind == 'send':
                S.g['dip'] = True
            elif self.kind in ('recv',) and not self.drop_allowed(S):
                self.ob(S, False, 'C10.lost' if not S.g['polling'] else 'C01.lost', 'a message taken from the mailbox is dropped without being handed out')
            elif self.kind == 'dispatch' and S.g['polling'] and not self.drop_allowed(S):
                self.ob(S, False, 'C18.lost', 'a message is dropped instead of being handled')
            S.g[('loc', m)] = 'gone'
        return [(S, U)]

    def x_bmsg_dropped(self, S, a, dty):
        self.user_drop(S)
        return [(S, U)]

    def x_handler_result(self, S, a, dty):
        self.handled(S)
        m = self.msg_id(S, a[0])
        if m:
            S.g[('handled', m)] = S.g.get(('handled', m), 0) + 1
            S.g[('loc', m)] = 'handled'
        return [(S, Agg(dty, [Opq('res:' + m if m else 'other')]))]

    def x_handler_bcast(self, S, a, dty):
        self.handled(S)
        m = self.msg_id(S, a[0])
        if m:
            S.g[('handled', m)] = S.g.get(('handled', m), 0) + 1
        return [(S, U)]

    def x_make_stop(self, S, a, dty):
        return [(S, Agg(dty, [Opq('stop%s' % S.g.get('lc', ''))]))]

    def x_user_out(self, S, a, dty):
        self.ob(S, not S.g.get('uout'), 'C25.repoll', "the user's future is polled after it completed")
        S.g['uout'] = True
        return [(S, Agg(dty, [Opq('uout')]))]

    # ------------------------------------------------------------ other hooks
    def on_box_drop(self, S, ty, q):
        pass

    # ghost facts that only make obligations easier, or that say that the run has begun
    BEGUN = ('rx_shut', 'tx_shut', 'rx0', 'tx0', 'parted')

    def last(self, S, w, x):
        if self.kind == 'laws' or self.eng.entry == 'ctx::stop_all':
            S.g['last_' + w] = x

    def begun(self, S):
        return S.g.get('parted', False)

    def loose(self, S):
        T = S.copy()
        for k in self.BEGUN:
            T.g.pop(k, None)
        return T

    def at_loop_head(self, S):
        pass

    def stop_only(self):
        return self.eng.entry == 'ctx::stop_self' or self.kind in ('dispatch', 'run', 'select')

    def queues_of(self, S, v, depth=3):
        """names of the broadcast queues a value holds"""
        if isinstance(v, Agg):
            return [n for x in v.vals for n in self.queues_of(S, x, depth)]
        if isinstance(v, P) and depth and v.root[0] in 'HL':
            return self.queues_of(S, self.eng.load(S, v), depth - 1)
        if isinstance(v, Arc) and v.name in S.H and not v.weak and S.H[v.name].tag == 'bq':
            return [v.name]
        return []

    def finish(self, S, r=None):
        """end of the entry"""
        g = S.g
        if self.stop_only():
            self.ob(S, True, 'C16.only_self')
        if self.opts.get('newq'):
            # the entry makes a mailbox: it must have a queue of its own, which is registered
            self.ob(S, self.queues_of(S, r) == ['q1'], 'C02.own_queue', 'the new mailbox has no broadcast queue of its own')
            self.ob(S, g.get('newlisted', False), 'C02.registered', 'the broadcast queue of the new mailbox is not registered with the channel')
        self.check_wakes(S)
        self.no_panic(S)
        self.ob(S, g['dtx'] == g['otx'], 'C13.tx_exact', 'the sender count and the number of strong addresses drift apart (%d vs %d)' % (g['dtx'], g['otx']))
        self.ob(S, g['drx'] == g['orx'], 'C13.rx_exact', 'the receiver count and the number of mailboxes drift apart (%d vs %d)' % (g['drx'], g['orx']))
        self.ob(S, not g['must_rx'], 'C12.shutdown', 'the last mailbox goes away without the channel being shut down')
        self.ob(S, not g['must_tx'], 'C15.shutdown', 'the last strong address goes away without the waiting receivers being told')
        self.ob(S, not g['held'], 'C24.released', 'a lock is still held at the end')
        if self.eng.entry == 'ctx::stop_all' and g.get(('mine', 'q1')) is True:
            self.ob(S, or_(g.get('notice', False), eq(g['last_tx'], 0) if 'last_tx' in g else False), 'C16.notice', 'the notice of stop_all does not reach a mailbox although there may be a strong address')
        if g.get('saw0_rx'):
            self.ob(S, g['notified'], 'C20.notified', 'the last mailbox goes away without notifying the join handles')


def Obj_(val, ty, **k):
    import sym
    return sym.Obj(val, ty, **k)


def has_strong(v, nm):
    if isinstance(v, Arc):
        return v.name == nm and not v.weak
    if isinstance(v, Agg):
        return any(has_strong(x, nm) for x in v.vals)
    return False


def eq_opt(a, b):
    if isinstance(a, Enum) and isinstance(b, Enum):
        if a.d != b.d:
            return False
        if a.d == 0 or not a.pl.get(a.d):
            return True
        return eq(a.pl[a.d][0], b.pl[b.d][0])
    return False
