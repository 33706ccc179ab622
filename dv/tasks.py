"""Which proof tasks decide which property.  A task is (entry, focus, pre, kind, opts)."""

KINDS = ('strong', 'weak', 'either')


def T(root, focus=(), pre=(), kind='', cost=1, **opts):
    return dict(root=root, focus=tuple(focus), pre=tuple(pre), kind=kind, opts=opts, cost=cost)


def parts(root, focus, pre, kind, cost, third=True, **opts):
    out = []
    for a in (0, 1):
        for b in (0, 1):
            for c in (0, 1):
                out.append(T(root, focus, pre, kind, cost=cost, part=(a, b, c), **opts))
    return out


def sends(ops=('send', 'send_prio', 'send_detach', 'mc_send', 'mc_send_prio', 'mc_send_detach'), kinds=KINDS):
    return [T('life::%s::%s' % (k, o), ('m1', 'w1', 'o1'), (), 'send') for k in kinds for o in ops]


def each(fmt, kinds=KINDS, *a, **k):
    return [T(fmt % x, *a, **k) for x in kinds]


SEND = sends()
SEND1 = sends(('send', 'send_detach'))
RECV_M = parts('life::recv', ('m1', 'w1', 'q1'), ('m1', 'w1'), 'recv', 10)
RECV_MM = parts('life::recv', ('m1', 'm2', 'q1'), ('m1', 'm2'), 'recv', 45)
RECV_BB = parts('life::recv', ('q1', 'b1', 'b2'), ('b1', 'b2'), 'recv', 20)
RECV_WW = parts('life::recv', ('m1', 'm2', 'w1', 'w2', 'q1'), ('m1', 'm2', 'w1', 'w2'), 'recv', 12, staying=True, wait='front')
# a message of the common queue against a broadcast
RECV_MB = parts('life::recv', ('m1', 'b1', 'q1'), ('m1', 'b1'), 'recv', 20)
# broadcasts that wait for room
RECV_AA = parts('life::recv', ('q1', 'b1', 'b2', 'a1', 'a2'), ('b1', 'b2', 'a1', 'a2'), 'recv', 30, staying=True, wait='front')
# the notice of stop_all against user messages
RECV_S = parts('life::recv', ('q1', 's1', 'b1'), ('s1', 'b1'), 'recv', 20) + parts('life::recv', ('q1', 's1', 'm1'), ('s1', 'm1'), 'recv', 20)
RECV_R = parts('life::recv', ('m1', 'q1', 'r1'), ('m1',), 'recv', 10)
DROP_W = [T('%s::drop' % x, f + ('q1',), f) for x in ('mb', 'ctx') for f in (('m1', 'w1'), ('b1', 'a1'))]
# a sender that begins to wait while another one waits
WAIT = [T('life::%s::%s' % (k, o), ('m1', 'm2', 'w1', 'w2', 'o1'), ('m2', 'w2'), 'send', cost=5, wait='front') for k, o in (('strong', 'send'), ('weak', 'send_prio'), ('strong', 'send_detach'))] + \
    [T('life::%s::%s' % (k, o), ('b1', 'b2', 'a1', 'a2', 'q1'), ('b2', 'a2', 'q1'), 'send', cost=5, wait='front') for k, o in (('strong', 'bcast'), ('weak', 'bcast_prio'))]
DROPS = each('%s::drop', KINDS) + [T('strong::drop', ('m1',), ('m1',)), T('mb::drop', ('m1', 'q1')), T('ctx::drop', ('m1', 'q1'))]
CLONES = each('%s::clone') + [T('mb::clone'), T('mb::address')]
CONV = [T('conv::' + x) for x in ('downgrade_s', 'downgrade_e', 'try_upgrade', 'either_s', 'either_w', 'either_e')]
INFO = [T('%s::%s' % (k, o)) for k in KINDS for o in ('is_connected', 'len', 'is_empty', 'capacity', 'join')]
MAKE = [T('mb::bounded'), T('mb::unbounded')]
NEWQ = [T(x, ('q1',), newq=True) for x in ('mb::clone', 'mb::bounded', 'mb::unbounded')]
# a mailbox q1 exists while another one is made or dropped
MBQ = [T('mb::clone', ('q1',), ('q1',)), T('mb::drop', ('q1',), ('q1',))]
JOIN = each('life::%s::join')
SCOPED = [T('life::scoped'), T('life::scoped_weak')]
STOP = [T('ctx::stop_self'), T('ctx::stop_all')]
CMP = [T('%s::%s' % (k, o)) for k in KINDS for o in ('same_actor', 'eq', 'cmp', 'partial_cmp', 'eq_w', 'eq_s', 'eq_e', 'pcmp_w', 'pcmp_s', 'pcmp_e')]

BCAST = [T('life::%s::%s' % (k, o), ('b1', 'a1', 'q1'), ('q1',), 'send') for k in KINDS for o in ('bcast', 'bcast_prio')]
BCAST_R = [T('life::strong::bcast', ('b1', 'a1', 'q1', 'r1'), ('q1', 'r1'), 'send'), T('life::weak::bcast_prio', ('b1', 'a1', 'q1', 'r1'), ('q1', 'r1'), 'send')]
SEND_R = [T('life::%s::send' % k, ('m1', 'w1', 'o1', 'r1'), ('r1',), 'send') for k in KINDS] + [T('life::strong::send_prio', ('m1', 'w1', 'o1', 'r1'), ('r1',), 'send')]
RECV_BA = [t for t in parts('life::recv', ('q1', 'b1', 'a1'), ('b1', 'a1'), 'recv', 60)]
RECV_BA1 = [t for t in RECV_BA if t['opts']['part'][2] == 1]
RECV_BA0 = [t for t in parts('life::recv', ('q1', 'b1', 'a1'), ('b1', 'a1'), 'recv', 30, staying=True) if t['opts']['part'][2] == 0]
RECV_BA0F = [t for t in RECV_BA if t['opts']['part'][2] == 0]
RECV_BAQ = RECV_BA0 + RECV_BA1
# another mailbox than the receiving one; the count of broadcasts after a broadcast was taken
RECV_O = parts('life::recv', ('q1',), ('q1',), 'recv', 3)
RECV_T = parts('life::recv', ('q1',), (), 'recv', 3, tight=True)
STOP_R = [T('ctx::stop_all', ('q1', 'r1'), ('r1',))]
DROP_R = [T('strong::drop', ('r1', 'q1'), ('r1', 'q1')), T('either::drop', ('r1', 'q1'), ('r1', 'q1'))]
DISPATCH = [T('life::dispatch', ('m1', 'q1', 'o1'), ('m1',), 'dispatch', absrecv=1), T('life::dispatch', ('b1', 'q1'), ('b1',), 'dispatch', absrecv=1)]
YIELD = [T('life::yield_once', ('m1', 'q1', 'o1'), ('m1',), 'dispatch', cost=2, absrecv=1), T('life::yield_once', ('b1', 'q1'), ('b1',), 'dispatch', cost=2, absrecv=1)]
RUN = [T('life::run', ('m1', 'q1', 'o1'), ('m1',), 'run', cost=11, absrecv=1), T('life::run', ('b1', 'q1'), ('b1',), 'run', cost=11, absrecv=1)]
SELECT = [T('life::%s' % x, (f, 'q1'), (f,), 'select', cost=11, absrecv=1) for x in ('select', 'join') for f in ('m1', 'b1')]

LAWS_CMP = [T('laws::%s::%s' % (m, f), kind='laws', chans=2) for m in ('ss', 'sw', 'se', 'ww', 'we', 'ee') for f in ('eq_ord', 'hash')] + \
    [T('laws::%s::%s' % (k, f), kind='laws', chans=n) for k in KINDS for f, n in (('cmp', 2), ('trans', 3))]
LAWS_LEN = [T('laws::%s::%s' % (k, f), ('q1',), ('q1',), kind='laws') for k in KINDS for f in ('len', 'is_empty', 'capacity')]
LAWS_CONN = [T('laws::%s::conn' % k, kind='laws') for k in KINDS]
LAWS_KIND = [T('laws::%s::%s' % (k, f), kind='laws') for k in KINDS for f in ('clone', 'as_either')] + \
    [T('laws::' + f, kind='laws') for f in ('downgrade_s', 'downgrade_e', 'upgrade', 'mailbox_address')]
LAWS_MC = [T('laws::%s::mc_same' % m, kind='laws', chans=2) for m in ('ss', 'sw', 'se', 'ww', 'we', 'ee')] + \
    [T('laws::%s::%s' % (k, f), kind='laws', chans=2) for k in KINDS for f in ('mc_eq', 'mc_hash')] + \
    [T('laws::%s::%s' % (k, f), ('q1',), ('q1',), kind='laws') for k in KINDS for f in ('mc_len', 'mc_is_empty', 'mc_capacity')] + \
    [T('laws::%s::%s' % (k, f), kind='laws') for k in KINDS for f in ('mc_clone', 'mc_either', 'mc_conn', 'mc_drop', 'mc_join')] + \
    [T('laws::' + f, kind='laws') for f in ('mc_downgrade_s', 'mc_downgrade_e')]

FIFO = [T('life::%s::%s' % (k, o), ('m1', 'm2', 'w1', 'o1', 'b1', 'q1'), ('m2', 'b1', 'q1'), 'send', fifo='le') for k in KINDS for o in ('send', 'send_prio', 'send_detach')] + \
    [T('life::%s::%s' % (k, o), ('b1', 'b2', 'a1', 'q1', 'm2'), ('q1', 'b2', 'm2'), 'send', fifo='le') for k in KINDS for o in ('bcast', 'bcast_prio')] + \
    parts('life::recv', ('m1', 'm2', 'q1'), ('m1', 'm2'), 'recv', 25, fifo='le') + parts('life::recv', ('m1', 'm2', 'w1', 'q1'), ('m1', 'm2', 'w1'), 'recv', 60, fifo='le') + \
    parts('life::recv', ('q1', 'b1', 'b2'), ('b1', 'b2'), 'recv', 20, fifo='le') + \
    [T('ctx::stop_all', ('q1', 'b1', 'b2', 'm1'), ('q1', 'b1', 'm1'), fifo='le'), T('strong::drop', ('m1', 'm2', 'b1', 'q1'), ('m1', 'm2', 'b1', 'q1'), fifo='le'), T('mb::drop', ('m1', 'm2', 'q1'), ('m1', 'm2'), fifo='le')]
# a check whose invariant is one of several templates: it passes if one of them is inductive
ALT = {'C04': [dict(fifo='lt'), dict(wait='back'), dict(fifo='lt', wait='back')]}

QUICK = {
    'C01': SEND + MBQ + RECV_M + RECV_R + DROPS + STOP_R,
    'C02': DISPATCH + BCAST + RECV_BB + RECV_O + RECV_BAQ + CLONES + NEWQ + MBQ + STOP_R,
    'C03': SEND + BCAST + RECV_MM + RECV_BB + RECV_MB + RECV_WW + RECV_AA,
    'C04': FIFO + RECV_WW + RECV_AA + WAIT,
    'C05': SEND1 + BCAST + MBQ + RECV_M + RECV_R + RECV_O + RECV_BAQ + STOP_R,
    'C06': SEND + BCAST + DROP_W + RECV_M + RECV_T + RECV_BAQ,
    'C07': SEND_R + BCAST_R + RECV_R + STOP_R + DROP_R,
    'C08': SEND + DISPATCH,
    'C09': SEND + RECV_M,
    'C10': RECV_R + RECV_M,
    'C11': LAWS_CONN + SEND + BCAST + INFO + DROPS,
    'C12': SEND + BCAST + DROPS + DROP_W + RECV_M + RECV_R,
    'C13': SEND1 + RECV_M + RECV_R + DROPS + CLONES + CONV + INFO + JOIN + SCOPED + MAKE,
    'C14': LAWS_KIND + CONV + CLONES,
    'C15': DROP_R + DROPS + SEND_R + RECV_R,
    'C16': RECV_S + DISPATCH + STOP_R + STOP + YIELD,
    'C17': RUN + YIELD,
    'C18': DISPATCH + YIELD + RUN,
    'C19': SELECT,
    'C20': JOIN + SCOPED + DROPS + INFO,
    'C21': LAWS_CMP,
    'C22': LAWS_LEN + INFO + MBQ + SEND1 + BCAST + RECV_BAQ + RECV_M + RECV_R + RECV_O,
    'C23': LAWS_MC + LAWS_LEN + LAWS_CONN + SEND + JOIN + each('%s::drop'),
    'C24': SEND + MBQ + BCAST + BCAST_R + RECV_M + RECV_R + RECV_BAQ + DROPS + DROP_R + STOP_R + DISPATCH + JOIN + INFO + CLONES + CONV,
    'C25': RECV_R + MBQ + RECV_BAQ + SEND + BCAST + RECV_M + DROPS + STOP_R + DISPATCH + SELECT + RUN + JOIN + SCOPED + INFO + CLONES + CONV + MAKE,
}
THOROUGH = {}
# other clauses that decide a property besides those named after it
EXTRA = {'C01': ('C10.lost',), 'C05': ('C22.I4',), 'C09': ('C24.ws_drop',), 'C14': ('C13.tx_exact', 'C13.resurrect')}


def tasks(prop, tier):
    if prop == 'ALL':      # for development: every task once
        seen, out = set(), []
        for p in sorted(QUICK):
            for t in QUICK[p]:
                k = repr((t['root'], t['focus'], t['pre'], t['kind'], sorted(t['opts'].items())))
                if k not in seen:
                    seen.add(k)
                    out.append(t)
        return out
    q = QUICK.get(prop, [])
    return q + THOROUGH.get(prop, []) if tier == 'thorough' else q
LEVEL = {}


# C23 is relative: what holds of the address must hold of the message channel.  Entry of the channel -> entry of the address
def twin(root):
    if root.startswith('laws::') and '::mc_' in root:
        r = root.replace('mc_join', 'X').replace('mc_drop', 'Y')
        if r.endswith('X'):
            return 'life::%s::join' % root.split('::')[1]
        if r.endswith('Y'):
            return '%s::drop' % root.split('::')[1]
        return root.replace('mc_', '')
    return root.replace('mc_', '')


# laws of message channels -> the laws of addresses they are relative to
TWIN_CLAUSE = {'C23.k2306': ('C22.k2201', 'C22.k2202', 'C22.k2203', 'C22.k2204'), 'C23.k2307': ('C22.k2205',)}
