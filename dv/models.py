"""Assumed contracts of library functions (std, catty, event_listener, spin)."""
import terms as z3
from vals import *

MODELS, DROPS, FRESH = {}, {}, {}


def model(*names):
    def f(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return f


def dropm(*names):
    def f(fn):
        for n in names:
            DROPS[n] = fn
        return fn
    return f


def freshm(*names):
    def f(fn):
        for n in names:
            FRESH[n] = fn
        return fn
    return f


U = Agg(None, ())


def opt(e, ty, v=None):
    """Option value of type ty"""
    return Enum(ty, 0, {0: ()}) if v is None else Enum(ty, 1, {1: (v,)})


def ok(ty, v):
    return Enum(ty, 0, {0: (v,)})


def err(ty, v):
    return Enum(ty, 1, {1: (v,)})


# ------------------------------------------------------------------ mem, ptr, box
@model('std::mem::replace')
def _(e, S, c, a, dty):
    old = e.load(S, a[0])
    e.store(S, a[0], a[1])
    return [(S, old)]


@model('std::mem::swap')
def _(e, S, c, a, dty):
    x, y = e.load(S, a[0]), e.load(S, a[1])
    e.store(S, a[0], y)
    e.store(S, a[1], x)
    return [(S, U)]


@model('std::mem::take')
def _(e, S, c, a, dty):
    t = c['srcargs'][0]['t']
    out = []
    for T, d in e.trait_call(S, 'std::default::Default::default', [t], [], dty):
        old = e.load(T, a[0])
        e.store(T, a[0], d)
        out.append((T, old))
    return out


@model('std::mem::drop')
def _(e, S, c, a, dty):
    return [(T, U) for T in e.drop_value(S, c['srcargs'][0]['t'], a[0])]


@model('std::mem::forget')
def _(e, S, c, a, dty):
    e.spec.on_forget(S, c['srcargs'][0]['t'], a[0])
    return [(S, U)]


@model('std::boxed::Box::<T>::new')
def _(e, S, c, a, dty):
    t = c['args'][0]['t']
    return [(S, P(('H', e.alloc(S, a[0], t))))]


@model('<std::boxed::Box<T, A> as std::ops::Drop>::drop')
def _(e, S, c, a, dty):
    # frees the allocation only (the content was moved out or dropped before)
    q = e.selfptr(e.load(S, a[0]))
    if q.root[0] == 'H' and not q.proj and not e.spec.fixed(q.root[1]):
        S.H.pop(q.root[1], None)
    return [(S, U)]


@model('std::boxed::Box::<T>::pin')
def _(e, S, c, a, dty):
    t = c['args'][0]['t']
    return [(S, Agg(dty, [P(('H', e.alloc(S, a[0], t)))]))]


@model('std::boxed::Box::<T, A>::into_pin')
def _(e, S, c, a, dty):
    return [(S, Agg(dty, [a[0]]))]


@model('<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref', '<std::boxed::Box<T, A> as std::ops::Deref>::deref',
       '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut', '<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut',
       '<std::boxed::Box<T, A> as std::borrow::Borrow<T>>::borrow')
def _(e, S, c, a, dty):
    return [(S, e.selfptr(e.load(S, a[0])))]


@model('std::ptr::eq', 'std::ptr::addr_eq')
def _(e, S, c, a, dty):
    return [(S, e.spec.ptr_eq(S, a[0], a[1]))]


@model('std::ptr::const_ptr::<impl std::cmp::Ord for *const T>::cmp')
def _(e, S, c, a, dty):
    x, y = e.load(S, a[0]), e.load(S, a[1])
    return [(S, e.ordering(e.spec.addr(S, x), e.spec.addr(S, y)))]


@model('std::ptr::const_ptr::<impl std::cmp::PartialEq for *const T>::eq')
def _(e, S, c, a, dty):
    return [(S, e.spec.ptr_eq(S, e.load(S, a[0]), e.load(S, a[1])))]


@model('std::ptr::const_ptr::<impl *const T>::cast', 'std::ptr::const_ptr::<impl *const T>::cast_mut')
def _(e, S, c, a, dty):
    return [(S, a[0])]


def _intcmp(e, S, c, a, dty):
    return [(S, e.ordering(e.load(S, a[0]), e.load(S, a[1])))]


def _intpcmp(e, S, c, a, dty):
    return [(S, opt(e, dty, e.ordering(e.load(S, a[0]), e.load(S, a[1]))))]


def _inteq(e, S, c, a, dty):
    return [(S, eq(e.load(S, a[0]), e.load(S, a[1])))]


def _intne(e, S, c, a, dty):
    return [(S, not_(eq(e.load(S, a[0]), e.load(S, a[1]))))]


def _clone(e, S, c, a, dty):
    return [(S, e.load(S, a[0]))]


for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'bool', 'isize', 'i32', 'i64'):
    MODELS['std::cmp::impls::<impl std::cmp::Ord for %s>::cmp' % _t] = _intcmp
    MODELS['std::cmp::impls::<impl std::cmp::PartialOrd for %s>::partial_cmp' % _t] = _intpcmp
    MODELS['std::cmp::impls::<impl std::cmp::PartialEq for %s>::eq' % _t] = _inteq
    MODELS['std::cmp::impls::<impl std::cmp::PartialEq for %s>::ne' % _t] = _intne
    MODELS['std::clone::impls::<impl std::clone::Clone for %s>::clone' % _t] = _clone


def _cmpop(op):
    def f(e, S, c, a, dty):
        return [(S, cmp_(op, e.load(S, a[0]), e.load(S, a[1])))]
    return f


Ranges = {k: (0, 2 ** b - 1) if k[0] == 'u' else (-2 ** (b - 1), 2 ** (b - 1) - 1) for k, b in
          (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('usize', 64), ('isize', 64), ('i32', 32), ('i64', 64))}
for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'isize', 'i32', 'i64'):
    for _n, _o in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
        MODELS['std::cmp::impls::<impl std::cmp::PartialOrd for %s>::%s' % (_t, _n)] = _cmpop(_o)
    def _num(f, _t=_t):
        lo, hi = Ranges[_t]

        def g(e, S, c, a, dty):
            return [(S, f(e, S, a[0], a[1], lo, hi))]
        return g
    MODELS['std::num::<impl %s>::wrapping_add' % _t] = _num(lambda e, S, x, y, lo, hi: e.wrap(S, add(x, y), lo, hi) if hi < 2 ** 60 or not isinstance(y, int) or y > 2 ** 60 else add(x, y))
    MODELS['std::num::<impl %s>::wrapping_sub' % _t] = _num(lambda e, S, x, y, lo, hi: e.wrap(S, e.sub(x, y), lo, hi))

    def _clamp(e, r, lo, hi):
        return ite(cmp_('Le', r, hi), ite(cmp_('Ge', r, lo), r, lo), hi)
    MODELS['std::num::<impl %s>::saturating_add' % _t] = _num(lambda e, S, x, y, lo, hi: _clamp(e, add(x, y), lo, hi))
    MODELS['std::num::<impl %s>::saturating_sub' % _t] = _num(lambda e, S, x, y, lo, hi: _clamp(e, e.sub(x, y), lo, hi))

    def _maxi(e, S, c, a, dty):
        return [(S, ite(cmp_('Ge', a[1], a[0]), a[1], a[0]))]

    def _mini(e, S, c, a, dty):
        return [(S, ite(cmp_('Le', a[0], a[1]), a[0], a[1]))]
    MODELS['std::cmp::impls::<impl std::cmp::Ord for %s>::max' % _t] = _maxi
    MODELS['std::cmp::impls::<impl std::cmp::Ord for %s>::min' % _t] = _mini


@model('std::cmp::max', 'std::cmp::Ord::max')
def _(e, S, c, a, dty):
    t = c['srcargs'][0]['t']
    if e.ty(t)['k'] in ('Uint', 'Int'):
        return [(S, ite(cmp_('Ge', a[1], a[0]), a[1], a[0]))]
    return NotImplemented


@model('std::cmp::min', 'std::cmp::Ord::min')
def _(e, S, c, a, dty):
    t = c['srcargs'][0]['t']
    if e.ty(t)['k'] in ('Uint', 'Int'):
        return [(S, ite(cmp_('Le', a[0], a[1]), a[0], a[1]))]
    return NotImplemented


@model('std::intrinsics::three_way_compare')
def _(e, S, c, a, dty):
    return [(S, e.ordering(a[0], a[1]))]


@model('std::intrinsics::discriminant_value')
def _(e, S, c, a, dty):
    return [(S, e.discr(e.load(S, a[0])))]


@model('std::mem::discriminant')
def _(e, S, c, a, dty):
    return [(S, Agg(dty, [e.discr(e.load(S, a[0]))]))]


@model('std::intrinsics::ub_checks', 'std::intrinsics::overflow_checks')
def _(e, S, c, a, dty):
    return [(S, False)]


@model('std::intrinsics::cold_path')
def _(e, S, c, a, dty):
    return [(S, U)]


# ------------------------------------------------------------------ panics, formatting
@model('std::rt::panic_fmt', 'core::panicking::panic', 'core::panicking::panic_fmt', 'std::rt::begin_panic', 'core::option::expect_failed',
       'core::option::unwrap_failed', 'core::result::unwrap_failed', 'core::panicking::unreachable_display', 'core::panicking::panic_explicit',
       'core::panicking::assert_failed', 'std::option::expect_failed', 'std::option::unwrap_failed', 'std::result::unwrap_failed',
       'core::panicking::panic_display', 'core::panicking::panic_nounwind', 'std::process::abort')
def _(e, S, c, a, dty):
    e.spec.on_panic(S, c['def'])
    return []


@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::new", "std::fmt::rt::<impl std::fmt::Arguments<'_>>::new_const",
       "std::fmt::rt::<impl std::fmt::Arguments<'_>>::new", "std::fmt::Arguments::<'a>::from_str_nonconst")
def _(e, S, c, a, dty):
    return [(S, Opq('fmt'))]


# ------------------------------------------------------------------ Arc, Weak
@model('std::sync::Arc::<T>::new')
def _(e, S, c, a, dty):
    t = c['args'][0]['t']
    n = e.alloc(S, a[0], t, name=e.spec.new_name(S, t, a[0]), rc=1, tag=e.spec.new_tag(S, t))
    return [(S, Arc(n))]


@model('<std::sync::Arc<T, A> as std::clone::Clone>::clone')
def _(e, S, c, a, dty):
    v = e.load(S, a[0])
    o = S.H.get(v.name)
    if o is not None and o.rc is not None:
        S.H[v.name] = o.with_(rc=o.rc + 1)
    e.spec.on_arc_clone(S, v)
    return [(S, v)]


@model('<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref', '<std::sync::Arc<T, A> as std::ops::Deref>::deref')
def _(e, S, c, a, dty):
    v = e.load(S, a[0])
    return [(S, P(('H', v.name), (), v.meta))]


@model('std::sync::Arc::<T, A>::as_ptr')
def _(e, S, c, a, dty):
    v = e.load(S, a[0])
    return [(S, P(('H', v.name), (), v.meta))]


@model('std::sync::Weak::<T, A>::as_ptr')
def _(e, S, c, a, dty):
    v = e.load(S, a[0])
    return [(S, P(('H', v.name), (), v.meta))]


@model('std::sync::Arc::<T, A>::ptr_eq', 'std::sync::Weak::<T, A>::ptr_eq')
def _(e, S, c, a, dty):
    return [(S, e.spec.ptr_eq(S, e.load(S, a[0]), e.load(S, a[1])))]


@model('std::sync::Arc::<T, A>::downgrade')
def _(e, S, c, a, dty):
    v = e.load(S, a[0])
    return [(S, Arc(v.name, True, v.meta))]


@model('std::sync::Weak::<T, A>::upgrade')
def _(e, S, c, a, dty):
    v = e.load(S, a[0])
    out = []
    for T, alive in e.spec.upgrade(S, v):
        if alive:
            o = T.H.get(v.name)
            if o is not None and o.rc is not None:
                T.H[v.name] = o.with_(rc=o.rc + 1)
            out.append((T, opt(e, dty, Arc(v.name, False, v.meta))))
        else:
            out.append((T, opt(e, dty)))
    return out


@model('<std::sync::Weak<T, A> as std::clone::Clone>::clone')
def _(e, S, c, a, dty):
    return [(S, e.load(S, a[0]))]


@model('std::sync::Weak::<T, A>::strong_count')
def _(e, S, c, a, dty):
    v = e.load(S, a[0])
    out = []
    for T, alive in e.spec.upgrade(S, v):
        out.append((T, e.int(T, 'sc', 1) if alive else 0))
    return out


@model('std::sync::Arc::<T, A>::strong_count')
def _(e, S, c, a, dty):
    v = e.load(S, a[0])
    o = S.H.get(v.name)
    if o is not None and o.rc is not None and not o.shared:
        return [(S, o.rc)]
    return [(S, e.int(S, 'sc', 1))]


@model('std::sync::Arc::<T, A>::get_mut')
def _(e, S, c, a, dty):
    v = e.load(S, a[0])
    o = S.H.get(v.name)
    p = P(('H', v.name), (), v.meta)
    if o is not None and not o.shared and o.rc is not None:
        return [(S, opt(e, dty, p) if o.rc == 1 else opt(e, dty))]
    T = S.copy()
    return [(S, opt(e, dty, p)), (T, opt(e, dty))]


def arc_drop(e, S, v, inner):
    """drop one strong reference: [state]"""
    n = v.name
    o = S.H.get(n)
    e.spec.on_arc_drop(S, v)
    if o is None:
        return [S]
    e.pin(S, n)
    if o.rc is not None and not o.shared:
        S.H[n] = o.with_(rc=o.rc - 1)
        last = [(S, o.rc == 1)]
    else:
        last = e.spec.maybe_last(S, v)
    out = []
    for T, l in last:
        if not l:
            out.append(T)
            continue
        t = inner
        if e.ty(inner)['k'] == 'Dyn':
            t = v.meta if v.meta is not None else T.H[n].ty
        for W in e.spec.before_last(T, v, t):
            for X in e.drop(W, t, P(('H', n))):
                e.spec.after_last(X, v)
                if not e.spec.fixed(n) and not e.spec.keep_dead(X, n):
                    X.H.pop(n, None)
                out.append(X)
    return out


@dropm('std::sync::Arc')
def _(e, S, ty, p):
    v = e.load(S, p)
    if v is UNINIT:
        return [S]
    return arc_drop(e, S, v, e.targs(ty)[0])


@dropm('std::sync::Weak')
def _(e, S, ty, p):
    return [S]


# ------------------------------------------------------------------ locks
@model('std::sync::Mutex::<T>::new', 'std::sync::nonpoison::Mutex::<T>::new')
def _(e, S, c, a, dty):
    return [(S, Lock('std', c['args'][0]['t'], a[0]))]


@model('spin::mutex::Mutex::<T, R>::new', 'spin::Mutex::<T, R>::new')
def _(e, S, c, a, dty):
    return [(S, Lock('spin', c['args'][0]['t'], a[0]))]


@model('std::sync::Mutex::<T>::lock')
def _(e, S, c, a, dty):
    return [(T, ok(dty, g)) for T, g in e.spec.lock(S, a[0], 'std')]


@model('std::sync::Mutex::<T>::try_lock')
def _(e, S, c, a, dty):
    out = []
    for T, g in e.spec.try_lock(S, a[0], 'std'):
        if g is not None:
            out.append((T, ok(dty, g)))
        else:
            et = e.ty(dty)['args'][1]['t']
            d = [i for i, x in enumerate(e.ty(et)['variants']) if x['name'] == 'WouldBlock'][0]
            out.append((T, Enum(dty, 1, {1: (Enum(et, d, {d: ()}),)})))
    return out


@model('spin::mutex::Mutex::<T, R>::try_lock', 'spin::Mutex::<T, R>::try_lock')
def _(e, S, c, a, dty):
    return [(T, opt(e, dty) if g is None else opt(e, dty, g)) for T, g in e.spec.try_lock(S, a[0], 'spin')]


@model('spin::mutex::Mutex::<T, R>::lock', 'spin::Mutex::<T, R>::lock')
def _(e, S, c, a, dty):
    return e.spec.lock(S, a[0], 'spin')


@model("<std::sync::MutexGuard<'_, T> as std::ops::Deref>::deref", "<std::sync::MutexGuard<'_, T> as std::ops::DerefMut>::deref_mut",
       "<spin::mutex::MutexGuard<'a, T> as std::ops::Deref>::deref", "<spin::mutex::MutexGuard<'a, T> as std::ops::DerefMut>::deref_mut",
       "<spin::MutexGuard<'a, T> as std::ops::Deref>::deref", "<spin::MutexGuard<'a, T> as std::ops::DerefMut>::deref_mut")
def _(e, S, c, a, dty):
    g = e.load(S, a[0])
    return [(S, P(g.lock.root, g.lock.proj + (('lk',),)))]


@dropm('std::sync::MutexGuard', 'spin::mutex::MutexGuard', 'spin::MutexGuard', 'std::sync::nonpoison::MutexGuard')
def _(e, S, ty, p):
    g = e.load(S, p)
    if g is UNINIT:
        return [S]
    return e.spec.unlock(S, g)


@dropm('std::sync::Mutex', 'spin::mutex::Mutex', 'spin::Mutex')
def _(e, S, ty, p):
    v = e.load(S, p)
    out = []
    for T in e.spec.lock_content_for_drop(S, p, v):
        v2 = e.load(T, p)
        out += e.drop(T, v2.ty, P(p.root, p.proj + (('lk',),)))
    return out


@freshm('std::sync::Mutex', 'spin::mutex::Mutex', 'spin::Mutex')
def _(e, S, ty, h):
    return [(S, Lock('std' if 'std::' in e.tn(ty) else 'spin', e.targs(ty)[0], None))]


# ------------------------------------------------------------------ atomics
@model('std::sync::atomic::Atomic::<usize>::new', 'std::sync::atomic::AtomicUsize::new', 'std::sync::atomic::Atomic::<u64>::new', 'std::sync::atomic::Atomic::<bool>::new')
def _(e, S, c, a, dty):
    return [(S, Atomic(a[0]))]


def _atomic(op):
    def f(e, S, c, a, dty):
        return e.spec.atomic(S, op, a[0], a[1:], dty)
    return f


for _w in ('usize', 'u64', 'u32', 'bool', 'isize'):
    for _o in ('load', 'store', 'fetch_add', 'fetch_sub', 'swap', 'compare_exchange', 'compare_exchange_weak', 'fetch_max', 'fetch_or', 'fetch_and'):
        MODELS['std::sync::atomic::Atomic::<%s>::%s' % (_w, _o)] = _atomic(_o)


@model('std::sync::atomic::Atomic::<usize>::fetch_update', 'std::sync::atomic::Atomic::<usize>::try_update')
def _(e, S, c, a, dty):
    # fetch_update(set_order, fetch_order, f): one atomic update with the value f chose, or no update
    v0 = e.spec.atomic(S, 'load', a[0], [a[2]], None)
    out = []
    for T, v in v0:
        fty = c['srcargs'][-1]['t']
        for W, r in e.call_closure(T, fty, a[3], [v], 'mut'):
            if r.d == 0:
                out.append((W, err(dty, v)))
            else:
                for X, res in e.spec.atomic(W, 'cas_ok', a[0], [v, r.pl[1][0]], None):
                    out.append((X, ok(dty, v)))
    return out


@model('std::sync::atomic::fence')
def _(e, S, c, a, dty):
    return [(S, U)]


@freshm('std::sync::atomic::Atomic')
def _(e, S, ty, h):
    return [(S, Atomic(0))]


@dropm('std::sync::atomic::Atomic', 'std::marker::PhantomData', 'std::fmt::Arguments')
def _(e, S, ty, p):
    return [S]


# ------------------------------------------------------------------ wakers, Context
@model("std::task::Context::<'a>::waker")
def _(e, S, c, a, dty):
    n = e.alloc(S, e.load(S, a[0]), None)
    return [(S, P(('H', n)))]


@model("std::task::Context::<'a>::from_waker")
def _(e, S, c, a, dty):
    return [(S, e.load(S, a[0]))]


@model('<std::task::Waker as std::clone::Clone>::clone')
def _(e, S, c, a, dty):
    return [(S, e.load(S, a[0]))]


@model('<std::task::Waker as std::clone::Clone>::clone_from')
def _(e, S, c, a, dty):
    e.store(S, a[0], e.load(S, a[1]))
    return [(S, U)]


@model('std::task::Waker::will_wake')
def _(e, S, c, a, dty):
    x, y = e.load(S, a[0]), e.load(S, a[1])
    if x.name == y.name:
        return [(S, True)]
    return [(S, False)]


@model('std::task::Waker::wake')
def _(e, S, c, a, dty):
    e.spec.on_wake(S, a[0].name)
    return [(S, U)]


@model('std::task::Waker::wake_by_ref')
def _(e, S, c, a, dty):
    e.spec.on_wake(S, e.load(S, a[0]).name)
    return [(S, U)]


@model('std::task::Waker::noop', 'futures_util::task::noop_waker', 'futures_util::task::noop_waker_ref', 'futures_task::noop_waker_ref', 'futures_task::noop_waker')
def _(e, S, c, a, dty):
    w = End('waker', 'noop')
    if e.ty(dty)['k'] == 'Ref':
        return [(S, P(('H', e.alloc(S, w, None))))]
    return [(S, w)]


@dropm('std::task::Waker')
def _(e, S, ty, p):
    return [S]


@freshm('std::task::Waker')
def _(e, S, ty, h):
    return [(S, End('waker', e.fresh_name('k')))]


@freshm('std::task::Context')
def _(e, S, ty, h):
    return [(S, End('waker', e.fresh_name('k')))]


# ------------------------------------------------------------------ catty oneshot
@model('catty::oneshot')
def _(e, S, c, a, dty):
    n = e.spec.new_oneshot(S, c['args'][0]['t'])
    return [(S, Agg(dty, [End('tx', n), End('rx', n)]))]


@model('catty::Sender::<T>::send')
def _(e, S, c, a, dty):
    return e.spec.os_send(S, a[0], a[1], c['args'][0]['t'], dty)


@model('<catty::Receiver<T> as futures_util::Future>::poll', '<catty::Receiver<T> as std::future::Future>::poll')
def _(e, S, c, a, dty):
    p = e.selfptr(a[0])
    return e.spec.os_poll(S, e.load(S, p), a[1], dty)


@model('catty::Receiver::<T>::try_recv')
def _(e, S, c, a, dty):
    return e.spec.os_try_recv(S, e.load(S, a[0]), dty)


@dropm('catty::Sender')
def _(e, S, ty, p):
    v = e.load(S, p)
    return [S] if v is UNINIT else e.spec.os_drop(S, v, e.targs(ty)[0])


@dropm('catty::Receiver')
def _(e, S, ty, p):
    v = e.load(S, p)
    return [S] if v is UNINIT else e.spec.os_drop(S, v, e.targs(ty)[0])


@freshm('catty::Sender')
def _(e, S, ty, h):
    return e.spec.fresh_end(S, 'tx', e.targs(ty)[0], h)


@freshm('catty::Receiver')
def _(e, S, ty, h):
    return e.spec.fresh_end(S, 'rx', e.targs(ty)[0], h)


# ------------------------------------------------------------------ event_listener
@model('event_listener::Event::new')
def _(e, S, c, a, dty):
    return [(S, End('event', e.spec.new_event(S)))]


@model('event_listener::Event::listen')
def _(e, S, c, a, dty):
    return e.spec.ev_listen(S, e.load(S, a[0]))


@model('event_listener::Event::notify')
def _(e, S, c, a, dty):
    return e.spec.ev_notify(S, e.load(S, a[0]), a[1], 'notify')


@model('event_listener::Event::notify_additional', 'event_listener::Event::notify_relaxed', 'event_listener::Event::notify_additional_relaxed')
def _(e, S, c, a, dty):
    return e.spec.ev_notify(S, e.load(S, a[0]), a[1], c['def'].rsplit('::', 1)[-1])


@model('<event_listener::EventListener as futures_util::Future>::poll', '<event_listener::EventListener as std::future::Future>::poll')
def _(e, S, c, a, dty):
    p = e.selfptr(a[0])
    return e.spec.ev_poll(S, e.load(S, p), a[1], dty)


@dropm('event_listener::EventListener')
def _(e, S, ty, p):
    return [S]


@dropm('event_listener::Event')
def _(e, S, ty, p):
    return [S]


@freshm('event_listener::Event')
def _(e, S, ty, h):
    return [(S, End('event', e.spec.new_event(S)))]


# ------------------------------------------------------------------ collections
def cget(e, S, p):
    v = e.load(S, p)
    if not isinstance(v, Coll):
        raise Unsupported('collection expected, got %r' % (v,))
    return v


def kind_of(e, ty):
    return {'std::vec::Vec': 'vec', 'std::collections::VecDeque': 'deque', 'std::collections::BinaryHeap': 'heap'}[e.tn(ty)]


def new_coll(e, ty):
    return Coll(kind_of(e, ty), e.targs(ty)[0], 0, {})


@model('<std::collections::BinaryHeap<T> as std::default::Default>::default', '<std::collections::VecDeque<T> as std::default::Default>::default',
       '<std::vec::Vec<T> as std::default::Default>::default')
def _(e, S, c, a, dty):
    return [(S, new_coll(e, c['srcargs'][0]['t'] if c.get('srcargs') else dty))]


@model('std::collections::BinaryHeap::<T>::new', 'std::collections::VecDeque::<T>::new', 'std::vec::Vec::<T>::new',
       'std::collections::BinaryHeap::<T>::with_capacity', 'std::collections::VecDeque::<T>::with_capacity', 'std::vec::Vec::<T>::with_capacity')
def _(e, S, c, a, dty):
    k = 'heap' if 'BinaryHeap' in c['def'] else 'deque' if 'VecDeque' in c['def'] else 'vec'
    return [(S, Coll(k, c['args'][0]['t'], 0, {}))]


@freshm('std::vec::Vec', 'std::collections::VecDeque', 'std::collections::BinaryHeap')
def _(e, S, ty, h):
    return e.spec.fresh_coll(S, kind_of(e, ty), e.targs(ty)[0], h)


def ntrk(coll):
    return add(*[p for p, _, _ in coll.trk.values()]) if coll.trk else 0


def push(e, S, p, x, front=False):
    v = cget(e, S, p)
    e.spec.on_push(S, v, x, p)
    key = e.spec.elemkey(S, x)
    if key is not None:
        old = v.trk.get(key)
        if old is not None and old[0] is not False:
            e.spec.on_dup_push(S, v, key, old[0])
            if old[0] is not True:
                e.assume(S, not_(old[0]))
            else:
                # counted once only
                e.store(S, p, v.with_(len=add(v.len, 1)))
                return
        if front:
            r = add(v.lo, -1)
            nv = v.with_(trk={**v.trk, key: (True, x, r)}, len=add(v.len, 1), lo=r)
        else:
            r = v.hi
            nv = v.with_(trk={**v.trk, key: (True, x, r)}, len=add(v.len, 1), hi=add(v.hi, 1))
    else:
        e.spec.forget(S, v, x)
        nv = v.with_(len=add(v.len, 1))
        if front:
            nv = nv.with_(lo=add(v.lo, -1))
        else:
            nv = nv.with_(hi=add(v.hi, 1))
    e.store(S, p, nv)


@model('std::collections::BinaryHeap::<T, A>::push', 'std::collections::VecDeque::<T, A>::push_back', 'std::vec::Vec::<T, A>::push')
def _(e, S, c, a, dty):
    push(e, S, a[0], a[1])
    return [(S, U)]


@model('std::collections::VecDeque::<T, A>::push_front')
def _(e, S, c, a, dty):
    push(e, S, a[0], a[1], True)
    return [(S, U)]


@model('std::collections::BinaryHeap::<T, A>::len', 'std::collections::VecDeque::<T, A>::len', 'std::vec::Vec::<T, A>::len')
def _(e, S, c, a, dty):
    return [(S, cget(e, S, a[0]).len)]


@model('std::collections::BinaryHeap::<T, A>::is_empty', 'std::collections::VecDeque::<T, A>::is_empty', 'std::vec::Vec::<T, A>::is_empty')
def _(e, S, c, a, dty):
    return [(S, eq(cget(e, S, a[0]).len, 0))]


def tracked_options(e, S, p):
    """split on which tracked elements are present; every present flag becomes concrete"""
    todo = [S]
    out = []
    while todo:
        T = todo.pop()
        v = cget(e, T, p)
        k = next((k for k in sorted(v.trk) if sym(v.trk[k][0])), None)
        if k is None:
            out.append(T)
            continue
        pr, el, r = v.trk[k]
        for X, b in e.split(T, pr):
            w = cget(e, X, p)
            tk = dict(w.trk)
            tk[k] = (True, el, r) if b else (False, None, None)
            e.store(X, p, w.with_(trk=tk, top=w.top))
            todo.append(X)
    return out


def remove_trk(v, k):
    tk = dict(v.trk)
    tk[k] = (False, None, None)
    return v.with_(trk=tk, len=add(v.len, -1))


def choose(e, S, p, how):
    """next element in order `how` ('front','back','any','max').
    [(state, None | ('trk', name) | ('oth', elem))]; present flags are concrete afterwards; nothing is removed"""
    out = []
    v = cget(e, S, p)
    if how == 'max' and v.top is not None:
        return [(S, v.top)]
    for T in tracked_options(e, S, p):
        v = cget(e, T, p)
        pres = [k for k in sorted(v.trk) if v.trk[k][0]]
        # empty
        if not pres:
            for X, b in e.split(T.copy(), eq(v.len, 0)):
                if b:
                    out.append((X, None))
        # a tracked one
        for k in pres:
            X = T.copy()
            if how in ('front', 'back'):
                for j in pres:
                    if j != k:
                        e.assume(X, lt(v.trk[k][2], v.trk[j][2]) if how == 'front' else lt(v.trk[j][2], v.trk[k][2]))
                if e.feas(X):
                    out.append((X, ('trk', k)))
            elif how == 'any':
                out.append((X, ('trk', k)))
            else:
                for Y in require_le(e, X, p, [j for j in pres if j != k], ('trk', k)):
                    e.store(Y, p, cget(e, Y, p).with_(top=('trk', k)))
                    out.append((Y, ('trk', k)))
        # some other element
        X = T.copy()
        e.assume(X, cmp_('Ge', v.len, len(pres) + 1))
        if e.feas(X):
            for Y, el in e.spec.fresh_elem(X, v):
                if how == 'max':
                    w = cget(e, Y, p)
                    e.store(Y, p, w.with_(top=('oth', el)))
                    for Z in require_le(e, Y, p, pres, ('oth',)):
                        w = cget(e, Z, p)
                        el2 = e.load(Z, P(p.root, p.proj + (('top',),)))
                        out.append((Z, ('oth', el2)))
                else:
                    if how in ('front', 'back'):
                        w = cget(e, Y, p)
                    out.append((Y, ('oth', el)))
    return out


def elem_ptr(p, which):
    if which[0] == 'trk':
        return P(p.root, p.proj + (('trk', which[1]),))
    return P(p.root, p.proj + (('top',),))


def require_le(e, S, p, ks, top):
    """states in which every tracked element in ks is <= the top element, by the element type's own order"""
    states = [S]
    for k in ks:
        nxt = []
        for T in states:
            v = cget(e, T, p)
            tp = elem_ptr(p, top)
            kp = elem_ptr(p, ('trk', k))
            keep = v.top
            for X, r in le_call(e, T, v.ety, kp, tp):
                for Y, b in e.split(X, r):
                    if b:
                        nxt.append(Y)
        states = nxt
    return states


def le_call(e, S, ety, pa, pb):
    """a <= b by the PartialOrd implementation BinaryHeap uses"""
    na = P(('H', e.alloc(S, pa, None)))
    o = e.spec.quiet
    e.spec.quiet = True
    try:
        return e.trait_call(S, 'std::cmp::PartialOrd::le', [ety, ety], [pa, pb])
    finally:
        e.spec.quiet = o


def take(e, S, p, which):
    """remove the chosen element and return it"""
    v = cget(e, S, p)
    if which[0] == 'trk':
        el = v.trk[which[1]][1]
        e.store(S, p, remove_trk(v, which[1]))
        return el
    e.store(S, p, v.with_(len=add(v.len, -1)))
    return which[1]


def _pop(how):
    def f(e, S, c, a, dty):
        out = []
        for T, w in choose(e, S, a[0], how):
            if w is None:
                out.append((T, opt(e, dty)))
            else:
                out.append((T, opt(e, dty, take(e, T, a[0], w))))
        return out
    return f


MODELS['std::collections::BinaryHeap::<T, A>::pop'] = _pop('max')
MODELS['std::collections::VecDeque::<T, A>::pop_front'] = _pop('front')
MODELS['std::collections::VecDeque::<T, A>::pop_back'] = _pop('back')
MODELS['std::vec::Vec::<T, A>::pop'] = _pop('back')


@model('std::collections::BinaryHeap::<T, A>::peek')
def _(e, S, c, a, dty):
    out = []
    for T, w in choose(e, S, a[0], 'max'):
        if w is None:
            out.append((T, opt(e, dty)))
        else:
            out.append((T, opt(e, dty, elem_ptr(a[0], w))))
    return out


def _peek(how):
    def f(e, S, c, a, dty):
        out = []
        for T, w in choose(e, S, a[0], how):
            if w is None:
                out.append((T, opt(e, dty)))
            elif w[0] == 'trk':
                out.append((T, opt(e, dty, elem_ptr(a[0], w))))
            else:
                n = e.alloc(T, w[1], cget(e, T, a[0]).ety)
                out.append((T, opt(e, dty, P(('H', n)))))
        return out
    return f


MODELS['std::collections::VecDeque::<T, A>::front'] = _peek('front')
MODELS['std::collections::VecDeque::<T, A>::back'] = _peek('back')


def drop_coll(e, S, p):
    """drop every element; leaves the collection empty"""
    out = []
    for T in tracked_options(e, S, p):
        v = cget(e, T, p)
        states = [T]
        for k in [k for k in sorted(v.trk) if v.trk[k][0]]:
            nxt = []
            for X in states:
                w = cget(e, X, p)
                el = w.trk[k][1]
                e.store(X, p, remove_trk(w, k))
                nxt += e.drop_value(X, v.ety, el)
            states = nxt
        for X in states:
            w = cget(e, X, p)
            Y = X.copy()
            e.assume(Y, cmp_('Ge', w.len, 1))
            res = []
            if e.feas(Y):
                # an arbitrary other element stands for all of them
                for Z, el in e.spec.fresh_elem(Y, w):
                    before = e.canon(Z)[0] if e.spec.check_frame else None
                    for Q in e.drop_value(Z, v.ety, el):
                        res.append(Q)
            N = X
            e.assume(N, eq(w.len, 0))
            if e.feas(N):
                res.append(N)
            for Q in res:
                w2 = cget(e, Q, p)
                e.store(Q, p, Coll(v.kind, v.ety, 0, {k: (False, None, None) for k in w2.trk}))
                out.append(Q)
    return out


@dropm('std::vec::Vec', 'std::collections::VecDeque', 'std::collections::BinaryHeap')
def _(e, S, ty, p):
    if e.load(S, p) is UNINIT:
        return [S]
    return drop_coll(e, S, p)


@model('std::collections::BinaryHeap::<T, A>::clear', 'std::collections::VecDeque::<T, A>::clear', 'std::vec::Vec::<T, A>::clear')
def _(e, S, c, a, dty):
    return [(T, U) for T in drop_coll(e, S, a[0])]


# by-value iteration
@model('<std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter', '<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',
       '<std::collections::BinaryHeap<T, A> as std::iter::IntoIterator>::into_iter')
def _(e, S, c, a, dty):
    return [(S, It(a[0]))]


@model('std::collections::VecDeque::<T, A>::drain', 'std::vec::Vec::<T, A>::drain', 'std::collections::BinaryHeap::<T, A>::drain')
def _(e, S, c, a, dty):
    if len(a) > 1 and not (isinstance(a[1], Agg) and not a[1].vals):
        raise Unsupported('drain of a part')
    v = cget(e, S, a[0])
    e.store(S, a[0], Coll(v.kind, v.ety, 0, {k: (False, None, None) for k in v.trk}))
    return [(S, It(v))]


def it_next(e, S, p, dty, how='front'):
    it = e.load(S, p)
    n = e.alloc(S, it.coll, None)
    cp = P(('H', n))
    out = []
    how = how if it.coll.kind != 'heap' else 'any'
    for T, w in choose(e, S, cp, how):
        if w is None:
            v = cget(e, T, cp)
            T.H.pop(n)
            e.store(T, p, It(v, it.src, it.ad))
            out.append((T, None))
            continue
        el = take(e, T, cp, w)
        v = cget(e, T, cp)
        T.H.pop(n)
        e.store(T, p, It(v, it.src, it.ad))
        if it.src is not None:
            # by reference
            if w[0] == 'trk':
                el = P(it.src.root, it.src.proj + (('trk', w[1]),))
            else:
                el = P(('H', e.alloc(T, el, v.ety)))
        out.append((T, el))
    return out


def _next(how):
    def f(e, S, c, a, dty):
        return [(T, opt(e, dty, x)) for T, x in it_next(e, S, a[0], dty, how)]
    return f


for _n in ('std::collections::vec_deque::IntoIter<T, A>', 'std::vec::IntoIter<T, A>', 'std::collections::vec_deque::Drain<\'_, T, A>', "std::vec::Drain<'_, T, A>",
           "std::collections::vec_deque::Iter<'a, T>", "std::slice::Iter<'a, T>", "std::collections::binary_heap::IntoIter<T, A>", "std::collections::binary_heap::Iter<'a, T>",
           "std::collections::binary_heap::Drain<'_, T, A>"):
    MODELS['<%s as std::iter::Iterator>::next' % _n] = _next('front')
    MODELS['<%s as std::iter::DoubleEndedIterator>::next_back' % _n] = _next('back')


@dropm('std::collections::vec_deque::IntoIter', 'std::vec::IntoIter', 'std::collections::vec_deque::Drain', 'std::vec::Drain', 'std::collections::binary_heap::IntoIter',
       'std::collections::binary_heap::Drain')
def _(e, S, ty, p):
    it = e.load(S, p)
    if it is UNINIT:
        return [S]
    n = e.alloc(S, it.coll, None)
    out = []
    for T in drop_coll(e, S, P(('H', n))):
        T.H.pop(n, None)
        out.append(T)
    return out


# by-reference iteration
@model('std::collections::VecDeque::<T, A>::iter', 'std::vec::Vec::<T, A>::iter', 'std::collections::BinaryHeap::<T, A>::iter', 'core::slice::<impl [T]>::iter', 'std::slice::<impl [T]>::iter',
       "<&'a std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter", "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "<&'a std::collections::BinaryHeap<T, A> as std::iter::IntoIterator>::into_iter")
def _(e, S, c, a, dty):
    return [(S, It(cget(e, S, a[0]), a[0]))]


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::<T, A>::as_slice',
       '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref')
def _(e, S, c, a, dty):
    return [(S, a[0])]


def _adapt(name):
    def f(e, S, c, a, dty):
        it = a[0]
        if isinstance(it, It) and it.src is not None:
            return [(S, It(it.coll, it.src, it.ad + (name,)))]
        return NotImplemented
    return f


MODELS['std::iter::Iterator::enumerate'] = _adapt('enumerate')
MODELS['std::iter::Iterator::rev'] = _adapt('rev')


@model('std::iter::Iterator::take')
def _(e, S, c, a, dty):
    it = a[0]
    if isinstance(it, It) and it.src is not None:
        return [(S, It(it.coll, it.src, it.ad + (('take', a[1]),)))]
    return NotImplemented


def _key_best(maxi):
    """max_by_key / min_by_key over a by-reference iterator (possibly reversed, enumerated)"""
    def f(e, S, c, a, dty):
        it = a[0]
        if not isinstance(it, It) or it.src is None:
            return NotImplemented
        fty = c['srcargs'][-1]['t']
        kty = c['srcargs'][-2]['t']
        src = it.src
        rev = sum(1 for x in it.ad if x == 'rev') % 2 == 1
        enum = 'enumerate' in it.ad
        takes = [i for i, x in enumerate(it.ad) if isinstance(x, tuple)]
        if it.ad.count('enumerate') > 1 or len(takes) > 1 or takes and 'rev' in it.ad[takes[0]:]:
            raise Unsupported('adaptors %s' % (it.ad,))
        # position counts from the end when rev comes first
        posrev = enum and it.ad.index('enumerate') > 0 and 'rev' in it.ad[:it.ad.index('enumerate')]
        fn_ = e.alloc(S, a[1], fty)
        fp = P(('H', fn_))
        out = []

        def item(T, ptr, idx):
            return Agg(None, [idx, ptr]) if enum else ptr

        limit = it.ad[takes[0]][1] if takes else None
        if takes:
            T0 = S.copy()
            e.assume(T0, eq(limit, 0))
            if e.feas(T0):
                out.append((T0, opt(e, dty)))
            e.assume(S, not_(eq(limit, 0)))
            if not e.feas(S):
                return out
        for T0, w in choose(e, S, src, 'any'):
            if w is None:
                out.append((T0, opt(e, dty)))
                continue
            v = cget(e, T0, src)
            pres = [k for k in sorted(v.trk) if v.trk[k][0]]
            if w[0] == 'trk':
                wp = elem_ptr(src, w)
                rest = [k for k in pres if k != w[1]]
            else:
                wp = P(('H', e.alloc(T0, w[1], v.ety)))
                rest = pres
            idx = e.int(T0, 'ix', 0)
            e.assume(T0, lt(idx, v.len))
            states = []
            arg = P(('H', e.alloc(T0, item(T0, wp, idx), None)))
            for T, kv in e.call_closure(T0, fty, fp, [arg], 'mut'):
                states.append((T, kv))
            for k in rest:
                nxt = []
                if takes:
                    # this one may come after the first `limit` elements: then it does not count
                    for T, kw in states:
                        X = T.copy()
                        e.assume(X, lt(limit, v.len))
                        if w[0] == 'trk':
                            rw, rk = v.trk[w[1]][2], v.trk[k][2]
                            e.assume(X, lt(rw, rk) if not rev else lt(rk, rw))
                        if e.feas(X):
                            nxt.append((X, kw))
                for T, kw in states:
                    ki = e.int(T, 'ix', 0)
                    ag = P(('H', e.alloc(T, item(T, elem_ptr(src, ('trk', k)), ki), None)))
                    for X, kk in e.call_closure(T, fty, fp, [ag], 'mut'):
                        # kk <= kw (max) with the tie going to the last element in iteration order
                        pa, pb = P(('H', e.alloc(X, kk, kty))), P(('H', e.alloc(X, kw, kty)))
                        for Y, o in e.trait_call(X, 'std::cmp::Ord::cmp', [kty], [pa, pb]):
                            dsc = e.discr(o)
                            less, equal = eq(dsc, -1), eq(dsc, 0)
                            if not maxi:
                                less = and_(not_(less), not_(equal))
                            if w[0] == 'trk':
                                rw, rk = v.trk[w[1]][2], v.trk[k][2]
                                later = lt(rk, rw) if not rev else lt(rw, rk)
                                if not maxi:
                                    later = not_(later)
                            else:
                                # the winner's position among the others is not known
                                later = True
                                rw = e.int(Y, 'rk', None)
                                later = lt(v.trk[k][2], rw) if not rev else lt(rw, v.trk[k][2])
                                if not maxi:
                                    later = not_(later)
                                e.spec.note_rank(Y, wp, rw)
                            e.assume(Y, or_(less, and_(equal, later)))
                            if e.feas(Y):
                                nxt.append((Y, kw))
                states = nxt
            for T, kw in states:
                vv = cget(e, T, src)
                tag = ('trk', w[1]) if w[0] == 'trk' else ('oth', wp)
                pos_idx = idx if not posrev else e.sub(e.sub(vv.len, 1), idx)
                e.store(T, src, vv.with_(pos=((pos_idx, tag),)))
                if posrev:
                    pass
                T.H.pop(fn_, None)
                out.append((T, opt(e, dty, item(T, wp, idx))))
        return out
    return f


MODELS['std::iter::Iterator::max_by_key'] = _key_best(True)
MODELS['std::iter::Iterator::min_by_key'] = _key_best(False)


def _plain(m):
    """the loop over next() which the specialised method is documented to be (vharness::iter)"""
    def f(e, S, c, a, dty):
        it = a[0]
        if isinstance(it, P):
            it = e.load(S, it)
        if not isinstance(it, It) or it.ad:
            return NotImplemented
        r = e.srv.resolve('vharness::iter::' + m, [x['t'] for x in c['srcargs'] if 't' in x])
        if len(r) != 1:
            raise Unsupported('iter::' + m)
        return e.call(S, r[0]['inst'], a)
    return f


for _t in ('std::collections::vec_deque::IntoIter<T, A>', 'std::vec::IntoIter<T, A>', "std::collections::vec_deque::Iter<'a, T>", "std::slice::Iter<'a, T>",
           "std::collections::binary_heap::IntoIter<T, A>", "std::collections::binary_heap::Iter<'a, T>"):
    for _m in ('fold', 'for_each', 'all', 'any', 'find', 'find_map', 'count'):
        MODELS['<%s as std::iter::Iterator>::%s' % (_t, _m)] = _plain(_m)


@model('std::collections::VecDeque::<T, A>::remove')
def _(e, S, c, a, dty):
    v = cget(e, S, a[0])
    out = []
    for i, tag in v.pos:
        if eq(i, a[1]) is True or e.must(S, eq(i, a[1])):
            if tag[0] == 'trk':
                el = take(e, S, a[0], tag)
                return [(S, opt(e, dty, el))]
            el = e.load(S, tag[1])
            e.store(S, a[0], v.with_(len=add(v.len, -1)))
            return [(S, opt(e, dty, el))]
    # an index about which nothing is known: out of range, or any element
    for T, b in e.split(S, lt(a[1], v.len)):
        if not b:
            out.append((T, opt(e, dty)))
            continue
        for X, w in choose(e, T, a[0], 'any'):
            if w is not None:
                out.append((X, opt(e, dty, take(e, X, a[0], w))))
    return out


def _swap_remove(end):
    def f(e, S, c, a, dty):
        v0 = cget(e, S, a[0])
        out = []
        for T, r in MODELS['std::collections::VecDeque::<T, A>::remove'](e, S, c, a, dty):
            v = cget(e, T, a[0])
            if r.d == 0:
                out.append((T, r))
                continue
            gone = [k for k in v.trk if v0.trk.get(k, (False,))[0] is not False and v.trk[k][0] is False]
            rk = v0.trk[gone[0]][2] if gone else e.int(T, 'rk', None)
            before = lt if end == 'back' else (lambda x, y: lt(y, x))
            out.append((T.copy(), r))       # the element that moves is the removed one, or not a tracked one
            for k in [k for k in v.trk if v.trk[k][0] is not False]:
                X = T.copy()
                e.assume(X, v.trk[k][0])
                for j in v.trk:
                    if j != k and v.trk[j][0] is not False:
                        e.assume(X, or_(not_(v.trk[j][0]), before(v.trk[j][2], v.trk[k][2])))
                if gone:
                    e.assume(X, before(rk, v.trk[k][2]))
                if e.feas(X):
                    tk = dict(v.trk)
                    tk[k] = (True, v.trk[k][1], rk)
                    e.store(X, a[0], v.with_(trk=tk))
                    out.append((X, r))
        return out
    return f


MODELS['std::collections::VecDeque::<T, A>::swap_remove_back'] = _swap_remove('back')
MODELS['std::collections::VecDeque::<T, A>::swap_remove_front'] = _swap_remove('front')


@model('std::collections::VecDeque::<T, A>::retain', 'std::vec::Vec::<T, A>::retain', 'std::collections::VecDeque::<T, A>::retain_mut', 'std::vec::Vec::<T, A>::retain_mut')
def _(e, S, c, a, dty):
    fty = c['srcargs'][-1]['t']
    p = a[0]
    fn_ = e.alloc(S, a[1], fty)
    fp = P(('H', fn_))
    out = []
    for T in tracked_options(e, S, p):
        v = cget(e, T, p)
        states = [T]
        for k in [k for k in sorted(v.trk) if v.trk[k][0]]:
            nxt = []
            for X in states:
                for Y, r in e.call_closure(X, fty, fp, [elem_ptr(p, ('trk', k))], 'mut'):
                    for Z, b in e.split(Y, r):
                        if b:
                            nxt.append(Z)
                        else:
                            w = cget(e, Z, p)
                            el = w.trk[k][1]
                            e.store(Z, p, remove_trk(w, k))
                            nxt += e.drop_value(Z, v.ety, el)
            states = nxt
        for X in states:
            w = cget(e, X, p)
            nk = len([k for k in w.trk if w.trk[k][0]])
            # no others
            Y = X.copy()
            e.assume(Y, eq(w.len, nk))
            if e.feas(Y):
                out.append(Y)
            # others: an arbitrary one stands for all; any number of them may go
            Y = X.copy()
            e.assume(Y, cmp_('Ge', w.len, nk + 1))
            if e.feas(Y):
                for Z, el in e.spec.fresh_elem(Y, w):
                    n = e.alloc(Z, el, v.ety)
                    base = Z.copy()
                    fk = e.spec.frame_key(base, el)
                    for Q, r in e.call_closure(Z, fty, fp, [P(('H', n))], 'mut'):
                        for R, b in e.split(Q, r):
                            ends = [R]
                            if not b:
                                el2 = e.load(R, P(('H', n)))
                                ends = e.drop_value(R, v.ety, el2)
                            for F in ends:
                                if e.spec.frame_key(F, el) != fk:
                                    e.spec.frame_diff(base, F, el)
                                    raise Unsupported('retain: the closure changes shared state for an arbitrary element')
                                w2 = cget(e, F, p)
                                nl = e.int(F, 'len', nk)
                                e.assume(F, le(nl, w2.len))
                                if b:
                                    e.assume(F, cmp_('Ge', nl, nk + 1))
                                else:
                                    e.assume(F, lt(nl, w2.len))
                                e.store(F, p, w2.with_(len=nl))
                                F.H.pop(n, None)
                                out.append(F)
    for T in out:
        T.H.pop(fn_, None)
    return [(T, U) for T in out]


@model('futures_util::future::maybe_done')
def _(e, S, c, a, dty):
    return NotImplemented


@model('<T as std::convert::Into<U>>::into')
def _(e, S, c, a, dty):
    return NotImplemented


@model('std::any::type_name')
def _(e, S, c, a, dty):
    return [(S, Opq('str'))]
