//! Verification entry points: the most general client of xtra.  `nondet()` is read by the
//! verifier as an arbitrary value, so every function here stands for all its instances.
#![allow(unused, clippy::all)]
use std::future::Future;
use std::pin::Pin;
use std::task::{Context as Cx, Poll};
use xtra::prelude::*;
use xtra::refcount::{Either, Strong, Weak};
use xtra::*;

extern "Rust" {
    /// arbitrary boolean
    fn nondet() -> bool;
    /// the value the handler returns for this message (uninterpreted)
    fn handler_result(m: Msg) -> Ret;
    fn make_stop() -> StopVal;
    /// the handler gets this message (by value)
    fn handler_bcast(m: BMsg);
    /// destructors of the user's messages
    fn msg_dropped(id: u64);
    fn bmsg_dropped(id: u64);
    /// the client switches to another waker
    fn change_waker(cx: &mut Cx<'_>);
    /// the polled future returned Pending / a result (verifier events)
    fn ev_pending(cx: &mut Cx<'_>);
    fn ev_ready(what: u8, v: *const ());
    /// the client itself discards a value it owns / is done discarding
    fn ev_discard(begin: bool);
    fn ev_stop_self();
    /// a handler looks at the mailbox of its context
    fn ev_ctx(mb: *const Mailbox<Act>);
    /// a future of the user's returned Pending, having registered this waker
    fn user_pending(cx: &mut Cx<'_>);
    /// lifecycle: 1 started() called, 2 stopped() called, 3 handle() called for a unicast, 4 for a broadcast,
    /// 5 started() resolved Ok, 6 started() resolved Err
    fn ev_life(k: u8, id: u64);
}
/// an arbitrary message type: opaque payload, with a destructor
pub struct Msg(pub u64);
impl Drop for Msg {
    fn drop(&mut self) {
        unsafe { msg_dropped(self.0) }
    }
}
pub struct BMsg(pub u64);
impl Clone for BMsg {
    fn clone(&self) -> Self {
        BMsg(self.0)
    }
}
impl Drop for BMsg {
    fn drop(&mut self) {
        unsafe { bmsg_dropped(self.0) }
    }
}
pub struct Ret(pub u64);
pub struct StopVal(pub u64);
pub struct Act(pub u64);

/// the handler's future: may stay pending any number of times, may call `stop_self`
pub struct HandleFut<'a, M: Unpin>(&'a mut Context<Act>, Option<M>);
impl<'a> Future for HandleFut<'a, Msg> {
    type Output = Ret;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Ret> {
        unsafe { ev_ctx(self.0.mailbox()) }
        if unsafe { nondet() } {
            self.0.stop_self();
            unsafe { ev_stop_self() }
        }
        if unsafe { nondet() } {
            unsafe { user_pending(cx) }
            return Poll::Pending;
        }
        let m = self.1.take().unwrap();
        Poll::Ready(unsafe { handler_result(m) })
    }
}
impl<'a> Future for HandleFut<'a, BMsg> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        unsafe { ev_ctx(self.0.mailbox()) }
        if unsafe { nondet() } {
            self.0.stop_self();
            unsafe { ev_stop_self() }
        }
        if unsafe { nondet() } {
            unsafe { user_pending(cx) }
            return Poll::Pending;
        }
        let m = self.1.take().unwrap();
        unsafe { handler_bcast(m) }
        Poll::Ready(())
    }
}
pub struct StartFut(u8);
impl Future for StartFut {
    type Output = Result<(), StopVal>;
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        if unsafe { nondet() } {
            unsafe { user_pending(cx) }
            Poll::Pending
        } else if unsafe { nondet() } {
            unsafe { ev_life(5, 0) }
            Poll::Ready(Ok(()))
        } else {
            unsafe { ev_life(6, 0) }
            Poll::Ready(Err(unsafe { make_stop() }))
        }
    }
}
pub struct StopFut(u8);
impl Future for StopFut {
    type Output = StopVal;
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<StopVal> {
        if unsafe { nondet() } {
            unsafe { user_pending(cx) }
            Poll::Pending
        } else {
            Poll::Ready(unsafe { make_stop() })
        }
    }
}
pub struct UserFut(u8);
pub struct UserOut(pub u64);
extern "Rust" {
    fn user_out() -> UserOut;
}
impl Future for UserFut {
    type Output = UserOut;
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<UserOut> {
        if unsafe { nondet() } {
            unsafe { user_pending(cx) }
            Poll::Pending
        } else {
            Poll::Ready(unsafe { user_out() })
        }
    }
}

impl Actor for Act {
    type Stop = StopVal;
    fn started(
        &mut self,
        mailbox: &Mailbox<Self>,
    ) -> impl Future<Output = Result<(), Self::Stop>> + Send {
        unsafe { ev_life(1, 0) }
        StartFut(0)
    }
    fn stopped(self) -> impl Future<Output = StopVal> + Send {
        unsafe { ev_life(2, 0) }
        StopFut(0)
    }
}
impl Handler<Msg> for Act {
    type Return = Ret;
    fn handle(&mut self, m: Msg, ctx: &mut Context<Self>) -> impl Future<Output = Ret> + Send {
        unsafe { ev_life(3, m.0) }
        HandleFut(ctx, Some(m))
    }
}
impl Handler<BMsg> for Act {
    type Return = ();
    fn handle(&mut self, m: BMsg, ctx: &mut Context<Self>) -> impl Future<Output = ()> + Send {
        unsafe { ev_life(4, m.0) }
        HandleFut(ctx, Some(m))
    }
}

macro_rules! per_rc {
    ($m:ident, $rc:ty) => {
        pub mod $m {
            use super::*;
            type A = Address<Act, $rc>;
            pub fn send(a: &A, m: Msg) -> impl Future<Output = Result<Ret, Error>> { a.send(m) }
            pub fn send_prio(a: &A, m: Msg, p: u32) -> impl Future<Output = Result<Ret, Error>> { a.send(m).priority(p) }
            pub fn send_detach(a: &A, m: Msg) -> impl Future<Output = Result<Receiver<Ret>, Error>> { a.send(m).detach() }
            pub fn bcast(a: &A, m: BMsg) -> impl Future<Output = Result<(), Error>> { a.broadcast(m) }
            pub fn bcast_prio(a: &A, m: BMsg, p: u32) -> impl Future<Output = Result<(), Error>> { a.broadcast(m).priority(p) }
            pub fn is_connected(a: &A) -> bool { a.is_connected() }
            pub fn len(a: &A) -> usize { a.len() }
            pub fn is_empty(a: &A) -> bool { a.is_empty() }
            pub fn capacity(a: &A) -> Option<usize> { a.capacity() }
            pub fn join(a: &A) -> address::ActorJoinHandle { a.join() }
            pub fn clone(a: &A) -> A { a.clone() }
            pub fn drop(a: A) {}
            pub fn same_actor(a: &A, b: &A) -> bool { a.same_actor(b) }
            pub fn eq(a: &A, b: &A) -> bool { a == b }
            pub fn cmp(a: &A, b: &A) -> std::cmp::Ordering { Ord::cmp(a, b) }
            pub fn partial_cmp(a: &A, b: &A) -> Option<std::cmp::Ordering> { PartialOrd::partial_cmp(a, b) }
            pub fn eq_w(a: &A, b: &Address<Act, Weak>) -> bool { a == b }
            pub fn eq_s(a: &A, b: &Address<Act, Strong>) -> bool { a == b }
            pub fn eq_e(a: &A, b: &Address<Act, Either>) -> bool { a == b }
            pub fn pcmp_w(a: &A, b: &Address<Act, Weak>) -> Option<std::cmp::Ordering> { PartialOrd::partial_cmp(a, b) }
            pub fn pcmp_s(a: &A, b: &Address<Act, Strong>) -> Option<std::cmp::Ordering> { PartialOrd::partial_cmp(a, b) }
            pub fn pcmp_e(a: &A, b: &Address<Act, Either>) -> Option<std::cmp::Ordering> { PartialOrd::partial_cmp(a, b) }
            pub fn hash(a: &A, h: &mut H) { std::hash::Hash::hash(a, h) }
            pub fn mc_new(a: A) -> MessageChannel<Msg, Ret, $rc> { MessageChannel::new(a) }
        }
    };
}
pub struct H(u64);
extern "Rust" {
    fn h_write(h: &mut H, k: u8, v: u64);
    fn h_bytes(h: &mut H, v: &[u8]);
}
impl std::hash::Hasher for H {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { unsafe { h_bytes(self, b) } }
    fn write_usize(&mut self, v: usize) { unsafe { h_write(self, 1, v as u64) } }
    fn write_u8(&mut self, v: u8) { unsafe { h_write(self, 2, v as u64) } }
    fn write_u16(&mut self, v: u16) { unsafe { h_write(self, 3, v as u64) } }
    fn write_u32(&mut self, v: u32) { unsafe { h_write(self, 4, v as u64) } }
    fn write_u64(&mut self, v: u64) { unsafe { h_write(self, 5, v) } }
    fn write_isize(&mut self, v: isize) { unsafe { h_write(self, 1, v as u64) } }
}
per_rc!(strong, Strong);
per_rc!(weak, Weak);
per_rc!(either, Either);

pub mod conv {
    use super::*;
    pub fn downgrade_s(a: &Address<Act, Strong>) -> Address<Act, Weak> { a.downgrade() }
    pub fn downgrade_e(a: &Address<Act, Either>) -> Address<Act, Weak> { a.downgrade() }
    pub fn try_upgrade(a: &Address<Act, Weak>) -> Option<Address<Act, Strong>> { a.try_upgrade() }
    pub fn either_s(a: &Address<Act, Strong>) -> Address<Act, Either> { a.as_either() }
    pub fn either_w(a: &Address<Act, Weak>) -> Address<Act, Either> { a.as_either() }
    pub fn either_e(a: &Address<Act, Either>) -> Address<Act, Either> { a.as_either() }
}
pub mod mb {
    use super::*;
    pub fn bounded(n: usize) -> (Address<Act>, Mailbox<Act>) { Mailbox::bounded(n) }
    pub fn unbounded() -> (Address<Act>, Mailbox<Act>) { Mailbox::unbounded() }
    pub fn address(m: &Mailbox<Act>) -> Address<Act, Weak> { m.address() }
    pub fn clone(m: &Mailbox<Act>) -> Mailbox<Act> { m.clone() }
    pub fn drop(m: Mailbox<Act>) {}
    pub fn next(m: &Mailbox<Act>) -> impl Future { m.next() }
    pub fn dispatch<'a>(a: &'a mut Act, m: &Mailbox<Act>) -> impl Future + 'a {
        use futures_util::FutureExt;
        let x = m.next().now_or_never().unwrap();
        x.dispatch_to(a)
    }
}
pub mod ctx {
    use super::*;
    pub fn stop_self(c: &mut Context<Act>) { c.stop_self() }
    pub fn stop_all(c: &Context<Act>) { c.stop_all() }
    pub fn drop(c: Context<Act>) {}
}
pub mod lifecycle {
    use super::*;
    pub fn run(m: Mailbox<Act>, a: Act) -> impl Future<Output = StopVal> { xtra::run(m, a) }
    pub fn yield_once<'a>(m: &'a Mailbox<Act>, a: &'a mut Act) -> impl Future + 'a { xtra::yield_once(m, a) }
    pub fn select<'a>(m: &'a Mailbox<Act>, a: &'a mut Act, f: UserFut) -> impl Future + 'a { xtra::select(m, a, f) }
    pub fn join<'a>(m: &'a Mailbox<Act>, a: &'a mut Act, f: UserFut) -> impl Future + 'a { xtra::join(m, a, f) }
    pub fn scoped(a: &Address<Act>, f: UserFut) -> impl Future<Output = Option<UserOut>> { xtra::scoped(a, f) }
}

/// clients that poll a future any number of times, with any wakers, and drop it at any point
pub mod life {
    use super::*;
    pub fn drive<F: Future + ?Sized>(mut f: Pin<&mut F>, cx: &mut Cx<'_>) -> Option<F::Output> {
        loop {
            if unsafe { nondet() } {
                return None;
            }
            unsafe { change_waker(cx) }
            match f.as_mut().poll(cx) {
                Poll::Ready(v) => return Some(v),
                Poll::Pending => unsafe { ev_pending(cx) },
            }
        }
    }
    fn ready<T>(what: u8, v: &T) {
        unsafe { ev_ready(what, v as *const T as *const ()) }
    }
    fn discard<T>(v: T) {
        unsafe { ev_discard(true) }
        std::mem::drop(v);
        unsafe { ev_discard(false) }
    }
    /// poll until done or given up, report the result, drop everything
    pub fn go<F: Future>(what: u8, f: F, cx: &mut Cx<'_>) {
        let mut f = std::pin::pin!(f);
        if let Some(r) = drive(f.as_mut(), cx) {
            ready(what, &r);
            discard(r);
        }
    }
    macro_rules! lives {
        ($m:ident, $rc:ty) => {
            pub mod $m {
                use super::*;
                type A = Address<Act, $rc>;
                pub fn send(a: &A, m: Msg, cx: &mut Cx<'_>) { go(1, a.send(m), cx) }
                pub fn send_prio(a: &A, m: Msg, p: u32, cx: &mut Cx<'_>) { go(1, a.send(m).priority(p), cx) }
                pub fn send_detach(a: &A, m: Msg, cx: &mut Cx<'_>) {
                    let mut f = a.send(m).detach();
                    if let Some(r) = drive(Pin::new(&mut f), cx) {
                        ready(2, &r);
                        if let Ok(rx) = r {
                            go(3, rx, cx);
                        }
                    }
                }
                pub fn bcast(a: &A, m: BMsg, cx: &mut Cx<'_>) { go(4, a.broadcast(m), cx) }
                pub fn bcast_prio(a: &A, m: BMsg, p: u32, cx: &mut Cx<'_>) { go(4, a.broadcast(m).priority(p), cx) }
                pub fn join(a: &A, cx: &mut Cx<'_>) { go(5, a.join(), cx) }
                pub fn mc_send(a: A, m: Msg, cx: &mut Cx<'_>) {
                    let c = MessageChannel::<Msg, Ret, $rc>::new(a);
                    go(1, c.send(m), cx)
                }
                pub fn mc_send_prio(a: A, m: Msg, p: u32, cx: &mut Cx<'_>) {
                    let c = MessageChannel::<Msg, Ret, $rc>::new(a);
                    go(1, c.send(m).priority(p), cx)
                }
                pub fn mc_send_detach(a: A, m: Msg, cx: &mut Cx<'_>) {
                    let c = MessageChannel::<Msg, Ret, $rc>::new(a);
                    let mut f = c.send(m).detach();
                    if let Some(r) = drive(Pin::new(&mut f), cx) {
                        ready(2, &r);
                        if let Ok(rx) = r {
                            go(3, rx, cx);
                        }
                    }
                }
            }
        };
    }
    lives!(strong, Strong);
    lives!(weak, Weak);
    lives!(either, Either);

    /// receive; the mailbox handle may go away while the future is alive
    pub fn recv(mb: Mailbox<Act>, cx: &mut Cx<'_>) {
        let f = mb.next();
        if unsafe { nondet() } {
            drop(mb);
            go(6, f, cx);
        } else {
            go(6, f, cx);
        }
    }
    /// dispatch an arbitrary received message
    pub fn dispatch(mb: &Mailbox<Act>, act: &mut Act, cx: &mut Cx<'_>) {
        use futures_util::FutureExt;
        if let Some(m) = mb.next().now_or_never() {
            dispatch_one(m, |m| m.dispatch_to(act), cx)
        }
    }
    pub fn dispatch_one<M, F: Future>(m: M, f: impl FnOnce(M) -> F, cx: &mut Cx<'_>) {
        ready(7, &m);
        if unsafe { nondet() } {
            return discard(m);
        }
        go(8, f(m), cx)
    }
    pub fn run(mb: Mailbox<Act>, act: Act, cx: &mut Cx<'_>) { go(9, xtra::run(mb, act), cx) }
    pub fn yield_once(mb: &Mailbox<Act>, act: &mut Act, cx: &mut Cx<'_>) { go(10, xtra::yield_once(mb, act), cx) }
    pub fn select(mb: &Mailbox<Act>, act: &mut Act, f: UserFut, cx: &mut Cx<'_>) { go(11, xtra::select(mb, act, f), cx) }
    pub fn join(mb: &Mailbox<Act>, act: &mut Act, f: UserFut, cx: &mut Cx<'_>) { go(12, xtra::join(mb, act, f), cx) }
    pub fn scoped(a: &Address<Act>, f: UserFut, cx: &mut Cx<'_>) { go(13, xtra::scoped(a, f), cx) }
    pub fn scoped_weak(a: &Address<Act, Weak>, f: UserFut, cx: &mut Cx<'_>) { go(13, xtra::scoped(a, f), cx) }
}

/// laws stated as postconditions of client code: `vassert(clause, condition)` is an obligation
pub mod laws {
    use super::*;
    use std::cmp::Ordering;
    use std::hash::{Hash, Hasher};
    extern "Rust" {
        fn vassert(clause: u16, c: bool);
        /// ground truth about (the address or message channel behind) these pointers
        fn truth_same(a: *const (), b: *const ()) -> bool;
        fn truth_strong(a: *const ()) -> bool;
        fn hash_same(a: &H, b: &H) -> bool;
        fn new_hasher() -> H;
        /// what the last critical section found
        fn found_unicast() -> usize;
        fn found_tail() -> usize;
        fn found_queue() -> usize;
        fn found_cap(c: Option<usize>) -> bool;
        /// a connectedness query gave this answer
        fn ev_conn(strong: bool, r: bool);
        fn ev_upgrade(some: bool);
    }
    fn p<T>(x: &T) -> *const () {
        x as *const T as *const ()
    }
    fn num(x: Option<Ordering>) -> i8 {
        match x {
            Some(Ordering::Less) => -1,
            Some(Ordering::Equal) => 0,
            Some(Ordering::Greater) => 1,
            None => 100,
        }
    }
    fn va(k: u16, c: bool) {
        unsafe { vassert(k, c) }
    }
    macro_rules! pair {
        ($m:ident, $a:ty, $b:ty) => {
            pub mod $m {
                use super::*;
                pub fn eq_ord(a: &Address<Act, $a>, b: &Address<Act, $b>) {
                    let (same, sa, sb) = unsafe { (truth_same(p(a), p(b)), truth_strong(p(a)), truth_strong(p(b))) };
                    let e = same && sa == sb;
                    va(2101, (a == b) == e);
                    va(2101, (b == a) == e);
                    va(2102, a.same_actor(b) == same);
                    let (x, y) = (a.partial_cmp(b), b.partial_cmp(a));
                    va(2103, x.is_some() && y.is_some());
                    va(2103, matches!(x, Some(Ordering::Equal)) == e);
                    va(2104, num(x) == -num(y));
                }
                pub fn hash(a: &Address<Act, $a>, b: &Address<Act, $b>) {
                    let e = unsafe { truth_same(p(a), p(b)) && truth_strong(p(a)) == truth_strong(p(b)) };
                    let (mut h, mut k) = unsafe { (new_hasher(), new_hasher()) };
                    a.hash(&mut h);
                    b.hash(&mut k);
                    va(2105, !e || unsafe { hash_same(&h, &k) });
                }
                pub fn mc_same(a: Address<Act, $a>, b: Address<Act, $b>) {
                    let same = unsafe { truth_same(p(&a), p(&b)) };
                    let (a, b) = (MessageChannel::<Msg, Ret, $a>::new(a), MessageChannel::<Msg, Ret, $b>::new(b));
                    va(2301, a.same_actor(&b) == same);
                    std::mem::forget((a, b));
                }
            }
        };
    }
    pair!(ss, Strong, Strong);
    pair!(sw, Strong, Weak);
    pair!(se, Strong, Either);
    pair!(ww, Weak, Weak);
    pair!(we, Weak, Either);
    pair!(ee, Either, Either);
    macro_rules! one {
        ($m:ident, $rc:ty) => {
            pub mod $m {
                use super::*;
                type A = Address<Act, $rc>;
                type M = MessageChannel<Msg, Ret, $rc>;
                pub fn cmp(a: &A, b: &A) {
                    let o = a.cmp(b);
                    va(2106, num(Some(o)) == num(a.partial_cmp(b)));
                    va(2106, num(Some(o)) == -num(Some(b.cmp(a))));
                    va(2106, matches!(o, Ordering::Equal) == (a == b));
                }
                pub fn trans(a: &A, b: &A, c: &A) {
                    if !matches!(a.cmp(b), Ordering::Greater) && !matches!(b.cmp(c), Ordering::Greater) {
                        va(2107, !matches!(a.cmp(c), Ordering::Greater));
                    }
                }
                pub fn conn(a: &A) {
                    let r = a.is_connected();
                    unsafe { ev_conn(truth_strong(p(a)), r) }
                }
                pub fn len(a: &A) {
                    let n = a.len();
                    va(2201, n >= unsafe { found_unicast() });
                    va(2202, n >= unsafe { found_queue() });
                    va(2203, n <= unsafe { found_unicast() + found_tail() });
                }
                pub fn is_empty(a: &A) {
                    let e = a.is_empty();
                    va(2204, e == unsafe { found_unicast() + found_tail() == 0 });
                }
                pub fn capacity(a: &A) {
                    let c = a.capacity();
                    va(2205, unsafe { found_cap(c) });
                }
                pub fn clone(a: &A) {
                    let b = a.clone();
                    va(1401, unsafe { truth_same(p(a), p(&b)) && truth_strong(p(a)) == truth_strong(p(&b)) });
                }
                pub fn as_either(a: &A) {
                    let b = a.as_either();
                    va(1401, unsafe { truth_same(p(a), p(&b)) && truth_strong(p(a)) == truth_strong(p(&b)) });
                }
                pub fn mc_eq(a: A, b: A) {
                    let e = unsafe { truth_same(p(&a), p(&b)) && truth_strong(p(&a)) == truth_strong(p(&b)) };
                    let (a, b) = (M::new(a), M::new(b));
                    va(2302, (a == b) == e);
                    std::mem::forget((a, b));
                }
                pub fn mc_hash(a: A, b: A) {
                    let e = unsafe { truth_same(p(&a), p(&b)) && truth_strong(p(&a)) == truth_strong(p(&b)) };
                    let (a, b) = (M::new(a), M::new(b));
                    let (mut h, mut k) = unsafe { (new_hasher(), new_hasher()) };
                    a.hash(&mut h);
                    b.hash(&mut k);
                    va(2303, !e || unsafe { hash_same(&h, &k) });
                    std::mem::forget((a, b));
                }
                pub fn mc_clone(a: A) {
                    let m = M::new(a);
                    let n = m.clone();
                    va(2304, n.same_actor(&m));
                    va(2304, n == m);
                }
                pub fn mc_either(a: A) {
                    let s = unsafe { truth_strong(p(&a)) };
                    let m = M::new(a);
                    let n = m.as_either();
                    va(2305, n.same_actor(&m));
                    let k = n.clone();
                    va(2305, k == n);
                }
                pub fn mc_conn(a: A) {
                    let s = unsafe { truth_strong(p(&a)) };
                    let m = M::new(a);
                    let r = m.is_connected();
                    unsafe { ev_conn(s, r) }
                    std::mem::forget(m);
                }
                pub fn mc_len(a: A) {
                    let m = M::new(a);
                    let n = m.len();
                    va(2306, n >= unsafe { found_unicast() } && n >= unsafe { found_queue() } && n <= unsafe { found_unicast() + found_tail() });
                    std::mem::forget(m);
                }
                pub fn mc_is_empty(a: A) {
                    let m = M::new(a);
                    let n = m.is_empty();
                    va(2306, n == unsafe { found_unicast() + found_tail() == 0 });
                    std::mem::forget(m);
                }
                pub fn mc_capacity(a: A) {
                    let m = M::new(a);
                    va(2307, unsafe { found_cap(m.capacity()) });
                    std::mem::forget(m);
                }
                pub fn mc_drop(a: A) {
                    drop(M::new(a));
                }
                pub fn mc_join(a: A, cx: &mut Cx<'_>) {
                    let m = M::new(a);
                    super::super::life::go(5, m.join(), cx);
                }
            }
        };
    }
    one!(strong, Strong);
    one!(weak, Weak);
    one!(either, Either);
    pub fn downgrade_s(a: &Address<Act, Strong>) {
        let b = a.downgrade();
        va(1402, unsafe { truth_same(p(a), p(&b)) && !truth_strong(p(&b)) });
    }
    pub fn downgrade_e(a: &Address<Act, Either>) {
        let b = a.downgrade();
        va(1402, unsafe { truth_same(p(a), p(&b)) && !truth_strong(p(&b)) });
    }
    pub fn upgrade(a: &Address<Act, Weak>) {
        let b = a.try_upgrade();
        unsafe { ev_upgrade(b.is_some()) }
        if let Some(b) = b {
            va(1403, unsafe { truth_same(p(a), p(&b)) && truth_strong(p(&b)) });
        }
    }
    pub fn mailbox_address(m: &Mailbox<Act>) {
        let b = m.address();
        va(1404, unsafe { !truth_strong(p(&b)) });
    }
    pub fn mc_downgrade_s(a: Address<Act, Strong>) {
        let m = MessageChannel::<Msg, Ret, Strong>::new(a);
        let n = m.downgrade();
        va(2308, n.same_actor(&m));
        drop(m);
        let k = n.clone();
        va(2308, k == n);
    }
    pub fn mc_downgrade_e(a: Address<Act, Either>) {
        let m = MessageChannel::<Msg, Ret, Either>::new(a);
        let n = m.downgrade();
        va(2308, n.same_actor(&m));
        drop(m);
        let k = n.clone();
        va(2308, k == n);
    }
}

/// Plain loops standing in for what std specialises with raw pointers: `fold` of a slice iterator is, by its
/// documentation, the same as a loop over `next`.
pub mod iter {
    pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(it: I, init: B, f: F) -> B {
        let (mut it, mut f, mut acc) = (it, f, init);
        while let Some(x) = it.next() {
            acc = f(acc, x);
        }
        acc
    }
    pub fn for_each<I: Iterator, F: FnMut(I::Item)>(it: I, f: F) {
        let (mut it, mut f) = (it, f);
        while let Some(x) = it.next() {
            f(x);
        }
    }
    pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, f: F) -> bool {
        let mut f = f;
        while let Some(x) = it.next() {
            if !f(x) {
                return false;
            }
        }
        true
    }
    pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, f: F) -> bool {
        let mut f = f;
        while let Some(x) = it.next() {
            if f(x) {
                return true;
            }
        }
        false
    }
    pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, f: F) -> Option<I::Item> {
        let mut f = f;
        while let Some(x) = it.next() {
            if f(&x) {
                return Some(x);
            }
        }
        None
    }
    pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, f: F) -> Option<B> {
        let mut f = f;
        while let Some(x) = it.next() {
            if let Some(b) = f(x) {
                return Some(b);
            }
        }
        None
    }
    pub fn count<I: Iterator>(it: I) -> usize {
        let (mut it, mut n) = (it, 0);
        while let Some(_) = it.next() {
            n += 1;
        }
        n
    }
}
