//! Fixed scenarios: what the random histories do not reach (whole actors, select and join, equality, races of
//! two threads), and the known findings.
use crate::world::{flag, poll, Flag, Rng};
use futures_util::future::Either as Fe;
use std::collections::hash_map::DefaultHasher;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use std::task::Poll;
use std::time::{Duration, Instant};
use xtra::prelude::*;
use xtra::refcount::{RefCounter, Strong};
use xtra::{Error, WeakAddress};

pub type R = Result<(), String>;
pub type Case = (&'static str, &'static str, fn() -> R);

#[derive(Clone, Default)]
struct Log(Arc<Mutex<Vec<String>>>);
impl Log {
    fn add(&self, s: impl Into<String>) {
        self.0.lock().unwrap().push(s.into())
    }
    fn get(&self) -> Vec<String> {
        self.0.lock().unwrap().clone()
    }
}
#[derive(Default)]
struct A {
    log: Log,
    fail: bool,
    pend: usize,
}
impl Actor for A {
    type Stop = String;
    async fn started(&mut self, _: &Mailbox<Self>) -> Result<(), String> {
        self.log.add("started");
        for _ in 0..self.pend {
            once().await;
        }
        if self.fail { Err("failed".into()) } else { Ok(()) }
    }
    async fn stopped(self) -> String {
        self.log.add("stopped");
        "stopped".into()
    }
}
/// pending once, then ready
async fn once() {
    let mut n = 0;
    std::future::poll_fn(move |cx| {
        n += 1;
        if n > 1 { Poll::Ready(()) } else { cx.waker().wake_by_ref(); Poll::Pending }
    })
    .await
}
struct M(u32);
impl Handler<M> for A {
    type Return = u32;
    async fn handle(&mut self, m: M, _: &mut Context<Self>) -> u32 {
        self.log.add(format!("begin{}", m.0));
        for _ in 0..self.pend {
            once().await;
        }
        self.log.add(format!("end{}", m.0));
        m.0 + 1000
    }
}
#[derive(Clone)]
struct B(u32);
impl Handler<B> for A {
    type Return = ();
    async fn handle(&mut self, m: B, _: &mut Context<Self>) {
        self.log.add(format!("begin{}", m.0));
        for _ in 0..self.pend {
            once().await;
        }
        self.log.add(format!("end{}", m.0));
    }
}
struct Stop(bool);
impl Handler<Stop> for A {
    type Return = ();
    async fn handle(&mut self, s: Stop, c: &mut Context<Self>) {
        self.log.add("stop");
        if s.0 { c.stop_all() } else { c.stop_self() }
    }
}
struct Owner(Option<Address<A>>, WeakAddress<A>);
impl Drop for Owner {
    fn drop(&mut self) {
        let _ = self.1.len();
        drop(self.0.take());
    }
}
impl Handler<Owner> for A {
    type Return = ();
    async fn handle(&mut self, _: Owner, _: &mut Context<Self>) {}
}
/// drive a future that wakes itself; None if it sleeps
fn drive<F: Future + ?Sized>(mut f: Pin<&mut F>) -> Option<F::Output> {
    let w = flag();
    for _ in 0..10_000 {
        if let Poll::Ready(x) = poll(f.as_mut(), &w) {
            return Some(x);
        }
        if !w.take() {
            return None;
        }
    }
    None
}
fn go<F: Future>(f: F) -> Option<F::Output> {
    drive(Box::pin(f).as_mut())
}
fn spin<F: Future + ?Sized>(mut f: Pin<&mut F>, ms: u64) -> Option<F::Output> {
    let w = flag();
    let t = Instant::now();
    w.set();
    loop {
        if w.take() {
            if let Poll::Ready(x) = poll(f.as_mut(), &w) {
                return Some(x);
            }
        }
        if t.elapsed() > Duration::from_millis(ms) {
            return None;
        }
        std::hint::spin_loop();
    }
}
fn check(c: bool, s: impl Into<String>) -> R {
    if c { Ok(()) } else { Err(s.into()) }
}
fn within(s: u64, what: &str, f: impl FnOnce() -> R + Send + 'static) -> R {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| Err("panic".into()));
        let _ = tx.send(r);
    });
    rx.recv_timeout(Duration::from_secs(s)).unwrap_or_else(|_| Err(format!("{what}: never returns")))
}

fn runs() -> R {
    for pend in 0..3 {
        for fail in [false, true] {
            for bits in 0..8u32 {
                let (a, m) = Mailbox::unbounded();
                let log = Log::default();
                let act = A { log: log.clone(), fail, pend };
                let mut want = vec!["started".to_string()];
                let mut open = !fail;
                for i in 0..4u32 {
                    if bits & 1 << i != 0 && i == 2 {
                        let _ = go(a.send(Stop(bits & 1 != 0)).detach());
                        if open {
                            want.push("stop".into());
                        }
                        open = false;
                    } else if i % 2 == 0 {
                        let _ = go(a.send(M(i)).detach());
                        if open {
                            want.push(format!("begin{i}"));
                            want.push(format!("end{i}"));
                        }
                    } else {
                        let _ = go(a.broadcast(B(i)).priority(0));
                    }
                }
                drop(a);
                let r = go(xtra::run(m, act));
                if !fail {
                    want.push("stopped".into());
                }
                let got: Vec<String> = log.get();
                let r = r.ok_or("run never ends")?;
                check(r == if fail { "failed" } else { "stopped" }, format!("run returns {r} (started failed: {fail})"))?;
                let mut g = got.clone();
                g.retain(|x| !x.ends_with('1') && !x.ends_with('3'));
                check(g == want, format!("run calls {got:?}, expected {want:?} (and broadcasts)"))?;
                let b: Vec<_> = got.iter().filter(|x| x.starts_with("begin") || x.starts_with("end")).collect();
                for p in b.chunks(2) {
                    check(p.len() == 2 && p[0][5..] == p[1][3..], format!("handlers overlap: {got:?}"))?;
                }
            }
        }
    }
    Ok(())
}
fn selects() -> R {
    for pend in 0..3usize {
        for polls in 0..4u32 {
            for n in 0..3u32 {
                for stop in [None, Some(false), Some(true)] {
                    for join in [false, true] {
                        let (a, m) = Mailbox::unbounded();
                        let log = Log::default();
                        let mut act = A { log: log.clone(), fail: false, pend };
                        let rs: Vec<_> = (0..n).map(|i| go(a.send(M(i)).detach()).unwrap().unwrap()).collect();
                        if let Some(s) = stop {
                            let _ = go(a.send(Stop(s)).detach());
                        }
                        let mut k = 0;
                        let fut = Box::pin(std::future::poll_fn(move |cx| {
                            k += 1;
                            if k > polls { Poll::Ready(77u32) } else { cx.waker().wake_by_ref(); Poll::Pending }
                        }));
                        let d = format!("{} with {n} messages, stop {stop:?}, a future that needs {polls} polls", if join { "join" } else { "select" });
                        if join {
                            let r = go(xtra::join(&m, &mut act, fut));
                            check(r == Some(77), format!("{d}: {r:?}"))?;
                        } else {
                            match go(xtra::select(&m, &mut act, fut)) {
                                None => return Err(format!("{d}: never ends")),
                                Some(Fe::Left(x)) => check(x == 77, format!("{d}: {x}"))?,
                                Some(Fe::Right(f)) => {
                                    check(stop.is_some(), format!("{d}: gives the future back"))?;
                                    check(go(f) == Some(77), format!("{d}: the future given back is not the one given"))?;
                                }
                            }
                        }
                        // nothing was lost
                        for _ in 0..8 {
                            if let Some(()) = go(async { let _ = xtra::yield_once(&m, &mut act).await; }) {}
                        }
                        for (i, r) in rs.into_iter().enumerate() {
                            let x = go(r);
                            check(x == Some(Ok(i as u32 + 1000)), format!("{d}: the reply to message {i} is {x:?}"))?;
                        }
                        let g = log.get();
                        for i in 0..n {
                            check(g.iter().filter(|x| **x == format!("begin{i}")).count() == 1, format!("{d}: {g:?}"))?;
                        }
                    }
                }
            }
        }
    }
    // a message that arrives while the future is polled
    let (a, m) = Mailbox::unbounded();
    let log = Log::default();
    let mut act = A { log: log.clone(), ..Default::default() };
    let sent: Arc<Mutex<Option<xtra::Receiver<u32>>>> = Default::default();
    let s2 = sent.clone();
    let mut k = 0;
    let fut = Box::pin(std::future::poll_fn(move |cx| {
        k += 1;
        if k == 3 {
            *s2.lock().unwrap() = go(a.send(M(5)).detach()).unwrap().ok();
            return Poll::Ready(9);
        }
        cx.waker().wake_by_ref();
        Poll::Pending
    }));
    let r = go(xtra::select(&m, &mut act, fut));
    check(matches!(r, Some(Fe::Left(9))), "select loses the output of the future")?;
    let _ = go(xtra::yield_once(&m, &mut act));
    let r = go(sent.lock().unwrap().take().ok_or("not sent")?);
    check(r == Some(Ok(1005)), format!("the message that arrives with the output: {r:?}"))
}
fn dispatches() -> R {
    for pend in 0..4 {
        for kind in 0..4 {
            let (a, m) = Mailbox::unbounded();
            let log = Log::default();
            let mut act = A { log: log.clone(), fail: false, pend };
            let rep = match kind {
                0 => Some(go(a.send(M(1)).detach()).unwrap().unwrap()),
                1 => { let _ = go(a.broadcast(B(1))); None }
                2 => { let _ = go(a.send(Stop(false)).detach()); None }
                _ => { let _ = go(a.send(Stop(true)).detach()); None }
            };
            let f = go(xtra::yield_once(&m, &mut act)).ok_or("the dispatch never ends")?;
            check(f.is_break() == (kind == 2), format!("kind {kind}: {f:?}"))?;
            let g = log.get();
            let n = g.iter().filter(|x| *x == "begin1" || *x == "stop").count();
            check(n == 1, format!("one message, handlers called: {g:?}"))?;
            if let Some(r) = rep {
                let x = go(r);
                check(x == Some(Ok(1001)), format!("reply {x:?}"))?;
            }
            if kind == 3 {
                let f = go(xtra::yield_once(&m, &mut act)).ok_or("stop_all tells nobody")?;
                check(f.is_break(), "stop_all does not stop")?;
            }
        }
    }
    Ok(())
}
fn stops() -> R {
    for cap in [None, Some(1), Some(2)] {
        for n in 0..3usize {
            for p in [0, 5, u32::MAX] {
                let (a, m) = match cap { None => Mailbox::unbounded(), Some(c) => Mailbox::bounded(c) };
                let ms: Vec<Mailbox<A>> = (0..3).map(|_| m.clone()).collect();
                let mut act = A::default();
                let _ = go(a.send(Stop(true)).priority(u32::MAX).detach());
                let mut pend = vec![];
                for i in 0..n as u32 {
                    let mut f = Box::pin(a.broadcast(B(i)).priority(p));
                    let _ = poll(f.as_mut(), &flag());
                    pend.push(f);
                }
                let r = loop {
                    let before = act.log.get().len();
                    let r = go(xtra::yield_once(&m, &mut act)).ok_or("sleeps")?;
                    if act.log.get()[before..].contains(&"stop".to_string()) { break r }
                };
                check(r.is_continue(), "the caller of stop_all is stopped at once")?;
                for (i, x) in ms.iter().chain([&m]).enumerate() {
                    let before = act.log.get().len();
                    let r = go(xtra::yield_once(x, &mut act)).ok_or(format!("mailbox {i} is not told to stop"))?;
                    check(r.is_break() && act.log.get().len() == before, format!("mailbox {i} does something else first (capacity {cap:?}, {n} broadcasts of priority {p})"))?;
                }
            }
        }
    }
    Ok(())
}
fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
fn laws<X: RefCounter, Y: RefCounter>(a: &Address<A, X>, b: &Address<A, Y>, same: bool, strength: bool, n: &str) -> R {
    check(a.same_actor(b) == same, format!("same_actor: {n}"))?;
    check((a == b) == (same && strength), format!("eq: {n}"))?;
    let o = a.partial_cmp(b);
    check((o == Some(std::cmp::Ordering::Equal)) == (a == b), format!("partial_cmp {o:?}: {n}"))?;
    check(b.partial_cmp(a) == o.map(|x| x.reverse()), format!("partial_cmp is not antisymmetric: {n}"))?;
    check(a != b || h(a) == h(b), format!("equal addresses hash differently: {n}"))
}
fn compares() -> R {
    for _ in 0..20 {
        let (a, _m) = Mailbox::<A>::unbounded();
        let (b, _n) = Mailbox::<A>::unbounded();
        for (x, y, same) in [(&a, &a.clone(), true), (&a, &b, false), (&b, &a, false)] {
            let (xw, yw) = (x.downgrade(), y.downgrade());
            let xe = [(x.as_either(), true), (xw.as_either(), false)];
            let ye = [(y.as_either(), true), (yw.as_either(), false)];
            laws(x, y, same, true, "strong, strong")?;
            laws(x, &yw, same, false, "strong, weak")?;
            laws(&xw, &yw, same, true, "weak, weak")?;
            for (e, s) in &ye {
                laws(x, e, same, *s, "strong, either")?;
                laws(&xw, e, same, !*s, "weak, either")?;
                for (f, t) in &xe {
                    laws(f, e, same, s == t, "either, either")?;
                    check(Some(f.cmp(e)) == f.partial_cmp(e), "cmp and partial_cmp of either, either")?;
                }
            }
            check(Some(x.cmp(y)) == x.partial_cmp(y) && Some(xw.cmp(&yw)) == xw.partial_cmp(&yw), "cmp and partial_cmp")?;
        }
        let c: MessageChannel<M, u32> = MessageChannel::new(a.clone());
        let d: MessageChannel<M, u32> = MessageChannel::new(b.clone());
        let cs = [(c.as_either(), 0, 1), (c.downgrade().as_either(), 0, 0), (d.as_either(), 1, 1), (d.downgrade().as_either(), 1, 0)];
        for x in &cs {
            for y in &cs {
                check(x.0.same_actor(&y.0) == (x.1 == y.1), "same_actor of channels")?;
                check((x.0 == y.0) == (x.1 == y.1 && x.2 == y.2), "eq of channels")?;
                check(x.0 != y.0 || h(&x.0) == h(&y.0), "hash of channels")?;
            }
        }
    }
    Ok(())
}
fn channels() -> R {
    for det in [false, true] {
        let (a, m) = Mailbox::<A>::unbounded();
        let c: MessageChannel<M, u32> = MessageChannel::new(a.clone());
        let mut act = A::default();
        let mut fs: Vec<Pin<Box<dyn Future<Output = ()>>>> = vec![];
        for (i, p) in [3u32, 1, 1 << 24, 0, u32::MAX, 70_000].iter().enumerate() {
            let s = c.send(M(i as u32)).priority(*p);
            let mut f: Pin<Box<dyn Future<Output = ()>>> = if det { Box::pin(async { let _ = s.detach().await; }) } else { Box::pin(async { let _ = s.await; }) };
            let _ = poll(f.as_mut(), &flag());
            fs.push(f);
        }
        check(a.len() == 6 && c.len() == 6 && !c.is_empty(), "len of a channel")?;
        for _ in 0..6 {
            let _ = go(xtra::yield_once(&m, &mut act));
        }
        let g: Vec<String> = act.log.get().into_iter().filter(|x| x.starts_with("begin")).collect();
        check(g == ["begin4", "begin2", "begin5", "begin0", "begin1", "begin3"], format!("order through a channel: {g:?}"))?;
    }
    let (a, m) = Mailbox::<A>::bounded(3);
    let c: MessageChannel<M, u32> = MessageChannel::new(a.clone());
    let w = c.downgrade();
    check(c.capacity() == Some(3) && c.is_connected() && w.is_connected() && c.same_actor(&w), "a fresh channel")?;
    drop(a);
    check(c.is_connected() && w.is_connected(), "a channel made of a strong address is strong")?;
    let e = c.as_either();
    let mut j = Box::pin(e.join());
    check(poll(j.as_mut(), &flag()).is_pending(), "join of a channel")?;
    drop((c, e));
    check(!w.is_connected(), "a weak channel keeps the actor")?;
    let r = go(w.send(M(1)));
    check(r == Some(Err(Error::Disconnected)), format!("{r:?}"))?;
    drop(m);
    check(poll(j.as_mut(), &flag()).is_ready(), "join of a channel sleeps")
}
fn scopes() -> R {
    let (a, m) = Mailbox::<A>::unbounded();
    for n in 0..3 {
        let mut k = 0;
        let r = go(xtra::scoped(&a, std::future::poll_fn(move |cx| { k += 1; if k > n { Poll::Ready(k) } else { cx.waker().wake_by_ref(); Poll::Pending } })));
        check(r == Some(Some(n + 1)), format!("a scoped task yields {r:?}"))?;
    }
    let f = flag();
    let mut s = Box::pin(xtra::scoped(&a, std::future::pending::<()>()));
    let mut js: Vec<_> = (0..5).map(|_| (Box::pin(a.join()), flag())).collect();
    check(poll(s.as_mut(), &f).is_pending(), "a scoped task ends")?;
    for (j, w) in &mut js {
        check(poll(j.as_mut(), w).is_pending(), "a join handle ends")?;
    }
    let m2 = m.clone();
    drop(m);
    for (j, w) in &mut js {
        check(!w.get() || poll(j.as_mut(), w).is_pending(), "a join handle ends while there is a mailbox")?;
    }
    drop(m2);
    check(f.get() && poll(s.as_mut(), &f) == Poll::Ready(None), "a scoped task outlives its actor")?;
    for (j, w) in &mut js {
        check(w.get() && poll(j.as_mut(), w).is_ready(), "a join handle sleeps through the end of the actor")?;
    }
    let mut s = Box::pin(xtra::scoped(&a, async { 1 }));
    check(poll(s.as_mut(), &f) == Poll::Ready(None), "a scoped task of a dead actor runs")?;
    check(go(a.join()).is_some(), "a join handle of a dead actor waits")
}
/// two threads, started at the same moment again and again, with varied delays
fn race<X: Send + 'static, Y>(ms: u64, mut make: impl FnMut() -> (X, Y), other: fn(X), mut mine: impl FnMut(&mut Y), mut judge: impl FnMut(Y) -> R) -> R {
    let slot: Arc<Mutex<Option<X>>> = Default::default();
    let state = Arc::new(AtomicUsize::new(0)); // 0 idle, 1 armed, 2 ready, 3 go, 4 done, 9 stop
    let delay = Arc::new(AtomicUsize::new(0));
    let (s2, st2, d2) = (slot.clone(), state.clone(), delay.clone());
    let th = std::thread::spawn(move || loop {
        match st2.load(SeqCst) {
            1 => {
                let x = s2.lock().unwrap().take().unwrap();
                let d = d2.load(SeqCst);
                st2.store(2, SeqCst);
                while st2.load(SeqCst) == 2 {
                    std::hint::spin_loop();
                }
                for _ in 0..d {
                    std::hint::spin_loop();
                }
                other(x);
                st2.store(4, SeqCst);
            }
            9 => return,
            _ => std::hint::spin_loop(),
        }
    });
    let t = Instant::now();
    let mut r = Rng::new(5);
    let mut out = Ok(());
    while t.elapsed() < Duration::from_millis(ms) && out.is_ok() {
        let (x, mut y) = make();
        *slot.lock().unwrap() = Some(x);
        delay.store(r.below(60), SeqCst);
        let d = r.below(60);
        state.store(1, SeqCst);
        while state.load(SeqCst) != 2 {
            std::hint::spin_loop();
        }
        state.store(3, SeqCst);
        for _ in 0..d {
            std::hint::spin_loop();
        }
        mine(&mut y);
        while state.load(SeqCst) != 4 {
            std::hint::spin_loop();
        }
        state.store(0, SeqCst);
        out = judge(y);
    }
    state.store(9, SeqCst);
    let _ = th.join();
    out
}
fn join_race() -> R {
    race(3000, || { let (a, m) = Mailbox::<A>::unbounded(); (m, (a, None)) }, drop::<Mailbox<A>>,
        |y| y.1 = Some(Box::pin(y.0.join())),
        |mut y| check(spin(y.1.take().unwrap().as_mut(), 2000).is_some(), "a join handle made while the last mailbox is dropped never ends"))
}
fn strand_race() -> R {
    race(4000, || { let (a, m) = Mailbox::<A>::unbounded(); (m, (Box::pin(a.send(M(1))), flag(), None)) }, drop::<Mailbox<A>>,
        |y| { let r = poll(y.0.as_mut(), &y.1); y.2 = Some(r); },
        |mut y| match y.2.take() {
            Some(Poll::Ready(_)) => Ok(()),
            _ => check(y.1.get() && poll(y.0.as_mut(), &y.1).is_ready(), "a send that races with the drop of the last mailbox never resolves"),
        })
}
fn cancel_race() -> R {
    race(4000, || {
        let (a, m) = Mailbox::<A>::unbounded();
        let mut rf: Pin<Box<dyn Future<Output = ()> + Send>> = Box::pin({ let f = m.next(); async move { drop(f.await) } });
        let _ = poll(rf.as_mut(), &flag());
        (rf, (a, m, None))
    }, drop::<Pin<Box<dyn Future<Output = ()> + Send>>>,
        |y| y.2 = go(y.0.send(M(1)).detach()),
        |y| {
            let rep = y.2.ok_or("the send waits")?.map_err(|e| format!("{e:?}"))?;
            let mut act = A::default();
            let _ = go(xtra::yield_once(&y.1, &mut act));
            let r = go(rep);
            check(r == Some(Ok(1001)), format!("a message sent while a receive is cancelled is lost: {r:?}"))
        })
}
fn upgrade_race() -> R {
    race(6000, || {
        let (a, m) = Mailbox::<A>::unbounded();
        let w = a.downgrade();
        let mut rf = Box::pin(m.next());
        let f = flag();
        let _ = poll(rf.as_mut(), &f);
        (a, (w, m, rf, f, None))
    }, drop::<Address<A>>,
        |y| y.4 = y.0.try_upgrade(),
        |y| {
            check(y.4.is_some() == y.0.is_connected(), "an address upgraded while the last strong one is dropped is not counted")?;
            if y.4.is_some() {
                check(!y.3.get(), "the mailbox is told that no strong address is left, and try_upgrade gives one")?;
            }
            Ok(())
        })
}
/// the mailbox of the context of a handler is the mailbox that received the message
struct Nest;
impl Handler<Nest> for A {
    type Return = ();
    async fn handle(&mut self, _: Nest, c: &mut Context<Self>) {
        let m = c.mailbox().clone();
        drop(m);
        if !c.mailbox().address().is_connected() {
            self.log.add("gone");
        }
        let _ = xtra::yield_once(c.mailbox(), self).await;
    }
}
#[derive(Clone)]
struct NestB;
impl Handler<NestB> for A {
    type Return = ();
    async fn handle(&mut self, _: NestB, c: &mut Context<Self>) {
        let _ = xtra::yield_once(c.mailbox(), self).await;
    }
}
fn nested() -> R {
    for by in [false, true] {
        let (a, m) = Mailbox::<A>::unbounded();
        let ms: Vec<Mailbox<A>> = (0..2).map(|_| m.clone()).collect();
        let _ = if by { go(a.broadcast(NestB).priority(9)).map(|_| ()) } else { for _ in 0..3 { let _ = go(a.send(Nest).priority(9).detach()); } Some(()) };
        let _ = go(a.broadcast(B(1)));
        for (i, x) in ms.iter().chain([&m]).enumerate() {
            let mut act = A::default();
            let r = go(xtra::yield_once(x, &mut act));
            let mut act2 = A::default();
            let next = { let mut f = Box::pin(xtra::yield_once(x, &mut act2)); poll(f.as_mut(), &flag()).is_ready() };
            if by {
                check(r.is_some() && act.log.get() == ["begin1", "end1"], format!("mailbox {i}: a handler that receives from the mailbox of its context gets {:?}", act.log.get()))?;
                check(!next, format!("mailbox {i} gets the broadcast again"))?;
            }
        }
    }
    Ok(())
}
/// several threads do everything: nothing deadlocks and every accepted message is handled once
fn threads() -> R {
    for round in 0..40u64 {
        let (a, m) = if round % 2 == 0 { Mailbox::<A>::bounded(1 + (round % 3) as usize) } else { Mailbox::unbounded() };
        let done = Arc::new(AtomicUsize::new(0));
        let mut ts = vec![];
        for th in 0..3u64 {
            let (m, done) = (m.clone(), done.clone());
            ts.push(std::thread::spawn(move || {
                let mut r = Rng::new(round * 100 + th);
                let mut act = A::default();
                let t = Instant::now();
                while done.load(SeqCst) < 3 && t.elapsed() < Duration::from_secs(10) {
                    let mut f = Box::pin(xtra::yield_once(&m, &mut act));
                    let _ = spin(f.as_mut(), r.below(2) as u64);
                    drop(f);
                    if r.below(8) == 0 {
                        let _ = m.clone();
                    }
                }
            }));
        }
        for th in 0..3u64 {
            let (a, done) = (a.clone(), done.clone());
            ts.push(std::thread::spawn(move || {
                let mut r = Rng::new(round * 1000 + th + 7);
                for i in 0..60 {
                    match r.below(4) {
                        0 => { let mut f = Box::pin(a.broadcast(B(i))); let _ = spin(f.as_mut(), 1); }
                        1 => { let mut f = Box::pin(a.send(Owner(Some(a.clone()), a.downgrade())).detach()); let _ = spin(f.as_mut(), 1); }
                        2 => { let mut f = Box::pin(a.send(M(i)).priority(r.below(3) as u32)); let _ = spin(f.as_mut(), 1); }
                        _ => { let _ = (a.len(), a.is_connected(), a.downgrade().try_upgrade()); }
                    }
                }
                done.fetch_add(1, SeqCst);
            }));
        }
        drop((a, m));
        for t in ts {
            t.join().map_err(|_| "a thread panics".to_string())?;
        }
    }
    Ok(())
}
fn panics() -> R {
    let (a, m) = Mailbox::<A>::bounded(1);
    let mut f = Box::pin(a.send(M(1)).detach());
    check(matches!(poll(f.as_mut(), &flag()), Poll::Ready(Ok(_))), "send")?;
    let mut f = Box::pin(a.broadcast(B(1)));
    check(matches!(poll(f.as_mut(), &flag()), Poll::Ready(Ok(()))), "broadcast")?;
    drop(m);
    let mut f = Box::pin(a.send(M(1)));
    check(matches!(poll(f.as_mut(), &flag()), Poll::Ready(Err(Error::Disconnected))), "send to nobody")
}
fn drops() -> R {
    within(20, "the drop of a mailbox with messages that own addresses", || {
        for cap in [None, Some(1)] {
            let (a, m) = match cap { None => Mailbox::<A>::unbounded(), Some(c) => Mailbox::bounded(c) };
            let w = a.downgrade();
            let mut fs = vec![];
            for _ in 0..3 {
                let mut f = Box::pin(w.send(Owner(Some(a.clone()), w.clone())).detach());
                if poll(f.as_mut(), &flag()).is_pending() {
                    fs.push(f);
                }
            }
            drop(a);
            drop(m);
            for mut f in fs {
                let _ = poll(f.as_mut(), &flag());
            }
        }
        Ok(())
    })
}
pub fn all() -> Vec<Case> {
    vec![
        ("C17", "run", runs),
        ("C19", "select and join", selects),
        ("C18", "dispatch", dispatches),
        ("C16", "stop_all", stops),
        ("C21", "comparisons", compares),
        ("C23", "message channels", channels),
        ("C20", "scoped tasks", scopes),
        ("C20", "join handle against the drop of the last mailbox", || within(30, "join race", join_race)),
        ("C11", "send against the drop of the last mailbox", || within(30, "send race", strand_race)),
        ("C12", "send against the drop of the last mailbox", || within(30, "send race", strand_race)),
        ("C10", "send against a cancelled receive", || within(30, "cancel race", cancel_race)),
        ("C13", "upgrade against the drop of the last strong address", || within(30, "upgrade race", upgrade_race)),
        ("C14", "upgrade against the drop of the last strong address", || within(30, "upgrade race", upgrade_race)),
        ("C02", "the mailbox of a context", nested),
        ("C24", "drops of mailboxes with messages", drops),
        ("C24", "six threads", || within(100, "six threads", threads)),
        ("C25", "six threads", || within(100, "six threads", threads)),
        ("C25", "nothing special", panics),
    ]
}

/// the known findings: one line for each that is still there
pub fn known() {
    // the count of broadcasts is not taken back when a mailbox that lags behind is dropped
    let (a, m) = Mailbox::<A>::bounded(1);
    let m2 = m.clone();
    let mut act = A::default();
    let _ = go(a.broadcast(B(1)));
    let _ = go(xtra::yield_once(&m, &mut act));
    let mut f = Box::pin(a.broadcast(B(2)));
    let w = flag();
    let p = poll(f.as_mut(), &w).is_pending();
    drop(m2);
    if p && !w.get() && poll(f.as_mut(), &w).is_pending() && a.len() == 1 {
        println!("KNOWN stale_tail");
    }
    // capacity 0 is no rendezvous
    let (a, m) = Mailbox::<A>::bounded(0);
    let mut f = Box::pin(a.send(M(1)).detach());
    let w = flag();
    let p = poll(f.as_mut(), &w).is_pending();
    let mut act = A::default();
    let y = go(xtra::yield_once(&m, &mut act)).is_none();
    if p && y && !w.get() && poll(f.as_mut(), &w).is_pending() {
        println!("KNOWN cap0");
    }
}
#[allow(dead_code)]
type Unused = (Strong, Flag);
