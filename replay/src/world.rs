//! One random history and its oracles.  Everything is polled by hand; a future is polled again only when its
//! waker was called ("settle"), so a lost wake-up shows.
use futures_util::FutureExt;
use std::future::Future;
use std::ops::ControlFlow;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll, Wake, Waker};
use xtra::prelude::*;
use xtra::refcount::Either;
use xtra::{Error, Receiver, WeakAddress};

type Dispatch = Box<dyn FnOnce(&mut Act, &Arc<Flag>) -> Poll<ControlFlow<()>>>;
fn receive(m: &Mailbox<Act>) -> Pin<Box<dyn Future<Output = Dispatch>>> {
    Box::pin(m.next().map(|m| {
        let d: Dispatch = Box::new(move |a, w| poll(Box::pin(m.dispatch_to(a)).as_mut(), w));
        d
    }))
}

trait Here: Future + Sized + 'static {
    fn boxed_here(self) -> Pin<Box<dyn Future<Output = Self::Output>>> {
        Box::pin(self)
    }
}
impl<F: Future + 'static> Here for F {}

pub type Trace = Arc<Mutex<Vec<String>>>;
pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}
pub fn flag() -> Arc<Flag> {
    Arc::new(Flag(AtomicBool::new(false)))
}
impl Flag {
    pub fn take(&self) -> bool {
        self.0.swap(false, SeqCst)
    }
    pub fn set(&self) {
        self.0.store(true, SeqCst)
    }
    pub fn get(&self) -> bool {
        self.0.load(SeqCst)
    }
}
pub fn poll<F: Future + ?Sized>(f: Pin<&mut F>, w: &Arc<Flag>) -> Poll<F::Output> {
    let w: Waker = w.clone().into();
    f.poll(&mut Cx::from_waker(&w))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Do {
    Nothing,
    StopSelf,
    StopAll,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Handled(u32, usize),
    Dropped(u32),
}
pub type Log = Arc<Mutex<Vec<Ev>>>;
pub struct Act {
    pub id: usize,
    pub log: Log,
}
impl Actor for Act {
    type Stop = usize;
    async fn stopped(self) -> usize {
        self.id
    }
}
/// its destructor uses the channel it is sent through
pub struct Uni {
    id: u32,
    act: Do,
    log: Log,
    probe: Option<WeakAddress<Act>>,
}
impl Drop for Uni {
    fn drop(&mut self) {
        let _ = self.probe.as_ref().map(|p| p.len());
        self.log.lock().unwrap().push(Ev::Dropped(self.id));
    }
}
impl Handler<Uni> for Act {
    type Return = u32;
    async fn handle(&mut self, m: Uni, c: &mut Context<Self>) -> u32 {
        self.log.lock().unwrap().push(Ev::Handled(m.id, self.id));
        act(m.act, c);
        m.id + 1_000_000
    }
}
pub struct Bc {
    id: u32,
    act: Do,
    log: Log,
    probe: Option<WeakAddress<Act>>,
}
impl Clone for Bc {
    fn clone(&self) -> Bc {
        let _ = self.probe.as_ref().map(|p| p.len());
        Bc { id: self.id, act: self.act, log: self.log.clone(), probe: self.probe.clone() }
    }
}
impl Drop for Bc {
    fn drop(&mut self) {
        let _ = self.probe.as_ref().map(|p| p.len());
    }
}
impl Handler<Bc> for Act {
    type Return = ();
    async fn handle(&mut self, m: Bc, c: &mut Context<Self>) {
        self.log.lock().unwrap().push(Ev::Handled(m.id, self.id));
        act(m.act, c);
    }
}
fn act(a: Do, c: &mut Context<Act>) {
    match a {
        Do::Nothing => {}
        Do::StopSelf => c.stop_self(),
        Do::StopAll => c.stop_all(),
    }
}

pub enum Hd {
    S(Address<Act>),
    W(WeakAddress<Act>),
    E(Address<Act, Either>, bool),
    C(MessageChannel<Uni, u32>),
    CW(MessageChannel<Uni, u32, xtra::refcount::Weak>),
    CE(MessageChannel<Uni, u32, Either>, bool),
}
macro_rules! on {
    ($h:expr, $a:ident => $e:expr) => {
        match $h {
            Hd::S($a) => $e,
            Hd::W($a) => $e,
            Hd::E($a, _) => $e,
            Hd::C($a) => $e,
            Hd::CW($a) => $e,
            Hd::CE($a, _) => $e,
        }
    };
}
impl Hd {
    fn strong(&self) -> bool {
        match self {
            Hd::S(_) | Hd::C(_) => true,
            Hd::W(_) | Hd::CW(_) => false,
            Hd::E(_, s) | Hd::CE(_, s) => *s,
        }
    }
    fn channel(&self) -> bool {
        matches!(self, Hd::C(_) | Hd::CW(_) | Hd::CE(..))
    }
    fn copy(&self) -> Hd {
        match self {
            Hd::S(a) => Hd::S(a.clone()),
            Hd::W(a) => Hd::W(a.clone()),
            Hd::E(a, s) => Hd::E(a.clone(), *s),
            Hd::C(a) => Hd::C(a.clone()),
            Hd::CW(a) => Hd::CW(a.clone()),
            Hd::CE(a, s) => Hd::CE(a.clone(), *s),
        }
    }
}

pub enum Out {
    Rep(Result<u32, Error>),
    Det(Result<Receiver<u32>, Error>),
    Bc(Result<(), Error>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    New,
    Waits,    // pending at a settled moment: it certainly waits
    Unknown,  // pending
    In,       // certainly accepted
    Out,      // refused or cancelled: must never be handled
}
struct Snd {
    id: u32,
    uni: bool,
    det: bool,
    prio: u32,
    strong: bool,
    chan: bool,
    fut: Option<Pin<Box<dyn Future<Output = Out>>>>,
    rep: Option<Receiver<u32>>,
    repflag: Arc<Flag>,
    replied: bool,
    flag: Arc<Flag>,
    st: St,
    first: u32,          // time of the first poll
    fuzzy: bool,         // it may have been handed to a waiting receiver, or put back
    handled: u32,
    dropped: bool,
    to: Vec<usize>,      // broadcasts: mailboxes alive when it was accepted
    maybe: Vec<usize>,   // ... mailboxes created while it was not known to be accepted
    got: Vec<usize>,
}
struct Rcv {
    mb: usize,
    fut: Pin<Box<dyn Future<Output = Dispatch>>>,
    flag: Arc<Flag>,
    waited: bool,
}
struct Mb {
    id: usize,
    mb: Mailbox<Act>,
    notices: u32,
    maybe_notices: u32,
}
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 16
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

pub struct World {
    cap: Option<usize>,
    hs: Vec<Hd>,
    mbs: Vec<Mb>,
    rcv: Vec<Rcv>,
    snd: Vec<Snd>,
    joins: Vec<(Pin<Box<dyn Future<Output = ()>>>, Arc<Flag>)>,
    log: Log,
    seen: usize,
    r: Rng,
    now: u32,
    nmb: usize,
    tainted: bool, // a mailbox that held broadcasts went away: the count of broadcasts may be stale (known finding)
    slack: bool,   // a message may have been put back over the capacity
    kinds: Vec<Do>,
    probes: bool,
    weak: WeakAddress<Act>,
    pub trace: Trace,
    pub fails: Vec<(&'static str, String)>,
}

impl World {
    fn say(&self, s: String) {
        self.trace.lock().unwrap().push(s)
    }
    fn fail(&mut self, p: &'static str, s: String) {
        self.say(format!("!! {p}: {s}"));
        self.fails.push((p, s));
    }
    fn strongs(&self) -> usize {
        self.hs.iter().filter(|h| h.strong()).count()
    }
    /// strong addresses may also live in send futures
    fn hidden(&self) -> bool {
        self.snd.iter().any(|s| s.strong && s.fut.is_some())
    }
    fn connected(&self) -> Option<bool> {
        if self.mbs.is_empty() && self.rcv.is_empty() {
            return Some(false);
        }
        if self.strongs() > 0 {
            return if self.mbs.is_empty() { None } else { Some(true) };
        }
        if self.hidden() { None } else { Some(false) }
    }
    fn events(&mut self) {
        loop {
            let e = match self.log.lock().unwrap().get(self.seen) {
                Some(e) => e.clone(),
                None => return,
            };
            self.seen += 1;
            match e {
                Ev::Handled(id, mb) => {
                    let (uni, st, n, b) = {
                        let s = &mut self.snd[id as usize];
                        s.handled += 1;
                        s.got.push(mb);
                        (s.uni, s.st, s.handled, s.got.iter().filter(|x| **x == mb).count())
                    };
                    if uni && n > 1 {
                        self.fail("C01", format!("message {id} is handled twice"));
                    }
                    if !uni && b > 1 {
                        self.fail("C02", format!("broadcast {id} is handled twice by mailbox {mb}"));
                    }
                    if st == St::Out || st == St::New {
                        self.fail("C09", format!("message {id}, which was refused or cancelled, is handled"));
                        self.fail("C11", format!("message {id}, which was refused or cancelled, is handled"));
                    }
                }
                Ev::Dropped(id) => self.snd[id as usize].dropped = true,
            }
        }
    }
    /// certainly accepted, not handled, not dropped
    fn held(&self) -> Vec<usize> {
        (0..self.snd.len()).filter(|i| { let s = &self.snd[*i]; s.uni && s.st == St::In && s.handled == 0 && !s.dropped }).collect()
    }
    fn bheld(&self, mb: usize) -> Vec<usize> {
        (0..self.snd.len()).filter(|i| { let s = &self.snd[*i]; !s.uni && s.st == St::In && s.to.contains(&mb) && !s.got.contains(&mb) }).collect()
    }
    fn vague(&self) -> usize {
        self.snd.iter().filter(|s| s.uni && s.handled == 0 && !s.dropped && matches!(s.st, St::Unknown)).count()
    }
    fn mbix(&self, id: usize) -> Option<usize> {
        self.mbs.iter().position(|m| m.id == id)
    }

    fn poll_send(&mut self, i: usize) {
        let waiting_rx = !self.rcv.is_empty() && self.rcv.iter().any(|r| r.waited);
        let conn = self.connected();
        let first = self.snd[i].st == St::New;
        if first {
            self.now += 1;
            self.snd[i].first = self.now;
            self.snd[i].st = St::Unknown;
            self.snd[i].fuzzy = waiting_rx;
            self.snd[i].to = self.mbs.iter().map(|m| m.id).collect();
        }
        let before = self.snd[i].st;
        let mut f = self.snd[i].fut.take().unwrap();
        if self.r.below(2) == 0 {
            self.snd[i].flag = flag(); // another waker than before
        }
        let flag = self.snd[i].flag.clone();
        flag.take();
        let len0 = self.weak.len();
        let r = poll(f.as_mut(), &flag);
        self.say(format!("poll send {i}{} -> {}", if self.snd[i].uni { "" } else { " (broadcast)" }, match &r { Poll::Pending => "pending".into(), Poll::Ready(Out::Rep(r)) => format!("{r:?}"), Poll::Ready(Out::Det(r)) => format!("{:?}", r.as_ref().map(|_| ())), Poll::Ready(Out::Bc(r)) => format!("{r:?}") }));
        match r {
            Poll::Pending => {
                self.snd[i].fut = Some(f);
                if first && conn == Some(false) {
                    self.fail("C11", format!("send {i} waits although there is no mailbox or no strong address"));
                }
                if first && self.snd[i].uni && !self.snd[i].det && self.weak.len() > len0 {
                    self.snd[i].st = St::In;
                }
            }
            Poll::Ready(out) => {
                drop(f);
                let (err, ok) = match out {
                    Out::Rep(Ok(v)) => {
                        self.events();
                        if v != i as u32 + 1_000_000 {
                            self.fail("C08", format!("send {i} resolves to {v}, which its handler did not return"));
                        }
                        if self.snd[i].handled == 0 {
                            self.fail("C08", format!("send {i} resolves to Ok, but it was never handled"));
                        }
                        (None, true)
                    }
                    Out::Rep(Err(e)) => (Some(e), false),
                    Out::Det(Ok(r)) => {
                        self.snd[i].rep = Some(r);
                        self.snd[i].repflag.0.store(true, SeqCst);
                        (None, true)
                    }
                    Out::Det(Err(e)) => (Some(e), false),
                    Out::Bc(Ok(())) => (None, true),
                    Out::Bc(Err(e)) => (Some(e), false),
                };
                self.events();
                if ok {
                    if first && conn == Some(false) {
                        self.fail("C11", format!("send {i} is accepted although there is no mailbox or no strong address"));
                    }
                    self.snd[i].st = St::In;
                }
                match err {
                    Some(Error::Disconnected) => {
                        if first && conn == Some(true) {
                            self.fail("C11", format!("send {i} is refused although there is a mailbox and a strong address"));
                        }
                        if self.snd[i].handled > 0 || before == St::In {
                            self.fail("C11", format!("send {i} is reported as disconnected, but it was accepted"));
                        }
                        if self.snd[i].uni && !self.snd[i].dropped && self.snd[i].handled == 0 {
                            self.fail("C12", format!("send {i} failed, but its message still exists"));
                        }
                        self.snd[i].st = St::Out;
                    }
                    Some(_) => {
                        if !self.snd[i].uni || self.snd[i].det || before == St::Waits && self.snd[i].handled == 0 && self.mbs.is_empty() {
                            self.fail("C11", format!("send {i}, which was never accepted, is reported as interrupted"));
                        }
                        if self.snd[i].handled > 0 || !self.snd[i].dropped {
                            self.fail("C08", format!("send {i} is interrupted although its message was handled or still exists"));
                        }
                        self.snd[i].st = St::In;
                    }
                    None => {}
                }
            }
        }
        if first && !waiting_rx && self.snd[i].uni && self.snd[i].st == St::In && self.snd[i].fut.is_none() && self.cap.map_or(false, |c| self.held().len() > c) && !self.slack {
            self.fail("C05", format!("send {i} is accepted above the capacity"));
        }
    }

    fn poll_recv(&mut self, k: usize) {
        let mut r = self.rcv.remove(k);
        let fresh = !r.waited;
        let mb = r.mb;
        if self.r.below(2) == 0 {
            r.flag = flag();
        }
        r.flag.take();
        let held = self.held();
        let bheld = self.bheld(mb);
        let notices = self.mbix(mb).map_or((0, 0), |x| (self.mbs[x].notices, self.mbs[x].maybe_notices));
        let conn = self.connected();
        let flag = r.flag.clone();
        let p = poll(r.fut.as_mut(), &flag);
        match p {
            Poll::Pending => {
                self.say(format!("poll receive of mailbox {mb} -> pending"));
                if fresh {
                    let q: Vec<_> = held.iter().filter(|i| !self.snd[**i].fuzzy).collect();
                    if !q.is_empty() || !bheld.is_empty() || notices.0 > 0 && notices.1 == 0 {
                        self.fail("C07", format!("a receive of mailbox {mb} waits although {q:?} and broadcasts {bheld:?} are available"));
                    }
                    if self.strongs() == 0 && !self.hidden() {
                        self.fail("C15", format!("a receive of mailbox {mb} waits although there is no strong address"));
                    }
                }
                r.waited = true;
                self.rcv.insert(k, r);
            }
            Poll::Ready(m) => {
                drop(r);
                self.dispatch(m, mb, fresh, held, bheld, notices, conn);
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn dispatch(&mut self, m: Dispatch, mb: usize, fresh: bool, held: Vec<usize>, bheld: Vec<usize>, notices: (u32, u32), _conn: Option<bool>) {
        self.events();
        let n0 = self.seen;
        let mut a = Act { id: mb, log: self.log.clone() };
        let w = flag();
        let was_strong = self.strongs() > 0 || self.hidden();
        let res = m(&mut a, &w);
        let flow = match res {
            Poll::Pending => {
                self.fail("C18", "a dispatch waits although its handler does not".into());
                return;
            }
            Poll::Ready(f) => f,
        };
        let evs: Vec<u32> = self.log.lock().unwrap()[n0..].iter().filter_map(|e| match e { Ev::Handled(i, _) => Some(*i), _ => None }).collect();
        self.say(format!("mailbox {mb} receives and dispatches {evs:?}: {flow:?}"));
        self.events();
        if evs.len() > 1 {
            self.fail("C18", format!("one dispatch calls handlers {evs:?}"));
        }
        let brk = matches!(flow, ControlFlow::Break(()));
        let x = match evs.first() {
            None => {
                // the request to stop
                if !brk {
                    self.fail("C18", format!("a dispatch by mailbox {mb} calls no handler and continues"));
                }
                let note = notices.0 > 0;
                if note {
                    if let Some(i) = self.mbix(mb) {
                        self.mbs[i].notices -= 1;
                        self.mbs[i].maybe_notices = self.mbs[i].maybe_notices.min(self.mbs[i].notices);
                    }
                } else if self.strongs() > 0 {
                    self.fail("C16", format!("mailbox {mb} is told to stop although nobody asked it to"));
                    self.fail("C15", format!("mailbox {mb} is told to stop although there is a strong address"));
                } else if !was_strong {
                    let q: Vec<_> = held.iter().filter(|i| !self.snd[**i].fuzzy).collect();
                    if fresh && (!q.is_empty() || !bheld.is_empty()) {
                        self.fail("C15", format!("mailbox {mb} is told to stop although {q:?}, {bheld:?} are available"));
                    }
                }
                return;
            }
            Some(x) => *x as usize,
        };
        let act = self.acts(x);
        if brk != (act == Do::StopSelf) {
            self.fail("C18", format!("the dispatch of {x} by mailbox {mb} yields {flow:?}"));
            self.fail("C16", format!("the dispatch of {x} by mailbox {mb} yields {flow:?}"));
        }
        if act == Do::StopAll {
            for m in &mut self.mbs {
                if was_strong {
                    m.notices += 1;
                }
            }
            if self.strongs() == 0 && was_strong {
                for m in &mut self.mbs {
                    m.maybe_notices = m.notices;
                }
            }
        }
        if self.snd[x].uni && self.snd[x].st != St::In {
            self.snd[x].st = if matches!(self.snd[x].st, St::Waits | St::Unknown) { St::In } else { self.snd[x].st };
        }
        if !self.snd[x].uni {
            if !self.snd[x].to.contains(&mb) && !self.snd[x].maybe.contains(&mb) {
                self.fail("C02", format!("mailbox {mb} gets broadcast {x}, which was accepted before it existed"));
            }
            if self.snd[x].st != St::Out {
                self.snd[x].st = St::In;
            }
        }
        if !fresh {
            return;
        }
        if notices.0 > 0 && notices.1 == 0 {
            self.fail("C16", format!("mailbox {mb} takes {x} although it was told to stop"));
        }
        for &y in held.iter().chain(bheld.iter()) {
            if y == x || self.snd[y].fuzzy || self.snd[x].fuzzy && self.snd[x].uni {
                continue;
            }
            let (px, py) = (self.snd[x].prio, self.snd[y].prio);
            if py > px {
                self.fail("C03", format!("mailbox {mb} takes {x} (priority {px}) although {y} (priority {py}) is available"));
            }
            if py == px && self.snd[x].uni == self.snd[y].uni && self.snd[y].first < self.snd[x].first {
                self.fail("C04", format!("mailbox {mb} takes {x} before {y}, which has the same priority and was sent before"));
            }
        }
    }
    fn acts(&self, i: usize) -> Do {
        self.kinds[i]
    }

    /// poll what was woken until nothing is
    fn settle(&mut self) {
        let waited: Vec<usize> = (0..self.snd.len()).filter(|i| self.snd[*i].st == St::Waits).collect();
        for _ in 0..1000 {
            let mut any = false;
            for i in 0..self.snd.len() {
                if self.snd[i].fut.is_some() && self.snd[i].st != St::New && self.snd[i].flag.get() {
                    any = true;
                    self.poll_send(i);
                }
                self.poll_reply(i);
            }
            let mut k = 0;
            while k < self.rcv.len() {
                if self.rcv[k].waited && self.rcv[k].flag.get() {
                    any = true;
                    let n = self.rcv.len();
                    self.poll_recv(k);
                    if self.rcv.len() < n {
                        continue;
                    }
                }
                k += 1;
            }
            if !any {
                break;
            }
        }
        self.poll_joins(true);
        self.events();
        for i in 0..self.snd.len() {
            if self.snd[i].st == St::Unknown && (!self.snd[i].uni || self.snd[i].det) && self.snd[i].fut.is_some() {
                self.snd[i].st = St::Waits;
            }
        }
        self.check(&waited);
    }
    fn poll_joins(&mut self, all: bool) {
        let mut k = 0;
        while k < self.joins.len() {
            if !self.joins[k].1.take() {
                if all && self.mbs.is_empty() && self.rcv.is_empty() {
                    self.fail("C20", "a join handle sleeps although there is no mailbox any more".into());
                    return;
                }
                k += 1;
                continue;
            }
            let (mut j, f) = self.joins.remove(k);
            let c = self.connected();
            match poll(j.as_mut(), &f) {
                Poll::Ready(()) => {
                    if c == Some(true) {
                        self.fail("C20", "a join handle resolves although the actor is there".into());
                    }
                }
                Poll::Pending => {
                    if self.mbs.is_empty() && self.rcv.is_empty() {
                        self.fail("C20", "a join handle waits although there is no mailbox any more".into());
                    }
                    self.joins.insert(k, (j, f));
                    k += 1;
                }
            }
        }
    }
    fn poll_reply(&mut self, i: usize) {
        if self.snd[i].replied || self.snd[i].rep.is_none() || !self.snd[i].repflag.take() {
            return;
        }
        let mut r = self.snd[i].rep.take().unwrap();
        let f = self.snd[i].repflag.clone();
        let p = poll(Pin::new(&mut r), &f);
        self.events();
        match p {
            Poll::Pending => self.snd[i].rep = Some(r),
            Poll::Ready(x) => {
                self.say(format!("reply to {i}: {x:?}"));
                self.snd[i].replied = true;
                match x {
                    Ok(v) => {
                        if v != i as u32 + 1_000_000 || self.snd[i].handled == 0 {
                            self.fail("C08", format!("the reply to {i} is {v}, which its handler did not return"));
                        }
                    }
                    Err(_) => {
                        if self.snd[i].handled > 0 || !self.snd[i].dropped {
                            self.fail("C08", format!("the reply to {i} is interrupted although its message was handled or still exists"));
                        }
                    }
                }
            }
        }
    }
    /// what holds whenever nothing is left to do
    fn check(&mut self, waited: &[usize]) {
        let held = self.held();
        let cap = self.cap.unwrap_or(usize::MAX);
        for i in 0..self.snd.len() {
            let s = &self.snd[i];
            if s.st == St::Waits {
                if self.mbs.is_empty() && self.rcv.is_empty() {
                    self.fail("C12", format!("send {i} waits although there is no mailbox any more"));
                } else if s.uni && held.len() + self.vague() < cap {
                    self.fail("C06", format!("send {i} waits although only {} messages are queued", held.len()));
                } else if !s.uni && !self.tainted && self.mbs.iter().all(|m| self.bmax(m) < cap) {
                    self.fail("C06", format!("broadcast {i} waits although there is room in every mailbox"));
                }
            }
            let s = &self.snd[i];
            if s.handled > 0 && s.det && s.uni && s.fut.is_none() && s.rep.is_some() && !s.replied {
                self.fail("C08", format!("message {i} was handled, but its reply does not arrive"));
            }
            let s = &self.snd[i];
            if s.handled > 0 && s.uni && s.fut.is_some() {
                self.fail("C08", format!("message {i} was handled, but its send does not resolve"));
            }
            let s = &self.snd[i];
            if s.uni && s.st == St::In && s.handled == 0 && s.dropped && !(self.mbs.is_empty() && self.rcv.is_empty()) {
                self.fail("C01", format!("message {i} was accepted and is lost"));
                self.fail("C10", format!("message {i} was accepted and is lost"));
            }
            let s = &self.snd[i];
            if s.uni && s.st == St::In && s.handled == 0 && !s.dropped && self.mbs.is_empty() && self.rcv.is_empty() {
                self.fail("C12", format!("message {i} is still queued although there is no mailbox any more"));
            }
        }
        for &i in waited {
            for &j in waited {
                let (a, b) = (&self.snd[i], &self.snd[j]);
                if a.uni == b.uni && a.st == St::In && b.st == St::Waits && self.snd[i].fut.is_none() {
                    let (pi, pj, fi, fj) = (a.prio, b.prio, a.first, b.first);
                    if pi < pj {
                        self.fail("C03", format!("{i} (priority {pi}) is let in although {j} (priority {pj}) waits"));
                    }
                    if pi == pj && fj < fi {
                        self.fail("C04", format!("{i} is let in although {j}, of equal priority, waits longer"));
                    }
                }
            }
        }
        for k in 0..self.rcv.len() {
            if !self.rcv[k].waited {
                continue;
            }
            let mb = self.rcv[k].mb;
            let b = self.bheld(mb);
            let n = self.mbix(mb).map_or((0, 0), |x| (self.mbs[x].notices, self.mbs[x].maybe_notices));
            if !held.is_empty() || !b.is_empty() {
                self.fail("C07", format!("a receive of mailbox {mb} sleeps although {held:?} and broadcasts {b:?} are available"));
            }
            if n.0 > 0 && n.1 == 0 {
                self.fail("C16", format!("a receive of mailbox {mb} sleeps although the actor was told to stop"));
            }
            if self.strongs() == 0 && !self.hidden() {
                self.fail("C15", format!("a receive of mailbox {mb} sleeps although there is no strong address"));
            }
        }
        let len = self.weak.len();
        if !(self.mbs.is_empty() && self.rcv.is_empty()) {
            let b = self.mbs.iter().map(|m| self.bheld(m.id).len()).max().unwrap_or(0);
            if len < held.len() || len < b {
                self.fail("C22", format!("len is {len}, with {} messages and {b} broadcasts queued", held.len()));
            }
            if held.len() > cap && !self.slack {
                self.fail("C05", format!("{} messages are queued, the capacity is {cap}", held.len()));
            }
            let nb = self.mbs.iter().map(|m| (self.bheld(m.id).len(), m.notices)).filter(|x| x.1 == 0).map(|x| x.0).max().unwrap_or(0);
            if nb > cap {
                self.fail("C05", format!("{nb} broadcasts are queued, the capacity is {cap}"));
            }
        }
        if self.weak.capacity() != self.cap || self.weak.is_empty() != (len == 0) {
            self.fail("C22", format!("capacity {:?}, is_empty {} with len {len}", self.weak.capacity(), self.weak.is_empty()));
        }
        let c = self.connected();
        for k in 0..self.hs.len() {
            let (x, l, cp) = on!(&self.hs[k], a => (a.is_connected(), a.len(), a.capacity()));
            let p = if self.hs[k].channel() { "C23" } else { "C22" };
            if l != len || cp != self.cap {
                self.fail(p, format!("handle {k}: len {l} and capacity {cp:?}, expected {len} and {:?}", self.cap));
            }
            if c.map_or(false, |c| c != x) {
                self.fail("C11", format!("is_connected is {x} with {} mailboxes and {} strong addresses", self.mbs.len(), self.strongs()));
                if p == "C23" {
                    self.fail(p, format!("is_connected is {x} with {} mailboxes and {} strong addresses", self.mbs.len(), self.strongs()));
                }
            }
        }
        let d = format!("{:?}", self.weak);
        let nums: Vec<usize> = d.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
        if nums.len() == 2 {
            let hid = self.snd.iter().filter(|s| s.strong && s.fut.is_some()).count();
            if nums[0] < self.strongs() || nums[0] > self.strongs() + hid || nums[1] < self.mbs.len() || nums[1] > self.mbs.len() + self.rcv.len() {
                let w = format!("{} strong addresses (and {hid} sends) and {} mailboxes (and {} receives) are counted as {nums:?}", self.strongs(), self.mbs.len(), self.rcv.len());
                self.fail("C13", w.clone());
                self.fail("C14", w);
            }
        }
    }
    fn bmax(&self, m: &Mb) -> usize {
        let n = (0..self.snd.len()).filter(|i| { let s = &self.snd[*i]; !s.uni && matches!(s.st, St::In | St::Unknown) && (s.to.contains(&m.id) || s.maybe.contains(&m.id)) && !s.got.contains(&m.id) }).count();
        n + m.notices as usize
    }
    fn drop_mailbox(&mut self, k: usize) {
        let id = self.mbs[k].id;
        while let Some(x) = self.rcv.iter().position(|r| r.mb == id) {
            self.cancel_recv(x);
        }
        if self.bmax(&self.mbs[k]) > 0 {
            self.tainted = true;
        }
        self.say(format!("drop mailbox {id}"));
        drop(self.mbs.remove(k));
        self.events();
    }
    fn cancel_recv(&mut self, k: usize) {
        let r = self.rcv.remove(k);
        self.say(format!("cancel a receive of mailbox {}{}", r.mb, if r.waited { if r.flag.get() { " (woken)" } else { " (waiting)" } } else { "" }));
        if r.waited {
            self.slack = true;
        }
        drop(r);
        self.events();
    }
    fn wake_all_fuzzy(&mut self) {
        if self.held().is_empty() {
            self.slack = false;
        }
    }
    fn step(&mut self) {
        let w = self.r.below(100);
        match w {
            0..=29 if !self.hs.is_empty() => {
                let k = self.r.below(self.hs.len());
                let i = self.snd.len();
                let prio = [0, 0, 0, 1, 1, 2, u32::MAX, 70_000][self.r.below(8)];
                let setp = prio != 0 || self.r.below(2) == 0;
                let uni = self.hs[k].channel() || self.r.below(3) != 0;
                let det = uni && self.r.below(4) != 0;
                let act = [Do::Nothing, Do::Nothing, Do::Nothing, Do::Nothing, Do::Nothing, Do::Nothing, Do::StopSelf, Do::StopAll][self.r.below(8)];
                self.kinds.push(act);
                let (log, probe) = (self.log.clone(), if self.probes { Some(self.weak.clone()) } else { None });
                macro_rules! one {
                    ($a:expr) => {{
                        let f = $a.send(Uni { id: i as u32, act, log, probe });
                        let f = if setp { f.priority(prio) } else { f };
                        if det { f.detach().map(Out::Det).boxed_here() } else { f.map(Out::Rep).boxed_here() }
                    }};
                }
                macro_rules! any {
                    ($a:expr) => {
                        if uni {
                            one!($a)
                        } else {
                            let f = $a.broadcast(Bc { id: i as u32, act, log, probe });
                            let f = if setp { f.priority(prio) } else { f };
                            f.map(Out::Bc).boxed_here()
                        }
                    };
                }
                let fut: Pin<Box<dyn Future<Output = Out>>> = match &self.hs[k] {
                    Hd::S(a) => any!(a),
                    Hd::W(a) => any!(a),
                    Hd::E(a, _) => any!(a),
                    Hd::C(a) => one!(a),
                    Hd::CW(a) => one!(a),
                    Hd::CE(a, _) => one!(a),
                };
                let (strong, chan) = (self.hs[k].strong(), self.hs[k].channel());
                self.say(format!("{} {i} by {} priority {prio}{} {act:?}", if uni { "send" } else { "broadcast" }, if strong { if chan { "strong channel" } else { "strong" } } else { "weak" }, if det { " detached" } else { "" }));
                self.snd.push(Snd { id: i as u32, uni, det, prio, strong, chan, fut: Some(fut), rep: None, repflag: flag(), replied: false, flag: flag(), st: St::New, first: 0, fuzzy: false, handled: 0, dropped: false, to: vec![], maybe: vec![], got: vec![] });
                if self.r.below(8) != 0 {
                    self.poll_send(i);
                }
            }
            30..=54 if !self.mbs.is_empty() => {
                // a receive
                let k = self.r.below(self.mbs.len());
                let id = self.mbs[k].id;
                let f = receive(&self.mbs[k].mb);
                self.rcv.push(Rcv { mb: id, fut: f, flag: flag(), waited: false });
                if self.r.below(8) != 0 {
                    let n = self.rcv.len() - 1;
                    self.poll_recv(n);
                }
            }
            55..=60 if !self.rcv.is_empty() => {
                let k = self.r.below(self.rcv.len());
                self.poll_recv(k);
            }
            61..=66 if !self.rcv.is_empty() => {
                let k = self.r.below(self.rcv.len());
                self.cancel_recv(k);
            }
            67..=72 => {
                let l: Vec<usize> = (0..self.snd.len()).filter(|i| self.snd[*i].fut.is_some()).collect();
                if l.is_empty() {
                    return;
                }
                let i = l[self.r.below(l.len())];
                if self.r.below(2) == 0 {
                    self.poll_send(i);
                    return;
                }
                self.say(format!("cancel send {i}"));
                let woken = self.snd[i].flag.get();
                drop(self.snd[i].fut.take());
                self.events();
                let st = self.snd[i].st;
                if st == St::Waits && woken {
                    self.snd[i].st = St::Unknown;
                }
                if st == St::New || st == St::Waits && !woken {
                    self.snd[i].st = St::Out;
                    if self.snd[i].uni && !self.snd[i].dropped && self.snd[i].handled == 0 {
                        self.fail("C09", format!("send {i} is cancelled while it waits, but its message still exists"));
                    }
                }
            }
            73..=77 if !self.hs.is_empty() => {
                let k = self.r.below(self.hs.len());
                self.say(format!("drop a {} handle", if self.hs[k].strong() { "strong" } else { "weak" }));
                drop(self.hs.remove(k));
                self.events();
            }
            78..=87 if !self.hs.is_empty() => {
                let k = self.r.below(self.hs.len());
                let st = self.hs[k].strong();
                let any = self.strongs() > 0;
                let hidden = self.hidden();
                let n = self.r.below(5);
                let new = match (&self.hs[k], n) {
                    (h, 0) => Some(h.copy()),
                    (Hd::S(a), 1) => Some(Hd::W(a.downgrade())),
                    (Hd::S(a), 2) => Some(Hd::E(a.as_either(), true)),
                    (Hd::S(a), _) => Some(Hd::C(MessageChannel::new(a.clone()))),
                    (Hd::W(a), 1) => Some(Hd::E(a.as_either(), false)),
                    (Hd::W(a), 2) => Some(Hd::CW(MessageChannel::new(a.clone()))),
                    (Hd::W(a), _) => {
                        let u = a.try_upgrade();
                        if u.is_some() && !any && !hidden || u.is_none() && any {
                            let w = format!("try_upgrade is Some: {}, with {} strong addresses", u.is_some(), self.strongs());
                            self.fail("C14", w.clone());
                            self.fail("C13", w);
                        }
                        u.map(Hd::S)
                    }
                    (Hd::E(a, _), 1) => Some(Hd::W(a.downgrade())),
                    (Hd::E(a, _), 2) => Some(Hd::E(a.as_either(), st)),
                    (Hd::E(a, _), _) => Some(Hd::CE(MessageChannel::new(a.clone()), st)),
                    (Hd::C(a), 1) => Some(Hd::CW(a.downgrade())),
                    (Hd::C(a), _) => Some(Hd::CE(a.as_either(), true)),
                    (Hd::CW(a), _) => Some(Hd::CE(a.as_either(), false)),
                    (Hd::CE(a, _), 1) => Some(Hd::CW(a.downgrade())),
                    (Hd::CE(a, _), _) => Some(Hd::CE(a.as_either(), st)),
                };
                if let Some(h) = new {
                    self.say(format!("a new {} handle", if h.strong() { "strong" } else { "weak" }));
                    self.hs.push(h);
                }
            }
            88..=91 if !self.mbs.is_empty() && self.mbs.len() < 4 => {
                let k = self.r.below(self.mbs.len());
                let id = self.nmb;
                self.nmb += 1;
                self.say(format!("clone mailbox {} as {id}", self.mbs[k].id));
                let mb = self.mbs[k].mb.clone();
                self.mbs.push(Mb { id, mb, notices: 0, maybe_notices: 0 });
                for s in &mut self.snd {
                    if !s.uni && matches!(s.st, St::Unknown | St::Waits | St::New) {
                        s.maybe.push(id);
                    }
                }
            }
            92..=94 if !self.mbs.is_empty() => {
                if self.mbs.len() > 1 || self.r.below(3) == 0 {
                    let k = self.r.below(self.mbs.len());
                    self.drop_mailbox(k);
                }
            }
            95..=96 if !self.hs.is_empty() => {
                let k = self.r.below(self.hs.len());
                let f = flag();
                f.0.store(true, SeqCst);
                let j = on!(&self.hs[k], a => { let j: Pin<Box<dyn Future<Output = ()>>> = Box::pin(a.join()); j });
                self.joins.push((j, f));
                self.poll_joins(false);
            }
            97 if !self.mbs.is_empty() => {
                let k = self.r.below(self.mbs.len());
                let a = self.mbs[k].mb.address();
                if !a.same_actor(&self.weak) {
                    self.fail("C21", "the address of a mailbox is another actor".into());
                }
                self.hs.push(Hd::W(a));
            }
            _ => {}
        }
    }
    fn finish(&mut self) {
        self.settle();
        if !self.fails.is_empty() {
            return;
        }
        // drain every mailbox
        for k in 0..self.mbs.len() {
            let id = self.mbs[k].id;
            while let Some(x) = self.rcv.iter().position(|r| r.mb == id) {
                self.cancel_recv(x);
            }
        }
        self.settle();
        for _ in 0..50 {
            let n0 = self.log.lock().unwrap().len();
            for k in 0..self.mbs.len() {
                let id = self.mbs[k].id;
                for _ in 0..300 {
                    let n = self.log.lock().unwrap().len();
                    let had = self.mbs[k].notices;
                    let f = receive(&self.mbs[k].mb);
                    self.rcv.push(Rcv { mb: id, fut: f, flag: flag(), waited: false });
                    let x = self.rcv.len() - 1;
                    self.poll_recv(x);
                    self.settle();
                    if !self.fails.is_empty() {
                        return;
                    }
                    if self.rcv.len() > x {
                        self.cancel_recv(x);
                        break;
                    }
                    let handled = self.log.lock().unwrap()[n..].iter().any(|e| matches!(e, Ev::Handled(..)));
                    if !handled && had == 0 {
                        break; // told to stop: nothing is left
                    }
                }
            }
            if self.log.lock().unwrap().len() == n0 {
                break;
            }
        }
        self.settle();
        if !self.mbs.is_empty() {
            let h = self.held();
            if !h.is_empty() {
                self.fail("C01", format!("messages {h:?} were accepted and are never handled"));
                self.fail("C10", format!("messages {h:?} were accepted and are never handled"));
            }
            for k in 0..self.mbs.len() {
                let id = self.mbs[k].id;
                let b = self.bheld(id);
                if !b.is_empty() {
                    self.fail("C02", format!("mailbox {id} never gets broadcasts {b:?}"));
                }
            }
        }
        while !self.mbs.is_empty() {
            self.drop_mailbox(0);
        }
        self.settle();
    }
}

pub fn run(seed: u64, trace: &Trace, probes: bool) -> (Vec<(&'static str, String)>, Vec<String>) {
    let mut r = Rng::new(seed);
    let cap = [None, Some(1), Some(1), Some(2), Some(3)][r.below(5)];
    let (a, m) = match cap {
        None => Mailbox::unbounded(),
        Some(c) => Mailbox::bounded(c),
    };
    let weak = a.downgrade();
    let mut w = World {
        cap, hs: vec![Hd::S(a)], mbs: vec![Mb { id: 0, mb: m, notices: 0, maybe_notices: 0 }], rcv: vec![], snd: vec![], joins: vec![],
        log: Default::default(), seen: 0, r, now: 0, nmb: 1, tainted: false, slack: false, kinds: vec![], probes, weak, trace: trace.clone(), fails: vec![],
    };
    w.say(format!("capacity {cap:?}"));
    let n = 4 + w.r.below(40);
    for _ in 0..n {
        w.step();
        if w.r.below(4) != 0 {
            w.settle();
        }
        w.wake_all_fuzzy();
        if !w.fails.is_empty() {
            break;
        }
    }
    if w.fails.is_empty() {
        w.finish();
    }
    let f = std::mem::take(&mut w.fails);
    let t = trace.lock().unwrap().clone();
    (f, t)
}
