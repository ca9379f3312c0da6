//! Deterministic single-threaded simulation: executor, virtual time, transport.
//!
//! Nothing here polls a task that was not woken (unless a case asks for
//! spurious polls), so a lost wakeup shows up as quiescence with unfinished
//! work; nothing depends on wall-clock time.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

pub type BoxErr = Box<dyn std::error::Error + Send + Sync>;

pub enum Action {
    Wake(Waker),
    Deliver(Arc<Mutex<Half>>),
}

pub struct St {
    pub rng: Rng,
    pub pool: Vec<Action>,
    pub now: u64,
    timers: BTreeMap<(u64, u64), Waker>,
    timer_seq: u64,
    pub progress: u64,
    pub hash: u64,
    pub io_ops: u64,
    pub events: u64,
    pub log: Option<Vec<String>>,
}

struct Inner {
    st: Mutex<St>,
    ready: Mutex<VecDeque<usize>>,
    base: Instant,
}

#[derive(Clone)]
pub struct Sim(Arc<Inner>);

thread_local!(static LAST_SIM: RefCell<Option<Sim>> = const { RefCell::new(None) });
/// Event log of the most recent simulation of this thread (for cases that panicked).
pub fn last_log() -> Vec<String> {
    let s = LAST_SIM.with(|l| l.borrow_mut().take());
    match s {
        Some(s) => match s.0.st.lock() {
            Ok(mut g) => g.log.take(),
            Err(p) => p.into_inner().log.take(),
        }
        .unwrap_or_default(),
        None => vec![],
    }
}

impl Sim {
    pub fn new(seed: u64) -> Sim {
        let s = Self::make(seed);
        LAST_SIM.with(|l| *l.borrow_mut() = Some(s.clone()));
        s
    }
    fn make(seed: u64) -> Sim {
        Sim(Arc::new(Inner {
            st: Mutex::new(St {
                rng: Rng::new(seed),
                pool: Vec::new(),
                now: 0,
                timers: BTreeMap::new(),
                timer_seq: 0,
                progress: 0,
                hash: 0xcbf29ce484222325,
                io_ops: 0,
                events: 0,
                log: None,
            }),
            ready: Mutex::new(VecDeque::new()),
            base: Instant::now(),
        }))
    }
    pub fn enable_log(&self) {
        self.0.st.lock().unwrap().log = Some(Vec::new());
    }
    pub fn take_log(&self) -> Vec<String> {
        self.0.st.lock().unwrap().log.take().unwrap_or_default()
    }
    pub fn log(&self, f: impl FnOnce() -> String) {
        let mut st = self.0.st.lock().unwrap();
        if st.log.is_some() {
            let now = st.now;
            let s = f();
            if let Some(l) = st.log.as_mut() {
                if l.len() < 20000 {
                    l.push(format!("[{:>8.3}ms] {}", now as f64 / 1e6, s));
                }
            }
        }
    }
    pub fn st<R>(&self, f: impl FnOnce(&mut St) -> R) -> R {
        f(&mut self.0.st.lock().unwrap())
    }
    pub fn rng<R>(&self, f: impl FnOnce(&mut Rng) -> R) -> R {
        f(&mut self.0.st.lock().unwrap().rng)
    }
    pub fn pct(&self, p: u32) -> bool {
        p > 0 && self.rng(|r| r.pct(p))
    }
    /// Wake `w` at some later, randomly chosen scheduling point.
    pub fn wake_later(&self, w: Waker) {
        self.st(|s| s.pool.push(Action::Wake(w)));
    }
    pub fn mark(&self) {
        self.st(|s| s.progress += 1);
    }
    pub fn hash(&self, x: u64) {
        self.st(|s| {
            s.hash = (s.hash ^ x).wrapping_mul(0x100000001b3);
            s.events += 1;
        })
    }
    pub fn now_ns(&self) -> u64 {
        self.st(|s| s.now)
    }
    pub fn add_timer(&self, at: u64, w: Waker) -> (u64, u64) {
        self.st(|s| {
            s.timer_seq += 1;
            let k = (at, s.timer_seq);
            s.timers.insert(k, w);
            k
        })
    }
    pub fn del_timer(&self, k: (u64, u64)) {
        self.st(|s| {
            s.timers.remove(&k);
        })
    }
    pub fn timer(&self) -> SimTimer {
        SimTimer(self.clone())
    }
    /// Suspend and be woken at a random later scheduling point.
    pub fn yield_pool(&self) -> YieldPool {
        YieldPool { sim: self.clone(), done: false }
    }
    pub async fn yields(&self, n: usize) {
        for _ in 0..n {
            self.yield_pool().await;
        }
    }
    pub async fn sleep(&self, d: Duration) {
        let at = self.now_ns() + d.as_nanos() as u64;
        SimSleep { sim: self.clone(), at, key: None }.await
    }
}

pub struct YieldPool {
    sim: Sim,
    done: bool,
}
impl Future for YieldPool {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.done {
            return Poll::Ready(());
        }
        self.done = true;
        self.sim.wake_later(cx.waker().clone());
        Poll::Pending
    }
}

// ---------- virtual time ----------
#[derive(Clone)]
pub struct SimTimer(pub Sim);
pub struct SimSleep {
    sim: Sim,
    at: u64,
    key: Option<(u64, u64)>,
}
impl Future for SimSleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if let Some(k) = self.key.take() {
            self.sim.del_timer(k);
        }
        if self.sim.now_ns() >= self.at {
            return Poll::Ready(());
        }
        let at = self.at;
        self.key = Some(self.sim.add_timer(at, cx.waker().clone()));
        Poll::Pending
    }
}
impl Drop for SimSleep {
    fn drop(&mut self) {
        if let Some(k) = self.key.take() {
            self.sim.del_timer(k);
        }
    }
}
impl hyper::rt::Sleep for SimSleep {}
impl hyper::rt::Timer for SimTimer {
    fn sleep(&self, d: Duration) -> Pin<Box<dyn hyper::rt::Sleep>> {
        let at = self.0.now_ns().saturating_add(d.as_nanos() as u64);
        Box::pin(SimSleep { sim: self.0.clone(), at, key: None })
    }
    fn sleep_until(&self, deadline: Instant) -> Pin<Box<dyn hyper::rt::Sleep>> {
        let at = deadline.saturating_duration_since(self.0 .0.base).as_nanos() as u64;
        Box::pin(SimSleep { sim: self.0.clone(), at, key: None })
    }
    fn now(&self) -> Instant {
        self.0 .0.base + Duration::from_nanos(self.0.now_ns())
    }
    fn reset(&self, sleep: &mut Pin<Box<dyn hyper::rt::Sleep>>, new_deadline: Instant) {
        let at = new_deadline.saturating_duration_since(self.0 .0.base).as_nanos() as u64;
        if let Some(mut s) = sleep.as_mut().downcast_mut_pin::<SimSleep>() {
            if let Some(k) = s.key.take() {
                s.sim.del_timer(k);
            }
            s.at = at;
        }
    }
}

// ---------- executor ----------
struct TaskWaker {
    id: usize,
    queued: AtomicBool,
    wakes: AtomicU64,
    inner: Arc<Inner>,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.wakes.fetch_add(1, Ordering::Relaxed);
        if !self.queued.swap(true, Ordering::SeqCst) {
            self.inner.ready.lock().unwrap().push_back(self.id);
        }
    }
}

struct Task {
    name: String,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    waker: Arc<TaskWaker>,
    polls: u64,
}

type Spawned = Rc<RefCell<Vec<(String, Pin<Box<dyn Future<Output = ()>>>)>>>;

pub struct Exec {
    pub sim: Sim,
    tasks: Vec<Task>,
    spawned: Spawned,
    /// percent chance per step to poll a task that was not woken
    pub spurious: u32,
    pub steps: u64,
    pub polls: u64,
    pub max_steps: u64,
    pub until: Option<u64>,
    pub spin_limit: u64,
}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Quiescent,
    /// virtual time limit reached
    TimeLimit,
    /// too many steps (inconclusive: the case was too long)
    StepLimit,
    /// a task was polled over and over without any progress anywhere
    Spin(String),
}

/// Idle until a far timer counts as at rest.
pub fn at_rest(e: End) -> End {
    if e == End::TimeLimit {
        End::Quiescent
    } else {
        e
    }
}

#[derive(Clone)]
pub struct Spawner {
    spawned: Spawned,
    name: &'static str,
}
impl Spawner {
    pub fn spawn<F: Future<Output = ()> + 'static>(&self, name: impl Into<String>, f: F) {
        self.spawned.borrow_mut().push((name.into(), Box::pin(f)));
    }
    pub fn named(&self, name: &'static str) -> Spawner {
        Spawner { spawned: self.spawned.clone(), name }
    }
}
impl<F> hyper::rt::Executor<F> for Spawner
where
    F: Future + 'static,
{
    fn execute(&self, fut: F) {
        self.spawned.borrow_mut().push((
            self.name.to_string(),
            Box::pin(async move {
                fut.await;
            }),
        ));
    }
}

impl Exec {
    pub fn new(sim: &Sim) -> Exec {
        Exec {
            sim: sim.clone(),
            tasks: Vec::new(),
            spawned: Rc::new(RefCell::new(Vec::new())),
            spurious: 0,
            steps: 0,
            polls: 0,
            max_steps: 3_000_000,
            until: None,
            spin_limit: 400,
        }
    }
    pub fn spawner(&self) -> Spawner {
        Spawner { spawned: self.spawned.clone(), name: "hyper" }
    }
    pub fn spawn<F: Future<Output = ()> + 'static>(&mut self, name: impl Into<String>, f: F) {
        self.spawned.borrow_mut().push((name.into(), Box::pin(f)));
    }
    fn adopt(&mut self) {
        let new: Vec<_> = self.spawned.borrow_mut().drain(..).collect();
        for (name, fut) in new {
            let id = self.tasks.len();
            let w = Arc::new(TaskWaker {
                id,
                queued: AtomicBool::new(true),
                wakes: AtomicU64::new(0),
                inner: self.sim.0.clone(),
            });
            self.sim.0.ready.lock().unwrap().push_back(id);
            self.tasks.push(Task { name, fut: Some(fut), waker: w, polls: 0 });
        }
    }
    /// Names of tasks that have not completed.
    pub fn pending(&self) -> Vec<String> {
        self.tasks.iter().filter(|t| t.fut.is_some()).map(|t| t.name.clone()).collect()
    }
    pub fn is_pending(&self, name: &str) -> bool {
        self.tasks.iter().any(|t| t.name == name && t.fut.is_some())
    }
    /// Drop every task with this name.
    pub fn kill(&mut self, name: &str) {
        self.adopt();
        for t in self.tasks.iter_mut() {
            if t.name == name {
                t.fut = None;
            }
        }
        self.sim.mark();
    }
    pub fn polls_of(&self, name: &str) -> u64 {
        self.tasks.iter().filter(|t| t.name == name).map(|t| t.polls).sum()
    }
    /// Runs until nothing can happen any more.
    pub fn run(&mut self) -> End {
        let mut last_progress = self.sim.st(|s| s.progress);
        let mut idle_polls = 0u64;
        loop {
            self.adopt();
            let (npool, prog) = self.sim.st(|s| (s.pool.len(), s.progress));
            if prog != last_progress {
                last_progress = prog;
                idle_polls = 0;
            }
            let nready = self.sim.0.ready.lock().unwrap().len();
            if nready + npool == 0 {
                let t = self.sim.st(|s| s.timers.keys().next().cloned());
                match t {
                    Some((at, seq)) => {
                        if let Some(u) = self.until {
                            if at > u {
                                self.sim.st(|s| s.now = s.now.max(u));
                                return End::TimeLimit;
                            }
                        }
                        let w = self.sim.st(|s| {
                            s.now = s.now.max(at);
                            s.progress += 1;
                            s.timers.remove(&(at, seq))
                        });
                        if let Some(w) = w {
                            w.wake();
                        }
                        continue;
                    }
                    None => return End::Quiescent,
                }
            }
            self.steps += 1;
            if self.steps > self.max_steps {
                return End::StepLimit;
            }
            if self.spurious > 0 && self.sim.pct(self.spurious) {
                let live: Vec<usize> =
                    (0..self.tasks.len()).filter(|&i| self.tasks[i].fut.is_some()).collect();
                if !live.is_empty() {
                    let id = self.sim.rng(|r| *r.pick(&live));
                    self.poll_task(id);
                    continue;
                }
            }
            let k = self.sim.rng(|r| r.below(nready + npool));
            if k < nready {
                let id = {
                    let mut q = self.sim.0.ready.lock().unwrap();
                    q.remove(k).unwrap()
                };
                self.tasks[id].waker.queued.store(false, Ordering::SeqCst);
                self.sim.hash(1 + id as u64);
                let done = self.poll_task(id);
                if done {
                    self.sim.mark();
                }
                idle_polls += 1;
                if idle_polls > self.spin_limit {
                    return End::Spin(self.tasks[id].name.clone());
                }
            } else {
                let a = self.sim.st(|s| {
                    s.progress += 1;
                    s.pool.swap_remove(k - nready)
                });
                match a {
                    Action::Wake(w) => w.wake(),
                    Action::Deliver(h) => deliver(&self.sim, &h),
                }
            }
        }
    }
    fn poll_task(&mut self, id: usize) -> bool {
        self.polls += 1;
        let t = &mut self.tasks[id];
        t.polls += 1;
        let waker = Waker::from(t.waker.clone());
        let mut cx = Context::from_waker(&waker);
        if let Some(f) = t.fut.as_mut() {
            if f.as_mut().poll(&mut cx).is_ready() {
                let f = t.fut.take();
                let name = t.name.clone();
                self.sim.log(|| format!("task {name} done"));
                drop(f);
                return true;
            }
        }
        false
    }
}

// ---------- transport ----------
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Seg {
    Whole,
    One,
    Fixed(usize),
    Rand(usize),
}
impl Seg {
    pub fn gen(r: &mut Rng) -> Seg {
        match r.below(7) {
            0 | 1 => Seg::Whole,
            2 => Seg::One,
            3 => Seg::Fixed(r.range(2, 9)),
            4 => Seg::Rand(12),
            5 => Seg::Rand(300),
            _ => Seg::Rand(9000),
        }
    }
    fn take(self, r: &mut Rng, avail: usize) -> usize {
        match self {
            Seg::Whole => avail,
            Seg::One => 1,
            Seg::Fixed(n) => n,
            Seg::Rand(n) => r.range(1, n.max(1)),
        }
        .min(avail)
    }
}

#[derive(Clone, Debug)]
pub struct IoCfg {
    pub rd: Seg,
    pub wr: Seg,
    pub rd_pend: u32,
    pub wr_pend: u32,
    pub fl_pend: u32,
    pub vectored: bool,
    /// written bytes stay in the endpoint until flushed
    pub buffered: bool,
    /// A flush may still be pending when everything written can already be seen by the peer.
    pub late_flush: bool,
    /// bytes travel through a delivery event instead of appearing at once
    pub lag: bool,
    /// max bytes in the direction (written, not yet read by the peer)
    pub cap: usize,
}
impl IoCfg {
    pub fn plain() -> IoCfg {
        IoCfg { rd: Seg::Whole, wr: Seg::Whole, rd_pend: 0, wr_pend: 0, fl_pend: 0, vectored: false, buffered: false, late_flush: false, lag: false, cap: usize::MAX }
    }
    pub fn gen(r: &mut Rng) -> IoCfg {
        IoCfg {
            rd: Seg::gen(r),
            wr: Seg::gen(r),
            rd_pend: *r.pick(&[0, 0, 10, 40]),
            wr_pend: *r.pick(&[0, 0, 10, 40]),
            fl_pend: *r.pick(&[0, 0, 20, 60]),
            vectored: r.pct(60),
            buffered: r.pct(50),
            late_flush: true,
            lag: r.pct(50),
            cap: *r.pick(&[usize::MAX, usize::MAX, 1, 7, 100, 4096, 70000]),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// operation fails with ConnectionReset (and stays failed)
    Err,
    /// read returns end of stream; write returns Ok(0)
    Zero,
    /// operation fails with an error of this kind whose inner error is `Own(token)`
    Own(io::ErrorKind, u64),
}
impl Fault {
    fn err(self) -> io::Error {
        match self {
            Fault::Own(k, t) => io::Error::new(k, crate::facts::Own(t)),
            _ => reset_err(),
        }
    }
}

/// One direction of the transport.
#[derive(Default)]
pub struct Half {
    unflushed: VecDeque<u8>,
    inflight: VecDeque<u8>,
    visible: VecDeque<u8>,
    fin_sent: bool,
    fin_visible: bool,
    reader_gone: bool,
    writer_gone: bool,
    delivering: bool,
    rd_waker: Option<Waker>,
    wr_waker: Option<Waker>,
    reset: bool,
    /// reading direction held back (reader sees not-ready) until released
    pub hold: bool,
    lag: bool,
    pub total_written: u64,
    pub total_read: u64,
    /// copy of everything written (in order), if recording
    pub record: Option<Vec<u8>>,
    /// bytes that became visible to the peer (flushed)
    pub total_flushed: u64,
}
impl Half {
    fn outstanding(&self) -> usize {
        self.unflushed.len() + self.inflight.len() + self.visible.len()
    }
    fn wake_rd(&mut self) {
        if let Some(w) = self.rd_waker.take() {
            w.wake()
        }
    }
    fn wake_wr(&mut self) {
        if let Some(w) = self.wr_waker.take() {
            w.wake()
        }
    }
}
fn deliver(sim: &Sim, h: &Arc<Mutex<Half>>) {
    let mut g = h.lock().unwrap();
    g.delivering = false;
    let n = g.inflight.len();
    if n > 0 {
        let k = sim.rng(|r| if r.pct(50) { n } else { r.range(1, n) });
        let d: Vec<u8> = g.inflight.drain(..k).collect();
        g.visible.extend(d);
    }
    if !g.inflight.is_empty() || (g.fin_sent && !g.fin_visible && n > 0) {
        g.delivering = true;
        drop_push(sim, h);
    } else if g.fin_sent {
        g.fin_visible = true;
    }
    g.wake_rd();
}
fn drop_push(sim: &Sim, h: &Arc<Mutex<Half>>) {
    sim.st(|s| s.pool.push(Action::Deliver(h.clone())));
}

#[derive(Default, Debug, Clone)]
pub struct IoStats {
    pub reads: u64,
    pub read_bytes: u64,
    pub writes: u64,
    pub vec_writes: u64,
    pub written: u64,
    pub flushes: u64,
    pub shutdowns: u64,
    pub shutdown_done: bool,
    pub dropped: bool,
    pub max_read_window: usize,
    pub faulted: bool,
    pub read_fault: bool,
    pub write_fault: bool,
    /// writes refused because the other end was gone
    pub broken_pipe: u64,
    /// transport operations issued after shutdown had completed
    pub write_after_shutdown: u64,
    /// writes issued after a write, flush or shutdown had failed
    pub write_after_fault: u64,
    pub eof_returned: u64,
    /// (virtual time, total written) after each write, when asked for
    pub wlog: Option<Vec<(u64, u64)>>,
}

pub struct SimIo {
    pub sim: Sim,
    pub name: &'static str,
    pub cfg: IoCfg,
    rx: Arc<Mutex<Half>>,
    tx: Arc<Mutex<Half>>,
    pub stats: Arc<Mutex<IoStats>>,
    pub faults: Arc<Mutex<Faults>>,
    flush_pending: bool,
    order: Order,
}
/// One global sequence of transport operations: who did what, and the running total.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct OpEv {
    pub a: bool,
    pub write: bool,
    pub total: u64,
    pub ns: u64,
}
pub type Order = Arc<Mutex<Option<Vec<OpEv>>>>;
#[derive(Default, Debug, Clone)]
pub struct Faults {
    /// fault when this many bytes have been read
    pub read_at: Option<(u64, Fault)>,
    pub write_at: Option<(u64, Fault)>,
    pub flush_op: Option<(u64, Fault)>,
    pub shutdown_fault: Option<Fault>,
    pub hook: FaultHook,
}
/// Called whenever a fault is about to be returned, with the operation's name and the bytes accepted but not flushed.
#[derive(Clone, Default)]
pub struct FaultHook(pub Option<Arc<dyn Fn(&'static str, usize) + Send + Sync>>);
impl std::fmt::Debug for FaultHook {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(if self.0.is_some() { "hook" } else { "-" })
    }
}

/// Handle to look at and steer a pipe from outside.
#[derive(Clone)]
pub struct Wire {
    pub sim: Sim,
    pub a2b: Arc<Mutex<Half>>,
    pub b2a: Arc<Mutex<Half>>,
    pub a: Arc<Mutex<IoStats>>,
    pub b: Arc<Mutex<IoStats>>,
    pub fa: Arc<Mutex<Faults>>,
    pub fb: Arc<Mutex<Faults>>,
    pub order: Order,
}
impl Wire {
    /// Start recording the global order of reads and writes.
    pub fn record_order(&self) {
        self.order.lock().unwrap().get_or_insert_with(Vec::new);
    }
    pub fn sent_by_a(&self) -> Vec<u8> {
        self.a2b.lock().unwrap().record.clone().unwrap_or_default()
    }
    pub fn sent_by_b(&self) -> Vec<u8> {
        self.b2a.lock().unwrap().record.clone().unwrap_or_default()
    }
    pub fn reset_all(&self) {
        for h in [&self.a2b, &self.b2a] {
            let mut h = h.lock().unwrap();
            h.reset = true;
            h.wake_rd();
            h.wake_wr();
        }
        self.sim.mark();
    }
    pub fn set_hold(h: &Arc<Mutex<Half>>, hold: bool) {
        let mut h = h.lock().unwrap();
        h.hold = hold;
        if !hold {
            h.wake_rd();
        }
    }
}

pub fn pipe(sim: &Sim, ca: IoCfg, cb: IoCfg) -> (SimIo, SimIo, Wire) {
    let mk = |lag: bool| {
        Arc::new(Mutex::new(Half { record: Some(Vec::new()), lag, ..Default::default() }))
    };
    let a2b = mk(ca.lag);
    let b2a = mk(cb.lag);
    let sa: Arc<Mutex<IoStats>> = Default::default();
    let sb: Arc<Mutex<IoStats>> = Default::default();
    let fa: Arc<Mutex<Faults>> = Default::default();
    let fb: Arc<Mutex<Faults>> = Default::default();
    let order: Order = Default::default();
    let a = SimIo { sim: sim.clone(), name: "a", cfg: ca, rx: b2a.clone(), tx: a2b.clone(), stats: sa.clone(), faults: fa.clone(), flush_pending: false, order: order.clone() };
    let b = SimIo { sim: sim.clone(), name: "b", cfg: cb, rx: a2b.clone(), tx: b2a.clone(), stats: sb.clone(), faults: fb.clone(), flush_pending: false, order: order.clone() };
    (a, b, Wire { sim: sim.clone(), a2b, b2a, a: sa, b: sb, fa, fb, order })
}

fn reset_err() -> io::Error {
    io::Error::new(io::ErrorKind::ConnectionReset, "sim: connection reset")
}

impl SimIo {
    fn note(&self, write: bool, total: u64) {
        if let Some(o) = self.order.lock().unwrap().as_mut() {
            o.push(OpEv { a: self.name == "a", write, total, ns: self.sim.now_ns() });
        }
    }
    fn op(&self) {
        self.sim.st(|s| s.io_ops += 1);
    }
    fn on_fault(&self, what: &'static str) {
        let hook = self.faults.lock().unwrap().hook.0.clone();
        let un = self.tx.lock().unwrap().unflushed.len();
        self.sim.log(|| format!("{} fault delivered on {what}", self.name));
        if let Some(h) = hook {
            h(what, un)
        }
    }
    pub fn poll_read_into(&mut self, cx: &mut Context<'_>, room: usize, out: &mut dyn FnMut(&[u8])) -> Poll<io::Result<usize>> {
        self.op();
        let mut h = self.rx.lock().unwrap();
        {
            let mut st = self.stats.lock().unwrap();
            st.reads += 1;
            st.max_read_window = st.max_read_window.max(room);
        }
        let mut room = room;
        let f = self.faults.lock().unwrap().read_at;
        if let Some((at, f)) = f {
            if h.total_read >= at {
                let mut st = self.stats.lock().unwrap();
                st.faulted = true;
                st.read_fault = true;
                drop(st);
                drop(h);
                self.on_fault("read");
                return match f {
                    Fault::Err | Fault::Own(..) => Poll::Ready(Err(f.err())),
                    Fault::Zero => Poll::Ready(Ok(0)),
                };
            }
            room = room.min((at - h.total_read) as usize);
        }
        if h.reset {
            self.stats.lock().unwrap().faulted = true;
            return Poll::Ready(Err(reset_err()));
        }
        if h.visible.is_empty() || h.hold {
            if h.fin_visible && !h.hold {
                self.stats.lock().unwrap().eof_returned += 1;
                return Poll::Ready(Ok(0));
            }
            h.rd_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if room == 0 {
            return Poll::Ready(Ok(0));
        }
        if self.sim.pct(self.cfg.rd_pend) {
            h.rd_waker = Some(cx.waker().clone());
            self.sim.wake_later(cx.waker().clone());
            return Poll::Pending;
        }
        let avail = h.visible.len().min(room);
        let n = self.sim.rng(|r| self.cfg.rd.take(r, avail));
        {
            let (x, y) = h.visible.as_slices();
            let k = n.min(x.len());
            out(&x[..k]);
            if n > k {
                out(&y[..n - k]);
            }
        }
        h.visible.drain(..n);
        h.total_read += n as u64;
        self.stats.lock().unwrap().read_bytes += n as u64;
        self.note(false, h.total_read);
        h.wake_wr();
        self.sim.mark();
        self.sim.hash(0x1000000 + n as u64);
        self.sim.log(|| format!("{} read {} bytes", self.name, n));
        Poll::Ready(Ok(n))
    }
    pub fn poll_write_bufs(&mut self, cx: &mut Context<'_>, bufs: &[&[u8]], vec: bool) -> Poll<io::Result<usize>> {
        self.op();
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        let mut h = self.tx.lock().unwrap();
        {
            let mut st = self.stats.lock().unwrap();
            st.writes += 1;
            if vec {
                st.vec_writes += 1;
            }
            if st.shutdown_done {
                st.write_after_shutdown += 1;
            }
            if st.write_fault {
                st.write_after_fault += 1;
            }
        }
        let mut max = total;
        let f = self.faults.lock().unwrap().write_at;
        if let Some((at, f)) = f {
            if h.total_written >= at {
                let mut st = self.stats.lock().unwrap();
                st.faulted = true;
                st.write_fault = true;
                drop(st);
                drop(h);
                self.on_fault("write");
                return match f {
                    Fault::Err | Fault::Own(..) => Poll::Ready(Err(f.err())),
                    Fault::Zero => Poll::Ready(Ok(0)),
                };
            }
            max = max.min((at - h.total_written) as usize);
        }
        if h.reset || h.reader_gone || h.fin_sent {
            let mut st = self.stats.lock().unwrap();
            st.faulted = true;
            st.broken_pipe += h.reader_gone as u64;
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "sim: broken pipe")));
        }
        if total == 0 {
            return Poll::Ready(Ok(0));
        }
        if self.sim.pct(self.cfg.wr_pend) {
            h.wr_waker = Some(cx.waker().clone());
            self.sim.wake_later(cx.waker().clone());
            return Poll::Pending;
        }
        let space = self.cfg.cap.saturating_sub(h.outstanding());
        if space == 0 {
            // a transport that is full pushes out what it holds
            if !h.unflushed.is_empty() {
                self.push_out(&mut h);
            }
            h.wr_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = self.sim.rng(|r| self.cfg.wr.take(r, max)).min(space);
        let mut left = n;
        for b in bufs {
            let k = left.min(b.len());
            h.unflushed.extend(&b[..k]);
            if let Some(r) = h.record.as_mut() {
                r.extend_from_slice(&b[..k]);
            }
            left -= k;
            if left == 0 {
                break;
            }
        }
        h.total_written += n as u64;
        self.note(true, h.total_written);
        {
            let mut st = self.stats.lock().unwrap();
            st.written += n as u64;
            let w = st.written;
            if let Some(l) = st.wlog.as_mut() {
                l.push((self.sim.now_ns(), w));
            }
        }
        if !self.cfg.buffered {
            self.push_out(&mut h);
        }
        // Bytes can be on their way while the flush that covers them still has to finish.
        self.flush_pending |= self.cfg.late_flush;
        self.sim.mark();
        self.sim.hash(0x2000000 + n as u64);
        self.sim.log(|| format!("{} wrote {} of {} bytes", self.name, n, total));
        Poll::Ready(Ok(n))
    }
    fn push_out(&self, h: &mut Half) {
        let d: Vec<u8> = h.unflushed.drain(..).collect();
        h.total_flushed += d.len() as u64;
        if h.lag {
            h.inflight.extend(d);
            if !h.delivering {
                h.delivering = true;
                drop_push(&self.sim, &self.tx);
            }
        } else {
            let had = !d.is_empty();
            h.visible.extend(d);
            if had {
                h.wake_rd();
            }
        }
    }
    pub fn do_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.op();
        let mut h = self.tx.lock().unwrap();
        let nfl = {
            let mut st = self.stats.lock().unwrap();
            st.flushes += 1;
            st.flushes
        };
        let f = self.faults.lock().unwrap().flush_op;
        if let Some((op, f)) = f {
            if nfl >= op {
                let mut st = self.stats.lock().unwrap();
                st.faulted = true;
                st.write_fault = true;
                drop(st);
                drop(h);
                self.on_fault("flush");
                return Poll::Ready(Err(f.err()));
            }
        }
        if h.reset {
            self.stats.lock().unwrap().faulted = true;
            return Poll::Ready(Err(reset_err()));
        }
        if !h.unflushed.is_empty() || self.flush_pending {
            if self.sim.pct(self.cfg.fl_pend) {
                self.flush_pending = true;
                self.sim.wake_later(cx.waker().clone());
                return Poll::Pending;
            }
            self.flush_pending = false;
            if !h.unflushed.is_empty() {
                self.push_out(&mut h);
                self.sim.mark();
                self.sim.hash(0x3000000);
                self.sim.log(|| format!("{} flushed", self.name));
            }
        }
        Poll::Ready(Ok(()))
    }
    pub fn do_shutdown(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.op();
        self.stats.lock().unwrap().shutdowns += 1;
        let f = self.faults.lock().unwrap().shutdown_fault;
        if let Some(f) = f {
            let mut st = self.stats.lock().unwrap();
            st.faulted = true;
            st.write_fault = true;
            drop(st);
            self.on_fault("shutdown");
            return Poll::Ready(Err(f.err()));
        }
        if self.sim.pct(self.cfg.fl_pend) {
            self.sim.wake_later(cx.waker().clone());
            return Poll::Pending;
        }
        let mut h = self.tx.lock().unwrap();
        if h.reset {
            self.stats.lock().unwrap().faulted = true;
            return Poll::Ready(Err(reset_err()));
        }
        if !h.fin_sent {
            self.push_out(&mut h);
            h.fin_sent = true;
            if h.inflight.is_empty() {
                h.fin_visible = true;
                h.wake_rd();
            } else if !h.delivering {
                h.delivering = true;
                drop_push(&self.sim, &self.tx);
            }
            self.sim.mark();
        }
        self.stats.lock().unwrap().shutdown_done = true;
        self.sim.log(|| format!("{} shutdown", self.name));
        Poll::Ready(Ok(()))
    }

    // --- async helpers for raw peers ---
    pub async fn send(&mut self, data: &[u8]) -> io::Result<()> {
        let mut off = 0;
        while off < data.len() {
            let n = std::future::poll_fn(|cx| self.poll_write_bufs(cx, &[&data[off..]], false)).await?;
            if n == 0 {
                return Err(io::ErrorKind::WriteZero.into());
            }
            off += n;
        }
        std::future::poll_fn(|cx| self.do_flush(cx)).await
    }
    /// Reads some bytes (empty = end of stream).
    pub async fn recv(&mut self, max: usize) -> io::Result<Vec<u8>> {
        let mut v = Vec::new();
        std::future::poll_fn(|cx| {
            let mut f = |b: &[u8]| v.extend_from_slice(b);
            self.poll_read_into(cx, max, &mut f)
        })
        .await?;
        Ok(v)
    }
    pub async fn close_write(&mut self) -> io::Result<()> {
        std::future::poll_fn(|cx| self.do_shutdown(cx)).await
    }
    /// Number of bytes ready to read right now.
    pub fn readable(&self) -> usize {
        self.rx.lock().unwrap().visible.len()
    }
}
impl Drop for SimIo {
    fn drop(&mut self) {
        self.stats.lock().unwrap().dropped = true;
        {
            let mut h = self.tx.lock().unwrap();
            h.writer_gone = true;
            if !h.fin_sent {
                // unflushed bytes of a dropped endpoint are lost
                h.unflushed.clear();
                h.fin_sent = true;
                if h.inflight.is_empty() {
                    h.fin_visible = true;
                    h.wake_rd();
                } else if !h.delivering {
                    h.delivering = true;
                    drop_push(&self.sim, &self.tx);
                }
            }
        }
        let mut h = self.rx.lock().unwrap();
        h.reader_gone = true;
        h.wake_wr();
        drop(h);
        if let Ok(mut st) = self.sim.0.st.try_lock() {
            st.progress += 1;
        }
    }
}

impl hyper::rt::Read for SimIo {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: hyper::rt::ReadBufCursor<'_>) -> Poll<io::Result<()>> {
        let room = buf.remaining();
        let way = self.sim.st(|s| s.io_ops % 5);
        let mut f = |b: &[u8]| {
            if way == 1 {
                // a little more than is then used
                let n = buf.remaining().min(b.len() + 9);
                buf.initialize_unfilled_to(n)[..b.len()].copy_from_slice(b);
                unsafe { buf.advance(b.len()) };
            } else if way < 3 {
                // exercises the advance() path of the cursor
                unsafe {
                    let dst = buf.as_mut();
                    for (d, s) in dst.iter_mut().zip(b) {
                        d.write(*s);
                    }
                    buf.advance(b.len());
                }
            } else {
                buf.put_slice(b)
            }
        };
        let r = self.get_mut().poll_read_into(cx, room, &mut f);
        r.map(|r| r.map(|_| ()))
    }
}
impl hyper::rt::Write for SimIo {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.get_mut().poll_write_bufs(cx, &[buf], false)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.get_mut().do_flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.get_mut().do_shutdown(cx)
    }
    fn is_write_vectored(&self) -> bool {
        self.cfg.vectored
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let v: Vec<&[u8]> = bufs.iter().map(|b| &**b).collect();
        self.get_mut().poll_write_bufs(cx, &v, true)
    }
}
impl tokio::io::AsyncRead for SimIo {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let room = buf.remaining();
        let mut f = |b: &[u8]| buf.put_slice(b);
        self.get_mut().poll_read_into(cx, room, &mut f).map(|r| r.map(|_| ()))
    }
}
impl tokio::io::AsyncWrite for SimIo {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.get_mut().poll_write_bufs(cx, &[buf], false)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.get_mut().do_flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.get_mut().do_shutdown(cx)
    }
}

impl Drop for Exec {
    fn drop(&mut self) {
        // break waker cycles
        self.tasks.iter_mut().for_each(|t| t.fut = None);
        self.spawned.borrow_mut().clear();
        let (pool, timers) = self.sim.st(|s| (std::mem::take(&mut s.pool), std::mem::take(&mut s.timers)));
        drop(pool);
        drop(timers);
    }
}

/// A future that can be dropped from outside (the inner future is dropped at once).
#[derive(Clone, Default)]
pub struct Kill(Arc<Mutex<(bool, Option<Waker>)>>);
impl Kill {
    pub fn kill(&self) {
        let mut g = self.0.lock().unwrap();
        g.0 = true;
        if let Some(w) = g.1.take() {
            w.wake()
        }
    }
    pub fn killed(&self) -> bool {
        self.0.lock().unwrap().0
    }
    /// Some(output) if it completed, None if it was killed first.
    pub async fn guard<F: Future>(&self, f: F) -> Option<F::Output> {
        let mut f = Some(Box::pin(f));
        std::future::poll_fn(move |cx| {
            {
                let mut g = self.0.lock().unwrap();
                if g.0 {
                    drop(g);
                    f = None;
                    return Poll::Ready(None);
                }
                g.1 = Some(cx.waker().clone());
            }
            f.as_mut().unwrap().as_mut().poll(cx).map(Some)
        })
        .await
    }
}

/// A one-shot condition tasks can wait on.
#[derive(Clone, Default)]
pub struct Gate(Arc<Mutex<(bool, Vec<Waker>)>>);
impl Gate {
    pub fn open(&self) {
        let mut g = self.0.lock().unwrap();
        g.0 = true;
        for w in g.1.drain(..) {
            w.wake()
        }
    }
    pub fn is_open(&self) -> bool {
        self.0.lock().unwrap().0
    }
    pub async fn wait(&self) {
        std::future::poll_fn(|cx| {
            let mut g = self.0.lock().unwrap();
            if g.0 {
                Poll::Ready(())
            } else {
                g.1.push(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
}
