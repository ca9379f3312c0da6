//! Real threads: a small pool whose tasks move between workers at every wake, whose wakers
//! dawdle when they are cloned, woken or dropped, and whose rest can be told exactly: a count
//! of queued and running tasks that is zero means that nothing will happen any more.
//! Shared state is kept to a minimum, so that it orders as little as possible of what hyper
//! does on different threads.
use crate::rng::{mix, Rng};
use std::cell::Cell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex, Weak};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::{Duration, Instant};

thread_local!(static JIT: Cell<(u64, u32)> = const { Cell::new((0, 0)) });
fn roll() -> Option<(u64, u32)> {
    JIT.try_with(|j| {
        let (mut x, p) = j.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        j.set((x, p));
        (x, p)
    })
    .ok()
}
/// a random number of this thread's own
pub fn dice(n: u64) -> u64 {
    roll().map(|(x, _)| (x >> 20) % n).unwrap_or(0)
}
/// Sometimes dawdles.
#[inline(never)]
pub fn jitter() {
    let Some((x, p)) = roll() else { return };
    if (x >> 33) % 1000 < p as u64 {
        if cfg!(miri) || (x >> 12) & 3 == 0 {
            std::thread::yield_now();
        } else {
            for _ in 0..(x >> 45) & 0x3ff {
                std::hint::spin_loop();
            }
        }
    }
}
pub fn seed_thread(seed: u64, per_mille: u32) {
    JIT.with(|j| j.set((seed | 1, per_mille)));
}

const IDLE: u8 = 0;
const QUEUED: u8 = 1;
const RUNNING: u8 = 2;
const AGAIN: u8 = 3;
const DONE: u8 = 4;

type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;
pub struct Task {
    pub name: &'static str,
    state: AtomicU8,
    abort: AtomicBool,
    fut: Mutex<Option<Fut>>,
    pool: Weak<Inner>,
    polls: AtomicU64,
}
struct Queue {
    q: Mutex<VecDeque<Arc<Task>>>,
    cv: Condvar,
}
struct Inner {
    queues: Vec<Queue>,
    outstanding: AtomicUsize,
    stop: AtomicBool,
    polls: AtomicU64,
    steals: AtomicU64,
    tasks: Mutex<Vec<Arc<Task>>>,
    panics: Mutex<Vec<(String, String)>>,
    seed: u64,
    jit: u32,
}
#[derive(Clone)]
pub struct Pool(Arc<Inner>);
#[derive(Clone)]
pub struct Handle(Arc<Task>);
impl Handle {
    /// The task is dropped, by whichever worker gets to it.
    pub fn abort(&self) {
        self.0.abort.store(true, SeqCst);
        wake(&self.0);
    }
    pub fn done(&self) -> bool {
        self.0.state.load(SeqCst) == DONE
    }
}

fn wake(t: &Arc<Task>) {
    loop {
        let s = t.state.load(Acquire);
        let n = match s {
            IDLE => QUEUED,
            RUNNING => AGAIN,
            // (must still synchronize with the next poll)
            QUEUED | AGAIN => s,
            _ => return,
        };
        if t.state.compare_exchange(s, n, AcqRel, Relaxed).is_ok() {
            if s == IDLE {
                if let Some(p) = t.pool.upgrade() {
                    p.outstanding.fetch_add(1, Relaxed);
                    p.push(t.clone());
                }
            }
            return;
        }
    }
}
impl Inner {
    fn push(&self, t: Arc<Task>) {
        let i = dice(self.queues.len() as u64) as usize;
        let q = &self.queues[i];
        let front = dice(8) == 0;
        let mut g = q.q.lock().unwrap();
        if front {
            g.push_front(t);
        } else {
            g.push_back(t);
        }
        drop(g);
        q.cv.notify_one();
    }
}

static VT: RawWakerVTable = RawWakerVTable::new(
    |p| {
        jitter();
        unsafe { Arc::increment_strong_count(p as *const Task) };
        jitter();
        RawWaker::new(p, &VT)
    },
    |p| {
        jitter();
        let t = unsafe { Arc::from_raw(p as *const Task) };
        wake(&t);
        jitter();
    },
    |p| {
        jitter();
        let t = std::mem::ManuallyDrop::new(unsafe { Arc::from_raw(p as *const Task) });
        wake(&t);
        jitter();
    },
    |p| {
        jitter();
        drop(unsafe { Arc::from_raw(p as *const Task) });
    },
);

fn run(p: &Arc<Inner>, t: Arc<Task>, w: usize) {
    let s = t.state.compare_exchange(QUEUED, RUNNING, AcqRel, Acquire);
    debug_assert!(s.is_ok());
    p.polls.fetch_add(1, Relaxed);
    if t.polls.fetch_add(1, Relaxed) as usize % p.queues.len() != w {
        p.steals.fetch_add(1, Relaxed);
    }
    let mut g = t.fut.lock().unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if t.abort.load(SeqCst) {
            drop(g.take());
            return true;
        }
        let wk = unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(t.clone()) as *const (), &VT)) };
        let done = match g.as_mut() {
            Some(f) => f.as_mut().poll(&mut Context::from_waker(&wk)).is_ready(),
            None => true,
        };
        if done {
            drop(g.take());
        }
        done
    }));
    let done = match r {
        Ok(d) => d,
        Err(_) => {
            let what = crate::report::take_panic().unwrap_or_default();
            p.panics.lock().unwrap().push(what);
            let f = g.take();
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(f)));
            true
        }
    };
    drop(g);
    if done {
        t.state.store(DONE, Release);
    } else if t.state.compare_exchange(RUNNING, IDLE, AcqRel, Acquire).is_err() {
        // woken meanwhile
        t.state.store(QUEUED, Release);
        p.outstanding.fetch_add(1, Relaxed);
        p.push(t);
    }
    p.outstanding.fetch_sub(1, Relaxed);
}
fn worker(p: Arc<Inner>, i: usize) {
    seed_thread(mix(p.seed, i as u64 + 77), p.jit);
    loop {
        let t = {
            let mut g = p.queues[i].q.lock().unwrap();
            loop {
                if let Some(t) = g.pop_front() {
                    break t;
                }
                if p.stop.load(SeqCst) {
                    return;
                }
                g = p.queues[i].cv.wait(g).unwrap();
            }
        };
        run(&p, t, i);
    }
}

#[derive(Debug, PartialEq)]
pub enum Rest {
    Quiet,
    /// more polls than any run needs
    Busy,
    /// a poll that does not come back
    Stuck,
}
pub struct Threads {
    pub pool: Pool,
    joins: Vec<std::thread::JoinHandle<()>>,
}
impl Threads {
    pub fn new(seed: u64, workers: usize, jit: u32) -> Threads {
        let inner = Arc::new(Inner {
            queues: (0..workers).map(|_| Queue { q: Mutex::new(VecDeque::new()), cv: Condvar::new() }).collect(),
            outstanding: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            polls: AtomicU64::new(0),
            steals: AtomicU64::new(0),
            tasks: Mutex::new(vec![]),
            panics: Mutex::new(vec![]),
            seed,
            jit,
        });
        seed_thread(mix(seed, 7), jit);
        let joins = (0..workers)
            .map(|i| {
                let p = inner.clone();
                std::thread::Builder::new().name(format!("w{i}")).stack_size(4 << 20).spawn(move || worker(p, i)).unwrap()
            })
            .collect();
        Threads { pool: Pool(inner), joins }
    }
    pub fn rest(&self, max_polls: u64) -> Rest {
        let p = &self.pool.0;
        let (mut last, mut since) = (u64::MAX, Instant::now());
        let mut n = 0u32;
        loop {
            if p.outstanding.load(Acquire) == 0 {
                return Rest::Quiet;
            }
            let now = p.polls.load(Relaxed);
            if now > max_polls {
                return Rest::Busy;
            }
            if now != last {
                (last, since) = (now, Instant::now());
            } else if since.elapsed() > Duration::from_secs(120) {
                return Rest::Stuck;
            }
            n += 1;
            if n < 50 || cfg!(miri) {
                std::thread::yield_now();
            } else {
                std::thread::sleep(Duration::from_micros(50));
            }
        }
    }
    pub fn polls(&self) -> (u64, u64) {
        (self.pool.0.polls.load(Relaxed), self.pool.0.steals.load(Relaxed))
    }
    pub fn pending(&self) -> Vec<&'static str> {
        self.pool.0.tasks.lock().unwrap().iter().filter(|t| t.state.load(SeqCst) != DONE).map(|t| t.name).collect()
    }
    /// Stops the workers, drops what is left, and tells of panics. Must be at rest.
    pub fn stop(self) -> Vec<(String, String)> {
        self.pool.0.stop.store(true, SeqCst);
        for q in &self.pool.0.queues {
            let _g = q.q.lock().unwrap();
            q.cv.notify_all();
        }
        for j in self.joins {
            let _ = j.join();
        }
        let tasks = std::mem::take(&mut *self.pool.0.tasks.lock().unwrap());
        for t in tasks {
            let f = t.fut.lock().unwrap().take();
            t.state.store(DONE, SeqCst);
            drop(f);
        }
        for q in &self.pool.0.queues {
            q.q.lock().unwrap().clear();
        }
        let v = std::mem::take(&mut *self.pool.0.panics.lock().unwrap());
        v
    }
    /// when a worker does not come back
    pub fn forget(self) {
        std::mem::forget(self)
    }
}
impl Pool {
    pub fn spawn(&self, name: &'static str, f: impl Future<Output = ()> + Send + 'static) -> Handle {
        let t = Arc::new(Task { name, state: AtomicU8::new(QUEUED), abort: AtomicBool::new(false), fut: Mutex::new(Some(Box::pin(f))), pool: Arc::downgrade(&self.0), polls: AtomicU64::new(0) });
        self.0.tasks.lock().unwrap().push(t.clone());
        self.0.outstanding.fetch_add(1, Relaxed);
        self.0.push(t.clone());
        Handle(t)
    }
    /// Wakes a little later, from some other thread.
    pub fn later(&self, w: Waker) {
        let n = dice(4) as u32;
        self.spawn("later", async move {
            yields(n).await;
            w.wake();
        });
    }
}
#[derive(Clone)]
pub struct PoolExec(pub Pool, pub &'static str);
impl<F> hyper::rt::Executor<F> for PoolExec
where
    F: Future + Send + 'static,
    F::Output: Send,
{
    fn execute(&self, f: F) {
        self.0.spawn(self.1, async move {
            let _ = f.await;
        });
    }
}
/// back to the end of a queue, n times
pub async fn yields(mut n: u32) {
    std::future::poll_fn(move |cx| {
        if n == 0 {
            return Poll::Ready(());
        }
        n -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

// ------------------------------------------------------------- things to wait for
#[derive(Default)]
struct FlagSt {
    set: bool,
    w: Vec<Waker>,
}
#[derive(Clone, Default)]
pub struct Flag(Arc<Mutex<FlagSt>>);
impl Flag {
    pub fn set(&self) {
        let w = {
            let mut g = self.0.lock().unwrap();
            g.set = true;
            std::mem::take(&mut g.w)
        };
        for w in w {
            w.wake();
        }
    }
    pub fn is_set(&self) -> bool {
        self.0.lock().unwrap().set
    }
    pub fn poll(&self, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.0.lock().unwrap();
        if g.set {
            return Poll::Ready(());
        }
        if !g.w.iter().any(|w| w.will_wake(cx.waker())) {
            g.w.push(cx.waker().clone());
        }
        Poll::Pending
    }
    pub async fn wait(&self) {
        std::future::poll_fn(|cx| self.poll(cx)).await
    }
}
/// a value handed from one task to another
pub struct Slot<T>(Arc<Mutex<(Option<T>, bool, Option<Waker>)>>);
impl<T> Clone for Slot<T> {
    fn clone(&self) -> Self {
        Slot(self.0.clone())
    }
}
impl<T> Default for Slot<T> {
    fn default() -> Self {
        Slot(Arc::new(Mutex::new((None, false, None))))
    }
}
impl<T> Slot<T> {
    pub fn put(&self, v: Option<T>) {
        let w = {
            let mut g = self.0.lock().unwrap();
            g.0 = v;
            g.1 = true;
            g.2.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
    pub async fn get(&self) -> Option<T> {
        std::future::poll_fn(|cx| {
            let mut g = self.0.lock().unwrap();
            if g.1 {
                return Poll::Ready(g.0.take());
            }
            g.2 = Some(cx.waker().clone());
            Poll::Pending
        })
        .await
    }
}
/// closes a slot when dropped unanswered
pub struct Giver<T>(pub Slot<T>);
impl<T> Drop for Giver<T> {
    fn drop(&mut self) {
        if !self.0 .0.lock().unwrap().1 {
            self.0.put(None);
        }
    }
}

// ------------------------------------------------------------- transport
#[derive(Default)]
struct HalfSt {
    buf: VecDeque<u8>,
    eof: bool,
    gone: bool,
    rd: Option<Waker>,
    wr: Option<Waker>,
    total: u64,
}
type Half = Arc<Mutex<HalfSt>>;
pub struct MIo {
    rd: Half,
    wr: Half,
    cap: usize,
    seg: usize,
    pend: u32,
    r: Rng,
    pool: Pool,
    vectored: bool,
    raw: bool,
}
pub fn mpipe(pool: &Pool, r: &mut Rng, roomy: bool) -> (MIo, MIo) {
    let (a, b): (Half, Half) = Default::default();
    // (two h2 endpoints that cannot write their acknowledgements stop reading, too)
    let cap = if roomy { 64 << 20 } else { *r.pick(&[64usize, 1000, 20_000, 1 << 20]) };
    let mut mk = |rd: &Half, wr: &Half| {
        let seg = if cap < 1000 { *r.pick(&[40usize, 64]) } else { *r.pick(&[100usize, 3000, 70_000]) };
        MIo { rd: rd.clone(), wr: wr.clone(), cap, seg, pend: *r.pick(&[0u32, 10, 30]), r: r.fork(), pool: pool.clone(), vectored: r.pct(50), raw: r.pct(50) }
    };
    (mk(&a, &b), mk(&b, &a))
}
impl MIo {
    pub fn cut_handle(&self) -> (Arc<dyn Fn() + Send + Sync>,) {
        let (a, b) = (self.rd.clone(), self.wr.clone());
        (Arc::new(move || {
            for h in [&a, &b] {
                let (x, y) = {
                    let mut g = h.lock().unwrap();
                    g.eof = true;
                    g.gone = true;
                    (g.rd.take(), g.wr.take())
                };
                x.into_iter().chain(y).for_each(|w| w.wake());
            }
        }),)
    }
    fn not_now(&mut self, cx: &mut Context<'_>) -> bool {
        jitter();
        if self.pend > 0 && self.r.pct(self.pend) {
            if self.r.pct(50) {
                cx.waker().wake_by_ref();
            } else {
                self.pool.later(cx.waker().clone());
            }
            return true;
        }
        false
    }
    fn write_some(&mut self, cx: &mut Context<'_>, bufs: &[&[u8]]) -> Poll<std::io::Result<usize>> {
        if bufs.iter().all(|b| b.is_empty()) {
            return Poll::Ready(Ok(0));
        }
        if self.not_now(cx) {
            return Poll::Pending;
        }
        let mut room = 1 + self.r.below(self.seg);
        let (n, w) = {
            let mut g = self.wr.lock().unwrap();
            if g.eof {
                return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
            }
            if g.gone {
                // into the void: what the peer had sent before it left must still be readable
                return Poll::Ready(Ok(room.min(bufs.iter().map(|b| b.len()).sum())));
            }
            let free = self.cap.saturating_sub(g.buf.len());
            if free == 0 {
                g.wr = Some(cx.waker().clone());
                return Poll::Pending;
            }
            room = room.min(free);
            let mut n = 0;
            for b in bufs {
                let k = b.len().min(room - n);
                g.buf.extend(&b[..k]);
                n += k;
            }
            g.total += n as u64;
            (n, g.rd.take())
        };
        if let Some(w) = w {
            w.wake();
        }
        Poll::Ready(Ok(n))
    }
}
impl hyper::rt::Read for MIo {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: hyper::rt::ReadBufCursor<'_>) -> Poll<std::io::Result<()>> {
        let me = &mut *self;
        if me.not_now(cx) {
            return Poll::Pending;
        }
        let want = (1 + me.r.below(me.seg)).min(buf.remaining());
        let w = {
            let mut g = me.rd.lock().unwrap();
            if g.buf.is_empty() {
                if !g.eof {
                    g.rd = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                return Poll::Ready(Ok(()));
            }
            let n = want.min(g.buf.len());
            let (a, b) = g.buf.as_slices();
            if me.raw {
                let (x, y) = (n.min(a.len()), n - n.min(a.len()));
                unsafe {
                    let dst = buf.as_mut().as_mut_ptr() as *mut u8;
                    std::ptr::copy_nonoverlapping(a.as_ptr(), dst, x);
                    std::ptr::copy_nonoverlapping(b.as_ptr(), dst.add(x), y);
                    buf.advance(n);
                }
            } else {
                let x = n.min(a.len());
                buf.put_slice(&a[..x]);
                buf.put_slice(&b[..n - x]);
            }
            g.buf.drain(..n);
            g.wr.take()
        };
        if let Some(w) = w {
            w.wake();
        }
        Poll::Ready(Ok(()))
    }
}
impl hyper::rt::Write for MIo {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        self.write_some(cx, &[b])
    }
    fn is_write_vectored(&self) -> bool {
        self.vectored
    }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[std::io::IoSlice<'_>]) -> Poll<std::io::Result<usize>> {
        let v: Vec<&[u8]> = b.iter().map(|s| &**s).collect();
        self.write_some(cx, &v)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        if self.not_now(cx) {
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        if self.not_now(cx) {
            return Poll::Pending;
        }
        self.close();
        Poll::Ready(Ok(()))
    }
}
impl MIo {
    fn close(&self) {
        let w = {
            let mut g = self.wr.lock().unwrap();
            g.eof = true;
            g.rd.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
impl Drop for MIo {
    fn drop(&mut self) {
        self.close();
        let w = {
            let mut g = self.rd.lock().unwrap();
            g.gone = true;
            g.wr.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}

// ------------------------------------------------------------- bodies fed by another task
pub fn pattern(id: u64, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    let mut i = 0u64;
    while v.len() < n {
        v.extend_from_slice(&mix(id, i).to_le_bytes());
        i += 1;
    }
    v.truncate(n);
    v
}
struct FeedSt {
    q: VecDeque<http_body::Frame<bytes::Bytes>>,
    done: bool,
    err: bool,
    gone: bool,
    body: Option<Waker>,
    feeder: Option<Waker>,
    cap: usize,
}
pub struct Feed(Arc<Mutex<FeedSt>>, bool);
pub struct FedBody {
    st: Arc<Mutex<FeedSt>>,
    left: Option<u64>,
    gone: bool,
}
pub fn fed(cap: usize, exact: Option<u64>) -> (Feed, FedBody) {
    let st = Arc::new(Mutex::new(FeedSt { q: VecDeque::new(), done: false, err: false, gone: false, body: None, feeder: None, cap }));
    (Feed(st.clone(), false), FedBody { st, left: exact, gone: false })
}
impl Feed {
    /// false when nobody takes it any more
    pub async fn put(&self, f: http_body::Frame<bytes::Bytes>) -> bool {
        let mut f = Some(f);
        std::future::poll_fn(|cx| {
            jitter();
            let (r, w) = {
                let mut g = self.0.lock().unwrap();
                if g.gone {
                    return Poll::Ready(false);
                }
                if g.q.len() >= g.cap {
                    g.feeder = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                g.q.push_back(f.take().unwrap());
                (true, g.body.take())
            };
            if let Some(w) = w {
                w.wake();
            }
            Poll::Ready(r)
        })
        .await
    }
    pub fn finish(mut self) {
        self.1 = true;
    }
}
impl Drop for Feed {
    fn drop(&mut self) {
        let w = {
            let mut g = self.0.lock().unwrap();
            g.done = true;
            g.err = !self.1;
            g.body.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
impl Drop for FedBody {
    fn drop(&mut self) {
        self.gone = true;
        let w = {
            let mut g = self.st.lock().unwrap();
            g.gone = true;
            g.q.clear();
            g.feeder.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
impl http_body::Body for FedBody {
    type Data = bytes::Bytes;
    type Error = Box<dyn std::error::Error + Send + Sync>;
    fn poll_frame(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<http_body::Frame<bytes::Bytes>, Self::Error>>> {
        jitter();
        let (r, w) = {
            let mut g = self.st.lock().unwrap();
            match g.q.pop_front() {
                Some(f) => (Poll::Ready(Some(Ok(f))), g.feeder.take()),
                None if g.done && g.err => {
                    g.err = false;
                    (Poll::Ready(Some(Err("the feeder went away".into()))), None)
                }
                None if g.done => (Poll::Ready(None), None),
                None => {
                    g.body = Some(cx.waker().clone());
                    (Poll::Pending, None)
                }
            }
        };
        if let (Poll::Ready(Some(Ok(f))), Some(l)) = (&r, &mut self.left) {
            if let Some(d) = f.data_ref() {
                *l = l.saturating_sub(d.len() as u64);
            }
        }
        if let Some(w) = w {
            w.wake();
        }
        r
    }
    fn size_hint(&self) -> http_body::SizeHint {
        match self.left {
            Some(n) => http_body::SizeHint::with_exact(n),
            None => http_body::SizeHint::default(),
        }
    }
    fn is_end_stream(&self) -> bool {
        let g = self.st.lock().unwrap();
        g.done && !g.err && g.q.is_empty()
    }
}
