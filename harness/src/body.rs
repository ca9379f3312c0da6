//! Scripted outgoing bodies and recording of incoming ones.
use crate::rng::Rng;
use crate::sim::*;
use bytes::{Buf, Bytes};
use http::HeaderMap;
use http_body::{Body, Frame, SizeHint};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

/// A buffer made of several segments.
#[derive(Clone, Debug, Default)]
pub struct SegBuf(pub VecDeque<Bytes>);
impl SegBuf {
    pub fn one(b: Bytes) -> SegBuf {
        let mut v = VecDeque::new();
        v.push_back(b);
        SegBuf(v)
    }
    pub fn split(r: &mut Rng, b: &[u8]) -> SegBuf {
        let mut v = VecDeque::new();
        let mut b = Bytes::copy_from_slice(b);
        let parts = *r.pick(&[1usize, 1, 1, 2, 3, 5]);
        for _ in 1..parts {
            if b.is_empty() {
                break;
            }
            let k = r.range(0, b.len());
            // empty segments may sit between others
            v.push_back(b.split_to(k));
        }
        v.push_back(b);
        SegBuf(v)
    }
}
impl Buf for SegBuf {
    fn remaining(&self) -> usize {
        self.0.iter().map(|b| b.len()).sum()
    }
    fn chunk(&self) -> &[u8] {
        self.0.iter().find(|b| !b.is_empty()).map(|b| &b[..]).unwrap_or(&[])
    }
    fn advance(&mut self, mut n: usize) {
        while n > 0 {
            let f = self.0.front_mut().expect("advance past end");
            let k = n.min(f.len());
            f.advance(k);
            n -= k;
            if f.is_empty() {
                self.0.pop_front();
            }
        }
    }
    fn chunks_vectored<'a>(&'a self, dst: &mut [std::io::IoSlice<'a>]) -> usize {
        let mut n = 0;
        for b in self.0.iter().filter(|b| !b.is_empty()) {
            if n == dst.len() {
                break;
            }
            dst[n] = std::io::IoSlice::new(b);
            n += 1;
        }
        n
    }
}

#[derive(Debug)]
struct Wrapped(h2::Error);
impl std::fmt::Display for Wrapped {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "wrapped h2 error")
    }
}
impl std::error::Error for Wrapped {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.0)
    }
}
pub fn h2_err(code: u32, wrap: bool) -> BoxErr {
    let e = h2::Error::from(h2::Reason::from(code));
    if wrap {
        Box::new(Wrapped(e))
    } else {
        Box::new(e)
    }
}
/// The HTTP/2 reason carried by an error's source chain.
pub fn reason_of(e: &(dyn std::error::Error + 'static)) -> Option<u32> {
    let mut c: Option<&(dyn std::error::Error + 'static)> = Some(e);
    while let Some(x) = c {
        if let Some(h) = x.downcast_ref::<h2::Error>() {
            return h.reason().map(u32::from);
        }
        c = x.source();
    }
    None
}
#[derive(Clone)]
pub enum Step {
    Data(Vec<u8>),
    Trailers(HeaderMap),
    Pend(u32),
    Wait(Gate),
    Sleep(u64),
    Err(String),
    /// an error whose source chain carries an HTTP/2 reason
    ErrH2(u32, bool),
    /// an `Own(token)` error
    Own(u64),
    /// never ready again
    Never,
}
impl std::fmt::Debug for Step {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Step::Data(d) => write!(f, "Data({})", d.len()),
            Step::Trailers(t) => write!(f, "Trailers({t:?})"),
            Step::Pend(n) => write!(f, "Pend({n})"),
            Step::Wait(_) => write!(f, "Wait"),
            Step::Sleep(n) => write!(f, "Sleep({n}ns)"),
            Step::Err(e) => write!(f, "Err({e})"),
            Step::ErrH2(c, _) => write!(f, "ErrH2({c})"),
            Step::Own(t) => write!(f, "Own({t})"),
            Step::Never => write!(f, "Never"),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    Exact,
    Unknown,
    /// lower bound only
    Lower,
    /// upper bound only (non-empty bodies)
    Upper,
}
#[derive(Clone, Debug)]
pub struct Script {
    pub steps: Vec<Step>,
    pub hint: Hint,
    /// report is_end_stream as soon as no step is left
    pub eager_eos: bool,
}
impl Script {
    pub fn empty() -> Script {
        Script { steps: vec![], hint: Hint::Exact, eager_eos: true }
    }
    pub fn data(&self) -> Vec<u8> {
        let mut v = vec![];
        for s in &self.steps {
            if let Step::Data(d) = s {
                v.extend_from_slice(d)
            }
        }
        v
    }
    pub fn len(&self) -> usize {
        self.steps.iter().map(|s| if let Step::Data(d) = s { d.len() } else { 0 }).sum()
    }
    pub fn trailers(&self) -> Option<&HeaderMap> {
        self.steps.iter().find_map(|s| if let Step::Trailers(t) = s { Some(t) } else { None })
    }
    /// random body of `n` bytes in random frames
    pub fn gen(r: &mut Rng, n: usize) -> Script {
        let data = r.body(n);
        let mut steps = vec![];
        let style = r.below(5);
        let mut off = 0;
        while off < n {
            let k = match style {
                0 => n,
                1 => r.range(1, 10),
                2 => r.range(1, 2000),
                3 => r.range(1, n),
                _ => *r.pick(&[1usize, 15, 16, 17, 255, 256, 4096, 8192, 16384, 16385]),
            };
            let k = k.min(n - off);
            // keep the number of frames sane
            let k = if steps.len() > 60 { n - off } else { k };
            if r.pct(25) {
                steps.push(Step::Pend(r.range(1, 3) as u32));
            }
            if r.pct(5) {
                steps.push(Step::Data(vec![]));
            }
            steps.push(Step::Data(data[off..off + k].to_vec()));
            off += k;
        }
        if r.pct(25) {
            steps.push(Step::Pend(1));
        }
        let hint = *r.pick(&[Hint::Exact, Hint::Exact, Hint::Unknown, Hint::Lower, Hint::Upper]);
        Script { steps, hint, eager_eos: r.pct(60) }
    }
}

#[derive(Default, Debug, Clone)]
pub struct BodyLog {
    pub polls: u64,
    pub pulled_bytes: u64,
    pub pulled_frames: u64,
    pub ended: bool,
    pub errored: bool,
    pub dropped: bool,
    pub polls_after_end: u64,
}
pub struct ScriptBody {
    sim: Sim,
    steps: VecDeque<Step>,
    hint: Hint,
    eager_eos: bool,
    remaining: u64,
    total: u64,
    pend: u32,
    fut: Option<Pin<Box<dyn Future<Output = ()> + Send>>>,
    done: bool,
    pub log: Arc<Mutex<BodyLog>>,
}
impl ScriptBody {
    pub fn new(sim: &Sim, s: &Script) -> ScriptBody {
        ScriptBody {
            sim: sim.clone(),
            remaining: s.len() as u64,
            total: s.len() as u64,
            steps: s.steps.clone().into(),
            hint: s.hint,
            eager_eos: s.eager_eos,
            pend: 0,
            fut: None,
            done: false,
            log: Default::default(),
        }
    }
}
impl Body for ScriptBody {
    type Data = SegBuf;
    type Error = BoxErr;
    fn poll_frame(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<SegBuf>, BoxErr>>> {
        let me = &mut *self;
        let mut log = me.log.lock().unwrap();
        log.polls += 1;
        loop {
            if let Some(f) = me.fut.as_mut() {
                match f.as_mut().poll(cx) {
                    Poll::Ready(()) => me.fut = None,
                    Poll::Pending => return Poll::Pending,
                }
            }
            if me.pend > 0 {
                me.pend -= 1;
                me.sim.wake_later(cx.waker().clone());
                return Poll::Pending;
            }
            if me.done {
                log.polls_after_end += 1;
                return Poll::Ready(None);
            }
            match me.steps.pop_front() {
                None => {
                    me.done = true;
                    log.ended = true;
                    return Poll::Ready(None);
                }
                Some(Step::Data(d)) => {
                    me.remaining -= d.len() as u64;
                    log.pulled_bytes += d.len() as u64;
                    log.pulled_frames += 1;
                    me.sim.mark();
                    let b = me.sim.rng(|r| SegBuf::split(r, &d));
                    return Poll::Ready(Some(Ok(Frame::data(b))));
                }
                Some(Step::Trailers(t)) => {
                    log.pulled_frames += 1;
                    me.sim.mark();
                    return Poll::Ready(Some(Ok(Frame::trailers(t))));
                }
                Some(Step::Pend(n)) => me.pend = n,
                Some(Step::Sleep(ns)) => {
                    let sim = me.sim.clone();
                    me.fut = Some(Box::pin(async move { sim.sleep(std::time::Duration::from_nanos(ns)).await }));
                }
                Some(Step::Wait(g)) => {
                    me.fut = Some(Box::pin(async move { g.wait().await }));
                }
                Some(Step::Err(e)) => {
                    me.done = true;
                    log.errored = true;
                    me.sim.mark();
                    return Poll::Ready(Some(Err(e.into())));
                }
                Some(Step::ErrH2(c, wrap)) => {
                    me.done = true;
                    log.errored = true;
                    me.sim.mark();
                    return Poll::Ready(Some(Err(h2_err(c, wrap))));
                }
                Some(Step::Own(t)) => {
                    me.done = true;
                    log.errored = true;
                    me.sim.mark();
                    return Poll::Ready(Some(Err(Box::new(crate::facts::Own(t)))));
                }
                Some(Step::Never) => {
                    me.steps.push_front(Step::Never);
                    return Poll::Pending;
                }
            }
        }
    }
    fn is_end_stream(&self) -> bool {
        self.done || (self.eager_eos && self.steps.is_empty() && self.pend == 0)
    }
    fn size_hint(&self) -> SizeHint {
        match self.hint {
            Hint::Exact => SizeHint::with_exact(self.remaining),
            Hint::Unknown => SizeHint::default(),
            Hint::Lower => {
                let mut h = SizeHint::default();
                h.set_lower(self.remaining / 2);
                h
            }
            Hint::Upper if self.total > 0 => {
                let mut h = SizeHint::default();
                h.set_upper(self.remaining);
                h
            }
            Hint::Upper => SizeHint::default(),
        }
    }
}
impl Drop for ScriptBody {
    fn drop(&mut self) {
        self.log.lock().unwrap().dropped = true;
    }
}

// ---------- incoming ----------
#[derive(Clone, Debug, Default)]
pub struct Got {
    pub data: Vec<u8>,
    pub frames: usize,
    pub trailers: Option<Vec<(String, Vec<u8>)>>,
    pub trailer_frames: usize,
    pub err: Option<String>,
    /// HTTP/2 reason carried by the error
    pub reason: Option<u32>,
    pub facts: Option<crate::facts::Facts>,
    pub done: bool,
    /// inconsistencies noticed while reading (hint/eos/order)
    pub odd: Vec<String>,
    /// exact size announced before the first frame
    pub announced: Option<u64>,
    pub started: bool,
    /// exact size reported before each frame / data offset at that moment
    pub hints: Vec<(usize, u64, Option<u64>, bool)>,
    /// virtual time of the first poll
    pub polled_ns: Option<u64>,
}
impl Got {
    pub fn clean(&self) -> bool {
        self.done && self.err.is_none()
    }
}
pub type GotRef = Arc<Mutex<Got>>;

/// Reads a body to the end (or `max_frames`), recording into `out` as it goes.
pub async fn read_body<B>(sim: &Sim, body: &mut B, out: &GotRef, pace: u32, max_frames: usize)
where
    B: Body<Data = Bytes> + Unpin,
    B::Error: std::error::Error + 'static,
{
    {
        let mut o = out.lock().unwrap();
        o.started = true;
        o.announced = body.size_hint().exact();
    }
    let mut frames = 0;
    loop {
        if frames >= max_frames {
            return;
        }
        if sim.pct(pace) {
            let n = sim.rng(|r| r.range(1, 4));
            sim.yields(n).await;
        }
        let mut eos = false;
        let mut look = |body: &B| {
            let sh = body.size_hint();
            let end = body.is_end_stream();
            let mut o = out.lock().unwrap();
            let at = o.data.len();
            if eos && !end {
                o.odd.push("is_end_stream() went back to false".into());
            }
            eos |= end;
            if sh.upper().is_some_and(|u| u < sh.lower()) {
                o.odd.push(format!("size_hint upper bound {:?} below lower bound {}", sh.upper(), sh.lower()));
            }
            let h = (at, sh.lower(), sh.upper(), end);
            if o.hints.len() < 4000 && o.hints.last() != Some(&h) {
                o.hints.push(h);
            }
        };
        look(body);
        out.lock().unwrap().polled_ns.get_or_insert(sim.now_ns());
        let fr = std::future::poll_fn(|cx| {
            look(body);
            let p = Pin::new(&mut *body).poll_frame(cx);
            if p.is_pending() {
                look(body);
            }
            p
        })
        .await;
        sim.mark();
        let mut o = out.lock().unwrap();
        match fr {
            None => {
                o.done = true;
                break;
            }
            Some(Err(e)) => {
                o.err = Some(e.to_string());
                o.reason = reason_of(&e);
                o.facts = (&e as &(dyn std::error::Error + 'static)).downcast_ref::<hyper::Error>().map(crate::facts::Facts::of);
                break;
            }
            Some(Ok(f)) => {
                frames += 1;
                o.frames += 1;
                if eos {
                    o.odd.push("frame produced after is_end_stream() reported true".into());
                }
                match f.into_data() {
                    Ok(d) => {
                        if o.trailer_frames > 0 {
                            o.odd.push("data frame after trailers".into());
                        }
                        o.data.extend_from_slice(&d);
                    }
                    Err(f) => {
                        if let Ok(t) = f.into_trailers() {
                            o.trailer_frames += 1;
                            o.trailers = Some(crate::util::hv(&t));
                        }
                    }
                }
            }
        }
    }
    // after the end nothing more may come
    let (done, failed) = {
        let o = out.lock().unwrap();
        (o.done, o.err.is_some())
    };
    if failed {
        for _ in 0..2 {
            let w = std::task::Waker::noop();
            let mut cx = Context::from_waker(w);
            if let Poll::Ready(Some(Ok(_))) = Pin::new(&mut *body).poll_frame(&mut cx) {
                out.lock().unwrap().odd.push("frame produced after an error".into());
            }
        }
    }
    if done {
        if body.size_hint().lower() > 0 {
            let h = body.size_hint().lower();
            out.lock().unwrap().odd.push(format!("after its end the body claims at least {h} more bytes"));
        }
        for _ in 0..2 {
            let w = std::task::Waker::noop();
            let mut cx = Context::from_waker(w);
            match Pin::new(&mut *body).poll_frame(&mut cx) {
                Poll::Ready(None) => {}
                Poll::Ready(Some(Ok(_))) => out.lock().unwrap().odd.push("frame produced after end of body".into()),
                Poll::Ready(Some(Err(e))) => out.lock().unwrap().odd.push(format!("error after clean end of body: {e}")),
                Poll::Pending => out.lock().unwrap().odd.push("pending after end of body".into()),
            }
        }
    }
}
/// Checks the hints recorded while reading against what actually came.
pub fn hint_oddities(g: &Got) -> Vec<String> {
    let mut v = g.odd.clone();
    if !g.clean() {
        // ended in error: only "reported end but more/an error came" can be judged
        for (_, _, _, eos) in &g.hints {
            if *eos && g.err.is_some() {
                v.push("is_end_stream() was true but reading then failed".into());
            }
        }
        return v;
    }
    let total = g.data.len() as u64;
    for (at, lo, up, eos) in &g.hints {
        let rest = total - *at as u64;
        if *lo > rest {
            v.push(format!("size_hint lower bound {lo} at offset {at}, but only {rest} bytes came"));
        }
        if let Some(u) = up {
            if *u < rest {
                v.push(format!("size_hint upper bound {u} at offset {at}, but {rest} bytes came"));
            }
        }
        if *eos && rest > 0 {
            v.push(format!("is_end_stream at offset {at} but {rest} bytes came"));
        }
    }
    v
}
