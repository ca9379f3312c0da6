//! C25: random ownership-correct programs over the C API. Built with `--features ffi`, the
//! `hyper_unstable_ffi` cfg and AddressSanitizer; allocations made inside hyper are counted.
use crate::frames;
use crate::h1gen::*;
use crate::refh1;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::util::*;
use hyper::ffi::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::ffi::{c_int, c_void};
use std::ptr;

pub const CHECK: Check = Check {
    id: "C25",
    level: "exploration",
    rule: "a case is one program over the C API: 1-2 connections (HTTP/1 or HTTP/2), 0-4 requests each with headers set/added/overwritten, bodies from data callbacks, responses read by task or callback, iterations broken off, objects freed early, wakers delivered late, twice, from callbacks and after the executor was freed, transport faults; distinct = distinct sequences of callbacks and task results in which at least one task was returned",
    quick: 30_000,
    thorough: 1_000_000,
    run: case,
    assumptions: &["the program follows the ownership rules documented in hyper.h and passes no null or dangling pointer", "one executor is used from one thread"],
};

// ------------------------------------------------------------- allocations made inside hyper
thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static MADE: Cell<u64> = const { Cell::new(0) };
}
pub struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = INSIDE.try_with(|i| {
            if i.get() {
                LIVE.with(|x| x.set(x.get() + 1));
                MADE.with(|x| x.set(x.get() + 1));
            }
        });
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = INSIDE.try_with(|i| {
            if i.get() {
                LIVE.with(|x| x.set(x.get() - 1));
            }
        });
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// one call into hyper
macro_rules! h {
    ($e:expr) => {{
        let was = INSIDE.with(|i| i.replace(true));
        #[allow(unused_unsafe)]
        let r = unsafe { $e };
        INSIDE.with(|i| i.set(was));
        r
    }};
}
struct Outside(bool);
impl Outside {
    fn new() -> Outside {
        Outside(INSIDE.with(|i| i.replace(false)))
    }
}
impl Drop for Outside {
    fn drop(&mut self) {
        INSIDE.with(|i| i.set(self.0))
    }
}

// ------------------------------------------------------------- the program's world
type Hs = Vec<(Vec<u8>, Vec<u8>)>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Task {
    Handshake(usize),
    Send(usize, usize),
    Data(usize, usize),
    Foreach(usize, usize),
    /// made but never pushed, or an unpolled one of a freed executor
    Gone,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum BMode {
    Foreach,
    Break(usize),
    Data,
    DataSome(usize),
    Free,
    Leave,
}
#[derive(Clone, Debug, Default)]
struct Interim {
    status: u16,
    hs: Vec<(String, Vec<u8>)>,
}
struct Exch {
    method: &'static str,
    path: String,
    /// what was put in, in the order foreach must show it
    hs: Hs,
    chunks: VecDeque<Vec<u8>>,
    sent_body: Vec<u8>,
    has_body: bool,
    body_err: bool,
    body_polls: u64,
    body_w: Option<*mut hyper_waker>,
    body_wait: bool,
    ended: bool,
    submitted: bool,
    resolved: u32,
    is_err: bool,
    // the answer
    wire: Vec<u8>,
    status: u16,
    minor: u8,
    reason: Option<Vec<u8>>,
    resp_hs: Hs,
    body: Vec<u8>,
    close: bool,
    interims: Vec<Interim>,
    got_interims: Vec<Interim>,
    answered: bool,
    // reading it
    mode: BMode,
    got: Vec<u8>,
    frames: usize,
    body_ptr: *mut hyper_body,
    data_running: bool,
    over: bool,
    body_failed: bool,
    iter: Hs,
    iter_stop: usize,
}
struct Conn {
    h2: bool,
    case: bool,
    order: bool,
    out: Vec<u8>,
    parsed: usize,
    inq: VecDeque<u8>,
    avail: usize,
    read: usize,
    read_err_at: Option<usize>,
    write_err_at: Option<usize>,
    eof: bool,
    eof_given: bool,
    rd_w: Option<*mut hyper_waker>,
    wr_w: Option<*mut hyper_waker>,
    pend: u32,
    grain: usize,
    handle: *mut hyper_clientconn,
    xs: Vec<Exch>,
    next: usize,
    answered: usize,
    spoilt: bool,
    // h2
    streams: Vec<u32>,
    hello: bool,
    internal: bool,
    hs_done: bool,
    dead: bool,
    close_at_end: bool,
}
struct World {
    r: Rng,
    conns: Vec<Conn>,
    tasks: BTreeMap<usize, Task>,
    ids: usize,
    stale: Vec<*mut hyper_waker>,
    viols: Vec<String>,
    counts: BTreeMap<&'static str, u64>,
    hash: u64,
    log: Option<Vec<String>>,
}
impl World {
    fn viol(&mut self, s: String) {
        self.log(|| format!("!! {s}"));
        if self.viols.len() < 20 {
            self.viols.push(s);
        }
    }
    fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            l.push(f());
        }
    }
    fn ev(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += 1;
        self.hash = mix(self.hash, fnv(k.as_bytes()) ^ n);
    }
}
thread_local!(static W: RefCell<Option<World>> = const { RefCell::new(None) });
fn w<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|x| f(x.borrow_mut().as_mut().expect("callback without a world")))
}
fn key(c: usize, x: usize) -> *mut c_void {
    ptr::without_provenance_mut(0x1000 + (c << 8) + x)
}
fn unkey(p: *mut c_void) -> (usize, usize) {
    let n = p.addr().wrapping_sub(0x1000);
    let ok = w(|w| n >> 8 < w.conns.len());
    if !ok {
        w(|w| w.viol(format!("callback with foreign userdata {p:?}")));
        return (0, 0);
    }
    (n >> 8, n & 255)
}
/// A waker of the callback's task; some of the previous and of the extra ones live on.
fn take_waker(cx: *mut hyper_context<'_>, old: Option<*mut hyper_waker>) -> *mut hyper_waker {
    let k = h!(hyper_context_waker(cx));
    if let Some(o) = old {
        if w(|w| w.r.pct(50)) {
            h!(hyper_waker_free(o));
        } else {
            w(|w| w.stale.push(o));
        }
    }
    match w(|w| w.r.below(10)) {
        0 => {
            let e = h!(hyper_context_waker(cx));
            w(|w| w.stale.push(e));
        }
        1 => {
            // woken from inside the callback
            let e = h!(hyper_context_waker(cx));
            h!(hyper_waker_wake(e));
            w(|w| w.ev("wakes_inside_callbacks", 0));
        }
        _ => {}
    }
    if k.is_null() {
        w(|w| w.viol("hyper_context_waker returned null".into()));
    }
    k
}

extern "C" fn on_read(ud: *mut c_void, cx: *mut hyper_context<'_>, buf: *mut u8, len: usize) -> usize {
    let _o = Outside::new();
    let (c, _) = unkey(ud);
    enum R {
        N(Vec<u8>),
        Eof,
        Err,
        Pend(Option<*mut hyper_waker>),
    }
    let r = w(|w| {
        if len == 0 {
            w.viol("read callback with no room".into());
        }
        let p = w.conns[c].pend;
        if w.r.pct(p) {
            return R::Pend(w.conns[c].rd_w.take());
        }
        let g = w.conns[c].grain;
        let k = 1 + w.r.below(g);
        let c = &mut w.conns[c];
        let mut n = k.min(c.avail).min(len);
        if let Some(at) = c.read_err_at {
            if c.read >= at {
                return R::Err;
            }
            n = n.min(at - c.read);
        }
        if n > 0 {
            c.avail -= n;
            c.read += n;
            return R::N(c.inq.drain(..n).collect());
        }
        if c.eof && c.inq.is_empty() {
            c.eof_given = true;
            return R::Eof;
        }
        R::Pend(c.rd_w.take())
    });
    match r {
        R::N(d) => {
            unsafe { ptr::copy_nonoverlapping(d.as_ptr(), buf, d.len()) };
            w(|w| {
                w.ev("reads", d.len() as u64);
                w.log(|| format!("conn {c}: read {} bytes", d.len()));
            });
            d.len()
        }
        R::Eof => {
            w(|w| w.ev("read_eof", 0));
            0
        }
        R::Err => {
            w(|w| {
                w.conns[c].spoilt = true;
                w.ev("read_errors", 0)
            });
            HYPER_IO_ERROR
        }
        R::Pend(old) => {
            let k = take_waker(cx, old);
            w(|w| {
                w.conns[c].rd_w = Some(k);
                w.ev("reads_pending", 0);
            });
            HYPER_IO_PENDING
        }
    }
}
extern "C" fn on_write(ud: *mut c_void, cx: *mut hyper_context<'_>, buf: *const u8, len: usize) -> usize {
    let _o = Outside::new();
    let (c, _) = unkey(ud);
    let data = unsafe { std::slice::from_raw_parts(buf, len) };
    let r = w(|w| {
        let p = w.conns[c].pend;
        if w.r.pct(p) {
            return Err(w.conns[c].wr_w.take());
        }
        let g = w.conns[c].grain;
        let k = 1 + w.r.below(g);
        let mut n = k.min(len);
        let cn = &mut w.conns[c];
        if let Some(at) = cn.write_err_at {
            if cn.out.len() >= at {
                cn.spoilt = true;
                w.ev("write_errors", 0);
                return Ok(HYPER_IO_ERROR);
            }
            n = n.min(at - cn.out.len());
        }
        cn.out.extend_from_slice(&data[..n]);
        w.ev("writes", n as u64);
        w.log(|| format!("conn {c}: wrote {n} of {len} bytes"));
        Ok(n)
    });
    match r {
        Ok(n) => n,
        Err(old) => {
            let k = take_waker(cx, old);
            w(|w| {
                w.conns[c].wr_w = Some(k);
                w.ev("writes_pending", 0);
            });
            HYPER_IO_PENDING
        }
    }
}
extern "C" fn on_data(ud: *mut c_void, cx: *mut hyper_context<'_>, out: *mut *mut hyper_buf) -> c_int {
    let _o = Outside::new();
    let (c, x) = unkey(ud);
    enum R {
        Pend(Option<*mut hyper_waker>),
        Data(Vec<u8>),
        End,
        Err,
    }
    let r = w(|w| {
        let pend = w.conns[c].pend.max(10);
        let p = w.r.pct(pend);
        w.ev("body_polls", 0);
        let e = &mut w.conns[c].xs[x];
        e.body_polls += 1;
        if e.ended {
            w.viol("data callback called after it ended the body".into());
            return R::End;
        }
        let e = &mut w.conns[c].xs[x];
        if p {
            e.body_wait = true;
            return R::Pend(e.body_w.take());
        }
        match e.chunks.pop_front() {
            Some(d) => R::Data(d),
            None => {
                e.ended = true;
                if e.body_err {
                    R::Err
                } else {
                    R::End
                }
            }
        }
    });
    match r {
        R::Pend(old) => {
            let k = take_waker(cx, old);
            w(|w| w.conns[c].xs[x].body_w = Some(k));
            HYPER_POLL_PENDING
        }
        R::Data(d) => {
            let b = h!(hyper_buf_copy(d.as_ptr(), d.len()));
            unsafe { *out = b };
            HYPER_POLL_READY
        }
        R::End => HYPER_POLL_READY,
        R::Err => {
            if w(|w| w.r.pct(70)) {
                HYPER_POLL_ERROR
            } else {
                77
            }
        }
    }
}
fn bytes_of(b: *const hyper_buf) -> Vec<u8> {
    let (p, n) = (h!(hyper_buf_bytes(b)), h!(hyper_buf_len(b)));
    unsafe { std::slice::from_raw_parts(p, n) }.to_vec()
}
extern "C" fn on_chunk(ud: *mut c_void, b: *const hyper_buf) -> c_int {
    let _o = Outside::new();
    let (c, x) = unkey(ud);
    let d = bytes_of(b);
    w(|w| {
        w.ev("chunks", d.len() as u64);
        let e = &mut w.conns[c].xs[x];
        e.got.extend_from_slice(&d);
        e.frames += 1;
        let (over, done) = (e.over, matches!(e.mode, BMode::Break(k) if e.frames >= k));
        if over {
            w.viol("chunk callback after the iteration was over".into());
        }
        let e = &mut w.conns[c].xs[x];
        if done {
            e.over = true;
            HYPER_ITER_BREAK
        } else {
            HYPER_ITER_CONTINUE
        }
    })
}
extern "C" fn on_header(ud: *mut c_void, n: *const u8, nl: usize, v: *const u8, vl: usize) -> c_int {
    let _o = Outside::new();
    let (c, x) = unkey(ud);
    let (n, v) = unsafe { (std::slice::from_raw_parts(n, nl).to_vec(), std::slice::from_raw_parts(v, vl).to_vec()) };
    w(|w| {
        w.ev("header_visits", nl as u64);
        let e = &mut w.conns[c].xs[x];
        e.iter.push((n, v));
        if e.iter.len() >= e.iter_stop {
            HYPER_ITER_BREAK
        } else {
            HYPER_ITER_CONTINUE
        }
    })
}
fn iterate(c: usize, x: usize, hs: *const hyper_headers, stop: usize) -> Hs {
    w(|w| {
        let e = &mut w.conns[c].xs[x];
        e.iter.clear();
        e.iter_stop = stop;
    });
    h!(hyper_headers_foreach(hs, on_header, key(c, x)));
    w(|w| std::mem::take(&mut w.conns[c].xs[x].iter))
}
extern "C" fn on_info(ud: *mut c_void, resp: *mut hyper_response) {
    let _o = Outside::new();
    let (c, x) = unkey(ud);
    let status = h!(hyper_response_status(resp));
    let hs = h!(hyper_response_headers(resp));
    let hs = iterate(c, x, hs, usize::MAX);
    let (p, n) = (h!(hyper_response_reason_phrase(resp)), h!(hyper_response_reason_phrase_len(resp)));
    let _ = unsafe { std::slice::from_raw_parts(p, n) }.to_vec();
    w(|w| {
        w.ev("informational", status as u64);
        let hs = hs.iter().map(|(k, v)| (String::from_utf8_lossy(k).to_ascii_lowercase(), v.clone())).collect();
        w.conns[c].xs[x].got_interims.push(Interim { status, hs });
    });
}

// ------------------------------------------------------------- generating the program
fn mix_case(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.pct(40) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
/// the fields of a head as they stand on the wire
fn raw_fields(head: &[u8]) -> Hs {
    let mut v = vec![];
    for l in head.split(|b| *b == b'\n').skip(1) {
        let l = l.strip_suffix(b"\r").unwrap_or(l);
        if let Some(i) = l.iter().position(|b| *b == b':') {
            let mut x = &l[i + 1..];
            while let [b' ' | b'\t', t @ ..] = x {
                x = t;
            }
            while let [t @ .., b' ' | b'\t'] = x {
                x = t;
            }
            v.push((l[..i].to_vec(), x.to_vec()));
        }
    }
    v
}
fn gen_exch(r: &mut Rng, h2: bool, last: bool, maxb: usize) -> Exch {
    let has_body = r.pct(45);
    let method = if has_body { *r.pick(&["POST", "PUT", "PATCH"]) } else { *r.pick(&["GET", "GET", "DELETE", "HEAD"]) };
    let mut chunks = VecDeque::new();
    let mut sent = vec![];
    if has_body {
        for _ in 0..r.range(0, 5) {
            let n = if r.pct(10) { 0 } else { r.size(maxb.max(20)) };
            let b = r.body(n);
            sent.extend_from_slice(&b);
            chunks.push_back(b);
        }
    }
    let body_err = has_body && r.pct(8);
    let mut e = Exch {
        method,
        path: format!("/{}", r.below(1000)),
        hs: vec![],
        chunks,
        sent_body: sent,
        has_body,
        body_err,
        body_polls: 0,
        body_w: None,
        body_wait: false,
        ended: false,
        submitted: false,
        resolved: 0,
        is_err: false,
        wire: vec![],
        status: 200,
        minor: 1,
        reason: None,
        resp_hs: vec![],
        body: vec![],
        close: false,
        interims: vec![],
        got_interims: vec![],
        answered: false,
        mode: match r.below(12) {
            0..=3 => BMode::Foreach,
            4 => BMode::Break(r.range(1, 3)),
            5..=8 => BMode::Data,
            9 => BMode::DataSome(r.range(1, 3)),
            10 => BMode::Free,
            _ => BMode::Leave,
        },
        got: vec![],
        frames: 0,
        body_ptr: ptr::null_mut(),
        data_running: false,
        over: false,
        body_failed: false,
        iter: vec![],
        iter_stop: usize::MAX,
    };
    if h2 {
        e.status = *r.pick(&[200, 200, 201, 404, 500, 204]);
        let n = if method == "HEAD" || e.status == 204 { 0 } else { r.size(maxb) };
        e.body = r.body(n);
        for _ in 0..r.range(0, 6) {
            let k = format!("x-{}", r.below(4));
            let v = r.below(1000).to_string();
            e.resp_hs.push((k.into_bytes(), v.into_bytes()));
        }
    } else {
        let m = gen_response(r, &RespOpt { method: method.into(), max_body: maxb, last, max_headers: 60 });
        for _ in 0..if r.pct(20) { r.range(1, 3) } else { 0 } {
            let (st, hs, wire) = gen_interim(r);
            e.interims.push(Interim { status: st, hs });
            e.wire.extend_from_slice(&wire);
        }
        e.wire.extend_from_slice(&m.wire);
        e.status = m.status;
        e.minor = m.minor;
        e.reason = m.reason.is_ascii().then(|| m.reason.clone().into_bytes());
        e.resp_hs = raw_fields(&m.wire[..m.head_len]);
        e.body = m.body;
        e.close = m.uses_close || m.kind == BodyKind::Close;
    }
    e
}
/// the request's header operations, mirrored in a model
fn put_headers(r: &mut Rng, hs: *mut hyper_headers, h2: bool, body: Option<usize>) -> (Hs, Vec<String>) {
    let mut model: Hs = vec![];
    let mut ops = vec![];
    let names = ["x-a", "x-b", "accept", "set-cookie", "x-long-name-here", "cookie"];
    let n = r.range(0, 12);
    let same = |a: &[u8], b: &[u8]| a.eq_ignore_ascii_case(b);
    let mut put = |model: &mut Hs, set: bool, k: &str, v: &[u8]| {
        let code = if set {
            h!(hyper_headers_set(hs, k.as_ptr(), k.len(), v.as_ptr(), v.len()))
        } else {
            h!(hyper_headers_add(hs, k.as_ptr(), k.len(), v.as_ptr(), v.len()))
        };
        ops.push(format!("{}({k}, {})", if set { "set" } else { "add" }, show(v)));
        if code as u32 != hyper_code::HYPERE_OK as u32 {
            w(|w| w.viol(format!("hyper_headers_set/add refused {k}")));
            return;
        }
        if set {
            // takes the place of the first one, or goes last
            match model.iter().position(|(n, _)| same(n, k.as_bytes())) {
                Some(i) => {
                    model[i] = (k.as_bytes().to_vec(), v.to_vec());
                    let mut j = 0;
                    model.retain(|(n, _)| {
                        j += 1;
                        j - 1 == i || !same(n, k.as_bytes())
                    });
                }
                None => model.push((k.as_bytes().to_vec(), v.to_vec())),
            }
        } else {
            model.push((k.as_bytes().to_vec(), v.to_vec()));
        }
    };
    if !h2 || r.pct(50) {
        let k = mix_case(r, "host");
        put(&mut model, r.pct(50), &k, b"example.com");
    }
    for _ in 0..n {
        let k = *r.pick(&names);
        let k = mix_case(r, k);
        let v = value(r);
        if r.pct(8) {
            // refused, and without effect
            let bad = *r.pick(&["a b", "", "x:y", "\u{e9}"]);
            let c = h!(hyper_headers_set(hs, bad.as_ptr(), bad.len(), v.as_ptr(), v.len()));
            let c2 = h!(hyper_headers_add(hs, k.as_ptr(), k.len(), b"a\r\nb".as_ptr(), 4));
            if c as u32 != hyper_code::HYPERE_INVALID_ARG as u32 || c2 as u32 != hyper_code::HYPERE_INVALID_ARG as u32 {
                w(|w| w.viol("an invalid header was accepted".into()));
            }
            continue;
        }
        put(&mut model, r.pct(35), &k, &v);
    }
    if let Some(n) = body {
        if r.pct(40) {
            let k = mix_case(r, "content-length");
            put(&mut model, true, &k, n.to_string().as_bytes());
        }
    }
    (model, ops)
}

// ------------------------------------------------------------- running it
struct Prog {
    exec: *const hyper_executor,
    early: Option<u64>,
}
fn new_task(k: Task) -> usize {
    w(|w| {
        w.ids += 1;
        w.tasks.insert(w.ids, k);
        w.ids
    })
}
fn push(p: &Prog, t: *mut hyper_task, k: Task) {
    if t.is_null() {
        w(|w| w.viol(format!("no task made for {k:?}")));
        return;
    }
    let id = new_task(k);
    let ud: *mut c_void = ptr::without_provenance_mut(0x5000_0000 + id);
    h!(hyper_task_set_userdata(t, ud));
    if h!(hyper_task_userdata(t)) != ud {
        w(|w| w.viol("task userdata not kept".into()));
    }
    let c = h!(hyper_executor_push(p.exec, t));
    if c as u32 != hyper_code::HYPERE_OK as u32 {
        w(|w| w.viol("hyper_executor_push refused a task".into()));
    }
}
fn judge_error(err: *mut hyper_error) -> (u32, String) {
    let code = h!(hyper_error_code(err)) as u32;
    let mut buf = [0xAAu8; 200];
    let n = h!(hyper_error_print(err, buf.as_mut_ptr(), 150));
    if n == 0 || n > 150 || buf[150..].iter().any(|b| *b != 0xAA) {
        w(|w| w.viol(format!("hyper_error_print wrote {n} bytes into 150")));
    }
    let text = String::from_utf8_lossy(&buf[..n.min(150)]).to_string();
    let cut = w(|w| w.r.below(8));
    let mut small = [0xAAu8; 16];
    let m = h!(hyper_error_print(err, small.as_mut_ptr(), cut));
    if m > cut || small[cut..].iter().any(|b| *b != 0xAA) || small[..m] != buf[..m] {
        w(|w| w.viol(format!("hyper_error_print wrote {m} bytes into {cut}")));
    }
    h!(hyper_error_free(err));
    w(|w| w.ev("errors", code as u64));
    (code, text)
}
fn send_next(p: &Prog, c: usize) {
    let Some((x, h2, handle)) = w(|w| {
        let k = &mut w.conns[c];
        if k.handle.is_null() || k.next >= k.xs.len() {
            return None;
        }
        k.next += 1;
        Some((k.next - 1, k.h2, k.handle))
    }) else {
        return;
    };
    let mut r = w(|w| w.r.fork());
    let r = &mut r;
    let req = h!(hyper_request_new());
    let (method, path, has_body, blen) = w(|w| {
        let e = &w.conns[c].xs[x];
        (e.method, e.path.clone(), e.has_body, e.sent_body.len())
    });
    let body_err = w(|w| w.conns[c].xs[x].body_err);
    let mut rc = vec![];
    rc.push(h!(hyper_request_set_method(req, method.as_ptr(), method.len())) as u32);
    if h2 {
        let (s, a) = ("http", "example.com");
        if r.pct(50) {
            rc.push(h!(hyper_request_set_uri_parts(req, s.as_ptr(), s.len(), a.as_ptr(), a.len(), path.as_ptr(), path.len())) as u32);
        } else {
            let u = format!("{s}://{a}{path}");
            rc.push(h!(hyper_request_set_uri(req, u.as_ptr(), u.len())) as u32);
        }
    } else {
        if r.pct(70) {
            rc.push(h!(hyper_request_set_uri(req, path.as_ptr(), path.len())) as u32);
        } else {
            rc.push(h!(hyper_request_set_uri_parts(req, ptr::null(), 0, ptr::null(), 0, path.as_ptr(), path.len())) as u32);
        }
    }
    if r.pct(30) {
        rc.push(h!(hyper_request_set_version(req, if h2 { HYPER_HTTP_VERSION_2 } else { *r.pick(&[HYPER_HTTP_VERSION_1_1, HYPER_HTTP_VERSION_NONE]) })) as u32);
        if h!(hyper_request_set_version(req, 12345)) as u32 != hyper_code::HYPERE_INVALID_ARG as u32 {
            w(|w| w.viol("an unknown version was accepted".into()));
        }
    }
    let hs = h!(hyper_request_headers(req));
    let (model, ops) = put_headers(r, hs, h2, (has_body && !body_err).then_some(blen));
    // what foreach shows is what was put in, in order
    let seen = iterate(c, x, hs, usize::MAX);
    if seen != model {
        w(|w| w.viol(format!("hyper_headers_foreach over {ops:?} visited {:?}", seen.iter().map(|(k, v)| format!("{}: {}", show(k), show(v))).collect::<Vec<_>>())));
    }
    if !model.is_empty() && r.pct(20) {
        let k = r.range(1, model.len());
        let part = iterate(c, x, hs, k);
        if part[..] != model[..k.min(model.len())] {
            w(|w| w.viol(format!("a header iteration stopped after {k} fields visited {}", part.len())));
        }
    }
    if has_body {
        let b = h!(hyper_body_new());
        h!(hyper_body_set_userdata(b, key(c, x)));
        h!(hyper_body_set_data_func(b, on_data));
        if r.pct(8) {
            // replaced: the first one is dropped
            let b0 = h!(hyper_body_new());
            rc.push(h!(hyper_request_set_body(req, b0)) as u32);
        }
        rc.push(h!(hyper_request_set_body(req, b)) as u32);
    } else if r.pct(10) {
        let b = h!(hyper_body_new());
        if r.pct(50) {
            h!(hyper_body_free(b));
        } else {
            rc.push(h!(hyper_request_set_body(req, b)) as u32);
        }
    }
    rc.push(h!(hyper_request_on_informational(req, on_info, key(c, x))) as u32);
    if rc.iter().any(|c| *c != hyper_code::HYPERE_OK as u32) {
        w(|w| w.viol(format!("a request setter refused a valid argument: {rc:?}")));
    }
    w(|w| {
        w.conns[c].xs[x].hs = model;
        w.log(|| format!("conn {c}: {method} {path} {ops:?}"));
    });
    if r.pct(4) {
        h!(hyper_request_free(req));
        w(|w| {
            w.ev("requests_freed", 0);
            let e = &mut w.conns[c].xs[x];
            e.over = true;
            e.resolved = 1;
            e.answered = true;
        });
        return;
    }
    let t = h!(hyper_clientconn_send(handle, req));
    // (of a connection's last request only: which request is which is told by their order)
    if w(|w| x + 1 == w.conns[c].xs.len()) && r.pct(6) {
        // the task is dropped before it was pushed: the request may still go out
        h!(hyper_task_free(t));
        w(|w| {
            w.ev("tasks_freed", 0);
            w.conns[c].spoilt = true;
            let e = &mut w.conns[c].xs[x];
            e.submitted = true;
            e.over = true;
            e.resolved = 1;
        });
        return;
    }
    w(|w| w.conns[c].xs[x].submitted = true);
    push(p, t, Task::Send(c, x));
}
fn body_next(p: &Prog, c: usize, x: usize) {
    let b = w(|w| {
        w.conns[c].xs[x].data_running = true;
        w.conns[c].xs[x].body_ptr
    });
    let t = h!(hyper_body_data(b));
    push(p, t, Task::Data(c, x));
}
fn free_body(c: usize, x: usize) {
    let b = w(|w| std::mem::replace(&mut w.conns[c].xs[x].body_ptr, ptr::null_mut()));
    if !b.is_null() {
        h!(hyper_body_free(b));
    }
}
fn faulty(w: &World, c: usize) -> bool {
    let k = &w.conns[c];
    k.spoilt || k.dead
}
fn judge_response(p: &Prog, c: usize, x: usize, resp: *mut hyper_response) {
    let status = h!(hyper_response_status(resp));
    let version = h!(hyper_response_version(resp));
    let (rp, rl) = (h!(hyper_response_reason_phrase(resp)), h!(hyper_response_reason_phrase_len(resp)));
    let reason = unsafe { std::slice::from_raw_parts(rp, rl) }.to_vec();
    let hs = h!(hyper_response_headers(resp));
    let seen = iterate(c, x, hs, usize::MAX);
    w(|w| {
        w.ev("responses", status as u64);
        let (h2, case, order) = (w.conns[c].h2, w.conns[c].case, w.conns[c].order);
        let e = &w.conns[c].xs[x];
        let mut bad = vec![];
        if !e.answered {
            bad.push("a response before the peer sent it".to_string());
        }
        if status != e.status {
            bad.push(format!("status {status} instead of {}", e.status));
        }
        let v = if h2 { HYPER_HTTP_VERSION_2 } else if e.minor == 1 { HYPER_HTTP_VERSION_1_1 } else { HYPER_HTTP_VERSION_1_0 };
        if version != v {
            bad.push(format!("version {version} instead of {v}"));
        }
        if let Some(r) = &e.reason {
            if *r != reason {
                bad.push(format!("reason {:?} instead of {:?}", show(&reason), show(r)));
            }
        }
        let fold = |v: &Hs| -> Hs { v.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect() };
        let want = if case && !h2 { e.resp_hs.clone() } else { fold(&e.resp_hs) };
        let grouped = |v: &Hs| {
            let mut m: BTreeMap<Vec<u8>, Hs> = BTreeMap::new();
            for (k, x) in v {
                m.entry(k.to_ascii_lowercase()).or_default().push((k.clone(), x.clone()));
            }
            m
        };
        let same = if order && !h2 { want == seen } else { grouped(&want) == grouped(&seen) };
        if !same {
            let t = |v: &Hs| v.iter().map(|(k, v)| format!("{}: {}", show(k), show(v))).collect::<Vec<_>>();
            bad.push(format!("headers (case kept {case}, order kept {order}) {:?} instead of {:?}", t(&seen), t(&want)));
        }
        if !h2 && e.got_interims.len() != e.interims.len() {
            bad.push(format!("{} informational callbacks instead of {}", e.got_interims.len(), e.interims.len()));
        }
        for (a, b) in e.interims.iter().zip(&e.got_interims) {
            if a.status != b.status {
                bad.push(format!("informational {} instead of {}", b.status, a.status));
            } else if let Err(m) = same_fields(&a.hs, &b.hs) {
                bad.push(format!("informational {}: {m}", a.status));
            }
        }
        for b in bad {
            w.viol(format!("conn {c} exchange {x}: {b}"));
        }
    });
    let mode = w(|w| w.conns[c].xs[x].mode);
    if mode == BMode::Leave {
        h!(hyper_response_free(resp));
        w(|w| {
            let k = &mut w.conns[c];
            k.xs[x].over = true;
            k.spoilt |= !k.h2;
        });
        return;
    }
    let b = h!(hyper_response_body(resp));
    let first = w(|w| w.r.pct(50));
    if first {
        h!(hyper_response_free(resp));
    }
    w(|w| w.conns[c].xs[x].body_ptr = b);
    match mode {
        BMode::Foreach | BMode::Break(_) => {
            w(|w| w.conns[c].xs[x].body_ptr = ptr::null_mut());
            let t = h!(hyper_body_foreach(b, on_chunk, key(c, x)));
            if w(|w| w.r.pct(3)) {
                h!(hyper_task_free(t));
                w(|w| {
                    w.ev("tasks_freed", 0);
                    let k = &mut w.conns[c];
                    k.xs[x].over = true;
                    k.spoilt |= !k.h2;
                });
            } else {
                push(p, t, Task::Foreach(c, x));
            }
        }
        BMode::Data | BMode::DataSome(_) => body_next(p, c, x),
        _ => {
            free_body(c, x);
            w(|w| {
                let k = &mut w.conns[c];
                k.xs[x].over = true;
                k.spoilt |= !k.h2;
            });
        }
    }
    if !first {
        h!(hyper_response_free(resp));
    }
}
fn end_body(c: usize, x: usize, err: Option<(u32, String)>) {
    w(|w| {
        let f = faulty(w, c);
        let e = &mut w.conns[c].xs[x];
        let broke = matches!(e.mode, BMode::Break(k) if e.frames >= k);
        e.over = true;
        let (n, want) = (e.got.len(), e.body.len());
        let prefix = e.body.starts_with(&e.got);
        match &err {
            None => {
                if broke {
                    w.viol("a broken off iteration ended without error".into());
                } else if !prefix || n != want {
                    w.viol(format!("conn {c} exchange {x}: body ended with {n} of {want} bytes (prefix {prefix})"));
                }
                w.ev("bodies_complete", n as u64);
            }
            Some((code, text)) => {
                e.body_failed = true;
                if !prefix {
                    w.viol(format!("conn {c} exchange {x}: body bytes that were not sent"));
                }
                if broke {
                    if *code != hyper_code::HYPERE_ABORTED_BY_CALLBACK as u32 {
                        w.viol(format!("a broken off iteration failed with code {code}: {text}"));
                    }
                    let k = &mut w.conns[c];
                    k.spoilt |= !k.h2;
                } else if !f {
                    w.viol(format!("conn {c} exchange {x}: body failed: {text}"));
                }
            }
        }
    });
}
fn on_task(p: &Prog, t: *mut hyper_task) {
    let ty = h!(hyper_task_type(t)) as u32;
    let ud = h!(hyper_task_userdata(t));
    let val = h!(hyper_task_value(t));
    let again = h!(hyper_task_value(t));
    if !again.is_null() {
        w(|w| w.viol("hyper_task_value gave a second value".into()));
    }
    if (ty == hyper_task_return_type::HYPER_TASK_EMPTY as u32) != val.is_null() {
        w(|w| w.viol(format!("a task of type {ty} has value {val:?}")));
    }
    h!(hyper_task_free(t));
    let kind = w(|w| {
        w.ev("tasks", ty as u64);
        if ud.is_null() {
            w.ev("internal_tasks", 0);
            None
        } else {
            let id = ud.addr().wrapping_sub(0x5000_0000);
            let k = w.tasks.remove(&id);
            w.log(|| format!("task {id} {k:?} returned, type {ty}"));
            if k.is_none() {
                w.viol(format!("task {ud:?} was returned twice, or was never pushed"));
            }
            k
        }
    });
    const EMPTY: u32 = hyper_task_return_type::HYPER_TASK_EMPTY as u32;
    const ERROR: u32 = hyper_task_return_type::HYPER_TASK_ERROR as u32;
    const CLIENTCONN: u32 = hyper_task_return_type::HYPER_TASK_CLIENTCONN as u32;
    const RESPONSE: u32 = hyper_task_return_type::HYPER_TASK_RESPONSE as u32;
    const BUF: u32 = hyper_task_return_type::HYPER_TASK_BUF as u32;
    let wrong = |k: &str| w(|w| w.viol(format!("{k} task returned with type {ty}")));
    match kind {
        None => {
            if ty != EMPTY {
                wrong("internal");
                if ty == ERROR {
                    judge_error(val.cast());
                }
            }
        }
        Some(Task::Gone) => wrong("freed"),
        Some(Task::Handshake(c)) => match ty {
            CLIENTCONN => {
                w(|w| {
                    w.conns[c].handle = val.cast();
                    w.conns[c].hs_done = true;
                });
                let n = w(|w| if w.conns[c].h2 { w.r.range(1, 4) } else { 1 });
                for _ in 0..n {
                    send_next(p, c);
                }
            }
            ERROR => {
                let (_, m) = judge_error(val.cast());
                w(|w| {
                    w.conns[c].hs_done = true;
                    if !faulty(w, c) {
                        w.viol(format!("handshake failed: {m}"));
                    }
                    w.conns[c].dead = true;
                });
            }
            _ => wrong("handshake"),
        },
        Some(Task::Send(c, x)) => {
            w(|w| w.conns[c].xs[x].resolved += 1);
            match ty {
                RESPONSE => judge_response(p, c, x, val.cast()),
                ERROR => {
                    let (code, m) = judge_error(val.cast());
                    w(|w| {
                        let f = faulty(w, c);
                        let k = &mut w.conns[c];
                        let cut = k.eof_given && code != hyper_code::HYPERE_UNEXPECTED_EOF as u32 && code != hyper_code::HYPERE_ERROR as u32;
                        let e = &mut k.xs[x];
                        e.is_err = true;
                        e.over = true;
                        let own = e.body_err;
                        k.spoilt |= !k.h2;
                        w.log(|| format!("exchange {x} failed: {code} {m}"));
                        if !f && !own {
                            w.viol(format!("conn {c} exchange {x} failed: {m}"));
                        }
                        if cut {
                            w.viol(format!("conn {c} exchange {x}: code {code} ({m}) after the peer closed"));
                        }
                    });
                }
                _ => wrong("send"),
            }
        }
        Some(Task::Foreach(c, x)) => match ty {
            EMPTY => end_body(c, x, None),
            ERROR => {
                let e = judge_error(val.cast());
                end_body(c, x, Some(e));
            }
            _ => wrong("foreach"),
        },
        Some(Task::Data(c, x)) => {
            w(|w| w.conns[c].xs[x].data_running = false);
            match ty {
                BUF => {
                    let d = bytes_of(val.cast());
                    h!(hyper_buf_free(val.cast()));
                    let stop = w(|w| {
                        let e = &mut w.conns[c].xs[x];
                        e.got.extend_from_slice(&d);
                        e.frames += 1;
                        let s = matches!(e.mode, BMode::DataSome(k) if e.frames >= k);
                        w.ev("bufs", d.len() as u64);
                        s
                    });
                    if stop {
                        free_body(c, x);
                        w(|w| {
                            let k = &mut w.conns[c];
                            let ok = k.xs[x].body.starts_with(&k.xs[x].got);
                            k.xs[x].over = true;
                            k.spoilt |= !k.h2;
                            if !ok {
                                w.viol(format!("conn {c} exchange {x}: body bytes that were not sent"));
                            }
                        });
                    } else {
                        body_next(p, c, x);
                    }
                }
                EMPTY => {
                    free_body(c, x);
                    end_body(c, x, None);
                }
                ERROR => {
                    let e = judge_error(val.cast());
                    free_body(c, x);
                    end_body(c, x, Some(e));
                }
                _ => wrong("data"),
            }
        }
    }
}
/// The peer looks at what was written and answers; true if it did something.
fn peer(c: usize) -> bool {
    w(|w| {
        let n = w.conns[c].xs.len();
        let mut did = false;
        if w.conns[c].h2 {
            let k = &mut w.conns[c];
            if k.out.len() < 24 {
                return false;
            }
            if !k.hello {
                k.hello = true;
                did = true;
                if &k.out[..24] != frames::PREFACE {
                    w.viol("wrong preface".into());
                    return false;
                }
                let s = frames::settings(&[]);
                k.inq.extend(s);
            }
            let k = &mut w.conns[c];
            let fr = frames::parse(&k.out, true);
            let mut todo = vec![];
            for f in fr.iter().skip(k.parsed) {
                did = true;
                match f.kind {
                    frames::SETTINGS if !f.ack() => k.inq.extend(frames::settings_ack()),
                    frames::PING if !f.ack() => {
                        let mut d = [0u8; 8];
                        d.copy_from_slice(&f.payload[..8]);
                        k.inq.extend(frames::ping(true, d));
                    }
                    frames::HEADERS if !k.streams.contains(&f.sid) => k.streams.push(f.sid),
                    frames::DATA if !f.payload.is_empty() => {
                        k.inq.extend(frames::wupd(0, f.payload.len() as u32));
                        if !f.eos() {
                            k.inq.extend(frames::wupd(f.sid, f.payload.len() as u32));
                        }
                    }
                    _ => {}
                }
                if (f.kind == frames::HEADERS || f.kind == frames::DATA) && f.eos() {
                    todo.push(f.sid);
                }
            }
            k.parsed = fr.len();
            for sid in todo {
                // (streams open in the order the requests were submitted)
                let Some(i) = w.conns[c].streams.iter().position(|s| *s == sid) else { continue };
                let order: Vec<usize> = (0..n).filter(|x| w.conns[c].xs[*x].submitted).collect();
                let Some(&x) = order.get(i) else { continue };
                let body_in: Vec<u8> = frames::parse(&w.conns[c].out, true).iter().filter(|f| f.kind == frames::DATA && f.sid == sid).flat_map(|f| f.payload.clone()).collect();
                let e = &mut w.conns[c].xs[x];
                if body_in != e.sent_body {
                    let m = diff(&e.sent_body, &body_in);
                    w.viol(format!("conn {c} exchange {x}: request body on the wire: {m}"));
                }
                let e = &mut w.conns[c].xs[x];
                e.answered = true;
                let st = e.status.to_string();
                let mut fs: Vec<(&str, &[u8])> = vec![(":status", st.as_bytes())];
                for (k, v) in &e.resp_hs {
                    fs.push((std::str::from_utf8(k).unwrap(), v));
                }
                let mut o = frames::headers(sid, e.body.is_empty(), &fs);
                let mut off = 0;
                let grain = 1 + e.body.len() % 9000;
                while off < e.body.len() {
                    let k = grain.min(e.body.len() - off);
                    o.extend(frames::data(sid, off + k == e.body.len(), &e.body[off..off + k]));
                    off += k;
                }
                w.conns[c].inq.extend(o);
                w.conns[c].answered += 1;
            }
            return did;
        }
        loop {
            let k = &w.conns[c];
            let refh1::P::Ok(m) = refh1::request(&k.out, k.parsed) else { break };
            if !m.complete {
                break;
            }
            let Some(x) = (0..n).filter(|x| k.xs[*x].submitted && !k.xs[*x].answered).next() else {
                w.viol("a request nobody sent".into());
                break;
            };
            did = true;
            let e = &k.xs[x];
            let mut bad = vec![];
            if m.start[0] != e.method || m.start[1] != e.path {
                bad.push(format!("{} {} on the wire instead of {} {}", m.start[0], m.start[1], e.method, e.path));
            }
            if m.body != e.sent_body {
                bad.push(format!("request body on the wire: {}", diff(&e.sent_body, &m.body)));
            }
            // every field set, with its spelling, in order per name; framing may be added
            let fields: Hs = raw_fields(&k.out[k.parsed..m.head_end]);
            let names: std::collections::BTreeSet<Vec<u8>> = e.hs.iter().map(|(k, _)| k.to_ascii_lowercase()).collect();
            for nm in &names {
                let a: Vec<_> = e.hs.iter().filter(|(k, _)| k.eq_ignore_ascii_case(nm)).collect();
                let b: Vec<_> = fields.iter().filter(|(k, _)| k.eq_ignore_ascii_case(nm)).collect();
                if a.len() != b.len() || a.iter().zip(&b).any(|(a, b)| a.0 != b.0 || trim(&a.1) != &b.1[..]) {
                    bad.push(format!("field {:?} on the wire: {:?} instead of {:?}", show(nm), b.iter().map(|x| (show(&x.0), show(&x.1))).collect::<Vec<_>>(), a.iter().map(|x| (show(&x.0), show(&x.1))).collect::<Vec<_>>()));
                }
            }
            for (k, v) in &fields {
                let l = k.to_ascii_lowercase();
                if !names.contains(&l) && l != b"transfer-encoding" && l != b"content-length" {
                    bad.push(format!("field {}: {} on the wire that nobody set", show(k), show(v)));
                }
            }
            let (end, wire, close) = (m.end, e.wire.clone(), e.close);
            for b in bad {
                w.viol(format!("conn {c} exchange {x}: {b}"));
            }
            w.ev("requests_on_wire", end as u64);
            let k = &mut w.conns[c];
            k.parsed = end;
            k.xs[x].answered = true;
            k.answered += 1;
            k.inq.extend(wire);
            if close {
                k.eof = true;
            }
        }
        did
    })
}
fn trim(v: &[u8]) -> &[u8] {
    let mut x = v;
    while let [b' ' | b'\t', t @ ..] = x {
        x = t;
    }
    while let [t @ .., b' ' | b'\t'] = x {
        x = t;
    }
    x
}
/// One thing happens outside hyper; false if nothing can.
fn env() -> bool {
    #[derive(Clone, Copy)]
    enum A {
        Deliver(usize),
        Write(usize),
        Body(usize, usize),
        Close(usize),
        Wake(*mut hyper_waker),
        Drop(*mut hyper_waker),
    }
    for c in 0..w(|w| w.conns.len()) {
        peer(c);
    }
    let mut acts = vec![];
    w(|w| {
        for (i, c) in w.conns.iter().enumerate() {
            if c.avail < c.inq.len() || (c.rd_w.is_some() && (c.avail > 0 || (c.eof && c.inq.is_empty() && !c.eof_given) || c.read_err_at.map(|a| c.read >= a) == Some(true))) {
                acts.push(A::Deliver(i));
            }
            if c.wr_w.is_some() {
                acts.push(A::Write(i));
            }
            for (j, e) in c.xs.iter().enumerate() {
                if e.body_w.is_some() && e.body_wait {
                    acts.push(A::Body(i, j));
                }
            }
            if c.close_at_end && !c.eof && c.xs.iter().all(|e| e.over) && c.next >= c.xs.len() && c.inq.is_empty() {
                acts.push(A::Close(i));
            }
        }
    });
    if acts.is_empty() {
        return false;
    }
    let a = w(|w| {
        if !w.stale.is_empty() && w.r.pct(10) {
            let i = w.r.below(w.stale.len());
            let k = w.stale.swap_remove(i);
            if w.r.pct(50) {
                A::Wake(k)
            } else {
                A::Drop(k)
            }
        } else {
            *w.r.pick(&acts)
        }
    });
    match a {
        A::Deliver(c) => {
            let k = w(|w| {
                let more = w.conns[c].inq.len() - w.conns[c].avail;
                let g = if w.r.pct(30) { more } else { w.r.range(0, more) };
                w.conns[c].avail += g.max(more.min(1));
                let go = w.conns[c].rd_w.is_some() && w.r.pct(80);
                go.then(|| w.conns[c].rd_w.take().unwrap())
            });
            if let Some(k) = k {
                h!(hyper_waker_wake(k));
            }
        }
        A::Write(c) => {
            let k = w(|w| w.conns[c].wr_w.take().unwrap());
            h!(hyper_waker_wake(k));
        }
        A::Body(c, x) => {
            let k = w(|w| {
                w.conns[c].xs[x].body_wait = false;
                w.conns[c].xs[x].body_w.take().unwrap()
            });
            h!(hyper_waker_wake(k));
        }
        A::Close(c) => {
            let k = w(|w| {
                w.conns[c].eof = true;
                w.conns[c].rd_w.take()
            });
            if let Some(k) = k {
                h!(hyper_waker_wake(k));
            }
        }
        A::Wake(k) => {
            w(|w| w.ev("stale_wakes", 0));
            h!(hyper_waker_wake(k))
        }
        A::Drop(k) => h!(hyper_waker_free(k)),
    }
    true
}
fn poll_some(p: &Prog) {
    loop {
        let t = h!(hyper_executor_poll(p.exec));
        if t.is_null() {
            break;
        }
        on_task(p, t);
        if w(|w| w.r.pct(10)) {
            // other things may happen before the next poll
            return;
        }
    }
}
fn poll_all(p: &Prog) {
    loop {
        let t = h!(hyper_executor_poll(p.exec));
        if t.is_null() {
            break;
        }
        on_task(p, t);
    }
}

fn program(seed: u64, trace: bool) -> (World, i64, u64) {
    let live0 = LIVE.with(|x| x.get());
    let made0 = MADE.with(|x| x.get());
    let mut r = Rng::new(seed);
    let nconn = if r.pct(80) { 1 } else { 2 };
    let maxb = *r.pick(&[0usize, 60, 3000, 20_000]);
    let faults = r.pct(25);
    let mut conns = vec![];
    for _ in 0..nconn {
        let h2 = r.pct(35);
        let n = r.range(0, 4);
        let xs: Vec<Exch> = (0..n).map(|i| gen_exch(&mut r, h2, i + 1 == n, maxb)).collect();
        let bytes: usize = xs.iter().map(|x| x.wire.len() + x.body.len() + x.sent_body.len()).sum();
        let grain = if bytes > 20_000 { *r.pick(&[800usize, 5000, 100_000]) } else { *r.pick(&[3usize, 50, 700, 5000, 100_000]) };
        conns.push(Conn {
            h2,
            case: r.pct(50),
            order: r.pct(50),
            out: vec![],
            parsed: 0,
            inq: VecDeque::new(),
            avail: 0,
            read: 0,
            read_err_at: (faults && r.pct(40)).then(|| r.below(bytes + 300)),
            write_err_at: (faults && r.pct(30)).then(|| r.below(bytes + 300)),
            eof: false,
            eof_given: false,
            rd_w: None,
            wr_w: None,
            pend: *r.pick(&[0u32, 0, 10, 40]),
            grain,
            handle: ptr::null_mut(),
            xs,
            next: 0,
            answered: 0,
            spoilt: false,
            streams: vec![],
            hello: false,
            internal: false,
            hs_done: false,
            dead: false,
            close_at_end: r.pct(30),
        });
    }
    // a peer that stops in the middle of an answer
    if faults && r.pct(30) {
        for c in conns.iter_mut() {
            if !c.h2 && !c.xs.is_empty() {
                let i = r.below(c.xs.len());
                let e = &mut c.xs[i];
                // (where the end of the connection ends the body, there is nothing to notice)
                if !e.wire.is_empty() && !e.close {
                    let k = r.below(e.wire.len());
                    e.wire.truncate(k);
                    e.close = true;
                    c.spoilt = true;
                }
            }
        }
    }
    let early = r.pct(15).then(|| r.below(60) as u64);
    let mut world = World { r: r.fork(), conns, tasks: BTreeMap::new(), ids: 0, stale: vec![], viols: vec![], counts: BTreeMap::new(), hash: seed, log: trace.then(Vec::new) };
    for c in world.conns.iter_mut() {
        if c.read_err_at.is_some() || c.write_err_at.is_some() {
            c.spoilt = true;
        }
        if c.xs.iter().any(|e| e.body_err) && !c.h2 {
            c.spoilt = true;
        }
    }
    W.with(|x| *x.borrow_mut() = Some(world));
    let exec = h!(hyper_executor_new());
    let p = Prog { exec, early };
    for c in 0..nconn {
        let io = h!(hyper_io_new());
        h!(hyper_io_set_userdata(io, key(c, 0)));
        h!(hyper_io_set_read(io, on_read));
        h!(hyper_io_set_write(io, on_write));
        let o = h!(hyper_clientconn_options_new());
        h!(hyper_clientconn_options_exec(o, exec));
        let (h2, case, order) = w(|w| (w.conns[c].h2, w.conns[c].case, w.conns[c].order));
        h!(hyper_clientconn_options_set_preserve_header_case(o, case as c_int));
        h!(hyper_clientconn_options_set_preserve_header_order(o, order as c_int));
        h!(hyper_clientconn_options_http2(o, h2 as c_int));
        if r.pct(20) {
            h!(hyper_clientconn_options_http1_allow_multiline_headers(o, 1));
        }
        if r.pct(3) {
            // never used
            h!(hyper_io_free(io));
            h!(hyper_clientconn_options_free(o));
            w(|w| w.conns[c].dead = true);
            continue;
        }
        let t = h!(hyper_clientconn_handshake(io, o));
        if r.pct(3) {
            h!(hyper_task_free(t));
            w(|w| w.conns[c].dead = true);
            continue;
        }
        push(&p, t, Task::Handshake(c));
    }
    let mut ops = 0u64;
    let mut cut = false;
    let mut stuck = false;
    loop {
        ops += 1;
        if p.early == Some(ops) {
            cut = true;
            break;
        }
        if ops > 400_000 {
            stuck = true;
            break;
        }
        if w(|w| w.r.pct(70)) {
            poll_some(&p);
        }
        if env() {
            continue;
        }
        poll_all(&p);
        if env() {
            continue;
        }
        // at rest: the next request of each connection, or the end
        let mut more = false;
        for c in 0..nconn {
            let go = w(|w| {
                let k = &w.conns[c];
                !k.handle.is_null() && k.next < k.xs.len() && k.xs[..k.next].iter().all(|e| e.over)
            });
            if go {
                send_next(&p, c);
                more = true;
            } else {
                // a handle that is not needed any more
                let f = w(|w| {
                    let k = &mut w.conns[c];
                    if !k.handle.is_null() && k.next >= k.xs.len() && k.xs.iter().all(|e| e.over) {
                        Some(std::mem::replace(&mut k.handle, ptr::null_mut()))
                    } else {
                        None
                    }
                });
                if let Some(h) = f {
                    h!(hyper_clientconn_free(h));
                    more = true;
                }
            }
        }
        if !more {
            break;
        }
    }
    if stuck {
        w(|w| w.ev("gave_up", 0));
    } else if !cut {
        w(|w| {
            let open: Vec<String> = w.tasks.values().map(|t| format!("{t:?}")).collect();
            if !open.is_empty() {
                let st: Vec<String> = w.conns.iter().map(|c| format!("answered {} next {} spoilt {} eof {} inq {} avail {}", c.answered, c.next, c.spoilt, c.eof, c.inq.len(), c.avail)).collect();
                w.viol(format!("tasks never returned although nothing else can happen: {open:?} ({st:?})"));
            }
            for (i, c) in (0..w.conns.len()).map(|i| (i, &w.conns[i])).collect::<Vec<_>>().iter().map(|(i, c)| (*i, (c.hs_done, c.dead, c.xs.iter().filter(|x| x.submitted && x.resolved != 1).count()))).collect::<Vec<_>>() {
                if c.2 > 0 {
                    w.viol(format!("conn {i}: {} requests not resolved exactly once", c.2));
                }
            }
            let hand = w.conns.iter().filter(|c| c.hs_done && !c.dead).count() as u64;
            let internal = w.counts.get("internal_tasks").copied().unwrap_or(0);
            let h1 = w.conns.iter().filter(|c| c.hs_done && !c.dead && !c.h2).count() as u64;
            if internal < hand || (h1 == hand && internal != hand) {
                w.viol(format!("{internal} connection tasks returned for {hand} finished connections"));
            }
        });
    }
    w(|w| w.ev(if cut { "cut_short" } else { "ran_to_rest" }, 0));
    // clean up, in some order
    let mut wakers: Vec<*mut hyper_waker> = w(|w| {
        let mut v = std::mem::take(&mut w.stale);
        for c in w.conns.iter_mut() {
            v.extend(c.rd_w.take());
            v.extend(c.wr_w.take());
            for e in c.xs.iter_mut() {
                v.extend(e.body_w.take());
            }
        }
        v
    });
    let handles: Vec<*mut hyper_clientconn> = w(|w| w.conns.iter_mut().map(|c| std::mem::replace(&mut c.handle, ptr::null_mut())).filter(|h| !h.is_null()).collect());
    let first = w(|w| w.r.pct(50));
    if first {
        for h in &handles {
            h!(hyper_clientconn_free(*h));
        }
    }
    while w(|w| w.r.pct(60)) {
        let Some(k) = wakers.pop() else { break };
        h!(hyper_waker_wake(k));
    }
    h!(hyper_executor_free(exec));
    if !first {
        for h in &handles {
            h!(hyper_clientconn_free(*h));
        }
    }
    for c in 0..nconn {
        for x in 0..w(|w| w.conns[c].xs.len()) {
            free_body(c, x);
        }
    }
    // (callbacks may have left wakers while things were dropped)
    wakers.extend(w(|w| {
        let mut v = std::mem::take(&mut w.stale);
        for c in w.conns.iter_mut() {
            v.extend(c.rd_w.take());
            v.extend(c.wr_w.take());
            for e in c.xs.iter_mut() {
                v.extend(e.body_w.take());
            }
        }
        v
    }));
    for k in wakers {
        if w(|w| w.r.pct(50)) {
            h!(hyper_waker_wake(k));
        } else {
            h!(hyper_waker_free(k));
        }
    }
    let world = W.with(|x| x.borrow_mut().take().unwrap());
    (world, LIVE.with(|x| x.get()) - live0, MADE.with(|x| x.get()) - made0)
}

fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let (mut world, leaked, made) = program(ctx.seed, ctx.trace);
    let mut leaked = leaked;
    if leaked != 0 {
        // what is made once per thread shows only the first time
        for _ in 0..2 {
            leaked = program(ctx.seed, false).1;
        }
    }
    if leaked != 0 {
        out.viol(format!("{leaked} allocations made by hyper were still there after everything had been freed"));
    }
    for v in world.viols.drain(..) {
        out.viol(v);
    }
    for (k, v) in &world.counts {
        out.count(k, *v);
    }
    out.count("hyper_allocations", made);
    out.nontrivial = world.counts.get("tasks").copied().unwrap_or(0) > 0;
    out.sig = world.hash;
    if ctx.index < 3 || ctx.trace {
        out.desc = Some(format!(
            "{:?}",
            world.conns.iter().map(|c| format!("{} case {} order {} pend {} grain {} faults {:?}/{:?}: {:?}", if c.h2 { "h2" } else { "h1" }, c.case, c.order, c.pend, c.grain, c.read_err_at, c.write_err_at, c.xs.iter().map(|e| format!("{} {} body {} answer {} {} bytes {:?}", e.method, e.path, e.sent_body.len(), e.status, e.body.len(), e.mode)).collect::<Vec<_>>())).collect::<Vec<_>>()
        ));
    }
    out.trace = world.log.take().unwrap_or_default();
    out
}
