//! C31: what an error says about itself is what happened.
use crate::body::*;
use crate::cli::*;
use crate::facts::*;
use crate::frames;
use crate::h2raw::{self, Raw};
use crate::h2x::*;
use crate::peer::*;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::srv::*;
use std::io::ErrorKind as K;
use std::time::Duration;

pub const CHECK: Check = Check {
    id: "C31",
    level: "exploration",
    rule: "a case provokes one known failure (malformed, oversize, cut or timed-out message, transport fault with a token, failing service or body with a token, missing or refused upgrade, dead connection, HTTP/2 reset, GOAWAY, protocol violation or silent peer) on one side of a connection under a random configuration and segmentation, and compares every predicate, the source chain and the HTTP/2 reason of each error the application is given with what was provoked; distinct = distinct executions in which at least one error was judged",
    quick: 60_000,
    thorough: 2_000_000,
    run: case,
    assumptions: &["an HTTP/2 transport error keeps the kind and the text of the transport's error, not its type", "every error recorded anywhere in a case is also checked for contradictory predicates"],
};

#[derive(Clone, Debug)]
enum Cause {
    Any,
    /// an `Own(token)` in the source chain
    Own(u64),
    /// an io::Error of this kind wrapping `Own(token)`
    Io(K, u64),
    /// an io::Error of this kind whose text names the token
    IoText(K, u64),
    IoIn(&'static [K]),
    H2(u32),
}
const KINDS: [K; 7] = [K::ConnectionReset, K::ConnectionAborted, K::BrokenPipe, K::PermissionDenied, K::Other, K::InvalidData, K::NotConnected];

struct J<'a> {
    out: &'a mut CaseOut,
    judged: usize,
    label: &'static str,
    cfg: String,
}
impl J<'_> {
    fn want(&mut self, what: &str, f: Option<&Facts>, preds: &[&str], cause: Cause) {
        let Some(f) = f else {
            self.out.viol(format!("{}: {what}: no error was reported [{}]", self.label, self.cfg));
            return;
        };
        self.judged += 1;
        let mut p = f.preds.clone();
        let mut w = preds.to_vec();
        p.sort();
        w.sort();
        if p != w {
            self.out.viol(format!("{}: {what}: the error is_{{{}}}, expected is_{{{}}}: {} [{}]", self.label, p.join(","), w.join(","), f.dbg, self.cfg));
        }
        let ok = match &cause {
            Cause::Any => true,
            Cause::Own(t) => f.own == Some(*t),
            Cause::Io(k, t) => f.io == Some(*k) && f.own == Some(*t),
            Cause::IoText(k, t) => f.io == Some(*k) && f.io_text.contains(&Own(*t).to_string()),
            Cause::IoIn(ks) => f.io.is_some_and(|k| ks.contains(&k)),
            Cause::H2(c) => f.h2 == Some(*c),
        };
        if !ok {
            self.out.viol(format!("{}: {what}: expected the cause {cause:?}, found own={:?} io={:?} h2={:?} in {} [{}]", self.label, f.own, f.io, f.h2, f.dbg, self.cfg));
        }
        self.out.count(self.label, 1);
    }
    fn any(&mut self, f: Option<&Facts>) {
        if let Some(f) = f {
            if let Some(o) = f.odd() {
                self.out.viol(format!("{}: {o}: {} [{}]", self.label, f.dbg, self.cfg));
            }
        }
    }
}

fn case(ctx: &Ctx) -> CaseOut {
    let mut r = Rng::new(mix(ctx.seed, 31));
    match r.below(10) {
        0..=3 => server1(ctx, &mut r),
        4..=6 => client1(ctx, &mut r),
        7 | 8 => client2(ctx, &mut r),
        _ => server2(ctx, &mut r),
    }
}
fn finish(out: &mut CaseOut, sim: &Sim, judged: usize, end: End, label: &'static str) {
    match end {
        End::Spin(t) => out.viol(format!("{label}: task {t} spins without progress")),
        End::StepLimit => out.inconclusive = Some(format!("{label}: step limit")),
        _ => {}
    }
    out.nontrivial = judged > 0;
    out.sig = mix(sim.st(|s| s.hash), crate::util::fnv(label.as_bytes()));
    out.desc = Some(label.into());
    out.trace = sim.take_log();
}
fn small_io(r: &mut Rng) -> IoCfg {
    let mut c = IoCfg::gen(r);
    if c.cap < 4096 && r.pct(50) {
        c.cap = usize::MAX;
    }
    c
}
async fn pieces(sim: &Sim, p: &Peer, w: &[u8]) -> bool {
    if w == frames::PREFACE {
        return p.send(w).await.is_ok();
    }
    let n = sim.rng(|r| *r.pick(&[1usize, 1, 2, 5]));
    let mut at = 0;
    for i in 0..n {
        let to = if i + 1 == n { w.len() } else { sim.rng(|r| r.range(at, w.len())) };
        if p.send(&w[at..to]).await.is_err() {
            return false;
        }
        at = to;
        if i + 1 < n {
            sim.yields(5).await;
        }
    }
    true
}
/// Message heads no HTTP/1 server can take for a request.
const BAD_REQ: &[&[u8]] = &[
    b"GE(T / HTTP/1.1\r\nHost: a\r\n\r\n",
    b"GET / HTTP/1.2\r\nHost: a\r\n\r\n",
    b"GET / HTTP/3.0\r\n\r\n",
    b"GET / HTTX/1.1\r\n\r\n",
    b"GET /\x01 HTTP/1.1\r\nHost: a\r\n\r\n",
    b"GET / HTTP/1.1\r\nbad header: x\r\n\r\n",
    b"GET / HTTP/1.1\r\nx: a\x00b\r\n\r\n",
    b"GET / HTTP/1.1\r\n: x\r\n\r\n",
    b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: x\r\n\r\n",
    b"GET / HTTP/1.1\r\nHost: a\r\nContent-Length: -1\r\n\r\n",
    b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 3\r\nContent-Length: 4\r\n\r\n",
    b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: gzip\r\n\r\n",
    b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked, gzip\r\n\r\n",
    b"POST / HTTP/1.0\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n",
];
const BAD_RESP: &[(&[u8], bool)] = &[
    (b"HTTP/1.1 2x0 OK\r\n\r\n", true),
    (b"HTTP/1.1 20 OK\r\n\r\n", true),
    (b"HTTP/1.1 OK\r\n\r\n", true),
    (b"HTTP/1.1 200 a\x00b\r\n\r\n", true),
    (b"HTTP/1.1 099 x\r\n\r\n", true),
    (b"HTTP/1.1 2000 x\r\n\r\n", true),
    (b"HTTP/1.2 200 OK\r\n\r\n", false),
    (b"HTTP/2.0 200 OK\r\n\r\n", false),
    (b"HTTX/1.1 200 OK\r\n\r\n", false),
    (b"HTTP/1.1 200 OK\r\na\x01b: x\r\n\r\n", false),
    (b"HTTP/1.1 200 OK\r\nx: a\x00b\r\n\r\n", false),
    (b"HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", false),
    (b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\nContent-Length: 4\r\n\r\n", false),
];

fn body_fail(r: &mut Rng, tok: u64) -> Script {
    let n = r.size(3000);
    let mut s = Script::gen(r, n);
    let at = r.range(0, s.steps.len());
    s.steps.truncate(at);
    s.steps.push(Step::Own(tok));
    s.hint = *r.pick(&[Hint::Unknown, Hint::Unknown, Hint::Lower]);
    s
}
fn body_short(r: &mut Rng) -> (Script, usize) {
    let n = r.range(1, 3000);
    let mut s = Script::gen(r, n);
    s.hint = Hint::Unknown;
    s.eager_eos = false;
    (s, n + r.range(1, 500))
}

fn server1(ctx: &Ctx, r: &mut Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let sim = Sim::new(ctx.seed);
    if ctx.trace {
        sim.enable_log();
    }
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 10]);
    ex.until = Some(3_000_000_000_000);
    let tok = r.next() >> 20;
    let kind = *r.pick(&KINDS);
    let mut cfg = SrvCfg::gen(r);
    let (mut ioa, mut iob) = (small_io(r), small_io(r));
    ioa.late_flush = false;
    let mut plan = Plan::simple(RespSpec::ok(b"hello"));
    let ok: &[u8] = b"GET /p HTTP/1.1\r\nHost: a\r\n\r\n";
    let mut wire: Vec<u8> = vec![];
    // an exchange that goes well comes first in some cases
    let before = r.pct(40);
    let sc = r.below(17);
    let head = b"POST /x HTTP/1.1\r\nHost: a\r\n".to_vec();
    let mut fault = None;
    let mut close = false;
    const L: [&str; 17] = [
        "h1 server, header read timeout",
        "h1 server, malformed head",
        "h1 server, head over the size limit",
        "h1 server, too many headers",
        "h1 server, target too long",
        "h1 server, HTTP/2 preface",
        "h1 server, stream ends inside a head",
        "h1 server, read error inside a head",
        "h1 server, write error",
        "h1 server, shutdown error",
        "h1 server, service error",
        "h1 server, response body error",
        "h1 server, response body shorter than declared",
        "h1 server, request body cut",
        "h1 server, malformed chunk",
        "h1 server, 1xx answer",
        "h1 server, switched protocols without upgrade support",
    ];
    let label = L[sc];
    let before = before && !matches!(sc, 5);
    match sc {
        0 => {
            cfg.timer = true;
            cfg.header_timeout = Some(Some(Duration::from_secs(r.range(1, 50) as u64)));
            let k = r.range(1, head.len());
            wire.extend_from_slice(&head[..k]);
        }
        1 => {
            cfg.ignore_invalid = false;
            wire.extend_from_slice(*r.pick(BAD_REQ));
        }
        2 => {
            let m = r.range(8192, 20_000);
            cfg.max_buf = Some(m);
            wire.extend_from_slice(&head);
            wire.extend_from_slice(b"x-long: ");
            wire.extend(std::iter::repeat(b'v').take(3 * m));
            wire.extend_from_slice(b"\r\n\r\n");
        }
        3 => {
            cfg.max_buf = None;
            let n = cfg.max_headers.unwrap_or(100);
            wire.extend_from_slice(&head);
            for i in 0..n + r.range(0, 5) {
                wire.extend_from_slice(format!("x-{i}: 1\r\n").as_bytes());
            }
            wire.extend_from_slice(b"\r\n");
        }
        4 => {
            cfg.max_buf = None;
            wire.extend_from_slice(b"GET /");
            let n = 65_535 + r.below(3000);
            wire.extend(std::iter::repeat(b'u').take(n));
            wire.extend_from_slice(b" HTTP/1.1\r\nHost: a\r\n\r\n");
        }
        5 => {
            (ioa, iob) = (IoCfg::plain(), IoCfg::plain());
            wire.extend_from_slice(frames::PREFACE);
        }
        6 => {
            let k = r.range(3, head.len());
            wire.extend_from_slice(&head[..k]);
            close = true;
        }
        7 => {
            wire.extend_from_slice(&head[..r.range(3, head.len())]);
        }
        8 => {
            wire.extend_from_slice(ok);
            plan.resp = RespSpec::ok(&r.body(4000));
        }
        9 => wire.extend_from_slice(b"GET /p HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n"),
        10 => {
            wire.extend_from_slice(ok);
            plan.fail = true;
            plan.fail_own = Some(tok);
            plan.delay = r.below(4);
        }
        11 => {
            wire.extend_from_slice(ok);
            plan.resp.script = body_fail(r, tok);
        }
        12 => {
            wire.extend_from_slice(ok);
            let (s, n) = body_short(r);
            plan.resp.script = s;
            plan.resp.headers.push(("content-length".into(), n.to_string().into_bytes()));
        }
        13 => {
            wire.extend_from_slice(&head);
            if r.pct(50) {
                let n = r.range(2, 400);
                wire.extend_from_slice(format!("Content-Length: {n}\r\n\r\n").as_bytes());
                let k = r.range(0, n - 1);
                wire.extend(r.bytes(k));
            } else {
                wire.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
                let full = b"5\r\nhello\r\n1f;x=y\r\n0123456789012345678901234567890\r\n0\r\nt: 1\r\n\r\n";
                wire.extend_from_slice(&full[..r.below(full.len())]);
            }
            close = true;
        }
        14 => {
            wire.extend_from_slice(&head);
            wire.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            let bad: &[u8] = *r.pick(&[&b"5\r\nhelloXX"[..], b"g\r\n", b"5\nhello", b"11111111111111111\r\n", b"-1\r\n", b"\r\n", b"5\r\nhello\r\n5 5\r\n", b"0\r\nx y\r\n\r\n", b"1\r\na\r\n0\r\n: x\r\n\r\n"]);
            wire.extend_from_slice(bad);
        }
        15 => {
            wire.extend_from_slice(ok);
            plan.resp.status = *r.pick(&[100, 102, 103, 150, 199]);
        }
        _ => {
            cfg.upgrades = false;
            wire.extend_from_slice(b"GET /p HTTP/1.1\r\nHost: a\r\nConnection: upgrade\r\nUpgrade: x\r\n\r\n");
            plan.resp = RespSpec::ok(b"");
            plan.resp.status = 101;
            plan.resp.headers = vec![("connection".into(), b"upgrade".to_vec()), ("upgrade".into(), b"x".to_vec())];
        }
    }
    let (a, b, w) = pipe(&sim, ioa.clone(), iob.clone());
    let base = if before { ok.len() as u64 } else { 0 };
    if sc == 7 {
        let at = base + 1 + r.below(wire.len().min(head.len()) - 1) as u64;
        fault = Some(kind);
        w.fa.lock().unwrap().read_at = Some((at, Fault::Own(kind, tok)));
    }
    if sc == 9 {
        fault = Some(kind);
        w.fa.lock().unwrap().shutdown_fault = Some(Fault::Own(kind, tok));
    }
    let mut plans = vec![plan];
    if before {
        plans.insert(0, Plan::simple(RespSpec::ok(b"fine")));
    }
    let svc = Svc::new(&ex, plans);
    let st = svc.st.clone();
    let end = serve_h1(&mut ex, &cfg, a, svc, Gate::default());
    let peer = Peer::new(b);
    let recv: RecvRef = Default::default();
    let (fa, wa) = (w.fa.clone(), w.a.clone());
    {
        let (p, sim, recv, wire) = (peer.clone(), sim.clone(), recv.clone(), wire.clone());
        let flush_fault = sc == 8 && r.pct(30);
        let at = r.below(4000) as u64;
        ex.spawn("peer", async move {
            if before {
                if !pieces(&sim, &p, ok).await {
                    return;
                }
                loop {
                    if recv.lock().unwrap().data.ends_with(b"fine") {
                        break;
                    }
                    sim.yields(1).await;
                }
            }
            if sc == 8 {
                let st = wa.lock().unwrap();
                let (written, flushes) = (st.written, st.flushes);
                drop(st);
                let mut f = fa.lock().unwrap();
                if flush_fault {
                    f.flush_op = Some((flushes + 1, Fault::Own(kind, tok)));
                } else {
                    f.write_at = Some((written + at, Fault::Own(kind, tok)));
                }
            }
            if !pieces(&sim, &p, &wire).await {
                return;
            }
            if close {
                let _ = p.close_write().await;
            }
        });
    }
    {
        let (p, recv) = (peer.clone(), recv.clone());
        ex.spawn("peer-r", async move { read_all(p, recv, 70_000, |_| {}).await });
    }
    let e = ex.run();
    let mut j = J { out: &mut out, judged: 0, label, cfg: format!("{cfg:?} before={before}") };
    let c = end.lock().unwrap().clone();
    let fin = c.facts.as_ref();
    let mut st = st.lock().unwrap();
    let n = before as usize;
    let got = st.seen.get(n).and_then(|s| s.got.lock().unwrap().facts.clone());
    j.any(fin);
    for s in st.seen.iter() {
        j.any(s.got.lock().unwrap().facts.as_ref());
    }
    match sc {
        0 => j.want("connection", fin, &["timeout"], Cause::Any),
        1 => j.want("connection", fin, &["parse"], Cause::Any),
        2..=4 => j.want("connection", fin, &["parse", "parse_too_large"], Cause::Any),
        5 => j.want("connection", fin, &["parse", "parse_version_h2"], Cause::Any),
        6 => j.want("connection", fin, &["incomplete_message"], Cause::Any),
        7 | 8 => {
            if w.a.lock().unwrap().faulted {
                j.want("connection", fin, &[], Cause::Io(kind, tok))
            }
        }
        9 => j.want("connection", fin, &["shutdown"], Cause::Io(kind, tok)),
        10 | 11 => j.want("connection", fin, &["user"], Cause::Own(tok)),
        12 => j.want("connection", fin, &["user", "body_write_aborted"], Cause::Any),
        13 => j.want("request body", got.as_ref(), &["incomplete_message"], Cause::IoIn(&[K::UnexpectedEof])),
        14 => j.want("request body", got.as_ref(), &[], Cause::IoIn(&[K::InvalidInput, K::InvalidData])),
        15 => j.want("connection", fin, &["user"], Cause::Any),
        _ => {}
    }
    let _ = fault;
    // upgrades: nothing to upgrade, or asked for and refused
    for s in st.seen.iter_mut() {
        let Some(up) = s.on_upgrade.take() else { continue };
        let asked = s.headers.iter().any(|(k, _)| k == "upgrade");
        let f = poll_now(up);
        if let Some(Err(e)) = f {
            let f = Facts::of(&e);
            j.any(Some(&f));
            if asked {
                let w: &[&str] = if sc == 16 { &["user"] } else { &["canceled"] };
                j.want("upgrade asked for", Some(&f), w, Cause::Any);
            } else {
                j.want("upgrade of a plain request", Some(&f), &["user"], Cause::Any);
            }
        }
    }
    let n = j.judged;
    drop(st);
    finish(&mut out, &sim, n, e, label);
    out
}
fn poll_now<F: std::future::Future>(f: F) -> Option<F::Output> {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    match f.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(x) => Some(x),
        std::task::Poll::Pending => None,
    }
}

fn client1(ctx: &Ctx, r: &mut Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let sim = Sim::new(ctx.seed);
    if ctx.trace {
        sim.enable_log();
    }
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 10]);
    let tok = r.next() >> 20;
    let kind = *r.pick(&KINDS);
    let mut cfg = CliCfg::gen(r);
    cfg.h09 = false;
    cfg.ignore_invalid = false;
    cfg.spaces = false;
    cfg.obs_fold = false;
    let (mut ioa, iob) = (small_io(r), small_io(r));
    ioa.late_flush = false;
    const L: [&str; 14] = [
        "h1 client, stream ends before the response",
        "h1 client, malformed response",
        "h1 client, response head over the size limit",
        "h1 client, too many response headers",
        "h1 client, read error before the response",
        "h1 client, write error",
        "h1 client, request body error",
        "h1 client, request body shorter than declared",
        "h1 client, connection task gone",
        "h1 client, response body cut",
        "h1 client, malformed chunk",
        "h1 client, read error inside the response body",
        "h1 client, unsolicited bytes",
        "h1 client, switched protocols without upgrade support",
    ];
    let sc = r.below(L.len());
    let label = L[sc];
    let mut spec = ReqSpec::get("/c");
    let before = r.pct(40) && sc != 8;
    let mut wire: Vec<u8> = vec![];
    let mut close = false;
    let mut bad_status = false;
    let okhead = b"HTTP/1.1 200 OK\r\n";
    match sc {
        0 => {
            close = true;
            wire.extend_from_slice(&okhead[..*r.pick(&[0, 0, 1, 9, 15])]);
        }
        1 => {
            let (b, s) = *r.pick(BAD_RESP);
            wire.extend_from_slice(b);
            bad_status = s;
        }
        2 => {
            let m = r.range(8192, 20_000);
            if r.pct(50) {
                (cfg.max_buf, cfg.exact_buf) = (Some(m), None);
            } else {
                (cfg.max_buf, cfg.exact_buf) = (None, Some(m));
            }
            wire.extend_from_slice(okhead);
            wire.extend_from_slice(b"x-long: ");
            wire.extend(std::iter::repeat(b'v').take(3 * m));
            wire.extend_from_slice(b"\r\n\r\n");
        }
        3 => {
            (cfg.max_buf, cfg.exact_buf) = (None, None);
            let n = cfg.max_headers.unwrap_or(100);
            wire.extend_from_slice(okhead);
            for i in 0..n + r.range(1, 5) {
                wire.extend_from_slice(format!("x-{i}: 1\r\n").as_bytes());
            }
            wire.extend_from_slice(b"\r\n");
        }
        5 => {
            spec.method = "POST".into();
            let n = r.range(1, 3000);
            spec.script = Script::gen(r, n);
        }
        6 => {
            spec.method = "POST".into();
            spec.script = body_fail(r, tok);
        }
        7 => {
            spec.method = "POST".into();
            let (s, n) = body_short(r);
            spec.script = s;
            spec.headers.push(("content-length".into(), n.to_string().into_bytes()));
        }
        9 => {
            wire.extend_from_slice(okhead);
            if r.pct(50) {
                let n = r.range(2, 400);
                wire.extend_from_slice(format!("Content-Length: {n}\r\n\r\n").as_bytes());
                let k = r.range(0, n - 1);
                wire.extend(r.bytes(k));
            } else {
                wire.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
                let full = b"5\r\nhello\r\n1f;x=y\r\n0123456789012345678901234567890\r\n0\r\nt: 1\r\n\r\n";
                wire.extend_from_slice(&full[..r.below(full.len())]);
            }
            close = true;
        }
        10 => {
            wire.extend_from_slice(okhead);
            wire.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            let bad: &[u8] = *r.pick(&[&b"5\r\nhelloXX"[..], b"g\r\n", b"5\nhello", b"11111111111111111\r\n", b"-1\r\n", b"\r\n", b"5\r\nhello\r\n5 5\r\n", b"0\r\nx y\r\n\r\n", b"1\r\na\r\n0\r\n: x\r\n\r\n"]);
            wire.extend_from_slice(bad);
        }
        11 => {
            wire.extend_from_slice(okhead);
            wire.extend_from_slice(*r.pick(&[&b"Content-Length: 100\r\n\r\nabc"[..], b"Transfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n", b"\r\nabc"]));
        }
        12 => wire.extend_from_slice(*r.pick(&[&b"HTTP/1.1 200 OK\r\n\r\n"[..], b"x", b"HTTP/1.1 408 Request Timeout\r\nConnection: close\r\n\r\n"])),
        13 => {
            cfg.upgrades = false;
            spec.headers.push(("connection".into(), b"upgrade".to_vec()));
            spec.headers.push(("upgrade".into(), b"x".to_vec()));
            wire.extend_from_slice(b"HTTP/1.1 101 Switching Protocols\r\nConnection: upgrade\r\nUpgrade: x\r\n\r\n");
        }
        _ => {}
    }
    let (a, b, w) = pipe(&sim, ioa, iob);
    let (mut tx, end) = connect_h1(&mut ex, &cfg, a);
    let first: ExRef = Default::default();
    let x: ExRef = Default::default();
    let q: ExRef = Default::default();
    let after: ExRef = Default::default();
    let ready: std::sync::Arc<std::sync::Mutex<Option<Facts>>> = Default::default();
    let go = Gate::default();
    let peer = Peer::new(b);
    let fine: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nfine";
    {
        // the peer: answers the first exchange, then plays the scenario once the next request is there
        let (p, sim, wire, go) = (peer.clone(), sim.clone(), wire.clone(), go.clone());
        let (fa, wa) = (w.fa.clone(), w.a.clone());
        let at = r.below(if sc == 5 { 3000 } else { 40 }) as u64;
        ex.spawn("peer", async move {
            if before {
                let mut buf = vec![];
                while !buf.ends_with(b"\r\n\r\n") {
                    match p.recv(10_000).await {
                        Ok(v) if !v.is_empty() => buf.extend(v),
                        _ => return,
                    }
                }
                if !pieces(&sim, &p, fine).await {
                    return;
                }
            }
            if sc == 12 {
                go.wait().await;
                sim.yields(3).await;
                let _ = pieces(&sim, &p, &wire).await;
                return;
            }
            go.wait().await;
            let mut buf = vec![];
            while !buf.windows(4).any(|w| w == b"\r\n\r\n") {
                match p.recv(10_000).await {
                    Ok(v) if !v.is_empty() => buf.extend(v),
                    _ => return,
                }
            }
            match sc {
                4 => {
                    let read = wa.lock().unwrap().read_bytes;
                    fa.lock().unwrap().read_at = Some((read + at.min(16), Fault::Own(kind, tok)));
                    let _ = pieces(&sim, &p, b"HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nfine").await;
                }
                8 => {}
                _ => {
                    if sc == 11 {
                        let read = wa.lock().unwrap().read_bytes;
                        fa.lock().unwrap().read_at = Some((read + wire.len() as u64, Fault::Own(kind, tok)));
                    }
                    if !pieces(&sim, &p, &wire).await {
                        return;
                    }
                    if close {
                        let _ = p.close_write().await;
                    }
                }
            }
            if matches!(sc, 5 | 6 | 7) {
                while matches!(p.recv(10_000).await, Ok(v) if !v.is_empty()) {}
            }
        });
    }
    {
        let (sim, first, x, q, after, spec, ready, go) = (sim.clone(), first.clone(), x.clone(), q.clone(), after.clone(), spec.clone(), ready.clone(), go.clone());
        let (fa, wa) = (w.fa.clone(), w.a.clone());
        let at = r.below(3000) as u64;
        let queue = sc == 0 || sc == 4;
        let use_try = r.pct(50);
        let sp = ex.spawner();
        ex.spawn("caller", async move {
            if before {
                exchange(&sim, &mut tx, &ReqSpec::get("/first"), &first, CRead::All, 0, false).await;
                if tx.ready().await.is_err() {
                    return;
                }
            }
            if sc == 5 {
                let n = wa.lock().unwrap().written;
                fa.lock().unwrap().write_at = Some((n + at, Fault::Own(kind, tok)));
            }
            go.open();
            if sc == 12 {
                // idle: no request
                if let Err(e) = tx.ready().await {
                    *ready.lock().unwrap() = Some(Facts::of(&e));
                }
                for _ in 0..400 {
                    sim.yields(1).await;
                    if tx.is_closed() {
                        break;
                    }
                }
            } else if queue {
                // a second request waits behind the first one
                let infos = x.lock().unwrap().infos.clone();
                let (req, _) = build_request(&sim, &spec, &infos);
                let f1 = tx.send_request(req);
                let (req, _) = build_request(&sim, &ReqSpec::get("/queued"), &infos);
                let f2 = tx.send_request(req);
                let (s2, q2) = (sim.clone(), q.clone());
                sp.spawn("queued", async move {
                    let res = f2.await;
                    s2.mark();
                    let mut g = q2.lock().unwrap();
                    g.resolved += 1;
                    if let Err(e) = res {
                        g.err = Some(ErrInfo::of(&e));
                    }
                });
                let res = f1.await;
                let mut g = x.lock().unwrap();
                g.resolved += 1;
                match res {
                    Err(e) => g.err = Some(ErrInfo::of(&e)),
                    Ok(resp) => g.status = Some(resp.status().as_u16()),
                }
            } else {
                exchange(&sim, &mut tx, &spec, &x, CRead::All, 0, use_try).await;
            }
            // whatever happened, the sender says so afterwards
            for _ in 0..200 {
                sim.yields(1).await;
                if tx.is_closed() {
                    break;
                }
            }
            if tx.is_closed() {
                if let Err(e) = tx.ready().await {
                    *ready.lock().unwrap() = Some(Facts::of(&e));
                }
                exchange(&sim, &mut tx, &ReqSpec::get("/after"), &after, CRead::All, 0, use_try).await;
            }
        });
    }
    let mut e = ex.run();
    if sc == 8 {
        ex.kill("client");
        e = ex.run();
    }
    let mut j = J { out: &mut out, judged: 0, label, cfg: format!("{cfg:?} before={before}") };
    let c = end.lock().unwrap().clone();
    let fin = c.facts.as_ref();
    j.any(fin);
    let err = x.lock().unwrap().err.as_ref().map(|e| e.facts.clone());
    let got = x.lock().unwrap().got.lock().unwrap().facts.clone();
    for f in [&err, &got] {
        j.any(f.as_ref());
    }
    let err = err.as_ref();
    let faulted = w.a.lock().unwrap().faulted;
    match sc {
        0 => j.want("request", err, &["incomplete_message"], Cause::Any),
        1 if bad_status => j.want("request", err, &["parse", "parse_status"], Cause::Any),
        1 => j.want("request", err, &["parse"], Cause::Any),
        2 | 3 => j.want("request", err, &["parse", "parse_too_large"], Cause::Any),
        4 => j.want("request", err, &[], Cause::Io(kind, tok)),
        5 if faulted => {
            let f = err.or(fin);
            j.want("request or connection", f, &[], Cause::Io(kind, tok))
        }
        6 => j.want("request or connection", err.or(fin), &["user"], Cause::Own(tok)),
        7 => j.want("request or connection", err.or(fin), &["user", "body_write_aborted"], Cause::Any),
        8 => j.want("request", err, &["user"], Cause::Any),
        9 => j.want("response body", got.as_ref(), &["incomplete_message"], Cause::IoIn(&[K::UnexpectedEof])),
        10 => j.want("response body", got.as_ref(), &[], Cause::IoIn(&[K::InvalidInput, K::InvalidData])),
        11 => j.want("response body", got.as_ref(), &[], Cause::Io(kind, tok)),
        12 => j.want("connection", fin, &[], Cause::Any),
        13 => {
            let up = x.lock().unwrap().upgrade.take();
            if let Some(Some(Err(e))) = up.map(poll_now) {
                let f = Facts::of(&e);
                j.any(Some(&f));
                j.want("upgrade without support for it", Some(&f), &["user"], Cause::Any);
            }
        }
        _ => {}
    }
    if q.lock().unwrap().resolved > 0 {
        let f = q.lock().unwrap().err.as_ref().map(|e| e.facts.clone());
        j.any(f.as_ref());
        j.want("queued request", f.as_ref(), &["canceled"], Cause::Any);
    }
    if let Some(f) = ready.lock().unwrap().as_ref() {
        j.any(Some(f));
        j.want("ready() of a finished connection", Some(f), &["closed"], Cause::Any);
    }
    if after.lock().unwrap().resolved > 0 {
        let f = after.lock().unwrap().err.as_ref().map(|e| e.facts.clone());
        j.any(f.as_ref());
        j.want("request on a finished connection", f.as_ref(), &["canceled"], Cause::Any);
    }
    let n = j.judged;
    finish(&mut out, &sim, n, e, label);
    out
}

const CODES: [u32; 12] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13];

fn client2(ctx: &Ctx, r: &mut Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let sim = Sim::new(ctx.seed);
    if ctx.trace {
        sim.enable_log();
    }
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 10]);
    ex.until = Some(3_000_000_000_000);
    let tok = r.next() >> 20;
    let kind = *r.pick(&KINDS);
    let code = *r.pick(&CODES);
    let mut cfg = H2Cfg::gen(r);
    cfg.max_list = None;
    cfg.table = None;
    cfg.ka = None;
    cfg.stream_win = cfg.stream_win.map(|w| w.max(400));
    let (mut ioa, iob) = (small_io(r), small_io(r));
    ioa.late_flush = false;
    const L: [&str; 8] = [
        "h2 client, reset before the response",
        "h2 client, reset inside the response body",
        "h2 client, GOAWAY refusing the request",
        "h2 client, keep-alive timeout",
        "h2 client, CONNECT with a body",
        "h2 client, read error",
        "h2 client, request body error",
        "h2 client, connection task gone",
    ];
    let sc = r.below(L.len());
    let label = L[sc];
    if sc == 3 {
        cfg.ka = Some((Duration::from_secs(r.range(1, 30) as u64), Duration::from_secs(r.range(1, 30) as u64)));
    }
    let (a, b, w) = pipe(&sim, ioa, iob);
    let (slot, end) = connect_h2(&mut ex, &cfg, a);
    let raw = Raw::spawn(&mut ex, b, false);
    raw.st.lock().unwrap().ack_pings = sc != 3;
    raw.put(&frames::settings(&[]));
    let x: ExRef = Default::default();
    let after: ExRef = Default::default();
    let mut spec = ReqSpec::get(&abs("/c"));
    spec.headers.clear();
    match sc {
        4 => {
            spec.method = "CONNECT".into();
            spec.uri = "example.com:80".into();
            spec.headers.push(("content-length".into(), r.range(1, 100).to_string().into_bytes()));
        }
        6 => {
            spec.method = "POST".into();
            spec.script = body_fail(r, tok);
        }
        0 | 2 if r.pct(40) => {
            spec.method = "POST".into();
            let n = r.range(1, 2000);
            spec.script = Script::gen(r, n);
        }
        _ => {}
    }
    {
        let (raw, sim) = (raw.clone(), sim.clone());
        let (fa, wa) = (w.fa.clone(), w.a.clone());
        let n = r.range(0, 300);
        let data = r.bytes(n);
        let at = r.below(30) as u64;
        ex.spawn("peer", async move {
            if !raw.wait(|s| s.has(1, frames::HEADERS)).await {
                return;
            }
            let k = sim.rng(|r| r.below(6));
            sim.yields(k).await;
            match sc {
                0 => raw.put(&frames::rst(1, code)),
                1 => {
                    let mut v = h2raw::response(1, false, "200", &[]);
                    if !data.is_empty() {
                        v.extend(frames::data(1, false, &data));
                    }
                    v.extend(frames::rst(1, code));
                    if at % 2 == 0 {
                        raw.put(&v);
                    } else {
                        let k = v.len() - 13;
                        raw.put(&v[..k]);
                        sim.yields(20).await;
                        raw.put(&v[k..]);
                    }
                }
                2 => raw.put(&frames::goaway(0, code)),
                5 => {
                    let n = wa.lock().unwrap().read_bytes;
                    fa.lock().unwrap().read_at = Some((n + at, Fault::Own(kind, tok)));
                    raw.put(&h2raw::response(1, false, "200", &[("x-pad", &[b'a'; 60])]));
                }
                _ => {}
            }
        });
    }
    {
        let (sim, x, after) = (sim.clone(), x.clone(), after.clone());
        let use_try = r.pct(50);
        ex.spawn("caller", async move {
            let Some(mut tx) = slot.get().await else { return };
            if tx.ready().await.is_err() {
                return;
            }
            exchange2(&sim, &mut tx, &spec, &x, CRead::All, 0, use_try).await;
            if matches!(sc, 2 | 3 | 5) {
                sim.yields(30).await;
                for _ in 0..200 {
                    if tx.is_closed() {
                        break;
                    }
                    sim.yields(1).await;
                }
                if tx.is_closed() {
                    exchange2(&sim, &mut tx, &ReqSpec::get(&abs("/after")), &after, CRead::All, 0, use_try).await;
                }
            }
            std::future::pending::<()>().await;
        });
    }
    let mut e = ex.run();
    if sc == 7 {
        ex.kill("client");
        ex.kill("h2c");
        e = ex.run();
    }
    let mut j = J { out: &mut out, judged: 0, label, cfg: format!("{cfg:?} code={code}") };
    let c = end.lock().unwrap().clone();
    let fin = c.facts.as_ref();
    let err = x.lock().unwrap().err.as_ref().map(|e| e.facts.clone());
    let got = x.lock().unwrap().got.lock().unwrap().facts.clone();
    j.any(fin);
    for f in [&err, &got] {
        j.any(f.as_ref());
    }
    let err = err.as_ref();
    match sc {
        0 => j.want("request", err, &[], Cause::H2(code)),
        1 => j.want("request or response body", err.or(got.as_ref()), &[], Cause::H2(code)),
        2 => {
            j.want("request", err, &[], Cause::H2(code));
            if c.done {
                j.want("connection", fin, &[], Cause::H2(code));
            }
        }
        3 => {
            j.want("request", err, &["timeout"], Cause::Any);
            if c.done {
                j.want("connection", fin, &["timeout"], Cause::Any);
            }
        }
        4 => j.want("request", err, &["user"], Cause::Any),
        5 => {
            j.want("request or response body", err.or(got.as_ref()), &[], Cause::IoText(kind, tok));
            if c.done {
                j.want("connection", fin, &[], Cause::IoText(kind, tok));
            }
        }
        6 => j.want("request", err, &[], Cause::H2(2)),
        7 => j.want("request", err, &["user"], Cause::Any),
        _ => {}
    }
    if after.lock().unwrap().resolved > 0 {
        let f = after.lock().unwrap().err.as_ref().map(|e| e.facts.clone());
        j.any(f.as_ref());
        j.want("request on a finished connection", f.as_ref(), &["canceled"], Cause::Any);
    }
    let n = j.judged;
    finish(&mut out, &sim, n, e, label);
    out
}

fn server2(ctx: &Ctx, r: &mut Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let sim = Sim::new(ctx.seed);
    if ctx.trace {
        sim.enable_log();
    }
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 10]);
    ex.until = Some(3_000_000_000_000);
    let tok = r.next() >> 20;
    let kind = *r.pick(&KINDS);
    let code = *r.pick(&CODES);
    let mut cfg = H2Cfg::gen(r);
    cfg.max_list = None;
    cfg.table = None;
    cfg.ka = None;
    cfg.stream_win = cfg.stream_win.map(|w| w.max(400));
    let (mut ioa, iob) = (small_io(r), small_io(r));
    ioa.late_flush = false;
    const L: [&str; 4] = ["h2 server, reset inside the request body", "h2 server, protocol violation", "h2 server, read error", "h2 server, keep-alive timeout"];
    let sc = r.below(L.len());
    let label = L[sc];
    if sc == 3 {
        cfg.ka = Some((Duration::from_secs(r.range(1, 30) as u64), Duration::from_secs(r.range(1, 30) as u64)));
    }
    let (a, b, w) = pipe(&sim, ioa, iob);
    let mut plan = Plan::simple(RespSpec::ok(b"hi"));
    if sc == 3 {
        plan.gate = Some(Gates(Gate::default()));
    }
    let svc = Svc::new(&ex, vec![plan]);
    let st = svc.st.clone();
    let end = serve_h2(&mut ex, &cfg, a, svc, Gate::default());
    let raw = Raw::spawn(&mut ex, b, true);
    raw.st.lock().unwrap().ack_pings = sc != 3;
    let mut v = frames::PREFACE.to_vec();
    v.extend(frames::settings(&[]));
    raw.put(&v);
    {
        let (raw, sim) = (raw.clone(), sim.clone());
        let (fa, wa) = (w.fa.clone(), w.a.clone());
        let n = r.range(0, 300);
        let data = r.bytes(n);
        let at = r.below(30) as u64;
        let bad = r.below(6);
        let calls = st.clone();
        ex.spawn("peer", async move {
            if !raw.wait(|s| s.frames.iter().any(|(f, _)| f.kind == frames::SETTINGS && !f.ack())).await {
                return;
            }
            let mut v = h2raw::request(1, sc == 3, "POST", "/x", &[]);
            if sc != 3 && !data.is_empty() {
                v.extend(frames::data(1, false, &data));
            }
            raw.put(&v);
            // the service has the request
            for _ in 0..3000 {
                if !calls.lock().unwrap().seen.is_empty() {
                    break;
                }
                sim.yields(1).await;
            }
            match sc {
                0 => raw.put(&frames::rst(1, code)),
                1 => raw.put(&match bad {
                    0 => frames::data(0, false, b"x"),
                    1 => frames::frame(frames::HEADERS, 4, 2, &[0x82]),
                    2 => frames::wupd(0, 0),
                    3 => frames::frame(frames::PING, 0, 0, b"short"),
                    4 => frames::settings(&[(4, 0x8000_0000)]),
                    _ => frames::frame(frames::HEADERS, 4, 3, &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff]),
                }),
                2 => {
                    let n = wa.lock().unwrap().read_bytes;
                    fa.lock().unwrap().read_at = Some((n + at, Fault::Own(kind, tok)));
                    raw.put(&frames::data(1, false, &[b'x'; 60]));
                }
                _ => {}
            }
        });
    }
    let e = ex.run();
    let mut j = J { out: &mut out, judged: 0, label, cfg: format!("{cfg:?} code={code}") };
    let c = end.lock().unwrap().clone();
    let fin = c.facts.as_ref();
    let got = st.lock().unwrap().seen.first().and_then(|s| s.got.lock().unwrap().facts.clone());
    j.any(fin);
    j.any(got.as_ref());
    match sc {
        0 => j.want("request body", got.as_ref(), &[], Cause::H2(code)),
        1 => match raw.st.lock().unwrap().goaways().last() {
            Some((_, wire, _)) => {
                let wire = *wire;
                j.want("connection", fin, &[], Cause::H2(wire));
                if st.lock().unwrap().seen.len() == 1 {
                    j.want("request body", got.as_ref(), &[], Cause::H2(wire));
                }
            }
            None => {}
        },
        2 => {
            j.want("connection", fin, &[], Cause::IoText(kind, tok));
            if st.lock().unwrap().seen.len() == 1 {
                j.want("request body", got.as_ref(), &[], Cause::IoText(kind, tok));
            }
        }
        3 => j.want("connection", fin, &["timeout"], Cause::Any),
        _ => {}
    }
    let n = j.judged;
    finish(&mut out, &sim, n, e, label);
    out
}
