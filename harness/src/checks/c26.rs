//! C26: received bodies report their remaining size and their end truthfully.
use crate::body::*;
use crate::cli::*;
use crate::frames;
use crate::h1gen::*;
use crate::h2ex::{gen_io2, tame2};
use crate::h2raw::*;
use crate::h2x::*;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::run::tame;
use crate::sim::*;
use crate::srv::*;
use crate::util::*;

pub const CHECK: Check = Check {
    id: "C26",
    level: "exploration",
    rule: "a case is one received body (HTTP/1 or HTTP/2, request or response) whose size hint and end flag are sampled before, during and after every poll while it arrives in pieces, and compared with what the peer sent; distinct = distinct (bytes, schedule) with at least one sample",
    quick: 120_000,
    thorough: 3_000_000,
    run: case,
    assumptions: &["the remaining size of a message that never becomes complete is only judged against what was read"],
};

fn judge(what: &str, g: &Got, truth: &[u8], complete: bool, trailers: bool, out: &mut CaseOut) {
    out.count("samples", g.hints.len() as u64);
    out.count("frames", g.frames as u64);
    if g.err.is_some() {
        out.count("failed_bodies", 1);
    }
    if !g.hints.is_empty() {
        out.nontrivial = true;
    }
    for o in hint_oddities(g) {
        out.viol(format!("{what}: {o}"));
    }
    if g.trailer_frames > 1 {
        out.viol(format!("{what}: {} trailers frames", g.trailer_frames));
    }
    if !complete {
        return;
    }
    for (at, lo, up, eos) in &g.hints {
        let rest = (truth.len() - (*at).min(truth.len())) as u64;
        if *lo > rest || up.is_some_and(|u| u < rest) {
            out.viol(format!("{what}: size_hint {lo}..{up:?} at offset {at} of {} bytes", truth.len()));
        }
        if *eos && (rest > 0 || trailers && g.trailer_frames == 0 && g.clean()) {
            out.viol(format!("{what}: is_end_stream() at offset {at} of {} bytes, trailers {trailers}", truth.len()));
        }
        out.count("exact", (*up == Some(*lo)) as u64);
        out.count("end_flags", *eos as u64);
    }
}

fn case(ctx: &Ctx) -> CaseOut {
    let mut r = Rng::new(ctx.seed);
    match r.below(4) {
        0 => h1_server(ctx, r),
        1 => h1_client(ctx, r),
        2 => h2_raw(ctx, r, true, false),
        _ => h2_raw(ctx, r, false, false),
    }
}
fn read_plan(r: &mut Rng) -> ReadPlan {
    match r.below(8) {
        0 => ReadPlan::Concurrent,
        1 => ReadPlan::AfterRespond,
        2 => ReadPlan::Partial(r.range(1, 4)),
        3 => ReadPlan::Touch,
        _ => ReadPlan::All,
    }
}
/// writes `wire` in pieces, up to `cut`
fn sender(ex: &mut Exec, r: &mut Rng, p: &Peer, wire: Vec<u8>, cut: Option<usize>, drop_it: bool, close: bool, first: Count) {
    let p = p.clone();
    let sim = ex.sim.clone();
    let pieces = wire.len() / 40 + 1;
    let gap = *r.pick(&[0usize, 1, 6, 30]);
    ex.spawn("peer-write", async move {
        first.at_least(1).await;
        let end = cut.unwrap_or(wire.len());
        let mut off = 0;
        while off < end {
            let k = sim.rng(|r| if r.pct(30) { end - off } else { r.range(1, end - off).min(r.range(1, 4 * pieces)) });
            if p.send(&wire[off..off + k]).await.is_err() {
                return;
            }
            off += k;
            let y = sim.rng(|r| r.range(0, gap));
            sim.yields(y).await;
        }
        if cut.is_some() && drop_it {
            p.drop_io();
        } else if cut.is_some() || close {
            let _ = p.close_write().await;
        }
    });
}
fn h1_server(ctx: &Ctx, mut r: Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let r = &mut r;
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = SrvCfg::gen(r);
    let maxb = *r.pick(&[50, 3000, 30_000]);
    let m = gen_request(r, &ReqOpt { max_body: maxb, close: false, leading_crlf: true, allow_10: true, max_headers: cfg.max_headers.unwrap_or(100) });
    if m.head_len + 8 >= cfg.max_buf.unwrap_or(400_000) {
        cfg.max_buf = None;
    }
    let mut p = Plan::simple(RespSpec::ok(b"ok"));
    p.read = read_plan(r);
    p.pace = *r.pick(&[0, 0, 30, 70]);
    p.delay = *r.pick(&[0, 0, 3, 30]);
    let cut = if r.pct(15) { Some(r.below(m.wire.len())) } else { None };
    let (mut ioa, mut iob) = (IoCfg::gen(r), IoCfg::gen(r));
    tame(r, &mut ioa, &mut iob, m.wire.len() + 2000);
    out.desc = Some(format!("HTTP/1 request {} 1.{} {:?} {} bytes, trailers {}, read {:?}, cut {cut:?}", m.method, m.minor, m.kind, m.body.len(), m.trailers.len(), p.read));
    let (a, b, _wire) = pipe(&sim, ioa, iob);
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let svc = Svc::new(&ex, vec![p]);
    let st = svc.st.clone();
    let _end = serve_h1(&mut ex, &cfg, a, svc, Gate::default());
    let peer = Peer::new(b);
    let rx: RecvRef = Default::default();
    {
        let (p, rx) = (peer.clone(), rx.clone());
        ex.spawn("peer-read", async move { read_all(p, rx, 1 << 16, |_| {}).await });
    }
    let go = Count::default();
    go.set(1);
    let dr = r.pct(50);
    sender(&mut ex, r, &peer, m.wire.clone(), cut, dr, false, go);
    if !settle(&mut ex, &mut out) {
        return out;
    }
    let st = st.lock().unwrap();
    if let Some(s) = st.seen.first() {
        let g = s.got.lock().unwrap();
        judge("request body", &g, &m.body, cut.is_none(), !m.trailers.is_empty(), &mut out);
        // what the request reported when the service got it
        if cut.is_none() {
            let n = m.body.len() as u64;
            if s.hint.lower() > n || s.hint.upper().is_some_and(|u| u < n) || s.eos && (n > 0 || !m.trailers.is_empty()) {
                out.viol(format!("request: size_hint {:?} and end {} handed to the service for {n} bytes", s.hint, s.eos));
            }
        }
    }
    finish(ctx, &sim, &mut out, fnv(&m.wire));
    out
}
fn settle(ex: &mut Exec, out: &mut CaseOut) -> bool {
    match at_rest(ex.run()) {
        End::StepLimit => {
            out.inconclusive = Some("too many steps".into());
            return false;
        }
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        _ => {}
    }
    true
}
fn finish(ctx: &Ctx, sim: &Sim, out: &mut CaseOut, h: u64) {
    out.sig = mix(sim.st(|s| s.hash), h);
    if ctx.trace {
        out.trace = sim.take_log();
    }
}
fn h1_client(ctx: &Ctx, mut r: Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let r = &mut r;
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = CliCfg::gen(r);
    let method = r.pick(&["GET", "GET", "POST", "HEAD"]).to_string();
    let maxb = *r.pick(&[50, 3000, 30_000]);
    let last = r.pct(50);
    let m = gen_response(r, &RespOpt { method: method.clone(), max_body: maxb, last: last, max_headers: cfg.max_headers.unwrap_or(100) });
    if m.head_len + 8 >= cfg.max_buf.or(cfg.exact_buf).unwrap_or(400_000) {
        cfg.max_buf = None;
        cfg.exact_buf = None;
    }
    let nobody = method == "HEAD" || m.status == 204 || m.status == 304;
    let cut = if r.pct(15) && m.kind != BodyKind::Close { Some(r.below(m.wire.len())) } else { None };
    let (mut ioa, mut iob) = (IoCfg::gen(r), IoCfg::gen(r));
    tame(r, &mut ioa, &mut iob, m.wire.len() + 2000);
    let read = if r.pct(85) { CRead::All } else { CRead::Partial(r.range(1, 4)) };
    out.desc = Some(format!("HTTP/1 response to {method}: {} 1.{} {:?} {} bytes, trailers {}, read {read:?}, cut {cut:?}", m.status, m.minor, m.kind, m.body.len(), m.trailers.len()));
    let (a, b, _wire) = pipe(&sim, ioa, iob);
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let (mut tx, _end) = connect_h1(&mut ex, &cfg, a);
    let peer = Peer::new(b);
    let rx: RecvRef = Default::default();
    let go = Count::default();
    {
        let (p, rx, go) = (peer.clone(), rx.clone(), go.clone());
        ex.spawn("peer-read", async move {
            read_all(p, rx, 1 << 16, |rv| {
                if let refh1::P::Ok(m) = refh1::request(&rv.data, 0) {
                    if m.complete {
                        go.set(1)
                    }
                }
            })
            .await
        });
    }
    let dr = r.pct(50);
    sender(&mut ex, r, &peer, m.wire.clone(), cut, dr, m.uses_close, go);
    let x = ExRef::default();
    {
        let (sim, x) = (sim.clone(), x.clone());
        let mut s = ReqSpec::get("/");
        s.method = method;
        let pace = *r.pick(&[0, 0, 30, 70]);
        ex.spawn("caller", async move {
            if tx.ready().await.is_ok() {
                exchange(&sim, &mut tx, &s, &x, read, pace, false).await;
            }
        });
    }
    if !settle(&mut ex, &mut out) {
        return out;
    }
    let x = x.lock().unwrap();
    let g = x.got.lock().unwrap();
    if x.status.is_some() {
        let truth: &[u8] = if nobody { b"" } else { &m.body };
        judge("response body", &g, truth, cut.is_none(), !nobody && !m.trailers.is_empty(), &mut out);
        if cut.is_none() && x.hint.is_some_and(|h| h != truth.len() as u64) {
            out.viol(format!("response: exact size {:?} handed to the caller for {} bytes", x.hint, truth.len()));
        }
    }
    drop(g);
    drop(x);
    finish(ctx, &sim, &mut out, fnv(&m.wire));
    out
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tail {
    Eos,
    Trailers,
    Rst(u32),
    Close,
    Stay,
    Goaway(u32),
    Fault,
    Garbage,
}
/// C07's question about the same executions: is only a complete message presented as complete?
fn judge7(what: &str, g: &Got, truth: &[u8], complete: bool, tail: Tail, declared: Option<usize>, reads_all: bool, out: &mut CaseOut) {
    out.nontrivial = true;
    out.count("h2_bodies", 1);
    if !complete {
        out.count("h2_truncated", 1);
    }
    if !truth.starts_with(&g.data) {
        out.viol(format!("{what}: data differs from what was sent: {}", diff(truth, &g.data)));
    }
    if !reads_all || !g.started {
        return;
    }
    if complete {
        if let Some(e) = &g.err {
            out.viol(format!("{what}: a complete message failed after {} of {} bytes: {e}", g.data.len(), truth.len()));
        } else if !g.done || g.data.len() != truth.len() {
            out.viol(format!("{what}: a complete message of {} bytes was read as {} bytes, ended {}", truth.len(), g.data.len(), g.done));
        }
    } else if g.done {
        if tail != Tail::Rst(0) {
            out.viol(format!("{what}: clean end after {} bytes of a message that never became complete ({tail:?})", g.data.len()));
        } else if let Some(d) = declared {
            // (with every declared byte there, only the end itself is missing)
            if g.data.len() < d {
                out.viol(format!("{what}: clean end after {} of {d} declared bytes when the stream was reset with NO_ERROR", g.data.len()));
            }
        } else {
            // nothing told the reader that it was short
            out.viol(format!("{what}: clean end after {} bytes although the stream was reset with NO_ERROR before its end (no length declared)", g.data.len()));
        }
    } else if g.err.is_none() && tail != Tail::Stay {
        out.viol(format!("{what}: the reader was never told that the message ended early ({tail:?})"));
    }
}
/// A body sent frame by frame to hyper as server (request) or client (response).
pub fn h2_raw(ctx: &Ctx, mut r: Rng, server: bool, j7: bool) -> CaseOut {
    let mut out = CaseOut::default();
    let r = &mut r;
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = H2Cfg::gen(r);
    cfg.stream_win = *r.pick(&[None, Some(65_535), Some(1 << 20)]);
    cfg.conn_win = None;
    let total = *r.pick(&[0usize, 1, 100, 5_000, 40_000]);
    let k = r.size(total);
    let method = if server { *r.pick(&["POST", "GET", "PUT"]) } else { *r.pick(&["GET", "GET", "POST", "HEAD"]) };
    let status = if server { 200u16 } else { *r.pick(&[200u16, 200, 200, 204, 304, 404, 500]) };
    let nobody = !server && (method == "HEAD" || status == 304 || status == 204);
    let body = if nobody { vec![] } else { r.body(k) };
    let tail = match r.below(20) {
        0..=10 => Tail::Eos,
        11..=14 => Tail::Trailers,
        15 | 16 => Tail::Rst(*r.pick(&[0u32, 8, 2, 5, 7])),
        17 => Tail::Close,
        _ => Tail::Stay,
    };
    let tail = if j7 && r.pct(65) {
        match r.below(12) {
            0..=4 => Tail::Rst(*r.pick(&[0u32, 0, 8, 2, 5, 7, 1, 11, 12, 77])),
            5 | 6 => Tail::Close,
            7 | 8 => Tail::Goaway(*r.pick(&[0u32, 0, 2, 11])),
            9 | 10 => Tail::Fault,
            _ => Tail::Garbage,
        }
    } else {
        tail
    };
    let mut chunks: Vec<Vec<u8>> = vec![];
    let mut at = 0;
    let lo = body.len() / 40 + 1;
    while at < body.len() {
        let n = (lo + r.size(3000)).min(body.len() - at).min(16_000);
        chunks.push(body[at..at + n].to_vec());
        at += n;
        if r.pct(5) {
            chunks.push(vec![]);
        }
    }
    // truth about the length, or (rarely) a lie, which makes the message malformed
    let declared = match r.below(10) {
        0..=5 if nobody && status != 204 => Some(*r.pick(&[0usize, 5, 100])),
        0..=5 if !nobody => Some(body.len()),
        6 if !nobody => Some(*r.pick(&[body.len() + 1, body.len() * 2 + 7, body.len().saturating_sub(1)])),
        _ => None,
    };
    let lie = !nobody && declared.is_some_and(|d| d != body.len());
    // end of stream on the head, on the last data frame, or on an empty frame of its own
    let eos_head = chunks.is_empty() && tail == Tail::Eos && r.pct(60);
    let eos_last = r.pct(60);
    // (h2 takes the length of a 304 at its word unless the head ends the stream)
    let declared = declared.filter(|_| status != 304 || method == "HEAD" || eos_head);
    let complete = !lie && matches!(tail, Tail::Eos | Tail::Trailers);
    tame2(r, &mut cfg, body.len());
    let (ioa, iob) = gen_io2(r, body.len() + 2000);
    let (a, b, wire) = pipe(&sim, ioa, iob);
    wire.record_order();
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let raw;
    let x = ExRef::default();
    let mut st = None;
    let pace = *r.pick(&[0u32, 0, 30, 70]);
    let mut keep = (None, None);
    let plan_read = read_plan(r);
    let read = if r.pct(85) { CRead::All } else { CRead::Partial(r.range(1, 4)) };
    let slen = declared.map(|d| d.to_string());
    let mut extra: Vec<(&str, &[u8])> = vec![];
    if let Some(d) = &slen {
        extra.push(("content-length", d.as_bytes()));
    }
    let head = if server { request(1, eos_head, method, "/", &extra) } else { response(1, eos_head, &status.to_string(), &extra) };
    if server {
        let mut p = Plan::simple(RespSpec::ok(b"ok"));
        p.read = plan_read.clone();
        p.pace = pace;
        p.delay = *r.pick(&[0, 0, 3, 30]);
        let svc = Svc::new(&ex, vec![p]);
        st = Some(svc.st.clone());
        keep.0 = Some(serve_h2(&mut ex, &cfg, b, svc, Gate::default()));
        raw = Raw::spawn(&mut ex, a, true);
        raw.put(&[frames::PREFACE, &frames::settings(&[])].concat());
    } else {
        let (s, e) = connect_h2(&mut ex, &cfg, a);
        keep.0 = Some(e);
        keep.1 = Some(s.clone());
        raw = Raw::spawn(&mut ex, b, false);
        raw.put(&frames::settings(&[]));
        let (sim, x) = (sim.clone(), x.clone());
        ex.spawn("caller", async move {
            let Some(mut tx) = s.get().await else { return };
            let mut spec = ReqSpec::get(&abs("/"));
            spec.method = method.into();
            exchange2(&sim, &mut tx, &spec, &x, read, pace, false).await;
        });
    }
    {
        let (raw, sim) = (raw.clone(), sim.clone());
        let gap = *r.pick(&[0usize, 1, 6, 40]);
        let wire = wire.clone();
        ex.spawn("peer", async move {
            if !server && !raw.wait(|s| s.has(1, frames::HEADERS)).await {
                return;
            }
            raw.put(&head);
            let n = chunks.len();
            for (i, c) in chunks.iter().enumerate() {
                let y = sim.rng(|r| r.range(0, gap));
                sim.yields(y).await;
                raw.put(&frames::data(1, eos_last && i + 1 == n && tail == Tail::Eos, c));
            }
            let y = sim.rng(|r| r.range(0, gap));
            sim.yields(y).await;
            match tail {
                Tail::Eos if eos_head || eos_last && n > 0 => {}
                Tail::Eos => raw.put(&frames::data(1, true, b"")),
                Tail::Trailers => raw.put(&frames::headers(1, true, &[("x-t", b"v")])),
                Tail::Rst(c) => raw.put(&frames::rst(1, c)),
                Tail::Close => raw.close(),
                Tail::Stay => {}
                Tail::Goaway(c) => {
                    raw.put(&frames::goaway(if server { 0 } else { 1 }, c));
                    raw.close();
                }
                Tail::Fault => wire.reset_all(),
                Tail::Garbage => raw.put(&frames::data(0, false, b"x")),
            }
        });
    }
    out.desc = Some(format!(
        "HTTP/2 {} {method} {status}: {} bytes, length {declared:?}, {tail:?}, end on head {eos_head}, on last data {eos_last}, read {}",
        if server { "request" } else { "response" },
        body.len(),
        if server { format!("{plan_read:?}") } else { format!("{read:?}") }
    ));
    if !settle(&mut ex, &mut out) {
        return out;
    }
    let trailers = tail == Tail::Trailers;
    let declared7 = declared.filter(|_| !nobody);
    if let Some(st) = st {
        let st = st.lock().unwrap();
        if let Some(s) = st.seen.first() {
            let g = s.got.lock().unwrap();
            if j7 {
                let all = matches!(plan_read, ReadPlan::All | ReadPlan::Concurrent | ReadPlan::AfterRespond)
                    // a reset also drops the service future, and its reader with it
                    && (complete || !s.fut_dropped || g.done);
                judge7("request body", &g, &body, complete, tail, declared7, all, &mut out);
            } else {
                judge("request body", &g, &body, complete, trailers, &mut out);
            }
            let n = body.len() as u64;
            if complete && (s.hint.lower() > n || s.hint.upper().is_some_and(|u| u < n) || s.eos && (n > 0 || trailers)) {
                out.viol(format!("request: size_hint {:?} and end {} handed to the service for {n} bytes", s.hint, s.eos));
            }
        }
    } else {
        let x = x.lock().unwrap();
        let g = x.got.lock().unwrap();
        if x.status.is_some() {
            if j7 {
                judge7("response body", &g, &body, complete, tail, declared7, read == CRead::All, &mut out);
            } else {
                judge("response body", &g, &body, complete, trailers, &mut out);
            }
            if complete && x.hint.is_some_and(|h| h != body.len() as u64) {
                out.viol(format!("response: exact size {:?} handed to the caller for {} bytes", x.hint, body.len()));
            }
        } else if j7 {
            if x.err.is_none() {
                out.viol(format!("the request future never resolved ({tail:?})"));
            } else if complete || tail == Tail::Stay && !lie {
                out.viol(format!("the response was sent but the caller got {:?}", x.err));
            }
        }
    }
    let order = wire.order.lock().unwrap().clone().unwrap_or_default();
    let (sa, sb) = (wire.sent_by_a(), wire.sent_by_b());
    finish(ctx, &sim, &mut out, fnv(&sa) ^ fnv(&sb));
    if ctx.trace {
        out.trace.extend(frames::dump(&order, &sa, &sb, true));
    }
    drop(keep);
    out
}
