//! C16: HTTP/2 cancellation and errors stay inside their stream and reach the peer.
use crate::body::*;
use crate::cli::*;
use crate::frames;
use crate::h2ex::*;
use crate::h2raw::*;
use crate::h2x::*;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::srv::*;
use crate::util::*;

pub const CHECK: Check = Check {
    id: "C16",
    level: "exploration",
    rule: "a case is one HTTP/2 connection with 2-9 streams of which some are cancelled, reset, failed (service error, body error, peer reset, dropped response or body, invalid message) at random moments: hyper against hyper, hyper server against a raw frame-level client, hyper client against a raw server; distinct = distinct (wire bytes, schedule) with at least one disturbed and one undisturbed stream judged",
    quick: 30_000,
    thorough: 900_000,
    run: case,
    assumptions: &["fewer resets than h2's abuse limits", "a dropped response body ends the stream once its request has been sent"],
};

const CODES: &[u32] = &[1, 2, 3, 5, 7, 8, 11, 13, 0x1234];

fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    match r.below(5) {
        0 | 1 => server(ctx, &mut r, &sim, &mut out),
        2 | 3 => client(ctx, &mut r, &sim, &mut out),
        _ => both(ctx, &mut r, &sim, &mut out),
    }
    if ctx.trace {
        let mut t = sim.take_log();
        t.append(&mut out.trace);
        out.trace = t;
    }
    out
}
fn never_after(r: &mut Rng, n: usize) -> Script {
    let mut s = Script::gen(r, n);
    s.steps.push(Step::Never);
    s.hint = Hint::Unknown;
    s
}
fn failing(r: &mut Rng, n: usize, code: Option<u32>) -> Script {
    let mut s = Script::gen(r, n);
    let wrap = r.pct(50);
    s.steps.push(match code {
        Some(c) => Step::ErrH2(c, wrap),
        None => Step::Err("body failed on purpose".into()),
    });
    s.hint = Hint::Unknown;
    s.eager_eos = false;
    s
}
fn opt_code(r: &mut Rng) -> Option<u32> {
    if r.pct(50) {
        Some(*r.pick(CODES))
    } else {
        None
    }
}
fn seen_of<'a>(st: &'a SvcState, i: usize) -> Vec<&'a Seen> {
    let id = i.to_string();
    st.seen.iter().filter(|s| s.headers.iter().any(|(k, v)| k == "x-id" && v == id.as_bytes())).collect()
}
fn dropped(s: &Seen) -> bool {
    s.body_log.as_ref().map(|l| l.lock().unwrap().dropped).unwrap_or(false)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum SKind {
    Fine,
    SvcErr(Option<u32>),
    BodyErr(Option<u32>),
    RstBefore(u32),
    RstMidResp(u32),
    RstMidReq(u32),
    ConnectLen,
    Bad(usize),
}
const BADS: usize = 9;
/// an invalid request: what is sent, and whether the service may be called
fn bad(kind: usize, sid: u32, i: usize) -> (Vec<u8>, bool) {
    let id = i.to_string();
    let id = id.as_bytes();
    let base: [(&str, &[u8]); 4] = [(":method", b"POST"), (":scheme", b"http"), (":authority", b"example.com"), (":path", b"/bad")];
    let with = |x: &[(&str, &[u8])], eos: bool| {
        let mut h = base.to_vec();
        h.push(("x-id", id));
        h.extend_from_slice(x);
        frames::headers(sid, eos, &h)
    };
    match kind {
        // (h2 takes an upper-case name for a broken header block, and lets a missing path through)
        0 => (with(&[("proxy-connection", b"close")], false), false),
        1 => (with(&[("content-length", b"4"), ("content-length", b"5")], false), false),
        2 => (with(&[("connection", b"close")], true), false),
        3 => (with(&[("te", b"gzip")], true), false),
        4 => (with(&[(":path", b"/again")], true), false),
        5 => ([with(&[("content-length", b"10")], false), frames::data(sid, true, b"abc")].concat(), true),
        6 => ([with(&[("content-length", b"2")], false), frames::data(sid, true, b"abcdef")].concat(), true),
        7 => (with(&[("transfer-encoding", b"chunked")], false), false),
        _ => (with(&[("content-length", b"7")], true), false),
    }
}

/// hyper server, raw client
fn server(ctx: &Ctx, r: &mut Rng, sim: &Sim, out: &mut CaseOut) {
    let n = r.range(2, 9);
    let mut scfg = H2Cfg::gen(r);
    scfg.table = None;
    let maxb = *r.pick(&[50usize, 3000, 20_000]);
    scfg.stream_win = *r.pick(&[None, Some(65_535), Some(1 << 20)]);
    scfg.conn_win = None;
    let mut kinds = vec![];
    let mut plans = vec![];
    let mut bodies: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let k = match r.below(12) {
            _ if i == 0 && n > 2 => SKind::Fine,
            0..=3 => SKind::Fine,
            4 => SKind::SvcErr(opt_code(r)),
            5 => SKind::BodyErr(opt_code(r)),
            6 => SKind::RstBefore(*r.pick(CODES)),
            7 => SKind::RstMidResp(*r.pick(CODES)),
            8 => SKind::RstMidReq(*r.pick(CODES)),
            9 => SKind::ConnectLen,
            _ => SKind::Bad(r.below(BADS)),
        };
        let nb = r.size(maxb);
        let resp_body = match k {
            SKind::BodyErr(c) => failing(r, nb, c),
            SKind::RstMidResp(_) => {
                let nb = nb.max(1);
                never_after(r, nb)
            }
            _ => Script::gen(r, nb),
        };
        let mut p = Plan::simple(RespSpec { script: resp_body, ..RespSpec::ok(b"") });
        p.delay = *r.pick(&[0, 0, 2, 10]);
        p.pace = *r.pick(&[0, 30]);
        p.read = ReadPlan::All;
        match k {
            SKind::SvcErr(c) => {
                p.fail = true;
                p.fail_h2 = c.map(|c| (c, r.pct(50)));
                if r.pct(40) {
                    p.read = ReadPlan::Never;
                }
            }
            SKind::RstBefore(_) => {
                p.gate = Some(Gates(Gate::default()));
                p.read = r.pick(&[ReadPlan::All, ReadPlan::Never, ReadPlan::Hold, ReadPlan::Concurrent]).clone();
            }
            SKind::RstMidResp(_) => p.read = r.pick(&[ReadPlan::All, ReadPlan::Never, ReadPlan::Hold, ReadPlan::Concurrent]).clone(),
            SKind::RstMidReq(_) => p.read = r.pick(&[ReadPlan::All, ReadPlan::Concurrent]).clone(),
            _ => {}
        }
        if matches!(p.read, ReadPlan::Concurrent) && matches!(k, SKind::RstMidReq(_)) {
            p.gate = Some(Gates(Gate::default()));
        }
        kinds.push(k);
        plans.push(p);
        let nb = r.size(maxb);
        bodies.push(r.body(nb));
    }
    coarsen(plans.iter_mut().map(|p| &mut p.resp.script).collect(), &mut H2Cfg::plain());
    let bytes = n * maxb * 2;
    tame2(r, &mut scfg, bytes);
    let (ioa, iob) = gen_io2(r, bytes);
    let (a, b, wire) = pipe(sim, ioa, iob);
    wire.record_order();
    let mut ex = Exec::new(sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let svc = Svc::new(&ex, plans.clone()).by_id();
    let st = svc.st.clone();
    let end = serve_h2(&mut ex, &scfg, b, svc.clone(), Gate::default());
    let raw = Raw::spawn(&mut ex, a, true);
    raw.put(&[frames::PREFACE, &frames::settings(&[(1, 0), (4, 1 << 20)]), &frames::wupd(0, 1 << 24)].concat());
    // streams must be opened in order
    let (raw2, sim2, st2) = (raw.clone(), sim.clone(), st.clone());
    let (k2, b2) = (kinds.clone(), bodies.clone());
    let calls = svc.calls.clone();
    let sp = ex.spawner();
    let gaps: Vec<usize> = (0..n).map(|_| *r.pick(&[0, 0, 0, 3, 20])).collect();
    let cuts: Vec<(usize, usize, usize)> = (0..n).map(|i| (r.below(bodies[i].len() + 1), *r.pick(&[0, 0, 2, 15]), r.range(300, 9000))).collect();
    let partial: Vec<bool> = (0..n).map(|i| r.pct(50) && !(matches!(kinds[i], SKind::RstMidResp(_)) && matches!(plans[i].read, ReadPlan::All))).collect();
    ex.spawn("streams", async move {
        for i in 0..n {
            sim2.yields(gaps[i]).await;
            let sid = 1 + 2 * i as u32;
            let (raw, sim, st, k, body, calls) = (raw2.clone(), sim2.clone(), st2.clone(), k2[i], b2[i].clone(), calls.clone());
            let (cut, delay, chunk) = cuts[i];
            let id = i.to_string();
            match k {
                SKind::ConnectLen => {
                    let h: &[(&str, &[u8])] = &[(":method", b"CONNECT"), (":authority", b"example.com:80"), ("content-length", b"5"), ("x-id", id.as_bytes())];
                    raw.put(&frames::headers(sid, false, h));
                    continue;
                }
                SKind::Bad(b) => {
                    raw.put(&bad(b, sid, i).0);
                    continue;
                }
                _ => {}
            }
            raw.put(&request(sid, false, "POST", &format!("/{i}"), &[("x-id", id.as_bytes())]));
            let early = matches!(k, SKind::RstBefore(_) | SKind::RstMidResp(_)) && partial[i];
            let done = async move {
                let upto = match k {
                    SKind::RstMidReq(_) => cut,
                    _ if early => cut,
                    _ => body.len(),
                };
                let mut off = 0;
                while off < upto {
                    let m = chunk.min(upto - off);
                    let last = off + m == body.len() && upto == body.len() && !matches!(k, SKind::RstMidReq(_)) && !early;
                    raw.put(&frames::data(sid, last, &body[off..off + m]));
                    off += m;
                    sim.yields(delay).await;
                }
                if upto == 0 && body.is_empty() && !matches!(k, SKind::RstMidReq(_)) && !early {
                    raw.put(&frames::data(sid, true, b""));
                }
                match k {
                    SKind::RstBefore(c) => {
                        loop {
                            let c = calls.get();
                            if !seen_of(&st.lock().unwrap(), i).is_empty() {
                                break;
                            }
                            calls.at_least(c + 1).await;
                        }
                        sim.yields(delay).await;
                        raw.put(&frames::rst(sid, c));
                    }
                    SKind::RstMidReq(c) => {
                        sim.yields(delay).await;
                        loop {
                            let c = calls.get();
                            if !seen_of(&st.lock().unwrap(), i).is_empty() {
                                break;
                            }
                            calls.at_least(c + 1).await;
                        }
                        raw.put(&frames::rst(sid, c));
                    }
                    SKind::RstMidResp(c) => {
                        raw.wait(|s| s.has(sid, frames::DATA) || s.has(sid, frames::HEADERS)).await;
                        sim.yields(delay).await;
                        raw.put(&frames::rst(sid, c));
                    }
                    _ => {}
                }
            };
            sp.spawn("stream", done);
        }
    });
    let e = at_rest(ex.run());
    match e {
        End::StepLimit => {
            out.inconclusive = Some("too many steps".into());
            return;
        }
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        _ => {}
    }
    let seen = st.lock().unwrap();
    let rs = raw.st.lock().unwrap();
    let c = end.lock().unwrap().clone();
    if c.done || rs.eof || !rs.goaways().is_empty() {
        out.viol(format!("the connection ended over stream errors {kinds:?}: {} {} goaway {:?}", if c.done { "ended" } else { "open" }, c.err, rs.goaways()));
        return;
    }
    let (mut fine, mut hurt) = (0, 0);
    for i in 0..n {
        let sid = 1 + 2 * i as u32;
        let mine = seen_of(&seen, i);
        let k = kinds[i];
        let what = format!("stream {sid} ({k:?})");
        let s = mine.first();
        if mine.len() > 1 {
            out.viol(format!("{what}: {} service calls", mine.len()));
        }
        let script = &plans[i].resp.script;
        let prefix = |out: &mut CaseOut| {
            let (w, g) = (script.data(), rs.data(sid));
            if g.len() > w.len() || g[..] != w[..g.len()] {
                out.viol(format!("{what}: response bytes are not a prefix: {}", diff(&w, &g)));
            }
        };
        match k {
            SKind::Fine => {
                fine += 1;
                let Some(s) = s else {
                    out.viol(format!("{what}: never reached the service"));
                    continue;
                };
                let g = s.got.lock().unwrap();
                if !g.clean() || g.data != bodies[i] {
                    out.viol(format!("{what}: the service read {} of {} bytes, done {}, error {:?}", g.data.len(), bodies[i].len(), g.done, g.err));
                }
                if rs.status(sid) != Some(200) || rs.data(sid) != script.data() || !rs.eos(sid) || rs.rst(sid).is_some() {
                    out.viol(format!("{what}: response status {:?}, {} of {} bytes, ended {}, reset {:?}", rs.status(sid), rs.data(sid).len(), script.len(), rs.eos(sid), rs.rst(sid)));
                }
            }
            SKind::SvcErr(code) => {
                hurt += 1;
                if rs.rst(sid) != Some(code.unwrap_or(2)) || rs.has(sid, frames::HEADERS) {
                    out.viol(format!("{what}: reset {:?} (expected code {}), frames {:?}", rs.rst(sid), code.unwrap_or(2), rs.of(sid).iter().map(|f| f.show()).collect::<Vec<_>>()));
                }
            }
            SKind::BodyErr(code) => {
                hurt += 1;
                if rs.rst(sid) != Some(code.unwrap_or(2)) || rs.eos(sid) {
                    out.viol(format!("{what}: reset {:?} (expected code {}), frames {:?}", rs.rst(sid), code.unwrap_or(2), rs.of(sid).iter().map(|f| f.show()).collect::<Vec<_>>()));
                }
                prefix(out);
                if !s.map(|s| dropped(s)).unwrap_or(false) {
                    out.viol(format!("{what}: the failed body was not dropped"));
                }
            }
            SKind::RstBefore(_) => {
                hurt += 1;
                if !s.map(|s| s.fut_dropped).unwrap_or(false) {
                    out.viol(format!("{what}: the service's future was not dropped after the peer's reset"));
                }
                if rs.has(sid, frames::HEADERS) {
                    out.viol(format!("{what}: a response was sent"));
                }
            }
            SKind::RstMidResp(_) => {
                hurt += 1;
                prefix(out);
                if !s.map(|s| dropped(s) || s.fut_dropped).unwrap_or(false) {
                    out.viol(format!("{what}: the response body was not dropped after the peer's reset"));
                }
                if rs.eos(sid) {
                    out.viol(format!("{what}: response ended cleanly"));
                }
            }
            SKind::RstMidReq(code) => {
                hurt += 1;
                let Some(s) = s else { continue };
                let g = s.got.lock().unwrap();
                if g.done || (g.err.is_none() && !s.fut_dropped) || (g.reason.is_some() && g.reason != Some(code)) {
                    out.viol(format!("{what}: the service saw end {}, error {:?}, reason {:?}, dropped {}", g.done, g.err, g.reason, s.fut_dropped));
                }
            }
            SKind::ConnectLen => {
                hurt += 1;
                if s.is_some() {
                    out.viol(format!("{what}: reached the service"));
                }
                if rs.rst(sid).is_none() && !matches!(rs.status(sid), Some(400)) {
                    out.viol(format!("{what}: neither reset nor refused"));
                }
            }
            SKind::Bad(b) => {
                hurt += 1;
                if let Some(s) = s {
                    if !bad(b, sid, i).1 {
                        out.viol(format!("{what}: reached the service"));
                    }
                    let g = s.got.lock().unwrap();
                    if g.done {
                        out.viol(format!("{what}: the service saw a complete request"));
                    }
                }
                if rs.rst(sid).is_none() && !matches!(rs.status(sid), Some(400)) {
                    out.viol(format!("{what}: neither reset nor refused"));
                }
            }
        }
    }
    drop(rs);
    drop(seen);
    finish(ctx, sim, &wire, fine, hurt, out);
    if ctx.index < 6 {
        out.desc = Some(format!("server, raw client; streams {kinds:?}"));
    }
}
fn finish(ctx: &Ctx, sim: &Sim, wire: &Wire, fine: u64, hurt: u64, out: &mut CaseOut) {
    let order = wire.order.lock().unwrap().clone().unwrap_or_default();
    let (sa, sb) = (wire.sent_by_a(), wire.sent_by_b());
    out.count("undisturbed_streams", fine);
    out.count("disturbed_streams", hurt);
    out.nontrivial = fine > 0 && hurt > 0;
    out.sig = mix(sim.st(|s| s.hash), fnv(&sa) ^ fnv(&sb));
    if ctx.trace {
        out.trace.extend(frames::dump(&order, &sa, &sb, true));
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum CKind {
    Fine,
    /// complete answer, then a reset without error while the request may be unfinished
    FineThenReset,
    RstBefore(u32),
    RstMidBody(u32),
    DropFut(bool),
    DropBody(usize),
    ReqErr(Option<u32>),
    Bad(usize),
}
fn bad_resp(kind: usize, sid: u32) -> Vec<u8> {
    match kind {
        0 => [response(sid, false, "200", &[("content-length", b"10")]), frames::data(sid, true, b"abc")].concat(),
        1 => [response(sid, false, "200", &[("content-length", b"2")]), frames::data(sid, true, b"abcdef")].concat(),
        2 => response(sid, true, "200", &[("content-length", b"3")]),
        3 => response(sid, true, "200", &[("connection", b"close")]),
        4 => frames::headers(sid, true, &[("x-no-status", b"1")]),
        _ => response(sid, true, "200", &[("transfer-encoding", b"chunked")]),
    }
}
/// hyper client, raw server
fn client(ctx: &Ctx, r: &mut Rng, sim: &Sim, out: &mut CaseOut) {
    let n = r.range(2, 9);
    let mut ccfg = H2Cfg::gen(r);
    ccfg.table = None;
    ccfg.connect = false;
    ccfg.stream_win = *r.pick(&[None, Some(65_535), Some(1 << 20)]);
    ccfg.conn_win = None;
    let maxb = *r.pick(&[50usize, 3000, 20_000]);
    let mut kinds = vec![];
    let mut specs = vec![];
    let mut resps: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let k = match r.below(13) {
            _ if i == 0 && n > 2 => CKind::Fine,
            0..=3 => CKind::Fine,
            4 => CKind::FineThenReset,
            5 => CKind::RstBefore(*r.pick(&[0, 1, 2, 5, 7, 8, 11, 0x1234])),
            6 => CKind::RstMidBody(*r.pick(CODES)),
            7 | 8 => CKind::DropFut(r.pct(50)),
            9 => CKind::DropBody(r.below(3)),
            10 => CKind::ReqErr(opt_code(r)),
            _ => CKind::Bad(r.below(6)),
        };
        let nb = r.size(maxb);
        let script = match k {
            CKind::ReqErr(c) => failing(r, nb, c),
            CKind::DropFut(true) | CKind::RstBefore(_) if r.pct(60) => never_after(r, nb),
            CKind::FineThenReset if r.pct(60) => never_after(r, nb),
            _ if r.pct(30) => Script { eager_eos: r.pct(60), ..Script::empty() },
            _ => Script::gen(r, nb),
        };
        specs.push(ReqSpec { method: "POST".into(), uri: abs(&format!("/{i}")), version: http::Version::HTTP_2, headers: vec![("x-id".into(), i.to_string().into_bytes())], script, informational: false, copy_case: vec![] });
        kinds.push(k);
        let nb = r.size(maxb);
        resps.push(r.body(nb));
    }
    coarsen(specs.iter_mut().map(|s| &mut s.script).collect(), &mut H2Cfg::plain());
    let bytes = n * maxb * 2;
    tame2(r, &mut ccfg, bytes);
    let (ioa, iob) = gen_io2(r, bytes);
    let (a, b, wire) = pipe(sim, ioa, iob);
    wire.record_order();
    let mut ex = Exec::new(sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let raw = Raw::spawn(&mut ex, b, false);
    raw.put(&[frames::settings(&[(1, 0), (4, 1 << 20)]), frames::wupd(0, 1 << 24)].concat());
    let (slot, cend) = connect_h2(&mut ex, &ccfg, a);
    let xs: Vec<ExRef> = (0..n).map(|_| ExRef::default()).collect();
    let kills: Vec<Kill> = (0..n).map(|_| Kill::default()).collect();
    let paces: Vec<u32> = (0..n).map(|_| *r.pick(&[0, 0, 40])).collect();
    let gaps: Vec<usize> = (0..n).map(|_| *r.pick(&[0, 0, 0, 3, 20])).collect();
    {
        let (slot, sim2, sp, specs, kinds, xs, kills) = (slot.clone(), sim.clone(), ex.spawner(), specs.clone(), kinds.clone(), xs.clone(), kills.clone());
        ex.spawn("submit", async move {
            let Some(mut tx) = slot.get().await else { return };
            for i in 0..n {
                sim2.yields(gaps[i]).await;
                let fut = submit2(&sim2, &mut tx, &specs[i], &xs[i], i % 2 == 0);
                let (sim3, x, kill, k, pace) = (sim2.clone(), xs[i].clone(), kills[i].clone(), kinds[i], paces[i]);
                sp.spawn("x", async move {
                    let rd = match k {
                        CKind::DropBody(m) => CRead::Partial(m),
                        _ => CRead::All,
                    };
                    let x2 = x.clone();
                    if kill.guard(finish2(&sim3, fut, &x2, rd, pace)).await.is_none() {
                        x.lock().unwrap().dropped = true;
                    }
                });
            }
        });
    }
    for i in 0..n {
        let sid = 1 + 2 * i as u32;
        let (raw, sim2, k, body, kill) = (raw.clone(), sim.clone(), kinds[i], resps[i].clone(), kills[i].clone());
        let (d1, d2, chunk) = (*r.pick(&[0usize, 0, 5, 30]), *r.pick(&[0usize, 0, 5]), r.range(300, 9000));
        let wait_req = r.pct(50) || matches!(k, CKind::DropBody(_));
        let some = r.pct(70);
        let before = r.pct(40);
        ex.spawn("answer", async move {
            let sim = sim2;
            if let CKind::DropFut(_) = k {
                if before {
                    sim.yields(d1).await;
                } else {
                    raw.wait(|s| s.has(sid, frames::HEADERS)).await;
                    sim.yields(d1).await;
                }
                sim.log(|| format!("caller {i} drops its response future"));
                kill.kill();
                return;
            }
            raw.wait(|s| s.has(sid, frames::HEADERS)).await;
            sim.yields(d1).await;
            let never = matches!(k, CKind::ReqErr(_) | CKind::FineThenReset | CKind::RstBefore(_) | CKind::RstMidBody(_));
            if wait_req && !never {
                raw.wait(|s| s.eos(sid)).await;
            }
            let full = |eos: bool, upto: usize| {
                let mut v = vec![];
                let mut off = 0;
                while off < upto {
                    let m = chunk.min(upto - off);
                    v.push(frames::data(sid, eos && off + m == upto, &body[off..off + m]));
                    off += m;
                }
                if upto == 0 && eos {
                    v.push(frames::data(sid, true, b""));
                }
                v
            };
            match k {
                CKind::Fine | CKind::FineThenReset => {
                    raw.put(&response(sid, false, "200", &[]));
                    for f in full(true, body.len()) {
                        sim.yields(d2).await;
                        raw.put(&f);
                    }
                    if k == CKind::FineThenReset {
                        sim.yields(d2).await;
                        raw.put(&frames::rst(sid, 0));
                    }
                }
                CKind::RstBefore(c) => raw.put(&frames::rst(sid, c)),
                CKind::RstMidBody(c) => {
                    raw.put(&response(sid, false, "200", &[]));
                    if some {
                        for f in full(false, body.len()) {
                            sim.yields(d2).await;
                            raw.put(&f);
                        }
                    }
                    sim.yields(d2).await;
                    raw.put(&frames::rst(sid, c));
                }
                CKind::DropBody(_) => {
                    raw.put(&response(sid, false, "200", &[]));
                    for f in full(false, body.len()) {
                        sim.yields(d2).await;
                        raw.put(&f);
                    }
                }
                CKind::ReqErr(_) => {
                    if some {
                        raw.put(&response(sid, false, "200", &[]));
                    }
                }
                CKind::Bad(b) => raw.put(&bad_resp(b, sid)),
                CKind::DropFut(_) => {}
            }
        });
    }
    let e = at_rest(ex.run());
    match e {
        End::StepLimit => {
            out.inconclusive = Some("too many steps".into());
            return;
        }
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        _ => {}
    }
    let rs = raw.st.lock().unwrap();
    let c = cend.lock().unwrap().clone();
    if c.done || rs.eof || !rs.goaways().is_empty() {
        out.viol(format!("the connection ended over stream errors {kinds:?}: {} {} goaway {:?}", if c.done { "ended" } else { "open" }, c.err, rs.goaways()));
        return;
    }
    // requests cancelled before they were put on the wire take no stream number
    let opened = (0..n).filter(|i| rs.has(1 + 2 * *i as u32, frames::HEADERS)).count();
    let dropped_early = kinds.iter().zip(&xs).any(|(k, x)| matches!(k, CKind::DropFut(_)) && x.lock().unwrap().dropped);
    let skipped = opened < n && dropped_early;
    let (mut fine, mut hurt) = (0, 0);
    if skipped {
        // stream numbers do not match request numbers any more
        out.inconclusive = None;
        return;
    }
    for i in 0..n {
        let sid = 1 + 2 * i as u32;
        let x = xs[i].lock().unwrap();
        let k = kinds[i];
        let what = format!("stream {sid} ({k:?})");
        let log = x.body_log.as_ref().map(|l| l.lock().unwrap().clone()).unwrap_or_default();
        let g = x.got.lock().unwrap();
        let w = specs[i].script.data();
        let sent = rs.data(sid);
        if sent.len() > w.len() || sent[..] != w[..sent.len()] {
            out.viol(format!("{what}: request bytes are not a prefix: {}", diff(&w, &sent)));
        }
        let full_req = |out: &mut CaseOut| {
            if sent != w || !rs.eos(sid) || rs.rst(sid).is_some() {
                out.viol(format!("{what}: request {} of {} bytes, ended {}, reset {:?}", sent.len(), w.len(), rs.eos(sid), rs.rst(sid)));
            }
        };
        match k {
            CKind::Fine | CKind::FineThenReset => {
                if k == CKind::Fine {
                    fine += 1;
                    full_req(out);
                } else {
                    hurt += 1;
                    if x.submitted && !log.dropped {
                        out.viol(format!("{what}: the request body was not dropped after the reset"));
                    }
                }
                if x.status != Some(200) || !g.clean() || g.data != resps[i] {
                    out.viol(format!("{what}: status {:?}, error {:?}, body {} of {} bytes, done {}, error {:?}", x.status, x.err.as_ref().map(|e| &e.dbg), g.data.len(), resps[i].len(), g.done, g.err));
                }
            }
            CKind::RstBefore(code) => {
                hurt += 1;
                if x.resolved != 1 || x.err.as_ref().and_then(|e| e.reason) != Some(code) {
                    out.viol(format!("{what}: caller resolved {} with status {:?} error {:?}", x.resolved, x.status, x.err.as_ref().map(|e| (&e.dbg, e.reason))));
                }
                if x.submitted && !log.dropped {
                    out.viol(format!("{what}: the request body was not dropped after the reset"));
                }
            }
            CKind::RstMidBody(code) => {
                hurt += 1;
                // a reset may overtake the head of the response
                let before = x.err.as_ref().map(|e| e.reason == Some(code)).unwrap_or(false);
                if !before && (x.status != Some(200) || g.done || g.reason != Some(code)) {
                    out.viol(format!("{what}: status {:?}, error {:?}, body done {}, error {:?} reason {:?}", x.status, x.err.as_ref().map(|e| &e.dbg), g.done, g.err, g.reason));
                }
                if g.data.len() > resps[i].len() || g.data[..] != resps[i][..g.data.len()] {
                    out.viol(format!("{what}: body differs"));
                }
                if x.submitted && !log.dropped {
                    out.viol(format!("{what}: the request body was not dropped after the reset"));
                }
            }
            CKind::DropFut(_) => {
                hurt += 1;
                if rs.has(sid, frames::HEADERS) && rs.rst(sid) != Some(8) {
                    out.viol(format!("{what}: reset {:?} after the response future was dropped (expected CANCEL)", rs.rst(sid)));
                }
                if x.submitted && !log.dropped {
                    out.viol(format!("{what}: the request body was not dropped"));
                }
            }
            CKind::DropBody(_) => {
                hurt += 1;
                if x.status != Some(200) {
                    out.viol(format!("{what}: status {:?} {:?}", x.status, x.err.as_ref().map(|e| &e.dbg)));
                }
                let ended = g.done || g.err.is_some();
                if !ended && rs.rst(sid) != Some(8) && x.status == Some(200) && g.frames < usize::MAX && x.resolved == 1 && !still_reading(&g, k) {
                    out.viol(format!("{what}: reset {:?} after the response body was dropped (expected CANCEL)", rs.rst(sid)));
                }
            }
            CKind::ReqErr(code) => {
                hurt += 1;
                if rs.rst(sid) != Some(code.unwrap_or(2)) || rs.eos(sid) {
                    out.viol(format!("{what}: reset {:?} (expected {}), request ended {}", rs.rst(sid), code.unwrap_or(2), rs.eos(sid)));
                }
                if x.resolved != 1 || (x.err.is_none() && g.err.is_none()) {
                    out.viol(format!("{what}: caller resolved {} status {:?}, body done {} error {:?}", x.resolved, x.status, g.done, g.err));
                }
                if x.submitted && !log.dropped {
                    out.viol(format!("{what}: the failed body was not dropped"));
                }
            }
            CKind::Bad(_) => {
                hurt += 1;
                if x.resolved != 1 || (x.err.is_none() && g.err.is_none()) {
                    out.viol(format!("{what}: caller resolved {} status {:?}, body done {} error {:?}", x.resolved, x.status, g.done, g.err));
                }
            }
        }
    }
    drop(rs);
    finish(ctx, sim, &wire, fine, hurt, out);
    if ctx.index < 6 {
        out.desc = Some(format!("client, raw server; streams {kinds:?}"));
    }
}
/// a reader that wants more frames than ever come is still waiting
fn still_reading(g: &Got, k: CKind) -> bool {
    matches!(k, CKind::DropBody(m) if g.frames < m)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum AKind {
    Fine,
    SvcErr(Option<u32>),
    RespErr(Option<u32>),
    ReqErr(Option<u32>),
    DropFut,
    DropBody(usize),
}
/// hyper against hyper
fn both(ctx: &Ctx, r: &mut Rng, sim: &Sim, out: &mut CaseOut) {
    let n = r.range(2, 9);
    let mut scfg = H2Cfg::gen(r);
    let mut ccfg = H2Cfg::gen(r);
    let maxb = *r.pick(&[50usize, 3000, 20_000]);
    let mut kinds = vec![];
    let mut specs = vec![];
    let mut plans = vec![];
    for i in 0..n {
        let k = match r.below(10) {
            _ if i == 0 && n > 2 => AKind::Fine,
            0..=3 => AKind::Fine,
            4 => AKind::SvcErr(opt_code(r)),
            5 => AKind::RespErr(opt_code(r)),
            6 => AKind::ReqErr(opt_code(r)),
            7 | 8 => AKind::DropFut,
            _ => AKind::DropBody(r.below(3)),
        };
        let mut s = gen_req2(r, i, maxb);
        s.headers.retain(|(k, _)| k != "content-length");
        if let AKind::ReqErr(c) = k {
            s.method = "POST".into();
            let nb = r.size(maxb);
            s.script = failing(r, nb, c);
        }
        let mut resp = gen_resp2(r, &s.method, maxb);
        match k {
            AKind::RespErr(c) => {
                let nb = r.size(maxb);
                s.method = "POST".into();
                resp = RespSpec { script: failing(r, nb, c), ..RespSpec::ok(b"") };
            }
            AKind::DropBody(_) => {
                s.method = "POST".into();
                let nb = r.size(maxb).max(1);
                resp = RespSpec { script: never_after(r, nb), ..RespSpec::ok(b"") };
            }
            _ => {}
        }
        let mut p = Plan::simple(resp);
        p.delay = *r.pick(&[0, 0, 3, 20]);
        p.pace = *r.pick(&[0, 40]);
        match k {
            AKind::SvcErr(c) => {
                p.fail = true;
                p.fail_h2 = c.map(|c| (c, r.pct(50)));
            }
            AKind::DropFut => p.gate = Some(Gates(Gate::default())),
            _ => {}
        }
        specs.push(s);
        plans.push(p);
        kinds.push(k);
    }
    coarsen(specs.iter_mut().map(|s| &mut s.script).collect(), &mut scfg);
    coarsen(plans.iter_mut().map(|p| &mut p.resp.script).collect(), &mut ccfg);
    let bytes = n * maxb * 2;
    tame2(r, &mut scfg, bytes);
    tame2(r, &mut ccfg, bytes);
    let (ioa, iob) = gen_io2(r, bytes + n * 400);
    let (a, b, wire) = pipe(sim, ioa, iob);
    wire.record_order();
    let mut ex = Exec::new(sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let svc = Svc::new(&ex, plans.clone()).by_id();
    let st = svc.st.clone();
    let send = serve_h2(&mut ex, &scfg, b, svc.clone(), Gate::default());
    let (slot, cend) = connect_h2(&mut ex, &ccfg, a);
    // (see C15: requests wait for the handshake when the initial window is small)
    if ex.run() != End::Quiescent {
        return;
    }
    let xs: Vec<ExRef> = (0..n).map(|_| ExRef::default()).collect();
    for i in 0..n {
        let (slot, spec, x, sim2, k, pace) = (slot.clone(), specs[i].clone(), xs[i].clone(), sim.clone(), kinds[i], *r.pick(&[0, 0, 40]));
        let (d, d2) = (*r.pick(&[0usize, 0, 3, 20, 100]), *r.pick(&[0usize, 1, 5, 30, 200]));
        let use_try = r.pct(30);
        let kill = Kill::default();
        if k == AKind::DropFut {
            let (kill, sim3, calls, st, wait) = (kill.clone(), sim.clone(), svc.calls.clone(), st.clone(), r.pct(60));
            ex.spawn("killer", async move {
                if wait {
                    loop {
                        let c = calls.get();
                        if !seen_of(&st.lock().unwrap(), i).is_empty() {
                            break;
                        }
                        calls.at_least(c + 1).await;
                    }
                }
                sim3.yields(d2).await;
                sim3.log(|| format!("caller {i} drops its response future"));
                kill.kill();
            });
        }
        ex.spawn("x", async move {
            let Some(mut tx) = slot.get().await else { return };
            sim2.yields(d).await;
            let rd = match k {
                AKind::DropBody(m) => CRead::Partial(m),
                _ => CRead::All,
            };
            if kill.guard(exchange2(&sim2, &mut tx, &spec, &x, rd, pace, use_try)).await.is_none() {
                x.lock().unwrap().dropped = true;
            }
        });
    }
    match at_rest(ex.run()) {
        End::StepLimit => {
            out.inconclusive = Some("too many steps".into());
            return;
        }
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        _ => {}
    }
    let (c1, c2) = (send.lock().unwrap().clone(), cend.lock().unwrap().clone());
    if c1.done || c2.done {
        out.viol(format!("a connection ended over stream errors {kinds:?}: server {:?} {} client {:?} {}", c1.done, c1.err, c2.done, c2.err));
        return;
    }
    let seen = st.lock().unwrap();
    let (mut fine, mut hurt) = (0, 0);
    for i in 0..n {
        let k = kinds[i];
        let what = format!("exchange {i} ({k:?})");
        let mine = seen_of(&seen, i);
        let x = xs[i].lock().unwrap();
        let log = x.body_log.as_ref().map(|l| l.lock().unwrap().clone()).unwrap_or_default();
        if mine.len() != 1 && !(k == AKind::DropFut && mine.is_empty()) && !(matches!(k, AKind::ReqErr(_)) && mine.is_empty()) {
            out.viol(format!("{what}: {} service calls", mine.len()));
            continue;
        }
        let s = mine.first();
        let g = x.got.lock().unwrap();
        let resp = &plans[i].resp;
        match k {
            AKind::Fine => {
                fine += 1;
                let s = s.unwrap();
                judge_head(i, &specs[i], s, out);
                judge_body(&format!("request {i}"), &specs[i].script, &s.got.lock().unwrap(), out);
                if let Some(e) = &x.err {
                    out.viol(format!("{what} failed: {}", e.dbg));
                    continue;
                }
                judge_resp_head(i, resp, scfg.date, &x, out);
                judge_body(&format!("response {i}"), &resp.script, &g, out);
            }
            AKind::SvcErr(c) => {
                hurt += 1;
                if x.err.as_ref().and_then(|e| e.reason) != Some(c.unwrap_or(2)) {
                    out.viol(format!("{what}: caller got status {:?} error {:?}", x.status, x.err.as_ref().map(|e| (&e.dbg, e.reason))));
                }
            }
            AKind::RespErr(c) => {
                hurt += 1;
                let want = Some(c.unwrap_or(2));
                let before = x.err.as_ref().map(|e| e.reason == want).unwrap_or(false);
                if !before && (g.done || g.reason != want) {
                    out.viol(format!("{what}: caller got status {:?} error {:?}; body done {} error {:?} reason {:?}", x.status, x.err.as_ref().map(|e| (&e.dbg, e.reason)), g.done, g.err, g.reason));
                }
                judge_prefix(&what, &resp.script, &g, out);
            }
            AKind::ReqErr(c) => {
                hurt += 1;
                if let Some(s) = s {
                    let sg = s.got.lock().unwrap();
                    if sg.done || (sg.err.is_none() && !s.fut_dropped) || (sg.reason.is_some() && sg.reason != Some(c.unwrap_or(2))) {
                        out.viol(format!("{what}: the service saw end {}, error {:?} reason {:?}, future dropped {}", sg.done, sg.err, sg.reason, s.fut_dropped));
                    }
                    judge_prefix(&what, &specs[i].script, &sg, out);
                }
                if x.resolved != 1 || (x.err.is_none() && g.err.is_none() && !g.done) {
                    out.viol(format!("{what}: caller resolved {} times, status {:?}, body done {}", x.resolved, x.status, g.done));
                }
                if x.submitted && !log.dropped {
                    out.viol(format!("{what}: the failed request body was not dropped"));
                }
            }
            AKind::DropFut => {
                hurt += 1;
                if let Some(s) = s {
                    if !s.fut_dropped {
                        out.viol(format!("{what}: the service was not cancelled"));
                    }
                }
                if x.submitted && !log.dropped {
                    out.viol(format!("{what}: the request body was not dropped"));
                }
            }
            AKind::DropBody(m) => {
                hurt += 1;
                let s = s.unwrap();
                if x.err.is_some() || (g.frames >= m && !dropped(s) && !g.done) {
                    out.viol(format!("{what}: caller error {:?}; response body dropped at the server: {}", x.err.as_ref().map(|e| &e.dbg), dropped(s)));
                }
                judge_prefix(&what, &resp.script, &g, out);
            }
        }
    }
    drop(seen);
    finish(ctx, sim, &wire, fine, hurt, out);
    if ctx.index < 6 {
        out.desc = Some(format!("hyper against hyper; exchanges {kinds:?}"));
    }
}
