//! C21: HTTP/2 CONNECT tunnels.
use crate::cli::*;
use crate::frames;
use crate::h2ex::*;
use crate::h2raw::*;
use crate::h2x::*;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::srv::*;
use crate::tun::*;
use crate::util::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub const CHECK: Check = Check {
    id: "C21",
    level: "exploration",
    rule: "a case is one HTTP/2 connection with 1-3 CONNECT or extended CONNECT requests, accepted with any 2xx or refused, next to ordinary exchanges, between hyper's client and server, or one tunnel against a frame-level peer that drips credit, half-closes, resets or cuts the transport; what each end read is compared with what the other wrote; distinct = distinct (wire bytes, schedule) with at least one tunnel judged",
    quick: 24_000,
    thorough: 800_000,
    run: case,
    assumptions: &["both ends of a tunnel read what they are sent, or drop it", "the h2 crate"],
};

type Tuns = Arc<Mutex<BTreeMap<(bool, usize), Tun>>>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fin {
    Shut,
    Drop,
    /// shut down, then dropped
    ShutDrop,
    Open,
}
impl Fin {
    fn drops(self) -> bool {
        matches!(self, Fin::Drop | Fin::ShutDrop)
    }
    fn shuts(self) -> bool {
        matches!(self, Fin::Shut | Fin::ShutDrop)
    }
}
#[derive(Clone, Debug)]
struct End1 {
    data: Vec<u8>,
    fin: Fin,
    /// (dropping) bytes read before
    want: usize,
    /// writes only after having read to the end
    after_eof: bool,
    rmax: usize,
    wmax: usize,
    wmin: usize,
    pace: u32,
    delay: usize,
}
fn gen_end(r: &mut Rng, other: usize) -> End1 {
    let n = *r.pick(&[0usize, 1, 30, 100, 5_000, 40_000]);
    let n = r.size(n);
    let data = r.body(n);
    let fin = *r.pick(&[Fin::Shut, Fin::Shut, Fin::Shut, Fin::Shut, Fin::Drop, Fin::ShutDrop, Fin::Open]);
    End1 {
        fin,
        want: if r.pct(60) { other } else { r.below(other + 1) },
        after_eof: false,
        rmax: *r.pick(&[10usize, 1000, 20_000]).max(&(other / 100 + 1)),
        wmax: *r.pick(&[30usize, 1000, 20_000]).max(&(data.len() / 40 + 1)),
        wmin: if data.len() > 2000 { 300 } else { data.len() / 8 + 1 },
        pace: *r.pick(&[0, 20, 50]),
        delay: *r.pick(&[0usize, 0, 10, 100]),
        data,
    }
}
/// Both directions of one end of a tunnel.
fn drive(sim: &Sim, sp: &Spawner, t: &Tun, e: &End1) {
    let mut t = t.clone();
    t.min_write = e.wmin;
    let (sim, e, sp2) = (sim.clone(), e.clone(), sp.clone());
    let read = Gate::default();
    {
        let (t, read, e) = (t.clone(), read.clone(), e.clone());
        sp.spawn("tunnel-read", async move {
            let want = if e.fin.drops() { e.want } else { usize::MAX };
            t.read_to(want, e.rmax, e.pace).await;
            read.open();
        });
    }
    sp.spawn("tunnel-write", async move {
        let _ = sp2;
        sim.yields(e.delay).await;
        if e.after_eof {
            read.wait().await;
        }
        t.clone().write_all(e.data.clone(), e.wmax, e.pace, e.fin.shuts()).await;
        t.log.lock().unwrap().finished = true;
        if e.fin.drops() {
            read.wait().await;
            t.drop_io();
        }
    });
}

fn case(ctx: &Ctx) -> CaseOut {
    let mut r = Rng::new(ctx.seed);
    match r.below(20) {
        0..=11 => pair(ctx, r),
        12..=15 => raw(ctx, r, true),
        _ => raw(ctx, r, false),
    }
}

/// What R read of what W wrote, neither end of the connection failing.
fn judge_dir(what: &str, client: bool, w: (&End1, &TunLog), r: (&End1, &TunLog), out: &mut CaseOut) {
    let (we, wl) = w;
    let (re, rl) = r;
    out.count("tunnel_bytes", rl.data.len() as u64);
    if !we.data.starts_with(&rl.data) {
        out.viol(format!("{what}: bytes read differ: {}", diff(&rl.data, &we.data)));
        return;
    }
    if re.fin.drops() {
        if rl.data.len() < re.want.min(we.data.len()) && !rl.eof {
            out.viol(format!("{what}: only {} of {} bytes were read, {} wanted: {:?}", rl.data.len(), we.data.len(), re.want, rl.read_err));
        }
        return;
    }
    // the reader stayed: everything arrives
    if !wl.write_done || wl.write_err.is_some() {
        out.viol(format!("{what}: {} of {} bytes were written: {:?}", wl.written, we.data.len(), wl.write_err));
    }
    if client && we.fin.drops() && !wl.eof && rl.eof && rl.data.len() < we.data.len() {
        // (a known finding)
        out.viol(format!("{what}: a client end dropped before the other direction had ended: bytes it had written are lost ({} of {} arrived)", rl.data.len(), we.data.len()));
    } else if rl.data.len() != we.data.len() {
        out.viol(format!("{what}: {} of {} bytes were read (written {}, end {}, error {:?})", rl.data.len(), we.data.len(), wl.written, rl.eof, rl.read_err));
    }
    match we.fin {
        Fin::Shut | Fin::ShutDrop if !wl.shut => out.viol(format!("{what}: shutdown did not complete: {:?}", wl.write_err)),
        Fin::Open if rl.eof || rl.read_err.is_some() => out.viol(format!("{what}: the reader saw the end ({:?}) of a direction still open", rl.read_err)),
        Fin::Shut | Fin::Drop | Fin::ShutDrop if !rl.eof => out.viol(format!("{what}: the writer is done ({:?}) but the reader saw no end: {:?}", we.fin, rl.read_err)),
        _ => {}
    }
    if we.fin == Fin::Shut {
        out.count("half_closes", 1);
    }
}

fn pair(ctx: &Ctx, mut r: Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let r = &mut r;
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut scfg = H2Cfg::gen(r);
    let mut ccfg = H2Cfg::gen(r);
    scfg.connect = true;
    let n = *r.pick(&[1usize, 1, 2, 3]);
    let m = *r.pick(&[0usize, 0, 1, 3]);
    let mut ends: Vec<(End1, End1)> = vec![];
    let mut accept = vec![];
    let mut specs = vec![];
    let mut plans = vec![];
    let mut ext = vec![];
    for i in 0..n {
        let mut c = gen_end(r, 0);
        let s = gen_end(r, c.data.len());
        let d = gen_end(r, s.data.len());
        c.want = d.want;
        c.rmax = d.rmax;
        let (mut c, mut s) = (c, s);
        // request and reply by half-close, either way round
        if r.pct(25) {
            let (x, y) = if r.pct(50) { (&mut c, &mut s) } else { (&mut s, &mut c) };
            x.fin = Fin::Shut;
            if y.fin.drops() {
                y.want = usize::MAX;
            }
            y.after_eof = true;
        }
        let acc = r.pct(85);
        let mut p = Plan::simple(RespSpec { status: if acc { *r.pick(&[200u16, 200, 200, 201, 204, 206, 299]) } else { *r.pick(&[403u16, 404, 500, 302, 407]) }, ..RespSpec::ok(if acc { b"" } else { b"refused" }) });
        p.delay = *r.pick(&[0, 0, 5, 30]);
        plans.push(p);
        let mut spec = ReqSpec::get("example.com:443");
        spec.method = "CONNECT".into();
        let e = r.pct(35);
        if e {
            spec.uri = abs("/chat");
        }
        spec.headers.push(("x-id".into(), i.to_string().into_bytes()));
        specs.push(spec);
        ext.push(e);
        ends.push((c, s));
        accept.push(acc);
    }
    for i in n..n + m {
        let s = gen_req2(r, i, 3000);
        let mut p = Plan::simple(gen_resp2(r, &s.method, 3000));
        p.delay = *r.pick(&[0, 0, 5, 30]);
        p.read = r.pick(&[ReadPlan::All, ReadPlan::Concurrent]).clone();
        specs.push(s);
        plans.push(p);
        ext.push(false);
    }
    coarsen(specs.iter_mut().map(|s| &mut s.script).collect(), &mut scfg);
    coarsen(plans.iter_mut().map(|p| &mut p.resp.script).collect(), &mut ccfg);
    let bytes: usize = ends.iter().map(|e| e.0.data.len() + e.1.data.len()).sum::<usize>() + m * 6000;
    tame2(r, &mut scfg, bytes);
    tame2(r, &mut ccfg, bytes);
    let (ioa, iob) = gen_io2(r, bytes + 2000);
    let (a, b, wire) = pipe(&sim, ioa, iob);
    wire.record_order();
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let svc = Svc::new(&ex, plans.clone()).by_id();
    let st = svc.st.clone();
    let send = serve_h2(&mut ex, &scfg, b, svc.clone(), Gate::default());
    let (slot, cend) = connect_h2(&mut ex, &ccfg, a);
    // (see C15; extended CONNECT needs the peer's settings too)
    if ex.run() != End::Quiescent {
        out.inconclusive = Some("handshake".into());
        return out;
    }
    let tuns: Tuns = Default::default();
    let up_errs: Arc<Mutex<BTreeMap<(bool, usize), String>>> = Default::default();
    let xs: Vec<ExRef> = (0..n + m).map(|_| ExRef::default()).collect();
    for i in 0..n + m {
        let (slot, spec, x, sim2) = (slot.clone(), specs[i].clone(), xs[i].clone(), sim.clone());
        let (d, e, tunnel) = (*r.pick(&[0usize, 0, 3, 20, 100]), ext[i], i < n);
        let tuns2 = tuns.clone();
        let (tuns, errs, sp) = (tuns.clone(), up_errs.clone(), ex.spawner());
        let end = ends.get(i).map(|e| e.0.clone());
        let late = *r.pick(&[0usize, 0, 30]);
        ex.spawn("caller", async move {
            let Some(mut tx) = slot.get().await else { return };
            sim2.yields(d).await;
            let fut = submit2_with(&sim2, &mut tx, &spec, &x, false, |q| {
                if e {
                    q.extensions_mut().insert(hyper::ext::Protocol::from_static("websocket"));
                }
            });
            drop(tx);
            finish2(&sim2, fut, &x, CRead::All, 0).await;
            if !tunnel {
                return;
            }
            let up = x.lock().unwrap().upgrade.take();
            sim2.yields(late).await;
            match up {
                Some(u) => match u.await {
                    Ok(u) => {
                        let t = Tun::new(&sim2, Box::new(u));
                        tuns.lock().unwrap().insert((true, i), t.clone());
                        drive(&sim2, &sp, &t, end.as_ref().unwrap());
                    }
                    Err(e) => {
                        errs.lock().unwrap().insert((true, i), format!("{e:?}"));
                    }
                },
                None => {
                    errs.lock().unwrap().insert((true, i), "no upgrade offered".into());
                }
            }
        });
        if !tunnel {
            continue;
        }
        let (st, calls, sim2) = (st.clone(), svc.calls.clone(), sim.clone());
        let (tuns, errs, sp) = (tuns2, up_errs.clone(), ex.spawner());
        let end = ends[i].1.clone();
        ex.spawn("acceptor", async move {
            let id = i.to_string();
            let up = loop {
                let c = calls.get();
                let up = {
                    let mut s = st.lock().unwrap();
                    s.seen.iter_mut().find(|s| s.headers.iter().any(|(k, v)| k == "x-id" && v == id.as_bytes())).and_then(|s| s.on_upgrade.take())
                };
                if let Some(u) = up {
                    break u;
                }
                calls.at_least(c + 1).await;
            };
            match up.await {
                Ok(u) => {
                    let t = Tun::new(&sim2, Box::new(u));
                    tuns.lock().unwrap().insert((false, i), t.clone());
                    drive(&sim2, &sp, &t, &end);
                }
                Err(e) => {
                    errs.lock().unwrap().insert((false, i), format!("{e:?}"));
                }
            }
        });
    }
    match at_rest(ex.run()) {
        End::StepLimit => {
            out.inconclusive = Some("too many steps".into());
            return out;
        }
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        _ => {}
    }
    for i in 0..n {
        let what = format!("tunnel {i} ({}status {})", if ext[i] { "extended, " } else { "" }, plans[i].resp.status);
        let x = xs[i].lock().unwrap();
        if x.status != Some(plans[i].resp.status) {
            out.viol(format!("{what}: the caller got status {:?}, error {:?}", x.status, x.err));
            continue;
        }
        if let Some(s) = st.lock().unwrap().seen.iter().find(|s| s.headers.iter().any(|(k, v)| k == "x-id" && v == i.to_string().as_bytes())) {
            let want = if ext[i] { Some("websocket".to_string()) } else { None };
            if s.method != "CONNECT" || s.protocol != want {
                out.viol(format!("{what}: the service saw {} with protocol {:?}", s.method, s.protocol));
            }
        }
        let e = up_errs.lock().unwrap();
        if !accept[i] {
            out.count("refused", 1);
            if !e.contains_key(&(true, i)) || !e.contains_key(&(false, i)) {
                out.viol(format!("{what}: refused, but a tunnel was opened or its end never told: {e:?}"));
            }
            let g = x.got.lock().unwrap();
            if !g.clean() || g.data != b"refused" {
                out.viol(format!("{what}: the body of the refusal: {:?}, error {:?}", show(&g.data), g.err));
            }
            continue;
        }
        let t = tuns.lock().unwrap();
        let (Some(c), Some(s)) = (t.get(&(true, i)), t.get(&(false, i))) else {
            out.viol(format!("{what}: accepted, but not opened at both ends: {e:?}"));
            continue;
        };
        out.nontrivial = true;
        out.count("tunnels", 1);
        let (cl, sl) = (c.log.lock().unwrap().clone(), s.log.lock().unwrap().clone());
        for o in cl.odd.iter().chain(&sl.odd) {
            out.viol(format!("{what}: {o}"));
        }
        judge_dir(&format!("{what}, client to server"), true, (&ends[i].0, &cl), (&ends[i].1, &sl), &mut out);
        judge_dir(&format!("{what}, server to client"), false, (&ends[i].1, &sl), (&ends[i].0, &cl), &mut out);
    }
    for i in n..n + m {
        let x = xs[i].lock().unwrap();
        let s = st.lock().unwrap();
        let Some(sn) = s.seen.iter().find(|s| s.headers.iter().any(|(k, v)| k == "x-id" && v == i.to_string().as_bytes())) else {
            out.viol(format!("request {i} next to the tunnels was not served: {:?}", x.err));
            continue;
        };
        judge_body(&format!("request {i} next to the tunnels"), &specs[i].script, &sn.got.lock().unwrap(), &mut out);
        if let Some(e) = &x.err {
            out.viol(format!("request {i} next to the tunnels failed: {}", e.dbg));
        } else {
            judge_body(&format!("response {i} next to the tunnels"), &plans[i].resp.script, &x.got.lock().unwrap(), &mut out);
        }
    }
    // everything goes away
    let gone: Vec<Tun> = tuns.lock().unwrap().values().cloned().collect();
    for t in gone {
        t.drop_io();
    }
    slot.clear();
    let _ = ex.run();
    for t in ["h2c", "h2s", "client", "server"] {
        if ex.is_pending(t) {
            out.viol(format!("a task ({t}) is left after all tunnels and senders were dropped"));
        }
    }
    let (s, c) = (send.lock().unwrap(), cend.lock().unwrap());
    if s.done && !(s.ok || peer_gone(&s)) || c.done && !c.ok {
        out.viol(format!("the connections ended with server {:?} client {:?}", s.err, c.err));
    }
    let order = wire.order.lock().unwrap().clone().unwrap_or_default();
    let (sa, sb) = (wire.sent_by_a(), wire.sent_by_b());
    for p in &frames::audit(&order, &sa, &sb, true).problems {
        out.viol(p.clone());
    }
    out.sig = mix(sim.st(|s| s.hash), fnv(&sa) ^ fnv(&sb));
    let f = |e: &End1| format!("{}B {:?} want {} after_eof {} w{}..{} r{}", e.data.len(), e.fin, e.want, e.after_eof, e.wmin, e.wmax, e.rmax);
    out.desc = Some(format!("pair, {m} others, tunnels {:?}", ends.iter().map(|e| (f(&e.0), f(&e.1))).collect::<Vec<_>>()));
    if ctx.trace {
        out.trace = sim.take_log();
        out.trace.extend(frames::dump(&order, &sa, &sb, true));
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Last {
    Eos,
    EosRst(u32),
    Rst(u32),
    Eof,
    Cut,
    GoawayEof,
    Stay,
}
/// One tunnel between hyper and a frame-level peer. `server`: hyper is the server.
fn raw(ctx: &Ctx, mut r: Rng, server: bool) -> CaseOut {
    let mut out = CaseOut::default();
    let r = &mut r;
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = H2Cfg::gen(r);
    cfg.connect = true;
    cfg.stream_win = *r.pick(&[None, Some(65_535), Some(1 << 20)]);
    cfg.conn_win = None;
    let total = *r.pick(&[0usize, 1, 100, 5_000, 50_000]);
    let k = r.size(total);
    let theirs = r.body(k);
    let mut me = gen_end(r, theirs.len());
    if me.fin.drops() {
        me.want = usize::MAX;
    }
    let last = match r.below(12) {
        0..=3 => Last::Eos,
        4 => Last::EosRst(*r.pick(&[0u32, 8, 2])),
        5 | 6 => Last::Rst(*r.pick(&[0u32, 8, 1, 2, 5, 7, 11, 13, 99])),
        7 => Last::Eof,
        8 => Last::Cut,
        9 => Last::GoawayEof,
        _ => Last::Stay,
    };
    // credit: initial window, piece, and when it stops
    let win = *r.pick(&[0u32, 1, 50, 3_000, 65_535]);
    let piece = *r.pick(&[1u32, 10, 500, 10_000, 1 << 20]).max(&(me.data.len() as u32 / 60 + 1));
    let stall = if r.pct(25) { Some(r.below(me.data.len() + 1)) } else { None };
    let bytes = theirs.len() + me.data.len();
    tame2(r, &mut cfg, bytes);
    let (ioa, iob) = gen_io2(r, bytes + 2000);
    let (a, b, wire) = pipe(&sim, ioa, iob);
    wire.record_order();
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let ext = r.pct(30);
    let status = *r.pick(&[200u16, 200, 201, 204]);
    let tun: Arc<Mutex<Option<Tun>>> = Default::default();
    let sp = ex.spawner();
    let raw;
    let end;
    let slot;
    let mut svc_keep = None;
    if server {
        let svc = Svc::new(&ex, vec![Plan::simple(RespSpec { status, ..RespSpec::ok(b"") })]);
        end = serve_h2(&mut ex, &cfg, b, svc.clone(), Gate::default());
        slot = Slot::default();
        raw = Raw::spawn(&mut ex, a, true);
        raw.put(&[frames::PREFACE, &frames::settings(&[(1, 0), (4, win)]), &frames::wupd(0, 1 << 20)].concat());
        let mut h: Vec<(&str, &[u8])> = vec![(":method", b"CONNECT"), (":authority", b"example.com:80")];
        if ext {
            h.extend_from_slice(&[(":protocol", b"websocket"), (":scheme", b"http"), (":path", b"/")]);
        }
        raw.put(&frames::headers(1, false, &h));
        let (st, calls, sim2, tun, me) = (svc.st.clone(), svc.calls.clone(), sim.clone(), tun.clone(), me.clone());
        ex.spawn("acceptor", async move {
            calls.at_least(1).await;
            let up = st.lock().unwrap().seen[0].on_upgrade.take().unwrap();
            if let Ok(u) = up.await {
                let t = Tun::new(&sim2, Box::new(u));
                *tun.lock().unwrap() = Some(t.clone());
                drive(&sim2, &sp, &t, &me);
            }
        });
        svc_keep = Some(svc);
    } else {
        let (s, e) = connect_h2(&mut ex, &cfg, a);
        slot = s;
        end = e;
        raw = Raw::spawn(&mut ex, b, false);
        raw.put(&[frames::settings(&[(1, 0), (4, win), (8, 1)]), frames::wupd(0, 1 << 20)].concat());
        let (slot2, sim2, tun, me, raw2) = (slot.clone(), sim.clone(), tun.clone(), me.clone(), raw.clone());
        ex.spawn("caller", async move {
            let Some(mut tx) = slot2.get().await else { return };
            raw2.wait(|s| s.frames.iter().any(|(f, _)| f.kind == frames::SETTINGS && f.ack())).await;
            let mut spec = ReqSpec::get(&if ext { abs("/") } else { "example.com:80".into() });
            spec.method = "CONNECT".into();
            let x = ExRef::default();
            let fut = submit2_with(&sim2, &mut tx, &spec, &x, false, |q| {
                if ext {
                    q.extensions_mut().insert(hyper::ext::Protocol::from_static("websocket"));
                }
            });
            drop(tx);
            finish2(&sim2, fut, &x, CRead::All, 0).await;
            let up = x.lock().unwrap().upgrade.take();
            if let Some(Ok(u)) = match up {
                Some(u) => Some(u.await),
                None => None,
            } {
                let t = Tun::new(&sim2, Box::new(u));
                *tun.lock().unwrap() = Some(t.clone());
                drive(&sim2, &sp, &t, &me);
            }
        });
    }
    let done = Gate::default();
    let early = r.pct(20);
    let wire2 = wire.clone();
    {
        let (raw, sim, theirs, done) = (raw.clone(), sim.clone(), theirs.clone(), done.clone());
        let chunk = r.range(1, 9000).max(theirs.len() / 60 + 1).max(if theirs.len() > 2000 { 300 } else { 1 });
        let pace = *r.pick(&[0usize, 0, 5, 40]);
        let gap = *r.pick(&[0usize, 20, 300]);
        // DATA frames without a byte, which mean nothing
        let n = theirs.len().div_ceil(chunk);
        let empties: Vec<usize> = if r.pct(40) { (0..r.range(1, 4)).map(|_| r.below(n + 1)).collect() } else { vec![] };
        ex.spawn("peer", async move {
            if server {
                if !early {
                    raw.wait(|s| s.has(1, frames::HEADERS)).await;
                }
            } else {
                raw.wait(|s| s.has(1, frames::HEADERS)).await;
                raw.put(&response(1, false, &status.to_string(), &[]));
            }
            for i in 0..=n {
                for _ in empties.iter().filter(|k| **k == i) {
                    raw.put(&frames::data(1, false, b""));
                    sim.yields(pace).await;
                }
                if let Some(c) = theirs.chunks(chunk).nth(i) {
                    sim.yields(pace).await;
                    raw.put(&frames::data(1, false, c));
                }
            }
            sim.yields(gap).await;
            match last {
                Last::Eos => raw.put(&frames::data(1, true, b"")),
                Last::EosRst(c) => {
                    raw.put(&frames::data(1, true, b""));
                    sim.yields(gap).await;
                    raw.put(&frames::rst(1, c));
                }
                Last::Rst(c) => raw.put(&frames::rst(1, c)),
                Last::Eof => raw.close(),
                Last::Cut => wire2.reset_all(),
                Last::GoawayEof => {
                    raw.put(&frames::goaway(if server { 0 } else { 1 }, 0));
                    raw.close();
                }
                Last::Stay => {}
            }
            done.open();
        });
    }
    {
        // credit for what arrived, in pieces
        let (raw, sim) = (raw.clone(), sim.clone());
        let pace = *r.pick(&[0usize, 0, 3]);
        let lim = stall.unwrap_or(usize::MAX);
        let ahead = *r.pick(&[0usize, 0, 1, 100, 20_000]);
        ex.spawn("credit", async move {
            if !raw.wait(|s| s.has(1, frames::HEADERS)).await {
                return;
            }
            let mut given = win as usize;
            while given < lim {
                // never far ahead of what has arrived
                let from = given.saturating_sub(ahead);
                if !raw.wait(|s| s.data(1).len() >= from || s.eos(1) || s.rst(1).is_some()).await {
                    return;
                }
                {
                    let s = raw.st.lock().unwrap();
                    if s.eos(1) || s.rst(1).is_some() {
                        return;
                    }
                }
                sim.yields(pace).await;
                let p = (piece as usize).min(lim - given);
                raw.put(&[frames::wupd(1, p as u32), frames::wupd(0, p as u32)].concat());
                given += p;
            }
        });
    }
    match at_rest(ex.run()) {
        End::StepLimit => {
            out.inconclusive = Some("too many steps".into());
            return out;
        }
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        _ => {}
    }
    let desc = format!(
        "raw, hyper {}, ext {ext}, status {status}, theirs {}B then {last:?}, mine {}B {:?} after_eof {}, window {win}, pieces of {piece}, credit stops at {stall:?}",
        if server { "server" } else { "client" },
        theirs.len(),
        me.data.len(),
        me.fin,
        me.after_eof
    );
    drop(svc_keep);
    let rs = raw.st.lock().unwrap();
    let t = tun.lock().unwrap().clone();
    // a peer that resets or goes away early may win against the answer
    let broken = matches!(last, Last::Rst(_) | Last::Eof | Last::Cut | Last::GoawayEof);
    match t {
        None => {
            if !((broken || matches!(last, Last::EosRst(_))) && done.is_open()) {
                out.viol(format!("the tunnel was not opened; connection {:?}", end.lock().unwrap().err));
            }
        }
        Some(t) => {
            let l = t.log.lock().unwrap().clone();
            out.nontrivial = true;
            out.count("tunnels", 1);
            out.count("tunnel_bytes", (l.data.len() + rs.data(1).len()) as u64);
            for o in &l.odd {
                out.viol(o.clone());
            }
            // towards hyper
            if !theirs.starts_with(&l.data) {
                out.viol(format!("bytes read differ: {}", diff(&l.data, &theirs)));
            }
            let whole = l.data.len() == theirs.len();
            match last {
                Last::Eos | Last::EosRst(_) => {
                    if !whole || !l.eof {
                        out.viol(format!("read {} of {} bytes of a finished direction, end {}, error {:?}", l.data.len(), theirs.len(), l.eof, l.read_err));
                    }
                }
                Last::Rst(0) | Last::Rst(8) => {
                    if !l.eof && l.read_err.is_none() {
                        out.viol("the stream was reset but the reader was not told");
                    }
                }
                Last::Rst(c) => {
                    out.count("resets", 1);
                    if l.eof || l.read_err.is_none() {
                        out.viol(format!("the stream was reset with {c}: the reader saw end {}, error {:?}", l.eof, l.read_err));
                    }
                }
                Last::Eof | Last::Cut | Last::GoawayEof => {
                    out.count("transport_cuts", 1);
                    if l.eof || l.read_err.is_none() {
                        out.viol(format!("the transport went away ({last:?}): the reader saw end {}, error {:?}", l.eof, l.read_err));
                    }
                }
                Last::Stay => {
                    if !whole || l.eof || l.read_err.is_some() {
                        out.viol(format!("read {} of {} bytes of an open direction, end {}, error {:?}", l.data.len(), theirs.len(), l.eof, l.read_err));
                    }
                }
            }
            // from hyper
            let got = rs.data(1);
            if !me.data.starts_with(&got) {
                out.viol(format!("bytes received by the peer differ: {}", diff(&got, &me.data)));
            }
            let reset = broken || matches!(last, Last::EosRst(_));
            if reset {
                // nothing may be left waiting
                if ex.is_pending("tunnel-write") || ex.is_pending("tunnel-read") {
                    out.viol("an end of a broken tunnel is left waiting");
                }
            } else if let Some(s) = stall.filter(|s| (*s).max(win as usize) < me.data.len()) {
                out.count("stalled", 1);
                if got.len() > s.max(win as usize) {
                    out.viol(format!("the peer received {} bytes with credit for {}", got.len(), s.max(win as usize)));
                }
                if rs.eos(1) {
                    out.viol("the end was sent before the data");
                }
            } else {
                let fin = me.fin.shuts() || me.fin == Fin::Drop && l.dropped;
                if got.len() != me.data.len() || rs.eos(1) != fin {
                    out.viol(format!("the peer received {} of {} bytes, end {}; write error {:?}", got.len(), me.data.len(), rs.eos(1), l.write_err));
                }
                if l.write_err.is_some() || me.fin.shuts() && !l.shut {
                    out.viol(format!("writing failed ({:?}) or did not shut down", l.write_err));
                }
            }
        }
    }
    let order = wire.order.lock().unwrap().clone().unwrap_or_default();
    let (sa, sb) = (wire.sent_by_a(), wire.sent_by_b());
    out.sig = mix(sim.st(|s| s.hash), fnv(&sa) ^ fnv(&sb));
    out.desc = Some(desc);
    drop(rs);
    drop(slot);
    if ctx.trace {
        out.trace = sim.take_log();
        out.trace.extend(frames::dump(&order, &sa, &sb, true));
    }
    out
}
