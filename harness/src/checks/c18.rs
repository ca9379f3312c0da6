//! C18: HTTP/2 graceful shutdown: accepted streams finish, later ones are refused, the connection ends well.
use crate::body::*;
use crate::cli::*;
use crate::frames;
use crate::h2ex::*;
use crate::h2raw::*;
use crate::h2x::*;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::srv::*;
use crate::util::*;
use std::sync::{Arc, Mutex};

pub const CHECK: Check = Check {
    id: "C18",
    level: "fault_enumeration",
    rule: "a case is one HTTP/2 workload of 1-8 streams run once to count its steps and again with the shutdown placed at a uniformly drawn step: graceful_shutdown on a server (against a frame-level client that keeps opening streams, or against a hyper client), the last sender of a client dropped, or a GOAWAY from a frame-level server; distinct = distinct (wire bytes, schedule, step) in which the shutdown was asked for before the workload had ended",
    quick: 16_000,
    thorough: 500_000,
    run: case,
    assumptions: &["the peer answers pings and reads what it is sent"],
};

const LAST: u32 = 0x7fff_ffff;

fn case(ctx: &Ctx) -> CaseOut {
    let mode = Rng::new(mix(ctx.seed, 18)).below(8);
    let go = |cut: Option<u64>, trace: bool, out: &mut CaseOut| -> u64 {
        let mut r = Rng::new(ctx.seed);
        let sim = Sim::new(r.next());
        if trace {
            sim.enable_log();
        }
        let n = match mode {
            0..=2 => server_raw(ctx, &mut r, &sim, cut, out),
            3 | 4 => pair(ctx, &mut r, &sim, cut, out, true),
            5 => pair(ctx, &mut r, &sim, cut, out, false),
            _ => client_raw(ctx, &mut r, &sim, cut, out),
        };
        if trace {
            let mut t = sim.take_log();
            t.append(&mut out.trace);
            out.trace = t;
        }
        n
    };
    let mut dry = CaseOut::default();
    let steps = go(None, false, &mut dry);
    let at = Rng::new(mix(ctx.seed, 19)).below(steps as usize + 2) as u64;
    let mut out = CaseOut::default();
    go(Some(at), ctx.trace, &mut out);
    out.sig = mix(out.sig, at);
    if let Some(d) = &mut out.desc {
        *d = format!("shutdown after step {at} of {steps}: {d}");
    }
    out
}
/// Runs up to the step, opens the gate, runs to rest.
fn run_cut(ex: &mut Exec, cut: Option<u64>, gate: &Gate, out: &mut CaseOut) -> bool {
    match cut {
        None => {
            let _ = ex.run();
            return false;
        }
        Some(at) => {
            let all = ex.max_steps;
            ex.max_steps = at;
            let _ = ex.run();
            gate.open();
            ex.max_steps = all * 2;
        }
    }
    settle(ex, out)
}
fn settle(ex: &mut Exec, out: &mut CaseOut) -> bool {
    match at_rest(ex.run()) {
        End::StepLimit => {
            out.inconclusive = Some("too many steps".into());
            false
        }
        End::Spin(t) => {
            out.viol(format!("task {t} spins without progress"));
            false
        }
        _ => true,
    }
}
fn seen_of<'a>(st: &'a SvcState, i: usize) -> Vec<&'a Seen> {
    let id = i.to_string();
    st.seen.iter().filter(|s| s.headers.iter().any(|(k, v)| k == "x-id" && v == id.as_bytes())).collect()
}
fn finish(ctx: &Ctx, sim: &Sim, wire: &Wire, desc: String, out: &mut CaseOut) {
    let order = wire.order.lock().unwrap().clone().unwrap_or_default();
    let (sa, sb) = (wire.sent_by_a(), wire.sent_by_b());
    for p in &frames::audit(&order, &sa, &sb, true).problems {
        out.viol(p.clone());
    }
    out.sig = mix(sim.st(|s| s.hash), fnv(&sa) ^ fnv(&sb));
    out.desc = Some(desc);
    if ctx.trace {
        out.trace.extend(frames::dump(&order, &sa, &sb, true));
    }
}

/// hyper server, raw client that keeps opening streams
fn server_raw(ctx: &Ctx, r: &mut Rng, sim: &Sim, cut: Option<u64>, out: &mut CaseOut) -> u64 {
    let n = r.range(1, 8);
    let mut cfg = H2Cfg::gen(r);
    cfg.table = None;
    cfg.stream_win = *r.pick(&[None, Some(65_535), Some(1 << 20)]);
    cfg.conn_win = None;
    let maxb = *r.pick(&[50usize, 3000, 20_000]);
    let stop = r.pct(40);
    let hold = Gate::default();
    let held: Vec<bool> = (0..n).map(|_| r.pct(12)).collect();
    let (mut plans, mut bodies) = (vec![], vec![]);
    for i in 0..n {
        let nb = r.size(maxb);
        let mut p = Plan::simple(RespSpec { script: gen_body(r, nb), ..RespSpec::ok(b"") });
        p.delay = *r.pick(&[0, 0, 2, 10, 40]);
        p.pace = *r.pick(&[0, 30]);
        p.sleep_ns = *r.pick(&[0, 0, 0, 3_000_000]);
        p.read = r.pick(&[ReadPlan::All, ReadPlan::All, ReadPlan::Concurrent, ReadPlan::AfterRespond]).clone();
        if held[i] {
            p.gate = Some(Gates(hold.clone()));
        }
        plans.push(p);
        let nb = r.size(maxb);
        bodies.push(r.body(nb));
    }
    coarsen(plans.iter_mut().map(|p| &mut p.resp.script).collect(), &mut H2Cfg::plain());
    let bytes = n * maxb * 2;
    tame2(r, &mut cfg, bytes);
    let (ioa, iob) = gen_io2(r, bytes);
    let (a, b, wire) = pipe(sim, ioa, iob);
    wire.record_order();
    let mut ex = Exec::new(sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let svc = Svc::new(&ex, plans.clone()).by_id();
    let st = svc.st.clone();
    let gate = Gate::default();
    let end = serve_h2(&mut ex, &cfg, b, svc.clone(), gate.clone());
    let raw = Raw::spawn(&mut ex, a, true);
    raw.st.lock().unwrap().ack_settings = false;
    let late_preface = *r.pick(&[0usize, 0, 10, 60]);
    // (stream, was the final GOAWAY already read when it was opened, completely sent)
    let opened: Arc<Mutex<Vec<(u32, bool, bool)>>> = Default::default();
    let par: Vec<(usize, usize, usize, bool)> = (0..n).map(|_| (*r.pick(&[0usize, 0, 5, 30, 100]), *r.pick(&[0usize, 0, 2, 15]), r.range(300, 9000), r.pct(40))).collect();
    {
        let (raw, sim, opened, sp, bodies) = (raw.clone(), sim.clone(), opened.clone(), ex.spawner(), bodies.clone());
        ex.spawn("streams", async move {
            raw.st.lock().unwrap().ack_settings = false;
            sim.yields(late_preface).await;
            raw.put(&[frames::PREFACE, &frames::settings(&[(1, 0), (4, 1 << 20)]), &frames::wupd(0, 1 << 24)].concat());
            {
                let mut s = raw.st.lock().unwrap();
                s.ack_settings = true;
                if s.has(0, frames::SETTINGS) {
                    raw.put(&frames::settings_ack());
                }
            }
            for i in 0..n {
                let (gap, delay, chunk, serial) = par[i];
                sim.yields(gap).await;
                if serial && i > 0 {
                    let prev = 1 + 2 * (i as u32 - 1);
                    let o = raw.st.lock().unwrap().goaways().iter().any(|g| g.0 < prev);
                    if !o {
                        raw.wait(|s| s.eos(prev) || s.rst(prev).is_some() || s.goaways().iter().any(|g| g.0 < prev)).await;
                    }
                }
                let sid = 1 + 2 * i as u32;
                let (any, fin) = {
                    let s = raw.st.lock().unwrap();
                    if s.eof || s.err.is_some() {
                        return;
                    }
                    let g = s.goaways();
                    (!g.is_empty(), g.iter().any(|g| g.0 != LAST))
                };
                if any && stop {
                    return;
                }
                let at = {
                    let mut o = opened.lock().unwrap();
                    o.push((sid, fin, false));
                    o.len() - 1
                };
                let body = bodies[i].clone();
                raw.put(&request(sid, body.is_empty(), "POST", "/", &[("x-id", i.to_string().as_bytes())]));
                let (raw, sim, opened) = (raw.clone(), sim.clone(), opened.clone());
                sp.spawn("stream", async move {
                    let mut off = 0;
                    while off < body.len() {
                        sim.yields(delay).await;
                        let m = chunk.min(body.len() - off);
                        raw.put(&frames::data(sid, off + m == body.len(), &body[off..off + m]));
                        off += m;
                    }
                    opened.lock().unwrap()[at].2 = true;
                });
            }
        });
    }
    if !run_cut(&mut ex, cut, &gate, out) {
        return ex.steps;
    }
    // held services: the connection must wait for them
    {
        let s = st.lock().unwrap();
        let waiting = s.seen.iter().any(|s| !s.responded && !s.fut_dropped);
        if waiting {
            out.count("ended_late_streams", 1);
            if end.lock().unwrap().done {
                out.viol(format!("the connection ended ({:?}) while an accepted stream was still being served", end.lock().unwrap().err));
            }
        }
    }
    hold.open();
    if !settle(&mut ex, out) {
        return ex.steps;
    }
    let (rs, seen, c) = (raw.st.lock().unwrap(), st.lock().unwrap(), end.lock().unwrap().clone());
    let g = rs.goaways();
    let asked = c.asked.is_some();
    out.nontrivial = asked;
    out.count("shutdowns_asked", asked as u64);
    if !asked {
        if !c.done {
            out.viol("the connection never noticed the request to shut down");
        }
    } else {
        if !c.done || !c.ok {
            out.viol(format!("the connection did not end well after graceful shutdown: done {} {}; goaways {g:?}", c.done, c.err));
        }
        if !rs.eof {
            out.viol("the transport was not shut down");
        }
        if g.is_empty() {
            out.viol("shutdown was not announced to the peer");
        }
        if let Some(x) = g.iter().find(|g| g.1 != 0) {
            out.viol(format!("shutdown was announced with error code {}", x.1));
        }
        let fin = g.iter().map(|g| g.0).min().unwrap_or(LAST);
        out.count("two_step_announcements", (g.len() > 1) as u64);
        for (sid, after, sent) in opened.lock().unwrap().iter() {
            let i = (*sid as usize - 1) / 2;
            let mine = seen_of(&seen, i);
            let what = format!("stream {sid} (opened after the final announcement: {after})");
            if mine.len() > 1 {
                out.viol(format!("{what}: {} service calls", mine.len()));
            }
            if *after && !mine.is_empty() {
                out.viol(format!("{what}: was served"));
            }
            if *sid > fin {
                out.count("refused_streams", 1);
                if !mine.is_empty() {
                    out.viol(format!("{what}: was served although the last announced stream is {fin}"));
                }
                continue;
            }
            if *after {
                out.viol(format!("{what}: the final announcement {fin} covers a stream opened after it"));
            }
            if !*sent {
                out.viol(format!("{what}: harness did not finish the request"));
            }
            out.count("accepted_streams", 1);
            let Some(s) = mine.first() else {
                // a stream covered by the announcement was accepted
                if rs.rst(*sid).is_none() {
                    out.viol(format!("{what}: covered by the final announcement {fin} but never served"));
                }
                continue;
            };
            let got = s.got.lock().unwrap();
            if !got.clean() || got.data != bodies[i] {
                out.viol(format!("{what}: request body {} of {} bytes, end {}, error {:?}, service dropped {}", got.data.len(), bodies[i].len(), got.done, got.err, s.fut_dropped));
            }
            let script = &plans[i].resp.script;
            if rs.status(*sid) != Some(200) || rs.data(*sid) != script.data() || !rs.eos(*sid) || rs.rst(*sid).is_some() {
                out.viol(format!("{what}: response status {:?}, {} of {} bytes, ended {}, reset {:?}", rs.status(*sid), rs.data(*sid).len(), script.len(), rs.eos(*sid), rs.rst(*sid)));
            }
        }
    }
    drop((rs, seen));
    finish(ctx, sim, &wire, format!("server, raw client, {n} streams, maxb {maxb}"), out);
    ex.steps
}

/// hyper client and server: the server shuts down (`server`), or the client's senders go away
fn pair(ctx: &Ctx, r: &mut Rng, sim: &Sim, cut: Option<u64>, out: &mut CaseOut, server: bool) -> u64 {
    let n = r.range(1, 8);
    let mut scfg = H2Cfg::gen(r);
    let mut ccfg = H2Cfg::gen(r);
    // (see C15: small windows want requests after the handshake)
    scfg.stream_win = *r.pick(&[None, Some(65_535), Some(1 << 20)]);
    let maxb = *r.pick(&[50usize, 3000, 20_000]);
    let (mut specs, mut plans) = (vec![], vec![]);
    for i in 0..n {
        let s = gen_req2(r, i, maxb);
        let mut p = Plan::simple(gen_resp2(r, &s.method, maxb));
        p.delay = *r.pick(&[0, 0, 3, 20]);
        p.pace = *r.pick(&[0, 40]);
        p.sleep_ns = *r.pick(&[0, 0, 0, 3_000_000]);
        p.read = r.pick(&[ReadPlan::All, ReadPlan::Concurrent]).clone();
        specs.push(s);
        plans.push(p);
    }
    coarsen(specs.iter_mut().map(|s| &mut s.script).collect(), &mut scfg);
    coarsen(plans.iter_mut().map(|p| &mut p.resp.script).collect(), &mut ccfg);
    let bytes = n * maxb * 2;
    tame2(r, &mut scfg, bytes);
    tame2(r, &mut ccfg, bytes);
    let (ioa, iob) = gen_io2(r, bytes + n * 400);
    let (a, b, wire) = pipe(sim, ioa, iob);
    wire.record_order();
    let mut ex = Exec::new(sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let svc = Svc::new(&ex, plans.clone()).by_id();
    let st = svc.st.clone();
    let gate = Gate::default();
    let send = serve_h2(&mut ex, &scfg, b, svc.clone(), if server { gate.clone() } else { Gate::default() });
    let (slot, cend) = connect_h2(&mut ex, &ccfg, a);
    let xs: Vec<ExRef> = (0..n).map(|_| ExRef::default()).collect();
    let settled = ex.spawner();
    for i in 0..n {
        let (slot, spec, x, sim2, pace) = (slot.clone(), specs[i].clone(), xs[i].clone(), sim.clone(), *r.pick(&[0, 0, 40]));
        let d = *r.pick(&[0usize, 0, 3, 20, 100]);
        let use_try = r.pct(30);
        ex.spawn("caller", async move {
            let Some(mut tx) = slot.get().await else { return };
            sim2.yields(d).await;
            let fut = submit2(&sim2, &mut tx, &spec, &x, use_try);
            drop(tx);
            finish2(&sim2, fut, &x, CRead::All, pace).await;
        });
    }
    drop(settled);
    if !server {
        // the last sender goes once the callers have theirs
        let (slot, gate) = (slot.clone(), gate.clone());
        ex.spawn("owner", async move {
            gate.wait().await;
            slot.1.wait().await;
            slot.clear();
        });
    }
    if !run_cut(&mut ex, cut, &gate, out) {
        return ex.steps;
    }
    let seen = st.lock().unwrap();
    let (s, c) = (send.lock().unwrap().clone(), cend.lock().unwrap().clone());
    out.nontrivial = true;
    // (a client that is done may close before the last bytes for it are written)
    if !s.done || !(s.ok || peer_gone(&s)) {
        out.viol(format!("the server connection did not end well: done {} {}", s.done, s.err));
    }
    if !c.done || !c.ok {
        out.viol(format!("the client connection did not end well: done {} {}", c.done, c.err));
    }
    if ex.is_pending("h2c") {
        out.viol("a task of the client connection is still there");
    }
    // one side closed for good while the other still had something (an acknowledgement, a window
    // update) to write: what was under way to the writer is lost with the transport
    let raced = wire.a.lock().unwrap().broken_pipe + wire.b.lock().unwrap().broken_pipe > 0;
    out.count("close_races", raced as u64);
    for i in 0..n {
        let x = xs[i].lock().unwrap();
        let mine = seen_of(&seen, i);
        let whole = |g: &GotRef| g.lock().unwrap().clean();
        if raced && x.resolved == 1 && (x.err.is_some() || !whole(&x.got) || !mine.first().map(|s| whole(&s.got)).unwrap_or(false)) {
            out.count("lost_in_close_races", 1);
            continue;
        }
        if !x.submitted {
            if server {
                out.viol(format!("request {i} was never submitted"));
            }
            continue;
        }
        if x.resolved != 1 {
            out.viol(format!("request {i}: resolved {} times", x.resolved));
            continue;
        }
        if let Some(e) = &x.err {
            out.count("refused_streams", 1);
            if !server {
                out.viol(format!("request {i} failed although only the senders were dropped: {}", e.dbg));
            } else if !mine.is_empty() {
                out.viol(format!("request {i} was accepted and served but failed at the caller: {}", e.dbg));
            }
            continue;
        }
        out.count("accepted_streams", 1);
        let Some(sn) = mine.first() else {
            out.viol(format!("request {i} was answered without a service call"));
            continue;
        };
        judge_body(&format!("request {i}"), &specs[i].script, &sn.got.lock().unwrap(), out);
        judge_resp_head(i, &plans[i].resp, scfg.date, &x, out);
        judge_body(&format!("response {i}"), &plans[i].resp.script, &x.got.lock().unwrap(), out);
    }
    drop(seen);
    finish(ctx, sim, &wire, format!("{} {n} streams", if server { "hyper client, server shuts down," } else { "hyper client drops its senders," }), out);
    ex.steps
}

/// hyper client, raw server announcing that it goes away
fn client_raw(ctx: &Ctx, r: &mut Rng, sim: &Sim, cut: Option<u64>, out: &mut CaseOut) -> u64 {
    let n = r.range(1, 8);
    let mut cfg = H2Cfg::gen(r);
    cfg.table = None;
    let maxb = *r.pick(&[50usize, 3000, 20_000]);
    let (mut scripts, mut resps) = (vec![], vec![]);
    for _ in 0..n {
        scripts.push(if r.pct(40) { Script::empty() } else { gen_body(r, maxb) });
        let nb = r.size(maxb);
        resps.push(r.body(nb));
    }
    coarsen(scripts.iter_mut().collect(), &mut H2Cfg::plain());
    cfg.stream_win = *r.pick(&[None, Some(1 << 20)]);
    cfg.conn_win = None;
    let bytes = n * maxb * 2;
    tame2(r, &mut cfg, bytes);
    let (ioa, iob) = gen_io2(r, bytes + n * 400);
    let (a, b, wire) = pipe(sim, ioa, iob);
    wire.record_order();
    let mut ex = Exec::new(sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let (slot, cend) = connect_h2(&mut ex, &cfg, a);
    let raw = Raw::spawn(&mut ex, b, false);
    raw.put(&[frames::settings(&[(1, 0), (4, 1 << 20)]), frames::wupd(0, 1 << 24)].concat());
    let xs: Vec<ExRef> = (0..n).map(|_| ExRef::default()).collect();
    let sids: Arc<Mutex<Vec<usize>>> = Default::default();
    for i in 0..n {
        let (slot, x, sim2, sids, script) = (slot.clone(), xs[i].clone(), sim.clone(), sids.clone(), scripts[i].clone());
        let (d, pace) = (*r.pick(&[0usize, 0, 3, 20, 100, 200]), *r.pick(&[0, 0, 40]));
        let mut spec = ReqSpec::get(&abs("/"));
        spec.method = "POST".into();
        spec.script = script;
        ex.spawn("caller", async move {
            let Some(mut tx) = slot.get().await else { return };
            sim2.yields(d).await;
            // streams take their numbers in the order of submission
            sids.lock().unwrap().push(i);
            let fut = submit2(&sim2, &mut tx, &spec, &x, false);
            finish2(&sim2, fut, &x, CRead::All, pace).await;
        });
    }
    // the last stream the raw server takes
    let fin: Arc<Mutex<Option<u32>>> = Default::default();
    for i in 0..n {
        let sid = 1 + 2 * i as u32;
        let (raw, sim2, fin, sids, resps) = (raw.clone(), sim.clone(), fin.clone(), sids.clone(), resps.clone());
        let (d1, d2, chunk, wait_req, sleep) = (*r.pick(&[0usize, 0, 5, 30]), *r.pick(&[0usize, 0, 5]), r.range(300, 9000), r.pct(60), *r.pick(&[0u64, 0, 2_000_000]));
        ex.spawn("answer", async move {
            if !raw.wait(|s| s.has(sid, frames::HEADERS)).await {
                return;
            }
            if matches!(*fin.lock().unwrap(), Some(f) if sid > f) {
                return;
            }
            if wait_req {
                raw.wait(|s| s.eos(sid)).await;
            }
            sim2.yields(d1).await;
            if sleep > 0 {
                sim2.sleep(std::time::Duration::from_nanos(sleep)).await;
            }
            let i = sids.lock().unwrap()[(sid as usize - 1) / 2];
            let body = &resps[i];
            raw.put(&response(sid, body.is_empty(), "200", &[]));
            let mut off = 0;
            while off < body.len() {
                sim2.yields(d2).await;
                let m = chunk.min(body.len() - off);
                raw.put(&frames::data(sid, off + m == body.len(), &body[off..off + m]));
                off += m;
            }
            if !wait_req {
                raw.wait(|s| s.eos(sid)).await;
            }
        });
    }
    let gate = Gate::default();
    let two = r.pct(60);
    {
        let (raw, gate, sim2, fin, gap) = (raw.clone(), gate.clone(), sim.clone(), fin.clone(), *r.pick(&[0usize, 3, 30]));
        ex.spawn("goaway", async move {
            gate.wait().await;
            if two {
                raw.put(&frames::goaway(LAST, 0));
                sim2.yields(gap).await;
            }
            // every stream seen so far was accepted
            let last = {
                let s = raw.st.lock().unwrap();
                s.frames.iter().filter(|(f, _)| f.kind == frames::HEADERS).map(|(f, _)| f.sid).max().unwrap_or(0)
            };
            *fin.lock().unwrap() = Some(last);
            raw.put(&frames::goaway(last, 0));
        });
    }
    if !run_cut(&mut ex, cut, &gate, out) {
        return ex.steps;
    }
    let (rs, c) = (raw.st.lock().unwrap(), cend.lock().unwrap().clone());
    let fin = fin.lock().unwrap().unwrap_or(LAST);
    out.nontrivial = true;
    if !c.done || !c.ok {
        out.viol(format!("the client connection did not end well after the peer went away: done {} {}", c.done, c.err));
    }
    if ex.is_pending("h2c") {
        out.viol("a task of the client connection is still there");
    }
    if !rs.eof {
        out.viol("the client did not close the transport");
    }
    let sids = sids.lock().unwrap();
    for i in 0..n {
        let x = xs[i].lock().unwrap();
        if !x.submitted {
            continue;
        }
        if x.resolved != 1 {
            out.viol(format!("request {i}: resolved {} times", x.resolved));
            continue;
        }
        let sid = 1 + 2 * sids.iter().position(|s| *s == i).unwrap() as u32;
        let on_wire = rs.has(sid, frames::HEADERS);
        if sid <= fin && on_wire {
            out.count("accepted_streams", 1);
            let g = x.got.lock().unwrap();
            if x.status != Some(200) || !g.clean() || g.data != resps[i] {
                out.viol(format!("request {i} (stream {sid}, accepted up to {fin}): status {:?}, error {:?}, body {} of {} bytes, done {}, error {:?}", x.status, x.err.as_ref().map(|e| &e.dbg), g.data.len(), resps[i].len(), g.done, g.err));
            }
            if rs.data(sid) != scripts[i].data() || !rs.eos(sid) {
                out.viol(format!("request {i} (stream {sid}, accepted up to {fin}): {} of {} body bytes were sent, ended {}", rs.data(sid).len(), scripts[i].len(), rs.eos(sid)));
            }
        } else {
            out.count("refused_streams", 1);
            if x.err.is_none() {
                out.viol(format!("request {i} (stream {sid}, accepted up to {fin}, sent {on_wire}) was not refused: status {:?}", x.status));
            }
        }
    }
    drop(rs);
    finish(ctx, sim, &wire, format!("client, raw server goes away, {n} streams, two steps {two}"), out);
    ex.steps
}
