//! C15: HTTP/2 exchanges arrive complete and unmixed.

use crate::cli::*;
use crate::frames;
use crate::h2ex::*;
use crate::h2x::*;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::srv::*;
use crate::util::*;

pub const CHECK: Check = Check {
    id: "C15",
    level: "exploration",
    rule: "a case is one HTTP/2 connection between hyper's client and hyper's server with 1-40 concurrent generated exchanges under random windows, frame sizes, body pacing, transport segmentation and scheduling; distinct = distinct (wire bytes, schedule) with at least one exchange compared",
    quick: 12_000,
    thorough: 400_000,
    run: case,
    assumptions: &["header lists stay below the configured limits", "bodies of HEAD/204/205/304 responses are empty"],
};

pub fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut scfg = H2Cfg::gen(&mut r);
    let mut ccfg = H2Cfg::gen(&mut r);
    let n = *r.pick(&[1usize, 2, 3, 5, 8, 15, 40]);
    let maxb = *r.pick(&[0usize, 50, 2000, 20_000, 60_000]);
    let maxb = if n > 8 { maxb.min(20_000) } else { maxb };
    let mut specs: Vec<ReqSpec> = (0..n).map(|i| gen_req2(&mut r, i, maxb)).collect();
    let mut plans: Vec<Plan> = specs
        .iter()
        .map(|s| {
            let mut p = Plan::simple(gen_resp2(&mut r, &s.method, maxb));
            p.delay = *r.pick(&[0, 0, 1, 5, 30]);
            p.pace = *r.pick(&[0, 0, 30, 70]);
            p.read = match r.below(10) {
                0..=5 => ReadPlan::All,
                6 => ReadPlan::Concurrent,
                7 => ReadPlan::AfterRespond,
                8 => ReadPlan::Never,
                _ => ReadPlan::Partial(r.range(1, 4)),
            };
            p
        })
        .collect();
    coarsen(specs.iter_mut().map(|s| &mut s.script).collect(), &mut scfg);
    coarsen(plans.iter_mut().map(|p| &mut p.resp.script).collect(), &mut ccfg);
    if n > 12 {
        scfg.send_buf = scfg.send_buf.map(|x| x.max(1000));
        ccfg.send_buf = ccfg.send_buf.map(|x| x.max(1000));
    }
    // (if both ends abandon what the other sends, both directions of that stream may wait for ever)
    let reads: Vec<(CRead, u32)> = (0..n)
        .map(|i| {
            let c = match r.below(14) {
                _ if matches!(plans[i].read, ReadPlan::Never | ReadPlan::Partial(_)) => CRead::All,
                0 => CRead::Never,
                1 => CRead::Partial(r.range(1, 4)),
                _ => CRead::All,
            };
            (c, *r.pick(&[0, 0, 30, 70]))
        })
        .collect();
    let bytes: usize = specs.iter().map(|s| s.script.len()).sum::<usize>() + plans.iter().map(|p| p.resp.script.len()).sum::<usize>();
    tame2(&mut r, &mut scfg, bytes);
    tame2(&mut r, &mut ccfg, bytes);
    // (an abandoned body may keep its stream counted at the server for a moment, and the next one is refused)
    let abandon = plans.iter().any(|p| matches!(p.read, ReadPlan::Never | ReadPlan::Partial(_))) || reads.iter().any(|x| x.0 != CRead::All);
    if !abandon && r.pct(60) {
        let m = r.range(1, 6);
        scfg.max_streams = Some(m as u32);
        ccfg.init_send = Some(r.range(1, m));
    }
    let (ioa, iob) = gen_io2(&mut r, bytes + n * 400);
    let (a, b, wire) = pipe(&sim, ioa.clone(), iob.clone());
    wire.record_order();
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let svc = Svc::new(&ex, plans.clone()).by_id();
    let st = svc.st.clone();
    let send = serve_h2(&mut ex, &scfg, b, svc, Gate::default());
    let (slot, cend) = connect_h2(&mut ex, &ccfg, a);
    // With an initial window below the default one, requests start only once the settings are known:
    // h2 itself can strand a stream whose window shrinks under data already consumed.
    if scfg.stream_win.map(|w| w < 65_535).unwrap_or(false) || r.pct(20) {
        let e = ex.run();
        if e != End::Quiescent {
            out.inconclusive = Some(format!("handshake: {e:?}"));
            return out;
        }
    }
    let xs: Vec<ExRef> = (0..n).map(|_| ExRef::default()).collect();
    for i in 0..n {
        let (slot, spec, x, sim2, (rd, pace)) = (slot.clone(), specs[i].clone(), xs[i].clone(), sim.clone(), reads[i]);
        let d = *r.pick(&[0usize, 0, 3, 20, 100]);
        let use_try = r.pct(30);
        ex.spawn(format!("x{i}"), async move {
            let Some(mut tx) = slot.get().await else { return };
            sim2.yields(d).await;
            exchange2(&sim2, &mut tx, &spec, &x, rd, pace, use_try).await;
        });
    }
    let e = at_rest(ex.run());
    if e == End::StepLimit {
        out.inconclusive = Some("too many steps".into());
        return out;
    }
    if let End::Spin(t) = &e {
        out.viol(format!("task {t} spins without progress"));
    }
    // every sender goes away: both connections end in order
    slot.clear();
    ex.run();
    let seen = st.lock().unwrap();
    for i in 0..n {
        let id = i.to_string();
        let mine: Vec<&Seen> = seen.seen.iter().filter(|s| s.headers.iter().any(|(k, v)| k == "x-id" && v == id.as_bytes())).collect();
        let x = xs[i].lock().unwrap();
        if mine.len() != 1 {
            out.viol(format!("request {i} reached the service {} times (caller: status {:?}, error {:?}, submitted {})", mine.len(), x.status, x.err.as_ref().map(|e| &e.dbg), x.submitted));
            continue;
        }
        judge_head(i, &specs[i], mine[0], &mut out);
        let what = format!("request {i}");
        let got = mine[0].got.lock().unwrap();
        let (rd, _) = reads[i];
        match plans[i].read {
            ReadPlan::All | ReadPlan::Concurrent | ReadPlan::AfterRespond => {
                if rd == CRead::All {
                    judge_body(&what, &specs[i].script, &got, &mut out)
                } else {
                    judge_prefix(&what, &specs[i].script, &got, &mut out)
                }
            }
            _ => judge_prefix(&what, &specs[i].script, &got, &mut out),
        }
        if let Some(e) = &x.err {
            out.viol(format!("request {i} failed: {}", e.dbg));
            continue;
        }
        if x.resolved != 1 {
            out.viol(format!("request {i}: resolved {} times", x.resolved));
            continue;
        }
        judge_resp_head(i, &plans[i].resp, scfg.date, &x, &mut out);
        let what = format!("response {i}");
        let g = x.got.lock().unwrap();
        if rd == CRead::All {
            judge_body(&what, &plans[i].resp.script, &g, &mut out);
        } else {
            judge_prefix(&what, &plans[i].resp.script, &g, &mut out);
        }
        out.count("exchanges", 1);
        out.count("body_bytes", (g.data.len() + got.data.len()) as u64);
        out.count("trailers", (g.trailers.is_some() as u64) + got.trailers.is_some() as u64);
    }
    if seen.seen.len() != n && out.violations.is_empty() {
        out.viol(format!("{} service calls for {n} requests", seen.seen.len()));
    }
    drop(seen);
    for (w, c) in [("server", send.lock().unwrap().clone()), ("client", cend.lock().unwrap().clone())] {
        if !c.done {
            out.viol(format!("{w} connection still running after every sender was dropped and every exchange was over; pending: {:?}", ex.pending()));
        } else if !c.ok && !peer_gone(&c) {
            out.viol(format!("{w} connection ended with {}", c.err));
        }
    }
    let order = wire.order.lock().unwrap().clone().unwrap_or_default();
    let (sa, sb) = (wire.sent_by_a(), wire.sent_by_b());
    let au = frames::audit(&order, &sa, &sb, true);
    for p in au.problems {
        out.viol(p);
    }
    out.count("data_frames", au.data_frames);
    out.nontrivial = out.counts.get("exchanges").copied().unwrap_or(0) > 0;
    out.sig = mix(sim.st(|s| s.hash), fnv(&sa) ^ fnv(&sb));
    if ctx.trace {
        out.trace = sim.take_log();
        out.trace.extend(frames::dump(&order, &sa, &sb, true));
    }
    if ctx.index < 3 {
        out.desc = Some(format!("{n} exchanges, {bytes} body bytes; server {scfg:?}; client {ccfg:?}; io {ioa:?} / {iob:?}"));
    }
    out
}
