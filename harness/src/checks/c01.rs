//! C01: the service sees exactly the requests on the wire.
use crate::body::*;
use crate::h1gen::*;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::run::tame;
use crate::sim::*;
use crate::srv::*;
use crate::util::*;
use std::sync::{Arc, Mutex};

pub const CHECK: Check = Check {
    id: "C01",
    level: "exploration",
    rule: "a case is one connection carrying 1-6 generated well-formed requests under random segmentation, readiness, reading pace and options; distinct = distinct (wire bytes, observed schedule) with at least one request compared field by field",
    quick: 60_000,
    thorough: 2_000_000,
    run: case,
    assumptions: &["transport keeps hyper's Read/Write contract", "request heads stay below the configured limits"],
};

pub fn norm_target(t: &str) -> String {
    if let Some(rest) = t.strip_prefix("http://") {
        if !rest.contains('/') && !rest.contains('?') {
            return format!("{t}/");
        }
    }
    t.to_string()
}
/// Compares one seen request with what was generated.
pub fn compare_request(i: usize, m: &GenMsg, s: &Seen, out: &mut CaseOut) {
    if s.method != m.method {
        out.viol(format!("request {i}: method {:?} instead of {:?}", s.method, m.method));
    }
    if s.uri != norm_target(&m.target) {
        out.viol(format!("request {i}: target {:?} instead of {:?}", s.uri, m.target));
    }
    let v = if m.minor == 0 { http::Version::HTTP_10 } else { http::Version::HTTP_11 };
    if s.version != v {
        out.viol(format!("request {i}: version {:?} instead of {:?}", s.version, v));
    }
    if let Err(e) = same_fields(&m.expect_headers, &s.headers) {
        out.viol(format!("request {i}: {e}"));
    }
}
pub fn compare_body(i: usize, m: &GenMsg, g: &Got, out: &mut CaseOut) {
    if let Some(e) = &g.err {
        out.viol(format!("request {i}: body of a valid message failed: {e}"));
    } else if !g.done {
        out.viol(format!("request {i}: body never ended ({} of {} bytes)", g.data.len(), m.body.len()));
    } else if g.data != m.body {
        out.viol(format!("request {i}: body differs (want, got): {}", diff(&m.body, &g.data)));
    }
    let want = m.trailers.clone();
    let got = g.trailers.clone().unwrap_or_default();
    if g.clean() {
        if let Err(e) = same_fields(&want, &got) {
            out.viol(format!("request {i}: trailers: {e}"));
        }
    }
    if g.trailer_frames > 1 {
        out.viol(format!("request {i}: {} trailer frames", g.trailer_frames));
    }
    for o in hint_oddities(g) {
        out.viol(format!("request {i}: {o}"));
    }
}

fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = SrvCfg::gen(&mut r);
    cfg.pipeline_flush = r.pct(12);
    let mh = cfg.max_headers.unwrap_or(100);
    let n = *r.pick(&[1usize, 1, 2, 3, 4, 6]);
    let closing = r.pct(40);
    let maxb = *r.pick(&[0usize, 50, 3000, 30000, 200_000]);
    let mut msgs = vec![];
    for i in 0..n {
        let o = ReqOpt { max_body: maxb, close: closing && i + 1 == n, leading_crlf: true, allow_10: true, max_headers: mh };
        msgs.push(gen_request(&mut r, &o));
    }
    if msgs.iter().any(|m| m.head_len + 8 >= cfg.max_buf.unwrap_or(400_000)) {
        cfg.max_buf = None;
    }
    let plans: Vec<Plan> = msgs
        .iter()
        .map(|_| {
            let k = r.size(2000);
            let mut p = Plan::simple(RespSpec::ok(&r.body(k)));
            p.delay = *r.pick(&[0, 0, 0, 1, 5]);
            p.pace = *r.pick(&[0, 0, 20, 70]);
            p.read = match r.below(6) {
                0 => ReadPlan::Concurrent,
                1 => ReadPlan::AfterRespond,
                _ => ReadPlan::All,
            };
            p
        })
        .collect();
    let mut ioa = IoCfg::gen(&mut r);
    let mut iob = IoCfg::gen(&mut r);
    // hyper may take a peer that leaves before a flush has finished for one that did not get everything.
    (ioa.late_flush, iob.late_flush) = (false, false);
    tame(&mut r, &mut ioa, &mut iob, msgs.iter().map(|m| m.wire.len()).sum::<usize>() + 4000);
    let desc = format!(
        "{} requests [{}], {:?}, io {:?}, reads {:?}",
        n,
        msgs.iter().map(|m| format!("{} {:?} body={} chunks={} tr={}", m.method, m.kind, m.body.len(), m.chunk_count, m.trailers.len())).collect::<Vec<_>>().join(", "),
        cfg,
        ioa.rd,
        plans.iter().map(|p| format!("{:?}", p.read)).collect::<Vec<_>>()
    );
    let (server_io, client_io, _wire) = pipe(&sim, ioa, iob);
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 0, 10]);
    let svc = Svc::new(&ex, plans);
    let st = svc.st.clone();
    let end = serve_h1(&mut ex, &cfg, server_io, svc, Gate::default());
    // client
    let peer = Peer::new(client_io);
    let rx: RecvRef = Default::default();
    let nresp = Count::default();
    let methods: Vec<String> = msgs.iter().map(|m| m.method.clone()).collect();
    {
        let (p, rx, nresp, methods) = (peer.clone(), rx.clone(), nresp.clone(), methods.clone());
        ex.spawn("client-read", async move {
            let mut pos = (0usize, 0usize);
            read_all(p, rx, 1 << 16, |rv| {
                while pos.1 < methods.len() {
                    match refh1::response(&rv.data, pos.0, &methods[pos.1], rv.eof) {
                        refh1::P::Ok(m) if m.complete => pos = (m.end, pos.1 + 1),
                        _ => break,
                    }
                }
                nresp.set(pos.1);
            })
            .await
        });
    }
    let lock = r.below(4); // 0: lockstep
    let eof_at_end = r.pct(50);
    let sent_ok = Arc::new(Mutex::new(true));
    {
        let (p, nresp, sim2, msgs2, ok) = (peer.clone(), nresp.clone(), sim.clone(), msgs.clone(), sent_ok.clone());
        let half = cfg.half_close;
        ex.spawn("client-write", async move {
            if lock == 1 {
                let all: Vec<u8> = msgs2.iter().flat_map(|m| m.wire.clone()).collect();
                if p.send(&all).await.is_err() {
                    *ok.lock().unwrap() = false;
                }
            } else {
                for (i, m) in msgs2.iter().enumerate() {
                    let mut off = 0;
                    while off < m.wire.len() {
                        let k = sim2.rng(|r| if r.pct(50) { m.wire.len() - off } else { r.range(1, m.wire.len() - off) });
                        if p.send(&m.wire[off..off + k]).await.is_err() {
                            *ok.lock().unwrap() = false;
                            return;
                        }
                        off += k;
                        if off < m.wire.len() {
                            let y = sim2.rng(|r| r.range(0, 6));
                            sim2.yields(y).await;
                        }
                    }
                    if lock == 0 {
                        nresp.at_least(i + 1).await;
                    }
                }
            }
            if eof_at_end {
                if !half {
                    nresp.at_least(msgs2.len()).await;
                }
                let _ = p.close_write().await;
            }
        });
    }
    ex.until = Some(1_000_000_000);
    let e = at_rest(ex.run());
    let st = st.lock().unwrap();
    let rx = rx.lock().unwrap();
    let end = end.lock().unwrap().clone();
    match &e {
        End::Quiescent => {}
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        x => out.inconclusive = Some(format!("{x:?}")),
    }
    if e == End::Quiescent {
        let pend = ex.pending();
        sim.log(|| format!("at rest; unfinished tasks: {pend:?}"));
        if st.seen.len() != n {
            out.viol(format!("{} requests on the wire, service called {} times (connection: {:?})", n, st.seen.len(), end));
        }
        for (i, (m, s)) in msgs.iter().zip(&st.seen).enumerate() {
            compare_request(i, m, s, &mut out);
            compare_body(i, m, &s.got.lock().unwrap(), &mut out);
        }
        let (resp, perr) = refh1::responses(&rx.data, &methods, rx.eof);
        let fin = resp.iter().filter(|m| m.complete && m.status() >= 200).count();
        if fin != n || perr.is_some() {
            out.viol(format!("{} complete responses for {} requests ({:?}; connection {:?})", fin, n, perr, end));
        }
        if (closing || eof_at_end) && !end.done {
            out.viol("connection did not end after close / end of stream".to_string());
        }
        if end.done && !end.ok {
            out.viol(format!("connection failed on valid input: {}", end.err));
        }
        if !closing && !eof_at_end && end.done {
            out.viol(format!("connection ended on its own: {end:?}"));
        }
    }
    out.count("requests", st.seen.len() as u64);
    out.count("body_bytes", st.seen.iter().map(|s| s.got.lock().unwrap().data.len() as u64).sum());
    out.count("trailers", st.seen.iter().map(|s| s.got.lock().unwrap().trailer_frames as u64).sum());
    out.count("frames", st.seen.iter().map(|s| s.got.lock().unwrap().frames as u64).sum());
    out.nontrivial = !st.seen.is_empty();
    out.sig = mix(sim.st(|s| s.hash), fnv(&msgs[0].wire));
    out.count("events", sim.st(|s| s.events));
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}
