//! C11: graceful shutdown of an HTTP/1 server connection, requested at every step of a run.
use crate::body::*;
use crate::h1gen::*;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::sim::*;
use crate::srv::*;
use crate::util::*;

pub const CHECK: Check = Check {
    id: "C11",
    level: "fault_enumeration",
    rule: "a case runs one scripted connection to its end once to learn its number of scheduler steps, then again with graceful shutdown requested after a uniformly chosen step, and compares what was started at that moment with what was served, marked and closed; distinct = distinct (bytes, schedule) in which the request reached a live connection",
    quick: 40_000,
    thorough: 1_500_000,
    run: case,
    assumptions: &["the peer keeps sending and reading"],
};

struct Made {
    sim: Sim,
    ex: Exec,
    st: Started,
    gate: Gate,
    bodies: Vec<Vec<u8>>,
    minors: Vec<u8>,
    desc: String,
}
fn make(seed: u64, trace: bool) -> Made {
    let mut r = Rng::new(seed);
    let sim = Sim::new(r.next());
    if trace {
        sim.enable_log();
    }
    let mut cfg = SrvCfg::gen(&mut r);
    cfg.max_buf = None;
    cfg.max_headers = None;
    cfg.header_timeout = Some(None);
    let n = *r.pick(&[1usize, 1, 2, 3, 4, 8]);
    let maxb = *r.pick(&[0usize, 60, 3000, 60_000]);
    let small = r.pct(60);
    let (mut reqs, mut methods, mut plans, mut bodies, mut minors) = (vec![], vec![], vec![], vec![], vec![]);
    for i in 0..n {
        let m = if small {
            let k = if r.pct(50) { 0 } else { r.size(400) };
            let b = r.body(k);
            let mut w = format!("{} /{i} HTTP/1.1\r\nHost: a\r\n", if k > 0 { "POST" } else { "GET" }).into_bytes();
            if k > 0 && r.pct(50) {
                w.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
                put_chunked(&mut r, &mut w, &b, &vec![]);
            } else if k > 0 {
                w.extend_from_slice(format!("Content-Length: {k}\r\n\r\n").as_bytes());
                w.extend_from_slice(&b);
            } else {
                w.extend_from_slice(b"\r\n");
            }
            methods.push(if k > 0 { "POST".to_string() } else { "GET".to_string() });
            minors.push(1);
            w
        } else {
            let m = gen_request(&mut r, &ReqOpt { max_body: maxb, close: false, leading_crlf: i == 0, allow_10: i + 1 == n, max_headers: 100 });
            methods.push(m.method.clone());
            minors.push(m.minor);
            m.wire
        };
        reqs.push(m);
        let k = r.size(maxb.max(40));
        let mut p = Plan::simple(RespSpec::ok(b""));
        p.resp.script = Script::gen(&mut r, k);
        bodies.push(p.resp.script.data());
        p.delay = *r.pick(&[0, 0, 1, 5, 20]);
        p.sleep_ns = *r.pick(&[0, 0, 0, 2000]);
        p.pace = *r.pick(&[0, 0, 20, 70]);
        p.read = match r.below(8) {
            0 => ReadPlan::Concurrent,
            1 => ReadPlan::AfterRespond,
            2 => ReadPlan::Never,
            3 => ReadPlan::Partial(1),
            _ => ReadPlan::All,
        };
        plans.push(p);
    }
    let total: usize = bodies.iter().map(|b| b.len()).sum();
    let gate = Gate::default();
    let mut desc = format!("{n} requests, reads {:?}; {:?}", plans.iter().map(|p| format!("{:?}", p.read)).collect::<Vec<_>>(), cfg);
    let mut run = Run::new(&mut r, cfg, reqs, methods, plans, total);
    run.eof = Eof::Never;
    run.graceful = gate.clone();
    desc += &format!(" {:?}", run.send);
    let mut ex = Exec::new(&sim);
    let st = run.start(&mut ex);
    Made { sim, ex, st, gate, bodies, minors, desc }
}
fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let steps = {
        let mut m = make(ctx.seed, false);
        m.st.run(&mut m.ex);
        m.ex.steps
    };
    let mut r = Rng::new(mix(ctx.seed, 11));
    let at = r.below(steps as usize + 2) as u64;
    let mut m = make(ctx.seed, ctx.trace);
    m.ex.max_steps = at;
    m.st.run(&mut m.ex);
    m.gate.open();
    m.ex.max_steps = 6_000_000;
    let (sim, bodies) = (m.sim.clone(), m.bodies);
    let ran = m.st.finish(&mut m.ex);
    let desc = format!("shutdown requested after step {at} of {steps}: {}", m.desc);
    if ran.judge_end(&mut out) {
        let st = ran.st.lock().unwrap();
        out.count("responses", st.seen.len() as u64);
        match ran.end.asked {
            None => {
                if !ran.end.done {
                    out.viol("the connection never noticed the request to shut down".to_string());
                }
            }
            Some(a) => {
                out.nontrivial = true;
                out.count("asked_before_any_byte", (a.read_bytes == 0) as u64);
                out.count("asked_in_first_head", (a.read_bytes > 0 && a.calls == 0) as u64);
                out.count("served_total", st.seen.len() as u64);
                let most = if a.calls > 0 {
                    a.calls
                } else if a.read_bytes > 0 {
                    1
                } else {
                    0
                };
                if st.seen.len() > most {
                    out.viol(format!("{} requests served although {} were started when shutdown was requested ({:?})", st.seen.len(), a.calls, a));
                }
                let (resp, err) = ran.responses();
                if let Some(e) = err {
                    out.viol(format!("unparsable output: {e}"));
                }
                for i in 0..st.seen.len() {
                    match resp.get(i) {
                        Some(m) if m.complete && (m.body == bodies[i] || st.seen[i].method == "HEAD") => {}
                        Some(m) => out.viol(format!("response {i} incomplete or different: {} (complete {}, connection {:?})", diff(&bodies[i], &m.body), m.complete, ran.end)),
                        None => out.viol(format!("request {i} was started but not answered (connection {:?})", ran.end)),
                    }
                }
                if resp.len() > st.seen.len() {
                    out.viol(format!("{} responses for {} requests", resp.len(), st.seen.len()));
                }
                if !ran.end.done || !ran.end.ok {
                    out.viol(format!("connection did not end well: {:?}, read {} bytes by the request, {} calls", ran.end, a.read_bytes, a.calls));
                }
                if !ran.rx.eof {
                    out.viol("transport not shut down".to_string());
                }
                // was the last one answered after the request?
                if let Some(i) = st.seen.len().checked_sub(1) {
                    let later = a.calls == 0 || a.in_service;
                    if later && out.violations.is_empty() {
                        out.count("last_marked", 1);
                        let t = resp[i].conn_tokens();
                        let ok = if m.minors[i] == 1 { t.contains(&"close".to_string()) } else { !t.contains(&"keep-alive".to_string()) };
                        if !ok {
                            out.viol(format!("response {i} was not marked as the last one: connection {t:?}"));
                        }
                    }
                }
                for s in st.seen.iter().filter(|s| s.fut_dropped) {
                    out.viol(format!("service future of {} {} dropped unfinished", s.method, s.uri));
                }
            }
        }
    }
    out.count("events", sim.st(|s| s.events));
    out.sig = mix(sim.st(|s| s.hash), at);
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}
