//! C03: responses on the wire, read by a strict client.
use crate::h1gen::*;
use crate::refh1::*;
use crate::report::*;
use crate::respgen::*;
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::sim::*;
use crate::srv::*;
use crate::util::*;

pub const CHECK: Check = Check {
    id: "C03",
    level: "exploration",
    rule: "a case is one connection with 1-5 requests whose service responses (status, headers, framing fields, body production, trailers) are generated; distinct = distinct (received bytes, schedule) with at least one response parsed by the strict client parser",
    quick: 60_000,
    thorough: 2_000_000,
    run: case,
    assumptions: &["a length declared by the application equals the body's length", "application transfer-encoding lists do not contain chunked before the end"],
};

fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = SrvCfg::gen(&mut r);
    cfg.max_buf = *r.pick(&[None, None, None, Some(8192), Some(20_000)]);
    cfg.preserve_case = false;
    let n = *r.pick(&[1usize, 1, 2, 3, 5]);
    let maxb = *r.pick(&[0usize, 60, 3000, 30_000, 150_000]);
    let (mut reqs, mut peers, mut plans, mut methods) = (vec![], vec![], vec![], vec![]);
    let mut bytes = 0;
    let expect10 = r.pct(15);
    for _ in 0..n {
        let method = r.pick(&["GET", "GET", "POST", "HEAD", "PUT", "OPTIONS", "X-Y", "CONNECT"]).to_string();
        let minor = if expect10 { 0 } else { 1 };
        let te = r.pct(50);
        let mut w = format!("{} {} HTTP/1.{}\r\nHost: a\r\n", method, if method == "CONNECT" { "a.b:443" } else { "/" }, minor).into_bytes();
        if te {
            w.extend_from_slice(r.pick(&[&b"TE: trailers\r\n"[..], b"te: gzip, Trailers\r\n", b"TE: gzip\r\nTE: trailers\r\n"]));
        }
        if minor == 0 && r.pct(60) {
            w.extend_from_slice(b"Connection: keep-alive\r\n");
        }
        let body = if method == "POST" || method == "PUT" {
            let k = r.size(2000);
            let b = r.body(k);
            if minor == 1 && r.pct(50) {
                w.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
                put_chunked(&mut r, &mut w, &b, &vec![]);
            } else {
                w.extend_from_slice(format!("Content-Length: {}\r\n\r\n", b.len()).as_bytes());
                w.extend_from_slice(&b);
            }
            b.len()
        } else {
            w.extend_from_slice(b"\r\n");
            0
        };
        let _ = body;
        let spec = gen_spec(&mut r, &SpecOpt { max_body: maxb, http10: true, method: method.clone(), conn_headers: true, date: true });
        bytes += spec.script.len() + 500;
        let mut p = Plan::simple(spec);
        p.delay = *r.pick(&[0, 0, 1, 4]);
        p.read = match r.below(6) {
            0 => ReadPlan::Concurrent,
            1 => ReadPlan::AfterRespond,
            2 => ReadPlan::Never,
            _ => ReadPlan::All,
        };
        plans.push(p);
        peers.push(PeerInfo { method: method.clone(), minor, te_trailers: te });
        methods.push(method);
        reqs.push(w);
    }
    let specs: Vec<RespSpec> = plans.iter().map(|p| p.resp.clone()).collect();
    let date = cfg.date;
    let mut run = Run::new(&mut r, cfg, reqs, methods, plans, bytes);
    if run.eof == Eof::AfterResponses && run.cfg.half_close && r.pct(30) {
        run.eof = Eof::AfterSend;
    }
    let desc = format!(
        "{:?} {:?} {:?} io a {:?}; responses [{}]",
        run.cfg,
        run.send,
        run.eof,
        run.ioa,
        specs.iter().zip(&peers).map(|(s, p)| format!("{} 1.{}{} -> {} {:?} {:?} len={} steps={} eager={}", p.method, p.minor, if p.te_trailers { " te" } else { "" }, s.status, s.version, s.script.hint, s.script.len(), s.script.steps.len(), s.script.eager_eos)).collect::<Vec<_>>().join("; ")
    );
    let ran = run.go(&sim);
    if ran.judge_end(&mut out) {
        let (resp, err) = ran.responses();
        if let Some(e) = err {
            // an interrupted head is only possible when the connection failed
            out.viol(format!("unparsable output: {e} (connection {:?})", ran.end));
        }
        for (i, m) in resp.iter().enumerate() {
            judge_response(i, m, &specs[i], &peers[i], date, &mut out);
            // a response that ends with the connection must be the last
            if m.framing == Framing::Close && i + 1 < resp.len() {
                out.viol(format!("response {i} is delimited by the connection's end but was followed by another"));
            }
        }
        if resp.is_empty() {
            out.viol(format!("no response at all (connection {:?})", ran.end));
        }
        if ran.end.done && !ran.end.ok && !ran.end.is_incomplete {
            out.viol(format!("connection failed: {}", ran.end.err));
        }
        let seen = ran.st.lock().unwrap().seen.len();
        if seen != resp.len() {
            out.viol(format!("{seen} requests served but {} responses on the wire (connection {:?})", resp.len(), ran.end));
        }
        out.count("responses", resp.len() as u64);
        out.count("chunked", resp.iter().filter(|m| m.framing == Framing::Chunked).count() as u64);
        out.count("close_delimited", resp.iter().filter(|m| m.framing == Framing::Close).count() as u64);
        out.count("with_trailers", resp.iter().filter(|m| !m.trailers.is_empty()).count() as u64);
        out.count("bodiless", resp.iter().filter(|m| m.framing == Framing::None).count() as u64);
        out.count("body_bytes", resp.iter().map(|m| m.body.len() as u64).sum());
        out.nontrivial = !resp.is_empty();
    }
    out.sig = mix(sim.st(|s| s.hash), fnv(&ran.rx.data));
    out.count("vectored_writes", ran.wire.a.lock().unwrap().vec_writes);
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}
