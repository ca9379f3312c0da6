//! C20: messages sent over HTTP/2 carry no connection-specific header fields.
use crate::body::*;
use crate::cli::*;
use crate::h1gen::Hs;
use crate::h2ex::*;
use crate::h2x::*;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::srv::*;
use crate::util::*;

pub const CHECK: Check = Check {
    id: "C20",
    level: "exploration",
    rule: "a case is 1-6 exchanges between hyper's HTTP/2 client and server whose requests and responses carry generated connection-specific fields (repeated Connection fields with token lists, TE in several forms, Keep-Alive, Proxy-Connection, Transfer-Encoding, Upgrade) among ordinary ones; distinct = distinct (header sets, schedule) with at least one connection-specific field set",
    quick: 40_000,
    thorough: 1_000_000,
    run: case,
    assumptions: &["Connection field values are lists of visible ASCII"],
};
const NAMED: &[&str] = &["x-hop", "x-hop2", "x-stay", "keep-alive", "te", "content-length", "x-a", "cookie", "accept", "x-absent", "upgrade", "close", "date"];

fn gen_fields(r: &mut Rng) -> (Hs, u64) {
    let mut h: Hs = vec![];
    let mut special = 0;
    for _ in 0..r.range(0, 8) {
        let k = r.pick(&["x-hop", "x-hop2", "x-stay", "x-a", "cookie", "accept", "x-b"]).to_string();
        let v = crate::h1gen::value(r);
        h.push((k, v[..v.len().min(60)].to_vec()));
    }
    let put = |r: &mut Rng, h: &mut Hs, k: &str, v: Vec<u8>| {
        let at = r.below(h.len() + 1);
        h.insert(at, (k.to_string(), v));
    };
    for _ in 0..*r.pick(&[0, 1, 1, 2, 3]) {
        let mut v = String::new();
        for i in 0..r.range(0, 4) {
            if i > 0 {
                v.push_str(*r.pick(&[",", ", ", " ,", ",,", " , ", ",\t"]));
            }
            let t = r.pick(NAMED).to_string();
            v.push_str(&match r.below(4) {
                0 => t.to_ascii_uppercase(),
                1 => t.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
                _ => t,
            });
        }
        let v = v.trim_matches(|c| c == ' ' || c == '\t').to_string();
        put(r, &mut h, "connection", v.into_bytes());
        special += 1;
    }
    for (k, vs) in [
        ("keep-alive", &["timeout=5", ""][..]),
        ("proxy-connection", &["keep-alive", "close", "x-stay"]),
        ("transfer-encoding", &["chunked", "gzip, chunked", "gzip"]),
        ("upgrade", &["websocket", "h2c", "a, b"]),
        ("te", &["trailers", "trailers", "gzip", "trailers, deflate", "Trailers", " trailers;q=1", ""]),
    ] {
        if r.pct(25) {
            for _ in 0..*r.pick(&[1, 1, 2]) {
                let v = r.pick(vs).trim().as_bytes().to_vec();
                put(r, &mut h, k, v);
                special += 1;
            }
        }
    }
    (h, special)
}
fn expect(h: &Hs, request: bool) -> (Hs, bool) {
    let mut named: Vec<String> = vec!["connection".into(), "keep-alive".into(), "proxy-connection".into(), "transfer-encoding".into(), "upgrade".into()];
    for (k, v) in h {
        if k == "connection" {
            for t in String::from_utf8_lossy(v).split(',') {
                named.push(t.trim().to_ascii_lowercase());
            }
        }
    }
    let te: Vec<&Vec<u8>> = h.iter().filter(|(k, _)| k == "te").map(|(_, v)| v).collect();
    let te_mixed = te.iter().any(|v| &v[..] != b"trailers");
    if !request || te_mixed {
        named.push("te".into());
    }
    // a list that mixes `trailers` with others may keep the former
    (h.iter().filter(|(k, _)| !named.contains(k)).cloned().collect(), te_mixed && te.iter().any(|v| &v[..] == b"trailers"))
}
fn judge(what: &str, sent: &Hs, body: &Script, no_cl: bool, request: bool, got: &Hs, date: bool, out: &mut CaseOut) {
    let (mut want, te_either) = expect(sent, request);
    let mut got: Hs = got.clone();
    if te_either {
        got.retain(|(k, v)| !(k == "te" && v == b"trailers"));
    }
    if !has(&want, "content-length") {
        if let Some((_, v)) = got.iter().find(|(k, _)| k == "content-length") {
            // announced by hyper: must be the truth
            if v != body.len().to_string().as_bytes() {
                out.viol(format!("{what}: announced a length of {} for a body of {}", show(v), body.len()));
            }
            want.push(("content-length".into(), v.clone()));
        } else if body.hint == Hint::Exact && body.len() > 0 && !no_cl {
            out.viol(format!("{what}: known body length {} not announced", body.len()));
        }
    }
    if !request && !has(&want, "date") {
        let n = got.iter().filter(|(k, _)| k == "date").count();
        if n != date as usize {
            out.viol(format!("{what}: {n} date fields"));
        }
        got.retain(|(k, _)| k != "date");
    }
    if let Err(e) = crate::h1gen::same_fields(&want, &got) {
        out.viol(format!("{what}: {e}"));
    }
}
fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut scfg = H2Cfg::plain();
    let ccfg = H2Cfg::plain();
    scfg.date = r.pct(50);
    let n = r.range(1, 6);
    let mut specs = vec![];
    let mut plans = vec![];
    let mut special = 0;
    let script = |r: &mut Rng| -> Script {
        let k = r.size(200);
        if r.pct(40) { Script { eager_eos: r.pct(70), ..Script::empty() } } else { Script::gen(r, k) }
    };
    for i in 0..n {
        let (mut h, s1) = gen_fields(&mut r);
        h.push(("x-id".into(), i.to_string().into_bytes()));
        let b = script(&mut r);
        if r.pct(20) && b.len() > 0 {
            h.push(("content-length".into(), b.len().to_string().into_bytes()));
        }
        let method = r.pick(&["GET", "POST", "PUT", "DELETE"]).to_string();
        specs.push(ReqSpec { method, uri: abs("/"), version: http::Version::HTTP_11, headers: h, script: b, informational: false, copy_case: vec![] });
        let (mut h, s2) = gen_fields(&mut r);
        let b = script(&mut r);
        if r.pct(20) && b.len() > 0 {
            h.push(("content-length".into(), b.len().to_string().into_bytes()));
        }
        if r.pct(15) {
            h.push(("date".into(), b"Sun, 06 Nov 1994 08:49:37 GMT".to_vec()));
        }
        let mut p = Plan::simple(RespSpec { status: *r.pick(&[200, 404, 500]), version: http::Version::HTTP_11, headers: h, reason: None, script: b, copy_ext: false });
        p.read = ReadPlan::All;
        plans.push(p);
        special += s1 + s2;
    }
    let (a, b, wire) = pipe(&sim, IoCfg::plain(), IoCfg::plain());
    let mut ex = Exec::new(&sim);
    let svc = Svc::new(&ex, plans.clone()).by_id();
    let st = svc.st.clone();
    let _send = serve_h2(&mut ex, &scfg, b, svc, Gate::default());
    let (slot, _cend) = connect_h2(&mut ex, &ccfg, a);
    let xs: Vec<ExRef> = (0..n).map(|_| ExRef::default()).collect();
    for i in 0..n {
        let (slot, spec, x, sim2) = (slot.clone(), specs[i].clone(), xs[i].clone(), sim.clone());
        ex.spawn(format!("x{i}"), async move {
            let Some(mut tx) = slot.get().await else { return };
            exchange2(&sim2, &mut tx, &spec, &x, CRead::All, 0, false).await;
        });
    }
    let e = at_rest(ex.run());
    if e != End::Quiescent {
        out.viol(format!("run ended with {e:?}"));
        return out;
    }
    let seen = st.lock().unwrap();
    for i in 0..n {
        let id = i.to_string();
        let mine: Vec<&Seen> = seen.seen.iter().filter(|s| s.headers.iter().any(|(k, v)| k == "x-id" && v == id.as_bytes())).collect();
        let x = xs[i].lock().unwrap();
        if mine.len() != 1 {
            out.viol(format!("request {i} with fields {:?} reached the service {} times: {:?}", hshow(&specs[i].headers), mine.len(), x.err.as_ref().map(|e| &e.dbg)));
            continue;
        }
        judge(&format!("request {i} {:?}", hshow(&specs[i].headers)), &specs[i].headers, &specs[i].script, false, true, &mine[0].headers, false, &mut out);
        if x.status != Some(plans[i].resp.status) {
            out.viol(format!("response {i} with fields {:?} did not arrive: status {:?}, error {:?}", hshow(&plans[i].resp.headers), x.status, x.err.as_ref().map(|e| &e.dbg)));
            continue;
        }
        judge(&format!("response {i} {:?}", hshow(&plans[i].resp.headers)), &plans[i].resp.headers, &plans[i].resp.script, false, false, &x.headers, scfg.date, &mut out);
        if x.got.lock().unwrap().data != plans[i].resp.script.data() {
            out.viol(format!("response {i}: body differs"));
        }
        out.count("messages", 2);
    }
    out.count("connection_specific_fields", special);
    out.nontrivial = special > 0;
    out.sig = mix(sim.st(|s| s.hash), fnv(&wire.sent_by_a()) ^ fnv(&wire.sent_by_b()));
    if ctx.trace {
        out.trace = sim.take_log();
    }
    if ctx.index < 3 {
        out.desc = Some(format!("{n} exchanges; request 0 {:?}; response 0 {:?}", hshow(&specs[0].headers), hshow(&plans[0].resp.headers)));
    }
    out
}
fn hshow(h: &Hs) -> Vec<String> {
    h.iter().map(|(k, v)| format!("{k}: {}", show(v))).collect()
}
