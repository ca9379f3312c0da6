//! C12: the header read timeout, in virtual time.
use crate::body::*;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::Rng;
use crate::rng::mix;
use crate::run::tame;
use crate::sim::*;
use crate::srv::*;
use crate::util::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const CHECK: Check = Check {
    id: "C12",
    level: "exploration",
    rule: "a case is one server connection with 1-4 requests whose head pieces, body pieces, service times, response frames and peer reads are scheduled in virtual time around the timeout; the result and its virtual time are compared with a model of when each head was due; distinct = distinct (schedule, bytes) with at least one head judged",
    quick: 80_000,
    thorough: 3_000_000,
    run: case,
    assumptions: &["a head is due within the timeout after the connection has become free for it: the previous request was read and its response accepted by the transport"],
};
fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = SrvCfg::gen(&mut r);
    cfg.pipeline_flush = false; // delays what these checks time
    cfg.max_headers = None;
    cfg.max_buf = None;
    // delays are multiples of 14, no timeout is: no ties
    let t: Option<u64> = match r.below(10) {
        0 => {
            cfg.timer = true;
            cfg.header_timeout = None;
            Some(30_000_000_000)
        }
        1 => {
            cfg.timer = r.pct(50);
            cfg.header_timeout = Some(None);
            None
        }
        2 => {
            cfg.timer = false;
            cfg.header_timeout = None;
            None
        }
        _ => {
            let t = *r.pick(&[101u64, 1001, 10_001, 1_000_001]);
            cfg.timer = true;
            cfg.header_timeout = Some(Some(Duration::from_nanos(t)));
            Some(t)
        }
    };
    let tt = t.unwrap_or(10_001);
    // an even delay around the timeout
    let d = |r: &mut Rng, scale: u64| -> u64 {
        let x = match r.below(6) {
            0 | 1 => 0,
            2 => r.range(1, 50) as u64,
            3 => scale / 10 + 1,
            4 => scale / 2 + r.below(20) as u64,
            _ => scale - r.below(30) as u64,
        };
        x / 14 * 14
    };
    let n = r.range(1, 4);
    let slow = r.pct(35); // the peer takes its time to read responses
    let lock = r.pct(50);
    struct Q {
        pieces: Vec<(u64, Vec<u8>)>,
        head_len: usize,
        body: usize,
    }
    let late = if r.pct(60) { r.below(n + 1) } else { n + 1 };
    let mut qs = vec![];
    let mut plans = vec![];
    let mut bytes = 0;
    for i in 0..n {
        let k = if r.pct(50) { 0 } else { *r.pick(&[1usize, 3, 20, 500, 9000]) };
        let body = r.body(k);
        let mut w = format!("{} /{i} HTTP/1.1\r\nHost: a\r\nX-P: {}\r\n", if k > 0 { "POST" } else { "GET" }, "p".repeat(r.below(60))).into_bytes();
        let chunked = k > 0 && r.pct(50);
        if chunked {
            w.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
        } else if k > 0 {
            w.extend_from_slice(format!("Content-Length: {k}\r\n\r\n").as_bytes());
        } else {
            w.extend_from_slice(b"\r\n");
        }
        let head_len = w.len();
        if chunked {
            w.extend_from_slice(format!("{k:x}\r\n").as_bytes());
            w.extend_from_slice(&body);
            w.extend_from_slice(b"\r\n0\r\n\r\n");
        } else {
            w.extend_from_slice(&body);
        }
        // head: a few pieces whose delays mostly stay below the timeout in sum
        let np = r.range(1, 6).min(head_len);
        let mut cuts: Vec<usize> = (1..np).map(|_| r.range(1, head_len - 1)).collect();
        cuts.push(head_len);
        cuts.sort();
        cuts.dedup();
        let mut pieces = vec![];
        let mut off = 0;
        let budget = if i == late { tt * 3 } else { tt - 9 };
        let mut spent = 0;
        for c in cuts {
            let mut x = d(&mut r, tt);
            if i == late && c == head_len {
                x = x.max((tt + 20).saturating_sub(spent)) / 14 * 14;
            }
            if spent + x > budget {
                x = 0;
            }
            spent += x;
            pieces.push((x, w[off..c].to_vec()));
            off = c;
        }
        while off < w.len() {
            let k = if r.pct(50) { w.len() - off } else { r.range(1, w.len() - off) };
            pieces.push((d(&mut r, tt * 3), w[off..off + k].to_vec()));
            off += k;
            if pieces.len() > 14 {
                pieces.push((0, w[off..].to_vec()));
                break;
            }
        }
        pieces.retain(|p| !p.1.is_empty());
        bytes += w.len();
        let mut p = Plan::simple(RespSpec::ok(b""));
        let mut steps = vec![];
        for _ in 0..r.range(0, 3) {
            let x = d(&mut r, tt * 3);
            if x > 0 {
                steps.push(Step::Sleep(x));
            }
            let k = *r.pick(&[1usize, 20, 3000, 30_000]);
            bytes += k;
            steps.push(Step::Data(r.body(k)));
        }
        p.resp.script = Script { steps, hint: *r.pick(&[Hint::Exact, Hint::Unknown]), eager_eos: r.pct(50) };
        p.sleep_ns = d(&mut r, tt * 3);
        p.read = match r.below(4) {
            0 => ReadPlan::AfterRespond,
            1 => ReadPlan::Concurrent,
            _ => ReadPlan::All,
        };
        plans.push(p);
        qs.push(Q { pieces, head_len, body: k });
    }
    let methods: Vec<String> = qs.iter().map(|q| if q.body > 0 { "POST".into() } else { "GET".into() }).collect();
    let (mut ioa, mut iob) = (IoCfg::gen(&mut r), IoCfg::gen(&mut r));
    // hyper may take a peer that leaves before a flush has finished for one that did not get everything.
    (ioa.late_flush, iob.late_flush) = (false, false);
    tame(&mut r, &mut ioa, &mut iob, bytes.max(25_000));
    iob.cap = usize::MAX;
    ioa.buffered = false;
    ioa.cap = if slow { *r.pick(&[1000, 4096, 20_000]) } else { usize::MAX };
    let close = r.below(3); // 0 stay open, 1 close in time, 2 send part of another head
    let close_d = d(&mut r, tt);
    let pauses: Vec<u64> = (0..6).map(|_| if slow { d(&mut r, tt * 3) } else { 0 }).collect();
    let desc = format!("timeout {t:?} (default {}), {n} requests, late head {late}, slow peer {slow}, lockstep {lock}, end {close}; {:?}", cfg.header_timeout.is_none(), cfg);
    let (server_io, client_io, wire) = pipe(&sim, ioa, iob);
    wire.a.lock().unwrap().wlog = Some(vec![]);
    let mut ex = Exec::new(&sim);
    let svc = Svc::new(&ex, plans.clone());
    let st = svc.st.clone();
    let end = serve_h1(&mut ex, &cfg, server_io, svc, Gate::default());
    let peer = Peer::new(client_io);
    let rx = RecvRef::default();
    let nresp = Count::default();
    {
        let (s, p, rx, nr, ms) = (sim.clone(), peer.clone(), rx.clone(), nresp.clone(), methods.clone());
        ex.spawn("client-read", async move {
            let mut k = 0;
            loop {
                let w = pauses[k % pauses.len()];
                k += 1;
                if w > 0 && k < 12 {
                    s.sleep(Duration::from_nanos(w)).await;
                }
                let v = p.recv(1 << 16).await;
                let mut o = rx.lock().unwrap();
                match v {
                    Ok(v) if v.is_empty() => o.eof = true,
                    Ok(v) => o.data.extend_from_slice(&v),
                    Err(e) => o.err = Some(e.to_string()),
                }
                let (m, _) = refh1::responses(&o.data, &ms, o.eof);
                nr.set(m.iter().filter(|m| m.complete).count());
                if o.eof || o.err.is_some() {
                    return;
                }
            }
        });
    }
    let sent_at: Arc<Mutex<Vec<(u64, u64)>>> = Default::default();
    let closed_at: Arc<Mutex<Option<u64>>> = Default::default();
    {
        let (s, p, sent, nr, closed_at) = (sim.clone(), peer.clone(), sent_at.clone(), nresp.clone(), closed_at.clone());
        let pieces: Vec<(Vec<(u64, Vec<u8>)>, usize)> = qs.iter().map(|q| (q.pieces.clone(), q.head_len)).collect();
        ex.spawn("client-write", async move {
            for (i, (ps, hl)) in pieces.iter().enumerate() {
                if lock {
                    nr.at_least(i).await;
                }
                let (mut off, mut th) = (0, None);
                for (d, b) in ps {
                    if *d > 0 {
                        s.sleep(Duration::from_nanos(*d)).await;
                    }
                    if p.send(b).await.is_err() {
                        return;
                    }
                    off += b.len();
                    if off >= *hl && th.is_none() {
                        th = Some(s.now_ns());
                        sent.lock().unwrap().push((s.now_ns(), u64::MAX));
                    }
                }
                sent.lock().unwrap()[i].1 = s.now_ns();
            }
            nr.at_least(pieces.len()).await;
            if close == 1 {
                if close_d > 0 {
                    s.sleep(Duration::from_nanos(close_d)).await;
                }
                *closed_at.lock().unwrap() = Some(s.now_ns());
                let _ = p.close_write().await;
            } else if close == 2 {
                let _ = p.send(b"GET / HTTP/1.1\r\nHost:").await;
            }
        });
    }
    ex.until = Some(200_000_000_000_000);
    let e = at_rest(ex.run());
    let end = end.lock().unwrap().clone();
    match &e {
        End::Quiescent => {}
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        x => out.inconclusive = Some(format!("{x:?}")),
    }
    let mut judged = 0;
    if e == End::Quiescent {
        let st = st.lock().unwrap();
        let rx = rx.lock().unwrap();
        let sent = sent_at.lock().unwrap();
        let wlog = wire.a.lock().unwrap().wlog.clone().unwrap();
        // what the transport accepted (the peer may have stopped reading)
        let (resp, err) = refh1::responses(&wire.sent_by_a(), &methods, rx.eof);
        if let Some(e) = err {
            out.viol(format!("unparsable output: {e}"));
        }
        let accepted = |n: usize| wlog.iter().find(|(_, k)| *k >= n as u64).map(|(t, _)| *t);
        let mut ready = 0u64;
        let mut expect_timeout = None;
        let mut served = 0;
        for i in 0..n {
            let due = t.map(|t| ready + t);
            let th = sent.get(i).map(|s| s.0);
            let in_time = match (th, due) {
                (Some(th), Some(due)) => th < due,
                (Some(_), None) => true,
                (None, _) => false,
            };
            judged += 1;
            if !in_time {
                expect_timeout = due;
                break;
            }
            let want = ready.max(th.unwrap());
            match st.seen.get(i) {
                None => {
                    out.viol(format!("request {i}: head arrived at {th:?}, due by {due:?}, but it was not served ({end:?})"));
                    break;
                }
                Some(s) if s.at_ns != want => {
                    out.viol(format!("request {i}: head arrived at {th:?}, connection free at {ready}, but served at {}", s.at_ns));
                    break;
                }
                _ => {}
            }
            served += 1;
            let g = st.seen[i].got.lock().unwrap();
            if !g.clean() || g.data.len() != qs[i].body {
                out.viol(format!("request {i}: body {} of {} ({:?}; connection {end:?})", g.data.len(), qs[i].body, g.err));
                break;
            }
            match resp.get(i) {
                Some(m) if m.complete && m.body == plans[i].resp.script.data() => {
                    let acc = accepted(m.end).unwrap_or(u64::MAX);
                    ready = acc.max(sent[i].1);
                }
                m => {
                    out.viol(format!("request {i}: response not written completely: {:?} ({end:?})", m.map(|m| m.body.len())));
                    break;
                }
            }
        }
        if out.violations.is_empty() {
            if expect_timeout.is_none() {
                expect_timeout = t.map(|t| ready + t);
            }
            if st.seen.len() > served {
                out.viol(format!("{} requests served, {served} heads were in time", st.seen.len()));
            }
            let closed = *closed_at.lock().unwrap();
            match (expect_timeout, closed) {
                (Some(at), c) if c.is_none() || c.unwrap() > at => {
                    out.count("timeouts", 1);
                    if !end.done || !end.is_timeout || end.at_ns != at {
                        out.viol(format!("head due at {at} did not arrive, but the connection was: {end:?}"));
                    }
                }
                (_, Some(c)) => {
                    if !end.done || end.is_timeout || !end.ok {
                        out.viol(format!("peer closed an idle connection in time (at {c}, due {expect_timeout:?}), but: {end:?}"));
                    }
                }
                _ => {
                    out.count("no_limit", 1);
                    if end.done {
                        out.viol(format!("connection without a limit ended: {end:?}"));
                    }
                }
            }
        }
        out.count("requests_in_time", served as u64);
    }
    out.count("heads_judged", judged);
    out.count("events", sim.st(|s| s.events));
    out.nontrivial = judged > 0;
    out.sig = mix(sim.st(|s| s.hash), fnv(&wire.sent_by_a()));
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}
