//! C05: the client reads each response exactly and pairs it with its request. (Also C30's interim responses.)
use crate::body::*;
use crate::cli::*;
use crate::h1gen::*;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::run::tame;
use crate::sim::*;
use crate::util::*;
use http::Version;
use std::sync::{Arc, Mutex};

pub const CHECK: Check = Check {
    id: "C05",
    level: "exploration",
    rule: "a case is one client connection with 1-5 requests answered by generated valid responses (with interim responses and, in some cases, stray bytes between exchanges) under random segmentation; distinct = distinct (response bytes, schedule) with at least one response compared",
    quick: 60_000,
    thorough: 2_000_000,
    run: case5,
    assumptions: &["response heads stay below the configured limits", "stray bytes count as unsolicited only once they have arrived before the next request is submitted"],
};
pub const CHECK30: Check = Check {
    id: "C30",
    level: "exploration",
    rule: "a case is one client connection whose 1-5 requests get 0-4 interim responses each, at random moments of request sending, with and without callbacks; distinct = distinct (response bytes, schedule) with at least one interim response on the wire",
    quick: 50_000,
    thorough: 1_500_000,
    run: case30,
    assumptions: &["101 is not an interim response here"],
};
fn case5(ctx: &Ctx) -> CaseOut {
    if ctx.seed % 25 == 7 {
        return case09(ctx);
    }
    case(ctx, false)
}
/// Something that is no HTTP/1 response at all is an HTTP/0.9 one where those are tolerated and it is the
/// first thing received, and otherwise an error.
fn case09(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = CliCfg::gen(&mut r);
    cfg.h09 = r.pct(75);
    let before = *r.pick(&[0usize, 0, 1, 1, 2]);
    let k = r.range(1, 3000);
    let mut odd = r.body(k);
    odd[0] = *r.pick(b"Bb<{8");
    let io = |r: &mut Rng| {
        let mut c = IoCfg::gen(r);
        c.late_flush = false;
        c.cap = 70_000;
        c
    };
    let (ioa, iob) = (io(&mut r), io(&mut r));
    let (a, b, _w) = pipe(&sim, ioa, iob);
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let (mut tx, _end) = connect_h1(&mut ex, &cfg, a);
    let xs: Vec<ExRef> = (0..before + 1).map(|_| Default::default()).collect();
    {
        let p = Peer::new(b);
        let odd = odd.clone();
        let cut = if r.pct(50) { odd.len() } else { r.range(1, odd.len()) };
        let sim = sim.clone();
        ex.spawn("peer", async move {
            let mut buf = vec![];
            for i in 0..=before {
                loop {
                    if matches!(refh1::request(&buf, 0), refh1::P::Ok(_)) {
                        break;
                    }
                    match p.recv(10_000).await {
                        Ok(v) if !v.is_empty() => buf.extend(v),
                        _ => return,
                    }
                }
                buf.clear();
                if i < before {
                    let _ = p.send(b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc").await;
                } else {
                    let _ = p.send(&odd[..cut]).await;
                    sim.yields(5).await;
                    let _ = p.send(&odd[cut..]).await;
                    p.close_write();
                }
            }
        });
    }
    {
        let (sim, xs) = (sim.clone(), xs.clone());
        ex.spawn("caller", async move {
            for (i, x) in xs.iter().enumerate() {
                exchange(&sim, &mut tx, &ReqSpec::get(&format!("/r{i}")), x, CRead::All, 0, false).await;
            }
            std::future::pending::<()>().await;
        });
    }
    let e = ex.run();
    if let End::Spin(t) = &e {
        out.viol(format!("task {t} spins without progress"));
    }
    for (i, x) in xs.iter().enumerate() {
        let g = x.lock().unwrap();
        let got = g.got.lock().unwrap();
        if i < before {
            if g.status != Some(200) || g.version != Some(Version::HTTP_11) || got.data != b"abc" {
                out.viol(format!("response {i}: status {:?} version {:?} err {:?}", g.status, g.version, g.err.as_ref().map(|e| e.dbg.clone())));
            }
        } else if cfg.h09 && before == 0 {
            if g.status != Some(200) || g.version != Some(Version::HTTP_09) || !g.headers.is_empty() || !got.clean() || got.data != odd {
                out.viol(format!(
                    "an HTTP/0.9 response of {} bytes: status {:?} version {:?} {} header fields, {} body bytes, clean {}, err {:?}",
                    odd.len(), g.status, g.version, g.headers.len(), got.data.len(), got.clean(), g.err.as_ref().map(|e| e.dbg.clone())
                ));
            }
        } else if g.status.is_some() || !g.err.as_ref().is_some_and(|e| e.facts.is("parse")) {
            out.viol(format!(
                "no HTTP response (tolerated: {}, {before} responses before it) was not refused: status {:?} version {:?} err {:?}",
                cfg.h09, g.status, g.version, g.err.as_ref().map(|e| e.dbg.clone())
            ));
        }
    }
    out.nontrivial = true;
    out.count("http/0.9 or refused", 1);
    out.sig = mix(sim.st(|s| s.hash), crate::util::fnv(&odd));
    if ctx.trace || !out.violations.is_empty() {
        out.desc = Some(format!("{cfg:?} {before} responses, then {}", show(&odd)));
        out.trace = sim.take_log();
    }
    out
}
fn case30(ctx: &Ctx) -> CaseOut {
    case(ctx, true)
}

fn case(ctx: &Ctx, interim_focus: bool) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = CliCfg::gen(&mut r);
    let mh = cfg.max_headers.unwrap_or(100);
    let n = *r.pick(&[1usize, 1, 2, 3, 5]);
    let maxb = if interim_focus { 300 } else { *r.pick(&[0usize, 60, 3000, 30_000, 200_000]) };
    let mut specs = vec![];
    let mut msgs = vec![];
    let mut interims: Vec<Vec<(u16, Hs, Vec<u8>)>> = vec![];
    for i in 0..n {
        let method = r.pick(&["GET", "GET", "POST", "HEAD", "PUT", "OPTIONS", "DELETE"]).to_string();
        let mut s = ReqSpec::get(&format!("/r{i}"));
        s.method = method.clone();
        if method == "POST" || method == "PUT" {
            let k = r.size(if interim_focus { 3000 } else { 2000 });
            s.script = Script::gen(&mut r, k);
            if interim_focus && r.pct(50) {
                s.headers.push(("expect".into(), b"100-continue".to_vec()));
            }
        }
        s.informational = r.pct(60);
        let last = i + 1 == n;
        let last_msg = last && r.pct(50);
        let m = gen_response(&mut r, &RespOpt { method, max_body: maxb, last: last_msg, max_headers: mh });
        let k = if interim_focus { r.range(0, 4) } else { *r.pick(&[0usize, 0, 0, 1, 2]) };
        interims.push((0..k).map(|_| gen_interim(&mut r)).collect());
        specs.push(s);
        msgs.push(m);
    }
    let lim = cfg.max_buf.or(cfg.exact_buf).unwrap_or(400_000);
    if msgs.iter().any(|m| m.head_len + 8 >= lim) || interims.iter().flatten().any(|i| i.2.len() + 8 >= lim) {
        cfg.max_buf = None;
        cfg.exact_buf = None;
    }
    // when the server answers: after the whole request, after its head, or somewhere between
    let early: Vec<u32> = (0..n).map(|_| *r.pick(&[0, 0, 1, 2])).collect();
    // stray bytes after response i (fully arrived before the next request is sent)
    let stray_at = if !interim_focus && n > 1 && r.pct(20) { Some(r.below(n - 1)) } else { None };
    let stray_first = !interim_focus && stray_at.is_none() && r.pct(5);
    let stray: Vec<u8> = r.pick(&[&b"HTTP/1.1 200 OK\r\ncontent-length: 5\r\n\r\nstray"[..], b"x", b"\r\n\r\n", b"HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 299 stray\r\ncontent-length: 0\r\n\r\n"]).to_vec();
    let mut ioa = IoCfg::gen(&mut r);
    let mut iob = IoCfg::gen(&mut r);
    // hyper may take a peer that leaves before a flush has finished for one that did not get everything.
    (ioa.late_flush, iob.late_flush) = (false, false);
    tame(&mut r, &mut ioa, &mut iob, msgs.iter().map(|m| m.wire.len()).sum::<usize>() + 4000);
    let desc = format!(
        "{:?}; stray {:?} first {}; [{}]",
        cfg,
        stray_at,
        stray_first,
        msgs.iter().zip(&specs).zip(&interims).map(|((m, s), i)| format!("{} info={} {:?} -> {} 1xx, {} 1.{} {:?} body={} tr={}", s.method, s.informational, s.script.hint, i.len(), m.status, m.minor, m.kind, m.body.len(), m.trailers.len())).collect::<Vec<_>>().join("; ")
    );
    let (client_io, server_io, wire) = pipe(&sim, ioa, iob);
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 0, 10]);
    let (mut tx, end) = connect_h1(&mut ex, &cfg, client_io);
    let peer = Peer::new(server_io);
    // raw server: parse requests, answer in order
    let rx: RecvRef = Default::default();
    let heads = Count::default();
    let done = Count::default();
    {
        let (p, rx, heads, done) = (peer.clone(), rx.clone(), heads.clone(), done.clone());
        ex.spawn("raw-read", async move {
            let (mut pos, mut k) = (0, 0);
            read_all(p, rx, 1 << 16, |rv| loop {
                match refh1::request(&rv.data, pos) {
                    refh1::P::Ok(m) => {
                        heads.set(k + 1);
                        if m.complete {
                            pos = m.end;
                            k += 1;
                            done.set(k);
                            continue;
                        }
                        break;
                    }
                    _ => break,
                }
            })
            .await
        });
    }
    {
        let (p, heads, done, sim2, msgs, interims, stray) = (peer.clone(), heads.clone(), done.clone(), sim.clone(), msgs.clone(), interims.clone(), stray.clone());
        let early = early.clone();
        ex.spawn("raw-write", async move {
            if stray_first && p.send(&stray).await.is_err() {
                return;
            }
            for (i, m) in msgs.iter().enumerate() {
                heads.at_least(i + 1).await;
                let mut parts: Vec<Vec<u8>> = interims[i].iter().map(|x| x.2.clone()).collect();
                let mut fin = m.wire.clone();
                if stray_at == Some(i) {
                    fin.extend_from_slice(&stray);
                }
                parts.push(fin);
                let k = parts.len();
                // glue some of them together
                let mut glued: Vec<Vec<u8>> = vec![];
                let mut wait_before: Vec<bool> = vec![];
                for (j, q) in parts.into_iter().enumerate() {
                    let must_split = j + 1 == k && early[i] == 0;
                    if !glued.is_empty() && !must_split && sim2.pct(50) {
                        glued.last_mut().unwrap().extend_from_slice(&q);
                    } else {
                        glued.push(q);
                        wait_before.push(must_split);
                    }
                }
                for (q, w) in glued.iter().zip(wait_before) {
                    if w {
                        done.at_least(i + 1).await;
                    }
                    let mut off = 0;
                    while off < q.len() {
                        let k = sim2.rng(|r| if r.pct(50) { q.len() - off } else { r.range(1, q.len() - off) });
                        if p.send(&q[off..off + k]).await.is_err() {
                            return;
                        }
                        off += k;
                        let y = sim2.rng(|r| r.range(0, 5));
                        sim2.yields(y).await;
                    }
                }
                if m.uses_close {
                    done.at_least(i + 1).await;
                    let _ = p.close_write().await;
                }
            }
        });
    }
    let xs: Vec<ExRef> = (0..n).map(|_| Arc::new(Mutex::new(Exchange::default()))).collect();
    {
        let (sim2, xs, specs) = (sim.clone(), xs.clone(), specs.clone());
        let pace = *r.pick(&[0, 0, 20, 70]);
        let use_try = r.pct(50);
        let keep_going = stray_at.is_some() || stray_first;
        ex.spawn("caller", async move {
            for (i, s) in specs.iter().enumerate() {
                if (stray_first && i == 0) || (i > 0 && stray_at == Some(i - 1)) {
                    // timers only run when nothing else can happen: everything has arrived
                    sim2.sleep(std::time::Duration::from_millis(1)).await;
                } else if let Err(e) = tx.ready().await {
                    let mut g = xs[i].lock().unwrap();
                    g.err = Some(ErrInfo::of(&e));
                    if !keep_going {
                        return;
                    }
                }
                exchange(&sim2, &mut tx, s, &xs[i], CRead::All, pace, use_try).await;
            }
            let y = sim2.rng(|r| r.range(0, 5));
            sim2.yields(y).await;
            drop(tx);
        });
    }
    ex.until = Some(1_000_000_000);
    let e = at_rest(ex.run());
    let end = end.lock().unwrap().clone();
    match &e {
        End::Quiescent => {}
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        x => out.inconclusive = Some(format!("{x:?}")),
    }
    let mut ncomp = 0u64;
    if e == End::Quiescent {
        sim.log(|| format!("at rest; unfinished {:?}; connection {:?}", ex.pending(), end));
        let good = match (stray_first, stray_at) {
            (true, _) => 0,
            (_, Some(k)) => k + 1,
            _ => n,
        };
        for i in 0..n {
            let x = xs[i].lock().unwrap();
            let m = &msgs[i];
            if i >= good {
                // the stray bytes must not have become (part of) a response
                if let Some(s) = x.status {
                    out.viol(format!("request {i} was answered (status {s}) although unsolicited bytes had arrived before it was sent; stray={:?}", show(&stray)));
                } else if x.submitted && x.err.is_none() {
                    out.viol(format!("request {i} never resolved after unsolicited bytes"));
                }
                continue;
            }
            let st = match x.status {
                None => {
                    out.viol(format!("request {i}: no response to a valid answer: {:?} (connection {:?})", x.err, end));
                    continue;
                }
                Some(s) => s,
            };
            ncomp += 1;
            if st != m.status {
                out.viol(format!("response {i}: status {st} instead of {}", m.status));
            }
            let v = if m.minor == 0 { Version::HTTP_10 } else { Version::HTTP_11 };
            if x.version != Some(v) {
                out.viol(format!("response {i}: version {:?} instead of {v:?}", x.version));
            }
            if let Err(e) = same_fields(&m.expect_headers, &x.headers) {
                out.viol(format!("response {i}: {e}"));
            }
            let g = x.got.lock().unwrap();
            if let Some(e) = &g.err {
                out.viol(format!("response {i}: body of a valid message failed: {e}"));
            } else if !g.done {
                out.viol(format!("response {i}: body never ended ({} of {})", g.data.len(), m.body.len()));
            } else if g.data != m.body {
                out.viol(format!("response {i}: body differs (want, got): {}", diff(&m.body, &g.data)));
            }
            if g.clean() {
                if let Err(e) = same_fields(&m.trailers, &g.trailers.clone().unwrap_or_default()) {
                    out.viol(format!("response {i}: trailers: {e}"));
                }
            }
            for o in hint_oddities(&g) {
                out.viol(format!("response {i}: {o}"));
            }
            // interim responses
            let inf = x.infos.lock().unwrap();
            if specs[i].informational {
                let want = &interims[i];
                if inf.len() != want.len() {
                    out.viol(format!("request {i}: {} interim responses on the wire, callback called {} times", want.len(), inf.len()));
                }
                for (k, (a, b)) in inf.iter().zip(want.iter()).enumerate() {
                    if a.0 != b.0 || a.1 != Version::HTTP_11 {
                        out.viol(format!("request {i}: interim {k}: {} {:?} instead of {}", a.0, a.1, b.0));
                    } else if let Err(e) = same_fields(&b.1, &a.2) {
                        out.viol(format!("request {i}: interim {k}: {e}"));
                    }
                }
                if x.infos_before_resp != want.len() {
                    out.viol(format!("request {i}: only {} of {} interim responses came before the response", x.infos_before_resp, want.len()));
                }
                out.count("interim_callbacks", inf.len() as u64);
            } else if !inf.is_empty() {
                out.viol(format!("request {i}: callback called without registration"));
            }
        }
        // requests on the wire are complete unless the server answered early and closed
        if stray_at.is_none() && !stray_first {
            if !end.done {
                out.viol("connection did not end after its last sender was dropped".to_string());
            } else if !end.ok {
                out.viol(format!("connection failed on valid responses: {}", end.err));
            }
            let rx = rx.lock().unwrap();
            let mut pos = 0;
            for (i, s) in specs.iter().enumerate() {
                match refh1::request(&rx.data, pos) {
                    refh1::P::Ok(m) => {
                        pos = m.end;
                        if m.start[1] != s.uri {
                            out.viol(format!("request {i}: target {:?} on the wire", m.start[1]));
                        }
                        if m.complete && m.body != s.script.data() {
                            out.viol(format!("request {i}: body on the wire differs: {}", diff(&s.script.data(), &m.body)));
                        }
                        if !m.complete {
                            if !(msgs[i].uses_close && i + 1 == n) {
                                out.viol(format!("request {i}: incomplete on the wire ({} bytes)", m.body.len()));
                            }
                            break;
                        }
                    }
                    refh1::P::Incomplete => {
                        out.viol(format!("request {i}: head incomplete on the wire"));
                        break;
                    }
                    refh1::P::Err(e) => {
                        out.viol(format!("request {i}: {e}"));
                        break;
                    }
                }
            }
        }
    }
    let nint: usize = interims.iter().map(|i| i.len()).sum();
    out.count("responses", ncomp);
    out.count("interim_on_wire", nint as u64);
    out.count("body_bytes", xs.iter().map(|x| x.lock().unwrap().got.lock().unwrap().data.len() as u64).sum());
    out.count("stray_cases", (stray_first || stray_at.is_some()) as u64);
    out.count("events", sim.st(|s| s.events));
    out.nontrivial = if interim_focus { nint > 0 && ncomp > 0 } else { ncomp > 0 || stray_first };
    out.sig = mix(sim.st(|s| s.hash), fnv(&wire.sent_by_b()));
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}
