//! C09: no stalls, no spins. Virtual time only advances when nothing can run, so any reaction that comes
//! at a later virtual time than its cause was not driven by a wakeup of its own.
use crate::body::*;
use crate::cli::*;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::run::tame;
use crate::sim::*;
use crate::srv::*;
use crate::util::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const CHECK: Check = Check {
    id: "C09",
    level: "exploration",
    rule: "a case steps one server or client connection through isolated events (input pieces, body frames, service completions, reader progress, peer closes), each released only when everything else is at rest, and compares the virtual time of every reaction with its cause; or runs a hyper client against a hyper server to rest; distinct = distinct schedule with at least one timed reaction",
    quick: 60_000,
    thorough: 2_000_000,
    run: case,
    assumptions: &["the transport wakes the task that last saw it not ready"],
};
fn case(ctx: &Ctx) -> CaseOut {
    let mut r = Rng::new(mix(ctx.seed, 9));
    match r.below(10) {
        0..=3 => server_steps(ctx),
        4..=6 => client_steps(ctx),
        _ => e2e(ctx),
    }
}
type Times = Arc<Mutex<Vec<(u64, usize)>>>;
async fn timed_read(sim: Sim, p: Peer, rx: RecvRef, times: Times, each: impl Fn(&Recv)) {
    loop {
        let v = p.recv(1 << 16).await;
        let mut o = rx.lock().unwrap();
        match v {
            Ok(v) if v.is_empty() => o.eof = true,
            Ok(v) => o.data.extend_from_slice(&v),
            Err(e) => o.err = Some(e.to_string()),
        }
        times.lock().unwrap().push((sim.now_ns(), o.data.len()));
        each(&o);
        if o.eof || o.err.is_some() {
            return;
        }
    }
}
/// virtual time at which the first `n` bytes had arrived
fn arrived(t: &Times, n: usize) -> Option<u64> {
    t.lock().unwrap().iter().find(|(_, k)| *k >= n).map(|(t, _)| *t)
}
fn ns(sim: &Sim, n: u64) -> impl std::future::Future<Output = ()> {
    let s = sim.clone();
    async move { s.sleep(Duration::from_nanos(n)).await }
}
fn io(r: &mut Rng) -> IoCfg {
    let mut c = IoCfg::gen(r);
    c.cap = usize::MAX;
    c
}
/// a body whose frames come at known times; returns (script, [(delay before frame, bytes)])
fn timed_script(r: &mut Rng, maxf: usize) -> (Script, Vec<(u64, usize)>) {
    let n = r.range(0, maxf);
    let mut s = Script { steps: vec![], hint: *r.pick(&[Hint::Exact, Hint::Unknown, Hint::Lower, Hint::Upper]), eager_eos: r.pct(50) };
    let mut f = vec![];
    for _ in 0..n {
        let d = if r.pct(70) { r.range(1, 5000) as u64 } else { 0 };
        if d > 0 {
            s.steps.push(Step::Sleep(d));
        }
        if r.pct(20) {
            s.steps.push(Step::Pend(1));
        }
        let k = *r.pick(&[1usize, 2, 15, 16, 17, 300, 5000, 9000]);
        s.steps.push(Step::Data(r.body(k)));
        f.push((d, k));
    }
    if n > 0 && r.pct(20) {
        s.steps.push(Step::Sleep(700));
        f.push((700, 0));
    }
    (s, f)
}
/// wire offsets (relative to the message start) at which the cumulative body bytes are complete
fn body_ends(m: &refh1::Msg, start: usize, frames: &[(u64, usize)]) -> Vec<usize> {
    let mut v = vec![];
    let mut cum = 0;
    for (_, k) in frames {
        cum += k;
        let at = match m.framing {
            refh1::Framing::Chunked => {
                let (mut off, mut got) = (m.head_end, 0);
                for c in &m.chunks {
                    if got >= cum {
                        break;
                    }
                    off += format!("{c:X}").len() + 4 + c;
                    got += c;
                }
                off
            }
            _ => m.head_end + cum,
        };
        v.push(at);
    }
    let _ = start;
    v
}

fn server_steps(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = SrvCfg::gen(&mut r);
    cfg.pipeline_flush = false; // delays what these checks time
    cfg.max_headers = None;
    cfg.max_buf = None;
    cfg.header_timeout = Some(None);
    // a burst: many small requests, all there at once
    let burst = r.pct(10);
    let quiet = burst && r.pct(70);
    let n = if burst { r.range(10, 60) } else { r.range(1, 4) };
    let lock = r.pct(40) && !burst;
    struct Q {
        pieces: Vec<(u64, Vec<u8>)>,
        head_len: usize,
        sleep: u64,
        frames: Vec<(u64, usize)>,
        body: usize,
    }
    let mut qs: Vec<Q> = vec![];
    let mut plans = vec![];
    for i in 0..n {
        let k = if r.pct(50) || burst { 0 } else { *r.pick(&[1usize, 3, 20, 500, 9000]) };
        let body = r.body(k);
        let mut w = format!("{} /{i} HTTP/1.1\r\nHost: a\r\n", if k > 0 { "POST" } else { "GET" }).into_bytes();
        let mut head_len = 0;
        let chunked = k > 0 && r.pct(50);
        let last = i + 1 == n;
        if last && r.pct(30) {
            w.extend_from_slice(b"Connection: close\r\n");
        }
        if chunked {
            w.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            head_len += w.len();
            let cut = r.range(1, k);
            w.extend_from_slice(format!("{:x}\r\n", cut).as_bytes());
            w.extend_from_slice(&body[..cut]);
            if cut < k {
                w.extend_from_slice(format!("\r\n{:x}\r\n", k - cut).as_bytes());
                w.extend_from_slice(&body[cut..]);
            }
            w.extend_from_slice(b"\r\n0\r\n\r\n");
        } else if k > 0 {
            w.extend_from_slice(format!("Content-Length: {k}\r\n\r\n").as_bytes());
            head_len += w.len();
            w.extend_from_slice(&body);
        } else {
            w.extend_from_slice(b"\r\n");
            head_len += w.len();
        }
        let mut pieces = vec![];
        let mut off = 0;
        while off < w.len() {
            let k = match r.below(4) {
                _ if burst => w.len() - off,
                0 => w.len() - off,
                1 => 1,
                2 => head_len.saturating_sub(off).max(1).min(w.len() - off),
                _ => r.range(1, w.len() - off),
            };
            let k = if pieces.len() > 12 { w.len() - off } else { k };
            let d = if r.pct(60) && !burst { r.range(1, 5000) as u64 } else { 0 };
            pieces.push((d, w[off..off + k].to_vec()));
            off += k;
        }
        let (script, frames) = if quiet {
            let k = r.range(1, 40);
            (Script { steps: vec![Step::Data(r.body(k))], hint: Hint::Exact, eager_eos: true }, vec![(0, k)])
        } else {
            timed_script(&mut r, if burst { 1 } else { 4 })
        };
        let sleep = if !quiet && r.pct(if burst { 5 } else { 50 }) { r.range(1, 9000) as u64 } else { 0 };
        let mut p = Plan::simple(RespSpec::ok(b""));
        p.resp.script = script;
        p.sleep_ns = sleep;
        p.read = ReadPlan::All;
        p.delay = if quiet { 0 } else { *r.pick(&[0, 0, 1]) };
        plans.push(p);
        qs.push(Q { pieces, head_len, sleep, frames, body: k });
    }
    let methods: Vec<String> = qs.iter().map(|q| if q.body > 0 { "POST".into() } else { "GET".into() }).collect();
    let (mut ioa, mut iob) = (io(&mut r), io(&mut r));
    tame(&mut r, &mut ioa, &mut iob, 50_000);
    let close = r.below(4); // 0 keep open, 1 half-close at the end, 2 drop at the end, 3 close later
    let desc = format!("server steps: {} requests, lockstep {lock}, close {close}; {:?}", n, cfg);
    let (server_io, client_io, wire) = pipe(&sim, ioa, iob);
    let mut ex = Exec::new(&sim);
    let half = cfg.half_close;
    let svc = Svc::new(&ex, plans);
    let st = svc.st.clone();
    let end = serve_h1(&mut ex, &cfg, server_io, svc, Gate::default());
    let peer = Peer::new(client_io);
    let (rx, times) = (RecvRef::default(), Times::default());
    let nresp = Count::default();
    {
        let (s, p, rx, t, nr, ms) = (sim.clone(), peer.clone(), rx.clone(), times.clone(), nresp.clone(), methods.clone());
        ex.spawn("client-read", async move {
            timed_read(s, p, rx, t, |rv| {
                let (ms2, _) = refh1::responses(&rv.data, &ms, rv.eof);
                nr.set(ms2.iter().filter(|m| m.complete).count());
            })
            .await
        });
    }
    // (time head complete, time message complete) and the time of the close
    let sent_at: Arc<Mutex<Vec<(u64, u64)>>> = Default::default();
    let closed_at: Arc<Mutex<Option<u64>>> = Default::default();
    {
        let (s, p, sent, nr, closed_at) = (sim.clone(), peer.clone(), sent_at.clone(), nresp.clone(), closed_at.clone());
        let pieces: Vec<(Vec<(u64, Vec<u8>)>, usize)> = qs.iter().map(|q| (q.pieces.clone(), q.head_len)).collect();
        ex.spawn("client-write", async move {
            for (i, (ps, hl)) in pieces.iter().enumerate() {
                if lock {
                    nr.at_least(i).await;
                }
                let (mut off, mut th) = (0, None);
                for (d, b) in ps {
                    if *d > 0 {
                        ns(&s, *d).await;
                    }
                    if p.send(b).await.is_err() {
                        return;
                    }
                    off += b.len();
                    if off >= *hl && th.is_none() {
                        th = Some(s.now_ns());
                    }
                }
                sent.lock().unwrap().push((th.unwrap_or(0), s.now_ns()));
            }
            match close {
                0 => return,
                1 | 2 => {
                    nr.at_least(pieces.len()).await;
                }
                _ => {
                    nr.at_least(pieces.len()).await;
                    ns(&s, 3000).await;
                }
            }
            *closed_at.lock().unwrap() = Some(s.now_ns());
            if close == 2 {
                p.drop_io();
            } else {
                let _ = p.close_write().await;
            }
        });
    }
    let _ = half;
    ex.until = Some(1_000_000_000);
    let e = at_rest(ex.run());
    let end = end.lock().unwrap().clone();
    match &e {
        End::Quiescent => {}
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        x => out.inconclusive = Some(format!("{x:?}")),
    }
    let mut timed = 0u64;
    if e == End::Quiescent {
        let st = st.lock().unwrap();
        let rx = rx.lock().unwrap();
        let sent = sent_at.lock().unwrap();
        if st.seen.len() != n {
            out.viol(format!("{} of {n} requests served at rest (connection {:?}, unfinished {:?})", st.seen.len(), end, ex.pending()));
        }
        let (resp, err) = refh1::responses(&rx.data, &methods, rx.eof);
        if let Some(e) = err {
            out.viol(format!("unparsable output: {e}"));
        }
        let mut ready = 0u64;
        let mut start = 0;
        let mut last_done = 0;
        for i in 0..n {
            let (Some(s), Some((th, tb))) = (st.seen.get(i), sent.get(i)) else { break };
            let want = ready.max(*th);
            timed += 1;
            if s.at_ns != want {
                out.viol(format!("request {i}: head complete at {th} ns, connection free at {ready} ns, but the service was called at {} ns", s.at_ns));
                break;
            }
            let g = s.got.lock().unwrap();
            if !g.clean() || g.data.len() != qs[i].body {
                out.viol(format!("request {i}: body read {} of {} ({:?})", g.data.len(), qs[i].body, g.err));
            }
            let mut t = want.max(*tb) + qs[i].sleep;
            let Some(m) = resp.get(i) else {
                out.viol(format!("response {i} missing at rest (connection {:?})", end));
                break;
            };
            match arrived(&times, m.head_end) {
                Some(a) if a == t => timed += 1,
                a => {
                    // a head may wait for the first body frame only if that frame is there at once
                    out.viol(format!("response {i}: produced at {t} ns, its head reached the peer at {a:?} ns"));
                    break;
                }
            }
            let ends = body_ends(m, start, &qs[i].frames);
            for (k, ((d, len), at)) in qs[i].frames.iter().zip(ends).enumerate() {
                t += d;
                if *len == 0 {
                    continue;
                }
                match arrived(&times, at) {
                    Some(a) if a == t => timed += 1,
                    a => {
                        out.viol(format!("response {i}: body frame {k} produced at {t} ns reached the peer at {a:?} ns"));
                        break;
                    }
                }
            }
            if !m.complete {
                out.viol(format!("response {i} incomplete at rest"));
                break;
            }
            // the end of a sized body is known with its last byte, otherwise when the body says so
            match arrived(&times, m.end) {
                Some(a) if a <= t => timed += 1,
                _ if m.framing == refh1::Framing::Close => {}
                a => {
                    out.viol(format!("response {i}: finished at {t} ns, its end reached the peer at {a:?} ns"));
                    break;
                }
            }
            // hyper looks for the next request once the body's end has been seen
            ready = arrived(&times, m.end).unwrap_or(t);
            last_done = ready;
            start = m.end;
        }
        if out.violations.is_empty() {
            // the connection ends at the moment that decides it
            let c = closed_at.lock().unwrap();
            let closing = resp.last().map(|m| m.conn_tokens().contains(&"close".to_string())).unwrap_or(false);
            if closing || c.is_some() {
                let want = if closing { last_done } else { c.unwrap().max(last_done) };
                if !end.done {
                    out.viol(format!("connection still open at rest although it was decided to end at {want} ns"));
                } else if end.at_ns != want && !(closing && close == 2) {
                    out.viol(format!("connection was decided to end at {want} ns but ended at {} ns", end.at_ns));
                }
                timed += 1;
            } else if end.done {
                out.viol(format!("connection ended without a reason: {:?}", end));
            }
        }
    }
    out.count("timed_reactions", timed);
    out.count("events", sim.st(|s| s.events));
    out.nontrivial = timed > 0;
    out.sig = mix(sim.st(|s| s.hash), fnv(&wire.sent_by_a()));
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}
fn client_steps(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = CliCfg::gen(&mut r);
    cfg.h09 = false;
    cfg.max_headers = None;
    cfg.max_buf = None;
    cfg.exact_buf = None;
    let n = r.range(1, 4);
    let mut specs = vec![];
    let mut frames = vec![];
    let mut resps: Vec<Vec<(u64, Vec<u8>)>> = vec![];
    let mut heads = vec![];
    let mut bodies = vec![];
    for i in 0..n {
        let mut s = ReqSpec::get(&format!("/{i}"));
        let (sc, f) = timed_script(&mut r, 4);
        if r.pct(60) {
            s.method = "POST".into();
            s.script = sc;
            frames.push(f);
        } else {
            frames.push(vec![]);
        }
        specs.push(s);
        let k = *r.pick(&[0usize, 1, 5, 300, 9000]);
        let body = r.body(k);
        let mut w = vec![];
        let close = i + 1 == n && r.pct(25);
        let hd;
        match r.below(3) {
            0 => {
                w.extend_from_slice(b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n");
                hd = w.len();
                if k > 0 {
                    w.extend_from_slice(format!("{k:x}\r\n").as_bytes());
                    w.extend_from_slice(&body);
                    w.extend_from_slice(b"\r\n");
                }
                w.extend_from_slice(b"0\r\n\r\n");
            }
            1 if close => {
                w.extend_from_slice(b"HTTP/1.1 200 OK\r\n\r\n");
                hd = w.len();
                w.extend_from_slice(&body);
            }
            _ => {
                w.extend_from_slice(format!("HTTP/1.1 200 OK\r\ncontent-length: {k}\r\n{}\r\n", if close { "connection: close\r\n" } else { "" }).as_bytes());
                hd = w.len();
                w.extend_from_slice(&body);
            }
        }
        let mut pieces = vec![];
        let mut off = 0;
        while off < w.len() {
            let k = match r.below(4) {
                0 => w.len() - off,
                1 => 1,
                2 => (hd.saturating_sub(off)).max(1).min(w.len() - off),
                _ => r.range(1, w.len() - off),
            };
            let k = if pieces.len() > 12 { w.len() - off } else { k };
            pieces.push((if r.pct(60) { r.range(1, 5000) as u64 } else { 0 }, w[off..off + k].to_vec()));
            off += k;
        }
        if close {
            // marks the close
            pieces.push((r.range(0, 3000) as u64, vec![]));
        }
        resps.push(pieces);
        heads.push(hd);
        bodies.push(body);
    }
    let (mut ioa, mut iob) = (io(&mut r), io(&mut r));
    tame(&mut r, &mut ioa, &mut iob, 50_000);
    let desc = format!("client steps: [{}]; {:?}", specs.iter().map(|s| format!("{} {}", s.method, s.script.len())).collect::<Vec<_>>().join(", "), cfg);
    let (client_io, server_io, wire) = pipe(&sim, ioa, iob);
    let mut ex = Exec::new(&sim);
    let (mut tx, end) = connect_h1(&mut ex, &cfg, client_io);
    let peer = Peer::new(server_io);
    let (rx, times) = (RecvRef::default(), Times::default());
    let done = Count::default();
    {
        let (s, p, rx, t, done) = (sim.clone(), peer.clone(), rx.clone(), times.clone(), done.clone());
        ex.spawn("raw-read", async move {
            timed_read(s, p, rx, t, |rv| {
                let (mut pos, mut k) = (0, 0);
                while let refh1::P::Ok(m) = refh1::request(&rv.data, pos) {
                    if !m.complete {
                        break;
                    }
                    pos = m.end;
                    k += 1;
                }
                done.set(k);
            })
            .await
        });
    }
    // per response: (head arrived, everything arrived incl. close)
    let sent_at: Arc<Mutex<Vec<(u64, u64)>>> = Default::default();
    {
        let (s, p, sent, done, heads) = (sim.clone(), peer.clone(), sent_at.clone(), done.clone(), heads.clone());
        ex.spawn("raw-write", async move {
            for (i, ps) in resps.iter().enumerate() {
                done.at_least(i + 1).await;
                let (mut off, mut th) = (0, None);
                for (d, b) in ps {
                    if *d > 0 {
                        ns(&s, *d).await;
                    }
                    if b.is_empty() {
                        let _ = p.close_write().await;
                    } else if p.send(b).await.is_err() {
                        return;
                    }
                    off += b.len();
                    if off >= heads[i] && th.is_none() {
                        th = Some(s.now_ns());
                    }
                }
                sent.lock().unwrap().push((th.unwrap_or(0), s.now_ns()));
            }
        });
    }
    let xs: Vec<ExRef> = (0..n).map(|_| Arc::new(Mutex::new(Exchange::default()))).collect();
    let ats: Arc<Mutex<Vec<(u64, u64)>>> = Default::default();
    let dropped_at: Arc<Mutex<u64>> = Default::default();
    {
        let (sim2, xs, specs, ats, dropped_at) = (sim.clone(), xs.clone(), specs.clone(), ats.clone(), dropped_at.clone());
        let pauses: Vec<u64> = (0..=n).map(|_| if r.pct(50) { r.range(1, 4000) as u64 } else { 0 }).collect();
        let use_try = r.pct(50);
        ex.spawn("caller", async move {
            for (i, s) in specs.iter().enumerate() {
                if pauses[i] > 0 {
                    ns(&sim2, pauses[i]).await;
                }
                if tx.ready().await.is_err() {
                    return;
                }
                let t0 = sim2.now_ns();
                exchange(&sim2, &mut tx, s, &xs[i], CRead::All, 0, use_try).await;
                ats.lock().unwrap().push((t0, sim2.now_ns()));
            }
            if pauses[n] > 0 {
                ns(&sim2, pauses[n]).await;
            }
            *dropped_at.lock().unwrap() = sim2.now_ns();
            drop(tx);
        });
    }
    ex.until = Some(1_000_000_000);
    let e = at_rest(ex.run());
    let end = end.lock().unwrap().clone();
    match &e {
        End::Quiescent => {}
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        x => out.inconclusive = Some(format!("{x:?}")),
    }
    let mut timed = 0;
    if e == End::Quiescent {
        let rx = rx.lock().unwrap();
        let (sent, ats) = (sent_at.lock().unwrap(), ats.lock().unwrap());
        let mut pos = 0;
        for i in 0..n {
            let x = xs[i].lock().unwrap();
            let Some((t0, t1)) = ats.get(i).cloned() else {
                out.viol(format!("request {i} unfinished at rest: submitted {} status {:?} err {:?} (connection {:?})", x.submitted, x.status, x.err, end));
                break;
            };
            let refh1::P::Ok(m) = refh1::request(&rx.data, pos) else {
                out.viol(format!("request {i} not on the wire"));
                break;
            };
            let mut t = t0;
            match arrived(&times, m.head_end) {
                Some(a) if a == t => timed += 1,
                a => out.viol(format!("request {i}: submitted at {t} ns, its head reached the peer at {a:?} ns")),
            }
            for (k, ((d, len), at)) in frames[i].iter().zip(body_ends(&m, pos, &frames[i])).enumerate() {
                t += d;
                match arrived(&times, at) {
                    Some(a) if a == t || *len == 0 => timed += 1,
                    a => out.viol(format!("request {i}: body frame {k} produced at {t} ns reached the peer at {a:?} ns")),
                }
            }
            match arrived(&times, m.end) {
                Some(a) if m.complete && a <= t => timed += 1,
                a => out.viol(format!("request {i}: finished at {t} ns, its end reached the peer at {a:?} ns")),
            }
            let Some((th, te)) = sent.get(i).cloned() else { break };
            if x.at_ns != th {
                out.viol(format!("response {i}: head complete at {th} ns, the caller got it at {} ns ({:?})", x.at_ns, x.err));
            }
            let g = x.got.lock().unwrap();
            if !g.clean() || g.data != bodies[i] {
                out.viol(format!("response {i}: body {} of {} ({:?})", g.data.len(), bodies[i].len(), g.err));
            }
            if t1 > te {
                out.viol(format!("response {i}: complete at {te} ns, its reader finished at {t1} ns"));
            }
            timed += 2;
            pos = m.end;
            if !out.violations.is_empty() {
                break;
            }
        }
        if out.violations.is_empty() {
            let da = *dropped_at.lock().unwrap();
            if !end.done || !end.ok {
                out.viol(format!("connection after its last sender was dropped: {:?}", end));
            } else if end.at_ns > da {
                // an answered request whose body is still being produced holds the connection
                let last_t: u64 = ats[n - 1].0 + frames[n - 1].iter().map(|f| f.0).sum::<u64>();
                if end.at_ns > da.max(last_t).max(sent.last().map(|s| s.1).unwrap_or(0)) {
                    out.viol(format!("last sender dropped at {da} ns, connection ended at {} ns", end.at_ns));
                }
            }
        }
    }
    out.count("timed_reactions", timed);
    out.count("events", sim.st(|s| s.events));
    out.nontrivial = timed > 0;
    out.sig = mix(sim.st(|s| s.hash), fnv(&wire.sent_by_a()));
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}

/// hyper client against hyper server: everything must come to its end.
fn e2e(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut ccfg = CliCfg::gen(&mut r);
    ccfg.max_headers = None;
    ccfg.exact_buf = None;
    ccfg.h09 = false;
    let mut scfg = SrvCfg::gen(&mut r);
    scfg.pipeline_flush = false; // delays what these checks time
    scfg.header_timeout = Some(None);
    scfg.max_headers = None;
    let n = r.range(1, 5);
    let maxb = *r.pick(&[0usize, 100, 5000, 60_000, 300_000]);
    let mut specs = vec![];
    let mut plans = vec![];
    let mut bytes = 2000;
    for i in 0..n {
        let mut s = ReqSpec::get(&format!("/{i}"));
        if r.pct(60) {
            s.method = "POST".into();
            let k = r.size(maxb);
            s.script = Script::gen(&mut r, k);
            sprinkle(&mut r, &mut s.script);
        }
        bytes += s.script.len();
        specs.push(s);
        let k = r.size(maxb);
        let mut p = Plan::simple(RespSpec::ok(b""));
        p.resp.script = Script::gen(&mut r, k);
        sprinkle(&mut r, &mut p.resp.script);
        bytes += k;
        p.delay = *r.pick(&[0, 0, 3]);
        p.sleep_ns = *r.pick(&[0, 0, 3000]);
        p.pace = *r.pick(&[0, 20, 70]);
        p.read = match r.below(5) {
            0 => ReadPlan::Concurrent,
            1 => ReadPlan::AfterRespond,
            _ => ReadPlan::All,
        };
        plans.push(p);
    }
    let mut ioa = IoCfg::gen(&mut r);
    let mut iob = IoCfg::gen(&mut r);
    // hyper may take a peer that leaves before a flush has finished for one that did not get everything.
    (ioa.late_flush, iob.late_flush) = (false, false);
    tame(&mut r, &mut ioa, &mut iob, bytes);
    let desc = format!("client against server: {n} exchanges, up to {maxb} bytes; {:?}; {:?}; {:?}", ccfg, scfg, plans.iter().map(|p| format!("{:?}", p.read)).collect::<Vec<_>>());
    let (client_io, server_io, wire) = pipe(&sim, ioa, iob);
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 10]);
    let svc = Svc::new(&ex, plans.clone());
    let st = svc.st.clone();
    let send = serve_h1(&mut ex, &scfg, server_io, svc, Gate::default());
    let (mut tx, cend) = connect_h1(&mut ex, &ccfg, client_io);
    let xs: Vec<ExRef> = (0..n).map(|_| Arc::new(Mutex::new(Exchange::default()))).collect();
    {
        let (sim2, xs, specs) = (sim.clone(), xs.clone(), specs.clone());
        let pace = *r.pick(&[0, 20, 70]);
        ex.spawn("caller", async move {
            for (i, s) in specs.iter().enumerate() {
                if tx.ready().await.is_err() {
                    return;
                }
                exchange(&sim2, &mut tx, s, &xs[i], CRead::All, pace, false).await;
            }
        });
    }
    ex.until = Some(1_000_000_000);
    let e = at_rest(ex.run());
    match &e {
        End::Quiescent => {}
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        x => out.inconclusive = Some(format!("{x:?}")),
    }
    if e == End::Quiescent {
        let (se, ce) = (send.lock().unwrap().clone(), cend.lock().unwrap().clone());
        let left = ex.pending();
        if !left.is_empty() {
            out.viol(format!("at rest with unfinished tasks {left:?} (server {se:?}, client {ce:?})"));
        }
        let st = st.lock().unwrap();
        for i in 0..n {
            let x = xs[i].lock().unwrap();
            let g = x.got.lock().unwrap();
            if !g.clean() || g.data != plans[i].resp.script.data() {
                out.viol(format!("exchange {i}: response {:?}, body {} of {} ({:?} {:?})", x.status, g.data.len(), plans[i].resp.script.len(), g.err, x.err));
            }
            if let Some(s) = st.seen.get(i) {
                let g = s.got.lock().unwrap();
                if !g.clean() || g.data != specs[i].script.data() {
                    out.viol(format!("exchange {i}: request body {} of {} ({:?})", g.data.len(), specs[i].script.len(), g.err));
                }
            }
        }
        if out.violations.is_empty() && (!se.ok || !ce.ok) {
            out.viol(format!("connections did not end cleanly: server {se:?}, client {ce:?}"));
        }
        out.count("exchanges", n as u64);
        out.nontrivial = true;
    }
    out.count("events", sim.st(|s| s.events));
    out.count("body_bytes", bytes as u64);
    out.sig = mix(sim.st(|s| s.hash), fnv(&wire.sent_by_a()));
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}
/// isolated pauses inside a body
fn sprinkle(r: &mut Rng, s: &mut Script) {
    if r.pct(40) {
        for _ in 0..r.range(1, 3) {
            let at = r.below(s.steps.len() + 1);
            s.steps.insert(at, Step::Sleep(r.range(1, 5000) as u64));
        }
    }
}
