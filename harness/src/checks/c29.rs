//! C29: a fault at every transport operation, and where it is reported.
use super::c06;
use crate::body::*;
use crate::cli::*;
use crate::h1gen::*;
use crate::h2ex::*;
use crate::h2x::*;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::sim::*;
use crate::srv::*;
use crate::util::*;
use std::sync::{Arc, Mutex};

pub const CHECK: Check = Check {
    id: "C29",
    level: "fault_enumeration",
    rule: "a case runs one workload (HTTP/1 server, HTTP/1 client, HTTP/2 pair) undisturbed to count its transport operations, then again with one fault (read error, write error, zero-length write, flush error, shutdown error, or both directions reset at a step) at a uniformly drawn operation; distinct = distinct (schedule, fault) in which the fault was delivered, or the undisturbed run was judged",
    quick: 40_000,
    thorough: 2_000_000,
    run: case,
    assumptions: &["a fault while an already answered request's unread body is being drained may end the connection quietly", "a read error between exchanges counts as the peer going away on the server"],
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Flt {
    Read(u64),
    Write(u64, bool),
    Flush(u64),
    Shutdown,
    Reset(u64),
}
fn draw(r: &mut Rng, st: &IoStats, steps: u64) -> Flt {
    match r.below(12) {
        0..=3 => Flt::Read(r.below(st.read_bytes as usize + 1) as u64),
        4..=7 => Flt::Write(r.below(st.written.max(1) as usize) as u64, r.pct(30)),
        8 | 9 => Flt::Flush(1 + r.below(st.flushes.max(1) as usize) as u64),
        10 => Flt::Shutdown,
        _ => Flt::Reset(r.below(steps as usize + 1) as u64),
    }
}
fn arm(f: Flt, faults: &Arc<Mutex<Faults>>) {
    let mut g = faults.lock().unwrap();
    match f {
        Flt::Read(n) => g.read_at = Some((n, Fault::Err)),
        Flt::Write(n, z) => g.write_at = Some((n, if z { Fault::Zero } else { Fault::Err })),
        Flt::Flush(n) => g.flush_op = Some((n, Fault::Err)),
        Flt::Shutdown => g.shutdown_fault = Some(Fault::Err),
        Flt::Reset(_) => {}
    }
}

fn case(ctx: &Ctx) -> CaseOut {
    let mut r = Rng::new(mix(ctx.seed, 29));
    match r.below(5) {
        0 | 1 => server(ctx),
        2 | 3 => client(ctx),
        _ => pair(ctx),
    }
}
fn settle(e: &End, out: &mut CaseOut) -> bool {
    match e {
        End::Quiescent => true,
        End::Spin(t) => {
            out.viol(format!("task {t} spins without progress"));
            false
        }
        x => {
            out.inconclusive = Some(format!("{x:?}"));
            false
        }
    }
}

// ---------------------------------------------------------------- server
#[derive(Clone, Debug, Default)]
struct SnapS {
    what: &'static str,
    unflushed: usize,
    calls: usize,
    responded: usize,
    read: usize,
    written: usize,
    sent: usize,
}
struct Made {
    sim: Sim,
    ex: Exec,
    st: Started,
    bodies: Vec<Vec<u8>>,
    methods: Vec<String>,
    bodies_in: Vec<Vec<u8>>,
    reads: Vec<String>,
    ends: Vec<(usize, usize)>,
    peer_closes: bool,
    desc: String,
}
fn make(seed: u64, trace: bool) -> Made {
    let mut r = Rng::new(seed);
    let sim = Sim::new(r.next());
    if trace {
        sim.enable_log();
    }
    let mut cfg = SrvCfg::gen(&mut r);
    cfg.max_buf = None;
    cfg.max_headers = None;
    cfg.header_timeout = Some(None);
    let n = *r.pick(&[1usize, 1, 2, 3, 5]);
    let maxb = *r.pick(&[0usize, 60, 3000, 30_000]);
    let (mut reqs, mut methods, mut plans, mut bodies, mut bodies_in, mut ends) = (vec![], vec![], vec![], vec![], vec![], vec![]);
    let mut off = 0;
    for i in 0..n {
        let m = gen_request(&mut r, &ReqOpt { max_body: maxb, close: false, leading_crlf: false, allow_10: i + 1 == n, max_headers: 60 });
        methods.push(m.method.clone());
        ends.push((off + m.head_len, off + m.wire.len()));
        off += m.wire.len();
        bodies_in.push(m.body.clone());
        reqs.push(m.wire);
        let k = r.size(maxb.max(40));
        let mut p = Plan::simple(RespSpec::ok(b""));
        p.resp.script = Script::gen(&mut r, k);
        bodies.push(p.resp.script.data());
        p.delay = *r.pick(&[0, 0, 1, 5, 20]);
        p.pace = *r.pick(&[0, 0, 20, 70]);
        p.read = match r.below(8) {
            0 => ReadPlan::Concurrent,
            1 => ReadPlan::AfterRespond,
            2 => ReadPlan::Never,
            3 => ReadPlan::Partial(1),
            _ => ReadPlan::All,
        };
        plans.push(p);
    }
    let reads: Vec<String> = plans.iter().map(|p| format!("{:?}", p.read)).collect();
    let total: usize = bodies.iter().map(|b| b.len()).sum();
    let mut desc = format!("server, {n} requests, reads {reads:?}; {cfg:?}");
    let mut run = Run::new(&mut r, cfg, reqs, methods.clone(), plans, total);
    run.ioa.late_flush = false;
    run.eof = if r.pct(70) { Eof::AfterResponses } else { Eof::Never };
    let peer_closes = run.eof == Eof::AfterResponses;
    desc += &format!(" {:?} {:?} io {:?} / {:?}", run.send, run.eof, run.ioa, run.iob);
    let mut ex = Exec::new(&sim);
    let st = run.start(&mut ex);
    Made { sim, ex, st, bodies, methods, bodies_in, reads, ends, peer_closes, desc }
}
fn server(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    // undisturbed
    let (stats, steps) = {
        let mut m = make(ctx.seed, false);
        let ran = m.st.finish(&mut m.ex);
        if !settle(&ran.e, &mut out) {
            return out;
        }
        let st = ran.wire.a.lock().unwrap().clone();
        let (resp, err) = ran.responses();
        if let Some(e) = err {
            out.viol(format!("undisturbed: unparsable output: {e}"));
        }
        let seen = ran.st.lock().unwrap();
        for i in 0..seen.seen.len() {
            match resp.get(i) {
                Some(m2) if m2.complete && (m2.body == m.bodies[i] || m.methods[i] == "HEAD") => {}
                x => out.viol(format!("undisturbed: response {i} not wholly written ({:?}; connection {:?})", x.map(|m| m.body.len()), ran.end)),
            }
            if seen.seen[i].body_log.as_ref().map(|l| !l.lock().unwrap().dropped).unwrap_or(false) {
                out.viol(format!("undisturbed: response body {i} not released"));
            }
        }
        if m.peer_closes && ran.all_sent {
            if !ran.end.done || !ran.end.ok {
                // (a response of an abandoned or close-marked request may have ended the connection before all was sent)
                out.viol(format!("undisturbed: every exchange over and the peer closed, but the connection is {:?}", ran.end));
            } else if !st.shutdown_done || !st.dropped {
                out.viol(format!("undisturbed: the connection ended without shutting its transport down ({st:?})"));
            }
            out.count("orderly_ends", 1);
        }
        if st.write_after_shutdown > 0 {
            out.viol("undisturbed: writes after shutdown".to_string());
        }
        (st, m.ex.steps)
    };
    let mut r = Rng::new(mix(ctx.seed, 290));
    let f = draw(&mut r, &stats, steps);
    let mut m = make(ctx.seed, ctx.trace);
    let snap: Arc<Mutex<Option<SnapS>>> = Default::default();
    {
        let (snap, st, wire) = (snap.clone(), m.st.st.clone(), m.st.wire.clone());
        let hook = move |what: &'static str, un: usize| {
            let mut g = snap.lock().unwrap();
            if g.is_some() {
                return;
            }
            let s = st.lock().unwrap();
            let a = wire.a.lock().unwrap();
            *g = Some(SnapS { what, unflushed: un, calls: s.seen.len(), responded: s.seen.iter().filter(|s| s.responded).count(), read: a.read_bytes as usize, written: a.written as usize, sent: 0 });
        };
        let w = m.st.wire.clone();
        w.fa.lock().unwrap().hook = FaultHook(Some(Arc::new(hook)));
        arm(f, &w.fa);
    }
    if let Flt::Reset(at) = f {
        m.ex.max_steps = at;
        m.st.run(&mut m.ex);
        m.st.wire.reset_all();
        m.ex.max_steps = 6_000_000;
    }
    let ran = m.st.finish(&mut m.ex);
    if settle(&ran.e, &mut out) {
        let st = ran.wire.a.lock().unwrap().clone();
        let seen = ran.st.lock().unwrap();
        let snap = snap.lock().unwrap().clone();
        let (resp, err) = ran.responses();
        // (the last head may be cut anywhere)
        if let Some(e) = err.filter(|e| !e.starts_with("incomplete")) {
            out.viol(format!("unparsable output: {e}"));
        }
        let mut body_err = false;
        for (i, s) in seen.seen.iter().enumerate() {
            let g = s.got.lock().unwrap();
            body_err |= g.err.is_some();
            if !m.bodies_in[i].starts_with(&g.data) {
                out.viol(format!("request body {i} has bytes the peer did not send: {}", diff(&m.bodies_in[i], &g.data)));
            }
            if g.clean() && (g.data != m.bodies_in[i] || st.read_bytes < m.ends[i].1 as u64) {
                out.viol(format!("request body {i} was presented as complete after {} of {} bytes ({} of {} bytes read)", g.data.len(), m.bodies_in[i].len(), st.read_bytes, m.ends[i].1));
            }
            if st.faulted && g.started && !g.done && g.err.is_none() && !s.fut_dropped && m.reads[i] != "Partial" {
                out.viol(format!("the reader of request body {i} never learned of the failure"));
            }
            if s.body_log.as_ref().map(|l| !l.lock().unwrap().dropped).unwrap_or(false) && ran.end.done {
                out.viol(format!("response body {i} not released although the connection ended"));
            }
            // a response on the wire is the prefix of the right one
            if let Some(m2) = resp.get(i) {
                if m.methods[i] != "HEAD" && (!m.bodies[i].starts_with(&m2.body) || (m2.complete && !matches!(m2.framing, refh1::Framing::Close) && m2.body != m.bodies[i])) {
                    out.viol(format!("response {i} on the wire differs: {}", diff(&m.bodies[i], &m2.body)));
                }
            }
        }
        if st.faulted {
            if !ran.end.done {
                out.viol(format!("the transport failed ({f:?}, {snap:?}) but the connection did not end; pending {:?}", ran.pending));
            } else if !st.dropped {
                out.viol("the connection ended but its transport was not released".to_string());
            }
        } else if ran.end.done && ran.end.ok && !st.shutdown_done {
            out.viol("the connection ended well without shutting its transport down".to_string());
        }
        if st.write_after_shutdown > 0 || st.write_after_fault > 0 {
            out.viol(format!("{} writes after shutdown, {} after a failed write", st.write_after_shutdown, st.write_after_fault));
        }
        if let Some(sn) = &snap {
            out.nontrivial = true;
            let rec = ran.wire.sent_by_a();
            let (done_then, _) = refh1::responses(&rec[..sn.written.min(rec.len())], &m.methods, false);
            let complete = done_then.iter().filter(|x| x.complete).count();
            let whole = m.ends.iter().filter(|e| e.1 <= sn.read).count();
            let partial = m.ends.get(whole).map(|e| {
                let start = whole.checked_sub(1).map(|i| m.ends[i].1).unwrap_or(0);
                sn.read > start && sn.read < e.1
            }) == Some(true);
            // partly read, and not merely a body nobody wants of a request already answered
            let unwanted = m.reads.get(whole).map(|r| r == "Never" || r == "Partial") == Some(true);
            let partial = partial && !(complete > whole);
            // a body the service has no use for, of a request that is answered in full all the same
            let drained = partial && unwanted && sn.calls == whole + 1 && resp.get(whole).map(|m| m.complete) == Some(true);
            let inprog = (sn.calls > complete || partial || whole > complete) && !drained;
            let must = match f {
                Flt::Write(..) | Flt::Shutdown => true,
                Flt::Flush(_) => sn.unflushed > 0 || inprog,
                _ => inprog,
            };
            out.count(if must { "faults_that_matter" } else { "idle_faults" }, 1);
            out.count(sn.what_key(), 1);
            // a transport that could not be shut down, or one with unwritten output, has nobody else to tell
            let told = !ran.end.ok || (matches!(f, Flt::Read(_)) && body_err);
            if must && ran.end.done && !told {
                out.viol(format!("{f:?} hit with {} of {} responses written ({} calls, {} bytes of requests read, whole {whole}, partial {partial}, {} unflushed) but the connection ended without error", complete, m.ends.len(), sn.calls, sn.read, sn.unflushed));
            }
            if ran.end.done && ran.end.ok {
                for (i, s) in seen.seen.iter().enumerate() {
                    if s.responded && !resp.get(i).map(|m| m.complete).unwrap_or(false) {
                        out.viol(format!("the connection ended without error but response {i} was not wholly written"));
                    }
                }
            }
        } else if st.faulted {
            out.nontrivial = true;
            out.count("resets", 1);
        } else {
            out.nontrivial = m.peer_closes;
            out.count("fault_not_reached", 1);
        }
    }
    out.sig = mix(mix(m.sim.st(|s| s.hash), fnv(format!("{f:?}").as_bytes())), 1);
    out.desc = Some(format!("{f:?}: {}", m.desc));
    out.trace = m.sim.take_log();
    out
}
impl SnapS {
    fn what_key(&self) -> &'static str {
        key(self.what)
    }
}
fn key(w: &str) -> &'static str {
    match w {
        "read" => "read_faults",
        "write" => "write_faults",
        "flush" => "flush_faults",
        _ => "shutdown_faults",
    }
}

// ---------------------------------------------------------------- client
struct Cli {
    sim: Sim,
    ex: Exec,
    wire: Wire,
    end: EndRef,
    xs: Vec<ExRef>,
    rx: RecvRef,
    msgs: Vec<GenMsg>,
    ends: Vec<usize>,
    closes: bool,
    tx_kept: bool,
    desc: String,
}
fn make_cli(seed: u64, trace: bool) -> Cli {
    let mut r = Rng::new(seed);
    let sim = Sim::new(r.next());
    if trace {
        sim.enable_log();
    }
    let mut cfg = CliCfg::gen(&mut r);
    cfg.max_buf = None;
    cfg.exact_buf = None;
    cfg.max_headers = None;
    cfg.h09 = false;
    cfg.obs_fold = false;
    cfg.spaces = false;
    cfg.ignore_invalid = false;
    let n = r.range(1, 4);
    let maxb = *r.pick(&[0usize, 60, 3000, 30_000]);
    let mut specs: Vec<ReqSpec> = (0..n)
        .map(|i| loop {
            let mut s = c06::gen_req(&mut r, maxb, i, false);
            let conn = s.headers.iter().any(|(k, _)| k == "connection");
            if s.method != "CONNECT" && s.version == http::Version::HTTP_11 && !conn {
                s.headers.retain(|(k, _)| k != "expect");
                break s;
            }
        })
        .collect();
    let msgs: Vec<GenMsg> = specs.iter().enumerate().map(|(i, s)| gen_response(&mut r, &RespOpt { method: s.method.clone(), max_body: maxb, last: i + 1 == n, max_headers: 60 })).collect();
    let mut ends = vec![];
    let mut off = 0;
    for m in &msgs {
        off += m.wire.len();
        ends.push(off);
    }
    let bytes = off + specs.iter().map(|s| s.script.len() + 2000).sum::<usize>();
    let early = r.pct(20);
    let mut ioa = IoCfg::gen(&mut r);
    let mut iob = IoCfg::gen(&mut r);
    // hyper may take a peer that leaves before a flush has finished for one that did not get everything.
    (ioa.late_flush, iob.late_flush) = (false, false);
    tame(&mut r, &mut ioa, &mut iob, bytes);
    let desc = format!("client, {n} exchanges, early {early}; {cfg:?} io {ioa:?} / {iob:?}");
    let (client_io, server_io, wire) = pipe(&sim, ioa, iob);
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 0, 10]);
    let (mut tx, end) = connect_h1(&mut ex, &cfg, client_io);
    let peer = Peer::new(server_io);
    let rx: RecvRef = Default::default();
    let (heads, done) = (Count::default(), Count::default());
    {
        let (p, rx, heads, done) = (peer.clone(), rx.clone(), heads.clone(), done.clone());
        ex.spawn("raw-read", async move {
            let (mut pos, mut k) = (0, 0);
            read_all(p, rx, 1 << 16, |rv| loop {
                match refh1::request(&rv.data, pos) {
                    refh1::P::Ok(m) => {
                        heads.set(k + 1);
                        if !m.complete {
                            break;
                        }
                        pos = m.end;
                        k += 1;
                        done.set(k);
                    }
                    _ => break,
                }
            })
            .await
        });
    }
    let last_close = msgs[n - 1].uses_close || msgs[n - 1].kind == BodyKind::Close;
    let closes = last_close || r.pct(60);
    {
        let (p, sim2) = (peer.clone(), sim.clone());
        let outs: Vec<Vec<u8>> = msgs.iter().map(|m| m.wire.clone()).collect();
        ex.spawn("raw-write", async move {
            for (i, q) in outs.iter().enumerate() {
                if early {
                    heads.at_least(i + 1).await;
                } else {
                    done.at_least(i + 1).await;
                }
                let mut off = 0;
                while off < q.len() {
                    let k = sim2.rng(|r| if r.pct(50) { q.len() - off } else { r.range(1, q.len() - off) });
                    if p.send(&q[off..off + k]).await.is_err() {
                        return;
                    }
                    off += k;
                    let y = sim2.rng(|r| r.range(0, 5));
                    sim2.yields(y).await;
                }
            }
            done.at_least(outs.len()).await;
            if closes {
                let _ = p.close_write().await;
            }
        });
    }
    let xs: Vec<ExRef> = (0..n).map(|_| Arc::new(Mutex::new(Exchange::default()))).collect();
    let tx_kept = closes && r.pct(60);
    {
        let (sim2, xs) = (sim.clone(), xs.clone());
        let pace = *r.pick(&[0, 0, 20, 70]);
        let use_try = r.pct(50);
        let specs = std::mem::take(&mut specs);
        ex.spawn("caller", async move {
            for (x, s) in xs.iter().zip(&specs) {
                if tx.ready().await.is_err() {
                    return;
                }
                exchange(&sim2, &mut tx, s, x, CRead::All, pace, use_try).await;
            }
            if tx_kept {
                std::future::pending::<()>().await;
            }
        });
    }
    ex.until = Some(1_000_000_000);
    Cli { sim, ex, wire, end, xs, rx, msgs, ends, closes, tx_kept, desc }
}
#[derive(Clone, Debug, Default)]
struct SnapC {
    what: &'static str,
    unflushed: usize,
    read: usize,
    /// submitted and not over
    open: Option<usize>,
}
fn client(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let (stats, steps) = {
        let mut m = make_cli(ctx.seed, false);
        let e = at_rest(m.ex.run());
        if !settle(&e, &mut out) {
            return out;
        }
        let st = m.wire.a.lock().unwrap().clone();
        let end = m.end.lock().unwrap().clone();
        for (i, x) in m.xs.iter().enumerate() {
            let x = x.lock().unwrap();
            let g = x.got.lock().unwrap();
            if x.err.is_some() || !g.clean() || g.data != m.msgs[i].body {
                out.viol(format!("undisturbed: exchange {i} failed: {:?} {:?} (submitted {}, connection {end:?})", x.err.as_ref().map(|e| &e.dbg), g.err, x.submitted));
            }
            if x.body_log.as_ref().map(|l| !l.lock().unwrap().dropped).unwrap_or(false) {
                out.viol(format!("undisturbed: request body {i} not released"));
            }
        }
        if !end.done || !end.ok {
            out.viol(format!("undisturbed: every exchange over and {} but the connection is {end:?}", if m.closes { "the peer closed" } else { "the sender was dropped" }));
        } else if !st.shutdown_done || !st.dropped {
            out.viol(format!("undisturbed: the connection ended without shutting its transport down ({st:?})"));
        }
        if m.tx_kept {
            out.count("clean_closes_by_peer", 1);
        }
        out.count("orderly_ends", 1);
        (st, m.ex.steps)
    };
    let mut r = Rng::new(mix(ctx.seed, 291));
    let f = draw(&mut r, &stats, steps);
    let mut m = make_cli(ctx.seed, ctx.trace);
    let snap: Arc<Mutex<Option<SnapC>>> = Default::default();
    {
        let (snap, xs, wire) = (snap.clone(), m.xs.clone(), m.wire.clone());
        let hook = move |what: &'static str, unflushed: usize| {
            let mut g = snap.lock().unwrap();
            if g.is_some() {
                return;
            }
            let read = wire.a.lock().unwrap().read_bytes as usize;
            let open = xs.iter().position(|x| {
                let x = x.lock().unwrap();
                let done = x.err.is_some() || x.got.lock().unwrap().done || x.got.lock().unwrap().err.is_some();
                x.submitted && !done
            });
            *g = Some(SnapC { what, unflushed, read, open });
        };
        let w = m.wire.clone();
        w.fa.lock().unwrap().hook = FaultHook(Some(Arc::new(hook)));
        arm(f, &w.fa);
    }
    if let Flt::Reset(at) = f {
        m.ex.max_steps = at;
        m.ex.run();
        m.wire.reset_all();
        m.ex.max_steps = 6_000_000;
    }
    let e = at_rest(m.ex.run());
    if settle(&e, &mut out) {
        let st = m.wire.a.lock().unwrap().clone();
        let end = m.end.lock().unwrap().clone();
        let snap = snap.lock().unwrap().clone();
        for (i, x) in m.xs.iter().enumerate() {
            let x = x.lock().unwrap();
            let g = x.got.lock().unwrap();
            if !m.msgs[i].body.starts_with(&g.data) {
                out.viol(format!("response body {i} has bytes the peer did not send: {}", diff(&m.msgs[i].body, &g.data)));
            }
            if g.clean() && (g.data != m.msgs[i].body || (st.read_bytes as usize) < m.ends[i]) {
                out.viol(format!("response {i} was presented as complete after {} of {} body bytes ({} of {} bytes read)", g.data.len(), m.msgs[i].body.len(), st.read_bytes, m.ends[i]));
            }
            if x.submitted && x.err.is_none() && !g.done && g.err.is_none() {
                out.viol(format!("exchange {i} never ended (connection {end:?}, {f:?})"));
            }
            if x.submitted && end.done && x.body_log.as_ref().map(|l| !l.lock().unwrap().dropped).unwrap_or(false) {
                out.viol(format!("request body {i} not released although the connection ended"));
            }
        }
        if st.faulted {
            if !end.done {
                out.viol(format!("the transport failed ({f:?}, {snap:?}) but the connection did not end; pending {:?}", m.ex.pending()));
            } else if !st.dropped {
                out.viol("the connection ended but its transport was not released".to_string());
            }
        } else if end.done && end.ok && !st.shutdown_done {
            out.viol("the connection ended well without shutting its transport down".to_string());
        }
        if st.write_after_shutdown > 0 || st.write_after_fault > 0 {
            out.viol(format!("{} writes after shutdown, {} after a failed write", st.write_after_shutdown, st.write_after_fault));
        }
        if let Some(sn) = &snap {
            out.nontrivial = true;
            out.count(key(sn.what), 1);
            let told_by = sn.open.map(|i| {
                let x = m.xs[i].lock().unwrap();
                let g = x.got.lock().unwrap();
                x.err.is_some() || g.err.is_some()
            }) == Some(true);
            let inprog = sn.open.map(|i| sn.read < m.ends[i]) == Some(true);
            let must = match f {
                Flt::Write(..) | Flt::Shutdown => true,
                Flt::Flush(_) => sn.unflushed > 0 || inprog,
                _ => inprog,
            };
            out.count(if must { "faults_that_matter" } else { "idle_faults" }, 1);
            if must && end.done && end.ok && !told_by {
                out.viol(format!("{f:?} hit ({sn:?}) but neither the connection nor an exchange reported it"));
            }
            if inprog && matches!(f, Flt::Read(_)) && !told_by {
                out.viol(format!("{f:?} hit ({sn:?}) before the whole response was read but the exchange did not fail"));
            }
        } else if st.faulted {
            out.nontrivial = true;
            out.count("resets", 1);
        } else {
            out.nontrivial = true;
            out.count("fault_not_reached", 1);
        }
        let _ = m.rx;
    }
    out.sig = mix(mix(m.sim.st(|s| s.hash), fnv(format!("{f:?}").as_bytes())), 2);
    out.desc = Some(format!("{f:?}: {}", m.desc));
    out.trace = m.sim.take_log();
    out
}

// ---------------------------------------------------------------- HTTP/2 pair
struct Pair {
    sim: Sim,
    ex: Exec,
    wire: Wire,
    send: EndRef,
    cend: EndRef,
    slot: Slot,
    st: Arc<Mutex<SvcState>>,
    xs: Vec<ExRef>,
    specs: Vec<ReqSpec>,
    plans: Vec<Plan>,
    desc: String,
}
fn make_pair(seed: u64, trace: bool) -> Pair {
    let mut r = Rng::new(seed);
    let sim = Sim::new(r.next());
    if trace {
        sim.enable_log();
    }
    let mut scfg = H2Cfg::gen(&mut r);
    let mut ccfg = H2Cfg::gen(&mut r);
    for c in [&mut scfg, &mut ccfg] {
        c.stream_win = c.stream_win.map(|w| w.max(65_535));
    }
    let n = *r.pick(&[1usize, 1, 2, 3, 6]);
    let maxb = *r.pick(&[0usize, 50, 2000, 20_000]);
    let mut specs: Vec<ReqSpec> = (0..n).map(|i| gen_req2(&mut r, i, maxb)).collect();
    let mut plans: Vec<Plan> = specs
        .iter()
        .map(|s| {
            let mut p = Plan::simple(gen_resp2(&mut r, &s.method, maxb));
            p.delay = *r.pick(&[0, 0, 1, 5, 30]);
            p.pace = *r.pick(&[0, 0, 30]);
            p.read = match r.below(10) {
                0..=6 => ReadPlan::All,
                7 => ReadPlan::Concurrent,
                _ => ReadPlan::AfterRespond,
            };
            p
        })
        .collect();
    coarsen(specs.iter_mut().map(|s| &mut s.script).collect(), &mut scfg);
    coarsen(plans.iter_mut().map(|p| &mut p.resp.script).collect(), &mut ccfg);
    let bytes: usize = specs.iter().map(|s| s.script.len()).sum::<usize>() + plans.iter().map(|p| p.resp.script.len()).sum::<usize>();
    tame2(&mut r, &mut scfg, bytes);
    tame2(&mut r, &mut ccfg, bytes);
    let (ioa, iob) = gen_io2(&mut r, bytes + n * 400);
    let desc = format!("HTTP/2 pair, {n} exchanges, {bytes} bytes; server {scfg:?}; client {ccfg:?}; io {ioa:?} / {iob:?}");
    let (a, b, wire) = pipe(&sim, ioa, iob);
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let svc = Svc::new(&ex, plans.clone()).by_id();
    let st = svc.st.clone();
    let send = serve_h2(&mut ex, &scfg, b, svc, Gate::default());
    let (slot, cend) = connect_h2(&mut ex, &ccfg, a);
    let xs: Vec<ExRef> = (0..n).map(|_| ExRef::default()).collect();
    for i in 0..n {
        let (slot, spec, x, sim2) = (slot.clone(), specs[i].clone(), xs[i].clone(), sim.clone());
        let d = *r.pick(&[0usize, 0, 3, 20, 100]);
        let use_try = r.pct(30);
        let pace = *r.pick(&[0, 0, 30]);
        ex.spawn(format!("x{i}"), async move {
            let Some(mut tx) = slot.get().await else { return };
            sim2.yields(d).await;
            exchange2(&sim2, &mut tx, &spec, &x, CRead::All, pace, use_try).await;
        });
    }
    Pair { sim, ex, wire, send, cend, slot, st, xs, specs, plans, desc }
}
fn pair(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(mix(ctx.seed, 292));
    let on_client = r.pct(50);
    let (stats, steps) = {
        let mut m = make_pair(ctx.seed, false);
        let e = at_rest(m.ex.run());
        m.slot.clear();
        let e = if e == End::Quiescent { at_rest(m.ex.run()) } else { e };
        if !settle(&e, &mut out) {
            return out;
        }
        // (the content of undisturbed exchanges is C15's)
        let st = if on_client { m.wire.a.lock().unwrap().clone() } else { m.wire.b.lock().unwrap().clone() };
        (st, m.ex.steps)
    };
    let f = draw(&mut r, &stats, steps);
    let mut m = make_pair(ctx.seed, ctx.trace);
    let faults = if on_client { m.wire.fa.clone() } else { m.wire.fb.clone() };
    let hit: Arc<Mutex<Option<(&'static str, usize, Vec<usize>)>>> = Default::default();
    {
        let (hit, xs, st) = (hit.clone(), m.xs.clone(), m.st.clone());
        let hook = move |what: &'static str, un: usize| {
            let mut g = hit.lock().unwrap();
            if g.is_some() {
                return;
            }
            // exchanges the server had started and their caller had not seen the end of
            let called: Vec<usize> = st.lock().unwrap().seen.iter().filter_map(|s| s.headers.iter().find(|(k, _)| k == "x-id").and_then(|(_, v)| std::str::from_utf8(v).ok()?.parse().ok())).collect();
            let open = (0..xs.len())
                .filter(|i| {
                    let x = xs[*i].lock().unwrap();
                    let g = x.got.lock().unwrap();
                    let over = x.err.is_some() || g.done || g.err.is_some();
                    x.submitted && !over && (on_client || called.contains(i))
                })
                .collect();
            *g = Some((what, un, open));
        };
        faults.lock().unwrap().hook = FaultHook(Some(Arc::new(hook)));
        arm(f, &faults);
    }
    if let Flt::Reset(at) = f {
        m.ex.max_steps = at;
        m.ex.run();
        m.wire.reset_all();
        m.ex.max_steps = 6_000_000;
    }
    let e = at_rest(m.ex.run());
    // the senders are kept to here: what the failure left unresolved stays so
    let unresolved: Vec<usize> = (0..m.xs.len())
        .filter(|i| {
            let x = m.xs[*i].lock().unwrap();
            let g = x.got.lock().unwrap();
            x.submitted && x.err.is_none() && !g.done && g.err.is_none()
        })
        .collect();
    let early = (m.send.lock().unwrap().clone(), m.cend.lock().unwrap().clone());
    m.slot.clear();
    let e = if e == End::Quiescent { at_rest(m.ex.run()) } else { e };
    if settle(&e, &mut out) {
        let (send, cend) = (m.send.lock().unwrap().clone(), m.cend.lock().unwrap().clone());
        let st = if on_client { m.wire.a.lock().unwrap().clone() } else { m.wire.b.lock().unwrap().clone() };
        let hit = hit.lock().unwrap().clone();
        if !unresolved.is_empty() {
            out.viol(format!("exchanges {unresolved:?} never ended ({f:?} at the {}, hit {hit:?}; server {:?}, client {:?})", if on_client { "client" } else { "server" }, early.0, early.1));
        }
        for (w, c) in [("server", &send), ("client", &cend)] {
            if !c.done {
                out.viol(format!("{w} connection did not end ({f:?} at the {}, hit {hit:?}); pending {:?}", if on_client { "client" } else { "server" }, m.ex.pending()));
            }
        }
        let mut failed = 0;
        for i in 0..m.xs.len() {
            let x = m.xs[i].lock().unwrap();
            let g = x.got.lock().unwrap();
            failed += (x.err.is_some() || g.err.is_some()) as usize;
            let want = m.plans[i].resp.script.data();
            if !want.starts_with(&g.data) {
                out.viol(format!("response body {i} has bytes the server did not send: {}", diff(&want, &g.data)));
            }
            if g.clean() && x.status.is_some() && g.data != want {
                out.viol(format!("response body {i} was presented as complete after {} of {} bytes", g.data.len(), want.len()));
            }
            if x.body_log.as_ref().map(|l| !l.lock().unwrap().dropped).unwrap_or(false) && x.submitted {
                out.viol(format!("request body {i} not released"));
            }
        }
        let seen = m.st.lock().unwrap();
        for s in seen.seen.iter() {
            let Some(i) = s.headers.iter().find(|(k, _)| k == "x-id").and_then(|(_, v)| std::str::from_utf8(v).ok()?.parse::<usize>().ok()) else { continue };
            let g = s.got.lock().unwrap();
            let want = m.specs[i].script.data();
            if !want.starts_with(&g.data) || (g.clean() && g.data != want) {
                out.viol(format!("request body {i} at the service: clean {}, {}", g.clean(), diff(&want, &g.data)));
            }
            if g.started && !g.done && g.err.is_none() && !s.fut_dropped && send.done {
                out.viol(format!("the reader of request body {i} never learned of the failure"));
            }
            if s.body_log.as_ref().map(|l| !l.lock().unwrap().dropped).unwrap_or(false) {
                out.viol(format!("response body {i} not released"));
            }
        }
        if st.write_after_shutdown > 0 {
            out.viol(format!("{} writes after shutdown", st.write_after_shutdown));
        }
        if let Some((what, un, open)) = &hit {
            out.nontrivial = true;
            out.count("h2_faults", 1);
            let _ = what;
            let open_failed: Vec<usize> = open
                .iter()
                .filter(|i| {
                    let x = m.xs[**i].lock().unwrap();
                    let g = x.got.lock().unwrap();
                    x.err.is_some() || g.err.is_some()
                })
                .copied()
                .collect();
            if !open_failed.is_empty() {
                out.count("h2_faults_with_open_exchanges", 1);
                if !on_client && send.ok {
                    out.viol(format!("{f:?} hit the server ({un} unflushed) while exchanges {open_failed:?} were served, and they failed, but its connection ended without error"));
                }
            } else {
                out.count("h2_idle_faults", 1);
            }
        } else if st.faulted {
            out.nontrivial = true;
            out.count("resets", 1);
        } else {
            out.count("fault_not_reached", 1);
        }
        out.count("h2_failed_exchanges", failed as u64);
    }
    out.sig = mix(mix(m.sim.st(|s| s.hash), fnv(format!("{f:?}").as_bytes())), 3 + on_client as u64);
    out.desc = Some(format!("{f:?} at the {}: {}", if on_client { "client" } else { "server" }, m.desc));
    out.trace = m.sim.take_log();
    out
}
