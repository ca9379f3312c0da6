//! C14: upgrades, CONNECT and connections taken apart by hand, both sides.
use crate::body::*;
use crate::cli::*;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::Rng;
use crate::rng::mix;
use crate::run::tame;
use crate::sim::*;
use crate::srv::*;
use crate::tun::*;
use crate::util::*;
use http::Version;
use std::sync::{Arc, Mutex};

pub const CHECK: Check = Check {
    id: "C14",
    level: "exploration",
    rule: "a case is one connection (server or client side) on which an upgrade, CONNECT or manual hand-over is accepted, refused or cut, with the peer's following bytes glued, split or late; what the new owner reads and what the peer receives is compared byte for byte; distinct = distinct (schedule, bytes) in which the hand-over was decided",
    quick: 60_000,
    thorough: 3_000_000,
    run: case,
    assumptions: &["an upgrade is accepted only after the service has read the whole request body"],
};
#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Upgrades,
    Downcast,
    Manual,
    Plain,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Cut {
    None,
    /// peer ends its stream at this byte
    Eof(usize),
    /// connection task dropped after this many of its polls
    Kill(usize),
    ReadErr(u64),
    WriteErr(u64),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Glue {
    /// post bytes right behind the message
    Glued,
    /// after the switch was seen
    After,
    /// in pieces, not waiting
    Pieces,
}
#[derive(Default)]
struct Handed {
    tun: Option<Tun>,
    err: Option<String>,
    resolved: bool,
}
fn post(r: &mut Rng) -> Vec<u8> {
    let k = *r.pick(&[0usize, 1, 5, 24, 100, 3000, 9000, 40_000]);
    let k = if k > 24 { r.range(k / 2, k) } else { k };
    if r.pct(30) {
        // looks like HTTP
        let mut v = b"GET /evil HTTP/1.1\r\nHost: x\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc".to_vec();
        v.extend(r.body(k));
        v
    } else {
        r.body(k)
    }
}
fn case(ctx: &Ctx) -> CaseOut {
    let mut r = Rng::new(ctx.seed);
    if r.pct(50) { server(ctx, r) } else { client(ctx, r) }
}
fn gen_cut(r: &mut Rng, in_len: usize, out_len: usize) -> Cut {
    if r.pct(75) {
        return Cut::None;
    }
    match r.below(4) {
        0 => Cut::Eof(r.below(in_len + 1)),
        1 => Cut::Kill(r.range(1, 30)),
        2 => Cut::ReadErr(r.below(in_len + 1) as u64),
        _ => Cut::WriteErr(r.below(out_len + 1) as u64),
    }
}
/// Tasks of the new owner of the transport.
fn own(sim: &Sim, sp: &Spawner, tun: &Tun, total: usize, out: &[u8], rmax: usize, wmax: usize, pace: u32, shut: bool) {
    let _ = sim;
    sp.spawn("tunnel-read", tun.clone().read_to(total, rmax, pace));
    sp.spawn("tunnel-write", tun.clone().write_all(out.to_vec(), wmax, pace, shut));
}
#[allow(clippy::too_many_arguments)]
fn judge_tunnel(out: &mut CaseOut, t: &TunLog, want_in: &[u8], peer_rest: &[u8], want_out: &[u8], whole: bool, peer_eof: bool, shut: bool) {
    for o in &t.odd {
        out.viol(format!("tunnel: {o}"));
    }
    if !want_in.starts_with(&t.data) {
        out.viol(format!("bytes read after the switch differ: {}", diff(&t.data, want_in)));
    } else if whole && t.data.len() != want_in.len() {
        out.viol(format!("only {} of {} bytes read after the switch (err {:?}, eof {})", t.data.len(), want_in.len(), t.read_err, t.eof));
    }
    if !want_out.starts_with(peer_rest) {
        out.viol(format!("bytes the peer got after the switch differ: {}", diff(peer_rest, want_out)));
    } else if whole && peer_rest.len() != want_out.len() {
        out.viol(format!("peer got only {} of {} bytes after the switch ({:?})", peer_rest.len(), want_out.len(), t.write_err));
    }
    if whole && shut != peer_eof {
        out.viol(format!("new owner shut down: {shut}, peer saw the end: {peer_eof}"));
    }
    out.count("tunnel_bytes", (t.data.len() + peer_rest.len()) as u64);
}
fn server(ctx: &Ctx, mut r: Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = SrvCfg::gen(&mut r);
    cfg.pipeline_flush = false; // delays what these checks time
    cfg.header_timeout = Some(None);
    let how = *r.pick(&[How::Upgrades, How::Upgrades, How::Upgrades, How::Downcast, How::Manual, How::Plain]);
    let before = r.below(3);
    let connect = r.pct(35);
    let body = if !connect && r.pct(35) {
        let k = *r.pick(&[1usize, 10, 3000, 20_000]);
        r.body(k)
    } else {
        vec![]
    };
    let accept = r.pct(75);
    let fail = !accept && r.pct(25);
    let mut wire_in = vec![];
    let mut plans = vec![];
    let mut methods = vec![];
    for i in 0..before {
        wire_in.extend_from_slice(format!("GET /{i} HTTP/1.1\r\nHost: a\r\n\r\n").as_bytes());
        methods.push("GET".to_string());
        let k = *r.pick(&[0usize, 3, 2000]);
        let mut p = Plan::simple(RespSpec::ok(&r.body(k)));
        p.sleep_ns = *r.pick(&[0, 0, 100]);
        plans.push(p);
    }
    let chunked = !body.is_empty() && r.pct(50);
    let head = if connect { "CONNECT a.b:443 HTTP/1.1\r\nHost: a.b:443\r\n".to_string() } else { format!("{} /up HTTP/1.1\r\nHost: a\r\nConnection: upgrade\r\nUpgrade: foo\r\n", if body.is_empty() { "GET" } else { "POST" }) };
    wire_in.extend_from_slice(head.as_bytes());
    if chunked {
        wire_in.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
        crate::h1gen::put_chunked(&mut r, &mut wire_in, &body, &vec![]);
    } else if !body.is_empty() {
        wire_in.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
        wire_in.extend_from_slice(&body);
    } else {
        wire_in.extend_from_slice(b"\r\n");
    }
    methods.push(if connect { "CONNECT".into() } else if body.is_empty() { "GET".to_string() } else { "POST".to_string() });
    let mut p = Plan::simple(RespSpec::ok(b""));
    p.delay = *r.pick(&[0, 0, 1, 4]);
    p.sleep_ns = *r.pick(&[0, 0, 200]);
    // accepted without having read the request body
    let unread = accept && !body.is_empty() && r.pct(30);
    if unread {
        p.read = match r.below(4) {
            0 => ReadPlan::Partial(1),
            1 => ReadPlan::AfterRespond,
            2 => ReadPlan::Concurrent,
            _ => ReadPlan::Never,
        };
    }
    if accept {
        p.resp.status = if connect { *r.pick(&[200, 200, 204, 299]) } else { 101 };
        if !connect {
            p.resp.headers = vec![("connection".into(), b"upgrade".to_vec()), ("upgrade".into(), b"foo".to_vec())];
        }
    } else {
        p.resp.status = if connect { *r.pick(&[403, 404, 302, 500]) } else { *r.pick(&[200, 204, 400, 426]) };
        if p.resp.status != 204 {
            p.resp = RespSpec { status: p.resp.status, ..RespSpec::ok(b"refused") };
        }
        p.fail = fail;
    }
    plans.push(p);
    let more = !accept && !fail && !connect && r.pct(60); // another request after a refusal
    let no_tail = r.pct(20);
    let tail = if accept && no_tail {
        vec![]
    } else if accept {
        post(&mut r)
    } else if more {
        plans.push(Plan::simple(RespSpec::ok(b"next")));
        methods.push("GET".into());
        b"GET /next HTTP/1.1\r\nHost: a\r\n\r\n".to_vec()
    } else {
        vec![]
    };
    let post_out = if accept { post(&mut r) } else { vec![] };
    let glue = *r.pick(&[Glue::Glued, Glue::Glued, Glue::After, Glue::Pieces]);
    let msg_len = wire_in.len();
    let mut all = wire_in.clone();
    all.extend_from_slice(&tail);
    let cut = gen_cut(&mut r, all.len(), 400 + post_out.len());
    let peer_eof = accept && cut == Cut::None && r.pct(if tail.is_empty() { 70 } else { 30 });
    let (shut, pace) = (accept && r.pct(40), *r.pick(&[0, 0, 30]));
    let (rmax, wmax) = (*r.pick(&[1usize, 7, 100, 5000, 70_000]), *r.pick(&[7usize, 100, 5000, 70_000]));
    let (rmax, wmax) = (rmax.max(tail.len() / 300), wmax.max(post_out.len() / 300));
    let (mut ioa, mut iob) = (IoCfg::gen(&mut r), IoCfg::gen(&mut r));
    if peer_eof && tail.is_empty() && r.pct(60) {
        // the peer may have seen the switch, and be done, before the flush is
        ioa.fl_pend = *r.pick(&[70, 90]);
        iob = IoCfg::plain();
    }
    tame(&mut r, &mut ioa, &mut iob, all.len() + post_out.len());
    let (server_io, client_io, wire) = pipe(&sim, ioa, iob);
    match cut {
        Cut::ReadErr(n) => wire.fa.lock().unwrap().read_at = Some((n, Fault::Err)),
        Cut::WriteErr(n) => wire.fa.lock().unwrap().write_at = Some((n, Fault::Err)),
        _ => {}
    }
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 10]);
    let desc = format!("server {how:?} connect={connect} accept={accept} fail={fail} before={before} body={} tail={} out={} {glue:?} {cut:?} peer_eof={peer_eof} shut={shut} rmax={rmax}; {cfg:?}", body.len(), tail.len(), post_out.len());
    let svc = Svc::new(&ex, plans.clone());
    let (st, calls) = (svc.st.clone(), svc.calls.clone());
    let end: EndRef = Default::default();
    let handed: Arc<Mutex<Handed>> = Default::default();
    let manual: Arc<Mutex<Option<Tun>>> = Default::default();
    let sp = ex.spawner();
    let kill = Kill::default();
    {
        let (sim, e2, manual, sp, kill) = (sim.clone(), end.clone(), manual.clone(), sp.clone(), kill.clone());
        let b = cfg.builder(&sim);
        let (tail_len, po) = (tail.len() + peer_eof as usize, post_out.clone());
        let left = match cut {
            Cut::Kill(n) => n,
            _ => usize::MAX,
        };
        macro_rules! polls {
            ($f:expr) => {{
                let mut f = Box::pin($f);
                let mut left = left;
                let k = kill.clone();
                kill.guard(std::future::poll_fn(move |cx| {
                    left -= 1;
                    if left == 0 {
                        k.kill();
                        cx.waker().wake_by_ref();
                        return std::task::Poll::Pending;
                    }
                    std::future::Future::poll(f.as_mut(), cx)
                }))
                .await
            }};
        }
        ex.spawn("server", async move {
            let conn = b.serve_connection(server_io, svc);
            let res = match how {
                How::Upgrades | How::Downcast => polls!(conn.with_upgrades()),
                How::Plain => polls!(conn),
                How::Manual => match polls!(conn.without_shutdown()) {
                    Some(Ok(p)) => {
                        sim.log(|| format!("taken apart with {} bytes buffered", p.read_buf.len()));
                        let t = Tun::new(&sim, Box::new(Prefixed { pre: p.read_buf, io: p.io }));
                        if accept {
                            own(&sim, &sp, &t, tail_len, &po, rmax, wmax, pace, shut);
                        }
                        *manual.lock().unwrap() = Some(t);
                        Some(Ok(()))
                    }
                    Some(Err(e)) => Some(Err(e)),
                    None => None,
                },
            };
            sim.log(|| format!("connection ended: {res:?}"));
            if let Some(res) = res {
                *e2.lock().unwrap() = ConnEnd::from(&sim, &res);
            }
        });
    }
    {
        let (st, calls, sim, sp, handed) = (st.clone(), calls.clone(), sim.clone(), sp.clone(), handed.clone());
        let (tail_len, po) = (tail.len() + peer_eof as usize, post_out.clone());
        let settle = r.below(4);
        ex.spawn("on-upgrade", async move {
            calls.at_least(before + 1).await;
            sim.yields(settle).await;
            let up = st.lock().unwrap().seen[before].on_upgrade.take().unwrap();
            let res = up.await;
            sim.mark();
            let mut h = handed.lock().unwrap();
            h.resolved = true;
            match res {
                Ok(u) => {
                    let t = if how == How::Downcast {
                        match u.downcast::<SimIo>() {
                            Ok(p) => Tun::new(&sim, Box::new(Prefixed { pre: p.read_buf, io: p.io })),
                            Err(_) => {
                                h.err = Some("DOWNCAST".into());
                                return;
                            }
                        }
                    } else if how == How::Upgrades && settle == 1 {
                        // a failed downcast hands the same transport back
                        match u.downcast::<Prefixed<SimIo>>() {
                            Ok(_) => {
                                h.err = Some("DOWNCAST".into());
                                return;
                            }
                            Err(u) => Tun::new(&sim, Box::new(u)),
                        }
                    } else {
                        Tun::new(&sim, Box::new(u))
                    };
                    own(&sim, &sp, &t, tail_len, &po, rmax, wmax, pace, shut);
                    h.tun = Some(t);
                }
                Err(e) => h.err = Some(format!("{e:?}")),
            }
        });
    }
    let peer = Peer::new(client_io);
    let rx = RecvRef::default();
    let nresp = Count::default();
    {
        let (p, rx, nresp, methods) = (peer.clone(), rx.clone(), nresp.clone(), methods.clone());
        ex.spawn("client-read", async move {
            read_all(p, rx, 1 << 16, |rv| {
                let (m, _) = refh1::responses(&rv.data, &methods, rv.eof);
                nresp.set(m.iter().filter(|m| m.complete && (m.status() >= 200 || m.status() == 101)).count());
            })
            .await
        });
    }
    {
        let (p, sim, nresp) = (peer.clone(), sim.clone(), nresp.clone());
        let all = match cut {
            Cut::Eof(n) => all[..n].to_vec(),
            _ => all.clone(),
        };
        let tail_done = Gate::default();
        let _ = &tail_done;
        ex.spawn("client-write", async move {
            let m = msg_len.min(all.len());
            match glue {
                Glue::Glued => {
                    if p.send(&all).await.is_err() {
                        return;
                    }
                }
                Glue::After => {
                    if p.send(&all[..m]).await.is_err() {
                        return;
                    }
                    if all.len() > m {
                        nresp.at_least(before + 1).await;
                        if p.send(&all[m..]).await.is_err() {
                            return;
                        }
                    }
                }
                Glue::Pieces => {
                    let mut off = 0;
                    while off < all.len() {
                        let k = sim.rng(|r| r.range(1, (all.len() - off).min(1 + all.len() / 8)));
                        if p.send(&all[off..off + k]).await.is_err() {
                            return;
                        }
                        off += k;
                        let y = sim.rng(|r| r.range(0, 6));
                        sim.yields(y).await;
                    }
                }
            }
            if peer_eof {
                // not before the switch: the end of input would be judged as an aborted request
                nresp.at_least(before + 1).await;
                let _ = p.close_write().await;
            }
            if matches!(cut, Cut::Eof(_)) {
                let _ = p.close_write().await;
            }
        });
    }
    ex.until = Some(1_000_000_000);
    let e = at_rest(ex.run());
    finish(&mut out, &sim, &wire, e, desc, |out| {
        let end = end.lock().unwrap().clone();
        let h = handed.lock().unwrap();
        let rx = rx.lock().unwrap();
        let st = st.lock().unwrap();
        let man = manual.lock().unwrap();
        let (resp, err) = refh1::responses(&rx.data, &methods, rx.eof || rx.err.is_some());
        let finals: Vec<&refh1::Msg> = resp.iter().filter(|m| m.status() >= 200 || m.status() == 101).collect();
        let called = st.seen.len() > before;
        out.nontrivial = called;
        if called && !h.resolved && (end.done || kill.killed()) {
            out.viol(format!("the connection is gone ({end:?}, killed {}), but the upgrade future still waits", kill.killed()));
        }
        if h.err.as_deref() == Some("DOWNCAST") {
            out.viol("downcast gave the wrong answer");
        }
        if st.seen.len() > before + 1 + more as usize {
            out.viol(format!("{} service calls; bytes after the switch were served as a request", st.seen.len()));
        }
        let tun = match how {
            How::Manual => man.as_ref(),
            _ => h.tun.as_ref(),
        };
        if how == How::Manual || how == How::Plain {
            if h.tun.is_some() {
                out.viol("upgrade future succeeded although upgrades are not enabled");
            }
        }
        if !accept && h.tun.is_some() {
            out.viol("upgrade future succeeded although the upgrade was refused");
        }
        if unread && !st.seen.get(before).map(|s| s.got.lock().unwrap().clean()).unwrap_or(true) {
            out.count("accepted_unread", 1);
            if cut == Cut::None && !(end.done && h.resolved) {
                out.viol(format!("accepted without reading the body: connection {end:?}, upgrade future resolved {}", h.resolved));
            }
            // taken apart by hand, an unread body is left to whoever did it
            if let (Some(t), Some(m), true) = (tun, finals.get(before), how != How::Manual) {
                out.count("accepted_unread_handed", 1);
                judge_tunnel(out, &t.log.lock().unwrap(), &tail, &rx.data[m.end.min(rx.data.len())..], &post_out, false, false, false);
            }
            return;
        }
        if cut != Cut::None {
            out.count("cut", 1);
            if let (Some(t), Some(m), true) = (tun, finals.get(before), accept) {
                judge_tunnel(out, &t.log.lock().unwrap(), &tail, &rx.data[m.end.min(rx.data.len())..], &post_out, false, false, false);
            }
            return;
        }
        if !called {
            out.viol(format!("upgrade request not served: {end:?}"));
            return;
        }
        if let Some(e) = err {
            if !(accept && finals.len() > before) {
                out.viol(format!("output does not parse: {e}"));
            }
        }
        let g = st.seen[before].got.lock().unwrap();
        if !g.clean() || g.data != body {
            out.viol(format!("request body: {} {:?}", diff(&g.data, &body), g.err));
        }
        if accept {
            out.count("accepted", 1);
            let Some(m) = finals.get(before) else {
                out.viol(format!("no final response for the upgrade: {end:?}"));
                return;
            };
            if m.status() != plans[before].resp.status {
                out.viol(format!("status {} for the upgrade", m.status()));
            }
            if !end.done || !end.ok {
                out.viol(format!("connection after the switch: {end:?}"));
            }
            match (how, tun) {
                (How::Plain, None) => {
                    if h.err.is_none() {
                        out.viol("upgrade future neither failed nor succeeded");
                    }
                }
                (_, None) => out.viol(format!("nothing was handed over: {:?}, {end:?}", h.err)),
                (_, Some(t)) => {
                    let tl = t.log.lock().unwrap();
                    judge_tunnel(out, &tl, &tail, &rx.data[m.end..], &post_out, true, rx.eof, shut);
                    if peer_eof && !tl.eof {
                        out.viol(format!("peer closed, new owner did not see the end: {:?}", tl.read_err));
                    }
                    let sd = wire.a.lock().unwrap().shutdowns;
                    if !shut && sd > 0 {
                        out.viol("the transport was shut down in spite of the hand-over");
                    }
                }
            }
        } else {
            out.count("refused", 1);
            if !h.resolved {
                out.viol(format!("upgrade refused, but the upgrade future still waits: {end:?}"));
            }
            if fail {
                if !(end.done && !end.ok) {
                    out.viol(format!("service failed, connection: {end:?}"));
                }
            } else {
                match finals.get(before) {
                    Some(m) if m.complete && m.status() == plans[before].resp.status => {}
                    _ => out.viol(format!("refusal not written: {end:?}")),
                }
                if more && (st.seen.len() != before + 2 || finals.len() != before + 2) {
                    out.viol(format!("request after a refused upgrade not served ({} calls, {} responses): {end:?}", st.seen.len(), finals.len()));
                }
            }
        }
    })
}
fn finish(out: &mut CaseOut, sim: &Sim, wire: &Wire, e: End, desc: String, judge: impl FnOnce(&mut CaseOut)) -> CaseOut {
    match &e {
        End::Quiescent => judge(out),
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        x => out.inconclusive = Some(format!("{x:?}")),
    }
    out.count("events", sim.st(|s| s.events));
    out.sig = mix(sim.st(|s| s.hash), mix(fnv(&wire.sent_by_a()), fnv(&wire.sent_by_b())));
    out.desc = Some(desc);
    out.trace = sim.take_log();
    std::mem::take(out)
}
fn client(ctx: &Ctx, mut r: Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let cfg = CliCfg::gen(&mut r);
    let how = *r.pick(&[How::Upgrades, How::Upgrades, How::Upgrades, How::Downcast, How::Manual, How::Plain]);
    let before = r.below(2);
    let connect = r.pct(40);
    let accept = r.pct(75);
    let mut spec = ReqSpec::get(if connect { "a.b:443" } else { "/up" });
    if connect {
        spec.method = "CONNECT".into();
    } else {
        spec.headers.push(("connection".into(), b"upgrade".to_vec()));
        spec.headers.push(("upgrade".into(), b"foo".to_vec()));
        if r.pct(35) {
            spec.method = "POST".into();
            spec.script = Script::gen(&mut r, 20_000);
        }
    }
    spec.version = Version::HTTP_11;
    let early = !spec.script.data().is_empty() && r.pct(40); // the switch comes as soon as the head is in
    let mut resps: Vec<Vec<u8>> = vec![];
    for _ in 0..before {
        let k = *r.pick(&[0usize, 3, 2000]);
        let b = r.body(k);
        let mut w = format!("HTTP/1.1 200 OK\r\nContent-Length: {k}\r\n\r\n").into_bytes();
        w.extend_from_slice(&b);
        resps.push(w);
    }
    let mut w = vec![];
    for _ in 0..r.below(3) {
        w.extend_from_slice(*r.pick(&[&b"HTTP/1.1 103 Early Hints\r\nLink: x\r\n\r\n"[..], b"HTTP/1.1 100 Continue\r\n\r\n"]));
    }
    let status;
    if accept {
        status = if connect { *r.pick(&[200u16, 200, 204, 299]) } else { 101 };
        w.extend_from_slice(format!("HTTP/1.1 {status} Switching\r\n").as_bytes());
        if connect {
            // to be ignored in a successful answer to CONNECT
            match r.below(4) {
                0 => w.extend_from_slice(b"Content-Length: 5\r\n"),
                1 => w.extend_from_slice(b"Transfer-Encoding: chunked\r\n"),
                _ => {}
            }
        } else {
            w.extend_from_slice(b"Connection: upgrade\r\nUpgrade: foo\r\n");
        }
        w.extend_from_slice(b"\r\n");
    } else {
        status = if connect { *r.pick(&[403u16, 404, 302, 500]) } else { *r.pick(&[200u16, 204, 400, 426]) };
        w.extend_from_slice(format!("HTTP/1.1 {status} No\r\n").as_bytes());
        w.extend_from_slice(if status == 204 { b"\r\n" } else { b"Content-Length: 7\r\n\r\nrefused" });
    }
    resps.push(w);
    let tail = if accept { post(&mut r) } else { vec![] };
    let post_out = if accept { post(&mut r) } else { vec![] };
    let glue = *r.pick(&[Glue::Glued, Glue::Glued, Glue::After, Glue::Pieces]);
    let in_len: usize = resps.iter().map(|m| m.len()).sum::<usize>() + tail.len();
    let cut = gen_cut(&mut r, in_len, 200 + spec.script.data().len() + post_out.len());
    let peer_eof = accept && cut == Cut::None && r.pct(30);
    let (shut, pace) = (accept && r.pct(40), *r.pick(&[0, 0, 30]));
    let (rmax, wmax) = (*r.pick(&[1usize, 7, 100, 5000, 70_000]), *r.pick(&[7usize, 100, 5000, 70_000]));
    let (rmax, wmax) = (rmax.max(tail.len() / 300), wmax.max(post_out.len() / 300));
    let (mut ioa, mut iob) = (IoCfg::gen(&mut r), IoCfg::gen(&mut r));
    tame(&mut r, &mut ioa, &mut iob, in_len + 25_000 + post_out.len());
    let (client_io, server_io, wire) = pipe(&sim, ioa, iob);
    match cut {
        Cut::ReadErr(n) => wire.fa.lock().unwrap().read_at = Some((n, Fault::Err)),
        Cut::WriteErr(n) => wire.fa.lock().unwrap().write_at = Some((n, Fault::Err)),
        _ => {}
    }
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 10]);
    let desc = format!("client {how:?} connect={connect} accept={accept} early={early} before={before} body={} tail={} out={} {glue:?} {cut:?} peer_eof={peer_eof} shut={shut} rmax={rmax} status={status}; {cfg:?}", spec.script.data().len(), tail.len(), post_out.len());
    let end: EndRef = Default::default();
    let handed: Arc<Mutex<Handed>> = Default::default();
    let manual: Arc<Mutex<Option<Tun>>> = Default::default();
    let sp = ex.spawner();
    let kill = Kill::default();
    let (mut tx, conn) = now(cfg.builder().handshake::<_, ScriptBody>(client_io)).expect("handshake");
    {
        let (sim, e2, manual, sp, kill) = (sim.clone(), end.clone(), manual.clone(), sp.clone(), kill.clone());
        let (tail_len, po) = (tail.len() + peer_eof as usize, post_out.clone());
        let left = match cut {
            Cut::Kill(n) => n,
            _ => usize::MAX,
        };
        macro_rules! polls {
            ($f:expr) => {{
                let mut f = Box::pin($f);
                let mut left = left;
                let k = kill.clone();
                kill.guard(std::future::poll_fn(move |cx| {
                    left -= 1;
                    if left == 0 {
                        k.kill();
                        cx.waker().wake_by_ref();
                        return std::task::Poll::Pending;
                    }
                    std::future::Future::poll(f.as_mut(), cx)
                }))
                .await
            }};
        }
        ex.spawn("client", async move {
            let res = match how {
                How::Upgrades | How::Downcast => polls!(conn.with_upgrades()),
                How::Plain => polls!(conn),
                How::Manual => match polls!(conn.without_shutdown()) {
                    Some(Ok(p)) => {
                        sim.log(|| format!("taken apart with {} bytes buffered", p.read_buf.len()));
                        let t = Tun::new(&sim, Box::new(Prefixed { pre: p.read_buf, io: p.io }));
                        if accept {
                            own(&sim, &sp, &t, tail_len, &po, rmax, wmax, pace, shut);
                        }
                        *manual.lock().unwrap() = Some(t);
                        Some(Ok(()))
                    }
                    Some(Err(e)) => Some(Err(e)),
                    None => None,
                },
            };
            sim.log(|| format!("connection ended: {res:?}"));
            if let Some(res) = res {
                *e2.lock().unwrap() = ConnEnd::from(&sim, &res);
            }
        });
    }
    let xs: Vec<ExRef> = (0..before + 1).map(|_| Default::default()).collect();
    {
        let (sim, sp, handed, xs, spec) = (sim.clone(), sp.clone(), handed.clone(), xs.clone(), spec.clone());
        let (tail_len, po) = (tail.len() + peer_eof as usize, post_out.clone());
        let settle = r.below(4);
        let keep = r.pct(50);
        ex.spawn("caller", async move {
            for i in 0..before {
                if tx.ready().await.is_err() {
                    return;
                }
                exchange(&sim, &mut tx, &ReqSpec::get(&format!("/{i}")), &xs[i], CRead::All, 0, false).await;
            }
            if tx.ready().await.is_err() {
                return;
            }
            exchange(&sim, &mut tx, &spec, &xs[before], if settle == 2 { CRead::Never } else { CRead::All }, 0, false).await;
            let Some(up) = xs[before].lock().unwrap().upgrade.take() else { return };
            if !keep {
                drop(tx);
                sim.yields(settle).await;
            }
            let res = up.await;
            sim.mark();
            let mut h = handed.lock().unwrap();
            h.resolved = true;
            match res {
                Ok(u) => {
                    let t = if how == How::Downcast {
                        match u.downcast::<SimIo>() {
                            Ok(p) => Tun::new(&sim, Box::new(Prefixed { pre: p.read_buf, io: p.io })),
                            Err(_) => {
                                h.err = Some("DOWNCAST".into());
                                return;
                            }
                        }
                    } else {
                        Tun::new(&sim, Box::new(u))
                    };
                    own(&sim, &sp, &t, tail_len, &po, rmax, wmax, pace, shut);
                    h.tun = Some(t);
                }
                Err(e) => h.err = Some(format!("{e:?}")),
            }
        });
    }
    let peer = Peer::new(server_io);
    let rx = RecvRef::default();
    // requests of which the head / the whole has arrived
    let (heads, whole) = (Count::default(), Count::default());
    let ends: Arc<Mutex<Vec<usize>>> = Default::default();
    {
        let (p, rx, heads, whole, ends, n) = (peer.clone(), rx.clone(), heads.clone(), whole.clone(), ends.clone(), before + 1);
        ex.spawn("peer-read", async move {
            let mut pos = 0;
            let mut k = 0;
            read_all(p, rx, 1 << 16, |rv| {
                while k < n {
                    match refh1::request(&rv.data, pos) {
                        refh1::P::Ok(m) => {
                            heads.set(heads.get().max(k + 1));
                            if !m.complete {
                                break;
                            }
                            pos = m.end;
                            k += 1;
                            ends.lock().unwrap().push(pos);
                            whole.set(k);
                        }
                        _ => break,
                    }
                }
                if rv.eof || rv.err.is_some() {
                    heads.set(n);
                    whole.set(n);
                }
            })
            .await
        });
    }
    {
        let (p, sim, heads, whole, x) = (peer.clone(), sim.clone(), heads.clone(), whole.clone(), xs[before].clone());
        let (resps, tail, h2) = (resps.clone(), tail.clone(), handed.clone());
        let _ = (&x, &h2);
        let settle = r.below(6);
        ex.spawn("peer-write", async move {
            let mut sent = 0;
            let n = resps.len();
            for (i, w) in resps.iter().enumerate() {
                if i + 1 == n && early {
                    heads.at_least(i + 1).await;
                } else {
                    whole.at_least(i + 1).await;
                }
                let mut w = w.clone();
                if i + 1 == n && glue != Glue::After {
                    w.extend_from_slice(&tail);
                }
                let mut fin = false;
                if let Cut::Eof(k) = cut {
                    if sent + w.len() > k {
                        w.truncate(k - sent);
                        fin = true;
                    }
                }
                sent += w.len();
                let mut off = 0;
                while off < w.len() {
                    let k = if glue == Glue::Pieces { sim.rng(|r| r.range(1, (w.len() - off).min(1 + w.len() / 8))) } else { w.len() - off };
                    if p.send(&w[off..off + k]).await.is_err() {
                        return;
                    }
                    off += k;
                    if off < w.len() {
                        let y = sim.rng(|r| r.range(0, 6));
                        sim.yields(y).await;
                    }
                }
                if fin {
                    let _ = p.close_write().await;
                    return;
                }
            }
            if glue == Glue::After {
                sim.yields(settle * 5).await;
                if p.send(&tail).await.is_err() {
                    return;
                }
            }
            if peer_eof {
                whole.at_least(before + 1).await;
            }
            if peer_eof || matches!(cut, Cut::Eof(_)) {
                let _ = p.close_write().await;
            }
        });
    }
    ex.until = Some(1_000_000_000);
    let e = at_rest(ex.run());
    finish(&mut out, &sim, &wire, e, desc, |out| {
        let end = end.lock().unwrap().clone();
        let h = handed.lock().unwrap();
        let rx = rx.lock().unwrap();
        let x = xs[before].lock().unwrap();
        let man = manual.lock().unwrap();
        let ends = ends.lock().unwrap();
        out.nontrivial = x.status.is_some();
        let gone = end.done || kill.killed();
        if x.status.is_some() && !h.resolved && gone {
            out.viol(format!("the connection is gone ({end:?}), but the upgrade future still waits"));
        }
        if h.err.as_deref() == Some("DOWNCAST") {
            out.viol("downcast gave the wrong answer");
        }
        let tun = match how {
            How::Manual => man.as_ref(),
            _ => h.tun.as_ref(),
        };
        if (how == How::Manual || how == How::Plain) && h.tun.is_some() {
            out.viol("upgrade future succeeded although upgrades are not enabled");
        }
        if !accept && h.tun.is_some() {
            out.viol("upgrade future succeeded although the upgrade was refused");
        }
        let rest = ends.get(before).map(|e| &rx.data[*e..]);
        if cut != Cut::None {
            out.count("cut", 1);
            if let (Some(t), Some(rest), true, Some(_)) = (tun, rest, accept, x.status) {
                judge_tunnel(out, &t.log.lock().unwrap(), &tail, rest, &post_out, false, false, false);
            }
            return;
        }
        match x.status {
            Some(s) if s == status => {}
            s => {
                out.viol(format!("caller got {s:?} {:?}, want {status}", x.err));
                return;
            }
        }
        if accept {
            out.count("accepted", 1);
            if early {
                out.count("accepted_early", 1);
            }
            if !end.done || !end.ok {
                out.viol(format!("connection after the switch: {end:?}"));
            }
            let Some(rest) = rest else {
                out.viol(format!("request not written completely: {} bytes", rx.data.len()));
                return;
            };
            match (how, tun) {
                (How::Plain, None) => {
                    if h.err.is_none() {
                        out.viol("upgrade future neither failed nor succeeded");
                    }
                }
                (_, None) => out.viol(format!("nothing was handed over: {:?}, {end:?}", h.err)),
                (_, Some(t)) => {
                    let tl = t.log.lock().unwrap();
                    judge_tunnel(out, &tl, &tail, rest, &post_out, true, rx.eof, shut);
                    if peer_eof && !tl.eof {
                        out.viol(format!("peer closed, new owner did not see the end: {:?}", tl.read_err));
                    }
                    let sd = wire.a.lock().unwrap().shutdowns;
                    if !shut && sd > 0 {
                        out.viol("the transport was shut down in spite of the hand-over");
                    }
                }
            }
        } else {
            out.count("refused", 1);
            if !h.resolved {
                out.viol(format!("upgrade refused, but the upgrade future still waits: {end:?}"));
            }
        }
    })
}
