//! C32: configured limits and settings are announced and enforced as configured.
use crate::body::*;
use crate::cli::*;
use crate::frames;
use crate::h2raw::{self, Raw};
use crate::h2x::*;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::srv::*;
use crate::util::*;
use std::sync::{Arc, Mutex};

pub const CHECK: Check = Check {
    id: "C32",
    level: "exploration",
    rule: "a case builds one connection with drawn limits, reads what it announces (every HTTP/2 SETTINGS value, the connection window) and plays a peer, application or transport that goes exactly up to one limit or just past it: header count, head size, target length, header list size, frame size, concurrent streams (accepted and opened), read buffer size, vectored writes; distinct = distinct executions in which at least one limit was judged",
    quick: 60_000,
    thorough: 2_000_000,
    run: case,
    assumptions: &["the h2 crate refuses a header list of exactly the limit, hyper is not judged there", "a head is refused for its size only past the limit; how far past depends on the reads, so the upper side is judged at eight times the limit", "a connection window that grows by less than half a default window may be announced later"],
};

fn case(ctx: &Ctx) -> CaseOut {
    let mut r = Rng::new(mix(ctx.seed, 32));
    let mut out = CaseOut::default();
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 10]);
    let (label, desc, judged, end) = match r.below(10) {
        0 | 1 => server1(&mut ex, &mut r, &mut out),
        2 | 3 => client1(&mut ex, &mut r, &mut out),
        4..=6 => server2(&mut ex, &mut r, &mut out),
        _ => client2(&mut ex, &mut r, &mut out),
    };
    match end {
        End::Spin(t) => out.viol(format!("{label}: task {t} spins without progress")),
        End::StepLimit => out.inconclusive = Some(format!("{label}: step limit")),
        _ => {}
    }
    for v in &mut out.violations {
        *v = format!("{label}: {v}");
    }
    if judged {
        out.count(label, 1);
    }
    out.nontrivial = judged;
    out.sig = mix(sim.st(|s| s.hash), fnv(label.as_bytes()));
    out.desc = Some(format!("{label}: {desc}"));
    out.trace = sim.take_log();
    out
}
type Ran = (&'static str, String, bool, End);

/// transport for streams of `bytes` bytes
fn io(r: &mut Rng, bytes: usize) -> IoCfg {
    let mut c = IoCfg::gen(r);
    c.late_flush = false;
    if bytes > 3000 && c.cap < 4096 {
        c.cap = 70_000;
    }
    if bytes > 3000 {
        for s in [&mut c.rd, &mut c.wr] {
            if matches!(s, Seg::One | Seg::Fixed(_) | Seg::Rand(12)) {
                *s = *r.pick(&[Seg::Whole, Seg::Rand(900), Seg::Rand(9000), Seg::Fixed(2000)]);
            }
        }
    }
    c
}
async fn feed(sim: &Sim, p: &Peer, w: &[u8]) -> bool {
    let n = sim.rng(|r| *r.pick(&[1usize, 1, 2, 5]));
    let mut at = 0;
    for i in 0..n {
        let to = if i + 1 == n { w.len() } else { sim.rng(|r| r.range(at, w.len())) };
        if p.send(&w[at..to]).await.is_err() {
            return false;
        }
        at = to;
        if i + 1 < n {
            sim.yields(5).await;
        }
    }
    true
}

/// A header section of exactly `n` fields, or of exactly `len` bytes with few fields.
fn fields(n: usize) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..n {
        v.extend_from_slice(format!("x-{i}: {}\r\n", i % 7).as_bytes());
    }
    v
}

fn server1(ex: &mut Exec, r: &mut Rng, out: &mut CaseOut) -> Ran {
    let sim = ex.sim.clone();
    let mut cfg = SrvCfg::gen(r);
    cfg.pipeline_flush = false;
    cfg.ignore_invalid = false;
    let mut wire = vec![];
    // None: only the transport use is judged
    let mut want: Option<u16> = Some(200);
    const L: [&str; 4] = ["h1 server header count", "h1 server head size", "h1 server target length", "h1 server vectored writes"];
    let sc = r.below(L.len());
    let mut plan = Plan::simple(RespSpec::ok(b"hi"));
    match sc {
        0 => {
            cfg.max_headers = *r.pick(&[None, Some(0), Some(1), Some(2), Some(5), Some(30), Some(99), Some(100), Some(101), Some(250)]);
            cfg.max_buf = None;
            let m = cfg.max_headers.unwrap_or(100);
            let n = *r.pick(&[m.saturating_sub(1), m, m, m + 1, m + 1, m + 2, 2 * m + 1]);
            wire.extend_from_slice(b"GET / HTTP/1.1\r\n");
            wire.extend(fields(n));
            wire.extend_from_slice(b"\r\n");
            if n > m {
                want = Some(431);
            }
        }
        1 => {
            let m = *r.pick(&[8192usize, 8193, 10_000, 16_384, 20_000]);
            cfg.max_buf = Some(m);
            let len = if r.pct(70) { m - 1 - r.below(3) } else { 8 * m + r.below(100) };
            wire.extend_from_slice(b"GET / HTTP/1.1\r\nx-long: ");
            let k = len - wire.len() - 4;
            wire.extend(std::iter::repeat(b'v').take(k));
            wire.extend_from_slice(b"\r\n\r\n");
            if len > m {
                want = Some(431);
            }
        }
        2 => {
            cfg.max_buf = None;
            let n = *r.pick(&[65_533usize, 65_534, 65_534, 65_535, 65_535, 65_536, 70_000]);
            wire.extend_from_slice(b"GET /");
            wire.extend(std::iter::repeat(b'u').take(n - 1));
            wire.extend_from_slice(b" HTTP/1.1\r\n\r\n");
            if n > 65_534 {
                want = Some(414);
            }
        }
        _ => {
            cfg.writev = *r.pick(&[None, Some(true), Some(false)]);
            wire.extend_from_slice(b"GET / HTTP/1.1\r\n\r\n");
            let n = r.size(5000);
            plan.resp.script = Script::gen(r, n);
        }
    }
    let (ioa, iob) = (io(r, wire.len()), io(r, wire.len()));
    let vectored = ioa.vectored;
    let desc = format!("{cfg:?} vectored={vectored} wire {} bytes", wire.len());
    let (a, b, w) = pipe(&sim, ioa, iob);
    let svc = Svc::new(ex, vec![plan]);
    let st = svc.st.clone();
    let end = serve_h1(ex, &cfg, a, svc, Gate::default());
    let peer = Peer::new(b);
    let recv: RecvRef = Default::default();
    {
        let (p, sim) = (peer.clone(), sim.clone());
        ex.spawn("peer", async move {
            let _ = feed(&sim, &p, &wire).await;
        });
        let (p, recv) = (peer.clone(), recv.clone());
        ex.spawn("peer-r", async move { read_all(p, recv, 70_000, |_| {}).await });
    }
    let e = ex.run();
    let got = recv.lock().unwrap().data.clone();
    let served = st.lock().unwrap().seen.len();
    let status = got.get(9..12).and_then(|s| std::str::from_utf8(s).ok()).and_then(|s| s.parse::<u16>().ok());
    if let Some(want) = want {
        if status != Some(want) || served != (want == 200) as usize {
            out.viol(format!("expected {want}, but the answer is {status:?} and the service was called {served} times; {}", end.lock().unwrap().err));
        }
    }
    use_of_writev(cfg.writev, vectored, &w.a.lock().unwrap(), out);
    (L[sc], desc, true, e)
}
fn use_of_writev(writev: Option<bool>, vectored: bool, st: &IoStats, out: &mut CaseOut) {
    let may = writev.unwrap_or(vectored);
    if !may && st.vec_writes > 0 {
        out.viol(format!("{} vectored writes although writev is {writev:?} and the transport's is_write_vectored is {vectored}", st.vec_writes));
    }
    if may && st.writes > 0 && st.vec_writes == 0 {
        out.viol(format!("no vectored write in {} writes although writev is {writev:?} and the transport's is_write_vectored is {vectored}", st.writes));
    }
}

fn client1(ex: &mut Exec, r: &mut Rng, out: &mut CaseOut) -> Ran {
    let sim = ex.sim.clone();
    let mut cfg = CliCfg::gen(r);
    cfg.h09 = false;
    const L: [&str; 4] = ["h1 client header count", "h1 client head size", "h1 client read buffer size", "h1 client vectored writes"];
    let sc = r.below(L.len());
    let mut wire = b"HTTP/1.1 200 OK\r\n".to_vec();
    let mut good = true;
    let mut spec = ReqSpec::get("/");
    let mut body = 0;
    match sc {
        0 => {
            (cfg.max_buf, cfg.exact_buf) = (None, None);
            cfg.max_headers = *r.pick(&[None, Some(1), Some(2), Some(5), Some(30), Some(99), Some(100), Some(101), Some(250)]);
            let m = cfg.max_headers.unwrap_or(100);
            let n = *r.pick(&[m, m, m + 1, m + 1, m + 2, 2 * m + 1]);
            wire.extend_from_slice(b"Content-Length: 0\r\n");
            wire.extend(fields(n - 1));
            wire.extend_from_slice(b"\r\n");
            good = n <= m;
        }
        1 => {
            let m = *r.pick(&[8192usize, 8193, 10_000, 16_384, 20_000]);
            if r.pct(50) {
                (cfg.max_buf, cfg.exact_buf) = (Some(m), None);
            } else {
                (cfg.max_buf, cfg.exact_buf) = (None, Some(m));
            }
            let len = if r.pct(70) { m - 1 - r.below(3) } else { 8 * m + r.below(100) };
            wire.extend_from_slice(b"Content-Length: 0\r\nx-long: ");
            let k = len - wire.len() - 4;
            wire.extend(std::iter::repeat(b'v').take(k));
            wire.extend_from_slice(b"\r\n\r\n");
            good = len < m;
        }
        2 => {
            cfg.max_buf = None;
            cfg.exact_buf = Some(*r.pick(&[500usize, 1000, 8192, 9000, 30_000]));
            body = r.range(2, 40_000);
            wire.extend_from_slice(format!("Content-Length: {body}\r\n\r\n").as_bytes());
            wire.extend(r.body(body));
        }
        _ => {
            cfg.writev = *r.pick(&[None, Some(true), Some(false)]);
            spec.method = "POST".into();
            let n = r.size(5000);
            spec.script = Script::gen(r, n);
            wire.extend_from_slice(b"Content-Length: 0\r\n\r\n");
        }
    }
    let (ioa, iob) = (io(r, wire.len()), io(r, wire.len()));
    let vectored = ioa.vectored;
    let desc = format!("{cfg:?} vectored={vectored} wire {} bytes", wire.len());
    let (a, b, w) = pipe(&sim, ioa, iob);
    let (mut tx, _end) = connect_h1(ex, &cfg, a);
    let x: ExRef = Default::default();
    let peer = Peer::new(b);
    {
        let (p, sim) = (peer.clone(), sim.clone());
        ex.spawn("peer", async move {
            let mut buf = vec![];
            // the whole request, so that what is written can be judged
            while !matches!(refh1::request(&buf, 0), refh1::P::Ok(_)) {
                match p.recv(10_000).await {
                    Ok(v) if !v.is_empty() => buf.extend(v),
                    _ => return,
                }
            }
            let _ = feed(&sim, &p, &wire).await;
        });
    }
    {
        let (sim, x, spec) = (sim.clone(), x.clone(), spec.clone());
        ex.spawn("caller", async move {
            exchange(&sim, &mut tx, &spec, &x, CRead::All, 0, false).await;
            std::future::pending::<()>().await;
        });
    }
    let e = ex.run();
    let g = x.lock().unwrap();
    if good {
        if g.status != Some(200) {
            out.viol(format!("a response within the limit was not delivered: {:?}", g.err.as_ref().map(|e| e.dbg.clone())));
        } else if g.got.lock().unwrap().data.len() != body {
            out.viol("the response body is not complete");
        }
    } else if !g.err.as_ref().is_some_and(|e| e.facts.is("parse_too_large")) {
        out.viol(format!("a response past the limit was not refused as too large: status {:?} err {:?}", g.status, g.err.as_ref().map(|e| e.dbg.clone())));
    }
    let st = w.a.lock().unwrap();
    if let Some(n) = cfg.exact_buf {
        // allocators may round up, but not to twice the size
        if st.max_read_window >= 2 * n + 64 {
            out.viol(format!("a read asked for {} bytes with an exact buffer of {n}", st.max_read_window));
        }
    }
    use_of_writev(cfg.writev, vectored, &st, out);
    (L[sc], desc, true, e)
}

#[derive(Clone, Debug, PartialEq)]
struct Set {
    table: u32,
    push: u32,
    streams: u32,
    window: u32,
    frame: u32,
    list: u32,
    connect: u32,
}
/// What the first SETTINGS frame says, protocol defaults filled in.
fn announced(raw: &h2raw::RawSt) -> Option<Set> {
    let (f, _) = raw.frames.first()?;
    if f.kind != frames::SETTINGS || f.ack() {
        return None;
    }
    let mut s = Set { table: 4096, push: 1, streams: u32::MAX, window: 65_535, frame: 16_384, list: u32::MAX, connect: 0 };
    for c in f.payload.chunks(6) {
        let (id, v) = (u16::from_be_bytes([c[0], c[1]]), u32::from_be_bytes([c[2], c[3], c[4], c[5]]));
        match id {
            1 => s.table = v,
            2 => s.push = v,
            3 => s.streams = v,
            4 => s.window = v,
            5 => s.frame = v,
            6 => s.list = v,
            8 => s.connect = v,
            _ => {}
        }
    }
    Some(s)
}
fn judge_settings(raw: &h2raw::RawSt, want: &Set, server: bool, conn_win: u32, out: &mut CaseOut) -> bool {
    let Some(mut got) = announced(raw) else { return false };
    let mut want = want.clone();
    if server {
        // means nothing from a server
        (got.push, want.push) = (0, 0);
    } else {
        (got.connect, want.connect) = (0, 0);
    }
    if got != want {
        out.viol(format!("announced {got:?}, configured {want:?}"));
    }
    // what the connection window grew by before any DATA was received
    let grow = conn_win.saturating_sub(65_535) as u64;
    let mut sum = 0u64;
    for (f, _) in raw.frames.iter() {
        if f.kind == frames::WUPD && f.sid == 0 {
            sum += f.u32_at(0) as u64;
        }
    }
    if sum > grow {
        out.viol(format!("the connection window grew by {sum}, configured for {grow}"));
    }
    if grow > 33_000 && sum != grow {
        out.viol(format!("the connection window grew by {sum} instead of {grow}"));
    }
    true
}
fn list_size(fields: &[(&str, &[u8])]) -> usize {
    fields.iter().map(|(k, v)| k.len() + v.len() + 32).sum()
}
fn limits(r: &mut Rng) -> H2Cfg {
    let mut c = H2Cfg::gen(r);
    c.ka = None;
    c.max_list = *r.pick(&[None, None, Some(300), Some(1000), Some(5000), Some(10_000)]);
    c.max_streams = *r.pick(&[None, None, Some(1), Some(2), Some(5), Some(1000)]);
    c.connect = r.pct(30);
    c.adaptive = r.pct(25);
    c.explicit_last = r.pct(50);
    c
}

fn server2(ex: &mut Exec, r: &mut Rng, out: &mut CaseOut) -> Ran {
    let sim = ex.sim.clone();
    let mut cfg = limits(r);
    const L: [&str; 4] = ["h2 server settings", "h2 server concurrent streams", "h2 server header list", "h2 server frame size"];
    let sc = r.below(L.len());
    let gate = Gate::default();
    let mut plan = Plan::simple(RespSpec::ok(b"hi"));
    let mut wire = vec![];
    let mut streams = 0usize;
    let mut ok = true;
    match sc {
        1 => {
            cfg.max_streams = Some(*r.pick(&[1u32, 2, 3, 7]));
            let m = cfg.max_streams.unwrap() as usize;
            streams = m + r.range(0, 4);
            plan.gate = Some(Gates(gate.clone()));
            for i in 0..streams {
                wire.extend(h2raw::request(1 + 2 * i as u32, true, "GET", "/c", &[]));
            }
        }
        2 => {
            let m = cfg.max_list.unwrap_or(16_384) as usize;
            let base = list_size(&[(":method", b"GET"), (":scheme", b"http"), (":authority", b"example.com"), (":path", b"/l"), ("x-l", b"")]);
            let total = if r.pct(60) { m - 1 - r.below(3) } else { m + 1 + r.below(400) };
            ok = total <= m;
            let v = vec![b'v'; total - base];
            streams = 1;
            wire.extend(h2raw::request(1, true, "GET", "/l", &[("x-l", &v)]));
        }
        3 => {
            (cfg.stream_win, cfg.conn_win, cfg.adaptive) = (None, None, false);
            cfg.frame = *r.pick(&[None, Some(16_384), Some(16_385), Some(40_000)]);
            let m = cfg.frame.unwrap_or(16_384) as usize;
            let n = *r.pick(&[m - 1, m, m, m + 1, m + 1, m + 1000]);
            ok = n <= m;
            streams = 1;
            wire.extend(h2raw::request(1, false, "POST", "/f", &[]));
            wire.extend(frames::data(1, true, &vec![b'd'; n]));
        }
        _ => {
            wire.extend(h2raw::request(1, false, "POST", "/d", &[]));
            wire.extend(frames::data(1, true, b"d"));
            streams = 1;
        }
    }
    let windows = cfg.windows(1 << 20, 1 << 20);
    let want = Set {
        table: cfg.table.unwrap_or(4096),
        push: 0,
        streams: cfg.max_streams.unwrap_or(200),
        window: windows.1,
        frame: cfg.frame.unwrap_or(16_384),
        list: cfg.max_list.unwrap_or(16_384),
        connect: cfg.connect as u32,
    };
    let conn_win = windows.2;
    let (ioa, iob) = (io(r, 100 + wire.len()), io(r, 100 + wire.len()));
    let desc = format!("{cfg:?} {streams} streams, {} bytes, ok={ok}", wire.len());
    let (a, b, _w) = pipe(&sim, ioa, iob);
    let svc = Svc::new(ex, vec![plan; streams]);
    let st = svc.st.clone();
    let _end = serve_h2(ex, &cfg, a, svc, Gate::default());
    let raw = Raw::spawn(ex, b, true);
    let mut v = frames::PREFACE.to_vec();
    v.extend(frames::settings(&[]));
    raw.put(&v);
    let e = ex.run();
    let mut judged = judge_settings(&raw.st.lock().unwrap(), &want, true, conn_win, out);
    let mut end = e;
    if !wire.is_empty() {
        raw.put(&wire);
        end = ex.run();
        let m = cfg.max_streams.unwrap_or(200) as usize;
        let s = raw.st.lock().unwrap();
        let seen = st.lock().unwrap().seen.len();
        judged = true;
        match sc {
            1 => {
                if seen != m.min(streams) {
                    out.viol(format!("{seen} of {streams} concurrent streams were taken, the limit is {m}"));
                }
                for i in m..streams {
                    let sid = 1 + 2 * i as u32;
                    if s.rst(sid) != Some(7) {
                        out.viol(format!("stream {sid} past the limit was not refused: {:?}", s.rst(sid)));
                    }
                }
                drop(s);
                gate.open();
                end = ex.run();
                let s = raw.st.lock().unwrap();
                for i in 0..m.min(streams) {
                    let sid = 1 + 2 * i as u32;
                    if s.status(sid) != Some(200) || !s.eos(sid) {
                        out.viol(format!("stream {sid} within the limit was not answered: {:?} rst {:?}", s.status(sid), s.rst(sid)));
                    }
                }
            }
            2 => {
                if ok && (seen != 1 || s.status(1) != Some(200)) {
                    out.viol(format!("a header list within the limit was not served: {:?} rst {:?} goaway {:?}", s.status(1), s.rst(1), s.goaways()));
                }
                if !ok && (seen != 0 || s.status(1) == Some(200)) {
                    out.viol("a header list past the limit was served".to_string());
                }
            }
            0 => {
                if s.status(1) != Some(200) {
                    out.viol(format!("not served: {:?} rst {:?} goaway {:?}", s.status(1), s.rst(1), s.goaways()));
                }
            }
            _ => {
                if ok && s.status(1) != Some(200) {
                    out.viol(format!("a frame within the limit was not accepted: {:?} rst {:?} goaway {:?}", s.status(1), s.rst(1), s.goaways()));
                }
                if !ok && (s.status(1) == Some(200) || s.goaways().last().map(|g| g.1) != Some(6)) {
                    out.viol(format!("a frame past the limit was not refused with FRAME_SIZE_ERROR: {:?} goaway {:?}", s.status(1), s.goaways()));
                }
            }
        }
    }
    judge_pings(&raw.st.lock().unwrap(), windows.0, out);
    (L[sc], desc, judged, end)
}
/// Without keep-alive, only adaptive windows have a use for PINGs.
fn judge_pings(raw: &h2raw::RawSt, adaptive: bool, out: &mut CaseOut) {
    if !adaptive && raw.frames.iter().any(|(f, _)| f.kind == frames::PING && !f.ack()) {
        out.viol("a PING was sent with neither keep-alive nor adaptive windows configured");
    }
}

fn client2(ex: &mut Exec, r: &mut Rng, out: &mut CaseOut) -> Ran {
    let sim = ex.sim.clone();
    let mut cfg = limits(r);
    cfg.max_streams = *r.pick(&[None, None, Some(0), Some(1), Some(100)]);
    const L: [&str; 5] = ["h2 client settings", "h2 client streams before settings", "h2 client streams under the peer's limit", "h2 client header list", "h2 client frame size"];
    let sc = r.below(L.len());
    let mut reqs = 1usize;
    let mut init = 100usize;
    let mut peer_max = None;
    let mut ok = true;
    let mut answer = vec![];
    match sc {
        1 | 2 => {
            cfg.init_send = *r.pick(&[None, Some(1), Some(2), Some(4)]);
            init = cfg.init_send.unwrap_or(100);
            reqs = r.range(1, 9);
            if sc == 2 {
                peer_max = Some(*r.pick(&[1u32, 2, 5]));
            }
        }
        3 => {
            let m = cfg.max_list.unwrap_or(16_384) as usize;
            let base = list_size(&[(":status", b"200"), ("x-l", b"")]);
            let total = if r.pct(60) { m - 1 - r.below(3) } else { m + 1 + r.below(400) };
            ok = total <= m;
            let v = vec![b'v'; total - base];
            answer.extend(h2raw::response(1, true, "200", &[("x-l", &v)]));
        }
        4 => {
            (cfg.stream_win, cfg.conn_win, cfg.adaptive) = (None, None, false);
            cfg.frame = *r.pick(&[None, Some(16_384), Some(16_385), Some(40_000)]);
            let m = cfg.frame.unwrap_or(16_384) as usize;
            let n = *r.pick(&[m - 1, m, m, m + 1, m + 1, m + 1000]);
            ok = n <= m;
            answer.extend(h2raw::response(1, false, "200", &[]));
            answer.extend(frames::data(1, true, &vec![b'd'; n]));
        }
        _ => {
            answer.extend(h2raw::response(1, false, "200", &[]));
            answer.extend(frames::data(1, true, b"d"));
        }
    }
    let windows = cfg.windows(2 << 20, 5 << 20);
    let want = Set {
        table: cfg.table.unwrap_or(4096),
        push: 0,
        streams: cfg.max_streams.unwrap_or(u32::MAX),
        window: windows.1,
        frame: cfg.frame.unwrap_or(16_384),
        list: cfg.max_list.unwrap_or(16_384),
        connect: 0,
    };
    let conn_win = windows.2;
    let (ioa, iob) = (io(r, 2000 + answer.len()), io(r, 2000 + answer.len()));
    let desc = format!("{cfg:?} {reqs} requests, peer limit {peer_max:?}, {} bytes, ok={ok}", answer.len());
    let (a, b, _w) = pipe(&sim, ioa, iob);
    let (slot, _end) = connect_h2(ex, &cfg, a);
    let raw = Raw::spawn(ex, b, false);
    raw.st.lock().unwrap().ack_settings = !matches!(sc, 1 | 2);
    if !matches!(sc, 1 | 2) {
        raw.put(&frames::settings(&[]));
    }
    let xs: Vec<ExRef> = (0..reqs).map(|_| Default::default()).collect();
    let all = Arc::new(Mutex::new(0usize));
    {
        let (sim, xs, sp) = (sim.clone(), xs.clone(), ex.spawner());
        ex.spawn("caller", async move {
            let Some(mut tx) = slot.get().await else { return };
            for x in xs {
                if tx.ready().await.is_err() {
                    return;
                }
                let f = submit2(&sim, &mut tx, &ReqSpec { headers: vec![], ..ReqSpec::get(&abs("/c")) }, &x, false);
                let (sim, all) = (sim.clone(), all.clone());
                sp.spawn("exchange", async move {
                    finish2(&sim, f, &x, CRead::All, 0).await;
                    *all.lock().unwrap() += 1;
                });
            }
            std::future::pending::<()>().await;
        });
    }
    let mut end = ex.run();
    let opened = |s: &h2raw::RawSt| s.frames.iter().filter(|(f, _)| f.kind == frames::HEADERS).map(|(f, _)| f.sid).collect::<Vec<_>>();
    let mut judged = judge_settings(&raw.st.lock().unwrap(), &want, false, conn_win, out);
    match sc {
        1 | 2 => {
            judged = true;
            let ids = opened(&raw.st.lock().unwrap());
            if ids.len() != reqs.min(init) {
                out.viol(format!("{} streams opened before the peer's settings were known, for {reqs} requests and a limit of {init}", ids.len()));
            }
            raw.st.lock().unwrap().ack_settings = true;
            let mut v = frames::settings(&peer_max.map(|m| vec![(3u16, m)]).unwrap_or_default());
            v.extend(frames::settings_ack());
            raw.put(&v);
            end = ex.run();
            // answer one stream at a time, watching how many are open
            let m = peer_max.map(|m| m as usize).unwrap_or(usize::MAX);
            let mut answered = 0;
            for _ in 0..reqs + 1 {
                let ids = opened(&raw.st.lock().unwrap());
                let open = ids.len() - answered;
                let left = reqs - answered;
                // streams opened before the settings came may exceed the limit
                let cap = m.max(init.min(reqs).saturating_sub(answered));
                if open > cap {
                    out.viol(format!("{open} streams open at once, the peer allows {m} ({init} before its settings)"));
                }
                if open < left.min(m) {
                    out.viol(format!("only {open} streams open with {left} requests left and a limit of {m}"));
                }
                if answered == ids.len() {
                    break;
                }
                raw.put(&h2raw::response(ids[answered], true, "200", &[]));
                answered += 1;
                end = ex.run();
            }
            for (i, x) in xs.iter().enumerate() {
                if x.lock().unwrap().status != Some(200) {
                    out.viol(format!("request {i} was not answered: {:?}", x.lock().unwrap().err.as_ref().map(|e| e.dbg.clone())));
                }
            }
        }
        _ => {
            judged = true;
            raw.put(&answer);
            end = ex.run();
            let g = xs[0].lock().unwrap();
            let clean = g.status == Some(200) && g.got.lock().unwrap().clean();
            if ok != clean {
                out.viol(format!("a message {} the limit: status {:?} err {:?} body {:?}", if ok { "within" } else { "past" }, g.status, g.err.as_ref().map(|e| e.dbg.clone()), g.got.lock().unwrap().err));
            }
            if sc == 4 && !ok && raw.st.lock().unwrap().goaways().last().map(|g| g.1) != Some(6) {
                out.viol("a frame past the limit was not refused with FRAME_SIZE_ERROR".to_string());
            }
        }
    }
    judge_pings(&raw.st.lock().unwrap(), windows.0, out);
    (L[sc], desc, judged, end)
}
