//! C17: HTTP/2 flow control: windows respected, replenished and never leaked; bodies pulled only as far as the peer reads.
use crate::body::*;
use crate::cli::*;
use crate::frames;
use crate::h2raw::*;
use crate::h2x::*;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::srv::*;
use crate::tun::*;
use crate::util::*;
use std::collections::BTreeMap;
use std::future::Future;
use std::sync::{Arc, Mutex};

pub const CHECK: Check = Check {
    id: "C17",
    level: "exploration",
    rule: "a case is one HTTP/2 connection between hyper (server or client) and a frame-level peer that obeys or grants windows exactly: as receiver hyper has 2-10 streams read, partly read, dropped, reset, failed, held or tunnelled, and afterwards probe streams compare the connection window it restores with its target; as sender it has 1-6 bodies (some never ready) against dripped, withheld or exhausted-only credit or a blocked transport; distinct = distinct (wire bytes, schedule) with at least one window update received or one exhausted window",
    quick: 20_000,
    thorough: 600_000,
    run: case,
    assumptions: &["h2 announces credit once it is at least half of the window that remains", "the send buffer limit is the configured max_send_buf_size"],
};

fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    match r.below(4) {
        0 => recv_server(ctx, &mut r, &sim, &mut out),
        1 => recv_client(ctx, &mut r, &sim, &mut out),
        2 => send(ctx, &mut r, &sim, &mut out, true),
        _ => send(ctx, &mut r, &sim, &mut out, false),
    }
    if ctx.trace {
        let mut t = sim.take_log();
        t.append(&mut out.trace);
        out.trace = t;
    }
    out
}
/// what hyper has granted so far: (stream window at start, connection grants, grants per stream)
fn grants(st: &RawSt) -> (i64, i64, BTreeMap<u32, i64>) {
    let (mut init, mut conn, mut per) = (65_535i64, 0i64, BTreeMap::new());
    for (f, _) in &st.frames {
        match f.kind {
            frames::SETTINGS if !f.ack() => {
                for c in f.payload.chunks_exact(6) {
                    if u16::from_be_bytes([c[0], c[1]]) == 4 {
                        init = u32::from_be_bytes([c[2], c[3], c[4], c[5]]) as i64;
                    }
                }
            }
            frames::WUPD if f.payload.len() == 4 => {
                let inc = (f.u32_at(0) & 0x7fff_ffff) as i64;
                if f.sid == 0 {
                    conn += inc
                } else {
                    *per.entry(f.sid).or_insert(0) += inc
                }
            }
            _ => {}
        }
    }
    (init, conn, per)
}
#[derive(Default)]
struct Sent {
    conn: i64,
    per: BTreeMap<u32, i64>,
    /// padding counts against the windows but is never given to a reader
    pad: BTreeMap<u32, i64>,
}
#[derive(Clone)]
struct Feeder {
    raw: Raw,
    sim: Sim,
    sent: Arc<Mutex<Sent>>,
}
impl Feeder {
    fn room(&self, st: &RawSt, sid: u32) -> (i64, i64) {
        let (init, conn, per) = grants(st);
        let s = self.sent.lock().unwrap();
        (65_535 + conn - s.conn, init + per.get(&sid).copied().unwrap_or(0) - s.per.get(&sid).copied().unwrap_or(0))
    }
    /// Sends `body[..upto]` as the windows allow; false if the stream or connection is gone.
    async fn feed(&self, sid: u32, body: &[u8], upto: usize, chunk: usize, pad: usize, pace: usize, eos: bool) -> bool {
        self.feed_from(sid, body, 0, upto, chunk, pad, pace, eos).await
    }
    #[allow(clippy::too_many_arguments)]
    async fn feed_from(&self, sid: u32, body: &[u8], from: usize, upto: usize, chunk: usize, pad: usize, pace: usize, eos: bool) -> bool {
        let gone = |s: &RawSt| s.rst(sid).is_some() || s.eof || s.err.is_some();
        if !self.raw.wait(|s| s.has(0, frames::SETTINGS)).await {
            return false;
        }
        let mut off = from;
        while off < upto {
            let (a, b, g) = {
                let s = self.raw.st.lock().unwrap();
                let (a, b) = self.room(&s, sid);
                (a, b, gone(&s))
            };
            if g {
                return false;
            }
            let room = a.min(b);
            if room <= 0 {
                self.raw
                    .wait(|s| {
                        let (a, b) = self.room(s, sid);
                        a.min(b) > 0 || gone(s)
                    })
                    .await;
                if self.raw.st.lock().unwrap().eof {
                    return false;
                }
                continue;
            }
            let extra = if pad > 0 && room > pad as i64 + 1 { pad + 1 } else { 0 };
            let k = (room as usize - extra).min(chunk).min(upto - off).min(16_384 - 256);
            let last = eos && off + k == body.len();
            let f = if extra > 0 {
                let mut p = vec![pad as u8];
                p.extend_from_slice(&body[off..off + k]);
                p.resize(p.len() + pad, 0);
                frames::frame(frames::DATA, 8 | last as u8, sid, &p)
            } else {
                frames::data(sid, last, &body[off..off + k])
            };
            {
                let mut s = self.sent.lock().unwrap();
                s.conn += (k + extra) as i64;
                *s.per.entry(sid).or_insert(0) += (k + extra) as i64;
                *s.pad.entry(sid).or_insert(0) += extra as i64;
            }
            self.raw.put(&f);
            off += k;
            self.sim.yields(pace).await;
        }
        if eos && body.is_empty() {
            self.raw.put(&frames::data(sid, true, b""));
        }
        true
    }
    /// A rule on the windows that hyper has granted.
    fn judge(&self, out: &mut CaseOut, when: &str, target: i64, live: &BTreeMap<u32, i64>, done: &[u32], adaptive: bool) {
        if adaptive {
            return;
        }
        let st = self.raw.st.lock().unwrap();
        let (init, conn, per) = grants(&st);
        let s = self.sent.lock().unwrap();
        let mut used = 0;
        for (sid, n) in &s.per {
            match live.get(sid) {
                Some(eaten) if !done.contains(sid) => {
                    let g = per.get(sid).copied().unwrap_or(0);
                    let eaten = eaten + s.pad.get(sid).copied().unwrap_or(0);
                    if g > eaten {
                        out.viol(format!("{when}: stream {sid} was credited {g} bytes although only {eaten} were taken"));
                    }
                    // what was taken must be credited once it makes up half of what is left (the h2
                    // crate waits until then, and looks only when something is taken)
                    let (w, could) = (init + g - n, init + eaten - n);
                    if could == init && w < init && init - w >= w / 2 {
                        out.viol(format!("{when}: stream {sid} has a window of {w} left, of {init}, although {eaten} of the {n} bytes sent were taken"));
                    }
                    if could == init {
                        out.count("windows_of_streams_read_dry", 1);
                    }
                    used += eaten;
                }
                _ => used += n,
            }
        }
        let raise = (target - 65_535).max(0);
        if conn > raise + used {
            out.viol(format!("{when}: the connection was credited {} bytes although only {used} were consumed or discarded", conn - raise));
        }
        out.count("credited_bytes", conn as u64);
    }
}
fn pick_cfg(r: &mut Rng, client: bool) -> (H2Cfg, i64) {
    let mut c = H2Cfg::plain();
    c.stream_win = *r.pick(&[None, Some(2000), Some(16_384), Some(16_384), Some(65_535), Some(40_000), Some(1 << 20)]);
    c.conn_win = *r.pick(&[None, Some(65_535), Some(65_535), Some(70_000), Some(100_000), Some(200_000), Some(20_000), Some(30_000)]);
    if client && c.conn_win.is_none() && r.pct(80) {
        c.conn_win = Some(90_000);
    }
    c.adaptive = r.pct(8);
    c.connect = true;
    c.timer = true;
    let t = c.conn_win.unwrap_or(if client { 5 << 20 } else { 1 << 20 }) as i64;
    (c, t)
}
#[derive(Clone, Debug, PartialEq)]
enum RKind {
    All,
    Partial(usize),
    Never,
    Later,
    /// held, then reset by the peer after some bytes, then dropped or read
    RstHeld(u32),
    RstRead(u32),
    SvcErr,
    Tunnel(usize),
    TunnelAll,
}

fn recv_server(ctx: &Ctx, r: &mut Rng, sim: &Sim, out: &mut CaseOut) {
    let n = r.range(2, 10);
    let (cfg, target) = pick_cfg(r, false);
    let swin = cfg.stream_win.unwrap_or(1 << 20) as usize;
    let gate = Gate::default();
    let (mut kinds, mut plans, mut bodies) = (vec![], vec![], vec![]);
    for _ in 0..n {
        let k = match r.below(12) {
            0..=2 => RKind::All,
            3 | 4 => RKind::Partial(r.range(1, 4)),
            5 | 6 => RKind::Never,
            7 => RKind::Later,
            8 => RKind::RstHeld(*r.pick(&[0u32, 2, 8])),
            9 => RKind::RstRead(*r.pick(&[0u32, 2, 8])),
            10 => RKind::SvcErr,
            _ => {
                if r.pct(70) {
                    RKind::Tunnel(r.range(1, 20_000))
                } else {
                    RKind::TunnelAll
                }
            }
        };
        let mut p = Plan::simple(RespSpec::ok(b""));
        p.pace = *r.pick(&[0, 30]);
        p.delay = *r.pick(&[0, 0, 3, 20]);
        p.read = match &k {
            RKind::All => r.pick(&[ReadPlan::All, ReadPlan::Concurrent, ReadPlan::AfterRespond]).clone(),
            RKind::Partial(n) => ReadPlan::Partial(*n),
            RKind::Never => ReadPlan::Never,
            RKind::Later | RKind::RstHeld(_) => ReadPlan::Later(gate.clone()),
            RKind::RstRead(_) => r.pick(&[ReadPlan::All, ReadPlan::Concurrent]).clone(),
            RKind::SvcErr => {
                p.fail = true;
                r.pick(&[ReadPlan::Never, ReadPlan::Partial(1), ReadPlan::Partial(3)]).clone()
            }
            _ => ReadPlan::Never,
        };
        let len = *r.pick(&[100usize, 5_000, 20_000, 60_000]);
        let len = r.range(1, len).min(swin * 12);
        bodies.push(r.body(len));
        kinds.push(k);
        plans.push(p);
    }
    let probe = Plan::simple(RespSpec::ok(b""));
    for _ in 0..200 {
        plans.push(probe.clone());
    }
    let bytes = bodies.iter().map(|b| b.len()).sum::<usize>() * 2;
    let (ioa, iob) = crate::h2ex::gen_io2(r, bytes + 200_000);
    let (a, b, wire) = pipe(sim, ioa, iob);
    wire.record_order();
    let mut ex = Exec::new(sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let svc = Svc::new(&ex, plans.clone()).by_id();
    let st = svc.st.clone();
    let end = serve_h2(&mut ex, &cfg, b, svc.clone(), Gate::default());
    let raw = Raw::spawn(&mut ex, a, true);
    raw.put(&[frames::PREFACE, &frames::settings(&[(1, 0), (4, 1 << 20)]), &frames::wupd(0, 1 << 24)].concat());
    let f = Feeder { raw: raw.clone(), sim: sim.clone(), sent: Default::default() };
    let tuns: Arc<Mutex<BTreeMap<u32, Tun>>> = Default::default();
    let sp = ex.spawner();
    let par: Vec<(usize, usize, usize, usize, usize)> =
        (0..n).map(|i| (*r.pick(&[0usize, 0, 3, 20]), r.range(300, 16_000), if r.pct(20) { r.below(100) } else { 0 }, *r.pick(&[0, 0, 2]), r.below(bodies[i].len() + 1))).collect();
    let serial = r.pct(30);
    let (mid, pause) = (Gate::default(), r.pct(50));
    {
        let mid = mid.clone();
        let (f, kinds, bodies, sp, sim, st, tuns, calls) = (f.clone(), kinds.clone(), bodies.clone(), sp.clone(), sim.clone(), st.clone(), tuns.clone(), svc.calls.clone());
        ex.spawn("streams", async move {
            for i in 0..n {
                let sid = 1 + 2 * i as u32;
                let (gap, chunk, pad, pace, cut) = par[i];
                sim.yields(gap).await;
                let id = i.to_string();
                let tunnel = matches!(kinds[i], RKind::Tunnel(_) | RKind::TunnelAll);
                if tunnel {
                    f.raw.put(&frames::headers(sid, false, &[(":method", b"CONNECT"), (":authority", b"example.com:80"), ("x-id", id.as_bytes())]));
                } else {
                    f.raw.put(&request(sid, false, "POST", "/", &[("x-id", id.as_bytes())]));
                }
                let mid = mid.clone();
                let (f, k, body, sim, st, tuns, calls, sp2) = (f.clone(), kinds[i].clone(), bodies[i].clone(), sim.clone(), st.clone(), tuns.clone(), calls.clone(), sp.clone());
                let task = async move {
                    if tunnel {
                        let up = loop {
                            let c = calls.get();
                            let up = {
                                let mut s = st.lock().unwrap();
                                s.seen.iter_mut().find(|s| s.headers.iter().any(|(k, v)| k == "x-id" && v == id.as_bytes())).and_then(|s| s.on_upgrade.take())
                            };
                            if let Some(u) = up {
                                break u;
                            }
                            calls.at_least(c + 1).await;
                        };
                        let (sim2, tuns) = (sim.clone(), tuns.clone());
                        let want = match k {
                            RKind::Tunnel(n) => n,
                            _ => usize::MAX,
                        };
                        sp2.spawn("tunnel", async move {
                            if let Ok(u) = up.await {
                                let t = Tun::new(&sim2, Box::new(u));
                                tuns.lock().unwrap().insert(sid, t.clone());
                                t.clone().read_to(want, 9000, 20).await;
                                t.drop_io();
                            }
                        });
                    }
                    match k {
                        RKind::RstHeld(c) | RKind::RstRead(c) => {
                            f.feed(sid, &body, cut, chunk, pad, pace, false).await;
                            f.raw.put(&frames::rst(sid, c));
                        }
                        _ => {
                            let cut = cut.min(body.len() - 1);
                            if pause && f.feed(sid, &body, cut, chunk, pad, pace, false).await {
                                mid.wait().await;
                            }
                            f.feed_from(sid, &body, if pause { cut } else { 0 }, body.len(), chunk, pad, pace, true).await;
                        }
                    }
                };
                if serial {
                    // one after the other as far as they get
                    let mut t = Box::pin(task);
                    let mut left = 200;
                    let done = std::future::poll_fn(|cx| {
                        if t.as_mut().poll(cx).is_ready() {
                            return std::task::Poll::Ready(true);
                        }
                        left -= 1;
                        if left == 0 {
                            return std::task::Poll::Ready(false);
                        }
                        cx.waker().wake_by_ref();
                        std::task::Poll::Pending
                    })
                    .await;
                    if !done {
                        sp.spawn("stream", t);
                    }
                } else {
                    sp.spawn("stream", task);
                }
            }
        });
    }
    if !settle(ex.run(), out) {
        return;
    }
    let live = |st: &Arc<Mutex<SvcState>>| {
        let s = st.lock().unwrap();
        let mut m = BTreeMap::new();
        for (i, k) in kinds.iter().enumerate() {
            let sid = 1 + 2 * i as u32;
            let eaten = match k {
                // still open unless they completed
                RKind::All | RKind::Later => seen_id(&s, i).map(|s| {
                    let g = s.got.lock().unwrap();
                    (g.data.len(), g.done)
                }),
                RKind::TunnelAll => tuns.lock().unwrap().get(&sid).map(|t| {
                    let l = t.log.lock().unwrap();
                    (l.data.len(), l.eof)
                }),
                _ => None,
            };
            if let Some((n, false)) = eaten {
                m.insert(sid, n as i64);
            }
        }
        m
    };
    {
        let l = live(&st);
        out.count("held_streams", l.len() as u64);
        f.judge(out, "while streams are held", target, &l, &[], cfg.adaptive);
    }
    mid.open();
    if !settle(ex.run(), out) {
        return;
    }
    gate.open();
    if !settle(ex.run(), out) {
        return;
    }
    // everything that is read to the end must have arrived
    {
        let s = st.lock().unwrap();
        for (i, k) in kinds.iter().enumerate() {
            let sid = 1 + 2 * i as u32;
            match k {
                RKind::All | RKind::Later => {
                    let Some(x) = seen_id(&s, i) else {
                        out.viol(format!("stream {sid} ({k:?}) never reached the service"));
                        continue;
                    };
                    let g = x.got.lock().unwrap();
                    if !g.clean() || g.data != bodies[i] {
                        out.viol(format!("stream {sid} ({k:?}) is stuck or wrong: {} of {} bytes read, end {}, error {:?}; windows {:?}", g.data.len(), bodies[i].len(), g.done, g.err, f.room(&raw.st.lock().unwrap(), sid)));
                    }
                }
                RKind::TunnelAll => {
                    let t = tuns.lock().unwrap().get(&sid).cloned();
                    let l = t.map(|t| t.log.lock().unwrap().clone()).unwrap_or_default();
                    if !l.eof || l.data != bodies[i] {
                        out.viol(format!("tunnel {sid} is stuck or wrong: {} of {} bytes read, end {}, error {:?}", l.data.len(), bodies[i].len(), l.eof, l.read_err));
                    }
                }
                _ => {}
            }
        }
    }
    if !out.violations.is_empty() {
        return finish(ctx, sim, &wire, &kinds, out);
    }
    f.judge(out, "after all streams ended", target, &BTreeMap::new(), &[], cfg.adaptive);
    // probes: the connection window comes back to its target
    let size = swin.min(16_000);
    let mut id = n;
    let mut back = 0;
    let base = grants(&raw.st.lock().unwrap()).1;
    while id < n + 190 && back == 0 {
        let sid = 1 + 2 * id as u32;
        let (init, conn, _) = grants(&raw.st.lock().unwrap());
        let w = 65_535 + conn - f.sent.lock().unwrap().conn;
        let k = (size as i64).min(w).min(init);
        if k <= 0 {
            out.viol(format!("the connection window is used up ({w}) although every stream has ended and nothing is unread"));
            break;
        }
        raw.put(&request(sid, false, "POST", "/", &[("x-id", id.to_string().as_bytes())]));
        raw.put(&frames::data(sid, true, &vec![7u8; k as usize]));
        f.sent.lock().unwrap().conn += k;
        f.sent.lock().unwrap().per.insert(sid, k);
        if !settle(ex.run(), out) {
            return;
        }
        let s = st.lock().unwrap();
        match seen_id(&s, id) {
            Some(x) if whole(&x.got, k as usize) => {}
            _ => {
                out.viol(format!("probe stream {sid} was not served"));
                break;
            }
        }
        drop(s);
        let c2 = grants(&raw.st.lock().unwrap()).1;
        if c2 != conn {
            back = c2 - base;
            let w = 65_535 + c2 - f.sent.lock().unwrap().conn;
            // (the update may go out on the probe's arrival, before it is read)
            if w != target && w != target - k && !cfg.adaptive {
                out.viol(format!("the connection window was restored to {w}, not to its target {target}: {} or {} bytes lost", target - w, target - w - k));
            }
        }
        out.count("probe_streams", 1);
        id += 1;
    }
    if back == 0 && out.violations.is_empty() && !cfg.adaptive && (id - n) * size > target as usize {
        out.viol("a whole connection window of probes brought no window update");
    }
    if end.lock().unwrap().done {
        out.viol(format!("the connection ended: {}", end.lock().unwrap().err));
    }
    out.count("recv_server_cases", 1);
    finish(ctx, sim, &wire, &kinds, out)
}
fn seen_id<'a>(s: &'a SvcState, i: usize) -> Option<&'a Seen> {
    let id = i.to_string();
    s.seen.iter().find(|s| s.headers.iter().any(|(k, v)| k == "x-id" && v == id.as_bytes()))
}
fn whole(g: &GotRef, n: usize) -> bool {
    let g = g.lock().unwrap();
    g.clean() && g.data.len() == n
}
fn settle(e: End, out: &mut CaseOut) -> bool {
    match at_rest(e) {
        End::StepLimit => {
            out.inconclusive = Some("too many steps".into());
            false
        }
        End::Spin(t) => {
            out.viol(format!("task {t} spins without progress"));
            false
        }
        _ => true,
    }
}
fn finish(ctx: &Ctx, sim: &Sim, wire: &Wire, kinds: &dyn std::fmt::Debug, out: &mut CaseOut) {
    let order = wire.order.lock().unwrap().clone().unwrap_or_default();
    let (sa, sb) = (wire.sent_by_a(), wire.sent_by_b());
    let au = frames::audit(&order, &sa, &sb, true);
    for p in &au.problems {
        out.viol(p.clone());
    }
    out.count("window_updates", au.window_updates);
    out.count("exhausted_stream_windows", au.stream_hit_zero);
    out.count("exhausted_connection_windows", au.conn_hit_zero);
    out.nontrivial = au.window_updates > 1 || au.stream_hit_zero + au.conn_hit_zero > 0;
    out.sig = mix(sim.st(|s| s.hash), fnv(&sa) ^ fnv(&sb));
    if ctx.index < 8 {
        out.desc = Some(format!("streams {kinds:?}"));
    }
    if ctx.trace {
        out.trace.extend(frames::dump(&order, &sa, &sb, true));
    }
}

#[derive(Clone, Debug, PartialEq)]
enum CKind {
    All,
    Partial(usize),
    Never,
    Keep,
    /// kept, then reset by the server part way
    RstKeep(u32),
    RstRead(u32),
    Tunnel(usize),
    TunnelAll,
}
fn recv_client(ctx: &Ctx, r: &mut Rng, sim: &Sim, out: &mut CaseOut) {
    let n = r.range(2, 10);
    let (cfg, target) = pick_cfg(r, true);
    let swin = cfg.stream_win.unwrap_or(2 << 20) as usize;
    let (mut kinds, mut bodies) = (vec![], vec![]);
    for _ in 0..n {
        kinds.push(match r.below(11) {
            0..=2 => CKind::All,
            3 | 4 => CKind::Partial(r.range(1, 4)),
            5 | 6 => CKind::Never,
            7 => CKind::Keep,
            8 => CKind::RstKeep(*r.pick(&[0u32, 2, 8])),
            9 => CKind::RstRead(*r.pick(&[0u32, 2, 8])),
            _ => {
                if r.pct(60) {
                    CKind::Tunnel(r.range(1, 20_000))
                } else {
                    CKind::TunnelAll
                }
            }
        });
        let len = *r.pick(&[100usize, 5_000, 20_000, 60_000]);
        let len = r.range(1, len).min(swin * 12);
        bodies.push(r.body(len));
    }
    let bytes = bodies.iter().map(|b| b.len()).sum::<usize>() * 2;
    let (ioa, iob) = crate::h2ex::gen_io2(r, bytes + 200_000);
    let (a, b, wire) = pipe(sim, ioa, iob);
    wire.record_order();
    let mut ex = Exec::new(sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let (slot, end) = connect_h2(&mut ex, &cfg, a);
    let raw = Raw::spawn(&mut ex, b, false);
    raw.put(&[frames::settings(&[(1, 0), (4, 1 << 20)]), frames::wupd(0, 1 << 24)].concat());
    let f = Feeder { raw: raw.clone(), sim: sim.clone(), sent: Default::default() };
    let xs: Vec<ExRef> = (0..n + 200).map(|_| ExRef::default()).collect();
    let tuns: Arc<Mutex<BTreeMap<u32, Tun>>> = Default::default();
    let gate = Gate::default();
    let sp = ex.spawner();
    let par: Vec<(usize, usize, usize, usize, usize)> =
        (0..n).map(|i| (*r.pick(&[0usize, 0, 3, 20]), r.range(300, 16_000), if r.pct(20) { r.below(100) } else { 0 }, *r.pick(&[0, 0, 2]), r.below(bodies[i].len() + 1))).collect();
    let drop_kept = r.pct(50);
    let (mid, pause) = (Gate::default(), r.pct(50));
    let after: crate::peer::Count = Default::default();
    {
        let mid = mid.clone();
        let (slot, kinds, bodies, sp, sim, xs, tuns, gate, f, after) = (slot.clone(), kinds.clone(), bodies.clone(), sp.clone(), sim.clone(), xs.clone(), tuns.clone(), gate.clone(), f.clone(), after.clone());
        ex.spawn("callers", async move {
            let Some(mut tx) = slot.get().await else { return };
            // the peer's settings first
            f.raw.wait(|s| s.frames.iter().any(|(f, _)| f.kind == frames::SETTINGS && f.ack())).await;
            for i in 0..n {
                let sid = 1 + 2 * i as u32;
                let (gap, chunk, pad, pace, cut) = par[i];
                sim.yields(gap).await;
                let tunnel = matches!(kinds[i], CKind::Tunnel(_) | CKind::TunnelAll);
                let mut spec = ReqSpec::get(&abs("/"));
                if tunnel {
                    spec.method = "CONNECT".into();
                    spec.uri = "example.com:80".into();
                }
                let fut = submit2(&sim, &mut tx, &spec, &xs[i], false);
                let (x, k, sim2, tuns, gate, after) = (xs[i].clone(), kinds[i].clone(), sim.clone(), tuns.clone(), gate.clone(), after.clone());
                sp.spawn("caller", async move {
                    let rd = match &k {
                        CKind::All | CKind::RstRead(_) => CRead::All,
                        CKind::Partial(n) => CRead::Partial(*n),
                        CKind::Keep | CKind::RstKeep(_) => CRead::Keep,
                        _ => CRead::Never,
                    };
                    finish2(&sim2, fut, &x, rd, 20).await;
                    if tunnel {
                        let up = x.lock().unwrap().upgrade.take();
                        if let Some(Ok(u)) = match up {
                            Some(u) => Some(u.await),
                            None => None,
                        } {
                            let t = Tun::new(&sim2, Box::new(u));
                            tuns.lock().unwrap().insert(sid, t.clone());
                            let want = match k {
                                CKind::Tunnel(n) => n,
                                _ => usize::MAX,
                            };
                            t.clone().read_to(want, 9000, 20).await;
                            t.drop_io();
                        }
                        return;
                    }
                    if matches!(k, CKind::Keep | CKind::RstKeep(_)) {
                        gate.wait().await;
                        let body = x.lock().unwrap().body.take();
                        if let Some(mut b) = body {
                            if drop_kept && !matches!(k, CKind::Keep) {
                                drop(b);
                            } else {
                                let g = x.lock().unwrap().got.clone();
                                read_body(&sim2, &mut b, &g, 20, usize::MAX).await;
                            }
                        }
                        after.add(1);
                    }
                });
                let (f, k, body, mid) = (f.clone(), kinds[i].clone(), bodies[i].clone(), mid.clone());
                sp.spawn("answer", async move {
                    if !f.raw.wait(|s| s.has(sid, frames::HEADERS)).await {
                        return;
                    }
                    f.raw.put(&response(sid, false, "200", &[]));
                    match k {
                        CKind::RstKeep(c) | CKind::RstRead(c) => {
                            f.feed(sid, &body, cut, chunk, pad, pace, false).await;
                            f.raw.put(&frames::rst(sid, c));
                        }
                        _ => {
                            let cut = cut.min(body.len() - 1);
                            if pause && f.feed(sid, &body, cut, chunk, pad, pace, false).await {
                                mid.wait().await;
                            }
                            f.feed_from(sid, &body, if pause { cut } else { 0 }, body.len(), chunk, pad, pace, true).await;
                        }
                    }
                });
            }
        });
    }
    if !settle(ex.run(), out) {
        return;
    }
    {
        let mut m = BTreeMap::new();
        for (i, k) in kinds.iter().enumerate() {
            let sid = 1 + 2 * i as u32;
            let x = xs[i].lock().unwrap();
            let g = x.got.lock().unwrap();
            match k {
                CKind::All | CKind::Keep if !g.done => {
                    m.insert(sid, g.data.len() as i64);
                }
                CKind::TunnelAll => {
                    if let Some(t) = tuns.lock().unwrap().get(&sid) {
                        let l = t.log.lock().unwrap();
                        if !l.eof {
                            m.insert(sid, l.data.len() as i64);
                        }
                    }
                }
                _ => {}
            }
        }
        out.count("held_streams", m.len() as u64);
        f.judge(out, "while streams are held", target, &m, &[], cfg.adaptive);
    }
    mid.open();
    if !settle(ex.run(), out) {
        return;
    }
    gate.open();
    if !settle(ex.run(), out) {
        return;
    }
    for (i, k) in kinds.iter().enumerate() {
        let sid = 1 + 2 * i as u32;
        let x = xs[i].lock().unwrap();
        match k {
            CKind::All | CKind::Keep => {
                let g = x.got.lock().unwrap();
                if !g.clean() || g.data != bodies[i] {
                    out.viol(format!("response {sid} ({k:?}) is stuck or wrong: {} of {} bytes read, end {}, error {:?}; windows {:?}", g.data.len(), bodies[i].len(), g.done, g.err, f.room(&raw.st.lock().unwrap(), sid)));
                }
            }
            CKind::TunnelAll => {
                let t = tuns.lock().unwrap().get(&sid).cloned();
                let l = t.map(|t| t.log.lock().unwrap().clone()).unwrap_or_default();
                if !l.eof || l.data != bodies[i] {
                    out.viol(format!("tunnel {sid} is stuck or wrong: {} of {} bytes read, end {}, error {:?}", l.data.len(), bodies[i].len(), l.eof, l.read_err));
                }
            }
            _ => {}
        }
    }
    if !out.violations.is_empty() {
        return finish(ctx, sim, &wire, &kinds, out);
    }
    f.judge(out, "after all streams ended", target, &BTreeMap::new(), &[], cfg.adaptive);
    let size = swin.min(16_000);
    let mut id = n;
    let mut back = 0;
    let base = grants(&raw.st.lock().unwrap()).1;
    while id < n + 190 && back == 0 {
        let sid = 1 + 2 * id as u32;
        let (init, conn, _) = grants(&raw.st.lock().unwrap());
        let w = 65_535 + conn - f.sent.lock().unwrap().conn;
        let k = (size as i64).min(w).min(init);
        if k <= 0 {
            out.viol(format!("the connection window is used up ({w}) although every stream has ended and nothing is unread"));
            break;
        }
        {
            let (slot, sim2, x, raw2) = (slot.clone(), sim.clone(), xs[id].clone(), raw.clone());
            ex.spawn("probe", async move {
                let Some(mut tx) = slot.get().await else { return };
                let fut = submit2(&sim2, &mut tx, &ReqSpec::get(&abs("/probe")), &x, false);
                raw2.wait(|s| s.has(sid, frames::HEADERS)).await;
                raw2.put(&response(sid, false, "200", &[]));
                raw2.put(&frames::data(sid, true, &vec![7u8; k as usize]));
                finish2(&sim2, fut, &x, CRead::All, 0).await;
            });
        }
        f.sent.lock().unwrap().conn += k;
        f.sent.lock().unwrap().per.insert(sid, k);
        if !settle(ex.run(), out) {
            return;
        }
        {
            let x = xs[id].lock().unwrap();
            let g = x.got.lock().unwrap();
            if !g.clean() || g.data.len() != k as usize {
                out.viol(format!("probe {sid} was not answered: error {:?}, {} bytes", x.err, g.data.len()));
                break;
            }
        }
        let c2 = grants(&raw.st.lock().unwrap()).1;
        if c2 != conn {
            back = c2 - base;
            let w = 65_535 + c2 - f.sent.lock().unwrap().conn;
            // (the update may go out on the probe's arrival, before it is read)
            if w != target && w != target - k && !cfg.adaptive {
                out.viol(format!("the connection window was restored to {w}, not to its target {target}: {} or {} bytes lost", target - w, target - w - k));
            }
        }
        out.count("probe_streams", 1);
        id += 1;
    }
    if back == 0 && out.violations.is_empty() && !cfg.adaptive && (id - n) * size > target as usize {
        out.viol("a whole connection window of probes brought no window update");
    }
    if end.lock().unwrap().done {
        out.viol(format!("the connection ended: {}", end.lock().unwrap().err));
    }
    out.count("recv_client_cases", 1);
    finish(ctx, sim, &wire, &kinds, out)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Credit {
    /// give back every byte at once
    Now,
    /// give back random amounts
    Drip,
    /// only once a window is used up
    Exhausted,
    /// nothing until the gate, then drip
    Withheld,
    /// windows are wide but the transport takes nothing until the gate
    Blocked,
}
/// hyper sends bodies, the raw peer grants the windows
fn send(ctx: &Ctx, r: &mut Rng, sim: &Sim, out: &mut CaseOut, server: bool) {
    let n = r.range(1, 6);
    let mut cfg = H2Cfg::plain();
    cfg.send_buf = *r.pick(&[None, None, Some(100), Some(1000), Some(16_384), Some(100_000)]);
    cfg.timer = true;
    let credit = *r.pick(&[Credit::Now, Credit::Drip, Credit::Drip, Credit::Exhausted, Credit::Exhausted, Credit::Withheld, Credit::Withheld, Credit::Blocked]);
    let w0: u32 = match credit {
        Credit::Blocked => 1 << 22,
        _ => *r.pick(&[0, 1, 100, 1000, 5000, 16_384, 20_000, 65_535, 70_000, 1 << 20]),
    };
    let frame = *r.pick(&[16_384u32, 16_384, 20_000, 100_000]);
    let big = credit == Credit::Blocked;
    let chunk = *r.pick(&[10usize, 500, 5000, 20_000, 70_000]);
    let mut scripts = vec![];
    for i in 0..n {
        let chunk = if w0 <= 100 { chunk.min(500) } else { chunk };
        let total = if w0 <= 100 { r.range(1, 3000) } else { r.range(1, if big { 300_000 } else { 90_000 }) };
        let stuck = i > 0 && r.pct(15);
        let mut steps = vec![];
        let mut left = total;
        while left > 0 {
            let lo = left.min(chunk.max(total / 60));
            let k = r.range(1, lo);
            let k = if r.pct(60) { lo } else { k };
            steps.push(Step::Data(r.body(k)));
            left -= k;
            match r.below(12) {
                0 => steps.push(Step::Pend(r.range(1, 3) as u32)),
                1 => steps.push(Step::Data(vec![])),
                2 if !big => steps.push(Step::Sleep(1_000_000)),
                _ => {}
            }
            if stuck && r.pct(50) {
                break;
            }
        }
        if stuck {
            steps.push(Step::Never);
        } else if r.pct(15) {
            let mut t = http::HeaderMap::new();
            t.insert("x-trailer", http::HeaderValue::from_static("1"));
            steps.push(Step::Trailers(t));
        }
        scripts.push(Script { steps, hint: if stuck { Hint::Unknown } else { r.pick(&[Hint::Exact, Hint::Unknown]).clone() }, eager_eos: r.pct(50) && !stuck });
    }
    let maxc: Vec<usize> = scripts.iter().map(|s| s.steps.iter().map(|s| if let Step::Data(d) = s { d.len() } else { 0 }).max().unwrap_or(0)).collect();
    let never: Vec<bool> = scripts.iter().map(|s| s.steps.iter().any(|s| matches!(s, Step::Never))).collect();
    for s in scripts.iter_mut() {
        if s.steps.iter().any(|s| matches!(s, Step::Trailers(_))) {
            s.hint = Hint::Unknown;
        }
    }
    let bytes: usize = scripts.iter().map(|s| s.len() as usize).sum();
    let (ioa, iob) = crate::h2ex::gen_io2(r, bytes * 2 + 20_000);
    let (a, b, wire) = pipe(sim, ioa, iob);
    wire.record_order();
    let mut ex = Exec::new(sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let gate = Gate::default();
    let conn_extra: u32 = if credit == Credit::Blocked { 1 << 24 } else { *r.pick(&[0, 0, 0, 1000, 100_000]) };
    let shrink: Option<u32> = if matches!(credit, Credit::Now | Credit::Drip | Credit::Exhausted) && w0 > 100 && r.pct(20) { Some(*r.pick(&[500, 2000, 30_000])) } else { None };
    // h2 asks for every stream's data in pieces of what it was granted: tiny grants make many frames
    let raw;
    let mut logs: Vec<Arc<Mutex<BodyLog>>> = vec![];
    let xs: Vec<ExRef> = (0..n).map(|_| ExRef::default()).collect();
    let mut srv_st = None;
    let out_half;
    let end;
    let _slot;
    if server {
        let mut plans = vec![];
        for s in &scripts {
            let mut p = Plan::simple(RespSpec { script: s.clone(), ..RespSpec::ok(b"") });
            p.delay = *r.pick(&[0, 0, 5]);
            plans.push(p);
        }
        let svc = Svc::new(&ex, plans).by_id();
        srv_st = Some(svc.st.clone());
        end = serve_h2(&mut ex, &cfg, b, svc, Gate::default());
        raw = Raw::spawn(&mut ex, a, true);
        out_half = wire.b2a.clone();
        raw.put(&[frames::PREFACE, &frames::settings(&[(1, 0), (4, w0), (5, frame)])].concat());
        if conn_extra > 0 {
            raw.put(&frames::wupd(0, conn_extra));
        }
        for i in 0..n {
            raw.put(&request(1 + 2 * i as u32, true, "GET", "/", &[("x-id", i.to_string().as_bytes())]));
        }
        _slot = None;
    } else {
        let (slot, e) = connect_h2(&mut ex, &cfg, a);
        end = e;
        raw = Raw::spawn(&mut ex, b, false);
        out_half = wire.a2b.clone();
        raw.put(&frames::settings(&[(1, 0), (4, w0), (5, frame)]));
        if conn_extra > 0 {
            raw.put(&frames::wupd(0, conn_extra));
        }
        let (s2, sim2, xs2, scr, raw2, sp) = (slot.clone(), sim.clone(), xs.clone(), scripts.clone(), raw.clone(), ex.spawner());
        ex.spawn("callers", async move {
            let Some(mut tx) = s2.get().await else { return };
            raw2.wait(|s| s.frames.iter().any(|(f, _)| f.kind == frames::SETTINGS && f.ack())).await;
            for i in 0..scr.len() {
                let mut spec = ReqSpec::get(&abs("/"));
                spec.method = "POST".into();
                spec.script = scr[i].clone();
                let fut = submit2(&sim2, &mut tx, &spec, &xs2[i], false);
                let (sim3, x) = (sim2.clone(), xs2[i].clone());
                sp.spawn("caller", async move { finish2(&sim3, fut, &x, CRead::All, 0).await });
            }
        });
        let (raw2, n2) = (raw.clone(), n);
        let sp = ex.spawner();
        ex.spawn("answers", async move {
            for i in 0..n2 {
                let sid = 1 + 2 * i as u32;
                let raw = raw2.clone();
                sp.spawn("answer", async move {
                    if raw.wait(|s| s.eos(sid)).await {
                        raw.put(&response(sid, true, "200", &[]));
                    }
                });
            }
        });
        _slot = Some(slot);
    }
    // the credit
    let given: Arc<Mutex<(i64, BTreeMap<u32, i64>, i64)>> = Arc::new(Mutex::new((65_535 + conn_extra as i64, BTreeMap::new(), w0 as i64)));
    {
        let (raw, given, gate, sim2, n) = (raw.clone(), given.clone(), gate.clone(), sim.clone(), n);
        let step = *r.pick(&[1usize, 50, 3000, 40_000]);
        let pause = *r.pick(&[0usize, 1, 3]);
        let shrink_after = r.below(20_000);
        ex.spawn("credit", async move {
            if credit == Credit::Withheld {
                gate.wait().await;
            }
            let mut shrink = shrink;
            loop {
                let seen = raw.seen.get();
                let mut fresh = vec![];
                {
                    let s = raw.st.lock().unwrap();
                    if s.eof || s.err.is_some() {
                        return;
                    }
                    let mut g = given.lock().unwrap();
                    let got: Vec<i64> = (0..n).map(|i| s.data(1 + 2 * i as u32).len() as i64).collect();
                    let all: i64 = got.iter().sum();
                    if let Some(v) = shrink {
                        if all as usize >= shrink_after {
                            g.2 = v as i64;
                            fresh.extend(frames::settings(&[(4, v)]));
                            shrink = None;
                        }
                    }
                    let conn_left = g.0 - all;
                    let give = match credit {
                        Credit::Exhausted => {
                            if conn_left <= 0 {
                                65_535
                            } else {
                                0
                            }
                        }
                        Credit::Now | Credit::Blocked => (65_535 + conn_extra as i64 - conn_left).max(0),
                        _ => {
                            if conn_left < 40_000 {
                                1 + sim2.rng(|r| r.below(step.max(800) * 4)) as i64
                            } else {
                                0
                            }
                        }
                    };
                    if give > 0 {
                        g.0 += give;
                        fresh.extend(frames::wupd(0, give as u32));
                    }
                    for i in 0..n {
                        let sid = 1 + 2 * i as u32;
                        if s.eos(sid) || s.rst(sid).is_some() || !s.has(sid, frames::HEADERS) {
                            continue;
                        }
                        let w = g.2 + g.1.get(&sid).copied().unwrap_or(0) - got[i];
                        let floor = (w0 as i64).max(1);
                        let give = match credit {
                            Credit::Exhausted => {
                                if w <= 0 {
                                    floor.max(300) - w
                                } else {
                                    0
                                }
                            }
                            Credit::Now | Credit::Blocked => (floor.max(1) - w).max(0),
                            _ => {
                                if w < 20_000 {
                                    let small = got[i] < 40 * step as i64;
                                    (1 + sim2.rng(|r| r.below(if small { step } else { step.max(2000) })) as i64).max(1 - w)
                                } else {
                                    0
                                }
                            }
                        };
                        if give > 0 {
                            *g.1.entry(sid).or_insert(0) += give;
                            fresh.extend(frames::wupd(sid, give as u32));
                        }
                    }
                }
                if !fresh.is_empty() {
                    raw.put(&fresh);
                }
                sim2.yields(pause).await;
                raw.seen.at_least(seen + 1).await;
            }
        });
    }
    if credit == Credit::Blocked {
        // the transport stops once the first response bytes (or requests) are out
        let (half, gate, raw2, pend) = (out_half.clone(), gate.clone(), raw.clone(), r.below(4));
        let sim2 = sim.clone();
        ex.spawn("blocker", async move {
            raw2.wait(|s| s.frames.iter().any(|(f, _)| f.kind == frames::HEADERS)).await;
            sim2.yields(pend * 5).await;
            Wire::set_hold(&half, true);
            gate.wait().await;
            Wire::set_hold(&half, false);
        });
    }
    if !settle(ex.run(), out) {
        return;
    }
    // how far the bodies were pulled
    let collect = |logs: &mut Vec<Arc<Mutex<BodyLog>>>| -> Vec<Option<usize>> {
        let v: Vec<Option<Arc<Mutex<BodyLog>>>> = (0..n)
            .map(|i| match &srv_st {
                Some(st) => seen_id(&st.lock().unwrap(), i).and_then(|s| s.body_log.clone()),
                None => xs[i].lock().unwrap().body_log.clone(),
            })
            .collect();
        logs.extend(v.iter().flatten().cloned());
        v.iter().map(|l| l.as_ref().map(|l| l.lock().unwrap().pulled_bytes as usize)).collect()
    };
    let pulled = collect(&mut logs);
    if matches!(credit, Credit::Withheld | Credit::Blocked) {
        let rs = raw.st.lock().unwrap();
        let limit = cfg.send_buf.unwrap_or(if server { 400 * 1024 } else { 1 << 20 });
        let sent = frames::parse(&if server { wire.sent_by_b() } else { wire.sent_by_a() }, !server);
        for i in 0..n {
            let sid = 1 + 2 * i as u32;
            let Some(p) = pulled[i] else { continue };
            let got = rs.data(sid).len();
            let bound = match credit {
                Credit::Withheld => got + 2 * maxc[i],
                // what is on the wire, a frame cut by the transport, one in the codec, the buffer
                _ => sent.iter().filter(|f| f.sid == sid && f.kind == frames::DATA).map(|f| f.payload.len()).sum::<usize>() + limit + 2 * maxc[i] + 2 * frame as usize,
            };
            if p > bound {
                out.viol(format!("stream {sid}: {p} bytes were pulled from the body although the peer took only {got} (bound {bound}, credit {credit:?}, largest chunk {})", maxc[i]));
            }
            out.count("backpressured_bodies", (p < scripts[i].len() as usize) as u64);
        }
    }
    gate.open();
    if !settle(ex.run(), out) {
        return;
    }
    {
        let rs = raw.st.lock().unwrap();
        for i in 0..n {
            let sid = 1 + 2 * i as u32;
            let (w, g) = (scripts[i].data(), rs.data(sid));
            if g != w || (!rs.eos(sid) && !never[i]) || rs.rst(sid).is_some() {
                let gv = given.lock().unwrap();
                out.viol(format!(
                    "stream {sid}: {} of {} bytes sent, ended {}, reset {:?} with stream window {} and connection window {} open (credit {credit:?})",
                    g.len(),
                    w.len(),
                    rs.eos(sid),
                    rs.rst(sid),
                    gv.2 + gv.1.get(&sid).copied().unwrap_or(0) - g.len() as i64,
                    gv.0 - (0..n).map(|i| rs.data(1 + 2 * i as u32).len() as i64).sum::<i64>()
                ));
            }
        }
    }
    if end.lock().unwrap().done {
        out.viol(format!("the connection ended: {}", end.lock().unwrap().err));
    }
    out.count(if server { "send_server_cases" } else { "send_client_cases" }, 1);
    out.count("bodies_never_ready", never.iter().filter(|x| **x).count() as u64);
    finish(ctx, sim, &wire, &(credit, w0, frame, cfg.send_buf, scripts.iter().map(|s| s.len()).collect::<Vec<_>>(), shrink), out)
}
