//! C19: HTTP/2 keep-alive against a model of when pings and timeouts are due, in virtual time.
use crate::body::*;
use crate::cli::*;
use crate::frames;
use crate::h2raw::*;
use crate::h2x::*;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::srv::*;
use crate::util::*;
use std::future::Future;
use std::task::Poll;
use std::time::Duration;

pub const CHECK: Check = Check {
    id: "C19",
    level: "exploration",
    rule: "a case is one HTTP/2 connection of either role against a frame-level peer whose frames and ping replies are placed in virtual time around random intervals and timeouts, and which from some moment on may be silent or stop reading; every PING and the end of the connection are compared, to the nanosecond, with a model of when they are due; distinct = distinct (schedule, wire bytes) in which a ping was due or the peer died",
    quick: 40_000,
    thorough: 1_500_000,
    run: case,
    assumptions: &["what counts as received is what the endpoint took in: headers, data read by the application, ping replies", "applications read promptly"],
};

const MS: u64 = 1_000_000;
/// lo..hi milliseconds and some nanoseconds: no two moments coincide by construction
fn ms(r: &mut Rng, lo: usize, hi: usize) -> u64 {
    r.range(lo, hi) as u64 * MS + r.below(999_983) as u64
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Death {
    No,
    Silent(u64),
    Blocked(u64),
}
/// something the peer sends
#[derive(Clone)]
struct Ev {
    at: u64,
    bytes: Vec<u8>,
    /// taken in by the endpoint
    counts: bool,
}
struct Model {
    pings: Vec<u64>,
    /// keep-alive closes the connection at this time
    closed: Option<u64>,
}
/// When pings go out and the connection is given up.
fn model(t0: u64, i: u64, t: u64, acts: &[u64], open: &[(u64, u64)], always: bool, pong: &dyn Fn(usize, u64) -> Option<u64>, end: u64) -> Model {
    let mut acts: Vec<u64> = acts.to_vec();
    acts.sort();
    let mut last = t0;
    let mut cur = t0;
    let mut m = Model { pings: vec![], closed: None };
    let mut k = 0;
    loop {
        // the next ping: an interval after the last activity, with a stream open
        let due = (last + i).max(cur);
        let at = if always { Some(due) } else { open.iter().filter(|o| o.1 > due).map(|o| o.0.max(due)).min() };
        let Some(at) = at else {
            // activity can only push it further away
            if k < acts.len() {
                last = last.max(acts[k]);
                cur = cur.max(acts[k]);
                k += 1;
                continue;
            }
            return m;
        };
        if k < acts.len() && acts[k] < at {
            last = last.max(acts[k]);
            k += 1;
            continue;
        }
        if at >= end {
            return m;
        }
        let n = m.pings.len();
        m.pings.push(at);
        match pong(n, at).filter(|p| *p < at + t) {
            Some(p) => {
                while k < acts.len() && acts[k] <= p {
                    k += 1;
                }
                last = p;
                cur = p;
                if p >= end {
                    return m;
                }
            }
            None => {
                m.closed = Some(at + t);
                return m;
            }
        }
    }
}

fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let server = r.pct(45);
    let mut cfg = H2Cfg::plain();
    cfg.timer = true;
    let i = ms(&mut r, 10, 90);
    let t = ms(&mut r, 4, 90);
    let on = r.pct(93);
    if on {
        cfg.ka = Some((Duration::from_nanos(i), Duration::from_nanos(t)));
    }
    cfg.ka_idle = r.pct(50);
    cfg.adaptive = r.pct(15);
    let noise = r.pct(15);
    let exact = !cfg.adaptive && !noise;
    let span = *r.pick(&[1usize, 3, 6]) * (i / MS) as usize + 10;
    let death = match r.below(10) {
        0..=3 => Death::No,
        4..=6 => Death::Silent(ms(&mut r, 0, span)),
        _ => Death::Blocked(ms(&mut r, 1, span)),
    };
    let s_at = match death {
        Death::No => u64::MAX,
        Death::Silent(s) | Death::Blocked(s) => s,
    };
    let lazy_pong = r.pct(10);
    let n = if r.pct(15) { 0 } else { r.range(1, 4) };
    let big = 1 << 24;

    // what the applications do and what the peer sends
    let mut starts: Vec<u64> = (0..n).map(|_| ms(&mut r, 0, span)).collect();
    starts.sort();
    let t0 = if server && r.pct(30) { ms(&mut r, 0, 30) } else { 0 };
    if server {
        for s in starts.iter_mut() {
            *s += t0 + 1;
        }
    }
    let end = starts.last().copied().unwrap_or(0).max(if s_at == u64::MAX { 0 } else { s_at }) + ms(&mut r, 0, span) + 3 * (i + t);
    let mut evs: Vec<Ev> = vec![];
    let mut open: Vec<(u64, u64)> = vec![];
    let mut specs = vec![];
    let mut plans = vec![];
    let mut give_up: Vec<Option<u64>> = vec![];
    // (time the response head / its end is sent by the peer)
    let mut answers: Vec<(u64, u64)> = vec![];
    let trickle = |r: &mut Rng, total: u64, chunk: usize| -> Vec<Step> {
        let mut v = vec![];
        let k = r.range(1, 30);
        for _ in 0..k {
            v.push(Step::Sleep(total / k as u64 + 1));
            v.push(Step::Data(r.body(chunk)));
        }
        v
    };
    for (k, s) in starts.iter().copied().enumerate() {
        let sid = 1 + 2 * k as u32;
        let mut at = s;
        if server {
            let mut m = r.below(5);
            let tr = r.pct(15);
            evs.push(Ev { at, bytes: request(sid, m == 0 && !tr, "POST", "/", &[("x-id", k.to_string().as_bytes())]), counts: true });
            while m > 0 {
                at += if r.pct(20) { 1 + r.below(1000) as u64 } else { ms(&mut r, 0, 2 * (i / MS) as usize) };
                m -= 1;
                let len = r.range(1, 500);
                evs.push(Ev { at, bytes: frames::data(sid, m == 0 && !tr, &vec![b'd'; len]), counts: true });
            }
            if tr {
                at += ms(&mut r, 0, 2 * (i / MS) as usize);
                evs.push(Ev { at, bytes: frames::headers(sid, true, &[("x-t", b"1")]), counts: true });
            }
            let mut p = Plan::simple(RespSpec::ok(b"fine"));
            p.sleep_ns = if r.pct(50) { ms(&mut r, 0, 200) } else { 0 };
            if r.pct(40) {
                let total = ms(&mut r, 1, 300);
                p.resp.script = Script { steps: trickle(&mut r, total, 500), hint: Hint::Unknown, eager_eos: false };
            }
            plans.push(p);
            continue;
        }
        // client
        let mut spec = ReqSpec::get(&abs(&format!("/{k}")));
        let mut body_end = s;
        let mut gu = None;
        if r.pct(35) {
            spec.method = "POST".into();
            let total = ms(&mut r, 1, 200);
            let steps = trickle(&mut r, total, 500);
            body_end = s + steps.iter().map(|s| if let Step::Sleep(n) = s { *n } else { 0 }).sum::<u64>();
            spec.script = Script { steps, hint: Hint::Unknown, eager_eos: false };
        } else if r.pct(15) {
            gu = Some(s + ms(&mut r, 0, 2 * span));
        }
        at += ms(&mut r, 0, 2 * (i / MS) as usize);
        let head = at;
        let mut m = r.below(4);
        let mut mine = vec![Ev { at, bytes: response(sid, m == 0, "200", &[]), counts: true }];
        while m > 0 {
            at += if r.pct(20) { 1 + r.below(1000) as u64 } else { ms(&mut r, 0, 2 * (i / MS) as usize) };
            m -= 1;
            let len = r.range(1, 500);
            mine.push(Ev { at, bytes: frames::data(sid, m == 0, &vec![b'd'; len]), counts: true });
        }
        // a peer that never answers, or stops in the middle
        let cut = if r.pct(20) { r.below(mine.len()) } else { mine.len() };
        let whole = cut == mine.len();
        mine.truncate(cut);
        mine.retain(|e| e.at < gu.unwrap_or(u64::MAX));
        let done = if whole { at } else { u64::MAX };
        answers.push((if cut > 0 { head } else { u64::MAX }, done));
        // taken away by the caller, or over once both directions are
        let resp_end = done.min(gu.unwrap_or(u64::MAX));
        let dead_end = if resp_end >= s_at && gu.map(|g| g > resp_end).unwrap_or(true) { u64::MAX } else { resp_end };
        open.push((s, dead_end.max(body_end)));
        give_up.push(gu);
        specs.push(spec);
        evs.append(&mut mine);
    }
    // an abandoned stream the peer had not finished ends there
    for (k, g) in give_up.iter().enumerate() {
        if let Some(g) = g {
            let e = answers[k].1;
            open[k].1 = if e < s_at { e.min(*g) } else { *g };
        }
    }
    if noise {
        for _ in 0..r.range(1, 10) {
            let at = t0 + ms(&mut r, 0, (end / MS) as usize);
            let b = match r.below(3) {
                0 => frames::ping(false, [7; 8]),
                1 => frames::wupd(0, 1),
                _ => frames::settings(&[]),
            };
            evs.push(Ev { at, bytes: b, counts: false });
        }
    }
    evs.retain(|e| e.at < s_at && e.at < end);
    evs.sort_by_key(|e| e.at);
    // senders dropped at some point
    let drop_at = if !server && r.pct(35) { Some(starts.last().copied().unwrap_or(0) + 1 + if r.pct(50) { 0 } else { ms(&mut r, 0, span) }) } else { None };
    let delays: Vec<u64> = (0..400)
        .map(|_| {
            let d = if r.pct(60) { r.below(1000) as u64 } else { (t as f64 * 0.98 * r.below(1000) as f64 / 1000.0) as u64 };
            if lazy_pong && r.pct(25) {
                t + 1 + d
            } else {
                d
            }
        })
        .collect();

    let mut io = IoCfg::plain();
    if let Death::Blocked(_) = death {
        io.cap = *r.pick(&[1usize, 20, 1000, 1 << 20]);
    }
    if r.pct(50) {
        io.rd_pend = 20;
        io.wr_pend = 20;
    }
    let (a, b, wire) = pipe(&sim, io.clone(), io.clone());
    wire.record_order();
    let mut ex = Exec::new(&sim);
    ex.until = Some(end);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let svc = Svc::new(&ex, plans.clone()).by_id();
    let st = svc.st.clone();
    let slot;
    let cend;
    let raw;
    let half;
    if server {
        slot = Slot::default();
        cend = serve_h2(&mut ex, &cfg, b, svc.clone(), Gate::default());
        raw = Raw::spawn(&mut ex, a, true);
        half = wire.b2a.clone();
    } else {
        let (s, c) = connect_h2(&mut ex, &cfg, a);
        slot = s;
        cend = c;
        raw = Raw::spawn(&mut ex, b, false);
        half = wire.a2b.clone();
    }
    raw.st.lock().unwrap().ack_pings = false;
    raw.st.lock().unwrap().ack_settings = false;
    {
        let (raw, sim, evs) = (raw.clone(), sim.clone(), evs.clone());
        ex.spawn("peer", async move {
            if server {
                sim.sleep(Duration::from_nanos(t0)).await;
                if t0 < s_at {
                    raw.put(&[frames::PREFACE, &frames::settings(&[(1, 0), (4, big)]), &frames::wupd(0, big)].concat());
                }
            } else if t0 < s_at {
                raw.put(&[frames::settings(&[(1, 0), (4, big)]), frames::wupd(0, big)].concat());
            }
            {
                let mut s = raw.st.lock().unwrap();
                s.ack_settings = true;
                if s.has(0, frames::SETTINGS) && t0 < s_at {
                    raw.put(&frames::settings_ack());
                }
            }
            for e in evs {
                let now = sim.now_ns();
                sim.sleep(Duration::from_nanos(e.at - now)).await;
                raw.put(&e.bytes);
            }
        });
    }
    {
        let (raw, sim, delays) = (raw.clone(), sim.clone(), delays.clone());
        let sp = ex.spawner();
        ex.spawn("pongs", async move {
            let mut k = 0;
            loop {
                if !raw.wait(|s| pings(s).len() > k).await {
                    return;
                }
                let (p, at) = pings(&raw.st.lock().unwrap())[k];
                let (raw, sim, d) = (raw.clone(), sim.clone(), delays[k.min(399)]);
                k += 1;
                if at + d < s_at {
                    sp.spawn("pong", async move {
                        sim.sleep(Duration::from_nanos(d)).await;
                        raw.put(&frames::ping(true, p));
                    });
                }
            }
        });
    }
    if let Death::Blocked(s) = death {
        let (sim, half) = (sim.clone(), half.clone());
        ex.spawn("blocker", async move {
            sim.sleep(Duration::from_nanos(s)).await;
            Wire::set_hold(&half, true);
        });
    }
    let xs: Vec<ExRef> = (0..n).map(|_| ExRef::default()).collect();
    if !server {
        for k in 0..n {
            let (slot, sim, spec, x, s, g) = (slot.clone(), sim.clone(), specs[k].clone(), xs[k].clone(), starts[k], give_up[k]);
            ex.spawn("caller", async move {
                sim.sleep(Duration::from_nanos(s)).await;
                let Some(mut tx) = slot.get().await else { return };
                let fut = submit2(&sim, &mut tx, &spec, &x, false);
                drop(tx);
                let mut f = Box::pin(finish2(&sim, fut, &x, CRead::All, 0));
                let mut lim = Box::pin(async {
                    match g {
                        Some(g) => sim.sleep(Duration::from_nanos(g - s)).await,
                        None => std::future::pending().await,
                    }
                });
                std::future::poll_fn(|cx| {
                    if f.as_mut().poll(cx).is_ready() {
                        return Poll::Ready(());
                    }
                    lim.as_mut().poll(cx)
                })
                .await;
            });
        }
        if let Some(d) = drop_at {
            let (slot, sim) = (slot.clone(), sim.clone());
            ex.spawn("owner", async move {
                sim.sleep(Duration::from_nanos(d)).await;
                slot.1.wait().await;
                slot.clear();
            });
        }
    }
    match at_rest(ex.run()) {
        End::StepLimit => {
            out.inconclusive = Some("too many steps".into());
            return out;
        }
        End::Spin(x) => {
            out.viol(format!("task {x} spins without progress"));
            return out;
        }
        _ => {}
    }

    // what was due
    let always = server || cfg.ka_idle;
    let all_closed = open.iter().map(|o| o.1).max().unwrap_or(0);
    // with the senders gone the connection ends with its last stream
    let graceful = drop_at.map(|d| d.max(all_closed)).unwrap_or(u64::MAX);
    let acts: Vec<u64> = evs.iter().filter(|e| e.counts).map(|e| e.at).collect();
    let pong = |k: usize, at: u64| Some(at + delays[k.min(399)]).filter(|p| *p < s_at && at < s_at);
    let m = if on && t0 < s_at { model(t0, i, t, &acts, &open, always, &pong, end.min(graceful)) } else { Model { pings: vec![], closed: None } };
    let closed = m.closed.filter(|c| *c < end.min(graceful));
    let c = cend.lock().unwrap().clone();
    let rs = raw.st.lock().unwrap();
    let seen: Vec<u64> = pings(&rs).iter().map(|p| p.1).collect();
    let desc = format!(
        "{} interval {i} timeout {t} on {on} idle {} adaptive {} noise {noise} {death:?} t0 {t0} starts {starts:?} open {open:?} drop {drop_at:?} end {end}; pings due {:?} seen {seen:?}; close due {closed:?}, ended {} at {} {}",
        if server { "server" } else { "client" },
        cfg.ka_idle,
        cfg.adaptive,
        m.pings,
        c.done,
        c.at_ns,
        c.err
    );
    out.count("pings_seen", seen.len() as u64);
    out.count("pings_due", m.pings.len() as u64);
    out.nontrivial = !m.pings.is_empty() || death != Death::No;
    // the client's connection task is the one holding the transport
    let gone_at = if rs.eof || rs.err.is_some() { Some(rs.eof_ns) } else { None };
    let task_gone = if server { c.done } else { wire.a.lock().unwrap().dropped };
    if !on && !cfg.adaptive && !seen.is_empty() {
        out.viol("a PING was sent although keep-alive is not configured");
    }
    if exact && on {
        let vis = |v: &[u64]| -> Vec<u64> { v.iter().copied().filter(|p| !matches!(death, Death::Blocked(s) if *p >= s)).collect() };
        let (due, got) = (vis(&m.pings), vis(&seen));
        if due != got {
            let k = due.iter().zip(&got).take_while(|(a, b)| a == b).count();
            out.viol(format!("PING {k} was due at {:?} and seen at {:?}", due.get(k), got.get(k)));
        }
    }
    if !exact && on && noise && !cfg.adaptive {
        for p in &seen {
            let last = acts.iter().copied().filter(|a| a < p).max().unwrap_or(t0).max(t0);
            if *p < last + i {
                out.viol(format!("PING at {p}, sooner than the interval after {last}"));
            }
        }
    }
    // when it was closed
    if exact || !on {
        match closed {
            Some(at) => {
                out.count("timeouts_due", 1);
                if matches!(death, Death::Blocked(_)) {
                    out.count("timeouts_due_while_blocked", 1);
                }
                if !task_gone {
                    out.viol(format!("the peer is dead, but the connection was not closed by {end}; it was due at {at}"));
                } else if server && c.at_ns != at {
                    out.viol(format!("the connection was due to be closed at {at}, it ended at {}", c.at_ns));
                } else if let Some(g) = gone_at.filter(|g| *g != at && !matches!(death, Death::Blocked(_))) {
                    out.viol(format!("the connection was due to be closed at {at}, the transport was closed at {g}"));
                }
                // (a client whose senders are gone has ended well already)
                if !server && drop_at.map(|d| d > at).unwrap_or(true) && !c.is_timeout {
                    out.viol(format!("the connection ended with {} instead of a timeout", if c.ok { "success" } else { &c.err }));
                }
                if !c.done {
                    out.viol("the connection future did not end");
                } else if server && !c.is_timeout {
                    out.viol(format!("the connection ended with {} instead of a timeout", if c.ok { "success" } else { &c.err }));
                }
            }
            None => {
                if graceful >= end && (c.done && drop_at.is_none() || task_gone) && t0 < s_at {
                    out.viol(format!("the connection ended at {} ({}) although nothing was due", c.at_ns, c.err));
                }
            }
        }
    } else {
        // bounds only
        let last_pong = seen.iter().enumerate().filter_map(|(k, p)| pong(k, *p)).max().unwrap_or(0);
        let hung = {
            let lim = evs.iter().map(|e| e.at).max().unwrap_or(t0).max(t0).max(last_pong);
            let by = |from: u64| lim.max(from) + i + t;
            if always {
                Some(by(t0))
            } else {
                open.iter().filter(|o| o.1 >= by(o.0)).map(|o| by(o.0)).min()
            }
        };
        if death != Death::No && t0 < s_at && graceful >= end {
            if let Some(h) = hung.filter(|h| *h < end) {
                out.count("timeouts_due", 1);
                if !task_gone {
                    out.viol(format!("the peer died at {s_at}, the connection should have been closed by {h}"));
                }
            }
        }
        let timed_out = c.done && c.is_timeout || xs.iter().any(|x| x.lock().unwrap().err.as_ref().map(|e| e.timeout).unwrap_or(false));
        if timed_out && !matches!(death, Death::Blocked(_)) {
            let at = gone_at.unwrap_or(c.at_ns);
            let unanswered = seen.iter().enumerate().any(|(k, p)| *p + t <= at && pong(k, *p).map(|q| q > *p + t).unwrap_or(true));
            if !unanswered {
                out.viol(format!("timed out at {at} without a ping left unanswered for {t}: pings {seen:?}"));
            }
        }
        if death == Death::No && !lazy_pong && graceful >= end && (c.done && drop_at.is_none() || task_gone) {
            out.viol(format!("the peer answers every ping in time but the connection ended: {}", c.err));
        }
    }
    // what the callers saw
    if let (true, Some(at)) = (exact && !server, closed) {
        for k in 0..n {
            let x = xs[k].lock().unwrap();
            let (head, done) = answers[k];
            let gone = give_up[k].map(|g| g < at).unwrap_or(false);
            if starts[k] >= at || gone || done < at && done < s_at {
                continue;
            }
            if head < at && head < s_at {
                let g = x.got.lock().unwrap();
                if x.status != Some(200) || g.err.is_none() {
                    out.viol(format!("request {k}: the body of a response cut by the timeout ended: status {:?}, end {}, error {:?}", x.status, g.done, g.err));
                }
                out.count("bodies_cut", 1);
            } else {
                match &x.err {
                    Some(e) if e.timeout => out.count("requests_timed_out", 1),
                    e => out.viol(format!("request {k} was waiting for its response when the connection timed out and got {e:?}")),
                }
            }
        }
    }
    if exact && !server && closed.is_none() && graceful >= end {
        for k in 0..n {
            let x = xs[k].lock().unwrap();
            if answers[k].1 < end.min(s_at) && give_up[k].is_none() && (x.err.is_some() || !x.got.lock().unwrap().clean()) {
                out.viol(format!("request {k} was answered but failed: {:?}", x.err));
            }
        }
    }
    if server && exact {
        let s = st.lock().unwrap();
        out.count("requests_served", s.seen.len() as u64);
    }
    let (sa, sb) = (wire.sent_by_a(), wire.sent_by_b());
    let order = wire.order.lock().unwrap().clone().unwrap_or_default();
    out.sig = mix(sim.st(|s| s.hash), fnv(&sa) ^ fnv(&sb));
    out.desc = Some(desc);
    drop(rs);
    if ctx.trace {
        out.trace = sim.take_log();
        out.trace.extend(frames::dump(&order, &sa, &sb, true));
    }
    out
}
fn pings(s: &RawSt) -> Vec<([u8; 8], u64)> {
    s.frames
        .iter()
        .filter(|(f, _)| f.kind == frames::PING && !f.ack())
        .map(|(f, t)| {
            let mut d = [0; 8];
            d.copy_from_slice(&f.payload);
            (d, *t)
        })
        .collect()
}
