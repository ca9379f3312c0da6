//! C27: every final response carries exactly one Date, the application's or the current time.
use crate::body::*;
use crate::cli::*;
use crate::h2x::*;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::srv::*;
use crate::util::*;
use crate::wall::Wall;

pub const CHECK: Check = Check {
    id: "C27",
    level: "exploration",
    rule: "a case is 1-12 exchanges on one HTTP/1 or HTTP/2 server connection over a random stretch of time (sub-second to years, the wall clock stepped forwards and backwards in some) while the connection's tasks move between threads; distinct = distinct (responses, times) in which at least one Date was judged",
    quick: 40_000,
    thorough: 1_000_000,
    run: case,
    assumptions: &["the wall clock is the one read through clock_gettime, interposed for the case's threads", "an application sets at most one Date"],
};

const S: u64 = 1_000_000_000;
const MON: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
const DAY: [&str; 7] = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
fn leap(y: u64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn mdays(y: u64, m: usize) -> u64 {
    [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m]
}
fn days_to(y: u64) -> u64 {
    (1970..y).map(|y| if leap(y) { 366 } else { 365 }).sum()
}
/// IMF-fixdate, to the letter; seconds since 1970
fn parse_date(v: &[u8]) -> Result<u64, String> {
    let s = std::str::from_utf8(v).map_err(|_| "not text".to_string())?;
    if s.len() != 29 {
        return Err(format!("{} bytes long", s.len()));
    }
    let b = s.as_bytes();
    if &s[3..5] != ", " || b[7] != b' ' || b[11] != b' ' || b[16] != b' ' || b[19] != b':' || b[22] != b':' || &s[25..] != " GMT" {
        return Err("bad punctuation".into());
    }
    let num = |t: &str| -> Result<u64, String> {
        if t.bytes().all(|c| c.is_ascii_digit()) {
            Ok(t.parse().unwrap())
        } else {
            Err(format!("{t:?} is not a number"))
        }
    };
    let (d, y, h, mi, se) = (num(&s[5..7])?, num(&s[12..16])?, num(&s[17..19])?, num(&s[20..22])?, num(&s[23..25])?);
    let m = MON.iter().position(|m| *m == &s[8..11]).ok_or("bad month")?;
    let wd = DAY.iter().position(|m| *m == &s[..3]).ok_or("bad day name")? as u64;
    if y < 1970 || d == 0 || d > mdays(y, m) || h > 23 || mi > 59 || se > 59 {
        return Err("no such time".into());
    }
    let days = days_to(y) + (0..m).map(|m| mdays(y, m)).sum::<u64>() + d - 1;
    if (days + 4) % 7 != wd {
        return Err("wrong day of the week".into());
    }
    Ok(((days * 24 + h) * 60 + mi) * 60 + se)
}

struct Moved<T>(T);
// the executor is used by one thread at a time, handed over through channels
unsafe impl<T> Send for Moved<T> {}

/// Runs to rest, the tasks moving from thread to thread every few steps.
fn run_on(ex: &mut Exec, wall: &Wall, hops: &[usize], every: u64) -> End {
    let n = hops.iter().max().unwrap() + 1;
    let total = ex.max_steps;
    type Res = Moved<Result<End, (Box<dyn std::any::Any + Send>, Option<(String, String)>)>>;
    let p: *mut Exec = ex;
    std::thread::scope(|s| {
        let mut ws = vec![];
        for _ in 0..n {
            let (jt, jr) = std::sync::mpsc::channel::<Moved<*mut Exec>>();
            let (rt, rr) = std::sync::mpsc::channel::<Res>();
            let wall = Moved(wall.clone());
            s.spawn(move || {
                let wall = wall;
                let wall = &wall;
                for job in jr {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| wall.0.with(|| unsafe { (*job.0).run() })));
                    let _ = rt.send(Moved(r.map_err(|e| (e, take_panic()))));
                }
            });
            ws.push((jt, rr));
        }
        let mut i = 0;
        loop {
            let (jt, rr) = &ws[hops[i % hops.len()]];
            i += 1;
            unsafe {
                (*p).max_steps = ((*p).steps + every).min(total);
            }
            jt.send(Moved(p)).unwrap();
            match rr.recv().unwrap().0 {
                Ok(End::StepLimit) if unsafe { (*p).steps } < total => {}
                Ok(e) => return e,
                Err((e, at)) => {
                    set_panic(at);
                    std::panic::resume_unwind(e)
                }
            }
        }
    })
}

fn gap(r: &mut Rng) -> u64 {
    match r.below(12) {
        0..=3 => 0,
        4 => r.below(1_000_000) as u64,
        5 => S - r.range(0, 2) as u64,
        6 => S + r.range(0, 2) as u64,
        7 => r.below(S as usize) as u64,
        8 => r.below(5 * S as usize) as u64,
        9 => 3600 * S + r.below(S as usize) as u64,
        10 => 86_400 * S * r.range(1, 40) as u64,
        _ => r.range(1, 3) as u64 * S,
    }
}
fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let r = &mut r;
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    // some instant, often next to a boundary of seconds, days, months or years
    let y = match r.below(4) {
        0 => r.range(1970, 2240),
        1 => *r.pick(&[1972usize, 2000, 2024, 2028, 2096, 2100, 2104, 2200]),
        _ => r.range(2020, 2040),
    } as u64;
    let mut base = days_to(y) * 86_400 * S;
    base += match r.below(5) {
        0 => 0,
        1 => 59 * 86_400 * S - r.range(1, 3 * S as usize) as u64,
        2 => 60 * 86_400 * S - r.range(1, 3 * S as usize) as u64,
        _ => r.below(365 * 86_400) as u64 * S + r.below(S as usize) as u64,
    };
    if r.pct(30) {
        base = base / S * S + *r.pick(&[0, 1, S - 1, S - 2]);
    }
    let h2 = r.pct(45);
    let wall = Wall::new(&sim, base);
    let steps: Vec<(u64, i64)> = if r.pct(35) {
        (0..r.range(1, 4))
            .map(|_| {
                let by = (gap(r) + r.range(0, 4) as u64 * S) as i64;
                (gap(r) % (20 * S), if r.pct(50) { -by.min(base as i64 / 2) } else { by })
            })
            .collect()
    } else {
        vec![]
    };
    let hops: Vec<usize> = match r.below(3) {
        0 => vec![0],
        1 => vec![0, 1],
        _ => (0..r.range(2, 6)).map(|_| r.below(3)).collect(),
    };
    let every = *r.pick(&[1u64, 3, 10, 50, 1000]);
    let date = r.pct(75);
    let n = r.range(1, 12);
    let gaps: Vec<u64> = (0..n).map(|_| gap(r)).collect();
    let mut plans = vec![];
    let mut own: Vec<Option<Vec<u8>>> = vec![];
    for _ in 0..n {
        let len = if r.pct(40) { 0 } else { r.size(2000) };
        let mut spec = RespSpec::ok(&r.body(len));
        if r.pct(20) {
            spec.script = Script::gen(r, len);
        }
        spec.status = *r.pick(&[200, 200, 200, 204, 304, 404, 500]);
        for k in ["x-a", "server", "set-cookie"] {
            if r.pct(20) {
                spec.headers.push((k.into(), b"v".to_vec()));
            }
        }
        let mine = if r.pct(25) { Some(if r.pct(60) { b"Sun, 06 Nov 1994 08:49:37 GMT".to_vec() } else { r.pick(&["x", "", "0", "Thu, 01 Jan 1970 00:00:00 GMT, x"]).as_bytes().to_vec() }) } else { None };
        if let Some(v) = &mine {
            let at = r.below(spec.headers.len() + 1);
            spec.headers.insert(at, ("date".into(), v.clone()));
        }
        own.push(mine);
        let mut p = Plan::simple(spec);
        p.sleep_ns = gap(r);
        p.delay = *r.pick(&[0, 0, 3]);
        plans.push(p);
    }
    let mut ex = Exec::new(&sim);
    ex.until = Some(u64::MAX / 4);
    // (response time, when it was on the wire or delivered, its Date fields)
    let mut got: Vec<(Option<u64>, u64, Vec<Vec<u8>>, String, Option<usize>)> = vec![];
    // every wall clock base in force, with the virtual time from which
    let bases = std::sync::Arc::new(std::sync::Mutex::new(vec![(0u64, base)]));
    {
        let (s, w, b) = (sim.clone(), wall.clone(), bases.clone());
        let steps = steps.clone();
        ex.spawn("clock", async move {
            for (wait, by) in steps {
                s.sleep(std::time::Duration::from_nanos(wait)).await;
                w.step(by);
                s.log(|| format!("the wall clock is stepped by {by} ns"));
                b.lock().unwrap().push((s.now_ns(), w.now_ns() - s.now_ns()));
            }
        });
    }
    let desc;
    if h2 {
        let mut scfg = H2Cfg::plain();
        scfg.date = date;
        let ccfg = H2Cfg::plain();
        desc = format!("HTTP/2, date {date}, {n} requests");
        let (a, b, _w) = pipe(&sim, IoCfg::plain(), IoCfg::plain());
        let svc = Svc::new(&ex, plans.clone()).by_id();
        let st = svc.st.clone();
        let _e = serve_h2(&mut ex, &scfg, b, svc, Gate::default());
        let (slot, _c) = connect_h2(&mut ex, &ccfg, a);
        let xs: Vec<ExRef> = (0..n).map(|_| ExRef::default()).collect();
        let together = r.pct(30);
        if together {
            for i in 0..n {
                let (slot, x, sim2, g) = (slot.clone(), xs[i].clone(), sim.clone(), gaps[i]);
                ex.spawn(format!("x{i}"), async move {
                    sim2.sleep(std::time::Duration::from_nanos(g)).await;
                    let Some(mut tx) = slot.get().await else { return };
                    let mut q = ReqSpec::get(&abs("/"));
                    q.headers.push(("x-id".into(), i.to_string().into_bytes()));
                    exchange2(&sim2, &mut tx, &q, &x, CRead::All, 0, false).await;
                });
            }
        } else {
            let (slot, xs, sim2, gaps) = (slot.clone(), xs.clone(), sim.clone(), gaps.clone());
            ex.spawn("caller", async move {
                let Some(mut tx) = slot.get().await else { return };
                for (i, x) in xs.iter().enumerate() {
                    sim2.sleep(std::time::Duration::from_nanos(gaps[i])).await;
                    let mut q = ReqSpec::get(&abs("/"));
                    q.headers.push(("x-id".into(), i.to_string().into_bytes()));
                    exchange2(&sim2, &mut tx, &q, x, CRead::All, 0, false).await;
                }
            });
        }
        match at_rest(run_on(&mut ex, &wall, &hops, every)) {
            End::Quiescent => {}
            e => {
                out.inconclusive = Some(format!("{e:?}"));
                return out;
            }
        }
        let st = st.lock().unwrap();
        for (i, x) in xs.iter().enumerate() {
            let x = x.lock().unwrap();
            let seen = st.seen.iter().find(|s| s.headers.iter().any(|(k, v)| k == "x-id" && *v == i.to_string().into_bytes()));
            if x.status.is_none() {
                out.viol(format!("response {i} did not arrive: {:?}", x.err.as_ref().map(|e| &e.dbg)));
                continue;
            }
            let d = x.headers.iter().filter(|(k, _)| k == "date").map(|(_, v)| v.clone()).collect();
            got.push((seen.and_then(|s| s.responded_ns), x.at_ns, d, format!("response {i}"), Some(i)));
        }
    } else {
        let mut cfg = SrvCfg::gen(r);
        cfg.max_headers = None;
        cfg.max_buf = None;
        cfg.header_timeout = Some(None);
        cfg.half_close = true;
        cfg.date = date;
        let tail = r.pct(30); // a request that is refused at the end
        desc = format!("HTTP/1, {n} requests, refused {tail}, {cfg:?}");
        let small = r.pct(40);
        let (mut a, b) = if small { (IoCfg::gen(r), IoCfg::gen(r)) } else { (IoCfg::plain(), IoCfg::plain()) };
        a.lag = false;
        let (a, b, wire) = pipe(&sim, a, b);
        wire.record_order();
        let svc = Svc::new(&ex, plans.clone());
        let st = svc.st.clone();
        let end = serve_h1(&mut ex, &cfg, a, svc, Gate::default());
        let peer = Peer::new(b);
        let rx: RecvRef = Default::default();
        {
            let (p, rx) = (peer.clone(), rx.clone());
            ex.spawn("peer-read", async move { read_all(p, rx, 1 << 16, |_| {}).await });
        }
        {
            let (s, p, gaps) = (sim.clone(), peer.clone(), gaps.clone());
            ex.spawn("peer-write", async move {
                for g in gaps {
                    s.sleep(std::time::Duration::from_nanos(g)).await;
                    if p.send(b"GET / HTTP/1.1\r\nhost: a\r\n\r\n").await.is_err() {
                        return;
                    }
                }
                if tail {
                    let _ = p.send(b"GET / HTTP/9\r\n\r\n").await;
                }
                let _ = p.close_write().await;
            });
        }
        match at_rest(run_on(&mut ex, &wall, &hops, every)) {
            End::Quiescent => {}
            e => {
                out.inconclusive = Some(format!("{e:?}"));
                return out;
            }
        }
        let sent = wire.sent_by_a();
        let methods = vec!["GET".to_string(); n + 1];
        let (resp, err) = refh1::responses(&sent, &methods, end.lock().unwrap().done);
        if let Some(e) = err {
            out.viol(format!("output does not parse: {e}"));
        }
        let order = wire.order.lock().unwrap().take().unwrap_or_default();
        let st = st.lock().unwrap();
        for (i, m) in resp.iter().enumerate() {
            let at = order.iter().find(|o| o.a && o.write && o.total >= m.head_end as u64).map(|o| o.ns).unwrap_or(sim.now_ns());
            let d = m.get_all("date").iter().map(|v| v.to_vec()).collect();
            if i < st.seen.len() {
                got.push((st.seen[i].responded_ns, at, d, format!("response {i}"), Some(i)));
            } else {
                // the automatic refusal: it came some time after the last response was started
                out.count("refusals", 1);
                got.push((st.seen.last().and_then(|s| s.responded_ns).or(Some(0)), at, d, format!("automatic {}", m.status()), None));
            }
        }
        if resp.is_empty() {
            out.viol("no response at all");
        }
    }
    out.desc = Some(format!("{desc}; clock starts at {base}, steps {steps:?}, threads {hops:?} every {every} steps, gaps {gaps:?}, service times {:?}, own dates {:?}", plans.iter().map(|p| p.sleep_ns).collect::<Vec<_>>(), own.iter().map(|o| o.as_ref().map(|o| show(o))).collect::<Vec<_>>()));
    let bases = bases.lock().unwrap();
    let mut sig = sim.st(|s| s.hash);
    for (from, to, d, what, i) in &got {
        let want = if date || i.map(|i| own[i].is_some()).unwrap_or(false) { 1 } else { 0 };
        if d.len() != want {
            out.viol(format!("{what}: {} Date fields instead of {want}: {:?}", d.len(), d.iter().map(|v| show(v)).collect::<Vec<_>>()));
            continue;
        }
        if let Some(v) = i.and_then(|i| own[i].as_ref()) {
            out.count("own", 1);
            if *v != d[0] {
                out.viol(format!("{what}: Date {} instead of the application's {}", show(&d[0]), show(v)));
            }
            continue;
        }
        if want == 0 {
            out.count("none", 1);
            continue;
        }
        match parse_date(&d[0]) {
            Err(e) => out.viol(format!("{what}: malformed Date {}: {e}", show(&d[0]))),
            Ok(t) => {
                let Some(from) = *from else {
                    out.viol(format!("{what}: sent without the service having answered"));
                    continue;
                };
                // some reading of the clock between the two moments, rounded down, or up to a second old
                let mut ok = false;
                let mut near = vec![];
                for (j, (since, b)) in bases.iter().enumerate() {
                    let until = bases.get(j + 1).map(|x| x.0).unwrap_or(u64::MAX / 2);
                    let (lo, hi) = (from.max(*since), (*to).min(until));
                    if lo <= hi {
                        let (lo, hi) = ((lo + b) / S, (hi + b) / S);
                        ok |= t + 1 >= lo && t <= hi;
                        near.push((lo, hi));
                    }
                }
                out.count("judged", 1);
                out.nontrivial = true;
                sig = mix(sig, t);
                if !ok {
                    out.viol(format!("{what}: Date {} ({t}) although the clock read {near:?} meanwhile", show(&d[0])));
                }
            }
        }
    }
    out.count("clock_steps", bases.len() as u64 - 1);
    out.count("clock_reads", wall.reads.load(std::sync::atomic::Ordering::SeqCst));
    out.count("thread_hops", (ex.steps / every).min(if hops.len() > 1 { u64::MAX } else { 0 }));
    if out.counts.get("judged").is_some() && wall.reads.load(std::sync::atomic::Ordering::SeqCst) == 0 {
        out.inconclusive = Some("the interposed clock was not consulted".into());
    }
    out.sig = sig;
    if ctx.trace {
        out.trace = sim.take_log();
    }
    out
}
