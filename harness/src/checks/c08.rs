//! C08: every client request future resolves exactly once with a truthful outcome (HTTP/1 part).
use crate::body::*;
use crate::cli::*;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::run::tame;
use crate::sim::*;
use crate::util::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

pub const CHECK: Check = Check {
    id: "C08",
    level: "exploration",
    rule: "a case is one client connection with 1-8 requests submitted with and without waiting for readiness, some futures dropped at random moments, against a peer that answers, stalls, misbehaves, closes or fails at random points, and with the connection task or sender possibly dropped midway; distinct = distinct (bytes, schedule) with at least one request submitted",
    quick: 200_000,
    thorough: 2_500_000,
    run: case,
    assumptions: &["the peer answers each request with a response naming it"],
};

#[derive(Default)]
pub struct Fate {
    pub submitted: bool,
    pub resolved: u32,
    pub dropped: bool,
    pub echo: Option<String>,
    pub err: Option<ErrInfo>,
    /// target of the request handed back
    pub back: Option<String>,
    pub handed_back: bool,
    pub body_ok: Option<bool>,
    pub log: Option<Arc<Mutex<BodyLog>>>,
    pub started: bool,
}
pub type FateRef = Arc<Mutex<Fate>>;

/// Polls `f` until it is done or has been pending `k` times (then it is dropped).
pub async fn for_polls<F: Future>(sim: &Sim, f: F, k: usize) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut left = k;
    let sim = sim.clone();
    std::future::poll_fn(move |cx| match f.as_mut().poll(cx) {
        std::task::Poll::Ready(x) => std::task::Poll::Ready(Some(x)),
        std::task::Poll::Pending => {
            if left == 0 {
                return std::task::Poll::Ready(None);
            }
            left -= 1;
            sim.wake_later(cx.waker().clone());
            std::task::Poll::Pending
        }
    })
    .await
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Answer,
    Early,
    AnswerClose,
    PartHead,
    PartBody,
    Garbage,
    Eof,
    DropIo,
    Stall,
    AnswerTwice,
}

fn case(ctx: &Ctx) -> CaseOut {
    let mut r = Rng::new(mix(ctx.seed, 82));
    if r.pct(15) {
        super::c08h2::case(ctx, r)
    } else {
        h1(ctx)
    }
}
fn h1(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = CliCfg::gen(&mut r);
    cfg.h09 = false;
    let n = r.range(1, 8);
    let acts: Vec<Act> = (0..n)
        .map(|_| *r.pick(&[Act::Answer, Act::Answer, Act::Answer, Act::Answer, Act::Answer, Act::Early, Act::AnswerClose, Act::PartHead, Act::PartBody, Act::Garbage, Act::Eof, Act::DropIo, Act::Stall, Act::AnswerTwice]))
        .collect();
    let mut ioa = IoCfg::gen(&mut r);
    let mut iob = IoCfg::gen(&mut r);
    tame(&mut r, &mut ioa, &mut iob, 40_000);
    let (client_io, server_io, wire) = pipe(&sim, ioa, iob);
    let fault = r.below(12);
    let fat = r.range(0, 2000) as u64;
    match fault {
        0 => wire.fa.lock().unwrap().read_at = Some((fat, *r.pick(&[Fault::Err, Fault::Zero]))),
        1 => wire.fa.lock().unwrap().write_at = Some((fat, *r.pick(&[Fault::Err, Fault::Zero]))),
        2 => wire.fa.lock().unwrap().flush_op = Some((r.range(0, 5) as u64, Fault::Err)),
        _ => {}
    }
    // body sizes and how requests are submitted
    let specs: Vec<(ReqSpec, bool, Option<usize>, usize, bool)> = (0..n)
        .map(|i| {
            let mut s = ReqSpec::get(&format!("/q{i}"));
            if r.pct(50) {
                s.method = "POST".into();
                let k = r.size(3000);
                s.script = Script::gen(&mut r, k);
                if r.pct(8) {
                    let at = r.below(s.script.steps.len() + 1);
                    s.script.steps.insert(at, Step::Err("x".into()));
                }
            }
            let wait_ready = r.pct(55);
            let drop_after = if r.pct(18) { Some(r.range(0, 25)) } else { None };
            (s, wait_ready, drop_after, r.range(0, 6), r.pct(60))
        })
        .collect();
    let kill_at = if r.pct(15) { Some(r.range(3, 500) as u64) } else { None };
    let drop_tx = r.pct(70);
    let desc = format!(
        "{:?}; fault {fault}@{fat}; kill {kill_at:?}; acts {acts:?}; reqs [{}]",
        cfg,
        specs.iter().map(|s| format!("{} ready={} drop={:?} try={} body={}", s.0.method, s.1, s.2, s.4, s.0.script.len())).collect::<Vec<_>>().join("; ")
    );
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 0, 10]);
    let (mut tx, end) = connect_h1(&mut ex, &cfg, client_io);
    let peer = Peer::new(server_io);
    let rx: RecvRef = Default::default();
    let (heads, done) = (Count::default(), Count::default());
    {
        let (p, rx, heads, done) = (peer.clone(), rx.clone(), heads.clone(), done.clone());
        ex.spawn("raw-read", async move {
            let (mut pos, mut k) = (0, 0);
            read_all(p, rx, 1 << 16, |rv| loop {
                match refh1::request(&rv.data, pos) {
                    refh1::P::Ok(m) => {
                        heads.set(k + 1);
                        if !m.complete {
                            break;
                        }
                        pos = m.end;
                        k += 1;
                        done.set(k);
                    }
                    _ => break,
                }
            })
            .await
        });
    }
    {
        let (p, heads, done, sim2, acts, rx) = (peer.clone(), heads.clone(), done.clone(), sim.clone(), acts.clone(), rx.clone());
        ex.spawn("raw-write", async move {
            let mut pos = 0;
            for (i, a) in acts.iter().enumerate() {
                if *a == Act::Early {
                    heads.at_least(i + 1).await;
                } else {
                    done.at_least(i + 1).await;
                }
                let d0 = rx.lock().unwrap().data.clone();
                let target = match refh1::request(&d0, pos) {
                    refh1::P::Ok(m) => {
                        pos = m.end;
                        m.start[1].clone()
                    }
                    _ => return,
                };
                let full = format!("HTTP/1.1 200 OK\r\nx-echo: {target}\r\ncontent-length: {}\r\n{}\r\n{target}", target.len(), if *a == Act::AnswerClose { "connection: close\r\n" } else { "" });
                let y = sim2.rng(|r| r.range(0, 8));
                sim2.yields(y).await;
                let send = match a {
                    Act::Answer | Act::Early | Act::AnswerClose => full.clone(),
                    Act::AnswerTwice => format!("{full}{full}"),
                    Act::PartHead => full[..sim2.rng(|r| r.range(1, 30))].to_string(),
                    Act::PartBody => full[..full.len() - 1].to_string(),
                    Act::Garbage => "\x01garbage\r\n\r\n".to_string(),
                    Act::Eof | Act::DropIo | Act::Stall => String::new(),
                };
                if p.send(send.as_bytes()).await.is_err() {
                    return;
                }
                match a {
                    Act::Answer | Act::Early | Act::AnswerTwice => {
                        if *a == Act::Early {
                            done.at_least(i + 1).await;
                            // find the true end of this request
                            let d = rx.lock().unwrap().data.clone();
                            let mut q = 0;
                            for _ in 0..=i {
                                if let refh1::P::Ok(m) = refh1::request(&d, q) {
                                    q = m.end
                                }
                            }
                            pos = q;
                        }
                    }
                    Act::DropIo => {
                        p.drop_io();
                        return;
                    }
                    Act::Stall => std::future::pending::<()>().await,
                    _ => {
                        let _ = p.close_write().await;
                        return;
                    }
                }
            }
        });
    }
    let fates: Vec<FateRef> = (0..n).map(|_| Default::default()).collect();
    {
        let (sim2, fates, specs, sp) = (sim.clone(), fates.clone(), specs.clone(), ex.spawner());
        ex.spawn("caller", async move {
            for (i, (s, wait_ready, drop_after, pause, use_try)) in specs.iter().enumerate() {
                sim2.yields(*pause).await;
                if *wait_ready && tx.ready().await.is_err() {
                    // still allowed to try
                    if sim2.pct(50) {
                        break;
                    }
                }
                let (req, log) = build_request(&sim2, s, &Default::default());
                {
                    let mut f = fates[i].lock().unwrap();
                    f.submitted = true;
                    f.log = Some(log);
                }
                sim2.log(|| format!("submit {i}"));
                type Fut = Pin<Box<dyn Future<Output = Result<http::Response<hyper::body::Incoming>, (Option<String>, bool, hyper::Error)>>>>;
                let fut: Fut = if *use_try {
                    let f = tx.try_send_request(req);
                    Box::pin(async move {
                        f.await.map_err(|mut e| {
                            let m = e.take_message();
                            (m.as_ref().map(|m| m.uri().to_string()), m.is_some(), e.into_error())
                        })
                    })
                } else {
                    let f = tx.send_request(req);
                    Box::pin(async move { f.await.map_err(|e| (None, false, e)) })
                };
                let (sim3, fate, drop_after) = (sim2.clone(), fates[i].clone(), *drop_after);
                sp.spawn(format!("fut{i}"), async move {
                    fate.lock().unwrap().started = true;
                    let res = match drop_after {
                        Some(k) => match for_polls(&sim3, fut, k).await {
                            Some(r) => r,
                            None => {
                                sim3.log(|| format!("drop {i}"));
                                sim3.mark();
                                fate.lock().unwrap().dropped = true;
                                return;
                            }
                        },
                        None => fut.await,
                    };
                    sim3.mark();
                    fate.lock().unwrap().resolved += 1;
                    match res {
                        Ok(resp) => {
                            sim3.log(|| format!("future {i}: response"));
                            let echo = resp.headers().get("x-echo").map(|v| v.to_str().unwrap().to_string());
                            fate.lock().unwrap().echo = Some(echo.clone().unwrap_or_default());
                            let got: GotRef = Default::default();
                            let mut body = resp.into_body();
                            read_body(&sim3, &mut body, &got, 0, usize::MAX).await;
                            let g = got.lock().unwrap();
                            if g.clean() {
                                fate.lock().unwrap().body_ok = Some(g.data == echo.unwrap_or_default().as_bytes());
                            }
                        }
                        Err((t, back, e)) => {
                            sim3.log(|| format!("future {i}: {e:?} handed back {back}"));
                            let mut f = fate.lock().unwrap();
                            f.back = t;
                            f.handed_back = back;
                            f.err = Some(ErrInfo::of(&e));
                        }
                    }
                });
            }
            if !drop_tx {
                std::future::pending::<()>().await;
            }
        });
    }
    if let Some(k) = kill_at {
        ex.max_steps = k;
        ex.run();
        ex.kill("client");
        ex.max_steps = 3_000_000;
    }
    ex.until = Some(1_000_000_000);
    let mut e = at_rest(ex.run());
    // finally the connection goes away: nothing may be left unresolved
    if e == End::Quiescent {
        ex.kill("client");
        e = at_rest(ex.run());
    }
    let end = end.lock().unwrap().clone();
    match &e {
        End::Quiescent => {}
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        x => out.inconclusive = Some(format!("{x:?}")),
    }
    if e == End::Quiescent {
        let sent = wire.sent_by_a();
        let rx = rx.lock().unwrap();
        // what reached the wire, in order
        let mut on_wire: Vec<String> = vec![];
        let mut pos = 0;
        while pos < sent.len() {
            match refh1::request(&sent, pos) {
                refh1::P::Ok(m) => {
                    on_wire.push(m.start[1].clone());
                    if !m.complete {
                        break;
                    }
                    pos = m.end;
                }
                refh1::P::Incomplete => {
                    on_wire.push(show(&sent[pos..]));
                    break;
                }
                refh1::P::Err(e) => {
                    out.viol(format!("unparsable output: {e}"));
                    break;
                }
            }
        }
        for (i, f) in fates.iter().enumerate() {
            // an unsolicited response may arrive after the next request was sent, and is then taken for its answer
            if acts[..i].contains(&Act::AnswerTwice) {
                f.lock().unwrap().echo = None;
                f.lock().unwrap().body_ok = None;
            }
            judge_fate(i, &f.lock().unwrap(), &format!("/q{i}"), &on_wire, &mut out);
        }
        // requests go out in submission order
        let order: Vec<usize> = on_wire.iter().filter_map(|t| t.strip_prefix("/q").and_then(|k| k.parse().ok())).collect();
        if order.windows(2).any(|w| w[0] >= w[1]) {
            out.viol(format!("requests on the wire out of order or repeated: {on_wire:?}"));
        }
        let _ = (&rx, &end);
    }
    tally(&fates, &mut out);
    out.sig = mix(sim.st(|s| s.hash), fnv(&wire.sent_by_b()));
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}
pub fn judge_fate(i: usize, f: &Fate, me: &str, on_wire: &[String], out: &mut CaseOut) {
    if !f.submitted {
        return;
    }
    let n_wire = on_wire.iter().filter(|t| *t == me).count();
    if n_wire > 1 {
        out.viol(format!("request {i} is on the wire {n_wire} times"));
    }
    if !f.dropped && f.resolved != 1 {
        out.viol(format!("request {i} resolved {} times", f.resolved));
    }
    if let Some(e) = &f.echo {
        if e != me {
            out.viol(format!("request {i} got the response to {e:?}"));
        }
    }
    if f.body_ok == Some(false) {
        out.viol(format!("request {i} got another response's body"));
    }
    if f.handed_back {
        if f.back.as_deref() != Some(me) && f.back.as_deref().map(|b| b.ends_with(me)) != Some(true) {
            out.viol(format!("request {i} was handed back as {:?}", f.back));
        }
        let partly = on_wire.iter().any(|t| t.contains(&format!("{me} ")));
        if n_wire > 0 || partly {
            out.viol(format!("request {i} was handed back for retry although it was put on the wire"));
        }
        if let Some(l) = &f.log {
            if l.lock().unwrap().polls > 0 {
                out.viol(format!("request {i} was handed back after its body had been polled"));
            }
        }
    }
    if f.err.as_ref().map(|e| e.dbg.contains("user code panicked")) == Some(true) {
        out.viol(format!("request {i}: {:?}", f.err));
    }
}
pub fn tally(fates: &[FateRef], out: &mut CaseOut) {
    let mut any = false;
    for f in fates {
        let f = f.lock().unwrap();
        any |= f.submitted;
        out.count("submitted", f.submitted as u64);
        out.count("responses", f.echo.is_some() as u64);
        out.count("errors", f.err.is_some() as u64);
        out.count("handed_back", f.handed_back as u64);
        out.count("dropped", f.dropped as u64);
    }
    out.nontrivial = any;
}
