//! C08 over HTTP/2: fates of requests under resets, GOAWAY, connection loss and dropped tasks.
use super::c08::{for_polls, Fate, FateRef};
use crate::body::*;
use crate::cli::*;
use crate::frames::{self, Fr};
use crate::h2ex::{gen_io2, tame2};
use crate::h2raw::*;
use crate::h2x::*;
use crate::peer::Peer;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::util::*;
use std::sync::{Arc, Mutex};

/// x-id of every request whose complete head is in the client's bytes, by stream, as the h2 crate decodes them.
fn on_wire(sent: &[u8]) -> Vec<(u32, String)> {
    let sim = Sim::new(1);
    let (a, b, _) = pipe(&sim, IoCfg::plain(), IoCfg::plain());
    let mut ex = Exec::new(&sim);
    let got: Arc<Mutex<Vec<(u32, String)>>> = Default::default();
    let g2 = got.clone();
    ex.spawn("decoder", async move {
        let Ok(mut c) = h2::server::Builder::new().max_concurrent_streams(1000).handshake::<_, bytes::Bytes>(b).await else { return };
        let mut hold = vec![];
        while let Some(Ok((req, resp))) = c.accept().await {
            let id = req.headers().get("x-id").map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned()).unwrap_or_default();
            g2.lock().unwrap().push((resp.stream_id().as_u32(), id));
            hold.push((req, resp));
        }
    });
    let peer = Peer::new(a);
    let frs: Vec<Fr> = frames::parse(sent, true);
    let s2 = sim.clone();
    ex.spawn("feed", async move {
        let p2 = peer.clone();
        if p2.send(frames::PREFACE).await.is_err() {
            return;
        }
        let mut seen = std::collections::HashSet::new();
        let _ = peer.send(&frames::settings(&[])).await;
        for f in frs {
            if f.kind != frames::HEADERS && f.kind != frames::CONT {
                continue;
            }
            // bodies are left out, so that only the last header block may end a stream
            let first = seen.insert(f.sid) || f.kind == frames::CONT;
            let flags = if first { f.flags & !1 } else { f.flags };
            if peer.send(&frames::frame(f.kind, flags, f.sid, &f.payload)).await.is_err() {
                return;
            }
            s2.yields(2).await;
            // nobody answers the server's own frames: keep its output drained
            let _ = now_recv(&peer).await;
        }
    });
    let _ = ex.run();
    let v = got.lock().unwrap().clone();
    v
}
async fn now_recv(p: &Peer) -> usize {
    // read whatever is there without waiting
    let mut fut = Box::pin(p.recv(1 << 16));
    std::future::poll_fn(|cx| match std::future::Future::poll(fut.as_mut(), cx) {
        std::task::Poll::Ready(Ok(v)) => std::task::Poll::Ready(v.len()),
        _ => std::task::Poll::Ready(0),
    })
    .await
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Answer,
    Ignore,
    Rst(u32),
    RstAfterHead(u32),
}

pub fn case(ctx: &Ctx, mut r: Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let r = &mut r;
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = H2Cfg::gen(r);
    cfg.resets = None;
    cfg.stream_win = None;
    cfg.conn_win = None;
    let n = r.range(1, 10);
    let acts: Vec<Act> = (0..n)
        .map(|_| match r.below(10) {
            0 => Act::Ignore,
            1 => Act::Rst(*r.pick(&[7u32, 7, 8, 0, 2])),
            2 => Act::RstAfterHead(*r.pick(&[0u32, 8, 2])),
            _ => Act::Answer,
        })
        .collect();
    // (after how many heads the peer goes away, last stream id relative, code, then closes?)
    let goaway = if r.pct(25) { Some((r.below(n + 1), r.below(n + 2), *r.pick(&[0u32, 0, 2, 11]), r.pct(50))) } else { None };
    let max_streams = *r.pick(&[None, None, Some(1u32), Some(2), Some(4)]);
    let patience: Vec<Option<usize>> = (0..n).map(|_| if r.pct(25) { Some(r.below(20)) } else { None }).collect();
    let kill = if r.pct(25) { Some((*r.pick(&["client", "h2c", "caller", "client"]), r.range(5, 400))) } else { None };
    let ending = r.below(3); // how the connection ends once nothing happens any more
    let mut specs: Vec<ReqSpec> = vec![];
    for i in 0..n {
        let mut s = ReqSpec::get(&abs(&format!("/r{i}")));
        if r.pct(40) {
            s.method = "POST".into();
            let k = r.size(2000);
            s.script = Script::gen(r, k);
        }
        s.headers = vec![("x-id".into(), i.to_string().into_bytes())];
        specs.push(s);
    }
    let gaps: Vec<usize> = (0..n).map(|_| *r.pick(&[0usize, 0, 0, 3, 20])).collect();
    let waits: Vec<bool> = (0..n).map(|_| r.pct(50)).collect();
    let tries: Vec<bool> = (0..n).map(|_| r.pct(60)).collect();
    let early = r.pct(30);
    tame2(r, &mut cfg, 4000);
    let (ioa, iob) = gen_io2(r, 6000);
    let (a, b, wire) = pipe(&sim, ioa, iob);
    wire.record_order();
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    out.desc = Some(format!("HTTP/2: {n} requests, peer {acts:?}, goaway {goaway:?}, max streams {max_streams:?}, patience {patience:?}, kill {kill:?}, ending {ending}"));
    let (slot, _end) = connect_h2(&mut ex, &cfg, a);
    let raw = Raw::spawn(&mut ex, b, false);
    raw.st.lock().unwrap().credit = true;
    let mut set = vec![(1u16, 4096u32)];
    if let Some(m) = max_streams {
        set.push((3, m));
    }
    raw.put(&frames::settings(&set));
    // peer
    {
        let (raw, sim2, acts) = (raw.clone(), sim.clone(), acts.clone());
        let pace = *r.pick(&[0usize, 2, 10]);
        ex.spawn("peer", async move {
            let mut k = 0;
            let mut gone = false;
            loop {
                if let (Some((after, last, code, close)), false) = (goaway, gone) {
                    if k >= after {
                        gone = true;
                        // never below what was answered already
                        let l = if code == 0 { 2 * (last.max(k)) as u32 } else { 2 * last as u32 };
                        raw.put(&frames::goaway(l.saturating_sub(1), code));
                        if close || code != 0 {
                            raw.close();
                            return;
                        }
                    }
                }
                let sid = 2 * k as u32 + 1;
                if !raw.wait(|s| s.has(sid, frames::HEADERS)).await {
                    return;
                }
                let act = acts[k % acts.len()];
                k += 1;
                let (raw, sim3) = (raw.clone(), sim2.clone());
                sim2.yields(pace).await;
                let body = format!("s{sid}");
                let id = sid.to_string();
                match act {
                    Act::Answer => {
                        sim3.yields(1).await;
                        raw.put(&response(sid, false, "200", &[("x-sid", id.as_bytes())]));
                        raw.put(&frames::data(sid, true, body.as_bytes()));
                    }
                    Act::Ignore => {}
                    Act::Rst(c) => raw.put(&frames::rst(sid, c)),
                    Act::RstAfterHead(c) => {
                        raw.put(&response(sid, false, "200", &[("x-sid", id.as_bytes())]));
                        raw.put(&frames::rst(sid, c));
                    }
                }
            }
        });
    }
    let fates: Vec<FateRef> = (0..n).map(|_| FateRef::default()).collect();
    let released = Gate::default();
    {
        let (sim2, sp, slot2, fates, raw2, released) = (sim.clone(), ex.spawner(), slot.clone(), fates.clone(), raw.clone(), released.clone());
        let patience = patience.clone();
        let drop_tx = r.pct(50);
        ex.spawn("caller", async move {
            let Some(mut tx) = slot2.get().await else { return };
            if !early && !raw2.wait(|s| s.frames.iter().any(|(f, _)| f.kind == frames::SETTINGS && f.ack())).await {
                // the connection is gone already: the requests still have to be answered for
            }
            for i in 0..n {
                sim2.yields(gaps[i]).await;
                if waits[i] {
                    let _ = tx.ready().await;
                }
                let f = fates[i].clone();
                f.lock().unwrap().submitted = true;
                let x = ExRef::default();
                let fut = submit2(&sim2, &mut tx, &specs[i], &x, tries[i]);
                let (sim3, pat) = (sim2.clone(), patience[i]);
                sp.spawn("fate", async move {
                    let r = match pat {
                        Some(k) => for_polls(&sim3, fut, k).await,
                        None => Some(fut.await),
                    };
                    sim3.mark();
                    let Some(r) = r else {
                        f.lock().unwrap().dropped = true;
                        return;
                    };
                    f.lock().unwrap().resolved += 1;
                    match r {
                        Ok(resp) => {
                            f.lock().unwrap().echo = Some(resp.headers().get("x-sid").map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned()).unwrap_or_default());
                            let (_, mut body) = resp.into_parts();
                            let got = GotRef::default();
                            read_body(&sim3, &mut body, &got, 0, usize::MAX).await;
                            let g = got.lock().unwrap();
                            if g.clean() {
                                let want = format!("s{}", f.lock().unwrap().echo.clone().unwrap());
                                f.lock().unwrap().body_ok = Some(g.data == want.as_bytes());
                            }
                        }
                        Err((e, back)) => {
                            let mut f = f.lock().unwrap();
                            f.err = Some(ErrInfo::of(&e));
                            f.handed_back = back;
                        }
                    }
                });
            }
            slot2.clear();
            if !drop_tx {
                released.wait().await;
            }
            drop(tx);
        });
    }
    let mut killed = false;
    if let Some((name, at)) = kill {
        ex.max_steps = at as u64;
        if let End::StepLimit = at_rest(ex.run()) {
            ex.kill(name);
            killed = true;
            sim.log(|| format!("task {name} killed"));
        }
        ex.max_steps = 3_000_000;
    }
    let run = |ex: &mut Exec, out: &mut CaseOut| match at_rest(ex.run()) {
        End::StepLimit => {
            out.inconclusive = Some("too many steps".into());
            false
        }
        End::Spin(t) => {
            out.viol(format!("task {t} spins without progress"));
            true
        }
        _ => true,
    };
    if !run(&mut ex, &mut out) {
        return out;
    }
    let alive = ex.is_pending("h2c") && !raw.st.lock().unwrap().eof;
    // an answered request needs no further event
    {
        let open = fates.iter().filter(|f| f.lock().unwrap().submitted && f.lock().unwrap().resolved == 0 && !f.lock().unwrap().dropped).count();
        if open > 0 {
            out.count("left_open", open as u64);
        }
        let may_wait = acts.contains(&Act::Ignore) && alive;
        if open > 0 && !may_wait {
            out.viol(format!("{open} requests are left waiting although the peer answers everything (connection alive: {alive})"));
        }
    }
    released.open();
    match ending {
        0 => raw.close(),
        1 => wire.reset_all(),
        _ => {
            ex.kill("client");
            ex.kill("h2c");
        }
    }
    if !run(&mut ex, &mut out) {
        return out;
    }
    let sa = wire.sent_by_a();
    let wired = on_wire(&sa);
    let heads = frames::parse(&sa, true).iter().filter(|f| f.kind == frames::HEADERS).map(|f| f.sid).collect::<std::collections::BTreeSet<_>>();
    if wired.len() != heads.len() {
        out.inconclusive = Some(format!("decoded {} of {} heads", wired.len(), heads.len()));
        return out;
    }
    for (i, f) in fates.iter().enumerate() {
        let f: &Fate = &f.lock().unwrap();
        if !f.submitted {
            continue;
        }
        out.nontrivial = true;
        out.count("h2_submitted", 1);
        let me: Vec<u32> = wired.iter().filter(|w| w.1 == i.to_string()).map(|w| w.0).collect();
        if me.len() > 1 {
            out.viol(format!("request {i} went out {} times", me.len()));
        }
        if f.dropped {
            out.count("h2_dropped", 1);
            continue;
        }
        if f.resolved != 1 {
            out.viol(format!("request {i} resolved {} times (sent: {}, killed: {killed})", f.resolved, !me.is_empty()));
            continue;
        }
        if f.handed_back {
            out.count("h2_handed_back", 1);
            if !me.is_empty() {
                out.viol(format!("request {i} was handed back but had been sent on stream {}", me[0]));
            }
        }
        match (&f.echo, &f.err) {
            (Some(sid), None) => {
                out.count("h2_responses", 1);
                if me.first().map(|s| s.to_string()).as_ref() != Some(sid) {
                    out.viol(format!("request {i} on stream {me:?} got the response of stream {sid}"));
                }
                if f.body_ok == Some(false) && me.first().is_some_and(|s| acts[(*s as usize / 2) % acts.len()] == Act::Answer) {
                    out.viol(format!("request {i}: wrong response body"));
                }
                let act = me.first().map(|s| acts[(*s as usize / 2) % acts.len()]);
                if !matches!(act, Some(Act::Answer | Act::RstAfterHead(_))) {
                    out.viol(format!("request {i} got a response the peer never sent"));
                }
            }
            (None, Some(_)) => out.count("h2_errors", 1),
            x => out.viol(format!("request {i}: no outcome {x:?}")),
        }
    }
    let order = wire.order.lock().unwrap().clone().unwrap_or_default();
    let sb = wire.sent_by_b();
    out.sig = mix(sim.st(|s| s.hash), fnv(&sa) ^ fnv(&sb));
    if ctx.trace {
        out.trace = sim.take_log();
        out.trace.extend(frames::dump(&order, &sa, &sb, true));
    }
    out
}
