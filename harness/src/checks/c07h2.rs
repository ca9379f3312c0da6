//! C07, HTTP/2: a body whose local producer fails or disappears never reaches the peer as complete.
use crate::body::*;
use crate::cli::*;
use crate::frames;
use crate::h2ex::{gen_io2, tame2};
use crate::h2raw::*;
use crate::h2x::*;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::srv::*;
use crate::util::*;
use http::{HeaderMap, HeaderValue};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate {
    Fine,
    Err,
    ErrH2(u32),
    /// the task with this name is dropped at some step
    Kill(&'static str),
    /// the caller gives up on the response
    DropCaller,
}

pub fn case(ctx: &Ctx, mut r: Rng, server: bool) -> CaseOut {
    let mut out = CaseOut::default();
    let r = &mut r;
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = H2Cfg::gen(r);
    cfg.stream_win = None;
    cfg.conn_win = None;
    let total = *r.pick(&[1usize, 100, 5_000, 40_000]);
    let n = r.size(total);
    let mut script = Script::gen(r, n);
    let whole = script.data();
    let mut tr = HeaderMap::new();
    tr.insert("x-t", HeaderValue::from_static("v"));
    if r.pct(20) {
        script.steps.push(Step::Trailers(tr));
    }
    let fate = match r.below(10) {
        0 | 1 => Fate::Fine,
        2 | 3 => Fate::Err,
        4 | 5 => Fate::ErrH2(*r.pick(&[0u32, 8, 2, 7, 5])),
        6 => Fate::Kill(if server { "server" } else { "client" }),
        7 | 8 => Fate::Kill(if server { "h2s" } else { "h2c" }),
        _ if !server => Fate::DropCaller,
        _ => Fate::Err,
    };
    let at = script.steps.iter().position(|s| matches!(s, Step::Trailers(_))).unwrap_or(script.steps.len());
    let at = r.below(at + 1);
    match fate {
        Fate::Err => script.steps.insert(at, Step::Err("body failed on purpose".into())),
        Fate::ErrH2(c) => {
            let w = r.pct(50);
            script.steps.insert(at, Step::ErrH2(c, w))
        }
        Fate::DropCaller if r.pct(50) => script.steps.insert(at, Step::Never),
        _ => {}
    }
    if fate != Fate::Fine {
        script.steps.truncate(at + 1 + r.below(4));
        if matches!(fate, Fate::Err | Fate::ErrH2(_)) && script.hint == Hint::Exact && r.pct(50) {
            script.hint = Hint::Unknown;
        }
        // a body that is known to be at its end is never asked again
        if script.steps.len() <= 1 || script.data().is_empty() {
            script.eager_eos = false;
        }
    }
    let fails = script.steps.iter().position(|s| matches!(s, Step::Err(_) | Step::ErrH2(..) | Step::Never));
    let before: Vec<u8> = match fails {
        Some(k) => Script { steps: script.steps[..k].to_vec(), ..script.clone() }.data(),
        None => script.data(),
    };
    let has_trailers = script.steps.iter().any(|s| matches!(s, Step::Trailers(_)));
    let len_known = script.hint == Hint::Exact;
    let win = *r.pick(&[1u32, 1, 300, 65_535]);
    let credit = r.pct(85);
    tame2(r, &mut cfg, n);
    let (ioa, iob) = gen_io2(r, n + 2000);
    let (a, b, wire) = pipe(&sim, ioa, iob);
    wire.record_order();
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 5]);
    let raw;
    let end;
    let mut keep = None;
    let mut blog = None;
    let x = ExRef::default();
    let mut st = None;
    if server {
        let svc = Svc::new(&ex, vec![Plan::simple(RespSpec { script: script.clone(), ..RespSpec::ok(b"") })]);
        st = Some(svc.st.clone());
        end = serve_h2(&mut ex, &cfg, b, svc, Gate::default());
        raw = Raw::spawn(&mut ex, a, true);
        raw.put(&[frames::PREFACE, &frames::settings(&[(1, 0), (4, win)]), &request(1, true, "GET", "/", &[])].concat());
    } else {
        let (s, e) = connect_h2(&mut ex, &cfg, a);
        end = e;
        keep = Some(s.clone());
        raw = Raw::spawn(&mut ex, b, false);
        raw.put(&frames::settings(&[(1, 0), (4, win)]));
        let (sim, x, script) = (sim.clone(), x.clone(), script.clone());
        let patience = r.range(0, 60);
        let raw2 = raw.clone();
        ex.spawn("caller", async move {
            let Some(mut tx) = s.get().await else { return };
            if !raw2.wait(|s| s.frames.iter().any(|(f, _)| f.kind == frames::SETTINGS && f.ack())).await {
                return;
            }
            let mut spec = ReqSpec::get(&abs("/"));
            spec.method = "POST".into();
            spec.script = script;
            let fut = submit2(&sim, &mut tx, &spec, &x, false);
            if fate == Fate::DropCaller {
                let mut fut = fut;
                for _ in 0..patience {
                    let mut done = false;
                    std::future::poll_fn(|cx| {
                        done = fut.as_mut().poll(cx).is_ready();
                        std::task::Poll::Ready(())
                    })
                    .await;
                    if done {
                        return;
                    }
                    sim.yields(1).await;
                }
                sim.log(|| "the caller gives up".into());
                x.lock().unwrap().dropped = true;
                return;
            }
            finish2(&sim, fut, &x, CRead::All, 0).await;
        });
        blog = Some(());
    }
    raw.st.lock().unwrap().credit = credit;
    let mut killed = None;
    if let Fate::Kill(name) = fate {
        ex.max_steps = r.range(5, 300) as u64;
        if let End::StepLimit = at_rest(ex.run()) {
            ex.kill(name);
            killed = Some(name);
            sim.log(|| format!("task {name} killed"));
        }
        ex.max_steps = 3_000_000;
    }
    match at_rest(ex.run()) {
        End::StepLimit => {
            out.inconclusive = Some("too many steps".into());
            return out;
        }
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        _ => {}
    }
    let desc = format!(
        "HTTP/2 {} body of {n} bytes, hint {:?}, eager {}, {fate:?} after {} bytes, trailers {has_trailers}, window {win}, credit {credit}",
        if server { "response" } else { "request" },
        script.hint,
        script.eager_eos,
        before.len()
    );
    let _ = (blog, st, end);
    let rs = raw.st.lock().unwrap();
    let got = rs.data(1);
    let eos = rs.eos(1);
    let head = rs.has(1, frames::HEADERS);
    out.nontrivial = head;
    out.count("h2_sent_bodies", head as u64);
    if !whole.starts_with(&got) {
        out.viol(format!("the peer received other data than produced: {}", diff(&before, &got)));
    }
    if eos && head {
        // an exact length lets hyper stop asking once it has everything
        let done = got.len() == before.len() && (fails.is_none() || len_known && got.len() == script.len());
        if !done {
            out.viol(format!("the peer saw a complete message of {} bytes; the producer had {} ({fate:?})", got.len(), before.len()));
        }
        let heads = rs.of(1).iter().filter(|f| f.kind == frames::HEADERS).count();
        if has_trailers && fails.is_none() && killed.is_none() && heads < 2 {
            out.viol("the peer saw a complete message without its trailers");
        }
    }
    let closed = rs.eof || rs.err.is_some();
    if fails.is_some() && !matches!(fate, Fate::DropCaller) && head && !eos && credit {
        out.count("h2_failed_producers", 1);
        if rs.rst(1).is_none() && !closed {
            out.viol(format!("the producer failed ({fate:?}) but the peer was not told"));
        }
    }
    if killed.is_some() && head && !eos {
        out.count("h2_killed", 1);
    }
    drop(rs);
    let order = wire.order.lock().unwrap().clone().unwrap_or_default();
    let (sa, sb) = (wire.sent_by_a(), wire.sent_by_b());
    out.sig = mix(sim.st(|s| s.hash), fnv(&sa) ^ fnv(&sb));
    out.desc = Some(desc);
    drop(keep);
    if ctx.trace {
        out.trace = sim.take_log();
        out.trace.extend(frames::dump(&order, &sa, &sb, true));
    }
    out
}
