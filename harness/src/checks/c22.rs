//! C22: no input from a peer can panic or abort the process, and how it is split into reads changes nothing.
use crate::body::*;
use crate::cli::*;
use crate::frames;
use crate::h1gen::*;
use crate::h2raw;
use crate::h2x::*;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::srv::*;
use crate::util::*;

pub const CHECK: Check = Check {
    id: "C22",
    level: "exploration",
    rule: "a case feeds one mutated or random byte stream to an HTTP/1 or HTTP/2 server or client under a random configuration, in several different segmentations, ended by end of stream, error or silence; panics, runaway work and (for segmentations of the same bytes) differing outcomes are violations; distinct = distinct input streams that made the connection do something",
    quick: 150_000,
    thorough: 2_000_000,
    run: case,
    assumptions: &["outcomes are compared across segmentations for HTTP/1 inputs smaller than the buffer limits, read by a service or caller that reads everything", "panics inside the h2 or httparse crates count, as they take the process down all the same"],
};

const WORDS: &[&[u8]] = &[
    b"\r\n", b"\n", b"\r", b"\r\n\r\n", b"0\r\n\r\n", b"0\r\n", b"ffffffffffffffff\r\n", b"fffffffffffffff0\r\n", b"10000000000000000\r\n", b"7fffffffffffffff\r\n", b";", b";a=b", b":", b" ", b"\t", b"\0", b"\x7f", b"\x80", b"\xff",
    b"Content-Length: 0\r\n", b"Content-Length: 5\r\n", b"Content-Length: 18446744073709551615\r\n", b"Content-Length: 18446744073709551614\r\n", b"Content-Length: 18446744073709551613\r\n", b"Content-Length: 18446744073709551616\r\n", b"Content-Length: -1\r\n", b"Content-Length: +5\r\n",
    b"Transfer-Encoding: chunked\r\n", b"Transfer-Encoding: gzip, chunked\r\n", b"Transfer-Encoding: chunked, gzip\r\n", b"Transfer-Encoding: \r\n", b"transfer-encoding: ,chunked,\r\n",
    b"Expect: 100-continue\r\n", b"Connection: close\r\n", b"Connection: upgrade\r\n", b"Connection: keep-alive\r\n", b"Connection: ,,x,\r\n", b"Upgrade: h2c\r\n", b"Trailer: x\r\n", b"TE: trailers\r\n", b"Date: x\r\n",
    b"HTTP/1.0", b"HTTP/1.1", b"HTTP/2.0", b"HTTP/0.9", b"HTTP/1.2", b"HTTP/", b"GET / HTTP/1.1\r\n", b"CONNECT a:1 HTTP/1.1\r\n", b"HEAD * HTTP/1.0\r\n", b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", b"PRI", b"GET /\r\n",
    b"HTTP/1.1 100 Continue\r\n\r\n", b"HTTP/1.1 101 x\r\n\r\n", b"HTTP/1.1 199 \r\n\r\n", b"HTTP/1.1 204 x\r\n", b"HTTP/1.1 000 x\r\n", b"HTTP/1.1 999\r\n\r\n", b"*", b"/", b"http://a", b"http://[::1]:99999/", b"%00", b"?", b"#", b"@", b"a:b@c:1",
];
fn mutate(r: &mut Rng, w: &mut Vec<u8>) {
    for _ in 0..r.range(1, 6) {
        let n = w.len();
        let at = r.range(0, n);
        match r.below(12) {
            0 | 1 => {
                let x = *r.pick(WORDS);
                w.splice(at..at, x.iter().copied());
            }
            2 if n > 0 => {
                let i = at.min(n - 1);
                w[i] ^= 1 << r.below(8);
            }
            3 if n > 0 => {
                let i = at.min(n - 1);
                w[i] = r.below(256) as u8;
            }
            4 => {
                let k = r.range(0, (n - at).min(40));
                w.drain(at..at + k);
            }
            5 => {
                let k = r.range(0, (n - at).min(60));
                let x = w[at..at + k].to_vec();
                let b = r.range(0, w.len());
                for _ in 0..r.range(1, 3) {
                    w.splice(b..b, x.iter().copied());
                }
            }
            6 => w.truncate(at),
            7 => {
                let k = r.range(1, 30);
                let x: Vec<u8> = (0..k).map(|_| r.below(256) as u8).collect();
                w.splice(at..at, x);
            }
            8 => {
                // replace a number
                if let Some(i) = (at..n).find(|i| w[*i].is_ascii_hexdigit()) {
                    let mut j = i;
                    while j < n && w[j].is_ascii_hexdigit() {
                        j += 1
                    }
                    let x = r.pick(&["0", "1", "00000000000000000000", "ffffffffffffffff", "fffffffffffffffe", "18446744073709551615", "9999999999999999999999", "80000000", "0x1", "-1", "g"]).as_bytes();
                    w.splice(i..j, x.iter().copied());
                }
            }
            9 => {
                // many short lines
                let k = *r.pick(&[5usize, 99, 101, 130, 400]);
                let x = format!("{}: {}\r\n", r.pick(&["a", "A-b", "x"]), r.pick(&["", "1", " "])).repeat(k);
                w.splice(at..at, x.bytes());
            }
            10 => {
                let k = *r.pick(&[10usize, 300, 8192, 17_000]);
                let c = *r.pick(b"aA0 ;\t\r/%\x80");
                w.splice(at..at, std::iter::repeat(c).take(k));
            }
            _ => {
                // change the case of a stretch
                for b in w.iter_mut().skip(at).take(20) {
                    *b ^= if b.is_ascii_alphabetic() { 0x20 } else { 0 };
                }
            }
        }
    }
}
fn garbage(r: &mut Rng) -> Vec<u8> {
    let n = r.range(0, 60);
    let mut v = vec![];
    for _ in 0..n {
        if r.pct(70) {
            v.extend_from_slice(r.pick(WORDS));
        } else {
            let c = r.below(256) as u8;
            v.push(c);
        }
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tail {
    Eof,
    Drop,
    Silent,
}
fn case(ctx: &Ctx) -> CaseOut {
    let mut r = Rng::new(ctx.seed);
    match r.below(10) {
        0..=3 => h1_server(ctx, r),
        4..=6 => h1_client(ctx, r),
        7 | 8 => h2(ctx, r, true),
        _ => h2(ctx, r, false),
    }
}
/// how the same bytes are cut in one run
#[derive(Clone, Debug)]
enum Cut {
    Whole,
    Bytes,
    Random,
}
fn io_for(r: &mut Rng, cut: &Cut) -> (IoCfg, IoCfg) {
    let (mut a, mut b) = (IoCfg::plain(), IoCfg::plain());
    match cut {
        Cut::Whole => {}
        Cut::Bytes => {
            a.rd = Seg::Fixed(1);
        }
        Cut::Random => {
            a = IoCfg::gen(r);
            b = IoCfg::gen(r);
            a.cap = a.cap.max(30_000);
            b.cap = b.cap.max(30_000);
        }
    }
    (a, b)
}
async fn deliver(sim: Sim, p: Peer, wire: Vec<u8>, cut: Cut, tail: Tail) {
    let mut off = 0;
    while off < wire.len() {
        let left = wire.len() - off;
        let k = match cut {
            Cut::Random => sim.rng(|r| if r.pct(30) { left } else { r.range(1, left.min(200)) }),
            _ => left,
        };
        if p.send(&wire[off..off + k]).await.is_err() {
            return;
        }
        off += k;
        if matches!(cut, Cut::Random) {
            let y = sim.rng(|r| r.range(0, 4));
            sim.yields(y).await;
        }
    }
    match tail {
        Tail::Eof => {
            let _ = p.close_write().await;
        }
        Tail::Drop => p.drop_io(),
        Tail::Silent => {}
    }
}
fn budget(ex: &mut Exec, bytes: usize) {
    ex.max_steps = 60_000 + 120 * bytes as u64;
}
fn settle(ex: &mut Exec, bytes: usize, out: &mut CaseOut) {
    budget(ex, bytes);
    match at_rest(ex.run()) {
        End::StepLimit => out.viol(format!("unbounded work: {} polls and deliveries for {bytes} bytes of input", 60_000 + 120 * bytes)),
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        _ => {}
    }
}
fn body_text(g: &Got) -> String {
    format!("{}B#{:x} ended {} failed {} trailers {:?}", g.data.len(), fnv(&g.data), g.done, g.err.is_some(), g.trailers.as_ref().map(|t| t.len()))
}

fn h1_server(ctx: &Ctx, mut r: Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let r = &mut r;
    let mut cfg = SrvCfg::gen(r);
    cfg.date = false;
    cfg.keep_alive = r.pct(85);
    cfg.ignore_invalid = r.pct(30);
    cfg.pipeline_flush = r.pct(10);
    cfg.max_headers = *r.pick(&[None, None, Some(0), Some(1), Some(10), Some(100), Some(1000)]);
    cfg.max_buf = *r.pick(&[None, None, Some(8192), Some(20_000)]);
    let mut wire = vec![];
    if r.pct(8) {
        wire = garbage(r);
    } else {
        for _ in 0..r.range(1, 4) {
            let m = gen_request(r, &ReqOpt { max_body: 600, close: false, leading_crlf: true, allow_10: true, max_headers: 30 });
            wire.extend_from_slice(&m.wire);
        }
    }
    if r.pct(95) {
        mutate(r, &mut wire);
    }
    let tail = *r.pick(&[Tail::Eof, Tail::Eof, Tail::Silent, Tail::Drop]);
    // compare outcomes, or only look for panics while everything else varies too
    let small = wire.len() + 200 < cfg.max_buf.unwrap_or(400_000).min(8192);
    let compare = small && tail != Tail::Drop && r.pct(70);
    // (an HTTP/2 preface is recognised only once all of it was read)
    let compare = compare && !wire.windows(5).any(|w| w == b"PRI *");
    if compare {
        // the head under way is complete: one that never ends may be refused early or waited for
        wire.extend_from_slice(b"\r\n\r\n");
        // otherwise the end of the stream may overtake an answer under way
        cfg.half_close = true;
    }
    out.desc = Some(format!("HTTP/1 server, {} bytes, {tail:?}, compare {compare}, {cfg:?}: {}", wire.len(), show(&wire[..wire.len().min(300)])));
    let cuts = if compare { vec![Cut::Whole, Cut::Bytes, Cut::Random] } else { vec![Cut::Random] };
    let mut first: Option<(Vec<String>, Vec<u8>, String)> = None;
    for cut in cuts {
        let sim = Sim::new(r.next());
        if ctx.trace {
            sim.enable_log();
        }
        let (ioa, iob) = io_for(r, &cut);
        let (a, b, wire_) = pipe(&sim, ioa, iob);
        let mut ex = Exec::new(&sim);
        let plans: Vec<Plan> = (0..8)
            .map(|i| {
                let mut p = Plan::simple(RespSpec::ok(format!("r{i}").as_bytes()));
                if !compare {
                    p.read = match r.below(8) {
                        0 => ReadPlan::Never,
                        1 => ReadPlan::Partial(1),
                        2 => ReadPlan::Concurrent,
                        3 => ReadPlan::AfterRespond,
                        4 => ReadPlan::Hold,
                        5 => ReadPlan::Touch,
                        _ => ReadPlan::All,
                    };
                    p.delay = *r.pick(&[0, 0, 5]);
                    p.fail = r.pct(5);
                    if r.pct(15) {
                        p.resp.status = *r.pick(&[101u16, 204, 304, 500]);
                    }
                }
                p
            })
            .collect();
        let svc = Svc::new(&ex, plans);
        let st = svc.st.clone();
        let graceful = Gate::default();
        let end = serve_h1(&mut ex, &cfg, a, svc, graceful.clone());
        let peer = Peer::new(b);
        let rx: RecvRef = Default::default();
        {
            let (p, rx) = (peer.clone(), rx.clone());
            ex.spawn("peer-read", async move { read_all(p, rx, 1 << 16, |_| {}).await });
        }
        ex.spawn("peer-write", deliver(sim.clone(), peer.clone(), wire.clone(), cut.clone(), tail));
        if !compare && r.pct(10) {
            let s = sim.clone();
            let n = r.range(0, 60);
            ex.spawn("graceful", async move {
                s.yields(n).await;
                graceful.open();
            });
        }
        settle(&mut ex, wire.len(), &mut out);
        let st = st.lock().unwrap();
        let e = end.lock().unwrap();
        out.count("requests", st.seen.len() as u64);
        out.count("refused", e.is_parse as u64);
        out.count("runs", 1);
        out.nontrivial |= !st.seen.is_empty() || e.done || !rx.lock().unwrap().data.is_empty();
        if compare {
            let seen: Vec<String> = st.seen.iter().map(|s| format!("{} {} {:?} {:?} {}", s.method, s.uri, s.version, s.headers, body_text(&s.got.lock().unwrap()))).collect();
            let now = (seen, wire_.sent_by_a(), format!("done {} ok {} parse {} incomplete {} timeout {} : {}", e.done, e.ok, e.is_parse, e.is_incomplete, e.is_timeout, e.err));
            match &first {
                None => first = Some(now),
                Some(f) => {
                    out.count("compared", 1);
                    if f.0 != now.0 {
                        let i = f.0.iter().zip(&now.0).position(|(a, b)| a != b).unwrap_or(f.0.len().min(now.0.len()));
                        out.viol(format!("the service saw different requests when the bytes came as {cut:?}: {:?} instead of {:?} ({} instead of {})", now.0.get(i), f.0.get(i), now.0.len(), f.0.len()));
                    }
                    if f.1 != now.1 {
                        out.viol(format!("different output when the bytes came as {cut:?}: {}", diff(&f.1, &now.1)));
                    }
                    if f.2 != now.2 {
                        out.viol(format!("different end when the bytes came as {cut:?}: {} instead of {}", now.2, f.2));
                    }
                }
            }
        }
        if ctx.trace {
            out.trace.push(format!("=== {cut:?}"));
            out.trace.extend(sim.take_log());
        }
    }
    out.sig = mix(fnv(&wire), tail as u64);
    out
}

fn h1_client(ctx: &Ctx, mut r: Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let r = &mut r;
    let mut cfg = CliCfg::gen(r);
    cfg.max_headers = *r.pick(&[None, None, Some(0), Some(1), Some(10), Some(100), Some(1000)]);
    cfg.exact_buf = *r.pick(&[None, None, None, Some(1), Some(300), Some(9000)]);
    cfg.max_buf = if cfg.exact_buf.is_none() { *r.pick(&[None, None, Some(8192)]) } else { None };
    let n = r.range(1, 3);
    let methods: Vec<String> = (0..n).map(|_| r.pick(&["GET", "GET", "POST", "HEAD", "CONNECT", "PUT"]).to_string()).collect();
    let mut wire = vec![];
    if r.pct(8) {
        wire = garbage(r);
    } else {
        for m in &methods {
            for _ in 0..*r.pick(&[0usize, 0, 1, 3]) {
                wire.extend_from_slice(&gen_interim(r).2);
            }
            let last20 = r.pct(20);
            let m = gen_response(r, &RespOpt { method: m.clone(), max_body: 600, last: last20, max_headers: 30 });
            wire.extend_from_slice(&m.wire);
        }
    }
    if r.pct(95) {
        mutate(r, &mut wire);
    }
    let tail = *r.pick(&[Tail::Eof, Tail::Eof, Tail::Silent, Tail::Drop]);
    let small = wire.len() + 200 < cfg.max_buf.or(cfg.exact_buf).unwrap_or(400_000).min(8192);
    let compare = small && tail != Tail::Drop && r.pct(70);
    // (an HTTP/2 preface is recognised only once all of it was read)
    let compare = compare && !wire.windows(5).any(|w| w == b"PRI *");
    if compare {
        // the head under way is complete: one that never ends may be refused early or waited for
        wire.extend_from_slice(b"\r\n\r\n");
    }
    out.desc = Some(format!("HTTP/1 client {methods:?}, {} bytes, {tail:?}, compare {compare}, {cfg:?}: {}", wire.len(), show(&wire[..wire.len().min(300)])));
    let cuts = if compare { vec![Cut::Whole, Cut::Bytes, Cut::Random] } else { vec![Cut::Random] };
    let mut first: Option<Vec<String>> = None;
    let reads: Vec<CRead> = (0..n).map(|_| if compare || r.pct(70) { CRead::All } else { *r.pick(&[CRead::Never, CRead::Partial(1), CRead::Keep]) }).collect();
    let info = r.pct(50);
    for cut in cuts {
        let sim = Sim::new(r.next());
        if ctx.trace {
            sim.enable_log();
        }
        let (ioa, iob) = io_for(r, &cut);
        let (a, b, _wire) = pipe(&sim, ioa, iob);
        let mut ex = Exec::new(&sim);
        let (mut tx, end) = connect_h1(&mut ex, &cfg, a);
        let peer = Peer::new(b);
        let rx: RecvRef = Default::default();
        let go = Count::default();
        {
            let (p, rx, go) = (peer.clone(), rx.clone(), go.clone());
            ex.spawn("peer-read", async move {
                read_all(p, rx, 1 << 16, |rv| {
                    if let refh1::P::Ok(m) = refh1::request(&rv.data, 0) {
                        if m.complete {
                            go.set(1)
                        }
                    }
                })
                .await
            });
        }
        {
            let (s, p, w, c) = (sim.clone(), peer.clone(), wire.clone(), cut.clone());
            let early = !compare && r.pct(20);
            ex.spawn("peer-write", async move {
                if !early {
                    go.at_least(1).await;
                }
                deliver(s, p, w, c, tail).await
            });
        }
        let xs: Vec<ExRef> = methods.iter().map(|_| ExRef::default()).collect();
        {
            // only the first exchange is comparable: what follows depends on when the next request goes out
            let k = if compare { 1 } else { n };
            let (sim, xs, methods) = (sim.clone(), xs.clone(), methods.clone());
            let reads = reads.clone();
            ex.spawn("caller", async move {
                for i in 0..k {
                    if i > 0 && tx.ready().await.is_err() {
                        return;
                    }
                    let mut s = ReqSpec::get(if methods[i] == "CONNECT" { "a:1" } else { "/" });
                    s.method = methods[i].clone();
                    s.informational = info;
                    if s.method == "POST" && !compare {
                        s.script.steps = vec![Step::Data(b"abc".to_vec()), Step::Pend(3), Step::Data(b"def".to_vec())];
                    }
                    exchange(&sim, &mut tx, &s, &xs[i], reads[i], 0, false).await;
                }
                std::future::pending::<()>().await;
                drop(tx);
            });
        }
        settle(&mut ex, wire.len(), &mut out);
        out.count("runs", 1);
        let e = end.lock().unwrap();
        let mut now = vec![];
        for x in &xs {
            let x = x.lock().unwrap();
            out.count("responses", x.status.is_some() as u64);
            out.count("refused", x.err.is_some() as u64);
            out.nontrivial |= x.resolved > 0;
            let err = x.err.as_ref().map(|e| format!("parse {} incomplete {} canceled {} closed {}", e.parse, e.incomplete, e.canceled, e.closed));
            now.push(format!("{:?} {:?} {:?} {:?} {} / {err:?} / infos {:?}", x.status, x.version, x.reason.as_ref().map(|r| show(r)), x.headers, body_text(&x.got.lock().unwrap()), x.infos.lock().unwrap().len()));
        }
        drop(e);
        if compare {
            match &first {
                None => first = Some(now),
                Some(f) => {
                    out.count("compared", 1);
                    if f[0] != now[0] {
                        out.viol(format!("different outcome when the bytes came as {cut:?}: {} instead of {}", now[0], f[0]));
                    }
                }
            }
        }
        if ctx.trace {
            out.trace.push(format!("=== {cut:?}"));
            out.trace.extend(sim.take_log());
        }
    }
    out.sig = mix(fnv(&wire), tail as u64);
    out
}
fn u32s(r: &mut Rng) -> u32 {
    *r.pick(&[0u32, 1, 2, 3, 5, 7, 100, 65_535, 65_536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff])
}
fn sid(r: &mut Rng) -> u32 {
    *r.pick(&[1u32, 1, 1, 3, 3, 5, 7, 0, 2, 4, 0x7fff_ffff, 9, 101])
}
fn frame_soup(r: &mut Rng, server: bool) -> Vec<u8> {
    let mut v = vec![];
    let mut next = 1u32;
    let n = r.range(1, 40);
    for _ in 0..n {
        let s = if r.pct(60) { next } else { sid(r) };
        let eos = r.pct(40);
        let f = match r.below(22) {
            0..=4 => {
                let m = *r.pick(&["GET", "POST", "HEAD", "CONNECT", "", "P\0", "get"]);
                let l = r.pick(&["0", "5", "18446744073709551615", "-1", "x", "00"]).to_string();
                let long = "v".repeat(*r.pick(&[1usize, 100, 4000, 20_000]));
                let mut x: Vec<(&str, &[u8])> = vec![];
                for _ in 0..r.range(0, 4) {
                    x.push(*r.pick(&[
                        ("x-a", &b"1"[..]), ("te", b"trailers"), ("te", b"gzip"), ("connection", b"close"), ("cookie", b"a"), (":path", b"/x"), (":protocol", b"websocket"), ("X-Up", b"1"), ("", b""), ("x", b"\0"), ("x\r\n", b"\r\n"), ("expect", b"100-continue"), (":status", b"200"), ("transfer-encoding", b"chunked"), ("host", b"h"), (":authority", b"@:"),
                    ]));
                }
                if r.pct(30) {
                    x.push(("content-length", l.as_bytes()));
                }
                if r.pct(5) {
                    x.push(("x-long", long.as_bytes()));
                }
                next += 2;
                if server {
                    match r.below(8) {
                        0 => frames::headers(s, eos, &x),
                        1 => frames::headers(s, eos, &[&[(":method", &b"CONNECT"[..]), (":authority", b"a:1")], &x[..]].concat()),
                        _ => h2raw::request(s, eos, m, *r.pick(&["/", "", "*", "/%", "//", "x"]), &x),
                    }
                } else {
                    h2raw::response(s, eos, *r.pick(&["200", "204", "304", "100", "103", "101", "0", "999", "abc", ""]), &x)
                }
            }
            5..=8 => {
                let k = *r.pick(&[0usize, 1, 5, 100, 16_384, 16_385]);
                let d = r.body(k);
                frames::data(s, eos, &d)
            }
            9 => frames::rst(s, u32s(r)),
            10 => {
                let mut p = vec![];
                for _ in 0..r.range(0, 4) {
                    p.push((*r.pick(&[1u16, 2, 3, 4, 5, 6, 8, 9, 0xffff]), u32s(r)));
                }
                frames::settings(&p)
            }
            11 => frames::settings_ack(),
            12 => frames::ping(r.pct(50), [7; 8]),
            13 => frames::goaway(u32s(r), u32s(r)),
            14 => frames::wupd(if r.pct(50) { 0 } else { s }, u32s(r)),
            15 => {
                // padded data
                let k = r.range(0, 60);
                let mut p = vec![r.below(256) as u8];
                p.extend(r.body(k));
                frames::frame(frames::DATA, 8 | eos as u8, s, &p)
            }
            16 => {
                let k = r.range(0, 40);
                let p = r.body(k);
                frames::frame(frames::HEADERS, r.below(256) as u8, s, &p)
            }
            17 => {
                let k = r.range(0, 40);
                let p = r.body(k);
                frames::frame(frames::CONT, r.below(8) as u8, s, &p)
            }
            18 => {
                let k = r.range(0, 20);
                let p = r.body(k);
                frames::frame(frames::PUSH, r.below(16) as u8, s, &p)
            }
            19 => {
                let (k, kind, fl) = (r.range(0, 20), r.below(20) as u8, r.below(256) as u8);
                let p = r.body(k);
                frames::frame(kind, fl, s, &p)
            }
            20 => frames::headers(s, true, &[("x-t", b"v")]),
            _ => {
                // priority, depending on itself or others
                let mut p = u32s(r).to_be_bytes().to_vec();
                p.push(1);
                frames::frame(2, 0, s, &p)
            }
        };
        v.extend_from_slice(&f);
    }
    v
}
fn h2(ctx: &Ctx, mut r: Rng, server: bool) -> CaseOut {
    let mut out = CaseOut::default();
    let r = &mut r;
    let mut cfg = H2Cfg::gen(r);
    cfg.max_streams = *r.pick(&[None, None, Some(1), Some(10)]);
    cfg.max_list = *r.pick(&[None, None, Some(10), Some(1000), Some(1 << 20)]);
    cfg.ka = *r.pick(&[None, None, Some((std::time::Duration::from_millis(10), std::time::Duration::from_millis(10)))]);
    let mut wire = vec![];
    if server {
        wire.extend_from_slice(frames::PREFACE);
    }
    wire.extend_from_slice(&frames::settings(&[]));
    let start = wire.len();
    wire.extend_from_slice(&frame_soup(r, server));
    match r.below(10) {
        0 => wire = garbage(r),
        1..=3 => {
            let mut t = wire.split_off(start);
            mutate(r, &mut t);
            wire.extend_from_slice(&t);
        }
        4 => mutate(r, &mut wire),
        _ => {}
    }
    let tail = *r.pick(&[Tail::Eof, Tail::Silent, Tail::Silent, Tail::Drop]);
    out.desc = Some(format!("HTTP/2 {}, {} bytes, {tail:?}, {cfg:?}: {}", if server { "server" } else { "client" }, wire.len(), frames::parse(&wire, server).iter().take(40).map(|f| f.show()).collect::<Vec<_>>().join(", ")));
    for cut in [Cut::Whole, Cut::Random] {
        let sim = Sim::new(r.next());
        if ctx.trace {
            sim.enable_log();
        }
        let (mut ioa, iob) = io_for(r, &cut);
        if ioa.cap < 70_000 {
            ioa.cap = 70_000;
        }
        let (a, b, _w) = pipe(&sim, ioa, iob);
        let mut ex = Exec::new(&sim);
        ex.until = Some(1_000_000_000);
        let peer;
        let mut keep = None;
        let end;
        let mut st = None;
        let xs: Vec<ExRef> = (0..4).map(|_| ExRef::default()).collect();
        let rx: RecvRef = Default::default();
        let go = Count::default();
        if server {
            let plans: Vec<Plan> = (0..30)
                .map(|i| {
                    let k = *r.pick(&[0usize, 2, 3000]);
                    let mut p = Plan::simple(RespSpec::ok(&r.body(k)));
                    p.read = match r.below(8) {
                        0 => ReadPlan::Never,
                        1 => ReadPlan::Partial(1),
                        2 => ReadPlan::Concurrent,
                        3 => ReadPlan::AfterRespond,
                        4 => ReadPlan::Hold,
                        _ => ReadPlan::All,
                    };
                    p.delay = *r.pick(&[0, 0, 5]);
                    p.fail = r.pct(5);
                    p.resp.status = *r.pick(&[200u16, 200, 204, 101, 500]);
                    let _ = i;
                    p
                })
                .collect();
            let svc = Svc::new(&ex, plans);
            st = Some(svc.st.clone());
            end = serve_h2(&mut ex, &cfg, a, svc, Gate::default());
            go.set(1);
        } else {
            let (s, e) = connect_h2(&mut ex, &cfg, a);
            end = e;
            keep = Some(s.clone());
            let (sim2, xs, sp) = (sim.clone(), xs.clone(), ex.spawner());
            let reads: Vec<CRead> = (0..4).map(|_| *r.pick(&[CRead::All, CRead::All, CRead::Never, CRead::Partial(1), CRead::Keep])).collect();
            ex.spawn("caller", async move {
                let Some(tx) = s.get().await else { return };
                for (i, x) in xs.iter().enumerate() {
                    let (mut tx, sim3, x, read) = (tx.clone(), sim2.clone(), x.clone(), reads[i]);
                    sp.spawn("exchange", async move {
                        let mut q = ReqSpec::get(&if i == 3 { "a:1".to_string() } else { abs("/") });
                        q.method = ["GET", "POST", "HEAD", "CONNECT"][i].into();
                        if i == 1 {
                            q.script.steps = vec![Step::Data(vec![1; 3000]), Step::Pend(3), Step::Data(vec![2; 70_000])];
                        }
                        exchange2(&sim3, &mut tx, &q, &x, read, 0, false).await;
                    });
                }
            });
        }
        peer = Peer::new(b);
        {
            let (p, rx, go) = (peer.clone(), rx.clone(), go.clone());
            ex.spawn("peer-read", async move { read_all(p, rx, 1 << 16, |rv| if rv.data.len() > 200 { go.set(1) }).await });
        }
        {
            let (s, p, w, c) = (sim.clone(), peer.clone(), wire.clone(), cut.clone());
            let early = r.pct(20);
            ex.spawn("peer-write", async move {
                if !server && !early {
                    // let the requests go out first
                    let _ = p.send(&frames::settings(&[])).await;
                    for _ in 0..100 {
                        if go.get() > 0 {
                            break;
                        }
                        s.yields(1).await;
                    }
                }
                deliver(s, p, w, c, tail).await
            });
        }
        settle(&mut ex, wire.len() + 80_000, &mut out);
        out.count("runs", 1);
        let e = end.lock().unwrap();
        out.nontrivial |= e.done || !rx.lock().unwrap().data.is_empty();
        out.count("refused", (e.done && !e.ok) as u64);
        if let Some(st) = st {
            out.count("requests", st.lock().unwrap().seen.len() as u64);
        }
        out.count("responses", xs.iter().filter(|x| x.lock().unwrap().status.is_some()).count() as u64);
        drop(e);
        drop(keep);
        if ctx.trace {
            out.trace.push(format!("=== {cut:?}"));
            out.trace.extend(sim.take_log());
        }
    }
    out.sig = mix(fnv(&wire), tail as u64);
    out
}
