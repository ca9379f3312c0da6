//! C02: malformed or ambiguous requests are refused, never reinterpreted.
use crate::h1gen::*;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::sim::*;
use crate::srv::*;
use crate::util::*;

pub const CHECK: Check = Check {
    id: "C02",
    level: "exploration",
    rule: "a case is 0-3 valid requests followed by one malformed, ambiguous or over-limit request and a valid-looking request behind it, under random segmentation; distinct = distinct (wire bytes, schedule) in which the refusal was judged",
    quick: 60_000,
    thorough: 2_000_000,
    run: case,
    assumptions: &["bare LF line ends and whitespace around sizes are leniently accepted and not counted as malformed", "default (strict) parser options"],
};

#[derive(Clone, Debug)]
enum Bad {
    /// refused at the head with this status
    Head(u16, &'static str),
    /// head is fine, reading the body must fail after at most these data bytes
    Body(Vec<u8>, &'static str),
    /// ambiguous but with a defined reading: served, then the connection ends
    Served(Vec<u8>, &'static str),
}

const CTL: &[u8] = b"\x00\x01\x02\x07\x08\x0b\x0c\x0e\x1b\x1f";

fn base(r: &mut Rng, method: &str, minor: u8) -> Vec<(String, Vec<u8>)> {
    let _ = (method, minor);
    let mut h = headers(r, 8);
    h.insert(0, ("Host".into(), b"x".to_vec()));
    h
}
fn head(start: &[u8], hs: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut w = start.to_vec();
    w.extend_from_slice(b"\r\n");
    for (k, v) in hs {
        w.extend_from_slice(k.as_bytes());
        w.extend_from_slice(b": ");
        w.extend_from_slice(v);
        w.extend_from_slice(b"\r\n");
    }
    w.extend_from_slice(b"\r\n");
    w
}
fn bad_request(r: &mut Rng, cfg: &mut SrvCfg) -> (Vec<u8>, Bad) {
    let mh = cfg.max_headers.unwrap_or(100);
    let kind = r.below(34);
    let ok = b"POST /bad HTTP/1.1".to_vec();
    let mut hs = base(r, "POST", 1);
    let put = |r: &mut Rng, hs: &mut Hs, k: &str, v: &[u8]| {
        let at = r.below(hs.len() + 1);
        hs.insert(at, (k.to_string(), v.to_vec()));
    };
    match kind {
        0 => {
            // bad method
            let mut m = token(r, 1, 8).into_bytes();
            let at = r.below(m.len() + 1);
            m.insert(at, *r.pick(b"\x00\x01()[]{}<>@,;:\\\"/=?\x7f\x80\xff"));
            m.extend_from_slice(b" /bad HTTP/1.1");
            (head(&m, &hs), Bad::Head(400, "method"))
        }
        1 => (head(r.pick(&[&b" GET /bad HTTP/1.1"[..], b"GET  /bad HTTP/1.1x", b"GET /bad HTTP/1.1 ", b"GET /bad", b"GET /bad HTTP/1.1 x", b"GET /a b HTTP/1.1", b"GET\t/bad HTTP/1.1", b"/bad HTTP/1.1"]), &hs), Bad::Head(400, "request line")),
        2 => {
            let mut t = b"GET /bad".to_vec();
            t.push(*r.pick(CTL));
            t.extend_from_slice(b"x HTTP/1.1");
            (head(&t, &hs), Bad::Head(400, "target"))
        }
        3 => {
            let v = r.pick(&["HTTP/1.2", "HTTP/2.0", "HTTP/0.9", "HTTP/1.", "HTTP/11", "http/1.1", "HTTP/3.1", "HTTP /1.1", "HTTPS/1.1", "HTTP/1,1", "HTTP/1.1\u{b}", "HTTP/1.10", "HTTP/01.1"]);
            (head(format!("POST /bad {v}").as_bytes(), &hs), Bad::Head(400, "version"))
        }
        4 | 5 => {
            // bad byte in a field name
            let mut n = token(r, 1, 10).into_bytes();
            let at = r.below(n.len() + 1);
            let c = *r.pick(b" \t\x00\x01()<>@,;\\\"/[]?={}\x7f\x80\xff");
            n.insert(at, c);
            let i = r.below(hs.len() + 1);
            let mut w = b"POST /bad HTTP/1.1\r\n".to_vec();
            for (j, (k, v)) in hs.iter().enumerate() {
                if j == i {
                    w.extend_from_slice(&n);
                    w.extend_from_slice(b": v\r\n");
                }
                w.extend_from_slice(k.as_bytes());
                w.extend_from_slice(b": ");
                w.extend_from_slice(v);
                w.extend_from_slice(b"\r\n");
            }
            if i == hs.len() {
                w.extend_from_slice(&n);
                w.extend_from_slice(b": v\r\n");
            }
            w.extend_from_slice(b"\r\n");
            (w, Bad::Head(400, "field name"))
        }
        6 => {
            let i = r.below(hs.len());
            let at = r.below(hs[i].1.len() + 1);
            hs[i].1.insert(at, *r.pick(CTL));
            hs[i].1.push(b'z');
            (head(&ok, &hs), Bad::Head(400, "field value"))
        }
        7 => {
            let i = r.below(hs.len());
            hs[i].1.extend_from_slice(*r.pick(&[&b"a\rb"[..], b"\r\r\nx: y", b"\x7fz"]));
            (head(&ok, &hs), Bad::Head(400, "field value"))
        }
        8 => {
            let i = r.below(hs.len());
            hs[i].1.extend_from_slice(*r.pick(&[&b"\r\n folded"[..], b"\r\n\tfolded"]));
            (head(&ok, &hs), Bad::Head(400, "folded field"))
        }
        9 => {
            let mut w = head(&ok, &hs);
            let l = w.len();
            let nl = r.pick(&["nocolon\r\n\r\n", ": noname\r\n\r\n", "Content-Length 5\r\n\r\n", "chunked\r\n\r\n"]);
            w.truncate(l - 2);
            w.extend_from_slice(nl.as_bytes());
            (w, Bad::Head(400, "field line"))
        }
        10 | 11 => {
            let v: &[u8] = r.pick(&[&b"abc"[..], b"+5", b"-1", b"5,5", b"5, 6", b"", b"5 6", b"0x10", b"1e1", b"5;", b"\"5\"", b"5.0", b"99999999999999999999999", b"18446744073709551616", b"3\xb2", b"-0"]);
            put(r, &mut hs, "Content-Length", v);
            let mut w = head(&ok, &hs);
            w.extend_from_slice(b"hello");
            (w, Bad::Head(if v == b"18446744073709551616" || v.len() > 20 { 400 } else { 400 }, "content-length value"))
        }
        12 => {
            let (a, b) = *r.pick(&[(5usize, 6usize), (0, 5), (5, 0), (5, 50)]);
            put(r, &mut hs, "Content-Length", a.to_string().as_bytes());
            put(r, &mut hs, "content-length", b.to_string().as_bytes());
            let mut w = head(&ok, &hs);
            w.extend_from_slice(b"hello");
            (w, Bad::Head(400, "differing content-length"))
        }
        13 => {
            put(r, &mut hs, "Content-Length", b"5");
            let v = *r.pick(&[&b"five"[..], b"5x", b"", b"+5"]);
            put(r, &mut hs, "content-length", v);
            let mut w = head(&ok, &hs);
            w.extend_from_slice(b"hello");
            (w, Bad::Head(400, "second content-length invalid"))
        }
        14 => {
            let v = *r.pick(&[&b"chunked"[..], b"gzip, chunked", b"gzip", b"identity"]);
            put(r, &mut hs, "Transfer-Encoding", v);
            let mut w = head(b"POST /bad HTTP/1.0", &hs);
            w.extend_from_slice(b"5\r\nhello\r\n0\r\n\r\n");
            (w, Bad::Head(400, "transfer-encoding in HTTP/1.0"))
        }
        15 | 16 => {
            let v: &[u8] = r.pick(&[&b"chunked, gzip"[..], b"identity", b"gzip", b"chunkedx", b"xchunked", b"chunked;q=1", b"chunk", b"\"chunked\"", b"chunked gzip", b"chunke d", b"chunked,identity", b"chunked, ,x"]);
            put(r, &mut hs, "Transfer-Encoding", v);
            if r.pct(40) {
                put(r, &mut hs, "content-length", b"5");
            }
            let mut w = head(&ok, &hs);
            w.extend_from_slice(b"5\r\nhello\r\n0\r\n\r\n");
            (w, Bad::Head(400, "transfer-encoding does not end in chunked"))
        }
        17 => {
            // last of several lines decides
            hs.push(("Transfer-Encoding".into(), b"chunked".to_vec()));
            if r.pct(50) {
                put(r, &mut hs, "content-length", b"5");
            }
            hs.push(("Transfer-Encoding".into(), r.pick(&[&b"gzip"[..], b"identity", b"xchunked"]).to_vec()));
            let mut w = head(&ok, &hs);
            w.extend_from_slice(b"5\r\nhello\r\n0\r\n\r\n");
            (w, Bad::Head(400, "last transfer-encoding is not chunked"))
        }
        18 => {
            let n = mh + 1 + if r.pct(50) { 0 } else { r.range(0, 30) };
            hs = (0..n).map(|i| (format!("h{}", i % 50), b"v".to_vec())).collect();
            if cfg.max_buf.is_some_and(|m| m < 16384) {
                cfg.max_buf = None;
            }
            (head(&ok, &hs), Bad::Head(431, "too many fields"))
        }
        19 => {
            cfg.max_buf = *r.pick(&[None, Some(200_000)]);
            let n = 65_534 + r.range(1, 400);
            let mut s = b"GET /".to_vec();
            s.extend(std::iter::repeat(b'u').take(n));
            s.extend_from_slice(b" HTTP/1.1");
            (head(&s, &hs), Bad::Head(414, "target too long"))
        }
        20 => {
            let lim = *r.pick(&[8192usize, 10_000, 16_384]);
            cfg.max_buf = Some(lim);
            // the limit is on the buffer: what one read brings in on top is tolerated
            let big = 2 * lim + 16_384 + r.range(1, 20_000);
            if r.pct(50) {
                put(r, &mut hs, "x-big", &vec![b'a'; big]);
            } else {
                hs.push(("x-many".into(), vec![b'a'; 400]));
                while hs.iter().map(|h| h.0.len() + h.1.len() + 4).sum::<usize>() < big && hs.len() < mh {
                    hs.push(("x-many".into(), vec![b'b'; 600]));
                }
                let left = big.saturating_sub(hs.iter().map(|h| h.0.len() + h.1.len() + 4).sum::<usize>());
                hs.last_mut().unwrap().1.extend(std::iter::repeat(b'c').take(left));
            }
            (head(&ok, &hs), Bad::Head(431, "head over the buffer limit"))
        }
        21 | 22 => {
            // both length and chunked: chunked wins, connection ends
            let b = { let n = r.size(300); r.body(n) };
            let cl = r.pick(&[0usize, 3, 5, 10_000]).to_string();
            put(r, &mut hs, "Content-Length", cl.as_bytes());
            put(r, &mut hs, "Transfer-Encoding", b"chunked");
            let mut w = head(&ok, &hs);
            put_chunked(r, &mut w, &b, &vec![]);
            (w, Bad::Served(b, "both content-length and chunked"))
        }
        // ---- bad bodies
        k => {
            put(r, &mut hs, "Transfer-Encoding", b"chunked");
            let mut w = head(&ok, &hs);
            let mut data = vec![];
            for _ in 0..r.range(0, 3) {
                let b = { let n = r.size(40); r.body(n) };
                if b.is_empty() {
                    continue;
                }
                w.extend_from_slice(format!("{:x}\r\n", b.len()).as_bytes());
                w.extend_from_slice(&b);
                w.extend_from_slice(b"\r\n");
                data.extend_from_slice(&b);
            }
            let what;
            match k {
                23 | 24 => {
                    what = "chunk size";
                    if r.pct(70) {
                        w.extend(bad_size_line(r));
                        return (w, Bad::Body(data, what));
                    }
                    let s = *r.pick(&["g\r\n", "\r\n", "-5\r\nhello\r\n", "+5\r\nhello\r\n", "0x5\r\nhello\r\n", "5 5\r\nhello\r\n", " 5\r\nhello\r\n", ";ext\r\n", "5\u{0}\r\nhello\r\n", "5,\r\nhello\r\n", "5.\r\nhello\r\n", "\t5\r\nhello\r\n"]);
                    w.extend_from_slice(s.as_bytes());
                }
                25 => {
                    what = "chunk size overflow";
                    let s = *r.pick(&["10000000000000005\r\nhello\r\n", "fffffffffffffffff\r\nhello\r\n", "10000000000000000\r\n\r\n", "1000000000000000000005\r\nhello\r\n"]);
                    if r.pct(50) {
                        // 2^64 times something, plus a little: the low bits are a plausible size
                        let (hi, lo) = (if r.pct(50) { r.range(1, 0xf) } else { r.range(1, 0xfff) }, *r.pick(&[0usize, 1, 5, 0xa, 0xb, 0xf]));
                        let zeros = *r.pick(&["", "0", "000000"]);
                        let line = format!("{zeros}{hi:x}{lo:016x}\r\n");
                        w.extend(if r.pct(50) { line.to_uppercase() } else { line }.into_bytes());
                        w.extend(std::iter::repeat(b'd').take(lo));
                        w.extend_from_slice(b"\r\n");
                        return (w, Bad::Body(data, what));
                    }
                    w.extend_from_slice(s.as_bytes());
                }
                26 | 27 => {
                    // the chunk's data is delivered before the missing CRLF shows
                    what = "no CRLF after chunk data";
                    w.extend_from_slice(b"5\r\nhello");
                    data.extend_from_slice(b"hello");
                    w.extend_from_slice(*r.pick(&[&b"x\r\n0\r\n\r\n"[..], b"0\r\n\r\n", b"\n0\r\n\r\n", b"\rx0\r\n\r\n", b"\r\r\n0\r\n\r\n", b" \r\n0\r\n\r\n"]));
                }
                28 => {
                    what = "size line end";
                    let s = *r.pick(&["5\nhello\r\n0\r\n\r\n", "5\r\rhello\r\n0\r\n\r\n", "5\rhello\r\n0\r\n\r\n", "5;a\nb\r\nhello\r\n0\r\n\r\n", "5;a\r\rhello\r\n0\r\n\r\n", "0\n\r\n", "0;a\n\r\n"]);
                    w.extend_from_slice(s.as_bytes());
                }
                29 => {
                    what = "chunk extensions over limit";
                    let per = r.range(1, 6);
                    for _ in 0..per {
                        w.extend_from_slice(b"3;");
                        w.extend(std::iter::repeat(b'e').take(16_400 / per + 10));
                        w.extend_from_slice(b"\r\nabc\r\n");
                        data.extend_from_slice(b"abc");
                    }
                    w.extend_from_slice(b"0\r\n\r\n");
                }
                30 => {
                    what = "trailer field";
                    w.extend_from_slice(b"0\r\n");
                    w.extend_from_slice(*r.pick(&[&b"no colon\r\n\r\n"[..], b"bad name: v\r\n\r\n", b"x: a\x00b\r\n\r\n", b": v\r\n\r\n", b"x\x01: v\r\n\r\n", b"x: v\r\n\xff: v\r\n\r\n"]));
                }
                31 => {
                    what = "too many trailer fields";
                    w.extend_from_slice(b"0\r\n");
                    for _ in 0..mh + 1 + r.range(0, 5) {
                        w.extend_from_slice(b"t: v\r\n");
                    }
                    w.extend_from_slice(b"\r\n");
                }
                32 => {
                    what = "trailers over the byte limit";
                    w.extend_from_slice(b"0\r\n");
                    if r.pct(50) {
                        w.extend_from_slice(b"t: ");
                        w.extend(std::iter::repeat(b't').take(16_400 + r.range(0, 3000)));
                        w.extend_from_slice(b"\r\n");
                    } else {
                        for _ in 0..20 {
                            w.extend_from_slice(b"t: ");
                            w.extend(std::iter::repeat(b't').take(900));
                            w.extend_from_slice(b"\r\n");
                        }
                    }
                    w.extend_from_slice(b"\r\n");
                }
                _ => {
                    what = "end of body line";
                    w.extend_from_slice(*r.pick(&[&b"0\r\n\rx"[..], b"0\r\n\n", b"0\r\n\r\r\n", b"0\r\nt: v\r\n\rx", b"0\r\n\nx: y\r\n\r\n", b"0\r\nt: v\n\nu: v\r\n\r\n"]));
                }
            }
            (w, Bad::Body(data, what))
        }
    }
}

fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = SrvCfg::gen(&mut r);
    let (bad, how) = bad_request(&mut r, &mut cfg);
    let npre = *r.pick(&[0usize, 0, 1, 2, 3]);
    let mut reqs = vec![];
    let mut methods: Vec<String> = vec![];
    let mut plans = vec![];
    let mut pre = vec![];
    for _ in 0..npre {
        let mut m = gen_request(&mut r, &ReqOpt { max_body: 600, close: false, leading_crlf: false, allow_10: false, max_headers: cfg.max_headers.unwrap_or(100) });
        while m.head_len > 6000 {
            m = gen_request(&mut r, &ReqOpt { max_body: 600, close: false, leading_crlf: false, allow_10: false, max_headers: 60 });
        }
        methods.push(m.method.clone());
        reqs.push(m.wire.clone());
        pre.push(m);
        let k = r.size(400);
        let mut p = Plan::simple(RespSpec::ok(&r.body(k)));
        p.delay = *r.pick(&[0, 0, 1, 4]);
        if r.pct(40) {
            p.read = if r.pct(50) { ReadPlan::Concurrent } else { ReadPlan::AfterRespond };
            let k = r.size(3000);
            p.resp.script = crate::body::Script::gen(&mut r, k);
        }
        plans.push(p);
    }
    let early_answer = r.pct(35);
    let mut p = Plan::simple(RespSpec::ok(b"answer"));
    if early_answer {
        p.read = match r.below(5) {
            0 => ReadPlan::Never,
            1 => ReadPlan::Partial(1),
            2 => ReadPlan::AfterRespond,
            3 => ReadPlan::Concurrent,
            _ => ReadPlan::Hold,
        };
    }
    p.delay = *r.pick(&[0, 0, 1, 4]);
    let p_read = format!("{:?}", p.read);
    plans.push(p);
    methods.push("POST".into());
    reqs.push(bad.clone());
    // what a confused server would take for the next request
    reqs.push(b"GET /smuggled HTTP/1.1\r\nhost: x\r\n\r\n".to_vec());
    let mut run = Run::new(&mut r, cfg, reqs.clone(), methods, plans, 2000);
    if run.send == Send::Lockstep {
        run.send = Send::Pieces;
    }
    if run.eof == Eof::AfterResponses {
        run.eof = Eof::Never;
    }
    let desc = format!("{} valid then {:?} read={} {:?} {:?}: {}", npre, how_short(&how), p_read, run.cfg, run.send, show(&bad[..bad.len().min(300)]));
    let ran = run.go(&sim);
    if ran.judge_end(&mut out) {
        let what = how_short(&how);
        let st = ran.st.lock().unwrap();
        let (resp, err) = ran.responses();
        if let Some(e) = err {
            // nothing but the expected messages may come out
            out.viol(format!("{what}: unparsable output: {e}"));
        }
        for (i, m) in pre.iter().enumerate() {
            match st.seen.get(i) {
                Some(s) if s.method == m.method => {}
                x => out.viol(format!("{what}: valid request {i} in front was not served ({:?})", x.map(|s| (&s.method, &s.uri)))),
            }
            match resp.get(i) {
                Some(m) if m.complete && m.status() == 200 => {}
                x => out.viol(format!("{what}: valid request {i} in front was not answered: {:?}", x.map(|m| (m.status(), m.complete)))),
            }
        }
        if !ran.end.done && p_read != "Hold" {
            out.viol(format!("{what}: the connection did not end"));
        }
        if st.seen.iter().any(|s| s.uri.contains("smuggled")) {
            out.viol(format!("{what}: later bytes were served as a request"));
        }
        let last = resp.get(npre).map(|m| (m.status(), m.complete));
        match &how {
            Bad::Head(status, _) => {
                if st.seen.len() > npre {
                    out.viol(format!("{what}: the malformed request reached the service as {} {}", st.seen[npre].method, st.seen[npre].uri));
                }
                if last != Some((*status, true)) {
                    out.viol(format!("{what}: expected one complete {status}, got {last:?} (connection {})", ran.end.err));
                }
                if resp.len() > npre + 1 {
                    out.viol(format!("{what}: {} responses", resp.len()));
                }
                if ran.end.ok {
                    out.viol(format!("{what}: the connection reported success"));
                }
            }
            Bad::Body(data, _) | Bad::Served(data, _) => {
                let served = matches!(how, Bad::Served(..));
                match st.seen.get(npre) {
                    None => out.viol(format!("{what}: the request with a valid head was not handed over")),
                    Some(s) => {
                        let g = s.got.lock().unwrap();
                        if served {
                            if p_read == "All" && !(g.clean() && g.data == *data) {
                                out.viol(format!("{what}: body read as {} bytes, done {} err {:?} instead of {}", g.data.len(), g.done, g.err, data.len()));
                            }
                        } else {
                            if g.done && g.err.is_none() {
                                out.viol(format!("{what}: the body ended cleanly after {} bytes", g.data.len()));
                            }
                            if !data.starts_with(&g.data) {
                                out.viol(format!("{what}: body bytes differ: {}", diff(data, &g.data)));
                            }
                            if (p_read == "All" || p_read == "Concurrent") && g.err.is_none() {
                                out.viol(format!("{what}: the body reader never got an error"));
                            }
                        }
                    }
                }
                if st.seen.len() > npre + 1 {
                    out.viol(format!("{what}: a later request was served: {}", st.seen[npre + 1].uri));
                }
                if resp.len() > npre + 1 {
                    out.viol(format!("{what}: {} responses", resp.len()));
                }
            }
        }
        out.count("refused_heads", matches!(how, Bad::Head(..)) as u64);
        out.count("refused_bodies", matches!(how, Bad::Body(..)) as u64);
        out.count("served_then_closed", matches!(how, Bad::Served(..)) as u64);
        out.nontrivial = true;
    }
    out.sig = mix(sim.st(|s| s.hash), fnv(&bad));
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}
fn how_short(h: &Bad) -> String {
    match h {
        Bad::Head(s, w) => format!("bad head ({w}, {s})"),
        Bad::Body(_, w) => format!("bad body ({w})"),
        Bad::Served(_, w) => format!("ambiguous ({w})"),
    }
}

/// Whether `b` begins with a whole chunk-size line (which `bad_size_line` must not produce).
fn size_line(b: &[u8]) -> bool {
    let mut i = b.iter().take_while(|c| c.is_ascii_hexdigit()).count();
    if i == 0 {
        return false;
    }
    i += b[i..].iter().take_while(|c| matches!(c, b' ' | b'\t')).count();
    if b.get(i) == Some(&b';') {
        i += b[i..].iter().take_while(|c| !matches!(c, b'\r' | b'\n')).count();
    }
    b[i..].starts_with(b"\r\n")
}
/// A size line with one byte too many, too few or wrong, followed by what could pass for its chunk.
fn bad_size_line(r: &mut Rng) -> Vec<u8> {
    loop {
        let n = *r.pick(&[0usize, 0, 3, 10, 30]);
        let mut v = if r.pct(50) { format!("{n:x}") } else { format!("{n:04X}") }.into_bytes();
        for _ in 0..r.below(3) {
            v.push(*r.pick(b" \t"));
        }
        if r.pct(40) {
            v.extend_from_slice(*r.pick(&[&b";"[..], b";a", b";a=b", b"; a=\"b c\"", b";;"]));
        }
        v.extend_from_slice(b"\r\n");
        let at = r.below(v.len());
        let c = *r.pick(b"\n\n\r\0 ;gxG:/`@,.-+_\x0b\x0c\x7f\xff0");
        match r.below(3) {
            0 => v.insert(at, c),
            1 => v[at] = c,
            _ => {
                v.remove(at);
            }
        }
        if n > 0 {
            v.extend(std::iter::repeat(b'd').take(n));
            v.extend_from_slice(b"\r\n0\r\n");
        }
        v.extend_from_slice(b"\r\n");
        if !size_line(&v) {
            return v;
        }
    }
}
