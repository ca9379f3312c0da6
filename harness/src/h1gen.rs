//! Generators of well-formed HTTP/1 requests and responses together with the
//! message they denote.
use crate::refh1::*;
use crate::rng::Rng;

pub type Hs = Vec<(String, Vec<u8>)>;

pub const METHODS: &[&str] = &["GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "HEAD", "TRACE", "REPORT", "M-SEARCH", "x!y"];

pub fn token(r: &mut Rng, lo: usize, hi: usize) -> String {
    let cs = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~";
    let n = r.range(lo, hi);
    (0..n).map(|_| *r.pick(cs) as char).collect()
}
/// field value without leading/trailing whitespace
pub fn value(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        2..=8 => r.range(1, 30),
        9 | 10 => r.range(1, 200),
        _ => r.range(200, 1500),
    };
    let mut v: Vec<u8> = (0..n)
        .map(|_| match r.below(12) {
            0 => b' ',
            1 => b'\t',
            2 => r.range(0x80, 0xff) as u8,
            3 => *r.pick(b",;=\"():/%"),
            _ => r.range(0x21, 0x7e) as u8,
        })
        .collect();
    let ws = |b: &u8| *b == b' ' || *b == b'\t';
    if let Some(f) = v.first_mut() {
        if ws(f) {
            *f = b'v'
        }
    }
    if let Some(l) = v.last_mut() {
        if ws(l) {
            *l = b'w'
        }
    }
    v
}
const KNOWN: &[&str] = &[
    "accept", "Accept-Language", "cookie", "Set-Cookie", "x-forwarded-for", "USER-AGENT", "referer", "x-a", "X-B", "x-request-id",
    "cache-control", "if-none-match", "authorization", "content-type", "Vary", "etag", "range", "via", "warning", "x-content-length", "x-transfer-encoding",
];
const RESERVED: &[&str] = &[
    "connection", "content-length", "transfer-encoding", "upgrade", "expect", "te", "trailer", "date", "keep-alive", "proxy-connection", "host", "content-encoding", "http2-settings",
];
pub fn header_name(r: &mut Rng) -> String {
    loop {
        let n = if r.pct(70) {
            let mut s = r.pick(KNOWN).to_string();
            if r.pct(30) {
                s = s.chars().map(|c| if r.pct(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            }
            s
        } else {
            format!("x{}", token(r, 1, 20))
        };
        if !RESERVED.contains(&n.to_ascii_lowercase().as_str()) {
            return n;
        }
    }
}
pub fn headers(r: &mut Rng, max: usize) -> Hs {
    let n = match r.below(6) {
        0 => 0,
        1..=3 => r.range(0, 5),
        4 => r.range(0, 12),
        _ => r.range(0, max),
    }
    .min(max);
    let mut h: Hs = Vec::with_capacity(n);
    for _ in 0..n {
        let name = if !h.is_empty() && r.pct(25) { r.pick(&h).0.clone() } else { header_name(r) };
        h.push((name, value(r)));
    }
    h
}
pub fn path(r: &mut Rng) -> String {
    let segs = r.range(1, 4);
    let mut s = String::new();
    let cs = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=:@";
    for _ in 0..segs {
        s.push('/');
        let n = if r.pct(3) { r.range(100, 3000) } else { r.range(0, 12) };
        for _ in 0..n {
            if r.pct(4) {
                s.push_str(&format!("%{:02X}", r.below(256)));
            } else {
                s.push(*r.pick(cs) as char);
            }
        }
    }
    if r.pct(30) {
        s.push('?');
        let n = r.range(0, 20);
        for _ in 0..n {
            s.push(*r.pick(b"abcXYZ0189-._~!$&'()*+,;=:@/?%") as char);
        }
        // keep percent signs well-formed
        s = s.replace('%', "%25");
    }
    if s.starts_with("//") {
        s = format!("/p{}", &s[1..]);
    }
    s
}
pub fn target(r: &mut Rng, method: &str) -> String {
    match r.below(12) {
        0 => format!("http://host{}.example:{}{}", r.below(100), r.range(1, 65535), path(r)),
        1 if method == "OPTIONS" => "*".into(),
        2 => format!("http://h{}.example", r.below(10)),
        _ => path(r),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum BodyKind {
    None,
    Length,
    Chunked,
    Close,
}
#[derive(Clone, Debug)]
pub struct GenMsg {
    pub method: String,
    pub target: String,
    pub minor: u8,
    pub status: u16,
    pub reason: String,
    /// fields expected at the application, lower-case names, in order per name
    pub expect_headers: Hs,
    pub kind: BodyKind,
    pub body: Vec<u8>,
    pub trailers: Hs,
    pub wire: Vec<u8>,
    pub head_len: usize,
    pub uses_close: bool,
    pub chunk_count: usize,
}
fn ows(r: &mut Rng) -> &'static str {
    *r.pick(&[" ", " ", " ", "", "\t", "  ", " \t "])
}
pub fn put_field(r: &mut Rng, w: &mut Vec<u8>, name: &str, v: &[u8]) {
    w.extend_from_slice(name.as_bytes());
    w.push(b':');
    w.extend_from_slice(ows(r).as_bytes());
    w.extend_from_slice(v);
    if r.pct(10) {
        w.extend_from_slice(r.pick(&[" ", "\t", "  "]).as_bytes());
    }
    w.extend_from_slice(b"\r\n");
}
fn rcase(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        2 => s.chars().map(|c| if r.pct(50) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s.to_string(),
    }
}
pub fn chunk_ext(r: &mut Rng) -> String {
    let n = r.range(1, 2);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(4) {
            0 => s.push_str(&format!(";{}", token(r, 1, 8))),
            1 => s.push_str(&format!(";{}={}", token(r, 1, 8), token(r, 1, 20))),
            2 => s.push_str(&format!(";{}=\"a b;c, {}\"", token(r, 1, 5), r.below(1000))),
            _ => s.push_str(&format!(" ; {} = {}", token(r, 1, 5), token(r, 1, 5))),
        }
    }
    s
}
pub fn size_line(r: &mut Rng, n: usize) -> String {
    let mut s = match r.below(4) {
        0 => format!("{:X}", n),
        1 => format!("{}{:x}", "0".repeat(r.range(0, 6)), n),
        _ => format!("{:x}", n),
    };
    if r.pct(12) {
        s.push_str(&chunk_ext(r));
    } else if r.pct(5) {
        s.push_str(*r.pick(&[" ", "\t", "  "]));
    }
    s
}
/// chunked encoding of `body`; returns number of chunks
pub fn put_chunked(r: &mut Rng, w: &mut Vec<u8>, body: &[u8], trailers: &Hs) -> usize {
    let style = r.below(5);
    let mut off = 0;
    let mut n = 0;
    while off < body.len() {
        let left = body.len() - off;
        let k = match style {
            0 => left,
            1 => r.range(1, 20),
            2 => r.range(1, 3000),
            3 => *r.pick(&[1usize, 9, 10, 15, 16, 17, 255, 256, 257, 4096, 8192, 65536]),
            _ => r.range(1, left),
        }
        .min(left);
        let k = if n > 300 { left } else { k };
        w.extend_from_slice(size_line(r, k).as_bytes());
        w.extend_from_slice(b"\r\n");
        w.extend_from_slice(&body[off..off + k]);
        w.extend_from_slice(b"\r\n");
        off += k;
        n += 1;
    }
    let z = match r.below(5) {
        0 => "00".to_string(),
        1 => "0000".to_string(),
        2 => format!("0{}", chunk_ext(r)),
        _ => "0".to_string(),
    };
    w.extend_from_slice(z.as_bytes());
    w.extend_from_slice(b"\r\n");
    for (k, v) in trailers {
        put_field(r, w, k, v);
    }
    w.extend_from_slice(b"\r\n");
    n
}
pub fn trailer_fields(r: &mut Rng) -> Hs {
    if r.pct(60) {
        return vec![];
    }
    let n = r.range(1, 4);
    let mut h: Hs = vec![];
    for _ in 0..n {
        let name = if !h.is_empty() && r.pct(20) { h[0].0.clone() } else { format!("x-t{}", r.below(6)) };
        h.push((name, value(r)));
    }
    h
}
/// Options of one request generation.
#[derive(Clone)]
pub struct ReqOpt {
    pub max_body: usize,
    pub close: bool,
    pub leading_crlf: bool,
    pub allow_10: bool,
    pub max_headers: usize,
}
pub fn gen_request(r: &mut Rng, o: &ReqOpt) -> GenMsg {
    let method = r.pick(METHODS).to_string();
    let target = target(r, &method);
    let minor = if o.allow_10 && r.pct(15) { 0 } else { 1 };
    let mut kind = match r.below(10) {
        0..=3 => BodyKind::None,
        4..=6 => BodyKind::Length,
        _ => BodyKind::Chunked,
    };
    if minor == 0 && kind == BodyKind::Chunked {
        kind = BodyKind::Length;
    }
    let hn = if r.pct(2) { o.max_headers.saturating_sub(6) } else { 30.min(o.max_headers.saturating_sub(6)) };
    let mut hs = headers(r, hn);
    if r.pct(90) {
        let at = r.below(hs.len() + 1);
        hs.insert(at, ("Host".into(), b"example.com".to_vec()));
    }
    let body = match kind {
        BodyKind::None => vec![],
        _ => {
            let n = r.size(o.max_body);
            r.body(n)
        }
    };
    let mut trailers = vec![];
    let mut drop_from_expect: Vec<usize> = vec![];
    match kind {
        BodyKind::Length => {
            let v = match r.below(6) {
                0 => format!("{}{}", "0".repeat(r.range(1, 5)), body.len()),
                _ => body.len().to_string(),
            };
            let at = r.below(hs.len() + 1);
            hs.insert(at, (rcase(r, "content-length"), v.clone().into_bytes()));
            if r.pct(4) {
                // an identical repeat is one field
                hs.insert(at + 1, (rcase(r, "content-length"), v.into_bytes()));
                drop_from_expect.push(at + 1);
            }
        }
        BodyKind::Chunked => {
            trailers = trailer_fields(r);
            let at = r.below(hs.len() + 1);
            match r.below(8) {
                0 => {
                    hs.insert(at, (rcase(r, "transfer-encoding"), b"gzip".to_vec()));
                    hs.insert(at + 1, (rcase(r, "transfer-encoding"), b"chunked".to_vec()));
                }
                1 => hs.insert(at, (rcase(r, "transfer-encoding"), b"gzip, chunked".to_vec())),
                2 => hs.insert(at, (rcase(r, "transfer-encoding"), b"Chunked".to_vec())),
                _ => hs.insert(at, (rcase(r, "transfer-encoding"), b"chunked".to_vec())),
            }
        }
        _ => {
            if r.pct(10) {
                hs.push(("Content-Length".into(), b"0".to_vec()));
            }
        }
    }
    if o.close {
        if minor == 1 || r.pct(50) {
            hs.push((rcase(r, "connection"), r.pick(&[&b"close"[..], b"Close", b"x-a, close", b"close , foo"]).to_vec()));
        }
    } else if minor == 0 {
        hs.push((rcase(r, "connection"), r.pick(&[&b"keep-alive"[..], b"Keep-Alive"]).to_vec()));
    } else if r.pct(10) {
        hs.push((rcase(r, "connection"), b"keep-alive".to_vec()));
    }
    let mut w = vec![];
    if o.leading_crlf && r.pct(8) {
        w.extend_from_slice(b"\r\n");
    }
    w.extend_from_slice(format!("{} {} HTTP/1.{}\r\n", method, target, minor).as_bytes());
    for (k, v) in &hs {
        put_field(r, &mut w, k, v);
    }
    w.extend_from_slice(b"\r\n");
    let head_len = w.len();
    let mut chunk_count = 0;
    match kind {
        BodyKind::Length => w.extend_from_slice(&body),
        BodyKind::Chunked => chunk_count = put_chunked(r, &mut w, &body, &trailers),
        _ => {}
    }
    let expect_headers = hs
        .iter()
        .enumerate()
        .filter(|(i, _)| !drop_from_expect.contains(i))
        .map(|(_, (k, v))| (k.to_ascii_lowercase(), v.clone()))
        .collect();
    GenMsg {
        method,
        target,
        minor,
        status: 0,
        reason: String::new(),
        expect_headers,
        kind,
        body,
        trailers,
        wire: w,
        head_len,
        uses_close: o.close,
        chunk_count,
    }
}

pub struct RespOpt {
    pub method: String,
    pub max_body: usize,
    /// the message may end with the connection
    pub last: bool,
    pub max_headers: usize,
}
const STATUSES: &[u16] = &[200, 200, 200, 201, 202, 203, 204, 205, 206, 226, 300, 301, 302, 304, 307, 400, 401, 404, 409, 418, 426, 429, 431, 500, 502, 503, 511, 299, 399, 499, 599, 600, 750, 999];
pub fn reason(r: &mut Rng) -> String {
    match r.below(5) {
        0 => String::new(),
        1 => "OK".into(),
        2 => "Some Odd  Reason (x)".into(),
        _ => {
            let n = r.range(0, 12);
            (0..n).map(|_| r.range(0x21, 0x7e) as u8 as char).collect()
        }
    }
}
pub fn gen_response(r: &mut Rng, o: &RespOpt) -> GenMsg {
    let minor = if o.last && r.pct(20) { 0 } else { 1 };
    let mut status = *r.pick(STATUSES);
    if o.method == "CONNECT" && (200..300).contains(&status) {
        status = 407;
    }
    let nobody = o.method == "HEAD" || status == 204 || status == 304;
    let mut hs = headers(r, 30.min(o.max_headers.saturating_sub(6)));
    if r.pct(50) {
        hs.push(("Date".into(), b"Sun, 06 Nov 1994 08:49:37 GMT".to_vec()));
    }
    let mut kind = match r.below(10) {
        0..=4 => BodyKind::Length,
        5..=7 => BodyKind::Chunked,
        _ => BodyKind::Close,
    };
    if (kind == BodyKind::Close && !o.last) || (kind == BodyKind::Chunked && minor == 0) {
        kind = BodyKind::Length;
    }
    let n = r.size(o.max_body);
    let body = r.body(n);
    let mut trailers = vec![];
    // framing fields (for bodiless answers they are only announcements)
    if !(nobody && r.pct(40)) && status != 204 || (status == 204 && r.pct(20)) {
        match kind {
            BodyKind::Length => {
                let at = r.below(hs.len() + 1);
                hs.insert(at, (rcase(r, "content-length"), body.len().to_string().into_bytes()));
            }
            BodyKind::Chunked => {
                let at = r.below(hs.len() + 1);
                match r.below(6) {
                    0 => hs.insert(at, (rcase(r, "transfer-encoding"), b"gzip, chunked".to_vec())),
                    _ => hs.insert(at, (rcase(r, "transfer-encoding"), b"chunked".to_vec())),
                }
                if !nobody {
                    trailers = trailer_fields(r);
                }
            }
            _ => {}
        }
    }
    if o.last {
        if r.pct(50) {
            hs.push((rcase(r, "connection"), b"close".to_vec()));
        }
    } else if minor == 0 || r.pct(10) {
        hs.push((rcase(r, "connection"), b"keep-alive".to_vec()));
    }
    let reason = reason(r);
    let mut w = vec![];
    w.extend_from_slice(format!("HTTP/1.{} {} {}\r\n", minor, status, reason).as_bytes());
    for (k, v) in &hs {
        put_field(r, &mut w, k, v);
    }
    w.extend_from_slice(b"\r\n");
    let head_len = w.len();
    let mut chunk_count = 0;
    let (kind, body) = if nobody {
        (BodyKind::None, vec![])
    } else {
        match kind {
            BodyKind::Length | BodyKind::Close => w.extend_from_slice(&body),
            BodyKind::Chunked => chunk_count = put_chunked(r, &mut w, &body, &trailers),
            _ => {}
        }
        (kind, body)
    };
    GenMsg {
        method: o.method.clone(),
        target: String::new(),
        minor,
        status,
        reason,
        expect_headers: lower(&hs),
        kind,
        body,
        trailers,
        wire: w,
        head_len,
        uses_close: o.last,
        chunk_count,
    }
}
pub fn gen_interim(r: &mut Rng) -> (u16, Hs, Vec<u8>) {
    let st = *r.pick(&[100u16, 102, 103, 103, 110, 199]);
    let hs = headers(r, 5);
    let mut w = format!("HTTP/1.1 {} {}\r\n", st, reason(r)).into_bytes();
    for (k, v) in &hs {
        put_field(r, &mut w, k, v);
    }
    w.extend_from_slice(b"\r\n");
    (st, lower(&hs), w)
}
/// compares two field lists: same names, same value sequence per name
pub fn same_fields(want: &[(String, Vec<u8>)], got: &[(String, Vec<u8>)]) -> Result<(), String> {
    let a = group(want);
    let b = group(got);
    for (k, v) in &a {
        match b.get(k) {
            None => return Err(format!("field {k} missing")),
            Some(w) if w != v => {
                return Err(format!("field {k}: expected {:?}, got {:?}", v.iter().map(|x| crate::util::show(x)).collect::<Vec<_>>(), w.iter().map(|x| crate::util::show(x)).collect::<Vec<_>>()))
            }
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            return Err(format!("unexpected field {k}: {:?}", b[k].iter().map(|x| crate::util::show(x)).collect::<Vec<_>>()));
        }
    }
    Ok(())
}
