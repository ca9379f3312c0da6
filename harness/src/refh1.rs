//! Independent strict HTTP/1 message parser used as the oracle for bytes hyper writes.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Framing {
    None,
    Length(u64),
    Chunked,
    Close,
}
#[derive(Clone, Debug)]
pub struct Msg {
    /// request: method / target / version; response: version / code / reason
    pub start: [String; 3],
    pub minor: u8,
    pub headers: Vec<(String, Vec<u8>)>,
    pub framing: Framing,
    pub body: Vec<u8>,
    pub chunks: Vec<usize>,
    pub trailers: Vec<(String, Vec<u8>)>,
    pub complete: bool,
    pub end: usize,
    pub head_end: usize,
}
impl Msg {
    pub fn status(&self) -> u16 {
        self.start[1].parse().unwrap_or(0)
    }
    pub fn get_all(&self, n: &str) -> Vec<&[u8]> {
        self.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| &v[..]).collect()
    }
    pub fn has(&self, n: &str) -> bool {
        !self.get_all(n).is_empty()
    }
    pub fn conn_tokens(&self) -> Vec<String> {
        tokens(&self.get_all("connection"))
    }
}
pub fn tokens(vs: &[&[u8]]) -> Vec<String> {
    let mut out = vec![];
    for v in vs {
        for t in String::from_utf8_lossy(v).split(',') {
            let t = t.trim().to_ascii_lowercase();
            if !t.is_empty() {
                out.push(t);
            }
        }
    }
    out
}
pub fn is_tchar(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}
pub fn lower(h: &[(String, Vec<u8>)]) -> Vec<(String, Vec<u8>)> {
    h.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect()
}
/// groups by lower-case name, keeping value order within a name
pub fn group(h: &[(String, Vec<u8>)]) -> std::collections::BTreeMap<String, Vec<Vec<u8>>> {
    let mut m: std::collections::BTreeMap<String, Vec<Vec<u8>>> = Default::default();
    for (k, v) in h {
        m.entry(k.to_ascii_lowercase()).or_default().push(v.clone());
    }
    m
}
pub enum P<T> {
    Ok(T),
    Incomplete,
    Err(String),
}
fn line(b: &[u8], pos: usize) -> P<(&[u8], usize)> {
    let mut i = pos;
    while i < b.len() {
        if b[i] == b'\n' {
            return P::Err(format!("bare LF at {i}"));
        }
        if b[i] == b'\r' {
            if i + 1 >= b.len() {
                return P::Incomplete;
            }
            if b[i + 1] != b'\n' {
                return P::Err(format!("bare CR at {i}"));
            }
            return P::Ok((&b[pos..i], i + 2));
        }
        i += 1;
    }
    P::Incomplete
}
type Fields = Vec<(String, Vec<u8>)>;
fn fields(b: &[u8], mut pos: usize) -> P<(Fields, usize)> {
    let mut out = vec![];
    loop {
        let (l, np) = match line(b, pos) {
            P::Ok(x) => x,
            P::Incomplete => return P::Incomplete,
            P::Err(e) => return P::Err(e),
        };
        pos = np;
        if l.is_empty() {
            return P::Ok((out, pos));
        }
        let c = match l.iter().position(|&c| c == b':') {
            Some(c) => c,
            None => return P::Err(format!("field line without colon: {:?}", String::from_utf8_lossy(l))),
        };
        let name = &l[..c];
        if name.is_empty() || !name.iter().all(|&x| is_tchar(x)) {
            return P::Err(format!("bad field name {:?}", String::from_utf8_lossy(name)));
        }
        let mut v = &l[c + 1..];
        while let [b' ' | b'\t', rest @ ..] = v {
            v = rest;
        }
        while let [rest @ .., b' ' | b'\t'] = v {
            v = rest;
        }
        if v.iter().any(|&x| (x < 0x20 && x != b'\t') || x == 0x7f) {
            return P::Err(format!("control byte in value of {:?}", String::from_utf8_lossy(name)));
        }
        out.push((String::from_utf8_lossy(name).into_owned(), v.to_vec()));
    }
}
fn chunked(b: &[u8], mut pos: usize, m: &mut Msg) -> P<usize> {
    loop {
        let (l, np) = match line(b, pos) {
            P::Ok(x) => x,
            P::Incomplete => return P::Incomplete,
            P::Err(e) => return P::Err(format!("chunk size line: {e}")),
        };
        let digits: &[u8] = l.split(|&c| c == b';').next().unwrap();
        if digits.is_empty() || digits.len() > 16 || !digits.iter().all(|c| c.is_ascii_hexdigit()) {
            return P::Err(format!("bad chunk size {:?}", String::from_utf8_lossy(l)));
        }
        let n = u64::from_str_radix(std::str::from_utf8(digits).unwrap(), 16).unwrap() as usize;
        pos = np;
        if n == 0 {
            return match fields(b, pos) {
                P::Ok((f, e)) => {
                    m.trailers = f;
                    P::Ok(e)
                }
                P::Incomplete => P::Incomplete,
                P::Err(e) => P::Err(format!("trailer section: {e}")),
            };
        }
        m.chunks.push(n);
        let have = (b.len() - pos).min(n);
        m.body.extend_from_slice(&b[pos..pos + have]);
        if have < n {
            return P::Incomplete;
        }
        pos += n;
        if b.len() < pos + 2 {
            if b.len() > pos && b[pos] != b'\r' {
                return P::Err("no CRLF after chunk data".into());
            }
            return P::Incomplete;
        }
        if &b[pos..pos + 2] != b"\r\n" {
            return P::Err("no CRLF after chunk data".into());
        }
        pos += 2;
    }
}
fn framing_of(m: &Msg) -> Result<Option<Framing>, String> {
    let cl = m.get_all("content-length");
    let te = m.get_all("transfer-encoding");
    if cl.len() > 1 {
        return Err(format!("{} content-length fields", cl.len()));
    }
    if !te.is_empty() && !cl.is_empty() {
        return Err("both content-length and transfer-encoding".into());
    }
    if !te.is_empty() {
        if m.minor == 0 {
            return Err("transfer-encoding in HTTP/1.0 message".into());
        }
        let t = tokens(&te);
        if t.iter().filter(|x| *x == "chunked").count() != 1 || t.last().map(|x| x.as_str()) != Some("chunked") {
            return Err(format!("transfer-encoding {t:?} does not end in a single chunked"));
        }
        return Ok(Some(Framing::Chunked));
    }
    if let Some(c) = cl.first() {
        let s = String::from_utf8_lossy(c);
        if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) {
            return Err(format!("bad content-length {s:?}"));
        }
        return match s.parse::<u64>() {
            Ok(n) => Ok(Some(Framing::Length(n))),
            Err(_) => Err("content-length overflow".into()),
        };
    }
    Ok(None)
}
fn head(b: &[u8], pos: usize, req: bool) -> P<Msg> {
    let (l, np) = match line(b, pos) {
        P::Ok(x) => x,
        P::Incomplete => return P::Incomplete,
        P::Err(e) => return P::Err(format!("start line: {e}")),
    };
    let s = String::from_utf8_lossy(l).into_owned();
    let mut it = s.splitn(3, ' ');
    let start = [it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string()];
    let ver = if req { &start[2] } else { &start[0] };
    let minor = match ver.as_str() {
        "HTTP/1.1" => 1,
        "HTTP/1.0" => 0,
        _ => return P::Err(format!("bad version in start line {s:?}")),
    };
    if req {
        if start[0].is_empty() || !start[0].bytes().all(is_tchar) || start[1].is_empty() || start[1].bytes().any(|c| c <= 0x20 || c == 0x7f) {
            return P::Err(format!("bad request line {s:?}"));
        }
    } else {
        if start[1].len() != 3 || !start[1].bytes().all(|c| c.is_ascii_digit()) {
            return P::Err(format!("bad status line {s:?}"));
        }
        if s.matches(' ').count() < 2 {
            return P::Err(format!("status line lacks the space before the reason: {s:?}"));
        }
    }
    let (h, e) = match fields(b, np) {
        P::Ok(x) => x,
        P::Incomplete => return P::Incomplete,
        P::Err(e) => return P::Err(e),
    };
    P::Ok(Msg { start, minor, headers: h, framing: Framing::None, body: vec![], chunks: vec![], trailers: vec![], complete: false, end: e, head_end: e })
}
fn body(b: &[u8], mut m: Msg, eof: bool) -> P<Msg> {
    let pos = m.head_end;
    match m.framing {
        Framing::None => m.complete = true,
        Framing::Length(n) => {
            let have = ((b.len() - pos) as u64).min(n) as usize;
            m.body = b[pos..pos + have].to_vec();
            m.end = pos + have;
            m.complete = have as u64 == n;
        }
        Framing::Chunked => match chunked(b, pos, &mut m) {
            P::Ok(e) => {
                m.end = e;
                m.complete = true;
            }
            P::Incomplete => m.end = b.len(),
            P::Err(e) => return P::Err(e),
        },
        Framing::Close => {
            m.body = b[pos..].to_vec();
            m.end = b.len();
            m.complete = eof;
        }
    }
    P::Ok(m)
}
/// Parses one response at `pos` for a request with `method`.
pub fn response(b: &[u8], pos: usize, method: &str, eof: bool) -> P<Msg> {
    let mut m = match head(b, pos, false) {
        P::Ok(m) => m,
        P::Incomplete => return P::Incomplete,
        P::Err(e) => return P::Err(e),
    };
    let f = match framing_of(&m) {
        Ok(f) => f,
        Err(e) => return P::Err(e),
    };
    let st = m.status();
    if (100..200).contains(&st) || st == 204 {
        if f.is_some() {
            return P::Err(format!("{st} response carries framing fields"));
        }
        m.framing = Framing::None;
    } else if method == "CONNECT" && (200..300).contains(&st) {
        if f.is_some() {
            return P::Err("2xx to CONNECT carries framing fields".into());
        }
        m.framing = Framing::None;
    } else if method == "HEAD" || st == 304 {
        m.framing = Framing::None;
    } else {
        m.framing = f.unwrap_or(Framing::Close);
    }
    body(b, m, eof)
}
/// Parses one request at `pos`.
pub fn request(b: &[u8], pos: usize) -> P<Msg> {
    let mut m = match head(b, pos, true) {
        P::Ok(m) => m,
        P::Incomplete => return P::Incomplete,
        P::Err(e) => return P::Err(e),
    };
    match framing_of(&m) {
        Ok(f) => m.framing = f.unwrap_or(Framing::None),
        Err(e) => return P::Err(e),
    }
    body(b, m, false)
}
/// Splits a whole server output into messages: returns (messages incl. interim, error, trailing offset)
pub fn responses(b: &[u8], methods: &[String], eof: bool) -> (Vec<Msg>, Option<String>) {
    let mut out = vec![];
    let mut pos = 0;
    let mut i = 0;
    while pos < b.len() {
        if i >= methods.len() {
            return (out, Some(format!("{} bytes after the last expected response: {:?}", b.len() - pos, crate::util::show(&b[pos..]))));
        }
        match response(b, pos, &methods[i], eof) {
            P::Ok(m) => {
                pos = m.end;
                let interim = m.status() < 200 && m.status() != 101;
                let complete = m.complete;
                out.push(m);
                if !complete {
                    return (out, None);
                }
                if !interim {
                    i += 1;
                }
            }
            P::Incomplete => return (out, Some(format!("incomplete head: {:?}", crate::util::show(&b[pos..])))),
            P::Err(e) => return (out, Some(format!("{e}; at {:?}", crate::util::show(&b[pos..])))),
        }
    }
    (out, None)
}
