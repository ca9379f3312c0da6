//! Exchanges small enough for an interpreter: a few messages of some hundred bytes, plain or
//! garbled, in random pieces, over either role and version.
use crate::duel::{DIo, Fut};
use crate::rng::{mix, Rng};
use bytes::Bytes;
use http_body_util::{BodyExt, Full, StreamBody};
use hyper::body::{Frame, Incoming};
use hyper::{Request, Response};
use std::sync::{Arc, Mutex};

type Out = http_body_util::combinators::BoxBody<Bytes, std::convert::Infallible>;
fn body(r: &mut Rng) -> Out {
    if r.pct(50) {
        let n = r.size(60);
        return Full::new(Bytes::from(vec![b'x'; n])).boxed();
    }
    let mut v: Vec<Result<Frame<Bytes>, std::convert::Infallible>> = (0..r.range(0, 3)).map(|i| Ok(Frame::data(Bytes::from(vec![b'a' + i as u8; i * 7 + 1])))).collect();
    if r.pct(40) {
        let mut t = http::HeaderMap::new();
        t.insert("x-t", "1".parse().unwrap());
        v.push(Ok(Frame::trailers(t)));
    }
    BodyExt::boxed(StreamBody::new(futures_util::stream::iter(v)))
}
/// fields in all sorts of cases
fn fields(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(0, 6) {
        let n = ["X-One", "x-two", "ETag", "accept", "Set-Cookie", "set-cookie", "X_odd"][r.range(0, 6)];
        let v = ["", "a", "b, c", "\u{e9}", "long-long-long-long-value"][r.range(0, 4)];
        s += &format!("{n}:{}{v}\r\n", if r.pct(50) { " " } else { "" });
    }
    s
}
fn framed(r: &mut Rng) -> (String, Vec<u8>) {
    match r.below(4) {
        0 => ("content-length: 0\r\n".into(), vec![]),
        1 => {
            let n = r.size(70);
            (format!("Content-Length: {n}\r\n"), vec![b'q'; n])
        }
        2 => (
            "transfer-encoding: chunked\r\n".into(),
            (0..r.range(0, 3)).flat_map(|i| format!("{:X};e=1\r\n{}\r\n", i + 1, "z".repeat(i + 1)).into_bytes()).chain(b"0\r\n".iter().copied()).chain(if r.pct(40) { b"X-T: 1\r\n\r\n".to_vec() } else { b"\r\n".to_vec() }).collect(),
        ),
        _ => (String::new(), vec![]),
    }
}
fn garble(r: &mut Rng, v: &mut [u8]) {
    if r.pct(25) && !v.is_empty() {
        for _ in 0..r.range(1, 3) {
            let i = r.range(0, v.len() - 1);
            v[i] = *r.pick(&[0u8, b'\r', b'\n', b' ', b':', 0x7f, 0xff, b'0']);
        }
    }
}
fn pieces(r: &mut Rng, io: &DIo, v: &[u8], mut poke: impl FnMut()) {
    let small = r.pct(30);
    let mut i = 0;
    while i < v.len() {
        let n = if small { r.range(1, 4) } else { r.range(1, v.len()) }.min(v.len() - i);
        io.feed(&v[i..i + n]);
        i += n;
        poke();
    }
}
async fn echo(rq: Request<Incoming>, r: Arc<Mutex<Rng>>) -> Result<Response<Out>, std::convert::Infallible> {
    let mut r = r.lock().unwrap().fork();
    let (head, b) = rq.into_parts();
    let rs = Response::builder().status(if r.pct(20) { 204 } else { 200 }).header("X-Method", head.method.as_str());
    let read = r.pct(80);
    let got = if read { b.collect().await.map(|c| c.to_bytes()).unwrap_or_default() } else { Bytes::new() };
    let mut rs = rs.body(if r.pct(50) { Full::new(got).boxed() } else { body(&mut r) }).unwrap();
    if r.pct(50) {
        if let Some(m) = head.extensions.get::<hyper::ext::ReasonPhrase>() {
            rs.extensions_mut().insert(m.clone());
        } else {
            rs.extensions_mut().insert(hyper::ext::ReasonPhrase::try_from(&b"Fine \xe9"[..]).unwrap());
        }
    }
    Ok(rs)
}

/// Returns (digest, what it was)
pub fn run(r: &mut Rng) -> (u64, String) {
    match r.below(4) {
        0 | 1 => server(r),
        2 => client(r),
        _ => h2(r),
    }
}
fn server(r: &mut Rng) -> (u64, String) {
    let io = DIo::default();
    let mut b = hyper::server::conn::http1::Builder::new();
    b.preserve_header_case(r.pct(50)).title_case_headers(r.pct(30)).half_close(r.pct(30)).pipeline_flush(r.pct(30));
    if r.pct(20) {
        b.max_headers(r.range(1, 8));
    }
    if r.pct(30) {
        b.writev(r.pct(50));
    }
    let rr = Arc::new(Mutex::new(r.fork()));
    let conn = b.serve_connection(io.clone(), hyper::service::service_fn(move |rq| echo(rq, rr.clone())));
    let mut c = Fut::new(async move { conn.await.is_ok() });
    let mut all = vec![];
    for _ in 0..r.range(1, 3) {
        let (f, b) = framed(r);
        let m = *r.pick(&["GET", "POST", "HEAD", "PUT"]);
        all.extend(format!("{m} /p?q HTTP/1.{}\r\nHost: h\r\n{}{f}\r\n", r.below(2), fields(r)).into_bytes());
        all.extend(b);
    }
    garble(r, &mut all);
    pieces(r, &io, &all, || {
        c.poke();
    });
    if r.pct(60) {
        io.eof();
    }
    c.poke();
    (mix(crate::util::fnv(&io.written()), c.out.map(|x| x as u64).unwrap_or(2)), format!("server {} bytes in, {} out", all.len(), io.written().len()))
}
fn client(r: &mut Rng) -> (u64, String) {
    let io = DIo::default();
    let mut b = hyper::client::conn::http1::Builder::new();
    b.preserve_header_case(r.pct(50)).title_case_headers(r.pct(30)).http09_responses(r.pct(20)).allow_obsolete_multiline_headers_in_responses(r.pct(30)).ignore_invalid_headers_in_responses(r.pct(30));
    if r.pct(20) {
        b.max_headers(r.range(1, 8));
    }
    if r.pct(30) {
        b.writev(r.pct(50));
    }
    let mut f = Fut::new(b.handshake::<_, Out>(io.clone()));
    f.poke();
    let Some(Ok((mut tx, conn))) = f.take() else { return (0, "no handshake".into()) };
    let mut c = Fut::new(async move { conn.await.is_ok() });
    let mut sig = 0;
    let mut n = 0;
    for _ in 0..r.range(1, 2) {
        let mut rq = Request::new(body(r));
        *rq.uri_mut() = "/x".parse().unwrap();
        if r.pct(50) {
            *rq.method_mut() = hyper::Method::POST;
        }
        rq.headers_mut().insert("Host", "h".parse().unwrap());
        rq.headers_mut().append("set-cookie", "1".parse().unwrap());
        rq.headers_mut().append("set-cookie", "2".parse().unwrap());
        if r.pct(30) {
            hyper::ext::on_informational(&mut rq, |i| {
                let _ = format!("{:?}", i.headers());
            });
        }
        let fut = tx.send_request(rq);
        let mut q = Fut::new(async move {
            let rs = fut.await.ok()?;
            let (h, b) = rs.into_parts();
            let reason = h.extensions.get::<hyper::ext::ReasonPhrase>().map(|x| x.as_bytes().to_vec());
            let mut n = 0u64;
            for v in h.headers.values() {
                n = mix(n, crate::util::fnv(v.as_bytes()));
            }
            let d = b.collect().await.ok().map(|c| c.to_bytes());
            Some((h.status, reason, d, n))
        });
        q.poke();
        c.poke();
        let (f, b) = framed(r);
        let mut m = vec![];
        if r.pct(30) {
            m.extend(b"HTTP/1.1 103 Hints\r\nLink: a\r\n\r\n");
        }
        m.extend(format!("HTTP/1.1 200 {}\r\n{}{f}\r\n", *r.pick(&["OK", "", "Rather Good"]), fields(r)).into_bytes());
        m.extend(b);
        garble(r, &mut m);
        n += m.len();
        pieces(r, &io, &m, || {
            c.poke();
            q.poke();
            c.poke();
        });
        if r.pct(30) {
            io.eof();
        }
        c.poke();
        q.poke();
        sig = mix(sig, crate::util::fnv(format!("{:?}", q.out).as_bytes()));
    }
    drop(tx);
    c.poke();
    (sig, format!("client {} bytes out, {n} in", io.written().len()))
}
fn h2(r: &mut Rng) -> (u64, String) {
    let (a, b) = (DIo::default(), DIo::default());
    let (ka, kb) = (crate::duel::Keep::default(), crate::duel::Keep::default());
    let mut f = Fut::new(hyper::client::conn::http2::Builder::new(ka.clone()).handshake::<_, Out>(a.clone()));
    f.poke();
    let Some(Ok((mut tx, conn))) = f.take() else { return (0, "no handshake".into()) };
    let mut c = Fut::new(async move { conn.await.is_ok() });
    let rr = Arc::new(Mutex::new(r.fork()));
    let conn = hyper::server::conn::http2::Builder::new(kb.clone()).serve_connection(b.clone(), hyper::service::service_fn(move |rq| echo(rq, rr.clone())));
    let mut s = Fut::new(async move { conn.await.is_ok() });
    let mut qs = vec![];
    for _ in 0..r.range(1, 2) {
        let mut rq = Request::new(body(r));
        *rq.uri_mut() = "http://h/x".parse().unwrap();
        rq.headers_mut().append("set-cookie", "1".parse().unwrap());
        let fut = tx.send_request(rq);
        qs.push(Fut::new(async move {
            let rs = fut.await.ok()?;
            let (h, b) = rs.into_parts();
            Some((h.status, b.collect().await.ok().map(|c| c.to_bytes())))
        }));
    }
    let garbled = r.pct(20);
    let (mut idle, mut la, mut lb) = (0, 0, 0);
    let mut tasks = vec![];
    while idle < 3 {
        c.poke();
        s.poke();
        qs.iter_mut().for_each(|q| {
            q.poke();
        });
        for k in [&ka, &kb] {
            for t in k.take() {
                tasks.push(Fut::new(t));
            }
        }
        tasks.iter_mut().for_each(|t| {
            t.poke();
        });
        let (na, nb) = (a.written()[la..].to_vec(), b.written()[lb..].to_vec());
        (la, lb) = (la + na.len(), lb + nb.len());
        idle = if na.is_empty() && nb.is_empty() { idle + 1 } else { 0 };
        for (mut v, to) in [(na, &b), (nb, &a)] {
            if garbled && r.pct(20) {
                garble(r, &mut v);
            }
            pieces(r, to, &v, || ());
        }
        if a.written().len() > 20_000 {
            break;
        }
    }
    let sig = crate::util::fnv(format!("{:?}", qs.iter().map(|q| &q.out).collect::<Vec<_>>()).as_bytes());
    (mix(sig, garbled as u64), format!("h2, {} requests, {} answered, garbled {garbled}, {} and {} bytes", qs.len(), qs.iter().filter(|q| matches!(q.out, Some(Some(_)))).count(), a.written().len(), b.written().len()))
}
