//! Raw HTTP/2 endpoint working on frames: it can break every rule and sees every frame.
use crate::frames::{self, Fr};
use crate::peer::*;
use crate::sim::*;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

#[derive(Default)]
pub struct RawSt {
    /// complete frames received, with the virtual time they were complete
    pub frames: Vec<(Fr, u64)>,
    buf: Vec<u8>,
    off: u64,
    preface: bool,
    pub eof: bool,
    pub err: Option<String>,
    pub eof_ns: u64,
    /// answers given automatically
    pub ack_settings: bool,
    pub ack_pings: bool,
    /// give every DATA byte back at once
    pub credit: bool,
}
impl RawSt {
    pub fn of(&self, sid: u32) -> Vec<&Fr> {
        self.frames.iter().map(|f| &f.0).filter(|f| f.sid == sid).collect()
    }
    pub fn has(&self, sid: u32, kind: u8) -> bool {
        self.frames.iter().any(|(f, _)| f.sid == sid && f.kind == kind)
    }
    pub fn data(&self, sid: u32) -> Vec<u8> {
        let mut v = vec![];
        for (f, _) in &self.frames {
            if f.sid == sid && f.kind == frames::DATA {
                v.extend_from_slice(&f.payload)
            }
        }
        v
    }
    pub fn eos(&self, sid: u32) -> bool {
        self.frames.iter().any(|(f, _)| f.sid == sid && f.eos())
    }
    pub fn rst(&self, sid: u32) -> Option<u32> {
        self.frames.iter().find(|(f, _)| f.sid == sid && f.kind == frames::RST).map(|(f, _)| f.u32_at(0))
    }
    pub fn goaways(&self) -> Vec<(u32, u32, u64)> {
        self.frames.iter().filter(|(f, _)| f.kind == frames::GOAWAY && f.payload.len() >= 8).map(|(f, t)| (f.u32_at(0), f.u32_at(4), *t)).collect()
    }
    /// status of the (first) header block of a stream sent with a static-table status and an empty dynamic table
    pub fn status(&self, sid: u32) -> Option<u16> {
        let f = self.frames.iter().map(|f| &f.0).find(|f| f.sid == sid && f.kind == frames::HEADERS)?;
        let mut p = &f.payload[..];
        while let Some(b) = p.first() {
            if b & 0xe0 == 0x20 {
                p = &p[1..]
            } else {
                break;
            }
        }
        match p.first()? {
            0x88 => Some(200),
            0x89 => Some(204),
            0x8a => Some(206),
            0x8b => Some(304),
            0x8c => Some(400),
            0x8d => Some(404),
            0x8e => Some(500),
            _ => Some(0),
        }
    }
}
struct Out {
    data: Vec<u8>,
    waker: Option<Waker>,
    stop: bool,
}
#[derive(Clone)]
pub struct Raw {
    pub peer: Peer,
    pub st: Arc<Mutex<RawSt>>,
    out: Arc<Mutex<Out>>,
    pub seen: Count,
}
impl Raw {
    /// `client`: this raw end plays the client (and `put`s the preface itself).
    pub fn spawn(ex: &mut Exec, io: SimIo, client: bool) -> Raw {
        let raw = Raw {
            peer: Peer::new(io),
            st: Arc::new(Mutex::new(RawSt { ack_settings: true, ack_pings: true, preface: client, ..Default::default() })),
            out: Arc::new(Mutex::new(Out { data: vec![], waker: None, stop: false })),
            seen: Count::default(),
        };
        let (r, sim) = (raw.clone(), ex.sim.clone());
        ex.spawn("raw-r", async move {
            loop {
                match r.peer.recv(20_000).await {
                    Ok(v) if v.is_empty() => {
                        let mut s = r.st.lock().unwrap();
                        s.eof = true;
                        s.eof_ns = sim.now_ns();
                        drop(s);
                        sim.log(|| "raw peer reads the end of the stream".into());
                        r.seen.add(1);
                        return;
                    }
                    Ok(v) => r.feed(&sim, &v),
                    Err(e) => {
                        let mut s = r.st.lock().unwrap();
                        s.err = Some(e.to_string());
                        s.eof_ns = sim.now_ns();
                        drop(s);
                        r.seen.add(1);
                        return;
                    }
                }
            }
        });
        let r = raw.clone();
        ex.spawn("raw-w", async move {
            loop {
                let (d, stop) = std::future::poll_fn(|cx| {
                    let mut o = r.out.lock().unwrap();
                    if o.data.is_empty() && !o.stop {
                        o.waker = Some(cx.waker().clone());
                        return Poll::Pending;
                    }
                    Poll::Ready((std::mem::take(&mut o.data), o.stop))
                })
                .await;
                if !d.is_empty() && r.peer.send(&d).await.is_err() {
                    return;
                }
                if stop && r.out.lock().unwrap().data.is_empty() {
                    let _ = r.peer.close_write().await;
                    return;
                }
            }
        });
        raw
    }
    fn feed(&self, sim: &Sim, v: &[u8]) {
        let mut s = self.st.lock().unwrap();
        s.buf.extend_from_slice(v);
        if !s.preface {
            if s.buf.len() < frames::PREFACE.len() {
                return;
            }
            s.buf.drain(..frames::PREFACE.len());
            s.off += frames::PREFACE.len() as u64;
            s.preface = true;
        }
        let fr = frames::parse(&s.buf, false);
        let Some(last) = fr.last().map(|f| f.end) else { return };
        s.buf.drain(..last as usize);
        let now = sim.now_ns();
        let mut n = 0;
        let mut reply = vec![];
        for mut f in fr {
            f.end += s.off;
            sim.log(|| format!("raw peer reads {}", f.show()));
            if f.kind == frames::SETTINGS && !f.ack() && s.ack_settings {
                reply.extend(frames::settings_ack());
            }
            if f.kind == frames::PING && !f.ack() && s.ack_pings {
                let mut d = [0u8; 8];
                d.copy_from_slice(&f.payload);
                reply.extend(frames::ping(true, d));
            }
            if f.kind == frames::DATA && s.credit && !f.payload.is_empty() {
                reply.extend(frames::wupd(0, f.payload.len() as u32));
                if !f.eos() {
                    reply.extend(frames::wupd(f.sid, f.payload.len() as u32));
                }
            }
            s.frames.push((f, now));
            n += 1;
        }
        s.off += last;
        drop(s);
        if !reply.is_empty() {
            self.put(&reply);
        }
        self.seen.add(n);
    }
    pub fn put(&self, b: &[u8]) {
        let mut o = self.out.lock().unwrap();
        o.data.extend_from_slice(b);
        if let Some(w) = o.waker.take() {
            w.wake()
        }
    }
    /// Closes the sending direction once everything was written.
    pub fn close(&self) {
        let mut o = self.out.lock().unwrap();
        o.stop = true;
        if let Some(w) = o.waker.take() {
            w.wake()
        }
    }
    /// Waits until the condition holds or the stream has ended; true if it holds.
    pub async fn wait(&self, f: impl Fn(&RawSt) -> bool) -> bool {
        loop {
            let n = self.seen.get();
            {
                let s = self.st.lock().unwrap();
                if f(&s) {
                    return true;
                }
                if s.eof || s.err.is_some() {
                    return false;
                }
            }
            self.seen.at_least(n + 1).await;
        }
    }
}
/// Header block of a plain request.
pub fn request(sid: u32, eos: bool, method: &str, path: &str, extra: &[(&str, &[u8])]) -> Vec<u8> {
    let mut h: Vec<(&str, &[u8])> = vec![(":method", method.as_bytes()), (":scheme", b"http"), (":authority", b"example.com"), (":path", path.as_bytes())];
    h.extend_from_slice(extra);
    frames::headers(sid, eos, &h)
}
pub fn response(sid: u32, eos: bool, status: &str, extra: &[(&str, &[u8])]) -> Vec<u8> {
    let mut h: Vec<(&str, &[u8])> = vec![(":status", status.as_bytes())];
    h.extend_from_slice(extra);
    frames::headers(sid, eos, &h)
}
