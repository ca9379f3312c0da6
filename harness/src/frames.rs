//! HTTP/2 frames: a writer for raw peers and an independent reader for what was on the wire.
use crate::sim::OpEv;
use std::collections::BTreeMap;

pub const PREFACE: &[u8] = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";
pub const DATA: u8 = 0;
pub const HEADERS: u8 = 1;
pub const RST: u8 = 3;
pub const SETTINGS: u8 = 4;
pub const PUSH: u8 = 5;
pub const PING: u8 = 6;
pub const GOAWAY: u8 = 7;
pub const WUPD: u8 = 8;
pub const CONT: u8 = 9;

#[derive(Clone, Debug)]
pub struct Fr {
    /// offset of the byte after the frame in its direction
    pub end: u64,
    pub kind: u8,
    pub flags: u8,
    pub sid: u32,
    pub payload: Vec<u8>,
}
impl Fr {
    pub fn eos(&self) -> bool {
        (self.kind == DATA || self.kind == HEADERS) && self.flags & 1 != 0
    }
    pub fn ack(&self) -> bool {
        (self.kind == SETTINGS || self.kind == PING) && self.flags & 1 != 0
    }
    pub fn u32_at(&self, i: usize) -> u32 {
        let mut b = [0u8; 4];
        b.copy_from_slice(&self.payload[i..i + 4]);
        u32::from_be_bytes(b)
    }
    pub fn show(&self) -> String {
        let k = ["DATA", "HEADERS", "PRIORITY", "RST", "SETTINGS", "PUSH", "PING", "GOAWAY", "WUPD", "CONT"];
        let n = k.get(self.kind as usize).copied().unwrap_or("?");
        let x = match self.kind {
            RST | WUPD if self.payload.len() == 4 => format!(" {}", self.u32_at(0)),
            GOAWAY if self.payload.len() >= 8 => format!(" last={} code={}", self.u32_at(0), self.u32_at(4)),
            _ => format!(" {}B", self.payload.len()),
        };
        format!("{n}#{}{x}{}", self.sid, if self.flags & 1 != 0 { if self.kind == DATA || self.kind == HEADERS { " EOS" } else { " ACK" } } else { "" })
    }
}
/// Complete frames in a byte stream (`client`: it starts with the preface).
pub fn parse(b: &[u8], client: bool) -> Vec<Fr> {
    let mut v = vec![];
    let mut p = 0;
    if client {
        if b.len() < PREFACE.len() {
            return v;
        }
        p = PREFACE.len();
    }
    while b.len() >= p + 9 {
        let n = (b[p] as usize) << 16 | (b[p + 1] as usize) << 8 | b[p + 2] as usize;
        if b.len() < p + 9 + n {
            break;
        }
        let sid = u32::from_be_bytes([b[p + 5], b[p + 6], b[p + 7], b[p + 8]]) & 0x7fff_ffff;
        v.push(Fr { end: (p + 9 + n) as u64, kind: b[p + 3], flags: b[p + 4], sid, payload: b[p + 9..p + 9 + n].to_vec() });
        p += 9 + n;
    }
    v
}
pub fn frame(kind: u8, flags: u8, sid: u32, payload: &[u8]) -> Vec<u8> {
    let n = payload.len();
    let mut v = vec![(n >> 16) as u8, (n >> 8) as u8, n as u8, kind, flags];
    v.extend_from_slice(&sid.to_be_bytes());
    v.extend_from_slice(payload);
    v
}
pub fn settings(s: &[(u16, u32)]) -> Vec<u8> {
    let mut p = vec![];
    for (k, x) in s {
        p.extend_from_slice(&k.to_be_bytes());
        p.extend_from_slice(&x.to_be_bytes());
    }
    frame(SETTINGS, 0, 0, &p)
}
pub fn settings_ack() -> Vec<u8> {
    frame(SETTINGS, 1, 0, &[])
}
pub fn ping(ack: bool, d: [u8; 8]) -> Vec<u8> {
    frame(PING, ack as u8, 0, &d)
}
pub fn goaway(last: u32, code: u32) -> Vec<u8> {
    let mut p = last.to_be_bytes().to_vec();
    p.extend_from_slice(&code.to_be_bytes());
    frame(GOAWAY, 0, 0, &p)
}
pub fn rst(sid: u32, code: u32) -> Vec<u8> {
    frame(RST, 0, sid, &code.to_be_bytes())
}
pub fn wupd(sid: u32, inc: u32) -> Vec<u8> {
    frame(WUPD, 0, sid, &inc.to_be_bytes())
}
pub fn data(sid: u32, eos: bool, b: &[u8]) -> Vec<u8> {
    frame(DATA, eos as u8, sid, b)
}
fn hint(v: &mut Vec<u8>, n: usize) {
    if n < 127 {
        v.push(n as u8);
    } else {
        v.push(127);
        let mut n = n - 127;
        while n >= 128 {
            v.push((n % 128) as u8 | 0x80);
            n /= 128;
        }
        v.push(n as u8);
    }
}
/// HPACK block of literal fields without indexing.
pub fn hpack(fields: &[(&str, &[u8])]) -> Vec<u8> {
    let mut v = vec![];
    for (k, x) in fields {
        v.push(0);
        hint(&mut v, k.len());
        v.extend_from_slice(k.as_bytes());
        hint(&mut v, x.len());
        v.extend_from_slice(x);
    }
    v
}
pub fn headers(sid: u32, eos: bool, fields: &[(&str, &[u8])]) -> Vec<u8> {
    frame(HEADERS, 4 | eos as u8, sid, &hpack(fields))
}

/// What one side of the connection is known to be allowed and to have done.
#[derive(Default)]
struct Side {
    /// peer's INITIAL_WINDOW_SIZE as far as this side has read it
    init: i64,
    conn: i64,
    frame_max: usize,
    streams: BTreeMap<u32, StreamW>,
    /// decreases wait for the acknowledgement
    pending_init: Vec<i64>,
    sent_conn: u64,
}
#[derive(Default, Clone, Debug)]
struct StreamW {
    win: i64,
    ended: bool,
    reset_sent: bool,
}
#[derive(Default, Debug, Clone)]
pub struct Audit {
    pub problems: Vec<String>,
    pub data_frames: u64,
    pub data_bytes: u64,
    pub window_updates: u64,
    pub resets: u64,
    pub min_conn: i64,
    pub stream_hit_zero: u64,
    pub conn_hit_zero: u64,
}
/// Replays the recorded order of transport operations and checks that every DATA frame either side
/// wrote was within the windows it had been granted by what it had read so far (RFC 9113 section 5.2),
/// within the frame size limit, and not sent on a finished stream.
pub fn audit(order: &[OpEv], sent_a: &[u8], sent_b: &[u8], a_is_client: bool) -> Audit {
    let mut out = Audit { min_conn: i64::MAX, ..Default::default() };
    let fr = [parse(sent_a, a_is_client), parse(sent_b, !a_is_client)];
    // index of the next frame not yet written / not yet read by the other side
    let mut wr = [0usize; 2];
    let mut rd = [0usize; 2];
    let mut side: Vec<Side> = (0..2).map(|_| Side { init: 65535, conn: 65535, frame_max: 16384, ..Default::default() }).collect();
    for ev in order {
        let me = if ev.a { 0 } else { 1 };
        let other = 1 - me;
        if ev.write {
            // a frame counts as sent when its last byte was written
            while wr[me] < fr[me].len() && fr[me][wr[me]].end <= ev.total {
                let f = &fr[me][wr[me]];
                wr[me] += 1;
                let s = &mut side[me];
                let init = s.init;
                match f.kind {
                    HEADERS => {
                        let st = s.streams.entry(f.sid).or_insert_with(|| StreamW { win: init, ..Default::default() });
                        if st.ended || st.reset_sent {
                            out.problems.push(format!("{} sent {} on a stream it had finished", who(me), f.show()));
                        }
                        st.ended |= f.eos();
                    }
                    DATA => {
                        let n = f.payload.len() as i64;
                        out.data_frames += 1;
                        out.data_bytes += n as u64;
                        if f.payload.len() > s.frame_max {
                            out.problems.push(format!("{} sent {} above the frame size limit {}", who(me), f.show(), s.frame_max));
                        }
                        s.conn -= n;
                        s.sent_conn += n as u64;
                        let conn = s.conn;
                        let st = s.streams.entry(f.sid).or_insert_with(|| StreamW { win: init, ..Default::default() });
                        st.win -= n;
                        if st.win < 0 && n > 0 {
                            out.problems.push(format!("{} sent {} with the stream window at {}", who(me), f.show(), st.win + n));
                        }
                        if conn < 0 && n > 0 {
                            out.problems.push(format!("{} sent {} with the connection window at {}", who(me), f.show(), conn + n));
                        }
                        out.stream_hit_zero += (st.win == 0) as u64;
                        out.conn_hit_zero += (conn == 0) as u64;
                        out.min_conn = out.min_conn.min(conn);
                        if st.ended || st.reset_sent {
                            out.problems.push(format!("{} sent {} on a stream it had finished", who(me), f.show()));
                        }
                        st.ended |= f.eos();
                    }
                    RST => {
                        out.resets += 1;
                        s.streams.entry(f.sid).or_insert_with(|| StreamW { win: init, ..Default::default() }).reset_sent = true;
                    }
                    SETTINGS if f.ack() => {
                        if !s.pending_init.is_empty() {
                            let v = s.pending_init.remove(0);
                            if v < s.init {
                                let d = v - s.init;
                                s.init = v;
                                for st in s.streams.values_mut() {
                                    st.win += d;
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        } else {
            while rd[other] < fr[other].len() && fr[other][rd[other]].end <= ev.total {
                let f = &fr[other][rd[other]];
                rd[other] += 1;
                let s = &mut side[me];
                match f.kind {
                    SETTINGS if !f.ack() => {
                        let mut newv = s.init;
                        for c in f.payload.chunks_exact(6) {
                            let id = u16::from_be_bytes([c[0], c[1]]);
                            let v = u32::from_be_bytes([c[2], c[3], c[4], c[5]]);
                            if id == 4 {
                                newv = v as i64;
                            }
                            if id == 5 {
                                // may shrink only after it was raised before: keep the larger until then
                                s.frame_max = s.frame_max.max(v as usize);
                            }
                        }
                        s.pending_init.push(newv);
                        if newv > s.init {
                            let d = newv - s.init;
                            s.init = newv;
                            for st in s.streams.values_mut() {
                                st.win += d;
                            }
                        }
                    }
                    WUPD if f.payload.len() == 4 => {
                        out.window_updates += 1;
                        let inc = (f.u32_at(0) & 0x7fff_ffff) as i64;
                        if f.sid == 0 {
                            s.conn += inc;
                        } else {
                            let init = s.init;
                            s.streams.entry(f.sid).or_insert_with(|| StreamW { win: init, ..Default::default() }).win += inc;
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    out
}
fn who(i: usize) -> &'static str {
    if i == 0 {
        "side a"
    } else {
        "side b"
    }
}

/// Readable list of frames in the order they were completed on the wire.
pub fn dump(order: &[OpEv], sent_a: &[u8], sent_b: &[u8], a_is_client: bool) -> Vec<String> {
    let fr = [parse(sent_a, a_is_client), parse(sent_b, !a_is_client)];
    let (mut wr, mut rd) = ([0usize; 2], [0usize; 2]);
    let mut v = vec![];
    for ev in order {
        let me = if ev.a { 0 } else { 1 };
        let (src, idx, verb) = if ev.write { (me, &mut wr, "sends") } else { (1 - me, &mut rd, "reads") };
        while idx[src] < fr[src].len() && fr[src][idx[src]].end <= ev.total {
            v.push(format!("[{:9.3}ms] {} {verb} {}", ev.ns as f64 / 1e6, if ev.a { "a" } else { "b" }, fr[src][idx[src]].show()));
            idx[src] += 1;
        }
    }
    v
}
