//! One server connection fed by a raw scripted client, run to rest.
use crate::peer::*;
use crate::refh1;
use crate::report::CaseOut;
use crate::rng::Rng;
use crate::sim::*;
use crate::srv::*;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Send {
    /// next request only after the previous response is complete
    Lockstep,
    /// everything in one go
    Pipelined,
    /// pieces with random pauses, not waiting for responses
    Pieces,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Eof {
    Never,
    AfterResponses,
    AfterSend,
    /// drop the transport end after sending
    DropAfterSend,
}
pub struct Run {
    pub cfg: SrvCfg,
    pub reqs: Vec<Vec<u8>>,
    pub methods: Vec<String>,
    pub plans: Vec<Plan>,
    pub ioa: IoCfg,
    pub iob: IoCfg,
    pub send: Send,
    pub eof: Eof,
    pub spurious: u32,
    pub until: u64,
    pub graceful: Gate,
    pub max_read: usize,
    pub by_id: bool,
}
impl Run {
    pub fn new(r: &mut Rng, cfg: SrvCfg, reqs: Vec<Vec<u8>>, methods: Vec<String>, plans: Vec<Plan>, bytes_out: usize) -> Run {
        let mut ioa = IoCfg::gen(r);
        let mut iob = IoCfg::gen(r);
        let total = reqs.iter().map(|m| m.len()).sum::<usize>() + bytes_out;
        tame(r, &mut ioa, &mut iob, total);
        let eof = if r.pct(50) { Eof::AfterResponses } else { Eof::Never };
        // hyper may take a peer that leaves before a flush has finished for one that did not get everything.
        ioa.late_flush = matches!(eof, Eof::Never);
        Run {
            cfg,
            reqs,
            methods,
            plans,
            ioa,
            iob,
            send: *r.pick(&[Send::Lockstep, Send::Pipelined, Send::Pieces, Send::Pieces]),
            eof,
            spurious: *r.pick(&[0, 0, 0, 10]),
            until: 1_000_000_000,
            graceful: Gate::default(),
            max_read: 1 << 16,
            by_id: false,
        }
    }
    pub fn go(self, sim: &Sim) -> Ran {
        let mut ex = Exec::new(sim);
        self.go_with(&mut ex)
    }
    pub fn go_with(self, ex: &mut Exec) -> Ran {
        let s = self.start(ex);
        s.finish(ex)
    }
    pub fn start(self, ex: &mut Exec) -> Started {
        let sim = ex.sim.clone();
        let (server_io, client_io, wire) = pipe(&sim, self.ioa.clone(), self.iob.clone());
        ex.spurious = self.spurious;
        let mut svc = Svc::new(ex, self.plans.clone());
        svc.by_id = self.by_id;
        let st = svc.st.clone();
        let calls = svc.calls.clone();
        let end = serve_h1(ex, &self.cfg, server_io, svc, self.graceful.clone());
        let peer = Peer::new(client_io);
        let rx: RecvRef = Default::default();
        let nresp = Count::default();
        {
            let (p, rx, nresp, methods) = (peer.clone(), rx.clone(), nresp.clone(), self.methods.clone());
            let mx = self.max_read;
            ex.spawn("client-read", async move {
                let mut pos = (0usize, 0usize);
                read_all(p, rx, mx, |rv| {
                    while pos.1 < methods.len() {
                        match refh1::response(&rv.data, pos.0, &methods[pos.1], rv.eof) {
                            refh1::P::Ok(m) if m.complete => {
                                let interim = m.status() < 200 && m.status() != 101;
                                pos = (m.end, pos.1 + !interim as usize)
                            }
                            _ => break,
                        }
                    }
                    nresp.set(pos.1);
                })
                .await
            });
        }
        let all_sent = Gate::default();
        {
            let (p, nresp, sim2, reqs) = (peer.clone(), nresp.clone(), sim.clone(), self.reqs.clone());
            let (mode, eof, half, sent) = (self.send, self.eof, self.cfg.half_close, all_sent.clone());
            ex.spawn("client-write", async move {
                if mode == Send::Pipelined {
                    let all: Vec<u8> = reqs.concat();
                    if p.send(&all).await.is_err() {
                        return;
                    }
                } else {
                    for (i, m) in reqs.iter().enumerate() {
                        let mut off = 0;
                        while off < m.len() {
                            let k = sim2.rng(|r| if r.pct(50) { m.len() - off } else { r.range(1, m.len() - off) });
                            if p.send(&m[off..off + k]).await.is_err() {
                                return;
                            }
                            off += k;
                            if off < m.len() {
                                let y = sim2.rng(|r| r.range(0, 6));
                                sim2.yields(y).await;
                            }
                        }
                        if mode == Send::Lockstep {
                            nresp.at_least(i + 1).await;
                        }
                    }
                }
                sent.open();
                match eof {
                    Eof::Never => {}
                    Eof::AfterSend => {
                        let _ = p.close_write().await;
                    }
                    Eof::DropAfterSend => p.drop_io(),
                    Eof::AfterResponses => {
                        if !half {
                            nresp.at_least(reqs.len()).await;
                        }
                        let _ = p.close_write().await;
                    }
                }
            });
        }
        Started { until: self.until, methods: self.methods, st, calls, end, rx, wire, peer, nresp, all_sent, e: None }
    }
}
pub struct Started {
    pub until: u64,
    pub methods: Vec<String>,
    pub st: Arc<Mutex<SvcState>>,
    pub calls: Count,
    pub end: EndRef,
    pub rx: RecvRef,
    pub wire: Wire,
    pub peer: Peer,
    pub nresp: Count,
    pub all_sent: Gate,
    e: Option<End>,
}
pub struct Ran {
    pub e: End,
    pub st: Arc<Mutex<SvcState>>,
    pub rx: Recv,
    pub end: ConnEnd,
    pub wire: Wire,
    pub pending: Vec<String>,
    pub methods: Vec<String>,
    pub all_sent: bool,
}
impl Started {
    pub fn run(&mut self, ex: &mut Exec) -> End {
        ex.until = Some(self.until);
        let e = at_rest(ex.run());
        self.e = Some(e.clone());
        e
    }
    pub fn finish(mut self, ex: &mut Exec) -> Ran {
        let e = self.run(ex);
        let pending = ex.pending();
        ex.sim.log(|| format!("at rest; unfinished tasks: {pending:?}"));
        let rx = self.rx.lock().unwrap().clone();
        let end = self.end.lock().unwrap().clone();
        Ran { e, st: self.st, rx, end, wire: self.wire, pending, methods: self.methods, all_sent: self.all_sent.is_open() }
    }
}
impl Ran {
    /// Parses everything received as responses; the second value is a framing error.
    pub fn responses(&self) -> (Vec<refh1::Msg>, Option<String>) {
        refh1::responses(&self.rx.data, &self.methods, self.rx.eof || self.rx.err.is_some())
    }
    /// Records how the run ended; true if it came to rest and can be judged.
    pub fn judge_end(&self, out: &mut CaseOut) -> bool {
        match &self.e {
            End::Quiescent => true,
            End::Spin(t) => {
                out.viol(format!("task {t} spins without progress"));
                false
            }
            x => {
                out.inconclusive = Some(format!("{x:?}"));
                false
            }
        }
    }
}

/// Keeps the number of transport operations sane for large transfers.
pub fn tame(r: &mut Rng, a: &mut IoCfg, b: &mut IoCfg, bytes: usize) {
    for c in [a, b] {
        if bytes > 20_000 {
            for s in [&mut c.rd, &mut c.wr] {
                if matches!(s, Seg::One | Seg::Fixed(_) | Seg::Rand(12)) {
                    *s = *r.pick(&[Seg::Whole, Seg::Rand(300), Seg::Rand(9000), Seg::Fixed(1000)]);
                }
                if bytes > 300_000 {
                    *s = *r.pick(&[Seg::Whole, Seg::Rand(9000), Seg::Fixed(20_000)]);
                }
            }
            if c.cap < 4096 {
                c.cap = *r.pick(&[4096, 70_000, usize::MAX]);
            }
        }
    }
}
