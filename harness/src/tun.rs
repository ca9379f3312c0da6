//! A handed-over transport (upgrade, manual parts or HTTP/2 tunnel) driven by scripts.
use crate::sim::*;
use bytes::{Buf, Bytes};
use hyper::rt::{Read, ReadBuf, ReadBufCursor, Write};
use std::io;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

pub trait Rw: Read + Write + Unpin {}
impl<T: Read + Write + Unpin> Rw for T {}

/// Leftover bytes in front of a transport, as a user of `Parts` would do it.
pub struct Prefixed<T> {
    pub pre: Bytes,
    pub io: T,
}
impl<T: Read + Unpin> Read for Prefixed<T> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: ReadBufCursor<'_>) -> Poll<io::Result<()>> {
        if !self.pre.is_empty() {
            let n = self.pre.len().min(buf.remaining());
            buf.put_slice(&self.pre[..n]);
            self.pre.advance(n);
            return Poll::Ready(Ok(()));
        }
        Pin::new(&mut self.io).poll_read(cx, buf)
    }
}
impl<T: Write + Unpin> Write for Prefixed<T> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.io).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.io).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.io).poll_shutdown(cx)
    }
    fn is_write_vectored(&self) -> bool {
        self.io.is_write_vectored()
    }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.io).poll_write_vectored(cx, bufs)
    }
}

#[derive(Default, Clone, Debug)]
pub struct TunLog {
    pub data: Vec<u8>,
    pub eof: bool,
    pub read_err: Option<String>,
    pub written: usize,
    pub write_err: Option<String>,
    pub write_done: bool,
    pub shut: bool,
    pub dropped: bool,
    pub odd: Vec<String>,
    /// the writing task got to its end
    pub finished: bool,
}
#[derive(Clone)]
pub struct Tun {
    pub sim: Sim,
    pub io: Arc<Mutex<Option<Box<dyn Rw>>>>,
    pub log: Arc<Mutex<TunLog>>,
    pub min_write: usize,
}
fn gone() -> io::Error {
    io::Error::new(io::ErrorKind::NotConnected, "tunnel dropped")
}
impl Tun {
    pub fn new(sim: &Sim, io: Box<dyn Rw>) -> Tun {
        Tun { sim: sim.clone(), io: Arc::new(Mutex::new(Some(io))), log: Default::default(), min_write: 1 }
    }
    pub fn drop_io(&self) {
        let io = self.io.lock().unwrap().take();
        self.log.lock().unwrap().dropped = true;
        drop(io);
    }
    /// One read of at most `max` bytes; Ok(0) is the end.
    pub async fn read_some(&self, max: usize) -> io::Result<Vec<u8>> {
        let mut store = vec![MaybeUninit::<u8>::uninit(); max];
        std::future::poll_fn(|cx| {
            let mut rb = ReadBuf::uninit(&mut store);
            let mut g = self.io.lock().unwrap();
            let Some(io) = g.as_mut() else { return Poll::Ready(Err(gone())) };
            match Pin::new(io).poll_read(cx, rb.unfilled()) {
                Poll::Ready(Ok(())) => Poll::Ready(Ok(rb.filled().to_vec())),
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => {
                    if !rb.filled().is_empty() {
                        self.log.lock().unwrap().odd.push("read returned Pending after filling the buffer".into());
                    }
                    Poll::Pending
                }
            }
        })
        .await
    }
    /// Reads until `total` bytes came, the end or an error.
    pub async fn read_to(self, total: usize, max: usize, pace: u32) {
        loop {
            if self.log.lock().unwrap().data.len() >= total {
                return;
            }
            if self.sim.pct(pace) {
                let n = self.sim.rng(|r| r.range(1, 4));
                self.sim.yields(n).await;
            }
            let k = self.sim.rng(|r| r.size(max)).max(1);
            let v = self.read_some(k).await;
            self.sim.mark();
            let mut l = self.log.lock().unwrap();
            match v {
                Ok(v) if v.is_empty() => {
                    l.eof = true;
                    return;
                }
                Ok(v) => l.data.extend_from_slice(&v),
                Err(e) => {
                    l.read_err = Some(format!("{:?}: {e}", e.kind()));
                    return;
                }
            }
        }
    }
    /// Writes everything in random pieces, flushes, and shuts down if asked.
    pub async fn write_all(self, data: Vec<u8>, max: usize, pace: u32, shutdown: bool) {
        let mut off = 0;
        let sim = self.sim.clone();
        let r: io::Result<()> = async {
            while off < data.len() {
                if sim.pct(pace) {
                    let n = sim.rng(|r| r.range(1, 4));
                    sim.yields(n).await;
                }
                let k = sim.rng(|r| r.size(max)).max(self.min_write).clamp(1, data.len() - off);
                let vectored = sim.pct(30);
                let cut = sim.rng(|r| r.below(k + 1));
                let n = std::future::poll_fn(|cx| {
                    let mut g = self.io.lock().unwrap();
                    let Some(io) = g.as_mut() else { return Poll::Ready(Err(gone())) };
                    if vectored {
                        let b = [io::IoSlice::new(&data[off..off + cut]), io::IoSlice::new(&data[off + cut..off + k])];
                        let any = if cut == 0 { &b[1..] } else { &b[..] };
                        Pin::new(io).poll_write_vectored(cx, any)
                    } else {
                        Pin::new(io).poll_write(cx, &data[off..off + k])
                    }
                })
                .await?;
                sim.mark();
                if n == 0 {
                    return Err(io::ErrorKind::WriteZero.into());
                }
                if n > k {
                    self.log.lock().unwrap().odd.push(format!("write accepted {n} of {k} bytes"));
                    return Err(gone());
                }
                off += n;
                self.log.lock().unwrap().written = off;
                if sim.pct(20) {
                    self.flush().await?;
                }
            }
            self.flush().await?;
            self.log.lock().unwrap().write_done = true;
            if shutdown {
                std::future::poll_fn(|cx| match self.io.lock().unwrap().as_mut() {
                    Some(io) => Pin::new(io).poll_shutdown(cx),
                    None => Poll::Ready(Err(gone())),
                })
                .await?;
                self.log.lock().unwrap().shut = true;
            }
            Ok(())
        }
        .await;
        if let Err(e) = r {
            self.log.lock().unwrap().write_err = Some(format!("{:?}: {e}", e.kind()));
        }
        sim.mark();
    }
    async fn flush(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| match self.io.lock().unwrap().as_mut() {
            Some(io) => Pin::new(io).poll_flush(cx),
            None => Poll::Ready(Err(gone())),
        })
        .await
    }
}
