//! Raw transport end driven by tests, shareable between a reader and a writer task.
use crate::sim::*;
use std::io;
use std::sync::{Arc, Mutex};

#[derive(Clone)]
pub struct Peer(pub Arc<Mutex<Option<SimIo>>>);
fn gone() -> io::Error {
    io::Error::new(io::ErrorKind::NotConnected, "peer io dropped")
}
impl Peer {
    pub fn new(io: SimIo) -> Peer {
        Peer(Arc::new(Mutex::new(Some(io))))
    }
    pub async fn send(&self, data: &[u8]) -> io::Result<()> {
        let mut off = 0;
        while off < data.len() {
            let n = std::future::poll_fn(|cx| match self.0.lock().unwrap().as_mut() {
                Some(i) => i.poll_write_bufs(cx, &[&data[off..]], false),
                None => std::task::Poll::Ready(Err(gone())),
            })
            .await?;
            if n == 0 {
                return Err(io::ErrorKind::WriteZero.into());
            }
            off += n;
        }
        self.flush().await
    }
    pub async fn flush(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| match self.0.lock().unwrap().as_mut() {
            Some(i) => i.do_flush(cx),
            None => std::task::Poll::Ready(Err(gone())),
        })
        .await
    }
    pub async fn recv(&self, max: usize) -> io::Result<Vec<u8>> {
        let mut v = Vec::new();
        std::future::poll_fn(|cx| {
            let mut f = |b: &[u8]| v.extend_from_slice(b);
            match self.0.lock().unwrap().as_mut() {
                Some(i) => i.poll_read_into(cx, max, &mut f),
                None => std::task::Poll::Ready(Err(gone())),
            }
        })
        .await?;
        Ok(v)
    }
    pub async fn close_write(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| match self.0.lock().unwrap().as_mut() {
            Some(i) => i.do_shutdown(cx),
            None => std::task::Poll::Ready(Err(gone())),
        })
        .await
    }
    /// Abruptly drops the transport end.
    pub fn drop_io(&self) {
        let io = self.0.lock().unwrap().take();
        drop(io);
    }
}

/// What a raw peer has received so far.
#[derive(Default, Debug, Clone)]
pub struct Recv {
    pub data: Vec<u8>,
    pub eof: bool,
    pub err: Option<String>,
}
pub type RecvRef = Arc<Mutex<Recv>>;

/// Reads everything; `each` is called after every change.
pub async fn read_all(p: Peer, out: RecvRef, max: usize, mut each: impl FnMut(&Recv)) {
    loop {
        match p.recv(max).await {
            Ok(v) if v.is_empty() => {
                let mut o = out.lock().unwrap();
                o.eof = true;
                each(&o);
                return;
            }
            Ok(v) => {
                let mut o = out.lock().unwrap();
                o.data.extend_from_slice(&v);
                each(&o);
            }
            Err(e) => {
                let mut o = out.lock().unwrap();
                o.err = Some(e.to_string());
                each(&o);
                return;
            }
        }
    }
}
/// Counter tasks can wait on.
#[derive(Clone, Default)]
pub struct Count(Arc<Mutex<(usize, Vec<std::task::Waker>)>>);
impl Count {
    pub fn set(&self, n: usize) {
        let mut g = self.0.lock().unwrap();
        if n != g.0 {
            g.0 = n;
            for w in g.1.drain(..) {
                w.wake()
            }
        }
    }
    pub fn add(&self, n: usize) {
        let v = self.0.lock().unwrap().0;
        self.set(v + n)
    }
    pub fn get(&self) -> usize {
        self.0.lock().unwrap().0
    }
    pub async fn at_least(&self, n: usize) {
        std::future::poll_fn(|cx| {
            let mut g = self.0.lock().unwrap();
            if g.0 >= n {
                std::task::Poll::Ready(())
            } else {
                g.1.push(cx.waker().clone());
                std::task::Poll::Pending
            }
        })
        .await
    }
}
