#![allow(dead_code, unused_imports)]
use bytes::Bytes;
use http_body_util::{BodyExt, Full, StreamBody, Empty};
use hyper::body::{Body, Frame, Incoming, SizeHint};
use hyper::{Request, Response};
use std::{convert::Infallible, pin::Pin, task::{Context, Poll}, time::Duration};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, DuplexStream};
/// tokio io as hyper io
struct Io<T>(T);
impl<T: AsyncRead + Unpin> hyper::rt::Read for Io<T> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: hyper::rt::ReadBufCursor<'_>) -> Poll<std::io::Result<()>> {
        let mut b = vec![0u8; buf.remaining().min(65536)];
        let mut rb = tokio::io::ReadBuf::new(&mut b);
        match Pin::new(&mut self.0).poll_read(cx, &mut rb) {
            Poll::Ready(Ok(())) => {
                buf.put_slice(rb.filled());
                Poll::Ready(Ok(()))
            }
            x => x,
        }
    }
}
impl<T: AsyncWrite + Unpin> hyper::rt::Write for Io<T> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_shutdown(cx)
    }
}
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let ok = rt.block_on(async { tokio::time::timeout(Duration::from_secs(40), tokio::task::LocalSet::new().run_until(demo())).await });
    match ok {
        Ok(Ok(())) => println!("ok"),
        Ok(Err(e)) => { println!("FAILED: {e}"); std::process::exit(1) }
        Err(_) => { println!("FAILED: did not finish"); std::process::exit(1) }
    }
}
