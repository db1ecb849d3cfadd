//! async counterparts (against the stub `tokio` crate) and a tiny executor
use crate::*;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use tokio::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};

fn raw() -> RawWaker {
    fn c(_: *const ()) -> RawWaker { raw() }
    fn n(_: *const ()) {}
    static T: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    RawWaker::new(std::ptr::null(), &T)
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = unsafe { Waker::from_raw(raw()) };
    let mut cx = Context::from_waker(&w);
    let mut n = 0u64;
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x }
        n += 1;
        if n > 5_000_000 { panic!("STUCK: pending forever") }
    }
}
pub fn assert_send<F: Future + Send>(f: F) -> F { f }

/// Src, with a Pending before every `pend`-th readiness
pub struct ASrc { pub s: Src, pub pend: usize, pub n: usize }
impl ASrc {
    pub fn new(j: &J) -> ASrc { ASrc { s: Src::new(j), pend: j.get("pend").num().max(0) as usize, n: 0 } }
    fn gate(&mut self) -> bool {
        if self.pend == 0 { return false }
        self.n += 1;
        self.n % (self.pend + 1) == 0
    }
}
impl AsyncRead for ASrc {
    fn poll_read(mut self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if self.gate() { return Poll::Pending }
        let mut t = vec![0u8; buf.remaining()];
        let n = self.s.do_read(&mut t)?;
        buf.put_slice(&t[..n]);
        Poll::Ready(Ok(()))
    }
}
impl AsyncBufRead for ASrc {
    fn poll_fill_buf(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        if self.gate() { return Poll::Pending }
        let me = self.get_mut();
        if let Err(e) = me.s.do_fill() { return Poll::Ready(Err(e)) }
        Poll::Ready(Ok(me.s.window()))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) { self.s.do_consume(n) }
}
pub struct ADst { pub d: Dst, pub pend: usize, pub n: usize }
impl ADst {
    pub fn new(j: &J) -> ADst { ADst { d: Dst::new(j), pend: j.get("pend").num().max(0) as usize, n: 0 } }
}
impl AsyncWrite for ADst {
    fn poll_write(mut self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.pend > 0 {
            self.n += 1;
            if self.n % (self.pend + 1) == 0 { return Poll::Pending }
        }
        Poll::Ready(self.d.do_write(buf))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}

pub struct MapW<'a, W: ?Sized> { inner: &'a mut W, op: u8, k: u8 }
impl<'a, W: ?Sized> MapW<'a, W> {
    pub fn new(inner: &'a mut W, op: u8, k: u8) -> Self { MapW { inner, op, k } }
}
impl<'a, W: AsyncWrite + Unpin + ?Sized> AsyncWrite for MapW<'a, W> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let v: Vec<u8> = buf.iter().map(|x| mapb(self.op, self.k, true, *x)).collect();
        Pin::new(&mut *self.inner).poll_write(cx, &v)
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}
pub struct MapR<'a, R: ?Sized> { inner: &'a mut R, op: u8, k: u8, win: Vec<u8> }
impl<'a, R: ?Sized> MapR<'a, R> {
    pub fn new(inner: &'a mut R, op: u8, k: u8) -> Self { MapR { inner, op, k, win: vec![] } }
}
impl<'a, R: AsyncRead + Unpin + ?Sized> AsyncRead for MapR<'a, R> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut t = vec![0u8; buf.remaining()];
        let mut rb = ReadBuf::new(&mut t);
        match Pin::new(&mut *self.inner).poll_read(cx, &mut rb) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(r) => r?,
        }
        let v: Vec<u8> = rb.filled().iter().map(|x| mapb(self.op, self.k, false, *x)).collect();
        buf.put_slice(&v);
        Poll::Ready(Ok(()))
    }
}
impl<'a, R: AsyncBufRead + Unpin + ?Sized> AsyncBufRead for MapR<'a, R> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let me = self.get_mut();
        let (op, k) = (me.op, me.k);
        match Pin::new(&mut *me.inner).poll_fill_buf(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Ready(Ok(b)) => { let v: Vec<u8> = b.iter().map(|x| mapb(op, k, false, *x)).collect(); me.win = v }
        }
        Poll::Ready(Ok(&me.win[..]))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) { Pin::new(&mut *self.inner).consume(n) }
}
pub struct FrameW<'a, W: ?Sized> { inner: &'a mut W, tag: u8, mask: u8, buf: Vec<u8>, done: bool, pendb: Vec<u8> }
impl<'a, W: ?Sized> FrameW<'a, W> {
    pub fn new(inner: &'a mut W, tag: u8, mask: u8) -> Self { FrameW { inner, tag, mask, buf: vec![], done: false, pendb: vec![] } }
}
impl<'a, W: AsyncWrite + Unpin + ?Sized> AsyncWrite for FrameW<'a, W> {
    fn poll_write(mut self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.buf.extend_from_slice(buf);
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let me = self.get_mut();
        if !(me.done && me.buf.is_empty()) {
            me.done = true;
            me.pendb.extend(frame_bytes(me.tag, me.mask, &me.buf)?);
            me.buf.clear();
        }
        while !me.pendb.is_empty() {
            match Pin::new(&mut *me.inner).poll_write(cx, &me.pendb) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(0)) => return Poll::Ready(Err(io::ErrorKind::WriteZero.into())),
                Poll::Ready(Ok(n)) => { me.pendb.drain(..n); }
            }
        }
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.poll_flush(cx) }
}
pub async fn frame_r<R: AsyncRead + Unpin + Send + ?Sized>(r: &mut R, tag: u8, mask: u8) -> io::Result<Cursor<Vec<u8>>> {
    let mut h = [0u8; 2];
    r.read_exact(&mut h).await?;
    if h[0] != tag { return Err(io::Error::new(io::ErrorKind::InvalidData, "bad frame tag")) }
    let mut v = vec![0u8; h[1] as usize];
    r.read_exact(&mut v).await?;
    for x in &mut v { *x ^= mask }
    Ok(Cursor::new(v))
}
#[allow(dead_code)]
async fn _x<W: AsyncWrite + Unpin + Send>(w: &mut W) -> io::Result<()> { w.write_all(&[]).await }
