//! Stand-in for the part of `tokio::io` that generated async coders use (no tokio offline here).
pub mod io {
    use std::future::Future;
    use std::io;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    pub struct ReadBuf<'a> { buf: &'a mut [u8], filled: usize }
    impl<'a> ReadBuf<'a> {
        pub fn new(buf: &'a mut [u8]) -> Self { ReadBuf { buf, filled: 0 } }
        pub fn remaining(&self) -> usize { self.buf.len() - self.filled }
        pub fn filled(&self) -> &[u8] { &self.buf[..self.filled] }
        pub fn put_slice(&mut self, s: &[u8]) {
            self.buf[self.filled..self.filled + s.len()].copy_from_slice(s);
            self.filled += s.len();
        }
    }
    pub trait AsyncRead {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>>;
    }
    pub trait AsyncBufRead: AsyncRead {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>>;
        fn consume(self: Pin<&mut Self>, amt: usize);
    }
    pub trait AsyncWrite {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>>;
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
        fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
    }
    impl<T: ?Sized + AsyncRead + Unpin> AsyncRead for &mut T {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut **self).poll_read(cx, buf)
        }
    }
    impl<T: ?Sized + AsyncBufRead + Unpin> AsyncBufRead for &mut T {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            Pin::new(&mut **self.get_mut()).poll_fill_buf(cx)
        }
        fn consume(mut self: Pin<&mut Self>, amt: usize) { Pin::new(&mut **self).consume(amt) }
    }
    impl<T: ?Sized + AsyncWrite + Unpin> AsyncWrite for &mut T {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            Pin::new(&mut **self).poll_write(cx, buf)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { Pin::new(&mut **self).poll_flush(cx) }
        fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { Pin::new(&mut **self).poll_shutdown(cx) }
    }
    impl AsyncRead for &[u8] {
        fn poll_read(mut self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let n = self.len().min(buf.remaining());
            let (a, b) = self.split_at(n);
            buf.put_slice(a);
            *self = b;
            Poll::Ready(Ok(()))
        }
    }
    impl AsyncBufRead for &[u8] {
        fn poll_fill_buf(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> { Poll::Ready(Ok(*self)) }
        fn consume(mut self: Pin<&mut Self>, amt: usize) { *self = &self[amt..] }
    }
    impl<T: AsRef<[u8]> + Unpin> AsyncRead for io::Cursor<T> {
        fn poll_read(mut self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let pos = self.position() as usize;
            let s = self.get_ref().as_ref();
            let start = pos.min(s.len());
            let n = (s.len() - start).min(buf.remaining());
            buf.put_slice(&s[start..start + n]);
            self.set_position((start + n) as u64);
            Poll::Ready(Ok(()))
        }
    }
    impl<T: AsRef<[u8]> + Unpin> AsyncBufRead for io::Cursor<T> {
        fn poll_fill_buf(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let me = self.get_mut();
            let pos = (me.position() as usize).min(me.get_ref().as_ref().len());
            Poll::Ready(Ok(&me.get_ref().as_ref()[pos..]))
        }
        fn consume(mut self: Pin<&mut Self>, amt: usize) { let p = self.position() + amt as u64; self.set_position(p) }
    }
    impl AsyncWrite for Vec<u8> {
        fn poll_write(mut self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            self.extend_from_slice(buf);
            Poll::Ready(Ok(buf.len()))
        }
        fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
        fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    }
    pub struct Take<R> { inner: R, limit: u64 }
    impl<R: AsyncRead + Unpin> AsyncRead for Take<R> {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            if self.limit == 0 || buf.remaining() == 0 { return Poll::Ready(Ok(())) }
            let n = (buf.remaining() as u64).min(self.limit) as usize;
            let mut t = vec![0u8; n];
            let mut rb = ReadBuf::new(&mut t);
            match Pin::new(&mut self.inner).poll_read(cx, &mut rb) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(r) => r?,
            }
            let got = rb.filled().len();
            buf.put_slice(&t[..got]);
            self.limit -= got as u64;
            Poll::Ready(Ok(()))
        }
    }
    impl<R: AsyncBufRead + Unpin> AsyncBufRead for Take<R> {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let me = self.get_mut();
            if me.limit == 0 { return Poll::Ready(Ok(&[])) }
            match Pin::new(&mut me.inner).poll_fill_buf(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Ready(Ok(b)) => { let n = (b.len() as u64).min(me.limit) as usize; Poll::Ready(Ok(&b[..n])) }
            }
        }
        fn consume(mut self: Pin<&mut Self>, amt: usize) {
            let amt = (amt as u64).min(self.limit);
            self.limit -= amt;
            Pin::new(&mut self.inner).consume(amt as usize)
        }
    }
    impl<R> Take<R> {
        pub fn into_inner(self) -> R { self.inner }
        pub fn get_ref(&self) -> &R { &self.inner }
        pub fn get_mut(&mut self) -> &mut R { &mut self.inner }
        pub fn limit(&self) -> u64 { self.limit }
        pub fn set_limit(&mut self, limit: u64) { self.limit = limit }
    }
    pub struct Chain<T, U> { first: T, second: U, done: bool }
    impl<T, U> Chain<T, U> {
        pub fn into_inner(self) -> (T, U) { (self.first, self.second) }
        pub fn get_ref(&self) -> (&T, &U) { (&self.first, &self.second) }
        pub fn get_mut(&mut self) -> (&mut T, &mut U) { (&mut self.first, &mut self.second) }
    }
    impl<T: AsyncRead + Unpin, U: AsyncRead + Unpin> AsyncRead for Chain<T, U> {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let me = self.get_mut();
            if !me.done {
                let before = buf.remaining();
                match Pin::new(&mut me.first).poll_read(cx, buf) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(r) => r?,
                }
                if buf.remaining() == before { me.done = true } else { return Poll::Ready(Ok(())) }
            }
            Pin::new(&mut me.second).poll_read(cx, buf)
        }
    }
    impl<T: AsyncBufRead + Unpin, U: AsyncBufRead + Unpin> AsyncBufRead for Chain<T, U> {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let me = self.get_mut();
            if !me.done {
                match Pin::new(&mut me.first).poll_fill_buf(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Ready(Ok(b)) => {
                        // lifetime extension as in FillBuf
                        let b: &[u8] = unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) };
                        if !b.is_empty() { return Poll::Ready(Ok(b)) }
                    }
                }
                me.done = true;
            }
            Pin::new(&mut me.second).poll_fill_buf(cx)
        }
        fn consume(mut self: Pin<&mut Self>, amt: usize) {
            let me = &mut *self;
            if !me.done { Pin::new(&mut me.first).consume(amt) } else { Pin::new(&mut me.second).consume(amt) }
        }
    }
    macro_rules! ready { ($e:expr) => { match $e { Poll::Ready(x) => x, Poll::Pending => return Poll::Pending } } }

    pub struct ReadExact<'a, R: ?Sized> { r: &'a mut R, buf: &'a mut [u8], pos: usize }
    impl<'a, R: AsyncRead + Unpin + ?Sized> Future for ReadExact<'a, R> {
        type Output = io::Result<usize>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let me = self.get_mut();
            while me.pos < me.buf.len() {
                let mut rb = ReadBuf::new(&mut me.buf[me.pos..]);
                ready!(Pin::new(&mut *me.r).poll_read(cx, &mut rb))?;
                let n = rb.filled().len();
                if n == 0 { return Poll::Ready(Err(io::Error::new(io::ErrorKind::UnexpectedEof, "early eof"))) }
                me.pos += n;
            }
            Poll::Ready(Ok(me.pos))
        }
    }
    pub struct ReadSome<'a, R: ?Sized> { r: &'a mut R, buf: &'a mut [u8] }
    impl<'a, R: AsyncRead + Unpin + ?Sized> Future for ReadSome<'a, R> {
        type Output = io::Result<usize>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let me = self.get_mut();
            let mut rb = ReadBuf::new(&mut *me.buf);
            ready!(Pin::new(&mut *me.r).poll_read(cx, &mut rb))?;
            Poll::Ready(Ok(rb.filled().len()))
        }
    }
    pub struct ReadToEnd<'a, R: ?Sized> { r: &'a mut R, buf: &'a mut Vec<u8>, n: usize }
    impl<'a, R: AsyncRead + Unpin + ?Sized> Future for ReadToEnd<'a, R> {
        type Output = io::Result<usize>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let me = self.get_mut();
            loop {
                let mut t = [0u8; 64];
                let mut rb = ReadBuf::new(&mut t);
                ready!(Pin::new(&mut *me.r).poll_read(cx, &mut rb))?;
                let n = rb.filled().len();
                if n == 0 { return Poll::Ready(Ok(me.n)) }
                me.buf.extend_from_slice(&t[..n]);
                me.n += n;
            }
        }
    }
    pub struct FillBuf<'a, R: ?Sized> { r: Option<&'a mut R> }
    impl<'a, R: AsyncBufRead + Unpin + ?Sized> Future for FillBuf<'a, R> {
        type Output = io::Result<&'a [u8]>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let me = self.get_mut();
            let r = me.r.take().expect("polled after completion");
            match Pin::new(&mut *r).poll_fill_buf(cx) {
                Poll::Pending => { me.r = Some(r); return Poll::Pending }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(s)) => {
                    // lifetime extension: the borrow really lasts for 'a (same trick as tokio)
                    let s: &'a [u8] = unsafe { std::slice::from_raw_parts(s.as_ptr(), s.len()) };
                    Poll::Ready(Ok(s))
                }
            }
        }
    }
    pub struct ReadUntil<'a, R: ?Sized> { r: &'a mut R, d: u8, buf: &'a mut Vec<u8>, n: usize }
    impl<'a, R: AsyncBufRead + Unpin + ?Sized> Future for ReadUntil<'a, R> {
        type Output = io::Result<usize>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let me = self.get_mut();
            loop {
                let (n0, dl) = (me.n, me.d);
                let (done, used) = {
                    let ReadUntil { r, buf, .. } = &mut *me;
                    let b = ready!(Pin::new(&mut **r).poll_fill_buf(cx))?;
                    if b.is_empty() { return Poll::Ready(Ok(n0)) }
                    match b.iter().position(|x| *x == dl) {
                        Some(i) => { buf.extend_from_slice(&b[..=i]); (true, i + 1) }
                        None => { buf.extend_from_slice(b); (false, b.len()) }
                    }
                };
                Pin::new(&mut *me.r).consume(used);
                me.n += used;
                if done { return Poll::Ready(Ok(me.n)) }
            }
        }
    }
    pub struct WriteAll<'a, W: ?Sized> { w: &'a mut W, buf: &'a [u8] }
    impl<'a, W: AsyncWrite + Unpin + ?Sized> Future for WriteAll<'a, W> {
        type Output = io::Result<()>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let me = self.get_mut();
            while !me.buf.is_empty() {
                let n = ready!(Pin::new(&mut *me.w).poll_write(cx, me.buf))?;
                if n == 0 { return Poll::Ready(Err(io::ErrorKind::WriteZero.into())) }
                me.buf = &me.buf[n..];
            }
            Poll::Ready(Ok(()))
        }
    }
    pub struct Flush<'a, W: ?Sized> { w: &'a mut W, shut: bool }
    impl<'a, W: AsyncWrite + Unpin + ?Sized> Future for Flush<'a, W> {
        type Output = io::Result<()>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let me = self.get_mut();
            if me.shut { Pin::new(&mut *me.w).poll_shutdown(cx) } else { Pin::new(&mut *me.w).poll_flush(cx) }
        }
    }
    pub trait AsyncReadExt: AsyncRead {
        fn read_exact<'a>(&'a mut self, buf: &'a mut [u8]) -> ReadExact<'a, Self> where Self: Unpin { ReadExact { r: self, buf, pos: 0 } }
        fn read_to_end<'a>(&'a mut self, buf: &'a mut Vec<u8>) -> ReadToEnd<'a, Self> where Self: Unpin { ReadToEnd { r: self, buf, n: 0 } }
        fn chain<N: AsyncRead>(self, next: N) -> Chain<Self, N> where Self: Sized { Chain { first: self, second: next, done: false } }
        fn read<'a>(&'a mut self, buf: &'a mut [u8]) -> ReadSome<'a, Self> where Self: Unpin { ReadSome { r: self, buf } }
        fn take(self, limit: u64) -> Take<Self> where Self: Sized { Take { inner: self, limit } }
    }
    impl<R: AsyncRead + ?Sized> AsyncReadExt for R {}
    pub trait AsyncBufReadExt: AsyncBufRead {
        fn fill_buf<'a>(&'a mut self) -> FillBuf<'a, Self> where Self: Unpin { FillBuf { r: Some(self) } }
        fn consume(&mut self, amt: usize) where Self: Unpin { Pin::new(self).consume(amt) }
        fn read_until<'a>(&'a mut self, d: u8, buf: &'a mut Vec<u8>) -> ReadUntil<'a, Self> where Self: Unpin { ReadUntil { r: self, d, buf, n: 0 } }
    }
    impl<R: AsyncBufRead + ?Sized> AsyncBufReadExt for R {}
    pub trait AsyncWriteExt: AsyncWrite {
        fn write_all<'a>(&'a mut self, buf: &'a [u8]) -> WriteAll<'a, Self> where Self: Unpin { WriteAll { w: self, buf } }
        fn flush<'a>(&'a mut self) -> Flush<'a, Self> where Self: Unpin { Flush { w: self, shut: false } }
        fn shutdown<'a>(&'a mut self) -> Flush<'a, Self> where Self: Unpin { Flush { w: self, shut: true } }
    }
    impl<W: AsyncWrite + ?Sized> AsyncWriteExt for W {}
}
