//! In-memory network. Reads return at most the chunk the harness allows; connections can be cut.
use crate::io::{AsyncRead, AsyncWrite, ReadBuf};
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

struct Pipe {
    buf: VecDeque<u8>,
    eof: bool,
    cut: bool,
    blocked: bool,
    rw: Option<Waker>,
    ww: Option<Waker>,
    chunk: Option<usize>,
    total: u64,
}
impl Pipe {
    fn new() -> Self {
        Pipe { buf: VecDeque::new(), eof: false, cut: false, blocked: false, rw: None, ww: None, chunk: None, total: 0 }
    }
    fn wake(&mut self) {
        if let Some(w) = self.rw.take() {
            w.wake();
        }
        if let Some(w) = self.ww.take() {
            w.wake();
        }
    }
}
struct PipeCell(UnsafeCell<Pipe>);
type P = Rc<PipeCell>;
fn p(x: &P) -> &mut Pipe {
    unsafe { &mut *x.0.get() }
}
pub struct Listener {
    addr: SocketAddr,
    q: VecDeque<(TcpStream, SocketAddr)>,
    w: Option<Waker>,
    open: bool,
}
pub struct NetState {
    ls: Vec<Listener>,
    next_port: u16,
    /// connection attempts: what the harness decides for an address with no listener
    pub connect_never: bool,
    pub attempts: Vec<SocketAddr>,
}
struct NetCell(UnsafeCell<NetState>);
unsafe impl Sync for NetCell {}
static NET: NetCell = NetCell(UnsafeCell::new(NetState { ls: Vec::new(), next_port: 40000, connect_never: false, attempts: Vec::new() }));
/// The simulated network (harness access).
pub fn vx_net() -> &'static mut NetState {
    unsafe { &mut *NET.0.get() }
}
fn local() -> SocketAddr {
    let n = vx_net();
    n.next_port += 1;
    SocketAddr::from(([127, 0, 0, 1], n.next_port))
}

pub trait ToSocketAddrs {
    fn vx_addr(&self) -> io::Result<SocketAddr>;
}
impl ToSocketAddrs for SocketAddr {
    fn vx_addr(&self) -> io::Result<SocketAddr> {
        Ok(*self)
    }
}
impl ToSocketAddrs for &str {
    fn vx_addr(&self) -> io::Result<SocketAddr> {
        self.parse().map_err(|_| io::Error::from(io::ErrorKind::InvalidInput))
    }
}
impl ToSocketAddrs for String {
    fn vx_addr(&self) -> io::Result<SocketAddr> {
        self.as_str().vx_addr()
    }
}
impl<I: Into<std::net::IpAddr> + Copy> ToSocketAddrs for (I, u16) {
    fn vx_addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr::new(self.0.into(), self.1))
    }
}
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
    fn vx_addr(&self) -> io::Result<SocketAddr> {
        (**self).vx_addr()
    }
}

pub struct TcpStream {
    r: P,
    w: P,
    me: SocketAddr,
    peer: SocketAddr,
}
unsafe impl Send for TcpStream {}
unsafe impl Sync for TcpStream {}
impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TcpStream")
    }
}
/// A connected pair of streams.
pub fn vx_pair() -> (TcpStream, TcpStream) {
    let (a, b) = (Rc::new(PipeCell(UnsafeCell::new(Pipe::new()))), Rc::new(PipeCell(UnsafeCell::new(Pipe::new()))));
    let (x, y) = (local(), local());
    (TcpStream { r: a.clone(), w: b.clone(), me: x, peer: y }, TcpStream { r: b, w: a, me: y, peer: x })
}
impl TcpStream {
    pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let addr = addr.vx_addr()?;
        vxrt::yield_point("connect");
        let n = vx_net();
        n.attempts.push(addr);
        if let Some(l) = n.ls.iter_mut().find(|l| l.open && l.addr == addr) {
            let (a, mut b) = vx_pair();
            b.me = addr;
            let from = a.me;
            l.q.push_back((b, from));
            if let Some(w) = l.w.take() {
                w.wake();
            }
            return Ok(a);
        }
        if n.connect_never {
            std::future::pending::<()>().await;
        }
        Err(io::Error::from(io::ErrorKind::ConnectionRefused))
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.peer)
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.me)
    }
    /// Bytes the other side wrote and we have not read.
    pub fn vx_pending(&self) -> usize {
        p(&self.r).buf.len()
    }
    /// The other side closed its end.
    pub fn vx_closed(&self) -> bool {
        p(&self.r).eof || p(&self.r).cut
    }
    /// Limits how many bytes one read of the peer returns.
    pub fn vx_chunk(&self, n: Option<usize>) {
        p(&self.w).chunk = n;
    }
    /// Fails every later operation on both ends.
    pub fn vx_cut(&self) {
        for x in [&self.r, &self.w] {
            p(x).cut = true;
            p(x).wake();
        }
    }
    /// Writes from the peer no longer complete (full socket buffers).
    pub fn vx_block(&self, on: bool) {
        p(&self.r).blocked = on;
        if !on {
            p(&self.r).wake();
        }
    }
    pub fn vx_write(&self, b: &[u8]) {
        let q = p(&self.w);
        q.buf.extend(b.iter().copied());
        q.wake();
    }
    pub fn vx_take(&self) -> Vec<u8> {
        p(&self.r).buf.drain(..).collect()
    }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        let s = std::sync::Arc::new(self);
        (tcp::OwnedReadHalf(s.clone()), tcp::OwnedWriteHalf(s))
    }
    fn do_read(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let q = p(&self.r);
        if q.cut {
            return Poll::Ready(Err(io::Error::from(io::ErrorKind::ConnectionReset)));
        }
        if q.buf.is_empty() {
            if q.eof {
                return Poll::Ready(Ok(()));
            }
            q.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = q.buf.len().min(buf.remaining());
        if let Some(c) = q.chunk {
            n = n.min(c.max(1));
        }
        for _ in 0..n {
            let b = q.buf.pop_front().unwrap();
            buf.put_slice(&[b]);
        }
        q.total += n as u64;
        Poll::Ready(Ok(()))
    }
    fn do_write(&self, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let q = p(&self.w);
        if q.cut {
            return Poll::Ready(Err(io::Error::from(io::ErrorKind::BrokenPipe)));
        }
        if q.eof {
            return Poll::Ready(Err(io::Error::from(io::ErrorKind::BrokenPipe)));
        }
        if q.blocked {
            q.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        q.buf.extend(b.iter().copied());
        if let Some(w) = q.rw.take() {
            w.wake();
        }
        Poll::Ready(Ok(b.len()))
    }
}
impl Drop for TcpStream {
    fn drop(&mut self) {
        // our writer is gone; what we have not read is lost
        p(&self.w).eof = true;
        p(&self.w).wake();
        p(&self.r).eof = true;
        p(&self.r).wake();
    }
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.do_read(cx, buf)
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        self.do_write(cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        p(&self.w).eof = true;
        p(&self.w).wake();
        Poll::Ready(Ok(()))
    }
}
pub mod tcp {
    use super::*;
    pub struct OwnedReadHalf(pub(super) std::sync::Arc<TcpStream>);
    pub struct OwnedWriteHalf(pub(super) std::sync::Arc<TcpStream>);
    impl AsyncRead for OwnedReadHalf {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            self.0.do_read(cx, buf)
        }
    }
    impl AsyncWrite for OwnedWriteHalf {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            self.0.do_write(cx, b)
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            p(&self.0.w).eof = true;
            p(&self.0.w).wake();
            Poll::Ready(Ok(()))
        }
    }
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            p(&self.0.w).eof = true;
            p(&self.0.w).wake();
        }
    }
}

pub struct TcpListener {
    i: usize,
}
impl std::fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TcpListener")
    }
}
impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let addr = addr.vx_addr()?;
        let n = vx_net();
        if n.ls.iter().any(|l| l.open && l.addr == addr) {
            return Err(io::Error::from(io::ErrorKind::AddrInUse));
        }
        n.ls.push(Listener { addr, q: VecDeque::new(), w: None, open: true });
        Ok(TcpListener { i: n.ls.len() - 1 })
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        std::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        let l = &mut vx_net().ls[self.i];
        match l.q.pop_front() {
            Some(x) => Poll::Ready(Ok(x)),
            None => {
                l.w = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(vx_net().ls[self.i].addr)
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        let l = &mut vx_net().ls[self.i];
        l.open = false;
        l.q.clear();
    }
}
