//! The other side of a node connection: peers speak the wire protocol over the simulated network.
use crate::frames::{reason, same};
use crate::util::*;
use bytes::BytesMut;
use hydra::verif::*;
use serde::{Deserialize, Serialize};
use std::net::SocketAddr;
use std::num::NonZeroU64;
use std::task::{Context, Poll, Waker};
use tokio::net::{vx_net, TcpListener, TcpStream};
use tokio_util::codec::{Decoder, Encoder};

pub const ME: &str = "me";
/// Where the local node listens by default.
pub fn me() -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], 1337))
}
pub fn port(p: u16) -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], p))
}
pub fn encode(f: Frame) -> Vec<u8> {
    let mut b = BytesMut::new();
    check(Codec::new().encode(f, &mut b).is_ok(), "every frame can be encoded");
    b.to_vec()
}
pub fn payload<T: Serialize>(v: &T) -> Vec<u8> {
    rmp_serde::to_vec_named(v).unwrap()
}

/// The wire form of pids and references.
#[derive(Serialize, Deserialize, Clone, PartialEq)]
pub enum Wire {
    WithNode(NonZeroU64, String, SocketAddr),
    NodeUnavailable(NonZeroU64),
    Local(NonZeroU64),
}

pub struct Peer {
    pub name: String,
    pub addr: SocketAddr,
    listener: Option<TcpListener>,
    pub sock: Option<TcpStream>,
    rx: BytesMut,
    /// Connections the local node opened to this peer.
    pub accepted: usize,
    /// Hello frames received.
    pub hellos: Vec<Hello>,
}
impl Peer {
    /// A peer that does not listen.
    pub fn new(name: &str, p: u16) -> Peer {
        Peer { name: name.to_string(), addr: port(p), listener: None, sock: None, rx: BytesMut::new(), accepted: 0, hellos: vec![] }
    }
    pub async fn listening(name: &str, p: u16) -> Peer {
        let mut s = Peer::new(name, p);
        s.listener = Some(TcpListener::bind(s.addr).await.unwrap());
        s
    }
    pub fn node(&self) -> Node {
        Node::from((self.name.as_str(), self.addr))
    }
    /// The peer's process `id` as seen by the local node.
    pub fn pid(&self, id: u64) -> Pid {
        rmp_serde::from_slice(&payload(&Wire::WithNode(NonZeroU64::new(id).unwrap(), self.name.clone(), self.addr))).unwrap()
    }
    pub fn reference(&self, id: u64) -> Reference {
        rmp_serde::from_slice(&payload(&Wire::WithNode(NonZeroU64::new(id).unwrap(), self.name.clone(), self.addr))).unwrap()
    }
    pub fn hello(&self) -> Frame {
        Frame::Hello(Hello::new(self.name.clone(), self.addr))
    }
    /// Opens a connection to the local node (replacing the one at hand), which accepts it and says hello.
    pub async fn dial(&mut self, to: SocketAddr) -> bool {
        let s = TcpStream::connect(to).await;
        self.rx.clear();
        self.hellos.clear();
        match s {
            Ok(s) => {
                self.sock = Some(s);
                quiesce().await;
                true
            }
            Err(_) => false,
        }
    }
    /// Takes the connection the local node opened, if it did.
    pub fn accept(&mut self) -> bool {
        let Some(l) = &self.listener else { return false };
        match l.poll_accept(&mut Context::from_waker(Waker::noop())) {
            Poll::Ready(Ok((s, _))) => {
                self.accepted += 1;
                self.hellos.clear();
                self.rx.clear();
                self.sock = Some(s);
                true
            }
            _ => false,
        }
    }
    pub fn put(&self, f: Frame) {
        self.sock.as_ref().unwrap().vx_write(&encode(f));
    }
    pub fn put_all(&self, v: Vec<Frame>) {
        let mut b = vec![];
        for f in v {
            b.extend_from_slice(&encode(f));
        }
        self.sock.as_ref().unwrap().vx_write(&b);
    }
    /// Everything the local node sent.
    pub fn all(&mut self) -> Vec<Frame> {
        let Some(s) = &self.sock else { return vec![] };
        self.rx.extend_from_slice(&s.vx_take());
        let mut v = vec![];
        loop {
            match Codec::new().decode(&mut self.rx) {
                Ok(Some(f)) => v.push(f),
                Ok(None) => return v,
                Err(_) => fail("the local node sent a malformed frame"),
            }
        }
    }
    /// Everything but hello, ping and pong.
    pub fn got(&mut self) -> Vec<Frame> {
        let v = self.all();
        let mut r = vec![];
        for f in v {
            match f {
                Frame::Ping | Frame::Pong => {}
                Frame::Hello(h) => self.hellos.push(h),
                f => r.push(f),
            }
        }
        r
    }
    /// The connection the local node opened or accepted is closed (or there is none).
    pub fn closed(&self) -> bool {
        self.sock.as_ref().map(|s| s.vx_closed()).unwrap_or(true)
    }
    pub fn close(&mut self) {
        self.sock = None;
        self.rx.clear();
    }
    /// Completes the handshake of a connection this peer opened.
    pub async fn join(&mut self) {
        check(self.join_with().await.is_empty(), "the local node only says hello");
    }
    /// The same; returns what was waiting for the connection.
    pub async fn join_with(&mut self) -> Vec<Frame> {
        check(self.dial(me()).await, "the local node listens");
        self.put(self.hello());
        quiesce().await;
        check(state(&self.node()) == Some(NodeState::Connected), "a peer that proves name and cookie is connected");
        let v = self.got();
        check(self.hellos.len() == 1, "the local node says hello");
        self.hellos.clear();
        v
    }
    /// Answers a connection the local node opens.
    pub async fn answer(&mut self) {
        quiesce().await;
        check(self.accept(), "the node is dialled");
        self.put(self.hello());
        quiesce().await;
        check(state(&self.node()) == Some(NodeState::Connected), "a node that proves to be the one dialled is connected");
    }
    pub fn send_pid(&self, id: u64, v: Vec<u8>) {
        self.put(Frame::Send(Send::with_pid(NonZeroU64::new(id).unwrap(), v)));
    }
}
pub fn state(n: &Node) -> Option<NodeState> {
    let mut r = None;
    for s in [NodeState::Current, NodeState::Known, NodeState::Connected, NodeState::Pending] {
        let k = Node::list_by_state(s).iter().filter(|x| *x == n).count();
        check(k <= 1, "a node is listed once");
        if k == 1 {
            check(r.is_none(), "a node has one state");
            r = Some(s);
        }
    }
    r
}
pub async fn start() {
    Node::start(ME, NodeOptions::new());
    quiesce().await;
}

/// Reads everything that arrives on `s`, with the time of arrival; None is the end of the stream.
pub fn watch(s: TcpStream) -> Rec<(u64, Option<Frame>)> {
    use tokio::io::{AsyncRead, ReadBuf};
    let log = Rec::new();
    let l = log.clone();
    tokio::spawn(async move {
        let mut s = s;
        let mut rx = BytesMut::new();
        loop {
            let mut b = [0u8; 256];
            let mut r = ReadBuf::new(&mut b);
            let ok = std::future::poll_fn(|cx| std::pin::Pin::new(&mut s).poll_read(cx, &mut r)).await.is_ok();
            if !ok || r.filled().is_empty() {
                l.push((now(), None));
                std::future::pending::<()>().await;
            }
            rx.extend_from_slice(r.filled());
            while let Ok(Some(f)) = Codec::new().decode(&mut rx) {
                l.push((now(), Some(f)));
            }
        }
    });
    log
}
