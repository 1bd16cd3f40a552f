//! P26: websocket servers.
use crate::agent::*;
use crate::util::*;
use hydra_websockets::*;
use std::cell::UnsafeCell;
use std::net::SocketAddr;
use tokio::net::TcpStream;

/// What a callback answered.
#[derive(Clone, Copy, PartialEq)]
enum Re {
    Nothing,
    One(u8),
    Two(u8, u8),
    SendClose(u8, u8),
    Close,
    Stop,
}
#[derive(Clone, PartialEq)]
enum What {
    Init,
    /// Opcode and payload.
    Msg(u8, Vec<u8>),
    Info(u8),
    System,
    Terminate(ExitReason),
}
struct Ev {
    conn: u8,
    what: What,
    re: Re,
}
struct G {
    log: Vec<Ev>,
    pids: Vec<(u8, Pid)>,
    /// Which answers callbacks may give.
    kinds: usize,
    /// 0 accept, 1 refuse, 2 panic
    accept: [u8; 4],
    accepted: Vec<u8>,
    panic_on: Option<u8>,
    /// Messages are sent back.
    echo: bool,
}
struct GC(UnsafeCell<G>);
unsafe impl Sync for GC {}
static GLOBAL: GC = GC(UnsafeCell::new(G { log: Vec::new(), pids: Vec::new(), kinds: 1, accept: [0; 4], accepted: Vec::new(), panic_on: None, echo: false }));
fn g() -> &'static mut G {
    unsafe { &mut *GLOBAL.0.get() }
}

struct H(u8);
const WHY: &str = "enough";
fn answer(conn: u8, what: What) -> Result<Option<WebsocketCommands>, ExitReason> {
    let re = match pick(g().kinds, "answer") {
        0 => Re::Nothing,
        1 => Re::One(sym_u8("out")),
        2 => Re::Stop,
        3 => Re::Close,
        4 => Re::SendClose(sym_u8("out"), sym_u8("out")),
        _ => Re::Two(sym_u8("out"), sym_u8("out")),
    };
    g().log.push(Ev { conn, what, re });
    let bin = |b: u8| WebsocketMessage::Binary(vec![b].into());
    Ok(match re {
        Re::Nothing => None,
        Re::One(a) => Some(WebsocketCommands::with_send(bin(a))),
        Re::Two(a, b) => {
            let mut c = WebsocketCommands::new();
            c.send(bin(a));
            c.send(bin(b));
            Some(c)
        }
        Re::SendClose(a, b) => {
            let mut c = WebsocketCommands::with_send(bin(a));
            c.close(CloseCode::Away, "bye");
            c.send(bin(b));
            Some(c)
        }
        Re::Close => Some(WebsocketCommands::with_close(CloseCode::Away, "bye")),
        Re::Stop => return Err(ExitReason::from(WHY)),
    })
}
impl WebsocketHandler for H {
    type Message = u8;
    fn accept(_: SocketAddr, request: &WebsocketRequest, response: WebsocketResponse) -> Result<(WebsocketResponse, Self), ExitReason> {
        let c = request.uri().path().as_bytes()[1] - b'0';
        g().accepted.push(c);
        match g().accept[c as usize] {
            0 => Ok((response, H(c))),
            1 => Err(ExitReason::from("no")),
            _ => panic!("no"),
        }
    }
    async fn websocket_init(&mut self) -> Result<Option<WebsocketCommands>, ExitReason> {
        g().pids.push((self.0, Process::current()));
        // time to install monitors
        Process::sleep(Duration::from_secs(1)).await;
        answer(self.0, What::Init)
    }
    async fn websocket_handle(&mut self, m: WebsocketMessage) -> Result<Option<WebsocketCommands>, ExitReason> {
        let op = match &m {
            WebsocketMessage::Text(_) => 1,
            WebsocketMessage::Binary(_) => 2,
            WebsocketMessage::Close(_) => 8,
            WebsocketMessage::Ping(_) => 9,
            WebsocketMessage::Pong(_) => 10,
            WebsocketMessage::Frame(_) => 99,
        };
        let data = match m {
            WebsocketMessage::Close(c) => c.map(|c| c.reason.as_bytes().to_vec()).unwrap_or_default(),
            m => m.into_data().to_vec(),
        };
        if g().echo {
            let c = WebsocketCommands::with_send(WebsocketMessage::Binary(data.clone().into()));
            g().log.push(Ev { conn: self.0, what: What::Msg(op, data), re: Re::Nothing });
            return Ok(Some(c));
        }
        if g().panic_on == Some(self.0) {
            panic!("no");
        }
        answer(self.0, What::Msg(op, data))
    }
    async fn websocket_info(&mut self, m: Message<u8>) -> Result<Option<WebsocketCommands>, ExitReason> {
        answer(
            self.0,
            match m {
                Message::User(n) => What::Info(n),
                Message::System(_) => What::System,
            },
        )
    }
    async fn terminate(&mut self, r: ExitReason) {
        g().log.push(Ev { conn: self.0, what: What::Terminate(r), re: Re::Nothing });
    }
}

fn request(n: u8) -> Vec<u8> {
    format!("GET /{n} HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n").into_bytes()
}
fn starts(b: &[u8], s: &str) -> bool {
    b.len() >= s.len() && &b[..s.len()] == s.as_bytes()
}
/// A client frame; the whole first byte is given.
fn frame(first: u8, data: &[u8], mask: u8) -> Vec<u8> {
    let n = data.len();
    let mut v = match n {
        0..126 => vec![first, 0x80 | n as u8],
        126..0x10000 => vec![first, 0xfe, (n >> 8) as u8, n as u8],
        _ => vec![first, 0xff, 0, 0, 0, 0, (n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8],
    };
    v.extend([mask; 4]);
    v.extend(data.iter().map(|b| b ^ mask));
    v
}
fn addr() -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], 4000))
}
struct Client {
    sock: Option<TcpStream>,
    got: Vec<u8>,
}
impl Client {
    async fn open() -> Client {
        let sock = TcpStream::connect(addr()).await.ok();
        check(sock.is_some(), "the server listens");
        Client { sock, got: vec![] }
    }
    fn put(&self, b: &[u8]) {
        self.sock.as_ref().unwrap().vx_write(b);
    }
    /// Reads the response to the handshake; true if the connection was upgraded.
    fn upgraded(&mut self) -> bool {
        self.take();
        let Some(e) = self.got.windows(4).position(|w| w == b"\r\n\r\n") else { return false };
        let ok = starts(&self.got, "HTTP/1.1 101");
        self.got.drain(..e + 4);
        ok
    }
    fn take(&mut self) {
        if let Some(s) = &self.sock {
            self.got.extend(s.vx_take());
        }
    }
    fn closed(&self) -> bool {
        self.sock.as_ref().map(|s| s.vx_closed()).unwrap_or(true)
    }
    /// Complete frames received so far: opcode and payload.
    fn frames(&mut self) -> Vec<(u8, Vec<u8>)> {
        self.take();
        let mut v = vec![];
        let mut b = &self.got[..];
        while b.len() >= 2 {
            let (h, n) = match b[1] & 0x7f {
                126 => (4, (b[2] as usize) << 8 | b[3] as usize),
                127 => (10, (b[7] as usize) << 16 | (b[8] as usize) << 8 | b[9] as usize),
                n => (2, n as usize),
            };
            check(b[0] & 0xf0 == 0x80 && b[1] & 0x80 == 0 && b.len() >= h + n, "whole server frames, not masked");
            v.push((b[0] & 15, b[h..h + n].to_vec()));
            b = &b[h + n..];
        }
        v
    }
}
async fn server(config: WebsocketServerConfig) -> (Agent, Pid) {
    let a = Agent::new(true).await;
    let r = Rec::new();
    let q = r.clone();
    a.start(async move { q.push(WebsocketServer::<H>::start_link(WebsocketServer::new(config), GenServerOptions::new()).await) });
    quiesce().await;
    check(r.len() == 1 && r.get()[0].is_ok(), "the server starts");
    let p = *r.get()[0].as_ref().unwrap();
    (a, p)
}
fn calls(conn: u8) -> Vec<&'static Ev> {
    g().log.iter().filter(|e| e.conn == conn).collect()
}
fn last_one(conn: u8) -> Option<Pid> {
    g().pids.iter().find(|x| x.0 == conn).map(|x| x.1)
}

/// What a client does.
enum Do {
    /// Bytes; what the handler shall see of them; whether nothing can follow.
    Send(Vec<u8>, Option<What>, bool),
    Info(u8),
    Eof,
    Cut,
}
const DOES: usize = 13;
fn any_do(i: usize) -> Do {
    let mask = sym_u8("mask");
    let b = sym_u8("in");
    let msg = |op: u8, v: Vec<u8>| Some(What::Msg(op, v));
    match i {
        0 => {
            assume(b < 0x80);
            Do::Send(frame(0x81, &[b], mask), msg(1, vec![b]), false)
        }
        1 => Do::Send(frame(0x82, &[b], mask), msg(2, vec![b]), false),
        2 => Do::Send(frame(0x89, &[b], mask), msg(9, vec![b]), false),
        3 => Do::Send(frame(0x8a, &[b], mask), msg(10, vec![b]), false),
        4 => Do::Send(frame(0x88, &[], mask), msg(8, vec![]), true),
        5 => {
            assume(b < 0x80);
            Do::Send(frame(0x88, &[0x03, 0xe8, b], mask), msg(8, vec![b]), true)
        }
        6 => Do::Info(b),
        7 => Do::Eof,
        8 => {
            // two fragments and a ping in between
            assume(b < 0x80);
            let mut v = frame(0x01, &[b], mask);
            v.extend(frame(0x80, &[b'!'], mask));
            Do::Send(v, msg(1, vec![b, b'!']), false)
        }
        9 => Do::Send(frame(0x81, &[0xff, b], mask), None, true),
        10 => Do::Send(frame(0x83, &[b], mask), None, true),
        11 => Do::Send(vec![0x82, 1, b], None, true),
        _ => Do::Cut,
    }
}

harness! {
    // One connection: every way to talk, answers of every kind, every end.
    fn p26_handler() {
        block_on(async {
            let n = param(0) as usize;
            let doers = param(2) as usize;
            let (srv, pid0) = server(WebsocketServerConfig::new(addr())).await;
            let w = Agent::new(true).await;
            g().kinds = param(1) as usize;
            let mut c = Client::open().await;
            c.put(&request(1));
            quiesce().await;
            check(c.upgraded(), "a proper request is accepted");
            check(g().accepted == [1], "asked once");
            let pid = last_one(1);
            check(pid.is_some(), "the handler is initialised");
            let pid = pid.unwrap();
            w.run(move || { Process::monitor(pid); }).await;
            Process::sleep(Duration::from_secs(2)).await;
            quiesce().await;
            // what shall happen
            let mut want = vec![What::Init];
            let mut dead = !Process::alive(pid);
            if !dead {
                let batch = flip("batch");
                let mut all = vec![];
                let mut over = false;
                for _ in 0..n {
                    let i = pick(doers, "does");
                    let d = any_do(i);
                    match d {
                        Do::Send(b, see, end) => {
                            if batch { all.extend(b) } else { c.put(&b) }
                            want.extend(see);
                            over |= end;
                        }
                        Do::Info(b) => {
                            if batch { vxrt::end() }
                            Process::send(pid, b);
                            want.push(What::Info(b));
                        }
                        Do::Eof => {
                            if batch { vxrt::end() }
                            c.take();
                            c.sock = None;
                            over = true;
                        }
                        Do::Cut => {
                            if batch { vxrt::end() }
                            c.take();
                            c.sock.as_ref().unwrap().vx_cut();
                            over = true;
                        }
                    }
                    if !batch {
                        quiesce().await;
                    }
                    cover(i as u32);
                    if over {
                        break;
                    }
                    if !batch && !Process::alive(pid) {
                        dead = true;
                        break;
                    }
                }
                if batch {
                    if n > 1 && flip("cut in two") {
                        // two reads, anywhere
                        let k = pick(all.len(), "first part");
                        c.put(&all[..k]);
                        quiesce().await;
                        c.put(&all[k..]);
                    } else {
                        c.put(&all);
                    }
                    quiesce().await;
                }
                dead = over;
            }
            quiesce().await;
            let log = calls(1);
            // the callbacks, up to the one that ends it
            let mut out: Vec<(u8, Vec<u8>)> = vec![];
            let mut ended = false;
            let mut closing = false;
            let mut i = 0;
            for x in &want {
                if ended {
                    break;
                }
                check(i < log.len() && log[i].what == *x, "the handler sees every message, in order");
                let peer_closed = matches!(x, What::Msg(8, _));
                if let What::Msg(9, d) = x {
                    out.push((10, d.clone()));
                }
                let bye = || (8u8, vec![3, 0xe9, b'b', b'y', b'e']);
                let before = out.len();
                match log[i].re {
                    Re::Nothing => {}
                    Re::One(a) => out.push((2, vec![a])),
                    Re::Two(a, b) => out.extend([(2, vec![a]), (2, vec![b])]),
                    Re::SendClose(a, _) => {
                        out.push((2, vec![a]));
                        out.push(bye());
                        ended = true;
                    }
                    Re::Close => {
                        out.push(bye());
                        ended = true;
                    }
                    Re::Stop => ended = true,
                }
                if peer_closed {
                    ended = true;
                    closing = true;
                    // nothing can be sent after the peer closed
                    out.truncate(before);
                }
                i += 1;
            }
            let ended = ended || dead;
            if ended {
                check(!Process::alive(pid), "the handler process ends with its connection");
                check(log.len() == i + 1, "one terminate call follows the last message, and nothing else");
                let What::Terminate(r) = &log[i].what else { fail("terminate is called") };
                let downs = w.downs();
                check(downs.len() == 1 && downs[0].2 == *r, "monitors get the reason terminate got");
                if log[i - 1].re == Re::Stop && !closing {
                    check(*r == ExitReason::from(WHY), "the reason given");
                    cover(20);
                }
                if c.sock.is_some() {
                    check(c.closed(), "the connection is closed");
                }
                cover(21);
            } else {
                check(Process::alive(pid) && log.len() == i && !c.closed(), "the handler lives on");
                cover(22);
            }
            // what the client got
            let got = c.frames();
            if closing {
                check(got.len() == out.len() + 1, "the close is answered");
                let (op, d) = &got[got.len() - 1];
                check(*op == 8 && d.len() < 4, "the close is answered with a close");
                cover(23);
                check(got[..out.len()] == out[..], "the commands are sent in order");
            } else {
                check(got == out, "the commands are sent in order, a ping is answered once");
            }
            check(Process::alive(pid0), "the server is not affected");
        });
    }

    // One connection works on while others fail in every way; later ones are served.
    fn p26_others() {
        block_on(async {
            let limit = sym_secs("timeout");
            assume(limit.as_secs() > 2 && limit.as_secs() < 1 << 30);
            let timed = flip("timed");
            let config = WebsocketServerConfig::new(addr());
            let (srv, pid0) = server(if timed { config.handshake_timeout(limit) } else { config }).await;
            let mut one = Client::open().await;
            one.put(&request(1));
            Process::sleep(Duration::from_secs(2)).await;
            check(one.upgraded(), "the first client is accepted");
            let kind = pick(9, "kind");
            let mut two = Client::open().await;
            match kind {
                0 => two.put(b"nonsense\r\n\r\n"),
                1 => {
                    g().accept[2] = 1;
                    two.put(&request(2));
                }
                2 => {
                    g().accept[2] = 2;
                    two.put(&request(2));
                }
                3 => two.put(b"GET /2 HTTP/1.1\r\nHost: x\r\n\r\n"),
                4 => {
                    two.put(b"GET /2 HTTP/1.1\r\nHo");
                    quiesce().await;
                    two.sock = None;
                }
                5 => {
                    g().panic_on = Some(2);
                    two.put(&request(2));
                    Process::sleep(Duration::from_secs(2)).await;
                    check(two.upgraded(), "the second client is accepted");
                    two.put(&frame(0x82, &[1], 0));
                }
                6 => two.put(b"POST /2 HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"),
                7 => {
                    let k = pick(3, "how much");
                    let all = request(2);
                    two.put(&all[..[0, 1, all.len() - 1][k]]);
                }
                _ => {
                    two.put(&request(2)[..9]);
                    quiesce().await;
                    two.sock.as_ref().unwrap().vx_cut();
                }
            }
            quiesce().await;
            cover(kind as u32);
            let mut late = Duration::from_secs(0);
            if kind == 7 {
                check(!two.closed(), "a slow client is waited for");
                if timed {
                    let d = sym_secs("wait");
                    assume(d < limit * 2 && d != limit);
                    Process::sleep(d).await;
                    quiesce().await;
                    late = d;
                    if d > limit {
                        check(two.closed(), "the handshake timeout closes the connection");
                        check(last_one(2).is_none(), "no handler starts after the timeout");
                        cover(10);
                    } else {
                        check(!two.closed(), "a slow client is waited for until the timeout");
                        cover(11);
                    }
                } else {
                    Process::sleep(Duration::from_secs(1 << 30)).await;
                    quiesce().await;
                    check(!two.closed(), "without a timeout the server waits");
                    cover(12);
                }
            } else {
                check(two.sock.is_none() || two.closed(), "the failed connection is closed");
                if kind == 1 {
                    two.take();
                    check(starts(&two.got, "HTTP/1.1 4") || starts(&two.got, "HTTP/1.1 5"), "a client that is refused is told so");
                }
                check(kind == 5 || last_one(2).is_none(), "no handler starts for a failed handshake");
            }
            let _ = late;
            let mut three = Client::open().await;
            three.put(&request(3));
            Process::sleep(Duration::from_secs(2)).await;
            quiesce().await;
            check(three.upgraded(), "a later client is accepted");
            g().panic_on = None;
            g().kinds = 2;
            for (c, n) in [(&mut one, 1), (&mut three, 3)] {
                let x = sym_u8("in");
                c.put(&frame(0x82, &[x], 7));
                quiesce().await;
                let log = calls(n);
                check(log.len() == 2 && log[1].what == What::Msg(2, vec![x]), "the other handlers get their messages only");
                let got = c.frames();
                check(
                    match log[1].re {
                        Re::One(a) => got == [(2, vec![a])],
                        _ => got.is_empty(),
                    },
                    "the other clients get their answers only",
                );
                check(!c.closed() && last_one(n).map(Process::alive) == Some(true), "the others live on");
            }
            check(calls(2).len() <= 1, "nothing reaches the failed one");
            check(Process::alive(pid0), "the server lives on");
            if kind == 7 && (!timed || late < limit) {
                check(two.closed() == (timed && late + Duration::from_secs(2) > limit) || late + Duration::from_secs(2) == limit, "the timeout is kept");
            }
        });
    }

    // Messages of processes and of the client at the same time, and signals.
    fn p26_race() {
        block_on(async {
            let (srv, pid0) = server(WebsocketServerConfig::new(addr())).await;
            let a = Agent::new(true).await;
            let b = Agent::new(true).await;
            let mut c = Client::open().await;
            c.put(&request(1));
            quiesce().await;
            check(c.upgraded(), "a proper request is accepted");
            Process::sleep(Duration::from_secs(2)).await;
            let pid = last_one(1).unwrap();
            b.run(move || { Process::monitor(pid); }).await;
            g().kinds = 2;
            let (x, y) = ([sym_u8("info"), sym_u8("info")], [sym_u8("in"), sym_u8("in")]);
            let end = pick(4, "end");
            budget(param(0) as u32, param(1) as u32);
            a.tell(move || {
                for x in x {
                    Process::send(pid, x);
                }
            });
            match end {
                1 => a.tell(move || Process::exit(pid, ExitReason::Kill)),
                2 => b.tell(move || Process::exit(pid, ExitReason::from("go"))),
                _ => {}
            }
            for y in y {
                c.put(&frame(0x82, &[y], 0));
            }
            if end == 3 {
                c.put(&frame(0x88, &[], 0));
            }
            quiesce().await;
            let log = calls(1);
            let infos: Vec<&What> = log.iter().map(|e| &e.what).filter(|w| matches!(w, What::Info(_))).collect();
            let msgs: Vec<&What> = log.iter().map(|e| &e.what).filter(|w| matches!(w, What::Msg(2, _))).collect();
            for (i, w) in infos.iter().enumerate() {
                check(i < 2 && **w == What::Info(x[i]), "the messages of a process arrive once and in order");
            }
            for (i, w) in msgs.iter().enumerate() {
                check(i < 2 && **w == What::Msg(2, vec![y[i]]), "the messages of the client arrive once and in order");
            }
            let got: Vec<_> = c.frames();
            let want: Vec<_> = log.iter().filter_map(|e| if let Re::One(z) = e.re { if e.what == What::Msg(8, vec![]) { None } else { Some((2u8, vec![z])) } } else { None }).collect();
            match end {
                0 => {
                    check(infos.len() == 2 && msgs.len() == 2 && log.len() == 5, "every message is handled");
                    check(got == want, "the commands are sent in order");
                    cover(0);
                }
                1 | 2 => {
                    check(!Process::alive(pid) && c.closed(), "a signal ends the handler and its connection");
                    check(got.len() <= want.len() && got[..] == want[..got.len()], "the commands are sent in order until the end");
                    let d = b.downs();
                    check(d.len() == 1 && d[0].2 == if end == 1 { ExitReason::Kill } else { ExitReason::from("go") }, "the reason of the signal");
                    cover(end as u32);
                }
                _ => {
                    check(msgs.len() == 2, "every message before the close is handled");
                    check(!Process::alive(pid) && c.closed(), "the close ends the handler");
                    check(log.iter().filter(|e| matches!(e.what, What::Terminate(_))).count() == 1 && matches!(log[log.len() - 1].what, What::Terminate(_)), "terminate is called once, at last");
                    check(log.iter().filter(|e| matches!(e.what, What::Msg(8, _))).count() == 1, "the close is seen once");
                    check(got.len() == want.len() + 1 && got[..want.len()] == want[..] && got[want.len()].0 == 8, "the commands are sent in order, then the close");
                    cover(3);
                }
            }
            check(Process::alive(pid0), "the server lives on");
        });
    }

    // Limits of messages and frames.
    fn p26_limits() {
        block_on(async {
            let lim = |name: &str| {
                if flip("limited") {
                    Some(conc(sym_below(4, name)) as usize)
                } else {
                    None
                }
            };
            let (m, f) = (lim("message"), lim("frame"));
            let config = WebsocketServerConfig::new(addr());
            let config = if flip("order") { config.max_message_size(m).max_frame_size(f) } else { config.max_frame_size(f).max_message_size(m) };
            let config = config.clone();
            server(config).await;
            let mut c = Client::open().await;
            c.put(&request(1));
            Process::sleep(Duration::from_secs(2)).await;
            quiesce().await;
            check(c.upgraded(), "a proper request is accepted");
            let (a, b) = (pick(4, "a"), pick(4, "b"));
            let x = sym_bytes(a, "x");
            let mut all = x.clone();
            let mut fits = f.map(|f| a <= f).unwrap_or(true);
            if flip("fragments") {
                let y = sym_bytes(b, "y");
                c.put(&frame(0x02, &x, 0));
                c.put(&frame(0x80, &y, 0));
                all.extend(y);
                fits &= f.map(|f| b <= f).unwrap_or(true);
                cover(2);
            } else {
                c.put(&frame(0x82, &x, 0));
            }
            fits &= m.map(|m| all.len() <= m).unwrap_or(true);
            quiesce().await;
            let log = calls(1);
            let pid = last_one(1).unwrap();
            check(log.len() == 2 && Process::alive(pid) == fits && c.closed() != fits, "only what exceeds a limit ends the connection");
            check(if fits { log[1].what == What::Msg(2, all) } else { matches!(log[1].what, What::Terminate(_)) }, "the message, or the end");
            cover(fits as u32);
        });
    }

    // Starting and stopping servers.
    fn p26_server() {
        block_on(async {
            let w = Agent::new(true).await;
            let (srv, pid0) = server(WebsocketServerConfig::new(addr())).await;
            let r = Rec::new();
            let q = r.clone();
            w.start(async move { q.push(WebsocketServer::<H>::start_link(WebsocketServer::new(WebsocketServerConfig::new(addr())), GenServerOptions::new()).await) });
            quiesce().await;
            check(r.len() == 1 && matches!(&r.get()[0], Err(ExitReason::Custom(s)) if s.as_str() == "address_in_use"), "an address serves once");
            let mut c = Client::open().await;
            c.put(&request(1));
            Process::sleep(Duration::from_secs(2)).await;
            quiesce().await;
            check(c.upgraded(), "the first server is not affected");
            let p = if flip("server itself") { pid0 } else { srv.pid };
            let kind = pick(4, "end");
            match kind {
                0 => w.tell(move || Process::exit(p, ExitReason::Kill)),
                1 => srv.stop(),
                2 => srv.tell(|| panic!("boom")),
                _ => srv.tell(move || Process::exit(p, ExitReason::Kill)),
            }
            quiesce().await;
            cover(kind as u32);
            check(TcpStream::connect(addr()).await.is_err(), "a server that ended does not listen");
            // again
            w.start(async move { let _ = WebsocketServer::<H>::start_link(WebsocketServer::new(WebsocketServerConfig::new(addr())), GenServerOptions::new()).await; });
            quiesce().await;
            let mut c = Client::open().await;
            c.put(&request(2));
            Process::sleep(Duration::from_secs(2)).await;
            quiesce().await;
            check(c.upgraded(), "a server can start there again");
        });
    }

    // A supervised server comes back.
    fn p26_supervised() {
        block_on(async {
            let a = Agent::new(true).await;
            let r = Rec::new();
            let q = r.clone();
            a.start(async move {
                let spec = WebsocketServer::<H>::new(WebsocketServerConfig::new(addr())).child_spec();
                q.push(Supervisor::with_children([spec]).start_link(SupervisorOptions::new()).await)
            });
            quiesce().await;
            check(r.len() == 1 && r.get()[0].is_ok(), "the supervisor starts");
            let sup = *r.get()[0].as_ref().unwrap();
            let q = Rec::new();
            let k = q.clone();
            a.start(async move { k.push(crate::sup::which(sup).await) });
            quiesce().await;
            let p = q.get()[0][0].child.unwrap();
            let mut c = Client::open().await;
            c.put(&request(1));
            Process::sleep(Duration::from_secs(2)).await;
            quiesce().await;
            check(c.upgraded(), "it serves");
            budget(param(0) as u32, param(1) as u32);
            a.tell(move || Process::exit(p, ExitReason::Kill));
            quiesce().await;
            check(Process::alive(sup) && !Process::alive(p), "the supervisor lives on");
            let mut c = Client::open().await;
            c.put(&request(2));
            Process::sleep(Duration::from_secs(2)).await;
            quiesce().await;
            check(c.upgraded(), "it serves again");
            cover(1);
        });
    }
    // Many messages, in one piece or in several, are all answered.
    fn p26_many() {
        block_on(async {
            let n = param(0) as usize;
            let (_srv, _) = server(WebsocketServerConfig::new(addr())).await;
            let mut c = Client::open().await;
            c.put(&request(1));
            quiesce().await;
            check(c.upgraded(), "a proper request is accepted");
            Process::sleep(Duration::from_secs(2)).await;
            quiesce().await;
            g().echo = true;
            let b = sym_u8("in");
            let mask = sym_u8("mask");
            let pieces = pick(4, "pieces");
            let mut all = vec![];
            for i in 0..n { all.extend(frame(0x82, &[i as u8, b], if i == 0 { mask } else { 7 })); }
            let k = pick(17, "at");
            match pieces {
                0 => c.put(&all),
                1 => { let k = all.len() * (k + 1) / 18; c.put(&all[..k]); quiesce().await; c.put(&all[k..]); }
                2 => for x in all.chunks(k + 1) { c.put(x); quiesce().await; },
                _ => for i in 0..n { Process::send(last_one(1).unwrap(), i as u8); c.put(&all[8 * i..8 * i + 8]); },
            }
            quiesce().await;
            let log = calls(1);
            check(log.len() == 1 + n + if pieces == 3 { n } else { 0 }, "the handler sees each message");
            let msgs: Vec<_> = log.iter().filter(|e| matches!(e.what, What::Msg(..))).collect();
            check(msgs.iter().enumerate().all(|(i, e)| e.what == What::Msg(2, vec![i as u8, b])), "in order");
            let infos: Vec<_> = log.iter().filter(|e| matches!(e.what, What::Info(_))).collect();
            check(infos.iter().enumerate().all(|(i, e)| e.what == What::Info(i as u8)), "messages of processes as well");
            let got = c.frames();
            check(got.len() == n, "each is answered once");
            check(got.iter().enumerate().all(|(i, f)| *f == (2, vec![i as u8, b])), "in order");
            cover(pieces as u32);
        });
    }
    // Messages of every size.
    fn p26_sizes() {
        block_on(async {
            let (_srv, _) = server(WebsocketServerConfig::new(addr())).await;
            let mut c = Client::open().await;
            c.put(&request(1));
            quiesce().await;
            check(c.upgraded(), "a proper request is accepted");
            Process::sleep(Duration::from_secs(2)).await;
            quiesce().await;
            g().echo = true;
            let k = pick(param(0) as usize, "size");
            let n = [0, 1, 125, 126, 127, 4095, 4096, 65535, 65536, 70001, 131072][k];
            let b = sym_u8("in");
            let mut data: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
            if n > 0 { data[0] = b; data[n - 1] = b; }
            let all = frame(0x82, &data, 0);
            let text = flip("in parts");
            if text {
                // a message in three fragments
                let (x, y) = (n / 3, n / 3 * 2);
                c.put(&frame(0x02, &data[..x], 0));
                c.put(&frame(0x00, &data[x..y], 0));
                quiesce().await;
                c.put(&frame(0x80, &data[y..], 0));
            } else if flip("cut") {
                c.put(&all[..all.len() / 2]);
                quiesce().await;
                c.put(&all[all.len() / 2..]);
            } else { c.put(&all); }
            quiesce().await;
            let log = calls(1);
            check(log.len() == 2, "the handler sees one message");
            let What::Msg(2, v) = &log[1].what else { fail("the message is a binary one") };
            check(v.len() == n, "of its size");
            let same = |v: &[u8]| v.len() == n && (n == 0 || v[0] == b && v[n - 1] == b) && (n < 3 || v[1..n - 1] == data[1..n - 1]);
            check(same(v), "and content");
            let got = c.frames();
            check(got.len() == 1 && got[0].0 == 2 && same(&got[0].1), "the answer arrives whole");
            cover(k as u32);
        });
    }
}
