//! Node connections are established only with peers that prove who they are.
use crate::agent::*;
use crate::frames::*;
use crate::net::*;
use crate::util::*;
use hydra::verif::{Codec, Exit, Frame, Hello, Link, LinkDown, Monitor, MonitorDown, MonitorUpdate, Send as SendFrame};
use std::net::SocketAddr;

fn connected() -> Vec<Node> {
    Node::list_by_state(NodeState::Connected)
}
/// Symbolic, from one second to 2^30 seconds.
fn secs(name: &str) -> Duration {
    let n = sym_u32(name);
    assume(n >= 1 && n < 1 << 30);
    Duration::from_secs(n as u64)
}
/// A hello made with another cookie.
fn with_cookie(cookie: Option<&str>, mine: Option<&str>, name: &str, addr: SocketAddr) -> Hello {
    match cookie { Some(c) => Node::set_cookie(c), None => Node::clear_cookie() }
    let h = Hello::new(name.to_string(), addr);
    match mine { Some(c) => Node::set_cookie(c), None => Node::clear_cookie() }
    h
}
/// Something else than a proper hello for `name` at `addr`: the bytes, and whether they end the attempt at once.
fn improper(k: usize, name: &str, addr: SocketAddr) -> (Vec<u8>, bool) {
    let mut h = with_cookie(Some("right"), Some("right"), name, addr);
    let b = match k {
        0 => encode(Frame::Hello(with_cookie(Some("wrong"), Some("right"), name, addr))),
        1 => encode(Frame::Hello(with_cookie(None, Some("right"), name, addr))),
        2 => {
            // one byte of the challenge differs
            let i = pick(h.challenge.len(), "at");
            let x = sym_u8("flip");
            assume(x != 0);
            h.challenge[i] ^= x;
            encode(Frame::Hello(h))
        }
        3 => {
            h.challenge.truncate(pick(h.challenge.len(), "length"));
            encode(Frame::Hello(h))
        }
        4 => {
            h.challenge.push(sym_u8("more"));
            encode(Frame::Hello(h))
        }
        5 => {
            h.name.push('x');
            encode(Frame::Hello(h))
        }
        6 => {
            h.broadcast_address.set_port(addr.port() ^ 1);
            encode(Frame::Hello(h))
        }
        7 => encode(Frame::Ping),
        8 => encode(Frame::Pong),
        9 => encode(Frame::Send(SendFrame::with_name("name".to_string(), payload(&1u32)))),
        10 => encode(Frame::Exit(Exit { process_id: 1, from_id: 7, exit_reason: ExitReason::Kill })),
        11 => encode(Frame::Link(Link { install: true, process_id: 1, from_id: 7 })),
        12 => encode(Frame::Monitor(Monitor { install: true, process_id: Some(1), process_name: None, from_id: Some(7), reference_id: 1 })),
        13 => {
            // not a frame
            let mut b = encode(Frame::Hello(h));
            b[4] = sym_u8("kind");
            assume(b[4] > 9);
            b
        }
        14 => vec![0, 0, 0, 0],
        15 => {
            // a hello, after another frame
            let mut b = encode(Frame::Ping);
            b.extend_from_slice(&encode(Frame::Hello(h)));
            b
        }
        _ => {
            // the challenge is all zeros or empty
            h.challenge.iter_mut().for_each(|b| *b = 0);
            encode(Frame::Hello(h))
        }
    };
    (b, true)
}
const IMPROPER: usize = 17;

harness! {
    // Incoming: a proper hello connects exactly the identity it presents.
    fn p19_proper() {
        block_on(async {
            let c = sym_word(pick(3, "length"), "cookie");
            let none = flip("none");
            if !none { Node::set_cookie(c.clone()); }
            start().await;
            let name = text(param(0) as usize, "name");
            let addr = if flip("ipv6") { SocketAddr::from(([0, 0, 0, 0, 0, 0, 0, 1], 80)) } else { port(1400) };
            let mut p = Peer::new(&name, 1400);
            p.addr = addr;
            let chunk = pick(3, "chunk");
            check(p.dial(me()).await, "the local node listens");
            if chunk > 0 { p.sock.as_ref().unwrap().vx_chunk(Some(chunk * 7)); }
            p.put(p.hello());
            quiesce().await;
            check(connected() == vec![p.node()] && Node::list() == vec![p.node()], "a peer that proves its identity is connected under it");
            check(!p.closed(), "the connection is kept");
            check(p.got().is_empty() && p.hellos.len() == 1, "the local node introduces itself");
            let mut h = p.hellos.pop().unwrap();
            check(h.name == ME && h.broadcast_address == me(), "with its name and address");
            check(h.validate(), "and a challenge made with the cookie");
            cover(none as u32);
            // again, under the same identity: one of the connections stays
            let old = p.sock.take();
            check(p.dial(me()).await, "the local node listens");
            p.put(p.hello());
            quiesce().await;
            check(connected() == vec![p.node()], "a node is connected once");
            let gone = old.as_ref().unwrap().vx_closed();
            check(gone != p.closed(), "by one connection");
            if p.closed() { p.sock = old; }
            p.got();
            let s = Agent::new(false).await;
            let r = p.pid(3);
            s.run(move || Process::send(r, 1u32)).await;
            check(p.got().len() == 1, "which is the one in use");
            cover(2);
        });
    }
    // Incoming: anything but a proper hello.
    fn p19_accept() {
        block_on(async {
            Node::set_cookie("right");
            start().await;
            let mut p = Peer::new("p", 1400);
            check(p.dial(me()).await, "the local node listens");
            let k = pick(IMPROPER + 2, "first");
            cover(k as u32);
            let (b, _) = if k < IMPROPER { improper(k, "p", p.addr) } else { (vec![], true) };
            let s = p.sock.take().unwrap();
            s.vx_take();
            if k < IMPROPER { s.vx_write(&b); }
            if k == IMPROPER { s.vx_cut(); }
            let s = if k > IMPROPER { None } else { Some(s) };
            quiesce().await;
            check(connected().is_empty(), "a peer that does not prove its identity is not connected");
            if let Some(s) = s {
                check(s.vx_closed(), "the attempt is over");
                check(s.vx_take().is_empty(), "nothing more is said");
                // what follows is not listened to
                s.vx_write(&encode(p.hello()));
                quiesce().await;
                check(connected().is_empty(), "an attempt that is over stays over");
            }
            p.hellos.clear();
            p.join().await;
            cover(30);
        });
    }
    // Incoming: the hello (or a part of it) arrives after a symbolic time.
    fn p19_silence() {
        block_on(async {
            let limit = secs("limit");
            Node::start(ME, NodeOptions::new().handshake_timeout(limit));
            quiesce().await;
            let out = flip("out");
            let mut p = Peer::listening("p", 1400).await;
            if out { Node::connect(p.node()); quiesce().await; check(p.accept(), "the node is dialled"); } else { p.dial(me()).await; }
            let b = encode(p.hello());
            let part = [0, 1, b.len() - 1][pick(3, "part")];
            let s = p.sock.take().unwrap();
            if part > 0 { s.vx_write(&b[..part]); }
            let t0 = now();
            let late = secs("late");
            let (end, end2) = (at(limit), at(late));
            let log = Rec::new();
            let l = log.clone();
            tokio::spawn(async move {
                tokio::time::sleep(late).await;
                s.vx_write(&b[part..]);
                l.push(s);
            });
            tokio::time::sleep(late + Duration::from_nanos(1)).await;
            quiesce().await;
            let s = &log.get()[0];
            if end2 < end {
                check(connected() == vec![p.node()] && !s.vx_closed(), "a peer that answers in time is connected");
                cover(1);
            }
            if end2 > end {
                check(connected().is_empty() && s.vx_closed(), "silence beyond the handshake timeout ends the attempt");
                cover(2);
                if out { check(state(&p.node()) == Some(NodeState::Known), "the node stays known"); }
            }
            let _ = t0;
        });
    }
    // Outgoing: every answer of the other side.
    fn p19_dial() {
        block_on(async {
            Node::set_cookie("right");
            start().await;
            let k = pick(IMPROPER + 7, "answer");
            cover(k as u32);
            let refused = k == IMPROPER || k == IMPROPER + 1;
            let mut p = if refused { Peer::new("p", 1400) } else { Peer::listening("p", 1400).await };
            let mut q = Peer::new("q", 1400);
            if k == IMPROPER + 1 { tokio::net::vx_net().connect_never = true; }
            let n = p.node();
            Node::connect(n.clone());
            quiesce().await;
            check(tokio::net::vx_net().attempts == vec![p.addr], "the address of the node is dialled, once");
            if k == IMPROPER + 1 {
                check(state(&n) == Some(NodeState::Pending), "a node is pending while it is dialled");
                tokio::time::sleep(Duration::from_secs(6)).await;
                tokio::net::vx_net().connect_never = false;
            }
            if !refused {
                check(state(&n) == Some(NodeState::Pending), "a node is pending while it is dialled");
                check(p.accept(), "the node is dialled");
                let s = p.sock.take().unwrap();
                match k - IMPROPER.min(k) {
                    0 => s.vx_write(&improper(k, "p", p.addr).0),
                    2 => s.vx_cut(),
                    3 => {}
                    // someone else, who knows the cookie
                    4 => s.vx_write(&encode(q.hello())),
                    5 => { q.name = "p".to_string(); q.addr = port(1401); s.vx_write(&encode(q.hello())); }
                    _ => {
                        s.vx_write(&encode(p.hello()));
                        quiesce().await;
                        check(connected() == vec![n] && Node::list().len() == 1, "the node dialled is connected");
                        check(!s.vx_closed(), "the connection is kept");
                        return;
                    }
                }
                if k != IMPROPER + 3 {
                    quiesce().await;
                    check(s.vx_closed(), "the attempt is over");
                    s.vx_take();
                    s.vx_write(&encode(p.hello()));
                }
            }
            quiesce().await;
            check(connected().is_empty(), "a peer that is not the node dialled is not connected");
            check(state(&n) == Some(NodeState::Known), "the node stays known");
            // a proper attempt
            let mut p = if refused { Peer::listening("p", 1400).await } else { p };
            Node::connect(n.clone());
            p.answer().await;
            cover(30);
        });
    }
    // All cookies, for both directions.
    fn p19_cookie() {
        block_on(async {
            let n = param(0) as usize;
            let (a, b) = (sym_str(pick(n, "length") + 1, "mine"), sym_str(pick(n, "length") + 1, "theirs"));
            assume(a.bytes().chain(b.bytes()).all(|c| c != 0));
            let k = pick(4, "none");
            let mine = if k & 1 == 0 { Some(a.as_str()) } else { None };
            let theirs = if k & 2 == 0 { Some(b.as_str()) } else { None };
            if let Some(c) = mine { Node::set_cookie(c); }
            start().await;
            let mut p = Peer::listening("p", 1400).await;
            let out = flip("out");
            if out { Node::connect(p.node()); quiesce().await; check(p.accept(), "the node is dialled"); } else { p.dial(me()).await; }
            p.put(Frame::Hello(with_cookie(theirs, mine, "p", p.addr)));
            quiesce().await;
            if mine == theirs {
                check(connected() == vec![p.node()], "the same cookie connects");
                cover(1);
            } else {
                check(connected().is_empty() && p.closed(), "a different cookie does not connect");
                cover(2);
            }
        });
    }
    // Cookies that are empty or end in NUL.
    fn p19_cookie_nul() {
        block_on(async {
            let all = [None, Some(""), Some("\0"), Some("x"), Some("x\0"), Some("x\0\0")];
            let (mine, theirs) = (all[pick(6, "mine")], all[pick(6, "theirs")]);
            if let Some(c) = mine { Node::set_cookie(c); }
            start().await;
            let mut p = Peer::new("p", 1400);
            p.dial(me()).await;
            p.put(Frame::Hello(with_cookie(theirs, mine, "p", p.addr)));
            quiesce().await;
            let up = connected() == vec![p.node()];
            cover(up as u32);
            if mine == theirs { check(up, "the same cookie connects"); }
            else if mine.unwrap_or("").trim_end_matches('\0') == theirs.unwrap_or("").trim_end_matches('\0') {
                check(!up, "cookies that differ in trailing NULs only are different cookies");
            } else {
                check(!up, "a different cookie does not connect");
            }
        });
    }
    // A challenge proves the name and address it was made for, and no other.
    fn p19_identity() {
        block_on(async {
            Node::set_cookie("right");
            start().await;
            let n = param(0) as usize;
            let digits = param(1) == 1;
            let name = |what: &str| { let s = sym_str(pick(n, "length") + 1, what); assume(s.bytes().all(|b| b >= b'a' && b <= b'z' || digits && b >= b'0' && b <= b'9')); s };
            let (a, b) = (name("made"), name("shown"));
            let ad = [port(80), SocketAddr::from(([127, 0, 0, 2], 80)), port(8), SocketAddr::from(([27, 0, 0, 1], 80)), SocketAddr::from(([7, 0, 0, 1], 80)), SocketAddr::from(([0, 0, 0, 0, 0, 0, 0, 1], 80)), SocketAddr::from(([0, 0, 0, 0, 0, 0xffff, 0x7f00, 1], 80))];
            let (x, y) = (ad[pick(7, "made")], ad[pick(7, "shown")]);
            let mut h = Hello::new(a.clone(), x);
            h.name = b.clone();
            h.broadcast_address = y;
            let mut p = Peer::new(&b, 1);
            p.addr = y;
            p.dial(me()).await;
            p.put(Frame::Hello(h));
            quiesce().await;
            if a == b && x == y {
                check(connected() == vec![p.node()], "the identity proven is connected");
                cover(1);
            } else if format!("{a}{x}") == format!("{b}{y}") {
                check(connected().is_empty(), "a challenge made for a name and address whose concatenation is the same is not accepted");
                cover(3);
            } else {
                check(connected().is_empty() && p.closed(), "a challenge made for another name or address is not accepted");
                cover(2);
            }
        });
    }
    // The peer does not even read.
    fn p19_blocked() {
        block_on(async {
            let limit = secs("limit");
            Node::start(ME, NodeOptions::new().handshake_timeout(limit));
            quiesce().await;
            let s = tokio::net::TcpStream::connect(me()).await.unwrap();
            s.vx_block(true);
            s.vx_write(&encode(Peer::new("p", 1400).hello()));
            let end = at(limit);
            let log = watch(s);
            while log.len() == 0 { tokio::time::sleep(limit).await; }
            check(log.get()[0].0 == end && log.get()[0].1.is_none(), "a peer that does not take our hello in time is given up");
            check(connected().is_empty(), "it is not connected");
            cover(1);
        });
    }
    // Each option changes what it names and nothing else.
    fn p19_options() {
        block_on(async {
            let mut o = NodeOptions::new();
            let mask = pick(32, "set");
            let (mut listen, mut shown, mut handshake, mut interval, mut silence) = (me(), me(), Duration::from_secs(5), Duration::from_secs(5), Duration::from_secs(45));
            if mask & 1 != 0 { listen = port(2000); o = o.listen_address(listen); }
            if mask & 2 != 0 { shown = port(2001); o = o.broadcast_address(shown); }
            if mask & 4 != 0 { handshake = secs("handshake"); o = o.handshake_timeout(handshake); }
            if mask & 8 != 0 { interval = secs("interval"); o = o.heartbeat_interval(interval); }
            if mask & 16 != 0 { silence = secs("silence"); o = o.heartbeat_timeout(silence); }
            Node::start(ME, o);
            quiesce().await;
            let mut p = Peer::new("p", 1400);
            check(p.dial(listen).await, "the local node listens where it should");
            check(p.got().is_empty() && p.hellos.len() == 1, "the local node says hello");
            check(p.hellos[0].broadcast_address == shown, "and shows the address it should");
            check(mask & 1 == 0 || !Peer::new("q", 1).dial(me()).await, "it listens nowhere else");
            let t0 = now();
            match pick(3, "what") {
                0 => {
                    let end = at(handshake);
                    let log = watch(p.sock.take().unwrap());
                    while log.len() == 0 { tokio::time::sleep(handshake).await; }
                    check(log.len() == 1 && log.get()[0].1.is_none() && log.get()[0].0 == end, "a handshake lasts as long as it may");
                    cover(1);
                }
                1 => {
                    p.put(p.hello());
                    quiesce().await;
                    // the first ping of a quiet node, unless the other is silent for too long before
                    assume(interval < silence);
                    let end = at(interval);
                    let log = watch(p.sock.take().unwrap());
                    while log.len() == 0 { tokio::time::sleep(interval).await; }
                    check(matches!(log.get()[0].1, Some(Frame::Ping)) && log.get()[0].0 == end, "a quiet node pings as often as it should");
                    cover(2);
                }
                _ => {
                    p.put(p.hello());
                    quiesce().await;
                    assume(interval > silence || mask & 24 == 0);
                    let end = at(silence);
                    let log = watch(p.sock.take().unwrap());
                    while log.len() == 0 || log.get().last().unwrap().1.is_some() { tokio::time::sleep(silence).await; }
                    check(log.get().last().unwrap().0 == end, "a silent node is given up when it should");
                    check(log.get().iter().all(|e| matches!(e.1, None | Some(Frame::Ping))), "only pings are sent");
                    check(connected().is_empty(), "it is no longer connected");
                    cover(3);
                }
            }
            let _ = t0;
        });
    }
}
