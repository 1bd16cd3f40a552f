//! Symbolic wire frames and their comparison (shared by the codec and node harnesses).
use crate::util::*;
use hydra::verif::*;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::num::NonZeroU64;

pub fn nz(name: &str) -> NonZeroU64 {
    let v = sym_u64(name);
    assume(v != 0);
    NonZeroU64::new(v).unwrap()
}
/// Text of 0..=max characters: symbolic ASCII, or one of two multi-byte characters.
pub fn text(max: usize, name: &str) -> String {
    let n = pick(max + 2, "textlen");
    if n <= max { sym_str(n, name) } else { "é€".to_string() }
}
pub fn reason(max: usize) -> ExitReason {
    match pick(4, "reason") {
        0 => ExitReason::Normal,
        1 => ExitReason::Kill,
        2 => ExitReason::Ignore,
        _ => ExitReason::Custom(text(max, "reason")),
    }
}
pub fn addr() -> SocketAddr {
    let port = sym_u16("port");
    if flip("ipv6") {
        let mut o = [0u8; 16];
        for b in o.iter_mut() {
            *b = sym_u8("ip6");
        }
        SocketAddr::new(IpAddr::V6(Ipv6Addr::from(o)), port)
    } else {
        let o: [u8; 4] = [sym_u8("ip"), sym_u8("ip"), sym_u8("ip"), sym_u8("ip")];
        SocketAddr::new(IpAddr::V4(Ipv4Addr::from(o)), port)
    }
}
fn opt(name: &str) -> Option<u64> {
    if flip("some") { Some(sym_u64(name)) } else { None }
}
fn ids(max: usize, name: &str) -> Vec<u64> {
    (0..pick(max + 1, "count")).map(|_| sym_u64(name)).collect()
}
pub const KINDS: usize = 10;
pub fn frame(kind: usize, max: usize) -> Frame {
    match kind {
        0 => Frame::Hello(Hello { name: text(max, "name"), broadcast_address: addr(), challenge: sym_bytes(pick(max + 1, "chlen"), "challenge") }),
        1 => Frame::Ping,
        2 => Frame::Pong,
        3 => {
            let mut s = Send::with_message(sym_bytes(pick(max + 1, "msglen"), "message"));
            for _ in 0..pick(max + 1, "targets") {
                s.targets.push(match pick(3, "target") {
                    0 => SendTarget::Pid(nz("pid")),
                    1 => SendTarget::Named(text(max, "tname")),
                    _ => SendTarget::Alias(nz("alias")),
                });
            }
            Frame::Send(s)
        }
        4 => Frame::Monitor(Monitor {
            install: sym_bool("install"),
            process_id: opt("process"),
            process_name: if flip("named") { Some(text(max, "pname")) } else { None },
            from_id: opt("from"),
            reference_id: sym_u64("ref"),
        }),
        5 => Frame::MonitorDown(MonitorDown { monitors: ids(max, "mon"), exit_reason: reason(max) }),
        6 => Frame::MonitorUpdate(MonitorUpdate { process_id: sym_u64("process"), from_id: sym_u64("from"), reference_id: sym_u64("ref") }),
        7 => Frame::Link(Link { install: sym_bool("install"), process_id: sym_u64("process"), from_id: sym_u64("from") }),
        8 => Frame::LinkDown(LinkDown { links: ids(max, "link"), from_id: sym_u64("from"), exit_reason: reason(max) }),
        _ => Frame::Exit(Exit { process_id: sym_u64("process"), from_id: sym_u64("from"), exit_reason: reason(max) }),
    }
}
fn same_target(a: &SendTarget, b: &SendTarget) -> bool {
    match (a, b) {
        (SendTarget::Pid(x), SendTarget::Pid(y)) => x == y,
        (SendTarget::Named(x), SendTarget::Named(y)) => x == y,
        (SendTarget::Alias(x), SendTarget::Alias(y)) => x == y,
        _ => false,
    }
}
pub fn same(a: &Frame, b: &Frame) -> bool {
    match (a, b) {
        (Frame::Hello(x), Frame::Hello(y)) => x.name == y.name && x.broadcast_address == y.broadcast_address && x.challenge == y.challenge,
        (Frame::Ping, Frame::Ping) | (Frame::Pong, Frame::Pong) => true,
        (Frame::Send(x), Frame::Send(y)) => {
            x.message == y.message && x.targets.len() == y.targets.len() && x.targets.iter().zip(y.targets.iter()).all(|(a, b)| same_target(a, b))
        }
        (Frame::Monitor(x), Frame::Monitor(y)) => {
            x.install == y.install && x.process_id == y.process_id && x.process_name == y.process_name && x.from_id == y.from_id && x.reference_id == y.reference_id
        }
        (Frame::MonitorDown(x), Frame::MonitorDown(y)) => x.monitors == y.monitors && x.exit_reason == y.exit_reason,
        (Frame::MonitorUpdate(x), Frame::MonitorUpdate(y)) => x.process_id == y.process_id && x.from_id == y.from_id && x.reference_id == y.reference_id,
        (Frame::Link(x), Frame::Link(y)) => x.install == y.install && x.process_id == y.process_id && x.from_id == y.from_id,
        (Frame::LinkDown(x), Frame::LinkDown(y)) => x.links == y.links && x.from_id == y.from_id && x.exit_reason == y.exit_reason,
        (Frame::Exit(x), Frame::Exit(y)) => x.process_id == y.process_id && x.from_id == y.from_id && x.exit_reason == y.exit_reason,
        _ => false,
    }
}
