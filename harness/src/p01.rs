//! Frame codec: round trip, concatenation, splitting.
use crate::frames::*;
use crate::util::*;
use bytes::{Buf, BufMut, BytesMut};
use hydra::verif::*;
use tokio_util::codec::{Decoder, Encoder};

fn enc(f: Frame, b: &mut BytesMut) {
    check(Codec::new().encode(f, b).is_ok(), "every frame can be encoded");
}

harness! {
    // One frame: equal frame back, exactly its bytes consumed, any prefix waits without losing anything.
    fn p01_one() {
        let max = param(0) as usize;
        let kind = pick(KINDS, "kind");
        cover(kind as u32);
        // two frames with the same values (Frame is not Clone): encode both into one buffer, decode one by one
        let f = frame(kind, max);
        let g = copy(&f);
        let mut b = BytesMut::new();
        enc(g, &mut b);
        let n = b.len();
        // bytes that follow belong to something else
        let tail = sym_bytes(param(1) as usize, "tail");
        b.extend_from_slice(&tail);
        let r = Codec::new().decode(&mut b);
        match r {
            Ok(Some(d)) => check(same(&f, &d), "the decoded frame equals the sent one"),
            Ok(None) => fail("a complete frame was not decoded"),
            Err(_) => fail("a complete frame was rejected"),
        }
        check(b.len() == tail.len() && b[..] == tail[..], "exactly the bytes of the frame are consumed");
        cover(100);
        let _ = n;
    }
    // Two frames in one stream, arriving in chunks cut at any two positions.
    fn p01_stream() {
        let max = param(0) as usize;
        let (k1, k2) = (pick(KINDS, "kind"), pick(KINDS, "kind"));
        // one of the two may be fixed to keep the product small
        let (f1, f2) = (frame(k1, max), small(k2));
        let mut b = BytesMut::new();
        enc(copy(&f1), &mut b);
        let n1 = b.len();
        enc(copy(&f2), &mut b);
        let n = b.len();
        let cut = pick(n + 1, "cut");
        let mut c = Codec::new();
        let mut rx = BytesMut::new();
        let mut got: Vec<Frame> = vec![];
        for (x, y) in [(0, cut), (cut, n)] {
            rx.extend_from_slice(&b[x..y]);
            loop {
                match c.decode(&mut rx) {
                    Ok(Some(f)) => got.push(f),
                    Ok(None) => break,
                    Err(_) => fail("a valid stream was rejected"),
                }
            }
            let want = if y >= n { 2 } else if y >= n1 { 1 } else { 0 };
            check(got.len() == want, "a frame is delivered exactly when its bytes have arrived");
        }
        check(same(&got[0], &f1) && same(&got[1], &f2), "the stream decodes to the frames sent, in order");
        check(rx.is_empty(), "nothing is left over");
        cover(k1 as u32);
        cover(20 + k2 as u32);
        if cut > 0 && cut < 4 { cover(100); }
        if cut > n1 && cut < n1 + 4 { cover(101); }
    }
    // The wire format is stable: little-endian length marker counting the payload.
    fn p01_marker() {
        let max = param(0) as usize;
        let kind = pick(KINDS, "kind");
        let f = frame(kind, max);
        let mut b = BytesMut::new();
        let pre = sym_bytes(pick(3, "pre"), "pre");
        b.extend_from_slice(&pre);
        enc(f, &mut b);
        check(b[..pre.len()] == pre[..], "encoding appends and leaves earlier bytes alone");
        let m = u32::from_le_bytes([b[pre.len()], b[pre.len() + 1], b[pre.len() + 2], b[pre.len() + 3]]) as usize;
        check(m == b.len() - pre.len() - 4, "the marker is the length of the payload");
        cover(kind as u32);
    }
    // Frames of sizes at which lengths need another byte, followed by another frame, arriving in chunks.
    fn p01_large() {
        let size = [0usize, 1, 127, 128, 255, 256, 4095, 8192, 65535, 65536, 70000, 1 << 20][pick(param(0) as usize, "size")];
        let mut v = vec![7u8; size];
        if size > 0 {
            v[0] = sym_u8("first");
            v[size - 1] = sym_u8("last");
        }
        let txt = |n: usize| {
            let mut t = vec![b'x'; n];
            if n > 0 {
                let b = sym_u8("char");
                assume(b < 0x80);
                t[n - 1] = b;
            }
            String::from_utf8(t).unwrap()
        };
        let list = |n: usize| {
            let mut l: Vec<u64> = (1..=n as u64).collect();
            if n > 0 { l[n / 2] = sym_u64("id"); }
            l
        };
        let few = size.min(300);
        let kind = pick(6, "kind");
        let f: Frame = match kind {
            0 => {
                let mut s = Send::with_message(v);
                s.targets.push(SendTarget::Pid(nz("pid")));
                Frame::Send(s)
            }
            1 => {
                let mut s = Send::with_message(vec![sym_u8("byte")]);
                for i in 0..few { s.targets.push(SendTarget::Pid(std::num::NonZeroU64::new(i as u64 + 1).unwrap())); }
                s.targets.push(SendTarget::Named(txt(few)));
                Frame::Send(s)
            }
            2 => Frame::Exit(Exit { process_id: sym_u64("a"), from_id: 3, exit_reason: ExitReason::Custom(txt(size)) }),
            3 => Frame::LinkDown(LinkDown { links: list(few), from_id: 1, exit_reason: ExitReason::Custom(txt(size)) }),
            4 => Frame::Hello(Hello { name: txt(size), broadcast_address: addr(), challenge: txt(few).into() }),
            _ => Frame::Monitor(Monitor { install: true, process_id: None, process_name: Some(txt(size)), from_id: Some(sym_u64("b")), reference_id: 1 }),
        };
        let mut b = BytesMut::new();
        enc(copy(&f), &mut b);
        let n1 = b.len();
        enc(small(9), &mut b);
        let n = b.len();
        let cut = [1, 3, 4, 5, n1 - 1, n1, n1 + 1, n1 + 4, n - 1][pick(9, "cut")];
        let mut c = Codec::new();
        let mut rx = BytesMut::new();
        let mut got: Vec<Frame> = vec![];
        for (x, y) in [(0, cut), (cut, n)] {
            rx.extend_from_slice(&b[x..y]);
            loop {
                match c.decode(&mut rx) {
                    Ok(Some(f)) => got.push(f),
                    Ok(None) => break,
                    Err(_) => fail("a valid stream was rejected"),
                }
            }
            let want = if y >= n { 2 } else if y >= n1 { 1 } else { 0 };
            check(got.len() == want, "a frame is delivered exactly when its bytes have arrived");
        }
        check(same(&got[0], &f) && rx.is_empty(), "the stream decodes to the frames sent, in order");
        cover(kind as u32);
    }
}
fn copy(f: &Frame) -> Frame {
    let r = |x: &ExitReason| x.clone();
    match f {
        Frame::Hello(x) => Frame::Hello(Hello { name: x.name.clone(), broadcast_address: x.broadcast_address, challenge: x.challenge.clone() }),
        Frame::Ping => Frame::Ping,
        Frame::Pong => Frame::Pong,
        Frame::Send(x) => {
            let mut s = Send::with_message(x.message.clone());
            for t in &x.targets {
                s.targets.push(match t {
                    SendTarget::Pid(p) => SendTarget::Pid(*p),
                    SendTarget::Named(n) => SendTarget::Named(n.clone()),
                    SendTarget::Alias(a) => SendTarget::Alias(*a),
                });
            }
            Frame::Send(s)
        }
        Frame::Monitor(x) => Frame::Monitor(Monitor { install: x.install, process_id: x.process_id, process_name: x.process_name.clone(), from_id: x.from_id, reference_id: x.reference_id }),
        Frame::MonitorDown(x) => Frame::MonitorDown(MonitorDown { monitors: x.monitors.clone(), exit_reason: r(&x.exit_reason) }),
        Frame::MonitorUpdate(x) => Frame::MonitorUpdate(MonitorUpdate { process_id: x.process_id, from_id: x.from_id, reference_id: x.reference_id }),
        Frame::Link(x) => Frame::Link(Link { install: x.install, process_id: x.process_id, from_id: x.from_id }),
        Frame::LinkDown(x) => Frame::LinkDown(LinkDown { links: x.links.clone(), from_id: x.from_id, exit_reason: r(&x.exit_reason) }),
        Frame::Exit(x) => Frame::Exit(Exit { process_id: x.process_id, from_id: x.from_id, exit_reason: r(&x.exit_reason) }),
    }
}
/// One shape per kind, values symbolic.
fn small(kind: usize) -> Frame {
    match kind {
        0 => Frame::Hello(Hello { name: sym_str(1, "name"), broadcast_address: std::net::SocketAddr::from(([1, 2, 3, 4], sym_u16("port"))), challenge: sym_bytes(1, "challenge") }),
        1 => Frame::Ping,
        2 => Frame::Pong,
        3 => Frame::Send(Send { targets: vec![SendTarget::Pid(nz("pid"))], message: sym_bytes(1, "message") }),
        4 => Frame::Monitor(Monitor { install: sym_bool("install"), process_id: Some(sym_u64("process")), process_name: None, from_id: None, reference_id: sym_u64("ref") }),
        5 => Frame::MonitorDown(MonitorDown { monitors: vec![sym_u64("mon")], exit_reason: ExitReason::Kill }),
        6 => Frame::MonitorUpdate(MonitorUpdate { process_id: sym_u64("process"), from_id: sym_u64("from"), reference_id: sym_u64("ref") }),
        7 => Frame::Link(Link { install: sym_bool("install"), process_id: sym_u64("process"), from_id: sym_u64("from") }),
        8 => Frame::LinkDown(LinkDown { links: vec![sym_u64("link")], from_id: sym_u64("from"), exit_reason: ExitReason::Normal }),
        _ => Frame::Exit(Exit { process_id: sym_u64("process"), from_id: sym_u64("from"), exit_reason: ExitReason::Custom(sym_str(1, "reason")) }),
    }
}
