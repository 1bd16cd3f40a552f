//! Frame codec: arbitrary bytes.
use crate::frames::*;
use crate::util::*;
use bytes::BytesMut;
use hydra::verif::*;
use tokio_util::codec::{Decoder, Encoder};

/// Any byte; from position `free` on any byte below 0x80 (keeps the number of UTF-8 validation paths down).
fn byte(i: usize, free: usize) -> u8 {
    let b = sym_u8("b");
    if i >= free {
        assume(b < 0x80);
    }
    b
}

harness! {
    // A complete frame (its announced bytes have all arrived) followed by other bytes: decode, or reject.
    fn p02_complete() {
        let body = pick(param(0) as usize + 1, "bodylen");
        let after = pick(param(1) as usize + 1, "afterlen");
        let mut b = BytesMut::new();
        b.extend_from_slice(&(body as u32).to_le_bytes());
        for i in 0..body { b.extend_from_slice(&[byte(i, param(2) as usize)]); }
        let tail = sym_bytes(after, "t");
        b.extend_from_slice(&tail);
        let alone = {
            // what the frame means on its own
            let mut x = BytesMut::from(&b[..4 + body]);
            Codec::new().decode(&mut x)
        };
        let r = Codec::new().decode(&mut b);
        match r {
            Ok(Some(f)) => {
                check(b.len() == after && b[..] == tail[..], "exactly the announced bytes are consumed");
                match alone {
                    Ok(Some(g)) => check(same(&f, &g), "a frame means the same whatever follows it"),
                    _ => fail("a frame took bytes of the following frame"),
                }
                let mut e = BytesMut::new();
                check(Codec::new().encode(f, &mut e).is_ok() && e.len() <= 4 + body, "the frame fits its announced length");
                cover(1);
            }
            Ok(None) => fail("waits for more bytes although the frame is complete"),
            Err(_) => cover(2),
        }
    }
    // Fewer bytes than announced: wait, and lose nothing.
    fn p02_partial() {
        let n = pick(param(0) as usize + 1, "len");
        let v = sym_bytes(n, "b");
        let mut b = BytesMut::from(&v[..]);
        if n >= 4 {
            let len = u32::from_le_bytes([v[0], v[1], v[2], v[3]]);
            assume(len as usize > n - 4);
        }
        match Codec::new().decode(&mut b) {
            Ok(None) => check(b[..] == v[..], "an incomplete frame loses nothing"),
            Ok(Some(_)) => fail("a frame was made up from too few bytes"),
            Err(_) => check(n >= 4, "fewer than four bytes are never an error"),
        }
        cover(if n < 4 { 1 } else { 2 });
    }
    // A stream of two announced frames with arbitrary contents: the second is read from its own bytes only.
    fn p02_stream() {
        let l1 = pick(param(0) as usize + 1, "len1");
        let mut b = BytesMut::new();
        b.extend_from_slice(&(l1 as u32).to_le_bytes());
        for i in 0..l1 { b.extend_from_slice(&[byte(i, param(1) as usize)]); }
        // a genuine frame follows
        let id = sym_u64("id");
        let _ = Codec::new().encode(Frame::Link(Link { install: true, process_id: id, from_id: id }), &mut b);
        let mut c = Codec::new();
        match c.decode(&mut b) {
            Ok(Some(_)) => match c.decode(&mut b) {
                Ok(Some(Frame::Link(l))) => {
                    check(l.install && l.process_id == id && l.from_id == id, "the next frame is intact");
                    check(b.is_empty(), "nothing is left over");
                    cover(1);
                }
                _ => fail("the frame after a decoded frame is lost"),
            },
            Ok(None) => fail("waits for more bytes although the frame is complete"),
            Err(_) => cover(2),
        }
    }
}
