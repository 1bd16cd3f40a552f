//! Hash ring: positions are symbolic (the transparent hasher maps a u64 key to itself).
use crate::util::*;
use std::sync::Arc;

/// Reference: a plain set of nodes and a plain map of overrides.
#[derive(Default)]
struct Model {
    nodes: Vec<(u64, u8)>,
    over: Vec<(u64, u8)>,
}
fn put(v: &mut Vec<(u64, u8)>, k: u64, n: u8) -> Option<u8> {
    for e in v.iter_mut() {
        if e.0 == k {
            return Some(std::mem::replace(&mut e.1, n));
        }
    }
    v.push((k, n));
    None
}
fn del(v: &mut Vec<(u64, u8)>, k: u64) -> Option<u8> {
    for i in 0..v.len() {
        if v[i].0 == k {
            return Some(v.remove(i).1);
        }
    }
    None
}
impl Model {
    fn find(&self, q: u64) -> Option<u8> {
        for e in &self.over {
            if e.0 == q {
                return Some(e.1);
            }
        }
        // clockwise from q: positions >= q in order, then the ones before it
        let mut best: Option<(u64, u8)> = None;
        for e in &self.nodes {
            let nearer = match best {
                None => true,
                Some(b) => if b.0 >= q { e.0 >= q && e.0 < b.0 } else { e.0 >= q || e.0 < b.0 },
            };
            if nearer {
                best = Some((e.0, e.1));
            }
        }
        best.map(|b| b.1)
    }
}
fn step(r: &HashRing<u8>, m: &mut Model, i: u8) {
    let (a, b) = (10 + i * 2, 11 + i * 2);
    match pick(9, "op") {
        0 => {
            let k = sym_u64("node");
            check(r.add_node(k, a) == put(&mut m.nodes, k, a), "add_node returns the replaced node");
            cover(1);
        }
        1 => {
            let k = sym_u64("rm");
            let want = del(&mut m.nodes, k);
            check(r.remove_node(k) == want, "remove_node returns the removed node");
            if want.is_some() {
                cover(2);
            }
        }
        2 => {
            let (k, l) = (sym_u64("node"), sym_u64("node"));
            r.add_nodes([(k, a), (l, b)]);
            put(&mut m.nodes, k, a);
            put(&mut m.nodes, l, b);
            cover(3);
        }
        3 => {
            let (k, l) = (sym_u64("node"), sym_u64("node"));
            r.set_nodes([(k, a), (l, b)]);
            m.nodes.clear();
            put(&mut m.nodes, k, a);
            put(&mut m.nodes, l, b);
            cover(4);
        }
        4 => {
            let k = sym_u64("over");
            check(r.add_override(k, a) == put(&mut m.over, k, a), "add_override returns the replaced override");
            cover(5);
        }
        5 => {
            let k = sym_u64("rmover");
            let want = del(&mut m.over, k);
            check(r.remove_override(k) == want, "remove_override returns the removed override");
            if want.is_some() {
                cover(6);
            }
        }
        6 => {
            let k = sym_u64("over");
            let l = sym_u64("over");
            if flip("set") {
                r.set_overrides([(k, a), (l, b)]);
                m.over.clear();
            } else {
                r.add_overrides([(k, a), (l, b)]);
            }
            put(&mut m.over, k, a);
            put(&mut m.over, l, b);
            cover(7);
        }
        7 => {
            r.clear();
            m.nodes.clear();
            m.over.clear();
            cover(8);
        }
        _ => {
            let q = sym_u64("mid");
            check(r.find_node(q) == m.find(q), "find_node between operations");
        }
    }
}

harness! {
    // Any sequence of operations has the effect of the same operations on a plain set.
    fn p23_ops() {
        let r: HashRing<u8> = HashRing::new();
        let mut m = Model::default();
        let n = param(0) as usize;
        for i in 0..n {
            step(&r, &mut m, i as u8);
        }
        let q = sym_u64("key");
        let got = r.find_node(q);
        check(got == m.find(q), "the key belongs to its override or the next node clockwise");
        let mut mapped = None;
        let mut calls = 0;
        r.map_node(q, |v| { mapped = v.copied(); calls += 1; });
        check(calls == 1 && mapped == got, "map_node passes the node find_node returns, once");
        cover(9);
    }
    // A ring built from any set of nodes: wrap-around and order do not depend on insertion order.
    fn p23_many() {
        let r: HashRing<u8> = HashRing::new();
        let mut m = Model::default();
        let n = param(0) as usize;
        let ks: Vec<u64> = (0..n).map(|_| sym_u64("node")).collect();
        match pick(3, "how") {
            0 => for (i, k) in ks.iter().enumerate() { r.add_node(*k, i as u8); },
            1 => r.add_nodes(ks.iter().enumerate().map(|(i, k)| (*k, i as u8))),
            _ => r.set_nodes(ks.iter().enumerate().map(|(i, k)| (*k, i as u8))),
        }
        for (i, k) in ks.iter().enumerate() { put(&mut m.nodes, *k, i as u8); }
        let q = sym_u64("key");
        check(r.find_node(q) == m.find(q), "the key belongs to the next node clockwise");
        // removing a node only moves its keys
        let victim = ks[pick(n, "victim")];
        let before = m.find(q);
        let gone = del(&mut m.nodes, victim);
        check(r.remove_node(victim) == gone, "removed node");
        let after = r.find_node(q);
        check(after == m.find(q), "after removal the key belongs to the next node clockwise");
        check(before == gone || after == before, "removal moves only the keys of the removed node");
        cover(1);
        if before == gone && after.is_some() { cover(2); }
    }
    // Concurrent updates: none is lost, and a lookup sees the ring before or after an update, never a mixture.
    fn p23_race() {
        block_on(async {
            let r: Arc<HashRing<u8>> = Arc::new(HashRing::new());
            let base = sym_u64("base");
            r.add_node(base, 0);
            let (a, b) = (sym_u64("a"), sym_u64("b"));
            assume(a != b && a != base && b != base);
            let q = sym_u64("key");
            let op = pick(3, "op");
            let m = |x: bool, y: bool| {
                let mut m = Model::default();
                match op {
                    // set replaces everything that was there when it happened; order decides
                    0 | 1 => { m.nodes.push((base, 0)); }
                    _ => { m.nodes.push((base, 0)); }
                }
                if x { m.nodes.push((a, 1)); }
                if y {
                    match op { 1 => { del(&mut m.nodes, base); } _ => { m.nodes.push((b, 2)); } }
                }
                m.find(q)
            };
            let want = [m(false, false), m(true, false), m(false, true), m(true, true)];
            budget(param(0) as u32, param(1) as u32);
            let (r1, r2, r3) = (r.clone(), r.clone(), r.clone());
            let t1 = tokio::spawn(async move { r1.add_node(a, 1); });
            let t2 = tokio::spawn(async move {
                match op {
                    0 => { r2.add_node(b, 2); }
                    1 => { r2.remove_node(base); }
                    _ => r2.add_nodes([(b, 2)]),
                }
            });
            let t3 = tokio::spawn(async move {
                let x = r3.find_node(q);
                let y = r3.find_node(q);
                (x, y)
            });
            t1.await.unwrap();
            t2.await.unwrap();
            let (x, y) = t3.await.unwrap();
            check(want.contains(&x) && want.contains(&y), "a lookup sees the ring before or after each update");
            check(r.find_node(q) == want[3], "concurrent updates are all in effect");
            cover(1);
            if x != y { cover(2); }
        });
    }
}
