//! Pids, references and nodes keep their identity across the network.
use crate::agent::*;
use crate::net::*;
use crate::util::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::HashSet;
use std::net::SocketAddr;
use std::num::NonZeroU64;

fn to<T: Serialize>(v: &T) -> Vec<u8> {
    payload(v)
}
fn from<T: DeserializeOwned>(b: &[u8]) -> T {
    match rmp_serde::from_slice(b) {
        Ok(v) => v,
        Err(_) => fail("what was serialized can be deserialized"),
    }
}
fn nz(name: &str) -> NonZeroU64 {
    let v = sym_u64(name);
    assume(v != 0);
    NonZeroU64::new(v).unwrap()
}
/// Everything that has an identity.
#[derive(Serialize, Deserialize, Clone, PartialEq)]
struct All {
    pid: Pid,
    reference: Reference,
    node: Node,
    named: Dest,
    dest: Dest,
    alias: Dest,
}
fn all(pid: Pid, reference: Reference, node: Node) -> All {
    All { pid, reference, node: node.clone(), named: Dest::from(("name", node)), dest: Dest::from(pid), alias: Dest::from(reference) }
}
impl All {
    fn local(&self) -> Option<bool> {
        let v = [self.pid.is_local(), self.reference.is_local(), self.node.is_local(), self.named.is_local(), self.dest.is_local(), self.alias.is_local()];
        let r = [self.pid.is_remote(), self.reference.is_remote(), self.node.is_remote(), self.named.is_remote(), self.dest.is_remote(), self.alias.is_remote()];
        if v.iter().all(|x| *x) && r.iter().all(|x| !*x) { Some(true) } else if v.iter().all(|x| !*x) && r.iter().all(|x| *x) { Some(false) } else { None }
    }
    fn consistent(&self) -> bool {
        self.dest == self.pid && self.alias == self.reference && self.pid == self.dest && self.reference == self.alias && self.named == "name"
    }
}
/// Identities that differ in the name, the address or the port.
fn place(k: usize) -> (&'static str, SocketAddr) {
    match k {
        0 => ("a", port(1)),
        1 => ("b", port(1)),
        2 => ("a", port(2)),
        _ => ("a", SocketAddr::from(([127, 0, 0, 2], 1))),
    }
}
async fn become_node(k: usize) {
    let (n, a) = place(k);
    Node::start(n, NodeOptions::new().broadcast_address(a));
    quiesce().await;
}
async fn leave() {
    Process::spawn(async { Node::stop() });
    quiesce().await;
    check(!Node::alive(), "the node has stopped");
}
fn distinct<T: PartialEq + std::hash::Hash + Eq + Copy + Ord>(v: &[T]) -> bool {
    for i in 0..v.len() {
        for j in 0..v.len() {
            if (v[i] == v[j]) != (i == j) || (v[i].cmp(&v[j]) == std::cmp::Ordering::Equal) != (i == j) { return false; }
        }
    }
    true
}

harness! {
    // From one node to another, perhaps over a third, and back.
    fn p20_round() {
        block_on(async {
            let home = pick(4, "home");
            let away = pick(4, "away");
            let third = pick(4, "third");
            assume(home != away);
            let (id, rid) = (nz("id"), nz("ref"));
            become_node(home).await;
            let v = all(Pid::Local(id), Reference::Local(rid), Node::current());
            let b = to(&v);
            check(from::<All>(&b) == v, "a value that stays on its node is itself");
            leave().await;
            become_node(away).await;
            let w: All = from(&b);
            check(w.local() == Some(false), "on another node it's remote");
            check(number(w.pid) == id.get() && number(w.reference) == rid.get() && w.node == place(home), "with the same number and node");
            check(w.consistent(), "with equal values comparing equal");
            check(from::<All>(&b) == w, "however often it's met");
            check(w.pid != Pid::Local(id) && w.reference != Reference::Local(rid) && w.node != Node::current(), "it is not the local one of that number");
            let own: All = from(&to(&all(Pid::Local(id), Reference::Local(rid), Node::current())));
            check(own.local() == Some(true) && own.pid == Pid::Local(id), "the local one is another");
            let b2 = to(&w);
            check(from::<All>(&b2) == w, "a remote value is itself when it stays");
            leave().await;
            become_node(third).await;
            let x: All = from(&b2);
            check(x.local() == Some(third == home), "it is remote on every node but its own");
            check(number(x.pid) == id.get() && number(x.reference) == rid.get(), "with the same number");
            if third != home { check(x.node == place(home), "and node"); cover(1); } else { check(x == v, "and comes back as it was"); cover(2); }
            let b3 = to(&x);
            leave().await;
            become_node(home).await;
            let y: All = from(&b3);
            check(y == v && y.local() == Some(true), "back on its node it denotes what it did");
            cover(3);
        });
    }
    // Without a local node.
    fn p20_alone() {
        block_on(async {
            let (id, rid) = (nz("id"), nz("ref"));
            let (pid, reference) = (Pid::Local(id), Reference::Local(rid));
            let v = all(pid, reference, Node::current());
            let b = to(&v);
            match pick(3, "where") {
                0 => {
                    check(from::<All>(&b) == v, "without a node, what is local stays local");
                    cover(0);
                }
                1 => {
                    // something of another node, met without a local node
                    become_node(0).await;
                    let b = to(&v);
                    leave().await;
                    let w: All = from(&b);
                    check(w.local() == Some(false), "what is remote is not local without a node");
                    check(number(w.pid) == id.get() && number(w.reference) == rid.get() && w.node == place(0), "with the same number");
                    let x: All = from(&to(&w));
                    check(x == w, "and stays what it is");
                    cover(1);
                }
                _ => {
                    // serialized without a node, read with one: it never left
                    become_node(0).await;
                    let w: All = from(&b);
                    check(w == v, "what was local before the node started is local");
                    cover(2);
                }
            }
        });
    }
    // A node has one identity however it is met.
    fn p20_met() {
        block_on(async {
            start().await;
            let mut p = Peer::listening("p", 1400).await;
            let q = [Peer::new("q", 1400), Peer::new("p", 1401), Peer::new("q", 1401)];
            let id = 7;
            let mut seen: Vec<Pid> = vec![];
            let mut others: Vec<Pid> = vec![];
            let s = Agent::new(true).await;
            let mut up = false;
            let mut forgotten = false;
            for _ in 0..param(0) {
                let k = pick(9, "met");
                cover(k as u32);
                let n = p.node();
                match k {
                    0 => {}
                    1 => {
                        s.run(move || Process::send(("name", n), 1u32)).await;
                    }
                    2 => {
                        s.run(move || { Process::monitor(("name", n)); }).await;
                    }
                    3 => {
                        s.run(move || Node::connect(n)).await;
                    }
                    4 => {
                        if !up {
                            p.dial(me()).await;
                            p.put(p.hello());
                            quiesce().await;
                        }
                    }
                    5 => {
                        s.run(move || { Node::monitor(n); }).await;
                    }
                    6 => {
                        s.run(move || Node::disconnect(n)).await;
                        p.close();
                    }
                    7 => {
                        for q in &q { others.push(q.pid(id)); }
                    }
                    _ => {
                        // the identity of a forgotten node is not used again
                        s.run(move || Node::forget(n)).await;
                        p.close();
                        others.append(&mut seen);
                        forgotten = true;
                    }
                }
                if p.accept() { p.put(p.hello()); quiesce().await; }
                up = state(&p.node()) == Some(NodeState::Connected);
                let x = p.pid(id);
                check(!others.contains(&x), "a node has an identity of its own");
                seen.push(x);
                check(seen.iter().all(|y| *y == x && y.cmp(&x) == std::cmp::Ordering::Equal), "a node keeps its identity however it is met");
                check(Node::list().iter().filter(|n| **n == p.node()).count() == 1, "and is listed once");
            }
            let o: Vec<Pid> = q.iter().map(|q| q.pid(id)).collect();
            check(distinct(&[o[0], o[1], o[2], seen[0], Pid::Local(NonZeroU64::new(id).unwrap())]), "different nodes have different identities");
            let h: HashSet<Pid> = o.iter().chain(seen.iter()).copied().collect();
            check(h.len() == 4, "in hash tables as well");
            if !forgotten {
                // a message from the node shows the same
                cover(20);
            }
        });
    }
    // A new node is met by several processes at the same time.
    fn p20_race() {
        block_on(async {
            start().await;
            let mut p = Peer::listening("p", 1400).await;
            let log = Rec::new();
            let n = p.node();
            let k = pick(4, "other");
            budget(param(0) as u32, param(1) as u32);
            let w = to(&Wire::WithNode(NonZeroU64::new(7).unwrap(), p.name.clone(), p.addr));
            for i in 0..2 {
                let (w, log, n) = (w.clone(), log.clone(), n.clone());
                Process::spawn(async move {
                    match (i, k) {
                        (1, 1) => { Node::connect(n); }
                        (1, 2) => { Node::monitor(n); }
                        _ => {}
                    }
                    log.push(from::<Pid>(&w));
                });
            }
            if k == 3 {
                let s = tokio::net::TcpStream::connect(me()).await.unwrap();
                p.sock = Some(s);
                p.put(p.hello());
            }
            quiesce().await;
            if p.accept() { p.put(p.hello()); quiesce().await; }
            let last = p.pid(7);
            check(log.len() == 2 && log.get().iter().all(|x| *x == last), "a node met by several processes at once has one identity");
            check(Node::list() == vec![p.node()], "and is listed once");
            if k > 0 {
                check(state(&p.node()) == Some(NodeState::Connected), "with one state");
                // which is what frames of that node are from
                let a = Agent::new(true).await;
                let id = number(a.pid);
                p.put(hydra::verif::Frame::Link(hydra::verif::Link { install: true, process_id: id, from_id: 7 }));
                quiesce().await;
                check(Process::info(a.pid).unwrap().links == vec![last], "what a node does is done under its identity");
            }
            cover(k as u32);
        });
    }
    // Text forms of a node.
    fn p20_text() {
        let v6 = flip("ipv6");
        let name = sym_str(pick(param(0) as usize + 1, "length"), "name");
        assume(name.bytes().all(|b| b != b'@'));
        let what = pick(3, "what");
        let p = if what == 0 { let p = sym_u16("port"); assume(p < param(1) as u16); p } else { [0, 9999, 65535][pick(3, "ports")] };
        let addr = if v6 {
            SocketAddr::from(([0, 0, 0, 0, 0, 0, 0, 1], p))
        } else {
            let last = if what == 1 { sym_u8("ip") } else { 200 };
            SocketAddr::from(([10, 0, 0, last], p))
        };
        let n = Node::from((name.as_str(), addr));
        let t = format!("{name}@{addr}");
        check(Node::from(t.as_str()) == n && Node::from(t.clone()) == n, "text denotes the node it was made from");
        check(n == t && n == t.as_str() && t == n && t.as_str() == n, "and compares equal to it");
        check(n == (name.as_str(), addr) && n == (name.clone(), addr) && Node::from((name.clone(), addr)) == n, "as does its name with its address");
        check(n.name() == Some(name.as_str()) && n.address() == Some(addr) && n.is_remote() && !n.is_local(), "a node has its name and address");
        check(!(Node::Local == t) && Node::Local != n && Node::from("local") == Node::Local && Node::Local == "local" && n != "local", "the local node is called local");
        // another node
        let q = sym_u16("port2");
        let name2 = sym_str(pick(param(0) as usize + 1, "length2"), "name2");
        assume(name2.bytes().all(|b| b != b'@'));
        let m = Node::from((name2.as_str(), SocketAddr::new(addr.ip(), q)));
        let eq = name == name2 && p == q;
        check((m == n) == eq && (m == t) == eq && (m == (name.as_str(), addr)) == eq && (m == (name, addr)) == eq, "nodes are equal if name and address are");
        check(n != "nothing" && n != "x@" && n != "@" && n != "", "text without an address denotes no node");
        cover(eq as u32);
        cover(2 + v6 as u32);
    }
    // References made and nodes met by several processes at once.
    fn p20_distinct() {
        block_on(async {
            start().await;
            let (p, q) = (Peer::listening("p", 1400).await, Peer::listening("q", 1401).await);
            let refs: Rec<Reference> = Rec::new();
            let pids: Rec<Pid> = Rec::new();
            let k = pick(4, "other");
            let target = Process::spawn(async { Process::sleep(Duration::from_secs(5)).await });
            budget(param(0) as u32, param(1) as u32);
            for i in 0..2 {
                let (r, s) = (refs.clone(), pids.clone());
                let w = to(&Wire::WithNode(NonZeroU64::new(7).unwrap(), if i == 0 { p.name.clone() } else { q.name.clone() }, if i == 0 { p.addr } else { q.addr }));
                Process::spawn(async move {
                    if k == 3 {
                        s.push(from::<Pid>(&w));
                        return;
                    }
                    for j in 0..2 {
                        r.push(match (i, k + j) {
                            (1, 1) => Process::alias(false),
                            (_, 2) => Process::monitor(target),
                            _ => Reference::new(),
                        });
                    }
                });
            }
            quiesce().await;
            budget(0, 0);
            if k == 3 {
                let (a, b): (Pid, Pid) = (p.pid(7), q.pid(7));
                check(pids.len() == 2 && pids.get().contains(&a) && pids.get().contains(&b) && a != b, "every node has an identity of its own");
                let list = Node::list();
                check(list.len() == 2 && list.contains(&p.node()) && list.contains(&q.node()) && Node::list_by_state(NodeState::Known).len() == 2, "and is known once");
            } else {
                check(refs.len() == 4, "the references are made");
                check(distinct(refs.get()) && refs.get().iter().all(|r| *r != Reference::new()), "no reference is handed out twice");
            }
            cover(k as u32);
        });
    }
}
