//! Losing a node.
use crate::agent::*;
use crate::frames::same;
use crate::net::*;
use crate::util::*;
use hydra::verif::{Frame, Hello, Link, LinkDown, Monitor, MonitorDown, MonitorUpdate, Send as SendFrame};

fn noconn() -> ExitReason {
    ExitReason::from("noconnection")
}
fn nodes(a: &Agent) -> Vec<(Node, Reference)> {
    a.log.get().iter().filter_map(|m| if let SystemMessage::NodeDown(n, r) = m { Some((n.clone(), *r)) } else { None }).collect()
}
/// What local processes hold with a node, and what it holds with them.
#[derive(Default)]
struct Held {
    link: Option<Pid>,
    /// link of a process that does not trap
    plain: bool,
    monitors: Vec<(Dest, Reference)>,
    nodes: Vec<Reference>,
    linked: bool,
    monitored: u64,
}
struct World {
    a: Agent,
    /// receives signals of w
    o: Agent,
    w: Agent,
    /// held by the peers
    b: Agent,
}
impl World {
    async fn new() -> World {
        let (a, o, w, b) = (Agent::new(true).await, Agent::new(true).await, Agent::new(false).await, Agent::new(true).await);
        let wp = w.pid;
        o.run(move || Process::link(wp)).await;
        World { a, o, w, b }
    }
    async fn hold(&self, p: &mut Peer, what: usize) -> Held {
        let mut h = Held::default();
        let (r, n) = (p.pid(7), p.node());
        if what & 1 != 0 {
            self.a.run(move || Process::link(r)).await;
            h.link = Some(r);
        }
        if what & 2 != 0 {
            self.w.run(move || Process::link(r)).await;
            h.plain = true;
        }
        if what & 4 != 0 {
            let m = self.a.eval(move || Process::monitor(r)).await;
            h.monitors.push((Dest::from(r), m));
            let d = Dest::from(("name", n.clone()));
            let e = d.clone();
            let m = self.a.eval(move || Process::monitor_alias(e, false)).await;
            h.monitors.push((d, m));
            let m = self.a.eval(move || Process::monitor(r)).await;
            h.monitors.push((Dest::from(r), m));
        }
        if what & 8 != 0 {
            for _ in 0..2 {
                let n = n.clone();
                h.nodes.push(self.a.eval(move || Node::monitor(n)).await);
            }
        }
        h
    }
    /// The peer holds something; needs a connection.
    async fn hold_back(&self, p: &mut Peer, h: &mut Held, what: usize) {
        let id = number(self.b.pid);
        p.got();
        if what & 1 != 0 {
            p.put(Frame::Link(Link { install: true, process_id: id, from_id: 8 }));
            h.linked = true;
        }
        if what & 2 != 0 {
            for r in [5, 6] {
                p.put(Frame::Monitor(Monitor { install: true, process_id: Some(id), process_name: None, from_id: Some(8), reference_id: r }));
                h.monitored += 1;
            }
        }
        quiesce().await;
        check(p.got().is_empty(), "accepted silently");
    }
    /// Everything held with the node has been reported, once, and nothing else.
    fn lost(&self, p: &Peer, h: &Held) {
        let n = p.node();
        let k = self.a.exits().into_iter().filter(|e| Some(e.0) == h.link).map(|e| e.1).collect::<Vec<_>>();
        check(k == h.link.iter().map(|_| noconn()).collect::<Vec<_>>(), "each link signals noconnection, once");
        if h.plain {
            check(!Process::alive(self.w.pid) && self.o.exits() == vec![(self.w.pid, noconn())], "also to processes that do not trap");
        }
        let d = self.a.downs();
        for m in &h.monitors {
            let k: Vec<_> = d.iter().filter(|x| x.1 == m.1).collect();
            check(k.len() == 1 && k[0].0 == m.0 && k[0].2 == noconn(), "each monitor yields one down message with noconnection");
        }
        let d = nodes(&self.a);
        for m in &h.nodes {
            let k: Vec<_> = d.iter().filter(|x| x.1 == *m).collect();
            check(k.len() == 1 && k[0].0 == n, "each node monitor yields one node down message");
        }
    }
    fn kept(&self, h: &Held) {
        check(self.a.exits().iter().all(|e| Some(e.0) != h.link), "links to other nodes are unaffected");
        check(self.a.downs().iter().all(|d| h.monitors.iter().all(|m| m.1 != d.1)), "monitors of other nodes are unaffected");
        check(nodes(&self.a).iter().all(|d| h.nodes.iter().all(|m| *m != d.1)), "other node monitors are unaffected");
    }
    fn total(&self, h: &[&Held]) {
        let n: usize = h.iter().map(|h| h.link.is_some() as usize + h.monitors.len() + h.nodes.len()).sum();
        check(self.a.log.len() == n, "nothing else is reported");
    }
    /// What is held with b on behalf of nodes.
    fn held(&self) -> (Vec<Pid>, Vec<Pid>) {
        let i = Process::info(self.b.pid).unwrap();
        (i.links, i.monitored_by)
    }
}
/// Keeps a peer from falling silent.
fn keep_alive(p: &Peer) {
    let s = p.sock.as_ref().unwrap() as *const tokio::net::TcpStream as usize;
    tokio::spawn(async move {
        loop {
            tokio::time::sleep(Duration::from_secs(20)).await;
            // the harness keeps the peer while time passes
            unsafe { (*(s as *const tokio::net::TcpStream)).vx_write(&encode(Frame::Ping)) };
        }
    });
}
async fn by_process(f: impl FnOnce() + std::marker::Send + 'static) {
    Process::spawn(async move { f() });
    quiesce().await;
}
const LOSSES: usize = 10;
/// Loses the connection to `p`.
async fn lose(k: usize, p: &mut Peer) {
    let n = p.node();
    match k {
        0 => by_process(move || Node::disconnect(n)).await,
        1 => by_process(move || Node::forget(n)).await,
        2 => by_process(Node::stop).await,
        3 => p.sock.as_ref().unwrap().vx_cut(),
        4 => p.close(),
        5 => p.put(p.hello()),
        6 => p.sock.as_ref().unwrap().vx_write(&[1, 0, 0, 0, 77]),
        7 => p.put(Frame::Link(Link { install: true, process_id: 0, from_id: 3 })),
        8 => p.put(Frame::Monitor(Monitor { install: true, process_id: None, process_name: None, from_id: Some(3), reference_id: 4 })),
        _ => tokio::time::sleep(Duration::from_secs(46)).await,
    }
    quiesce().await;
}

harness! {
    // One connection is lost in every way, whatever is held; then it is set up again.
    fn p22_loss() {
        block_on(async {
            start().await;
            let mut p = Peer::listening("p", 1400).await;
            let mut q = Peer::new("q", 1401);
            let k = pick(LOSSES, "loss");
            let incoming = flip("incoming");
            q.join().await;
            let wd = World::new().await;
            let what = pick(16, "held");
            let back = pick(4, "held_back");
            let mut h;
            if incoming {
                p.join().await;
                h = wd.hold(&mut p, what).await;
            } else {
                // what is held may be what sets the connection up
                h = wd.hold(&mut p, what).await;
                if what & 15 == 0 { let n = p.node(); by_process(move || Node::connect(n)).await; }
                p.answer().await;
            }
            wd.hold_back(&mut p, &mut h, back).await;
            let mut hq = wd.hold(&mut q, 13).await;
            wd.hold_back(&mut q, &mut hq, 3).await;
            let rp = p.pid(8);
            let rq = q.pid(8);
            check(wd.a.log.len() == 0 && wd.o.log.len() == 0, "nothing is reported while a node is connected");
            if k == 9 {
                // only p falls silent
                let s = q.sock.as_ref().unwrap();
                tokio::time::sleep(Duration::from_secs(20)).await;
                s.vx_write(&encode(Frame::Ping));
                tokio::time::sleep(Duration::from_secs(24)).await;
                check(state(&p.node()) == Some(NodeState::Connected), "a node may be silent for a while");
                s.vx_write(&encode(Frame::Ping));
                tokio::time::sleep(Duration::from_secs(2)).await;
                quiesce().await;
            } else {
                lose(k, &mut p).await;
            }
            cover(k as u32);
            check(p.closed(), "the connection is closed");
            wd.lost(&p, &h);
            let st = if k == 1 || k == 2 { None } else { Some(NodeState::Known) };
            check(state(&p.node()) == st, "a lost node is known, unless it was forgotten");
            let mut list = Node::list();
            list.sort();
            let (l, m) = wd.held();
            if k == 2 {
                wd.lost(&q, &hq);
                wd.total(&[&h, &hq]);
                check(list.is_empty() && !Node::alive() && q.closed(), "stopping the local node loses every node");
                check(l.is_empty() && m.is_empty(), "nothing is held on behalf of a lost node");
            } else {
                wd.kept(&hq);
                wd.total(&[&h]);
                check(list == if k == 1 { vec![q.node()] } else { vec![p.node(), q.node()] }, "the nodes are listed");
                check(state(&q.node()) == Some(NodeState::Connected) && !q.closed(), "other nodes stay connected");
                check(l.contains(&rq) && m.contains(&rq), "what other nodes hold is left alone");
                check(!m.contains(&rp) && !l.contains(&rp), "nothing is held on behalf of a lost node");
            }
            let exits: Vec<Pid> = wd.b.exits().into_iter().map(|e| { check(e.1 == noconn(), "noconnection"); e.0 }).collect();
            let mut want = vec![];
            if h.linked { want.push(rp); }
            if k == 2 { want.push(rq); }
            check(exits.len() == want.len() && want.iter().all(|w| exits.contains(w)), "links a node made signal as well, once");
            // it is connected again
            p.close();
            q.got();
            if k == 2 {
                by_process(|| { Node::start(ME, NodeOptions::new()); }).await;
            }
            let n = p.node();
            if flip("dial") { by_process(move || Node::connect(n)).await; p.answer().await; } else { p.join().await; }
            check(p.got().is_empty(), "nothing of before is sent");
            let r = p.pid(7);
            check(h.link.map(|l| l == r).unwrap_or(true) || k == 1 || k == 2, "a node that was lost keeps its identity");
            let before = wd.a.log.len();
            wd.a.run(move || { Process::link(r); Process::send(r, 1u32); }).await;
            let g = p.got();
            check(g.len() == 2 && matches!(g[0], Frame::Link(_)) && matches!(g[1], Frame::Send(_)), "a new connection works");
            p.put(Frame::LinkDown(LinkDown { links: vec![number(wd.a.pid)], from_id: 7, exit_reason: ExitReason::from("new") }));
            quiesce().await;
            check(wd.a.log.len() == before + 1 && wd.a.exits().last() == Some(&(r, ExitReason::from("new"))), "in both directions");
            wd.b.stop();
            quiesce().await;
            check(p.got().is_empty(), "nothing held before the loss is held after");
            if k != 2 { check(q.got().len() == 2, "what other nodes hold is still held"); }
            cover(20);
        });
    }
    // A connection that is not established in the end.
    fn p22_attempt() {
        block_on(async {
            start().await;
            let k = pick(8, "end");
            let refused = k == 0;
            let mut p = if refused { Peer::new("p", 1400) } else { Peer::listening("p", 1400).await };
            let wd = World::new().await;
            let what = pick(16, "held");
            let h = wd.hold(&mut p, what).await;
            let (n, r) = (p.node(), p.pid(7));
            let connect = what == 0;
            wd.o.run(move || { if connect { Node::connect(n); } Process::send(r, 1u32); }).await;
            if !refused {
                check(p.accept(), "the node is dialled, once");
                check(wd.a.log.len() == 0 && state(&p.node()) == Some(NodeState::Pending), "a node is pending while it is dialled");
                let n = p.node();
                match k {
                    1 => p.close(),
                    2 => p.sock.as_ref().unwrap().vx_cut(),
                    3 => p.put(Frame::Ping),
                    4 => tokio::time::sleep(Duration::from_secs(6)).await,
                    5 => by_process(move || Node::disconnect(n)).await,
                    6 => by_process(move || Node::forget(n)).await,
                    _ => by_process(Node::stop).await,
                }
                quiesce().await;
                check(p.closed() && !p.accept(), "the attempt is over");
            }
            cover(k as u32);
            wd.lost(&p, &h);
            wd.total(&[&h]);
            check(state(&p.node()) == if k > 5 { None } else { Some(NodeState::Known) }, "a node that could not be connected is known, unless it was forgotten");
            p.close();
            if k == 7 { by_process(|| { Node::start(ME, NodeOptions::new()); }).await; }
            if flip("dial") {
                let mut p = if refused { Peer::listening("p", 1400).await } else { p };
                let n = p.node();
                by_process(move || Node::connect(n)).await;
                p.answer().await;
                check(p.got().is_empty(), "nothing of the failed attempt is sent");
            } else {
                p.join().await;
                check(p.got().is_empty(), "nothing of the failed attempt is sent");
            }
            wd.total(&[&h]);
            cover(20);
        });
    }
    // k operations on two nodes, and what they must report.
    fn p22_ops() {
        block_on(async {
            start().await;
            let mut ps = [Peer::listening("p", 1400).await, Peer::listening("q", 1401).await];
            let a = Agent::new(true).await;
            #[derive(PartialEq, Clone, Copy)]
            enum S { Off, Dialling, On }
            let mut st = [S::Off, S::Off];
            let mut link = [false, false];
            let mut mons: [Vec<Reference>; 2] = [vec![], vec![]];
            let mut nms: [Vec<Reference>; 2] = [vec![], vec![]];
            let (mut exits, mut downs, mut ndowns) = (0, 0, 0);
            for i in 0..param(0) {
                let t = if i == 0 { 0 } else { pick(2, "node") };
                let p = &mut ps[t];
                let (n, r) = (p.node(), p.pid(7));
                let k = pick(11, "op");
                cover(k as u32);
                let mut lost = false;
                match k {
                    0 => {
                        assume(st[t] != S::On);
                        let mut d = Peer::new(&p.name.clone(), 1);
                        d.addr = p.addr;
                        let waiting = d.join_with().await;
                        check(st[t] == S::Dialling || waiting.is_empty(), "nothing of before is sent");
                        p.sock = d.sock.take();
                        st[t] = S::On;
                    }
                    1 => {
                        assume(st[t] == S::Dialling);
                        p.put(p.hello());
                        quiesce().await;
                        st[t] = S::On;
                    }
                    2 => a.run(move || Node::connect(n)).await,
                    3 => {
                        a.run(move || Process::link(r)).await;
                        link[t] = true;
                    }
                    4 => mons[t].push(a.eval(move || Process::monitor(r)).await),
                    5 => nms[t].push(a.eval(move || Node::monitor(n)).await),
                    6 => {
                        a.run(move || Process::unlink(r)).await;
                        link[t] = false;
                    }
                    7 => {
                        if let Some(m) = mons[t].pop() { a.run(move || Process::demonitor(m)).await; }
                        if let Some(m) = nms[t].pop() { a.run(move || Node::demonitor(m)).await; }
                    }
                    8 => {
                        a.run(move || Node::disconnect(n)).await;
                        lost = true;
                    }
                    9 => {
                        assume(st[t] != S::Off);
                        p.close();
                        quiesce().await;
                        lost = true;
                    }
                    _ => {
                        assume(st[t] == S::On);
                        p.put(Frame::LinkDown(LinkDown { links: vec![number(a.pid)], from_id: 7, exit_reason: ExitReason::Kill }));
                        quiesce().await;
                        if link[t] { exits += 1; link[t] = false; }
                    }
                }
                if k >= 2 && k <= 5 && st[t] == S::Off {
                    check(p.accept(), "a node is dialled when it is needed");
                    st[t] = S::Dialling;
                } else if k != 0 {
                    check(!p.accept(), "a node is dialled once");
                }
                if lost {
                    if link[t] { exits += 1; link[t] = false; }
                    downs += mons[t].len();
                    ndowns += nms[t].len();
                    mons[t].clear();
                    nms[t].clear();
                    if st[t] != S::Off { check(p.closed(), "the connection is closed"); }
                    p.close();
                    st[t] = S::Off;
                    cover(20);
                }
                check(a.exits().len() == exits && a.downs().len() == downs && nodes(&a).len() == ndowns, "each loss is reported to everything that is held, once");
                for t in 0..2 {
                    let want = match st[t] { S::Off => NodeState::Known, S::Dialling => NodeState::Pending, S::On => NodeState::Connected };
                    let s = state(&ps[t].node());
                    check(s == Some(want) || s.is_none() && st[t] == S::Off, "the state of a node shows its connection");
                }
            }
        });
    }
    // The connection is lost while something is being set up or given up by a local process.
    fn p22_race() {
        block_on(async {
            start().await;
            let mut p = Peer::new("p", 1400);
            p.join().await;
            let a = Agent::new(true).await;
            let (r, n) = (p.pid(7), p.node());
            let what = pick(5, "what");
            let k = pick(4, "loss");
            let early = if what == 4 { Some(a.eval(move || { Process::link(r); Process::monitor(r) }).await) } else { None };
            budget(param(0) as u32, param(1) as u32);
            let seen = Rec::new();
            let (sn, l) = (seen.clone(), a.log.clone());
            let n2 = n.clone();
            a.tell(move || match what {
                0 => Process::link(r),
                1 => { Process::monitor(r); }
                2 => { Process::monitor(("name", n2)); }
                3 => { Node::monitor(n2); }
                _ => {
                    Process::demonitor(early.unwrap());
                    sn.push(l.get().iter().filter(|m| matches!(m, SystemMessage::ProcessDown(..))).count());
                    Process::unlink(r);
                }
            });
            match k {
                0 => { Process::spawn(async move { Node::disconnect(n) }); }
                1 => { Process::spawn(async move { Node::forget(n) }); }
                2 => p.sock.as_ref().unwrap().vx_cut(),
                _ => p.close(),
            }
            quiesce().await;
            // an attempt to connect again is refused at once
            if what < 4 {
                check(a.log.len() == 1, "what is set up while a node is lost is reported, once");
                cover(what as u32);
            } else {
                check(a.exits().len() <= 1 && a.downs().len() <= seen.get()[0], "what is given up while a node is lost is reported at most once");
                cover(4);
            }
            check(!Process::info(a.pid).unwrap().links.contains(&r), "no link remains");
            let s = state(&p.node());
            check(s == Some(NodeState::Known) || s.is_none() && k == 1, "the node is not connected");
            check(p.closed(), "the connection is closed");
            // nothing of it comes back
            budget(0, 0);
            let before = a.log.len();
            p.close();
            p.join().await;
            check(p.got().is_empty(), "nothing of before is sent");
            p.close();
            quiesce().await;
            check(a.log.len() == before, "nothing is reported twice");
        });
    }
    // The connection is lost while the peer sets something up.
    fn p22_in_race() {
        block_on(async {
            start().await;
            let mut p = Peer::new("p", 1400);
            p.join().await;
            let b = Agent::new(true).await;
            let id = number(b.pid);
            check(Process::register(b.pid, "name").is_ok(), "a free name");
            let (r, n) = (p.pid(7), p.node());
            let what = pick(3, "what");
            let k = pick(4, "loss");
            budget(param(0) as u32, param(1) as u32);
            match what {
                0 => p.put(Frame::Link(Link { install: true, process_id: id, from_id: 7 })),
                1 => p.put(Frame::Monitor(Monitor { install: true, process_id: Some(id), process_name: None, from_id: Some(7), reference_id: 3 })),
                _ => p.put(Frame::Monitor(Monitor { install: true, process_id: None, process_name: Some("name".to_string()), from_id: Some(7), reference_id: 3 })),
            }
            match k {
                0 => { Process::spawn(async move { Node::disconnect(n) }); }
                1 => { Process::spawn(async move { Node::forget(n) }); }
                2 => { Process::spawn(async move { Node::stop() }); }
                _ => p.close(),
            }
            quiesce().await;
            let i = Process::info(b.pid).unwrap();
            check(i.links.is_empty() && i.monitored_by.is_empty(), "nothing is held on behalf of a lost node");
            check(b.log.len() <= 1 && b.exits().iter().all(|e| e.1 == noconn()), "a link is reported at most once");
            check(p.closed(), "the connection is closed");
            let before = b.log.len();
            budget(0, 0);
            p.close();
            if k == 2 { by_process(|| { Node::start(ME, NodeOptions::new()); }).await; }
            p.join().await;
            p.close();
            quiesce().await;
            check(b.log.len() == before, "nothing is reported twice");
            let _ = r;
            cover(what as u32);
        });
    }
    // A node is lost and comes back at the same time: what belongs to the new connection is not reported lost.
    fn p22_again() {
        block_on(async {
            start().await;
            let mut p = Peer::listening("p", 1400).await;
            p.join().await;
            let old = p.sock.take();
            let a = Agent::new(true).await;
            let (r, n) = (p.pid(7), p.node());
            let k = pick(3, "loss");
            let before = flip("linked");
            if before { a.run(move || Process::link(r)).await; }
            budget(param(0) as u32, param(1) as u32);
            // a disconnects and connects again, or the peer does
            match k {
                0 => a.tell(move || { Node::disconnect(n); Process::monitor(r); }),
                1 => { old.as_ref().unwrap().vx_cut(); a.tell(move || { Node::disconnect(n.clone()); Process::monitor(r); }); }
                _ => { a.tell(move || { Node::disconnect(n); }); }
            }
            quiesce().await;
            budget(0, 0);
            check(old.as_ref().unwrap().vx_closed(), "the old connection is closed");
            if k < 2 { p.answer().await; } else { p.join().await; a.run(move || { Process::monitor(r); }).await; }
            check(a.exits().len() == before as usize, "the old link is reported, once");
            check(a.downs().is_empty(), "what belongs to the new connection is not");
            check(!p.closed(), "which stays");
            p.close();
            quiesce().await;
            check(a.downs().len() == 1 && a.exits().len() == before as usize, "until it is lost itself");
            cover(k as u32);
        });
    }
    // Many processes hold something with the node that is lost.
    fn p22_many() {
        block_on(async {
            start().await;
            let n = param(0);
            let mut p = Peer::listening("p", 1400).await;
            p.join().await;
            let k = pick(LOSSES, "loss");
            let mut all = vec![];
            for i in 0..n {
                let a = Agent::new(true).await;
                let r = p.pid(10 + i % 3);
                let node = p.node();
                let m = a.eval(move || { Process::link(r); (Process::monitor(r), Node::monitor(node)) }).await;
                all.push((a, r, m));
            }
            p.got();
            for (a, _, _) in &all {
                p.put(Frame::Link(Link { install: true, process_id: number(a.pid), from_id: 8 }));
                p.put(Frame::Monitor(Monitor { install: true, process_id: Some(number(a.pid)), process_name: None, from_id: Some(8), reference_id: 1000 + number(a.pid) }));
            }
            quiesce().await;
            let own = p.pid(8);
            lose(k, &mut p).await;
            for (a, r, m) in &all {
                let e = a.exits();
                check(e.len() == 2 && e.contains(&(*r, noconn())) && e.contains(&(own, noconn())), "each link signals noconnection, once");
                check(a.downs() == vec![(Dest::from(*r), m.0, noconn())], "each monitor yields one down message");
                check(nodes(a) == vec![(p.node(), m.1)], "each node monitor yields one node down message");
                check(a.log.len() == 4, "nothing else");
                let i = Process::info(a.pid).unwrap();
                check(i.links.is_empty() && i.monitored_by.is_empty(), "nothing is left");
            }
            cover(k as u32);
        });
    }
}
