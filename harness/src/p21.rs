//! Signals and messages between nodes.
use crate::agent::*;
use crate::frames::same;
use crate::net::*;
use crate::util::*;
use hydra::verif::{Exit, Frame, Link, LinkDown, Monitor, MonitorDown, MonitorUpdate, Send as SendFrame, SendTarget};
use std::num::NonZeroU64;

/// Records every number it receives.
async fn sink(log: Rec<u32>) {
    loop {
        if let Message::User(v) = Process::receive::<u32>().await {
            log.push(v);
        }
    }
}
fn nz(n: u64) -> NonZeroU64 {
    NonZeroU64::new(n).unwrap()
}
/// A small number that needs one byte on the wire.
fn small(name: &str) -> u32 {
    let v = sym_u8(name);
    assume(v < 128);
    v as u32
}
fn only(v: Vec<Frame>, want: Vec<Frame>, msg: &str) {
    check(v.len() == want.len() && v.iter().zip(want.iter()).all(|(a, b)| same(a, b)), msg);
}
/// What a process gets to see of a signal.
fn view(a: &Agent, from: Pid) -> (bool, Vec<ExitReason>) {
    for e in a.exits() {
        check(e.0 == from, "an exit message names the process the signal came from");
    }
    (Process::alive(a.pid), a.exits().into_iter().map(|e| e.1).collect())
}
fn link(install: bool, process: u64, from: u64) -> Frame {
    Frame::Link(Link { install, process_id: process, from_id: from })
}
fn link_down(from: u64, links: Vec<u64>, r: &ExitReason) -> Frame {
    Frame::LinkDown(LinkDown { links, from_id: from, exit_reason: r.clone() })
}
fn monitor_down(monitors: Vec<u64>, r: &ExitReason) -> Frame {
    Frame::MonitorDown(MonitorDown { monitors, exit_reason: r.clone() })
}
fn exit_of(a: &Agent, kind: usize, r: &ExitReason, s: &Agent) {
    let (p, r) = (a.pid, r.clone());
    if kind == 0 { a.stop() } else { s.tell(move || Process::exit(p, r)) }
}

harness! {
    // A peer sends to any targets, several at a time.
    fn p21_send() {
        block_on(async {
            start().await;
            let mut p = Peer::new("p", 1400);
            p.join().await;
            let logs = [Rec::new(), Rec::new()];
            let a = Process::spawn(sink(logs[0].clone()));
            let b = Process::spawn(sink(logs[1].clone()));
            let c = Process::spawn(async {});
            check(Process::register(a, "name").is_ok(), "a free name");
            quiesce().await;
            let reply = flip("reply");
            // b has an alias; it must be created by b itself
            let al = Rec::new();
            let q = al.clone();
            let l = logs[1].clone();
            let e = Process::spawn(async move {
                q.push(Process::alias(reply));
                sink(l).await;
            });
            quiesce().await;
            let alias = al.get()[0];
            let mut alias_alive = true;
            let mut want: [Vec<u32>; 2] = [vec![], vec![]];
            for _ in 0..param(0) {
                let n = small("value");
                let mut f = SendFrame::with_message(payload(&n));
                for _ in 0..pick(param(1) as usize + 1, "targets") {
                    let k = pick(7, "target");
                    cover(k as u32);
                    f.targets.push(match k {
                        0 => SendTarget::Pid(nz(number(a))),
                        1 => SendTarget::Pid(nz(number(b))),
                        2 => SendTarget::Pid(nz(number(c))),
                        3 => SendTarget::Named("name".to_string()),
                        4 => SendTarget::Named("nobody".to_string()),
                        5 => SendTarget::Alias(nz(number(alias))),
                        _ => SendTarget::Alias(nz(999)),
                    });
                    if k == 0 || k == 3 { want[0].push(n); }
                    if k == 1 { want[1].push(n); }
                    if k == 5 && alias_alive {
                        want[1].push(n);
                        alias_alive = !reply;
                    }
                }
                p.put(Frame::Send(f));
                if flip("wait") { quiesce().await; }
            }
            quiesce().await;
            check(*logs[0].get() == want[0], "each message reaches each of its targets once, in order");
            // b and e write to one log; without an alias the order is that of the frames
            let mut x = logs[1].get().clone();
            let mut y = want[1].clone();
            x.sort();
            y.sort();
            check(x == y, "each message reaches the alias while it is active");
            check(p.got().is_empty() && !p.closed(), "unknown targets disturb nothing");
            let _ = e;
            cover(20);
        });
    }
    // A local process sends to any remote destinations while the connection is being set up, or after.
    fn p21_out() {
        block_on(async {
            start().await;
            let mut p = Peer::listening("p", 1400).await;
            let mut q = Peer::listening("q", 1401).await;
            let incoming = flip("incoming");
            let s = Agent::new(false).await;
            let log = Rec::new();
            let local = Process::spawn(sink(log.clone()));
            let (p1, p2, q1) = (p.pid(1), p.pid(2), q.pid(1));
            let al = p.reference(5);
            if incoming {
                p.join().await;
            } else {
                let n = p.node();
                s.run(move || Node::connect(n)).await;
            }
            q.join().await;
            let up = if incoming { 0 } else { pick(param(0) as usize + 1, "connected_before") };
            // what p gets, one entry per target and message
            let mut want: Vec<(u8, u32)> = vec![];
            let mut want_q: Vec<u32> = vec![];
            let mut want_l: Vec<u32> = vec![];
            for i in 0..param(0) as usize {
                if !incoming && i == up { p.answer().await; }
                let n = small("value");
                let k = pick(6, "op");
                cover(k as u32);
                let node = p.node();
                s.run(move || match k {
                    0 => Process::send(p1, n),
                    1 => Process::send(p2, n),
                    2 => Process::send(al, n),
                    3 => Process::send(("name", node), n),
                    4 => Process::send(vec![p1, local, q1, p2], n),
                    _ => Process::send(vec![Dest::from(local), Dest::from(local), Dest::from(("name", node)), Dest::from(al)], n),
                }).await;
                match k {
                    0 => want.push((1, n)),
                    1 => want.push((2, n)),
                    2 => want.push((5, n)),
                    3 => want.push((9, n)),
                    4 => {
                        want.push((1, n));
                        want.push((2, n));
                        want_l.push(n);
                        want_q.push(n);
                    }
                    _ => {
                        want_l.push(n);
                        want_l.push(n);
                        want.push((9, n));
                        want.push((5, n));
                    }
                }
            }
            if !incoming && up == param(0) as usize { p.answer().await; cover(10); }
            quiesce().await;
            check(*log.get() == want_l, "local targets get each message once, in order");
            for (peer, want) in [(&mut p, want), (&mut q, want_q.iter().map(|n| (1, *n)).collect())] {
                let mut have: Vec<(u8, u32)> = vec![];
                for f in peer.got() {
                    let Frame::Send(f) = f else { fail("only messages were sent") };
                    let m: u32 = match rmp_serde::from_slice(&f.message) { Ok(m) => m, Err(_) => fail("the message arrives unchanged") };
                    for t in f.targets {
                        have.push((match t {
                            SendTarget::Pid(p) => p.get() as u8,
                            SendTarget::Alias(a) => a.get() as u8,
                            SendTarget::Named(n) => { check(n == "name", "the name sent to"); 9 }
                        }, m));
                    }
                }
                for t in [1u8, 2, 5, 9] {
                    let x: Vec<u32> = have.iter().filter(|h| h.0 == t).map(|h| h.1).collect();
                    let y: Vec<u32> = want.iter().filter(|h| h.0 == t).map(|h| h.1).collect();
                    check(x == y, "each remote target is sent each message once, in order");
                }
            }
            cover(11);
        });
    }
    // One frame, or one end, concerns any number of processes on either side.
    fn p21_lists() {
        block_on(async {
            start().await;
            let n = 1 + pick(param(0) as usize, "count");
            let back = flip("backwards");
            let named: Vec<bool> = (0..n).map(|_| flip("named")).collect();
            let order = |v: Vec<u64>| if back { v.into_iter().rev().collect() } else { v };
            let mut p = Peer::new("p", 1400);
            let mut q = Peer::new("q", 1401);
            p.join().await;
            q.join().await;
            let r = p.pid(7);
            let mode = pick(4, "mode");
            cover(mode as u32);
            match mode {
                0 => {
                    // a remote process ends: links of some, monitors of the others
                    let mut agents = vec![];
                    for _ in 0..n {
                        let a = Agent::new(true).await;
                        let m = a.eval(move || { Process::link(r); Process::monitor(r) }).await;
                        agents.push((a, m));
                    }
                    p.got();
                    let e = ExitReason::Custom(sym_str(1, "reason"));
                    let mut l: Vec<u64> = (0..n).filter(|i| named[*i]).map(|i| number(agents[i].0.pid)).collect();
                    l.insert(l.len() / 2, 9999);
                    p.put(link_down(7, order(l), &e));
                    let mut m: Vec<u64> = (0..n).filter(|i| !named[*i]).map(|i| number(agents[i].1)).collect();
                    m.insert(m.len() / 2, 9999);
                    p.put(monitor_down(order(m), &e));
                    quiesce().await;
                    for (i, (a, m)) in agents.iter().enumerate() {
                        let (x, d) = (a.exits(), a.downs());
                        check(x.len() == named[i] as usize && x.iter().all(|x| x.0 == r && x.1 == e), "each link named in a frame is ended once");
                        check(d.len() == !named[i] as usize && d.iter().all(|d| d.0 == Dest::Pid(r) && d.1 == *m && d.2 == e), "each monitor named in a frame fires once");
                        check(Process::info(a.pid).unwrap().links.contains(&r) == !named[i], "the others are kept");
                    }
                    check(p.got().is_empty() && q.got().is_empty(), "nothing is sent for it");
                }
                1 => {
                    // a local process ends that many on two nodes are linked to or monitor
                    let (a, s, o) = (Agent::new(false).await, Agent::new(false).await, Agent::new(true).await);
                    let (ap, id) = (a.pid, number(a.pid));
                    let m0 = o.eval(move || { Process::link(ap); Process::monitor(ap) }).await;
                    for i in 0..n {
                        let w = if named[i] { &p } else { &q };
                        w.put(link(true, id, 10 + i as u64));
                        w.put(Frame::Monitor(Monitor { install: true, process_id: Some(id), process_name: None, from_id: Some(20 + i as u64), reference_id: 30 + i as u64 }));
                    }
                    quiesce().await;
                    let kind = pick(3, "end");
                    let e = match kind { 0 => ExitReason::Normal, 1 => ExitReason::Kill, _ => ExitReason::Custom(sym_str(1, "reason")) };
                    exit_of(&a, kind, &e, &s);
                    quiesce().await;
                    for (w, on) in [(&mut p, true), (&mut q, false)] {
                        let (mut l, mut m) = (vec![], vec![]);
                        for f in w.got() {
                            match f {
                                Frame::LinkDown(f) => { check(f.from_id == id && f.exit_reason == e, "process and reason"); l.extend(f.links); }
                                Frame::MonitorDown(f) => { check(f.exit_reason == e, "the reason"); m.extend(f.monitors); }
                                _ => fail("only down messages"),
                            }
                        }
                        l.sort();
                        m.sort();
                        let want: Vec<u64> = (0..n as u64).filter(|i| named[*i as usize] == on).collect();
                        check(l == want.iter().map(|i| i + 10).collect::<Vec<u64>>(), "each link is reported once, to its node");
                        check(m == want.iter().map(|i| i + 30).collect::<Vec<u64>>(), "each monitor is reported once, to its node");
                    }
                    check(o.exits().len() == 1 && o.downs().len() == 1 && o.downs()[0].1 == m0, "local processes are told as well");
                }
                2 => {
                    // one frame for many local processes
                    let mut v = vec![];
                    for _ in 0..n {
                        let log = Rec::new();
                        v.push((Process::spawn(sink(log.clone())), log));
                    }
                    quiesce().await;
                    let x = small("value");
                    let mut f = SendFrame::with_message(payload(&x));
                    let ids: Vec<u64> = (0..n).filter(|i| named[*i]).map(|i| number(v[i].0)).collect();
                    f.targets = order(ids).into_iter().map(|i| SendTarget::Pid(nz(i))).collect();
                    f.targets.insert(f.targets.len() / 2, SendTarget::Named("nobody".to_string()));
                    p.put(Frame::Send(f));
                    quiesce().await;
                    for i in 0..n {
                        check(*v[i].1.get() == if named[i] { vec![x] } else { vec![] }, "each target of a frame gets the message once");
                    }
                }
                _ => {
                    // one message for many remote and local processes
                    let s = Agent::new(false).await;
                    let log = Rec::new();
                    let local = Process::spawn(sink(log.clone()));
                    let mut d: Vec<Pid> = vec![];
                    for i in 0..n { d.push(if named[i] { p.pid(10 + i as u64) } else { q.pid(10 + i as u64) }); }
                    for i in 0..n { d.insert(if back { i } else { 0 }, local); }
                    let x = small("value");
                    s.run(move || Process::send(d, x)).await;
                    check(*log.get() == vec![x; n], "a local target gets it once for each mention");
                    for (w, on) in [(&mut p, true), (&mut q, false)] {
                        let mut have = vec![];
                        for f in w.got() {
                            let Frame::Send(f) = f else { fail("only messages were sent") };
                            let m: u32 = match rmp_serde::from_slice(&f.message) { Ok(m) => m, Err(_) => fail("the message arrives unchanged") };
                            check(m == x, "the message arrives unchanged");
                            for t in f.targets { if let SendTarget::Pid(i) = t { have.push(i.get()) } else { fail("only pids") } }
                        }
                        have.sort();
                        check(have == (0..n).filter(|i| named[*i] == on).map(|i| 10 + i as u64).collect::<Vec<u64>>(), "each remote target is named once, to its node");
                    }
                }
            }
            check(!p.closed() && !q.closed(), "the connections are left alone");
        });
    }
    // Messages sent while the connection is being completed keep their order.
    fn p21_setup_race() {
        block_on(async {
            start().await;
            let mut p = Peer::listening("p", 1400).await;
            let s = Agent::new(false).await;
            let (p1, n) = (p.pid(1), p.node());
            let later = flip("later");
            s.run(move || { Node::connect(n); Process::send(p1, 1u32); }).await;
            check(p.accept(), "the node is dialled");
            p.put(p.hello());
            budget(param(0) as u32, param(1) as u32);
            s.tell(move || {
                Process::send(p1, 2u32);
                if later { Process::send(vec![p1], 3u32); } else { Process::send(p1, 3u32); }
                Process::send(p1, 4u32);
            });
            quiesce().await;
            let v: Vec<u32> = p.got().into_iter().map(|f| {
                let Frame::Send(f) = f else { fail("only messages were sent") };
                check(f.targets.len() == 1 && matches!(f.targets[0], SendTarget::Pid(p) if p.get() == 1), "the target");
                match rmp_serde::from_slice(&f.message) { Ok(m) => m, Err(_) => fail("the message arrives unchanged") }
            }).collect();
            check(v == vec![1, 2, 3, 4], "messages sent while a connection is set up arrive once, in order");
            cover(1);
        });
    }
    // An exit signal of another node acts like that of a local process.
    fn p21_exit() {
        block_on(async {
            start().await;
            let mut p = Peer::new("p", 1400);
            p.join().await;
            let trap = flip("trap");
            let s = Agent::new(false).await;
            let (a, b) = (Agent::new(trap).await, Agent::new(trap).await);
            let (am, bm) = (Agent::new(true).await, Agent::new(true).await);
            let (ap, bp) = (a.pid, b.pid);
            am.run(move || { Process::link(ap); }).await;
            bm.run(move || { Process::link(bp); }).await;
            let dead = flip("dead");
            if dead {
                a.stop();
                b.stop();
                quiesce().await;
                cover(1);
            }
            let r = any_reason(2);
            let from = p.pid(7);
            p.put(Frame::Exit(Exit { process_id: number(ap), from_id: 7, exit_reason: r.clone() }));
            quiesce().await;
            let r2 = r.clone();
            s.run(move || Process::exit(bp, r2)).await;
            let sp = s.pid;
            check(view(&a, from) == view(&b, sp), "an exit signal of another node does what a local one does");
            check(view(&am, ap) == view(&bm, bp), "with the same reason for everybody else");
            check(p.got().is_empty() && !p.closed(), "and disturbs nothing");
            // the other way
            let from = s.pid;
            let r2 = r.clone();
            let rp = p.pid(7);
            s.run(move || Process::exit(rp, r2)).await;
            only(p.got(), vec![Frame::Exit(Exit { process_id: 7, from_id: number(from), exit_reason: r })], "an exit signal is sent to the node of its target");
            cover(2);
        });
    }
    // Links with a process of another node: k operations of either side.
    fn p21_link() {
        block_on(async {
            start().await;
            let mut p = Peer::listening("p", 1400).await;
            let mut q = Peer::new("q", 1401);
            let late = flip("late");
            if !late { p.join().await; }
            q.join().await;
            let a = Agent::new(true).await;
            let s = Agent::new(false).await;
            let w = Agent::new(true).await;
            let (ap, id) = (a.pid, number(a.pid));
            let (r, rq) = (p.pid(7), q.pid(7));
            // unrelated links with the same number on another node, and locally
            q.put(link(true, id, 7));
            w.run(move || Process::link(ap)).await;
            let mut linked = false;
            let mut alive = true;
            if late {
                a.run(move || Process::link(r)).await;
                // it may be over before the connection is
                let early = pick(3, "early");
                if early == 1 { a.run(move || Process::unlink(r)).await; }
                if early == 2 { a.stop(); }
                p.answer().await;
                let g = p.got();
                if early > 0 {
                    let over = if early == 1 { link(false, 7, id) } else { link_down(id, vec![7], &ExitReason::Normal) };
                    if !g.is_empty() { only(g, vec![link(true, 7, id), over], "the end of a link is announced after the link"); }
                    if early == 2 { q.got(); }
                    linked = false;
                    alive = early == 1;
                    cover(14);
                } else {
                    only(g, vec![link(true, 7, id)], "a link is announced once connected");
                    linked = true;
                    cover(1);
                }
            }
            let mut signals: Vec<ExitReason> = vec![];
            for _ in 0..param(0) {
                let k = pick(6, "op");
                if !alive && (k < 2 || k == 5) { assume(false); }
                cover(2 + k as u32);
                match k {
                    0 => {
                        a.run(move || Process::link(r)).await;
                        let g = p.got();
                        if linked { check(g.len() <= 1 && g.iter().all(|f| same(f, &link(true, 7, id))), "a link is announced"); }
                        else { only(g, vec![link(true, 7, id)], "a link is announced"); }
                        linked = true;
                    }
                    1 => {
                        a.run(move || Process::unlink(r)).await;
                        let g = p.got();
                        if linked { only(g, vec![link(false, 7, id)], "unlinking is announced"); }
                        else { check(g.len() <= 1 && g.iter().all(|f| same(f, &link(false, 7, id))), "unlinking is announced"); }
                        linked = false;
                    }
                    2 => {
                        p.put(link(true, id, 7));
                        quiesce().await;
                        if alive {
                            check(p.got().is_empty(), "a link is accepted silently");
                            linked = true;
                        } else {
                            only(p.got(), vec![link_down(id, vec![7], &ExitReason::from("noproc"))], "linking to a process that has ended yields noproc");
                            cover(10);
                        }
                    }
                    3 => {
                        p.put(link(false, id, 7));
                        quiesce().await;
                        check(p.got().is_empty(), "an unlink is accepted silently");
                        linked = false;
                    }
                    4 => {
                        let e = any_reason(1);
                        p.put(link_down(7, vec![id, 999], &e));
                        quiesce().await;
                        check(p.got().is_empty(), "a link down is accepted silently");
                        if linked && alive { signals.push(e); cover(11); }
                        linked = false;
                    }
                    _ => {
                        let kind = pick(2, "end");
                        let e = if kind == 0 { ExitReason::Normal } else { ExitReason::Kill };
                        exit_of(&a, kind, &e, &s);
                        quiesce().await;
                        alive = false;
                        let want = if linked { vec![link_down(id, vec![7], &e)] } else { vec![] };
                        only(p.got(), want, "the end of a linked process is announced, with its reason");
                        only(q.got(), vec![link_down(id, vec![7], &e)], "on every node");
                        check(w.exits() == vec![(ap, e)], "and locally");
                        linked = false;
                        cover(12);
                    }
                }
                if alive {
                    let l = Process::info(ap).unwrap().links;
                    check(l.contains(&r) == linked, "the link is listed while it exists");
                    check(l.contains(&rq) && l.contains(&w.pid) && l.len() == 2 + linked as usize, "other links are left alone");
                }
                check(Process::alive(ap) == alive, "the process lives");
                check(a.exits().len() == signals.len() && a.exits().iter().zip(signals.iter()).all(|(x, y)| x.0 == r && x.1 == *y), "each end of a linked process signals once, with its reason");
                check(q.got().is_empty(), "no other frame is sent");
                check(!p.closed() && !q.closed(), "the connections are left alone");
            }
            cover(13);
        });
    }
    // A local process monitors one of another node, by pid or by name; k operations.
    fn p21_monitor() {
        block_on(async {
            start().await;
            let mut p = Peer::listening("p", 1400).await;
            let mut q = Peer::new("q", 1401);
            let late = flip("late");
            let named = flip("named");
            let alias = pick(3, "alias");
            if !late { p.join().await; }
            q.join().await;
            let a = Agent::new(true).await;
            let id = number(a.pid);
            let (r, node) = (p.pid(7), p.node());
            // an unrelated monitor on another node, and one of a local process
            let rq = q.pid(7);
            let mq = a.eval(move || Process::monitor(rq)).await;
            let d: Dest = if named { Dest::from(("name", node)) } else { Dest::from(r) };
            let d2 = d.clone();
            let m = a.eval(move || match alias {
                0 => Process::monitor(d2),
                n => Process::monitor_alias(d2, n == 2),
            }).await;
            let mn = number(m);
            let mut active = true;
            let mut alive = true;
            let mut want = vec![Frame::Monitor(Monitor {
                install: true,
                process_id: if named { None } else { Some(7) },
                process_name: if named { Some("name".to_string()) } else { None },
                from_id: Some(id),
                reference_id: mn,
            })];
            let mut over = false;
            if late {
                // it may be over before the connection is
                let early = pick(3, "early");
                if early == 1 { a.run(move || Process::demonitor(m)).await; }
                if early == 2 { a.stop(); }
                if early > 0 {
                    over = true;
                    active = false;
                    alive = early == 1;
                    cover(14);
                }
                p.answer().await;
                if over && !named { want.push(Frame::Monitor(Monitor { install: false, process_id: Some(7), process_name: None, from_id: None, reference_id: mn })); }
            }
            let g = p.got();
            if !over || !g.is_empty() { only(g, want, "a monitor is announced, and so is its end"); }
            only(q.got(), vec![Frame::Monitor(Monitor { install: true, process_id: Some(7), process_name: None, from_id: Some(id), reference_id: number(mq) })].into_iter().chain((!alive).then(|| Frame::Monitor(Monitor { install: false, process_id: Some(7), process_name: None, from_id: None, reference_id: number(mq) }))).collect(), "to the node of the process");
            let uninstall = |known: bool| if known { vec![Frame::Monitor(Monitor { install: false, process_id: Some(7), process_name: None, from_id: None, reference_id: mn })] } else { vec![] };
            let mut known = !named;
            let mut down: Option<ExitReason> = None;
            for _ in 0..param(0) {
                let k = pick(6, "op");
                if !alive && (k == 0 || k == 5) { assume(false); }
                cover(k as u32);
                match k {
                    0 => {
                        a.run(move || Process::demonitor(m)).await;
                        let g = p.got();
                        if active { only(g, uninstall(known), "demonitor takes effect on the other node"); }
                        else { check(g.len() <= 1, "a stale demonitor is harmless"); }
                        if active && !known { cover(10); }
                        active = false;
                    }
                    1 => {
                        // the other node resolves the name; only once, and only for a name
                        assume(named && !known);
                        p.put(Frame::MonitorUpdate(MonitorUpdate { process_id: id, from_id: 7, reference_id: mn }));
                        quiesce().await;
                        let g = p.got();
                        if down.is_none() { only(g, uninstall(!active), "a monitor that no longer exists is removed once the process is known"); }
                        else { check(g.len() <= 1, "a stale demonitor is harmless"); }
                        known = true;
                    }
                    2 => {
                        let e = any_reason(1);
                        p.put(monitor_down(vec![mn, 998], &e));
                        quiesce().await;
                        check(p.got().is_empty(), "a down message is accepted silently");
                        if active {
                            if alive { down = Some(e); }
                            active = false;
                        }
                    }
                    3 => {
                        // messages over the alias
                        p.put(Frame::Send(SendFrame::with_alias(nz(mn), payload(&1u32))));
                        p.put(monitor_down(vec![997], &ExitReason::Kill));
                        quiesce().await;
                        check(p.got().is_empty(), "unknown references are ignored");
                    }
                    4 => {
                        // the other node has a monitor of that number as well, and a node that isn't concerned reports it
                        q.put(monitor_down(vec![mn], &ExitReason::Kill));
                        quiesce().await;
                    }
                    _ => {
                        a.stop();
                        quiesce().await;
                        alive = false;
                        let g = p.got();
                        if active { only(g, uninstall(known), "the monitors of a process end with it"); }
                        else { check(g.len() <= 1, "a stale demonitor is harmless"); }
                        if active && !known { cover(11); }
                        active = false;
                        only(q.got(), vec![Frame::Monitor(Monitor { install: false, process_id: Some(7), process_name: None, from_id: None, reference_id: number(mq) })], "on every node");
                    }
                }
                let want: Vec<(Dest, Reference, ExitReason)> = down.iter().map(|e| (d.clone(), m, e.clone())).collect();
                check(a.downs() == want, "a monitor yields one down message, with its reason");
                check(q.got().is_empty(), "no other frame is sent");
                check(!p.closed() && !q.closed(), "the connections are left alone");
                if active { cover(12); }
            }
            if alive {
                q.put(monitor_down(vec![number(mq)], &ExitReason::Kill));
                quiesce().await;
                check(a.downs().last() == Some(&(Dest::from(rq), mq, ExitReason::Kill)), "other monitors are left alone");
            }
            cover(13);
        });
    }
    // A peer monitors local processes, by pid or by name; k operations.
    fn p21_monitored() {
        block_on(async {
            start().await;
            let mut p = Peer::new("p", 1400);
            let mut q = Peer::new("q", 1401);
            p.join().await;
            q.join().await;
            let (a, s) = (Agent::new(false).await, Agent::new(false).await);
            let (ap, id) = (a.pid, number(a.pid));
            check(Process::register(ap, "name").is_ok(), "a free name");
            let (rp, rq) = (p.pid(7), q.pid(7));
            // the same numbers on another node
            q.put(Frame::Monitor(Monitor { install: true, process_id: Some(id), process_name: None, from_id: Some(7), reference_id: 1 }));
            quiesce().await;
            check(q.got().is_empty(), "a monitor is accepted silently");
            let mut alive = true;
            let mut have = [false; 3];
            for _ in 0..param(0) {
                let k = pick(5, "op");
                if !alive && k == 4 { assume(false); }
                cover(k as u32);
                let n = 1 + pick(2, "reference");
                match k {
                    0 => {
                        assume(!have[n]);
                        p.put(Frame::Monitor(Monitor { install: true, process_id: Some(id), process_name: None, from_id: Some(7), reference_id: n as u64 }));
                        quiesce().await;
                        let want = if alive { vec![] } else { vec![monitor_down(vec![n as u64], &ExitReason::from("noproc"))] };
                        only(p.got(), want, "monitoring a process that has ended yields noproc");
                        have[n] = alive;
                    }
                    1 => {
                        assume(!have[n]);
                        p.put(Frame::Monitor(Monitor { install: true, process_id: None, process_name: Some("name".to_string()), from_id: Some(7), reference_id: n as u64 }));
                        quiesce().await;
                        let want = if alive {
                            Frame::MonitorUpdate(MonitorUpdate { process_id: 7, from_id: id, reference_id: n as u64 })
                        } else {
                            monitor_down(vec![n as u64], &ExitReason::from("noproc"))
                        };
                        only(p.got(), vec![want], "monitoring a name tells the process, or yields noproc");
                        have[n] = alive;
                    }
                    2 => {
                        p.put(Frame::Monitor(Monitor { install: true, process_id: None, process_name: Some("nobody".to_string()), from_id: Some(7), reference_id: 9 }));
                        quiesce().await;
                        only(p.got(), vec![monitor_down(vec![9], &ExitReason::from("noproc"))], "monitoring a name nobody has yields noproc");
                    }
                    3 => {
                        p.put(Frame::Monitor(Monitor { install: false, process_id: Some(id), process_name: None, from_id: None, reference_id: n as u64 }));
                        quiesce().await;
                        check(p.got().is_empty(), "a demonitor is accepted silently");
                        have[n] = false;
                    }
                    _ => {
                        let kind = pick(3, "end");
                        let e = match kind { 0 => ExitReason::Normal, 1 => ExitReason::Kill, _ => ExitReason::Custom(sym_str(1, "reason")) };
                        exit_of(&a, kind, &e, &s);
                        quiesce().await;
                        alive = false;
                        let mut got: Vec<u64> = vec![];
                        for f in p.got() {
                            let Frame::MonitorDown(f) = f else { fail("only down messages") };
                            check(f.exit_reason == e, "the reason reaches the monitors unchanged");
                            got.extend(f.monitors);
                        }
                        got.sort();
                        check(got == (1..3).filter(|n| have[*n as usize]).collect::<Vec<u64>>(), "each monitor gets one down message");
                        only(q.got(), vec![monitor_down(vec![1], &e)], "on every node");
                        have = [false; 3];
                        cover(5);
                    }
                }
                if alive {
                    let m = Process::info(ap).unwrap().monitored_by;
                    check(m.iter().filter(|x| **x == rp).count() == have.iter().filter(|h| **h).count() && m.contains(&rq), "monitors are listed");
                }
                check(q.got().is_empty(), "no other frame is sent");
                check(!p.closed() && !q.closed(), "the connections are left alone");
            }
            cover(6);
        });
    }
    // A peer links to, or monitors, a process while it ends: exactly one answer.
    fn p21_in_race() {
        block_on(async {
            start().await;
            let mut p = Peer::new("p", 1400);
            p.join().await;
            let (a, s) = (Agent::new(false).await, Agent::new(false).await);
            let id = number(a.pid);
            let ap = a.pid;
            check(Process::register(ap, "name").is_ok(), "a free name");
            let k = pick(4, "kind");
            budget(param(0) as u32, param(1) as u32);
            if flip("killed") { s.tell(move || Process::exit(ap, ExitReason::Kill)); } else { a.stop(); }
            match k {
                0 => p.put(link(true, id, 7)),
                1 => p.put(Frame::Monitor(Monitor { install: true, process_id: Some(id), process_name: None, from_id: Some(7), reference_id: 3 })),
                2 => p.put(Frame::Monitor(Monitor { install: true, process_id: None, process_name: Some("name".to_string()), from_id: Some(7), reference_id: 3 })),
                _ => p.put(Frame::Exit(Exit { process_id: id, from_id: 7, exit_reason: ExitReason::Kill })),
            }
            quiesce().await;
            check(!Process::alive(ap), "the process has ended");
            let mut n = 0;
            let mut other = 0;
            for f in p.got() {
                match f {
                    Frame::LinkDown(f) => { check(k == 0 && f.links == vec![7] && f.from_id == id, "the link"); n += 1; }
                    Frame::MonitorDown(f) => { check((k == 1 || k == 2) && f.monitors == vec![3], "the monitor"); n += 1; }
                    Frame::MonitorUpdate(f) => { check(k == 2 && f.process_id == 7 && f.from_id == id && f.reference_id == 3, "the monitor"); other += 1; }
                    _ => fail("an unexpected frame"),
                }
            }
            check(n == (k < 3) as usize && other <= 1, "linking to or monitoring a process while it ends yields one down message");
            check(!p.closed(), "and leaves the connection alone");
            cover(k as u32);
        });
    }
    // A local process gives up a link or monitor while the other node reports the end.
    fn p21_out_race() {
        block_on(async {
            start().await;
            let mut p = Peer::new("p", 1400);
            p.join().await;
            let a = Agent::new(true).await;
            let id = number(a.pid);
            let r = p.pid(7);
            let node = p.node();
            let k = pick(4, "kind");
            let seen = Rec::new();
            let (l, sn) = (a.log.clone(), seen.clone());
            let m = a.eval(move || match k {
                0 => { Process::link(r); None }
                1 => Some(Process::monitor(r)),
                2 => Some(Process::monitor(("name", node))),
                _ => Some(Process::monitor_alias(r, false)),
            }).await;
            p.got();
            budget(param(0) as u32, param(1) as u32);
            a.tell(move || {
                if let Some(m) = m { Process::demonitor(m) } else { Process::unlink(r) }
                sn.push(l.len());
            });
            let update = k == 2 && flip("update");
            if update { p.put(Frame::MonitorUpdate(MonitorUpdate { process_id: id, from_id: 7, reference_id: number(m.unwrap()) })); }
            let down = !update || flip("down");
            if down {
                match m {
                    Some(m) => p.put(monitor_down(vec![number(m)], &ExitReason::Kill)),
                    None => p.put(link_down(7, vec![id], &ExitReason::from("x"))),
                }
            }
            quiesce().await;
            if m.is_some() {
                check(a.downs().len() <= seen.get()[0], "nothing arrives after demonitor");
                if update && !down {
                    only(p.got(), vec![Frame::Monitor(Monitor { install: false, process_id: Some(7), process_name: None, from_id: None, reference_id: number(m.unwrap()) })], "the monitor is removed on the other node, once");
                    cover(10);
                }
            } else {
                check(a.exits().len() <= 1, "a link signals once");
                check(!Process::info(a.pid).unwrap().links.contains(&r), "the link is gone");
            }
            check(!p.closed() && Process::alive(a.pid), "the connection is left alone");
            cover(k as u32);
        });
    }
    // Many messages while the connection is being set up, and after.
    fn p21_many() {
        block_on(async {
            start().await;
            let n = param(0) as u32;
            let mut p = Peer::listening("p", 1400).await;
            let s = Agent::new(false).await;
            let to = p.pid(1);
            let v = sym_u8("value") as u32;
            let early = pick(3, "early");
            let (k, m) = match early { 0 => (n, 0), 1 => (0, n), _ => (n / 2, n - n / 2) };
            let node = p.node();
            s.run(move || { Node::connect(node); for i in 0..k { Process::send(to, 1000 + v + i) } }).await;
            p.answer().await;
            s.run(move || for i in k..k + m { Process::send(to, 1000 + v + i) }).await;
            let got = p.got();
            check(got.len() == n as usize, "every message is sent once");
            for (i, f) in got.iter().enumerate() {
                check(same(f, &Frame::Send(SendFrame::with_pid(nz(1), payload(&(1000 + v + i as u32))))), "in order");
            }
            cover(early as u32);
        });
    }
    // Many frames in one piece, or cut in two anywhere.
    fn p21_burst() {
        block_on(async {
            start().await;
            let n = param(0) as u32;
            let mut p = Peer::new("p", 1400);
            p.join().await;
            let log = Rec::new();
            let a = Process::spawn(sink(log.clone()));
            let v = 0;
            quiesce().await;
            let mut b = vec![];
            for i in 0..n { b.extend(encode(Frame::Send(SendFrame::with_pid(nz(number(a)), payload(&(1000 + v + i)))))); }
            if flip("cut") {
                let k = (b.len() - 1) * pick(param(1) as usize, "first part") / (param(1) as usize - 1);
                p.sock.as_ref().unwrap().vx_write(&b[..k]);
                quiesce().await;
                p.sock.as_ref().unwrap().vx_write(&b[k..]);
                cover(1);
            } else { p.sock.as_ref().unwrap().vx_write(&b); cover(0); }
            quiesce().await;
            check(log.len() == n as usize, "every message arrives once");
            for (i, x) in log.get().iter().enumerate() { check(*x == 1000 + v + i as u32, "in order"); }
            check(p.got().is_empty() && !p.closed(), "nothing else happens");
        });
    }
}
