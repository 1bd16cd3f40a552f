//! Message delivery.
use crate::agent::*;
use crate::util::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct Msg {
    from: u8,
    seq: u8,
    x: u64,
    text: String,
    pid: Option<Pid>,
    alias: Option<Reference>,
    dest: Option<Dest>,
}
fn msg(from: u8, seq: u8) -> Msg {
    Msg { from, seq, x: 0, text: String::new(), pid: None, alias: None, dest: None }
}
/// Records every message it gets; registered as `name`, and reachable over an alias.
async fn sink(name: &'static str) -> (Pid, Reference, Rec<Msg>) {
    let log = Rec::new();
    let l = log.clone();
    let al = Rec::new();
    let a = al.clone();
    let p = Process::spawn(async move {
        a.push(Process::alias(false));
        loop {
            match Process::receive::<Msg>().await {
                Message::User(m) => l.push(m),
                Message::System(_) => {
                    let mut m = msg(99, 99);
                    m.x = 99;
                    l.push(m)
                }
            }
        }
    });
    quiesce().await;
    let _ = Process::register(p, name);
    (p, al.get()[0], log)
}
fn by(route: usize, p: Pid, name: &'static str, a: Reference, other: Pid, m: Msg) {
    match route {
        0 => Process::send(p, m),
        1 => Process::send(name, m),
        2 => Process::send(a, m),
        3 => Process::send(vec![other, p], m),
        4 => Process::send(vec![Dest::Pid(other), Dest::Named(name.into(), Node::Local)], m),
        _ => Process::send(vec![Dest::Pid(other), Dest::Alias(a)], m),
    }
}

harness! {
    // Two senders, several messages each, by any route, in any schedule.
    fn p03_order() {
        block_on(async {
            let (p, al, log) = sink("p").await;
            let (o, _, olog) = sink("o").await;
            let (z, _, zlog) = sink("z").await;
            let _ = z;
            let a = Agent::new(false).await;
            let b = Agent::new(false).await;
            let n = param(2) as u8;
            let mut multi = 0;
            let mut routes = vec![];
            for _ in 0..2 * n {
                let r = pick(param(3) as usize, "route");
                if r >= 3 { multi += 1; }
                routes.push(r);
            }
            let (ra, rb) = (routes[..n as usize].to_vec(), routes[n as usize..].to_vec());
            budget(param(0) as u32, param(1) as u32);
            a.tell(move || for (i, r) in ra.iter().enumerate() { by(*r, p, "p", al, o, msg(1, i as u8)) });
            b.tell(move || for (i, r) in rb.iter().enumerate() { by(*r, p, "p", al, o, msg(2, i as u8)) });
            quiesce().await;
            budget(0, 0);
            for s in [1u8, 2] {
                let v: Vec<u8> = log.get().iter().filter(|m| m.from == s).map(|m| m.seq).collect();
                check(v == (0..n).collect::<Vec<u8>>(), "each message of a sender exactly once, in sending order");
            }
            check(log.len() == 2 * n as usize, "nothing else arrives");
            check(olog.len() == multi && zlog.len() == 0, "no message in another mailbox");
            cover(1);
        });
    }
    // One send to any list of destinations, existing or not, with any contents.
    fn p03_multi() {
        block_on(async {
            let (a, aa, la) = sink("a").await;
            let (b, ba, lb) = sink("b").await;
            let (d, da, ld) = sink("d").await;
            let s = Agent::new(false).await;
            s.run(move || Process::exit(d, ExitReason::Kill)).await;
            let n = 1 + pick(param(0) as usize, "count");
            let mut dests: Vec<Dest> = vec![];
            let (mut ca, mut cb) = (0, 0);
            for _ in 0..n {
                let kinds = if param(2) == 0 { 8 } else { param(2) as usize };
                dests.push(match pick(kinds, "dest") {
                    0 => { ca += 1; Dest::Pid(a) }
                    1 => { cb += 1; Dest::Alias(ba) }
                    2 => { ca += 1; Dest::from("a") }
                    3 => Dest::Pid(d),
                    4 => { cb += 1; Dest::Pid(b) }
                    5 => Dest::from("d"),
                    6 => Dest::Alias(da),
                    _ => { ca += 1; Dest::Alias(aa) }
                });
            }
            let m = Msg { from: 1, seq: 2, x: sym_u64("x"), text: sym_str(param(1) as usize, "text"), pid: Some(a), alias: Some(ba), dest: Some(Dest::Alias(aa)) };
            Process::send(dests, m.clone());
            Process::send(a, msg(3, 3));
            Process::send(vec![b, d], msg(3, 3));
            quiesce().await;
            check(la.len() == ca + 1 && lb.len() == cb + 1 && ld.len() == 0, "one copy for each entry that names a live process");
            for l in [&la, &lb] {
                let l = l.get();
                for x in &l[..l.len() - 1] { check(*x == m, "the message arrives unchanged"); }
                check(l[l.len() - 1] == msg(3, 3), "and before later ones");
            }
            cover(n as u32);
        });
    }
    // Messages to a process that is just ending: dropped or delivered, nothing else.
    fn p03_ending() {
        block_on(async {
            let (p, al, log) = sink("p").await;
            let (o, _, olog) = sink("o").await;
            let s = Agent::new(false).await;
            let a = Agent::new(false).await;
            let r = pick(6, "route");
            let q = pick(6, "route");
            budget(param(0) as u32, param(1) as u32);
            a.tell(move || { by(r, p, "p", al, o, msg(1, 0)); by(q, p, "p", al, o, msg(1, 1)); });
            s.tell(move || Process::exit(p, ExitReason::Kill));
            quiesce().await;
            budget(0, 0);
            let v: Vec<u8> = log.get().iter().map(|m| m.seq).collect();
            check(v.len() <= 2 && (v.len() < 1 || v[0] == 0) && (v.len() < 2 || v[1] == 1), "a prefix of what was sent");
            check(olog.len() == (r >= 3) as usize + (q >= 3) as usize, "other destinations are not affected");
            check(Process::alive(a.pid) && Process::alive(o), "neither sender nor others are affected");
            cover(v.len() as u32);
        });
    }
    // A full mailbox: as many messages as were sent, in the order of sending.
    fn p03_many() {
        block_on(async {
            let n = param(0) as u32;
            let base = sym_u32("base");
            let log: Rec<u32> = Rec::new();
            let l = log.clone();
            let p = Process::spawn(async move {
                Process::sleep(Duration::from_secs(1)).await;
                loop {
                    if let Message::User(v) = Process::receive::<u32>().await { l.push(v) }
                }
            });
            quiesce().await;
            let _ = Process::register(p, "p");
            let route = pick(4, "route");
            for i in 0..n {
                let v = if i % 100 == 7 { base } else { i };
                match (route, i % 2) {
                    (0, _) | (3, 0) => Process::send(p, v),
                    (1, _) | (3, _) => Process::send("p", v),
                    _ => Process::send(vec![Dest::Pid(p)], v),
                }
            }
            check(Process::info(p).unwrap().message_queue_len == n as usize, "all of them wait");
            Process::sleep(Duration::from_secs(2)).await;
            quiesce().await;
            check(log.len() == n as usize, "every message arrives once");
            for (i, v) in log.get().iter().enumerate() { check(*v == if i % 100 == 7 { base } else { i as u32 }, "in the order of sending"); }
            cover(route as u32);
        });
    }
    // Every way to name the destinations.
    fn p03_dests() {
        block_on(async {
            let (a, aa, la) = sink("a").await;
            let (b, _, lb) = sink("b").await;
            let c = Process::spawn(async {});
            quiesce().await;
            let n = pick(4, "count");
            let pids: Vec<Pid> = (0..n).map(|_| [a, b, c][pick(3, "pid")]).collect();
            let dests: Vec<Dest> = pids.iter().map(|p| if *p == a && flip("named") { Dest::from("a") } else { Dest::from(*p) }).collect();
            let m = msg(1, 1);
            let (mut wa, mut wb) = (pids.iter().filter(|p| **p == a).count(), pids.iter().filter(|p| **p == b).count());
            let how = pick(13, "how");
            if how > 6 { if n > 0 { vxrt::end() } (wa, wb) = (1, 0); }
            match how {
                0 => Process::send(&pids[..], m),
                1 => Process::send(&dests[..], m),
                2 => Process::send(pids, m),
                3 => Process::send(&pids, m),
                4 => Process::send(dests, m),
                5 => Process::send(pids.into_iter().collect::<Dests>(), m),
                6 => Process::send(dests.into_iter().collect::<Dests>(), m),
                7 => Process::send(Dest::from(a), m),
                8 => Process::send(aa, m),
                9 => Process::send(String::from("a"), m),
                10 => Process::send((String::from("a"), Node::Local), m),
                11 => Process::send(("a", Node::Local), m),
                _ => Process::send(Dest::from(("a", Node::Local)), m),
            }
            quiesce().await;
            check(la.len() == wa && lb.len() == wb, "one copy for each destination named that is alive");
            for x in la.get().iter().chain(lb.get().iter()) { check(*x == msg(1, 1), "unchanged"); }
            cover(how as u32);
        });
    }
}
