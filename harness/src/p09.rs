//! Aliases.
use crate::agent::*;
use crate::util::*;

/// A message that notes who executes it.
fn mark(log: &Rec<(Pid, u32)>, v: u32) -> Cmd {
    let l = log.clone();
    Cmd::of(async move { l.push((Process::current(), v)) })
}

harness! {
    // One alias of any kind and any sequence of sends and of what may end it; another alias stays what it was.
    fn p09_ops() {
        block_on(async {
            let s = Agent::new(false).await;
            let t = Agent::new(false).await;
            let o = Agent::new(flip("trap")).await;
            let q = Agent::new(false).await;
            let log: Rec<(Pid, u32)> = Rec::new();
            let kind = pick(5, "kind");
            let reply = kind & 1 == 1;
            let monitors = kind == 2 || kind == 3;
            let tp = t.pid;
            if kind == 4 { t.stop(); quiesce().await; }
            let a = match kind {
                0 | 1 => o.eval(move || Process::alias(reply)).await,
                _ => o.eval(move || Process::monitor_alias(tp, reply)).await,
            };
            // another alias of the same owner and one of another process
            let a2 = o.eval(move || Process::alias(false)).await;
            let a3 = q.eval(move || Process::alias(false)).await;
            check(a != a2 && a2 != a3 && a != a3, "aliases are unique");
            let mut active = kind != 4;
            let mut watching = monitors;
            let mut alive = true;
            let mut n = 0;
            for i in 0..param(0) as u32 {
                match pick(9, "op") {
                    0 => {
                        Process::send(a, mark(&log, i));
                        quiesce().await;
                        if active { n += 1; check(log.get().last() == Some(&(o.pid, i)), "the owner gets what is sent to its alias"); cover(1); } else { cover(2); }
                        if reply { active = false; }
                    }
                    1 => {
                        if !alive { continue; }
                        let r = o.eval(move || Process::unalias(a)).await;
                        check(r == active, "unalias tells whether the alias was active");
                        if r { cover(3) } else { cover(4) }
                        active = false;
                    }
                    2 => {
                        let r = q.eval(move || Process::unalias(a)).await;
                        check(!r, "it is not the alias of another process");
                        cover(5);
                    }
                    3 => {
                        if !alive { continue; }
                        let x = remote_ref(number(a));
                        let r = o.eval(move || Process::unalias(x)).await;
                        check(!r, "the alias of another node is not that of this process");
                        cover(6);
                    }
                    4 => {
                        if !alive { continue; }
                        o.run(move || Process::demonitor(a)).await;
                        if watching { active = false; watching = false; cover(7); }
                    }
                    5 => {
                        t.stop();
                        quiesce().await;
                        if watching { active = false; watching = false; cover(8); }
                    }
                    6 => {
                        if !alive { continue; }
                        finish_off(pick(ENDS, "end"), &o, &s);
                        quiesce().await;
                        check(!Process::alive(o.pid), "the owner ends");
                        alive = false;
                        active = false;
                        watching = false;
                        cover(9);
                    }
                    7 => {
                        // several destinations, the alias among them, serialized or moved
                        Process::send(vec![Dest::from(q.pid), Dest::from(a)], 3u32);
                        let d: Vec<Dest> = vec![Dest::from(a)];
                        if active && reply { active = false; }
                        quiesce().await;
                        let l = log.clone();
                        Process::send(d, Cmd::of(async move { l.push((Process::current(), 50)) }));
                        quiesce().await;
                        if active { n += 1; check(log.get().last() == Some(&(o.pid, 50)), "also as one of several destinations"); cover(10); }
                    }
                    _ => {
                        // the messages taken, the alias stays what it is
                        if !alive { continue; }
                        o.run(|| Process::receiver().for_message::<u32>().remove(|_| true)).await;
                        cover(11);
                    }
                }
                check(log.len() == n, "nothing is delivered by an alias that has ended");
            }
            Process::send(a, mark(&log, 97));
            Process::send(a2, mark(&log, 98));
            Process::send(a3, mark(&log, 99));
            quiesce().await;
            check(log.get().iter().filter(|x| x.1 == 97).count() == active as usize, "the alias works exactly while it is active");
            check(log.get().iter().filter(|x| **x == (o.pid, 98)).count() == alive as usize, "another alias of the owner is not disturbed");
            check(log.get().iter().filter(|x| **x == (q.pid, 99)).count() == 1, "nor one of another process");
            check(Process::alive(q.pid), "other processes live on");
        });
    }
    // A reply alias, any number of concurrent senders: one message.
    fn p09_reply() {
        block_on(async {
            let t = Agent::new(false).await;
            let (x, y) = (Agent::new(false).await, Agent::new(false).await);
            let o = Agent::new(false).await;
            let tp = t.pid;
            let kind = pick(2, "kind");
            let a = o.eval(move || if kind == 0 { Process::alias(true) } else { Process::monitor_alias(tp, true) }).await;
            let log: Rec<(Pid, u32)> = Rec::new();
            let (l, m) = (log.clone(), log.clone());
            budget(param(0) as u32, param(1) as u32);
            x.tell(move || { Process::send(a, mark(&l, 1)); Process::send(a, mark(&l, 2)); });
            y.tell(move || { Process::send(a, mark(&m, 3)); });
            quiesce().await;
            check(log.len() == 1, "exactly one message is delivered");
            let first = log.get()[0];
            check(first.0 == o.pid && first.1 != 2, "it is a first message, and reaches the owner");
            cover(first.1);
        });
    }
    // Once unalias or demonitor has returned, or the monitor's down message has arrived, no message comes through any more.
    fn p09_end_race() {
        block_on(async {
            let how = pick(4, "how");
            let reply = flip("reply");
            let t = Agent::new(false).await;
            let tp = t.pid;
            let x = Agent::new(false).await;
            let al: Rec<Reference> = Rec::new();
            let go: Rec<()> = Rec::new();
            let out: Rec<(bool, usize, usize)> = Rec::new();
            let (l, g, o) = (al.clone(), go.clone(), out.clone());
            let p = Process::spawn(async move {
                let a = if how == 0 { Process::alias(reply) } else { Process::monitor_alias(tp, reply) };
                l.push(a);
                while g.len() == 0 { Process::sleep(Duration::from_secs(1)).await; }
                let mut ok = true;
                match how {
                    0 | 1 => { ok = Process::unalias(a); }
                    2 => Process::demonitor(a),
                    _ => { let _ = Process::receiver().for_message::<u8>().select(|m| matches!(m, Message::System(_))).await; }
                }
                let mut before = 0;
                Process::receiver().for_message::<u32>().remove(|m| { if let Message::User(_) = m { before += 1; true } else { false } });
                let mut after = 0;
                while let Ok(Message::User(_)) = Process::timeout(Duration::from_secs(3), Process::receiver().for_message::<u32>().select(|m| matches!(m, Message::User(_)))).await { after += 1; }
                o.push((ok, before, after));
            });
            quiesce().await;
            let a = al.get()[0];
            x.tell(|| {});
            quiesce().await;
            Process::sleep(Duration::from_millis(500)).await;
            go.push(());
            x.start(async move {
                Process::sleep(Duration::from_millis(500)).await;
                Process::send(a, 1u32);
                Process::send(a, 2u32);
            });
            if how == 3 { t.start(async move { Process::sleep(Duration::from_millis(500)).await; Process::exit(tp, ExitReason::Kill); }); }
            quiesce().await;
            budget(param(0) as u32, param(1) as u32);
            Process::sleep(Duration::from_millis(600)).await;
            quiesce().await;
            budget(0, 0);
            Process::sleep(Duration::from_secs(20)).await;
            check(out.len() == 1 && !Process::alive(p), "the owner is done");
            let (ok, before, after) = out.get()[0];
            check(after == 0, "nothing arrives once the alias has ended");
            check(before <= if reply { 1 } else { 2 }, "no more than was sent");
            check(how > 1 || !reply || ok == (before == 0), "a reply alias is active until it delivered");
            cover(how as u32 * 3 + before as u32 + 1);
        });
    }
    // Many aliases of one process.
    fn p09_many() {
        block_on(async {
            let n = param(0) as usize;
            let o = Agent::new(false).await;
            let t = Agent::new(false).await;
            let tp = t.pid;
            let log: Rec<(Pid, u32)> = Rec::new();
            let refs = o.eval(move || (0..n).map(|i| match i % 3 { 0 => Process::alias(false), 1 => Process::alias(true), _ => Process::monitor_alias(tp, false) }).collect::<Vec<_>>()).await;
            let k = pick(n, "gone");
            let r = refs[k];
            check(o.eval(move || Process::unalias(r)).await, "it was active");
            let ends = flip("monitored_ends");
            if ends { t.stop(); quiesce().await; }
            for _ in 0..2 { for (i, r) in refs.iter().enumerate() { Process::send(*r, mark(&log, i as u32)); } }
            quiesce().await;
            for i in 0..n {
                let want = if i == k || i % 3 == 2 && ends { 0 } else if i % 3 == 1 { 1 } else { 2 };
                check(log.get().iter().filter(|l| l.1 == i as u32).count() == want, "each alias delivers while it is active");
            }
            check(log.get().iter().all(|l| l.0 == o.pid), "to its owner");
            cover(ends as u32);
        });
    }
}
