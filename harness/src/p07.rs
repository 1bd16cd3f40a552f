//! Process monitors.
use crate::agent::*;
use crate::util::*;

harness! {
    // A monitor of each kind; perhaps demonitored; then the process ends.
    fn p07_one() {
        block_on(async {
            let s = Agent::new(false).await;
            let m = Agent::new(flip("trap")).await;
            let how = pick(4, "how");
            let log = Rec::new();
            let l = log.clone();
            let (pid, r, dest) = if how == 3 {
                let (p, r) = m.eval(move || Process::spawn_monitor(body(false, l))).await;
                (p, r, Dest::Pid(p))
            } else {
                let p = Process::spawn(body(false, l));
                quiesce().await;
                match how {
                    0 => (p, m.eval(move || Process::monitor(p)).await, Dest::Pid(p)),
                    1 => {
                        let _ = Process::register(p, "srv");
                        (p, m.eval(move || Process::monitor("srv")).await, Dest::from("srv"))
                    }
                    _ => (p, m.eval(move || Process::monitor_alias(p, false)).await, Dest::Pid(p)),
                }
            };
            check(Process::info(pid).unwrap().monitored_by == vec![m.pid], "the monitor is listed");
            let t = Agent { pid, log };
            let un = flip("demonitor");
            if un {
                m.run(move || Process::demonitor(r)).await;
                check(Process::info(pid).unwrap().monitored_by.is_empty(), "and is gone after demonitor");
            }
            // a second monitor is independent
            let r2 = m.eval(move || Process::monitor(pid)).await;
            check(r2 != r, "references are unique");
            let reason = finish_off(pick(ENDS, "end"), &t, &s);
            quiesce().await;
            let d = m.downs();
            check(d.len() == m.log.len() && d.len() == if un { 1 } else { 2 }, "one down message for each monitor");
            check(d.contains(&(Dest::Pid(pid), r2, reason.clone())), "the second monitor fires");
            check(un || d.contains(&(dest, r, reason)), "with destination, reference and reason");
            m.run(move || Process::demonitor(r)).await;
            quiesce().await;
            check(Process::alive(m.pid) && m.log.len() == d.len(), "demonitor afterwards is harmless");
            cover(how as u32 + if un { 10 } else { 0 });
        });
    }
    // Monitoring what does not exist.
    fn p07_noproc() {
        block_on(async {
            let m = Agent::new(false).await;
            let d = Agent::new(false).await;
            let dp = d.pid;
            d.stop();
            quiesce().await;
            let how = pick(3, "how");
            let (r, dest) = match how {
                0 => (m.eval(move || Process::monitor(dp)).await, Dest::Pid(dp)),
                1 => (m.eval(move || Process::monitor("nobody")).await, Dest::from("nobody")),
                _ => (m.eval(move || Process::monitor_alias(dp, true)).await, Dest::Pid(dp)),
            };
            check(m.downs() == vec![(dest, r, ExitReason::from("noproc"))], "exactly one down with noproc");
            cover(how as u32);
        });
    }
    // Demonitor at any moment of the monitored process's end: not yet, queued, or looked at by a selective receive.
    fn p07_demonitor() {
        block_on(async {
            let out: Rec<u8> = Rec::new();
            let o = out.clone();
            let when = pick(6, "when");
            let named = pick(3, "named");
            let t = Agent::new(false).await;
            let tp = t.pid;
            if named == 1 { let _ = Process::register(tp, "t"); }
            let m = Process::spawn(async move {
                if when == 4 { t.stop(); quiesce().await; }
                let r = match named {
                    0 => Process::monitor(tp),
                    1 => Process::monitor("t"),
                    _ => Process::monitor_alias(tp, false),
                };
                if when == 0 { Process::demonitor(r); }
                if when != 4 { t.stop(); quiesce().await; }
                match when {
                    2 => {
                        // looked at, not taken
                        let _ = Process::timeout(Duration::from_secs(1), Process::receiver().for_message::<u8>().select(|_| false)).await;
                    }
                    3 => Process::receiver().for_message::<u8>().remove(|_| false),
                    5 => {
                        // looked at twice
                        Process::receiver().for_message::<u8>().remove(|_| false);
                        let _ = Process::timeout(Duration::from_secs(1), Process::receiver().for_message::<u8>().select(|_| false)).await;
                    }
                    _ => {}
                }
                if when > 0 { Process::demonitor(r); }
                Process::send(Process::current(), 7u8);
                loop {
                    match Process::receive::<u8>().await {
                        Message::User(x) => o.push(x),
                        Message::System(_) => o.push(99),
                    }
                }
            });
            Process::sleep(Duration::from_secs(5)).await;
            quiesce().await;
            check(Process::alive(m), "the monitoring process lives");
            check(out.get()[..] == [7], "after demonitor no down message is received");
            cover(when as u32);
        });
    }
    // The down message is received exactly once however it is looked at before.
    fn p07_looked_at() {
        block_on(async {
            let out: Rec<u8> = Rec::new();
            let o = out.clone();
            let t = Agent::new(false).await;
            let tp = t.pid;
            let looks = pick(3, "looks");
            let m = Process::spawn(async move {
                let r = Process::monitor(tp);
                t.stop();
                quiesce().await;
                for _ in 0..looks {
                    if flip("remove") {
                        Process::receiver().for_message::<u8>().remove(|_| false);
                    } else {
                        let _ = Process::timeout(Duration::from_secs(1), Process::receiver().for_message::<u8>().select(|_| false)).await;
                    }
                }
                loop {
                    match Process::receive::<u8>().await {
                        Message::User(_) => o.push(1),
                        Message::System(SystemMessage::ProcessDown(d, q, e)) => {
                            check(d == Dest::Pid(tp) && q == r && e == ExitReason::Normal, "the true message");
                            Process::demonitor(r);
                            o.push(2)
                        }
                        _ => o.push(3),
                    }
                }
            });
            Process::sleep(Duration::from_secs(5)).await;
            quiesce().await;
            check(out.get()[..] == [2], "exactly one down message");
            check(Process::alive(m), "lives");
            cover(looks as u32);
        });
    }
    // Monitoring while the process ends, in any schedule.
    fn p07_race() {
        block_on(async {
            let s = Agent::new(false).await;
            let m = Agent::new(false).await;
            let t = Agent::new(false).await;
            let tp = t.pid;
            let named = flip("named");
            if named { let _ = Process::register(tp, "t"); }
            let k = [0, 1, 4][pick(3, "end")];
            let rr: Rec<Reference> = Rec::new();
            let q = rr.clone();
            budget(param(0) as u32, param(1) as u32);
            m.tell(move || q.push(if named { Process::monitor("t") } else { Process::monitor(tp) }));
            let reason = finish_off(k, &t, &s);
            quiesce().await;
            budget(0, 0);
            let d = m.downs();
            check(d.len() == 1 && m.log.len() == 1, "exactly one down message, whatever the order");
            check(d[0].0 == if named { Dest::from("t") } else { Dest::Pid(tp) } && d[0].1 == rr.get()[0], "destination and reference");
            check(d[0].2 == reason || d[0].2 == "noproc", "the true reason, or noproc");
            check(Process::alive(m.pid), "the monitoring process lives");
            cover(if d[0].2 == "noproc" { 1 } else { 2 });
        });
    }
    // Demonitor while the process ends: afterwards nothing arrives.
    fn p07_demonitor_race() {
        block_on(async {
            let s = Agent::new(false).await;
            let m = Agent::new(false).await;
            let t = Agent::new(false).await;
            let tp = t.pid;
            let r = m.eval(move || Process::monitor(tp)).await;
            let seen = m.log.clone();
            let at: Rec<usize> = Rec::new();
            let q = at.clone();
            budget(param(0) as u32, param(1) as u32);
            let _ = finish_off([0, 1][pick(2, "end")], &t, &s);
            m.tell(move || {
                Process::demonitor(r);
                q.push(seen.len());
            });
            quiesce().await;
            budget(0, 0);
            check(at.get()[0] == m.log.len(), "no down message after demonitor returned");
            check(m.log.len() <= 1, "at most one at all");
            cover(m.log.len() as u32);
        });
    }
    // A monitoring process that ends takes its monitors along.
    fn p07_owner_ends() {
        block_on(async {
            let s = Agent::new(false).await;
            let m = Agent::new(false).await;
            let m2 = Agent::new(false).await;
            let t = Agent::new(false).await;
            let tp = t.pid;
            let _ = m.eval(move || Process::monitor(tp)).await;
            let r2 = m2.eval(move || Process::monitor(tp)).await;
            let race = flip("race");
            if race { budget(param(0) as u32, param(1) as u32); }
            m.stop();
            if !race {
                quiesce().await;
                check(Process::info(tp).unwrap().monitored_by == vec![m2.pid], "its monitor is gone");
            }
            let reason = finish_off(pick(2, "end"), &t, &s);
            quiesce().await;
            budget(0, 0);
            check(m2.downs() == vec![(Dest::Pid(tp), r2, reason)], "other monitors are not disturbed");
            cover(race as u32);
        });
    }
    // spawn_monitor of a process that ends at once.
    fn p07_spawn() {
        block_on(async {
            let m = Agent::new(false).await;
            let kind = pick(3, "end");
            budget(param(0) as u32, param(1) as u32);
            let (pid, r) = m.eval(move || Process::spawn_monitor(async move {
                match kind {
                    0 => {}
                    1 => panic!("boom"),
                    _ => { Process::exit(Process::current(), "self"); Process::receive::<u8>().await; }
                }
            })).await;
            quiesce().await;
            budget(0, 0);
            let reason = match kind { 0 => ExitReason::Normal, 1 => ExitReason::from("boom"), _ => ExitReason::from("self") };
            check(m.downs() == vec![(Dest::Pid(pid), r, reason)], "exactly one down message");
            check(!Process::alive(pid), "it has ended");
            cover(kind as u32);
        });
    }
    // A process with many monitors.
    fn p07_many() {
        block_on(async {
            let n = param(0) as usize;
            let s = Agent::new(false).await;
            let t = Agent::new(false).await;
            let tp = t.pid;
            let _ = Process::register(tp, "t");
            let owners = [Agent::new(false).await, Agent::new(true).await, Agent::new(false).await];
            let refs: Rec<(usize, Dest, Reference)> = Rec::new();
            for i in 0..n {
                let r = refs.clone();
                owners[i % 3].tell(move || match i % 4 {
                    0 | 1 => r.push((i % 3, Dest::Pid(tp), Process::monitor(tp))),
                    2 => r.push((i % 3, Dest::from("t"), Process::monitor("t"))),
                    _ => r.push((i % 3, Dest::Pid(tp), Process::monitor_alias(tp, true))),
                });
            }
            quiesce().await;
            check(refs.len() == n, "all are installed");
            let k = pick(n, "demonitored");
            let (o, _, r) = refs.get().remove(k);
            owners[o].run(move || Process::demonitor(r)).await;
            let e = finish_off(pick(ENDS, "end"), &t, &s);
            quiesce().await;
            for (i, a) in owners.iter().enumerate() {
                let mine: Vec<_> = refs.get().iter().filter(|r| r.0 == i).collect();
                let d = a.downs();
                check(a.log.len() == d.len() && d.len() == mine.len(), "as many down messages as monitors are left");
                check(mine.iter().all(|m| d.iter().filter(|d| d.0 == m.1 && d.1 == m.2 && d.2 == e).count() == 1), "one for each, with its destination and the reason");
            }
            cover(1);
        });
    }
}
