//! The life of a process.
use crate::agent::*;
use crate::util::*;

/// Notes when it is dropped.
struct D(Rec<u32>, u32);
impl Drop for D {
    fn drop(&mut self) {
        self.0.push(self.1);
    }
}
impl serde::Serialize for D {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        unreachable!()
    }
}
impl<'de> serde::Deserialize<'de> for D {
    fn deserialize<X: serde::Deserializer<'de>>(_: X) -> Result<Self, X::Error> {
        Err(serde::de::Error::custom("no"))
    }
}
fn listed(p: Pid) -> usize {
    Process::list().iter().filter(|x| **x == p).count()
}
fn gone(p: Pid) -> bool {
    !Process::alive(p) && listed(p) == 0 && Process::info(p).is_none()
}

harness! {
    // A process that uses everything at once, however fast it runs compared to its spawner.
    fn p11_start() {
        block_on(async {
            let how = pick(3, "how");
            let early = flip("early");
            let sp = Agent::new(true).await;
            let peer = Agent::new(true).await;
            let pp = peer.pid;
            let seen: Rec<Pid> = Rec::new();
            let got: Rec<u32> = Rec::new();
            let al: Rec<Reference> = Rec::new();
            let (s, g, a) = (seen.clone(), got.clone(), al.clone());
            let child = async move {
                let me = Process::current();
                s.push(me);
                check(Process::alive(me) && listed(me) == 1 && Process::info(me).is_some(), "a process exists for itself");
                Process::set_flags(ProcessFlags::TRAP_EXIT);
                check(Process::flags() == ProcessFlags::TRAP_EXIT && Process::info(me).unwrap().trap_exit, "its flags");
                check(Process::register(me, "child").is_ok() && Process::whereis("child") == Some(me), "its name");
                Process::link(pp);
                Process::monitor(pp);
                a.push(Process::alias(false));
                check(Process::info(me).unwrap().links.contains(&pp), "its link");
                if early { return; }
                loop {
                    match Process::receive::<u32>().await {
                        Message::User(0) => return,
                        Message::User(x) => g.push(x),
                        Message::System(_) => {}
                    }
                }
            };
            let ret: Rec<(Pid, Option<Reference>)> = Rec::new();
            let r = ret.clone();
            budget(param(0) as u32, param(1) as u32);
            sp.tell(move || {
                let (p, m) = match how {
                    0 => (Process::spawn(child), None),
                    1 => (Process::spawn_link(child), None),
                    _ => { let (p, m) = Process::spawn_monitor(child); (p, Some(m)) }
                };
                let (x, y, z) = (Process::alive(p), listed(p) == 1, Process::info(p).is_some());
                check(early || (x && y && z), "a process exists when spawn returns");
                check((x || !y) || z, "known as long as it is listed");
                Process::send(p, 5u32);
                r.push((p, m));
            });
            quiesce().await;
            budget(0, 0);
            check(ret.len() == 1 && seen.len() == 1, "spawned once");
            let (p, m) = ret.get()[0];
            check(seen.get()[0] == p, "the pid that spawn returned");
            if early {
                check(gone(p) && Process::whereis("child").is_none(), "an ended process is gone");
                check(how != 1 || sp.exits() == vec![(p, ExitReason::Normal)], "its link to the spawner");
                check(how != 2 || sp.downs() == vec![(Dest::Pid(p), m.unwrap(), ExitReason::Normal)], "its spawner's monitor");
                check(peer.exits() == vec![(p, ExitReason::Normal)], "its own link");
                check(Process::info(pp).unwrap().monitored_by.is_empty(), "its own monitor is gone");
                cover(how as u32);
            } else {
                check(Process::alive(p) && listed(p) == 1, "it lives on");
                check(got.get()[..] == [5], "it has a mailbox at once");
                check(Process::info(pp).unwrap().monitored_by == vec![p] && Process::info(pp).unwrap().links == vec![p], "its link and monitor");
                check(Process::info(p).unwrap().links.contains(&sp.pid) == (how == 1), "spawn_link links");
                check(Process::info(p).unwrap().monitored_by == if how == 2 { vec![sp.pid] } else { vec![] }, "spawn_monitor monitors");
                cover(how as u32 + 3);
            }
        });
    }
    // Whatever a process had, and whatever ends it, all is gone.
    fn p11_end() {
        block_on(async {
            let s = Agent::new(false).await;
            let peer = Agent::new(true).await;
            let pp = peer.pid;
            let drops: Rec<u32> = Rec::new();
            let x = Agent::new(flip("trap")).await;
            let p = x.pid;
            let named = flip("named");
            let linked = flip("linked");
            if named { let _ = Process::register(p, "x"); }
            let a: Rec<Reference> = Rec::new();
            let (r, d) = (a.clone(), drops.clone());
            let al = x.eval(move || {
                if linked { Process::link(pp); }
                Process::monitor(pp);
                r.push(Process::monitor_alias(pp, false));
                r.push(Process::alias(true));
                Process::alias(false)
            }).await;
            let al = [al, a.get()[0], a.get()[1]];
            let m = peer.eval(move || Process::monitor(p)).await;
            check(Process::info(pp).unwrap().links.len() == linked as usize && Process::info(pp).unwrap().monitored_by == vec![p, p], "everything is in place");
            // a local of the process, and messages that are never received, some of which it has looked at
            let l = drops.clone();
            let end = pick(ENDS, "end");
            let looked = flip("looked");
            x.start(async move {
                let _local = D(l, 1);
                while Process::whereis("go").is_none() {
                    if looked { let _ = Process::timeout(Duration::from_secs(1), Process::receiver().for_message::<u8>().select(|_| false)).await; } else { Process::sleep(Duration::from_secs(1)).await; }
                }
                if end == 0 || end == 2 || end == 5 || end == 6 { drop(_local); }
            });
            quiesce().await;
            Process::send(p, D(d.clone(), 2));
            Process::send(p, D(d.clone(), 3));
            Process::sleep(Duration::from_millis(1500)).await;
            Process::send(p, D(d.clone(), 4));
            quiesce().await;
            check(drops.len() == 0, "nothing is dropped while it lives");
            let late = Process::send_after(p, D(d.clone(), 5), Duration::from_secs(100));
            let reason = finish_off(end, &x, &s);
            if end == 3 || end == 4 || end != 1 { let _ = Process::register(s.pid, "go"); }
            Process::sleep(Duration::from_secs(10)).await;
            check(gone(p), "it is not alive, not listed, and has no information");
            check(Process::whereis("x").is_none() && !Process::registered().contains(&"x".to_string()), "its name is free");
            check(Process::register(s.pid, "x").is_err() == (end != 1) && Process::alive(pp), "and others keep theirs");
            let i = Process::info(pp).unwrap();
            check(i.links.is_empty() && i.monitored_by.is_empty(), "its links and monitors are gone");
            check(peer.downs() == vec![(Dest::Pid(p), m, reason.clone())], "its monitor fires");
            check(peer.exits() == if linked { vec![(p, reason)] } else { vec![] }, "its link fires");
            let mut v = drops.get().clone();
            v.sort();
            check(v == vec![1, 2, 3, 4], "what it held and its mailbox are dropped, once");
            for (k, a) in al.iter().enumerate() {
                Process::send(*a, D(d.clone(), 10 + k as u32));
                check(drops.get().last() == Some(&(10 + k as u32)), "its aliases are dead");
            }
            Process::send(p, D(d.clone(), 20));
            Process::send("x", 1u32);
            check(drops.get().last() == Some(&20), "what is sent to it is dropped");
            check(Process::read_timer(late).is_some(), "a timer for it is still running");
            Process::sleep(Duration::from_secs(200)).await;
            check(drops.get().last() == Some(&5) && drops.len() == 9, "and is dropped when it fires");
            peer.run(move || Process::exit(p, ExitReason::Kill)).await;
            peer.run(move || { Process::unlink(p); Process::demonitor(m); }).await;
            check(gone(p) && Process::alive(pp), "signals to it do nothing");
            cover(end as u32 + 1);
        });
    }
    // Pids are never given twice, whoever spawns at the same time, and whoever has ended.
    fn p11_unique() {
        block_on(async {
            let (x, y) = (Agent::new(false).await, Agent::new(false).await);
            let all: Rec<Pid> = Rec::new();
            let own: Rec<Pid> = Rec::new();
            budget(param(0) as u32, param(1) as u32);
            for a in [&x, &y] {
                let (l, o, q) = (all.clone(), own.clone(), own.clone());
                a.tell(move || {
                    let p = Process::spawn(async move { o.push(Process::current()) });
                    l.push(p);
                    let p = Process::spawn(async move { q.push(Process::current()); Process::sleep(Duration::from_secs(1)).await; });
                    l.push(p);
                });
            }
            quiesce().await;
            budget(0, 0);
            check(all.len() == 4 && own.len() == 4, "all are spawned and run");
            let mut v: Vec<Pid> = all.get().clone();
            v.push(x.pid);
            v.push(y.pid);
            v.push(Process::spawn(async {}));
            for i in 0..v.len() {
                for j in 0..i { check(v[i] != v[j], "every process has a pid of its own"); }
            }
            check(own.get().iter().all(|p| all.get().contains(p)), "and knows it");
            cover(1);
        });
    }
    // Seen from another process, the end of a process happens once.
    fn p11_once() {
        block_on(async {
            let how = pick(3, "how");
            let (x, s, w) = (Agent::new(false).await, Agent::new(false).await, Agent::new(false).await);
            let p = x.pid;
            let log: Rec<(bool, bool, bool)> = Rec::new();
            let l = log.clone();
            budget(param(0) as u32, param(1) as u32);
            match how {
                0 => x.stop(),
                1 => s.tell(move || Process::exit(p, ExitReason::Kill)),
                _ => x.tell(|| panic!("x")),
            }
            w.tell(move || for _ in 0..2 { l.push((Process::alive(p), listed(p) == 1, Process::info(p).is_some())); });
            quiesce().await;
            budget(0, 0);
            check(gone(p) && log.len() == 2, "it ends");
            let (a, b) = (log.get()[0], log.get()[1]);
            check((a.0 || !b.0) && (a.1 || !b.1) && (a.2 || !b.2), "what is gone does not come back");
            check(a.1 || !a.2, "without information once it is not listed");
            check(a.1 || !b.0, "not alive once it is not listed");
            cover(how as u32 * 2 + a.0 as u32);
        });
    }
    // A signal at any moment of the start.
    fn p11_early() {
        block_on(async {
            let (x, w) = (Agent::new(false).await, Agent::new(true).await);
            let kill = flip("kill");
            let run: Rec<u32> = Rec::new();
            let ret: Rec<Pid> = Rec::new();
            let (r, t) = (run.clone(), ret.clone());
            budget(param(0) as u32, param(1) as u32);
            x.tell(move || {
                let o = r.clone();
                let p = Process::spawn(async move {
                    let _d = D(o.clone(), 2);
                    o.push(1);
                    Process::sleep(Duration::from_secs(1 << 33)).await;
                    o.push(3);
                });
                t.push(p);
            });
            // pids are numbers given in order: the signal can be aimed at a process that is about to be spawned
            let target = number(w.pid) + 1;
            let p = Pid::Local(std::num::NonZeroU64::new(target).unwrap());
            w.tell(move || Process::exit(p, if kill { ExitReason::Kill } else { ExitReason::from("early") }));
            quiesce().await;
            budget(0, 0);
            check(ret.len() == 1, "it is spawned");
            if ret.get()[0] != p { return; }
            if Process::alive(p) {
                check(run.get()[..] == [1], "a signal before the spawn has no effect");
                cover(1);
            } else {
                check(gone(p), "a signal after it ends the process");
                check(run.len() == 0 || run.get()[..] == [1, 2], "its code stops");
                if run.len() == 0 { cover(2) } else { cover(3) }
            }
        });
    }
    // From the signal that ends it on a process is not alive, whatever it has.
    fn p11_dying() {
        block_on(async {
            let peer = Agent::new(true).await;
            let pp = peer.pid;
            let s = Agent::new(false).await;
            let trap = flip("trap");
            let x = Agent::new(trap).await;
            let p = x.pid;
            let has = pick(5, "has");
            match has {
                0 => {}
                1 => { let _ = Process::register(p, "x"); }
                2 => x.run(move || Process::link(pp)).await,
                3 => peer.run(move || { Process::monitor(p); }).await,
                _ => x.run(|| { Process::alias(false); }).await,
            }
            let own = flip("itself");
            let e = if own { any_reason(1) } else { match pick(2, "reason") { 0 => ExitReason::Kill, _ => ExitReason::from("x") } };
            let ends = own || e == ExitReason::Kill || !trap;
            let seen: Rec<(bool, bool)> = Rec::new();
            let o = seen.clone();
            let by = if own { &x } else { &s };
            check(Process::alive(p), "alive before");
            by.tell(move || {
                Process::exit(p, e);
                o.push((Process::alive(p), Process::alive(p)));
            });
            quiesce().await;
            check(seen.len() == 1 && seen.get()[0] == (!ends, !ends), "it is alive exactly until it is told to end");
            check(gone(p) == ends, "and is gone soon");
            cover(has as u32);
        });
    }
}
