//! Registries.
use crate::util::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Serialize, Deserialize)]
enum Cmd {
    End,
    Crash,
}
#[derive(Clone)]
struct World {
    started: Rec<(RegistryKey, Pid)>,
    fails: Rec<u32>,
    /// Time a start takes.
    takes: Duration,
    trap: bool,
    linger: Duration,
}
impl World {
    fn new() -> World {
        World { started: Rec::new(), fails: Rec::new(), takes: Duration::ZERO, trap: false, linger: Duration::ZERO }
    }
    fn registry(&self, name: &str) -> Registry {
        let w = self.clone();
        Registry::new(name).with_start(move |k| {
            let w = w.clone();
            async move {
                if w.takes > Duration::ZERO {
                    Task::spawn(Process::sleep(w.takes)).await.unwrap();
                }
                if w.fails.get().pop().is_some() {
                    return Err(ExitReason::from("bad"));
                }
                let (trap, linger) = (w.trap, w.linger);
                let (tx, rx) = tokio::sync::oneshot::channel();
                let p = Process::spawn_link(async move {
                    if trap {
                        Process::set_flags(ProcessFlags::TRAP_EXIT);
                    }
                    let _ = tx.send(());
                    match Process::receive::<Cmd>().await {
                        Message::User(Cmd::Crash) => Process::exit(Process::current(), "crash"),
                        Message::User(Cmd::End) => {}
                        _ => if linger > Duration::ZERO { Process::sleep(linger).await },
                    }
                });
                let _ = rx.await;
                w.started.push((k, p));
                Ok(p)
            }
        })
    }
    fn alive(&self) -> Vec<Pid> {
        self.started.get().iter().map(|s| s.1).filter(|p| Process::alive(*p)).collect()
    }
}
#[derive(Debug, Clone, PartialEq)]
enum Res {
    Pid(Option<Pid>),
    Ok,
    Already(Pid),
    StartError,
    NoStart,
    NotFound,
    Down,
}
fn err(e: RegistryError) -> Res {
    match e {
        RegistryError::CallError(_) => Res::Down,
        RegistryError::StartError(r) => { check(r == ExitReason::from("bad"), "the true reason"); Res::StartError }
        RegistryError::StartNotSupported => Res::NoStart,
        RegistryError::AlreadyStarted(p) => Res::Already(p),
        RegistryError::NotFound => Res::NotFound,
    }
}
const OPS: usize = 5;
async fn perform<T: Into<Dest>, K: Into<RegistryKey>>(op: usize, to: T, key: K) -> Res {
    match op {
        0 => match Registry::lookup(to, key, None).await { Ok(p) => Res::Pid(p), Err(e) => err(e) },
        1 => match Registry::lookup_or_start(to, key, None).await { Ok(p) => Res::Pid(Some(p)), Err(e) => err(e) },
        2 => match Registry::start_process(to, key, None).await { Ok(p) => Res::Pid(Some(p)), Err(e) => err(e) },
        3 => match Registry::stop_process(to, key, None).await { Ok(()) => Res::Ok, Err(e) => err(e) },
        _ => match Registry::remove(to, key, None).await { Ok(p) => Res::Pid(p), Err(e) => err(e) },
    }
}
/// What the registry shows: the count and the list, sorted.
async fn books<T: Into<Dest> + Clone>(to: T) -> (usize, Vec<(RegistryKey, Pid)>) {
    let n = match Registry::count(to.clone(), None).await { Ok(n) => n, Err(_) => fail("counted") };
    let mut l = match Registry::list(to, None).await { Ok(l) => l, Err(_) => fail("listed") };
    l.sort();
    (n, l)
}
fn pick_op(i: u64) -> usize {
    (i % 2) as usize
}
async fn begin(r: Registry) -> Pid {
    match r.start(RegistryOptions::new()).await { Ok(p) => p, Err(_) => fail("the registry starts") }
}
async fn eval<T: std::marker::Send + 'static>(f: impl std::future::Future<Output = T> + std::marker::Send + 'static) -> T {
    let d = Rec::new();
    let d2 = d.clone();
    Process::spawn(async move { let v = f.await; d2.push(v); });
    for _ in 0..20 {
        quiesce().await;
        if d.len() == 1 { return d.get().pop().unwrap() }
        Process::sleep(Duration::from_secs(1)).await;
    }
    fail("the operation returns")
}

harness! {
    // Any operations over two keys, by name or pid, processes ending in between.
    fn p18_ops() {
        block_on(async {
            let w = World::new();
            let p = begin(w.registry("reg")).await;
            let q = begin(w.registry("other")).await;
            let _ = q;
            let x = eval(perform(2, "other", 1i32)).await;
            let Res::Pid(Some(o)) = x else { fail("started") };
            let mut held: Vec<(RegistryKey, Pid)> = vec![];
            // two keys of any values, the same number in two types
            let v = sym_u32("key");
            let keys = [RegistryKey::UInteger32(v), if flip("kind") { RegistryKey::UInteger64(v as u64) } else { RegistryKey::UInteger32(sym_u32("key")) }];
            let mut removed: Vec<Pid> = vec![];
            for _ in 0..param(0) {
                let op = pick(OPS + 2, "op");
                let key = keys[pick(2, "which")].clone();
                let at = held.iter().position(|h| h.0 == key);
                let was = at.map(|i| held[i].1);
                if op >= OPS {
                    let Some(i) = at else { return };
                    let c = held.remove(i).1;
                    Process::send(c, if op == OPS { Cmd::End } else { Cmd::Crash });
                    quiesce().await;
                    check(!Process::alive(c), "it ended");
                    cover(1);
                } else {
                    let bad = op == 1 || op == 2 && was.is_none();
                    let bad = bad && flip("bad");
                    if bad { w.fails.push(1); }
                    let n = w.started.len();
                    let by_pid = flip("pid");
                    let k = key.clone();
                    let r = if by_pid { eval(perform(op, p, k)).await } else { eval(perform(op, "reg", k)).await };
                    quiesce().await;
                    let new = if w.started.len() > n { Some(w.started.get()[n].clone()) } else { None };
                    if let Some((k, p)) = &new {
                        check(*k == key && Process::alive(*p) && was.is_none() && op != 0 && op < 3, "started for this key, because there was none");
                        check(w.started.len() == n + 1, "one");
                        held.push((key.clone(), *p));
                    }
                    let want = match op {
                        0 => Res::Pid(was),
                        1 => match was { Some(p) => Res::Pid(Some(p)), None => if bad { Res::StartError } else { Res::Pid(new.map(|n| n.1)) } },
                        2 => match was { Some(p) => Res::Already(p), None => if bad { Res::StartError } else { Res::Pid(new.map(|n| n.1)) } },
                        3 => match was { Some(p) => { held.remove(at.unwrap()); check(!Process::alive(p), "stopped"); Res::Ok } None => Res::NotFound },
                        _ => { if let Some(p) = was { held.remove(at.unwrap()); check(Process::alive(p), "goes on unregistered"); removed.push(p); } Res::Pid(was) }
                    };
                    check(r == want, "the result the situation calls for");
                    check(!(op == 1 && !bad) || matches!(r, Res::Pid(Some(_))), "a process");
                    w.fails.get().clear();
                    cover(op as u32 + 2);
                    if r == Res::StartError { cover(10) }
                }
                held.sort();
                let by_pid = flip("pid");
                let (n, l) = if by_pid { eval(books(p)).await } else { eval(books("reg")).await };
                check(n == held.len() && l == held, "counts and lists show what is registered");
                check(held.iter().all(|h| Process::alive(h.1)) && removed.iter().all(|p| Process::alive(*p)), "nothing else is disturbed");
                check(eval(books("other")).await == (1, vec![(RegistryKey::Integer32(1), o)]), "nor another registry");
            }
            // a removed process is not the registry's any more
            if removed.len() > 0 {
                check(eval(async move { Registry::stop(p, ExitReason::from("shutdown"), None).await.is_ok() }).await, "stopped");
                check(removed.iter().all(|p| Process::alive(*p)), "goes on without the registry");
                check(held.iter().all(|h| !Process::alive(h.1)), "the registered ones end with it");
                cover(11);
            }
        });
    }
    // Two clients at the same time, and a process that ends.
    fn p18_race() {
        block_on(async {
            let w = World::new();
            begin(w.registry("reg")).await;
            let before = flip("before");
            if before { eval(perform(1, "reg", 1u32)).await; }
            let first: Vec<Pid> = w.alive();
            let ops = [1 + pick(4, "op"), 1 + pick(4, "op")];
            let ends = before && flip("ends");
            let got = Rec::new();
            budget(param(0) as u32, param(1) as u32);
            for i in 0..2usize {
                let g = got.clone();
                let op = ops[i];
                Process::spawn(async move { let r = perform(op, "reg", 1u32).await; g.push((i, r)); });
            }
            if ends { Process::send(first[0], Cmd::Crash); }
            quiesce().await;
            budget(0, 0);
            check(got.len() == 2, "both return");
            let removals = got.get().iter().filter(|(i, r)| ops[*i] == 4 && matches!(r, Res::Pid(Some(_)))).count();
            let stops = got.get().iter().filter(|(_, r)| *r == Res::Ok).count();
            let starts = w.started.len() - first.len();
            let alive = w.alive();
            check(alive.len() <= 1 + removals, "at most one running process is registered");
            let (n, l) = eval(books("reg")).await;
            check(n == l.len() && n <= 1, "one key");
            check(l.iter().all(|(k, p)| *k == RegistryKey::UInteger32(1) && Process::alive(*p)), "what is registered runs");
            check(alive.len() == n + got.get().iter().filter(|(i, r)| ops[*i] == 4 && matches!(r, Res::Pid(Some(p)) if Process::alive(*p))).count(), "what runs is registered or was removed");
            let pids: Vec<Pid> = got.get().iter().filter_map(|(i, r)| match r { Res::Pid(Some(p)) if ops[*i] < 3 => Some(*p), _ => None }).collect();
            check(pids.iter().all(|p| w.started.get().iter().any(|s| s.1 == *p)), "true pids");
            if ops == [1, 1] && !ends { check(pids.len() == 2 && pids[0] == pids[1] && starts + first.len() == 1, "one is started, everyone gets it"); cover(1); }
            if ops == [2, 2] && !ends { check(starts == !before as usize && got.get().iter().filter(|(_, r)| matches!(r, Res::Already(p) if alive[0] == *p)).count() == 1 + before as usize, "the second start fails"); cover(2); }
            if ops == [3, 3] && !ends { check(stops == before as usize && n == 0, "stopped once"); cover(3); }
            if ops == [4, 4] && !ends { check(removals == before as usize && n == 0, "removed once"); cover(4); }
            if ends { cover(5) }
            // and then it works as ever
            let r = eval(perform(1, "reg", 1u32)).await;
            check(matches!(r, Res::Pid(Some(p)) if Process::alive(p)), "a process");
        });
    }
    // A process is removed while its registry ends.
    fn p18_removed() {
        block_on(async {
            let kind = pick(3, "kind");
            let w = World::new();
            let r = w.registry("reg").with_shutdown([Shutdown::BrutalKill, Shutdown::Duration(Duration::from_secs(1)), Shutdown::Infinity][kind]);
            let p = begin(r).await;
            for k in 0..2u32 { eval(perform(1, "reg", k)).await; }
            let by_pid = flip("pid");
            let how = pick(2, "how");
            let got = Rec::new();
            let g2 = got.clone();
            budget(param(0) as u32, param(1) as u32);
            Process::spawn(async move {
                let r = if by_pid { perform(4, p, 0u32).await } else { perform(4, "reg", 0u32).await };
                g2.push(r);
            });
            Process::spawn(async move {
                if how == 0 { let _ = Registry::stop(p, ExitReason::from("shutdown"), None).await; } else { Process::exit(p, ExitReason::Kill) }
            });
            quiesce().await;
            budget(0, 0);
            quiesce().await;
            check(!Process::alive(p), "it has ended");
            check(got.len() == 1, "the call returns");
            let all = w.started.get();
            check(!Process::alive(all[1].1), "the registered process ends with its registry");
            if got.get()[0] == Res::Pid(Some(all[0].1)) { check(Process::alive(all[0].1), "a removed process goes on"); cover(1); }
            else { check(!Process::alive(all[0].1), "it was not removed, so it ends"); cover(2); }
        });
    }
    // No start function.
    fn p18_nostart() {
        block_on(async {
            let p = begin(Registry::new("reg")).await;
            let op = pick(OPS, "op");
            let by_pid = flip("pid");
            let r = if by_pid { eval(perform(op, p, "k")).await } else { eval(perform(op, "reg", "k")).await };
            let want = match op { 0 | 4 => Res::Pid(None), 1 | 2 => Res::NoStart, _ => Res::NotFound };
            check(r == want, "as the situation calls for");
            check(Process::alive(p), "the registry goes on");
            check(eval(perform(0, p, "k")).await == Res::Pid(None), "and answers");
            cover(op as u32);
        });
    }
    // A stopping registry stops its processes.
    fn p18_stop() {
        block_on(async {
            let kind = pick(3, "kind");
            let d = sym_u8("limit") as u64;
            let l = sym_u8("linger") as u64;
            assume(d > 0 && l != d);
            let mut w = World::new();
            w.trap = flip("trap");
            w.linger = Duration::from_secs(l);
            let r = w.registry("reg").with_shutdown([Shutdown::BrutalKill, Shutdown::Duration(Duration::from_secs(d)), Shutdown::Infinity][kind]);
            let p = begin(r).await;
            for k in 0..2u32 { eval(perform(1, "reg", k)).await; }
            let n = pick(3, "removed") as u32;
            for k in 0..n { check(matches!(eval(perform(4, "reg", k)).await, Res::Pid(Some(_))), "removed"); }
            let downs: Rec<(Pid, ExitReason, u64)> = Rec::new();
            let (w2, d2) = (w.clone(), downs.clone());
            Process::spawn(async move {
                for (_, p) in w2.started.get().iter() { Process::monitor(*p); }
                loop { if let Message::System(SystemMessage::ProcessDown(Dest::Pid(p), _, r)) = Process::receive::<Cmd>().await { d2.push((p, r, now())) } }
            });
            quiesce().await;
            let how = pick(2, "how");
            let (tl, td) = (at(Duration::from_secs(l)), at(Duration::from_secs(d)));
            let t2d = at(Duration::from_secs(2 * d));
            let begun = now();
            Process::spawn(async move {
                if how == 0 { let _ = Registry::stop(p, ExitReason::from("shutdown"), None).await; } else { Process::exit(p, ExitReason::Kill) }
            });
            Process::sleep(Duration::from_secs(10000)).await;
            quiesce().await;
            check(!Process::alive(p) && Process::whereis("reg").is_none(), "it has ended");
            check(eval(books("reg")).await.0 == 0, "nothing is registered");
            check(downs.len() as u32 == 2 - n, "the registered processes have ended, and only those");
            check(w.alive().len() as u32 == n, "all of them");
            if how == 0 && kind == 1 && w.trap && l > 2 * d { check(downs.get().iter().all(|d| d.1 == ExitReason::Kill), "killed at last"); }
            for (_, r, t) in downs.get().iter() {
                if how == 1 || kind == 0 { check(*r == ExitReason::Kill && *t == begun, "killed at once"); cover(1); }
                else if !w.trap { check(*r == ExitReason::from("shutdown") && *t == begun, "told to shut down"); cover(2); }
                else if kind == 1 && *r == ExitReason::Kill { check(l > d && *t >= td && *t <= t2d, "killed, after the time it has"); cover(3); }
                else { check(*r == ExitReason::Normal && *t == tl, "in its own time"); cover(4); }
            }
        });
    }
    // Registries that are never run, or cannot be, do not disturb the one that runs.
    fn p18_names() {
        block_on(async {
            let w = World::new();
            let p = begin(w.registry("reg")).await;
            let Res::Pid(Some(c)) = eval(perform(1, "reg", 1u32)).await else { fail("started") };
            let kind = pick(4, "kind");
            match kind {
                0 => drop(w.registry("reg")),
                1 => check(eval(w.registry("reg").start(RegistryOptions::new())).await == Err(ExitReason::from("already_started")), "already started"),
                2 => drop(w.registry("reg").child_spec(RegistryOptions::new())),
                _ => check(eval(w.registry("x").start(RegistryOptions::new().name("reg"))).await == Err(ExitReason::from("already_started")), "already started"),
            }
            quiesce().await;
            check(Process::alive(p) && Process::alive(c), "both go on");
            check(eval(perform(0, "reg", 1u32)).await == Res::Pid(Some(c)), "still registered");
            check(eval(books("reg")).await == (1, vec![(RegistryKey::UInteger32(1), c)]), "and listed");
            check(eval(perform(1, "reg", 1u32)).await == Res::Pid(Some(c)), "the same process");
            check(w.started.len() == 1, "only one");
            cover(kind as u32);
        });
    }
    // A registry started under another name, or in a supervisor.
    fn p18_other_name() {
        block_on(async {
            let w = World::new();
            let kind = pick(3, "kind");
            let o = RegistryOptions::new().name("other");
            let r = w.registry("reg");
            let p: Pid = match kind {
                0 => match eval(r.start(o)).await { Ok(p) => p, Err(_) => fail("starts") },
                1 => eval(async move { let p = match r.start_link(o).await { Ok(p) => p, Err(_) => fail("starts") }; Process::unlink(p); p }).await,
                _ => {
                    let s = Supervisor::with_children([r.child_spec(o)]);
                    if s.start(SupervisorOptions::new()).await.is_err() { fail("starts") }
                    match Process::whereis("other") { Some(p) => p, None => fail("starts") }
                }
            };
            check(Process::whereis("other") == Some(p), "its name");
            let Res::Pid(Some(c)) = eval(perform(2, "other", "k")).await else { fail("started") };
            check(eval(perform(0, "other", "k")).await == Res::Pid(Some(c)) && eval(perform(0, p, "k")).await == Res::Pid(Some(c)), "found");
            check(eval(books("other")).await == (1, vec![("k".into(), c)]), "listed");
            check(eval(perform(2, "other", "k")).await == Res::Already(c), "already started");
            check(eval(perform(3, "other", "k")).await == Res::Ok, "stopped");
            quiesce().await;
            check(!Process::alive(c) && eval(books("other")).await.0 == 0, "gone");
            cover(kind as u32);
        });
    }
    // Many keys of every type; one of the processes ends.
    fn p18_many() {
        block_on(async {
            let n = param(0) as u64;
            let w = World::new();
            let r = begin(w.registry("reg")).await;
            let key = |i: u64| match i % 4 {
                0 => RegistryKey::from(i as u32),
                1 => RegistryKey::from(i as i32 - 20),
                2 => RegistryKey::from(format!("key {i}")),
                _ => RegistryKey::from(i as u128 + u64::MAX as u128),
            };
            for i in 0..n {
                let k = key(i);
                check(matches!(eval(perform(1, r, k)).await, Res::Pid(Some(_))), "started");
            }
            check(w.started.len() as u64 == n, "one process for each key");
            let mut want: Vec<(RegistryKey, Pid)> = w.started.get().clone();
            let (m, l) = eval(books(r)).await;
            want.sort();
            check(m as u64 == n && l == want, "each key has its process");
            for i in 0..n {
                let k = key(i);
                let p = want.iter().find(|x| x.0 == k).unwrap().1;
                check(eval(perform(pick_op(i), r, k)).await == Res::Pid(Some(p)), "the process of the key");
            }
            let i = pick(n as usize, "key") as u64;
            let how = pick(3, "how");
            let at = want.iter().position(|x| x.0 == key(i)).unwrap();
            let (k, p) = want.remove(at);
            match how {
                0 => { Process::send(p, Cmd::End); quiesce().await; }
                1 => check(eval(perform(3, r, k.clone())).await == Res::Ok, "stopped"),
                _ => check(eval(perform(4, r, k.clone())).await == Res::Pid(Some(p)), "removed"),
            }
            quiesce().await;
            check(Process::alive(p) == (how == 2), "only a removed process goes on");
            let (m, l) = eval(books(r)).await;
            check(m as u64 == n - 1 && l == want, "the others are left alone");
            check(want.iter().all(|x| Process::alive(x.1)), "and live");
            check(eval(perform(0, r, k)).await == Res::Pid(None), "the key is free");
            cover(how as u32);
        });
    }
    // A process that takes its time to stop is not registered any more; its end disturbs nobody.
    fn p18_lingers() {
        block_on(async {
            let mut w = World::new();
            w.trap = flip("trap");
            w.linger = Duration::from_secs(1 + sym_u8("linger") as u64);
            let p = begin(w.registry("reg")).await;
            let k = RegistryKey::from(sym_u32("key"));
            let by_pid = flip("pid");
            let Res::Pid(Some(a)) = eval(perform(1, p, k.clone())).await else { fail("started") };
            let Res::Pid(Some(z)) = eval(perform(1, p, "other")).await else { fail("started") };
            let c = k.clone();
            let r = if by_pid { eval(perform(3, p, c)).await } else { eval(perform(3, "reg", c)).await };
            check(r == Res::Ok, "stopped");
            quiesce().await;
            check(Process::alive(a) == w.trap, "unless it takes its time");
            check(eval(books("reg")).await == (1, vec![(RegistryKey::from("other"), z)]), "it is not registered any more");
            check(eval(perform(0, "reg", k.clone())).await == Res::Pid(None), "nor found");
            check(eval(perform(3 + by_pid as usize, "reg", k.clone())).await == if by_pid { Res::Pid(None) } else { Res::NotFound }, "nor stopped again");
            let again = pick(3, "again");
            let mut want = vec![(RegistryKey::from("other"), z)];
            if again > 0 {
                let Res::Pid(Some(b)) = eval(perform(again, "reg", k.clone())).await else { fail("another one is started") };
                check(b != a && Process::alive(b), "a new one");
                want.push((k.clone(), b));
                want.sort();
            }
            check(eval(books("reg")).await == (want.len(), want.clone()), "that is registered");
            Process::sleep(Duration::from_secs(300)).await;
            quiesce().await;
            check(!Process::alive(a), "it has ended");
            check(eval(books("reg")).await == (want.len(), want.clone()) && want.iter().all(|x| Process::alive(x.1)), "nobody else is disturbed");
            cover(again as u32 * 2 + w.trap as u32);
        });
    }
}
