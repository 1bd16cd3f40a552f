//! Shutdown of supervisors.
use crate::sup::*;
use crate::util::*;

fn watch(pids: Vec<Pid>) -> Rec<(Pid, ExitReason)> {
    let l = Rec::new();
    let l2 = l.clone();
    Process::spawn(async move {
        for p in pids { Process::monitor(p); }
        loop {
            if let Message::System(SystemMessage::ProcessDown(Dest::Pid(p), _, r)) = Process::receive::<u32>().await { l2.push((p, r)) }
        }
    });
    l
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Brutal,
    Limit(Duration),
    Infinity,
    /// Five seconds for a worker, any time for a supervisor.
    Default(bool),
}

harness! {
    // Every kind of child, any time it takes, every way to stop the supervisor.
    fn p16_stop() {
        block_on(async {
            x().allowed_panics = 9;
            let n = param(0) as u32;
            let w = World::new();
            let mut s = Supervisor::new().max_restarts(0);
            let mut kids: Vec<(Kind, Nature)> = vec![];
            for i in 0..n {
                let kind = match pick(5, "kind") {
                    0 => Kind::Brutal,
                    1 => { let l = sym_u16("limit"); assume(l > 0); Kind::Limit(Duration::from_secs(l as u64)) }
                    2 => Kind::Infinity,
                    k => Kind::Default(k == 4),
                };
                let trap = if kind == Kind::Brutal { i == 0 } else { flip("trap") };
                let linger = if trap { Duration::from_secs(sym_u16("linger") as u64) } else { Duration::ZERO };
                let nature = Nature { trap, linger };
                let mut c = w.child(i, Restart::Permanent, nature);
                match kind {
                    Kind::Brutal => c = c.shutdown(Shutdown::BrutalKill),
                    Kind::Limit(d) => c = c.shutdown(d),
                    Kind::Infinity => c = c.shutdown(Shutdown::Infinity),
                    Kind::Default(true) => c = c.child_type(ChildType::Supervisor),
                    Kind::Default(false) => {}
                }
                s = s.add_child(c);
                kids.push((kind, nature));
            }
            let how = pick(3, "how");
            let r = Rec::new();
            let r2 = r.clone();
            let parent = Process::spawn(async move {
                match s.start_link(SupervisorOptions::new()).await { Ok(p) => r2.push(p), Err(_) => fail("starts") }
                let _ = Process::receive::<u32>().await;
            });
            quiesce().await;
            let p = r.get()[0];
            let pids: Vec<Pid> = (0..n).map(|i| w.pid(i)).collect();
            let mut all = pids.clone();
            all.push(p);
            let downs = watch(all);
            quiesce().await;
            w.events();
            let crashed = n - 1;
            // the end times, relative to the start
            let mut want: Vec<(Ev, Duration, ExitReason)> = vec![];
            let mut t = Duration::ZERO;
            for i in (0..n).rev() {
                let (kind, nature) = kids[i as usize];
                if how == 2 && i == crashed {
                    want.push((Ev::End(i), Duration::ZERO, ExitReason::from("crash")));
                    continue;
                }
                let limit = match kind { Kind::Brutal => Some(Duration::ZERO), Kind::Limit(d) => Some(d), Kind::Default(false) => Some(Duration::from_secs(5)), _ => None };
                let killed = kind == Kind::Brutal || match limit { Some(l) => { assume(!nature.trap || l != nature.linger); nature.trap && l < nature.linger }, None => false };
                if killed { t += limit.unwrap(); want.push((Ev::End(i), t, ExitReason::Kill)); cover(1); }
                else { t += nature.linger; want.push((Ev::End(i), t, ExitReason::from("shutdown"))); cover(2); }
            }
            let begin = now();
            let ends: Vec<u64> = want.iter().map(|e| at(e.1)).collect();
            let over = at(t);
            let done = Rec::new();
            let d2 = done.clone();
            match how {
                0 => { Process::spawn(async move { let r = Supervisor::stop(p, ExitReason::Normal, None).await; d2.push((r, now())); }); }
                1 => { Process::spawn(async move { Process::exit(parent, "shutdown"); d2.push((Ok(()), 0)); }); }
                _ => { Process::send(w.pid(crashed), End::Exit(ExitReason::from("crash"))); d2.push((Ok(()), 0)); }
            }
            Process::sleep(Duration::from_secs(1 << 20)).await;
            quiesce().await;
            let _ = begin;
            check(done.len() == 1 && done.get()[0].0 == Ok(()), "stopped");
            if how == 0 { check(done.get()[0].1 == over, "when the last child has ended"); }
            check(!Process::alive(p), "the supervisor has ended");
            let ev = w.timed();
            check(ev.len() == n as usize, "each child ends once, none is started");
            let d = downs.get();
            check(d.len() == n as usize + 1, "everything has ended");
            for (k, (e, _, r)) in want.iter().enumerate() {
                check(ev[k].0 == *e, "in reverse order");
                check(ev[k].1 == ends[k], "one after the other, each as long as it is allowed to take");
                check(d[k].0 == w.pid(match e { Ev::End(i) => *i, _ => 0 }) && d[k].1 == *r, "ended as its shutdown demands");
            }
            let why = if how == 0 { ExitReason::Normal } else { ExitReason::from("shutdown") };
            check(d[n as usize].0 == p && d[n as usize].1 == why, "and then the supervisor");
            if how > 0 { cover(how as u32 + 2) }
        });
    }
    // Automatic shutdown.
    fn p16_auto() {
        block_on(async {
            x().allowed_panics = 9;
            let n = param(0) as u32;
            let auto = [AutoShutdown::Never, AutoShutdown::AnySignificant, AutoShutdown::AllSignificant][pick(3, "auto")];
            let w = World::new();
            let mut s = Supervisor::new().auto_shutdown(auto).max_restarts(100);
            let mut kids: Vec<(Restart, bool, bool)> = vec![];
            for i in 0..n {
                let (r, sig) = [(Restart::Permanent, false), (Restart::Transient, false), (Restart::Temporary, false), (Restart::Transient, true), (Restart::Temporary, true)][pick(5, "kind")];
                s = s.add_child(w.child(i, r, PLAIN).significant(sig));
                kids.push((r, sig, true));
            }
            let p = start(s).await;
            let downs = watch(vec![p]);
            quiesce().await;
            w.events();
            for _ in 0..param(1) {
                let run: Vec<u32> = (0..n).filter(|i| kids[*i as usize].2).collect();
                if run.is_empty() { break }
                let i = run[pick(run.len(), "child")];
                let (r, sig, _) = kids[i as usize];
                let how = pick(3, "how");
                let mut shut = false;
                match how {
                    // told by the supervisor
                    2 => within(async move { check(Supervisor::terminate_child("sup", name(i)).await.is_ok(), "terminated") }).await,
                    _ => Process::send(w.pid(i), if how == 0 { End::Return } else { End::Exit(ExitReason::from("crash")) }),
                }
                quiesce().await;
                let restarted = match r { Restart::Permanent => how < 2, Restart::Transient => how == 1, Restart::Temporary => false };
                if !restarted {
                    kids[i as usize].2 = false;
                    let left = (0..n).any(|k| kids[k as usize].1 && kids[k as usize].2);
                    if how < 2 && sig {
                        shut = match auto { AutoShutdown::Never => false, AutoShutdown::AnySignificant => true, AutoShutdown::AllSignificant => !left };
                        if auto == AutoShutdown::AllSignificant && !shut { cover(3) }
                    }
                }
                let mut ev = w.events();
                check(ev.remove(0) == Ev::End(i), "it ends");
                if shut {
                    check(!Process::alive(p), "the supervisor shuts itself down");
                    let want: Vec<Ev> = (0..n).rev().filter(|k| kids[*k as usize].2).map(Ev::End).collect();
                    check(ev == want, "all children end in reverse order");
                    check(downs.len() == 1 && downs.get()[0].1 == ExitReason::from("shutdown"), "with reason shutdown");
                    cover(if auto == AutoShutdown::AnySignificant { 1 } else { 2 });
                    break;
                }
                check(Process::alive(p), "the supervisor goes on");
                check(ev == if restarted { vec![Ev::Start(i)] } else { vec![] }, "nothing else happens");
            }
        });
    }
    // A failing start while the supervisor initialises: everything started so far is stopped.
    fn p16_init() {
        block_on(async {
            let n = 3u32;
            let bad = pick(n as usize, "bad") as u32;
            let w = World::new();
            let mut s = Supervisor::new();
            let out = [Out::Bad, Out::Ignore][pick(2, "out")];
            let linger = Duration::from_secs(sym_u8("linger") as u64);
            for i in 0..n { s = s.add_child(w.child(i, Restart::Permanent, Nature { trap: true, linger }).shutdown(Shutdown::Infinity)); }
            w.plan.push((bad, out));
            let done = Rec::new();
            let d2 = done.clone();
            let before = Process::list().len();
            let t = at(linger * bad);
            Process::spawn(async move {
                let r = s.start(SupervisorOptions::new().name("sup")).await;
                d2.push((r, now()));
            });
            Process::sleep(Duration::from_secs(10000)).await;
            quiesce().await;
            check(done.len() == 1, "start returns");
            let (r, when) = &done.get()[0];
            let ev = w.events();
            if out == Out::Bad {
                check(*r == Err(ExitReason::from("failed_to_start_child")), "the start fails");
                check(*when == t, "once everything is stopped");
                check(Process::list().len() == before && Process::whereis("sup").is_none(), "nothing is left");
                let mut want: Vec<Ev> = (0..bad).map(Ev::Start).collect();
                want.push(Ev::Failed(bad));
                want.extend((0..bad).rev().map(Ev::End));
                check(ev == want, "the children started so far are stopped in reverse order");
                cover(1);
            } else {
                check(r.is_ok(), "a child that is ignored is no failure");
                let want: Vec<Ev> = (0..n).map(|i| if i == bad { Ev::Ignored(i) } else { Ev::Start(i) }).collect();
                check(ev == want, "the others are started");
                cover(2);
            }
        });
    }
    // A child ends by itself while the supervisor stops.
    fn p16_race() {
        block_on(async {
            x().allowed_panics = 9;
            let w = World::new();
            let kind = pick(3, "kind");
            let mut s = Supervisor::new();
            for i in 0..2 {
                let c = w.child(i, Restart::Permanent, Nature { trap: true, linger: Duration::from_secs(2) });
                s = s.add_child(match kind { 0 => c.shutdown(Shutdown::BrutalKill), 1 => c.shutdown(Duration::from_secs(1)), _ => c.shutdown(Shutdown::Infinity) });
            }
            let p = start(s).await;
            let downs = watch(vec![p]);
            quiesce().await;
            let i = pick(2, "child") as u32;
            let c = w.pid(i);
            let done = Rec::new();
            let d2 = done.clone();
            budget(param(0) as u32, param(1) as u32);
            Process::send(c, End::Exit(ExitReason::from("crash")));
            Process::spawn(async move { let r = Supervisor::stop(p, ExitReason::from("shutdown"), None).await; d2.push(r.is_ok()); });
            Process::sleep(Duration::from_secs(60)).await;
            quiesce().await;
            budget(0, 0);
            check(done.get()[..] == [true] && downs.len() == 1 && downs.get()[0].1 == ExitReason::from("shutdown"), "the supervisor stops");
            check(w.pids.get().iter().all(|(_, p)| !Process::alive(*p)), "no child survives");
            let ev = w.events();
            check(ev.iter().filter(|e| matches!(e, Ev::Start(_))).count() == ev.iter().filter(|e| matches!(e, Ev::End(_))).count(), "each has ended once");
            cover(kind as u32);
        });
    }
    // Many children.
    fn p16_many() {
        block_on(async {
            let n = param(0) as u32;
            let w = World::new();
            let mut s = Supervisor::new();
            let slow = pick(n as usize, "slow") as u32;
            let linger = Duration::from_secs(sym_u8("linger") as u64);
            for i in 0..n {
                let c = w.child(i, Restart::Permanent, if i == slow { Nature { trap: true, linger } } else { PLAIN });
                s = s.add_child(if i % 2 == 0 { c.shutdown(Shutdown::Infinity) } else { c.shutdown(Duration::from_secs(1000)) });
            }
            let r = Rec::new();
            let r2 = r.clone();
            let parent = Process::spawn(async move {
                match s.start_link(SupervisorOptions::new()).await { Ok(p) => r2.push(p), Err(_) => fail("starts") }
                let _ = Process::receive::<u32>().await;
            });
            quiesce().await;
            let p = r.get()[0];
            let downs = watch(vec![p]);
            quiesce().await;
            w.events();
            let t = at(linger);
            let t0 = now();
            let done = Rec::new();
            let d2 = done.clone();
            let how = pick(2, "how");
            if how == 0 { Process::spawn(async move { d2.push(Supervisor::stop(p, ExitReason::from("shutdown"), None).await.is_ok()); }); }
            else { Process::spawn(async move { Process::exit(parent, "shutdown"); d2.push(true); }); }
            Process::sleep(Duration::from_secs(600)).await;
            quiesce().await;
            let ev = w.timed();
            check(ev.iter().map(|e| e.0).collect::<Vec<_>>() == (0..n).rev().map(Ev::End).collect::<Vec<_>>(), "the children end in reverse order");
            check(ev.iter().all(|e| match e.0 { Ev::End(i) => e.1 == if i <= slow { t } else { t0 }, _ => false }), "one after the other");
            check(downs.len() == 1 && downs.get()[0].1 == ExitReason::from("shutdown") && done.get()[..] == [true], "the supervisor ends");
            check(w.pids.get().iter().all(|(_, p)| !Process::alive(*p)), "no child survives");
            cover(how as u32);
        });
    }
}
