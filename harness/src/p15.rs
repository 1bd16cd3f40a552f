//! Restart intensity.
use crate::sup::*;
use crate::util::*;

async fn gone(w: &World, p: Pid, n: u32, downs: &Rec<SystemMessage>) {
    check(!Process::alive(p), "the supervisor has ended");
    for i in 0..n { check(!Process::alive(w.pid(i)), "no child is left"); }
    check(downs.len() == 1 && matches!(&downs.get()[0], SystemMessage::ProcessDown(_, _, ExitReason::Custom(s)) if s == "shutdown"), "with reason shutdown");
}
fn watch(p: Pid) -> Rec<SystemMessage> {
    let l = Rec::new();
    let l2 = l.clone();
    Process::spawn(async move {
        Process::monitor(p);
        loop {
            if let Message::System(s) = Process::receive::<u32>().await { l2.push(s) }
        }
    });
    l
}

harness! {
    // One of two children ends again and again, at any times.
    fn p15_window() {
        block_on(async {
            let k = param(0) as usize;
            let max = pick(param(1) as usize + 1, "max");
            let window = sym_secs("window");
            assume(window.as_secs() < 1 << 20);
            let w = World::new();
            let s = Supervisor::new().max_restarts(max).max_duration(window)
                .add_child(w.child(0, Restart::Permanent, PLAIN)).add_child(w.child(1, Restart::Transient, PLAIN));
            let p = start(s).await;
            let downs = watch(p);
            quiesce().await;
            let mut t = 0u64;
            let mut times: Vec<u64> = vec![];
            let mut over = false;
            for _ in 0..k {
                let gap = sym_secs("gap");
                assume(gap.as_secs() < 1 << 20);
                Process::sleep(gap).await;
                t += gap.as_secs();
                // a restart exactly one window ago may count or not
                for x in &times { assume(t - *x != window.as_secs() || t == *x); }
                let i = pick(2, "child") as u32;
                times.push(t);
                let recent = times.iter().filter(|x| t - **x < window.as_secs() || t == **x).count();
                let old = w.pid(i);
                let other = w.pid(1 - i);
                Process::send(old, End::Exit(ExitReason::from("crash")));
                quiesce().await;
                if recent > max {
                    gone(&w, p, 2, &downs).await;
                    over = true;
                    cover(1);
                    break;
                }
                check(Process::alive(p) && downs.len() == 0, "it goes on while no window contains more");
                check(w.pid(i) != old && Process::alive(w.pid(i)), "and restarts");
                check(w.pid(1 - i) == other && Process::alive(other), "the other one is not disturbed");
            }
            if !over { cover(2) }
            if !over && times.len() > max { cover(3) }
        });
    }
    // A window of any length, also the longest.
    fn p15_extreme() {
        block_on(async {
            let kind = pick(4, "kind");
            let window = match kind {
                0 => Duration::MAX,
                1 => Duration::ZERO,
                2 => Duration::from_secs(u64::MAX),
                _ => sym_dur("window"),
            };
            let w = World::new();
            let s = Supervisor::new().max_restarts(1).max_duration(window).add_child(w.child(0, Restart::Permanent, PLAIN));
            let p = start(s).await;
            let downs = watch(p);
            quiesce().await;
            let first = w.pid(0);
            Process::send(first, End::Panic);
            x().allowed_panics = 9;
            quiesce().await;
            check(Process::alive(p) && w.pid(0) != first && Process::alive(w.pid(0)), "one restart is allowed");
            let gap = if kind == 3 { sym_dur("gap") } else { Duration::from_secs(100) };
            Process::sleep(gap).await;
            Process::send(w.pid(0), End::Return);
            quiesce().await;
            if kind == 1 || kind == 3 && gap > window {
                check(Process::alive(p) && Process::alive(w.pid(0)), "older restarts do not count");
                cover(1);
            } else if !(kind == 3 && gap == window) {
                gone(&w, p, 1, &downs).await;
                cover(2);
            }
        });
    }
    // Failing restarts count too; children that are not restarted do not.
    fn p15_tries() {
        block_on(async {
            x().allowed_panics = 9;
            let max = pick(4, "max");
            let fails = pick(4, "fails");
            let strategy = [SupervisionStrategy::OneForOne, SupervisionStrategy::OneForAll, SupervisionStrategy::RestForOne][pick(3, "strategy")];
            let w = World::new();
            let s = Supervisor::new().max_restarts(max).strategy(strategy)
                .add_child(w.child(0, Restart::Permanent, PLAIN))
                .add_child(w.child(1, Restart::Temporary, PLAIN))
                .add_child(w.child(2, Restart::Transient, PLAIN));
            let p = start(s).await;
            let downs = watch(p);
            quiesce().await;
            // these are no restarts
            if flip("temporary") { Process::send(w.pid(1), End::Panic); quiesce().await; }
            if flip("transient") { Process::send(w.pid(2), End::Return); quiesce().await; }
            check(Process::alive(p), "no restart, no limit");
            let cancel = flip("cancel");
            let stop = if cancel && fails > 0 { fails - 1 } else { usize::MAX };
            let _ = stop;
            for _ in 0..fails { w.plan.push((0, Out::Bad)); }
            let first = w.pid(0);
            Process::send(first, End::Panic);
            quiesce().await;
            let ev = w.events();
            let tried = ev.iter().filter(|e| matches!(e, Ev::Failed(0))).count();
            if fails + 1 > max {
                gone(&w, p, 3, &downs).await;
                check(tried == max, "as many tries as allowed");
                cover(1);
            } else {
                check(Process::alive(p) && downs.len() == 0, "it goes on");
                check(tried == fails && w.pid(0) != first && Process::alive(w.pid(0)), "restarted in the end");
                cover(2);
                if fails > 0 { cover(3) }
            }
        });
    }
    // A restart that is pending is settled by someone else: the retry is not counted.
    fn p15_settled() {
        block_on(async {
            x().allowed_panics = 9;
            let w = World::new();
            let s = Supervisor::new().max_restarts(2).add_child(w.child(0, Restart::Permanent, PLAIN));
            let p = start(s).await;
            let downs = watch(p);
            quiesce().await;
            w.plan.push((0, Out::Bad));
            budget(param(0) as u32, param(1) as u32);
            // the termination reaches the supervisor before the retry, or after
            let done = Rec::new();
            let d2 = done.clone();
            Process::send(w.pid(0), End::Panic);
            Process::spawn(async move {
                let t = Supervisor::terminate_child("sup", "a").await;
                check(t.is_ok(), "terminated");
                let s = Supervisor::restart_child("sup", "a").await;
                // the start that fails may be this one
                let s = if s.is_ok() { s } else { Supervisor::restart_child("sup", "a").await };
                d2.push(s.is_ok());
            });
            quiesce().await;
            budget(0, 0);
            check(done.get()[..] == [true], "restarted by hand");
            check(Process::alive(p) && Process::alive(w.pid(0)), "it runs");
            let ev = w.events();
            let failed = ev.contains(&Ev::Failed(0));
            let starts = ev.iter().filter(|e| **e == Ev::Start(0)).count();
            // the first end and each failed start that was tried again count
            let counted = if starts == 3 { 2 } else { 1 };
            w.plan.get().clear();
            for _ in counted..2 {
                check(Process::alive(p), "not counted twice");
                Process::send(w.pid(0), End::Panic);
                quiesce().await;
                check(Process::alive(p) && Process::alive(w.pid(0)), "the allowed restarts are left");
            }
            let _ = (downs, failed);
            cover(counted);
        });
    }
}
