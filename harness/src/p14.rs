//! Restart strategies.
use crate::sup::*;
use crate::util::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runs,
    /// Its restart failed and is tried again.
    Again,
    /// Has ended for good.
    Gone,
}
struct Model {
    strategy: usize,
    kids: Vec<(u32, Restart, St)>,
    want: Vec<Ev>,
    plan: Vec<(u32, Out)>,
}
impl Model {
    fn abnormal(how: usize) -> bool {
        how >= 2
    }
    fn start(&mut self, k: usize) -> bool {
        let i = self.kids[k].0;
        let out = match self.plan.iter().position(|(x, _)| *x == i) {
            Some(p) => self.plan.remove(p).1,
            None => Out::Good,
        };
        match out {
            Out::Good => { self.want.push(Ev::Start(i)); self.kids[k].2 = St::Runs; true }
            Out::Ignore => { self.want.push(Ev::Ignored(i)); self.kids[k].2 = St::Gone; true }
            Out::Bad => { self.want.push(Ev::Failed(i)); false }
        }
    }
    fn restart(&mut self, k: usize) {
        let from = match self.strategy { 0 => k, 1 => 0, _ => k };
        let to = if self.strategy == 0 { k + 1 } else { self.kids.len() };
        for j in (from..to).rev() {
            if j == k { continue }
            if self.kids[j].2 == St::Runs { self.want.push(Ev::End(self.kids[j].0)); }
            if self.kids[j].1 == Restart::Temporary { self.kids.remove(j); }
            else { self.kids[j].2 = St::Gone; }
        }
        let me = self.kids.iter().position(|c| c.2 == St::Again).unwrap();
        let from = match self.strategy { 1 => 0, _ => me };
        let to = if self.strategy == 0 { me + 1 } else { self.kids.len() };
        self.kids[me].2 = St::Gone;
        for j in from..to {
            if !self.start(j) {
                // tried again
                self.kids[j].2 = St::Again;
                return self.restart(j);
            }
        }
    }
    fn ended(&mut self, i: u32, how: usize) {
        self.want.push(Ev::End(i));
        let k = self.kids.iter().position(|c| c.0 == i).unwrap();
        let again = match self.kids[k].1 {
            Restart::Permanent => true,
            Restart::Transient => Model::abnormal(how),
            Restart::Temporary => false,
        };
        if again {
            self.kids[k].2 = St::Again;
            self.restart(k);
        } else {
            self.kids.remove(k);
        }
    }
    fn running(&self) -> Vec<u32> {
        self.kids.iter().filter(|c| c.2 == St::Runs).map(|c| c.0).collect()
    }
}
/// Ends a child; 0 and 1 are normal ends.
fn end(p: Pid, how: usize) {
    match how {
        0 => Process::send(p, End::Return),
        1 => Process::send(p, End::Exit(ExitReason::from("shutdown"))),
        2 => Process::send(p, End::Exit(ExitReason::from("crash"))),
        3 => { Process::spawn(async move { Process::exit(p, ExitReason::Kill) }); }
        4 => Process::send(p, End::Panic),
        6 => Process::send(p, End::Exit(ExitReason::Ignore)),
        _ => { Process::spawn(async move { Process::exit(p, "told") }); }
    }
}
const STRATEGY: [SupervisionStrategy; 3] = [SupervisionStrategy::OneForOne, SupervisionStrategy::OneForAll, SupervisionStrategy::RestForOne];

async fn agrees(w: &World, m: &Model, log: &Rec<Vec<Info>>) {
    let l = log.clone();
    within(async move { l.push(which("sup").await) }).await;
    let infos = log.get().pop().unwrap();
    let run: Vec<u32> = infos.iter().filter(|i| i.child.is_some()).map(|i| (i.id.as_bytes()[0] - b'a') as u32).collect();
    check(run == m.running(), "the children that run, in order");
    for i in &infos {
        if let Some(p) = i.child {
            check(Process::alive(p), "they live");
            check(p == w.pid((i.id.as_bytes()[0] - b'a') as u32), "as what they were started");
        }
        check(!i.restarting, "nothing is pending");
    }
}

harness! {
    // Children of any restart type end one after the other, in any way.
    fn p14_ends() {
        block_on(async {
            x().allowed_panics = 100;
            let n = param(0) as u32;
            let events = param(1);
            let strategy = pick(3, "strategy");
            let w = World::new();
            let mut s = Supervisor::new().strategy(STRATEGY[strategy]).max_restarts(100);
            let mut m = Model { strategy, kids: vec![], want: vec![], plan: vec![] };
            for i in 0..n {
                let r = restart("restart");
                s = s.add_child(w.child(i, r, PLAIN));
                m.kids.push((i, r, St::Runs));
                m.want.push(Ev::Start(i));
            }
            let p = start(s).await;
            quiesce().await;
            check(w.events() == m.want, "started in order");
            let log = Rec::new();
            for _ in 0..events {
                let run = m.running();
                if run.is_empty() { break }
                let i = run[pick(run.len(), "child")];
                let how = pick(7, "how");
                m.want.clear();
                let others: Vec<(u32, Pid)> = run.iter().filter(|k| **k != i).map(|k| (*k, w.pid(*k))).collect();
                end(w.pid(i), how);
                quiesce().await;
                m.ended(i, how);
                check(w.events() == m.want, "exactly the children concerned are stopped and started, in order");
                for (k, p) in others {
                    if !m.want.contains(&Ev::End(k)) { check(Process::alive(p) && w.pid(k) == p, "the others are not disturbed"); }
                }
                check(Process::alive(p), "the supervisor goes on");
                agrees(&w, &m, &log).await;
                if m.want.len() > 1 { cover(strategy as u32) }
                if m.want.len() > 3 { cover(3) }
                if m.want.len() == 1 { cover(4) }
            }
        });
    }
    // Restarts that fail, or are ignored, and are tried again.
    fn p14_again() {
        block_on(async {
            x().allowed_panics = 100;
            let n = param(0) as u32;
            let strategy = pick(3, "strategy");
            let w = World::new();
            let mut s = Supervisor::new().strategy(STRATEGY[strategy]).max_restarts(100);
            let mut m = Model { strategy, kids: vec![], want: vec![], plan: vec![] };
            for i in 0..n {
                let r = [Restart::Permanent, Restart::Temporary][pick(2, "restart")];
                s = s.add_child(w.child(i, r, PLAIN));
                m.kids.push((i, r, St::Runs));
            }
            let p = start(s).await;
            quiesce().await;
            w.events();
            let i = pick(n as usize, "child") as u32;
            for _ in 0..param(1) {
                let k = pick(n as usize, "plan") as u32;
                let o = [Out::Bad, Out::Ignore][pick(2, "out")];
                w.plan.push((k, o));
                m.plan.push((k, o));
            }
            end(w.pid(i), 2);
            quiesce().await;
            m.ended(i, 2);
            check(w.events() == m.want, "tried again until all are started, in order");
            check(Process::alive(p), "the supervisor goes on");
            agrees(&w, &m, &Rec::new()).await;
            if m.want.contains(&Ev::Failed(i)) { cover(1) }
            if m.want.iter().any(|e| matches!(e, Ev::Ignored(_))) { cover(2) }
            if m.want.iter().any(|e| matches!(e, Ev::Failed(k) if *k != i)) { cover(3) }
        });
    }
    // Two children end at the same time.
    fn p14_race() {
        block_on(async {
            x().allowed_panics = 100;
            let strategy = pick(3, "strategy");
            let w = World::new();
            let mut s = Supervisor::new().strategy(STRATEGY[strategy]).max_restarts(100);
            let kinds: Vec<Restart> = (0..3).map(|_| [Restart::Permanent, Restart::Temporary][pick(2, "restart")]).collect();
            for i in 0..3 { s = s.add_child(w.child(i, kinds[i as usize], PLAIN)); }
            let p = start(s).await;
            quiesce().await;
            let old: Vec<Pid> = (0..3).map(|i| w.pid(i)).collect();
            w.events();
            let (a, b) = ([(0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)])[pick(6, "which")];
            let (pa, pb) = (w.pid(a), w.pid(b));
            budget(param(0) as u32, param(1) as u32);
            end(pa, 2);
            Process::spawn(async move { Process::exit(pb, ExitReason::Kill) });
            quiesce().await;
            budget(0, 0);
            check(Process::alive(p), "the supervisor goes on");
            let ev = w.events();
            let starts = |i: u32| ev.iter().filter(|e| **e == Ev::Start(i)).count();
            let ends = |i: u32| ev.iter().filter(|e| **e == Ev::End(i)).count();
            for i in 0..3u32 {
                let permanent = kinds[i as usize] == Restart::Permanent;
                let hit = i == a || i == b;
                if !permanent { check(starts(i) == 0, "temporary children are never restarted"); }
                else { check(ends(i) == starts(i), "one instance runs"); check(Process::alive(w.pid(i)), "it lives"); }
                if hit { check(!Process::alive(old[i as usize]), "it ended"); check(!permanent || starts(i) >= 1 && starts(i) <= 2, "restarted"); }
                check(starts(i) <= 2, "at most once for each end");
                if !hit {
                    let concerned = match strategy {
                        0 => false,
                        1 => kinds[a as usize] == Restart::Permanent || kinds[b as usize] == Restart::Permanent,
                        _ => (a < i && kinds[a as usize] == Restart::Permanent) || (b < i && kinds[b as usize] == Restart::Permanent),
                    };
                    if !concerned { check(ends(i) == 0 && w.pid(i) == old[i as usize] && Process::alive(w.pid(i)), "not disturbed"); }
                    else if permanent { check(starts(i) >= 1, "restarted too"); }
                    else { check(ends(i) == 1, "stopped"); }
                }
                if strategy == 0 && hit && permanent { check(starts(i) == 1, "restarted once"); }
            }
            let log: Rec<Vec<Info>> = Rec::new();
            let l = log.clone();
            within(async move { l.push(which("sup").await) }).await;
            let infos = log.get().pop().unwrap();
            let run: Vec<u32> = infos.iter().filter(|i| i.child.is_some()).map(|i| (i.id.as_bytes()[0] - b'a') as u32).collect();
            let want: Vec<u32> = (0..3u32).filter(|i| kinds[*i as usize] == Restart::Permanent || ends(*i) == 0).collect();
            check(run == want, "the books are right");
            for i in &infos { if let Some(p) = i.child { check(Process::alive(p), "listed children live"); } }
            cover(strategy as u32);
        });
    }
    // Many children, one of which ends.
    fn p14_many() {
        block_on(async {
            x().allowed_panics = 2;
            let n = param(0) as u32;
            let strategy = pick(3, "strategy");
            let w = World::new();
            let mut s = Supervisor::new().strategy(STRATEGY[strategy]);
            // every third is temporary
            for i in 0..n { s = s.add_child(w.child(i, if i % 3 == 2 { Restart::Temporary } else { Restart::Permanent }, PLAIN)); }
            let p = start(s).await;
            quiesce().await;
            check(w.events() == (0..n).map(Ev::Start).collect::<Vec<_>>(), "all are started in order");
            let i = pick(n as usize, "child") as u32;
            end(w.pid(i), 2);
            quiesce().await;
            let ev = w.events();
            let (from, to) = match strategy { 0 => (i, i + 1), 1 => (0, n), _ => (i, n) };
            let mut want = vec![Ev::End(i)];
            if i % 3 != 2 {
                want.extend((from..to).rev().filter(|j| *j != i).map(Ev::End));
                want.extend((from..to).filter(|j| j % 3 != 2).map(Ev::Start));
                cover(strategy as u32);
            } else { cover(3); }
            check(ev == want, "those concerned are stopped in reverse order and started in order");
            check(Process::alive(p), "the supervisor goes on");
            let r = Rec::new();
            let r2 = r.clone();
            within(async move { r2.push(which("sup").await) }).await;
            let ids: Vec<String> = r.get()[0].iter().map(|x| { check(x.child.is_some_and(Process::alive) && !x.restarting, "each of them runs"); x.id.clone() }).collect();
            let left: Vec<&str> = (0..n).filter(|j| j % 3 != 2 || *j != i && (i % 3 == 2 || *j < from || *j >= to)).map(name).collect();
            check(ids == left, "the children, in order");
        });
    }
    // While children are stopped to be started again, or one is terminated, another one ends.
    fn p14_meanwhile() {
        block_on(async {
            x().allowed_panics = 2;
            let n = 4u32;
            let strategy = pick(4, "strategy");
            let w = World::new();
            let mut s = Supervisor::new().strategy(STRATEGY[strategy % 3]).max_restarts(100);
            let linger = Duration::from_secs(2 + sym_u8("linger") as u64);
            let slow = 1 + pick(3, "slow") as u32;
            let v = pick(slow as usize + (strategy == 3) as usize, "first") as u32;
            let u = pick(n as usize, "second") as u32;
            if u == v || u == slow { return }
            let temporary = flip("temporary");
            for i in 0..n {
                let r = if i == u && temporary { Restart::Temporary } else { Restart::Permanent };
                s = s.add_child(w.child(i, r, if i == slow { Nature { trap: true, linger } } else { PLAIN }).shutdown(Shutdown::Infinity));
            }
            let p = start(s).await;
            quiesce().await;
            let done: Rec<u32> = Rec::new();
            if strategy == 3 {
                // told to terminate the slow one
                let d = done.clone();
                Process::spawn(async move { let _ = Supervisor::terminate_child("sup", name(slow)).await; d.push(1); });
            } else {
                Process::send(w.pid(v), End::Exit(ExitReason::from("crash")));
            }
            let gap = sym_u8("gap") as u64;
            assume(gap > 0 && Duration::from_secs(gap) < linger);
            Process::sleep(Duration::from_secs(gap)).await;
            quiesce().await;
            let was = w.pid(u);
            if Process::alive(was) {
                end(was, 2 + pick(2, "how"));
                cover(strategy as u32);
            }
            // and the supervisor is asked something
            let asked = done.clone();
            Process::spawn(async move { let _ = Supervisor::count_children("sup").await; asked.push(2); });
            quiesce().await;
            check(!Process::alive(was), "it ended");
            Process::sleep(Duration::from_secs(2000)).await;
            quiesce().await;
            check(done.get().contains(&2) && done.len() == 1 + (strategy == 3) as usize, "everyone is answered");
            check(Process::alive(p), "the supervisor goes on");
            let r = Rec::new();
            let r2 = r.clone();
            within(async move { r2.push(which("sup").await) }).await;
            let l: &Vec<Info> = &r.get()[0];
            for i in 0..n {
                let idle = strategy == 3 && i == slow;
                let gone = i == u && temporary;
                let k = l.iter().filter(|x| x.id == name(i)).count();
                check(k == !gone as usize, "a child is held, unless it is temporary and has ended");
                let ev = w.log.get();
                let starts = ev.iter().filter(|e| e.0 == Ev::Start(i)).count();
                let ends = ev.iter().filter(|e| e.0 == Ev::End(i)).count();
                check(starts == ends + (!idle && !gone) as usize, "each runs once");
                if !idle && !gone {
                    check(l.iter().any(|x| x.id == name(i) && x.child == Some(w.pid(i)) && !x.restarting) && Process::alive(w.pid(i)), "and is known to");
                }
            }
            cover(4 + temporary as u32);
        });
    }
}
