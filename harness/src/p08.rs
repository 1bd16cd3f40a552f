//! Registered names.
use crate::agent::*;
use crate::util::*;

/// Names against which everything is checked: owner of each name.
struct Model {
    names: Vec<String>,
    owner: Vec<Option<usize>>,
    alive: Vec<bool>,
}
impl Model {
    fn index(&self, n: usize) -> usize {
        self.names.iter().position(|x| *x == self.names[n]).unwrap()
    }
    fn name_of(&self, p: usize) -> Option<usize> {
        self.owner.iter().position(|o| *o == Some(p))
    }
    fn agrees(&self, pids: &[Pid]) {
        let mut n = 0;
        for i in 0..self.names.len() {
            if self.index(i) != i { continue; }
            check(Process::whereis(&self.names[i]) == self.owner[i].map(|p| pids[p]), "whereis gives the owner");
            n += self.owner[i].is_some() as usize;
            check(Process::registered().iter().filter(|x| **x == self.names[i]).count() == self.owner[i].is_some() as usize, "registered names are listed once");
        }
        check(Process::registered().len() == n, "only registered names are listed");
        for p in 0..pids.len() {
            match Process::info(pids[p]) {
                Some(i) => check(self.alive[p] && i.registered_name == self.name_of(p).map(|n| self.names[n].clone()), "the process knows its name"),
                None => check(!self.alive[p], "a live process has information"),
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Reg(usize, usize),
    Unreg(usize),
    End(usize),
    Look(usize),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Res {
    Ok(bool),
    At(Option<usize>),
}
#[derive(Clone, PartialEq)]
struct St {
    owner: [Option<usize>; 2],
    alive: [bool; 2],
}
impl St {
    fn apply(&mut self, op: Op) -> Res {
        match op {
            Op::Reg(p, n) => {
                if self.owner[n] == Some(p) { return Res::Ok(true); }
                if self.owner[n].is_some() || !self.alive[p] || self.owner[1 - n] == Some(p) { return Res::Ok(false); }
                self.owner[n] = Some(p);
                Res::Ok(true)
            }
            Op::Unreg(n) => {
                let was = self.owner[n].is_some();
                self.owner[n] = None;
                Res::Ok(was)
            }
            Op::End(p) => {
                self.alive[p] = false;
                for o in self.owner.iter_mut() {
                    if *o == Some(p) { *o = None; }
                }
                Res::Ok(true)
            }
            Op::Look(n) => Res::At(self.owner[n]),
        }
    }
}
const NAMES: [&str; 2] = ["a", "b"];
fn perform(op: Op, pids: [Pid; 2]) -> Res {
    match op {
        Op::Reg(p, n) => Res::Ok(Process::register(pids[p], NAMES[n]).is_ok()),
        Op::Unreg(n) => Res::Ok(std::panic::catch_unwind(|| Process::unregister(NAMES[n])).is_ok()),
        Op::End(p) => {
            Process::exit(pids[p], ExitReason::Kill);
            Res::Ok(true)
        }
        Op::Look(n) => Res::At(Process::whereis(NAMES[n]).map(|w| if w == pids[0] { 0 } else { check(w == pids[1], "a known pid"); 1 })),
    }
}
fn any_op() -> Op {
    match pick(8, "op") {
        0 => Op::Reg(0, 0),
        1 => Op::Reg(1, 0),
        2 => Op::Reg(0, 1),
        3 => Op::Reg(1, 1),
        4 => Op::Unreg(0),
        5 => Op::Unreg(1),
        6 => Op::Look(0),
        _ => Op::Look(1),
    }
}
/// Is there an order of the threads' operations, each thread's in its own order, that explains results and final state?
fn explained(st: &St, threads: &[Vec<(Op, Res)>], at: &mut Vec<usize>, last: &St) -> bool {
    let mut done = true;
    for t in 0..threads.len() {
        if at[t] < threads[t].len() {
            done = false;
            let (op, want) = threads[t][at[t]];
            let mut s = st.clone();
            if s.apply(op) == want {
                at[t] += 1;
                let r = explained(&s, threads, at, last);
                at[t] -= 1;
                if r { return true; }
            }
        }
    }
    done && st == last
}

harness! {
    // Any sequence of registrations, removals and ends, over two live processes, a dead one and one of another node.
    fn p08_ops() {
        block_on(async {
            let s = Agent::new(false).await;
            let a = [Agent::new(false).await, Agent::new(true).await, Agent::new(false).await];
            a[2].stop();
            quiesce().await;
            let len = param(1) as usize;
            let mut m = Model { names: vec![sym_word(len, "n0"), sym_word(len, "n1")], owner: vec![None, None], alive: vec![true, true, false] };
            let pids = [a[0].pid, a[1].pid, a[2].pid];
            for _ in 0..param(0) {
                match pick(4, "op") {
                    0 => {
                        let p = pick(4, "who");
                        let n = pick(2, "name");
                        let i = m.index(n);
                        let name = m.names[n].clone();
                        if p == 3 {
                            check(Process::register(remote_pid(number(pids[0])), name).is_err(), "a process of another node is refused");
                            cover(1);
                        } else {
                            let r = Process::register(pids[p], name);
                            if m.owner[i] == Some(p) {
                                cover(2); // to the name it has already: either answer will do
                            } else if m.owner[i].is_some() || !m.alive[p] || m.name_of(p).is_some() {
                                check(r.is_err(), "taken name, named process or dead process is refused");
                                cover(3);
                            } else {
                                check(r.is_ok(), "a free name is given to a live process without a name");
                                m.owner[i] = Some(p);
                                cover(4);
                            }
                        }
                    }
                    1 => {
                        let i = m.index(pick(2, "name"));
                        let name = m.names[i].clone();
                        let r = std::panic::catch_unwind(move || Process::unregister(name));
                        if m.owner[i].is_some() {
                            check(r.is_ok(), "a registered name can be removed");
                            m.owner[i] = None;
                            cover(5);
                        } else {
                            cover(6);
                        }
                    }
                    2 => {
                        let p = pick(2, "who");
                        if m.alive[p] {
                            finish_off(pick(ENDS, "end"), &a[p], &s);
                            quiesce().await;
                            m.alive[p] = false;
                            if let Some(n) = m.name_of(p) { m.owner[n] = None; cover(7); } else { cover(8); }
                        }
                    }
                    _ => {
                        // a message to the name reaches its owner
                        let i = m.index(pick(2, "name"));
                        let hit: Rec<Pid> = Rec::new();
                        let h = hit.clone();
                        Process::send(m.names[i].clone(), Cmd::of(async move { h.push(Process::current()) }));
                        quiesce().await;
                        match m.owner[i] {
                            Some(p) => { check(hit.get()[..] == [pids[p]], "a message to a name reaches its owner"); cover(9); }
                            None => { check(hit.len() == 0, "a message to a free name reaches nobody"); cover(10); }
                        }
                    }
                }
                m.agrees(&pids);
            }
        });
    }
    // Concurrent operations behave like some sequence of them.
    fn p08_race() {
        block_on(async {
            let s = Agent::new(false).await;
            let (x, y) = (Agent::new(false).await, Agent::new(false).await);
            let pids = [x.pid, y.pid];
            let d = [Agent::new(false).await, Agent::new(false).await];
            let mut st = St { owner: [None; 2], alive: [true; 2] };
            match pick(3, "before") {
                1 => { perform(Op::Reg(0, 0), pids); st.apply(Op::Reg(0, 0)); }
                2 => { perform(Op::Reg(0, 0), pids); perform(Op::Reg(1, 1), pids); st.apply(Op::Reg(0, 0)); st.apply(Op::Reg(1, 1)); }
                _ => {}
            }
            let log = [Rec::new(), Rec::new()];
            let n = [param(2) as usize, param(3) as usize];
            let ops: Vec<Vec<Op>> = (0..2).map(|t| (0..n[t]).map(|_| any_op()).collect()).collect();
            let end = pick(3, "end");
            budget(param(0) as u32, param(1) as u32);
            for t in 0..2 {
                let (l, o) = (log[t].clone(), ops[t].clone());
                d[t].tell(move || for op in o { l.push((op, perform(op, pids))); });
            }
            if end > 0 { s.tell(move || { perform(Op::End(end - 1), pids); }); }
            quiesce().await;
            budget(0, 0);
            let mut threads: Vec<Vec<(Op, Res)>> = log.iter().map(|l| l.get().clone()).collect();
            check(threads[0].len() == n[0] && threads[1].len() == n[1], "every operation returns");
            if end > 0 { threads.push(vec![(Op::End(end - 1), Res::Ok(true))]); }
            let find = |n: usize| Process::whereis(NAMES[n]).map(|w| if w == pids[0] { 0 } else { 1 });
            let last = St { owner: [find(0), find(1)], alive: [Process::alive(pids[0]), Process::alive(pids[1])] };
            check(explained(&st, &threads, &mut vec![0; threads.len()], &last), "the operations act one after the other");
            Model { names: vec!["a".into(), "b".into()], owner: last.owner.to_vec(), alive: last.alive.to_vec() }.agrees(&pids);
            cover(end as u32 + 1);
        });
    }
    // The end of a process is reported after its name has become free.
    fn p08_down() {
        block_on(async {
            let x = Agent::new(false).await;
            let p = x.pid;
            let _ = Process::register(p, "a");
            let how = pick(2, "how");
            let out: Rec<bool> = Rec::new();
            let o = out.clone();
            let _w = Process::spawn(async move {
                Process::set_flags(ProcessFlags::TRAP_EXIT);
                if how == 0 { Process::monitor(p); } else { Process::link(p); }
                let _ = Process::receive::<u8>().await;
                let ok = Process::whereis("a").is_none() && Process::register(Process::current(), "a").is_ok();
                o.push(ok);
                Process::sleep(Duration::from_secs(1)).await;
            });
            quiesce().await;
            budget(param(0) as u32, param(1) as u32);
            x.stop();
            quiesce().await;
            check(out.get()[..] == [true], "the name is free when the end is known");
            cover(how as u32 + 1);
        });
    }
    // Many names.
    fn p08_many() {
        block_on(async {
            let n = param(0) as usize;
            let s = Agent::new(false).await;
            let name = |i: usize| match i { 0 => String::new(), 1 => "x".repeat(300), 2 => "\u{e9}\u{1f600}".to_string(), 3 => "A1".to_string(), _ => format!("a{i}") };
            let mut v = vec![];
            for i in 0..n {
                let a = Agent::new(false).await;
                check(Process::register(a.pid, name(i)).is_ok(), "a free name is given");
                v.push(a);
            }
            let k = pick(n, "ends");
            let how = pick(2, "how");
            match how { 0 => { finish_off(pick(ENDS, "end"), &v[k], &s); } _ => Process::unregister(name(k)) }
            quiesce().await;
            let mut list = Process::registered();
            list.sort();
            let mut want: Vec<String> = (0..n).filter(|i| *i != k).map(name).collect();
            want.sort();
            check(list == want, "exactly the names held are listed");
            for i in 0..n {
                check(Process::whereis(name(i)) == if i == k { None } else { Some(v[i].pid) }, "each name leads to its process");
            }
            let b = Agent::new(false).await;
            check(Process::register(b.pid, name((k + 1) % n)).is_err() && Process::register(b.pid, name(k)).is_ok(), "a name that is held is not given, a freed one is");
            if how == 1 { check(Process::register(v[k].pid, name(n)).is_ok(), "a process without a name can get another"); }
            cover(how as u32);
        });
    }
}
