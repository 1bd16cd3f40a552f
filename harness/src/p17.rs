//! Management of children at run time.
use crate::sup::*;
use crate::util::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runs(Pid),
    Idle,
    Again,
}
#[derive(Clone)]
struct Kid {
    id: u32,
    restart: Restart,
    kind: ChildType,
    st: St,
}
#[derive(Debug, PartialEq, Clone)]
enum Res {
    Ok,
    Pid(Option<Pid>),
    Started,
    Present,
    StartError,
    NotFound,
    Running,
    Restarting,
    Other,
}
fn err(e: SupervisorError) -> Res {
    match e {
        SupervisorError::AlreadyStarted => Res::Started,
        SupervisorError::AlreadyPresent => Res::Present,
        SupervisorError::StartError(r) => if r == ExitReason::from("bad") { Res::StartError } else { Res::Other },
        SupervisorError::NotFound => Res::NotFound,
        SupervisorError::Running => Res::Running,
        SupervisorError::Restarting => Res::Restarting,
        SupervisorError::CallError(_) => Res::Other,
    }
}
async fn books(kids: &[Kid], exact: bool) {
    let r: Rec<(Vec<Info>, SupervisorCounts)> = Rec::new();
    let r2 = r.clone();
    within(async move {
        let w = which("sup").await;
        let c = match Supervisor::count_children("sup").await { Ok(c) => c, Err(_) => fail("the counts are told") };
        r2.push((w, c));
    }).await;
    let (infos, counts) = r.get().pop().unwrap();
    check(infos.len() == kids.len(), "the children held");
    for (i, k) in infos.iter().zip(kids) {
        check(i.id == name(k.id), "in order");
        check(i.child == match k.st { St::Runs(p) => Some(p), _ => None }, "those that run");
        check(i.restarting == (k.st == St::Again), "those being restarted");
    }
    let sups = kids.iter().filter(|k| matches!(k.kind, ChildType::Supervisor)).count();
    check(counts.specs == kids.len() && counts.supervisors == sups && counts.workers == kids.len() - sups, "the counts of children");
    check(counts.active == kids.iter().filter(|k| matches!(k.st, St::Runs(_))).count(), "the count of those that run");
    let _ = exact;
}
async fn op(f: impl std::future::Future<Output = Res> + std::marker::Send + 'static) -> Res {
    let r = Rec::new();
    let r2 = r.clone();
    within(async move { r2.push(f.await) }).await;
    r.get().pop().unwrap()
}

harness! {
    // Any operations on three identifiers, children ending in between.
    fn p17_ops() {
        block_on(async {
            x().allowed_panics = 99;
            let w = World::new();
            let mut kids: Vec<Kid> = vec![];
            let mut s = Supervisor::new().max_restarts(100);
            let first = restart("restart");
            s = s.add_child(w.child(0, first, PLAIN));
            let p = start(s).await;
            quiesce().await;
            kids.push(Kid { id: 0, restart: first, kind: ChildType::Worker, st: St::Runs(w.pid(0)) });
            for _ in 0..param(0) {
                w.events();
                let what = pick(6, "op");
                let i = pick(param(1) as usize, "id") as u32;
                let at = kids.iter().position(|k| k.id == i);
                let run: Vec<Pid> = kids.iter().filter(|k| k.id != i).filter_map(|k| match k.st { St::Runs(p) => Some(p), _ => None }).collect();
                match what {
                    0 => {
                        let r = restart("restart");
                        let kind = if flip("supervisor") { ChildType::Supervisor } else { ChildType::Worker };
                        let out = if at.is_none() { [Out::Good, Out::Bad, Out::Ignore][pick(3, "out")] } else { Out::Good };
                        if out != Out::Good { w.plan.push((i, out)); }
                        let c = w.child(i, r, PLAIN).child_type(kind);
                        let got = op(async move { match Supervisor::start_child("sup", c).await { Ok(p) => Res::Pid(p), Err(e) => err(e) } }).await;
                        match at {
                            Some(k) => {
                                match kids[k].st {
                                    St::Runs(_) => check(got == Res::Started, "already started"),
                                    _ => check(got == Res::Present, "already present"),
                                }
                                check(w.log.len() == 0, "nothing is started");
                                cover(1);
                            }
                            None => match out {
                                Out::Good => { check(got == Res::Pid(Some(w.pid(i))) && Process::alive(w.pid(i)), "started"); kids.push(Kid { id: i, restart: r, kind, st: St::Runs(w.pid(i)) }); cover(2); }
                                Out::Bad => { check(got == Res::StartError, "the start error"); cover(3); }
                                Out::Ignore => {
                                    check(got == Res::Pid(None), "ignored");
                                    if r != Restart::Temporary { kids.push(Kid { id: i, restart: r, kind, st: St::Idle }); }
                                    cover(4);
                                }
                            },
                        }
                    }
                    1 => {
                        let got = op(async move { match Supervisor::terminate_child("sup", name(i)).await { Ok(()) => Res::Ok, Err(e) => err(e) } }).await;
                        match at {
                            None => { check(got == Res::NotFound, "not found"); cover(5); }
                            Some(k) => {
                                check(got == Res::Ok, "terminated");
                                if let St::Runs(p) = kids[k].st { check(!Process::alive(p), "it has ended"); }
                                if kids[k].restart == Restart::Temporary { kids.remove(k); cover(6); } else { kids[k].st = St::Idle; cover(7); }
                            }
                        }
                    }
                    2 => {
                        let idle = matches!(at, Some(k) if kids[k].st == St::Idle);
                        let out = if idle { [Out::Good, Out::Bad, Out::Ignore][pick(3, "out")] } else { Out::Good };
                        if out != Out::Good { w.plan.push((i, out)); }
                        let got = op(async move { match Supervisor::restart_child("sup", name(i)).await { Ok(p) => Res::Pid(p), Err(e) => err(e) } }).await;
                        match at {
                            None => check(got == Res::NotFound, "not found"),
                            Some(k) => match kids[k].st {
                                St::Runs(_) => { check(got == Res::Running, "running"); cover(8); }
                                St::Again => check(got == Res::Restarting, "restarting"),
                                St::Idle => match out {
                                    Out::Good => { check(got == Res::Pid(Some(w.pid(i))) && Process::alive(w.pid(i)), "restarted"); kids[k].st = St::Runs(w.pid(i)); cover(9); }
                                    Out::Bad => { check(got == Res::StartError, "the start error"); cover(10); }
                                    Out::Ignore => check(got == Res::Pid(None), "ignored"),
                                },
                            },
                        }
                    }
                    3 => {
                        let got = op(async move { match Supervisor::delete_child("sup", name(i)).await { Ok(()) => Res::Ok, Err(e) => err(e) } }).await;
                        match at {
                            None => check(got == Res::NotFound, "not found"),
                            Some(k) => match kids[k].st {
                                St::Runs(_) => check(got == Res::Running, "running"),
                                St::Again => check(got == Res::Restarting, "restarting"),
                                St::Idle => { check(got == Res::Ok, "deleted"); kids.remove(k); cover(11); }
                            },
                        }
                    }
                    _ => {
                        // it ends by itself; 4: normally
                        let Some(k) = at else { return };
                        let St::Runs(p) = kids[k].st else { return };
                        Process::send(p, if what == 4 { End::Return } else { End::Panic });
                        quiesce().await;
                        check(!Process::alive(p), "it ended");
                        let again = match kids[k].restart { Restart::Permanent => true, Restart::Transient => what == 5, Restart::Temporary => false };
                        if again { check(w.pid(i) != p && Process::alive(w.pid(i)), "restarted"); kids[k].st = St::Runs(w.pid(i)); cover(12); }
                        else {
                            if kids[k].restart == Restart::Transient {
                                // whether its specification stays is left open
                                let r: Rec<bool> = Rec::new();
                                let r2 = r.clone();
                                within(async move { r2.push(which("sup").await.iter().any(|c| c.id == name(i))) }).await;
                                if r.get()[0] { kids[k].st = St::Idle } else { kids.remove(k); }
                            } else { kids.remove(k); }
                            cover(13);
                        }
                    }
                }
                check(Process::alive(p), "the supervisor goes on");
                check(run.iter().all(|p| Process::alive(*p)), "every other child is left alone");
                w.plan.get().clear();
                books(&kids, true).await;
            }
        });
    }
    // Operations on a child whose restart failed and is about to be tried again.
    fn p17_pending() {
        block_on(async {
            x().allowed_panics = 99;
            let w = World::new();
            let tries = Rec::new();
            let (t2, w2) = (tries.clone(), w.clone());
            let what = pick(5, "op");
            let strategy = [SupervisionStrategy::OneForOne, SupervisionStrategy::OneForAll, SupervisionStrategy::RestForOne][pick(3, "strategy")];
            let got: Rec<Res> = Rec::new();
            let g2 = got.clone();
            let pending: Rec<Pid> = Rec::new();
            // its first restart fails, after another process has made its request: that comes before the retry
            let spec = ChildSpec::new("a").start(move || {
                let (t, w, g, pending) = (t2.clone(), w2.clone(), g2.clone(), pending.clone());
                async move {
                    t.push(1);
                    if t.len() == 2 {
                        let p = Process::spawn(async move {
                            let r = match what {
                                0 => match Supervisor::terminate_child("sup", "a").await { Ok(()) => Res::Ok, Err(e) => err(e) },
                                1 => match Supervisor::restart_child("sup", "a").await { Ok(p) => Res::Pid(p), Err(e) => err(e) },
                                2 => match Supervisor::delete_child("sup", "a").await { Ok(()) => Res::Ok, Err(e) => err(e) },
                                3 => match Supervisor::start_child("sup", World::new().child(0, Restart::Permanent, PLAIN)).await { Ok(p) => Res::Pid(p), Err(e) => err(e) },
                                _ => {
                                    let i = which("sup").await;
                                    let c = match Supervisor::count_children("sup").await { Ok(c) => c, Err(_) => fail("told") };
                                    // the second question may come after the retry
                                    check(i.len() == 2 && i[0].id == "a" && i[0].child.is_none() && i[0].restarting, "shown as being restarted, and not as running");
                                    check(c.specs == 2 && c.active <= 2 && c.workers == 2, "the counts");
                                    Res::Ok
                                }
                            };
                            g.push(r);
                        });
                        pending.push(p);
                        quiesce().await;
                        return Err(ExitReason::from("bad"));
                    }
                    let p = Process::spawn_link(async move { let _ = Process::receive::<End>().await; });
                    w.pids.push((0, p));
                    Ok(p)
                }
            });
            let s = Supervisor::new().max_restarts(100).strategy(strategy).add_child(spec).add_child(w.child(1, Restart::Permanent, PLAIN));
            let p = start(s).await;
            quiesce().await;
            let old = w.pid(0);
            Process::spawn(async move { Process::exit(old, ExitReason::Kill) });
            Process::sleep(Duration::from_secs(1)).await;
            quiesce().await;
            check(got.len() == 1, "the request is answered");
            check(Process::alive(p), "the supervisor goes on");
            let want = match what {
                0 | 4 => Res::Ok,
                1 | 2 => Res::Restarting,
                _ => Res::Present,
            };
            check(got.get()[0] == want, "the situation");
            if what == 0 {
                check(tries.len() == 2, "a terminated child is not tried again");
                let st = if strategy as u32 == 0 { St::Runs(w.pid(1)) } else { match w.pids.get().iter().rev().find(|(k, p)| *k == 1 && Process::alive(*p)) { Some((_, p)) => St::Runs(*p), None => St::Idle } };
                books(&[Kid { id: 0, restart: Restart::Permanent, kind: ChildType::Worker, st: St::Idle }, Kid { id: 1, restart: Restart::Permanent, kind: ChildType::Worker, st }], true).await;
            } else {
                check(tries.len() == 3 && w.pid(0) != old && Process::alive(w.pid(0)), "tried again");
                check(Process::alive(w.pid(1)), "the other one runs");
                books(&[Kid { id: 0, restart: Restart::Permanent, kind: ChildType::Worker, st: St::Runs(w.pid(0)) }, Kid { id: 1, restart: Restart::Permanent, kind: ChildType::Worker, st: St::Runs(w.pid(1)) }], true).await;
            }
            cover(what as u32);
        });
    }
    // A request while the child ends by itself.
    fn p17_race() {
        block_on(async {
            x().allowed_panics = 99;
            let w = World::new();
            let r = restart("restart");
            let p = start(Supervisor::new().max_restarts(100).add_child(w.child(0, r, PLAIN)).add_child(w.child(1, Restart::Permanent, PLAIN))).await;
            quiesce().await;
            let (c, d) = (w.pid(0), w.pid(1));
            let got: Rec<Res> = Rec::new();
            let g = got.clone();
            let what = pick(3, "op");
            w.events();
            budget(param(0) as u32, param(1) as u32);
            Process::send(c, End::Panic);
            Process::spawn(async move {
                let r = match what {
                    0 => match Supervisor::terminate_child("sup", "a").await { Ok(()) => Res::Ok, Err(e) => err(e) },
                    1 => match Supervisor::restart_child("sup", "a").await { Ok(p) => Res::Pid(p), Err(e) => err(e) },
                    _ => match Supervisor::delete_child("sup", "a").await { Ok(()) => Res::Ok, Err(e) => err(e) },
                };
                g.push(r);
            });
            quiesce().await;
            budget(0, 0);
            check(Process::alive(p) && Process::alive(d) && w.pid(1) == d, "everything else goes on");
            check(got.len() == 1 && !Process::alive(c), "both happened");
            let g = got.get()[0].clone();
            let gone = r == Restart::Temporary;
            let other = Kid { id: 1, restart: Restart::Permanent, kind: ChildType::Worker, st: St::Runs(d) };
            match what {
                0 => {
                    check(g == Res::Ok || gone && g == Res::NotFound, "terminated");
                    let me = Kid { id: 0, restart: r, kind: ChildType::Worker, st: St::Idle };
                    check(w.pids.get().iter().all(|(k, p)| *k == 1 || !Process::alive(*p)), "it does not run");
                    books(&if gone { vec![other] } else { vec![me, other] }, true).await;
                    cover(1);
                }
                _ => {
                    check(g == Res::Running || gone && g == Res::NotFound, "running");
                    if gone { books(&[other], true).await; cover(2); }
                    else {
                        check(w.pid(0) != c && Process::alive(w.pid(0)), "restarted");
                        books(&[Kid { id: 0, restart: r, kind: ChildType::Worker, st: St::Runs(w.pid(0)) }, other], true).await;
                        cover(3);
                    }
                }
            }
        });
    }
    // Many children started at run time.
    fn p17_many() {
        block_on(async {
            let n = param(0) as u32;
            let w = World::new();
            let s = Supervisor::new();
            start(s).await;
            quiesce().await;
            let mut kids: Vec<Kid> = vec![];
            for i in 0..n {
                let kind = if i % 3 == 1 { ChildType::Supervisor } else { ChildType::Worker };
                let c = w.child(i, Restart::Permanent, PLAIN).child_type(kind);
                let got = op(async move { match Supervisor::start_child("sup", c).await { Ok(p) => Res::Pid(p), Err(e) => err(e) } }).await;
                check(got == Res::Pid(Some(w.pid(i))), "started");
                kids.push(Kid { id: i, restart: Restart::Permanent, kind, st: St::Runs(w.pid(i)) });
            }
            books(&kids, true).await;
            w.events();
            let i = pick(n as usize, "child") as u32;
            let k = i as usize;
            let got = op(async move { match Supervisor::terminate_child("sup", name(i)).await { Ok(()) => Res::Ok, Err(e) => err(e) } }).await;
            check(got == Res::Ok && w.events() == vec![Ev::End(i)], "only that one is terminated");
            kids[k].st = St::Idle;
            books(&kids, true).await;
            if flip("restart") {
                let got = op(async move { match Supervisor::restart_child("sup", name(i)).await { Ok(p) => Res::Pid(p), Err(e) => err(e) } }).await;
                check(got == Res::Pid(Some(w.pid(i))) && w.events() == vec![Ev::Start(i)], "only that one is started again");
                kids[k].st = St::Runs(w.pid(i));
                cover(0);
            } else {
                let got = op(async move { match Supervisor::delete_child("sup", name(i)).await { Ok(()) => Res::Ok, Err(e) => err(e) } }).await;
                check(got == Res::Ok && w.events() == vec![], "it is deleted");
                kids.remove(k);
                cover(1);
            }
            books(&kids, true).await;
        });
    }
}
