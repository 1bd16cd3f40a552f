//! Supervised children that record when they start and end.
use crate::util::*;
use serde::{Deserialize, Serialize};
pub use std::sync::Arc;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Ev {
    Start(u32),
    End(u32),
    /// A start that failed.
    Failed(u32),
    /// A start that was ignored.
    Ignored(u32),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Out {
    Good,
    Bad,
    Ignore,
}
pub struct Mark(u32, Rec<(Ev, u64)>);
impl Drop for Mark {
    fn drop(&mut self) {
        self.1.push((Ev::End(self.0), now()))
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum End {
    Return,
    Exit(ExitReason),
    Panic,
}
/// How a child takes being told to shut down.
#[derive(Clone, Copy)]
pub struct Nature {
    pub trap: bool,
    pub linger: Duration,
}
pub const PLAIN: Nature = Nature { trap: false, linger: Duration::ZERO };
#[derive(Clone)]
pub struct World {
    /// Starts and ends, with times.
    pub log: Rec<(Ev, u64)>,
    /// The pids each child had.
    pub pids: Rec<(u32, Pid)>,
    /// What a start of a child gives next; good if there is none.
    pub plan: Rec<(u32, Out)>,
}
impl World {
    pub fn new() -> World {
        World { log: Rec::new(), pids: Rec::new(), plan: Rec::new() }
    }
    pub fn child(&self, i: u32, restart: Restart, n: Nature) -> ChildSpec {
        let w = self.clone();
        ChildSpec::new(name(i)).restart(restart).start(move || {
            let w = w.clone();
            async move {
                let next = w.plan.get().iter().position(|(k, _)| *k == i);
                let out = match next {
                    Some(k) => w.plan.get().remove(k).1,
                    None => Out::Good,
                };
                match out {
                    Out::Bad => {
                        w.log.push((Ev::Failed(i), now()));
                        return Err(ExitReason::from("bad"));
                    }
                    Out::Ignore => {
                        w.log.push((Ev::Ignored(i), now()));
                        return Err(ExitReason::Ignore);
                    }
                    Out::Good => {}
                }
                w.log.push((Ev::Start(i), now()));
                let m = Mark(i, w.log.clone());
                let (tx, rx) = tokio::sync::oneshot::channel();
                let p = Process::spawn_link(async move {
                    let _m = m;
                    if n.trap {
                        Process::set_flags(ProcessFlags::TRAP_EXIT);
                    }
                    let _ = tx.send(());
                    body(n).await
                });
                w.pids.push((i, p));
                if n.trap {
                    let _ = rx.await;
                }
                Ok(p)
            }
        })
    }
    pub fn pid(&self, i: u32) -> Pid {
        self.pids.get().iter().rev().find(|(k, _)| *k == i).unwrap().1
    }
    /// The events since the last look.
    pub fn events(&self) -> Vec<Ev> {
        std::mem::take(self.log.get()).into_iter().map(|e| e.0).collect()
    }
    pub fn timed(&self) -> Vec<(Ev, u64)> {
        std::mem::take(self.log.get())
    }
}
async fn body(n: Nature) {
    loop {
        match Process::receive::<End>().await {
            Message::User(End::Return) => return,
            Message::User(End::Panic) => panic!("boom"),
            Message::User(End::Exit(r)) => {
                Process::exit(Process::current(), r);
                std::future::pending::<()>().await
            }
            Message::System(SystemMessage::Exit(_, r)) => {
                if n.linger > Duration::ZERO {
                    Process::sleep(n.linger).await;
                }
                Process::exit(Process::current(), r);
                std::future::pending::<()>().await
            }
            _ => {}
        }
    }
}
pub fn name(i: u32) -> &'static str {
    match i {
        0..5 => ["a", "b", "c", "d", "e"][i as usize],
        _ => Box::leak(format!("child {i}").into_boxed_str()),
    }
}
#[derive(Debug, Clone, PartialEq, Deserialize)]
pub struct Info {
    pub id: String,
    pub child: Option<Pid>,
    pub restarting: bool,
}
pub async fn which<T: Into<Dest>>(s: T) -> Vec<Info> {
    match Supervisor::which_children(s).await {
        Ok(v) => v.iter().map(|i| rmp_serde::from_slice(&rmp_serde::to_vec_named(i).unwrap()).unwrap()).collect(),
        Err(_) => fail("the children are told"),
    }
}
pub async fn start(s: Supervisor) -> Pid {
    match s.start(SupervisorOptions::new().name("sup")).await {
        Ok(p) => p,
        Err(_) => fail("the supervisor starts"),
    }
}
pub fn restart(name: &str) -> Restart {
    [Restart::Permanent, Restart::Transient, Restart::Temporary][pick(3, name)]
}
/// Runs `f` in a process until it is done.
pub async fn within(f: impl std::future::Future<Output = ()> + std::marker::Send + 'static) {
    let d = Rec::new();
    let d2 = d.clone();
    Process::spawn(async move {
        f.await;
        d2.push(1);
    });
    for _ in 0..64 {
        quiesce().await;
        if d.len() == 1 {
            return;
        }
        Process::sleep(Duration::from_secs(1)).await;
    }
    fail("the operation returns")
}
