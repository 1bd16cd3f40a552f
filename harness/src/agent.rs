//! Processes that execute what a harness tells them and record the system messages they get.
use crate::util::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;

pub struct Cmd(Option<Pin<Box<dyn Future<Output = ()> + std::marker::Send>>>);
impl Serialize for Cmd {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        unreachable!()
    }
}
impl<'de> Deserialize<'de> for Cmd {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
        Err(serde::de::Error::custom("no"))
    }
}

pub struct Agent {
    pub pid: Pid,
    pub log: Rec<SystemMessage>,
}
pub async fn body(trap: bool, log: Rec<SystemMessage>) {
    if trap {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
    }
    loop {
        match Process::receiver().for_message::<Cmd>().receive().await {
            Message::User(Cmd(Some(f))) => f.await,
            Message::User(Cmd(None)) => return,
            Message::System(s) => log.push(s),
        }
    }
}
impl Cmd {
    pub fn of(f: impl Future<Output = ()> + std::marker::Send + 'static) -> Cmd {
        Cmd(Some(Box::pin(f)))
    }
}
impl Agent {
    /// Spawns an agent and waits until it is idle.
    pub async fn new(trap: bool) -> Agent {
        let log = Rec::new();
        let pid = Process::spawn(body(trap, log.clone()));
        quiesce().await;
        Agent { pid, log }
    }
    pub fn start(&self, f: impl Future<Output = ()> + std::marker::Send + 'static) {
        Process::send(self.pid, Cmd(Some(Box::pin(f))));
    }
    pub fn tell(&self, f: impl FnOnce() + std::marker::Send + 'static) {
        self.start(async move { f() });
    }
    /// The agent executes `f`; everything comes to rest.
    pub async fn run(&self, f: impl FnOnce() + std::marker::Send + 'static) {
        self.tell(f);
        quiesce().await;
    }
    pub async fn eval<T: std::marker::Send + 'static>(&self, f: impl FnOnce() -> T + std::marker::Send + 'static) -> T {
        let r = Rec::new();
        let q = r.clone();
        self.run(move || q.push(f())).await;
        check(r.len() == 1, "the agent executed the command");
        r.get().pop().unwrap()
    }
    pub fn stop(&self) {
        Process::send(self.pid, Cmd(None));
    }
    /// The exit messages recorded.
    pub fn exits(&self) -> Vec<(Pid, ExitReason)> {
        self.log.get().iter().filter_map(|m| if let SystemMessage::Exit(p, r) = m { Some((*p, r.clone())) } else { None }).collect()
    }
    pub fn downs(&self) -> Vec<(Dest, Reference, ExitReason)> {
        self.log.get().iter().filter_map(|m| if let SystemMessage::ProcessDown(d, r, e) = m { Some((d.clone(), *r, e.clone())) } else { None }).collect()
    }
}
pub const ENDS: usize = 7;
/// Makes `a` end in one of several ways (s signals it when that takes another process); returns the true reason.
pub fn finish_off(kind: usize, a: &Agent, s: &Agent) -> ExitReason {
    let p = a.pid;
    match kind {
        0 => {
            a.stop();
            ExitReason::Normal
        }
        1 => {
            s.tell(move || Process::exit(p, ExitReason::Kill));
            ExitReason::Kill
        }
        2 => {
            a.tell(|| panic!("boom"));
            ExitReason::from("boom")
        }
        3 => {
            a.tell(move || Process::exit(p, ExitReason::Ignore));
            ExitReason::Ignore
        }
        4 => {
            a.tell(move || Process::exit(p, ExitReason::from("self")));
            ExitReason::from("self")
        }
        5 => {
            a.tell(|| panic!("boom {}", 1));
            ExitReason::from("boom 1")
        }
        _ => {
            a.tell(|| std::panic::panic_any(7u32));
            ExitReason::from("Unknown error!")
        }
    }
}
pub fn any_reason(n: usize) -> ExitReason {
    match pick(4, "reason") {
        0 => ExitReason::Normal,
        1 => ExitReason::Kill,
        2 => ExitReason::Ignore,
        _ => ExitReason::Custom(sym_str(n, "text")),
    }
}
