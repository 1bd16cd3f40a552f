//! Start and end of servers.
use crate::p12::empty_mailbox;
use crate::util::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Init {
    Good,
    Slow(Duration),
    Bad,
    SlowBad(Duration),
    Panic,
    Never,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Msg {
    Work(u32),
    Fail(ExitReason),
}
#[derive(Clone)]
pub struct Srv {
    init: Init,
    begun: Rec<Pid>,
    ended: Rec<ExitReason>,
    infos: Rec<Message<Msg>>,
    work: Rec<u32>,
    end_takes: Duration,
    trap: bool,
}
impl Srv {
    fn new(init: Init) -> Srv {
        Srv { init, begun: Rec::new(), ended: Rec::new(), infos: Rec::new(), work: Rec::new(), end_takes: Duration::ZERO, trap: false }
    }
}
impl GenServer for Srv {
    type Message = Msg;
    async fn init(&mut self) -> Result<(), ExitReason> {
        self.begun.push(Process::current());
        if self.trap {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
        }
        match self.init {
            Init::Good => Ok(()),
            Init::Slow(d) => {
                Process::sleep(d).await;
                Ok(())
            }
            Init::Bad => Err(ExitReason::from("bad")),
            Init::SlowBad(d) => {
                Process::sleep(d).await;
                Err(ExitReason::from("bad"))
            }
            Init::Panic => panic!("boom"),
            Init::Never => std::future::pending().await,
        }
    }
    async fn terminate(&mut self, reason: ExitReason) {
        self.ended.push(reason);
        if self.end_takes > Duration::ZERO {
            Process::sleep(self.end_takes).await;
        }
    }
    async fn handle_cast(&mut self, m: Msg) -> Result<(), ExitReason> {
        match m {
            Msg::Work(n) => {
                self.work.push(n);
                Ok(())
            }
            Msg::Fail(r) => Err(r),
        }
    }
    async fn handle_call(&mut self, m: Msg, _: From) -> Result<Option<Msg>, ExitReason> {
        match m {
            Msg::Work(n) => {
                self.work.push(n);
                Ok(Some(Msg::Work(n)))
            }
            Msg::Fail(r) => Err(r),
        }
    }
    async fn handle_info(&mut self, m: Message<Msg>) -> Result<(), ExitReason> {
        if let Message::System(SystemMessage::Exit(_, ExitReason::Custom(s))) = &m {
            if s == "info" {
                return Err(ExitReason::from("told"));
            }
        }
        self.infos.push(m);
        Ok(())
    }
}
#[derive(Serialize, Deserialize)]
struct Hold(u32);
fn holder() -> Pid {
    Process::spawn(async move {
        loop {
            let _ = Process::receive::<Hold>().await;
        }
    })
}
/// The processes and names there are.
fn census() -> (usize, usize) {
    (Process::list().len(), Process::registered().len())
}
fn reason(name: &str) -> ExitReason {
    match pick(4, name) {
        0 => ExitReason::Normal,
        1 => ExitReason::Kill,
        2 => ExitReason::Ignore,
        _ => ExitReason::Custom(sym_word(1, "r")),
    }
}
/// All system messages the current process has.
async fn drain() -> Vec<SystemMessage> {
    Process::send(Process::current(), Hold(1));
    let mut v = vec![];
    loop {
        match Process::receive::<Hold>().await {
            Message::User(_) => return v,
            Message::System(s) => v.push(s),
        }
    }
}

harness! {
    // Any initialisation, name, timeout and link.
    fn p13_start() {
        block_on(async {
            let d = sym_secs("takes");
            let t = sym_secs("timeout");
            assume(d.as_secs() < 1 << 30 && t.as_secs() < 1 << 30);
            let init = [Init::Good, Init::Slow(d), Init::Bad, Init::SlowBad(d), Init::Panic, Init::Never][pick(6, "init")];
            let name = pick(3, "name");
            let timed = if matches!(init, Init::Never) { true } else { flip("timed") };
            let link = flip("link");
            let h = holder();
            if Process::register(h, "taken").is_err() { fail("free") }
            let s = Srv::new(init);
            let (s2, s3) = (s.clone(), s.clone());
            let done = Rec::new();
            let d2 = done.clone();
            quiesce().await;
            let before = census();
            let starter = Process::spawn(async move {
                Process::set_flags(ProcessFlags::TRAP_EXIT);
                let mut o = GenServerOptions::new();
                if timed { o = o.timeout(t); }
                if name == 1 { o = o.name("srv"); }
                if name == 2 { o = o.name("taken"); }
                let r = if link { s2.start_link(o).await } else { s2.start(o).await };
                let left = s3.begun.get().iter().any(|p| Process::alive(*p) || Process::list().contains(p)) || Process::whereis("srv").is_some();
                d2.push((r, now(), left));
                let v = drain().await;
                Process::sleep(Duration::from_secs(1 << 30)).await;
                let w = drain().await;
                check(w.len() == 0, "nothing comes later");
                d2.push((Ok(Process::current()), v.len() as u64, false));
                let _ = Process::receive::<Hold>().await;
            });
            let begin = now();
            let (over, end) = (at(d), at(t));
            Process::sleep(Duration::from_secs(1 << 31)).await;
            quiesce().await;
            check(done.len() == 2, "start returns");
            let exits = done.get()[1].1;
            let (r, when, seen) = &done.get()[0];
            let slow = matches!(init, Init::Slow(_) | Init::SlowBad(_));
            let bad = ExitReason::from("bad");
            if name == 2 {
                check(*r == Err(ExitReason::from("already_started")), "the name is taken");
                check(*when == begin && s.begun.len() == 0, "at once");
                check(Process::whereis("taken") == Some(h), "and stays");
                cover(1);
            } else {
                // with no time at all anything may expire
                let none = timed && t.is_zero() && *r == Err(ExitReason::from("timeout"));
                check(s.begun.len() == 1 || none && s.begun.len() == 0, "initialised once");
                let expired = none || timed && (matches!(init, Init::Never) || slow && *when == end && d >= t);
                if expired {
                    check(*r == Err(ExitReason::from("timeout")) || d == t && !matches!(init, Init::Never), "timeout");
                    check(*when == end, "when the time has passed");
                    cover(2);
                } else {
                    check(*when == if slow { over } else { begin }, "when the initialisation is over");
                    check(!(slow && timed) || d <= t, "in time");
                }
                if !(expired && d == t) {
                    match init {
                        Init::Good | Init::Slow(_) if !expired => { check(r.is_ok(), "started"); cover(3); }
                        Init::Bad | Init::SlowBad(_) if !expired => { check(*r == Err(bad.clone()), "the error"); cover(4); }
                        Init::Panic => { check(r.is_err(), "an error"); cover(5); }
                        _ => {}
                    }
                }
            }
            check(s.ended.len() == 0, "not terminated");
            match r {
                Ok(p) => {
                    check(Process::alive(*p), "it lives");
                    check(Process::whereis("srv") == if name == 1 { Some(*p) } else { None }, "under its name");
                    check(exits == 0, "no signal");
                    check(Process::info(starter).unwrap().links.contains(p) == link, "linked as asked");
                    check(census() == (before.0 + 2, before.1 + (name == 1) as usize), "one process more");
                    cover(6);
                }
                Err(e) => {
                    check(!*seen, "no process and no name is left when start returns");
                    check(census() == (before.0 + 1, before.1), "nor later");
                    check(exits == link as u64, "a linked starter gets a signal");
                    if *e == bad { cover(7); }
                }
            }
        });
    }
    // Two starts under one name, together with the end of one.
    fn p13_name() {
        block_on(async {
            let done = Rec::new();
            let kinds = [pick(3, "init"), pick(3, "init")];
            quiesce().await;
            let before = census();
            budget(param(0) as u32, param(1) as u32);
            for i in 0..2usize {
                let d2 = done.clone();
                let init = [Init::Good, Init::Bad, Init::Slow(Duration::from_secs(1))][kinds[i]];
                Process::spawn(async move {
                    let r = Srv::new(init).start(GenServerOptions::new().name("srv")).await;
                    if let Ok(p) = &r { check(Process::alive(*p) && Process::whereis("srv") == Some(*p), "it has the name"); }
                    // whoever failed may start again at once
                    let again = if r == Err(ExitReason::from("bad")) {
                        Some(Srv::new(Init::Good).start(GenServerOptions::new().name(if i == 0 { "one" } else { "two" })).await)
                    } else { None };
                    if let Some(a) = again { check(a.is_ok(), "started"); }
                    d2.push(r);
                });
            }
            Process::sleep(Duration::from_secs(3)).await;
            quiesce().await;
            budget(0, 0);
            check(done.len() == 2, "both return");
            let d = done.get();
            let ok = d.iter().filter(|r| r.is_ok()).count();
            let already = d.iter().filter(|r| **r == Err(ExitReason::from("already_started"))).count();
            let bad = d.iter().filter(|r| **r == Err(ExitReason::from("bad"))).count();
            let bads = (kinds[0] == 1) as usize + (kinds[1] == 1) as usize;
            check(ok <= 1 && ok + already + bad == 2, "one holds the name, the other is told");
            check(bad <= bads && (bads == 2 || ok + bad > 0), "errors are true");
            check(bads > 0 || ok == 1, "one starts");
            check(Process::whereis("srv").is_some() == (ok == 1), "the name is in use");
            check(census() == (before.0 + ok + bad, before.1 + ok + bad), "nothing else is left");
            if ok == 1 { cover(1) }
            if already == 1 { cover(2) }
            if bad == 2 { cover(3) }
        });
    }
    // A failed start can be repeated at once under the same name.
    fn p13_again() {
        block_on(async {
            let done = Rec::new();
            let d2 = done.clone();
            let kind = pick(3, "init");
            let link = flip("link");
            budget(param(0) as u32, param(1) as u32);
            Process::spawn(async move {
                Process::set_flags(ProcessFlags::TRAP_EXIT);
                let init = [Init::Bad, Init::Never, Init::Panic][kind];
                let o = || GenServerOptions::new().name("srv").timeout(Duration::from_secs(1));
                let s = Srv::new(init);
                let r = if link { s.start_link(o()).await } else { s.start(o()).await };
                check(r.is_err(), "an error");
                let free = Process::whereis("srv").is_none();
                let r = Srv::new(Init::Good).start(o()).await;
                d2.push((r.is_ok(), free));
            });
            Process::sleep(Duration::from_secs(9)).await;
            quiesce().await;
            check(done.get()[..] == [(true, true)], "the name is free again when start returns");
            cover(kind as u32);
        });
    }
    // Stop, with any reason, time taken and timeout.
    fn p13_stop() {
        block_on(async {
            let d = sym_secs("takes");
            let t = sym_secs("timeout");
            assume(d.as_secs() < 1 << 30 && t.as_secs() < 1 << 30);
            let timed = flip("timed");
            let r = reason("reason");
            let how = pick(4, "how");
            let trap = flip("trap");
            let mut s = Srv::new(Init::Good);
            s.end_takes = d;
            s.trap = trap;
            let done = Rec::new();
            let (s2, d2, r2) = (s.clone(), done.clone(), r.clone());
            let killed = how == 1;
            Process::spawn(async move {
                let p = match s2.clone().start(GenServerOptions::new().name("srv")).await { Ok(p) => p, Err(_) => fail("starts") };
                let begin = now();
                let (over, end) = (at(d), at(t));
                if how == 2 {
                    let o = Srv::stop("nobody", r2.clone(), None).await;
                    check(o == Err(ExitReason::from("noproc")) || r2 == ExitReason::from("noproc"), "nobody there");
                    check(now() == begin && Process::alive(p), "at once, and disturbs nothing");
                }
                if killed {
                    Process::exit(p, ExitReason::Kill);
                }
                let o = if how == 3 { Srv::stop("srv", r2.clone(), if timed { Some(t) } else { None }).await } else { Srv::stop(p, r2.clone(), if timed { Some(t) } else { None }).await };
                let when = now();
                empty_mailbox().await;
                if killed {
                    // it ended before it could be stopped
                    match &o {
                        Ok(()) => check(r2 == ExitReason::Kill, "killed, as asked"),
                        Err(e) => check(*e == ExitReason::Kill && r2 != ExitReason::Kill || *e == ExitReason::from("noproc") || timed && t.is_zero() && *e == ExitReason::from("timeout"), "the outcome"),
                    }
                    cover(1);
                } else if timed && d >= t && when == end && o == Err(ExitReason::from("timeout")) {
                    check(d >= t, "timeout");
                    cover(2);
                } else {
                    check(o == Ok(()), "stopped with the reason asked for");
                    check(when == over && (!timed || d <= t), "when it has terminated, and in time");
                    check(!Process::alive(p) && Process::whereis("srv").is_none() && !Process::list().contains(&p), "it is gone");
                    cover(3);
                }
                Process::sleep(Duration::from_secs(1 << 30)).await;
                Process::sleep(Duration::from_secs(1)).await;
                empty_mailbox().await;
                check(!Process::alive(p), "it ends in any case");
                d2.push(1);
            });
            Process::sleep(Duration::from_secs(1 << 32)).await;
            quiesce().await;
            check(done.len() == 1, "stop returns");
            if killed { check(s.ended.len() == 0, "no termination when killed") }
            else { check(s.ended.get()[..] == [r], "terminated once, with the reason"); }
        });
    }
    // Every way to end a server from within and from outside.
    fn p13_ends() {
        block_on(async {
            let how = [0, 1, 2, 3, 4, 5, 7][pick(7, "how")];
            let trap = flip("trap");
            let link = flip("link");
            let r = reason("reason");
            let mut s = Srv::new(Init::Good);
            s.trap = trap;
            let (s2, r2) = (s.clone(), r.clone());
            let done = Rec::new();
            let d2 = done.clone();
            let watcher: Rec<SystemMessage> = Rec::new();
            let w2 = watcher.clone();
            let got: Rec<Pid> = Rec::new();
            let g2 = got.clone();
            let parent = Process::spawn(async move {
                let o = GenServerOptions::new();
                Process::set_flags(ProcessFlags::TRAP_EXIT);
                let p = match if link { s2.start_link(o).await } else { s2.start(o).await } { Ok(p) => p, Err(_) => fail("starts") };
                g2.push(p);
                match how {
                    0 => { Srv::cast(p, Msg::Work(1)); Srv::cast(p, Msg::Fail(r2)); Srv::cast(p, Msg::Work(2)); }
                    1 => {
                        let c = Srv::call(p, Msg::Fail(r2.clone()), None).await;
                        check(matches!(c, Err(CallError::ServerDown(x)) if x == r2), "the caller is told");
                    }
                    2 => Process::exit(p, r2),
                    3 => { Process::set_flags(ProcessFlags::empty()); Process::exit(Process::current(), r2) }
                    _ => {}
                }
                if how != 3 { for m in drain().await { w2.push(m) } }
                d2.push(1);
                loop { match Process::receive::<Hold>().await { Message::System(m) => w2.push(m), _ => {} } }
            });
            quiesce().await;
            let p = got.get()[0];
            let others: Rec<SystemMessage> = Rec::new();
            let (o2, r2) = (others.clone(), r.clone());
            Process::spawn(async move {
                Process::monitor(p);
                match how {
                    4 => Process::exit(p, r2),
                    5 => Process::exit(p, "info"),
                    7 => { Process::link(p); Process::exit(Process::current(), r2) }
                    _ => {}
                }
                loop { match Process::receive::<Hold>().await { Message::System(m) => o2.push(m), _ => {} } }
            });
            quiesce().await;
            let custom = matches!(r, ExitReason::Custom(_));
            let kill = r == ExitReason::Kill;
            // (the reason it ends with, whether it runs its termination)
            let told = ExitReason::from("told");
            let want: Option<(ExitReason, bool)> = match how {
                0 | 1 => Some((r.clone(), true)),
                // signals of the parent
                2 if kill => Some((ExitReason::Kill, false)),
                2 if trap && link => Some((r.clone(), true)),
                2 if trap => None,
                2 if custom => Some((r.clone(), false)),
                2 => None,
                3 if !link => None,
                3 if trap => Some((r.clone(), true)),
                3 if r != ExitReason::Normal => Some((r.clone(), false)),
                3 => None,
                // signals of others
                4 if kill => Some((ExitReason::Kill, false)),
                4 | 7 if trap => None,
                4 if custom => Some((r.clone(), false)),
                7 if r != ExitReason::Normal => Some((r.clone(), false)),
                5 if trap => Some((told, true)),
                5 => Some((ExitReason::from("info"), false)),
                _ => None,
            };
            match &want {
                None => {
                    check(Process::alive(p), "it goes on");
                    check(s.ended.len() == 0, "not terminated");
                    let mut infos = 0;
                    if trap && (how == 2 || how == 4 || how == 7) { infos = 1 }
                    check(s.infos.len() == infos, "it is told of signals of others");
                    if how != 3 { check(watcher.len() == 0, "no signal"); }
                    cover(1);
                }
                Some((r, t)) => {
                    check(!Process::alive(p), "it ends");
                    check(if *t { s.ended.get()[..] == [r.clone()] } else { s.ended.len() == 0 }, "the termination callback runs at most once, with the true reason");
                    if how != 3 { check(watcher.len() == link as usize && watcher.get().iter().all(|m| matches!(m, SystemMessage::Exit(f, x) if *f == p && x == r)), "its link gets the reason"); }
                    if how >= 4 && how != 7 { check(others.len() == 1 && matches!(&others.get()[0], SystemMessage::ProcessDown(_, _, x) if x == r), "monitors get the reason"); }
                    cover(if *t { 2 } else { 3 });
                }
            }
            check(s.work.get()[..] == if how == 0 { vec![1] } else { vec![] }[..], "no callback afterwards");
            let _ = parent;
        });
    }
    // Two stops, or a stop and a failing callback, at the same time.
    fn p13_race() {
        block_on(async {
            let kind = pick(4, "kind");
            let s = Srv::new(Init::Good);
            let p = match s.clone().start(GenServerOptions::new()).await { Ok(p) => p, Err(_) => fail("starts") };
            let done = Rec::new();
            let (a, b) = (ExitReason::from("a"), if flip("normal") { ExitReason::Normal } else { ExitReason::from("b") });
            let (d1, d2, a2, b2) = (done.clone(), done.clone(), a.clone(), b.clone());
            quiesce().await;
            budget(param(0) as u32, param(1) as u32);
            Process::spawn(async move {
                let r = Srv::stop(p, a2, None).await;
                empty_mailbox().await;
                d1.push((0, r));
            });
            Process::spawn(async move {
                match kind {
                    0 => { let r = Srv::stop(p, b2, None).await; empty_mailbox().await; d2.push((1, r)) }
                    1 => { Srv::cast(p, Msg::Fail(b2)); d2.push((2, Ok(()))) }
                    2 => { Process::exit(p, ExitReason::Kill); d2.push((2, Ok(()))) }
                    _ => { let r = Srv::stop(p, b2, Some(Duration::from_secs(1))).await; empty_mailbox().await; d2.push((1, r)) }
                }
            });
            quiesce().await;
            budget(0, 0);
            Process::sleep(Duration::from_secs(9)).await;
            check(done.len() == 2, "both return");
            check(!Process::alive(p), "it ended");
            check(s.ended.len() <= 1, "terminated at most once");
            let noproc = ExitReason::from("noproc");
            let end: Option<ExitReason> = s.ended.get().first().cloned();
            if kind != 2 { check(end.is_some(), "terminated"); }
            for (w, r) in done.get().iter() {
                if *w == 2 { continue }
                let own = if *w == 0 { &a } else { &b };
                match r {
                    Ok(()) => { check(end.as_ref() == Some(own), "its own reason"); cover(1); }
                    Err(e) => {
                        check(*e != *own, "another reason");
                        check(*e == noproc || kind == 2 && *e == ExitReason::Kill || end.as_ref() == Some(e), "the true reason");
                        cover(2);
                    }
                }
            }
        });
    }
}
