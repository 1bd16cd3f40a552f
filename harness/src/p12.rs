//! Calls and casts to servers.
use crate::util::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum Msg {
    /// Answer with the number, this way.
    Ask(u32, Way),
    Answer(u32),
    Note(u32),
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Way {
    Now,
    /// The handler takes this long.
    Slow(Duration),
    /// Someone else answers, after this long.
    Other(Duration),
    Never,
    /// The handler fails after this long.
    Fail(Duration),
    /// The handler answers, and the server is then told to end.
    Last,
    /// Kept, and answered when told.
    Kept,
    /// Answered twice.
    Twice,
}
use Way::*;
#[derive(Clone)]
pub struct Srv {
    pub notes: Rec<u32>,
    pub kept: Rec<(From, u32)>,
    pub stray: Rec<u32>,
}
impl Srv {
    pub fn new() -> Srv {
        Srv { notes: Rec::new(), kept: Rec::new(), stray: Rec::new() }
    }
}
impl GenServer for Srv {
    type Message = Msg;
    async fn init(&mut self) -> Result<(), ExitReason> {
        Ok(())
    }
    async fn handle_cast(&mut self, m: Msg) -> Result<(), ExitReason> {
        match m {
            Msg::Note(n) => self.notes.push(n),
            _ => fail("a cast handled as what it is not"),
        }
        Ok(())
    }
    async fn handle_call(&mut self, m: Msg, from: From) -> Result<Option<Msg>, ExitReason> {
        let Msg::Ask(n, how) = m else { fail("a call handled as what it is not") };
        self.notes.push(n);
        match how {
            Now => Ok(Some(Msg::Answer(n))),
            Slow(d) => {
                Process::sleep(d).await;
                Ok(Some(Msg::Answer(n)))
            }
            Other(d) => {
                Process::spawn(async move {
                    Process::sleep(d).await;
                    Srv::reply(from, Msg::Answer(n));
                });
                Ok(None)
            }
            Never => Ok(None),
            Fail(d) => {
                Process::sleep(d).await;
                Err(ExitReason::from("failed"))
            }
            Last => {
                Srv::reply(from, Msg::Answer(n));
                Err(ExitReason::from("last"))
            }
            Kept => {
                self.kept.push((from, n));
                Ok(None)
            }
            Twice => {
                Srv::reply(from, Msg::Answer(n));
                Ok(Some(Msg::Answer(n + 1)))
            }
        }
    }
    async fn handle_info(&mut self, _: Message<Msg>) -> Result<(), ExitReason> {
        self.stray.push(1);
        Ok(())
    }
}
pub async fn server(s: &Srv) -> Pid {
    let p = s.clone().start(GenServerOptions::new().name("srv")).await;
    match p {
        Ok(p) => p,
        Err(_) => fail("the server starts"),
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Got {
    Reply(u32),
    Timeout,
    Down(ExitReason),
}
pub fn got(r: Result<Msg, CallError>) -> Got {
    match r {
        Ok(Msg::Answer(n)) => Got::Reply(n),
        Ok(_) => fail("a reply that was never given"),
        Err(CallError::Timeout(_)) => Got::Timeout,
        Err(CallError::ServerDown(r)) => Got::Down(r),
    }
}
#[derive(Serialize, Deserialize)]
struct Probe(u32);
/// The caller's mailbox holds nothing.
pub async fn empty_mailbox() {
    Process::send(Process::current(), Probe(7));
    // another type would panic
    match Process::receive::<Probe>().await {
        Message::User(Probe(7)) => {}
        _ => fail("a stray system message"),
    }
}
fn dest(p: Pid, how: usize) -> Dest {
    if how == 0 { p.into() } else { "srv".into() }
}
pub fn dest1(p: Pid, how: usize) -> Dest {
    if how == 0 { p.into() } else { "srv".into() }
}
async fn join(n: u32, done: &Rec<u32>) {
    Process::sleep(Duration::from_secs(1 << 32)).await;
    quiesce().await;
    check(done.len() as u32 == n, "every call returns");
}

harness! {
    // One call, any way to answer, any timing; then another one.
    fn p12_call() {
        block_on(async {
            let s = Srv::new();
            let p = server(&s).await;
            let done = Rec::new();
            let (d2, s2) = (done.clone(), s.clone());
            let kind = pick(8, "kind");
            let d = sym_secs("takes");
            assume(d.as_secs() < 1 << 30);
            let t = sym_secs("timeout");
            assume(t.as_secs() < 1 << 30);
            let v = sym_u32("v");
            assume(v < 1 << 31);
            let to = pick(2, "to");
            let default = flip("default");
            let t = if default { Duration::from_secs(5) } else { t };
            Process::spawn(async move {
                let way = match kind { 0 => Now, 1 => Slow(d), 2 => Other(d), 3 => Never, 4 => Fail(d), 5 => Last, 6 => Twice, _ => Slow(d) };
                let begun = now();
                let end = at(t);
                let over = at(d);
                let r = got(Srv::call(dest(p, to), Msg::Ask(v, way), if default { None } else { Some(t) }).await);
                let _ = begun;
                match r {
                    Got::Reply(n) => {
                        check(n == v, "its own reply");
                        check(!matches!(way, Never | Fail(_)), "there was a reply");
                        if matches!(way, Slow(_) | Other(_)) { check(d <= t && now() == over, "when it was given"); }
                        cover(1);
                    }
                    Got::Timeout => {
                        check(now() == end, "after the given time");
                        match way {
                            Slow(_) | Other(_) | Fail(_) => { check(d >= t, "no reply in time"); cover(2); }
                            Never => cover(3),
                            // with no time at all the server need not have come to it
                            _ => check(t.is_zero(), "there was a reply"),
                        }
                    }
                    Got::Down(r) => {
                        check(matches!(way, Fail(_)) && r == ExitReason::from("failed") && d <= t && now() == over, "the server ended in time");
                        cover(4);
                    }
                }
                check(s2.notes.get()[..] == [v] || (t.is_zero() && s2.notes.len() == 0), "handled once");
                // a late reply is waited for, or crosses the next call
                let wait = flip("wait");
                if wait {
                    Process::sleep(Duration::from_secs(1 << 30)).await;
                    empty_mailbox().await;
                }
                let r = got(Srv::call(dest(p, to), Msg::Ask(v + 1, Now), Some(Duration::from_secs(1 << 30))).await);
                match r {
                    Got::Reply(n) => { check(n == v + 1, "the next call gets its own reply"); cover(5); }
                    Got::Timeout => fail("the next call is answered"),
                    Got::Down(_) => { check(matches!(way, Fail(_) | Last), "the server is there"); cover(6); }
                }
                Process::sleep(Duration::from_secs(1 << 30)).await;
                empty_mailbox().await;
                d2.push(1);
            });
            join(1, &done).await;
        });
    }
    // Nobody there.
    fn p12_nobody() {
        block_on(async {
            let s = Srv::new();
            let p = server(&s).await;
            let done = Rec::new();
            let d2 = done.clone();
            let kind = pick(3, "kind");
            if kind == 1 { Process::spawn(async move { Process::exit(p, ExitReason::Kill) }); }
            quiesce().await;
            Process::spawn(async move {
                let r = got(match kind {
                    0 => Srv::call("nobody", Msg::Ask(1, Now), None).await,
                    1 => Srv::call(p, Msg::Ask(1, Now), None).await,
                    _ => Srv::call(remote_pid(7), Msg::Ask(1, Now), None).await,
                });
                if kind == 2 {
                    check(r == Got::Down(ExitReason::from("noconnection")), "no connection");
                } else {
                    check(r == Got::Down(ExitReason::from("noproc")), "no process");
                }
                empty_mailbox().await;
                Srv::cast("nobody", Msg::Note(1));
                d2.push(1);
            });
            join(1, &done).await;
            cover(kind as u32);
        });
    }
    // Several callers, answered in any order, with a death in between.
    fn p12_many() {
        block_on(async {
            let s = Srv::new();
            let p = server(&s).await;
            let done = Rec::new();
            let n = param(2) as u32;
            let v = sym_u32("v");
            assume(v < 1 << 30);
            budget(param(0) as u32, param(1) as u32);
            for i in 0..n {
                let done = done.clone();
                Process::spawn(async move {
                    let r = got(Srv::call(p, Msg::Ask(v + i, Kept), None).await);
                    empty_mailbox().await;
                    done.push((i, r));
                });
            }
            Process::sleep(Duration::from_secs(1)).await;
            quiesce().await;
            budget(0, 0);
            check(s.kept.len() as u32 == n && done.len() == 0, "everyone waits");
            let mut seen = vec![false; n as usize];
            for _ in 0..n {
                let mut i = pick(s.kept.len(), "next");
                while seen[i] { i = (i + 1) % n as usize; }
                seen[i] = true;
                let (from, x) = s.kept.get()[i];
                Srv::reply(from, Msg::Answer(x));
                if flip("rest") { quiesce().await; }
            }
            quiesce().await;
            check(done.len() as u32 == n, "everyone is answered");
            for (i, r) in done.get().iter() { check(*r == Got::Reply(v + *i), "each caller gets its own reply"); }
            cover(1);
        });
    }
    // A reply, the end of the server and the timeout at the same time.
    fn p12_race() {
        block_on(async {
            let s = Srv::new();
            let p = server(&s).await;
            let done = Rec::new();
            let d2 = done.clone();
            let kind = pick(3, "kind");
            let t = Duration::from_secs(5);
            let client = Process::spawn(async move {
                let r = got(Srv::call(p, Msg::Ask(1, Kept), Some(t)).await);
                d2.push((r, now()));
                quiesce().await;
                Process::sleep(Duration::from_secs(10)).await;
                empty_mailbox().await;
                let r = got(Srv::call("srv", Msg::Ask(2, Kept), Some(t)).await);
                empty_mailbox().await;
                d2.push((r, now()));
            });
            quiesce().await;
            let due = at(t);
            let from = s.kept.get()[0].0;
            check(from.pid() == client, "the caller");
            let late = flip("late");
            if kind == 2 { Process::sleep(Duration::from_secs(if late { 6 } else { 5 })).await; }
            budget(param(0) as u32, param(1) as u32);
            let reply = Process::spawn(async move {
                Srv::reply(from, Msg::Answer(5));
            });
            let _ = reply;
            if kind == 1 { Process::spawn(async move { Process::exit(p, ExitReason::Kill) }); }
            quiesce().await;
            check(done.len() == 1, "the call returned");
            let (r, when) = done.get()[0].clone();
            match r {
                Got::Reply(n) => { check(n == 5 && when <= due, "the reply"); cover(1); }
                Got::Down(r) => { check(kind == 1 && r == ExitReason::Kill, "the server was killed"); cover(2); }
                Got::Timeout => { check(kind == 2 && when == due, "the time had passed"); cover(3); }
            }
            budget(0, 0);
            Process::sleep(Duration::from_secs(30)).await;
            quiesce().await;
            check(done.len() == 2, "nothing in the way of the next call");
            let want = if kind == 1 { Got::Down(ExitReason::from("noproc")) } else { Got::Timeout };
            check(done.get()[1].0 == want, "the next call is not answered by an old reply");
        });
    }
    // Casts and calls of two senders to one or two servers.
    fn p12_cast() {
        block_on(async {
            let (s, s2) = (Srv::new(), Srv::new());
            let p = server(&s).await;
            let p2 = match s2.clone().start(GenServerOptions::new()).await { Ok(p) => p, Err(_) => fail("starts") };
            let done = Rec::new();
            let n = param(2) as u32;
            budget(param(0) as u32, param(1) as u32);
            for i in 0..2u32 {
                let done = done.clone();
                let hows: Vec<usize> = (0..n).map(|_| pick(5, "how")).collect();
                Process::spawn(async move {
                    let hows = hows;
                    for k in 0..n {
                        let m = Msg::Note(i * 100 + k);
                        match hows[k as usize] {
                            0 => Srv::cast(p, m),
                            1 => Srv::cast("srv", m),
                            2 => Srv::cast(vec![p, p2], m),
                            3 => { Srv::cast_after(p, m, Duration::from_secs(1)); Process::sleep(Duration::from_secs(2)).await; }
                            _ => check(got(Srv::call(p, Msg::Ask(i * 100 + k, Now), None).await) == Got::Reply(i * 100 + k), "answered"),
                        }
                    }
                    empty_mailbox().await;
                    done.push((i, hows));
                });
            }
            quiesce().await;
            Process::sleep(Duration::from_secs(20)).await;
            quiesce().await;
            budget(0, 0);
            check(done.len() == 2, "both are through");
            let mut both = 0;
            for (i, hows) in done.get().iter() {
                let mine: Vec<u32> = s.notes.get().iter().copied().filter(|x| x / 100 == *i).collect();
                check(mine.len() as u32 == n && (0..n).all(|k| mine[k as usize] == i * 100 + k), "each once, in order");
                let other: Vec<u32> = s2.notes.get().iter().copied().filter(|x| x / 100 == *i).collect();
                let want: Vec<u32> = (0..n).filter(|k| hows[*k as usize] == 2).map(|k| i * 100 + k).collect();
                check(other == want, "the other server gets what it is sent");
                both += want.len();
            }
            check(s.stray.len() == 0 && s2.stray.len() == 0, "nothing else");
            if both > 0 { cover(2) }
            cover(1);
        });
    }
    // A server that calls another one while it is being answered late: nothing surfaces in handle_info.
    fn p12_server() {
        block_on(async {
            #[derive(Clone)]
            struct Mid(Srv, Rec<Got>, Pid, Duration);
            impl GenServer for Mid {
                type Message = Msg;
                async fn init(&mut self) -> Result<(), ExitReason> { Ok(()) }
                async fn handle_cast(&mut self, m: Msg) -> Result<(), ExitReason> {
                    let Msg::Note(n) = m else { fail("what was sent") };
                    let way = if n == 0 { Other(self.3) } else { Now };
                    let r = got(Srv::call(self.2, Msg::Ask(n, way), Some(Duration::from_secs(5))).await);
                    self.1.push(r);
                    Ok(())
                }
                async fn handle_info(&mut self, _: Message<Msg>) -> Result<(), ExitReason> {
                    self.0.stray.push(1);
                    Ok(())
                }
            }
            let s = Srv::new();
            let p = server(&s).await;
            let d = sym_secs("takes");
            assume(d.as_secs() < 1 << 30);
            let m = Mid(Srv::new(), Rec::new(), p, d);
            let q = match m.clone().start(GenServerOptions::new()).await { Ok(p) => p, Err(_) => fail("starts") };
            Mid::cast(q, Msg::Note(0));
            if flip("later") { Process::sleep(Duration::from_secs(1 << 30)).await; }
            Mid::cast(q, Msg::Note(1));
            Process::sleep(Duration::from_secs(1 << 30)).await;
            quiesce().await;
            let g = m.1.get();
            check(g.len() == 2, "both calls return");
            check(if d.as_secs() < 5 { g[0] == Got::Reply(0) } else if d.as_secs() > 5 { g[0] == Got::Timeout } else { true }, "the reply or a timeout");
            check(g[1] == Got::Reply(1), "its own reply");
            check(m.0.stray.len() == 0, "a late reply is never handled as another message");
            if d.as_secs() < 5 { cover(1) } else { cover(2) }
        });
    }
    // A long queue of casts, with calls in between.
    fn p12_queue() {
        block_on(async {
            let n = param(0) as u32;
            let s = Srv::new();
            let p = server(&s).await;
            let how = pick(2, "to");
            let k = 1 + pick(4, "callers") as u32;
            let done: Rec<(u32, Got)> = Rec::new();
            for c in 0..k {
                let d = done.clone();
                Process::spawn(async move {
                    for i in 0..n { Srv::cast(dest(p, how), Msg::Note(c * 10000 + i)); }
                    let r = Srv::call(dest1(p, how), Msg::Ask(c * 10000 + n, Now), None).await;
                    d.push((c, got(r)));
                    let r = Srv::call(dest1(p, how), Msg::Ask(c * 10000 + n + 1, Other(Duration::from_secs(1))), None).await;
                    d.push((c, got(r)));
                    empty_mailbox().await;
                    d.push((c, Got::Timeout));
                });
            }
            Process::sleep(Duration::from_secs(4)).await;
            quiesce().await;
            check(done.len() == 3 * k as usize && s.notes.len() as u32 == k * (n + 2), "each is handled once");
            for c in 0..k {
                let v: Vec<u32> = s.notes.get().iter().copied().filter(|x| x / 10000 == c).collect();
                check(v.len() as u32 == n + 2 && v.iter().enumerate().all(|(i, x)| *x == c * 10000 + i as u32), "in the order they were sent");
                let a: Vec<&Got> = done.get().iter().filter(|d| d.0 == c).map(|d| &d.1).collect();
                check(*a[0] == Got::Reply(c * 10000 + n) && *a[1] == Got::Reply(c * 10000 + n + 1), "each call gets its own reply");
            }
            cover(k);
        });
    }
}
