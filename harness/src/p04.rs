//! Selective receive.
use crate::agent::*;
use crate::util::*;

#[derive(Clone, PartialEq, Debug)]
enum It {
    U(u32),  // a number, moved
    S(u32),  // a number, serialized
    T,       // a text, moved
    X,       // a text, serialized
    E,       // an exit message
}
fn mismatch(i: &It) -> bool {
    matches!(i, It::T | It::X)
}
fn put(i: &It, p: Pid, dummy: Pid, sys: &Agent) {
    match i {
        It::U(v) => Process::send(p, *v),
        It::S(v) => Process::send(vec![dummy, p], *v),
        It::T => Process::send(p, String::from("t")),
        It::X => Process::send(vec![dummy, p], String::from("t")),
        It::E => sys.tell(move || Process::exit(p, ExitReason::Normal)),
    }
}
fn item() -> It {
    match pick(5, "item") {
        0 => It::U(sym_u32("v")),
        1 => It::S(sym_u8("v") as u32 & 7),
        2 => It::T,
        3 => It::X,
        _ => It::E,
    }
}
fn of(m: Message<u32>) -> It {
    match m {
        Message::User(v) => It::U(v),
        Message::System(SystemMessage::Exit(_, ExitReason::Normal)) => It::E,
        Message::System(_) => It::T,
    }
}
fn like(got: &It, want: &It) -> bool {
    match (got, want) {
        (It::U(a), It::U(b) | It::S(b)) => a == b,
        (It::T, It::X | It::T) => true,
        (It::E, It::E) => true,
        _ => false,
    }
}
const SEC: Duration = Duration::from_secs(1);

harness! {
    // Any mailbox, any sequence of selective receives and removals, against a list model.
    fn p04_ops() {
        block_on(async {
            let sys = Agent::new(false).await;
            let dummy = Agent::new(false).await;
            let n = param(0) as usize;
            let late_from = pick(n + 1, "late");
            let items: Vec<It> = (0..n).map(|_| item()).collect();
            let mut model: Vec<It> = items[..late_from].to_vec();
            let go: Rec<()> = Rec::new();
            let done: Rec<()> = Rec::new();
            let (g, dn, its, dp) = (go.clone(), done.clone(), items.clone(), dummy.pid);
            let k = param(1);
            let p = Process::spawn(async move {
                Process::set_flags(ProcessFlags::TRAP_EXIT);
                while g.len() == 0 { Process::sleep(SEC).await; }
                for step in 0..k {
                    let thr = sym_u32("thr");
                    let sysok = flip("sysok");
                    let pred = move |m: &Message<&u32>| match m { Message::User(x) => **x < thr, Message::System(_) => sysok };
                    let want = |i: &It| match i { It::U(x) | It::S(x) => *x < thr, It::E => sysok, _ => false };
                    match pick(5, "op") {
                        0 => {
                            // select, giving up after a while
                            let r = Process::timeout(SEC, Process::receiver().for_message::<u32>().select(pred)).await;
                            match (r, model.iter().position(want)) {
                                (Ok(m), Some(i)) => {
                                    let w = model.remove(i);
                                    check(like(&of(m), &w), "the earliest match");
                                    cover(1);
                                }
                                (Err(_), None) => cover(2),
                                (Ok(_), None) => fail("selected what does not match"),
                                (Err(_), Some(_)) => fail("a match is not found"),
                            }
                        }
                        1 => {
                            // remove
                            Process::receiver().for_message::<u32>().remove(pred);
                            model.retain(|i| !want(i));
                            cover(3);
                        }
                        2 => {
                            // receive a text
                            let r = Process::timeout(SEC, Process::receiver().for_message::<String>().select(move |m| match m { Message::User(_) => true, Message::System(_) => sysok })).await;
                            let i = model.iter().position(|i| mismatch(i) || (sysok && *i == It::E));
                            match (r, i) {
                                (Ok(m), Some(i)) => {
                                    let w = model.remove(i);
                                    check(match m { Message::User(t) => t == "t" && mismatch(&w), Message::System(_) => w == It::E }, "the earliest match");
                                    cover(4);
                                }
                                (Err(_), None) => cover(5),
                                (Ok(_), None) => fail("selected what does not match"),
                                (Err(_), Some(_)) => fail("a match is not found"),
                            }
                        }
                        3 => {
                            // look at everything as another type, and take nothing
                            Process::receiver().for_message::<u64>().remove(|_| false);
                            let _ = Process::timeout(SEC, Process::receiver().for_message::<u8>().select(|_| false)).await;
                            cover(6);
                        }
                        _ => {
                            // a text receive that is abandoned
                            let _ = Process::timeout(SEC, Process::receiver().for_message::<String>().select(|_| false)).await;
                            cover(7);
                        }
                    }
                    if step == 0 {
                        for i in &its[late_from..] { put(i, Process::current(), dp, &sys); quiesce().await; }
                        model.extend_from_slice(&its[late_from..]);
                    }
                }
                // everything that was not taken is there, once and in order
                for w in &model {
                    let got = if mismatch(w) {
                        match Process::timeout(SEC, Process::receiver().for_message::<String>().select(|m| matches!(m, Message::User(_)))).await { Ok(_) => It::T, Err(_) => fail("a message was lost") }
                    } else {
                        match Process::timeout(SEC, Process::receiver().for_message::<u32>().receive()).await { Ok(m) => of(m), Err(_) => fail("a message was lost") }
                    };
                    check(like(&got, w), "the rest stays, in order");
                }
                let more = Process::timeout(SEC, Process::receiver().for_message::<u32>().receive()).await.is_ok()
                    || Process::timeout(SEC, Process::receiver().for_message::<String>().receive()).await.is_ok();
                check(!more, "no message twice");
                dn.push(());
            });
            quiesce().await;
            let sys = Agent::new(false).await;
            for i in &items[..late_from] {
                put(i, p, dummy.pid, &sys);
                quiesce().await;
            }
            go.push(());
            Process::sleep(Duration::from_secs(100)).await;
            check(done.len() == 1, "the receiver is done");
        });
    }
    // Strict type checking: a message of another type panics, unless an earlier one is taken.
    fn p04_strict() {
        block_on(async {
            let sys = Agent::new(false).await;
            let watch = Agent::new(false).await;
            let dummy = Agent::new(false).await;
            let n = param(0) as usize;
            let items: Vec<It> = (0..n).map(|_| item()).collect();
            let thr = sym_u32("thr");
            let op = pick(3, "op");
            let peek = flip("peek");
            let go: Rec<()> = Rec::new();
            let out: Rec<It> = Rec::new();
            let (g, o) = (go.clone(), out.clone());
            let p = Process::spawn(async move {
                Process::set_flags(ProcessFlags::TRAP_EXIT);
                while g.len() == 0 { Process::sleep(SEC).await; }
                if peek { let _ = Process::timeout(SEC, Process::receiver().for_message::<u32>().select(|_| false)).await; }
                match op {
                    0 => o.push(of(Process::receive::<u32>().await)),
                    1 => o.push(of(Process::receiver().for_message::<u32>().strict_type_checking().select(move |m| match m { Message::User(x) => **x < thr, _ => false }).await)),
                    _ => {
                        Process::receiver().strict_type_checking().for_message::<u32>().remove(move |m| match m { Message::User(x) => **x < thr, _ => false });
                        o.push(It::T);
                    }
                }
                Process::sleep(Duration::from_secs(1000)).await;
            });
            let r = watch.eval(move || Process::monitor(p)).await;
            for i in &items {
                put(i, p, dummy.pid, &sys);
                quiesce().await;
            }
            go.push(());
            Process::sleep(Duration::from_secs(10)).await;
            let take = |i: &It| match i { It::U(x) | It::S(x) => op == 0 || *x < thr, It::E => op == 0, _ => false };
            let mut panics = false;
            let mut got: Option<It> = None;
            for i in &items {
                if mismatch(i) { panics = true; break; }
                if op != 2 && take(i) { got = Some(i.clone()); break; }
            }
            if panics {
                check(out.len() == 0, "nothing is received past a message of another type");
                check(watch.downs() == vec![(Dest::Pid(p), r, ExitReason::from("Unsupported message type!"))], "it panics the receiver");
                cover(1);
            } else {
                check(watch.downs().is_empty() && Process::alive(p), "no panic");
                match got {
                    Some(w) => { check(out.len() == 1 && like(&out.get()[0], &w), "the earliest match"); cover(2); }
                    None => { check(out.len() == (op == 2) as usize, "waits when nothing matches"); cover(3); }
                }
            }
        });
    }
    // Messages arriving while a selective receive waits, from two senders, in any schedule.
    fn p04_wait() {
        block_on(async {
            let a = Agent::new(false).await;
            let b = Agent::new(false).await;
            let out: Rec<u32> = Rec::new();
            let o = out.clone();
            let p = Process::spawn(async move {
                for want in [3u32, 1, 4, 2] {
                    let m = Process::receiver().for_message::<u32>().select(move |m| matches!(m, Message::User(x) if **x == want)).await;
                    if let Message::User(x) = m { o.push(x) }
                }
            });
            let drop_one = flip("timeout");
            budget(param(0) as u32, param(1) as u32);
            a.tell(move || { Process::send(p, 1u32); Process::send(p, 3u32); });
            b.tell(move || { Process::send(p, 2u32); if drop_one { Process::send(p, String::from("x")) }; Process::send(p, 4u32); });
            quiesce().await;
            budget(0, 0);
            check(out.get()[..] == [3, 1, 4, 2], "every message is found, whatever the order of arrival");
            check(!Process::alive(p), "the receiver is done");
            cover(1);
        });
    }
    // Selecting from a long mailbox.
    fn p04_many() {
        block_on(async {
            let n = param(0) as u32;
            let at = sym_below(n as u64, "at") as u32;
            let out: Rec<u32> = Rec::new();
            let o = out.clone();
            let twice = flip("twice");
            let p = Process::spawn(async move {
                Process::sleep(SEC).await;
                for _ in 0..1 + twice as u32 {
                    if let Message::User(v) = Process::receiver().for_message::<u32>().select(move |m| match m { Message::User(x) => **x >= at, _ => false }).await { o.push(v) }
                }
                loop {
                    if let Message::User(v) = Process::receive::<u32>().await { o.push(v) }
                }
            });
            for i in 0..n {
                Process::send(p, i);
                if i == n / 2 { Process::sleep(SEC * 2).await; }
            }
            quiesce().await;
            Process::sleep(SEC * 2).await;
            quiesce().await;
            let got = out.get();
            let k = if twice && at + 1 < n { 2 } else { 1 };
            let mut want: Vec<u32> = (at..at + k).collect();
            want.extend((0..n).filter(|i| *i < at || *i >= at + k));
            if !twice || at + 1 < n { check(*got == want, "the selected ones first, the rest in order"); cover(1); }
            else { check(*got == vec![at], "a second match is waited for"); cover(2); }
        });
    }
}
