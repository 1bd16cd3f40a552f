//! Exit signals.
use crate::agent::*;
use crate::util::*;

harness! {
    // A sequence of signals, each settling before the next.
    fn p05_seq() {
        block_on(async {
            let trap = flip("trap");
            let l = Agent::new(true).await; // linked, traps
            let m = Agent::new(false).await; // monitors
            let o = Agent::new(false).await; // the other signaller
            let t = Agent::new(trap).await;
            let tp = t.pid;
            l.run(move || Process::link(tp)).await;
            let r = m.eval(move || Process::monitor(tp)).await;
            let mut got: Vec<(Pid, ExitReason)> = vec![];
            let mut dead: Option<ExitReason> = None;
            for _ in 0..param(0) {
                let by_self = flip("self");
                let reason = any_reason(1);
                let z = reason.clone();
                let from = if by_self { &t } else { &o };
                from.run(move || Process::exit(tp, z)).await;
                if dead.is_none() {
                    if by_self || reason == ExitReason::Kill {
                        dead = Some(reason);
                    } else if trap {
                        got.push((o.pid, reason));
                    } else if !matches!(reason, ExitReason::Normal | ExitReason::Ignore) {
                        dead = Some(reason);
                    }
                }
                check(Process::alive(tp) == dead.is_none(), "alive exactly until a signal ends it");
                check(t.exits() == got, "each trapped signal is one exit message with sender and reason");
            }
            if dead.is_none() {
                dead = Some(finish_off(pick(ENDS, "end"), &t, &o));
                quiesce().await;
                cover(2);
            }
            let dead = dead.unwrap();
            check(!Process::alive(tp), "the process has ended");
            check(l.exits() == vec![(tp, dead.clone())], "links get the true reason");
            check(m.downs() == vec![(Dest::Pid(tp), r, dead)], "monitors get the true reason");
            check(t.exits() == got, "exit messages at the end");
            cover(if trap { 1 } else { 3 });
        });
    }
    // Signals from two processes at once, in any schedule.
    fn p05_race() {
        block_on(async {
            let trap = flip("trap");
            let l = Agent::new(true).await;
            let a = Agent::new(false).await;
            let b = Agent::new(false).await;
            let t = Agent::new(trap).await;
            let tp = t.pid;
            l.run(move || Process::link(tp)).await;
            let (ra, rb) = (any_reason(0), any_reason(0));
            let (za, zb) = (ra.clone(), rb.clone());
            let late = flip("late");
            budget(param(0) as u32, param(1) as u32);
            a.tell(move || Process::exit(tp, za));
            b.tell(move || Process::exit(tp, zb));
            if late { t.tell(|| Process::set_flags(ProcessFlags::TRAP_EXIT)); }
            quiesce().await;
            budget(0, 0);
            let ends = |r: &ExitReason| *r == ExitReason::Kill || (!trap && r.is_custom());
            let alive = Process::alive(tp);
            check(alive == Process::list().contains(&tp), "alive and listed agree at rest");
            let got = t.exits();
            let n = |p: Pid, r: &ExitReason| got.iter().filter(|(q, s)| *q == p && s == r).count();
            check(n(a.pid, &ra) + n(b.pid, &rb) == got.len(), "no exit message is made up");
            check(n(a.pid, &ra) <= 1 && n(b.pid, &rb) <= 1, "no exit message is doubled");
            if alive {
                check(ra != ExitReason::Kill && rb != ExitReason::Kill, "kill ends the process");
                if trap {
                    check(got.len() == 2, "a trapping process gets every signal");
                } else if !late {
                    check(!ends(&ra) && !ends(&rb) && got.is_empty(), "an abnormal signal ends the process");
                } else {
                    check((!ra.is_custom() || n(a.pid, &ra) == 1) && (!rb.is_custom() || n(b.pid, &rb) == 1), "a signal either ends the process or is a message");
                }
                check(l.exits().is_empty(), "no link signal while alive");
                cover(1);
            } else {
                check(ends(&ra) || ends(&rb), "a harmless signal ended the process");
                let e = l.exits();
                check(e.len() == 1 && e[0].0 == tp, "one link signal");
                check((ends(&ra) && e[0].1 == ra) || (ends(&rb) && e[0].1 == rb), "with a reason that was given");
                cover(2);
            }
        });
    }
    // A process that signals itself and goes on.
    fn p05_self() {
        block_on(async {
            let l = Agent::new(true).await;
            let t = Agent::new(flip("trap")).await;
            let tp = t.pid;
            l.run(move || Process::link(tp)).await;
            let r = any_reason(1);
            let z = r.clone();
            let how = pick(3, "after");
            let went_on = Rec::new();
            let w = went_on.clone();
            t.start(async move {
                Process::exit(tp, z);
                match how {
                    0 => {}
                    1 => Process::sleep(Duration::from_secs(1)).await,
                    _ => panic!("late"),
                }
                w.push(());
                Process::receive::<u8>().await;
                w.push(());
            });
            quiesce().await;
            check(!Process::alive(tp) && !Process::list().contains(&tp), "a process that signals itself ends");
            check(went_on.len() < 2 && (how != 1 || went_on.len() == 0), "it does not go on for ever");
            let e = l.exits();
            check(e.len() == 1 && e[0].0 == tp, "one link signal");
            if how == 2 {
                check(e[0].1 == r || e[0].1 == "late", "a reason that was given");
            } else {
                check(e[0].1 == r, "the reason that was given");
            }
            cover(how as u32);
        });
    }
}
