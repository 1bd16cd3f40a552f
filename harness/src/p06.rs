//! Links.
use crate::agent::*;
use crate::util::*;

/// No link to an ended process is left.
fn unlinked(a: &Agent, who: Pid) {
    if let Some(i) = Process::info(a.pid) {
        check(!i.links.contains(&who), "the link is gone once one side has ended");
    }
}
/// What a process linked to one that ended with `r` must look like.
fn judge(a: &Agent, trap: bool, who: Pid, r: &ExitReason, msg: &str) -> bool {
    unlinked(a, who);
    let e = a.exits();
    if trap {
        check(e.len() == 1 && e[0].0 == who && e[0].1 == *r, msg);
        check(Process::alive(a.pid), "a trapping process survives");
        true
    } else {
        check(e.is_empty(), "a process that does not trap gets no message");
        check(Process::alive(a.pid) == r.is_normal(), msg);
        r.is_normal()
    }
}

harness! {
    // Every way to link two processes, perhaps unlinking, then one of them ends; a third is linked to the survivor.
    fn p06_pair() {
        block_on(async {
            let trap_a = flip("trap_a");
            let trap_b = flip("trap_b");
            let s = Agent::new(false).await;
            let a = Agent::new(trap_a).await;
            let w = Agent::new(true).await; // linked to a
            let ap = a.pid;
            w.run(move || Process::link(ap)).await;
            let how = pick(4, "how");
            let b = if how == 3 {
                let log = Rec::new();
                let l = log.clone();
                let pid = a.eval(move || Process::spawn_link(body(trap_b, l))).await;
                Agent { pid, log }
            } else {
                Agent::new(trap_b).await
            };
            let bp = b.pid;
            if how == 0 || how == 2 { a.run(move || Process::link(bp)).await; }
            if how == 1 || how == 2 { b.run(move || Process::link(ap)).await; }
            check(Process::info(ap).unwrap().links.contains(&bp) && Process::info(bp).unwrap().links.contains(&ap), "links are listed on both sides");
            let un = pick(3, "unlink");
            if un == 1 { a.run(move || Process::unlink(bp)).await; }
            if un == 2 { b.run(move || Process::unlink(ap)).await; }
            let by_b = flip("b_ends");
            let (dying, left, trap) = if by_b { (&b, &a, trap_a) } else { (&a, &b, trap_b) };
            let r = finish_off(pick(ENDS, "end"), dying, &s);
            quiesce().await;
            check(!Process::alive(dying.pid), "the process has ended");
            if un != 0 {
                check(left.log.len() == 0 && Process::alive(left.pid), "after unlinking no signal passes, in either direction");
                cover(1);
            } else {
                let lives = judge(left, trap, dying.pid, &r, "the link signal arrives once, with pid and reason");
                if by_b {
                    // the signal goes on along the chain
                    if lives {
                        check(w.log.len() == 0, "a survivor passes nothing on");
                    } else {
                        check(w.exits() == vec![(ap, r.clone())], "a process ended by a link ends with that reason");
                    }
                }
                cover(2);
            }
            if !by_b { check(w.exits() == vec![(ap, r)], "every linked process gets the signal"); }
        });
    }
    // Linking to a process that has ended or never existed.
    fn p06_noproc() {
        block_on(async {
            let trap = flip("trap");
            let a = Agent::new(trap).await;
            let d = Agent::new(false).await;
            let dp = d.pid;
            d.stop();
            quiesce().await;
            a.run(move || Process::link(dp)).await;
            judge(&a, trap, dp, &ExitReason::from("noproc"), "linking to a dead process signals noproc");
            cover(1);
        });
    }
    // Linking to itself is no link; unlinking without a link does nothing.
    fn p06_self() {
        block_on(async {
            let a = Agent::new(true).await;
            let b = Agent::new(true).await;
            let (ap, bp) = (a.pid, b.pid);
            a.run(move || { Process::link(ap); Process::unlink(bp); Process::unlink(ap); }).await;
            b.run(move || Process::exit(bp, "x")).await;
            check(a.log.len() == 0 && Process::alive(ap), "nothing happens");
            cover(1);
        });
    }
    // Linking while the other process ends, in any schedule.
    fn p06_race() {
        block_on(async {
            let trap = flip("trap");
            let s = Agent::new(false).await;
            let a = Agent::new(trap).await;
            let b = Agent::new(false).await;
            let bp = b.pid;
            let k = [0, 1, 4][pick(3, "end")];
            budget(param(0) as u32, param(1) as u32);
            a.tell(move || Process::link(bp));
            let r = finish_off(k, &b, &s);
            quiesce().await;
            budget(0, 0);
            check(!Process::alive(bp), "the process has ended");
            unlinked(&a, bp);
            let e = a.exits();
            if trap {
                check(e.len() == 1 && e[0].0 == bp, "exactly one exit message, whatever the order");
                check(e[0].1 == r || e[0].1 == "noproc", "with the true reason, or noproc");
                cover(if e[0].1 == "noproc" { 1 } else { 2 });
            } else {
                check(e.is_empty(), "no message");
                if !r.is_normal() {
                    check(!Process::alive(a.pid), "no link signal is lost");
                    cover(3);
                }
            }
        });
    }
    // Unlinking while the other process ends.
    fn p06_unlink_race() {
        block_on(async {
            let trap = flip("trap");
            let s = Agent::new(false).await;
            let a = Agent::new(trap).await;
            let b = Agent::new(false).await;
            let bp = b.pid;
            a.run(move || Process::link(bp)).await;
            let k = [0, 1, 4][pick(3, "end")];
            budget(param(0) as u32, param(1) as u32);
            a.tell(move || Process::unlink(bp));
            let r = finish_off(k, &b, &s);
            quiesce().await;
            budget(0, 0);
            unlinked(&a, bp);
            let e = a.exits();
            check(e.len() <= 1 && e.iter().all(|(p, q)| *p == bp && *q == r), "at most one signal, the true one");
            check(Process::alive(a.pid) || (!trap && !r.is_normal()), "the survivor");
            cover(if e.len() == 1 { 1 } else { 2 });
        });
    }
    // Both ends of a link end at the same time; a third process is linked to both.
    fn p06_both() {
        block_on(async {
            let s = Agent::new(false).await;
            let a = Agent::new(flip("trap_a")).await;
            let b = Agent::new(false).await;
            let w = Agent::new(true).await;
            let (ap, bp) = (a.pid, b.pid);
            a.run(move || Process::link(bp)).await;
            w.run(move || { Process::link(ap); Process::link(bp); }).await;
            let (ka, kb) = ([1, 4][pick(2, "end_a")], [0, 2][pick(2, "end_b")]);
            budget(param(0) as u32, param(1) as u32);
            let ra = finish_off(ka, &a, &s);
            let rb = finish_off(kb, &b, &s);
            quiesce().await;
            budget(0, 0);
            let e = w.exits();
            check(e.len() == 2, "one signal for each");
            for (p, r) in e {
                let own = if p == ap { &ra } else { &rb };
                let other = if p == ap { &rb } else { &ra };
                check(p == ap || p == bp, "true pid");
                check(r == *own || (r == *other && !other.is_normal()), "true reason");
            }
            check(!Process::alive(ap) && !Process::alive(bp) && Process::alive(w.pid), "the processes have ended");
            cover(1);
        });
    }
    // A freshly spawned and linked process that ends at once.
    fn p06_spawn() {
        block_on(async {
            let trap = flip("trap");
            let a = Agent::new(trap).await;
            let kind = pick(3, "end");
            budget(param(0) as u32, param(1) as u32);
            let pid = a.eval(move || Process::spawn_link(async move {
                match kind {
                    0 => {}
                    1 => panic!("boom"),
                    _ => { Process::exit(Process::current(), "self"); Process::receive::<u8>().await; }
                }
            })).await;
            quiesce().await;
            budget(0, 0);
            let r = match kind { 0 => ExitReason::Normal, 1 => ExitReason::from("boom"), _ => ExitReason::from("self") };
            check(!Process::alive(pid) && !Process::list().contains(&pid), "it has ended");
            judge(&a, trap, pid, &r, "the link of spawn_link acts at once");
            cover(kind as u32);
        });
    }
    // A process with many links.
    fn p06_many() {
        block_on(async {
            let n = param(0) as usize;
            let s = Agent::new(false).await;
            let trap = flip("trap");
            let c = Agent::new(trap).await;
            let cp = c.pid;
            let mut v = vec![];
            for i in 0..n {
                let a = Agent::new(i % 3 != 1).await;
                let ap = a.pid;
                if i % 2 == 0 { c.tell(move || Process::link(ap)); } else { a.tell(move || Process::link(cp)); }
                v.push(a);
            }
            quiesce().await;
            check(Process::info(cp).unwrap().links.len() == n, "all links are listed");
            let k = pick(n, "unlinked");
            let kp = v[k].pid;
            c.run(move || Process::unlink(kp)).await;
            match pick(2, "dies") {
                0 => {
                    let r = finish_off(pick(ENDS, "end"), &c, &s);
                    quiesce().await;
                    for (i, a) in v.iter().enumerate() {
                        if i == k { check(a.log.len() == 0 && Process::alive(a.pid), "an unlinked process gets no signal"); }
                        else { judge(a, i % 3 != 1, cp, &r, "each linked process gets the signal once"); }
                    }
                    cover(0);
                }
                _ => {
                    let j = (k + 1 + pick(3, "who")) % n;
                    let r = finish_off(1, &v[j], &s);
                    quiesce().await;
                    let lives = judge(&c, trap, v[j].pid, &r, "the signal arrives once");
                    for (i, a) in v.iter().enumerate() {
                        if i == j { continue; }
                        if i == k || lives { check(a.log.len() == 0 && Process::alive(a.pid), "others are not disturbed"); }
                        else { judge(a, i % 3 != 1, cp, &r, "and goes on to each linked process once"); }
                    }
                    cover(1);
                }
            }
        });
    }
}
