//! Timers.
use crate::agent::*;
use crate::util::*;

/// A process that records the arrival times of u32 messages.
fn sink(log: Rec<(u32, u64)>) -> Pid {
    Process::spawn(async move {
        loop {
            if let Message::User(v) = Process::receive::<u32>().await {
                log.push((v, now()));
            }
        }
    })
}

harness! {
    // One timer with any delay, read at any time before and after.
    fn p10_one() {
        block_on(async {
            let log = Rec::new();
            let p = sink(log.clone());
            quiesce().await;
            let d = sym_dur("delay");
            let v = sym_u32("v");
            let named = flip("named");
            if named { let _ = Process::register(p, "sink"); }
            let due = at(d);
            let t = if named { Process::send_after("sink", v, d) } else { Process::send_after(p, v, d) };
            let r = sym_dur("read");
            Process::sleep(r).await;
            if r < d {
                check(log.len() == 0, "not before the delay has passed");
                check(Process::read_timer(t) == Some(d - r), "the remaining time");
                cover(1);
            }
            quiesce().await;
            if r > d {
                check(log.len() == 1, "delivered once the delay has passed");
                check(Process::read_timer(t).is_none(), "a timer that fired is gone");
                cover(2);
            }
            if r == d { cover(3); }
            Process::sleep(Duration::from_secs(1 << 33)).await;
            quiesce().await;
            check(log.len() == 1, "exactly once");
            check(log.get()[0].0 == v, "the message");
            check(log.get()[0].1 == due, "at the time it is due");
            check(Process::read_timer(t).is_none(), "gone afterwards");
        });
    }
    // Cancelled at any time.
    fn p10_cancel() {
        block_on(async {
            let log = Rec::new();
            let p = sink(log.clone());
            quiesce().await;
            let d = sym_dur("delay");
            let c = sym_dur("cancel");
            let other = Process::send_after(p, 2u32, Duration::from_secs(7));
            let t = Process::send_after(p, 1u32, d);
            Process::sleep(c).await;
            Process::cancel_timer(t);
            let n = log.len();
            check(Process::read_timer(t).is_none(), "a cancelled timer is gone");
            Process::sleep(Duration::from_secs(1 << 33)).await;
            quiesce().await;
            let ones = log.get().iter().filter(|e| e.0 == 1).count();
            let twos = log.get().iter().filter(|e| e.0 == 2).count();
            if c < d { check(ones == 0, "never after it was cancelled"); cover(1); }
            if c > d { check(ones == 1, "delivered once before it was cancelled"); cover(2); }
            check(ones <= 1, "at most once");
            check(twos == 1, "other timers are not disturbed");
            check(Process::read_timer(other).is_none(), "gone");
            Process::cancel_timer(t);
            let _ = n;
        });
    }
    // Two timers with any delays: both arrive, the earlier first.
    fn p10_two() {
        block_on(async {
            let log = Rec::new();
            let p = sink(log.clone());
            quiesce().await;
            let (a, b) = (sym_secs("a"), sym_secs("b"));
            let (da, db) = (at(a), at(b));
            let dests = if flip("list") { vec![p] } else { vec![p, p] };
            let n = dests.len();
            let ta = Process::send_after(dests, 1u32, a);
            let tb = Process::send_after(p, 2u32, b);
            check(ta != tb, "timers are distinct");
            Process::sleep(Duration::from_secs(1 << 33)).await;
            quiesce().await;
            let l = log.get();
            check(l.len() == n + 1, "each exactly once");
            check(l.iter().filter(|e| e.0 == 1 && e.1 == da).count() == n, "the first at its time");
            check(l.iter().filter(|e| e.0 == 2 && e.1 == db).count() == 1, "the second at its time");
            cover(1);
        });
    }
    // Delays at the limits.
    fn p10_extreme() {
        block_on(async {
            let log = Rec::new();
            let p = sink(log.clone());
            quiesce().await;
            let s = sym_u64("secs");
            let d = Duration::new(s, 999_999_999);
            let t = Process::send_after(p, 1u32, d);
            quiesce().await;
            check(log.len() == 0, "not yet");
            check(Process::read_timer(t).is_some(), "pending");
            Process::cancel_timer(t);
            check(Process::read_timer(t).is_none(), "cancelled");
            cover(1);
        });
    }
    // A timer that is due at once, in any schedule.
    fn p10_now() {
        block_on(async {
            let log = Rec::new();
            let p = sink(log.clone());
            let a = Agent::new(false).await;
            budget(param(0) as u32, param(1) as u32);
            let t = a.eval(move || Process::send_after(p, 1u32, Duration::ZERO)).await;
            quiesce().await;
            budget(0, 0);
            check(log.len() == 1, "delivered once");
            check(Process::read_timer(t).is_none(), "a timer that fired is gone");
            cover(1);
        });
    }
    // Cancelled while it fires, in any schedule.
    fn p10_race() {
        block_on(async {
            let log: Rec<(u32, u64)> = Rec::new();
            let p = sink(log.clone());
            let a = Agent::new(false).await;
            let t = a.eval(move || Process::send_after(p, 1u32, Duration::from_secs(1))).await;
            let before: Rec<(usize, usize)> = Rec::new();
            let (b, l) = (before.clone(), log.clone());
            budget(param(0) as u32, param(1) as u32);
            a.start(async move {
                Process::sleep(Duration::from_secs(1)).await;
                Process::cancel_timer(t);
                let queued = Process::info(p).unwrap().message_queue_len;
                b.push((atomically(|| l.len()), queued));
            });
            Process::sleep(Duration::from_secs(2)).await;
            quiesce().await;
            budget(0, 0);
            check(before.len() == 1 && log.len() <= 1, "at most once");
            let (got, queued) = before.get()[0];
            if log.len() == 1 {
                check(got + queued >= 1, "not sent after cancel returned");
                cover(1);
            } else {
                cover(2);
            }
            check(Process::read_timer(t).is_none(), "gone");
        });
    }
    // A timer to a process that ends before disturbs nothing.
    fn p10_dead() {
        block_on(async {
            let log = Rec::new();
            let p = sink(log.clone());
            let a = Agent::new(false).await;
            quiesce().await;
            let d = sym_secs("delay");
            assume(d != Duration::from_secs(10));
            let t = Process::send_after(p, 1u32, d);
            Process::sleep(Duration::from_secs(10)).await;
            a.run(move || Process::exit(p, ExitReason::Kill)).await;
            Process::sleep(Duration::from_secs(1 << 33)).await;
            check(log.len() == if d <= Duration::from_secs(10) { 1 } else { 0 }, "delivered only while alive");
            check(Process::read_timer(t).is_none(), "gone");
            cover(log.len() as u32);
        });
    }
    // Many timers at once.
    fn p10_many() {
        block_on(async {
            let n = param(0) as u32;
            let log = Rec::new();
            let p = sink(log.clone());
            quiesce().await;
            let step = [0, 1, 1000][pick(3, "step")];
            let delay = |i: u32| Duration::from_secs((i * 7 % n) as u64 * step);
            let due: Vec<u64> = (0..n).map(|i| at(delay(i))).collect();
            let t: Vec<Reference> = (0..n).map(|i| Process::send_after(p, i, delay(i))).collect();
            let k = pick(n as usize, "cancelled");
            Process::cancel_timer(t[k]);
            Process::sleep(Duration::from_secs(1 << 30)).await;
            quiesce().await;
            let l = log.get();
            check(l.len() == n as usize - 1, "all but the cancelled one are delivered, once");
            check((0..n).all(|i| i as usize == k || l.iter().filter(|e| e.0 == i && e.1 == due[i as usize]).count() == 1), "each at its time");
            check(t.iter().all(|t| Process::read_timer(*t).is_none()), "and are gone");
            cover(1);
        });
    }
}
