//! Semaphores and tasks.
use crate::util::*;
use std::sync::Arc;

const SEC: Duration = Duration::from_secs(1);
struct Count {
    out: usize,
    most: usize,
}
struct Held(Rec<Count>, usize);
impl Held {
    fn new(c: &Rec<Count>, n: usize) -> Held {
        let x = &mut c.get()[0];
        x.out += n;
        x.most = x.most.max(x.out);
        Held(c.clone(), n)
    }
}
impl Drop for Held {
    fn drop(&mut self) {
        self.0.get()[0].out -= self.1;
    }
}
fn counter() -> Rec<Count> {
    let c = Rec::new();
    c.push(Count { out: 0, most: 0 });
    c
}
enum Any<'a> {
    #[allow(dead_code)]
    B(SemaphorePermit<'a>),
    #[allow(dead_code)]
    O(OwnedSemaphorePermit),
}
/// Takes n permits in one of the ways there are.
async fn take(s: &OwnedSemaphore, how: usize, n: u32) -> Any<'_> {
    match (how, n) {
        (0, 1) => Any::B(s.acquire().await),
        (1, 1) => Any::O(s.acquire_owned().await),
        (0, _) => Any::B(s.acquire_many(n).await),
        _ => Any::O(s.acquire_many_owned(n).await),
    }
}
fn free(s: &OwnedSemaphore) -> usize {
    let mut v = vec![];
    while let Ok(p) = s.try_acquire_owned() { v.push(p); }
    v.len()
}

harness! {
    // Several tasks take and give back permits, one may be given up while it waits or holds.
    fn p24_sem() {
        block_on(async {
            let total = 1 + pick(param(2) as usize, "total");
            let s = Arc::new(OwnedSemaphore::new(total));
            let c = counter();
            let done: Rec<u32> = Rec::new();
            let mut h = vec![];
            budget(param(0) as u32, param(1) as u32);
            for i in 0..3u32 {
                let n = 1 + pick(if i == 0 { total } else { total.min(2) }, "count") as u32;
                let how = if i == 2 { 1 } else { pick(2, "how") };
                let (s, c, d) = (s.clone(), c.clone(), done.clone());
                h.push(Task::spawn(async move {
                    let p = take(&s, how, n).await;
                    let g = Held::new(&c, n as usize);
                    Process::sleep(SEC).await;
                    drop(g);
                    drop(p);
                    d.push(i);
                }));
            }
            let cancel = flip("cancel");
            let ended = h.pop().unwrap();
            if cancel {
                let r = Task::shutdown(ended).await;
                check(r.is_err() || done.get().contains(&2), "shut down, or done");
            } else {
                check(ended.await.is_ok(), "it gets its permits");
            }
            for x in h { check(x.await.is_ok(), "every waiter gets its permits"); }
            budget(0, 0);
            check(c.get()[0].most <= total, "never more than there are");
            check(done.len() == 3 || (cancel && done.len() == 2 && !done.get().contains(&2)), "all are done");
            check(c.get()[0].out == 0 && free(&s) == total, "everything is given back");
            cover(total as u32 * 2 + cancel as u32);
        });
    }
    // Any counts: who can be served is served, who asks for too many waits, trying succeeds while there is one.
    fn p24_counts() {
        block_on(async {
            let max = param(0) as usize;
            let total = sym_u8("total") as usize;
            assume(total <= max);
            let a = sym_u8("a") as u32;
            let b = sym_u8("b") as u32;
            assume(a <= max as u32 + 1 && b <= max as u32 + 1);
            let owned = flip("owned");
            let s = OwnedSemaphore::new(total);
            let u = Semaphore::new(total);
            check(s.try_acquire_owned().is_ok() == (total > 0) && s.try_acquire().is_ok() == (total > 0), "trying takes a permit if there is one, dropping it gives it back");
            check(u.try_acquire().is_ok() == (total > 0), "plain semaphores too");
            let pa = Process::timeout(SEC, take(&s, owned as usize, a)).await;
            check(pa.is_ok() == (a as usize <= total), "served exactly if there are enough");
            let left = if pa.is_ok() { total - a as usize } else { total };
            check(free(&s) == left, "what it takes is what it asked for");
            let pb = Process::timeout(SEC, take(&s, 0, b)).await;
            check(pb.is_ok() == (b as usize <= left), "the next one too");
            drop(pa);
            let left = if pb.is_ok() { total - b as usize } else { total };
            check(free(&s) == left, "dropping gives back what was taken");
            drop(pb);
            check(free(&s) == total, "all of it");
            let qa = Process::timeout(SEC, u.acquire_many(a)).await;
            check(qa.is_ok() == (a as usize <= total), "plain: served exactly if there are enough");
            let left = if qa.is_ok() { total - a as usize } else { total };
            check(Process::timeout(SEC, u.acquire_many(left as u32)).await.is_ok(), "plain: the rest is there");
            check(Process::timeout(SEC, u.acquire()).await.is_ok() == (left > 0), "plain: one by one");
            check(Process::timeout(SEC, u.acquire_many(left as u32 + 1)).await.is_err(), "plain: and no more");
            if a as usize <= total { cover(1) } else { cover(2) }
        });
    }
    // A task's value, panic or end.
    fn p24_task() {
        block_on(async {
            let v = sym_u32("v");
            let how = pick(8, "how");
            let run: Rec<u32> = Rec::new();
            let r = run.clone();
            x().allowed_panics = 1;
            budget(param(0) as u32, param(1) as u32);
            match how {
                0 => check(matches!(Task::spawn(async move { v }).await, Ok(x) if x == v), "the value"),
                1 => check(matches!(Task::spawn(async move { Process::sleep(SEC).await; v }).await, Ok(x) if x == v), "the value, later"),
                2 => check(matches!(Task::spawn_blocking(move || v).await, Ok(x) if x == v), "the value of a blocking task"),
                3 => check(Task::spawn(async move { if v == v { panic!("boom") }; v }).await.is_err(), "an error if it panics"),
                4 => check(Task::spawn_blocking(move || { if v == v { panic!("boom") }; v }).await.is_err(), "an error if it panics"),
                5 => {
                    let t = Task::spawn(async move { r.push(1); Process::sleep(SEC).await; r.push(2); v });
                    if flip("wait") { quiesce().await; }
                    check(Task::shutdown(t).await.is_err(), "an error if it is shut down");
                    Process::sleep(Duration::from_secs(5)).await;
                    check(!run.get().contains(&2), "and it stops");
                }
                6 => {
                    let t = Task::spawn(async move { v });
                    let w = flip("wait");
                    if w { quiesce().await; }
                    let o = Task::shutdown(t).await;
                    check(if w { matches!(o, Ok(x) if x == v) } else { o.is_err() || matches!(o, Ok(x) if x == v) }, "the value if it was done");
                }
                _ => {
                    // a handle that is dropped lets the task run on
                    drop(Task::spawn(async move { Process::sleep(SEC).await; r.push(2); v }));
                    Process::sleep(Duration::from_secs(5)).await;
                    check(run.get()[..] == [2], "a task goes on without its handle");
                }
            }
            cover(how as u32);
        });
    }
    // Several tasks that end in any order, some of them badly.
    fn p24_many() {
        block_on(async {
            let v = [sym_u32("v"), sym_u32("v"), sym_u32("v")];
            let d = [pick(3, "delay"), pick(3, "delay"), pick(3, "delay")];
            let bad = pick(4, "bad");
            x().allowed_panics = 1;
            let t = |i: usize| { let (x, d) = (v[i], d[i]); Task::spawn(async move { if d > 0 { Process::sleep(SEC * d as u32).await; } if bad == i { panic!("x") } x }) };
            let r = Task::await_many([t(0), t(1), t(2)]).await;
            match r {
                Ok(l) => { check(bad == 3 && l.len() == 3 && l[0] == v[0] && l[1] == v[1] && l[2] == v[2], "all values in order"); cover(1); }
                Err(_) => { check(bad < 3, "an error if one fails"); cover(2); }
            }
            let none: [TaskHandle<u32>; 0] = [];
            check(Task::await_many(none).await.unwrap().is_empty(), "none");
        });
    }
    // A crowd.
    fn p24_crowd() {
        block_on(async {
            let n = param(0) as u32;
            let total = 1 + pick(3, "total");
            let s = Arc::new(OwnedSemaphore::new(total));
            let c = counter();
            let done: Rec<u32> = Rec::new();
            let t0 = now();
            let end = at(SEC * n.div_ceil(total as u32));
            let how = pick(2, "how");
            let h: Vec<_> = (0..n).map(|i| {
                let (s, c, d) = (s.clone(), c.clone(), done.clone());
                Task::spawn(async move {
                    let p = take(&s, how, 1).await;
                    let g = Held::new(&c, 1);
                    Process::sleep(SEC).await;
                    drop(g);
                    drop(p);
                    d.push(i);
                    i
                })
            }).collect();
            for (i, x) in h.into_iter().enumerate() { check(matches!(x.await, Ok(k) if k == i as u32), "each gets a permit"); }
            check(done.len() as u32 == n && c.get()[0].most == total && free(&s) == total, "never more than there are");
            check(now() == end && end > t0, "a permit given back is used at once");
            cover(total as u32);
        });
    }
}
