//! Applications.
use crate::util::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Serialize, Deserialize)]
struct Nothing(u8);
#[derive(Clone)]
struct Main {
    /// It ends by itself after this time.
    lives: Duration,
    reason: ExitReason,
    panics: bool,
    trap: bool,
    linger: Duration,
    starts: usize,
    takes: Duration,
    /// Signals and the times they are raised.
    signals: Vec<(i32, Duration)>,
    log: Rec<(u32, u64)>,
}
struct Config(Option<bool>, Option<Duration>, usize);
static mut CONFIG: Config = Config(None, None, 0);
impl Main {
    fn new() -> Main {
        Main { lives: Duration::from_secs(100), reason: ExitReason::Normal, panics: false, trap: false, linger: Duration::ZERO, starts: 0, takes: Duration::ZERO, signals: vec![], log: Rec::new() }
    }
}
struct Mark(Rec<(u32, u64)>);
impl Drop for Mark {
    fn drop(&mut self) {
        self.0.push((9, now()))
    }
}
impl Application for Main {
    fn config() -> ApplicationConfig {
        let c = unsafe { &*std::ptr::addr_of!(CONFIG) };
        let mut a = if c.2 == 0 { ApplicationConfig::new() } else { ApplicationConfig::default() };
        // in either order
        if let Some(d) = c.1 {
            if c.2 == 1 {
                a = a.with_graceful_shutdown_timeout(d);
            }
        }
        if let Some(g) = c.0 {
            a = a.with_graceful_shutdown(g);
        }
        if let Some(d) = c.1 {
            if c.2 != 1 {
                a = a.with_graceful_shutdown_timeout(d);
            }
        }
        a
    }
    async fn start(&self) -> Result<Pid, ExitReason> {
        if self.takes > Duration::ZERO {
            Process::sleep(self.takes).await;
        }
        match self.starts {
            1 => return Err(ExitReason::from("bad")),
            2 => panic!("boom"),
            _ => {}
        }
        let m = self.clone();
        let mark = Mark(m.log.clone());
        let p = Process::spawn_link(async move {
            let _mark = mark;
            if m.trap {
                Process::set_flags(ProcessFlags::TRAP_EXIT);
            }
            m.log.push((1, now()));
            match Process::timeout(m.lives, Process::receive::<Nothing>()).await {
                Ok(Message::System(SystemMessage::Exit(_, r))) => {
                    m.log.push((2, now()));
                    check(r == ExitReason::from("shutdown"), "asked to shut down");
                    Process::sleep(m.linger).await;
                    Process::exit(Process::current(), r);
                }
                _ => {
                    if m.panics {
                        panic!("boom")
                    }
                    Process::exit(Process::current(), m.reason)
                }
            }
            std::future::pending::<()>().await
        });
        for (k, t) in self.signals.clone() {
            let l = self.log.clone();
            Process::spawn(async move {
                Process::sleep(t).await;
                if tokio::signal::vx_raise(k) > 0 {
                    l.push((3, now()));
                }
            });
        }
        Ok(p)
    }
}
const INF: Duration = Duration::from_secs(1 << 30);

harness! {
    // One main process, at most one signal, any times.
    fn p25_run() {
        x().allowed_panics = 9;
        let mut m = Main::new();
        let secs = |n: &str| { let d = sym_secs(n); assume(d.as_secs() > 0 && d < INF); d };
        m.lives = secs("lives");
        m.panics = flip("panics");
        m.reason = [ExitReason::Normal, ExitReason::Kill, ExitReason::from("crash")][pick(3, "reason")].clone();
        m.trap = flip("trap");
        m.linger = secs("linger");
        let sig = pick(3, "signal");
        let s = secs("at");
        if sig > 0 { m.signals.push((if sig == 1 { 15 } else { 2 }, s)); }
        let t = secs("timeout");
        let (g, base, given) = (flip("graceful"), pick(2, "base"), flip("given"));
        unsafe { CONFIG = Config(Some(g), if given { Some(t) } else { None }, base); }
        let t = if given { t } else { Duration::from_secs(10) };
        assume(s != m.lives && t != m.linger);
        let signalled = sig > 0 && g && s < m.lives;
        let end = if !signalled { m.lives } else if !m.trap { s } else if m.linger < t { s + m.linger } else { s + t };
        let (end, asked) = (at(end), at(s));
        let log = m.log.clone();
        m.run();
        let over = now();
        check(over == end, "it runs until its main process ends");
        let l = log.get();
        check(l.iter().filter(|e| e.0 == 9).count() == 1 && l.iter().any(|e| e.0 == 9 && e.1 == end), "the main process has ended, not before");
        let told: Vec<u64> = l.iter().filter(|e| e.0 == 2).map(|e| e.1).collect();
        if signalled && Process::list().len() < 99 {
            if told.len() > 0 { check(told[..] == [asked], "asked once"); cover(1); } else { cover(2); }
        } else {
            check(told.len() == 0, "not asked");
            cover(3);
        }
        if sig > 0 && !g { check(l.iter().all(|e| e.0 != 3), "no handler without graceful shutdown"); cover(4); }
    }
    // What is not set is as documented.
    fn p25_defaults() {
        let base = pick(2, "base");
        unsafe { CONFIG = Config(None, None, base); }
        let mut m = Main::new();
        m.trap = true;
        m.linger = Duration::from_secs(50);
        m.signals.push((15, Duration::from_secs(1)));
        let end = at(Duration::from_secs(if base == 0 { 100 } else { 11 }));
        m.run();
        check(now() == end, "no graceful shutdown, or ten seconds");
        cover(base as u32);
    }
    // A start that fails.
    fn p25_fails() {
        x().allowed_panics = 1;
        unsafe { CONFIG = Config(Some(flip("graceful")), None, pick(2, "base")); }
        let mut m = Main::new();
        m.starts = 1 + pick(2, "how");
        m.takes = sym_secs("takes");
        let end = at(m.takes);
        let how = m.starts;
        m.run();
        check(now() == end, "it returns once the start has failed");
        cover(how as u32);
    }
    // Several signals, and an end at the same time.
    fn p25_signals() {
        let mut m = Main::new();
        m.trap = true;
        let d = |n: &str| Duration::from_secs(1 + pick(3, n) as u64);
        m.linger = d("linger");
        m.lives = d("lives");
        let (a, b) = (d("a"), d("b"));
        m.signals = vec![(15, a), (if flip("same") { 15 } else { 2 }, b)];
        unsafe { CONFIG = Config(Some(true), Some(Duration::from_secs(2)), 0); }
        let s = a.min(b);
        let end = if s < m.lives { s + m.linger.min(Duration::from_secs(2)) } else { m.lives };
        let either = if s == m.lives { s + m.linger.min(Duration::from_secs(2)) } else { end };
        let (end, either) = (at(end), at(either));
        let log = m.log.clone();
        budget(param(0) as u32, param(1) as u32);
        m.run();
        budget(0, 0);
        check(now() == end || now() == either, "the first signal counts");
        let told = log.get().iter().filter(|e| e.0 == 2).count();
        check(told <= 1, "asked once");
        cover(told as u32);
    }
    // Tests return when the process ends, and panic if it ended badly.
    fn p25_test() {
        x().allowed_panics = 2;
        let mut m = Main::new();
        m.starts = [0, 1][pick(2, "starts")];
        m.lives = sym_secs("lives");
        assume(m.lives > Duration::ZERO);
        m.panics = flip("panics");
        m.reason = [ExitReason::Normal, ExitReason::Ignore, ExitReason::from("shutdown"), ExitReason::from("crash")][pick(4, "reason")].clone();
        let bad = m.starts == 1 || m.panics || m.reason == ExitReason::from("crash");
        let end = at(if m.starts == 1 { Duration::ZERO } else { m.lives });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.test()));
        check(now() == end, "it runs until the process ends");
        check(r.is_err() == bad, "it panics exactly if it ended badly");
        cover(bad as u32);
    }
}
