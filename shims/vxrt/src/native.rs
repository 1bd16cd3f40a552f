//! Native implementation of the `vx_*` interface: replays the values of a solver model against the compiled code.
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Mutex;

struct St {
    vals: Vec<u64>,
    names: Vec<String>,
    pos: usize,
    params: Vec<u64>,
    verbose: bool,
}
static ST: Mutex<Option<St>> = Mutex::new(None);

fn with<T>(f: impl FnOnce(&mut St) -> T) -> T {
    let mut g = ST.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        // VX_VALUES: file with one "value name" per line; VX_PARAMS: comma separated
        let mut vals = vec![];
        let mut names = vec![];
        if let Ok(p) = std::env::var("VX_VALUES") {
            for l in std::fs::read_to_string(p).expect("values file").lines() {
                let mut it = l.splitn(2, ' ');
                vals.push(it.next().unwrap().parse().expect("value"));
                names.push(it.next().unwrap_or("").to_string());
            }
        }
        let params = std::env::var("VX_PARAMS").map(|p| p.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()).unwrap_or_default();
        *g = Some(St { vals, names, pos: 0, params, verbose: std::env::var("VX_VERBOSE").is_ok() });
    }
    f(g.as_mut().unwrap())
}
unsafe fn s(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
fn next(name: &str) -> u64 {
    with(|s| {
        let v = s.vals.get(s.pos).copied().unwrap_or(0);
        if let Some(n) = s.names.get(s.pos) {
            if n != name {
                println!("VX-MISMATCH value {} is {} in the model, {} here", s.pos, n, name);
                std::process::exit(4);
            }
        }
        if s.verbose {
            eprintln!("value {} {} = {}", s.pos, name, v);
        }
        s.pos += 1;
        v
    })
}
fn exit(code: i32) -> ! {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    unsafe { _exit(code) }
}

#[no_mangle]
unsafe extern "C" fn vx_sym(bits: u32, p: *const u8, n: usize) -> u64 {
    let v = next(&s(p, n));
    if bits >= 64 { v } else { v & ((1u64 << bits) - 1) }
}
#[no_mangle]
unsafe extern "C" fn vx_choice(n: u32, p: *const u8, l: usize) -> u32 {
    let v = next(&s(p, l)) as u32;
    if v >= n.max(1) {
        println!("VX-MISMATCH choice {} of {}", v, n);
        exit(4);
    }
    v
}
#[no_mangle]
unsafe extern "C" fn vx_assume(b: bool) {
    if !b {
        println!("VX-ASSUME-FAILED");
        exit(3);
    }
}
#[no_mangle]
unsafe extern "C" fn vx_check(b: bool, p: *const u8, n: usize) {
    if !b {
        println!("VX-VIOLATION {}", s(p, n));
        exit(42);
    }
}
#[no_mangle]
unsafe extern "C" fn vx_cover(id: u32) {
    with(|s| {
        if s.verbose {
            eprintln!("cover {}", id)
        }
    });
}
#[no_mangle]
unsafe extern "C" fn vx_param(i: u32) -> u64 {
    with(|s| s.params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
unsafe extern "C" fn vx_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
unsafe extern "C" fn vx_end() -> ! {
    println!("VX-OK");
    exit(0)
}
#[no_mangle]
unsafe extern "C" fn vx_fail(p: *const u8, n: usize) -> ! {
    println!("VX-VIOLATION {}", s(p, n));
    exit(42)
}
#[no_mangle]
unsafe extern "C" fn vx_note(p: *const u8, n: usize) {
    if with(|s| s.verbose) {
        eprintln!("note {}", s(p, n));
    }
}

// coroutines: one OS thread each, exactly one of them running; the baton is a raw futex because `syscall` itself is
// interposed (sys.rs)
static TURN: AtomicU32 = AtomicU32::new(0);
static COUNT: AtomicU32 = AtomicU32::new(0);
thread_local!(static ME: Cell<u32> = const { Cell::new(0) });

unsafe fn raw(n: i64, a: [usize; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3],
        in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
    r
}
#[no_mangle]
unsafe extern "C" fn vx_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    raw(n, [a, b, c, d, e, f])
}
fn wait(me: u32) {
    loop {
        let t = TURN.load(Ordering::SeqCst);
        if t == me {
            return;
        }
        unsafe { raw(202, [&TURN as *const _ as usize, 0, t as usize, 0, 0, 0]) };
    }
}
#[no_mangle]
extern "C" fn vx_co_new(f: extern "C" fn(usize), arg: usize) -> u32 {
    let id = COUNT.fetch_add(1, Ordering::SeqCst) + 1;
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            ME.with(|m| m.set(id));
            wait(id);
            let r = std::panic::catch_unwind(move || f(arg));
            println!("VX-VIOLATION uncaught panic {}", r.is_err());
            exit(43);
        })
        .unwrap();
    id
}
#[no_mangle]
extern "C" fn vx_co_switch(to: u32) {
    let me = ME.with(|m| m.get());
    TURN.store(to, Ordering::SeqCst);
    unsafe { raw(202, [&TURN as *const _ as usize, 1, i32::MAX as usize, 0, 0, 0]) };
    wait(me);
}
#[no_mangle]
extern "C" fn vx_live() -> u64 {
    0
}
