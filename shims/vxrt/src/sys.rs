//! Futexes: a thread that would block on a std lock is parked on the scheduler instead, so lock contention between
//! preempted tasks works (and a lock that is never released is reported).
use crate::exec::block_until;
use std::sync::atomic::{AtomicU32, Ordering};

extern "C" {
    fn vx_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64;
}
/// # Safety
/// C ABI.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == 202 {
        match b & 0x7f {
            0 | 9 => {
                let addr = a as *const AtomicU32;
                let expected = c as u32;
                block_until("deadlock: blocking on a lock the running thread holds", Box::new(move || unsafe { (*addr).load(Ordering::SeqCst) } != expected));
                return 0;
            }
            1 | 10 => return 0,
            _ => {}
        }
    }
    vx_syscall(n, a, b, c, d, e, f)
}
