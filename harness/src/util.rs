pub use hydra::*;
pub use std::time::Duration;
pub use vxrt::*;

#[macro_export]
macro_rules! harness {
    ($(fn $n:ident() $b:block)*) => {
        $(#[no_mangle] pub extern "C" fn $n() { $crate::util::init(); $b; $crate::util::finish(); })*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}

pub fn init() {
    std::panic::set_hook(Box::new(|_| {}));
    hydra::verif::set_point(|| vxrt::yield_point("atomic"));
}

pub fn finish() -> ! {
    check(x().task_panics <= x().allowed_panics, "internal code panicked in a background task or while cleaning up");
    vxrt::end()
}
/// Events shared between tasks.
pub struct Rec<T>(std::sync::Arc<std::cell::UnsafeCell<Vec<T>>>);
unsafe impl<T> Send for Rec<T> {}
unsafe impl<T> Sync for Rec<T> {}
impl<T> Clone for Rec<T> {
    fn clone(&self) -> Self {
        Rec(self.0.clone())
    }
}
impl<T> Rec<T> {
    pub fn new() -> Self {
        Rec(std::sync::Arc::new(std::cell::UnsafeCell::new(Vec::new())))
    }
    pub fn push(&self, t: T) {
        unsafe { (*self.0.get()).push(t) }
    }
    pub fn get(&self) -> &mut Vec<T> {
        unsafe { &mut *self.0.get() }
    }
    pub fn len(&self) -> usize {
        self.get().len()
    }
}

/// An ASCII string of `n` symbolic characters.
pub fn sym_str(n: usize, name: &str) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = sym_u8(name);
        assume(b < 0x80);
        v.push(b);
    }
    // validity is assumed above
    unsafe { String::from_utf8_unchecked(v) }
}
/// `n` symbolic small letters.
pub fn sym_word(n: usize, name: &str) -> String {
    let s = sym_str(n, name);
    for b in s.bytes() {
        assume(b >= b'a' && b <= b'z');
    }
    s
}
/// `n` symbolic bytes.
pub fn sym_bytes(n: usize, name: &str) -> Vec<u8> {
    (0..n).map(|_| sym_u8(name)).collect()
}

/// Virtual time now, comparable with `at(d)`.
pub fn now() -> u64 {
    vxrt::time::now()
}
/// The virtual time `d` from now.
pub fn at(d: Duration) -> u64 {
    vxrt::time::after(d)
}
/// A symbolic duration below 2^32 seconds, in whole seconds.
pub fn sym_secs(name: &str) -> Duration {
    Duration::from_secs(sym_u32(name) as u64)
}
/// A symbolic duration of up to 2^32 seconds and any number of nanoseconds.
pub fn sym_dur(name: &str) -> Duration {
    let n = sym_u32(name);
    assume(n < 1_000_000_000);
    Duration::new(sym_u32(name) as u64, n)
}
#[derive(serde::Serialize)]
enum Wire {
    #[allow(dead_code)]
    WithNode(std::num::NonZeroU64, String, std::net::SocketAddr),
    NodeUnavailable(std::num::NonZeroU64),
}
fn wire(id: u64) -> Vec<u8> {
    rmp_serde::to_vec_named(&Wire::NodeUnavailable(std::num::NonZeroU64::new(id).unwrap())).unwrap()
}
/// A pid of an unknown node.
pub fn remote_pid(id: u64) -> Pid {
    rmp_serde::from_slice(&wire(id)).unwrap()
}
pub trait Numbered {
    fn number(&self) -> u64;
}
impl Numbered for Pid {
    fn number(&self) -> u64 {
        match self {
            Pid::Local(n) | Pid::Remote(n, _) => n.get(),
        }
    }
}
impl Numbered for Reference {
    fn number(&self) -> u64 {
        match self {
            Reference::Local(n) | Reference::Remote(n, _) => n.get(),
        }
    }
}
/// The number inside a pid or reference.
pub fn number<T: Numbered>(p: T) -> u64 {
    p.number()
}
/// A reference of an unknown node.
pub fn remote_ref(id: u64) -> Reference {
    rmp_serde::from_slice(&wire(id)).unwrap()
}
