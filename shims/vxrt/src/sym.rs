extern "C" {
    fn vx_sym(bits: u32, p: *const u8, n: usize) -> u64;
    fn vx_choice(n: u32, p: *const u8, l: usize) -> u32;
    fn vx_assume(b: bool);
    fn vx_check(b: bool, p: *const u8, n: usize);
    fn vx_cover(id: u32);
    fn vx_param(i: u32) -> u64;
    fn vx_conc(v: u64) -> u64;
    fn vx_end() -> !;
    fn vx_fail(p: *const u8, n: usize) -> !;
    fn vx_note(p: *const u8, n: usize);
    fn vx_live() -> u64;
}

/// A symbolic value of `bits` bits.
#[inline(never)]
pub fn sym(bits: u32, name: &str) -> u64 {
    unsafe { vx_sym(bits, name.as_ptr(), name.len()) }
}
pub fn sym_u8(name: &str) -> u8 {
    sym(8, name) as u8
}
pub fn sym_u16(name: &str) -> u16 {
    sym(16, name) as u16
}
pub fn sym_u32(name: &str) -> u32 {
    sym(32, name) as u32
}
pub fn sym_u64(name: &str) -> u64 {
    sym(64, name)
}
/// A symbolic boolean; it stays symbolic until the code under test branches on it.
pub fn sym_bool(name: &str) -> bool {
    sym(1, name) & 1 == 1
}
/// A symbolic integer restricted to 0..n.
pub fn sym_below(n: u64, name: &str) -> u64 {
    let v = sym(32, name);
    assume(v < n);
    v
}
/// A decision variable in 0..n; each value is a separate path.
#[inline(never)]
pub fn choice(n: usize, name: &str) -> usize {
    unsafe { vx_choice(n as u32, name.as_ptr(), name.len()) as usize }
}
/// A symbolic boolean the harness branches on.
pub fn flip(name: &str) -> bool {
    if sym_bool(name) { true } else { false }
}
/// A symbolic integer in 0..n, case-split by the solver.
pub fn pick(n: usize, name: &str) -> usize {
    if n <= 1 {
        return 0;
    }
    conc(sym_below(n as u64, name)) as usize
}
pub fn assume(b: bool) {
    unsafe { vx_assume(b) }
}
#[inline(never)]
pub fn check(b: bool, msg: &str) {
    unsafe { vx_check(b, msg.as_ptr(), msg.len()) }
}
/// Reachability witness: the check is vacuous unless the engine reports it reached.
pub fn cover(id: u32) {
    unsafe { vx_cover(id) }
}
pub fn param(i: u32) -> u64 {
    unsafe { vx_param(i) }
}
/// Splits the path over every feasible value.
pub fn conc(v: u64) -> u64 {
    unsafe { vx_conc(v) }
}
pub fn end() -> ! {
    unsafe { vx_end() }
}
#[inline(never)]
pub fn fail(msg: &str) -> ! {
    unsafe { vx_fail(msg.as_ptr(), msg.len()) }
}
#[inline(never)]
pub fn note(msg: &str) {
    unsafe { vx_note(msg.as_ptr(), msg.len()) }
}
/// Number of live heap objects (engine only; 0 natively).
pub fn live() -> u64 {
    unsafe { vx_live() }
}
