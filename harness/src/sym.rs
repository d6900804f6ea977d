//! The only interface between the harnesses and the symbolic engine (or, natively, the replay runtime).
extern "C" {
    fn mvsym_bytes(p: *mut u8, n: usize);
    fn mvsym_choice(n: u64) -> u64;
    fn mvsym_assume(c: bool);
    fn mvsym_check(c: bool, id: u64);
    fn mvsym_fail(id: u64) -> !;
    fn mvsym_reach(id: u64);
    fn mvsym_report(v: u64);
    fn mvsym_hash_mode(k: u64);
    fn mvsym_concretize(v: u64) -> u64;
    fn mvsym_conc_bytes(p: *mut u8, cap: usize) -> usize;
}

/// `n` arbitrary bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { mvsym_bytes(v.as_mut_ptr(), n) };
    v
}
pub fn byte() -> u8 {
    let mut b = [0u8; 1];
    unsafe { mvsym_bytes(b.as_mut_ptr(), 1) };
    b[0]
}
pub fn u16_() -> u16 {
    let mut b = [0u8; 2];
    unsafe { mvsym_bytes(b.as_mut_ptr(), 2) };
    u16::from_le_bytes(b)
}
pub fn u32_() -> u32 {
    let mut b = [0u8; 4];
    unsafe { mvsym_bytes(b.as_mut_ptr(), 4) };
    u32::from_le_bytes(b)
}
pub fn i32_() -> i32 {
    u32_() as i32
}
/// One of 0..n, every alternative explored on its own path.
pub fn choice(n: usize) -> usize {
    unsafe { mvsym_choice(n as u64) as usize }
}
pub fn pick<'a, T: ?Sized>(xs: &[&'a T]) -> &'a T {
    xs[choice(xs.len())]
}
pub fn flag() -> bool {
    choice(2) == 1
}
pub fn assume(c: bool) {
    unsafe { mvsym_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { mvsym_check(c, id as u64) }
}
pub fn fail(id: u32) -> ! {
    unsafe { mvsym_fail(id as u64) }
}
/// Vacuity witness: the driver demands that every listed point is reached on some feasible path.
pub fn reach(id: u32) {
    unsafe { mvsym_reach(id as u64) }
}
pub fn report(v: u64) {
    unsafe { mvsym_report(v) }
}
/// Explore the placement of the first `k` keys of every hash table (iteration orders).
pub fn hash_mode(k: u64) {
    unsafe { mvsym_hash_mode(k) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { mvsym_concretize(v) }
}
pub fn file_bytes() -> Vec<u8> {
    unsafe {
        let n = mvsym_conc_bytes(std::ptr::null_mut(), 0);
        let mut v = vec![0u8; n];
        mvsym_conc_bytes(v.as_mut_ptr(), n);
        v
    }
}
