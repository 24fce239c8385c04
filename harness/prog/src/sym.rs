//! Primitives answered by the symbolic engine (`symir`) and, for native replay, by `symreplay`.
mod raw {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: u64, t: *const u8, tl: u64);
        pub fn sym_u64(t: *const u8, tl: u64) -> u64;
        pub fn sym_choose(n: u64, t: *const u8, tl: u64) -> u64;
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_assume(c: u64);
        pub fn sym_assert(c: u64, t: *const u8, tl: u64);
        pub fn sym_cover(t: *const u8, tl: u64);
        pub fn sym_policy(p: u64) -> u64;
        pub fn sym_end() -> !;
        pub fn sym_observe(t: *const u8, tl: u64, v: u64);
        pub fn sym_debug(t: *const u8, tl: u64, v: u64);
        pub fn sym_uf(kind: u64, i: *const u8, il: u64, o: *mut u8, ol: u64);
        pub fn sym_select(c: u64, a: *const u8, b: *const u8, o: *mut u8, n: u64);
        pub fn sym_mem_eq(a: *const u8, b: *const u8, n: u64) -> u64;
    }
}
pub type Key = [u8; 32];
pub fn bytes<const N: usize>(t: &str) -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { raw::sym_bytes(b.as_mut_ptr(), N as u64, t.as_ptr(), t.len() as u64) };
    b
}
pub fn vec(n: usize, t: &str) -> Vec<u8> {
    let mut b = vec![0u8; n];
    if n > 0 {
        unsafe { raw::sym_bytes(b.as_mut_ptr(), n as u64, t.as_ptr(), t.len() as u64) };
    }
    b
}
pub fn u64(t: &str) -> u64 {
    unsafe { raw::sym_u64(t.as_ptr(), t.len() as u64) }
}
pub fn u32(t: &str) -> u32 {
    u32::from_le_bytes(bytes::<4>(t))
}
pub fn u8(t: &str) -> u8 {
    bytes::<1>(t)[0]
}
/// A symbolic boolean (no fork).
pub fn flag(t: &str) -> bool {
    let v = u8(t);
    assume(v < 2);
    v == 1
}
/// One of 0..n; the paths fork here, the value is concrete afterwards.
pub fn choose(n: usize, t: &str) -> usize {
    unsafe { raw::sym_choose(n as u64, t.as_ptr(), t.len() as u64) as usize }
}
pub fn pick<T: Copy>(xs: &[T], t: &str) -> T {
    xs[choose(xs.len(), t)]
}
pub fn concretize(v: u64) -> u64 {
    unsafe { raw::sym_concretize(v) }
}
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c as u64) }
}
pub fn check(c: bool, id: &str) {
    unsafe { raw::sym_assert(c as u64, id.as_ptr(), id.len() as u64) }
}
pub fn cover(id: &str) {
    unsafe { raw::sym_cover(id.as_ptr(), id.len() as u64) }
}
pub fn policy(p: u64) -> u64 {
    unsafe { raw::sym_policy(p) }
}
pub fn end() -> ! {
    unsafe { raw::sym_end() }
}
pub fn observe(t: &str, v: u64) {
    unsafe { raw::sym_observe(t.as_ptr(), t.len() as u64, v) }
}
#[allow(dead_code)]
pub fn debug(t: &str, v: u64) {
    unsafe { raw::sym_debug(t.as_ptr(), t.len() as u64, v) }
}
pub fn uf<const N: usize>(kind: u64, i: &[u8]) -> [u8; N] {
    let mut o = [0u8; N];
    unsafe { raw::sym_uf(kind, i.as_ptr(), i.len() as u64, o.as_mut_ptr(), N as u64) };
    o
}
pub fn select<const N: usize>(c: bool, a: &[u8; N], b: &[u8; N]) -> [u8; N] {
    let mut o = [0u8; N];
    unsafe { raw::sym_select(c as u64, a.as_ptr(), b.as_ptr(), o.as_mut_ptr(), N as u64) };
    o
}
/// Equality of equally long byte strings as one term (no fork); different lengths are unequal.
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    unsafe { raw::sym_mem_eq(a.as_ptr(), b.as_ptr(), a.len() as u64) != 0 }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    u64::from_le_bytes(select(c, &a.to_le_bytes(), &b.to_le_bytes()))
}
