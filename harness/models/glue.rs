//! What the stand-in group crate needs from the harness.
use crate::sym;
use crate::world::*;
unsafe fn k(p: *const u8) -> [u8; 32] {
    *(p as *const [u8; 32])
}
#[no_mangle]
unsafe extern "C" fn toy_add(a: *const u8, b: *const u8, o: *mut u8) {
    *(o as *mut [u8; 32]) = toy::add(&k(a), &k(b));
}
#[no_mangle]
unsafe extern "C" fn toy_sub(a: *const u8, b: *const u8, o: *mut u8) {
    *(o as *mut [u8; 32]) = toy::sub(&k(a), &k(b));
}
#[no_mangle]
unsafe extern "C" fn toy_mul(a: *const u8, b: *const u8, o: *mut u8) {
    *(o as *mut [u8; 32]) = toy::mul(&k(a), &k(b));
}
#[no_mangle]
unsafe extern "C" fn toy_point_ok(a: *const u8) -> u64 {
    toy::point_ok(&k(a)) as u64
}
#[no_mangle]
unsafe extern "C" fn toy_reduce(i: *const u8, n: u64, o: *mut u8) {
    let m = core::slice::from_raw_parts(i, n as usize);
    if n == 32 {
        harness_reduce(i, o);
    } else {
        let h = sha(&[b"wide", m]);
        harness_reduce(h.as_ptr(), o);
    }
}
#[no_mangle]
unsafe extern "C" fn toy_map(i: *const u8, n: u64, o: *mut u8) {
    let m = core::slice::from_raw_parts(i, n as usize);
    let mut p: [u8; 32] = sym::uf(122, m);
    p[31] = 0x70 | (p[31] & 15);
    *(o as *mut [u8; 32]) = p;
}
