//! Native replay: run one harness entry of the real, optimised shared object on the inputs of a replay file.
//! usage: symreplay LIB.so ENTRY INPUTS   (INPUTS: lines "tag hex")
#[path = "../crypto.rs"]
#[allow(dead_code)]
mod crypto;
use std::ffi::{c_char, c_int, c_void, CString};
use std::io::Write;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
    fn signal(n: c_int, h: usize) -> usize;
    fn _exit(n: c_int) -> !;
    fn write(fd: c_int, p: *const u8, n: usize) -> isize;
}
struct St {
    inputs: Vec<(String, Vec<u8>)>,
    next: usize,
    policy: u64,
    failed: bool,
}
static mut ST: Option<St> = None;
#[allow(static_mut_refs)]
fn st() -> &'static mut St {
    unsafe { ST.as_mut().unwrap() }
}
fn say(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{}", s);
    let _ = o.flush();
}
unsafe fn s(p: *const u8, n: u64) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n as usize)).into_owned()
}
fn next(tag: &str, n: usize) -> Vec<u8> {
    let t = st();
    let mut v = if t.next < t.inputs.len() {
        let (g, v) = &t.inputs[t.next];
        if g != tag || v.len() != n {
            say(&format!("DIVERGED input {} is {}[{}], wanted {}[{}]", t.next, g, v.len(), tag, n));
            unsafe { _exit(0) }
        }
        v.clone()
    } else {
        vec![]
    };
    t.next += 1;
    v.resize(n, 0);
    v
}
#[no_mangle]
pub unsafe extern "C" fn sym_bytes(p: *mut u8, n: u64, t: *const u8, tl: u64) {
    let v = next(&s(t, tl), n as usize);
    std::ptr::copy_nonoverlapping(v.as_ptr(), p, n as usize);
}
#[no_mangle]
pub unsafe extern "C" fn sym_u64(t: *const u8, tl: u64) -> u64 {
    u64::from_le_bytes(next(&s(t, tl), 8).try_into().unwrap())
}
#[no_mangle]
pub unsafe extern "C" fn sym_choose(n: u64, t: *const u8, tl: u64) -> u64 {
    let v = sym_u64(t, tl);
    if v >= n {
        done("assumed")
    }
    v
}
#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn sym_is_const(_: u64) -> u64 {
    1
}
fn done(e: &str) -> ! {
    say(&format!("END {}", e));
    unsafe { _exit(0) }
}
#[no_mangle]
pub extern "C" fn sym_assume(c: u64) {
    if c == 0 {
        done("assumed")
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_assert(c: u64, t: *const u8, tl: u64) {
    if c == 0 {
        say(&format!("FAIL {}", s(t, tl)));
        st().failed = true;
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_cover(t: *const u8, tl: u64) {
    say(&format!("COVER {}", s(t, tl)));
}
#[no_mangle]
pub extern "C" fn sym_policy(p: u64) -> u64 {
    std::mem::replace(&mut st().policy, p)
}
#[no_mangle]
pub extern "C" fn sym_end() -> ! {
    done("completed")
}
#[no_mangle]
pub unsafe extern "C" fn sym_observe(t: *const u8, tl: u64, v: u64) {
    say(&format!("OBS {} {}", s(t, tl), v));
}
#[no_mangle]
pub unsafe extern "C" fn sym_debug(t: *const u8, tl: u64, v: u64) {
    say(&format!("DEBUG {} {:#x}", s(t, tl), v));
}
#[no_mangle]
pub unsafe extern "C" fn sym_uf(kind: u64, i: *const u8, il: u64, o: *mut u8, ol: u64) {
    let inp = if il == 0 { &[][..] } else { std::slice::from_raw_parts(i, il as usize) };
    let v = crypto::uf_native(kind, inp, ol as usize);
    std::ptr::copy_nonoverlapping(v.as_ptr(), o, ol as usize);
}
#[no_mangle]
pub unsafe extern "C" fn sym_select(c: u64, a: *const u8, b: *const u8, o: *mut u8, n: u64) {
    std::ptr::copy(if c != 0 { a } else { b }, o, n as usize);
}
#[no_mangle]
pub unsafe extern "C" fn sym_mem_eq(a: *const u8, b: *const u8, n: u64) -> u64 {
    (n == 0 || std::slice::from_raw_parts(a, n as usize) == std::slice::from_raw_parts(b, n as usize)) as u64
}
#[used]
static KEEP: [usize; 0] = [];
#[allow(static_mut_refs)]
extern "C" fn on_sig(n: c_int) {
    unsafe {
        let p = ST.as_ref().map(|x| x.policy).unwrap_or(9);
        let m: &[u8] = match (n, p) {
            (6, 0) => b"END aborted\n",
            (6, _) => b"FAIL unexpected-panic\nEND aborted\n",
            _ => b"FAIL memory-fault\nEND fault\n",
        };
        write(1, m.as_ptr(), m.len());
        _exit(0);
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    // keep the primitives in the dynamic symbol table
    let keep: [*const (); 15] = [
        sym_bytes as *const (), sym_u64 as *const (), sym_choose as *const (), sym_concretize as *const (), sym_is_const as *const (),
        sym_assume as *const (), sym_assert as *const (), sym_cover as *const (), sym_policy as *const (), sym_end as *const (),
        sym_observe as *const (), sym_debug as *const (), sym_uf as *const (), sym_select as *const (), sym_mem_eq as *const (),
    ];
    std::hint::black_box(&keep);
    let mut inputs = vec![];
    for l in std::fs::read_to_string(&a[3]).expect("inputs").lines() {
        if l.starts_with('#') || l.trim().is_empty() {
            continue;
        }
        let (t, h) = l.rsplit_once(' ').unwrap_or((l, ""));
        let v = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).expect("hex")).collect();
        inputs.push((t.to_string(), v));
    }
    unsafe {
        ST = Some(St { inputs, next: 0, policy: 1, failed: false });
        for n in [4, 6, 7, 8, 11] {
            signal(n, on_sig as *const () as usize);
        }
        let f = CString::new(a[1].clone()).unwrap();
        let h = dlopen(f.as_ptr(), 2);
        if h.is_null() {
            eprintln!("dlopen: {:?}", std::ffi::CStr::from_ptr(dlerror()));
            std::process::exit(3);
        }
        let e = CString::new(a[2].clone()).unwrap();
        let p = dlsym(h, e.as_ptr());
        if p.is_null() {
            eprintln!("no entry {}", a[2]);
            std::process::exit(3);
        }
        // std installs its own SIGSEGV handler late in some configurations: set ours again
        signal(11, on_sig as *const () as usize);
        let g: extern "C" fn() = std::mem::transmute(p);
        let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || g()).unwrap();
        let _ = t.join();
    }
    done("completed");
}
