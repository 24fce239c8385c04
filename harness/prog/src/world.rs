//! A miniature Solana runtime: transactions against the program's real entrypoint, system program, sysvars, PDAs.
//! Hashes and address derivation are uninterpreted functions of the engine (the real functions on concrete arguments
//! and in native replay).
use crate::sym::{self, Key};
use solana_program::account_info::AccountInfo;
use solana_program::instruction::AccountMeta;
use solana_program::pubkey::Pubkey;

pub const UF_SHA: u64 = 1;
pub const UF_PDA: u64 = 2;
pub const UF_BUMP: u64 = 103;
pub const UF_CURVE: u64 = 104;
pub const UF_REDUCE: u64 = 120;

pub fn vrf() -> Key {
    ephemeral_vrf_api::ID.to_bytes()
}
pub const SYSTEM: Key = [0u8; 32];
pub fn sysvar_owner() -> Key {
    solana_program::sysvar::ID.to_bytes()
}
pub fn slot_hashes() -> Key {
    solana_program::sysvar::slot_hashes::ID.to_bytes()
}
pub fn default_queue() -> Key {
    ephemeral_vrf_api::prelude::DEFAULT_EPHEMERAL_QUEUE.to_bytes()
}

#[derive(Clone)]
pub struct Acct {
    pub key: Key,
    pub owner: Key,
    pub lamports: u64,
    pub data: Vec<u8>,
    pub signer: bool,
    pub writable: bool,
    pub executable: bool,
}
impl Acct {
    pub fn new(key: Key, owner: Key, lamports: u64, data: Vec<u8>) -> Self {
        Acct { key, owner, lamports, data, signer: false, writable: false, executable: false }
    }
    pub fn s(mut self) -> Self {
        self.signer = true;
        self
    }
    pub fn w(mut self) -> Self {
        self.writable = true;
        self
    }
    pub fn sw(self) -> Self {
        self.s().w()
    }
    pub fn same(&self, o: &Acct) -> bool {
        sym::eq(&self.owner, &o.owner) & (self.lamports == o.lamports) & sym::eq(&self.data, &o.data)
    }
}
pub struct Cpi {
    pub program: Key,
    pub metas: Vec<(Key, bool, bool)>, // key, signer, writable
    pub data: Vec<u8>,
    pub signers: Vec<Key>, // PDAs that sign through their seeds
}
pub struct World {
    pub slot: u64,
    pub time: i64,
    pub cpis: Vec<Cpi>,
    pub program: Key,                        // the running program
    pub priv_: Vec<(Key, bool, bool, bool)>, // the running instruction's accounts: key, signer, writable, executable
    pub failed: bool,
    pub strict: bool, // a panic of the program is a violation (the harness expects success)
    pub foreign: Option<fn(&Cpi, &[AccountInfo]) -> bool>, // semantics of calls into other programs
    pub home: Option<(Key, u8)>, // the oracle and index whose queue is the default one (nobody's, unless set)
    pub salt: u8,                 // selects the function that hashes long messages
    pub reduced: Vec<(Key, Key)>, // every reduction modulo the group order: argument, result
}
impl World {
    /// A program starts to run on these accounts.
    pub fn enter(&mut self, program: &Key, accts: &[Acct]) {
        self.cpis = vec![];
        self.failed = false;
        self.program = *program;
        self.priv_ = accts.iter().map(|a| (a.key, a.signer, a.writable, a.executable)).collect();
    }
}
static mut W: World = World { slot: 0, time: 0, cpis: vec![], program: [0; 32], priv_: vec![], failed: false, strict: false, foreign: None, home: None, salt: 0, reduced: vec![] };
#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { &mut W }
}

pub fn le(b: &[u8]) -> u64 {
    let mut x = [0u8; 8];
    x[..b.len()].copy_from_slice(b);
    u64::from_le_bytes(x)
}
pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}
pub fn sha(parts: &[&[u8]]) -> Key {
    sym::uf(UF_SHA, &cat(parts))
}
pub fn create_pda(seeds: &[u8], bump: u8, program: &Key) -> Key {
    let m = cat(&[seeds, &[bump], program]);
    if let Some((o, i)) = w().home {
        let s = cat(&[b"queue", &o, &[i]]);
        let b: [u8; 1] = sym::uf(UF_BUMP, &cat(&[&s, &vrf()]));
        if sym::eq(&m, &cat(&[&s, &b, &vrf()])) {
            return default_queue();
        }
    }
    sym::uf(UF_PDA, &m)
}
/// The canonical address for seeds (given concatenated, as the runtime hashes them).
pub fn pda(seeds: &[&[u8]], program: &Key) -> (Key, u8) {
    let s = cat(seeds);
    let b: [u8; 1] = sym::uf(UF_BUMP, &cat(&[&s, program]));
    let k = create_pda(&s, b[0], program);
    (k, b[0])
}
/// Makes this oracle's queue of this index the default one: no address that a replay could choose has the default queue's
/// key as its queue address, so the stand-in for the address function is given that value there.
pub fn make_home(oracle: &Key, index: u8) {
    w().home = Some((*oracle, index));
}
pub fn queue_pda(oracle: &Key, index: u8) -> Key {
    pda(&[b"queue", oracle, &[index]], &vrf()).0
}
pub fn oracle_pda(oracle: &Key) -> Key {
    pda(&[b"oracle", oracle], &vrf()).0
}
pub fn oracles_pda() -> Key {
    pda(&[b"oracles"], &vrf()).0
}
pub fn identity_pda() -> Key {
    pda(&[b"identity"], &vrf()).0
}
/// Rent-exempt minimum (the cluster's constants).
pub fn rent_min(n: usize) -> u64 {
    (128 + n as u64) * 3480 * 2
}

const PAD: usize = 10240;
fn pad8(n: usize) -> usize {
    (n + 7) & !7
}
pub const RUNTIME_REJECTS: u64 = u64::MAX;

/// One transaction holding one instruction. `dup[i] = Some(j)`: account i is account j listed again.
/// On Err nothing has changed; accts keep their pre-state.
pub fn exec(accts: &mut Vec<Acct>, dup: &[Option<usize>], ix: &[u8]) -> Result<(), u64> {
    exec_as(&vrf(), accts, dup, ix)
}
pub fn exec_as(pid: &Key, accts: &mut Vec<Acct>, dup: &[Option<usize>], ix: &[u8]) -> Result<(), u64> {
    let wd = w();
    wd.enter(pid, accts);
    let isdup = |i: usize| dup.get(i).copied().flatten();
    // total size
    let mut n = 8;
    for (i, a) in accts.iter().enumerate() {
        n += if isdup(i).is_some() { 8 } else { 88 + pad8(a.data.len() + PAD) + 8 };
    }
    n += 8 + ix.len() + 32;
    let mut buf = vec![0u64; n / 8 + 2];
    let b: &mut [u8] = unsafe { core::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, buf.len() * 8) };
    b[..8].copy_from_slice(&(accts.len() as u64).to_le_bytes());
    let mut o = 8;
    let mut offs = vec![];
    for (i, a) in accts.iter().enumerate() {
        offs.push(o);
        if let Some(j) = isdup(i) {
            b[o] = j as u8;
            o += 8;
            continue;
        }
        b[o] = 255;
        b[o + 1] = a.signer as u8;
        b[o + 2] = a.writable as u8;
        b[o + 3] = a.executable as u8;
        b[o + 8..o + 40].copy_from_slice(&a.key);
        b[o + 40..o + 72].copy_from_slice(&a.owner);
        b[o + 72..o + 80].copy_from_slice(&a.lamports.to_le_bytes());
        b[o + 80..o + 88].copy_from_slice(&(a.data.len() as u64).to_le_bytes());
        b[o + 88..o + 88 + a.data.len()].copy_from_slice(&a.data);
        o += 88 + pad8(a.data.len() + PAD) + 8;
    }
    b[o..o + 8].copy_from_slice(&(ix.len() as u64).to_le_bytes());
    b[o + 8..o + 8 + ix.len()].copy_from_slice(ix);
    b[o + 8 + ix.len()..o + 40 + ix.len()].copy_from_slice(pid);
    let old = sym::policy(if wd.strict { 1 } else { 0 });
    let code = unsafe { ephemeral_vrf_program::entrypoint(b.as_mut_ptr()) };
    sym::policy(old);
    sym::observe("code", code);
    if code != 0 {
        return Err(code);
    }
    if w().failed {
        return Err(RUNTIME_REJECTS);
    }
    // read back and apply the runtime's own rules for what a program may do to accounts
    let mut post = accts.clone();
    let mut ok = true;
    let (mut sum0, mut sum1) = (0u64, 0u64);
    for i in 0..accts.len() {
        if let Some(j) = isdup(i) {
            let x = post[j].clone();
            post[i].lamports = x.lamports;
            post[i].owner = x.owner;
            post[i].data = x.data;
            continue;
        }
        let o = offs[i];
        let a = &accts[i];
        let p = &mut post[i];
        p.owner.copy_from_slice(&b[o + 40..o + 72]);
        p.lamports = le(&b[o + 72..o + 80]);
        let len = sym::concretize(le(&b[o + 80..o + 88])) as usize;
        if len > a.data.len() + PAD {
            return Err(RUNTIME_REJECTS);
        }
        p.data = b[o + 88..o + 88 + len].to_vec();
        let touched = !p.same(a);
        ok &= a.writable | !touched;
        sum0 = sum0.wrapping_add(a.lamports);
        sum1 = sum1.wrapping_add(p.lamports);
    }
    ok &= sum0 == sum1;
    // changes to accounts the program does not own are only possible through CPI; checked per CPI below for lamports and
    // data, here for what happened outside of one
    for i in 0..accts.len() {
        if isdup(i).is_some() {
            continue;
        }
        let (a, p) = (&accts[i], &post[i]);
        let cpi_touched = w().cpis.iter().fold(false, |x, c| x | c.metas.iter().fold(false, |y, m| y | (m.2 & sym::eq(&m.0, &a.key))));
        let own = sym::eq(&a.owner, pid);
        ok &= own | cpi_touched | (sym::eq(&a.data, &p.data) & sym::eq(&a.owner, &p.owner) & (p.lamports >= a.lamports));
    }
    if !ok {
        sym::observe("runtime-rejects", 1);
        return Err(RUNTIME_REJECTS);
    }
    *accts = post;
    Ok(())
}

// ---------------------------------------------------------------- system calls
unsafe fn slices(p: *const u8, n: u64) -> Vec<u8> {
    let s = core::slice::from_raw_parts(p as *const &[u8], n as usize);
    cat(s)
}
unsafe fn bad_seeds(p: *const u8, n: u64) -> bool {
    let s = core::slice::from_raw_parts(p as *const &[u8], n as usize);
    s.len() > 16 || s.iter().any(|x| x.len() > 32)
}
unsafe fn key(p: *const u8) -> Key {
    *(p as *const Key)
}
#[no_mangle]
pub unsafe extern "C" fn sol_try_find_program_address(s: *const u8, n: u64, p: *const u8, a: *mut u8, b: *mut u8) -> u64 {
    if bad_seeds(s, n) {
        return 1;
    }
    let (k, bump) = pda(&[&slices(s, n)], &key(p));
    *(a as *mut Key) = k;
    *b = bump;
    0
}
#[no_mangle]
pub unsafe extern "C" fn sol_create_program_address(s: *const u8, n: u64, p: *const u8, a: *mut u8) -> u64 {
    if bad_seeds(s, n) {
        return 1;
    }
    let v = slices(s, n);
    let pk = key(p);
    let (seeds, bump) = v.split_at(v.len().saturating_sub(1));
    if bump.is_empty() {
        return 1;
    }
    *(a as *mut Key) = create_pda(seeds, bump[0], &pk);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sol_sha256(v: *const u8, n: u64, o: *mut u8) -> u64 {
    let m = slices(v, n);
    *(o as *mut Key) = if w().salt != 0 && m.len() > 100 { sha(&[&[w().salt], b"salt", &m]) } else { sym::uf(UF_SHA, &m) };
    0
}
/// Reduction of a 256-bit string modulo the group order, as curve25519-dalek's scalars do it.
#[no_mangle]
pub unsafe extern "C" fn harness_reduce(i: *const u8, o: *mut u8) {
    let k = key(i);
    let r = toy::reduce(&k);
    w().reduced.push((k, r));
    *(o as *mut Key) = r;
}
#[no_mangle]
pub unsafe extern "C" fn sol_keccak256(v: *const u8, n: u64, o: *mut u8) -> u64 {
    *(o as *mut Key) = sym::uf(3, &slices(v, n));
    0
}
#[repr(C)]
struct RentRaw {
    a: u64,
    b: f64,
    c: u8,
}
#[no_mangle]
pub unsafe extern "C" fn sol_get_rent_sysvar(p: *mut u8) -> u64 {
    *(p as *mut RentRaw) = RentRaw { a: 3480, b: 2.0, c: 50 };
    0
}
#[no_mangle]
pub unsafe extern "C" fn sol_get_clock_sysvar(p: *mut u8) -> u64 {
    let c = p as *mut u64;
    *c = w().slot;
    *c.add(1) = 0;
    *c.add(2) = 0;
    *c.add(3) = 0;
    *c.add(4) = w().time as u64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn sol_get_sysvar(_: *const u8, _: *mut u8, _: u64, _: u64) -> u64 {
    1
}
#[no_mangle]
pub extern "C" fn sol_log_(_: *const u8, _: u64) {}
#[no_mangle]
pub extern "C" fn sol_log_64_(_: u64, _: u64, _: u64, _: u64, _: u64) {}
#[no_mangle]
pub extern "C" fn sol_log_pubkey(_: *const u8) {}
#[no_mangle]
pub extern "C" fn sol_log_compute_units_() {}
#[no_mangle]
pub extern "C" fn sol_log_data(_: *const u8, _: u64) {}
#[no_mangle]
pub extern "C" fn sol_set_return_data(_: *const u8, _: u64) {}
#[no_mangle]
pub extern "C" fn sol_get_return_data(_: *mut u8, _: u64, _: *mut u8) -> u64 {
    0
}
#[no_mangle]
pub extern "C" fn sol_get_stack_height() -> u64 {
    1
}
#[no_mangle]
pub extern "C" fn sol_remaining_compute_units() -> u64 {
    200_000
}
#[no_mangle]
pub unsafe extern "C" fn sol_memset_(p: *mut u8, c: u8, n: u64) {
    core::ptr::write_bytes(p, c, n as usize)
}
#[no_mangle]
pub unsafe extern "C" fn sol_memcpy_(d: *mut u8, s: *const u8, n: u64) {
    core::ptr::copy(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C" fn sol_memmove_(d: *mut u8, s: *const u8, n: u64) {
    core::ptr::copy(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C" fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, r: *mut i32) {
    let (x, y) = (core::slice::from_raw_parts(a, n as usize), core::slice::from_raw_parts(b, n as usize));
    *r = if sym::eq(x, y) { 0 } else if x < y { -1 } else { 1 };
}
#[no_mangle]
pub extern "C" fn sol_panic_(_: *const u8, _: u64, _: u64, _: u64) {
    std::process::abort()
}

// ---------------------------------------------------------------- curve: (Z/256)^31 x Z/16, byte-wise
/// A stand-in group with the algebra of ristretto scalar multiplication (a module over the scalars, generated by the
/// basepoint) in which every byte of every operand matters. Byte i of an encoding holds component i shifted by byte i of
/// the basepoint's encoding, so the basepoint is (1,..,1). Encodings whose last byte is not 0x70..0x7f are not points,
/// scalars whose last byte exceeds 0x10 are not canonical.
pub mod toy {
    pub type P = [u8; 32];
    pub fn base() -> P {
        ephemeral_vrf_api::prelude::RISTRETTO_BASEPOINT_POINT.0
    }
    pub fn point_ok(p: &P) -> bool {
        p[31] & 0xf0 == 0x70
    }
    pub fn scalar_ok(s: &P) -> bool {
        s[31] <= 0x10
    }
    fn un(p: &P) -> P {
        let g = base();
        let mut o = [0u8; 32];
        for i in 0..32 {
            o[i] = p[i].wrapping_sub(g[i]).wrapping_add(1);
        }
        o
    }
    fn re(e: &P) -> P {
        let g = base();
        let mut o = [0u8; 32];
        for i in 0..32 {
            o[i] = e[i].wrapping_add(g[i]).wrapping_sub(1);
        }
        o[31] = 0x70 | (o[31] & 15);
        o
    }
    fn zip(a: &P, b: &P, f: fn(u8, u8) -> u8) -> P {
        let mut o = [0u8; 32];
        for i in 0..32 {
            o[i] = f(a[i], b[i]);
        }
        o
    }
    pub fn add(a: &P, b: &P) -> P {
        re(&zip(&un(a), &un(b), u8::wrapping_add))
    }
    pub fn sub(a: &P, b: &P) -> P {
        re(&zip(&un(a), &un(b), u8::wrapping_sub))
    }
    /// For claims about hashing only: every multiple is taken of the basepoint.
    pub static mut FLAT: bool = false;
    pub fn mul(s: &P, p: &P) -> P {
        let p = if unsafe { FLAT } { base() } else { *p };
        re(&zip(s, &un(&p), u8::wrapping_mul))
    }
    /// scalar arithmetic
    pub fn smul(a: &P, b: &P) -> P {
        zip(a, b, u8::wrapping_mul)
    }
    pub fn sadd(a: &P, b: &P) -> P {
        let mut o = zip(a, b, u8::wrapping_add);
        o[31] &= 15;
        o
    }
    pub fn reduce(h: &P) -> P {
        let r: P = crate::sym::uf(super::UF_REDUCE, h);
        crate::sym::assume(scalar_ok(&r));
        r
    }
}
#[no_mangle]
pub unsafe extern "C" fn sol_curve_group_op(curve: u64, op: u64, a: *const u8, b: *const u8, o: *mut u8) -> u64 {
    if curve != 1 {
        return 1;
    }
    let (x, y) = (key(a), key(b));
    let ok = if op == 2 { toy::scalar_ok(&x) } else { toy::point_ok(&x) } & toy::point_ok(&y);
    if !ok {
        return 1;
    }
    *(o as *mut Key) = match op {
        0 => toy::add(&x, &y),
        1 => toy::sub(&x, &y),
        2 => toy::mul(&x, &y),
        _ => return 1,
    };
    0
}
pub fn on_curve(k: &Key) -> bool {
    sym::uf::<1>(UF_CURVE, k)[0] & 1 == 1
}
#[no_mangle]
pub unsafe extern "C" fn sol_curve_validate_point(curve: u64, p: *const u8, _: *mut u8) -> u64 {
    let k = key(p);
    let ok = if curve == 1 { toy::point_ok(&k) } else { on_curve(&k) };
    !ok as u64
}

// ---------------------------------------------------------------- cross-program invocation
#[repr(C)]
struct StableVec<T> {
    addr: *const T,
    cap: u64,
    len: u64,
}
#[repr(C)]
struct StableIx {
    accounts: StableVec<AccountMeta>,
    data: StableVec<u8>,
    program_id: Pubkey,
}
fn fail() -> u64 {
    w().failed = true;
    1
}
unsafe fn set_data_len(a: &AccountInfo, n: usize) {
    let mut d = a.data.borrow_mut();
    let p = d.as_mut_ptr();
    let old = d.len();
    *(p.sub(8) as *mut u64) = n as u64;
    *d = core::slice::from_raw_parts_mut(p, n);
    if n > old {
        core::ptr::write_bytes(p.add(old), 0, n - old);
    }
}
unsafe fn set_owner(a: &AccountInfo, k: &Key) {
    core::ptr::write_volatile(a.owner as *const Pubkey as usize as *mut Pubkey, Pubkey::new_from_array(*k));
}
#[no_mangle]
pub unsafe extern "C" fn sol_invoke_signed_rust(ix: *const u8, infos: *const u8, ninfos: u64, seeds: *const u8, nseeds: u64) -> u64 {
    let ix = &*(ix as *const StableIx);
    let metas = core::slice::from_raw_parts(ix.accounts.addr, ix.accounts.len as usize);
    let data = core::slice::from_raw_parts(ix.data.addr, ix.data.len as usize);
    let infos = core::slice::from_raw_parts(infos as *const AccountInfo, ninfos as usize);
    let seeds = core::slice::from_raw_parts(seeds as *const &[&[u8]], nseeds as usize);
    let mut signers = vec![];
    for s in seeds {
        let v = cat(s);
        if s.len() > 16 || s.iter().any(|x| x.len() > 32) || v.is_empty() {
            return fail();
        }
        signers.push(create_pda(&v[..v.len() - 1], v[v.len() - 1], &w().program));
    }
    let wd = w();
    // privileges may not be escalated, every account and the called program must be known to the caller
    let mut ok = false;
    for (pk, ..) in wd.priv_.iter() {
        ok |= sym::eq(pk, ix.program_id.as_ref());
    }
    for m in metas {
        let k = m.pubkey.to_bytes();
        let (mut known, mut s, mut wr, mut given) = (false, false, false, false);
        for (pk, ps, pw, px) in wd.priv_.iter() {
            let e = sym::eq(pk, &k);
            known |= e;
            s |= e & *ps;
            wr |= e & *pw;
            given |= e & *px; // executable accounts need not be handed over
        }
        for i in infos {
            given |= sym::eq(i.key.as_ref(), &k);
        }
        for g in &signers {
            s |= sym::eq(g, &k);
        }
        ok &= known & given & (!m.is_signer | s) & (!m.is_writable | wr);
    }
    if !ok {
        return fail();
    }
    let c = Cpi {
        program: ix.program_id.to_bytes(),
        metas: metas.iter().map(|m| (m.pubkey.to_bytes(), m.is_signer, m.is_writable)).collect(),
        data: data.to_vec(),
        signers,
    };
    let sys = sym::eq(&c.program, &SYSTEM);
    if sys {
        let find = |n: usize| -> Option<&AccountInfo> {
            let k = metas.get(n)?.pubkey.to_bytes();
            infos.iter().find(|i| sym::eq(i.key.as_ref(), &k))
        };
        let tag = if data.len() >= 4 { sym::concretize(le(&data[..4])) } else { 99 };
        let good = match tag {
            0 if data.len() == 52 => (|| {
                let (f, t) = (find(0)?, find(1)?);
                let (lam, space) = (le(&data[4..12]), le(&data[12..20]));
                let mut owner = [0u8; 32];
                owner.copy_from_slice(&data[20..52]);
                let okk = metas[0].is_signer & metas[1].is_signer & metas[0].is_writable & metas[1].is_writable;
                let fresh = (t.lamports() == 0) & sym::eq(t.owner.as_ref(), &SYSTEM);
                let pay = (f.lamports() >= lam) & sym::eq(f.owner.as_ref(), &SYSTEM);
                let space = sym::concretize(space) as usize;
                if !(okk & fresh & pay) || !t.data_is_empty() || !f.data_is_empty() || space > PAD {
                    return None;
                }
                **f.lamports.borrow_mut() -= lam;
                **t.lamports.borrow_mut() += lam;
                set_data_len(t, space);
                set_owner(t, &owner);
                Some(())
            })(),
            1 if data.len() == 36 => (|| {
                let t = find(0)?;
                let mut owner = [0u8; 32];
                owner.copy_from_slice(&data[4..36]);
                if !(metas[0].is_signer & metas[0].is_writable & sym::eq(t.owner.as_ref(), &SYSTEM)) {
                    return None;
                }
                set_owner(t, &owner);
                Some(())
            })(),
            2 if data.len() == 12 => (|| {
                let (f, t) = (find(0)?, find(1)?);
                let lam = le(&data[4..12]);
                let okk = metas[0].is_signer & metas[0].is_writable & metas[1].is_writable;
                if !(okk & (f.lamports() >= lam) & sym::eq(f.owner.as_ref(), &SYSTEM)) || !f.data_is_empty() {
                    return None;
                }
                **f.lamports.borrow_mut() -= lam;
                **t.lamports.borrow_mut() += lam;
                Some(())
            })(),
            8 if data.len() == 12 => (|| {
                let t = find(0)?;
                let space = sym::concretize(le(&data[4..12])) as usize;
                if !(metas[0].is_signer & metas[0].is_writable & sym::eq(t.owner.as_ref(), &SYSTEM)) || !t.data_is_empty() || space > PAD {
                    return None;
                }
                set_data_len(t, space);
                Some(())
            })(),
            _ => None,
        };
        wd.cpis.push(c);
        return if good.is_some() { 0 } else { fail() };
    }
    let good = match wd.foreign {
        Some(f) => f(&c, infos),
        None => true,
    };
    wd.cpis.push(c);
    if good { 0 } else { fail() }
}
