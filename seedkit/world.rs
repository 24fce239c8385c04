//! A miniature Solana runtime for demonstrations: one transaction at a time against the program's real
//! `process_instruction`, with the system program, the clock, rent and recorded cross-program calls.
#![allow(dead_code, static_mut_refs, invalid_reference_casting)]
pub use ephemeral_vrf_api::prelude::*;
pub use solana_program::account_info::AccountInfo;
pub use solana_program::hash::hash;
pub use solana_program::instruction::{AccountMeta as Meta, Instruction as Ix};
pub use solana_program::pubkey::Pubkey as Key;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Key,
    pub data: Vec<u8>,
}
#[derive(Clone)]
pub struct Call {
    pub ix: Ix,
}
pub struct World {
    pub accts: BTreeMap<Key, Acct>,
    pub slot: u64,
    pub time: i64,
    pub calls: Vec<Call>,
    pub privs: Vec<(Key, bool, bool)>,
    pub bad: bool,
}
static mut W: World = World { accts: BTreeMap::new(), slot: 0, time: 0, calls: vec![], privs: vec![], bad: false };
pub fn w() -> &'static mut World {
    unsafe { &mut W }
}
pub const SYS: Key = Key::new_from_array([0; 32]);
pub fn k(n: u8) -> Key {
    Key::new_from_array([n; 32])
}
struct Stubs;
impl solana_sysvar::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _: &str) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut solana_program::clock::Clock) = solana_program::clock::Clock { slot: w().slot, unix_timestamp: w().time, ..Default::default() } };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut solana_program::rent::Rent) = Default::default() };
        0
    }
    fn sol_invoke_signed(&self, ix: &Ix, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> solana_program::entrypoint::ProgramResult {
        use solana_program::program_error::ProgramError as E;
        let signers: Vec<Key> = seeds.iter().map(|s| Key::create_program_address(s, &ephemeral_vrf_api::ID).unwrap()).collect();
        for m in &ix.accounts {
            let p = w().privs.iter().filter(|p| p.0 == m.pubkey).fold((false, false, false), |a, p| (true, a.1 | p.1, a.2 | p.2));
            if !p.0 || (m.is_signer && !p.1 && !signers.contains(&m.pubkey)) || (m.is_writable && !p.2) {
                w().bad = true;
                return Err(E::MissingRequiredSignature);
            }
        }
        w().calls.push(Call { ix: ix.clone() });
        if ix.program_id != SYS {
            return Ok(());
        }
        let f = |n: usize| infos.iter().find(|i| *i.key == ix.accounts[n].pubkey).unwrap();
        let num = |o: usize| u64::from_le_bytes(ix.data[o..o + 8].try_into().unwrap());
        let pay = |l: u64| {
            if f(0).lamports() < l || *f(0).owner != SYS {
                w().bad = true;
                return Err(E::InsufficientFunds);
            }
            **f(0).lamports.borrow_mut() -= l;
            **f(1).lamports.borrow_mut() += l;
            Ok(())
        };
        let own = |a: &AccountInfo, o: usize| unsafe { std::ptr::write_volatile(a.owner as *const Key as usize as *mut Key, Key::try_from(&ix.data[o..o + 32]).unwrap()) };
        let grow = |a: &AccountInfo, n: u64| a.resize(n as usize).unwrap();
        match ix.data[0] {
            0 => {
                pay(num(4))?;
                grow(f(1), num(12));
                own(f(1), 20);
            }
            1 => own(f(0), 4),
            2 => pay(num(4))?,
            8 => grow(f(0), num(4)),
            _ => return Err(E::InvalidInstructionData),
        }
        Ok(())
    }
}
pub fn start(slot: u64) {
    solana_sysvar::program_stubs::set_syscall_stubs(Box::new(Stubs));
    w().slot = slot;
    w().time = 1_700_000_000;
    put(solana_program::sysvar::slot_hashes::ID, Acct { lamports: 1, owner: solana_program::sysvar::ID, data: vec![7; 64] });
}
pub fn put(key: Key, a: Acct) {
    w().accts.insert(key, a);
}
pub fn fund(key: Key, lamports: u64) {
    put(key, Acct { lamports, owner: SYS, data: vec![] });
}
pub fn get(key: &Key) -> Acct {
    w().accts.get(key).cloned().unwrap_or(Acct { lamports: 0, owner: SYS, data: vec![] })
}
/// Runs one transaction of one instruction; the accounts change only if it is accepted.
pub fn run(ix: &Ix) -> Result<(), String> {
    let mut b: Vec<u64> = vec![0; 8];
    {
        let n: usize = 64 + ix.data.len() + ix.accounts.iter().map(|m| get(&m.pubkey).data.len() + 10240 + 128).sum::<usize>();
        b.resize(n / 8 + 8, 0);
    }
    let buf: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(b.as_mut_ptr() as *mut u8, b.len() * 8) };
    buf[..8].copy_from_slice(&(ix.accounts.len() as u64).to_le_bytes());
    let mut o = 8;
    let mut offs = vec![];
    for (i, m) in ix.accounts.iter().enumerate() {
        if let Some(j) = ix.accounts[..i].iter().position(|x| x.pubkey == m.pubkey) {
            buf[o] = j as u8;
            offs.push(None);
            o += 8;
            continue;
        }
        offs.push(Some(o));
        let a = get(&m.pubkey);
        buf[o] = 255;
        buf[o + 1] = ix.accounts.iter().any(|x| x.pubkey == m.pubkey && x.is_signer) as u8;
        buf[o + 2] = ix.accounts.iter().any(|x| x.pubkey == m.pubkey && x.is_writable) as u8;
        buf[o + 8..o + 40].copy_from_slice(m.pubkey.as_ref());
        buf[o + 40..o + 72].copy_from_slice(a.owner.as_ref());
        buf[o + 72..o + 80].copy_from_slice(&a.lamports.to_le_bytes());
        buf[o + 80..o + 88].copy_from_slice(&(a.data.len() as u64).to_le_bytes());
        buf[o + 88..o + 88 + a.data.len()].copy_from_slice(&a.data);
        o += 88 + ((a.data.len() + 7) & !7) + 10240 + 8;
    }
    buf[o..o + 8].copy_from_slice(&(ix.data.len() as u64).to_le_bytes());
    buf[o + 8..o + 8 + ix.data.len()].copy_from_slice(&ix.data);
    buf[o + 8 + ix.data.len()..o + 40 + ix.data.len()].copy_from_slice(ix.program_id.as_ref());
    w().calls = vec![];
    w().bad = false;
    w().privs = ix.accounts.iter().map(|m| (m.pubkey, m.is_signer, m.is_writable)).collect();
    let p = buf.as_mut_ptr();
    let r = std::panic::catch_unwind(|| {
        let (id, infos, data) = unsafe { solana_program::entrypoint::deserialize(p) };
        ephemeral_vrf_program::process_instruction(id, &infos, data)
    });
    match r {
        Err(_) => return Err("the program panicked".into()),
        Ok(Err(e)) => return Err(format!("{e:?}")),
        Ok(Ok(())) if w().bad => return Err("a call was refused".into()),
        _ => {}
    }
    for (i, m) in ix.accounts.iter().enumerate() {
        let Some(o) = offs[i] else { continue };
        let num = |o: usize| u64::from_le_bytes(buf[o..o + 8].try_into().unwrap());
        let n = num(o + 80) as usize;
        put(m.pubkey, Acct { lamports: num(o + 72), owner: Key::try_from(&buf[o + 40..o + 72]).unwrap(), data: buf[o + 88..o + 88 + n].to_vec() });
    }
    Ok(())
}

// ------------------------------------------------------------------ the usual cast
pub fn oracle_keypair(n: u8) -> solana_sdk::signature::Keypair {
    solana_sdk::signature::Keypair::new_from_array([n; 32])
}
pub fn key_of(kp: &solana_sdk::signature::Keypair) -> Key {
    solana_sdk::signer::Signer::pubkey(kp)
}
pub fn queue_of(oracle: &Key, index: u8) -> Key {
    oracle_queue_pda(oracle, index).0
}
/// A registered oracle with an empty queue of `bytes` bytes at `index`.
pub fn oracle_with_queue(kp: &solana_sdk::signature::Keypair, index: u8, bytes: usize) -> (Key, Key) {
    let o = key_of(kp);
    let (_, pk) = ephemeral_vrf::vrf::generate_vrf_keypair(kp);
    let mut d = vec![1u8, 0, 0, 0, 0, 0, 0, 0];
    d.extend_from_slice(pk.compress().as_bytes());
    d.extend_from_slice(&1u64.to_le_bytes());
    d.extend_from_slice(&1u64.to_le_bytes());
    put(oracle_data_pda(&o).0, Acct { lamports: 10_000_000, owner: ephemeral_vrf_api::ID, data: d });
    let mut q = vec![3u8, 0, 0, 0, 0, 0, 0, 0];
    q.resize(bytes, 0);
    q[16] = index;
    put(queue_of(&o, index), Acct { lamports: 100_000_000, owner: ephemeral_vrf_api::ID, data: q });
    fund(o, 1_000_000_000);
    (o, queue_of(&o, index))
}
pub fn request(queue: Key, program: Key, seed: u8, high: bool, disc: &[u8], metas: &[(Key, bool)], args: &[u8]) -> Ix {
    fund(k(200), 1_000_000_000);
    let id = Key::find_program_address(&[b"identity"], &program).0;
    let mut ix = Ix {
        program_id: ephemeral_vrf_api::ID,
        accounts: vec![Meta::new(k(200), true), Meta::new_readonly(id, true), Meta::new(queue, false), Meta::new_readonly(SYS, false), Meta::new_readonly(solana_program::sysvar::slot_hashes::ID, false)],
        data: vec![if high { 3 } else { 8 }, 0, 0, 0, 0, 0, 0, 0],
    };
    let d = &mut ix.data;
    d.extend_from_slice(&[seed; 32]);
    d.extend_from_slice(program.as_ref());
    d.extend_from_slice(&(disc.len() as u32).to_le_bytes());
    d.extend_from_slice(disc);
    d.extend_from_slice(&(metas.len() as u32).to_le_bytes());
    for m in metas {
        d.extend_from_slice(m.0.as_ref());
        d.extend_from_slice(&[0, m.1 as u8]);
    }
    d.extend_from_slice(&(args.len() as u32).to_le_bytes());
    d.extend_from_slice(args);
    ix
}
/// The pending requests, as the library reads them.
pub fn items(queue: &Key) -> Vec<QueueItem> {
    let mut a = get(queue);
    let mut aligned: Vec<u64> = vec![0; a.data.len() / 8 + 1];
    let b: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(aligned.as_mut_ptr() as *mut u8, a.data.len()) };
    b.copy_from_slice(&a.data);
    a.data.clear();
    QueueAccount::load(&mut b[8..]).unwrap().iter_items().collect()
}
/// The oracle's fulfilment of a request, honestly proved.
pub fn fulfil(kp: &solana_sdk::signature::Keypair, queue: Key, item: &QueueItem, metas: &[(Key, bool)]) -> Ix {
    let (sk, pk) = ephemeral_vrf::vrf::generate_vrf_keypair(kp);
    let (out, (cb, ch, s)) = ephemeral_vrf::vrf::compute_vrf(sk, &item.id);
    let _ = pk;
    let mut ix = provide_randomness(
        key_of(kp),
        queue,
        Key::new_from_array(item.callback_program_id),
        item.id,
        solana_curve25519::ristretto::PodRistrettoPoint(out.to_bytes()),
        solana_curve25519::ristretto::PodRistrettoPoint(cb.to_bytes()),
        solana_curve25519::ristretto::PodRistrettoPoint(ch.to_bytes()),
        solana_curve25519::scalar::PodScalar(s.to_bytes()),
    );
    for m in metas {
        ix.accounts.push(Meta { pubkey: m.0, is_signer: false, is_writable: m.1 });
    }
    ix
}
pub fn purge(oracle: Key, index: u8) -> Ix {
    purge_expired_requests(oracle, index)
}
