//! What client code relies on: instruction builders, SDK types, constants, address helpers, the random helpers and the
//! codecs, together with the program they talk to.
use crate::life::*;
use crate::prov::*;
use crate::qmodel::*;
use crate::req::*;
use crate::sym::{self, Key};
use crate::world::*;
use ephemeral_vrf_api::prelude as api;
use ephemeral_vrf_sdk as sdk;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;

fn pk(k: &Key) -> Pubkey {
    Pubkey::new_from_array(*k)
}

// ------------------------------------------------------------------------------------------------ a ledger
pub struct Ledger {
    pub accts: Vec<Acct>,
}
impl Ledger {
    fn find(&self, k: &Key) -> Option<usize> {
        self.accts.iter().position(|a| sym::eq(&a.key, k))
    }
    pub fn get(&self, k: &Key) -> Acct {
        match self.find(k) {
            Some(i) => self.accts[i].clone(),
            None => Acct::new(*k, SYSTEM, 0, vec![]),
        }
    }
    /// Submit an instruction as a client would: accounts and privileges come from its account metas, the signatures
    /// from `signers`.
    pub fn submit(&mut self, ix: &Instruction, signers: &[Key]) -> Result<(), u64> {
        let mut a = vec![];
        for m in &ix.accounts {
            let k = m.pubkey.to_bytes();
            let mut x = self.get(&k);
            x.signer = m.is_signer;
            x.writable = m.is_writable;
            if m.is_signer {
                let mut have = false;
                for s in signers {
                    have |= sym::eq(s, &k);
                }
                sym::check(have, "unexpected-signature-needed");
            }
            a.push(x);
        }
        sym::check(sym::eq(&ix.program_id.to_bytes(), &vrf()), "addressed-to-the-program");
        exec(&mut a, &[], &ix.data)?;
        for x in a {
            match self.find(&x.key) {
                Some(i) => self.accts[i] = x,
                None => self.accts.push(x),
            }
        }
        Ok(())
    }
    fn must(&mut self, ix: &Instruction, signers: &[Key], what: &str) -> bool {
        let a: Vec<Acct> = ix.accounts.iter().map(|m| Acct { signer: m.is_signer, writable: m.is_writable, ..self.get(&m.pubkey.to_bytes()) }).collect();
        spoil(&a, &ix.data);
        let ok = self.submit(ix, signers).is_ok();
        sym::check(ok, what);
        ok
    }
}
/// The transaction that is to be malformed: how many genuine ones come before it.
static mut SPOIL: Option<usize> = None;
/// If it is this one's turn, sends it malformed in one way, and that is the end.
fn spoil(accts: &[Acct], data: &[u8]) {
    match unsafe { SPOIL } {
        None => return,
        Some(0) => (),
        Some(n) => {
            unsafe { SPOIL = Some(n - 1) };
            return;
        }
    }
    let (mut a, mut d, mut pid) = (accts.to_vec(), data.to_vec(), vrf());
    w().strict = false;
    let tag = data[0];
    match sym::choose(6, "wrong") {
        0 => {
            pid = sym::bytes("pid");
            sym::assume(!sym::eq(&pid, &vrf()));
            sym::cover("other-program");
        }
        1 => {
            d.truncate(sym::choose(8, "length"));
            sym::cover("part-of-a-tag");
        }
        2 if data.len() > 8 => {
            d.pop();
            sym::cover("payload-cut-short");
        }
        // requests and initialization ignore what follows their payload
        3 if tag != 0 && tag != 3 && tag != 8 => {
            d.push(sym::u8("more"));
            sym::cover("payload-too-long");
        }
        4 => {
            a.pop();
            sym::cover("account-missing");
        }
        // the provide handler takes the callback's accounts behind its own
        5 if tag != 4 => {
            let x = Acct::new(sym::bytes("extra"), sym::bytes("extra"), 1, vec![]);
            for y in &a {
                sym::assume(!sym::eq(&x.key, &y.key));
            }
            a.push(x);
            sym::cover("account-too-many");
        }
        _ => sym::end(),
    }
    let r = exec_as(&pid, &mut a, &[], &d);
    sym::check(r.is_err(), "malformed-instruction-accepted");
    sym::end();
}
/// Every kind of instruction, genuine but for one malformation.
#[no_mangle]
pub extern "C" fn h_dispatch_genuine() {
    unsafe { SPOIL = Some(sym::choose(7, "genuine")) };
    lifecycle(&[Some(2000)]);
}
#[no_mangle]
pub extern "C" fn h_dispatch_delegation() {
    unsafe { SPOIL = Some(sym::choose(3, "genuine")) };
    h_delegation_roundtrip();
}
fn programs(l: &mut Vec<Acct>) {
    l.push(sysprog());
    l.push(slothash_acct());
    for k in [crate::adm::dlp(), crate::adm::magic(), vrf()] {
        l.push(Acct { executable: true, ..Acct::new(k, [9u8; 32], 1, vec![]) });
    }
}
pub fn program_data_key() -> Key {
    let loader = solana_program::pubkey!("BPFLoaderUpgradeab1e11111111111111111111111").to_bytes();
    pda(&[&vrf()], &loader).0
}
pub fn program_data(auth: &Key) -> Acct {
    let loader = solana_program::pubkey!("BPFLoaderUpgradeab1e11111111111111111111111").to_bytes();
    Acct::new(program_data_key(), loader, 1, cat(&[&[3, 0, 0, 0], &[7; 8], &[1], auth, &[0; 3]]))
}
fn sdk_params(r: &Req, payer: &Key, queue: &Key, absent: bool) -> sdk::instructions::RequestRandomnessParams {
    sdk::instructions::RequestRandomnessParams {
        payer: pk(payer),
        oracle_queue: pk(queue),
        callback_program_id: pk(&r.prog),
        callback_discriminator: r.disc.clone(),
        accounts_metas: if absent {
            None
        } else {
            Some(r.metas.iter().map(|(k, s, w)| sdk::types::SerializableAccountMeta { pubkey: pk(k), is_signer: *s, is_writable: *w }).collect())
        },
        caller_seed: r.seed,
        callback_args: if absent { None } else { Some(r.args.clone()) },
    }
}
fn sdk_ix(r: &Req, payer: &Key, queue: &Key, absent: bool) -> Instruction {
    let p = sdk_params(r, payer, queue, absent);
    if r.high {
        sdk::instructions::create_request_randomness_ix(p)
    } else {
        sdk::instructions::create_request_regular_randomness_ix(p)
    }
}

// ------------------------------------------------------------------------------------------------ SDK
/// A request built by the SDK is accepted by the program and recorded with exactly the parameters it was built from.
#[no_mangle]
pub extern "C" fn h_sdk_request() {
    let p = sym::pick(&[((8usize, 2usize, 3usize), false), ((0, 0, 0), false), ((8, 0, 0), true), ((3, 1, 9), false)], "params");
    sdk_request(p, 400)
}
/// Requests as large as transactions can carry them.
#[no_mangle]
pub extern "C" fn h_sdk_request_large() {
    let p = sym::pick(&[((8usize, 20usize, 0usize), false), ((8, 2, 512), false), ((8, 12, 300), false)], "params");
    sdk_request(p, 1200)
}
fn sdk_request((shape, absent): ((usize, usize, usize), bool), spare: usize) {
    sym_clock();
    let high = sym::choose(2, "high") == 1;
    let r = Req::sym(shape, high);
    let (_, img) = crate::queue::any_queue(0, &crate::queue::SHAPES[..1], &[spare]);
    let (payer, queue): (Key, Key) = (sym::bytes("payer"), sym::bytes("queue"));
    let ident = pda(&[b"identity"], &r.prog).0;
    let mut l = Ledger { accts: vec![Acct::new(payer, SYSTEM, lamports("lam"), vec![]), Acct::new(queue, vrf(), lamports("qlam"), queue_data(&img))] };
    programs(&mut l.accts);
    let mut ks: Vec<Key> = l.accts.iter().map(|a| a.key).collect();
    ks.push(ident);
    distinct(&ks);
    sym::assume(l.accts[0].lamports >= 800_000);
    let before = l.accts[0].lamports;
    let ix = sdk_ix(&r, &payer, &queue, absent);
    w().strict = true;
    if !l.must(&ix, &[payer, ident], "sdk-request-refused") {
        return;
    }
    sym::cover("accepted");
    match parse(&l.get(&queue).data[8..]) {
        Some((1, _, v)) if v.len() == 1 => sym::check(v[0].same(&r.rec(w().slot, v[0].id)), "recorded-as-asked"),
        _ => sym::check(false, "recorded-as-asked"),
    }
    let free = sym::eq(&queue, &default_queue());
    sym::check(free | (l.get(&payer).lamports.wrapping_add(r.cost()) == before), "priority-as-asked");
}
/// The SDK's and the program's constants agree, and the identity that signs callbacks is the derived one.
#[no_mangle]
pub extern "C" fn h_sdk_consts() {
    sym::check(sym::eq(&sdk::consts::VRF_PROGRAM_ID.to_bytes(), &vrf()) & sym::eq(&sdk::id().to_bytes(), &vrf()), "program-id");
    sym::check(sym::eq(&sdk::consts::DEFAULT_EPHEMERAL_QUEUE.to_bytes(), &default_queue()), "default-ephemeral-queue");
    sym::check(sym::eq(sdk::consts::IDENTITY, api::IDENTITY) & sym::eq(sdk::consts::IDENTITY, b"identity"), "identity-seed");
    let (k, b) = pda(&[b"identity"], &vrf());
    let (ak, ab) = api::program_identity_pda();
    sym::check(sym::eq(&ak.to_bytes(), &k) & (ab == b), "program-identity");
    sym::check(sym::eq(&sdk::consts::VRF_PROGRAM_IDENTITY.to_bytes(), &k), "sdk-identity");
    let o: Key = sym::bytes("oracle");
    let i = sym::u8("index");
    sym::check(sym::eq(&api::oracle_queue_pda(&pk(&o), i).0.to_bytes(), &queue_pda(&o, i)), "queue-address");
    sym::check(sym::eq(&api::oracle_data_pda(&pk(&o)).0.to_bytes(), &oracle_pda(&o)), "oracle-address");
    sym::check(sym::eq(&api::oracles_pda().0.to_bytes(), &oracles_pda()), "registry-address");
    sym::cover("checked");
}
/// The SDK's address helpers give the delegation program's addresses.
#[no_mangle]
pub extern "C" fn h_sdk_pdas() {
    use sdk::pda::*;
    let (a, o): (Key, Key) = (sym::bytes("account"), sym::bytes("owner"));
    let i = sym::u8("index");
    let d = crate::adm::dlp();
    let one = |got: Pubkey, seeds: &[&[u8]], prog: &Key| sym::eq(&got.to_bytes(), &pda(seeds, prog).0);
    let k = pk(&a);
    sym::check(one(delegation_record_pda_from_delegated_account(&k), &[b"delegation", &a], &d), "delegation-record");
    sym::check(one(delegation_metadata_pda_from_delegated_account(&k), &[b"delegation-metadata", &a], &d), "delegation-metadata");
    sym::check(one(commit_state_pda_from_delegated_account(&k), &[b"state-diff", &a], &d), "commit-state");
    sym::check(one(commit_record_pda_from_delegated_account(&k), &[b"commit-state-record", &a], &d), "commit-record");
    sym::check(one(delegate_buffer_pda_from_delegated_account_and_owner_program(&k, &pk(&o)), &[b"buffer", &a], &o), "delegate-buffer");
    sym::check(one(undelegate_buffer_pda_from_delegated_account(&k), &[b"undelegate-buffer", &a], &d), "undelegate-buffer");
    sym::check(one(fees_vault_pda(), &[b"fees-vault"], &d), "fees-vault");
    sym::check(one(validator_fees_vault_pda_from_validator(&k), &[b"v-fees-vault", &a], &d), "validator-fees-vault");
    sym::check(one(program_config_from_program_id(&k), &[b"p-conf", &a], &d), "program-config");
    sym::check(one(ephemeral_balance_pda_from_payer(&k, i), &[b"balance", &a, &[i]], &d), "ephemeral-balance");
    sym::cover("checked");
}

// ------------------------------------------------------------------------------------------------ random helpers
fn below(bytes: &[u8; 32], threshold: u16) -> bool {
    let mut any = false;
    for b in bytes {
        any |= (*b as u16) < threshold;
    }
    any
}
/// Rotate every byte within its block of `range` values; a permutation of the byte values.
fn rotate(bytes: &[u8; 32], range: u16, threshold: u16) -> [u8; 32] {
    let mut o = *bytes;
    for b in o.iter_mut() {
        let x = *b as u16;
        let next = if x % range == range - 1 { x + 1 - range } else { x + 1 };
        *b = sym::ite(x < threshold, next as u64, x as u64) as u8;
    }
    o
}
fn ranged(min: u8, max: u8) {
    let range = max as u16 - min as u16 + 1;
    let threshold = 256 / range * range;
    let x: [u8; 32] = sym::bytes("random");
    let r = sdk::rnd::random_u8_with_range(&x, min, max);
    sym::check((r >= min) & (r <= max), "within-range");
    sym::cover("checked");
    // uniform: a permutation of the inputs that keeps the rejected bytes moves every outcome to the next one
    if below(&x, threshold) {
        sym::cover("accepted-byte");
        let y = rotate(&x, range, threshold);
        let s = sdk::rnd::random_u8_with_range(&y, min, max);
        let next = sym::ite(r == max, min as u64, r as u64 + 1) as u8;
        sym::check(s == next, "uniform");
    }
}
#[no_mangle]
pub extern "C" fn h_rnd_range() {
    let range = sym::pick(&[1u16, 2, 3, 6, 10, 100, 128, 129, 200, 255, 256], "range");
    let lo = (256 - range) as u8;
    let min = sym::pick(&[0u8, 1, 7, lo], "min");
    if min > lo {
        return;
    }
    ranged(min, (min as u16 + range - 1) as u8);
}
/// Every range: the result lies within it.
#[no_mangle]
pub extern "C" fn h_rnd_bounds() {
    let (min, max) = (sym::u8("min"), sym::u8("max"));
    sym::assume(min <= max);
    let x: [u8; 32] = sym::bytes("random");
    w().strict = true;
    sym::policy(1);
    let r = sdk::rnd::random_u8_with_range(&x, min, max);
    sym::check((r >= min) & (r <= max), "within-range");
    sym::cover("checked");
}
/// Uniformity of the full-width helpers: each output bit is a sum of input bits, and together they have full rank.
fn linear(f: fn(&[u8; 32]) -> u64, bits: usize) {
    let (x, d): ([u8; 32], [u8; 32]) = (sym::bytes("random"), sym::bytes("delta"));
    let mut y = x;
    for i in 0..32 {
        y[i] ^= d[i];
    }
    let z = f(&[0; 32]);
    sym::check(f(&x) ^ f(&y) == f(&d) ^ z, "bits-of-the-output-are-bits-of-the-input");
    let mut rank = 0;
    let mut basis = [0u64; 64];
    for i in 0..256 {
        let mut e = [0u8; 32];
        e[i / 8] = 1 << (i % 8);
        let mut v = f(&e) ^ z;
        for b in (0..64).rev() {
            if v >> b & 1 == 1 {
                if basis[b] == 0 {
                    basis[b] = v;
                    rank += 1;
                    break;
                }
                v ^= basis[b];
            }
        }
    }
    sym::check(rank == bits, "every-output-equally-likely");
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_rnd_uniform() {
    use sdk::rnd::*;
    match sym::choose(6, "helper") {
        0 => linear(|x| random_u8(x) as u64, 8),
        1 => linear(|x| random_u32(x) as u64, 32),
        2 => linear(|x| random_i32(x) as u32 as u64, 32),
        3 => linear(random_u64, 64),
        4 => linear(|x| random_i64(x) as u64, 64),
        _ => linear(|x| random_bool(x) as u64, 1),
    }
}

// ------------------------------------------------------------------------------------------------ codecs
/// What the clients encode, the program decodes to the same values, and back.
#[no_mangle]
pub extern "C" fn h_codec_request() {
    let shape = sym::pick(&[(8usize, 1usize, 3usize), (0, 0, 0), (1, 3, 0), (8, 2, 17), (8, 20, 512), (300, 1, 300)], "shape");
    let r = Req::sym(shape, true);
    let a = api::RequestRandomness {
        caller_seed: r.seed,
        callback_program_id: pk(&r.prog),
        callback_discriminator: r.disc.clone(),
        callback_accounts_metas: r.metas.iter().map(|(k, s, w)| api::SerializableAccountMeta { pubkey: *k, is_signer: *s, is_writable: *w }).collect(),
        callback_args: r.args.clone(),
    };
    let enc = a.to_bytes();
    sym::check(sym::eq(&enc, &r.data()), "request-encoding");
    let s = sdk_params(&r, &r.seed, &r.seed, false);
    let s = sdk::types::RequestRandomness {
        caller_seed: s.caller_seed,
        callback_program_id: s.callback_program_id,
        callback_discriminator: s.callback_discriminator,
        callback_accounts_metas: s.accounts_metas.unwrap(),
        callback_args: s.callback_args.unwrap(),
    };
    sym::check(sym::eq(&s.to_bytes(), &enc), "sdk-encodes-as-the-program");
    match api::RequestRandomness::try_from_bytes(&enc[8..]) {
        Err(_) => sym::check(false, "request-round-trip"),
        Ok(b) => {
            sym::cover("decoded");
            sym::check(
                sym::eq(&b.caller_seed, &r.seed)
                    & sym::eq(&b.callback_program_id.to_bytes(), &r.prog)
                    & sym::eq(&b.callback_discriminator, &r.disc)
                    & sym::eq(&b.callback_args, &r.args)
                    & (b.callback_accounts_metas.len() == r.metas.len()),
                "request-round-trip",
            );
            sym::check(sym::eq(&b.to_bytes(), &enc), "request-round-trip");
            for (m, (k, s, w)) in b.callback_accounts_metas.iter().zip(&r.metas) {
                sym::check(sym::eq(&m.pubkey, k) & (m.is_signer == *s) & (m.is_writable == *w), "request-round-trip");
            }
        }
    }
    // a truncated encoding is refused
    let n = enc.len() - 8;
    let cuts: Vec<usize> = if n < 120 { (1..=n).collect() } else { vec![1, 4, shape.2 + 1, shape.2 + 4, n - 64, n] };
    for cut in cuts {
        sym::check(api::RequestRandomness::try_from_bytes(&enc[8..8 + n - cut]).is_err(), "truncated-request-refused");
    }
}
/// Decoding arbitrary bytes never panics; what decodes, re-encodes to the same bytes.
#[no_mangle]
pub extern "C" fn h_codec_any() {
    sym::policy(1);
    match sym::choose(4, "type") {
        0 => {
            // a request with list lengths from a few classes
            let n = sym::pick(&[75usize, 76, 80, 112], "len");
            let mut d = sym::vec(n, "data");
            let ls = [0u32, 1, 2, 5, u32::MAX];
            let l1 = sym::pick(&ls, "l1");
            d[64..68].copy_from_slice(&l1.to_le_bytes());
            let mut at = 68usize.saturating_add(l1 as usize);
            for k in [34usize, 1] {
                if at + 4 <= n {
                    let l = sym::pick(&ls, "l");
                    d[at..at + 4].copy_from_slice(&l.to_le_bytes());
                    at = at + 4 + k * l as usize;
                }
            }
            if let Ok(r) = api::RequestRandomness::try_from_bytes(&d) {
                sym::cover("request");
                let e = r.to_bytes();
                sym::check(e.len() - 8 <= n && sym::eq(&e[8..], &d[..e.len() - 8]), "re-encodes");
            }
        }
        1 => {
            let n = sym::pick(&[0usize, 7, 8, 11, 12, 44, 45, 76], "len");
            let mut d = sym::vec(n, "data");
            if n >= 12 {
                let l = sym::pick(&[0u32, 1, 2, 3, u32::MAX], "count");
                d[8..12].copy_from_slice(&l.to_le_bytes());
            }
            if let Ok(o) = api::Oracles::try_from_bytes_with_discriminator(&d) {
                sym::cover("registry");
                sym::check(zero(&d[..8]), "wrong-kind-refused");
                sym::check(o.to_bytes_with_discriminator().map_or(false, |e| sym::eq(&e, &d)), "re-encodes");
                sym::check(o.size_with_discriminator() == d.len(), "size");
            }
        }
        2 => {
            let n = sym::pick(&[0usize, 1, 4, 5, 12, 20], "len");
            let mut d = sym::vec(n, "data");
            let ls = [0u32, 1, 2, 7, u32::MAX];
            if n >= 4 {
                let l = sym::pick(&ls, "count");
                d[..4].copy_from_slice(&l.to_le_bytes());
                let mut at = 4;
                for _ in 0..l.min(4) {
                    if at + 4 <= n {
                        let l = sym::pick(&ls, "l");
                        d[at..at + 4].copy_from_slice(&l.to_le_bytes());
                        at = at.saturating_add(4 + l as usize);
                    }
                }
            }
            if let Ok(v) = ephemeral_vrf_api::prelude::PdaSeeds::parse(&d) {
                sym::cover("seeds");
                let mut e = (v.len() as u32).to_le_bytes().to_vec();
                for s in &v {
                    e.extend_from_slice(&(s.len() as u32).to_le_bytes());
                    e.extend_from_slice(s);
                }
                sym::check(sym::eq(&e, &d), "re-encodes");
            }
        }
        _ => {
            // the registry, from its values
            let n = sym::choose(4, "oracles");
            let ks: Vec<Key> = (0..n).map(|_| sym::bytes("oracle")).collect();
            let o = api::Oracles { oracles: ks.iter().map(pk).collect() };
            let e = o.to_bytes_with_discriminator().unwrap_or_default();
            sym::check(e.len() == o.size_with_discriminator(), "size");
            let mut want = vec![0u8; 8];
            want.extend_from_slice(&(n as u32).to_le_bytes());
            for k in &ks {
                want.extend_from_slice(k);
            }
            sym::check(sym::eq(&e, &want), "registry-encoding");
            sym::check(api::Oracles::try_from_bytes_with_discriminator(&e).is_ok(), "registry-round-trip");
            sym::cover("encoded");
        }
    }
}

// ------------------------------------------------------------------------------------------------ API builders
/// An oracle's life through the client builders: every instruction they build is accepted in the state it is meant for,
/// needs no other signature than its documented signers, and the end is clean.
#[no_mangle]
pub extern "C" fn h_lifecycle() {
    lifecycle(&[None, Some(24u32), Some(2000), Some(10240), Some(10241), Some(20480), Some(20481)]);
}
fn lifecycle(queue_sizes: &[Option<u32>]) {
    let wd = w();
    wd.slot = sym::u64("slot");
    sym::assume(wd.slot < 1 << 60);
    wd.time = sym::u64("time") as i64;
    wd.strict = true;
    wd.foreign = None;
    let high = sym::choose(2, "high") == 1;
    let r = Req::sym((8, 1, 3), high);
    let (auth, id, payer): (Key, Key, Key) = (sym::bytes("authority"), sym::bytes("identity"), sym::bytes("payer"));
    let index = sym::u8("index");
    let q = queue_pda(&id, index);
    let ident = pda(&[b"identity"], &r.prog).0;
    let cb = r.metas[0].0;
    let mut l = Ledger {
        accts: vec![
            Acct::new(auth, SYSTEM, 1 << 50, vec![]),
            Acct::new(id, SYSTEM, lamports("ilam"), vec![]),
            Acct::new(payer, SYSTEM, 1 << 50, vec![]),
            Acct::new(ident, SYSTEM, 0, vec![]),
            Acct::new(r.prog, SYSTEM, 1, vec![]),
            Acct::new(cb, sym::bytes("cbowner"), 9, vec![]),
            program_data(&auth),
        ],
    };
    programs(&mut l.accts);
    let mut ks: Vec<Key> = l.accts.iter().map(|a| a.key).collect();
    ks.extend([q, oracle_pda(&id), oracles_pda(), identity_pda(), default_queue()]);
    distinct(&ks);
    sym::assume(on_curve(&id));
    let mut sk: Key = sym::bytes("sk");
    sk[31] = 0;
    let vpk = toy::mul(&sk, &toy::base());
    let ilam = l.get(&id).lamports;
    // registration
    let ix = ephemeral_vrf_api::sdk::initialize(pk(&auth));
    if !l.must(&ix, &[auth], "initialize-refused") {
        return;
    }
    let ix = ephemeral_vrf_api::sdk::add_oracle(pk(&auth), pk(&id), vpk);
    if !l.must(&ix, &[auth], "add-oracle-refused") {
        return;
    }
    w().slot += 200;
    // queue creation
    let size = sym::pick(queue_sizes, "size");
    let want = size.unwrap_or(9500) as usize;
    let ixs = builders_init(&payer, &id, index, size);
    for ix in &ixs {
        if !l.must(ix, &[payer, id], "initialize-queue-refused") {
            return;
        }
    }
    let qa = l.get(&q);
    sym::check(qa.data.len() == want, "queue-of-the-asked-size");
    sym::check(sym::eq(&qa.owner, &vrf()) && qa.data.len() >= 24 && qa.data[0] == 3, "queue-ready");
    if want >= 2000 {
        // a request, then its fulfilment or its expiry
        let ix = sdk_ix(&r, &payer, &q, false);
        if !l.must(&ix, &[payer, ident], "sdk-request-refused") {
            return;
        }
        let rec = match parse(&l.get(&q).data[8..]) {
            Some((1, _, mut v)) if v.len() == 1 => v.remove(0),
            _ => return sym::check(false, "recorded-as-asked"),
        };
        if sym::choose(2, "expires") == 1 {
            w().slot += 241;
            let ix = ephemeral_vrf_api::sdk::purge_expired_requests(pk(&id), index);
            if !l.must(&ix, &[], "purge-refused") {
                return;
            }
        } else {
            w().slot += 1;
            let (_, p) = Proof::honest(&sk, &rec.id);
            let mut ix = ephemeral_vrf_api::sdk::provide_randomness(pk(&id), pk(&q), pk(&r.prog), rec.id, pod(&p.out), pod(&p.cb), pod(&p.ch), solana_curve25519::scalar::PodScalar(p.s));
            ix.accounts.push(solana_program::instruction::AccountMeta { pubkey: pk(&cb), is_signer: false, is_writable: rec.metas[32] != 0 });
            if !l.must(&ix, &[id], "provide-refused") {
                return;
            }
            sym::check(w().cpis.len() == 1 && sym::eq(&w().cpis[0].program, &r.prog), "callback-delivered");
        }
        sym::check(l.get(&id).lamports == ilam.wrapping_add(r.cost()), "oracle-earned-the-fee");
        sym::cover("settled");
    }
    let qlam = l.get(&q).lamports;
    let before = l.get(&id).lamports;
    let ix = ephemeral_vrf_api::sdk::close_oracle_queue(pk(&id), index);
    if !l.must(&ix, &[id], "close-refused") {
        return;
    }
    sym::check(l.get(&id).lamports == before.wrapping_add(qlam), "rent-returned");
    let ix = ephemeral_vrf_api::sdk::remove_oracle(pk(&auth), pk(&id));
    if !l.must(&ix, &[auth], "remove-oracle-refused") {
        return;
    }
    sym::check(l.get(&oracle_pda(&id)).data.is_empty() && l.get(&oracle_pda(&id)).lamports == 0, "oracle-record-gone");
    sym::check(sym::eq(&l.get(&oracles_pda()).data, &[0u8; 12]), "registry-empty");
    sym::cover("done");
}
fn pod(k: &Key) -> solana_curve25519::ristretto::PodRistrettoPoint {
    solana_curve25519::ristretto::PodRistrettoPoint(*k)
}
fn builders_init(payer: &Key, id: &Key, index: u8, size: Option<u32>) -> Vec<Instruction> {
    ephemeral_vrf_api::sdk::initialize_oracle_queue(pk(payer), pk(id), index, size)
}
/// Delegation and undelegation as the clients build them; and completing an undelegation with the seeds the delegation
/// recorded re-creates the same queue.
#[no_mangle]
pub extern "C" fn h_delegation_roundtrip() {
    sym_clock();
    let (_, img) = crate::queue::any_queue(1, &crate::queue::SHAPES[..1], &[0]);
    let id: Key = sym::bytes("identity");
    let index = sym::u8("index");
    let q = queue_pda(&id, index);
    let content = queue_data(&img);
    let qlam = lamports("qlam");
    let buffer = pda(&[b"buffer", &q], &vrf()).0;
    let d = crate::adm::dlp();
    let mut l = Ledger { accts: vec![Acct::new(id, SYSTEM, 1 << 50, vec![]), Acct::new(q, vrf(), qlam, content.clone())] };
    programs(&mut l.accts);
    l.accts.push(Acct::new(crate::adm::magic_context(), SYSTEM, 1, vec![]));
    let mut ks: Vec<Key> = l.accts.iter().map(|a| a.key).collect();
    let (rec, meta) = (pda(&[b"delegation", &q], &d).0, pda(&[b"delegation-metadata", &q], &d).0);
    ks.extend([buffer, rec, meta]);
    distinct(&ks);
    w().strict = true;
    w().foreign = Some(crate::adm::delegation_program);
    let ix = ephemeral_vrf_api::sdk::delegate_oracle_queue(pk(&id), pk(&q), index);
    sym::check(ix.accounts.len() == 8 && sym::eq(&ix.accounts[3].pubkey.to_bytes(), &rec) && sym::eq(&ix.accounts[4].pubkey.to_bytes(), &meta), "delegation-program-records");
    if !l.must(&ix, &[id], "delegate-refused") {
        return;
    }
    sym::cover("delegated");
    let args = w().cpis.iter().find(|c| sym::eq(&c.program, &d)).map(|c| c.data.clone()).unwrap_or_default();
    // the seeds as the delegation program keeps them: after the tag and the commit frequency, until the optional validator
    if args.len() < 12 {
        return sym::check(false, "seeds-recorded");
    }
    let mut at = 16;
    let n = sym::concretize(le(&args[12..16]));
    for _ in 0..n {
        if at + 4 > args.len() {
            return sym::check(false, "seeds-recorded");
        }
        at += 4 + sym::concretize(le(&args[at..at + 4])) as usize;
    }
    if at > args.len() {
        return sym::check(false, "seeds-recorded");
    }
    let seeds = args[12..at].to_vec();
    // the delegated copy comes back
    let ix = ephemeral_vrf_api::sdk::undelegate_oracle_queue(pk(&id), pk(&q), index);
    w().foreign = None;
    if !l.must(&ix, &[id], "undelegate-refused") {
        return;
    }
    sym::check(w().cpis.len() == 1 && sym::eq(&w().cpis[0].program, &crate::adm::magic()), "undelegation-scheduled");
    let mut a = vec![
        Acct::new(q, SYSTEM, 0, vec![]).w(),
        Acct::new(pda(&[b"undelegate-buffer", &q], &d).0, d, 1, content.clone()).s(),
        l.get(&id).sw(),
        sysprog(),
    ];
    for i in 0..4 {
        if i != 1 {
            sym::assume(!sym::eq(&a[1].key, &a[i].key));
        }
    }
    let data = cat(&[&[196, 0, 0, 0, 0, 0, 0, 0], &seeds]);
    spoil(&a, &data);
    let res = exec(&mut a, &[], &data);
    sym::check(res.is_ok(), "undelegation-completes-at-the-same-address");
    if res.is_ok() {
        sym::cover("recreated");
        sym::check(sym::eq(&a[0].owner, &vrf()) & sym::eq(&a[0].data, &content), "same-queue-again");
    }
}

// ------------------------------------------------------------------------------------------------ histories
/// Any sequence of `n` requests, fulfilments and purges on a freshly initialised queue, against the model: a list of
/// pending requests. `ops` limits the operations.
fn history(n: usize, spare: usize) {
    w().slot = sym::u64("slot");
    w().time = sym::u64("time") as i64;
    sym::assume(w().slot < 1 << 60);
    w().strict = true;
    w().foreign = None;
    let (payer, id): (Key, Key) = (sym::bytes("payer"), sym::bytes("identity"));
    let prog: Key = sym::bytes("prog");
    let index = sym::u8("index");
    let q = queue_pda(&id, index);
    let ident = pda(&[b"identity"], &prog).0;
    let mut sk: Key = sym::bytes("sk");
    sk[31] = 0;
    let vpk = toy::mul(&sk, &toy::base());
    let mut empty = vec![0u8; 16];
    empty[8] = index;
    empty.extend(vec![0u8; spare]);
    let mut l = Ledger {
        accts: vec![
            Acct::new(payer, SYSTEM, 1 << 50, vec![]),
            Acct::new(id, SYSTEM, lamports("ilam"), vec![]),
            Acct::new(q, vrf(), rent_min(24 + spare), queue_data(&empty)),
            Acct::new(oracle_pda(&id), vrf(), 1, oracle_data(&vpk, 0, 1)),
            Acct::new(identity_pda(), SYSTEM, 0, vec![]),
            Acct::new(ident, SYSTEM, 0, vec![]),
            Acct::new(prog, SYSTEM, 1, vec![]),
        ],
    };
    programs(&mut l.accts);
    let mut ks: Vec<Key> = l.accts.iter().map(|a| a.key).collect();
    ks.push(default_queue());
    distinct(&ks);
    let mut model: Vec<Rec> = vec![];
    let mut ends: Vec<usize> = vec![]; // where each pending request ends
    let (base, ilam) = (l.get(&q).lamports, l.get(&id).lamports);
    let mut earned = 0u64;
    for step in 0..n {
        let op = if step == 0 { 0 } else { sym::choose(3, "op") };
        match op {
            0 => {
                let r = Req { prog, ..Req::sym(sym::pick(&[(8, 0, 3), (0, 0, 12)], "shape"), sym::choose(2, "high") == 1) };
                let ix = sdk_ix(&r, &payer, &q, false);
                let ok = l.submit(&ix, &[payer, ident]).is_ok();
                let v = parse(&l.get(&q).data[8..]);
                if ok {
                    sym::cover("requested");
                    match &v {
                        Some((_, _, v)) if v.len() == model.len() + 1 => {
                            let id = v[model.len()].id;
                            for o in &model {
                                sym::check(!sym::eq(&id, &o.id), "history-id-unique");
                            }
                            model.push(r.rec(w().slot, id));
                            ends.push(up8(ends.last().copied().unwrap_or(0)) + model.last().unwrap().size());
                        }
                        _ => return sym::check(false, "history-queue-content"),
                    }
                } else {
                    // only for want of room
                    sym::cover("full");
                    let room = up8(ends.last().copied().unwrap_or(0));
                    sym::check(room + 96 + r.disc.len() + r.args.len() > spare, "history-request-refused");
                }
            }
            1 => {
                if model.is_empty() {
                    sym::cover("nothing-pending");
                    return;
                }
                let k = sym::choose(model.len(), "which");
                let later = sym::choose(2, "later") == 1;
                if later {
                    w().slot += 1;
                }
                let r = model[k].clone();
                let (_, p) = Proof::honest(&sk, &r.id);
                let ix = ephemeral_vrf_api::sdk::provide_randomness(pk(&id), pk(&q), pk(&prog), r.id, pod(&p.out), pod(&p.cb), pod(&p.ch), solana_curve25519::scalar::PodScalar(p.s));
                let ok = l.submit(&ix, &[id]).is_ok();
                sym::check(ok == (w().slot > r.slot), "history-fulfilment");
                if ok {
                    sym::cover("fulfilled");
                    model.remove(k);
                    ends.remove(k);
                    earned += r.cost();
                } else {
                    sym::cover("too-early");
                }
            }
            _ => {
                let d = sym::u64("wait");
                sym::assume(d < 1 << 32);
                w().slot += d;
                let ix = ephemeral_vrf_api::sdk::purge_expired_requests(pk(&id), index);
                if !l.must(&ix, &[], "history-purge-refused") {
                    return;
                }
                let (mut rest, mut rends) = (vec![], vec![]);
                for (r, e) in model.into_iter().zip(ends) {
                    if w().slot - r.slot > TTL {
                        earned += r.cost();
                        sym::cover("expired");
                    } else {
                        rest.push(r);
                        rends.push(e);
                    }
                }
                model = rest;
                ends = rends;
            }
        }
        let qa = l.get(&q);
        match parse(&qa.data[8..]) {
            Some((c, ix, v)) => sym::check((c as usize == model.len()) & (ix == index) & (v.len() == model.len()) && same_list(&v, &model), "history-queue-content"),
            None => sym::check(false, "history-queue-content"),
        }
        let mut owed = 0;
        for r in &model {
            owed += r.cost();
        }
        sym::check(qa.lamports == base.wrapping_add(owed), "history-escrow");
        sym::check(l.get(&id).lamports == ilam.wrapping_add(earned), "history-oracle-earnings");
    }
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn h_history() {
    history(3, 220);
}
#[no_mangle]
pub extern "C" fn h_history_deep() {
    history(5, 330);
}
#[no_mangle]
pub extern "C" fn h_history_4() {
    history(4, 330);
}
