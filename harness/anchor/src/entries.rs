//! A program that uses the SDK's `#[vrf]` helper, with the VRF program behind its cross-program calls.
use crate::qmodel::*;
use crate::sym::{self, Key};
use crate::world::{self, *};
use anchor_lang::prelude::*;
use anchor_lang::Key as _;
use ephemeral_vrf_sdk as sdk;
use sdk::anchor::{vrf, VrfProgram};

/// The helper fills in every account of the request.
#[vrf]
#[derive(Accounts)]
pub struct Plain<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: the queue
    #[account(mut)]
    pub oracle_queue: AccountInfo<'info>,
}
/// A program that has some of the accounts anyway.
#[vrf]
#[derive(Accounts)]
pub struct Partly<'info> {
    pub system_program: Program<'info, System>,
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: something else the program works with
    #[account(mut)]
    pub state: AccountInfo<'info>,
    /// CHECK: the queue
    #[account(mut)]
    pub oracle_queue: AccountInfo<'info>,
    pub vrf_program: Program<'info, VrfProgram>,
}
/// A program that lists all of them itself.
#[vrf]
#[derive(Accounts)]
pub struct Own<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: the program's identity
    #[account(seeds = [b"identity"], bump)]
    pub program_identity: AccountInfo<'info>,
    /// CHECK: the queue
    #[account(mut)]
    pub oracle_queue: AccountInfo<'info>,
    /// CHECK: the slot hashes
    #[account(address = sdk::compat::slot_hashes::ID)]
    pub slot_hashes: AccountInfo<'info>,
    pub vrf_program: Program<'info, VrfProgram>,
    pub system_program: Program<'info, System>,
}

#[no_mangle]
static mut HARNESS_CALLER_ID: [u8; 32] = [0; 32];
unsafe extern "C" {
    #[link_name = "HARNESS_CALLER_ID"]
    pub safe static ID: Pubkey;
}
fn set_caller(k: &Key) {
    unsafe { core::ptr::write_volatile(&raw mut HARNESS_CALLER_ID, *k) }
}
fn pk(k: &Key) -> Pubkey {
    Pubkey::new_from_array(*k)
}
fn distinct(ks: &[Key]) {
    for i in 0..ks.len() {
        for j in 0..i {
            sym::assume(!sym::eq(&ks[i], &ks[j]));
        }
    }
}
/// Account infos as the entrypoint of the calling program gets them (leaked: the run ends soon).
fn infos(accts: &[Acct]) -> &'static [AccountInfo<'static>] {
    let mut v = vec![];
    for a in accts {
        let a: &'static mut Acct = Box::leak(Box::new(a.clone()));
        let (key, owner): (&'static mut Pubkey, &'static mut Pubkey) = (Box::leak(Box::new(pk(&a.key))), Box::leak(Box::new(pk(&a.owner))));
        v.push(crate::make_info(key, owner, &mut a.lamports, &mut a.data, (a.signer, a.writable, a.executable)));
    }
    Box::leak(v.into_boxed_slice())
}
const PLAIN: [&str; 6] = ["payer", "queue", "identity", "vrf", "slothashes", "system"];
const PARTLY: [&str; 7] = ["system", "payer", "state", "queue", "vrf", "identity", "slothashes"];
const OWN: [&str; 6] = ["payer", "identity", "queue", "slothashes", "vrf", "system"];
fn names(kind: usize) -> &'static [&'static str] {
    [&PLAIN[..], &PARTLY[..], &OWN[..]][kind]
}
struct Ask {
    seed: Key,
    disc: Vec<u8>,
    metas: Vec<(Key, bool, bool)>,
    args: Vec<u8>,
    high: bool,
}
fn ask(high: bool) -> Ask {
    let s = sym::pick(&[(8usize, 2usize, 3usize), (0, 0, 0), (3, 1, 9)], "shape");
    Ask {
        seed: sym::bytes("seed"),
        disc: sym::vec(s.0, "disc"),
        metas: (0..s.1).map(|_| (sym::bytes("meta"), sym::flag("ms"), sym::flag("mw"))).collect(),
        args: sym::vec(s.2, "args"),
        high,
    }
}
fn build(a: &Ask, payer: &Key, queue: &Key) -> sdk::compat::Instruction {
    let p = sdk::instructions::RequestRandomnessParams {
        payer: sdk::Pubkey::new_from_array(*payer),
        oracle_queue: sdk::Pubkey::new_from_array(*queue),
        callback_program_id: sdk::Pubkey::new_from_array(ID.to_bytes()),
        callback_discriminator: a.disc.clone(),
        accounts_metas: Some(
            a.metas
                .iter()
                .map(|(k, s, w)| sdk::types::SerializableAccountMeta { pubkey: sdk::Pubkey::new_from_array(*k), is_signer: *s, is_writable: *w })
                .collect(),
        ),
        caller_seed: a.seed,
        callback_args: Some(a.args.clone()),
    };
    if a.high {
        sdk::instructions::create_request_randomness_ix(p)
    } else {
        sdk::instructions::create_request_regular_randomness_ix(p)
    }
}
fn data(a: &Ask) -> Vec<u8> {
    let mut v = vec![if a.high { 3u8 } else { 8 }, 0, 0, 0, 0, 0, 0, 0];
    v.extend_from_slice(&a.seed);
    v.extend_from_slice(ID.as_ref());
    v.extend_from_slice(&(a.disc.len() as u32).to_le_bytes());
    v.extend_from_slice(&a.disc);
    v.extend_from_slice(&(a.metas.len() as u32).to_le_bytes());
    for (k, s, w) in &a.metas {
        v.extend_from_slice(k);
        v.push(*s as u8);
        v.push(*w as u8);
    }
    v.extend_from_slice(&(a.args.len() as u32).to_le_bytes());
    v.extend_from_slice(&a.args);
    v
}
/// The calling program's instruction: validate the accounts, then request. Returns (accounts accepted, request made).
fn call(kind: usize, accts: &[Acct], a: Option<&Ask>, payer: usize, queue: usize) -> (bool, bool) {
    w().enter(&ID.to_bytes(), accts);
    let inf = infos(accts);
    let mut rest = inf;
    let mut re = std::collections::BTreeSet::new();
    macro_rules! go {
        ($t:ident, $b:ident) => {{
            let mut bumps = $b::default();
            match $t::try_accounts(&ID, &mut rest, &[], &mut bumps, &mut re) {
                Err(e) => {
                    core::mem::forget(e);
                    (false, false)
                }
                Ok(x) => match a {
                    None => (true, false),
                    Some(a) => {
                        let ix = build(a, &accts[payer].key, &accts[queue].key);
                        (true, x.invoke_signed_vrf(&inf[payer], &ix).is_ok() & !w().failed)
                    }
                },
            }
        }};
    }
    match kind {
        0 => go!(Plain, PlainBumps),
        1 => go!(Partly, PartlyBumps),
        _ => go!(Own, OwnBumps),
    }
}
/// A program whose accounts are declared with the helper, in each of the three ways, makes a request: one call into the
/// VRF program carrying exactly the request, signed by the payer and the calling program's identity, which the VRF
/// program accepts and records for the calling program.
#[no_mangle]
pub extern "C" fn h_helper_request() {
    let kind = sym::choose(3, "kind");
    let high = sym::choose(2, "high") == 1;
    let wd = w();
    wd.slot = sym::u64("slot");
    wd.time = sym::u64("time") as i64;
    let me: Key = sym::bytes("caller");
    set_caller(&me);
    let a = ask(high);
    let ident = pda(&[b"identity"], &me).0;
    let lam = sym::u64("lam");
    let qlam = sym::u64("qlam");
    sym::assume((lam < 1 << 58) & (qlam < 1 << 58) & (lam >= 800_000));
    let spare = 400;
    let img = image(&[], sym::u8("qindex"), true, spare);
    let (payer, queue): (Key, Key) = (sym::bytes("payer"), sym::bytes("queue"));
    let prog = |k: Key| Acct { executable: true, ..Acct::new(k, sym::bytes("loader"), sym::u64("rent"), vec![]) };
    let accts: Vec<Acct> = names(kind)
        .iter()
        .map(|n| match *n {
            "payer" => Acct::new(payer, SYSTEM, lam, vec![]).sw(),
            "queue" => Acct::new(queue, vrf_id(), qlam, cat(&[&[3, 0, 0, 0, 0, 0, 0, 0], &img])).w(),
            "identity" => Acct::new(ident, sym::bytes("iowner"), sym::u64("ilam"), vec![]),
            "slothashes" => Acct::new(slot_hashes(), sysvar_owner(), 1, sym::vec(48, "sh")),
            "vrf" => prog(vrf_id()),
            "system" => prog(SYSTEM),
            _ => Acct::new(sym::bytes("state"), sym::bytes("sowner"), 1, vec![]).w(),
        })
        .collect();
    distinct(&accts.iter().map(|x| x.key).collect::<Vec<_>>());
    let at = |n: &str| names(kind).iter().position(|x| *x == n).unwrap();
    let old = sym::policy(1);
    let (ok, made) = call(kind, &accts, Some(&a), at("payer"), at("queue"));
    sym::policy(old);
    sym::check(ok, "genuine-accounts-refused");
    sym::check(made, "request-fails");
    if !ok || !made {
        return;
    }
    sym::check(w().cpis.len() == 1, "one-call");
    let c = w().cpis.pop().unwrap();
    sym::check(sym::eq(&c.program, &vrf_id()), "call-to-the-vrf-program");
    sym::check(sym::eq(&c.data, &data(&a)), "request-as-asked");
    // the VRF program's side of the call
    let mut inner = vec![];
    for (k, s, wr) in &c.metas {
        let mut x = accts.iter().find(|x| sym::eq(&x.key, k)).unwrap().clone();
        x.signer = *s;
        x.writable = *wr;
        inner.push(x);
    }
    w().strict = true;
    let r = exec(&mut inner, &[], &c.data);
    sym::check(r.is_ok(), "vrf-program-refuses");
    if r.is_err() {
        return;
    }
    sym::cover("accepted");
    let q = inner.iter().find(|x| sym::eq(&x.key, &queue)).unwrap();
    match parse(&q.data[8..]) {
        Some((1, _, v)) if v.len() == 1 => {
            let mut m = vec![];
            for (k, _, wr) in &a.metas {
                m.extend_from_slice(k);
                m.push(*wr as u8);
            }
            let r = Rec { used: true, slot: w().slot, id: v[0].id, prog: me, prio: high as u8, disc: a.disc.clone(), metas: m, args: a.args.clone() };
            sym::check(v[0].same(&r), "recorded-for-the-caller");
        }
        _ => sym::check(false, "recorded-for-the-caller"),
    }
}
fn vrf_id() -> Key {
    world::vrf()
}
/// Any accounts at all: those the helper accepts are the genuine ones.
#[no_mangle]
pub extern "C" fn h_helper_accounts() {
    let kind = sym::choose(2, "kind");
    let me: Key = sym::bytes("caller");
    set_caller(&me);
    let accts: Vec<Acct> = names(kind)
        .iter()
        .map(|_| Acct {
            key: sym::bytes("key"),
            owner: sym::bytes("owner"),
            lamports: 1,
            data: vec![],
            signer: sym::flag("signer"),
            writable: sym::flag("writable"),
            executable: sym::flag("executable"),
        })
        .collect();
    let (ok, _) = call(kind, &accts, None, 0, 0);
    if !ok {
        sym::cover("refused");
        return;
    }
    sym::cover("accepted");
    let at = |n: &str| &accts[names(kind).iter().position(|x| *x == n).unwrap()];
    sym::check(sym::eq(&at("identity").key, &pda(&[b"identity"], &me).0), "foreign-identity-accepted");
    sym::check(sym::eq(&at("slothashes").key, &slot_hashes()), "forged-slot-hashes-accepted");
    sym::check(sym::eq(&at("vrf").key, &vrf_id()) & at("vrf").executable, "foreign-vrf-program-accepted");
    sym::check(sym::eq(&at("system").key, &SYSTEM) & at("system").executable, "foreign-system-program-accepted");
    sym::check(at("payer").signer & at("payer").writable & at("queue").writable, "declared-constraints-kept");
}

// ------------------------------------------------------------------------------------------------ the SDK's other feature sets
/// Encoding and decoding of a request with this feature set's serializer.
#[no_mangle]
pub extern "C" fn h_feature_codec() {
    let me: Key = sym::bytes("caller");
    set_caller(&me);
    let a = ask(true);
    let v = sdk::types::RequestRandomness {
        caller_seed: a.seed,
        callback_program_id: sdk::Pubkey::new_from_array(me),
        callback_discriminator: a.disc.clone(),
        callback_accounts_metas: a
            .metas
            .iter()
            .map(|(k, s, w)| sdk::types::SerializableAccountMeta { pubkey: sdk::Pubkey::new_from_array(*k), is_signer: *s, is_writable: *w })
            .collect(),
        callback_args: a.args.clone(),
    };
    let b = v.to_bytes();
    sym::check(sym::eq(&b, &data(&a)), "sdk-encodes-as-the-program");
    match <sdk::types::RequestRandomness as sdk::compat::borsh::BorshDeserialize>::try_from_slice(&b[8..]) {
        Ok(x) => sym::check(x == v, "decodes-to-the-same"),
        Err(e) => {
            core::mem::forget(e);
            sym::check(false, "decodes-to-the-same")
        }
    }
    sym::cover("decoded");
}
#[no_mangle]
pub extern "C" fn h_feature_consts() {
    sym::check(sym::eq(sdk::consts::VRF_PROGRAM_ID.as_ref(), &vrf_id()) & sym::eq(sdk::id().as_ref(), &vrf_id()), "program-id");
    sym::check(sym::eq(sdk::consts::DEFAULT_EPHEMERAL_QUEUE.as_ref(), &default_queue()), "default-ephemeral-queue");
    sym::check(sym::eq(sdk::consts::IDENTITY, b"identity"), "identity-seed");
    sym::check(sym::eq(sdk::consts::VRF_PROGRAM_IDENTITY.as_ref(), &pda(&[b"identity"], &vrf_id()).0), "sdk-identity");
    sym::check(sym::eq(<VrfProgram as anchor_lang::Id>::id().as_ref(), &vrf_id()), "program-id");
    sym::cover("checked");
}
#[no_mangle]
pub extern "C" fn h_feature_pdas() {
    use sdk::pda::*;
    let (a, o): (Key, Key) = (sym::bytes("account"), sym::bytes("owner"));
    let i = sym::u8("index");
    let d = ephemeral_vrf_sdk::consts::DELEGATION_PROGRAM_ID.to_bytes();
    sym::check(sym::eq(&d, &solana_program::pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh").to_bytes()), "delegation-program");
    let one = |got: sdk::Pubkey, seeds: &[&[u8]], prog: &Key| sym::eq(got.as_ref(), &pda(seeds, prog).0);
    let p = |k: &Key| sdk::Pubkey::new_from_array(*k);
    let k = p(&a);
    sym::check(one(delegation_record_pda_from_delegated_account(&k), &[b"delegation", &a], &d), "delegation-record");
    sym::check(one(delegation_metadata_pda_from_delegated_account(&k), &[b"delegation-metadata", &a], &d), "delegation-metadata");
    sym::check(one(commit_state_pda_from_delegated_account(&k), &[b"state-diff", &a], &d), "commit-state");
    sym::check(one(commit_record_pda_from_delegated_account(&k), &[b"commit-state-record", &a], &d), "commit-record");
    sym::check(one(delegate_buffer_pda_from_delegated_account_and_owner_program(&k, &p(&o)), &[b"buffer", &a], &o), "delegate-buffer");
    sym::check(one(undelegate_buffer_pda_from_delegated_account(&k), &[b"undelegate-buffer", &a], &d), "undelegate-buffer");
    sym::check(one(fees_vault_pda(), &[b"fees-vault"], &d), "fees-vault");
    sym::check(one(validator_fees_vault_pda_from_validator(&k), &[b"v-fees-vault", &a], &d), "validator-fees-vault");
    sym::check(one(program_config_from_program_id(&k), &[b"p-conf", &a], &d), "program-config");
    sym::check(one(ephemeral_balance_pda_from_payer(&k, i), &[b"balance", &a, &[i]], &d), "ephemeral-balance");
    sym::cover("checked");
}
/// A callback handler that takes the SDK's identity address as signer runs only when the VRF program signs.
#[derive(Accounts)]
pub struct Consume<'info> {
    #[account(address = sdk::consts::VRF_PROGRAM_IDENTITY)]
    pub vrf_program_identity: Signer<'info>,
}
#[no_mangle]
pub extern "C" fn h_feature_consume() {
    let me: Key = sym::bytes("caller");
    set_caller(&me);
    let a = Acct { signer: sym::flag("signer"), writable: sym::flag("writable"), ..Acct::new(sym::bytes("key"), sym::bytes("owner"), 1, vec![]) };
    let genuine = sym::eq(&a.key, &pda(&[b"identity"], &vrf_id()).0) & a.signer;
    let mut rest = infos(&[a]);
    let mut re = std::collections::BTreeSet::new();
    let mut b = ConsumeBumps::default();
    match Consume::try_accounts(&ID, &mut rest, &[], &mut b, &mut re) {
        Ok(_) => {
            sym::cover("accepted");
            sym::check(genuine, "callback-without-the-vrf-programs-signature");
        }
        Err(e) => {
            core::mem::forget(e);
            sym::cover("refused");
            sym::check(!genuine, "genuine-callback-refused");
        }
    }
}
// ------------------------------------------------------------------------------------------------ who can run a callback
/// A handler as the SDK documents it, in the program Y.
fn guarded(y: &Key, a: Acct) -> bool {
    set_caller(y);
    let mut rest = infos(&[a]);
    let mut re = std::collections::BTreeSet::new();
    let mut b = ConsumeBumps::default();
    match Consume::try_accounts(&ID, &mut rest, &[], &mut b, &mut re) {
        Ok(_) => true,
        Err(e) => {
            core::mem::forget(e);
            false
        }
    }
}
/// A pending request of program X is fulfilled. The signature that the fulfilment lends to X's callback runs X's guarded
/// handler, and no other program's: X could pass it on, with any randomness it likes.
#[no_mangle]
pub extern "C" fn h_callback_authentic() {
    let wd = w();
    wd.slot = sym::u64("slot");
    let (x, y): (Key, Key) = (sym::bytes("requester"), sym::bytes("other"));
    sym::assume(!sym::eq(&x, &y) & !sym::eq(&x, &SYSTEM) & !sym::eq(&x, &vrf_id()) & !sym::eq(&y, &vrf_id()));
    let r = Rec { used: true, slot: sym::u64("rslot"), id: sym::bytes("id"), prog: x, prio: sym::choose(2, "prio") as u8, disc: sym::vec(8, "disc"), metas: vec![], args: sym::vec(2, "args") };
    sym::assume(r.slot < wd.slot);
    let oracle: Key = sym::bytes("oracle");
    let img = image(&[r.clone()], sym::u8("index"), true, 0);
    let qk = queue_pda(&oracle, img[8]);
    // an honest proof
    let mut sk: Key = sym::bytes("sk");
    sk[31] = 0;
    let h = toy::mul(&toy::reduce(&sha(&[b"VRF-Ephem-HashToPoint", &r.id])), &toy::base());
    let k: Key = sym::bytes("nonce");
    let (pk, out, cb, ch) = (toy::mul(&sk, &toy::base()), toy::mul(&sk, &h), toy::mul(&k, &toy::base()), toy::mul(&k, &h));
    let c = toy::reduce(&sha(&[b"VRF-Ephem-HashToScalar", &sha(&[b"VRF-Ephem-Challenge", &out, &cb, &ch, &pk, &r.id])]));
    let s = toy::sadd(&k, &toy::smul(&c, &sk));
    let lam = |n: &str| {
        let v = sym::u64(n);
        sym::assume((v > 1_000_000) & (v < 1 << 58));
        v
    };
    let mut a = vec![
        Acct::new(oracle, SYSTEM, lam("olam"), vec![]).sw(),
        Acct::new(identity_pda(), sym::bytes("iowner"), lam("ilam"), vec![]),
        Acct::new(oracle_pda(&oracle), vrf_id(), lam("dlam"), cat(&[&[1, 0, 0, 0, 0, 0, 0, 0], &pk, &sym::u64("reg").to_le_bytes(), &1u64.to_le_bytes()])),
        Acct::new(qk, vrf_id(), lam("qlam"), cat(&[&[3, 0, 0, 0, 0, 0, 0, 0], &img])).w(),
        Acct::new(x, sym::bytes("loader"), lam("xlam"), vec![]),
    ];
    distinct(&a.iter().map(|x| x.key).collect::<Vec<_>>());
    wd.foreign = None;
    wd.strict = true;
    let res = exec(&mut a, &[], &cat(&[&[4, 0, 0, 0, 0, 0, 0, 0], &r.id, &out, &cb, &ch, &s]));
    sym::check(res.is_ok(), "fulfilment-refused");
    if res.is_err() {
        return;
    }
    let calls = core::mem::take(&mut w().cpis);
    sym::check(calls.len() == 1 && sym::eq(&calls[0].program, &x), "only-the-requester-is-called");
    for c in calls {
        let mut ran = false;
        for (k, s, wr) in &c.metas {
            if *s {
                let lent = Acct { signer: true, writable: *wr, ..Acct::new(*k, sym::bytes("lowner"), 1, vec![]) };
                ran |= guarded(&x, lent.clone());
                sym::check(!guarded(&y, lent), "signature-runs-another-programs-handler");
            }
        }
        sym::check(ran, "own-handler-refuses");
        sym::cover("called-back");
    }
}
