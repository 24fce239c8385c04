//! Delegation, undelegation, dispatch and the escrow invariant, through the program's entrypoint.
use crate::life::*;
use crate::prov::*;
use crate::qmodel::*;
use crate::queue::{any_queue, SHAPES};
use crate::req::*;
use crate::sym::{self, Key};
use crate::world::*;
use solana_program::account_info::AccountInfo;

pub fn dlp() -> Key {
    solana_program::pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh").to_bytes()
}
pub fn magic() -> Key {
    solana_program::pubkey!("Magic11111111111111111111111111111111111111").to_bytes()
}
pub fn magic_context() -> Key {
    solana_program::pubkey!("MagicContext1111111111111111111111111111111").to_bytes()
}

// ------------------------------------------------------------------------------------------------ delegation
/// What the delegation program was shown: queue owner, queue data, buffer owner, buffer data.
static mut SHOWN: Option<(Key, Vec<u8>, Key, Vec<u8>)> = None;
pub fn delegation_program(c: &Cpi, infos: &[AccountInfo]) -> bool {
    if !sym::eq(&c.program, &dlp()) || c.metas.len() < 4 {
        return true; // judged by the harness afterwards
    }
    let get = |k: &Key| infos.iter().find(|i| sym::eq(i.key.as_ref(), k)).map(|i| (i.owner.to_bytes(), i.data.borrow().to_vec()));
    match (get(&c.metas[1].0), get(&c.metas[3].0)) {
        (Some(q), Some(b)) => {
            // the delegation program takes only accounts it owns already
            let ok = sym::eq(&q.0, &dlp()) & c.metas[0].1 & c.metas[1].1;
            unsafe { SHOWN = Some((q.0, q.1, b.0, b.1)) };
            ok
        }
        _ => false,
    }
}
/// Delegating hands exactly the signing authority's own queue, with its content, to the delegation program.
#[allow(static_mut_refs)]
fn delegate() {
    sym_clock();
    let (_, img) = any_queue(1, &SHAPES[..1], &[0]);
    let auth: Key = sym::bytes("auth");
    let index = sym::u8("arg");
    let blam = [0, lamports("blam")][sym::choose(2, "funded")];
    let mut a = vec![
        Acct::new(auth, SYSTEM, lamports("lam"), vec![]).w(),
        Acct::new(sym::bytes("queue"), vrf(), lamports("qlam"), queue_data(&img)),
        Acct::new(sym::bytes("buffer"), SYSTEM, blam, vec![]).w(),
        Acct::new(sym::bytes("record"), SYSTEM, 0, vec![]).w(),
        Acct::new(sym::bytes("metadata"), SYSTEM, 0, vec![]).w(),
        Acct { executable: true, ..Acct::new(sym::bytes("dprog"), [9u8; 32], 1, vec![]) },
        Acct { executable: true, ..Acct::new(sym::bytes("oprog"), [9u8; 32], 1, vec![]) },
        sysprog(),
    ];
    a[0].signer = sym::flag("signs");
    a[1].writable = sym::flag("qw");
    let ks: Vec<Key> = a.iter().map(|x| x.key).collect();
    distinct(&ks);
    let pre = a.clone();
    let qd = a[1].data.clone();
    let own = sym::eq(&a[1].key, &queue_pda(&auth, index));
    let auth_ok = a[0].signer & a[1].writable & own & sym::eq(&a[6].key, &vrf());
    let want = auth_ok & sym::eq(&a[5].key, &dlp()) & sym::eq(&a[2].key, &pda(&[b"buffer", &a[1].key], &vrf()).0);
    w().foreign = Some(delegation_program);
    unsafe { SHOWN = None };
    let res = exec(&mut a, &[], &[5, 0, 0, 0, 0, 0, 0, 0, index]);
    if res.is_err() {
        sym::cover("rejected");
        sym::check(!want, "valid-delegation-refused");
        return;
    }
    sym::cover("delegated");
    sym::check(auth_ok, "only-its-own-queue");
    sym::check(want, "delegated-wrongly");
    sym::check(sym::eq(&a[1].owner, &dlp()), "queue-owned-by-delegation-program");
    sym::check(a[1].lamports == pre[1].lamports, "queue-lamports-kept");
    for c in &w().cpis {
        let sys = sym::eq(&c.program, &SYSTEM);
        sym::check(sys | sym::eq(&c.program, &dlp()), "calls-only-system-and-delegation-program");
        if !sys {
            sym::check(c.metas.len() == 7, "delegation-call-accounts");
            if c.metas.len() != 7 {
                continue;
            }
            let want = [a[0].key, a[1].key, vrf(), a[2].key, a[3].key, a[4].key, SYSTEM];
            for i in 0..7 {
                sym::check(sym::eq(&c.metas[i].0, &want[i]), "delegation-call-accounts");
            }
            // seeds of the queue, so that it can be re-created under the same address
            let mut d = vec![0u8; 8];
            d.extend_from_slice(&0u32.to_le_bytes());
            d.extend_from_slice(&3u32.to_le_bytes());
            let ix = [index];
            for s in [&b"queue"[..], &auth, &ix] {
                d.extend_from_slice(&(s.len() as u32).to_le_bytes());
                d.extend_from_slice(s);
            }
            sym::check(c.data.len() >= d.len() && sym::eq(&c.data[..d.len()], &d), "delegation-call-names-the-queue-seeds");
        }
    }
    match unsafe { &SHOWN } {
        None => sym::check(false, "delegation-program-called"),
        Some((_, q, bo, b)) => {
            sym::check(sym::eq(bo, &vrf()) & sym::eq(b, &qd), "content-handed-over");
            sym::check(zero(q), "queue-blank-while-delegated");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_delegate() {
    delegate();
}

/// Undelegating: only by the signing authority of the queue, through the magic program, lending no signature.
#[no_mangle]
pub extern "C" fn h_undelegate() {
    sym_clock();
    let (_, img) = any_queue(1, &SHAPES[..1], &[0]);
    let auth: Key = sym::bytes("auth");
    let index = sym::u8("arg");
    let mut a = vec![
        Acct::new(auth, SYSTEM, lamports("lam"), vec![]).w(),
        Acct::new(sym::bytes("queue"), sym::bytes("qowner"), lamports("qlam"), queue_data(&img)),
        Acct::new(sym::bytes("context"), sym::bytes("cowner"), lamports("clam"), vec![]).w(),
        Acct { executable: true, ..Acct::new(sym::bytes("magic"), [9u8; 32], 1, vec![]) },
    ];
    a[0].signer = sym::flag("signs");
    a[1].writable = sym::flag("qw");
    let ks: Vec<Key> = a.iter().map(|x| x.key).collect();
    distinct(&ks);
    let pre = a.clone();
    let want = a[0].signer
        & a[1].writable
        & sym::eq(&a[1].key, &queue_pda(&auth, index))
        & sym::eq(&a[2].key, &magic_context())
        & sym::eq(&a[3].key, &magic());
    w().foreign = None;
    let res = exec(&mut a, &[], &[6, 0, 0, 0, 0, 0, 0, 0, index]);
    if res.is_err() {
        sym::cover("rejected");
        sym::check(!want, "valid-undelegation-refused");
        return;
    }
    sym::cover("scheduled");
    sym::check(want, "undelegated-wrongly");
    for i in 0..4 {
        sym::check(a[i].same(&pre[i]), "accounts-untouched");
    }
    let cp = &w().cpis;
    sym::check(cp.len() == 1, "one-call");
    if cp.len() != 1 {
        return;
    }
    let c = &cp[0];
    sym::check(sym::eq(&c.program, &magic()) & (c.signers.is_empty()), "magic-program-called-without-queue-signature");
    sym::check(c.metas.len() == 3, "call-accounts");
    if c.metas.len() == 3 {
        for (i, k) in [auth, magic_context(), pre[1].key].iter().enumerate() {
            sym::check(sym::eq(&c.metas[i].0, k), "call-accounts");
        }
    }
    // ScheduleCommitAndUndelegate
    sym::check(sym::eq(&c.data, &[2, 0, 0, 0]), "call-data");
}

/// Completion of an undelegation, by the delegation program only, re-creates the account with the buffer's content.
#[no_mangle]
pub extern "C" fn h_process_undelegation() {
    sym_clock();
    let n = sym::pick(&[0usize, 1, 40, 136], "buflen");
    let sl: &[usize] = sym::pick(&[&[5usize, 32, 1][..], &[7][..], &[][..]], "seeds");
    let seeds: Vec<Vec<u8>> = sl.iter().map(|l| sym::vec(*l, "seed")).collect();
    let mut data = vec![196u8, 0, 0, 0, 0, 0, 0, 0];
    data.extend_from_slice(&(seeds.len() as u32).to_le_bytes());
    for s in &seeds {
        data.extend_from_slice(&(s.len() as u32).to_le_bytes());
        data.extend_from_slice(s);
    }
    let good_data = match sym::choose(3, "data") {
        0 => true,
        1 => {
            data.push(sym::u8("tail"));
            false
        }
        _ => {
            data.pop();
            false
        }
    };
    let qlam = [0, lamports("qlam")][sym::choose(2, "funded")];
    let taken = sym::choose(2, "taken") == 1;
    let mut a = vec![
        Acct::new(sym::bytes("queue"), if taken { vrf() } else { SYSTEM }, qlam, if taken { sym::vec(24, "old") } else { vec![] }).w(),
        Acct::new(sym::bytes("buffer"), sym::bytes("bowner"), lamports("blam"), sym::vec(n, "content")),
        Acct::new(sym::bytes("payer"), SYSTEM, lamports("plam"), vec![]).w(),
        sysprog(),
    ];
    a[1].signer = sym::flag("bsigns");
    a[2].signer = sym::flag("psigns");
    let ks: Vec<Key> = a.iter().map(|x| x.key).collect();
    distinct(&ks);
    let pre = a.clone();
    let parts: Vec<&[u8]> = seeds.iter().map(|s| &s[..]).collect();
    // anyone can own an account of the delegation program: a key pair's account, assigned to it while blank
    let trusted = a[1].signer & sym::eq(&a[1].owner, &dlp()) & sym::eq(&a[1].key, &pda(&[b"undelegate-buffer", &a[0].key], &dlp()).0);
    let own = sym::eq(&a[0].key, &pda(&parts, &vrf()).0);
    let rent = rent_min(n);
    let pays = sym::ite(rent > qlam, rent.wrapping_sub(qlam), 0);
    let want = trusted & own & good_data & !taken & (a[2].lamports >= pays) & (a[2].signer | (pays == 0) & (qlam != 0));
    let res = exec(&mut a, &[], &data);
    if res.is_err() {
        sym::cover("rejected");
        sym::check(!want, "valid-completion-refused");
        return;
    }
    sym::cover("recreated");
    sym::check(trusted, "only-the-delegation-program");
    sym::check(own, "only-at-the-derived-address");
    sym::check(!taken, "live-account-overwritten");
    sym::check(want, "completed-wrongly");
    sym::check(sym::eq(&a[0].owner, &vrf()) & sym::eq(&a[0].data, &pre[1].data), "content-restored");
    sym::check(a[0].lamports >= rent, "rent-exempt");
    sym::check((a[2].lamports == pre[2].lamports.wrapping_sub(pays)) & a[1].same(&pre[1]), "payer-pays-rent-only");
}

// ------------------------------------------------------------------------------------------------ dispatch
/// Short, unknown or foreign instructions, and wrong account lists, are refused.
#[no_mangle]
pub extern "C" fn h_dispatch() {
    sym_clock();
    let n = sym::choose(9, "len");
    let data = sym::vec(n, "data");
    let k = sym::choose(2, "accounts");
    let mut a: Vec<Acct> = (0..k).map(|_| Acct::new(sym::bytes("key"), sym::bytes("owner"), lamports("lam"), sym::vec(8, "d")).sw()).collect();
    w().strict = true;
    let res = exec(&mut a, &[], &data);
    sym::cover(if n < 8 { "short" } else { "tag" });
    sym::check(res.is_err(), "malformed-instruction-accepted");
}
pub const TAGS: [u8; 11] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 196];
fn sizes(tag: u8) -> (usize, usize) {
    // (accounts, payload)
    match tag {
        0 => (3, 0),
        1 => (5, 65),
        2 => (5, 8),
        3 | 8 => (5, 76),
        4 => (5, 160),
        5 => (8, 1),
        6 => (4, 1),
        7 => (3, 1),
        9 => (2, 1),
        _ => (4, 4),
    }
}
/// Every known instruction sent to another program id, with a payload of the wrong size, with an account missing or
/// one too many, and every unknown tag.
#[no_mangle]
pub extern "C" fn h_dispatch_sizes() {
    sym_clock();
    let tag = sym::u8("tag");
    let mut known = None;
    for t in TAGS {
        if tag == t {
            known = Some(t);
        }
    }
    let (na, np) = sizes(known.unwrap_or(1));
    let wrong = sym::choose(4, "wrong");
    let (na, np, pid) = match (known, wrong) {
        (None, _) => (na, np, vrf()),
        (_, 0) => {
            let p: Key = sym::bytes("pid");
            sym::assume(!sym::eq(&p, &vrf()));
            (na, np, p)
        }
        (_, 1) => (na - 1, np, vrf()),
        // the provide handler takes the callback's accounts behind its own
        (Some(t), 2) if t != 4 => (na + 1, np, vrf()),
        (Some(t), _) => match t {
            3 | 8 => (na, 75, vrf()),
            196 => (na, 3, vrf()),
            _ => (na, if np > 0 && sym::choose(2, "shorter") == 1 { np - 1 } else { np + 1 }, vrf()),
        },
    };
    let mut data = vec![tag, 0, 0, 0, 0, 0, 0, 0];
    let mut pl = sym::vec(np, "payload");
    if matches!(known, Some(3) | Some(8)) {
        pl[64..].fill(0); // three empty lists, or cut short in the last one
    }
    if known == Some(196) && np >= 4 {
        pl.fill(0);
    }
    data.extend_from_slice(&pl);
    let mut a: Vec<Acct> = (0..na).map(|_| Acct::new(sym::bytes("key"), vrf(), 1 << 40, vec![0u8; 56]).sw()).collect();
    let ks: Vec<Key> = a.iter().map(|x| x.key).collect();
    distinct(&ks);
    let res = exec_as(&pid, &mut a, &[], &data);
    sym::cover(if known.is_none() { "unknown-tag" } else { ["other-program", "too-few", "too-many", "bad-size"][wrong] });
    sym::check(res.is_err(), "malformed-instruction-accepted");
}

// ------------------------------------------------------------------------------------------------ escrow
/// Lamports a queue must hold: rent and the fees of everything pending (the default queue's requests are free).
fn owed(q: &Acct, l: &[Rec], dflt: bool) -> u64 {
    let mut s = rent_min(q.data.len());
    for r in l {
        s = s.wrapping_add(if dflt { 0 } else { r.cost() });
    }
    s
}
/// This oracle's queue of this index: the default one or not.
fn home_or_not(oracle: &Key, index: u8) -> (Key, bool) {
    let dflt = sym::choose(2, "default-queue") == 1;
    if dflt {
        make_home(oracle, index);
    }
    let qk = queue_pda(oracle, index);
    sym::assume(sym::eq(&qk, &default_queue()) == dflt);
    (qk, dflt)
}
fn solvent_after(q: &Acct, dflt: bool) {
    match parse(&q.data[8..]) {
        None => sym::check(false, "queue-wellformed"),
        Some((_, _, l)) => sym::check(q.lamports >= owed(q, &l, dflt), "escrow-covers-pending-fees"),
    }
}
#[no_mangle]
pub extern "C" fn h_escrow_request() {
    sym_clock();
    let high = sym::choose(2, "high") == 1;
    let dflt = sym::choose(2, "default-queue") == 1;
    let r = Req::sym((8, 1, 3), high);
    let (recs, img) = any_queue(2, &SHAPES[..1], &[0, 400]);
    let old = live(&recs);
    let mut a = vec![
        Acct::new(sym::bytes("signer"), SYSTEM, lamports("lam"), vec![]).sw(),
        Acct::new(pda(&[b"identity"], &r.prog).0, sym::bytes("iowner"), lamports("ilam"), vec![]).s(),
        Acct::new(if dflt { default_queue() } else { sym::bytes("queue") }, vrf(), lamports("qlam"), queue_data(&img)).w(),
        sysprog(),
        slothash_acct(),
    ];
    let ks: Vec<Key> = a.iter().map(|x| x.key).collect();
    distinct(&ks);
    sym::assume(sym::eq(&a[2].key, &default_queue()) == dflt);
    sym::assume(a[2].lamports >= owed(&a[2], &old, dflt));
    if exec(&mut a, &[], &r.data()).is_err() {
        sym::cover("rejected");
        return;
    }
    sym::cover("accepted");
    solvent_after(&a[2], dflt);
}
#[no_mangle]
pub extern "C" fn h_escrow_purge() {
    sym_clock();
    let (recs, img) = any_queue(2, &SHAPES[..1], &[0]);
    let old = live(&recs);
    let oracle: Key = sym::bytes("oracle");
    let (qk, dflt) = home_or_not(&oracle, 5);
    let mut a = vec![
        Acct::new(oracle, SYSTEM, lamports("lam"), vec![]).w(),
        Acct::new(qk, vrf(), lamports("qlam"), queue_data(&img)).w(),
    ];
    distinct(&[a[0].key, a[1].key]);
    sym::assume(a[1].lamports >= owed(&a[1], &old, dflt));
    w().strict = true;
    let res = exec(&mut a, &[], &purge_data(5));
    sym::check(res.is_ok(), "solvent-purge-refused");
    if res.is_ok() {
        sym::cover("accepted");
        solvent_after(&a[1], dflt);
    }
}
#[no_mangle]
pub extern "C" fn h_escrow_provide() {
    sym_clock();
    let (recs, img) = any_queue(2, &SHAPES[..1], &[0]);
    pending_invariants(&recs);
    let old = live(&recs);
    distinct_ids(&old);
    if old.is_empty() {
        return;
    }
    let k = sym::choose(old.len(), "which");
    let input = old[k].id;
    let mut sk: Key = sym::bytes("sk");
    sk[31] = 0;
    let (pk, p) = Proof::honest(&sk, &input);
    let oracle: Key = sym::bytes("oracle");
    let (qk, dflt) = home_or_not(&oracle, img[8]);
    let mut a = vec![
        Acct::new(oracle, SYSTEM, lamports("lam"), vec![]).sw(),
        Acct::new(identity_pda(), SYSTEM, 0, vec![]),
        Acct::new(oracle_pda(&oracle), vrf(), lamports("olam"), oracle_data(&pk, 0, 1)),
        Acct::new(qk, vrf(), lamports("qlam"), queue_data(&img)).w(),
        Acct::new(old[k].prog, SYSTEM, 1, vec![]),
    ];
    a.extend(callback_accts(&old[k]));
    let ks: Vec<Key> = a.iter().map(|x| x.key).collect();
    distinct(&ks);
    sym::assume(a[3].lamports >= owed(&a[3], &old, dflt));
    sym::assume(w().slot > old[k].slot);
    w().foreign = None;
    w().strict = true;
    let res = exec(&mut a, &[], &p.data(&input));
    sym::check(res.is_ok(), "solvent-fulfilment-refused");
    if res.is_ok() {
        sym::cover("accepted");
        solvent_after(&a[3], dflt);
    }
}
