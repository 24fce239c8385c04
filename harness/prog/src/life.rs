//! Purge, close, queue initialisation, registry initialisation and registry changes, through the program's entrypoint.
use crate::prov::*;
use crate::qmodel::*;
use crate::queue::{any_queue, SHAPES};
use crate::req::*;
use crate::sym::{self, Key};
use crate::world::*;

pub const TTL: u64 = 240;

// ------------------------------------------------------------------------------------------------ purge
pub fn purge_data(index: u8) -> Vec<u8> {
    vec![9, 0, 0, 0, 0, 0, 0, 0, index]
}
fn expired(r: &Rec, now: u64) -> bool {
    (now > r.slot) & (now.wrapping_sub(r.slot) > TTL)
}
/// Anyone may purge any oracle's queue: it removes exactly the requests older than the time to live, in place, and pays
/// the oracle exactly their fees; everything else is rejected without effect.
fn purge(shapes: &[(usize, usize, usize)], max: usize, homes: usize) {
    sym_clock();
    let fresh = sym::choose(2, "created-only-in-part") == 1;
    let (recs, img) = if fresh { (vec![], vec![0u8; 40]) } else { any_queue(max, shapes, &[0]) };
    let old = live(&recs);
    let index = sym::u8("arg");
    let oracle: Key = sym::bytes("oracle");
    let qd = if fresh { vec![0u8; 48] } else { queue_data(&img) };
    let mut a = vec![
        Acct::new(oracle, SYSTEM, lamports("lam"), vec![]).w(),
        Acct::new(sym::bytes("queue"), sym::bytes("qowner"), lamports("qlam"), qd),
    ];
    a[1].writable = sym::flag("qw");
    // the default queue: this oracle's of this index, or not
    let dflt = if homes > 0 { sym::choose(homes, "default-queue") } else { 0 };
    if dflt > 0 {
        a[1].key = default_queue();
    }
    if dflt == 1 {
        make_home(&oracle, index);
    }
    let dflt = dflt > 0;
    sym::assume(sym::eq(&a[1].key, &default_queue()) == dflt);
    distinct(&[a[0].key, a[1].key]);
    let pre = a.clone();
    let now = w().slot;
    w().strict = true;
    let res = exec(&mut a, &[], &purge_data(index));
    // what the expired requests paid; mostly decided by the path already
    let mut due = 0u64;
    if !dflt {
        for r in &old {
            if expired(r, now) {
                due += if r.prio == 1 { 800_000 } else { 500_000 };
            }
        }
    }
    let want = pre[1].writable & sym::eq(&pre[1].owner, &vrf()) & sym::eq(&pre[1].key, &queue_pda(&oracle, index)) & (pre[1].lamports >= due);
    if res.is_err() {
        sym::cover("rejected");
        sym::check(!want | fresh, "valid-purge-refused");
        return;
    }
    sym::check(want, "purge-accepted-wrongly");
    if fresh {
        // not a queue yet: its creation goes on only while it is blank
        sym::check(a[0].same(&pre[0]) & a[1].same(&pre[1]), "part-created-queue-changed");
        return;
    }
    if a[1].data.len() != pre[1].data.len() {
        sym::check(false, "queue-size-kept");
        return;
    }
    sym::check(a[0].lamports == pre[0].lamports.wrapping_add(due), "oracle-paid-exactly");
    sym::check(a[1].lamports == pre[1].lamports.wrapping_sub(due), "queue-pays-exactly");
    sym::check(sym::eq(&a[1].owner, &pre[1].owner) & sym::eq(&a[1].data[..8], &pre[1].data[..8]), "queue-account-kept");
    sym::check(sym::eq(&a[0].owner, &pre[0].owner) & (a[0].data.len() == 0), "oracle-account-kept");
    match parse(&a[1].data[8..]) {
        None => sym::check(false, "queue-wellformed"),
        Some((c, ix, l)) => {
            sym::check(c as usize == l.len() && ix == pre[1].data[16], "queue-header");
            // expected survivors; the path has decided which they are
            let mut want = vec![];
            for r in &old {
                if !expired(r, now) {
                    want.push(r.clone());
                }
            }
            sym::cover(if want.len() == old.len() { "kept-all" } else if want.is_empty() { "purged-all" } else { "purged-some" });
            sym::check(l.len() == want.len(), "removes-exactly-the-expired");
            sym::check(same_list(&l, &want), "keeps-exactly-the-fresh");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_purge() {
    purge(&SHAPES[..2], 2, 3);
}
#[no_mangle]
pub extern "C" fn h_purge3() {
    purge(&[(0, 0, 0)], 3, 2);
}
#[no_mangle]
pub extern "C" fn h_purge_many() {
    purge(&[], crate::queue::MANY, 0);
}
#[no_mangle]
pub extern "C" fn h_purge_deep() {
    purge(&SHAPES[..1], 4, 2);
}

// ------------------------------------------------------------------------------------------------ close
/// Closing succeeds exactly for the signing owner of an empty queue, hands over all its lamports, and lowers the owner's
/// open-queue count by one for an initialised queue.
fn close(max: usize) {
    sym_clock();
    let fresh = sym::choose(2, "created-only-in-part") == 1;
    let (recs, img) = if fresh { (vec![], vec![0u8; 40]) } else { any_queue(max, &SHAPES[..2], &[0, 9]) };
    let old = live(&recs);
    let index = sym::u8("arg");
    let oracle: Key = sym::bytes("oracle");
    let open = sym::u64("open");
    let mut od = oracle_data(&sym::bytes("pk"), sym::u64("rslot"), open);
    od[0] = sym::u8("odisc");
    let od = match sym::choose(3, "odlen") {
        0 => od,
        1 => od[..55].to_vec(),
        _ => vec![],
    };
    let qd = if fresh { vec![0u8; 48] } else { queue_data(&img) };
    let mut a = vec![
        Acct::new(oracle, SYSTEM, lamports("lam"), vec![]).w(),
        Acct::new(sym::bytes("odata"), sym::bytes("oowner"), lamports("olam"), od),
        Acct::new(sym::bytes("queue"), sym::bytes("qowner"), lamports("qlam"), qd),
    ];
    a[0].signer = sym::flag("osigns");
    a[1].writable = sym::flag("ow");
    a[2].writable = sym::flag("qw");
    distinct(&[a[0].key, a[1].key, a[2].key]);
    // programs cannot give away an account with data to an address of this program: what this program owns, it created
    let pre = a.clone();
    let od_ok = a[1].data.len() == 56 && a[1].data[0] == 1;
    let want = a[0].signer
        & a[1].writable
        & a[2].writable
        & sym::eq(&a[1].owner, &vrf())
        & sym::eq(&a[2].owner, &vrf())
        & sym::eq(&a[1].key, &oracle_pda(&oracle))
        & sym::eq(&a[2].key, &queue_pda(&oracle, index))
        & old.is_empty();
    w().strict = true;
    let res = exec(&mut a, &[], &[7, 0, 0, 0, 0, 0, 0, 0, index]);
    if res.is_err() {
        sym::cover("rejected");
        sym::check(!(want & od_ok), "valid-close-refused");
        return;
    }
    sym::cover(if fresh { "closed-partial" } else { "closed" });
    sym::check(want, "close-accepted-wrongly");
    sym::check(fresh | od_ok, "close-without-oracle-record");
    sym::check(a[0].lamports == pre[0].lamports.wrapping_add(pre[2].lamports) && a[2].lamports == 0, "owner-receives-everything");
    sym::check(a[2].data.is_empty() && sym::eq(&a[2].owner, &SYSTEM), "queue-gone");
    sym::check(a[1].lamports == pre[1].lamports && sym::eq(&a[1].owner, &pre[1].owner), "oracle-account-kept");
    if fresh {
        sym::check(sym::eq(&a[1].data, &pre[1].data), "uncounted-queue-leaves-count");
    } else {
        let n = sym::ite(open == 0, 0, open.wrapping_sub(1));
        sym::check(a[1].data.len() == 56 && sym::eq(&a[1].data[..48], &pre[1].data[..48]), "oracle-record-kept");
        sym::check(a[1].data.len() == 56 && le(&a[1].data[48..56]) == n, "open-queue-count");
    }
}
#[no_mangle]
pub extern "C" fn h_close() {
    close(2);
}
#[no_mangle]
pub extern "C" fn h_close_many() {
    close(crate::queue::BYTEFUL);
}

// ------------------------------------------------------------------------------------------------ queue initialisation
pub fn init_data(size: u32, index: u8) -> Vec<u8> {
    cat(&[&[2, 0, 0, 0, 0, 0, 0, 0], &size.to_le_bytes(), &[index, 0, 0, 0]])
}
pub fn zero(b: &[u8]) -> bool {
    let z = vec![0u8; b.len()];
    sym::eq(b, &z)
}
/// One InitializeOracleQueue from any stage: absent, absent but funded, part-grown, initialised, foreign.
fn init_queue(sizes: &[u32], stages: &[usize]) {
    sym_clock();
    let target = sym::pick(sizes, "target");
    let index = sym::u8("arg");
    let oracle: Key = sym::bytes("oracle");
    let open = sym::u64("open");
    let rslot = sym::u64("rslot");
    let mut od = oracle_data(&sym::bytes("pk"), rslot, open);
    od[0] = sym::u8("odisc");
    let stage = sym::pick(stages, "stage");
    // (owned by the program, data)
    let (own, data): (bool, Vec<u8>) = match stage {
        0 => (false, vec![]),
        1 => (true, sym::vec(32, "grown")),
        2 => (true, vec![0u8; 10240]),
        3 => (true, vec![0u8; 20480]),
        _ => (true, queue_data(&any_queue(1, &SHAPES[..1], &[0]).1)),
    };
    let qowner = if own { vrf() } else { SYSTEM };
    let qlam = if own { lamports("qlam") } else { [0, lamports("qlam")][sym::choose(2, "funded")] };
    let mut a = vec![
        Acct::new(sym::bytes("payer"), SYSTEM, lamports("plam"), vec![]).w(),
        Acct::new(oracle, SYSTEM, lamports("lam"), vec![]),
        Acct::new(sym::bytes("odata"), sym::bytes("oowner"), lamports("olam"), od),
        Acct::new(sym::bytes("queue"), qowner, qlam, data),
        sysprog(),
    ];
    a[0].signer = sym::flag("psigns");
    a[1].signer = sym::flag("osigns");
    a[2].writable = sym::flag("ow");
    a[3].writable = sym::flag("qw");
    let ks: Vec<Key> = a.iter().map(|x| x.key).collect();
    distinct(&ks);
    if own {
        // every account of this program is rent exempt
        sym::assume(a[3].lamports >= rent_min(a[3].data.len()));
    }
    let pre = a.clone();
    let cur = a[3].data.len();
    let grow = (target as usize).saturating_sub(cur) > 10_240;
    let size = if grow { cur + 10_240 } else { target as usize };
    let rent = rent_min(size);
    let have = a[3].lamports;
    let pays = sym::ite(rent > have, rent.wrapping_sub(have), 0);
    let waited = (w().slot >= rslot) & (w().slot.wrapping_sub(rslot) >= 200);
    let blank = zero(&a[3].data);
    let cond = a[0].signer
        & a[1].signer
        & a[3].writable
        & sym::eq(&a[2].key, &oracle_pda(&oracle))
        & sym::eq(&a[2].owner, &vrf())
        & (a[2].data[0] == 1)
        & sym::eq(&a[3].key, &queue_pda(&oracle, index))
        & blank
        & waited;
    let fits = grow | (target >= 20);
    let want = cond & fits & (grow | a[2].writable) & (a[0].lamports >= pays);
    let res = exec(&mut a, &[], &init_data(target, index));
    if res.is_err() {
        sym::cover("rejected");
        sym::check(!want, "valid-init-refused");
        return;
    }
    sym::check(cond, "init-accepted-wrongly");
    sym::cover(if grow { "grown" } else { "initialised" });
    sym::check(sym::eq(&a[3].owner, &vrf()), "queue-owned-by-program");
    sym::check(a[3].data.len() == size, "queue-size");
    sym::check(a[3].lamports >= rent, "queue-rent-exempt");
    sym::check(a[0].lamports.wrapping_add(a[3].lamports) == pre[0].lamports.wrapping_add(pre[3].lamports), "payer-pays-rent-only");
    sym::check((pays == 0) | (a[0].lamports == pre[0].lamports.wrapping_sub(pays)), "payer-pays-exactly");
    sym::check((a[1].lamports == pre[1].lamports) & (a[2].lamports == pre[2].lamports), "others-lamports");
    sym::check(sym::eq(&a[2].data[..48], &pre[2].data[..48]) & sym::eq(&a[2].owner, &pre[2].owner), "oracle-record-kept");
    if a[3].data.len() != size {
        return;
    }
    let n = le(&a[2].data[48..56]);
    if grow {
        sym::check(zero(&a[3].data), "part-grown-queue-blank");
        sym::check(n == open, "uncounted-until-initialised");
    } else {
        sym::check(n == sym::ite(open == u64::MAX, open, open.wrapping_add(1)), "open-queue-count");
        let mut h = vec![3u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, index];
        h.resize(size, 0);
        let ok = sym::eq(&a[3].data[..8], &h[..8]) & (a[3].data[16] == index) & zero(&a[3].data[8..12]) & zero(&a[3].data[17..]);
        sym::check(ok, "queue-empty-and-tagged");
    }
}
#[no_mangle]
pub extern "C" fn h_init() {
    init_queue(&[0, 23, 24, 9500, 10240], &[0, 1, 4]);
}
#[no_mangle]
pub extern "C" fn h_init_grow() {
    init_queue(&[10241, 20480, 20481, 65_560, 16_777_240, u32::MAX], &[0, 2]);
}
#[no_mangle]
pub extern "C" fn h_init_shrink() {
    init_queue(&[64, 10240, 30720, 30721], &[2, 3]);
}
/// Whatever others send, between the steps in which an oracle creates its queue: the part-created queue stays as it is, so
/// the next step is accepted.
#[no_mangle]
pub extern "C" fn h_init_undisturbed() {
    sym_clock();
    let (oracle, index): (Key, u8) = (sym::bytes("oracle"), sym::u8("index"));
    let (tag, na, at, np) = sym::pick(
        &[(1u8, 5usize, 1usize, 65usize), (1, 5, 2, 65), (2, 5, 3, 8), (3, 5, 2, 76), (4, 5, 3, 160), (5, 8, 1, 1), (6, 4, 1, 1), (7, 3, 2, 1), (8, 5, 2, 76), (9, 2, 1, 1), (196, 4, 0, 4)],
        "instruction",
    );
    let mut data = vec![tag, 0, 0, 0, 0, 0, 0, 0];
    let mut pl = sym::vec(np, "payload");
    match tag {
        2 => pl[..4].copy_from_slice(&100u32.to_le_bytes()),
        3 | 8 => pl[64..].fill(0), // three empty lists
        196 => pl.fill(0),
        _ => {}
    }
    data.extend_from_slice(&pl);
    let q = Acct::new(queue_pda(&oracle, index), vrf(), 1 << 40, vec![0; 48]).w();
    let owner = sym::pick(&[vrf(), SYSTEM], "owner");
    let mut a: Vec<Acct> = vec![];
    for i in 0..na {
        if i == at {
            a.push(q.clone());
            continue;
        }
        let mut x = Acct::new(sym::bytes("key"), owner, 1 << 40, vec![0u8; 56]).w();
        if sym::eq(&x.owner, &vrf()) {
            x.data[0] = 1; // an oracle's record, say
        }
        x.signer = !sym::eq(&x.key, &oracle);
        a.push(x);
    }
    let ks: Vec<Key> = a.iter().map(|x| x.key).collect();
    distinct(&ks);
    let res = exec(&mut a, &[], &data);
    sym::cover(if res.is_err() { "refused" } else { "executed" });
    if res.is_ok() {
        sym::check(a[at].same(&q), "part-created-queue-disturbed");
    }
}

// ------------------------------------------------------------------------------------------------ registry
/// Initialize: exactly once, creates the empty registry.
#[no_mangle]
pub extern "C" fn h_initialize() {
    sym_clock();
    let own = sym::choose(2, "exists") == 1;
    let lam = if own { lamports("rlam") } else { [0, lamports("rlam")][sym::choose(2, "funded")] };
    let data = if own { sym::vec(sym::pick(&[1, 12, 44], "len"), "data") } else { vec![] };
    let mut a = vec![
        Acct::new(sym::bytes("signer"), SYSTEM, lamports("lam"), vec![]).w(),
        Acct::new(sym::bytes("registry"), if own { vrf() } else { SYSTEM }, lam, data),
        sysprog(),
    ];
    a[0].signer = sym::flag("signs");
    a[1].writable = sym::flag("rw");
    let ks: Vec<Key> = a.iter().map(|x| x.key).collect();
    distinct(&ks);
    let pre = a.clone();
    let rent = rent_min(12);
    let pays = sym::ite(rent > lam, rent.wrapping_sub(lam), 0);
    let want = a[0].signer & a[1].writable & sym::eq(&a[1].key, &oracles_pda()) & !own & (a[0].lamports >= pays);
    w().strict = true;
    let res = exec(&mut a, &[], &[0, 0, 0, 0, 0, 0, 0, 0]);
    if res.is_err() {
        sym::cover("rejected");
        sym::check(!want, "valid-initialize-refused");
        return;
    }
    sym::cover("created");
    sym::check(want, "initialize-accepted-wrongly");
    sym::check(sym::eq(&a[1].owner, &vrf()) & zero(&a[1].data) & (a[1].data.len() == 12), "registry-empty");
    sym::check(a[1].lamports == pre[1].lamports.wrapping_add(pays) && a[0].lamports == pre[0].lamports.wrapping_sub(pays), "payer-pays-rent");
}
pub fn registry(ids: &[Key]) -> Vec<u8> {
    let mut v = vec![0u8; 8];
    v.extend_from_slice(&(ids.len() as u32).to_le_bytes());
    for i in ids {
        v.extend_from_slice(i);
    }
    v
}
pub fn loader() -> Key {
    solana_program::pubkey!("BPFLoaderUpgradeab1e11111111111111111111111").to_bytes()
}
pub fn program_data_key() -> Key {
    pda(&[&vrf()], &loader()).0
}
pub fn modify_data(id: &Key, pk: &Key, op: u8) -> Vec<u8> {
    cat(&[&[1, 0, 0, 0, 0, 0, 0, 0], id, pk, &[op]])
}
/// ModifyOracle: only the upgrade authority, adding or removing exactly one oracle.
fn modify(n: usize, add: bool, admin: bool) {
    sym_clock();
    let mut ids: Vec<Key> = (0..n).map(|i| if n < 4 { sym::bytes("reg") } else { [i as u8 + 1; 32] }).collect();
    let id: Key = sym::bytes("id");
    let at = if n < 4 { None } else { sym::pick(&[None, Some(0), Some(n / 2), Some(n - 2), Some(n - 1)], "at") };
    if n >= 4 {
        // a registry of many: all fixed, but perhaps the one in question
        for i in &ids {
            sym::assume(!sym::eq(i, &id));
        }
        if let Some(at) = at {
            ids[at] = id;
        }
    }
    let pk: Key = sym::bytes("pk");
    let op = if add { 0 } else { sym::u8("op") };
    if !add {
        sym::assume(op != 0);
    }
    // ProgramData: tag, slot, Option<authority>, then the program
    let plen = if admin { 48 } else { sym::pick(&[48, 45, 13, 44], "plen") };
    let mut pd = sym::vec(plen, "programdata");
    let mut auth = [0u8; 32];
    let mut good_pd = false;
    if plen >= 45 {
        auth = arr(&pd[13..45]);
        if admin {
            pd[..4].copy_from_slice(&[3, 0, 0, 0]);
            pd[12] = 1;
        }
        good_pd = (le(&pd[..4]) == 3) & (pd[12] == 1);
    }
    let exists = if n < 4 { sym::choose(2, "registered") == 1 } else { at.is_some() };
    let olam = if exists { lamports("olam") } else { [0, lamports("olam")][sym::choose(2, "funded")] };
    let open = sym::u64("open");
    let mut od = if exists { oracle_data(&sym::bytes("opk"), sym::u64("rslot"), open) } else { vec![] };
    if exists {
        od[0] = 1;
    }
    let mut a = vec![
        Acct::new(sym::bytes("signer"), SYSTEM, lamports("lam"), vec![]).w(),
        Acct::new(sym::bytes("registry"), vrf(), lamports("rlam"), registry(&ids)),
        Acct::new(sym::bytes("odata"), if exists { vrf() } else { SYSTEM }, olam, od),
        Acct::new(sym::bytes("pdkey"), loader(), lamports("plam"), pd),
        sysprog(),
    ];
    a[0].signer = sym::flag("signs");
    a[1].writable = sym::flag("rw");
    a[2].writable = sym::flag("ow");
    let ks: Vec<Key> = a.iter().map(|x| x.key).collect();
    distinct(&ks);
    // accounts of this program are rent exempt
    sym::assume(a[1].lamports >= rent_min(a[1].data.len()));
    if exists {
        sym::assume(olam >= rent_min(56));
    }
    let pre = a.clone();
    let auth_ok = a[0].signer
        & sym::eq(&a[3].key, &program_data_key())
        & good_pd
        & sym::eq(&a[0].key, &auth)
        & sym::eq(&a[1].key, &oracles_pda())
        & a[1].writable
        & a[2].writable
        & sym::eq(&a[2].key, &oracle_pda(&id))
        & !sym::eq(&id, &SYSTEM)
        & on_curve(&id);
    let mut dup = false;
    for i in &ids {
        dup |= sym::eq(i, &id);
    }
    if exists {
        // a record exists only for registered oracles
        sym::assume(dup);
    } else {
        sym::assume(!dup);
    }
    let mut want = auth_ok;
    let rent_r = rent_min(12 + 32 * (n + 1));
    let pays_o = sym::ite(rent_min(56) > olam, rent_min(56).wrapping_sub(olam), 0);
    let pays_r = sym::ite(rent_r > a[1].lamports, rent_r.wrapping_sub(a[1].lamports), 0);
    if add {
        want &= !exists & (a[0].lamports >= pays_o.wrapping_add(pays_r));
    } else {
        want &= exists & (op == 1) & (open == 0);
    }
    let res = exec(&mut a, &[], &modify_data(&id, &pk, op));
    if res.is_err() {
        sym::cover("rejected");
        sym::check(!want, "valid-change-refused");
        return;
    }
    sym::cover(if add { "added" } else { "removed" });
    sym::check(auth_ok, "only-the-upgrade-authority");
    sym::check(want, "change-accepted-wrongly");
    sym::check(a[3].same(&pre[3]), "program-data-kept");
    sym::check(sym::eq(&a[1].owner, &vrf()) & (a[1].lamports >= rent_min(a[1].data.len())), "registry-rent-exempt");
    if add {
        let mut l = ids.clone();
        l.push(id);
        sym::check(sym::eq(&a[1].data, &registry(&l)), "registry-lists-it-once-at-the-end");
        sym::check(sym::eq(&a[2].owner, &vrf()) & sym::eq(&a[2].data, &oracle_data(&pk, w().slot, 0)), "oracle-record");
        sym::check(a[2].lamports >= rent_min(56), "oracle-record-rent-exempt");
    } else {
        sym::check(a[2].data.is_empty() && sym::eq(&a[2].owner, &SYSTEM) && a[2].lamports == 0, "oracle-record-gone");
        // the others stay, in order
        let got = &a[1].data;
        let mut l = vec![];
        for i in &ids {
            if !sym::eq(i, &id) {
                l.push(*i);
            }
        }
        sym::check(sym::eq(got, &registry(&l)), "registry-drops-exactly-it");
    }
}
#[no_mangle]
pub extern "C" fn h_modify_add() {
    modify(sym::choose(3, "n"), true, true);
}
#[no_mangle]
pub extern "C" fn h_modify_remove() {
    modify(sym::choose(3, "n"), false, true);
}
/// A registry of many oracles.
#[no_mangle]
pub extern "C" fn h_modify_many() {
    let add = sym::choose(2, "add") == 1;
    modify(12, add, true);
}
#[no_mangle]
pub extern "C" fn h_modify_auth() {
    let add = sym::choose(2, "add") == 1;
    modify(1, add, false);
}
