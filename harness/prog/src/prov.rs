//! ProvideRandomness through the program's entrypoint.
use crate::qmodel::*;
use crate::queue::SHAPES;
use crate::req::*;
use crate::sym::{self, Key};
use crate::world::*;

pub fn h2p(input: &Key) -> Key {
    toy::mul(&toy::reduce(&sha(&[b"VRF-Ephem-HashToPoint", input])), &toy::base())
}
pub fn challenge(out: &Key, cb: &Key, ch: &Key, pk: &Key, input: &Key) -> Key {
    let h = sha(&[b"VRF-Ephem-Challenge", out, cb, ch, pk, input]);
    toy::reduce(&sha(&[b"VRF-Ephem-HashToScalar", &h]))
}
/// The verification equations, over the stand-in group.
pub fn valid_proof(pk: &Key, input: &Key, p: &Proof) -> bool {
    let h = h2p(input);
    let c = challenge(&p.out, &p.cb, &p.ch, pk, input);
    toy::scalar_ok(&p.s)
        & toy::point_ok(pk)
        & toy::point_ok(&p.out)
        & toy::point_ok(&p.cb)
        & toy::point_ok(&p.ch)
        & sym::eq(&toy::mul(&p.s, &toy::base()), &toy::add(&p.cb, &toy::mul(&c, pk)))
        & sym::eq(&toy::mul(&p.s, &h), &toy::add(&p.ch, &toy::mul(&c, &p.out)))
}
#[derive(Clone)]
pub struct Proof {
    pub out: Key,
    pub cb: Key,
    pub ch: Key,
    pub s: Key,
}
impl Proof {
    /// Arbitrary bytes.
    pub fn any() -> Proof {
        Proof { out: sym::bytes("out"), cb: sym::bytes("cb"), ch: sym::bytes("ch"), s: sym::bytes("s") }
    }
    /// What an honest prover with secret key sk publishes, for an arbitrary nonce.
    pub fn honest(sk: &Key, input: &Key) -> (Key, Proof) {
        let h = h2p(input);
        let k: Key = sym::bytes("nonce");
        let pk = toy::mul(sk, &toy::base());
        let (out, cb, ch) = (toy::mul(sk, &h), toy::mul(&k, &toy::base()), toy::mul(&k, &h));
        let c = challenge(&out, &cb, &ch, &pk, input);
        (pk, Proof { out, cb, ch, s: toy::sadd(&k, &toy::smul(&c, sk)) })
    }
    /// A forger's proof: every point is a multiple of the basepoint or of the input's point with its own scalar.
    pub fn forged(input: &Key) -> (Key, Proof) {
        let h = h2p(input);
        let (a, b, c, d): (Key, Key, Key, Key) = (sym::bytes("fpk"), sym::bytes("fout"), sym::bytes("fcb"), sym::bytes("fch"));
        let g = toy::base();
        (toy::mul(&a, &g), Proof { out: toy::mul(&b, &h), cb: toy::mul(&c, &g), ch: toy::mul(&d, &h), s: sym::bytes("s") })
    }
    pub fn data(&self, input: &Key) -> Vec<u8> {
        cat(&[&[4, 0, 0, 0, 0, 0, 0, 0], input, &self.out, &self.cb, &self.ch, &self.s])
    }
}
pub fn oracle_data(pk: &Key, slot: u64, open: u64) -> Vec<u8> {
    cat(&[&[1, 0, 0, 0, 0, 0, 0, 0], pk, &slot.to_le_bytes(), &open.to_le_bytes()])
}
/// What every pending request satisfies because of how it was accepted: flags are 0/1, and the callback program is not the
/// system program (its identity address would have had to sign the request).
pub fn pending_invariants(recs: &[Rec]) {
    for r in recs {
        sym::assume(!sym::eq(&r.prog, &SYSTEM));
        for m in r.metas.chunks(33) {
            sym::assume(m[32] < 2);
        }
    }
}
pub fn distinct_ids(rs: &[Rec]) {
    for i in 0..rs.len() {
        for j in 0..i {
            sym::assume(!sym::eq(&rs[i].id, &rs[j].id));
        }
    }
}
/// accounts a callback lists, handed over as remaining accounts
pub fn callback_accts(r: &Rec) -> Vec<Acct> {
    r.metas.chunks(33).map(|c| {
        let mut a = Acct::new(arr(&c[..32]), sym::bytes("cbowner"), 7, vec![]);
        a.writable = c[32] != 0;
        a
    }).collect()
}
/// What a successful fulfilment must have done: `old` live records, `k` the fulfilled one.
fn effects(pre: &[Acct], a: &[Acct], dup: &[Option<usize>], old: &[Rec], k: usize, p: &Proof, dflt: bool) {
    let r = &old[k];
    let cost = if dflt { 0 } else { r.cost() };
    sym::check(a[0].lamports == pre[0].lamports.wrapping_add(cost), "oracle-paid-exactly");
    sym::check(a[3].lamports == pre[3].lamports.wrapping_sub(cost), "queue-pays-exactly");
    sym::check(pre[3].lamports >= cost, "queue-could-pay");
    for i in 0..a.len() {
        if i != 3 && dup.get(i).copied().flatten() != Some(3) {
            sym::check(sym::eq(&a[i].data, &pre[i].data) & sym::eq(&a[i].owner, &pre[i].owner), "others-untouched");
            sym::check((i == 0) | (a[i].lamports == pre[i].lamports), "others-lamports");
        }
    }
    sym::check(sym::eq(&a[3].owner, &pre[3].owner) & sym::eq(&a[3].data[..8], &pre[3].data[..8]) & (a[3].data.len() == pre[3].data.len()), "queue-account-kept");
    match parse(&a[3].data[8..]) {
        None => sym::check(false, "queue-wellformed"),
        Some((c, ix, l)) => {
            let mut want = old.to_vec();
            want.remove(k);
            sym::check(c as usize == l.len() && ix == pre[3].data[16], "queue-header");
            sym::check(l.len() == want.len(), "exactly-one-removed");
            sym::check(same_list(&l, &want), "removes-exactly-the-fulfilled");
        }
    }
    // the callback
    let cp = &w().cpis;
    sym::check(cp.len() == 1, "one-callback");
    if cp.len() != 1 {
        return;
    }
    let c = &cp[0];
    sym::check(sym::eq(&c.program, &r.prog), "callback-program");
    sym::check(sym::eq(&c.data, &cat(&[&r.disc, &sha(&[&p.out]), &r.args])), "callback-data");
    let n = r.metas.len() / 33;
    sym::check(c.metas.len() == n + 1, "callback-account-count");
    if c.metas.len() != n + 1 {
        return;
    }
    sym::check(sym::eq(&c.metas[0].0, &identity_pda()) & c.metas[0].1 & !c.metas[0].2, "callback-identity-signs");
    for i in 0..n {
        let m = &r.metas[33 * i..33 * i + 33];
        sym::check(sym::eq(&c.metas[i + 1].0, &m[..32]) & (c.metas[i + 1].2 == (m[32] != 0)), "callback-accounts");
        sym::check(!c.metas[i + 1].1, "callback-lends-no-signature");
    }
}

/// Whatever is submitted: a fulfilment is accepted only if everything about it is in order, and then has exactly the
/// specified effect.
fn adversarial(shapes: &[(usize, usize, usize)], max: usize, mode: usize) {
    sym_clock();
    let (recs, img) = crate::queue::any_queue(max, shapes, &[0]);
    pending_invariants(&recs);
    let old = live(&recs);
    distinct_ids(&old);
    let input: Key = sym::bytes("input");
    let (pk, p) = match mode {
        0 => (sym::bytes("pk"), Proof::any()),
        _ => Proof::forged(&input),
    };
    let target = old.iter().position(|r| sym::eq(&r.id, &input));
    let mut od = oracle_data(&pk, sym::u64("rslot"), sym::u64("open"));
    od[0] = sym::u8("odisc");
    let mut qd = queue_data(&img);
    qd[0] = sym::u8("qdisc");
    let mut a = vec![
        Acct::new(sym::bytes("oracle"), SYSTEM, lamports("lam"), vec![]).w(),
        Acct::new(sym::bytes("identity"), sym::bytes("iowner"), lamports("ilam"), vec![]),
        Acct::new(sym::bytes("odata"), sym::bytes("oowner"), lamports("olam"), od),
        Acct::new(sym::bytes("queue"), sym::bytes("qowner"), lamports("qlam"), qd),
        Acct::new(sym::bytes("cbprog"), sym::bytes("cowner"), lamports("clam"), vec![]),
    ];
    a[0].signer = sym::flag("osigns");
    a[3].writable = sym::flag("qwritable");
    if let Some(k) = target {
        a.extend(callback_accts(&old[k]));
    }
    let keys: Vec<Key> = a[..5].iter().map(|x| x.key).collect();
    distinct(&keys);
    let pre = a.clone();
    w().foreign = None;
    let res = exec(&mut a, &[], &p.data(&input));
    if res.is_err() {
        sym::cover("rejected");
        return;
    }
    sym::cover("accepted");
    sym::check(pre[0].signer, "oracle-must-sign");
    sym::check(sym::eq(&pre[2].key, &oracle_pda(&pre[0].key)) & sym::eq(&pre[2].owner, &vrf()) & (pre[2].data[0] == 1), "oracle-must-be-registered");
    sym::check(sym::eq(&pre[3].key, &queue_pda(&pre[0].key, pre[3].data[16])), "own-queue-only");
    sym::check(sym::eq(&pre[3].owner, &vrf()) & (pre[3].data[0] == 3), "genuine-queue");
    sym::check(valid_proof(&pk, &input, &p), "proof-must-verify");
    sym::check(target.is_some(), "request-must-be-pending");
    let k = match target {
        Some(k) => k,
        None => return,
    };
    sym::check(w().slot > old[k].slot, "later-slot");
    for m in old[k].metas.chunks(33) {
        sym::check(!sym::eq(&m[..32], &pre[0].key), "oracle-not-among-callback-accounts");
    }
    sym::check(sym::eq(&pre[4].key, &old[k].prog), "callback-program-account");
    let dflt = sym::eq(&pre[3].key, &default_queue());
    effects(&pre, &a, &[], &old, k, &p, dflt);
}
#[no_mangle]
pub extern "C" fn h_prov_any() {
    adversarial(&SHAPES[..1], 1, 0);
}
#[no_mangle]
pub extern "C" fn h_prov_forged() {
    adversarial(&SHAPES[..1], 1, 1);
}

/// A registered oracle with an honest proof fulfils a pending request of its queue: accepted, with exactly the specified
/// effect; refused only for the stated reasons.
fn ok(shapes: &[(usize, usize, usize)], max: usize, dflt: bool) {
    sym_clock();
    let (recs, img) = crate::queue::any_queue(max, shapes, &[0, 24]);
    ok_with(recs, img, dflt, None);
}
/// `alias`: the fulfilled request's account list repeats an account; (position, 0 = the account before it, else the
/// instruction's own account of that number).
fn ok_with(recs: Vec<Rec>, img: Vec<u8>, dflt: bool, alias: Option<(usize, usize)>) {
    pending_invariants(&recs);
    let old = live(&recs);
    distinct_ids(&old);
    if old.is_empty() {
        return;
    }
    let k = crate::queue::some_index(old.len(), "which");
    let input = old[k].id;
    let mut sk: Key = sym::bytes("sk");
    sk[31] = 0;
    let (pk, p) = Proof::honest(&sk, &input);
    let oracle: Key = sym::bytes("oracle");
    if dflt {
        make_home(&oracle, img[8]);
    }
    let qk = queue_pda(&oracle, img[8]);
    sym::assume(sym::eq(&qk, &default_queue()) == dflt);
    let metas: Vec<&[u8]> = old[k].metas.chunks(33).collect();
    if metas.len() > 8 {
        for m in &metas[..metas.len() - 1] {
            sym::assume(!sym::eq(&m[..32], &oracle));
        }
    }
    let mut a = vec![
        Acct::new(oracle, SYSTEM, lamports("lam"), vec![]).sw(),
        Acct::new(identity_pda(), sym::bytes("iowner"), lamports("ilam"), vec![]),
        Acct::new(oracle_pda(&oracle), vrf(), lamports("olam"), oracle_data(&pk, sym::u64("rslot"), sym::u64("open"))),
        Acct::new(qk, vrf(), lamports("qlam"), queue_data(&img)).w(),
        Acct::new(old[k].prog, sym::bytes("cowner"), lamports("clam"), vec![]),
    ];
    let mut dup: Vec<Option<usize>> = vec![];
    a.extend(callback_accts(&old[k]));
    let n = a.len();
    if let Some((at, what)) = alias {
        let j = if what == 0 { 4 + at } else { what };
        sym::assume(sym::eq(&a[5 + at].key, &a[j].key));
        let w = a[5 + at].writable | a[j].writable;
        a[j].writable = w;
        a[5 + at] = a[j].clone();
        dup = vec![None; n];
        dup[5 + at] = Some(j);
    }
    for i in 1..n {
        for j in 0..i {
            if (i >= 5 && j == 0) || dup.get(i).copied().flatten().is_some() {
                continue;
            }
            sym::assume(!sym::eq(&a[i].key, &a[j].key));
        }
    }
    let pre = a.clone();
    let mut self_listed = false;
    for m in old[k].metas.chunks(33) {
        self_listed |= sym::eq(&m[..32], &oracle);
    }
    let cost = if dflt { 0 } else { old[k].cost() };
    let want = (w().slot > old[k].slot) & !self_listed & (a[3].lamports >= cost);
    w().foreign = None;
    w().strict = true;
    let res = exec(&mut a, &dup, &p.data(&input));
    if res.is_err() {
        sym::cover("refused");
        sym::check(!want, "valid-fulfilment-refused");
        return;
    }
    sym::cover("accepted");
    sym::check(want, "accepted-wrongly");
    effects(&pre, &a, &dup, &old, k, &p, dflt);
    // the same fulfilment again finds nothing
    let res = exec(&mut a, &dup, &p.data(&input));
    sym::check(res.is_err(), "fulfilled-twice");
}
#[no_mangle]
pub extern "C" fn h_prov_ok() {
    ok(&SHAPES[..1], 2, false);
}
#[no_mangle]
pub extern "C" fn h_prov_shapes() {
    ok(&[(0, 0, 0), (0, 1, 5), (8, 0, 4), (4, 2, 1), (8, 3, 40)], 1, false);
}
#[no_mangle]
pub extern "C" fn h_prov_ok_default() {
    ok(&SHAPES[..1], 1, true);
}
/// Accounts listed more than once in a request's account list, or both in it and in the fulfilment itself.
#[no_mangle]
pub extern "C" fn h_prov_repeated() {
    sym_clock();
    let mut r = Rec::sym(true, (4, 3, 1), "rec");
    let what = sym::pick(&[0usize, 1, 2, 3, 4], "repeats");
    let at = if what == 0 { sym::pick(&[1usize, 2], "position") } else { 1 };
    let src: Key = match what {
        0 => arr(&r.metas[33 * (at - 1)..33 * (at - 1) + 32]),
        4 => r.prog,
        _ => arr(&r.metas[33 * at..33 * at + 32]),
    };
    r.metas[33 * at..33 * at + 32].copy_from_slice(&src);
    let recs = vec![r];
    let img = image(&recs, sym::u8("index"), true, 0);
    ok_with(recs, img, false, Some((at, what)));
}
/// A queue of many requests.
#[no_mangle]
pub extern "C" fn h_prov_many() {
    sym_clock();
    let (recs, img) = crate::queue::any_queue(crate::queue::MANY, &[], &[0]);
    ok_with(recs, img, false, None);
}
/// Requests as large as transactions can carry them. (Any of the first accounts being the oracle is the other entries'
/// matter.)
#[no_mangle]
pub extern "C" fn h_prov_large() {
    sym_clock();
    let shape = sym::pick(&[(8usize, 20usize, 0usize), (8, 2, 512), (3, 9, 300)], "shape");
    let mut r = Rec::sym(true, shape, "rec");
    // writability of all but the last one in a fixed pattern
    for i in 0..shape.1 - 1 {
        r.metas[33 * i + 32] = (i % 3 == 1) as u8;
    }
    let recs = vec![r];
    let img = image(&recs, sym::u8("index"), true, 0);
    ok_with(recs, img, false, None);
}
