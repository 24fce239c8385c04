//! RequestRandomness / RequestHighPriorityRandomness through the program's entrypoint.
use crate::qmodel::*;
use crate::queue::SHAPES;
use crate::sym::{self, Key};
use crate::world::*;

pub struct Req {
    pub seed: Key,
    pub prog: Key,
    pub disc: Vec<u8>,
    pub metas: Vec<(Key, bool, bool)>, // key, is_signer, is_writable
    pub args: Vec<u8>,
    pub high: bool,
}
pub fn bool_byte(t: &str) -> bool {
    sym::flag(t)
}
impl Req {
    pub fn sym(shape: (usize, usize, usize), high: bool) -> Req {
        Req {
            seed: sym::bytes("seed"),
            prog: sym::bytes("prog"),
            disc: sym::vec(shape.0, "disc"),
            metas: (0..shape.1).map(|_| (sym::bytes("meta"), sym::flag("ms"), sym::flag("mw"))).collect(),
            args: sym::vec(shape.2, "args"),
            high,
        }
    }
    pub fn data(&self) -> Vec<u8> {
        let mut v = vec![if self.high { 3u8 } else { 8 }, 0, 0, 0, 0, 0, 0, 0];
        v.extend_from_slice(&self.seed);
        v.extend_from_slice(&self.prog);
        v.extend_from_slice(&(self.disc.len() as u32).to_le_bytes());
        v.extend_from_slice(&self.disc);
        v.extend_from_slice(&(self.metas.len() as u32).to_le_bytes());
        for (k, s, w) in &self.metas {
            v.extend_from_slice(k);
            v.push(*s as u8);
            v.push(*w as u8);
        }
        v.extend_from_slice(&(self.args.len() as u32).to_le_bytes());
        v.extend_from_slice(&self.args);
        v
    }
    pub fn rec(&self, slot: u64, id: Key) -> Rec {
        let mut m = vec![];
        for (k, _, w) in &self.metas {
            m.extend_from_slice(k);
            m.push(*w as u8);
        }
        Rec { used: true, slot, id, prog: self.prog, prio: self.high as u8, disc: self.disc.clone(), metas: m, args: self.args.clone() }
    }
    pub fn cost(&self) -> u64 {
        if self.high { 800_000 } else { 500_000 }
    }
}
pub fn distinct(ks: &[Key]) {
    for i in 0..ks.len() {
        for j in 0..i {
            sym::assume(!sym::eq(&ks[i], &ks[j]));
        }
    }
}
pub fn sym_clock() {
    let wd = w();
    wd.slot = sym::u64("slot");
    wd.time = sym::u64("time") as i64;
}
pub fn lamports(t: &str) -> u64 {
    let l = sym::u64(t);
    sym::assume(l < 1 << 58);
    l
}
pub fn queue_data(img: &[u8]) -> Vec<u8> {
    cat(&[&[3, 0, 0, 0, 0, 0, 0, 0], img])
}
/// id the program may assign: the digest with an index hint in n..n+extra
pub fn id_of(r: &Req, slot: u64, hash: &[u8], time: i64, idx: u32) -> Key {
    sha(&[&r.seed, &slot.to_le_bytes(), hash, &r.disc, &r.prog, &time.to_le_bytes(), &idx.to_le_bytes()])
}
pub fn slothash_acct() -> Acct {
    Acct::new(slot_hashes(), sysvar_owner(), 1, sym::vec(8 + 40, "slothashes"))
}
pub fn sysprog() -> Acct {
    Acct { executable: true, ..Acct::new(SYSTEM, [9u8; 32], 1, vec![]) }
}

/// Everything in order: the request must be accepted and have exactly the specified effect.
fn ok(shapes: &[(usize, usize, usize)], rshapes: &[(usize, usize, usize)], max: usize, dflt: bool) {
    sym_clock();
    let high = sym::choose(2, "high") == 1;
    let r = Req::sym(sym::pick(rshapes, "rshape"), high);
    let (recs, img) = crate::queue::any_queue(max, shapes, &[400]);
    let old = live(&recs);
    let index = img[8];
    let signer: Key = sym::bytes("signer");
    let qk: Key = if dflt { default_queue() } else { sym::bytes("queue") };
    if !dflt {
        sym::assume(!sym::eq(&qk, &default_queue()));
    }
    let ident = crate::world::pda(&[b"identity"], &r.prog).0;
    distinct(&[signer, qk, ident, SYSTEM, slot_hashes()]);
    let mut a = vec![
        Acct::new(signer, SYSTEM, lamports("lam"), vec![]).sw(),
        Acct::new(ident, sym::bytes("iowner"), lamports("ilam"), vec![]).s(),
        Acct::new(qk, vrf(), lamports("qlam"), queue_data(&img)).w(),
        sysprog(),
        slothash_acct(),
    ];
    let pre = a.clone();
    let many = old.len() > 8;
    if many {
        // (collisions with pending ids are the other entries' matter)
        let id = id_of(&r, w().slot, &pre[4].data[16..48], w().time, old.len() as u32);
        for o in &old {
            sym::assume(!sym::eq(&id, &o.id));
        }
    }
    let cost = if dflt { 0 } else { r.cost() };
    let funds = a[0].lamports >= cost;
    w().strict = true;
    let res = exec(&mut a, &[], &r.data());
    if res.is_err() {
        sym::cover("no-funds");
        sym::check(!funds, "valid-request-refused");
        return;
    }
    sym::cover("accepted");
    sym::check(funds, "accepted-without-payment");
    sym::check(a[0].lamports == pre[0].lamports - cost, "payer-pays-exactly");
    sym::check(a[2].lamports == pre[2].lamports + cost, "queue-receives-exactly");
    sym::check(w().cpis.len() == if dflt { 0 } else { 1 }, "one-transfer");
    for i in [0, 1, 3, 4] {
        sym::check(a[i].lamports == pre[i].lamports || i == 0, "others-lamports");
        sym::check(sym::eq(&a[i].data, &pre[i].data) & sym::eq(&a[i].owner, &pre[i].owner), "others-untouched");
    }
    sym::check(sym::eq(&a[2].owner, &pre[2].owner) & sym::eq(&a[2].data[..8], &pre[2].data[..8]), "queue-account-kept");
    sym::check(a[2].data.len() == pre[2].data.len(), "queue-size-kept");
    let p = parse(&a[2].data[8..]);
    sym::check(p.is_some(), "queue-wellformed");
    let (c, ix, l) = p.unwrap();
    sym::check(c as usize == l.len() && l.len() == old.len() + 1 && ix == index, "queue-header");
    if l.len() != old.len() + 1 {
        return;
    }
    let new = &l[old.len()];
    // the stored record
    sym::check(same_list(&l[..old.len()], &old), "older-requests-kept");
    sym::check(new.same(&r.rec(w().slot, new.id)), "record-content");
    // the id is the digest of the inputs and an index, and names no other pending request
    let mut idok = false;
    for k in 0..if many { 1 } else { old.len() + 1 } {
        idok |= sym::eq(&new.id, &id_of(&r, w().slot, &pre[4].data[16..48], w().time, (old.len() + k) as u32));
    }
    sym::check(idok, "id-is-digest");
    for o in &old {
        sym::check(!sym::eq(&new.id, &o.id), "id-unique");
    }
}
#[no_mangle]
pub extern "C" fn h_req_ok() {
    ok(&SHAPES[..1], &[(8, 1, 3), (0, 0, 0)], 1, false);
}
#[no_mangle]
pub extern "C" fn h_req_many() {
    ok(&[], &[(8, 1, 3)], crate::queue::MANY, false);
}
#[no_mangle]
pub extern "C" fn h_req_shapes() {
    ok(&[(4, 2, 3), (0, 0, 0)], &[(4, 2, 1), (7, 3, 40), (0, 1, 9), (8, 0, 0)], 1, false);
}
#[no_mangle]
pub extern "C" fn h_req_ok_default() {
    ok(&SHAPES[..1], &[(8, 1, 3), (0, 0, 0)], 1, true);
}

/// Whatever is submitted: a request is accepted only if everything about it is genuine.
#[no_mangle]
pub extern "C" fn h_req_any() {
    sym_clock();
    let high = sym::choose(2, "high") == 1;
    let r = Req::sym(sym::pick(&[(8, 1, 3), (0, 0, 0)], "rshape"), high);
    let stage = sym::choose(3, "stage");
    let mut qd = match stage {
        0 => queue_data(&crate::queue::any_queue(1, &SHAPES[..1], &[400]).1),
        1 => vec![0u8; 400],          // created in part
        _ => sym::vec(56, "foreign"), // another account of the program, or anything
    };
    if stage == 0 {
        qd[0] = sym::u8("qdisc");
    }
    let sl = sym::pick(&[48usize, 47, 0], "shlen");
    let mut a = vec![
        Acct::new(sym::bytes("signer"), SYSTEM, lamports("lam"), vec![]).w(),
        Acct::new(sym::bytes("identity"), sym::bytes("iowner"), lamports("ilam"), vec![]),
        Acct::new(sym::bytes("queue"), sym::bytes("qowner"), lamports("qlam"), qd),
        sysprog(),
        Acct::new(sym::bytes("shkey"), sym::bytes("showner"), 1, sym::vec(sl, "slothashes")),
    ];
    a[0].signer = sym::flag("signs");
    a[1].signer = sym::flag("isigns");
    a[2].writable = sym::flag("qw");
    let ks: Vec<Key> = a.iter().map(|x| x.key).collect();
    distinct(&ks);
    if sl < 48 {
        // the genuine sysvar holds at least one entry; a fake one may be empty
        sym::assume(!(sym::eq(&a[4].key, &slot_hashes()) & sym::eq(&a[4].owner, &sysvar_owner())));
    }
    let pre = a.clone();
    let res = exec(&mut a, &[], &r.data());
    if res.is_err() {
        sym::cover("rejected");
        return;
    }
    sym::cover("accepted");
    sym::check(pre[0].signer, "payer-must-sign");
    sym::check(sym::eq(&pre[1].key, &crate::world::pda(&[b"identity"], &r.prog).0) & pre[1].signer, "callback-program-must-sign");
    sym::check(sym::eq(&pre[4].key, &slot_hashes()) & sym::eq(&pre[4].owner, &sysvar_owner()), "genuine-slot-hashes");
    sym::check(sym::eq(&pre[2].owner, &vrf()) & (pre[2].data[0] == 3) & pre[2].writable, "genuine-initialised-queue");
}
/// Requests beyond the limits are refused whatever the queue; at the limits they are accepted.
#[no_mangle]
pub extern "C" fn h_req_limits() {
    sym_clock();
    let sh = sym::pick(&[(8, 20, 512), (9, 0, 0), (8, 21, 0), (8, 0, 513), (1, 21, 0), (0, 0, 513), (9, 1, 100)], "rshape");
    let legal = sh.0 <= 8 && sh.1 <= 20 && sh.2 <= 512;
    let r = Req::sym(sh, false);
    let (recs, img) = crate::queue::any_queue(1, &SHAPES[..1], &[1500]);
    let index = img[8];
    let mut a = vec![
        Acct::new(sym::bytes("signer"), SYSTEM, lamports("lam"), vec![]).sw(),
        Acct::new(crate::world::pda(&[b"identity"], &r.prog).0, sym::bytes("iowner"), lamports("ilam"), vec![]).s(),
        Acct::new(sym::bytes("queue"), vrf(), lamports("qlam"), queue_data(&img)).w(),
        sysprog(),
        slothash_acct(),
    ];
    let ks: Vec<Key> = a.iter().map(|x| x.key).collect();
    distinct(&ks);
    sym::assume(a[0].lamports >= 500_000);
    w().strict = true;
    let res = exec(&mut a, &[], &r.data());
    sym::cover(if res.is_ok() { "accepted" } else { "rejected" });
    sym::check(res.is_ok() == legal, "request-limits");
    let mut want = live(&recs);
    if res.is_ok() {
        // the largest request is recorded in full, too
        match parse(&a[2].data[8..]) {
            Some((c, ix, l)) if l.len() == want.len() + 1 => {
                want.push(r.rec(w().slot, l[want.len()].id));
                sym::check((c as usize == l.len()) & (ix == index) & same_list(&l, &want), "limit-request-recorded");
            }
            _ => sym::check(false, "limit-request-recorded"),
        }
    }
}
