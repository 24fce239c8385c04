//! QueueAccount (api/src/state/queue.rs): one operation from an arbitrary well-formed queue.
use crate::qmodel::*;
use crate::sym;
use ephemeral_vrf_api::prelude::*;

pub const SHAPES: [(usize, usize, usize); 4] = [(8, 1, 11), (8, 0, 0), (4, 2, 3), (0, 0, 0)];

/// An arbitrary well-formed queue: up to `max` records (used or removed, in any order), symbolic contents.
/// (every part of a shape changes how far the record reaches in 8-byte steps, so that each one matters for the walk)
pub fn any_queue(max: usize, shapes: &[(usize, usize, usize)], spares: &[usize]) -> (Vec<Rec>, Vec<u8>) {
    if max > 8 {
        return many(max, spares);
    }
    let n = sym::choose(max + 1, "records");
    let mut recs = vec![];
    for _ in 0..n {
        let used = sym::choose(2, "used") == 1;
        let sh = sym::pick(shapes, "shape");
        recs.push(Rec::sym(used, sh, "rec"));
    }
    let aligned = sym::choose(2, "aligned") == 1;
    let spare = sym::pick(spares, "spare");
    let mut img = image(&recs, sym::u8("index"), aligned, spare);
    if n == 0 && aligned {
        // freshly created account: cursor 0
        img[4..8].fill(0);
    }
    (recs, img)
}
/// A queue of many records, of every shape: `n` of them, live or removed in one of three patterns. They share one symbolic
/// program and two symbolic slots and priorities; ids and contents are fixed.
fn many(n: usize, spares: &[usize]) -> (Vec<Rec>, Vec<u8>) {
    let pattern = sym::choose(3, "pattern");
    let prog: [u8; 32] = sym::bytes("rec");
    let slots = [sym::u64("rec"), sym::u64("rec")];
    let prios = [sym::u8("rec"), sym::u8("rec")];
    sym::assume((prios[0] < 2) & (prios[1] < 2));
    let recs: Vec<Rec> = (0..n)
        .map(|i| {
            let mut sh = SHAPES[i / 3 % 4];
            // so many large ones that the last records start beyond 64 KiB
            if n > 255 && i % 4 == 3 {
                sh.2 = 512;
            } else if n == FAR && i % 4 != 3 && i < n - 2 {
                sh = (8, 20, 512);
            }
            let mut id = [0xa5u8; 32];
            id[..2].copy_from_slice(&(i as u16).to_be_bytes());
            let c = i as u8;
            let mut metas = vec![c; sh.1 * 33];
            for (j, m) in metas.chunks_mut(33).enumerate() {
                m[0] = j as u8;
                m[1] = 0x77;
                m[32] = (i + j) as u8 & 1;
            }
            let used = match pattern {
                0 => true,
                1 => i % 2 == 1,
                _ => i + 1 == n,
            };
            Rec { used, slot: slots[i / 5 % 2], id, prog, prio: prios[i / 2 % 2], disc: vec![c; sh.0], metas, args: vec![!c; sh.2] }
        })
        .collect();
    let img = image(&recs, sym::u8("index"), sym::choose(2, "aligned") == 1, sym::pick(spares, "spare"));
    (recs, img)
}
/// Every position, or some of many.
pub fn some_index(n: usize, t: &str) -> usize {
    if n <= 8 {
        sym::choose(n, t)
    } else {
        sym::pick(&[0, 1, n / 2, n - 2, n - 1], t)
    }
}
fn rec_of(q: &QueueAccount, it: &QueueItem) -> Rec {
    let metas = it.account_metas(q.acc);
    let mut m = vec![];
    for x in metas {
        m.extend_from_slice(&x.pubkey);
        m.push(x.is_writable);
    }
    Rec {
        used: it.used == 1,
        slot: it.slot,
        id: it.id,
        prog: it.callback_program_id,
        prio: it.priority_request,
        disc: it.callback_discriminator(q.acc).to_vec(),
        metas: m,
        args: it.callback_args(q.acc).to_vec(),
    }
}
/// What the crate's own readers report, checked for agreement with the expected list.
fn check_view(q: &QueueAccount, want: &[Rec], what: &str) {
    let got: Vec<Rec> = q.iter_items().map(|i| rec_of(q, &i)).collect();
    sym::check(got.len() == want.len(), &format_id(what, "iter-count"));
    sym::check(same_list(&got, want), &format_id(what, "iter-items"));
    sym::check(q.len() == want.len(), &format_id(what, "len"));
    sym::check(q.is_empty() == want.is_empty(), &format_id(what, "is-empty"));
    let at: Vec<usize> = if want.len() <= 8 { (0..want.len() + 1).collect() } else { vec![0, 7, want.len() / 2, want.len() - 1, want.len()] };
    for i in at {
        match q.get_item_by_index(i) {
            Some(it) => sym::check(i < want.len() && rec_of(q, &it).same(&want[i]), &format_id(what, "by-index")),
            None => sym::check(i >= want.len(), &format_id(what, "by-index-none")),
        }
    }
}
fn format_id(a: &str, b: &str) -> String {
    let mut s = String::from(a);
    s.push('/');
    s.push_str(b);
    s
}
fn item(r: &Rec) -> QueueItem {
    QueueItem { slot: r.slot, id: r.id, callback_program_id: r.prog, priority_request: r.prio, ..QueueItem::default() }
}
fn metas(r: &Rec) -> Vec<CompactAccountMeta> {
    r.metas.chunks(33).map(|c| CompactAccountMeta { pubkey: arr(&c[..32]), is_writable: c[32] }).collect()
}
fn end_of_last_used(recs: &[Rec]) -> usize {
    let (mut at, mut last) = (HDR, HDR);
    for r in recs {
        at = up8(at + r.size());
        if r.used {
            last = at;
        }
    }
    last
}

fn add(max: usize, shapes: &[(usize, usize, usize)], spares: &[usize]) {
    let r = Rec::sym(true, sym::pick(shapes, "new"), "newrec");
    // room at, around and between the parts of the new record
    let sz = r.size();
    let mut at: Vec<usize> = vec![0, sz - 1, sz, sz + 7];
    at.extend_from_slice(spares);
    at.sort();
    at.dedup();
    let (recs, mut buf) = any_queue(max, shapes, &at);
    let index = buf[8];
    let old = live(&recs);
    let room = end_of_last_used(&recs) + r.size() <= buf.len();
    let mut q = QueueAccount::load(&mut buf).unwrap();
    check_view(&q, &old, "before");
    let res = q.add_item(&item(&r), &r.disc, &metas(&r), &r.args);
    let mut want = old.clone();
    match res {
        Ok(i) => {
            sym::cover("added");
            sym::check(room, "added-without-room");
            sym::check(i == old.len(), "index");
            want.push(r.clone());
        }
        Err(_) => {
            sym::cover("full");
            sym::check(!room, "rejected-with-room");
        }
    }
    check_view(&q, &want, "after");
    let raw = parse(&buf);
    sym::check(raw.is_some(), "raw-parse");
    let (c, ix, l) = raw.unwrap();
    sym::check(c as usize == want.len() && same_list(&l, &want), "raw-items");
    sym::check(ix == index, "header-index");
}
#[no_mangle]
pub extern "C" fn h_queue_add() {
    add(3, &SHAPES, &[ITEM]);
}
#[no_mangle]
pub extern "C" fn h_queue_add_deep() {
    add(4, &SHAPES[1..], &[ITEM, ITEM + 8, 300]);
}

/// Queues of many records.
#[no_mangle]
pub extern "C" fn h_queue_add_many() {
    add(BYTEFUL, &SHAPES[..1], &[]);
}
#[no_mangle]
pub extern "C" fn h_queue_remove_many() {
    remove(BYTEFUL, &SHAPES[..1], &[0], true);
}
pub const MANY: usize = 40;
/// few but large, the last ones beyond 64 KiB
pub const FAR: usize = 72;
/// more than a byte counts
pub const BYTEFUL: usize = 300;

fn remove(max: usize, shapes: &[(usize, usize, usize)], spares: &[usize], adds: bool) {
    let (recs, mut buf) = any_queue(max, shapes, spares);
    let index = buf[8];
    let old = live(&recs);
    let which = some_index(max + 1, "which");
    let mut q = QueueAccount::load(&mut buf).unwrap();
    let res = q.remove_item(which);
    let mut want = old.clone();
    match res {
        Ok(it) => {
            sym::cover("removed");
            sym::check(which < old.len(), "removed-nothing-there");
            let gone = want.remove(which);
            // what the caller still reads through the returned item is the removed request
            sym::check(rec_of(&q, &it).same(&gone), "returned-item");
        }
        Err(_) => {
            sym::cover("no-such-index");
            sym::check(which >= old.len(), "remove-failed");
        }
    }
    check_view(&q, &want, "after");
    if adds {
        // the freed space and the rest of the queue still work for a following append
        let r = Rec::sym(true, sym::pick(shapes, "new"), "newrec");
        if q.add_item(&item(&r), &r.disc, &metas(&r), &r.args).is_ok() {
            sym::cover("added-after");
            want.push(r);
        }
        check_view(&q, &want, "after-add");
    }
    let raw = parse(&buf);
    sym::check(raw.is_some(), "raw-parse");
    let (c, ix, l) = raw.unwrap();
    sym::check(c as usize == want.len() && same_list(&l, &want), "raw-items");
    sym::check(ix == index, "header-index");
}
#[no_mangle]
pub extern "C" fn h_queue_remove() {
    remove(3, &SHAPES, &[0, 40], false);
}
#[no_mangle]
pub extern "C" fn h_queue_remove_add() {
    remove(3, &SHAPES, &[0, 40], true);
}
#[no_mangle]
pub extern "C" fn h_queue_remove_deep() {
    remove(4, &SHAPES, &[0, 40], true);
}

/// Lookup by id: the first live request with that id, and only a live one.
fn find(max: usize, shapes: &[(usize, usize, usize)]) {
    let (recs, mut buf) = any_queue(max, shapes, &[0, 100]);
    let l = live(&recs);
    // (any id; in the longest queues one of five of theirs)
    let id: [u8; 32] = if max > 255 { l[some_index(l.len(), "sought")].id } else { sym::bytes("id") };
    let q = QueueAccount::load(&mut buf).unwrap();
    match q.find_item_by_id(&id) {
        Some((i, it)) => {
            sym::cover("found");
            sym::check(i < l.len() && rec_of(&q, &it).same(&l[i]) & sym::eq(&l[i].id, &id), "found-is-it");
            for j in 0..i.min(l.len()) {
                sym::check(!sym::eq(&l[j].id, &id), "found-is-first");
            }
        }
        None => {
            sym::cover("absent");
            for r in &l {
                sym::check(!sym::eq(&r.id, &id), "missed");
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn h_queue_find() {
    find(4, &SHAPES[..2]);
}
#[no_mangle]
pub extern "C" fn h_queue_find_many() {
    find(sym::pick(&[FAR, BYTEFUL], "number"), &SHAPES[..2]);
}
#[no_mangle]
pub extern "C" fn h_queue_find_deep() {
    find(5, &SHAPES[1..3]);
}

/// Size limits of one request and rejection without effect; the largest allowed request fits and reads back.
fn limits() {
    let (recs, mut buf) = any_queue(1, &SHAPES[..2], &[1300]);
    let old = live(&recs);
    let r = Rec::sym(true, sym::pick(&[(8, 20, 512), (8, 21, 0), (8, 0, 513), (8, 20, 513), (8, 21, 512), (0, 19, 511), (8, 21, 513), (8, 40, 0), (0, 0, 600), (0, 0, 512), (2, 0, 513), (0, 0, 513), (4, 20, 514), (3, 21, 1)], "new"), "newrec");
    let legal = r.metas.len() / 33 <= 20 && r.args.len() <= 512;
    let before = buf.clone();
    let mut q = QueueAccount::load(&mut buf).unwrap();
    let res = q.add_item(&item(&r), &r.disc, &metas(&r), &r.args);
    let mut want = old.clone();
    if res.is_ok() {
        sym::cover("added");
        sym::check(legal, "oversize-accepted");
        want.push(r.clone());
    } else {
        sym::cover("rejected");
        sym::check(!legal, "legal-rejected");
    }
    check_view(&q, &want, "after");
    drop(q);
    if !legal {
        // apart from the first-use cursor initialisation, not a byte changed
        sym::check(sym::eq(&buf[8..], &before[8..]) & sym::eq(&buf[0..4], &before[0..4]), "rejected-but-changed");
    }
}
#[no_mangle]
pub extern "C" fn h_queue_limits() {
    limits();
}

/// Arbitrary bytes: every reader and writer either works or returns an error; no panic, no access outside the account.
fn garbage(n: usize) {
    let mut buf = sym::vec(n, "bytes");
    let op = sym::choose(8, "op");
    let a = sym::choose(2, "arg");
    let mut q = match QueueAccount::load(&mut buf) {
        Ok(q) => q,
        Err(_) => {
            sym::cover("load-error");
            sym::check(n < 12, "load-rejects");
            return;
        }
    };
    match op {
        0 => {
            let v: Vec<QueueItem> = q.iter_items().collect();
            sym::check(v.len() * ITEM <= n, "iter-bounded");
            sym::cover("iter");
        }
        1 => {
            if q.get_item_by_index(a).is_some() {
                sym::cover("get");
            }
        }
        2 => {
            if q.find_item_by_id(&sym::bytes("id")).is_some() {
                sym::cover("find");
            }
        }
        3 => {
            let c0 = q.len();
            if q.remove_item(a).is_ok() {
                sym::cover("remove");
                sym::check(q.len() == c0.saturating_sub(1), "remove-count");
            }
        }
        4 => {
            let r = Rec::sym(true, (8, 1, 3), "newrec");
            if q.add_item(&item(&r), &r.disc, &metas(&r), &r.args).is_ok() {
                sym::cover("add");
            }
        }
        5 => {
            let it = garbage_item();
            let d = it.callback_discriminator(q.acc);
            sym::cover("disc");
            sym::check(d.len() <= n, "disc-bounded");
        }
        6 => {
            let it = garbage_item();
            let d = it.account_metas(q.acc);
            sym::cover("metas");
            sym::check(d.len() * 33 <= n, "metas-bounded");
            let mut x = 0u8;
            for m in d {
                x |= m.pubkey[0] | m.pubkey[31] | m.is_writable;
            }
            sym::observe("x", x as u64);
        }
        _ => {
            let it = garbage_item();
            let d = it.callback_args(q.acc);
            sym::cover("args");
            sym::check(d.len() <= n, "args-bounded");
        }
    }
}
fn garbage_item() -> QueueItem {
    QueueItem {
        callback_discriminator_offset: sym::u32("doff"),
        metas_offset: sym::u32("moff"),
        args_offset: sym::u32("aoff"),
        callback_discriminator_len: arr2("dlen"),
        metas_len: arr2("mlen"),
        args_len: arr2("alen"),
        ..QueueItem::default()
    }
}
fn arr2(t: &str) -> u16 {
    u16::from_le_bytes(sym::bytes::<2>(t))
}
#[no_mangle]
pub extern "C" fn h_queue_garbage() {
    garbage(sym::pick(&[0, 11, 12, 16, 111, 112, 136], "n"));
}
#[no_mangle]
pub extern "C" fn h_queue_garbage_deep() {
    garbage(sym::pick(&[12, 112, 208, 232, 248], "n"));
}
