//! The oracle service against a node whose answers, and a chain whose state, are chosen here.
use crate::env::*;
use crate::qmodel::*;
use crate::sym::{self, Key};
use crate::world::*;

pub const TTL: u64 = 240;
fn rec(id: u8, shape: (usize, usize, usize)) -> Rec {
    let mut r = Rec::sym(true, shape, "req");
    r.id = [id; 32];
    sym::assume(r.slot < 1 << 60);
    sym::assume(!sym::eq(&r.prog, &SYSTEM));
    for m in r.metas.chunks(33) {
        sym::assume(m[32] < 2);
    }
    r
}
/// The submitted instruction, executed by the real program on a chain holding this queue account. None: refused.
pub fn on_chain(s: &Sent, queue: &Key, qdata: &[u8], slot: u64) -> Option<Vec<u8>> {
    let kp = solana_sdk::signature::Keypair(env().keypair);
    let pk = ephemeral_vrf::vrf::generate_vrf_keypair(&kp).1.compress().to_bytes();
    let me = env().identity;
    let od = cat(&[&[1, 0, 0, 0, 0, 0, 0, 0], &pk, &[0u8; 16]]);
    let mut a: Vec<Acct> = vec![];
    let mut q = 0;
    for m in s.ix.accounts.iter() {
        let k = m.pubkey.to_bytes();
        let i = a.len();
        let mut x = if i < 5 && sym::eq(&k, &me) {
            Acct::new(k, SYSTEM, 1 << 40, vec![])
        } else if i < 5 && sym::eq(&k, &oracle_pda(&me)) {
            Acct::new(k, vrf(), 1 << 40, od.clone())
        } else if i < 5 && sym::eq(&k, queue) {
            q = i;
            Acct::new(k, vrf(), 1 << 40, qdata.to_vec())
        } else {
            Acct::new(k, [7; 32], 1 << 40, vec![])
        };
        sym::check(!m.is_signer || sym::eq(&k, &me), "only-the-oracle-signs");
        for y in a.iter() {
            sym::assume(!sym::eq(&y.key, &k));
        }
        x.signer = m.is_signer;
        x.writable = m.is_writable;
        a.push(x);
    }
    w().slot = slot;
    w().foreign = None;
    match exec(&mut a, &[], &s.ix.data) {
        Ok(()) => Some(a[q].data.clone()),
        Err(_) => None,
    }
}
fn ids(q: &[u8]) -> Vec<Key> {
    parse(&q[8..]).map(|x| x.2.iter().map(|r| r.id).collect()).unwrap_or_default()
}
/// Judges a submission for the queue content it was made for: right kind for the slot the oracle knew, accepted by a
/// chain that has moved on to `slot`, and it removes the request.
pub fn judge(s: &Sent, queue: &Key, qdata: &[u8], live: &[Rec], slot: u64) {
    match s.id {
        Some(id) => {
            let r = live.iter().find(|r| r.id == id);
            sym::check(r.is_some(), "answers-a-request-that-is-not-pending");
            let Some(r) = r else { return };
            sym::check(s.slot.saturating_sub(r.slot) <= TTL, "answers-an-expired-request");
            for m in r.metas.chunks(33) {
                sym::assume(!sym::eq(&m[..32], &env().identity));
            }
            if slot <= r.slot {
                sym::cover("too-early");
                return;
            }
            let post = on_chain(s, queue, qdata, slot);
            sym::check(post.is_some(), "program-refuses-the-answer");
            if let Some(p) = post {
                sym::check(!ids(&p).contains(&id), "answer-leaves-the-request");
                sym::cover("fulfilled");
            }
        }
        None => {
            let mut any = false;
            for r in live {
                any |= s.slot.saturating_sub(r.slot) > TTL;
            }
            sym::check(any, "purges-without-expired-requests");
            let post = on_chain(s, queue, qdata, slot);
            sym::check(post.is_some(), "program-refuses-the-purge");
            if let Some(p) = post {
                let left = ids(&p);
                for r in live {
                    sym::check(s.slot.saturating_sub(r.slot) <= TTL || !left.contains(&r.id), "purge-leaves-the-request");
                }
                sym::cover("purged");
            }
        }
    }
}
/// Runs every task but the main loop until it waits for time, for another task or for an answer that does not come.
pub fn settle() {
    for _ in 0..400 {
        let mut moved = false;
        for i in 1..rt::get().tasks.len() {
            if rt::runnable(i) && !env().frozen.contains(&i) {
                rt::step(i);
                moved = true;
            }
        }
        if !moved {
            return;
        }
    }
    sym::check(false, "tasks-do-not-settle");
}
/// Lets time pass, every timer ringing on time.
pub fn pass(ms: u64) {
    let end = rt::get().now_ms + ms;
    loop {
        settle();
        let mut next = u64::MAX;
        for i in 1..rt::get().tasks.len() {
            if let rt::Wait::Until(t) = rt::get().tasks[i].wait {
                if rt::alive(i) && !env().frozen.contains(&i) {
                    next = next.min(t);
                }
            }
        }
        if next > end {
            rt::get().now_ms = end;
            return;
        }
        rt::get().now_ms = next;
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Fate {
    Unanswered,
    Confirmed,
    NeverConfirmed,
    SendFails,
    ConfirmFails,
}
struct Scene {
    all: Vec<Rec>,  // every record of the scenario
    live: Vec<Rec>, // those in the queue now
    queue: Key,
    data: Vec<u8>,
    slot: u64,
    step: usize,
    max: usize,
    fates: Vec<(usize, Fate)>, // per task
    menu: Vec<Fate>,
    covered: Vec<Key>,
    before: usize,
    log: Vec<u64>, // latencies the statistics must contain
    mode: usize,
    full: Option<Vec<(Key, Key, Vec<u8>)>>,
    has: [Vec<u8>; 2],
    keys: [Key; 2],
    gone: Vec<usize>,
}
static mut SC: Scene =
    Scene { all: vec![], live: vec![], queue: [0; 32], data: vec![], slot: 0, step: 0, max: 0, fates: vec![], menu: vec![], covered: vec![], before: 0, log: vec![], mode: 0, full: None, has: [vec![], vec![]], keys: [[0; 32]; 2], gone: vec![] };
#[allow(static_mut_refs)]
fn sc() -> &'static mut Scene {
    unsafe { &mut SC }
}
fn node_slot(min: u64, t: &str) -> u64 {
    let s = sym::u64(t);
    sym::assume(s >= min);
    sym::assume(s < 1 << 61);
    s
}
fn put(recs: &[Rec], index: u8) {
    let s = sc();
    s.queue = queue_pda(&ME, index);
    s.live = live(recs);
    s.data = queue_bytes(&image(recs, index, true, 40));
    env().snapshot = Some(vec![(s.queue, vrf(), s.data.clone())]);
}
fn deliver() -> Option<(Key, Key, Vec<u8>, u64)> {
    Some((sc().queue, vrf(), sc().data.clone(), env().slot))
}

// ---------------------------------------------------------------- answers
/// Every pending request of the oracle's queue gets exactly one submission, which the program accepts.
fn answer(laser: bool, via_update: bool, max: usize, shapes: &[(usize, usize, usize)]) {
    let index = sym::pick(&[0u8, 9], "index");
    let n = 1 + sym::choose(max, "more");
    let mut rs = vec![];
    for i in 0..n {
        let mut r = rec(0xA0 + i as u8, sym::pick(shapes, "shape"));
        if r.metas.len() > 3 * 33 {
            // distinct accounts
            for (k, m) in r.metas.chunks_mut(33).enumerate() {
                m[..32].copy_from_slice(&[0xC0 + k as u8; 32]);
                if k > 3 {
                    m[32] = (k % 3 == 0) as u8;
                }
            }
        }
        r.used = n == 1 || sym::choose(2, "used") != 0;
        rs.push(r);
    }
    env().slot = node_slot(0, "node-slot");
    put(&rs, index);
    sc().slot = node_slot(env().slot, "chain-slot");
    sc().step = via_update as usize;
    if via_update {
        env().snapshot = Some(vec![]);
    }
    env().next = || {
        if sc().step == 1 {
            sc().step = 0;
            return deliver();
        }
        settle();
        let e = env();
        sym::check(e.sent.len() == sc().live.len(), "one-submission-per-request");
        for r in sc().live.iter() {
            let due = e.sent.iter().any(|s| s.id == Some(r.id));
            sym::check(due == (e.slot.saturating_sub(r.slot) <= TTL), "fresh-requests-are-answered-expired-ones-purged");
        }
        if sc().live.is_empty() {
            sym::cover("nothing-to-do");
            sym::end()
        }
        let i = sym::choose(e.sent.len(), "judged");
        judge(&e.sent[i], &sc().queue, &sc().data, &sc().live, sc().slot);
        sym::end()
    };
    start(keypair(), laser);
    drive(60);
}
#[no_mangle]
pub extern "C" fn h_oracle_answer() {
    answer(false, false, 1, &[(8, 1, 3), (0, 0, 0), (4, 2, 1)]);
}
#[no_mangle]
pub extern "C" fn h_oracle_answer_all() {
    answer(false, true, 2, &[(8, 1, 3), (0, 0, 0)]);
}
#[no_mangle]
pub extern "C" fn h_oracle_answer_more() {
    answer(false, true, 3, &[(8, 1, 3), (0, 0, 0)]);
}
#[no_mangle]
pub extern "C" fn h_oracle_answer_laser() {
    answer(true, true, 1, &[(8, 1, 3)]);
}
/// The largest request the program accepts, and another large one.
#[no_mangle]
pub extern "C" fn h_oracle_answer_large() {
    answer(false, true, 1, &[(8, 20, 512), (3, 9, 300)]);
}

// ---------------------------------------------------------------- long queues
/// A long queue, seen in a look or an update: every request is worked on by a task of its own, fresh ones to answer and
/// expired ones to purge them. Then all but some leave: exactly the tasks of those that left are stopped.
#[no_mangle]
pub extern "C" fn h_oracle_many() {
    const N: u8 = 70;
    env().identity.copy_from_slice(&fixed_keypair()[32..]);
    sc().queue = queue_pda(&env().identity, 0);
    let slots = [sym::u64("req"), sym::u64("req")];
    sym::assume((slots[0] < 1 << 60) & (slots[1] < 1 << 60));
    env().slot = node_slot(0, "node-slot");
    sc().all = (0..N)
        .map(|i| {
            let mut r = Rec { used: true, slot: slots[(i % 3 == 1) as usize], id: [0x10 + i; 32], prog: [9; 32], prio: i & 1, disc: vec![], metas: vec![], args: vec![] };
            if i % 8 == 0 {
                r.args = vec![i; 300];
            }
            r
        })
        .collect();
    fn show(left: fn(usize) -> bool) {
        for (i, r) in sc().all.iter_mut().enumerate() {
            r.used = left(i);
        }
        sc().data = queue_bytes(&image(&sc().all, 0, true, 40));
    }
    show(|_| true);
    let first = (sc().queue, vrf(), sc().data.clone());
    sc().step = sym::choose(2, "seen-in");
    env().snapshot = Some(if sc().step == 0 { vec![first] } else { vec![] });
    sc().menu = vec![Fate::Unanswered];
    use_fates();
    env().next = || {
        if sc().step == 1 {
            sc().step = 0;
            return Some((sc().queue, vrf(), sc().data.clone(), env().slot));
        }
        settle();
        sym::check(env().sent.len() == N as usize, "one-submission-per-request");
        for r in sc().all.iter() {
            let n = env().sent.iter().filter(|s| s.id == Some(r.id)).count();
            sym::check((n == 1) == (env().slot.saturating_sub(r.slot) <= TTL) && n < 2, "fresh-requests-are-answered-expired-ones-purged");
        }
        show(|i| i % 7 == 3);
        env().snapshot = Some(vec![(sc().queue, vrf(), sc().data.clone())]);
        pass(31_000);
        let mut purges = 0;
        for r in sc().all.iter() {
            match env().sent.iter().find(|s| s.id == Some(r.id)) {
                Some(s) => sym::check(rt::alive(s.task) == r.used, "pending-request-forgotten"),
                None => purges += r.used as usize,
            }
        }
        sym::check(env().sent.iter().filter(|s| s.id.is_none() && rt::alive(s.task)).count() == purges, "pending-request-forgotten");
        sym::check(env().sent.len() == N as usize, "two-tasks-for-one-request");
        sym::cover("left");
        sym::end()
    };
    start(fixed_keypair(), sym::choose(2, "source") == 1);
    drive(400);
}

// ---------------------------------------------------------------- two queues
/// The oracle's two queues, each with a request, of the same id or not; every sequence of updates of either. Each queue's
/// requests are worked on by one task each, and what happens to one queue leaves the other's alone.
fn two(updates: usize) {
    fn of(s: &Sent) -> usize {
        let i = (0..2).find(|q| s.ix.accounts.iter().any(|m| m.pubkey.to_bytes() == sc().keys[*q]));
        sym::check(i.is_some(), "submits-for-no-queue-of-its-own");
        i.unwrap_or(0)
    }
    fn content(q: usize) -> (Key, Key, Vec<u8>) {
        let mut rs: Vec<Rec> = sc().has[q].iter().map(|i| plain(*i, 100)).collect();
        rs.iter_mut().for_each(|r| r.prog = [9; 32]);
        (sc().keys[q], vrf(), queue_bytes(&image(&rs, q as u8, true, 40)))
    }
    env().slot = 110;
    env().identity.copy_from_slice(&fixed_keypair()[32..]);
    sc().keys = [queue_pda(&env().identity, 0), queue_pda(&env().identity, 1)];
    let same = sym::choose(2, "same-id") == 1;
    sc().has = [vec![0xA0], vec![if same { 0xA0 } else { 0xA1 }]];
    env().snapshot = Some(vec![content(0), content(1)]);
    sc().max = updates;
    sc().menu = vec![Fate::Unanswered, Fate::Confirmed, Fate::ConfirmFails];
    use_fates();
    env().next = || {
        settle();
        for t in sc().gone.iter() {
            sym::check(!rt::alive(*t), "works-on-a-request-that-has-left");
        }
        // of every request in a queue, one task is at work or has succeeded; of no other
        for q in 0..2 {
            for id in 0xA0..0xA4u8 {
                let n = env().sent.iter().filter(|s| s.id == Some([id; 32]) && !s.gone && of(s) == q && (rt::alive(s.task) || s.outcome == Some(true))).count();
                let failed = env().sent.iter().any(|s| s.id == Some([id; 32]) && !s.gone && of(s) == q && s.outcome == Some(false));
                if sc().has[q].contains(&id) {
                    sym::check(n <= 1, "two-tasks-for-one-request");
                    sym::check(n == 1 || failed, "pending-request-forgotten");
                    sym::cover("at-work");
                } else {
                    sym::check(n == 0, "works-on-a-request-that-has-left");
                }
            }
        }
        if sc().step == sc().max {
            sym::end()
        }
        sc().step += 1;
        let q = sym::choose(2, "queue");
        env().slot += 7;
        let old = core::mem::take(&mut sc().has[q]);
        match sym::choose(3, "content") {
            0 => {}
            1 => sc().has[q] = old.clone(),
            _ => sc().has[q] = vec![0xA1 + sc().step as u8],
        }
        for id in old.iter() {
            if !sc().has[q].contains(id) {
                for s in env().sent.iter_mut().filter(|s| s.id == Some([*id; 32])) {
                    if of(s) == q {
                        s.gone = true;
                        sc().gone.push(s.task);
                    }
                }
                sym::cover("vanished");
            }
        }
        let (k, o, d) = content(q);
        Some((k, o, d, env().slot))
    };
    start(fixed_keypair(), sym::choose(2, "source") == 1);
    drive(400);
}
#[no_mangle]
pub extern "C" fn h_oracle_two() {
    two(1);
}
#[no_mangle]
pub extern "C" fn h_oracle_two_deep() {
    two(2);
}

// ---------------------------------------------------------------- retries
fn fate(e: &Env, task: usize) -> Fate {
    let _ = e;
    for (t, f) in sc().fates.iter() {
        if *t == task {
            return *f;
        }
    }
    let f = if sc().menu.len() == 1 { sc().menu[0] } else { sc().menu[sym::choose(sc().menu.len(), "fate")] };
    sc().fates.push((task, f));
    if f == Fate::Unanswered {
        env().frozen.push(task);
    }
    f
}
fn set_fate(task: usize, f: Fate) {
    env().frozen.retain(|t| *t != task);
    for x in sc().fates.iter_mut() {
        if x.0 == task {
            x.1 = f;
        }
    }
}
fn use_fates() {
    env().send_ok = |e, s| fate(e, s.task) != Fate::SendFails;
    env().confirm = |e, n| match fate(e, e.sent[n].task) {
        Fate::Confirmed | Fate::Unanswered => Some(true),
        Fate::NeverConfirmed => Some(false),
        _ => None,
    };
}
fn plain(id: u8, slot: u64) -> Rec {
    let mut r = Rec::sym(true, (0, 0, 0), "req");
    r.id = [id; 32];
    r.slot = slot;
    sym::assume(!sym::eq(&r.prog, &SYSTEM));
    r
}
/// The first attempts fail in every combination of ways, with the chain moving on; the next one is made for the chain as
/// it is then, and is accepted. After the confirmation the request is left alone.
#[no_mangle]
pub extern "C" fn h_oracle_retry() {
    retry(2);
}
#[no_mangle]
pub extern "C" fn h_oracle_retry_more() {
    retry(3);
}
fn retry(max: usize) {
    let r = rec(0xA7, (8, 1, 3));
    env().slot = node_slot(0, "node-slot");
    put(&[r], 3);
    sc().max = sym::choose(max + 1, "failures");
    env().pending = Some(vec![[0xA7; 32]]);
    env().send_ok = |e, _| {
        if e.sent.len() >= sc().max {
            return true;
        }
        let f = sym::choose(3, "how");
        sc().mode = f;
        if f == 0 {
            env().slot = node_slot(e.slot, "later-slot");
        }
        f != 0
    };
    env().confirm = |e, n| {
        if n >= sc().max {
            return Some(true);
        }
        env().slot = node_slot(e.slot, "later-slot");
        if sc().mode == 1 { Some(false) } else { None }
    };
    env().next = || {
        pass(1000);
        sym::check(env().sent.len() == sc().max + 1, "gives-up-or-sends-again-after-success");
        let s = env().sent.last().unwrap();
        sym::check(s.outcome == Some(true), "confirmed-in-the-end");
        sc().slot = node_slot(env().slot, "chain-slot");
        if s.id.is_some() {
            judge(s, &sc().queue, &sc().data, &sc().live, sc().slot);
        } else {
            judge(s, &sc().queue, &sc().data, &sc().live, sc().slot);
        }
        sym::cover("confirmed");
        sym::end()
    };
    start(keypair(), false);
    drive(60);
}
/// A request nobody confirms: after its attempts are used up it is taken up again by the next look at the queue.
#[no_mangle]
pub extern "C" fn h_oracle_giveup() {
    let r = plain(0xA7, 100);
    env().slot = 110;
    put(&[r], 0);
    sc().menu = vec![[Fate::SendFails, Fate::NeverConfirmed, Fate::ConfirmFails][sym::choose(3, "how")]];
    sc().mode = sym::choose(2, "looks-again-by");
    env().pending = Some(vec![[0xA7; 32]]);
    use_fates();
    env().next = || {
        let t = match env().sent.first() {
            Some(s) => s.task,
            None => {
                settle();
                match env().sent.first() {
                    Some(s) => s.task,
                    None => {
                        sym::check(false, "request-not-answered");
                        sym::end()
                    }
                }
            }
        };
        if sc().step == 0 {
            // until the task ends
            let n0 = rt::get().now_ms;
            while rt::alive(t) && rt::get().now_ms < n0 + 600_000 && !env().sent.iter().any(|s| s.task != t) {
                pass(50);
            }
            sym::check(!rt::alive(t), "task-never-ends");
            sc().menu = vec![Fate::Confirmed];
            sc().step = 1;
            sc().before = env().sent.len();
            if env().sent.iter().any(|s| s.task != t) {
                sc().before -= 1;
            }
            if sc().mode == 1 {
                return deliver();
            }
            pass(30_000);
        }
        settle();
        sym::check(env().sent.len() > sc().before, "pending-request-forgotten");
        sym::check(env().sent.last().unwrap().outcome == Some(true), "confirmed-in-the-end");
        sym::cover("taken-up-again");
        sym::end()
    };
    start(fixed_keypair(), false);
    drive(100);
}

// ---------------------------------------------------------------- one submission at a time
fn here(id: &Key) -> bool {
    sc().live.iter().any(|r| r.id == *id)
}
fn at_work(id: &Key) -> bool {
    env().sent.iter().any(|s| s.id == Some(*id) && !s.gone && (rt::alive(s.task) || s.outcome == Some(true)))
}
fn check_stats() {
    let q = solana_program::pubkey::Pubkey::new_from_array(sc().queue).to_string();
    let c = env().client.as_ref().unwrap();
    let n = c.queue_stats.try_read().ok().and_then(|m| m.get(&q).copied());
    sym::check(n == Some(sc().live.len()), "published-queue-length");
    let a = c.avg_response_slots.try_read().ok().and_then(|m| m.get(&q).copied());
    if sc().log.is_empty() {
        sym::check(a.unwrap_or(0.0) == 0.0, "published-average-latency");
    } else {
        let sum: u64 = sc().log.iter().sum();
        let d = a.unwrap_or(-1e9) * sc().log.len() as f64 - sum as f64;
        sym::check(d < 0.01 && d > -0.01, "published-average-latency");
        sym::cover("latency-published");
    }
}
fn subset(t: &str) -> Vec<Rec> {
    let k = sym::choose(1 << sc().all.len(), t);
    sc().all.iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|(_, r)| r.clone()).collect()
}
fn rounds(ids: usize, updates: usize, late: bool) {
    for i in 0..ids {
        sc().all.push(plain(0xA0 + i as u8, 100 + i as u64));
    }
    env().slot = 110;
    let s0 = subset("first");
    put(&s0, 0);
    sc().max = updates;
    sc().menu = vec![Fate::Unanswered, Fate::Confirmed, Fate::ConfirmFails];
    sc().mode = late as usize;
    use_fates();
    env().next = || {
        let e = env();
        // the content delivered last has been processed
        e.pending = Some(sc().live.iter().map(|r| r.id).collect());
        settle();
        for r in sc().live.iter() {
            if !sc().covered.contains(&r.id) {
                sym::check(e.sent.iter().skip(sc().before).any(|s| s.id == Some(r.id)), "pending-request-forgotten");
                sym::cover("taken-up");
            }
        }
        check_stats();
        if sc().step == sc().max {
            sym::end()
        }
        // late answers
        if sc().mode == 1 {
            for t in e.frozen.clone() {
                if rt::alive(t) {
                    match sym::choose(3, "late") {
                        0 => {}
                        1 => set_fate(t, Fate::Confirmed),
                        _ => set_fate(t, Fate::ConfirmFails),
                    }
                }
            }
            settle();
        }
        sc().covered = sc().live.iter().map(|r| r.id).filter(|i| at_work(i)).collect();
        sc().before = e.sent.len();
        sc().step += 1;
        let old = sc().live.clone();
        let new = subset("update");
        e.slot = 110 + 7 * sc().step as u64;
        put(&new, 0);
        for r in old.iter() {
            if !here(&r.id) {
                // its task is cancelled, whatever it was doing
                if sc().covered.contains(&r.id) {
                    sc().log.push(e.slot - r.slot);
                    sym::cover("vanished");
                }
                for s in e.sent.iter_mut().filter(|s| s.id == Some(r.id)) {
                    s.gone = true;
                }
            }
        }
        e.pending = None;
        deliver()
    };
    start(fixed_keypair(), false);
    drive(400);
}
#[no_mangle]
pub extern "C" fn h_oracle_rounds() {
    rounds(2, 2, false);
}
#[no_mangle]
pub extern "C" fn h_oracle_late() {
    rounds(1, 3, true);
}
#[no_mangle]
pub extern "C" fn h_oracle_rounds_deep() {
    rounds(2, 3, true);
}
#[no_mangle]
pub extern "C" fn h_oracle_rounds_wide() {
    rounds(3, 2, false);
}

/// A longer history: each update of one of the oracle's two queues answers its one request and brings another, after a
/// short or a long time; every queue's average is the mean of all its latencies so far.
struct Mean {
    slot: [u64; 2],
    log: [Vec<u64>; 2],
    n: u8,
    at: usize,
}
static mut MEAN: Mean = Mean { slot: [100, 100], log: [vec![], vec![]], n: 0, at: 0 };
#[allow(static_mut_refs)]
fn means(updates: usize) {
    fn m() -> &'static mut Mean {
        unsafe { &mut MEAN }
    }
    fn content(q: usize) -> (Key, Key, Vec<u8>) {
        m().n += 1;
        let r = plain(m().n, m().slot[q]);
        (queue_pda(&env().identity, q as u8), vrf(), queue_bytes(&image(&[r], q as u8, true, 40)))
    }
    env().slot = 110;
    env().identity.copy_from_slice(&fixed_keypair()[32..]);
    env().snapshot = Some(vec![content(0), content(1)]);
    sc().max = updates;
    sc().menu = vec![Fate::Confirmed];
    use_fates();
    env().next = || {
        settle();
        let c = env().client.as_ref().unwrap();
        for q in 0..2 {
            let k = solana_program::pubkey::Pubkey::new_from_array(queue_pda(&env().identity, q as u8)).to_string();
            let n = c.queue_stats.try_read().ok().and_then(|t| t.get(&k).copied());
            sym::check(n == Some(1), "published-queue-length");
            let a = c.avg_response_slots.try_read().ok().and_then(|t| t.get(&k).copied());
            let l = &m().log[q];
            let d = a.unwrap_or(0.0) * l.len() as f64 - l.iter().sum::<u64>() as f64;
            sym::check(d < 0.01 && d > -0.01, "published-average-latency");
        }
        if sc().step == sc().max {
            sym::cover("mean-of-many");
            sym::end()
        }
        sc().step += 1;
        let q = if sc().step == 1 { 0 } else { sym::choose(2, "queue") };
        env().slot += [3, 5_000_000_007][sym::choose(2, "later-by")];
        let l = env().slot - m().slot[q];
        m().log[q].push(l);
        m().slot[q] = env().slot - m().n as u64;
        m().at = q;
        let (k, o, d) = content(q);
        Some((k, o, d, env().slot))
    };
    start(fixed_keypair(), sym::choose(2, "source") == 1);
    drive(400);
}
#[no_mangle]
pub extern "C" fn h_oracle_means() {
    means(4);
}
#[no_mangle]
pub extern "C" fn h_oracle_means_deep() {
    means(6);
}

// ---------------------------------------------------------------- schedules
/// The periodic look at the queue and an update with the same content, interleaved in every way at their accesses to the
/// shared tables, together with the tasks they start.
fn race(ids: usize, menu: &[Fate]) {
    let rs: Vec<Rec> = (0..ids).map(|i| plain(0xA0 + i as u8, 100)).collect();
    env().slot = 110;
    put(&rs, 0);
    sc().full = env().snapshot.take();
    env().snapshot = Some(vec![]);
    sc().menu = menu.to_vec();
    use_fates();
    env().next = || {
        sc().step += 1;
        if sc().step == 1 {
            env().snapshot = sc().full.clone();
            rt::get().preempt = true;
            return deliver();
        }
        // the update has been processed
        schedule(false);
        for r in sc().live.iter() {
            let n = env().sent.iter().filter(|s| s.id == Some(r.id) && rt::alive(s.task)).count();
            sym::check(n == 0, "task-stuck");
            sym::check(env().sent.iter().any(|s| s.id == Some(r.id)), "request-not-answered");
            sym::cover("answered");
        }
        sym::end()
    };
    start(fixed_keypair(), false);
    env().pending = Some(sc().live.iter().map(|r| r.id).collect());
    schedule(true);
    sym::check(false, "service-deadlocked");
}
fn schedule(main: bool) {
    loop {
        let c: Vec<usize> = ((!main) as usize..rt::get().tasks.len()).filter(|i| *i != 1 && rt::runnable(*i) && !env().frozen.contains(i)).collect();
        if c.is_empty() {
            return;
        }
        let i = if c.len() == 1 { c[0] } else { c[sym::choose(c.len(), "next")] };
        rt::step(i);
        // calls to the node return at once
        while rt::alive(i) && rt::runnable(i) && rt::get().tasks[i].wait == rt::Wait::Call && !env().frozen.contains(&i) {
            rt::step(i);
        }
    }
}
/// An update with a request and the periodic look, which no longer finds it, interleaved in every way at their accesses to
/// the shared tables, together with the task they start: after a later update without the request nobody works on it.
#[no_mangle]
pub extern "C" fn h_oracle_race_gone() {
    let r = plain(0xA7, 100);
    env().slot = 110;
    put(&[], 0);
    sc().full = env().snapshot.take();
    put(&[r], 0);
    env().snapshot = Some(vec![]);
    sc().menu = vec![Fate::Unanswered];
    use_fates();
    env().next = || {
        sc().step += 1;
        match sc().step {
            1 => {
                env().snapshot = sc().full.clone();
                rt::get().preempt = true;
                deliver()
            }
            2 => {
                schedule(false);
                rt::get().preempt = false;
                for i in 1..rt::get().tasks.len() {
                    sym::check(!rt::alive(i) || !matches!(rt::get().tasks[i].wait, rt::Wait::Lock(..)), "task-stuck");
                }
                sym::cover(if env().sent.iter().any(|s| !rt::alive(s.task)) { "stopped-by-the-look" } else if env().sent.is_empty() { "unsent" } else { "going-on" });
                put(&[], 0);
                deliver()
            }
            _ => {
                settle();
                let n = env().sent.iter().filter(|s| s.id.is_some() && rt::alive(s.task)).count();
                sym::check(n == 0, "works-on-a-request-that-has-left");
                sym::cover(if env().sent.is_empty() { "not-taken-up" } else { "stopped" });
                sym::end()
            }
        }
    };
    start(fixed_keypair(), false);
    schedule(true);
    sym::check(false, "service-deadlocked");
}
#[no_mangle]
pub extern "C" fn h_oracle_race() {
    race(1, &[Fate::Confirmed]);
}
#[no_mangle]
pub extern "C" fn h_oracle_race_deep() {
    race(1, &[Fate::Confirmed, Fate::ConfirmFails]);
}
/// A task at the end of its unsuccessful attempts, and an update that does or does not contain its request, interleaved in
/// every way: nothing gets stuck, and the request's next appearance is taken up.
#[no_mangle]
pub extern "C" fn h_oracle_race_end() {
    let r = plain(0xA7, 100);
    env().slot = 110;
    put(&[r], 0);
    sc().full = env().snapshot.clone();
    sc().menu = vec![Fate::ConfirmFails];
    use_fates();
    env().next = || {
        sc().step += 1;
        match sc().step {
            1 => {
                settle_until_cleanup();
                env().snapshot = Some(vec![]);
                sc().all = sc().live.clone();
                sc().mode = sym::choose(2, "still-there");
                if sc().mode == 0 {
                    put(&[], 0);
                    env().snapshot = Some(vec![]);
                }
                deliver()
            }
            2 => {
                schedule(false);
                rt::get().preempt = false;
                for i in 1..rt::get().tasks.len() {
                    sym::check(!rt::alive(i) || !matches!(rt::get().tasks[i].wait, rt::Wait::Lock(..)), "task-stuck");
                }
                sc().menu = vec![Fate::Confirmed];
                sc().before = env().sent.len();
                let a = sc().all.clone();
                put(&a, 0);
                env().snapshot = Some(vec![]);
                deliver()
            }
            _ => {
                settle();
                let ok = env().sent.iter().any(|s| s.outcome == Some(true));
                sym::check(ok, "pending-request-forgotten");
                sym::cover("taken-up-again");
                sym::end()
            }
        }
    };
    start(fixed_keypair(), false);
    schedule(true);
    sym::check(false, "service-deadlocked");
}
/// The request's task makes all its attempts and stops before it touches the shared tables.
fn settle_until_cleanup() {
    settle_others();
    rt::get().preempt = true;
    let t = rt::get().tasks.len();
    for i in 2..t {
        while rt::alive(i) && rt::runnable(i) && !matches!(rt::get().tasks[i].wait, rt::Wait::Lock(..)) {
            rt::step(i);
        }
    }
}
/// The periodic look, up to its next tick.
fn settle_others() {
    let i = rt::get().tasks.len() - 1;
    while rt::runnable(i) {
        rt::step(i);
        for j in 2..rt::get().tasks.len() {
            if let rt::Wait::Join(k) = rt::get().tasks[i].wait {
                if j == k && rt::runnable(j) {
                    rt::step(j);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- other accounts
/// Queues of other oracles, accounts of other programs and undecodable accounts cause no submission, and what comes
/// after them is served.
fn foreign(laser: bool) {
    let index = 2u8;
    let r = plain(0xA7, 100);
    env().slot = 110;
    put(&[r.clone()], index);
    let good = env().snapshot.take().unwrap();
    let other: Key = [0x33; 32];
    let img = |i: u8| queue_bytes(&image(&[r.clone()], i, true, 0));
    let bad = match sym::choose(6, "what") {
        0 => (queue_pda(&other, index), vrf(), img(index)),
        1 => (queue_pda(&ME, 3), vrf(), img(index)),
        2 => ([0x44; 32], vrf(), img(index)),
        3 if !laser => (sc().queue, [0x55; 32], img(index)),
        4 => (sc().queue, vrf(), {
            let mut d = img(index);
            d[0] = sym::u8("disc");
            sym::assume(d[0] != 3);
            d
        }),
        5 => (sc().queue, vrf(), img(index)[..sym::pick(&[0usize, 8, 15], "length")].to_vec()),
        _ => return,
    };
    env().pending = Some(vec![]);
    sc().max = sym::choose(2, "seen-by");
    if sc().max == 0 {
        let mut v = vec![bad.clone()];
        if sym::choose(2, "first") == 1 {
            v.push(bad.clone());
        }
        env().snapshot = Some(v);
    } else {
        env().snapshot = Some(vec![]);
    }
    static mut BAD: Option<(Key, Key, Vec<u8>)> = None;
    unsafe { BAD = Some(bad) };
    static mut GOOD: Vec<(Key, Key, Vec<u8>)> = vec![];
    unsafe { GOOD = good };
    #[allow(static_mut_refs)]
    fn next() -> Option<(Key, Key, Vec<u8>, u64)> {
        settle();
        sc().step += 1;
        if sc().step == 1 && sc().max == 1 {
            let (k, o, d) = unsafe { BAD.clone().unwrap() };
            return Some((k, o, d, 110));
        }
        sym::check(env().sent.is_empty(), "submits-for-a-foreign-account");
        if sc().step <= 2 {
            env().pending = Some(vec![[0xA7; 32]]);
            sc().step = 2;
            unsafe { env().snapshot = Some(GOOD.clone()) };
            sc().step = 5;
            return deliver();
        }
        sym::end()
    }
    env().next = || {
        if sc().step >= 5 {
            settle();
            sym::check(env().sent.iter().any(|s| s.id == Some([0xA7; 32]) && s.outcome == Some(true)), "own-queue-not-served-afterwards");
            sym::cover("served-afterwards");
            sym::end()
        }
        next()
    };
    start(fixed_keypair(), laser);
    drive(100);
}
#[no_mangle]
pub extern "C" fn h_oracle_foreign() {
    foreign(false);
}
#[no_mangle]
pub extern "C" fn h_oracle_foreign_laser() {
    foreign(true);
}

// ---------------------------------------------------------------- recovery
/// Failures of the node in every combination of `max` events; afterwards an update is served within a minute.
fn recover(laser: bool, max: usize) {
    put(&[plain(0xA7, 100)], 0);
    env().slot = 110;
    env().snapshot = Some(vec![]);
    sc().max = max;
    env().pending = Some(vec![[0xA7; 32]]);
    if sym::choose(2, "first-look-fails") == 1 {
        env().snapshot = None;
        sym::cover("first-look-fails");
    }
    env().next = || {
        env().snapshot = Some(vec![]);
        settle();
        if sc().step == 99 {
            sym::check(env().sent.iter().any(|s| s.outcome == Some(true)), "request-not-answered-after-recovery");
            sym::cover("recovered");
            sym::end()
        }
        sc().step += 1;
        if sc().step <= sc().max {
            match sym::choose(5, "event") {
                0 => return None, // the stream ends
                1 => return Some((sc().queue, [9; 32], sc().data.clone(), 110)),
                2 => return Some((sc().queue, vrf(), vec![3, 0, 0], 110)),
                3 => {
                    // nothing can be subscribed for a while
                    env().subscribe_ok = false;
                    return None;
                }
                _ => {}
            }
        }
        sc().step = 99;
        sc().before = rt::get().now_ms as usize;
        deliver()
    };
    start(fixed_keypair(), laser);
    let mut n = 0;
    let mut downs = 0;
    while rt::alive(0) && n < 200 {
        n += 1;
        if rt::runnable(0) {
            rt::step(0);
        } else if let rt::Wait::Until(t) = rt::get().tasks[0].wait {
            sym::check(t <= rt::get().now_ms + 60_000, "waits-too-long");
            if !env().subscribe_ok && env().subscriptions > downs {
                downs = env().subscriptions;
                if n > 20 {
                    env().subscribe_ok = true;
                }
            }
            if env().snapshot.is_none() && env().fetches >= 2 {
                env().snapshot = Some(vec![]);
            }
            rt::get().now_ms = t;
        } else {
            settle();
        }
    }
    sym::check(false, "service-stopped");
}
#[no_mangle]
pub extern "C" fn h_oracle_recover() {
    recover(false, 3);
}
#[no_mangle]
pub extern "C" fn h_oracle_recover_laser() {
    recover(true, 2);
}
/// No update ever arrives and some of the looks fail: the periodic look still finds the request.
#[no_mangle]
pub extern "C" fn h_oracle_periodic() {
    put(&[plain(0xA7, 100)], 0);
    let full = env().snapshot.take().unwrap();
    env().slot = 110;
    env().snapshot = Some(vec![]);
    env().pending = Some(vec![[0xA7; 32]]);
    static mut FULL: Vec<(Key, Key, Vec<u8>)> = vec![];
    unsafe { FULL = full };
    #[allow(static_mut_refs)]
    fn next() -> Option<(Key, Key, Vec<u8>, u64)> {
        settle();
        for _ in 0..sym::choose(3, "failing") {
            env().snapshot = None;
            pass(30_000);
            sym::cover("look-failed");
        }
        unsafe { env().snapshot = Some(FULL.clone()) };
        pass(30_000);
        settle();
        sym::check(env().sent.iter().any(|s| s.outcome == Some(true)), "pending-request-never-seen");
        sym::cover("found");
        sym::end()
    }
    env().next = next;
    start(fixed_keypair(), false);
    drive(100);
}

// ---------------------------------------------------------------- blockhash
/// However long the service idles, and even if refreshing fails for a while, what it submits carries a blockhash asked
/// for less than a minute (and a bit) ago.
#[no_mangle]
pub extern "C" fn h_oracle_blockhash() {
    put(&[plain(0xA7, 450)], 0); // past its lifetime from slot 691 on
    env().slot = 460;
    let idle = sym::pick(&[0u64, 30_000, 59_900, 60_100, 60_300, 61_000, 119_950, 121_000], "idle");
    sc().slot = idle;
    let full = env().snapshot.take();
    static mut FULL: Option<Vec<(Key, Key, Vec<u8>)>> = None;
    unsafe { FULL = full };
    env().snapshot = Some(vec![]);
    sc().max = sym::choose(2, "refresh-fails-at-first");
    #[allow(static_mut_refs)]
    fn next() -> Option<(Key, Key, Vec<u8>, u64)> {
        if sc().step == 0 {
            sc().step = 1;
            if sc().max == 1 {
                env().blockhash_ok = false;
                pass(60_500);
                env().slot = 470;
                env().blockhash_ok = true;
                pass(200);
            }
            env().slot += sym::pick(&[100, 300], "later-slots");
            pass(sc().slot);
            env().slot += 5;
            return deliver();
        }
        settle();
        sym::check(env().sent.len() == 1, "one-submission-per-request");
        for s in env().sent.iter() {
            sym::check(s.age_ms <= 60_300, "stale-blockhash");
            sym::check(s.id.is_some() == (s.slot <= 450 + TTL), "decided-on-another-slot");
            if s.id.is_none() {
                sym::cover("purge-sent");
            }
        }
        sym::cover("sent");
        sym::end()
    }
    env().next = next;
    start(fixed_keypair(), false);
    drive(100);
}
