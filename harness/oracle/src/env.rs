//! The outside world of the oracle service: an RPC node, its subscription, and the scheduler. The service's main task is
//! task 0; the node gets control whenever the service asks for the next update, and runs the other tasks there.
use crate::oracle::client::OracleClient;
use crate::sym::{self, Key};
use crate::world::*;
use helius_laserstream as laser;
use solana_account_decoder::{UiAccount, UiAccountData};
use solana_client::rpc_config::RpcSendTransactionConfig;
use solana_client::rpc_filter::RpcFilterType;
use solana_client::rpc_response::{Response, RpcKeyedAccount};
use solana_client::{Account, Node};
use solana_program::{hash::Hash, instruction::Instruction, pubkey::Pubkey};
use solana_sdk::signature::{Keypair, Signature};
use solana_sdk::transaction::Transaction;
use std::sync::Arc;
pub use tokio::rt;

/// A transaction the service submitted.
pub struct Sent {
    pub task: usize,
    pub ix: Instruction, // the one for the VRF program
    pub id: Option<Key>, // provide: the request's id
    pub hash_no: usize,
    pub slot: u64, // the node's slot when that blockhash was asked for
    pub ok: bool,
    pub outcome: Option<bool>,
    pub gone: bool, // the request has left the queue since
    pub skipped: bool, // the node's preflight
    pub age_ms: u64, // how long ago the blockhash was asked for
}
pub struct Env {
    pub snapshot: Option<Vec<(Key, Key, Vec<u8>)>>, // key, owner, data; None: the call fails
    pub fetches: u64,
    pub sent: Vec<Sent>,
    pub send_ok: fn(&Env, &Sent) -> bool,
    pub confirm: fn(&Env, usize) -> Option<bool>,
    pub slot: u64,
    pub slots: u64, // how often the blockhash was asked for
    pub hashes: Vec<(Hash, u64, u64)>,
    pub next: fn() -> Option<(Key, Key, Vec<u8>, u64)>, // key, owner, data, slot
    pub subscribe_ok: bool,
    pub subscriptions: u64,
    pub client: Option<Arc<OracleClient>>,
    pub identity: Key,
    pub keypair: [u8; 64],
    pub updates: u64,
    pub pending: Option<Vec<Key>>, // ids of the queue content the service processed last; None: not judged
    pub frozen: Vec<usize>, // tasks whose calls stay unanswered
    pub blockhash_ok: bool,
    pub refuse: usize,  // how many more times the blockhash is refused
    pub refused: usize, // how often it was
}
static mut ENV: Env = Env {
    snapshot: None,
    fetches: 0,
    sent: vec![],
    send_ok: |_, _| true,
    confirm: |_, _| Some(true),
    slot: 0,
    slots: 0,
    hashes: vec![],
    next: || None,
    subscribe_ok: true,
    subscriptions: 0,
    client: None,
    identity: [0; 32],
    keypair: [0; 64],
    updates: 0,
    pending: None,
    frozen: vec![],
    blockhash_ok: true,
    refuse: 0,
    refused: 0,
};
#[allow(static_mut_refs)]
pub fn env() -> &'static mut Env {
    unsafe { &mut ENV }
}
pub const BUDGET: Pubkey = solana_compute_budget_interface::ID;
pub const PROVIDE: u8 = 4;
fn hash_no(n: u64) -> Hash {
    let mut b = [0u8; 32];
    b[0] = 1;
    b[1] = n as u8;
    b[2] = (n >> 8) as u8;
    b[31] = 9;
    Hash::new_from_array(b)
}
fn blockhash() -> Result<(Hash, u64), ()> {
    let e = env();
    e.refused += (e.refuse > 0) as usize;
    if !e.blockhash_ok || e.refuse > 0 {
        e.refuse = e.refuse.saturating_sub(1);
        return Err(());
    }
    let h = hash_no(e.slots);
    e.slots += 1;
    e.hashes.push((h, e.slot, rt::get().now_ms));
    Ok((h, e.slot))
}
fn accounts(p: &Pubkey, filters: Option<Vec<RpcFilterType>>) -> Result<Vec<(Pubkey, Account)>, ()> {
    let e = env();
    e.fetches += 1;
    check_filters(p, filters);
    let s = e.snapshot.clone().ok_or(())?;
    Ok(s.into_iter()
        .map(|(k, o, d)| (Pubkey::new_from_array(k), Account { lamports: 1, data: d, owner: Pubkey::new_from_array(o), executable: false, rent_epoch: 0 }))
        .collect())
}
/// The node's filters must let every queue of the program through.
fn check_filters(p: &Pubkey, filters: Option<Vec<RpcFilterType>>) {
    sym::check(sym::eq(&p.to_bytes(), &vrf()), "asks-for-another-program");
    let disc = [3u8, 0, 0, 0, 0, 0, 0, 0];
    for f in filters.unwrap_or_default() {
        let ok = match f {
            RpcFilterType::Memcmp(m) => match m.bytes {
                solana_client::rpc_filter::MemcmpEncodedBytes::Bytes(b) => m.offset + b.len() <= 8 && b == disc[m.offset..m.offset + b.len()],
                _ => false,
            },
            _ => false,
        };
        sym::check(ok, "filter-hides-queues");
    }
}
/// An upper bound of the serialized size: every account counts, but the payer and the programs count once.
fn size(t: &Transaction) -> usize {
    let mut programs: Vec<Key> = vec![];
    let mut keys = 1;
    let mut n = 1 + 64 * t.signers.len() + 3 + 1 + 32 + 1;
    for i in t.instructions.iter() {
        let p = i.program_id.to_bytes();
        if !programs.contains(&p) {
            programs.push(p);
            keys += 1;
        }
        let me = i.accounts.first().map(|m| t.payer.map(|p| sym::eq(&m.pubkey.to_bytes(), &p.to_bytes())).unwrap_or(false)).unwrap_or(false);
        keys += i.accounts.len() - me as usize;
        n += 1 + 1 + i.accounts.len() + 1 + (i.data.len() > 127) as usize + i.data.len();
    }
    n + 32 * keys
}
fn send(t: &Transaction, c: RpcSendTransactionConfig) -> Result<Signature, ()> {
    let e = env();
    let me = e.identity;
    // the shape of every transaction of the service
    sym::check(size(t) <= 1232, "too-large-for-a-packet");
    sym::check(t.payer.map(|p| sym::eq(&p.to_bytes(), &me)).unwrap_or(false), "oracle-pays");
    sym::check(t.signers.len() == 1 && sym::eq(&t.signers[0].to_bytes(), &me), "oracle-signs");
    let at = e.hashes.iter().rposition(|h| h.0 == t.blockhash);
    sym::check(at.is_some(), "unknown-blockhash");
    let Some(at) = at else { return Err(()) };
    let known = e.hashes[at];
    let mut mine = vec![];
    for i in t.instructions.iter() {
        if sym::eq(&i.program_id.to_bytes(), &vrf()) {
            mine.push(i.clone());
        } else {
            sym::check(sym::eq(&i.program_id.to_bytes(), &BUDGET.to_bytes()), "instruction-for-another-program");
        }
    }
    sym::check(mine.len() == 1, "one-instruction-per-transaction");
    if mine.len() != 1 {
        return Err(());
    }
    let ix = mine.pop().unwrap();
    let id = if ix.data.len() > 40 && ix.data[0] == PROVIDE { Some(ix.data[8..40].try_into().unwrap()) } else { None };
    let mut s = Sent { task: rt::get().current, ix, id, hash_no: at, slot: known.1, ok: false, outcome: None, gone: false, skipped: c.skip_preflight, age_ms: rt::get().now_ms - known.2 };
    if let (Some(id), Some(p)) = (s.id, e.pending.as_ref()) {
        sym::check(p.contains(&id), "answers-a-vanished-request");
        for x in e.sent.iter().filter(|x| x.id == s.id) {
            sym::check(x.task != s.task || x.hash_no < s.hash_no || !e.blockhash_ok, "tries-again-with-the-same-blockhash");
            sym::check(x.task == s.task || !rt::alive(x.task), "two-tasks-for-one-request");
            sym::check(x.outcome != Some(true) || x.gone, "answers-a-confirmed-request");
        }
    }
    s.ok = (e.send_ok)(e, &s);
    let ok = s.ok;
    let n = e.sent.len();
    e.sent.push(s);
    if !ok {
        return Err(());
    }
    let mut b = [0u8; 64];
    b[0] = n as u8;
    b[1] = 0x5a;
    b[2] = (n >> 8) as u8;
    Ok(Signature::from(b))
}
fn confirm(s: &Signature) -> Result<bool, ()> {
    let b = s.as_ref();
    let e = env();
    let n = b[0] as usize | (b[2] as usize) << 8;
    let known = b[1] == 0x5a && n < e.sent.len();
    sym::check(known, "confirms-an-unknown-transaction");
    if !known {
        return Err(());
    }
    let r = (e.confirm)(e, n);
    e.sent[n].outcome = Some(r == Some(true));
    r.ok_or(())
}
fn update() -> Option<Response<RpcKeyedAccount>> {
    env().updates += 1;
    let (k, o, d, slot) = (env().next)()?;
    Some(Response::at(slot, RpcKeyedAccount {
        pubkey: Pubkey::new_from_array(k).to_string(),
        account: UiAccount { lamports: 1, data: UiAccountData::Bytes(d), owner: Pubkey::new_from_array(o).to_string(), executable: false, rent_epoch: 0, space: None },
    }))
}
fn subscribe(p: &Pubkey, f: Option<Vec<RpcFilterType>>) -> Result<fn() -> Option<Response<RpcKeyedAccount>>, ()> {
    env().subscriptions += 1;
    check_filters(p, f);
    if env().subscribe_ok { Ok(update) } else { Err(()) }
}
fn laser_update() -> Option<laser::Item> {
    use laser::grpc::*;
    env().updates += 1;
    let (k, o, d, slot) = (env().next)()?;
    Some(Ok(SubscribeUpdate {
        filters: vec![],
        update_oneof: Some(subscribe_update::UpdateOneof::Account(SubscribeUpdateAccount {
            account: Some(SubscribeUpdateAccountInfo { pubkey: k.to_vec(), owner: o.to_vec(), data: d, ..Default::default() }),
            slot,
            is_startup: false,
        })),
    }))
}
fn laser_subscribe(r: laser::grpc::SubscribeRequest) -> fn() -> Option<laser::Item> {
    use laser::grpc::*;
    env().subscriptions += 1;
    let program = Pubkey::new_from_array(vrf()).to_string();
    let mut all = false;
    for f in r.accounts.values() {
        let mut ok = f.owner.iter().any(|o| *o == program) && f.account.is_empty();
        for x in f.filters.iter() {
            ok &= match &x.filter {
                Some(subscribe_request_filter_accounts_filter::Filter::Memcmp(m)) => match &m.data {
                    Some(subscribe_request_filter_accounts_filter_memcmp::Data::Bytes(b)) => {
                        m.offset == 0 && b.len() <= 8 && b[..] == [3u8, 0, 0, 0, 0, 0, 0, 0][..b.len()]
                    }
                    _ => false,
                },
                _ => false,
            };
        }
        all |= ok;
    }
    sym::check(all, "filter-hides-queues");
    laser_update
}
/// Starts the service for the given identity; task 0 is its main loop.
pub fn nodes() {
    unsafe {
        solana_client::NODE = Some(Node { accounts, send, confirm, blockhash, subscribe });
        laser::NODE = Some(laser_subscribe);
    }
}
pub fn start(kp: [u8; 64], laser: bool) {
    nodes();
    let e = env();
    e.identity.copy_from_slice(&kp[32..]);
    e.keypair = kp;
    let opt = |s: &str| if laser { Some(s.to_string()) } else { None };
    let c = Arc::new(OracleClient::new(Keypair(kp), "rpc".to_string(), "ws".to_string(), opt("endpoint"), opt("key"), true));
    e.client = Some(Arc::clone(&c));
    rt::add(Box::pin(async move {
        // as the service's main function does
        loop {
            if c.clone().run().await.is_err() {
                tokio::time::sleep(std::time::Duration::from_secs(3)).await;
            }
        }
    }));
}
/// Runs the main task; what it waits for is run as well. Returns when the harness ends the path or nothing moves.
pub fn drive(steps: usize) {
    for _ in 0..steps {
        if !rt::alive(0) {
            sym::check(false, "service-stopped");
            return;
        }
        if rt::runnable(0) {
            rt::step(0);
            continue;
        }
        match rt::get().tasks[0].wait {
            rt::Wait::Join(t) if rt::runnable(t) => rt::step(t),
            rt::Wait::Until(t) => rt::get().now_ms = t,
            _ => {
                // whatever else may be holding it up
                let mut moved = false;
                for i in 1..rt::get().tasks.len() {
                    if rt::runnable(i) {
                        rt::step(i);
                        moved = true;
                    }
                }
                if !moved {
                    sym::check(false, "service-deadlocked");
                    return;
                }
            }
        }
    }
    sym::end();
}
/// Runs one task until it ends or stops for good; time passes when it sleeps. True if it ended.
pub fn finish(i: usize, max: usize) -> bool {
    for _ in 0..max {
        if !rt::alive(i) {
            return true;
        }
        if rt::runnable(i) {
            rt::step(i);
        } else if let rt::Wait::Until(t) = rt::get().tasks[i].wait {
            rt::get().now_ms = t;
        } else {
            return false;
        }
    }
    !rt::alive(i)
}
/// Where the key does not matter.
pub fn fixed_keypair() -> [u8; 64] {
    let mut k = [0x51u8; 64];
    k[..32].copy_from_slice(&[0x13; 32]);
    k
}
/// An oracle's keypair: secret half symbolic, identity fixed.
pub fn keypair() -> [u8; 64] {
    let mut k = [0x51u8; 64];
    k[..32].copy_from_slice(&sym::bytes::<32>("secret"));
    k
}
pub const ME: Key = [0x51; 32];
pub fn queue_bytes(img: &[u8]) -> Vec<u8> {
    cat(&[&[3, 0, 0, 0, 0, 0, 0, 0], img])
}

/// The clock of the process is the runtime's; hash tables are seeded alike in every run.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut i64) -> i32 {
    let ms = rt::get().now_ms;
    *t = 1_000_000 + (ms / 1000) as i64;
    *t.add(1) = (ms % 1000) as i64 * 1_000_000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _: u32) -> isize {
    core::ptr::write_bytes(p, 7, n);
    n as isize
}
