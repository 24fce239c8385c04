//! One run of the command-line tool, each command, against a chain holding the real program.
use crate::qmodel::*;
use crate::sym::{self, Key};
use crate::world::*;
use clap::say::{self, Item};
use solana_client::rpc_client::{Chain, CHAIN};
use solana_client::Account;
use solana_program::{hash::Hash, pubkey::Pubkey};
use solana_sdk::signature::Signature;
use solana_sdk::transaction::Transaction;

const ME: Key = [0x51; 32];
const OTHER: Key = [0x33; 32];
const MYKEY: &str = "my-key";
/// The key the tool has to use.
static mut SIGNER: Key = ME;
fn signer() -> Key {
    unsafe { SIGNER }
}
struct Run {
    accts: Vec<Acct>,
    command: &'static str,
    text: Vec<(&'static str, String)>,
    num: Vec<(&'static str, u64)>,
    sent: usize,
    accepted: bool,
    cpis: Vec<Cpi>,
    airdrops: usize,
    fails: bool, // the node loses the transaction
    before: Vec<Acct>,
    judge: fn(&Run, Option<bool>), // what main returned, None: the tool exited
    key: [u8; 64],
    queue: Key,
    own: Key,
}
static mut RUN: Option<Run> = None;
#[allow(static_mut_refs)]
fn run() -> &'static mut Run {
    unsafe { RUN.as_mut().unwrap() }
}
fn pk(k: &Key) -> Pubkey {
    Pubkey::new_from_array(*k)
}
fn hash() -> Hash {
    Hash::new_from_array([0x77; 32])
}
fn get(v: &[Acct], k: &Key) -> Acct {
    v.iter().find(|a| sym::eq(&a.key, k)).cloned().unwrap_or_else(|| Acct::new(*k, SYSTEM, 0, vec![]))
}
fn account(k: &Pubkey) -> Result<Account, ()> {
    let a = get(&run().accts, &k.to_bytes());
    if a.lamports == 0 && a.data.is_empty() {
        return Err(());
    }
    Ok(Account { lamports: a.lamports, data: a.data, owner: pk(&a.owner), executable: a.executable, rent_epoch: 0 })
}
/// The cluster: the transaction's instructions one after the other, all or none.
fn send(t: &Transaction) -> Result<Signature, ()> {
    let r = run();
    r.sent += 1;
    sym::check(t.payer.map(|p| sym::eq(&p.to_bytes(), &signer())).unwrap_or(false), "configured-key-pays");
    sym::check(t.signers.len() == 1 && sym::eq(&t.signers[0].to_bytes(), &signer()), "configured-key-signs-alone");
    sym::check(t.blockhash == hash(), "latest-blockhash");
    if r.fails {
        return Err(());
    }
    let mut now = r.accts.clone();
    for i in t.instructions.iter() {
        let p = i.program_id.to_bytes();
        if sym::eq(&p, &solana_compute_budget_interface::ID.to_bytes()) {
            continue;
        }
        sym::check(sym::eq(&p, &vrf()), "instruction-for-another-program");
        let mut a: Vec<Acct> = vec![];
        for m in i.accounts.iter() {
            let mut x = get(&now, &m.pubkey.to_bytes());
            x.signer = m.is_signer;
            x.writable = m.is_writable;
            a.push(x);
        }
        // an account named twice is one account
        let dup: Vec<Option<usize>> = (0..a.len()).map(|i| (0..i).find(|j| sym::eq(&a[*j].key, &a[i].key))).collect();
        for i in 0..a.len() {
            if let Some(j) = dup[i] {
                let (s, w) = (a[i].signer | a[j].signer, a[i].writable | a[j].writable);
                a[i].signer = s;
                a[i].writable = w;
                a[j].signer = s;
                a[j].writable = w;
            }
        }
        if exec(&mut a, &dup, &i.data).is_err() {
            return Err(());
        }
        for c in w().cpis.drain(..) {
            r.cpis.push(c);
        }
        for x in a {
            let x = Acct { signer: false, writable: false, ..x };
            match now.iter().position(|y| sym::eq(&y.key, &x.key)) {
                Some(i) => now[i] = x,
                None => now.push(x),
            }
        }
    }
    r.accts = now;
    r.accepted = true;
    Ok(Signature::default())
}
/// The tool's own exit ends the path.
#[no_mangle]
pub extern "C" fn exit(_: i32) -> ! {
    finish(None)
}
fn finish(ret: Option<bool>) -> ! {
    let r = run();
    sym::check(r.sent <= 1, "at-most-one-transaction");
    sym::check(ret != Some(true) || r.accepted, "success-only-if-confirmed");
    sym::check(ret != Some(false) || !r.accepted, "failure-reported-though-done");
    if r.fails && r.sent > 0 {
        sym::check(ret == Some(false), "lost-transaction-is-an-error");
        sym::cover("lost");
        sym::end();
    }
    (r.judge)(r, ret);
    sym::end()
}
static mut KEYPAIR: &str = "--keypair";
fn start(command: &'static str, accts: Vec<Acct>, mut text: Vec<(&'static str, String)>, num: Vec<(&'static str, u64)>, own: Key, queue: Key, judge: fn(&Run, Option<bool>)) -> ! {
    let mut key = [0x51u8; 64];
    key[..32].copy_from_slice(&sym::bytes::<32>("secret"));
    unsafe {
        if signer() == ME {
            text.push((KEYPAIR, MYKEY.to_string()));
        }
        solana_sdk::signature::NAMED = vec![(MYKEY, key)];
        CHAIN = Some(Chain {
            blockhash: || Ok(hash()),
            account,
            airdrop: |_, _| {
                run().airdrops += 1;
                Ok(Signature::default())
            },
            send,
        });
        clap::SOURCE = clap::Source {
            text: |o| o.among(&run().text).map(|x| x.1.clone()),
            num: |o| o.among(&run().num).map(|x| x.1),
            missing: || {
                sym::check(false, "option-not-read");
                sym::end()
            },
            command: |names| match names.iter().position(|n| *n == run().command) {
                Some(i) => i,
                None => {
                    sym::check(false, "command-missing");
                    sym::end()
                }
            },
        };
        RUN = Some(Run { before: accts.clone(), accts, command, text, num, sent: 0, accepted: false, cpis: vec![], airdrops: 0, fails: sym::choose(2, "node") == 1, judge, key, queue, own });
    }
    w().strict = true;
    let f = crate::cli::main();
    let id = tokio::rt::add(Box::pin(async move {
        let r = f.await;
        finish(Some(r.is_ok()))
    }));
    for _ in 0..10 {
        tokio::rt::step(id);
    }
    sym::check(false, "tool-hangs");
    sym::end()
}
fn wallet() -> Acct {
    Acct::new(signer(), SYSTEM, 1 << 50, vec![])
}
fn programs() -> Vec<Acct> {
    let mut v = vec![wallet(), Acct { executable: true, ..Acct::new(SYSTEM, [8; 32], 1, vec![]) }, Acct::new(slot_hashes(), sysvar_owner(), 1, vec![0; 20488])];
    for k in [dlp(), magic(), vrf()] {
        v.push(Acct { executable: true, ..Acct::new(k, [9u8; 32], 1, vec![]) });
    }
    v.push(Acct::new(magic_context(), SYSTEM, 1, vec![]));
    let loader = solana_program::pubkey!("BPFLoaderUpgradeab1e11111111111111111111111").to_bytes();
    let pd = pda(&[&vrf()], &loader).0;
    v.push(Acct::new(pd, loader, 1, cat(&[&[3, 0, 0, 0], &[7; 8], &[1], &signer(), &[0; 3]])));
    w().slot = sym::u64("slot");
    sym::assume(w().slot > 1000 && w().slot < 1 << 60);
    v
}
fn dlp() -> Key {
    solana_program::pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh").to_bytes()
}
fn magic() -> Key {
    solana_program::pubkey!("Magic11111111111111111111111111111111111111").to_bytes()
}
fn magic_context() -> Key {
    solana_program::pubkey!("MagicContext1111111111111111111111111111111").to_bytes()
}
fn registry(ids: &[Key]) -> Acct {
    let mut d = cat(&[&[0u8; 8], &(ids.len() as u32).to_le_bytes()]);
    for i in ids {
        d.extend_from_slice(i);
    }
    Acct::new(oracles_pda(), vrf(), rent_min(d.len()), d)
}
fn oracle(id: &Key, key: &Key, open: u64) -> Acct {
    Acct::new(oracle_pda(id), vrf(), rent_min(56), cat(&[&[1, 0, 0, 0, 0, 0, 0, 0], key, &[0; 8], &open.to_le_bytes()]))
}
fn queue(id: &Key, index: u8, n: usize, spare: usize) -> Acct {
    let mut rs = vec![];
    for _ in 0..n {
        let mut r = Rec::sym(true, (8, 1, 3), "stored");
        r.used = sym::choose(2, "live") == 1;
        rs.push(r);
    }
    let d = cat(&[&[3, 0, 0, 0, 0, 0, 0, 0], &image(&rs, index, true, spare)]);
    Acct::new(queue_pda(id, index), vrf(), 1 << 40, d)
}
fn text(k: &Key) -> String {
    let mut n = *k;
    let mut o = vec![];
    for _ in 0..44 {
        let mut r = 0u32;
        for b in n.iter_mut() {
            r = r << 8 | *b as u32;
            *b = (r / 58) as u8;
            r %= 58;
        }
        o.push(b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[r as usize]);
    }
    while o.last() == Some(&b'1') {
        o.pop();
    }
    o.reverse();
    String::from_utf8(o).unwrap()
}

#[no_mangle]
pub extern "C" fn h_cli_initialize() {
    start("Initialize", programs(), vec![], vec![], ME, [0; 32], |r, ret| {
        sym::check(ret == Some(true), "initialize-fails");
        let a = get(&r.accts, &oracles_pda());
        sym::check(sym::eq(&a.owner, &vrf()) && sym::eq(&a.data, &[0; 12]), "registry-initialized");
        sym::cover("done");
    })
}
fn registered(r: &Run, id: &Key) -> bool {
    get(&r.accts, &oracles_pda()).data[12..].chunks(32).any(|k| sym::eq(k, id))
}
const KEY: Key = [0x79; 32];
#[no_mangle]
pub extern "C" fn h_cli_add_oracle() {
    let mut a = programs();
    a.push(registry(&[[0x21; 32]][..sym::choose(2, "others")]));
    let id = sym::pick(&[OTHER, ME], "identity");
    start("AddOracle", a, vec![("--identity", text(&id)), ("--oracle-pubkey", text(&KEY))], vec![], id, [0; 32], |r, ret| {
        sym::check(ret == Some(true), "add-oracle-fails");
        sym::check(registered(r, &r.own), "oracle-registered");
        let o = get(&r.accts, &oracle_pda(&r.own));
        sym::check(o.data.len() == 56 && sym::eq(&o.data[8..40], &KEY), "with-the-given-key");
        sym::cover("done");
    })
}
#[no_mangle]
pub extern "C" fn h_cli_remove_oracle() {
    let mut a = programs();
    let id = sym::pick(&[OTHER, ME], "identity");
    let more: Key = [0x21; 32];
    a.push(registry(&[more, id]));
    a.push(oracle(&id, &KEY, 0));
    a.push(oracle(&more, &KEY, 0));
    start("RemoveOracle", a, vec![("--identity", text(&id))], vec![], id, [0; 32], |r, ret| {
        sym::check(ret == Some(true), "remove-oracle-fails");
        sym::check(!registered(r, &r.own) && registered(r, &[0x21; 32]), "the-named-oracle-removed");
        sym::check(get(&r.accts, &oracle_pda(&r.own)).lamports == 0, "its-record-closed");
        sym::cover("done");
    })
}
fn init(index: &[u8]) -> ! {
    let mut a = programs();
    let index = sym::pick(index, "index");
    let size = sym::pick(&[None, Some(24u64), Some(10241), Some(20480)], "size");
    a.push(registry(&[ME]));
    a.push(oracle(&ME, &KEY, 2));
    let mut num = vec![("--index", index as u64)];
    num.extend(size.map(|s| ("--bytes-to-allocate", s)));
    start("InitializeOracleQueue", a, vec![("--identity", text(&ME))], num, ME, queue_pda(&ME, index), |r, ret| {
        sym::check(ret == Some(true), "initialize-queue-fails");
        let q = get(&r.accts, &r.queue);
        let want = r.num.get(1).map(|n| n.1).unwrap_or(9500) as usize;
        sym::check(sym::eq(&q.owner, &vrf()) && q.data.len() == want && q.data[0] == 3 && q.data[16] == r.num[0].1 as u8, "queue-of-that-index-and-size");
        sym::check(le(&get(&r.accts, &oracle_pda(&ME)).data[48..56]) == 3, "queue-counted-once");
        sym::cover("done");
    })
}
#[no_mangle]
pub extern "C" fn h_cli_init_queue() {
    init(&[0, 7, 255])
}
#[no_mangle]
pub extern "C" fn h_cli_init_queue_all() {
    let all: Vec<u8> = (0..=255).collect();
    init(&all)
}
/// The queue named on the command line: the tool's own one, or another oracle's, or something else.
fn named(command: &'static str, judge: fn(&Run, Option<bool>)) -> ! {
    let mut a = programs();
    let index = sym::pick(&[0u8, 7, 255], "index");
    let own = queue_pda(&ME, index);
    let mut q = own;
    a.push(registry(&[ME, OTHER]));
    a.push(oracle(&ME, &KEY, 2));
    a.push(oracle(&OTHER, &KEY, 2));
    let mine = queue(&ME, index, 1, 0);
    let theirs = queue(&OTHER, index, 0, 0);
    match sym::choose(4, "which") {
        0 => sym::cover("own"),
        1 => {
            q = queue_pda(&OTHER, index);
            sym::cover("others");
        }
        2 => {
            q = [0x44; 32];
            a.push(Acct { key: q, owner: [0x45; 32], ..mine.clone() });
            sym::cover("look-alike");
        }
        _ => {
            q = [0x44; 32];
            sym::cover("nothing-there");
        }
    }
    a.push(mine);
    a.push(theirs);
    start(command, a, vec![("--queue", text(&q))], vec![], own, q, judge)
}
fn untouched(r: &Run, k: &Key) -> bool {
    get(&r.accts, k).same(&get(&r.before, k))
}
/// Queues that were not named stay as they are.
fn only_the_named(r: &Run) {
    for k in [r.own, queue_pda(&OTHER, r.before.iter().find(|a| sym::eq(&a.key, &r.own)).unwrap().data[16])] {
        if !sym::eq(&k, &r.queue) {
            sym::check(untouched(r, &k), "a-queue-that-was-not-named-changes");
            for c in r.cpis.iter() {
                for m in c.metas.iter() {
                    sym::check(!sym::eq(&m.0, &k), "a-queue-that-was-not-named-is-passed-on");
                }
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn h_cli_close() {
    named("CloseOracleQueue", |r, ret| {
        only_the_named(r);
        if sym::eq(&r.own, &r.queue) {
            if le(&get(&r.before, &r.queue).data[8..12]) != 0 {
                sym::check(ret == Some(false) && untouched(r, &r.queue), "closed-with-pending-requests");
                sym::cover("pending");
                return;
            }
            sym::check(ret == Some(true), "close-fails");
            let q = get(&r.accts, &r.queue);
            sym::check(q.lamports == 0 && q.data.is_empty(), "queue-closed");
            sym::cover("closed");
        }
    })
}
#[no_mangle]
pub extern "C" fn h_cli_delegate() {
    named("DelegateOracleQueue", |r, ret| {
        only_the_named(r);
        if sym::eq(&r.own, &r.queue) {
            sym::check(ret == Some(true), "delegate-fails");
            sym::check(r.cpis.iter().any(|c| sym::eq(&c.program, &dlp()) && c.metas.len() > 1 && sym::eq(&c.metas[1].0, &r.queue)), "queue-delegated");
            sym::cover("delegated");
        }
    })
}
#[no_mangle]
pub extern "C" fn h_cli_undelegate() {
    named("UndelegateOracleQueue", |r, ret| {
        only_the_named(r);
        if sym::eq(&r.own, &r.queue) {
            sym::check(ret == Some(true), "undelegate-fails");
            sym::check(r.cpis.iter().any(|c| sym::eq(&c.program, &magic()) && c.metas.iter().any(|m| sym::eq(&m.0, &r.queue))), "undelegation-requested");
            sym::cover("undelegated");
        }
    })
}
/// The printed key is the one whose secret half the oracle service derives from the same keypair.
#[no_mangle]
pub extern "C" fn h_cli_derive() {
    start("DerivePubkey", programs(), vec![], vec![], ME, [0; 32], |r, ret| {
        sym::check(r.sent == 0, "sends-nothing");
        sym::check(ret != Some(false), "derive-fails");
        let sk = ephemeral_vrf::vrf::generate_vrf_keypair(&solana_sdk::signature::Keypair(r.key)).0;
        let want = toy::mul(&sk.to_bytes(), &toy::base());
        let mut all = false;
        let mut other = false;
        for l in say::lines().iter() {
            for i in l.iter() {
                if let Item::Key(k) = i {
                    all |= sym::eq(k, &want);
                    other |= !sym::eq(k, &want) & !sym::eq(k, &ME);
                }
            }
        }
        sym::check(all, "derived-key-printed");
        sym::check(!other, "another-key-printed");
        sym::cover("printed");
    })
}
/// Every queue of the signer below index 20 appears with its content; what cannot be read hides nothing else.
#[no_mangle]
pub extern "C" fn h_cli_list() {
    let mut a = programs();
    let i = sym::choose(20, "index") as u8;
    let j = sym::pick(&[0u8, 5, 19], "other");
    let delegated = sym::choose(2, "delegated") == 1;
    let mut q = queue(&ME, i, 0, 0);
    q.data[8..12].copy_from_slice(&sym::bytes::<4>("items"));
    if delegated {
        q.owner = dlp();
    }
    let key = q.key;
    a.push(q);
    if j != i && sym::choose(2, "unreadable") == 1 {
        let mut x = queue(&ME, j, 0, 0);
        x.data.truncate(sym::pick(&[0usize, 8, 23], "length"));
        a.push(x);
        sym::cover("unreadable");
    }
    start("ListQueue", a, vec![], vec![("--index", i as u64)], key, key, |r, ret| {
        sym::check(r.sent == 0, "sends-nothing");
        sym::check(ret != Some(false), "list-fails");
        let q = get(&r.accts, &r.queue);
        let (n, i) = (le(&q.data[8..12]), r.num[0].1);
        let mut found = 0;
        for l in say::lines().iter() {
            if !l.iter().any(|x| matches!(x, Item::Key(k) if sym::eq(k, &r.queue))) {
                continue;
            }
            found += 1;
            let nums: Vec<u64> = l.iter().filter_map(|x| if let Item::Num(n) = x { Some(*n) } else { None }).collect();
            let flags: Vec<bool> = l.iter().filter_map(|x| if let Item::Bool(n) = x { Some(*n) } else { None }).collect();
            let mut ok = nums.len() == 2 && flags.len() == 1;
            if ok {
                ok = ((nums[0] == n) & (nums[1] == i)) | ((nums[0] == i) & (nums[1] == n));
                ok &= flags[0] == sym::eq(&q.owner, &dlp());
            }
            sym::check(ok, "listed-with-its-content");
        }
        sym::check(found == 1, "listed-once");
        sym::cover("listed");
    })
}
/// A queue of a higher index is listed as well.
#[no_mangle]
pub extern "C" fn h_cli_list_high() {
    let mut a = programs();
    let i = 20 + sym::choose(236, "index") as u8;
    let q = queue(&ME, i, 0, 0);
    let key = q.key;
    a.push(q);
    start("ListQueue", a, vec![], vec![], key, key, |r, _| {
        let shown = say::lines().iter().any(|l| l.iter().any(|x| matches!(x, Item::Key(k) if sym::eq(k, &r.queue))));
        sym::check(shown, "higher-index-not-listed");
        sym::cover("looked");
    })
}
/// A registry that is there already is not emptied.
#[no_mangle]
pub extern "C" fn h_cli_initialize_twice() {
    let mut a = programs();
    a.push(registry(&[OTHER]));
    start("Initialize", a, vec![], vec![], ME, [0; 32], |r, _| {
        sym::check(registered(r, &OTHER), "registry-kept");
        sym::cover("done");
    })
}
/// The configured node and keypair are used, or the documented local node and default identity.
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn h_cli_config() {
    if sym::choose(2, "keypair") == 0 {
        let k = solana_sdk::signature::Keypair::from_base58_string("D4fURjsRpMj1vzfXqHgL94UeJyXR8DFyfyBDmbY647PnpuDzszvbRocMQu6Tzr1LUzBTQvXjarCxeb94kSTqvYx");
        unsafe { SIGNER.copy_from_slice(&k.0[32..]) };
        sym::cover("default-key");
    }
    let way = sym::choose(3, "way");
    unsafe { KEYPAIR = ["--keypair", "-k", "$KEYPAIR_BASE58"][way] };
    let mut t = vec![];
    if sym::choose(2, "rpc") == 1 {
        t.push((["--rpc-url", "-r", "$RPC_URL"][way], "http://rpc.example".to_string()));
    }
    start("Initialize", programs(), t, vec![], ME, [0; 32], |r, ret| {
        sym::check(ret == Some(true), "initialize-fails");
        let want = r.text.iter().find(|x| x.1.starts_with("http")).map(|x| x.1.as_str()).unwrap_or("http://localhost:8899");
        let urls = unsafe { &solana_client::URLS };
        sym::check(!urls.is_empty() && urls.iter().all(|u| u.1 == want), "configured-rpc-node");
        sym::cover("done");
    })
}
