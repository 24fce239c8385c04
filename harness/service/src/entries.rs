//! The service as its main function runs it: configuration, restarts, and the statistics it hands out.
use crate::env::*;
use crate::qmodel::*;
use crate::sym::{self, Key};
use crate::world::*;
use hyper::{Body, Request, Response};

const ME: Key = [0x51; 32];
const MYKEY: &str = "my-key";
struct Scene {
    queue: Key,
    data: Vec<u8>,
    live: Vec<Rec>,
    all: Vec<Rec>,
    step: usize,
    max: usize,
    fails: usize,
    log: Vec<u64>,
    seen: bool,
    got: Vec<(bool, Option<(u16, Vec<u8>)>)>, // asked for the statistics?, the answer
    opts: Vec<(&'static str, String)>,
    nums: Vec<(&'static str, u64)>,
}
static mut SC: Scene = Scene { queue: [0; 32], data: vec![], live: vec![], all: vec![], step: 0, max: 0, fails: 0, log: vec![], seen: false, got: vec![], opts: vec![], nums: vec![] };
#[allow(static_mut_refs)]
fn sc() -> &'static mut Scene {
    unsafe { &mut SC }
}
fn plain(id: u8, slot: u64) -> Rec {
    let mut r = Rec::sym(true, (0, 0, 0), "req");
    r.id = [id; 32];
    r.slot = slot;
    sym::assume(!sym::eq(&r.prog, &SYSTEM));
    r
}
fn put(recs: &[Rec]) {
    let s = sc();
    s.queue = queue_pda(&env().identity, 0);
    s.live = live(recs);
    s.data = queue_bytes(&image(recs, 0, true, 40));
    env().snapshot = Some(vec![(s.queue, vrf(), s.data.clone())]);
}
fn deliver() -> Option<(Key, Key, Vec<u8>, u64)> {
    Some((sc().queue, vrf(), sc().data.clone(), env().slot))
}
fn settle() {
    for _ in 0..400 {
        let mut moved = false;
        for i in 1..rt::get().tasks.len() {
            if rt::runnable(i) && !env().frozen.contains(&i) {
                rt::step(i);
                moved = true;
            }
        }
        if !moved {
            return;
        }
    }
    sym::check(false, "tasks-do-not-settle");
}
/// main, as task 0, with this configuration.
fn launch(kp: [u8; 64]) {
    nodes();
    let e = env();
    e.identity.copy_from_slice(&kp[32..]);
    e.keypair = kp;
    unsafe {
        solana_sdk::signature::NAMED = vec![(MYKEY, kp)];
        hyper::PARKED = || rt::wait(rt::Wait::Never);
        clap::SOURCE = clap::Source {
            text: |o| o.among(&sc().opts).map(|x| x.1.clone()),
            num: |o| o.among(&sc().nums).map(|x| x.1),
            command: |_| 0,
            missing: || {
                sym::check(false, "option-not-read");
                sym::end()
            },
        };
    }
    let f = crate::main();
    rt::add(Box::pin(async move {
        let _ = f.await;
    }));
}
/// Where the key does not matter.
fn fixed() -> [u8; 64] {
    let mut k = [0x51u8; 64];
    k[..32].copy_from_slice(&[0x13; 32]);
    k
}
fn mine() -> [u8; 64] {
    let mut k = [0x51u8; 64];
    k[..32].copy_from_slice(&sym::bytes::<32>("secret"));
    k
}
#[allow(static_mut_refs)]
fn servers() -> &'static mut Vec<hyper::Running> {
    unsafe { &mut hyper::SERVER }
}
/// A client connects and asks; the answer is recorded when it comes. Returns the task.
fn ask(method: &str, path: &str) -> usize {
    let is_stats = method == "GET" && path == "/stats";
    let req = Request::builder().method(method).uri(path).body(Body::empty()).unwrap();
    let c = (servers()[0].accept)();
    sc().got.push((is_stats, None));
    let n = sc().got.len() - 1;
    rt::add(Box::pin(async move {
        let Ok(mut s) = c.await else { return };
        let a: Result<Response<Body>, ()> = s(req).await;
        if let Ok(r) = a {
            sc().got[n].1 = Some((r.status().as_u16(), r.into_body().0));
        }
    }))
}
/// Every question has been answered, the statistics with these numbers.
fn judge_answers(len: &[usize], avg: &[Option<f64>]) {
    let q = solana_program::pubkey::Pubkey::new_from_array(sc().queue).to_string();
    for (is_stats, a) in sc().got.iter() {
        sym::check(a.is_some(), "question-unanswered");
        let Some((code, body)) = a else { continue };
        if !is_stats {
            sym::check(*code == 404, "unknown-path-not-refused");
            sym::cover("refused");
            continue;
        }
        sym::check(*code == 200, "statistics-refused");
        let v: Option<serde_json::Value> = serde_json::from_slice(body).ok();
        sym::check(v.is_some(), "statistics-are-json");
        let Some(v) = v else { continue };
        let (n, m) = (&v["queues"], &v["avg_response_slots"]);
        sym::check(n.is_object() && m.is_object(), "statistics-have-both-tables");
        let got = n[&q].as_u64();
        sym::check(len.iter().any(|l| got == Some(*l as u64)), "shown-queue-length");
        sym::check(n.as_object().map(|o| o.len()) == Some(1), "shown-queues");
        let got = m[&q].as_f64();
        sym::check(
            avg.iter().any(|w| match w {
                None => got.unwrap_or(0.0) == 0.0,
                Some(w) => (got.unwrap_or(-1e9) - w).abs() < 0.01,
            }),
            "shown-average-latency",
        );
        if got.is_some() {
            sym::cover("latency-shown");
        }
        sym::cover("shown");
    }
    sc().got.clear();
}
fn mean() -> Option<f64> {
    let l = &sc().log;
    if l.is_empty() { None } else { Some(l.iter().sum::<u64>() as f64 / l.len() as f64) }
}
fn subset(t: &str) -> Vec<Rec> {
    let k = sym::choose(1 << sc().all.len(), t);
    sc().all.iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|(_, r)| r.clone()).collect()
}
/// The next content; those of the requests taken up that are gone enter the average.
fn advance() {
    sc().step += 1;
    env().slot = 110 + 7 * sc().step as u64;
    let old = sc().live.clone();
    let new = subset("update");
    put(&new);
    for r in old {
        if !sc().live.iter().any(|x| x.id == r.id) {
            sc().log.push(env().slot - r.slot);
        }
    }
}
/// After every update, anyone who asks gets the statistics as of that update, and nothing else.
fn stats(ids: usize, updates: usize) {
    for i in 0..ids {
        sc().all.push(plain(0xA0 + i as u8, 100 + i as u64));
    }
    env().slot = 110;
    let k = fixed();
    env().identity = ME;
    let first = subset("first");
    put(&first);
    sc().max = updates;
    sc().opts = vec![("--identity", MYKEY.to_string())];
    sc().nums = vec![("--http-port", 8080)];
    env().next = || {
        settle();
        sym::check(servers().len() == 1, "no-server");
        if servers().len() != 1 {
            sym::end();
        }
        let (m, p) = [("GET", "/stats"), ("GET", "/"), ("POST", "/stats"), ("GET", "/statsx"), ("GET", "/stats/x")][if sc().step == sc().max { 0 } else { sym::choose(5, "question") }];
        ask(m, p);
        settle();
        judge_answers(&[sc().live.len()], &[mean()]);
        if sc().step == sc().max {
            sym::end();
        }
        advance();
        deliver()
    };
    launch(k);
    drive(400);
}
#[no_mangle]
pub extern "C" fn h_service_stats() {
    stats(2, 2);
}
#[no_mangle]
pub extern "C" fn h_service_stats_deep() {
    stats(2, 3);
}
/// A question while an update is being processed, interleaved in every way at the shared tables: it is answered, with the
/// numbers from before or after, and neither holds up the other.
#[no_mangle]
pub extern "C" fn h_service_stats_race() {
    sc().all.push(plain(0xA0, 100));
    env().slot = 110;
    let k = fixed();
    env().identity = ME;
    let first = subset("first");
    put(&first);
    sc().opts = vec![("--identity", MYKEY.to_string())];
    sc().nums = vec![("--http-port", 8080)];
    env().next = || {
        if !sc().seen {
            settle();
            sc().seen = true;
            sc().max = sc().live.len();
            advance();
            rt::get().preempt = true;
            ask("GET", "/stats");
            return deliver();
        }
        rt::get().preempt = false;
        settle();
        judge_answers(&[sc().max, sc().live.len()], &[None, mean()]);
        ask("GET", "/stats");
        settle();
        judge_answers(&[sc().live.len()], &[mean()]);
        sym::cover("both-done");
        sym::end()
    };
    launch(k);
    schedule();
    sym::check(false, "service-deadlocked");
}
fn schedule() {
    loop {
        let c: Vec<usize> = (0..rt::get().tasks.len()).filter(|i| rt::runnable(*i)).collect();
        if c.is_empty() {
            return;
        }
        let i = if !rt::get().preempt { c[0] } else { c[sym::choose(c.len(), "next")] };
        rt::step(i);
        while rt::alive(i) && rt::runnable(i) && rt::get().tasks[i].wait == rt::Wait::Call {
            rt::step(i);
        }
    }
}
/// The service's own loop: failing looks end run(), which is started again; the request is answered, the server goes on.
#[no_mangle]
pub extern "C" fn h_service_restart() {
    env().slot = 110;
    let k = fixed();
    env().identity = ME;
    put(&[plain(0xA0, 100)]);
    sc().fails = sym::choose(4, "failing-looks");
    sc().opts = vec![("--identity", MYKEY.to_string())];
    sc().nums = vec![("--http-port", 8080)];
    if sc().fails > 0 {
        env().snapshot = None;
    }
    // or it is not up yet when the service starts
    let down = sym::choose(3, "node-down");
    env().refuse = down;
    env().next = || {
        settle();
        if env().refused > 0 {
            sym::cover("down-at-first");
        }
        sym::check(sc().fails as u64 + 1 <= env().fetches, "answers-without-looking");
        sym::check(env().sent.len() == 1, "pending-request-forgotten");
        sym::check(servers().len() == 1, "no-server");
        ask("GET", "/stats");
        settle();
        judge_answers(&[1], &[None]);
        sym::cover("answered");
        sym::end()
    };
    launch(k);
    for _ in 0..400 {
        if !rt::alive(0) {
            sym::check(false, "service-stopped");
            sym::end();
        }
        if env().fetches as usize >= sc().fails && env().snapshot.is_none() {
            sym::check(rt::get().now_ms <= 60_000 * (sc().fails + env().refused) as u64, "tries-again-within-a-minute");
            put(&[plain(0xA0, 100)]);
            sym::cover("failed-before");
        }
        if rt::runnable(0) {
            rt::step(0);
        } else {
            let mut moved = false;
            for i in 1..rt::get().tasks.len() {
                if rt::runnable(i) {
                    rt::step(i);
                    moved = true;
                }
            }
            if !moved {
                let mut t = u64::MAX;
                for x in rt::get().tasks.iter() {
                    if let (rt::Wait::Until(u), false) = (x.wait, x.done) {
                        t = t.min(u);
                    }
                }
                if t == u64::MAX {
                    sym::check(false, "service-deadlocked");
                    sym::end();
                }
                rt::get().now_ms = t;
            }
        }
    }
    sym::check(false, "pending-request-forgotten");
}
/// The option of this index, if it is given: on the command line or in the environment.
const NAMES: [[&str; 2]; 7] = [
    ["--identity", "$VRF_ORACLE_IDENTITY"],
    ["--rpc-url", "$RPC_URL"],
    ["--websocket-url", "$WEBSOCKET_URL"],
    ["--laserstream-endpoint", "$LASERSTREAM_ENDPOINT"],
    ["--laserstream-api-key", "$LASERSTREAM_API_KEY"],
    ["--http-port", "$VRF_ORACLE_HTTP_PORT"],
    ["--skip-preflight", "$VRF_ORACLE_SKIP_PREFLIGHT"],
];
const CHOICES: [&str; 7] = ["identity", "rpc", "websocket", "endpoint", "api-key", "http", "preflight"];
fn given(i: usize, way: usize) -> bool {
    if sym::choose(2, CHOICES[i]) == 0 {
        return false;
    }
    let name = NAMES[i][way];
    let values = [MYKEY, "http://rpc.example", "ws://ws.example", "https://laser.example", "key-of-laser"];
    match i {
        5 => sc().nums.push((name, u16::from_le_bytes(sym::bytes("port")) as u64)),
        // as a flag it can only be set; the environment can also clear it
        6 => sc().nums.push((name, if way == 0 { 1 } else { 0 })),
        _ => sc().opts.push((name, values[i].to_string())),
    }
    true
}
/// Whatever is configured is what the service uses.
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn h_service_config() {
    env().slot = sym::u64("node-slot");
    sym::assume((env().slot > 300) & (env().slot < 1 << 60));
    let way = sym::choose(2, "way");
    let kp = if given(0, way) { [0x51; 64] } else { solana_sdk::signature::Keypair::from_base58_string(crate::DEFAULT_IDENTITY).0 };
    env().identity.copy_from_slice(&kp[32..]);
    // one to answer, one to purge
    put(&[plain(0xA0, sym::u64("slot")), plain(0xA1, sym::u64("slot"))]);
    sym::assume((sc().live[0].slot < env().slot) & (sc().live[0].slot >= env().slot - 240) & (sc().live[1].slot < env().slot - 240));
    for i in 1..7 {
        given(i, way);
    }
    env().next = || {
        settle();
        let get = |i: usize| sc().opts.iter().find(|x| NAMES[i].contains(&x.0)).map(|x| x.1.as_str());
        let num = |i: usize| sc().nums.iter().find(|x| NAMES[i].contains(&x.0)).map(|x| x.1);
        let e = env();
        sym::check(e.sent.len() == 2, "pending-request-forgotten");
        sym::check(e.sent.iter().all(|s| s.skipped == (num(6) != Some(0))), "preflight-as-configured");
        let urls = unsafe { &solana_client::URLS };
        let rpc = get(1).unwrap_or("http://localhost:8899");
        sym::check(urls.iter().any(|u| u.0 == "rpc") && urls.iter().all(|u| u.0 != "rpc" || u.1 == rpc), "configured-rpc-node");
        let ws = get(2).unwrap_or("ws://localhost:8900");
        let asked = unsafe { &helius_laserstream::ASKED };
        if let (Some(p), Some(k)) = (get(3), get(4)) {
            sym::check(asked.len() == 1 && asked[0].0 == p && asked[0].1 == k, "configured-stream");
            sym::check(urls.iter().all(|u| u.0 != "ws"), "one-source");
            sym::cover("stream");
        } else {
            sym::check(asked.is_empty(), "stream-though-not-configured");
            sym::check(urls.iter().filter(|u| u.0 == "ws").count() == 1 && urls.iter().all(|u| u.0 != "ws" || u.1 == ws), "configured-websocket");
            sym::cover("websocket");
        }
        match num(5) {
            Some(p) => {
                sym::check(servers().len() == 1 && servers()[0].addr.port() == p as u16, "server-at-the-configured-port");
                sym::cover("server");
            }
            None => {
                sym::check(servers().is_empty(), "server-though-not-configured");
                sym::cover("no-server");
            }
        }
        sym::end()
    };
    launch(kp);
    drive(60);
}
