"""Which harness entries decide which property, within which bounds."""
LEVEL = "model_checking"
SOLVER = "z3 (libz3, QF_BV, one incremental process per entry), behind the engine's own simplifier"


class E:
    """One harness entry. ids: the assertions of the entry that belong to the property (None: all; a trailing * is a prefix)."""

    def __init__(self, name, covers, bounds, ids=None, crate="prog", tier="quick", cost=10, timeout=None, samples=12, query_ms=60000, parts=None):
        self.name, self.covers, self.bounds, self.ids, self.crate, self.tier, self.cost = name, covers, bounds, ids, crate, tier, cost
        self.timeout = timeout or max(180, cost * 8)
        self.samples, self.query_ms = samples, query_ms
        self.label = name + ("" if crate in ("prog", "vrf", "oracle") else "@" + crate)
        self.parts = parts or (1 if cost <= 20 else 4 if cost <= 60 else 8)

    def owns(self, i):
        if self.ids is None or i.split(":")[0] in ("unexpected-panic", "memory-fault", "reached-unreachable", "write to constant memory"):
            return True
        if any(x.startswith("!") for x in self.ids):
            return not any(i == x[1:] or (x.endswith("*") and i.startswith(x[1:-1])) for x in self.ids)
        return any(i == x or (x.endswith("*") and i.startswith(x[:-1])) for x in self.ids)


class C:
    def __init__(self, entries, bounds, outside, assumptions=(), family="prog"):
        self.entries, self.bounds, self.outside, self.assumptions, self.family = entries, bounds, outside, list(assumptions), family


COMMON_ASSUMPTIONS = {
    "prog": [
        "the program is compiled by the host rustc with --cfg target_os=\"solana\" (64-bit little endian, fat LTO), not by the SBF compiler",
        "harness/prog/src/world.rs stands in for the Solana runtime: serialized accounts, rent 3480*2 per byte, system program create/assign/transfer/allocate, CPI privilege rules, sysvar clock; compute and heap limits are not modelled",
        "sha256 and program-address derivation are uninterpreted functions that never collide; the bump search, on-curve test and scalar reduction are arbitrary functions of their input",
        "accounts in one transaction have distinct addresses unless the entry says otherwise; lamport balances are below 2^58",
    ],
    "client": ["the client code is compiled by the host rustc (64-bit little endian, fat LTO)", "text formatting of addresses is not executed"],
    "vrf": [
        "curve25519-dalek (ristretto, scalars), hkdf, sha2 and solana-sdk keys are replaced by stand-ins (harness/models): the group is the module (Z/256)^31 x Z/16 over the scalars, one component per encoding byte, so the algebra is checked but no cryptographic hardness is; the program's curve system calls use the same group",
        "sha256 and HKDF are uninterpreted functions that never collide; reduction modulo the group order is an arbitrary function of its input",
        "the code is compiled by the host rustc (64-bit little endian, fat LTO), the program's verifier with --cfg target_os=\"solana\"",
    ],
    "oracle": [
        "the service's modules are compiled by the host rustc as a library next to the real program (64-bit little endian, fat LTO); in the entries of harness/oracle main.rs's restart loop is restated (those of harness/service run main.rs itself, with stand-ins for hyper's sockets and wire format, clap and the decimal text of floats), logging is compiled out, panics abort",
        "tokio, solana-client, solana-sdk, laserstream, crossbeam-channel, anyhow and the account decoder are replaced by stand-ins (harness/models): a cooperative single-threaded scheduler whose choices are the solver's, a node whose answers are the solver's, a virtual clock",
        "the VRF's group and hash are the stand-ins of C24..C27, the chain is the stand-in runtime of C01..C16",
        "request ids, the oracle's identity, queue addresses and blockhashes are fixed values, since the service writes them out as text",
    ],
    "cli": [
        "the tool's main.rs is compiled by the host rustc as a library next to the real program (64-bit little endian, fat LTO); a panic aborts",
        "clap, tokio, solana-client, solana-sdk, anyhow and println are replaced by stand-ins (harness/models): the harness supplies the options' values, is the node, and sees what is printed as a list of values",
        "the chain is the stand-in runtime of C01..C16; addresses on the command line are fixed values, the keypair's secret half, slots and queue contents are symbolic",
    ],
    "queue": ["the queue code is compiled by the host rustc (64-bit little endian, fat LTO)"],
}

CHECKS = {}
SH = "request shapes (discriminator, accounts, argument bytes) "

MANY = "%d stored requests in 4 shapes, live or removed in 3 patterns, sharing one symbolic program, two slots and two priorities; other contents fixed"
CHECKS["C01"] = C(
    [E("h_queue_add", ["added", "full"], "0..3 stored requests, each live or removed, shapes (8,1,11) (8,0,0) (4,2,3) (0,0,0), all contents symbolic; 0, 96, and one less, exactly and 7 more than the new record's size spare bytes (arbitrary content); 2 cursor alignments; one append", cost=70, samples=20),
     E("h_queue_limits", ["added", "rejected"], "0..1 stored requests, new request of 14 shapes up to (8,20,512)", ids=["after/*", "legal-rejected"], cost=20),
     E("h_queue_find", ["found", "absent"], "0..4 stored requests, 2 shapes, one lookup", cost=60),
     E("h_history", ["requested", "fulfilled", "expired"], "every sequence of 3 requests (2 shapes, both priorities), fulfilments (of any pending request) and purges from a fresh queue of 220 spare bytes, built by the client builders; contents, slots and waits symbolic", ids=["history-queue-content", "history-request-refused"], cost=10),
     E("h_history_4", ["requested", "fulfilled", "expired"], "the same, 4 operations, 330 spare bytes", ids=["history-queue-content", "history-request-refused"], tier="thorough", cost=150),
     E("h_history_deep", ["requested", "fulfilled", "expired"], "the same, 5 operations, 330 spare bytes", ids=["history-queue-content", "history-request-refused"], tier="thorough", cost=1200),
     E("h_queue_add_deep", ["added", "full"], "0..4 stored requests, 3 shapes, 7 spare sizes", tier="thorough", cost=600),
     E("h_queue_find_deep", ["found", "absent"], "0..5 stored requests, 2 shapes", tier="thorough", cost=200),
     E("h_queue_add_many", ["added", "full"], MANY % 300 + "; one append", cost=4),
     E("h_queue_find_many", ["found", "absent"], MANY % 72 + ", or 300 of them and an id of one of 5; one lookup", cost=5)],
    "one append or lookup from an arbitrary well-formed queue of up to 3 (thorough: 4; lookups 4 and 5) stored requests, every byte of every request symbolic; one append to 300 or lookup among 72 stored requests of mostly fixed content, reaching beyond 64 KiB; " + SH + "listed per entry",
    "longer queues and other shapes; histories are covered inductively: the pre-state is any well-formed queue and the post-state is shown well-formed",
    ["the pre-state satisfies the queue invariant that the entries re-establish (records packed in order at 8-byte boundaries, item_count = live records, cursor = end of the last record)"])
CHECKS["C02"] = C(
    [E("h_queue_remove", ["removed", "no-such-index"], "0..3 stored requests, live or removed, 4 shapes; index 0..3", cost=25, samples=20),
     E("h_queue_remove_add", ["removed", "added-after"], "the same, followed by an append of any shape", cost=70, samples=20),
     E("h_queue_remove_deep", ["removed", "added-after"], "0..4 stored requests, 4 shapes, followed by an append", tier="thorough", cost=600),
     E("h_queue_remove_many", ["removed", "no-such-index", "added-after"], MANY % 300 + "; one of 5 indexes, then an append", cost=4)],
    "one removal at any index from an arbitrary well-formed queue of up to 3 (thorough: 4) stored requests, or one of 300 reaching beyond 64 KiB, then an append",
    "longer queues and other shapes; histories inductively, as for C01",
    ["the pre-state satisfies the queue invariant that the entries re-establish"])
CHECKS["C03"] = C(
    [E("h_queue_limits", ["added", "rejected"], "0..1 stored requests, new request of 14 shapes around the limits 20 accounts / 512 bytes", cost=20),
     E("h_queue_garbage", ["load-error", "iter", "get", "find", "disc", "metas", "args"], "account bytes entirely symbolic, 0/11/12/16/111/112/136 bytes; every reader and writer; offsets and lengths symbolic", cost=40),
     E("h_req_limits", ["accepted", "rejected"], "one request transaction of 7 shapes around the limits", ids=["request-limits"], cost=8),
     E("h_queue_garbage_deep", ["iter", "get", "find", "remove", "add"], "account bytes entirely symbolic, up to 248 bytes", tier="thorough", cost=600)],
    "the size limits at and around their edges; arbitrary account bytes up to 136 (thorough: 248) bytes with one operation of each kind",
    "larger arbitrary byte strings")
CHECKS["C04"] = C(
    [E("h_req_ok", ["accepted", "no-funds"], "0..1 stored requests; new request shapes (8,1,3) and (0,0,0), both priorities", ids=["!id-*"], cost=10),
     E("h_req_shapes", ["accepted", "no-funds"], "0..1 stored requests of shapes (4,2,3) (0,0,0); new request shapes (4,2,1) (7,3,40) (0,1,9) (8,0,0), both priorities", ids=["!id-*"], cost=42),
     E("h_req_limits", ["accepted", "rejected"], "requests at the size limits: (8,20,512)", ids=["limit-request-recorded", "request-limits"], cost=8),
     E("h_req_ok_default", ["accepted"], "the same, for the default ephemeral queue", ids=["!id-*"], cost=5),
     E("h_req_many", ["accepted", "no-funds"], MANY % 40 + "; one request (8,1,3)", ids=["!id-*"], cost=14)],
    "one request transaction on an arbitrary well-formed queue with up to 1 stored request, and one of 40; all field contents, balances, slot and time symbolic",
    "queues with more stored requests (C01 decides the append itself), other request shapes")
CHECKS["C06"] = C(
    [E("h_req_ok", ["accepted"], "0..1 stored requests; new request shapes (8,1,3) and (0,0,0), both priorities", ids=["id-*"], cost=10),
     E("h_req_shapes", ["accepted", "no-funds"], "0..1 stored requests of shapes (4,2,3) (0,0,0); new request shapes (4,2,1) (7,3,40) (0,1,9) (8,0,0), both priorities", ids=["id-*"], cost=42),
     E("h_req_ok_default", ["accepted"], "the same, for the default ephemeral queue", ids=["id-*"], cost=5),
     E("h_history", ["requested", "fulfilled", "expired"], "every sequence of 3 requests (2 shapes, both priorities), fulfilments (of any pending request) and purges from a fresh queue of 220 spare bytes, built by the client builders; contents, slots and waits symbolic", ids=["history-id-unique"], cost=10),
     E("h_history_4", ["requested", "fulfilled", "expired"], "the same, 4 operations, 330 spare bytes", ids=["history-id-unique"], tier="thorough", cost=150),
     E("h_history_deep", ["requested", "fulfilled", "expired"], "the same, 5 operations, 330 spare bytes", ids=["history-id-unique"], tier="thorough", cost=1200),
     E("h_req_many", ["accepted"], MANY % 40 + "; one request (8,1,3)", ids=["id-*"], cost=14)],
    "one request transaction on an arbitrary well-formed queue with up to 1 stored request (and one of 40) whose ids are arbitrary",
    "queues with more pending requests")
PA = "0..1 stored requests (8,1,11); "
CHECKS["C07"] = C(
    [E("h_prov_any", ["rejected"], PA + "every account key, owner, flag, discriminator, proof byte and vrf key symbolic", ids=["oracle-must-*", "own-queue-only", "genuine-queue", "proof-must-verify", "request-must-be-pending"], cost=30),
     E("h_prov_forged", ["accepted", "rejected"], PA + "proof points arbitrary multiples of the basepoint or the input's point", ids=["oracle-must-*", "own-queue-only", "genuine-queue", "proof-must-verify", "request-must-be-pending"], cost=20),
     E("h_prov_ok", ["accepted", "refused"], "1..2 live requests, honest proof with symbolic key and nonce", ids=["valid-fulfilment-refused"], cost=40),
     E("h_prov_shapes", ["accepted", "refused"], "one stored request of shapes (0,0,0) (0,1,5) (8,0,4) (4,2,1) (8,3,40): up to three callback accounts", ids=["valid-fulfilment-refused"], cost=56),
     E("h_prov_repeated", ["accepted", "refused"], "one stored request of shape (4,3,1) whose second or third callback account repeats the one before it, or is the program identity, the oracle's own data account, the queue or the callback program", ids=["valid-fulfilment-refused"], cost=60),
     E("h_prov_many", ["accepted", "refused"], MANY % 40 + "; one of 5 of them fulfilled", ids=["valid-fulfilment-refused"], cost=38),
     E("h_prov_large", ["accepted"], "one stored request of shapes (8,20,0) (8,2,512) (3,9,300), writability of all accounts but the last in a fixed pattern", ids=["valid-fulfilment-refused"], cost=32)],
    "one fulfilment transaction against a queue of up to 2 stored requests, or of 40",
    "more stored requests; the real ristretto group (a stand-in module over byte-wise rings takes its place inside the program's curve system calls)",
    ["curve system calls are served by a stand-in group with the algebra of scalar multiplication; cryptographic hardness is out of scope"])
CHECKS["C08"] = C(
    [E("h_prov_ok", ["accepted"], "1..2 live requests, one callback account each", ids=["one-callback", "callback-*"], cost=40),
     E("h_prov_shapes", ["accepted", "refused"], "one stored request of shapes (0,0,0) (0,1,5) (8,0,4) (4,2,1) (8,3,40): up to three callback accounts", ids=["one-callback", "callback-*"], cost=56),
     E("h_prov_forged", ["accepted"], PA + "adversarial accounts", ids=["one-callback", "callback-*"], cost=20),
     E("h_prov_repeated", ["accepted"], "one stored request of shape (4,3,1) whose second or third callback account repeats the one before it, or is the program identity, the oracle's own data account, the queue or the callback program", ids=["one-callback", "callback-*"], cost=60),
     E("h_prov_large", ["accepted"], "one stored request of shapes (8,20,0) (8,2,512) (3,9,300), writability of all accounts but the last in a fixed pattern", ids=["one-callback", "callback-*"], cost=32),
     E("h_prov_many", ["accepted"], MANY % 40 + "; one of 5 of them fulfilled", ids=["one-callback", "callback-*"], cost=38)],
    "one fulfilment transaction against a queue of up to 2 stored requests, or of 40; up to 20 callback accounts and 512 argument bytes, all contents symbolic",
    "callback programs' own behaviour; more callback accounts",
    ["curve system calls are served by a stand-in group"])
CHECKS["C09"] = C(
    [E("h_prov_ok", ["accepted"], "1..2 live requests; then the same fulfilment again", ids=["*paid-exactly", "oracle-paid-exactly", "queue-*", "others-*", "exactly-one-removed", "removes-exactly-the-fulfilled", "fulfilled-twice"], cost=40),
     E("h_prov_shapes", ["accepted", "refused"], "one stored request of shapes (0,0,0) (0,1,5) (8,0,4) (4,2,1) (8,3,40): up to three callback accounts", ids=["*paid-exactly", "oracle-paid-exactly", "queue-*", "others-*", "exactly-one-removed", "removes-exactly-the-fulfilled", "fulfilled-twice"], cost=56),
     E("h_prov_ok_default", ["accepted"], "the default ephemeral queue, which pays nothing", ids=["oracle-paid-exactly", "queue-*", "others-*", "exactly-one-removed", "removes-exactly-the-fulfilled", "fulfilled-twice"], cost=5),
     E("h_prov_repeated", ["accepted"], "one stored request of shape (4,3,1) whose second or third callback account repeats the one before it, or is the program identity, the oracle's own data account, the queue or the callback program", ids=["*paid-exactly", "oracle-paid-exactly", "queue-*", "others-*", "exactly-one-removed", "removes-exactly-the-fulfilled", "fulfilled-twice"], cost=60),
     E("h_prov_many", ["accepted"], MANY % 40 + "; one of 5 of them fulfilled", ids=["*paid-exactly", "oracle-paid-exactly", "queue-*", "others-*", "exactly-one-removed", "removes-exactly-the-fulfilled", "fulfilled-twice"], cost=38)],
    "one fulfilment and its repetition against a queue of up to 2 stored requests, or of 40; balances symbolic",
    "more stored requests",
    ["curve system calls are served by a stand-in group"])
CHECKS["C10"] = C(
    [E("h_prov_ok", ["accepted", "refused"], "1..2 live requests, one callback account each, slots symbolic", ids=["accepted-wrongly", "valid-fulfilment-refused"], cost=40),
     E("h_prov_shapes", ["accepted", "refused"], "one stored request of shapes (0,0,0) (0,1,5) (8,0,4) (4,2,1) (8,3,40): up to three callback accounts", ids=["accepted-wrongly", "valid-fulfilment-refused"], cost=56),
     E("h_prov_forged", ["accepted"], PA + "adversarial accounts", ids=["later-slot", "oracle-not-among-callback-accounts"], cost=20),
     E("h_prov_repeated", ["accepted", "refused"], "one stored request of shape (4,3,1) whose second or third callback account repeats the one before it, or is the program identity, the oracle's own data account, the queue or the callback program", ids=["accepted-wrongly", "valid-fulfilment-refused"], cost=60),
     E("h_prov_many", ["accepted", "refused"], MANY % 40 + "; one of 5 of them fulfilled", ids=["accepted-wrongly", "valid-fulfilment-refused"], cost=38),
     E("h_prov_large", ["accepted", "refused"], "one stored request of shapes (8,20,0) (8,2,512) (3,9,300), writability of all accounts but the last in a fixed pattern", ids=["accepted-wrongly", "valid-fulfilment-refused"], cost=32)],
    "one fulfilment transaction; request slot, current slot, oracle and callback accounts symbolic",
    "other positions of the oracle among more than three callback accounts than the last",
    ["curve system calls are served by a stand-in group"])
CHECKS["C11"] = C(
    [E("h_purge", ["kept-all", "purged-all", "purged-some", "rejected"], "0..2 stored requests, 2 shapes, slots symbolic; the default queue and others; or a part-created queue", cost=50),
     E("h_purge3", ["kept-all", "purged-all", "purged-some", "rejected"], "0..3 stored requests of shape (0,0,0)", cost=25),
     E("h_purge_deep", ["purged-some"], "0..4 stored requests, 1 shape", tier="thorough", cost=400),
     E("h_purge_many", ["kept-all", "purged-all", "purged-some"], MANY % 40, cost=40)],
    "one purge transaction on an arbitrary well-formed queue of up to 2 (thorough: 4) stored requests, or of 40; slots, ages, priorities, balances symbolic",
    "longer queues")
CHECKS["C14"] = C(
    [E("h_initialize", ["created", "rejected"], "registry absent, funded, or existing with arbitrary content", cost=5),
     E("h_modify_add", ["added", "rejected"], "0..2 registered oracles", ids=["!only-the-upgrade-authority"], cost=60),
     E("h_modify_remove", ["removed", "rejected"], "0..2 registered oracles", ids=["!only-the-upgrade-authority"], cost=10),
     E("h_modify_many", ["added", "removed", "rejected"], "12 registered oracles, the one in question at the start, in the middle, at the end or not among them", ids=["!only-the-upgrade-authority"], cost=20)],
    "one registry transaction with up to 2 or with 12 registered oracles", "other registries")
CHECKS["C13"] = C(
    [E("h_modify_auth", ["added", "removed", "rejected"], "program-data account of 48/45/44/13 arbitrary bytes, 1 registered oracle, add and remove", ids=["only-the-upgrade-authority", "change-accepted-wrongly", "valid-change-refused"], cost=50),
     E("h_modify_add", ["added"], "0..2 registered oracles", ids=["only-the-upgrade-authority"], cost=60)],
    "one registry transaction by an arbitrary signer with arbitrary program-data bytes", "the loader program itself",
    ["the account at the program-data address is what the loader keeps there (the address is checked by the program)"])
CHECKS["C15"] = C(
    [E("h_init", ["initialised", "rejected"], "target sizes 0 23 24 9500 10240; queue absent, funded, 32 arbitrary bytes, or already initialised", cost=20),
     E("h_init_grow", ["grown", "initialised"], "target sizes 10241 20480 20481 65560 16777240 and 2^32-1 from absent or 10240 blank bytes", cost=15),
     E("h_init_shrink", ["initialised", "grown"], "target sizes 64 10240 30720 30721 from 10240 or 20480 blank bytes", cost=15),
     E("h_init_undisturbed", ["refused"], "a part-created queue of 48 bytes; any of the 11 instructions, the oracle not signing, the queue in its usual place and every other account arbitrary, of the program or the system", cost=20)],
    "one InitializeOracleQueue transaction from every growth stage, at the growth boundary sizes; one transaction of anyone else's on a part-created queue", "other target sizes; part-created queues of other sizes under others' transactions")
CHECKS["C16"] = C(
    [E("h_close", ["closed", "closed-partial", "rejected"], "0..2 stored requests; oracle record of 56/55/0 bytes; part-created queues", cost=30),
     E("h_close_many", ["closed-partial", "rejected"], MANY % 300, cost=4)],
    "one CloseOracleQueue transaction on any queue of up to 2 stored requests, and on queues of 300", "other queues")

CHECKS["C05"] = C(
    [E("h_req_any", ["accepted", "rejected"], "every account key, owner, flag and the first header byte symbolic; 0..1 stored requests", ids=["payer-must-sign", "callback-program-must-sign", "genuine-slot-hashes", "genuine-initialised-queue"], cost=25)],
    "one request transaction over adversarial accounts, on a queue account of arbitrary owner and discriminator",
    "other request shapes")
CHECKS["C12"] = C(
    [
     E("h_history", ["requested", "fulfilled", "expired"], "every sequence of 3 requests (2 shapes, both priorities), fulfilments (of any pending request) and purges from a fresh queue of 220 spare bytes, built by the client builders; contents, slots and waits symbolic", ids=["history-escrow", "history-oracle-earnings", "history-fulfilment", "history-purge-refused"], cost=10),
     E("h_history_4", ["requested", "fulfilled", "expired"], "the same, 4 operations, 330 spare bytes", ids=["history-escrow", "history-oracle-earnings", "history-fulfilment", "history-purge-refused"], tier="thorough", cost=150),
     E("h_history_deep", ["requested", "fulfilled", "expired"], "the same, 5 operations, 330 spare bytes", ids=["history-escrow", "history-oracle-earnings", "history-fulfilment", "history-purge-refused"], tier="thorough", cost=1200),
     E("h_escrow_request", ["accepted"], "0..2 stored requests, new request (8,1,3) of both priorities, 0 or 400 spare bytes; the default queue and others", ids=["escrow-covers-pending-fees", "queue-wellformed"], cost=25),
     E("h_escrow_purge", ["accepted"], "0..2 stored requests; the default queue and others", ids=["escrow-covers-pending-fees", "solvent-purge-refused", "queue-wellformed"], cost=10),
     E("h_escrow_provide", ["accepted"], "1..2 live requests; the default queue and others", ids=["escrow-covers-pending-fees", "solvent-fulfilment-refused", "queue-wellformed"], cost=25)],
    "one request, fulfilment or purge from any solvent queue of up to 2 stored requests (induction over histories)",
    "queues with more stored requests; lamports sent to the queue from outside only help",
    ["curve system calls are served by a stand-in group"])
CHECKS["C17"] = C(
    [E("h_delegate", ["delegated", "rejected"], "queue of 0..1 stored requests; all keys and flags symbolic; fresh or funded buffer", cost=20)],
    "one DelegateOracleQueue transaction", "what the delegation program does with the account afterwards",
    ["the delegation program is a stand-in that accepts exactly accounts it already owns"])
CHECKS["C18"] = C(
    [E("h_undelegate", ["scheduled", "rejected"], "all keys and flags symbolic", cost=3),
     E("h_process_undelegation", ["recreated", "rejected"], "buffers of 0/1/40/136 bytes, three seed lists, account absent, funded or live, truncated or padded data", cost=10)],
    "one undelegation request; one completion call", "the delegation and magic programs themselves")
CHECKS["C19"] = C(
    [E("h_dispatch", ["short", "tag"], "0..8 data bytes, 0..1 accounts", cost=2),
     E("h_dispatch_genuine", ["other-program", "part-of-a-tag", "payload-cut-short", "payload-too-long", "account-missing", "account-too-many"], "each of the instructions of an oracle's life, genuine except for another program id, a part of the tag only (0..7 bytes), a payload one byte short or long, an account missing or one too many", ids=["malformed-instruction-accepted"], cost=30),
     E("h_dispatch_delegation", ["other-program", "part-of-a-tag", "payload-cut-short", "payload-too-long", "account-missing", "account-too-many"], "the same for delegation, undelegation and its completion", ids=["malformed-instruction-accepted"], cost=10),
     E("h_dispatch_sizes", ["unknown-tag", "other-program", "too-few", "too-many", "bad-size"], "each of the 11 instructions with a foreign program id, an account missing or one too many, and a payload one byte short or long; every other first byte", cost=5)],
    "one malformed transaction", "payloads wrong by more than one byte; account lists wrong by more than one account")

CHECKS["C20"] = C(
    [E("h_codec_request", ["decoded"], "4 shapes up to 3 accounts and 17 argument bytes, the smaller two cut short anywhere, and (8,20,512), (300,1,300), cut short at 6 places; all contents symbolic", cost=2),
     E("h_codec_any", ["request", "registry", "seeds", "encoded"], "requests of 75..112 bytes, registries of 0..76 bytes, seed lists of 0..20 bytes; list lengths from {0,1,2,3,5,7,2^32-1}, every other byte symbolic", cost=2)],
    "encodings of the listed sizes with every content byte symbolic", "longer lists; other list lengths",
    family="client")
CHECKS["C21"] = C(
    [E("h_sdk_request", ["accepted"], "4 parameter shapes, optional fields present or absent, both priorities; empty queue", cost=8),
     E("h_sdk_request_large", ["accepted"], "as large as the program and transactions admit: shapes (8,20,0) (8,2,512) (8,12,300), both priorities; empty queue", cost=8),
     E("h_sdk_consts", ["checked"], "every oracle identity and index", ids=["program-id", "default-ephemeral-queue", "identity-seed", "sdk-identity"], cost=1),
     E("h_codec_request", ["decoded"], "6 shapes up to (8,20,512) and (300,1,300)", ids=["sdk-encodes-as-the-program"], cost=2)]
    + [E(n, cv, b, crate=k, cost=1) for k in ("anchor", "compat")
       for n, cv, b in [("h_feature_codec", ["decoded"], "3 shapes, under the anchor and anchor-compat feature sets"), ("h_feature_consts", ["checked"], "the constants under the anchor and anchor-compat feature sets")]],
    "one SDK-built request of the listed shapes, all contents symbolic; constants and encoding under all feature sets", "other shapes")
AN = ["a sample program stands for the programs that use the helper; its id is symbolic", "address derivation is an injective uninterpreted function of seeds and program"]
CHECKS["C31"] = C(
    [E(n, cv, b, crate=k, cost=c)
     for k in ("anchor", "compat")
     for n, cv, b, c in [
         ("h_helper_request", ["accepted"], "account structs with none, some and all of the helper's accounts declared; 3 request shapes, both priorities; empty queue of 400 spare bytes; every key, owner, content symbolic", 12),
         ("h_helper_accounts", ["accepted", "refused"], "account structs with none and some of the accounts declared; every key, owner and flag symbolic", 1),
         ("h_feature_consume", ["accepted", "refused"], "one account, key, owner and flags symbolic", 1)]],
    "one request through the generated helper under each of the SDK's two anchor feature sets (anchor 1.0.2 and 0.31.1); every calling program id",
    "other account structs; other anchor versions", AN, family="prog")
CHECKS["C39"] = C(
    [E("h_callback_authentic", ["called-back"], "one pending request without accounts, an honest proof, two programs; every key, content and slot symbolic", crate=k, cost=6) for k in ("anchor", "compat")],
    "one fulfilment and what its callback can pass on, under both of the SDK's anchor feature sets", "guards other than the SDK's identity address; chains of more than one passing-on",
    AN + ["curve system calls are served by a stand-in group"], family="prog")
CHECKS["C22"] = C(
    [E("h_lifecycle", ["done", "settled"], "queue sizes none 24 2000 10240 10241 20480 20481; one request (8,1,3) of either priority, fulfilled or expired; all keys, contents, slots symbolic", cost=15),
     E("h_delegation_roundtrip", ["delegated", "recreated"], "queue of 0..1 stored requests", cost=3),
     E("h_sdk_consts", ["checked"], "every oracle identity and index", ids=["program-identity", "queue-address", "oracle-address", "registry-address"], cost=1)],
    "one life of an oracle through the API's builders, with one request; one delegation and undelegation", "several oracles and queues at once; other queue sizes",
    ["curve system calls are served by a stand-in group", "the delegation program is a stand-in that accepts exactly accounts it already owns"])
CHECKS["C23"] = C(
    [E("h_rnd_range", ["checked", "accepted-byte"], "ranges of 1 2 3 6 10 100 128 129 200 255 256 values starting at 0, 1, 7 and the highest start; all 32 random bytes symbolic", cost=30),
     E("h_rnd_bounds", ["checked"], "every minimum and maximum, all 32 random bytes symbolic", cost=8),
     E("h_rnd_uniform", ["checked"], "u8 u32 i32 u64 i64 bool; all 32 random bytes symbolic", cost=2)],
    "every 32-byte value; every range for the bounds, 11 range sizes for uniformity", "uniformity of other range sizes; draws in which every byte is rejected (probability at most 2^-32)",
    family="client")
CHECKS["C30"] = C(
    [E("h_sdk_pdas", ["checked"], "every account, owner and index", cost=1),
     E("h_feature_pdas", ["checked"], "the same under the anchor-compat feature set", crate="compat", cost=1)],
    "every input, with and without the SDK's backward-compat types", "nothing within the helpers", ["address derivation is an injective uninterpreted function of seeds and program"], family="client")

VG = ["curve and hash libraries are stand-ins with their algebra; cryptographic hardness is out of scope"]
CHECKS["C24"] = C(
    [E("h_vrf_complete", ["proved"], "one identity and one input, all bytes symbolic", crate="vrf", cost=1)],
    "every identity and every input", "the arithmetic inside curve25519-dalek and the syscalls", VG, family="vrf")
CHECKS["C25"] = C(
    [E("h_vrf_agree", ["accepted", "refused"], "every byte of key, input, output, commitments and response symbolic", crate="vrf", cost=4),
     E("h_vrf_agree_honest", ["accepted", "refused"], "what an honest prover computes for every secret key and input, with nothing, the key or the input replaced by arbitrary bytes", crate="vrf", cost=5),
     E("h_vrf_agree_forged", ["accepted", "refused"], "points are arbitrary multiples of the basepoint or the input's point", crate="vrf", cost=4)],
    "every public key, input, output and proof", "the arithmetic inside curve25519-dalek and the syscalls", VG, family="vrf")
CHECKS["C26"] = C(
    [E("h_vrf_sound", ["accepted", "refused"], "both verifiers; two challenges for one set of commitments; one component (Z/16) of the stand-in group symbolic, the others zero", crate="vrf", cost=5),
     E("h_vrf_bind", ["compared"], "both verifiers; two proofs that differ in one of key, input, output, commitments; every byte symbolic", crate="vrf", cost=16)],
    "every key, input, output, commitments and responses, algebraically", "collisions of the hash; probability that a random challenge happens to be answerable", VG, family="vrf")
CHECKS["C27"] = C(
    [E("h_vrf_nonce", ["derived"], "two proofs with different keys or different inputs, every byte symbolic", crate="vrf", cost=4),
     E("h_vrf_keys", ["derived"], "two identities that differ in either half; every input", crate="vrf", cost=1)],
    "every pair of keys, inputs and identities", "side channels; the strength of the hash", VG, family="vrf")
CHECKS["C32"] = C(
    [E("h_vrf_unpredictable", ["computed"], "every key and input", crate="vrf", cost=2)],
    "every key and input; the candidate computations are multiples of the public key by public scalars", "other computations on public data", VG, family="vrf")

OG = []
CHECKS["C28"] = C(
    [E("h_oracle_answer", ["fulfilled", "purged", "too-early"], "one request of 3 shapes, seen at start, 2 queue indexes; content, slots, key symbolic", crate="oracle", cost=4),
     E("h_oracle_answer_all", ["fulfilled", "purged", "nothing-to-do"], "1..2 stored requests, live or removed, 2 shapes, seen in an update", crate="oracle", cost=40),
     E("h_oracle_answer_large", ["fulfilled", "purged"], "a request with 20 distinct callback accounts and 512 argument bytes, and one with 9 and 300", crate="oracle", cost=4),
     E("h_oracle_many", ["left"], "a queue of 70 requests of two symbolic slots, in a look or an update of either source, then the periodic look with 10 of them left", ids=["fresh-requests-are-answered-expired-ones-purged", "one-submission-per-request", "oracle-*", "too-large-for-a-packet", "unknown-blockhash"], crate="oracle", cost=20),
     E("h_oracle_answer_laser", ["fulfilled", "purged"], "one request seen in a gRPC update", crate="oracle", cost=2),
     E("h_oracle_retry", ["confirmed", "fulfilled", "purged"], "0..2 failing attempts (send refused, not confirmed, confirmation fails), the slot moving on symbolically in between", crate="oracle", cost=25),
     E("h_oracle_retry_more", ["confirmed", "fulfilled", "purged"], "0..3 failing attempts", crate="oracle", tier="thorough", cost=150),
     E("h_oracle_answer_more", ["fulfilled", "purged", "nothing-to-do"], "1..3 stored requests", crate="oracle", tier="thorough", cost=600)],
    "queues of up to 2 (thorough: 3) stored requests or of 70 mostly alike, up to 2 (3) failing attempts", "request ids other than the fixed ones; requests that list the oracle itself among their accounts; adequacy of the compute budget", OG, family="oracle")
CHECKS["C29"] = C(
    [E("h_oracle_rounds", ["taken-up", "vanished"], "every sequence of 3 contents over 2 requests; each task's node call stays unanswered, is confirmed, or fails until the task gives up", ids=["!published*"], crate="oracle", cost=40),
     E("h_oracle_late", ["taken-up", "vanished"], "every sequence of 4 contents over 1 request; unanswered calls are answered late, either way or not at all", ids=["!published*"], crate="oracle", cost=8),
     E("h_oracle_two", ["at-work", "vanished"], "two own queues, a request in each, of the same id or not, and an update of either with every outcome of the node calls; both sources", crate="oracle", cost=15),
     E("h_oracle_two_deep", ["at-work", "vanished"], "the same with two updates", crate="oracle", tier="thorough", cost=150),
     E("h_oracle_many", ["left"], "a queue of 70 requests of two symbolic slots, in a look or an update of either source, then the periodic look with 10 of them left", ids=["one-submission-per-request", "pending-request-forgotten", "two-tasks-for-one-request"], crate="oracle", cost=20),
     E("h_oracle_race", ["answered"], "an update and the periodic look with the same single request, every interleaving at accesses to the shared tables, including the started tasks", crate="oracle", cost=15),
     E("h_oracle_race_gone", ["stopped"], "an update with a request and the periodic look without it, every interleaving at accesses to the shared tables, then an update without it", crate="oracle", cost=4),
     E("h_oracle_race_end", ["taken-up-again"], "a task that gives up against an update with or without its request, every interleaving at accesses to the shared tables", crate="oracle", cost=3),
     E("h_oracle_giveup", ["taken-up-again"], "a request whose attempts all fail in one of 3 ways, then an update or the periodic look", crate="oracle", cost=5),
     E("h_oracle_rounds_deep", ["taken-up", "vanished"], "4 contents over 2 requests, with late answers", ids=["!published*"], crate="oracle", tier="thorough", cost=3000),
     E("h_oracle_rounds_wide", ["taken-up", "vanished"], "3 contents over 3 requests", ids=["!published*"], crate="oracle", tier="thorough", cost=2400),
     E("h_oracle_race_deep", ["answered"], "as h_oracle_race, the started tasks also give up", crate="oracle", tier="thorough", cost=2500)],
    "2 requests and 3 contents or 70 requests and 2 contents of one queue, 3 requests and 2 contents of two queues; interleavings of two looks with equal content and the tasks they start, preempted at every acquisition of a shared table",
    "two looks with different contents in flight at once (a stale look can restart a request that has just left the queue; the program refuses the submission and the next look ends the task); forks that undo a confirmed submission; preemption elsewhere; multi-core memory order", OG, family="oracle")
CHECKS["C33"] = C(
    [E("h_oracle_recover", ["recovered", "first-look-fails"], "up to 3 failures in any order (stream end, foreign or undecodable update, subscriptions refused for a while), the first look failing or not", crate="oracle", cost=5),
     E("h_oracle_recover_laser", ["recovered", "first-look-fails"], "the same with the gRPC source, up to 2", crate="oracle", cost=2),
     E("h_oracle_periodic", ["found", "look-failed"], "no updates at all; up to 2 failing periodic looks", crate="oracle", cost=1),
     E("h_service_restart", ["answered", "failed-before", "down-at-first"], "the service's own main function; the first 0..2 requests for a blockhash and the first 0..3 looks fail", crate="service", cost=1)],
    "up to 3 failures in a row", "hanging calls of the node", OG, family="oracle")
CHECKS["C34"] = C(
    [E("h_oracle_foreign", ["served-afterwards"], "queue of another oracle, own queue's content at two other addresses, foreign owner, other account type (symbolic), three truncations; in a look or an update", crate="oracle", cost=2),
     E("h_oracle_foreign_laser", ["served-afterwards"], "the same with the gRPC source", crate="oracle", cost=2)],
    "one foreign account before the genuine one", "other addresses of foreign accounts than the fixed ones", OG, family="oracle")
CHECKS["C35"] = C(
    [E("h_oracle_blockhash", ["sent", "purge-sent"], "idle times around multiples of a minute, with and without a minute in which refreshing fails; the slot moved on by 100 or 300", crate="oracle", cost=3),
     E("h_oracle_retry", ["confirmed"], "0..2 failing attempts", ids=["tries-again-with-the-same-blockhash", "unknown-blockhash", "answers-an-expired-request", "purges-without-expired-requests", "gives-up-or-sends-again-after-success"], crate="oracle", cost=25)],
    "8 idle times up to two minutes, 2 failing attempts", "calls of the node that take long", OG, family="oracle")
CHECKS["C36"] = C(
    [E("h_oracle_rounds", ["vanished", "latency-published"], "every sequence of 3 contents over 2 requests, as in C29", ids=["published*"], crate="oracle", cost=40),
     E("h_oracle_late", ["vanished", "latency-published"], "every sequence of 4 contents over 1 request", ids=["published*"], crate="oracle", cost=8),
     E("h_oracle_means", ["mean-of-many"], "4 updates of two queues in any order, from either source, each answering its one request after one of 2 times (3 slots, more than 2^32) and bringing another", crate="oracle", cost=8),
     E("h_oracle_means_deep", ["mean-of-many"], "6 updates", crate="oracle", tier="thorough", cost=150),
     E("h_service_stats", ["shown", "refused", "latency-shown"], "the service's own main function; every sequence of 3 contents over 2 requests, one of 5 questions after each", crate="service", cost=12),
     E("h_service_stats_race", ["shown", "both-done"], "a question while an update is processed, every interleaving at accesses to the shared tables", crate="service", cost=2),
     E("h_service_stats_deep", ["shown", "refused", "latency-shown"], "4 contents", crate="service", tier="thorough", cost=150)],
    "2 requests, 3 contents, fixed slots; 4 answers over two queues, after 3 slots or more than 2^32 each", "sockets and the HTTP wire format", OG, family="oracle")
CHECKS["C38"] = C(
    [E("h_service_config", ["stream", "websocket", "server", "no-server"], "every combination of 7 options given or not, all on the command line or all in the environment; a request to answer and one to purge; every port, slot and callback program", crate="service", cost=40)],
    "one value per textual option, every port", "parsing of command line and environment inside clap (a stand-in gives each option its value under the long, short and environment names declared for it)", OG, family="oracle")
CHECKS["C37"] = C(
    [E("h_cli_initialize", ["done", "lost"], "no registry yet", crate="cli", cost=1),
     E("h_cli_initialize_twice", ["done"], "a registry is there", crate="cli", cost=1),
     E("h_cli_add_oracle", ["done", "lost"], "the signer or another as identity, 0..1 oracles registered", crate="cli", cost=1),
     E("h_cli_remove_oracle", ["done", "lost"], "the signer or another as identity, 2 oracles registered", crate="cli", cost=1),
     E("h_cli_init_queue", ["done", "lost"], "indexes 0, 7, 255; size left out, 24, 10241, 20480", crate="cli", cost=1),
     E("h_cli_init_queue_all", ["done", "lost"], "all 256 indexes", crate="cli", cost=10),
     E("h_cli_close", ["own", "others", "look-alike", "nothing-there", "closed", "pending", "lost"], "the signer's queue (pending request or not), another oracle's, a look-alike of another program, an empty address; indexes 0, 7, 255", crate="cli", cost=1),
     E("h_cli_delegate", ["own", "others", "look-alike", "nothing-there", "delegated", "lost"], "as h_cli_close", crate="cli", cost=1),
     E("h_cli_undelegate", ["own", "others", "look-alike", "nothing-there", "undelegated", "lost"], "as h_cli_close", crate="cli", cost=1),
     E("h_cli_config", ["done", "default-key"], "keypair and node left out or given by long name, short name or environment variable", crate="cli", cost=1),
     E("h_cli_derive", ["printed"], "every secret key", crate="cli", cost=1),
     E("h_cli_list", ["listed", "unreadable"], "a queue at each of the 20 indexes the tool looks at, delegated or not, an undecodable account at another", crate="cli", cost=10),
     E("h_cli_list_high", ["looked"], "a queue at each index from 20", crate="cli", cost=10)],
    "one command at a time", "identities that differ from the signer in initialize-oracle-queue (the program refuses them); file and environment input inside clap; the text layout of the output", [], family="cli")
