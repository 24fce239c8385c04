"""The properties (source of properties.jsonl)."""


def P(id, title, statement, over, text, why, files, mech, observe):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None},
    }


Q = "api/src/state/queue.rs"
PR = "program/src/provide_randomness.rs"
RR = "program/src/request_randomness.rs"
NOTEST = "The only test that runs reliably checks the program id; "
PROPS = [
    P("C01", "Queued requests are stored faithfully and read back in order",
      "Appending a request to any oracle queue either stores exactly that request (id, slot, callback program, priority, discriminator, accounts, arguments) as the last one and leaves every earlier request and the header index unchanged, or fails and leaves the pending requests unchanged; it succeeds whenever the request fits behind the last live one. Iterating, indexing and looking up by id then report exactly the stored requests, in order, and only live ones.",
      ["inputs", "histories"], "every queue content reachable by appends and removals, every request content and shape",
      NOTEST + "queue layout depends on offsets, alignment and holes left by earlier removals.",
      [Q], [("QueueAccount::add_item", Q), ("QueueAccount::iter_items", Q), ("find_item_by_id", Q)], ["queue account data"]),
    P("C02", "Removing a request removes exactly that request",
      "Removing the i-th pending request returns it, keeps every other pending request byte for byte and in order, and lowers the count by one; removing an index that does not exist fails and changes nothing. The removed request's variable-length data stays readable through the returned item until the next append.",
      ["inputs", "histories"], "every queue content, every index",
      NOTEST + "removal interacts with holes, alignment and cursor trimming.",
      [Q], [("QueueAccount::remove_item", Q)], ["queue account data"]),
    P("C03", "Request limits are enforced and queue access is memory-safe on any bytes",
      "A request with more than 20 callback accounts or more than 512 argument bytes is never stored and its rejection changes no pending request, while a request at the limits is accepted when it fits. On arbitrary account bytes, every queue operation returns a value or an error: it never panics, never reads or writes outside the account.",
      ["inputs"], "every request size, every content of a queue account",
      NOTEST + "robustness is a claim over all byte strings.",
      [Q], [("MAX_ACCOUNTS/MAX_ARGS_SIZE", Q), ("range checks in the item readers", Q)], ["queue account data", "process abort"]),
    P("C04", "An accepted request is recorded exactly and escrows exactly its fee",
      "A well-formed request by a funded signer is accepted and appends exactly one pending request carrying the caller's program, discriminator, accounts, arguments, priority and the current slot. It moves exactly 800000 (high priority) or 500000 lamports from the signer to the queue, nothing for the default ephemeral queue, and changes no other account; without the funds it fails.",
      ["inputs", "histories"], "every request, every queue content, every balance and clock",
      NOTEST + "the integration test needs a validator and samples one request.",
      [RR, Q], [("process_request_randomness", RR), ("cost selection", RR)], ["queue account data", "lamports"]),
    P("C05", "Requests need the payer's and the callback program's signature and genuine accounts",
      "A request is accepted only if the payer signed, the identity address derived from the callback program signed (so no program can request on behalf of another), the slot-hash account is the genuine sysvar, and the target is a writable, completely initialized queue owned by this program.",
      ["inputs"], "every set of accounts, flags, owners and account contents",
      NOTEST + "authorization is a claim over all adversarial accounts.",
      [RR, "api/src/loaders.rs"], [("account checks in process_request_randomness", RR)], ["transaction result"]),
    P("C06", "Request ids bind their inputs and are unique among pending requests",
      "The id given to an accepted request is the digest of the caller's seed, the current slot, the latest slot hash, the callback discriminator, the callback program, the clock and an index, so it cannot be chosen freely. It differs from the id of every request pending in the same queue.",
      ["inputs", "histories"], "every request, clock, slot hash and queue content",
      NOTEST + "collisions need two particular requests in one slot with particular removals between them.",
      [RR], [("combined hash", RR)], ["queue account data"]),
    P("C07", "Only the registered oracle with a valid proof can fulfil, on its own queue",
      "Fulfilling a request succeeds only if the oracle signed, its registration record is genuine, the queue is that oracle's own genuine queue, the request is pending in it, and the submitted proof verifies under the oracle's registered key for that request's id. An honest proof for a pending request is accepted.",
      ["inputs", "histories"], "every set of accounts, flags, keys and proof bytes",
      NOTEST + "authorization is a claim over all adversarial accounts and proofs.",
      [PR, "api/src/verify.rs", "api/src/loaders.rs"], [("process_provide_randomness", PR), ("verify_vrf", "api/src/verify.rs")], ["transaction result", "queue account data"]),
    P("C08", "The callback delivers exactly the requested call with the derived randomness",
      "A successful fulfilment makes exactly one call, to the program the request named, with data equal to the requested discriminator, then the 32-byte digest of the proven VRF output, then the requested arguments. The call's accounts are the program identity as read-only signer followed by exactly the requested accounts with the requested writability, none of which is lent a signature.",
      ["inputs"], "every pending request and proof",
      NOTEST + "it depends on every field of the stored request.",
      [PR], [("callback instruction construction", PR)], ["cross-program invocation"]),
    P("C09", "Each request is fulfilled at most once and pays its oracle exactly its fee",
      "A successful fulfilment removes exactly the fulfilled request from the queue, keeps the others, and moves exactly that request's fee (by its stored priority; nothing on the default ephemeral queue) from the queue to the oracle; no other account changes. Submitting the same fulfilment again fails.",
      ["inputs", "histories"], "every queue content, balance and repetition",
      NOTEST + "it is a claim over histories of requests and fulfilments.",
      [PR, "program/src/fees.rs", Q], [("remove_item + transfer_fee", PR)], ["queue account data", "lamports"]),
    P("C10", "Fulfilment only in a later slot and never listing the oracle itself",
      "A request can be fulfilled only in a slot after the one in which it was made, and never if the fulfilling oracle's own address is among the request's callback accounts. Otherwise an honest fulfilment is accepted.",
      ["inputs", "schedules"], "every pair of slots, every callback account list",
      NOTEST + "the boundary is one slot value and one address among many.",
      [PR], [("slot check", PR), ("oracle-in-accounts check", PR)], ["transaction result"]),
    P("C11", "Purging removes exactly the expired requests and pays their fees",
      "Anyone may purge a genuine oracle queue: exactly the requests older than 240 slots are removed, the younger ones stay unchanged and in order, and the oracle is paid exactly the fees of the removed ones from the queue (nothing on the default ephemeral queue). A purge on anything that is not the oracle's writable queue fails without effect.",
      ["inputs", "histories"], "every queue content, slot and balance",
      NOTEST + "removing while iterating over holes and the age boundary need particular queues.",
      ["program/src/purge_expired_requests.rs", "program/src/fees.rs"], [("process_purge_expired_requests", "program/src/purge_expired_requests.rs")], ["queue account data", "lamports"]),
    P("C12", "A queue always holds the fees of everything pending",
      "Starting from a queue whose lamports cover its rent and the fees of all pending requests, every request, fulfilment and purge leaves it so; no honest fulfilment or purge of such a queue fails for lack of funds. (On the default ephemeral queue, where requests are free, it keeps its rent.)",
      ["histories"], "every history of requests, fulfilments and purges, at every priority and age",
      NOTEST + "solvency is an invariant over histories; charging, paying and refunding sit in three files.",
      [RR, PR, "program/src/purge_expired_requests.rs", "program/src/fees.rs"], [("fee charge", RR), ("fee payment", PR), ("refund on purge", "program/src/purge_expired_requests.rs")], ["lamports", "queue account data"]),
    P("C13", "Only the program's upgrade authority changes the oracle registry",
      "Adding or removing an oracle succeeds only when the transaction is signed by the upgrade authority recorded in this program's own program-data account; a missing, revoked, forged or truncated authority record never authorizes anyone.",
      ["inputs"], "every signer, every account offered as program data and every content of it",
      NOTEST + "authorization is a claim over all signers and account contents.",
      ["program/src/modify_oracles.rs", "api/src/loaders.rs"], [("load_program_upgrade_authority", "api/src/loaders.rs")], ["transaction result"]),
    P("C14", "The registry lists exactly the registered oracles",
      "Initialization happens once and creates an empty registry. Adding an oracle appends it and creates its record with the given VRF key, the current slot and no open queues; removing one requires that it has no open queues, deletes its record and drops exactly it from the list, keeping the others in order. The registry stays rent exempt.",
      ["inputs", "histories"], "every registry content and every addition or removal",
      NOTEST + "it is a claim over histories of changes.",
      ["program/src/modify_oracles.rs", "program/src/initialize.rs", "api/src/pda.rs"], [("process_modify_oracles", "program/src/modify_oracles.rs"), ("resize_pda", "api/src/pda.rs")], ["registry account data", "oracle record"]),
    P("C15", "Queue initialization is safe at every growth stage and happens once",
      "Only a registered oracle that signs, no earlier than 200 slots after its registration, can create its queue; creation needs the payer's signature, and a queue larger than one growth step is grown by repeated calls, each adding at most 10240 bytes, staying blank, rent exempt and uncounted until it is complete, whatever others send meanwhile. Completion leaves an empty queue of exactly the requested size and index and raises the oracle's open-queue count by one; an initialized queue or a non-blank account is never re-initialized.",
      ["inputs", "histories"], "every growth stage, size, balance and account set",
      NOTEST + "growth takes several transactions and boundary sizes.",
      ["program/src/initialize_oracle_queue.rs", "api/src/pda.rs", "api/src/loaders.rs"], [("process_initialize_oracle_queue", "program/src/initialize_oracle_queue.rs")], ["queue account", "oracle record"]),
    P("C16", "Closing a queue needs its oracle and an empty queue, and settles the count",
      "A queue is closed only by its own signing oracle and only when no request is pending; closing returns all its lamports to the oracle, deletes the account, and lowers the oracle's open-queue count by exactly one if the queue was completely initialized and not at all otherwise.",
      ["inputs", "histories"], "every queue content and account set",
      NOTEST + "the count depends on histories of partial creation and closing.",
      ["program/src/close_oracle_queue.rs"], [("process_close_oracle_queue", "program/src/close_oracle_queue.rs")], ["queue account", "oracle record", "lamports"]),
    P("C17", "Delegation hands over exactly the authority's own queue",
      "Delegating a queue needs the signature of the authority whose address derives the queue, and the genuine delegation program and buffer. It passes the queue's unchanged content in the buffer and its derivation seeds to the delegation program, leaves the queue owned by that program with its lamports, and calls nothing else but the system program.",
      ["inputs"], "every set of accounts and flags, every queue content",
      NOTEST + "authorization is a claim over all adversarial accounts.",
      ["program/src/delegate_oracle_queue.rs"], [("process_delegate_oracle_queue", "program/src/delegate_oracle_queue.rs")], ["cross-program invocation", "queue account"]),
    P("C18", "Undelegation is asked for by the authority and completed only by the delegation program",
      "Undelegation is scheduled only with the signature of the authority whose address derives the queue and only through the genuine magic program, which gets no signature of the queue. Its completion is accepted only with the delegation program's own buffer for that account (the address it derives for it, owned by it and signed), so by nobody else, only at the address derived from the given seeds, never over a live account, and re-creates the account with exactly the buffer's content, owned by this program and rent exempt.",
      ["inputs"], "every set of accounts, seeds and buffer contents",
      NOTEST + "completion arrives from another program with arbitrary accounts.",
      ["program/src/undelegate_oracle_queue.rs", "program/src/process_undelegation.rs"], [("process_undelegate_oracle_queue", "program/src/undelegate_oracle_queue.rs"), ("process_undelegation", "program/src/process_undelegation.rs")], ["cross-program invocation", "queue account"]),
    P("C19", "Malformed instructions are refused",
      "An instruction that is shorter than its tag, has an unknown tag, is addressed to another program id, has a payload too short or (except for requests and registry initialization, which ignore what follows) too long, or the wrong number of accounts, is refused without effect.",
      ["inputs"], "every instruction data and account list",
      NOTEST + "it is a claim over all byte strings.",
      ["program/src/lib.rs", "api/src/instruction.rs"], [("process_instruction", "program/src/lib.rs")], ["transaction result"]),
    P("C20", "What clients encode the program decodes, and nothing else",
      "Encoding a request, an oracle registry or a seed list and decoding it gives back the same value; an encoding that is cut short or of another kind is refused. Decoding arbitrary bytes never panics, and whatever decodes, re-encodes to the same bytes.",
      ["inputs"], "every value, every byte string",
      NOTEST + "round trips and robustness are claims over all values and byte strings.",
      ["api/src/instruction.rs", "api/src/state/oracles.rs", "api/src/state/macros.rs"], [("RequestRandomness::to_bytes/try_from_bytes", "api/src/instruction.rs"), ("PdaSeeds::parse", "api/src/instruction.rs")], ["encoded bytes"]),
    P("C21", "A request built by the SDK is the request the program records",
      "For every parameter set, the SDK's request instructions (high priority and regular) are addressed to the program, need exactly the payer's and the calling program identity's signatures, and are accepted by the program, which records exactly the given discriminator, accounts, arguments and priority. The SDK's program id, identity address and default ephemeral queue are the program's own.",
      ["inputs"], "every parameter set",
      NOTEST + "the SDK and the program define the wire format twice.",
      ["sdk/src/instructions.rs", "sdk/src/types.rs", "sdk/src/consts.rs"], [("create_request_randomness_ix", "sdk/src/instructions.rs")], ["instruction", "queue account data"]),
    P("C22", "Client builders drive an oracle's whole life",
      "Every instruction built by the API's client builders is accepted by the program in the state it is meant for, with no other signatures than its documented signers: registry creation, registration, queue creation of any size (in as many steps as needed, ending at exactly the requested size), fulfilment, purge, delegation, undelegation, closing and removal. At the end the oracle has its fees and its rent back and the registry is empty; a queue that was delegated and undelegated is re-created at the same address with the same content.",
      ["inputs", "histories"], "every identity, index, queue size, request and clock",
      NOTEST + "builders and handlers must agree on accounts, order, flags, addresses and sizes.",
      ["api/src/sdk.rs", "api/src/state/mod.rs", "api/src/pda.rs"], [("instruction builders", "api/src/sdk.rs")], ["transaction result", "accounts"]),
    P("C23", "The SDK's random helpers are uniform and stay in range",
      "random_u8_with_range always returns a value between its bounds, for every bounds and every random bytes, and is unbiased unless every byte is rejected. The full-width helpers (u8, u32, i32, u64, i64, bool) give every value equally often over all 32-byte inputs.",
      ["inputs"], "every 32-byte value, every range",
      NOTEST + "bias shows only over all inputs.",
      ["sdk/src/rnd.rs"], [("random_u8_with_range", "sdk/src/rnd.rs")], ["returned value"]),
    P("C30", "The SDK's delegation addresses are the delegation program's",
      "For every account, owner and index, the SDK's address helpers return the addresses the delegation program itself uses: derived from the documented seeds under the delegation program's id (the delegate buffer under the owner program's).",
      ["inputs"], "every account, owner program and index",
      NOTEST + "the helpers are a hand-made copy with ten pairs of seeds and program ids.",
      ["sdk/src/pda.rs"], [("address helpers", "sdk/src/pda.rs")], ["returned address"]),
    P("C31", "Programs using the SDK's account helper request only as themselves",
      "The accounts the SDK's #[vrf] attribute adds to an account struct (those not declared already) are accepted only if genuine: the identity derived for the calling program, the VRF program, the slot-hash sysvar, the system program. The generated invoke_signed_vrf makes exactly one call, to the VRF program, carrying exactly the given request signed by the calling program's identity; the VRF program accepts and records it for the calling program. A handler guarded by the SDK's identity address runs only with the VRF program's signature. All of it under both anchor feature sets.",
      ["inputs"], "every calling program, request and set of accounts",
      NOTEST + "the helper is generated code that only an integration test on a validator compiles, with one program and one request.",
      ["sdk/vrf-macro/src/lib.rs", "sdk/src/anchor.rs", "sdk/src/compat/mod.rs"], [("vrf attribute", "sdk/vrf-macro/src/lib.rs"), ("compat conversions", "sdk/src/compat/mod.rs")], ["cross-program invocation", "account validation"]),
    P("C39", "A guarded callback runs only as the callback of its own program's request",
      "A handler that demands the VRF program's identity as signer, as the SDK documents, runs only as the callback of a fulfilled request of its own program: a fulfilment calls the requesting program only, whose guarded handler accepts the call, and the signature lent to it does not run the guarded handler of any other program (to which the called program could pass it on together with randomness of its own making).",
      ["inputs"], "every requesting program, other program, request and slot",
      NOTEST + "it is about what a hostile callback program can do with a genuine fulfilment.",
      ["program/src/provide_randomness.rs", "sdk/src/consts.rs"], [("process_provide_randomness", "program/src/provide_randomness.rs"), ("VRF_PROGRAM_IDENTITY", "sdk/src/consts.rs")], ["cross-program invocation", "account validation"]),
    P("C24", "An honest oracle's proof always verifies",
      "For every identity and every request id, the key pair derived from the identity is consistent, the computed proof is canonical, it is the same on every computation, its output is the secret key applied to the input's point, and both the oracle's own verifier and the program's verifier accept it.",
      ["inputs"], "every identity, every 32-byte input",
      NOTEST + "completeness is a claim over all keys and inputs, across two implementations.",
      ["vrf/src/vrf.rs", "api/src/verify.rs"], [("compute_vrf", "vrf/src/vrf.rs"), ("generate_vrf_keypair", "vrf/src/vrf.rs"), ("verify_vrf", "api/src/verify.rs")], ["proof", "verification result"]),
    P("C25", "The off-chain and on-chain verifiers give the same answer",
      "On every public key, input, output and proof, valid or not, the verifier the oracle runs before submitting and the verifier the program runs agree, so no proof the oracle considers good is refused on chain and none it considers bad is accepted.",
      ["inputs"], "every public key, input, output, commitments and response",
      NOTEST + "the verifier is written twice over different libraries.",
      ["vrf/src/vrf.rs", "api/src/verify.rs"], [("verify_vrf", "vrf/src/vrf.rs"), ("verify_vrf", "api/src/verify.rs")], ["verification result"]),
    P("C26", "Only one output can be proved for a key and an input",
      "Commitments and an output for which two challenges can be answered carry the output that the public key determines for the input (special soundness of both verifiers), and the challenge binds everything: proofs that differ in public key, input, output or either commitment are checked against differently derived challenges. So an oracle cannot choose among outputs.",
      ["inputs"], "every key, input, output, commitments, responses and challenges",
      NOTEST + "soundness is a claim over all forgeries.",
      ["vrf/src/vrf.rs", "api/src/verify.rs"], [("verify_vrf", "vrf/src/vrf.rs"), ("verify_vrf", "api/src/verify.rs")], ["verification result"]),
    P("C27", "Proofs do not give away the oracle's secret key",
      "The nonce behind a proof's commitments is derived by hashing the secret key together with the input: it differs for every key and every input, is the same in both commitments, and is neither published nor computable from published values, nor ever the key itself. Distinct identities have independently derived keys.",
      ["inputs"], "every pair of identities, keys and inputs",
      NOTEST + "nonce reuse shows only across proofs and reveals the key.",
      ["vrf/src/vrf.rs"], [("compute_vrf", "vrf/src/vrf.rs"), ("generate_vrf_keypair", "vrf/src/vrf.rs")], ["proof", "key pair"]),
    P("C32", "Nobody can compute the randomness before the oracle reveals it",
      "The output for a request depends on the oracle's secret key and cannot be computed from what is public before the proof appears: the request id and the oracle's public key.",
      ["inputs"], "every key and input",
      NOTEST + "it is a claim about all computations on public data; here the one the construction offers.",
      ["vrf/src/vrf.rs", "api/src/verify.rs"], [("hash_to_point", "vrf/src/vrf.rs"), ("compute_vrf", "vrf/src/vrf.rs")], ["proof"]),
]
P_ORACLE = [
    P("C28", "The oracle service answers pending requests with transactions the program accepts",
      "For every request pending in the oracle's own queue, whether seen at start, in an update or in the periodic look, the service submits a transaction, paid and signed by the oracle alone, that holds exactly one instruction for the VRF program: a fulfilment with a valid proof for exactly that request while the request is within its lifetime at the slot the service knows, a purge of that queue otherwise; it fits into one packet of 1232 bytes. Submitted in a later slot than the request's, the program accepts it and the request leaves the queue. A failed attempt is followed by another made for the chain's new slot and a newer blockhash.",
      ["inputs", "faults"], "every request content, slot, queue index, kind of failed attempt",
      NOTEST + "service, proof library, client builders and program have to agree, for every request and clock.",
      ["vrf-oracle/src/oracle/processor.rs", "vrf-oracle/src/oracle/client.rs", "api/src/sdk.rs", "vrf/src/vrf.rs"], [("process_item", "vrf-oracle/src/oracle/processor.rs")], ["submitted transactions", "transaction result"]),
    P("C29", "The oracle service keeps exactly one submission at work per pending request",
      "However updates, the periodic look, answers of the node and the service's own tasks interleave: a pending request is never worked on by two tasks at once and is left alone once a submission for it is confirmed; the oracle's queues do not affect one another, even if they hold requests of the same id; a request that is not being worked on and not confirmed is taken up at the next look at the queue, so none is forgotten; after a request has left the queue nothing more is submitted for it; and no interleaving blocks the service.",
      ["inputs", "schedules", "faults"], "sequences of queue contents, answers of the node, interleavings at the shared tables",
      NOTEST + "the bookkeeping is shared by concurrent tasks and only goes wrong for particular orders.",
      ["vrf-oracle/src/oracle/processor.rs", "vrf-oracle/src/oracle/client.rs"], [("process_oracle_queue", "vrf-oracle/src/oracle/processor.rs")], ["submitted transactions"]),
    P("C33", "The oracle service recovers from failures of its node",
      "A node that is down when the service starts, failing looks at the queue, refused subscriptions, ended streams and undecodable updates, in any order, do not stop the service: it tries again within a minute, the next update is served, and a pending request is found by the periodic look even if no update ever arrives.",
      ["faults", "histories"], "every sequence of failures",
      NOTEST + "no test runs the service at all.",
      ["vrf-oracle/src/oracle/client.rs", "vrf-oracle/src/oracle/sources.rs", "vrf-oracle/src/oracle/processor.rs"], [("run", "vrf-oracle/src/oracle/client.rs"), ("next", "vrf-oracle/src/oracle/sources.rs")], ["submitted transactions"]),
    P("C34", "The oracle service acts on its own queues only",
      "Queues of other oracles, accounts that pose as a queue at another address, accounts of other programs and accounts that are not well-formed queues never cause a submission, whether seen in a look or in an update; and what the service asks the node for includes every queue of the program.",
      ["inputs"], "every kind of foreign account, both update sources",
      NOTEST + "no test shows the service a foreign account.",
      ["vrf-oracle/src/oracle/processor.rs", "vrf-oracle/src/oracle/sources.rs", "vrf-oracle/src/oracle/utils.rs"], [("process_oracle_queue", "vrf-oracle/src/oracle/processor.rs"), ("queue_memcmp_filter", "vrf-oracle/src/oracle/utils.rs")], ["submitted transactions"]),
    P("C35", "The oracle service submits with a fresh blockhash and slot",
      "However long the service idles, a submission carries a blockhash (and is decided on a slot) the node returned no more than a minute ago as long as the node answers, also after a time in which it did not; after a failed attempt the next one carries a newer one.",
      ["histories", "faults"], "idle times, failing refreshes",
      NOTEST + "staleness shows only after time has passed.",
      ["vrf-oracle/src/blockhash_cache.rs", "vrf-oracle/src/oracle/processor.rs"], [("spawn_refresh_task", "vrf-oracle/src/blockhash_cache.rs"), ("refresh_blockhash", "vrf-oracle/src/blockhash_cache.rs")], ["submitted transactions"]),
    P("C36", "The oracle service's statistics are right",
      "The published length of each queue is the number of requests in the content processed last, and the published average latency is the mean, over the requests taken up and then gone from the queue, of the slots from the request to the update that no longer contains it. GET /stats on the configured port answers with these numbers at any time, also while an update is being processed; anything else asked is answered with 404.",
      ["histories"], "sequences of queue contents",
      NOTEST + "the running average depends on the whole history.",
      ["vrf-oracle/src/oracle/processor.rs", "vrf-oracle/src/main.rs"], [("process_oracle_queue", "vrf-oracle/src/oracle/processor.rs"), ("start_http_server", "vrf-oracle/src/main.rs")], ["statistics"]),
    P("C38", "The oracle service runs as it is configured",
      "The service works for the identity it is given (the documented default otherwise): it signs with that key and serves that key's queues. It talks to the configured RPC node only, listens to the configured gRPC stream exactly if both its endpoint and its key are given and to the configured websocket otherwise, skips the node's preflight check as told, and opens the statistics server exactly if a port is given, at that port. Each option is read under its own name on the command line and under its own environment variable (VRF_ORACLE_IDENTITY, RPC_URL, WEBSOCKET_URL, LASERSTREAM_ENDPOINT, LASERSTREAM_API_KEY, VRF_ORACLE_HTTP_PORT, VRF_ORACLE_SKIP_PREFLIGHT).",
      ["inputs"], "every combination of options",
      NOTEST + "no test starts the service.",
      ["vrf-oracle/src/main.rs", "vrf-oracle/src/args.rs", "vrf-oracle/src/oracle/client.rs"], [("main", "vrf-oracle/src/main.rs"), ("create_update_source", "vrf-oracle/src/oracle/client.rs")], ["submitted transactions", "subscriptions", "HTTP server"]),
    P("C37", "The command-line tool does what was asked, to what was named",
      "Every command sends at most one transaction, paid and signed by the configured keypair alone and for the VRF program only, which the program accepts whenever the command is legitimate, with the asked effect: initialize, add or remove the named oracle with the given key, create the queue of the given index and size, close, delegate or undelegate the named queue. An account other than the named one is never acted on, whatever is found at the named address. The tool reports success exactly if the transaction was confirmed. The key it derives is the one the oracle service proves with, and it lists each of the signer's queues with its content, whatever else it finds.",
      ["inputs", "faults"], "every command, kind of named account, confirmed or lost transaction",
      NOTEST + "no test runs the tool.",
      ["vrf-cli/src/main.rs", "api/src/sdk.rs"], [("main", "vrf-cli/src/main.rs")], ["transaction result", "tool output"]),
]
PROPS += P_ORACLE
NOT_APPLICABLE = []
