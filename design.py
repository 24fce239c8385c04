"""Per-property text of DESIGN.md (gen.py adds the bounds from checks.py)."""
HOW = {
"C01": "The queue functions run on a queue whose every byte is symbolic, laid out by harness/prog/src/qmodel.rs as any sequence of live and removed records; the oracle is an independent byte-level reader in the harness (record offsets, alignment, holes) written from the layout in the repository's documentation of the account, not the code's own iterator. After the append it compares every record, index, iteration result and lookup with the model, and re-establishes the pre-state invariant, so single steps compose to histories; h_history additionally runs whole short histories through the program.",
"C02": "As C01, one removal at a symbolic index; compares the remaining records byte for byte with the model and shows the invariant again.",
"C03": "(a) requests around the limits against the model; (b) account bytes entirely symbolic, with every reader and writer called: the engine checks each load and store against the object it belongs to (an access outside is a violation) and each panic is a violation.",
"C04": "One RequestRandomness transaction through process_instruction with symbolic account contents, run by the stand-in runtime; the whole post-state (every lamport, every byte of every account) is compared with the expected one.",
"C05": "One RequestRandomness transaction whose account keys, owners, flags and contents are all symbolic; if it is accepted, each of the four requirements is asserted from the inputs.",
"C06": "The id stored by the accepted request is compared with an independently computed digest; the index it embeds is asserted to be larger than that of any pending request of the same slot, ids being injective in it. h_history asserts distinctness over histories.",
"C07": "One ProvideRandomness transaction with everything symbolic (h_prov_any), and with proofs built from arbitrary scalar multiples so that the verifier's equations can be met by forgeries (h_prov_forged); if accepted, the requirements are asserted, among them that the proof equations hold for the registered key and that id. Positive direction: an honest proof with symbolic key and nonce is accepted.",
"C08": "The runtime records every cross-program invocation; its program, data and account metas are compared with the stored request and the digest of the proof's output, field by field.",
"C09": "The post-state of the fulfilment is compared with the model queue without exactly the fulfilled request, and lamports with the fee table; the same transaction is then run again and must fail.",
"C10": "The accepted/refused answer of an otherwise valid fulfilment is asserted equal to (slot < now and oracle not among the callback accounts), both directions.",
"C11": "One purge of a symbolic queue at a symbolic slot; the result is compared with the model filtered by age, fees summed by stored priority.",
"C12": "Inductive step: queue lamports >= rent + fees of the live records is assumed, and asserted after each kind of transaction; honest fulfilment and purge are asserted to succeed.",
"C13": "A registry change with arbitrary program-data bytes and signer; if accepted, the authority read independently from those bytes must be the signer. A valid change is accepted.",
"C14": "One initialization, addition or removal on a symbolic registry with the list compared to a model; record contents, lamports and rent checked.",
"C15": "One InitializeOracleQueue from each growth stage (absent, funded, partly grown blank, arbitrary, initialized) at sizes around the growth step; size, zeroes, rent, count and header compared. And one transaction of anyone else (all 11 instructions) on a part-created queue: it must leave the queue as it is.",
"C16": "One close of a symbolic queue (blank, part-created, initialized, with pending requests); lamports, deletion and the oracle's count compared.",
"C17": "One delegation with symbolic accounts; the recorded calls and the resulting accounts are compared with the expected ones.",
"C18": "One undelegation request, and one completion call with symbolic seeds, buffer and accounts; the recorded calls, derived address and the re-created account compared.",
"C19": "process_instruction with symbolic short data and wrong shapes must return an error and change nothing.",
"C20": "Encoders and decoders run on symbolic values and on symbolic bytes; decode(encode(v)) = v and encode(decode(b)) = b.",
"C21": "The SDK's builder output is decoded into a transaction and run through the program; the stored request is compared with the builder's parameters.",
"C22": "A whole life of an oracle is run through the program with the instructions the API's builders return and only the documented signers; the final state is compared.",
"C23": "Bounds: asserted for every pair of bounds and all 32 random bytes. Uniformity of a range: a permutation of the inputs (each byte rotated within its block, rejected bytes kept) is asserted to move every outcome to the next one, which makes all outcomes equally frequent. Full-width helpers: asserted linear over GF(2) for symbolic arguments, with full rank.",
"C24": "compute_vrf and both verifiers run on symbolic identity and input over the stand-in group; acceptance and output = sk*H(input) asserted.",
"C25": "Both verifiers run on the same symbolic bytes; answers asserted equal.",
"C26": "Two accepting answers for the same commitments with different challenges; output asserted to be the one determined by key and input. Binding: the challenge digests of proofs that differ in any one component are asserted different.",
"C27": "Two proofs under different keys or inputs; the nonce (recovered in the stand-in algebra from the commitment) is asserted different and not among the published or key values; the hash is an injective uninterpreted function, so a nonce that ignores part of its input is equal for two inputs and is found.",
"C32": "The output is compared with the multiples of the public key by scalars computable from public values. It is equal to one of them: the known finding.",
"C28": "The service runs over a chain holding the real program: what it submits is executed by process_instruction in the stand-in runtime and must be accepted; the harness's `send` judges payer, signers and instruction. Failing attempts are solver choices.",
"C29": "The node's `send` knows which requests are pending, worked on and confirmed, and asserts each submission is allowed; contents, answers and, at every acquisition of a shared table, the task that runs next are symbolic choices. A lock taken twice by one task, or a state with no runnable task, is a violation.",
"C33": "Faults are solver choices in the node's stand-in; eventual submission for the pending request within a minute of virtual time asserted.",
"C34": "Foreign accounts are shown to the service before its own; any submission for them is a violation, and the own queue must still be served. The filters the service passes to the node are applied by the stand-in node.",
"C35": "The node's blockhashes are numbered by virtual time; the age of the one in each submission is asserted to be at most a minute.",
"C31": "A sample program with three account structs (nothing, some, all of the helper's accounts declared) is compiled with the real attribute macro and real anchor under both feature sets. Its validation runs on genuine and on arbitrary accounts; the call it makes is recorded, checked, and then executed by the real VRF program with exactly the privileges the runtime rules leave it.",
"C39": "The real program fulfils a request of program X; every signature in the call it makes is handed, as the runtime would let X do, to a handler guarded as the SDK documents (real anchor validation) in X and in another program Y: it must run in X and not in Y. It does run in Y: the known finding.",
"C30": "The helpers run on symbolic keys; the address derived (seeds and program id recorded by the injective stand-in of the derivation) is asserted equal to the one derived from the delegation program's documented seeds.",
"C36": "The published numbers are compared with those computed by the harness from the history. In harness/service the real main function starts the statistics server; a stand-in of hyper's server hands requests (real http types) to the real handler, and the JSON it returns is parsed and compared.",
"C37": "The tool's real main function runs on option values the harness supplies; the transaction it sends is executed by the real program in the stand-in runtime, all instructions or none; registry, records, queues and CPIs are compared with what the command says. Printed values are recorded before formatting.",
"C38": "The service's real main function runs with every combination of options; identity, addressed servers, subscriptions, preflight flag and server address are recorded by the stand-ins and compared.",
}

HEAD = """# Solver-based checking of ephemeral-vrf

One technique decides every property: the functions of /repo are compiled from the current tree to LLVM IR, executed
symbolically, and every assertion, memory access and panic on every path is decided by Z3 for all values within the
bounds. This file says how, per property at the end; `properties.jsonl`, `MANIFEST.json` and the last section here are
written by `gen.py` from `props.py`, `checks.py` and `design.py`.

## How a check runs

`python3 run.py Cxx [--tier quick|thorough]`

1. `engine/build.sh` and `harness/build.sh CRATE` rebuild the engine and the harness crates the property needs against
   /repo's working tree (path dependencies; build output in /verif/target, nothing is written to /repo). Each harness
   crate is a cdylib compiled once to LLVM IR (fat LTO, `--emit=llvm-ir`) and to a native shared object.
2. `symir` (engine/) executes each harness entry over that IR: byte-precise memory with object bounds, bit-vector
   expressions with a simplifier, path forking at symbolic branches, pointers and sizes concretized by enumerating all
   feasible values (never sampling), Z3 (QF_BV, incremental) for feasibility and assertions. Unknown answers,
   timeouts, unsupported instructions and exhausted bounds are errors (exit 2), never silence. Large entries are
   divided by path-prefix hash in up to 8 parts that run in parallel (`--part i/n`); the union is the whole.
3. Every assertion is decided on each path as `path condition and not assertion`; a model is a counterexample. Before
   it is reported it is replayed natively (`symreplay` loads the shared object and feeds the same inputs); only a
   reproduced one is a VIOLATION (the replay file is what `replay=` names). A memory access outside an object that does
   not trap is confirmed under valgrind. Counterexamples that rest on a choice of uninterpreted functions no real
   input has are first re-solved with real values of those functions.
4. A sample of explored paths is solved for inputs and replayed natively; results, observations and reached marks must be
   the same as in the encoding, otherwise there is no verdict (exit 2). This is the check on the engine's own semantics.
5. Each entry lists `cover` marks it must reach; a missing one is an error (a vacuous run is never a pass).
6. `evidence/Cxx.json` gets functions encoded, bounds, paths, instructions, queries and solver time.

Assertions are attributed to properties (`ids=` in checks.py), because one transaction decides several; panics and
memory faults belong to every property whose entries reach them.

## What is real and what stands in

Real: all of program/, api/, sdk/, vrf/, vrf-cli's main.rs and vrf-oracle (main, args, client, processor, sources, blockhash_cache, utils),
with bytemuck, steel, borsh and std as compiled. Stand-ins, each listed as an assumption in the evidence:

* harness/prog/src/world.rs: the Solana runtime. Serialized input, account-lock rules, rent, system program, privilege checks on
  CPI, lamport conservation, sysvars, return codes. The program is compiled with `target_os="solana"`, so its
  syscalls are the harness's; compute and heap limits are not modelled.
* sha256, HKDF, address derivation: uninterpreted, collision-free functions (real values for concrete arguments).
* Curve: a module over small rings with the algebra of scalar multiplication. Soundness and completeness are checked as
  algebra; hardness is out of reach of this technique and is not claimed.
* Oracle service: tokio (cooperative scheduler whose choices are the solver's, virtual clock), RPC and gRPC clients (a
  node whose answers are the solver's), base64/base58 account decoding through stand-in types, logging compiled out. The code of the
  service itself, including its async state machines as rustc lowers them, is executed. Its request ids, addresses
  and blockhashes are fixed, since it writes them out as text.
* Formatting of text (`fmt`) in the program crates is cut off: a log message's text is not part of any property.

## Environment limits met

An own engine rather than Kani: the claims are about whole transactions (serialized account input, bytemuck casts,
vectors of symbolic content inside accounts) and about async state machines with a scheduler; a layout-concrete,
content-symbolic executor over the IR that rustc actually emits keeps those tractable and makes native replay of every
counterexample direct. Addresses, lengths and layouts become concrete per path by enumerating all
feasible values; contents stay symbolic. h_vrf_sound keeps one component of the stand-in group symbolic (with all of them Z3 did not finish in
3000 s; the components are independent and the equations linear).

## Not decided

See not_applicable in MANIFEST.json.

## Defects found

Repaired in /repo (each entry's check reports it again if it returns):

* C23 `2a4e6f0`: `random_u8_with_range(bytes, 0, 255)` overflowed (panic, or division by zero without overflow checks).
* C05 `c0109d1`: a request into a part-created queue was accepted and its fee lost when the queue was completed.
* C06 `bc453ad`: two pending requests could get the same id: the index mixed into the id was the header's current hint,
  which repeats when a request is removed in the same slot.
* C16 `5ef4a5f`: closing a part-created queue lowered the open-queue count although only completion raises it.
* C37 `8859d4b`: `close-oracle-queue --queue Q` closed the signer's own queue of Q's index when Q was another oracle's queue.
* C30 `be1fd41`: five of the SDK's delegation address helpers derived under the VRF program's id.
* C33 `07001ca`: the service ended in a panic when its node refused the first blockhash request.
* C18 `fd2dd52`: an undelegation was completed from any blank account assigned to the delegation program, so that anyone
  could create blank accounts at the program's addresses (a blank record blocks an oracle's registration forever).
* C11 `2a2b5fc`: a purge of a part-created queue wrote its header; its creation could then never be completed.
* C29 `e1bee9a`: the service marked a request as taken up before it stored the task's handle; a look in between that found
  the request gone had no task to stop.

Recorded, not repaired (known/findings.txt): C32. hash_to_point multiplies the basepoint by a public scalar, so the
VRF output sk*H(x)*G equals H(x)*pk: anyone computes the randomness from the request id and the oracle's
public key before the oracle answers. The repair is a different hash-to-curve map in the library and in the
program's verifier at once (and within its compute budget), which changes every proof: not small. C39. The identity that
signs callbacks is one address for all programs, so a program called by a fulfilment can hand the signature on to another
program's guarded handler; the repair is an address per callback program, which every consumer has to adopt. C37.
`list-queue` looks at indexes 0 to 19 only; 256 requests to the node per listing is a choice of its authors.

"""

TAIL = """## Planted bugs and what they taught

`seeded/` holds the planted bugs; each is caught by the check of the property in its meta.json (by its quick tier), and:

* C01/C02/C03 queue layout: trim-stops-at-hole, args-limit-shared, lookup-stops-at-256; C04/C05/C06 requests: first-high-priority-recorded-regular,
  any-sysvar-as-slot-hashes; C07..C10 fulfilment: id-prefix-match, callback-accounts-deduplicated, same-slot-fulfilment,
  oracle-in-later-meta, args-only-after-discriminator, late-priority-pays-regular, stale-fulfilment-refused; C11: purge-collects-then-removes; C13..C15: revoked-authority-still-read, registry-binary-search,
  queue-counted-per-growth-step; C22, C23: one-growth-step-too-many, u64-low-bits-biased; C26, C27: challenge-omits-output,
  nonce-ignores-input-tail; C29: tables-per-identity; C33..C36: stream-trusts-any-owner, periodic-look-ends, failed-refresh-counts, average-forgets-the-old, drained-size-stays;
  C37: list-ends-at-gap; C38: purges-skip-preflight.
* Besides them, about 150 small mutants of every source file were run against the checks in five campaigns. What was
  missed at first and is caught since: an average that is wrong from the third answer on (C36: h_oracle_means); the slot
  of a gRPC update (C36 over both sources); a stale slot with a fresh blockhash (C35); duplicate callback accounts (C08:
  h_prov_repeated); argument sizes lost in the SDK (C21: h_sdk_request_large); a hash-to-point that ignores the input in
  both verifiers alike (C25, by honest proofs); a task whose request left between two looks (C29: h_oracle_race_gone, which
  also found the defect above); faults that need many requests or many oracles (the *_many entries); callback lists cut
  short in the service (C28: h_oracle_answer_large); tables shared between an oracle's queues (C29: h_oracle_two);
  fees paid out of the default queue, whose counterexamples could not be replayed (the stand-in for the address function now
  gives one oracle that queue); arguments lost without a discriminator (C08: more shapes); a lookup that gives up after
  256 requests (C01: h_queue_find_many); a refusal of late but honest fulfilments (C10 owns refusals now); a latency that
  is cut to a byte (C36: h_oracle_means).
* Mutants judged equivalent: a changed log text, a read-only account passed as writable, reordered independent checks.
* A mutant that makes the attribute macro's output fail to compile for every user yields no answer (exit 2) from C31.

Two campaigns of behaviour-preserving edits (helpers extracted, loops rewritten, statements reordered, early returns,
different containers) were run against all checks: the first left C25 without an answer (the two verifiers multiplied in
another order; the stand-in group's products are now abstracted), the second none. Checks judge accounts, transactions
and submissions, never calls of internal functions; harnesses name public items only.

## Limits

* C29: a stale look at the queue (fetched before an update, processed after it) can stop the task of a request that is
  still pending, or start one for a request that has left; the next look corrects both. What the node confirmed is
  taken as final: after a fork that undoes it the service would not answer that request again.
* C17, C18: the delegation program's own code is not in the repository; its calls are recorded, not executed.
* C15, C22, C37: that the transaction which creates a very large queue fits into a packet and the compute budget is
  outside; so are the compute limits of every instruction.
"""
