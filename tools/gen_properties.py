#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here in a readable form)."""
import json, pathlib
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

B = "poseidon-base/src/"
C = "poseidon-circuit/src/"

add("C01", "Concurrent hash calls each return exactly their own Poseidon digest",
    "Whatever number of threads hash at the same time, in whatever interleaving and from a cold or a warm process, every call of the two-to-one hash, the variable-length message hash, the constant-length hashes and the permutation returns exactly the value the sequential Poseidon sponge specification assigns to that call's own arguments (inputs, domain or capacity, length). No call's result depends on calls made before it or alongside it.",
    ["schedules", "histories", "inputs"],
    "All interleavings of any number of caller threads; all histories of earlier calls; all field elements, domains, capacities (full 128 bits) and non-empty message lengths.",
    "The unit tests hash a handful of fixed inputs on one thread, one call at a time; concurrency and call histories are never exercised (test_lazy_init only calls the getters twice and discards them).",
    [B+"hash.rs", B+"primitives.rs", B+"params.rs", B+"primitives/p128pow5t3_compact.rs"],
    [("per-call hasher cloned from a process-wide cell", B+"hash.rs: Hashable::hasher / MessageHashable::msg_hasher"),
     ("sponge state owned by value by each call", B+"primitives.rs: Hash::hash, Hash::hash_with_cap, Sponge"),
     ("immutable cached round constants and matrices", B+"params.rs: mod bn254 CONSTANTS")],
    [("INIT (two cells)", "the template hashers, initialised once per process", B+"hash.rs"),
     ("CONSTANTS", "compact round constants, MDS, inverse MDS", B+"params.rs")],
    ["return value of every hash / permute call"])

add("C02", "First use of the shared parameters is race-free and publishes one true value",
    "When several threads make the very first use of the library's lazily built shared parameters (round constants, MDS matrix, inverse MDS matrix, template hashers), through any mixture of entry points and in any order or interleaving, every one of them sees only the complete, final and correct parameters, the same ones for the rest of the process's life. First use never deadlocks and never fails, also when threads are descheduled in the middle of the construction or woken spuriously.",
    ["schedules", "histories", "fault_sequences"],
    "All first-touch orders of the entry points, all interleavings of the constructing and the waiting threads, spurious and interrupted wake-ups of the waiters, bounded stalls of the constructor.",
    "Each test binary initialises each cell once, on whatever test thread comes first; no test races initialisations or compares what two threads saw.",
    [B+"hash.rs", B+"params.rs", B+"primitives/bn256/fp.rs", B+"primitives/bn256/mod.rs", B+"primitives/pasta/mod.rs"],
    [("lazy_static / once_cell one-time initialisation", B+"params.rs, "+B+"hash.rs, "+B+"primitives/bn256/fp.rs, "+B+"primitives/pasta/mod.rs")],
    [("CONSTANTS, ROUND_CONSTANTS, MDS, MDS_INV, INIT", "lazily built process-wide parameters", B+"params.rs, "+B+"primitives/bn256/fp.rs, "+B+"hash.rs")],
    ["params::round_constant / params::mds / CachedConstants / CachedSpec getters", "P128Pow5T3*::constants()", "Hashable::hasher / msg_hasher"])

add("C03", "A failed, interrupted or abandoned call leaves every other call correct",
    "If a call panics part-way (an out-of-range parameter index, a message the sponge refuses, or a panic raised by the caller's own field, S-box, parameter-table or domain code inside a hash), or, once the shared parameters have been built, its thread is stopped for ever at an arbitrary point of a hash, then every other call, concurrent or later, on the same or another thread, still completes and returns the correct digest. Nothing of the unfinished call (partial sponge state, message blocks, capacity) is ever observable in another call's result.",
    ["fault_sequences", "crash_points", "schedules"],
    "All placements of a panic or of a permanent thread stop inside a warm hash or permutation call, in all interleavings with other callers, followed by any further calls.",
    "No test makes a call fail and then keeps using the library; no test abandons a thread inside a hash.",
    [B+"hash.rs", B+"primitives.rs", B+"params.rs"],
    [("no state shared between calls other than immutable parameters", B+"primitives.rs: Hash / Sponge take self by value"),
     ("caller-supplied Spec, CachedSpec, Domain and field types run inside the sponge", B+"primitives.rs: trait Spec, CachedSpec, Domain")],
    None, ["return value of calls that follow or overlap a failed call"])

add("C04", "No hash call ever waits for another caller's unfinished hash",
    "Once the shared parameters have been built, a hash, message-hash or permutation call finishes within a bounded number of its own steps no matter where other callers are stalled, and any set of calls started from a cold process finishes within a bounded number of steps once stalled threads resume. There is no schedule in which callers deadlock, livelock or starve one another.",
    ["schedules", "fault_sequences"],
    "All stall placements (any thread, any point, permanent after warm-up or temporary from cold) and all fair schedules.",
    "Tests run to completion on an unloaded scheduler; none stalls a caller or bounds the steps of another.",
    [B+"hash.rs", B+"primitives.rs", B+"params.rs"],
    [("hash path takes no lock after initialisation", B+"hash.rs: OnceCell::get_or_init fast path; "+B+"params.rs: lazy_static deref")],
    None, ["completion of every call, in scheduler steps"])

add("C05", "Hasher handles are independent values: using one never changes another",
    "A hasher obtained from the library (a fresh one, the shared template, or a clone of either) always stands for the same initial state: hashing with a clone, permuting states through it, sharing it by reference between threads, sending it to another thread or dropping it never changes what it or any other handle computes later. Permuting through a shared handle changes the caller's state array only, and exactly as the Poseidon permutation.",
    ["histories", "schedules", "inputs"],
    "All histories of obtain / clone / share / send / permute / hash / drop over any number of handles and threads, in all interleavings.",
    "The tests use each hasher once and immediately; none reuses, clones or shares one.",
    [B+"hash.rs", B+"primitives.rs"],
    [("Hash is a plain value: permute takes &self, hash consumes self", B+"primitives.rs: struct Hash, Hash::permute"),
     ("template cells hand out clones", B+"hash.rs: INIT.get_or_init(..).clone()")],
    None, ["results of calls through reused, cloned and shared handles"])

add("C06", "Parallel witness synthesis assigns exactly what serial synthesis assigns",
    "For every hash table, capacity, CPU count, worker count and scheduling of the workers, loading the table with parallel synthesis gives the same witness cells, the same fixed and selector cells and the same equality constraints as loading it serially, and it fails (by error or panic) exactly when serial loading fails. The assignment-mode environment variable, a CPU count that cannot be determined or that changes between two queries, and clock jumps have no influence on the assigned circuit.",
    ["schedules", "configurations", "inputs", "fault_sequences"],
    "All table shapes (fixed-length entries, messages of any number of blocks, padding), capacities, CPU counts including unknown and changing ones, worker-pool sizes, and all interleavings of the workers.",
    "One test proves one two-row table in parallel mode with the CPU count of the test machine and a schedule it does not control (and it needs a proving backend that is not available offline).",
    [C+"hash.rs", C+"poseidon/septidon/instruction.rs", C+"poseidon.rs"],
    [("splitting the table into chunks that end with a whole message", C+"hash.rs: SpongeChip::load"),
     ("per-chunk assignment with a shape pass", C+"hash.rs: fill_hash_tbl_body_partial"),
     ("batched permutations in chunks of 8-row blocks", C+"poseidon/septidon/instruction.rs: permute_batch")],
    [("is_first_pass", "whether a chunk closure is in its shape pass", C+"hash.rs, "+C+"poseidon/septidon/instruction.rs")],
    ["cells, selectors and copies recorded by the constraint-system backend"])

add("C07", "Every well-formed hash table is accepted and shows the library's own digests",
    "Loading any well-formed table (entries that fit below the reserved last row) under any synthesis mode, schedule and CPU count satisfies every gate, lookup and equality constraint of the circuit, for both permutation chips. Its exposed rows carry, in order, each entry's inputs, control, domain and head flag, and the digest of that entry or whole message exactly as the hash library computes it outside the circuit; unused rows carry the digest of the zero entry.",
    ["schedules", "configurations", "inputs", "histories"],
    "All well-formed sequences of fixed-length entries (with any domain) and variable-length messages, all capacities above the table size, all row budgets that fit, all modes, CPU counts and worker schedules.",
    "The tests check a few tables of at most three rows and never compare the exposed digest column with the library.",
    [C+"hash.rs", C+"poseidon/septidon/septidon_chip.rs", C+"poseidon/pow5.rs", B+"hash.rs"],
    [("row-by-row sponge trace", C+"hash.rs: fill_hash_tbl_body, fill_hash_tbl_body_partial"),
     ("permutation witness", C+"poseidon/septidon/*.rs, "+C+"poseidon/pow5.rs")],
    None, ["exposed hash table columns (index, inputs, control, domain, head)", "satisfaction of all constraints"])

add("C08", "The circuit's fixed part never depends on the data, the machine or the schedule",
    "For a given capacity and configuration, the fixed columns, selectors, lookup table and permutation wiring produced by synthesis are identical whether the table is empty or full, whatever its contents and message boundaries, whatever the CPU count and worker schedule, and whichever assignment mode is selected. A key generated on one machine from an empty table therefore always fits a proof made on another from real data.",
    ["schedules", "configurations", "inputs"],
    "All pairs (table contents, mode, CPU count, worker schedule) against the empty serial table of the same capacity.",
    "vk_validity compares two tiny tables in one mode on one machine.",
    [C+"hash.rs", C+"poseidon/septidon/instruction.rs", C+"poseidon/septidon/control.rs", C+"poseidon/pow5.rs"],
    [("padding rows to a fixed number of permutations", C+"hash.rs: take(self.calcs)"),
     ("selector on the last row only", C+"hash.rs: s_custom.enable")],
    None, ["fixed cells, selectors and copy cycles recorded by the backend"])

add("C09", "No tampered witness makes the hash circuit accept a false table row",
    "Starting from an honestly synthesised hash circuit, whatever advice cells are flipped, swapped, replayed or forged, and however the rest of the witness is then adapted, either some constraint is violated or every exposed row below the reserved one is still true: its digest is the Poseidon digest of the inputs, domain and capacity shown for that entry or message, message rows are complete and consecutive, the control value counts down by the step to at most one step, and head flags mark exactly the message starts. The reserved last row only ever shows zero inputs and control zero.",
    ["fault_sequences", "inputs", "configurations"],
    "All corruptions of stored or in-flight witness cells, followed by all adaptive repairs of the remaining cells, for both permutation chips and all table shapes.",
    "Every existing test checks that honest witnesses are accepted; none corrupts a witness, so a dropped or weakened constraint is invisible to them.",
    [C+"hash.rs", C+"poseidon/septidon/septuple_round.rs", C+"poseidon/septidon/loop_chip.rs", C+"poseidon/septidon/transition_round.rs", C+"poseidon/septidon/control.rs", C+"poseidon/pow5.rs", "spec/hash-table.md"],
    [("gates and lookup of the sponge table", C+"hash.rs: SpongeConfig::configure_sub"),
     ("permutation gates", C+"poseidon/septidon/*.rs, "+C+"poseidon/pow5.rs"),
     ("equality between table states and permutation states", C+"hash.rs: load, final state dummy region")],
    None, ["exposed hash table columns of any accepted witness"])

add("C10", "The in-circuit permutation and sponge gadgets bind output to input",
    "The in-circuit permutation (both chips, one at a time or in a batch) and the in-circuit constant-length sponge compute exactly the library's permutation and hash for every input, under every scheduling of the batch workers. Whatever witness cells are tampered with and however the rest is adapted, an accepted witness relates the output cells to the input cells exactly as the library does.",
    ["fault_sequences", "schedules", "inputs"],
    "All input values and message lengths, batch sizes, CPU counts and worker schedules; all corruptions of witness cells with adaptive repair.",
    "Gadget tests run honest witnesses on a few inputs; no test tampers with a gadget's witness or batches permutations under a controlled schedule.",
    [C+"poseidon.rs", C+"poseidon/pow5.rs", C+"poseidon/septidon/instruction.rs", C+"poseidon/septidon/septidon_chip.rs"],
    [("round gates, padding constants and copies", C+"poseidon/pow5.rs"),
     ("septuple, transition and loop gates", C+"poseidon/septidon/*.rs"),
     ("gadget sponge", C+"poseidon.rs: Sponge, Hash")],
    None, ["values of the gadget's input and output cells in any accepted witness"])

add("C11", "Any backend failure during synthesis surfaces, and a retry starts clean",
    "If the constraint backend reports an error at any single operation of synthesis (a cell, selector, copy, table or region operation, or running out of rows), in any worker and under any schedule, loading returns an error: it never reports success on a partial circuit, never panics and never hangs the other workers. Loading the same table again with the same chip on a healthy backend then gives exactly the circuit a first load gives.",
    ["fault_sequences", "crash_points", "schedules"],
    "All positions of a failing backend operation, all row budgets, repeated measurement passes, in serial and parallel mode under all worker schedules.",
    "No test injects a failing backend operation or a too-small row budget, or loads twice.",
    [C+"hash.rs", C+"poseidon/septidon/instruction.rs", C+"poseidon/septidon/state.rs", C+"poseidon/pow5.rs"],
    [("error propagation out of every region closure", C+"hash.rs: load; "+C+"poseidon/septidon/instruction.rs: permute, permute_batch")],
    None, ["result of load", "circuit recorded by the backend"])

add("C12", "Hash table building keeps every entry's fields together in any call history",
    "After any sequence of table-building calls (fixed-length entries, message streams with or without an expected digest, the deprecated bulk calls, a table seeded with bare inputs), each entry still has its own inputs, control, domain and expected digest at its own position, and the table reports the right size. A feed whose source panics part-way, or a message whose length does not match its control, leaves the entries already in the table untouched and the table usable.",
    ["histories", "fault_sequences", "inputs"],
    "All sequences of builder calls with any arguments, with the caller's iterators failing at any element.",
    "No test calls the builder methods at all: tests fill the public fields by hand.",
    [C+"hash.rs"],
    [("parallel columns kept aligned by resize-before-push", C+"hash.rs: PoseidonHashTable::fixed_inputs, stream_inputs_with_check, constant_inputs_with_check")],
    [("inputs, controls, domain, checks", "four parallel vectors, missing entries meaning default", C+"hash.rs: PoseidonHashTable")],
    ["effective (inputs, control, domain, check) of each entry"])

add("C13", "A corrupted or oversized hash table is refused, never silently proven",
    "If any stored input, control, domain or expected digest of an entry is altered so that an expected digest no longer matches, loading the table fails in every mode and schedule, and all matching expected digests load. A table with more entries than the circuit's capacity is always refused: no mode ever drops entries and reports success.",
    ["fault_sequences", "configurations", "schedules", "inputs"],
    "All single corruptions of a stored entry covered by an expected digest, all capacities around the table size, serial and parallel modes under all worker schedules.",
    "No test gives a wrong expected digest or an oversized table, in either mode.",
    [C+"hash.rs"],
    [("expected-digest assertion per row", C+"hash.rs: fill_hash_tbl_body, fill_hash_tbl_body_partial"),
     ("capacity assertion", C+"hash.rs: fill_hash_tbl_body / load")],
    None, ["result of load", "rows recorded by the backend"])

# ---- pure functions: no schedule, clock, fault or interleaving -------------------------------
add("C20", "Both permutation specifications equal the Poseidon permutation for every state",
    "For every state of field elements, the standard and the compact specification give the Poseidon permutation (x^5, 8 full rounds, 57 partial rounds on BN254 / 56 on Pallas) defined by the reference parameters, and they agree with each other.",
    ["inputs"], "All states in F^3.",
    "Tests compare them on one or a few fixed states.",
    [B+"primitives.rs", B+"primitives/p128pow5t3.rs", B+"primitives/p128pow5t3_compact.rs"],
    [("round structure", B+"primitives.rs: permute"), ("constant folding", B+"primitives/p128pow5t3_compact.rs: constants")])

add("C21", "Parameter generation follows the reference generator for every specification",
    "For every field, width, number of rounds and MDS selection index, the default generated round constants and MDS matrix are those of the reference Grain-LFSR generator, the MDS is invertible and the returned inverse is its inverse.",
    ["inputs", "configurations"], "All supported fields, widths, round numbers and selection indices.",
    "Tests cover width 3 with selection index 0 on two fields.",
    [B+"primitives/grain.rs", B+"primitives/mds.rs", B+"primitives.rs"],
    [("self-shrinking Grain LFSR", B+"primitives/grain.rs"), ("Cauchy matrix and inverse", B+"primitives/mds.rs")])

add("C22", "Digests separate domains, lengths and modes",
    "Inputs differing in domain, capacity or message words always start the sponge from different states or absorb different blocks, so that equal digests imply a permutation collision; in particular messages that differ only in trailing zero padding differ in capacity when the default capacity is used.",
    ["inputs"], "All pairs of distinct (message, domain or capacity).",
    "Tests check single digests only.",
    [B+"hash.rs", B+"primitives.rs", "spec/hash-table.md"],
    [("length-derived capacity", B+"hash.rs: hash_msg"), ("zero padding", B+"primitives.rs: Domain::padding")])

add("C23", "Feature selection reaches the whole stack consistently",
    "Selecting the short or long chip, or the legacy capacity scheme, on the circuit crate selects the matching behaviour in the hash library, so that the reported block size, the domain factor and the chip in use always agree.",
    ["configurations"], "All feature combinations of the two crates.",
    "Tests run with default features only.",
    ["poseidon-circuit/Cargo.toml", "poseidon-base/Cargo.toml", B+"hash.rs", C+"hash.rs"],
    [("cargo feature forwarding", "poseidon-circuit/Cargo.toml")])

pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text(
    "".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
