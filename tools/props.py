#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- ledger overlays
p("A01", "Stacked ledger deltas are equivalent to applying the changes directly",
  "Any sequence of record creations, modifications and deletions collected in a stack of overlays yields, once the overlays are flushed downwards in order, exactly the record state that applying the same changes directly would give. "
  "A change that contradicts the recorded state (creating a record that exists, modifying or deleting one that does not, or following on from a previous value other than the recorded one) is refused with the error for that conflict and is never silently applied.",
  ["histories", "inputs"], "every history of create/modify/delete/merge/flush operations over any keys, values and overlay depth",
  "Unit tests sample a table of two- and three-step combinations with fixed values; the guarantee is about arbitrary interleavings of merges across several layers.",
  ["accounting/src/delta/delta_data_collection/mod.rs", "accounting/src/delta/combine.rs"],
  [("delta combination table", "accounting/src/delta/delta_data_collection/mod.rs"), ("combine data with delta", "accounting/src/delta/combine.rs")],
  ["collection contents after each operation", "returned error kind"])
p("A02", "Undoing a merged ledger change restores the exact previous state",
  "The undo information returned when a change or a whole set of changes is merged restores, when applied in reverse order of the merges, exactly the pending changes and records that existed before the merge. "
  "This holds for every key independently, whatever mixture of creations, modifications, deletions and earlier undos led to the state.",
  ["histories", "inputs"], "every history of merges followed by undos in reverse order, over any keys and values, including undos merged through further overlays",
  "Tests check single merge/undo pairs and one random round trip; composition of undos across layers and after cancelling operations is unbounded.",
  ["accounting/src/delta/delta_data_collection/mod.rs", "accounting/src/delta/delta_data_collection/undo.rs", "accounting/src/delta/delta_amount_collection.rs"],
  [("undo of delta maps", "accounting/src/delta/delta_data_collection/undo.rs")],
  ["collection contents before the merge vs after the undo"])
p("A03", "Accumulated balance changes are exact and overflow is refused",
  "Deposits and withdrawals recorded per account and merged through any number of overlays add up to the exact integer total per account, and an account whose changes cancel out leaves no pending change. "
  "A total, a resulting balance or a conversion that does not fit its range (overflow, or a balance below zero) is reported as an error and never wraps or saturates.",
  ["histories", "inputs"], "every sequence of signed and unsigned balance changes, overlay merges and undos, including values at the edges of the representable range",
  "Tests use small sums and a few literal limits; the guarantee quantifies over all 128-bit values and orders of merging.",
  ["accounting/src/delta/delta_amount_collection.rs", "accounting/src/delta/combine.rs", "common/src/primitives/amount/signed.rs", "common/src/primitives/amount/mod.rs"],
  [("checked signed addition and removal of zero sums", "accounting/src/delta/delta_amount_collection.rs"), ("balance + delta", "accounting/src/delta/combine.rs")],
  ["sum per key after each merge", "balance after combining", "error on overflow"])

# ---------------------------------------------------------------- storage
p("S01", "Database transactions are atomic, isolated and ordered on every backend",
  "Writes made in a transaction are visible to reads in the same transaction at once and to later transactions only if it is committed; a transaction that is dropped without commit leaves no trace. "
  "Point reads return the last value written for that map and key, deletions remove exactly that key, different maps never interfere, and prefix scans and scans from a lower bound return exactly the matching entries in ascending byte order of keys. "
  "The in-memory and the SQLite backend give the same answers.",
  ["histories", "inputs"], "every history of read/write transactions with put, delete, get, prefix and range scans, commits and aborts over any keys, including empty, 0xFF-filled and prefix-overlapping ones",
  "The backends' own generic test-suite is not part of the stable tests, and it samples a few histories and keys; ordering and prefix edges are over all byte strings.",
  ["storage/core/src/adaptor/locking.rs", "storage/inmemory/src/lib.rs", "storage/sqlite/src/lib.rs", "storage/sqlite/src/queries.rs"],
  [("locking transaction adaptor with undo on drop", "storage/core/src/adaptor/locking.rs"), ("sqlite transactions and queries", "storage/sqlite/src/lib.rs")],
  ["get/scan results within and after transactions"])
p("S02", "Committed data survives restarts and crashes, uncommitted data never does",
  "After the SQLite database file is closed and reopened, or its process is killed at any moment, the content is exactly the result of the transactions whose commit had returned, possibly plus the one whose commit was in progress as a whole; with syncing enabled this holds for a power failure as well. "
  "No partial transaction, lost committed transaction or mixture of the two is ever observed after reopening.",
  ["crash_points", "histories"], "every kill point during a history of committed and aborted transactions",
  "No existing test reopens the SQLite database or kills a writer.",
  ["storage/sqlite/src/lib.rs", "storage/sqlite/src/queries.rs"],
  [("explicit BEGIN/COMMIT/ROLLBACK on a file database", "storage/sqlite/src/lib.rs")],
  ["database content after reopening"])
p("S03", "Concurrent database transactions behave as if run one at a time",
  "Transactions started from several threads on the same database observe states consistent with some serial order of the committed writers: a read transaction sees one committed state for its whole life, and no committed update is lost or partially visible. "
  "Writers exclude each other, while a reader never blocks another reader.",
  ["schedules"], "every schedule of concurrently started read and write transactions",
  "The concurrency tests of the backends are not in the stable suite and exercise two fixed schedules.",
  ["storage/core/src/adaptor/locking.rs", "storage/inmemory/src/lib.rs", "storage/sqlite/src/lib.rs"],
  [("read-write lock around the in-memory tree", "storage/core/src/adaptor/locking.rs"), ("single shared connection and transaction mutex", "storage/sqlite/src/lib.rs")],
  ["reads of concurrent transactions and the final content"])

# ---------------------------------------------------------------- subsystems
p("M01", "Subsystem calls are executed in order, exactly once and without data races",
  "Every call submitted to a running subsystem is executed exactly once, modifying calls in the order of submission and read-only calls after all modifying calls submitted before them, and its result goes to the caller that submitted it, also when that caller has gone away. "
  "A call that may modify the subsystem, and a unit of its background work, never overlaps any other call. A call that the shutdown overtakes is reported as lost and not executed, and a call submitted after the subsystem has stopped fails instead of hanging or being executed.",
  ["schedules", "histories"], "every interleaving of callers, read-only calls, modifying calls, background work and shutdown",
  "Tests run a handful of fixed call patterns under one scheduler order.",
  ["subsystem/src/manager/manager_impl.rs", "subsystem/src/task.rs", "subsystem/src/calls"],
  [("action queue and worker loop", "subsystem/src/task.rs"), ("submission of calls and answers", "subsystem/src/calls/handle.rs")],
  ["start/end events of calls, call results"])
p("M02", "Shutdown stops all subsystems in reverse order of registration",
  "When shutdown is requested, by a trigger or because any subsystem terminates on its own (a failed initialization or a panic), every registered subsystem is told to stop, and the manager finishes only after all of them have ended or overrun the configured time. "
  "Subsystems are stopped one after another in the reverse order of their registration, so a subsystem can use those registered before it until its own shutdown has completed; a panic of a subsystem is passed on by the manager after that.",
  ["schedules", "configurations", "fault_sequences"], "every set of registered subsystems, every order and time of self-termination and shutdown requests",
  "Tests cover at most a few subsystems and one trigger each.",
  ["subsystem/src/manager/manager_impl.rs", "subsystem/src/manager/shutdown_signal.rs", "subsystem/src/task.rs"],
  [("reverse-order shutdown with per-subsystem channels", "subsystem/src/manager/manager_impl.rs")],
  ["order of shutdown completions"])

# ---------------------------------------------------------------- script
p("I01", "The script interpreter gives the verdict that the script semantics define",
  "For every script and initial stack, execution ends with exactly the stack, or exactly the kind of failure, that the opcode semantics define, including nested and non-executed conditional branches, alternate-stack use, numeric operands and verification opcodes. "
  "Execution always terminates without panicking, and the limits on script size, element size, stack depth, number of keys and number size are enforced exactly at their bounds.",
  ["programs", "inputs"], "every script (well-formed or not) and every initial stack",
  "Tests run a few dozen hand-written scripts; the big vector file is not even available here.",
  ["script/src/interpreter.rs", "script/src/interpreter/stack.rs", "script/src/opcodes.rs", "script/src/script.rs"],
  [("interpreter main loop", "script/src/interpreter.rs")],
  ["final stack or error kind"])
p("I02", "Script construction and parsing are inverse, and numbers are canonical",
  "A script assembled from pushes and opcodes parses back to exactly that sequence, with every push using the shortest encoding when minimality is asked for, and truncated or non-minimal pushes are rejected when strict parsing is used. "
  "Every integer encodes to its unique minimal form and decodes back to itself; encodings longer than allowed are refused, the classification of standard script forms accepts exactly those forms, and the assembly text of a script shows exactly its instructions.",
  ["inputs", "programs"], "every sequence of pushes and opcodes, every byte string and every integer",
  "Tests use a few literals around the interesting boundaries.",
  ["script/src/script.rs", "script/src/opcodes.rs"],
  [("builder and instruction iterator", "script/src/script.rs"), ("script integers", "script/src/script.rs")],
  ["instructions parsed from built scripts", "decoded integers"])

# ---------------------------------------------------------------- crypto
p("K01", "Hierarchical key derivation is deterministic and consistent",
  "Deriving the same path from the same seed always gives the same key, deriving in several steps equals deriving the concatenated path at once, and for non-hardened steps deriving from the public key gives the public half of the derived private key; a hardened step from a public key is refused. "
  "Derivation paths print, parse and encode losslessly, malformed or overlong paths are rejected, and a key can only be derived to paths that extend its own.",
  ["inputs", "histories"], "every seed, every path of hardened and normal steps and every split of it into derivation steps",
  "Tests compare a few published vectors.",
  ["crypto/src/key/hdkd", "crypto/src/key/secp256k1/extended_keys.rs", "crypto/src/key/extended.rs", "crypto/src/vrf/mod.rs", "crypto/src/vrf/schnorrkel/mod.rs"],
  [("child derivation", "crypto/src/key/secp256k1/extended_keys.rs"), ("path-checked derivation", "crypto/src/key/hdkd/derivable.rs"), ("path parsing", "crypto/src/key/hdkd/derivation_path.rs")],
  ["derived keys, paths, errors"])
p("K02", "Only the right key and context recover encrypted data, and only if untampered",
  "Data encrypted with a key and associated data is recovered exactly by decrypting with the same key and associated data, and by nothing else: a different key, different associated data, or any modification or truncation of the ciphertext is an error. "
  "No two sealed texts look the same, even of the same message. Key agreement gives both ends the same secret and no other pair that secret, and a password is accepted by verification, or re-derives the same key, only if it is the original one with the original parameters.",
  ["inputs", "histories"], "every key, message, associated data, password and every bit flip or truncation of the ciphertext",
  "Tests tamper with a few bytes of a few messages.",
  ["crypto/src/symkey", "crypto/src/ephemeral_e2e", "crypto/src/kdf", "utils/src/maybe_encrypted.rs", "crypto/src/util/eq.rs"],
  [("authenticated encryption", "crypto/src/symkey/chacha20poly1305/mod.rs"), ("key exchange", "crypto/src/ephemeral_e2e/mod.rs"), ("password hashing", "crypto/src/kdf/mod.rs")],
  ["decryption results"])
p("K03", "Signatures and VRF proofs verify exactly for their key and message",
  "A signature or VRF proof verifies against the public key of the signing key and the signed message or transcript, and against no other key, message or altered signature or proof; the VRF output is a function of key and transcript only, and the verifier obtains the same output as the prover. "
  "(A signature key is identified by the x coordinate of its point: the key with the opposite point verifies the same signatures. Attaching a number to a transcript is attaching its eight little-endian bytes.) "
  "Keys, signatures and proofs convert to bytes and back without loss, and byte strings that are no valid encoding are rejected.",
  ["inputs"], "every key pair, message, transcript and every alteration of signature, message, proof or key",
  "Tests check random samples of unrelated messages and keys, not systematic combinations.",
  ["crypto/src/key/mod.rs", "crypto/src/key/signature/mod.rs", "crypto/src/key/secp256k1/mod.rs", "crypto/src/vrf"],
  [("schnorr signing over a message digest", "crypto/src/key/secp256k1/mod.rs"), ("vrf", "crypto/src/vrf/schnorrkel/mod.rs")],
  ["verification verdicts"])
p("K04", "Streaming hashing equals hashing the concatenation at once",
  "For every supported hash function, feeding data in any sequence of pieces gives the digest of the concatenated data, and after finishing or resetting, the hasher behaves like a new one. "
  "Message authentication tags and hashes computed through different entry points agree, and comparison of secrets answers equality exactly.",
  ["inputs", "histories"], "every byte string, every way of splitting it and every sequence of write, reset and finalize",
  "Tests check a few literals and one split.",
  ["crypto/src/hash.rs", "crypto/src/util/eq.rs"],
  [("stream hasher", "crypto/src/hash.rs")],
  ["digests"])

# ---------------------------------------------------------------- numbers
p("N01", "Amounts are exact and never wrap",
  "Every operation on coin amounts, signed or unsigned, gives the exact mathematical result, or reports that there is none when it leaves the representable range or divides by zero; no arithmetic operation wraps, saturates or panics, and bitwise operations and shifts act on the 128-bit representation. "
  "Conversions between the signed and the unsigned form succeed exactly when the value is representable.",
  ["inputs", "histories"], "all operand values, in particular at the limits of the 128-bit ranges",
  "Tests use a few literals per operation.",
  ["common/src/primitives/amount/mod.rs", "common/src/primitives/amount/signed.rs"],
  [("checked arithmetic", "common/src/primitives/amount/mod.rs")], ["results"])
p("N02", "Decimal amounts parse and print without loss",
  "The decimal text of an amount with any number of decimals parses back to the same amount, and parsing accepts exactly the strings that denote a representable non-negative amount with no more precision than the decimals allow. "
  "Changing the number of decimals, removing padding zeros and subtracting decimal amounts keep the exact value or report that it is not possible; no input makes them panic.",
  ["inputs"], "all amounts, all decimal counts and all input strings",
  "Tests check tables of literals.",
  ["common/src/primitives/amount/decimal.rs", "common/src/primitives/amount/mod.rs", "common/src/primitives/amount/rpc.rs"],
  [("decimal parsing and formatting", "common/src/primitives/amount/decimal.rs")], ["parsed values and printed strings"])
p("N03", "Wide integers compute modulo their width and checked operations detect overflow",
  "128-, 256- and 512-bit unsigned integers add, subtract, multiply, divide, shift, compare and combine bitwise exactly as mathematical integers reduced to their width, and the checked and widening variants return the exact result or report overflow or division by zero. "
  "Conversions between widths, to and from machine integers, byte arrays of either byte order and text preserve the value or fail when it does not fit.",
  ["inputs"], "all operand values, shift counts and byte strings",
  "Tests use a few literals per operation.",
  ["common/src/uint/impls.rs", "common/src/uint/mod.rs", "common/src/uint/internal_macros.rs"],
  [("limb arithmetic", "common/src/uint/impls.rs")], ["results"])
p("N04", "Compact difficulty targets, fractions, heights and versions keep value and order",
  "A compact target expands to exactly mantissa times 256 to the exponent offset, is refused when negative or too large, and compacting an expanded target gives its canonical form, never larger than the original. "
  "Fractions, per-thousand rates, block heights and distances, timestamps and versions compare consistently with the numbers they denote, and their text forms and checked arithmetic are exact or fail.",
  ["inputs"], "all encodings and all operand values",
  "Tests cover a few literals and known network targets.",
  ["common/src/primitives/compact.rs", "common/src/primitives/rational.rs", "common/src/primitives/height.rs", "common/src/primitives/per_thousand.rs", "common/src/primitives/semver.rs", "common/src/primitives/time.rs"],
  [("compact conversion", "common/src/primitives/compact.rs"), ("cross-multiplying comparison", "common/src/primitives/rational.rs")], ["results"])
p("N05", "Text addresses and hash texts decode to exactly the data they encode",
  "Bech32m text produced for a prefix and data decodes back to exactly that prefix and data, and a string is accepted only if it carries a valid bech32m checksum over the prefix and data part it decodes to: any single-character error, mixed case, overlong text or wrong checksum variant is rejected. "
  "Hash values and identifiers print to hex text that parses back to the same value, texts of another length or with other characters are refused, and a user agent is accepted exactly when it is short, not empty and printable.",
  ["inputs"], "all prefixes, data and all strings near valid ones",
  "Tests check published vectors and one random round trip.",
  ["common/src/primitives/bech32_encoding/mod.rs", "common/src/primitives/id/mod.rs", "common/src/primitives/user_agent.rs"],
  [("bech32m", "common/src/primitives/bech32_encoding/mod.rs")], ["decoded data"])

# ---------------------------------------------------------------- utils
p("U01", "Broadcast subscribers get every event once and in order",
  "Each live subscriber of a broadcaster receives exactly the events broadcast after it subscribed, each once, in broadcast order, independently of the other subscribers and of how slowly it reads; a subscriber that goes away never disturbs the others. "
  "After the broadcaster is gone a subscriber still receives everything sent before and then sees the end of the stream.",
  ["schedules", "histories"], "every history of subscribe, broadcast, receive, subscriber drop and broadcaster drop, on one or several threads",
  "Two tests cover fixed sequences.",
  ["utils/networking/src/broadcaster.rs"],
  [("unbounded channel per subscriber", "utils/networking/src/broadcaster.rs")], ["received events"])
p("U02", "Deferred event handlers run every event once, in order, and waits really wait",
  "Every event published to an event controller is handed to each handler registered before it, once and in publication order, in registration order of the handlers, and waiting for all events returns only when the handlers of all earlier events have finished. "
  "Waiting for a counter of outstanding work to reach zero returns only when it was zero at some moment of the wait, and does return once it stays at zero; releasing a guard decrements exactly once.",
  ["schedules"], "every interleaving of publishers, handlers and waiters",
  "One test each with a fixed thread pattern.",
  ["utils/src/eventhandler.rs", "utils/src/blockuntilzero.rs", "utils/src/counttracker.rs"],
  [("single worker thread pool", "utils/src/eventhandler.rs"), ("atomic count with condition wait", "utils/src/blockuntilzero.rs")], ["handler invocations and wait returns"])
p("U03", "Dependency traversal lists everything reachable once, dependencies first",
  "Traversing a dependency graph in post-order from one or several start nodes yields every reachable node exactly once and, in an acyclic graph, never a node before the nodes it depends on. "
  "It terminates for every graph, also a cyclic one.",
  ["inputs"], "every finite graph and every list of start nodes, including start nodes that depend on each other or repeat",
  "Tests run on a few fixed graphs.",
  ["utils/src/graph_traversals.rs"],
  [("depth-first post-order iterator", "utils/src/graph_traversals.rs")], ["yielded sequence"])
p("U04", "Probabilistic filters never forget an inserted element",
  "After an element has been inserted into a bloom filter, the filter reports that element as contained until the filter is cleared; in a rolling filter an element stays reported for at least the configured number of later insertions. "
  "After clearing, and before any insertion, nothing is reported as contained, and the share of elements reported without having been inserted stays near the configured one.",
  ["histories", "inputs"], "every sequence of insertions, queries and clears, and every configuration",
  "Three tests insert random sets.",
  ["utils/src/bloom_filters"],
  [("bloom and rolling bloom filters", "utils/src/bloom_filters")], ["contains answers"])
p("U05", "Small state holders never lose or duplicate state",
  "Concurrent-state helpers behave as their sequential description: a set-once flag reports set from the first set on, atomics return the exact previous or resulting value of each operation, cleanup code runs exactly once, and a two-dimensional array returns for each position the last value stored there and refuses positions outside its bounds.",
  ["histories", "schedules"], "every sequence of operations and, for the atomics, every interleaving",
  "Tests run fixed short sequences.",
  ["utils/src/set_flag.rs", "utils/src/simple_atomic.rs", "utils/src/once_destructor.rs", "utils/src/array_2d.rs"],
  [("helpers", "utils/src")], ["results"])

# ---------------------------------------------------------------- rpc / networking
p("R01", "RPC access requires the configured credentials, and cookies do not outlive it",
  "A request is served exactly when it carries the configured user name and password, or the content of the current cookie file in cookie mode, or when authentication is switched off; every other request is refused. "
  "In cookie mode each start creates a fresh secret in a file only its owner can read and removes that file on shutdown, and contradictory or malformed authentication settings are refused at start.",
  ["configurations", "histories", "inputs"], "every authentication setting and every start, request, restart and stop history",
  "Tests cover a few header values on one server start.",
  ["rpc/src/rpc_creds.rs", "rpc/src/rpc_auth.rs", "rpc/src/lib.rs"],
  [("basic auth validation layer", "rpc/src/lib.rs"), ("cookie file", "rpc/src/rpc_creds.rs")], ["HTTP status of requests", "cookie file"])
p("R02", "RPC text and hex values round-trip, and ambiguous values are refused",
  "Text and hex-encoded byte values convert to the wire form and back without loss, and a value whose text and hex representations disagree or that is not valid hex is refused.",
  ["inputs"], "all strings and byte strings",
  "Tests check a few literals.",
  ["rpc/types/src"],
  [("string wrapper types", "rpc/types/src")], ["decoded values"])
p("R03", "Network addresses parse and print consistently",
  "A socket or network address with a port, with an optional port or without one prints to text that parses back to the same address, the default port is used exactly when none is given, and a malformed host, address or port is rejected.",
  ["inputs"], "all addresses and strings",
  "Tests check a few literals.",
  ["utils/networking/src/ip_or_socket_address.rs", "utils/networking/src/network_address.rs", "utils/networking/src/resolvable_name.rs"],
  [("address parsing", "utils/networking/src")], ["parsed values"])
p("R04", "RPC event subscriptions deliver every event in order until either side ends",
  "A remote subscriber receives each event broadcast after its subscription was accepted, once and in order and after the filter or mapping of that subscription, until it unsubscribes, disconnects or the source ends. "
  "One slow or disconnected subscriber neither loses events of others nor stops the source.",
  ["schedules", "histories"], "every history of subscriptions, events, unsubscriptions and disconnects",
  "Tests subscribe once and read a few events.",
  ["rpc/src/subscription.rs", "rpc/src/lib.rs"],
  [("broadcast to subscription bridge", "rpc/src/subscription.rs")], ["events received by a websocket client"])

# ---------------------------------------------------------------- core ledger
p("L01", "The UTXO set follows the connected transactions exactly, and undo reverts it",
  "Across any stack of cached views, spending removes exactly the spent output and only if it is unspent, adding makes exactly that output available, and flushing a view gives its parent the same answers the view gave. "
  "Reverting a transaction or block reward with its undo data restores exactly the outputs present before, and double spends, missing outputs and overwriting additions are refused.",
  ["histories"], "every history of adds, spends, batch writes, undos over any number of layered caches",
  "Tests simulate random walks with weak oracles or check fixed pairs of states.",
  ["utxo/src/cache.rs", "utxo/src/undo.rs", "utxo/src/storage"],
  [("fresh/dirty flags and batch write", "utxo/src/cache.rs")], ["utxo lookups after each operation"])
p("L02", "Staking balances are conserved through pools, delegations, rewards and undo",
  "Creating and decommissioning pools, delegating, withdrawing and rewarding move value between pools and delegations without creating or destroying any, never below zero, and a pool's balance always equals its pledge and rewards plus the sum of its delegations. "
  "Each operation undoes exactly, and layered views flush to the same state as direct application.",
  ["histories"], "every history of staking operations and undos over layered views",
  "Tests run scripted scenarios.",
  ["pos-accounting/src/pool"],
  [("pool and delegation accounting operators", "pos-accounting/src/pool/operations")], ["balances after each operation"])
p("L03", "Token supply rules are never violated and undo is exact",
  "A token's circulating supply equals what was minted minus what was unminted, stays within a fixed limit, and is unchangeable once locked; frozen tokens refuse changes of their supply and data, and unfreezing is possible only if freezing allowed it. "
  "Each operation undoes exactly, and layered views flush to the same state as direct application.",
  ["histories"], "every history of token issuance, mint, unmint, lock, freeze, unfreeze and authority operations with undos",
  "Tests run scripted scenarios.",
  ["tokens-accounting/src"],
  [("token accounting operators", "tokens-accounting/src/operations.rs")], ["token data and supply after each operation"])
p("L04", "Order fills never give out more than was offered, at the agreed price or better",
  "An order gives out in total at most what it offered, each fill gives the price-proportional amount rounded down in favour of the order, what remains to ask and to give always matches the fills so far, and a frozen or concluded order cannot be filled. "
  "Each operation undoes exactly, and layered views flush to the same state as direct application.",
  ["histories"], "every history of order creation, fills, freezing, conclusion and undo",
  "Tests run scripted scenarios.",
  ["orders-accounting/src"],
  [("order operators and price", "orders-accounting/src")], ["order balances after each operation"])
p("L05", "The best chain is the heaviest valid one and state always matches it",
  "After any sequence of valid and invalid blocks arriving in any order, the node's best chain is the valid chain with the most accumulated work that it has seen and that stays within its reorganisation limit, with ties resolved in favour of the one seen first. "
  "The stored ledger state equals that of a node which only ever saw that chain, also after blocks are invalidated, revived or the node is restarted. No refused block changes the state, and a node never fails or corrupts its index because of the order of these events.",
  ["histories", "schedules"], "every tree of valid and invalid blocks, every arrival order and every mix with invalidation, revival and restarts",
  "Integration tests cover particular reorganisations, and cannot be built offline here.",
  ["chainstate/src/detail", "chainstate/storage/src"],
  [("block processing and reorganisation", "chainstate/src/detail/mod.rs"), ("invalidation and revival", "chainstate/src/detail/block_invalidation/mod.rs")], ["verdict on each block", "best block", "stored status of blocks", "stored ledger compared with a node that only saw the best chain"])
p("L06", "Only the right keys, secrets and times spend, over what was signed",
  "An input is accepted only with what its destination asks for: signatures by the named key, by the key of the named hash or by exactly the required number of members of the named set, and for a contract either the secret or the passed refund time. A signature counts only for the input, the covered parts of the transaction and the covered state of the ledger for which it was made. Locks open exactly at their height, time, number of blocks or of seconds, and no lock or witness makes the check fail otherwise than by refusing.",
  ["inputs", "configurations"], "every combination of destination, witness, signing mode, lock, chain and change after signing",
  "Tests check selected combinations.",
  ["mintscript/src", "chainstate/tx-verifier/src/transaction_verifier/input_check", "common/src/chain/transaction/signature"],
  [("script checker", "mintscript/src"), ("signature hashes", "common/src/chain/transaction/signature/sighash")], ["verdicts"])
p("L07", "Inputs cover outputs: transactions cannot create value",
  "A transaction's outputs of each coin or token never exceed what its inputs provide under the rules for their kind, timelocked or staking-constrained inputs cannot leave through unconstrained outputs, and the fee reported is exactly the difference.",
  ["inputs", "histories"], "every combination of inputs and outputs and constraint kinds",
  "Tests check selected combinations.",
  ["chainstate/constraints-value-accumulator/src"],
  [("constrained value accumulation", "chainstate/constraints-value-accumulator/src")], ["fees and errors"])
p("L08", "Mining targets adjust only as the rule says and stay within limits",
  "The target required for the next block depends only on the preceding chain as the retarget rule defines, never exceeds the network limit, and changes by at most the allowed factor per adjustment. A block counts as work or stake only if its hash meets the target, for stake times the pool's effective balance, which never exceeds its balance. The trust a block adds follows from the work or the time slots it shows and is never zero.",
  ["histories", "inputs"], "every chain of timestamps and targets",
  "Tests check selected chains.",
  ["consensus/src", "common/src/chain/chaintrust", "common/src/chain/upgrades"],
  [("stake retarget", "consensus/src/pos/target.rs"), ("work retarget", "consensus/src/pow/work.rs"), ("effective balance", "consensus/src/pos/effective_pool_balance.rs"), ("chain trust", "common/src/chain/chaintrust")], ["targets", "verdicts", "trust"])
p("L09", "The mempool holds only transactions valid on top of the best chain",
  "After any sequence of submissions, new blocks, reorganisations and expirations, the pool's transactions are jointly valid on top of the current best chain, parents come before children in any selection for a block, and size and fee limits hold.",
  ["histories", "schedules"], "every history of submissions and chain changes",
  "Unit tests sample scenarios and cannot be built offline here.",
  ["mempool/src"],
  [("tx pool", "mempool/src/pool")], ["pool content and block template"])
p("L10", "Encoding chain objects is lossless and identifiers commit to content",
  "Every block, transaction and ledger record decodes from its encoding to an equal value, trailing or malformed bytes are rejected, and the identifiers and the merkle root change whenever any committed part of the content changes.",
  ["inputs"], "every encodable value and every mutation of its encoding",
  "Tests compare fixed encodings.",
  ["common/src/chain", "serialization"],
  [("codec and ids", "common/src/chain"), ("merkle tree of a block body", "common/src/chain/block/block_body")], ["decoded values and identifiers"])
p("L11", "Peers are banned, discouraged and limited exactly by the misbehaviour rules",
  "A peer whose accumulated misbehaviour reaches the threshold is disconnected and refused until its ban ends, connection limits hold at all times, and addresses of well-behaved peers stay known.",
  ["histories", "schedules", "fault_sequences"], "every history of connections, messages and time",
  "Tests sample scenarios and cannot be built offline here.",
  ["p2p/src"],
  [("peer manager", "p2p/src/peer_manager")], ["ban and connection state"])
p("L12", "A wallet's balance equals what the chain says it owns, across rescans and reorgs",
  "The wallet's balance, spendable outputs and transaction history depend only on the scanned best chain and pending transactions, not on the order of scanning, restarts or reorganisations in between.",
  ["histories"], "every history of scans, reorganisations, restarts and own transactions",
  "Tests sample scenarios and cannot be built offline here.",
  ["wallet/src"],
  [("account output cache", "wallet/src/account")], ["balances"])
p("L13", "New coins appear only as the emission schedule says",
  "The coins given out up to any height are the initial supply plus, for every block, the rate of the period it lies in; a final supply is reached exactly and never exceeded, and every network uses its published schedule. A schedule written as text reads back equal, and malformed or overflowing schedules are refused.",
  ["inputs"], "every schedule, height and text",
  "Tests check the mainnet schedule at selected heights.",
  ["common/src/chain/config/emission_schedule.rs", "common/src/chain/coin_unit.rs"],
  [("emission schedule", "common/src/chain/config/emission_schedule.rs")], ["subsidies, supplies and texts"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
if __name__ == "__main__":
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for x in P: jsonschema.validate(x, s)
    except ImportError: pass
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        n = x["statement"].count(". ") + 1
        assert n <= 3, (x["id"], n)
    print(len(P), "properties")
