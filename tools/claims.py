CLAIMED.update({
 "N01": (T_BOTH, "Amounts.tla over exact integers (BigNum.tla): all pairs of boundary values, random values at the bounds"),
 "N02": (T_BOTH, "Decimals.tla: all short texts, all boundary mantissas and decimal counts, random texts and amounts"),
 "N03": (T_BOTH, "WideInts.tla for 128/256/512 bits: all pairs of boundary values, random words"),
 "N04": (T_BOTH, "Values.tla: all sizes and boundary mantissas of compact targets, all per-thousand rates, boundary heights, times, fractions"),
 "N05": (T_BOTH, "Texts.tla: bech32m with all single changes of sample texts, small strings exhaustively, random prefixes and data"),
})
CLAIMED.update({
 "I01": (T_BOTH, "Scripts.tla: interpreter as a state machine, all programs of six families (single opcodes on all stack shapes, pairs of stack operations, arithmetic at bounds, branches, signature checking, limits), random programs, witnesses and standard forms"),
 "I02": (T_BOTH, "Scripts.tla: all short byte strings, builder sequences, boundary numbers and mutated standard forms; random scripts"),
 "S01": (T_BOTH, "Storage.tla: all operation sequences over key families with prefix and 0xff edges on both backends, random histories"),
 "S02": ("trace validation against a TLA+ specification of crashes: every crash point of recorded workloads", "Storage.tla with crash transitions: the process is ended before every file change of a workload (also with torn writes, lost unsynced writes, and again during recovery) and TLC checks what is found after reopening"),
 "S03": (T_BOTH, "StorageConcMC.tla: all schedules of 3 threads with predicted waiting replayed; StorageConc.tla: logs of free-running threads validated as serializable"),
})
CLAIMED.update({
 "U01": (T_BOTH, "Broadcasts.tla: all histories of 3 subscribers and 3 events; random histories, and events received by readers on other threads"),
 "U02": (T_BOTH, "EventHandlers.tla and Counters.tla: all histories of publish, subscribe and wait; logs of free-running threads validated"),
 "U03": (T_BOTH, "Graphs.tla: all graphs of 3 nodes (4 in the thorough tier) with all lists of start nodes, random larger graphs"),
 "U04": (T_BOTH, "Blooms.tla: all insertion histories over small filters, random histories with real sizes, rate of false reports"),
 "U05": (T_BOTH, "Holders.tla: all histories of flag, destructor and array; every operation of the 8-bit and boolean atomics on boundary values; random values for the others"),
})
CLAIMED.update({
 "K01": (T_BOTH, "Paths.tla: all path texts and byte strings of small shapes; KeyTrees.tla: symbolic derivation trees, all histories of private and public derivation; random paths and trees"),
 "K02": (T_BOTH, "Seals.tla: symbolic encryption, all histories of alterations and attempts to open, key agreement between three parties, password hashing with altered parameters; random histories"),
 "K03": (T_BOTH, "Sigs.tla: symbolic signatures and VRF proofs, all histories of alterations and checks; random messages, transcripts and alterations; encodings at the bounds of field and group orders"),
 "K04": (T_BOTH, "Hashing.tla: stream hashers as machines over byte runs, all histories of writes, finalizations and resets; random histories; digests interpreted by an independent implementation"),
})
CLAIMED.update({
 "M01": (T_BOTH, "Subsystems.tla: event specification of calls, refined by an implementation model (SubsystemsMC); TLC enumerates all short lists of calls to one subsystem; random lists and logs of free multi-threaded runs validated"),
 "M02": (T_BOTH, "Managers.tla: start, shutdown, early exit, panic and overrun of up to 3 subsystems: all histories replayed with controlled subsystems"),
 "R01": (T_BOTH, "Access.tla with symbolic secrets: all settings with all forms of credentials; all histories of starts, stops, crashes and files left by others; random credentials and near misses over HTTP and websocket and by the provided clients"),
 "R02": (T_BOTH, "RpcTexts.tla: all short byte strings over the classes of UTF-8, all short texts near hexadecimal, all combinations of text and hexadecimal; random strings"),
 "R03": (T_BOTH, "Addrs.tla: grammar of IPv4, IPv6 and names with ports; all arrangements of pieces; all boundary values shown and read back; random texts with changes"),
 "R04": (T_BOTH, "Subscriptions.tla: all histories of small numbers of connections, subscriptions, events, unsubscriptions and disconnects over a real websocket; random histories and bursts to slow readers"),
})
CLAIMED.update({
 "L01": (T_BOTH, "Utxos.tla over Layers.tla: all histories of transactions, rewards, single additions and removals, undo, and views pushed, flushed and dropped; random worlds of transactions with double spends over in-memory and database-backed bases"),
 "L02": (T_BOTH, "Pools.tla over Layers.tla: all histories of pool and delegation operations and rewards, with undo and up to 3 views; conservation checked by TLC; random histories with wide amounts over three bases"),
 "L03": (T_BOTH, "Tokens.tla over Layers.tla: all histories of issuance, supply, freezing and authority operations, with undo and views; random histories with wide amounts"),
 "L04": (T_BOTH, "Orders.tla over Layers.tla: all histories of creation, fills, freezing and conclusion under both price rules, with undo and views; random histories with wide amounts"),
})
CLAIMED.update({
 "L05": (T_BOTH, "Chains.tla: chainstate as a state machine over trees of blocks with ledger effects; TLC enumerates all trees, flaws and orders of processing, invalidation and revival in the bounds; random histories with real transactions, staking and epochs, storage compared with a fresh node"),
})
CLAIMED.update({
 "L07": (T_BOTH, "Funds.tla over Pools, Tokens and Orders: all transactions of up to 2 (thorough: 3) inputs and 2 outputs from menus of all kinds of inputs and outputs, under both generations of rules and three maturities, with conservation checked by TLC; random transactions with wide amounts in random worlds"),
})
CLAIMED.update({
 "L06": (T_BOTH, "Spends.tla: what each input asks for, what a signature covers, when locks open; TLC enumerates all kinds of outputs and commands with all kinds of witnesses, all changes of transaction and ledger between signing and checking under all modes, all locks around their limits, and all steps of collecting signatures; random multi-input transactions"),
})
CLAIMED.update({
 "L08": (T_BOTH, "Targets.tla: both retargeting rules, work and stake verdicts, effective balances, trust; TLC checks limits and factors over chains with times, targets and heights around every bound; random chains and numbers"),
 "L13": (T_BOTH, "Emission.tla: rates, supplies and texts; TLC checks that the supply grows by the rates only and reaches a final supply exactly over all small schedules; random schedules, heights, texts and block spacings"),
})
