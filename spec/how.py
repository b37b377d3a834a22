"""For each property: what is executed, against which oracle, and why that
reaches what tests cannot.  Goes into DESIGN.md."""

HOW = {
    # -- tablet cache ------------------------------------------------------
    "C01": "`DefaultTabletMetadataCache` runs with listings answered by a model of the tablet store whose tablet ids are solver "
    "variables, for queries whose key hashes are solver variables. Oracle: the definition of consistent hashing (the least id that is "
    "not below the key, else the least id), written as a formula over ids and keys, and a count of how often each key is handed out. "
    "Boundaries (key equal to an id, wrap-around, ids on region bounds, 0 and 2^32-1) are thus all decided at once by the solver.",
    "C02": "The same component under sequences of requests, listings answered in any order with any 32-bit status, metadata updates and "
    "conflicts in between; the order is a sequence of solver-decided choices. Oracle: the set of regions each request needs is computed "
    "independently; a request completes in exactly that step in which the last of them has been listed, and the listings requested are "
    "compared with those that anybody still waits for.",
    "C03": "As C02, with versions as 32-bit solver variables. Oracle: per tablet the maximum version handed over so far, with the location "
    "that belongs to it; each resolve is compared with it.",
    "C04": "`DefaultTabletDataCache` under any sequence of load requests and answers. Oracle: a map from blob location to contents, and the "
    "requests sent so far. `h_data_mixed` stores tablets at the same time.",
    "C05": "The data cache is handed contents whose recorded hash is a vector of solver variables; SHA-256 itself is executed (software "
    "implementation) on concrete contents, so that accepting is compared with equality of all 32 bytes. Whole transactions with corrupt "
    "loads show that nothing is committed after a failed load.",
    "C06": "The data cache storing 1 to 3 tablets with answers in any order and any 32-bit status, with a retry. Oracle: version, size, hash "
    "and location computed from the contents, what was acknowledged, and later loads.",
    "C07": "The real coordinator, metadata cache, data cache and manager run together against a model tablet store and blob storage "
    "(`harness/cache/src/world.rs`). Which outstanding request is answered next, and how, is a solver-decided choice, so all interleavings "
    "within the bounds are covered. Oracle: the model store knows whether a commit request was applied; the outcome must equal it.",
    "C08": "As C07; each commit request that leaves the manager is compared with the record of what the transaction's handlers were given "
    "and wrote, and each location it names must have been stored and acknowledged before with contents of that hash.",
    "C09": "As C07; each content handed to a handler must be one the model store has committed for that tablet; an auditing transaction at the "
    "end must see the last one, and must go through at once.",
    "C10": "As C07; at the end, when nothing is outstanding, no transaction may be without outcome.",
    "C11": "As C07, with an additional answer: an arbitrary earlier one repeated, or one under an unknown id. The oracles of C07 to C10 must "
    "still hold, and no panic may be reachable.",
    "C12": "As C07 with two tables whose tablets share ids, in one transaction and in two.",
    "C13": "As C07; any transaction may be aborted before or after its processing. Nothing may be stored or committed for it, no handler may "
    "run after the abort, and the others are judged by the same oracles.",
    "K01": "`SimpleKeyValueStore` on the real manager against the model world. Key hashes are solver variables or fixed; oracle: every request "
    "is answered once; when nothing is under way, fewer requests may be left than the thresholds allow.",
    "K02": "As K01; oracle: a search for a sequential order of the puts, gets and foreign writes that respects the times of submission and "
    "response, explains every response and ends in the contents of the model store.",
    "K03": "As K01 with thresholds 1 and 2; oracle: what may be asked for before enough requests wait, and that no commit of the store itself "
    "is ever refused when nobody else writes.",
    # -- actors ------------------------------------------------------------
    "S01": "The tablet store actor executes requests of up to 3 operations whose versions (and the stored ones) are 32-bit solver variables. "
    "Oracle: a second implementation of the operations on a `BTreeMap`, comparing status, result of each operation and the whole state.",
    "S02": "Tablet ids, range bounds and a probe key are solver variables. Oracle: formulas for 'the key lies in the range' and 'the tablet owns "
    "the key'; the listed tablets must contain the owner of each key in the range, and only tablets that own a part of it.",
    "S03": "Two replicas get the same events; at any point one of them is replaced by a fresh one that loads a snapshot, or misses an event and "
    "loads the other's snapshot. Their states, and the model's, are compared after each event. Initial layouts are compared between replicas.",
    "S04": "Headers and payloads are arbitrary bytes, leadership and correlation id solver variables; prost's decoder is executed along. Oracle: the "
    "decision table accepted/invalid/rejected, and equality of the replicated bytes with the received ones.",
    "A01": "One or two complete cache actors (decoding, key-value store, transactions) share the real tablet store actor and a model "
    "blob storage; the order of all messages is solver-decided. Oracle as K02, plus distinct correlation ids across a node's requests.",
    "A02": "Arbitrary header and payload bytes, every kind of response with an arbitrary status; no panic may be reachable. The same messages arrive at "
    "each stage of a put, which must then still complete with the right response.",
    "N01": "The counter actor on two replicas, values as 64-bit solver variables. Oracle: a map of (value, payload), compared after each event, with "
    "restarts and catching up by snapshots.",
    "N02": "Arbitrary bytes as a command; and the requests of N01, checking that nothing is answered before it is applied and that the context is not "
    "part of the event.",
    # -- runtime -----------------------------------------------------------
    "R01": "`MemoryStorage` under any sequence of operations (append, hard state, create, apply and provide a snapshot, bounded reads), all "
    "positions, terms and sizes solver-decided. Oracle: a list of entries with a snapshot point.",
    "R02": "The real sender and receivers exchange parts through a bag of messages from which the solver picks what is delivered, lost or repeated "
    "next; in addition a receiver alone gets arbitrary parts. Oracle: a snapshot handed out equals one that was sent, byte by byte.",
    "R03": "As R02; at the end every transfer must be reported, once, and the number of outstanding parts never exceeds the configured one. Sizes "
    "of snapshot, part and window are solver-decided.",
    "R04": "Sender and receivers follow solver-decided sequences of changes of role, leader and term with transfers at any stage.",
    "D01": "Up to three complete replicas (driver, consensus, the raft crate, storage, snapshots; actors that record) exchange their real messages over a "
    "wire; the solver picks what is delivered, lost, or times out next. Oracle: the sequences applied by any two replicas are prefixes of "
    "one another and contain proposed events only.",
    "D02": "As D01; each confirmation is compared with the proposal, and after the cluster has been healed each confirmed command is in every log, "
    "and new commands are confirmed.",
    "D03": "As D01; a record of (term, leader), (term, voter, candidate) and of each replica's terms is checked after every message.",
    "D04": "As D01 with a log so short that a replica which misses commands needs a snapshot; the snapshot's parts are messages like the "
    "others. Oracle: equality of the actors' states after healing, and that events after a snapshot follow its index.",
    "D05": "As D01 with additions and removals of any replica, the leader included, around which anything may happen.",
    "D06": "One driver receives any sequence of messages of all kinds with arbitrary fields in each phase of its life. Oracle: a small state machine of "
    "the life cycle with the expected answer to each kind of message, and a record of the calls the actor received.",
    "D07": "As D06, plus messages of a real cluster redirected to any sender or recipient; no panic may be reachable, the replica must still run and the "
    "cluster must still agree.",
    "D08": "As D01; answers to cluster checks are compared with the records of leadership and with the configuration the harness has brought about.",
    "D09": "Instants are arbitrary 64-bit solver variables; oracle: the maximum so far. The number of ticks until a single replica leads is compared "
    "with the configured one; lameduck mode is entered at any point.",
    "M01": "Two complete communication modules (handshakes, encryptors) talk through a hostile host that delivers, repeats, loses, changes or invents "
    "messages as the solver decides. Sessions are models that mark what they have sealed. Oracle: every message that leaves carries only handshake "
    "data or sealed contents.",
    "M02": "As M01; each message handed to the replica must be one that the peer's module was given, not yet received.",
    "M03": "As M01; afterwards everything is delivered, and the modules must get in touch within a bounded number of heartbeats; what was kept back "
    "arrives in order, once.",
    "M04": "Three modules; one replica leaves at any stage. Nothing may be sent to it any more, and the other pairs must be undisturbed.",
    "M05": "Reference values of any shape are fed to the session configuration; the stand-ins of Oak's libraries record what they are configured with. "
    "Oracle: the configuration demanded by the reference values, layer by layer.",
    "M06": "The encryptor with sessions that may fail in each call, arbitrary bytes as messages. Oracle: equality of bytes, nothing on failure.",
}
