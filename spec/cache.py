"""Tablet cache: metadata, data, transactions, key value store."""
from common import H, deep

T = "apps/tablet_cache/service/src/transaction/"
META, DATA, COORD, MGR = T + "metadata.rs", T + "data.rs", T + "coordinator.rs", T + "manager.rs"
STORE = "apps/tablet_cache/service/src/store.rs"
TXN_WHY = ("The one end-to-end test drives a single transaction with every component mocked and every answer a success; "
           "it never meets a conflict, a failure, another order of answers or a second transaction.")
TXN_ASSUME = ["the tablet store executes each request atomically with version checks (S01) and the blob storage returns "
              "what was acknowledged, a failure, or detectably different bytes",
              "blob contents, tablet ids and versions are concrete in transaction scenarios; which keys go where is C01"]

PROPS = [
    dict(
        id="C01", title="Every key is handled by the tablet responsible for it",
        statement="Resolving a query maps each of its keys exactly once, to the tablet that is first clockwise from the key "
        "on the table's consistent hashing ring, wrapping around at the end. This holds for every set of tablets, "
        "every set of keys and every configured region size, and never ends in a crash.",
        over=["inputs", "configurations"],
        quant="all key hashes, all tablet id sets, region sizes from covering the ring at once to many regions",
        why="The test resolves two keys against three fixed tablets with one region; boundaries, wrap-around and regions "
        "without own tablets are not sampled.",
        files=[META], mech=[("splitting a query by region, then by tablet", META), ("region bounds", META)],
        group="cache",
        bounds="up to 3 tablets with arbitrary 32-bit ids, up to 3 arbitrary 32-bit keys per query, 5 region sizes "
        "(whole ring, half, just below half, a quarter plus one, an eighth); transactions with queries that share a tablet, from two "
        "regions or two tables; thorough: more of each at once.",
        harnesses=[H("h_meta_resolve_one", 322, 8, covers=["resolved", "several_tablets"]),
                   H("h_meta_resolve_one", 133, 8, covers=["resolved", "several_tablets"]),
                   H("h_meta_resolve_one", 531, 8, covers=["resolved"]),
                   H("h_txn", 1002, 2, covers=["succeeded"]), H("h_txn", 301, 2, covers=["succeeded"])]
        + deep(H("h_meta_resolve_one", 533, covers=["resolved"])),
    ),
    dict(
        id="C02", title="Resolving completes whatever happens to the listings it needs",
        statement="A request to resolve tablets completes as soon as every part of the ring it needs has been listed, and never "
        "before; failed listings are asked for again. Each waiting request gets its own complete result exactly once, even "
        "when several requests, several queries or several tables wait for the same listing, and no listing is asked for "
        "that nobody waits for or that is already under way.",
        over=["schedules", "fault_sequences"],
        quant="all interleavings of requests, listings answered in any order with any status, updates and conflicts",
        why="The test resolves once and answers the listing at once, successfully.",
        files=[META], mech=[("pending queries by region", META), ("stale and fresh regions", META)],
        group="cache",
        bounds="2 to 4 requests out of 6 kinds (one or several queries, regions, tables, none), up to 9 of one kind, up to 2 failed "
        "listings with any 32-bit status, 1 metadata update or conflict, 2 tables with 4 and 1 regions, up to 3 arbitrary versions.",
        harnesses=[H("h_meta_seq", 2211, 8, covers=["resolved", "listing_failed", "settled"]),
                   H("h_meta_seq", 3202, 8, covers=["resolved", "listing_failed", "settled"]),
                   H("h_meta_seq", 301, 8, covers=["resolved", "listing_failed", "settled"]),
                   H("h_meta_seq", 10901, 4, covers=["resolved", "listing_failed", "settled"]),
                   H("h_meta_seq", 20400, 4, covers=["resolved", "settled"])]
        + deep(H("h_meta_seq", 3301, covers=["resolved"]), H("h_meta_seq", 3212, covers=["resolved"]),
               H("h_meta_seq", 400, covers=["resolved"])),
    ),
    dict(
        id="C03", title="Knowledge about a tablet never goes back to an older version",
        statement="Once a newer version of a tablet is known, from a listing, a commit or a conflict, older information that "
        "arrives later never replaces it: every later resolve yields the newest known version of the tablet, "
        "with the location and hash that belong to it. Knowledge about one table never affects another.",
        over=["schedules", "inputs"],
        quant="all 32-bit versions, all orders of listings, updates and conflicts",
        why="The test hands the cache each tablet's metadata once.",
        files=[META], mech=[("keeping the latest metadata", META)],
        group="cache",
        bounds="1 or 2 requests, up to 3 updates or conflicts, up to 4 arbitrary 32-bit versions, 1 failed listing.",
        harnesses=[H("h_meta_seq", 4130, 8, covers=["resolved", "settled"]),
                   H("h_meta_seq", 3121, 8, covers=["resolved", "listing_failed", "settled"])]
        + deep(H("h_meta_seq", 3220, covers=["resolved"]), H("h_meta_seq", 5131, covers=["resolved"])),
    ),
    dict(
        id="C04", title="Loading tablets delivers all of them, each with its own contents, or fails",
        statement="A request to load tablets completes once every tablet in it is answered, with each requested tablet paired "
        "with the contents stored for it, and with an error if and only if one of them could not be loaded. "
        "This holds for any order of requests, answers and retries, for tablets requested several times or by several "
        "requests at once, and each missing blob is asked for once.",
        over=["schedules", "fault_sequences", "inputs"],
        quant="all interleavings of load requests and answers with any status, right or wrong contents",
        why="The test loads two tablets in one batch with successful answers in one order.",
        files=[DATA], mech=[("batches waiting for cache entries", DATA)],
        group="cache",
        bounds="2 or 3 tablets (some never written), up to 4 steps of requesting any batch of up to 3 tablets, answering "
        "any outstanding request with any 32-bit status, or making progress; then everything is answered. The same with "
        "contents being stored at the same time, for 2 tablets and 3 steps, also with a serializer that changes contents and may fail.",
        harnesses=[H("h_data_load", 33, 8, covers=["loaded", "loaded_batch", "settled"]),
                   H("h_data_mixed", 23, 8, covers=["loaded", "loaded_batch", "stored", "settled"]),
                   H("h_data_mixed", 123, 8, covers=["loaded", "loaded_batch", "stored", "settled"])]
        + deep(H("h_data_load", 133, covers=["loaded"]), H("h_data_load", 24, covers=["loaded"]), H("h_data_load", 25, covers=["loaded"])),
    ),
    dict(
        id="C05", title="Only contents with the recorded hash are ever used",
        statement="Contents returned by the untrusted blob storage are used if and only if their SHA-256 hash equals the one "
        "recorded in the tablet's metadata, or are empty if the tablet has never been stored; otherwise the load fails and "
        "nothing of it is kept. A transaction that needed such a tablet fails without committing anything.",
        over=["inputs", "fault_sequences"],
        quant="all recorded hashes of any length near 32 bytes, several contents, corruption at any load",
        why="The test only returns the right contents.",
        files=[DATA], mech=[("verification of loaded contents", DATA)],
        group="cache",
        bounds="1 or 2 tablets, contents of 0, 1, 5 and 70 bytes; recorded hash: 32 arbitrary bytes, or right but for one "
        "arbitrary byte, or one byte short or long; transactions over 1 to 3 tablets with up to 2 faults.",
        assume=["a tablet whose metadata names a location always has a recorded hash"],
        harnesses=[H("h_data_integrity", 2, 8, covers=["accepted", "rejected"]),
                   H("h_data_mixed", 113, 4, covers=["loaded", "settled"]),
                   H("h_txn", 102, 2, covers=["succeeded", "failed_locally", "audited"]),
                   H("h_txn", 402, 8, covers=["succeeded", "failed_locally", "audited"]),
                   H("h_txn", 902, 4, covers=["succeeded", "failed_locally", "went_on"])],
    ),
    dict(
        id="C06", title="Storing a tablet acknowledges exactly what is durably stored",
        statement="Storing gives each tablet the next version, and records the size, hash and unique location of its new "
        "contents; it completes successfully only after every tablet in the request was acknowledged by the storage, "
        "and with an error if any failed. Contents that failed to be stored are not served from the cache, "
        "contents that were stored are, and storing again after a failure works.",
        over=["schedules", "fault_sequences"],
        quant="all orders of acknowledgements, all 32-bit statuses, retries of the same contents",
        why="The test stores two tablets with successful acknowledgements in one order.",
        files=[DATA], mech=[("store batches", DATA), ("blob location", DATA)],
        group="cache",
        bounds="1 to 3 tablets, contents up to 65541 bytes, ids and versions up to the largest, every order of answers, any 32-bit "
        "status, one retry of the same contents; 1 or 2 tablets loaded and "
        "stored at the same time, 3 or 4 steps in any order, also with a serializer that changes contents and may fail; "
        "thorough: 2 tablets, 4 steps.",
        harnesses=[H("h_data_store", 1, covers=["stored", "store_failed", "stored_by_retry"]),
                   H("h_data_store", 2, 4, covers=["stored", "store_failed", "stored_by_retry"]),
                   H("h_data_store", 12, 8, covers=["stored", "store_failed", "stored_by_retry"]),
                   H("h_data_mixed", 14, 4, covers=["loaded", "stored", "settled"]),
                   H("h_data_mixed", 23, 8, covers=["loaded", "loaded_batch", "stored", "settled"]),
                   H("h_data_mixed", 123, 8, covers=["loaded", "loaded_batch", "stored", "settled", "unstorable"]),
                   H("h_data_store", 0, covers=["stored"])]
        + deep(H("h_data_mixed", 114, covers=["stored", "unstorable"]), H("h_data_mixed", 24, covers=["stored"])),
    ),
    dict(
        id="C07", title="A transaction reported as succeeded has been committed, and only then",
        statement="A transaction is reported as succeeded only after the tablet store has answered that all of its operations "
        "were applied; it is reported as failed only if they were not applied or the answer was lost; before the "
        "answer there is no outcome, and the outcome never changes.",
        over=["schedules", "fault_sequences", "histories"],
        quant="all interleavings of up to three transactions, conflicts, rejected and lost requests, storage failures",
        why=TXN_WHY, files=[COORD, MGR], mech=[("deriving the outcome from the op results", COORD)],
        group="cache",
        bounds="11 scenarios of 1 to 3 transactions over 1 to 4 tablets in 1 or 2 tables, every order of answers, up to 2 "
        "faults (failed or corrupt loads, failed stores, lost, rejected or conflicting commits); thorough: 3 faults.",
        assume=TXN_ASSUME,
        harnesses=[H("h_txn", 103, 2, covers=["succeeded", "commit_failed", "failed_locally", "write_committed"]),
                   H("h_txn", 202, 4, covers=["succeeded", "commit_failed", "write_committed"]),
                   H("h_txn", 403, 2, covers=["succeeded", "commit_failed"]),
                   H("h_txn", 602, 2, covers=["succeeded"]),
                   H("h_txn", 303, 2, covers=["succeeded", "commit_failed"]),
                   H("h_txn", 903, 4, covers=["succeeded", "commit_failed", "went_on"])]
        + deep(H("h_txn", 701, covers=["succeeded"]), H("h_txn", 204, covers=["succeeded"])),
    ),
    dict(
        id="C08", title="A commit asks for exactly what the transaction read and wrote",
        statement="Committing sends one request with exactly one operation for each tablet a processing step of the transaction "
        "was given: an update to the next version if it was written, a version check if it was only read, both based on the version "
        "whose contents were seen. Before the request is sent, every written content is stored under the location and "
        "hash the request records.",
        over=["schedules", "histories", "fault_sequences"],
        quant="all read/write choices per tablet, all interleavings with other transactions' commits",
        why=TXN_WHY, files=[COORD], mech=[("building the commit request", COORD), ("stores before commit", COORD)],
        group="cache",
        bounds="transactions over 1 to 4 tablets in 1 or 2 tables through 1 or 2 processing steps, reading or writing each, also "
        "empty contents and several times; steps that are given the same tablet, which only one of them writes; "
        "up to 2 faults; other transactions and foreign commits in between.",
        assume=TXN_ASSUME,
        harnesses=[H("h_txn", 102, 2, covers=["succeeded", "write_committed"]),
                   H("h_txn", 403, 4, covers=["succeeded", "write_committed"]),
                   H("h_txn", 303, 4, covers=["succeeded", "write_committed"]),
                   H("h_txn", 202, 4, covers=["succeeded", "write_committed"]),
                   H("h_txn", 903, 4, covers=["succeeded", "write_committed", "went_on"]),
                   H("h_txn", 1002, 2, covers=["succeeded", "write_committed"]),
                   H("h_txn", 1102, 2, covers=["succeeded", "write_committed"])]
        + deep(H("h_txn", 501, covers=["write_committed"])),
    ),
    dict(
        id="C09", title="Transactions only see committed contents, and eventually the latest",
        statement="Every tablet handed to a transaction has contents some committed version of that tablet has, never those "
        "of a failed, aborted or unfinished transaction. Once a transaction has succeeded or has met a conflict, a "
        "later one sees the latest committed contents and goes through.",
        over=["schedules", "histories", "fault_sequences"],
        quant="all interleavings of up to three transactions and foreign commits with failures",
        why=TXN_WHY, files=[COORD, META, DATA], mech=[("updating metadata after an outcome", MGR)],
        group="cache",
        bounds="2 transactions crossing over 2 tablets in different regions (no faults), 2 over one tablet (2 faults), 3 over one "
        "tablet (no faults); an auditing transaction afterwards; someone splitting a tablet under transactions of the key-value store; "
        "thorough: with faults.",
        assume=TXN_ASSUME,
        harnesses=[H("h_txn", 242, 4, covers=["succeeded", "commit_failed", "audited", "audited_after_conflict"]),
                   H("h_txn", 500, 4, covers=["succeeded", "commit_failed", "audited"]),
                   H("h_txn", 700, 4, covers=["succeeded", "commit_failed", "audited"]),
                   H("h_txn", 142, 4, covers=["succeeded", "audited", "audited_after_conflict"]),
                   H("h_kv", 41121, 4, covers=["explained", "split"])]
        + deep(H("h_txn", 501, covers=["audited"]), H("h_txn", 701, covers=["audited"])),
    ),
    dict(
        id="C10", title="Every transaction finishes once its requests are answered",
        statement="When every request made on behalf of a transaction has been answered, in whatever way, its processing "
        "completes or fails, and after commit it has an outcome; this includes transactions that touch no tablet, failed "
        "or rejected listings, loads, stores and commits, and tablets shared with other transactions.",
        over=["schedules", "fault_sequences"],
        quant="all orders of answers with failures anywhere",
        why=TXN_WHY, files=[COORD, MGR, META, DATA], mech=[("progress of transactions", COORD)],
        group="cache",
        bounds="11 scenarios of 1 to 3 transactions, up to 3 faults among listings, loads, stores and commits.",
        assume=TXN_ASSUME,
        harnesses=[H("h_txn", 602, 2, covers=["succeeded"]),
                   H("h_txn", 103, 2, covers=["succeeded", "commit_failed", "failed_locally"]),
                   H("h_txn", 203, 8, covers=["succeeded", "commit_failed", "failed_locally"]),
                   H("h_txn", 303, 4, covers=["succeeded", "failed_locally"]),
                   H("h_txn", 403, 4, covers=["succeeded", "failed_locally"]),
                   H("h_txn", 903, 4, covers=["succeeded", "failed_locally", "went_on"])]
        + deep(H("h_txn", 501, covers=["succeeded"]), H("h_txn", 603, covers=["succeeded"])),
    ),
    dict(
        id="C11", title="Late, repeated and unknown answers change nothing",
        statement="An answer that arrives again after its request was already answered, or that belongs to no request, never "
        "changes the outcome or the contents seen by any transaction, never reaches another transaction, and never "
        "causes a crash. All requests sent have distinct identifiers.",
        over=["schedules", "fault_sequences"],
        quant="any answer repeated at any later point, or an answer to nothing, combined with failures",
        why="No test delivers an answer twice or an answer to nothing.",
        files=[COORD, MGR, META, DATA], mech=[("matching answers to requests", MGR)],
        group="cache",
        bounds="1 or 2 transactions over 1 to 3 tablets, one repeated or unknown answer anywhere, up to 3 faults.",
        assume=TXN_ASSUME,
        harnesses=[H("h_txn", 123, 8, covers=["answered_again", "succeeded", "commit_failed"]),
                   H("h_txn", 422, 8, covers=["answered_again", "succeeded"]),
                   H("h_txn", 321, 8, covers=["answered_again", "succeeded"]),
                   H("h_txn", 220, 8, covers=["answered_again", "succeeded"]),
                   H("h_txn", 923, 4, covers=["answered_again", "went_on"])]
        + deep(H("h_txn", 221, covers=["answered_again"]), H("h_txn", 632, covers=["answered_again"])),
    ),
    dict(
        id="C12", title="Tablets of different tables never mix",
        statement="Tables are independent even if their tablets share ids and their keys share hashes: a query is given "
        "tablets of its own table only, commits name the right table for each tablet, and transactions on different "
        "tables do not affect each other's contents or outcome.",
        over=["inputs", "schedules"],
        quant="all interleavings of transactions on two tables whose tablets have the same ids",
        why="All tests use a single table.",
        files=[COORD, META, DATA], mech=[("tablets by table and id", COORD)],
        group="cache",
        bounds="2 tables of 2 tablets with equal ids; one transaction over both (3 faults), or two transactions, one per table "
        "(no faults; thorough: 1).",
        assume=TXN_ASSUME,
        harnesses=[H("h_txn", 303, 4, covers=["succeeded", "commit_failed", "audited"]),
                   H("h_txn", 800, 8, covers=["succeeded", "audited"])]
        + deep(H("h_txn", 801, covers=["succeeded"])),
    ),
    dict(
        id="C13", title="An aborted transaction leaves no trace",
        statement="Aborting a transaction sends no commit request and stores nothing; whatever it wrote to its tablets is "
        "never seen by another transaction, and transactions running at the same time finish as if it had "
        "never existed.",
        over=["schedules", "histories"],
        quant="aborts of any of the transactions at any point, before or after processing, all interleavings",
        why="No test aborts a transaction next to another one.",
        files=[COORD, MGR], mech=[("abort", COORD)],
        group="cache",
        bounds="1 to 3 transactions over 1 to 4 tablets, each aborted or committed, up to 3 faults.",
        assume=TXN_ASSUME,
        harnesses=[H("h_txn", 113, 2, covers=["aborted", "aborted_early", "audited"]),
                   H("h_txn", 411, 4, covers=["aborted", "aborted_early", "audited"]),
                   H("h_txn", 913, 4, covers=["aborted", "aborted_early", "went_on"]),
                   H("h_txn", 211, 8, covers=["aborted", "succeeded", "audited"]),
                   H("h_txn", 510, 8, covers=["aborted", "succeeded", "audited"]),
                   H("h_txn", 710, 8, covers=["aborted", "succeeded", "audited"])]
        + deep(H("h_txn", 212, covers=["aborted"]), H("h_txn", 511, covers=["aborted"])),
    ),
    dict(
        id="K01", title="Every key-value request gets exactly one response",
        statement="Each put or get submitted to the key-value store is answered exactly once, with a response of its kind, "
        "whatever happens to the transactions it takes part in: requests of failed transactions are tried again, and requests "
        "for keys of several tablets, equal hashes or repeated keys in one batch are all answered.",
        over=["inputs", "schedules", "fault_sequences"],
        quant="all sequences of requests, all key hashes, all interleavings with answers and failures",
        why="The tests use one tablet, one batch and a mocked transaction that succeeds.",
        files=[STORE], mech=[("tracking requests until they are answered", STORE)],
        group="cache",
        bounds="2 requests over 2 keys with arbitrary 32-bit hashes and 2 tablets; 2 requests and 1 fault among listings, loads, "
        "stores, commits, conflicting writes, someone splitting a tablet, also waiting for each other in one batch; 3 requests without "
        "faults; the store alone on a transaction context that moves keys between tablets and fails at will: 2 requests, 1 fault, "
        "several submitted at once; thorough: 3 requests, 2 faults.",
        assume=TXN_ASSUME[:1],
        harnesses=[H("h_kv", 21120, 8, covers=["answered"]), H("h_kv", 1121, 8, covers=["answered", "lost", "someone_else_wrote"]),
                   H("h_kv", 1130, 8, covers=["answered"]), H("h_kv", 11221, 4, covers=["answered", "lost"]),
                   H("h_kv", 20, 4, covers=["answered"]), H("h_kv", 41121, 4, covers=["answered", "split"]),
                   H("h_kv_context", 1121, 4, covers=["answered", "failed", "moved"]),
                   H("h_kv_context", 11121, 4, covers=["answered", "failed", "moved"]),
                   H("h_kv_context", 21121, 4, covers=["answered", "failed"]),
                   H("h_kv_context", 51121, 4, covers=["answered", "failed", "moved"]),
                   H("h_kv_context", 1130, 4, covers=["answered"])]
        + deep(H("h_kv", 11122, covers=["answered"]), H("h_kv", 41131, covers=["answered", "split"]),
               H("h_kv_context", 1131, covers=["answered", "failed", "moved"]),
               H("h_kv_context", 11122, covers=["answered", "failed", "moved"]), H("h_kv", 21121, covers=["answered"]), H("h_kv", 21130, covers=["answered"])),
    ),
    dict(
        id="K02", title="Key-value responses match some sequential order of the requests",
        statement="The responses to puts and gets are those of a map on which the requests were executed one after the other, each "
        "between its submission and its response, together with what others wrote; the tablets end up with the "
        "contents of that map. A response never reports anything that is not committed.",
        over=["inputs", "schedules", "histories", "fault_sequences"],
        quant="all sequences of puts and gets over two keys, all interleavings with answers, failures and foreign writes",
        why="The tests check one batch against one preset tablet; no history with conflicts or retries is judged.",
        files=[STORE, COORD], mech=[("processing requests against tablet contents", STORE)],
        group="cache",
        bounds="2 requests over 2 keys in one or two tablets with 1 fault, values and keys possibly empty, values of several bytes, 3 requests over 1 tablet without faults; keys moving between tablets; thorough: "
        "3 or 4 requests, 2 faults. After a commit whose answer was lost, only values and durability are judged.",
        assume=TXN_ASSUME[:1],
        harnesses=[H("h_kv", 11121, 8, covers=["explained", "someone_else_wrote"]),
                   H("h_kv", 1121, 8, covers=["explained", "someone_else_wrote"]), H("h_kv", 1130, 8, covers=["explained"]),
                   H("h_kv", 31120, 4, covers=["explained"]), H("h_kv", 31121, 8, covers=["explained"]),
                   H("h_kv", 11221, 4, covers=["explained"]), H("h_kv", 41121, 4, covers=["explained", "split"]),
                   H("h_kv_context", 1121, 4, covers=["answered", "failed", "moved"]),
                   H("h_kv_context", 11121, 4, covers=["answered", "failed", "moved"]),
                   H("h_kv_context", 1130, 4, covers=["answered"])]
        + deep(H("h_kv", 1122, covers=["explained"]), H("h_kv_context", 41131, covers=["answered", "failed", "moved"]),
               H("h_kv", 41131, covers=["explained", "split"]), H("h_kv", 11130, covers=["explained"]), H("h_kv", 1131, covers=["explained"])),
    ),
    dict(
        id="K03", title="Key-value requests are batched as configured",
        statement="Nothing is looked up before the configured number of requests is waiting, and no transaction is started on a "
        "tablet before the configured number of requests for it is waiting; once there are enough, they are processed. "
        "The store never runs two transactions on the same tablet at once, so it never conflicts with itself.",
        over=["configurations", "schedules"],
        quant="thresholds 1 and 2 in all combinations, all sequences of up to 4 requests, all orders of answers",
        why="The tests set one pair of thresholds and submit exactly that many requests.",
        files=[STORE], mech=[("thresholds", STORE), ("one transaction per tablet", STORE)],
        group="cache",
        bounds="thresholds 0 to 2, 2 to 4 requests over 2 keys in one or two tablets, alone or submitted together, with 1 fault.",
        assume=TXN_ASSUME[:1],
        harnesses=[H("h_kv", 1230, 4, covers=["answered", "waiting_for_more"]), H("h_kv", 2130, 4, covers=["answered", "waiting_for_more"]),
                   H("h_kv", 12130, 4, covers=["answered", "waiting_for_more"]), H("h_kv", 12240, 8, covers=["answered", "waiting_for_more"]),
                   H("h_kv", 2221, 4, covers=["answered", "waiting_for_more"]), H("h_kv", 20, 4, covers=["answered"]),
                   H("h_kv_context", 12240, 4, covers=["answered", "waiting_for_more"]),
                   H("h_kv_context", 2231, 4, covers=["answered", "failed", "moved", "waiting_for_more"]),
                   H("h_kv_context", 12231, 4, covers=["answered", "failed", "moved", "waiting_for_more"]),
                   H("h_kv_context", 1130, 4, covers=["answered"])]
        + deep(H("h_kv_context", 2241, covers=["answered", "failed", "moved"]), H("h_kv", 12141, covers=["answered"]), H("h_kv", 2241, covers=["answered"])),
    ),
]

# Many of a kind at once: few patterns and orders, one fault anywhere.
WIDE = {
    "C01": ([H("h_txn", 1400, 2, covers=["succeeded"])], "queries of 9 keys over 9 tablets"),
    "C04": ([H("h_data_wide", 9, 2, covers=["loaded_batch", "settled"])], "batches of 9 tablets, one failure"),
    "C06": ([H("h_data_wide", 9, 2, covers=["stored", "settled"])], "batches of 9 tablets, one failure"),
    "C07": ([H("h_txn", 1201, 2, covers=["succeeded", "commit_failed", "failed_locally"]),
             H("h_txn", 1501, 4, covers=["succeeded", "commit_failed", "failed_locally"])],
            "a transaction over 9 tablets, 9 transactions"),
    "C08": ([H("h_txn", 1301, 2, covers=["succeeded", "write_committed"]),
             H("h_txn", 1401, 2, covers=["succeeded", "write_committed"])], "9 processing steps, 9 queries in one"),
    "C09": ([H("h_txn", 1501, 4, covers=["succeeded", "audited"]), H("h_txn", 1601, 2, covers=["succeeded", "audited"])],
            "9 transactions over tablets of their own, 6 over the same tablet"),
    "C10": ([H("h_txn", 1201, 2, covers=["succeeded", "failed_locally"]),
             H("h_txn", 1301, 2, covers=["succeeded", "failed_locally"])], "a transaction over 9 tablets, or with 9 steps"),
    "C13": ([H("h_txn", 1211, 2, covers=["aborted", "audited"]), H("h_txn", 1610, 4, covers=["aborted", "audited"])],
            "a transaction over 9 tablets, 6 over the same tablet"),
    "K01": ([H("h_kv", 51191, 4, covers=["answered"])], "9 requests in one batch or following each other"),
    "K02": ([H("h_kv", 61191, 8, covers=["explained"])], "9 requests over two tablets"),
    "K03": ([H("h_kv", 63291, 4, covers=["answered", "waiting_for_more"])], "9 requests, thresholds 2 and 3"),
}
for p in PROPS:
    if p["id"] in WIDE:
        more, text = WIDE[p["id"]]
        # Those of the quick tier come first.
        quick = [h for h in p["harnesses"] if h.get("tier") != "thorough"]
        p["harnesses"] = quick + more + [h for h in p["harnesses"] if h.get("tier") == "thorough"]
        p["bounds"] = p["bounds"].rstrip(".") + f"; many at once: {text} (fixed patterns and orders, one fault anywhere where faults are allowed)."
