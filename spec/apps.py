"""Actors: tablet store, tablet cache, atomic counter."""
from common import H, deep

SA = "apps/tablet_store/service/src/actor.rs"
CA = "apps/tablet_cache/service/src/actor.rs"
NA = "apps/atomic_counter/service/src/actor.rs"
ACTOR_WHY = "The actor's tests are not among those that run here, and sample a single request each."
LOG = ["the runtime delivers the same events in the same order to each replica (R-properties)"]

PROPS = [
    dict(
        id="S01", title="Tablet operations are applied all together or not at all",
        statement="A request of several operations on tablets succeeds if and only if each of them does against the state before "
        "the request: a check needs the current version, an update exactly the next one, and a tablet is updated at most once. "
        "Only then are its updates applied; otherwise nothing changes. Each result carries the tablet as it was, and operations "
        "that are unsupported or name an unknown table are invalid, never a crash.",
        over=["inputs", "histories"],
        quant="all sequences of operations over existing, missing and unknown tablets and tables, all 32-bit versions",
        why=ACTOR_WHY, files=[SA], mech=[("preparing and committing the operations of a request", SA)],
        group="apps",
        bounds="2 tables with 2 and 1 tablets of arbitrary version (0, 1 to 127, or from 2^28), a request of 1 to 3 operations "
        "(3 on one table) with arbitrary versions; thorough: high versions in requests of 2, 2 requests of 2.",
        harnesses=[H("h_store_ops", 12, 8, covers=["applied", "refused", "repeated_update", "updated"]),
                   H("h_store_ops", 111, 4, covers=["applied", "refused", "updated"]),
                   H("h_store_ops", 211, 4, covers=["applied", "refused"]),
                   H("h_store_ops", 312, 4, covers=["applied", "refused", "updated"]),
                   H("h_store_ops", 212, 8, covers=["applied", "refused"]),
                   H("h_store_ops", 413, 8, covers=["applied", "refused", "repeated_update", "updated"])]
        + deep(H("h_store_ops", 22, covers=["applied"]), H("h_store_ops", 112, covers=["applied"]), H("h_store_ops", 422, covers=["applied"])),
    ),
    dict(
        id="S02", title="Listing a range returns exactly the tablets responsible for it",
        statement="Listing a range of key hashes, which may wrap around zero, returns every tablet that is responsible for a hash in "
        "it, each exactly once with its current metadata, and no others. A listing changes nothing.",
        over=["inputs"],
        quant="all sets of tablet ids, all ranges including wrapped, single-hash and whole-ring ones, all key hashes",
        why=ACTOR_WHY, files=[SA], mech=[("finding tablets on the consistent hashing ring", SA)],
        group="apps",
        bounds="0 to 3 tablets with arbitrary ids, arbitrary bounds, each 1 to 127, or from 2^28 (bounds also 0 and 2^32-1), "
        "and an arbitrary 32-bit key hash.",
        harnesses=[H("h_store_list", 0, covers=["listed"]), H("h_store_list", 10, 2, covers=["listed_all"]),
                   H("h_store_list", 20, 4, covers=["listed_all", "listed_several"]),
                   H("h_store_list", 21, 8, covers=["listed_all"]), H("h_store_list", 30, 8, covers=["listed_several"])]
        + deep(H("h_store_list", 31, covers=["listed_several"]), H("h_store_list", 40, covers=["listed_several"])),
    ),
    dict(
        id="S03", title="Replicas of the tablet store start alike and stay alike",
        statement="Replicas start with the same tablets, and after the same requests they hold the same tablets, whether a replica "
        "applied them all or loaded a snapshot at any point and applied the rest. Only the replica that accepted a request "
        "answers it, exactly once and under its correlation id.",
        over=["histories", "crash_points"],
        quant="all sequences of requests, replacing a replica by a fresh one from a snapshot at any point",
        why="Tests run a single replica with a mocked layout.",
        files=[SA], mech=[("initial tablets", SA), ("saving and loading snapshots", SA), ("applying events", SA)],
        group="apps",
        bounds="2 replicas, 2 requests of 1 operation with arbitrary versions, before any request a restart from a snapshot or the other "
        "replica falling behind and catching up by a snapshot; initial layouts of "
        "1 to 3 tables and up to 9 tablets.",
        assume=LOG,
        harnesses=[H("h_store_ops", 21, 8, covers=["restarted", "caught_up", "updated"]),
                   H("h_store_ops", 321, 8, covers=["restarted", "caught_up", "updated"]),
                   H("h_store_layout", 13, covers=["started"]), H("h_store_layout", 39, covers=["started"])]
        + deep(H("h_store_ops", 31, covers=["restarted", "updated"])),
    ),
    dict(
        id="S04", title="The tablet store accepts or refuses every request, never both",
        statement="A leader replicates exactly the well-formed requests, unchanged, and applying what it accepted never fails on any "
        "replica. Everything else, and everything sent to a replica that does not lead, is answered at once with one error under the "
        "request's correlation id that tells which, and changes nothing.",
        over=["inputs", "schedules"],
        quant="all byte strings as header and payload, leading or not, all correlation ids",
        why="Tests only send well-formed requests to a leader.",
        files=[SA], mech=[("accepting commands", SA)],
        group="apps",
        bounds="headers of up to 3 arbitrary bytes with payloads of up to 3; well-formed headers with payloads of up to 5 arbitrary "
        "bytes.",
        harnesses=[H("h_store_command", 32, 2, covers=["accepted", "invalid", "rejected"]),
                   H("h_store_command", 93, 2, covers=["accepted", "invalid", "rejected"]),
                   H("h_store_command", 95, 4, covers=["accepted", "invalid", "rejected"]),
                   H("h_store_command", 0, covers=["invalid", "rejected"]),
                   H("h_store_ops", 211, 4, covers=["applied", "refused"])]
        + deep(H("h_store_command", 97, covers=["accepted"])),
    ),
    dict(
        id="A01", title="The whole tablet cache behaves as one map, across nodes and faults",
        statement="Puts and gets sent to cache nodes that share a tablet store and a blob storage are each answered exactly once, by the "
        "node that was asked, with responses that some sequential order of them explains; acknowledged puts are "
        "durable. Cache nodes and tablet store understand each other, and requests that leave a node carry distinct correlation ids.",
        over=["schedules", "fault_sequences", "histories"],
        quant="all orders of requests and answers over one or two nodes, with storage failures, rejected and lost commits",
        why="Nothing tests the cache and the store actors together; each has tests against mocks.",
        files=[CA, SA, "apps/tablet_cache/service/src/store.rs"],
        mech=[("translating messages", CA), ("making progress", CA), ("execution of tablet operations", SA)],
        group="apps",
        bounds="1 or 2 cache nodes with the real tablet store actor, 2 or 3 requests over 2 keys, values of one byte or none, in one or two tablets or with "
        "arbitrary hashes, 1 fault; thorough: more of each.",
        assume=["the tablet store actor runs as a single replica", "after a commit whose answer was lost only durability is judged"],
        harnesses=[H("h_cache_e2e", 120, 2, covers=["explained"]), H("h_cache_e2e", 1220, 8, covers=["explained"]),
                   H("h_cache_e2e", 121, 8, covers=["explained", "fault"]), H("h_cache_e2e", 130, 8, covers=["explained"]),
                   H("h_cache_e2e", 2120, 8, covers=["explained"]),
                   H("h_cache_e2e", 3120, 4, covers=["explained"])]
        + deep(H("h_cache_e2e", 221, covers=["explained"]), H("h_cache_e2e", 131, covers=["explained"])),
    ),
    dict(
        id="A02", title="No message makes the tablet cache crash",
        statement="Whatever bytes arrive as a message, the cache either processes it or reports it as undecodable; it never crashes, as long as "
        "its own requests are answered by answers of their kind. Messages that answer nothing it has asked are ignored and do not disturb "
        "requests under way, and it never replicates anything.",
        over=["inputs"],
        quant="all byte strings as header and payload, all statuses and correlation ids",
        why="No test of the actor exists.",
        files=[CA], mech=[("decoding messages", CA)],
        group="apps",
        bounds="headers of up to 4 arbitrary bytes; each kind of response with any status below 256 and up to 4 arbitrary payload bytes; the same "
        "with 2 payload bytes under any other correlation id at each stage of a put under way, or as the answer to its request.",
        harnesses=[H("h_cache_command", 104, 4, covers=["accepted", "undecodable"]), H("h_cache_command", 3, covers=["accepted"]),
                   H("h_cache_command", 12, covers=["accepted"]), H("h_cache_command", 24, 2, covers=["accepted", "undecodable"]),
                   H("h_cache_command", 32, covers=["accepted"])]
        + [H("h_cache_busy", c, 2, covers=["ignored", "answered", "undecodable"]) for c in (2, 12, 22, 32)]
        + deep(*[H("h_cache_busy", c, covers=["ignored"]) for c in (4, 14, 24, 34)]),
    ),
    dict(
        id="N01", title="An atomic counter changes only by successful compare and swap",
        statement="A compare and swap succeeds if and only if the counter has the expected value (zero if never set), and "
        "then sets it; the answer carries the value before, and after. Counters are independent, and all replicas hold the same "
        "values and payloads, also when they load a snapshot at any point.",
        over=["inputs", "histories", "crash_points"],
        quant="all sequences of swaps over two counters with all 64-bit values, snapshots at any point",
        why=ACTOR_WHY, files=[NA], mech=[("applying compare and swap", NA), ("saving and loading snapshots", NA)],
        group="apps",
        bounds="2 counters on 2 replicas, 1 or 2 swaps with arbitrary values (0, 1 to 127, from 2^56, negative) with and without "
        "payloads, before any of them a restart from a snapshot or falling behind and catching up by one; thorough: 3 swaps.",
        assume=LOG,
        harnesses=[H("h_counter_ops", 2, 8, covers=["swapped", "refused", "restarted", "caught_up"]),
                   H("h_counter_ops", 12, 8, covers=["swapped", "refused", "restarted"]),
                   H("h_counter_ops", 21, 4, covers=["swapped", "refused", "restarted"])]
        + deep(H("h_counter_ops", 3, covers=["swapped"]), H("h_counter_ops", 13, covers=["swapped"]),
               H("h_counter_ops", 22, covers=["swapped"])),
    ),
    dict(
        id="N02", title="Counter requests are replicated or answered, never both",
        statement="A leader replicates well-formed counter requests without the context they carry, and once applied, the replica that "
        "accepted one answers it, under its correlation id, exactly once. Everything else, and everything sent to a replica "
        "that does not lead, is refused at once and changes nothing.",
        over=["inputs", "schedules"],
        quant="all byte strings as a command, leading or not, all correlation ids",
        why=ACTOR_WHY, files=[NA], mech=[("accepting commands", NA)],
        group="apps",
        bounds="commands of up to 5 arbitrary bytes, and the requests of N01.",
        harnesses=[H("h_counter_command", 3, 2, covers=["refused"]), H("h_counter_command", 5, 4, covers=["accepted", "refused"]),
                   H("h_counter_ops", 1, 2, covers=["swapped", "refused"])]
        + deep(H("h_counter_command", 6, covers=["accepted"])),
    ),
]
