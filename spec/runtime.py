"""The runtime: log store, snapshot transfer, consensus and driver, communication."""
from common import H, deep

ST = "runtime/src/storage.rs"
SN = "runtime/src/snapshot.rs"
DR = "runtime/src/driver.rs"
CO = "runtime/src/consensus.rs"
CM = "runtime/src/communication.rs"
HS = "runtime/src/handshake.rs"
EN = "runtime/src/encryptor.rs"
SE = "runtime/src/session.rs"
SV = "runtime/src/service.rs"
WHY = "The driver's tests run it against mocks of everything around it, and each follows a single scripted schedule."
SNWHY = "The tests of the transfer play single scripts of a few messages in a fixed order, most of them against mocks."
CMWHY = "The tests play single scripts with mocked sessions over a reliable network."
RAFT = ["the consensus library is its 0.7.0 source, executed along with the rest; election timeouts are not randomized",
        "replicas do not restart: state is kept in memory only, a replica that is lost is replaced by a new one"]
CLUSTER = "Messages between replicas are exchanged in the clear here; encryption is covered by the M properties. "
SESS = ["sessions are modelled: they exchange two pairs of messages, accept only what their peer has sealed for them, once, "
        "and refuse everything else"]

PROPS = [
    dict(
        id="R01", title="The log store keeps what consensus has entrusted to it",
        statement="After any sequence of operations the log store reports exactly the entries, terms, hard state, configuration and "
        "snapshot that were last put into it: appending replaces conflicting entries, a snapshot replaces the entries it covers, "
        "and an outdated snapshot is refused. A bounded read returns the longest prefix that fits, and at least one entry. "
        "What is not there is reported as compacted or unavailable, never invented.",
        over=["histories", "inputs"],
        quant="all sequences of operations with all log positions, terms and sizes of entries",
        why="The store's tests sample single operations on a fixed log of three entries.",
        files=[ST], mech=[("in-memory log, snapshots and limits of reads", ST)],
        group="runtime",
        bounds="2 operations, starting from an empty log, arbitrary terms, entries of any of several sizes; thorough: 3 operations.",
        assume=["the consensus layer never appends entries that leave a gap or precede the snapshot, and creates snapshots only of "
                "applied entries (this is checked by running it in the D properties)"],
        harnesses=[H("h_storage", 2, 8, covers=["appended", "bounded read", "snapshot applied", "snapshot created", "snapshot provided", "snapshot requested"])]
        + [H("h_storage", 3, 8, covers=["appended", "snapshot provided"])],
    ),
    dict(
        id="R02", title="A snapshot arrives as it was sent or not at all",
        statement="Whatever the network does with the parts of a snapshot, a replica only ever uses a snapshot that its leader has "
        "sent to it, complete and with every part in its place. Parts of other transfers, of other replicas, or out of turn are "
        "rejected, and a snapshot that was abandoned leaves nothing behind.",
        over=["schedules", "histories"],
        quant="all orders in which parts and answers are delivered, lost or repeated, all restarts of transfers",
        why=SNWHY, files=[SN], mech=[("receiving the parts of a snapshot", SN), ("sending the parts of a snapshot", SN)],
        group="runtime",
        bounds="1 follower, 2 transfers, 6 steps, 2 followers, 2 transfers, 5 steps; with repeated messages 1 follower, 2 transfers, "
        "6 steps. Snapshots of up to 3 parts with arbitrary contents. A receiver on its own: any 4 parts, of any size around the "
        "right one, of 3 transfers of the same or different replicas; thorough: 5.",
        harnesses=[H("h_snapshot_bag", 126, 8, covers=["lost", "snapshot received", "reported failed"]),
                   H("h_snapshot_bag", 225, 8, covers=["lost", "snapshot received", "reported finished"]),
                   H("h_snapshot_bag", 1126, 8, covers=["duplicated", "snapshot received"]),
                   H("h_snapshot_parts", 304, 8, covers=["complete"]), H("h_snapshot_parts", 514, 8, covers=["complete"])]
        + deep(H("h_snapshot_parts", 315, covers=["complete"]), H("h_snapshot_parts", 505, covers=["complete"]), H("h_snapshot_bag", 1127, covers=["duplicated", "snapshot received"]), H("h_snapshot_bag", 227, covers=["lost"])),
    ),
    dict(
        id="R03", title="Every snapshot transfer ends, and its outcome is reported once",
        statement="Over links that deliver everything, in any order and with any number of transfers at a time, every snapshot arrives "
        "exactly once and its transfer is reported as finished exactly once, with no more parts outstanding than configured. When "
        "parts are lost and reported lost, the transfer is reported as failed, once.",
        over=["schedules", "inputs"],
        quant="all sizes of snapshots, all limits of outstanding parts, all interleavings",
        why=SNWHY, files=[SN], mech=[("windows of outstanding parts", SN), ("reporting finished and failed transfers", SN)],
        group="runtime",
        bounds="1 follower and snapshots of up to 5 bytes, 2 followers and up to 4, in parts of 1 to 4 bytes, up to 3 (2) "
        "outstanding parts; with losses as in R02.",
        harnesses=[H("h_snapshot_one", 153, 2, covers=["snapshot received", "reported finished"]),
                   H("h_snapshot_one", 242, 8, covers=["snapshot received", "reported finished"]),
                   H("h_snapshot_bag", 126, 8, covers=["reported failed", "reported finished"]),
                   H("h_snapshot_bag", 225, 8, covers=["reported failed", "reported finished"])]
        + deep(H("h_snapshot_one", 252, covers=["snapshot received"])),
    ),
    dict(
        id="R04", title="Snapshot transfers end with the leadership they belong to",
        statement="Only a leader sends snapshots and only a replica that does not lead accepts them. When leadership or the leader's "
        "term changes, every transfer under way is reported as failed, once, and nothing of it is sent or used afterwards; when "
        "nothing changes, transfers are left alone.",
        over=["histories"],
        quant="all sequences of changes of role, leader and term, with transfers at any stage",
        why=SNWHY, files=[SN], mech=[("following the state of the cluster", SN)],
        group="runtime",
        bounds="3 changes with transfers to up to 2 replicas at any stage; thorough: 4 changes.",
        harnesses=[H("h_snapshot_roles", 2, 2, covers=["cancelled", "completed", "leader"]), H("h_snapshot_roles", 3, 8, covers=["cancelled", "completed", "leader"])]
        + deep(H("h_snapshot_roles", 4, covers=["cancelled", "completed"])),
    ),
    dict(
        id="D01", title="All replicas apply the same events in the same order",
        statement="Whatever is lost, delayed or reordered between the replicas, and whichever of them lead, the actors of all replicas "
        "apply the same sequence of events, each event once and in the order of the log. Only events that an actor has proposed "
        "are ever applied.",
        over=["schedules", "histories"],
        quant="all orders of delivery, all losses, timeouts and changes of leadership, all events",
        why=WHY, files=[DR, CO, ST], mech=[("applying committed events to the actor", DR), ("proposing and replicating", CO), ("log of the replicas", ST)],
        group="runtime",
        bounds=CLUSTER + "3 replicas, 2 commands, 3 steps of delivering, losing or timing out, out of a healthy cluster, and until "
        "it is healthy again; 3 replicas whose actors propose by themselves, 3 steps; 3 events any of which may be alike; thorough: 4 steps.",
        assume=RAFT,
        harnesses=[H("h_replication", 323, 8, covers=["caught up", "command confirmed", "message lost", "vote granted"]),
                   H("h_spontaneous", 33, 8, covers=["caught up", "command confirmed"]),
                   H("h_repeats", 33, 4, covers=["repeated"])]
        + deep(H("h_replication", 324, covers=["caught up"]), H("h_spontaneous", 34, covers=["caught up"])),
    ),
    dict(
        id="D02", title="Confirmed commands are never lost",
        statement="A command is confirmed only by the replica that received it, only after its event has been replicated, and once, "
        "with the event's own contents. From then on it is part of the state of every replica, whatever happens to the leader, and "
        "a cluster that has become healthy again confirms new commands and brings all replicas up to date.",
        over=["schedules", "histories"],
        quant="all orders of delivery, all losses, timeouts and changes of leadership, all commands",
        why=WHY, files=[DR, CO, ST], mech=[("confirming owned events", DR), ("persisting before sending", DR)],
        group="runtime",
        bounds=CLUSTER + "2 replicas, 2 commands, 3 steps; 3 replicas, 1 command, 3 steps, with a change of leadership at any "
        "point; 3 replicas, one of which has to be sent a snapshot, 2 steps; thorough: 4 steps.",
        assume=RAFT,
        harnesses=[H("h_replication", 223, 4, covers=["caught up", "command confirmed"]),
                   H("h_replication", 313, 8, covers=["caught up", "command confirmed", "message lost"]),
                   H("h_catching_up", 3932, 4, covers=["caught up", "command confirmed"]),
                   H("h_spontaneous", 32, 4, covers=["caught up", "command confirmed"])]
        + deep(H("h_replication", 314, covers=["caught up"]), H("h_catching_up", 3234, covers=["caught up"])),
    ),
    dict(
        id="D03", title="At most one leader per term, at most one vote per replica",
        statement="Two replicas never report leading the same term, a replica never votes for two candidates in one term, and the term "
        "of a replica never goes back, whatever it receives, a snapshot included. Only the leader reports itself as the leader.",
        over=["schedules", "histories"],
        quant="all orders of delivery, all losses, timeouts and elections",
        why=WHY, files=[CO, DR, ST], mech=[("restoring votes and terms", CO), ("persisting the hard state before sending", DR)],
        group="runtime",
        bounds=CLUSTER + "3 replicas, 1 command, 3 steps; 3 replicas that lose leadership, 3 steps; a replica that falls behind and "
        "is sent a snapshot while anything happens, 3 replicas, 3 steps; thorough: 4 steps.",
        assume=RAFT,
        harnesses=[H("h_replication", 313, 8, covers=["vote granted"]), H("h_spontaneous", 33, 8, covers=["vote granted"]),
                   H("h_catching_up", 3233, 8, covers=["vote granted", "snapshot loaded"])]
        + deep(H("h_replication", 324, covers=["vote granted"]), H("h_catching_up", 3234, covers=["vote granted"])),
    ),
    dict(
        id="D04", title="A replica that fell behind catches up from a snapshot",
        statement="When the log no longer holds what a replica is missing, the leader sends it a snapshot, and the replica's actor ends "
        "up in exactly the state of the others, having loaded the snapshot and then applied only the events after it. This holds "
        "whatever happens to the leader or the messages in the meantime, as long as losses are reported.",
        over=["schedules", "crash_points"],
        quant="all points at which the replica falls behind, all sizes of parts, all deliveries, losses and changes of leadership",
        why=WHY, files=[DR, SN, ST, CO], mech=[("loading a snapshot into the actor", DR), ("transferring snapshots", SN), ("replacing the log", ST)],
        group="runtime",
        bounds=CLUSTER + "3 replicas, 3 commands, a snapshot after every 2 entries in parts of 2 to 9 bytes, 2 and 3 "
        "steps; a replica that misses up to 4 commands, with a snapshot after every 0 to 3 entries; thorough: 4 steps.",
        assume=RAFT + ["a part of a snapshot that is lost is reported as lost by the host, as the interface demands"],
        harnesses=[H("h_catching_up", 3232, 4, covers=["snapshot loaded", "caught up"]),
                   H("h_catching_up", 3933, 8, covers=["snapshot loaded", "caught up"]),
                   H("h_missed", 344, 4, covers=["snapshot loaded", "snapshot loaded again", "caught up"])]
        + deep(H("h_catching_up", 3234, covers=["snapshot loaded"]), H("h_catching_up", 3334, covers=["snapshot loaded"])),
    ),
    dict(
        id="D05", title="The cluster changes one replica at a time, and survives it",
        statement="Replicas are added and removed by the leader one at a time; a change that cannot be made, because the replica does "
        "not lead, another change is under way or no replica would remain, is rejected. A change that was made is reported, a removed replica, the leader "
        "included, does not lead any more, and the remaining replicas agree on the state, keep everything confirmed and go on.",
        over=["schedules", "histories"],
        quant="all replicas removed, all orders of delivery, losses and timeouts around the change",
        why=WHY, files=[DR, CO], mech=[("changing the cluster", DR), ("applying changes of the configuration", CO)],
        group="runtime",
        bounds=CLUSTER + "2 replicas, 1 step and 3 replicas, 2 steps around the removal of any of them; thorough: 3 steps.",
        assume=RAFT,
        harnesses=[H("h_membership", 21, 2, covers=["changed", "made"]),
                   H("h_membership", 32, 8, covers=["changed", "made", "leader removed", "follower removed"])]
        + deep(H("h_membership", 33, covers=["changed", "made"])),
    ),
    dict(
        id="D06", title="A replica does only what its life cycle permits",
        statement="A replica is started once, runs until it is stopped and stays stopped; requests that make no sense at that point are "
        "refused without any effect. While it runs, every request is answered, application messages reach the actor exactly once "
        "and nothing else does; an ephemeral replica replicates nothing and applies its events at once.",
        over=["histories", "inputs"],
        quant="all sequences of messages of all kinds with arbitrary fields, at any time of the life of a replica",
        why=WHY, files=[DR], mech=[("life cycle of the driver", DR), ("handing commands to the actor", DR)],
        group="runtime",
        bounds="2 messages of any of the kinds there are, including malformed ones, to a replica that has been created, leads, "
        "follows or is ephemeral.",
        assume=["a start request carries endorsements and its configuration is sensible (it is made by the operator)"],
        harnesses=[H("h_lifecycle", 20, 8, covers=["lived"]), H("h_lifecycle", 21, 8, covers=["lived"]),
                   H("h_lifecycle", 22, 8, covers=["lived"]), H("h_lifecycle", 23, 8, covers=["lived", "ephemeral"])],
    ),
    dict(
        id="D07", title="No message from outside brings a replica down",
        statement="Messages that are malformed, empty, addressed to another replica, from a replica that is not part of the cluster, "
        "too late or too early are ignored or answered with an error. The replica keeps running, and its state and the rest of the "
        "cluster are not affected.",
        over=["inputs", "histories"],
        quant="all kinds of messages with arbitrary fields at any time, all senders and recipients of genuine messages",
        why=WHY, files=[DR, CM], mech=[("stepping messages of peers", DR), ("dropping messages that make no sense", CM)],
        group="runtime",
        bounds="A message of any kind with arbitrary contents of 2 bytes to a replica at any time of its life, 2 in a row to one "
        "that leads; each message of the leader of 3 replicas with any other sender or recipient.",
        assume=RAFT + ["peers are attested: a message that claims to be one of the consensus library's own internal ones is not sent by them"],
        harnesses=[H("h_lifecycle", 10, 2, covers=["lived"]), H("h_lifecycle", 11, 2, covers=["lived"]), H("h_lifecycle", 12, 2, covers=["lived"]),
                   H("h_lifecycle", 13, 2, covers=["lived"]), H("h_lifecycle", 21, 8, covers=["lived"]),
                   H("h_forged", 3, 4, covers=["forged", "caught up"])],
    ),
    dict(
        id="D08", title="Replicas report their leader and their cluster truthfully",
        statement="Every replica answers when it is asked for the state of the cluster. The leader, and no other replica, reports itself "
        "as leading, and it knows exactly which replicas make up the cluster.",
        over=["histories", "schedules"],
        quant="all replicas asked, before and after changes of the cluster and of leadership",
        why=WHY, files=[DR, CO], mech=[("answering requests for the cluster", DR), ("announcing leadership", DR)],
        group="runtime",
        bounds="Clusters of 2 and 3 replicas, each replica asked, also while the cluster changes; 3 replicas, one of which learns of "
        "a replica that is added or removed, with the log or from a snapshot, and takes over; changes of the cluster and of leadership as in D03 and D05.",
        assume=RAFT,
        harnesses=[H("h_check_cluster", 2, 1, covers=["leader", "follower"]), H("h_check_cluster", 3, 2, covers=["leader", "follower", "changing"]),
                   H("h_reconfigured", 31, 2, covers=["snapshot loaded", "added", "removed"]), H("h_reconfigured", 39, 2, covers=["added", "removed"]),
                   H("h_spontaneous", 23, 4, covers=["caught up"]), H("h_membership", 21, 2, covers=["changed"])],
    ),
    dict(
        id="D09", title="Time only moves forward, and drives leadership",
        statement="The time an actor sees is the latest time the host has reported, and never goes back, whatever the host reports. "
        "A single replica becomes the leader after exactly the configured number of periods, and one in lameduck mode gives up "
        "leadership to the others and does not strive for it.",
        over=["inputs", "schedules"],
        quant="all sequences of instants, also repeated and decreasing ones, lameduck mode entered at any time",
        why=WHY, files=[DR, CO], mech=[("ticking", DR), ("lameduck mode", DR)],
        group="runtime",
        bounds="4 calls with arbitrary instants, lameduck mode entered before any of them; 3 replicas, any of which enters lameduck "
        "mode, 2 steps.",
        assume=RAFT,
        harnesses=[H("h_time", 30, 2, covers=["leads", "waits"]), H("h_time", 41, 4, covers=["lameduck", "waits"]),
                   H("h_lameduck", 30, 1, covers=["leader", "follower"]), H("h_lameduck", 32, 8, covers=["leader", "follower"])]
        + deep(H("h_time", 51, covers=["lameduck", "leads"]), H("h_lameduck", 33, covers=["leader"])),
    ),
    dict(
        id="M01", title="Nothing leaves a replica for another one unencrypted",
        statement="What a replica sends to another one is encrypted with a session of these two, after both have attested each other; "
        "until then it is kept back, and if sessions cannot be established it is never sent. The host, which carries all messages "
        "and may change, repeat or invent them, cannot make a replica send anything in the clear.",
        over=["schedules", "inputs"],
        quant="all orders in which the host delivers, repeats, loses or invents messages, at any stage of the handshake",
        why=CMWHY, files=[CM, HS, EN], mech=[("withholding and encrypting messages", CM), ("handshake of initiator and recipient", HS)],
        group="runtime",
        bounds="2 replicas, 3 steps from scratch, 2 from a handshake under way or complete, then until they are in touch again; 2 "
        "messages of all kinds that the session fails to encrypt; "
        "thorough: 3 steps from each.",
        assume=SESS,
        harnesses=[H("h_comm_hostile", 3, 8, covers=["encrypted", "handshake", "forged"]), H("h_comm_hostile", 12, 8, covers=["encrypted"]),
                   H("h_comm_hostile", 22, 8, covers=["encrypted"]), H("h_comm_refused", 0, 1, covers=["refused"]),
                   H("h_comm_mute", 2, 2, covers=["mute"])]
        + deep(H("h_comm_hostile", 13, covers=["encrypted"]), H("h_comm_hostile", 23, covers=["encrypted"])),
    ),
    dict(
        id="M02", title="Only messages that a peer has sent are accepted, and once",
        statement="A replica accepts a message from another one only if that replica has sent it to this one, over a session "
        "in which each has attested the other, and accepts it once. Messages that the host has repeated, changed or invented are dropped, "
        "whatever the stage of the handshake.",
        over=["schedules", "inputs"],
        quant="all orders in which the host delivers, repeats, loses or invents messages, at any stage of the handshake",
        why=CMWHY, files=[CM, HS, EN], mech=[("decrypting messages", CM), ("sealing and opening", EN)],
        group="runtime",
        bounds="2 replicas, 3 steps from a complete handshake, 2 from scratch or a handshake under way, then until they are in touch "
        "again; thorough: 3 steps from each.",
        assume=SESS,
        harnesses=[H("h_comm_hostile", 23, 8, covers=["received", "forged"]), H("h_comm_hostile", 2, 4, covers=["received"]),
                   H("h_comm_hostile", 12, 8, covers=["received"])]
        + deep(H("h_comm_hostile", 3, covers=["received"]), H("h_comm_hostile", 13, covers=["received"])),
    ),
    dict(
        id="M03", title="Replicas find each other again, and lose no messages doing so",
        statement="Whatever the host has done to their handshakes, two replicas that keep sending get in touch again once messages are "
        "delivered, even when both have started at the same time or only one of them believes the handshake to be complete. "
        "Messages kept back are then sent in their order, each once, over the new session, older heartbeats replaced by newer ones.",
        over=["schedules", "crash_points"],
        quant="all orders in which the host delivers, repeats, loses or invents messages, at any stage of the handshake",
        why=CMWHY, files=[CM, HS], mech=[("retrying handshakes", CM), ("keeping messages back", CM)],
        group="runtime",
        bounds="2 replicas, 3 steps from a handshake under way, 2 from scratch, a complete one, one complete for one "
        "replica only or one started by both; then one replica sends heartbeats, "
        "and the other answers them and sends by itself when it has heard nothing for long; thorough: 3 steps from each.",
        assume=SESS,
        harnesses=[H("h_comm_hostile", 13, 8, covers=["recovered", "forged"]), H("h_comm_hostile", 2, 4, covers=["recovered"]),
                   H("h_comm_hostile", 22, 8, covers=["recovered"]), H("h_comm_hostile", 32, 8, covers=["recovered"]),
                   H("h_comm_hostile", 42, 8, covers=["recovered"])]
        + deep(H("h_comm_hostile", 33, covers=["recovered"]), H("h_comm_hostile", 43, covers=["recovered"]), H("h_comm_hostile", 3, covers=["recovered"]), H("h_comm_hostile", 23, covers=["recovered"])),
    ),
    dict(
        id="M04", title="A replica that has left is cut off",
        statement="When a replica leaves the cluster, its sessions and whatever was kept back for it are dropped, silently, and nothing "
        "is sent to it any more; the other sessions go on. If it returns it has to be attested again.",
        over=["histories", "schedules"],
        quant="all replicas that leave, at any stage of their handshakes, the replica itself included",
        why=CMWHY, files=[CM], mech=[("following the membership of the cluster", CM)],
        group="runtime",
        bounds="3 replicas, 4 steps before one of them leaves; thorough: 6 steps.",
        assume=SESS,
        harnesses=[H("h_comm_leaving", 2, 2, covers=["again", "stays"]), H("h_comm_leaving", 4, 4, covers=["again", "stays", "received"])]
        + deep(H("h_comm_leaving", 6, covers=["again", "stays"])),
    ),
    dict(
        id="M05", title="Peers are attested against the application's reference values",
        statement="Every session a replica opens or accepts is attested in both directions, the peer against every layer of the reference "
        "values of the application and at the current time, and bound to the attested key. Hardware evidence is waived only if the "
        "reference values say so explicitly and are complete, and the replica presents the endorsements its host has given it.",
        over=["inputs"],
        quant="all shapes and contents of reference values, all endorsements, with and without a clock of the application",
        why="No test looks at how sessions are configured.",
        files=[SE, SV, DR, CM], mech=[("configuring sessions", SE), ("passing on reference values, endorsements and clock", DR), ("assembling the service", SV)],
        group="runtime",
        bounds="Reference values of both kinds or none, any layer missing, hardware evidence and waiver present or not, arbitrary "
        "one-byte digests; a session opened by the replica or by its peer, the replica a leader, a follower or ephemeral.",
        assume=["Oak's session and attestation libraries are stand-ins that remember how they were configured; what they then verify is not covered"],
        harnesses=[H("h_policy", 0, 4, covers=["sev", "insecure", "dice"]), H("h_policy", 1, 4, covers=["dice"]),
                   H("h_policy", 2, 4, covers=["dice"]), H("h_policy", 3, covers=["dice"]), H("h_comm_refused", 0, 1, covers=["refused"])],
    ),
    dict(
        id="M06", title="What a session seals is sent, what it opens is accepted, nothing else",
        statement="A replica hands every message to the session unchanged and sends exactly what the session has sealed. It hands "
        "what arrives to the session unchanged, and accepts exactly what the session has opened. If the session fails in "
        "any way, nothing is sent or accepted.",
        over=["inputs"],
        quant="all messages, all ciphertexts and nonces, all ways in which a session can fail, as initiator and as recipient",
        why="The tests pass a handful of constants through mocked sessions.",
        files=[EN, SE], mech=[("sealing and opening", EN), ("forwarding to the session library", SE)],
        group="runtime",
        bounds="Messages of up to 2 bytes, ciphertexts of 2, nonces of 1, all arbitrary; every combination of failures of the session.",
        assume=["a sealed message carries a nonce"],
        harnesses=[H("h_channel", 0, covers=["sealed", "not sealed", "opened", "not opened"]),
                   H("h_channel", 1, covers=["sealed", "not sealed", "opened", "not opened"])],
    ),
]
