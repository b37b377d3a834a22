//! Snapshot transfer between a leader and its followers.
use crate::env::*;
use raft::eraftpb::{ConfState, Snapshot, SnapshotMetadata};
use raft::SnapshotStatus;
use tcp_proto::runtime::endpoint::{raft_config::SnapshotConfig, *};
use tcp_runtime::snapshot::*;

const LEADER: u64 = 1;

fn processor(id: u64, leader: bool, config: Option<SnapshotConfig>) -> DefaultSnapshotProcessor {
    let mut p = DefaultSnapshotProcessor::new(Box::new(DefaultSnapshotSender::new()), Box::new(DefaultSnapshotReceiver::new()));
    p.init(logger(), id, &config);
    if leader {
        p.process_cluster_change(id, 1, &[1, 2, 3]);
    }
    p
}
fn sender(p: &mut DefaultSnapshotProcessor) -> &mut dyn SnapshotSender {
    match p.mut_processor(0) {
        SnapshotProcessorRole::Sender(s) => s,
        _ => panic!("not a sender"),
    }
}
fn receiver(p: &mut DefaultSnapshotProcessor) -> &mut dyn SnapshotReceiver {
    match p.mut_processor(0) {
        SnapshotProcessorRole::Receiver(r) => r,
        _ => panic!("not a receiver"),
    }
}
fn snapshot(index: u64, size: usize) -> Snapshot {
    Snapshot {
        data: bytes("data", size),
        metadata: Some(SnapshotMetadata { conf_state: Some(ConfState { voters: vec![1, 2, 3], ..Default::default() }), index, term: 1 }),
    }
}

enum Packet {
    Request(DeliverSnapshotRequest),
    Response(DeliverSnapshotResponse),
}

struct World {
    leader: DefaultSnapshotProcessor,
    followers: BTreeMap<u64, DefaultSnapshotProcessor>,
    /// Snapshots started so far, by receiver; the last one is the current one.
    started: BTreeMap<u64, Vec<Snapshot>>,
    active: BTreeSet<u64>,
    received: BTreeMap<u64, Vec<Snapshot>>,
    reports: BTreeMap<u64, Vec<SnapshotStatus>>,
    /// Requests sent for transfers still active, neither answered nor given up on.
    pending: BTreeMap<u64, u64>,
    max_pending: usize,
    wire: Vec<Packet>,
    next_index: u64,
}

impl World {
    fn new(chunk_size: u64, max_pending: u32, followers: u64) -> World {
        let config = Some(SnapshotConfig { snapshot_count: 10, chunk_size, max_pending_chunks: max_pending });
        World {
            leader: processor(LEADER, true, config),
            followers: (2..2 + followers).map(|i| (i, processor(i, false, config))).collect(),
            started: BTreeMap::new(),
            active: BTreeSet::new(),
            received: BTreeMap::new(),
            reports: BTreeMap::new(),
            pending: BTreeMap::new(),
            max_pending: max_pending as usize,
            wire: vec![],
            next_index: 2,
        }
    }
    fn start(&mut self, to: u64, size: usize) {
        let s = snapshot(self.next_index, size);
        self.next_index += 1;
        sender(&mut self.leader).start(to, s.clone());
        self.started.entry(to).or_default().push(s);
        self.active.insert(to);
        self.pending.retain(|_, r| *r != to);
    }
    fn pump(&mut self) {
        while let Some(r) = sender(&mut self.leader).next_request() {
            check(r.sender_replica_id == LEADER, "requests carry their sender");
            check(self.active.contains(&r.recipient_replica_id), "requests only for active transfers");
            check(!self.pending.contains_key(&r.delivery_id), "deliveries have distinct ids");
            self.pending.insert(r.delivery_id, r.recipient_replica_id);
            check(self.pending.len() <= self.max_pending, "a limited number of requests is outstanding");
            self.wire.push(Packet::Request(r));
        }
    }
    fn collect(&mut self) {
        for (id, f) in self.followers.iter_mut() {
            if let Some(r) = receiver(f).try_complete() {
                match r {
                    Err(_) => check(false, "an intact snapshot is accepted"),
                    Ok((from, s)) => {
                        check(from == LEADER, "a snapshot is attributed to its sender");
                        let started = self.started.get(id).cloned().unwrap_or_default();
                        let i = s.metadata.as_ref().map_or(0, |m| m.index);
                        let mut known = false;
                        for o in started {
                            if o.metadata.as_ref().unwrap().index == i {
                                known = true;
                                check(o == s, "a received snapshot is the one that was sent");
                            }
                        }
                        check(known, "a received snapshot had been sent to this replica");
                        self.received.entry(*id).or_default().push(s);
                        cover("snapshot received");
                    }
                }
            }
        }
        while let Some((id, st)) = sender(&mut self.leader).try_complete() {
            check(self.active.remove(&id), "only active transfers are reported, once");
            self.pending.retain(|_, r| *r != id);
            self.reports.entry(id).or_default().push(st);
            if st == SnapshotStatus::Finish {
                cover("reported finished");
            } else {
                cover("reported failed");
            }
        }
    }
    fn finished(&self, id: u64) -> usize {
        self.reports.get(&id).map_or(0, |r| r.iter().filter(|s| **s == SnapshotStatus::Finish).count())
    }
    fn deliver(&mut self, p: Packet) {
        match p {
            Packet::Request(r) => {
                let f = self.followers.get_mut(&r.recipient_replica_id).unwrap();
                let (id, to, from) = (r.delivery_id, r.recipient_replica_id, r.sender_replica_id);
                let a = receiver(f).process_request(r);
                check(a.delivery_id == id && a.sender_replica_id == to && a.recipient_replica_id == from, "an answer names its request");
                self.wire.push(Packet::Response(a));
            }
            Packet::Response(r) => {
                self.pending.remove(&r.delivery_id);
                sender(&mut self.leader).process_response(r.sender_replica_id, r.delivery_id, Ok(r));
            }
        }
        self.collect();
    }
    fn lose(&mut self, p: Packet) {
        let (id, from) = match p {
            Packet::Request(r) => (r.delivery_id, r.recipient_replica_id),
            Packet::Response(r) => (r.delivery_id, r.sender_replica_id),
        };
        self.pending.remove(&id);
        sender(&mut self.leader).process_response(from, id, Err(SnapshotError::FailedDelivery));
        self.collect();
    }
}

fn copy(p: &Packet) -> Packet {
    match p {
        Packet::Request(r) => Packet::Request(r.clone()),
        Packet::Response(r) => Packet::Response(r.clone()),
    }
}

/// Transfers to several replicas over reliable links, interleaved in any way.
/// case: followers * 100 + largest snapshot * 10 + largest limit of outstanding requests.
pub fn transfer() {
    let (followers, size, limit) = (case() / 100, (case() / 10 % 10) as usize, (case() % 10) as usize);
    let mut w = World::new(1 + choose("chunk size", size.max(1)) as u64, 1 + choose("outstanding", limit) as u32, followers);
    for id in 2..2 + followers {
        let n = choose("size", size + 1);
        w.start(id, n);
    }
    w.collect();
    w.pump();
    let mut steps = 0;
    while !w.wire.is_empty() {
        // The links are independent of each other, each keeps its order.
        let mut heads: Vec<usize> = vec![];
        for id in 2..2 + followers {
            for dir in 0..2 {
                if let Some(i) = w.wire.iter().position(|p| match p {
                    Packet::Request(r) => dir == 0 && r.recipient_replica_id == id,
                    Packet::Response(r) => dir == 1 && r.sender_replica_id == id,
                }) {
                    heads.push(i);
                }
            }
        }
        let i = heads[if heads.len() > 1 { choose("next", heads.len()) } else { 0 }];
        let p = w.wire.remove(i);
        w.deliver(p);
        w.pump();
        steps += 1;
        check(steps < 100, "transfers end");
    }
    for id in 2..2 + followers {
        check(w.received.get(&id).map_or(0, |r| r.len()) == 1, "every snapshot arrives exactly once");
        check(w.reports.get(&id) == Some(&vec![SnapshotStatus::Finish]), "every transfer is reported finished exactly once");
    }
}

/// A network that reorders, loses and (if asked to) duplicates; transfers are restarted.
/// case: duplicates * 1000 + followers * 100 + transfers * 10 + steps.
pub fn network() {
    let (dup, followers, transfers, steps) = (case() / 1000 > 0, case() / 100 % 10, case() / 10 % 10, case() % 10);
    let mut w = World::new(1 + choose("chunk size", 2) as u64, 2, followers);
    let mut left = transfers;
    for _ in 0..steps {
        let n = w.wire.len();
        let kinds = if dup { 3 } else { 2 };
        let c = choose("step", n * kinds + (left > 0) as usize);
        if c == n * kinds {
            left -= 1;
            let to = if followers > 1 { 2 + choose("to", followers as usize) as u64 } else { 2 };
            let size = 1 + choose("size", 3);
            w.start(to, size);
            w.collect();
        } else {
            let i = c / kinds;
            match c % kinds {
                0 => {
                    let p = w.wire.remove(i);
                    w.deliver(p);
                }
                1 => {
                    let p = w.wire.remove(i);
                    w.lose(p);
                    cover("lost");
                }
                _ => {
                    let p = copy(&w.wire[i]);
                    w.deliver(p);
                    cover("duplicated");
                }
            }
        }
        w.pump();
        if !dup {
            for id in 2..2 + followers {
                check(
                    w.finished(id) <= w.received.get(&id).map_or(0, |r| r.len()),
                    "a transfer is reported finished only if the snapshot has been received",
                );
            }
        }
    }
    // Everything in flight is lost: all transfers must come to an end.
    for _ in 0..20 {
        if w.wire.is_empty() {
            break;
        }
        let p = w.wire.remove(0);
        w.lose(p);
        w.pump();
    }
    check(w.active.is_empty(), "every transfer is eventually reported");
}

/// Changes of leadership: roles follow the cluster, transfers are cancelled.
/// case: changes.
pub fn roles() {
    let changes = case();
    let limit = [1, 4][choose("outstanding", 2)];
    let config = Some(SnapshotConfig { snapshot_count: 10, chunk_size: 1, max_pending_chunks: limit });
    let mut p = processor(1, false, config);
    let mut role_leader = false;
    let (mut leader, mut term) = (0, 0);
    // The transfers under way, and whether a snapshot is partially received.
    let mut active: BTreeSet<u64> = BTreeSet::new();
    let mut partial: Option<Snapshot> = None;
    for _ in 0..changes {
        // Some activity in the current role.
        if role_leader {
            for id in 2..4 {
                if flip("start transfer") {
                    sender(&mut p).start(id, snapshot(5, 2));
                    active.insert(id);
                }
            }
            let mut n = 0;
            while let Some(r) = sender(&mut p).next_request() {
                check(active.contains(&r.recipient_replica_id), "only active transfers send");
                if n == 0 && flip("acknowledge") {
                    let a = acknowledge(&r);
                    sender(&mut p).process_response(r.recipient_replica_id, r.delivery_id, Ok(a));
                }
                n += 1;
            }
            let header = DeliverSnapshotRequest { recipient_replica_id: 1, sender_replica_id: 2, delivery_id: 3, payload: Some(header(&snapshot(7, 1), 1)), ..Default::default() };
            let a = sender(&mut p).process_unexpected_request(header);
            check(!accepted(&a), "a leader accepts no snapshots");
        } else {
            if flip("receive") {
                let s = snapshot(9, 2);
                let r = DeliverSnapshotRequest { recipient_replica_id: 1, sender_replica_id: 2, delivery_id: 3, payload: Some(header(&s, 4)), ..Default::default() };
                check(accepted(&receiver(&mut p).process_request(r)), "a follower accepts snapshots");
                partial = Some(s);
            }
            check(receiver(&mut p).try_complete().is_none(), "an incomplete snapshot is not used");
        }
        // The cluster changes.
        let (new_leader, new_term) = (choose("leader", 3) as u64, any_u64("term"));
        let member = flip("member");
        let members: &[u64] = if member { &[1, 2, 3] } else { &[2, 3] };
        let cancelled = p.process_cluster_change(new_leader, new_term, members);
        let changed = new_leader != leader || new_term != term || !member;
        (leader, term) = (new_leader, new_term);
        if role_leader && changed {
            let mut ids: BTreeSet<u64> = BTreeSet::new();
            for (id, s) in &cancelled {
                check(*s == SnapshotStatus::Failure, "cancelled transfers have failed");
                check(ids.insert(*id), "a transfer is cancelled once");
            }
            check(ids == active, "all transfers are cancelled when leadership changes");
            active.clear();
            cover("cancelled");
        } else {
            check(cancelled.is_empty(), "nothing else is cancelled");
        }
        if !role_leader && changed {
            partial = None;
        }
        role_leader = leader == 1;
        match p.mut_processor(0) {
            SnapshotProcessorRole::Sender(s) => {
                check(role_leader, "only the leader sends");
                cover("leader");
                if active.is_empty() {
                    check(s.next_request().is_none(), "nothing is left of cancelled transfers");
                    check(s.try_complete().is_none(), "nothing is left of cancelled transfers");
                }
                partial = None;
            }
            SnapshotProcessorRole::Receiver(r) => {
                check(!role_leader, "the leader does not receive");
                // The rest of a snapshot completes it only if nothing has changed.
                if let Some(s) = &partial {
                    let q = DeliverSnapshotRequest { recipient_replica_id: 1, sender_replica_id: 2, delivery_id: 4, payload: Some(chunk(s, 4)), ..Default::default() };
                    check(accepted(&r.process_request(q)), "the rest of a snapshot is accepted");
                    check(r.try_complete() == Some(Ok((2, s.clone()))), "the snapshot is complete");
                    cover("completed");
                    partial = None;
                } else {
                    let s = snapshot(9, 2);
                    let q = DeliverSnapshotRequest { recipient_replica_id: 1, sender_replica_id: 2, delivery_id: 4, payload: Some(chunk(&s, 4)), ..Default::default() };
                    check(!accepted(&r.process_request(q)), "a chunk of an unknown snapshot is rejected");
                    check(r.try_complete().is_none(), "nothing is left of an abandoned snapshot");
                }
            }
        }
    }
}

fn header(s: &Snapshot, id: u32) -> Payload {
    use deliver_snapshot_request::{snapshot_content::*, SnapshotContent};
    let it = It::Header(Header {
        snapshot_size: s.data.len() as u64,
        snapshot_metadata: s.metadata.as_ref().unwrap().encode_to_vec().into(),
        chunk_contents: s.data[..1].to_vec().into(),
    });
    Payload { contents: SnapshotContent { snapshot_id: id, it: Some(it) }.encode_to_vec().into(), ..Default::default() }
}
fn chunk(s: &Snapshot, id: u32) -> Payload {
    use deliver_snapshot_request::{snapshot_content::*, SnapshotContent};
    let it = It::Chunk(Chunk { chunk_index: 1, chunk_contents: s.data[1..].to_vec().into() });
    Payload { contents: SnapshotContent { snapshot_id: id, it: Some(it) }.encode_to_vec().into(), ..Default::default() }
}
fn accepted(r: &DeliverSnapshotResponse) -> bool {
    let a = deliver_snapshot_response::SnapshotAck::decode(r.payload.as_ref().unwrap().contents.clone()).unwrap();
    a.status == DeliverSnapshotStatus::SnapshotStatusAccepted as i32
}

fn acknowledge(r: &DeliverSnapshotRequest) -> DeliverSnapshotResponse {
    use deliver_snapshot_request::{snapshot_content::It, SnapshotContent};
    let c = SnapshotContent::decode(r.payload.as_ref().unwrap().contents.clone()).unwrap();
    let ack = deliver_snapshot_response::SnapshotAck {
        snapshot_id: c.snapshot_id,
        chunk_index: match c.it {
            Some(It::Chunk(c)) => c.chunk_index,
            _ => 0,
        },
        status: DeliverSnapshotStatus::SnapshotStatusAccepted.into(),
    };
    DeliverSnapshotResponse {
        recipient_replica_id: r.sender_replica_id,
        sender_replica_id: r.recipient_replica_id,
        delivery_id: r.delivery_id,
        payload: Some(Payload { contents: ack.encode_to_vec().into(), ..Default::default() }),
        ..Default::default()
    }
}

/// A receiver that gets the parts of several transfers in any order, some more than once, some
/// damaged. case: size * 100 + damaged * 10 + parts.
pub fn parts() {
    let (size, damaged, steps) = ((case() / 100) as usize, case() / 10 % 10 > 0, case() % 10);
    let mut p = processor(2, false, None);
    // Transfers of other contents but the same description: of the same leader, and of another one.
    let transfers: Vec<(u64, u32, Snapshot)> =
        [(1, 1), (1, 2), (3, 1)].iter().map(|(from, id)| (*from, *id, snapshot(5, size))).collect();
    let chunk_size = if size > 3 { 2 } else { 1 };
    let count = size.div_ceil(chunk_size);
    let mut current = 0;
    let mut have: BTreeSet<usize> = BTreeSet::new();
    let mut started = false;
    let mut delivery = 0;
    let mut send = |p: &mut DefaultSnapshotProcessor, t: usize, i: usize, len: usize| -> bool {
        use deliver_snapshot_request::{snapshot_content::*, SnapshotContent};
        let (from, id, s) = &transfers[t];
        let mut contents: Vec<u8> = s.data.iter().skip(i * chunk_size).take(len).copied().collect();
        contents.resize(len, 0);
        let it = if i == 0 {
            It::Header(Header { snapshot_size: size as u64, snapshot_metadata: s.metadata.as_ref().unwrap().encode_to_vec().into(), chunk_contents: contents.into() })
        } else {
            It::Chunk(Chunk { chunk_index: i as u32, chunk_contents: contents.into() })
        };
        delivery += 1;
        let r = DeliverSnapshotRequest {
            recipient_replica_id: 2,
            sender_replica_id: *from,
            delivery_id: delivery,
            payload: Some(Payload { contents: SnapshotContent { snapshot_id: *id, it: Some(it) }.encode_to_vec().into(), ..Default::default() }),
            ..Default::default()
        };
        let a = receiver(p).process_request(r);
        check(a.delivery_id == delivery && a.recipient_replica_id == *from && a.sender_replica_id == 2, "an answer names its request");
        let k = deliver_snapshot_response::SnapshotAck::decode(a.payload.as_ref().unwrap().contents.clone()).unwrap();
        check(k.snapshot_id == *id && k.chunk_index == i as u32, "an answer names its part");
        accepted(&a)
    };
    let proper = |i: usize| if i + 1 < count { chunk_size } else { size - (count - 1) * chunk_size };
    for _ in 0..steps {
        let t = choose("transfer", 3);
        let i = choose("part", count + 1);
        let len = if i == count {
            1
        } else if i > 0 && damaged {
            (proper(i) + choose("damage", 3)).saturating_sub(1)
        } else {
            proper(i)
        };
        let ok = send(&mut p, t, i, len);
        if i == 0 {
            check(ok, "a snapshot can always be started");
            (current, started) = (t, true);
            have = BTreeSet::from([0]);
        } else {
            let fits = started && t == current && i < count && len == proper(i);
            check(ok == fits, "exactly the parts of the current transfer are accepted");
            if fits {
                have.insert(i);
            }
        }
        complete(&mut p, &transfers[current], &mut started, &have, count);
    }
    // The parts that are missing complete it.
    if started {
        for i in 1..count {
            if !have.contains(&i) {
                check(send(&mut p, current, i, proper(i)), "a missing part is accepted");
                have.insert(i);
                complete(&mut p, &transfers[current], &mut started, &have, count);
            }
        }
        check(!started, "a snapshot arrives once all of its parts have");
    }
    check(receiver(&mut p).try_complete().is_none(), "a snapshot is used once");
}

fn complete(p: &mut DefaultSnapshotProcessor, t: &(u64, u32, Snapshot), started: &mut bool, have: &BTreeSet<usize>, count: usize) {
    match receiver(p).try_complete() {
        None => check(!*started || have.len() < count, "a complete snapshot is used"),
        Some(Ok((from, s))) => {
            check(*started && have.len() == count, "only a complete snapshot is used");
            check(from == t.0 && s == t.2, "a received snapshot is the one that was sent");
            *started = false;
            cover("complete");
        }
        Some(Err(_)) => check(false, "an intact snapshot is accepted"),
    }
}
