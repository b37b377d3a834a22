//! The driver: replication, leadership, lifecycle.
use crate::cluster::*;
use crate::env::*;
use tcp_proto::runtime::endpoint::*;

/// Any schedule of a healthy cluster that has been brought up.
/// case: replicas * 100 + commands * 10 + steps.
pub fn replication() {
    let (n, commands, steps) = (case() / 100, case() / 10 % 10, case() % 10);
    let mut c = Cluster::bring_up(n, &DEFAULT);
    for id in 1..=n {
        check(c.nodes[&id].view.borrow().leader == (id == 1), "followers follow");
    }
    run(&mut c, n, commands, steps);
    finish(&mut c, n);
}

fn run(c: &mut Cluster, n: u64, mut commands: u64, steps: u64) {
    for _ in 0..steps {
        let w = c.wire.len().min(4);
        let k = choose("step", 2 * w + n as usize + if commands > 0 { n as usize } else { 0 });
        if k < w {
            c.deliver(k);
        } else if k < 2 * w {
            c.lose(k - w);
            cover("message lost");
        } else if k < 2 * w + n as usize {
            // The replica is out of patience.
            let id = 1 + (k - 2 * w) as u64;
            for _ in 0..ELECTION {
                c.tick(id);
            }
        } else {
            commands -= 1;
            c.command(1 + (k - 2 * w - n as usize) as u64);
        }
    }
}

fn finish(c: &mut Cluster, n: u64) {
    c.heal();
    let l = c.leader();
    check(l.is_some(), "a leader emerges");
    let Some(l) = l else { return };
    let id = c.command(l);
    c.heal();
    check(c.accepted.contains(&id), "a healthy cluster confirms commands");
    for k in 1..=n {
        check(c.nodes[&k].view.borrow().state.len() == c.history.len(), "all replicas catch up");
    }
    for a in &c.accepted {
        check(c.history.iter().any(|h| h.0 == *a), "confirmed commands are never lost");
    }
    c.ownership();
    cover("caught up");
}

/// A message of any kind with contents of any kind.
fn any_message(kind: u8) -> Option<InMessage> {
    // Replicas send well-formed messages to each other, everything else does not decrypt.
    let payload = || match choose("payload", 3) {
        0 => None,
        1 => Some(Payload { contents: Bytes::from_static(&[0xff]), ..Default::default() }),
        _ if kind == 6 => None,
        _ => Some(Payload { contents: bytes("contents", 2).into(), ..Default::default() }),
    };
    let id = |n: &'static str| range(n, 0, 4);
    let msg = match kind {
        0 => None?,
        1 => return Some(InMessage { msg: None }),
        2 => in_message::Msg::StopReplica(StopReplicaRequest {}),
        3 => in_message::Msg::EnterLameduckMode(EnterLameduckMode {}),
        4 => in_message::Msg::ChangeCluster(ChangeClusterRequest {
            change_id: any_u64("change"),
            replica_id: range("replica", 1, 4),
            change_type: choose("type", 4) as i32 - 1,
        }),
        5 => in_message::Msg::CheckCluster(CheckClusterRequest {}),
        6 => in_message::Msg::DeliverSystemMessage(DeliverSystemMessage {
            recipient_replica_id: id("to"),
            sender_replica_id: id("from"),
            payload: payload(),
            ..Default::default()
        }),
        7 => in_message::Msg::DeliverSnapshotRequest(DeliverSnapshotRequest {
            recipient_replica_id: id("to"),
            sender_replica_id: id("from"),
            delivery_id: any_u64("delivery"),
            payload: payload(),
            ..Default::default()
        }),
        8 => in_message::Msg::DeliverSnapshotResponse(DeliverSnapshotResponse {
            recipient_replica_id: id("to"),
            sender_replica_id: id("from"),
            delivery_id: any_u64("delivery"),
            payload: payload(),
            ..Default::default()
        }),
        9 => in_message::Msg::DeliverSnapshotFailure(DeliverSnapshotFailure {
            sender_replica_id: id("from"),
            delivery_id: any_u64("delivery"),
            ..Default::default()
        }),
        10 => in_message::Msg::GetReplicaState(GetReplicaStateRequest {}),
        11 => in_message::Msg::SecureChannelHandshake(SecureChannelHandshake {
            recipient_replica_id: id("to"),
            sender_replica_id: id("from"),
            encryption: None,
        }),
        _ => app(any_u64("correlation"), any_u8("contents")),
    };
    Some(InMessage { msg: Some(msg) })
}

#[derive(PartialEq, Clone, Copy)]
enum Life {
    Created,
    Leader,
    Follower,
    Ephemeral,
    Stopped,
}

/// Any messages at any time of the life of a replica.
/// case: messages * 10 + (0 created, 1 leader, 2 follower, 3 ephemeral).
pub fn lifecycle() {
    let mut node = Node::new(1, Clear::default());
    let mut life = Life::Created;
    let mut start = |node: &mut Node<Clear>, kind: u64| {
        let s = Settings { ephemeral: kind == 3, ..DEFAULT };
        let out = node.receive(Some(start_request(1, kind == 1, &s)));
        check(matches!(&out[..], [out_message::Msg::StartReplica(r)] if r.replica_id == 1), "starting a replica is confirmed");
        if kind == 1 {
            for _ in 0..ELECTION + 1 {
                node.tick();
            }
        }
        [Life::Created, Life::Leader, Life::Follower, Life::Ephemeral][kind as usize]
    };
    let kind = case() % 10;
    if kind != 0 {
        life = start(&mut node, kind);
    }
    let mut replicated = 0;
    let mut alone = true;
    let mut lameduck = false;
    for _ in 0..case() / 10 {
        let m = choose("message", 14) as u8;
        node.clock += if lameduck { 0 } else { PERIOD / 2 };
        if m == 13 {
            let kind = 1 + choose("start", 3) as u64;
            if life == Life::Created {
                life = start(&mut node, kind);
            } else {
                let r = node.try_receive(Some(start_request(1, kind == 1, &DEFAULT)));
                check(r.is_err(), "a replica starts once");
            }
            continue;
        }
        let before = (node.view.borrow().commands, node.view.borrow().ticks, node.view.borrow().down);
        let mut w = Wire::default();
        let msg = any_message(m);
        if life == Life::Ephemeral {
            node.view.borrow_mut().spontaneous = Some((77, m));
        }
        let r = node.raw(&mut w, msg);
        let out: Vec<out_message::Msg> = w.out.into_iter().filter_map(|m| m.msg).collect();
        let v = node.view.borrow();
        let (commands, ticks) = (v.commands - before.0, v.ticks - before.1);
        let running = matches!(life, Life::Leader | Life::Follower | Life::Ephemeral);
        let needs_start = matches!(m, 4..=11);
        let needs_raft = matches!(m, 4..=9);
        let expected = !(needs_start && !running || needs_raft && life == Life::Ephemeral);
        check(r.is_ok() == expected, "only operations that make sense are accepted");
        check(m != 12 || commands == running as u64, "a running replica hands messages to the actor");
        check(m == 12 || commands == 0, "only application messages are handed to the actor");
        check(
            life != Life::Ephemeral || ticks == 0 || v.state.last() == Some(&(77, m)) && v.owned.last() == Some(&77),
            "an ephemeral replica applies its events at once",
        );
        check(running || ticks == 0, "the actor is only called while the replica runs");
        let answer = out.iter().find(|o| !matches!(o, out_message::Msg::CheckCluster(_)));
        if expected {
            match m {
                2 => {
                    check(v.down, "stopping shuts the actor down");
                    let again = life == Life::Stopped;
                    check(matches!(answer, Some(out_message::Msg::StopReplica(_))) != again, "stopping a replica is confirmed");
                    life = Life::Stopped;
                }
                3 => lameduck = true,
                4 => check(
                    matches!(answer, Some(out_message::Msg::ChangeCluster(c)) if
                        (c.change_status == ChangeClusterStatus::ChangeStatusPending as i32) <= (life == Life::Leader)),
                    "only the leader changes the cluster",
                ),
                5 => check(
                    out.iter().any(|o| matches!(o, out_message::Msg::CheckCluster(c) if
                        (life == Life::Leader) == (c.leader_replica_id == 1))),
                    "the state of the cluster is reported on request",
                ),
                10 => check(matches!(answer, Some(out_message::Msg::GetReplicaState(_))), "the state of the replica is reported on request"),
                12 if life == Life::Ephemeral => {
                    cover("ephemeral");
                    check(matches!(answer, Some(out_message::Msg::DeliverAppMessage(_))), "an ephemeral replica is its own leader");
                }
                12 if life == Life::Leader => replicated += 1,
                _ => {}
            }
        } else {
            check(out.is_empty(), "refused operations have no effect");
        }
        alone &= !out.iter().any(|o| matches!(o, out_message::Msg::ChangeCluster(c) if c.change_status == ChangeClusterStatus::ChangeStatusPending as i32));
        if life == Life::Leader && alone {
            check(v.owned.len() == replicated, "a single replica applies events at once");
        }
        check(life != Life::Stopped || v.down, "a stopped replica stays down");
        cover("lived");
    }
}

/// Asking for the state of the cluster, in a cluster of several replicas.
pub fn check_cluster() {
    let n = case();
    let mut c = Cluster::bring_up(n, &DEFAULT);
    let id = 1 + choose("replica", n as usize) as u64;
    let again = flip("again");
    let mut changing = false;
    // A change that is under way has not been made.
    if flip("changing") {
        let (other, add) = (1 + choose("other", n as usize) as u64, flip("add"));
        c.receive(1, Some(change(7, if add { n + 1 } else { other }, add)));
        cover("changing");
        changing = true;
    }
    for _ in 0..1 + again as u64 {
        c.reports.remove(&id);
        c.receive(id, Some(in_message::Msg::CheckCluster(CheckClusterRequest {})));
        let r = c.reports.get(&id);
        check(r.is_some(), "the state of the cluster is reported on request");
        if let Some(r) = r {
            check((r.leader_replica_id == 1) == (id == 1), "the leader knows that it leads");
            let ids: BTreeSet<u64> = r.cluster_replica_ids.iter().copied().collect();
            check(id != 1 || ids == (1..=n).collect(), "the leader knows the cluster");
            cover(if id == 1 { "leader" } else { "follower" });
        }
    }
    if !changing {
        finish(&mut c, n);
    }
}

/// A replica learns about the cluster from a snapshot, and leads later.
/// case: replicas * 10 + entries between snapshots.
pub fn reconfigured() {
    let n = case() / 10;
    let s = Settings { snapshot_count: case() % 10, ..DEFAULT };
    let mut c = Cluster::bring_up(n, &s);
    let lost = n;
    let cut = |c: &mut Cluster| {
        c.wire.retain(|p| p.from != lost && p.to != lost);
        while !c.wire.is_empty() {
            c.deliver(0);
            c.wire.retain(|p| p.from != lost && p.to != lost);
        }
    };
    let add = flip("add");
    let mut members: BTreeSet<u64> = (1..=n).collect();
    if add {
        c.start(n + 1, false, &s);
        members.insert(n + 1);
        c.receive(1, Some(change(7, n + 1, true)));
    } else {
        members.remove(&2);
        c.receive(1, Some(change(7, 2, false)));
    }
    for _ in 0..6 {
        cut(&mut c);
        c.tick(1);
    }
    cut(&mut c);
    if add {
        for _ in 0..choose("commands", 3) {
            c.command(1);
            cut(&mut c);
        }
    } else {
        c.gone(2);
    }
    c.heal();
    c.command(1);
    c.heal();
    check(c.nodes[&lost].view.borrow().state.len() == c.history.len(), "all replicas catch up");
    if c.nodes[&lost].view.borrow().loads > 0 {
        cover("snapshot loaded");
    }
    if c.take_over(lost) {
        let ids: BTreeSet<u64> = c.reports[&lost].cluster_replica_ids.iter().copied().collect();
        check(ids == members, "the leader knows the cluster");
        cover(if add { "added" } else { "removed" });
    }
    let id = c.command(lost);
    c.heal();
    check(c.accepted.contains(&id), "a healthy cluster confirms commands");
}

/// A replica misses any number of events, some of which are in snapshots only.
/// case: replicas * 100 + commands * 10 + entries between snapshots.
pub fn missed() {
    let n = case() / 100;
    let s = Settings { snapshot_count: choose("snapshots", case() as usize % 10) as u64, ..DEFAULT };
    let mut c = Cluster::bring_up(n, &s);
    let lost = n;
    for _ in 0..choose("commands", case() as usize / 10 % 10 + 1) {
        c.command(1);
        c.wire.retain(|p| p.to != lost);
        while !c.wire.is_empty() {
            c.deliver(0);
            c.wire.retain(|p| p.to != lost);
        }
    }
    if c.nodes[&lost].view.borrow().loads > 0 {
        cover("snapshot loaded");
    }
    finish(&mut c, n);
    if c.nodes[&lost].view.borrow().loads > 1 {
        cover("snapshot loaded again");
    }
}

/// Actors propose events that need not differ from each other.
/// case: replicas * 10 + events.
pub fn repeats() {
    let (n, events) = (case() / 10, case() % 10);
    let mut c = Cluster::bring_up(n, &DEFAULT);
    c.repeats = true;
    let mut all = vec![];
    for _ in 0..events {
        let e = (choose("id", 2) as u64, any_u8("contents") & 1);
        all.push(e);
        c.nodes[&1].view.borrow_mut().spontaneous = Some(e);
        c.receive(1, None);
        match choose("then", 3) {
            0 => c.settle(),
            1 => c.wire.clear(),
            _ => {}
        }
    }
    c.heal();
    for k in c.nodes.values() {
        let v = k.view.borrow();
        check(v.state == all, "every event is applied, also if it is like another one");
        check(v.owned.len() == if k.id == 1 { all.len() } else { 0 }, "a replica owns the events it has proposed, and no others");
    }
    cover("repeated");
}

/// Messages of the leader of a healthy cluster that arrive with another sender or recipient.
pub fn forged() {
    let n = case();
    let mut c = Cluster::bring_up(n, &DEFAULT);
    c.command(1);
    let i = choose("message", c.wire.len());
    let mut p = c.wire[i].clone();
    let (from, to) = (p.from, p.to);
    let victim = 1 + choose("victim", n as usize) as u64;
    c.receive(victim, None);
    let in_message::Msg::DeliverSystemMessage(m) = &mut p.msg else { return };
    m.sender_replica_id = range("sender", 0, n + 2);
    m.recipient_replica_id = range("recipient", 0, n + 2);
    // What is meant for another replica does not decrypt, so the addresses alone are at stake.
    let _ = to;
    assume(m.sender_replica_id != from || m.recipient_replica_id != victim);
    let before = c.wire.len();
    let applied: Vec<u64> = c.nodes.values().map(|n| n.view.borrow().state.len() as u64).collect();
    c.receive(victim, Some(p.msg));
    check(c.wire.len() == before, "misrouted messages are ignored");
    check(
        applied.iter().zip(c.nodes.values()).all(|(a, n)| *a == n.view.borrow().state.len() as u64),
        "misrouted messages have no effect",
    );
    cover("forged");
    c.settle();
    finish(&mut c, n);
}

/// Leadership is lost at any time while the actor wants to replicate events.
/// case: replicas * 10 + steps.
pub fn spontaneous() {
    let (n, steps) = (case() / 10, case() % 10);
    let mut c = Cluster::bring_up(n, &DEFAULT);
    for _ in 0..steps {
        let id = 1 + choose("replica", n as usize) as u64;
        let k = choose("step", 3);
        if k == 2 {
            c.settle();
            continue;
        }
        let b = any_u8("contents");
        let e = c.next;
        c.next += 1;
        c.sent.insert(e, (id, b));
        c.nodes[&id].view.borrow_mut().spontaneous = Some((e, b));
        if k == 0 {
            c.receive(id, None);
        } else {
            c.tick(id);
            c.tick(id);
        }
    }
    finish(&mut c, n);
}

/// The cluster changes: replicas leave, the leader among them.
/// case: replicas * 10 + steps.
pub fn membership() {
    let (n, steps) = (case() / 10, case() % 10);
    let mut c = Cluster::bring_up(n, &DEFAULT);
    let gone = 1 + choose("removed", n as usize) as u64;
    c.receive(1, Some(change(7, gone, false)));
    check(c.changes.get(&7) == Some(&(ChangeClusterStatus::ChangeStatusPending as i32)), "a change of the cluster is accepted");
    let at = 1 + choose("at", n as usize) as u64;
    c.receive(at, Some(change(8, 1 + n, true)));
    check(c.changes.get(&8) == Some(&(ChangeClusterStatus::ChangeStatusRejected as i32)), "one change at a time, made by the leader");
    let mut disturbed = false;
    for _ in 0..steps {
        let id = 1 + choose("replica", n as usize) as u64;
        match choose("step", 4) {
            0 => c.settle(),
            1 => {
                c.command(id);
            }
            2 => {
                disturbed |= id != 1;
                c.tick(id);
                c.tick(id);
            }
            _ => {
                if !c.wire.is_empty() {
                    c.deliver(0)
                }
            }
        }
    }
    c.heal();
    cover(if gone == 1 { "leader removed" } else { "follower removed" });
    c.gone(gone);
    c.heal();
    let l = c.leader();
    check(l.is_some(), "a leader emerges");
    let Some(l) = l else { return };
    check(l != gone, "a removed replica does not lead");
    // A change that was not committed is lost with the leader that proposed it.
    let ids = &c.reports[&l].cluster_replica_ids;
    let made = ids.len() as u64 == n - 1 && !ids.contains(&gone);
    check(made || disturbed && ids.len() as u64 == n, "the change is made and reported");
    cover(if made { "made" } else { "lost" });
    if made {
        // So is the next leader's.
        let left: Vec<u64> = c.nodes.keys().copied().collect();
        let next = left[choose("next", left.len())];
        if c.take_over(next) {
            let ids: BTreeSet<u64> = c.reports[&next].cluster_replica_ids.iter().copied().collect();
            check(ids == left.into_iter().collect(), "the change is known to every replica");
        }
        c.heal();
    }
    let l = c.leader().unwrap_or(l);
    let id = c.command(l);
    c.heal();
    check(c.accepted.contains(&id), "a healthy cluster confirms commands");
    for (_, k) in &c.nodes {
        check(k.view.borrow().state.len() == c.history.len(), "all replicas catch up");
    }
    cover("changed");
}

/// A replica falls behind, and has to be sent a snapshot, while anything happens.
/// case: replicas * 1000 + chunk size * 100 + commands * 10 + steps.
pub fn catching_up() {
    let (n, chunk, commands, steps) = (case() / 1000, case() / 100 % 10, case() / 10 % 10, case() % 10);
    let s = Settings { snapshot_count: 2, chunk_size: chunk, ephemeral: false };
    let mut c = Cluster::bring_up(n, &s);
    // The last replica misses some commands.
    let lost = n;
    for _ in 0..commands {
        c.command(1);
        while let Some(i) = c.wire.iter().position(|p| p.from != lost && p.to != lost) {
            c.deliver(i);
        }
        c.wire.clear();
    }
    for _ in 0..2 {
        c.tick(1);
        while let Some(i) = c.wire.iter().position(|p| !matches!(p.msg, in_message::Msg::DeliverSnapshotRequest(_))) {
            c.deliver(i);
        }
    }
    check(!c.wire.is_empty(), "a replica that fell behind is sent a snapshot");
    for _ in 0..steps {
        let id = 1 + choose("replica", n as usize) as u64;
        match choose("step", 4) {
            0 => {
                if let Some(i) = c.wire.iter().position(|p| p.to == id) {
                    c.deliver(i)
                }
            }
            1 => {
                if let Some(i) = c.wire.iter().position(|p| p.to == id) {
                    c.lose(i);
                }
            }
            2 => {
                c.tick(id);
                c.tick(id);
            }
            _ => c.settle(),
        }
    }
    finish(&mut c, n);
    if c.nodes[&lost].view.borrow().loads > 0 {
        cover("snapshot loaded");
    }
}

/// Time passes in any steps, also backwards, and a replica becomes the leader accordingly.
/// case: calls * 10 + (1 if lameduck mode is entered at any time).
pub fn time() {
    let mut node = Node::new(1, Clear::default());
    node.clock = range("start", 0, 1 << 40);
    let (mut now, mut ticked, mut ticks, mut lame) = (node.clock, node.clock, 0u32, false);
    node.receive(Some(start_request(1, true, &DEFAULT)));
    for _ in 0..case() / 10 {
        let leads = ticks >= ELECTION;
        node.clock = range("instant", 0, 1 << 40);
        now = now.max(node.clock);
        let enter = case() % 10 == 1 && !lame && flip("lameduck");
        lame |= enter;
        if !lame && now - ticked >= PERIOD {
            ticked = now;
            ticks += 1;
        }
        if enter {
            node.receive(Some(in_message::Msg::EnterLameduckMode(EnterLameduckMode {})));
        } else {
            node.receive(None);
        }
        let v = node.view.borrow();
        check(v.instant == now, "the time of the actor is the latest time reported");
        check(v.leader == leads, "a replica leads after the configured time");
        cover(if leads { "leads" } else { "waits" });
        if lame {
            cover("lameduck");
        }
    }
}

/// A replica in lameduck mode gives up leadership and does not strive for it.
/// case: replicas * 10 + steps.
pub fn lameduck() {
    let (n, steps) = (case() / 10, case() % 10);
    let mut c = Cluster::bring_up(n, &DEFAULT);
    let lame = 1 + choose("lameduck", n as usize) as u64;
    c.receive(lame, Some(in_message::Msg::EnterLameduckMode(EnterLameduckMode {})));
    run(&mut c, n, 1, steps);
    c.heal();
    let l = c.leader();
    check(l.is_some() && l != Some(lame), "a replica in lameduck mode does not lead");
    finish(&mut c, n);
    check(c.leader() != Some(lame), "a replica in lameduck mode does not lead");
    cover(if lame == 1 { "leader" } else { "follower" });
}
