//! Replicas of an actor run by the driver, with the real consensus library, log
//! store and snapshot transfer, over a network that the harness controls.
use crate::env::*;
use oak_proto_rust::oak::attestation::v1::{Endorsements, ReferenceValues};
use oak_time::Clock;
use raft::prelude::MessageType;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
use tcp_proto::runtime::endpoint::{raft_config::SnapshotConfig, *};
use tcp_runtime::communication::{CommunicationConfig, CommunicationModule, OutgoingMessage};
use tcp_runtime::consensus::RaftSimple;
use tcp_runtime::driver::Driver;
use tcp_runtime::model::*;
use tcp_runtime::platform::{Application, Host, PalError};
use tcp_runtime::snapshot::*;
use tcp_runtime::storage::MemoryStorage;
use tcp_runtime::util::raft::deserialize_raft_message;

pub const PERIOD: u64 = 10;
pub const ELECTION: u32 = 2;

/// Messages between replicas in the clear, without a handshake.
#[derive(Default)]
pub struct Clear {
    out: Vec<OutMessage>,
    pub members: Rc<RefCell<Vec<u64>>>,
}

impl CommunicationModule for Clear {
    fn init(&mut self, _: u64, _: slog::Logger, _: Arc<dyn Clock>, _: CommunicationConfig) {}
    fn process_out_message(&mut self, m: OutgoingMessage) -> Result<(), PalError> {
        let msg = match m {
            OutgoingMessage::DeliverSystemMessage(m, _) => out_message::Msg::DeliverSystemMessage(m),
            OutgoingMessage::DeliverSnapshotRequest(m) => out_message::Msg::DeliverSnapshotRequest(m),
            OutgoingMessage::DeliverSnapshotResponse(m) => out_message::Msg::DeliverSnapshotResponse(m),
        };
        self.out.push(OutMessage { msg: Some(msg) });
        Ok(())
    }
    fn process_in_message(&mut self, m: in_message::Msg) -> Result<Option<in_message::Msg>, PalError> {
        match m {
            in_message::Msg::SecureChannelHandshake(_)
            | in_message::Msg::DeliverSystemMessage(DeliverSystemMessage { payload: None, .. })
            | in_message::Msg::DeliverSnapshotRequest(DeliverSnapshotRequest { payload: None, .. })
            | in_message::Msg::DeliverSnapshotResponse(DeliverSnapshotResponse { payload: None, .. }) => Ok(None),
            m => Ok(Some(m)),
        }
    }
    fn take_out_messages(&mut self) -> Vec<OutMessage> {
        std::mem::take(&mut self.out)
    }
    fn process_cluster_change(&mut self, ids: &[u64]) {
        *self.members.borrow_mut() = ids.to_vec();
    }
    fn make_tick(&mut self) {}
}

/// What the harness sees of an actor.
#[derive(Default)]
pub struct View {
    /// The replicated state: id and contents of the applied events.
    pub state: Vec<(u64, u8)>,
    pub last_index: u64,
    pub ticks: u64,
    pub commands: u64,
    pub loads: u64,
    pub saves: u64,
    pub owned: Vec<u64>,
    /// Events in the state and owned when the latest snapshot was loaded.
    pub loaded: (usize, usize),
    pub down: bool,
    pub instant: u64,
    pub leader: bool,
    /// Event to propose with the next call without a command.
    pub spontaneous: Option<(u64, u8)>,
}

/// Appends the bytes it is given to its state.
pub struct Appender {
    pub view: Rc<RefCell<View>>,
    ctx: Option<Box<dyn ActorContext>>,
}

impl Actor for Appender {
    fn on_init(&mut self, c: Box<dyn ActorContext>) -> Result<(), ActorError> {
        check(self.ctx.is_none(), "an actor is initialized once");
        self.ctx = Some(c);
        Ok(())
    }
    fn on_shutdown(&mut self) {
        self.view.borrow_mut().down = true;
    }
    fn on_save_snapshot(&mut self) -> Result<Bytes, ActorError> {
        let mut v = self.view.borrow_mut();
        v.saves += 1;
        Ok(v.state.iter().flat_map(|(i, b)| [*i as u8, *b]).collect::<Vec<u8>>().into())
    }
    fn on_load_snapshot(&mut self, s: Bytes) -> Result<(), ActorError> {
        let mut v = self.view.borrow_mut();
        v.state = s.chunks(2).map(|c| (c[0] as u64, c[1])).collect();
        v.loads += 1;
        v.loaded = (v.state.len(), v.owned.len());
        Ok(())
    }
    fn on_process_command(&mut self, c: Option<ActorCommand>) -> Result<CommandOutcome, ActorError> {
        let ctx = self.ctx.as_ref().unwrap();
        let mut v = self.view.borrow_mut();
        check(!v.down, "no commands after shutdown");
        check(ctx.instant() >= v.instant, "time does not go back");
        v.instant = ctx.instant();
        v.leader = ctx.leader();
        let Some(c) = c else {
            v.ticks += 1;
            return Ok(match v.spontaneous.take() {
                Some((id, b)) => CommandOutcome::with_event(ActorEvent::with_bytes(id, vec![b].into())),
                None => CommandOutcome::with_none(),
            });
        };
        v.commands += 1;
        if !ctx.leader() {
            return Ok(CommandOutcome::with_command(ActorCommand { correlation_id: c.correlation_id, header: Bytes::from_static(b"no"), ..Default::default() }));
        }
        Ok(CommandOutcome::with_event(ActorEvent::with_bytes(c.correlation_id, c.payload)))
    }
    fn on_apply_event(&mut self, c: ActorEventContext, e: ActorEvent) -> Result<EventOutcome, ActorError> {
        let mut v = self.view.borrow_mut();
        check(c.index == 0 || c.index > v.last_index, "events are applied in the order of the log, once");
        v.last_index = c.index;
        v.state.push((e.correlation_id, e.contents[0]));
        if !c.owned {
            return Ok(EventOutcome::with_none());
        }
        v.owned.push(e.correlation_id);
        Ok(EventOutcome::with_command(ActorCommand { correlation_id: e.correlation_id, header: Bytes::from_static(b"ok"), payload: e.contents }))
    }
    fn get_reference_values(&self) -> ReferenceValues {
        ReferenceValues::default()
    }
}

#[derive(Default)]
pub struct Wire {
    pub out: Vec<OutMessage>,
}
impl Host for Wire {
    fn send_messages(&mut self, mut m: Vec<OutMessage>) {
        self.out.append(&mut m);
    }
    fn public_signing_key(&self) -> Vec<u8> {
        vec![]
    }
}

pub type D<C> = Driver<RaftSimple<MemoryStorage>, MemoryStorage, DefaultSnapshotProcessor, Appender, C>;

pub struct Node<C: CommunicationModule> {
    pub id: u64,
    pub clock: u64,
    pub driver: D<C>,
    pub view: Rc<RefCell<View>>,
}

pub struct Settings {
    pub snapshot_count: u64,
    pub chunk_size: u64,
    pub ephemeral: bool,
}

pub const DEFAULT: Settings = Settings { snapshot_count: 1000, chunk_size: 1000, ephemeral: false };

pub fn start_request(id: u64, leader: bool, s: &Settings) -> in_message::Msg {
    in_message::Msg::StartReplica(StartReplicaRequest {
        is_leader: leader,
        replica_id_hint: id,
        raft_config: (!s.ephemeral).then(|| RaftConfig {
            tick_period: PERIOD,
            election_tick: ELECTION,
            heartbeat_tick: 1,
            max_size_per_msg: 1000,
            snapshot_config: Some(SnapshotConfig { snapshot_count: s.snapshot_count, chunk_size: s.chunk_size, max_pending_chunks: 2 }),
            handshake_retry_tick: 1,
        }),
        is_ephemeral: s.ephemeral,
        endorsements: Some(Endorsements::default()),
        ..Default::default()
    })
}

impl<C: CommunicationModule> Node<C> {
    pub fn new(id: u64, comm: C) -> Node<C> {
        let view: Rc<RefCell<View>> = Rc::default();
        let driver = Driver::new(
            RaftSimple::new(),
            Box::new(MemoryStorage::new),
            DefaultSnapshotProcessor::new(Box::new(DefaultSnapshotSender::new()), Box::new(DefaultSnapshotReceiver::new())),
            Appender { view: view.clone(), ctx: None },
            comm,
            Some(logger()),
        );
        Node { id, clock: 0, driver, view }
    }
    pub fn raw(&mut self, w: &mut Wire, m: Option<InMessage>) -> Result<(), PalError> {
        self.driver.receive_message(w, self.clock, m)
    }
    pub fn try_receive(&mut self, m: Option<in_message::Msg>) -> Result<Vec<out_message::Msg>, PalError> {
        let mut w = Wire::default();
        self.driver.receive_message(&mut w, self.clock, m.map(|m| InMessage { msg: Some(m) }))?;
        Ok(w.out.into_iter().filter_map(|m| m.msg).collect())
    }
    pub fn receive(&mut self, m: Option<in_message::Msg>) -> Vec<out_message::Msg> {
        let r = self.try_receive(m);
        check(r.is_ok(), "a message never brings the replica down");
        r.unwrap_or_default()
    }
    pub fn tick(&mut self) -> Vec<out_message::Msg> {
        self.clock += PERIOD;
        self.receive(None)
    }
}

pub fn app(id: u64, b: u8) -> in_message::Msg {
    in_message::Msg::DeliverAppMessage(DeliverAppMessage { correlation_id: id, message_payload: vec![b].into(), ..Default::default() })
}
pub fn change(id: u64, replica: u64, add: bool) -> in_message::Msg {
    let t = if add { ChangeClusterType::ChangeTypeAddReplica } else { ChangeClusterType::ChangeTypeRemoveReplica };
    in_message::Msg::ChangeCluster(ChangeClusterRequest { change_id: id, replica_id: replica, change_type: t as i32 })
}

/// A message between replicas on its way.
#[derive(Clone)]
pub struct Packet {
    pub from: u64,
    pub to: u64,
    pub msg: in_message::Msg,
}

/// Several replicas and what connects them.
pub struct Cluster {
    pub nodes: BTreeMap<u64, Node<Clear>>,
    pub wire: Vec<Packet>,
    /// Reported leader of each term.
    pub leaders: BTreeMap<u64, u64>,
    /// Latest report of each replica.
    pub reports: BTreeMap<u64, CheckClusterResponse>,
    pub sent: BTreeMap<u64, (u64, u8)>,
    pub accepted: BTreeSet<u64>,
    pub changes: BTreeMap<u64, i32>,
    pub next: u64,
    /// The longest state any replica has had.
    pub history: Vec<(u64, u8)>,
    pub terms: BTreeMap<u64, u64>,
    pub votes: BTreeMap<(u64, u64), u64>,
    /// Events need not differ, what is applied is checked by the harness.
    pub repeats: bool,
}

impl Cluster {
    pub fn new() -> Cluster {
        Cluster {
            nodes: BTreeMap::new(),
            wire: vec![],
            leaders: BTreeMap::new(),
            reports: BTreeMap::new(),
            sent: BTreeMap::new(),
            accepted: BTreeSet::new(),
            changes: BTreeMap::new(),
            next: 1,
            history: vec![],
            terms: BTreeMap::new(),
            votes: BTreeMap::new(),
            repeats: false,
        }
    }
    pub fn start(&mut self, id: u64, leader: bool, s: &Settings) {
        self.nodes.insert(id, Node::new(id, Clear::default()));
        self.receive(id, Some(start_request(id, leader, s)));
    }
    pub fn receive(&mut self, id: u64, m: Option<in_message::Msg>) {
        let out = self.nodes.get_mut(&id).unwrap().receive(m);
        self.absorb(id, out);
    }
    pub fn tick(&mut self, id: u64) {
        let out = self.nodes.get_mut(&id).unwrap().tick();
        self.absorb(id, out);
    }
    fn absorb(&mut self, id: u64, out: Vec<out_message::Msg>) {
        for m in out {
            let (from, to, msg) = match m {
                out_message::Msg::DeliverSystemMessage(m) => (m.sender_replica_id, m.recipient_replica_id, in_message::Msg::DeliverSystemMessage(m)),
                out_message::Msg::DeliverSnapshotRequest(m) => (m.sender_replica_id, m.recipient_replica_id, in_message::Msg::DeliverSnapshotRequest(m)),
                out_message::Msg::DeliverSnapshotResponse(m) => (m.sender_replica_id, m.recipient_replica_id, in_message::Msg::DeliverSnapshotResponse(m)),
                out_message::Msg::CheckCluster(m) => {
                    if m.leader_replica_id != 0 {
                        check(m.leader_replica_id == id, "only the leader itself reports a leader");
                        let l = *self.leaders.entry(m.leader_term).or_insert(id);
                        check(l == id, "there is at most one leader per term");
                    }
                    self.reports.insert(id, m);
                    continue;
                }
                out_message::Msg::DeliverAppMessage(m) => {
                    if &m.message_header[..] == b"ok" && !self.repeats {
                        let s = self.sent.get(&m.correlation_id).copied();
                        check(s.map(|s| s.0) == Some(id), "a command is confirmed by the replica that received it");
                        check(s.map(|s| s.1) == m.message_payload.first().copied(), "a confirmation is for the command sent");
                        check(self.accepted.insert(m.correlation_id), "a command is confirmed once");
                        cover("command confirmed");
                    }
                    continue;
                }
                out_message::Msg::ChangeCluster(m) => {
                    self.changes.insert(m.change_id, m.change_status);
                    continue;
                }
                _ => continue,
            };
            check(from == id, "messages carry their sender");
            if let in_message::Msg::DeliverSystemMessage(m) = &msg {
                self.inspect(id, to, &m.payload.as_ref().unwrap().contents);
            }
            self.wire.push(Packet { from, to, msg });
        }
        self.agree(id);
    }
    /// Terms only grow, and there is one vote per term.
    fn inspect(&mut self, id: u64, to: u64, contents: &Bytes) {
        let m = deserialize_raft_message(contents.clone());
        check(m.is_ok(), "messages are well-formed");
        let Ok(m) = m else { return };
        check(m.from == id && m.to == to, "messages carry their sender and recipient");
        let proposal = m.msg_type() == MessageType::MsgPropose;
        if m.term != 0 || !proposal {
            let t = self.terms.entry(id).or_insert(0);
            check(m.term >= *t, "the term of a replica never decreases");
            *t = m.term;
        }
        if m.msg_type() == MessageType::MsgRequestVoteResponse && !m.reject {
            let v = *self.votes.entry((id, m.term)).or_insert(to);
            check(v == to, "a replica votes once per term");
            cover("vote granted");
        }
        if m.msg_type() == MessageType::MsgRequestVote {
            let v = *self.votes.entry((id, m.term)).or_insert(id);
            check(v == id, "a replica votes once per term");
        }
    }
    /// The state of a replica is a prefix of what any other replica has applied.
    fn agree(&mut self, id: u64) {
        let v = self.nodes[&id].view.borrow();
        let n = v.state.len().min(self.history.len());
        let mut same = true;
        for k in 0..n {
            same &= v.state[k].0 == self.history[k].0 && v.state[k].1 == self.history[k].1;
        }
        check(same, "replicas apply the same events in the same order");
        for k in n..v.state.len() {
            let (i, b) = v.state[k];
            if self.repeats {
                self.history.push((i, b));
                continue;
            }
            check(self.sent.get(&i).is_some_and(|s| s.1 == b), "only events that were proposed are applied");
            check(self.history.iter().all(|h| h.0 != i), "an event is applied once");
            self.history.push((i, b));
        }
    }
    pub fn command(&mut self, id: u64) -> u64 {
        let (n, b) = (self.next, any_u8("contents"));
        self.next += 1;
        self.sent.insert(n, (id, b));
        self.receive(id, Some(app(n, b)));
        n
    }
    pub fn deliver(&mut self, i: usize) {
        let p = self.wire.remove(i);
        if self.nodes.contains_key(&p.to) {
            self.receive(p.to, Some(p.msg));
        }
    }
    /// Loses a message. The host reports lost parts of snapshots to their sender.
    pub fn lose(&mut self, i: usize) {
        if let in_message::Msg::DeliverSnapshotFailure(_) = self.wire[i].msg {
            return;
        }
        let p = self.wire.remove(i);
        let (sender, delivery_id) = match &p.msg {
            in_message::Msg::DeliverSnapshotRequest(m) => (p.from, m.delivery_id),
            in_message::Msg::DeliverSnapshotResponse(m) => (p.to, m.delivery_id),
            _ => return,
        };
        let peer = p.from + p.to - sender;
        self.wire.push(Packet {
            from: peer,
            to: sender,
            msg: in_message::Msg::DeliverSnapshotFailure(DeliverSnapshotFailure { sender_replica_id: peer, delivery_id, ..Default::default() }),
        });
    }
    pub fn settle(&mut self) {
        let mut n = 0;
        while !self.wire.is_empty() {
            self.deliver(0);
            n += 1;
            if n > 400 {
                check(false, "the network comes to rest");
                return;
            }
        }
    }
    pub fn leader(&self) -> Option<u64> {
        self.reports.iter().filter(|(i, r)| r.leader_replica_id == **i).max_by_key(|(_, r)| r.leader_term).map(|(i, _)| *i)
    }
    /// Starts a cluster of `n` replicas led by the first one.
    pub fn bring_up(n: u64, s: &Settings) -> Cluster {
        let mut c = Cluster::new();
        c.start(1, true, s);
        for _ in 0..ELECTION + 1 {
            c.tick(1);
        }
        check(c.leader() == Some(1), "a single replica becomes the leader");
        for id in 2..=n {
            c.join(id, s);
        }
        c
    }
    pub fn join(&mut self, id: u64, s: &Settings) {
        self.start(id, false, s);
        let change_id = 100 + id;
        self.receive(1, Some(change(change_id, id, true)));
        check(self.changes.get(&change_id) == Some(&(ChangeClusterStatus::ChangeStatusPending as i32)), "a change of the cluster is accepted");
        for _ in 0..4 {
            self.tick(1);
            self.settle();
        }
    }
    /// Takes a replica away.
    pub fn gone(&mut self, id: u64) {
        self.nodes.remove(&id);
        self.reports.remove(&id);
    }
    /// Events belong to the replicas that proposed them, and only to those.
    pub fn ownership(&self) {
        for (id, n) in &self.nodes {
            let v = n.view.borrow();
            if v.state.len() == self.history.len() {
                let (s, o) = v.loaded;
                let own: Vec<u64> = self.history[s..].iter().map(|h| h.0).filter(|e| self.sent[e].0 == *id).collect();
                check(v.owned[o..] == own, "a replica owns the events it has proposed, and no others");
            }
        }
    }
    /// Lets a replica take over.
    pub fn take_over(&mut self, id: u64) -> bool {
        for _ in 0..20 {
            if self.leader() == Some(id) {
                return true;
            }
            self.tick(id);
            self.settle();
        }
        check(false, "a replica that the others do not object to becomes the leader");
        false
    }
    /// A reliable network and time for everything to happen.
    pub fn heal(&mut self) {
        let ids: Vec<u64> = self.nodes.keys().copied().collect();
        for _ in 0..8 {
            for id in &ids {
                self.settle();
                self.tick(*id);
            }
            self.settle();
        }
    }
}
