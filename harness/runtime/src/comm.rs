//! Encrypted communication between replicas: the real communication module,
//! handshakes and encryptors over modelled sessions, and a hostile network.
//!
//! A modelled session exchanges two pairs of messages, attestation and key
//! agreement. What it emits is entered in a ledger, and it accepts only what
//! its peer has emitted for it, once, as an attested channel would; anything
//! that the host makes up is rejected.
use crate::env::*;
use oak_proto_rust::oak::attestation::v1::{Endorsements, ReferenceValues};
use oak_proto_rust::oak::session::v1::{session_request::Request, session_response::Response, *};
use oak_time::{Clock, Instant};
use raft::prelude::MessageType;
use std::cell::RefCell;
use std::sync::Arc;
use tcp_proto::runtime::endpoint::secure_channel_handshake::{noise_protocol::*, *};
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::communication::*;
use tcp_runtime::handshake::DefaultHandshakeSessionProvider;
use tcp_runtime::session::{OakClientSession, OakServerSession, OakSession, OakSessionFactory};

#[derive(Clone)]
struct Sealed {
    /// The session that sealed it and the one that may open it.
    by: u8,
    to: u8,
    text: Vec<u8>,
    opened: bool,
}

#[derive(Default)]
struct Ledger {
    sessions: u8,
    /// Session ids of the replica that is being run, to know who owns what.
    owner: Vec<u64>,
    open: Vec<bool>,
    sealed: Vec<Sealed>,
    /// Sessions created, and not to be created now.
    refuse: bool,
    /// The session at the other end, once they are open.
    peer: Vec<u8>,
    /// Sessions that their replicas know to be abandoned by the peer.
    stale: Vec<bool>,
    /// Sessions fail to encrypt now.
    mute: bool,
    current: u64,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::default();
}
fn ledger<T>(f: impl FnOnce(&mut Ledger) -> T) -> T {
    LEDGER.with(|l| f(&mut l.borrow_mut()))
}
fn fail<T>(s: &'static str) -> anyhow::Result<T> {
    Err(anyhow::Error::msg(s))
}

struct Model {
    id: u8,
    peer: u8,
    client: bool,
    /// Messages taken and put so far.
    stage: u8,
    open: bool,
    out: Vec<Vec<u8>>,
    read: Vec<Vec<u8>>,
}

impl Model {
    fn new(client: bool) -> anyhow::Result<Model> {
        ledger(|l| {
            if l.refuse {
                return fail("no session");
            }
            l.sessions += 1;
            l.owner.push(l.current);
            l.open.push(false);
            l.stale.push(false);
            l.peer.push(0);
            Ok(Model { id: l.sessions, peer: 0, client, stage: 0, open: false, out: vec![], read: vec![] })
        })
    }
    /// The next message of the handshake: its stage and the sessions.
    fn next(&mut self) -> Option<(u8, Vec<u8>)> {
        let due = if self.client { self.stage % 2 == 0 && self.stage < 4 } else { self.stage % 2 == 1 };
        if self.open || !due {
            return None;
        }
        let kind = self.stage;
        self.stage += 1;
        if !self.client && self.stage == 4 {
            self.opened();
        }
        Some((kind, vec![self.id, self.peer]))
    }
    fn opened(&mut self) {
        self.open = true;
        ledger(|l| {
            l.open[self.id as usize - 1] = true;
            l.peer[self.id as usize - 1] = self.peer;
        });
    }
    fn accept(&mut self, kind: u8, m: &[u8]) -> anyhow::Result<()> {
        let due = if self.client { self.stage % 2 == 1 } else { self.stage % 2 == 0 };
        if self.open || !due || kind != self.stage || m.len() != 2 {
            return fail("unexpected handshake message");
        }
        let (from, to) = (m[0], m[1]);
        let genuine = ledger(|l| from >= 1 && from <= l.sessions) && (kind == 0 || to == self.id);
        if !genuine || kind > 1 && from != self.peer {
            return fail("attestation failed");
        }
        self.peer = from;
        self.stage += 1;
        if self.client && self.stage == 4 {
            self.opened();
        }
        Ok(())
    }
    fn seal(&mut self, text: &[u8]) -> anyhow::Result<()> {
        check(self.open, "nothing is encrypted before the handshake is complete");
        if !self.open || ledger(|l| l.mute) {
            return fail("not open");
        }
        let n = ledger(|l| {
            l.sealed.push(Sealed { by: self.id, to: self.peer, text: text.to_vec(), opened: false });
            l.sealed.len() as u8
        });
        self.out.push(vec![n]);
        Ok(())
    }
    fn unseal(&mut self, c: &[u8]) -> anyhow::Result<()> {
        if !self.open || c.len() != 1 {
            return fail("does not decrypt");
        }
        let text = ledger(|l| {
            let s = l.sealed.get_mut((c[0] as usize).wrapping_sub(1))?;
            if s.by != self.peer || s.to != self.id || s.opened {
                return None;
            }
            s.opened = true;
            Some(s.text.clone())
        });
        match text {
            Some(t) => Ok(self.read.push(t)),
            None => fail("does not decrypt"),
        }
    }
    fn message(&mut self) -> Option<EncryptedMessage> {
        if self.out.is_empty() {
            return None;
        }
        Some(EncryptedMessage { ciphertext: self.out.remove(0), nonce: Some(vec![7]), ..Default::default() })
    }
}

struct Client(Model);
struct Server(Model);
impl OakSession<SessionResponse, SessionRequest> for Client {
    fn put_incoming_message(&mut self, m: SessionResponse) -> anyhow::Result<Option<()>> {
        match m.response {
            Some(Response::AttestResponse(m)) => self.0.accept(1, &m.contents)?,
            Some(Response::HandshakeResponse(m)) => self.0.accept(3, &m.contents)?,
            Some(Response::EncryptedMessage(m)) => self.0.unseal(&m.ciphertext)?,
            None => return fail("empty"),
        }
        Ok(Some(()))
    }
    fn get_outgoing_message(&mut self) -> anyhow::Result<Option<SessionRequest>> {
        let request = match self.0.next() {
            Some((0, contents)) => Some(Request::AttestRequest(AttestRequest { contents })),
            Some((_, contents)) => Some(Request::HandshakeRequest(HandshakeRequest { contents })),
            None => self.0.message().map(Request::EncryptedMessage),
        };
        Ok(request.map(|r| SessionRequest { request: Some(r) }))
    }
    fn is_open(&self) -> bool {
        self.0.open
    }
    fn write(&mut self, t: &[u8]) -> anyhow::Result<()> {
        self.0.seal(t)
    }
    fn read(&mut self) -> anyhow::Result<Option<Vec<u8>>> {
        Ok(self.0.read.pop())
    }
}
impl OakSession<SessionRequest, SessionResponse> for Server {
    fn put_incoming_message(&mut self, m: SessionRequest) -> anyhow::Result<Option<()>> {
        match m.request {
            Some(Request::AttestRequest(m)) => self.0.accept(0, &m.contents)?,
            Some(Request::HandshakeRequest(m)) => self.0.accept(2, &m.contents)?,
            Some(Request::EncryptedMessage(m)) => self.0.unseal(&m.ciphertext)?,
            None => return fail("empty"),
        }
        Ok(Some(()))
    }
    fn get_outgoing_message(&mut self) -> anyhow::Result<Option<SessionResponse>> {
        let response = match self.0.next() {
            Some((1, contents)) => Some(Response::AttestResponse(AttestResponse { contents })),
            Some((_, contents)) => Some(Response::HandshakeResponse(HandshakeResponse { contents })),
            None => self.0.message().map(Response::EncryptedMessage),
        };
        Ok(response.map(|r| SessionResponse { response: Some(r) }))
    }
    fn is_open(&self) -> bool {
        self.0.open
    }
    fn write(&mut self, t: &[u8]) -> anyhow::Result<()> {
        self.0.seal(t)
    }
    fn read(&mut self) -> anyhow::Result<Option<Vec<u8>>> {
        Ok(self.0.read.pop())
    }
}

struct Factory;
impl OakSessionFactory for Factory {
    fn init(&mut self, _: Arc<dyn Clock>, _: ReferenceValues, _: Endorsements) {}
    fn get_oak_client_session(&self) -> anyhow::Result<Box<dyn OakClientSession>> {
        Ok(Box::new(Client(Model::new(true)?)))
    }
    fn get_oak_server_session(&self) -> anyhow::Result<Box<dyn OakServerSession>> {
        Ok(Box::new(Server(Model::new(false)?)))
    }
}

pub struct Fixed;
impl Clock for Fixed {
    fn get_time(&self) -> Instant {
        Instant::from_unix_millis(0)
    }
}

const TIMEOUT: u32 = 3;

/// What a replica was asked to send: contents and whether it is a heartbeat.
#[derive(Clone, Copy)]
struct Text {
    id: u8,
    heartbeat: bool,
    empty: bool,
}
impl Text {
    fn is(&self, c: &[u8]) -> bool {
        if self.empty { c.is_empty() } else { c == [self.id] }
    }
}

struct Net {
    nodes: BTreeMap<u64, DefaultCommunicationModule>,
    wire: Vec<(u64, u64, in_message::Msg)>,
    /// Messages handed over and not sent out yet, by sender and recipient.
    waiting: BTreeMap<(u64, u64), Vec<Text>>,
    sent: BTreeMap<(u64, u64), Vec<Text>>,
    received: BTreeMap<(u64, u64), Vec<u8>>,
    next: u8,
}

fn heartbeats(m: &mut Vec<Text>, t: Text) {
    if t.heartbeat {
        if let Some(o) = m.iter_mut().find(|o| o.heartbeat) {
            *o = t;
            return;
        }
    }
    m.push(t);
}

fn contents(m: &in_message::Msg) -> Option<&Payload> {
    match m {
        in_message::Msg::DeliverSystemMessage(m) => m.payload.as_ref(),
        in_message::Msg::DeliverSnapshotRequest(m) => m.payload.as_ref(),
        in_message::Msg::DeliverSnapshotResponse(m) => m.payload.as_ref(),
        _ => None,
    }
}

/// The session that a message of a handshake is from.
fn speaker(m: &in_message::Msg) -> Option<u8> {
    let in_message::Msg::SecureChannelHandshake(m) = m else { return None };
    let Some(Encryption::NoiseProtocol(m)) = &m.encryption else { return None };
    let contents = match m.message.as_ref()? {
        noise_protocol::Message::InitiatorRequest(InitiatorRequest { message: Some(initiator_request::Message::SessionRequest(m)) }) => match m.request.as_ref()? {
            Request::AttestRequest(m) => &m.contents,
            Request::HandshakeRequest(m) => &m.contents,
            _ => return None,
        },
        noise_protocol::Message::RecipientResponse(RecipientResponse { message: Some(recipient_response::Message::SessionResponse(m)) }) => match m.response.as_ref()? {
            Response::AttestResponse(m) => &m.contents,
            Response::HandshakeResponse(m) => &m.contents,
            _ => return None,
        },
        _ => return None,
    };
    contents.first().copied()
}

impl Net {
    fn new(n: u64) -> Net {
        let mut nodes = BTreeMap::new();
        for id in 1..=n {
            let mut m = DefaultCommunicationModule::new(Box::new(DefaultHandshakeSessionProvider::new(Box::new(Factory))));
            let config = CommunicationConfig {
                handshake_retry_tick: 1,
                handshake_initiated_tick_timeout: TIMEOUT,
                reference_values: Default::default(),
                endorsements: Default::default(),
            };
            m.init(id, logger(), Arc::new(Fixed), config);
            nodes.insert(id, m);
        }
        Net { nodes, wire: vec![], waiting: BTreeMap::new(), sent: BTreeMap::new(), received: BTreeMap::new(), next: 1 }
    }
    fn at(&mut self, id: u64) -> &mut DefaultCommunicationModule {
        ledger(|l| l.current = id);
        self.nodes.get_mut(&id).unwrap()
    }
    fn send(&mut self, from: u64, to: u64, kind: u8) {
        let id = self.next;
        self.next += 1;
        let empty = kind == 2;
        let contents = if empty { vec![] } else { vec![id] };
        let payload = Some(Payload { contents: contents.into(), ..Default::default() });
        let m = match kind {
            0 | 1 => OutgoingMessage::DeliverSystemMessage(
                DeliverSystemMessage { recipient_replica_id: to, sender_replica_id: from, payload, ..Default::default() },
                if kind == 0 { MessageType::MsgAppend } else { MessageType::MsgHeartbeat },
            ),
            3 => OutgoingMessage::DeliverSnapshotRequest(DeliverSnapshotRequest {
                recipient_replica_id: to,
                sender_replica_id: from,
                delivery_id: id as u64,
                payload,
                ..Default::default()
            }),
            _ => OutgoingMessage::DeliverSnapshotResponse(DeliverSnapshotResponse {
                recipient_replica_id: to,
                sender_replica_id: from,
                delivery_id: id as u64,
                payload,
                ..Default::default()
            }),
        };
        heartbeats(self.waiting.entry((from, to)).or_default(), Text { id, heartbeat: kind == 1, empty });
        let r = self.at(from).process_out_message(m);
        check(r.is_ok(), "messages to peers are never fatal");
        self.flush(from);
    }
    /// Collects what a replica sends out, all of which must be safe to send.
    fn flush(&mut self, id: u64) {
        for m in self.at(id).take_out_messages() {
            let (from, to, m) = match m.msg {
                Some(out_message::Msg::SecureChannelHandshake(m)) => (m.sender_replica_id, m.recipient_replica_id, in_message::Msg::SecureChannelHandshake(m)),
                Some(out_message::Msg::DeliverSystemMessage(m)) => (m.sender_replica_id, m.recipient_replica_id, in_message::Msg::DeliverSystemMessage(m)),
                Some(out_message::Msg::DeliverSnapshotRequest(m)) => (m.sender_replica_id, m.recipient_replica_id, in_message::Msg::DeliverSnapshotRequest(m)),
                Some(out_message::Msg::DeliverSnapshotResponse(m)) => (m.sender_replica_id, m.recipient_replica_id, in_message::Msg::DeliverSnapshotResponse(m)),
                _ => {
                    check(false, "only messages to peers are sent out");
                    continue;
                }
            };
            check(from == id && to != id, "messages carry their sender");
            if !matches!(m, in_message::Msg::SecureChannelHandshake(_)) {
                let p = contents(&m);
                let s = p.and_then(|p| match &p.contents[..] {
                    [c] if &p.nonce[..] == [7] => ledger(|l| l.sealed.get((*c as usize).wrapping_sub(1)).cloned()),
                    _ => None,
                });
                check(s.is_some(), "nothing is sent out in the clear");
                let Some(s) = s else { continue };
                check(ledger(|l| l.owner[s.by as usize - 1] == id && l.owner[s.to as usize - 1] == to), "messages are encrypted for their recipient");
                check(!ledger(|l| l.stale[s.by as usize - 1]), "nothing is sent over a session that the peer has abandoned");
                let w = self.waiting.entry((id, to)).or_default();
                let due = if w.is_empty() { None } else { Some(w.remove(0)) };
                check(due.is_some_and(|d| d.is(&s.text)), "messages are sent out once, in order, none of them lost");
                let Some(due) = due else { continue };
                self.sent.entry((id, to)).or_default().push(due);
                cover("encrypted");
            } else {
                cover("handshake");
            }
            self.wire.push((from, to, m));
        }
    }
    fn receive(&mut self, from: u64, to: u64, m: in_message::Msg) {
        let kind = std::mem::discriminant(&m);
        if let Some(s) = speaker(&m) {
            ledger(|l| {
                let genuine = s >= 1 && s <= l.sessions && l.owner[s as usize - 1] == from;
                for k in 0..s as usize {
                    // The peer has started anew.
                    if genuine && l.owner[k] == to && l.open[k] && l.peer[k] < s && l.peer[k] > 0 && l.owner[l.peer[k] as usize - 1] == from {
                        l.stale[k] = true;
                    }
                }
            });
        }
        let r = self.at(to).process_in_message(m);
        check(r.is_ok(), "messages from peers are never fatal");
        if let Ok(Some(m)) = r {
            check(std::mem::discriminant(&m) == kind, "messages keep their kind");
            let p = contents(&m).map(|p| p.contents.to_vec()).unwrap_or_default();
            let r = self.received.entry((from, to)).or_default();
            let sent = self.sent.get(&(from, to)).map(|s| &s[..]).unwrap_or_default();
            check(sent.iter().any(|t| t.is(&p)), "only messages that the sender has sent are accepted");
            let new = sent.iter().find(|t| t.is(&p) && !r.contains(&t.id));
            check(new.is_some(), "messages are accepted once");
            let Some(new) = new else { return };
            r.push(new.id);
            cover("received");
        }
        self.flush(to);
    }
    fn deliver(&mut self, i: usize, keep: bool) {
        let (from, to, m) = if keep { self.wire[i].clone() } else { self.wire.remove(i) };
        if self.nodes.contains_key(&to) {
            self.receive(from, to, m);
        }
    }
    fn tick(&mut self, id: u64) {
        self.at(id).make_tick();
        self.flush(id);
    }
    fn settle(&mut self) {
        for _ in 0..100 {
            if self.wire.is_empty() {
                return;
            }
            self.deliver(0, false);
        }
        check(false, "the network comes to rest");
    }
}

/// A message made up by the host.
fn forged(from: u64, to: u64) -> in_message::Msg {
    let payload = Some(Payload { contents: bytes("forged", 1).into(), ..Default::default() });
    match choose("forgery", 7) {
        0 => in_message::Msg::DeliverSystemMessage(DeliverSystemMessage { recipient_replica_id: to, sender_replica_id: from, payload: None, ..Default::default() }),
        1 => {
            let payload = Some(Payload { contents: Bytes::from_static(&[0]), ..Default::default() });
            in_message::Msg::DeliverSystemMessage(DeliverSystemMessage { recipient_replica_id: to, sender_replica_id: from, payload, ..Default::default() })
        }
        2 => in_message::Msg::DeliverSnapshotRequest(DeliverSnapshotRequest { recipient_replica_id: to, sender_replica_id: from, payload, ..Default::default() }),
        3 => in_message::Msg::DeliverSnapshotResponse(DeliverSnapshotResponse { recipient_replica_id: to, sender_replica_id: from, payload: None, ..Default::default() }),
        4 => in_message::Msg::SecureChannelHandshake(SecureChannelHandshake { recipient_replica_id: to, sender_replica_id: from, encryption: None }),
        k => {
            let message = if k == 5 {
                noise_protocol::Message::InitiatorRequest(InitiatorRequest {
                    message: Some(initiator_request::Message::SessionRequest(SessionRequest {
                        request: Some(Request::HandshakeRequest(HandshakeRequest { contents: vec![0, 0] })),
                    })),
                })
            } else {
                noise_protocol::Message::RecipientResponse(RecipientResponse {
                    message: Some(recipient_response::Message::SessionResponse(SessionResponse {
                        response: Some(Response::AttestResponse(AttestResponse { contents: vec![0, 0] })),
                    })),
                })
            };
            in_message::Msg::SecureChannelHandshake(SecureChannelHandshake {
                recipient_replica_id: to,
                sender_replica_id: from,
                encryption: Some(Encryption::NoiseProtocol(NoiseProtocol { message: Some(message) })),
            })
        }
    }
}

/// Two replicas and a network that does anything with their messages.
/// case: prefix * 10 + steps, where the prefix is 0 nothing, 1 a handshake on
/// its way, 2 a complete one, 3 one that is complete for one replica only, 4
/// one started by both.
pub fn hostile() {
    let (prefix, steps) = (case() / 10, case() % 10);
    let mut net = Net::new(2);
    if prefix > 0 {
        net.send(1, 2, 0);
    }
    if prefix == 3 {
        // Attestation both ways and the request of the key agreement arrive.
        for _ in 0..3 {
            net.deliver(0, false);
        }
        check(net.wire.len() == 1, "a handshake takes two messages from each");
        net.wire.clear();
    } else if prefix == 4 {
        net.send(2, 1, 0);
    } else if prefix > 1 {
        net.settle();
        check(net.received.get(&(1, 2)).is_some(), "a reliable network completes handshakes");
    }
    for _ in 0..steps {
        let w = net.wire.len().min(2);
        let k = choose("step", 3 + 3 * w);
        if k < 3 {
            let id = 1 + choose("replica", 2) as u64;
            match k {
                0 => net.send(id, 3 - id, choose("kind", 3) as u8),
                1 => {
                    for _ in 0..1 + 2 * choose("ticks", 2) {
                        net.tick(id);
                    }
                }
                _ => {
                    let m = forged(3 - id, id);
                    net.receive(3 - id, id, m);
                    cover("forged");
                }
            }
        } else {
            let i = (k - 3) % w;
            match (k - 3) / w {
                0 => net.deliver(i, false),
                1 => net.deliver(i, true),
                _ => {
                    net.wire.remove(i);
                }
            }
        }
    }
    recover(&mut net);
}

/// Once the network is reliable again, messages get through: one replica keeps
/// sending heartbeats, the other one answers them, and speaks up by itself when
/// it has not heard of the first one for long.
fn recover(net: &mut Net) {
    let a = 1 + choose("leader", 2) as u64;
    let b = 3 - a;
    let count = |net: &Net, f: u64, t: u64| net.received.get(&(f, t)).map_or(0, |r| r.len());
    let mut silent = 0;
    let mut rounds = 0;
    net.settle();
    loop {
        let (heard, answered) = (count(net, a, b), count(net, b, a));
        net.tick(a);
        net.tick(b);
        if silent == 2 * TIMEOUT {
            silent = 0;
            net.send(b, a, 0);
        }
        net.send(a, b, 1);
        net.settle();
        if count(net, a, b) > heard {
            silent = 0;
            net.send(b, a, 0);
            net.settle();
            if count(net, b, a) > answered {
                break;
            }
        } else {
            silent += 1;
        }
        rounds += 1;
        if rounds > 10 * TIMEOUT {
            check(false, "a reliable network carries messages, whatever happened before");
            return;
        }
    }
    let (x, y) = (net.next, net.next + 1);
    net.send(1, 2, 0);
    net.send(2, 1, 3);
    net.settle();
    let got = |f: u64, t: u64, m: u8| net.received.get(&(f, t)).is_some_and(|r| r.contains(&m));
    check(got(1, 2, x) && got(2, 1, y), "replicas that have found each other stay in touch");
    check(net.waiting.values().all(|w| w.is_empty()), "no message is withheld forever");
    cover("recovered");
}

/// Replicas leave the cluster. case: steps.
pub fn leaving() {
    let mut net = Net::new(3);
    let pairs = [(1u64, 2u64), (1, 3), (2, 1)];
    for _ in 0..case() {
        let k = choose("step", 5);
        if k < 3 {
            let (f, t) = pairs[k];
            net.send(f, t, 0);
        } else if k == 3 {
            net.settle();
        } else if !net.wire.is_empty() {
            net.deliver(0, false);
        }
    }
    let gone = 1 + choose("gone", 3) as u64;
    let left: Vec<u64> = (1..=3).filter(|i| *i != gone).collect();
    net.at(1).process_cluster_change(&left);
    for (p, w) in net.waiting.iter_mut() {
        if p.0 == 1 && (p.1 == gone || gone == 1) {
            w.clear();
        }
    }
    let before = net.wire.len();
    net.flush(1);
    check(net.wire.len() == before, "leaving is silent");
    // What is on its way is lost, so that whatever the replica sends is new.
    net.wire.clear();
    for _ in 0..2 {
        net.tick(1);
    }
    let to: Vec<u64> = net.wire.iter().map(|w| w.1).collect();
    check(!to.contains(&gone) && (gone != 1 || to.is_empty()), "nothing is sent to replicas that have left");
    net.send(1, 2, 0);
    let handshake = net.wire.iter().any(|(f, t, m)| (*f, *t) == (1, 2) && matches!(m, in_message::Msg::SecureChannelHandshake(_)));
    if gone != 3 {
        check(handshake, "a replica that returns is authenticated again");
        cover("again");
    } else {
        cover("stays");
    }
}

/// Sessions fail to encrypt. case: messages.
pub fn mute() {
    let mut net = Net::new(2);
    let complete = flip("complete");
    if complete {
        net.send(1, 2, 0);
        net.settle();
    }
    ledger(|l| l.mute = true);
    for _ in 0..case() {
        let f = if complete { 1 + choose("sender", 2) as u64 } else { 1 };
        net.send(f, 3 - f, choose("kind", 5) as u8);
    }
    net.settle();
    check(net.received.get(&(2, 1)).is_none(), "nothing is sent out in the clear");
    ledger(|l| l.mute = false);
    net.waiting.clear();
    let x = net.next;
    net.send(1, 2, 4);
    net.settle();
    check(net.received.get(&(1, 2)).is_some_and(|r| r.contains(&x)), "a message that could not be encrypted does not hinder others");
    cover("mute");
}

/// Sessions cannot be created.
pub fn refused() {
    let mut net = Net::new(2);
    ledger(|l| l.refuse = true);
    let r = if flip("out") {
        let payload = Some(Payload { contents: vec![1].into(), ..Default::default() });
        let m = DeliverSystemMessage { recipient_replica_id: 2, sender_replica_id: 1, payload, ..Default::default() };
        net.at(1).process_out_message(OutgoingMessage::DeliverSystemMessage(m, MessageType::MsgAppend))
    } else {
        let m = forged(2, 1);
        net.at(1).process_in_message(m).map(|m| check(m.is_none(), "nothing is accepted without a session"))
    };
    check(r.is_err(), "without attestation there is no communication");
    check(net.at(1).take_out_messages().is_empty(), "nothing is sent out in the clear");
    cover("refused");
}
