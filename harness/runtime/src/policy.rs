//! The attestation policy of the application service: which sessions it opens
//! with its peers, and that what the sessions say is what the replicas get.
use crate::env::*;
use oak_attestation_verification_types::verifier::Check;
use oak_proto_rust::oak::attestation::v1::*;
use oak_proto_rust::oak::session::v1::{session_request::Request, session_response::Response, *};
use oak_session::session::{CLIENT, SERVER};
use oak_session::{attestation::AttestationType, handshake::HandshakeType, CREATED};
use oak_time::{Clock, Instant};
use std::sync::Arc;
use tcp_proto::runtime::endpoint::secure_channel_handshake::{noise_protocol, Encryption, NoiseProtocol};
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::model::*;
use tcp_runtime::service::ApplicationService;

struct Late(i64);
impl Clock for Late {
    fn get_time(&self) -> Instant {
        Instant::from_unix_millis(self.0)
    }
}

struct Idle {
    values: ReferenceValues,
    clock: Option<i64>,
}
impl Actor for Idle {
    fn on_init(&mut self, _: Box<dyn ActorContext>) -> Result<(), ActorError> {
        Ok(())
    }
    fn on_shutdown(&mut self) {}
    fn on_save_snapshot(&mut self) -> Result<Bytes, ActorError> {
        Ok(Bytes::new())
    }
    fn on_load_snapshot(&mut self, _: Bytes) -> Result<(), ActorError> {
        Ok(())
    }
    fn on_process_command(&mut self, _: Option<ActorCommand>) -> Result<CommandOutcome, ActorError> {
        Ok(CommandOutcome::with_none())
    }
    fn on_apply_event(&mut self, _: ActorEventContext, _: ActorEvent) -> Result<EventOutcome, ActorError> {
        Ok(EventOutcome::with_none())
    }
    fn get_reference_values(&self) -> ReferenceValues {
        self.values.clone()
    }
    fn get_clock_override(&self) -> Option<Arc<dyn Clock>> {
        self.clock.map(|c| Arc::new(Late(c)) as Arc<dyn Clock>)
    }
}

fn binary(name: &'static str) -> BinaryReferenceValue {
    let t = if flip(name) {
        binary_reference_value::Type::Skip(SkipVerification {})
    } else {
        binary_reference_value::Type::Digests(Digests { digests: vec![bytes(name, 1)] })
    };
    BinaryReferenceValue { r#type: Some(t) }
}
fn root() -> Option<RootLayerReferenceValues> {
    Some(RootLayerReferenceValues {
        amd_sev: flip("sev").then(|| AmdSevReferenceValues { allow_debug: any_bool("debug"), stage0: flip("stage0").then(|| binary("firmware")) }),
        intel_tdx: None,
        insecure: flip("insecure").then(InsecureReferenceValues::default),
    })
}
fn values(kind: u64) -> ReferenceValues {
    let kernel = |n| Some(KernelLayerReferenceValues { init_ram_fs: Some(binary(n)), ..Default::default() });
    let t = match kind {
        0 => Some(reference_values::Type::OakContainers(OakContainersReferenceValues {
            root_layer: root(),
            kernel_layer: kernel("kernel"),
            system_layer: Some(SystemLayerReferenceValues { system_image: Some(binary("system")) }),
            container_layer: Some(ContainerLayerReferenceValues { binary: Some(binary("container")), configuration: None }),
        })),
        1 => {
            let some = root();
            let k = choose("missing", 4);
            Some(reference_values::Type::OakContainers(OakContainersReferenceValues {
                root_layer: if k == 0 { None } else { some },
                kernel_layer: if k == 1 { None } else { kernel("kernel") },
                system_layer: if k == 2 { None } else { Some(SystemLayerReferenceValues::default()) },
                container_layer: if k == 3 { None } else { Some(ContainerLayerReferenceValues::default()) },
            }))
        }
        2 => Some(reference_values::Type::OakRestrictedKernel(OakRestrictedKernelReferenceValues {
            root_layer: root(),
            kernel_layer: kernel("kernel"),
            application_layer: Some(ApplicationLayerReferenceValues { binary: Some(binary("application")), configuration: None }),
        })),
        _ => None,
    };
    ReferenceValues { r#type: t }
}

fn call(s: &mut ApplicationService<Idle>, instant: u64, m: in_message::Msg) -> Vec<out_message::Msg> {
    let r = s.receive_message(ReceiveMessageRequest { instant, message: Some(InMessage { msg: Some(m) }) });
    check(r.is_ok(), "the service answers");
    r.map(|r| r.messages).unwrap_or_default().into_iter().filter_map(|m| m.msg).filter(|m| !matches!(m, out_message::Msg::Log(_))).collect()
}

fn start(values: ReferenceValues, clock: Option<i64>, endorsements: Endorsements, now: u64, is_leader: bool, is_ephemeral: bool) -> ApplicationService<Idle> {
    let mut s = ApplicationService::new(Idle { values, clock });
    let m = in_message::Msg::StartReplica(StartReplicaRequest {
        is_leader,
        is_ephemeral,
        replica_id_hint: 1,
        raft_config: (!is_ephemeral).then(|| RaftConfig {
            tick_period: 10,
            election_tick: 4,
            heartbeat_tick: 1,
            max_size_per_msg: 1000,
            snapshot_config: Some(raft_config::SnapshotConfig { snapshot_count: 1000, chunk_size: 1000, max_pending_chunks: 2 }),
            handshake_retry_tick: 1,
        }),
        endorsements: Some(endorsements),
        ..Default::default()
    });
    let out = call(&mut s, now, m);
    check(out.iter().any(|m| matches!(m, out_message::Msg::StartReplica(_))), "a replica starts");
    s
}
fn add(s: &mut ApplicationService<Idle>, now: u64, id: u64) -> Vec<out_message::Msg> {
    call(s, now, in_message::Msg::ChangeCluster(ChangeClusterRequest { change_id: 9, replica_id: id, change_type: ChangeClusterType::ChangeTypeAddReplica.into() }))
}
fn request(r: Request) -> in_message::Msg {
    let message = Some(noise_protocol::Message::InitiatorRequest(noise_protocol::InitiatorRequest {
        message: Some(noise_protocol::initiator_request::Message::SessionRequest(SessionRequest { request: Some(r) })),
    }));
    handshake(message)
}
fn response(r: Response) -> in_message::Msg {
    let message = Some(noise_protocol::Message::RecipientResponse(noise_protocol::RecipientResponse {
        message: Some(noise_protocol::recipient_response::Message::SessionResponse(SessionResponse { response: Some(r) })),
    }));
    handshake(message)
}
fn handshake(message: Option<noise_protocol::Message>) -> in_message::Msg {
    in_message::Msg::SecureChannelHandshake(SecureChannelHandshake {
        recipient_replica_id: 1,
        sender_replica_id: 2,
        encryption: Some(Encryption::NoiseProtocol(NoiseProtocol { message })),
    })
}

/// Which sessions are opened. case: kind of the reference values.
pub fn policy() {
    let v = values(case());
    let own = flip("clock");
    let endorsements = Endorsements { contents: bytes("endorsements", 2) };
    let initiator = flip("initiator");
    let role = if initiator { 0 } else { choose("role", 3) };
    let mut s = start(v.clone(), own.then_some(77), endorsements.clone(), 100, role == 0, role == 2);
    if initiator {
        CLIENT.with(|c| c.borrow_mut().outgoing = Some(Ok(Some(SessionRequest { request: Some(Request::AttestRequest(AttestRequest { contents: vec![3] })) }))));
        for i in 0..12 {
            if i == 6 {
                add(&mut s, 170, 2);
            }
            let r = s.receive_message(ReceiveMessageRequest { instant: 120 + 10 * i, message: None });
            check(r.is_ok(), "the service answers");
        }
        call(&mut s, 300, request(Request::AttestRequest(AttestRequest { contents: vec![4] })));
    } else {
        call(&mut s, 300, request(Request::AttestRequest(AttestRequest { contents: vec![4] })));
    }
    let sessions = CREATED.with(|c| std::mem::take(&mut *c.borrow_mut()));
    check(sessions.first().is_some_and(|s| s.0 == if initiator { "client" } else { "server" }), "a session per peer");
    for (_, c) in sessions {
        check(c.attestation == AttestationType::Bidirectional, "both ends of a channel are attested");
        check(c.handshake == HandshakeType::NoiseNN, "keys are agreed upon");
        check(c.generators.len() == 1 && c.verifiers.len() == 1 && c.aggregator, "one assertion each way");
        let ((gid, g), (vid, ver)) = (&c.generators[0], &c.verifiers[0]);
        check(gid == vid, "the assertion that is sent is the one that is verified");
        check(g.endorsements() == endorsements, "the endorsements of the host are passed on");
        let a = ver.verifier();
        check(a.now() == if own { 77 } else { 300 }, "certificates are checked at the current time");
        check(c.encryption.is_some(), "messages are encrypted");
        let containers = match &v.r#type {
            Some(reference_values::Type::OakContainers(c)) => Some(c.clone()),
            _ => None,
        };
        let root = containers.as_ref().and_then(|c| c.root_layer.clone());
        let complete = containers.as_ref().is_some_and(|c| c.kernel_layer.is_some() && c.system_layer.is_some() && c.container_layer.is_some());
        let insecure = complete && root.as_ref().is_some_and(|r| r.insecure.is_some());
        let sev = complete && !insecure && root.as_ref().is_some_and(|r| r.amd_sev.as_ref().is_some_and(|a| a.stage0.is_some()));
        let checks = a.checks();
        let values = a.values();
        if insecure || sev {
            let (c, r) = (containers.unwrap(), root.unwrap());
            let mut policies = vec![Check::Policy("KernelPolicy"), Check::Policy("SystemPolicy"), Check::Policy("ContainerPolicy")];
            let mut expected = vec![c.kernel_layer.unwrap().encode_to_vec(), c.system_layer.unwrap().encode_to_vec(), c.container_layer.unwrap().encode_to_vec()];
            if sev {
                policies.insert(0, Check::Policy("FirmwarePolicy"));
                let sev = r.amd_sev.unwrap();
                expected.insert(0, sev.stage0.as_ref().unwrap().encode_to_vec());
                expected.insert(0, sev.encode_to_vec());
                cover("sev");
            } else {
                cover("insecure");
            }
            check(checks[0] == if sev { Check::AmdSevSnp } else { Check::Insecure }, "hardware evidence is waived only where the reference values say so");
            check(checks[1..] == policies[..], "every layer is verified");
            check(values == expected, "peers are verified against the reference values of the application");
            check(ver.key() == "binding", "the session is bound to the attested key");
        } else {
            check(checks == [Check::Dice], "hardware evidence is waived only where the reference values say so");
            check(values == [v.encode_to_vec()], "peers are verified against the reference values of the application");
            check(ver.key() == "signing", "the session is bound to the attested key");
            cover("dice");
        }
    }
}

struct Any;
impl oak_session::generator::BindableAssertionGenerator for Any {
    fn endorsements(&self) -> Endorsements {
        Endorsements::default()
    }
}
struct Nothing;
impl oak_session::verifier::BoundAssertionVerifier for Nothing {
    fn verifier(&self) -> Arc<dyn oak_attestation_verification_types::verifier::AttestationVerifier> {
        unreachable!()
    }
    fn key(&self) -> &'static str {
        ""
    }
}
fn err<T>() -> anyhow::Result<T> {
    Err(anyhow::Error::msg("no"))
}

macro_rules! other {
    (Request) => {
        Request::HandshakeRequest(HandshakeRequest::default())
    };
    (Response) => {
        Response::HandshakeResponse(HandshakeResponse::default())
    };
}

macro_rules! channel {
    ($io:ident, $encryptor:ident, $session:ident, $out:ident $o:ident $os:ident, $in:ident $i:ident) => {{
        let session = tcp_runtime::session::$session::create(Box::new(Any), Box::new(Nothing)).ok().unwrap();
        let mut e = tcp_runtime::encryptor::$encryptor::new(Box::new(session));
        let text = bytes("text", choose("length", 3));
        let (c, n) = (bytes("ciphertext", 2), bytes("nonce", 1));
        let sealed = EncryptedMessage { ciphertext: c.clone(), nonce: Some(n.clone()), associated_data: None };
        if flip("encrypt") {
            let (wrote, got) = (flip("written"), choose("outgoing", 5));
            $io.with(|io| {
                let mut io = io.borrow_mut();
                io.write = Some(if wrote { Ok(()) } else { err() });
                io.outgoing = Some(match got {
                    0 => Ok(Some($os { $out: Some($o::EncryptedMessage(sealed)) })),
                    1 => Ok(Some($os { $out: Some(other!($o)) })),
                    2 => Ok(Some($os { $out: None })),
                    3 => Ok(None),
                    _ => err(),
                });
            });
            let r = e.encrypt(&text);
            let written = $io.with(|io| std::mem::take(&mut io.borrow_mut().written));
            check(written.len() == 1 && written[0].plaintext == text, "the session seals what it is given");
            check(r.is_ok() == (wrote && got == 0), "only what the session has sealed leaves the replica");
            if let Ok(p) = r {
                check(p.contents == c && p.nonce == n, "only what the session has sealed leaves the replica");
                cover("sealed");
            } else {
                cover("not sealed");
            }
        } else {
            let (put, got) = (choose("put", 3), choose("readable", 3));
            $io.with(|io| {
                let mut io = io.borrow_mut();
                io.put = Some(match put {
                    0 => Ok(Some(())),
                    1 => Ok(None),
                    _ => err(),
                });
                io.readable = Some(match got {
                    0 => Ok(Some(PlaintextMessage { plaintext: text.clone() })),
                    1 => Ok(None),
                    _ => err(),
                });
            });
            let r = e.decrypt(&Payload { contents: c.clone().into(), nonce: n.clone().into() });
            let incoming = $io.with(|io| std::mem::take(&mut io.borrow_mut().incoming));
            check(incoming.len() == 1 && incoming[0].$in == Some($i::EncryptedMessage(sealed)), "the session opens what has arrived");
            match r {
                Ok(t) => {
                    check(put < 2 && got == 0 && t == text, "only what the session has opened is accepted");
                    cover("opened");
                }
                Err(_) => {
                    check(put > 0 || got > 0, "what the session has opened is accepted");
                    cover("not opened");
                }
            }
        }
    }};
}
/// What replicas say and hear is what the sessions seal and open.
/// case: 0 initiator, 1 recipient.
pub fn channel() {
    use tcp_runtime::encryptor::Encryptor;
    if case() == 0 {
        channel!(CLIENT, DefaultClientEncryptor, DefaultOakClientSession, request Request SessionRequest, response Response)
    } else {
        channel!(SERVER, DefaultServerEncryptor, DefaultOakServerSession, response Response SessionResponse, request Request)
    }
}
