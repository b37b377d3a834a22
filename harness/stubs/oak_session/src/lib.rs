//! Stand-in for oak_session: a session remembers its configuration; there is
//! no cryptography in it, and harnesses of the code above the session bring
//! their own model of one.
extern crate alloc;
use core::cell::RefCell;

pub trait ProtocolEngine<I, O> {
    fn get_outgoing_message(&mut self) -> anyhow::Result<Option<O>>;
    fn put_incoming_message(&mut self, m: I) -> anyhow::Result<Option<()>>;
}

pub mod aggregators {
    pub struct PassThrough {}
}
pub mod attestation {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum AttestationType {
        Bidirectional,
        SelfUnidirectional,
        PeerUnidirectional,
        Unattested,
    }
}
pub mod handshake {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum HandshakeType {
        NoiseKK,
        NoiseKN,
        NoiseNK,
        NoiseNN,
    }
}
pub mod generator {
    use oak_proto_rust::oak::attestation::v1::Endorsements;
    pub trait BindableAssertionGenerator {
        fn endorsements(&self) -> Endorsements;
    }
}
pub mod verifier {
    use oak_attestation_verification_types::verifier::AttestationVerifier;
    pub trait BoundAssertionVerifier {
        fn verifier(&self) -> alloc::sync::Arc<dyn AttestationVerifier>;
        fn key(&self) -> &'static str;
    }
}
pub mod key_extractor {
    pub trait KeyExtractor: Send + Sync {
        fn name(&self) -> &'static str;
    }
    pub struct DefaultBindingKeyExtractor {}
    impl KeyExtractor for DefaultBindingKeyExtractor {
        fn name(&self) -> &'static str {
            "binding"
        }
    }
    pub struct DefaultSigningKeyExtractor {}
    impl KeyExtractor for DefaultSigningKeyExtractor {
        fn name(&self) -> &'static str {
            "signing"
        }
    }
}
pub mod session_binding {
    pub trait SessionBinder: Send + Sync {
        fn bind(&self, bound_data: &[u8]) -> alloc::vec::Vec<u8>;
    }
    pub struct SignatureBindingVerifierProvider {
        pub extractor: alloc::sync::Arc<dyn super::key_extractor::KeyExtractor>,
    }
    impl SignatureBindingVerifierProvider {
        pub fn new(extractor: alloc::sync::Arc<dyn super::key_extractor::KeyExtractor>) -> Self {
            Self { extractor }
        }
    }
}
pub mod encryptors {
    pub struct UnorderedChannelEncryptor {
        window: u32,
    }
    impl TryFrom<(oak_crypto::noise_handshake::OrderedCrypter, u32)> for UnorderedChannelEncryptor {
        type Error = anyhow::Error;
        fn try_from(v: (oak_crypto::noise_handshake::OrderedCrypter, u32)) -> anyhow::Result<Self> {
            Ok(Self { window: v.1 })
        }
    }
    impl oak_crypto::encryptor::Encryptor for UnorderedChannelEncryptor {
        fn window(&self) -> u32 {
            self.window
        }
    }
}
pub mod config {
    use super::*;
    pub trait EncryptorProvider {
        fn provide_encryptor(
            &self,
            crypter: oak_crypto::noise_handshake::OrderedCrypter,
        ) -> Result<alloc::boxed::Box<dyn oak_crypto::encryptor::Encryptor>, anyhow::Error>;
    }
    pub struct SessionConfig {
        pub attestation: attestation::AttestationType,
        pub handshake: handshake::HandshakeType,
        pub generators: Vec<(String, Box<dyn generator::BindableAssertionGenerator>)>,
        pub verifiers: Vec<(String, Box<dyn verifier::BoundAssertionVerifier>)>,
        pub aggregator: bool,
        pub encryption: Option<Box<dyn EncryptorProvider>>,
    }
    pub struct SessionConfigBuilder(SessionConfig);
    impl SessionConfig {
        pub fn builder(attestation: attestation::AttestationType, handshake: handshake::HandshakeType) -> SessionConfigBuilder {
            SessionConfigBuilder(SessionConfig {
                attestation,
                handshake,
                generators: Vec::new(),
                verifiers: Vec::new(),
                aggregator: false,
                encryption: None,
            })
        }
    }
    impl SessionConfigBuilder {
        pub fn add_self_assertion_generator(mut self, id: String, g: Box<dyn generator::BindableAssertionGenerator>) -> Self {
            self.0.generators.push((id, g));
            self
        }
        pub fn add_peer_assertion_verifier(mut self, id: String, v: Box<dyn verifier::BoundAssertionVerifier>) -> Self {
            self.0.verifiers.push((id, v));
            self
        }
        pub fn set_assertion_attestation_aggregator(mut self, _: Box<aggregators::PassThrough>) -> Self {
            self.0.aggregator = true;
            self
        }
        pub fn set_encryption_provider(mut self, p: Box<dyn EncryptorProvider>) -> Self {
            self.0.encryption = Some(p);
            self
        }
        pub fn build(self) -> SessionConfig {
            self.0
        }
    }
}

thread_local! {
    /// Configurations of the sessions created, for the harness to look at.
    pub static CREATED: RefCell<Vec<(&'static str, config::SessionConfig)>> = RefCell::new(Vec::new());
}

pub mod session {
    use super::*;
    use alloc::rc::Rc;
    use oak_proto_rust::oak::session::v1::{PlaintextMessage, SessionRequest, SessionResponse};

    pub trait Session {
        fn is_open(&self) -> bool;
        fn write(&mut self, m: PlaintextMessage) -> anyhow::Result<()>;
        fn read(&mut self) -> anyhow::Result<Option<PlaintextMessage>>;
    }
    /// What sessions were given, and the script of what they answer.
    pub struct Io<I, O> {
        pub open: bool,
        pub written: Vec<PlaintextMessage>,
        pub incoming: Vec<I>,
        pub write: Option<anyhow::Result<()>>,
        pub put: Option<anyhow::Result<Option<()>>>,
        pub outgoing: Option<anyhow::Result<Option<O>>>,
        pub readable: Option<anyhow::Result<Option<PlaintextMessage>>>,
    }
    impl<I, O> Default for Io<I, O> {
        fn default() -> Self {
            Io { open: false, written: vec![], incoming: vec![], write: None, put: None, outgoing: None, readable: None }
        }
    }
    thread_local! {
        pub static CLIENT: Rc<RefCell<Io<SessionResponse, SessionRequest>>> = Rc::default();
        pub static SERVER: Rc<RefCell<Io<SessionRequest, SessionResponse>>> = Rc::default();
    }
    macro_rules! session {
        ($n:ident $io:ident $name:literal $i:ty, $o:ty) => {
            pub struct $n {
                io: Rc<RefCell<Io<$i, $o>>>,
            }
            impl $n {
                pub fn create(config: config::SessionConfig) -> anyhow::Result<Self> {
                    CREATED.with(|c| c.borrow_mut().push(($name, config)));
                    Ok(Self { io: $io.with(|io| io.clone()) })
                }
            }
            impl ProtocolEngine<$i, $o> for $n {
                fn get_outgoing_message(&mut self) -> anyhow::Result<Option<$o>> {
                    self.io.borrow_mut().outgoing.take().unwrap_or(Err(anyhow::Error::msg("")))
                }
                fn put_incoming_message(&mut self, m: $i) -> anyhow::Result<Option<()>> {
                    let mut io = self.io.borrow_mut();
                    io.incoming.push(m);
                    io.put.take().unwrap_or(Err(anyhow::Error::msg("")))
                }
            }
            impl Session for $n {
                fn is_open(&self) -> bool {
                    self.io.borrow().open
                }
                fn write(&mut self, m: PlaintextMessage) -> anyhow::Result<()> {
                    let mut io = self.io.borrow_mut();
                    io.written.push(m);
                    io.write.take().unwrap_or(Err(anyhow::Error::msg("")))
                }
                fn read(&mut self) -> anyhow::Result<Option<PlaintextMessage>> {
                    self.io.borrow_mut().readable.take().unwrap_or(Err(anyhow::Error::msg("")))
                }
            }
        };
    }
    session!(ClientSession CLIENT "client" SessionResponse, SessionRequest);
    session!(ServerSession SERVER "server" SessionRequest, SessionResponse);
}
