//! Stand-in: generators and verifiers remember what they were built from.
extern crate alloc;
use alloc::sync::Arc;
use oak_attestation_types::{attester::Attester, endorser::Endorser};
use oak_attestation_verification_types::verifier::AttestationVerifier;
use oak_proto_rust::oak::attestation::v1::Endorsements;
use oak_session::generator::BindableAssertionGenerator;
use oak_session::session_binding::{SessionBinder, SignatureBindingVerifierProvider};
use oak_session::verifier::BoundAssertionVerifier;

pub struct EndorsedEvidenceBindableAssertionGenerator {
    attester: Arc<dyn Attester>,
    endorser: Arc<dyn Endorser>,
    binder: Arc<dyn SessionBinder>,
}
impl EndorsedEvidenceBindableAssertionGenerator {
    pub fn new(attester: Arc<dyn Attester>, endorser: Arc<dyn Endorser>, binder: Arc<dyn SessionBinder>) -> Self {
        Self { attester, endorser, binder }
    }
}
impl BindableAssertionGenerator for EndorsedEvidenceBindableAssertionGenerator {
    fn endorsements(&self) -> Endorsements {
        let _ = self.binder.bind(&[]);
        self.endorser.endorse(self.attester.quote().ok().as_ref()).unwrap()
    }
}

pub struct EndorsedEvidenceBoundAssertionVerifier {
    verifier: Arc<dyn AttestationVerifier>,
    binding: Arc<SignatureBindingVerifierProvider>,
}
impl EndorsedEvidenceBoundAssertionVerifier {
    pub fn new(verifier: Arc<dyn AttestationVerifier>, binding: Arc<SignatureBindingVerifierProvider>) -> Self {
        Self { verifier, binding }
    }
}
impl BoundAssertionVerifier for EndorsedEvidenceBoundAssertionVerifier {
    fn verifier(&self) -> Arc<dyn AttestationVerifier> {
        self.verifier.clone()
    }
    fn key(&self) -> &'static str {
        self.binding.extractor.name()
    }
}
