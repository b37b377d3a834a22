//! Stand-in: remembers what it was built from.
extern crate alloc;
use alloc::sync::Arc;
use oak_attestation_verification_types::verifier::{AttestationVerifier, Check};
use oak_proto_rust::oak::attestation::v1::ReferenceValues;
use oak_time::Clock;
use prost::Message;

pub struct DiceAttestationVerifier {
    values: Vec<u8>,
    clock: Arc<dyn Clock>,
}
impl DiceAttestationVerifier {
    pub fn create(reference_values: ReferenceValues, clock: Arc<dyn Clock>) -> Self {
        Self { values: reference_values.encode_to_vec(), clock }
    }
}
impl AttestationVerifier for DiceAttestationVerifier {
    fn checks(&self) -> Vec<Check> {
        vec![Check::Dice]
    }
    fn now(&self) -> i64 {
        self.clock.get_time().into_unix_millis()
    }
    fn values(&self) -> Vec<Vec<u8>> {
        vec![self.values.clone()]
    }
}
