//! Stand-in: verifiers and policies remember what they were built from.
extern crate alloc;
use alloc::sync::Arc;
use oak_attestation_verification_types::verifier::{AttestationVerifier, Check};
use oak_proto_rust::oak::attestation::v1::*;
use oak_time::Clock;
use prost::Message;

pub trait Policy: Send + Sync {
    fn name(&self) -> &'static str;
    fn values(&self) -> Vec<u8>;
}
macro_rules! policy {
    ($($n:ident $t:ty),*) => {$(
        pub struct $n(Vec<u8>);
        impl $n {
            pub fn new(v: &$t) -> Self {
                $n(v.encode_to_vec())
            }
        }
        impl Policy for $n {
            fn name(&self) -> &'static str {
                stringify!($n)
            }
            fn values(&self) -> Vec<u8> {
                self.0.clone()
            }
        }
    )*};
}
policy!(KernelPolicy KernelLayerReferenceValues, SystemPolicy SystemLayerReferenceValues,
        ContainerPolicy ContainerLayerReferenceValues, FirmwarePolicy BinaryReferenceValue,
        AmdSevSnpPolicy AmdSevReferenceValues);

pub struct InsecureAttestationVerifier {
    clock: Arc<dyn Clock>,
    policies: Vec<Box<dyn Policy>>,
}
impl InsecureAttestationVerifier {
    pub fn new(clock: Arc<dyn Clock>, policies: Vec<Box<dyn Policy>>) -> Self {
        Self { clock, policies }
    }
}
impl AttestationVerifier for InsecureAttestationVerifier {
    fn checks(&self) -> Vec<Check> {
        let mut c = vec![Check::Insecure];
        c.extend(self.policies.iter().map(|p| Check::Policy(p.name())));
        c
    }
    fn now(&self) -> i64 {
        self.clock.get_time().into_unix_millis()
    }
    fn values(&self) -> Vec<Vec<u8>> {
        self.policies.iter().map(|p| p.values()).collect()
    }
}

pub struct AmdSevSnpDiceAttestationVerifier {
    platform: AmdSevSnpPolicy,
    firmware: Box<dyn Policy>,
    policies: Vec<Box<dyn Policy>>,
    clock: Arc<dyn Clock>,
}
impl AmdSevSnpDiceAttestationVerifier {
    pub fn new(
        platform: AmdSevSnpPolicy,
        firmware: Box<dyn Policy>,
        policies: Vec<Box<dyn Policy>>,
        clock: Arc<dyn Clock>,
    ) -> Self {
        Self { platform, firmware, policies, clock }
    }
}
impl AttestationVerifier for AmdSevSnpDiceAttestationVerifier {
    fn checks(&self) -> Vec<Check> {
        let mut c = vec![Check::AmdSevSnp, Check::Policy(self.firmware.name())];
        c.extend(self.policies.iter().map(|p| Check::Policy(p.name())));
        c
    }
    fn now(&self) -> i64 {
        self.clock.get_time().into_unix_millis()
    }
    fn values(&self) -> Vec<Vec<u8>> {
        let mut v = vec![self.platform.values(), self.firmware.values()];
        v.extend(self.policies.iter().map(|p| p.values()));
        v
    }
}
