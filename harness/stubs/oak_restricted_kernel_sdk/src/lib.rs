//! Stand-in for oak_restricted_kernel_sdk.
pub mod attestation {
    use oak_proto_rust::oak::attestation::v1::Evidence;
    pub struct InstanceAttester {}
    impl InstanceAttester {
        pub fn create() -> anyhow::Result<Self> {
            Ok(Self {})
        }
    }
    impl oak_attestation_types::attester::Attester for InstanceAttester {
        fn extend(&mut self, _: &[u8]) -> anyhow::Result<()> {
            Ok(())
        }
        fn quote(&self) -> anyhow::Result<Evidence> {
            Ok(Evidence::default())
        }
    }
}
pub mod crypto {
    pub struct InstanceSessionBinder {}
    impl InstanceSessionBinder {
        pub fn create() -> anyhow::Result<Self> {
            Ok(Self {})
        }
    }
    impl oak_session::session_binding::SessionBinder for InstanceSessionBinder {
        fn bind(&self, bound_data: &[u8]) -> Vec<u8> {
            bound_data.to_vec()
        }
    }
}
