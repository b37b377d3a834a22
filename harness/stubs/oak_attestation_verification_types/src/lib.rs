//! Stand-in: a verifier is what it was built from.
extern crate alloc;
pub mod verifier {
    use alloc::vec::Vec;
    /// What a verifier checks, in the words of the stand-in that was built.
    #[derive(Clone, Debug, PartialEq)]
    pub enum Check {
        Insecure,
        AmdSevSnp,
        Dice,
        Policy(&'static str),
    }
    pub trait AttestationVerifier: Send + Sync {
        fn checks(&self) -> Vec<Check>;
        fn now(&self) -> i64;
        fn values(&self) -> Vec<Vec<u8>>;
    }
}
