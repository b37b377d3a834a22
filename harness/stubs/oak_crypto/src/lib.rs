//! Stand-in for oak_crypto's interfaces.
extern crate alloc;
pub mod encryptor {
    pub struct Payload {
        pub message: alloc::vec::Vec<u8>,
        pub nonce: Option<alloc::vec::Vec<u8>>,
        pub aad: Option<alloc::vec::Vec<u8>>,
    }
    pub trait Encryptor: Send {
        fn window(&self) -> u32;
    }
}
pub mod noise_handshake {
    pub struct OrderedCrypter {}
}
