//! What raft-rs uses of the crates protobuf and fxhash, over prost.
pub trait Message: prost::Message + Sized {
    fn compute_size(&self) -> u32 {
        self.encoded_len() as u32
    }
    fn write_to_bytes(&self) -> Result<Vec<u8>, ProtobufError> {
        Ok(self.encode_to_vec())
    }
    fn merge_from_bytes(&mut self, bytes: &[u8]) -> Result<(), ProtobufError> {
        self.merge(bytes).map_err(|_| ProtobufError)
    }
}
impl<M: prost::Message> Message for M {}

#[derive(Debug)]
pub struct ProtobufError;
impl std::fmt::Display for ProtobufError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("protobuf")
    }
}
impl std::error::Error for ProtobufError {}

/// FxHasher
#[derive(Default, Clone, Copy)]
pub struct Hasher(u64);
impl std::hash::Hasher for Hasher {
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
