fn main() {
    println!("cargo:rerun-if-changed=proto");
    prost_build::compile_protos(&["proto/attestation.proto", "proto/session.proto"], &["proto"]).unwrap();
}
