fn main() {
    println!("cargo:rerun-if-changed=eraftpb.proto");
    prost_build::compile_protos(&["eraftpb.proto"], &["."]).unwrap();
}
