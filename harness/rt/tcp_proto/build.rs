//! As /repo/proto/build.rs, with prost-build in place of Oak's
//! micro_rpc_build and with the stand-ins for Oak's messages.

use std::{env, fs, path::Path};

const PROTO: &str = "/repo/proto/src/endpoint.proto";

fn main() {
    println!("cargo:rerun-if-changed={PROTO}");
    println!("cargo:rerun-if-changed=build.rs");
    let out_dir = env::var("OUT_DIR").unwrap();
    let stubs = Path::new(&env::var("CARGO_MANIFEST_DIR").unwrap()).join("../../stubs/oak_proto_rust/proto");
    let proto_dir = Path::new(&out_dir).join("proto");
    fs::create_dir_all(&proto_dir).unwrap();
    // In place of Oak's messages, the stand-ins.
    let mut source = String::new();
    let mut imported = false;
    for line in fs::read_to_string(PROTO).unwrap().lines() {
        if line.starts_with("import \"proto/") {
            if !imported {
                source.push_str("import \"attestation.proto\";\nimport \"session.proto\";\n");
            }
            imported = true;
        } else {
            source.push_str(line);
            source.push('\n');
        }
    }
    let proto = proto_dir.join("endpoint.proto");
    fs::write(&proto, source).unwrap();

    let mut config = prost_build::Config::new();
    config.btree_map(["."]);
    config.extern_path(".oak", "::oak_proto_rust::oak");
    config.bytes([
        ".trustedcompute.runtime.endpoint.StartReplicaRequest",
        ".trustedcompute.runtime.endpoint.DeliverSystemMessage",
        ".trustedcompute.runtime.endpoint.DeliverSnapshotRequest",
        ".trustedcompute.runtime.endpoint.DeliverSnapshotResponse",
        ".trustedcompute.runtime.endpoint.ExecuteProposalRequest",
        ".trustedcompute.runtime.endpoint.ExecuteProposalResponse",
        ".trustedcompute.runtime.endpoint.DeliverAppMessage",
        ".trustedcompute.runtime.endpoint.Entry",
        ".trustedcompute.runtime.endpoint.Payload",
    ]);
    config.compile_protos(&[&proto], &[&proto_dir, &stubs]).unwrap();

    // What micro_rpc_build and tonic generate for the service.
    let tonic_dir = Path::new(&out_dir).join("tonic");
    fs::create_dir_all(&tonic_dir).unwrap();
    fs::write(
        tonic_dir.join("trustedcompute.runtime.endpoint.rs"),
        "pub trait EndpointService {
            fn receive_message(&mut self, request: ReceiveMessageRequest)
                -> Result<ReceiveMessageResponse, ::micro_rpc::Status>;
        }",
    )
    .unwrap();
}
