ASSUME = [
    "LLVM IR at opt-level 1 with overflow checks is what runs; rustc, LLVM and Z3 are trusted, the engine is "
    "cross-checked by replaying sampled paths and every counterexample in the native binary",
    "single-threaded execution, memory allocation never fails",
    "hash functions of hash maps are replaced by a deterministic stand-in for ahash",
]
TRUST = ("Trusted: rustc/LLVM, Z3, the engine in engine/ (sampled paths and counterexamples are replayed in the native "
         "binary), the harness's model of what surrounds the code, the stand-ins in harness/stubs.")
NOTES = ("The checks compile /repo's current sources into harness programs (harness/*), and execute their LLVM IR "
         "symbolically with the engine in engine/. No hooks in /repo are needed.")
CACHE_PKGS = ["sym", "ahash", "tcp_proto", "tcp_runtime", "tcp_tablet_cache_service", "tcp_tablet_store_service"]
STUBS = ["anyhow", "micro_rpc", "oak_attestation", "oak_attestation_types", "oak_attestation_verification",
         "oak_attestation_verification_types", "oak_crypto", "oak_dice_attestation_verifier", "oak_proto_rust",
         "oak_restricted_kernel_sdk", "oak_session", "oak_session_endorsed_evidence", "oak_time", "raft", "rand"]
RT_PKGS = CACHE_PKGS + STUBS + ["tcp_atomic_counter_service"]
GROUPS = {
    "cache": {
        "bin": "cache_harness",
        "needs": ["sym", "stubs/ahash", "crates"],
        "packages": ["cache_harness"] + CACHE_PKGS,
        "sources": ["apps/tablet_cache/service", "apps/tablet_store/service", "proto", "runtime/src"],
    },
    "apps": {
        "bin": "apps_harness",
        "needs": ["sym", "stubs", "rt"],
        "packages": ["apps_harness"] + RT_PKGS,
        "sources": ["apps/tablet_cache/service", "apps/tablet_store/service", "apps/atomic_counter/service", "proto",
                    "runtime/src"],
    },
    "runtime": {
        "bin": "runtime_harness",
        "needs": ["sym", "stubs", "rt"],
        "packages": ["runtime_harness", "sym", "ahash", "tcp_proto", "tcp_runtime"] + STUBS,
        "sources": ["proto", "runtime/src"],
    },
}


def H(name, case=0, jobs=1, time=200, covers=(), **kw):
    h = {"name": name, "case": case, "jobs": jobs, "time": time, "covers": list(covers)}
    h.update(kw)
    return h


def deep(*hs):
    """Only in the thorough tier."""
    return [dict(h, tier="thorough", jobs=8, time=3000) for h in hs]
