#![allow(dead_code)]
mod data;
mod env;
mod kv;
mod kvmock;
mod metadata;
mod txn;
mod world;
sym::harnesses! {
    h_meta_resolve_one => metadata::resolve_one;
    h_meta_seq => metadata::sequences;
    h_data_integrity => data::integrity;
    h_kv => kv::store;
    h_kv_context => kvmock::context;
    h_data_wide => data::wide;
    h_data_load => data::load_sequences;
    h_data_mixed => data::mixed_sequences;
    h_txn => txn::transactions;
    h_data_store => data::store_sequences;
}
