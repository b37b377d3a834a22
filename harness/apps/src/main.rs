#![allow(dead_code)]
mod cache;
mod counter;
mod env;
mod store;
sym::harnesses! {
    h_store_ops => store::operations;
    h_store_list => store::listing;
    h_store_command => store::commands;
    h_store_layout => store::layout;
    h_cache_e2e => cache::end_to_end;
    h_cache_command => cache::commands;
    h_cache_busy => cache::busy;
    h_counter_ops => counter::operations;
    h_counter_command => counter::commands;
}
