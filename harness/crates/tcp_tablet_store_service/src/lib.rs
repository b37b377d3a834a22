//! /repo/apps/tablet_store/service/src/lib.rs without its actor, which needs Oak.
extern crate prost;

pub mod apps {
    pub mod tablet_store {
        pub mod service {
            include!(concat!(env!("OUT_DIR"), "/apps.tablet_store.service.rs"));
        }
    }
}
