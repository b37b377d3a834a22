//! What surrounds the transaction manager, as the harnesses see it.
pub use prost::bytes::Bytes;
pub use std::collections::{BTreeMap, BTreeSet};
pub use sym::*;
pub use tcp_tablet_cache_service::apps::tablet_cache::service::*;
pub use tcp_tablet_cache_service::transaction::{self, coordinator::*, data::*, manager::*, metadata::*, result::*, *};
pub use tcp_tablet_store_service::apps::tablet_store::service::*;

pub fn logger() -> slog::Logger {
    slog::Logger::root(slog::Discard, slog::o!())
}

/// The consistent hashing ring of one table as the tablet store keeps it.
#[derive(Clone)]
pub struct Ring {
    /// Sorted by id.
    pub tablets: Vec<TabletMetadata>,
}

impl Ring {
    /// Up to `n` tablets with arbitrary distinct ids.
    pub fn any(n: usize, version: u32) -> Ring {
        let mut tablets = vec![];
        let mut last: Option<u32> = None;
        for _ in 0..n {
            let id = any_u32("tablet_id");
            if let Some(l) = last {
                assume(id > l);
            }
            last = Some(id);
            tablets.push(TabletMetadata { tablet_id: id, tablet_version: version, ..Default::default() });
        }
        Ring { tablets }
    }
    /// Whether a tablet is the first one clockwise from the key. Free of
    /// branches: decided by the solver as a single formula.
    pub fn owns(&self, id: u32, key: u32) -> bool {
        let (mut present, mut nearest) = (false, true);
        for t in &self.tablets {
            present |= t.tablet_id == id;
            let (past, before) = (t.tablet_id >= key, t.tablet_id < id);
            nearest &= !(((key <= id) & past & before) | ((key > id) & (past | before)));
        }
        present & nearest
    }
    /// Index of the tablet responsible for a key: the first one clockwise.
    pub fn owner(&self, key: u32) -> usize {
        for (i, t) in self.tablets.iter().enumerate() {
            if t.tablet_id >= key {
                return i;
            }
        }
        0
    }
    /// Tablets responsible for any key in `from..=to`.
    pub fn list(&self, from: u32, to: u32) -> Vec<TabletMetadata> {
        let last = self.owner(to);
        let mut out = vec![];
        for (i, t) in self.tablets.iter().enumerate() {
            if (t.tablet_id >= from && t.tablet_id <= to) || i == last {
                out.push(t.clone());
            }
        }
        out
    }
}

pub fn metadata_cache(tables: &[(&str, u32)]) -> DefaultTabletMetadataCache {
    let mut c = DefaultTabletMetadataCache::create(3 << 56);
    c.init(
        logger(),
        TabletMetadataCacheConfig {
            table_configs: tables
                .iter()
                .map(|(n, s)| TableMetadataCacheConfig { table_name: n.to_string(), table_region_size: *s })
                .collect(),
        },
    );
    c
}

pub fn list_result(table: &str, from: u32, to: u32, status: TabletOpStatus, tablets: Vec<TabletMetadata>) -> TabletOpResult {
    TabletOpResult {
        table_name: table.to_string(),
        status: status as i32,
        op_result: Some(tablet_op_result::OpResult::ListTablet(ListTabletResult {
            key_hash_from: from,
            key_hash_to: to,
            tablets,
        })),
    }
}
