//! The transaction manager with everything around it modelled: the tablet
//! store (authoritative metadata), the blob storage and the messages between.
use crate::data::sha;
use crate::env::*;
use tcp_tablet_cache_service::apps::tablet_cache::service::{ExecuteTabletOpsError, ExecuteTabletOpsResponse};

/// A committed version of a tablet.
#[derive(Clone)]
pub struct Version {
    pub meta: TabletMetadata,
    pub value: Bytes,
}

pub struct OpsRequest {
    pub corr: u64,
    pub ops: Vec<TabletOp>,
    /// What the tablet store did with it, once it has.
    pub applied: Option<bool>,
    pub answered: bool,
}

pub struct World {
    pub mgr: DefaultTabletTransactionManager<Bytes>,
    /// Committed versions by (table, tablet id), newest last.
    pub store: BTreeMap<(String, u32), Vec<Version>>,
    /// Blobs acknowledged by the storage.
    pub blobs: BTreeMap<String, Bytes>,
    pub out: Vec<OutMessage>,
    pub requests: Vec<OpsRequest>,
    pub corrs: BTreeSet<u64>,
    pub faults: usize,
    pub instant: u64,
    /// Answers already delivered, kept for duplication.
    pub delivered: Vec<InMessage>,
    /// Data storage does not lose what was acknowledged, but may return
    /// something else.
    pub corruption: bool,
    /// Someone else may write to the tablet store.
    pub foreign: bool,
    pub nforeign: u8,
    /// Values sent to the storage.
    pub stored: Vec<Bytes>,
    /// Something was committed, but the answer got lost.
    pub applied_unanswered: bool,
    /// What someone else writes to a tablet: its table, id and present
    /// contents, and a number.
    pub foreign_value: fn(&str, u32, &Bytes, u8) -> Bytes,
    /// When someone else wrote: instant, table, tablet, number.
    pub foreign_log: Vec<(u64, String, u32, u8)>,
    /// Instead of writing, someone else splits the tablet: what is left of
    /// it, the new tablet's id and contents.
    pub split: Option<fn(u32, &Bytes) -> (Bytes, u32, Bytes)>,
    /// Requests are answered in this order (0 as sent, 1 reversed, else
    /// from the middle) instead of any.
    pub order: Option<usize>,
}

impl World {
    /// `tables`: name, ids of its tablets; the tablets with an odd position
    /// have never been written.
    pub fn new(tables: &[(&str, &[u32])], region: u32, faults: usize) -> World {
        Self::with_contents(tables, region, faults, |name, id| Bytes::from(format!("{name}{id}")))
    }

    pub fn with_contents(
        tables: &[(&str, &[u32])],
        region: u32,
        faults: usize,
        contents: impl Fn(&str, u32) -> Bytes,
    ) -> World {
        let mut mgr = DefaultTabletTransactionManager::create(
            Box::new(DefaultTabletTransactionCoordinator::create(1 << 56)),
            Box::new(DefaultTabletMetadataCache::create(3 << 56)),
            Box::new(DefaultTabletDataCache::create(
                2 << 56,
                Box::new(BytesTabletDataSerializer {}),
                Box::new(DefaultTabletDataCachePolicy::new()),
            )),
        );
        mgr.init(
            logger(),
            TransactionManagerConfig {
                data_cache_config: Some(TabletDataCacheConfig { tablet_cache_capacity: 1024 }),
                metadata_cache_config: Some(TabletMetadataCacheConfig {
                    table_configs: tables
                        .iter()
                        .map(|(n, _)| TableMetadataCacheConfig { table_name: n.to_string(), table_region_size: region })
                        .collect(),
                }),
            },
        );
        let mut w = World {
            mgr,
            store: BTreeMap::new(),
            blobs: BTreeMap::new(),
            out: vec![],
            requests: vec![],
            corrs: BTreeSet::new(),
            faults,
            instant: 1,
            delivered: vec![],
            corruption: true,
            foreign: true,
            nforeign: 0,
            applied_unanswered: false,
            stored: vec![],
            foreign_value: |_, _, _, n| Bytes::from(vec![b'f', n]),
            foreign_log: vec![],
            split: None,
            order: None,
        };
        for (name, ids) in tables {
            for (i, id) in ids.iter().enumerate() {
                let meta = TabletMetadata { tablet_id: *id, ..Default::default() };
                w.store.insert((name.to_string(), *id), vec![Version { meta, value: Bytes::new() }]);
                if i % 2 == 0 {
                    let value = contents(name, *id);
                    w.write_foreign(name, *id, value);
                }
            }
        }
        w
    }

    pub fn newest(&self, table: &str, id: u32) -> Option<&Version> {
        self.store.get(&(table.to_string(), id)).and_then(|v| v.last())
    }

    /// Another tablet cache commits a new version of the tablet.
    pub fn write_foreign(&mut self, table: &str, id: u32, value: Bytes) {
        let old = self.newest(table, id).unwrap().meta.tablet_version;
        let uri = format!("{table}/{id}/{}", old + 1);
        let meta = TabletMetadata {
            tablet_id: id,
            tablet_version: old + 1,
            blob_uri: uri.clone(),
            blob_size: value.len() as u32,
            blob_hash: sha(&value),
            ..Default::default()
        };
        self.blobs.insert(uri, value.clone());
        self.store.get_mut(&(table.to_string(), id)).unwrap().push(Version { meta, value });
    }

    pub fn progress(&mut self) {
        self.instant += 1;
        self.mgr.make_progress(self.instant);
        self.collect();
    }

    pub fn collect(&mut self) {
        for m in self.mgr.take_out_messages() {
            let corr = match &m {
                OutMessage::LoadTabletRequest(c, _) => *c,
                OutMessage::StoreTabletRequest(c, _, v) => {
                    self.stored.push(v.clone());
                    *c
                }
                OutMessage::ExecuteTabletOpsRequest(c, _, r) => {
                    self.requests.push(OpsRequest {
                        corr: *c,
                        ops: r.tablet_ops.clone(),
                        applied: None,
                        answered: false,
                    });
                    *c
                }
            };
            check(self.corrs.insert(corr), "correlation_ids_unique");
            self.out.push(m);
        }
    }

    /// Tablets responsible for any key in `from..=to`.
    fn list(&self, table: &str, from: u32, to: u32) -> Vec<TabletMetadata> {
        let all: Vec<&Version> =
            self.store.iter().filter(|((t, _), _)| t == table).map(|(_, v)| v.last().unwrap()).collect();
        let last = all.iter().position(|v| v.meta.tablet_id >= to).unwrap_or(0);
        all.iter()
            .enumerate()
            .filter(|(i, v)| *i == last || (v.meta.tablet_id >= from && v.meta.tablet_id <= to))
            .map(|(_, v)| v.meta.clone())
            .collect()
    }

    /// The tablet store executes the ops, all or none of them.
    pub fn execute(&mut self, ops: &[TabletOp]) -> (bool, TabletsResponse) {
        let mut results = vec![];
        let mut all = true;
        for o in ops {
            let mut status = TabletOpStatus::Failed;
            let res = match o.op.as_ref() {
                Some(tablet_op::Op::ListTablet(l)) => {
                    status = TabletOpStatus::Succeeded;
                    tablet_op_result::OpResult::ListTablet(ListTabletResult {
                        key_hash_from: l.key_hash_from,
                        key_hash_to: l.key_hash_to,
                        tablets: self.list(&o.table_name, l.key_hash_from, l.key_hash_to),
                    })
                }
                Some(tablet_op::Op::CheckTablet(c)) => {
                    let cur = self.newest(&o.table_name, c.tablet_id);
                    let mut r = CheckTabletResult::default();
                    if let Some(cur) = cur {
                        if cur.meta.tablet_version == c.tablet_version {
                            status = TabletOpStatus::Succeeded;
                        } else {
                            r.existing_tablet = Some(cur.meta.clone());
                        }
                    }
                    tablet_op_result::OpResult::CheckTablet(r)
                }
                Some(tablet_op::Op::UpdateTablet(u)) => {
                    let m = u.tablet_metadata.as_ref().unwrap();
                    let mut r = UpdateTabletResult::default();
                    if let Some(cur) = self.newest(&o.table_name, m.tablet_id) {
                        if m.tablet_version == cur.meta.tablet_version + 1 {
                            status = TabletOpStatus::Succeeded;
                        }
                        r.existing_tablet = Some(cur.meta.clone());
                    }
                    tablet_op_result::OpResult::UpdateTablet(r)
                }
                _ => {
                    check(false, "op_is_set");
                    return (false, TabletsResponse::default());
                }
            };
            all &= status == TabletOpStatus::Succeeded;
            results.push(TabletOpResult {
                table_name: o.table_name.clone(),
                status: status as i32,
                op_result: Some(res),
            });
        }
        if all {
            for o in ops {
                if let Some(tablet_op::Op::UpdateTablet(u)) = &o.op {
                    let m = u.tablet_metadata.clone().unwrap();
                    let value = self.blobs.get(&m.blob_uri).cloned();
                    check(value.is_some(), "committed_blob_was_acknowledged");
                    let value = value.unwrap_or_default();
                    check(m.blob_hash == sha(&value), "committed_hash_matches_blob");
                    self.store
                        .get_mut(&(o.table_name.clone(), m.tablet_id))
                        .unwrap()
                        .push(Version { meta: m, value });
                }
            }
        }
        let status = if all { TabletsRequestStatus::Succeeded } else { TabletsRequestStatus::Failed };
        (all, TabletsResponse { status: status as i32, tablet_results: results })
    }

    pub fn is_list(ops: &[TabletOp]) -> bool {
        ops.iter().any(|o| matches!(o.op, Some(tablet_op::Op::ListTablet(_))))
    }

    /// Picks an outstanding request and how it is answered.
    pub fn answer_any(&mut self) {
        let i = match self.order {
            None => choose("which", self.out.len()),
            Some(0) => 0,
            Some(1) => self.out.len() - 1,
            Some(_) => self.out.len() / 2,
        };
        let kinds = match &self.out[i] {
            _ if self.faults == 0 => 1,
            OutMessage::LoadTabletRequest(_, r) => {
                if self.corruption && !r.blob_uri.is_empty() {
                    3
                } else {
                    2
                }
            }
            OutMessage::StoreTabletRequest(..) => 2,
            OutMessage::ExecuteTabletOpsRequest(_, _, r) => {
                if Self::is_list(&r.tablet_ops) {
                    2
                } else if self.foreign {
                    6
                } else {
                    5
                }
            }
        };
        let k = choose("how", kinds);
        if k != 0 {
            self.faults -= 1;
        }
        self.answer(i, k);
    }

    pub fn answer(&mut self, i: usize, kind: usize) {
        let m = self.out.remove(i);
        let ok = TabletDataStorageStatus::Succeeded as i32;
        let failed = TabletDataStorageStatus::Failed as i32;
        let reply = match m {
            OutMessage::LoadTabletRequest(c, r) => {
                let mut v = if r.blob_uri.is_empty() { Some(Bytes::new()) } else { self.blobs.get(&r.blob_uri).cloned() };
                if v.is_none() {
                    check(false, "loaded_blob_exists");
                    v = Some(Bytes::new());
                }
                match kind {
                    0 => InMessage::LoadTabletResponse(c, LoadTabletResponse { status: ok }, v.unwrap()),
                    1 => InMessage::LoadTabletResponse(c, LoadTabletResponse { status: failed }, Bytes::new()),
                    _ => InMessage::LoadTabletResponse(c, LoadTabletResponse { status: ok }, Bytes::from_static(b"evil")),
                }
            }
            OutMessage::StoreTabletRequest(c, r, v) => {
                if kind == 0 {
                    self.blobs.insert(r.blob_uri, v);
                }
                InMessage::StoreTabletResponse(c, StoreTabletResponse { status: if kind == 0 { ok } else { failed } })
            }
            OutMessage::ExecuteTabletOpsRequest(c, _, r) => {
                let q = self.requests.iter().position(|q| q.corr == c).unwrap();
                self.requests[q].answered = true;
                let list = Self::is_list(&r.tablet_ops);
                if list {
                    check(
                        r.tablet_ops.iter().all(|o| matches!(o.op, Some(tablet_op::Op::ListTablet(_)))),
                        "listing_not_mixed_with_ops",
                    );
                }
                let error = InMessage::ExecuteTabletOpsError(c, ExecuteTabletOpsError::default());
                match kind {
                    // Lost before it was executed.
                    1 => {
                        self.requests[q].applied = Some(false);
                        error
                    }
                    // Lost after it was executed.
                    2 => {
                        let (done, _) = self.execute(&r.tablet_ops);
                        self.requests[q].applied = Some(done);
                        self.applied_unanswered |= done && !list;
                        error
                    }
                    // Rejected as a whole.
                    3 => {
                        self.requests[q].applied = Some(false);
                        InMessage::ExecuteTabletOpsResponse(
                            c,
                            ExecuteTabletOpsResponse::default(),
                            TabletsResponse { status: TabletsRequestStatus::Invalid as i32, tablet_results: vec![] },
                        )
                    }
                    // Store knows none of the tables any more.
                    4 => {
                        self.requests[q].applied = Some(false);
                        InMessage::ExecuteTabletOpsResponse(
                            c,
                            ExecuteTabletOpsResponse::default(),
                            TabletsResponse {
                                status: TabletsRequestStatus::Failed as i32,
                                tablet_results: r
                                    .tablet_ops
                                    .iter()
                                    .map(|o| TabletOpResult {
                                        table_name: o.table_name.clone(),
                                        status: TabletOpStatus::Invalid as i32,
                                        op_result: None,
                                    })
                                    .collect(),
                            },
                        )
                    }
                    _ => {
                        if kind == 5 && !r.tablet_ops.is_empty() {
                            let o = &r.tablet_ops[choose("foreign", r.tablet_ops.len())];
                            let id = op_tablet(o);
                            self.nforeign += 1;
                            let old = self.newest(&o.table_name, id).unwrap().value.clone();
                            if let Some(split) = self.split {
                                let (rest, new, moved) = split(id, &old);
                                let meta = TabletMetadata { tablet_id: new, ..Default::default() };
                                self.store.insert((o.table_name.clone(), new), vec![Version { meta, value: Bytes::new() }]);
                                self.write_foreign(&o.table_name, new, moved);
                                self.write_foreign(&o.table_name, id, rest);
                            } else {
                                let v = (self.foreign_value)(&o.table_name, id, &old, self.nforeign);
                                self.write_foreign(&o.table_name, id, v);
                                self.foreign_log.push((self.instant, o.table_name.clone(), id, self.nforeign));
                            }
                        }
                        let (done, resp) = self.execute(&r.tablet_ops);
                        self.requests[q].applied = Some(done);
                        InMessage::ExecuteTabletOpsResponse(c, ExecuteTabletOpsResponse::default(), resp)
                    }
                }
            }
        };
        self.delivered.push(reply.clone());
        self.mgr.process_in_message(reply);
    }
}

pub fn op_tablet(o: &TabletOp) -> u32 {
    match &o.op {
        Some(tablet_op::Op::CheckTablet(c)) => c.tablet_id,
        Some(tablet_op::Op::UpdateTablet(u)) => u.tablet_metadata.as_ref().map(|m| m.tablet_id).unwrap_or(0),
        _ => 0,
    }
}
