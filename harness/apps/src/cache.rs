//! The tablet cache actor, together with a tablet store actor and an
//! untrusted blob storage: an end-to-end key value store.
use crate::env::*;
use tablet_cache_in_message::InMsg;
use tablet_cache_out_message::OutMsg;
use tcp_tablet_cache_service::actor::TabletCacheActor;
use tcp_tablet_cache_service::apps::tablet_cache::service::*;
use tcp_tablet_cache_service::store::SimpleKeyValueStore;
use tcp_tablet_cache_service::transaction::{coordinator::*, data::*, manager::*, metadata::*};
use tcp_tablet_store_service::actor::{TabletConfigurator, TabletStoreActor};
use tcp_tablet_store_service::apps::tablet_store::service as st;

pub type CacheActor = TabletCacheActor<DefaultTabletTransactionManager<Bytes>, SimpleKeyValueStore>;

/// As the application's main function builds it.
pub fn cache_actor() -> CacheActor {
    TabletCacheActor::new(
        DefaultTabletTransactionManager::create(
            Box::new(DefaultTabletTransactionCoordinator::create(1 << 56)),
            Box::new(DefaultTabletMetadataCache::create(3 << 56)),
            Box::new(DefaultTabletDataCache::create(
                2 << 56,
                Box::new(BytesTabletDataSerializer {}),
                Box::new(DefaultTabletDataCachePolicy::new()),
            )),
        ),
        SimpleKeyValueStore::create(),
    )
}

fn config() -> Vec<u8> {
    TabletCacheConfig {
        transaction_manager_config: Some(TransactionManagerConfig {
            data_cache_config: Some(TabletDataCacheConfig { tablet_cache_capacity: 1 << 20 }),
            metadata_cache_config: Some(TabletMetadataCacheConfig {
                table_configs: vec![TableMetadataCacheConfig {
                    table_name: "map".to_string(),
                    table_region_size: u32::MAX,
                }],
            }),
        }),
        store_config: Some(StoreConfig {
            table_name: "map".to_string(),
            min_pending_before_resolve: 1,
            min_pending_before_process: 1,
        }),
    }
    .encode_to_vec()
}

struct Two;
impl TabletConfigurator for Two {
    fn generate(&mut self, _: u32) -> Vec<u32> {
        vec![100, 200]
    }
}

const KEYS: [&str; 2] = ["a", "b"];

#[derive(Clone)]
struct Op {
    put: bool,
    key: usize,
    value: u8,
    start: u64,
    end: u64,
    response: Option<(bool, u8)>,
    node: usize,
}

type Map = [Option<u8>; 2];

/// Whether the operations can have happened one after the other, each between
/// its start and its end. Unanswered puts may or may not have happened.
fn explains(ops: &[Op], done: u32, map: &Map) -> bool {
    let open = |i: usize| done >> i & 1 == 0;
    if (0..ops.len()).all(|i| !open(i) || ops[i].response.is_none()) {
        return true;
    }
    let deadline = (0..ops.len()).filter(|i| open(*i)).map(|i| ops[i].end).min().unwrap();
    for (i, o) in ops.iter().enumerate() {
        if !open(i) || o.start > deadline {
            continue;
        }
        let old = map[o.key];
        if let Some((existed, value)) = o.response {
            if existed != old.is_some() || (!o.put && existed && old != Some(value)) {
                continue;
            }
        }
        let mut m = *map;
        if o.put {
            m[o.key] = Some(o.value);
        }
        if explains(ops, done | 1 << i, &m) {
            return true;
        }
    }
    false
}

struct World {
    nodes: Vec<Replica<CacheActor>>,
    store: Replica<TabletStoreActor<Two>>,
    index: u64,
    blobs: BTreeMap<String, Bytes>,
    /// Requests of the cache nodes that are still to be answered.
    pending: Vec<(usize, u64, OutMsg, Bytes)>,
    used: BTreeSet<(usize, u64)>,
    faults: u64,
    lost: bool,
    empty: bool,
    ops: Vec<Op>,
    time: u64,
}

impl World {
    fn collect(&mut self, node: usize, out: CommandOutcome) {
        check(out.event.is_none(), "the cache replicates nothing");
        for c in out.commands {
            let msg = match TabletCacheOutMessage::decode(c.header.clone()) {
                Ok(TabletCacheOutMessage { out_msg: Some(m) }) => m,
                _ => {
                    check(false, "what the cache sends can be decoded");
                    continue;
                }
            };
            let response = match &msg {
                OutMsg::PutKeyResponse(p) => Some((true, p.existed, 0)),
                OutMsg::GetKeyResponse(g) => {
                    check(g.value.len() < 2, "a get returns a value that has been put");
                    Some((false, g.existed, g.value.first().copied().unwrap_or(0)))
                }
                _ => None,
            };
            if let Some((put, existed, value)) = response {
                let i = c.correlation_id.wrapping_sub(1000) as usize;
                check(i < self.ops.len(), "a response has the correlation id of a request");
                let o = &mut self.ops[i];
                check(o.node == node, "a response is sent by the node that was asked");
                check(o.put == put, "a response is of the kind of its request");
                check(o.response.is_none(), "a request is answered once");
                check(c.payload.is_empty(), "a response has no payload");
                o.response = Some((existed, value));
                o.end = self.time;
            } else {
                check(self.used.insert((node, c.correlation_id)), "requests of the cache have different correlation ids");
                self.pending.push((node, c.correlation_id, msg, c.payload));
            }
        }
    }
    fn tick(&mut self) {
        for _ in 0..4 {
            for n in 0..self.nodes.len() {
                self.time += 1;
                let instant = &self.nodes[n].env.instant;
                instant.set(instant.get() + 1);
                let out = match self.nodes[n].actor.on_process_command(None) {
                    Ok(o) => o,
                    Err(_) => {
                        check(false, "making progress never fails");
                        return;
                    }
                };
                self.collect(n, out);
            }
        }
    }
    fn send(&mut self, node: usize, id: u64, msg: InMsg, payload: Bytes) {
        self.time += 1;
        let out = self.nodes[node].process(ActorCommand::with_header_and_payload(
            id,
            &TabletCacheInMessage { in_msg: Some(msg) },
            payload,
        ));
        self.collect(node, out);
        self.tick();
    }
    fn submit(&mut self) {
        let i = self.ops.len();
        let node = choose("node", self.nodes.len());
        let put = flip("put");
        let key = choose("key", 2);
        let empty = self.empty && put && flip("empty");
        let value = if empty { 0 } else { b'1' + i as u8 };
        self.time += 1;
        self.ops.push(Op { put, key, value, start: self.time, end: u64::MAX, response: None, node });
        let key = KEYS[key].to_string();
        let msg = if put {
            let value = if empty { Bytes::new() } else { vec![value].into() };
            InMsg::PutKeyRequest(PutKeyRequest { key, value })
        } else {
            InMsg::GetKeyRequest(GetKeyRequest { key })
        };
        self.send(node, 1000 + i as u64, msg, Bytes::new());
    }
    fn answer(&mut self) {
        let (node, id, msg, payload) = {
            let n = self.pending.len();
            let k = choose("answered", n);
            self.pending.remove(k)
        };
        let fault = self.faults > 0 && flip("fault");
        if fault {
            self.faults -= 1;
            cover("fault");
        }
        let status = if fault { TabletDataStorageStatus::Failed } else { TabletDataStorageStatus::Succeeded } as i32;
        let (msg, payload) = match msg {
            OutMsg::LoadTabletRequest(l) => {
                // A tablet that has never been stored has no location and is empty.
                let known = l.blob_uri.is_empty() || self.blobs.contains_key(&l.blob_uri);
                check(known, "only stored blobs are loaded");
                let b = self.blobs.get(&l.blob_uri).cloned().unwrap_or_default();
                (InMsg::LoadTabletResponse(LoadTabletResponse { status }), if fault { Bytes::new() } else { b })
            }
            OutMsg::StoreTabletRequest(s) => {
                if !fault {
                    let old = self.blobs.insert(s.blob_uri, payload.clone());
                    check(old.is_none() || old == Some(payload), "a stored blob is never overwritten");
                }
                (InMsg::StoreTabletResponse(StoreTabletResponse { status }), Bytes::new())
            }
            OutMsg::ExecuteTabletOpsRequest(_) => {
                if fault && flip("before") {
                    let status = ExecuteTabletOpsStatus::RpcError as i32;
                    let e = ExecuteTabletOpsError { status, diagnostic_message: String::new() };
                    (InMsg::ExecuteTabletOpsError(e), Bytes::new())
                } else {
                    let request = st::TabletStoreInMessage {
                        in_msg: Some(st::tablet_store_in_message::InMsg::ExecuteTabletOpsRequest(
                            st::ExecuteTabletOpsRequest { sender_node_id: 1 },
                        )),
                    };
                    let out =
                        self.store.process(ActorCommand::with_header_and_payload(id, &request, payload));
                    let event = match out.event {
                        Some(e) => e,
                        None => {
                            check(false, "the store understands the cache");
                            return;
                        }
                    };
                    self.index += 1;
                    let replies = self.store.apply(self.index, true, &event);
                    check(replies.len() == 1 && replies[0].correlation_id == id, "the store answers the cache");
                    if fault {
                        self.lost = true;
                        let status = ExecuteTabletOpsStatus::RpcError as i32;
                        let e = ExecuteTabletOpsError { status, diagnostic_message: String::new() };
                        (InMsg::ExecuteTabletOpsError(e), Bytes::new())
                    } else {
                        (InMsg::ExecuteTabletOpsResponse(ExecuteTabletOpsResponse {}), replies[0].payload.clone())
                    }
                }
            }
            _ => unreachable!(),
        };
        self.send(node, id, msg, payload);
    }
    fn committed(&mut self) -> Map {
        let mut m = [None; 2];
        let s = st::TabletStoreSnapshot::decode(self.store.save()).unwrap();
        for t in s.table_snapshots {
            for x in t.table_tablets {
                if x.tablet_version > 0 {
                    let b = self.blobs.get(&x.blob_uri);
                    check(b.is_some(), "a committed tablet has been stored");
                    let c = b.and_then(|b| TabletContents::decode(b.clone()).ok()).unwrap_or_default();
                    for (k, v) in c.dictionary {
                        if let Some(i) = KEYS.iter().position(|y| *y == k) {
                            m[i] = Some(v.first().copied().unwrap_or(0));
                        }
                    }
                }
            }
        }
        m
    }
}

fn world(nodes: u64, faults: u64, empty: bool) -> World {
    let store_config = st::TabletStoreConfig {
        table_configs: vec![st::TableConfig {
            table_name: "map".to_string(),
            initial_tablet_count: 2,
            ..Default::default()
        }],
    };
    let nodes: Vec<_> = (0..nodes).map(|_| Replica::start(cache_actor(), config(), true)).collect();
    for n in &nodes {
        // The cache is not replicated, leading means nothing to it.
        n.env.leader.set(any_bool("leader"));
    }
    World {
        nodes,
        store: Replica::start(TabletStoreActor::new(Two), store_config.encode_to_vec(), true),
        index: 0,
        blobs: BTreeMap::new(),
        pending: vec![],
        used: BTreeSet::new(),
        faults,
        lost: false,
        empty,
        ops: vec![],
        time: 0,
    }
}

/// A message that is none of the answers the cache waits for, or one with an
/// arbitrary status and contents, while a put is under way.  case = number of
/// answers before * 10 + payload bytes.
pub fn busy() {
    let (before, n) = (case() / 10, case() % 10);
    ahash::set_key_hash(0, 7);
    ahash::set_key_hash(1, 100);
    let mut w = world(1, 0, false);
    let start = any_u64("instant");
    assume(start < u64::MAX - 1000);
    w.nodes[0].env.instant.set(start);
    w.ops.push(Op { put: true, key: 0, value: b'1', start: 0, end: u64::MAX, response: None, node: 0 });
    let put = PutKeyRequest { key: "a".to_string(), value: vec![b'1'].into() };
    w.send(0, 1000, InMsg::PutKeyRequest(put), Bytes::new());
    for _ in 0..before {
        w.answer();
    }
    check(w.pending.len() == 1, "a put needs one request at a time");
    let kind = choose("message", 6);
    let status = any_u8("status") as i32;
    let payload = bytes("payload", n as usize);
    let error = |status| InMsg::ExecuteTabletOpsError(ExecuteTabletOpsError { status, diagnostic_message: String::new() });
    let (id, msg) = if kind < 4 {
        let id = any_u64("correlation");
        assume(id != w.pending[0].1);
        let msg = match kind {
            0 => InMsg::LoadTabletResponse(LoadTabletResponse { status }),
            1 => InMsg::StoreTabletResponse(StoreTabletResponse { status }),
            2 => InMsg::ExecuteTabletOpsResponse(ExecuteTabletOpsResponse {}),
            _ => error(status),
        };
        (id, Some(msg))
    } else if kind == 4 {
        (any_u64("correlation"), None)
    } else {
        let (_, id, asked, contents) = w.pending.remove(0);
        let msg = match asked {
            OutMsg::LoadTabletRequest(_) => InMsg::LoadTabletResponse(LoadTabletResponse { status }),
            OutMsg::StoreTabletRequest(s) => {
                // Whatever the storage says, it has the contents.
                w.blobs.insert(s.blob_uri, contents);
                InMsg::StoreTabletResponse(StoreTabletResponse { status })
            }
            _ => error(status),
        };
        cover("answered");
        (id, Some(msg))
    };
    let header = TabletCacheInMessage { in_msg: msg }.encode_to_vec().into();
    let out = w.nodes[0].actor.on_process_command(Some(ActorCommand { correlation_id: id, header, payload: payload.into() }));
    match out {
        Ok(o) => {
            check(kind != 4, "a message without contents is reported");
            if kind < 4 {
                check(o.commands.is_empty(), "an answer to nothing is ignored");
                cover("ignored");
            }
            w.collect(0, o);
        }
        Err(e) => {
            check(kind == 2 || kind == 4, "what can be decoded is processed");
            check(e == ActorError::Internal, "what cannot be decoded is an internal error");
            cover("undecodable");
        }
    }
    w.tick();
    if kind < 5 {
        check(w.pending.len() == 1, "an answer to nothing changes nothing");
    }
    let mut steps = 0;
    while !w.pending.is_empty() {
        steps += 1;
        if steps > 20 {
            check(false, "requests are answered eventually");
            return;
        }
        w.answer();
    }
    check(w.ops[0].response == Some((false, 0)), "each request is answered");
    check(w.committed() == [Some(b'1'), None], "an acknowledged put is durable");
}

/// spread 0: one tablet, 1: two, 2: arbitrary key hashes, 3: one, values may be empty;
/// case = spread * 1000 + nodes * 100 + requests * 10 + faults
pub fn end_to_end() {
    let (spread, nodes, mut left, faults) = (case() / 1000, case() / 100 % 10, case() / 10 % 10, case() % 10);
    if spread == 2 {
        ahash::set_key_hash(0, any_u32("hash"));
        ahash::set_key_hash(1, any_u32("hash"));
    } else {
        ahash::set_key_hash(0, 7);
        ahash::set_key_hash(1, if spread != 1 { 100 } else { 101 });
    }
    let mut w = world(nodes, faults, spread == 3);
    let mut steps = 0;
    while left > 0 || !w.pending.is_empty() {
        steps += 1;
        if steps > 60 {
            check(false, "requests are answered eventually");
            return;
        }
        let n = (left > 0) as usize;
        if choose("act", n + !w.pending.is_empty() as usize) < n {
            left -= 1;
            w.submit();
        } else {
            w.answer();
        }
        if left == 0 && w.pending.is_empty() {
            w.tick();
            w.tick();
        }
    }
    check(w.ops.iter().all(|o| o.response.is_some()), "each request is answered");
    if !w.lost {
        check(explains(&w.ops, 0, &[None; 2]), "a get returns the value of the latest put of its key");
        cover("explained");
    }
    let m = w.committed();
    for o in &w.ops {
        if o.put {
            check(m[o.key].is_some(), "an acknowledged put is durable");
        }
    }
}

/// Arbitrary bytes as a command: case = header kind * 10 + payload bytes, or
/// 100 + number of header bytes.
pub fn commands() {
    let mut r = Replica::start(cache_actor(), config(), true);
    let leader = any_bool("leader");
    r.env.leader.set(leader);
    let id = any_u64("correlation");
    let (header, payload) = if case() >= 100 {
        (bytes("header", case() as usize - 100), vec![])
    } else {
        let n = case() as usize % 10;
        let msg = match case() / 10 {
            0 => InMsg::LoadTabletResponse(LoadTabletResponse { status: any_u8("status") as i32 }),
            1 => InMsg::StoreTabletResponse(StoreTabletResponse { status: any_u8("status") as i32 }),
            2 => InMsg::ExecuteTabletOpsResponse(ExecuteTabletOpsResponse {}),
            _ => InMsg::ExecuteTabletOpsError(ExecuteTabletOpsError {
                status: any_u8("status") as i32,
                diagnostic_message: String::new(),
            }),
        };
        (TabletCacheInMessage { in_msg: Some(msg) }.encode_to_vec(), bytes("payload", n))
    };
    let out =
        r.actor.on_process_command(Some(ActorCommand { correlation_id: id, header: header.into(), payload: payload.into() }));
    match out {
        Ok(o) => {
            check(o.event.is_none(), "the cache replicates nothing");
            for c in &o.commands {
                check(TabletCacheOutMessage::decode(c.header.clone()).is_ok(), "what the cache sends can be decoded");
            }
            cover("accepted");
        }
        Err(e) => {
            check(e == ActorError::Internal, "what cannot be decoded is an internal error");
            cover("undecodable");
        }
    }
}
