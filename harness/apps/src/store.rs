//! The tablet store: a replicated state machine of tablet metadata.
use crate::env::*;
use tablet_op::Op;
use tablet_op_result::OpResult;
use tablet_store_in_message::InMsg;
use tablet_store_out_message::OutMsg;
use tcp_tablet_store_service::actor::{RandomTabletConfigurator, TabletConfigurator, TabletStoreActor};
use tcp_tablet_store_service::apps::tablet_store::service::*;

const OK: i32 = 1;
const FAILED: i32 = 2;
const INVALID: i32 = 4;

/// Replicas that start from a snapshot have the tablets of the snapshot,
/// whatever they started with.
struct Fixed(u32);
impl TabletConfigurator for Fixed {
    fn generate(&mut self, _: u32) -> Vec<u32> {
        vec![10 + self.0, 20 + self.0]
    }
}

fn config(tables: &[&str]) -> Vec<u8> {
    TabletStoreConfig {
        table_configs: tables
            .iter()
            .map(|t| TableConfig { table_name: t.to_string(), initial_tablet_count: 2, ..Default::default() })
            .collect(),
    }
    .encode_to_vec()
}

type State = BTreeMap<(String, u32), TabletMetadata>;
type Store = Replica<TabletStoreActor<Fixed>>;

fn snapshot(s: &State) -> Bytes {
    let mut tables: BTreeMap<String, Vec<TabletMetadata>> = BTreeMap::new();
    for ((t, _), m) in s {
        tables.entry(t.clone()).or_default().push(m.clone());
    }
    TabletStoreSnapshot {
        table_snapshots: tables
            .into_iter()
            .map(|(table_name, table_tablets)| TableSnapshot { table_name, table_tablets })
            .collect(),
    }
    .encode_to_vec()
    .into()
}

fn state(r: &mut Store) -> State {
    let mut s = State::new();
    match TabletStoreSnapshot::decode(r.save()) {
        Ok(x) => {
            for t in x.table_snapshots {
                for m in t.table_tablets {
                    check(s.insert((t.table_name.clone(), m.tablet_id), m).is_none(), "a snapshot has each tablet once");
                }
            }
        }
        Err(_) => check(false, "a snapshot can be decoded"),
    }
    s
}

fn same_metadata(a: &TabletMetadata, b: &TabletMetadata) -> bool {
    (a.tablet_id == b.tablet_id)
        & (a.tablet_version == b.tablet_version)
        & (a.blob_size == b.blob_size)
        & (a.deleted == b.deleted)
        & (a.blob_uri == b.blob_uri)
        & (a.blob_hash == b.blob_hash)
        & (a.blob_encryption_key == b.blob_encryption_key)
}

fn same_state(a: &State, b: &State) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|((ka, ma), (kb, mb))| ka == kb && same_metadata(ma, mb))
}

fn request(id: u64, ops: Vec<TabletOp>) -> ActorCommand {
    ActorCommand::with_header_and_payload(
        id,
        &TabletStoreInMessage {
            in_msg: Some(InMsg::ExecuteTabletOpsRequest(ExecuteTabletOpsRequest { sender_node_id: 1 })),
        },
        TabletsRequest { tablet_ops: ops }.encode_to_vec().into(),
    )
}

fn response(c: &ActorCommand) -> TabletsResponse {
    let header = TabletStoreOutMessage::decode(c.header.clone());
    check(
        matches!(header, Ok(TabletStoreOutMessage { out_msg: Some(OutMsg::ExecuteTabletOpsResponse(_)) })),
        "an applied request is answered with a response",
    );
    match TabletsResponse::decode(c.payload.clone()) {
        Ok(r) => r,
        Err(_) => {
            check(false, "the response can be decoded");
            TabletsResponse::default()
        }
    }
}

/// 32-bit versions; the length of their encoding stays concrete.
fn any_version(name: &str, high: bool) -> u32 {
    if high {
        range(name, 1 << 28, u32::MAX as u64) as u32
    } else {
        range(name, 1, 127) as u32
    }
}

/// What the store must do with one op, given the state before the request.
fn expected(s: &State, t: &str, op: &Option<Op>, known: &[&str]) -> (i32, Option<OpResult>) {
    if !known.contains(&t) {
        return (INVALID, None);
    }
    let find = |id: u32| s.get(&(t.to_string(), id));
    match op {
        None | Some(Op::AddTablet(_)) | Some(Op::RemoveTablet(_)) => (INVALID, None),
        Some(Op::ListTablet(l)) => (
            OK,
            Some(OpResult::ListTablet(ListTabletResult {
                key_hash_from: l.key_hash_from,
                key_hash_to: l.key_hash_to,
                tablets: s.iter().filter(|((n, _), _)| n == t).map(|(_, m)| m.clone()).collect(),
            })),
        ),
        Some(Op::CheckTablet(c)) => {
            let found = find(c.tablet_id);
            let ok = found.map_or(false, |m| m.tablet_version == c.tablet_version);
            let existing_tablet = if ok { None } else { found.cloned() };
            (if ok { OK } else { FAILED }, Some(OpResult::CheckTablet(CheckTabletResult { existing_tablet })))
        }
        Some(Op::UpdateTablet(u)) => {
            let found = u.tablet_metadata.as_ref().and_then(|m| find(m.tablet_id));
            let ok = found.map_or(false, |m| {
                m.tablet_version as u64 + 1 == u.tablet_metadata.as_ref().unwrap().tablet_version as u64
            });
            (
                if ok { OK } else { FAILED },
                Some(OpResult::UpdateTablet(UpdateTabletResult { existing_tablet: found.cloned() })),
            )
        }
    }
}

fn same_tablet(a: &Option<TabletMetadata>, b: &Option<TabletMetadata>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => same_metadata(a, b),
        (None, None) => true,
        _ => false,
    }
}

fn same_result(a: &Option<OpResult>, b: &Option<OpResult>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(OpResult::ListTablet(a)), Some(OpResult::ListTablet(b))) => {
            a.key_hash_from == b.key_hash_from
                && a.key_hash_to == b.key_hash_to
                && a.tablets.len() == b.tablets.len()
                && b.tablets.iter().all(|m| a.tablets.iter().filter(|x| same_metadata(x, m)).count() == 1)
        }
        (Some(OpResult::CheckTablet(a)), Some(OpResult::CheckTablet(b))) => {
            same_tablet(&a.existing_tablet, &b.existing_tablet)
        }
        (Some(OpResult::UpdateTablet(a)), Some(OpResult::UpdateTablet(b))) => {
            same_tablet(&a.existing_tablet, &b.existing_tablet)
        }
        _ => false,
    }
}

/// case = kind * 100 + requests * 10 + ops: kind 0 low versions, 1 high
/// versions, 2 mixed with odd ops, 3 from the initial state, 4 on one table;
/// any request may be preceded by moving to a fresh replica by snapshot, or be
/// missed by a replica that then catches up by a snapshot.
pub fn operations() {
    let (kind, requests, ops) = (case() / 100, case() / 10 % 10, case() % 10);
    let high = kind == 1;
    let known = ["t", "u"];
    let mut model = State::new();
    for (t, id) in [("t", 10), ("t", 20), ("u", 10)] {
        if kind == 3 {
            model.insert((t.to_string(), id), TabletMetadata { tablet_id: id, ..Default::default() });
            continue;
        }
        let tablet_version = any_version("version", high);
        model.insert(
            (t.to_string(), id),
            TabletMetadata {
                tablet_id: id,
                tablet_version,
                blob_uri: format!("{t}{id}"),
                blob_hash: vec![3; 2].into(),
                blob_size: 3,
                blob_encryption_key: vec![id as u8; 2].into(),
                deleted: id == 20,
            },
        );
    }
    if kind == 3 {
        // Started, nothing loaded.
        model.insert(("u".to_string(), 20), TabletMetadata { tablet_id: 20, ..Default::default() });
    }
    let mut owner: Store = Replica::start(TabletStoreActor::new(Fixed(0)), config(&known), true);
    let mut other: Store = Replica::start(TabletStoreActor::new(Fixed(0)), config(&known), false);
    if kind != 3 {
        owner.load(snapshot(&model));
        other.load(snapshot(&model));
    }
    let mut uri = 0u8;
    for index in 0..requests {
        let mut list = vec![];
        for _ in 0..ops {
            let odd = kind == 2;
            // The first table, the second, one that does not exist.
            let t = ["t", "u", "v"][choose("table", if odd { 3 } else if kind == 4 { 1 } else { 2 })];
            // Of table t: 10 and 20 exist; of table u only 10.
            let what = choose("op", if odd { 6 } else { 2 });
            let id = if what < 2 { [10, 20, 30][choose("id", if odd || kind == 3 { 3 } else { 2 })] } else { 10 };
            let op = match what {
                0 => Some(Op::CheckTablet(CheckTabletOp { tablet_id: id, tablet_version: if kind == 3 && flip("check zero") { 0 } else { any_version("check", high) } })),
                1 => {
                    uri += 1;
                    Some(Op::UpdateTablet(UpdateTabletOp {
                        tablet_metadata: Some(TabletMetadata {
                            tablet_id: id,
                            tablet_version: any_version("update", high),
                            blob_uri: format!("new{uri}"),
                            blob_hash: vec![uri; uri as usize % 3 % 2 * 2].into(),
                            blob_size: uri as u32,
                            // Updates replace what a tablet has, also by nothing.
                            blob_encryption_key: vec![uri; uri as usize % 2 * 2].into(),
                            deleted: uri % 2 == 0,
                        }),
                    }))
                }
                2 => Some(Op::ListTablet(ListTabletOp { key_hash_from: 0, key_hash_to: u32::MAX })),
                3 => Some(Op::UpdateTablet(UpdateTabletOp { tablet_metadata: None })),
                4 if flip("add") => {
                    Some(Op::AddTablet(AddTabletOp { tablet_metadata: Some(TabletMetadata { tablet_id: 30, ..Default::default() }) }))
                }
                4 => Some(Op::RemoveTablet(RemoveTabletOp { tablet_id: 10, tablet_version: 1 })),
                _ => None,
            };
            list.push(TabletOp { table_name: t.to_string(), op });
        }
        let id = 7 + index;
        owner.env.leader.set(true);
        let outcome = owner.process(request(id, list.clone()));
        check(outcome.commands.is_empty(), "a replicated request is not answered before it is applied");
        let event = match outcome.event {
            Some(e) => e,
            None => {
                check(false, "the leader replicates every well-formed request");
                return;
            }
        };
        let misses = match choose("other", if kind == 4 { 1 } else { 3 }) {
            0 => false,
            1 => {
                // Replaced by a fresh replica at this point of the log.
                let b = other.save();
                other = Replica::start(TabletStoreActor::new(Fixed(1)), config(&known), false);
                other.load(b);
                cover("restarted");
                false
            }
            _ => true,
        };
        // The specification, independent of the order of evaluation.
        let mut want = vec![];
        let mut updated = BTreeSet::new();
        for o in &list {
            let (mut status, result) = expected(&model, &o.table_name, &o.op, &known);
            if let Some(Op::UpdateTablet(UpdateTabletOp { tablet_metadata: Some(m) })) = &o.op {
                if !updated.insert((o.table_name.clone(), m.tablet_id)) && status == OK {
                    status = FAILED;
                    cover("repeated_update");
                }
            }
            want.push((status, result));
        }
        let all = want.iter().all(|w| w.0 == OK);
        if all {
            cover("applied");
        } else {
            cover("refused");
        }
        if all {
            for o in &list {
                if let Some(Op::UpdateTablet(UpdateTabletOp { tablet_metadata: Some(m) })) = &o.op {
                    model.insert((o.table_name.clone(), m.tablet_id), m.clone());
                    cover("updated");
                }
            }
        }
        // Who leads by now makes no difference.
        owner.env.leader.set(any_bool("still leads"));
        other.env.leader.set(any_bool("leads now"));
        let replies = owner.apply(index + 1, true, &event);
        if misses {
            // Catches up by a snapshot of the other replica.
            let b = owner.save();
            other.load(b);
            cover("caught_up");
        } else {
            check(other.apply(index + 1, false, &event).is_empty(), "only the replica that accepted a request answers it");
        }
        check(replies.len() == 1 && replies[0].correlation_id == id, "each request is answered exactly once");
        let r = response(&replies[0]);
        check(r.status == if all { OK } else { FAILED }, "a request succeeds if and only if all its ops do");
        check(r.tablet_results.len() == want.len(), "each op has a result");
        for ((got, (status, result)), o) in r.tablet_results.iter().zip(&want).zip(&list) {
            check(got.table_name == o.table_name, "a result names the table of its op");
            check(got.status == *status, "an op succeeds if and only if its versions match");
            check(same_result(&got.op_result, result), "a result carries what the store knew before the request");
        }
        check(same_state(&state(&mut owner), &model), "a request is applied as a whole or not at all");
        check(same_state(&state(&mut other), &model), "replicas agree");
    }
}

/// case = number of tablets * 10 + kind; kind 0 small hashes, 1 big hashes.
pub fn listing() {
    let (n, kind) = (case() / 10, case() % 10);
    let hash = |name: &str| -> u32 {
        if kind == 0 {
            range(name, 1, 127) as u32
        } else {
            range(name, 1 << 28, u32::MAX as u64) as u32
        }
    };
    let mut model = State::new();
    let mut ids: Vec<u32> = vec![];
    for i in 0..n {
        let id = hash("tablet_id");
        if let Some(l) = ids.last() {
            assume(id > *l);
        }
        ids.push(id);
        model.insert(
            ("t".to_string(), i as u32),
            TabletMetadata { tablet_id: id, tablet_version: 5 + i as u32, blob_uri: format!("b{i}"), ..Default::default() },
        );
    }
    let metadata: Vec<_> = model.values().cloned().collect();
    let mut owner: Store = Replica::start(TabletStoreActor::new(Fixed(0)), config(&["t"]), true);
    let table = TableSnapshot { table_name: "t".to_string(), table_tablets: metadata.clone() };
    owner.load(TabletStoreSnapshot { table_snapshots: vec![table] }.encode_to_vec().into());
    let (from, to) = match choose("range", 3) {
        0 => (hash("from"), hash("to")),
        1 => (0, hash("to")),
        _ => (hash("from"), u32::MAX),
    };
    let key = match choose("key", 4) {
        0 => hash("key"),
        1 => 0,
        2 => u32::MAX,
        _ => any_u32("any key"),
    };
    let op = Some(Op::ListTablet(ListTabletOp { key_hash_from: from, key_hash_to: to }));
    let event = match owner.process(request(3, vec![TabletOp { table_name: "t".to_string(), op }])).event {
        Some(e) => e,
        None => {
            check(false, "the leader replicates every well-formed request");
            return;
        }
    };
    let replies = owner.apply(1, true, &event);
    check(replies.len() == 1, "each request is answered exactly once");
    let r = response(&replies[0]);
    check(r.status == OK && r.tablet_results.len() == 1, "listing succeeds");
    let list = match &r.tablet_results[0].op_result {
        Some(OpResult::ListTablet(l)) => l,
        _ => {
            check(false, "a listing is answered with a listing");
            return;
        }
    };
    check((list.key_hash_from == from) & (list.key_hash_to == to), "a listing names its range");
    // Whether the key is in the range, and which tablet is responsible for it.
    let inside = |k: u32| {
        let (a, b) = (k >= from, k <= to);
        ((from < to) & a & b) | ((from >= to) & (a | b))
    };
    let owns = |id: u32, k: u32| {
        let (mut present, mut nearest) = (false, true);
        for t in &ids {
            present |= *t == id;
            let (past, before) = (*t >= k, *t < id);
            nearest &= !(((k <= id) & past & before) | ((k > id) & (past | before)));
        }
        present & nearest
    };
    if n > 0 {
        let mut covered = false;
        for t in &list.tablets {
            covered |= owns(t.tablet_id, key);
        }
        check(!inside(key) | covered, "the tablet responsible for each key hash in the range is listed");
    }
    for (i, a) in list.tablets.iter().enumerate() {
        let mut known = false;
        for m in &metadata {
            known |= (m.tablet_id == a.tablet_id) & (m.tablet_version == a.tablet_version) & (m.blob_uri == a.blob_uri);
        }
        check(known, "a listed tablet carries its current metadata");
        for b in &list.tablets[..i] {
            check(a.tablet_id != b.tablet_id, "no tablet is listed twice");
        }
        // Responsible for something in the range: for one of its bounds, or
        // the tablet itself lies in it.
        check(
            inside(a.tablet_id) | owns(a.tablet_id, from) | owns(a.tablet_id, to),
            "only tablets responsible for a part of the range are listed",
        );
    }
    cover("listed");
    if list.tablets.len() == n as usize && n > 0 {
        cover("listed_all");
    }
    if list.tablets.len() > 1 {
        cover("listed_several");
    }
}

/// Arbitrary bytes as a command: case = header bytes * 10 + payload bytes.
pub fn commands() {
    let (nh, np) = (case() / 10, case() % 10);
    let mut r: Store = Replica::start(TabletStoreActor::new(Fixed(0)), config(&["t"]), any_bool("leader"));
    let before = state(&mut r);
    let well_formed = TabletStoreInMessage {
        in_msg: Some(InMsg::ExecuteTabletOpsRequest(ExecuteTabletOpsRequest { sender_node_id: 1 })),
    };
    let header: Bytes =
        if nh == 9 { well_formed.encode_to_vec().into() } else { bytes("header", nh as usize).into() };
    let payload: Bytes = bytes("payload", np as usize).into();
    let id = any_u64("correlation");
    let out = r.process(ActorCommand { correlation_id: id, header, payload: payload.clone() });
    let leader = r.env.leader.get();
    match out.event {
        Some(e) => {
            check(out.commands.is_empty(), "a command is either accepted or answered");
            check(leader, "only the leader accepts requests");
            check(e.correlation_id == id, "an event keeps the correlation id of its command");
            check(e.contents == payload, "the accepted request is replicated unchanged");
            cover("accepted");
            let other = &mut Replica::start(TabletStoreActor::new(Fixed(0)), config(&["t"]), false);
            let replies = r.apply(1, true, &e);
            check(replies.len() == 1 && replies[0].correlation_id == id, "each request is answered exactly once");
            check(other.apply(1, false, &e).is_empty(), "only the replica that accepted a request answers it");
        }
        None => {
            check(out.commands.len() == 1, "a command that is not accepted is answered");
            let c = &out.commands[0];
            check(c.correlation_id == id, "an answer has the correlation id of its command");
            let want = if leader {
                ExecuteTabletOpsStatus::InvalidOperation
            } else {
                ExecuteTabletOpsStatus::Rejected
            };
            match TabletStoreOutMessage::decode(c.header.clone()) {
                Ok(TabletStoreOutMessage { out_msg: Some(OutMsg::ExecuteTabletOpsError(e)) }) => {
                    check(e.status == want as i32, "the answer tells why the command was not accepted")
                }
                _ => check(false, "a command that is not accepted is answered with an error"),
            }
            if leader {
                cover("invalid");
            } else {
                cover("rejected");
            }
            check(same_state(&state(&mut r), &before), "a command that is not accepted changes nothing");
        }
    }
}

/// The initial tablets: case = tables * 10 + tablets per table.
pub fn layout() {
    let (tables, n) = (case() / 10, case() % 10);
    let config = TabletStoreConfig {
        table_configs: (0..tables)
            .map(|t| TableConfig { table_name: format!("t{t}"), initial_tablet_count: n as u32, ..Default::default() })
            .collect(),
    }
    .encode_to_vec();
    let mut states = vec![];
    for leader in [true, false] {
        let mut r = Replica::start(TabletStoreActor::new(RandomTabletConfigurator {}), config.clone(), leader);
        let s = TabletStoreSnapshot::decode(r.save()).unwrap();
        let mut m = BTreeMap::new();
        for t in s.table_snapshots {
            check(t.table_tablets.len() == n as usize, "each table starts with the configured number of tablets");
            for x in &t.table_tablets {
                check(x.tablet_version == 0 && x.blob_uri.is_empty(), "initial tablets are empty");
            }
            m.insert(t.table_name, t.table_tablets.iter().map(|x| x.tablet_id).collect::<Vec<_>>());
        }
        check(m.len() == tables as usize, "each configured table exists");
        states.push(m);
    }
    for (t, a) in &states[0] {
        let b = &states[1][t];
        for (x, y) in a.iter().zip(b) {
            check(x == y, "replicas start with the same tablets");
        }
    }
    cover("started");
}
