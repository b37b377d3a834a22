//! The key value store on top of the real transaction manager, against a
//! sequential map.
use crate::env::*;
use crate::world::*;
use prost::Message;
use tcp_tablet_cache_service::store::*;

static TABLES: [(&str, &[u32]); 1] = [("map", &[100, 200])];
const KEYS: [&str; 2] = ["a", "b"];

#[derive(Clone)]
pub struct Op {
    pub put: bool,
    pub key: usize,
    pub value: u8,
    pub start: u64,
    pub end: u64,
    /// Whether it existed, and the value a get returned.
    pub response: Option<(bool, u8)>,
    pub foreign: bool,
}

pub type Map = [Option<u8>; 2];

fn decode(b: &Bytes) -> TabletContents {
    TabletContents::decode(b.clone()).unwrap()
}

/// Keys are any strings.
pub fn name(key: usize) -> &'static str {
    if case() / 10000 == 3 && key == 1 { "" } else { KEYS[key] }
}

/// Values are any bytes, told apart by the first; none stand for zero.
pub fn contents(value: u8) -> Bytes {
    Bytes::from(match value % 3 {
        _ if value == 0 => vec![],
        0 => vec![value],
        1 => vec![value, 0],
        _ => vec![value, 0xff, value],
    })
}

pub fn value_of(b: &Bytes) -> u8 {
    let v = b.first().copied().unwrap_or(0);
    check(*b == contents(v), "value_is_one_that_was_put");
    v
}

fn put(b: &Bytes, key: &str, value: u8) -> Bytes {
    let mut c = decode(b);
    c.dictionary.insert(key.to_string(), contents(value));
    c.encode_to_vec().into()
}

/// Whether the operations can have happened one after the other, each
/// between its start and its end, ending with `last`.
pub fn explains(ops: &[Op], done: u32, map: &Map, last: &Map) -> bool {
    if done.count_ones() as usize == ops.len() {
        return map == last;
    }
    let deadline = (0..ops.len()).filter(|i| done >> i & 1 == 0).map(|i| ops[i].end).min().unwrap();
    for (i, o) in ops.iter().enumerate() {
        if done >> i & 1 == 1 || o.start > deadline {
            continue;
        }
        let old = map[o.key];
        let (existed, value) = o.response.unwrap_or((false, 0));
        if !o.foreign && existed != old.is_some() {
            continue;
        }
        let mut m = *map;
        if o.put {
            m[o.key] = Some(o.value);
        } else if existed && old != Some(value) {
            continue;
        }
        if explains(ops, done | 1 << i, &m, last) {
            return true;
        }
    }
    false
}

struct Run {
    w: World,
    kv: SimpleKeyValueStore,
    ops: Vec<Op>,
    resolve: usize,
    process: usize,
    empty: bool,
    time: u64,
}

impl Run {
    fn look(&mut self) {
        let responses = self.kv.take_responses();
        check(responses.is_empty() || responses.len() >= self.process, "batches_of_the_configured_size");
        let open = self.ops.iter().filter(|o| !o.foreign && o.response.is_none()).count();
        check(
            responses.is_empty() || open >= self.resolve || open < self.ops.len(),
            "waits_for_the_configured_number_of_requests",
        );
        for r in responses {
            let (id, resp, is_put) = match r {
                KeyValueResponse::Put(id, p) => (id, (p.existed, 0), true),
                KeyValueResponse::Get(id, g) => {
                    check(g.existed || g.value.is_empty(), "value_only_if_existed");
                    (id, (g.existed, value_of(&g.value)), false)
                }
            };
            let i = id as usize - 1000;
            check(i < self.ops.len() && !self.ops[i].foreign, "response_to_a_request");
            let o = &mut self.ops[i];
            check(o.response.is_none(), "one_response_per_request");
            check(o.put == is_put, "response_of_the_requested_kind");
            // What a response tells has been committed by then (possibly
            // together with a later put that replaced the value).
            let ever = self.w.store.values().flatten().any(|v| decode(&v.value).dictionary.contains_key(name(o.key)));
            check(ever || !(is_put || resp.0), "nothing_uncommitted_is_reported");
            o.response = Some(resp);
            o.end = self.time;
            cover("answered");
        }
    }
    fn settle(&mut self) {
        for _ in 0..7 {
            self.time += 1;
            self.w.progress();
            self.kv.make_progress(self.w.instant, &mut self.w.mgr);
            self.w.collect();
            self.look();
        }
    }
    fn submit(&mut self, put: bool, key: usize) {
        let i = self.ops.len();
        let value = if self.empty && put && flip("empty") { 0 } else { b'0' + i as u8 };
        self.time += 1;
        self.ops.push(Op { put, key, value, start: self.time, end: u64::MAX, response: None, foreign: false });
        let id = 1000 + i as u64;
        if i + 1 < self.resolve {
            check(self.w.corrs.is_empty(), "nothing_asked_before_there_are_enough_requests");
        }
        let key = name(key).to_string();
        self.kv.process_request(if put {
            KeyValueRequest::Put(id, PutKeyRequest { key, value: contents(value), ..Default::default() })
        } else {
            KeyValueRequest::Get(id, GetKeyRequest { key, ..Default::default() })
        });
        self.look();
    }
    fn committed(&self) -> Map {
        let mut m = [None; 2];
        for (_, v) in &self.w.store {
            let c = decode(&v.last().unwrap().value);
            for (k, v) in c.dictionary {
                let i = (0..2).find(|x| name(*x) == k);
                check(i.is_some(), "only_what_was_put_is_stored");
                if let Some(i) = i {
                    check(m[i].is_none(), "key_in_one_tablet");
                    m[i] = Some(value_of(&v));
                }
            }
        }
        m
    }
}

/// case = spread * 10000 + threshold before processing * 1000 + threshold
/// before resolving * 100 + requests * 10 + faults.  spread: 0 both keys in
/// one tablet, 1 in two, 2 arbitrary key hashes, 3 in one tablet, values
/// may be empty, and a key is, 4 in one tablet that someone may split, 5 and 6
/// many requests over keys in one or two tablets, in few patterns.
pub fn store() {
    let c = case() as usize;
    let (mut left, faults, resolve, process, spread) = (c / 10 % 10, c % 10, c / 100 % 10, c / 1000 % 10, c / 10000);
    if spread == 2 {
        ahash::set_key_hash(0, any_u32("hash"));
        ahash::set_key_hash(1, any_u32("hash"));
    } else if spread == 4 {
        ahash::set_key_hash(0, 10);
        ahash::set_key_hash(1, 90);
    } else {
        ahash::set_key_hash(0, 7);
        ahash::set_key_hash(1, if spread != 1 && spread != 6 { 100 } else { 101 });
    }
    let initially = spread != 2 && flip("initially");
    let mut w = World::with_contents(&TABLES, u32::MAX, faults, |_, _| {
        let empty = TabletContents::default().encode_to_vec().into();
        if initially { put(&empty, "a", b'i') } else { empty }
    });
    w.foreign = spread != 2;
    w.foreign_value = |_, id, old, n| put(old, if id == 100 { "a" } else { "b" }, b'A' + n);
    if spread == 4 {
        w.split = Some(|id, old| {
            cover("split");
            let (mut rest, mut moved) = (decode(old), TabletContents::default());
            if let Some(v) = rest.dictionary.remove("a") {
                moved.dictionary.insert("a".to_string(), v);
            }
            (rest.encode_to_vec().into(), id / 2, moved.encode_to_vec().into())
        });
    }
    let mut kv = SimpleKeyValueStore::create();
    kv.init(
        logger(),
        StoreConfig {
            table_name: "map".to_string(),
            min_pending_before_resolve: resolve as u32,
            min_pending_before_process: process as u32,
        },
    );
    let mut r = Run { w, kv, ops: vec![], resolve, process, empty: spread == 3, time: 0 };
    let first: Map = [if initially { Some(b'i') } else { None }, None];
    let pattern = if spread >= 5 {
        r.w.order = Some(choose("order", 3));
        Some((choose("first_request", 4), 1 + choose("next_request", 3)))
    } else {
        None
    };
    while left > 0 || !r.w.out.is_empty() {
        let n = (left > 0) as usize;
        let a = match pattern {
            // All at once, or answers in between.
            Some((_, next)) => (n == 0 || (next == 3 && r.ops.len() % 3 == 0 && !r.w.out.is_empty())) as usize,
            None => choose("act", n + !r.w.out.is_empty() as usize),
        };
        if a < n {
            left -= 1;
            let k = pattern.map_or_else(|| choose("request", 4), |(first, next)| (first + r.ops.len() * next) % 4);
            r.submit(k & 1 == 1, k >> 1);
        } else {
            let f = r.w.foreign_log.len();
            r.time += 1;
            r.w.answer_any();
            if let Some((_, _, id, n)) = r.w.foreign_log.get(f) {
                let key = if *id == 100 { 0 } else { 1 };
                // Not a request: it only takes part in the history.
                let o = Op { put: true, key, value: b'A' + n, start: r.time, end: r.time, response: None, foreign: true };
                r.ops.push(o);
                cover("someone_else_wrote");
            }
        }
        r.settle();
        if r.w.out.is_empty() {
            // Nothing is under way: fewer wait on a tablet than it takes to
            // process them, and fewer of the rest than it takes to resolve.
            let open = r.ops.iter().filter(|o| !o.foreign && o.response.is_none());
            let waiting = open.clone().count();
            let (resolve, process) = (r.resolve.max(1), r.process.max(1));
            let on = |keys: &[usize]| open.clone().filter(|o| keys.contains(&o.key)).count();
            let tablets: &[&[usize]] = if spread == 0 || (spread > 2 && spread != 6) { &[&[0, 1]] } else { &[&[0], &[1]] };
            let rest: usize = tablets.iter().map(|keys| on(keys).saturating_sub(process - 1)).sum();
            check(rest < resolve, "enough_requests_are_processed");
            if waiting > 0 {
                cover("waiting_for_more");
            }
        }
    }
    let lost = r.w.delivered.iter().any(|m| matches!(m, InMessage::ExecuteTabletOpsError(..)));
    let ends = r.committed();
    if faults == 0 {
        check(r.w.requests.iter().all(|q| World::is_list(&q.ops) || q.applied == Some(true)), "no_conflict_with_itself");
    }
    let asked: Vec<Op> = r.ops.iter().filter(|o| o.foreign || o.response.is_some()).cloned().collect();
    if resolve <= 1 && process <= 1 {
        check(asked.len() == r.ops.len(), "every_request_is_answered");
    }
    if !lost {
        check(explains(&asked, 0, &first, &ends), "some_sequential_order_explains_the_responses");
        cover("explained");
    } else {
        // A put may have been applied twice.
        for o in &asked {
            if o.put && !o.foreign {
                check(ends[o.key].is_some(), "answered_put_is_stored");
            }
            if let (false, Some((true, v))) = (o.put, o.response) {
                let known = first[o.key] == Some(v)
                    || r.ops.iter().any(|p| p.put && p.key == o.key && p.value == v && p.start < o.end);
                check(known, "value_is_one_that_was_put");
            }
        }
        cover("lost");
    }
}
