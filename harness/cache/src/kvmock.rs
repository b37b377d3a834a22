//! The key value store on top of anything that honours the contract of the
//! transaction context: keys may be in other tablets each time they are
//! looked up, and transactions fail whenever they like.
use crate::env::*;
use crate::kv::*;
use prost::Message;
use tcp_tablet_cache_service::store::*;
use tcp_tablet_cache_service::transaction::*;

type Cell<T> = std::rc::Rc<core::cell::RefCell<T>>;

#[derive(Default)]
struct Attempt {
    /// What is to be processed, until it is.
    process: Option<(Vec<TableQuery>, Box<ProcessHandler<Bytes>>)>,
    /// Tablets it was given, with the versions they had and what it wrote.
    tablets: Vec<(u32, u32, Option<Bytes>)>,
    committing: bool,
    failed: bool,
    outcome: Option<TabletTransactionOutcome>,
}

#[derive(Default)]
struct Core {
    hashes: [u32; 2],
    /// Where the keys are: tablet 100 or 200.
    place: [u32; 2],
    version: [u32; 2],
    contents: [TabletContents; 2],
    resolves: Vec<(Vec<TableQuery>, Box<ResolveHandler>)>,
    attempts: Vec<Attempt>,
    queries: BTreeSet<u64>,
    eager: bool,
    overlaps: bool,
}

fn slot(id: u32) -> usize {
    id as usize / 100 - 1
}

impl Core {
    fn new_queries(&mut self, queries: &[TableQuery]) {
        check(!queries.is_empty(), "something_is_asked");
        for q in queries {
            check(q.get_table_name() == "map", "queries_of_the_configured_table");
            check(self.queries.insert(q.get_id()), "query_ids_unique");
            check(!q.get_key_hashes().is_empty(), "something_is_asked");
            check(q.get_key_hashes().iter().all(|h| self.hashes.contains(h)), "only_keys_of_requests_are_asked");
        }
    }
    /// Queries by tablet, those that meet in one under the id of the first.
    fn split(&self, queries: &[TableQuery]) -> Vec<(u32, TableQuery)> {
        let mut out = vec![];
        for id in [100, 200] {
            let mut first = None;
            let mut hashes = vec![];
            for q in queries {
                for k in 0..2 {
                    if self.place[k] == id && q.get_key_hashes().contains(&self.hashes[k]) {
                        first = first.or(Some(q));
                        hashes.push(self.hashes[k]);
                    }
                }
            }
            if let Some(q) = first {
                out.push((id, q.create_from(hashes)));
            }
        }
        out
    }
}

struct Context(Cell<Core>);
struct Transaction(Cell<Core>, usize);

impl TabletTransactionContext<Bytes> for Context {
    fn resolve(&mut self, queries: Vec<TableQuery>, mut handler: Box<ResolveHandler>) {
        let mut c = self.0.borrow_mut();
        c.new_queries(&queries);
        if c.eager {
            let r = c.split(&queries);
            drop(c);
            handler(r.into_iter().map(|(id, q)| (q, TabletDescriptor::create(id, false))).collect());
        } else {
            c.resolves.push((queries, handler));
        }
    }
    fn start_transaction(&mut self) -> Box<dyn TabletTransaction<Bytes>> {
        let mut c = self.0.borrow_mut();
        c.attempts.push(Attempt::default());
        Box::new(Transaction(self.0.clone(), c.attempts.len() - 1))
    }
}

impl TabletTransaction<Bytes> for Transaction {
    fn get_id(&self) -> u64 {
        7 + self.1 as u64
    }
    fn process(&mut self, queries: Vec<TableQuery>, handler: Box<ProcessHandler<Bytes>>) {
        let mut c = self.0.borrow_mut();
        c.new_queries(&queries);
        check(c.attempts[self.1].process.is_none(), "processed_once");
        c.attempts[self.1].process = Some((queries, handler));
    }
    fn has_pending_process(&self) -> bool {
        self.0.borrow().attempts[self.1].process.is_some()
    }
    fn commit(self: Box<Self>) -> Box<dyn TabletTransactionCommit> {
        self.0.borrow_mut().attempts[self.1].committing = true;
        self
    }
    fn abort(self: Box<Self>) {
        self.0.borrow_mut().attempts[self.1].failed = true;
    }
}

impl TabletTransactionCommit for Transaction {
    fn check_result(&mut self) -> Option<TabletTransactionOutcome> {
        self.0.borrow().attempts[self.1].outcome
    }
}

struct Run {
    c: Cell<Core>,
    kv: SimpleKeyValueStore,
    ops: Vec<Op>,
    time: u64,
    resolve: usize,
    process: usize,
}

impl Run {
    fn settle(&mut self) {
        for _ in 0..4 {
            self.time += 1;
            self.kv.make_progress(self.time, &mut Context(self.c.clone()));
        }
        // Responses wait until they are taken.
        for r in self.kv.take_responses() {
            let (id, resp, is_put) = match r {
                KeyValueResponse::Put(id, p) => (id, (p.existed, 0), true),
                KeyValueResponse::Get(id, g) => {
                    check(g.existed || g.value.is_empty(), "value_only_if_existed");
                    (id, (g.existed, value_of(&g.value)), false)
                }
            };
            let i = id as usize - 1000;
            check(i < self.ops.len(), "response_to_a_request");
            let o = &mut self.ops[i];
            check(o.response.is_none(), "one_response_per_request");
            check(o.put == is_put, "response_of_the_requested_kind");
            o.response = Some(resp);
            o.end = self.time;
            cover("answered");
        }
        let c = self.c.borrow();
        let open = c.attempts.iter().filter(|a| a.process.is_some() || (!a.failed && a.outcome.is_none()));
        check(open.clone().all(|a| a.process.is_some() || a.committing), "processed_transactions_are_committed");
        // Nothing moved: the tablets of the transactions are those of their keys.
        if !c.overlaps {
            let mut seen: Vec<u32> = vec![];
            for a in open {
                let now: Vec<u32> = match &a.process {
                    Some((q, _)) => c.split(q).into_iter().map(|(id, _)| id).collect(),
                    None => a.tablets.iter().map(|t| t.0).collect(),
                };
                check(now.iter().all(|id| !seen.contains(id)), "one_transaction_per_tablet");
                seen.extend(now);
            }
        }
    }
    fn submit(&mut self) {
        let k = choose("request", 4);
        let (put, key, i) = (k & 1 == 1, k >> 1, self.ops.len());
        let value = b'0' + i as u8;
        self.time += 1;
        self.ops.push(Op { put, key, value, start: self.time, end: u64::MAX, response: None, foreign: false });
        let (id, key) = (1000 + i as u64, name(key).to_string());
        self.kv.process_request(if put {
            KeyValueRequest::Put(id, PutKeyRequest { key, value: contents(value), ..Default::default() })
        } else {
            KeyValueRequest::Get(id, GetKeyRequest { key, ..Default::default() })
        });
        // Several may arrive at once.
        if i + 1 < self.resolve {
            check(self.c.borrow().queries.is_empty(), "nothing_asked_before_there_are_enough_requests");
        }
    }
    /// A key is in the other tablet from now on.
    fn shift(&mut self, key: usize) {
        let mut c = self.c.borrow_mut();
        let (from, to) = (slot(c.place[key]), 1 - slot(c.place[key]));
        c.place[key] = 100 * (to as u32 + 1);
        c.overlaps = true;
        c.version[0] += 1;
        c.version[1] += 1;
        if let Some(v) = c.contents[from].dictionary.remove(name(key)) {
            c.contents[to].dictionary.insert(name(key).to_string(), v);
        }
        cover("moved");
    }
    fn run_process(&mut self, i: usize) {
        let (queries, mut handler) = self.c.borrow_mut().attempts[i].process.take().unwrap();
        let mut tablets: Vec<(TableQuery, Tablet<Bytes>)> = {
            let c = self.c.borrow();
            c.split(&queries)
                .into_iter()
                .map(|(id, q)| {
                    let meta = TabletMetadata { tablet_id: id, ..Default::default() };
                    (q, Tablet::create_with_contents(meta, c.contents[slot(id)].encode_to_vec().into()))
                })
                .collect()
        };
        handler(7 + i as u64, tablets.iter_mut().map(|(q, t)| (q.clone(), t)).collect());
        let mut c = self.c.borrow_mut();
        for (_, t) in &mut tablets {
            let id = t.get_id();
            let v = c.version[slot(id)];
            let new = t.take_updated_contents();
            c.attempts[i].tablets.push((id, v, new));
        }
    }
    fn decide(&mut self, i: usize, fail: bool) {
        let mut c = self.c.borrow_mut();
        let tablets = core::mem::take(&mut c.attempts[i].tablets);
        let fits = tablets.iter().all(|(id, v, _)| c.version[slot(*id)] == *v);
        check(fits || c.overlaps, "no_conflict_with_itself");
        if fail || !fits || c.attempts[i].failed {
            c.attempts[i].outcome = Some(TabletTransactionOutcome::Failed);
            cover("failed");
            return;
        }
        for (id, v, new) in tablets {
            if let Some(new) = new {
                c.version[slot(id)] = v + 1;
                c.contents[slot(id)] = TabletContents::decode(new).unwrap();
            }
        }
        c.attempts[i].outcome = Some(TabletTransactionOutcome::Succeeded);
    }
}

/// case = kind * 10000 + threshold before processing * 1000 + threshold
/// before resolving * 100 + requests * 10 + faults.  kind: 0 keys in one
/// tablet, 1 in two, 2 keys with equal hashes, 4 (added) tablets are known
/// at once.
pub fn context() {
    let c = case() as usize;
    let (mut left, mut faults, resolve, process, kind) = (c / 10 % 10, c % 10, c / 100 % 10, c / 1000 % 10, c / 10000);
    let hashes = [7, if kind % 4 == 2 { 7 } else { 150 }];
    ahash::set_key_hash(0, hashes[0]);
    ahash::set_key_hash(1, hashes[1]);
    let mut kv = SimpleKeyValueStore::create();
    kv.init(
        logger(),
        StoreConfig {
            table_name: "map".to_string(),
            min_pending_before_resolve: resolve as u32,
            min_pending_before_process: process as u32,
        },
    );
    let core = Core {
        hashes,
        place: [100, if kind % 4 == 1 { 200 } else { 100 }],
        eager: kind / 4 == 1,
        ..Default::default()
    };
    let mut r = Run { c: Cell::new(core.into()), kv, ops: vec![], time: 0, resolve, process };
    loop {
        let (nr, process, decide): (usize, Vec<usize>, Vec<usize>) = {
            let c = r.c.borrow();
            let which = |f: fn(&Attempt) -> bool| (0..c.attempts.len()).filter(|i| f(&c.attempts[*i])).collect();
            (
                c.resolves.len(),
                which(|a| a.process.is_some()),
                which(|a| a.process.is_none() && a.committing && a.outcome.is_none()),
            )
        };
        let n = nr + process.len() + decide.len();
        let (ns, nf) = ((left > 0) as usize, (faults > 0 && n > 0) as usize);
        if n + ns == 0 {
            break;
        }
        let mut a = choose("act", n + ns + nf);
        if a < nr {
            let (queries, mut handler) = r.c.borrow_mut().resolves.remove(a);
            let found = r.c.borrow().split(&queries);
            handler(found.into_iter().map(|(id, q)| (q, TabletDescriptor::create(id, false))).collect());
        } else if a < nr + process.len() {
            r.run_process(process[a - nr]);
        } else if a < n {
            r.decide(decide[a - nr - process.len()], false);
            // Several may be decided at once.
            if decide.len() > 1 && flip("more") {
                continue;
            }
        } else if a < n + ns {
            left -= 1;
            r.submit();
            if left > 0 && flip("more") {
                continue;
            }
        } else {
            faults -= 1;
            a = choose("fault", 2 * (kind % 4 != 2) as usize + process.len() + decide.len() + 1);
            if a < process.len() {
                // Never processed.
                let mut c = r.c.borrow_mut();
                c.attempts[process[a]].process = None;
                c.attempts[process[a]].failed = true;
            } else if a < process.len() + decide.len() {
                r.decide(decide[a - process.len()], true);
            } else if a > process.len() + decide.len() {
                r.shift(a - process.len() - decide.len() - 1);
            }
        }
        r.settle();
    }
    let waiting = r.ops.iter().filter(|o| o.response.is_none()).count();
    let (resolve, process) = (r.resolve.max(1), r.process.max(1));
    let core = r.c.borrow();
    if !core.overlaps {
        let on = |id: u32| r.ops.iter().filter(|o| o.response.is_none() && core.place[o.key] == id).count();
        let rest: usize = [100, 200].iter().map(|id| on(*id).saturating_sub(process - 1)).sum();
        check(rest < resolve, "enough_requests_are_processed");
    }
    if resolve == 1 && process == 1 {
        check(waiting == 0, "every_request_is_answered");
    }
    if waiting > 0 {
        cover("waiting_for_more");
    }
    let mut last: Map = [None; 2];
    for (slot, c) in core.contents.iter().enumerate() {
        for (k, v) in &c.dictionary {
            let i = (0..2).find(|x| name(*x) == k);
            check(i.is_some(), "only_what_was_put_is_stored");
            if let Some(i) = i {
                check(core.place[i] == 100 * (slot as u32 + 1), "stored_in_the_tablet_of_the_key");
                last[i] = Some(value_of(v));
            }
        }
    }
    let asked: Vec<Op> = r.ops.iter().filter(|o| o.response.is_some()).cloned().collect();
    check(explains(&asked, 0, &[None; 2], &last), "some_sequential_order_explains_the_responses");
}
