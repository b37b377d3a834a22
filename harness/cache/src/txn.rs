//! Transactions against the modelled tablet store and blob storage.
use crate::data::sha;
use crate::env::*;
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

struct Seen {
    table: String,
    id: u32,
    value: Bytes,
    wrote: Option<Bytes>,
}

struct Run {
    name: u8,
    txn: Option<Box<dyn TabletTransaction<Bytes>>>,
    commit: Option<Box<dyn TabletTransactionCommit>>,
    seen: Rc<RefCell<Vec<Seen>>>,
    calls: Rc<Cell<usize>>,
    processes: usize,
    request: Option<usize>,
    outcome: Option<TabletTransactionOutcome>,
    aborted: bool,
    /// When it was aborted early: handlers called, values stored.
    left: Option<(usize, usize)>,
    /// Process calls to make once the ones before are done.
    later: Plan,
}

/// What a transaction wants to touch: process calls of queries of keys.
type Plan = Vec<Vec<(&'static str, Vec<u32>)>>;

fn start(w: &mut World, name: u8, plan: &Plan, tables: Tables, write: Option<u32>, staged: bool) -> Run {
    let txn = w.mgr.start_transaction();
    let mut r = Run {
        name,
        txn: Some(txn),
        commit: None,
        seen: Rc::new(RefCell::new(vec![])),
        calls: Rc::new(Cell::new(0)),
        processes: 0,
        request: None,
        outcome: None,
        aborted: false,
        left: None,
        later: plan.clone(),
    };
    while !r.later.is_empty() && !(staged && r.processes > 0) {
        process(&mut r, tables, write);
    }
    check(r.txn.as_ref().unwrap().has_pending_process() == !plan.is_empty(), "processing_pending_until_done");
    r
}

/// The next of the process calls the transaction is to make.
fn process(r: &mut Run, tables: Tables, write: Option<u32>) {
    let queries = r.later.remove(0);
    let p = r.processes;
    r.processes += 1;
    let txn = r.txn.as_mut().unwrap();
    let (id, name) = (txn.get_id(), r.name);
    let qs: Vec<TableQuery> = queries
        .iter()
        .enumerate()
        .map(|(i, (t, k))| TableQuery::create((p * 10 + i) as u64 + 1, t.to_string(), k.clone()))
        .collect();
    let wanted: Vec<(&str, Vec<u32>)> = queries.clone();
    let (seen, calls) = (r.seen.clone(), r.calls.clone());
    txn.process(
        qs,
        Box::new(move |tid, tablets| {
            check(tid == id, "handler_told_its_transaction");
            calls.set(calls.get() + 1);
            let mut left: BTreeSet<(String, u32)> = BTreeSet::new();
            for (t, ks) in &wanted {
                for k in ks {
                    left.insert((t.to_string(), *k));
                }
            }
            for (q, tablet) in tablets {
                let table = q.get_table_name().clone();
                let ids = tables.iter().find(|(n, _)| *n == table).unwrap().1;
                for k in q.get_key_hashes() {
                    let owner = ids.iter().find(|i| **i >= *k).unwrap_or(&ids[0]);
                    check(*owner == tablet.get_id(), "query_goes_with_its_tablet");
                    check(left.remove(&(table.clone(), *k)), "key_handed_out_once");
                }
                let value = tablet.get_contents().clone();
                check(!tablet.is_dirty(), "tablet_handed_out_unmodified");
                let mut wrote = None;
                let again = seen.borrow().iter().any(|s: &Seen| s.table == table && s.id == tablet.get_id());
                if write.map_or_else(|| !again && flip("write"), |p| wide_write(p, tablet.get_id())) {
                    // Any contents can be written, also none, and the last ones count.
                    let v = if name >= 20 && tablet.get_id() as u8 == 200 {
                        Bytes::new()
                    } else {
                        Bytes::from(vec![b'w', name, tablet.get_id() as u8, table.as_bytes()[0]])
                    };
                    if tablet.get_id() as u8 == 200 {
                        tablet.set_contents(Bytes::from_static(b"first"));
                    }
                    tablet.set_contents(v.clone());
                    check(tablet.is_dirty(), "written_tablet_is_dirty");
                    wrote = Some(v);
                }
                seen.borrow_mut().push(Seen { table, id: tablet.get_id(), value, wrote });
            }
            check(left.is_empty(), "every_key_handed_out");
        }),
    );
}

/// What the transaction asks of the tablet store is what it did.
fn check_request(w: &World, r: &Run, ops: &[TabletOp]) {
    let seen = r.seen.borrow();
    check(ops.len() == seen.len(), "one_op_per_tablet");
    for s in seen.iter() {
        let mine: Vec<&TabletOp> = ops.iter().filter(|o| o.table_name == s.table && op_tablet(o) == s.id).collect();
        // One for each process call that was given the tablet.
        let given: Vec<&Seen> = seen.iter().filter(|x| x.table == s.table && x.id == s.id).collect();
        let updates = mine.iter().filter(|o| matches!(o.op, Some(tablet_op::Op::UpdateTablet(_)))).count();
        check(mine.len() == given.len(), "exactly_one_op_for_the_tablet");
        check(updates == given.iter().filter(|x| x.wrote.is_some()).count(), "update_iff_written");
        let op = mine.iter().find(|o| matches!(o.op, Some(tablet_op::Op::UpdateTablet(_))) == s.wrote.is_some());
        check(op.is_some(), "update_iff_written");
        let base = match (op.and_then(|o| o.op.as_ref()), &s.wrote) {
            (Some(tablet_op::Op::CheckTablet(c)), None) => c.tablet_version,
            (Some(tablet_op::Op::UpdateTablet(u)), Some(v)) => {
                let m = u.tablet_metadata.clone().unwrap_or_default();
                check(w.blobs.get(&m.blob_uri) == Some(v), "written_value_stored_before_commit");
                check(m.blob_hash == sha(v) && m.blob_size as usize == v.len(), "metadata_describes_written_value");
                check(m.tablet_version > 0, "version_advances");
                m.tablet_version.wrapping_sub(1)
            }
            _ => {
                check(false, "update_iff_written");
                continue;
            }
        };
        let h = &w.store[&(s.table.clone(), s.id)];
        let v = h.iter().find(|v| v.meta.tablet_version == base);
        check(v.is_some(), "version_was_committed");
        if let Some(v) = v {
            check(v.value == s.value, "contents_seen_are_of_the_version_checked");
        }
    }
}

fn step(w: &mut World, r: &mut Run, abort: bool, tables: Tables) {
    if r.txn.is_some() {
        if r.txn.as_ref().unwrap().has_pending_process() {
            return;
        }
        if !r.later.is_empty() {
            process(r, tables, None);
            check(r.txn.as_ref().unwrap().has_pending_process(), "processing_pending_until_done");
            cover("went_on");
            return;
        }
        let t = r.txn.take().unwrap();
        w.collect();
        let before = w.requests.len();
        let done = r.calls.get() == r.processes;
        check(r.calls.get() <= r.processes, "each_handler_called_once");
        if abort {
            t.abort();
            r.aborted = true;
            w.collect();
            check(w.requests.len() == before, "abort_asks_nothing");
            cover("aborted");
            return;
        }
        r.commit = Some(t.commit());
        w.collect();
        if w.requests.len() == before {
            // Nothing was asked: it must have failed locally.
            check(
                r.commit.as_mut().unwrap().check_result() == Some(TabletTransactionOutcome::Failed),
                "fails_when_nothing_was_asked",
            );
            check(w.faults_used(), "fails_locally_only_after_a_failure");
            r.outcome = Some(TabletTransactionOutcome::Failed);
            cover("failed_locally");
            return;
        }
        check(done, "commits_only_after_every_handler_ran");
        check(w.requests.len() == before + 1, "one_commit_request");
        r.request = Some(before);
        check_request(w, r, &w.requests[before].ops);
    }
    if r.commit.is_none() || r.outcome.is_some() {
        return;
    }
    let q = &w.requests[r.request.unwrap()];
    let res = r.commit.as_mut().unwrap().check_result();
    match res {
        None => check(!q.answered, "outcome_known_once_answered"),
        Some(o) => {
            check(q.answered, "outcome_only_after_the_answer");
            if o == TabletTransactionOutcome::Succeeded {
                check(q.applied == Some(true) || q.ops.is_empty(), "succeeded_only_if_applied");
                cover("succeeded");
                if r.seen.borrow().iter().any(|s| s.wrote.is_some()) {
                    cover("write_committed");
                }
            } else {
                check(q.applied != Some(true) || w.lost(q.corr) || q.ops.is_empty(), "failed_only_if_not_applied");
                cover("commit_failed");
            }
            r.outcome = Some(o);
            check(r.commit.as_mut().unwrap().check_result() == Some(o), "outcome_is_stable");
        }
    }
}

impl World {
    /// Values written by that run that were sent to the storage.
    fn stores_of(&self, name: u8) -> usize {
        self.stored.iter().filter(|v| v.len() == 4 && v[..2] == [b'w', name]).count()
    }
    fn faults_used(&self) -> bool {
        self.delivered.iter().any(|m| match m {
            InMessage::LoadTabletResponse(_, r, v) => {
                r.status != TabletDataStorageStatus::Succeeded as i32 || v[..] == b"evil"[..]
            }
            InMessage::StoreTabletResponse(_, r) => r.status != TabletDataStorageStatus::Succeeded as i32,
            _ => false,
        })
    }
    /// The answer to the request got lost after it was executed.
    fn lost(&self, corr: u64) -> bool {
        self.delivered.iter().any(|m| matches!(m, InMessage::ExecuteTabletOpsError(c, _) if *c == corr))
    }
}

static ONE: [(&str, &[u32]); 1] = [("A", &[100, 200])];
/// Which tablets a transaction writes where that is not up to each: none,
/// all, every other one, or just the last of them.
fn wide_write(pattern: u32, id: u32) -> bool {
    match pattern {
        0 => false,
        1 => true,
        2 => id / 100 % 2 == 0,
        _ => id == 900,
    }
}

static MANY: [(&str, &[u32]); 1] = [("A", &[100, 200, 300, 400, 500, 600, 700, 800, 900])];
static SINGLE: [(&str, &[u32]); 1] = [("A", &[100])];
static TWO: [(&str, &[u32]); 2] = [("A", &[100, 0xf000_00c8]), ("B", &[100, 0xf000_00c8])];

type Tables = &'static [(&'static str, &'static [u32])];

fn scenario(n: u64) -> (Tables, Vec<Plan>, u32) {
    let all = u32::MAX;
    match n {
        // One transaction over both tablets, one of them never written.
        1 => (&ONE, vec![vec![vec![("A", vec![7, 150])]]], all),
        // Two transactions over the same tablet.
        2 => (&SINGLE, vec![vec![vec![("A", vec![7])]], vec![vec![("A", vec![300])]]], all),
        // Tablets of two tables sharing their ids.
        3 => (&TWO, vec![vec![vec![("A", vec![7]), ("B", vec![8])]]], all),
        // Two process calls, one of several queries.
        4 => (&ONE, vec![vec![vec![("A", vec![7])], vec![("A", vec![101, 150])]]], all),
        // Two transactions crossing over two tablets, several regions.
        5 => (&ONE, vec![vec![vec![("A", vec![7, 150])]], vec![vec![("A", vec![160, 250])]]], 128),
        // Nothing at all.
        6 => (&ONE, vec![vec![], vec![vec![]], vec![vec![("A", vec![])]]], all),
        // Three transactions over one tablet.
        7 => (&SINGLE, vec![vec![vec![("A", vec![7])]]; 3], all),
        // Two queries that meet in a tablet, from two regions.
        10 => (&ONE, vec![vec![vec![("A", vec![7, 150]), ("A", vec![50, 0x5000_0000])]]], 128),
        // Two process calls that are given the same tablet; only one writes.
        11 => (&ONE, vec![vec![vec![("A", vec![7])], vec![("A", vec![50, 150])]]], all),
        // Many tablets at once, in several queries, or in many process calls.
        12 => (&MANY, vec![vec![vec![("A", (0..9).map(|i| i * 100 + 7).collect())]]], all),
        13 => (&MANY, vec![(0..9).map(|i| vec![("A", vec![i * 100 + 7])]).collect()], all),
        14 => (&MANY, vec![vec![(0..9).map(|i| ("A", vec![i * 100 + 7])).collect()]], all),
        // Many transactions, each over tablets of its own.
        15 => (&MANY, (0..9).map(|i| vec![vec![("A", vec![i * 100 + 7])]]).collect(), all),
        // Many transactions over the same tablet.
        16 => (&SINGLE, vec![vec![vec![("A", vec![7])]]; 6], all),
        // One after the other.
        9 => (&ONE, vec![vec![vec![("A", vec![7])], vec![("A", vec![101, 150])]]], all),
        // Two transactions, two tables, same ids and keys.
        _ => (&TWO, vec![vec![vec![("A", vec![7, 150])]], vec![vec![("B", vec![7, 150])]]], all),
    }
}

/// case = scenario * 100 + flags * 10 + faults; flags: 1 aborts, 2 duplicate
/// and stray answers, 4 someone else commits last.
pub fn transactions() {
    let c = case();
    let (tables, plans, region) = scenario(c / 100);
    let flags = c / 10 % 10;
    let mut w = World::new(tables, region_of(region), (c % 10) as usize);
    let mut runs: Vec<Run> = vec![];
    let mut dup = flags & 2 != 0;
    // With many, all start at once, and answers come in few orders.
    let wide = (12..=16).contains(&(c / 100));
    let mut pattern = None;
    if wide {
        w.order = Some(choose("order", 3));
        pattern = Some(1 + choose("writes", 3) as u32);
    }
    loop {
        let more = runs.len() < plans.len();
        let n = more as usize + !w.out.is_empty() as usize;
        if n == 0 {
            break;
        }
        let stray = dup && !w.delivered.is_empty();
        let busy = if flags & 1 != 0 {
            runs.iter().position(|r| r.txn.as_ref().map_or(false, |t| t.has_pending_process()))
        } else {
            None
        };
        let a = if wide { 0 } else { choose("act", n + stray as usize + busy.is_some() as usize) };
        if busy.is_some() && a == n + stray as usize {
            // Aborted while its processing is under way.
            let r = &mut runs[busy.unwrap()];
            r.txn.take().unwrap().abort();
            r.aborted = true;
            r.left = Some((r.calls.get(), w.stores_of(r.name)));
            w.collect();
            cover("aborted_early");
        } else if a < n {
            if more && a == 0 {
                let i = runs.len();
                let r = start(&mut w, i as u8 + if [3, 4, 8, 10, 12].contains(&(c / 100)) { 20 } else { 0 }, &plans[i], tables, pattern, c / 100 == 9);
                runs.push(r);
            } else {
                w.answer_any();
            }
        } else {
            dup = false;
            let i = choose("again", w.delivered.len() + 1);
            let m = match w.delivered.get(i) {
                Some(m) => m.clone(),
                None => InMessage::StoreTabletResponse(77, StoreTabletResponse { status: 0 }),
            };
            w.mgr.process_in_message(m);
            w.collect();
            cover("answered_again");
        }
        if !wide || runs.len() == plans.len() {
            settle(&mut w, &mut runs, flags & 1 != 0, tables);
        }
    }
    for r in &runs {
        if let Some((calls, stored)) = r.left {
            check(r.calls.get() == calls, "aborted_processing_stops");
            check(w.stores_of(r.name) == stored, "aborted_stores_nothing_more");
        }
        check(r.aborted || r.outcome.is_some(), "every_transaction_finishes");
    }
    let mut unaware = w.applied_unanswered;
    if flags & 4 != 0 && flip("foreign_last") {
        unaware = true;
        let (t, ids) = tables[choose("in_table", tables.len())];
        w.write_foreign(t, ids[choose("in_tablet", ids.len())], Bytes::from_static(b"last"));
    }
    audit(&mut w, tables, unaware);
}

fn region_of(r: u32) -> u32 {
    // Few large regions: the last one takes the rest of the ring.
    if r == 128 {
        0x4000_0000
    } else {
        r
    }
}

/// Progress until nothing changes without another answer.
fn settle(w: &mut World, runs: &mut [Run], aborts: bool, tables: Tables) {
    for _ in 0..6 {
        w.progress();
        for r in runs.iter_mut() {
            let ready = r.later.is_empty() && r.txn.as_ref().map(|t| !t.has_pending_process()).unwrap_or(false);
            let abort = ready && aborts && flip("abort");
            step(w, r, abort, tables);
        }
    }
}

/// Whatever happened, a new transaction sees exactly what is committed, and
/// goes through, after at most one conflict if something was committed that
/// nobody has told about.
fn audit(w: &mut World, tables: Tables, unaware: bool) {
    let plan: Plan = vec![tables.iter().map(|(t, ids)| (*t, ids.to_vec())).collect()];
    w.faults = 0;
    for attempt in 0..3 {
        let mut r = [start(w, 9, &plan, tables, Some(0), false)];
        let mut n = 0;
        settle(w, &mut r, false, tables);
        while !w.out.is_empty() {
            w.answer(0, 0);
            settle(w, &mut r, false, tables);
            n += 1;
            check(n < 40, "audit_goes_on");
        }
        check(r[0].outcome.is_some(), "later_transaction_finishes");
        if r[0].outcome == Some(TabletTransactionOutcome::Succeeded) {
            let seen = r[0].seen.borrow();
            for s in seen.iter() {
                check(w.newest(&s.table, s.id).unwrap().value == s.value, "committed_value_visible");
            }
            cover("audited");
            check(attempt == 0 || unaware, "goes_through_at_once");
            if attempt > 0 {
                cover("audited_after_conflict");
            }
            return;
        }
    }
    check(false, "conflicts_do_not_repeat");
}
