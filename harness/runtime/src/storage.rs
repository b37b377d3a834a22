//! The in-memory Raft log and snapshot store against an abstract log.
use crate::env::*;
use raft::eraftpb::{ConfState, Entry, HardState, Snapshot, SnapshotMetadata};
use raft::{Error, GetEntriesContext, Storage, StorageError};
use tcp_runtime::{consensus::Store, storage::MemoryStorage};

/// What the store must look like.
struct Model {
    first: u64,
    entries: Vec<Entry>,
    snap: Snapshot,
    hard: HardState,
    diff: u64,
    requests: BTreeMap<u64, u64>,
}

fn meta(s: &Snapshot) -> &SnapshotMetadata {
    s.metadata.as_ref().unwrap()
}
fn voters(s: &Snapshot) -> &ConfState {
    meta(s).conf_state.as_ref().unwrap()
}
fn contains(c: &ConfState, id: u64) -> bool {
    let mut r = false;
    for v in c.voters.iter().chain(&c.learners).chain(&c.voters_outgoing) {
        r |= *v == id;
    }
    r
}
fn conf() -> ConfState {
    match choose("members", 4) {
        0 => ConfState { voters: vec![1], ..Default::default() },
        1 => ConfState { voters: vec![1, 2], ..Default::default() },
        2 => ConfState { voters: vec![1], learners: vec![2], ..Default::default() },
        _ => ConfState { voters: vec![1], voters_outgoing: vec![2], ..Default::default() },
    }
}
fn small(name: &str) -> u64 {
    range(name, 1, 100)
}

impl Model {
    fn last(&self) -> u64 {
        self.first + self.entries.len() as u64 - 1
    }
    fn term(&self, i: u64) -> Result<u64, StorageError> {
        if i == meta(&self.snap).index {
            Ok(meta(&self.snap).term)
        } else if i < self.first {
            Err(StorageError::Compacted)
        } else if i > self.last() {
            Err(StorageError::Unavailable)
        } else {
            Ok(self.entries[(i - self.first) as usize].term)
        }
    }
    fn set_snapshot(&mut self, s: Snapshot) {
        let (i, c) = (meta(&s).index, voters(&s).clone());
        self.requests.retain(|p, r| !(i >= *r && contains(&c, *p)));
        self.snap = s;
    }
}

fn store_error<T>(r: &Result<T, Error>) -> Option<&StorageError> {
    match r {
        Err(Error::Store(e)) => Some(e),
        _ => None,
    }
}

fn compare(s: &MemoryStorage, m: &Model) {
    check(s.first_index().ok() == Some(m.first), "first index of the log");
    check(s.last_index().ok() == Some(m.last()), "last index of the log");
    for i in m.first.saturating_sub(2)..m.last() + 3 {
        let t = s.term(i);
        match m.term(i) {
            Ok(x) => check(t.ok() == Some(x), "term of a log index"),
            Err(e) => check(store_error(&t) == Some(&e), "term of an index outside the log"),
        }
    }
    if m.entries.is_empty() {
        let r = s.entries(m.first, m.first + 1, None, GetEntriesContext::empty(false));
        check(r.is_err(), "no entries in an empty log");
    } else {
        let r = s.entries(m.first, m.last() + 1, None, GetEntriesContext::empty(false));
        check(r.ok().as_ref() == Some(&m.entries), "entries of the log");
        let r = s.entries(m.first - 1, m.last() + 1, None, GetEntriesContext::empty(false));
        check(store_error(&r) == Some(&StorageError::Compacted), "compacted entries are reported");
    }
    let st = s.initial_state().unwrap();
    check(st.hard_state == m.hard, "hard state");
    check(&st.conf_state == voters(&m.snap), "configuration of the latest snapshot");
    check(s.latest_snapshot_size() == m.snap.data.len() as u64, "size of the latest snapshot");
}

/// Any sequence of operations the consensus layer performs. case: operations.
pub fn log() {
    let ops = case() as usize;
    let diff = any_u64("allowed distance between snapshots");
    assume(diff < 1 << 60);
    let mut s = MemoryStorage::new(logger(), diff);
    let mut m = Model {
        first: 1,
        entries: vec![],
        snap: Snapshot { metadata: Some(SnapshotMetadata { conf_state: Some(ConfState::default()), index: 0, term: 0 }), data: vec![] },
        hard: HardState::default(),
        diff,
        requests: BTreeMap::new(),
    };
    for _ in 0..ops {
        match choose("operation", 6) {
            0 => {
                // Append, replacing the tail of the log.
                let low = m.first.max(meta(&m.snap).index + 1);
                let from = low + choose("append from", (m.last() + 2 - low) as usize) as u64;
                let n = choose("appended entries", 3);
                let es: Vec<Entry> = (0..n)
                    .map(|k| Entry { index: from + k as u64, term: small("term"), data: bytes("data", k), ..Default::default() })
                    .collect();
                check(s.append_entries(&es).is_ok(), "appending works");
                if n > 0 {
                    m.entries.truncate((from - m.first) as usize);
                    m.entries.extend(es);
                    cover("appended");
                }
            }
            1 => {
                let h = HardState { term: any_u64("hard term"), vote: any_u64("vote"), commit: any_u64("commit") };
                s.set_hard_state(h.clone());
                m.hard = h;
            }
            2 => {
                // Snapshot of the applied state, at most at the end of the log.
                let at = m.first.saturating_sub(1) + choose("snapshot at", m.entries.len() + 1) as u64;
                let (c, data) = (conf(), bytes("snapshot", 2));
                let r = s.create_snapshot(at, c.clone(), data.clone().into());
                if at < m.first {
                    check(store_error(&r) == Some(&StorageError::SnapshotOutOfDate), "an outdated snapshot is refused");
                } else {
                    check(r.is_ok(), "creating a snapshot works");
                    let term = m.term(at).unwrap();
                    m.set_snapshot(Snapshot { metadata: Some(SnapshotMetadata { conf_state: Some(c), index: at, term }), data });
                    m.entries.drain(..(at - m.first) as usize);
                    m.first = at;
                    cover("snapshot created");
                }
            }
            3 => {
                // Snapshot of another replica.
                let at = m.first.saturating_sub(1) + choose("received at", m.entries.len() + 3) as u64;
                assume(at < m.first || at > meta(&m.snap).index);
                let (c, data, term) = (conf(), bytes("snapshot", 1), small("snapshot term"));
                let snap = Snapshot { metadata: Some(SnapshotMetadata { conf_state: Some(c), index: at, term }), data };
                let r = s.apply_snapshot(snap.clone());
                if at < m.first {
                    check(store_error(&r) == Some(&StorageError::SnapshotOutOfDate), "an outdated snapshot is refused");
                } else {
                    check(r.is_ok(), "applying a snapshot works");
                    m.hard.commit = at;
                    m.hard.term = if m.hard.term > term { m.hard.term } else { term };
                    m.entries.clear();
                    m.first = at + 1;
                    m.set_snapshot(snap);
                    cover("snapshot applied");
                }
            }
            4 => {
                let (peer, index) = (1 + choose("peer", 3) as u64, range("requested index", 0, 8));
                let r = s.snapshot(index, peer);
                if meta(&m.snap).index >= index && contains(voters(&m.snap), peer) {
                    check(r.ok().as_ref() == Some(&m.snap), "a request is answered with the latest snapshot");
                    cover("snapshot provided");
                } else {
                    check(
                        store_error(&r) == Some(&StorageError::SnapshotTemporarilyUnavailable),
                        "no snapshot that lacks the requested entries or the requester",
                    );
                    m.requests.insert(peer, index);
                    cover("snapshot requested");
                }
            }
            _ => {
                let (applied, c) = (range("applied", 0, 8), conf());
                let mut want = meta(&m.snap).index + m.diff < applied;
                for (p, i) in &m.requests {
                    want |= applied >= *i && contains(&c, *p);
                }
                check(s.should_snapshot(applied, &c) == want, "when a snapshot is due");
            }
        }
        compare(&s, &m);
    }
    if m.entries.len() > 1 {
        // Bounded reads return as much of the prefix as fits, and at least one entry.
        let limit = range("size limit", 0, 40);
        let r = s.entries(m.first, m.last() + 1, Some(limit), GetEntriesContext::empty(false));
        let r = r.unwrap_or_default();
        check(!r.is_empty() && r.len() <= m.entries.len(), "a bounded read returns something");
        check(r[..] == m.entries[..r.len()], "a bounded read returns a prefix");
        let size = |n: usize| m.entries[..n].iter().map(|e| e.encoded_len() as u64).sum::<u64>();
        check(r.len() == 1 || size(r.len()) <= limit, "a bounded read respects the limit");
        check(r.len() == m.entries.len() || size(r.len() + 1) > limit, "a bounded read returns all that fits");
        cover("bounded read");
    }
}
