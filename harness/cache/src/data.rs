//! The tablet data cache against a model of what was asked and answered.
use crate::env::*;
use sha2::{Digest, Sha256};

pub fn data_cache() -> DefaultTabletDataCache<Bytes> {
    data_cache_of(1024)
}

/// Contents are not stored as they are: a mark comes first, some cannot be
/// stored at all, and nothing without the mark can be read.
struct Marked;
const UNSTORABLE: &[u8] = b"no";

fn marked(v: &[u8]) -> Bytes {
    [b"#", v].concat().into()
}

impl TabletDataSerializer<Bytes> for Marked {
    fn serialize(&self, v: &Bytes) -> Result<Bytes, ()> {
        if v[..] == UNSTORABLE[..] { Err(()) } else { Ok(marked(v)) }
    }
    fn deserialize(&self, _table: &String, b: Bytes) -> Result<Bytes, ()> {
        match b.first() {
            None => Ok(b),
            Some(b'#') => Ok(b.slice(1..)),
            _ => Err(()),
        }
    }
    fn get_size(&self, v: &Bytes) -> usize {
        2 * v.len() + 7
    }
}

fn data_cache_of(capacity: u64) -> DefaultTabletDataCache<Bytes> {
    data_cache_with(capacity, false)
}

fn data_cache_with(capacity: u64, mark: bool) -> DefaultTabletDataCache<Bytes> {
    let serializer: Box<dyn TabletDataSerializer<Bytes>> =
        if mark { Box::new(Marked) } else { Box::new(BytesTabletDataSerializer {}) };
    let mut c = DefaultTabletDataCache::create(2 << 56, serializer, Box::new(DefaultTabletDataCachePolicy::new()));
    c.init(logger(), TabletDataCacheConfig { tablet_cache_capacity: capacity });
    c
}

pub fn sha(b: &[u8]) -> Bytes {
    Bytes::from(Sha256::digest(b).to_vec())
}

struct Op {
    tablet: usize,
    store: bool,
    corr: u64,
    done: Option<bool>,
}
enum Handle {
    Load(ResultHandle<Vec<(TabletMetadata, TabletData<Bytes>)>, TabletDataStorageStatus>),
    Store(ResultHandle<(), TabletDataStorageStatus>),
}
struct Batch {
    handle: Handle,
    /// (tablet, operation whose outcome decides it)
    members: Vec<(usize, usize)>,
}
impl Batch {
    fn completed(&self) -> bool {
        match &self.handle {
            Handle::Load(h) => h.check_result().is_some(),
            Handle::Store(h) => h.check_result().is_some(),
        }
    }
}

struct World {
    cache: DefaultTabletDataCache<Bytes>,
    /// Versions of tablets: the initial ones, then those stored since.
    tablets: Vec<TabletMetadata>,
    contents: Vec<Bytes>,
    /// Whether contents are marked where they are stored.
    mark: bool,
    /// Operation that decides the tablet, as long as the cache holds it.
    holder: Vec<Option<usize>>,
    ops: Vec<Op>,
    batches: Vec<Batch>,
}

impl World {
    fn new(n: usize, mark: bool) -> World {
        let mut tablets = vec![];
        let mut contents = vec![];
        for i in 0..n {
            // Tablets 1 and 2 have never been written, with marks tablet 2 has,
            // but without.
            let bad = mark && i == 2;
            let c = Bytes::from(vec![i as u8; if i == 1 || (i == 2 && !bad) { 0 } else { i + 1 }]);
            let blob = if mark && !bad { marked(&c) } else { c.clone() };
            tablets.push(if i == 1 || (i == 2 && !bad) {
                TabletMetadata { tablet_id: 10 * i as u32 + 10, ..Default::default() }
            } else {
                TabletMetadata {
                    tablet_id: 10 * i as u32 + 10,
                    tablet_version: 3,
                    blob_uri: format!("u{i}"),
                    blob_size: blob.len() as u32,
                    blob_hash: sha(&blob),
                    ..Default::default()
                }
            });
            contents.push(c);
        }
        World {
            // Nothing fits, and nothing is lost for it.
            cache: data_cache_with(any_u8("capacity") as u64, mark),
            mark,
            holder: vec![None; n],
            tablets,
            contents,
            ops: vec![],
            batches: vec![],
        }
    }

    /// How contents are stored.
    fn blob(&self, t: usize) -> Bytes {
        if !self.mark || self.bad(t) || self.tablets[t].blob_uri.is_empty() {
            self.contents[t].clone()
        } else {
            marked(&self.contents[t])
        }
    }

    /// Whether what is stored cannot be read.
    fn bad(&self, t: usize) -> bool {
        self.mark && t == 2 && !self.tablets[t].blob_uri.is_empty() && self.tablets[t].blob_uri == "u2"
    }

    fn load(&mut self, which: &[usize]) {
        let req: Vec<TabletMetadata> = which.iter().map(|i| self.tablets[*i].clone()).collect();
        let handle = self.cache.load_tablets(&req);
        self.asked(which, Handle::Load(handle));
    }

    /// Stores new versions of tablets, with the given values.
    fn store(&mut self, what: &[(usize, &Bytes)]) {
        let mut new: Vec<TabletMetadata> = what.iter().map(|(i, _)| self.tablets[*i].clone()).collect();
        let data = new.iter_mut().zip(what.iter().map(|(_, v)| (*v).clone())).collect();
        let handle = self.cache.store_tablets(data);
        if self.mark && what.iter().any(|(_, v)| v[..] == UNSTORABLE[..]) {
            check(matches!(handle.check_result(), Some(Err(_))), "contents_that_cannot_be_stored_fail");
            check(self.cache.take_out_messages().is_empty(), "nothing_stored_of_what_fails");
            cover("unstorable");
            return;
        }
        let mut which = vec![];
        for (m, (i, v)) in new.into_iter().zip(what) {
            let old = &self.tablets[*i];
            check(m.tablet_id == old.tablet_id, "id_kept");
            check(m.tablet_version == old.tablet_version + 1, "version_advances_by_one");
            let blob = if self.mark { marked(v) } else { (*v).clone() };
            check(m.blob_size as usize == blob.len(), "size_recorded");
            check(m.blob_hash == sha(&blob), "hash_recorded");
            let known = self.tablets.iter().position(|t| *t == m);
            which.push(known.unwrap_or(self.tablets.len()));
            if known.is_none() {
                let unique = self.tablets.iter().all(|t| t.blob_uri != m.blob_uri);
                check(unique && !m.blob_uri.is_empty(), "location_unique");
                self.tablets.push(m);
                self.contents.push((*v).clone());
                self.holder.push(None);
            }
        }
        self.asked(&which, Handle::Store(handle));
    }

    fn asked(&mut self, which: &[usize], handle: Handle) {
        let store = matches!(handle, Handle::Store(_));
        let mut expected = vec![];
        let mut members = vec![];
        for i in which {
            let op = match self.holder[*i] {
                Some(o) => o,
                None => {
                    self.ops.push(Op { tablet: *i, store, corr: 0, done: None });
                    self.holder[*i] = Some(self.ops.len() - 1);
                    expected.push(self.ops.len() - 1);
                    self.ops.len() - 1
                }
            };
            members.push((*i, op));
        }
        let out = self.cache.take_out_messages();
        check(out.len() == expected.len(), "one_request_per_missing_tablet");
        for m in out {
            let (is_store, corr, uri, contents) = match m {
                TabletDataCacheOutMessage::LoadRequest(corr, r) => (false, corr, r.blob_uri, None),
                TabletDataCacheOutMessage::StoreRequest(corr, r, b) => (true, corr, r.blob_uri, Some(b)),
            };
            check(is_store == store, "requests_of_the_right_kind");
            let at = expected.iter().position(|o| self.tablets[self.ops[*o].tablet].blob_uri == uri);
            check(at.is_some(), "request_names_tablet_blob");
            check(self.ops.iter().all(|x| x.corr != corr), "correlation_unique");
            if let Some(at) = at {
                let o = expected.remove(at);
                self.ops[o].corr = corr;
                if let Some(b) = contents {
                    check(b == self.blob(self.ops[o].tablet), "value_written");
                }
            }
        }
        self.batches.push(Batch { handle, members });
        self.look();
    }

    fn answer(&mut self, o: usize, status: i32, corrupt: bool) {
        let ok = status == TabletDataStorageStatus::Succeeded as i32;
        if self.ops[o].store {
            self.cache.process_in_message(TabletDataCacheInMessage::StoreResponse(
                self.ops[o].corr,
                StoreTabletResponse { status },
            ));
            self.ops[o].done = Some(ok);
            return;
        }
        let t = self.ops[o].tablet;
        let mut c = self.blob(t).to_vec();
        if corrupt && c.is_empty() {
            c.push(0x80);
        } else if corrupt {
            c[0] ^= 0x80;
        }
        self.cache.process_in_message(TabletDataCacheInMessage::LoadResponse(
            self.ops[o].corr,
            LoadTabletResponse { status },
            Bytes::from(c),
        ));
        self.ops[o].done = Some(ok && !corrupt && !self.bad(t));
    }

    fn open(&self) -> Vec<usize> {
        (0..self.ops.len()).filter(|o| self.ops[*o].done.is_none()).collect()
    }

    fn progress(&mut self) {
        self.cache.make_progress(1);
        check(self.cache.take_out_messages().is_empty(), "no_spontaneous_requests");
        for h in self.holder.iter_mut() {
            if let Some(o) = *h {
                if self.ops[o].done == Some(false) {
                    *h = None;
                }
            }
        }
        self.look();
        for b in &self.batches {
            if b.members.iter().all(|(_, o)| self.ops[*o].done.is_some()) {
                check(b.completed(), "batch_completes");
            }
        }
    }

    /// Whatever is visible now must be justified.
    fn look(&self) {
        for b in &self.batches {
            let failed = b.members.iter().any(|(_, o)| self.ops[*o].done == Some(false));
            let all = b.members.iter().all(|(_, o)| self.ops[*o].done == Some(true));
            match &b.handle {
                Handle::Store(h) => match h.check_result() {
                    None => (),
                    Some(Err(_)) => check(failed, "error_only_after_failure"),
                    Some(Ok(_)) => {
                        check(all, "stored_only_when_all_stored");
                        cover("stored");
                    }
                },
                Handle::Load(h) => match h.check_result() {
                    None => (),
                    Some(Err(_)) => check(failed, "error_only_after_failure"),
                    Some(Ok(r)) => {
                        check(all, "loaded_only_when_all_loaded");
                        check(r.len() == b.members.len(), "every_tablet_delivered");
                        for (m, d) in &r {
                            let i = self.tablets.iter().position(|t| t == m);
                            check(i.is_some(), "metadata_as_requested");
                            if let Some(i) = i {
                                check(d[..] == self.contents[i][..], "contents_of_that_tablet");
                                let asked = b.members.iter().filter(|(t, _)| *t == i).count();
                                let got = r.iter().filter(|(x, _)| *x == self.tablets[i]).count();
                                check(asked == got, "each_tablet_as_often_as_requested");
                            }
                        }
                        cover("loaded");
                        if r.len() > 1 {
                            cover("loaded_batch");
                        }
                    }
                },
            }
        }
    }
}

/// Any interleaving of loads, stores of new versions of the initial tablets,
/// answers (any status, right or wrong contents) and progress, then loading
/// all versions.  case = tablets * 10 + steps, and 100 with a serializer that
/// changes the contents and may fail.
pub fn mixed_sequences() {
    let (mark, n, steps) = (case() >= 100, case() as usize / 10 % 10, case() as usize % 10);
    let mut w = World::new(n, mark);
    // Other contents, none, the same as before, what cannot be stored.
    let values = [Bytes::from_static(b"x"), Bytes::new(), w.contents[0].clone(), Bytes::from_static(UNSTORABLE)];
    for _ in 0..steps {
        let open = w.open();
        let a = choose("act", 3 + open.len());
        if a == 0 {
            let known = w.tablets.len();
            let mut batch = vec![choose("tablet", known)];
            if known > 1 && flip("two") {
                batch.push((batch[0] + 1) % known);
            }
            w.load(&batch);
        } else if a == 1 {
            let v = &values[choose("value", 3 + mark as usize)];
            let t = choose("tablet", n + (n > 1) as usize);
            if t < n {
                w.store(&[(t, v)]);
            } else {
                w.store(&[(0, v), (1, &values[0])]);
            }
        } else if a == 2 {
            w.progress();
        } else {
            let status = any_u32("status") as i32;
            let corrupt = !w.ops[open[a - 3]].store && flip("corrupt");
            w.answer(open[a - 3], status, corrupt);
        }
    }
    for round in 0..2 {
        // Each version again, then every request is answered.
        for i in 0..w.tablets.len() {
            w.load(&[i]);
        }
        if round == 0 {
            w.store(&[(0, &values[0])]);
        }
        for o in w.open() {
            w.answer(o, TabletDataStorageStatus::Succeeded as i32, false);
        }
        w.progress();
    }
    cover("settled");
}

/// Any interleaving of loads, answers (any status, right or wrong contents)
/// and progress.  case = tablets * 10 + steps, and 100 as above.
pub fn load_sequences() {
    let (n, steps) = (case() as usize / 10 % 10, case() as usize % 10);
    let mut w = World::new(n, case() >= 100);
    for _ in 0..steps {
        let open = w.open();
        let a = choose("act", 2 + open.len());
        if a == 0 {
            // Batches: empty, one, two or all tablets, the same one twice.
            let l = choose("batch", 4);
            let batch: Vec<usize> = (0..l).map(|_| choose("tablet", n)).collect();
            w.load(&batch);
        } else if a == 1 {
            w.progress();
        } else {
            let o = open[a - 2];
            let status = any_u32("status") as i32;
            w.answer(o, status, flip("corrupt"));
        }
    }
    // Wind up: every request is answered, then everything must be settled.
    for o in w.open() {
        w.answer(o, TabletDataStorageStatus::Succeeded as i32, false);
    }
    w.progress();
    // Answers nobody waits for change nothing.
    w.cache.process_in_message(TabletDataCacheInMessage::LoadResponse(
        w.ops.first().map(|o| o.corr).unwrap_or(1),
        LoadTabletResponse { status: TabletDataStorageStatus::Succeeded as i32 },
        Bytes::from_static(b"late"),
    ));
    w.progress();
    cover("settled");
}

/// Many tablets in one batch, then with some of them stored anew in another,
/// with one failure; answers come in few orders.  case = tablets
pub fn wide() {
    let n = case() as usize;
    let mut w = World::new(n, false);
    let all: Vec<usize> = (0..n).collect();
    let failing = choose("failing", 2 * n + 1);
    let order = choose("order", 3);
    for round in 0..2 {
        if round == 0 {
            w.load(&all[..n / 2]);
            w.load(&all);
        } else {
            let v = Bytes::from_static(b"new");
            let what: Vec<(usize, &Bytes)> = all.iter().map(|i| (*i, &v)).collect();
            w.store(&what);
        }
        let mut k = 0;
        while !w.open().is_empty() {
            let open = w.open();
            let o = match order {
                0 => open[0],
                1 => open[open.len() - 1],
                _ => open[open.len() / 2],
            };
            let status =
                if round * n + k == failing { any_u32("status") as i32 } else { TabletDataStorageStatus::Succeeded as i32 };
            w.answer(o, status, false);
            if order == 1 {
                w.progress();
            }
            k += 1;
        }
        w.progress();
    }
    // What was not loaded is asked for again.
    let versions: Vec<usize> = (0..w.tablets.len()).collect();
    w.load(&versions);
    for o in w.open() {
        w.answer(o, TabletDataStorageStatus::Succeeded as i32, false);
    }
    w.progress();
    cover("settled");
}

fn b64url(b: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut o = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            o.push(T[(v >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    o
}

/// Whether the location tells the hash, in any of the usual ways.
fn names(uri: &str, hash: &[u8]) -> bool {
    let b = b64url(hash);
    let hex: String = hash.iter().map(|b| format!("{b:02x}")).collect();
    uri.contains(&b) || uri.contains(&b.replace('-', "+").replace('_', "/")) || uri.to_lowercase().contains(&hex)
}

/// No two tablets, versions or contents have the same location.
fn locations() {
    let mut c = data_cache();
    let mut seen = BTreeSet::new();
    for tablet_id in [0, 1, 11, 0x101, 0x1_0001, 0x100_0001, u32::MAX] {
        for tablet_version in [0, 1, 10, 110, 0x100, 0x1_0000, 0x100_0000, u32::MAX - 1] {
            for v in ["", "x"] {
                let mut t = TabletMetadata { tablet_id, tablet_version, ..Default::default() };
                c.store_tablets(vec![(&mut t, Bytes::from(v))]);
                check(seen.insert(t.blob_uri), "location_unique");
            }
        }
    }
    cover("stored");
}

/// Stores, their answers in any order, retries, then loading what was stored.
/// case = large * 10 + tablets, 0 for none but many locations
pub fn store_sequences() {
    if case() == 0 {
        return locations();
    }
    // Small and large numbers.
    let (n, large) = (case() as usize % 10, case() >= 10);
    let versions = if large { [0x0003_0007, 0xffff_fffe, 0x7fff_ffff] } else { [0u32, 7, 41] };
    let ids = if large { [0x0002_0001, 1, u32::MAX] } else { [5, 6, 7] };
    let lengths = if large { [65_541, 256, 1] } else { [300, 0, 2] };
    let mut c = data_cache();
    let mut failed_before = false;
    let mut tablets: Vec<TabletMetadata> = (0..n)
        .map(|i| TabletMetadata {
            tablet_id: ids[i],
            tablet_version: versions[i],
            blob_uri: if i == 0 { String::new() } else { "old".to_string() },
            ..Default::default()
        })
        .collect();
    let before = tablets.clone();
    let values: Vec<Bytes> = (0..n).map(|i| Bytes::from(vec![b'x' + i as u8; lengths[i]])).collect();
    for attempt in 0..2 {
        tablets = before.clone();
        let h = c.store_tablets(tablets.iter_mut().zip(values.iter().cloned()).collect());
        let out = c.take_out_messages();
        let mut pending = vec![];
        for m in out {
            match m {
                TabletDataCacheOutMessage::StoreRequest(corr, r, b) => {
                    let i = tablets.iter().position(|t| t.blob_uri == r.blob_uri);
                    check(i.is_some(), "request_for_a_stored_tablet");
                    let i = i.unwrap_or(0);
                    check(b == values[i], "value_written");
                    pending.push((corr, i));
                }
                _ => check(false, "only_store_requests"),
            }
        }
        for i in 0..n {
            let t = &tablets[i];
            check(t.tablet_id == before[i].tablet_id, "id_kept");
            check(t.tablet_version == before[i].tablet_version + 1, "version_advances_by_one");
            check(t.blob_size as usize == values[i].len(), "size_recorded");
            check(t.blob_hash == sha(&values[i]), "hash_recorded");
            check(names(&t.blob_uri, &t.blob_hash), "location_names_the_hash");
        }
        if attempt == 0 {
            check(pending.len() == n, "one_request_per_tablet");
        }
        let mut failed = vec![false; n];
        let asked: Vec<usize> = pending.iter().map(|(_, i)| *i).collect();
        while !pending.is_empty() {
            let r = h.check_result();
            check(!matches!(r, Some(Ok(_))), "stored_only_when_all_acknowledged");
            check(failed.contains(&true) || r.is_none(), "error_only_after_failure");
            let (corr, i) = pending.remove(choose("answer", pending.len()));
            let status = any_u32("status") as i32;
            if status != TabletDataStorageStatus::Succeeded as i32 {
                failed[i] = true;
            }
            c.process_in_message(TabletDataCacheInMessage::StoreResponse(corr, StoreTabletResponse { status }));
            if flip("progress") {
                c.make_progress(1);
            }
        }
        c.make_progress(1);
        let any_failed = failed.contains(&true);
        match h.check_result() {
            None => check(false, "store_completes"),
            Some(Ok(_)) => {
                check(!any_failed, "failure_reported");
                cover("stored");
                if attempt == 1 && failed_before {
                    cover("stored_by_retry");
                }
            }
            Some(Err(_)) => {
                check(any_failed, "success_reported");
                cover("store_failed");
            }
        }
        failed_before = any_failed;
        // What was stored is served from the cache, what failed is not.
        for i in 0..n {
            let l = c.load_tablets(&vec![tablets[i].clone()]);
            let out = c.take_out_messages();
            if failed[i] && asked.contains(&i) {
                check(l.check_result().is_none() && out.len() == 1, "failed_store_not_cached");
                if let Some(TabletDataCacheOutMessage::LoadRequest(corr, r)) = out.first() {
                    check(r.blob_uri == tablets[i].blob_uri, "load_names_new_blob");
                    c.process_in_message(TabletDataCacheInMessage::LoadResponse(
                        *corr,
                        LoadTabletResponse { status: TabletDataStorageStatus::Failed as i32 },
                        Bytes::new(),
                    ));
                    c.make_progress(1);
                    check(matches!(l.check_result(), Some(Err(_))), "load_fails");
                }
            } else {
                check(out.is_empty(), "stored_is_cached");
                match l.check_result() {
                    Some(Ok(r)) => check(
                        r.len() == 1 && r[0].0 == tablets[i] && r[0].1[..] == values[i][..],
                        "stored_value_is_loaded",
                    ),
                    _ => check(false, "stored_value_is_available"),
                }
            }
        }
        if !flip("retry") {
            break;
        }
    }
}

/// Whatever the blob storage returns and whatever hash the metadata has, only
/// contents with that hash are used.
pub fn integrity() {
    let mut c = data_cache();
    let n = 1 + choose("tablets", case() as usize);
    let mut tablets = vec![];
    let mut contents = vec![];
    for i in 0..n {
        let value = Bytes::from(vec![b'v' + i as u8; [0, 1, 5, 70][choose("length", 4)]]);
        let good = sha(&value);
        if flip("never_stored") {
            // Nothing is recorded, and nothing is accepted.
            tablets.push(TabletMetadata { tablet_id: i as u32 + 1, ..Default::default() });
            contents.push((value, good));
            continue;
        }
        let expected = match choose("hash", 4) {
            // The right one but for a byte that may be anything.
            0 => {
                let mut h = good.to_vec();
                let at = choose("at", 32);
                h[at] = any_u8("byte");
                h
            }
            1 => bytes("hash", 32),
            2 => good[..31].to_vec(),
            _ => {
                let mut h = good.to_vec();
                h.push(any_u8("byte"));
                h
            }
        };
        tablets.push(TabletMetadata {
            tablet_id: i as u32 + 1,
            tablet_version: 1 + any_u8("version") as u32,
            blob_uri: ["a", "b"][i].to_string(),
            blob_size: any_u32("size"),
            blob_hash: Bytes::from(expected),
            ..Default::default()
        });
        contents.push((value, good));
    }
    let h = c.load_tablets(&tablets.clone());
    let mut asked = BTreeSet::new();
    for m in c.take_out_messages() {
        match m {
            TabletDataCacheOutMessage::LoadRequest(corr, r) => {
                let i = (0..n).find(|i| tablets[*i].blob_uri == r.blob_uri && asked.insert(*i));
                check(i.is_some(), "asked_for_the_recorded_location");
                let i = i.unwrap_or(0);
                c.process_in_message(TabletDataCacheInMessage::LoadResponse(
                    corr,
                    LoadTabletResponse { status: TabletDataStorageStatus::Succeeded as i32 },
                    contents[i].0.clone(),
                ));
            }
            _ => check(false, "only_load_requests"),
        }
    }
    c.make_progress(1);
    // Byte by byte without branches, for the solver.
    let mut all = true;
    for i in 0..n {
        let (a, b) = (&tablets[i].blob_hash, &contents[i].1);
        if tablets[i].blob_uri.is_empty() {
            all &= contents[i].0.is_empty();
            continue;
        }
        all &= a.len() == b.len() && a.iter().zip(b.iter()).fold(true, |x, (a, b)| x & (a == b));
    }
    match h.check_result() {
        None => check(false, "load_completes"),
        Some(Ok(r)) => {
            check(all, "contents_have_the_recorded_hash");
            check(r.len() == n, "every_tablet_delivered");
            for (m, d) in &r {
                let i = m.tablet_id as usize - 1;
                check(d[..] == contents[i].0[..], "contents_of_that_tablet");
            }
            cover("accepted");
        }
        Some(Err(_)) => {
            check(!all, "right_contents_accepted");
            cover("rejected");
        }
    }
    // A rejected blob is not kept.
    let again = c.load_tablets(&tablets.clone());
    let r = again.check_result();
    if n == 1 {
        check(matches!(r, Some(Ok(_))) == all, "rejected_contents_not_cached");
    }
    check(!matches!(r, Some(Ok(_))) || all, "never_served_unverified");
}
