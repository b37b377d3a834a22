use crate::env::*;

pub const REGIONS: [u32; 5] = [u32::MAX, 0x8000_0000, 0x7fff_ffff, 0x4000_0001, u32::MAX / 8];

/// Lets the tablet store answer every outstanding list request.
fn serve(c: &mut DefaultTabletMetadataCache, ring: &Ring) -> usize {
    c.make_progress(1);
    let mut n = 0;
    for m in c.take_out_messages() {
        let TabletMetadataCacheOutMessage::ListRequest(id, ops) = m;
        let mut results = vec![];
        for op in ops {
            if let Some(tablet_op::Op::ListTablet(l)) = op.op {
                n += 1;
                check(l.key_hash_from <= l.key_hash_to, "list_range_ordered");
                results.push(list_result(
                    &op.table_name,
                    l.key_hash_from,
                    l.key_hash_to,
                    TabletOpStatus::Succeeded,
                    ring.list(l.key_hash_from, l.key_hash_to),
                ));
            } else {
                check(false, "only_list_requests");
            }
        }
        c.process_in_message(TabletMetadataCacheInMessage::ListResponse(id, results));
    }
    n
}

/// Every key of a query goes to exactly one tablet: the first clockwise.
pub fn resolve_one() {
    // Bounds: case = regions * 100 + tablets * 10 + keys.
    let b = case() as usize;
    let region = REGIONS[choose("region", b / 100)];
    let mut c = metadata_cache(&[("A", region)]);
    let n = 1 + choose("tablets", b / 10 % 10);
    let ring = Ring::any(n, 7);
    let nk = 1 + choose("keys", b % 10);
    let mut keys: Vec<u32> = vec![];
    for _ in 0..nk {
        let k = any_u32("key");
        if let Some(l) = keys.last() {
            assume(k > *l);
        }
        keys.push(k);
    }
    let q = TableQuery::create(5, "A".to_string(), keys.clone());
    let h = c.resolve_tablets(&vec![q]);
    check(h.check_result().is_none(), "resolve_needs_listing_first");
    serve(&mut c, &ring);
    let r = h.check_result();
    check(r.is_some(), "resolve_completes");
    let r = match r {
        Some(Ok(r)) => r,
        _ => {
            check(false, "resolve_succeeds");
            return;
        }
    };
    let mut seen = 0;
    for (q, m) in &r {
        check(q.get_id() == 5, "query_id_kept");
        for k in q.get_key_hashes() {
            seen += 1;
            check(ring.owns(m.tablet_id, *k), "key_to_clockwise_tablet");
            check(keys.iter().fold(false, |a, x| a | (x == k)), "only_keys_asked_for");
        }
    }
    check(seen == nk, "each_key_once");
    cover("resolved");
    if r.len() > 1 {
        cover("several_tablets");
    }
}

const R: u32 = 0x4000_0000;
/// Tables with their tablets; equal ids on purpose.
const STORE: [(&str, &[u32]); 2] = [("A", &[100, R + 5]), ("B", &[100])];
/// What a resolve asks for: queries of (table, keys).
const ASKS: [&[(usize, &[u32])]; 6] = [
    &[(0, &[7])],
    &[(0, &[7]), (0, &[90, 150])],
    &[(0, &[7, R + 1])],
    &[(0, &[7]), (1, &[7])],
    &[(0, &[R + 4]), (0, &[150])],
    &[],
];

fn owner_of(table: usize, key: u32) -> u32 {
    let ids = STORE[table].1;
    *ids.iter().find(|i| **i >= key).unwrap_or(&ids[0])
}

/// Something the cache was told about a tablet.
struct Told {
    table: usize,
    id: u32,
    version: u32,
    tag: u32,
}

struct Asked {
    what: usize,
    handle: Option<ResultHandle<Vec<(TableQuery, TabletMetadata)>, TabletsRequestStatus>>,
    got: std::rc::Rc<std::cell::RefCell<Vec<Vec<(TableQuery, u32)>>>>,
    /// Number of things told when it was asked.
    since: usize,
    /// Regions a listing is still needed for, as far as known.
    missing: BTreeSet<(usize, u32)>,
    done: bool,
}

struct Listing {
    corr: u64,
    ops: Vec<(usize, u32, u32)>,
}

#[derive(Clone, Copy, PartialEq)]
enum Known {
    Never,
    Listed,
    /// A listing failed; the cache may or may not still use the previous one.
    Doubtful,
    Stale,
}

struct Meta {
    c: DefaultTabletMetadataCache,
    told: Vec<Told>,
    asked: Vec<Asked>,
    listings: Vec<Listing>,
    /// By table and region.
    known: BTreeMap<(usize, u32), Known>,
    conflicts: usize,
    corrs: BTreeSet<u64>,
    news: usize,
}

fn region(key: u32) -> u32 {
    key / R
}

impl Meta {
    fn is(&self, p: &(usize, u32)) -> Known {
        self.known.get(p).copied().unwrap_or(Known::Never)
    }
    fn tell(&mut self, table: usize, id: u32) -> TabletMetadata {
        // A few versions are arbitrary; after that it is what was told last.
        let tag = self.told.len() as u32;
        let version = match self.told.iter().rev().find(|t| t.table == table && t.id == id) {
            Some(t) if self.news == 0 => {
                return TabletMetadata { tablet_id: id, tablet_version: t.version, blob_size: t.tag, ..Default::default() };
            }
            None if self.news == 0 => 0,
            _ => {
                self.news -= 1;
                any_u32("version")
            }
        };
        self.told.push(Told { table, id, version, tag });
        TabletMetadata { tablet_id: id, tablet_version: version, blob_size: tag, ..Default::default() }
    }
    /// Newest version the first `n` things told have for the tablet, if any.
    fn newest(&self, n: usize, table: usize, id: u32) -> u32 {
        self.told[..n].iter().filter(|t| t.table == table && t.id == id).fold(0, |a, t| a.max(t.version))
    }
    fn ask(&mut self, what: usize, with_handler: bool) {
        let qs: Vec<TableQuery> = ASKS[what]
            .iter()
            .enumerate()
            .map(|(i, (t, k))| TableQuery::create(i as u64 + 1, STORE[*t].0.to_string(), k.to_vec()))
            .collect();
        let got = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
        let mut missing = BTreeSet::new();
        for (t, ks) in ASKS[what] {
            for k in ks.iter() {
                missing.insert((*t, region(*k)));
            }
        }
        missing.retain(|p| self.is(p) != Known::Listed);
        let since = self.told.len();
        let handle = if with_handler {
            let got = got.clone();
            self.c.resolve_tablets_with_handler(
                &qs,
                Box::new(move |r| {
                    got.borrow_mut().push(
                        r.into_iter()
                            .map(|(q, d)| {
                                (q, d.get_id())
                            })
                            .collect(),
                    )
                }),
            );
            None
        } else {
            Some(self.c.resolve_tablets(&qs))
        };
        self.asked.push(Asked { what, handle, got, since, missing, done: false });
        self.look();
    }
    fn progress(&mut self) {
        self.c.make_progress(1);
        for m in self.c.take_out_messages() {
            let TabletMetadataCacheOutMessage::ListRequest(corr, ops) = m;
            check(self.corrs.insert(corr), "correlation_ids_unique");
            check(!ops.is_empty(), "no_empty_requests");
            let mut l = Listing { corr, ops: vec![] };
            for o in ops {
                let t = STORE.iter().position(|(n, _)| *n == o.table_name);
                check(t.is_some(), "known_table");
                match (t, o.op) {
                    (Some(t), Some(tablet_op::Op::ListTablet(x))) => {
                        let again = self
                            .listings
                            .iter()
                            .any(|p| p.ops.iter().any(|(a, from, to)| *a == t && *from <= x.key_hash_to && x.key_hash_from <= *to));
                        check(!again || self.conflicts > 0, "one_listing_at_a_time");
                        let wanted = self.asked.iter().any(|a| {
                            !a.done
                                && ASKS[a.what].iter().any(|(at, ks)| {
                                    *at == t && ks.iter().any(|k| (x.key_hash_from..=x.key_hash_to).contains(k))
                                })
                        });
                        check(wanted, "lists_only_what_someone_waits_for");
                        l.ops.push((t, x.key_hash_from, x.key_hash_to));
                    }
                    _ => check(false, "only_list_requests"),
                }
            }
            self.listings.push(l);
        }
        self.look();
    }
    fn answer(&mut self, i: usize, fail: bool) {
        let l = self.listings.remove(i);
        let mut results = vec![];
        // One request is executed at once: it sees one version of each tablet.
        let mut seen: BTreeMap<(usize, u32), TabletMetadata> = BTreeMap::new();
        for (t, from, to) in &l.ops {
            let mut tablets = vec![];
            let status = if fail { any_u32("status") as i32 } else { TabletOpStatus::Succeeded as i32 };
            let ok = status == TabletOpStatus::Succeeded as i32;
            if ok {
                let ids = STORE[*t].1;
                for id in ids {
                    if (from..=to).contains(&id) || *id == owner_of(*t, *to) {
                        let m = seen.get(&(*t, *id)).cloned().unwrap_or_else(|| self.tell(*t, *id));
                        seen.insert((*t, *id), m.clone());
                        tablets.push(m);
                    }
                }
            } else {
                cover("listing_failed");
            }
            let mut r = list_result(STORE[*t].0, *from, *to, TabletOpStatus::Succeeded, tablets);
            r.status = status;
            results.push(r);
            let p = (*t, region(*from));
            let was = self.is(&p);
            self.known.insert(p, match was {
                _ if ok => Known::Listed,
                Known::Listed => Known::Doubtful,
                w => w,
            });
            if ok {
                for a in self.asked.iter_mut() {
                    a.missing.remove(&p);
                }
            }
        }
        self.c.process_in_message(TabletMetadataCacheInMessage::ListResponse(l.corr, results));
        self.look();
    }
    fn update(&mut self, table: usize, id: u32, conflict: bool) {
        let m = self.tell(table, id);
        self.c.update_tablet(STORE[table].0.to_string(), m, conflict);
        if conflict {
            self.conflicts += 1;
            if self.is(&(table, region(id))) != Known::Never {
                self.known.insert((table, region(id)), Known::Stale);
            }
        }
        self.look();
    }
    fn look(&mut self) {
        for i in 0..self.asked.len() {
            let a = &self.asked[i];
            if a.done {
                check(a.got.borrow().len() <= 1, "handler_called_once");
                continue;
            }
            // (table, id, keys, metadata)
            let mut res: Option<Vec<(TableQuery, u32, Option<TabletMetadata>)>> = None;
            match &a.handle {
                Some(h) => match h.check_result() {
                    None => (),
                    Some(Ok(r)) => {
                        res = Some(r.into_iter().map(|(q, m)| (q, m.tablet_id, Some(m))).collect());
                    }
                    Some(Err(_)) => check(false, "resolving_does_not_fail"),
                },
                None => {
                    if let Some(r) = a.got.borrow().first() {
                        res = Some(r.iter().map(|(q, id)| (q.clone(), *id, None)).collect());
                    }
                }
            }
            check(res.is_some() || !a.missing.is_empty(), "completes_once_everything_is_listed");
            let Some(res) = res else { continue };
            let doubtful = a.missing.iter().all(|p| self.is(p) == Known::Doubtful);
            check(doubtful, "completes_only_once_everything_is_listed");
            let mut left: Vec<(usize, u32)> = vec![];
            for (t, ks) in ASKS[a.what] {
                left.extend(ks.iter().map(|k| (*t, *k)));
            }
            for (q, id, m) in &res {
                let t = STORE.iter().position(|(n, _)| n == q.get_table_name());
                check(t.is_some(), "result_names_a_table");
                let t = t.unwrap_or(0);
                for k in q.get_key_hashes() {
                    let n = left.len();
                    if let Some(p) = left.iter().position(|x| *x == (t, *k)) {
                        left.remove(p);
                    }
                    check(left.len() + 1 == n, "key_asked_for_and_once");
                    check(*id == owner_of(t, *k), "key_to_clockwise_tablet");
                }
                if let Some(m) = m {
                    check(m.tablet_version >= self.newest(a.since, t, *id), "version_never_older_than_known");
                    let x = self.told.get(m.blob_size as usize);
                    check(
                        x.map_or(false, |x| x.table == t && x.id == *id && x.version == m.tablet_version),
                        "metadata_is_of_that_tablet",
                    );
                    if ASKS[a.what].len() == 1 && ASKS[a.what][0].1.len() == 1 {
                        check(m.tablet_version == self.newest(self.told.len(), t, *id), "newest_version_known");
                    }
                }
            }
            check(left.is_empty(), "every_key_resolved");
            cover("resolved");
            self.asked[i].done = true;
        }
    }
}

/// Resolves, listings answered in any order with any status, updates and
/// conflicts.  case = kinds of resolves (0: all) * 10000 + arbitrary
/// versions * 1000 + resolves * 100 + updates * 10 + failures.
pub fn sequences() {
    let c = case() as usize;
    let (mut asks, mut updates, mut fails) = (c / 100 % 10, c / 10 % 10, c % 10);
    let kinds = if c / 10000 == 0 { ASKS.len() } else { c / 10000 };
    let mut m = Meta {
        c: metadata_cache(&[("A", R), ("B", u32::MAX)]),
        told: vec![],
        asked: vec![],
        listings: vec![],
        known: BTreeMap::new(),
        conflicts: 0,
        corrs: BTreeSet::new(),
        news: c / 1000 % 10,
    };
    while asks > 0 || !m.listings.is_empty() {
        let (x, y) = ((asks > 0) as usize, (updates > 0) as usize);
        let a = choose("act", x + y + m.listings.len()) + (1 - x);
        let a = if a > 0 { a + (1 - y) } else { a };
        if a == 0 {
            asks -= 1;
            let what = choose("what", kinds);
            m.ask(what, kinds > 1 && flip("handler"));
        } else if a == 1 {
            updates -= 1;
            let t = choose("table", 2);
            let id = STORE[t].1[choose("tablet", STORE[t].1.len())];
            m.update(t, id, flip("conflict"));
        } else {
            let f = fails > 0;
            fails -= f as usize;
            m.answer(a - 2, f);
        }
        m.progress();
    }
    for _ in 0..3 {
        m.progress();
        while !m.listings.is_empty() {
            m.answer(0, false);
        }
    }
    check(m.asked.iter().all(|a| a.done), "every_resolve_completes");
    cover("settled");
}
