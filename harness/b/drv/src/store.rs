//! Histories of the packet store: batches, readers, failures, reopening, writers side by side.
use crate::gen::Rng;
use crate::pkt::Fields;
use crate::rec::*;
use linkspace_core::env::lmdb::get::ReadTxn;
use linkspace_core::env::lmdb::BTreeEnv;
use linkspace_core::env::misc::SaveState;
use linkspace_core::env::query_mode::Order;
use linkspace_core::predicate::pkt_predicates::PktPredicates;
use linkspace_pkt::netpkt::reroute::*;
use linkspace_pkt::*;
use lmdb_sys as sys;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ the clock
/// microseconds; 0: the real one
pub static CLOCK: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
extern "C" fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32 {
    let us = CLOCK.load(SeqCst);
    if id == 0 && us != 0 {
        unsafe { *t = [(us / 1_000_000) as i64, (us % 1_000_000 * 1000) as i64] };
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, t) as i32 }
}

// ------------------------------------------------------------------ packets
pub struct Pool {
    /// per hash: its forms (same packet, other net headers)
    pub forms: Vec<Vec<NetPktBox>>,
    pub hashes: Vec<LkHash>,
    bytes: HashMap<Vec<u8>, (i64, i64)>,
    /// what the tree index has to say of it
    facts: Vec<i64>,
    known: HashMap<String, i64>,
}
fn raw(p: &dyn NetPkt) -> Vec<u8> {
    p.byte_segments().to_bytes().to_vec()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn fact(f: &Fields) -> Option<String> {
    if f.kind != "link" && f.kind != "key" {
        return None;
    }
    let mut sp = vec![];
    for c in &f.comps {
        sp.push(c.len() as u8);
        sp.extend_from_slice(c);
    }
    let key = if f.kind == "key" { crate::pkt::pubkey(f.key) } else { [0; 32] };
    Some(format!(
        "{} {} {} {} {} {} {} {}",
        hex(&f.group),
        hex(&f.domain),
        f.comps.len(),
        hex(&sp),
        hex(&key),
        f.stamp,
        f.links.len(),
        f.data.len()
    ))
}
fn own_fact(p: &NetPktBox) -> Option<String> {
    let t = p.as_point();
    t.group()?;
    Some(format!(
        "{} {} {} {} {} {} {} {}",
        hex(&t.get_group().0),
        hex(&t.get_domain().0),
        *t.get_depth(),
        hex(t.get_spacename().space_bytes()),
        hex(&t.get_pubkey().0),
        t.get_create_stamp().get(),
        t.get_links().len(),
        t.data().len()
    ))
}
impl Pool {
    fn empty() -> Pool {
        Pool { forms: vec![], hashes: vec![], bytes: HashMap::new(), facts: vec![], known: HashMap::new() }
    }
    fn add(&mut self, forms: Vec<NetPktBox>, fact: Option<String>) {
        if self.hashes.contains(&forms[0].hash()) {
            return;
        }
        let h = self.forms.len() as i64;
        for (v, f) in forms.iter().enumerate() {
            self.bytes.insert(raw(f), (h, v as i64));
        }
        self.hashes.push(forms[0].hash());
        self.forms.push(forms);
        let n = self.known.len() as i64 + 1;
        let k = fact.map(|t| *self.known.entry(t).or_insert(n)).unwrap_or(0);
        self.facts.push(k);
    }
    pub fn gen(g: &mut Rng, n: usize) -> Pool {
        let mut p = Pool::empty();
        let base = Fields::of(g, "link");
        while p.forms.len() < n {
            let mut f = match g.below(4) {
                0 => Fields::gen(g),
                1 => Fields { kind: "key", ..base.clone() },
                _ => base.clone(),
            };
            if f.data.len() > 40 {
                f.data.truncate(9);
            }
            match g.below(6) {
                0 => f.data.push(g.byte()),
                1 => f.stamp = g.next() >> g.below(64),
                2 => {
                    f.comps.pop();
                }
                3 => f.links.push(([1; 16], [2; 32])),
                4 => f.key = g.below(3) as u8,
                _ => f.domain[15] ^= 1,
            }
            let plain = NetPktHeader::EMPTY;
            let mut forms = vec![f.boxed(plain)];
            for k in 1..3 {
                let mut h = plain;
                h.hop = byte_fmt::endian_types::U32::new(k);
                h.stamp = Stamp::new(g.next());
                h.flags = NetFlags::from_bits_retain(g.byte());
                forms.push(f.boxed(h));
            }
            p.add(forms, fact(&f));
        }
        p
    }
    /// the packets a fresh store starts with
    fn roots(&mut self) {
        let f: &NetPktBox = &PUBLIC_GROUP_PKT;
        self.add(vec![f.clone()], own_fact(f));
        for p in linkspace_core::LNS_ROOTS.iter() {
            let p = p.as_netbox();
            let k = own_fact(&p);
            self.add(vec![p], k);
        }
    }
    fn id(&self, p: &dyn NetPkt) -> (i64, i64) {
        let (h, v) = self.bytes.get(&raw(p)).copied().unwrap_or((-1, -1));
        if h >= 0 && self.hashes[h as usize] != p.hash() {
            return (-1, -1);
        }
        (h, v)
    }
    fn hid(&self, h: &LkHash) -> i64 {
        self.hashes.iter().position(|x| x == h).map(|i| i as i64).unwrap_or(-1)
    }
}
fn n(x: impl TryInto<i64>) -> J {
    J::N(x.try_into().unwrap_or(-2).min(2_000_000_000))
}
fn st(x: Stamp) -> J {
    n(x.get())
}
fn triple(t: Stamp, p: &dyn NetPkt, pool: &Pool) -> J {
    let (h, v) = pool.id(p);
    J::L(vec![st(t), n(h), n(v)])
}

// ------------------------------------------------------------------ what a reader sees
fn listing(r: &ReadTxn, pool: &Pool) -> J {
    J::L(r.local_pkt_log(Stamp::ZERO).map(|p| triple(p.recv, &p.pkt, pool)).collect())
}
fn look(e: &'static str, id: usize, r: &ReadTxn, pool: &Pool, g: &mut Rng) -> J {
    let out = catch_unwind(AssertUnwindSafe(|| {
        let head = r.log_head();
        let log = listing(r, pool);
        let stamps: Vec<Stamp> = r.local_pkt_log(Stamp::ZERO).map(|p| p.recv).collect();
        let hash = pool
            .hashes
            .iter()
            .enumerate()
            .map(|(i, h)| {
                let t = r.read_ptr(h).unwrap();
                let p = r.read(h).unwrap();
                match (t, p) {
                    (None, None) => J::L(vec![n(i), n(-1), n(-1), n(-1)]),
                    (Some(t), Some(p)) => {
                        assert_eq!(t, p.recv);
                        let (a, b) = pool.id(&p.pkt);
                        J::L(vec![n(i), st(t), n(a), n(b)])
                    }
                    (t, p) => J::L(vec![n(i), n(t.map(|t| t.get()).unwrap_or(0)), n(-1), n(if p.is_some() { -3 } else { -4 })]),
                }
            })
            .collect();
        let want: Vec<usize> = (0..g.below(6)).map(|_| g.below(pool.hashes.len())).collect();
        let got: Vec<J> = r
            .get_pkts_by_hash(want.iter().map(|i| pool.hashes[*i]).chain(Some(B64([7; 32]))))
            .map(|p| triple(Stamp::ZERO, &p, pool))
            .collect();
        let wantt: Vec<Stamp> = (0..g.below(6))
            .map(|_| {
                let t = if stamps.is_empty() { Stamp::new(3) } else { *g.pick(&stamps) };
                if g.chance(30) {
                    Stamp::new(t.get().wrapping_add(1))
                } else {
                    t
                }
            })
            .collect();
        let gott: Vec<J> = r.get_pkts_by_logidx(wantt.iter().copied()).map(|p| triple(Stamp::ZERO, &p, pool)).collect();
        let x = if stamps.is_empty() { Stamp::new(9) } else { *g.pick(&stamps) };
        let x = Stamp::new(x.get() + g.below(3) as u64 - 1);
        let after: Vec<J> = r.pkts_after(x).map(|p| triple(p.recv, &p.pkt, pool)).collect();
        let from: Vec<J> = r.local_pkt_log(x).map(|p| triple(p.recv, &p.pkt, pool)).collect();
        let tree: Vec<J> = r
            .query_tree_entries(&PktPredicates::DEFAULT, if g.chance(50) { Order::Asc } else { Order::Desc })
            .map(|t| {
                let k = t.btree_key();
                let f = format!(
                    "{} {} {} {} {} {} {} {}",
                    hex(&k.group().0),
                    hex(&k.domain().0),
                    k.space_segments(),
                    hex(k.space().space_bytes()),
                    hex(&k.pubkey().0),
                    t.create().get(),
                    t.links_len().get(),
                    t.data_size().get()
                );
                J::L(vec![st(t.local_log_ptr()), n(pool.hid(&t.hash())), n(pool.known.get(&f).copied().unwrap_or(-1))])
            })
            .collect();
        vec![
            ("head", st(head)),
            ("log", log),
            ("hash", J::L(hash)),
            ("want", J::L(want.iter().map(|i| n(*i)).collect())),
            ("got", J::L(got)),
            ("wantt", J::L(wantt.iter().map(|t| st(*t)).collect())),
            ("gott", J::L(gott)),
            ("x", st(x)),
            ("after", J::L(after)),
            ("from", J::L(from)),
            ("tree", J::L(tree)),
        ]
    }));
    let mut o = vec![("e", s(e)), ("r", n(id))];
    match out {
        Ok(v) => o.extend(v),
        Err(_) => o = vec![("e", s("crash")), ("r", n(id))],
    }
    J::O(o)
}

// ------------------------------------------------------------------ saving
#[derive(Clone)]
struct Batch {
    p: Vec<(usize, usize)>,
    via: &'static str,
}
impl Batch {
    fn gen(g: &mut Rng, pool: &Pool) -> Batch {
        let k = match g.below(8) {
            0 => 0,
            1..=2 => 1,
            7 => 5 + g.below(6),
            _ => 2 + g.below(3),
        };
        let p = (0..k)
            .map(|_| {
                let h = g.below(pool.forms.len());
                (h, g.below(pool.forms[h].len()))
            })
            .collect::<Vec<_>>();
        let via = if k == 1 { *g.pick(&["ptr", "dyn", "parts", "one", "dynone", "iter", "dyniter", "recv"]) } else { *g.pick(&["ptr", "dyn", "parts", "iter", "dyniter", "recv"]) };
        Batch { p, via }
    }
    /// (kind, range, states)
    fn save(&self, env: &BTreeEnv, pool: &Pool) -> (&'static str, Stamp, Stamp, Vec<&'static str>) {
        let name = |s: SaveState| match s {
            SaveState::Written => "W",
            SaveState::Exists => "E",
            SaveState::Pending => "P",
            SaveState::Error => "X",
        };
        let boxes: Vec<&NetPktBox> = self.p.iter().map(|(h, v)| &pool.forms[*h][*v]).collect();
        let all = |l: std::io::Result<std::ops::Range<u64>>, st: Vec<&'static str>| match l {
            Ok(r) => ("ok", Stamp::new(r.start), Stamp::new(r.end), st),
            Err(_) => ("err", Stamp::ZERO, Stamp::ZERO, vec![]),
        };
        let one = |r: std::io::Result<SaveState>| match r {
            Ok(s) => {
                let h = env.new_read_txn().unwrap().log_head();
                let w = s.is_written();
                ("ok", h, if w { Stamp::new(h.get() + 1) } else { h }, vec![name(s)])
            }
            Err(_) => ("err", Stamp::ZERO, Stamp::ZERO, vec![]),
        };
        let r = catch_unwind(AssertUnwindSafe(|| match self.via {
            "ptr" => {
                let mut l: Vec<(&NetPktPtr, SaveState)> = boxes.iter().map(|p| (&****p, SaveState::Pending)).collect();
                let r = env.save_ptr(&mut l);
                all(r, l.iter().map(|x| name(x.1)).collect())
            }
            "dyn" => {
                let mut l: Vec<(&dyn NetPkt, SaveState)> = boxes.iter().map(|p| (*p as &dyn NetPkt, SaveState::Pending)).collect();
                let r = env.save_dyn(&mut l);
                all(r, l.iter().map(|x| name(x.1)).collect())
            }
            "parts" => {
                let v: Vec<NetPktParts> = boxes.iter().map(|p| p.as_netparts()).collect();
                let mut l: Vec<(&dyn NetPkt, SaveState)> = v.iter().map(|p| (p as &dyn NetPkt, SaveState::Pending)).collect();
                let r = env.save_dyn(&mut l);
                all(r, l.iter().map(|x| name(x.1)).collect())
            }
            "recv" => {
                let v: Vec<ReroutePkt<RecvPkt<NetPktArc>>> = boxes
                    .iter()
                    .map(|p| ReroutePkt { net_header: p.net_header(), pkt: RecvPkt { recv: Stamp::new(1), pkt: p.as_netarc() } })
                    .collect();
                let mut l: Vec<(&dyn NetPkt, SaveState)> = v.iter().map(|p| (p as &dyn NetPkt, SaveState::Pending)).collect();
                let r = env.save_dyn(&mut l);
                all(r, l.iter().map(|x| name(x.1)).collect())
            }
            "one" => one(env.save_ptr_one(boxes[0])),
            "dynone" => one(env.save_dyn_one(boxes[0])),
            "iter" => all(env.save_ptr_iter(boxes.iter().map(|p| &****p)), vec![]),
            _ => all(env.save_dyn_iter(boxes.iter().map(|p| *p as &dyn NetPkt)), vec![]),
        }));
        r.unwrap_or(("panic", Stamp::ZERO, Stamp::ZERO, vec![]))
    }
    fn j(&self, w: usize, now: u64, fault: i64, r: (&'static str, Stamp, Stamp, Vec<&'static str>), bus: i64) -> J {
        J::O(vec![
            ("e", s("save")),
            ("w", n(w)),
            ("now", n(now)),
            ("p", J::L(self.p.iter().map(|(h, v)| J::L(vec![n(*h), n(*v)])).collect())),
            ("via", s(self.via)),
            ("fault", n(fault)),
            ("ans", s(r.0)),
            ("a", st(r.1)),
            ("b", st(r.2)),
            ("st", J::L(r.3.iter().map(|x| s(x)).collect())),
            ("bus", n(bus)),
        ])
    }
}
fn bus(e: &BTreeEnv) -> i64 {
    e.0.log_head.val() as i64
}

// ------------------------------------------------------------------ histories
pub struct Dir(pub PathBuf);
static NEXT: AtomicU64 = AtomicU64::new(0);
impl Dir {
    pub fn new() -> Dir {
        let k = NEXT.fetch_add(1, SeqCst);
        let d = std::env::temp_dir().join(format!("db{}_{k}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("id"), ((std::process::id() as u64) << 32 | k).to_be_bytes()).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        if let Ok(p) = self.0.canonicalize() {
            sys::forget(&p);
        }
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn open(path: &Path) -> Option<BTreeEnv> {
    catch_unwind(AssertUnwindSafe(|| BTreeEnv::open(path.to_path_buf(), true).ok())).ok().flatten()
}
struct Hist {
    ev: Vec<J>,
    pool: Arc<Pool>,
    id: usize,
}
impl Hist {
    fn busy(&self, what: &str) {
        busy(vec![("id", n(self.id)), ("hang", s(what)), ("ev", J::L(self.ev.clone()))]);
    }
    fn done(self) {
        line(J::O(vec![
            ("id", n(self.id)),
            ("facts", J::L(self.pool.facts.iter().map(|k| n(*k)).collect())),
            ("ev", J::L(self.ev)),
        ]));
    }
    fn open(&mut self, w: usize, path: &Path, lns: bool, now: u64) -> Option<BTreeEnv> {
        self.busy("open");
        if lns {
            std::env::remove_var("LK_FORCE_EMPTY");
        } else {
            std::env::set_var("LK_FORCE_EMPTY", "1");
        }
        let e = open(path);
        match &e {
            Some(e) => {
                let log = listing(&e.new_read_txn().unwrap(), &self.pool);
                self.ev.push(J::O(vec![("e", s("open")), ("w", n(w)), ("lns", n(lns as i64)), ("now", n(now)), ("log", log), ("bus", n(bus(e)))]));
            }
            None => self.ev.push(J::O(vec![("e", s("crash")), ("r", n(w))])),
        }
        e
    }
}
struct Ptr<T>(*const T);
unsafe impl<T> Send for Ptr<T> {}

fn sequential(g: &mut Rng, id: usize) {
    let lns = g.chance(12);
    let k = 2 + g.below(8);
    let mut pool = Pool::gen(g, k);
    if lns {
        pool.roots();
    }
    let pool = Arc::new(pool);
    let mut h = Hist { ev: vec![], pool: pool.clone(), id };
    let dir = Dir::new();
    let mut now = 1000 + g.below(50) as u64;
    CLOCK.store(now, SeqCst);
    let faulty = g.chance(60);
    for life in 0..1 + g.below(3) {
        let nw = 1 + g.below(2);
        let mut envs = vec![];
        for w in 0..nw {
            match h.open(w + 1, &dir.0, lns, now) {
                Some(e) => envs.push(e),
                None => return h.done(),
            }
        }
        // the readers borrow from the handles
        let envs: &'static [BTreeEnv] = Box::leak(envs.into_boxed_slice());
        let mut readers: Vec<(usize, ReadTxn<'static>)> = vec![];
        let mut next_reader = life * 100 + 1;
        for _ in 0..4 + g.below(12) {
            match g.below(10) {
                0 => {
                    now = match g.below(5) {
                        0 => now.saturating_sub(g.below(30) as u64).max(1),
                        1 => now + 1,
                        2 => now,
                        _ => now + g.below(40) as u64,
                    };
                    CLOCK.store(now, SeqCst);
                }
                1 => {
                    let e = g.below(nw);
                    let r = envs[e].new_read_txn().unwrap();
                    h.ev.push(J::O(vec![("e", s("reader")), ("r", n(next_reader))]));
                    readers.push((next_reader, r));
                    next_reader += 1;
                }
                2 if !readers.is_empty() => {
                    let i = g.below(readers.len());
                    readers[i].1.refresh();
                    h.ev.push(J::O(vec![("e", s("refresh")), ("r", n(readers[i].0))]));
                }
                3 if !readers.is_empty() => {
                    let i = g.below(readers.len());
                    h.busy("look");
                    let j = look("look", readers[i].0, &readers[i].1, &pool, g);
                    h.ev.push(j);
                }
                _ => {
                    let w = g.below(nw);
                    let b = Batch::gen(g, &pool);
                    let fault = if faulty && g.chance(35) {
                        let steps = b.p.len() * 3 + 2;
                        Some((g.below(steps), if g.chance(50) { sys::Fault::Panic } else { sys::Fault::Error(*g.pick(&[sys::MDB_MAP_FULL, 5, 28])) }))
                    } else {
                        None
                    };
                    h.busy("save");
                    sys::control(|c| {
                        c.record = true;
                        c.step = 0;
                        c.log.clear();
                        c.fault = fault;
                    });
                    let seen: Arc<Mutex<Vec<J>>> = Default::default();
                    if g.chance(50) {
                        let seen = seen.clone();
                        let pool = pool.clone();
                        let rd = readers.iter().map(|(i, r)| (*i, Ptr(r as *const ReadTxn))).collect::<Vec<_>>();
                        let pick = g.next();
                        let mut step = 0;
                        sys::set_hook(Some(Box::new(move || {
                            let rd = &rd;
                            let r = catch_unwind(AssertUnwindSafe(|| listing(&envs[w].new_read_txn().unwrap(), &pool)));
                            let mut v = seen.lock().unwrap();
                            match r {
                                Ok(log) => v.push(J::O(vec![
                                    ("e", s("mid")),
                                    ("log", log),
                                    ("bus", J::L(envs.iter().map(|e| n(bus(e))).collect())),
                                    ("w", J::L((1..=envs.len()).map(|e| n(e)).collect())),
                                ])),
                                Err(_) => v.push(J::O(vec![("e", s("crash")), ("r", n(0))])),
                            }
                            step += 1;
                            if !rd.is_empty() && step % 3 == 1 {
                                let (i, r) = &rd[pick as usize % rd.len()];
                                let j = look("look", *i, unsafe { &*r.0 }, &pool, &mut Rng::new(pick + step));
                                v.push(j);
                            }
                        })));
                    }
                    let r = b.save(&envs[w], &pool);
                    sys::set_hook(None);
                    let fired = sys::control(|c| {
                        c.record = false;
                        c.fault.take();
                        fault.map(|f| c.step > f.0).unwrap_or(false)
                    });
                    h.ev.append(&mut seen.lock().unwrap());
                    let j = b.j(w + 1, now, fired as i64, r, bus(&envs[w]));
                    h.ev.push(j);
                    if g.chance(70) {
                        h.busy("look");
                        let j = look("fresh", 0, &envs[g.below(nw)].new_read_txn().unwrap(), &pool, g);
                        h.ev.push(j);
                    }
                }
            }
        }
        for (i, r) in &readers {
            h.busy("look");
            let j = look("look", *i, r, &pool, g);
            h.ev.push(j);
        }
        readers.clear();
        h.busy("look");
        let j = look("fresh", 0, &envs[0].new_read_txn().unwrap(), &pool, g);
        h.ev.push(j);
        unsafe { drop(Box::from_raw(envs as *const [BTreeEnv] as *mut [BTreeEnv])) };
    }
    h.done();
}
/// Writers and a reader at the same time.
fn together(g: &mut Rng, id: usize) {
    let pool = Arc::new(Pool::gen(g, 10));
    let mut h = Hist { ev: vec![], pool: pool.clone(), id };
    let dir = Dir::new();
    let now = 1000;
    CLOCK.store(now, SeqCst);
    let mut envs = vec![];
    for w in 0..3 {
        match h.open(w + 1, &dir.0, false, now) {
            Some(e) => envs.push(e),
            None => return h.done(),
        }
    }
    h.busy("saves side by side");
    let mut hs = vec![];
    for (w, e) in envs.iter().enumerate() {
        let (e, pool) = (e.clone(), pool.clone());
        let mut g = Rng::new(g.next());
        hs.push(std::thread::spawn(move || {
            (0..6)
                .map(|_| {
                    let mut b = Batch::gen(&mut g, &pool);
                    b.via = *g.pick(&["ptr", "dyn", "parts"]);
                    let r = b.save(&e, &pool);
                    (r.1, r.2, b.j(w + 1, 1000, 0, r.clone(), -1))
                })
                .collect::<Vec<_>>()
        }));
    }
    let (e, p2) = (envs[0].clone(), pool.clone());
    let mut g2 = Rng::new(g.next());
    let reader = std::thread::spawn(move || {
        let mut r = e.new_read_txn().unwrap();
        (0..12)
            .map(|_| {
                r.refresh();
                std::thread::yield_now();
                look("snap", 0, &r, &p2, &mut g2)
            })
            .collect::<Vec<_>>()
    });
    let mut all: Vec<(Stamp, Stamp, J)> = vec![];
    for x in hs {
        all.extend(x.join().unwrap());
    }
    let snaps = reader.join().unwrap();
    // those that stored something, by the stamps they were given; then those that did not
    all.sort_by_key(|(a, b, _)| (a == b, a.get()));
    h.ev.extend(all.into_iter().map(|x| x.2));
    h.ev.extend(snaps);
    let j = look("fresh", 0, &envs[1].new_read_txn().unwrap(), &pool, g);
    h.ev.push(j);
    h.done();
}
pub fn store(g: &mut Rng, count: usize) {
    for id in 0..count {
        if id % 8 == 7 {
            together(g, id)
        } else {
            sequential(g, id)
        }
    }
    CLOCK.store(0, SeqCst);
}
