//! Reading a database with queries: which packets, in which order, how many.
use crate::gen::Rng;
use crate::pkt::{pubkey, Fields};
use crate::query::{facts, jfacts, stmt_on, Sample, Stmt};
use crate::rec::*;
use crate::space::Comps;
use crate::store::{open, Dir, CLOCK};
use linkspace_common::prelude::{Query, RootedSpaceBuf};
use linkspace_common::runtime::Linkspace;
use linkspace_core::env::lmdb::BTreeEnv;
use linkspace_core::env::query_mode::Mode;
use linkspace_pkt::*;
use std::sync::atomic::Ordering::SeqCst;

const MODES: [&str; 7] = ["", "tree-asc", "tree-desc", "log-asc", "log-desc", "hash-asc", "hash-desc"];
fn u32b(x: u32) -> Vec<u8> {
    x.to_be_bytes().to_vec()
}
fn n(x: impl TryInto<i64>) -> J {
    J::N(x.try_into().unwrap_or(-2).clamp(-2_000_000_000, 2_000_000_000))
}
/// spaces in which one is the start of another and the order of bytes is not the one of depths
fn spaces(g: &mut Rng) -> Vec<Comps> {
    let c = |s: &str| -> Comps { s.split('/').filter(|x| !x.is_empty()).map(|x| x.as_bytes().to_vec()).collect() };
    let mut l: Vec<Comps> = ["", "a", "b", "a/a", "a/b", "b/a", "aa", "a/b/c", "a/b/a", "zz/y", "a/a/a/a/a/a/a/a"].iter().map(|s| c(s)).collect();
    l.push(vec![vec![255; 20]]);
    l.push(vec![vec![255; 20], vec![0; 3]]);
    while l.len() > 6 {
        let k = g.below(l.len());
        l.remove(k);
    }
    l
}
pub struct World {
    pub ps: Vec<Sample>,
    pub env: BTreeEnv,
    pub dir: Dir,
}
pub fn packet(g: &mut Rng, f: Fields) -> (Fields, NetPktHeader, NetPktBox) {
    let mut h = NetPktHeader::EMPTY;
    h.hop = byte_fmt::endian_types::U32::new(g.below(3) as u32);
    h.stamp = Stamp::new(g.below(3) as u64);
    h.ubits[g.below(4)] = byte_fmt::endian_types::U32::new(g.below(2) as u32);
    let p = f.boxed(h);
    (f, h, p)
}
pub struct Parts {
    pub groups: Vec<[u8; 32]>,
    pub domains: Vec<[u8; 16]>,
    pub spaces: Vec<Comps>,
    pub stamps: Vec<u64>,
    pub kinds: Vec<&'static str>,
    pub keys: usize,
}
impl Parts {
    pub fn gen(g: &mut Rng) -> Parts {
        let g0: [u8; 32] = g.exact(32).try_into().unwrap();
        let mut g1 = g0;
        g1[*g.pick(&[0, 31])] ^= 1;
        let d0: [u8; 16] = g.exact(16).try_into().unwrap();
        let mut d1 = d0;
        d1[*g.pick(&[0, 15])] ^= 1;
        let base = *g.pick(&[0, 1000, u64::MAX - 3]);
        Parts {
            groups: vec![g0, g1, *g.pick(&[[0; 32], [255; 32]])],
            domains: vec![d0, d1, *g.pick(&[[0; 16], [255; 16]])],
            spaces: spaces(g),
            stamps: (0..4).map(|k| base + k).collect(),
            kinds: g.pick(&[vec!["key", "link", "data"], vec!["key"], vec!["link"], vec!["key", "link"]]).clone(),
            keys: 1 + g.below(4),
        }
    }
    /// few values, so that packets share what they are sorted by
    pub fn fields(&self, g: &mut Rng) -> Fields {
        let mut f = Fields::of(g, "link");
        let few = |g: &mut Rng, n: usize| if g.chance(65) { 0 } else { g.below(n) };
        f.kind = self.kinds[few(g, self.kinds.len())];
        f.group = self.groups[few(g, 3)];
        f.domain = self.domains[few(g, 3)];
        f.comps = self.spaces[g.below(self.spaces.len())].clone();
        if g.chance(40) {
            f.comps = self.spaces[0].clone();
        }
        f.stamp = *g.pick(&self.stamps);
        f.key = g.below(self.keys) as u8;
        let k = g.below(3);
        f.data = g.exact(k);
        let k = g.below(3);
        f.links = (0..k).map(|_| ([1; 16], g.exact(32).try_into().unwrap())).collect();
        f
    }
}
impl World {
    pub fn gen(g: &mut Rng) -> World {
        let parts = Parts::gen(g);
        let dir = Dir::new();
        std::env::set_var("LK_FORCE_EMPTY", "1");
        let mut now = 5_000_000u64;
        CLOCK.store(now, SeqCst);
        let env = open(&dir.0).expect("a fresh directory opens");
        let mut ps: Vec<Sample> = vec![];
        for _ in 0..g.below(15) {
            let f = parts.fields(g);
            let (f, h, pkt) = packet(g, f);
            now += 1 + g.below(3) as u64;
            CLOCK.store(now, SeqCst);
            if env.save_dyn_one(&pkt).unwrap().is_written() {
                let facts = facts(&f, &h, now, pkt.hash(), pkt.size());
                ps.push(Sample { f, h, recv: now, pkt, facts });
            }
        }
        World { ps, env, dir }
    }
    pub fn id(&self, p: &dyn NetPkt) -> i64 {
        let raw = p.byte_segments().to_bytes().to_vec();
        self.ps.iter().position(|s| s.pkt.hash() == p.hash() && s.pkt.as_netpkt_bytes() == raw).map(|i| i as i64).unwrap_or(-1)
    }
}
const TREE: [&str; 8] = ["group", "domain", "prefix", "spacename", "pubkey", "create", "depth", "prefix"];
const REST: [&str; 12] = ["hash", "recv", "type", "data_size", "links_len", "size", "hop", "stamp", "ubits0", "ubits1", "hash", "recv"];
const LIMITS: [&str; 4] = ["i", "i_db", "i_branch", "i_new"];
pub fn limit(g: &mut Rng, name: &str) -> Stmt {
    let op = *g.pick(&["=", "<", ">", "<", "0", "1", ">=", "<="]);
    let v = match (op, g.below(8)) {
        ("0", 0..=5) => u32::MAX - (1 << g.below(2)),
        ("0", _) => *g.pick(&[2, 1, 0]),
        ("1", _) => 1 << g.below(2),
        (_, 0) => u32::MAX,
        _ => g.below(5) as u32,
    };
    Stmt { name: name.into(), op, comps: None, val: u32b(v), how: g.below(3) }
}
fn stmts(g: &mut Rng, w: &World, limits: bool) -> Vec<Stmt> {
    let mut l = vec![];
    if !w.ps.is_empty() {
        for _ in 0..g.below(if limits { 3 } else { 4 }) {
            let name = *if g.chance(60) { g.pick(&TREE) } else { g.pick(&REST) };
            let p = g.pick(&w.ps);
            l.push(stmt_on(g, p, name));
        }
    }
    for _ in 0..if limits { 1 + g.below(3) } else { g.chance(15) as usize } {
        let name = *g.pick(&LIMITS);
        l.push(limit(g, name));
    }
    l
}
fn run(g: &mut Rng, w: &World, limits: bool) {
    let mode = *g.pick(&MODES);
    let mut q = Query::DEFAULT;
    let mut st: Vec<Stmt> = vec![];
    let how = *g.pick(&["txn", "txn", "txn", "all", "all", "get", "hash", "dgsk"]);
    let eq = |name: &str, val: &[u8]| Stmt { name: name.into(), op: "=", comps: None, val: val.to_vec(), how: 2 };
    let mut mode = mode;
    match how {
        "hash" => {
            // made by the library itself
            let h = if w.ps.is_empty() || g.chance(20) { B64([3; 32]) } else { g.pick(&w.ps).pkt.hash() };
            q = Query::hash_eq(h);
            st = vec![eq("hash", &h.0), eq("i", &[0; 4])];
            mode = "hash-asc";
        }
        "dgsk" => {
            let Some(p) = w.ps.iter().find(|p| p.f.kind == "key") else { return };
            let (d, gr, k) = (p.f.domain, p.f.group, pubkey(p.f.key));
            let mut c = p.f.comps.clone();
            c.truncate(g.below(c.len() + 1));
            let s: Vec<&[u8]> = c.iter().map(|c| c.as_slice()).collect();
            q = Query::dgsk(AB(d), B64(gr), RootedSpaceBuf::try_from_iter(s).unwrap(), B64(k));
            st = vec![eq("domain", &d), eq("group", &gr), eq("pubkey", &k), Stmt { name: "prefix".into(), op: "=", comps: Some(c), val: vec![], how: 0 }];
        }
        _ => {}
    }
    for s in stmts(g, w, limits) {
        let mut t = q.clone();
        if s.add(&mut t) {
            q = t;
            st.push(s);
        }
    }
    if !mode.is_empty() && how != "hash" {
        if g.chance(30) {
            // the last one counts
            q.add_option("mode", &[g.pick(&MODES[1..]).as_bytes()]);
        }
        q.add_option("mode", &[mode.as_bytes()]);
    }
    let start = if how == "txn" && g.chance(30) { g.below(4) as u32 } else { 0 };
    let brk = if how == "all" && g.chance(60) { 1 + g.below(4) } else { 0 };
    let jp = J::L(w.ps.iter().map(|p| jfacts(&p.f, &p.facts)).collect());
    let js = J::L(st.iter().map(|s| s.j()).collect());
    let how = match how {
        "hash" => *g.pick(&["txn", "all", "get"]),
        "dgsk" => "txn",
        h => h,
    };
    let brk = if how == "all" { brk } else { 0 };
    call("db", vec![("what", s(how)), ("mode", s(mode)), ("stmts", js), ("pkts", jp), ("start", n(start)), ("brk", n(brk))], || {
        if how == "txn" {
            let r = w.env.new_read_txn().unwrap();
            let mode: Mode = q.get_mode().unwrap();
            let mut c = start;
            let mut l = vec![];
            for p in r.query(mode, &q.predicates, &mut c).unwrap() {
                // the stamp it is given out with is the one it was received at
                let i = w.id(&p.pkt);
                l.push(n(if i >= 0 && w.ps[i as usize].recv == p.recv.get() { i } else { -3 }));
                assert!(l.len() < 1000, "too many");
            }
            return Ans("ok", J::L(vec![n(0), n(c)]), J::L(l));
        }
        let lk: linkspace::Linkspace = Linkspace::new_opt_rt(w.env.clone(), Default::default()).into();
        let q: linkspace::Query = q.into();
        if how == "get" {
            let p = linkspace::runtime::lk_get(&lk, &q).unwrap();
            return Ans("ok", J::L(vec![n(0), n(0)]), J::L(p.iter().map(|p| n(w.id(p))).collect()));
        }
        let mut l = vec![];
        let r = linkspace::runtime::lk_get_all(&lk, &q, &mut |p| {
            l.push(n(w.id(p)));
            assert!(l.len() < 1000, "too many");
            l.len() == brk
        })
        .unwrap();
        Ans("ok", J::L(vec![n((r < 0) as i64), n(r.abs())]), J::L(l))
    })
}
/// packets by name
fn by_hash(g: &mut Rng, w: &World) {
    let want: Vec<i64> = (0..g.below(6)).map(|_| g.below(w.ps.len() + 1) as i64 - 1).collect();
    let brk = g.below(4);
    let hs: Vec<LkHash> = want.iter().map(|i| if *i < 0 { B64([9; 32]) } else { w.ps[*i as usize].pkt.hash() }).collect();
    call("hashes", vec![("want", J::L(want.iter().map(|x| n(*x)).collect())), ("brk", n(brk))], || {
        let lk: linkspace::Linkspace = Linkspace::new_opt_rt(w.env.clone(), Default::default()).into();
        let mut l = vec![];
        let r = linkspace::runtime::lk_get_hashes(&lk, &hs, &mut |p| {
            l.push(n(w.id(p)));
            l.len() == brk
        })
        .unwrap();
        Ans("ok", J::L(vec![n((r < 0) as i64), n(r.abs())]), J::L(l))
    })
}
pub fn qdb(g: &mut Rng, count: usize, limits: bool) {
    let mut k = 0;
    while k < count {
        let w = World::gen(g);
        for _ in 0..10 {
            run(g, &w, limits);
            k += 1;
        }
        if !limits {
            by_hash(g, &w);
        }
        let _ = &w.dir;
    }
    CLOCK.store(0, SeqCst);
}
