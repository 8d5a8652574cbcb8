//! Predicates: sets of tests on one number, whole queries, their text and what they accept.
use crate::gen::Rng;
use crate::pkt::{header, pubkey, Fields};
use crate::rec::*;
use crate::space::{list, valid_comps};
use linkspace_core::eval::CORE_SCOPE;
use linkspace_core::predicate::exprs::ExtPredicate;
use linkspace_core::prelude::Query;
use linkspace_core::predicate::predicate_type::PredicateType;
use linkspace_core::predicate::{TestOp, TestSet, UInt};
use linkspace_pkt::netpkt::reroute::RecvPkt;
use linkspace_pkt::*;

// ------------------------------------------------------------------ one number
const OPS: [u8; 6] = *b"?=<>01";
pub trait Num: UInt {
    fn of(b: &[u8]) -> Self;
}
macro_rules! num {
    ($($t:ident),*) => {$(impl Num for $t { fn of(b: &[u8]) -> $t { $t::from_be_bytes(b.try_into().unwrap()) } })*};
}
num!(u8, u16, u32, u64, u128);
impl Num for U256 {
    fn of(b: &[u8]) -> U256 {
        U256::try_from_be_slice(b).unwrap()
    }
}
fn opt<V: UInt>(v: Option<V>) -> J {
    v.map(|v| b(v.to_be_vec())).unwrap_or(J::L(vec![]))
}
fn flag(x: bool) -> J {
    J::N(x as i64)
}
/// the numbers from v on, without the largest: what the iterator does there (it repeats) is of no use to anyone
fn before_max<U: Num>(v: U) -> impl Iterator<Item = U> {
    std::iter::successors(Some(v), |v| v.inc()).take_while(|v| *v != U::MAX)
}
type Rule = (u8, Vec<u8>);
fn set<U: Num>(w: usize, rules: &[Rule], probes: &[Vec<u8>], short: bool) {
    let jr = J::L(rules.iter().map(|(o, v)| J::O(vec![("op", J::N(*o as i64)), ("v", b(v))])).collect());
    call("set", vec![("w", J::N(w as i64)), ("rules", jr), ("probes", list(probes))], || {
        let mut t = TestSet::<U>::DEFAULT;
        let mut added = vec![];
        for (o, v) in rules {
            let (o, v) = (TestOp::from_byte(*o).unwrap(), U::of(v));
            // a set is only asked about when its masks have a value in common
            let mut mask = t.mask;
            mask.add(o, v);
            let ok = mask.has_any() && t.try_add(o, v).is_ok();
            added.push(flag(ok));
            if !ok {
                return Ans("ok", J::L(added), J::L(vec![]));
            }
        }
        let mut again = TestSet::<U>::DEFAULT;
        for (o, v) in t.rules() {
            again.add(o, v);
        }
        let ans = probes
            .iter()
            .map(|p| {
                let v = U::of(p);
                let i = t.info(v);
                // members from there on, and which of the next few are members
                let en: Vec<J> = if short { t.enumerate(v).take(3).map(|v| b(v.to_be_vec())).collect() } else { vec![] };
                let mut it = t.iter(v);
                let next: Vec<J> = if short { before_max(v).take(4).map_while(|_| it.next()).map(flag).collect() } else { vec![] };
                J::O(vec![
                    ("t", flag(t.test(v))),
                    ("a", flag(again.test(v))),
                    ("in", flag(i.in_set)),
                    ("val", opt(i.val)),
                    ("en", J::L(en)),
                    ("it", J::L(next)),
                ])
            })
            .collect();
        Ans("ok", J::L(added), J::L(ans))
    })
}
fn sets(g: &mut Rng, n: usize) {
    // one byte: three rules from the corners, everything probed
    for _ in 0..n {
        let w = *g.pick(&[1, 1, 1, 2, 4, 8, 16, 32]);
        let base = g.exact(w);
        let val = |g: &mut Rng| -> Vec<u8> {
            match g.below(6) {
                0 => vec![0; w],
                1 => vec![255; w],
                2 => g.exact(w),
                _ => {
                    let mut v = base.clone();
                    let k = g.below(w);
                    v[k] = match g.below(4) {
                        0 => v[k].wrapping_add(1),
                        1 => v[k].wrapping_sub(1),
                        2 => v[k] ^ 1 << g.below(8),
                        _ => g.byte(),
                    };
                    v
                }
            }
        };
        let mut rules: Vec<Rule> = (0..1 + g.below(4)).map(|_| (*g.pick(&OPS), val(g))).collect();
        if g.chance(40) {
            // masks that leave something
            rules.retain(|r| !b"01=".contains(&r.0));
            let (a, c) = (val(g), val(g));
            rules.push((b'0', a.iter().zip(&c).map(|(a, c)| a | c).collect()));
            rules.push((b'1', a.iter().zip(&c).map(|(a, c)| a & c).collect()));
        }
        let mut probes: Vec<Vec<u8>> = (0..8).map(|_| val(g)).collect();
        probes.extend([vec![0; w], vec![255; w]]);
        probes.extend(rules.iter().map(|r| r.1.clone()));
        if w == 1 {
            probes = (0..=255).step_by(1 + g.below(7)).map(|x| vec![x as u8]).collect();
        }
        match w {
            1 => set::<u8>(w, &rules, &probes, true),
            2 => set::<u16>(w, &rules, &probes, true),
            4 => set::<u32>(w, &rules, &probes, false),
            8 => set::<u64>(w, &rules, &probes, false),
            16 => set::<u128>(w, &rules, &probes, false),
            _ => set::<U256>(w, &rules, &probes, false),
        }
    }
}

// ------------------------------------------------------------------ whole queries
pub fn width(name: &str) -> usize {
    match name {
        "type" | "netflags" | "depth" => 1,
        "size" | "data_size" | "links_len" => 2,
        "hop" | "ubits0" | "ubits1" | "ubits2" | "ubits3" | "i" | "i_new" | "i_db" | "i_branch" => 4,
        "stamp" | "create" | "recv" => 8,
        "domain" => 16,
        "group" | "pubkey" | "hash" => 32,
        _ => 0,
    }
}
pub const NAMES: [&str; 24] = [
    "hash", "group", "domain", "prefix", "spacename", "pubkey", "create", "depth", "links_len", "data_size", "recv", "i_branch", "i_db",
    "i_new", "i", "hop", "stamp", "ubits0", "ubits1", "ubits2", "ubits3", "type", "netflags", "size",
];
pub type Facts = Vec<(&'static str, Vec<u8>)>;
/// what can be asked of a packet; empty where it has no such field
pub fn facts(f: &Fields, h: &NetPktHeader, recv: u64, hash: LkHash, size: u16) -> Facts {
    let sp = f.kind == "link" || f.kind == "key";
    let on = |c: bool, v: &[u8]| if c { v.to_vec() } else { vec![] };
    let ty = match f.kind {
        "data" => 1,
        "link" => 3,
        _ => 7,
    };
    vec![
        ("hash", hash.0.to_vec()),
        ("group", on(sp, &f.group)),
        ("domain", on(sp, &f.domain)),
        ("pubkey", on(f.kind == "key", &pubkey(f.key))),
        ("create", on(sp, &f.stamp.to_be_bytes())),
        ("depth", on(sp, &[f.comps.len() as u8])),
        ("links_len", on(sp, &(f.links.len() as u16).to_be_bytes())),
        ("data_size", (f.data.len() as u16).to_be_bytes().to_vec()),
        ("recv", recv.to_be_bytes().to_vec()),
        ("i_branch", vec![]),
        ("i_db", vec![]),
        ("i_new", vec![0; 4]),
        ("i", vec![0; 4]),
        ("hop", h.hop.0.to_vec()),
        ("stamp", h.stamp.0.to_vec()),
        ("ubits0", h.ubits[0].0.to_vec()),
        ("ubits1", h.ubits[1].0.to_vec()),
        ("ubits2", h.ubits[2].0.to_vec()),
        ("ubits3", h.ubits[3].0.to_vec()),
        ("type", vec![ty]),
        ("netflags", vec![h.flags.bits()]),
        ("size", size.to_be_bytes().to_vec()),
    ]
}
pub fn jfacts(f: &Fields, x: &Facts) -> J {
    let sp = f.kind == "link" || f.kind == "key";
    let mut v: Vec<(&'static str, J)> = x.iter().map(|(k, v)| (*k, b(v))).collect();
    v.push(("spaced", J::N(sp as i64)));
    v.push(("space", if sp { list(&f.comps) } else { J::L(vec![]) }));
    J::O(v)
}
#[derive(Clone)]
pub struct Stmt {
    pub name: String,
    pub op: &'static str,
    /// bytes, or components with a slash before each
    pub comps: Option<Vec<Vec<u8>>>,
    pub val: Vec<u8>,
    /// 0: as a line of text, raw bytes; 1: text, with an expression where there is one; 2: pushed
    pub how: usize,
}
impl Stmt {
    pub fn text(&self) -> Vec<u8> {
        let mut t = format!("{}:{}:", self.name, self.op).into_bytes();
        let raw = |b: &[u8]| abe::abtxt::as_abtxt(b).as_bytes().to_vec();
        match &self.comps {
            Some(c) => c.iter().for_each(|c| {
                t.push(b'/');
                t.extend(raw(c))
            }),
            None if self.how == 1 => t.extend(match self.val.len() {
                1 => format!("[u8:{}]", self.val[0]).into_bytes(),
                2 => format!("[u16:{}]", u16::of(&self.val)).into_bytes(),
                4 => format!("[u32:{}]", u32::of(&self.val)).into_bytes(),
                8 => format!("[u64:{}]", u64::of(&self.val)).into_bytes(),
                32 => format!("[b:{}]", B64(<[u8; 32]>::try_from(self.val.as_slice()).unwrap())).into_bytes(),
                _ => raw(&self.val),
            }),
            None => t.extend(raw(&self.val)),
        }
        t
    }
    pub fn j(&self) -> J {
        J::O(vec![
            ("name", b(&self.name)),
            ("op", s(self.op)),
            ("sp", J::N(self.comps.is_some() as i64)),
            ("val", b(&self.val)),
            ("comps", self.comps.as_ref().map(|c| list(c)).unwrap_or(J::L(vec![]))),
            ("how", J::N(self.how as i64)),
        ])
    }
    pub fn add(&self, q: &mut Query) -> bool {
        if self.how == 2 && self.comps.is_none() {
            // as lk_query_push does
            let (Ok(kind), Ok(op)) = (self.name.parse(), self.op.parse()) else { return false };
            return q.predicates.add_ext_predicate(ExtPredicate { kind, op, val: self.val.clone().into() }).is_ok();
        }
        let mut n = q.clone();
        let ok = n.parse(&self.text(), &CORE_SCOPE).is_ok();
        if ok {
            *q = n;
        }
        ok
    }
}
fn enc(c: &[Vec<u8>]) -> Vec<u8> {
    c.iter().flat_map(|c| std::iter::once(c.len() as u8).chain(c.iter().copied())).collect()
}
pub struct Sample {
    pub f: Fields,
    pub h: NetPktHeader,
    pub recv: u64,
    pub pkt: NetPktBox,
    pub facts: Facts,
}
pub fn sample(g: &mut Rng, base: &Fields) -> Sample {
    let mut f = if g.chance(30) { Fields::gen(g) } else { base.clone() };
    if f.kind == "error" {
        f.kind = "data"
    }
    if f.data.len() > 40 {
        f.data.truncate(9);
    }
    match g.below(7) {
        0 => f.kind = *g.pick(&["data", "link", "key"]),
        1 => f.stamp = g.next() >> g.below(64),
        2 => {
            f.comps.pop();
        }
        3 => f.comps = valid_comps(g),
        4 => f.links.truncate(1),
        5 => f.domain[15] ^= 1,
        _ => f.key = g.below(3) as u8,
    }
    let h = header(g);
    let recv = *g.pick(&[0, 1, 1 << 40, (1 << 40) + 1, u64::MAX]);
    let pkt = f.boxed(h);
    let facts = facts(&f, &h, recv, pkt.hash(), pkt.size());
    Sample { f, h, recv, pkt, facts }
}
const EXT: [&str; 10] = ["?", "=", "<", ">", "0", "1", ">=", "<=", "=*", "*="];
/// a statement about something like the given packets
pub fn stmt(g: &mut Rng, ps: &[Sample]) -> Stmt {
    let p = g.pick(ps);
    let name = *g.pick(&NAMES);
    stmt_on(g, p, name)
}
pub fn stmt_on(g: &mut Rng, p: &Sample, name: &'static str) -> Stmt {
    let how = g.below(3);
    if name == "prefix" || name == "spacename" {
        let mut c = p.f.comps.clone();
        match g.below(5) {
            0 => c.truncate(g.below(c.len() + 1)),
            1 => c = valid_comps(g),
            2 => {
                if let Some(l) = c.last_mut() {
                    l.pop();
                }
                c.retain(|x| !x.is_empty());
            }
            _ => {}
        }
        let op = if g.chance(90) { "=" } else { *g.pick(&EXT) };
        let name = name.to_string();
        return if g.chance(60) { Stmt { name, op, comps: Some(c), val: vec![], how: 0 } } else { Stmt { name, op, comps: None, val: enc(&c), how: if how == 1 { 0 } else { how } } };
    }
    let w = width(name);
    let mut val = p.facts.iter().find(|x| x.0 == name).unwrap().1.clone();
    if val.is_empty() {
        val = g.exact(w);
    }
    match g.below(8) {
        0 => {
            let k = g.below(w);
            val[k] = val[k].wrapping_add(1)
        }
        1 => {
            let k = w - 1;
            val[k] = val[k].wrapping_sub(1)
        }
        2 => {
            let k = g.below(w);
            val[k] ^= 1 << g.below(8)
        }
        3 => val = g.exact(w),
        4 => val = if g.chance(50) { vec![0; w] } else { vec![255; w] },
        _ => {}
    }
    let op = *g.pick(&EXT);
    if op == "=*" {
        val.truncate(g.below(w + 1));
    } else if op == "*=" {
        val.drain(..g.below(w + 1));
    } else if g.chance(8) {
        match g.below(4) {
            0 => val.truncate(g.below(w + 1)),
            1 => val = vec![255; g.below(w + 1)],
            2 => val.push(g.byte()),
            _ => val = B64(g.exact(32)).to_string().into_bytes(),
        }
    }
    Stmt { name: name.to_string(), op, comps: None, val, how }
}
fn limits(q: &Query, probes: &[u32]) -> J {
    let t = q.predicates.state;
    J::L([t.i_query, t.i_new, t.i_db, t.i_branch].iter().map(|l| J::L(probes.iter().map(|p| flag(l.test(*p))).collect())).collect())
}
fn verdicts(q: &Query, ps: &[Sample]) -> J {
    J::L(
        ps.iter()
            .map(|p| match q.clone().compile() {
                Err(_) => J::N(2),
                Ok(mut t) => flag(t(&RecvPkt { recv: Stamp::new(p.recv), pkt: &p.pkt }).0),
            })
            .collect(),
    )
}
fn reread(t: &str) -> Option<Query> {
    let mut q = Query::DEFAULT;
    q.parse(t.as_bytes(), &CORE_SCOPE).ok()?;
    Some(q)
}
fn say(q: Option<Query>, ps: &[Sample], lims: &[u32]) -> J {
    match q {
        None => J::O(vec![("ok", J::N(0)), ("v", J::L(vec![])), ("lim", J::L(vec![]))]),
        Some(q) => J::O(vec![("ok", J::N(1)), ("v", verdicts(&q, ps)), ("lim", limits(&q, lims))]),
    }
}
fn query(g: &mut Rng) {
    let kind = *g.pick(&["link", "key"]);
    let mut base = Fields::of(g, kind);
    if base.data.len() > 40 {
        base.data.truncate(9);
    }
    let ps: Vec<Sample> = (0..4).map(|_| sample(g, &base)).collect();
    let k = 1 + g.below(4);
    let mut st: Vec<Stmt> = vec![];
    while st.len() < k {
        let s = if !st.is_empty() && g.chance(40) {
            // more about the same
            let name = *NAMES.iter().find(|n| **n == st[0].name).unwrap_or(&"type");
            let name = if name == "prefix" { *g.pick(&["prefix", "spacename", "depth"]) } else { name };
            let p = g.pick(&ps);
            stmt_on(g, p, name)
        } else {
            stmt(g, &ps)
        };
        st.push(s);
    }
    if g.chance(5) {
        let n = g.below(k);
        st[n].name = g.pick(&["data", "signature", "rspacename", "comp0", "comp7", "nosuch", ""]).to_string();
        st[n].how = 2;
        if st[n].name.is_empty() {
            // a line that starts with a delimiter is an option
            st[n].comps = None;
        }
    }
    if g.chance(3) {
        let n = g.below(k);
        st[n].op = *g.pick(&["==", "!", "", "=>"]);
    }
    let lims = [0u32, 1, 2, 255, 65536, u32::MAX];
    let jl = list(&lims.iter().map(|l| l.to_be_bytes().to_vec()).collect::<Vec<_>>());
    let jp = J::L(ps.iter().map(|p| jfacts(&p.f, &p.facts)).collect());
    let js = J::L(st.iter().map(|s| s.j()).collect());
    call("query", vec![("stmts", js), ("pkts", jp), ("lims", jl)], || {
        let mut q = Query::DEFAULT;
        let mut added = vec![];
        for s in &st {
            let ok = s.add(&mut q);
            added.push(flag(ok));
            if !ok {
                return Ans("ok", J::L(added), J::L(vec![]));
            }
        }
        let all = vec![
            say(Some(q.clone()), &ps, &lims),
            say(reread(&q.to_str(true)), &ps, &lims),
            say(reread(&q.to_str(false)), &ps, &lims),
            say(reread(&q.to_string()), &ps, &lims),
            say(reread(&q.predicates.to_str(true)), &ps, &lims),
        ];
        Ans("ok", J::L(added), J::L(all))
    })
}
/// options live beside the predicates
fn options(g: &mut Rng) {
    let known = ["mode", "qid", "follow", "notify-close"];
    let mut opts: Vec<(Vec<u8>, Vec<Vec<u8>>, usize)> = vec![];
    for _ in 0..1 + g.below(4) {
        let name = if g.chance(70) { g.pick(&known).as_bytes().to_vec() } else { g.bytes(3) };
        let vals = (0..g.below(3)).map(|_| g.bytes(5)).collect();
        opts.push((name, vals, g.below(3)));
    }
    let jo = J::L(opts.iter().map(|(n, v, h)| J::O(vec![("name", b(n)), ("vals", list(v)), ("how", J::N(*h as i64))])).collect());
    let mut names: Vec<Vec<u8>> = known.iter().map(|k| k.as_bytes().to_vec()).collect();
    names.extend(opts.iter().map(|o| o.0.clone()));
    let rule = g.chance(50);
    call("options", vec![("opts", jo), ("names", list(&names)), ("rule", flag(rule))], || {
        let mut q = Query::DEFAULT;
        if rule {
            assert!(q.parse(b"domain:=:a\nhop:<:[u32:9]", &CORE_SCOPE).is_ok());
        }
        for (n, v, h) in &opts {
            let vals: Vec<&[u8]> = v.iter().map(|v| v.as_slice()).collect();
            match std::str::from_utf8(n) {
                Ok(n) if *h == 0 => q.add_option(n, &vals),
                _ => {
                    let mut t = vec![b':'];
                    t.extend(abe::abtxt::as_abtxt(n).as_bytes());
                    for v in v {
                        t.push(b':');
                        t.extend(abe::abtxt::as_abtxt(v).as_bytes());
                    }
                    if q.parse(&t, &CORE_SCOPE).is_err() {
                        return err();
                    }
                }
            }
        }
        let get = |q: &Query| {
            J::L(
                names
                    .iter()
                    .map(|n| match q.get_option(n) {
                        Err(_) => J::O(vec![("k", s("many")), ("v", b([]))]),
                        Ok(None) => J::O(vec![("k", s("none")), ("v", b([]))]),
                        Ok(Some(None)) => J::O(vec![("k", s("bare")), ("v", b([]))]),
                        Ok(Some(Some(v))) => J::O(vec![("k", s("one")), ("v", b(v))]),
                    })
                    .collect(),
            )
        };
        let mut l = vec![get(&q)];
        for t in [q.to_str(true), q.to_str(false), q.to_string()] {
            match reread(&t) {
                None => return err(),
                Some(r) => {
                    l.push(get(&r));
                    if r.predicates.to_str(true) != q.predicates.to_str(true) {
                        return err();
                    }
                }
            }
        }
        ok_l(J::L(l))
    })
}
/// what the documentation gives as examples
fn examples() {
    for p in PredicateType::ALL {
        let i = p.info();
        let t = i.example.replace("\\[", "[").replace("\\]", "]").replace("[@:me:local]", "[@:none]");
        for op in ["=", "?"] {
            call("example", vec![("name", s(i.name)), ("text", s(&t)), ("opn", s(op))], || {
                let mut q = Query::DEFAULT;
                match q.parse(format!("{}:{op}:{t}", i.name).as_bytes(), &CORE_SCOPE) {
                    Ok(()) => ok(b([])),
                    Err(_) => err(),
                }
            })
        }
    }
}
pub fn q02(g: &mut Rng, n: usize) {
    examples();
    sets(g, n / 3);
    for _ in 0..n / 2 {
        query(g);
    }
    for _ in 0..n / 6 {
        options(g);
    }
}
