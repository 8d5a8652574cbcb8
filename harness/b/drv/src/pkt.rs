//! Packets: building, reading, copies between representations, order.
use crate::gen::Rng;
use crate::rec::*;
use crate::space::{list, root, valid_comps, Comps};
use linkspace_cryptography::{blake3_hash, SigningKey};
use linkspace_pkt::netpkt::cmp::PktCmp;
use linkspace_pkt::netpkt::reroute::*;
use linkspace_pkt::netpkt::tree_order::*;
use linkspace_pkt::read::read_pkt;
use linkspace_pkt::*;

#[derive(Clone)]
pub struct Fields {
    pub kind: &'static str,
    pub data: Vec<u8>,
    pub group: [u8; 32],
    pub domain: [u8; 16],
    pub stamp: u64,
    pub links: Vec<([u8; 16], [u8; 32])>,
    pub comps: Comps,
    pub key: u8,
}
pub fn key(k: u8) -> SigningKey {
    let mut b = [0; 32];
    b[31] = k + 1;
    SigningKey::try_from(b).unwrap()
}
pub fn pubkey(k: u8) -> [u8; 32] {
    key(k).pubkey().0
}
pub fn jlinks(l: &[([u8; 16], [u8; 32])]) -> J {
    J::L(l.iter().map(|(t, p)| J::O(vec![("tag", b(t)), ("ptr", b(p))])).collect())
}
impl Fields {
    pub fn gen(g: &mut Rng) -> Fields {
        let kind = *g.pick(&["data", "link", "link", "key", "key", "error"]);
        Fields::of(g, kind)
    }
    pub fn of(g: &mut Rng, kind: &'static str) -> Fields {
        let arr = |g: &mut Rng| -> Vec<u8> {
            match g.below(4) {
                0 => vec![0; 32],
                1 => vec![1; 32],
                _ => g.exact(32),
            }
        };
        let n = match g.below(10) {
            0 => 0,
            1 => 300 + g.below(40),
            2 => 7 + g.below(3),
            _ => g.below(30),
        };
        let nl = match g.below(10) {
            0..=3 => 0,
            4 => 3 + g.below(8),
            _ => 1 + g.below(2),
        };
        Fields {
            kind,
            data: g.exact(n),
            group: arr(g).try_into().unwrap(),
            domain: arr(g)[..16].try_into().unwrap(),
            stamp: match g.below(5) {
                0 => 0,
                1 => u64::MAX,
                2 => g.below(3) as u64,
                _ => g.next() >> g.below(64),
            },
            links: (0..nl).map(|_| (g.exact(16).try_into().unwrap(), arr(g).try_into().unwrap())).collect(),
            comps: if g.chance(30) { vec![] } else { valid_comps(g) },
            key: g.below(3) as u8,
        }
    }
    pub fn j(&self) -> J {
        J::O(vec![
            ("kind", s(self.kind)),
            ("data", b(&self.data)),
            ("group", b(self.group)),
            ("domain", b(self.domain)),
            ("stamp", b(self.stamp.to_be_bytes())),
            ("links", jlinks(&self.links)),
            ("space", list(&self.comps)),
            ("pubkey", b(if self.kind == "key" { pubkey(self.key) } else { [0; 32] })),
        ])
    }
    pub fn parts<R>(&self, h: NetPktHeader, f: impl FnOnce(Result<NetPktParts, Error>) -> R) -> R {
        let rs = RootedSpaceBuf::from_unchecked(root(&self.comps));
        let links: Vec<Link> = self.links.iter().map(|(t, p)| Link { tag: AB(*t), ptr: B64(*p) }).collect();
        let (g, d, st) = (B64(self.group), AB(self.domain), Stamp::new(self.stamp));
        f(match self.kind {
            "data" => try_datapoint_ref(&self.data, h.into()),
            "error" => Ok(errorpoint(&self.data, h)),
            "link" => try_point(g, d, &rs, &links, &self.data, st, None, h),
            _ => try_point(g, d, &rs, &links, &self.data, st, Some(&key(self.key)), h),
        })
    }
    pub fn boxed(&self, h: NetPktHeader) -> NetPktBox {
        self.parts(h, |p| p.unwrap().as_netbox())
    }
    /// something close to it
    fn near(&self, g: &mut Rng) -> Fields {
        let mut f = self.clone();
        match g.below(9) {
            0 => f.data = g.exact(self.data.len()),
            1 => f.stamp = f.stamp.wrapping_add(1),
            2 => f.group[g.below(32)] ^= 1,
            3 => f.domain[g.below(16)] ^= 128,
            4 => f.comps = valid_comps(g),
            5 => f.key = (f.key + 1) % 3,
            6 => f.kind = if f.kind == "key" { "link" } else { "key" },
            7 => {
                f.comps.pop();
            }
            _ => f.data.push(0),
        }
        f
    }
}
pub fn header(g: &mut Rng) -> NetPktHeader {
    let mut h = NetPktHeader::EMPTY;
    if g.chance(80) {
        h.flags = NetFlags::from_bits_retain(g.byte());
        h.hop = byte_fmt::endian_types::U32::new(*g.pick(&[0, 1, 7, u32::MAX - 1, u32::MAX]));
        h.stamp = Stamp::new(g.next());
        for k in 0..4 {
            h.ubits[k] = byte_fmt::endian_types::U32::new(g.next() as u32);
        }
        if g.chance(20) {
            h.prefix = AB(g.exact(3).try_into().unwrap());
        }
    }
    h
}
/// Everything a packet says about itself.
fn about(p: &dyn NetPkt) -> J {
    let t = p.as_point();
    let kind = match t.parts().fields {
        PointFields::DataPoint(_) => "data",
        PointFields::LinkPoint(_) => "link",
        PointFields::KeyPoint(..) => "key",
        PointFields::Error(_) => "error",
        _ => "unknown",
    };
    let data = t.data().to_vec();
    assert_eq!(t.parts().data_ptr(), data);
    assert_eq!(t.is_datapoint(), kind == "data");
    assert_eq!(t.is_linkpoint(), kind == "link");
    assert_eq!(t.is_keypoint(), kind == "key");
    assert_eq!(t.group().copied(), t.linkpoint_header().map(|h| h.group));
    assert_eq!(t.links().is_some(), t.group().is_some());
    assert_eq!(t.get_spacename().space_bytes(), t.get_rooted_spacename().space().space_bytes());
    assert_eq!(t.check_private().is_err(), t.group() == Some(&PRIVATE));
    J::O(vec![
        ("kind", s(kind)),
        ("data", J::B(data)),
        ("group", b(t.get_group().0)),
        ("domain", b(t.get_domain().0)),
        ("stamp", b(t.get_create_stamp().0)),
        ("links", J::L(t.get_links().iter().map(|l| J::O(vec![("tag", b(l.tag.0)), ("ptr", b(l.ptr.0))])).collect())),
        ("space", list(&t.get_spacename().iter().collect::<Vec<_>>())),
        ("pubkey", b(t.get_pubkey().0)),
        ("depth", J::N(*t.get_depth() as i64)),
        ("sig", b(t.get_signature().0)),
        ("size", J::N(p.size() as i64)),
        ("pad", b(t.padding())),
    ])
}
fn all(p: &dyn NetPkt) -> Vec<u8> {
    let v = p.byte_segments().to_bytes().to_vec();
    assert_eq!(p.byte_segments().collect::<Vec<u8>>(), v);
    assert_eq!(p.byte_segments().len(), v.len());
    let mut w = vec![];
    p.byte_segments().write_into(&mut w).unwrap();
    assert_eq!(w, v);
    v
}
/// what hashing and signature checking say about the bytes, done apart from the packet code
fn facts(x: &[u8]) -> (J, J) {
    let mut h = J::B(vec![]);
    let mut sig = J::N(0);
    if x.len() >= 68 {
        let n = u16::from_be_bytes([x[66], x[67]]) as usize;
        let end = 64 + n.div_ceil(8) * 8;
        if x.len() >= end {
            let p = &x[64..end];
            h = b(blake3_hash(p).as_bytes());
            if p.len() >= 96 + 4 {
                let (m, sg) = p.split_at(p.len() - 96);
                let ok = linkspace_cryptography::validate_signature(
                    sg[..32].try_into().unwrap(),
                    sg[32..].try_into().unwrap(),
                    blake3_hash(m).as_bytes(),
                );
                sig = J::N(ok.is_ok() as i64);
            }
        }
    }
    (h, sig)
}
fn build(g: &mut Rng) {
    let f = Fields::gen(g);
    let h = header(g);
    let (mut hash, mut sig) = (J::B(vec![]), J::N(0));
    let raw = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.parts(h, |p| p.map(|p| all(&p)).ok()))).ok().flatten();
    if let Some(x) = &raw {
        (hash, sig) = facts(x);
    }
    let top = || vec![("f", f.j()), ("h", b(h.cinto())), ("hash", hash.clone()), ("sig", sig.clone())];
    call("build", top(), || {
        f.parts(h, |p| match p {
            Ok(p) => Ans("ok", b(all(&p)), J::L(vec![about(&p)])),
            Err(_) => err(),
        })
    });
}
/// A packet as it goes through copies and header changes.
enum Rep {
    Box(NetPktBox),
    Arc(NetPktArc),
    Re(ReroutePkt<NetPktArc>),
    Rebox(ReroutePkt<NetPktBox>),
    Recv(RecvPkt<NetPktBox>),
    Share(ShareArcPkt<NetPktBox>),
    ReShare(ReroutePkt<RecvPkt<ShareArcPkt<NetPktBox>>>),
}
impl Rep {
    fn p(&self) -> &dyn NetPkt {
        match self {
            Rep::Box(x) => x,
            Rep::Arc(x) => x,
            Rep::Re(x) => x,
            Rep::Rebox(x) => x,
            Rep::Recv(x) => x,
            Rep::Share(x) => x,
            Rep::ReShare(x) => x,
        }
    }
    fn m(&mut self) -> Option<&mut NetPktHeader> {
        match self {
            Rep::Box(x) => x.net_header_mut(),
            Rep::Arc(x) => x.net_header_mut(),
            Rep::Re(x) => x.net_header_mut(),
            Rep::Rebox(x) => x.net_header_mut(),
            Rep::Recv(x) => x.net_header_mut(),
            Rep::Share(x) => x.net_header_mut(),
            Rep::ReShare(x) => x.net_header_mut(),
        }
    }
}
fn forms(g: &mut Rng) {
    let f = Fields::gen(g);
    let h = header(g);
    let first = f.boxed(h);
    let start = all(&first);
    const OPS: &[&str] =
        &["box", "arc", "parts", "read", "readodd", "clone", "reroute", "recv", "share", "reshare", "rawbox", "rawarc", "dyn", "set", "set", "hop", "flags", "serde"];
    let n = 1 + g.below(12);
    let steps: Vec<(&str, NetPktHeader, u8, u8)> = (0..n).map(|_| (*g.pick(OPS), header(g), g.byte(), g.byte())).collect();
    let j = J::L(
        steps
            .iter()
            .map(|(o, h, i, r)| J::O(vec![("op", s(o)), ("h", b(h.cinto())), ("ins", J::N(*i as i64)), ("rem", J::N(*r as i64))]))
            .collect(),
    );
    call("forms", vec![("f", f.j()), ("in", b(&start)), ("steps", j)], || {
        let mut r = Rep::Box(first);
        let mut out = vec![];
        for (op, h, i, rem) in &steps {
            let mut can = true;
            r = match (*op, r) {
                ("box", r) => Rep::Box(r.p().as_netbox()),
                ("arc", r) => Rep::Arc(r.p().as_netarc()),
                ("parts", r) => {
                    let p = r.p();
                    let q = NetPktParts::from(p);
                    Rep::Arc(q.as_netarc())
                }
                ("read", r) => {
                    let v = all(r.p());
                    let mut a = vec![0u64; v.len() / 8];
                    let s: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(a.as_mut_ptr().cast(), v.len()) };
                    s.copy_from_slice(&v);
                    Rep::Box(read_pkt(s, false).unwrap().into_owned())
                }
                ("readodd", r) => {
                    let v = all(r.p());
                    let mut a = vec![0u64; v.len() / 8 + 1];
                    let s: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(a.as_mut_ptr().cast::<u8>().add(3), v.len()) };
                    s.copy_from_slice(&v);
                    Rep::Arc(read_pkt(s, false).unwrap().as_netarc())
                }
                ("clone", r) => match r {
                    Rep::Box(x) => Rep::Box(x.clone()),
                    Rep::Arc(x) => Rep::Arc(x.clone()),
                    Rep::Re(x) => Rep::Re(x.clone()),
                    Rep::Rebox(x) => Rep::Rebox(x.clone()),
                    Rep::Recv(x) => Rep::Recv(x.clone()),
                    Rep::Share(x) => Rep::Share(x.clone()),
                    Rep::ReShare(x) => Rep::ReShare(x.clone()),
                },
                ("reroute", r) => {
                    if let Rep::Box(x) = r {
                        Rep::Rebox(ReroutePkt::new(x))
                    } else {
                        Rep::Re(ReroutePkt::new(r.p().as_netarc()))
                    }
                }
                ("recv", r) => {
                    let st = Stamp::new(u64::from_be_bytes([*i; 8]));
                    let q = RecvPkt { recv: st, pkt: r.p().as_netbox() };
                    assert!(q.get_recv() == st && q.recv() == Some(st));
                    Rep::Recv(q)
                }
                ("share", r) => Rep::Share(ShareArcPkt::new(r.p().as_netbox())),
                ("reshare", r) => {
                    let q = RecvPkt { recv: Stamp::new(5), pkt: ShareArcPkt::new(r.p().as_netbox()) };
                    if i % 2 == 0 {
                        q.pkt.borrow_arc();
                    }
                    Rep::ReShare(ReroutePkt { net_header: r.p().net_header(), pkt: q })
                }
                ("rawbox", r) => {
                    let p = NetPktFatPtr::into_raw_box(r.p().as_netbox());
                    assert_eq!(all(unsafe { &*p }), all(r.p()));
                    Rep::Box(unsafe { NetPktFatPtr::from_raw_box(p) })
                }
                ("rawarc", r) => {
                    let p = r.p().as_netarc().into_raw_arc();
                    let c = unsafe { &*p }.as_netarc();
                    assert_eq!(c.refcount() >= 2, true);
                    assert_eq!(all(&c), all(r.p()));
                    Rep::Arc(unsafe { NetPktArc::from_raw_arc(p) })
                }
                ("dyn", r) => {
                    let p = r.p();
                    if i % 2 == 0 {
                        Rep::Box(RecvPkt::<NetPktBox>::from(p).pkt)
                    } else {
                        Rep::Arc(NetPktArc::from(p))
                    }
                }
                ("serde", r) => {
                    let o = all(r.p());
                    let q: NetPktBox =
                        serde::Deserialize::deserialize(serde::de::value::BorrowedBytesDeserializer::<serde::de::value::Error>::new(&o)).unwrap();
                    Rep::Box(q)
                }
                (_, mut r) => {
                    match r.m() {
                        None => can = false,
                        Some(m) => match *op {
                            "set" => *m = *h,
                            "hop" => *m = m.hop(),
                            _ => *m = m.and_flags(NetFlags::from_bits_retain(*rem), NetFlags::from_bits_retain(*i)),
                        },
                    }
                    r
                }
            };
            let p = r.p();
            assert!(p.as_point().compute_hash() == p.hash());
            assert!(read_pkt(&all(p), false).is_ok());
            let NetPktHeader { .. } = p.net_header();
            assert_eq!(p.net_header().cinto()[..], all(p)[..32]);
            out.push(J::O(vec![("can", J::N(can as i64)), ("out", b(all(p))), ("hash", b(p.hash().0)), ("f", about(p))]));
        }
        ok_l(J::L(out))
    });
}
fn header_ok(x: &[u8]) -> bool {
    x.len() >= 68
}
fn read(x: &[u8], skip: bool, odd: usize) {
    let (h, sig) = facts(x);
    // exactly this much memory, so that reading past the end shows
    let mut a = vec![0u64; x.len() / 8 + 2];
    let s_: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(a.as_mut_ptr().cast::<u8>().add(odd), x.len()) };
    s_.copy_from_slice(x);
    let s_: &[u8] = s_;
    call("read", vec![("in", b(x)), ("skip", J::N(skip as i64)), ("hash", h), ("sig", sig)], || match read_pkt(s_, skip) {
        Ok(p) => {
            assert_eq!(matches!(p, std::borrow::Cow::Borrowed(_)), odd == 0);
            Ans("ok", b(p.as_netpkt_bytes()), J::L(vec![about(p.as_ref())]))
        }
        Err(e) => match e.requires_more() {
            Some(n) => Ans("more", b((n as u16).to_be_bytes()), J::L(vec![])),
            None => err(),
        },
    });
}
/// a packet whose hash and signature are right whatever its fields say
fn reseal(x: &mut Vec<u8>, k: u8) {
    if !header_ok(x) {
        return;
    }
    let n = u16::from_be_bytes([x[66], x[67]]) as usize;
    let end = 64 + n.div_ceil(8) * 8;
    if x.len() < end {
        return;
    }
    if x[65] & 4 != 0 && end >= 64 + 96 {
        let (m, _) = x[64..end].split_at(end - 64 - 96);
        let sg = linkspace_cryptography::sign_hash(&key(k), blake3_hash(m).as_bytes());
        x[end - 96..end - 64].copy_from_slice(&pubkey(k));
        x[end - 64..end].copy_from_slice(&sg);
    }
    let h = blake3_hash(&x[64..end]);
    x[32..64].copy_from_slice(h.as_bytes());
}
fn reads(g: &mut Rng) {
    let f = Fields::gen(g);
    let x = all(&f.boxed(header(g)));
    let odd = |g: &mut Rng| if g.chance(50) { 0 } else { 1 + g.below(7) };
    match g.below(10) {
        0 => {
            // every truncation near a border, with or without following bytes
            for n in [0, 1, 67, 68, 69, 71, x.len() - 8, x.len() - 1, x.len(), g.below(x.len())] {
                let o = odd(g);
                read(&x[..n.min(x.len())], g.chance(50), o);
            }
            let mut y = x.clone();
            y.extend(g.bytes(20));
            let o = odd(g);
            read(&y, false, o);
        }
        1 | 2 => {
            // one byte altered anywhere
            for _ in 0..3 {
                let mut y = x.clone();
                let i = g.below(y.len());
                y[i] ^= 1 << g.below(8);
                let o = odd(g);
                read(&y, g.chance(20), o);
            }
        }
        3 => {
            // the bytes after the hash, the packet hash kept right
            let mut y = x.clone();
            let i = 64 + g.below(y.len() - 64);
            y[i] ^= 1 << g.below(8);
            let e = y.len();
            let h = blake3_hash(&y[64..e]);
            y[32..64].copy_from_slice(h.as_bytes());
            let o = odd(g);
            read(&y, false, o);
        }
        4 => {
            // any header
            let k = 68 + g.below(40);
            let mut y = g.exact(k);
            y[64] = if g.chance(80) { 0 } else { g.byte() };
            y[65] = *g.pick(&[1, 3, 7, 128, 1, 3, 7, 128, 0, 2, 4, 5, 6, 129, 255, 8, 9]);
            let n = match g.below(4) {
                0 => g.below(10),
                1 => y.len() - 64,
                2 => *g.pick(&[65024, 65025, 65020, 65535, 65528, 65529, 63, 64, 159, 160, 161]),
                _ => g.below(y.len()),
            };
            y[66..68].copy_from_slice(&(n as u16).to_be_bytes());
            if g.chance(70) {
                y.resize(y.len().max(64 + n.div_ceil(8) * 8), 255)
            }
            if g.chance(80) {
                reseal(&mut y, f.key)
            }
            let o = odd(g);
            read(&y, g.chance(30), o);
        }
        5..=7 => {
            // lengths, offsets, space and padding of a packet altered and the packet sealed again
            let mut y = x.clone();
            let n = f.data.len();
            for _ in 0..1 + g.below(2) {
                let len = y.len();
                match g.below(8) {
                    0 => {
                        let v = u16::from_be_bytes([y[66], y[67]]) as i64 + *g.pick(&[-96, -48, -9, -8, -1, 1, 7, 8, 48]);
                        y[66..68].copy_from_slice(&(v as u16).to_be_bytes());
                    }
                    1 if len > 72 => {
                        let v = u16::from_be_bytes([y[68], y[69]]) as i64 + *g.pick(&[-48, -8, -1, 1, 8, 47, 48, 96]);
                        y[68..70].copy_from_slice(&(v as u16).to_be_bytes());
                    }
                    2 if len > 72 => {
                        let v = u16::from_be_bytes([y[70], y[71]]) as i64 + *g.pick(&[-48, -8, -2, -1, 1, 2, 8, 48, n as i64, n as i64 + 1]);
                        y[70..72].copy_from_slice(&(v as u16).to_be_bytes());
                    }
                    3 => y[65] = *g.pick(&[1, 3, 7, 128, 2, 129]),
                    4 => {
                        // in the space or in the padding
                        let at = 64 + 64 + f.links.len() * 48;
                        if at < len {
                            let i = at + g.below((len - at).min(30));
                            y[i] = *g.pick(&[0, 1, 2, 3, 8, 9, 254, 255, 200, 201]);
                        }
                    }
                    5 => {
                        let k = if f.kind == "key" { 97 } else { 1 };
                        if len > 72 + k {
                            y[len - k] = g.byte();
                        }
                    }
                    6 if f.comps.is_empty() && f.kind == "link" && f.data.len() >= 8 && len >= 136 + f.links.len() * 48 => {
                        // an empty space with a table
                        let at = 64 + 64 + f.links.len() * 48;
                        y[at..at + 8].fill(0);
                        let v = u16::from_be_bytes([y[68], y[69]]).wrapping_add(8);
                        y[70..72].copy_from_slice(&v.to_be_bytes());
                    }
                    _ => {
                        let k = *g.pick(&[8, 1, 16, 48]);
                        if g.chance(50) && len > 72 + k {
                            y.truncate(len - k)
                        } else {
                            y.resize(len + k, 255)
                        }
                    }
                }
            }
            if g.chance(85) {
                reseal(&mut y, f.key)
            }
            let o = odd(g);
            read(&y, g.chance(30), o);
        }
        8 if f.kind == "key" => {
            // another key's name, or another packet's signature
            let mut y = x.clone();
            let e = y.len();
            if g.chance(50) {
                y[e - 96..e - 64].copy_from_slice(&pubkey((f.key + 1) % 3));
            } else {
                let z = all(&f.near(g).boxed(NetPktHeader::EMPTY));
                let l = z.len();
                y[e - 64..].copy_from_slice(&z[l - 64..]);
            }
            let h = blake3_hash(&y[64..e]);
            y[32..64].copy_from_slice(h.as_bytes());
            let o = odd(g);
            read(&y, g.chance(20), o);
        }
        _ => {
            let o = odd(g);
            read(&x, g.chance(20), o);
        }
    }
}
fn order(g: &mut Rng) {
    let f = Fields::gen(g);
    let q = if g.chance(75) { f.near(g) } else { Fields::gen(g) };
    let (x, y) = (f.boxed(header(g)), q.boxed(header(g)));
    let top = || vec![("f", f.j()), ("g", q.j()), ("fh", b(x.hash().0)), ("gh", b(y.hash().0))];
    call("cmp", top(), || ok(J::B(vec![(PktCmp(&x).cmp(&PktCmp(&y)) as i8 + 1) as u8])));
    call("same", top(), || ok(J::B(vec![(PktCmp(&x) == PktCmp(&y)) as u8])));
    let st = g.next();
    call("entry", vec![("f", f.j()), ("hash", b(x.hash().0)), ("ptr", b(st.to_be_bytes()))], || match TreeEntry::from_pkt(Stamp::new(st), &x) {
        None => no(),
        Some(e) => {
            let k = &e.btree_key;
            Ans(
                "ok",
                b(k.as_bytes()),
                J::L(vec![J::O(vec![
                    ("group", b(k.group().0)),
                    ("domain", b(k.domain().0)),
                    ("depth", J::N(k.space_segments() as i64)),
                    ("space", list(&k.space().iter().collect::<Vec<_>>())),
                    ("pubkey", b(k.pubkey().0)),
                    ("stamp", b(e.create().0)),
                    ("hash", b(e.hash().0)),
                    ("ptr", b(e.local_log_ptr().0)),
                    ("nlinks", J::N(e.links_len().get() as i64)),
                    ("ndata", J::N(e.data_size().get() as i64)),
                ])]),
            )
        }
    });
}
fn limits(g: &mut Rng) {
    let kind = *g.pick(&["data", "link", "key"]);
    let mut f = Fields::of(g, kind);
    let n = *g.pick(&[0usize, 1, 100, 1000, 1340, 1345, 1350, 1353, 1354, 1355, 1400]);
    f.links = if g.chance(60) { vec![] } else { vec![([1; 16], [2; 32]); n] };
    if f.kind == "data" {
        f.links.clear()
    }
    let sp = if f.comps.is_empty() || f.kind == "data" { 0 } else { root(&f.comps).len() };
    let used = match f.kind {
        "data" => 4,
        "link" => 64 + f.links.len() * 48 + sp,
        _ => 160 + f.links.len() * 48 + sp,
    } as i64;
    let room = 65024 - used;
    let dn = (room + *g.pick(&[-9, -2, -1, 0, 1, 2, 60, 100, 600, -700])).max(0) as usize;
    f.data = vec![b'x'; dn];
    let top = || {
        vec![
            ("kind", s(f.kind)),
            ("nlinks", J::N(f.links.len() as i64)),
            ("space", list(if f.kind == "data" { &[] } else { &f.comps })),
            ("ndata", J::N(dn as i64)),
        ]
    };
    call("fits", top(), || {
        f.parts(NetPktHeader::EMPTY, |p| match p {
            Ok(p) => {
                let x = p.as_netbox();
                read_pkt(&all(&x), false).unwrap();
                ok(b((x.size() as u16).to_be_bytes()))
            }
            Err(_) => err(),
        })
    });
    if f.kind != "data" {
        let sp = SpaceBuf::from_vec_unchecked(crate::space::enc(&f.comps));
        let links: Vec<Link> = f.links.iter().map(|(t, p)| Link { tag: AB(*t), ptr: B64(*p) }).collect();
        call("free", top(), || ok_l(J::L(vec![J::N(calc_free_space(&sp, &links, &f.data, f.kind == "key") as i64)])));
    }
}
pub fn p01(g: &mut Rng, n: usize) {
    for _ in 0..n / 5 {
        match g.below(10) {
            0..=3 => build(g),
            4..=6 => forms(g),
            7 => limits(g),
            _ => order(g),
        }
    }
}
pub fn p02(g: &mut Rng, n: usize) {
    for _ in 0..n / 3 {
        reads(g)
    }
}
