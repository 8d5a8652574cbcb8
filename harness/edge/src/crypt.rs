//! Hashes, signatures and password protected identities.
use crate::gen::Rng;
use crate::rec::*;
use linkspace_argon2_identity as id;
use linkspace_cryptography::*;

const ORDER: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0,
    0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
type Run = (u8, usize);
fn hash(segs: &[Vec<Run>]) {
    let data: Vec<Vec<u8>> = segs.iter().map(|s| s.iter().flat_map(|(v, n)| std::iter::repeat(*v).take(*n)).collect()).collect();
    let f = J::L(
        segs.iter().map(|s| J::L(s.iter().map(|(v, n)| J::L(vec![J::N(*v as i64), J::N(*n as i64)])).collect())).collect(),
    );
    call("hash", vec![("segs", f)], || {
        let r: Vec<&[u8]> = data.iter().map(|x| x.as_slice()).collect();
        ok(b(hash_segments(&r)))
    });
}
fn runs(x: &[u8]) -> Vec<Run> {
    x.iter().map(|v| (*v, 1)).collect()
}
fn key(bytes: [u8; 32]) -> Option<SigningKey> {
    let mut r = None;
    call("key", vec![("in", b(bytes))], || match SigningKey::try_from(bytes) {
        Ok(k) => {
            let p = k.pubkey_bytes();
            r = Some(k);
            ok(b(p))
        }
        Err(_) => err(),
    });
    r
}
fn sign(k: &SigningKey, h: Hash) -> Signature {
    let mut r = [0; 64];
    call("sign", vec![("pub", b(k.pubkey_bytes())), ("hash", b(h))], || {
        r = sign_hash(k, &h);
        ok(b(r))
    });
    r
}
fn verify(p: [u8; 32], sig: [u8; 64], h: [u8; 32]) {
    call("verify", vec![("pub", b(p)), ("hash", b(h)), ("sig", b(sig))], || match validate_signature(&p, &sig, &h) {
        Ok(()) => ok(b([])),
        Err(_) => err(),
    });
}
pub fn k01(g: &mut Rng, n: usize) {
    // every way to cut a short content, and contents that differ in one place
    let base: Vec<u8> = (0..6).map(|i| i * 41).collect();
    for cut in 0..32u32 {
        let mut segs = vec![vec![]];
        for i in 0..6 {
            segs.last_mut().unwrap().push((base[i], 1));
            if i < 5 && cut & (1 << i) != 0 {
                segs.push(vec![])
            }
        }
        hash(&segs);
        segs.insert(g.below(segs.len() + 1), vec![]);
        hash(&segs);
    }
    hash(&[]);
    hash(&[vec![]]);
    hash(&[vec![], vec![], vec![]]);
    for l in [1usize, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 1023, 1024, 1025, 2048, 2049, 4096, 16384, 65535, 65536, 65537, 131073] {
        hash(&[vec![(0, l)]]);
        hash(&[vec![(0, l - 1)], vec![(0, 1)]]);
        hash(&[vec![(0, 1)], vec![(0, l - 1)]]);
        hash(&[vec![(0, l / 2)], vec![], vec![(0, l - l / 2)]]);
        hash(&[vec![(0, l - 1), (1, 1)]]);
        hash(&[vec![(1, 1), (0, l - 1)]]);
        hash(&[vec![(0, l / 2)], vec![(1, 1)], vec![(0, l - l / 2 - (l > 1) as usize)]]);
    }
    for k in 0..40usize {
        hash(&(0..k).map(|i| vec![(i as u8, 1)]).collect::<Vec<_>>());
        hash(&[(0..k).map(|i| (i as u8, 1)).collect::<Vec<_>>()]);
    }
    for _ in 0..n {
        let x = g.bytes(80);
        let mut rest = &x[..];
        let mut segs = vec![];
        while !rest.is_empty() {
            let k = g.below(rest.len() + 1);
            segs.push(runs(&rest[..k]));
            rest = &rest[k..]
        }
        hash(&segs);
        hash(&[runs(&x)]);
        let mut y = x.clone();
        if !y.is_empty() {
            let i = g.below(y.len());
            y[i] ^= 1 << g.below(8);
            hash(&[runs(&y)]);
            y.swap(0, i);
            hash(&[runs(&y)]);
        }
    }
    // keys
    let mut num = |d: i64| {
        let mut v = ORDER;
        v[31] = (v[31] as i64 + d) as u8;
        key(v)
    };
    let top = num(-1);
    for d in [0, 1, 2, 100, -2, -60] {
        num(d);
    }
    key([0; 32]);
    key([255; 32]);
    let mut keys: Vec<SigningKey> = top.into_iter().collect();
    for i in 0..32 {
        let mut v = [0; 32];
        v[i] = 1;
        keys.extend(key(v));
        let mut v = ORDER;
        v[i] = v[i].wrapping_add(1);
        key(v);
        let mut v = ORDER;
        v[i] = v[i].wrapping_sub(1);
        key(v);
    }
    keys.truncate(4);
    for _ in 0..6 {
        let k: [u8; 32] = (0..32).map(|_| g.next() as u8).collect::<Vec<_>>().try_into().unwrap();
        keys.extend(key(k));
    }
    keys.push(public_testkey());
    let gen = SigningKey::generate();
    keys.extend(key(gen.0.to_bytes().into()));
    let gen2 = SigningKey::generate();
    keys.extend(key(gen2.0.to_bytes().into()));
    // signatures
    let mut made: Vec<([u8; 32], Hash, Signature)> = vec![];
    let mut hashes: Vec<Hash> = vec![[0; 32], [255; 32], hash_segments(&[b"x"]), hash_segments(&[b"y"])];
    for i in [0, 15, 31] {
        let mut h = hashes[2];
        h[i] ^= 1;
        hashes.push(h)
    }
    for k in &keys {
        for h in &hashes {
            made.push((k.pubkey_bytes(), *h, sign(k, *h)))
        }
    }
    for (p, h, s) in made.clone() {
        verify(p, s, h);
        verify(made[g.below(made.len())].0, s, h);
        verify(p, s, made[g.below(made.len())].1);
        verify(p, made[g.below(made.len())].2, h);
    }
    let (p, h, s) = made[g.below(made.len())];
    for i in 0..64 {
        for bit in [1u8, 128] {
            let mut s2 = s;
            s2[i] ^= bit;
            verify(p, s2, h);
            if i < 32 {
                let (mut p2, mut h2) = (p, h);
                p2[i] ^= bit;
                h2[i] ^= bit;
                verify(p2, s, h);
                verify(p, s, h2);
            }
        }
    }
    for s2 in [[0; 64], [255; 64], std::array::from_fn(|i| s[(i + 32) % 64]), std::array::from_fn(|i| if i < 32 { s[i] } else { 0 }), std::array::from_fn(|i| if i < 32 { s[i] } else { ORDER[i - 32] })] {
        verify(p, s2, h)
    }
    verify([0; 32], s, h);
    verify([255; 32], s, h);
    verify(h, s, p);
    for _ in 0..n / 4 {
        let (p, h, s) = made[g.below(made.len())];
        let (p1, h1, s1) = made[g.below(made.len())];
        let mut q = (p, h, s);
        match g.below(6) {
            0 => q.0 = p1,
            1 => q.1 = h1,
            2 => q.2 = s1,
            3 => q.2[..32].copy_from_slice(&s1[..32]),
            4 => q.2[g.below(64)] ^= 1 << g.below(8),
            _ => q.1[g.below(32)] ^= 1 << g.below(8),
        }
        verify(q.0, q.2, q.1);
    }
}
// ---------------------------------------------------------------- identities
fn open(t: &str, pw: &[u8]) {
    call("open", vec![("in", b(t)), ("pw", b(pw))], || match id::decrypt(t, pw) {
        Ok(k) => ok(b(k.0.to_bytes())),
        Err(_) => err(),
    });
}
fn public(t: &str) {
    call("public", vec![("in", b(t))], || match id::pubkey(t) {
        Ok(k) => ok(b(k)),
        Err(_) => err(),
    });
}
/// costs stay small however the text is changed
fn cheap(t: &str) -> bool {
    let mut run = 0;
    let head = t.rsplitn(3, '$').last().unwrap_or(t);
    head.split(|c: char| !c.is_ascii_digit()).all(|d| d.len() <= 5 && d.parse::<u32>().unwrap_or(0) < 40000) && {
        t.chars().filter(|c| *c == ',').for_each(|_| run += 1);
        true
    }
}
pub fn k02(g: &mut Rng, n: usize) {
    let pws: Vec<Vec<u8>> = vec![
        b"".to_vec(), b"a".to_vec(), b"b".to_vec(), b"hello".to_vec(), b"hello ".to_vec(), b"Hello".to_vec(), b"hello\0".to_vec(), b"\0".to_vec(), vec![255; 3],
        vec![b'x'; 64], vec![b'x'; 65], vec![b'x'; 300], b"hello\n".to_vec(), vec![b'y'; 4096], vec![b'y'; 4097],
    ];
    let costs = [
        id::INSECURE_COST,
        id::Costs { mem: 16, times: 1, parallelism: 1 },
        id::Costs { mem: 8, times: 2, parallelism: 1 },
        id::Costs { mem: 16, times: 1, parallelism: 2 },
        id::Costs { mem: 37, times: 3, parallelism: 3 },
    ];
    let mut keys = vec![public_testkey()];
    for i in 0..2 + n / 100 {
        let mut k: [u8; 32] = (0..32).map(|_| g.next() as u8).collect::<Vec<_>>().try_into().unwrap();
        k[0] = 1 + i as u8 % 200;
        keys.push(SigningKey::try_from(k).unwrap())
    }
    let mut made = vec![];
    for (i, k) in keys.iter().enumerate() {
        for (j, pw) in pws.iter().enumerate() {
            if i > 1 && j > 4 {
                break;
            }
            let c = costs[(i + j) % costs.len()];
            let mut t = String::new();
            call(
                "encrypt",
                vec![("sec", b(k.0.to_bytes())), ("pub", b(k.pubkey_bytes())), ("pw", b(pw)), ("cost", J::L([c.mem, c.times, c.parallelism].iter().map(|v| J::N(*v as i64)).collect()))],
                || {
                    t = id::encrypt(k, pw, Some(c));
                    ok(b(&t))
                },
            );
            if !t.is_empty() {
                made.push((t, pw.clone()))
            }
        }
    }
    for (t, pw) in &made {
        open(t, pw);
        public(t);
        for q in &pws {
            open(t, q)
        }
    }
    let (t0, pw0) = made[3].clone();
    // one character replaced, removed, doubled
    for i in 0..t0.len() {
        for c in ["A", "B", "/", "$", "=", ",", "0", "2", "+", " ", "\n", "é"] {
            for t in [format!("{}{}{}", &t0[..i], c, &t0[i + 1..]), format!("{}{}{}", &t0[..i], c, &t0[i..])] {
                if cheap(&t) {
                    if g.chance(40) || i < 40 {
                        open(&t, &pw0);
                    }
                    public(&t);
                }
            }
        }
        let t = format!("{}{}", &t0[..i], &t0[i + 1..]);
        if cheap(&t) {
            open(&t, &pw0);
            public(&t);
        }
        public(&t0[..i]);
        public(&t0[i..]);
    }
    // fields swapped between identities, doubled, dropped, reordered
    let f = |t: &str| t.split('$').map(|x| x.to_string()).collect::<Vec<_>>();
    for _ in 0..n {
        let (a, pw) = g.pick(&made).clone();
        let (c, _) = g.pick(&made).clone();
        let (mut x, y) = (f(&a), f(&c));
        match g.below(8) {
            0..=2 => {
                let i = g.below(x.len());
                x[i] = y[i].clone()
            }
            3 => {
                let i = g.below(x.len());
                x.remove(i);
            }
            4 => {
                let i = g.below(x.len());
                x.push(y[i].clone())
            }
            5 => {
                let (i, j) = (g.below(x.len()), g.below(x.len()));
                x.swap(i, j)
            }
            6 => {
                let mut o: Vec<String> = x[3].split(',').map(|s| s.to_string()).collect();
                match g.below(4) {
                    0 => {
                        let (i, j) = (g.below(3), g.below(3));
                        o.swap(i, j)
                    }
                    1 => o.push(format!("{}={}", g.pick(&["m", "t", "p", "x", "v"]), 8 + g.below(3))),
                    2 => {
                        o.remove(g.below(3));
                    }
                    _ => {
                        let i = g.below(3);
                        o[i] = format!("{}={}", &o[i][..1], *g.pick(&["8", "16", "1", "2", "0", "-1", "08", "+8", "", "x", "24"]))
                    }
                }
                x[3] = o.join(",")
            }
            _ => {
                let i = g.below(2);
                x[1 + i] = g.pick(&["argon2i", "argon2id", "argon2d", "v=16", "v=19", "v=18"]).to_string()
            }
        }
        let t = x.join("$");
        if cheap(&t) {
            open(&t, &pw);
            public(&t);
        }
    }
}
