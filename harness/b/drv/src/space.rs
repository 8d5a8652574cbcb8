//! Spaces: lists of components and their forms.
use crate::gen::Rng;
use crate::rec::*;
use abe::ast::Ctr;
use abe::eval::ABList;
use abe::{ToABE, ABE};
use linkspace_pkt::space_fmt::SpaceFE;
use linkspace_pkt::*;

pub fn list<T: AsRef<[u8]>>(l: &[T]) -> J {
    J::L(l.iter().map(|x| b(x.as_ref())).collect())
}
pub fn ast(l: &[ABE]) -> J {
    use abe::ast::Expr;
    J::L(l
        .iter()
        .map(|n| {
            let (t, bb, l) = match n {
                ABE::Ctr(c) => ("c", vec![*c as u8], vec![]),
                ABE::Expr(Expr::Bytes(x)) => ("b", x.clone(), vec![]),
                ABE::Expr(Expr::Lst(l)) => ("l", vec![], l.clone()),
            };
            J::O(vec![("t", s(t)), ("b", J::B(bb)), ("l", ast(&l))])
        })
        .collect())
}
pub fn ablist(l: &ABList) -> J {
    J::L(l
        .iter()
        .map(|(c, x)| J::O(vec![("c", J::N(c.map(|c| c as u8).unwrap_or(0) as i64)), ("b", b(x))]))
        .collect())
}
pub type Comps = Vec<Vec<u8>>;
pub fn enc(l: &[Vec<u8>]) -> Vec<u8> {
    let mut r = vec![];
    for c in l {
        r.push(c.len() as u8);
        r.extend_from_slice(c);
    }
    r
}
pub fn root(l: &[Vec<u8>]) -> Vec<u8> {
    if l.is_empty() {
        return vec![];
    }
    let mut r = vec![l.len() as u8];
    for i in 1..8 {
        r.push(enc(&l[..i.min(l.len())]).len() as u8)
    }
    r.extend(enc(l));
    r
}
/// a component, mostly a valid one
fn comp(g: &mut Rng) -> Vec<u8> {
    let n = match g.below(12) {
        0 => *g.pick(&[0, 1, 15, 16, 17, 31, 32, 33, 199, 200, 201, 255, 256, 300]),
        1 => 16,
        2 => 32,
        3 => g.below(60),
        _ => 1 + g.below(6),
    };
    match g.below(6) {
        0 => b"/:[]\\\n\0\xff"[..n.min(8)].to_vec(),
        1 => (0..n).map(|i| b'a' + (i % 26) as u8).collect(),
        _ => g.exact(n),
    }
}
pub fn comps(g: &mut Rng) -> Comps {
    match g.below(10) {
        0 => (0..g.below(14)).map(|_| vec![b'x'; 1 + g.below(3)]).collect(),
        1 => {
            // around the largest size
            let want = 236 + g.below(12);
            let mut l = vec![];
            let mut used = 0;
            while used < want {
                let n = (1 + g.below(200)).min((want - used - 1).max(1));
                l.push(g.exact(n));
                used += n + 1;
            }
            l
        }
        _ => (0..g.below(6)).map(|_| comp(g)).collect(),
    }
}
pub fn valid(l: &Comps) -> bool {
    l.len() <= 8 && l.iter().all(|c| (1..=200).contains(&c.len())) && enc(l).len() <= 242
}
pub fn valid_comps(g: &mut Rng) -> Comps {
    loop {
        let l = comps(g);
        if valid(&l) {
            return l;
        }
    }
}
fn of<T: AsRef<[u8]>, E>(r: Result<T, E>) -> Ans {
    match r {
        Ok(v) => ok(b(v)),
        Err(_) => err(),
    }
}
fn sp(r: Result<SpaceBuf, SpaceError>) -> Ans {
    of(r.map(|x| x.space_bytes().to_vec()))
}
fn rsp(r: Result<RootedSpaceBuf, SpaceError>) -> Ans {
    of(r.map(|x| x.rooted_bytes().to_vec()))
}
fn n1(x: usize) -> Ans {
    ok(J::B(vec![x as u8]))
}
fn yes(x: bool) -> Ans {
    n1(x as usize)
}
fn l_<T: AsRef<[u8]>>(x: impl IntoIterator<Item = T>) -> Ans {
    ok_l(list(&x.into_iter().collect::<Vec<_>>()))
}
fn related(g: &mut Rng, l: &Comps) -> Comps {
    let mut m = l.clone();
    match g.below(8) {
        0 => m = valid_comps(g),
        1 => m.truncate(g.below(l.len() + 1)),
        2 => {
            m.truncate(g.below(l.len() + 1));
            m.push(g.exact(1))
        }
        3 if !m.is_empty() => {
            // a component that is cut short or a byte longer
            let i = g.below(m.len());
            m.truncate(i + 1);
            if g.chance(50) && m[i].len() > 1 {
                m[i].pop();
            } else {
                m[i].push(g.byte())
            }
        }
        4 if !m.is_empty() => {
            let i = g.below(m.len());
            let j = g.below(m[i].len());
            m[i][j] = g.byte();
        }
        5 if m.len() > 1 => {
            // the same bytes cut elsewhere
            let x = m.remove(0);
            let y: Vec<u8> = x.iter().chain(&m[0]).copied().collect();
            m[0] = y;
        }
        _ => {
            m.truncate(g.below(l.len() + 1));
        }
    }
    if valid(&m) {
        m
    } else {
        vec![]
    }
}
fn on_valid(g: &mut Rng, l: &Comps) {
    let x = SpaceBuf::from_vec_unchecked(enc(l));
    let x: &Space = &x;
    let r = RootedSpaceBuf::from_unchecked(root(l));
    let r: &RootedSpace = &r;
    let m = related(g, l);
    let y = SpaceBuf::from_vec_unchecked(enc(&m));
    let y: &Space = &y;
    let q = RootedSpaceBuf::from_unchecked(root(&m));
    let f = || vec![("l", list(l))];
    let f2 = || vec![("l", list(l)), ("m", list(&m))];
    call("torooted", f(), || rsp(x.try_into_rooted()));
    call("torooted", f(), || ok(b(x.rooted().rooted_bytes())));
    call("torooted", f(), || rsp(TryInto::<RootedSpaceBuf>::try_into(x.into_spacebuf())));
    call("tospace", f(), || ok(b(r.space().space_bytes())));
    call("tospace", f(), || ok(b(r.into_buf().space().space_bytes())));
    call("tospace", f(), || ok(b(x.to_owned().inner())));
    call("list", f(), || l_(x.iter()));
    call("list", f(), || l_(x.to_array()));
    call("list", f(), || l_(x.checked_iter().unwrap().map(|x| x.unwrap())));
    call("list", f(), || match x.into_spacebuf().components() {
        Ok(v) => l_(v),
        Err(_) => err(),
    });
    call("list", f(), || l_(r.iter()));
    call("slots", f(), || l_(r.comps_bytes()));
    call("slots", f(), || l_(r.components().map(|c| c.first())));
    call("depth", f(), || n1(x.into_spacebuf().calc_depth()));
    call("depth", f(), || n1(*r.space_depth() as usize));
    call("depth", f(), || n1(r.depth()));
    call("depth", f(), || n1(x.check_components().unwrap() as usize));
    call("size", f(), || n1(x.size()));
    call("empty", f(), || yes(x.is_empty()));
    call("empty", f(), || yes(r.is_empty()));
    let ord = |o: std::cmp::Ordering| n1((o as i8 + 1) as usize);
    call("cmp", f2(), || ord(x.cmp(y)));
    call("eq", f2(), || yes(x == y));
    call("eq", f2(), || yes(*r == *q));
    call("starts", f2(), || yes(x.starts_with(y)));
    call("strip", f2(), || match x.strip_prefix(y) {
        Some(v) => ok(b(v.space_bytes())),
        None => no(),
    });
    let z = related(g, l);
    let w = SpaceBuf::from_vec_unchecked(enc(&z));
    let f3 = || vec![("l", list(l)), ("m", list(&z))];
    let swapped = || vec![("l", list(&z)), ("m", list(l))];
    call("join", f3(), || sp(x.into_spacebuf().try_join(&w)));
    call("join", f3(), || sp(x.into_spacebuf().try_append(&w)));
    call("join", swapped(), || sp(x.into_spacebuf().try_prepend(&w)));
    call("join", f3(), || sp(x.into_spacebuf().extend_from_iter(&z)));
    call("rjoin", f3(), || rsp(r.into_buf().try_join(&w)));
    call("rjoin", f3(), || {
        let mut r = r.into_buf();
        rsp(r.extend_from_iter(&z).map(|_| r))
    });
    let c = comp(g);
    let one = || vec![("l", list(l)), ("m", list(&[&c]))];
    call("join", one(), || sp(x.into_spacebuf().try_push(&c)));
    call("join", vec![("l", list(&[&c])), ("m", list(l))], || sp(x.into_spacebuf().try_push_front(&c)));
    call("rjoin", one(), || {
        let mut r = r.into_buf();
        rsp(r.try_append_component(&c).map(|r| r.clone()))
    });
    call("parent", f(), || match x.parent() {
        Some(v) => ok(b(v.space_bytes())),
        None => no(),
    });
    call("shorter", f(), || {
        let mut x = x.into_spacebuf();
        x.truncate_last();
        ok(b(x.space_bytes()))
    });
    call("pop", f(), || {
        let (a, z) = x.pop();
        l_(std::iter::once(a.space_bytes()).chain(z))
    });
    call("splitlast", f(), || {
        let (a, z) = x.split_last();
        l_(std::iter::once(a.space_bytes()).chain(z.map(|z| z.space_bytes())))
    });
    call("lastor", f(), || ok(b(r.last())));
    call("head", f(), || l_(x.head()));
    call("first", f(), || ok(b(x.first())));
    call("tail", f(), || ok(b(x.tail().space_bytes())));
    call("splitfirst", f(), || match x.split_first() {
        Some((a, z)) => l_([a, z.space_bytes()]),
        None => ok_l(J::L(vec![])),
    });
    let k = g.below(10);
    call("splitat", vec![("l", list(l)), ("n", J::N(k as i64))], || {
        let (a, z) = x.split_at(k);
        l_([a.space_bytes(), z.space_bytes()])
    });
    let i = g.below(9);
    let j = i + g.below(9 - i);
    call("range", vec![("l", list(l)), ("n", J::N(i as i64)), ("n2", J::N(j as i64))], || ok(b(r.range(i..j).space_bytes())));
    call("scan", f(), || l_(x.scan_space().map(|x| x.space_bytes())));
    call("track", f(), || {
        let mut t = x.track();
        let mut r: Vec<Vec<u8>> = vec![];
        while let Some(n) = t.next() {
            assert!(n.full() == x && t.component().is_some());
            r.push(n.upto().space_bytes().to_vec());
            r.push(n.rest().space_bytes().to_vec());
            t = n
        }
        assert!(t.component().is_none());
        l_(r)
    });
    let k = g.below(8);
    call("comp", vec![("l", list(l)), ("n", J::N(k as i64))], || ok(b(r.comp(k))));
    call("show", f(), || ok(b(x.to_string())));
    call("show", f(), || ok(b(x.into_spacebuf().to_string())));
    call("show", f(), || ok(b(r.to_string())));
    call("show", f(), || ok(b(r.into_buf().to_string())));
    call("show", f(), || ok(b(x.to_abe_str())));
    call("showabe", f(), || ok_l(ast(&x.to_abe())));
    call("ablist", f(), || ok_l(ablist(&x.ablist())));
    call("ablist", f(), || ok_l(ablist(&ABList::from(x.into_spacebuf()))));
    call("build", f(), || of(x.to_string().parse::<SpaceBuf>().map(|x| x.space_bytes().to_vec())));
    call("rbuild", f(), || of(x.to_string().parse::<RootedSpaceBuf>().map(|x| x.rooted_bytes().to_vec())));
}
fn build(l: &Comps) {
    let f = || vec![("l", list(l))];
    call("build", f(), || sp(SpaceBuf::try_from_iter(l)));
    let refs: Vec<&[u8]> = l.iter().map(|x| x.as_slice()).collect();
    call("build", f(), || sp(SpaceBuf::try_from(refs.as_slice())));
    call("rbuild", f(), || rsp(RootedSpaceBuf::try_from_iter(l)));
    call("build", f(), || {
        let mut x = SpaceBuf::new();
        for c in l {
            match x.try_push(c) {
                Ok(y) => x = y,
                Err(_) => return err(),
            }
        }
        ok(b(x.space_bytes()))
    });
    call("build", f(), || {
        let mut x = SpaceBuf::new();
        for c in l.iter().rev() {
            match x.try_push_front(c) {
                Ok(y) => x = y,
                Err(_) => return err(),
            }
        }
        ok(b(x.space_bytes()))
    });
}
fn read(x: &[u8]) {
    let f = || vec![("in", b(x))];
    call("read", f(), || match Space::from_slice(x) {
        Ok(v) => l_(v.iter()),
        Err(_) => err(),
    });
    call("readlen", f(), || match Space::from_unchecked(x).check_components() {
        Ok(v) => n1(v as usize),
        Err(_) => err(),
    });
}
fn rread(x: &[u8]) {
    let f = || vec![("in", b(x))];
    call("rread", f(), || match RootedSpace::from(x) {
        Ok(v) => l_(v.iter()),
        Err(_) => err(),
    });
}
fn damage(g: &mut Rng, mut x: Vec<u8>, head: usize) -> Vec<u8> {
    for _ in 0..1 + g.below(2) {
        match g.below(6) {
            0 => {
                x.truncate(g.below(x.len() + 1));
            }
            1 => x.push(g.byte()),
            2 if !x.is_empty() => {
                let i = g.below(x.len());
                x[i] = g.byte()
            }
            3 if x.len() >= head && head > 0 => {
                let i = g.below(head);
                x[i] = x[i].wrapping_add(*g.pick(&[1, 255, 8, 200]))
            }
            4 if !x.is_empty() => {
                let i = g.below(x.len());
                x.remove(i);
            }
            _ => {
                let i = g.below(x.len() + 1);
                x.insert(i, g.byte() % 5)
            }
        }
    }
    x
}
fn text(g: &mut Rng) -> Vec<u8> {
    const P: &[&str] = &[
        "/", "/", "/", "a", "bc", ":", "[", "]", "\\/", "\\0", "[u8:7]", "[a:x]", "[b:AAA]", "[//a/b]", "\\x41", "[:x]", "[s:a]", "//", "[a:abc:3]",
        "[:\\1a]", "[u8:1]a", "\n",
    ];
    if g.chance(35) {
        // mostly well formed
        let mut t = String::new();
        for _ in 0..g.below(10) {
            t.push('/');
            t.push_str(*g.pick(&["a", "bc", "\\0", "[u8:7]", "[a:x]", "\\x41\\/", "[b:AAA]", "", "[:x/y]", "[a:q:200]", "[a:q:201]"]));
        }
        return t.into_bytes();
    }
    (0..g.below(7)).flat_map(|_| g.pick(P).bytes().collect::<Vec<_>>()).collect()
}
fn texts(x: &[u8]) {
    let Ok(t) = std::str::from_utf8(x) else { return };
    let f = || vec![("in", b(x))];
    call("text", f(), || of(t.parse::<SpaceBuf>().map(|x| x.space_bytes().to_vec())));
    call("text", f(), || of(space_str(t).map(|x| x.space_bytes().to_vec())));
    call("text", f(), || {
        let Ok(e) = t.parse::<SpaceExpr>() else { return err() };
        of(e.eval(&abe::scope::basic_scope()).map(|x| x.space_bytes().to_vec()))
    });
    call("rtext", f(), || of(t.parse::<RootedSpaceBuf>().map(|x| x.rooted_bytes().to_vec())));
    call("rtext", f(), || {
        let Ok(e) = t.parse::<RootedSpaceExpr>() else { return err() };
        of(e.eval(&abe::scope::basic_scope()).map(|x| x.rooted_bytes().to_vec()))
    });
}
fn some_list(g: &mut Rng) -> ABList {
    let mut l = ABList::DEFAULT;
    if g.chance(20) {
        let x = valid_comps(g);
        let x = enc(&x);
        return l.push_bytes(&if g.chance(70) { x } else { damage(g, x, 0) });
    }
    if g.chance(10) {
        l = l.push_bytes(b"a")
    }
    for _ in 0..g.below(12) {
        l = l.push_ctr(if g.chance(95) { Ctr::FSlash } else { Ctr::Colon });
        let c = if g.chance(85) { g.bytes(3) } else { comp(g) };
        l = l.push_bytes(&c)
    }
    l
}
fn eval(g: &mut Rng) {
    let sc = (abe::scope::basic_scope(), abe::eval::EScope(SpaceFE));
    let inner = if g.chance(60) {
        let mut t = String::new();
        for _ in 0..g.below(10) {
            t.push('/');
            t.push_str(*g.pick(&["a", "bc", "\\0", "[u8:7]", "[a:x]", "", "\\x41"]));
        }
        t
    } else {
        String::from_utf8(text(g)).unwrap()
    };
    let num = |g: &mut Rng| (*g.pick(&["0", "1", "2", "3", "7", "8", "9", "10", "255", "18446744073709551615", "", "x", "-1"])).to_string();
    let t = match g.below(7) {
        0 => format!("[/{inner}]"),
        1 => format!("[/~{inner}]"),
        2 => format!("[/{inner}/?space]").replace("[/", "[:[/").replace("/?space]", "]/?space]"),
        3 => format!("[:[/{inner}]/si:{}]", num(g)),
        4 => format!("[:[/{inner}]/si:{}:{}]", num(g), num(g)),
        5 => {
            let n = g.below(11);
            let mut t = "[s".to_string();
            for _ in 0..n {
                t.push(':');
                let c = comp(g);
                t.push_str(&abe::abtxt::as_abtxt(&c))
            }
            t + "]"
        }
        _ => {
            let c = comp(g);
            format!("[?space:{}]", abe::abtxt::as_abtxt(&c))
        }
    };
    call("eval", vec![("in", b(&t))], || {
        let Ok(a) = abe::parse_abe(&t, false) else { return err() };
        match abe::eval::eval(&sc, &a) {
            Ok(v) => ok(b(v.concat())),
            Err(_) => err(),
        }
    });
    let x = valid_comps(g);
    let x = enc(&x);
    let x = if g.chance(80) { x } else { damage(g, x, 0) };
    call("encode", vec![("in", b(&x))], || of(abe::eval::encode(&sc, &x, "s", false)));
}
pub fn p03(g: &mut Rng, n: usize) {
    on_valid(g, &vec![]);
    for k in 0..=10 {
        let l = vec![vec![b'a' + k as u8]; k];
        build(&l);
        read(&enc(&l));
        rread(&root(&l));
        if k > 0 {
            // wrong entries of the table
            for i in 0..8 {
                for d in [1, 8, 100, 200, 255] {
                    let mut r = root(&l);
                    r[i] = r[i].wrapping_add(d);
                    rread(&r)
                }
            }
        }
        if k <= 8 {
            on_valid(g, &l)
        }
    }
    for k in [1, 199, 200, 201, 254, 255] {
        let l = vec![vec![k as u8; k]];
        build(&l);
        read(&enc(&l));
    }
    for k in 0..10 {
        read(&vec![0; k]);
        rread(&vec![0; k]);
    }
    for i in 0..n / 10 {
        let l = comps(g);
        build(&l);
        let e = enc(&l);
        read(&e);
        let d = damage(g, e, 0);
        read(&d);
        if l.len() <= 12 && enc(&l).len() < 256 {
            rread(&root(&l));
            let d = damage(g, root(&l), 8);
            rread(&d);
        }
        if i % 10 == 0 {
            let l = valid_comps(g);
            on_valid(g, &l);
        }
        for _ in 0..2 {
            let t = text(g);
            texts(&t);
            eval(g);
            let l = some_list(g);
            call("oflist", vec![("ab", ablist(&l))], || of(SpaceBuf::try_from(l.clone()).map(|x| x.space_bytes().to_vec())));
        }
    }
}
