use crate::gen::Rng;
use crate::rec::*;
use crate::scopes::{self, Tree};
use abe::ast::*;
use abe::eval::*;
use abe::ABE;

pub fn ast(l: &[ABE]) -> J {
    J::L(l
        .iter()
        .map(|n| {
            let (t, bb, l) = match n {
                ABE::Ctr(c) => ("c", vec![*c as u8], vec![]),
                ABE::Expr(Expr::Bytes(x)) => ("b", x.clone(), vec![]),
                ABE::Expr(Expr::Lst(l)) => ("l", vec![], l.clone()),
            };
            J::O(vec![("t", s(t)), ("b", J::B(bb)), ("l", ast(&l))])
        })
        .collect())
}
pub fn ablist(l: &ABList) -> J {
    J::L(l
        .iter()
        .map(|(c, x)| J::O(vec![("c", J::N(c.map(|c| c as u8).unwrap_or(0) as i64)), ("b", b(x))]))
        .collect())
}
fn txt(k: &str) -> (&'static str, J) {
    ("in", b(k))
}
/// all sequences over `alphabet` of at most n pieces
fn exhaustive(alphabet: &[&[u8]], n: usize, f: &mut dyn FnMut(&[u8])) {
    fn go(alphabet: &[&[u8]], n: usize, cur: &mut Vec<u8>, f: &mut dyn FnMut(&[u8])) {
        f(cur);
        if n > 0 {
            for a in alphabet {
                let l = cur.len();
                cur.extend_from_slice(a);
                go(alphabet, n - 1, cur, f);
                cur.truncate(l);
            }
        }
    }
    go(alphabet, n, &mut vec![], f)
}
// ---------------------------------------------------------------- text form of bytes
fn enc(x: &[u8]) {
    call("enc", vec![("in", b(x))], || ok(b(abe::abtxt::as_abtxt(x).as_bytes())));
}
fn dec(x: &[u8], max: Option<usize>) {
    call("dec", vec![("in", b(x)), ("max", J::N(max.unwrap_or(65000) as i64))], || {
        match abe::abtxt::parse_abtxt_upto_max(x, max.unwrap_or(65000)) {
            Ok(v) => ok(b(v)),
            Err(_) => err(),
        }
    });
}
fn dec_into(x: &[u8], len: usize) {
    call("dec", vec![("in", b(x)), ("max", J::N(len as i64))], || {
        let mut buf = vec![0xAA; len];
        match abe::abtxt::parse_abtxt_into(x, &mut buf) {
            Ok(v) => ok(b(&buf[..v])),
            Err(_) => err(),
        }
    });
}
fn some_text(g: &mut Rng) -> Vec<u8> {
    const P: &[&[u8]] = &[
        b"a", b"Z", b" ", b"~", b"\\0", b"\\n", b"\\t", b"\\r", b"\\:", b"\\/", b"\\[", b"\\]", b"\\\\", b"\\f", b"\\x0", b"\\xfF",
        b"\\x80", b"\\x7F", b"\\x1g", b"\\q", b"\\", b":", b"/", b"[", b"]", b"\n", b"\t", b"\x00", b"\x7f", b"\x80", b"\xff", b"\r", b"\\x",
    ];
    let good = g.chance(60);
    let n = g.below(9);
    (0..n).flat_map(|_| g.pick(if good { &P[..14] } else { P }).to_vec()).collect()
}
pub fn a01(g: &mut Rng, n: usize) {
    enc(b"");
    for x in 0..=255u8 {
        enc(&[x]);
        enc(&[x, b'f']);
        enc(&[b'\\', x]);
        dec(&[x], None);
        dec(&[b'\\', x], None);
        dec(&[b'\\', b'x', x, b'0'], None);
        dec(&[b'\\', b'x', b'a', x], None);
        dec(&[b'a', x, b'b'], None);
        dec(format!("\\x{x:02x}").as_bytes(), None);
        dec(format!("\\x{x:02X}").as_bytes(), None);
        let t = abe::abtxt::as_abtxt(&[x, x]).into_owned();
        for m in 0..4 {
            dec(t.as_bytes(), Some(m));
            dec_into(t.as_bytes(), m);
        }
        call("esc", vec![("in", b([x]))], || ok(b(abe::abtxt::escape_default(x).as_bytes())));
        call("print", vec![("ast", ast(&[ABE::Expr(Expr::Bytes(vec![x, x]))]))], || ok(b(ABE::Expr(Expr::Bytes(vec![x, x])).to_string())));
        call("print", vec![("ast", ast(&[ABE::Expr(Expr::Bytes(vec![x]))]))], || ok(b(format!("{:?}", ABE::Expr(Expr::Bytes(vec![x]))))));
    }
    exhaustive(&[b"a", b"0", b"\\", b"x", b":", b"\x80"], 4, &mut |t| dec(t, None));
    for len in LONG {
        for x in [g.exact(len), vec![b'k'; len], vec![200; len]] {
            enc(&x);
            let t = abe::abtxt::as_abtxt(&x).into_owned().into_bytes();
            for m in [len - 1, len, len + 1] {
                dec(&t, Some(m));
                dec_into(&t, m);
            }
            dec(&[&t[..], b":"].concat(), None);
            dec(&[&t[..], b"\\x0"].concat(), None);
        }
    }
    for _ in 0..n {
        let x = g.bytes(12);
        enc(&x);
        let t = abe::abtxt::as_abtxt(&x).into_owned().into_bytes();
        let m = g.below(x.len() + 2);
        dec(&t, Some(m));
        dec_into(&t, m);
        let t = some_text(g);
        dec(&t, None);
        let m = g.below(9);
        dec(&t, Some(m));
        dec_into(&t, m);
        let t: Vec<u8> = (0..g.below(8)).map(|_| g.byte()).collect();
        dec(&t, None);
    }
}
// ---------------------------------------------------------------- expressions
fn parse(t: &[u8], lax: bool) {
    call("parse", vec![("in", b(t)), ("lax", J::N(lax as i64))], || match abe::parse_abe_b(t, lax) {
        Ok(v) => Ans("ok", b(print_abe(&v)), ast(&v)),
        Err(_) => err(),
    });
}
fn toks(t: &[u8], plain: u32, errs: u32) {
    let set = |v: u32| {
        J::L([(1, b'/'), (2, b':'), (4, b'\n'), (16, b'['), (32, b']')]
            .iter()
            .filter(|(m, _)| v & m != 0)
            .map(|(_, c)| J::N(*c as i64))
            .collect())
    };
    call("tok", vec![("in", b(t)), ("plain", set(plain)), ("err", set(errs))], || {
        match tokenize_abe_b(t, plain, errs).collect::<Result<Vec<_>, _>>() {
            Ok(v) => {
                if let Ok(s_) = std::str::from_utf8(t) {
                    let w = abe::tokenize_abe(s_, plain, errs).expect("the same as for bytes");
                    assert!(w.iter().map(|(a, b, c)| (*a, *b, c.as_bytes())).eq(v.iter().copied()));
                }
                ok_l(J::L(
                    v.into_iter().map(|(c, w, t)| J::O(vec![("c", J::N(c as i64)), ("w", J::N(w as i64)), ("s", b(t))])).collect(),
                ))
            }
            Err(_) => err(),
        }
    });
}
const PIECES: &[&[u8]] = &[
    b"q", b"bc", b":", b"/", b"[", b"]", b"[", b"]", b":", b"/", b"\\:", b"\\/", b"\\[", b"\\]", b"\\\\", b"\\n", b"\\0", b"\\f", b"\\x00",
    b"\\xfe", b" ", b"[q:b/c]", b"[/x:y]",
];
const ODD: &[&[u8]] = &[b"\n", b"\t", b"\x00", b"\xff", b"\\", b"\\q", b"\\xz", b"\\x1", b"\xc3\xa9", b"\r"];
fn some_abe(g: &mut Rng) -> Vec<u8> {
    let odd = g.chance(30);
    let n = g.below(12);
    let mut v: Vec<u8> = vec![];
    let mut open = 0i32;
    for _ in 0..n {
        let p = if odd && g.chance(15) { *g.pick(ODD) } else { *g.pick(PIECES) };
        if p == b"[" {
            open += 1
        }
        if p == b"]" {
            if open == 0 && g.chance(80) {
                continue;
            }
            open -= 1
        }
        v.extend_from_slice(p);
    }
    if g.chance(80) {
        (0..open).for_each(|_| v.push(b']'))
    }
    v
}
pub fn some_ast(g: &mut Rng, depth: usize) -> Vec<ABE> {
    let n = g.below(5);
    let mut r: Vec<ABE> = vec![];
    for _ in 0..n {
        let prev_bytes = matches!(r.last(), Some(ABE::Expr(Expr::Bytes(_))));
        r.push(match g.below(4) {
            0 if !prev_bytes => {
                let mut x = g.bytes(4);
                if x.is_empty() {
                    x.push(g.byte())
                }
                ABE::Expr(Expr::Bytes(x))
            }
            1 if depth > 0 => ABE::Expr(Expr::Lst(some_ast(g, depth - 1))),
            2 => ABE::Ctr(Ctr::Colon),
            _ => ABE::Ctr(Ctr::FSlash),
        })
    }
    r
}
/// Deep nesting: the expression itself is too deep to be written down, its printed form is not.
fn deep(t: &[u8], lax: bool) {
    call("deep", vec![("in", b(t)), ("lax", J::N(lax as i64))], || match abe::parse_abe_b(t, lax) {
        Ok(v) => ok(b(print_abe(&v))),
        Err(_) => err(),
    });
}
const LONG: [usize; 9] = [31, 32, 33, 63, 64, 127, 128, 256, 300];
const DEEP: [usize; 14] = [8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256];
pub fn a02(g: &mut Rng, n: usize) {
    for d in DEEP {
        let (o, c) = ("[".repeat(d), "]".repeat(d));
        for t in [o.clone(), c.clone(), format!("{o}{c}"), format!("{o}a{c}"), format!("{o}{c}]"), format!("{o}[{c}"), format!("{}{c}", "[a:".repeat(d)), format!("{o}{}", "/b]".repeat(d)), format!("{o}{c}:{o}a{c}/"), format!("{c}{o}")] {
            for lax in [false, true] {
                deep(t.as_bytes(), lax)
            }
            toks(t.as_bytes(), 0, 0);
        }
        for sep in [":", "/", "[]", "[a]"] {
            let t = format!("{}b", format!("a{sep}").repeat(d));
            deep(t.as_bytes(), false);
            toks(t.as_bytes(), 0, 4);
            let t = format!("[{t}]");
            deep(t.as_bytes(), true);
            toks(t.as_bytes(), 0, 4);
        }
    }
    exhaustive(&[b"a", b":", b"/", b"[", b"]", b"\\"], 4, &mut |t| {
        parse(t, false);
        toks(t, 0, 0);
        toks(t, 1, 4);
        if t.len() < 4 {
            parse(t, true);
            toks(t, 0, 4);
            toks(t, 2, 0);
            toks(t, 48, 0);
        }
    });
    exhaustive(&[b"\\", b"x", b"4", b"\n", b"\x80", b"["], 3, &mut |t| {
        parse(t, false);
        parse(t, true);
        toks(t, 0, 0);
        toks(t, 4, 0);
        toks(t, 0, 4);
    });
    for x in 0..=255u8 {
        parse(&[x], false);
        parse(&[b'a', x, b'b'], true);
        parse(&[b'[', x, b']'], false);
        parse(&[b'\\', x], true);
        parse(&[b'\\', x], false);
        toks(&[b'a', x, b'b'], 0, 0);
    }
    for _ in 0..n {
        let t = some_abe(g);
        parse(&t, false);
        parse(&t, true);
        let p = *g.pick(&[0, 1, 2, 3, 4, 48, 49]);
        let e = *g.pick(&[0, 4, 1, 2, 48]);
        toks(&t, p, e);
        let a = some_ast(g, 3);
        let printed = print_abe(&a);
        call("print", vec![("ast", ast(&a))], || ok(b(print_abe(&a))));
        parse(printed.as_bytes(), false);
        toks(printed.as_bytes(), 0, 4);
        let pat = if g.chance(50) && !a.is_empty() {
            let i = g.below(a.len());
            a[i..(i + 1 + g.below(2)).min(a.len())].to_vec()
        } else {
            let mut p = some_ast(g, 1);
            p.truncate(2);
            p
        };
        if !pat.is_empty() {
            let mut new = some_ast(g, 1);
            new.truncate(3);
            call("replace", vec![("ast", ast(&a)), ("pat", ast(&pat)), ("new", ast(&new))], || {
                let mut x = a.clone();
                replace_abe(&mut x, &pat, &new);
                ok_l(ast(&x))
            });
        }
    }
}
// ---------------------------------------------------------------- evaluation
fn list_answer(r: Result<ABList, EvalError>) -> Ans {
    match r {
        Ok(l) => Ans("ok", b(l.to_string()), ablist(&l)),
        Err(_) => err(),
    }
}
fn eval_txt(tree: &Tree, sc: &dyn Scope, t: &[u8]) {
    call("eval", vec![("sc", tree.json()), ("in", b(t))], || match abe::parse_abe_strict_b(t) {
        Ok(a) => list_answer(eval(sc, &a)),
        Err(_) => err(),
    });
}
fn eval_ast(tree: &Tree, sc: &dyn Scope, a: &[ABE]) {
    call("evalast", vec![("sc", tree.json()), ("ast", ast(a))], || list_answer(eval(sc, a)));
}
fn lit(g: &mut Rng) -> String {
    g.pick(&["a", "abc", "0", "1", "12", "255", "256", "\\x00\\x01", "\\f", "\\0", "\\n", "x\\:y", "\\/", "YWJj", "", "10110", "ff", "=", "2", "3"])
        .to_string()
}
fn fn_id(g: &mut Rng) -> &'static str {
    const IDS: &[&str] = &[
        "?a", "?a0", "a", "f", "lpad", "rpad", "~lpad", "~rpad", "lcut", "rcut", "~lcut", "~rcut", "lfixed", "rfixed", "replace", "slice",
        "~utf8", "+", "-", "u8", "u16", "u32", "u64", "u128", "?u", "lu", "lu8", "lu16", "lu32", "?lu", "b2", "b8", "?b", "b16", "2mini", "b",
        "?bs", "bs", "C", "size?", "val?", "eval", "?", "??", "???", "0", "1", "7", "argv", "nope", "",
    ];
    *g.pick(IDS)
}
/// an expression text that often evaluates
fn expr(g: &mut Rng, depth: usize) -> String {
    let n = 1 + g.below(3);
    let mut o = String::new();
    for i in 0..n {
        if i > 0 && g.chance(40) {
            o.push(*g.pick(&[':', '/']));
        }
        o += &part(g, depth)
    }
    o
}
fn args(g: &mut Rng, depth: usize, max: usize) -> String {
    (0..g.below(max + 1)).map(|_| format!(":{}", if g.chance(60) { lit(g) } else { part(g, depth) })).collect()
}
fn part(g: &mut Rng, depth: usize) -> String {
    if depth == 0 {
        return lit(g);
    }
    let d = depth - 1;
    match g.below(14) {
        0..=2 => lit(g),
        3 => format!("[:{}{}]", part(g, d), args(g, d, 2)),
        4 => format!("[/:{}]", expr(g, d)),
        5 => format!("[/e:{}]", expr(g, d)),
        6 => format!("[/or{}{}]", args(g, d, 2), args(g, d, 1)),
        7 => format!("[/{}:{}/{}{}]", g.pick(&["?", "~?"]), expr(g, d), encoders(g), g.pick(&["", "/"])),
        8 => format!("[{}]", expr(g, d)),
        9 => {
            let mut o = format!("[u8:{}", g.below(300));
            for _ in 0..1 + g.below(3) {
                o += &format!("/{}{}", fn_id(g), args(g, d, 2))
            }
            o + "]"
        }
        10 => {
            let k = 14 + g.below(4);
            format!("[C{}/?u]", ":x".repeat(k))
        }
        _ => {
            let mut o = format!("[{}{}", if g.chance(30) { "" } else { fn_id(g) }, args(g, d, 3));
            for _ in 0..g.below(3) {
                o += &format!("/{}{}", fn_id(g), args(g, d, 2))
            }
            o + "]"
        }
    }
}
fn encoders(g: &mut Rng) -> String {
    let n = 1 + g.below(3);
    let l: Vec<String> = (0..n)
        .map(|_| {
            let id = *g.pick(&["a", "b", "b2", "b16", "bs", "u8", "u16", "u32", "u64", "u128", "x", "y", "z", "lpad", "", ":", "nope"]);
            match g.below(5) {
                0 => format!("{id}:{}", g.below(20)),
                1 => format!("{id}:1:2"),
                2 => format!("{id}:{}", g.pick(&["x", "", "[u8:49]", "1/"])),
                _ => id.to_string(),
            }
        })
        .collect();
    l.join("/")
}
pub fn a03(g: &mut Rng, n: usize) {
    let basic = Tree::Basic;
    let sc = basic.build();
    let small = Tree::All(
        vec![
            Tree::Test(
                vec![
                    scopes::TFn { id: "q", lo: 0, hi: 16, init: 0, r: "args", tag: 1, enc: "none" },
                    scopes::TFn { id: "", lo: 0, hi: 2, init: 0, r: "args", tag: 2, enc: "none" },
                ],
                vec![scopes::TMacro { id: "q", r: "val", tag: 3 }, scopes::TMacro { id: "", r: "val", tag: 4 }],
            ),
            Tree::Basic,
        ],
        0,
    );
    let ssc = small.build();
    exhaustive(&[b"q", b":", b"/", b"[", b"]"], 5, &mut |t| eval_txt(&small, ssc, t));
    for d in DEEP {
        let (o, c) = ("[:".repeat(d), "]".repeat(d));
        eval_txt(&small, ssc, format!("{o}a{c}").as_bytes());
        eval_txt(&small, ssc, format!("{o}[nope]{c}").as_bytes());
        eval_txt(&small, ssc, format!("[u8:7{}]", "/?u/u8".repeat(d)).as_bytes());
        eval_txt(&small, ssc, format!("[u8:7{}]", "/q:a".repeat(d.min(40))).as_bytes());
        eval_txt(&small, ssc, "a:b/".repeat(d).as_bytes());
        eval_txt(&small, ssc, "[:a]:".repeat(d).as_bytes());
        eval_txt(&small, ssc, format!("[:{}]", "x".repeat(d)).as_bytes());
        eval_txt(&small, ssc, format!("[/or{}:end]", ":[nope]".repeat(d)).as_bytes());
    }
    for k in 0..20 {
        for m in ["q", "[q", "[q/q", "[:", "[/q", "[/e:q"] {
            eval_txt(&small, ssc, format!("{}{}{}", m, ":b".repeat(k), if m.starts_with('[') { "]" } else { "" }).as_bytes());
        }
    }
    for _ in 0..n {
        let e = expr(g, 3);
        let av: Vec<Vec<u8>> = (0..g.below(9)).map(|_| g.bytes(4)).collect();
        let t = match g.below(3) {
            0 => Tree::All(vec![Tree::ArgV(av), Tree::Basic], 0),
            1 => Tree::All(vec![Tree::ArgList(av), Tree::Basic], 0),
            _ => Tree::All(vec![small.clone(), Tree::ArgV(av)], 0),
        };
        eval_txt(&t, t.build(), e.as_bytes());
        let a = some_ast(g, 3);
        eval_ast(&small, ssc, &a);
        let e = some_abe(g);
        eval_txt(&small, ssc, &e);
        let e = expr(g, 2);
        typed(&basic, sc, e.as_bytes());
    }
}
/// an expression whose value has to be of a given kind
fn typed(tree: &Tree, sc: &dyn Scope, t: &[u8]) {
    use abe::TypedABE;
    call("bytes", vec![("sc", tree.json()), ("in", b(t))], || match TypedABE::<Vec<u8>>::try_from(t).map(|e| e.eval(sc)) {
        Ok(Ok(v)) => ok(b(v)),
        _ => err(),
    });
    call("string", vec![("sc", tree.json()), ("in", b(t))], || match TypedABE::<String>::try_from(t).map(|e| e.eval(sc)) {
        Ok(Ok(v)) => ok(b(v)),
        _ => err(),
    });
}
// ---------------------------------------------------------------- scopes
fn enc_in(tree: &Tree, sc: &dyn Scope, x: &[u8], o: &str, ignore: bool) {
    call("encode", vec![("sc", tree.json()), ("in", b(x)), ("opts", b(o)), ("ignore", J::N(ignore as i64))], || {
        match encode(sc, x, o, ignore) {
            Ok(v) => ok(b(v)),
            Err(_) => err(),
        }
    });
}
pub fn a04(g: &mut Rng, n: usize) {
    for _ in 0..n {
        let d = 1 + g.below(3);
        let t = scopes::tree(g, d, &mut 0);
        let sc = t.build();
        for _ in 0..4 {
            let id = *g.pick(&["x", "y", "z", "", "u8", "a", "b", "0", "3", "argv", "w"]);
            let id2 = *g.pick(&["x", "y", "z", "u8", "a", "b", "7"]);
            let a: String = (0..g.below(5)).map(|_| ":1").collect();
            let e = match g.below(6) {
                0 => format!("[{id}{a}]"),
                1 => format!("[:q/{id}{a}]"),
                2 => format!("[{id}{a}/{id2}]"),
                3 => format!("[/{id}{a}]"),
                4 => format!("[/{id}/x:[y]]"),
                _ => format!("[{id}{a}]:[/{id2}:k[z]]"),
            };
            if e.starts_with("[]") || e.starts_with("[:1") {
                continue;
            }
            eval_txt(&t, sc, e.as_bytes());
        }
        let x = g.bytes(3);
        let o = encoders(g);
        let ig = g.chance(50);
        enc_in(&t, sc, &x, &o, ig);
    }
}
fn base64_of(f: &str, x: &[u8]) -> Vec<u8> {
    use byte_fmt::base64_crate::prelude::*;
    if f == "b" { byte_fmt::base64(x).into_bytes() } else { BASE64_STANDARD.encode(x).into_bytes() }
}
// ---------------------------------------------------------------- functions
pub fn a05(g: &mut Rng, n: usize) {
    let basic = Tree::Basic;
    let sc = basic.build();
    let run = |id: &str, a: &[Vec<u8>]| {
        call("call", vec![("fn", b(id)), ("args", J::L(a.iter().map(b).collect()))], || {
            let r: Vec<&[u8]> = a.iter().map(|x| x.as_slice()).collect();
            match sc.try_apply_func(id.as_bytes(), &r, true, &sc) {
                ApplyResult::NoValue => no(),
                ApplyResult::Value(v) => ok(b(v)),
                ApplyResult::Err(_) => err(),
            }
        })
    };
    let v = |l: &[&str]| l.iter().map(|x| x.as_bytes().to_vec()).collect::<Vec<_>>();
    const ALL: &[&str] = &[
        "?a", "?a0", "a", "f", "lpad", "rpad", "~lpad", "~rpad", "lcut", "rcut", "~lcut", "~rcut", "lfixed", "rfixed", "replace", "slice",
        "~utf8", "+", "-", "u8", "u16", "u32", "u64", "u128", "?u", "lu", "lu8", "lu16", "lu32", "lu64", "lu128", "?lu", "b2", "b8", "?b",
        "b16", "2mini", "b", "?bs", "bs", "C", "size?", "val?",
    ];
    for f in ALL {
        for k in 0..18 {
            run(f, &vec![b"1".to_vec(); k]);
            run(f, &vec![b"".to_vec(); k.min(4)]);
        }
    }
    for f in ["u8", "u16", "u32", "u64", "u128", "lu8", "lu16", "lu32", "lu64", "lu128", "lu"] {
        for w in [8u32, 16, 32, 64, 128] {
            let max = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
            for x in [0, 1, max / 2, max - 1, max, max.saturating_add(1)] {
                run(f, &v(&[&x.to_string()]));
                run(f, &v(&[&format!("+{x}")]));
                run(f, &v(&[&format!("000{x}")]));
                run(f, &v(&[&format!("-{x}")]));
            }
        }
        run(f, &v(&["340282366920938463463374607431768211456"]));
        run(f, &v(&["999999999999999999999999999999999999999999"]));
    }
    let idx = ["", "0", "1", "2", "3", "4", "5", "-0", "-1", "-2", "-4", "-5", "+1", "9223372036854775808", "-9223372036854775808",
        "18446744073709551615", "-18446744073709551615", "x", "-"];
    let steps = ["1", "2", "3", "0", "-1", "-2", "9223372036854775807", "-9223372036854775808", "", "x"];
    for i in idx {
        run("slice", &v(&["abcd", i]));
        for j in idx {
            run("slice", &v(&["abcd", i, j]));
            for k in steps {
                run("slice", &v(&["abcd", i, j, k]))
            }
        }
    }
    for len in [0usize, 1, 2, 3, 15, 16, 17, 20] {
        let x: Vec<u8> = (0..len as u8).collect();
        for f in ["a", "f", "lpad", "rpad", "~lpad", "~rpad", "lcut", "rcut", "~lcut", "~rcut", "lfixed", "rfixed"] {
            run(f, &[x.clone()]);
            for n in ["", "0", "1", "2", "3", "16", "17", "19", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-1", "x"] {
                run(f, &[x.clone(), n.into()]);
                for p in ["", "\u{1}", "pp"] {
                    run(f, &[x.clone(), n.into(), p.into()])
                }
            }
        }
        for f in ["?u", "?lu", "?b", "?bs", "2mini", "?a", "?a0", "~utf8"] {
            run(f, &[x.clone()]);
            run(f, &[vec![255; len]]);
            run(f, &[vec![0; len]]);
            run(f, &[x.iter().map(|v| 255 - v).collect()]);
        }
    }
    for len in 0..70 {
        run("2mini", &[(0..len).map(|_| g.next() as u8).collect()]);
    }
    for len in LONG {
        let (x, y) = (g.exact(len), g.exact(len));
        for f in ["?u", "?lu", "?b", "?bs", "2mini", "?a", "?a0", "~utf8", "a", "f", "lcut", "rcut", "slice"] {
            run(f, &[x.clone()]);
            for k in [len - 1, len, len + 1] {
                run(f, &[x.clone(), k.to_string().into_bytes()]);
                run(f, &[x.clone(), format!("-{k}").into_bytes()]);
            }
        }
        for f in ["+", "-"] {
            run(f, &[x.clone(), y.clone()]);
            run(f, &[x.clone(), y.clone(), x.clone()]);
            run(f, &[vec![255; len], [vec![0; len - 1], vec![1]].concat()]);
            run(f, &[vec![0; len], [vec![0; len - 1], vec![1]].concat()]);
        }
        for f in ["b", "bs"] {
            run(f, &[base64_of(f, &x)]);
        }
        for f in ["size?", "val?"] {
            run(f, &[x.clone(), b"=".to_vec(), if f == "size?" { len.to_string().into_bytes() } else { x.clone() }]);
            run(f, &[x.clone(), b"=".to_vec(), if f == "size?" { (len & 255).to_string().into_bytes() } else { x[..len - 1].to_vec() }]);
        }
        run("replace", &[vec![b'a'; len], b"a".to_vec(), b"bc".to_vec()]);
        run("replace", &[vec![b'a'; len], b"aa".to_vec(), b"".to_vec()]);
        for f in ["lpad", "rpad", "~lpad", "~rpad", "lfixed", "rfixed", "lcut", "rcut", "~lcut", "~rcut"] {
            run(f, &[b"xyz".to_vec(), len.to_string().into_bytes()]);
            run(f, &[x.clone(), b"3".to_vec()]);
            run(f, &[x.clone(), (len + 5).to_string().into_bytes()]);
        }
        for (f, d) in [("b2", "1"), ("b8", "7"), ("b16", "f"), ("u128", "0"), ("lu", "0")] {
            run(f, &[format!("{}{d}", "0".repeat(len)).into_bytes()]);
            run(f, &[d.repeat(len).into_bytes()]);
        }
    }
    for f in ["replace"] {
        for x in ["", "a", "aa", "aaa", "aba", "ababa", "xx"] {
            for p in ["", "a", "aa", "ab", "aba", "x"] {
                for t in ["", "a", "zz", "aab"] {
                    run(f, &v(&[x, p, t]))
                }
            }
        }
    }
    exhaustive(&[b"A", b"B", b"g", b"-", b"/", b"="], 4, &mut |t| {
        run("b", &[t.to_vec()]);
        run("bs", &[t.to_vec()]);
    });
    for a in [0xc2u8, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0x80, 0x41] {
        for bb in [0x41u8, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0] {
            for c in [0x80u8, 0x41, 0xe2] {
                run("~utf8", &[vec![a, bb, c, 0x80]]);
                run("~utf8", &[vec![a, bb, c]]);
            }
            run("~utf8", &[vec![0x61, a, bb]]);
        }
    }
    for _ in 0..n {
        let len = *g.pick(&[0, 1, 2, 2, 3, 4, 8, 16]);
        let k = 1 + g.below(4);
        let mut l: Vec<Vec<u8>> = (0..k).map(|_| g.exact(len)).collect();
        if g.chance(10) {
            l[k - 1] = g.bytes(4)
        }
        run(*g.pick(&["+", "-"]), &l);
        let f = *g.pick(&["u8", "u16", "u32", "u64", "u128", "lu", "lu8", "lu16", "lu32", "lu64", "lu128", "b2", "b8", "b16"]);
        run(f, &[g.number()]);
        let f = *g.pick(&["b2", "b8", "b16"]);
        let dg: &[u8] = match f {
            "b2" => b"0101010101010101012",
            "b8" => b"012345678",
            _ => b"0123456789abcdefABCDEFg",
        };
        let t: Vec<u8> = (0..g.below(if f == "b2" { 132 } else { 46 })).map(|_| *g.pick(dg)).collect();
        run(f, &[t]);
        let x = g.bytes(20);
        run(*g.pick(&["?u", "?lu", "?b", "?bs", "2mini", "?a", "?a0", "~utf8"]), &[x.clone()]);
        let e = if g.chance(50) { byte_fmt::base64(&x).into_bytes() } else { (0..g.below(9)).map(|_| *g.pick(b"ABgwzZ09-_+/= ")).collect() };
        run(*g.pick(&["b", "bs"]), &[e]);
        let len = g.below(24).to_string().into_bytes();
        let f = *g.pick(&["a", "f", "lpad", "rpad", "~lpad", "~rpad", "lcut", "rcut", "~lcut", "~rcut", "lfixed", "rfixed"]);
        let mut ar = vec![g.bytes(20), len];
        if g.chance(50) {
            ar.push(g.bytes(2))
        }
        run(f, &ar);
        let x = g.bytes(6);
        let ns: Vec<Vec<u8>> = (0..g.below(4)).map(|_| if g.chance(85) { format!("{}", g.below(20) as i64 - 10).into_bytes() } else { g.number() }).collect();
        let mut ar = vec![x.clone()];
        ar.extend(ns);
        run("slice", &ar);
        let p: Vec<u8> = (0..1 + g.below(2)).map(|_| *g.pick(b"ab")).collect();
        run("replace", &[(0..g.below(9)).map(|_| *g.pick(b"ab")).collect(), p, g.bytes(2)]);
        run("size?", &[x.clone(), g.pick(&["=", "<", ""]).as_bytes().to_vec(), g.below(8).to_string().into_bytes()]);
        let y = if g.chance(60) { x.clone() } else { g.bytes(6) };
        run("val?", &[x, g.pick(&["=", "=", "<", ""]).as_bytes().to_vec(), y]);
    }
}
// ---------------------------------------------------------------- encoding
pub fn a06(g: &mut Rng, n: usize) {
    let basic = Tree::Basic;
    let sc = basic.build();
    let singles = ["a", "b", "b2", "b16", "bs", "u8", "u16", "u32", "u64", "u128", "", "/", "nope", ":", "b:1", "b16:1:2", "b2:2", "lu8", "f"];
    for len in [0usize, 1, 2, 3, 4, 8, 15, 16, 17, 32] {
        for x in [vec![0; len], vec![255; len], (0..len as u8).collect(), (1..=len as u8).map(|i| i * 7).collect()] {
            for o in singles {
                enc_in(&basic, sc, &x, o, false);
                enc_in(&basic, sc, &x, &format!("{o}//"), true);
                enc_in(&basic, sc, &x, &format!("u8/{o}"), false);
            }
        }
    }
    for len in LONG {
        let x = g.exact(len);
        for o in ["a", "b", "b2", "b16", "bs", "u8", "/", "b:44/a", "b:300", "nope//"] {
            enc_in(&basic, sc, &x, o, false);
        }
        enc_in(&basic, sc, &x, &format!("{}a", "nope/".repeat(len)), false);
    }
    for x in 0..=255u8 {
        for o in ["a", "b", "b2", "b16", "bs", "u8", "/"] {
            enc_in(&basic, sc, &[x], o, false);
        }
    }
    for _ in 0..n {
        let len = *g.pick(&[0, 1, 2, 3, 4, 8, 16, 17]);
        let x = if g.chance(50) { g.exact(len) } else { g.bytes(18) };
        let o = encoders(g) + *g.pick(&["", "/", "//"]);
        let ig = g.chance(30);
        enc_in(&basic, sc, &x, &o, ig);
        let t = Tree::All(vec![scopes::test_scope(g, 1), Tree::Basic, scopes::test_scope(g, 3)], 0);
        enc_in(&t, t.build(), &x, &o, ig);
        // the same through the language
        let e = format!("[:{}/{}:{}]", abe::abtxt::as_abtxt(&x), g.pick(&["?", "??", "???"]), abe::abtxt::as_abtxt(o.as_bytes()));
        eval_txt(&basic, sc, e.as_bytes());
        let e = format!("[/{}:{}/{}]", g.pick(&["?", "~?"]), abe::abtxt::as_abtxt(&x), o);
        eval_txt(&basic, sc, e.as_bytes());
    }
}
