//! Fixed size byte values and integers.
use crate::a::{ablist, ast};
use crate::gen::Rng;
use crate::rec::*;
use abe::ast::Ctr;
use abe::eval::ABList;
use abe::{ToABE, TypedABE};
use byte_fmt::endian_types::*;
use byte_fmt::*;

fn some_list(g: &mut Rng, n: usize) -> ABList {
    let x = {
        let k = *g.pick(&[0, 1, n, n, n, n + 1, n.saturating_sub(1)]);
        g.exact(k)
    };
    match g.below(8) {
        0 => ABList::DEFAULT,
        1 => ABList::DEFAULT.push_ctr(Ctr::Colon).push_bytes(&x),
        2 => ABList::DEFAULT.push_bytes(&x).push_ctr(Ctr::FSlash),
        3 => ABList::DEFAULT.push_bytes(&x[..x.len() / 2]).push_ctr(Ctr::Colon).push_bytes(&x[x.len() / 2..]),
        _ => ABList::DEFAULT.push_bytes(&x),
    }
}
fn in_(x: &[u8]) -> (&'static str, J) {
    ("in", b(x))
}
fn n_(n: usize) -> (&'static str, J) {
    ("n", J::N(n as i64))
}
fn of<T: AsRef<[u8]>, E>(r: Result<T, E>) -> Ans {
    match r {
        Ok(v) => ok(b(v)),
        Err(_) => err(),
    }
}
fn texty(g: &mut Rng, x: &[u8]) -> Vec<u8> {
    let mut t = abe::abtxt::as_abtxt(x).into_owned().into_bytes();
    if g.chance(25) {
        let p = *g.pick(&[&b":"[..], b"\\", b"\n", b"\\q", b"\xff", b"[", b"\\x4"]);
        let at = g.below(t.len() + 1);
        t.splice(at..at, p.iter().copied());
    }
    t
}
fn b64y(g: &mut Rng, x: &[u8]) -> Vec<u8> {
    let mut t = base64(x).into_bytes();
    match g.below(8) {
        0 => t.push(b'='),
        1 => {
            t.pop();
        }
        2 if !t.is_empty() => {
            let i = g.below(t.len());
            t[i] = *g.pick(b"+/=-_Az9 \n\xff")
        }
        3 if !t.is_empty() => {
            let i = t.len() - 1;
            t[i] = *g.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
        }
        4 => t.push(b'A'),
        _ => {}
    }
    t
}
fn ab_n<const N: usize>(g: &mut Rng, reps: usize) {
    let sc = abe::scope::basic_scope();
    for i in 0..reps {
        let x = match i {
            0 => vec![0; N],
            1 => vec![255; N],
            _ => g.exact(N),
        };
        let a: [u8; N] = x.as_slice().try_into().unwrap();
        let v = AB(a);
        call("same", vec![in_(&x)], || ok(b(AB::<[u8; N]>::try_from(x.as_slice()).unwrap().as_ref() as &[u8])));
        call("same", vec![in_(&x)], || ok(b(AB::from_ref(&a).0)));
        call("cut", vec![in_(&x)], || ok(b(v.cut_prefix_nulls())));
        call("cut", vec![in_(&x)], || ok(b(v.as_ref_cut(true))));
        call("same", vec![in_(&x)], || ok(b(v.as_ref_cut(false))));
        call("abdisp", vec![in_(&x)], || ok(b(v.to_string())));
        call("abdisp", vec![in_(&x)], || ok(b(format!("{v:?}"))));
        call("abdisp", vec![in_(&x)], || ok(b(v.as_str(false).as_bytes())));
        call("abcut", vec![in_(&x)], || ok(b(v.as_str(true).as_bytes())));
        call("abcut", vec![in_(&x)], || ok(b(as_abtxt_c(&x, true).as_bytes())));
        call("abdisp", vec![in_(&x)], || ok(b(as_abtxt_c(&x, false).as_bytes())));
        call("utf8", vec![in_(&x)], || of(v.utf8()));
        call("tryutf8", vec![in_(&x)], || ok(b(v.try_utf8().as_bytes())));
        // the expression forms have to evaluate back, in the specification and in the code
        call("abetxt", vec![in_(&x)], || ok(b(v.to_abe_str())));
        call("abeast", vec![in_(&x)], || ok_l(ast(&v.to_abe())));
        call("same", vec![in_(&x)], || of(TypedABE::<AB<[u8; N]>>::try_from(v.to_abe_str().as_bytes()).unwrap().eval(&sc).map(|v| v.0)));
        call("same", vec![in_(&x)], || of(TypedABE::<AB<[u8; N]>>::from_unchecked(v.to_abe()).eval(&sc).map(|v| v.0)));
        call("same", vec![in_(&x)], || of(v.to_string().parse::<AB<[u8; N]>>().map(|v| v.0)));
        call("same", vec![in_(&x)], || of(v.as_str(true).parse::<AB<[u8; N]>>().map(|v| v.0)));
        call("asitem", vec![in_(&x)], || ok_l(ablist(&ABList::from(v))));
        let y = g.exact(N);
        let w = AB::<[u8; N]>::try_from(y.as_slice()).unwrap();
        call("cmp", vec![in_(&x), ("in2", b(&y)), ("le", J::N(0))], || ok(b([(v.cmp(&w) as i8 + 1) as u8])));
        let k = if g.chance(30) { N } else { g.below(N + 3) };
        let short = g.exact(k);
        call("fit", vec![in_(&short), n_(N), ("fill", J::N(0))], || of(AB::<[u8; N]>::try_from(short.as_slice()).map(|v| v.0)));
        call("fit", vec![in_(&short), n_(N), ("fill", J::N(0))], || of(try_ab::<N>(&short).map(|v| v.0)));
        call("fit", vec![in_(&short), n_(N), ("fill", J::N(255))], || of(AB::<[u8; N]>::try_fit_slice_filled::<255>(&short).map(|v| v.0)));
        if k <= N {
            call("fit", vec![in_(&short), n_(N), ("fill", J::N(0))], || ok(b(ab::<N>(&short).0)));
            call("fit", vec![in_(&short), n_(N), ("fill", J::N(255))], || ok(b(abx::<N>(&short).0)));
        }
        let t = texty(g, &short);
        call("abstr", vec![in_(&t), n_(N)], || of(AB::<[u8; N]>::parse_abtxt(&t).map(|v| v.0)));
        if let Ok(st) = std::str::from_utf8(&t) {
            call("abstr", vec![in_(&t), n_(N)], || of(st.parse::<AB<[u8; N]>>().map(|v| v.0)));
            call("dec", vec![in_(&t), ("max", J::N(65000))], || of(st.parse::<AB<Vec<u8>>>().map(|v| v.0)));
        }
        let l = some_list(g, N);
        call("ablist", vec![("l", ablist(&l)), n_(N)], || of(AB::<[u8; N]>::try_from(l.clone()).map(|v| v.0)));
    }
}
fn b64_n<const N: usize>(g: &mut Rng, reps: usize) {
    let sc = abe::scope::basic_scope();
    for i in 0..reps {
        let x = match i {
            0 => vec![0; N],
            1 => vec![255; N],
            _ => g.exact(N),
        };
        let a: [u8; N] = x.as_slice().try_into().unwrap();
        let v = B64(a);
        call("b64", vec![in_(&x)], || ok(b(v.to_string())));
        call("b64", vec![in_(&x)], || ok(b(format!("{v:?}"))));
        call("b64", vec![in_(&x)], || ok(b(v.b64())));
        call("b64", vec![in_(&x)], || ok(b(b64(&x, false))));
        call("b64", vec![in_(&x)], || {
            let mut o = String::new();
            v.b64_into(&mut o);
            ok(b(o))
        });
        call("mini", vec![in_(&x)], || ok(b(v.b64_mini())));
        call("mini", vec![in_(&x)], || ok(b(b64(&x, true))));
        call("same", vec![in_(&x)], || ok(b(B64::from_ref(&a).inner())));
        call("same", vec![in_(&x)], || of(v.to_string().parse::<B64<[u8; N]>>().map(|v| v.0)));
        call("same", vec![in_(&x)], || of(B64::<[u8; N]>::try_fit_bytes_or_b64(&x).map(|v| v.0)));
        call("same", vec![in_(&x)], || of(B64::<[u8; N]>::try_from(x.as_slice()).map(|v| v.0)));
        call("abetxt", vec![in_(&x)], || ok(b(v.to_abe_str())));
        call("abeast", vec![in_(&x)], || ok_l(ast(&v.to_abe())));
        call("same", vec![in_(&x)], || of(TypedABE::<B64<[u8; N]>>::try_from(v.to_abe_str().as_bytes()).unwrap().eval(&sc).map(|v| v.0)));
        call("asitem", vec![in_(&x)], || ok_l(ablist(&ABList::from(v))));
        let y = g.exact(N);
        let w = B64::<[u8; N]>::try_from(y.as_slice()).unwrap();
        call("cmp", vec![in_(&x), ("in2", b(&y)), ("le", J::N(0))], || ok(b([(v.cmp(&w) as i8 + 1) as u8])));
        let k = if g.chance(30) { N } else { g.below(N + 3) };
        let short = g.exact(k);
        call("fitexact", vec![in_(&short), n_(N)], || of(B64::<[u8; N]>::try_fit_slice(&short).map(|v| v.0)));
        let t = if g.chance(70) { b64y(g, &x) } else { b64y(g, &short) };
        call("b64parse", vec![in_(&t), n_(N)], || of(B64::<[u8; N]>::parse_str(&t).map(|v| v.0)));
        call("b64fit", vec![in_(&t), n_(N)], || of(B64::<[u8; N]>::try_fit_bytes_or_b64(&t).map(|v| v.0)));
        call("b64vec", vec![in_(&t)], || of(B64::<Vec<u8>>::parse_str(&t).map(|v| v.0)));
        if let Ok(st) = std::str::from_utf8(&t) {
            call("b64parse", vec![in_(&t), n_(N)], || of(st.parse::<B64<[u8; N]>>().map(|v| v.0)));
        }
        let l = if g.chance(70) {
            some_list(g, N)
        } else {
            ABList::DEFAULT.push_bytes(&t)
        };
        call("b64list", vec![("l", ablist(&l)), n_(N)], || of(B64::<[u8; N]>::try_from(l.clone()).map(|v| v.0)));
    }
}
pub fn f01(g: &mut Rng, n: usize) {
    let k = n / 10 + 4;
    ab_n::<0>(g, 3);
    ab_n::<1>(g, k);
    ab_n::<2>(g, k);
    ab_n::<8>(g, k);
    ab_n::<16>(g, 2 * k);
    ab_n::<17>(g, k);
    ab_n::<32>(g, k);
    b64_n::<1>(g, k);
    b64_n::<2>(g, k);
    b64_n::<3>(g, k);
    b64_n::<13>(g, k);
    b64_n::<16>(g, k);
    b64_n::<32>(g, 2 * k);
    b64_n::<64>(g, k);
    for i in 0..k {
        let x: [u8; 32] = g.exact(32).try_into().unwrap();
        let y: [u8; 32] = g.exact(32).try_into().unwrap();
        call("xor", vec![in_(&x), ("in2", b(y))], || ok(b((B64(x) ^ B64(y)).0)));
        call("same", vec![in_(&x)], || ok(b(B64(x).into_bytes())));
        call("dec10", vec![in_(&x)], || ok(b(B64(x).to_u256().to_string())));
        call("same", vec![in_(&x)], || ok(b(B64::from_u256(<B64<[u8; 32]> as Into<U256>>::into(B64(x))).0)));
        call("same", vec![in_(&x)], || ok(b(B64::<[u8; 32]>::from(B64(x).to_u256()).0)));
        call("cmp", vec![in_(&x), ("in2", b(y)), ("le", J::N(0))], || ok(b([(B64(x).to_u256().cmp(&B64(y).to_u256()) as i8 + 1) as u8])));
        let z: [u8; 64] = [x, y].concat().try_into().unwrap();
        call("dec10", vec![in_(&z)], || ok(b(<B64<[u8; 64]> as Into<U512>>::into(B64(z)).to_string())));
        call("same", vec![in_(&z)], || ok(b(B64::<[u8; 64]>::from(<B64<[u8; 64]> as Into<U512>>::into(B64(z))).0)));
        let q: [u8; 16] = g.exact(16).try_into().unwrap();
        call("dec10", vec![in_(&q)], || ok(b(AB(q).to_u128().to_string())));
        call("same", vec![in_(&q)], || ok(b(AB::from_u128(AB(q).into()).0)));
        call("same", vec![in_(&q)], || ok(b(AB(q).uint().to_bytes())));
        if i == 0 {
            call("same", vec![in_(&q)], || ok(b(ab_slice(&[q, q])[1].0)));
        }
    }
}
macro_rules! endian {
    ($g:ident,$n:ident, $t:ident, $nat:ident, $w:expr, $le:expr, $other:ident) => {{
        let g: &mut Rng = $g;
        let sc = abe::scope::basic_scope();
        let f = |x: &[u8]| vec![in_(x), n_($w), ("le", J::N($le))];
        for i in 0..$n {
            let v: $nat = match i {
                0 => 0,
                1 => $nat::MAX,
                2 => 1,
                3 => $nat::MAX - 1,
                4 => $nat::MAX / 2,
                5 => $nat::MAX / 2 + 1,
                6 => 255,
                7 => <$nat>::MAX & !255,
                _ => <$nat>::from_be_bytes(g.exact($w).try_into().unwrap()),
            };
            let o: $nat = match g.below(6) {
                0 => v,
                1 => v.wrapping_add(1),
                2 => (<$nat>::MAX - v).wrapping_add(g.below(3) as $nat).wrapping_sub(1),
                3 => v.swap_bytes(),
                _ => <$nat>::from_be_bytes(g.exact($w).try_into().unwrap()),
            };
            let d = v.to_string().into_bytes();
            call("unew", f(&d), || ok(b($t::new(v).to_bytes())));
            call("unew", f(&d), || ok(b(<$t>::from(v).0)));
            call("unew", f(&d), || {
                let mut z = $t::ZERO;
                z.set(v);
                ok(b(z.as_ref()))
            });
            let x = $t::from(<[u8; $w]>::try_from(g.exact($w)).unwrap());
            let x = if i < 8 { $t::new(v) } else { x };
            let y = $t::new(o);
            let two = |k: &'static str| {
                let mut l = f(&x.0);
                l.push(("in2", b(y.0)));
                l.push(("what", s(k)));
                l
            };
            call("uget", f(&x.0), || ok(b(x.get().to_string())));
            call("uget", f(&x.0), || ok(b(x.to_string())));
            call("uget", f(&x.0), || {
                let n: $nat = x.into();
                ok(b(n.to_string()))
            });
            call("same", f(&x.0), || of(x.to_string().parse::<$t>().map(|v| v.0)));
            call("same", f(&x.0), || of($t::try_from(&x.0[..]).map(|v| v.0)));
            call("same", f(&x.0), || ok(b(*x)));
            call("same", f(&x.0), || {
                let q: [u8; $w] = x.into();
                ok(b(q))
            });
            call("cmp", two("cmp"), || ok(b([(x.cmp(&y) as i8 + 1) as u8])));
            call("cmp", two("pcmp"), || ok(b([(x.partial_cmp(&y).unwrap() as i8 + 1) as u8])));
            call("ueq", two("eq"), || ok(b([(x == y) as u8])));
            call("uop", two("add"), || ok(b(x.saturating_add(y).0)));
            call("uop", two("sub"), || ok(b(x.saturating_sub(y).0)));
            call("uop", two("and"), || ok(b((x & y).0)));
            call("uop", two("or"), || ok(b((x | y).0)));
            call("uop", two("not"), || ok(b((!x).0)));
            call("uop", two("incr"), || ok(b(x.incr().0)));
            call("uop", two("max"), || ok(b($t::MAX.0)));
            call("uop", two("zero"), || ok(b($t::ZERO.0)));
            call("uop", two("rev"), || ok(b($other::from(x).0)));
            call("ubin", f(&x.0), || ok(b(format!("{x:b}"))));
            call("ubin", f(&x.0), || ok(b(binary_str(&x.0))));
            call("abetxt", f(&x.0), || ok(b(x.to_abe_str())));
            call("abeast", f(&x.0), || ok_l(ast(&x.to_abe())));
            call("same", f(&x.0), || of(TypedABE::<$t>::from_unchecked(x.to_abe()).eval(&sc).map(|v| v.0)));
            call("same", f(&x.0), || of(TypedABE::<$t>::try_from(x.to_abe_str().as_bytes()).unwrap().eval(&sc).map(|v| v.0)));
            call("same", f(&x.0), || of($t::try_from(ABList::from(x)).map(|v| v.0)));
            call("uitem", f(&x.0), || ok_l(ablist(&ABList::from(x))));
            let t = g.number();
            if let Ok(st) = std::str::from_utf8(&t) {
                call("ustr", f(&t), || of(st.parse::<$t>().map(|v| v.0)));
            }
            let l = some_list(g, $w);
            call("ulist", vec![("l", ablist(&l)), n_($w), ("le", J::N($le))], || of($t::try_from(l.clone()).map(|v| v.0)));
            let k = g.below($w + 2);
            let sl = g.exact(k);
            call("fitexact", vec![in_(&sl), n_($w)], || of($t::try_from(sl.as_slice()).map(|v| v.0)));
        }
    }};
}
macro_rules! little {
    ($g:ident,$n:ident, $t:ident, $w:expr) => {{
        let sc = abe::scope::basic_scope();
        for _ in 0..$n {
            let x = $t::from(<[u8; $w]>::try_from($g.exact($w)).unwrap());
            call("luabe", vec![in_(&x.0)], || ok_l(ast(&x.lu_abe())));
            call("same", vec![in_(&x.0)], || of(TypedABE::<$t>::from_unchecked(x.lu_abe()).eval(&sc).map(|v| v.0)));
            let k = $g.below($w + 3);
            let sl = $g.exact(k);
            call("fitfront", vec![in_(&sl), n_($w)], || of($t::try_fit_slice(&sl).map(|v| v.0)));
        }
    }};
}
pub fn f02(g: &mut Rng, n: usize) {
    let k = n / 8 + 8;
    endian!(g, k, U16, u16, 2, 0, LU16);
    endian!(g, k, U32, u32, 4, 0, LU32);
    endian!(g, k, U64, u64, 8, 0, LU64);
    endian!(g, k, U128, u128, 16, 0, LU128);
    endian!(g, k, LU16, u16, 2, 1, U16);
    endian!(g, k, LU32, u32, 4, 1, U32);
    endian!(g, k, LU64, u64, 8, 1, U64);
    endian!(g, k, LU128, u128, 16, 1, U128);
    little!(g, k, LU16, 2);
    little!(g, k, LU32, 4);
    little!(g, k, LU64, 8);
    little!(g, k, LU128, 16);
    let sc = abe::scope::basic_scope();
    for x in 0..=255u8 {
        let v = U8::new(x);
        call("abeast", vec![in_(&[x])], || ok_l(ast(&v.to_abe())));
        call("abeast", vec![in_(&[x])], || ok_l(ast(&v.abe_bits())));
        call("same", vec![in_(&[x])], || of(TypedABE::<U8>::from_unchecked(v.to_abe()).eval(&sc).map(|v| [v.0])));
        call("same", vec![in_(&[x])], || of(TypedABE::<U8>::from_unchecked(v.abe_bits()).eval(&sc).map(|v| [v.0])));
        call("same", vec![in_(&[x])], || of(U8::try_from(ABList::from(v)).map(|v| [u8::from(v)])));
    }
    for _ in 0..k {
        let l = some_list(g, 1);
        call("ulist", vec![("l", ablist(&l)), n_(1), ("le", J::N(0))], || of(U8::try_from(l.clone()).map(|v| [v.0])));
    }
}
