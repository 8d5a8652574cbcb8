//! Configuration lists.
use crate::a::ablist;
use crate::gen::Rng;
use crate::rec::*;
use abe::abconf::ABConf;
use abe::ast::Ctr;
use abe::eval::ABList;

type Ent = Vec<(Option<Ctr>, Vec<u8>)>;
fn list(e: &Ent) -> ABList {
    let mut l = ABList::DEFAULT;
    e.iter().for_each(|x| l.push_v(x.clone()));
    l
}
fn word(g: &mut Rng) -> Vec<u8> {
    const W: &[&[u8]] = &[b"a", b"b", b"ab", b"", b"%", b"%abctxt", b":", b"/", b"\n", b"\xff", b"[x]", b"\\"];
    let n = if g.chance(85) { 3 } else { W.len() };
    W[g.below(n)].to_vec()
}
fn entry(g: &mut Rng) -> Ent {
    let n = *g.pick(&[0, 1, 1, 2, 2, 3, 3, 4]);
    let mut e: Ent = vec![];
    for i in 0..n {
        let c = if i == 0 && g.chance(85) {
            None
        } else if g.chance(80) {
            Some(Ctr::Colon)
        } else {
            Some(Ctr::FSlash)
        };
        let mut w = if g.chance(10) { vec![] } else { word(g) };
        if c.is_none() && w.is_empty() {
            w = b"a".to_vec()
        }
        e.push((c, w));
    }
    e
}
fn lookups(ents: &[Ent], via: i64, conf: &ABConf, keys: &[Vec<u8>]) {
    let k: Vec<&[u8]> = keys.iter().map(|x| x.as_slice()).collect();
    let fields = |kind: &'static str| {
        vec![
            ("ents", J::L(ents.iter().map(|e| ablist(&list(e))).collect())),
            ("keys", J::L(keys.iter().map(b).collect())),
            ("kind", s(kind)),
            ("via", J::N(via)),
        ]
    };
    call("look", fields("all"), || {
        let l = conf.get_checked(&k).map(|r| match r {
            Ok(l) => J::O(vec![("k", s("ok")), ("l", ablist(l))]),
            Err(l) => J::O(vec![("k", s("err")), ("l", ablist(l))]),
        });
        ok_l(J::L(l.collect()))
    });
    call("look", fields("val"), || match conf.has_optional_value(&k) {
        None => no(),
        Some(Ok(None)) => ok_l(J::L(vec![])),
        Some(Ok(Some(v))) => Ans("ok", b(v), J::L(vec![J::N(1)])),
        Some(Err(_)) => err(),
    });
    if k.len() == 1 {
        call("look", fields("one"), || match conf.get(k[0]) {
            None => no(),
            Some(Ok(l)) => Ans("ok", J::L(vec![]), ablist(l)),
            Some(Err(l)) => Ans("err", J::L(vec![]), ablist(l)),
        });
    }
}
fn parse(t: &[u8]) {
    call("cparse", vec![("in", b(t))], || match ABConf::try_from(t) {
        // the entries are only visible in the printed form
        Ok(c) => ok(b(c.to_string())),
        Err(_) => err(),
    });
}
fn conf_case(ents: Vec<Ent>, g: &mut Rng, nkeys: usize) {
    let mut conf = if g.chance(50) {
        ABConf::new(ents.iter().map(list).collect())
    } else {
        let mut c = ABConf::default();
        let cut = g.below(ents.len() + 1);
        ents[..cut].iter().for_each(|e| c.push(list(e)));
        c.extend(ents[cut..].iter().map(list).collect());
        c
    };
    if g.chance(5) {
        conf = conf.clone();
    }
    let printed = conf.to_string();
    let again = std::panic::catch_unwind(|| ABConf::try_from(printed.as_bytes()));
    call("reparse", vec![("ents", J::L(ents.iter().map(|e| ablist(&list(e))).collect()))], || {
        if ABConf::try_from(printed.as_bytes()).is_ok() {
            ok(b(&printed))
        } else {
            err()
        }
    });
    for _ in 0..nkeys {
        let mut keys: Vec<Vec<u8>> = (0..1 + g.below(3)).map(|_| word(g)).collect();
        if g.chance(60) && !ents.is_empty() {
            let l = list(g.pick(&ents));
            let all: Vec<&[u8]> = l.iter_bytes().collect();
            let n = g.below(all.len() + 1).max(1);
            keys = all.into_iter().take(n).map(|x| x.to_vec()).collect();
            if keys.is_empty() {
                keys.push(b"a".to_vec())
            }
        }
        lookups(&ents, 0, &conf, &keys);
        if let Ok(Ok(c)) = &again {
            lookups(&ents, 1, c, &keys);
        }
    }
}
pub fn a07(g: &mut Rng, n: usize) {
    // every entry of up to three items over a small alphabet, alone and below another
    let ctrs = [Some(Ctr::Colon), Some(Ctr::FSlash)];
    let words: [&[u8]; 2] = [b"a", b""];
    let mut ents: Vec<Ent> = vec![vec![]];
    for c in [None, ctrs[0], ctrs[1]] {
        for w in words {
            if c.is_none() && w.is_empty() {
                continue;
            }
            ents.push(vec![(c, w.to_vec())]);
            for c2 in ctrs {
                for w2 in words {
                    ents.push(vec![(c, w.to_vec()), (c2, w2.to_vec())]);
                    for c3 in ctrs {
                        ents.push(vec![(c, w.to_vec()), (c2, w2.to_vec()), (c3, b"v".to_vec())])
                    }
                }
            }
        }
    }
    for e in &ents {
        conf_case(vec![e.clone()], g, 4);
        conf_case(vec![vec![(None, b"a".to_vec())], e.clone(), vec![(None, b"b".to_vec()), (ctrs[0], b"x".to_vec())]], g, 3);
    }
    for k in [16usize, 17, 33, 70] {
        let e: Vec<Ent> = (0..k).map(|_| entry(g)).collect();
        conf_case(e, g, 6);
        let long: Ent = (0..k).map(|i| (if i == 0 { None } else { ctrs[0] }, b"a".to_vec())).collect();
        conf_case(vec![long.clone(), vec![(None, vec![b'a'; k])], long], g, 6);
    }
    for t in [":%", ":%abctxt", ":%abctxt\n", ":%abctxt\na:b\n", ":%other\na", "a\n\nb", "[a]", "a:[b]", "a\n]", "", "\n", "a\t", "\\n:x\ny"] {
        parse(t.as_bytes())
    }
    for _ in 0..n {
        let k = g.below(5);
        let e: Vec<Ent> = (0..k).map(|_| entry(g)).collect();
        conf_case(e, g, 3);
        let t: Vec<u8> = (0..g.below(9))
            .flat_map(|_| g.pick(&[&b"a"[..], b":", b"/", b"\n", b"\\n", b":%", b":%abctxt\n", b"[", b"]", b"[x]", b"\\:", b"\xff", b"b"]).to_vec())
            .collect();
        parse(&t);
    }
}
