//! Scopes built from a description, the same one the specification gets.
use crate::gen::Rng;
use crate::rec::*;
use abe::eval::*;
use abe::scope::argv::{ArgList, ArgV};
use abe::ABE;
use std::cell::{LazyCell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct TFn {
    pub id: &'static str,
    pub lo: usize,
    pub hi: usize,
    pub init: u8,
    pub r: &'static str,
    pub tag: u8,
    pub enc: &'static str,
}
#[derive(Clone, Debug)]
pub struct TMacro {
    pub id: &'static str,
    pub r: &'static str,
    pub tag: u8,
}
#[derive(Clone, Debug)]
pub enum Tree {
    Basic,
    ArgV(Vec<Vec<u8>>),
    ArgList(Vec<Vec<u8>>),
    Test(Vec<TFn>, Vec<TMacro>),
    None,
    Error,
    All(Vec<Tree>, u8),
}
fn node(k: &str, c: Vec<J>, v: Vec<J>, f: Vec<J>, m: Vec<J>) -> J {
    J::O(vec![("k", s(k)), ("c", J::L(c)), ("v", J::L(v)), ("f", J::L(f)), ("m", J::L(m))])
}
impl Tree {
    pub fn json(&self) -> J {
        let bs = |v: &Vec<Vec<u8>>| v.iter().map(b).collect::<Vec<_>>();
        match self {
            Tree::Basic => node("basic", vec![], vec![], vec![], vec![]),
            Tree::ArgV(v) => node("argv", vec![], bs(v), vec![], vec![]),
            Tree::ArgList(v) => node("arglist", vec![], bs(v), vec![], vec![]),
            Tree::None => node("none", vec![], vec![], vec![], vec![]),
            Tree::Error => node("error", vec![], vec![], vec![], vec![]),
            Tree::All(c, _) => node("all", c.iter().map(|c| c.json()).collect(), vec![], vec![], vec![]),
            Tree::Test(f, m) => node(
                "test",
                vec![],
                vec![],
                f.iter()
                    .map(|f| {
                        J::O(vec![
                            ("id", b(f.id)),
                            ("lo", J::N(f.lo as i64)),
                            ("hi", J::N(f.hi as i64)),
                            ("init", J::N(f.init as i64)),
                            ("r", s(f.r)),
                            ("tag", J::N(f.tag as i64)),
                            ("enc", s(f.enc)),
                        ])
                    })
                    .collect(),
                m.iter().map(|m| J::O(vec![("id", b(m.id)), ("r", s(m.r)), ("tag", J::N(m.tag as i64))])).collect(),
            ),
        }
    }
    pub fn build(&self) -> &'static dyn Scope {
        fn leak<S: Scope + 'static>(s: S) -> &'static dyn Scope {
            Box::leak(Box::new(s))
        }
        match self {
            Tree::Basic => leak(abe::scope::basic_scope()),
            Tree::ArgV(v) => {
                let v: &'static Vec<Vec<u8>> = Box::leak(Box::new(v.clone()));
                let r: &'static Vec<&'static [u8]> = Box::leak(Box::new(v.iter().map(|x| x.as_slice()).collect()));
                leak(EScope(ArgV::try_fit(r).expect("at most eight")))
            }
            Tree::ArgList(v) => leak(ArgList::<Vec<Vec<u8>>, Vec<u8>>::new(v.clone())),
            Tree::Test(f, m) => leak(EScope(TScope::new(f.clone(), m.clone()))),
            Tree::None => leak(None::<abe::scope::BasicScope>),
            Tree::Error => leak(anyhow::Result::<abe::scope::BasicScope>::Err(anyhow::anyhow!("no scope"))),
            Tree::All(c, wrap) => {
                let mut k: Vec<&'static dyn Scope> = c.iter().map(|c| c.build()).collect();
                match k.len() {
                    0 => leak(()),
                    1 => {
                        let x = k.pop().unwrap();
                        match wrap % 6 {
                            0 => leak(x),
                            1 => leak(Rc::new(x)),
                            2 => leak(Arc::new(x)),
                            3 => leak(Some(x)),
                            4 => leak(anyhow::Result::<&'static dyn Scope>::Ok(x)),
                            _ => {
                                thread_local!(static STASH: RefCell<Option<&'static dyn Scope>> = RefCell::new(None));
                                STASH.with(|s| *s.borrow_mut() = Some(x));
                                let l: LazyCell<&'static dyn Scope> = LazyCell::new(|| STASH.with(|s| s.borrow_mut().take().unwrap()));
                                LazyCell::force(&l);
                                leak(l)
                            }
                        }
                    }
                    2 => {
                        if wrap % 2 == 0 {
                            leak((k[0], k[1]))
                        } else {
                            leak((Rc::new(k[0]), Some(k[1])))
                        }
                    }
                    _ => {
                        assert!(k.len() == 3);
                        leak((k[0], k[1], k[2]))
                    }
                }
            }
        }
    }
}
pub struct TScope {
    fns: Vec<ScopeFunc<&'static TScope>>,
    macros: Vec<ScopeMacro<&'static TScope>>,
    f: Vec<TFn>,
    m: Vec<TMacro>,
}
fn run<const I: usize>(t: &TScope, a: &[&[u8]], init: bool, _s: &dyn Scope) -> ApplyResult {
    let f = &t.f[I];
    match f.r {
        "no" => ApplyResult::NoValue,
        "err" => ApplyResult::Err(anyhow::anyhow!("told to fail")),
        "args" => {
            let mut o = vec![48 + f.tag, if init { b'i' } else { b'c' }];
            for x in a {
                o.push(b'|');
                o.extend_from_slice(x)
            }
            ApplyResult::Value(o)
        }
        _ => ApplyResult::Value(vec![48 + f.tag]),
    }
}
fn enc<const I: usize>(t: &TScope, b: &[u8], _o: &[ABE]) -> ApplyResult<String> {
    let f = &t.f[I];
    match f.enc {
        "no" => ApplyResult::NoValue,
        "err" => ApplyResult::Err(anyhow::anyhow!("told to fail")),
        _ => ApplyResult::Value("[:]".repeat(f.tag as usize) + &abe::abtxt::as_abtxt(b)),
    }
}
fn mac<const I: usize>(t: &TScope, body: &[ABE], _s: &dyn Scope) -> ApplyResult {
    let m = &t.m[I];
    match m.r {
        "no" => ApplyResult::NoValue,
        "err" => ApplyResult::Err(anyhow::anyhow!("told to fail")),
        _ => {
            let mut o = vec![48 + m.tag];
            o.extend_from_slice(abe::print_abe(body).as_bytes());
            ApplyResult::Value(o)
        }
    }
}
impl TScope {
    fn new(f: Vec<TFn>, m: Vec<TMacro>) -> Self {
        macro_rules! tab { ($g:ident) => { [$g::<0>, $g::<1>, $g::<2>, $g::<3>, $g::<4>, $g::<5>] } }
        type A = fn(&TScope, &[&[u8]], bool, &dyn Scope) -> ApplyResult;
        type E = fn(&TScope, &[u8], &[ABE]) -> ApplyResult<String>;
        type M = fn(&TScope, &[ABE], &dyn Scope) -> ApplyResult;
        let a: [A; 6] = tab!(run);
        let e: [E; 6] = tab!(enc);
        let mm: [M; 6] = tab!(mac);
        let fns = f
            .iter()
            .enumerate()
            .map(|(i, x)| ScopeFunc {
                apply: unsafe { std::mem::transmute::<A, fn(&'static TScope, &[&[u8]], bool, &dyn Scope) -> ApplyResult>(a[i]) },
                to_abe: unsafe { std::mem::transmute::<E, fn(&'static TScope, &[u8], &[ABE]) -> ApplyResult<String>>(e[i]) },
                info: ScopeFuncInfo {
                    id: x.id,
                    init_eq: match x.init {
                        0 => None,
                        1 => Some(true),
                        _ => Some(false),
                    },
                    to_abe: x.enc != "none",
                    argc: x.lo..=x.hi,
                    help: "",
                },
            })
            .collect();
        let macros = m
            .iter()
            .enumerate()
            .map(|(i, x)| ScopeMacro {
                apply: unsafe { std::mem::transmute::<M, fn(&'static TScope, &[ABE], &dyn Scope) -> ApplyResult>(mm[i]) },
                info: ScopeMacroInfo { id: x.id, help: "" },
            })
            .collect();
        TScope { fns, macros, f, m }
    }
}
impl EvalScopeImpl for TScope {
    fn list_funcs(&self) -> &[ScopeFunc<&Self>] {
        // the tables hold function pointers that work for every lifetime
        unsafe { std::mem::transmute::<&[ScopeFunc<&'static TScope>], &[ScopeFunc<&Self>]>(&self.fns) }
    }
    fn list_macros(&self) -> &[ScopeMacro<&Self>] {
        unsafe { std::mem::transmute::<&[ScopeMacro<&'static TScope>], &[ScopeMacro<&Self>]>(&self.macros) }
    }
}
const IDS: &[&str] = &["x", "y", "z", "", "u8", "a", "b"];
pub fn test_scope(g: &mut Rng, tag: u8) -> Tree {
    let n = 1 + g.below(4);
    let f = (0..n)
        .map(|i| {
            let lo = g.below(3);
            TFn {
                id: *g.pick(IDS),
                lo,
                hi: lo + g.below(3),
                init: *g.pick(&[0, 0, 0, 1, 2]),
                r: *g.pick(&["args", "args", "args", "val", "err", "no"]),
                tag: (tag * 4 + i as u8) % 40,
                enc: *g.pick(&["none", "none", "ok", "err", "no"]),
            }
        })
        .collect();
    let n = g.below(3);
    let m = (0..n)
        .map(|i| TMacro { id: *g.pick(IDS), r: *g.pick(&["val", "val", "err", "no"]), tag: (tag * 4 + i as u8) % 40 })
        .collect();
    Tree::Test(f, m)
}
pub fn tree(g: &mut Rng, depth: usize, tag: &mut u8) -> Tree {
    if depth == 0 || g.chance(30) {
        *tag += 1;
        match g.below(20) {
            0 => Tree::None,
            1 => Tree::Error,
            2 => Tree::Basic,
            3 => Tree::ArgV((0..g.below(9)).map(|_| g.bytes(3)).collect()),
            4 => Tree::ArgList((0..g.below(4)).map(|_| g.bytes(3)).collect()),
            _ => test_scope(g, *tag),
        }
    } else {
        let n = *g.pick(&[0, 1, 1, 2, 2, 2, 3, 3]);
        Tree::All((0..n).map(|_| tree(g, depth - 1, tag)).collect(), g.below(6) as u8)
    }
}
