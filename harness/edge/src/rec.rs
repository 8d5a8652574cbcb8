use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};
/// A json value.
#[derive(Clone, Debug)]
pub enum J {
    N(i64),
    S(String),
    B(Vec<u8>),
    L(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N(n) => o.push_str(&n.to_string()),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' | '\\' => {
                            o.push('\\');
                            o.push(c)
                        }
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::B(b) => {
                o.push('[');
                for (i, x) in b.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    o.push_str(&x.to_string())
                }
                o.push(']')
            }
            J::L(l) => {
                o.push('[');
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(l) => {
                o.push('{');
                for (i, (k, x)) in l.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    o.push_str(&format!("\"{k}\":"));
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
pub fn b(x: impl AsRef<[u8]>) -> J {
    J::B(x.as_ref().to_vec())
}
pub fn s(x: &str) -> J {
    J::S(x.to_string())
}
struct St {
    out: std::io::BufWriter<std::fs::File>,
    id: usize,
    cur: Option<(Instant, String)>,
}
static ST: Mutex<Option<St>> = Mutex::new(None);
pub fn start(path: &str) {
    *ST.lock().unwrap() = Some(St { out: std::io::BufWriter::new(std::fs::File::create(path).unwrap()), id: 0, cur: None });
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let mut g = ST.lock().unwrap();
        let Some(st) = g.as_mut() else { return };
        if let Some((t, head)) = &st.cur {
            if t.elapsed() > Duration::from_secs(20) {
                // the call does not come back: that is its answer
                let line = format!("{head},\"r\":{{\"k\":\"hang\",\"b\":[],\"l\":[]}}}}\n");
                st.out.write_all(line.as_bytes()).unwrap();
                st.out.flush().unwrap();
                std::process::exit(0)
            }
        }
    });
}
pub fn finish() {
    let mut st = ST.lock().unwrap().take().unwrap();
    st.out.flush().unwrap();
}
/// What the code answered: kind and payload.
pub struct Ans(pub &'static str, pub J, pub J);
pub fn ok(x: J) -> Ans {
    Ans("ok", x, J::L(vec![]))
}
pub fn ok_l(x: J) -> Ans {
    Ans("ok", J::L(vec![]), x)
}
pub fn err() -> Ans {
    Ans("err", J::L(vec![]), J::L(vec![]))
}
pub fn no() -> Ans {
    Ans("no", J::L(vec![]), J::L(vec![]))
}
/// Texts may ask for gigabytes of padding: such calls are cut short and not recorded.
pub struct Bounded;
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static BOUND: AtomicUsize = AtomicUsize::new(usize::MAX);
static HIT: AtomicUsize = AtomicUsize::new(0);
fn refuse(n: usize) -> bool {
    let no = n > LIMIT.load(Relaxed);
    if no && n < 1 << 40 {
        HIT.store(1, Relaxed)
    }
    no
}
unsafe impl GlobalAlloc for Bounded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Bounded = Bounded;
struct Huge;
pub fn bound(n: usize) {
    BOUND.store(n, Relaxed);
    std::alloc::set_alloc_error_hook(|_| {
        LIMIT.store(usize::MAX, Relaxed);
        std::panic::panic_any(Huge)
    });
}
fn may_pad(head: &str) -> bool {
    // names of padding functions, as text or as bytes: a f *pad *fixed
    head.contains("97") || head.contains("102") || head.contains("120") || head.contains("92")
}
/// Write a record as it is.
#[allow(dead_code)]
pub fn line(j: J) {
    let mut t = String::new();
    j.w(&mut t);
    t.push('\n');
    let mut g = ST.lock().unwrap();
    let st = g.as_mut().unwrap();
    st.cur = None;
    st.out.write_all(t.as_bytes()).unwrap();
}
/// What is written should the following never come back (until the next `line`).
#[allow(dead_code)]
pub fn busy(what: Vec<(&'static str, J)>) {
    let mut t = String::new();
    J::O(what).w(&mut t);
    t.pop();
    if std::env::var_os("TRACE_CALLS").is_some() {
        eprintln!("CALL {t}");
    }
    ST.lock().unwrap().as_mut().unwrap().cur = Some((Instant::now(), t));
}
/// Perform one call; a panic is an answer too.
pub fn call(op: &'static str, fields: Vec<(&'static str, J)>, f: impl FnOnce() -> Ans) {
    let mut head = String::new();
    let id;
    {
        let mut g = ST.lock().unwrap();
        let st = g.as_mut().unwrap();
        id = st.id;
        st.id += 1;
        let mut all = vec![("id", J::N(id as i64)), ("op", J::S(op.into()))];
        all.extend(fields);
        J::O(all).w(&mut head);
        head.pop();
        if std::env::var_os("TRACE_CALLS").is_some() {
            eprintln!("CALL {head}");
        }
        st.cur = Some((Instant::now(), head.clone()));
    }
    HIT.store(0, Relaxed);
    LIMIT.store(BOUND.load(Relaxed), Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    LIMIT.store(usize::MAX, Relaxed);
    if HIT.load(Relaxed) == 1 && may_pad(&head) {
        ST.lock().unwrap().as_mut().unwrap().cur = None;
        return;
    }
    let Ans(k, b, l) = match r {
        Ok(a) => a,
        Err(_) => Ans("panic", J::L(vec![]), J::L(vec![])),
    };
    head.push_str(",\"r\":");
    J::O(vec![("k", J::S(k.into())), ("b", b), ("l", l)]).w(&mut head);
    head.push_str("}\n");
    let mut g = ST.lock().unwrap();
    let st = g.as_mut().unwrap();
    st.cur = None;
    st.out.write_all(head.as_bytes()).unwrap();
}
