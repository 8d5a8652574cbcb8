//! Drives the real `ipcbus` code under the deterministic scheduler and writes what it did.
use ipcbus::{verif_std, ProcBus};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::future::Future;
use std::io::{BufWriter, Write};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake};
use std::time::{Duration, Instant};
use vrt::{Explorer, St};

#[derive(Clone, Debug)]
enum Op {
    Emit(u64),
    Wait,
    WaitD,
    WaitP,
    WaitA,
    Val,
    Init,
    Port(u64),
}
#[derive(Clone, Debug)]
struct Proc {
    bus: u64,
    pid: u32,
    init: bool,
}
#[derive(Clone, Debug, Default)]
struct Scenario {
    procs: Vec<Proc>,
    threads: Vec<(usize, Vec<Op>)>, // (process index, script)
    junk: Vec<(usize, Vec<u8>, [u8; 4])>, // (receiving process, bytes, source ip)
    lossy: bool,
}

thread_local! { static QUIET: Cell<bool> = const { Cell::new(false) } }
static BUSES: Mutex<Vec<(Arc<ProcBus>, u64)>> = Mutex::new(vec![]);
fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let old = QUIET.with(|q| q.replace(true));
    let r = f();
    QUIET.with(|q| q.set(old));
    r
}
fn hook(op: &'static str, detail: &str) {
    if QUIET.with(|q| q.get()) {
        return;
    }
    let _ = detail;
    vrt::point(op)
}
/// Log every change of a bus value as soon as it can be seen.
fn sample() {
    quiet(|| {
        let t = vrt::me().map(|t| t + 1).unwrap_or(*STEPPING.lock().unwrap());
        let mut b = BUSES.lock().unwrap();
        for (i, (bus, last)) in b.iter_mut().enumerate() {
            let v = bus.val();
            if v != *last {
                *last = v;
                vrt::log_raw(format!("{{\"e\":\"val\",\"t\":{t},\"p\":{},\"v\":{v}}}", i + 1));
            }
        }
    })
}
static STEPPING: Mutex<usize> = Mutex::new(0);

fn block_on<F: Future>(f: F) -> F::Output {
    struct W(u64);
    impl Wake for W {
        fn wake(self: Arc<Self>) {
            vrt::wake(self.0)
        }
    }
    let id = vrt::fresh_id();
    let w = Arc::new(W(id)).into();
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    loop {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return v,
            Poll::Pending => vrt::block(id, "async"),
        }
    }
}
fn ev(e: &str, t: usize, p: usize, v: u64, r: i64) {
    vrt::log(format!("{{\"e\":\"{e}\",\"t\":{t},\"p\":{p},\"v\":{v},\"r\":{r}}}"))
}
fn run_script(p: usize, bus: Option<Arc<ProcBus>>, script: Vec<Op>) {
    let t = vrt::me().unwrap() + 1;
    let far = || Instant::now() + Duration::from_secs(36000);
    for op in script {
        let bus = bus.as_ref();
        match op {
            Op::Emit(v) => {
                ev("emit", t, p, v, -1);
                let r = bus.unwrap().emit(v);
                ev("emitret", t, p, v, r as i64);
            }
            Op::Wait | Op::WaitD | Op::WaitP | Op::WaitA => {
                ev("wait", t, p, matches!(op, Op::WaitD) as u64 + 2 * matches!(op, Op::WaitP) as u64, -1);
                let b = bus.unwrap();
                let r = match op {
                    Op::Wait => b.next_deadline(None),
                    Op::WaitD => b.next_deadline(Some(far())),
                    Op::WaitP => b.next_deadline(Some(Instant::now() - Duration::from_secs(1))),
                    _ => Some(block_on(b.next_async())),
                };
                ev("waitret", t, p, 0, r.map(|v| v as i64).unwrap_or(-1));
            }
            Op::Val => {
                ev("read", t, p, 0, -1);
                let r = bus.unwrap().val();
                ev("readret", t, p, 0, r as i64);
            }
            Op::Init => bus.unwrap().init(),
            Op::Port(id) => {
                ev("req", t, p, id, -1);
                let r = ipcbus::get_port(id);
                ev("got", t, p, id, r.map(|v| v as i64).unwrap_or(-1));
            }
        }
    }
}
struct Setup {
    dir: PathBuf,
}
fn bus_dir(s: &Setup, bus: u64) -> PathBuf {
    let d = s.dir.join(format!("bus{bus}"));
    if !d.join("id").exists() {
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("id"), (0x1122_3344_5566_0000u64 + bus).to_be_bytes()).unwrap();
    }
    d
}
/// Run one execution; returns its events and whether the tool itself got stuck.
fn execute(s: &Setup, sc: &Scenario, ex: &mut Explorer) -> (Vec<String>, bool) {
    vrt::reset();
    socket2::reset();
    fslock::reset();
    event_listener::DEADLINES.clear();
    event_listener::EXPIRED.clear();
    BUSES.lock().unwrap().clear();
    *STEPPING.lock().unwrap() = 0;
    let mut socks = vec![];
    let mut buses = vec![];
    for p in &sc.procs {
        let dir = bus_dir(s, p.bus);
        verif_std::process::PID.with(|x| x.set(Some(p.pid)));
        let bus = Arc::new(ProcBus::new(&dir).expect("bus"));
        verif_std::process::PID.with(|x| x.set(None));
        socks.push(socket2::net(|n| {
            n.socks.iter().rev().find(|s| s.bound.is_some()).map(|s| s.id).unwrap()
        }));
        if p.init {
            let n = vrt::threads().len();
            bus.init();
            if !vrt::await_threads(n + 1) {
                return (vec![r#"{"e":"tool","why":"no rx thread"}"#.into()], true);
            }
            while vrt::threads()[n].st == St::Ready {
                vrt::step(n);
            }
        } else {
            // keeps thread numbers equal to endpoint numbers
            let n = vrt::spawn("none", || ());
            vrt::step(n);
        }
        buses.push(bus);
    }
    vrt::take_log();
    *BUSES.lock().unwrap() = buses.iter().map(|b| (b.clone(), 0)).collect();
    for (p, script) in &sc.threads {
        let (bus, script, p) = (buses[*p].clone(), script.clone(), *p);
        let pid = sc.procs[p].pid;
        vrt::spawn("t", move || {
            verif_std::process::PID.with(|x| x.set(Some(pid)));
            run_script(p + 1, Some(bus), script)
        });
    }
    let mut stuck = false;
    // deliveries still to be decided: (socket index, datagram)
    let mut pending: Vec<(usize, socket2::Dgram)> = vec![];
    for (i, (p, b, ip)) in sc.junk.iter().enumerate() {
        let port = socket2::net(|n| n.socks.iter().find(|k| k.id == socks[*p]).unwrap().bound.unwrap().port());
        let d = socket2::Dgram {
            id: 1_000_000 + i as u64,
            from: 0,
            to: ([239, 255, 50, 10], port).into(),
            src: (*ip, 5000).into(),
            bytes: b.clone(),
        };
        pending.push((*p, d));
    }
    let mut seen = 0;
    let mut last: Option<usize> = None;
    let mut dups = 1;
    let mut expiries = 2;
    for _ in 0..4000 {
        for (n, d) in socket2::net(|n| n.sent[seen..].to_vec()).into_iter().enumerate() {
            let _ = n;
            seen += 1;
            let rc = socket2::receivers(&d);
            for (i, k) in socks.iter().enumerate() {
                // a socket on another port never sees it; here every bus may also be handed the
                // announcements of the others, as happens when the registry was lost
                if sc.procs[i].init && (rc.contains(k) || sc.procs[i].bus != sc.procs[owner(sc, &d)].bus) {
                    pending.push((i, d.clone()))
                } else if sc.procs[i].init && sc.procs[i].bus == sc.procs[owner(sc, &d)].bus {
                    vrt::log(format!("{{\"e\":\"unrouted\",\"t\":{},\"p\":{}}}", d.from, i + 1));
                }
            }
        }
        #[derive(Clone)]
        enum Act {
            Run(usize),
            Deliver(usize),
            Dup(usize),
            Lose(usize),
            Expire(u64),
        }
        let th = vrt::threads();
        let mut acts = vec![];
        if let Some(l) = last.filter(|l| th[*l].st == St::Ready) {
            acts.push(Act::Run(l))
        }
        for (i, x) in th.iter().enumerate() {
            if x.st == St::Ready && Some(i) != last {
                acts.push(Act::Run(i))
            }
        }
        for i in 0..pending.len().min(4) {
            acts.push(Act::Deliver(i));
        }
        if !pending.is_empty() {
            if dups > 0 {
                acts.push(Act::Dup(0));
            }
            if sc.lossy {
                acts.push(Act::Lose(0));
            }
        }
        let dl = event_listener::DEADLINES.all();
        let must_end = acts.is_empty();
        if expiries > 0 || must_end {
            acts.extend(dl.iter().map(|d| Act::Expire(*d)))
        }
        if acts.is_empty() {
            break;
        }
        let c = ex.choose(acts.len());
        match acts[c].clone() {
            Act::Run(t) => {
                *STEPPING.lock().unwrap() = t + 1;
                last = Some(t);
                if !vrt::step(t) {
                    vrt::log_raw(format!("{{\"e\":\"hang\",\"t\":{}}}", t + 1));
                    stuck = true;
                    break;
                }
                sample();
            }
            Act::Deliver(i) => {
                let (p, d) = pending.remove(i);
                socket2::deliver(socks[p], &d);
            }
            Act::Dup(i) => {
                dups -= 1;
                let (p, d) = pending[i].clone();
                socket2::deliver(socks[p], &d);
            }
            Act::Lose(i) => {
                pending.remove(i);
            }
            Act::Expire(id) => {
                expiries -= 1;
                event_listener::EXPIRED.add(id);
                event_listener::DEADLINES.remove(id);
                vrt::wake(id);
            }
        }
    }
    sample();
    let mut log = vrt::take_log();
    for (i, x) in vrt::threads().iter().enumerate() {
        if x.st != St::Done {
            log.push(format!("{{\"e\":\"left\",\"t\":{},\"at\":\"{}\"}}", i + 1, x.at));
        }
    }
    log.push("{\"e\":\"end\"}".into());
    BUSES.lock().unwrap().clear();
    (log, stuck)
}
fn owner(sc: &Scenario, d: &socket2::Dgram) -> usize {
    // thread numbers: one per endpoint first, then the scripts
    let t = d.from.wrapping_sub(1);
    if t < sc.procs.len() {
        t
    } else {
        sc.threads.get(t - sc.procs.len()).map(|x| x.0).unwrap_or(0)
    }
}
struct Rng(u64);
impl Rng {
    fn next(&mut self, n: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 17) % n
    }
}
fn p(bus: u64, pid: u32) -> Proc {
    Proc { bus, pid, init: true }
}
fn bus_scenarios(seed: u64, n: usize) -> Vec<Scenario> {
    use Op::*;
    let one = vec![p(1, 101)];
    let lo = [127, 0, 0, 1];
    let mk = |procs: &Vec<Proc>, threads: Vec<(usize, Vec<Op>)>| Scenario { procs: procs.clone(), threads, ..Default::default() };
    let two = vec![p(1, 101), p(1, 102)];
    let mut v = vec![
        // one process
        mk(&one, vec![(0, vec![Emit(5)]), (0, vec![Emit(7)])]),
        mk(&one, vec![(0, vec![Emit(5), Emit(6)]), (0, vec![Emit(7), Val])]),
        mk(&one, vec![(0, vec![Emit(5), Emit(5)]), (0, vec![Emit(5), Emit(4)])]),
        mk(&one, vec![(0, vec![Emit(3)]), (0, vec![Wait])]),
        mk(&one, vec![(0, vec![Emit(3), Emit(3)]), (0, vec![WaitD, WaitD])]),
        mk(&one, vec![(0, vec![Emit(3)]), (0, vec![Wait]), (0, vec![Wait])]),
        mk(&one, vec![(0, vec![Emit(3)]), (0, vec![WaitA]), (0, vec![WaitD])]),
        mk(&one, vec![(0, vec![Emit(3), Emit(4)]), (0, vec![WaitP, WaitA]), (0, vec![Emit(9)])]),
        mk(&one, vec![(0, vec![Emit(0)]), (0, vec![Wait])]),
        mk(&one, vec![(0, vec![Emit(1 << 40), Emit(3)]), (0, vec![WaitD, Emit(1 << 41), Val])]),
        mk(&one, vec![(0, vec![Emit(2)]), (0, vec![Emit(4)]), (0, vec![Emit(3)]), (0, vec![WaitD, Val])]),
        // two processes
        mk(&two, vec![(0, vec![Emit(5)]), (1, vec![Wait])]),
        mk(&two, vec![(0, vec![Emit(5)]), (1, vec![Emit(7)]), (1, vec![WaitD])]),
        mk(&two, vec![(0, vec![Emit(5)]), (1, vec![Emit(5)]), (1, vec![WaitA])]),
        mk(&two, vec![(0, vec![Emit(5), Emit(6)]), (1, vec![Emit(3), WaitD, WaitD])]),
        mk(&two, vec![(0, vec![Emit(1 << 33)]), (1, vec![Emit(77), Emit(78)])]),
        // a second handle of the same process, another bus, another process with equal low bits
        mk(&vec![p(1, 101), p(1, 101)], vec![(0, vec![Emit(5)]), (1, vec![Emit(3), WaitD])]),
        mk(&vec![p(1, 101), p(2, 102)], vec![(0, vec![Emit(5)]), (1, vec![Emit(3), WaitD])]),
        mk(&vec![p(1, 101), p(2, 101), p(1, 103)], vec![(0, vec![Emit(5)]), (1, vec![Emit(9)]), (2, vec![WaitD])]),
        mk(&vec![p(1, 0x0101_0065), p(1, 0x65)], vec![(0, vec![Emit(5)]), (1, vec![WaitD])]),
        mk(&vec![p(1, 101), p(1, 102), p(1, 103)], vec![(0, vec![Emit(5)]), (1, vec![Emit(6)]), (2, vec![WaitD, WaitD])]),
        // a process that only sends
        mk(&vec![Proc { bus: 1, pid: 101, init: false }, p(1, 102)], vec![(0, vec![Emit(5), Emit(6)]), (1, vec![WaitD])]),
    ];
    // malformed and foreign datagrams
    for len in [0usize, 1, 4, 7, 8, 9, 11, 12, 13, 19, 20, 21, 28, 40, 1000] {
        for good_head in [false, true] {
            let mut b = vec![0u8; len];
            b.iter_mut().enumerate().for_each(|(i, x)| *x = 200 + (i % 50) as u8);
            if good_head {
                if len == 20 {
                    continue; // would be a well-formed announcement
                }
                let id = (0x1122_3344_5566_0000u64 + 1).to_ne_bytes();
                for (d, s) in b.iter_mut().zip(id) {
                    *d = s
                }
            }
            let mut s = mk(&two, vec![(0, vec![Emit(5)]), (1, vec![WaitD])]);
            s.junk = vec![(1, b, lo)];
            v.push(s)
        }
    }
    // announcements that do not come from this machine
    let mut s = mk(&two, vec![(0, vec![Emit(5)]), (1, vec![WaitD])]);
    let mut b = (0x1122_3344_5566_0000u64 + 1).to_ne_bytes().to_vec();
    b.extend(7777u32.to_ne_bytes());
    b.extend(99u64.to_ne_bytes());
    s.junk = vec![(1, b.clone(), [192, 168, 0, 7])];
    v.push(s.clone());
    for s in v.iter_mut() {
        s.lossy = s.procs.len() > 1
    }
    let fixed = v.len();
    let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    while v.len() < fixed + n {
        let np = 1 + r.next(3) as usize;
        let mut s = Scenario { lossy: r.next(2) == 0, ..Default::default() };
        for i in 0..np {
            let pid = if i > 0 && r.next(5) == 0 { 101 } else { 101 + i as u32 };
            s.procs.push(Proc { bus: if r.next(4) == 0 { 2 } else { 1 }, pid, init: r.next(8) != 0 });
        }
        let vals = [0u64, 1, 2, 3, 5, 5, 8, 1 << 32, (1 << 32) + 1, 1 << 62];
        for _ in 0..2 + r.next(3) {
            let n = 1 + r.next(3);
            let ops = (0..n)
                .map(|_| match r.next(10) {
                    0..=4 => Emit(vals[r.next(10) as usize]),
                    5 => Wait,
                    6 => WaitD,
                    7 => WaitA,
                    8 => Val,
                    _ => if r.next(2) == 0 { WaitP } else { Init },
                })
                .collect();
            s.threads.push((r.next(np as u64) as usize, ops));
        }
        // Init on a process without a receive thread would change the numbering of threads
        for (p, ops) in s.threads.iter_mut() {
            if !s.procs[*p].init {
                ops.retain(|o| !matches!(o, Init))
            }
        }
        if r.next(3) == 0 {
            let len = r.next(30) as usize;
            if len != 20 {
                let b = (0..len).map(|_| r.next(256) as u8).collect();
                s.junk.push((r.next(np as u64) as usize, b, lo));
            }
        }
        s.junk.retain(|j| s.procs[j.0].init);
        v.push(s)
    }
    v
}
/// -- port registry ------------------------------------------------------------------------
fn port_execution(dir: &Path, threads: &[Vec<Op>], pre: &[u64], kill_at: Option<usize>, ex: &mut Explorer) -> (Vec<String>, bool, usize) {
    vrt::reset();
    fslock::reset();
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    let map = dir.join("procbus.map");
    for id in pre {
        let id = *id;
        let t = vrt::spawn("pre", move || run_script(1, None, vec![Op::Port(id)]));
        while vrt::threads()[t].st != St::Done {
            vrt::step(t);
        }
    }
    let base = vrt::threads().len();
    for (i, t) in threads.iter().enumerate() {
        let t = t.clone();
        vrt::spawn("t", move || run_script(i + 1, None, t));
    }
    let mut steps = 0;
    let mut last = base;
    let mut stuck = false;
    let mut prev = std::fs::read(&map).ok();
    for _ in 0..2000 {
        let th = vrt::threads();
        let mut acts: Vec<usize> = vec![];
        if last < th.len() && th[last].st == St::Ready {
            acts.push(last)
        }
        acts.extend((0..th.len()).filter(|i| *i != last && th[*i].st == St::Ready));
        if acts.is_empty() {
            break;
        }
        let t = acts[ex.choose(acts.len())];
        last = t;
        steps += 1;
        if Some(steps) == kill_at {
            vrt::log(format!("{{\"e\":\"crash\",\"t\":{}}}", t + 1));
            stuck |= !vrt::kill(t);
        } else {
            stuck |= !vrt::step(t);
        }
        let now = std::fs::read(&map).ok();
        if now != prev {
            prev = now;
            vrt::log(format!("{{\"e\":\"file\",\"t\":{}}}", t + 1));
        }
        if stuck {
            vrt::log(format!("{{\"e\":\"hang\",\"t\":{}}}", t + 1));
            break;
        }
    }
    // afterwards every id is asked for once more, by a process that starts now
    if !stuck {
        let mut ids: Vec<u64> = pre.to_vec();
        for t in threads {
            for o in t {
                if let Op::Port(i) = o {
                    ids.push(*i)
                }
            }
        }
        ids.sort();
        ids.dedup();
        let t = vrt::spawn("post", move || run_script(9, None, ids.into_iter().map(Op::Port).collect()));
        let mut n = 0;
        while vrt::threads()[t].st != St::Done && n < 500 {
            if matches!(vrt::threads()[t].st, St::Blocked(_)) {
                break;
            }
            vrt::step(t);
            n += 1;
            let now = std::fs::read(&map).ok();
            if now != prev {
                prev = now;
                vrt::log(format!("{{\"e\":\"file\",\"t\":{}}}", t + 1));
            }
        }
    }
    let mut log = vrt::take_log();
    for (i, x) in vrt::threads().iter().enumerate() {
        if x.st != St::Done {
            log.push(format!("{{\"e\":\"left\",\"t\":{},\"at\":\"{}\"}}", i + 1, x.at));
        }
    }
    log.push("{\"e\":\"end\"}".into());
    (log, stuck, steps)
}
struct Out {
    f: BufWriter<File>,
    seen: HashSet<u64>,
    executions: usize,
    written: usize,
    labels: BTreeMap<String, usize>,
}
impl Out {
    fn new(path: &str) -> Self {
        Out { f: BufWriter::new(File::create(path).unwrap()), seen: HashSet::new(), executions: 0, written: 0, labels: BTreeMap::new() }
    }
    fn put(&mut self, head: &str, key: &str, log: &[String], sched: &[usize]) {
        use std::hash::{Hash, Hasher};
        self.executions += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        log.hash(&mut h);
        if !self.seen.insert(h.finish()) {
            return;
        }
        self.written += 1;
        for l in log {
            let e = l.split('"').nth(3).unwrap_or("").to_string();
            *self.labels.entry(e).or_default() += 1;
        }
        writeln!(self.f, "{{{head},\"sched\":{sched:?},\"ev\":[{}]}}", log.join(",")).unwrap();
    }
    fn done(mut self) {
        self.f.flush().unwrap();
        println!("{{\"executions\":{},\"traces\":{},\"events\":{:?}}}", self.executions, self.written, self.labels);
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    verif_std::HOOK.set(hook).unwrap();
    vrt::PRELOG.set(sample).unwrap();
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| {
        a.iter().position(|x| x == k).map(|i| a[i + 1].parse().unwrap()).unwrap_or(d)
    };
    let scratch = PathBuf::from(&a[2]);
    std::fs::create_dir_all(&scratch).unwrap();
    // everything the code puts in the temporary directory stays in the scratch directory
    std::env::set_var("TMPDIR", &scratch);
    let (seed, dev, cap, rnd, extra) = (get("--seed", 1), get("--dev", 2), get("--cap", 300), get("--random", 50), get("--extra", 50));
    let end = Instant::now() + Duration::from_secs(get("--time", 60));
    let mut out = Out::new(&a[3]);
    match a[1].as_str() {
        "bus" => {
            let s = Setup { dir: scratch };
            let list = bus_scenarios(seed, extra as usize);
            let only = a.iter().position(|x| x == "--only").map(|i| a[i + 1].parse::<usize>().unwrap());
            for (i, sc) in list.iter().enumerate() {
                if only.map(|o| o != i).unwrap_or(false) {
                    continue;
                }
                let head = format!(
                    "\"sc\":{i},\"procs\":[{}],\"lossy\":{}",
                    sc.procs.iter().map(|p| format!("[{},{},{}]", p.bus, p.pid, p.init as u8)).collect::<Vec<_>>().join(","),
                    sc.lossy
                );
                if let Some(x) = a.iter().position(|x| x == "--sched") {
                    let sched = a[x + 1].split(',').filter_map(|s| s.trim().parse().ok()).collect();
                    let mut ex = Explorer::replay(sched);
                    let (log, _) = execute(&s, sc, &mut ex);
                    out.put(&head, &i.to_string(), &log, &ex.taken);
                    continue;
                }
                let mut stuck = false;
                let mut ex = Explorer::dfs(dev as usize);
                let mut n = 0;
                while !ex.exhausted && n < cap && !stuck && Instant::now() < end {
                    let (log, st) = execute(&s, sc, &mut ex);
                    stuck = st;
                    out.put(&head, &i.to_string(), &log, &ex.taken);
                    ex.next_execution();
                    n += 1;
                }
                for k in 0..rnd {
                    if stuck || Instant::now() >= end {
                        break;
                    }
                    let mut ex = Explorer::random(seed * 1_000_003 + i as u64 * 7919 + k);
                    let (log, st) = execute(&s, sc, &mut ex);
                    stuck = st;
                    out.put(&head, &i.to_string(), &log, &ex.taken);
                }
                if stuck {
                    break;
                }
            }
        }
        "port" => {
            use Op::Port;
            let mut list: Vec<(Vec<Vec<Op>>, Vec<u64>)> = vec![
                (vec![vec![Port(1)], vec![Port(2)]], vec![]),
                (vec![vec![Port(1)], vec![Port(1)]], vec![]),
                (vec![vec![Port(1), Port(1)], vec![Port(2), Port(1)]], vec![3]),
                (vec![vec![Port(2)], vec![Port(3)]], vec![1]),
                (vec![vec![Port(2), Port(1)], vec![Port(4)], vec![Port(5)]], vec![1, 2, 3]),
                (vec![vec![Port(1)], vec![Port(2)], vec![Port(3)]], vec![]),
                (vec![vec![Port(0)], vec![Port(u32::MAX as u64)]], vec![0, 1 << 24]),
            ];
            let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
            for _ in 0..extra {
                let ids = [1u64, 2, 3, 4, 256, 65536, 1 << 24, 0];
                let nt = 1 + r.next(3);
                let th = (0..nt).map(|_| (0..1 + r.next(3)).map(|_| Port(ids[r.next(8) as usize])).collect()).collect();
                let pre = (0..r.next(4)).map(|_| ids[r.next(8) as usize]).collect();
                list.push((th, pre));
            }
            'all: for (i, (th, pre)) in list.iter().enumerate() {
                let head = |k: usize| format!("\"sc\":{i},\"kill\":{k}");
                let mut ex = Explorer::dfs(dev as usize);
                let mut n = 0;
                let mut len = 0;
                while !ex.exhausted && n < cap && Instant::now() < end {
                    let (log, st, steps) = port_execution(&scratch, th, pre, None, &mut ex);
                    len = len.max(steps);
                    out.put(&head(0), &i.to_string(), &log, &ex.taken);
                    if st {
                        break 'all;
                    }
                    ex.next_execution();
                    n += 1;
                }
                // a process dies at every possible step
                for k in 1..=len {
                    let mut ex = Explorer::dfs(if dev > 2 { 1 } else { 0 });
                    let mut n = 0;
                    while !ex.exhausted && n < cap && Instant::now() < end {
                        let (log, st, _) = port_execution(&scratch, th, pre, Some(k), &mut ex);
                        out.put(&head(k), &i.to_string(), &log, &ex.taken);
                        if st {
                            break 'all;
                        }
                        ex.next_execution();
                        n += 1;
                    }
                    for q in 0..rnd.min(20) {
                        let mut ex = Explorer::random(seed * 7 + q + k as u64 * 1000 + i as u64 * 77_777);
                        let (log, st, _) = port_execution(&scratch, th, pre, Some(k), &mut ex);
                        out.put(&head(k), &i.to_string(), &log, &ex.taken);
                        if st {
                            break 'all;
                        }
                    }
                }
            }
        }
        x => panic!("unknown mode {x}"),
    }
    out.done()
}
