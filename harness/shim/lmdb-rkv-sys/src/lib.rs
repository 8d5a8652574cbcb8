//! In-memory stand-in for LMDB (the real C library and the fork the project depends on are not
//! available offline).  It implements the documented behaviour of the LMDB operations linkspace
//! uses: named sub-databases, byte ordered / integer ordered keys, DUPSORT, MDB_APPEND, single
//! writer, copy-on-write snapshots for readers, atomic commit.
//!
//! In addition it
//!  * records every write-transaction step in an event log (the observation points of the
//!    trace validation), and
//!  * can inject a fault (error return or panic) at the n-th write step.
#![allow(non_camel_case_types, non_snake_case, clippy::missing_safety_doc)]
use libc::{c_char, c_int, c_uint, c_void, size_t};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex};

pub type MDB_dbi = c_uint;
pub type MDB_cursor_op = c_uint;
#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct MDB_val {
    pub mv_size: size_t,
    pub mv_data: *mut c_void,
}
#[repr(C)]
#[derive(Debug, Copy, Clone, Default)]
pub struct MDB_stat {
    pub ms_psize: c_uint,
    pub ms_depth: c_uint,
    pub ms_branch_pages: size_t,
    pub ms_leaf_pages: size_t,
    pub ms_overflow_pages: size_t,
    pub ms_entries: size_t,
}
#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct MDB_envinfo {
    pub me_mapaddr: *mut c_void,
    pub me_mapsize: size_t,
    pub me_last_pgno: size_t,
    pub me_last_txnid: size_t,
    pub me_maxreaders: c_uint,
    pub me_numreaders: c_uint,
}

pub const MDB_FIRST: c_uint = 0;
pub const MDB_FIRST_DUP: c_uint = 1;
pub const MDB_GET_BOTH: c_uint = 2;
pub const MDB_GET_BOTH_RANGE: c_uint = 3;
pub const MDB_GET_CURRENT: c_uint = 4;
pub const MDB_LAST: c_uint = 6;
pub const MDB_LAST_DUP: c_uint = 7;
pub const MDB_NEXT: c_uint = 8;
pub const MDB_NEXT_DUP: c_uint = 9;
pub const MDB_NEXT_NODUP: c_uint = 11;
pub const MDB_PREV: c_uint = 12;
pub const MDB_PREV_DUP: c_uint = 13;
pub const MDB_PREV_NODUP: c_uint = 14;
pub const MDB_SET: c_uint = 15;
pub const MDB_SET_KEY: c_uint = 16;
pub const MDB_SET_RANGE: c_uint = 17;

pub const MDB_NOOVERWRITE: c_uint = 0x10;
pub const MDB_NODUPDATA: c_uint = 0x20;
pub const MDB_CURRENT: c_uint = 0x40;
pub const MDB_RESERVE: c_uint = 0x10000;
pub const MDB_APPEND: c_uint = 0x20000;
pub const MDB_APPENDDUP: c_uint = 0x40000;

pub const MDB_REVERSEKEY: c_uint = 0x02;
pub const MDB_DUPSORT: c_uint = 0x04;
pub const MDB_INTEGERKEY: c_uint = 0x08;
pub const MDB_DUPFIXED: c_uint = 0x10;
pub const MDB_INTEGERDUP: c_uint = 0x20;

pub const MDB_SUCCESS: c_int = 0;
pub const MDB_KEYEXIST: c_int = -30799;
pub const MDB_NOTFOUND: c_int = -30798;
pub const MDB_MAP_FULL: c_int = -30792;

// ------------------------------------------------------------------ storage
#[derive(Clone, PartialEq, Eq)]
pub struct Key(pub &'static [u8], bool);
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Self) -> Ordering {
        if self.1 {
            let a = u64::from_ne_bytes(self.0.try_into().expect("integer key size"));
            let b = u64::from_ne_bytes(o.0.try_into().expect("integer key size"));
            a.cmp(&b)
        } else {
            self.0.cmp(o.0)
        }
    }
}
type Val = (*mut u8, usize);
#[derive(Clone, Default)]
pub struct Db {
    pub name: String,
    pub flags: c_uint,
    map: BTreeMap<Key, Vec<SendVal>>,
}
#[derive(Clone, Copy)]
pub struct SendVal(Val);
unsafe impl Send for SendVal {}
unsafe impl Sync for SendVal {}
impl SendVal {
    pub fn bytes(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.0 .0, self.0 .1) }
    }
}
/// 8-byte aligned, leaked for the lifetime of the process (a real LMDB value lives in the map).
fn alloc(len: usize) -> SendVal {
    let words = vec![0u64; len / 8 + 1].into_boxed_slice();
    SendVal((Box::leak(words).as_mut_ptr().cast(), len))
}
fn alloc_copy(b: &[u8]) -> SendVal {
    let v = alloc(b.len());
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), v.0 .0, b.len()) };
    v
}
#[derive(Clone, Default)]
struct Snapshot {
    dbs: Vec<Db>,
    txnid: u64,
}
#[derive(Default)]
struct Shared {
    cur: Mutex<Arc<Snapshot>>,
    writer: Mutex<bool>,
    cv: Condvar,
}
static ENVS: Mutex<Option<HashMap<PathBuf, Arc<Shared>>>> = Mutex::new(None);

pub struct MDB_env {
    shared: Arc<Shared>,
    file: std::fs::File,
    mapsize: usize,
}
pub struct MDB_txn {
    env: *mut MDB_env,
    snap: Option<Arc<Snapshot>>,
    work: Option<Box<Snapshot>>,
}
#[derive(Clone)]
enum Pos {
    Uninit,
    Eof,
    At(Key, usize),
}
pub struct MDB_cursor {
    txn: *mut MDB_txn,
    dbi: MDB_dbi,
    pos: Pos,
}

// ------------------------------------------------------------------ observation + fault injection
#[derive(Debug, Clone, PartialEq)]
pub enum Event {
    Begin,
    Put { db: String, key: Vec<u8>, rc: c_int },
    Commit,
    Abort,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fault {
    /// the n-th write step returns this error code
    Error(c_int),
    /// the n-th write step panics: the process "dies" there
    Panic,
}
#[derive(Default)]
pub struct Control {
    pub log: Vec<Event>,
    pub record: bool,
    pub step: usize,
    pub fault: Option<(usize, Fault)>,
}
static CONTROL: Mutex<Option<Control>> = Mutex::new(None);
type Hook = Box<dyn FnMut() + Send>;
static HOOK: Mutex<Option<Hook>> = Mutex::new(None);
/// called before every recorded write step, on the thread that writes
pub fn set_hook(h: Option<Hook>) {
    *HOOK.lock().unwrap_or_else(|e| e.into_inner()) = h;
}
/// Access the recorder; used by the verification driver only.
pub fn control<R>(f: impl FnOnce(&mut Control) -> R) -> R {
    let mut g = CONTROL.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Control::default))
}
fn step(ev: impl FnOnce(c_int) -> Event, ok: c_int) -> c_int {
    let h = HOOK.lock().unwrap_or_else(|e| e.into_inner()).take();
    if let Some(mut h) = h {
        h();
        set_hook(Some(h));
    }
    let fault = control(|c| {
        if !c.record {
            return None;
        }
        let n = c.step;
        c.step += 1;
        match c.fault {
            Some((at, f)) if at == n => {
                match f {
                    Fault::Error(e) => c.log.push(ev(e)),
                    Fault::Panic => {}
                }
                Some(f)
            }
            _ => {
                c.log.push(ev(ok));
                None
            }
        }
    });
    match fault {
        None => ok,
        Some(Fault::Error(e)) => e,
        Some(Fault::Panic) => panic!("injected crash"),
    }
}
/// forget everything stored under `path` ("delete the file")
pub fn forget(path: &Path) {
    if let Some(m) = ENVS.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        m.remove(path);
    }
}

// ------------------------------------------------------------------ env / txn
pub fn env_open(path: &Path, mapsize: usize) -> Result<*mut MDB_env, c_int> {
    let p = path.canonicalize().map_err(|e| e.raw_os_error().unwrap_or(2))?;
    let file = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .read(true)
        .open(p.join("data.mdb"))
        .map_err(|e| e.raw_os_error().unwrap_or(5))?;
    let shared = ENVS
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .get_or_insert_with(HashMap::new)
        .entry(p)
        .or_default()
        .clone();
    Ok(Box::into_raw(Box::new(MDB_env { shared, file, mapsize })))
}
pub unsafe fn env_close(e: *mut MDB_env) {
    drop(Box::from_raw(e));
}
pub unsafe fn open_db(e: *mut MDB_env, name: &str, flags: c_uint) -> MDB_dbi {
    let mut cur = (*e).shared.cur.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(i) = cur.dbs.iter().position(|d| d.name == name) {
        return i as MDB_dbi;
    }
    let mut n = (**cur).clone();
    n.dbs.push(Db { name: name.to_string(), flags, map: BTreeMap::new() });
    *cur = Arc::new(n);
    (cur.dbs.len() - 1) as MDB_dbi
}
unsafe fn snapshot(e: *mut MDB_env) -> Arc<Snapshot> {
    (*e).shared.cur.lock().unwrap_or_else(|e| e.into_inner()).clone()
}
pub unsafe fn begin_ro(env: *mut MDB_env) -> *mut MDB_txn {
    Box::into_raw(Box::new(MDB_txn { env, snap: Some(snapshot(env)), work: None }))
}
pub unsafe fn begin_rw(env: *mut MDB_env) -> Result<*mut MDB_txn, c_int> {
    {
        let sh = &(*env).shared;
        let mut w = sh.writer.lock().unwrap_or_else(|e| e.into_inner());
        while *w {
            w = sh.cv.wait(w).unwrap_or_else(|e| e.into_inner());
        }
        *w = true;
    }
    let work = Box::new((*snapshot(env)).clone());
    let txn = Box::into_raw(Box::new(MDB_txn { env, snap: None, work: Some(work) }));
    let rc = match std::panic::catch_unwind(|| step(|_| Event::Begin, 0)) {
        Ok(rc) => rc,
        Err(p) => {
            release(env);
            drop(Box::from_raw(txn));
            std::panic::resume_unwind(p)
        }
    };
    if rc != 0 {
        release(env);
        drop(Box::from_raw(txn));
        return Err(rc);
    }
    Ok(txn)
}
unsafe fn release(env: *mut MDB_env) {
    let sh = &(*env).shared;
    *sh.writer.lock().unwrap_or_else(|e| e.into_inner()) = false;
    sh.cv.notify_one();
}
pub unsafe fn txn_commit(txn: *mut MDB_txn) -> c_int {
    if (*txn).work.is_some() {
        // the commit point: before it nothing is visible, after it everything is
        let r = std::panic::catch_unwind(|| step(|rc| if rc == 0 { Event::Commit } else { Event::Abort }, 0));
        let mut t = Box::from_raw(txn);
        match r {
            Ok(0) => {
                let mut w = t.work.take().unwrap();
                w.txnid += 1;
                *(*t.env).shared.cur.lock().unwrap_or_else(|e| e.into_inner()) = Arc::new(*w);
                release(t.env);
                0
            }
            Ok(rc) => {
                release(t.env);
                rc
            }
            Err(p) => {
                release(t.env);
                std::panic::resume_unwind(p)
            }
        }
    } else {
        drop(Box::from_raw(txn));
        0
    }
}
pub unsafe fn txn_abort(txn: *mut MDB_txn) {
    let t = Box::from_raw(txn);
    if t.work.is_some() {
        control(|c| {
            if c.record {
                c.log.push(Event::Abort)
            }
        });
        release(t.env);
    }
}
pub unsafe fn mdb_txn_reset(txn: *mut MDB_txn) {
    (*txn).snap = None;
}
pub unsafe fn mdb_txn_renew(txn: *mut MDB_txn) -> c_int {
    (*txn).snap = Some(snapshot((*txn).env));
    0
}
pub unsafe fn mdb_env_get_fd(e: *mut MDB_env, fd: *mut c_int) -> c_int {
    use std::os::fd::AsRawFd;
    *fd = (*e).file.as_raw_fd();
    0
}
pub unsafe fn mdb_env_info(e: *mut MDB_env, i: *mut MDB_envinfo) -> c_int {
    *i = MDB_envinfo {
        me_mapaddr: std::ptr::null_mut(),
        me_mapsize: (*e).mapsize,
        me_last_pgno: 0,
        me_last_txnid: snapshot(e).txnid as usize,
        me_maxreaders: 126,
        me_numreaders: 0,
    };
    0
}
pub unsafe fn mdb_stat(txn: *mut MDB_txn, dbi: MDB_dbi, s: *mut MDB_stat) -> c_int {
    let d = db(txn, dbi);
    *s = MDB_stat { ms_entries: d.map.values().map(|v| v.len()).sum(), ..Default::default() };
    0
}
pub unsafe fn mdb_version(a: *mut c_int, b: *mut c_int, c: *mut c_int) -> *mut c_char {
    (*a, *b, *c) = (0, 9, 70);
    std::ptr::null_mut()
}
unsafe fn db<'a>(txn: *mut MDB_txn, dbi: MDB_dbi) -> &'a Db {
    let t = &*txn;
    match &t.work {
        Some(w) => &*(&w.dbs[dbi as usize] as *const Db),
        None => &*(&t.snap.as_ref().expect("txn was reset").dbs[dbi as usize] as *const Db),
    }
}

// ------------------------------------------------------------------ cursor
pub unsafe fn cursor_open(txn: *mut MDB_txn, dbi: MDB_dbi) -> *mut MDB_cursor {
    Box::into_raw(Box::new(MDB_cursor { txn, dbi, pos: Pos::Uninit }))
}
pub unsafe fn cursor_close(c: *mut MDB_cursor) {
    drop(Box::from_raw(c));
}
/// a probe key borrowed only for the duration of a lookup
unsafe fn probe(b: &[u8], int: bool) -> Key {
    Key(std::mem::transmute::<&[u8], &'static [u8]>(b), int)
}
pub unsafe fn cursor_get(
    c: *mut MDB_cursor,
    key: Option<&[u8]>,
    _data: Option<&[u8]>,
    op: c_uint,
) -> Result<(Option<&'static [u8]>, &'static [u8]), c_int> {
    let c = &mut *c;
    let d = db(c.txn, c.dbi);
    let int = d.flags & MDB_INTEGERKEY != 0;
    let m = &d.map;
    let at = |k: &Key, i: usize| -> (Option<&'static [u8]>, &'static [u8]) {
        (Some(k.0), m[k].get(i).expect("cursor position").bytes())
    };
    let first_dup = |kv: Option<(&Key, &Vec<SendVal>)>| kv.map(|(k, _)| (k.clone(), 0usize));
    let last_dup = |kv: Option<(&Key, &Vec<SendVal>)>| kv.map(|(k, v)| (k.clone(), v.len() - 1));
    use std::ops::Bound::*;
    let goto = |c: &mut MDB_cursor, p: Option<(Key, usize)>, on_fail: Option<Pos>| match p {
        Some((k, i)) => {
            let r = at(&k, i);
            c.pos = Pos::At(k, i);
            Ok(r)
        }
        None => {
            if let Some(p) = on_fail {
                c.pos = p;
            }
            Err(MDB_NOTFOUND)
        }
    };
    match op {
        MDB_FIRST => goto(c, first_dup(m.iter().next()), Some(Pos::Uninit)),
        MDB_LAST => goto(c, last_dup(m.iter().next_back()), Some(Pos::Uninit)),
        MDB_SET | MDB_SET_KEY => {
            let k = probe(key.expect("key"), int);
            let p = first_dup(m.get_key_value(&k));
            goto(c, p, Some(Pos::Uninit))
        }
        MDB_SET_RANGE => {
            let k = probe(key.expect("key"), int);
            let p = first_dup(m.range((Included(k), Unbounded)).next());
            goto(c, p, Some(Pos::Eof))
        }
        MDB_GET_CURRENT => match c.pos.clone() {
            Pos::Uninit => Err(libc::EINVAL),
            Pos::Eof => Err(MDB_NOTFOUND),
            Pos::At(k, i) => Ok(at(&k, i)),
        },
        MDB_FIRST_DUP => match c.pos.clone() {
            Pos::At(k, _) => goto(c, Some((k, 0)), None),
            _ => Err(libc::EINVAL),
        },
        MDB_LAST_DUP => match c.pos.clone() {
            Pos::At(k, _) => {
                let n = m[&k].len() - 1;
                goto(c, Some((k, n)), None)
            }
            _ => Err(libc::EINVAL),
        },
        MDB_NEXT | MDB_NEXT_DUP | MDB_NEXT_NODUP => match c.pos.clone() {
            Pos::Uninit => goto(c, first_dup(m.iter().next()), None),
            Pos::Eof => Err(MDB_NOTFOUND),
            Pos::At(k, i) => {
                if op != MDB_NEXT_NODUP && i + 1 < m[&k].len() {
                    return goto(c, Some((k, i + 1)), None);
                }
                if op == MDB_NEXT_DUP {
                    return Err(MDB_NOTFOUND);
                }
                let p = first_dup(m.range((Excluded(k), Unbounded)).next());
                goto(c, p, None)
            }
        },
        MDB_PREV | MDB_PREV_DUP | MDB_PREV_NODUP => match c.pos.clone() {
            Pos::Uninit | Pos::Eof => goto(c, last_dup(m.iter().next_back()), None),
            Pos::At(k, i) => {
                if op != MDB_PREV_NODUP && i > 0 {
                    return goto(c, Some((k, i - 1)), None);
                }
                if op == MDB_PREV_DUP {
                    return Err(MDB_NOTFOUND);
                }
                let p = last_dup(m.range((Unbounded, Excluded(k))).next_back());
                goto(c, p, None)
            }
        },
        _ => Err(libc::EINVAL),
    }
}
pub unsafe fn mdb_cursor_get(c: *mut MDB_cursor, key: *mut MDB_val, data: *mut MDB_val, op: c_uint) -> c_int {
    let k = if (*key).mv_data.is_null() {
        None
    } else {
        Some(std::slice::from_raw_parts((*key).mv_data as *const u8, (*key).mv_size))
    };
    match cursor_get(c, k, None, op) {
        Ok((k, v)) => {
            if let Some(k) = k {
                *key = MDB_val { mv_size: k.len(), mv_data: k.as_ptr() as *mut c_void };
            }
            *data = MDB_val { mv_size: v.len(), mv_data: v.as_ptr() as *mut c_void };
            0
        }
        Err(e) => e,
    }
}
pub unsafe fn mdb_cursor_put(c: *mut MDB_cursor, key: *mut MDB_val, data: *mut MDB_val, flags: c_uint) -> c_int {
    let cur = &mut *c;
    let txn = &mut *cur.txn;
    let kb = std::slice::from_raw_parts((*key).mv_data as *const u8, (*key).mv_size);
    let Some(w) = txn.work.as_mut() else { return libc::EACCES };
    let d = &mut w.dbs[cur.dbi as usize];
    let int = d.flags & MDB_INTEGERKEY != 0;
    let dup = d.flags & MDB_DUPSORT != 0;
    let name = d.name.clone();
    // LMDB: MDB_MAXKEYSIZE is 511; also a DUPSORT value is limited to it
    if kb.is_empty() || kb.len() > 511 || (dup && (*data).mv_size > 511) {
        return -30781; // MDB_BAD_VALSIZE
    }
    let k = probe(kb, int);
    let mut rc = 0;
    if flags & MDB_APPEND != 0 {
        if let Some((last, _)) = d.map.iter().next_back() {
            if *last >= k {
                rc = MDB_KEYEXIST;
            }
        }
    }
    if flags & MDB_NOOVERWRITE != 0 && d.map.contains_key(&k) {
        rc = MDB_KEYEXIST;
    }
    let rc = step(|rc| Event::Put { db: name, key: kb.to_vec(), rc }, rc);
    if rc != 0 {
        return rc;
    }
    let own = Key(alloc_copy(kb).bytes(), int);
    let v = if flags & MDB_RESERVE != 0 {
        let v = alloc((*data).mv_size);
        (*data).mv_data = v.0 .0.cast();
        v
    } else {
        alloc_copy(std::slice::from_raw_parts((*data).mv_data as *const u8, (*data).mv_size))
    };
    let e = d.map.entry(own.clone()).or_default();
    let mut idx = 0;
    if dup {
        match e.binary_search_by(|x| x.bytes().cmp(v.bytes())) {
            Ok(i) => {
                if flags & MDB_NODUPDATA != 0 {
                    return MDB_KEYEXIST;
                }
                idx = i
            }
            Err(i) => {
                e.insert(i, v);
                idx = i
            }
        }
    } else {
        e.clear();
        e.push(v);
    }
    cur.pos = Pos::At(own, idx);
    0
}
