//! Safe wrapper of the stand-in LMDB, with the API subset of the lmdb-rkv fork linkspace uses.
pub use lmdb_sys as ffi;
use lmdb_sys::*;
use std::marker::PhantomData;
use std::path::Path;

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum Error {
    KeyExist,
    NotFound,
    MapFull,
    BadValSize,
    Other(i32),
}
impl Error {
    pub fn from_err_code(e: i32) -> Error {
        match e {
            MDB_KEYEXIST => Error::KeyExist,
            MDB_NOTFOUND => Error::NotFound,
            MDB_MAP_FULL => Error::MapFull,
            -30781 => Error::BadValSize,
            o => Error::Other(o),
        }
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub fn lmdb_result(e: i32) -> Result<()> {
    if e == 0 {
        Ok(())
    } else {
        Err(Error::from_err_code(e))
    }
}
bitflags::bitflags! {
    #[derive(Debug, Default, Copy, Clone, PartialEq, Eq)]
    pub struct EnvironmentFlags: u32 {
        const NO_SUB_DIR = 0x4000; const WRITE_MAP = 0x80000; const READ_ONLY = 0x20000;
        const NO_META_SYNC = 0x40000; const NO_SYNC = 0x10000; const MAP_ASYNC = 0x100000;
        const NO_TLS = 0x200000; const NO_LOCK = 0x400000; const NO_READAHEAD = 0x800000;
    }
    #[derive(Debug, Default, Copy, Clone, PartialEq, Eq)]
    pub struct DatabaseFlags: u32 {
        const REVERSE_KEY = 2; const DUP_SORT = 4; const INTEGER_KEY = 8; const DUP_FIXED = 16;
    }
    #[derive(Debug, Default, Copy, Clone, PartialEq, Eq)]
    pub struct WriteFlags: u32 {
        const NO_OVERWRITE = 0x10; const NO_DUP_DATA = 0x20; const CURRENT = 0x40;
        const APPEND = 0x20000; const APPEND_DUP = 0x40000;
    }
}
#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub struct Database(MDB_dbi);
impl Database {
    pub fn dbi(&self) -> MDB_dbi {
        self.0
    }
}
pub struct Environment(*mut MDB_env);
unsafe impl Send for Environment {}
unsafe impl Sync for Environment {}
impl Drop for Environment {
    fn drop(&mut self) {
        unsafe { env_close(self.0) }
    }
}
#[derive(Default)]
pub struct EnvironmentBuilder {
    mapsize: usize,
}
impl EnvironmentBuilder {
    pub fn set_max_dbs(&mut self, _n: u32) -> &mut Self {
        self
    }
    pub fn set_max_readers(&mut self, _n: u32) -> &mut Self {
        self
    }
    pub fn set_flags(&mut self, _f: EnvironmentFlags) -> &mut Self {
        self
    }
    pub fn set_map_size(&mut self, n: usize) -> &mut Self {
        self.mapsize = n;
        self
    }
    pub fn open(&self, path: &Path) -> Result<Environment> {
        env_open(path, self.mapsize).map(Environment).map_err(Error::from_err_code)
    }
}
impl Environment {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> EnvironmentBuilder {
        EnvironmentBuilder::default()
    }
    pub fn env(&self) -> *mut MDB_env {
        self.0
    }
    pub fn create_db(&self, name: Option<&str>, flags: DatabaseFlags) -> Result<Database> {
        Ok(Database(unsafe { open_db(self.0, name.unwrap_or(""), flags.bits()) }))
    }
    pub fn open_db(&self, name: Option<&str>) -> Result<Database> {
        self.create_db(name, DatabaseFlags::empty())
    }
    pub fn begin_ro_txn(&self) -> Result<RoTransaction<'_>> {
        Ok(RoTransaction(unsafe { begin_ro(self.0) }, PhantomData))
    }
    pub fn begin_rw_txn(&self) -> Result<RwTransaction<'_>> {
        unsafe { begin_rw(self.0) }
            .map(|t| RwTransaction(t, PhantomData))
            .map_err(Error::from_err_code)
    }
}
pub trait Transaction: Sized {
    fn txn(&self) -> *mut MDB_txn;
    fn open_ro_cursor(&self, db: Database) -> Result<RoCursor<'_>> {
        Ok(RoCursor(unsafe { cursor_open(self.txn(), db.0) }, PhantomData))
    }
    fn commit(self) -> Result<()> {
        let t = self.txn();
        std::mem::forget(self);
        lmdb_result(unsafe { txn_commit(t) })
    }
    fn abort(self) {}
}
pub struct RoTransaction<'env>(*mut MDB_txn, PhantomData<&'env ()>);
impl<'env> Drop for RoTransaction<'env> {
    fn drop(&mut self) {
        unsafe { txn_abort(self.0) }
    }
}
impl<'env> Transaction for RoTransaction<'env> {
    fn txn(&self) -> *mut MDB_txn {
        self.0
    }
}
pub struct InactiveTransaction<'env>(RoTransaction<'env>);
impl<'env> RoTransaction<'env> {
    pub fn reset(self) -> InactiveTransaction<'env> {
        unsafe { mdb_txn_reset(self.0) };
        InactiveTransaction(self)
    }
}
impl<'env> InactiveTransaction<'env> {
    pub fn renew(self) -> Result<RoTransaction<'env>> {
        lmdb_result(unsafe { mdb_txn_renew(self.0 .0) })?;
        Ok(self.0)
    }
}
pub struct RwTransaction<'env>(*mut MDB_txn, PhantomData<&'env ()>);
impl<'env> Drop for RwTransaction<'env> {
    fn drop(&mut self) {
        unsafe { txn_abort(self.0) }
    }
}
impl<'env> Transaction for RwTransaction<'env> {
    fn txn(&self) -> *mut MDB_txn {
        self.0
    }
}
pub struct RoCursor<'txn>(*mut MDB_cursor, PhantomData<&'txn ()>);
impl<'txn> Drop for RoCursor<'txn> {
    fn drop(&mut self) {
        unsafe { cursor_close(self.0) }
    }
}
impl<'txn> RoCursor<'txn> {
    pub fn cursor(&self) -> *mut MDB_cursor {
        self.0
    }
    #[allow(clippy::type_complexity)]
    pub fn get(&self, key: Option<&[u8]>, data: Option<&[u8]>, op: u32) -> Result<(Option<&'txn [u8]>, &'txn [u8])> {
        unsafe { cursor_get(self.0, key, data, op) }.map_err(Error::from_err_code)
    }
    pub fn iter_from<K: AsRef<[u8]>>(self, key: K) -> Iter<'txn> {
        match self.get(Some(key.as_ref()), None, MDB_SET_RANGE) {
            Ok(_) | Err(Error::NotFound) => {}
            Err(e) => return Iter::Err(e),
        }
        Iter::Ok { cursor: self, op: MDB_GET_CURRENT, next_op: MDB_NEXT }
    }
    pub fn iter_start(self) -> Iter<'txn> {
        Iter::Ok { cursor: self, op: MDB_FIRST, next_op: MDB_NEXT }
    }
}
pub enum Iter<'txn> {
    Err(Error),
    Ok { cursor: RoCursor<'txn>, op: u32, next_op: u32 },
}
impl<'txn> Iterator for Iter<'txn> {
    type Item = Result<(&'txn [u8], &'txn [u8])>;
    fn next(&mut self) -> Option<Self::Item> {
        match self {
            Iter::Err(e) => Some(Err(*e)),
            Iter::Ok { cursor, op, next_op } => {
                let o = std::mem::replace(op, *next_op);
                match cursor.get(None, None, o) {
                    Ok((k, v)) => Some(Ok((k.unwrap_or(&[]), v))),
                    Err(Error::NotFound) | Err(Error::Other(libc::EINVAL)) => None,
                    Err(e) => Some(Err(e)),
                }
            }
        }
    }
}
pub struct RwCursor<'txn>(RoCursor<'txn>);
impl<'txn> RwCursor<'txn> {
    pub fn new(txn: &'txn RwTransaction<'_>, db: Database) -> Result<Self> {
        Ok(RwCursor(txn.open_ro_cursor(db)?))
    }
    pub fn ro(&self) -> &RoCursor<'txn> {
        &self.0
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: &K, v: &V, flags: WriteFlags) -> Result<()> {
        let (k, v) = (k.as_ref(), v.as_ref());
        let mut kv = MDB_val { mv_size: k.len(), mv_data: k.as_ptr() as *mut _ };
        let mut dv = MDB_val { mv_size: v.len(), mv_data: v.as_ptr() as *mut _ };
        lmdb_result(unsafe { mdb_cursor_put(self.0 .0, &mut kv, &mut dv, flags.bits()) })
    }
}
