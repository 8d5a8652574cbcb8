//! File locks between virtual processes, run under the deterministic scheduler.
use std::collections::HashMap;
use std::ffi::OsStr;
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

static LOCKS: Mutex<Option<HashMap<PathBuf, (u64, u64)>>> = Mutex::new(None); // path -> (wait id, owner)
fn locks<R>(f: impl FnOnce(&mut HashMap<PathBuf, (u64, u64)>) -> R) -> R {
    f(LOCKS.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(Default::default))
}
pub fn reset() {
    locks(|l| l.clear())
}
/// Anything that names a file.
pub trait ToOsStr {
    fn name(&self) -> PathBuf;
}
impl<T: AsRef<OsStr> + ?Sized> ToOsStr for T {
    fn name(&self) -> PathBuf {
        PathBuf::from(self.as_ref())
    }
}
#[derive(Debug)]
pub struct LockFile {
    path: PathBuf,
    id: u64,
    locked: bool,
}
impl LockFile {
    pub fn open<P: ToOsStr + ?Sized>(p: &P) -> io::Result<Self> {
        let path = p.name();
        if !path.parent().map(Path::exists).unwrap_or(false) {
            return Err(io::ErrorKind::NotFound.into());
        }
        Ok(LockFile { path, id: vrt::fresh_id(), locked: false })
    }
    fn take(&mut self) -> Result<(), u64> {
        let r = locks(|l| {
            let e = l.entry(self.path.clone()).or_insert_with(|| (vrt::fresh_id(), 0));
            if e.1 == 0 {
                e.1 = self.id;
                Ok(())
            } else {
                Err(e.0)
            }
        });
        self.locked = r.is_ok();
        r
    }
    pub fn lock(&mut self) -> io::Result<()> {
        if self.locked {
            panic!("Cannot lock if already owning a lock");
        }
        vrt::point("lock");
        while let Err(id) = self.take() {
            vrt::block(id, "lock");
        }
        Ok(())
    }
    pub fn lock_with_pid(&mut self) -> io::Result<()> {
        self.lock()
    }
    pub fn try_lock(&mut self) -> io::Result<bool> {
        if self.locked {
            panic!("Cannot lock if already owning a lock");
        }
        vrt::point("try_lock");
        Ok(self.take().is_ok())
    }
    pub fn try_lock_with_pid(&mut self) -> io::Result<bool> {
        self.try_lock()
    }
    pub fn owns_lock(&self) -> bool {
        self.locked
    }
    fn release(&mut self) {
        self.locked = false;
        let id = locks(|l| {
            l.get_mut(&self.path).map(|e| {
                e.1 = 0;
                e.0
            })
        });
        if let Some(id) = id {
            vrt::wake(id)
        }
    }
    pub fn unlock(&mut self) -> io::Result<()> {
        if !self.locked {
            panic!("Attempted to unlock a non-locked lockfile");
        }
        vrt::point("unlock");
        self.release();
        Ok(())
    }
}
impl Drop for LockFile {
    fn drop(&mut self) {
        if self.locked {
            self.release()
        }
    }
}
