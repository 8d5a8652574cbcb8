//! Stand-in: identity of a file by device and inode (what `same-file` does on unix).
use std::os::unix::fs::MetadataExt;
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct Handle(u64, u64);
impl Handle {
    pub fn from_path<P: AsRef<std::path::Path>>(p: P) -> std::io::Result<Handle> {
        let m = std::fs::metadata(p)?;
        Ok(Handle(m.dev(), m.ino()))
    }
}
