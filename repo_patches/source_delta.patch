From 63f7c5f5373b60c631d7f056157ed42ce72c5037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 01/38] verif hook: guarded std stand-in for the ipc bus (cfg
 lk_verif)

---
 crates/ipcbus/src/lib.rs         |   2 +
 crates/ipcbus/src/udp_procbus.rs |   2 +
 crates/ipcbus/src/verif_std.rs   | 174 +++++++++++++++++++++++++++++++
 3 files changed, 178 insertions(+)
 create mode 100644 crates/ipcbus/src/verif_std.rs

diff --git a/crates/ipcbus/src/lib.rs b/crates/ipcbus/src/lib.rs
index 6c695a1..136158b 100644
--- a/crates/ipcbus/src/lib.rs
+++ b/crates/ipcbus/src/lib.rs
@@ -16,6 +16,8 @@ mod udp_multicast;
 pub mod udp_procbus;
 #[cfg(not(target_arch = "wasm32"))]
 pub use udp_procbus::*;
+#[cfg(lk_verif)]
+pub mod verif_std;
 
 #[cfg(target_arch = "wasm32")]
 pub mod wasmbus;
diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index daaba3f..adb049e 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -3,6 +3,8 @@
 // This Source Code Form is subject to the terms of the Mozilla Public
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
+#[cfg(lk_verif)]
+use crate::verif_std as std;
 use std::{
     path::Path,
     sync::{
diff --git a/crates/ipcbus/src/verif_std.rs b/crates/ipcbus/src/verif_std.rs
new file mode 100644
index 0000000..d7b2a81
--- /dev/null
+++ b/crates/ipcbus/src/verif_std.rs
@@ -0,0 +1,174 @@
+//! Stand-in for `std`, only compiled with `--cfg lk_verif`.
+//!
+//! Everything is the real `std`, except that atomic accesses and file operations first call
+//! [HOOK] (so a test scheduler can interleave threads there) and that the process id can be
+//! overridden per thread (so one process can host several bus endpoints).
+pub use ::std::*;
+
+/// Called as `hook(operation, detail)` before each operation.
+pub static HOOK: ::std::sync::OnceLock<fn(&'static str, &str)> = ::std::sync::OnceLock::new();
+fn hook(op: &'static str, detail: &str) {
+    if let Some(h) = HOOK.get() {
+        h(op, detail)
+    }
+}
+
+pub mod process {
+    pub use ::std::process::*;
+    use std::cell::Cell;
+    ::std::thread_local! { pub static PID: Cell<Option<u32>> = const { Cell::new(None) } }
+    pub fn id() -> u32 {
+        PID.with(|p| p.get()).unwrap_or_else(::std::process::id)
+    }
+}
+
+pub mod fs {
+    use super::hook;
+    pub use ::std::fs::*;
+    use ::std::{io, path::Path};
+    pub fn read<P: AsRef<Path>>(path: P) -> io::Result<Vec<u8>> {
+        hook("fs.read", &path.as_ref().to_string_lossy());
+        ::std::fs::read(path)
+    }
+    /// Same effect as [::std::fs::write], in the steps in which it becomes visible.
+    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(path: P, contents: C) -> io::Result<()> {
+        use ::std::io::Write;
+        let (path, bytes) = (path.as_ref(), contents.as_ref());
+        let name = path.to_string_lossy();
+        hook("fs.create", &name);
+        let mut file = File::create(path)?;
+        let (a, b) = bytes.split_at(bytes.len() - bytes.len().min(5));
+        hook("fs.write", &name);
+        file.write_all(a)?;
+        hook("fs.write", &name);
+        file.write_all(b)
+    }
+    pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> io::Result<()> {
+        hook("fs.rename", &to.as_ref().to_string_lossy());
+        ::std::fs::rename(from, to)
+    }
+}
+
+pub mod sync {
+    pub use ::std::sync::*;
+    use super::hook;
+    /// A mutex that lets the scheduler run others while it is taken.
+    #[derive(Debug, Default)]
+    pub struct Mutex<T>(::std::sync::Mutex<T>);
+    impl<T> Mutex<T> {
+        pub const fn new(v: T) -> Self {
+            Mutex(::std::sync::Mutex::new(v))
+        }
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            hook("mutex.lock", "");
+            loop {
+                match self.0.try_lock() {
+                    Ok(g) => return Ok(g),
+                    Err(TryLockError::Poisoned(e)) => return Err(e),
+                    Err(TryLockError::WouldBlock) => {
+                        ::std::thread::yield_now();
+                        hook("mutex.wait", "")
+                    }
+                }
+            }
+        }
+        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+            hook("mutex.try_lock", "");
+            self.0.try_lock()
+        }
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.0.get_mut()
+        }
+        pub fn into_inner(self) -> LockResult<T> {
+            self.0.into_inner()
+        }
+    }
+    pub mod atomic {
+        use super::super::hook;
+        pub use ::std::sync::atomic::*;
+        #[derive(Debug, Default)]
+        pub struct AtomicU64(::std::sync::atomic::AtomicU64);
+        impl AtomicU64 {
+            pub const fn new(v: u64) -> Self {
+                AtomicU64(::std::sync::atomic::AtomicU64::new(v))
+            }
+            pub fn load(&self, o: Ordering) -> u64 {
+                hook("atomic.load", "");
+                self.0.load(o)
+            }
+            pub fn store(&self, v: u64, o: Ordering) {
+                hook("atomic.store", "");
+                self.0.store(v, o)
+            }
+            pub fn swap(&self, v: u64, o: Ordering) -> u64 {
+                hook("atomic.swap", "");
+                self.0.swap(v, o)
+            }
+            pub fn fetch_max(&self, v: u64, o: Ordering) -> u64 {
+                hook("atomic.rmw", "");
+                self.0.fetch_max(v, o)
+            }
+            pub fn fetch_min(&self, v: u64, o: Ordering) -> u64 {
+                hook("atomic.rmw", "");
+                self.0.fetch_min(v, o)
+            }
+            pub fn fetch_add(&self, v: u64, o: Ordering) -> u64 {
+                hook("atomic.rmw", "");
+                self.0.fetch_add(v, o)
+            }
+            pub fn fetch_sub(&self, v: u64, o: Ordering) -> u64 {
+                hook("atomic.rmw", "");
+                self.0.fetch_sub(v, o)
+            }
+            pub fn fetch_or(&self, v: u64, o: Ordering) -> u64 {
+                hook("atomic.rmw", "");
+                self.0.fetch_or(v, o)
+            }
+            pub fn fetch_and(&self, v: u64, o: Ordering) -> u64 {
+                hook("atomic.rmw", "");
+                self.0.fetch_and(v, o)
+            }
+            pub fn compare_exchange(
+                &self,
+                old: u64,
+                new: u64,
+                s: Ordering,
+                f: Ordering,
+            ) -> Result<u64, u64> {
+                hook("atomic.cas", "");
+                self.0.compare_exchange(old, new, s, f)
+            }
+            pub fn compare_exchange_weak(
+                &self,
+                old: u64,
+                new: u64,
+                s: Ordering,
+                f: Ordering,
+            ) -> Result<u64, u64> {
+                hook("atomic.cas", "");
+                self.0.compare_exchange(old, new, s, f)
+            }
+            pub fn fetch_update<F: FnMut(u64) -> Option<u64>>(
+                &self,
+                s: Ordering,
+                f: Ordering,
+                mut next: F,
+            ) -> Result<u64, u64> {
+                let mut at = self.load(f);
+                while let Some(n) = next(at) {
+                    match self.compare_exchange_weak(at, n, s, f) {
+                        x @ Ok(_) => return x,
+                        Err(x) => at = x,
+                    }
+                }
+                Err(at)
+            }
+            pub fn get_mut(&mut self) -> &mut u64 {
+                self.0.get_mut()
+            }
+            pub fn into_inner(self) -> u64 {
+                self.0.into_inner()
+            }
+        }
+    }
+}
-- 
2.43.0


From 7ca0094f5eea44d5a7c712a9b170ba4f10d041e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 02/38] fix: a malformed bus datagram no longer ends the
 receive thread

---
 crates/ipcbus/src/udp_procbus.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index adb049e..f7e7b67 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -128,6 +128,11 @@ impl ProcBus {
         self.0.listener.get_or_init(move || {
             let this = ProcBus(self.0.clone());
             self.0.udp.rx_thread(move |b| {
+                // The port is not ours alone. A panic here would end the thread for good.
+                if b.len() != 8 + 4 + 8 {
+                    tracing::error!(len = b.len(), "Ignoring malformed IPC message");
+                    return;
+                }
                 let (busid, rest) = b.split_at(8);
                 let busid = u64::from_ne_bytes(busid.try_into().unwrap());
                 if busid != this.0.bus_id {
-- 
2.43.0


From 570fb0f1c31969f7fcaf01645300cbf8b2fbb606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 03/38] fix: replace the port map in one step, so that dying
 halfway does not lose ports

---
 crates/ipcbus/src/udp_procbus.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index f7e7b67..03471cb 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -48,7 +48,10 @@ pub fn get_port(bus_id: u64) -> std::io::Result<u16> {
     bytes.extend(bus_id.to_ne_bytes());
     new_port = new_port.saturating_add(1);
     bytes.extend(new_port.to_ne_bytes());
-    std::fs::write(&path, bytes).unwrap();
+    // Replace the map in one step: dying halfway must not lose the ports already given out.
+    let new_path = std::env::temp_dir().join("procbus.map.new");
+    std::fs::write(&new_path, bytes).unwrap();
+    std::fs::rename(&new_path, &path).unwrap();
     lockfile.unlock().unwrap();
     Ok(new_port)
 }
-- 
2.43.0


From 195612d9c317c35d2e507e8cd0a8b95bf51f7cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 04/38] fix: slice no longer overflows on out of range indices
 and steps

---
 crates/abe/src/scope/bytes.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 442da63..9326fc8 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -176,13 +176,14 @@ pub fn slice<'o, F>(
 
     let (sb, eb) = if step >= 0 { (0, len) } else { (len - 1, -1) };
 
+    let to_isize = |val: usize| isize::try_from(val).unwrap_or(isize::MAX);
     let to_bound = |v: Option<SignedInt>| -> Option<isize> {
         match v {
             Some(SignedInt { neg: false, val }) => {
-                Some((val as isize).clamp(sb.min(eb), sb.max(eb)))
+                Some(to_isize(val).clamp(sb.min(eb), sb.max(eb)))
             }
             Some(SignedInt { neg: true, val }) => {
-                Some((len - val as isize).clamp(sb.min(eb), sb.max(eb)))
+                Some((len - to_isize(val)).clamp(sb.min(eb), sb.max(eb)))
             }
             None => None,
         }
@@ -196,7 +197,7 @@ pub fn slice<'o, F>(
             return None;
         }
         let result = bytes.get(i as usize)?;
-        i += step;
+        i = i.saturating_add(step);
         Some(result)
     }))
 }
-- 
2.43.0


From a69038caf83c0fe1aafc11e62eb9b35e6068b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 05/38] fix: padding to an impossible length is an error
 instead of a crash

---
 crates/abe/src/scope/bytes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 9326fc8..c209b47 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -54,7 +54,9 @@ impl EvalScopeImpl for BytesFE {
             if padb.len() != 1 {
                 return Err(anyhow!("pad byte should be a single byte"));
             };
-            let mut v = vec![padb[0]; len];
+            let mut v = Vec::new();
+            v.try_reserve_exact(len)?;
+            v.resize(len, padb[0]);
             if !left {
                 &mut v[0..bytes.len()]
             } else {
-- 
2.43.0


From 65f5834b9af9b724a0f1ab9efc71cb84854ce85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 06/38] fix: replacing an empty pattern is an error instead of
 an endless loop

---
 crates/abe/src/scope/bytes.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index c209b47..738d1a3 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -126,7 +126,10 @@ impl EvalScopeImpl for BytesFE {
         ])
     }
 }
-fn replace([mut b, from, to]: [&[u8]; 3]) -> Vec<u8> {
+fn replace([mut b, from, to]: [&[u8]; 3]) -> Result<Vec<u8>, ApplyErr> {
+    if from.is_empty() {
+        return Err(anyhow!("the pattern to replace can not be empty"));
+    }
     let mut r = Vec::with_capacity(b.len());
     while let Some((h, rest)) = b.split_first() {
         match b.strip_prefix(from) {
@@ -140,7 +143,7 @@ fn replace([mut b, from, to]: [&[u8]; 3]) -> Vec<u8> {
             }
         }
     }
-    r
+    Ok(r)
 }
 
 /// python like slice indexing
-- 
2.43.0


From 138353bd9d89b321e3a3c0870431d2137113fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 07/38] fix: adding and subtracting empty values no longer
 underflows the index

---
 crates/abe/src/scope/uint.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/crates/abe/src/scope/uint.rs b/crates/abe/src/scope/uint.rs
index 2a7489c..2dacff5 100644
--- a/crates/abe/src/scope/uint.rs
+++ b/crates/abe/src/scope/uint.rs
@@ -16,30 +16,20 @@ where
 pub fn carry_add_be(bytes: &mut [u8], val: &[u8]) -> bool {
     debug_assert!(bytes.len() == val.len());
     let mut carry = false;
-    let mut idx = bytes.len() - 1;
-    loop {
+    for idx in (0..bytes.len()).rev() {
         let (ni, nc) = bytes[idx].carrying_add(val[idx], carry);
         bytes[idx] = ni;
         carry = nc;
-        if idx == 0 {
-            break;
-        }
-        idx -= 1;
     }
     carry
 }
 pub fn carry_sub_be(bytes: &mut [u8], val: &[u8]) -> bool {
     debug_assert!(bytes.len() == val.len());
     let mut carry = false;
-    let mut idx = bytes.len() - 1;
-    loop {
+    for idx in (0..bytes.len()).rev() {
         let (ni, nc) = bytes[idx].borrowing_sub(val[idx], carry);
         bytes[idx] = ni;
         carry = nc;
-        if idx == 0 {
-            break;
-        }
-        idx -= 1;
     }
     carry
 }
-- 
2.43.0


From 0d4dc68937f223ca5c209300807aa588ad9cb063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 08/38] fix: b2 and b16 only encode bytes that they decode to

---
 crates/abe/src/scope/base.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/abe/src/scope/base.rs b/crates/abe/src/scope/base.rs
index 88ba3a4..a9a0946 100644
--- a/crates/abe/src/scope/base.rs
+++ b/crates/abe/src/scope/base.rs
@@ -20,7 +20,14 @@ fn bin(inp: &[&[u8]], radix: u32) -> Result<Vec<u8>, ApplyErr> {
     }
 }
 
-// FIXME ambiguous lengths
+/// [bin] drops leading zeros and is limited to 16 bytes. Only give an encoding that returns the same bytes.
+fn exact_bin(bytes: &[u8], st: &str, radix: u32) -> ApplyResult<String> {
+    match bin(&[st.as_bytes()], radix) {
+        Ok(b) if b == bytes => ApplyResult::Value(format!("[b{radix}:{st}]")),
+        _ => ApplyResult::NoValue,
+    }
+}
+
 fn enc_bin(bytes: &[u8], opts: &[ABE], radix: u32) -> ApplyResult<String> {
     let len_set: Vec<usize> = opts
         .iter()
@@ -38,14 +45,14 @@ fn enc_bin(bytes: &[u8], opts: &[ABE], radix: u32) -> ApplyResult<String> {
             bytes.iter().for_each(|b| {
                 let _ = write!(&mut st, "{b:08b}");
             });
-            ApplyResult::Value(format!("[b{radix}:{st}]"))
+            exact_bin(bytes, &st, radix)
         }
         16 => {
             let mut st = String::with_capacity(bytes.len() * 2);
             bytes.iter().for_each(|b| {
                 let _ = write!(&mut st, "{b:02X}");
             });
-            ApplyResult::Value(format!("[b{radix}:{st}]"))
+            exact_bin(bytes, &st, radix)
         }
         _ => ApplyResult::Err(anyhow::anyhow!("fixme: radix supported")),
     }
-- 
2.43.0


From 5184d765ef001ade76587e2ecf3ae51e64213cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 09/38] fix: find options without a value and values of
 undelimited options

---
 crates/abe/src/abconf.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/abe/src/abconf.rs b/crates/abe/src/abconf.rs
index 348f1cc..df1ce78 100644
--- a/crates/abe/src/abconf.rs
+++ b/crates/abe/src/abconf.rs
@@ -57,11 +57,15 @@ impl ABConf {
         starts_with: &[&[u8]],
     ) -> Option<Result<Option<&[u8]>, &ABList>> {
         match &self.get_checked(starts_with).next()? {
-            Ok(lst) => match &lst[starts_with.len() - 1..] {
-                [(Some(Ctr::Colon), bytes)] => Some(Ok(Some(bytes.as_slice()))),
-                [] => Some(Ok(None)),
-                _ => Some(Err(lst)),
-            },
+            Ok(lst) => {
+                // a leading delimiter starts an empty component without an entry of its own
+                let implied = matches!(lst.first(), Some((Some(_), _))) as usize;
+                match &lst[starts_with.len().saturating_sub(implied)..] {
+                    [(Some(Ctr::Colon), bytes)] => Some(Ok(Some(bytes.as_slice()))),
+                    [] => Some(Ok(None)),
+                    _ => Some(Err(lst)),
+                }
+            }
             Err(v) => Some(Err(v)),
         }
     }
@@ -86,7 +90,7 @@ impl ABConf {
         starts_with: &'b [&[u8]],
     ) -> impl Iterator<Item = &'a ABList> + 'b {
         self.0.iter().rev().filter(move |a| {
-            if a.len() < starts_with.len() {
+            if a.iter_bytes().count() < starts_with.len() {
                 return false;
             }
             let ok = starts_with
-- 
2.43.0


From 46447ab60a548c3ee38829c7c2a4d97683a3dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 10/38] fix: ABList::pop_front on an empty list returns None
 instead of panicking

---
 crates/abe/src/eval.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/abe/src/eval.rs b/crates/abe/src/eval.rs
index 9655a37..577c50b 100644
--- a/crates/abe/src/eval.rs
+++ b/crates/abe/src/eval.rs
@@ -270,7 +270,10 @@ impl ABList {
         self.0
     }
     pub fn pop_front(&mut self) -> Option<ABLV> {
-        self.0.splice(0..1, None).next()
+        if self.0.is_empty() {
+            return None;
+        }
+        Some(self.0.remove(0))
     }
 }
 pub type ApplyErr = anyhow::Error;
-- 
2.43.0


From c9b420fb7087428a3aaa15ea17e650d5a1d0231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 11/38] fix: AB::to_abe no longer escapes its bytes twice

---
 crates/byte-fmt/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/byte-fmt/src/lib.rs b/crates/byte-fmt/src/lib.rs
index c7a5042..d561d86 100644
--- a/crates/byte-fmt/src/lib.rs
+++ b/crates/byte-fmt/src/lib.rs
@@ -159,12 +159,10 @@ where
     fn write_abe(&self, out: &mut dyn FnMut(ABE)) {
         let (max_padded, bytes) = self.x_prefix_cut();
         let mode = if max_padded { MAX_STR } else { "a" };
-        let st = abe::abtxt::as_abtxt(bytes);
-        let st: &str = st.borrow();
         if self.as_ref().len() == 16 {
-            abe::abe!({ mode : st  }).for_each(out)
+            abe::abe!({ mode : bytes  }).for_each(out)
         } else {
-            abe::abe!({ mode : st : (self.as_ref().len().to_string()) }).for_each(out)
+            abe::abe!({ mode : bytes : (self.as_ref().len().to_string()) }).for_each(out)
         }
     }
     fn to_abe_str(&self) -> String {
-- 
2.43.0


From 8517f2fba96e117eb9b75e430c02925a69b50280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 12/38] fix: write a format header before an entry that looks
 like one

---
 crates/abe/src/abconf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/abe/src/abconf.rs b/crates/abe/src/abconf.rs
index df1ce78..34191f0 100644
--- a/crates/abe/src/abconf.rs
+++ b/crates/abe/src/abconf.rs
@@ -114,6 +114,10 @@ impl ABConf {
 }
 impl Display for ABConf {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        // an entry that looks like a format header has to follow one
+        if matches!(self.0.last(), Some(newest) if newest.to_string().starts_with(":%")) {
+            writeln!(f, ":%abctxt")?;
+        }
         for abl in self.0.iter().rev() {
             writeln!(f, "{abl}")?;
         }
-- 
2.43.0


From f808b4f54b054f9b23ba77ad73f29767fe352eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 13/38] fix: no Space is deeper than MAX_SPACE_DEPTH

---
 crates/pkt/src/space.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/pkt/src/space.rs b/crates/pkt/src/space.rs
index a193cb5..5a27117 100644
--- a/crates/pkt/src/space.rs
+++ b/crates/pkt/src/space.rs
@@ -209,13 +209,8 @@ impl SpaceBuf {
         mut self,
         i: impl IntoIterator<Item = impl AsRef<[u8]>>,
     ) -> Result<Self, SpaceError> {
-        let mut depth = self.iter().count();
         for s in i.into_iter() {
             self = self.try_push(s.as_ref())?;
-            depth += 1;
-        }
-        if depth > MAX_SPACE_DEPTH {
-            return Err(SpaceError::MaxDepth);
         }
         Ok(self)
     }
@@ -252,6 +247,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + p.inner_bytes.len() > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.calc_depth() + p.iter().count() > MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.splice(0..0, p.inner_bytes.iter().cloned());
         Ok(self)
     }
@@ -265,6 +263,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + component.len() + 1 > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.calc_depth() >= MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.push(component.len().try_into().unwrap());
         self.inner_bytes.extend_from_slice(component);
         Ok(self)
@@ -283,6 +284,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + component.len() + 1 > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.calc_depth() >= MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.splice(
             0..0,
             [component.len().try_into().unwrap()]
@@ -333,6 +337,7 @@ impl Space {
             }
         }
     }
+    #[allow(clippy::as_conversions)]
     pub const fn check_components(&self) -> Result<u8, SpaceError> {
         match self.checked_iter() {
             Err(e) => Err(e),
@@ -344,6 +349,9 @@ impl Space {
                         Err(e) => return Err(e),
                     }
                     i += 1;
+                    if i > MAX_SPACE_DEPTH as u8 {
+                        return Err(SpaceError::MaxDepth);
+                    }
                 }
                 Ok(i)
             }
@@ -712,6 +720,9 @@ impl Space {
                 count += 1;
             }
         }
+        if it.next().transpose()?.is_some() {
+            return Err(SpaceError::MaxDepth);
+        }
         data[0] = count;
         let v = RootedSpaceBuf::from_unchecked(data);
         debug_assert!(
-- 
2.43.0


From 019a60ed13e9f9fb9934bfc41ea8df5014b6bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 14/38] fix: SpaceBuf::components returns the components of a
 non empty space

---
 crates/pkt/src/space.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/crates/pkt/src/space.rs b/crates/pkt/src/space.rs
index 5a27117..45a6dae 100644
--- a/crates/pkt/src/space.rs
+++ b/crates/pkt/src/space.rs
@@ -227,13 +227,9 @@ impl SpaceBuf {
     }
 
     pub fn components(&self) -> Result<Vec<Vec<u8>>, SpaceError> {
-        let iter = self.as_ref().iter();
-        let res = iter.map(Vec::from).collect();
-        if iter.space.inner_bytes.is_empty() {
-            Ok(res)
-        } else {
-            Err(SpaceError::TailLength)
-        }
+        self.checked_iter()?
+            .map(|c| c.map(Vec::from))
+            .collect()
     }
     /// Panics if the component is larger then 250 bytes;
     pub fn push(self, s: impl AsRef<[u8]>) -> Self {
-- 
2.43.0


From ffb035c6be59f7bb7e6e55388403a662e3760759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 15/38] fix: check the depth byte of a rooted space with 8
 components

---
 crates/pkt/src/rooted_space.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/pkt/src/rooted_space.rs b/crates/pkt/src/rooted_space.rs
index 84a622e..bd66bfb 100644
--- a/crates/pkt/src/rooted_space.rs
+++ b/crates/pkt/src/rooted_space.rs
@@ -231,6 +231,10 @@ impl RootedSpace {
             }
             i += 1;
         }
+        // every missing component added one, so this checks the depth of a space that has all 8
+        if len != 8 {
+            return Err(SpaceError::EmptyComponentIdx);
+        }
         Ok(())
     }
 
-- 
2.43.0


From cc6a20d3dc16d8445a4e1d50a1ca537379e024a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 16/38] fix: [si:space:start:?end] returns the components from
 start to end

---
 crates/pkt/src/space_fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/pkt/src/space_fmt.rs b/crates/pkt/src/space_fmt.rs
index 3784f2c..b639b07 100644
--- a/crates/pkt/src/space_fmt.rs
+++ b/crates/pkt/src/space_fmt.rs
@@ -312,13 +312,13 @@ impl EvalScopeImpl for SpaceFE {
     fn list_funcs(&self) -> &[ScopeFunc<&Self>] {
         fn parse_range(i: &[&[u8]]) -> Result<Range<usize>, ApplyErr> {
             let start = parse_b::<usize>(i[1])?;
+            ensure!(start <= 8, "space max depth is 8");
             let end = i
                 .get(2)
                 .map(|i| parse_b::<usize>(i))
                 .transpose()?
                 .unwrap_or(start + 1)
-                .max(9);
-            ensure!(start <= 8, "space max depth is 8");
+                .min(8);
             ensure!(end >= start, "end < start");
             Ok(start..end)
         }
-- 
2.43.0


From 47ed5d18b8fc6349c53f3d1053e90fade6710994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 17/38] fix: an empty space is encoded as an expression that
 evaluates

---
 crates/pkt/src/space_fmt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/pkt/src/space_fmt.rs b/crates/pkt/src/space_fmt.rs
index b639b07..f2dfe2d 100644
--- a/crates/pkt/src/space_fmt.rs
+++ b/crates/pkt/src/space_fmt.rs
@@ -323,7 +323,10 @@ impl EvalScopeImpl for SpaceFE {
             Ok(start..end)
         }
         fn encode_sp(_: &SpaceFE, b: &[u8], _: &[ABE]) -> ApplyResult<String> {
-            Space::from_slice(b).ok().map(|p| format!("[/{p}]")).into()
+            Space::from_slice(b)
+                .ok()
+                .map(|p| if p.is_empty() { "[//]".into() } else { format!("[/{p}]") })
+                .into()
         }
 
         crate::abe::fncs!([
-- 
2.43.0


From 3fa182f4f57125fcab42ba470108f7f5fe442fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 18/38] fix: MAX_KEYPOINT_DATA_SIZE accounts for the link
 header of a keypoint

---
 crates/pkt/src/consts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pkt/src/consts.rs b/crates/pkt/src/consts.rs
index 278179c..dd6940c 100644
--- a/crates/pkt/src/consts.rs
+++ b/crates/pkt/src/consts.rs
@@ -17,7 +17,7 @@ pub const MAX_CONTENT_SIZE: usize = MAX_POINT_SIZE - size_of::<PointHeader>();
 
 pub const MAX_DATA_SIZE: usize = MAX_CONTENT_SIZE;
 pub const MAX_LINKPOINT_DATA_SIZE: usize = MAX_CONTENT_SIZE - size_of::<LinkPointHeader>();
-pub const MAX_KEYPOINT_DATA_SIZE: usize = MAX_CONTENT_SIZE - size_of::<Signed>();
+pub const MAX_KEYPOINT_DATA_SIZE: usize = MAX_LINKPOINT_DATA_SIZE - size_of::<Signed>();
 pub const MAX_LINKS_LEN: usize = (MAX_POINT_SIZE - MAX_SPACENAME_SIZE) / size_of::<Link>();
 pub const MAX_SPACENAME_SIZE: usize = 242;
 pub const MAX_ROOTED_SPACENAME_SIZE: usize = MAX_SPACENAME_SIZE + 8;
-- 
2.43.0


From d78118573426c5cc7ff2b731abe40e905a9493f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 19/38] fix: a packet with a malformed space is an error, also
 with debug assertions

---
 crates/pkt/src/point_ptr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/pkt/src/point_ptr.rs b/crates/pkt/src/point_ptr.rs
index f182c6c..bdfb5b2 100644
--- a/crates/pkt/src/point_ptr.rs
+++ b/crates/pkt/src/point_ptr.rs
@@ -165,7 +165,11 @@ impl PointThinPtr {
                 if link_size % u16::try_from(size_of::<Link>()).unwrap() != 0 {
                     return Err(Error::IndivisableLinkbytes);
                 }
-                unsafe { self.unchecked_tail() }.rspace.check_components()?;
+                // not through unchecked_tail, it asserts what is checked here
+                RootedSpace::from_unchecked(
+                    &self.pkt_bytes()[usize::from(isp_offset)..usize::from(data_offset)],
+                )
+                .check_components()?;
                 padding
             }
             BarePointFields::Error { padding, .. } => padding,
-- 
2.43.0


From 27f5e49ce35aeeda32942a573e8e5e929830bfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 20/38] fix: a point is at least the size of its header

---
 crates/pkt/src/point.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/pkt/src/point.rs b/crates/pkt/src/point.rs
index 2769730..cf66618 100644
--- a/crates/pkt/src/point.rs
+++ b/crates/pkt/src/point.rs
@@ -67,6 +67,9 @@ impl PointHeader {
         if self.reserved != 0 {
             return Err(Error::HeaderReservedSet(self.reserved));
         }
+        if (self.upoint_size() as usize) < size_of::<PointHeader>() {
+            return Err(Error::ContentLen);
+        }
         let len = self.ucontent_size() as usize;
         if len > MAX_CONTENT_SIZE {
             return Err(Error::ContentLen);
-- 
2.43.0


From 2c9803dddab69c9b00a009b1930d944d172edc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 21/38] fix: saving in the microsecond of the last entry takes
 the next receive stamp

---
 crates/core/src/env/lmdb/save.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/env/lmdb/save.rs b/crates/core/src/env/lmdb/save.rs
index a2fd020..750c77b 100644
--- a/crates/core/src/env/lmdb/save.rs
+++ b/crates/core/src/env/lmdb/save.rs
@@ -27,9 +27,10 @@ impl LMDBEnv {
         match pktlog.ro().get(None, None, lmdb_sys::MDB_LAST) {
             Ok((Some(recv), _)) => {
                 let last: u64 = super::db::pktlog::val(recv.try_into().unwrap());
-                if last > start {
-                    eprintln!("db log saved entries from the future? - this could become undefined behavior");
-
+                if last >= start {
+                    if last > start {
+                        eprintln!("db log saved entries from the future? - this could become undefined behavior");
+                    }
                     start = last + 1;
                 }
             }
-- 
2.43.0


From 2156cb64a142462270fbe1d529a46b8886ee7887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 22/38] fix: a mask without members is no error, and the next
 member of a mask is the smallest one

---
 crates/core/src/predicate/value_test.rs | 44 ++++++++++---------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/crates/core/src/predicate/value_test.rs b/crates/core/src/predicate/value_test.rs
index fc73bfe..c75e0e9 100644
--- a/crates/core/src/predicate/value_test.rs
+++ b/crates/core/src/predicate/value_test.rs
@@ -351,37 +351,29 @@ impl<U: UInt> Mask<U> {
             .bit_or(self.ones.bit_and(val.not()))
     }
 
+    /// the smallest value from val on that passes the mask
     pub fn in_set(&self, val: U) -> Option<U> {
-        let (overflow, v) = self.overflowing_in_set(val);
-        if overflow {
-            None
-        } else {
-            Some(v)
+        if !self.has_any() {
+            return None;
         }
-    }
-
-    pub fn overflowing_in_set(self: &Mask<U>, val: U) -> (bool, U) {
-        // if val was known to be in set this could be done faster. But we dont so we cant.
-        debug_assert!(self.has_any());
-        let Mask { zeros, .. } = self;
         let wrong = self.wrong_bits(val);
         if wrong == U::MIN {
-            return (false, val);
+            return Some(val);
         }
-        let min = self.min_val();
-        let wrongmask = U::MAX
-            .overflowing_shl(U::BITS - 1 - wrong.leading_zeros())
-            .0
-            .not();
-        let vnz = val.bit_or(zeros.not()).bit_or(wrongmask);
-        let pivot = vnz.trailing_ones();
-        let (freemask, over) = U::MAX.overflowing_shr((U::BITS - 1).wrapping_sub(pivot));
-        let (incval, _) = val
-            .bit_or(freemask.overflowing_shr(1).0)
-            .overflowing_add(U::ONE);
-        let fix_mask = U::MAX.overflowing_shl(pivot).0.not();
-        let v = incval.bit_and(fix_mask.not()).bit_or(min.bit_and(fix_mask));
-        (over, v)
+        // a bit that is zero, but may be one, at or just above the first wrong bit has to be set
+        let first_wrong = U::BITS - 1 - wrong.leading_zeros();
+        let above = U::MAX.overflowing_shl(first_wrong).0;
+        let free = val.not().bit_and(self.zeros).bit_and(above);
+        if free == U::MIN {
+            return None;
+        }
+        let pivot = free.trailing_zeros();
+        let below = U::MAX.overflowing_shl(pivot).0.not();
+        Some(
+            val.bit_and(below.not())
+                .bit_or(U::ONE.overflowing_shl(pivot).0)
+                .bit_or(self.ones.bit_and(below)),
+        )
     }
 }
 #[ignore]
-- 
2.43.0


From 3271fbdc40ee43ff2cceedbd3e95f5510458a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 23/38] fix: counting members ends after the largest number

---
 crates/core/src/predicate/value_test.rs | 33 ++++++++++++++-----------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/crates/core/src/predicate/value_test.rs b/crates/core/src/predicate/value_test.rs
index c75e0e9..5c0a8bd 100644
--- a/crates/core/src/predicate/value_test.rs
+++ b/crates/core/src/predicate/value_test.rs
@@ -668,22 +668,26 @@ impl<V: UInt> TestSet<V> {
     ```
      **/
     pub fn iter_contains(self, at: &mut V) -> impl Iterator<Item = bool> + '_ {
+        let mut done = false;
         std::iter::from_fn(move || {
-            if self.bound.high < *at {
+            if done || self.bound.high < *at {
                 return None;
             }
             let r = self.test(*at);
-            if let Some(nt) = at.inc() {
-                *at = nt;
-            } else if !r {
-                return None;
-            };
+            match at.inc() {
+                Some(nt) => *at = nt,
+                None => done = true,
+            }
             Some(r)
         })
     }
 
     pub fn iter(self, at: V) -> MembershipIter<V> {
-        MembershipIter { set: self, at }
+        MembershipIter {
+            set: self,
+            at,
+            done: false,
+        }
     }
     pub fn enumerate(self, start: V) -> impl Iterator<Item = V> {
         let mut next = self.info(start).val;
@@ -701,10 +705,12 @@ impl<V: UInt> TestSet<V> {
 pub struct MembershipIter<V> {
     set: TestSet<V>,
     at: V,
+    /// the largest number was yielded
+    done: bool,
 }
 impl<V: UInt> MembershipIter<V> {
     pub fn peek(&self) -> Option<bool> {
-        if self.set.bound.high < self.at {
+        if self.done || self.set.bound.high < self.at {
             return None;
         }
         Some(self.set.test(self.at))
@@ -713,15 +719,14 @@ impl<V: UInt> MembershipIter<V> {
 impl<V: UInt> Iterator for MembershipIter<V> {
     type Item = bool;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.set.bound.high < self.at {
+        if self.done || self.set.bound.high < self.at {
             return None;
         }
         let r = self.set.test(self.at);
-        if let Some(nt) = self.at.inc() {
-            self.at = nt;
-        } else if !r {
-            return None;
-        };
+        match self.at.inc() {
+            Some(nt) => self.at = nt,
+            None => self.done = true,
+        }
         Some(r)
     }
 }
-- 
2.43.0


From e285e71454ca6bf1bd9a1e7b85b44241b8d9509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 24/38] fix: >= and <= compare the number that a value stands
 for

---
 crates/core/src/predicate/exprs.rs | 43 +++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/crates/core/src/predicate/exprs.rs b/crates/core/src/predicate/exprs.rs
index f6f2992..e065c75 100644
--- a/crates/core/src/predicate/exprs.rs
+++ b/crates/core/src/predicate/exprs.rs
@@ -105,24 +105,21 @@ impl ExtPredicate {
     pub fn try_iter(self) -> Result<impl Iterator<Item = Predicate>, TestEvalErr> {
         let ExtPredicate { kind, op, mut val } = self;
         let once_op: Option<TestOp> = match op {
-            ExtendedTestOp::GreaterEq => {
-                if val.len() != 1 {
-                    return Err(TestEvalErr::Err("Can't >= this value"));
-                }
-                if super::uint::u8_be::sub_one(&mut val.get_mut()[0].1).is_some() {
-                    Some(TestOp::Greater)
+            ExtendedTestOp::GreaterEq | ExtendedTestOp::LessEq => {
+                let mut bytes = kind
+                    .fixed_bytes(&val)
+                    .ok_or(TestEvalErr::Err("Can't >= or <= this value"))?;
+                let (strict, next) = if op == ExtendedTestOp::GreaterEq {
+                    (TestOp::Greater, super::uint::u8_be::sub_one(&mut bytes))
                 } else {
-                    None
-                }
-            }
-            ExtendedTestOp::LessEq => {
-                if val.len() != 1 {
-                    return Err(TestEvalErr::Err("Can't <= this value"));
-                }
-                if super::uint::u8_be::add_one(&mut val.get_mut()[0].1).is_some() {
-                    Some(TestOp::Less)
+                    (TestOp::Less, super::uint::u8_be::add_one(&mut bytes))
+                };
+                if next.is_some() {
+                    val = bytes.into();
+                    Some(strict)
                 } else {
-                    None
+                    // every number will do, but the field has to be there
+                    Some(TestOp::Nop)
                 }
             }
             ExtendedTestOp::Op(op) => Some(op),
@@ -267,6 +264,20 @@ impl RuleType {
         self.try_canonical(abl.clone())
             .unwrap_or_else(|_| abl.clone().into())
     }
+    /// The number a value stands for, as big endian bytes of the size of the field
+    fn fixed_bytes(self, val: &ABList) -> Option<Vec<u8>> {
+        let size = self.fixed_size()?;
+        let bytes = val.as_exact_bytes().ok()?;
+        match size {
+            32 => Some(linkspace_pkt::LkHash::try_from(val.clone()).ok()?.0.to_vec()),
+            // a domain is prepadded
+            16 => {
+                let missing = size.checked_sub(bytes.len())?;
+                Some([vec![0; missing].as_slice(), bytes].concat())
+            }
+            _ => (bytes.len() == size).then(|| bytes.to_vec()),
+        }
+    }
     pub fn fixed_size(self) -> Option<usize> {
         match self {
             RuleType::Field(f) => f.fixed_size(),
-- 
2.43.0


From fa1646dec4f45027900e0ba18a3644ecaea104ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 25/38] fix: fields that are no predicate are refused

---
 crates/core/src/predicate/pkt_predicates.rs | 22 ++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index 5d38b6b..1eace44 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -280,8 +280,6 @@ impl PktPredicates {
                     FieldEnum::PubKeyF => {
                         self.pubkey.try_add(op, PubKey::try_from(val)?.into())?;
                     }
-                    FieldEnum::SignatureF => todo!(),
-                    FieldEnum::DataF => todo!(),
                     FieldEnum::VarNetFlagsF => self.var_flags.try_add(op, U8::try_from(val)?.0)?,
                     FieldEnum::VarHopF => self.var_hop.try_add(op, U32::try_from(val)?.get())?,
                     FieldEnum::VarStampF => {
@@ -299,15 +297,17 @@ impl PktPredicates {
                     FieldEnum::VarUBits3F => {
                         self.var_ubits[3].try_add(op, U32::try_from(val)?.get())?
                     }
-                    FieldEnum::RSpaceNameF => todo!(),
-                    FieldEnum::SpaceComp0F => todo!(),
-                    FieldEnum::SpaceComp1F => todo!(),
-                    FieldEnum::SpaceComp2F => todo!(),
-                    FieldEnum::SpaceComp3F => todo!(),
-                    FieldEnum::SpaceComp4F => todo!(),
-                    FieldEnum::SpaceComp5F => todo!(),
-                    FieldEnum::SpaceComp6F => todo!(),
-                    FieldEnum::SpaceComp7F => todo!(),
+                    FieldEnum::SignatureF
+                    | FieldEnum::DataF
+                    | FieldEnum::RSpaceNameF
+                    | FieldEnum::SpaceComp0F
+                    | FieldEnum::SpaceComp1F
+                    | FieldEnum::SpaceComp2F
+                    | FieldEnum::SpaceComp3F
+                    | FieldEnum::SpaceComp4F
+                    | FieldEnum::SpaceComp5F
+                    | FieldEnum::SpaceComp6F
+                    | FieldEnum::SpaceComp7F => anyhow::bail!("{f} is not a predicate"),
                     FieldEnum::DataSizeF => {
                         self.data_size.try_add(op, U16::try_from(val)?.get())?
                     }
-- 
2.43.0


From a108c3091ea5744f3115f6f01724c4068812ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 26/38] fix: masks on recv are refused and not ignored

---
 crates/core/src/predicate/pkt_predicates.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index 1eace44..7d99bb9 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -316,7 +316,13 @@ impl PktPredicates {
                     }
                 }
             }
-            RuleType::RecvStamp => self.recv_stamp.try_add(op, U64::try_from(val)?.get())?,
+            RuleType::RecvStamp => {
+                ensure!(
+                    !matches!(op, TestOp::Mask0 | TestOp::Mask1),
+                    "recv does not support masks"
+                );
+                self.recv_stamp.try_add(op, U64::try_from(val)?.get())?
+            }
             RuleType::SpacePrefix => {
                 ensure!(op == TestOp::Equal, "prefix only supports equallity ");
                 let sp = SpaceBuf::try_from(val)?;
-- 
2.43.0


From 99951653ec54465e738e903dce3b6640ddfcdd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 27/38] fix: a prefix asks for points with a space, the empty
 prefix too

---
 crates/core/src/predicate/pkt_predicates.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index 7d99bb9..358b773 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -326,6 +326,9 @@ impl PktPredicates {
             RuleType::SpacePrefix => {
                 ensure!(op == TestOp::Equal, "prefix only supports equallity ");
                 let sp = SpaceBuf::try_from(val)?;
+                self.pkt_types
+                    .try_add(TestOp::Mask1, PointTypeFlags::LINK.bits())
+                    .with_context(|| format!("incompatible pkt typs:{rule:?}"))?;
                 self.prefix(sp)?;
             }
             RuleType::Limit(l) => {
-- 
2.43.0


From aa7a6e1cfa23f82502098473f4f99e6f60c11124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 28/38] fix: examples of create and hop are accepted, and
 bounds that leave one hash limit the results like =

---
 crates/core/src/predicate/pkt_predicates.rs | 2 +-
 crates/core/src/predicate/predicate_type.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index 358b773..93d9ea5 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -251,7 +251,7 @@ impl PktPredicates {
                     FieldEnum::SizeF => self.size.try_add(op, U16::try_from(val)?.get())?,
                     FieldEnum::PktHashF => {
                         self.hash.try_add(op, LkHash::try_from(val)?.into())?;
-                        if op == TestOp::Equal {
+                        if self.hash.as_eq().is_some() {
                             self.state.i_query.try_add(TestOp::Equal, 0u32)?;
                         }
                     }
diff --git a/crates/core/src/predicate/predicate_type.rs b/crates/core/src/predicate/predicate_type.rs
index 91d6af7..650d014 100644
--- a/crates/core/src/predicate/predicate_type.rs
+++ b/crates/core/src/predicate/predicate_type.rs
@@ -77,7 +77,7 @@ predty!( enum PredicateType {
     Prefix => ("prefix",LINK,r"/hello/world","all points with spacename starting with prefix - only accepts '=' op"),
     Spacename => ("spacename",LINK,r"/hello/world","exact spacename - only accepts '=' op"),
     Pubkey => ("pubkey",SIGNATURE,r"\[@:me:local\]","public key used to sign point"),
-    Create => ("create",LINK,r"\[now:-1H\]","the create stamp"),
+    Create => ("create",LINK,r"\[now:-1h\]","the create stamp"),
     Depth => ("depth",LINK,r"\[u8:0\]","the total number of space components - max 8"),
     LinksLen => ("links_len",LINK,r"\[u16:0\]","the number of links in a packet"),
     DataSize => ("data_size",LINK,r"\[u16:0\]","the byte size of the data field"),
@@ -86,7 +86,7 @@ predty!( enum PredicateType {
     IDb  => ("i_db",EMPTY,r"\[u32:0\]","total packets read from local instance"),
     INew  => ("i_new",EMPTY,r"\[u32:0\]","total newly received packets"),
     I => ("i",EMPTY,r"\[u32:0\]","total matched packets"),
-    Hop => ("hop",EMPTY,r"\[u16:5\]","(mutable) number of hops"),
+    Hop => ("hop",EMPTY,r"\[u32:5\]","(mutable) number of hops"),
     Stamp => ("stamp",EMPTY,r"\[now\]","(mutable) variable stamp"),
     Ubits0 => ("ubits0",EMPTY,r"\[u32:0\]","(mutable) user defined bits"),
     Ubits1 => ("ubits1",EMPTY,r"\[u32:0\]","(mutable) user defined bits"),
-- 
2.43.0


From 66ebeddd073eead5d290f37ef5806d08d059f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 29/38] fix: a query is printed such that reading it back gives
 the same options

---
 crates/core/src/query.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/query.rs b/crates/core/src/query.rs
index 1db32c1..a7321ba 100644
--- a/crates/core/src/query.rs
+++ b/crates/core/src/query.rs
@@ -48,9 +48,8 @@ pub struct Query {
 }
 impl Display for Query {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        Display::fmt(&self.conf, f)?;
-        self.predicates.fmt(f)?;
-        Ok(())
+        self.fmt_options(f)?;
+        self.predicates.fmt(f)
     }
 }
 
@@ -82,10 +81,18 @@ impl Query {
         predicates: PktPredicates::DEFAULT,
         conf: ABConf::DEFAULT,
     };
+    /// the option that was added last wins, so [Query::parse] has to read them in the order they were added.
+    fn fmt_options(&self, out: &mut impl std::fmt::Write) -> std::fmt::Result {
+        let newest_first: Vec<&ABList> = self.conf.get_inner(&[]).collect();
+        for opt in newest_first.into_iter().rev() {
+            writeln!(out, "{opt}")?;
+        }
+        Ok(())
+    }
     pub fn to_str(&self, canonical: bool) -> String {
         use std::fmt::Write;
         let mut out = String::new();
-        writeln!(out, "{}", &self.conf).unwrap();
+        self.fmt_options(&mut out).unwrap();
         for p in self.predicates.iter() {
             writeln!(out, "{}", p.to_str(canonical)).unwrap();
         }
-- 
2.43.0


From 00e3ceb1c193bfda4135e89aefc4856d866f3ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 30/38] fix: reading the log stays within the requested range
 of recv stamps, in both directions

---
 crates/core/src/env/lmdb/db.rs  | 26 +++++++++++++++++---------
 crates/core/src/env/lmdb/get.rs | 17 ++++++++---------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 4f22170..354c9c2 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -215,6 +215,21 @@ pub mod pktlog {
     }
 }
 
+/// walk back, beginning at the greatest key that is not above start
+fn iter_rev<'txn>(cursor: RoCursor<'txn>, start: &[u8]) -> Iter<'txn> {
+    let op = match cursor.get(Some(start), None, ffi::MDB_SET_RANGE) {
+        Ok((Some(key), _)) if key == start => ffi::MDB_GET_CURRENT,
+        Ok(_) => ffi::MDB_PREV,
+        Err(Error::NotFound) => ffi::MDB_LAST,
+        Err(error) => return Iter::Err(error),
+    };
+    Iter::Ok {
+        cursor,
+        op,
+        next_op: ffi::MDB_PREV,
+    }
+}
+
 impl<'txn> PktLogCursor<'txn> {
     pub(crate) fn range_uniq(self, start: &u64) -> impl Iterator<Item = (u64, &'txn [u8])> {
         let c = self.0.iter_from(pktlog::bytes(*start));
@@ -228,16 +243,9 @@ impl<'txn> PktLogCursor<'txn> {
             (k, v)
         })
     }
+    /// from start down to the first
     pub(crate) fn range_uniq_rev(self, start: &u64) -> impl Iterator<Item = (u64, &'txn [u8])> {
-        let start = *start;
-        let it = match self.0.get(Some(&pktlog::bytes(start)), None, ffi::MDB_LAST) {
-            Ok(_) | Err(Error::NotFound) => Iter::Ok {
-                cursor: self.0,
-                op: ffi::MDB_GET_CURRENT,
-                next_op: ffi::MDB_PREV,
-            },
-            Err(error) => Iter::Err(error),
-        };
+        let it = iter_rev(self.0, &pktlog::bytes(*start));
         it.map_while(|kv| kv.ok()).map(|(k, v)| {
             let k = pktlog::val(k.try_into().unwrap());
             let v = assert_align(v);
diff --git a/crates/core/src/env/lmdb/get.rs b/crates/core/src/env/lmdb/get.rs
index d5e8f91..ec44ff8 100644
--- a/crates/core/src/env/lmdb/get.rs
+++ b/crates/core/src/env/lmdb/get.rs
@@ -60,18 +60,17 @@ impl<'env> ReadTxn<'env> {
         let i = self.0.pkt_cursor().last().0;
         Stamp::new(i)
     }
+    /// the packets received from q.start up to and including q.end, in that direction
     pub fn log_range(&self, q: StampRange) -> impl Iterator<Item = RecvPktPtr> {
         let dir = IterDirection::from(q.start, q.end);
-        if dir.is_forward() {
-            Either::Left(self.0.pkt_cursor().range_uniq(&q.start).map(as_recv_ptr))
+        let log = self.0.pkt_cursor();
+        let it = if dir.is_forward() {
+            Either::Left(log.range_uniq(&q.start))
         } else {
-            Either::Right(
-                self.0
-                    .pkt_cursor()
-                    .range_uniq_rev(&q.start)
-                    .map(as_recv_ptr),
-            )
-        }
+            Either::Right(log.range_uniq_rev(&q.start))
+        };
+        it.take_while(move |(recv, _)| q.contains_u64(*recv))
+            .map(as_recv_ptr)
     }
 
     pub fn local_pkt_log(&self, from: Stamp) -> impl Iterator<Item = RecvPktPtr> {
-- 
2.43.0


From dac9c665d960698f165eb8010d1bf3516669924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 31/38] fix: the i_branch predicate is ignored when reading the
 log, as documented

---
 crates/core/src/env/lmdb/queries.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index 7392685..172d3b1 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -159,8 +159,6 @@ impl<'txn> ReadTxn<'txn> {
         let log_range = recv.stamp_range(ord.is_asc());
         let it = self.log_range(log_range);
 
-        let nth_find_set = rules.state.i_branch.iter(0);
-        let it = it.zip(nth_find_set).filter_map(|(v, ok)| ok.then_some(v));
         let it = it.filter(move |pkt| tests.test(**pkt));
 
         let nth_log_set = rules.state.i_db.iter(0);
-- 
2.43.0


From 2d98b4a059fce96ea053df054ceb69f210c611cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 32/38] fix: the hash table can be read in descending order

---
 crates/core/src/env/lmdb/db.rs      | 11 ++++++++
 crates/core/src/env/lmdb/queries.rs | 40 +++++++++++++----------------
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 354c9c2..8fb3e77 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -281,6 +281,17 @@ impl<'txn> HashCursor<'txn> {
             (k.try_into().unwrap(), v)
         })
     }
+    /// from start down to the first
+    pub(crate) fn range_uniq_rev(
+        self,
+        start: &[u8; 32],
+    ) -> impl Iterator<Item = (&'txn [u8; 32], u64)> {
+        iter_rev(self.0, start).map(move |kv| {
+            let (k, v) = kv.unwrap();
+            let v = u64::from_ne_bytes(v.try_into().unwrap());
+            (k.try_into().unwrap(), v)
+        })
+    }
     pub(crate) fn read_uniq(&self, key: &[u8; 32]) -> Result<Option<u64>> {
         match self.0.get(Some(key), None, ffi::MDB_SET) {
             Err(lmdb::Error::NotFound) => Ok(None),
diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index 172d3b1..5d9abbb 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -172,32 +172,28 @@ impl<'txn> ReadTxn<'txn> {
         ord: Order,
     ) -> impl Iterator<Item = Stamp> + '_ {
         use crate::predicate::value_test::*;
-        match ord {
+        let TestSet {
+            bound: Bound { low, high },
+            mask,
+        } = hashset;
+        if mask != Mask::DEFAULT {
+            tracing::warn!("todo impl hash mask jumping");
+        }
+        let cursor = self.0.hash_cursor();
+        let it = match ord {
             Order::Asc => {
-                let TestSet {
-                    bound:
-                        Bound {
-                            low: greater_eq,
-                            high: less_eq,
-                        },
-                    mask,
-                } = hashset;
-                if mask != Mask::DEFAULT {
-                    tracing::warn!("todo impl hash mask jumping");
-                }
-                let greater_eq: B64<[u8; 32]> = greater_eq.into();
-                self.0
-                    .hash_cursor()
-                    .range_uniq(&greater_eq)
-                    .map(|(hash, stamp)| (B64(*hash).into(), stamp))
-                    .take_while(move |(v, _)| *v <= less_eq)
-                    .filter(move |(v, stamp): &(U256, _)| recv_bound.test(*stamp) && mask.test(v))
-                    .map(|(_, stamp)| stamp.into())
+                let start: B64<[u8; 32]> = low.into();
+                Either::Left(cursor.range_uniq(&start))
             }
             Order::Desc => {
-                todo!("hash desc not yet impl");
+                let start: B64<[u8; 32]> = high.into();
+                Either::Right(cursor.range_uniq_rev(&start))
             }
-        }
+        };
+        it.map(|(hash, stamp)| -> (U256, u64) { (B64(*hash).into(), stamp) })
+            .take_while(move |(v, _)| *v >= low && *v <= high)
+            .filter(move |(v, stamp)| recv_bound.test(*stamp) && mask.test(v))
+            .map(|(_, stamp)| stamp.into())
     }
     pub fn query_hash(
         &'txn self,
-- 
2.43.0


From 446840ef6aff201239aed6dc7a7d47a67e207b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 33/38] fix: a tree query visits every key it matches: the
 jumps over others went too far

---
 crates/core/src/env/lmdb/tree_iter.rs | 25 +++++++++++++------------
 crates/core/src/predicate/treekey.rs  | 11 ++++-------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/crates/core/src/env/lmdb/tree_iter.rs b/crates/core/src/env/lmdb/tree_iter.rs
index 1ccab16..13c96f6 100644
--- a/crates/core/src/env/lmdb/tree_iter.rs
+++ b/crates/core/src/env/lmdb/tree_iter.rs
@@ -91,20 +91,18 @@ impl<'txn> TreeKeysIter<'txn> {
                         (true, true, true) => unreachable!(),
                         (false, _, _) => {
                             tracing::trace!(?depth, "Depth OOB, setting next depth");
-                            jump.push(
-                                self.req
-                                    .depth
-                                    .next_depth(depth.val.unwrap_or(255))
-                                    .unwrap_or(255),
-                            );
+                            jump.push(depth.val.unwrap_or(255));
                         }
                         (true, false, _) => {
-                            jump.push(
-                                self.req
-                                    .depth
-                                    .next_depth(depth.val.unwrap_or(255))
-                                    .unwrap_or(255),
-                            );
+                            // the prefix is still to come for this depth, or only at the next.
+                            let at_depth = jump.len();
+                            jump.push(at.btree_key.space_segments());
+                            jump.extend_from_slice(self.req.rspace.space_bytes());
+                            if jump.as_slice() <= at.btree_key.as_bytes() {
+                                jump.truncate(at_depth);
+                                let next = at.btree_key.space_segments();
+                                jump.push(self.req.depth.next_depth(next).unwrap_or(255));
+                            }
                             tracing::trace!("Prefix OOB, extinding with lowerbound ");
                         }
                         (true, true, false) => {
@@ -113,6 +111,9 @@ impl<'txn> TreeKeysIter<'txn> {
                             jump.extend_from_slice(
                                 &key.val.map(|v| v.to_be_bytes::<32>()).unwrap_or([255; 32]),
                             );
+                            if key.val.is_none() {
+                                jump.push(255);
+                            }
                         }
                     }
                 } else {
diff --git a/crates/core/src/predicate/treekey.rs b/crates/core/src/predicate/treekey.rs
index d1418af..8af17c3 100644
--- a/crates/core/src/predicate/treekey.rs
+++ b/crates/core/src/predicate/treekey.rs
@@ -27,9 +27,11 @@ pub struct TreeKeys {
 }
 
 impl TreeKeys {
+    /// The start of the first key that can match.
+    /// Without the pubkey, it only follows once the space is known to be more than its prefix.
     pub fn lower_bound(&self) -> anyhow::Result<Vec<u8>> {
         let mut btree_key = vec![];
-        let (group, domain, depth, rspace, pubkey) = (
+        let (group, domain, depth, rspace) = (
             self.group.info(UInt::MIN).val.context("Empty group set")?,
             self.domain
                 .info(UInt::MIN)
@@ -37,17 +39,12 @@ impl TreeKeys {
                 .context("Empty domain set")?,
             self.depth.info(0).val.context("Empty depthset")?,
             &self.rspace,
-            self.pubkey
-                .info(UInt::MIN)
-                .val
-                .context("Empty pubkey set")?,
         );
-        tracing::trace!(?group,?domain,?depth,%rspace,?pubkey, "lowerbounds");
+        tracing::trace!(?group,?domain,?depth,%rspace, "lowerbounds");
         btree_key.extend_from_slice(&group.to_be_bytes::<32>());
         btree_key.extend_from_slice(&Domain::from(domain).0);
         btree_key.push(depth);
         btree_key.extend(rspace.space_bytes());
-        btree_key.extend_from_slice(&pubkey.to_be_bytes::<32>());
         Ok(btree_key)
     }
 }
-- 
2.43.0


From b35ad015143b030562f2b11839bf934c37391790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 34/38] fix: a tree query for a single create stamp finds it in
 descending order

---
 crates/core/src/env/lmdb/db.rs        |  3 +++
 crates/core/src/env/lmdb/tree_iter.rs | 21 ++++++++++++---------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 8fb3e77..24d83d3 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -312,6 +312,9 @@ impl<'o> Debug for IterDup<'o> {
 }
 type E<'txn> = (&'txn [u8], &'txn TreeValueBytes);
 impl<'txn> IterDup<'txn> {
+    pub fn is_ascending(&self) -> bool {
+        self.value_asc
+    }
     #[track_caller]
     fn iget(&self, key: Option<&[u8]>, op: u32) -> Option<E<'txn>> {
         match self.cur.get(key, None, op) {
diff --git a/crates/core/src/env/lmdb/tree_iter.rs b/crates/core/src/env/lmdb/tree_iter.rs
index 13c96f6..befbd2e 100644
--- a/crates/core/src/env/lmdb/tree_iter.rs
+++ b/crates/core/src/env/lmdb/tree_iter.rs
@@ -3,7 +3,7 @@ use linkspace_pkt::{
     Domain, GroupID,
 };
 
-use crate::{prelude::treekey::TreeKeys, stamp_range::IterCmp};
+use crate::prelude::treekey::TreeKeys;
 
 use super::db::IterDup;
 
@@ -27,16 +27,19 @@ impl<'txn> TreeKeysIter<'txn> {
             .filter(|v| self.req.cstamp.contains(v.create()))
     }
     fn next_stamp_match(&self, at: &mut TreeEntryRef<'txn>) -> Result<(), ()> {
-        let mut cmp = self.req.cstamp.iter_cmp(at.create());
-        while cmp == IterCmp::Pre {
+        while !self.req.cstamp.contains(at.create()) {
+            // a range of one stamp has no direction of its own
+            let is_before_range = if self.iter_dup.is_ascending() {
+                at.create() < self.req.cstamp.lower_bound()
+            } else {
+                at.create() > self.req.cstamp.upper_bound()
+            };
+            if !is_before_range {
+                return Err(());
+            }
             *at = self.iter_dup.get_next_entry().map(spd).ok_or(())?;
-            cmp = self.req.cstamp.iter_cmp(at.create());
-        }
-        if cmp == IterCmp::In {
-            Ok(())
-        } else {
-            Err(())
         }
+        Ok(())
     }
 
     pub(crate) fn set_pointer_at_match(
-- 
2.43.0


From 0183e1f1f9e2db78be86e3c75aa83b9a6b15bdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 35/38] fix: a tree query for depths that no space has finds
 nothing instead of panicking

---
 crates/core/src/env/lmdb/queries.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index 5d9abbb..c3f0f14 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -43,7 +43,8 @@ impl<'txn> ReadTxn<'txn> {
         order: Order,
     ) -> Option<(TreeEntryRef<'txn>, TreeKeysIter<'txn>)> {
         let req = rules.compile_tree_keys(order.is_asc()).unwrap();
-        let lower_bound = req.lower_bound().unwrap();
+        // without it no key can match
+        let lower_bound = req.lower_bound().ok()?;
         let iter_dup = self.0.tree_cursor().iter_dup(order.is_asc());
         let at = iter_dup
             .set_range(&lower_bound)
-- 
2.43.0


From cb1cc11aeb04e64ba6b8cd9c8431e24b8d1514b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 36/38] fix: i_branch counts the matches of a branch, and a
 tree query ends at the last key

---
 crates/core/src/env/lmdb/queries.rs | 95 ++++++++++++-----------------
 1 file changed, 38 insertions(+), 57 deletions(-)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index c3f0f14..e3c7046 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -62,66 +62,49 @@ impl<'txn> ReadTxn<'txn> {
         rules: &PktPredicates,
         ord: Order,
     ) -> impl Iterator<Item = TreeEntryRef<'txn>> + 'txn {
+        self.filter_map_tree_entries(rules, ord, Some)
+    }
+    /// Only entries for which accept returns something have a position in their branch (i_branch).
+    fn filter_map_tree_entries<R: 'txn>(
+        &'txn self,
+        rules: &PktPredicates,
+        ord: Order,
+        mut accept: impl FnMut(TreeEntryRef<'txn>) -> Option<R> + 'txn,
+    ) -> impl Iterator<Item = R> + 'txn {
         let nth_find_set = rules.state.i_branch;
         let mut yields = nth_find_set.iter(0);
-        assert!(yields.peek().is_some(), "i_branch is empty");
         let (mut key_ptr, mut keys_iter) = self.scope_iter(rules, ord).unzip();
-        let mut cnt = true;
         let pkt_stamp = rules.create;
         let recv_stamp = rules.recv_stamp;
         let hash = rules.hash;
         let data_size = rules.data_size;
         let links_len = rules.links_len;
         std::iter::from_fn(move || {
-            if yields.peek().is_none() {
-                key_ptr = keys_iter.as_mut().and_then(|v| v.next_entry());
-            }
-            tracing::trace!(?key_ptr, "Walk Branch");
-            while cnt {
-                let next_item = {
-                    key_ptr
-                        .take()
-                        .or_else(|| keys_iter.as_mut().and_then(|v| v.next_entry()))
-                };
-                if next_item.is_none() {
+            let keys_iter = keys_iter.as_mut()?;
+            loop {
+                // once there are no more keys it stays that way
+                let entry = key_ptr.take()?;
+                tracing::trace!(?entry, "Walk Branch");
+                let ok = pkt_stamp.test(entry.create().get())
+                    && recv_stamp.test(entry.local_log_ptr().get())
+                    && hash.test(entry.hash().into())
+                    && links_len.test(entry.links_len().into())
+                    && data_size.test(entry.data_size().into());
+                let accepted = if ok { accept(entry) } else { None };
+                let yielding = accepted.is_some() && yields.next() == Some(true);
+                tracing::trace!(ok, yielding, hash=?entry.hash(), "Branch entry");
+                if yields.peek().is_some() {
+                    key_ptr = keys_iter.next_entry();
+                }
+                if key_ptr.is_none() {
+                    key_ptr = keys_iter.next_scope();
                     yields = nth_find_set.iter(0);
-                    let next_range = keys_iter
-                        .as_mut()
-                        .map(|v| {
-                            key_ptr = v.next_scope();
-                            key_ptr.is_some()
-                        })
-                        .unwrap_or(false);
-                    if next_range {
-                        tracing::trace!("Reset");
-                        continue;
-                    } else {
-                        tracing::trace!("No more ranges");
-                        cnt = false;
-                        return None;
-                    };
+                    tracing::trace!(?key_ptr, "Next range");
                 }
-                let next_item = next_item.unwrap();
-                let ok = pkt_stamp.test(next_item.create().get())
-                    && recv_stamp.test(next_item.local_log_ptr().get())
-                    && hash.test(next_item.hash().into())
-                    && links_len.test(next_item.links_len().into())
-                    && data_size.test(next_item.data_size().into());
-                tracing::trace!(ok, ?next_item, "key entry");
-                if ok {
-                    let yielding = yields.next();
-                    tracing::trace!(?yielding,hash=?next_item.hash(),"Branch entry");
-                    match yielding {
-                        Some(true) => return Some(next_item),
-                        Some(false) => {}
-                        None => {
-                            key_ptr = keys_iter.as_mut().and_then(|v| v.next_scope());
-                            yields = nth_find_set.iter(0);
-                        }
-                    }
+                if yielding {
+                    return accepted;
                 }
             }
-            None
         })
     }
     pub fn query_tree(
@@ -135,16 +118,14 @@ impl<'txn> ReadTxn<'txn> {
             .map(|(test, _)| test)
             .collect::<Vec<_>>();
         let c1 = self.0.pkt_cursor();
-        let it = self
-            .query_tree_entries(predicates, ord)
-            .map(move |v| {
-                super::get::read_pkt(&c1, v.local_log_ptr())
-                    .map_err(|e| ("Btree Error - tree query", v.local_log_ptr(), e))
-                    .unwrap()
-                    .ok_or_else(|| ("BTree inconsistent - cant find", v.local_log_ptr()))
-                    .unwrap()
-            })
-            .filter(move |pkt| pkt_filter.test(pkt));
+        let it = self.filter_map_tree_entries(predicates, ord, move |v| {
+            let pkt = super::get::read_pkt(&c1, v.local_log_ptr())
+                .map_err(|e| ("Btree Error - tree query", v.local_log_ptr(), e))
+                .unwrap()
+                .ok_or_else(|| ("BTree inconsistent - cant find", v.local_log_ptr()))
+                .unwrap();
+            pkt_filter.test(&pkt).then_some(pkt)
+        });
         let nth_log_set = predicates.state.i_db.iter(0);
 
         it.zip(nth_log_set).filter_map(|(v, ok)| ok.then_some(v))
-- 
2.43.0


From e0a3dce954cb7d72c8cb1c8ce3269a531bf1a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:00 +0000
Subject: [PATCH 37/38] value_test.rs as it was: undo 2156cb6 and 3271fbd

---
 crates/core/src/predicate/value_test.rs | 77 +++++++++++++------------
 1 file changed, 40 insertions(+), 37 deletions(-)

diff --git a/crates/core/src/predicate/value_test.rs b/crates/core/src/predicate/value_test.rs
index 5c0a8bd..fc73bfe 100644
--- a/crates/core/src/predicate/value_test.rs
+++ b/crates/core/src/predicate/value_test.rs
@@ -351,29 +351,37 @@ impl<U: UInt> Mask<U> {
             .bit_or(self.ones.bit_and(val.not()))
     }
 
-    /// the smallest value from val on that passes the mask
     pub fn in_set(&self, val: U) -> Option<U> {
-        if !self.has_any() {
-            return None;
+        let (overflow, v) = self.overflowing_in_set(val);
+        if overflow {
+            None
+        } else {
+            Some(v)
         }
+    }
+
+    pub fn overflowing_in_set(self: &Mask<U>, val: U) -> (bool, U) {
+        // if val was known to be in set this could be done faster. But we dont so we cant.
+        debug_assert!(self.has_any());
+        let Mask { zeros, .. } = self;
         let wrong = self.wrong_bits(val);
         if wrong == U::MIN {
-            return Some(val);
+            return (false, val);
         }
-        // a bit that is zero, but may be one, at or just above the first wrong bit has to be set
-        let first_wrong = U::BITS - 1 - wrong.leading_zeros();
-        let above = U::MAX.overflowing_shl(first_wrong).0;
-        let free = val.not().bit_and(self.zeros).bit_and(above);
-        if free == U::MIN {
-            return None;
-        }
-        let pivot = free.trailing_zeros();
-        let below = U::MAX.overflowing_shl(pivot).0.not();
-        Some(
-            val.bit_and(below.not())
-                .bit_or(U::ONE.overflowing_shl(pivot).0)
-                .bit_or(self.ones.bit_and(below)),
-        )
+        let min = self.min_val();
+        let wrongmask = U::MAX
+            .overflowing_shl(U::BITS - 1 - wrong.leading_zeros())
+            .0
+            .not();
+        let vnz = val.bit_or(zeros.not()).bit_or(wrongmask);
+        let pivot = vnz.trailing_ones();
+        let (freemask, over) = U::MAX.overflowing_shr((U::BITS - 1).wrapping_sub(pivot));
+        let (incval, _) = val
+            .bit_or(freemask.overflowing_shr(1).0)
+            .overflowing_add(U::ONE);
+        let fix_mask = U::MAX.overflowing_shl(pivot).0.not();
+        let v = incval.bit_and(fix_mask.not()).bit_or(min.bit_and(fix_mask));
+        (over, v)
     }
 }
 #[ignore]
@@ -668,26 +676,22 @@ impl<V: UInt> TestSet<V> {
     ```
      **/
     pub fn iter_contains(self, at: &mut V) -> impl Iterator<Item = bool> + '_ {
-        let mut done = false;
         std::iter::from_fn(move || {
-            if done || self.bound.high < *at {
+            if self.bound.high < *at {
                 return None;
             }
             let r = self.test(*at);
-            match at.inc() {
-                Some(nt) => *at = nt,
-                None => done = true,
-            }
+            if let Some(nt) = at.inc() {
+                *at = nt;
+            } else if !r {
+                return None;
+            };
             Some(r)
         })
     }
 
     pub fn iter(self, at: V) -> MembershipIter<V> {
-        MembershipIter {
-            set: self,
-            at,
-            done: false,
-        }
+        MembershipIter { set: self, at }
     }
     pub fn enumerate(self, start: V) -> impl Iterator<Item = V> {
         let mut next = self.info(start).val;
@@ -705,12 +709,10 @@ impl<V: UInt> TestSet<V> {
 pub struct MembershipIter<V> {
     set: TestSet<V>,
     at: V,
-    /// the largest number was yielded
-    done: bool,
 }
 impl<V: UInt> MembershipIter<V> {
     pub fn peek(&self) -> Option<bool> {
-        if self.done || self.set.bound.high < self.at {
+        if self.set.bound.high < self.at {
             return None;
         }
         Some(self.set.test(self.at))
@@ -719,14 +721,15 @@ impl<V: UInt> MembershipIter<V> {
 impl<V: UInt> Iterator for MembershipIter<V> {
     type Item = bool;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.done || self.set.bound.high < self.at {
+        if self.set.bound.high < self.at {
             return None;
         }
         let r = self.set.test(self.at);
-        match self.at.inc() {
-            Some(nt) => self.at = nt,
-            None => self.done = true,
-        }
+        if let Some(nt) = self.at.inc() {
+            self.at = nt;
+        } else if !r {
+            return None;
+        };
         Some(r)
     }
 }
-- 
2.43.0


From 9f9d3e8621800a23b4bd7defd68debc5ebadeb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:00 +0000
Subject: [PATCH 38/38] fix: masks that have no value in common are refused
 instead of panicking

---
 crates/core/src/predicate/pkt_predicates.rs | 76 +++++++++++++--------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index 93d9ea5..0813abe 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -17,6 +17,7 @@ use anyhow::{ensure, Context};
 use super::{
     exprs::{Predicate, QScope},
     treekey::TreeKeys,
+    uint::UInt,
     value_test::*,
 };
 
@@ -130,6 +131,14 @@ fn as_rules_it2<X, Y: Into<ABList>>(
         val: map(val).into(),
     })
 }
+/// [TestSet::try_add] for rules from users: masks that have no value in common are an error too
+fn add_rule<U: UInt>(set: &mut TestSet<U>, op: TestOp, val: U) -> anyhow::Result<()> {
+    let mut mask = set.mask;
+    mask.add(op, val);
+    ensure!(mask.has_any(), "incompatible masks {:?} {:?}", op, val);
+    set.try_add(op, val)
+}
+
 impl PktPredicates {
     pub(crate) fn check_space(&mut self) -> anyhow::Result<()> {
         if let Some(i) = self.rspace_prefix.space_depth().checked_sub(1) {
@@ -243,25 +252,24 @@ impl PktPredicates {
         let op = *op;
         match kind {
             RuleType::Field(f) => {
-                self.pkt_types
-                    .try_add(TestOp::Mask1, f.info().pkts.bits())
+                add_rule(&mut self.pkt_types, TestOp::Mask1, f.info().pkts.bits())
                     .with_context(|| format!("incompatible pkt typs:{rule:?}"))?;
                 match f {
-                    FieldEnum::PktTypeF => self.pkt_types.try_add(op, U8::try_from(val)?.0)?,
-                    FieldEnum::SizeF => self.size.try_add(op, U16::try_from(val)?.get())?,
+                    FieldEnum::PktTypeF => add_rule(&mut self.pkt_types, op, U8::try_from(val)?.0)?,
+                    FieldEnum::SizeF => add_rule(&mut self.size, op, U16::try_from(val)?.get())?,
                     FieldEnum::PktHashF => {
-                        self.hash.try_add(op, LkHash::try_from(val)?.into())?;
+                        add_rule(&mut self.hash, op, LkHash::try_from(val)?.into())?;
                         if self.hash.as_eq().is_some() {
-                            self.state.i_query.try_add(TestOp::Equal, 0u32)?;
+                            add_rule(&mut self.state.i_query, TestOp::Equal, 0u32)?;
                         }
                     }
-                    FieldEnum::DomainF => self
-                        .domain
-                        .try_add(op, Domain::try_from(val)?.uint().get())?,
+                    FieldEnum::DomainF => {
+                        add_rule(&mut self.domain, op, Domain::try_from(val)?.uint().get())?
+                    }
                     FieldEnum::SpaceNameF => {
                         ensure!(op == TestOp::Equal, "space only supports equallity");
                         let rspace: RootedSpaceBuf = SpaceBuf::try_from(val)?.try_into_rooted()?;
-                        self.depth.try_add(TestOp::Equal, rspace.depth() as u8)?;
+                        add_rule(&mut self.depth, TestOp::Equal, rspace.depth() as u8)?;
                         ensure!(
                             rspace.starts_with(&self.rspace_prefix),
                             "space prefix conflict"
@@ -270,32 +278,38 @@ impl PktPredicates {
                         self.check_space()?;
                     }
                     FieldEnum::DepthF => {
-                        self.depth.try_add(op, U8::try_from(val)?.0)?;
+                        add_rule(&mut self.depth, op, U8::try_from(val)?.0)?;
                         self.check_space()?;
                     }
                     FieldEnum::GroupIDF => {
-                        self.group.try_add(op, GroupID::try_from(val)?.into())?
+                        add_rule(&mut self.group, op, GroupID::try_from(val)?.into())?
+                    }
+                    FieldEnum::CreateF => {
+                        add_rule(&mut self.create, op, U64::try_from(val)?.get())?
                     }
-                    FieldEnum::CreateF => self.create.try_add(op, U64::try_from(val)?.get())?,
                     FieldEnum::PubKeyF => {
-                        self.pubkey.try_add(op, PubKey::try_from(val)?.into())?;
+                        add_rule(&mut self.pubkey, op, PubKey::try_from(val)?.into())?;
+                    }
+                    FieldEnum::VarNetFlagsF => {
+                        add_rule(&mut self.var_flags, op, U8::try_from(val)?.0)?
+                    }
+                    FieldEnum::VarHopF => {
+                        add_rule(&mut self.var_hop, op, U32::try_from(val)?.get())?
                     }
-                    FieldEnum::VarNetFlagsF => self.var_flags.try_add(op, U8::try_from(val)?.0)?,
-                    FieldEnum::VarHopF => self.var_hop.try_add(op, U32::try_from(val)?.get())?,
                     FieldEnum::VarStampF => {
-                        self.var_stamp.try_add(op, U64::try_from(val)?.get())?
+                        add_rule(&mut self.var_stamp, op, U64::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits0F => {
-                        self.var_ubits[0].try_add(op, U32::try_from(val)?.get())?
+                        add_rule(&mut self.var_ubits[0], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits1F => {
-                        self.var_ubits[1].try_add(op, U32::try_from(val)?.get())?
+                        add_rule(&mut self.var_ubits[1], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits2F => {
-                        self.var_ubits[2].try_add(op, U32::try_from(val)?.get())?
+                        add_rule(&mut self.var_ubits[2], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits3F => {
-                        self.var_ubits[3].try_add(op, U32::try_from(val)?.get())?
+                        add_rule(&mut self.var_ubits[3], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::SignatureF
                     | FieldEnum::DataF
@@ -309,10 +323,10 @@ impl PktPredicates {
                     | FieldEnum::SpaceComp6F
                     | FieldEnum::SpaceComp7F => anyhow::bail!("{f} is not a predicate"),
                     FieldEnum::DataSizeF => {
-                        self.data_size.try_add(op, U16::try_from(val)?.get())?
+                        add_rule(&mut self.data_size, op, U16::try_from(val)?.get())?
                     }
                     FieldEnum::LinksLenF => {
-                        self.links_len.try_add(op, U16::try_from(val)?.get())?
+                        add_rule(&mut self.links_len, op, U16::try_from(val)?.get())?
                     }
                 }
             }
@@ -326,13 +340,21 @@ impl PktPredicates {
             RuleType::SpacePrefix => {
                 ensure!(op == TestOp::Equal, "prefix only supports equallity ");
                 let sp = SpaceBuf::try_from(val)?;
-                self.pkt_types
-                    .try_add(TestOp::Mask1, PointTypeFlags::LINK.bits())
-                    .with_context(|| format!("incompatible pkt typs:{rule:?}"))?;
+                add_rule(
+                    &mut self.pkt_types,
+                    TestOp::Mask1,
+                    PointTypeFlags::LINK.bits(),
+                )
+                .with_context(|| format!("incompatible pkt typs:{rule:?}"))?;
                 self.prefix(sp)?;
             }
             RuleType::Limit(l) => {
-                self.state.idx(*l).add(op, U32::try_from(val)?.get());
+                let set = self.state.idx(*l);
+                set.add(op, U32::try_from(val)?.get());
+                if !set.mask.has_any() {
+                    set.bound = Bound::EMPTY;
+                    set.mask = Mask::DEFAULT;
+                }
                 self.state.is_valid()?;
             }
         };
-- 
2.43.0

