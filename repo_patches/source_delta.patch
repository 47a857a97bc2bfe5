From 5f78ea7a32c9061b36fb621536455159322b292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 01/33] fix: reject tinymist.getResources without a path
 instead of panicking

---
 crates/sync-lsp/src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sync-lsp/src/server.rs b/crates/sync-lsp/src/server.rs
index 08b48b4..1f6c3dc 100644
--- a/crates/sync-lsp/src/server.rs
+++ b/crates/sync-lsp/src/server.rs
@@ -617,8 +617,11 @@ impl<M, Args: Initializer> LsDriver<M, Args> {
     pub fn get_resources(&mut self, req_id: RequestId, args: Vec<JsonValue>) -> ScheduledResult {
         let s = self.state.opt_mut().ok_or_else(not_initialized)?;
 
+        let path = args
+            .first()
+            .ok_or_else(|| invalid_params("missing the path of the resource"))?;
         let path =
-            from_value::<PathBuf>(args[0].clone()).map_err(|e| invalid_params(e.to_string()))?;
+            from_value::<PathBuf>(path.clone()).map_err(|e| invalid_params(e.to_string()))?;
 
         let Some(handler) = self.resources.get(path.as_path()) else {
             log::error!("asked for unknown resource: {path:?}");
-- 
2.43.0


From 68590754d8a6ca8a885465c9d03c6e85f3e67707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 02/33] fix: keep the text after a placeholder of a translated
 message

The character following each placeholder was dropped, and so was the closing
brace of a placeholder without argument.
---
 crates/tinymist-l10n/src/lib.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 9eeaf4a..1b0fda1 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -236,18 +236,15 @@ pub fn t_with_args(
     let message_iter = &mut message.chars();
     while let Some(c) = message_iter.next() {
         if c == '{' {
-            let arg_index_str = message_iter.take_while(|c| *c != '}').collect::<String>();
-            message_iter.next();
-
-            let Some(arg) = args
-                .iter()
-                .find(|(k, _)| k == &arg_index_str)
-                .map(|(_, v)| v)
-            else {
+            let placeholder = message_iter.as_str().split_once('}');
+            let Some((arg, rest)) = placeholder.and_then(|(name, rest)| {
+                let (_, arg) = args.iter().find(|(k, _)| *k == name)?;
+                Some((arg, rest))
+            }) else {
                 result.push(c);
-                result.push_str(&arg_index_str);
                 continue;
             };
+            *message_iter = rest.chars();
 
             match arg {
                 Arg::Str(s) => result.push_str(s.as_ref()),
-- 
2.43.0


From 47819017162900868b6196260f3666eaa543549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 03/33] fix: name the argument of the root path error message
 as it is passed

---
 crates/tinymist-project/src/entry.rs | 2 +-
 locales/tinymist-rt.toml             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist-project/src/entry.rs b/crates/tinymist-project/src/entry.rs
index 8ca75c0..1cd1a9f 100644
--- a/crates/tinymist-project/src/entry.rs
+++ b/crates/tinymist-project/src/entry.rs
@@ -182,7 +182,7 @@ impl EntryResolver {
             if !root.is_absolute() {
                 tinymist_l10n::bail!(
                     "tinymist-project.validate-error.root-path-not-absolute",
-                    "rootPath or typstExtraArgs.root must be an absolute path: {root:?}",
+                    "rootPath or typstExtraArgs.root must be an absolute path: {root}",
                     root = root.debug_l10n()
                 );
             }
diff --git a/locales/tinymist-rt.toml b/locales/tinymist-rt.toml
index bed7bdf..4d18ecd 100644
--- a/locales/tinymist-rt.toml
+++ b/locales/tinymist-rt.toml
@@ -2,8 +2,8 @@
 # The translations are partially generated by copilot
 
 [tinymist-project.validate-error.root-path-not-absolute]
-en = "rootPath or typstExtraArgs.root must be an absolute path: {root:?}"
-zh = "rootPath 或 typstExtraArgs.root 必须是绝对路径：{root:?}"
+en = "rootPath or typstExtraArgs.root must be an absolute path: {root}"
+zh = "rootPath 或 typstExtraArgs.root 必须是绝对路径：{root}"
 
 [tinymist-query.code-action.exportHtml]
 en = "Export HTML"
-- 
2.43.0


From 498bee53a358edfda115c19096a258cd5e465865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 04/33] fix: report a malformed key line of a translation file

---
 crates/tinymist-l10n/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 1b0fda1..023034d 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -272,7 +272,11 @@ pub fn deserialize(input: &str, key_first: bool) -> anyhow::Result<TranslationMa
 
     for line in lines {
         if line.starts_with('[') {
-            key = line[1..line.len() - 1].to_string();
+            key = line
+                .strip_prefix('[')
+                .and_then(|key| key.strip_suffix(']'))
+                .ok_or_else(|| anyhow::anyhow!("malformed key in translation line: {line}"))?
+                .to_string();
         } else {
             let equal_index = line.find('=').map_or_else(
                 || {
-- 
2.43.0


From 99f4b1a65b5e94a0ed06b1c996063f929165a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 05/33] fix: report an invalid fingerprint string instead of
 panicking

---
 crates/tinymist-std/src/hash.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/crates/tinymist-std/src/hash.rs b/crates/tinymist-std/src/hash.rs
index f356f9f..929c379 100644
--- a/crates/tinymist-std/src/hash.rs
+++ b/crates/tinymist-std/src/hash.rs
@@ -13,7 +13,7 @@ use siphasher::sip128::{Hasher128, SipHasher13};
 #[cfg(feature = "rkyv")]
 use rkyv::{Archive, Deserialize as rDeser, Serialize as rSer};
 
-use crate::error::prelude::Result;
+use crate::error::prelude::{bail, map_string_err, Result};
 
 pub(crate) type FxBuildHasher = std::hash::BuildHasherDefault<FxHasher>;
 pub use rustc_hash::{FxHashMap, FxHashSet, FxHasher};
@@ -89,16 +89,24 @@ impl Fingerprint {
 
     /// Creates a new `Fingerprint` from a svg id that **doesn't have prefix**.
     pub fn try_from_str(s: &str) -> Result<Self> {
-        let bytes = base64::engine::general_purpose::STANDARD_NO_PAD
-            .decode(&s.as_bytes()[..11])
-            .expect("invalid base64 string");
-        let lo = u64::from_le_bytes(bytes.try_into().unwrap());
-        let mut bytes = base64::engine::general_purpose::STANDARD_NO_PAD
-            .decode(&s.as_bytes()[11..])
-            .expect("invalid base64 string");
-        bytes.resize(8, 0);
-        let hi = u64::from_le_bytes(bytes.try_into().unwrap());
-        Ok(Self::from_pair(lo, hi))
+        let Some((lo, hi)) = s.as_bytes().split_at_checked(11) else {
+            bail!("invalid fingerprint: {s:?}");
+        };
+        let decode = |part: &[u8]| {
+            base64::engine::general_purpose::STANDARD_NO_PAD
+                .decode(part)
+                .map_err(map_string_err("invalid fingerprint"))
+        };
+        let Ok(lo) = <[u8; 8]>::try_from(decode(lo)?) else {
+            bail!("invalid fingerprint: {s:?}");
+        };
+        let mut hi = decode(hi)?;
+        if hi.len() > 8 {
+            bail!("invalid fingerprint: {s:?}");
+        }
+        hi.resize(8, 0);
+        let hi = u64::from_le_bytes(hi.try_into().unwrap());
+        Ok(Self::from_pair(u64::from_le_bytes(lo), hi))
     }
 
     /// Create a xml id from the given prefix and the fingerprint of this
-- 
2.43.0


From 3cc2689f730418e178df2ca06e6520a3e0657da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 06/33] fix: limit the shard size before rounding it up, which
 can overflow

---
 crates/tinymist-std/src/adt/fmap.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-std/src/adt/fmap.rs b/crates/tinymist-std/src/adt/fmap.rs
index 896c446..73f7d45 100644
--- a/crates/tinymist-std/src/adt/fmap.rs
+++ b/crates/tinymist-std/src/adt/fmap.rs
@@ -56,8 +56,8 @@ impl<V> Default for FingerprintMap<V> {
 impl<V> FingerprintMap<V> {
     /// Create a new `FingerprintMap` with the given shard size.
     pub fn new(shard_size: NonZeroU32) -> Self {
-        let shard_size = shard_size.get().next_power_of_two();
-        let shard_size = shard_size.min(MAX_SHARD_SIZE);
+        let shard_size = shard_size.get().min(MAX_SHARD_SIZE);
+        let shard_size = shard_size.next_power_of_two();
 
         assert!(
             shard_size.is_power_of_two(),
-- 
2.43.0


From 9e71a688bdd4beb2b87212abf53320bfb3ebd832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 07/33] fix: do not print an empty location in front of an
 error message

---
 crates/tinymist-std/src/error.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/tinymist-std/src/error.rs b/crates/tinymist-std/src/error.rs
index a751f2a..4bdd985 100644
--- a/crates/tinymist-std/src/error.rs
+++ b/crates/tinymist-std/src/error.rs
@@ -222,11 +222,7 @@ impl fmt::Display for Error {
         if err.loc.is_empty() {
             match &err.kind {
                 ErrKind::Msg(msg) => {
-                    if msg.is_empty() {
-                        write_with_args!(f, err.args, "{}", err.loc)
-                    } else {
-                        write_with_args!(f, err.args, "{}: {msg}", err.loc)
-                    }
+                    write_with_args!(f, err.args, "{msg}")
                 }
                 #[cfg(feature = "typst")]
                 ErrKind::RawDiag(diag) => {
-- 
2.43.0


From 88256b0051bcdabc1993225345905285113b78f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 08/33] fix: report a system time out of range instead of
 panicking

---
 crates/tinymist-std/src/time.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-std/src/time.rs b/crates/tinymist-std/src/time.rs
index f158568..5982d7c 100644
--- a/crates/tinymist-std/src/time.rs
+++ b/crates/tinymist-std/src/time.rs
@@ -49,7 +49,10 @@ impl ToUtcDateTime for i64 {
 impl ToUtcDateTime for Time {
     /// Converts a system time to a [`UtcDateTime`].
     fn to_utc_datetime(self) -> Option<UtcDateTime> {
-        Some(UtcDateTime::from(self))
+        match self.duration_since(Time::UNIX_EPOCH) {
+            Ok(after) => UtcDateTime::UNIX_EPOCH.checked_add(after.try_into().ok()?),
+            Err(before) => UtcDateTime::UNIX_EPOCH.checked_sub(before.duration().try_into().ok()?),
+        }
     }
 }
 
-- 
2.43.0


From 3723df7a27c505cbe7072f0c65c9a5d8b277a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 09/33] fix: implement Debug for the enum that derives DeclEnum

---
 crates/tinymist-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist-derive/src/lib.rs b/crates/tinymist-derive/src/lib.rs
index 91928ea..a8a0c0a 100644
--- a/crates/tinymist-derive/src/lib.rs
+++ b/crates/tinymist-derive/src/lib.rs
@@ -84,7 +84,7 @@ pub fn gen_decl_enum(input: TokenStream) -> TokenStream {
             }
         }
 
-        impl fmt::Debug for Decl {
+        impl fmt::Debug for #input_name {
             fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                 match self {
                     #(Self::#names(x) => write!(f, concat!(stringify!(#names), "({:?})"), x)),*
-- 
2.43.0


From dc11f98775c68408da93ed58d6591456cbee59b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 10/33] fix: forward the reset through the overlay of shadowed
 paths

---
 crates/tinymist-vfs/src/overlay.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tinymist-vfs/src/overlay.rs b/crates/tinymist-vfs/src/overlay.rs
index 4c25211..f4a2a49 100644
--- a/crates/tinymist-vfs/src/overlay.rs
+++ b/crates/tinymist-vfs/src/overlay.rs
@@ -73,6 +73,10 @@ impl<K: Ord + Clone, M> OverlayAccessModel<K, M> {
 }
 
 impl<M: PathAccessModel> PathAccessModel for OverlayAccessModel<ImmutPath, M> {
+    fn reset(&mut self) {
+        self.inner.reset();
+    }
+
     fn content(&self, src: &Path) -> FileResult<Bytes> {
         if let Some(content) = self.files.get(src) {
             return content.content().cloned();
-- 
2.43.0


From 6fc2edb7fa55c69a829a764dc59e4fed646cafdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 11/33] fix: give a root that is not clean the id of its clean
 form

---
 crates/tinymist-vfs/src/path_mapper.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tinymist-vfs/src/path_mapper.rs b/crates/tinymist-vfs/src/path_mapper.rs
index 80196d3..42d46ba 100644
--- a/crates/tinymist-vfs/src/path_mapper.rs
+++ b/crates/tinymist-vfs/src/path_mapper.rs
@@ -182,7 +182,11 @@ impl WorkspaceResolver {
             return id;
         }
 
+        // The ids are registered with the cleaned roots.
         let root = ImmutPath::from(root.clean());
+        if let Some(&id) = interner.to_id.get(&root) {
+            return id;
+        }
 
         // Create a new entry forever by leaking the pair. We can't leak more
         // than 2^16 pair (and typically will leak a lot less), so its not a
-- 
2.43.0


From e35b07fd91238c972e62ca1d098201a06b0e32e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 12/33] fix: reject the ids of workspaces that do not exist

---
 crates/tinymist-vfs/src/path_mapper.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/tinymist-vfs/src/path_mapper.rs b/crates/tinymist-vfs/src/path_mapper.rs
index 42d46ba..dcb2392 100644
--- a/crates/tinymist-vfs/src/path_mapper.rs
+++ b/crates/tinymist-vfs/src/path_mapper.rs
@@ -129,6 +129,11 @@ impl WorkspaceId {
         }
 
         let num = name[1..].parse().ok()?;
+        // The name may be written by the user in an import.
+        if usize::from(num) >= INTERNER.read().from_id.len() {
+            return None;
+        }
+
         Some(WorkspaceId(num))
     }
 }
-- 
2.43.0


From 8ef6783ba2b8e1076bb93a4a541d267da9ddca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 13/33] fix: count the use of a cached source as an access

---
 crates/tinymist-vfs/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 8e8b3ed..46610f3 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -378,8 +378,15 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
                 .map_err(Clone::clone)?;
 
             let mut cache_entry = self.source_cache.cache_entries.entry(file_id).or_default();
-            if let Some(source) = cache_entry.sources.get(content) {
-                return source.source.clone();
+            if let Some(source) = cache_entry.sources.get_mut(content) {
+                if source.last_accessed_rev < self.revision {
+                    source.last_accessed_rev = self.revision;
+                }
+                let source = source.source.clone();
+                if cache_entry.last_accessed_rev < self.revision.get() {
+                    cache_entry.last_accessed_rev = self.revision.get();
+                }
+                return source;
             }
 
             let source = (|| {
@@ -414,6 +421,9 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
             if entry.last_accessed_rev < self.revision {
                 entry.last_accessed_rev = self.revision;
             }
+            if cache_entry.last_accessed_rev < self.revision.get() {
+                cache_entry.last_accessed_rev = self.revision.get();
+            }
 
             source
         });
-- 
2.43.0


From ee33ac06247d59327b22901f4a1d39d714db7e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 14/33] fix: do not share the entries being read by the
 snapshots with the next revision

---
 crates/tinymist-vfs/src/lib.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 46610f3..03c570b 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -340,7 +340,8 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
     }
 
     pub fn revise(&mut self) -> RevisingVfs<M> {
-        let managed = self.managed.lock().clone();
+        let mut managed = self.managed.lock().clone();
+        managed.detach_unread();
         let paths = self.paths.lock().clone();
         let goal_revision = self.revision.checked_add(1).expect("revision overflowed");
 
@@ -615,6 +616,24 @@ impl EntryMap {
         }
     }
 
+    /// Stops sharing the entries that are not read yet with the snapshots. A
+    /// snapshot that reads them later records their paths in its own path map,
+    /// so changes to these paths would not invalidate the entries here.
+    fn detach_unread(&mut self) {
+        for (id, entry) in self.entries.clone().iter() {
+            if entry.bytes.get().is_none() {
+                let changed_at = entry.changed_at;
+                self.entries.insert_mut(
+                    *id,
+                    VfsEntry {
+                        changed_at,
+                        ..VfsEntry::default()
+                    },
+                );
+            }
+        }
+    }
+
     fn display(&self) -> DisplayEntryMap {
         DisplayEntryMap { map: self }
     }
-- 
2.43.0


From 9acaf223974c0d2617f89877fa0e0e86a327fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 15/33] fix: do not show packages that are still being unpacked

---
 crates/tinymist-package/src/registry/http.rs | 30 ++++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/crates/tinymist-package/src/registry/http.rs b/crates/tinymist-package/src/registry/http.rs
index 7d8bc1d..629159a 100644
--- a/crates/tinymist-package/src/registry/http.rs
+++ b/crates/tinymist-package/src/registry/http.rs
@@ -1,6 +1,7 @@
 //! Http registry for tinymist.
 
 use std::path::Path;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{Arc, OnceLock};
 
 use parking_lot::Mutex;
@@ -294,13 +295,30 @@ impl PackageStorage {
                 Err(err) => return Err(PackageError::NetworkFailed(Some(eco_format!("{err}")))),
             };
 
+            // Unpacks next to the package directory and moves the result in place when it
+            // is complete, because whoever finds the directory takes it as the package.
+            static UNPACKS: AtomicUsize = AtomicUsize::new(0);
+            let unpack_dir = package_dir.with_file_name(format!(
+                ".{}-{}-{}",
+                spec.version,
+                std::process::id(),
+                UNPACKS.fetch_add(1, Ordering::Relaxed)
+            ));
+
             let decompressed = flate2::read::GzDecoder::new(reader);
-            tar::Archive::new(decompressed)
-                .unpack(package_dir)
-                .map_err(|err| {
-                    std::fs::remove_dir_all(package_dir).ok();
-                    PackageError::MalformedArchive(Some(eco_format!("{err}")))
-                })
+            let res = tar::Archive::new(decompressed)
+                .unpack(&unpack_dir)
+                .map_err(|err| PackageError::MalformedArchive(Some(eco_format!("{err}"))))
+                .and_then(|()| match std::fs::rename(&unpack_dir, package_dir) {
+                    Ok(()) => Ok(()),
+                    // Another download of the same package was faster.
+                    Err(_) if package_dir.exists() => Ok(()),
+                    Err(err) => Err(PackageError::Other(Some(eco_format!("{err}")))),
+                });
+            if unpack_dir.exists() {
+                std::fs::remove_dir_all(&unpack_dir).ok();
+            }
+            res
         })
         .ok_or_else(|| PackageError::Other(Some(eco_format!("cannot spawn http thread"))))?
     }
-- 
2.43.0


From 419dfc89ac79b50c92f35353d725e21bd977e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 16/33] fix: do not write the files of a pack outside of its
 directory

---
 crates/tinymist-package/src/pack/fs.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-package/src/pack/fs.rs b/crates/tinymist-package/src/pack/fs.rs
index 15b17ef..a801b0f 100644
--- a/crates/tinymist-package/src/pack/fs.rs
+++ b/crates/tinymist-package/src/pack/fs.rs
@@ -1,4 +1,4 @@
-use std::{fs::File, io::Write};
+use std::{fs::File, io::Write, path::Component};
 
 use super::*;
 
@@ -48,6 +48,14 @@ impl<P: AsRef<Path>> CloneIntoPack for DirPack<P> {
     fn clone_into_pack(&mut self, pack: &mut impl PackFs) -> std::io::Result<()> {
         let base = self.path.as_ref();
         pack.read_all(&mut |path, file| {
+            // A package must not write outside of its directory.
+            let is_inner = |c| matches!(c, Component::Normal(_) | Component::CurDir);
+            if !Path::new(path).components().all(is_inner) {
+                return Err(PackageError::MalformedArchive(Some(eco_format!(
+                    "file is outside of the package: {path}"
+                ))));
+            }
+
             let path = base.join(path);
             std::fs::create_dir_all(path.parent().unwrap()).map_err(other)?;
             let mut dst = std::fs::File::create(path).map_err(other)?;
-- 
2.43.0


From c14e1c8c45bf5f48449e7deaddcae9d28e7fb977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 17/33] fix: use the full names of the files in a tarball

---
 crates/tinymist-package/src/pack/tarball.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist-package/src/pack/tarball.rs b/crates/tinymist-package/src/pack/tarball.rs
index 2f9c4af..e5638ed 100644
--- a/crates/tinymist-package/src/pack/tarball.rs
+++ b/crates/tinymist-package/src/pack/tarball.rs
@@ -34,7 +34,7 @@ impl<R: Read> PackFs for TarballPack<R> {
                 continue;
             }
 
-            let path = header.path().map_err(malform)?;
+            let path = entry.path().map_err(malform)?;
             let path = path.to_string_lossy().to_string();
 
             let pack_file = PackFile::Read(Box::new(entry));
-- 
2.43.0


From 6d0579d49c959c17992bda411c5e69bb530c500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 18/33] fix: read directory packs whose own name starts with a
 dot

---
 crates/tinymist-package/src/pack/fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-package/src/pack/fs.rs b/crates/tinymist-package/src/pack/fs.rs
index a801b0f..ff2a5e3 100644
--- a/crates/tinymist-package/src/pack/fs.rs
+++ b/crates/tinymist-package/src/pack/fs.rs
@@ -95,7 +95,8 @@ impl<Src: AsRef<Path>, F: Fn(&str) -> bool + Send + Sync> PackFs for FilterDirPa
         let w = walkdir::WalkDir::new(self.path.as_ref())
             .follow_links(true)
             .into_iter()
-            .filter_entry(|e| !e.file_name().to_string_lossy().starts_with('.'))
+            // The directory itself may have any name, like `.`.
+            .filter_entry(|e| e.depth() == 0 || !e.file_name().to_string_lossy().starts_with('.'))
             .filter_map(|e| e.ok())
             .filter(|e| e.file_type().is_file());
 
-- 
2.43.0


From c31b55a9c08f80f90e1d1e8f4a2d9549e2ccea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 19/33] fix: report the removal and truncation of watched files

---
 crates/tinymist-project/src/watch.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index cfe06da..c0ddab4 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -381,9 +381,8 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     if matches!(err.as_ref(), FileError::NotFound(..) | FileError::Other(..)) {
                         entry.state = WatchState::EmptyOrRemoval {
                             recheck_at: self.logical_tick,
-                            payload: file.clone(),
+                            payload: file,
                         };
-                        entry.prev = Some(file);
                         let event = UndeterminedNotifyEvent {
                             at_realtime: tinymist_std::time::Instant::now(),
                             at_logical_tick: self.logical_tick,
@@ -412,10 +411,12 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
             (Some(Ok(prev_content)), Ok(next_content)) => {
                 // So far it is accurately no change for the file, skip it
                 if prev_content == next_content {
+                    // The file may be restored before we reported that it is empty or removed.
+                    entry.state = WatchState::Stable;
                     return None;
                 }
 
-                match entry.state {
+                match &mut entry.state {
                     // If the file is stable, check whether the editor is
                     // removing or truncating the file. They are possibly
                     // flushing the file but not finished yet.
@@ -423,9 +424,8 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                         if next_content.is_empty() {
                             entry.state = WatchState::EmptyOrRemoval {
                                 recheck_at: self.logical_tick,
-                                payload: file.clone(),
+                                payload: file,
                             };
-                            entry.prev = Some(file);
                             let event = UndeterminedNotifyEvent {
                                 at_realtime: tinymist_std::time::Instant::now(),
                                 at_logical_tick: self.logical_tick,
@@ -437,7 +437,11 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     }
 
                     // Still empty
-                    WatchState::EmptyOrRemoval { .. } if next_content.is_empty() => return None,
+                    WatchState::EmptyOrRemoval { payload, .. } if next_content.is_empty() => {
+                        // update payload
+                        *payload = file;
+                        return None;
+                    }
                     // Otherwise, we push the diff to the consumer.
                     WatchState::EmptyOrRemoval { .. } => {}
                 }
@@ -490,6 +494,8 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                         return None;
                     }
 
+                    entry.prev = Some(payload.clone());
+
                     // Send the underlying change to the consumer
                     let mut changeset = FileChangeSet::default();
                     changeset.inserts.push((event.path, payload));
-- 
2.43.0


From 42698a106db9aa98571b1c6899597b08d5d3104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 20/33] fix: keep a watched file unstable when a recheck of an
 earlier state comes

---
 crates/tinymist-project/src/watch.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index c0ddab4..a38d8a7 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -486,23 +486,23 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
             WatchState::EmptyOrRemoval {
                 recheck_at,
                 payload,
-            } => {
-                if recheck_at == event.at_logical_tick {
-                    log::debug!("notify event real happened {event:?}, state: {payload:?}");
+            } if recheck_at == event.at_logical_tick => {
+                log::debug!("notify event real happened {event:?}, state: {payload:?}");
 
-                    if Some(&payload) == entry.prev.as_ref() {
-                        return None;
-                    }
+                if Some(&payload) == entry.prev.as_ref() {
+                    return None;
+                }
 
-                    entry.prev = Some(payload.clone());
+                entry.prev = Some(payload.clone());
 
-                    // Send the underlying change to the consumer
-                    let mut changeset = FileChangeSet::default();
-                    changeset.inserts.push((event.path, payload));
+                // Send the underlying change to the consumer
+                let mut changeset = FileChangeSet::default();
+                changeset.inserts.push((event.path, payload));
 
-                    (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
-                }
+                (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
             }
+            // The file was unstable again since, which is rechecked by another event.
+            state => entry.state = state,
         };
 
         Some(())
-- 
2.43.0


From 5c5f5dc17448bc80b10a4ea2b1dd55a13a9357bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 21/33] fix: watch a replaced file again even if its content is
 the same

---
 crates/tinymist-project/src/watch.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index a38d8a7..02dee92 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -306,13 +306,6 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
 
     /// Notify the event from the builtin watcher.
     fn notify_event(&mut self, event: notify::Event) {
-        // Account file updates.
-        let mut changeset = FileChangeSet::default();
-        for path in event.paths.iter() {
-            // todo: remove this clone: path.into()
-            changeset.may_insert(self.notify_entry_update(path.as_path().into()));
-        }
-
         // Workaround for notify-rs' implicit unwatch on remove/rename
         // (triggered by some editors when saving files) with the
         // inotify backend. By keeping track of the potentially
@@ -332,15 +325,28 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                 if !entry.watching {
                     continue;
                 }
-                // Remove affected path from the watched map to restart
-                // watching on it later again.
+                // Restart watching on the affected path, at once if it still
+                // exists, since nothing else does that if its content is not
+                // changed, otherwise later again.
+                entry.watching = false;
                 if let Some(watcher) = &mut self.watcher {
                     log_notify_error(watcher.0.unwatch(path), "failed to unwatch");
+                    entry.watching = log_notify_error(
+                        watcher.0.watch(path, RecursiveMode::NonRecursive),
+                        "failed to watch again",
+                    )
+                    .is_some();
                 }
-                entry.watching = false;
             }
         }
 
+        // Account file updates.
+        let mut changeset = FileChangeSet::default();
+        for path in event.paths.iter() {
+            // todo: remove this clone: path.into()
+            changeset.may_insert(self.notify_entry_update(path.as_path().into()));
+        }
+
         // Send file updates.
         if !changeset.is_empty() {
             (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
-- 
2.43.0


From 0f0e374dc78ee35580c021c6e15f00affc361563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 22/33] fix: ignore interrupts for projects that are removed

---
 crates/tinymist-project/src/compiler.rs | 28 ++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 9fc301e..c341dc1 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -458,12 +458,17 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         primary: &'a mut ProjectInsState<F, Ext>,
         dedicates: &'a mut [ProjectInsState<F, Ext>],
         id: &ProjectInsId,
-    ) -> &'a mut ProjectInsState<F, Ext> {
+    ) -> Option<&'a mut ProjectInsState<F, Ext>> {
         if id == &primary.id {
-            return primary;
+            return Some(primary);
         }
 
-        dedicates.iter_mut().find(|e| e.id == *id).unwrap()
+        let proj = dedicates.iter_mut().find(|e| e.id == *id);
+        if proj.is_none() {
+            // It may be removed since the interrupt was sent.
+            log::warn!("ProjectCompiler: project not found {id:?}");
+        }
+        proj
     }
 
     /// Clear all dedicate projects.
@@ -524,7 +529,10 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
     fn process_inner(&mut self, intr: Interrupt<F>) {
         match intr {
             Interrupt::Compile(id) => {
-                let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = Self::find_project(&mut self.primary, &mut self.dedicates, &id)
+                else {
+                    return;
+                };
                 // Increment the revision anyway.
                 proj.verse.increment_revision(|verse| {
                     verse.flush();
@@ -533,8 +541,11 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 proj.reason.see(reason_by_entry_change());
             }
             Interrupt::Compiled(artifact) => {
-                let proj =
-                    Self::find_project(&mut self.primary, &mut self.dedicates, artifact.id());
+                let Some(proj) =
+                    Self::find_project(&mut self.primary, &mut self.dedicates, artifact.id())
+                else {
+                    return;
+                };
 
                 let processed = proj.process_compile(artifact);
 
@@ -552,7 +563,10 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 self.remove_dedicates(&id);
             }
             Interrupt::ChangeTask(id, change) => {
-                let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = Self::find_project(&mut self.primary, &mut self.dedicates, &id)
+                else {
+                    return;
+                };
                 proj.verse.increment_revision(|verse| {
                     if let Some(inputs) = change.inputs.clone() {
                         verse.set_inputs(inputs);
-- 
2.43.0


From 687c787d7e8dbe3b726bfa94549106cc9314b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 23/33] fix: count the interrupts, so that delayed memory
 events are told apart

---
 crates/tinymist-project/src/compiler.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index c341dc1..38fdde0 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -520,6 +520,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
 
     /// Process an interrupt.
     pub fn process(&mut self, intr: Interrupt<F>) {
+        self.logical_tick += 1;
         // todo: evcit cache
         self.process_inner(intr);
         // Customized Project Compilation Handler
-- 
2.43.0


From ad7533c5e79d92a31c41dd22cbbb9efe0dcbab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 24/33] fix: never take a removed project's compilation for the
 one of its successor

---
 crates/tinymist-project/src/compiler.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 38fdde0..ec46483 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -378,6 +378,8 @@ pub struct ProjectCompiler<F: CompilerFeat, Ext> {
     pub primary: ProjectInsState<F, Ext>,
     /// The states for dedicate tasks
     pub dedicates: Vec<ProjectInsState<F, Ext>>,
+    /// The latest revision of any removed project.
+    removed_revision: usize,
     /// The project file dependencies.
     deps: ProjectDeps,
 }
@@ -413,6 +415,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             primary,
             deps: Default::default(),
             dedicates: vec![],
+            removed_revision: 0,
         }
     }
 
@@ -494,6 +497,10 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         proj.reason.see(reason_by_entry_change());
 
         self.remove_dedicates(&id);
+        // The removed projects may have the same id and their compilations may be still
+        // running, so the revisions must not overlap.
+        proj.committed_revision = self.removed_revision;
+        proj.verse.revision = proj.verse.revision.saturating_add(self.removed_revision);
         self.dedicates.push(proj);
 
         Ok(id)
@@ -506,7 +513,8 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             self.handler.notify_removed(id);
             self.deps.project_deps.remove_mut(id);
 
-            let _proj = self.dedicates.remove(idx);
+            let proj = self.dedicates.remove(idx);
+            self.removed_revision = self.removed_revision.max(proj.verse.revision.get());
             // todo: kill compilations
 
             let res = self
-- 
2.43.0


From bff76b2bc1045e6dc9962f44d7b53e58269163d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 25/33] fix: make a new revision when the entry of a universe
 changes

---
 crates/tinymist-world/src/world.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-world/src/world.rs b/crates/tinymist-world/src/world.rs
index 3b158fd..db540ce 100644
--- a/crates/tinymist-world/src/world.rs
+++ b/crates/tinymist-world/src/world.rs
@@ -96,7 +96,7 @@ impl<F: CompilerFeat> CompilerUniverse<F> {
 
     /// Wrap driver with a given entry file.
     pub fn with_entry_file(mut self, entry_file: PathBuf) -> Self {
-        let _ = self.increment_revision(|this| this.set_entry_file_(entry_file.as_path().into()));
+        let _ = self.increment_revision(|this| this.set_entry_file(entry_file.as_path().into()));
         self
     }
 
@@ -315,7 +315,7 @@ impl<F: CompilerFeat> EntryReader for CompilerUniverse<F> {
 
 impl<F: CompilerFeat> EntryManager for CompilerUniverse<F> {
     fn mutate_entry(&mut self, state: EntryState) -> SourceResult<EntryState> {
-        self.increment_revision(|this| this.mutate_entry_(state))
+        self.increment_revision(|this| this.mutate_entry(state))
     }
 }
 
-- 
2.43.0


From a289947869c8df352e65ed3db57041fa04f7f9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 26/33] fix: tell no date for an offset that none has, instead
 of panicking

---
 crates/tinymist-world/src/world.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-world/src/world.rs b/crates/tinymist-world/src/world.rs
index db540ce..bc28dd8 100644
--- a/crates/tinymist-world/src/world.rs
+++ b/crates/tinymist-world/src/world.rs
@@ -719,7 +719,9 @@ impl<F: CompilerFeat> World for CompilerWorld<F> {
 
         let naive = match offset {
             None => now.naive_local(),
-            Some(o) => now.naive_utc() + Duration::try_hours(o)?,
+            Some(o) => now
+                .naive_utc()
+                .checked_add_signed(Duration::try_hours(o)?)?,
         };
 
         Datetime::from_ymd(
-- 
2.43.0


From 00472aa43eeb31acdd803718e493c59cae32ab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 27/33] fix: Pages::FIRST is the first page only, not all pages
 from the first

---
 crates/tinymist-task/src/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index e1ba2ad..8129432 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -179,7 +179,7 @@ pub struct Pages(pub RangeInclusive<Option<NonZeroUsize>>);
 
 impl Pages {
     /// Selects the first page.
-    pub const FIRST: Pages = Pages(NonZeroUsize::new(1)..=None);
+    pub const FIRST: Pages = Pages(NonZeroUsize::new(1)..=NonZeroUsize::new(1));
 }
 
 impl FromStr for Pages {
-- 
2.43.0


From bbc78b20cb8043a56de58491eed97d070122329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 28/33] fix: read back resource paths that contain colons

---
 crates/tinymist-task/src/primitives.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index 8129432..5b46dcb 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -270,14 +270,9 @@ impl FromStr for ResourcePath {
     type Err = &'static str;
 
     fn from_str(value: &str) -> Result<Self, Self::Err> {
-        let mut parts = value.split(':');
-        let scheme = parts.next().ok_or("missing scheme")?;
-        let path = parts.next().ok_or("missing path")?;
-        if parts.next().is_some() {
-            Err("too many colons")
-        } else {
-            Ok(ResourcePath(scheme.into(), path.to_string()))
-        }
+        // The path may contain colons itself, e.g. the version of a package.
+        let (scheme, path) = value.split_once(':').ok_or("missing path")?;
+        Ok(ResourcePath(scheme.into(), path.to_string()))
     }
 }
 
-- 
2.43.0


From 7fcb52809e319ac734d90f313343245a3df6dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 29/33] fix: store paths relative to the directory of the lock
 file

---
 crates/tinymist-project/src/lock.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-project/src/lock.rs b/crates/tinymist-project/src/lock.rs
index 74cd273..265b9da 100644
--- a/crates/tinymist-project/src/lock.rs
+++ b/crates/tinymist-project/src/lock.rs
@@ -241,14 +241,20 @@ impl LockFileUpdate {
     pub fn compiled(&mut self, world: &LspWorld) -> Option<Id> {
         let id = Id::from_world(world)?;
 
+        // The paths in a lock file are relative to the directory storing it.
+        let relative = |p: &Path| {
+            let rel = tinymist_std::path::diff(p, &self.root);
+            ResourcePath::from_user_sys(rel.as_deref().unwrap_or(p))
+        };
+
         let root = ResourcePath::from_user_sys(Path::new("."));
-        let main = ResourcePath::from_user_sys(world.path_for_id(world.main()).ok()?.as_path());
+        let main = relative(world.path_for_id(world.main()).ok()?.as_path());
 
         let font_resolver = &world.font_resolver;
         let font_paths = font_resolver
             .font_paths()
             .iter()
-            .map(|p| ResourcePath::from_user_sys(p))
+            .map(|p| relative(p))
             .collect::<Vec<_>>();
 
         // let system_font = font_resolver.system_font();
-- 
2.43.0


From bfb327ec10b0664c25735314f7c86c40643a5fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:52 +0000
Subject: [PATCH 30/33] fix: reject NaN when deserializing a scalar

---
 crates/tinymist-task/src/primitives.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index 5b46dcb..ef82a94 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -18,6 +18,7 @@ use typst::syntax::FileId;
 
 /// A scalar that is not NaN.
 #[derive(Debug, Clone, Copy, serde::Serialize, serde::Deserialize)]
+#[serde(try_from = "f32")]
 pub struct Scalar(f32);
 
 impl TryFrom<f32> for Scalar {
-- 
2.43.0


From f48c0a896efe32f6620180c17c0c7d1d29c9ba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 31/33] fix: export HTML for the HTML output format, not SVG

---
 crates/tinymist-project/src/args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist-project/src/args.rs b/crates/tinymist-project/src/args.rs
index 5a85994..0a61f86 100644
--- a/crates/tinymist-project/src/args.rs
+++ b/crates/tinymist-project/src/args.rs
@@ -223,7 +223,7 @@ impl TaskCompileArgs {
                 fill: None,
             }),
             OutputFormat::Svg => ProjectTask::ExportSvg(ExportSvgTask { export }),
-            OutputFormat::Html => ProjectTask::ExportSvg(ExportSvgTask { export }),
+            OutputFormat::Html => ProjectTask::ExportHtml(ExportHtmlTask { export }),
         };
 
         Ok(ApplyProjectTask {
-- 
2.43.0


From 4d79bab6db15b1a682cc54ee646c7af426846ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 32/33] fix: report a PPI that is not a number instead of
 panicking

---
 crates/tinymist-project/src/args.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-project/src/args.rs b/crates/tinymist-project/src/args.rs
index 0a61f86..ca7edf9 100644
--- a/crates/tinymist-project/src/args.rs
+++ b/crates/tinymist-project/src/args.rs
@@ -1,7 +1,7 @@
 use std::{path::Path, sync::OnceLock};
 
 use clap::ValueHint;
-use tinymist_std::{bail, error::prelude::Result};
+use tinymist_std::{bail, error::prelude::*};
 
 pub use tinymist_world::args::{CompileFontArgs, CompilePackageArgs};
 
@@ -219,7 +219,7 @@ impl TaskCompileArgs {
             }),
             OutputFormat::Png => ProjectTask::ExportPng(ExportPngTask {
                 export,
-                ppi: self.png.ppi.try_into().unwrap(),
+                ppi: self.png.ppi.try_into().context_ut("cannot convert ppi")?,
                 fill: None,
             }),
             OutputFormat::Svg => ProjectTask::ExportSvg(ExportSvgTask { export }),
-- 
2.43.0


From e2fcedd59cfee761fdfb9cfac96088046e829e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:36 +0000
Subject: [PATCH 33/33] fix: hash equal scalars alike

---
 crates/tinymist-task/src/primitives.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index ef82a94..ac85d70 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -50,7 +50,8 @@ impl Eq for Scalar {}
 
 impl Hash for Scalar {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.0.to_bits().hash(state);
+        // Zero and negative zero are equal.
+        (self.0 + 0.0).to_bits().hash(state);
     }
 }
 
-- 
2.43.0

