From e69852dad5c836e6768fe010f046d269014fe176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 01/11] fix: live document edits count columns in UTF-16 code
 units, as LSP does

---
 src/server/live_document.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/server/live_document.rs b/src/server/live_document.rs
index d157a9f..f71d183 100644
--- a/src/server/live_document.rs
+++ b/src/server/live_document.rs
@@ -12,6 +12,19 @@ fn split_lines(text: &str) -> impl Iterator<Item = &str> {
     re.split(text)
 }
 
+// LSP columns count UTF-16 code units. Converts one to a byte index into the line.
+// Columns past the end of the line refer to the end of the line.
+fn byte_index(line: &str, column: u32) -> usize {
+    let mut units = 0;
+    for (index, ch) in line.char_indices() {
+        if units >= column as usize {
+            return index;
+        }
+        units += ch.len_utf16();
+    }
+    line.len()
+}
+
 // A live document is in the process of being edited.
 // It has a version number that is incremented each time the document is edited.
 // We also track the version number it had the last time it was saved.
@@ -108,14 +121,12 @@ impl LiveDocument {
         // We are going to replace part of the start line and end line, but maybe not the whole thing.
         // Find the prefix and suffix that we are keeping.
         let prefix: String = if let Some(line) = self.lines.get(start_line) {
-            let start_character = range.start.character as usize;
-            line.text.chars().take(start_character).collect()
+            line.text[..byte_index(&line.text, range.start.character)].to_string()
         } else {
             "".to_string()
         };
         let suffix: String = if let Some(line) = self.lines.get(end_line) {
-            let end_character = range.end.character as usize;
-            line.text.chars().skip(end_character).collect()
+            line.text[byte_index(&line.text, range.end.character)..].to_string()
         } else {
             "".to_string()
         };
@@ -161,7 +172,7 @@ impl LiveDocument {
     // The prefix of the line up to the provided point.
     pub fn get_prefix(&self, line: u32, character: u32) -> String {
         if let Some(line) = self.lines.get(line as usize) {
-            line.text.chars().take(character as usize).collect()
+            line.text[..byte_index(&line.text, character)].to_string()
         } else {
             "".to_string()
         }
-- 
2.43.0


From 206c98a97b21ba242cb2f6abcedc0c21e6b55a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 02/11] fix: skip an unchanged module only if it was checked
 with the current dependencies

---
 src/build_cache.rs | 34 +++++++++++++++++++++++++++++++---
 src/builder.rs     | 22 +++++++++++-----------
 2 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/src/build_cache.rs b/src/build_cache.rs
index 47569ab..9682935 100644
--- a/src/build_cache.rs
+++ b/src/build_cache.rs
@@ -35,6 +35,29 @@ fn normalize_relative_path(path: &Path) -> Option<String> {
     )
 }
 
+/// The hash recorded for an implementation file: its own content plus the content of everything
+/// it was checked against. A partial build keeps entries for modules it did not rebuild, so an
+/// entry has to say which versions of its dependencies it was checked with.
+fn checked_state_hash(
+    hash: blake3::Hash,
+    dependencies: &[(ModuleDescriptor, blake3::Hash)],
+) -> blake3::Hash {
+    let mut dependencies = dependencies
+        .iter()
+        .map(|(dependency, dependency_hash)| (dependency.to_string(), dependency_hash))
+        .collect::<Vec<_>>();
+    dependencies.sort_by(|left, right| left.0.cmp(&right.0));
+
+    let mut hasher = blake3::Hasher::new();
+    hasher.update(hash.as_bytes());
+    for (name, dependency_hash) in dependencies {
+        hasher.update(name.as_bytes());
+        hasher.update(&[0]);
+        hasher.update(dependency_hash.as_bytes());
+    }
+    hasher.finalize()
+}
+
 fn path_has_certs_component(path: &Path) -> bool {
     path.components()
         .any(|component| component.as_os_str() == CERTS_DIR)
@@ -269,7 +292,7 @@ impl BuildCache {
         } else if let Some(key) =
             Self::implementation_key_for_source_path(&package_root, &source_path)
         {
-            manifest.record_implementation(key, hash);
+            manifest.record_implementation(key, checked_state_hash(hash, dependencies));
         }
 
         for (key, dependency_hash) in dependency_entries {
@@ -365,7 +388,12 @@ impl BuildCache {
         self.cache.get_mut(descriptor)
     }
 
-    pub fn manifest_matches(&self, descriptor: &ModuleDescriptor, hash: blake3::Hash) -> bool {
+    pub fn manifest_matches(
+        &self,
+        descriptor: &ModuleDescriptor,
+        hash: blake3::Hash,
+        dependencies: &[(ModuleDescriptor, blake3::Hash)],
+    ) -> bool {
         let Some(source_path) = self.source_path_for_descriptor(descriptor) else {
             return false;
         };
@@ -383,7 +411,7 @@ impl BuildCache {
             else {
                 return false;
             };
-            manifest.matches_implementation(&key, hash)
+            manifest.matches_implementation(&key, checked_state_hash(hash, dependencies))
         }
     }
 
diff --git a/src/builder.rs b/src/builder.rs
index 210b4fe..03f1e88 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3751,11 +3751,12 @@ impl<'a> Builder<'a> {
             return false;
         };
 
-        if !self
-            .project()
-            .build_cache()
-            .manifest_matches(descriptor, current_hash)
-        {
+        let dependency_hashes = self.dependency_hashes_for_module(module_id);
+        if !self.project().build_cache().manifest_matches(
+            descriptor,
+            current_hash,
+            &dependency_hashes,
+        ) {
             return false;
         }
 
@@ -3769,11 +3770,11 @@ impl<'a> Builder<'a> {
                 return false;
             };
 
-            if !self
-                .project()
-                .build_cache()
-                .manifest_matches(dep_descriptor, dep_hash)
-            {
+            if !self.project().build_cache().manifest_matches(
+                dep_descriptor,
+                dep_hash,
+                &self.dependency_hashes_for_module(dep_id),
+            ) {
                 return false;
             }
         }
@@ -3787,7 +3788,6 @@ impl<'a> Builder<'a> {
         // We verified that certificates exist, but we don't copy them to the new cache.
         // They'll be handled during the merge in update_build_cache. We still need to record
         // the package manifest entry for full builds, where old manifest entries are not merged.
-        let dependency_hashes = self.dependency_hashes_for_module(module_id);
         self.build_cache.as_mut().unwrap().record_unchanged(
             target,
             current_hash,
-- 
2.43.0


From 1e04ef2a65fd53576da634fce31adbf698830c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:09 +0000
Subject: [PATCH 03/11] fix: a target that cannot load because of a broken
 import fails the build

---
 src/builder.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 03f1e88..155a855 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1694,9 +1694,7 @@ impl<'a> Builder<'a> {
                 }
                 ProjectViewModule::Error(e) => {
                     if e.indirect {
-                        if self.log_secondary_errors {
-                            self.log_global(e.to_string());
-                        }
+                        self.log_indirect_loading_error(e);
                     } else {
                         self.log_loading_error(target, e);
                     }
@@ -1871,6 +1869,16 @@ impl<'a> Builder<'a> {
         self.status = BuildStatus::Error;
     }
 
+    /// Logs that a target could not be loaded because of an error in a module it imports.
+    /// The real problem is in a different module, so we don't locate the error in this one.
+    /// That module is not necessarily a target, so this alone makes the build an error.
+    fn log_indirect_loading_error(&mut self, error: &ElaborationError) {
+        if self.log_secondary_errors {
+            self.log_global(error.to_string());
+        }
+        self.status = BuildStatus::Error;
+    }
+
     /// Called when we start proving a module.
     pub fn module_proving_started(&mut self, descriptor: ModuleDescriptor) {
         self.current_module = Some(descriptor);
@@ -3339,9 +3347,7 @@ impl<'a> Builder<'a> {
                 }
                 ProjectViewModule::Error(e) => {
                     if e.indirect {
-                        if self.log_secondary_errors {
-                            self.log_global(e.to_string());
-                        }
+                        self.log_indirect_loading_error(e);
                     } else {
                         self.log_loading_error(target, e);
                     }
@@ -3585,11 +3591,7 @@ impl<'a> Builder<'a> {
                 }
                 ProjectViewModule::Error(e) => {
                     if e.indirect {
-                        if self.log_secondary_errors {
-                            // The real problem is in a different module.
-                            // So we don't want to locate the error in this module.
-                            self.log_global(e.to_string());
-                        }
+                        self.log_indirect_loading_error(e);
                     } else {
                         self.log_loading_error(target, e);
                     }
-- 
2.43.0


From 0c59d5ec8c583fe6128f57eda85eff17e4da02ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 04/11] fix: forget the recorded state of a module whose
 rebuild failed

---
 src/build_cache.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/build_cache.rs b/src/build_cache.rs
index 9682935..b40f155 100644
--- a/src/build_cache.rs
+++ b/src/build_cache.rs
@@ -342,20 +342,38 @@ impl BuildCache {
     /// Only copies certificates for modules that don't already exist in this cache.
     /// This is used when write_cache is false to preserve in-memory certificates.
     pub fn merge_certificates_from(&mut self, old_cache: &BuildCache) {
+        self.merge_missing_manifests_from(old_cache);
         for (descriptor, cert_store) in &old_cache.cache {
             if !self.cache.contains_key(descriptor) {
                 self.cache.insert(descriptor.clone(), cert_store.clone());
             }
         }
-        self.merge_missing_manifests_from(old_cache);
     }
 
+    /// Keeps old manifest entries for everything this build did not look at. A module that was
+    /// rebuilt but has no new entry failed, and its certificates changed, so its old entry goes.
     fn merge_missing_manifests_from(&mut self, old_cache: &BuildCache) {
+        let rebuilt = self
+            .cache
+            .keys()
+            .filter_map(|descriptor| {
+                let source_path = self.source_path_for_descriptor(descriptor)?;
+                let package_root = self.package_root_for_source_path(&source_path)?;
+                let key = Self::implementation_key_for_source_path(&package_root, &source_path)?;
+                Some((package_root, key))
+            })
+            .collect::<Vec<_>>();
         for (package_root, old_manifest) in &old_cache.manifests {
+            let mut old_manifest = old_manifest.clone();
+            for (rebuilt_root, key) in &rebuilt {
+                if rebuilt_root == package_root {
+                    old_manifest.implementation.remove(key);
+                }
+            }
             self.manifests
                 .entry(package_root.clone())
                 .or_default()
-                .merge_missing_from(old_manifest);
+                .merge_missing_from(&old_manifest);
         }
     }
 
@@ -497,10 +515,14 @@ impl BuildCache {
         }
 
         for (package_root, manifest) in &self.manifests {
+            let path = Self::package_manifest_path(package_root);
             if manifest.is_empty() {
+                if path.exists() {
+                    std::fs::remove_file(path)?;
+                }
                 continue;
             }
-            manifest.save(&Self::package_manifest_path(package_root))?;
+            manifest.save(&path)?;
         }
 
         if !preserve_old_manifest_entries {
-- 
2.43.0


From da42c379a7438b6cef48a84119b14bf1f9a9dd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:20 +0000
Subject: [PATCH 05/11] fix: an interrupted save leaves whole files, and no
 manifest vouching for other certificates

---
 src/build_cache.rs | 10 ++++++++++
 src/certificate.rs | 10 +++++-----
 src/manifest.rs    | 10 ++++++++++
 src/project.rs     |  8 ++++++--
 4 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/build_cache.rs b/src/build_cache.rs
index b40f155..a6def89 100644
--- a/src/build_cache.rs
+++ b/src/build_cache.rs
@@ -504,6 +504,16 @@ impl BuildCache {
             self.merge_missing_manifests_from(old_cache);
         }
 
+        // The old manifests vouch for the old certificates, so they go before those change.
+        for descriptor in self.cache.keys() {
+            if let Some(package_root) = self.package_root_for_descriptor(descriptor) {
+                let path = Self::package_manifest_path(&package_root);
+                if path.exists() {
+                    std::fs::remove_file(path)?;
+                }
+            }
+        }
+
         for (descriptor, cert_store) in &self.cache {
             let Some(path) = self.cert_path_for_descriptor(descriptor) else {
                 continue;
diff --git a/src/certificate.rs b/src/certificate.rs
index 14be252..dfe4fd2 100644
--- a/src/certificate.rs
+++ b/src/certificate.rs
@@ -2,7 +2,7 @@ use serde::{Deserialize, Serialize};
 use std::collections::{HashMap, HashSet};
 use std::error::Error;
 use std::fs::File;
-use std::io::{BufRead, BufReader, BufWriter, Write};
+use std::io::{BufRead, BufReader, Write};
 use std::path::Path;
 
 use std::borrow::Cow;
@@ -34,6 +34,7 @@ use crate::kernel::symbol_table::NewConstantType;
 use crate::kernel::term::{Decomposition, Term};
 use crate::kernel::term_normalization::normalize_term;
 use crate::kernel::variable_map::VariableMap;
+use crate::manifest::write_atomically;
 use crate::module::ModuleId;
 use crate::project::ProjectLookup;
 use crate::proof_order::unit_support_order;
@@ -2268,15 +2269,14 @@ impl CertificateStore {
 
     /// Save the certificate store to a file in JSONL format (one certificate per line)
     pub fn save(&self, filename: &Path) -> Result<(), Box<dyn Error>> {
-        let file = File::create(filename)?;
-        let mut writer = BufWriter::new(file);
+        let mut contents = Vec::new();
 
         for cert in &self.certs {
             let json = serde_json::to_string(cert)?;
-            writeln!(writer, "{}", json)?;
+            writeln!(contents, "{}", json)?;
         }
 
-        writer.flush()?;
+        write_atomically(filename, &contents)?;
         Ok(())
     }
 
diff --git a/src/manifest.rs b/src/manifest.rs
index d613c20..6c120e3 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -128,6 +128,16 @@ pub struct PackageManifest {
     pub dependencies: BTreeMap<String, HexHash>,
 }
 
+/// Replaces a file as a whole, so that being interrupted never leaves it cut short.
+pub(crate) fn write_atomically(path: &Path, contents: &[u8]) -> std::io::Result<()> {
+    let mut temp_name = std::ffi::OsString::from(".");
+    temp_name.push(path.file_name().unwrap_or_default());
+    temp_name.push(".tmp");
+    let temp_path = path.with_file_name(temp_name);
+    std::fs::write(&temp_path, contents)?;
+    std::fs::rename(&temp_path, path)
+}
+
 impl PackageManifest {
     pub fn record_interface(&mut self, hash: blake3::Hash) {
         self.interface = Some(HexHash::new(hash));
diff --git a/src/project.rs b/src/project.rs
index 62ee215..27005d2 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -30,7 +30,7 @@ use crate::kernel::checker::StepReason;
 use crate::loader::module_loader::elaborate_and_lower_module;
 use crate::loader::parsed_module::ParsedModule;
 use crate::loader::source::read_source_text;
-use crate::manifest::{Manifest, ManifestError};
+use crate::manifest::{write_atomically, Manifest, ManifestError};
 use crate::module::{LoadState, LoadedModule, Module, ModuleDescriptor, ModuleId};
 use crate::processor::Processor;
 use crate::proof_display::display_certificate_lines;
@@ -1583,7 +1583,11 @@ impl Project {
             )
         })?;
         doc["project_format_version"] = value(i64::from(Manifest::current_version()));
-        std::fs::write(acorn_toml, doc.to_string())
+        let updated = doc.to_string();
+        if updated == existing {
+            return Ok(());
+        }
+        write_atomically(&acorn_toml, updated.as_bytes())
     }
 
     // Create a new project.
-- 
2.43.0


From b823701b5e366b18a24ed3d5725874a71eeb682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:11 +0000
Subject: [PATCH 06/11] fix: a stale caller never stops a newer build, and a
 change stops every older one

---
 src/server/project_manager.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/server/project_manager.rs b/src/server/project_manager.rs
index 91fa05c..cb4d81a 100644
--- a/src/server/project_manager.rs
+++ b/src/server/project_manager.rs
@@ -83,9 +83,11 @@ impl ProjectManager {
         // Increment the epoch to invalidate all existing views
         let epoch = self.epoch.fetch_add(1, Ordering::SeqCst) + 1;
 
-        // Create a new cancellation token for future builds
+        // Create a new cancellation token for future builds. The one it replaces may be newer
+        // than the one we cancelled before waiting for write access.
         {
             let mut cancel = self.cancel.write().await;
+            cancel.cancel();
             *cancel = CancellationToken::new();
         }
 
@@ -108,14 +110,14 @@ impl ProjectManager {
     where
         F: FnOnce(&mut Project) -> R,
     {
-        // Check the epoch before cancelling anything
-        if self.epoch.load(Ordering::SeqCst) != epoch {
-            return Err(());
-        }
-
-        // Cancel any ongoing builds
+        // Cancel any ongoing builds, but check the epoch before cancelling anything.
+        // The token is only replaced after the epoch changes, so while we hold it and the
+        // epoch matches, it is not the token of a newer epoch.
         {
             let cancel = self.cancel.read().await;
+            if self.epoch.load(Ordering::SeqCst) != epoch {
+                return Err(());
+            }
             cancel.cancel();
         }
 
@@ -133,9 +135,11 @@ impl ProjectManager {
         // Increment the epoch to invalidate all existing views
         let epoch = self.epoch.fetch_add(1, Ordering::SeqCst) + 1;
 
-        // Create a new cancellation token for future builds
+        // Create a new cancellation token for future builds. The one it replaces may be newer
+        // than the one we cancelled before waiting for write access.
         {
             let mut cancel = self.cancel.write().await;
+            cancel.cancel();
             *cancel = CancellationToken::new();
         }
 
-- 
2.43.0


From ef093666465fbbe92d43e3a25e171b4667e1ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:12 +0000
Subject: [PATCH 07/11] fix: explaining an equality does not recurse forever
 through an edge that explains itself

An edge of the equality graph without a source can come from clause reduction. If the
arguments of its terms are equal only because of that edge, expanding it went on until
the stack overflowed and the process died. Such an edge has no explanation.
---
 src/kernel/equality_graph.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/kernel/equality_graph.rs b/src/kernel/equality_graph.rs
index 1432665..6c06e98 100644
--- a/src/kernel/equality_graph.rs
+++ b/src/kernel/equality_graph.rs
@@ -1431,11 +1431,25 @@ impl EqualityGraph {
     // the rewrites for the subterms.
     // The application rewrites have a step id of None.
     // The rewritten subterms have a step id with the rule that they are based on.
+    // Returns None if the equality can't be explained this way.
     fn expand_steps(
         &self,
         term1: TermId,
         term2: TermId,
         output: &mut Vec<RewriteStep>,
+    ) -> Option<()> {
+        self.expand_steps_within(term1, term2, &mut vec![], output)
+    }
+
+    // open_edges are the application edges that we are in the middle of explaining.
+    // An edge without a source can also come from clause reduction. The arguments of its terms
+    // might be equal only because of this very edge, in which case it isn't explained by them.
+    fn expand_steps_within(
+        &self,
+        term1: TermId,
+        term2: TermId,
+        open_edges: &mut Vec<(TermId, TermId)>,
+        output: &mut Vec<RewriteStep>,
     ) -> Option<()> {
         if term1 == term2 {
             return Some(());
@@ -1444,10 +1458,16 @@ impl EqualityGraph {
         for (a_id, b_id, source) in path {
             if source.is_none() {
                 // We have an application relationship between a_id and b_id
+                let edge = (a_id.min(b_id), a_id.max(b_id));
+                if open_edges.contains(&edge) {
+                    return None;
+                }
                 let (func_a, arg_a) = self.as_application_opt(a_id)?;
                 let (func_b, arg_b) = self.as_application_opt(b_id)?;
-                self.expand_steps(func_a, func_b, output)?;
-                self.expand_steps(arg_a, arg_b, output)?;
+                open_edges.push(edge);
+                self.expand_steps_within(func_a, func_b, open_edges, output)?;
+                self.expand_steps_within(arg_a, arg_b, open_edges, output)?;
+                open_edges.pop();
             }
 
             let term_a = self.get_term(a_id);
-- 
2.43.0


From 9c26365f6483c0b259fc6b2f62831c318e5919bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:19 +0000
Subject: [PATCH 08/11] fix: extensionality does not miscount the arguments of
 an applied lambda

num_args() counts the body of a lambda that is applied, args() does not. Taking the side
with more num_args() as the longer one let the index of its arguments fall below zero, so
that activating such a clause panicked. Sides that are not applications of an atom are left
alone.
---
 src/kernel/clause.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kernel/clause.rs b/src/kernel/clause.rs
index f0e10cd..b16ece5 100644
--- a/src/kernel/clause.rs
+++ b/src/kernel/clause.rs
@@ -748,10 +748,14 @@ impl Clause {
         let shorter_args = shorter.args();
 
         // Both sides must be function applications. Terms like lambdas/foralls are not
-        // application spines even though `num_args()` can count their nested structure.
+        // application spines even though `num_args()` can count their nested structure,
+        // and neither are applications of them.
         if longer_args.is_empty() || shorter_args.is_empty() {
             return None;
         }
+        if longer_args.len() != longer.num_args() || shorter_args.len() != shorter.num_args() {
+            return None;
+        }
 
         // Heads must not be variables
         if longer.get_head_atom().is_variable() || shorter.get_head_atom().is_variable() {
-- 
2.43.0


From 7745db7f4a5a37a92b2f0419a6a04532ad7af615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:58 +0000
Subject: [PATCH 09/11] fix: a search does not die of terms that double in size
 at every step

From p(c) and 'p(x) implies p(h(x, x))' the prover derived terms of more than 65535
components, whose 16-bit offsets wrapped around, and panicked. Offsets have 32 bits now (the
components are no larger for it), KBO counts occurrences without overflow, and clauses with
more than 2000 atoms are not searched, like those that are too deep.
---
 src/kernel/proof_step.rs |  8 ++++++++
 src/kernel/term.rs       | 24 ++++++++++++------------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/kernel/proof_step.rs b/src/kernel/proof_step.rs
index c0dab3d..adc8af9 100644
--- a/src/kernel/proof_step.rs
+++ b/src/kernel/proof_step.rs
@@ -10,6 +10,9 @@ use crate::kernel::local_context::LocalContext;
 use crate::kernel::term::{Decomposition, PathStep, Term, TermRef};
 use crate::kernel::variable_map::{self, VariableMap};
 
+/// Clauses with more atoms than this are never used in a search.
+const MAX_ATOM_COUNT: u32 = 2000;
+
 /// The different sorts of proof steps.
 #[derive(Debug, Eq, PartialEq, Hash, Clone, Copy)]
 pub enum ProofStepId {
@@ -1470,6 +1473,11 @@ impl ProofStep {
             return true;
         }
 
+        // Terms can double in size at each step, so even a shallow proof can have huge ones.
+        if self.clause.atom_count() > MAX_ATOM_COUNT {
+            return true;
+        }
+
         false
     }
 }
diff --git a/src/kernel/term.rs b/src/kernel/term.rs
index 7033099..15517ec 100644
--- a/src/kernel/term.rs
+++ b/src/kernel/term.rs
@@ -26,7 +26,7 @@ enum TermComponent {
     /// - Right child (argument): at index + right_offset
     /// The right_offset is the offset from this marker to the start of the right child.
     /// For f(a): [Application{2}, f, a] - right_offset=2 means arg is at position 2 from marker.
-    Application { right_offset: u16 },
+    Application { right_offset: u32 },
 
     /// A Pi type (dependent function type).
     /// - Left child (input type): always at index + 1
@@ -34,25 +34,25 @@ enum TermComponent {
     /// Pi always has exactly 2 sub-elements: input type and output type.
     /// Used when Term represents types like `(T : Type<CommRing>) -> T -> T -> T`.
     /// A non-dependent arrow `A -> B` is represented as `Pi(A, B)` where B doesn't use Var(0).
-    Pi { right_offset: u16 },
+    Pi { right_offset: u32 },
 
     /// A lambda value (dependent function value).
     /// - Left child (input type): always at index + 1
     /// - Right child (body): at index + right_offset
     /// The body is interpreted under one additional bound variable binder.
-    Lambda { right_offset: u16 },
+    Lambda { right_offset: u32 },
 
     /// A universal quantifier.
     /// - Left child (binder type): always at index + 1
     /// - Right child (body): at index + right_offset
     /// The body is interpreted under one additional bound variable binder.
-    ForAll { right_offset: u16 },
+    ForAll { right_offset: u32 },
 
     /// An existential quantifier.
     /// - Left child (binder type): always at index + 1
     /// - Right child (body): at index + right_offset
     /// The body is interpreted under one additional bound variable binder.
-    Exists { right_offset: u16 },
+    Exists { right_offset: u32 },
 
     /// A leaf atom in the term tree.
     Atom(Atom),
@@ -1114,7 +1114,7 @@ impl<'a> TermRef<'a> {
 
     /// Calculate multi-weight for KBO ordering.
     /// Returns (weight1, weight2) and populates refcounts with variable usage.
-    fn multi_weight(&self, refcounts: &mut Vec<u8>) -> (u32, u32) {
+    fn multi_weight(&self, refcounts: &mut Vec<u32>) -> (u32, u32) {
         let mut weight1: u32 = 0;
         let mut weight2: u32 = 0;
 
@@ -1764,7 +1764,7 @@ impl Term {
     /// For non-dependent arrow types, output simply doesn't reference `Atom::FreeVariable(0)`.
     pub fn pi(input: Term, output: Term) -> Term {
         // right_offset points to where the output type starts (after the marker and input)
-        let right_offset = (1 + input.components.len()) as u16;
+        let right_offset = (1 + input.components.len()) as u32;
         let mut components = vec![TermComponent::Pi { right_offset }];
         components.extend(input.components);
         components.extend(output.components);
@@ -1774,7 +1774,7 @@ impl Term {
     /// Create a Lambda value `fun (x : input) => body`.
     pub fn lambda(input: Term, body: Term) -> Term {
         // right_offset points to where the body starts (after the marker and input type)
-        let right_offset = (1 + input.components.len()) as u16;
+        let right_offset = (1 + input.components.len()) as u32;
         let mut components = vec![TermComponent::Lambda { right_offset }];
         components.extend(input.components);
         components.extend(body.components);
@@ -1792,7 +1792,7 @@ impl Term {
 
     /// Create a universal quantifier `forall (x : binder_type), body`.
     pub fn forall(binder_type: Term, body: Term) -> Term {
-        let right_offset = (1 + binder_type.components.len()) as u16;
+        let right_offset = (1 + binder_type.components.len()) as u32;
         let mut components = vec![TermComponent::ForAll { right_offset }];
         components.extend(binder_type.components);
         components.extend(body.components);
@@ -1809,7 +1809,7 @@ impl Term {
 
     /// Create an existential quantifier `exists (x : binder_type), body`.
     pub fn exists(binder_type: Term, body: Term) -> Term {
-        let right_offset = (1 + binder_type.components.len()) as u16;
+        let right_offset = (1 + binder_type.components.len()) as u32;
         let mut components = vec![TermComponent::Exists { right_offset }];
         components.extend(binder_type.components);
         components.extend(body.components);
@@ -2519,7 +2519,7 @@ impl Term {
         }
         let mut result = self.clone();
         for arg in args {
-            let right_offset = (1 + result.components.len()) as u16;
+            let right_offset = (1 + result.components.len()) as u32;
             let mut components =
                 Vec::with_capacity(1 + result.components.len() + arg.components.len());
             components.push(TermComponent::Application { right_offset });
@@ -3102,7 +3102,7 @@ impl fmt::Display for Term {
 }
 
 /// Helper function for KBO domination check.
-fn dominates(a: &Vec<u8>, b: &Vec<u8>) -> bool {
+fn dominates(a: &Vec<u32>, b: &Vec<u32>) -> bool {
     if b.len() > a.len() {
         return false;
     }
-- 
2.43.0


From 34be0a4bc700c26c49d40ac836721fc49e94dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:16 +0000
Subject: [PATCH 10/11] fix: names and values that used to make elaboration
 panic are errors

A theorem with an argument of its own name, a datatype with a parameter of its own name or
an attribute block whose instance name is a type panicked, as did 'axiom' inside a value.
The value of forall and exists was never compared with the type expected, so that
'let w: Dm = exists(x: Dm) { true }' was accepted and made later statements panic.
---
 src/elaborator/environment/add_statement/attributes.rs  | 2 ++
 src/elaborator/environment/add_statement/datatypes.rs   | 4 ++++
 src/elaborator/environment/add_statement/definitions.rs | 7 +++++++
 src/elaborator/evaluator.rs                             | 4 ++--
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/elaborator/environment/add_statement/attributes.rs b/src/elaborator/environment/add_statement/attributes.rs
index 60af32b..351b88a 100644
--- a/src/elaborator/environment/add_statement/attributes.rs
+++ b/src/elaborator/environment/add_statement/attributes.rs
@@ -392,6 +392,8 @@ impl Environment {
         })?;
 
         let instance_name = instance_name_token.text();
+        self.bindings
+            .check_typename_available(instance_name, instance_name_token)?;
         let type_param = crate::elaborator::acorn_type::TypeParam {
             name: instance_name.to_string(),
             typeclass: Some(typeclass.clone()),
diff --git a/src/elaborator/environment/add_statement/datatypes.rs b/src/elaborator/environment/add_statement/datatypes.rs
index 0d51715..e64f7df 100644
--- a/src/elaborator/environment/add_statement/datatypes.rs
+++ b/src/elaborator/environment/add_statement/datatypes.rs
@@ -66,6 +66,8 @@ impl Environment {
         for type_param in &type_params {
             arbitrary_params.push(self.bindings.add_arbitrary_type(type_param.clone()));
         }
+        self.bindings
+            .check_typename_available(structure_statement.name_token.text(), statement)?;
         let (family_args, datatype_value_args) =
             family_params.family_args_for_type_args(&arbitrary_params);
         let mut family_stack = Stack::new();
@@ -625,6 +627,8 @@ impl Environment {
         for type_param in &type_params {
             arbitrary_params.push(self.bindings.add_arbitrary_type(type_param.clone()));
         }
+        self.bindings
+            .check_typename_available(inductive_statement.name_token.text(), statement)?;
         let typeclasses = type_params.iter().map(|tp| tp.typeclass.clone()).collect();
         let doc_comments = self.take_doc_comments();
         let definition_string = Some(statement.to_string());
diff --git a/src/elaborator/environment/add_statement/definitions.rs b/src/elaborator/environment/add_statement/definitions.rs
index 7e29dba..27d37bd 100644
--- a/src/elaborator/environment/add_statement/definitions.rs
+++ b/src/elaborator/environment/add_statement/definitions.rs
@@ -1111,6 +1111,13 @@ impl Environment {
             self.evaluate_local_family_params(project, &theorem_statement.type_params)?;
         let mut args = local_family_params.value_declarations;
         args.extend(theorem_statement.args.clone());
+        if let Some(name_token) = &theorem_statement.name_token {
+            for arg in &args {
+                if arg.token().text() == name_token.text() {
+                    return Err(arg.token().error("an argument cannot have the name of its theorem"));
+                }
+            }
+        }
         let (mut type_params, mut arg_names, mut arg_types, value, _, mut local_obligations) =
             self.bindings.evaluate_scoped_value(
                 &local_family_params.type_param_exprs,
diff --git a/src/elaborator/evaluator.rs b/src/elaborator/evaluator.rs
index 314384e..e845c21 100644
--- a/src/elaborator/evaluator.rs
+++ b/src/elaborator/evaluator.rs
@@ -3298,7 +3298,7 @@ impl<'a> Evaluator<'a> {
     ) -> error::Result<PotentialValue> {
         let value = match expression {
             Expression::Singleton(token) => match token.token_type {
-                TokenType::Axiom => panic!("axiomatic values should be handled elsewhere"),
+                TokenType::Axiom => return Err(token.error("'axiom' cannot be used inside a value")),
                 TokenType::ForAll | TokenType::Exists | TokenType::Function | TokenType::Choose => {
                     return Err(token.error("binder keywords cannot be used as values"));
                 }
@@ -3775,7 +3775,7 @@ impl<'a> Evaluator<'a> {
                     Err(e) => Err(e),
                 };
                 stack.remove_all(&arg_names);
-                if ret_val.is_ok() && token.token_type == TokenType::Function {
+                if ret_val.is_ok() {
                     if let Some(expected_type) = expected_type {
                         let actual_type = ret_val
                             .as_ref()
-- 
2.43.0


From 1988a043df89b0bb0b99aef972fa7ab64edda1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:50 +0000
Subject: [PATCH 11/11] fix: the language server shows the problems of every
 saved file, however quickly saves and closes follow each other

---
 src/project.rs                |  17 ++-
 src/server.rs                 | 224 ++++++++++++++++++++--------------
 src/server/project_manager.rs |   1 +
 3 files changed, 150 insertions(+), 92 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 27005d2..e51dd5f 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -108,6 +108,10 @@ pub struct Project {
     // A flag for whether something is using the project to build right now.
     // Only used in the parallel server code.
     pub building: bool,
+
+    // Files that changed and whose dependents have not all been built since.
+    // Only used in the parallel server code.
+    pub unbuilt_paths: BTreeSet<PathBuf>,
 }
 
 struct ParallelModuleLoadJob {
@@ -232,9 +236,15 @@ impl ProjectView {
     }
 
     pub fn new_for_targets(project: &Project, targets: HashSet<ModuleDescriptor>) -> Self {
-        let mut view = Self::new(project);
-        view.targets = Arc::new(targets);
-        view
+        Self::new(project).with_targets(targets)
+    }
+
+    /// The same view, for building other targets.
+    pub fn with_targets(&self, targets: HashSet<ModuleDescriptor>) -> Self {
+        Self {
+            targets: Arc::new(targets),
+            ..self.clone()
+        }
     }
 
     pub fn new_without_lowered(project: &Project) -> Self {
@@ -1646,6 +1656,7 @@ impl Project {
             cache_load_time,
             build_dir,
             building: false,
+            unbuilt_paths: BTreeSet::new(),
         })
     }
 
diff --git a/src/server.rs b/src/server.rs
index b324cf4..d786d17 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -2,7 +2,7 @@
 mod live_document;
 mod project_manager;
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::path::PathBuf;
 use std::sync::Arc;
 
@@ -21,7 +21,9 @@ use crate::interfaces::{
     DocumentProgress, ProgressParams, ProgressResponse, SelectionParams, SelectionResponse,
 };
 use crate::packaged_acornlib;
-use crate::project::{Project, ProjectConfig, ProjectView, SelectionInfo, UsageMode};
+use crate::project::{
+    ImportError, Project, ProjectConfig, ProjectView, ProjectViewModule, SelectionInfo, UsageMode,
+};
 
 // Trait abstracting the LSP client methods we need
 #[async_trait::async_trait]
@@ -172,11 +174,19 @@ impl BuildInfo {
         }
     }
 
-    fn queued(generation: u64) -> BuildInfo {
-        BuildInfo {
+    // Makes way for a new build. The documents keep what earlier builds found out about them
+    // until a build of their modules starts.
+    // Returns false if an even newer build is already there.
+    fn queue(&mut self, generation: u64) -> bool {
+        if self.generation > Some(generation) {
+            return false;
+        }
+        *self = BuildInfo {
             generation: Some(generation),
+            docs: std::mem::take(&mut self.docs),
             ..BuildInfo::none()
-        }
+        };
+        true
     }
 
     // Turn the known build information into a progress response.
@@ -225,8 +235,8 @@ impl BuildInfo {
         doc
     }
 
-    // Clears everything in preparation for a new build.
-    // Then sets docs for the open documents.
+    // Clears everything about the modules that a new build is about to check.
+    // Then sets docs for the open documents among them.
     async fn reset(
         &mut self,
         generation: u64,
@@ -237,22 +247,23 @@ impl BuildInfo {
             return false;
         }
 
-        // Clear the diagnostics for all the open documents.
-        let mut new_docs = HashMap::new();
-        for (url, version) in project.open_urls() {
-            client
-                .publish_diagnostics(url.clone(), vec![], Some(version))
-                .await;
-            new_docs.insert(url, DocumentBuildInfo::new(Some(version)));
-        }
-        // Clear the diagnostics for any closed documents.
-        for url in self.docs.keys() {
-            if !new_docs.contains_key(url) {
-                client.publish_diagnostics(url.clone(), vec![], None).await;
+        self.queue(generation);
+        let versions: HashMap<Url, i32> = project.open_urls().collect();
+        for target in project.targets() {
+            let Some(url) = project.url_from_descriptor(target) else {
+                continue;
+            };
+            // Closed documents only have diagnostics to clear if there was a problem.
+            let version = versions.get(&url).copied();
+            if self.docs.remove(&url).is_some() || version.is_some() {
+                client
+                    .publish_diagnostics(url.clone(), vec![], version)
+                    .await;
+            }
+            if version.is_some() {
+                self.docs.insert(url, DocumentBuildInfo::new(version));
             }
         }
-        *self = BuildInfo::queued(generation);
-        self.docs = new_docs;
         true
     }
 
@@ -409,7 +420,6 @@ impl AcornLanguageServer {
     // Updates the live document state, then reloads and builds in the background.
     async fn build(&self, path: PathBuf, text: &str, version: i32) {
         log("building...");
-        let build_path = path.clone();
         let Some(project_manager) = self.project_manager() else {
             log("build skipped because project initialization failed");
             return;
@@ -420,7 +430,9 @@ impl AcornLanguageServer {
         let (result, update_epoch) = project_manager
             .mutate_with_epoch(|project| {
                 project.building = true;
-                project.update_file_for_ide(path, &text, version)
+                project.update_file_for_ide(path.clone(), &text, version)?;
+                project.unbuilt_paths.insert(path);
+                Ok::<(), ImportError>(())
             })
             .await;
 
@@ -429,15 +441,19 @@ impl AcornLanguageServer {
             Err(e) => log(&format!("update failed: {:?}", e)),
         }
 
+        self.start_build(project_manager, update_epoch).await;
+    }
+
+    // Builds whatever depends on the files that have not been built since they changed, in the
+    // background. Does nothing if the project has changed since the given epoch.
+    async fn start_build(&self, project_manager: Arc<ProjectManager>, update_epoch: u64) {
         // Clear previous progress immediately so clients do not mistake the last
         // completed build for this newly queued one.
-        *self.build.write().await = BuildInfo::queued(update_epoch);
+        if !self.build.write().await.queue(update_epoch) {
+            return;
+        }
 
         let start_time = chrono::Local::now();
-
-        // This channel passes the build events
-        let (tx, mut rx) = mpsc::unbounded_channel();
-
         let build = self.build.clone();
         let client = Arc::clone(&self.client);
         let jobs = default_jobs();
@@ -445,21 +461,18 @@ impl AcornLanguageServer {
         tokio::spawn(async move {
             let reload_result = project_manager
                 .mutate_if_epoch_with_epoch(update_epoch, |project| {
-                    project.reload_dependent_targets_by_path(&build_path, jobs)
+                    let mut path_targets = vec![];
+                    for path in project.unbuilt_paths.clone() {
+                        match project.reload_dependent_targets_by_path(&path, jobs) {
+                            Ok(targets) => path_targets.push((path, targets)),
+                            Err(error) => log(&format!("reload failed: {}", error)),
+                        }
+                    }
+                    path_targets
                 })
                 .await;
-            let (build_targets, reload_epoch) = match reload_result {
-                Ok((Ok(targets), epoch)) => (targets, epoch),
-                Ok((Err(error), epoch)) => {
-                    log(&format!("reload failed: {}", error));
-                    build.write().await.finish(update_epoch);
-                    let _ = project_manager
-                        .mutate_if_epoch(epoch, |project| {
-                            project.building = false;
-                        })
-                        .await;
-                    return;
-                }
+            let (path_targets, reload_epoch) = match reload_result {
+                Ok(result) => result,
                 Err(()) => {
                     log("build skipped (project changed before reload)");
                     return;
@@ -471,69 +484,98 @@ impl AcornLanguageServer {
                 log("build skipped (project changed after reload)");
                 return;
             }
-            let project_view = ProjectView::new_for_targets(&project, build_targets);
+            let project_view = ProjectView::new(&project);
             let cancel = project.cancel.clone();
             drop(project);
 
-            let reset = build
-                .write()
-                .await
-                .reset(update_epoch, &project_view, &client)
-                .await;
-            if !reset {
-                log("build skipped (newer progress generation exists)");
-                return;
+            // A build with loading errors does not prove anything. So that errors around one file
+            // do not keep another one from being checked, build their targets separately.
+            let mut built_paths = vec![];
+            let mut broken_targets = HashSet::new();
+            let mut build_targets = HashSet::new();
+            for (path, targets) in path_targets {
+                if targets.iter().all(|target| {
+                    matches!(project_view.get_module(target), ProjectViewModule::Ok(_))
+                }) {
+                    built_paths.push(path);
+                    build_targets.extend(targets);
+                } else {
+                    broken_targets.extend(targets);
+                }
             }
+            broken_targets.retain(|target| !build_targets.contains(target));
 
-            let builder_project = project_view.clone();
-            let build_handle = tokio::task::spawn_blocking(move || {
-                let mut builder = Builder::new_with_view(builder_project, cancel, move |event| {
-                    let _ = tx.send(event);
-                });
-                builder.check_hashes = true;
-                builder.check_jobs = jobs;
-                builder.build();
-
-                let duration = chrono::Local::now() - start_time;
-                let seconds = duration.num_milliseconds() as f64 / 1000.0;
-                log(&format!(
-                    "verification {} after {:.2}s",
-                    builder.status.verb(),
-                    seconds
-                ));
-
-                let lines = builder.metrics.info_lines().join(". ");
-                log(&lines);
-
-                // Return the build cache if successful
-                builder.into_build_cache()
-            });
-
-            while let Some(event) = rx.recv().await {
-                build
+            let mut build_caches = vec![];
+            for targets in [broken_targets, build_targets] {
+                if targets.is_empty() {
+                    continue;
+                }
+                let project_view = project_view.with_targets(targets);
+                let reset = build
                     .write()
                     .await
-                    .handle_event(update_epoch, &project_view, &client, &event)
+                    .reset(update_epoch, &project_view, &client)
                     .await;
-            }
+                if !reset {
+                    log("build skipped (newer progress generation exists)");
+                    return;
+                }
 
-            build.write().await.finish(update_epoch);
+                // This channel passes the build events
+                let (tx, mut rx) = mpsc::unbounded_channel();
+
+                let builder_project = project_view.clone();
+                let builder_cancel = cancel.clone();
+                let build_handle = tokio::task::spawn_blocking(move || {
+                    let mut builder =
+                        Builder::new_with_view(builder_project, builder_cancel, move |event| {
+                            let _ = tx.send(event);
+                        });
+                    builder.check_hashes = true;
+                    builder.check_jobs = jobs;
+                    builder.build();
+
+                    let duration = chrono::Local::now() - start_time;
+                    let seconds = duration.num_milliseconds() as f64 / 1000.0;
+                    log(&format!(
+                        "verification {} after {:.2}s",
+                        builder.status.verb(),
+                        seconds
+                    ));
+
+                    let lines = builder.metrics.info_lines().join(". ");
+                    log(&lines);
+
+                    // Return the build cache if successful
+                    builder.into_build_cache()
+                });
 
-            let build_cache = match build_handle.await {
-                Ok(build_cache) => build_cache,
-                Err(e) => {
-                    log(&format!("build task failed: {}", e));
-                    None
+                while let Some(event) = rx.recv().await {
+                    build
+                        .write()
+                        .await
+                        .handle_event(update_epoch, &project_view, &client, &event)
+                        .await;
                 }
-            };
+
+                match build_handle.await {
+                    Ok(build_cache) => build_caches.extend(build_cache),
+                    Err(e) => log(&format!("build task failed: {}", e)),
+                }
+            }
+
+            build.write().await.finish(update_epoch);
 
             // Update the build cache if the build was successful and epoch hasn't changed.
             // Always mark building as false when done.
             let result = project_manager
                 .mutate_if_epoch(reload_epoch, |project| {
-                    if let Some(new_cache) = build_cache {
+                    for new_cache in build_caches {
                         project.update_build_cache(new_cache, true);
                     }
+                    for path in built_paths {
+                        project.unbuilt_paths.remove(&path);
+                    }
                     project.building = false;
                 })
                 .await;
@@ -764,19 +806,23 @@ impl LanguageServer for AcornLanguageServer {
                 return;
             }
         };
-        // Use mutate to close the file with automatic build cancellation
+        // Use mutate to close the file with automatic build cancellation.
+        // If that stops a build, another one has to take its place.
         let Some(project_manager) = self.project_manager() else {
             log("close ignored because project initialization failed");
             return;
         };
-        let result = project_manager
-            .mutate(|project| project.close_file(path))
+        let ((result, building), epoch) = project_manager
+            .mutate_with_epoch(|project| (project.close_file(path), project.building))
             .await;
 
         match result {
             Ok(()) => {}
             Err(e) => log(&format!("close failed: {:?}", e)),
         }
+        if building {
+            self.start_build(project_manager, epoch).await;
+        }
     }
 
     async fn completion(
diff --git a/src/server/project_manager.rs b/src/server/project_manager.rs
index cb4d81a..42e9dc8 100644
--- a/src/server/project_manager.rs
+++ b/src/server/project_manager.rs
@@ -56,6 +56,7 @@ impl ProjectManager {
 
     /// Mutates the project with exclusive access
     /// Automatically cancels the old token and creates a new one after mutation
+    #[allow(dead_code)]
     pub async fn mutate<F, R>(&self, f: F) -> R
     where
         F: FnOnce(&mut Project) -> R,
-- 
2.43.0

