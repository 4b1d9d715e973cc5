From ca911619bc7529505a28de655f6c217ee9bf7091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:42 +0000
Subject: [PATCH 1/9] Add a call adapter hook for verification tooling, behind
 cfg(verif_hooks)

---
 src/main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index ab3b4e1..0ab5148 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,6 +6,7 @@
 
 #![warn(clippy::pedantic)]
 #![allow(clippy::module_name_repetitions, clippy::needless_raw_string_hashes)]
+#![allow(unexpected_cfgs)] // cfg(verif_hooks), below
 
 mod build_dir;
 mod cargo;
@@ -421,6 +422,8 @@ pub struct Features {
 }
 
 fn main() -> Result<()> {
+    #[cfg(verif_hooks)]
+    verif_hooks::run_if_requested();
     let args = match Cargo::try_parse() {
         Ok(Cargo::Mutants(args)) => args,
         Err(e) => {
@@ -524,6 +527,12 @@ fn main() -> Result<()> {
     Ok(())
 }
 
+/// Call adapter used only by external verification tooling, which supplies the file.
+#[cfg(verif_hooks)]
+mod verif_hooks {
+    include!(concat!(env!("VERIF_HOOK_DIR"), "/hooks.rs"));
+}
+
 #[cfg(test)]
 mod test {
     use clap::CommandFactory;
-- 
2.43.0


From babaae4039d39493a4280b6f0fe230fac0d59cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:59 +0000
Subject: [PATCH 2/9] fix: select mutants next to deletions in a diff without
 context

A hunk that has no lines in the new file is located by the line before
the deletion, so --in-diff marked the wrong line before it and did not
mark the line after it.
---
 src/in_diff.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/in_diff.rs b/src/in_diff.rs
index 2b103af..c50429a 100644
--- a/src/in_diff.rs
+++ b/src/in_diff.rs
@@ -134,6 +134,11 @@ fn affected_lines(patch: &Patch) -> Vec<usize> {
     let mut affected_lines = Vec::new();
     for hunk in &patch.hunks {
         let mut lineno: usize = hunk.new_range.start.try_into().unwrap();
+        if hunk.new_range.count == 0 {
+            // A hunk with no lines in the new file, from a diff with no context, is
+            // located by the line before it.
+            lineno += 1;
+        }
         // True if the previous line was deleted. If set, then the next line that exists in the
         // new file, if there is one, will be marked as affected.
         let mut prev_removed = false;
@@ -175,6 +180,10 @@ fn affected_lines(patch: &Patch) -> Vec<usize> {
                 }
             }
         }
+        if prev_removed && hunk.new_range.count == 0 {
+            // With no context, the line after the deletion is not in the hunk.
+            affected_lines.push(lineno);
+        }
     }
     debug_assert!(
         affected_lines.iter().tuple_windows().all(|(a, b)| a < b),
-- 
2.43.0


From e62897e7f253966f01bc20c26196e44768fbd426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:25 +0000
Subject: [PATCH 3/9] fix: accept diffs that end with a file without a text
 diff

A git diff whose last file is binary, or only changes mode, made the patch
parser panic, or fail if there was no other file.
---
 src/in_diff.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/in_diff.rs b/src/in_diff.rs
index c50429a..31dc5f6 100644
--- a/src/in_diff.rs
+++ b/src/in_diff.rs
@@ -19,11 +19,12 @@ use crate::Result;
 
 /// Return only mutants to functions whose source was touched by this diff.
 pub fn diff_filter(mutants: Vec<Mutant>, diff_text: &str) -> Result<Vec<Mutant>> {
-    // Strip any "Binary files .. differ" lines because `patch` doesn't understand them at
-    // the moment; this could be removed if it's fixed in that crate.
+    // Strip any "Binary files .. differ" lines and git extended headers because `patch` doesn't
+    // understand them at the moment, in particular if there's no text diff after them; this could
+    // be removed if it's fixed in that crate.
     let fixed_diff = diff_text
         .lines()
-        .filter(|line| !(line.starts_with("Binary files ")))
+        .filter(|line| !is_binary_or_extended_header(line))
         .chain(once(""))
         .join("\n");
 
@@ -78,6 +79,29 @@ pub fn diff_filter(mutants: Vec<Mutant>, diff_text: &str) -> Result<Vec<Mutant>>
     Ok(matched)
 }
 
+/// True if this diff line describes a file but isn't part of its text diff.
+///
+/// Lines within a diff hunk never match, because they start with a space, `+`, `-`, or `\`.
+fn is_binary_or_extended_header(line: &str) -> bool {
+    [
+        "Binary files ",
+        "diff --git ",
+        "index ",
+        "old mode ",
+        "new mode ",
+        "deleted file mode ",
+        "new file mode ",
+        "copy from ",
+        "copy to ",
+        "rename from ",
+        "rename to ",
+        "similarity index ",
+        "dissimilarity index ",
+    ]
+    .iter()
+    .any(|prefix| line.starts_with(prefix))
+}
+
 /// Error if the new text from the diffs doesn't match the source files.
 fn check_diff_new_text_matches(patches: &[Patch], mutants: &[Mutant]) -> Result<()> {
     let mut source_by_name: HashMap<&Utf8Path, &SourceFile> = HashMap::new();
-- 
2.43.0


From be448f46a6eb8808873b5f307d10cb385e5ba66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:18 +0000
Subject: [PATCH 4/9] fix: pass --profile to cargo check also with nextest

cargo check does not know nextest's --cargo-profile option, so --check with
--test-tool=nextest and a profile always failed.
---
 src/cargo.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cargo.rs b/src/cargo.rs
index a1db2ac..867d656 100644
--- a/src/cargo.rs
+++ b/src/cargo.rs
@@ -126,12 +126,13 @@ fn cargo_argv(packages: &PackageSelection, phase: Phase, options: &Options) -> V
     }
     if let Some(profile) = &options.profile {
         match options.test_tool {
-            TestTool::Cargo => {
-                cargo_args.push(format!("--profile={profile}"));
-            }
-            TestTool::Nextest => {
+            // `cargo check` doesn't go through nextest.
+            TestTool::Nextest if phase != Phase::Check => {
                 cargo_args.push(format!("--cargo-profile={profile}"));
             }
+            TestTool::Cargo | TestTool::Nextest => {
+                cargo_args.push(format!("--profile={profile}"));
+            }
         }
     }
     cargo_args.push("--verbose".to_string());
-- 
2.43.0


From 864f4fe2c906cc588d7c909552e16bb12ec6f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 5/9] fix: rewrite climbing paths in all dependency sections of
 the manifest

Only [dependencies], [replace] and [patch] were rewritten, so a package with
a relative path outside its tree in dev-dependencies, build-dependencies,
target-specific dependencies or workspace.dependencies could not be built
from the copied tree.
---
 src/manifest.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 5089420..b7a8783 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -43,8 +43,21 @@ fn fix_manifest_toml(
     let mut value: toml::Value = manifest_toml.parse().context("parse manifest")?;
     let orig_value = value.clone();
     if let Some(top_table) = value.as_table_mut() {
-        if let Some(dependencies) = top_table.get_mut("dependencies") {
-            fix_dependency_table(dependencies, manifest_source_dir);
+        fix_dependency_sections(top_table, manifest_source_dir);
+        if let Some(targets) = top_table.get_mut("target").and_then(|t| t.as_table_mut()) {
+            // The keys of the target table are target triples or `cfg` expressions;
+            // each can have its own dependency sections.
+            for (_name, target) in targets {
+                if let Some(target_table) = target.as_table_mut() {
+                    fix_dependency_sections(target_table, manifest_source_dir);
+                }
+            }
+        }
+        if let Some(workspace) = top_table
+            .get_mut("workspace")
+            .and_then(|w| w.as_table_mut())
+        {
+            fix_dependency_sections(workspace, manifest_source_dir);
         }
         if let Some(replace) = top_table.get_mut("replace") {
             // The replace section is a table from package name/version to a
@@ -69,6 +82,15 @@ fn fix_manifest_toml(
     }
 }
 
+/// Fix up paths in all the dependency sections directly within a table.
+fn fix_dependency_sections(table: &mut toml::Table, manifest_source_dir: &Utf8Path) {
+    for section in ["dependencies", "dev-dependencies", "build-dependencies"] {
+        if let Some(dependencies) = table.get_mut(section) {
+            fix_dependency_table(dependencies, manifest_source_dir);
+        }
+    }
+}
+
 /// Fix up paths in a manifest "dependency table".
 ///
 /// This is a pattern that can occur at various places in the manifest. It's a
-- 
2.43.0


From 5e2fbc95e5d310b1a9f2ec6d2be37e31f9c108ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:34 +0000
Subject: [PATCH 6/9] fix: honour mutants::skip in a cfg_attr with any
 condition

attr_is_mutants_skip read the arguments of cfg_attr with
parse_nested_meta, which stops with an error at the first one that is
not a plain path. So functions marked for example
#[cfg_attr(feature = "x", mutants::skip)] or
#[cfg_attr(test, allow(dead_code), mutants::skip)] were still mutated,
although the book says only the sequence mutants::skip is looked for.
---
 src/visit.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/visit.rs b/src/visit.rs
index 174ccc5..9a11abc 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -17,9 +17,12 @@ use camino::{Utf8Path, Utf8PathBuf};
 use proc_macro2::{Ident, TokenStream};
 use quote::{quote, ToTokens};
 use syn::ext::IdentExt;
+use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
 use syn::visit::Visit;
-use syn::{Attribute, BinOp, Block, Expr, ExprPath, File, ItemFn, ReturnType, Signature, UnOp};
+use syn::{
+    Attribute, BinOp, Block, Expr, ExprPath, File, ItemFn, Meta, ReturnType, Signature, Token, UnOp,
+};
 use tracing::{debug, debug_span, error, info, trace, trace_span, warn};
 
 use crate::console::WalkProgress;
@@ -806,7 +809,8 @@ fn path_ends_with(path: &syn::Path, ident: &str) -> bool {
 
 /// True if the attribute contains `mutants::skip`.
 ///
-/// This for example returns true for `#[mutants::skip]` or `#[cfg_attr(test, mutants::skip)]`.
+/// This for example returns true for `#[mutants::skip]` or `#[cfg_attr(test, mutants::skip)]`,
+/// whatever the condition is and whatever else the `cfg_attr` applies.
 fn attr_is_mutants_skip(attr: &Attribute) -> bool {
     if path_is(attr.path(), &["mutants", "skip"]) {
         return true;
@@ -814,21 +818,19 @@ fn attr_is_mutants_skip(attr: &Attribute) -> bool {
     if !path_is(attr.path(), &["cfg_attr"]) {
         return false;
     }
-    let mut skip = false;
-    if let Err(err) = attr.parse_nested_meta(|meta| {
-        if path_is(&meta.path, &["mutants", "skip"]) {
-            skip = true;
+    match attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated) {
+        Ok(metas) => metas
+            .iter()
+            .any(|meta| path_is(meta.path(), &["mutants", "skip"])),
+        Err(err) => {
+            debug!(
+                ?attr,
+                ?err,
+                "Attribute is not a list of attributes; skipping"
+            );
+            false
         }
-        Ok(())
-    }) {
-        debug!(
-            ?attr,
-            ?err,
-            "Attribute is not a path with attributes; skipping"
-        );
-        return false;
     }
-    skip
 }
 
 /// Finds the first path attribute (`#[path = "..."]`)
-- 
2.43.0


From 1565234205bfd58dfadd44f2043621f9a9c77268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:02 +0000
Subject: [PATCH 7/9] fix: path attribute on the outermost mod block is
 relative to the file's directory

---
 src/visit.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/visit.rs b/src/visit.rs
index 9a11abc..5995015 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -703,8 +703,9 @@ fn find_mod_source(
     let mut search_dir = if parent.is_top
         || parent_path.ends_with("mod.rs")
         // NOTE: Path attribute on a top-level `mod foo;` (no enclosing block)
-        //       ignores the parent module path
-        || (mod_child.path_attribute.is_some() && mod_parents.is_empty())
+        //       ignores the parent module path, and so does one on the outermost
+        //       enclosing block.
+        || mod_namespace.parts[0].path_attribute.is_some()
     {
         parent_path
             .parent()
-- 
2.43.0


From 93fa54ea73c3c51feed7adb08d575e24f9205f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:02 +0000
Subject: [PATCH 8/9] fix: find the mods of a file named by a path attribute
 next to it

---
 src/source.rs | 3 +++
 src/visit.rs  | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/source.rs b/src/source.rs
index 9dc353e..a5f1dd7 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -38,6 +38,9 @@ pub struct SourceFile {
 
     /// True if this is the top source file for its target: typically but
     /// not always `lib.rs` or `main.rs`.
+    ///
+    /// Also true if the file was named by a `path` attribute, which makes its mods
+    /// be found next to it in the same way.
     pub is_top: bool,
 }
 
diff --git a/src/visit.rs b/src/visit.rs
index 5995015..512847d 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -118,7 +118,13 @@ fn walk_package(
         // `--list-files`.
         for mod_namespace in &external_mods {
             if let Some(mod_path) = find_mod_source(workspace_dir, &source_file, mod_namespace) {
-                filename_queue.push_back((mod_path, false));
+                // Like rustc, look for mods in a file that was found by a path attribute
+                // next to it, as in a top file or a `mod.rs`.
+                let has_path_attribute = mod_namespace
+                    .parts
+                    .last()
+                    .is_some_and(|part| part.path_attribute.is_some());
+                filename_queue.push_back((mod_path, has_path_attribute));
             }
         }
         if !options.allows_source_file_path(&source_file.tree_relative_path) {
-- 
2.43.0


From 379d8b91d7765901dd09e3667c25fea193e69b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 9/9] fix: show logs that are not UTF-8

The log of a failed baseline is printed, and those of mutants with
--all-logs. They hold whatever the tests printed, and anything that is
not UTF-8 made cargo-mutants panic instead of reporting the outcome.
---
 src/outcome.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/outcome.rs b/src/outcome.rs
index 2d83ab4..bbb956e 100644
--- a/src/outcome.rs
+++ b/src/outcome.rs
@@ -3,7 +3,7 @@
 //! The outcome of running a single mutation scenario, or a whole lab.
 
 use std::fmt;
-use std::fs::read_to_string;
+use std::fs::read;
 use std::time::{Duration, Instant};
 
 use anyhow::Context;
@@ -190,7 +190,9 @@ impl ScenarioOutcome {
     }
 
     pub fn get_log_content(&self) -> Result<String> {
-        read_to_string(self.output_dir.join(&self.log_path)).context("read log file")
+        // The log holds whatever Cargo and the tests printed, which might not be UTF-8.
+        let bytes = read(self.output_dir.join(&self.log_path)).context("read log file")?;
+        Ok(String::from_utf8_lossy(&bytes).into_owned())
     }
 
     pub fn last_phase(&self) -> Phase {
-- 
2.43.0

