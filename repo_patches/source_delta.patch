From bf1110d0ee3c056a2779474faca09549e4f74700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:35 +0000
Subject: [PATCH 01/18] fix: reject RRDP URIs with empty, '.' or '..' path
 segments

Https URIs are not normalised, so a snapshot or delta URI such as
https://host/rrdp/../../x made krill-sync write outside of its
staging and RRDP directories.
---
 src/rrdp.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index c57166e..5815081 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -657,12 +657,22 @@ impl SourceMappings {
     }
 
     /// Derives the relative path of the given URI versus the base URI.
-    /// Returns an error in case the URI is not relative to the base URI.
+    /// Returns an error in case the URI is not relative to the base URI,
+    /// or if the relative path could resolve outside of a base directory.
     pub fn relative(&self, uri: &Https) -> Result<String> {
-        uri.as_str()
+        let relative = uri
+            .as_str()
             .strip_prefix(self.base_uri.as_str())
-            .ok_or_else(|| anyhow!("Uri {} not relative to base uri: {}", uri, self.base_uri))
-            .map(|s| s.to_string())
+            .ok_or_else(|| anyhow!("Uri {} not relative to base uri: {}", uri, self.base_uri))?;
+
+        if relative
+            .split('/')
+            .any(|segment| matches!(segment, "" | "." | ".."))
+        {
+            return Err(anyhow!("Uri {} contains an illegal path segment", uri));
+        }
+
+        Ok(relative.to_string())
     }
 
     /// Resolve the given relative path under the base URI.
-- 
2.43.0


From 76bc0ccb31e5ea50d5dac69087ef9fa1fee987ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:08 +0000
Subject: [PATCH 02/18] fix: reject '.' and '..' as rsync host or module when
 writing objects

With --rsync-include-host an object URI such as rsync://../../x was
written outside of the directory of the new rsync revision.
---
 src/rsync.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index c34748e..3de9c69 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -4,7 +4,7 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use anyhow::{Context, Result};
+use anyhow::{anyhow, Context, Result};
 
 use filetime::{set_file_mtime, FileTime};
 use log::{error, info, warn};
@@ -303,6 +303,14 @@ impl ProcessSnapshot for RsyncFromSnapshotWriter {
         data: &mut rpki::rrdp::ObjectReader,
     ) -> Result<()> {
         let path = if self.include_host_and_module {
+            // The path of an rsync URI never contains '.' or '..' segments,
+            // but this is not checked for its host and module.
+            if [uri.authority(), uri.module_name()]
+                .iter()
+                .any(|segment| matches!(*segment, "." | ".."))
+            {
+                return Err(anyhow!("Illegal host or module in uri: {}", uri));
+            }
             self.out_path.join(format!(
                 "{}/{}/{}",
                 uri.authority(),
-- 
2.43.0


From f3b0bf28ae4d06c6cfcc4bb9d2f1d6fc3b28dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:30 +0000
Subject: [PATCH 03/18] fix: clean up RRDP files only after the new
 notification file is in place

Files were removed before the notification file that still listed them
was replaced, so with a short --cleanup-after (or a notify delay) clients
were pointed to files which no longer existed.
---
 src/process.rs | 12 ++++++++++--
 src/rrdp.rs    |  6 ------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 2790ad8..da0fc73 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -105,8 +105,6 @@ pub fn process(config: &Config) -> Result<()> {
     // - updates the RrdpState with new content,
     // - deprecate old files
     // - move new snapshot and deltas to the target RRDP dir
-    // - clean up old files, deprecated for the configured time
-    // - move new notification file to the target RRDP dir
     rrdp_state.apply_staged_changed(staged, config)?;
 
     // ===================================================================
@@ -141,6 +139,16 @@ pub fn process(config: &Config) -> Result<()> {
     // ===================================================================
     rrdp_state.write_notification(config.rrdp_notify_delay)?;
 
+    // ===================================================================
+    // Clean up old RRDP files
+    // ===================================================================
+    //
+    // Clean up any RRDP files and empty parent directories if they had been
+    // deprecated for more than the configured 'cleanup_after' time. This must
+    // not be done before the notification file is updated, because up to then
+    // files which are no longer current may still be listed in it.
+    rrdp_state.clean(config)?;
+
     // ===================================================================
     // Persist state
     // ===================================================================
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 5815081..ac04eaa 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -328,8 +328,6 @@ impl RrdpState {
     /// - updates the RrdpState with new content
     /// - deprecate old files
     /// - move new snapshot and deltas to the target RRDP dir
-    /// - clean up old files, deprecated for the configured time
-    /// - move new notification file to the target RRDP dir
     pub fn apply_staged_changed(
         &mut self,
         mut staged: StagedChanges,
@@ -369,10 +367,6 @@ impl RrdpState {
         self.deltas.sort_by_key(|d| d.serial());
         self.deltas.reverse();
 
-        // Clean up any RRDP files and empty parent directories if they had been
-        // deprecated for more than the configured 'cleanup_after' time.
-        self.clean(config)?;
-
         Ok(())
     }
 
-- 
2.43.0


From db07ca8a096a269e7f81e1c65ac23b47e0a20cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:31 +0000
Subject: [PATCH 04/18] fix: do not clean up RRDP files which are listed again

If a source uses the same URI for a later snapshot or delta, then the
file stayed on the list of deprecated files, and was removed later
although the current notification file lists it.
---
 src/rrdp.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index ac04eaa..e5f671a 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -367,6 +367,15 @@ impl RrdpState {
         self.deltas.sort_by_key(|d| d.serial());
         self.deltas.reverse();
 
+        // make sure that files which are now listed (again) are not cleaned up
+        let mut listed: Vec<PathBuf> = self
+            .deltas
+            .iter()
+            .map(|d| self.mappings.path(d.rel_path()))
+            .collect();
+        listed.extend(self.snapshot_path());
+        self.deprecated_files.retain(|d| !listed.contains(&d.path));
+
         Ok(())
     }
 
-- 
2.43.0


From 9b15f5d8d513457be9392161c52683699972a1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:48 +0000
Subject: [PATCH 05/18] fix: replace state files atomically

The state files were truncated and rewritten in place. If that was
interrupted, all following runs failed because the state could not be
parsed.
---
 src/file_ops.rs | 17 +++++++++++++++++
 src/rrdp.rs     |  2 +-
 src/rsync.rs    |  3 ++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 3ea154c..ced2a72 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -8,6 +8,8 @@ use anyhow::{anyhow, Context, Result};
 use bytes::Bytes;
 use log::trace;
 
+use crate::config;
+
 pub fn write_buf(file_path: &Path, buf: &[u8]) -> Result<()> {
     create_file(file_path)?
         .write_all(buf)
@@ -16,6 +18,21 @@ pub fn write_buf(file_path: &Path, buf: &[u8]) -> Result<()> {
     Ok(())
 }
 
+/// Writes to a temporary file first, and then renames it, so that there is
+/// always a complete file, even if this gets interrupted.
+pub fn write_buf_atomic(file_path: &Path, buf: &[u8]) -> Result<()> {
+    let tmp_path = path_with_extension(file_path, config::TMP_FILE_EXT);
+    write_buf(&tmp_path, buf)?;
+
+    std::fs::rename(&tmp_path, file_path).with_context(|| {
+        format!(
+            "Cannot rename {} to {}",
+            tmp_path.display(),
+            file_path.display()
+        )
+    })
+}
+
 /// Create an empty file for a path
 pub fn create_file(file_path: &Path) -> Result<std::fs::File> {
     create_path_for_file(file_path)?;
diff --git a/src/rrdp.rs b/src/rrdp.rs
index e5f671a..a35810e 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -409,7 +409,7 @@ impl RrdpState {
         debug!("Saving RRDP state to disk");
         let json = serde_json::to_string_pretty(&self)?;
 
-        file_ops::write_buf(path, json.as_bytes())
+        file_ops::write_buf_atomic(path, json.as_bytes())
             .with_context(|| format!("Could not save state to {}.", path.display()))
     }
 
diff --git a/src/rsync.rs b/src/rsync.rs
index 3de9c69..8926434 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -179,7 +179,8 @@ impl RsyncDirState {
     fn persist(&self, config: &Config) -> Result<()> {
         let state_path = config.rsync_state_path();
         let json = serde_json::to_string_pretty(&self)?;
-        file_ops::write_buf(&state_path, json.as_bytes()).with_context(|| "Could not save state.")
+        file_ops::write_buf_atomic(&state_path, json.as_bytes())
+            .with_context(|| "Could not save state.")
     }
 
     /// Updates the current revision for this state, moves a possible
-- 
2.43.0


From eb7c54da12e249e241db2cbdeaa57daef71414ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:49 +0000
Subject: [PATCH 06/18] fix: remove a dangling temporary symlink for the rsync
 directory

A lingering temporary symlink to a revision that was removed since was
not seen, after which creating the symlink failed on every run.
---
 src/rsync.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index 8926434..7f30fe7 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -74,7 +74,8 @@ fn symlink_current_to_new_revision_dir(
     let current_path = config.rsync_dir_current();
 
     let tmp_name = file_ops::path_with_extension(&current_path, config::TMP_FILE_EXT);
-    if tmp_name.exists() {
+    // note: exists() would follow the symlink, and miss it if it is dangling
+    if tmp_name.symlink_metadata().is_ok() {
         std::fs::remove_file(&tmp_name).with_context(|| {
             format!(
                 "Could not remove lingering temporary symlink for current rsync dir at '{}'",
-- 
2.43.0


From 25e58d59cc25a333f66181ceb8a3ee2799b90355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:51 +0000
Subject: [PATCH 07/18] fix: never list the current rsync revision as old

If a run was interrupted after the rsync step, then the next run for the
same revision put it on the list of old revisions, and the directory that
'current' refers to was removed after the cleanup time.
---
 src/rsync.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index 7f30fe7..a9407f1 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -186,10 +186,18 @@ impl RsyncDirState {
 
     /// Updates the current revision for this state, moves a possible
     /// existing current state to old.
+    ///
+    /// Note that the revision may have been seen before, in case a previous run
+    /// was interrupted, or the source reverted to an earlier session. Make sure
+    /// that it is not seen as old, as it would then be cleaned while current.
     fn update_current(&mut self, current: RsyncRevision) {
+        self.old.retain(|old| old.revision != current);
+
         let existing = std::mem::replace(&mut self.current, Some(current));
         if let Some(existing) = existing {
-            self.old.push(existing.deprecate());
+            if self.current.as_ref() != Some(&existing) {
+                self.old.push(existing.deprecate());
+            }
         }
     }
 
-- 
2.43.0


From 274589bb62ace54b68036a94016b1c9e9083aeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 08/18] fix: do not write to the rsync directory that is
 current

If a run was interrupted after the rsync step, then the next run for the
same revision truncated and rewrote all files in the directory that
'current' refers to.
---
 src/rsync.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rsync.rs b/src/rsync.rs
index a9407f1..3c8ce7d 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -38,6 +38,14 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
 
     let new_revision = RsyncRevision { session_id, serial };
 
+    // The current directory must not be changed. If a previous run was interrupted
+    // after it switched to this revision, then only the state needs an update.
+    if new_revision.is_current(config) {
+        rsync_state.update_current(new_revision);
+        rsync_state.clean_old(config)?;
+        return rsync_state.persist(config);
+    }
+
     let mut writer = RsyncFromSnapshotWriter {
         out_path: new_revision.path(config),
         include_host_and_module: config.rsync_include_host,
@@ -254,6 +262,13 @@ impl RsyncRevision {
         config.rsync_dir.join(self.dir_name())
     }
 
+    /// Returns whether the current symlink refers to this revision.
+    fn is_current(&self, config: &Config) -> bool {
+        std::fs::read_link(config.rsync_dir_current())
+            .map(|target| target == Path::new(&self.dir_name()))
+            .unwrap_or(false)
+    }
+
     fn deprecate(self) -> DeprecatedRsyncRevision {
         DeprecatedRsyncRevision {
             since: Time::now(),
-- 
2.43.0


From 62722c29ff6415cb4cbb5e27f2091b7fc2835d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:33 +0000
Subject: [PATCH 09/18] fix: validate against the announced serial after
 applying deltas

If the deltas of a repository stop before the serial of its notification
file, then validation used the older data as if it was the latest.
---
 src/validation/validator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 27ceafe..c9be11e 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -742,6 +742,14 @@ impl VisitedRepositories {
             }
         }
 
+        if data.serial != notification.serial() {
+            return Err(anyhow!(
+                "deltas lead to serial {}, but expected {}",
+                data.serial,
+                notification.serial()
+            ));
+        }
+
         data.etag = etag;
         data.last_fetch = when;
         data.fetched = true;
-- 
2.43.0


From 6be5e9769525cb3365a86d09954cdfbf18211930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 10/18] fix: always read the staged notification file before
 validation

If the repository was last updated within the hour, then validation
ignored the staged update and used the data of an earlier run instead.
---
 src/validation/validator.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index c9be11e..c1bd6a9 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -69,7 +69,7 @@ impl Validator {
     /// running in offline mode.
     pub fn initialise_staging_data(&mut self, notify_uri: &uri::Https) -> Result<()> {
         self.repositories
-            .get_latest(notify_uri, false, Time::now())?;
+            .get_latest(notify_uri, false, true, Time::now())?;
         Ok(())
     }
 
@@ -142,7 +142,10 @@ impl Validator {
                 }
             };
 
-            let data = match self.repositories.get_latest(sia_rrdp, offline, when) {
+            let data = match self
+                .repositories
+                .get_latest(sia_rrdp, offline, false, when)
+            {
                 Ok(data) => data,
                 Err(e) => {
                     ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
@@ -524,11 +527,13 @@ impl VisitedRepositories {
     /// Gets the latest data for the given notify_uri.
     ///
     /// Will update local data if needed, or return existing data if
-    /// no update was needed.
+    /// no update was needed. If `force` is set then an update is never
+    /// skipped because of when the data was last updated.
     fn get_latest(
         &mut self,
         notify_uri: &uri::Https,
         offline: bool,
+        force: bool,
         when: Time,
     ) -> Result<&RepositoryData> {
         let fetcher = self.get_fetcher(notify_uri);
@@ -565,7 +570,7 @@ impl VisitedRepositories {
                 } else if offline {
                     debug!("Use cached data for {notify_uri} in offline validation mode.");
                     repo_data.fetched = true;
-                } else if repo_data.last_fetch > Time::now() - Duration::minutes(60) {
+                } else if !force && repo_data.last_fetch > Time::now() - Duration::minutes(60) {
                     debug!("Won't check {notify_uri} in this run. It was updated recently.");
                     repo_data.fetched = true;
                 } else {
-- 
2.43.0


From aa5f6ca2bd6ee0429dd99358d045d4e02d5a6cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:16 +0000
Subject: [PATCH 11/18] fix: report revoked router certificates

Router certificates were accepted without a check against the CRL.
---
 src/validation/validator.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index c1bd6a9..38b7cbe 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -389,8 +389,15 @@ impl Validator {
                                     }
                                 } else {
                                     // This should be a BGPSec router (EE) certificate
+                                    let revoked = crl.contains(child_cert.serial_number());
                                     match child_cert.validate_router_at(resource_cert, strict, when)
                                     {
+                                        Ok(_) if revoked => {
+                                            ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                                uri,
+                                                "router certificate was revoked",
+                                            ));
+                                        }
                                         Ok(_) => {
                                             ca_cert.add_router_cert(ValidatedRouterCert::new(uri))
                                         }
-- 
2.43.0


From 13ca2b3f47b5666401e17d57c17101f5a6292b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 12/18] fix: report stale manifests

A manifest was accepted after its next update time as long as its EE
certificate was still valid, contrary to what is done for CRLs.
---
 src/validation/validator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 38b7cbe..4f3314d 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -194,6 +194,15 @@ impl Validator {
                 }
             };
 
+            if content.next_update() < when {
+                ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                    mft_uri_string,
+                    "Manifest is stale",
+                ));
+                report.add_cert(ca_cert);
+                return report;
+            }
+
             #[allow(clippy::mutable_key_type)]
             let mut mft_entries: HashMap<_, _> = content
                 .iter_uris(sia_ca)
-- 
2.43.0


From 57384529f5780e72fea7e4f0a4ed0bdbf0756974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 13/18] fix: limit the depth of CA certificates in validation

A CA which certifies its own key, or CAs that certify each other, made
validation recurse until the stack overflowed.
---
 src/validation/validator.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 4f3314d..cf25473 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -22,6 +22,10 @@ use super::{
     ValidatedChild, ValidatedRoa, ValidatedRouterCert, ValidationIssue, ValidationReport,
 };
 
+/// The maximum number of CA certificates between a trust anchor and any CA
+/// that is validated.
+const MAX_CA_DEPTH: usize = 12;
+
 #[derive(Debug, Deserialize, Serialize)]
 pub struct Validator {
     tals: Vec<Tal>,
@@ -99,7 +103,7 @@ impl Validator {
         let info = ValidatedCaCertInfo::try_from(&ta_cert)
             .map_err(|e| anyhow!(format!("Invalid TA certificate: {e}")))?;
 
-        Ok(self.validate_tree_at(&ta_cert, &info, offline, when))
+        Ok(self.validate_tree_at(&ta_cert, &info, offline, when, 0))
     }
 
     fn validate_tree_at(
@@ -108,6 +112,7 @@ impl Validator {
         ca_cert_info: &ValidatedCaCertInfo,
         offline: bool,
         when: Time,
+        depth: usize,
     ) -> ValidationReport {
         trace!(
             "Validate CA with SIA: {} and RRDP: {}",
@@ -130,6 +135,16 @@ impl Validator {
             let mft_uri = &ca_cert_info.sia_mft;
             let sia_ca = &ca_cert_info.sia_ca;
 
+            // CAs could certify themselves, or each other.
+            if depth > MAX_CA_DEPTH {
+                ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                    sia_ca.into(),
+                    "CA certificates are nested too deeply",
+                ));
+                report.add_cert(ca_cert);
+                return report;
+            }
+
             let sia_rrdp = match &ca_cert.ca_cert_info.sia_rrdp {
                 Some(uri) => uri,
                 None => {
@@ -474,7 +489,7 @@ impl Validator {
 
         // recurse child certificates
         for (cert, info) in child_certificates {
-            report.add_other(self.validate_tree_at(&cert, &info, offline, when));
+            report.add_other(self.validate_tree_at(&cert, &info, offline, when, depth + 1));
         }
 
         report
-- 
2.43.0


From 6d76abc2dce0a29f95a8a883ec7c2cd68cc15321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:45 +0000
Subject: [PATCH 14/18] fix: fail if no content was retrieved for a file

An unsolicited 304 response was taken as success, so that a file left in
the staging directory which does not match its hash was published.
---
 src/fetch.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fetch.rs b/src/fetch.rs
index 70e35c4..f91c3f6 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -318,11 +318,14 @@ impl Fetcher {
             }
         }
         let source = self.resolve_source(uri)?;
-        source
+        let response = source
             .fetch(Some(hash), None, Some(target))
             .map_err(|e| anyhow!("Could not read snapshot: {}", e))?;
 
-        Ok(())
+        match response {
+            FetchResponse::Saved => Ok(()),
+            _ => Err(anyhow!("No content was retrieved for uri: {}", uri)),
+        }
     }
 
     pub fn resolve_source(&self, uri: &uri::Https) -> Result<FetchSource> {
-- 
2.43.0


From 59d62433014a7a124b5b5e9e90fd4560c26f5191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 15/18] fix: move files to the directory of the notification
 file

The saved state has the RRDP directory for the notification file, but the
files it lists were moved to the configured directory. If --rrdp-dir was
changed the listed files were missing.
---
 src/rrdp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index a35810e..7d59faa 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -335,7 +335,7 @@ impl RrdpState {
     ) -> Result<()> {
         // Move new snapshot and delta files.
         let staging_base_dir = config.staging_dir();
-        let target_base_dir = &config.rrdp_dir;
+        let target_base_dir = &self.mappings.rrdp_dir;
 
         file_ops::move_file(
             &staging_base_dir,
-- 
2.43.0


From 7a84888f2e880e7e89791db2e456e058c2ba06cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 16/18] fix: only publish snapshots and deltas that can be
 parsed

Contrary to the documentation, deltas were never parsed, and snapshots
only if rsync is enabled. Their session and serial were never compared
with the notification file.
---
 src/rrdp.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 7d59faa..0666081 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -497,6 +497,18 @@ impl RrdpState {
         let target = config.staging_path(&relative_name);
         fetcher.retrieve_file(snapshot_info.uri(), snapshot_info.hash(), &target)?;
 
+        let bytes = file_ops::read_file(&target)?;
+        let snapshot = rrdp::Snapshot::parse(bytes.as_ref())
+            .with_context(|| format!("Cannot parse snapshot: {}", snapshot_info.uri()))?;
+        if snapshot.session_id() != notification.session_id()
+            || snapshot.serial() != notification.serial()
+        {
+            return Err(anyhow!(
+                "Snapshot {} does not have the announced session and serial",
+                snapshot_info.uri()
+            ));
+        }
+
         let rel_path = self.mappings.relative(snapshot_info.uri())?;
 
         Ok(SnapshotState::create(
@@ -552,6 +564,15 @@ impl RrdpState {
 
                 fetcher.retrieve_file(uri, hash, &target)?;
 
+                let bytes = file_ops::read_file(&target)?;
+                let parsed = rrdp::Delta::parse(bytes.as_ref())
+                    .with_context(|| format!("Cannot parse delta: {uri}"))?;
+                if parsed.session_id() != notification.session_id() || parsed.serial() != serial {
+                    return Err(anyhow!(
+                        "Delta {uri} does not have the announced session and serial"
+                    ));
+                }
+
                 let rel_path = self.mappings.relative(uri)?;
 
                 new_deltas.push(DeltaState::create(serial, hash, rel_path));
-- 
2.43.0


From a18774ed82734f2e6f25812a2bffbb59f870cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:50 +0000
Subject: [PATCH 17/18] fix: do not panic if the maximum number of deltas is
 zero

The rpki library panics if it is asked to retain no deltas at all.
---
 src/rrdp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 0666081..ec0ada7 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -103,6 +103,16 @@ impl RrdpState {
                 Ok(None)
             }
             Some((mut notification_file, notification_etag)) => {
+                if limit == Some(0) {
+                    // sort_and_verify_deltas() does not support this
+                    notification_file = NotificationFile::new(
+                        notification_file.session_id(),
+                        notification_file.serial(),
+                        notification_file.snapshot().clone(),
+                        vec![],
+                    );
+                }
+
                 if !notification_file.sort_and_verify_deltas(limit) {
                     return Err(anyhow!("Notification file contained gaps in deltas"));
                 }
-- 
2.43.0


From 1d08f943efa0b4db0699b8441df3a5bad22c7da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:29 +0000
Subject: [PATCH 18/18] fix: refuse source files that would overwrite the
 notification file

A source could announce a snapshot or delta under the name of the
notification file, or of the temporary file used to write it. The file
would then replace the staged and the published notification file.
---
 src/rrdp.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index ec0ada7..62bf4b9 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -503,7 +503,7 @@ impl RrdpState {
         config: &Config,
     ) -> Result<SnapshotState> {
         let snapshot_info = notification.snapshot();
-        let relative_name = self.mappings.relative(snapshot_info.uri())?;
+        let relative_name = self.relative(snapshot_info.uri())?;
         let target = config.staging_path(&relative_name);
         fetcher.retrieve_file(snapshot_info.uri(), snapshot_info.hash(), &target)?;
 
@@ -529,6 +529,20 @@ impl RrdpState {
         ))
     }
 
+    /// Derives the relative path of a snapshot or delta URI announced by the source.
+    /// Returns an error if the file would end up in place of the notification file.
+    fn relative(&self, uri: &Https) -> Result<String> {
+        let relative = self.mappings.relative(uri)?;
+
+        if relative == self.notification_source.name()
+            || relative == self.notification_source.tmp_name()
+        {
+            return Err(anyhow!("Uri {} conflicts with the notification file", uri));
+        }
+
+        Ok(relative)
+    }
+
     pub fn snapshot_path(&self) -> Option<PathBuf> {
         self.snapshot
             .as_ref()
@@ -569,7 +583,7 @@ impl RrdpState {
                 let uri = delta.uri();
                 let hash = delta.hash();
 
-                let relative_path = self.mappings.relative(uri)?;
+                let relative_path = self.relative(uri)?;
                 let target = config.staging_path(&relative_path);
 
                 fetcher.retrieve_file(uri, hash, &target)?;
-- 
2.43.0

