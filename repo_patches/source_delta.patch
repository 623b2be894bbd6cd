From df4f5847f2201f3ad3772b3f4e78d6797a50eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 01/50] fix: recover from an interrupted creation of the
 storage id file

The id was written without being synchronized, so a power loss could leave
an empty file behind and every later open panicked.
---
 crates/bonsaidb-local/src/storage.rs | 33 +++++++++++++++-------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 18ae5bb..9f01aa0 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1,7 +1,7 @@
 use std::borrow::Cow;
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display};
-use std::fs::{self, File};
+use std::fs::{self, File, OpenOptions};
 use std::io::{Read, Write};
 use std::marker::PhantomData;
 use std::path::{Path, PathBuf};
@@ -401,26 +401,29 @@ impl Storage {
             // Load/Store a randomly generated id into a file. While the value
             // is numerical, the file contents are the ascii decimal, making it
             // easier for a human to view, and if needed, edit.
-
-            if id_path.exists() {
+            let mut file = OpenOptions::new()
+                .read(true)
+                .write(true)
+                .create(true)
+                .open(id_path)?;
+            file.lock_exclusive()?;
+            let mut bytes = Vec::new();
+            file.read_to_end(&mut bytes)?;
+            if bytes.is_empty() {
+                // Either the file was just created, or the process was
+                // interrupted before the id reached the disk. Nothing can have
+                // been stored using the id before it has been synchronized.
+                let id = { thread_rng().gen::<u64>() };
+                file.write_all(id.to_string().as_bytes())?;
+                file.sync_all()?;
+                (id, file)
+            } else {
                 // This value is important enought to not allow launching the
                 // server if the file can't be read or contains unexpected data.
-                let mut file = File::open(id_path)?;
-                file.lock_exclusive()?;
-                let mut bytes = Vec::new();
-                file.read_to_end(&mut bytes)?;
                 let existing_id =
                     String::from_utf8(bytes).expect("server-id contains invalid data");
 
                 (existing_id.parse().expect("server-id isn't numeric"), file)
-            } else {
-                let id = { thread_rng().gen::<u64>() };
-                let mut file = File::create(id_path)?;
-                file.lock_exclusive()?;
-
-                file.write_all(id.to_string().as_bytes())?;
-
-                (id, file)
             }
         };
         Ok(StorageLock::new(StorageId(id), file))
-- 
2.43.0


From 665ec5640122a236ed5eb2645ee7499cdf9efdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 02/50] fix: write the vault key and the master keys durably

An interrupted initialization could leave a partial master-keys or vault key
file behind, after which the storage could not be opened again.
---
 crates/bonsaidb-local/src/vault.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-local/src/vault.rs b/crates/bonsaidb-local/src/vault.rs
index fa3dc2d..652f688 100644
--- a/crates/bonsaidb-local/src/vault.rs
+++ b/crates/bonsaidb-local/src/vault.rs
@@ -253,8 +253,15 @@ impl Vault {
                 tag,
             })?;
 
-            File::create(master_keys_path)
-                .and_then(move |mut file| file.write_all(&encrypted_master_keys_payload))
+            // The file must never be observed partially written, because the
+            // vault can't be opened without it.
+            let temporary_path = master_keys_path.with_extension("tmp");
+            File::create(&temporary_path)
+                .and_then(|mut file| {
+                    file.write_all(&encrypted_master_keys_payload)?;
+                    file.sync_all()
+                })
+                .and_then(|()| fs::rename(&temporary_path, master_keys_path))
                 .map_err(|err| Error::Initializing(format!("error saving vault key: {err:?}")))?;
 
             Ok(Self {
@@ -593,7 +600,10 @@ impl VaultKeyStorage for LocalVaultKeyStorage {
     fn set_vault_key_for(&self, server_id: StorageId, key: KeyPair) -> Result<(), Self::Error> {
         let server_file = self.directory.join(server_id.to_string());
         let bytes = bincode::serialize(&key)?;
-        File::create(server_file).and_then(|mut file| file.write_all(&bytes))?;
+        File::create(server_file).and_then(|mut file| {
+            file.write_all(&bytes)?;
+            file.sync_all()
+        })?;
         Ok(())
     }
 }
-- 
2.43.0


From 423e495578497be2a1a74cc267747b3246975f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 03/50] fix: report an error when the vault can't be unsealed
 with the key

Opening a storage with another vault key panicked.
---
 crates/bonsaidb-local/src/vault.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crates/bonsaidb-local/src/vault.rs b/crates/bonsaidb-local/src/vault.rs
index 652f688..8561981 100644
--- a/crates/bonsaidb-local/src/vault.rs
+++ b/crates/bonsaidb-local/src/vault.rs
@@ -300,17 +300,13 @@ impl Vault {
                             private,
                             &encrypted_master_keys.encapsulated_key,
                             b"",
-                        )
-                        .unwrap();
+                        )?;
 
-                    decryption_context
-                        .open_in_place_detached(
-                            &mut encrypted_master_keys.payload.0,
-                            b"",
-                            &AeadTag::<ChaCha20Poly1305>::from_bytes(&encrypted_master_keys.tag)
-                                .unwrap(),
-                        )
-                        .unwrap();
+                    decryption_context.open_in_place_detached(
+                        &mut encrypted_master_keys.payload.0,
+                        b"",
+                        &AeadTag::<ChaCha20Poly1305>::from_bytes(&encrypted_master_keys.tag)?,
+                    )?;
 
                     bincode::deserialize::<HashMap<u32, EncryptionKey>>(
                         &encrypted_master_keys.payload,
-- 
2.43.0


From 56dd19b038c575d661c6f278f797459bc317689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 04/50] fix: compact trees within the job that compacts their
 collection

The job queued a job per tree and blocked its worker until they were done.
With a single worker, or several compactions at once, no worker was left to
execute them and compaction never finished.
---
 crates/bonsaidb-local/src/tasks.rs           |  9 ---------
 crates/bonsaidb-local/src/tasks/compactor.rs | 20 +++++---------------
 2 files changed, 5 insertions(+), 24 deletions(-)

diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index daa6cdc..23547c0 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -195,15 +195,6 @@ impl TaskManager {
         }
     }
 
-    pub fn spawn_compact_target(
-        &self,
-        database: Database,
-        target: compactor::Target,
-    ) -> Handle<(), Error> {
-        self.jobs
-            .lookup_or_enqueue(Compactor::target(database, target))
-    }
-
     pub fn compact_collection(
         &self,
         database: Database,
diff --git a/crates/bonsaidb-local/src/tasks/compactor.rs b/crates/bonsaidb-local/src/tasks/compactor.rs
index 8afeeb0..e6528e7 100644
--- a/crates/bonsaidb-local/src/tasks/compactor.rs
+++ b/crates/bonsaidb-local/src/tasks/compactor.rs
@@ -1,6 +1,5 @@
 use std::borrow::Cow;
 
-use bonsaidb_core::connection::Connection;
 use bonsaidb_core::schema::CollectionName;
 use nebari::tree::{Root, Unversioned, Versioned};
 
@@ -116,20 +115,11 @@ fn gather_collection_trees(
 }
 
 fn compact_trees(database: &Database, targets: Vec<Target>) -> Result<(), Error> {
-    // Enqueue all the jobs
-    let handles = targets
-        .into_iter()
-        .map(|target| {
-            database
-                .storage()
-                .instance
-                .tasks()
-                .spawn_compact_target(database.clone(), target)
-        })
-        .collect::<Vec<_>>();
-    // Wait for them to finish.
-    for handle in handles {
-        handle.receive()??;
+    // The trees are compacted by the worker executing this job. Enqueuing a job
+    // for each tree and waiting for it would block forever once every worker is
+    // waiting for jobs that no worker is left to execute.
+    for target in targets {
+        target.compact(database)?;
     }
     Ok(())
 }
-- 
2.43.0


From 2135b06022c1b39dc22075f632a9994812d3cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 05/50] fix: delete each document once when deleting by view

Documents mapped several times within the range were deleted several times,
which failed the whole transaction.
---
 crates/bonsaidb-local/src/database.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 0456cc2..8372977 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1611,9 +1611,14 @@ impl LowLevelConnection for Database {
         let view = self.data.schema.view_by_name(view)?;
         let collection = view.collection();
         let mut transaction = Transaction::default();
+        // A document can be mapped several times, but it can only be deleted
+        // once.
+        let mut deleted_ids = HashSet::new();
         self.for_each_in_view(view, key, Sort::Ascending, None, access_policy, |entry| {
             for mapping in entry.mappings {
-                transaction.push(Operation::delete(collection.clone(), mapping.source));
+                if deleted_ids.insert(mapping.source.id.clone()) {
+                    transaction.push(Operation::delete(collection.clone(), mapping.source));
+                }
             }
 
             Ok(())
-- 
2.43.0


From 0d8f02a96006fb9ff5fe3baaf78a0fe8dd6c8fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 06/50] fix: don't count deleted documents against the limit of
 a list

Deleted documents remain in the index of a collection. Listing documents or
headers with a limit counted them, returning fewer documents than requested
or none although more exist.
---
 crates/bonsaidb-local/src/database.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 8372977..a317b62 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1259,7 +1259,12 @@ impl LowLevelConnection for Database {
                 Sort::Descending => false,
             },
             |_, _, _| ScanEvaluation::ReadData,
-            |_, _| {
+            |_, index| {
+                if index.position == 0 {
+                    // Deleted documents remain in the index, but have no data.
+                    return ScanEvaluation::Skip;
+                }
+
                 if let Some(limit) = limit {
                     if keys_read >= limit {
                         return ScanEvaluation::Stop;
@@ -1322,7 +1327,12 @@ impl LowLevelConnection for Database {
                 Sort::Descending => false,
             },
             |_, _, _| ScanEvaluation::ReadData,
-            |_, _| {
+            |_, index| {
+                if index.position == 0 {
+                    // Deleted documents remain in the index, but have no data.
+                    return ScanEvaluation::Skip;
+                }
+
                 if let Some(limit) = limit {
                     if keys_read >= limit {
                         return ScanEvaluation::Stop;
-- 
2.43.0


From 217ae0bafa6c3ab0d4c87bb5901e98619d73550f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 07/50] fix: read the invalidated documents of a view while its
 trees are locked

The mapper read the id of the last transaction and the list of invalidated
documents before locking the view's trees. A transaction that was logged but
not yet published was counted as mapped, and queries kept returning the view
without it until another transaction was applied.
---
 crates/bonsaidb-local/src/views/mapper.rs | 55 +++++++++++++----------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index 98360b3..01a81b9 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -73,21 +73,13 @@ impl Job for Mapper {
                     view_invalidated_docs_tree_name(&self.map.view_name),
                 )?)?;
 
-        let transaction_id = self
-            .database
-            .last_transaction_id()?
-            .expect("no way to have documents without a transaction");
-
-        let storage = self.database.clone();
-        let map_request = self.map.clone();
-
-        map_view(
+        let transaction_id = map_view(
             &invalidated_entries,
             &document_map,
             &documents,
             &view_entries,
-            &storage,
-            &map_request,
+            &self.database,
+            &self.map,
         )?;
 
         self.database.storage.instance.tasks().mark_view_updated(
@@ -101,6 +93,8 @@ impl Job for Mapper {
     }
 }
 
+/// Maps all invalidated documents, and returns the id of the last transaction
+/// that is reflected in the view.
 fn map_view(
     invalidated_entries: &Tree<Unversioned, AnyFile>,
     document_map: &Tree<Unversioned, AnyFile>,
@@ -108,15 +102,9 @@ fn map_view(
     view_entries: &Tree<Unversioned, AnyFile>,
     database: &Database,
     map_request: &Map,
-) -> Result<(), Error> {
+) -> Result<u64, Error> {
     const CHUNK_SIZE: usize = 100_000;
-    // Only do any work if there are invalidated documents to process
-    let mut invalidated_ids = invalidated_entries
-        .get_range(&(..))?
-        .into_iter()
-        .map(|(key, _)| key)
-        .collect::<Vec<_>>();
-    while !invalidated_ids.is_empty() {
+    loop {
         let transaction = database
             .roots()
             .transaction::<_, dyn AnyTreeRoot<AnyFile>>(&[
@@ -125,6 +113,26 @@ fn map_view(
                 Box::new(documents.clone()),
                 Box::new(view_entries.clone()),
             ])?;
+        // A transaction is added to the log before its changes can be read. Both
+        // the transaction id and the list of invalidated documents must be read
+        // while the trees are locked, or a logged transaction whose documents
+        // aren't listed yet would be considered to be mapped.
+        let transaction_id = database
+            .last_transaction_id()?
+            .expect("no way to have documents without a transaction");
+        let mut document_ids = transaction
+            .tree::<Unversioned>(0)
+            .unwrap()
+            .get_range(&(..))?
+            .into_iter()
+            .map(|(key, _)| key)
+            .collect::<Vec<_>>();
+        if document_ids.is_empty() {
+            return Ok(transaction_id);
+        }
+
+        let unmapped_documents = document_ids.len().saturating_sub(CHUNK_SIZE);
+        let document_ids = document_ids.split_off(unmapped_documents);
         {
             let view = database
                 .data
@@ -132,9 +140,6 @@ fn map_view(
                 .view_by_name(&map_request.view_name)
                 .unwrap();
 
-            let document_ids = invalidated_ids
-                .drain(invalidated_ids.len().saturating_sub(CHUNK_SIZE)..)
-                .collect::<Vec<_>>();
             let document_map = transaction.unlocked_tree(1).unwrap();
             let documents = transaction.unlocked_tree(2).unwrap();
             let view_entries = transaction.unlocked_tree(3).unwrap();
@@ -153,9 +158,11 @@ fn map_view(
             invalidated_entries.modify(document_ids, nebari::tree::Operation::Remove)?;
         }
         transaction.commit()?;
-    }
 
-    Ok(())
+        if unmapped_documents == 0 {
+            return Ok(transaction_id);
+        }
+    }
 }
 
 pub struct DocumentRequest<'a> {
-- 
2.43.0


From c6318e74b7c66f2741cab1ffa0afd496bdc8f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 08/50] fix: don't lose documents that change while a view's
 integrity is scanned

The scanner listed the documents before it deleted the view's trees and
invalidated the listed documents. A document saved in between was missing from
the list, and its own invalidation was deleted with the tree, so the view never
contained it.
---
 .../src/views/integrity_scanner.rs            | 43 +++++++++++++------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index 9728893..685c340 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -7,8 +7,8 @@ use std::sync::Arc;
 use bonsaidb_core::document::DocumentId;
 use bonsaidb_core::schema::{CollectionName, ViewName};
 use nebari::io::any::AnyFile;
-use nebari::tree::{Operation, ScanEvaluation, Unversioned, Versioned};
-use nebari::{ArcBytes, Roots, Tree};
+use nebari::tree::{AnyTreeRoot, Operation, ScanEvaluation, Unversioned, Versioned};
+use nebari::{ArcBytes, LockedTransactionTree, Roots};
 use parking_lot::Mutex;
 use serde::{Deserialize, Serialize};
 
@@ -71,23 +71,42 @@ impl Job for IntegrityScanner {
         let task = if version.is_current(view_version) {
             None
         } else {
-            // The view isn't the current version, queue up all documents.
-            let missing_entries = tree_keys::<Versioned>(&documents)?;
+            let invalidated_entries_name =
+                view_invalidated_docs_tree_name(&self.scan.view_name);
+            let view_entries_name = view_entries_tree_name(&self.scan.view_name);
+            let document_map_name = view_document_map_tree_name(&self.scan.view_name);
             // When a version is updated, we can make no guarantees about
             // existing keys. The best we can do is delete the existing files so
-            // that the view starts fresh.
-            roots.delete_tree(view_invalidated_docs_tree_name(&self.scan.view_name))?;
-            roots.delete_tree(view_entries_tree_name(&self.scan.view_name))?;
-            roots.delete_tree(view_document_map_tree_name(&self.scan.view_name))?;
-            // Add all missing entries to the invalidated list. The view
-            // mapping job will update them on the next pass.
+            // that the view starts fresh. The trees are locked while they are
+            // deleted, as a concurrent transaction would otherwise write to a
+            // file that has been deleted.
+            let deletion = roots.transactions().new_transaction([
+                invalidated_entries_name.as_bytes(),
+                view_entries_name.as_bytes(),
+                document_map_name.as_bytes(),
+            ]);
+            roots.delete_tree(invalidated_entries_name)?;
+            roots.delete_tree(view_entries_name)?;
+            roots.delete_tree(document_map_name)?;
+            drop(deletion);
+            // The view isn't the current version, queue up all documents by
+            // adding them to the invalidated list. The view mapping job will
+            // update them on the next pass. The documents are listed while
+            // their tree is locked so that none can be added or removed before
+            // the invalidated list is complete.
             let invalidated_entries_tree = self.database.collection_tree::<Unversioned, _>(
                 &self.scan.collection,
                 view_invalidated_docs_tree_name(&self.scan.view_name),
             )?;
 
-            let transaction = roots.transaction(&[invalidated_entries_tree, view_versions_tree])?;
+            let transaction = roots.transaction::<_, dyn AnyTreeRoot<AnyFile>>(&[
+                Box::new(invalidated_entries_tree) as Box<dyn AnyTreeRoot<AnyFile>>,
+                Box::new(view_versions_tree),
+                Box::new(documents),
+            ])?;
             {
+                let missing_entries =
+                    tree_keys(&mut transaction.tree::<Versioned>(2).unwrap())?;
                 let mut view_versions = transaction.tree::<Unversioned>(1).unwrap();
                 view_versions.set(
                     view_name.to_string().as_bytes().to_vec(),
@@ -184,7 +203,7 @@ impl ViewVersion {
 }
 
 fn tree_keys<R: nebari::tree::Root>(
-    tree: &Tree<R, AnyFile>,
+    tree: &mut LockedTransactionTree<'_, R, AnyFile>,
 ) -> Result<HashSet<DocumentId>, crate::Error> {
     let mut ids = Vec::new();
     tree.scan::<Infallible, _, _, _, _>(
-- 
2.43.0


From a88f707a0b11996dfa3cb451050e63a6eb228c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 09/50] fix: don't compact a tree twice at the same time

Compacting a database and one of its collections run as separate jobs, which
compacted the same trees concurrently. Both used the same temporary file, and
the later one read the new file with the positions of the old one, failing or
losing data. View trees could also be compacted while an integrity scan deleted
them.
---
 crates/bonsaidb-local/src/database.rs                | 11 ++++++++++-
 crates/bonsaidb-local/src/tasks/compactor.rs         |  4 ++++
 crates/bonsaidb-local/src/views/integrity_scanner.rs |  2 ++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index a317b62..f6c2e3d 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -38,7 +38,7 @@ use nebari::tree::{
     Unversioned, Versioned,
 };
 use nebari::{AbortError, ExecutingTransaction, Roots, Tree};
-use parking_lot::Mutex;
+use parking_lot::{Mutex, MutexGuard};
 use serde::{Deserialize, Serialize};
 use watchable::Watchable;
 
@@ -197,6 +197,12 @@ impl Database {
         &self.data.context.roots
     }
 
+    /// Locks the files of this database's trees, preventing other jobs from
+    /// replacing or deleting them. Transactions and queries don't need this lock.
+    pub(crate) fn lock_tree_files(&self) -> MutexGuard<'_, ()> {
+        self.data.context.tree_files.lock()
+    }
+
     fn for_each_in_view<F: FnMut(ViewEntry) -> Result<(), bonsaidb_core::Error> + Send + Sync>(
         &self,
         view: &dyn view::Serialized,
@@ -1680,6 +1686,8 @@ impl Deref for Context {
 #[derive(Debug)]
 pub(crate) struct ContextData {
     pub(crate) roots: Roots<AnyFile>,
+    /// Locked while tree files are being replaced or deleted.
+    tree_files: Mutex<()>,
     key_value_state: Arc<Mutex<keyvalue::KeyValueState>>,
 }
 
@@ -1706,6 +1714,7 @@ impl Context {
         let context = Self {
             data: Arc::new(ContextData {
                 roots,
+                tree_files: Mutex::default(),
                 key_value_state,
             }),
         };
diff --git a/crates/bonsaidb-local/src/tasks/compactor.rs b/crates/bonsaidb-local/src/tasks/compactor.rs
index e6528e7..15f7042 100644
--- a/crates/bonsaidb-local/src/tasks/compactor.rs
+++ b/crates/bonsaidb-local/src/tasks/compactor.rs
@@ -86,6 +86,10 @@ impl Job for Compactor {
 
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip_all))]
     fn execute(&mut self) -> Result<Self::Output, Error> {
+        // Nebari doesn't support compacting a tree more than once at the same
+        // time, but the trees of a collection are also compacted when its
+        // database is.
+        let _tree_files = self.database.lock_tree_files();
         self.compaction.target.clone().compact(&self.database)
     }
 }
diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index 685c340..162fdca 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -80,6 +80,7 @@ impl Job for IntegrityScanner {
             // that the view starts fresh. The trees are locked while they are
             // deleted, as a concurrent transaction would otherwise write to a
             // file that has been deleted.
+            let tree_files = self.database.lock_tree_files();
             let deletion = roots.transactions().new_transaction([
                 invalidated_entries_name.as_bytes(),
                 view_entries_name.as_bytes(),
@@ -89,6 +90,7 @@ impl Job for IntegrityScanner {
             roots.delete_tree(view_entries_name)?;
             roots.delete_tree(document_map_name)?;
             drop(deletion);
+            drop(tree_files);
             // The view isn't the current version, queue up all documents by
             // adding them to the invalidated list. The view mapping job will
             // update them on the next pass. The documents are listed while
-- 
2.43.0


From 619302ebbe89a98b19482128578b61bcf9df01e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 10/50] fix: return the entries of several queried keys in
 order and within the limit

---
 crates/bonsaidb-local/src/database.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index f6c2e3d..4a73133 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -802,12 +802,19 @@ impl Database {
                 SerializedQueryKey::Multiple(mut list) => {
                     list.sort();
 
-                    values.extend(
-                        view_entries
-                            .get_multiple(list.iter().map(|bytes| bytes.as_slice()))?
-                            .into_iter()
-                            .map(|(_, value)| value),
-                    );
+                    // Entries may be returned in a different order than they
+                    // were requested in.
+                    let mut entries = view_entries
+                        .get_multiple(list.iter().map(|bytes| bytes.as_slice()))?;
+                    entries.sort_by(|a, b| a.0.cmp(&b.0));
+                    if !forwards {
+                        entries.reverse();
+                    }
+                    if let Some(limit) = limit {
+                        entries.truncate(usize::try_from(limit).unwrap_or(usize::MAX));
+                    }
+
+                    values.extend(entries.into_iter().map(|(_, value)| value));
                 }
             }
         } else {
-- 
2.43.0


From 5e2947d45b73629287fe4e130bd1ae05950f5c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 11/50] fix: compact the trees of a collection with the
 collection's vault

---
 crates/bonsaidb-local/src/tasks/compactor.rs | 50 ++++++++++++--------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/crates/bonsaidb-local/src/tasks/compactor.rs b/crates/bonsaidb-local/src/tasks/compactor.rs
index 15f7042..a03bef8 100644
--- a/crates/bonsaidb-local/src/tasks/compactor.rs
+++ b/crates/bonsaidb-local/src/tasks/compactor.rs
@@ -1,7 +1,6 @@
-use std::borrow::Cow;
-
 use bonsaidb_core::schema::CollectionName;
-use nebari::tree::{Root, Unversioned, Versioned};
+use nebari::io::any::AnyFile;
+use nebari::tree::{Root, TreeRoot, Unversioned, Versioned};
 
 use crate::database::keyvalue::KEY_TREE;
 use crate::database::{document_tree_name, DatabaseNonBlocking};
@@ -50,8 +49,8 @@ pub struct Compaction {
 
 #[derive(Debug, Clone, Hash, Eq, PartialEq)]
 pub enum Target {
-    VersionedTree(String),
-    UnversionedTree(String),
+    VersionedTree(CollectionName, String),
+    UnversionedTree(CollectionName, String),
     Collection(CollectionName),
     KeyValue,
     Database,
@@ -60,14 +59,18 @@ pub enum Target {
 impl Target {
     fn compact(self, database: &Database) -> Result<(), Error> {
         match self {
-            Target::UnversionedTree(name) => compact_tree::<Unversioned, _>(database, name),
-            Target::VersionedTree(name) => compact_tree::<Versioned, _>(database, name),
+            Target::UnversionedTree(collection, name) => {
+                compact_tree(database, database.collection_tree::<Unversioned, _>(&collection, name)?)
+            }
+            Target::VersionedTree(collection, name) => {
+                compact_tree(database, database.collection_tree::<Versioned, _>(&collection, name)?)
+            }
             Target::Collection(collection) => {
                 let mut trees = Vec::new();
                 gather_collection_trees(database, &collection, &mut trees);
                 compact_trees(database, trees)
             }
-            Target::KeyValue => compact_tree::<Unversioned, _>(database, KEY_TREE),
+            Target::KeyValue => compact_tree(database, Unversioned::tree(KEY_TREE)),
             Target::Database => {
                 let mut trees = Vec::new();
                 for collection in database.schematic().collections() {
@@ -105,16 +108,24 @@ fn gather_collection_trees(
     collection: &CollectionName,
     trees: &mut Vec<Target>,
 ) {
-    trees.push(Target::VersionedTree(document_tree_name(collection)));
-    trees.push(Target::UnversionedTree(view_versions_tree_name(collection)));
+    trees.push(Target::VersionedTree(
+        collection.clone(),
+        document_tree_name(collection),
+    ));
+    trees.push(Target::UnversionedTree(
+        collection.clone(),
+        view_versions_tree_name(collection),
+    ));
 
     for view in database.data.schema.views_in_collection(collection) {
         let name = view.view_name();
-        trees.push(Target::UnversionedTree(view_entries_tree_name(&name)));
-        trees.push(Target::UnversionedTree(view_document_map_tree_name(&name)));
-        trees.push(Target::UnversionedTree(view_invalidated_docs_tree_name(
-            &name,
-        )));
+        for tree in [
+            view_entries_tree_name(&name),
+            view_document_map_tree_name(&name),
+            view_invalidated_docs_tree_name(&name),
+        ] {
+            trees.push(Target::UnversionedTree(collection.clone(), tree));
+        }
     }
 }
 
@@ -128,11 +139,8 @@ fn compact_trees(database: &Database, targets: Vec<Target>) -> Result<(), Error>
     Ok(())
 }
 
-fn compact_tree<R: Root, S: Into<Cow<'static, str>>>(
-    database: &Database,
-    name: S,
-) -> Result<(), Error> {
-    let documents = database.roots().tree(R::tree(name))?;
-    documents.compact()?;
+fn compact_tree<R: Root>(database: &Database, tree: TreeRoot<R, AnyFile>) -> Result<(), Error> {
+    let tree = database.roots().tree(tree)?;
+    tree.compact()?;
     Ok(())
 }
-- 
2.43.0


From 99fcd02f594cf33f61312fe727c009b7e86de493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 12/50] fix: finish rebuilding an eager view before it is used

---
 crates/bonsaidb-local/src/database.rs         | 12 +++-
 .../src/views/integrity_scanner.rs            | 56 +++++++++++++------
 crates/bonsaidb-local/src/views/mapper.rs     | 17 +++++-
 3 files changed, 66 insertions(+), 19 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 4a73133..ef7ba90 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -223,10 +223,20 @@ impl Database {
             .tasks()
             .spawn_integrity_check(view, self)
         {
-            integrity_check
+            let mapping = integrity_check
                 .receive()
                 .map_err(Error::from)?
                 .map_err(Error::from)?;
+            // The entries of an eager view are always up to date, unless the view
+            // is being rebuilt.
+            if let Some(mapping) = mapping.filter(|_| view.update_policy().is_eager()) {
+                if let Some(mapping) = mapping.lock().take() {
+                    mapping
+                        .receive()
+                        .map_err(Error::from)?
+                        .map_err(Error::from)?;
+                }
+            }
         }
 
         let view_entries = self
diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index 162fdca..b35fab4 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -68,9 +68,27 @@ impl Job for IntegrityScanner {
         // Remove any old files that are no longer used.
         version.cleanup(&roots, &view_name)?;
 
-        let task = if version.is_current(view_version) {
-            None
-        } else {
+        // Transactions don't invalidate the entries of an eager view. If the last
+        // rebuild of one was interrupted, it must be finished now.
+        let is_eager = self
+            .database
+            .data
+            .schema
+            .view_by_name(&view_name)?
+            .update_policy()
+            .is_eager();
+        let rebuild = !version.is_current(view_version);
+        let finish_rebuild = !rebuild
+            && is_eager
+            && roots
+                .tree(self.database.collection_tree::<Unversioned, _>(
+                    &self.scan.collection,
+                    view_invalidated_docs_tree_name(&view_name),
+                )?)?
+                .first_key()?
+                .is_some();
+
+        if rebuild {
             let invalidated_entries_name =
                 view_invalidated_docs_tree_name(&self.scan.view_name);
             let view_entries_name = view_entries_tree_name(&self.scan.view_name);
@@ -123,8 +141,10 @@ impl Job for IntegrityScanner {
                 invalidated_entries.modify(missing_entries, Operation::Set(ArcBytes::default()))?;
             }
             transaction.commit()?;
+        }
 
-            Some(Arc::new(Mutex::new(Some(
+        let task = (rebuild || finish_rebuild).then(|| {
+            Arc::new(Mutex::new(Some(
                 self.database
                     .storage
                     .instance
@@ -138,18 +158,22 @@ impl Job for IntegrityScanner {
                             view_name: self.scan.view_name.clone(),
                         },
                     }),
-            ))))
-        };
-
-        self.database
-            .storage
-            .instance
-            .tasks()
-            .mark_integrity_check_complete(
-                self.database.data.name.clone(),
-                self.scan.collection.clone(),
-                self.scan.view_name.clone(),
-            );
+            )))
+        });
+
+        // An eager view can't be used until it has been rebuilt, the mapper marks
+        // its check as completed.
+        if task.is_none() || !is_eager {
+            self.database
+                .storage
+                .instance
+                .tasks()
+                .mark_integrity_check_complete(
+                    self.database.data.name.clone(),
+                    self.scan.collection.clone(),
+                    self.scan.view_name.clone(),
+                );
+        }
 
         Ok(task)
     }
diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index 01a81b9..f3909e7 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -73,14 +73,27 @@ impl Job for Mapper {
                     view_invalidated_docs_tree_name(&self.map.view_name),
                 )?)?;
 
-        let transaction_id = map_view(
+        let mapped = map_view(
             &invalidated_entries,
             &document_map,
             &documents,
             &view_entries,
             &self.database,
             &self.map,
-        )?;
+        );
+
+        // The integrity check of an eager view isn't complete until the view has
+        // been mapped.
+        self.database
+            .storage
+            .instance
+            .tasks()
+            .mark_integrity_check_complete(
+                self.map.database.clone(),
+                self.map.collection.clone(),
+                self.map.view_name.clone(),
+            );
+        let transaction_id = mapped?;
 
         self.database.storage.instance.tasks().mark_view_updated(
             self.map.database.clone(),
-- 
2.43.0


From 5d542bc3db4824d1f8cc8f2c7cb52444244177b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 13/50] fix: count only the documents within the range

---
 crates/bonsaidb-local/src/database.rs | 31 ++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index ef7ba90..0937abf 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1,7 +1,7 @@
 use std::borrow::{Borrow, Cow};
 use std::collections::{BTreeMap, HashMap, HashSet};
 use std::convert::Infallible;
-use std::ops::{self, Deref};
+use std::ops::{self, Bound, Deref, RangeBounds};
 use std::sync::Arc;
 use std::u8;
 
@@ -1407,9 +1407,34 @@ impl LowLevelConnection for Database {
             .tree(self.collection_tree::<Versioned, _>(collection, document_tree_name(collection))?)
             .map_err(Error::from)?;
         let ids = DocumentIdRange(ids);
-        let stats = tree.reduce(&ids.borrow_as_bytes()).map_err(Error::from)?;
+        let ids = ids.borrow_as_bytes();
+        if matches!(
+            (ids.start_bound(), ids.end_bound()),
+            (Bound::Unbounded, Bound::Unbounded)
+        ) {
+            let stats = tree.reduce(&ids).map_err(Error::from)?;
+            return Ok(stats.alive_keys);
+        }
+
+        // Nebari's reduce includes nodes that are only partially contained by
+        // the range, so the keys must be counted.
+        let mut count = 0;
+        tree.scan::<Infallible, _, _, _, _>(
+            &ids,
+            true,
+            |_, _, _| ScanEvaluation::ReadData,
+            |_, index| {
+                // Deleted documents remain in the index, but have no data.
+                if index.position != 0 {
+                    count += 1;
+                }
+                ScanEvaluation::Skip
+            },
+            |_, _, _| unreachable!(),
+        )
+        .map_err(Error::from)?;
 
-        Ok(stats.alive_keys)
+        Ok(count)
     }
 
     #[cfg_attr(feature = "tracing", tracing::instrument(
-- 
2.43.0


From 839850851c2dd1074eaca354865cf688a0fda5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 14/50] fix: rebuild a view whose last rebuild was interrupted,
 whatever its version

---
 crates/bonsaidb-local/src/views/integrity_scanner.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index b35fab4..c15e346 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -99,6 +99,9 @@ impl Job for IntegrityScanner {
             // deleted, as a concurrent transaction would otherwise write to a
             // file that has been deleted.
             let tree_files = self.database.lock_tree_files();
+            // If the rebuild is interrupted, the view isn't current for any
+            // version until a later rebuild has completed.
+            view_versions.remove(view_name.to_string().as_bytes())?;
             let deletion = roots.transactions().new_transaction([
                 invalidated_entries_name.as_bytes(),
                 view_entries_name.as_bytes(),
-- 
2.43.0


From b915529f5a293dd927d2f7ca7c68050639edae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 15/50] fix: make the storage id durable when its creation was
 interrupted before the synchronization

---
 crates/bonsaidb-local/src/storage.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 9f01aa0..854ea50 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -422,6 +422,9 @@ impl Storage {
                 // server if the file can't be read or contains unexpected data.
                 let existing_id =
                     String::from_utf8(bytes).expect("server-id contains invalid data");
+                // The process that wrote the id may have been ended before it
+                // synchronized the file.
+                file.sync_all()?;
 
                 (existing_id.parse().expect("server-id isn't numeric"), file)
             }
-- 
2.43.0


From a2b8579e49ffd6a82f0e4a8ecddb109d904e8df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 16/50] fix: wait for keys that are being persisted when a
 database is closed

---
 crates/bonsaidb-local/src/database/keyvalue.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 0435692..7462083 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -239,7 +239,9 @@ impl KeyValueState {
     }
 
     pub fn shutdown(&mut self, state: &Arc<Mutex<KeyValueState>>) -> Option<flume::Receiver<()>> {
-        if self.keys_being_persisted.is_none() && self.commit_dirty_keys(state) {
+        // If keys are already being persisted, the thread persisting them
+        // continues with the keys that have changed since.
+        if self.keys_being_persisted.is_some() || self.commit_dirty_keys(state) {
             let (shutdown_sender, shutdown_receiver) = flume::bounded(1);
             self.shutdown = Some(shutdown_sender);
             Some(shutdown_receiver)
-- 
2.43.0


From 711bb6d5ba495d220154a22cc7d3e7772461817a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 17/50] fix: release the unused transaction before persisting
 the keys that remain at shutdown

---
 crates/bonsaidb-local/src/database/keyvalue.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 7462083..2c5f23c 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -735,6 +735,9 @@ impl KeyValueState {
                 )?)
                 .map_err(Error::from)?;
             transaction.commit().map_err(Error::from)?;
+        } else {
+            // Release the tree: more keys might be persisted below.
+            drop(transaction);
         }
 
         // If we are shutting down, check if we still have dirty keys.
-- 
2.43.0


From 44fdfe029410718ee34b3691e245b5d965bc2c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 18/50] fix: don't replace expirations that are set while the
 stored ones are loaded

---
 crates/bonsaidb-local/src/database.rs         | 15 ++++--------
 .../bonsaidb-local/src/database/keyvalue.rs   | 24 ++++++++++++++-----
 crates/bonsaidb-local/src/tasks.rs            |  2 --
 3 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 0937abf..70b48f3 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -14,7 +14,9 @@ use bonsaidb_core::connection::{
 #[cfg(any(feature = "encryption", feature = "compression"))]
 use bonsaidb_core::document::KeyId;
 use bonsaidb_core::document::{BorrowedDocument, DocumentId, Header, OwnedDocument, Revision};
-use bonsaidb_core::keyvalue::{KeyOperation, Output, Timestamp};
+#[cfg(test)]
+use bonsaidb_core::keyvalue::Timestamp;
+use bonsaidb_core::keyvalue::{KeyOperation, Output};
 use bonsaidb_core::limits::{
     LIST_TRANSACTIONS_DEFAULT_RESULT_COUNT, LIST_TRANSACTIONS_MAX_RESULTS,
 };
@@ -919,16 +921,6 @@ impl Database {
         Ok(tree)
     }
 
-    pub(crate) fn update_key_expiration<'key>(
-        &self,
-        tree_key: impl Into<Cow<'key, str>>,
-        expiration: Option<Timestamp>,
-    ) {
-        self.data
-            .context
-            .update_key_expiration(tree_key, expiration);
-    }
-
     /// Converts this instance into its blocking version, which is able to be
     /// used without async. The returned instance uses the current Tokio runtime
     /// handle to spawn blocking tasks.
@@ -1781,6 +1773,7 @@ impl Context {
         state.perform_kv_operation(op, &self.data.key_value_state)
     }
 
+    #[cfg(test)]
     pub(crate) fn update_key_expiration<'key>(
         &self,
         tree_key: impl Into<Cow<'key, str>>,
diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 2c5f23c..8b14ee8 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -71,6 +71,13 @@ impl Database {
     ) -> Result<BTreeMap<(Option<String>, String), Entry>, Error> {
         // Lock the state so that new new modifications can be made while we gather this snapshot.
         let state = self.data.context.key_value_state.lock();
+        self.key_value_entries_in(&state)
+    }
+
+    fn key_value_entries_in(
+        &self,
+        state: &KeyValueState,
+    ) -> Result<BTreeMap<(Option<String>, String), Entry>, Error> {
         let database = self.clone();
         // Initialize our entries with any dirty keys and any keys that are about to be persisted.
         let mut all_entries = BTreeMap::new();
@@ -839,7 +846,6 @@ pub enum BackgroundWorkerProcessTarget {
 #[derive(Debug)]
 pub struct ExpirationLoader {
     pub database: Database,
-    pub launched_at: Timestamp,
 }
 
 impl Keyed<Task> for ExpirationLoader {
@@ -855,12 +861,18 @@ impl Job for ExpirationLoader {
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip_all))]
     fn execute(&mut self) -> Result<Self::Output, Self::Error> {
         let database = self.database.clone();
-        let launched_at = self.launched_at;
 
-        for ((namespace, key), entry) in database.all_key_value_entries()? {
-            if entry.last_updated < launched_at && entry.expiration.is_some() {
-                self.database
-                    .update_key_expiration(full_key(namespace.as_deref(), &key), entry.expiration);
+        {
+            // The state stays locked until all expirations are known, or an
+            // expiration that was read could replace one that was set since.
+            let mut state = database.data.context.key_value_state.lock();
+            for ((namespace, key), entry) in database.key_value_entries_in(&state)? {
+                if entry.expiration.is_some() {
+                    state.update_key_expiration(
+                        full_key(namespace.as_deref(), &key),
+                        entry.expiration,
+                    );
+                }
             }
         }
 
diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index 23547c0..aed1280 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -3,7 +3,6 @@ use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
 use bonsaidb_core::connection::Connection;
-use bonsaidb_core::keyvalue::Timestamp;
 use bonsaidb_core::schema::{view, CollectionName, ViewName};
 use parking_lot::RwLock;
 
@@ -190,7 +189,6 @@ impl TaskManager {
         } else {
             Some(self.jobs.lookup_or_enqueue(ExpirationLoader {
                 database: database.clone(),
-                launched_at: Timestamp::now(),
             }))
         }
     }
-- 
2.43.0


From beacda20b4fc8547777e52fe068fca34a7c9baf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 19/50] fix: resolve the roles of a user by the ids of its
 roles, not of its groups

---
 crates/bonsaidb-core/src/admin/user.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/admin/user.rs b/crates/bonsaidb-core/src/admin/user.rs
index 0894a4e..1a7a3d3 100644
--- a/crates/bonsaidb-core/src/admin/user.rs
+++ b/crates/bonsaidb-core/src/admin/user.rs
@@ -67,7 +67,7 @@ impl User {
         let role_groups = if self.roles.is_empty() {
             Vec::default()
         } else {
-            let roles = role::Role::get_multiple(self.groups.iter(), admin)?;
+            let roles = role::Role::get_multiple(self.roles.iter(), admin)?;
             roles
                 .into_iter()
                 .flat_map(|doc| doc.contents.groups)
-- 
2.43.0


From ae282d7ff981641daf260a5b26e0dc0c9d891de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 20/50] fix: look up the role, not a permission group, when
 adding a role to a user

---
 crates/bonsaidb-local/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 854ea50..8e7fd60 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1201,7 +1201,7 @@ impl StorageConnection for StorageInstance {
         user: U,
         role: G,
     ) -> Result<(), bonsaidb_core::Error> {
-        self.update_user_with_named_id::<PermissionGroup, _, _, _>(user, role, |user, role_id| {
+        self.update_user_with_named_id::<Role, _, _, _>(user, role, |user, role_id| {
             Ok(Self::add_role_to_user_inner(user, role_id))
         })
     }
@@ -1460,7 +1460,7 @@ impl StorageConnection for Storage {
         role: G,
     ) -> Result<(), bonsaidb_core::Error> {
         self.instance
-            .update_user_with_named_id::<PermissionGroup, _, _, _>(user, role, |user, role_id| {
+            .update_user_with_named_id::<Role, _, _, _>(user, role, |user, role_id| {
                 self.check_permission(
                     user_resource_name(user.header.id),
                     &BonsaiAction::Server(ServerAction::ModifyUserRoles),
-- 
2.43.0


From 5d6f4004b4d07aed901796976f5a88620a8dc4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 21/50] fix: keep the session of a storage in the databases
 opened through it

---
 crates/bonsaidb-local/src/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 8e7fd60..1696561 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1252,7 +1252,9 @@ impl StorageConnection for Storage {
     }
 
     fn database<DB: Schema>(&self, name: &str) -> Result<Self::Database, bonsaidb_core::Error> {
-        self.instance.database::<DB>(name)
+        self.instance
+            .database_without_schema(name, Some(self), Some(DB::schema_name()))
+            .map_err(bonsaidb_core::Error::from)
     }
 
     fn delete_database(&self, name: &str) -> Result<(), bonsaidb_core::Error> {
-- 
2.43.0


From 47d38e3b83ee7119f899bc199a09b5dfbeba0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 22/50] fix: refuse names of databases that are empty or used
 by the storage's own files

---
 crates/bonsaidb-local/src/storage.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 1696561..1bf07e5 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -519,11 +519,19 @@ impl Storage {
     }
 
     fn validate_name(name: &str) -> Result<(), Error> {
-        if name.chars().enumerate().all(|(index, c)| {
-            c.is_ascii_alphanumeric()
-                || (index == 0 && c == '_')
-                || (index > 0 && (c == '.' || c == '-'))
-        }) {
+        // A database is stored in a directory of its name, next to the files the
+        // storage keeps for itself.
+        let reserved = name.is_empty()
+            || ["storage-id", "server-id", "master-keys", "vault-keys"]
+                .iter()
+                .any(|reserved| name.eq_ignore_ascii_case(reserved));
+        if !reserved
+            && name.chars().enumerate().all(|(index, c)| {
+                c.is_ascii_alphanumeric()
+                    || (index == 0 && c == '_')
+                    || (index > 0 && (c == '.' || c == '-'))
+            })
+        {
             Ok(())
         } else {
             Err(Error::Core(bonsaidb_core::Error::InvalidDatabaseName(
-- 
2.43.0


From fe02a2a029e7b0ac3ef6ec1b90207afb300a52f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 23/50] fix: delete the record of a database before its files,
 and no files without a record

---
 crates/bonsaidb-local/src/storage.rs | 39 ++++++++++++++++------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 1bf07e5..94c1a8c 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -682,6 +682,15 @@ impl StorageInstance {
         }
     }
 
+    fn delete_database_files(&self, name: &str) -> Result<(), Error> {
+        let mut open_roots = self.data.open_roots.lock();
+        open_roots.remove(name);
+        self.data
+            .file_manager
+            .delete_directory(self.data.path.join(name))?;
+        Ok(())
+    }
+
     pub(crate) fn tasks(&self) -> &'_ TaskManager {
         &self.data.tasks
     }
@@ -1006,6 +1015,10 @@ impl StorageConnection for StorageInstance {
         let mut available_databases = self.data.available_databases.write();
         let admin = self.admin();
         if !available_databases.contains_key(name) {
+            if name != ADMIN_DATABASE_NAME {
+                // Remove what an interrupted deletion may have left behind.
+                self.delete_database_files(name)?;
+            }
             admin
                 .collection::<DatabaseRecord>()
                 .push(&admin::Database {
@@ -1029,21 +1042,14 @@ impl StorageConnection for StorageInstance {
 
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip(self)))]
     fn delete_database(&self, name: &str) -> Result<(), bonsaidb_core::Error> {
-        let admin = self.admin();
         let mut available_databases = self.data.available_databases.write();
-        available_databases.remove(name);
-
-        let mut open_roots = self.data.open_roots.lock();
-        open_roots.remove(name);
-
-        let database_folder = self.data.path.join(name);
-        if database_folder.exists() {
-            let file_manager = self.data.file_manager.clone();
-            file_manager
-                .delete_directory(&database_folder)
-                .map_err(Error::Nebari)?;
+        if !available_databases.contains_key(name) {
+            return Err(bonsaidb_core::Error::DatabaseNotFound(name.to_string()));
         }
 
+        // The record is removed before the files: if this is interrupted, the
+        // files that remain are removed when a database of this name is created.
+        let admin = self.admin();
         if let Some(entry) = admin
             .view::<database::ByName>()
             .with_key(name)
@@ -1051,11 +1057,12 @@ impl StorageConnection for StorageInstance {
             .first()
         {
             admin.delete::<DatabaseRecord, _>(&entry.source)?;
-
-            Ok(())
-        } else {
-            Err(bonsaidb_core::Error::DatabaseNotFound(name.to_string()))
         }
+        available_databases.remove(name);
+
+        self.delete_database_files(name)?;
+
+        Ok(())
     }
 
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip_all))]
-- 
2.43.0


From 9636563015c959d5ba14f2cb937cf6a33d83de38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 24/50] fix: don't open a database while it is being deleted

---
 crates/bonsaidb-local/src/storage.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 94c1a8c..16420b2 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -710,16 +710,12 @@ impl StorageInstance {
         storage: Option<&Storage>,
         expected_schema: Option<SchemaName>,
     ) -> Result<Database, Error> {
-        // TODO switch to upgradable read now that we are on parking_lot
-        let stored_schema = {
-            let available_databases = self.data.available_databases.read();
-            available_databases
-                .get(name)
-                .ok_or_else(|| {
-                    Error::Core(bonsaidb_core::Error::DatabaseNotFound(name.to_string()))
-                })?
-                .clone()
-        };
+        // Held until the database is open: it can't be deleted in between.
+        let available_databases = self.data.available_databases.read();
+        let stored_schema = available_databases
+            .get(name)
+            .ok_or_else(|| Error::Core(bonsaidb_core::Error::DatabaseNotFound(name.to_string())))?
+            .clone();
 
         if let Some(expected_schema) = expected_schema {
             if stored_schema != expected_schema {
-- 
2.43.0


From eed62dd9fa9dc7b3ea3f83b3bf6ca06e6da7835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 25/50] fix: don't apply the view and expiration status of a
 deleted database to a new one of its name

---
 crates/bonsaidb-local/src/database.rs         | 24 ++++++++++++++++-
 .../bonsaidb-local/src/database/keyvalue.rs   |  4 +--
 crates/bonsaidb-local/src/tasks.rs            | 27 +++++++++----------
 crates/bonsaidb-local/src/tasks/compactor.rs  |  6 ++---
 crates/bonsaidb-local/src/tasks/task.rs       |  6 ++---
 .../src/views/integrity_scanner.rs            |  9 +++----
 crates/bonsaidb-local/src/views/mapper.rs     |  6 ++---
 7 files changed, 49 insertions(+), 33 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 70b48f3..0b5f8f8 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -2,6 +2,7 @@ use std::borrow::{Borrow, Cow};
 use std::collections::{BTreeMap, HashMap, HashSet};
 use std::convert::Infallible;
 use std::ops::{self, Bound, Deref, RangeBounds};
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use std::u8;
 
@@ -125,6 +126,14 @@ pub struct Data {
     pub(crate) schema: Arc<Schematic>,
 }
 
+/// Identifies an opened database. A database that is deleted and created again
+/// under the same name has another id.
+#[derive(Debug, Clone, Hash, Eq, PartialEq)]
+pub struct DatabaseId {
+    name: Arc<Cow<'static, str>>,
+    context: u64,
+}
+
 impl Database {
     /// Opens a local file as a bonsaidb.
     pub(crate) fn new<DB: Schema, S: Into<Cow<'static, str>> + Send>(
@@ -195,6 +204,14 @@ impl Database {
         &self.data.schema
     }
 
+    /// Identifies this database among the jobs and their statuses.
+    pub(crate) fn id(&self) -> DatabaseId {
+        DatabaseId {
+            name: self.data.name.clone(),
+            context: self.data.context.id,
+        }
+    }
+
     pub(crate) fn roots(&self) -> &'_ nebari::Roots<AnyFile> {
         &self.data.context.roots
     }
@@ -718,7 +735,7 @@ impl Database {
                     database: self,
                     document_ids: vec![document_id.clone()],
                     map_request: &mapper::Map {
-                        database: self.data.name.clone(),
+                        database: self.id(),
                         collection: operation.collection.clone(),
                         view_name: name.clone(),
                     },
@@ -1719,6 +1736,8 @@ impl Deref for Context {
 
 #[derive(Debug)]
 pub(crate) struct ContextData {
+    /// Unique within this process.
+    id: u64,
     pub(crate) roots: Roots<AnyFile>,
     /// Locked while tree files are being replaced or deleted.
     tree_files: Mutex<()>,
@@ -1731,6 +1750,8 @@ impl Borrow<Roots<AnyFile>> for Context {
     }
 }
 
+static NEXT_CONTEXT_ID: AtomicU64 = AtomicU64::new(0);
+
 impl Context {
     pub(crate) fn new(
         roots: Roots<AnyFile>,
@@ -1747,6 +1768,7 @@ impl Context {
         let background_worker_state = Arc::downgrade(&key_value_state);
         let context = Self {
             data: Arc::new(ContextData {
+                id: NEXT_CONTEXT_ID.fetch_add(1, Ordering::Relaxed),
                 roots,
                 tree_files: Mutex::default(),
                 key_value_state,
diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 8b14ee8..bc2d6ec 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -850,7 +850,7 @@ pub struct ExpirationLoader {
 
 impl Keyed<Task> for ExpirationLoader {
     fn key(&self) -> Task {
-        Task::ExpirationLoader(self.database.data.name.clone())
+        Task::ExpirationLoader(self.database.id())
     }
 }
 
@@ -880,7 +880,7 @@ impl Job for ExpirationLoader {
             .storage()
             .instance
             .tasks()
-            .mark_key_value_expiration_loaded(self.database.data.name.clone());
+            .mark_key_value_expiration_loaded(self.database.id());
 
         Ok(())
     }
diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index aed1280..d9984ba 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -1,4 +1,3 @@
-use std::borrow::Cow;
 use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
@@ -7,7 +6,7 @@ use bonsaidb_core::schema::{view, CollectionName, ViewName};
 use parking_lot::RwLock;
 
 use crate::database::keyvalue::ExpirationLoader;
-use crate::database::Database;
+use crate::database::{Database, DatabaseId};
 use crate::tasks::compactor::Compactor;
 use crate::tasks::handle::Handle;
 use crate::tasks::manager::Manager;
@@ -34,12 +33,12 @@ pub struct TaskManager {
     statuses: Arc<RwLock<Statuses>>,
 }
 
-type ViewKey = (Arc<Cow<'static, str>>, CollectionName, ViewName);
+type ViewKey = (DatabaseId, CollectionName, ViewName);
 
 #[derive(Default, Debug)]
 pub struct Statuses {
     completed_integrity_checks: HashSet<ViewKey>,
-    key_value_expiration_loads: HashSet<Arc<Cow<'static, str>>>,
+    key_value_expiration_loads: HashSet<DatabaseId>,
     view_update_last_status: HashMap<ViewKey, u64>,
 }
 
@@ -70,7 +69,7 @@ impl TaskManager {
                 // through the jobs system at all.
                 let statuses = self.statuses.read();
                 if let Some(last_transaction_indexed) = statuses.view_update_last_status.get(&(
-                    database.data.name.clone(),
+                    database.id(),
                     view.collection(),
                     view.view_name(),
                 )) {
@@ -86,7 +85,7 @@ impl TaskManager {
                     let job = self.jobs.lookup_or_enqueue(Mapper {
                         database: database.clone(),
                         map: Map {
-                            database: database.data.name.clone(),
+                            database: database.id(),
                             collection: view.collection(),
                             view_name: view_name.clone(),
                         },
@@ -107,14 +106,14 @@ impl TaskManager {
         Ok(())
     }
 
-    pub fn key_value_expiration_loaded(&self, database: &Arc<Cow<'static, str>>) -> bool {
+    pub fn key_value_expiration_loaded(&self, database: &DatabaseId) -> bool {
         let statuses = self.statuses.read();
         statuses.key_value_expiration_loads.contains(database)
     }
 
     pub fn view_integrity_checked(
         &self,
-        database: Arc<Cow<'static, str>>,
+        database: DatabaseId,
         collection: CollectionName,
         view_name: ViewName,
     ) -> bool {
@@ -131,7 +130,7 @@ impl TaskManager {
     ) -> Option<Handle<OptionalViewMapHandle, Error>> {
         let view_name = view.view_name();
         if self.view_integrity_checked(
-            database.data.name.clone(),
+            database.id(),
             view.collection(),
             view_name.clone(),
         ) {
@@ -140,7 +139,7 @@ impl TaskManager {
             let job = self.jobs.lookup_or_enqueue(IntegrityScanner {
                 database: database.clone(),
                 scan: IntegrityScan {
-                    database: database.data.name.clone(),
+                    database: database.id(),
                     view_version: view.version(),
                     collection: view.collection(),
                     view_name,
@@ -152,7 +151,7 @@ impl TaskManager {
 
     pub fn mark_integrity_check_complete(
         &self,
-        database: Arc<Cow<'static, str>>,
+        database: DatabaseId,
         collection: CollectionName,
         view_name: ViewName,
     ) {
@@ -162,14 +161,14 @@ impl TaskManager {
             .insert((database, collection, view_name));
     }
 
-    pub fn mark_key_value_expiration_loaded(&self, database: Arc<Cow<'static, str>>) {
+    pub fn mark_key_value_expiration_loaded(&self, database: DatabaseId) {
         let mut statuses = self.statuses.write();
         statuses.key_value_expiration_loads.insert(database);
     }
 
     pub fn mark_view_updated(
         &self,
-        database: Arc<Cow<'static, str>>,
+        database: DatabaseId,
         collection: CollectionName,
         view_name: ViewName,
         transaction_id: u64,
@@ -184,7 +183,7 @@ impl TaskManager {
         &self,
         database: &Database,
     ) -> Option<Handle<(), Error>> {
-        if self.key_value_expiration_loaded(&database.data.name) {
+        if self.key_value_expiration_loaded(&database.id()) {
             None
         } else {
             Some(self.jobs.lookup_or_enqueue(ExpirationLoader {
diff --git a/crates/bonsaidb-local/src/tasks/compactor.rs b/crates/bonsaidb-local/src/tasks/compactor.rs
index a03bef8..ab5b0bf 100644
--- a/crates/bonsaidb-local/src/tasks/compactor.rs
+++ b/crates/bonsaidb-local/src/tasks/compactor.rs
@@ -3,7 +3,7 @@ use nebari::io::any::AnyFile;
 use nebari::tree::{Root, TreeRoot, Unversioned, Versioned};
 
 use crate::database::keyvalue::KEY_TREE;
-use crate::database::{document_tree_name, DatabaseNonBlocking};
+use crate::database::{document_tree_name, DatabaseId};
 use crate::tasks::{Job, Keyed, Task};
 use crate::views::{
     view_document_map_tree_name, view_entries_tree_name, view_invalidated_docs_tree_name,
@@ -21,7 +21,7 @@ impl Compactor {
     pub fn target(database: Database, target: Target) -> Self {
         Self {
             compaction: Compaction {
-                database_name: database.name().to_string(),
+                database: database.id(),
                 target,
             },
             database,
@@ -43,7 +43,7 @@ impl Compactor {
 
 #[derive(Debug, Clone, Hash, Eq, PartialEq)]
 pub struct Compaction {
-    database_name: String,
+    database: DatabaseId,
     target: Target,
 }
 
diff --git a/crates/bonsaidb-local/src/tasks/task.rs b/crates/bonsaidb-local/src/tasks/task.rs
index 77013c5..347fdca 100644
--- a/crates/bonsaidb-local/src/tasks/task.rs
+++ b/crates/bonsaidb-local/src/tasks/task.rs
@@ -1,6 +1,4 @@
-use std::borrow::Cow;
-use std::sync::Arc;
-
+use crate::database::DatabaseId;
 use crate::tasks::compactor::Compaction;
 use crate::views::integrity_scanner::IntegrityScan;
 use crate::views::mapper::Map;
@@ -10,5 +8,5 @@ pub enum Task {
     IntegrityScan(IntegrityScan),
     ViewMap(Map),
     Compaction(Compaction),
-    ExpirationLoader(Arc<Cow<'static, str>>),
+    ExpirationLoader(DatabaseId),
 }
diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index c15e346..2009d1d 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -1,4 +1,3 @@
-use std::borrow::Cow;
 use std::collections::HashSet;
 use std::convert::Infallible;
 use std::hash::Hash;
@@ -14,7 +13,7 @@ use serde::{Deserialize, Serialize};
 
 use super::mapper::{Map, Mapper};
 use super::{view_invalidated_docs_tree_name, view_versions_tree_name};
-use crate::database::{document_tree_name, Database};
+use crate::database::{document_tree_name, Database, DatabaseId};
 use crate::tasks::handle::Handle;
 use crate::tasks::{Job, Keyed, Task};
 use crate::views::{view_document_map_tree_name, view_entries_tree_name};
@@ -29,7 +28,7 @@ pub struct IntegrityScanner {
 #[derive(Debug, Hash, Eq, PartialEq, Clone)]
 pub struct IntegrityScan {
     pub view_version: u64,
-    pub database: Arc<Cow<'static, str>>,
+    pub database: DatabaseId,
     pub collection: CollectionName,
     pub view_name: ViewName,
 }
@@ -156,7 +155,7 @@ impl Job for IntegrityScanner {
                     .lookup_or_enqueue(Mapper {
                         database: self.database.clone(),
                         map: Map {
-                            database: self.database.data.name.clone(),
+                            database: self.database.id(),
                             collection: self.scan.collection.clone(),
                             view_name: self.scan.view_name.clone(),
                         },
@@ -172,7 +171,7 @@ impl Job for IntegrityScanner {
                 .instance
                 .tasks()
                 .mark_integrity_check_complete(
-                    self.database.data.name.clone(),
+                    self.database.id(),
                     self.scan.collection.clone(),
                     self.scan.view_name.clone(),
                 );
diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index f3909e7..5ebd6bb 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -1,7 +1,5 @@
-use std::borrow::Cow;
 use std::collections::hash_map::RandomState;
 use std::collections::{BTreeMap, BTreeSet, HashSet};
-use std::sync::Arc;
 
 use bonsaidb_core::arc_bytes::serde::Bytes;
 use bonsaidb_core::arc_bytes::{ArcBytes, OwnedBytes};
@@ -13,7 +11,7 @@ use nebari::io::any::AnyFile;
 use nebari::tree::{AnyTreeRoot, CompareSwap, KeyOperation, Operation, Unversioned, Versioned};
 use nebari::{LockedTransactionTree, Tree, UnlockedTransactionTree};
 
-use crate::database::{deserialize_document, document_tree_name, Database};
+use crate::database::{deserialize_document, document_tree_name, Database, DatabaseId};
 use crate::tasks::{Job, Keyed, Task};
 use crate::views::{
     view_document_map_tree_name, view_entries_tree_name, view_invalidated_docs_tree_name,
@@ -29,7 +27,7 @@ pub struct Mapper {
 
 #[derive(Debug, Hash, Eq, PartialEq, Clone)]
 pub struct Map {
-    pub database: Arc<Cow<'static, str>>,
+    pub database: DatabaseId,
     pub collection: CollectionName,
     pub view_name: ViewName,
 }
-- 
2.43.0


From 7ebc692e1760787b2a1104035bdec26c6a1cb92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 26/50] fix: AsyncDatabase::last_transaction_id checks
 GetLastId like the blocking call

---
 crates/bonsaidb-local/src/async.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/bonsaidb-local/src/async.rs b/crates/bonsaidb-local/src/async.rs
index 9936d52..8e0f8eb 100644
--- a/crates/bonsaidb-local/src/async.rs
+++ b/crates/bonsaidb-local/src/async.rs
@@ -609,11 +609,7 @@ impl AsyncConnection for AsyncDatabase {
     }
 
     async fn last_transaction_id(&self) -> Result<Option<u64>, bonsaidb_core::Error> {
-        Ok(self
-            .database
-            .roots()
-            .transactions()
-            .current_transaction_id())
+        Connection::last_transaction_id(&self.database)
     }
 
     async fn compact(&self) -> Result<(), bonsaidb_core::Error> {
-- 
2.43.0


From ade68052207a819dc54b269b98beefd8d13b7ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 27/50] fix: querying a view does not require permission to get
 the last transaction id

---
 crates/bonsaidb-local/src/tasks.rs        | 6 ++++--
 crates/bonsaidb-local/src/views/mapper.rs | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index d9984ba..d7b858e 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -1,7 +1,6 @@
 use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
-use bonsaidb_core::connection::Connection;
 use bonsaidb_core::schema::{view, CollectionName, ViewName};
 use parking_lot::RwLock;
 
@@ -62,7 +61,10 @@ impl TaskManager {
         }
 
         // If there is no transaction id, there is no data, so the view is "up-to-date"
-        if let Some(current_transaction_id) = database.last_transaction_id()? {
+        // This must not require the permission to ask for the last transaction id.
+        if let Some(current_transaction_id) =
+            database.roots().transactions().current_transaction_id()
+        {
             let needs_reindex = {
                 // When views finish updating, they store the last transaction_id
                 // they mapped. If that value is current, we don't need to go
diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index 5ebd6bb..ad50d52 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -129,7 +129,9 @@ fn map_view(
         // while the trees are locked, or a logged transaction whose documents
         // aren't listed yet would be considered to be mapped.
         let transaction_id = database
-            .last_transaction_id()?
+            .roots()
+            .transactions()
+            .current_transaction_id()
             .expect("no way to have documents without a transaction");
         let mut document_ids = transaction
             .tree::<Unversioned>(0)
-- 
2.43.0


From 2759ba4c92ce229ea34c9d33e47433e82ffb5724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 28/50] fix: delete_docs requires permission to query the view

---
 crates/bonsaidb-local/src/database.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 0b5f8f8..233d3cd 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1676,6 +1676,10 @@ impl LowLevelConnection for Database {
         access_policy: AccessPolicy,
     ) -> Result<u64, bonsaidb_core::Error> {
         let view = self.data.schema.view_by_name(view)?;
+        self.check_permission(
+            view_resource_name(self.name(), &view.view_name()),
+            &BonsaiAction::Database(DatabaseAction::View(ViewAction::Query)),
+        )?;
         let collection = view.collection();
         let mut transaction = Transaction::default();
         // A document can be mapped several times, but it can only be deleted
-- 
2.43.0


From b3bad095bcaaa6024e06b56cf64de1cfcedc3ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 29/50] fix: delete and change the password of the user whose
 permission was checked

---
 crates/bonsaidb-local/src/storage.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 16420b2..bb42526 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1313,7 +1313,8 @@ impl StorageConnection for Storage {
             user_resource_name(user_id),
             &BonsaiAction::Server(ServerAction::DeleteUser),
         )?;
-        self.instance.delete_user(user)
+        // The name may belong to another user by now.
+        self.instance.delete_user(user_id)
     }
 
     #[cfg(feature = "password-hashing")]
@@ -1331,7 +1332,8 @@ impl StorageConnection for Storage {
             user_resource_name(user_id),
             &BonsaiAction::Server(ServerAction::SetPassword),
         )?;
-        self.instance.set_user_password(user, password)
+        // The name may belong to another user by now.
+        self.instance.set_user_password(user_id, password)
     }
 
     #[cfg(any(feature = "token-authentication", feature = "password-hashing"))]
-- 
2.43.0


From 80622412bcfdcee72a2a4f6fe7f224be55620d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:07 +0000
Subject: [PATCH 30/50] fix: a failing view map function neither panics nor
 hangs the mapper

---
 crates/bonsaidb-local/src/views/mapper.rs | 28 +++++++++++++++--------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index ad50d52..cb86426 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -202,9 +202,13 @@ impl<'a> DocumentRequest<'a> {
         let mut documents = documents.lock::<Versioned>();
         for chunk in document_ids.chunks(1024) {
             let (document_id_sender, document_id_receiver) = flume::bounded(chunk.len());
-            batch_sender
+            if batch_sender
                 .send((chunk.to_vec(), document_id_receiver))
-                .unwrap();
+                .is_err()
+            {
+                // The receiver stopped because of an error, which it reports.
+                return Ok(());
+            }
             let mut documents = documents.get_multiple(chunk.iter().map(ArcBytes::as_slice))?;
             documents.sort_by(|a, b| a.0.cmp(&b.0));
 
@@ -214,9 +218,12 @@ impl<'a> DocumentRequest<'a> {
                     .map_or(false, |(key, _)| (key == document_id))
                     .then(|| documents.pop().unwrap().1);
 
-                document_id_sender
+                if document_id_sender
                     .send((document_id.clone(), document))
-                    .unwrap();
+                    .is_err()
+                {
+                    return Ok(());
+                }
             }
 
             drop(document_id_sender);
@@ -226,7 +233,7 @@ impl<'a> DocumentRequest<'a> {
     }
 
     fn map_batches(
-        batch_receiver: &flume::Receiver<BatchPayload>,
+        batch_receiver: flume::Receiver<BatchPayload>,
         mapped_sender: flume::Sender<Batch>,
         view: &dyn Serialized,
         parallelization: usize,
@@ -278,7 +285,10 @@ impl<'a> DocumentRequest<'a> {
                     }
                 }
             }
-            mapped_sender.send(batch).unwrap();
+            if mapped_sender.send(batch).is_err() {
+                // Saving the mappings failed, and that error is reported.
+                break;
+            }
         }
         drop(mapped_sender);
         Ok(())
@@ -346,7 +356,7 @@ impl<'a> DocumentRequest<'a> {
     }
 
     fn save_mappings(
-        mapped_receiver: &flume::Receiver<Batch>,
+        mapped_receiver: flume::Receiver<Batch>,
         view: &dyn Serialized,
         map_request: &Map,
         document_map: &mut LockedTransactionTree<'_, Unversioned, AnyFile>,
@@ -388,7 +398,7 @@ impl<'a> DocumentRequest<'a> {
             .add(|| Self::generate_batches(batch_sender, &self.document_ids, self.documents))
             .add(|| {
                 Self::map_batches(
-                    &batch_receiver,
+                    batch_receiver,
                     mapped_sender,
                     self.view,
                     self.database.storage().parallelization(),
@@ -398,7 +408,7 @@ impl<'a> DocumentRequest<'a> {
                 let mut document_map = self.document_map.lock();
                 let mut view_entries = self.view_entries.lock();
                 Self::save_mappings(
-                    &mapped_receiver,
+                    mapped_receiver,
                     self.view,
                     self.map_request,
                     &mut document_map,
-- 
2.43.0


From 9bd535c571800dc8267368a8189b4541a0b4a627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:07 +0000
Subject: [PATCH 31/50] fix: a failed write of keys neither blocks the
 database's shutdown nor loses the keys

---
 .../bonsaidb-local/src/database/keyvalue.rs   | 76 ++++++++++++-------
 1 file changed, 47 insertions(+), 29 deletions(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index bc2d6ec..7f9c48d 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -694,6 +694,53 @@ impl KeyValueState {
         key_value_state: &Arc<Mutex<KeyValueState>>,
         roots: &Roots<AnyFile>,
         keys: &BTreeMap<String, Option<Entry>>,
+    ) -> Result<(), bonsaidb_core::Error> {
+        let result = Self::write_keys(roots, keys);
+
+        // If we are shutting down, check if we still have dirty keys.
+        let final_keys = {
+            let mut state = key_value_state.lock();
+            state.keys_being_persisted = None;
+            let mut try_again = true;
+            if result.is_ok() {
+                state.last_persistence.replace(Timestamp::now());
+                state.update_background_worker_target();
+            } else {
+                // Keep the changes, unless newer ones have been made. They will
+                // be persisted together with the next changes.
+                try_again = !state.dirty_keys.is_empty();
+                for (key, value) in keys {
+                    state
+                        .dirty_keys
+                        .entry(key.clone())
+                        .or_insert_with(|| value.clone());
+                }
+            }
+            // This block is a little ugly to avoid having to acquire the lock
+            // twice. If we're shutting down and have no dirty keys, we notify
+            // the waiting shutdown task. If we have any dirty keys, we wait do
+            // to that step because we're going to recurse and reach this spot
+            // again.
+            if state.shutdown.is_some() {
+                let staged_keys = try_again.then(|| state.stage_dirty_keys()).flatten();
+                if staged_keys.is_none() {
+                    let shutdown = state.shutdown.take().unwrap();
+                    let _: Result<_, _> = shutdown.send(());
+                }
+                staged_keys
+            } else {
+                None
+            }
+        };
+        if let Some(final_keys) = final_keys {
+            Self::persist_keys(key_value_state, roots, &final_keys)?;
+        }
+        result
+    }
+
+    fn write_keys(
+        roots: &Roots<AnyFile>,
+        keys: &BTreeMap<String, Option<Entry>>,
     ) -> Result<(), bonsaidb_core::Error> {
         let mut transaction = roots
             .transaction(&[Unversioned::tree(KEY_TREE)])
@@ -742,35 +789,6 @@ impl KeyValueState {
                 )?)
                 .map_err(Error::from)?;
             transaction.commit().map_err(Error::from)?;
-        } else {
-            // Release the tree: more keys might be persisted below.
-            drop(transaction);
-        }
-
-        // If we are shutting down, check if we still have dirty keys.
-        let final_keys = {
-            let mut state = key_value_state.lock();
-            state.last_persistence.replace(Timestamp::now());
-            state.keys_being_persisted = None;
-            state.update_background_worker_target();
-            // This block is a little ugly to avoid having to acquire the lock
-            // twice. If we're shutting down and have no dirty keys, we notify
-            // the waiting shutdown task. If we have any dirty keys, we wait do
-            // to that step because we're going to recurse and reach this spot
-            // again.
-            if state.shutdown.is_some() {
-                let staged_keys = state.stage_dirty_keys();
-                if staged_keys.is_none() {
-                    let shutdown = state.shutdown.take().unwrap();
-                    let _: Result<_, _> = shutdown.send(());
-                }
-                staged_keys
-            } else {
-                None
-            }
-        };
-        if let Some(final_keys) = final_keys {
-            Self::persist_keys(key_value_state, roots, &final_keys)?;
         }
         Ok(())
     }
-- 
2.43.0


From fd9783c71bc470e6a897eae9ec855bda9ea4bb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:17 +0000
Subject: [PATCH 32/50] fix: opening a storage whose admin database cannot be
 opened returns the error

---
 crates/bonsaidb-local/src/storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index bb42526..224d885 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -354,6 +354,10 @@ impl Storage {
             effective_session: None,
         };
 
+        // The admin database is opened here, because `admin()` can't report an
+        // error.
+        storage.instance.open_roots(ADMIN_DATABASE_NAME)?;
+
         storage.cache_available_databases()?;
 
         storage.create_admin_database_if_needed()?;
-- 
2.43.0


From 71d64f58fde8cec2b9a2a60bc0561191e6476cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:56 +0000
Subject: [PATCH 33/50] fix: a document id containing '$' is displayed in the
 form it is parsed from

---
 crates/bonsaidb-core/src/document/id.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/document/id.rs b/crates/bonsaidb-core/src/document/id.rs
index 1b1a8c5..1878966 100644
--- a/crates/bonsaidb-core/src/document/id.rs
+++ b/crates/bonsaidb-core/src/document/id.rs
@@ -35,7 +35,11 @@ impl std::fmt::Debug for DocumentId {
 impl Display for DocumentId {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if let Ok(string) = std::str::from_utf8(self.as_ref()) {
-            if string.bytes().all(|b| (32..=127).contains(&b)) {
+            // A `$` separates the parts of the hexadecimal form when parsing.
+            if string
+                .bytes()
+                .all(|b| (32..=127).contains(&b) && b != b'$')
+            {
                 return f.write_str(string);
             }
         }
-- 
2.43.0


From c94d5fafde82307aef9c9eb09eb80cc4a90b93c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:57 +0000
Subject: [PATCH 34/50] fix: back up the keys of a database without collections

---
 crates/bonsaidb-local/src/storage/backup.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index 6966bf6..3b2048d 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -120,16 +120,16 @@ impl Storage {
                     &document.contents,
                 )?;
             }
-            for ((namespace, key), entry) in database.all_key_value_entries()? {
-                let full_name = format!("{}._key._{key}", namespace.as_deref().unwrap_or(""));
-                location.store(
-                    &schema,
-                    database.name(),
-                    "_kv",
-                    &full_name,
-                    &pot::to_vec(&entry)?,
-                )?;
-            }
+        }
+        for ((namespace, key), entry) in database.all_key_value_entries()? {
+            let full_name = format!("{}._key._{key}", namespace.as_deref().unwrap_or(""));
+            location.store(
+                &schema,
+                database.name(),
+                "_kv",
+                &full_name,
+                &pot::to_vec(&entry)?,
+            )?;
         }
         Ok(())
     }
-- 
2.43.0


From 5a5e3e7ef2132ebe466bbe00fe4333940fcdf8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:57 +0000
Subject: [PATCH 35/50] fix: restore a database named _kv

---
 crates/bonsaidb-local/src/storage/backup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index 3b2048d..b7a2c1d 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -294,7 +294,7 @@ impl BackupLocation for Path {
 
     fn list_databases(&self, schema: &SchemaName) -> Result<Vec<String>, Self::Error> {
         iterate_directory(&schema_folder(self, schema), |entry, file_name| {
-            if entry.file_type()?.is_dir() && file_name != "_kv" {
+            if entry.file_type()?.is_dir() {
                 return Ok(Some(file_name));
             }
             Ok(None)
-- 
2.43.0


From 113d3df7a98d46e290cfc945ad9bb1eef06c872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:23 +0000
Subject: [PATCH 36/50] fix: encode names that are not valid file names in a
 backup directory

---
 crates/bonsaidb-local/src/storage/backup.rs | 62 ++++++++++++++++++---
 1 file changed, 54 insertions(+), 8 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index b7a2c1d..bce9784 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -1,3 +1,4 @@
+use std::fmt::Write;
 use std::fs::DirEntry;
 use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
@@ -276,7 +277,7 @@ impl BackupLocation for Path {
     ) -> Result<(), Self::Error> {
         let container_folder = container_folder(self, schema, database_name, container);
         std::fs::create_dir_all(&container_folder)?;
-        std::fs::write(container_folder.join(name), object)?;
+        std::fs::write(container_folder.join(encode_file_name(name)), object)?;
 
         Ok(())
     }
@@ -284,7 +285,9 @@ impl BackupLocation for Path {
     fn list_schemas(&self) -> Result<Vec<SchemaName>, Self::Error> {
         iterate_directory(self, |entry, file_name| {
             if entry.file_type()?.is_dir() {
-                if let Ok(schema_name) = SchemaName::parse_encoded(file_name.as_str()) {
+                if let Ok(schema_name) =
+                    SchemaName::parse_encoded(&decode_file_name(file_name.as_str()))
+                {
                     return Ok(Some(schema_name));
                 }
             }
@@ -295,7 +298,7 @@ impl BackupLocation for Path {
     fn list_databases(&self, schema: &SchemaName) -> Result<Vec<String>, Self::Error> {
         iterate_directory(&schema_folder(self, schema), |entry, file_name| {
             if entry.file_type()?.is_dir() {
-                return Ok(Some(file_name));
+                return Ok(Some(decode_file_name(&file_name)));
             }
             Ok(None)
         })
@@ -311,7 +314,7 @@ impl BackupLocation for Path {
             &container_folder(self, schema, database_name, container),
             |entry, file_name| {
                 if entry.file_type()?.is_file() {
-                    return Ok(Some(file_name));
+                    return Ok(Some(decode_file_name(&file_name)));
                 }
                 Ok(None)
             },
@@ -325,7 +328,9 @@ impl BackupLocation for Path {
         container: &str,
         name: &str,
     ) -> Result<Vec<u8>, Self::Error> {
-        std::fs::read(container_folder(self, schema, database_name, container).join(name))
+        std::fs::read(
+            container_folder(self, schema, database_name, container).join(encode_file_name(name)),
+        )
     }
 }
 
@@ -422,12 +427,53 @@ impl<T> IoResultExt<T> for Result<T, std::io::Error> {
     }
 }
 
+/// Returns a name of a single file or folder that [`decode_file_name`] decodes
+/// to `name`. Names of documents and keys can contain path separators or be
+/// otherwise invalid as the name of a file.
+fn encode_file_name(name: &str) -> String {
+    if name.is_empty() {
+        return String::from("%");
+    }
+    let only_dots = name == "." || name == "..";
+    let mut encoded = String::with_capacity(name.len());
+    for ch in name.chars() {
+        if matches!(ch, '%' | '/' | '\\' | '\0') || only_dots {
+            let _ = write!(encoded, "%{:02X}", u32::from(ch));
+        } else {
+            encoded.push(ch);
+        }
+    }
+    encoded
+}
+
+/// Decodes a name encoded by [`encode_file_name`]. A name that is not a valid
+/// encoding is returned unchanged.
+fn decode_file_name(file_name: &str) -> String {
+    if file_name == "%" {
+        return String::new();
+    }
+    let mut parts = file_name.split('%');
+    let mut decoded = parts.next().map(str::to_string).unwrap_or_default();
+    for part in parts {
+        let byte = part
+            .get(..2)
+            .and_then(|hex| u8::from_str_radix(hex, 16).ok())
+            .filter(u8::is_ascii);
+        let Some(byte) = byte else {
+            return file_name.to_string();
+        };
+        decoded.push(char::from(byte));
+        decoded.push_str(&part[2..]);
+    }
+    decoded
+}
+
 fn schema_folder(base: &Path, schema: &SchemaName) -> PathBuf {
-    base.join(schema.encoded())
+    base.join(encode_file_name(&schema.encoded()))
 }
 
 fn database_folder(base: &Path, schema: &SchemaName, database_name: &str) -> PathBuf {
-    schema_folder(base, schema).join(database_name)
+    schema_folder(base, schema).join(encode_file_name(database_name))
 }
 
 fn container_folder(
@@ -436,7 +482,7 @@ fn container_folder(
     database_name: &str,
     container: &str,
 ) -> PathBuf {
-    database_folder(base, schema, database_name).join(container)
+    database_folder(base, schema, database_name).join(encode_file_name(container))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7f05d3a0df2d7db8bcb8169d78d4751d8ffbf5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:23 +0000
Subject: [PATCH 37/50] fix: back up keys of namespaces that contain the
 separator

---
 crates/bonsaidb-local/src/storage/backup.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index bce9784..b6dc10b 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -123,7 +123,14 @@ impl Storage {
             }
         }
         for ((namespace, key), entry) in database.all_key_value_entries()? {
-            let full_name = format!("{}._key._{key}", namespace.as_deref().unwrap_or(""));
+            // The namespace ends at the first separator, which it must not
+            // contain itself.
+            let namespace = namespace
+                .as_deref()
+                .unwrap_or("")
+                .replace('%', "%25")
+                .replace('.', "%2E");
+            let full_name = format!("{namespace}._key._{key}");
             location.store(
                 &schema,
                 database.name(),
@@ -175,7 +182,7 @@ impl Storage {
                 let namespace = if namespace.is_empty() {
                     None
                 } else {
-                    Some(namespace.to_string())
+                    Some(namespace.replace("%2E", ".").replace("%25", "%"))
                 };
                 entry.restore(namespace, key.to_string(), database)?;
             }
-- 
2.43.0


From 6ae99cfa4ecda70fd9e39ac31e163095ce9f70c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:27 +0000
Subject: [PATCH 38/50] fix: restore databases without contents

---
 crates/bonsaidb-local/src/storage/backup.rs | 24 +++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index b6dc10b..08108a5 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -3,11 +3,12 @@ use std::fs::DirEntry;
 use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
 
+use bonsaidb_core::admin::{self, ADMIN_DATABASE_NAME};
 use bonsaidb_core::connection::{LowLevelConnection, Range, Sort, StorageConnection};
 use bonsaidb_core::document::DocumentId;
-use bonsaidb_core::schema::{Collection, Qualified, SchemaName};
+use bonsaidb_core::schema::{Collection, Qualified, SchemaName, SerializedCollection};
 use bonsaidb_core::transaction::{Operation, Transaction};
-use bonsaidb_core::{admin, AnyError};
+use bonsaidb_core::AnyError;
 
 use crate::database::keyvalue::Entry;
 use crate::database::DatabaseNonBlocking;
@@ -92,12 +93,31 @@ impl Storage {
                     self.instance
                         .database_without_schema(&database, Some(self), None)?;
                 Self::restore_database(&database, location)?;
+                if database.name() == ADMIN_DATABASE_NAME {
+                    self.restore_database_list(&schema, location)?;
+                }
             }
         }
 
         Ok(())
     }
 
+    /// Creates the databases listed in the admin database. Databases without
+    /// any contents are not stored anywhere else.
+    fn restore_database_list<L: AnyBackupLocation>(
+        &self,
+        admin_schema: &SchemaName,
+        location: &L,
+    ) -> Result<(), Error> {
+        let container = admin::Database::collection_name().encoded();
+        for id in location.list_stored(admin_schema, ADMIN_DATABASE_NAME, &container)? {
+            let contents = location.load(admin_schema, ADMIN_DATABASE_NAME, &container, &id)?;
+            let database = admin::Database::deserialize(&contents)?;
+            self.create_database_with_schema(&database.name, database.schema, true)?;
+        }
+        Ok(())
+    }
+
     pub(crate) fn backup_database(
         database: &Database,
         location: &dyn AnyBackupLocation,
-- 
2.43.0


From 812549c693efa84d88bc91731663227ea3bfa0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 39/50] fix: seeking in a file from its end or to a negative
 position does not panic

---
 crates/bonsaidb-files/src/direct.rs | 51 ++++++++++-------------------
 1 file changed, 18 insertions(+), 33 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 3b6de45..925d68f 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -941,6 +941,13 @@ impl<Database: Clone, Config: FileConfig> Contents<Database, Config> {
         self.blocks.last().map(|b| b.timestamp)
     }
 
+    fn position(&self) -> u64 {
+        match self.blocks.get(self.current_block) {
+            Some(block) => block.offset + u64::try_from(self.offset).unwrap(),
+            None => self.len(),
+        }
+    }
+
     fn non_blocking_read_block(&mut self) -> NonBlockingBlockReadResult {
         let block = self.loaded.pop_front();
 
@@ -1031,30 +1038,16 @@ impl<Database: Connection + Clone, Config: FileConfig> Read
 impl<Database: Clone, Config: FileConfig> Seek for Contents<Database, Config> {
     fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
         let seek_to = match pos {
-            SeekFrom::Start(offset) => offset,
-            SeekFrom::End(from_end) => {
-                if from_end < 0 {
-                    self.len() - u64::try_from(from_end.saturating_abs()).unwrap()
-                } else {
-                    // Seek to the end
-                    self.len()
-                }
-            }
-            SeekFrom::Current(from_current) => {
-                if self.blocks.is_empty() {
-                    return Ok(0);
-                }
-
-                u64::try_from(
-                    i64::try_from(
-                        self.blocks[self.current_block].offset
-                            + u64::try_from(self.offset).unwrap(),
-                    )
-                    .unwrap()
-                        + from_current,
-                )
-                .unwrap()
-            }
+            SeekFrom::Start(offset) => Some(offset),
+            // Seeking past the end seeks to the end.
+            SeekFrom::End(from_end) => self.len().checked_add_signed(from_end.min(0)),
+            SeekFrom::Current(from_current) => self.position().checked_add_signed(from_current),
+        };
+        let Some(seek_to) = seek_to else {
+            return Err(std::io::Error::new(
+                ErrorKind::InvalidInput,
+                "invalid seek to a negative or overflowing position",
+            ));
         };
         if let Some((index, block)) = self
             .blocks
@@ -1093,15 +1086,7 @@ impl<
         self: std::pin::Pin<&mut Self>,
         _cx: &mut std::task::Context<'_>,
     ) -> Poll<std::io::Result<u64>> {
-        if self.blocks.is_empty() {
-            Poll::Ready(Ok(0))
-        } else if self.current_block < self.blocks.len() {
-            Poll::Ready(Ok(
-                self.blocks[self.current_block].offset + u64::try_from(self.offset).unwrap()
-            ))
-        } else {
-            Poll::Ready(Ok(self.len()))
-        }
+        Poll::Ready(Ok(self.position()))
     }
 }
 
-- 
2.43.0


From 9dfba6c33dbd94906063d24891d870eeebd5572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 40/50] fix: reading no bytes of a file does not skip its
 contents

---
 crates/bonsaidb-files/src/direct.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 925d68f..9a682cc 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1021,6 +1021,9 @@ impl<Database: Connection + Clone, Config: FileConfig> Read
     for Contents<Blocking<Database>, Config>
 {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
         loop {
             match self.non_blocking_read(|block| {
                 let bytes_to_read = buf.len().min(block.len());
@@ -1101,6 +1104,9 @@ impl<
         cx: &mut std::task::Context<'_>,
         buf: &mut tokio::io::ReadBuf<'_>,
     ) -> Poll<std::io::Result<()>> {
+        if buf.remaining() == 0 {
+            return Poll::Ready(Ok(()));
+        }
         self.spawn_block_fetching_task();
         loop {
             match self.non_blocking_read(|block| {
-- 
2.43.0


From 30f60a18021a5155452a6b89a8d44eb56aaf4c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 41/50] fix: reading a file whose blocks were removed, or after
 seeking during an async read, returns no other block's contents

---
 crates/bonsaidb-files/src/direct.rs | 75 ++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 9a682cc..79b2b5d 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1,6 +1,4 @@
-#[cfg(feature = "async")]
-use std::collections::BTreeMap;
-use std::collections::VecDeque;
+use std::collections::{BTreeMap, VecDeque};
 use std::io::{ErrorKind, Read, Seek, SeekFrom, Write};
 use std::marker::PhantomData;
 #[cfg(feature = "async")]
@@ -704,7 +702,8 @@ pub struct Contents<Database: Clone, Config: FileConfig> {
 struct AsyncBlockTask {
     block_receiver:
         flume::r#async::RecvFut<'static, Result<BTreeMap<u64, Vec<u8>>, std::io::Error>>,
-    requested: bool,
+    /// The index of the first block requested, and the ids of all of them.
+    requested: Option<(usize, Vec<u64>)>,
     request_sender: flume::Sender<Vec<u64>>,
 }
 
@@ -762,19 +761,10 @@ impl<Database: Connection + Clone, Config: FileConfig> Contents<Blocking<Databas
 
     fn load_blocks(&mut self) -> std::io::Result<()> {
         self.loaded.clear();
-        for (index, (_, contents)) in
-            schema::block::Block::<Config>::load(&self.next_blocks(), &self.database.0)
-                .map_err(|err| std::io::Error::new(ErrorKind::Other, err))?
-                .into_iter()
-                .enumerate()
-        {
-            self.loaded.push_back(LoadedBlock {
-                index: self.current_block + index,
-                contents,
-            });
-        }
-
-        Ok(())
+        let block_ids = self.next_blocks();
+        let blocks = schema::block::Block::<Config>::load(&block_ids, &self.database.0)
+            .map_err(|err| std::io::Error::new(ErrorKind::Other, err))?;
+        self.push_loaded_blocks(self.current_block, &block_ids, blocks)
     }
 }
 
@@ -835,7 +825,7 @@ impl<
             self.async_blocks = Some(AsyncBlockTask {
                 block_receiver: block_receiver.into_recv_async(),
                 request_sender,
-                requested: false,
+                requested: None,
             });
         }
     }
@@ -844,7 +834,7 @@ impl<
         &mut self,
         cx: &mut std::task::Context<'_>,
     ) -> Poll<Result<bool, std::io::Error>> {
-        if self.async_blocks.as_mut().unwrap().requested {
+        if self.async_blocks.as_mut().unwrap().requested.is_some() {
             match ready!(self
                 .async_blocks
                 .as_mut()
@@ -853,17 +843,21 @@ impl<
                 .poll_unpin(cx))
             {
                 Ok(Ok(blocks)) => {
-                    self.async_blocks.as_mut().unwrap().requested = false;
-                    for (index, (_, contents)) in blocks.into_iter().enumerate() {
-                        let loaded_block = LoadedBlock {
-                            index: self.current_block + index,
-                            contents,
-                        };
-                        self.loaded.push_back(loaded_block);
-                    }
+                    // The position may have changed since the request.
+                    let (first_block, block_ids) = self
+                        .async_blocks
+                        .as_mut()
+                        .unwrap()
+                        .requested
+                        .take()
+                        .unwrap();
+                    self.push_loaded_blocks(first_block, &block_ids, blocks)?;
                     Poll::Ready(Ok(true))
                 }
-                Ok(Err(db_err)) => Poll::Ready(Err(std::io::Error::new(ErrorKind::Other, db_err))),
+                Ok(Err(db_err)) => {
+                    self.async_blocks.as_mut().unwrap().requested = None;
+                    Poll::Ready(Err(std::io::Error::new(ErrorKind::Other, db_err)))
+                }
                 Err(flume_error) => {
                     Poll::Ready(Err(std::io::Error::new(ErrorKind::BrokenPipe, flume_error)))
                 }
@@ -874,7 +868,8 @@ impl<
                 return Poll::Ready(Ok(false));
             }
             self.loaded.clear();
-            self.async_blocks.as_mut().unwrap().requested = true;
+            self.async_blocks.as_mut().unwrap().requested =
+                Some((self.current_block, blocks.clone()));
             if let Err(err) = self
                 .async_blocks
                 .as_mut()
@@ -941,6 +936,28 @@ impl<Database: Clone, Config: FileConfig> Contents<Database, Config> {
         self.blocks.last().map(|b| b.timestamp)
     }
 
+    fn push_loaded_blocks(
+        &mut self,
+        first_block: usize,
+        block_ids: &[u64],
+        mut blocks: BTreeMap<u64, Vec<u8>>,
+    ) -> std::io::Result<()> {
+        for (index, id) in block_ids.iter().enumerate() {
+            // Blocks can be removed while the file is being read.
+            let contents = blocks.remove(id).ok_or_else(|| {
+                std::io::Error::new(
+                    ErrorKind::UnexpectedEof,
+                    "the file was truncated or deleted while being read",
+                )
+            })?;
+            self.loaded.push_back(LoadedBlock {
+                index: first_block + index,
+                contents,
+            });
+        }
+        Ok(())
+    }
+
     fn position(&self) -> u64 {
         match self.blocks.get(self.current_block) {
             Some(block) => block.offset + u64::try_from(self.offset).unwrap(),
-- 
2.43.0


From 79ea0a8d6724892931698f47309d66d6316d8caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 42/50] fix: an async read of a file does not lose bytes while
 waiting for further blocks

---
 crates/bonsaidb-files/src/direct.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 79b2b5d..16bda27 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1125,6 +1125,7 @@ impl<
             return Poll::Ready(Ok(()));
         }
         self.spawn_block_fetching_task();
+        let already_filled = buf.filled().len();
         loop {
             match self.non_blocking_read(|block| {
                 let bytes_to_read = buf.remaining().min(block.len());
@@ -1133,6 +1134,10 @@ impl<
             }) {
                 NonBlockingReadResult::NeedBlocks => match self.fetch_blocks(cx) {
                     Poll::Ready(Ok(true)) => continue,
+                    // Bytes that have been read must be returned before waiting.
+                    Poll::Pending if buf.filled().len() > already_filled => {
+                        return Poll::Ready(Ok(()))
+                    }
                     Poll::Pending => return Poll::Pending,
                     Poll::Ready(Ok(false)) => return Poll::Ready(Ok(())),
                     Poll::Ready(Err(err)) => return Poll::Ready(Err(err)),
-- 
2.43.0


From 4a16d6d69726cfcfb45f1c3cd5c7d73755652d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 43/50] fix: the remaining contents of a partially read file
 can be read asynchronously

---
 crates/bonsaidb-files/src/direct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 16bda27..2d35638 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -784,8 +784,8 @@ impl<
     /// read, this returns the entire contents.
     #[allow(clippy::missing_panics_doc)] // Not reachable
     pub async fn into_vec(mut self) -> std::io::Result<Vec<u8>> {
-        let mut contents = vec![0; usize::try_from(self.len()).unwrap()];
-        <Self as tokio::io::AsyncReadExt>::read_exact(&mut self, &mut contents).await?;
+        let mut contents = Vec::with_capacity(usize::try_from(self.len()).unwrap());
+        <Self as tokio::io::AsyncReadExt>::read_to_end(&mut self, &mut contents).await?;
         Ok(contents)
     }
 
-- 
2.43.0


From dd1581ba29e33dae8444003a3392ee7142fdbdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 44/50] fix: an async flush that completes at once is not
 polled again

---
 crates/bonsaidb-files/src/direct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 2d35638..dcd80c8 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1363,7 +1363,9 @@ impl<'a, Config: FileConfig, Database: AsyncConnection + Clone + 'static> tokio:
             }
             .boxed();
             let poll_result = flush_task.poll_unpin(cx);
-            self.flush_future = Some(flush_task);
+            if poll_result.is_pending() {
+                self.flush_future = Some(flush_task);
+            }
             poll_result
         }
     }
-- 
2.43.0


From b1fd30a154a7923904d3ba36032670a8b70a1ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:48 +0000
Subject: [PATCH 45/50] fix: a file cannot be renamed to an empty name

---
 crates/bonsaidb-files/src/direct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index dcd80c8..196e356 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -157,7 +157,7 @@ where
 
     /// Renames this file to the new name.
     pub fn rename(&mut self, new_name: String) -> Result<(), Error> {
-        if new_name.as_bytes().contains(&b'/') {
+        if new_name.as_bytes().contains(&b'/') || new_name.is_empty() {
             return Err(Error::InvalidName);
         }
 
@@ -388,7 +388,7 @@ where
 
     /// Renames this file to the new name.
     pub async fn rename(&mut self, new_name: String) -> Result<(), Error> {
-        if new_name.as_bytes().contains(&b'/') {
+        if new_name.as_bytes().contains(&b'/') || new_name.is_empty() {
             return Err(Error::InvalidName);
         }
 
-- 
2.43.0


From f50d00ec682e3c153b2649344182212d668f3e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 46/50] fix: deleting a file removes the file and its blocks
 together

---
 crates/bonsaidb-files/src/direct.rs      |  9 +----
 crates/bonsaidb-files/src/schema/file.rs | 50 ++++++++++++++++++++++++
 2 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 196e356..ee00682 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -171,9 +171,7 @@ where
 
     /// Deletes the file.
     pub fn delete(&self) -> Result<(), Error> {
-        schema::block::Block::<Config>::delete_for_file(self.doc.header.id, &self.database.0)?;
-        self.doc.delete(&self.database.0)?;
-        Ok(())
+        schema::file::File::<Config>::delete_file(&self.doc, &self.database.0)
     }
 
     fn map_block_metadata<F: FnOnce(BlockAppendInfo) -> T, T>(
@@ -402,10 +400,7 @@ where
 
     /// Deletes the file.
     pub async fn delete(&self) -> Result<(), Error> {
-        schema::block::Block::<Config>::delete_for_file_async(self.doc.header.id, &self.database.0)
-            .await?;
-        self.doc.delete_async(&self.database.0).await?;
-        Ok(())
+        schema::file::File::<Config>::delete_file_async(&self.doc, &self.database.0).await
     }
 
     async fn map_block_metadata<F: FnOnce(BlockAppendInfo) -> T, T>(
diff --git a/crates/bonsaidb-files/src/schema/file.rs b/crates/bonsaidb-files/src/schema/file.rs
index 9442ed2..18604a6 100644
--- a/crates/bonsaidb-files/src/schema/file.rs
+++ b/crates/bonsaidb-files/src/schema/file.rs
@@ -308,6 +308,56 @@ where
         Ok(())
     }
 
+    pub fn delete_file<Database: Connection>(
+        file: &CollectionDocument<Self>,
+        database: &Database,
+    ) -> Result<(), Error> {
+        let blocks = Block::<Config>::for_file(file.header.id, database)?;
+        Self::create_delete_transaction(file, &blocks)?
+            .apply(database)
+            .map_err(Error::from)?;
+        // Once the file is gone nothing can be appended. Remove the blocks that
+        // were appended between the two calls above.
+        Block::<Config>::delete_for_file(file.header.id, database)?;
+        Ok(())
+    }
+
+    #[cfg(feature = "async")]
+    pub async fn delete_file_async<Database: AsyncConnection>(
+        file: &CollectionDocument<Self>,
+        database: &Database,
+    ) -> Result<(), Error> {
+        let blocks = Block::<Config>::for_file_async(file.header.id, database).await?;
+        Self::create_delete_transaction(file, &blocks)?
+            .apply_async(database)
+            .await
+            .map_err(Error::from)?;
+        // Once the file is gone nothing can be appended. Remove the blocks that
+        // were appended between the two calls above.
+        Block::<Config>::delete_for_file_async(file.header.id, database).await?;
+        Ok(())
+    }
+
+    /// Deletes the file and its blocks together: if the file can't be deleted,
+    /// its contents remain.
+    fn create_delete_transaction(
+        file: &CollectionDocument<Self>,
+        blocks: &[BlockInfo],
+    ) -> Result<Transaction, bonsaidb_core::Error> {
+        let mut tx = Transaction::new();
+        tx.push(Operation::delete(
+            Config::files_name(),
+            Header::try_from(file.header)?,
+        ));
+        for block in blocks {
+            tx.push(Operation::delete(
+                Config::blocks_name(),
+                Header::try_from(block.header)?,
+            ));
+        }
+        Ok(tx)
+    }
+
     fn create_truncate_transaction(
         mut blocks: Vec<BlockInfo>,
         new_length: u64,
-- 
2.43.0


From 3f1ddda596914915118b0e233b3ce0e968fe4c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:58 +0000
Subject: [PATCH 47/50] fix: data written compressed or encrypted stays
 readable when both are turned off

---
 crates/bonsaidb-local/src/storage.rs | 34 ++++++++++++++++------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 224d885..db19fc0 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1564,20 +1564,20 @@ pub(crate) struct TreeVault {
 
 #[cfg(all(feature = "compression", feature = "encryption"))]
 impl TreeVault {
+    /// Returns a vault that writes using the current configuration. A vault is
+    /// needed even if neither compression nor encryption are configured:
+    /// existing data may have been written using a different configuration.
+    #[allow(clippy::unnecessary_wraps)]
     pub(crate) fn new_if_needed(
         key: Option<KeyId>,
         vault: &Arc<Vault>,
         compression: Option<Compression>,
     ) -> Option<Self> {
-        if key.is_none() && compression.is_none() {
-            None
-        } else {
-            Some(Self {
-                key,
-                compression,
-                vault: vault.clone(),
-            })
-        }
+        Some(Self {
+            key,
+            compression,
+            vault: vault.clone(),
+        })
     }
 
     fn header(&self, compressed: bool) -> u8 {
@@ -1705,10 +1705,12 @@ impl StorageNonBlocking for Storage {
 
 #[cfg(all(feature = "compression", not(feature = "encryption")))]
 impl TreeVault {
+    /// Returns a vault that writes using the current configuration. A vault is
+    /// needed even if neither compression nor encryption are configured:
+    /// existing data may have been written using a different configuration.
+    #[allow(clippy::unnecessary_wraps)]
     pub(crate) fn new_if_needed(compression: Option<Compression>) -> Option<Self> {
-        compression.map(|compression| Self {
-            compression: Some(compression),
-        })
+        Some(Self { compression })
     }
 }
 
@@ -1761,9 +1763,13 @@ impl nebari::Vault for TreeVault {
 
 #[cfg(all(not(feature = "compression"), feature = "encryption"))]
 impl TreeVault {
+    /// Returns a vault that writes using the current configuration. A vault is
+    /// needed even if neither compression nor encryption are configured:
+    /// existing data may have been written using a different configuration.
+    #[allow(clippy::unnecessary_wraps)]
     pub(crate) fn new_if_needed(key: Option<KeyId>, vault: &Arc<Vault>) -> Option<Self> {
-        key.map(|key| Self {
-            key: Some(key),
+        Some(Self {
+            key,
             vault: vault.clone(),
         })
     }
-- 
2.43.0


From 271ccbb20dc15273c4c52bbd9b2cb300d570d086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:59 +0000
Subject: [PATCH 48/50] fix: a connection being established while the server
 shuts down does not panic

---
 crates/bonsaidb-server/src/server/websockets.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-server/src/server/websockets.rs b/crates/bonsaidb-server/src/server/websockets.rs
index 7bbf569..98115a7 100644
--- a/crates/bonsaidb-server/src/server/websockets.rs
+++ b/crates/bonsaidb-server/src/server/websockets.rs
@@ -101,12 +101,11 @@ impl<B: Backend> CustomServer<B> {
         connection: S,
         peer_address: std::net::SocketAddr,
     ) {
-        let mut shutdown = self
-            .data
-            .shutdown
-            .watcher()
-            .await
-            .expect("watcher shut down");
+        let Some(mut shutdown) = self.data.shutdown.watcher().await else {
+            // The server began shutting down while this connection was being
+            // established.
+            return;
+        };
 
         let (mut sender, mut receiver) = connection.split();
         let (response_sender, response_receiver) = flume::unbounded();
-- 
2.43.0


From 2eb03a2a808b02749e142d7885f4b0de92f38345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:13 +0000
Subject: [PATCH 49/50] fix: a session of a previous connection is not used on
 a new connection

---
 crates/bonsaidb-client/src/client.rs           | 18 ++++++++++++++++++
 .../bonsaidb-client/src/client/quic_worker.rs  |  8 ++++----
 .../src/client/tungstenite_worker.rs           |  8 ++++----
 .../src/client/wasm_websocket_worker.rs        |  4 ++--
 4 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/crates/bonsaidb-client/src/client.rs b/crates/bonsaidb-client/src/client.rs
index 6f4ad04..8f78a47 100644
--- a/crates/bonsaidb-client/src/client.rs
+++ b/crates/bonsaidb-client/src/client.rs
@@ -498,6 +498,8 @@ impl AsyncClient {
                 name,
                 value: Ok(bytes),
             },
+            session_connection_id: self.session.connection_id,
+            connection_counter: self.data.connection_counter.clone(),
             responder: result_sender,
         })?;
 
@@ -855,9 +857,25 @@ type PendingRequestResponder = Sender<Result<Bytes, Error>>;
 #[derive(Debug)]
 pub struct PendingRequest {
     request: Payload,
+    session_connection_id: u32,
+    connection_counter: Arc<AtomicU32>,
     responder: PendingRequestResponder,
 }
 
+impl PendingRequest {
+    /// Returns the payload to send over the current connection.
+    ///
+    /// Session ids are only valid on the connection that they were created on.
+    /// If this request's session belongs to a previous connection, the payload
+    /// will not refer to it: the id could refer to another session by now.
+    fn payload(&mut self) -> &Payload {
+        if self.connection_counter.load(Ordering::SeqCst) != self.session_connection_id {
+            self.request.session_id = None;
+        }
+        &self.request
+    }
+}
+
 async fn process_response_payload(
     payload: Payload,
     outstanding_requests: &OutstandingRequestMapHandle,
diff --git a/crates/bonsaidb-client/src/client/quic_worker.rs b/crates/bonsaidb-client/src/client/quic_worker.rs
index 7c3dcf0..1ff6522 100644
--- a/crates/bonsaidb-client/src/client/quic_worker.rs
+++ b/crates/bonsaidb-client/src/client/quic_worker.rs
@@ -66,7 +66,7 @@ async fn connect_and_process(
     url: &Url,
     protocol_version: &str,
     certificate: Option<&Certificate>,
-    initial_request: PendingRequest,
+    mut initial_request: PendingRequest,
     request_receiver: &Receiver<PendingRequest>,
     custom_apis: Arc<HashMap<ApiName, Option<Arc<dyn AnyApiCallback>>>>,
     connect_timeout: Duration,
@@ -87,7 +87,7 @@ async fn connect_and_process(
         custom_apis,
     ));
 
-    if let Err(err) = payload_sender.send(&initial_request.request) {
+    if let Err(err) = payload_sender.send(initial_request.payload()) {
         return Err((Some(initial_request), Some(Error::from(err))));
     }
 
@@ -124,9 +124,9 @@ async fn process_requests(
     request_receiver: &Receiver<PendingRequest>,
     payload_sender: fabruic::Sender<Payload>,
 ) -> Result<(), Error> {
-    while let Ok(client_request) = request_receiver.recv_async().await {
+    while let Ok(mut client_request) = request_receiver.recv_async().await {
         let mut outstanding_requests = fast_async_lock!(outstanding_requests);
-        payload_sender.send(&client_request.request)?;
+        payload_sender.send(client_request.payload())?;
         outstanding_requests.insert(
             client_request.request.id.expect("all requests require ids"),
             client_request,
diff --git a/crates/bonsaidb-client/src/client/tungstenite_worker.rs b/crates/bonsaidb-client/src/client/tungstenite_worker.rs
index 7437822..d9da84f 100644
--- a/crates/bonsaidb-client/src/client/tungstenite_worker.rs
+++ b/crates/bonsaidb-client/src/client/tungstenite_worker.rs
@@ -27,7 +27,7 @@ pub(super) async fn reconnecting_client_loop(
     connection_counter: Arc<AtomicU32>,
 ) -> Result<(), Error> {
     let mut pending_error = None;
-    while let Ok(request) = {
+    while let Ok(mut request) = {
         server.subscribers.clear();
         request_receiver.recv_async().await
     } {
@@ -72,7 +72,7 @@ pub(super) async fn reconnecting_client_loop(
         {
             let mut outstanding_requests = fast_async_lock!(outstanding_requests);
             if let Err(err) = sender
-                .send(Message::Binary(bincode::serialize(&request.request)?))
+                .send(Message::Binary(bincode::serialize(request.payload())?))
                 .await
             {
                 drop(request.responder.send(Err(Error::from(err))));
@@ -103,10 +103,10 @@ async fn request_sender(
     mut sender: SplitSink<WebSocketStream<MaybeTlsStream<TcpStream>>, Message>,
     outstanding_requests: OutstandingRequestMapHandle,
 ) -> Result<(), Error> {
-    while let Ok(pending) = request_receiver.recv_async().await {
+    while let Ok(mut pending) = request_receiver.recv_async().await {
         let mut outstanding_requests = fast_async_lock!(outstanding_requests);
         sender
-            .send(Message::Binary(bincode::serialize(&pending.request)?))
+            .send(Message::Binary(bincode::serialize(pending.payload())?))
             .await?;
 
         outstanding_requests.insert(
diff --git a/crates/bonsaidb-client/src/client/wasm_websocket_worker.rs b/crates/bonsaidb-client/src/client/wasm_websocket_worker.rs
index 862ce13..706aaf0 100644
--- a/crates/bonsaidb-client/src/client/wasm_websocket_worker.rs
+++ b/crates/bonsaidb-client/src/client/wasm_websocket_worker.rs
@@ -196,11 +196,11 @@ fn on_open_callback(
 #[allow(clippy::future_not_send)]
 async fn send_request(
     ws: &WebSocket,
-    pending: PendingRequest,
+    mut pending: PendingRequest,
     requests: &OutstandingRequestMapHandle,
 ) -> bool {
     let mut outstanding_requests = fast_async_lock!(requests);
-    let bytes = match bincode::serialize(&pending.request) {
+    let bytes = match bincode::serialize(pending.payload()) {
         Ok(bytes) => bytes,
         Err(err) => {
             drop(pending.responder.send(Err(Error::from(err))));
-- 
2.43.0


From 93321578173c89684c69708fa8242e7d5cf43702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:10:47 +0000
Subject: [PATCH 50/50] fix: deleting a database waits for its jobs

---
 crates/bonsaidb-local/src/database.rs         | 26 ++++++++++++++++++-
 .../bonsaidb-local/src/database/keyvalue.rs   |  1 +
 crates/bonsaidb-local/src/storage.rs          |  4 ++-
 crates/bonsaidb-local/src/tasks/compactor.rs  |  1 +
 .../src/views/integrity_scanner.rs            |  1 +
 crates/bonsaidb-local/src/views/mapper.rs     |  1 +
 6 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 233d3cd..f56e531 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -41,7 +41,7 @@ use nebari::tree::{
     Unversioned, Versioned,
 };
 use nebari::{AbortError, ExecutingTransaction, Roots, Tree};
-use parking_lot::{Mutex, MutexGuard};
+use parking_lot::{Mutex, MutexGuard, RwLock, RwLockReadGuard};
 use serde::{Deserialize, Serialize};
 use watchable::Watchable;
 
@@ -222,6 +222,20 @@ impl Database {
         self.data.context.tree_files.lock()
     }
 
+    /// Begins a job that works on the files of this database, which aren't
+    /// deleted until the returned guard is dropped. Fails if the database has
+    /// been deleted, as its files may be those of a new database by now.
+    pub(crate) fn begin_job(&self) -> Result<RwLockReadGuard<'_, bool>, Error> {
+        let deleted = self.data.context.deleted.read();
+        if *deleted {
+            Err(Error::Core(bonsaidb_core::Error::DatabaseNotFound(
+                self.data.name.to_string(),
+            )))
+        } else {
+            Ok(deleted)
+        }
+    }
+
     fn for_each_in_view<F: FnMut(ViewEntry) -> Result<(), bonsaidb_core::Error> + Send + Sync>(
         &self,
         view: &dyn view::Serialized,
@@ -1745,6 +1759,9 @@ pub(crate) struct ContextData {
     pub(crate) roots: Roots<AnyFile>,
     /// Locked while tree files are being replaced or deleted.
     tree_files: Mutex<()>,
+    /// Whether the database has been deleted. Read-locked while a job works on
+    /// the files of the database.
+    deleted: RwLock<bool>,
     key_value_state: Arc<Mutex<keyvalue::KeyValueState>>,
 }
 
@@ -1775,6 +1792,7 @@ impl Context {
                 id: NEXT_CONTEXT_ID.fetch_add(1, Ordering::Relaxed),
                 roots,
                 tree_files: Mutex::default(),
+                deleted: RwLock::default(),
                 key_value_state,
             }),
         };
@@ -1791,6 +1809,12 @@ impl Context {
         context
     }
 
+    /// Waits for the jobs that are working on the files of this database, and
+    /// keeps others from beginning to.
+    pub(crate) fn mark_deleted(&self) {
+        *self.data.deleted.write() = true;
+    }
+
     pub(crate) fn perform_kv_operation(
         &self,
         op: KeyOperation,
diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 7f9c48d..ead242c 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -878,6 +878,7 @@ impl Job for ExpirationLoader {
 
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip_all))]
     fn execute(&mut self) -> Result<Self::Output, Self::Error> {
+        let _job = self.database.begin_job()?;
         let database = self.database.clone();
 
         {
diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index db19fc0..6919c84 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -688,7 +688,9 @@ impl StorageInstance {
 
     fn delete_database_files(&self, name: &str) -> Result<(), Error> {
         let mut open_roots = self.data.open_roots.lock();
-        open_roots.remove(name);
+        if let Some(context) = open_roots.remove(name) {
+            context.mark_deleted();
+        }
         self.data
             .file_manager
             .delete_directory(self.data.path.join(name))?;
diff --git a/crates/bonsaidb-local/src/tasks/compactor.rs b/crates/bonsaidb-local/src/tasks/compactor.rs
index ab5b0bf..ea89328 100644
--- a/crates/bonsaidb-local/src/tasks/compactor.rs
+++ b/crates/bonsaidb-local/src/tasks/compactor.rs
@@ -89,6 +89,7 @@ impl Job for Compactor {
 
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip_all))]
     fn execute(&mut self) -> Result<Self::Output, Error> {
+        let _job = self.database.begin_job()?;
         // Nebari doesn't support compacting a tree more than once at the same
         // time, but the trees of a collection are also compacted when its
         // database is.
diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index 2009d1d..7861a12 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -42,6 +42,7 @@ impl Job for IntegrityScanner {
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip_all))]
     #[allow(clippy::too_many_lines)]
     fn execute(&mut self) -> Result<Self::Output, Self::Error> {
+        let _job = self.database.begin_job()?;
         let documents =
             self.database
                 .roots()
diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index cb86426..e106be3 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -39,6 +39,7 @@ impl Job for Mapper {
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip_all))]
     #[allow(clippy::too_many_lines)]
     fn execute(&mut self) -> Result<Self::Output, Error> {
+        let _job = self.database.begin_job()?;
         let documents =
             self.database
                 .roots()
-- 
2.43.0

