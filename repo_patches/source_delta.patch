From 58d3b294621289899b35b87646f669f7e8ed0067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 01/15] fix: keep inbox channels in separate folders inside of
 the storage folder

---
 .../server/messages_inbox/stored_queue.rs     | 32 +++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index 283a7cd..d18c21d 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -40,6 +40,30 @@ impl StoredQueueMessagesInbox {
             storage_folder
         })
     }
+
+    /// Get path to the folder with messages of the given receiver's channel.
+    fn inbox_folder(&self, receiver: &PublicKey, channel: &str) -> PathBuf {
+        self.storage_folder
+            .join(receiver.to_base64())
+            .join(channel_folder_name(channel))
+    }
+}
+
+/// Get name of the channel's folder.
+///
+/// Channel names are chosen by remote clients, so they
+/// must be converted to a single unique path component.
+fn channel_folder_name(channel: &str) -> String {
+    match channel {
+        ""   => String::from("%"),
+        "."  => String::from("%2E"),
+        ".." => String::from("%2E%2E"),
+
+        _ => channel.replace('%', "%25")
+            .replace('/', "%2F")
+            .replace('\\', "%5C")
+            .replace('\0', "%00")
+    }
 }
 
 #[async_trait::async_trait]
@@ -61,9 +85,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
             "Adding new message"
         );
 
-        let folder = self.storage_folder
-            .join(receiver.to_base64())
-            .join(&channel);
+        let folder = self.inbox_folder(&receiver, &channel);
 
         tokio::fs::create_dir_all(&folder).await?;
 
@@ -103,9 +125,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
             "Polling messages"
         );
 
-        let folder = self.storage_folder
-            .join(receiver.to_base64())
-            .join(&channel);
+        let folder = self.inbox_folder(&receiver, &channel);
 
         if let Ok(index) = tokio::fs::read(folder.join("index")).await {
             assert!(index.len() % 8 == 0);
-- 
2.43.0


From 68b4a623bc0557de5ac4f2ebe469ae52a95e89c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 02/15] fix: keep the messages inbox intact when an operation
 fails or is cut off

Message file is written before its id appears in the index, the index is
replaced atomically, messages are deleted after they left the index, and
failures to read stored files are no longer taken for missing files.
---
 .../server/messages_inbox/stored_queue.rs     | 90 +++++++++++++------
 1 file changed, 62 insertions(+), 28 deletions(-)

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index d18c21d..86280d3 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -1,4 +1,5 @@
-use std::path::PathBuf;
+use std::io::ErrorKind;
+use std::path::{Path, PathBuf};
 
 use serde_json::Value as Json;
 
@@ -66,6 +67,30 @@ fn channel_folder_name(channel: &str) -> String {
     }
 }
 
+/// Read messages index from the given inbox folder.
+///
+/// Missing index is an empty one.
+async fn read_index(folder: &Path) -> std::io::Result<Vec<u8>> {
+    let index = match tokio::fs::read(folder.join("index")).await {
+        Ok(index) => index,
+
+        Err(err) if err.kind() == ErrorKind::NotFound => Vec::new(),
+        Err(err) => return Err(err)
+    };
+
+    if index.len() % 8 != 0 {
+        return Err(std::io::Error::new(ErrorKind::InvalidData, "Messages index is corrupted"));
+    }
+
+    Ok(index)
+}
+
+/// Atomically replace messages index in the given inbox folder.
+async fn write_index(folder: &Path, index: &[u8]) -> std::io::Result<()> {
+    tokio::fs::write(folder.join("index.tmp"), index).await?;
+    tokio::fs::rename(folder.join("index.tmp"), folder.join("index")).await
+}
+
 #[async_trait::async_trait]
 impl MessagesInbox for StoredQueueMessagesInbox {
     type Error = Error;
@@ -89,8 +114,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         tokio::fs::create_dir_all(&folder).await?;
 
-        let mut index = tokio::fs::read(folder.join("index")).await
-            .unwrap_or(vec![]);
+        let mut index = read_index(&folder).await?;
 
         let message_id = safe_random_u64();
 
@@ -105,8 +129,9 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let message_info = serde_json::to_vec(&message_info.to_json()?)?;
 
-        tokio::fs::write(folder.join("index"), index).await?;
+        // Message becomes a part of the inbox when its id gets to the index
         tokio::fs::write(folder.join(message_id.to_string()), message_info).await?;
+        write_index(&folder, &index).await?;
 
         Ok(())
     }
@@ -127,49 +152,58 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let folder = self.inbox_folder(&receiver, &channel);
 
-        if let Ok(index) = tokio::fs::read(folder.join("index")).await {
-            assert!(index.len() % 8 == 0);
+        let index = read_index(&folder).await?;
 
-            let mut bytes = [0; 8];
-            let mut limit = limit.unwrap_or(u64::MAX);
-            let mut shift = 0;
+        let mut bytes = [0; 8];
+        let mut limit = limit.unwrap_or(u64::MAX);
+        let mut shift = 0;
 
-            let mut messages = Vec::new();
+        let mut messages = Vec::new();
 
-            for message_id in index.chunks(8) {
-                if limit == 0 {
-                    break;
-                }
+        for message_id in index.chunks(8) {
+            if limit == 0 {
+                break;
+            }
 
-                bytes.copy_from_slice(message_id);
+            bytes.copy_from_slice(message_id);
 
-                let message_id = u64::from_be_bytes(bytes);
-                let message_path = folder.join(message_id.to_string());
+            let message_id = u64::from_be_bytes(bytes);
+            let message_path = folder.join(message_id.to_string());
 
-                if let Ok(message_info) = tokio::fs::read(&message_path).await {
+            match tokio::fs::read(&message_path).await {
+                Ok(message_info) => {
                     let message_info = serde_json::from_slice::<Json>(&message_info)?;
 
                     messages.push(MessageInfo::from_json(&message_info)?);
 
                     limit -= 1;
-
-                    tokio::fs::remove_file(message_path).await?;
                 }
 
-                shift += 8;
+                Err(err) if err.kind() == ErrorKind::NotFound => (),
+                Err(err) => return Err(err.into())
             }
 
-            let index = &index[shift..];
+            shift += 8;
+        }
 
-            tokio::fs::write(folder.join("index"), index).await?;
+        if shift > 0 {
+            write_index(&folder, &index[shift..]).await?;
 
-            return Ok((
-                messages,
-                (index.len() / 8) as u64
-            ));
+            // Messages are already removed from the inbox,
+            // so it's fine if their files are left behind
+            for message_id in index[..shift].chunks(8) {
+                bytes.copy_from_slice(message_id);
+
+                let message_path = folder.join(u64::from_be_bytes(bytes).to_string());
+
+                let _ = tokio::fs::remove_file(message_path).await;
+            }
         }
 
-        Ok((vec![], 0))
+        Ok((
+            messages,
+            ((index.len() - shift) / 8) as u64
+        ))
     }
 }
 
-- 
2.43.0


From ddb044c74d2804155783fbdf90e7bd665d2be931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 03/15] fix: perform messages inbox operations one at a time

Concurrent operations overwrote each other's changes of the index, and an
abandoned one could be left half done.
---
 .../server/messages_inbox/stored_queue.rs     | 139 +++++++++++-------
 1 file changed, 82 insertions(+), 57 deletions(-)

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index 86280d3..da4b686 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -1,5 +1,6 @@
 use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
+use std::sync::{Arc, Mutex, PoisonError};
 
 use serde_json::Value as Json;
 
@@ -25,7 +26,11 @@ pub enum Error {
 #[derive(Debug, Clone)]
 pub struct StoredQueueMessagesInbox {
     /// Path to the messages inbox's folder.
-    pub storage_folder: PathBuf
+    pub storage_folder: PathBuf,
+
+    /// Every operation reads and then rewrites stored
+    /// index so they can't be performed at the same time.
+    lock: Arc<Mutex<()>>
 }
 
 impl StoredQueueMessagesInbox {
@@ -38,10 +43,26 @@ impl StoredQueueMessagesInbox {
         tokio::fs::create_dir_all(&storage_folder).await?;
 
         Ok(Self {
-            storage_folder
+            storage_folder,
+            lock: Arc::new(Mutex::new(()))
         })
     }
 
+    /// Run given operation exclusively, and to the end
+    /// even if the caller stops waiting for it.
+    async fn exclusive<T: Send + 'static>(
+        &self,
+        operation: impl FnOnce() -> Result<T, Error> + Send + 'static
+    ) -> Result<T, Error> {
+        let lock = self.lock.clone();
+
+        tokio::task::spawn_blocking(move || {
+            let _guard = lock.lock().unwrap_or_else(PoisonError::into_inner);
+
+            operation()
+        }).await.map_err(std::io::Error::other)?
+    }
+
     /// Get path to the folder with messages of the given receiver's channel.
     fn inbox_folder(&self, receiver: &PublicKey, channel: &str) -> PathBuf {
         self.storage_folder
@@ -70,8 +91,8 @@ fn channel_folder_name(channel: &str) -> String {
 /// Read messages index from the given inbox folder.
 ///
 /// Missing index is an empty one.
-async fn read_index(folder: &Path) -> std::io::Result<Vec<u8>> {
-    let index = match tokio::fs::read(folder.join("index")).await {
+fn read_index(folder: &Path) -> std::io::Result<Vec<u8>> {
+    let index = match std::fs::read(folder.join("index")) {
         Ok(index) => index,
 
         Err(err) if err.kind() == ErrorKind::NotFound => Vec::new(),
@@ -86,9 +107,9 @@ async fn read_index(folder: &Path) -> std::io::Result<Vec<u8>> {
 }
 
 /// Atomically replace messages index in the given inbox folder.
-async fn write_index(folder: &Path, index: &[u8]) -> std::io::Result<()> {
-    tokio::fs::write(folder.join("index.tmp"), index).await?;
-    tokio::fs::rename(folder.join("index.tmp"), folder.join("index")).await
+fn write_index(folder: &Path, index: &[u8]) -> std::io::Result<()> {
+    std::fs::write(folder.join("index.tmp"), index)?;
+    std::fs::rename(folder.join("index.tmp"), folder.join("index"))
 }
 
 #[async_trait::async_trait]
@@ -112,28 +133,30 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let folder = self.inbox_folder(&receiver, &channel);
 
-        tokio::fs::create_dir_all(&folder).await?;
+        self.exclusive(move || {
+            std::fs::create_dir_all(&folder)?;
 
-        let mut index = read_index(&folder).await?;
+            let mut index = read_index(&folder)?;
 
-        let message_id = safe_random_u64();
+            let message_id = safe_random_u64();
 
-        index.extend_from_slice(&message_id.to_be_bytes());
+            index.extend_from_slice(&message_id.to_be_bytes());
 
-        let message_info = MessageInfo {
-            sender,
-            channel,
-            message,
-            received_at: timestamp()
-        };
+            let message_info = MessageInfo {
+                sender,
+                channel,
+                message,
+                received_at: timestamp()
+            };
 
-        let message_info = serde_json::to_vec(&message_info.to_json()?)?;
+            let message_info = serde_json::to_vec(&message_info.to_json()?)?;
 
-        // Message becomes a part of the inbox when its id gets to the index
-        tokio::fs::write(folder.join(message_id.to_string()), message_info).await?;
-        write_index(&folder, &index).await?;
+            // Message becomes a part of the inbox when its id gets to the index
+            std::fs::write(folder.join(message_id.to_string()), message_info)?;
+            write_index(&folder, &index)?;
 
-        Ok(())
+            Ok(())
+        }).await
     }
 
     async fn poll_messages(
@@ -152,58 +175,60 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let folder = self.inbox_folder(&receiver, &channel);
 
-        let index = read_index(&folder).await?;
+        self.exclusive(move || {
+            let index = read_index(&folder)?;
 
-        let mut bytes = [0; 8];
-        let mut limit = limit.unwrap_or(u64::MAX);
-        let mut shift = 0;
+            let mut bytes = [0; 8];
+            let mut limit = limit.unwrap_or(u64::MAX);
+            let mut shift = 0;
 
-        let mut messages = Vec::new();
+            let mut messages = Vec::new();
 
-        for message_id in index.chunks(8) {
-            if limit == 0 {
-                break;
-            }
+            for message_id in index.chunks(8) {
+                if limit == 0 {
+                    break;
+                }
 
-            bytes.copy_from_slice(message_id);
+                bytes.copy_from_slice(message_id);
 
-            let message_id = u64::from_be_bytes(bytes);
-            let message_path = folder.join(message_id.to_string());
+                let message_id = u64::from_be_bytes(bytes);
+                let message_path = folder.join(message_id.to_string());
 
-            match tokio::fs::read(&message_path).await {
-                Ok(message_info) => {
-                    let message_info = serde_json::from_slice::<Json>(&message_info)?;
+                match std::fs::read(&message_path) {
+                    Ok(message_info) => {
+                        let message_info = serde_json::from_slice::<Json>(&message_info)?;
 
-                    messages.push(MessageInfo::from_json(&message_info)?);
+                        messages.push(MessageInfo::from_json(&message_info)?);
 
-                    limit -= 1;
+                        limit -= 1;
+                    }
+
+                    Err(err) if err.kind() == ErrorKind::NotFound => (),
+                    Err(err) => return Err(err.into())
                 }
 
-                Err(err) if err.kind() == ErrorKind::NotFound => (),
-                Err(err) => return Err(err.into())
+                shift += 8;
             }
 
-            shift += 8;
-        }
+            if shift > 0 {
+                write_index(&folder, &index[shift..])?;
 
-        if shift > 0 {
-            write_index(&folder, &index[shift..]).await?;
+                // Messages are already removed from the inbox,
+                // so it's fine if their files are left behind
+                for message_id in index[..shift].chunks(8) {
+                    bytes.copy_from_slice(message_id);
 
-            // Messages are already removed from the inbox,
-            // so it's fine if their files are left behind
-            for message_id in index[..shift].chunks(8) {
-                bytes.copy_from_slice(message_id);
-
-                let message_path = folder.join(u64::from_be_bytes(bytes).to_string());
+                    let message_path = folder.join(u64::from_be_bytes(bytes).to_string());
 
-                let _ = tokio::fs::remove_file(message_path).await;
+                    let _ = std::fs::remove_file(message_path);
+                }
             }
-        }
 
-        Ok((
-            messages,
-            ((index.len() - shift) / 8) as u64
-        ))
+            Ok((
+                messages,
+                ((index.len() - shift) / 8) as u64
+            ))
+        }).await
     }
 }
 
-- 
2.43.0


From 08c5e5293727fdf6533a76b1fa4c59a511361c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:25 +0000
Subject: [PATCH 04/15] fix: look up the requested public key instead of the
 requester's one

---
 src/rest_api/middleware/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rest_api/middleware/server.rs b/src/rest_api/middleware/server.rs
index 8ffac1c..4fcb816 100644
--- a/src/rest_api/middleware/server.rs
+++ b/src/rest_api/middleware/server.rs
@@ -274,7 +274,7 @@ where
                 }
 
                 // Try to find the client in the local index
-                match driver.router().lookup_local_client(&request.0.public_key, request.0.request.client_type).await {
+                match driver.router().lookup_local_client(&request.0.request.public_key, request.0.request.client_type).await {
                     Ok(Some((client, available))) => {
                         let body = LookupResponseBody::local(client, available);
 
@@ -295,7 +295,7 @@ where
                 }
 
                 // Try to find the client in the remote index
-                match driver.router().lookup_remote_client(&request.0.public_key, request.0.request.client_type).await {
+                match driver.router().lookup_remote_client(&request.0.request.public_key, request.0.request.client_type).await {
                     Ok(Some((client, server, available))) => {
                         let body = LookupResponseBody::remote(client, server, available);
 
@@ -317,7 +317,7 @@ where
 
                 // Return searching hint if neither local nor known remote record found
                 let hint = driver.router()
-                    .lookup_remote_client_hint(&request.0.public_key, request.0.request.client_type)
+                    .lookup_remote_client_hint(&request.0.request.public_key, request.0.request.client_type)
                     .await;
 
                 match hint {
-- 
2.43.0


From 018ffa563b4443f547b9ef34f5f51f55bfa7668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 05/15] fix: replace routing table records atomically

---
 src/drivers/server/router/global_table.rs | 28 +++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/drivers/server/router/global_table.rs b/src/drivers/server/router/global_table.rs
index 4807704..8992463 100755
--- a/src/drivers/server/router/global_table.rs
+++ b/src/drivers/server/router/global_table.rs
@@ -1,4 +1,4 @@
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 use serde_json::{json, Value as Json};
 
@@ -44,6 +44,26 @@ impl GlobalTableRouter {
             storage_folder
         })
     }
+
+    /// Atomically create or replace record's file.
+    ///
+    /// Nobody can read the record while it's only partially written.
+    async fn write_record(&self, path: &Path, record: &[u8]) -> std::io::Result<()> {
+        let temp = self.storage_folder
+            .join(format!("{}.tmp", safe_random_u64()));
+
+        let mut result = tokio::fs::write(&temp, record).await;
+
+        if result.is_ok() {
+            result = tokio::fs::rename(&temp, path).await;
+        }
+
+        if result.is_err() {
+            let _ = tokio::fs::remove_file(&temp).await;
+        }
+
+        result
+    }
 }
 
 #[async_trait::async_trait]
@@ -60,7 +80,7 @@ impl Router for GlobalTableRouter {
             "client": client.to_json()?
         });
 
-        tokio::fs::write(path, serde_json::to_vec(&client)?).await?;
+        self.write_record(&path, &serde_json::to_vec(&client)?).await?;
 
         Ok(true)
     }
@@ -76,7 +96,7 @@ impl Router for GlobalTableRouter {
             "server": server.to_json()?
         });
 
-        tokio::fs::write(path, serde_json::to_vec(&record)?).await?;
+        self.write_record(&path, &serde_json::to_vec(&record)?).await?;
 
         Ok(true)
     }
@@ -91,7 +111,7 @@ impl Router for GlobalTableRouter {
             "server": server.to_json()?
         });
 
-        tokio::fs::write(path, serde_json::to_vec(&server)?).await?;
+        self.write_record(&path, &serde_json::to_vec(&server)?).await?;
 
         Ok(true)
     }
-- 
2.43.0


From 00be32ff26121126225e7f1a47c1cae4ec7d1d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 06/15] fix: list routing table records while others are being
 removed

---
 src/drivers/server/router/global_table.rs | 29 ++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/drivers/server/router/global_table.rs b/src/drivers/server/router/global_table.rs
index 8992463..ab19bf0 100755
--- a/src/drivers/server/router/global_table.rs
+++ b/src/drivers/server/router/global_table.rs
@@ -1,3 +1,4 @@
+use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
 
 use serde_json::{json, Value as Json};
@@ -66,6 +67,16 @@ impl GlobalTableRouter {
     }
 }
 
+/// Read record's file, or nothing if it was removed.
+async fn read_record(path: &Path) -> std::io::Result<Option<Vec<u8>>> {
+    match tokio::fs::read(path).await {
+        Ok(record) => Ok(Some(record)),
+
+        Err(err) if err.kind() == ErrorKind::NotFound => Ok(None),
+        Err(err) => Err(err)
+    }
+}
+
 #[async_trait::async_trait]
 impl Router for GlobalTableRouter {
     type Error = Error;
@@ -140,7 +151,11 @@ impl Router for GlobalTableRouter {
         let mut entries = tokio::fs::read_dir(folder).await?;
 
         while let Some(entry) = entries.next_entry().await? {
-            let entry = tokio::fs::read(entry.path()).await?;
+            // Record could be removed since the folder was listed
+            let Some(entry) = read_record(&entry.path()).await? else {
+                continue;
+            };
+
             let record = serde_json::from_slice::<Json>(&entry)?;
 
             let client = Client::from_json(&record["client"])?;
@@ -160,7 +175,11 @@ impl Router for GlobalTableRouter {
         let mut entries = tokio::fs::read_dir(folder).await?;
 
         while let Some(entry) = entries.next_entry().await? {
-            let entry = tokio::fs::read(entry.path()).await?;
+            // Record could be removed since the folder was listed
+            let Some(entry) = read_record(&entry.path()).await? else {
+                continue;
+            };
+
             let record = serde_json::from_slice::<Json>(&entry)?;
 
             let client = Client::from_json(&record["client"])?;
@@ -181,7 +200,11 @@ impl Router for GlobalTableRouter {
         let mut entries = tokio::fs::read_dir(folder).await?;
 
         while let Some(entry) = entries.next_entry().await? {
-            let entry = tokio::fs::read(entry.path()).await?;
+            // Record could be removed since the folder was listed
+            let Some(entry) = read_record(&entry.path()).await? else {
+                continue;
+            };
+
             let record = serde_json::from_slice::<Json>(&entry)?;
 
             let server = Server::from_json(&record["server"])?;
-- 
2.43.0


From 25c8344cdc15797b2aead76fb02295a554bbb71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 07/15] fix: report disconnect failures of the routing table

---
 src/drivers/server/router/global_table.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/drivers/server/router/global_table.rs b/src/drivers/server/router/global_table.rs
index ab19bf0..3d9abd4 100755
--- a/src/drivers/server/router/global_table.rs
+++ b/src/drivers/server/router/global_table.rs
@@ -77,6 +77,15 @@ async fn read_record(path: &Path) -> std::io::Result<Option<Vec<u8>>> {
     }
 }
 
+/// Remove record's file if it exists.
+async fn remove_record(path: &Path) -> std::io::Result<()> {
+    match tokio::fs::remove_file(path).await {
+        Err(err) if err.kind() != ErrorKind::NotFound => Err(err),
+
+        _ => Ok(())
+    }
+}
+
 #[async_trait::async_trait]
 impl Router for GlobalTableRouter {
     type Error = Error;
@@ -135,11 +144,11 @@ impl Router for GlobalTableRouter {
         // 1. It's faster and easier to implement
         // 2. Current implementations generally ignore availability
         //    flag thus changing it doesn't make a weather
-        let _ = tokio::fs::remove_file(self.storage_folder.join("local").join(&public_key)).await;
-        let _ = tokio::fs::remove_file(self.storage_folder.join("remote").join(&public_key)).await;
-        let _ = tokio::fs::remove_file(self.storage_folder.join("servers").join(&public_key)).await;
+        let local = remove_record(&self.storage_folder.join("local").join(&public_key)).await;
+        let remote = remove_record(&self.storage_folder.join("remote").join(&public_key)).await;
+        let servers = remove_record(&self.storage_folder.join("servers").join(&public_key)).await;
 
-        Ok(())
+        Ok(local.and(remote).and(servers)?)
     }
 
     async fn local_clients(&self) -> Result<Vec<Client>, Self::Error> {
-- 
2.43.0


From 5876219607ce10fe4121b5f9f58c3ae92e54d76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 08/15] fix: request every server only once while traversing
 the network

---
 src/drivers/server/traversal/bfs_recursion.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/drivers/server/traversal/bfs_recursion.rs b/src/drivers/server/traversal/bfs_recursion.rs
index 5acdf55..146e9e3 100755
--- a/src/drivers/server/traversal/bfs_recursion.rs
+++ b/src/drivers/server/traversal/bfs_recursion.rs
@@ -1,4 +1,4 @@
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 
 use crate::http::client::HttpClient;
 use crate::rest_api::middleware::Client as ClientMiddleware;
@@ -21,10 +21,16 @@ impl Traversal for BfsRecursionTraversal {
 
             let mut remote_servers = VecDeque::from(remote_servers);
 
+            // Store used servers to prevent infinite traversal
+            // of the servers which know each other
+            let mut used_servers = HashSet::new();
+
             while let Some(remote_server) = remote_servers.pop_front() {
-                if let Ok(mut response) = client.get_servers(&remote_server.address).await {
-                    for remote_server in response.drain(..) {
-                        remote_servers.push_back(remote_server);
+                if used_servers.insert(remote_server.address.clone()) {
+                    if let Ok(mut response) = client.get_servers(&remote_server.address).await {
+                        for remote_server in response.drain(..) {
+                            remote_servers.push_back(remote_server);
+                        }
                     }
                 }
 
-- 
2.43.0


From e2386d07ca8df6d03c6ff8ede39ec1ae2d05a17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 09/15] fix: refuse too short connection tokens

---
 src/rest_api/types/connection_token.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rest_api/types/connection_token.rs b/src/rest_api/types/connection_token.rs
index cab26fa..335a9d3 100644
--- a/src/rest_api/types/connection_token.rs
+++ b/src/rest_api/types/connection_token.rs
@@ -73,6 +73,10 @@ impl ConnectionToken {
     pub fn from_bytes(certificate: impl AsRef<[u8]>) -> Result<Self, CryptographyError> {
         let certificate = certificate.as_ref();
 
+        if certificate.len() < 8 {
+            return Err(CryptographyError::Decoding("Connection token is too short".into()));
+        }
+
         let mut auth_date = [0u8; 8];
 
         auth_date.copy_from_slice(&certificate[..8]);
-- 
2.43.0


From 556665e20d2bf335f113dd3bcc49f8fb87843faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 10/15] fix: refuse malformed encapsulated signatures

---
 src/crypto/asymmetric/public_key.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/crypto/asymmetric/public_key.rs b/src/crypto/asymmetric/public_key.rs
index e8863ba..9f97d9b 100644
--- a/src/crypto/asymmetric/public_key.rs
+++ b/src/crypto/asymmetric/public_key.rs
@@ -53,11 +53,21 @@ impl PublicKey {
     pub fn decode_encapsulated_signature(&self, capsule: impl AsRef<[u8]>) -> Result<Option<Vec<u8>>, CryptographyError> {
         let capsule = capsule.as_ref();
 
+        if capsule.len() < 8 {
+            return Err(CryptographyError::Decoding("Encapsulated signature is too short".into()));
+        }
+
         let mut sign_len_bytes = [0_u8; 8];
 
         sign_len_bytes.copy_from_slice(&capsule[..8]);
 
-        let sign_len = u64::from_be_bytes(sign_len_bytes) as usize;
+        let sign_len = u64::from_be_bytes(sign_len_bytes);
+
+        if sign_len > capsule.len() as u64 - 8 {
+            return Err(CryptographyError::Decoding("Encapsulated signature is too short".into()));
+        }
+
+        let sign_len = sign_len as usize;
 
         let signature = &capsule[8..sign_len + 8];
         let message = &capsule[sign_len + 8..];
-- 
2.43.0


From cad468d6a160d5dcc06452f5deba3830db62f355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 11/15] fix: deserialize secret keys from what they're
 serialized to

---
 src/crypto/asymmetric/secret_key.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/crypto/asymmetric/secret_key.rs b/src/crypto/asymmetric/secret_key.rs
index 1a41250..f896621 100644
--- a/src/crypto/asymmetric/secret_key.rs
+++ b/src/crypto/asymmetric/secret_key.rs
@@ -129,22 +129,14 @@ impl<'de> serde::Deserialize<'de> for SecretKey {
     where D: serde::Deserializer<'de> {
         use serde::de::Error;
 
-        struct Visitor;
-
-        impl<'de> serde::de::Visitor<'de> for Visitor {
-            type Value = Vec<u8>;
-
-            fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-                write!(formatter, "bytes sequence expected")
-            }
-
-            fn visit_bytes<E>(self, v: &[u8]) -> Result<Self::Value, E>
-            where E: serde::de::Error {
-                Ok(v.to_vec())
-            }
+        #[derive(serde::Deserialize)]
+        #[serde(rename = "SecretKey")]
+        struct Fields {
+            #[serde(rename = "0")]
+            secret_key: Vec<u8>
         }
 
-        let secret_key = deserializer.deserialize_struct("SecretKey", &["0"], Visitor)?;
+        let Fields { secret_key } = serde::Deserialize::deserialize(deserializer)?;
 
         let secret_key = SecretKey::deserialize(secret_key)
             .map_err(D::Error::custom)?;
-- 
2.43.0


From 2c1ea68ae63adcc870a1c671121674ce8f4d7b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:57 +0000
Subject: [PATCH 12/15] fix: accept only responses proven by the connected
 server

---
 src/rest_api/middleware/client.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index d04cf28..0b15316 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -183,7 +183,12 @@ impl<T: HttpClient + Send + Sync> Client<T> {
 
         // Check response status
         match response.0 {
-            Response::Success { .. } => {
+            Response::Success { public_key, .. } => {
+                // Response must be proven by the expected server
+                if public_key != server_public {
+                    return Err(Error::InvalidProofSeedSignature);
+                }
+
                 let client = ConnectedClient {
                     http_client: self.http_client.clone(),
                     driver: self.driver.clone(),
@@ -305,11 +310,20 @@ impl<T: HttpClient> ConnectedClient<T> {
         }
 
         // Check response status
-        if let Response::Error { status, reason, .. } = response.0 {
-            return Err(Error::RequestFailed {
-                status,
-                reason
-            });
+        match response.0 {
+            // Response must be proven by the connected server
+            Response::Success { public_key, .. } if public_key != self.connected_server.public_key => {
+                return Err(Error::InvalidProofSeedSignature);
+            }
+
+            Response::Success { .. } => (),
+
+            Response::Error { status, reason, .. } => {
+                return Err(Error::RequestFailed {
+                    status,
+                    reason
+                });
+            }
         }
 
         Ok(Client {
@@ -555,6 +569,11 @@ impl<T: HttpClient> ConnectedClient<T> {
 
         // Check response status
         match response.0 {
+            // Response must be proven by the connected server
+            Response::Success { public_key, .. } if public_key != self.connected_server.public_key => {
+                Err(Error::InvalidProofSeedSignature)
+            }
+
             Response::Success { response, .. } => {
                 Ok((response.messages, response.remaining))
             }
-- 
2.43.0


From 6bbf4369ec1e97422d9a71c0cc9e6aa8f336d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:57 +0000
Subject: [PATCH 13/15] fix: skip failed servers while looking up the client

---
 src/rest_api/middleware/client.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index 0b15316..f64e95e 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -415,7 +415,7 @@ impl<T: HttpClient> ConnectedClient<T> {
 
         while let Some(server_address) = queue.pop_front() {
             // Skip server if it was already used
-            if used_servers.contains(&server_address) {
+            if !used_servers.insert(server_address.clone()) {
                 continue;
             }
 
@@ -427,10 +427,19 @@ impl<T: HttpClient> ConnectedClient<T> {
                 // FIXME: causes some weird ass issue with "infinite async recursion"
                 format!("http://{server_address}/api/v1/lookup"), // resolve_uri(&server_address, self).await?
                 request.clone()
-            ).await?;
+            ).await;
+
+            let response = match response {
+                Ok(response) => response,
+
+                // Skip unavailable server unless it's the connected one
+                Err(_) if server_address != self.connected_server.address => continue,
+
+                Err(err) => return Err(err.into())
+            };
 
             // Validate response
-            if !response.validate(proof_seed)? {
+            if !matches!(response.validate(proof_seed), Ok(true)) {
                 // Skip execution and go to the next server
                 continue;
             }
@@ -455,8 +464,6 @@ impl<T: HttpClient> ConnectedClient<T> {
                     }
                 }
             }
-
-            used_servers.insert(server_address);
         }
 
         Ok(None)
-- 
2.43.0


From 80920f3147557d7be12e401c553b7f63862c1c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:57 +0000
Subject: [PATCH 14/15] fix: keep track of forwarded ports until they're closed

---
 src/port_forward/upnp.rs | 43 ++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/port_forward/upnp.rs b/src/port_forward/upnp.rs
index da7e05f..3d9c997 100644
--- a/src/port_forward/upnp.rs
+++ b/src/port_forward/upnp.rs
@@ -25,6 +25,14 @@ impl UpnpPortForwarder {
             comment: String::from("Hyperborea UPnP port forwarder")
         }
     }
+
+    fn delete_port(config: &UpnpConfig) -> Result<(), Error> {
+        let duration = Duration::from_secs(config.duration as u64);
+
+        delete_ports([Self::build_config(config.port, config.protocol, duration)])
+            .next()
+            .unwrap()
+    }
 }
 
 #[async_trait::async_trait]
@@ -54,28 +62,41 @@ impl PortForwarder for UpnpPortForwarder {
     }
 
     async fn close(&self, port: u16, protocol: Protocol) -> Result<bool, Self::Error> {
+        if protocol == Protocol::Both {
+            let tcp = self.close(port, Protocol::TCP).await;
+            let udp = self.close(port, Protocol::UDP).await;
+
+            return Ok(tcp? && udp?);
+        }
+
         let mut forwarded = self.forwarded.lock()
             .expect("Failed to get forwards table");
 
-        if let Some(config) = forwarded.remove(&(port, protocol)) {
-            delete_ports([config])
-                .next()
-                .unwrap()?;
+        if let Some(config) = forwarded.get(&(port, protocol)) {
+            Self::delete_port(config)?;
+
+            forwarded.remove(&(port, protocol));
         }
 
         Ok(true)
     }
 
     async fn discard(&self) -> Result<bool, Self::Error> {
-        let configs = self.forwarded.lock()
+        let mut result = Ok(true);
+
+        // Keep ports which failed to be closed
+        self.forwarded.lock()
             .expect("Failed to get forwards table")
-            .drain()
-            .map(|(_, v)| v)
-            .collect::<Vec<_>>();
+            .retain(|_, config| match Self::delete_port(config) {
+                Ok(()) => false,
 
-        delete_ports(configs)
-            .collect::<Result<_, _>>()?;
+                Err(err) => {
+                    result = Err(err);
 
-        Ok(true)
+                    true
+                }
+            });
+
+        result
     }
 }
-- 
2.43.0


From aeff941b38961ffbee2a2a4d04a5ae6db699b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:31 +0000
Subject: [PATCH 15/15] fix: compress to standard brotli streams at the highest
 level

The large window flag makes the stream unreadable for every decoder of
standard brotli (RFC 7932).
---
 src/crypto/compression/brotli.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/crypto/compression/brotli.rs b/src/crypto/compression/brotli.rs
index 17b6a85..f4310f6 100644
--- a/src/crypto/compression/brotli.rs
+++ b/src/crypto/compression/brotli.rs
@@ -24,8 +24,6 @@ impl From<CompressionLevel> for BrotliEncoderParams {
 
             CompressionLevel::Quality => {
                 params.quality = 11;
-
-                params.large_window = true;
             }
         }
 
-- 
2.43.0

