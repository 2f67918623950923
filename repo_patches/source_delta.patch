From f48d866e85e86a7e8be732010f5fc0dcf41d4193 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:08:31 +0000
Subject: [PATCH 01/15] fix: report an error when completing a chunk could not
 be committed

The result of the transaction was dropped, so database errors and reports for
unknown chunks were answered with success and counted as completed.
---
 opsqueue/src/common/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opsqueue/src/common/chunk.rs b/opsqueue/src/common/chunk.rs
index 6a25619..da8699f 100644
--- a/opsqueue/src/common/chunk.rs
+++ b/opsqueue/src/common/chunk.rs
@@ -314,7 +314,7 @@ pub mod db {
         output_content: Option<Vec<u8>>,
         mut conn: impl WriterConnection,
     ) -> Result<(), E<DatabaseError, E<SubmissionNotFound, ChunkNotFound>>> {
-        let _chunk_size: Result<ChunkSize, E<DatabaseError, E<SubmissionNotFound, ChunkNotFound>>> =
+        let result: Result<ChunkSize, E<DatabaseError, E<SubmissionNotFound, ChunkNotFound>>> =
             conn.transaction(move |mut tx| {
                 Box::pin(async move {
                     let completed_work =
@@ -332,6 +332,7 @@ pub mod db {
                 })
             })
             .await;
+        result?;
 
         counter!(crate::prometheus::CHUNKS_COMPLETED_COUNTER).increment(1);
         Ok(())
-- 
2.43.0


From 2c33356b5e7337b0df8dc149a74f032fdafbd81b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:08:31 +0000
Subject: [PATCH 02/15] fix: keep chunk size and trace carrier of completed and
 failed submissions

The columns exist and are read back by submission_status, but were not copied
when a submission moved to submissions_completed or submissions_failed, so a
finished submission reported a chunk size of 0 and an empty trace carrier.
---
 opsqueue/src/common/submission.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index c36efe0..5694193 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -943,8 +943,8 @@ pub mod db {
     SAVEPOINT complete_submission_raw;
 
     INSERT INTO submissions_completed
-    (id, chunks_total, prefix, metadata, completed_at)
-    SELECT id, chunks_total, prefix, metadata, julianday($1) FROM submissions WHERE id = $2;
+    (id, chunks_total, prefix, metadata, completed_at, chunk_size, otel_trace_carrier)
+    SELECT id, chunks_total, prefix, metadata, julianday($1), chunk_size, otel_trace_carrier FROM submissions WHERE id = $2;
 
     DELETE FROM submissions WHERE id = $3 RETURNING *;
 
@@ -979,8 +979,8 @@ pub mod db {
         query!(
             "
     INSERT INTO submissions_failed
-    (id, chunks_total, chunks_done, prefix, metadata, failed_at, failed_chunk_id)
-    SELECT id, chunks_total, chunks_done, prefix, metadata, julianday($1), $2 FROM submissions WHERE id = $3;
+    (id, chunks_total, chunks_done, prefix, metadata, failed_at, failed_chunk_id, chunk_size, otel_trace_carrier)
+    SELECT id, chunks_total, chunks_done, prefix, metadata, julianday($1), $2, chunk_size, otel_trace_carrier FROM submissions WHERE id = $3;
 
     DELETE FROM submissions WHERE id = $4 RETURNING *;
     ",
-- 
2.43.0


From ddb656e75028c9ccc3ebb6e0430a1ae89f8325d0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:08:31 +0000
Subject: [PATCH 03/15] fix: find cancelled submissions by prefix

---
 opsqueue/src/common/submission.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index 5694193..e3fb557 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -583,6 +583,8 @@ pub mod db {
             SELECT id AS "id: SubmissionId" FROM submissions_completed WHERE prefix = $1
             UNION ALL
             SELECT id AS "id: SubmissionId" FROM submissions_failed WHERE prefix = $1
+            UNION ALL
+            SELECT id AS "id: SubmissionId" FROM submissions_cancelled WHERE prefix = $1
             "#,
             prefix
         )
-- 
2.43.0


From 7673a883c9fbee06c02c819477704ab0c7b95a52 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:08:31 +0000
Subject: [PATCH 04/15] fix: do not count submissions and chunks whose
 insertion failed

---
 opsqueue/src/common/submission.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index e3fb557..9331128 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -424,6 +424,9 @@ pub mod db {
                 .boxed()
             })
             .await;
+        if res.is_err() {
+            return res;
+        }
 
         counter!(crate::prometheus::SUBMISSIONS_TOTAL_COUNTER).increment(1);
         counter!(crate::prometheus::CHUNKS_TOTAL_COUNTER).increment(chunks_total);
-- 
2.43.0


From 7545781476fcf725731f1f84caeedb07f47b06e5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:26:16 +0000
Subject: [PATCH 05/15] fix: insert and complete an empty submission in one
 transaction

A crash or database error between the two transactions left a submission
without chunks in progress forever, as nothing else would complete it.
---
 opsqueue/src/common/submission.rs | 50 +++++++++++++++++--------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index 9331128..d5e8e21 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -474,29 +474,35 @@ pub mod db {
                 Chunk::new(submission_id, chunk_index.try_into().unwrap(), uri)
             })
             .collect();
-        insert_submission(submission, iter, &mut conn).await?;
-        // Empty submissions get special handling: we mark them as completed right away.
-        // See https://github.com/channable/opsqueue/issues/86 for rationale.
-        if len == 0 {
-            match maybe_complete_submission(submission_id, conn).await {
-                // Forward our database errors to the caller.
-                Err(E::L(e)) => return Err(e),
-                // If the submission ID can't be found, that's too bad, but it's not our problem anymore i guess.
-                Err(E::R(_)) => {
-                    tracing::warn!(%submission_id, "Presumed zero-length submission not found");
-                }
-                // If everything went OK, this *could* still indicate a bug in producer code, so let's just log it.
-                // Our future selves might thank us.
-                Ok(true) => {
-                    tracing::debug!(%submission_id, "Zero-length submission marked as completed");
-                }
-                // This should never happen. If it does, better log it.
-                Ok(false) => {
-                    tracing::warn!(%submission_id, "Zero-length submission wasn't zero-length?!");
+        // One transaction, so that no crash can leave an empty submission behind uncompleted.
+        conn.transaction(move |mut tx| {
+            Box::pin(async move {
+                insert_submission(submission, iter, &mut tx).await?;
+                // Empty submissions get special handling: we mark them as completed right away.
+                // See https://github.com/channable/opsqueue/issues/86 for rationale.
+                if len == 0 {
+                    match maybe_complete_submission(submission_id, &mut tx).await {
+                        // Forward our database errors to the caller.
+                        Err(E::L(e)) => return Err(e),
+                        // If the submission ID can't be found, that's too bad, but it's not our problem anymore i guess.
+                        Err(E::R(_)) => {
+                            tracing::warn!(%submission_id, "Presumed zero-length submission not found");
+                        }
+                        // If everything went OK, this *could* still indicate a bug in producer code, so let's just log it.
+                        // Our future selves might thank us.
+                        Ok(true) => {
+                            tracing::debug!(%submission_id, "Zero-length submission marked as completed");
+                        }
+                        // This should never happen. If it does, better log it.
+                        Ok(false) => {
+                            tracing::warn!(%submission_id, "Zero-length submission wasn't zero-length?!");
+                        }
+                    }
                 }
-            }
-        }
-        Ok(submission_id)
+                Ok(submission_id)
+            })
+        })
+        .await
     }
 
     /// Fetch an in-progress submission by id.
-- 
2.43.0


From 49bdbb0b6215da9ea4889e8e3c22c7c3fdb207a1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:33:38 +0000
Subject: [PATCH 06/15] fix: do not miss an insertion that happens while a
 consumer looks for work

The waiter was only registered, in a task of its own, after the query had found
nothing. notify_waiters stores no permit, so an insertion in between woke nobody
and the request stayed unanswered until the next insertion.
---
 opsqueue/src/consumer/server/conn.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opsqueue/src/consumer/server/conn.rs b/opsqueue/src/consumer/server/conn.rs
index 8b9cecd..7b79f4b 100644
--- a/opsqueue/src/consumer/server/conn.rs
+++ b/opsqueue/src/consumer/server/conn.rs
@@ -211,6 +211,8 @@ impl ConsumerConn {
         use SyncServerToClientResponse::ChunksReserved;
         let maybe_response = match msg.contents {
             WantToReserveChunks { max, strategy } => {
+                // Created before looking for work, so an insertion in between is not missed.
+                let notified = self.notify_on_insert.clone().notified_owned();
                 let chunks_or_err = self
                     .consumer_state
                     .fetch_and_reserve_chunks(strategy.clone(), max, &self.tx)
@@ -233,10 +235,9 @@ impl ConsumerConn {
                             "No work to do for {} / {max} / {strategy:?}, retrying later",
                             msg.nonce
                         );
-                        let notifier = self.notify_on_insert.clone();
                         let tx2 = self.tx2.clone();
                         tokio::spawn(async move {
-                            notifier.notified().await;
+                            notified.await;
                             let _ = tx2.send(RetryReservation {
                                 nonce: msg.nonce,
                                 max,
-- 
2.43.0


From e04e99ab56217c039c94cdc247c814b2362278ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:34:58 +0000
Subject: [PATCH 07/15] fix: do not panic when a submission ends while its
 chunk is being reserved

The chunk and its submission are read by separate queries, so a completion,
failure or cancellation in between made the lookup fail, which panicked the
consumer's connection. Skip the chunk and give its reservation back instead.
---
 opsqueue/src/consumer/dispatcher/mod.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/opsqueue/src/consumer/dispatcher/mod.rs b/opsqueue/src/consumer/dispatcher/mod.rs
index ce3e9a2..d27b00a 100644
--- a/opsqueue/src/consumer/dispatcher/mod.rs
+++ b/opsqueue/src/consumer/dispatcher/mod.rs
@@ -4,6 +4,7 @@ pub mod reserver;
 use crate::{
     common::{
         chunk::{Chunk, ChunkId, ChunkIndex},
+        errors::{DatabaseError, E, SubmissionNotFound},
         submission::{Submission, SubmissionId},
     },
     db::{Connection, Pool, ReaderPool, magic::Bool},
@@ -227,7 +228,7 @@ impl Dispatcher {
             .try_filter_map(|chunk| {
                 futures::future::ready(Ok(self.reserve_chunk(chunk, stale_chunks_notifier)))
             })
-            .and_then(|chunk| self.join_chunk_with_submission_info(chunk, pool))
+            .try_filter_map(|chunk| self.join_chunk_with_submission_info(chunk, pool))
             .take(limit)
             .try_collect()
             .await
@@ -307,20 +308,29 @@ impl Dispatcher {
         &self,
         chunk: Chunk,
         pool: &Pool<impl Bool>,
-    ) -> Result<(Chunk, Submission), sqlx::Error> {
+    ) -> Result<Option<(Chunk, Submission)>, sqlx::Error> {
         let mut conn = pool.acquire().await?;
         let submission =
-            crate::common::submission::db::get_submission(chunk.submission_id, &mut conn)
+            match crate::common::submission::db::get_submission(chunk.submission_id, &mut conn)
                 .await
-                .expect("get_submission while reserving failed");
+            {
+                Ok(submission) => submission,
+                Err(E::L(DatabaseError(e))) => return Err(e),
+                // The submission was finished or cancelled after this chunk was read.
+                Err(E::R(SubmissionNotFound(_))) => {
+                    let chunk_id = ChunkId::from((chunk.submission_id, chunk.chunk_index));
+                    self.finish_reservations_sync(std::iter::once(&chunk_id));
+                    return Ok(None);
+                }
+            };
         let metadata = crate::common::submission::db::get_submission_strategic_metadata(
             chunk.submission_id,
             &mut conn,
         )
         .await
-        .expect("get_submission_strategic_metadata while reserving failed");
+        .map_err(|DatabaseError(e)| e)?;
         self.insert_metadata(&metadata);
-        Ok((chunk, submission))
+        Ok(Some((chunk, submission)))
     }
 
     pub fn finish_reservations_sync<'a>(&self, reservations: impl Iterator<Item = &'a ChunkId>) {
-- 
2.43.0


From f98b804cc72fbd153aabe4bac0d7906e96ac3970 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:42:37 +0000
Subject: [PATCH 08/15] fix: count skipped chunks once in chunks_skipped_count

---
 opsqueue/src/common/chunk.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/opsqueue/src/common/chunk.rs b/opsqueue/src/common/chunk.rs
index da8699f..fc3c074 100644
--- a/opsqueue/src/common/chunk.rs
+++ b/opsqueue/src/common/chunk.rs
@@ -608,23 +608,24 @@ pub mod db {
     ) -> sqlx::Result<()> {
         let now = chrono::prelude::Utc::now();
 
-        let query_res = sqlx::query!("
+        let skipped = sqlx::query!("
     SAVEPOINT skip_remaining_chunks;
 
     INSERT INTO chunks_failed
     (submission_id, chunk_index, input_content, failure, skipped, failed_at)
     SELECT submission_id, chunk_index, input_content, '', 1, julianday($1) FROM chunks WHERE chunks.submission_id = $2;
 
-    DELETE FROM chunks WHERE chunks.submission_id = $3;
+    DELETE FROM chunks WHERE chunks.submission_id = $3 RETURNING chunk_index;
 
     RELEASE SAVEPOINT skip_remaining_chunks;
     ",
     now,
     submission_id,
     submission_id,
-    ).execute(conn.get_inner()).await?;
+    ).fetch_all(conn.get_inner()).await?;
 
-        counter!(crate::prometheus::CHUNKS_SKIPPED_COUNTER).increment(query_res.rows_affected());
+        // NOTE: not `rows_affected()`, which adds up the changes of all four statements.
+        counter!(crate::prometheus::CHUNKS_SKIPPED_COUNTER).increment(skipped.len() as u64);
         Ok(())
     }
 
-- 
2.43.0


From 915708d2936ed0a83d183b05dee31640d2fa0a68 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:43:34 +0000
Subject: [PATCH 09/15] fix: only a writer connection can run the cleanup

---
 opsqueue/src/common/submission.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index d5e8e21..cc0b533 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -1101,7 +1101,7 @@ pub mod db {
     /// Returns an error if any cleanup statement in the transaction fails.
     #[tracing::instrument(skip(conn))]
     pub async fn cleanup_old(
-        mut conn: impl Connection,
+        mut conn: impl WriterConnection,
         older_than: DateTime<Utc>,
     ) -> sqlx::Result<()> {
         tracing::info!("Cleaning up old completed/failed submissions...");
-- 
2.43.0


From 0320e7f62ba1625dd15612ec2acf62fe1236d540 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:55:51 +0000
Subject: [PATCH 10/15] fix: mark the consumer client unhealthy whenever its
 connection is lost

The flag was only cleared when heartbeats were missed. When the server closed
the connection or the websocket failed, the client stayed 'healthy' and the
next call was made on the dead connection and failed, instead of reconnecting.
---
 opsqueue/src/consumer/client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index 94abc81..b55b83f 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -433,6 +433,8 @@ impl Client {
                 }
             }
         }
+        // Whatever the reason for stopping was, this connection can no longer be used.
+        healthy.store(false, std::sync::atomic::Ordering::Relaxed);
         // Clear any and all in-flight requests on exit of the background task.
         // This ensures that any waiting requests immediately return with an error as well.
         in_flight_requests.clear().await;
-- 
2.43.0


From 5c6e5da2206a824ee1e683a13a138a2cc5ac187b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:56:14 +0000
Subject: [PATCH 11/15] fix: an undecodable server message no longer leaves
 waiting consumer calls hanging

The background task panicked on such a message and so never cleared its
in-flight requests: their callers waited for ever. It now logs the error and
closes like on any other failure of the connection.
---
 opsqueue/src/consumer/client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index b55b83f..9023988 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -373,7 +373,13 @@ impl Client {
                             } else if msg.is_pong() {
                                 tracing::debug!("Received Pong reply to heartbeat, nice!");
                             } else if msg.is_binary() {
-                                let msg: ServerToClientMessage = msg.try_into().expect("Unparsable ServerToClientMessage");
+                                let msg: ServerToClientMessage = match msg.try_into() {
+                                    Ok(msg) => msg,
+                                    Err(e) => {
+                                        tracing::error!(error = as_dyn_error(&e), "Opsqueue consumer client background task closing, unparsable ServerToClientMessage");
+                                        break;
+                                    }
+                                };
                                 match msg {
                                     ServerToClientMessage::Sync(envelope) => {
                                         let Err(contents) = in_flight_requests.send(envelope).await else { continue; };
-- 
2.43.0


From ded015d551df5d93c836971bb0b613ec6ac66199 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:57:24 +0000
Subject: [PATCH 12/15] fix: a failing consumer call no longer makes a
 concurrent call panic

Between a call's check that the client is initialized and its use of it,
another call that failed could reset it, and the first one panicked on its
'should always be initialized' expectation. The check now returns the client.
---
 opsqueue/src/consumer/client.rs | 46 +++++++++++----------------------
 1 file changed, 15 insertions(+), 31 deletions(-)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index 9023988..6123d71 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -66,10 +66,6 @@ impl OuterClient {
 
     /// Reserve up to `max` chunks from the server.
     ///
-    /// # Panics
-    ///
-    /// Panics if internal lazy initialization invariants are violated.
-    ///
     /// # Errors
     ///
     /// Returns an error if input usage is invalid, or if websocket/serialization
@@ -80,12 +76,9 @@ impl OuterClient {
         strategy: Strategy,
     ) -> Result<Vec<(Chunk, Submission)>, E<InternalConsumerClientError, IncorrectUsage<LimitIsZero>>>
     {
-        self.ensure_initialized().await;
         let res = self
-            .0
-            .load()
-            .as_ref()
-            .expect("Should always be initialized after `.ensure_initialized()")
+            .ensure_initialized()
+            .await
             .reserve_chunks(max, strategy)
             .await;
         if res.is_err() {
@@ -96,10 +89,6 @@ impl OuterClient {
 
     /// Mark a chunk as completed.
     ///
-    /// # Panics
-    ///
-    /// Panics if internal lazy initialization invariants are violated.
-    ///
     /// # Errors
     ///
     /// Returns an error if websocket communication with the server fails.
@@ -108,12 +97,9 @@ impl OuterClient {
         id: ChunkId,
         output_content: chunk::Content,
     ) -> Result<(), InternalConsumerClientError> {
-        self.ensure_initialized().await;
         let res = self
-            .0
-            .load()
-            .as_ref()
-            .expect("Should always be initialized after `.ensure_initialized()")
+            .ensure_initialized()
+            .await
             .complete_chunk(id, output_content)
             .await;
         if res.is_err() {
@@ -124,10 +110,6 @@ impl OuterClient {
 
     /// Mark a chunk as failed.
     ///
-    /// # Panics
-    ///
-    /// Panics if internal lazy initialization invariants are violated.
-    ///
     /// # Errors
     ///
     /// Returns an error if websocket communication with the server fails.
@@ -136,12 +118,9 @@ impl OuterClient {
         id: ChunkId,
         failure: String,
     ) -> Result<(), InternalConsumerClientError> {
-        self.ensure_initialized().await;
         let res = self
-            .0
-            .load()
-            .as_ref()
-            .expect("Should always be initialized after `.ensure_initialized()")
+            .ensure_initialized()
+            .await
             .fail_chunk(id, failure)
             .await;
         if res.is_err() {
@@ -150,11 +129,16 @@ impl OuterClient {
         res
     }
 
-    async fn ensure_initialized(&self) {
-        if !self.is_healthy() {
-            let client = self.initialize().await;
-            self.0.store(Some(Arc::new(client)));
+    /// Returns the client itself, as a concurrently failing call may reset the stored one at any time.
+    async fn ensure_initialized(&self) -> Arc<Client> {
+        if let Some(client) = self.0.load_full()
+            && client.is_healthy()
+        {
+            return client;
         }
+        let client = Arc::new(self.initialize().await);
+        self.0.store(Some(client.clone()));
+        client
     }
 
     async fn initialize(&self) -> Client {
-- 
2.43.0


From dc3e3a59b50127d5768471695dd5a75ac250e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:02:02 +0000
Subject: [PATCH 13/15] fix: a request registered while the consumer connection
 is lost gets an error

---
 opsqueue/src/consumer/client.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index 6123d71..96c750c 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -435,6 +435,11 @@ impl Client {
         request: ClientToServerMessage,
     ) -> Result<SyncServerToClientResponse, InternalConsumerClientError> {
         let (nonce, oneshot_receiver) = self.in_flight_requests.next_nonce_with_oneshot().await;
+        // The background task clears the in-flight requests only once, after marking us as unhealthy.
+        // A request that was registered after that would never be answered.
+        if !self.is_healthy() {
+            return Err(tungstenite::Error::AlreadyClosed.into());
+        }
         let envelope = Envelope {
             nonce,
             contents: request,
-- 
2.43.0


From 388e121cf43a33935f99a75e6075fb636d00a50d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:08:49 +0000
Subject: [PATCH 14/15] fix: reserve_chunks of the Python consumer raised a
 TypeError when no strategy was given

---
 libs/opsqueue_python/python/opsqueue/consumer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/opsqueue_python/python/opsqueue/consumer.py b/libs/opsqueue_python/python/opsqueue/consumer.py
index a1311d5..6023f2f 100644
--- a/libs/opsqueue_python/python/opsqueue/consumer.py
+++ b/libs/opsqueue_python/python/opsqueue/consumer.py
@@ -122,7 +122,7 @@ class ConsumerClient:
         self.inner.run_per_chunk(strategy, chunk_callback)
 
     def reserve_chunks(
-        self, max: int = 1, strategy: Strategy = Strategy.Newest
+        self, max: int = 1, strategy: Strategy = Strategy.Newest()
     ) -> list[Chunk]:
         """
         Low-level function to manually reserve one or more chunks for processing.
-- 
2.43.0


From a2eeaa041546d256b77f7491093b98692804e4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:49:50 +0000
Subject: [PATCH 15/15] fix: escape the prefix in the URL when looking up a
 submission by prefix

A prefix containing '/', '?', '#' or '%' gave an error or the id of another
submission.
---
 opsqueue/src/producer/client.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opsqueue/src/producer/client.rs b/opsqueue/src/producer/client.rs
index 4f1dc92..0de10ac 100644
--- a/opsqueue/src/producer/client.rs
+++ b/opsqueue/src/producer/client.rs
@@ -248,6 +248,10 @@ impl Client {
         &self,
         prefix: &str,
     ) -> Result<Option<SubmissionId>, InternalProducerClientError> {
+        // The prefix is a single path segment, whichever characters it contains.
+        let prefix = url::form_urlencoded::byte_serialize(prefix.as_bytes())
+            .collect::<String>()
+            .replace('+', "%20");
         (|| async {
             let base_url = &self.base_url;
             let resp = self
-- 
2.43.0

