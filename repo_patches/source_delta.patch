From a1cf4e733d816646cd39881a2f6b40b48b653f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 1/9] fix: the redb log store returns the term an entry was
 stored with

The clock of an entry read from the store carried the term of its
previous entry.
---
 sorock/src/backends/redb/log.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sorock/src/backends/redb/log.rs b/sorock/src/backends/redb/log.rs
index 84b4ae8..e8b197e 100644
--- a/sorock/src/backends/redb/log.rs
+++ b/sorock/src/backends/redb/log.rs
@@ -31,7 +31,7 @@ mod value {
             },
             this_clock: Clock {
                 index: x.cur_index,
-                term: x.prev_term,
+                term: x.cur_term,
             },
             command: x.command,
         }
-- 
2.43.0


From 5fe262731c27ba45a1c76c3848c0b494dccb2df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:10 +0000
Subject: [PATCH 2/9] fix: commit by counting replicas only entries of the
 leader's term

---
 sorock/src/process/thread/advance_commit.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sorock/src/process/thread/advance_commit.rs b/sorock/src/process/thread/advance_commit.rs
index 6d078cb..9621812 100644
--- a/sorock/src/process/thread/advance_commit.rs
+++ b/sorock/src/process/thread/advance_commit.rs
@@ -17,6 +17,17 @@ impl Thread {
         let new_commit_index = self.peers.find_new_commit_index().await?;
 
         if new_commit_index > cur_commit_index {
+            // $5.4.2 Committing entries from previous terms
+            // Only log entries from the leader's current term are committed by counting replicas.
+            // The entries before that are committed indirectly.
+            let cur_term = self.voter.read_ballot().await?.cur_term;
+            let new_commit_clock = self
+                .command_log
+                .get_entry(new_commit_index)
+                .await?
+                .this_clock;
+            ensure!(new_commit_clock.term == cur_term);
+
             self.command_log
                 .commit_pointer
                 .store(new_commit_index, Ordering::SeqCst);
-- 
2.43.0


From fc5d4342302c39707d91deff8261be14016c3714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:10 +0000
Subject: [PATCH 3/9] fix: a removed leader does not count itself in majorities

---
 sorock/src/process/peer_svc/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index dd20fd6..89d893b 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -188,13 +188,18 @@ impl PeerSvc {
         let mut match_indices = vec![];
 
         let last_log_index = self.command_log.get_log_last_index().await?;
-        match_indices.push(last_log_index);
-
         let peer_contexts = self.peer_contexts.read();
         for (_, peer) in peer_contexts.iter() {
             match_indices.push(peer.progress.match_index);
         }
 
+        // $4.2.2
+        // A leader that is removed from the configuration doesn't count itself in majorities.
+        if match_indices.is_empty() || self.read_membership().contains(&self.driver.self_node_id())
+        {
+            match_indices.push(last_log_index);
+        }
+
         match_indices.sort();
         match_indices.reverse();
         let mid = match_indices.len() / 2;
-- 
2.43.0


From 9aedf46c73e6c1efd8a60d065117d6a679e19690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:10 +0000
Subject: [PATCH 4/9] fix: a heartbeat commits only what matches the leader and
 never moves the commit index back

---
 sorock/src/process/voter/heartbeat.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index 9d7ddaf..ba37dcb 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -34,9 +34,20 @@ impl Voter {
 
         let new_commit_index =
             std::cmp::min(leader_commit, self.command_log.get_log_last_index().await?);
-        self.command_log
-            .commit_pointer
-            .store(new_commit_index, Ordering::SeqCst);
+
+        // The log may still have a suffix that conflicts with the leader's log.
+        // Only if the entry is written by the leader, the log up to the entry is known
+        // to be identical to the leader's and the leader's commit index applies to it.
+        let matched = match self.command_log.get_entry(new_commit_index).await {
+            Ok(e) => e.this_clock.term == leader_term,
+            Err(_) => false,
+        };
+        if matched {
+            // The commit index should not go backwards by a delayed heartbeat.
+            self.command_log
+                .commit_pointer
+                .fetch_max(new_commit_index, Ordering::SeqCst);
+        }
 
         Ok(())
     }
-- 
2.43.0


From 340779126dddf21e9498f2d540b6d824133d7c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 5/9] fix: ignore the answer to a replication request sent
 before the progress was reset

The progress computed from an in-flight request of an earlier leadership could
overwrite the progress that a new election had just reset, so entries the
follower may not hold were counted as replicated.
---
 sorock/src/process/peer_svc/mod.rs         |  2 +-
 sorock/src/process/peer_svc/replication.rs | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index 89d893b..4fa18a1 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -2,7 +2,7 @@ use super::*;
 
 mod replication;
 
-#[derive(Clone, Copy, Debug)]
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub(crate) struct ReplicationProgress {
     /// The log entrires `[0, match_index]` are replicated with this node.
     pub match_index: Index,
diff --git a/sorock/src/process/peer_svc/replication.rs b/sorock/src/process/peer_svc/replication.rs
index 38a24bf..53e1d96 100644
--- a/sorock/src/process/peer_svc/replication.rs
+++ b/sorock/src/process/peer_svc/replication.rs
@@ -98,11 +98,15 @@ impl PeerSvc {
             },
         };
 
-        self.peer_contexts
-            .write()
+        let mut peer_contexts = self.peer_contexts.write();
+        let peer_context = peer_contexts
             .get_mut(&follower_id)
-            .context(Error::PeerNotFound(follower_id.clone()))?
-            .progress = new_progress;
+            .context(Error::PeerNotFound(follower_id.clone()))?;
+        // The progress may have been reset by a new election while the request was in flight.
+        // Such a late answer says nothing about the log of the current term.
+        if peer_context.progress == old_progress {
+            peer_context.progress = new_progress;
+        }
 
         Ok(())
     }
-- 
2.43.0


From 37ab5d7d89a08298b0e345914d08bc095a3061be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 6/9] fix: do not append an entry in the term of another leader

---
 sorock/src/process/command_log/mod.rs      |  3 +++
 sorock/src/process/command_log/producer.rs | 18 +++++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/sorock/src/process/command_log/mod.rs b/sorock/src/process/command_log/mod.rs
index ccc0bb5..14ccd83 100644
--- a/sorock/src/process/command_log/mod.rs
+++ b/sorock/src/process/command_log/mod.rs
@@ -11,6 +11,8 @@ pub use producer::TryInsertResult;
 pub struct Inner {
     /// Lock to serialize the append operation.
     append_lock: tokio::sync::Mutex<()>,
+    /// The last term this server has started to lead.
+    leader_term: AtomicU64,
     storage: Box<dyn RaftLogStore>,
 
     // Pointers in the log.
@@ -40,6 +42,7 @@ impl CommandLog {
     pub fn new(storage: impl RaftLogStore, app: App) -> Self {
         let inner = Inner {
             append_lock: tokio::sync::Mutex::new(()),
+            leader_term: AtomicU64::new(0),
             snapshot_pointer: AtomicU64::new(0),
             commit_pointer: AtomicU64::new(0),
             kern_pointer: AtomicU64::new(0),
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index f8b5d9e..4be9d64 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -18,7 +18,10 @@ pub enum TryInsertResult {
 impl CommandLog {
     /// Append a new entry to the log.
     /// If `term` is None, then the term of the last entry is used.
-    /// Otherwise, the given term is used to update the term of the last entry.
+    /// In this case, the last entry should be of the term this server leads. Otherwise,
+    /// this server has been deposed and the new entry would be mistaken for the new leader's.
+    /// If `term` is given, this server starts to lead the term and the given term is used
+    /// to update the term of the last entry.
     pub async fn append_new_entry(&self, command: Bytes, term: Option<Term>) -> Result<Index> {
         let _g = self.append_lock.lock().await;
 
@@ -26,8 +29,14 @@ impl CommandLog {
         let prev_clock = self.get_entry(cur_last_log_index).await?.this_clock;
         let append_index = cur_last_log_index + 1;
         let this_term = match term {
-            Some(t) => t,
-            None => prev_clock.term,
+            Some(t) => {
+                self.leader_term.store(t, Ordering::SeqCst);
+                t
+            }
+            None => {
+                ensure!(prev_clock.term == self.leader_term.load(Ordering::SeqCst));
+                prev_clock.term
+            }
         };
         let this_clock = Clock {
             term: this_term,
@@ -89,6 +98,9 @@ impl CommandLog {
             _ => {}
         }
 
+        // Otherwise, the log may change after the consistency check.
+        let _g = self.append_lock.lock().await;
+
         let Clock {
             term: _,
             index: prev_index,
-- 
2.43.0


From d11ebbeafc301f98567948a2441dfac11a86f42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 7/9] fix: do not forward a kernel request to the server itself

A candidate has voted for itself, so it forwarded the request to itself endlessly.
---
 sorock/src/process/raft_process/responder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index c7b0c7e..99c49a1 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -46,6 +46,8 @@ impl RaftProcess {
 
             rx.await?;
         } else {
+            // This check is to avoid looping.
+            ensure!(self.driver.self_node_id() != leader_id);
             let conn = self.driver.connect(leader_id);
             conn.process_kern_request(req).await?;
         }
-- 
2.43.0


From b2d95e44969485f06ba0dbdd8b9f557b704af321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 8/9] fix: reject reads until the barrier of the term is
 committed

The commit pointer of a new leader may be behind the entries that the previous
leaders committed, so a read was executed against a state which lacks them.
---
 sorock/src/process/raft_process/responder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index 99c49a1..570bce5 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -68,6 +68,10 @@ impl RaftProcess {
             self.voter.read_election_state(),
             voter::ElectionState::Leader
         ) {
+            // Until the barrier of the current term is committed, the commit pointer may be behind
+            // the entries committed by the previous leaders.
+            ensure!(self.voter.allow_queue_new_entry().await?);
+
             let (user_completion, rx) = completion::prepare_user_completion();
 
             let read_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
-- 
2.43.0


From 8acde9d087e55676ecee488cb8713444e6cfbdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 9/9] fix: register the completion before the entry is inserted

Otherwise the entry may be applied, or replaced by that of a new leader, before
the client is registered: the client waits forever or gets the response to
another client's request.
---
 sorock/src/process/command_log/consumer.rs |  8 +++++++-
 sorock/src/process/command_log/producer.rs | 22 +++++++++++++++++-----
 sorock/src/process/raft_process/queue.rs   |  5 +----
 sorock/src/process/voter/election.rs       |  1 +
 4 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/sorock/src/process/command_log/consumer.rs b/sorock/src/process/command_log/consumer.rs
index 4ed8600..af9bd85 100644
--- a/sorock/src/process/command_log/consumer.rs
+++ b/sorock/src/process/command_log/consumer.rs
@@ -12,6 +12,12 @@ impl CommandLog {
         }
     }
 
+    /// Discard the completions in [index, ).
+    pub(super) fn discard_completions(&self, index: Index) {
+        self.user_completions.lock().split_off(&index);
+        self.kern_completions.lock().split_off(&index);
+    }
+
     /// Advance the snapshot index if there is a newer snapshot proposed.
     pub async fn advance_snapshot_index(&self) -> Result<()> {
         let cur_snapshot_index = self.snapshot_pointer.load(Ordering::SeqCst);
@@ -92,7 +98,7 @@ impl CommandLog {
                                 // This should be queued and replicated to the followers.
                                 // Otherwise followers will never know the request is completed and the context will never be terminated.
                                 let command = Command::CompleteRequest { request_id };
-                                self.append_new_entry(Command::serialize(command), None)
+                                self.append_new_entry(Command::serialize(command), None, None)
                                     .await
                                     .ok();
                             }
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index 4be9d64..6f01fed 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -22,7 +22,15 @@ impl CommandLog {
     /// this server has been deposed and the new entry would be mistaken for the new leader's.
     /// If `term` is given, this server starts to lead the term and the given term is used
     /// to update the term of the last entry.
-    pub async fn append_new_entry(&self, command: Bytes, term: Option<Term>) -> Result<Index> {
+    ///
+    /// The completion should be registered before the entry is inserted. Otherwise,
+    /// the entry may be applied or replaced before that.
+    pub async fn append_new_entry(
+        &self,
+        command: Bytes,
+        term: Option<Term>,
+        completion: Option<Completion>,
+    ) -> Result<Index> {
         let _g = self.append_lock.lock().await;
 
         let cur_last_log_index = self.get_log_last_index().await?;
@@ -47,7 +55,13 @@ impl CommandLog {
             this_clock,
             command,
         };
-        self.insert_entry(e).await?;
+        if let Some(completion) = completion {
+            self.register_completion(append_index, completion);
+        }
+        if let Err(e) = self.insert_entry(e).await {
+            self.discard_completions(append_index);
+            return Err(e);
+        }
 
         Ok(append_index)
     }
@@ -139,9 +153,7 @@ impl CommandLog {
 
                 self.insert_entry(entry).await?;
 
-                // discard [this_index, )
-                self.user_completions.lock().split_off(&this_index);
-                self.kern_completions.lock().split_off(&this_index);
+                self.discard_completions(this_index);
 
                 Ok(TryInsertResult::Inserted)
             }
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 47f2a29..9c80ba6 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -10,12 +10,9 @@ impl RaftProcess {
 
         let append_index = self
             .command_log
-            .append_new_entry(command.clone(), None)
+            .append_new_entry(command.clone(), None, Some(completion))
             .await?;
 
-        self.command_log
-            .register_completion(append_index, completion);
-
         self.process_configuration_command(&command, append_index)
             .await?;
 
diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 1047ebb..ca879c6 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -220,6 +220,7 @@ impl Voter {
                 .append_new_entry(
                     Command::serialize(Command::Barrier(vote_term)),
                     Some(vote_term),
+                    None,
                 )
                 .await?;
             info!("noop barrier is queued at index({index}) (term={vote_term})");
-- 
2.43.0

