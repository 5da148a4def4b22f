From 86c718b9fe62ea68eb3506a178396e2c75f50d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 01/30] fix: redb log store returns the term an entry was
 stored with

---
 sorock/src/backends/redb/log.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sorock/src/backends/redb/log.rs b/sorock/src/backends/redb/log.rs
index 84b4ae8..e8b197e 100644
--- a/sorock/src/backends/redb/log.rs
+++ b/sorock/src/backends/redb/log.rs
@@ -31,7 +31,7 @@ mod value {
             },
             this_clock: Clock {
                 index: x.cur_index,
-                term: x.prev_term,
+                term: x.cur_term,
             },
             command: x.command,
         }
-- 
2.43.0


From b7166ae70866cc18eec750065485709f20ba0503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 02/30] fix: candidates do not wait for votes while holding the
 vote lock

---
 sorock/src/process/voter/election.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 1047ebb..c3cf0a6 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -104,9 +104,10 @@ impl Voter {
     pub async fn try_promote(&self, force_vote: bool) -> Result<()> {
         info!("try to promote to leader (force={force_vote})");
 
-        let _lk = self.vote_lock.lock().await;
-
+        // The lock isn't held while waiting for the votes. Otherwise two candidates
+        // will wait for the vote of each other forever.
         let pre_vote_term = {
+            let _lk = self.vote_lock.lock().await;
             let ballot = self.read_ballot().await?;
             ballot.cur_term + 1
         };
@@ -123,6 +124,7 @@ impl Voter {
         // --- END pre-vote ---
 
         let vote_term = {
+            let _lk = self.vote_lock.lock().await;
             let mut new_ballot = self.read_ballot().await?;
             let vote_term = new_ballot.cur_term + 1;
             ensure!(vote_term == pre_vote_term);
@@ -146,7 +148,22 @@ impl Voter {
             .await
             .unwrap_or(false);
 
-        self.post_election(vote_term, ok).await?;
+        let _lk = self.vote_lock.lock().await;
+
+        // The ballot may be updated while waiting for the votes.
+        // In this case, this election is already over.
+        let ballot = self.read_ballot().await?;
+        if ballot.cur_term != vote_term
+            || !std::matches!(self.read_election_state(), ElectionState::Candidate)
+        {
+            info!("election at term {vote_term} is superseded");
+            return Ok(());
+        }
+
+        if let Err(e) = self.post_election(vote_term, ok).await {
+            self.write_election_state(ElectionState::Follower);
+            return Err(e);
+        }
 
         Ok(())
     }
-- 
2.43.0


From 1f5b0c8f1c2263a55ed3155719d1d5db4121ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 03/30] fix: an election started by TimeoutNow survives its
 caller

---
 sorock/src/process/raft_process/responder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index c7b0c7e..ba23028 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -142,7 +142,10 @@ impl RaftProcess {
 
     pub(crate) async fn send_timeout_now(&self) -> Result<()> {
         info!("received TimeoutNow. try to become a leader.");
-        self.voter.try_promote(true).await?;
+        // The election should run to the end even if the caller goes away.
+        // Otherwise the node is left as a candidate.
+        let voter = self.voter.clone();
+        tokio::spawn(async move { voter.try_promote(true).await }).await??;
         Ok(())
     }
 
-- 
2.43.0


From e8c511c6937edb63c4076c225010615827aa354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 04/30] fix: a working leader does not grant votes against
 itself

---
 sorock/src/process/voter/election.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index c3cf0a6..527c07d 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -16,7 +16,9 @@ impl Voter {
 
         // If it is a force-vote which is set by TimeoutNow,
         // or it believes the leader has failed, it should vote.
-        let leader_failed = self.get_election_timeout().is_some();
+        // The leader doesn't receive heartbeat from itself but it knows it is alive.
+        let is_leader = std::matches!(self.read_election_state(), ElectionState::Leader);
+        let leader_failed = !is_leader && self.get_election_timeout().is_some();
         let should_vote = force_vote || leader_failed;
         if !should_vote {
             return Ok(false);
-- 
2.43.0


From de27af9631d889632be942ba0d0a989e694f1f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 05/30] fix: a follower commits only entries known to match the
 leader's log

---
 sorock/src/process/voter/heartbeat.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index 9d7ddaf..8477529 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -34,9 +34,17 @@ impl Voter {
 
         let new_commit_index =
             std::cmp::min(leader_commit, self.command_log.get_log_last_index().await?);
-        self.command_log
-            .commit_pointer
-            .store(new_commit_index, Ordering::SeqCst);
+        if new_commit_index > self.command_log.commit_pointer.load(Ordering::SeqCst) {
+            // Only an entry of the leader's term proves that the log is the same as
+            // the leader's log up to the entry. Otherwise, the entry may be left from the
+            // previous terms and the leader may have a different one at the index.
+            let entry = self.command_log.get_entry(new_commit_index).await?;
+            if entry.this_clock.term == leader_term {
+                self.command_log
+                    .commit_pointer
+                    .fetch_max(new_commit_index, Ordering::SeqCst);
+            }
+        }
 
         Ok(())
     }
-- 
2.43.0


From 6a3c5d5a12b967f2f9977c8eaa862aa77f5c843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 06/30] fix: a leader commits by counting replicas only entries
 of its term

---
 sorock/src/process/thread/advance_commit.rs | 12 +++++++++---
 sorock/src/process/voter/mod.rs             | 10 ++++++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/sorock/src/process/thread/advance_commit.rs b/sorock/src/process/thread/advance_commit.rs
index 6d078cb..ec35d65 100644
--- a/sorock/src/process/thread/advance_commit.rs
+++ b/sorock/src/process/thread/advance_commit.rs
@@ -10,16 +10,22 @@ pub struct Thread {
 }
 impl Thread {
     async fn run_once(&self) -> Result<()> {
-        let election_state = self.voter.read_election_state();
-        ensure!(std::matches!(election_state, voter::ElectionState::Leader));
+        let leader_term = self.voter.read_leader_term().await?;
+        ensure!(leader_term.is_some());
 
         let cur_commit_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
         let new_commit_index = self.peers.find_new_commit_index().await?;
 
         if new_commit_index > cur_commit_index {
+            // $5.4.2
+            // Only log entries from the leader's current term are committed by counting replicas.
+            // The preceding entries are committed indirectly.
+            let entry = self.command_log.get_entry(new_commit_index).await?;
+            ensure!(Some(entry.this_clock.term) == leader_term);
+
             self.command_log
                 .commit_pointer
-                .store(new_commit_index, Ordering::SeqCst);
+                .fetch_max(new_commit_index, Ordering::SeqCst);
             self.producer.push_event(CommitEvent);
         }
 
diff --git a/sorock/src/process/voter/mod.rs b/sorock/src/process/voter/mod.rs
index 34c4a21..8a02911 100644
--- a/sorock/src/process/voter/mod.rs
+++ b/sorock/src/process/voter/mod.rs
@@ -70,6 +70,16 @@ impl Voter {
         self.ballot.save_ballot(b).await
     }
 
+    /// Returns the term this node is leading or None if it isn't the leader.
+    pub async fn read_leader_term(&self) -> Result<Option<Term>> {
+        let _lk = self.vote_lock.lock().await;
+        if !std::matches!(self.read_election_state(), ElectionState::Leader) {
+            return Ok(None);
+        }
+        let ballot = self.read_ballot().await?;
+        Ok(Some(ballot.cur_term))
+    }
+
     pub fn commit_safe_term(&self, term: Term) {
         info!("commit safe term={term}");
         self.safe_term.store(term, Ordering::SeqCst);
-- 
2.43.0


From dd40fd7911b1ec696d1a58deefe72126ba3e51c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 07/30] fix: a deposed leader does not send heartbeats in the
 new term

---
 sorock/src/process/voter/heartbeat.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index 8477529..4e566ec 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -50,10 +50,12 @@ impl Voter {
     }
 
     pub async fn send_heartbeat(&self, follower_id: NodeId) -> Result<()> {
-        let ballot = self.read_ballot().await?;
+        let Some(leader_term) = self.read_leader_term().await? else {
+            return Ok(());
+        };
         let leader_commit_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
         let req = request::Heartbeat {
-            leader_term: ballot.cur_term,
+            leader_term,
             leader_commit_index,
         };
         let conn = self.driver.connect(follower_id);
-- 
2.43.0


From 898bf713f90d54cbb9bdb78882a2a110c2f372c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:36 +0000
Subject: [PATCH 08/30] fix: entries left after an overwritten entry are not a
 part of the log

---
 sorock/src/process/command_log/mod.rs      | 49 ++++++++++++++++++++--
 sorock/src/process/command_log/producer.rs | 25 +++++------
 2 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/sorock/src/process/command_log/mod.rs b/sorock/src/process/command_log/mod.rs
index ccc0bb5..1ee2796 100644
--- a/sorock/src/process/command_log/mod.rs
+++ b/sorock/src/process/command_log/mod.rs
@@ -13,6 +13,11 @@ pub struct Inner {
     append_lock: tokio::sync::Mutex<()>,
     storage: Box<dyn RaftLogStore>,
 
+    /// The index of the last entry.
+    /// The storage may have entries after this index that are left behind
+    /// when a conflicting entry was overwritten. They are not a part of the log.
+    last_pointer: AtomicU64,
+
     // Pointers in the log.
     // Invariant: commit_pointer >= kern_pointer >= user_pointer >= snapshot_pointer
     pub commit_pointer: AtomicU64,
@@ -40,6 +45,7 @@ impl CommandLog {
     pub fn new(storage: impl RaftLogStore, app: App) -> Self {
         let inner = Inner {
             append_lock: tokio::sync::Mutex::new(()),
+            last_pointer: AtomicU64::new(0),
             snapshot_pointer: AtomicU64::new(0),
             commit_pointer: AtomicU64::new(0),
             kern_pointer: AtomicU64::new(0),
@@ -56,7 +62,9 @@ impl CommandLog {
     }
 
     pub async fn restore_state(&self) -> Result<()> {
-        let log_last_index = self.get_log_last_index().await?;
+        let log_last_index = self.find_log_last_index().await?;
+        self.last_pointer.store(log_last_index, Ordering::SeqCst);
+
         let snapshot_index = match self.find_last_snapshot_index(log_last_index).await? {
             Some(x) => x,
             None => 0,
@@ -75,6 +83,23 @@ impl CommandLog {
 
         Ok(())
     }
+
+    /// Find the last entry that is connected to the last snapshot by `prev_clock`s.
+    async fn find_log_last_index(&self) -> Result<Index> {
+        let storage_last_index = self.storage.get_last_index().await?;
+        let mut last_index = self
+            .find_last_snapshot_index(storage_last_index)
+            .await?
+            .unwrap_or(0);
+        while last_index > 0 && last_index < storage_last_index {
+            let last_clock = self.get_entry(last_index).await?.this_clock;
+            match self.storage.get_entry(last_index + 1).await? {
+                Some(e) if e.prev_clock == last_clock => last_index += 1,
+                _ => break,
+            }
+        }
+        Ok(last_index)
+    }
 }
 
 impl Inner {
@@ -109,8 +134,23 @@ impl Inner {
             return Ok(());
         }
 
+        // The entries after the snapshot are kept only if they are the successors of it.
+        let cur_last_index = self.get_log_last_index().await?;
+        let already_exists = new_snapshot_index <= cur_last_index
+            && self
+                .storage
+                .get_entry(new_snapshot_index)
+                .await?
+                .map(|x| x.this_clock)
+                == Some(e.this_clock);
+
         self.storage.insert_entry(new_snapshot_index, e).await?;
 
+        if !already_exists {
+            self.last_pointer
+                .store(new_snapshot_index, Ordering::SeqCst);
+        }
+
         self.snapshot_pointer
             .store(new_snapshot_index, Ordering::SeqCst);
 
@@ -129,8 +169,7 @@ impl Inner {
     }
 
     pub async fn get_log_last_index(&self) -> Result<Index> {
-        let last_log_index = self.storage.get_last_index().await?;
-        Ok(last_log_index)
+        Ok(self.last_pointer.load(Ordering::SeqCst))
     }
 
     // This function won't return None because every caller of this function
@@ -142,7 +181,9 @@ impl Inner {
     }
 
     pub async fn insert_entry(&self, e: Entry) -> Result<()> {
-        self.storage.insert_entry(e.this_clock.index, e).await?;
+        let index = e.this_clock.index;
+        self.storage.insert_entry(index, e).await?;
+        self.last_pointer.store(index, Ordering::SeqCst);
         Ok(())
     }
 
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index f8b5d9e..371fd4a 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -93,12 +93,13 @@ impl CommandLog {
             term: _,
             index: prev_index,
         } = entry.prev_clock;
-        if let Some(prev_clock) = self
-            .storage
-            .get_entry(prev_index)
-            .await?
-            .map(|x| x.this_clock)
-        {
+        let cur_last_index = self.get_log_last_index().await?;
+        let found_prev_entry = if prev_index <= cur_last_index {
+            self.storage.get_entry(prev_index).await?
+        } else {
+            None
+        };
+        if let Some(prev_clock) = found_prev_entry.map(|x| x.this_clock) {
             if prev_clock != entry.prev_clock {
                 // consistency check failed.
                 Ok(TryInsertResult::InconsistentInsertion {
@@ -112,12 +113,12 @@ impl CommandLog {
                 } = entry.this_clock;
 
                 // optimization to skip actual insertion.
-                if let Some(old_clock) = self
-                    .storage
-                    .get_entry(this_index)
-                    .await?
-                    .map(|e| e.this_clock)
-                {
+                let found_entry = if this_index <= cur_last_index {
+                    self.storage.get_entry(this_index).await?
+                } else {
+                    None
+                };
+                if let Some(old_clock) = found_entry.map(|e| e.this_clock) {
                     if old_clock == entry.this_clock {
                         // If there is a entry with the same term and index
                         // then the entry should be the same so to skip insertion.
-- 
2.43.0


From 45d9f637a6580134c22c4f1c8cc627d7f6eb1c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 09/30] fix: new entries are appended only in the term the node
 leads

---
 sorock/src/process/command_log/consumer.rs | 10 ++--
 sorock/src/process/command_log/producer.rs | 60 ++++++++++++++++++----
 sorock/src/process/raft_process/queue.rs   |  7 +--
 sorock/src/process/voter/election.rs       |  4 +-
 sorock/src/process/voter/mod.rs            | 11 ++--
 5 files changed, 68 insertions(+), 24 deletions(-)

diff --git a/sorock/src/process/command_log/consumer.rs b/sorock/src/process/command_log/consumer.rs
index 4ed8600..82d7875 100644
--- a/sorock/src/process/command_log/consumer.rs
+++ b/sorock/src/process/command_log/consumer.rs
@@ -92,9 +92,13 @@ impl CommandLog {
                                 // This should be queued and replicated to the followers.
                                 // Otherwise followers will never know the request is completed and the context will never be terminated.
                                 let command = Command::CompleteRequest { request_id };
-                                self.append_new_entry(Command::serialize(command), None)
-                                    .await
-                                    .ok();
+                                self.append_new_entry(
+                                    Command::serialize(command),
+                                    e.this_clock.term,
+                                    None,
+                                )
+                                .await
+                                .ok();
                             }
                         }
                     }
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index 371fd4a..ae4c0d5 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -16,19 +16,51 @@ pub enum TryInsertResult {
 }
 
 impl CommandLog {
-    /// Append a new entry to the log.
-    /// If `term` is None, then the term of the last entry is used.
-    /// Otherwise, the given term is used to update the term of the last entry.
-    pub async fn append_new_entry(&self, command: Bytes, term: Option<Term>) -> Result<Index> {
+    /// Append the barrier entry which is the first entry in the new `term`.
+    pub async fn append_barrier_entry(&self, command: Bytes, term: Term) -> Result<Index> {
         let _g = self.append_lock.lock().await;
 
         let cur_last_log_index = self.get_log_last_index().await?;
         let prev_clock = self.get_entry(cur_last_log_index).await?.this_clock;
+        ensure!(prev_clock.term < term);
+
+        self.append_after(prev_clock, command, term).await
+    }
+
+    /// Append a new entry in `term` to the log.
+    /// This fails if the last entry isn't in the term because then
+    /// this node isn't the leader of the term any more.
+    pub async fn append_new_entry(
+        &self,
+        command: Bytes,
+        term: Term,
+        completion: Option<Completion>,
+    ) -> Result<Index> {
+        let _g = self.append_lock.lock().await;
+
+        let cur_last_log_index = self.get_log_last_index().await?;
+        let prev_clock = self.get_entry(cur_last_log_index).await?.this_clock;
+        ensure!(prev_clock.term == term);
+
+        // The completion should be there before the entry is committed.
         let append_index = cur_last_log_index + 1;
-        let this_term = match term {
-            Some(t) => t,
-            None => prev_clock.term,
-        };
+        if let Some(completion) = completion {
+            self.register_completion(append_index, completion);
+        }
+        let res = self.append_after(prev_clock, command, term).await;
+        if res.is_err() {
+            self.discard_completions(append_index);
+        }
+        res
+    }
+
+    async fn append_after(
+        &self,
+        prev_clock: Clock,
+        command: Bytes,
+        this_term: Term,
+    ) -> Result<Index> {
+        let append_index = prev_clock.index + 1;
         let this_clock = Clock {
             term: this_term,
             index: append_index,
@@ -43,6 +75,12 @@ impl CommandLog {
         Ok(append_index)
     }
 
+    /// Discard the completions in `[index, )`.
+    fn discard_completions(&self, index: Index) {
+        self.user_completions.lock().split_off(&index);
+        self.kern_completions.lock().split_off(&index);
+    }
+
     pub async fn try_insert_entry(
         &self,
         entry: Entry,
@@ -89,6 +127,8 @@ impl CommandLog {
             _ => {}
         }
 
+        let _g = self.append_lock.lock().await;
+
         let Clock {
             term: _,
             index: prev_index,
@@ -128,9 +168,7 @@ impl CommandLog {
 
                 self.insert_entry(entry).await?;
 
-                // discard [this_index, )
-                self.user_completions.lock().split_off(&this_index);
-                self.kern_completions.lock().split_off(&this_index);
+                self.discard_completions(this_index);
 
                 Ok(TryInsertResult::Inserted)
             }
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 47f2a29..1b587ab 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -6,16 +6,13 @@ impl RaftProcess {
         command: Bytes,
         completion: Completion,
     ) -> Result<Index> {
-        ensure!(self.voter.allow_queue_new_entry().await?);
+        let term = self.voter.allow_queue_new_entry().await?;
 
         let append_index = self
             .command_log
-            .append_new_entry(command.clone(), None)
+            .append_new_entry(command.clone(), term, Some(completion))
             .await?;
 
-        self.command_log
-            .register_completion(append_index, completion);
-
         self.process_configuration_command(&command, append_index)
             .await?;
 
diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 527c07d..8e9cc98 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -236,9 +236,9 @@ impl Voter {
             // As soon as the node becomes the leader, replicate noop entries with term.
             let index = self
                 .command_log
-                .append_new_entry(
+                .append_barrier_entry(
                     Command::serialize(Command::Barrier(vote_term)),
-                    Some(vote_term),
+                    vote_term,
                 )
                 .await?;
             info!("noop barrier is queued at index({index}) (term={vote_term})");
diff --git a/sorock/src/process/voter/mod.rs b/sorock/src/process/voter/mod.rs
index 8a02911..e41c88b 100644
--- a/sorock/src/process/voter/mod.rs
+++ b/sorock/src/process/voter/mod.rs
@@ -85,10 +85,15 @@ impl Voter {
         self.safe_term.store(term, Ordering::SeqCst);
     }
 
+    /// Returns the term in which new entries are queued.
     /// If `safe_term < cur_term`, any new entries are not allowed to be queued.
-    pub async fn allow_queue_new_entry(&self) -> Result<bool> {
-        let cur_term = self.ballot.load_ballot().await?.cur_term;
+    pub async fn allow_queue_new_entry(&self) -> Result<Term> {
+        let cur_term = self
+            .read_leader_term()
+            .await?
+            .context(Error::LeaderUnknown)?;
         let cur_safe_term = self.safe_term.load(Ordering::SeqCst);
-        Ok(cur_safe_term == cur_term)
+        ensure!(cur_safe_term == cur_term);
+        Ok(cur_term)
     }
 }
-- 
2.43.0


From 7c539bd7273af01efd27357ffa2d78d1094d411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 10/30] fix: a follower rejects the log stream of a deposed
 leader

---
 sorock/proto/sorock.proto                  |   1 +
 sorock/src/communicator/stream.rs          |   1 +
 sorock/src/generated/sorock.rs             |   2 +
 sorock/src/generated/sorock_descriptor.bin | Bin 8671 -> 8760 bytes
 sorock/src/process/api.rs                  |   2 +
 sorock/src/process/command_log/producer.rs |  29 +++++++----
 sorock/src/process/peer_svc/mod.rs         |   4 ++
 sorock/src/process/peer_svc/replication.rs |  57 ++++++++++++++-------
 sorock/src/process/raft_process/queue.rs   |  21 ++++++--
 sorock/src/process/thread/replication.rs   |   2 +-
 sorock/src/process/voter/heartbeat.rs      |  55 +++++++++++++++-----
 sorock/src/raft_service/stream.rs          |   5 +-
 12 files changed, 131 insertions(+), 48 deletions(-)

diff --git a/sorock/proto/sorock.proto b/sorock/proto/sorock.proto
index e42daf5..9be3e83 100644
--- a/sorock/proto/sorock.proto
+++ b/sorock/proto/sorock.proto
@@ -41,6 +41,7 @@ message ReplicationStreamHeader {
   uint32 shard_id = 1;
   string sender_id = 2;
   Clock prev_clock = 3;
+  uint64 leader_term = 4;
 }
 message ReplicationStreamEntry {
   Clock clock = 1;
diff --git a/sorock/src/communicator/stream.rs b/sorock/src/communicator/stream.rs
index a61c01b..b06c0ab 100644
--- a/sorock/src/communicator/stream.rs
+++ b/sorock/src/communicator/stream.rs
@@ -12,6 +12,7 @@ pub fn into_external_replication_stream(
             term: st.prev_clock.term,
             index: st.prev_clock.index,
         }),
+        leader_term: st.leader_term,
     }))];
     let header_stream = futures::stream::iter(header_stream);
 
diff --git a/sorock/src/generated/sorock.rs b/sorock/src/generated/sorock.rs
index 63a6cb2..0660313 100644
--- a/sorock/src/generated/sorock.rs
+++ b/sorock/src/generated/sorock.rs
@@ -50,6 +50,8 @@ pub struct ReplicationStreamHeader {
     pub sender_id: ::prost::alloc::string::String,
     #[prost(message, optional, tag = "3")]
     pub prev_clock: ::core::option::Option<Clock>,
+    #[prost(uint64, tag = "4")]
+    pub leader_term: u64,
 }
 #[derive(Clone, PartialEq, ::prost::Message)]
 pub struct ReplicationStreamEntry {
diff --git a/sorock/src/generated/sorock_descriptor.bin b/sorock/src/generated/sorock_descriptor.bin
index e2263d1a4e5519783433ef330325ad06bc320eb1..b00a6e2f67bd0b5547da3bcfc2d47a54c9d06d4e 100644
GIT binary patch
delta 2578
zcmX|D*-jis6s@kV>8|b`mMK;PHVmr~t66Lo8Em#;vrJ-$A(Fv~nJAL6*f+oQL!|rw
zKaiK?IT9~Xo}&DSKO#~dqnulHd*0^MJ?GS^?e=_G{A20&-Y}hwqgd)5<9CYLSjV0=
zewSFbgNgg;2D`<e9rTP(Kiy!D7_fs7(N8znD?069Y<&9Z2Kz+O4t5)#e!9WOqW%8Y
zaNm>nWB0k})|0<@cWIm!O?#XimA^YIpB-G3&ptJ)4)3x0I(9?b7`gv1{xOVxYmWn?
zg!p`aY<^bW;N8EC_h}L<m6N{l2jqh|ALj_<2<Z%A1p`rihKSkJ9LKR#FdGu19)9~O
z0BcA;ipegJ!uZ3|SP4KtD9jLu!@4R%Dg1_O3#>zJM7pU0=^@5QMdwjX*RalmY{b;r
z7@<*5#8Vd|1nUW6<Pjs(!l*Gh>01pDYGXQYrwS?Jxax~jS~3taj;mJ3l*Alw>&y`5
z8t>_49ZD0bhf5x06RIUcRBP?X5M&cw-8P~&YD&zyh#IUZU9@&urpPfZo2^DmfhAA#
z&I5rt9o1zu_)Rx9u@0pf*~TT>shNt5c4{VS%4(3!w6xk7kx|dZ3l}2->$z@8tzSgj
zF((_X1^|9@><0wqTvW(v@SCe|U>QpD(j|=Sfz4NB6k|TBW*HsWe8Jclu~7?R$;C)x
z&=$1wiz&vUbW;H!#v)$;AP^UEd~{$y@LQ~@wSI|FE8>;&OTb#ubv9l?b|qdF0PIQ}
z4+z9kR7kBKApA<atVE)=D%}nOK(|`a(Xv(}cehc4Y_*}0r<2BClkPSoQbM*?k&)$E
z)WEaRds}OM09mS3LTH^2699K=omUM6-MY@A_{79v(kn}(GX6$obqdpM$bctMkZpu+
zBSD00qp~;<H~EnzGR;|->2lC*hVGRmG6&rzzp}hhuf<nxlk;G`*7Y_<o;G=lZ!iGt
zwm1e5h+Cn%A3(6%!VRY0QDxK{@r@U!)I6#{d!uPPl&T`XZSF+?@Z08H1OjoJdl3-)
zw$Y2645b}ewCk_3XSP$3(V6W;?zNx>*-m?hjZvK%^;UfAmQ@YfTkU#LHO1KFI{<(f
zyX*%9;x69-Ao%U_9jK;r-jg#n1^~`-Pr8l(M782%R)cJBDnA{sVmoS#dMDoB{nNIZ
zzSC|+HI!hV&ldm*_BjC%toHd$0>NsZ&$osW9B^;|$POwpN^rozQG@IN!CxUjtx+Gu
z4_?d5yFVYUrysPtW3`mwkTU?l?2yfXV0OqEfM9mW8EPp*nKJ-DR<6h>Lzy$623Z*y
z{`L@}VAMzP$!od$>Cs>5M{VrM7AV6JX8?fN5t{+Q?1(b}!R!bbaKQrf{$ugk9&A9Y
zW7qiuL3Sr{h)#h3N+&^*A-v#|yzRy*72$W%H9#?dz&w=$%%oME262X<J56l+BqC&|
z#eSBdbS6toB$KniP5`2$T8sUd5Q6M%beU!JVLX@5SVwK(Jh1N>Odq=QI{M1d5~wMh
z_fN78P2oZ=a*5i&MPQ#Zhzhccf_)-{AiEfR$ujKfrCehfb%FFUuuTrk9CVlUeOVE@
z%drycaKW$SdoIzRfUCfMMIj5|dG)X>tHI=|+dd4c!Q^UrpG`vJU&|FH(kJ{naE%$v
z5W4HSY>z_BcRl(vqr&C-*%G_pPt}cl!6o|2-UPPuz(m93rXkxf4cSfq9Lpl(-^vA+
i(O2;{pno7m+S&-Z+eZ6-2|;%|@Z$U6<m~w3c>I68o4u(3

delta 2487
zcmX|D*-jis6s@kV>8`FGmZ@R$*v9M*0vwhQz%j&tVFqwaWQZY>ArTNMGLeUUdFnjn
zJ>nbk9*LJcM)`~=Qa&NSkaMeU&)b~3=bSpV-JU;Q{k#18P@Jup#7LdmuurTQZ31n>
zelh9>1OL+x4u}yqh&uiBgM*^a4H_HLPd_*$dfniF4e6&Jd@8<hgM&7tpMLNY@#Oxu
zct4PTPuv%h+aSp9em2>CPx@n={MT(FtAx0{|JDAYf|0wf&il+5sW3V!J`Id9p^6Z3
zRCk-yC>2Rz!!c=1(G&<ogyI~5IHsF&6auxDSccLw*~X=yKq!|5RMRbaErafvEn{k_
zVyni*w2u*kHjWrY#E7-9YC?V%IuQ_R6T0Z;iYelxdg@Cq;-q?*BM>Ja_2mdtO%4vR
z45cYGXfj$_ECVcUN>!Li8K)lh<OsT{{s9+JTQwt|`-mE>8QtsrG{u;eT}}dkCC^Ho
zBM@hka*kj(+tJCg47EA=h-<V}a}6EEm`ghI8gz4&hb~59)eG^ZkCA}&LRXw$LNVrL
zhm!!nZl3LcK%7rXc@1{+ZS5KBP+O2bVj?NVLPJL}7LsPx1<);&tczi+S`^DZh5>6)
zw>vvSF_xsC3IKLXd;x$!T*B$m#v7Rl_${@xI=|Ga74h2prJ$|ovhz#HZ<Ut?0KZj^
z2L$3OFAE5Et8G3;Dp9IRzkvXdRU0x|RW-4h%Yh<v)%FgaPTH_0{cT94gs#@mk!LMw
zXPJbo*7bm80Bd}fsSI(Y)_B!Gkge%FN=QtcWoj~|QmJgX-dLT&bn7zW2^4hevENA$
zp<8dP4#W+9WvMJUl*<Z`ZN&bSp$6FoKeD1#Z^YMrkBfoL!Z*6j#V^t(Z}JrefZry^
z0D|9U?C%E<{5Elg>CrY>^;Uf2{hGjftNm^?k=>Sj;MM^EyDi>CAP~0_Y7kjL0m5&q
zv&+S3q7B}by{w}{+ivLS(6$r*T0n$s`$><B(QMT_@vV>14AwjCdr>pR*x@?>0J|Nw
z0}AYRxRdz)1_-|$z5~q^V^=<RF#vFwyV7?AAgc9F=QYT7XXi`}yU}9Rd-2`f>&Lb1
zz4i-gp#*z;yZ}hB#|ePow8xhh2u^!^ye$-9pMwKHw%?FZfPK!58f5#({S^YVT6G|P
z2r7$r<?i+DK+_#ls+BSvas~jH9kLk^%nmsN5X=raLn~!C;tT+g9W`W>;fOP!2H6oZ
z{1qTX$*K?Hr=W88PxqhM2W?%35@k5%3;-}YW-}m|9diaCm>nYn?pK7?|54n!gN=yw
z(Kr4`kX>Dl(IF5(sUD>{!UL`sT{q6C2)}y&2*m&b^F)p?lU8vOnH)iPlDhUuM95Bh
zhgpWwsjM=QOim*=0f>@nmBG9Q+3ENS%jg4lCTF-tZQv|&&l$Q9y0bEU<Y)=h6wZdH
zS%;o*E|<APUEn-&&lyAo*?Gym5JHfhk1nzdyLutlSVmnSyNKNV2D1R&MVtFn5`ykx
zvdTK#?@ReT>*zngW#qo1AV%=KeB7VcU~)O&-UZcQa=Eh4Cb12#<SG;C3w{-qT!RHO
zhVH7I?@^5TuEsylsc^ZPdBraHJ9I5ya)~~&*O6;HFwro%ZqGMNLv}s9z_P@KH*$$(
h^ijNtsKNBo)+W&1bhzhB2)dh*mj}_wS^c6u^*=x8u7Cgl

diff --git a/sorock/src/process/api.rs b/sorock/src/process/api.rs
index dcd70f4..a7e7a40 100644
--- a/sorock/src/process/api.rs
+++ b/sorock/src/process/api.rs
@@ -46,6 +46,8 @@ pub mod request {
 
     pub struct ReplicationStream {
         pub sender_id: NodeId,
+        /// The term the sender is leading.
+        pub leader_term: Term,
         pub prev_clock: Clock,
         pub entries: std::pin::Pin<
             Box<dyn futures::stream::Stream<Item = Option<ReplicationStreamElem>> + Send>,
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index ae4c0d5..82c1d21 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -81,20 +81,16 @@ impl CommandLog {
         self.kern_completions.lock().split_off(&index);
     }
 
-    pub async fn try_insert_entry(
+    /// If the entry is snapshot then fetch the snapshot from the leader.
+    pub async fn fetch_snapshot_of(
         &self,
-        entry: Entry,
+        entry: &Entry,
         sender_id: NodeId,
         driver: RaftDriver,
-    ) -> Result<TryInsertResult> {
-        // If the entry is snapshot then we should insert this entry without consistency checks.
-        // Old entries before the new snapshot will be garbage collected.
+    ) -> Result<()> {
         match Command::deserialize(&entry.command) {
             Command::Snapshot { .. } => {
-                let Clock {
-                    term: _,
-                    index: snapshot_index,
-                } = entry.this_clock;
+                let snapshot_index = entry.this_clock.index;
                 warn!(
                     "log is too old. replicated a snapshot (idx={}) from leader",
                     snapshot_index
@@ -112,6 +108,21 @@ impl CommandLog {
                     );
                     return Err(e);
                 }
+            }
+            _ => {}
+        }
+        Ok(())
+    }
+
+    pub async fn try_insert_entry(&self, entry: Entry) -> Result<TryInsertResult> {
+        // If the entry is snapshot then we should insert this entry without consistency checks.
+        // Old entries before the new snapshot will be garbage collected.
+        match Command::deserialize(&entry.command) {
+            Command::Snapshot { .. } => {
+                let Clock {
+                    term: _,
+                    index: snapshot_index,
+                } = entry.this_clock;
 
                 self.insert_snapshot(entry).await?;
 
diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index dd20fd6..83d0dec 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -4,6 +4,8 @@ mod replication;
 
 #[derive(Clone, Copy, Debug)]
 pub(crate) struct ReplicationProgress {
+    /// Identifies the progress. The results from the previous progress should be ignored.
+    epoch: u64,
     /// The log entrires `[0, match_index]` are replicated with this node.
     pub match_index: Index,
     /// In the next replication, log entrires `[next_index, next_index + next_max_cnt)` will be sent.
@@ -12,7 +14,9 @@ pub(crate) struct ReplicationProgress {
 }
 impl ReplicationProgress {
     pub fn new(init_next_index: Index) -> Self {
+        static EPOCH: AtomicU64 = AtomicU64::new(0);
         Self {
+            epoch: EPOCH.fetch_add(1, Ordering::SeqCst),
             match_index: 0,
             next_index: init_next_index,
             next_max_cnt: 1,
diff --git a/sorock/src/process/peer_svc/replication.rs b/sorock/src/process/peer_svc/replication.rs
index 38a24bf..fb2ba84 100644
--- a/sorock/src/process/peer_svc/replication.rs
+++ b/sorock/src/process/peer_svc/replication.rs
@@ -4,21 +4,27 @@ impl PeerSvc {
     /// Prepare a replication stream from the log entries `[l, r)`.
     async fn prepare_replication_stream(
         selfid: NodeId,
+        leader_term: Term,
         command_log: Ref<CommandLog>,
         l: Index,
         r: Index,
     ) -> Result<request::ReplicationStream> {
         let head = command_log.get_entry(l).await?;
 
+        let mut prev_clock = head.prev_clock;
         let st = async_stream::stream! {
             for idx in l..r {
                 let x = command_log.get_entry(idx).await;
                 let e = match x {
-                    Ok(x) => Some(request::ReplicationStreamElem {
-                        this_clock: x.this_clock,
-                        command: x.command,
-                    }),
-                    Err(_) => None,
+                    // The log may be overwritten by a new leader while this stream is running.
+                    Ok(x) if x.prev_clock == prev_clock => {
+                        prev_clock = x.this_clock;
+                        Some(request::ReplicationStreamElem {
+                            this_clock: x.this_clock,
+                            command: x.command,
+                        })
+                    }
+                    _ => None,
                 };
                 yield e;
             }
@@ -26,12 +32,13 @@ impl PeerSvc {
 
         Ok(request::ReplicationStream {
             sender_id: selfid,
+            leader_term,
             prev_clock: head.prev_clock,
             entries: Box::pin(st),
         })
     }
 
-    pub async fn advance_replication(&self, follower_id: NodeId) -> Result<()> {
+    pub async fn advance_replication(&self, follower_id: NodeId, voter: Ref<Voter>) -> Result<()> {
         let peer_context = self
             .peer_contexts
             .read()
@@ -40,6 +47,14 @@ impl PeerSvc {
             .clone();
 
         let old_progress = peer_context.progress;
+
+        // The term should be read after the progress. If this node is elected again
+        // in the meantime then the progress is reset and the result is thrown away.
+        let leader_term = voter
+            .read_leader_term()
+            .await?
+            .context(Error::LeaderUnknown)?;
+
         let cur_last_log_index = self.command_log.get_log_last_index().await?;
 
         // More entries to send?
@@ -53,13 +68,11 @@ impl PeerSvc {
                 "entry not found at next_index (idx={}) for {}",
                 old_progress.next_index, follower_id,
             );
-            let new_progress = ReplicationProgress::new(cur_snapshot_index);
-            self.peer_contexts
-                .write()
-                .get_mut(&follower_id)
-                .context(Error::PeerNotFound(follower_id.clone()))?
-                .progress = new_progress;
-            return Ok(());
+            let new_progress = ReplicationProgress {
+                epoch: old_progress.epoch,
+                ..ReplicationProgress::new(cur_snapshot_index)
+            };
+            return self.update_progress(&follower_id, new_progress);
         }
 
         let n_max_possible = cur_last_log_index - old_progress.next_index + 1;
@@ -68,6 +81,7 @@ impl PeerSvc {
 
         let out_stream = Self::prepare_replication_stream(
             self.driver.self_node_id(),
+            leader_term,
             self.command_log.clone(),
             old_progress.next_index,
             old_progress.next_index + n,
@@ -85,11 +99,13 @@ impl PeerSvc {
                 n_inserted: 0,
                 log_last_index: last_log_index,
             } => ReplicationProgress {
+                epoch: old_progress.epoch,
                 match_index: old_progress.match_index,
                 next_index: std::cmp::min(old_progress.next_index - 1, last_log_index + 1),
                 next_max_cnt: 1,
             },
             response::ReplicationStream { n_inserted, .. } => ReplicationProgress {
+                epoch: old_progress.epoch,
                 match_index: old_progress.next_index + n_inserted - 1,
                 next_index: old_progress.next_index + n_inserted,
                 // If all entries are successfully inserted, then it is safe to double
@@ -98,12 +114,17 @@ impl PeerSvc {
             },
         };
 
-        self.peer_contexts
-            .write()
-            .get_mut(&follower_id)
-            .context(Error::PeerNotFound(follower_id.clone()))?
-            .progress = new_progress;
+        self.update_progress(&follower_id, new_progress)
+    }
 
+    /// Update the progress unless it is reset after the replication is started.
+    fn update_progress(&self, follower_id: &NodeId, new: ReplicationProgress) -> Result<()> {
+        let mut peer_contexts = self.peer_contexts.write();
+        let peer_context = peer_contexts
+            .get_mut(follower_id)
+            .context(Error::PeerNotFound(follower_id.clone()))?;
+        ensure!(peer_context.progress.epoch == new.epoch);
+        peer_context.progress = new;
         Ok(())
     }
 }
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 1b587ab..d6c7738 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -26,6 +26,11 @@ impl RaftProcess {
         &self,
         mut req: request::ReplicationStream,
     ) -> Result<u64> {
+        let leader_term = req.leader_term;
+        self.voter
+            .receive_leader_term(req.sender_id.clone(), leader_term)
+            .await?;
+
         let mut prev_clock = req.prev_clock;
         let mut n_inserted = 0;
         while let Some(Some(cur)) = req.entries.next().await {
@@ -36,11 +41,17 @@ impl RaftProcess {
             };
             let insert_index = entry.this_clock.index;
             let command = entry.command.clone();
-            match self
-                .command_log
-                .try_insert_entry(entry, req.sender_id.clone(), self.driver.clone())
-                .await?
-            {
+            ensure!(cur.this_clock.term <= leader_term);
+
+            self.command_log
+                .fetch_snapshot_of(&entry, req.sender_id.clone(), self.driver.clone())
+                .await?;
+
+            // No entry should be accepted from the leader of the old term after voting in a newer term
+            // because the vote is based on the log at that time.
+            let _lk = self.voter.lock_term(leader_term).await?;
+
+            match self.command_log.try_insert_entry(entry).await? {
                 command_log::TryInsertResult::Inserted => {
                     self.process_configuration_command(&command, insert_index)
                         .await?
diff --git a/sorock/src/process/thread/replication.rs b/sorock/src/process/thread/replication.rs
index e29307d..f655e63 100644
--- a/sorock/src/process/thread/replication.rs
+++ b/sorock/src/process/thread/replication.rs
@@ -16,7 +16,7 @@ impl Thread {
         }
 
         self.peers
-            .advance_replication(self.follower_id.clone())
+            .advance_replication(self.follower_id.clone(), self.voter.clone())
             .await?;
 
         Ok(true)
diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index 4e566ec..3a156b0 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -9,7 +9,7 @@ impl Voter {
     ) -> Result<()> {
         let _lk = self.vote_lock.lock().await;
 
-        let mut ballot = self.read_ballot().await?;
+        let ballot = self.read_ballot().await?;
         if leader_term < ballot.cur_term {
             warn!("heartbeat is stale. rejected");
             return Ok(());
@@ -18,19 +18,7 @@ impl Voter {
         self.leader_failure_detector
             .receive_heartbeat(leader_id.clone());
 
-        if leader_term > ballot.cur_term {
-            warn!("received heartbeat with newer term. reset ballot");
-            ballot.cur_term = leader_term;
-            ballot.voted_for = None;
-            self.write_election_state(ElectionState::Follower);
-        }
-
-        if ballot.voted_for != Some(leader_id.clone()) {
-            info!("learn the current leader ({leader_id})");
-            ballot.voted_for = Some(leader_id);
-        }
-
-        self.write_ballot(ballot).await?;
+        self.learn_leader(ballot, leader_id, leader_term).await?;
 
         let new_commit_index =
             std::cmp::min(leader_commit, self.command_log.get_log_last_index().await?);
@@ -49,6 +37,45 @@ impl Voter {
         Ok(())
     }
 
+    /// Learn the leader of the term. The lock should be taken by the caller.
+    async fn learn_leader(
+        &self,
+        mut ballot: Ballot,
+        leader_id: NodeId,
+        leader_term: Term,
+    ) -> Result<()> {
+        if leader_term > ballot.cur_term {
+            warn!("received heartbeat with newer term. reset ballot");
+            ballot.cur_term = leader_term;
+            ballot.voted_for = None;
+            self.write_election_state(ElectionState::Follower);
+        }
+
+        if ballot.voted_for != Some(leader_id.clone()) {
+            info!("learn the current leader ({leader_id})");
+            ballot.voted_for = Some(leader_id);
+        }
+
+        self.write_ballot(ballot).await?;
+        Ok(())
+    }
+
+    /// Receive the term of the leader that is replicating its log.
+    pub async fn receive_leader_term(&self, leader_id: NodeId, leader_term: Term) -> Result<()> {
+        let _lk = self.vote_lock.lock().await;
+
+        let ballot = self.read_ballot().await?;
+        ensure!(leader_term >= ballot.cur_term);
+        self.learn_leader(ballot, leader_id, leader_term).await
+    }
+
+    /// Prevent the ballot from changing while the log is updated by the leader of the term.
+    pub async fn lock_term(&self, leader_term: Term) -> Result<tokio::sync::MutexGuard<'_, ()>> {
+        let lk = self.vote_lock.lock().await;
+        ensure!(self.read_ballot().await?.cur_term == leader_term);
+        Ok(lk)
+    }
+
     pub async fn send_heartbeat(&self, follower_id: NodeId) -> Result<()> {
         let Some(leader_term) = self.read_leader_term().await? else {
             return Ok(());
diff --git a/sorock/src/raft_service/stream.rs b/sorock/src/raft_service/stream.rs
index 5ff4e0b..02c99b8 100644
--- a/sorock/src/raft_service/stream.rs
+++ b/sorock/src/raft_service/stream.rs
@@ -6,12 +6,13 @@ pub async fn into_internal_replication_stream(
     use raft::replication_stream_chunk::Elem as ChunkElem;
 
     // Get the header of the stream
-    let (shard_id, sender_id, prev_clock) = if let Some(Ok(chunk)) = out_stream.next().await {
+    let (shard_id, sender_id, prev_clock, leader_term) = if let Some(Ok(chunk)) = out_stream.next().await {
         let e = chunk.elem.context(Error::BadReplicationStream)?;
         if let ChunkElem::Header(raft::ReplicationStreamHeader {
             shard_id,
             sender_id,
             prev_clock: Some(prev_clock),
+            leader_term,
         }) = e
         {
             (
@@ -21,6 +22,7 @@ pub async fn into_internal_replication_stream(
                     term: prev_clock.term,
                     index: prev_clock.index,
                 },
+                leader_term,
             )
         } else {
             bail!(Error::BadReplicationStream)
@@ -49,6 +51,7 @@ pub async fn into_internal_replication_stream(
 
     let st = request::ReplicationStream {
         sender_id: sender_id.parse().unwrap(),
+        leader_term,
         prev_clock,
         entries: Box::pin(entries),
     };
-- 
2.43.0


From f43347d84aef19e72e949f0c9426be430b898bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:33 +0000
Subject: [PATCH 11/30] fix: an interrupted overwrite does not leave the
 overwritten entries in the log

---
 sorock/src/process/command_log/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sorock/src/process/command_log/mod.rs b/sorock/src/process/command_log/mod.rs
index 1ee2796..88f8005 100644
--- a/sorock/src/process/command_log/mod.rs
+++ b/sorock/src/process/command_log/mod.rs
@@ -182,6 +182,8 @@ impl Inner {
 
     pub async fn insert_entry(&self, e: Entry) -> Result<()> {
         let index = e.this_clock.index;
+        // If the entry is overwritten, the entries after it aren't a part of the log any more.
+        self.last_pointer.fetch_min(index - 1, Ordering::SeqCst);
         self.storage.insert_entry(index, e).await?;
         self.last_pointer.store(index, Ordering::SeqCst);
         Ok(())
-- 
2.43.0


From 7bd68e9ed2ede8d0a79a11982e51a8f7c476510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 12/30] fix: inserting a received configuration takes effect
 even if the sender goes away

---
 sorock/src/raft_service/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sorock/src/raft_service/mod.rs b/sorock/src/raft_service/mod.rs
index 0440cd8..268d5e4 100644
--- a/sorock/src/raft_service/mod.rs
+++ b/sorock/src/raft_service/mod.rs
@@ -156,13 +156,16 @@ impl raft::raft_server::Raft for RaftService {
     ) -> std::result::Result<tonic::Response<raft::ReplicationStreamResponse>, tonic::Status> {
         let st = request.into_inner();
         let (shard_id, st) = stream::into_internal_replication_stream(st).await.unwrap();
-        let resp = self
+        let process = self
             .node
             .get_process(shard_id)
             .context(Error::ProcessNotFound(shard_id))
-            .unwrap()
-            .send_replication_stream(st)
+            .unwrap();
+        // The received entry should be processed to the end even if the sender goes away.
+        // Otherwise a configuration may be in the log but not in effect.
+        let resp = tokio::spawn(async move { process.send_replication_stream(st).await })
             .await
+            .unwrap()
             .unwrap();
         Ok(tonic::Response::new(raft::ReplicationStreamResponse {
             n_inserted: resp.n_inserted,
-- 
2.43.0


From eead2c3a554968fbcea3358bb42aa56c0123bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 13/30] fix: overwriting a configuration entry restores the
 previous configuration

---
 sorock/src/process/raft_process/cluster.rs | 21 +++++++++++++++++++++
 sorock/src/process/raft_process/queue.rs   |  1 +
 2 files changed, 22 insertions(+)

diff --git a/sorock/src/process/raft_process/cluster.rs b/sorock/src/process/raft_process/cluster.rs
index d4f4b41..8c9d733 100644
--- a/sorock/src/process/raft_process/cluster.rs
+++ b/sorock/src/process/raft_process/cluster.rs
@@ -24,6 +24,27 @@ impl RaftProcess {
         Ok(())
     }
 
+    /// If the configuration in effect was overwritten by the entry inserted at `index`
+    /// then the last configuration that is still in the log should be used again.
+    pub(crate) async fn rollback_configuration(&self, index: Index) -> Result<()> {
+        if self.command_log.membership_pointer.load(Ordering::SeqCst) < index {
+            return Ok(());
+        }
+        let last_membership_index = self
+            .command_log
+            .find_last_membership_index(index)
+            .await?
+            .context(Error::BadLogState)?;
+        let config = self
+            .command_log
+            .try_read_membership(last_membership_index)
+            .await?
+            .context(Error::BadLogState)?;
+        self.peers
+            .set_membership(config, last_membership_index, Ref(self.voter.clone()))
+            .await
+    }
+
     /// Forming a new cluster with a single node is called "cluster bootstrapping".
     /// Raft algorith doesn't define adding node when the cluster is empty.
     /// We need to handle this special case.
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index d6c7738..e6e6072 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -53,6 +53,7 @@ impl RaftProcess {
 
             match self.command_log.try_insert_entry(entry).await? {
                 command_log::TryInsertResult::Inserted => {
+                    self.rollback_configuration(insert_index).await?;
                     self.process_configuration_command(&command, insert_index)
                         .await?
                 }
-- 
2.43.0


From c82af8340bf96e66bb1a77a41253eb47d71465ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 14/30] fix: configuration changes are serialized

---
 sorock/src/process/raft_process/mod.rs       |  2 ++
 sorock/src/process/raft_process/queue.rs     | 36 ++++++++++++++++++++
 sorock/src/process/raft_process/responder.rs | 30 ++++++----------
 3 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/sorock/src/process/raft_process/mod.rs b/sorock/src/process/raft_process/mod.rs
index e06455c..ecd8e16 100644
--- a/sorock/src/process/raft_process/mod.rs
+++ b/sorock/src/process/raft_process/mod.rs
@@ -25,6 +25,7 @@ pub struct RaftProcess {
     peers: PeerSvc,
     query_tx: query_queue::Producer,
     driver: RaftDriver,
+    configuration_lock: tokio::sync::Mutex<()>,
     _thread_handles: ThreadHandles,
 
     queue_tx: thread::EventProducer<thread::QueueEvent>,
@@ -105,6 +106,7 @@ impl RaftProcess {
             peers,
             query_tx,
             driver,
+            configuration_lock: tokio::sync::Mutex::new(()),
             _thread_handles,
 
             queue_tx,
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index e6e6072..1e00056 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -8,6 +8,42 @@ impl RaftProcess {
     ) -> Result<Index> {
         let term = self.voter.allow_queue_new_entry().await?;
 
+        let append_index = self
+            .command_log
+            .append_new_entry(command, term, Some(completion))
+            .await?;
+
+        self.queue_tx.push_event(thread::QueueEvent);
+        self.replication_tx.push_event(thread::ReplicationEvent);
+
+        Ok(append_index)
+    }
+
+    /// Queue a new configuration which is made from the current configuration.
+    pub(crate) async fn queue_new_configuration(
+        &self,
+        req: kern_message::KernRequest,
+        completion: Completion,
+    ) -> Result<Index> {
+        // Configurations should be changed one by one.
+        let _g = self.configuration_lock.lock().await;
+
+        let term = self.voter.allow_queue_new_entry().await?;
+        // The log shouldn't be overwritten until the configuration takes effect.
+        let _lk = self.voter.lock_term(term).await?;
+
+        ensure!(self.command_log.allow_queue_new_membership());
+        let mut membership = self.peers.read_membership();
+        match req {
+            kern_message::KernRequest::AddServer(id) => {
+                membership.insert(id);
+            }
+            kern_message::KernRequest::RemoveServer(id) => {
+                membership.remove(&id);
+            }
+        }
+        let command = Command::serialize(Command::ClusterConfiguration { membership });
+
         let append_index = self
             .command_log
             .append_new_entry(command.clone(), term, Some(completion))
diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index ba23028..8d67c9e 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -13,7 +13,7 @@ impl RaftProcess {
         Ok(resp)
     }
 
-    pub(crate) async fn process_kern_request(&self, req: request::KernRequest) -> Result<()> {
+    pub(crate) async fn process_kern_request(self: Arc<Self>, req: request::KernRequest) -> Result<()> {
         let ballot = self.voter.read_ballot().await?;
 
         let Some(leader_id) = ballot.voted_for else {
@@ -25,24 +25,16 @@ impl RaftProcess {
             voter::ElectionState::Leader
         ) {
             let (kern_completion, rx) = completion::prepare_kern_completion();
-            let command = match kern_message::KernRequest::deserialize(&req.message).unwrap() {
-                kern_message::KernRequest::AddServer(id) => {
-                    let mut membership = self.peers.read_membership();
-                    membership.insert(id);
-                    Command::ClusterConfiguration { membership }
-                }
-                kern_message::KernRequest::RemoveServer(id) => {
-                    let mut membership = self.peers.read_membership();
-                    membership.remove(&id);
-                    Command::ClusterConfiguration { membership }
-                }
-            };
-            ensure!(self.command_log.allow_queue_new_membership());
-            self.queue_new_entry(
-                Command::serialize(command),
-                Completion::Kern(kern_completion),
-            )
-            .await?;
+            let req = kern_message::KernRequest::deserialize(&req.message).unwrap();
+
+            // The configuration should take effect even if the caller goes away.
+            let process = self.clone();
+            tokio::spawn(async move {
+                process
+                    .queue_new_configuration(req, Completion::Kern(kern_completion))
+                    .await
+            })
+            .await??;
 
             rx.await?;
         } else {
-- 
2.43.0


From 164a20f349a0eb829589085155b42199d7f188ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 15/30] fix: the snapshot index is restored after restart

---
 sorock/src/process/command_log/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sorock/src/process/command_log/mod.rs b/sorock/src/process/command_log/mod.rs
index 88f8005..29fb47d 100644
--- a/sorock/src/process/command_log/mod.rs
+++ b/sorock/src/process/command_log/mod.rs
@@ -80,6 +80,8 @@ impl CommandLog {
         self.commit_pointer.store(start_index, Ordering::SeqCst);
         self.kern_pointer.store(start_index, Ordering::SeqCst);
         self.user_pointer.store(start_index, Ordering::SeqCst);
+        self.snapshot_pointer
+            .store(snapshot_index, Ordering::SeqCst);
 
         Ok(())
     }
-- 
2.43.0


From b0678c639877bc91be2daa85c41e863a85cdb0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 16/30] fix: a snapshot is adopted only after its entry is
 applied

---
 sorock/src/process/command_log/consumer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sorock/src/process/command_log/consumer.rs b/sorock/src/process/command_log/consumer.rs
index 82d7875..930d745 100644
--- a/sorock/src/process/command_log/consumer.rs
+++ b/sorock/src/process/command_log/consumer.rs
@@ -16,6 +16,11 @@ impl CommandLog {
     pub async fn advance_snapshot_index(&self) -> Result<()> {
         let cur_snapshot_index = self.snapshot_pointer.load(Ordering::SeqCst);
         let proposed_snapshot_index = self.app.get_latest_snapshot().await?;
+        // The app may have a snapshot which is fetched but not inserted yet.
+        // It is about entries that this node may not have.
+        if proposed_snapshot_index > self.user_pointer.load(Ordering::SeqCst) {
+            return Ok(());
+        }
         if proposed_snapshot_index > cur_snapshot_index {
             info!("found a newer proposed snapshot@{proposed_snapshot_index} > {cur_snapshot_index}. will move the snapshot index.");
 
-- 
2.43.0


From 4e7092a3a7b345fa493d6b3726a137fd1395e91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 17/30] fix: receiving a snapshot does not move the log
 pointers back

---
 sorock/src/process/command_log/consumer.rs |  8 +++-
 sorock/src/process/command_log/producer.rs | 49 +++++++++++++---------
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/sorock/src/process/command_log/consumer.rs b/sorock/src/process/command_log/consumer.rs
index 930d745..36659e2 100644
--- a/sorock/src/process/command_log/consumer.rs
+++ b/sorock/src/process/command_log/consumer.rs
@@ -115,7 +115,9 @@ impl CommandLog {
             }
         }
 
-        self.user_pointer.store(process_index, Ordering::SeqCst);
+        // The pointer may be already moved by a snapshot.
+        self.user_pointer
+            .fetch_max(process_index, Ordering::SeqCst);
 
         Ok(())
     }
@@ -149,7 +151,9 @@ impl CommandLog {
             }
         }
 
-        self.kern_pointer.store(process_index, Ordering::SeqCst);
+        // The pointer may be already moved by a snapshot.
+        self.kern_pointer
+            .fetch_max(process_index, Ordering::SeqCst);
 
         Ok(())
     }
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index 82c1d21..2060e58 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -81,6 +81,18 @@ impl CommandLog {
         self.kern_completions.lock().split_off(&index);
     }
 
+    /// Returns true if the log or the snapshot already has the entry.
+    async fn has_entry(&self, clock: Clock) -> Result<bool> {
+        if clock.index <= self.snapshot_pointer.load(Ordering::SeqCst) {
+            return Ok(true);
+        }
+        if clock.index > self.get_log_last_index().await? {
+            return Ok(false);
+        }
+        let found_entry = self.storage.get_entry(clock.index).await?;
+        Ok(found_entry.map(|e| e.this_clock) == Some(clock))
+    }
+
     /// If the entry is snapshot then fetch the snapshot from the leader.
     pub async fn fetch_snapshot_of(
         &self,
@@ -88,6 +100,9 @@ impl CommandLog {
         sender_id: NodeId,
         driver: RaftDriver,
     ) -> Result<()> {
+        if self.has_entry(entry.this_clock).await? {
+            return Ok(());
+        }
         match Command::deserialize(&entry.command) {
             Command::Snapshot { .. } => {
                 let snapshot_index = entry.this_clock.index;
@@ -115,6 +130,14 @@ impl CommandLog {
     }
 
     pub async fn try_insert_entry(&self, entry: Entry) -> Result<TryInsertResult> {
+        let _g = self.append_lock.lock().await;
+
+        // If there is a entry with the same term and index
+        // then the entry should be the same so to skip insertion.
+        if self.has_entry(entry.this_clock).await? {
+            return Ok(TryInsertResult::SkippedInsertion);
+        }
+
         // If the entry is snapshot then we should insert this entry without consistency checks.
         // Old entries before the new snapshot will be garbage collected.
         match Command::deserialize(&entry.command) {
@@ -126,20 +149,22 @@ impl CommandLog {
 
                 self.insert_snapshot(entry).await?;
 
+                // These pointers are advanced by the other threads at the same time.
                 self.commit_pointer
-                    .store(snapshot_index - 1, Ordering::SeqCst);
+                    .fetch_max(snapshot_index - 1, Ordering::SeqCst);
                 self.kern_pointer
-                    .store(snapshot_index - 1, Ordering::SeqCst);
+                    .fetch_max(snapshot_index - 1, Ordering::SeqCst);
                 self.user_pointer
-                    .store(snapshot_index - 1, Ordering::SeqCst);
+                    .fetch_max(snapshot_index - 1, Ordering::SeqCst);
+
+                // The entries waited for are replaced with the snapshot.
+                self.discard_completions(0);
 
                 return Ok(TryInsertResult::Inserted);
             }
             _ => {}
         }
 
-        let _g = self.append_lock.lock().await;
-
         let Clock {
             term: _,
             index: prev_index,
@@ -163,20 +188,6 @@ impl CommandLog {
                     index: this_index,
                 } = entry.this_clock;
 
-                // optimization to skip actual insertion.
-                let found_entry = if this_index <= cur_last_index {
-                    self.storage.get_entry(this_index).await?
-                } else {
-                    None
-                };
-                if let Some(old_clock) = found_entry.map(|e| e.this_clock) {
-                    if old_clock == entry.this_clock {
-                        // If there is a entry with the same term and index
-                        // then the entry should be the same so to skip insertion.
-                        return Ok(TryInsertResult::SkippedInsertion);
-                    }
-                }
-
                 self.insert_entry(entry).await?;
 
                 self.discard_completions(this_index);
-- 
2.43.0


From 744637006de5860beb85b331456622ffd9e08b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 18/30] fix: a new leader does not serve reads before it knows
 the commit index

---
 sorock/src/process/raft_process/responder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index 8d67c9e..f5beee2 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -58,6 +58,10 @@ impl RaftProcess {
             self.voter.read_election_state(),
             voter::ElectionState::Leader
         ) {
+            // Until an entry in its term is committed, the leader doesn't know
+            // all the entries that are committed in the previous terms.
+            self.voter.allow_queue_new_entry().await?;
+
             let (user_completion, rx) = completion::prepare_user_completion();
 
             let read_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
-- 
2.43.0


From 0cc78c5b68f0fb5e316099a952f5aa64abfc4eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 19/30] fix: a configuration change is not forwarded to the
 node itself forever

---
 sorock/src/process/raft_process/responder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index f5beee2..07ff913 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -38,6 +38,9 @@ impl RaftProcess {
 
             rx.await?;
         } else {
+            // This check is to avoid looping.
+            ensure!(self.driver.self_node_id() != leader_id);
+
             let conn = self.driver.connect(leader_id);
             conn.process_kern_request(req).await?;
         }
-- 
2.43.0


From 292041c30505bddfece52144c40bc3a2c1c3eddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 20/30] fix: a heartbeat failing in a shard does not cancel the
 others

---
 sorock/src/raft_service/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sorock/src/raft_service/mod.rs b/sorock/src/raft_service/mod.rs
index 268d5e4..e52365c 100644
--- a/sorock/src/raft_service/mod.rs
+++ b/sorock/src/raft_service/mod.rs
@@ -209,7 +209,11 @@ impl raft::raft_server::Raft for RaftService {
                 futs.push(async move { process.receive_heartbeat(leader_id, req).await });
             }
         }
-        futures::future::try_join_all(futs).await.unwrap();
+        // A failure in a shard shouldn't affect the other shards.
+        let results = futures::future::join_all(futs).await;
+        for result in results {
+            result.unwrap();
+        }
         Ok(tonic::Response::new(()))
     }
 
-- 
2.43.0


From 88a42fa19891e349a6dd9f655f7e910c3d35e403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 21/30] fix: a detached process stops replication and heartbeat
 to its peers

---
 sorock/src/process/peer_svc/mod.rs     | 6 ++++++
 sorock/src/process/raft_process/mod.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index 83d0dec..6e3d12e 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -136,6 +136,12 @@ impl PeerSvc {
         self.peer_contexts.write().remove(&id);
     }
 
+    /// Stop the threads for all peers.
+    /// They hold the reference to this so they don't stop until they are removed.
+    pub fn stop_peer_threads(&self) {
+        self.peer_threads.lock().clear();
+    }
+
     pub async fn set_membership(
         &self,
         config: HashSet<NodeId>,
diff --git a/sorock/src/process/raft_process/mod.rs b/sorock/src/process/raft_process/mod.rs
index ecd8e16..5d65c94 100644
--- a/sorock/src/process/raft_process/mod.rs
+++ b/sorock/src/process/raft_process/mod.rs
@@ -114,3 +114,9 @@ impl RaftProcess {
         })
     }
 }
+
+impl Drop for RaftProcess {
+    fn drop(&mut self) {
+        self.peers.stop_peer_threads();
+    }
+}
-- 
2.43.0


From 2cc088ae30185fe9b61aa9edebd30638b3ab736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 22/30] fix: a follower that reached a newer term alone is
 readmitted

---
 sorock/proto/sorock.proto                    |   1 +
 sorock/src/communicator/mod.rs               |   1 +
 sorock/src/generated/sorock.rs               |   2 ++
 sorock/src/generated/sorock_descriptor.bin   | Bin 8760 -> 8835 bytes
 sorock/src/process/api.rs                    |   3 +++
 sorock/src/process/peer_svc/replication.rs   |   6 +++++
 sorock/src/process/raft_process/queue.rs     |   4 ---
 sorock/src/process/raft_process/responder.rs |  11 +++++++-
 sorock/src/process/voter/heartbeat.rs        |  27 ++++++++++++++++---
 sorock/src/raft_service/mod.rs               |   1 +
 10 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/sorock/proto/sorock.proto b/sorock/proto/sorock.proto
index 9be3e83..d772162 100644
--- a/sorock/proto/sorock.proto
+++ b/sorock/proto/sorock.proto
@@ -57,6 +57,7 @@ message ReplicationStreamChunk {
 message ReplicationStreamResponse {
   uint64 n_inserted = 1;
   uint64 log_last_index = 2;
+  uint64 term = 3;
 }
 
 message GetSnapshotRequest {
diff --git a/sorock/src/communicator/mod.rs b/sorock/src/communicator/mod.rs
index cce561c..c6809ad 100644
--- a/sorock/src/communicator/mod.rs
+++ b/sorock/src/communicator/mod.rs
@@ -132,6 +132,7 @@ impl Communicator {
             .await?
             .into_inner();
         Ok(response::ReplicationStream {
+            term: resp.term,
             n_inserted: resp.n_inserted,
             log_last_index: resp.log_last_index,
         })
diff --git a/sorock/src/generated/sorock.rs b/sorock/src/generated/sorock.rs
index 0660313..9870394 100644
--- a/sorock/src/generated/sorock.rs
+++ b/sorock/src/generated/sorock.rs
@@ -81,6 +81,8 @@ pub struct ReplicationStreamResponse {
     pub n_inserted: u64,
     #[prost(uint64, tag = "2")]
     pub log_last_index: u64,
+    #[prost(uint64, tag = "3")]
+    pub term: u64,
 }
 #[derive(Clone, Copy, PartialEq, ::prost::Message)]
 pub struct GetSnapshotRequest {
diff --git a/sorock/src/generated/sorock_descriptor.bin b/sorock/src/generated/sorock_descriptor.bin
index b00a6e2f67bd0b5547da3bcfc2d47a54c9d06d4e..7b620284ce06b1c3806e6e459c5784745d0e2765 100644
GIT binary patch
delta 1996
zcmX|?+fG|Y6o&VnJs$6q4|{A*PD4Ox)gW3aN}Hx9fhi^!W2z7Z5~u`j6w{ly!Ny=i
zD(#CtLFG5-6I9}+msOvmeU+;Jn!Uz%{<YTk?|;@D{Ac6Wtv|fL{qI%=vF8paN!+Pw
z9m-*M(3|&`+z0Zx`F-1u=Tz|Ty-;cCIPY(N)4wbC+sWq(zobzpr7wi`z7aZ%!yJhm
zDc>p=DkxaxL6ws*422A|Tyr*D{Ptvkt~I|Fl3gGi?X8PhgFwJ;o$a8|xE>_7mcnnn
zI>Q`lby4A(3$8xpT&e{{TLV^4w22XFx#?_WF+y~0`k7rwF&ZNK6a?%VB5w?!(Ae<f
zFr_6!!mm*(8^1`)ZRh*UFGAb4Uor6_@@w+4AmG>Jcu;6;^0J^{*W^`20;L@>XFd!8
zY-ftODHVfk@+gAanVIF!VN+V7#vE-*Ys!&lE10o0V6FKD#vpdZ2VC+LschAe@PO_5
zHj0PNbhmbgIjOz&bafJ+YYW9L5?ni<O)?S^Tzk4YH13HiH|C78SPs};zGQ2__H@O}
zIM(u+^Bglyadu*~J@cz3ModHA7xRXJfZsmHfI{PbK06;!@Y|oAGkygvUpOzbJu9H=
zg`Z8MKz0XW!Pr5-?tq5~g~s$C$g)Gi?_h4;#3;~!55+Qbv}uP^j*jACkWCnkzz**%
znHWVaUpYTyF^cGV<tN6jNHLE13_!r{D6>13kmx+(GXMp@BR&H~ig7HyHZdTuna5(u
zDyl6%whGwsmtTcVT+EV|C(e(P_T6TB;%5sgQG!$6UI-*O<pn{(>68yI6r4_ZdrK6c
z!@(hdb*322p~JaR1J*(AJp?Fg`NsLlt!+#yi>>sHpB=F>W$1DS2$*%*3<_pl&Hx3o
zE@voHhBM9p0qkswQHC?lfEutfWcb@fh(yb`&d+Xb^3UR5>04i$ok%D{k265PtjA_h
zFzay!D46w-0Z*NBv^;m-n~hb}b&jV4Pn~ket}i~NO(20%Uqx2o0{3Hclv66guYZ4)
zIdl%hDtFQ<1}d})+#oW~Coo#mV0ncxlrF?JH_~7(l=%P}=@GxEePnCEE*@?%M$ha}
zJmDHW14Cu5GdK_2u(D`t)VcDQIlKv%Vv|es3S264oq<VUmx;L{q<~$1vcVXpdL?!k
zqgNokQs#|AXAay|^<!HEclBtSIh^m2=x|Aa8>u^1!E<!?zEv<8eQ53lEEP;fTPJLi
z*WOq><;FZr#wtmz1UIhO8RhZ4@xw1{4KCv+4R-OhcP;8%^5Jr=%)^7v`7pVju><pg
sU9YS$7HIEAe8(95Dc&f0UzX`~1mJFF&GjV(?q;?ATAdHx4c~qCKL`7kF#rGn

delta 1920
zcmX|?%TF6u6vk)HTwl)%8(;Hu9t6=SLZniZDoq~>5DeG`qEH1Ah!lew$R<=6Fg8S$
zW>NJo@FM$2?Ya`1F01}!`Ocklz5H~}@4Mf9%$Yyd{$2eii2R!y6{UfHIH;tDH-Dy+
zI{JGi)<${Wr<=db7w!K%Xiop0#WAVKsAt}?AIEW^BHskh!djffN=4+EV38)`G%m0x
zunL_*<6=~CDu5ar7YwB(s!GWRwlu_iu0<tR%fKyF43;Jp8@1xC<}qTlt%SK>%rWYe
zF9iX=Iu)%06dLPc>J;qi<xy*w7`5)b$n6qzt%p?`FJZfe>?(tTUqkXip|c^|f`VT|
zwv`Y{O`5bzK>%wGG2T`)GOh-!IX)rFkqKH<lM(@I4Kd2VwW4uX1lO9H77k*AZc8c9
ztnyta6ad=@U6g=3YqtbbCfJnSC8V(2CTTHIz&4BdL81mM+Z^r=om(^}odv5LR{*zF
zEV~-GEmO6JoEr7g`z1f*6kRXFF&iW0L*Aw-i$K6`TVg<=al2^WN2Va*w>>dw{YH#>
z<-N}RM$q;u%ui#4{dQ>D`a!^NM@|t6jXO~u9SU|klT$Xv2;bQ*%?ieMwmZc5&a&Mo
zKVfu&+nu>*W0Z_~<Gsyel+gAjtXRJi$JmoM00F-}@q<F+p1c7l*zL(1C~=H^`pL$C
zz+LXsJyvrHl8duXToK&<4?o6Dd=X`%-g$?E&v%;HyD;BTnG>|-ej$*cEeW9D)RxB!
z1*f)LZ<!MuNN@;X2Sbbl97u4~fE^(C3j`Q7>b>{DuRR~M?`~x8!~Bhna)u+x00FZj
zF@u8Hkz{~^*^y)z<qXG?0Rq_Z5aSHTk^wbf$H?%%j}R53K6=0TwZVg#|FVyvu{TlS
z3@4HS0%j*-1_iSd$p8hj6J)@Q(VkJK-Y0vpn!8RhIxy<A$95h1mM?(?N*$dzg)g|1
z+P9o>5q_Py1>w+nMhnu(yExOaQ{c`LJ3fK&p3Y|H1w-ka8q&xIbFS?IXe6%H?z<YW
z^G9of@w~jCr&8lFaG~w@3@!k7QN8PG+&TY5I1Gg@)uqH^psVfY3`_y*R_rIj3Rw5y
zbHQ+`m(&uBr$Bb8?T|xf0o>)-16Krh`M4n*9(a!qrKG|2^ew00*}F666ij;G*bf7i
z8YaE9wwM%6(5H22EW)I(E18qv`c-#EMXc9<^u4RWrT=tQTtX9E(Xy06xLj#Fd9Yjv
yldExeU?H%p`9;AZ6I|1ZVEj|O);wTl`E^9#t|#pG%L?4}!t$@WbAH-A{q8GUe2xeJ

diff --git a/sorock/src/process/api.rs b/sorock/src/process/api.rs
index a7e7a40..044c10a 100644
--- a/sorock/src/process/api.rs
+++ b/sorock/src/process/api.rs
@@ -62,6 +62,9 @@ pub mod request {
 pub mod response {
     use super::*;
     pub struct ReplicationStream {
+        /// The term of the receiver. If it is newer than the term of the sender
+        /// then the sender isn't the leader any more.
+        pub term: Term,
         pub n_inserted: u64,
         pub log_last_index: Index,
     }
diff --git a/sorock/src/process/peer_svc/replication.rs b/sorock/src/process/peer_svc/replication.rs
index fb2ba84..fd7c7bb 100644
--- a/sorock/src/process/peer_svc/replication.rs
+++ b/sorock/src/process/peer_svc/replication.rs
@@ -94,10 +94,16 @@ impl PeerSvc {
         // we shouldn't repeat request otherwise the situation would be worse.
         let resp = conn.send_replication_stream(out_stream).await?;
 
+        if resp.term > leader_term {
+            voter.receive_follower_term(resp.term).await?;
+            bail!(Error::LeaderUnknown);
+        }
+
         let new_progress = match resp {
             response::ReplicationStream {
                 n_inserted: 0,
                 log_last_index: last_log_index,
+                ..
             } => ReplicationProgress {
                 epoch: old_progress.epoch,
                 match_index: old_progress.match_index,
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 1e00056..4856c19 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -63,10 +63,6 @@ impl RaftProcess {
         mut req: request::ReplicationStream,
     ) -> Result<u64> {
         let leader_term = req.leader_term;
-        self.voter
-            .receive_leader_term(req.sender_id.clone(), leader_term)
-            .await?;
-
         let mut prev_clock = req.prev_clock;
         let mut n_inserted = 0;
         while let Some(Some(cur)) = req.entries.next().await {
diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index 07ff913..38a5260 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -5,8 +5,17 @@ impl RaftProcess {
         &self,
         req: request::ReplicationStream,
     ) -> Result<response::ReplicationStream> {
-        let n_inserted = self.queue_received_entries(req).await?;
+        let term = self
+            .voter
+            .receive_leader_term(req.sender_id.clone(), req.leader_term)
+            .await?;
+        let n_inserted = if term == req.leader_term {
+            self.queue_received_entries(req).await?
+        } else {
+            0
+        };
         let resp = response::ReplicationStream {
+            term,
             n_inserted,
             log_last_index: self.command_log.get_log_last_index().await?,
         };
diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index 3a156b0..6fab926 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -61,12 +61,33 @@ impl Voter {
     }
 
     /// Receive the term of the leader that is replicating its log.
-    pub async fn receive_leader_term(&self, leader_id: NodeId, leader_term: Term) -> Result<()> {
+    /// Returns the current term of this node.
+    pub async fn receive_leader_term(&self, leader_id: NodeId, leader_term: Term) -> Result<Term> {
         let _lk = self.vote_lock.lock().await;
 
         let ballot = self.read_ballot().await?;
-        ensure!(leader_term >= ballot.cur_term);
-        self.learn_leader(ballot, leader_id, leader_term).await
+        if leader_term < ballot.cur_term {
+            warn!("replication stream is stale. rejected");
+            return Ok(ballot.cur_term);
+        }
+        self.learn_leader(ballot, leader_id, leader_term).await?;
+        Ok(leader_term)
+    }
+
+    /// Receive the term of the follower which rejected the log of this node.
+    /// The follower in the newer term can't be readmitted until there is a leader in the term.
+    pub async fn receive_follower_term(&self, follower_term: Term) -> Result<()> {
+        let _lk = self.vote_lock.lock().await;
+
+        let mut ballot = self.read_ballot().await?;
+        if follower_term > ballot.cur_term {
+            warn!("found a follower with newer term. reset ballot");
+            ballot.cur_term = follower_term;
+            ballot.voted_for = None;
+            self.write_election_state(ElectionState::Follower);
+            self.write_ballot(ballot).await?;
+        }
+        Ok(())
     }
 
     /// Prevent the ballot from changing while the log is updated by the leader of the term.
diff --git a/sorock/src/raft_service/mod.rs b/sorock/src/raft_service/mod.rs
index e52365c..a3d2fef 100644
--- a/sorock/src/raft_service/mod.rs
+++ b/sorock/src/raft_service/mod.rs
@@ -170,6 +170,7 @@ impl raft::raft_server::Raft for RaftService {
         Ok(tonic::Response::new(raft::ReplicationStreamResponse {
             n_inserted: resp.n_inserted,
             log_last_index: resp.log_last_index,
+            term: resp.term,
         }))
     }
 
-- 
2.43.0


From ae864558c78169fada98b88c6829ac450fd9c2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 23/30] fix: the reaper thread of redb backend terminates with
 the backend

---
 sorock/src/backends/redb/log.rs | 5 +++++
 sorock/src/backends/redb/mod.rs | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/sorock/src/backends/redb/log.rs b/sorock/src/backends/redb/log.rs
index e8b197e..a352f9d 100644
--- a/sorock/src/backends/redb/log.rs
+++ b/sorock/src/backends/redb/log.rs
@@ -66,6 +66,11 @@ impl Reaper {
         (this, tx)
     }
 
+    /// Returns true if no more entries will be received.
+    pub fn is_disconnected(&self) -> bool {
+        self.rx.is_disconnected()
+    }
+
     pub fn reap(&self) -> Result<()> {
         // Blocked until the first element is received.
         let head = self.rx.recv()?;
diff --git a/sorock/src/backends/redb/mod.rs b/sorock/src/backends/redb/mod.rs
index 701a072..cff9bdc 100644
--- a/sorock/src/backends/redb/mod.rs
+++ b/sorock/src/backends/redb/mod.rs
@@ -19,7 +19,9 @@ impl Backend {
 
         let (reaper, tx) = log::Reaper::new(db.clone());
         std::thread::spawn(move || loop {
-            reaper.reap().ok();
+            if reaper.reap().is_err() && reaper.is_disconnected() {
+                break;
+            }
         });
 
         Self { db, tx }
-- 
2.43.0


From e9364303f995ca16ac2e0819dc3b1c3e53240816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 24/30] fix: a removed leader does not count itself in
 majorities

---
 sorock/src/process/peer_svc/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index 6e3d12e..de2060a 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -198,9 +198,19 @@ impl PeerSvc {
         let mut match_indices = vec![];
 
         let last_log_index = self.command_log.get_log_last_index().await?;
-        match_indices.push(last_log_index);
-
         let peer_contexts = self.peer_contexts.read();
+
+        // $4.2.2
+        // A leader that is removed from the cluster manages the rest of the cluster
+        // but it does not count itself in majorities.
+        let is_member = self
+            .membership
+            .read()
+            .contains(&self.driver.self_node_id());
+        if is_member || peer_contexts.is_empty() {
+            match_indices.push(last_log_index);
+        }
+
         for (_, peer) in peer_contexts.iter() {
             match_indices.push(peer.progress.match_index);
         }
-- 
2.43.0


From 960310dc558f48d5d22919d929912bfb7c9df878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:06 +0000
Subject: [PATCH 25/30] fix: a leader steps down when it finds a candidate in
 newer term

---
 sorock/src/process/voter/election.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 8e9cc98..45a0b45 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -20,11 +20,25 @@ impl Voter {
         let is_leader = std::matches!(self.read_election_state(), ElectionState::Leader);
         let leader_failed = !is_leader && self.get_election_timeout().is_some();
         let should_vote = force_vote || leader_failed;
+        let mut ballot = self.read_ballot().await?;
+
         if !should_vote {
+            let candidate_cur_term = if pre_vote {
+                candidate_term.saturating_sub(1)
+            } else {
+                candidate_term
+            };
+            // The candidate that is already in the newer term rejects this leader forever.
+            if is_leader && candidate_cur_term > ballot.cur_term {
+                warn!("found a candidate with newer term. step down");
+                ballot.cur_term = candidate_cur_term;
+                ballot.voted_for = None;
+                self.write_election_state(ElectionState::Follower);
+                self.write_ballot(ballot).await?;
+            }
             return Ok(false);
         }
 
-        let mut ballot = self.read_ballot().await?;
         if candidate_term < ballot.cur_term {
             warn!("candidate term is older. reject vote");
             return Ok(false);
-- 
2.43.0


From 954a381fd0ba6ddaa8e4fcb3752f48e62d166ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:44 +0000
Subject: [PATCH 26/30] fix: the last member can not be removed

---
 sorock/src/process/raft_process/queue.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 4856c19..5048dde 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -42,6 +42,8 @@ impl RaftProcess {
                 membership.remove(&id);
             }
         }
+        // No majority can be formed without members.
+        ensure!(!membership.is_empty());
         let command = Command::serialize(Command::ClusterConfiguration { membership });
 
         let append_index = self
-- 
2.43.0


From 633c3aa1e06b81519940750963f76e0666d66c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:11 +0000
Subject: [PATCH 27/30] fix: a new member that does not know its membership yet
 votes

---
 sorock/src/process/voter/election.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 45a0b45..b29fb05 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -18,7 +18,9 @@ impl Voter {
         // or it believes the leader has failed, it should vote.
         // The leader doesn't receive heartbeat from itself but it knows it is alive.
         let is_leader = std::matches!(self.read_election_state(), ElectionState::Leader);
-        let leader_failed = !is_leader && self.get_election_timeout().is_some();
+        // The vote of a new member counts even if it doesn't know that it is a member.
+        let leader_failed =
+            !is_leader && self.leader_failure_detector.get_election_timeout().is_some();
         let should_vote = force_vote || leader_failed;
         let mut ballot = self.read_ballot().await?;
 
-- 
2.43.0


From 12731ad3820f435cb4948721f3de2a68b36dd5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:43 +0000
Subject: [PATCH 28/30] fix: pre-vote tells the term of the candidate

---
 sorock/src/process/voter/election.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index b29fb05..6145234 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -24,12 +24,13 @@ impl Voter {
         let should_vote = force_vote || leader_failed;
         let mut ballot = self.read_ballot().await?;
 
+        let candidate_cur_term = if pre_vote {
+            candidate_term.saturating_sub(1)
+        } else {
+            candidate_term
+        };
+
         if !should_vote {
-            let candidate_cur_term = if pre_vote {
-                candidate_term.saturating_sub(1)
-            } else {
-                candidate_term
-            };
             // The candidate that is already in the newer term rejects this leader forever.
             if is_leader && candidate_cur_term > ballot.cur_term {
                 warn!("found a candidate with newer term. step down");
@@ -41,6 +42,16 @@ impl Voter {
             return Ok(false);
         }
 
+        // Otherwise this node may ask for pre-votes in the term
+        // that the candidate has voted in forever.
+        if pre_vote && candidate_cur_term > ballot.cur_term {
+            warn!("found a candidate with newer term in pre-vote");
+            ballot.cur_term = candidate_cur_term;
+            ballot.voted_for = None;
+            self.write_election_state(ElectionState::Follower);
+            self.write_ballot(ballot.clone()).await?;
+        }
+
         if candidate_term < ballot.cur_term {
             warn!("candidate term is older. reject vote");
             return Ok(false);
-- 
2.43.0


From e469b9e0af021f53622dca8817ebf420d5ba43de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 29/30] fix: let a node start elections until its removal is
 committed

A node that appended its own removal stopped starting elections even though the
entry was not committed. When the remaining members have shorter logs they can't
be elected without its vote and it can't be elected either: no leader forever.
---
 sorock/src/process/voter/election.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 6145234..a28d12e 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -117,16 +117,27 @@ impl Voter {
 
     pub fn get_election_timeout(&self) -> Option<Duration> {
         // This is an optimization to avoid unnecessary election.
-        // If the node doesn't contain itself in its membership,
+        // If this node is removed from the cluster,
         // it can't become a new leader anyway.
-        if !self
+        if !self.is_electable() {
+            return None;
+        }
+        self.leader_failure_detector.get_election_timeout()
+    }
+
+    /// $4.2.2
+    /// A node that isn't in its latest membership should start an election until the removal
+    /// is committed because the remaining members may depend on it to have a leader.
+    fn is_electable(&self) -> bool {
+        if self
             .peers
             .read_membership()
             .contains(&self.driver.self_node_id())
         {
-            return None;
+            return true;
         }
-        self.leader_failure_detector.get_election_timeout()
+        let membership_index = self.command_log.membership_pointer.load(Ordering::SeqCst);
+        self.command_log.commit_pointer.load(Ordering::SeqCst) < membership_index
     }
 
     /// Try to become a leader.
@@ -206,7 +217,7 @@ impl Voter {
     ) -> Result<bool> {
         let (others, remaining) = {
             let membership = self.peers.read_membership();
-            ensure!(membership.contains(&self.driver.self_node_id()));
+            ensure!(self.is_electable());
 
             let n = membership.len();
             let mut others = vec![];
@@ -217,7 +228,9 @@ impl Voter {
             }
 
             let majority = n / 2 + 1;
-            (others, majority - 1)
+            // The vote of this node counts only if it is a member.
+            let self_vote = n - others.len();
+            (others, majority - self_vote)
         };
 
         let log_last_clock = {
-- 
2.43.0


From 7e7cd94a7f22a09f429a6023011abe8da8f6e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 30/30] fix: don't commit entries counted in a newer term of
 the same leader

---
 sorock/src/process/thread/advance_commit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sorock/src/process/thread/advance_commit.rs b/sorock/src/process/thread/advance_commit.rs
index ec35d65..6250beb 100644
--- a/sorock/src/process/thread/advance_commit.rs
+++ b/sorock/src/process/thread/advance_commit.rs
@@ -23,6 +23,10 @@ impl Thread {
             let entry = self.command_log.get_entry(new_commit_index).await?;
             ensure!(Some(entry.this_clock.term) == leader_term);
 
+            // If this node is elected again in the meantime
+            // then the replicas were counted in the newer term.
+            ensure!(self.voter.read_leader_term().await? == leader_term);
+
             self.command_log
                 .commit_pointer
                 .fetch_max(new_commit_index, Ordering::SeqCst);
-- 
2.43.0

