From 111dcc58c4e5aff767f78cf23f27e8961059193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 01/14] fix: RawNode::Bootstrap must refuse a non-empty Storage

The last index was read but never checked, so bootstrapping a node that
already had a log overwrote its term and its log.
---
 src/rawnode.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rawnode.cc b/src/rawnode.cc
index fb8941a..00035b9 100644
--- a/src/rawnode.cc
+++ b/src/rawnode.cc
@@ -60,6 +60,9 @@ Status RawNode::Bootstrap(std::vector<Peer> peers) {
   if (!s.IsOK()) {
     return s;
   }
+  if (last_index != 0) {
+    return Status::Error("can't bootstrap a nonempty Storage");
+  }
 
 	// We've faked out initial entries above, but nothing has been
 	// persisted. Start with an empty HardState (thus the first Ready will
-- 
2.43.0


From 8e2c77616ede2c4bd4edbf73888476809f6363d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 02/14] fix: MemoryStorage::Entries iterator leaves the deque

ents_.begin() + lo advances by an absolute log index before the offset is
taken off; for a compacted log that walks out of the deque's block map and
crashes.
---
 src/storage.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage.cc b/src/storage.cc
index 0e97e42..d5f2e73 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -75,7 +75,7 @@ MemoryStorage::Entries(uint64_t lo, uint64_t hi, uint64_t max_size) {
 
   // copy entries[lo, hi)
   EntryPtrs ents;
-  ents.assign(ents_.begin() + lo - offset, ents_.begin() + hi - offset);
+  ents.assign(ents_.begin() + (lo - offset), ents_.begin() + (hi - offset));
   return std::make_tuple(Util::LimitSize(std::move(ents), max_size), Status::OK());
 }
 
-- 
2.43.0


From 111a07b015a2d35b4fed450adbcb2fde9817a6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 03/14] fix: MemoryStorage::CreateSnapshot modifies a snapshot
 already handed out

SnapShot() returns the stored shared_ptr, so changing it in place rewrites
the snapshot under every holder (and races with readers).
---
 src/storage.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/storage.cc b/src/storage.cc
index d5f2e73..29db81e 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -150,13 +150,17 @@ std::tuple<SnapshotPtr, Status> MemoryStorage::CreateSnapshot(
               LastIndexUnSafe());
   }
 
-  snapshot_->mutable_metadata()->set_index(i);
-  snapshot_->mutable_metadata()->set_term(ents_[i - offset]->term());
+  // The current snapshot may be shared with callers of SnapShot(), so build a
+  // new one instead of modifying it.
+  auto snapshot = std::make_shared<raftpb::Snapshot>(*snapshot_);
+  snapshot->mutable_metadata()->set_index(i);
+  snapshot->mutable_metadata()->set_term(ents_[i - offset]->term());
   if (cs != nullptr) {
-    *(snapshot_->mutable_metadata()->mutable_conf_state()) = *cs;
+    *(snapshot->mutable_metadata()->mutable_conf_state()) = *cs;
   }
 
-  *(snapshot_->mutable_data()) = data;
+  *(snapshot->mutable_data()) = data;
+  snapshot_ = snapshot;
   return std::make_tuple(snapshot_, Status::OK());
 }
 
-- 
2.43.0


From e1fa7acd106f90c3a267827b38ceb55721699884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 04/14] fix: MemoryStorage::CreateSnapshot below the compacted
 index reads out of bounds

i - offset wrapped around when the entry at i had been compacted away.
---
 src/storage.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storage.cc b/src/storage.cc
index 29db81e..192334b 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -144,6 +144,9 @@ std::tuple<SnapshotPtr, Status> MemoryStorage::CreateSnapshot(
 
   assert(!ents_.empty());
   uint64_t offset = ents_[0]->index();
+  if (i < offset) {
+    return std::make_tuple(SnapshotPtr(), Status::Error(kErrCompacted));
+  }
   if (i > LastIndexUnSafe()) {
     // panic
     CRAFT_LOG_FATAL(logger_, "snapshot %d is out of bound lastindex(%d)", i,
-- 
2.43.0


From d632580300fe434fab2f602036bcbb064909f01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 05/14] fix: MemoryStorage::InitialState reads shared state
 without the lock

---
 src/storage.cc | 1 +
 src/storage.h  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage.cc b/src/storage.cc
index 192334b..431c9a9 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -39,6 +39,7 @@ MemoryStorage::MemoryStorage(std::shared_ptr<Logger> logger)
 
 std::tuple<raftpb::HardState, raftpb::ConfState, Status>
 MemoryStorage::InitialState() const {
+  std::shared_lock<std::shared_mutex> guard(mutex_);
   return std::make_tuple(hard_state_, snapshot_->metadata().conf_state(), Status::OK());
 }
 
diff --git a/src/storage.h b/src/storage.h
index a60705d..ab5ece9 100644
--- a/src/storage.h
+++ b/src/storage.h
@@ -156,7 +156,7 @@ class MemoryStorage : public Storage {
   // Protects access to all fields. Most methods of MemoryStorage are
   // run on the raft thread, but Append() is run on an application
   // thread.
-  std::shared_mutex mutex_;
+  mutable std::shared_mutex mutex_;
   raftpb::HardState hard_state_;
   SnapshotPtr snapshot_;
   // ents[i] has raft log position i+snapshot.Metadata.Index
-- 
2.43.0


From 4e9a7b28970cbc3a111d02062a533119e99a9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 06/14] fix: Inflights truncates 64-bit positions to 32 bits

With a window larger than INT32_MAX (Config::max_inflight_msgs is an
int64_t) Add computed a wrong slot and wrote outside the buffer.
---
 src/tracker/inflights.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tracker/inflights.cc b/src/tracker/inflights.cc
index 47145b5..fedd2f3 100644
--- a/src/tracker/inflights.cc
+++ b/src/tracker/inflights.cc
@@ -21,12 +21,12 @@ void Inflights::Add(uint64_t inflight) {
   if (Full()) {
     CRAFT_LOG_FATAL(logger_, "cannot add into a Full inflights");
   }
-  int32_t next = start_ + count_;
-  int32_t size = size_;
+  int64_t next = start_ + count_;
+  int64_t size = size_;
   if (next >= size) {
     next -= size;
   }
-  if (next >= static_cast<int32_t>(buffer_.size())) {
+  if (next >= static_cast<int64_t>(buffer_.size())) {
     Grow();
   }
   buffer_[next] = inflight;
@@ -39,8 +39,8 @@ void Inflights::FreeLE(uint64_t to) {
     return;
   }
 
-  int32_t idx = start_;
-  int32_t i;
+  int64_t idx = start_;
+  int64_t i;
   for (i = 0; i < count_; i++) {
     if (to < buffer_[idx]) {  // found the first large inflight
       break;
@@ -66,7 +66,7 @@ void Inflights::FreeLE(uint64_t to) {
 void Inflights::FreeFirstOne() { FreeLE(buffer_[start_]); }
 
 void Inflights::Grow() {
-  int32_t new_size = buffer_.size() * 2;
+  int64_t new_size = buffer_.size() * 2;
   if (new_size == 0) {
     new_size = 1;
   } else if (new_size > size_) {
-- 
2.43.0


From 22d8fa0bfc10e84e0ff340b2a1072e530b261fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 07/14] fix: Inflights::FreeFirstOne reads an empty buffer

It is documented as a no-op if nothing is inflight.
---
 src/tracker/inflights.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tracker/inflights.cc b/src/tracker/inflights.cc
index fedd2f3..ed7e69d 100644
--- a/src/tracker/inflights.cc
+++ b/src/tracker/inflights.cc
@@ -63,7 +63,12 @@ void Inflights::FreeLE(uint64_t to) {
   }
 }
 
-void Inflights::FreeFirstOne() { FreeLE(buffer_[start_]); }
+void Inflights::FreeFirstOne() {
+  if (count_ == 0) {
+    return;
+  }
+  FreeLE(buffer_[start_]);
+}
 
 void Inflights::Grow() {
   int64_t new_size = buffer_.size() * 2;
-- 
2.43.0


From d71c7ce953278130edceb7f3d4168a1128b5580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 08/14] fix: JointConfig::At compares the position with a size
 in bytes

---
 src/quorum/joint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quorum/joint.h b/src/quorum/joint.h
index ce559e5..f39932c 100644
--- a/src/quorum/joint.h
+++ b/src/quorum/joint.h
@@ -34,7 +34,7 @@ class JointConfig {
       : configs_{std::move(c1), std::move(c2)} {}
 
   MajorityConfig& At(size_t i) {
-    if (i < 0 || i >= sizeof(configs_)) {
+    if (i >= sizeof(configs_) / sizeof(configs_[0])) {
       return configs_[0];
     }
     return configs_[i];
-- 
2.43.0


From 9ede44fdafbe55f6af9df99485aeda1e1a8d8a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 09/14] fix: Ready::String dereferences a null snapshot

The null check was inverted.
---
 src/raft.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft.cc b/src/raft.cc
index 03cae5f..ed95468 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -123,7 +123,7 @@ std::string Ready::String() const {
     ss << "]" << std::endl;
   };
 
-  if (!snapshot) {
+  if (snapshot) {
     ss << "snapshot index=" << snapshot->metadata().index() << " term=" << snapshot->metadata().term() << std::endl;
     print_vec(snapshot->metadata().conf_state().voters(), "voters");
     print_vec(snapshot->metadata().conf_state().learners(), "learners");
-- 
2.43.0


From fce5323ba967dd7a415f5cca8910f4695a7b35dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 10/14] fix: Ready::AppliedCursor dereferences a null snapshot

---
 src/raft.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/raft.cc b/src/raft.cc
index ed95468..e6daeb6 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -79,9 +79,8 @@ uint64_t Ready::AppliedCursor() const {
   if (n > 0) {
     return committed_entries[n - 1]->index();
   }
-  auto index = snapshot->metadata().index();
-  if (index > 0) {
-    return index;
+  if (!IsEmptySnap(snapshot)) {
+    return snapshot->metadata().index();
   }
   return 0;
 }
-- 
2.43.0


From 6f2b8b21c7f42dab5655e4f5ed6b785a6d3fa38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 11/14] fix: ConfChangesFromString accepts malformed node ids

std::strtoull never throws, so "vfoo" parsed as node 0 instead of
returning an error.
---
 src/raftpb/confchange.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/raftpb/confchange.cc b/src/raftpb/confchange.cc
index 9882217..002661b 100644
--- a/src/raftpb/confchange.cc
+++ b/src/raftpb/confchange.cc
@@ -13,6 +13,8 @@
 // limitations under the License.
 #include "src/raftpb/confchange.h"
 
+#include <cerrno>
+#include <cstdlib>
 #include <sstream>
 
 #include "src/logger.h"
@@ -113,11 +115,11 @@ std::tuple<std::vector<raftpb::ConfChangeSingle>, Status> ConfChangesFromString(
     } else {
       return std::make_tuple(std::vector<raftpb::ConfChangeSingle>(), Status::Error("unknow input: %s", token.c_str()));
     }
-    uint64_t id;
-    try {
-      id = std::strtoull(token.data()+1, nullptr, 10);
-    } catch (const std::exception& e) {
-      return std::make_tuple(std::vector<raftpb::ConfChangeSingle>(), Status::Error("unknow token %s", e.what()));
+    errno = 0;
+    char* end = nullptr;
+    uint64_t id = std::strtoull(token.c_str() + 1, &end, 10);
+    if (token[1] < '0' || token[1] > '9' || *end != '\0' || errno == ERANGE) {
+      return std::make_tuple(std::vector<raftpb::ConfChangeSingle>(), Status::Error("unknow token %s", token.c_str()));
     }
     cc.set_node_id(id);
     ccs.emplace_back(cc);
-- 
2.43.0


From 4a9330cffcfd13d9440087dcb8bac84b2ad6761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 12/14] fix: ConfChangeI::AsV2 dereferences an empty optional
 for a null change

---
 src/raftpb/confchange.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raftpb/confchange.cc b/src/raftpb/confchange.cc
index 002661b..6b1a700 100644
--- a/src/raftpb/confchange.cc
+++ b/src/raftpb/confchange.cc
@@ -25,6 +25,10 @@ namespace craft {
 raftpb::ConfChangeV2 ConfChangeI::AsV2() const {
   if (!cc_v2_) {
     raftpb::ConfChangeV2 cc_v2;
+    if (!cc_) {
+      // null: the zero change.
+      return cc_v2;
+    }
     auto change_single = cc_v2.add_changes();
     change_single->set_type(cc_->type());
     change_single->set_node_id(cc_->node_id());
-- 
2.43.0


From b64856ef4655ce99028db5b932dc3870837a4438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 13/14] fix: the lower-term MsgPreVote log line passes one
 argument too many

Every later conversion printed the wrong value.
---
 src/raft.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft.cc b/src/raft.cc
index e6daeb6..e7e4aa6 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -837,7 +837,7 @@ Status Raft::Step(MsgPtr m) {
           "%llu [logterm: %llu, index: %llu, vote: %llu] rejected %s from %llu "
           "[logterm: %llu, index: %llu] at term %llu",
           id_, raft_log_->LastTerm(), raft_log_->LastIndex(), vote_,
-          raftpb::MessageType_Name(m->type()).c_str(), m->type(), m->from(),
+          raftpb::MessageType_Name(m->type()).c_str(), m->from(),
           m->logterm(), m->index(), m->term());
       auto msg = std::make_shared<raftpb::Message>();
       msg->set_to(m->from());
-- 
2.43.0


From 248493fb0f74d648e208801c2163a05005f38837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 14/14] fix: randomized election timeout truncates
 election_tick to int

Config::election_tick is an int64_t; a value above INT_MAX gave the
distribution an empty range.
---
 src/raft.cc | 2 +-
 src/util.cc | 4 ++--
 src/util.h  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/raft.cc b/src/raft.cc
index e7e4aa6..535c114 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1783,7 +1783,7 @@ bool Raft::PastElectionTimeout() const {
 }
 
 void Raft::ResetRandomizedElectionTimeout() {
-  auto random = Util::Random(0, static_cast<int>(election_timeout_-1));
+  auto random = Util::Random(0, election_timeout_ - 1);
   randomized_election_timeout_ = election_timeout_ + static_cast<int64_t>(random);
 }
 
diff --git a/src/util.cc b/src/util.cc
index b43e322..cd6534c 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -104,8 +104,8 @@ bool Util::IsResponseMsg(raftpb::MessageType msgt) {
          msgt == raftpb::MessageType::MsgPreVoteResp;
 }
 
-int Util::Random(int lower_bound, int upper_bound) {
-  std::uniform_int_distribution<int> distribution(lower_bound, upper_bound);
+int64_t Util::Random(int64_t lower_bound, int64_t upper_bound) {
+  std::uniform_int_distribution<int64_t> distribution(lower_bound, upper_bound);
   return distribution(gen_);
 }
 
diff --git a/src/util.h b/src/util.h
index 25cb49c..03e05a6 100644
--- a/src/util.h
+++ b/src/util.h
@@ -55,7 +55,7 @@ class Util {
   static bool IsResponseMsg(raftpb::MessageType msgt);
 
   // [lower_bound, upper_bound]
-  static int Random(int lower_bound, int upper_bound);
+  static int64_t Random(int64_t lower_bound, int64_t upper_bound);
 
  private:
   static thread_local std::mt19937 gen_;
-- 
2.43.0

