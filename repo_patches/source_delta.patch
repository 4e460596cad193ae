From ecca9a926e17bd930093c19b29b91f6b134bcb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:21 +0000
Subject: [PATCH 01/24] fix: bounds check in buffer::get(bufptr&)

get(dst) copied dst's remaining size out of the buffer without checking that
that many bytes are left: it read past the end of the block and moved the
position beyond the size (for small blocks into the size/flag bits).
---
 src/buffer.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer.cxx b/src/buffer.cxx
index 50678e6..68de92e 100644
--- a/src/buffer.cxx
+++ b/src/buffer.cxx
@@ -245,6 +245,11 @@ void buffer::put(const std::string& str)
 void buffer::get(bufptr& dst)
 {
     size_t sz = dst->size() - dst->pos();
+    if (size() - pos() < sz)
+    {
+        throw std::overflow_error("insufficient buffer available to fill the other buffer");
+    }
+
     ::memcpy(dst->data(), data(), sz);
     __mv_fw_block(this, sz);
 }
-- 
2.43.0


From 4bbd31d092b74733a9eb746be0e1bb7b40c8fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:16 +0000
Subject: [PATCH 02/24] fix: compare candidates with the true last log term

When the whole log is compacted behind a snapshot last_entry() is a dummy with
term zero, so a candidate with an older log was granted a vote or a pre-vote.
---
 src/raft_server_req_handlers.cxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 41d9891..1e76cfc 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -193,9 +193,10 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
 ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::vote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
-                     log_store_->next_slot() - 1 <= req.get_last_log_idx());
+    ulong last_idx = log_store_->next_slot() - 1;
+    ulong last_term = term_for_log(last_idx);
+    bool log_okay = req.get_last_log_term() > last_term ||
+                    (req.get_last_log_term() == last_term && last_idx <= req.get_last_log_idx());
     bool grant = req.get_term() == state_->get_term() && log_okay &&
                  (state_->get_voted_for() == req.get_src() || state_->get_voted_for() == -1);
     if (grant)
@@ -211,9 +212,10 @@ ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 ptr<resp_msg> raft_server::handle_prevote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::prevote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
-                     log_store_->next_slot() - 1 <= req.get_last_log_idx());
+    ulong last_idx = log_store_->next_slot() - 1;
+    ulong last_term = term_for_log(last_idx);
+    bool log_okay = req.get_last_log_term() > last_term ||
+                    (req.get_last_log_term() == last_term && last_idx <= req.get_last_log_idx());
     bool grant = req.get_term() >= state_->get_term() && log_okay;
     if (ctx_->params_->defensive_prevote_)
     {
-- 
2.43.0


From 0fc7195a3368f406b0c3ac47c69e3259db7bfe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:16 +0000
Subject: [PATCH 03/24] fix: a follower commits only what the append request
 verified

A follower with a stale tail committed entries of its own that the leader does
not have when the leader's commit index was beyond the verified part.
---
 src/raft_server_req_handlers.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 1e76cfc..007addb 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -185,7 +185,8 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     }
 
     leader_ = req.get_src();
-    commit(req.get_commit_idx());
+    // only the part of the log that this request verified is known to agree with the leader's log
+    commit(std::min(req.get_commit_idx(), req.get_last_log_idx() + (ulong)req.log_entries().size()));
     resp->accept(req.get_last_log_idx() + req.log_entries().size() + 1);
     return resp;
 }
-- 
2.43.0


From 1b832b8d3ebe1c6a904f273574ea670cc0ea3866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:16 +0000
Subject: [PATCH 04/24] fix: leader commits only entries of its own term
 confirmed in its term

Match indexes survived from an earlier leadership, responses of an earlier term
or received while not leading were used, and entries of earlier terms were
committed by counting replicas (Raft 5.4.2).
---
 src/raft_server.cxx               |  1 +
 src/raft_server_resp_handlers.cxx | 28 +++++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 2cd053b..bfec783 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -439,6 +439,7 @@ void raft_server::become_leader()
         for (peer_itor it = peers_.begin(); it != peers_.end(); ++it)
         {
             it->second->set_next_log_idx(log_store_->next_slot());
+            it->second->set_matched_idx(0);
             it->second->set_snapshot_in_sync(nil_snp);
             it->second->set_free();
             enable_hb_for_peer(*(it->second));
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index c1a4ab9..7307e1b 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -61,6 +61,13 @@ void raft_server::handle_peer_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>
         }
 
         // ignore the response that with lower term for safety
+        if (resp->get_term() < state_->get_term())
+        {
+            l_->info(sstrfmt("Received an outdated response at term %llu v.s. current term %llu")
+                         .fmt(resp->get_term(), state_->get_term()));
+            return;
+        }
+
         switch (resp->get_type())
         {
             case msg_type::vote_response:
@@ -84,6 +91,12 @@ void raft_server::handle_peer_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>
 
 void raft_server::handle_append_entries_resp(resp_msg& resp)
 {
+    if (role_ != srv_role::leader)
+    {
+        l_->info("no longer a leader, ignore the append entries response");
+        return;
+    }
+
     read_lock(peers_lock_);
     peer_itor it = peers_.find(resp.get_src());
     if (it == peers_.end())
@@ -114,7 +127,14 @@ void raft_server::handle_append_entries_resp(resp_msg& resp)
         }
 
         std::sort(matched_indexes.begin(), matched_indexes.end(), std::greater<ulong>());
-        commit(matched_indexes[(peers_.size() + 1) / 2]);
+        ulong majority_idx = matched_indexes[(peers_.size() + 1) / 2];
+
+        // entries of earlier terms are only committed together with an entry of the current term
+        if (majority_idx > quick_commit_idx_ && term_for_log(majority_idx) == state_->get_term())
+        {
+            commit(majority_idx);
+        }
+
         need_to_catchup = p->clear_pending_commit() || resp.get_next_idx() < log_store_->next_slot();
     }
     else
@@ -142,6 +162,12 @@ void raft_server::handle_append_entries_resp(resp_msg& resp)
 
 void raft_server::handle_install_snapshot_resp(resp_msg& resp)
 {
+    if (role_ != srv_role::leader)
+    {
+        l_->info("no longer a leader, ignore the install snapshot response");
+        return;
+    }
+
     read_lock(peers_lock_);
     peer_itor it = peers_.find(resp.get_src());
     if (it == peers_.end())
-- 
2.43.0


From 3a5a45f1fb487eae6dc552a5d7954e4d42b4a8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:14 +0000
Subject: [PATCH 05/24] fix: roll back every entry that an overwrite drops

Overwriting an entry drops all entries after it, but only the entry at the
overwritten index was rolled back.
---
 src/raft_server_req_handlers.cxx | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 007addb..d93aca6 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -140,15 +140,19 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         // dealing with overwrites
         while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
         {
-            ptr<log_entry> old_entry(log_store_->entry_at(idx));
-            if (old_entry->get_val_type() == log_val_type::app_log)
+            // the overwrite drops all entries from idx on
+            for (ulong old_idx = log_store_->next_slot() - 1; old_idx >= idx; --old_idx)
             {
-                state_machine_->rollback(idx, old_entry->get_buf(), old_entry->get_cookie());
-            }
-            else if (old_entry->get_val_type() == log_val_type::conf)
-            {
-                l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
-                config_changing_ = false;
+                ptr<log_entry> old_entry(log_store_->entry_at(old_idx));
+                if (old_entry->get_val_type() == log_val_type::app_log)
+                {
+                    state_machine_->rollback(old_idx, old_entry->get_buf(), old_entry->get_cookie());
+                }
+                else if (old_entry->get_val_type() == log_val_type::conf)
+                {
+                    l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
+                    config_changing_ = false;
+                }
             }
 
             ptr<log_entry> entry = req.log_entries().at(log_idx);
-- 
2.43.0


From ca75473dfccf2822364cb7d7ffd8775455ec7b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:14 +0000
Subject: [PATCH 06/24] fix: keep config_changing_ while another membership
 entry is uncommitted

A follower can hold two uncommitted membership entries; committing or reverting
one of them forgot about the other, so a new leader accepted another change.
---
 include/raft_server.hxx          |  1 +
 src/raft_server.cxx              | 16 +++++++++++++++-
 src/raft_server_req_handlers.cxx |  2 +-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index d9044fc..7d8a300 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -109,6 +109,7 @@ private:
     void on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr<std::exception>& err);
     void on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req);
     ulong term_for_log(ulong log_idx);
+    bool has_conf_after(ulong log_idx);
     void commit_in_bg();
     ptr<async_result<bool>> send_msg_to_leader(ptr<req_msg>& req);
 
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index bfec783..a2b18c5 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -880,6 +880,20 @@ ulong raft_server::term_for_log(ulong log_idx)
     return last_snapshot->get_last_log_term();
 }
 
+bool raft_server::has_conf_after(ulong log_idx)
+{
+    for (ulong i = std::max(log_idx + 1, log_store_->start_index()); i < log_store_->next_slot(); ++i)
+    {
+        ptr<log_entry> entry(log_store_->entry_at(i));
+        if (entry->get_val_type() == log_val_type::conf)
+        {
+            return true;
+        }
+    }
+
+    return false;
+}
+
 void raft_server::commit_in_bg()
 {
     while (true)
@@ -924,7 +938,7 @@ void raft_server::commit_in_bg()
                     ptr<cluster_config> new_conf = cluster_config::deserialize(log_entry->get_buf());
                     l_->info(sstrfmt("config at index %llu is committed").fmt(new_conf->get_log_idx()));
                     ctx_->state_mgr_->save_config(*new_conf);
-                    config_changing_ = false;
+                    config_changing_ = has_conf_after(sm_commit_index_);
                     if (config_->get_log_idx() < new_conf->get_log_idx())
                     {
                         reconfigure(new_conf);
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index d93aca6..0d0e6ad 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -151,12 +151,12 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
                 else if (old_entry->get_val_type() == log_val_type::conf)
                 {
                     l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
-                    config_changing_ = false;
                 }
             }
 
             ptr<log_entry> entry = req.log_entries().at(log_idx);
             log_store_->write_at(idx, entry);
+            config_changing_ = has_conf_after(sm_commit_index_);
             if (entry->get_val_type() == log_val_type::app_log)
             {
                 state_machine_->pre_commit(idx, entry->get_buf(), entry->get_cookie());
-- 
2.43.0


From b0599eb587df0c82e4cf563829287969db3b7e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:14 +0000
Subject: [PATCH 07/24] fix: a failed invitation does not end a pending
 membership change

Nothing has been proposed yet when an invitation fails, the flag belongs to a
membership entry that is still uncommitted.
---
 src/raft_server_resp_handlers.cxx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 7307e1b..8fbc8d5 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -474,7 +474,6 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                 {
                     l_->info(lstrfmt("rpc failed again for the new coming server (%d), will stop retry for this server")
                                  .fmt(p->get_id()));
-                    config_changing_ = false;
                     srv_to_join_.reset();
                 }
             }
-- 
2.43.0


From a41626859e4d822fb359f84b08d328a1ec614236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:14 +0000
Subject: [PATCH 08/24] fix: only a leader without a pending change removes a
 server

The membership entry that removes a server is proposed when the answer to the
leave request arrives; leadership, a pending change and the membership may have
changed since the request was sent.
---
 src/raft_server_req_handlers.cxx  | 6 ++++++
 src/raft_server_resp_handlers.cxx | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 0d0e6ad..60cd944 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -641,6 +641,12 @@ ptr<resp_msg> raft_server::handle_leave_cluster_req(req_msg& req)
 
 void raft_server::rm_srv_from_cluster(int32 srv_id)
 {
+    if (role_ != srv_role::leader || config_changing_ || !config_->get_server(srv_id))
+    {
+        l_->info(sstrfmt("cannot remove server %d now, give up").fmt(srv_id));
+        return;
+    }
+
     ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), config_->get_log_idx());
     for (cluster_config::const_srv_itor it = config_->get_servers().begin(); it != config_->get_servers().end(); ++it)
     {
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 8fbc8d5..5f2acdb 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -452,7 +452,7 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                      */
                     {
                         write_lock(peers_lock_);
-                        if (peers_.size() == 1)
+                        if (peers_.size() == 1 && role_ == srv_role::leader && !config_changing_)
                         {
                             peer_itor pit = peers_.find(p->get_id());
                             if (pit != peers_.end())
-- 
2.43.0


From 264c2cc6e30347e77745a44f466a9bf954ed5c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:14 +0000
Subject: [PATCH 09/24] fix: a new server is added only without a pending
 change

A repeated answer of the joining server, or another change that was proposed
while it was catching up, led to a second uncommitted membership entry.
---
 src/raft_server_req_handlers.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 60cd944..33b3155 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -546,6 +546,12 @@ void raft_server::sync_log_to_new_srv(ulong start_idx)
     int32 gap = (int32)(quick_commit_idx_ - start_idx);
     if (gap < ctx_->params_->log_sync_stop_gap_)
     {
+        if (role_ != srv_role::leader || config_changing_ || config_->get_server(conf_to_add_->get_id()))
+        {
+            l_->info(sstrfmt("cannot add server %d now, give up").fmt(srv_to_join_->get_id()));
+            return;
+        }
+
         l_->info(lstrfmt("LogSync is done for server %d with log gap %d, now put the server into cluster")
                      .fmt(srv_to_join_->get_id(), gap));
         ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), config_->get_log_idx());
-- 
2.43.0


From 0636f889a99a0541273c7ebdbb4c1483677b9d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:14 +0000
Subject: [PATCH 10/24] fix: installing a snapshot never lowers the commit
 index

---
 src/raft_server_req_handlers.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 33b3155..23b17bd 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -386,7 +386,7 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
                 reconfigure(req.get_snapshot().get_last_config());
                 ctx_->state_mgr_->save_config(*config_);
                 sm_commit_index_ = req.get_snapshot().get_last_log_idx();
-                quick_commit_idx_ = req.get_snapshot().get_last_log_idx();
+                quick_commit_idx_ = std::max(quick_commit_idx_, req.get_snapshot().get_last_log_idx());
                 ctx_->state_mgr_->save_state(*state_);
                 last_snapshot_ = cs_new<snapshot>(
                     req.get_snapshot().get_last_log_idx(),
-- 
2.43.0


From d0636d0f1e9b4aa8441136ee827e9b6b71151f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:14 +0000
Subject: [PATCH 11/24] fix: read the previous configuration from the start of
 its entry

The entry has been read before when it was committed, so its position is at the
end and the snapshot failed.
---
 src/raft_server.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index a2b18c5..ec00257 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -563,6 +563,7 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
             while (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() >= log_store_->start_index())
             {
                 ptr<log_entry> conf_log(log_store_->entry_at(conf->get_prev_log_idx()));
+                conf_log->get_buf().pos(0);
                 conf = cluster_config::deserialize(conf_log->get_buf());
             }
 
-- 
2.43.0


From da9771298c62655a9b2635028b36caa0e85f5def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:14 +0000
Subject: [PATCH 12/24] fix: step down completely when joining a cluster

A candidate kept the votes of its former term, a leader kept its heartbeats and
the server it was adding.
---
 src/raft_server_req_handlers.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 23b17bd..38fb0e9 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -621,7 +621,9 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
     }
 
     catching_up_ = true;
-    role_ = srv_role::follower;
+    become_follower();
+    votes_granted_ = 0;
+    voted_servers_.clear();
     leader_ = req.get_src();
     sm_commit_index_ = 0;
     quick_commit_idx_ = 0;
-- 
2.43.0


From 94020a4bf592e3eded02616b0034a79441573e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:14 +0000
Subject: [PATCH 13/24] fix: pre-votes of servers that are not members do not
 count

---
 src/raft_server_resp_handlers.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 5f2acdb..d8c7571 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -275,6 +275,12 @@ void raft_server::handle_prevote_resp(resp_msg& resp)
 
     {
         read_lock(peers_lock_);
+        if (peers_.find(resp.get_src()) == peers_.end())
+        {
+            l_->info(sstrfmt("Peer %d not found, ignore the prevote").fmt(resp.get_src()));
+            return;
+        }
+
         bool vote_added = prevote_state_->add_voted_server(resp.get_src());
         if (!vote_added)
         {
-- 
2.43.0


From 339e17a548985c820974bf47e80f7d0f652819a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:14 +0000
Subject: [PATCH 14/24] fix: send snapshots of 2 GB and more

The remaining size was truncated to 32 bits, so the chunk size became negative or
too small. Also do not dereference a missing snapshot in the error message.
---
 src/raft_server.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index ec00257..cdad676 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -811,7 +811,7 @@ ptr<req_msg> raft_server::create_sync_snapshot_req(peer& p, ulong last_log_idx,
         {
             l_->err(lstrfmt("system is running into fatal errors, failed to find a snapshot for peer %d(snapshot null: "
                             "%d, snapshot doesn't contais lastLogIndex: %d")
-                        .fmt(p.get_id(), snp == nilptr ? 1 : 0, last_log_idx > snp->get_last_log_idx() ? 1 : 0));
+                        .fmt(p.get_id(), snp == nilptr ? 1 : 0, snp && last_log_idx > snp->get_last_log_idx() ? 1 : 0));
             ctx_->state_mgr_->system_exit(-1);
             return ptr<req_msg>();
         }
@@ -830,8 +830,8 @@ ptr<req_msg> raft_server::create_sync_snapshot_req(peer& p, ulong last_log_idx,
     }
 
     ulong offset = p.get_snapshot_sync_ctx()->get_offset();
-    int32 sz_left = (int32)(snp->size() - offset);
-    int32 blk_sz = get_snapshot_sync_block_size();
+    ulong sz_left = snp->size() - offset;
+    ulong blk_sz = (ulong)get_snapshot_sync_block_size();
     bufptr data = buffer::alloc((size_t)(std::min(blk_sz, sz_left)));
     int32 sz_rd = state_machine_->read_snapshot_data(*snp, offset, *data);
     if ((size_t)sz_rd < data->size())
-- 
2.43.0


From 34e8c6478cd39f6e2caa946fa1aca65156f68127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:14 +0000
Subject: [PATCH 15/24] fix: notice every lapse of leadership

The time since the last quorum was static and never computed again once it had
been small, and overflowed for members that never answered.
---
 src/raft_server.cxx | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index cdad676..6dfcad2 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1068,10 +1068,8 @@ ptr<async_result<bool>> raft_server::send_msg_to_leader(ptr<req_msg>& req)
 
 bool raft_server::is_leader() const
 {
-    static volatile int32 time_elasped_since_quorum_resp(std::numeric_limits<int32>::max());
     read_lock(peers_lock_);
-    if (role_ == srv_role::leader && peers_.size() > 0 &&
-        time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
+    if (role_ == srv_role::leader && peers_.size() > 0)
     {
         std::vector<time_point> peer_resp_times;
         for (auto& peer : peers_)
@@ -1080,10 +1078,9 @@ bool raft_server::is_leader() const
         }
 
         std::sort(peer_resp_times.begin(), peer_resp_times.end());
-        time_elasped_since_quorum_resp =
-            static_cast<int32>(std::chrono::duration_cast<std::chrono::milliseconds>(
-                                   system_clock::now() - peer_resp_times[peers_.size() / 2])
-                                   .count());
+        int64_t time_elasped_since_quorum_resp = std::chrono::duration_cast<std::chrono::milliseconds>(
+                                                     system_clock::now() - peer_resp_times[peers_.size() / 2])
+                                                     .count();
         if (time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
         {
             return false;
-- 
2.43.0


From 67a3cb235d238b80163f295e6f8f860a779c7052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:14 +0000
Subject: [PATCH 16/24] fix: replicate_log appends under the lock, announces
 the entry, reports it

It checked leadership and appended without the server lock, did not tell the
state machine, and returned false although the entry was accepted.
---
 src/raft_server.cxx | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 6dfcad2..d415925 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1092,6 +1092,7 @@ bool raft_server::is_leader() const
 
 bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cookie_tag)
 {
+    recur_lock(lock_);
     if (!is_leader())
     {
         return false;
@@ -1103,11 +1104,8 @@ bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cooki
         entry->set_cookie(cookie_tag, cookie);
     }
 
-    log_store_->append(entry);
-    {
-        recur_lock(lock_);
-        request_append_entries();
-    }
-
-    return false;
+    ulong log_idx = log_store_->append(entry);
+    state_machine_->pre_commit(log_idx, entry->get_buf(), entry->get_cookie());
+    request_append_entries();
+    return true;
 }
-- 
2.43.0


From 8946fb741fb58fdd34bd59a9f7cbceded7a24bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:12 +0000
Subject: [PATCH 17/24] fix: a member with an empty log gets the snapshot when
 the log was compacted

---
 src/raft_server.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index d415925..4d92645 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -672,7 +672,7 @@ ptr<req_msg> raft_server::create_append_entries_req(peer& p)
     }
 
     // for syncing the snapshots, for starting_idx - 1, we can check with last snapshot
-    if (last_log_idx > 0 && last_log_idx < starting_idx - 1)
+    if (last_log_idx < starting_idx - 1)
     {
         return create_sync_snapshot_req(p, last_log_idx, term, commit_idx);
     }
-- 
2.43.0


From 0da0f0eaaf12eae989e03816bca6ac222a89b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:54 +0000
Subject: [PATCH 18/24] fix: an append that overlaps compacted entries made the
 follower throw

A delayed append whose first entries lie below the log's start index made
term_at throw; compacted entries were committed, so they agree with the leader's.
---
 src/raft_server_req_handlers.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 38fb0e9..c251ef7 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -126,7 +126,9 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         size_t log_idx = 0;
         while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
         {
-            if (log_store_->term_at(idx) == req.log_entries().at(log_idx)->get_term())
+            // entries that have been compacted were committed, so they are the leader's
+            if (idx < log_store_->start_index() ||
+                log_store_->term_at(idx) == req.log_entries().at(log_idx)->get_term())
             {
                 idx++;
                 log_idx++;
-- 
2.43.0


From 951d4febb2e95b5e1052efb0c54e7b8bb378e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:41 +0000
Subject: [PATCH 19/24] fix: keep the commit mark of a member when the
 follow-up request cannot be sent

A response handled while a newer request to the same member is already
outstanding consumed the pending commit mark and then failed to send; the
member was told about the commit only by the next heartbeat.
---
 src/raft_server_resp_handlers.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index d8c7571..b0fe840 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -154,9 +154,10 @@ void raft_server::handle_append_entries_resp(resp_msg& resp)
     // This may not be a leader anymore, such as the response was sent out long time ago
     // and the role was updated by UpdateTerm call
     // Try to match up the logs for this peer
-    if (role_ == srv_role::leader && need_to_catchup)
+    if (role_ == srv_role::leader && need_to_catchup && !request_append_entries(*p))
     {
-        request_append_entries(*p);
+        // another request is outstanding already, come back when it is answered
+        p->set_pending_commit();
     }
 }
 
@@ -215,9 +216,10 @@ void raft_server::handle_install_snapshot_resp(resp_msg& resp)
     // This may not be a leader anymore, such as the response was sent out long time ago
     // and the role was updated by UpdateTerm call
     // Try to match up the logs for this peer
-    if (role_ == srv_role::leader && need_to_catchup)
+    if (role_ == srv_role::leader && need_to_catchup && !request_append_entries(*p))
     {
-        request_append_entries(*p);
+        // another request is outstanding already, come back when it is answered
+        p->set_pending_commit();
     }
 }
 
-- 
2.43.0


From b2d9869e9827d2b0f7d62075ecfac84d1ae27e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:06 +0000
Subject: [PATCH 20/24] fix: snapshot_and_compact reads the membership and the
 last snapshot under the lock

---
 src/raft_server.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 4d92645..906ccdc 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -551,6 +551,7 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
     try
     {
         bool f = false;
+        std::unique_lock<std::recursive_mutex> guard(lock_);
         if ((!last_snapshot_ ||
              (committed_idx - last_snapshot_->get_last_log_idx()) >= (ulong)ctx_->params_->snapshot_distance_) &&
             snp_in_progress_.compare_exchange_strong(f, true))
@@ -592,6 +593,7 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
             async_result<bool>::handler_type handler =
                 [this, new_snapshot](bool result, const ptr<std::exception>& e) mutable
             { this->on_snapshot_completed(new_snapshot, result, e); };
+            guard.unlock();
             state_machine_->create_snapshot(*new_snapshot, handler);
             snapshot_in_action = false;
         }
-- 
2.43.0


From b5d3cd400ef6afdf7ce9e256914b85582c56d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:06 +0000
Subject: [PATCH 21/24] fix: a leader whose log already holds the initial
 membership does not add it again

---
 src/raft_server.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 906ccdc..4d96be5 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -446,7 +446,7 @@ void raft_server::become_leader()
         }
     }
 
-    if (config_->get_log_idx() == 0)
+    if (config_->get_log_idx() == 0 && !config_changing_)
     {
         config_->set_log_idx(log_store_->next_slot());
         bufptr conf_buf = config_->serialize();
-- 
2.43.0


From 4d4604484576f41de60b2c0baf97bcf9d61dcec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:06 +0000
Subject: [PATCH 22/24] fix: a removed peer stays alive until its outstanding
 requests are answered

---
 include/peer.hxx | 2 +-
 src/peer.cxx     | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/peer.hxx b/include/peer.hxx
index 9418c0e..f43c7a8 100644
--- a/include/peer.hxx
+++ b/include/peer.hxx
@@ -23,7 +23,7 @@
 
 namespace cornerstone
 {
-class peer
+class peer : public std::enable_shared_from_this<peer>
 {
 public:
     peer(ptr<srv_config>& config, const context& ctx, timer_task<peer&>::executor& hb_exec)
diff --git a/src/peer.cxx b/src/peer.cxx
index c87f893..5efbccd 100644
--- a/src/peer.cxx
+++ b/src/peer.cxx
@@ -21,8 +21,9 @@ using namespace cornerstone;
 void peer::send_req(ptr<req_msg>& req, rpc_handler& handler)
 {
     ptr<rpc_result> pending = cs_new<rpc_result>(handler);
-    rpc_handler h = [this, req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
-    { this->handle_rpc_result(req, pending, resp, ex); };
+    ptr<peer> self = shared_from_this(); // the peer may be removed before the response arrives
+    rpc_handler h = [self, req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
+    { self->handle_rpc_result(req, pending, resp, ex); };
     rpc_->send(req, h);
 }
 
-- 
2.43.0


From b7d4e3f5b13bf72c2e9eb2468e5b879d06c11844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:46 +0000
Subject: [PATCH 23/24] fix: the leader can send the snapshot it has just
 created

---
 src/raft_server.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 4d96be5..453ed52 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -627,9 +627,17 @@ void raft_server::on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr
 
         {
             recur_lock(lock_);
+            if (s->get_last_log_idx() < log_store_->start_index())
+            {
+                l_->info("a newer snapshot was installed while the snapshot was created");
+                break;
+            }
+
             l_->debug("snapshot created, compact the log store");
 
-            last_snapshot_ = s;
+            // the snapshot known to the state machine carries the size of its data
+            ptr<snapshot> created(state_machine_->last_snapshot());
+            last_snapshot_ = created && created->get_last_log_idx() == s->get_last_log_idx() ? created : s;
             if (s->get_last_log_idx() > (ulong)ctx_->params_->reserved_log_items_)
             {
                 log_store_->compact(s->get_last_log_idx() - (ulong)ctx_->params_->reserved_log_items_);
-- 
2.43.0


From dde7956ac105515abb2ddfe2a74d127035dc3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:47 +0000
Subject: [PATCH 24/24] fix: an asynchronous result calls its handler once and
 never wakes without a result

---
 include/async.hxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/async.hxx b/include/async.hxx
index e03b0a2..38c124a 100644
--- a/include/async.hxx
+++ b/include/async.hxx
@@ -36,7 +36,7 @@ public:
     explicit async_result(T& result) : result_(result), err_(), has_result_(true), lock_(), cv_()
     {
     }
-    explicit async_result(handler_type& handler) : err_(), has_result_(true), handler_(handler), lock_(), cv_()
+    explicit async_result(handler_type& handler) : err_(), has_result_(false), handler_(handler), lock_(), cv_()
     {
     }
 
@@ -50,12 +50,14 @@ public:
     template <typename _THandler>
     void when_ready(_THandler&& handler)
     {
+        bool ready(false);
         {
             std::lock_guard<std::mutex> guard(lock_);
             handler_ = std::forward<_THandler>(handler);
+            ready = has_result_; // a result that is set later finds the handler
         }
 
-        if (has_result_)
+        if (ready)
         {
             handler_(result_, err_);
         }
@@ -97,7 +99,11 @@ public:
             throw err_;
         }
 
-        cv_.wait(lock);
+        while (!has_result_)
+        {
+            cv_.wait(lock);
+        }
+
         if (err_ == nullptr)
         {
             return result_;
-- 
2.43.0

