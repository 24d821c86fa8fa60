From 92507204d07d9f983e7f181481320f1aa90241a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 01/78] fix: keep snapshot visibility of blackboard entries
 moved by a deletion

When deleting an entry from the blackboard's hash table, later entries
that collide with it are shifted back, but their bit in the snapshot
table of contents stayed behind. Visible values could disappear from
snapshots and hidden values could show up in them.
---
 src/caliper/Blackboard.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/caliper/Blackboard.cpp b/src/caliper/Blackboard.cpp
index 3d1c00f..3541556 100644
--- a/src/caliper/Blackboard.cpp
+++ b/src/caliper/Blackboard.cpp
@@ -87,7 +87,16 @@ void Blackboard::del(cali_id_t key)
             size_t k = hashtable[j].key % Nmax;
             if ((j > I && (k <= I || k > j)) || (j < I && (k <= I && k > j))) {
                 hashtable[I] = hashtable[j];
-                I            = j;
+                // the moved entry keeps its snapshot visibility
+                if (toc[j / 32] & (1 << (j % 32))) {
+                    toc[I / 32] |= (1 << (I % 32));
+                    toctoc |= (1 << (I / 32));
+                } else {
+                    toc[I / 32] &= ~(1 << (I % 32));
+                    if (toc[I / 32] == 0)
+                        toctoc &= ~(1 << (I / 32));
+                }
+                I = j;
             }
         }
     }
-- 
2.43.0


From 4d8b865ac9ce573a8df1a6f53413822cf51204c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 02/78] fix: create context tree paths longer than a node block
 in pieces

A path with more values than nodes_per_block wrote past the end of its
node block, and the resulting nodes could not be found by identifier.
---
 src/caliper/MetadataTree.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index f8f9f26..a4e2a18 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -130,6 +130,17 @@ bool MetadataTree::have_free_nodeblock(size_t n)
 
 Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant* data, Node* parent = nullptr)
 {
+    // Split up paths that are too long for a single node block
+
+    const size_t max_n = mG.load()->nodes_per_block - 1;
+
+    for (; n > max_n; n -= max_n, data += max_n) {
+        parent = create_path(attr, max_n, data, parent);
+
+        if (!parent)
+            return nullptr;
+    }
+
     // Get a node block with sufficient free space
 
     if (!have_free_nodeblock(n))
-- 
2.43.0


From f2eb2a3d6ce65d85f2950250a59a0977d73cd7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 03/78] fix: aggregate attributes that are newer than the
 aggregation entry

Entries only had room for the aggregation attributes that existed when
they were created; values of later attributes were lost.
---
 src/services/aggregate/AggregationDB.cpp | 23 ++++++++++++++++++++++-
 src/services/aggregate/AggregationDB.h   |  1 +
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index c138695..8370fdc 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -68,6 +68,24 @@ AggregateEntry* AggregationDB::find_or_create_entry(SnapshotView key, std::size_
     return &m_entries[entry_idx];
 }
 
+bool AggregationDB::extend_kernels(AggregateEntry* entry, std::size_t num_aggr_attrs, bool can_alloc)
+{
+    if (entry == &m_entries[0]) // no kernels for skipped records
+        return false;
+    if (!can_alloc && m_kernels.size() + num_aggr_attrs >= m_kernels.capacity())
+        return false;
+
+    size_t kernels_idx = m_kernels.size();
+    m_kernels.resize(m_kernels.size() + num_aggr_attrs, AggregateKernel());
+
+    std::copy_n(m_kernels.begin() + entry->kernels_idx, entry->num_kernels, m_kernels.begin() + kernels_idx);
+
+    entry->kernels_idx = kernels_idx;
+    entry->num_kernels = num_aggr_attrs;
+
+    return true;
+}
+
 void AggregationDB::process_snapshot(Caliper* c, SnapshotView rec, const AttributeInfo& info)
 {
     // --- extract key entries
@@ -96,11 +114,14 @@ void AggregationDB::process_snapshot(Caliper* c, SnapshotView rec, const Attribu
 
     ++entry->count;
 
-    for (size_t a = 0; a < std::min(entry->num_kernels, info.aggr_attrs.size()); ++a) {
+    for (size_t a = 0; a < info.aggr_attrs.size(); ++a) {
         Entry e = rec.get_immediate_entry(info.aggr_attrs[a]);
 
         if (e.empty())
             continue;
+        // The attribute may be newer than the entry
+        if (a >= entry->num_kernels && !extend_kernels(entry, info.aggr_attrs.size(), !c->is_signal()))
+            break;
 
         m_kernels[entry->kernels_idx + a].update(e.value());
     }
diff --git a/src/services/aggregate/AggregationDB.h b/src/services/aggregate/AggregationDB.h
index 44020cd..8245f9f 100644
--- a/src/services/aggregate/AggregationDB.h
+++ b/src/services/aggregate/AggregationDB.h
@@ -126,6 +126,7 @@ class AggregationDB
     std::vector<size_t>          m_hashmap;
 
     AggregateEntry* find_or_create_entry(cali::SnapshotView key, std::size_t hash, std::size_t num_aggr_attrs, bool can_alloc);
+    bool extend_kernels(AggregateEntry* entry, std::size_t num_aggr_attrs, bool can_alloc);
 
 public:
 
-- 
2.43.0


From d682fd3cc514fbfc66ae5155d8303df52d6c5a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 04/78] fix: don't truncate aggregation keys with more than 16
 entries

Records that only differ in later key entries were merged.
---
 src/services/aggregate/AggregationDB.cpp | 12 +++++++-----
 src/services/aggregate/AggregationDB.h   |  1 +
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index 8370fdc..f14aa9f 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -17,7 +17,8 @@
 using namespace cali;
 using namespace aggregate;
 
-#define MAX_KEYLEN 16
+// A key can't have more entries than a snapshot record
+#define MAX_KEYLEN 120
 
 AggregateEntry* AggregationDB::find_or_create_entry(SnapshotView key, std::size_t hash, std::size_t num_aggr_attrs, bool can_alloc)
 {
@@ -90,19 +91,19 @@ void AggregationDB::process_snapshot(Caliper* c, SnapshotView rec, const Attribu
 {
     // --- extract key entries
 
-    FixedSizeSnapshotRecord<MAX_KEYLEN> key;
-    std::size_t                         hash = 0;
+    SnapshotBuilder key(m_key.size(), m_key.data());
+    std::size_t     hash = 0;
 
     for (const Entry& e : rec)
         if (e.is_reference()) {
-            key.builder().append(e);
+            key.append(e);
             hash += e.node()->id();
         }
 
     for (const Attribute& attr : info.imm_key_attrs) {
         Entry e = rec.get_immediate_entry(attr);
         if (!e.empty()) {
-            key.builder().append(e);
+            key.append(e);
             hash += e.node()->id();
             hash += e.value().to_uint();
         }
@@ -196,6 +197,7 @@ AggregationDB::AggregationDB(Caliper* c)
     m_keyents.reserve(16384);
     m_entries.reserve(4096);
     m_hashmap.assign(8192, static_cast<std::size_t>(0));
+    m_key.resize(MAX_KEYLEN);
 
     Attribute attr =
         c->create_attribute("skipped.records", CALI_TYPE_STRING, CALI_ATTR_DEFAULT | CALI_ATTR_SKIP_EVENTS);
diff --git a/src/services/aggregate/AggregationDB.h b/src/services/aggregate/AggregationDB.h
index 8245f9f..e4b2576 100644
--- a/src/services/aggregate/AggregationDB.h
+++ b/src/services/aggregate/AggregationDB.h
@@ -124,6 +124,7 @@ class AggregationDB
     std::vector<cali::Entry>     m_keyents;
     std::vector<AggregateKernel> m_kernels;
     std::vector<size_t>          m_hashmap;
+    std::vector<cali::Entry>     m_key; ///< Scratch space for the current key
 
     AggregateEntry* find_or_create_entry(cali::SnapshotView key, std::size_t hash, std::size_t num_aggr_attrs, bool can_alloc);
     bool extend_kernels(AggregateEntry* entry, std::size_t num_aggr_attrs, bool can_alloc);
-- 
2.43.0


From 21dcc9c69ff9bc555be27503f13fa899747f922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 05/78] fix: don't modify aggregation attribute info while
 other threads use it

Creating an aggregatable or key attribute changed the vectors that other
threads iterate over in process_snapshot. Use immutable versions instead.
---
 src/services/aggregate/Aggregate.cpp | 101 +++++++++++++++++++--------
 1 file changed, 70 insertions(+), 31 deletions(-)

diff --git a/src/services/aggregate/Aggregate.cpp b/src/services/aggregate/Aggregate.cpp
index 7cdad74..a38cb7c 100644
--- a/src/services/aggregate/Aggregate.cpp
+++ b/src/services/aggregate/Aggregate.cpp
@@ -16,7 +16,9 @@
 #include "caliper/common/Variant.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cstring>
+#include <memory>
 #include <mutex>
 #include <sstream>
 
@@ -69,7 +71,13 @@ class Aggregate
     ThreadDB*      m_tdb_list = nullptr;
     util::spinlock m_tdb_lock;
 
-    AttributeInfo            m_attr_info;
+    //   The attribute info can change while other threads are processing
+    // snapshots. They use the current version, which is never modified:
+    // updates create a new one.
+    std::atomic<const AttributeInfo*>                 m_attr_info;
+    std::vector<std::unique_ptr<const AttributeInfo>> m_attr_info_versions;
+    std::mutex                                        m_attr_info_lock;
+
     std::vector<std::string> m_key_attribute_names;
 
     Attribute m_tdb_attr;
@@ -125,29 +133,57 @@ class Aggregate
         return res;
     }
 
-    void check_aggregation_attribute(Caliper* c, const Attribute& attr)
+    void publish_attribute_info(AttributeInfo* info)
     {
-        if (!(attr.properties() & CALI_ATTR_AGGREGATABLE))
-            return;
+        m_attr_info_versions.emplace_back(info);
+        m_attr_info.store(info);
+    }
+
+    void check_attribute(Caliper* c, const Attribute& attr)
+    {
+        bool             is_aggregatable = attr.properties() & CALI_ATTR_AGGREGATABLE;
+        ResultAttributes res;
 
-        if (std::find(m_attr_info.aggr_attrs.begin(), m_attr_info.aggr_attrs.end(), attr) != m_attr_info.aggr_attrs.end())
+        if (is_aggregatable)
+            res = make_result_attributes(c, attr);
+
+        std::lock_guard<std::mutex> g(m_attr_info_lock);
+
+        const AttributeInfo* current = m_attr_info.load();
+        bool                 is_key  = check_key_attribute(attr);
+
+        if (std::find(current->aggr_attrs.begin(), current->aggr_attrs.end(), attr) != current->aggr_attrs.end())
+            is_aggregatable = false;
+        if (!is_key && !is_aggregatable)
             return;
 
-        m_attr_info.aggr_attrs.push_back(attr);
-        m_attr_info.result_attrs.push_back(make_result_attributes(c, attr));
+        AttributeInfo* info = new AttributeInfo(*current);
+
+        if (is_key)
+            info->imm_key_attrs.push_back(attr);
+        if (is_aggregatable) {
+            info->aggr_attrs.push_back(attr);
+            info->result_attrs.push_back(res);
+        }
+
+        publish_attribute_info(info);
     }
 
-    void init_aggregation_attributes(Caliper* c)
+    void init_count_attributes(Caliper* c)
     {
-        auto attrs = c->find_attributes_with_prop(CALI_ATTR_AGGREGATABLE);
+        const int prop = CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_THREAD | CALI_ATTR_SKIP_EVENTS;
 
-        for (const auto& a : attrs)
-            check_aggregation_attribute(c, a);
+        Attribute count_attr = c->create_attribute("count", CALI_TYPE_UINT, prop);
+        Attribute slot_attr  = c->create_attribute("aggregate.slot", CALI_TYPE_UINT, prop);
 
-        const int prop = CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_THREAD | CALI_ATTR_SKIP_EVENTS;
+        std::lock_guard<std::mutex> g(m_attr_info_lock);
+
+        AttributeInfo* info = new AttributeInfo(*m_attr_info.load());
+
+        info->count_attr = count_attr;
+        info->slot_attr  = slot_attr;
 
-        m_attr_info.count_attr = c->create_attribute("count", CALI_TYPE_UINT, prop);
-        m_attr_info.slot_attr  = c->create_attribute("aggregate.slot", CALI_TYPE_UINT, prop);
+        publish_attribute_info(info);
     }
 
     void flush_cb(Caliper* c, SnapshotFlushFn proc_fn)
@@ -163,7 +199,7 @@ class Aggregate
 
         for (; tdb; tdb = tdb->next) {
             tdb->stopped.store(true);
-            num_written += tdb->db.flush(m_attr_info, c, proc_fn);
+            num_written += tdb->db.flush(*m_attr_info.load(), c, proc_fn);
             tdb->stopped.store(false);
         }
 
@@ -234,35 +270,37 @@ class Aggregate
         ThreadDB* tdb = acquire_tdb(c, !c->is_signal());
 
         if (tdb && !tdb->stopped.load())
-            tdb->db.process_snapshot(c, rec, m_attr_info);
+            tdb->db.process_snapshot(c, rec, *m_attr_info.load());
         else
             ++m_num_dropped_snapshots;
     }
 
-    void check_key_attribute(const Attribute& attr)
+    bool check_key_attribute(const Attribute& attr)
     {
         auto it = std::find(m_key_attribute_names.begin(), m_key_attribute_names.end(), attr.name());
 
-        if (it != m_key_attribute_names.end()) {
-            if (attr.store_as_value()) {
-                m_attr_info.imm_key_attrs.push_back(attr);
-            } else {
-                Log(1).stream() << m_channel_name
-                    << ": aggregate: Reference attributes are no longer supported in CALI_AGGREGATE_KEY, ignoring "
-                    << attr.name() << std::endl;
-            }
+        if (it == m_key_attribute_names.end())
+            return false;
+
+        m_key_attribute_names.erase(it);
 
-            m_key_attribute_names.erase(it);
+        if (!attr.store_as_value()) {
+            Log(1).stream() << m_channel_name
+                << ": aggregate: Reference attributes are no longer supported in CALI_AGGREGATE_KEY, ignoring "
+                << attr.name() << std::endl;
+            return false;
         }
+
+        return true;
     }
 
     void post_init_cb(Caliper* c, Channel* chn)
     {
-        // Update key attributes
+        // Update key and aggregation attributes
         for (const Attribute& a : c->get_all_attributes())
-            check_key_attribute(a);
+            check_attribute(c, a);
 
-        init_aggregation_attributes(c);
+        init_count_attributes(c);
 
         // Initialize master-thread aggregation DB
         acquire_tdb(c, true);
@@ -270,8 +308,7 @@ class Aggregate
 
     void create_attribute_cb(Caliper* c, const Attribute& attr)
     {
-        check_key_attribute(attr);
-        check_aggregation_attribute(c, attr);
+        check_attribute(c, attr);
     }
 
     void create_thread_cb(Caliper* c) 
@@ -298,6 +335,8 @@ class Aggregate
     {
         auto cfg = services::init_config_from_spec(chn->config(), s_spec);        
         m_key_attribute_names = cfg.get("key").to_stringlist(",");
+
+        publish_attribute_info(new AttributeInfo);
         
         m_tdb_attr = c->create_attribute(
             std::string("aggregate.tdb.") + std::to_string(chn->id()),
-- 
2.43.0


From fb330ff1c6cc16040582cf12ae4f047316250dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 06/78] fix: notify channels about a new attribute before it
 becomes visible

Another thread could find and use a new attribute before services had set
it up, so that its events or values were not recorded.
---
 src/caliper/Caliper.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 33e72ad..a2275f1 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -305,6 +305,7 @@ struct Caliper::GlobalData {
     // --- data
 
     mutable std::mutex               attribute_lock;
+    std::recursive_mutex             attribute_create_lock;
     std::map<std::string, Attribute> attribute_map;
 
     std::map<std::string, int> attribute_prop_presets;
@@ -687,6 +688,20 @@ Attribute Caliper::create_attribute(
             return it->second;
     }
 
+    //   Serialize attribute creation: The new attribute must not become visible
+    // to other threads before all channels have been notified about it. The lock
+    // is recursive because the callbacks may create attributes, too.
+    std::lock_guard<std::recursive_mutex> gc(sG->attribute_create_lock);
+
+    // Check again, another thread might have created it in the meantime
+    {
+        std::lock_guard<std::mutex> ga(sG->attribute_lock);
+
+        auto it = sG->attribute_map.find(name);
+        if (it != sG->attribute_map.end())
+            return it->second;
+    }
+
     Node* node = nullptr;
 
     // Get type node
@@ -724,20 +739,6 @@ Attribute Caliper::create_attribute(
     node = sT->tree.get_child(prop_attr, Variant(prop), node);
     node = sT->tree.get_child(name_attr, Variant(CALI_TYPE_STRING, name.data(), name.size()), node);
 
-    {
-        // Check again if attribute already exists; might have been created by
-        // another thread in the meantime.
-        // We've created some redundant nodes then, but that's fine
-
-        std::lock_guard<std::mutex> ga(sG->attribute_lock);
-
-        auto it = sG->attribute_map.lower_bound(name);
-        if (it == sG->attribute_map.end() || it->first != name)
-            sG->attribute_map.insert(it, std::make_pair(name, Attribute::make_attribute(node)));
-        else
-            return it->second;
-    }
-
     // Create attribute object
 
     Attribute attr = Attribute::make_attribute(node);
@@ -745,6 +746,11 @@ Attribute Caliper::create_attribute(
     for (auto& channel : sG->all_channels)
         channel.mP->events.create_attr_evt(this, attr);
 
+    {
+        std::lock_guard<std::mutex> ga(sG->attribute_lock);
+        sG->attribute_map.insert(std::make_pair(name, attr));
+    }
+
     return attr;
 }
 
-- 
2.43.0


From 53b0dd6935da76e3bc26072f9279beb75608d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 07/78] fix: write trace buffer chunks in the order they were
 recorded

---
 src/services/trace/TraceBufferChunk.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/services/trace/TraceBufferChunk.cpp b/src/services/trace/TraceBufferChunk.cpp
index 6bc5bb0..6ab6d35 100644
--- a/src/services/trace/TraceBufferChunk.cpp
+++ b/src/services/trace/TraceBufferChunk.cpp
@@ -44,6 +44,13 @@ size_t TraceBufferChunk::flush(Caliper* c, SnapshotFlushFn proc_fn)
 {
     size_t written = 0;
 
+    //
+    // flush subsequent buffers in list first: the list starts with the newest chunk
+    //
+
+    if (m_next)
+        written += m_next->flush(c, proc_fn);
+
     //
     // local flush
     //
@@ -66,13 +73,6 @@ size_t TraceBufferChunk::flush(Caliper* c, SnapshotFlushFn proc_fn)
 
     written += m_nrec;
 
-    //
-    // flush subsequent buffers in list
-    //
-
-    if (m_next)
-        written += m_next->flush(c, proc_fn);
-
     return written;
 }
 
-- 
2.43.0


From 35ce7355f786574b04e28a8c607d1b5964bba645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 08/78] fix: trace buffers are at least one MiB

A configured size of 0 let the first snapshot write past the buffer.
---
 src/services/trace/Trace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index e3ac45e..6c5d24b 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -16,6 +16,7 @@
 #include "../../common/util/spinlock.hpp"
 #include "../../common/util/unitfmt.h"
 
+#include <algorithm>
 #include <atomic>
 #include <cstring>
 #include <mutex>
@@ -275,7 +276,7 @@ class Trace
         ConfigSet cfg = services::init_config_from_spec(channel->config(), s_spec);
 
         init_overflow_policy(cfg.get("buffer_policy").to_string());
-        buffersize = cfg.get("buffer_size").to_uint() * 1024 * 1024;
+        buffersize = std::max<size_t>(cfg.get("buffer_size").to_uint(), 1) * 1024 * 1024;
 
         tbuf_attr = c->create_attribute(
             std::string("trace.tbuf.") + std::to_string(channel->id()),
-- 
2.43.0


From 3e9a67b137d863b6d4af7237a4bbdba5d0eea339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 09/78] fix: trace buffer overflow handling and flush/clear
 races

- With the 'flush' policy, the buffer was written out but not reset: the
  next snapshot was written past the end of the full buffer, and its
  contents were written again by the next flush.
- A thread could still be writing into its buffer while another one
  flushed or cleared it.
- Snapshots that hit a full buffer were not reported as dropped, and the
  drop count was not atomic.
---
 src/services/trace/Trace.cpp | 152 ++++++++++++++++++++++++-----------
 1 file changed, 106 insertions(+), 46 deletions(-)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index 6c5d24b..99b008c 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -32,17 +32,33 @@ class Trace
     enum BufferPolicy { Flush, Grow, Stop };
 
     struct TraceBuffer {
-        std::atomic<bool> stopped;
+        //   Held while a snapshot is written, and while the buffer is flushed or
+        // cleared. Writers never wait for it but drop their snapshot.
+        std::atomic<bool> busy;
         std::atomic<bool> retired;
 
+        bool stopped;
+
         TraceBufferChunk* chunks;
         TraceBuffer*      next;
         TraceBuffer*      prev;
 
-        TraceBuffer(size_t s) : stopped(false), retired(false), chunks(new TraceBufferChunk(s)), next(0), prev(0) {}
+        TraceBuffer(size_t s)
+            : busy(false), retired(false), stopped(false), chunks(new TraceBufferChunk(s)), next(0), prev(0)
+        {}
 
         ~TraceBuffer() { delete chunks; }
 
+        bool try_lock() { return !busy.exchange(true, std::memory_order_acquire); }
+
+        void lock()
+        {
+            while (!try_lock())
+                ;
+        }
+
+        void unlock() { busy.store(false, std::memory_order_release); }
+
         void unlink()
         {
             if (next)
@@ -55,7 +71,7 @@ class Trace
     BufferPolicy policy     = BufferPolicy::Grow;
     size_t       buffersize = 2 * 1024 * 1024;
 
-    size_t dropped_snapshots = 0;
+    std::atomic<size_t> dropped_snapshots { 0 };
 
     unsigned num_acquired = 0;
     unsigned num_released = 0;
@@ -66,9 +82,15 @@ class Trace
     TraceBuffer*   tbuf_list = nullptr;
     util::spinlock tbuf_lock;
 
-    std::mutex flush_lock;
+    std::recursive_mutex flush_lock;
 
-    Channel    m_channel;
+    //   Set while a full buffer is being flushed: the thread that does this
+    // holds flush_lock and all buffers starting at overflow_list
+    bool         overflow_flush   = false;
+    bool         overflow_flushed = false;
+    TraceBuffer* overflow_list    = nullptr;
+
+    Channel m_channel;
 
     TraceBuffer* acquire_tbuf(Caliper* c, bool can_alloc)
     {
@@ -96,68 +118,97 @@ class Trace
         return tbuf;
     }
 
-    TraceBuffer* handle_overflow(Caliper* c, TraceBuffer* tbuf)
+    TraceBuffer* get_tbuf_list()
+    {
+        std::lock_guard<util::spinlock> g(tbuf_lock);
+        return tbuf_list;
+    }
+
+    // Write out and reset all trace buffers. Leaves only tbuf locked.
+    void flush_full_buffer(Caliper* c, TraceBuffer* tbuf, SnapshotView rec)
+    {
+        //   Let a flush that is already in progress continue with our buffer. It might
+        // be empty afterwards.
+        tbuf->unlock();
+
+        std::lock_guard<std::recursive_mutex> g(flush_lock);
+
+        tbuf->lock();
+
+        if (tbuf->chunks->fits(rec))
+            return;
+
+        Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, flushing.\n";
+
+        overflow_list    = get_tbuf_list();
+        overflow_flush   = true;
+        overflow_flushed = false;
+
+        for (TraceBuffer* t = overflow_list; t; t = t->next)
+            if (t != tbuf)
+                t->lock();
+
+        c->flush_and_write(m_channel.body(), SnapshotView());
+
+        for (TraceBuffer* t = overflow_list; t; t = t->next) {
+            if (overflow_flushed)
+                t->chunks->reset();
+            if (t != tbuf)
+                t->unlock();
+        }
+
+        overflow_flush = false;
+    }
+
+    // Make room for rec in the given (locked) trace buffer
+    bool handle_overflow(Caliper* c, TraceBuffer* tbuf, SnapshotView rec)
     {
         switch (policy) {
         case BufferPolicy::Stop:
-            tbuf->stopped.store(true);
+            tbuf->stopped = true;
             Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, recording stopped!\n";
-            return 0;
+            break;
 
         case BufferPolicy::Grow:
             {
                 TraceBufferChunk* newchunk = new TraceBufferChunk(buffersize);
 
-                if (!newchunk) {
-                    Log(0).stream() << m_channel.name() << ": trace: Unable to allocate new trace buffer, recording stopped!\n";
-                    tbuf->stopped.store(true);
-                    return 0;
-                }
-
                 newchunk->append(tbuf->chunks);
                 tbuf->chunks = newchunk;
-
-                return tbuf;
             }
+            break;
 
         case BufferPolicy::Flush:
-            {
-                Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, flushing.\n";
-                c->flush_and_write(m_channel.body(), SnapshotView());
-                return tbuf;
-            }
+            if (!c->is_signal())
+                flush_full_buffer(c, tbuf, rec);
+            break;
 
         } // switch (policy)
 
-        return 0;
+        return tbuf->chunks->fits(rec);
     }
 
     void process_snapshot_cb(Caliper* c, SnapshotView rec)
     {
         TraceBuffer* tbuf = acquire_tbuf(c, !c->is_signal());
 
-        if (!tbuf || tbuf->stopped.load()) {
+        if (!tbuf || !tbuf->try_lock()) {
             ++dropped_snapshots;
             return;
         }
 
-        if (!tbuf->chunks->fits(rec))
-            tbuf = handle_overflow(c, tbuf);
-        if (!tbuf)
-            return;
+        if (!tbuf->stopped && (tbuf->chunks->fits(rec) || handle_overflow(c, tbuf, rec)))
+            tbuf->chunks->save_snapshot(rec);
+        else
+            ++dropped_snapshots;
 
-        tbuf->chunks->save_snapshot(rec);
+        tbuf->unlock();
     }
 
     void flush_cb(Caliper* c, SnapshotFlushFn proc_fn)
     {
-        std::lock_guard<std::mutex> g(flush_lock);
-        TraceBuffer* tbuf = nullptr;
-
-        {
-            std::lock_guard<util::spinlock> g(tbuf_lock);
-            tbuf = tbuf_list;
-        }
+        std::lock_guard<std::recursive_mutex> g(flush_lock);
+        TraceBuffer* tbuf = overflow_flush ? overflow_list : get_tbuf_list();
 
         size_t num_written = 0;
 
@@ -165,28 +216,36 @@ class Trace
             // Stop tracing while we flush: writers won't block
             // but just drop the snapshot
 
-            tbuf->stopped.store(true);
+            if (!overflow_flush)
+                tbuf->lock();
+
             num_written += tbuf->chunks->flush(c, proc_fn);
-            tbuf->stopped.store(false);
+
+            if (!overflow_flush)
+                tbuf->unlock();
         }
 
+        overflow_flushed = true;
+
         Log(1).stream() << m_channel.name() << ": trace: Flushed " << num_written << " snapshots.\n";
     }
 
     void clear_cb(Caliper* c, Channel* chn)
     {
-        std::lock_guard<std::mutex> g(flush_lock);
-        TraceBuffer* tbuf = nullptr;
+        std::lock_guard<std::recursive_mutex> g(flush_lock);
 
-        {
-            std::lock_guard<util::spinlock> g(tbuf_lock);
-            tbuf = tbuf_list;
-        }
+        if (overflow_flush)
+            return; // the buffers will be reset anyway
+
+        TraceBuffer* tbuf = get_tbuf_list();
 
         TraceBufferChunk::UsageInfo aggregate_info { 0, 0, 0 };
 
         while (tbuf) {
-            tbuf->stopped.store(true);
+            // A retired thread can no longer write: check before the buffer is reset
+            const bool retired = tbuf->retired.load();
+
+            tbuf->lock();
 
             // Accumulate usage statistics before they're reset
             TraceBufferChunk::UsageInfo info = tbuf->chunks->info();
@@ -196,10 +255,11 @@ class Trace
             aggregate_info.used += info.used;
 
             tbuf->chunks->reset();
+            tbuf->stopped = false;
 
-            tbuf->stopped.store(false);
+            tbuf->unlock();
 
-            if (tbuf->retired.load()) {
+            if (retired) {
                 // delete retired thread's trace buffer
                 TraceBuffer* tmp = tbuf->next;
 
-- 
2.43.0


From 7ae53e662f25297290ca8aaad089185844f432a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 10/78] fix: don't flush or clear aggregation data while it is
 being updated

A thread could still be processing a snapshot when another one flushed or
cleared its aggregation DB, and clearing (which deletes the data of exited
threads) could run at the same time as a flush. The drop count was not
atomic.
---
 src/services/aggregate/Aggregate.cpp | 44 ++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/services/aggregate/Aggregate.cpp b/src/services/aggregate/Aggregate.cpp
index a38cb7c..af8c6c2 100644
--- a/src/services/aggregate/Aggregate.cpp
+++ b/src/services/aggregate/Aggregate.cpp
@@ -47,7 +47,9 @@ class Aggregate
         // --- members
         //
 
-        std::atomic<bool> stopped;
+        //   Held while a snapshot is processed, and while the DB is flushed or
+        // cleared. Threads taking a snapshot never wait for it but drop the snapshot.
+        std::atomic<bool> busy;
         std::atomic<bool> retired;
 
         ThreadDB* next = nullptr;
@@ -63,7 +65,17 @@ class Aggregate
                 prev->next = next;
         }
 
-        ThreadDB(Caliper* c) : stopped(false), retired(false), db(c) {}
+        bool try_lock() { return !busy.exchange(true, std::memory_order_acquire); }
+
+        void lock()
+        {
+            while (!try_lock())
+                ;
+        }
+
+        void unlock() { busy.store(false, std::memory_order_release); }
+
+        ThreadDB(Caliper* c) : busy(false), retired(false), db(c) {}
     };
 
     std::string m_channel_name;
@@ -71,6 +83,8 @@ class Aggregate
     ThreadDB*      m_tdb_list = nullptr;
     util::spinlock m_tdb_lock;
 
+    std::mutex m_flush_lock;
+
     //   The attribute info can change while other threads are processing
     // snapshots. They use the current version, which is never modified:
     // updates create a new one.
@@ -82,7 +96,7 @@ class Aggregate
 
     Attribute m_tdb_attr;
 
-    size_t m_num_dropped_snapshots;
+    std::atomic<size_t> m_num_dropped_snapshots;
 
     inline ThreadDB* acquire_tdb(Caliper* c, bool can_alloc)
     {
@@ -188,7 +202,8 @@ class Aggregate
 
     void flush_cb(Caliper* c, SnapshotFlushFn proc_fn)
     {
-        ThreadDB* tdb = nullptr;
+        std::lock_guard<std::mutex> g(m_flush_lock);
+        ThreadDB*                   tdb = nullptr;
 
         {
             std::lock_guard<util::spinlock> g(m_tdb_lock);
@@ -198,9 +213,9 @@ class Aggregate
         size_t num_written = 0;
 
         for (; tdb; tdb = tdb->next) {
-            tdb->stopped.store(true);
+            tdb->lock();
             num_written += tdb->db.flush(*m_attr_info.load(), c, proc_fn);
-            tdb->stopped.store(false);
+            tdb->unlock();
         }
 
         Log(1).stream() << m_channel_name << ": Aggregate: flushed " << num_written << " snapshots." << std::endl;
@@ -208,7 +223,8 @@ class Aggregate
 
     void clear_cb(Caliper* c, Channel* chn)
     {
-        ThreadDB* tdb = nullptr;
+        std::lock_guard<std::mutex> g(m_flush_lock);
+        ThreadDB*                   tdb = nullptr;
 
         {
             std::lock_guard<util::spinlock> g(m_tdb_lock);
@@ -222,7 +238,10 @@ class Aggregate
         size_t max_hash_len   = 0;
 
         while (tdb) {
-            tdb->stopped.store(true);
+            // A retired thread takes no more snapshots: check before the DB is cleared
+            const bool retired = tdb->retired.load();
+
+            tdb->lock();
 
             num_entries += tdb->db.num_entries();
             num_kernels += tdb->db.num_kernels();
@@ -231,9 +250,9 @@ class Aggregate
             max_hash_len = std::max(max_hash_len, tdb->db.max_hash_len());
             tdb->db.clear();
 
-            tdb->stopped.store(false);
+            tdb->unlock();
 
-            if (tdb->retired) {
+            if (retired) {
                 ThreadDB* tmp = tdb->next;
 
                 {
@@ -269,9 +288,10 @@ class Aggregate
     {
         ThreadDB* tdb = acquire_tdb(c, !c->is_signal());
 
-        if (tdb && !tdb->stopped.load())
+        if (tdb && tdb->try_lock()) {
             tdb->db.process_snapshot(c, rec, *m_attr_info.load());
-        else
+            tdb->unlock();
+        } else
             ++m_num_dropped_snapshots;
     }
 
-- 
2.43.0


From 63f32554a7f0df9383a84d75182af673bbcff82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 11/78] fix: keep the skipped-records key when clearing an
 aggregation DB

---
 src/services/aggregate/AggregationDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index f14aa9f..fd8bcb8 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -133,7 +133,7 @@ void AggregationDB::clear()
     m_hashmap.assign(m_hashmap.size(), 0);
     m_entries.resize(1);
     m_kernels.resize(0);
-    m_keyents.resize(0);
+    m_keyents.resize(1); // keep the key of the first entry (skipped records)
 
     m_entries[0].count = 0;
 }
-- 
2.43.0


From e268fa379754845220ae607e91bb55927768a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 12/78] fix: sampler timers, signals and channel deletion

- Timers of threads other than the one deleting the channel were never
  deleted, and a timer was leaked when it could not be started.
- A signal handler running on another thread could use the channel while
  or after it was deleted.
- Samples were recorded in deactivated channels.
- The sample counters were not atomic.
---
 src/services/sampler/Sampler.cpp | 71 ++++++++++++++++++++++++++++----
 1 file changed, 64 insertions(+), 7 deletions(-)

diff --git a/src/services/sampler/Sampler.cpp b/src/services/sampler/Sampler.cpp
index 976bcae..4fa3531 100644
--- a/src/services/sampler/Sampler.cpp
+++ b/src/services/sampler/Sampler.cpp
@@ -11,8 +11,12 @@
 
 #include "caliper/common/Log.h"
 
+#include <algorithm>
+#include <atomic>
 #include <cstdlib>
 #include <cstring>
+#include <mutex>
+#include <vector>
 #include <signal.h>
 #include <time.h>
 #include <sys/time.h>
@@ -41,11 +45,16 @@ Attribute ucursor_attr;
 
 int nsec_interval = 0;
 
-int n_samples           = 0;
-int n_processed_samples = 0;
+std::atomic<int> n_samples { 0 };
+std::atomic<int> n_processed_samples { 0 };
 
 Channel channel;
 
+//   Signals can still arrive on other threads while the sampling channel
+// is being deleted
+std::atomic<bool> sampling { false };
+std::atomic<int>  num_active_handlers { 0 };
+
 const char* spec = R"json(
 {
 "name": "sampler",
@@ -61,13 +70,13 @@ const char* spec = R"json(
 ]}
 )json";
 
-void on_prof(int sig, siginfo_t* info, void* context)
+void take_sample(void* context)
 {
     ++n_samples;
 
     Caliper c = Caliper::sigsafe_instance();
 
-    if (!c)
+    if (!c || !channel.is_active())
         return;
 
     Entry    data[2];
@@ -97,6 +106,16 @@ void on_prof(int sig, siginfo_t* info, void* context)
     ++n_processed_samples;
 }
 
+void on_prof(int sig, siginfo_t* info, void* context)
+{
+    ++num_active_handlers;
+
+    if (sampling.load())
+        take_sample(context);
+
+    --num_active_handlers;
+}
+
 void setup_signal()
 {
     sigset_t sigset;
@@ -124,6 +143,9 @@ struct TimerWrap {
     timer_t timer;
 };
 
+std::vector<TimerWrap*> timers;
+std::mutex              timers_lock;
+
 void setup_settimer(Caliper* c)
 {
     struct sigevent sev;
@@ -138,6 +160,7 @@ void setup_settimer(Caliper* c)
 
     if (timer_create(CLOCK_MONOTONIC, &sev, &twrap->timer) == -1) {
         Log(0).stream() << "sampler: timer_create() failed" << std::endl;
+        delete twrap;
         return;
     }
 
@@ -150,12 +173,19 @@ void setup_settimer(Caliper* c)
 
     if (timer_settime(twrap->timer, 0, &spec, NULL) == -1) {
         Log(0).stream() << "Sampler: timer_settime() failed" << std::endl;
+        timer_delete(twrap->timer);
+        delete twrap;
         return;
     }
 
     Variant v_timer(cali_make_variant_from_ptr(twrap));
     c->set(timer_attr, v_timer);
 
+    {
+        std::lock_guard<std::mutex> g(timers_lock);
+        timers.push_back(twrap);
+    }
+
     Log(2).stream() << "Sampler: Registered timer " << v_timer << std::endl;
 }
 
@@ -175,8 +205,29 @@ void clear_timer(Caliper* c, Channel* chn)
 
     Log(2).stream() << chn->name() << ": Sampler: Deleting timer " << e.value() << std::endl;
 
-    timer_delete(twrap->timer);
-    delete twrap;
+    std::lock_guard<std::mutex> g(timers_lock);
+
+    auto it = std::find(timers.begin(), timers.end(), twrap);
+
+    if (it != timers.end()) {
+        timers.erase(it);
+        timer_delete(twrap->timer);
+        delete twrap;
+    }
+}
+
+void clear_all_timers(Channel* chn)
+{
+    std::lock_guard<std::mutex> g(timers_lock);
+
+    Log(2).stream() << chn->name() << ": Sampler: Deleting " << timers.size() << " timers\n";
+
+    for (TimerWrap* twrap : timers) {
+        timer_delete(twrap->timer);
+        delete twrap;
+    }
+
+    timers.clear();
 }
 
 void create_thread_cb(Caliper* c, Channel* chn)
@@ -191,8 +242,13 @@ void release_thread_cb(Caliper* c, Channel* chn)
 
 void pre_finish_cb(Caliper* c, Channel* chn)
 {
-    clear_timer(c, chn);
+    clear_all_timers(chn);
     clear_signal();
+
+    // wait for signal handlers that are still running on other threads
+    sampling.store(false);
+    while (num_active_handlers.load() > 0)
+        ;
 }
 
 void finish_cb(Caliper* c, Channel* chn)
@@ -252,6 +308,7 @@ void sampler_register(Caliper* c, Channel* chn)
     chn->events().finish_evt.connect(finish_cb);
 
     channel = *chn;
+    sampling.store(true);
 
     setup_signal();
     setup_settimer(c);
-- 
2.43.0


From e5cab41c316fd255e48d102507b97347031f9904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 13/78] fix: don't use the memory allocator when a trace buffer
 grows in a signal handler

---
 src/services/trace/Trace.cpp            | 12 ++++---
 src/services/trace/TraceBufferChunk.cpp | 42 ++++++++++++++++++++++---
 src/services/trace/TraceBufferChunk.h   | 14 +++++++--
 3 files changed, 56 insertions(+), 12 deletions(-)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index 99b008c..0559f94 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -44,10 +44,10 @@ class Trace
         TraceBuffer*      prev;
 
         TraceBuffer(size_t s)
-            : busy(false), retired(false), stopped(false), chunks(new TraceBufferChunk(s)), next(0), prev(0)
+            : busy(false), retired(false), stopped(false), chunks(TraceBufferChunk::create(s, false)), next(0), prev(0)
         {}
 
-        ~TraceBuffer() { delete chunks; }
+        ~TraceBuffer() { TraceBufferChunk::destroy(chunks); }
 
         bool try_lock() { return !busy.exchange(true, std::memory_order_acquire); }
 
@@ -166,12 +166,16 @@ class Trace
         switch (policy) {
         case BufferPolicy::Stop:
             tbuf->stopped = true;
-            Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, recording stopped!\n";
+            if (!c->is_signal())
+                Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, recording stopped!\n";
             break;
 
         case BufferPolicy::Grow:
             {
-                TraceBufferChunk* newchunk = new TraceBufferChunk(buffersize);
+                TraceBufferChunk* newchunk = TraceBufferChunk::create(buffersize, c->is_signal());
+
+                if (!newchunk)
+                    break;
 
                 newchunk->append(tbuf->chunks);
                 tbuf->chunks = newchunk;
diff --git a/src/services/trace/TraceBufferChunk.cpp b/src/services/trace/TraceBufferChunk.cpp
index 6ab6d35..d9c2a93 100644
--- a/src/services/trace/TraceBufferChunk.cpp
+++ b/src/services/trace/TraceBufferChunk.cpp
@@ -10,15 +10,47 @@
 
 #include "../../common/util/vlenc.h"
 
+#if defined(__unix__) || defined(__APPLE__)
+#include <sys/mman.h>
+#define CALIPER_TRACE_HAVE_MMAP
+#endif
+
+#include <new>
+
 using namespace trace;
 using namespace cali;
 
-TraceBufferChunk::~TraceBufferChunk()
+TraceBufferChunk* TraceBufferChunk::create(size_t s, bool in_signal_handler)
 {
-    delete[] m_data;
+    if (!in_signal_handler)
+        return new TraceBufferChunk(s, new unsigned char[s], false);
 
-    if (m_next)
-        delete m_next;
+#ifdef CALIPER_TRACE_HAVE_MMAP
+    void* p = mmap(nullptr, sizeof(TraceBufferChunk) + s, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
+
+    if (p != MAP_FAILED)
+        return new (p) TraceBufferChunk(s, static_cast<unsigned char*>(p) + sizeof(TraceBufferChunk), true);
+#endif
+
+    return nullptr;
+}
+
+void TraceBufferChunk::destroy(TraceBufferChunk* chunk)
+{
+    while (chunk) {
+        TraceBufferChunk* next = chunk->m_next;
+
+        if (!chunk->m_mapped) {
+            delete[] chunk->m_data;
+            delete chunk;
+        }
+#ifdef CALIPER_TRACE_HAVE_MMAP
+        else
+            munmap(chunk, sizeof(TraceBufferChunk) + chunk->m_size);
+#endif
+
+        chunk = next;
+    }
 }
 
 void TraceBufferChunk::append(TraceBufferChunk* chunk)
@@ -36,7 +68,7 @@ void TraceBufferChunk::reset()
 
     memset(m_data, 0, m_size);
 
-    delete m_next;
+    destroy(m_next);
     m_next = 0;
 }
 
diff --git a/src/services/trace/TraceBufferChunk.h b/src/services/trace/TraceBufferChunk.h
index 1fefae8..4ee0489 100644
--- a/src/services/trace/TraceBufferChunk.h
+++ b/src/services/trace/TraceBufferChunk.h
@@ -17,14 +17,22 @@ class TraceBufferChunk
     size_t m_nrec;
 
     unsigned char* m_data;
+    bool           m_mapped; // created in a signal handler
 
     TraceBufferChunk* m_next;
 
-public:
+    TraceBufferChunk(size_t s, unsigned char* data, bool mapped)
+        : m_size(s), m_pos(0), m_nrec(0), m_data(data), m_mapped(mapped), m_next(0)
+    {}
+
+    ~TraceBufferChunk() {}
 
-    TraceBufferChunk(size_t s) : m_size(s), m_pos(0), m_nrec(0), m_data(new unsigned char[s]), m_next(0) {}
+public:
 
-    ~TraceBufferChunk();
+    // Does not use the memory allocator when called in a signal handler. May return null then.
+    static TraceBufferChunk* create(size_t s, bool in_signal_handler);
+    // Delete a chunk and its successors
+    static void destroy(TraceBufferChunk* chunk);
 
     void append(TraceBufferChunk* chunk);
     void reset();
-- 
2.43.0


From 1449b55fa3abe3aeefa73d48616ef6fb81c11e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 14/78] fix: don't use thread data of trace and aggregate after
 it has been retired

---
 src/services/aggregate/Aggregate.cpp | 5 ++++-
 src/services/trace/Trace.cpp         | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/services/aggregate/Aggregate.cpp b/src/services/aggregate/Aggregate.cpp
index af8c6c2..da22fd1 100644
--- a/src/services/aggregate/Aggregate.cpp
+++ b/src/services/aggregate/Aggregate.cpp
@@ -340,8 +340,11 @@ class Aggregate
     {
         ThreadDB* tdb = acquire_tdb(c, false);
 
-        if (tdb)
+        if (tdb) {
+            // the DB can be deleted any time after it's retired
+            c->set(m_tdb_attr, Variant(cali_make_variant_from_ptr(nullptr)));
             tdb->retired.store(true);
+        }
     }
 
     void finish_cb(Caliper* c, Channel* chn)
diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index 0559f94..3127d93 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -320,6 +320,8 @@ class Trace
         TraceBuffer* tbuf = acquire_tbuf(c, false);
 
         if (tbuf) {
+            // the buffer can be deleted any time after it's retired
+            c->set(tbuf_attr, Variant(cali_make_variant_from_ptr(nullptr)));
             tbuf->retired.store(true);
             std::lock_guard<util::spinlock> g(tbuf_lock);
             ++num_retired;
-- 
2.43.0


From 70ddb960d9a1d5995e583ddbfc24ce693e64a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 15/78] fix: initialize and finalize once, and keep channels
 valid for running threads

---
 src/caliper/Caliper.cpp | 395 ++++++++++++++++++++++++++++------------
 1 file changed, 276 insertions(+), 119 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index a2275f1..6817910 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -22,6 +22,12 @@
 
 #include <signal.h>
 
+#ifdef __linux__
+#include <sys/syscall.h>
+#include <unistd.h>
+#endif
+
+#include <algorithm>
 #include <atomic>
 #include <cassert>
 #include <chrono>
@@ -31,6 +37,7 @@
 #include <map>
 #include <memory>
 #include <mutex>
+#include <thread>
 #include <vector>
 
 #define SNAP_MAX 120
@@ -66,18 +73,22 @@ namespace
 
 // --- Siglock
 
+//   Set while a thread is inside of Caliper. Only modified by its own thread (and
+// signal handlers running on it), but other threads may check it to find out if
+// this thread can still be using a channel (see GlobalData::wait_for_threads()).
 class siglock
 {
-    volatile sig_atomic_t m_lock;
+    std::atomic<int> m_lock;
 
 public:
 
     siglock() : m_lock(0) {}
 
-    inline void lock() { ++m_lock; }
-    inline void unlock() { --m_lock; }
+    // Entering must be visible to others before the thread reads any shared data
+    inline void lock() { m_lock.store(m_lock.load(std::memory_order_relaxed) + 1); }
+    inline void unlock() { m_lock.store(m_lock.load(std::memory_order_relaxed) - 1, std::memory_order_release); }
 
-    inline bool is_locked() const { return (m_lock > 0); }
+    inline bool is_locked() const { return (m_lock.load() > 0); }
 };
 
 // --- helper functions
@@ -163,7 +174,10 @@ struct cali::ChannelBody {
 
     cali_id_t   id;
     std::string name;
-    bool        is_active;
+
+    std::atomic<bool> is_active;
+    std::atomic<bool> is_deleting; ///< delete_channel() has been called
+    std::atomic<bool> is_deleted;  ///< services are going away: do not invoke callbacks
 
     RuntimeConfig   config;
     Channel::Events events; ///< callbacks
@@ -174,7 +188,7 @@ struct cali::ChannelBody {
     std::mutex channel_blackboard_lock;
 
     ChannelBody(cali_id_t _id, const char* _name, const RuntimeConfig& cfg)
-        : id(_id), name(_name), is_active(false), config(cfg)
+        : id(_id), name(_name), is_active(false), is_deleting(false), is_deleted(false), config(cfg)
     {
         ConfigSet cali_cfg = config.init("channel", s_configdata);
         flush_on_exit = cali_cfg.get("flush_on_exit").to_bool();
@@ -252,12 +266,18 @@ struct Caliper::ThreadData {
     // version of the last process blackboard snapshot
     int process_bb_count;
 
-    bool is_initial_thread;
+    bool is_main_thread;
+    bool is_released; ///< the thread has ended
     bool stack_error;
 
     ThreadData(bool initial_thread = false)
-        : process_bb_count(-1), is_initial_thread(initial_thread), stack_error(false)
-    {}
+        : process_bb_count(-1), is_main_thread(initial_thread), is_released(false), stack_error(false)
+    {
+#ifdef __linux__
+        //   The main thread isn't necessarily the first one to use Caliper
+        is_main_thread = (getpid() == static_cast<pid_t>(syscall(SYS_gettid)));
+#endif
+    }
 
     ~ThreadData()
     {
@@ -297,8 +317,9 @@ struct Caliper::ThreadData {
 struct Caliper::GlobalData {
     // --- static data
 
-    static volatile sig_atomic_t s_init_lock;
-    static std::mutex            s_init_mutex;
+    // 1: not initialized, 0: active, 2: finalized
+    static std::atomic<int> s_init_lock;
+    static std::mutex       s_init_mutex;
 
     static const ConfigSet::Entry s_configdata[];
 
@@ -314,17 +335,31 @@ struct Caliper::GlobalData {
     Blackboard process_blackboard;
     std::mutex process_blackboard_lock;
 
-    std::vector<Channel> all_channels;
-    std::vector<Channel> active_channels;
+    //   Threads traverse the current list, with their siglock held, while it may
+    // be replaced with a new one by another thread.
+    typedef std::vector<Channel> ChannelList;
+
+    std::atomic<ChannelList*>                 all_channels;
+    std::atomic<ChannelList*>                 active_channels;
+    std::vector<std::unique_ptr<ChannelList>> retired_channel_lists;
+    std::mutex                                channel_lists_lock;
 
     size_t max_active_channels;
 
+    std::recursive_mutex finalize_lock;
+    bool                 finalize_started;
+
     std::vector<ThreadData*> thread_data;
     std::mutex               thread_data_lock;
 
     // --- constructor
 
-    GlobalData(ThreadData* sT) : attribute_default_scope { CALI_ATTR_SCOPE_THREAD }, max_active_channels { 0 }
+    GlobalData(ThreadData* sT)
+        : attribute_default_scope { CALI_ATTR_SCOPE_THREAD },
+          all_channels { new ChannelList },
+          active_channels { new ChannelList },
+          max_active_channels { 0 },
+          finalize_started { false }
     {
         // put the attribute [name,type,prop] attributes in the map
 
@@ -337,8 +372,13 @@ struct Caliper::GlobalData {
         attribute_map.insert(make_pair(type_attr.name(), type_attr));
     }
 
-    ~GlobalData()
+    //   Marks Caliper as finalized. The global and thread data is not deleted:
+    // other threads, thread-local and static objects may still be using Caliper.
+    void shutdown()
     {
+        if (s_init_lock == 2)
+            return;
+
         // prevent re-initialization
         s_init_lock = 2;
 
@@ -346,21 +386,76 @@ struct Caliper::GlobalData {
             Log(2).stream() << "Releasing Caliper global data.\n"
                             << "  Max active channels: " << max_active_channels << std::endl;
             process_blackboard.print_statistics(Log(2).stream() << "Process blackboard: ") << std::endl;
+
+            std::lock_guard<std::mutex> g(thread_data_lock);
+
+            for (ThreadData* d : thread_data)
+                d->print_detailed_stats(Log(2).stream());
         }
 
+        Log(1).stream() << "Finished" << std::endl;
+    }
+
+    //   Waits until all threads that are currently inside of Caliper have left it.
+    // Gives up eventually, in case a thread is stuck there.
+    void wait_for_threads(const ThreadData* self)
+    {
+        std::vector<ThreadData*> threads;
+
         {
             std::lock_guard<std::mutex> g(thread_data_lock);
+            threads = thread_data;
+        }
+
+        const auto timeout = std::chrono::steady_clock::now() + std::chrono::seconds(5);
+
+        for (const ThreadData* d : threads)
+            for (int n = 0; d != self && d->lock.is_locked(); ++n) {
+                if (n < 100)
+                    std::this_thread::yield();
+                else if (std::chrono::steady_clock::now() < timeout)
+                    std::this_thread::sleep_for(std::chrono::microseconds(100));
+                else
+                    break;
+            }
+    }
 
-            std::for_each(thread_data.begin(), thread_data.end(), [](ThreadData* d) { delete d; });
-            thread_data.clear();
+    //   Replaces a channel list with a modified copy.
+    template <class Fn>
+    void update_channel_list(std::atomic<ChannelList*>& list, Fn fn)
+    {
+        {
+            std::lock_guard<std::mutex> g(channel_lists_lock);
+
+            std::unique_ptr<ChannelList> new_list(new ChannelList(*list.load()));
+            fn(*new_list);
+            retired_channel_lists.emplace_back(list.exchange(new_list.release()));
         }
 
-        gObj.g_ptr = nullptr;
+        clear_retired_channel_lists();
+    }
 
-        MetadataTree::release();
+    //   Deletes replaced channel lists, unless some thread might still be using them.
+    void clear_retired_channel_lists()
+    {
+        std::vector<std::unique_ptr<ChannelList>> unused;
 
-        Log(1).stream() << "Finished" << std::endl;
-        Log::fini();
+        std::lock_guard<std::mutex> g(channel_lists_lock);
+        std::lock_guard<std::mutex> gt(thread_data_lock);
+
+        if (std::none_of(thread_data.begin(), thread_data.end(), [](ThreadData* d) { return d->lock.is_locked(); }))
+            unused.swap(retired_channel_lists);
+    }
+
+    static void add_channel(ChannelList& list, const Channel& channel)
+    {
+        if (std::find(list.begin(), list.end(), channel) == list.end())
+            list.push_back(channel);
+    }
+
+    static void remove_channel(ChannelList& list, const Channel& channel)
+    {
+        list.erase(std::remove(list.begin(), list.end(), channel), list.end());
     }
 
     void parse_attribute_config(const ConfigSet& config)
@@ -397,7 +492,7 @@ struct Caliper::GlobalData {
         if (Log::verbosity() >= 2)
             print_available_services(Log(2).stream() << "Available services: ") << std::endl;
 
-        Caliper c(this, tObj.t_ptr, false);
+        Caliper c(this, t_ptr, false);
 
         init_attribute_classes(&c);
         init_api_attributes(&c);
@@ -412,7 +507,8 @@ struct Caliper::GlobalData {
 
     ThreadData* add_thread_data(ThreadData* t)
     {
-        tObj.t_ptr = t;
+        t_ptr = t;
+        tObj.is_used = true; // make sure its destructor runs
 
         std::lock_guard<std::mutex> g(thread_data_lock);
 
@@ -420,59 +516,54 @@ struct Caliper::GlobalData {
         return t;
     }
 
-    //   S_TLSObject uses C++ thread-local storage to hold a pointer to the
-    // thread-local data. This is for lookup only, GlobalData owns all
-    // ThreadData objects. The object also notifies us of thread destruction
-    // via its destructor.
-    //   In addition, the destructor for the initial thread object serves as
+    //   g_ptr and t_ptr point to the global and thread-local data. They are for
+    // lookup only, GlobalData owns all ThreadData objects. They remain
+    // accessible when threads end and static objects are destroyed.
+    static GlobalData*              g_ptr;
+    static thread_local ThreadData* t_ptr;
+
+    //   S_TLSObject notifies us of thread destruction via its destructor.
+    //   In addition, the destructor for the main thread object serves as
     // finalization trigger on program exit, together with S_GObject below.
     // The destruction order for thread-local and regular static objects is
     // undefined, so whoever is destroyed first triggers finalization.
     struct S_TLSObject {
-        ThreadData* t_ptr;
+        bool is_used;
 
-        S_TLSObject() : t_ptr(nullptr) {}
+        constexpr S_TLSObject() : is_used(false) {}
 
         ~S_TLSObject()
         {
             // Only use if we're still active
             if (t_ptr && s_init_lock == 0) {
-                Caliper c(gObj.g_ptr, t_ptr, false);
+                Caliper c(g_ptr, t_ptr, false);
 
-                if (t_ptr->is_initial_thread) {
+                if (t_ptr->is_main_thread) {
                     c.finalize();
-                    delete gObj.g_ptr;
+                    g_ptr->shutdown();
                 } else {
                     c.release_thread();
                 }
             }
-
-            t_ptr = nullptr;
         }
     };
 
-    //   S_GObject holds a pointer to our global data. Also, its destructor
-    // serves as finalization trigger, together with S_TLSObject above.
+    //   S_GObject's destructor serves as finalization trigger, together with
+    // S_TLSObject above.
     struct S_GObject {
-        GlobalData* g_ptr;
-
-        // No constructor: Could overwrite existing Caliper object if Caliper
-        // is initialized somewhere before this static constructor runs.
-        // S_GObject()
-        //     : g_ptr(nullptr)
-        //     { }
-
         ~S_GObject()
         {
             // Only use if we're still active
             if (g_ptr && s_init_lock == 0) {
-                Caliper c(g_ptr, tObj.t_ptr, false);
+                // The exiting thread may not have used Caliper, or has already been released
+                if (!t_ptr || t_ptr->is_released)
+                    g_ptr->add_thread_data(new ThreadData(false));
+
+                Caliper c(g_ptr, t_ptr, false);
 
                 c.finalize();
-                delete g_ptr;
+                g_ptr->shutdown();
             }
-
-            g_ptr = nullptr;
         }
     };
 
@@ -482,8 +573,11 @@ struct Caliper::GlobalData {
 
 // --- static member initialization
 
-volatile sig_atomic_t Caliper::GlobalData::s_init_lock = 1;
-std::mutex            Caliper::GlobalData::s_init_mutex;
+std::atomic<int> Caliper::GlobalData::s_init_lock { 1 };
+std::mutex       Caliper::GlobalData::s_init_mutex;
+
+Caliper::GlobalData*              Caliper::GlobalData::g_ptr = nullptr;
+thread_local Caliper::ThreadData* Caliper::GlobalData::t_ptr = nullptr;
 
 Caliper::GlobalData::S_GObject                Caliper::GlobalData::gObj;
 thread_local Caliper::GlobalData::S_TLSObject Caliper::GlobalData::tObj;
@@ -743,7 +837,7 @@ Attribute Caliper::create_attribute(
 
     Attribute attr = Attribute::make_attribute(node);
 
-    for (auto& channel : sG->all_channels)
+    for (auto& channel : *sG->all_channels.load())
         channel.mP->events.create_attr_evt(this, attr);
 
     {
@@ -799,14 +893,18 @@ void Caliper::memory_region_begin(
     const Variant*   extra_vals
 )
 {
-    for (auto& channel : sG->active_channels)
+    std::lock_guard<::siglock> g(sT->lock);
+
+    for (auto& channel : *sG->active_channels.load())
         memory_region_begin(channel.body(), ptr, label, elem_size, ndim, dims, nextra, extra_attrs, extra_vals);
 }
 
 /// Dispatch memory region annotation end across all active channels
 void Caliper::memory_region_end(const void* ptr)
 {
-    for (auto& channel : sG->active_channels)
+    std::lock_guard<::siglock> g(sT->lock);
+
+    for (auto& channel : *sG->active_channels.load())
         memory_region_end(channel.body(), ptr);
 }
 
@@ -851,6 +949,9 @@ void Caliper::pull_snapshot(ChannelBody* chB, SnapshotView trigger_info, Snapsho
 {
     std::lock_guard<::siglock> g(sT->lock);
 
+    if (chB->is_deleted || sT->is_released)
+        return;
+
     rec.append(trigger_info);
     chB->events.snapshot(this, trigger_info, rec);
 
@@ -863,6 +964,9 @@ void Caliper::push_snapshot(ChannelBody* chB, SnapshotView trigger_info)
 {
     std::lock_guard<::siglock> g(sT->lock);
 
+    if (chB->is_deleted || sT->is_released)
+        return;
+
     sT->snapshot.reset();
     SnapshotBuilder& rec = sT->snapshot.builder();
 
@@ -880,6 +984,9 @@ void Caliper::push_snapshot_replace(ChannelBody* chB, SnapshotView trigger_info,
 {
     std::lock_guard<::siglock> g(sT->lock);
 
+    if (chB->is_deleted || sT->is_released)
+        return;
+
     sT->snapshot.reset();
     SnapshotBuilder& rec = sT->snapshot.builder();
 
@@ -899,6 +1006,9 @@ void Caliper::flush(ChannelBody* chB, SnapshotView flush_info, SnapshotFlushFn p
 {
     std::lock_guard<::siglock> g(sT->lock);
 
+    if (chB->is_deleted || sT->is_released)
+        return;
+
     chB->events.pre_flush_evt(this, chB, flush_info);
 
     if (chB->events.postprocess_snapshot.empty()) {
@@ -922,6 +1032,9 @@ void Caliper::flush_and_write(ChannelBody* chB, SnapshotView input_flush_info)
 {
     std::lock_guard<::siglock> g(sT->lock);
 
+    if (chB->is_deleted || sT->is_released)
+        return;
+
     SnapshotRecord flush_info;
     flush_info.builder().append(input_flush_info);
 
@@ -944,6 +1057,9 @@ void Caliper::clear(Channel* chn)
 {
     std::lock_guard<::siglock> g(sT->lock);
 
+    if (chn->mP->is_deleted || sT->is_released)
+        return;
+
     chn->mP->events.clear_evt(this, chn);
 }
 
@@ -963,7 +1079,7 @@ void Caliper::begin(const Attribute& attr, const Variant& data)
 
     // invoke callbacks
     if (run_events) {
-        for (auto& channel : sG->active_channels) {
+        for (auto& channel : *sG->active_channels.load()) {
             ChannelBody* chB = channel.body();
             chB->events.pre_begin_evt(this, chB, attr, data);
         }
@@ -978,7 +1094,7 @@ void Caliper::begin(const Attribute& attr, const Variant& data)
 
     // invoke callbacks
     if (run_events) {
-        for (auto& channel : sG->active_channels) {
+        for (auto& channel : *sG->active_channels.load()) {
             ChannelBody* chB = channel.body();
             chB->events.post_begin_evt(this, chB, attr, data);
         }
@@ -1015,7 +1131,7 @@ void Caliper::end(const Attribute& attr)
 
     // invoke callbacks
     if (run_events) {
-        for (auto& channel : sG->active_channels) {
+        for (auto& channel : *sG->active_channels.load()) {
             ChannelBody* chB = channel.body();
             chB->events.pre_end_evt(this, chB, attr, current.entry.value());
         }
@@ -1060,7 +1176,7 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 
     // invoke callbacks
     if (run_events) {
-        for (auto& channel : sG->active_channels) {
+        for (auto& channel : *sG->active_channels.load()) {
             ChannelBody* chB = channel.body();
             chB->events.pre_end_evt(this, chB, attr, current.entry.value());
         }
@@ -1088,7 +1204,7 @@ void Caliper::set(const Attribute& attr, const Variant& data)
 
     // invoke callbacks
     if (run_events) {
-        for (auto& channel : sG->active_channels) {
+        for (auto& channel : *sG->active_channels.load()) {
             ChannelBody* chB = channel.body();
             chB->events.pre_set_evt(this, chB, attr, data);
         }
@@ -1106,7 +1222,7 @@ void Caliper::async_event(SnapshotView info)
 {
     std::lock_guard<::siglock> g(sT->lock);
 
-    for (auto& channel : sG->active_channels)
+    for (auto& channel : *sG->active_channels.load())
         channel.mP->events.async_event(this, channel.body(), info);
 }
 
@@ -1263,12 +1379,18 @@ void Caliper::memory_region_begin(
 )
 {
     std::lock_guard<::siglock> g(sT->lock);
+
+    if (chB->is_deleted || sT->is_released)
+        return;
     chB->events.track_mem_evt(this, chB, ptr, label, elem_size, ndims, dims, n, extra_attrs, extra_vals);
 }
 
 void Caliper::memory_region_end(ChannelBody* chB, const void* ptr)
 {
     std::lock_guard<::siglock> g(sT->lock);
+
+    if (chB->is_deleted || sT->is_released)
+        return;
     chB->events.untrack_mem_evt(this, chB, ptr);
 }
 
@@ -1344,11 +1466,15 @@ Channel Caliper::create_channel(const char* name, const RuntimeConfig& cfg)
 {
     std::lock_guard<::siglock> g(sT->lock);
 
+    // Channels created now would never be finished
+    if (GlobalData::s_init_lock == 2)
+        return Channel();
+
     Log(1).stream() << "Creating channel " << name << std::endl;
-    static cali_id_t next_id = 0;
+    static std::atomic<cali_id_t> next_id { 0 };
 
     Channel channel(next_id++, name, cfg);
-    sG->all_channels.emplace_back(channel);
+    sG->update_channel_list(sG->all_channels, [&channel](GlobalData::ChannelList& list) { list.push_back(channel); });
 
     // Create and set name & timestamp attributes
 
@@ -1384,52 +1510,76 @@ Channel Caliper::create_channel(const char* name, const RuntimeConfig& cfg)
 
 Channel Caliper::get_channel(cali_id_t id)
 {
-    auto it = std::find_if(sG->all_channels.begin(), sG->all_channels.end(), [id](const Channel& channel) {
-        return id == channel.id();
-    });
+    std::lock_guard<::siglock> g(sT->lock);
+
+    for (auto& channel : *sG->all_channels.load())
+        if (id == channel.id())
+            return channel;
 
-    return it == sG->all_channels.end() ? Channel() : *it;
+    return Channel();
 }
 
 std::vector<Channel> Caliper::get_all_channels()
 {
-    return sG->all_channels;
+    std::lock_guard<::siglock> g(sT->lock);
+
+    return *sG->all_channels.load();
 }
 
-void Caliper::delete_channel(Channel& channel)
+void Caliper::delete_channel(Channel& chn)
 {
-    std::lock_guard<::siglock> g(sT->lock);
+    Channel channel(chn); // callbacks might reset the caller's object
+
+    if (channel.mP->is_deleting.exchange(true))
+        return;
+
+    {
+        std::lock_guard<::siglock> g(sT->lock);
+
+        channel.mP->events.pre_finish_evt(this, &channel);
+
+        Log(1).stream() << "Releasing channel " << channel.name() << std::endl;
+
+        auto remove_fn = [&channel](GlobalData::ChannelList& list) { GlobalData::remove_channel(list, channel); };
+
+        sG->update_channel_list(sG->active_channels, remove_fn);
+        sG->update_channel_list(sG->all_channels, remove_fn);
+
+        channel.mP->is_active  = false;
+        channel.mP->is_deleted = true;
+    }
 
-    channel.mP->events.pre_finish_evt(this, &channel);
+    //   Other threads may still be using this channel, wait for them
+    // before the services are deleted.
+    sG->wait_for_threads(sT);
 
-    Log(1).stream() << "Releasing channel " << channel.name() << std::endl;
+    {
+        std::lock_guard<::siglock> g(sT->lock);
 
-    auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
-    if (it != sG->active_channels.end())
-        sG->active_channels.erase(it);
-    it = std::find(sG->all_channels.begin(), sG->all_channels.end(), channel);
-    if (it != sG->all_channels.end())
-        sG->all_channels.erase(it);
+        channel.mP->events.finish_evt(this, &channel);
+    }
 
-    channel.mP->events.finish_evt(this, &channel);
+    sG->clear_retired_channel_lists();
 }
 
 void Caliper::activate_channel(Channel& channel)
 {
-    channel.mP->is_active = true;
+    if (channel.mP->is_deleting)
+        return;
 
-    auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
-    if (it == sG->active_channels.end())
-        sG->active_channels.emplace_back(channel);
+    channel.mP->is_active = true;
 
-    sG->max_active_channels = std::max(sG->max_active_channels, sG->active_channels.size());
+    sG->update_channel_list(sG->active_channels, [this, &channel](GlobalData::ChannelList& list) {
+        GlobalData::add_channel(list, channel);
+        sG->max_active_channels = std::max(sG->max_active_channels, list.size());
+    });
 }
 
 void Caliper::deactivate_channel(Channel& channel)
 {
-    auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
-    if (it != sG->active_channels.end())
-        sG->active_channels.erase(it);
+    sG->update_channel_list(sG->active_channels, [&channel](GlobalData::ChannelList& list) {
+        GlobalData::remove_channel(list, channel);
+    });
 
     channel.mP->is_active = false;
 }
@@ -1439,21 +1589,35 @@ void Caliper::release_thread()
 {
     std::lock_guard<::siglock> g(sT->lock);
 
-    for (auto& channel : sG->all_channels)
+    for (auto& channel : *sG->all_channels.load())
         channel.mP->events.release_thread_evt(this, &channel);
+
+    // Ignore annotations from thread-local objects that are destroyed after us
+    sT->is_released = true;
+    sT->stack_error = true;
 }
 
 void Caliper::finalize()
 {
-    std::lock_guard<::siglock> g(sT->lock);
+    std::lock_guard<std::recursive_mutex> gf(sG->finalize_lock);
+
+    if (sG->finalize_started)
+        return;
+
+    sG->finalize_started = true;
 
     Log(1).stream() << "Finalizing ... " << std::endl;
 
-    while (!sG->all_channels.empty()) {
-        auto channel = sG->all_channels.front();
-        if (channel.mP->flush_on_exit)
-            flush_and_write(channel.body(), SnapshotView());
-        delete_channel(channel);
+    for (std::vector<Channel> channels = get_all_channels(); !channels.empty(); channels = get_all_channels()) {
+        Channel channel = channels.front();
+
+        if (channel.mP->is_deleting) // by another thread
+            std::this_thread::yield();
+        else {
+            if (channel.mP->flush_on_exit)
+                flush_and_write(channel.body(), SnapshotView());
+            delete_channel(channel);
+        }
     }
 }
 
@@ -1468,45 +1632,39 @@ Caliper::Caliper() : m_is_signal(false)
 
 Caliper Caliper::instance()
 {
-    GlobalData* gPtr = nullptr;
-    ThreadData* tPtr = nullptr;
-
-    if (GlobalData::s_init_lock == 0) {
-        gPtr = GlobalData::gObj.g_ptr;
-        tPtr = GlobalData::tObj.t_ptr;
-    } else {
-        if (GlobalData::s_init_lock == 2)
-            // Caliper had been initialized previously; we're past the static destructor
-            return Caliper(nullptr, nullptr, true);
-
+    //   The initializing thread may come here again during initialization, it
+    // already has its thread data then. Other threads have to wait.
+    if (GlobalData::s_init_lock == 1 && !GlobalData::t_ptr) {
         std::lock_guard<std::mutex> g(GlobalData::s_init_mutex);
 
-        Log::init();
-
-        GlobalData::gObj.g_ptr = nullptr;
-        GlobalData::tObj.t_ptr = nullptr;
+        if (GlobalData::s_init_lock == 1) {
+            Log::init();
 
-        if (!GlobalData::gObj.g_ptr) {
-            tPtr = new ThreadData(true /* is_initial_thread */);
-            gPtr = new GlobalData(tPtr);
+            ThreadData* tPtr = new ThreadData(true /* is_initial_thread */);
+            GlobalData* gPtr = new GlobalData(tPtr);
 
-            GlobalData::gObj.g_ptr = gPtr;
+            GlobalData::g_ptr = gPtr;
 
             gPtr->add_thread_data(tPtr);
             gPtr->init();
 
-            GlobalData::s_init_lock = 0;
-
             // now we can use Caliper::instance()
             ::make_default_channel();
+
+            GlobalData::s_init_lock = 0;
         }
     }
 
+    GlobalData* gPtr = GlobalData::g_ptr;
+    ThreadData* tPtr = GlobalData::t_ptr;
+
     if (!tPtr) {
         tPtr = gPtr->add_thread_data(new ThreadData(false /* is_initial_thread */));
         Caliper c(gPtr, tPtr, false);
 
-        for (auto& channel : gPtr->all_channels)
+        std::lock_guard<::siglock> g(tPtr->lock);
+
+        for (auto& channel : *gPtr->all_channels.load())
             channel.mP->events.create_thread_evt(&c, &channel);
     }
 
@@ -1515,12 +1673,12 @@ Caliper Caliper::instance()
 
 Caliper Caliper::sigsafe_instance()
 {
-    return Caliper(GlobalData::gObj.g_ptr, GlobalData::tObj.t_ptr, true);
+    return Caliper(GlobalData::g_ptr, GlobalData::t_ptr, true);
 }
 
 Caliper::operator bool () const
 {
-    return (sG && sT && !(m_is_signal && sT->lock.is_locked()));
+    return (sG && sT && GlobalData::s_init_lock != 2 && !(m_is_signal && sT->lock.is_locked()));
 }
 
 void Caliper::release()
@@ -1529,8 +1687,7 @@ void Caliper::release()
 
     if (c) {
         c.finalize();
-        delete GlobalData::gObj.g_ptr;
-        GlobalData::tObj.t_ptr = nullptr;
+        GlobalData::g_ptr->shutdown();
     }
 }
 
-- 
2.43.0


From 34cc3b63f34b199f6f20ff002fc698bf4d06d7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 16/78] fix: protect the default configuration, service and
 config lists when several threads use them

---
 src/caliper/Caliper.cpp       | 14 +++++++++++-
 src/caliper/ConfigManager.cpp | 15 ++++++++----
 src/common/RuntimeConfig.cpp  | 32 ++++++++++++++++++++++----
 src/services/Services.cpp     | 43 +++++++++++++++++++++++++----------
 4 files changed, 82 insertions(+), 22 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 6817910..e1fd176 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -339,6 +339,8 @@ struct Caliper::GlobalData {
     // be replaced with a new one by another thread.
     typedef std::vector<Channel> ChannelList;
 
+    std::vector<Channel*> new_channels; ///< channels being created (protected by attribute_create_lock)
+
     std::atomic<ChannelList*>                 all_channels;
     std::atomic<ChannelList*>                 active_channels;
     std::vector<std::unique_ptr<ChannelList>> retired_channel_lists;
@@ -839,6 +841,8 @@ Attribute Caliper::create_attribute(
 
     for (auto& channel : *sG->all_channels.load())
         channel.mP->events.create_attr_evt(this, attr);
+    for (auto& channel : sG->new_channels)
+        channel->mP->events.create_attr_evt(this, attr);
 
     {
         std::lock_guard<std::mutex> ga(sG->attribute_lock);
@@ -1474,7 +1478,12 @@ Channel Caliper::create_channel(const char* name, const RuntimeConfig& cfg)
     static std::atomic<cali_id_t> next_id { 0 };
 
     Channel channel(next_id++, name, cfg);
-    sG->update_channel_list(sG->all_channels, [&channel](GlobalData::ChannelList& list) { list.push_back(channel); });
+
+    //   Other threads must not see the channel before its services have been
+    // registered, or create attributes that the services would miss. However,
+    // its services need to see the attributes created during registration.
+    std::lock_guard<std::recursive_mutex> gc(sG->attribute_create_lock);
+    sG->new_channels.push_back(&channel);
 
     // Create and set name & timestamp attributes
 
@@ -1505,6 +1514,9 @@ Channel Caliper::create_channel(const char* name, const RuntimeConfig& cfg)
 
     channel.mP->events.post_init_evt(this, &channel);
 
+    sG->new_channels.erase(std::find(sG->new_channels.begin(), sG->new_channels.end(), &channel));
+    sG->update_channel_list(sG->all_channels, [&channel](GlobalData::ChannelList& list) { list.push_back(channel); });
+
     return channel;
 }
 
diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index 2bcf641..0d66e65 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 #include <fstream>
+#include <mutex>
 #include <sstream>
 
 using namespace cali;
@@ -79,24 +80,30 @@ ChannelController* make_basic_channel_controller(
 class ConfigSpecManager
 {
     std::vector<ConfigManager::ConfigInfo> m_configs;
+    mutable std::mutex                     m_lock;
+
+    ConfigSpecManager() { add_controller_specs(builtin_controllers_table); }
 
 public:
 
     void add_controller_specs(const ConfigManager::ConfigInfo** specs)
     {
+        std::lock_guard<std::mutex> g(m_lock);
+
         for (const ConfigManager::ConfigInfo** s = specs; s && *s; s++)
             m_configs.push_back(**s);
     }
 
-    std::vector<ConfigManager::ConfigInfo> get_config_specs() const { return m_configs; }
+    std::vector<ConfigManager::ConfigInfo> get_config_specs() const
+    {
+        std::lock_guard<std::mutex> g(m_lock);
+        return m_configs;
+    }
 
     static ConfigSpecManager* instance()
     {
         static std::unique_ptr<ConfigSpecManager> mP { new ConfigSpecManager };
 
-        if (mP->m_configs.empty())
-            mP->add_controller_specs(builtin_controllers_table);
-
         return mP.get();
     }
 };
diff --git a/src/common/RuntimeConfig.cpp b/src/common/RuntimeConfig.cpp
index ba90810..d535f90 100644
--- a/src/common/RuntimeConfig.cpp
+++ b/src/common/RuntimeConfig.cpp
@@ -14,6 +14,7 @@
 #include <iostream>
 #include <iterator>
 #include <map>
+#include <mutex>
 #include <sstream>
 #include <unordered_map>
 #include <vector>
@@ -139,6 +140,9 @@ struct RuntimeConfig::RuntimeConfigImpl {
 
     bool m_allow_read_env = true;
 
+    // new threads initialize config sets, too
+    std::mutex m_lock;
+
     // combined profile: initially receives settings made through "add" API,
     // then merges all selected profiles in here
     ::config_profile_t m_combined_profile;
@@ -258,6 +262,8 @@ struct RuntimeConfig::RuntimeConfigImpl {
 
     StringConverter get(const char* set, const char* key)
     {
+        std::lock_guard<std::mutex> g(m_lock);
+
         if (m_database.empty())
             init_config_database();
 
@@ -265,18 +271,30 @@ struct RuntimeConfig::RuntimeConfigImpl {
         return (it == m_database.end() ? StringConverter() : StringConverter(it->second->get(key)));
     }
 
-    void preset(const char* key, const std::string& value) { m_combined_profile[key] = value; }
+    void preset(const char* key, const std::string& value)
+    {
+        std::lock_guard<std::mutex> g(m_lock);
+        m_combined_profile[key] = value;
+    }
 
-    void set(const char* key, const std::string& value) { m_top_profile[key] = value; }
+    void set(const char* key, const std::string& value)
+    {
+        std::lock_guard<std::mutex> g(m_lock);
+        m_top_profile[key] = value;
+    }
 
     void import(const std::map<std::string, std::string>& values)
     {
+        std::lock_guard<std::mutex> g(m_lock);
+
         for (auto& p : values)
             m_top_profile[p.first] = p.second;
     }
 
     std::shared_ptr<ConfigSetImpl> init_configset(const char* name, const config_entry_list_t& list)
     {
+        std::lock_guard<std::mutex> g(m_lock);
+
         if (m_database.empty())
             init_config_database();
 
@@ -293,8 +311,10 @@ struct RuntimeConfig::RuntimeConfigImpl {
         return ret;
     }
 
-    void print(std::ostream& os) const
+    void print(std::ostream& os)
     {
+        std::lock_guard<std::mutex> g(m_lock);
+
         for (auto set : m_database)
             for (auto entry : set.second->m_dict)
                 os << ::config_var_name(set.first, entry.first) << '=' << entry.second.to_string() << std::endl;
@@ -382,7 +402,9 @@ bool RuntimeConfig::allow_read_env(bool allow)
 
 RuntimeConfig RuntimeConfig::get_default_config()
 {
-    static RuntimeConfig s_default_config;
+    //   Not deleted at program exit, where it may still be used by other threads
+    // and when Caliper is finalized
+    static RuntimeConfig* s_default_config = new RuntimeConfig;
 
-    return s_default_config;
+    return *s_default_config;
 }
diff --git a/src/services/Services.cpp b/src/services/Services.cpp
index 831c4e7..b583ce5 100644
--- a/src/services/Services.cpp
+++ b/src/services/Services.cpp
@@ -11,6 +11,8 @@
 
 #include <cassert>
 #include <cctype>
+#include <map>
+#include <mutex>
 #include <string>
 #include <sstream>
 
@@ -41,11 +43,26 @@ std::string get_name_from_spec(const char* name_or_spec)
 class ServicesManager
 {
     std::map<std::string, CaliperService> m_services;
+    mutable std::mutex                    m_lock;
+
+    bool find_service(const std::string& name, CaliperService& service) const
+    {
+        std::lock_guard<std::mutex> g(m_lock);
+
+        auto it = m_services.find(name);
+        if (it == m_services.end())
+            return false;
+
+        service = it->second;
+        return true;
+    }
 
 public:
 
     std::vector<std::string> get_available_services() const
     {
+        std::lock_guard<std::mutex> g(m_lock);
+
         std::vector<std::string> ret;
         ret.reserve(m_services.size());
 
@@ -57,38 +74,40 @@ public:
 
     bool register_service(const char* name, Caliper* c, Channel* channel) const
     {
-        for (const auto& p : m_services)
-            if (p.first == name && p.second.register_fn) {
-                (*p.second.register_fn)(c, channel);
-                return true;
-            }
+        CaliperService service;
 
-        return false;
+        if (!find_service(name, service) || !service.register_fn)
+            return false;
+
+        (*service.register_fn)(c, channel);
+        return true;
     }
 
     void add_services(const CaliperService list[])
     {
+        std::lock_guard<std::mutex> g(m_lock);
+
         for (const CaliperService* s = list; s && s->name_or_spec && s->register_fn; ++s)
             m_services[get_name_from_spec(s->name_or_spec)] = *s;
     }
 
     std::string get_service_description(const std::string& name)
     {
-        auto service_itr = m_services.find(name);
-        if (service_itr == m_services.end())
+        CaliperService service;
+        if (!find_service(name, service))
             return std::string();
-        auto dict     = StringConverter(service_itr->second.name_or_spec).rec_dict();
+        auto dict     = StringConverter(service.name_or_spec).rec_dict();
         auto spec_itr = dict.find("description");
         return spec_itr != dict.end() ? spec_itr->second.to_string() : std::string();
     }
 
     std::ostream& print_service_documentation(std::ostream& os, const std::string& name)
     {
-        auto service_itr = m_services.find(name);
-        if (service_itr == m_services.end())
+        CaliperService service;
+        if (!find_service(name, service))
             return os;
 
-        auto dict     = StringConverter(service_itr->second.name_or_spec).rec_dict();
+        auto dict     = StringConverter(service.name_or_spec).rec_dict();
         auto spec_itr = dict.find("description");
         if (spec_itr != dict.end())
             os << ' ' << spec_itr->second.to_string() << '\n';
-- 
2.43.0


From 702d6ac3c5d550bff379655585161d8f3a25f99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 17/78] fix: process the end of the program only once if two
 threads release Caliper

---
 src/caliper/Caliper.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index e1fd176..0b6f4c5 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -378,12 +378,10 @@ struct Caliper::GlobalData {
     // other threads, thread-local and static objects may still be using Caliper.
     void shutdown()
     {
-        if (s_init_lock == 2)
+        // prevent re-initialization, and finish only once
+        if (s_init_lock.exchange(2) == 2)
             return;
 
-        // prevent re-initialization
-        s_init_lock = 2;
-
         if (Log::verbosity() >= 2) {
             Log(2).stream() << "Releasing Caliper global data.\n"
                             << "  Max active channels: " << max_active_channels << std::endl;
-- 
2.43.0


From e1b24524ecd5bc49585cf31ce96ceb388bb7be5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 18/78] fix: don't count samples on threads that have been
 released

---
 src/caliper/Caliper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 0b6f4c5..6a0248b 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1688,7 +1688,7 @@ Caliper Caliper::sigsafe_instance()
 
 Caliper::operator bool () const
 {
-    return (sG && sT && GlobalData::s_init_lock != 2 && !(m_is_signal && sT->lock.is_locked()));
+    return (sG && sT && GlobalData::s_init_lock != 2 && !(m_is_signal && (sT->lock.is_locked() || sT->is_released)));
 }
 
 void Caliper::release()
-- 
2.43.0


From b771e72bace9a21463caf2f8845ba9328a8a649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 19/78] fix: track include_branches regions per thread

---
 src/services/event/EventTrigger.cpp | 59 ++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/src/services/event/EventTrigger.cpp b/src/services/event/EventTrigger.cpp
index 9e494c8..81bb9b8 100644
--- a/src/services/event/EventTrigger.cpp
+++ b/src/services/event/EventTrigger.cpp
@@ -15,6 +15,7 @@
 #include "caliper/common/Node.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cassert>
 #include <functional>
 #include <map>
@@ -58,7 +59,10 @@ class EventTrigger
     RegionFilter region_filter;
     RegionFilter branch_filter;
 
-    std::vector<Variant> branch_filter_stack;
+    //   Number of open regions that match the branch filter: on the thread
+    // blackboard for thread-scope regions, and here for process-scope regions
+    Attribute        branch_depth_attr;
+    std::atomic<int> process_branch_depth { 0 };
 
     std::string channel_name;
 
@@ -143,6 +147,36 @@ class EventTrigger
         return attr.get(cali::subscription_event_attr).to_bool();
     }
 
+    bool pass_branch_filter(const Attribute& attr, const Variant& value) const
+    {
+        return attr.type() == CALI_TYPE_STRING && branch_filter.pass(value);
+    }
+
+    //   Updates the number of open matching regions on this thread when an entry with
+    // /new_value/ is added and/or one with /old_value/ is removed. Returns true if we
+    // are inside of a matching branch before or after the update.
+    bool update_branch(Caliper* c, const Attribute& attr, const Variant& old_value, const Variant& new_value)
+    {
+        int delta = 0;
+
+        if (!old_value.empty() && pass_branch_filter(attr, old_value))
+            --delta;
+        if (!new_value.empty() && pass_branch_filter(attr, new_value))
+            ++delta;
+
+        int depth = c->get_blackboard_entry(branch_depth_attr).value().to_int();
+        int total = depth + process_branch_depth.load();
+
+        if (delta != 0) {
+            if ((attr.properties() & CALI_ATTR_SCOPE_MASK) == CALI_ATTR_SCOPE_PROCESS)
+                process_branch_depth += delta;
+            else
+                c->set(branch_depth_attr, Variant(std::max(depth + delta, 0)));
+        }
+
+        return total > 0 || delta > 0;
+    }
+
     //
     // --- Callbacks
     //
@@ -156,9 +190,8 @@ class EventTrigger
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
         if (branch_filter.has_filters()) {
-            if (branch_filter.pass(value))
-                branch_filter_stack.push_back(value);
-            if (branch_filter_stack.empty())
+            Variant old_value = attr.store_as_value() ? c->get_blackboard_entry(attr).value() : Variant();
+            if (!update_branch(c, attr, old_value, value))
                 return;
         }
 
@@ -200,9 +233,8 @@ class EventTrigger
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
         if (branch_filter.has_filters()) {
-            if (branch_filter.pass(value))
-                branch_filter_stack.push_back(value);
-            if (branch_filter_stack.empty())
+            Variant old_value = c->get(attr).value();
+            if (!update_branch(c, attr, old_value, value))
                 return;
         }
 
@@ -235,12 +267,8 @@ class EventTrigger
             return;
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
-        if (branch_filter.has_filters()) {
-            if (branch_filter_stack.empty())
-                return;
-            if (value == branch_filter_stack.back())
-                branch_filter_stack.pop_back();
-        }
+        if (branch_filter.has_filters() && !update_branch(c, attr, value, Variant()))
+            return;
 
         if (enable_snapshot_info) {
             assert(!marker_node->data().empty());
@@ -331,6 +359,11 @@ class EventTrigger
             CALI_TYPE_USR,
             CALI_ATTR_SKIP_EVENTS | CALI_ATTR_HIDDEN
         );
+        branch_depth_attr = c->create_attribute(
+            std::string("event.branch#") + std::to_string(channel->id()),
+            CALI_TYPE_INT,
+            CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_THREAD | CALI_ATTR_SKIP_EVENTS | CALI_ATTR_HIDDEN
+        );
 
         check_existing_attributes(c);
     }
-- 
2.43.0


From 6f0047ed3c10f1ee0c3d6c867133c1b389ade651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 20/78] fix: don't lose concurrent updates when ending process
 or channel scope regions

---
 src/caliper/Caliper.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 6a0248b..be6c8b2 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1143,7 +1143,12 @@ void Caliper::end(const Attribute& attr)
         handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
     else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
-        handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
+        // Reload: another thread may have changed the entry in the meantime
+        current = load_current_entry(attr, key, sG->process_blackboard);
+        if (current.entry.empty())
+            sT->stack_error = true;
+        else
+            handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
     }
 }
 
@@ -1188,7 +1193,13 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
         handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
     else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
-        handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
+        // Reload: another thread may have changed the entry in the meantime
+        current = load_current_entry(attr, key, sG->process_blackboard);
+        if (current.entry.empty() || data != current.entry.value()) {
+            log_stack_value_error(current.entry, attr, data);
+            sT->stack_error = true;
+        } else
+            handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
     }
 }
 
@@ -1275,7 +1286,12 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
 
     {
         std::lock_guard<std::mutex> gbb(chB->channel_blackboard_lock);
-        handle_end(attr, prop, current, key, chB->channel_blackboard, sT->tree);
+        // Reload: another thread may have changed the entry in the meantime
+        current = load_current_entry(attr, key, chB->channel_blackboard);
+        if (current.entry.empty())
+            sT->stack_error = true;
+        else
+            handle_end(attr, prop, current, key, chB->channel_blackboard, sT->tree);
     }
 }
 
-- 
2.43.0


From ad172abf3d9e43b7e2d86466aa2b34f8b44d5c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 21/78] fix: don't refer to a deleted controller when its
 channel is deleted

ChannelController::create() captured the implementation's raw pointer in
the channel's finish event callback. With a copied controller (copies share
the implementation) or after the controller is gone, the callback could
write through a dangling pointer. Capture a weak pointer instead.
---
 src/caliper/ChannelController.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/caliper/ChannelController.cpp b/src/caliper/ChannelController.cpp
index a3998da..d66d40c 100644
--- a/src/caliper/ChannelController.cpp
+++ b/src/caliper/ChannelController.cpp
@@ -98,8 +98,13 @@ Channel ChannelController::create()
     add_channel_metadata(c, mP->channel, mP->metadata);
 
     //   Reset the object's channel pointer if the channel is destroyed
-    // behind our back (e.g., in Caliper::release())
-    mP->channel.events().finish_evt.connect([this](Caliper*, Channel*) { mP->channel = Channel(); });
+    // behind our back (e.g., in Caliper::release()). This controller object may
+    // be gone by then, but copies of it can still be using the channel.
+    std::weak_ptr<ChannelControllerImpl> impl(mP);
+    mP->channel.events().finish_evt.connect([impl](Caliper*, Channel*) {
+        if (auto p = impl.lock())
+            p->channel = Channel();
+    });
 
     return mP->channel;
 }
-- 
2.43.0


From 9525970cb28c27ce32cbe241c3c638b2cbaf6217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:14 +0000
Subject: [PATCH 22/78] fix: don't look up a channel before Caliper is
 initialised in cali_channel_get()

cali_channel_get() called get_channel() on the signal-safe instance before
checking that there is one, dereferencing a null pointer when it is called
before Caliper is initialised.
---
 src/caliper/cali.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index a389a34..2a56803 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -339,10 +339,14 @@ cali_variant_t cali_get(cali_id_t attr_id)
 
 cali_variant_t cali_channel_get(cali_id_t chn_id, cali_id_t attr_id)
 {
-    Caliper c       = Caliper::sigsafe_instance();
+    Caliper c = Caliper::sigsafe_instance();
+
+    if (!c)
+        return cali_make_empty_variant();
+
     Channel channel = c.get_channel(chn_id);
 
-    if (!c || !channel)
+    if (!channel)
         return cali_make_empty_variant();
 
     return c.get(channel.body(), c.get_attribute(attr_id)).value().c_variant();
-- 
2.43.0


From 0b8e1d9be16881d22fcf1bd54bb8ca7da7970487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:14 +0000
Subject: [PATCH 23/78] fix: honour CALI_FLUSH_CLEAR_BUFFERS in
 write_report_for_query()

The documented flush_opts argument was ignored, so buffers were not cleared
and later reports counted the same records again.
---
 src/caliper/cali.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index 2a56803..73d85b8 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -828,6 +828,9 @@ void write_report_for_query(cali_id_t chn_id, const char* query, int flush_opts,
     });
 
     queryP.flush(c);
+
+    if (flush_opts & CALI_FLUSH_CLEAR_BUFFERS)
+        c.clear(&channel);
 }
 
 } // namespace cali
-- 
2.43.0


From 57db11f3c5e8cc9c68e2e9288c8bef56804d71f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:14 +0000
Subject: [PATCH 24/78] fix: ignore invalid channel ids in cali_channel_flush()

Flushing a channel that another thread already deleted dereferenced a null
channel body.
---
 src/caliper/cali.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index 73d85b8..f965d6c 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -728,6 +728,11 @@ void cali_channel_flush(cali_id_t chn_id, int flush_opts)
     Caliper c;
     Channel channel = c.get_channel(chn_id);
 
+    if (!channel) {
+        Log(0).stream() << "cali_channel_flush(): invalid channel id " << chn_id << std::endl;
+        return;
+    }
+
     c.flush_and_write(channel.body(), SnapshotView());
 
     if (flush_opts & CALI_FLUSH_CLEAR_BUFFERS)
-- 
2.43.0


From a1d47da099d5859f1f8d9dff85981e2fd60e3491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:31 +0000
Subject: [PATCH 25/78] fix: count recursive regions once in inclusive region
 profiles

The inclusive time of a region that is on the region stack more than once
was added once per level, so it could exceed the total time.
---
 src/reader/FlatInclusiveRegionProfile.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reader/FlatInclusiveRegionProfile.cpp b/src/reader/FlatInclusiveRegionProfile.cpp
index e51e3af..d0376e9 100644
--- a/src/reader/FlatInclusiveRegionProfile.cpp
+++ b/src/reader/FlatInclusiveRegionProfile.cpp
@@ -7,6 +7,7 @@
 
 #include <algorithm>
 #include <cstring>
+#include <set>
 
 using namespace cali;
 
@@ -35,6 +36,9 @@ struct FlatInclusiveRegionProfile::FlatInclusiveRegionProfileImpl {
         cali_id_t r_a_id         = region_attr.id();
         bool      have_reg_entry = false;
 
+        // a region that is on the path more than once (recursion) counts once
+        std::set<std::string> regs;
+
         for (const Entry& e : rec) {
             if (!e.is_reference())
                 continue;
@@ -45,7 +49,9 @@ struct FlatInclusiveRegionProfile::FlatInclusiveRegionProfileImpl {
 
                 if (is_target_reg) {
                     have_reg_entry = true;
-                    reg_profile[node->data().to_string()] += val;
+                    std::string reg = node->data().to_string();
+                    if (regs.insert(reg).second)
+                        reg_profile[reg] += val;
                 }
             }
         }
-- 
2.43.0


From f3194147fd265a68b6f8dece2f3a38792c3431d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 26/78] fix: keep other processes' aggregation results when
 this process never saw the aggregated attribute

---
 src/reader/Aggregator.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 6b0ae8a..d8f4498 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -86,8 +86,12 @@ public:
 
     Attribute derived_attr(CaliperMetadataAccessInterface& db)
     {
-        if (!m_derived_attr && target_attr(db))
-            m_derived_attr = db.create_attribute(m_prefix+m_name, m_target_attr.type(), s_prop | m_prop);
+        if (!m_derived_attr) {
+            if (target_attr(db))
+                m_derived_attr = db.create_attribute(m_prefix+m_name, m_target_attr.type(), s_prop | m_prop);
+            else // the input may contain aggregation results only, e.g. from another process
+                m_derived_attr = db.get_attribute(m_prefix+m_name);
+        }
         return m_derived_attr;
     }
 };
@@ -487,9 +491,9 @@ public:
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& list) override
     {
         Attribute tgt_attr = m_config->m_sum_attr.target_attr(db);
-        if (!tgt_attr)
-            return 0;
         Attribute sum_attr = m_config->m_sum_attr.derived_attr(db);
+        if (!sum_attr)
+            return 0;
         Attribute count_attr = m_config->m_count_attr.get(db);
         int count = 0;
 
@@ -763,12 +767,13 @@ public:
 
         bool get_statistics_attributes(CaliperMetadataAccessInterface& db, StatisticsAttributes& a)
         {
-            if (!m_target_attr)
-                return false;
-            if (a.sum) {
+            if (m_stat_attrs.sum) {
                 a = m_stat_attrs;
                 return true;
             }
+            // no data so far, neither input values nor aggregation results (e.g. from another process)
+            if (!get_target_attr(db) && !db.get_attribute("var.sum#" + m_target_attr_name))
+                return false;
 
             int prop = CALI_ATTR_SKIP_EVENTS | CALI_ATTR_ASVALUE;
 
-- 
2.43.0


From 31a148e1b69fa134da1839389314adba0dbba0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 27/78] fix: do not count other processes' parent-only results
 of inclusive metrics as records

---
 src/reader/Aggregator.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index d8f4498..36df7d1 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -146,14 +146,21 @@ public:
     class Config : public AggregateKernelConfig
     {
         CustomAttributeManager m_count_attr;
+        CustomAttributeManager m_nocount_attr;
 
     public:
 
         Attribute attr(CaliperMetadataAccessInterface& db) { return m_count_attr.get(db); }
 
+        // marks result records for entries without any input records
+        Attribute nocount_attr(CaliperMetadataAccessInterface& db) { return m_nocount_attr.get(db); }
+
         AggregateKernel* make_kernel() override { return new CountKernel(this); }
 
-        Config() : m_count_attr { "count", CALI_TYPE_UINT } {}
+        Config()
+            : m_count_attr { "count", CALI_TYPE_UINT }
+            , m_nocount_attr { "nocount", CALI_TYPE_UINT, CALI_ATTR_HIDDEN }
+        {}
 
         static AggregateKernelConfig* create(const std::vector<std::string>&) { return new Config; }
     };
@@ -164,11 +171,13 @@ public:
     {
         Attribute count_attr = m_config->attr(db);
         cali_id_t count_attr_id = count_attr.id();
+        cali_id_t nocount_attr_id = m_config->nocount_attr(db).id();
         for (const Entry& e : list)
             if (e.attribute() == count_attr_id) {
                 m_count += e.value().to_uint();
                 return 1;
-            }
+            } else if (e.attribute() == nocount_attr_id)
+                return 0;
 
         ++m_count;
         return 1;
@@ -179,6 +188,8 @@ public:
         uint64_t count = m_count.load();
         if (count > 0)
             list.push_back(Entry(m_config->attr(db), Variant(cali_make_variant_from_uint(count))));
+        else // e.g. an inclusive metric's entry for a parent node
+            list.push_back(Entry(m_config->nocount_attr(db), Variant(cali_make_variant_from_uint(0))));
     }
 
 private:
@@ -194,6 +205,7 @@ public:
     class Config : public AggregateKernelConfig
     {
         CustomAttributeManager m_count_attr;
+        CustomAttributeManager m_nocount_attr { "nocount", CALI_TYPE_UINT, CALI_ATTR_HIDDEN };
         CustomAttributeManager m_result_attr { "scount", CALI_TYPE_DOUBLE };
 
         double m_scale;
@@ -219,11 +231,13 @@ public:
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& list) override
     {
         Attribute count_attr = m_config->m_count_attr.get(db);
+        Attribute nocount_attr = m_config->m_nocount_attr.get(db);
         for (const Entry& e : list)
             if (e.attribute() == count_attr.id()) {
                 m_count += e.value().to_uint();
                 return 1;
-            }
+            } else if (e.attribute() == nocount_attr.id())
+                return 0;
 
         ++m_count;
         return 1;
@@ -234,7 +248,8 @@ public:
         if (m_count > 0) {
             list.push_back(Entry(m_config->m_count_attr.get(db), Variant(m_count)));
             list.push_back(Entry(m_config->m_result_attr.get(db), Variant(m_config->get_scale() * m_count)));
-        }
+        } else
+            list.push_back(Entry(m_config->m_nocount_attr.get(db), Variant(cali_make_variant_from_uint(0))));
     }
 
 private:
-- 
2.43.0


From fe7d9f7d01ba65588a6d82d5f23623a5297d2023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 28/78] fix: write results that aggregation kernels share only
 once

---
 src/reader/Aggregator.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 36df7d1..9f3b675 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -1157,8 +1157,16 @@ struct Aggregator::AggregatorImpl {
             if (!entry)
                 continue;
             std::vector<Entry> rec(entry->key);
-            for (auto const& k : entry->kernels)
+            for (auto const& k : entry->kernels) {
+                const std::size_t len = rec.size();
                 k->append_result(db, rec);
+                // kernels may share (intermediate) results: append those only once
+                for (std::size_t i = len; i < rec.size(); )
+                    if (std::find(rec.begin(), rec.begin() + len, rec[i]) != rec.begin() + len)
+                        rec.erase(rec.begin() + i);
+                    else
+                        ++i;
+            }
             push(db, rec);
         }
     }
-- 
2.43.0


From de6d8f1aca6022499db4fb081063512b14a617ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 29/78] fix: keep inclusive sums, scales and ratios correct in
 multi-step aggregation

---
 src/reader/Aggregator.cpp | 64 +++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 9f3b675..e4ec8ad 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -269,17 +269,22 @@ public:
     class Config : public AggregateKernelConfig
     {
         AggregationAttributeManager m_attr_mgr;
+        AggregationAttributeManager m_res_attr;
         bool m_is_inclusive;
 
     public:
 
+        // the (exclusive) sum, which is aggregated further
         AggregationAttributeManager& attr() { return m_attr_mgr; }
+        // the result: same as the sum unless it is inclusive
+        AggregationAttributeManager& result_attr() { return m_is_inclusive ? m_res_attr : m_attr_mgr; }
 
         bool is_inclusive() const override { return m_is_inclusive; }
         AggregateKernel* make_kernel() override { return new SumKernel(this); }
 
         Config(const std::string& target_name, bool is_inclusive) :
-            m_attr_mgr { target_name, is_inclusive ? "inclusive#" : "sum#" },
+            m_attr_mgr { target_name, is_inclusive ? "iscsum#" : "sum#", is_inclusive ? CALI_ATTR_HIDDEN : 0 },
+            m_res_attr { target_name, "inclusive#" },
             m_is_inclusive { is_inclusive }
         { }
 
@@ -298,18 +303,29 @@ public:
 
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
     {
-        return apply_to_matching_entries(db, m_config->attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
+        return apply_to_matching_entries(db, m_config->attr(), rec, [this](const Entry& e){
+                m_sum += e.value();
+                m_isum += e.value();
+            });
+    }
+
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_matching_entries(db, m_config->attr(), rec, [this](const Entry& e){ m_isum += e.value(); });
     }
 
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
-        if (m_sum)
+        if (m_isum)
+            rec.push_back(Entry(m_config->result_attr().derived_attr(db), m_isum));
+        if (m_sum && m_config->is_inclusive())
             rec.push_back(Entry(m_config->attr().derived_attr(db), m_sum));
     }
 
 private:
 
     Variant m_sum;
+    Variant m_isum; // inclusive sum
     Config* m_config;
 };
 
@@ -336,7 +352,7 @@ public:
         AggregateKernel* make_kernel() override { return new ScaledSumKernel(this); }
 
         Config(const std::vector<std::string>& cfg, bool inclusive)
-            : m_sum_attr { cfg[0], inclusive ? "iscsum#" : "scsum#", CALI_ATTR_HIDDEN }
+            : m_sum_attr { cfg[0], inclusive ? "iscsum#" : "scsum#", CALI_ATTR_HIDDEN } // (exclusive) sum
             , m_res_attr { cfg[0], inclusive ? "iscale#" : "scale#", CALI_TYPE_DOUBLE }
             , m_scale { 1.0 }
             , m_inclusive { inclusive }
@@ -357,20 +373,29 @@ public:
 
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
     {
-        return apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
+        return apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){
+                m_sum += e.value();
+                m_isum += e.value();
+            });
+    }
+
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){ m_isum += e.value(); });
     }
 
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
-        if (m_sum) {
+        if (m_sum)
             rec.push_back(Entry(m_config->sum_attr().derived_attr(db), Variant(m_sum)));
-            rec.push_back(Entry(m_config->result_attr(db), Variant(m_config->get_scale() * m_sum.to_double())));
-        }
+        if (m_isum)
+            rec.push_back(Entry(m_config->result_attr(db), Variant(m_config->get_scale() * m_isum.to_double())));
     }
 
 private:
 
     Variant m_sum;
+    Variant m_isum; // inclusive sum
     Config* m_config;
 };
 
@@ -599,28 +624,35 @@ public:
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
     {
         int count = 0;
-        count += apply_to_matching_entries(db, m_config->m_tgt1, rec, [this](const Entry& e){ m_sum1 += e.value(); });
-        count += apply_to_matching_entries(db, m_config->m_tgt2, rec, [this](const Entry& e){ m_sum2 += e.value(); });
+        count += apply_to_matching_entries(db, m_config->m_tgt1, rec, [this](const Entry& e){ m_sum1 += e.value(); m_isum1 += e.value(); });
+        count += apply_to_matching_entries(db, m_config->m_tgt2, rec, [this](const Entry& e){ m_sum2 += e.value(); m_isum2 += e.value(); });
         return count;
     }
 
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_matching_entries(db, m_config->m_tgt1, rec, [this](const Entry& e){ m_isum1 += e.value(); });
+        apply_to_matching_entries(db, m_config->m_tgt2, rec, [this](const Entry& e){ m_isum2 += e.value(); });
+    }
+
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
         if (m_sum1)
             rec.push_back(Entry(m_config->m_tgt1.derived_attr(db), m_sum1));
-        if (m_sum2) {
+        if (m_sum2)
             rec.push_back(Entry(m_config->m_tgt2.derived_attr(db), m_sum2));
-            if (m_sum1)
-                rec.push_back(
-                    Entry(m_config->m_ratio_attr.get(db), Variant(m_config->get_scale() * m_sum1.to_double() / m_sum2.to_double()))
-                );
-        }
+        if (m_isum1 && m_isum2)
+            rec.push_back(
+                Entry(m_config->m_ratio_attr.get(db), Variant(m_config->get_scale() * m_isum1.to_double() / m_isum2.to_double()))
+            );
     }
 
 private:
 
     Variant m_sum1;
     Variant m_sum2;
+    Variant m_isum1; // inclusive sums
+    Variant m_isum2;
     Config* m_config;
 };
 
-- 
2.43.0


From 1ced9db256eb296e9b5615f719fc52831b448698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 30/78] fix: do not drop entries of large records in
 cross-process aggregation

---
 src/caliper/aggregate_over_mpi.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/caliper/aggregate_over_mpi.cpp b/src/caliper/aggregate_over_mpi.cpp
index 5d8bbec..9fe644d 100644
--- a/src/caliper/aggregate_over_mpi.cpp
+++ b/src/caliper/aggregate_over_mpi.cpp
@@ -13,6 +13,7 @@
 #include "../common/SnapshotBuffer.h"
 
 #include <set>
+#include <vector>
 
 using namespace cali;
 
@@ -59,7 +60,11 @@ void pack_and_send(int dest, CaliperMetadataAccessInterface& db, Aggregator& agg
                 else if (e.is_immediate())
                     recursive_append_path(db, db.node(e.attribute()), nodebuf, written_nodes);
 
-            snapbuf.append(CompressedSnapshotRecord(list.size(), list.data()));
+            // worst case: 10 bytes per id, and 20 bytes per value
+            std::vector<unsigned char> recbuf(16 + 30 * list.size());
+            CompressedSnapshotRecord   rec(recbuf.size(), recbuf.data());
+            rec.append(list.size(), list.data());
+            snapbuf.append(rec);
         }
     );
 
-- 
2.43.0


From 01e5d271d03937d5171b70b0e7f0fe6b57a41716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 31/78] fix: aggregate the loop-report time series across MPI
 ranks

---
 src/caliper/controllers/LoopReportController.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/caliper/controllers/LoopReportController.cpp b/src/caliper/controllers/LoopReportController.cpp
index c3327a7..27912df 100644
--- a/src/caliper/controllers/LoopReportController.cpp
+++ b/src/caliper/controllers/LoopReportController.cpp
@@ -156,7 +156,7 @@ class LoopReportController : public cali::internal::CustomOutputController
         return CalQLParser(query.c_str()).spec();
     }
 
-    void process_timeseries(Caliper& c, CaliperMetadataDB& db, OutputStream& stream, const LoopInfo& info, Comm comm)
+    void process_timeseries(Caliper& c, CaliperMetadataDB& db, OutputStream& stream, const LoopInfo& info, const Comm& comm)
     {
         int         iterations = comm.bcast_int(info.iterations);
         int         rec_count  = comm.bcast_int(info.count);
@@ -244,13 +244,15 @@ class LoopReportController : public cali::internal::CustomOutputController
                 infovec.push_back(get_loop_info(db, rec));
             });
 
-            if (!infovec.empty()) {
-                for (const LoopInfo& loopinfo : infovec)
-                    if (loopinfo.iterations > 0)
-                        process_timeseries(c, db, stream, loopinfo, comm);
-            } else {
+            if (infovec.empty())
                 Log(1).stream() << name() << ": No instrumented loops found" << std::endl;
-            }
+
+            // Rank 0 has the complete list. All ranks must take part for every loop in it.
+            std::size_t nloops = comm.bcast_int(infovec.size());
+            infovec.resize(nloops, LoopInfo { "", 0, 0 });
+
+            for (const LoopInfo& loopinfo : infovec)
+                process_timeseries(c, db, stream, loopinfo, comm);
         }
     }
 
-- 
2.43.0


From cf3be8c7109caf98d7abb55e3134546ecd547677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 32/78] fix: scale the minimum and maximum loop iteration rates
 correctly

---
 src/caliper/controllers/LoopReportController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/controllers/LoopReportController.cpp b/src/caliper/controllers/LoopReportController.cpp
index 27912df..4889806 100644
--- a/src/caliper/controllers/LoopReportController.cpp
+++ b/src/caliper/controllers/LoopReportController.cpp
@@ -86,7 +86,7 @@ class LoopReportController : public cali::internal::CustomOutputController
     Aggregator summary_local_aggregation(Caliper& c, CaliperMetadataDB& db)
     {
         const char* query_str =
-            " let iter_per_sec=ratio(loop.iterations,time.duration.ns,1e-9)"
+            " let iter_per_sec=ratio(loop.iterations,time.duration.ns,1e9)"
             " select loop"
             ",count()"
             ",sum(loop.iterations)"
-- 
2.43.0


From ebb587cff986c9873b91f3ef19fbdaaec703223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 33/78] fix: do not write rank-local strings past the end of
 the broadcast buffer

---
 src/caliper/OutputCommMpi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/caliper/OutputCommMpi.cpp b/src/caliper/OutputCommMpi.cpp
index 094aec3..8048a13 100644
--- a/src/caliper/OutputCommMpi.cpp
+++ b/src/caliper/OutputCommMpi.cpp
@@ -79,7 +79,8 @@ std::string OutputCommMpi::bcast_str(const std::string& str) const
         MPI_Bcast(&len, 1, MPI_UNSIGNED, 0, mP->comm);
 
         std::vector<char> buf(len, '\0');
-        std::copy(str.begin(), str.end(), std::begin(buf));
+        if (mP->rank == 0)
+            std::copy(str.begin(), str.end(), std::begin(buf));
 
         MPI_Bcast(buf.data(), len, MPI_CHAR, 0, mP->comm);
 
-- 
2.43.0


From b33f00ed7cf3d5883a77a085306c7cf6a175d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:37 +0000
Subject: [PATCH 34/78] fix: do not dereference a null node when an invalid
 node record is merged

---
 src/reader/CaliperMetadataDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index da4dfe6..9904691 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -224,7 +224,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
 
         Node* node = merge_node(node_id, attr_id, prnt_id, v_data);
 
-        if (node_id != node->id())
+        if (node && node_id != node->id())
             idmap.insert(std::make_pair(node_id, node->id()));
 
         return node;
-- 
2.43.0


From 710dd549cc403c83400b557cb29b020d26d85463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:37 +0000
Subject: [PATCH 35/78] fix: report read errors in CaliReader

---
 src/reader/CaliReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index bf8479a..431c4e5 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -261,6 +261,9 @@ struct CaliReader::CaliReaderImpl {
             fast_istringstream isstream { line.begin(), line.end() };
             read_record(isstream, db, idmap, node_proc, snap_proc);
         }
+
+        if (is.bad())
+            set_error("Error while reading the input stream");
     }
 };
 
-- 
2.43.0


From 72fdb83d4cf42de8abc667c7a6dcebfd5952cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:37 +0000
Subject: [PATCH 36/78] fix: do not resolve references to nodes missing in a
 stream to unrelated nodes

---
 src/reader/CaliReader.cpp | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index 431c4e5..02fbcb5 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -13,6 +13,7 @@
 #include <iostream>
 #include <fstream>
 #include <sstream>
+#include <unordered_set>
 #include <vector>
 
 using namespace cali;
@@ -134,6 +135,8 @@ struct CaliReader::CaliReaderImpl {
     std::string  m_error_msg;
     unsigned int m_num_read;
 
+    std::unordered_set<cali_id_t> m_node_ids; ///< IDs of the nodes read from the stream
+
     CaliReaderImpl() : m_error { false } {}
 
     void set_error(const std::string& msg)
@@ -142,6 +145,10 @@ struct CaliReader::CaliReaderImpl {
         m_error_msg = msg;
     }
 
+    //   An ID that was not defined in the stream is invalid, even if there is a
+    // node with this ID in the metadata db (the first 12 nodes are hard-coded).
+    bool is_known(cali_id_t id) const { return id < 12 || m_node_ids.count(id) > 0; }
+
     void read_node(fast_istringstream& is, CaliperMetadataDB& db, IdMap& idmap, NodeProcessFn& node_proc)
     {
         cali_id_t   attr_id = CALI_INV_ID;
@@ -167,11 +174,17 @@ struct CaliReader::CaliReaderImpl {
             return;
         }
 
+        if (!is_known(attr_id) || (prnt_id != CALI_INV_ID && !is_known(prnt_id))) {
+            set_error("Unknown attribute or parent ID in node record");
+            return;
+        }
+
         const Node* node = db.merge_node(node_id, attr_id, prnt_id, data_str, idmap);
 
-        if (node)
+        if (node) {
+            m_node_ids.insert(node_id);
             node_proc(db, node);
-        else
+        } else
             set_error("Invalid node record");
     }
 
@@ -198,10 +211,17 @@ struct CaliReader::CaliReaderImpl {
         std::vector<Entry> rec;
         rec.reserve(refs.size() + std::min(attr.size(), data.size()));
 
+        auto append_entry = [this, &rec](const Entry& e) {
+            if (e.empty())
+                set_error("Invalid node or attribute ID in snapshot record");
+            else
+                rec.push_back(e);
+        };
+
         for (cali_id_t id : refs)
-            rec.push_back(db.merge_entry(id, idmap));
+            append_entry(is_known(id) ? db.merge_entry(id, idmap) : Entry());
         for (size_t i = 0; i < std::min(attr.size(), data.size()); ++i)
-            rec.push_back(db.merge_entry(attr[i], data[i], idmap));
+            append_entry(is_known(attr[i]) ? db.merge_entry(attr[i], data[i], idmap) : Entry());
 
         snap_proc(db, rec);
     }
@@ -227,9 +247,15 @@ struct CaliReader::CaliReaderImpl {
             set_error("attr / data size mismatch");
 
         for (cali_id_t id : refs)
-            db.merge_global(id, idmap);
+            if (is_known(id))
+                db.merge_global(id, idmap);
+            else
+                set_error("Unknown node ID in globals record");
         for (size_t i = 0; i < std::min(attr.size(), data.size()); ++i)
-            db.merge_global(attr[i], data[i], idmap);
+            if (is_known(attr[i]))
+                db.merge_global(attr[i], data[i], idmap);
+            else
+                set_error("Unknown attribute ID in globals record");
     }
 
     void read_record(
@@ -254,6 +280,7 @@ struct CaliReader::CaliReaderImpl {
     void read(std::istream& is, CaliperMetadataDB& db, NodeProcessFn node_proc, SnapshotProcessFn snap_proc)
     {
         IdMap idmap;
+        m_node_ids.clear();
 
         for (std::string line; std::getline(is, line);) {
             if (line.empty())
-- 
2.43.0


From 5eddb6ab30e4d86ce8b6e71b35c3b811bc277aee Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 37/78] fix: alloc service: do not divide by a zero element
 size

---
 src/services/alloc/AllocService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index f607947..8181cce 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -47,7 +47,7 @@ struct AllocInfo {
     cali::Node* free_label_node;
     cali::Node* addr_label_nodes[MAX_ADDRESS_ATTRIBUTES];
 
-    size_t index_1D(uint64_t addr) const { return (addr - start_addr) / elem_size; }
+    size_t index_1D(uint64_t addr) const { return elem_size > 0 ? (addr - start_addr) / elem_size : 0; }
 };
 
 /// Three-way predicate to tell if given address is within AllocInfo's address range, less, or higher
@@ -184,7 +184,7 @@ class AllocService
         info.total_size = total_size;
         info.v_uid      = Variant(cali_make_variant_from_uint(++g_alloc_uid));
         info.elem_size  = elem_size;
-        info.num_elems  = total_size / elem_size;
+        info.num_elems  = elem_size > 0 ? total_size / elem_size : 0;
 
         Variant v_label(label);
 
-- 
2.43.0


From 84d6274cd50b50f916ac98fa13483fcb7a287f25 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:50:48 +0000
Subject: [PATCH 38/78] fix: alloc service: report sizes above 2 GiB correctly

---
 src/services/alloc/AllocService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index 8181cce..3c10e55 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -208,7 +208,7 @@ class AllocService
                 c,
                 chB,
                 info.alloc_label_node,
-                Variant(static_cast<int>(total_size)),
+                Variant(cali_make_variant_from_int64(total_size)),
                 info.v_uid,
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
@@ -256,7 +256,7 @@ class AllocService
                 c,
                 chB,
                 info.free_label_node,
-                Variant(-static_cast<int>(info.total_size)),
+                Variant(cali_make_variant_from_int64(-static_cast<int64_t>(info.total_size))),
                 info.v_uid,
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
-- 
2.43.0


From 9a878c88f996dc850d0cb50aa3fe55e545d51734 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:50:48 +0000
Subject: [PATCH 39/78] fix: alloc/allocstats: account for allocations over a
 stale range

---
 src/services/alloc/AllocService.cpp      | 22 +++++++++++++++++++++-
 src/services/alloc/AllocStatsService.cpp | 22 ++++++++++++++++++++--
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index 3c10e55..b02363f 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -213,9 +213,26 @@ class AllocService
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
 
+        // The free of a previous allocation at this address may have been
+        // missed (e.g., while the channel was inactive): it is replaced
+        uint64_t replaced_size = 0;
+        bool     is_replaced   = false;
+
+        {
+            std::lock_guard<std::mutex> g(g_tree_lock);
+
+            auto tree_node = g_tree.find(HasStartAddress(info.start_addr));
+
+            if (tree_node) {
+                is_replaced   = true;
+                replaced_size = (*tree_node).total_size;
+            }
+        }
+
         {
             std::lock_guard<std::mutex> g(g_hwm_lock);
 
+            g_active_mem -= replaced_size;
             g_active_mem += total_size;
             g_hwm        = std::max(g_hwm, g_active_mem);
             g_region_hwm = std::max(g_region_hwm, g_active_mem);
@@ -226,7 +243,10 @@ class AllocService
 
             g_tree.insert(info);
 
-            g_max_tracked = std::max(++g_current_tracked, g_max_tracked);
+            if (!is_replaced)
+                ++g_current_tracked;
+
+            g_max_tracked = std::max(g_current_tracked, g_max_tracked);
             ++g_total_tracked;
         }
     }
diff --git a/src/services/alloc/AllocStatsService.cpp b/src/services/alloc/AllocStatsService.cpp
index e691322..cfbb8b2 100644
--- a/src/services/alloc/AllocStatsService.cpp
+++ b/src/services/alloc/AllocStatsService.cpp
@@ -72,17 +72,34 @@ class AllocStatsService
         if (!path)
             return;
 
+        // The free of a previous allocation at this address may have been
+        // missed (e.g., while the channel was inactive): it is replaced
+        AllocInfo replaced { 0, nullptr };
+
         {
             AllocInfo info { size, path };
             std::lock_guard<std::mutex> g(g_alloc_map_lock);
-            g_alloc_map[addr] = info;
 
-            g_max_tracked = std::max(++g_current_tracked, g_max_tracked);
+            auto it = g_alloc_map.find(addr);
+
+            if (it != g_alloc_map.end()) {
+                replaced   = it->second;
+                it->second = info;
+            } else {
+                g_alloc_map[addr] = info;
+                ++g_current_tracked;
+            }
+
+            g_max_tracked = std::max(g_current_tracked, g_max_tracked);
             ++g_total_tracked;
         }
 
         {
             std::lock_guard<std::mutex> g(g_region_map_lock);
+
+            if (replaced.path)
+                g_region_map[replaced.path->id()].current_bytes -= replaced.bytes;
+
             auto it = g_region_map.find(path->id());
             if (it == g_region_map.end()) {
                 RegionInfo info { size, size, size, size, 1ull, path };
@@ -99,6 +116,7 @@ class AllocStatsService
         {
             std::lock_guard<std::mutex> g(g_hwm_lock);
 
+            g_active_mem -= replaced.bytes;
             g_active_mem += size;
             g_region_hwm = std::max(g_region_hwm, g_active_mem);
         }
-- 
2.43.0


From 858863c8e94f3acd1388c94afc9fcbc9fb3dda0c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:50:48 +0000
Subject: [PATCH 40/78] fix: alloc service: make adding memory address
 attributes thread-safe

---
 src/services/alloc/AllocService.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index b02363f..565dc6a 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -129,7 +129,10 @@ class AllocService
     };
 
     std::atomic<unsigned long> g_alloc_uid { 0 };
-    std::vector<alloc_attrs>   g_memoryaddress_attrs;
+    // Published through the count: attributes are added while other threads take snapshots
+    alloc_attrs                g_memoryaddress_attrs[MAX_ADDRESS_ATTRIBUTES];
+    std::atomic<int>           g_num_memoryaddress_attrs { 0 };
+    std::mutex                 g_memoryaddress_attrs_lock;
 
     cali::Node g_alloc_root_node { CALI_INV_ID, CALI_INV_ID, Variant() };
 
@@ -198,7 +201,9 @@ class AllocService
 
         std::fill_n(info.addr_label_nodes, MAX_ADDRESS_ATTRIBUTES, nullptr);
 
-        for (int i = 0; i < std::min<int>(g_memoryaddress_attrs.size(), MAX_ADDRESS_ATTRIBUTES); ++i) {
+        const int num_attrs = g_num_memoryaddress_attrs.load();
+
+        for (int i = 0; i < num_attrs; ++i) {
             info.addr_label_nodes[i] =
                 c->make_tree_entry(g_memoryaddress_attrs[i].alloc_label_attr, v_label, root_node);
         }
@@ -290,7 +295,9 @@ class AllocService
 
     void resolve_addresses(Caliper* c, const SnapshotView trigger_info, SnapshotBuilder& snapshot)
     {
-        for (int i = 0; i < std::min<int>(g_memoryaddress_attrs.size(), MAX_ADDRESS_ATTRIBUTES); ++i) {
+        const int num_attrs = g_num_memoryaddress_attrs.load();
+
+        for (int i = 0; i < num_attrs; ++i) {
             Entry e = trigger_info.get(g_memoryaddress_attrs[i].memoryaddress_attr);
 
             if (e.empty())
@@ -371,16 +378,21 @@ class AllocService
                                          CALI_ATTR_SCOPE_THREAD | CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS
                                      ) };
 
-        if (g_memoryaddress_attrs.size() >= MAX_ADDRESS_ATTRIBUTES)
+        std::lock_guard<std::mutex> g(g_memoryaddress_attrs_lock);
+
+        const int num_attrs = g_num_memoryaddress_attrs.load();
+
+        if (num_attrs >= MAX_ADDRESS_ATTRIBUTES)
             Log(1).stream() << "alloc: Can't perform lookup for more than " << MAX_ADDRESS_ATTRIBUTES
                             << " attributes. Skipping " << attr.name() << std::endl;
-        else
-            g_memoryaddress_attrs.push_back(attrs);
+        else {
+            g_memoryaddress_attrs[num_attrs] = attrs;
+            g_num_memoryaddress_attrs.store(num_attrs + 1);
+        }
     }
 
     void create_attr_cb(Caliper* c, const Attribute& attr)
     {
-        // Note: this isn't threadsafe!
         if (attr.get(class_memoryaddress_attr).to_bool() == true)
             make_address_attributes(c, attr);
     }
-- 
2.43.0


From f7f0c38558d1fab3ca46ce9bd15f74f5b21c5114 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:01:09 +0000
Subject: [PATCH 41/78] fix: region monitor: ignore ends of regions that began
 before the channel

---
 src/services/monitor/RegionMonitor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/services/monitor/RegionMonitor.cpp b/src/services/monitor/RegionMonitor.cpp
index 5bdb75d..3a7b5e9 100644
--- a/src/services/monitor/RegionMonitor.cpp
+++ b/src/services/monitor/RegionMonitor.cpp
@@ -77,6 +77,9 @@ class RegionMonitor
         if (!node)
             return;
 
+        if (m_time_stack.empty()) // region began before the channel was active
+            return;
+
         auto now  = std::chrono::high_resolution_clock::now();
         auto prev = m_time_stack.back();
         m_time_stack.pop_back();
-- 
2.43.0


From 861adc0b0e00a1d55c6add4b2417af74c7397789 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:01:09 +0000
Subject: [PATCH 42/78] fix: thread monitor: continue after interrupted sleeps

---
 src/services/monitor/ThreadMonitor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/services/monitor/ThreadMonitor.cpp b/src/services/monitor/ThreadMonitor.cpp
index e46d750..11db4a0 100644
--- a/src/services/monitor/ThreadMonitor.cpp
+++ b/src/services/monitor/ThreadMonitor.cpp
@@ -8,6 +8,7 @@
 
 #include "caliper/common/Log.h"
 
+#include <errno.h>
 #include <pthread.h>
 #include <time.h>
 
@@ -52,7 +53,7 @@ class ThreadMonitor
 
             do {
                 ret = nanosleep(&rem, &rem);
-            } while (ret == EINTR);
+            } while (ret == -1 && errno == EINTR);
 
             if (ret != 0) {
                 Log(0).perror(errno, "monitor: nanosleep(): ");
-- 
2.43.0


From 8dc9e557b8fc90587f480d95b541483b6b3faa6d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:01:09 +0000
Subject: [PATCH 43/78] fix: loop monitor: compare complete loop names with
 target_loops

---
 src/services/monitor/LoopMonitor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/services/monitor/LoopMonitor.cpp b/src/services/monitor/LoopMonitor.cpp
index 5ead469..2e082f6 100644
--- a/src/services/monitor/LoopMonitor.cpp
+++ b/src/services/monitor/LoopMonitor.cpp
@@ -9,6 +9,7 @@
 #include "caliper/common/Log.h"
 
 #include <chrono>
+#include <cstring>
 #include <vector>
 
 using namespace cali;
@@ -48,7 +49,7 @@ class LoopMonitor
             return true;
 
         for (const std::string& s : target_loops)
-            if (strncmp(static_cast<const char*>(value.data()), s.data(), s.size()) == 0)
+            if (value.size() == s.size() && memcmp(value.data(), s.data(), s.size()) == 0)
                 return true;
 
         return false;
-- 
2.43.0


From 6c23b816fc06ea311f6157156790cd87f05a38d9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:01:09 +0000
Subject: [PATCH 44/78] fix: loop monitor: support negative iteration numbers

---
 src/services/monitor/LoopMonitor.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/services/monitor/LoopMonitor.cpp b/src/services/monitor/LoopMonitor.cpp
index 2e082f6..f4668e6 100644
--- a/src/services/monitor/LoopMonitor.cpp
+++ b/src/services/monitor/LoopMonitor.cpp
@@ -59,11 +59,10 @@ class LoopMonitor
     {
         Entry  data[] = { { num_iterations_attr, Variant(num_iterations) },
                           { start_iteration_attr, Variant(start_iteration) } };
-        size_t n      = start_iteration >= 0 ? 2 : 1;
+        size_t n      = num_iterations > 0 ? 2 : 1;
         c->push_snapshot(chB, SnapshotView(n, data));
 
-        start_iteration = -1;
-        num_iterations  = 0;
+        num_iterations = 0;
         ++num_snapshots;
 
         last_snapshot_time = std::chrono::high_resolution_clock::now();
@@ -78,8 +77,7 @@ class LoopMonitor
             }
             ++loop_level;
         } else if (loop_level == target_level && attr.get(cali::class_iteration_attr).to_bool()) {
-            ++num_iterations;
-            if (start_iteration < 0)
+            if (num_iterations++ == 0)
                 start_iteration = value.to_int();
         }
     }
-- 
2.43.0


From 7997c4ddfa9b818527aeb25b71704a3aa87adfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:01:09 +0000
Subject: [PATCH 45/78] fix: loop and region monitor: measure time intervals
 with a steady clock

---
 src/services/monitor/LoopMonitor.cpp   | 6 +++---
 src/services/monitor/RegionMonitor.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/services/monitor/LoopMonitor.cpp b/src/services/monitor/LoopMonitor.cpp
index f4668e6..319fcb5 100644
--- a/src/services/monitor/LoopMonitor.cpp
+++ b/src/services/monitor/LoopMonitor.cpp
@@ -41,7 +41,7 @@ class LoopMonitor
 
     std::vector<std::string> target_loops;
 
-    std::chrono::high_resolution_clock::time_point last_snapshot_time;
+    std::chrono::steady_clock::time_point last_snapshot_time;
 
     bool is_target_loop(const Variant& value)
     {
@@ -65,7 +65,7 @@ class LoopMonitor
         num_iterations = 0;
         ++num_snapshots;
 
-        last_snapshot_time = std::chrono::high_resolution_clock::now();
+        last_snapshot_time = std::chrono::steady_clock::now();
     }
 
     void begin_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& value)
@@ -96,7 +96,7 @@ class LoopMonitor
             if (iteration_interval > 0 && num_iterations % iteration_interval == 0)
                 do_snapshot = true;
             if (time_interval > 0) {
-                auto now = std::chrono::high_resolution_clock::now();
+                auto now = std::chrono::steady_clock::now();
                 if (std::chrono::duration<double>(now - last_snapshot_time).count() > time_interval)
                     do_snapshot = true;
             }
diff --git a/src/services/monitor/RegionMonitor.cpp b/src/services/monitor/RegionMonitor.cpp
index 3a7b5e9..5a47452 100644
--- a/src/services/monitor/RegionMonitor.cpp
+++ b/src/services/monitor/RegionMonitor.cpp
@@ -24,7 +24,7 @@ class RegionMonitor
     };
 
     std::unordered_map<cali_id_t, RegionInfo>                   m_tracking_regions;
-    std::vector<std::chrono::high_resolution_clock::time_point> m_time_stack;
+    std::vector<std::chrono::steady_clock::time_point> m_time_stack;
 
     double m_min_interval;
     bool   m_measuring;
@@ -45,7 +45,7 @@ class RegionMonitor
         if (!node)
             return;
 
-        m_time_stack.push_back(std::chrono::high_resolution_clock::now());
+        m_time_stack.push_back(std::chrono::steady_clock::now());
 
         auto it = m_tracking_regions.find(node->id());
 
@@ -80,7 +80,7 @@ class RegionMonitor
         if (m_time_stack.empty()) // region began before the channel was active
             return;
 
-        auto now  = std::chrono::high_resolution_clock::now();
+        auto now  = std::chrono::steady_clock::now();
         auto prev = m_time_stack.back();
         m_time_stack.pop_back();
 
-- 
2.43.0


From e9932b3fbfcd827968c8b3cef18e78ff072edb1b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 46/78] fix: loop_monitor, loop_statistics, region_monitor:
 keep state per thread

---
 src/services/LoopStatistics.cpp        | 27 ++++++----
 src/services/monitor/LoopMonitor.cpp   | 75 ++++++++++++++------------
 src/services/monitor/RegionMonitor.cpp | 69 +++++++++++++++---------
 src/services/util/PerThread.hpp        | 49 +++++++++++++++++
 4 files changed, 150 insertions(+), 70 deletions(-)
 create mode 100644 src/services/util/PerThread.hpp

diff --git a/src/services/LoopStatistics.cpp b/src/services/LoopStatistics.cpp
index 652216f..22270b1 100644
--- a/src/services/LoopStatistics.cpp
+++ b/src/services/LoopStatistics.cpp
@@ -3,6 +3,8 @@
 
 #include "Services.h"
 
+#include "util/PerThread.hpp"
+
 #include "caliper/Caliper.h"
 #include "caliper/SnapshotRecord.h"
 
@@ -33,32 +35,37 @@ class LoopStatisticsService
         uint64_t          num_iterations;
     };
 
-    std::vector<LoopInfo> m_loop_info;
+    // The stacks of open loops in each thread
+    util::PerThread<std::vector<LoopInfo>> m_loop_info;
 
     Attribute m_iter_duration_attr;
     Attribute m_iter_count_attr;
 
     void begin_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& data)
     {
+        std::vector<LoopInfo>& loops = m_loop_info.get();
+
         if (attr == loop_attr) {
-            m_loop_info.emplace_back(LoopInfo { clock::now(), 0 });
-        } else if (attr.get(class_iteration_attr).to_bool() && !m_loop_info.empty()) {
-            m_loop_info.back().iter_start_time = clock::now();
-            m_loop_info.back().num_iterations++;
+            loops.emplace_back(LoopInfo { clock::now(), 0 });
+        } else if (attr.get(class_iteration_attr).to_bool() && !loops.empty()) {
+            loops.back().iter_start_time = clock::now();
+            loops.back().num_iterations++;
         }
     }
 
     void end_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& data)
     {
-        if (m_loop_info.empty())
+        std::vector<LoopInfo>& loops = m_loop_info.get();
+
+        if (loops.empty())
             return;
         if (attr == loop_attr) {
-            Entry e { m_iter_count_attr, Variant(m_loop_info.back().num_iterations) };
+            Entry e { m_iter_count_attr, Variant(loops.back().num_iterations) };
             c->push_snapshot(chB, SnapshotView(e));
-            m_loop_info.pop_back();
+            loops.pop_back();
         } else if (attr.get(class_iteration_attr).to_bool()) {
             uint64_t t =
-                std::chrono::duration_cast<std::chrono::nanoseconds>(clock::now() - m_loop_info.back().iter_start_time)
+                std::chrono::duration_cast<std::chrono::nanoseconds>(clock::now() - loops.back().iter_start_time)
                     .count();
             Entry e { m_iter_duration_attr, Variant(t) };
             c->push_snapshot(chB, SnapshotView(e));
@@ -77,8 +84,6 @@ class LoopStatisticsService
             CALI_TYPE_UINT,
             CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS
         );
-
-        m_loop_info.reserve(4);
     }
 
 public:
diff --git a/src/services/monitor/LoopMonitor.cpp b/src/services/monitor/LoopMonitor.cpp
index 319fcb5..f03897c 100644
--- a/src/services/monitor/LoopMonitor.cpp
+++ b/src/services/monitor/LoopMonitor.cpp
@@ -3,11 +3,14 @@
 
 #include "../Services.h"
 
+#include "../util/PerThread.hpp"
+
 #include "caliper/Caliper.h"
 #include "caliper/SnapshotRecord.h"
 
 #include "caliper/common/Log.h"
 
+#include <atomic>
 #include <chrono>
 #include <cstring>
 #include <vector>
@@ -27,11 +30,19 @@ namespace
 
 class LoopMonitor
 {
-    int loop_level;
-    int target_level;
-    int start_iteration;
-    int num_iterations;
-    int num_snapshots;
+    // Loops are monitored in each thread individually
+    struct LoopInfo {
+        int loop_level      { 0 };
+        int target_level    { -1 };
+        int start_iteration { -1 };
+        int num_iterations  { 0 };
+
+        std::chrono::steady_clock::time_point last_snapshot_time;
+    };
+
+    util::PerThread<LoopInfo> loop_info;
+
+    std::atomic<int> num_snapshots;
 
     int    iteration_interval;
     double time_interval;
@@ -41,8 +52,6 @@ class LoopMonitor
 
     std::vector<std::string> target_loops;
 
-    std::chrono::steady_clock::time_point last_snapshot_time;
-
     bool is_target_loop(const Variant& value)
     {
         if (target_loops.empty())
@@ -55,54 +64,58 @@ class LoopMonitor
         return false;
     }
 
-    void snapshot(Caliper* c, ChannelBody* chB)
+    void snapshot(Caliper* c, ChannelBody* chB, LoopInfo& info)
     {
-        Entry  data[] = { { num_iterations_attr, Variant(num_iterations) },
-                          { start_iteration_attr, Variant(start_iteration) } };
-        size_t n      = num_iterations > 0 ? 2 : 1;
+        Entry  data[] = { { num_iterations_attr, Variant(info.num_iterations) },
+                          { start_iteration_attr, Variant(info.start_iteration) } };
+        size_t n      = info.num_iterations > 0 ? 2 : 1;
         c->push_snapshot(chB, SnapshotView(n, data));
 
-        num_iterations = 0;
+        info.num_iterations = 0;
         ++num_snapshots;
 
-        last_snapshot_time = std::chrono::steady_clock::now();
+        info.last_snapshot_time = std::chrono::steady_clock::now();
     }
 
     void begin_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& value)
     {
+        LoopInfo& info = loop_info.get();
+
         if (attr == loop_attr) {
-            if (target_level < 0 && is_target_loop(value)) {
-                target_level = loop_level + 1;
-                snapshot(c, chB);
+            if (info.target_level < 0 && is_target_loop(value)) {
+                info.target_level = info.loop_level + 1;
+                snapshot(c, chB, info);
             }
-            ++loop_level;
-        } else if (loop_level == target_level && attr.get(cali::class_iteration_attr).to_bool()) {
-            if (num_iterations++ == 0)
-                start_iteration = value.to_int();
+            ++info.loop_level;
+        } else if (info.loop_level == info.target_level && attr.get(cali::class_iteration_attr).to_bool()) {
+            if (info.num_iterations++ == 0)
+                info.start_iteration = value.to_int();
         }
     }
 
     void end_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& value)
     {
+        LoopInfo& info = loop_info.get();
+
         if (attr == loop_attr) {
-            if (loop_level == target_level) {
-                snapshot(c, chB);
-                target_level = -1;
+            if (info.loop_level == info.target_level) {
+                snapshot(c, chB, info);
+                info.target_level = -1;
             }
-            --loop_level;
-        } else if (loop_level == target_level && attr.get(cali::class_iteration_attr).to_bool()) {
+            --info.loop_level;
+        } else if (info.loop_level == info.target_level && attr.get(cali::class_iteration_attr).to_bool()) {
             bool do_snapshot = false;
 
-            if (iteration_interval > 0 && num_iterations % iteration_interval == 0)
+            if (iteration_interval > 0 && info.num_iterations % iteration_interval == 0)
                 do_snapshot = true;
             if (time_interval > 0) {
                 auto now = std::chrono::steady_clock::now();
-                if (std::chrono::duration<double>(now - last_snapshot_time).count() > time_interval)
+                if (std::chrono::duration<double>(now - info.last_snapshot_time).count() > time_interval)
                     do_snapshot = true;
             }
 
             if (do_snapshot)
-                snapshot(c, chB);
+                snapshot(c, chB, info);
         }
     }
 
@@ -113,11 +126,7 @@ class LoopMonitor
     }
 
     LoopMonitor(Caliper* c, Channel* channel)
-        : loop_level(0),
-          target_level(-1),
-          start_iteration(-1),
-          num_iterations(0),
-          num_snapshots(0),
+        : num_snapshots(0),
           iteration_interval(0),
           time_interval(0.0)
     {
diff --git a/src/services/monitor/RegionMonitor.cpp b/src/services/monitor/RegionMonitor.cpp
index 5a47452..2bc2790 100644
--- a/src/services/monitor/RegionMonitor.cpp
+++ b/src/services/monitor/RegionMonitor.cpp
@@ -3,11 +3,14 @@
 
 #include "../Services.h"
 
+#include "../util/PerThread.hpp"
+
 #include "caliper/Caliper.h"
 #include "caliper/SnapshotRecord.h"
 
 #include "caliper/common/Log.h"
 
+#include <atomic>
 #include <chrono>
 #include <unordered_map>
 
@@ -23,21 +26,31 @@ class RegionMonitor
         double child_time;
     };
 
-    std::unordered_map<cali_id_t, RegionInfo>                   m_tracking_regions;
-    std::vector<std::chrono::steady_clock::time_point> m_time_stack;
+    // Regions are monitored in each thread individually
+    struct ThreadInfo {
+        std::unordered_map<cali_id_t, RegionInfo>          tracking_regions;
+        std::vector<std::chrono::steady_clock::time_point> time_stack;
+
+        bool measuring { false };
+        int  skip      { 0 };
+    };
+
+    util::PerThread<ThreadInfo> m_thread_info;
 
     double m_min_interval;
-    bool   m_measuring;
-    int    m_skip;
 
-    unsigned m_num_measured;
+    std::atomic<unsigned> m_num_marked;
+    std::atomic<unsigned> m_num_measured;
 
     void post_begin_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant&)
     {
         if (!attr.is_nested())
             return;
-        if (m_measuring) {
-            ++m_skip;
+
+        ThreadInfo& info = m_thread_info.get();
+
+        if (info.measuring) {
+            ++info.skip;
             return;
         }
 
@@ -45,16 +58,16 @@ class RegionMonitor
         if (!node)
             return;
 
-        m_time_stack.push_back(std::chrono::steady_clock::now());
+        info.time_stack.push_back(std::chrono::steady_clock::now());
 
-        auto it = m_tracking_regions.find(node->id());
+        auto it = info.tracking_regions.find(node->id());
 
-        if (it != m_tracking_regions.end()) {
+        if (it != info.tracking_regions.end()) {
             if (it->second.inclusive_time > 2.0 * it->second.child_time) {
                 SnapshotBuilder tmp;
                 c->pull_snapshot(chB, SnapshotView(), tmp);
-                m_measuring = true;
-                m_skip      = 1;
+                info.measuring = true;
+                info.skip      = 1;
             }
         }
     }
@@ -64,11 +77,13 @@ class RegionMonitor
         if (!attr.is_nested())
             return;
 
-        if (m_measuring) {
-            if (--m_skip > 0)
+        ThreadInfo& info = m_thread_info.get();
+
+        if (info.measuring) {
+            if (--info.skip > 0)
                 return;
 
-            m_measuring = false;
+            info.measuring = false;
             ++m_num_measured;
             c->push_snapshot(chB, SnapshotView());
         }
@@ -77,23 +92,24 @@ class RegionMonitor
         if (!node)
             return;
 
-        if (m_time_stack.empty()) // region began before the channel was active
+        if (info.time_stack.empty()) // region began before the channel was active
             return;
 
         auto now  = std::chrono::steady_clock::now();
-        auto prev = m_time_stack.back();
-        m_time_stack.pop_back();
+        auto prev = info.time_stack.back();
+        info.time_stack.pop_back();
 
         double duration = std::chrono::duration<double>(now - prev).count();
 
         if (duration > m_min_interval) {
-            auto it = m_tracking_regions.find(node->id());
+            auto it = info.tracking_regions.find(node->id());
 
-            if (it != m_tracking_regions.end())
+            if (it != info.tracking_regions.end())
                 it->second.inclusive_time = duration;
             else {
                 RegionInfo reg { duration, 0.0 };
-                m_tracking_regions.insert(std::make_pair(node->id(), reg));
+                info.tracking_regions.insert(std::make_pair(node->id(), reg));
+                ++m_num_marked;
             }
 
             node = node->parent();
@@ -101,24 +117,25 @@ class RegionMonitor
             if (!node || node->id() == CALI_INV_ID)
                 return;
 
-            it = m_tracking_regions.find(node->id());
+            it = info.tracking_regions.find(node->id());
 
-            if (it != m_tracking_regions.end())
+            if (it != info.tracking_regions.end())
                 it->second.child_time += duration;
             else {
                 RegionInfo reg { 0.0, duration };
-                m_tracking_regions.insert(std::make_pair(node->id(), reg));
+                info.tracking_regions.insert(std::make_pair(node->id(), reg));
+                ++m_num_marked;
             }
         }
     }
 
     void finish_cb(Caliper*, Channel* channel)
     {
-        Log(1).stream() << channel->name() << ": " << m_tracking_regions.size() << " regions marked, " << m_num_measured
+        Log(1).stream() << channel->name() << ": " << m_num_marked << " regions marked, " << m_num_measured
                         << " instances measured." << std::endl;
     }
 
-    RegionMonitor(Caliper*, Channel* channel) : m_measuring(false), m_skip(0), m_num_measured(0)
+    RegionMonitor(Caliper*, Channel* channel) : m_num_marked(0), m_num_measured(0)
     {
         ConfigSet config = services::init_config_from_spec(channel->config(), s_spec);
         m_min_interval   = config.get("time_interval").to_double();
diff --git a/src/services/util/PerThread.hpp b/src/services/util/PerThread.hpp
new file mode 100644
index 0000000..2bad501
--- /dev/null
+++ b/src/services/util/PerThread.hpp
@@ -0,0 +1,49 @@
+// Copyright (c) 2015-2025, Lawrence Livermore National Security, LLC.
+// See top-level LICENSE file for details.
+
+#pragma once
+
+#include <atomic>
+#include <memory>
+#include <mutex>
+#include <unordered_map>
+
+namespace cali
+{
+namespace util
+{
+
+/// \brief Keeps a separate object of type \a T for each thread accessing it
+template <class T>
+class PerThread
+{
+    std::unordered_map<unsigned, std::unique_ptr<T>> m_map;
+    std::mutex                                       m_map_lock;
+
+    // std::thread::id can be reused, but we need unique IDs
+    static unsigned this_thread_id()
+    {
+        static std::atomic<unsigned> s_next_id { 0 };
+        thread_local unsigned        id = s_next_id++;
+
+        return id;
+    }
+
+public:
+
+    T& get()
+    {
+        unsigned id = this_thread_id();
+
+        std::lock_guard<std::mutex> g(m_map_lock);
+
+        auto& p = m_map[id];
+        if (!p)
+            p.reset(new T());
+
+        return *p;
+    }
+};
+
+} // namespace util
+} // namespace cali
-- 
2.43.0


From 3f3bed8acf964eeceb043141192a1cc98213a771 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:10:59 +0000
Subject: [PATCH 47/78] fix: timeseries: keep the interval start per channel
 and serialize intervals

---
 src/services/monitor/Timeseries.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/services/monitor/Timeseries.cpp b/src/services/monitor/Timeseries.cpp
index ed0d70b..0d9aebe 100644
--- a/src/services/monitor/Timeseries.cpp
+++ b/src/services/monitor/Timeseries.cpp
@@ -12,6 +12,7 @@
 
 #include <array>
 #include <chrono>
+#include <mutex>
 #include <vector>
 
 using namespace cali;
@@ -38,14 +39,26 @@ class TimeseriesService
 
     unsigned m_snapshots;
 
+    double                                m_start_timestamp;
+    std::chrono::steady_clock::time_point m_start_time;
+    std::mutex                            m_interval_lock;
+
     static const char* s_profile_spec;
 
     void snapshot_cb(Caliper* c, SnapshotView info, SnapshotBuilder& srec)
     {
-        double  ts_now = get_timestamp();
-        Variant v_prev = c->exchange(m_timestamp_attr, Variant(ts_now));
+        // Intervals belong to the channel: any thread may end the current one.
+        // Flushing and clearing the profile must not overlap with another one.
+        std::lock_guard<std::mutex> g(m_interval_lock);
+
+        auto   now     = std::chrono::steady_clock::now();
+        double ts_prev = m_start_timestamp;
+        double elapsed = std::chrono::duration<double>(now - m_start_time).count();
+
+        m_start_timestamp = get_timestamp();
+        m_start_time      = now;
 
-        std::array<Entry, 2> ts_entries = { Entry(m_timestamp_attr, v_prev),
+        std::array<Entry, 2> ts_entries = { Entry(m_timestamp_attr, Variant(ts_prev)),
                                             Entry(m_snapshot_attr, cali_make_variant_from_uint(m_snapshots)) };
 
         Channel prof_chn = m_timeprofile->channel();
@@ -67,14 +80,15 @@ class TimeseriesService
         c->clear(&prof_chn);
 
         srec.append(ts_entries.size(), ts_entries.data());
-        srec.append(m_duration_attr, Variant(ts_now - v_prev.to_double()));
+        srec.append(m_duration_attr, Variant(elapsed));
 
         ++m_snapshots;
     }
 
     void post_init_cb(Caliper* c, Channel*)
     {
-        c->set(m_timestamp_attr, Variant(get_timestamp()));
+        m_start_timestamp = get_timestamp();
+        m_start_time      = std::chrono::steady_clock::now();
         m_timeprofile->start();
     }
 
@@ -84,7 +98,7 @@ class TimeseriesService
     }
 
     TimeseriesService(Caliper* c, Channel* channel, ConfigManager::ChannelPtr prof)
-        : m_channel { *channel }, m_timeprofile { prof }, m_snapshots { 0 }
+        : m_channel { *channel }, m_timeprofile { prof }, m_snapshots { 0 }, m_start_timestamp { 0.0 }
     {
         m_timestamp_attr =
             c->create_attribute("timeseries.starttime", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
-- 
2.43.0


From 39d054f546b390f7376bea3fe12a40ebaa474224 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 48/78] fix: loop/region monitors: handle begin/end events
 missed while inactive

---
 src/services/LoopStatistics.cpp        | 70 +++++++++++++++++++-------
 src/services/monitor/LoopMonitor.cpp   | 61 +++++++++++++++++-----
 src/services/monitor/RegionMonitor.cpp | 66 +++++++++++++++---------
 3 files changed, 142 insertions(+), 55 deletions(-)

diff --git a/src/services/LoopStatistics.cpp b/src/services/LoopStatistics.cpp
index 22270b1..a3ee480 100644
--- a/src/services/LoopStatistics.cpp
+++ b/src/services/LoopStatistics.cpp
@@ -9,6 +9,7 @@
 #include "caliper/SnapshotRecord.h"
 
 #include "caliper/common/Log.h"
+#include "caliper/common/Node.h"
 
 #include <chrono>
 #include <vector>
@@ -32,7 +33,8 @@ class LoopStatisticsService
 
     struct LoopInfo {
         clock::time_point iter_start_time;
-        uint64_t          num_iterations;
+        uint64_t          num_iterations { 0 };
+        bool              in_iteration   { false };
     };
 
     // The stacks of open loops in each thread
@@ -41,34 +43,64 @@ class LoopStatisticsService
     Attribute m_iter_duration_attr;
     Attribute m_iter_count_attr;
 
-    void begin_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& data)
+    /// \brief Return the number of open loops in this thread. We can't count
+    ///   begin/end events as we may miss some while the channel is inactive.
+    static size_t loop_level(Caliper* c)
     {
-        std::vector<LoopInfo>& loops = m_loop_info.get();
+        size_t level = 0;
+
+        for (const Node* node = c->get_path_node().node(); node; node = node->parent())
+            if (node->attribute() == loop_attr.id())
+                ++level;
 
+        return level;
+    }
+
+    void begin_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& data)
+    {
         if (attr == loop_attr) {
-            loops.emplace_back(LoopInfo { clock::now(), 0 });
-        } else if (attr.get(class_iteration_attr).to_bool() && !loops.empty()) {
-            loops.back().iter_start_time = clock::now();
-            loops.back().num_iterations++;
+            std::vector<LoopInfo>& loops = m_loop_info.get();
+
+            loops.resize(loop_level(c));
+            loops.emplace_back(LoopInfo());
+        } else if (attr.get(class_iteration_attr).to_bool()) {
+            std::vector<LoopInfo>& loops = m_loop_info.get();
+
+            loops.resize(loop_level(c));
+
+            if (!loops.empty()) {
+                loops.back().iter_start_time = clock::now();
+                loops.back().num_iterations++;
+                loops.back().in_iteration = true;
+            }
         }
     }
 
     void end_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& data)
     {
-        std::vector<LoopInfo>& loops = m_loop_info.get();
-
-        if (loops.empty())
-            return;
         if (attr == loop_attr) {
-            Entry e { m_iter_count_attr, Variant(loops.back().num_iterations) };
-            c->push_snapshot(chB, SnapshotView(e));
-            loops.pop_back();
+            std::vector<LoopInfo>& loops = m_loop_info.get();
+
+            loops.resize(loop_level(c));
+
+            if (!loops.empty()) {
+                Entry e { m_iter_count_attr, Variant(loops.back().num_iterations) };
+                c->push_snapshot(chB, SnapshotView(e));
+                loops.pop_back();
+            }
         } else if (attr.get(class_iteration_attr).to_bool()) {
-            uint64_t t =
-                std::chrono::duration_cast<std::chrono::nanoseconds>(clock::now() - loops.back().iter_start_time)
-                    .count();
-            Entry e { m_iter_duration_attr, Variant(t) };
-            c->push_snapshot(chB, SnapshotView(e));
+            std::vector<LoopInfo>& loops = m_loop_info.get();
+
+            loops.resize(loop_level(c));
+
+            if (!loops.empty() && loops.back().in_iteration) {
+                uint64_t t =
+                    std::chrono::duration_cast<std::chrono::nanoseconds>(clock::now() - loops.back().iter_start_time)
+                        .count();
+                Entry e { m_iter_duration_attr, Variant(t) };
+                c->push_snapshot(chB, SnapshotView(e));
+                loops.back().in_iteration = false;
+            }
         }
     }
 
diff --git a/src/services/monitor/LoopMonitor.cpp b/src/services/monitor/LoopMonitor.cpp
index f03897c..8f0db70 100644
--- a/src/services/monitor/LoopMonitor.cpp
+++ b/src/services/monitor/LoopMonitor.cpp
@@ -9,6 +9,7 @@
 #include "caliper/SnapshotRecord.h"
 
 #include "caliper/common/Log.h"
+#include "caliper/common/Node.h"
 
 #include <atomic>
 #include <chrono>
@@ -32,7 +33,6 @@ class LoopMonitor
 {
     // Loops are monitored in each thread individually
     struct LoopInfo {
-        int loop_level      { 0 };
         int target_level    { -1 };
         int start_iteration { -1 };
         int num_iterations  { 0 };
@@ -52,6 +52,28 @@ class LoopMonitor
 
     std::vector<std::string> target_loops;
 
+    /// \brief Return the number of open loops in this thread. We can't count
+    ///   begin/end events as we may miss some while the channel is inactive.
+    static int loop_level(Caliper* c)
+    {
+        int level = 0;
+
+        for (const Node* node = c->get_path_node().node(); node; node = node->parent())
+            if (node->attribute() == loop_attr.id())
+                ++level;
+
+        return level;
+    }
+
+    static void reset_if_ended(LoopInfo& info, int level)
+    {
+        // the end of the target loop was missed
+        if (info.target_level > level) {
+            info.target_level   = -1;
+            info.num_iterations = 0;
+        }
+    }
+
     bool is_target_loop(const Variant& value)
     {
         if (target_loops.empty())
@@ -79,31 +101,44 @@ class LoopMonitor
 
     void begin_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& value)
     {
-        LoopInfo& info = loop_info.get();
-
         if (attr == loop_attr) {
+            LoopInfo& info  = loop_info.get();
+            int       level = loop_level(c);
+
+            reset_if_ended(info, level);
+
             if (info.target_level < 0 && is_target_loop(value)) {
-                info.target_level = info.loop_level + 1;
+                info.target_level = level + 1;
                 snapshot(c, chB, info);
             }
-            ++info.loop_level;
-        } else if (info.loop_level == info.target_level && attr.get(cali::class_iteration_attr).to_bool()) {
-            if (info.num_iterations++ == 0)
-                info.start_iteration = value.to_int();
+        } else if (attr.get(cali::class_iteration_attr).to_bool()) {
+            LoopInfo& info = loop_info.get();
+
+            if (loop_level(c) == info.target_level) {
+                if (info.num_iterations++ == 0)
+                    info.start_iteration = value.to_int();
+            }
         }
     }
 
     void end_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& value)
     {
-        LoopInfo& info = loop_info.get();
-
         if (attr == loop_attr) {
-            if (info.loop_level == info.target_level) {
+            LoopInfo& info  = loop_info.get();
+            int       level = loop_level(c);
+
+            reset_if_ended(info, level);
+
+            if (level == info.target_level) {
                 snapshot(c, chB, info);
                 info.target_level = -1;
             }
-            --info.loop_level;
-        } else if (info.loop_level == info.target_level && attr.get(cali::class_iteration_attr).to_bool()) {
+        } else if (attr.get(cali::class_iteration_attr).to_bool()) {
+            LoopInfo& info = loop_info.get();
+
+            if (loop_level(c) != info.target_level)
+                return;
+
             bool do_snapshot = false;
 
             if (iteration_interval > 0 && info.num_iterations % iteration_interval == 0)
diff --git a/src/services/monitor/RegionMonitor.cpp b/src/services/monitor/RegionMonitor.cpp
index 2bc2790..4520e90 100644
--- a/src/services/monitor/RegionMonitor.cpp
+++ b/src/services/monitor/RegionMonitor.cpp
@@ -31,8 +31,7 @@ class RegionMonitor
         std::unordered_map<cali_id_t, RegionInfo>          tracking_regions;
         std::vector<std::chrono::steady_clock::time_point> time_stack;
 
-        bool measuring { false };
-        int  skip      { 0 };
+        size_t measuring_level { 0 };
     };
 
     util::PerThread<ThreadInfo> m_thread_info;
@@ -42,22 +41,38 @@ class RegionMonitor
     std::atomic<unsigned> m_num_marked;
     std::atomic<unsigned> m_num_measured;
 
-    void post_begin_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant&)
+    /// \brief Return the depth of region \a node. We can't count begin/end
+    ///   events as we may miss some while the channel is inactive.
+    static size_t region_level(const Node* node)
     {
-        if (!attr.is_nested())
-            return;
+        size_t level = 0;
 
-        ThreadInfo& info = m_thread_info.get();
+        for (; node && node->id() != CALI_INV_ID; node = node->parent())
+            ++level;
 
-        if (info.measuring) {
-            ++info.skip;
+        return level;
+    }
+
+    void post_begin_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant&)
+    {
+        if (!attr.is_nested())
             return;
-        }
 
         const Node* node = c->get(attr).node();
         if (!node)
             return;
 
+        ThreadInfo& info  = m_thread_info.get();
+        size_t      level = region_level(node);
+
+        if (info.measuring_level > 0) {
+            if (level > info.measuring_level)
+                return;
+
+            info.measuring_level = 0; // we missed the end
+        }
+
+        info.time_stack.resize(level - 1);
         info.time_stack.push_back(std::chrono::steady_clock::now());
 
         auto it = info.tracking_regions.find(node->id());
@@ -66,8 +81,7 @@ class RegionMonitor
             if (it->second.inclusive_time > 2.0 * it->second.child_time) {
                 SnapshotBuilder tmp;
                 c->pull_snapshot(chB, SnapshotView(), tmp);
-                info.measuring = true;
-                info.skip      = 1;
+                info.measuring_level = level;
             }
         }
     }
@@ -77,28 +91,34 @@ class RegionMonitor
         if (!attr.is_nested())
             return;
 
-        ThreadInfo& info = m_thread_info.get();
+        const Node* node = c->get(attr).node();
+        if (!node)
+            return;
+
+        ThreadInfo& info  = m_thread_info.get();
+        size_t      level = region_level(node);
 
-        if (info.measuring) {
-            if (--info.skip > 0)
+        if (info.measuring_level > 0) {
+            if (level > info.measuring_level)
                 return;
 
-            info.measuring = false;
-            ++m_num_measured;
-            c->push_snapshot(chB, SnapshotView());
-        }
+            if (level == info.measuring_level) {
+                ++m_num_measured;
+                c->push_snapshot(chB, SnapshotView());
+            }
 
-        const Node* node = c->get(attr).node();
-        if (!node)
-            return;
+            info.measuring_level = 0;
+        }
 
-        if (info.time_stack.empty()) // region began before the channel was active
-            return;
+        info.time_stack.resize(level);
 
         auto now  = std::chrono::steady_clock::now();
         auto prev = info.time_stack.back();
         info.time_stack.pop_back();
 
+        if (prev == std::chrono::steady_clock::time_point()) // region began while the channel was inactive
+            return;
+
         double duration = std::chrono::duration<double>(now - prev).count();
 
         if (duration > m_min_interval) {
-- 
2.43.0


From e4d63a3617c91a3bc4455f2e99b6298c19a2bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 03:23:43 +0000
Subject: [PATCH 49/78] fix: handle a full context tree: report it and stop
 tracking instead of crashing

---
 include/caliper/common/Entry.h       |   2 +-
 src/caliper/Caliper.cpp              | 127 +++++++++++++++++++++------
 src/caliper/MetadataTree.cpp         |  33 +++++--
 src/common/Entry.cpp                 |   6 +-
 src/services/event/EventTrigger.cpp  |  23 +++--
 src/services/validator/validator.cpp |   2 +-
 6 files changed, 147 insertions(+), 46 deletions(-)

diff --git a/include/caliper/common/Entry.h b/include/caliper/common/Entry.h
index 2f8a529..96ee28f 100644
--- a/include/caliper/common/Entry.h
+++ b/include/caliper/common/Entry.h
@@ -41,7 +41,7 @@ public:
     constexpr Entry() : m_node(nullptr) {}
 
     /// @brief Construct a reference entry from \a node
-    Entry(Node* node) : m_node(node), m_value(node->data()) {}
+    Entry(Node* node) : m_node(node), m_value(node ? node->data() : Variant()) {}
 
     /// @brief Construct an immediate entry from \a attr, \a val
     Entry(const Attribute& attr, const Variant& val) : m_node(attr.node()), m_value(val) {}
diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index be6c8b2..caceda1 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -138,7 +138,8 @@ std::vector<Entry> get_globals_from_blackboard(Caliper* c, const Blackboard& bla
     std::reverse(nodes.begin(), nodes.end());
 
     if (!nodes.empty())
-        ret.push_back(Entry(c->make_tree_entry(nodes.size(), nodes.data(), nullptr)));
+        if (Node* node = c->make_tree_entry(nodes.size(), nodes.data(), nullptr))
+            ret.push_back(Entry(node));
 
     return ret;
 }
@@ -669,6 +670,11 @@ void log_stack_value_error(const Entry& current, Attribute attr, const Variant&
                     << error << std::endl;
 }
 
+void log_tree_error(const Attribute& attr)
+{
+    Log(0).stream() << "Context tree is full: Cannot update \"" << attr.name() << "\"" << std::endl;
+}
+
 struct BlackboardEntry {
     Entry merged_entry;
     Entry entry;
@@ -693,7 +699,10 @@ inline BlackboardEntry load_current_entry(const Attribute& attr, cali_id_t key,
     return { merged_entry, entry };
 }
 
-inline void handle_begin(
+//   The handle functions return false and leave the blackboard as it was if
+// there is no space left in the context tree.
+
+inline bool handle_begin(
     const Attribute& attr,
     const Variant&   value,
     int              prop,
@@ -706,11 +715,19 @@ inline void handle_begin(
     } else {
         cali_id_t key   = get_blackboard_key_for_reference_entry(prop);
         Entry     entry = Entry(tree.get_child(attr, value, blackboard.get(key).node()));
+
+        if (entry.empty()) {
+            log_tree_error(attr);
+            return false;
+        }
+
         blackboard.set(key, entry, !(prop & CALI_ATTR_HIDDEN));
     }
+
+    return true;
 }
 
-inline void handle_end(
+inline bool handle_end(
     const Attribute&       attr,
     int                    prop,
     const BlackboardEntry& current,
@@ -730,12 +747,19 @@ inline void handle_end(
             if (current.merged_entry.node() != current.entry.node())
                 node = tree.remove_first_in_path(current.merged_entry.node(), attr);
 
+            if (!node) {
+                log_tree_error(attr);
+                return false;
+            }
+
             blackboard.set(key, Entry(node), !(prop & CALI_ATTR_HIDDEN));
         }
     }
+
+    return true;
 }
 
-inline void handle_set(
+inline bool handle_set(
     const Attribute& attr,
     const Variant&   value,
     int              prop,
@@ -747,9 +771,17 @@ inline void handle_set(
         blackboard.set(attr.id(), Entry(attr, value), !(prop & CALI_ATTR_HIDDEN));
     else {
         cali_id_t key  = get_blackboard_key_for_reference_entry(prop);
-        Node*     node = blackboard.get(key).node();
-        blackboard.set(key, tree.replace_first_in_path(node, attr, value), !(prop & CALI_ATTR_HIDDEN));
+        Node*     node = tree.replace_first_in_path(blackboard.get(key).node(), attr, value);
+
+        if (!node) {
+            log_tree_error(attr);
+            return false;
+        }
+
+        blackboard.set(key, Entry(node), !(prop & CALI_ATTR_HIDDEN));
     }
+
+    return true;
 }
 
 } // namespace
@@ -802,7 +834,7 @@ Attribute Caliper::create_attribute(
     node = sT->tree.type_node(type);
 
     // Add metadata nodes.
-    for (int n = 0; n < n_meta; ++n)
+    for (int n = 0; node && n < n_meta; ++n)
         node = sT->tree.get_child(meta_attr[n], meta_val[n], node);
 
     // Look for attribute properties in presets
@@ -830,8 +862,15 @@ Attribute Caliper::create_attribute(
     Attribute name_attr = Attribute::make_attribute(sT->tree.node(Attribute::NAME_ATTR_ID));
     Attribute prop_attr = Attribute::make_attribute(sT->tree.node(Attribute::PROP_ATTR_ID));
 
-    node = sT->tree.get_child(prop_attr, Variant(prop), node);
-    node = sT->tree.get_child(name_attr, Variant(CALI_TYPE_STRING, name.data(), name.size()), node);
+    if (node)
+        node = sT->tree.get_child(prop_attr, Variant(prop), node);
+    if (node)
+        node = sT->tree.get_child(name_attr, Variant(CALI_TYPE_STRING, name.data(), name.size()), node);
+
+    if (!node) {
+        Log(0).stream() << "Context tree is full: Cannot create attribute \"" << name << "\"" << std::endl;
+        return Attribute();
+    }
 
     // Create attribute object
 
@@ -1069,7 +1108,7 @@ void Caliper::clear(Channel* chn)
 
 void Caliper::begin(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error)
+    if (sT->stack_error || !attr)
         return;
 
     int prop  = attr.properties();
@@ -1087,11 +1126,18 @@ void Caliper::begin(const Attribute& attr, const Variant& data)
         }
     }
 
+    bool success = true;
+
     if (scope == CALI_ATTR_SCOPE_THREAD)
-        handle_begin(attr, data, prop, sT->thread_blackboard, sT->tree);
+        success = handle_begin(attr, data, prop, sT->thread_blackboard, sT->tree);
     else if (scope == CALI_ATTR_SCOPE_PROCESS) {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
-        handle_begin(attr, data, prop, sG->process_blackboard, sT->tree);
+        success = handle_begin(attr, data, prop, sG->process_blackboard, sT->tree);
+    }
+
+    if (!success) {
+        sT->stack_error = true;
+        return;
     }
 
     // invoke callbacks
@@ -1105,7 +1151,7 @@ void Caliper::begin(const Attribute& attr, const Variant& data)
 
 void Caliper::end(const Attribute& attr)
 {
-    if (sT->stack_error)
+    if (sT->stack_error || !attr)
         return;
 
     int prop  = attr.properties();
@@ -1140,7 +1186,7 @@ void Caliper::end(const Attribute& attr)
     }
 
     if (scope == CALI_ATTR_SCOPE_THREAD)
-        handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
+        sT->stack_error = !handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
     else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
         // Reload: another thread may have changed the entry in the meantime
@@ -1148,13 +1194,13 @@ void Caliper::end(const Attribute& attr)
         if (current.entry.empty())
             sT->stack_error = true;
         else
-            handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
+            sT->stack_error = !handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
     }
 }
 
 void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error)
+    if (sT->stack_error || !attr)
         return;
 
     int prop  = attr.properties();
@@ -1190,7 +1236,7 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
     }
 
     if (scope == CALI_ATTR_SCOPE_THREAD)
-        handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
+        sT->stack_error = !handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
     else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
         // Reload: another thread may have changed the entry in the meantime
@@ -1199,13 +1245,13 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
             log_stack_value_error(current.entry, attr, data);
             sT->stack_error = true;
         } else
-            handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
+            sT->stack_error = !handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
     }
 }
 
 void Caliper::set(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error)
+    if (sT->stack_error || !attr)
         return;
 
     int prop  = attr.properties();
@@ -1223,11 +1269,18 @@ void Caliper::set(const Attribute& attr, const Variant& data)
         }
     }
 
+    bool success = true;
+
     if (scope == CALI_ATTR_SCOPE_THREAD)
-        handle_set(attr, data, prop, sT->thread_blackboard, sT->tree);
+        success = handle_set(attr, data, prop, sT->thread_blackboard, sT->tree);
     else if (scope == CALI_ATTR_SCOPE_PROCESS) {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
-        handle_set(attr, data, prop, sG->process_blackboard, sT->tree);
+        success = handle_set(attr, data, prop, sG->process_blackboard, sT->tree);
+    }
+
+    if (!success) {
+        sT->stack_error = true;
+        return;
     }
 }
 
@@ -1241,6 +1294,9 @@ void Caliper::async_event(SnapshotView info)
 
 void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
+    if (!attr)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1252,7 +1308,11 @@ void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data
 
     {
         std::lock_guard<std::mutex> gbb(chB->channel_blackboard_lock);
-        handle_begin(attr, data, prop, chB->channel_blackboard, sT->tree);
+
+        if (!handle_begin(attr, data, prop, chB->channel_blackboard, sT->tree)) {
+            sT->stack_error = true;
+            return;
+        }
     }
 
     // invoke callbacks
@@ -1262,6 +1322,9 @@ void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data
 
 void Caliper::end(ChannelBody* chB, const Attribute& attr)
 {
+    if (!attr)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1291,12 +1354,15 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
         if (current.entry.empty())
             sT->stack_error = true;
         else
-            handle_end(attr, prop, current, key, chB->channel_blackboard, sT->tree);
+            sT->stack_error = !handle_end(attr, prop, current, key, chB->channel_blackboard, sT->tree);
     }
 }
 
 void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
+    if (!attr)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1307,7 +1373,9 @@ void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
         chB->events.pre_set_evt(this, chB, attr, data);
 
     std::lock_guard<std::mutex> gbb(chB->channel_blackboard_lock);
-    handle_set(attr, data, prop, chB->channel_blackboard, sT->tree);
+
+    if (!handle_set(attr, data, prop, chB->channel_blackboard, sT->tree))
+        sT->stack_error = true;
 }
 
 // --- Query
@@ -1419,12 +1487,19 @@ void Caliper::make_record(size_t n, const Attribute attr[], const Variant value[
     std::lock_guard<::siglock> g(sT->lock);
 
     Node* node = parent;
+    bool  full = false;
 
     for (size_t i = 0; i < n; ++i)
         if (attr[i].store_as_value())
             rec.append(Entry(attr[i], value[i]));
-        else
-            node = sT->tree.get_child(attr[i], value[i], node);
+        else if (!full) {
+            Node* child = sT->tree.get_child(attr[i], value[i], node);
+
+            if (child)
+                node = child;
+            else
+                full = true;
+        }
 
     if (node && node != parent)
         rec.append(Entry(node));
diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index a4e2a18..66e9b8e 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -25,10 +25,11 @@ MetadataTree::GlobalData::GlobalData(MemoryPool& pool)
       node_blocks(0),
       g_mempool(pool)
 {
-    num_blocks      = config.get("num_blocks").to_uint();
-    nodes_per_block = std::min<uint64_t>(config.get("nodes_per_block").to_uint(), 256);
+    // The bootstrap nodes have to fit into the first block
+    num_blocks      = std::max<uint64_t>(config.get("num_blocks").to_uint(), 1);
+    nodes_per_block = std::max<uint64_t>(std::min<uint64_t>(config.get("nodes_per_block").to_uint(), 256), 16);
 
-    node_blocks = new NodeBlock[num_blocks];
+    node_blocks = new NodeBlock[num_blocks]();
 
     Node* chunk = pool.aligned_alloc<Node>(nodes_per_block);
 
@@ -202,14 +203,18 @@ Node* MetadataTree::create_child(const Attribute& attr, const Variant& value, No
 {
     // Get a node block with sufficient free space
 
-    if (!have_free_nodeblock(1))
+    if (!attr || !have_free_nodeblock(1))
         return nullptr;
 
     void* ptr = nullptr;
 
-    if (value.has_unmanaged_data())
+    if (value.has_unmanaged_data()) {
         ptr = m_mempool.allocate(value.size() + 1 /* ensure 0-padding so we can safely hand out string ptrs */);
 
+        if (!ptr)
+            return nullptr;
+    }
+
     size_t      index = m_nodeblock->index++;
     GlobalData* g     = mG.load();
 
@@ -250,9 +255,13 @@ Node* MetadataTree::get_path(size_t n, const Node* nodelist[], Node* parent = nu
     Node* node = parent;
 
     for (size_t i = 0; i < n; ++i)
-        if (nodelist[i])
+        if (nodelist[i]) {
             node = get_or_copy_node(nodelist[i], node);
 
+            if (!node)
+                return nullptr;
+        }
+
     return node;
 }
 
@@ -291,7 +300,7 @@ Node* MetadataTree::copy_path_without_attribute(const Attribute& attr, Node* nod
 
     Node* tmp = copy_path_without_attribute(attr, node->parent(), parent);
 
-    if (attr.id() != node->attribute())
+    if (tmp && attr.id() != node->attribute())
         tmp = get_or_copy_node(node, tmp);
 
     return tmp;
@@ -312,9 +321,13 @@ Node* MetadataTree::remove_first_in_path(Node* path, const Attribute& attr)
 
 Node* MetadataTree::replace_first_in_path(Node* path, const Attribute& attr, const Variant& data)
 {
-    if (path)
+    if (path) {
         path = remove_first_in_path(path, attr);
 
+        if (!path)
+            return nullptr;
+    }
+
     return get_child(attr, data, path);
 }
 
@@ -328,7 +341,9 @@ Node* MetadataTree::replace_all_in_path(Node* path, const Attribute& attr, size_
 
     parent = parent ? parent->parent() : root();
 
-    return get_path(attr, n, data, copy_path_without_attribute(attr, path, parent));
+    parent = copy_path_without_attribute(attr, path, parent);
+
+    return parent ? get_path(attr, n, data, parent) : nullptr;
 }
 
 Node* MetadataTree::get_child(const Attribute& attr, const Variant& val, Node* parent)
diff --git a/src/common/Entry.cpp b/src/common/Entry.cpp
index e733b00..04c495e 100644
--- a/src/common/Entry.cpp
+++ b/src/common/Entry.cpp
@@ -59,8 +59,8 @@ Entry Entry::get(const Attribute& attr) const
 size_t Entry::pack(unsigned char* buffer) const
 {
     size_t pos = 0;
-    pos += vlenc_u64(m_node->id(), buffer);
-    if (m_node->attribute() == Attribute::NAME_ATTR_ID)
+    pos += vlenc_u64(m_node ? m_node->id() : CALI_INV_ID, buffer);
+    if (m_node && m_node->attribute() == Attribute::NAME_ATTR_ID)
         pos += m_value.pack(buffer + pos);
     return pos;
 }
@@ -70,7 +70,7 @@ Entry Entry::unpack(const CaliperMetadataAccessInterface& db, const unsigned cha
     size_t p = 0;
     Entry  ret { db.node(vldec_u64(buffer, &p)) };
 
-    if (ret.m_node->attribute() == Attribute::NAME_ATTR_ID)
+    if (ret.m_node && ret.m_node->attribute() == Attribute::NAME_ATTR_ID)
         ret.m_value = Variant::unpack(buffer + p, &p);
 
     if (inc)
diff --git a/src/services/event/EventTrigger.cpp b/src/services/event/EventTrigger.cpp
index 81bb9b8..901c71b 100644
--- a/src/services/event/EventTrigger.cpp
+++ b/src/services/event/EventTrigger.cpp
@@ -216,8 +216,12 @@ class EventTrigger
                 // to replace the original blackboard entry in the snapshot record with the
                 // augmented entry in trigger_info.
                 Entry bb_entry = c->get_blackboard_entry(attr);
-                Entry info(c->make_tree_entry(begin_attr, value, bb_entry.empty() ? &event_root_node : bb_entry.node()));
-                c->push_snapshot_replace(chB, SnapshotView(info), bb_entry);
+                Node* node = c->make_tree_entry(begin_attr, value, bb_entry.empty() ? &event_root_node : bb_entry.node());
+                if (node) {
+                    Entry info(node);
+                    c->push_snapshot_replace(chB, SnapshotView(info), bb_entry);
+                } else
+                    c->push_snapshot(chB, SnapshotView());
             }
         } else {
             c->push_snapshot(chB, SnapshotView());
@@ -251,8 +255,12 @@ class EventTrigger
                 c->push_snapshot(chB, SnapshotView(info));
             } else {
                 Entry bb_entry = c->get_blackboard_entry(attr);
-                Entry info(c->make_tree_entry(set_attr, value, bb_entry.empty() ? &event_root_node : bb_entry.node()));
-                c->push_snapshot_replace(chB, SnapshotView(info), bb_entry);
+                Node* node = c->make_tree_entry(set_attr, value, bb_entry.empty() ? &event_root_node : bb_entry.node());
+                if (node) {
+                    Entry info(node);
+                    c->push_snapshot_replace(chB, SnapshotView(info), bb_entry);
+                } else
+                    c->push_snapshot(chB, SnapshotView());
             }
         } else {
             c->push_snapshot(chB, SnapshotView());
@@ -284,8 +292,11 @@ class EventTrigger
             } else {
                 Entry bb_entry = c->get_blackboard_entry(attr);
                 Node* node = c->make_tree_entry(end_attr, value, bb_entry.node());
-                Entry info[2] = { Entry(node), region_count_entry };
-                c->push_snapshot_replace(chB, SnapshotView(2, info), bb_entry);
+                if (node) {
+                    Entry info[2] = { Entry(node), region_count_entry };
+                    c->push_snapshot_replace(chB, SnapshotView(2, info), bb_entry);
+                } else
+                    c->push_snapshot(chB, SnapshotView(region_count_entry));
             }
         } else {
             c->push_snapshot(chB, SnapshotView(region_count_entry));
diff --git a/src/services/validator/validator.cpp b/src/services/validator/validator.cpp
index 9d86b01..730ff34 100644
--- a/src/services/validator/validator.cpp
+++ b/src/services/validator/validator.cpp
@@ -65,7 +65,7 @@ class ValidatorService
             Variant v_copy = value;
 
             if (!attr.store_as_value())
-                v_copy = c->make_tree_entry(attr, value, &m_root_node)->data();
+                v_copy = Entry(c->make_tree_entry(attr, value, &m_root_node)).value();
 
             m_region_stack[attr].push_back(v_copy);
         }
-- 
2.43.0


From 0a4ab5a5371a36d638eef1c2b956f29faf9ae3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 03:23:43 +0000
Subject: [PATCH 50/78] fix: let new threads use the context tree storage of
 threads that have ended

---
 src/caliper/Caliper.cpp      |  2 ++
 src/caliper/MetadataTree.cpp | 33 ++++++++++++++++++++++++++++++++-
 src/caliper/MetadataTree.h   | 19 +++++++++++++++++++
 3 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index caceda1..1d89eba 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1696,6 +1696,8 @@ void Caliper::release_thread()
     // Ignore annotations from thread-local objects that are destroyed after us
     sT->is_released = true;
     sT->stack_error = true;
+
+    sT->tree.release_storage();
 }
 
 void Caliper::finalize()
diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index 66e9b8e..e092f0f 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -69,7 +69,38 @@ MetadataTree::GlobalData::~GlobalData()
     delete[] node_blocks;
 }
 
-MetadataTree::MetadataTree() : m_nodeblock(nullptr), m_num_nodes(0), m_num_blocks(0)
+MetadataTree::Storage MetadataTree::get_storage()
+{
+    if (GlobalData* g = mG.load()) {
+        std::lock_guard<std::mutex> lock(g->unused_lock);
+
+        if (!g->unused.empty()) {
+            Storage storage = g->unused.back();
+            g->unused.pop_back();
+            return storage;
+        }
+    }
+
+    return { MemoryPool(), nullptr };
+}
+
+void MetadataTree::release_storage()
+{
+    GlobalData* g = mG.load();
+
+    std::lock_guard<std::mutex> lock(g->unused_lock);
+
+    g->unused.push_back({ m_mempool, m_nodeblock });
+
+    m_mempool   = g->g_mempool;
+    m_nodeblock = nullptr;
+}
+
+MetadataTree::MetadataTree() : MetadataTree(get_storage())
+{}
+
+MetadataTree::MetadataTree(const Storage& storage)
+    : m_mempool(storage.mempool), m_nodeblock(storage.nodeblock), m_num_nodes(0), m_num_blocks(0)
 {
     GlobalData* g = mG.load();
 
diff --git a/src/caliper/MetadataTree.h b/src/caliper/MetadataTree.h
index e847fa2..1f91ef1 100644
--- a/src/caliper/MetadataTree.h
+++ b/src/caliper/MetadataTree.h
@@ -10,6 +10,8 @@
 #include "../common/RuntimeConfig.h"
 
 #include <atomic>
+#include <mutex>
+#include <vector>
 
 namespace cali
 {
@@ -27,6 +29,12 @@ class MetadataTree
         size_t index;
     };
 
+    //   Node block and memory pool to create nodes in
+    struct Storage {
+        MemoryPool mempool;
+        NodeBlock* nodeblock;
+    };
+
     struct GlobalData {
         static const ConfigSet::Entry s_configdata[];
 
@@ -45,6 +53,10 @@ class MetadataTree
         // Used to merge in the pools of deleted threads.
         MemoryPool g_mempool;
 
+        //   Storage of threads that have ended, for use by new threads
+        std::vector<Storage> unused;
+        std::mutex           unused_lock;
+
         explicit GlobalData(MemoryPool&);
         ~GlobalData();
     };
@@ -57,6 +69,10 @@ class MetadataTree
     unsigned m_num_nodes;
     unsigned m_num_blocks;
 
+    static Storage get_storage();
+
+    explicit MetadataTree(const Storage& storage);
+
     bool have_free_nodeblock(size_t n);
 
     Node* create_path(const Attribute& attr, size_t n, const Variant data[], Node* parent);
@@ -75,6 +91,9 @@ public:
 
     static void release();
 
+    /// \brief Make the storage space that is left available for new threads
+    void release_storage();
+
     // --- Modifying tree operations ---
 
     /// \brief Get or construct a path in the tree under parent with
-- 
2.43.0


From e1f977e8f3752ce444c8778b94394aeb2e8193ec Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 03:23:43 +0000
Subject: [PATCH 51/78] fix: keep thread-local service data on threads with a
 region stack error

---
 src/caliper/Caliper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 1d89eba..bf9c043 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1251,12 +1251,16 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 
 void Caliper::set(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error || !attr)
+    if (sT->is_released || !attr)
         return;
 
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
+    // Hidden attributes hold internal data (e.g. a thread's trace buffer) which is still needed
+    if (sT->stack_error && !(prop & CALI_ATTR_HIDDEN))
+        return;
+
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
     std::lock_guard<::siglock> g(sT->lock);
-- 
2.43.0


From c8a4b0188391d056d9ffc8417fe43ba939e51d86 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 52/78] fix: copy string values when merging records of another
 metadata DB

---
 src/reader/CaliperMetadataDB.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index 9904691..a068bb9 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -142,6 +142,16 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
         return Variant(CALI_TYPE_STRING, ptr, len);
     }
 
+    /// \brief Return \a v with string data in the string database, so that it
+    ///   remains valid when the database it was taken from is gone
+    Variant make_own_variant(const Variant& v)
+    {
+        if (v.type() != CALI_TYPE_STRING)
+            return v;
+
+        return make_string_variant(static_cast<const char*>(v.data()), v.size());
+    }
+
     Variant make_variant(cali_attr_type type, const std::string& str)
     {
         Variant ret;
@@ -279,7 +289,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
             if (e.is_reference())
                 list.push_back(Entry(node));
             else if (e.is_immediate())
-                list.push_back(Entry(Attribute::make_attribute(node), e.value()));
+                list.push_back(Entry(Attribute::make_attribute(node), make_own_variant(e.value())));
         }
 
         return list;
@@ -475,7 +485,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
             if (e.is_reference())
                 m_globals.push_back(Entry(node));
             else if (e.is_immediate())
-                m_globals.push_back(Entry(Attribute::make_attribute(node), e.value()));
+                m_globals.push_back(Entry(Attribute::make_attribute(node), make_own_variant(e.value())));
         }
 
         return m_globals;
-- 
2.43.0


From a63e2e6ffaa1d92c7bc1d04cad4611f6b093b99e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 53/78] fix: update attribute nodes and names together when
 merging metadata

---
 src/reader/CaliperMetadataDB.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index a068bb9..1348f96 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -205,6 +205,13 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
         Node* node     = nullptr;
         bool  new_node = false;
 
+        // Attribute nodes and names are updated together, so that threads that
+        // find the node can also look up the attribute by its name
+        std::unique_lock<std::mutex> attr_lock(m_attribute_lock, std::defer_lock);
+
+        if (attr_id == Attribute::NAME_ATTR_ID)
+            attr_lock.lock();
+
         {
             std::lock_guard<std::mutex> g(m_node_lock);
 
@@ -216,11 +223,8 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
             }
         }
 
-        if (new_node && node->attribute() == Attribute::NAME_ATTR_ID) {
-            std::lock_guard<std::mutex> g(m_attribute_lock);
-
+        if (new_node && node->attribute() == Attribute::NAME_ATTR_ID)
             m_attributes.insert(std::make_pair(std::string(node->data().to_string()), node));
-        }
 
         return node;
     }
-- 
2.43.0


From 90e752ccbe4994491e46f5404352c795157e08f6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:30:49 +0000
Subject: [PATCH 54/78] fix: do not clear a region stack error at the end of a
 region

---
 src/caliper/Caliper.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index bf9c043..a9ffa6b 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1185,16 +1185,17 @@ void Caliper::end(const Attribute& attr)
         }
     }
 
-    if (scope == CALI_ATTR_SCOPE_THREAD)
-        sT->stack_error = !handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
-    else {
+    if (scope == CALI_ATTR_SCOPE_THREAD) {
+        if (!handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree))
+            sT->stack_error = true;
+    } else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
         // Reload: another thread may have changed the entry in the meantime
         current = load_current_entry(attr, key, sG->process_blackboard);
         if (current.entry.empty())
             sT->stack_error = true;
-        else
-            sT->stack_error = !handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
+        else if (!handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree))
+            sT->stack_error = true;
     }
 }
 
@@ -1235,17 +1236,18 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
         }
     }
 
-    if (scope == CALI_ATTR_SCOPE_THREAD)
-        sT->stack_error = !handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
-    else {
+    if (scope == CALI_ATTR_SCOPE_THREAD) {
+        if (!handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree))
+            sT->stack_error = true;
+    } else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
         // Reload: another thread may have changed the entry in the meantime
         current = load_current_entry(attr, key, sG->process_blackboard);
         if (current.entry.empty() || data != current.entry.value()) {
             log_stack_value_error(current.entry, attr, data);
             sT->stack_error = true;
-        } else
-            sT->stack_error = !handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
+        } else if (!handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree))
+            sT->stack_error = true;
     }
 }
 
@@ -1357,8 +1359,8 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
         current = load_current_entry(attr, key, chB->channel_blackboard);
         if (current.entry.empty())
             sT->stack_error = true;
-        else
-            sT->stack_error = !handle_end(attr, prop, current, key, chB->channel_blackboard, sT->tree);
+        else if (!handle_end(attr, prop, current, key, chB->channel_blackboard, sT->tree))
+            sT->stack_error = true;
     }
 }
 
-- 
2.43.0


From 41362d6c3cda58021d96e1df36d72fe842156e32 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:14:38 +0000
Subject: [PATCH 55/78] fix: use the packed statuses of MPI_Waitsome and
 MPI_Testsome

Status i of these calls belongs to the request with index indices[i].
---
 src/services/mpiwrap/Wrapper.w | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index 6d0b1a4..ae2b04f 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -731,11 +731,11 @@ post_init_cb(Caliper* c, Channel* channel)
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active())
                 for (int i = 0; i < *{{2}}; ++i)
-                   mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i], {{4}}+{{3}}[i]);
+                   mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i], {{4}}+i);
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active())
                for (int i = 0; i < *{{2}}; ++i) {
                    mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i]);
-                   mwc->pattern.handle_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i], {{4}}+{{3}}[i]);
+                   mwc->pattern.handle_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i], {{4}}+i);
                }
         }
 
-- 
2.43.0


From 57df9abba6d1c89c3208a0562cc21ddf8b997006 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:14:38 +0000
Subject: [PATCH 56/78] fix: handle MPI_Waitany and MPI_Testany without active
 requests

They set the index to MPI_UNDEFINED; this was used as an array index.
---
 src/services/mpiwrap/Wrapper.w | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index ae2b04f..ce7889d 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -675,9 +675,9 @@ post_init_cb(Caliper* c, Channel* channel)
         {{callfn}}
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_msg_tracing && nreq > 0 && mwc->enable_{{func}} && mwc->channel.is_active())
+            if (mwc->enable_msg_tracing && *{{2}} != MPI_UNDEFINED && mwc->enable_{{func}} && mwc->channel.is_active())
                 mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}), {{3}});
-            if (mwc->enable_msg_pattern && nreq > 0 && mwc->enable_{{func}} && mwc->channel.is_active()) {
+            if (mwc->enable_msg_pattern && *{{2}} != MPI_UNDEFINED && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}));
                 mwc->pattern.handle_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}), {{3}});
             }
@@ -879,7 +879,7 @@ post_init_cb(Caliper* c, Channel* channel)
         {{callfn}}
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (*{{3}} && mwc->enable_{{func}} && mwc->channel.is_active()) {
+            if (*{{3}} && *{{2}} != MPI_UNDEFINED && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 if (mwc->enable_msg_tracing)
                     mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}), {{4}});
                 if (mwc->enable_msg_pattern) {
-- 
2.43.0


From c40b61f715aa4f6c72481c6142c3dca97d213c0e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:17:30 +0000
Subject: [PATCH 57/78] fix: keep track of MPI requests completed on inactive
 channels

Requests that were completed or freed while a channel was inactive stayed
in its request map, and a later request with the same handle produced a
false receive record. The map was also only looked up after the request
had been completed, when another thread could already have a new request
with the same handle; and channels activated during the call used the
request copies that were not made.
---
 src/services/mpiwrap/MpiPattern.cpp |  70 +++++++++++--
 src/services/mpiwrap/MpiPattern.h   |  15 ++-
 src/services/mpiwrap/MpiTracing.cpp |  65 +++++++++++--
 src/services/mpiwrap/MpiTracing.h   |  15 ++-
 src/services/mpiwrap/Wrapper.w      | 146 ++++++++++++++++++++--------
 5 files changed, 250 insertions(+), 61 deletions(-)

diff --git a/src/services/mpiwrap/MpiPattern.cpp b/src/services/mpiwrap/MpiPattern.cpp
index 74fc22d..79f6c14 100644
--- a/src/services/mpiwrap/MpiPattern.cpp
+++ b/src/services/mpiwrap/MpiPattern.cpp
@@ -8,11 +8,13 @@
 #include "caliper/SnapshotRecord.h"
 
 #include <atomic>
+#include <map>
 #include <mutex>
 #include <numeric>
 #include <unordered_map>
 #include <sstream>
 #include <set>
+#include <thread>
 
 using namespace cali;
 
@@ -47,6 +49,7 @@ struct MpiPattern::MpiPatternImpl {
     };
 
     std::unordered_map<MPI_Request, RequestInfo> req_map;
+    std::map<std::thread::id, std::unordered_map<MPI_Request, RequestInfo>> taken_reqs;
     std::mutex                                   req_map_lock;
 
     // --- initialization
@@ -240,13 +243,44 @@ struct MpiPattern::MpiPatternImpl {
         }
     }
 
+    void take_requests(int nreq, MPI_Request* reqs)
+    {
+        std::lock_guard<std::mutex> g(req_map_lock);
+
+        for (int i = 0; i < nreq; ++i) {
+            auto it = req_map.find(reqs[i]);
+
+            if (it == req_map.end())
+                continue;
+
+            taken_reqs[std::this_thread::get_id()].insert(*it);
+            req_map.erase(it);
+        }
+    }
+
+    void return_requests()
+    {
+        std::lock_guard<std::mutex> g(req_map_lock);
+
+        auto it = taken_reqs.find(std::this_thread::get_id());
+
+        if (it == taken_reqs.end())
+            return;
+
+        for (const auto& p : it->second)
+            req_map[p.first] = p.second;
+
+        taken_reqs.erase(it);
+    }
+
     void handle_pre_completion(Caliper* c, ChannelBody* chB, int nreq, MPI_Request* reqs)
     {
         for (int i = 0; i < nreq; ++i) {
             std::lock_guard<std::mutex> g(req_map_lock);
 
-            auto it = req_map.find(reqs[i]);
-            if (it == req_map.end())
+            auto& taken = taken_reqs[std::this_thread::get_id()];
+            auto  it    = taken.find(reqs[i]);
+            if (it == taken.end())
                 continue;
 
             if (it->second.op == RequestInfo::Recv)
@@ -254,19 +288,20 @@ struct MpiPattern::MpiPatternImpl {
         }
     }
 
-    void handle_completion(Caliper* c, ChannelBody* chB, int nreq, MPI_Request* reqs, MPI_Status* statuses)
+    void handle_completion(Caliper* c, ChannelBody* chB, bool is_active, int nreq, MPI_Request* reqs, MPI_Status* statuses)
     {
         for (int i = 0; i < nreq; ++i) {
             std::lock_guard<std::mutex> g(req_map_lock);
 
-            auto it = req_map.find(reqs[i]);
+            auto& taken = taken_reqs[std::this_thread::get_id()];
+            auto  it    = taken.find(reqs[i]);
 
-            if (it == req_map.end())
+            if (it == taken.end())
                 continue;
 
             RequestInfo info = it->second;
 
-            if (info.op == RequestInfo::Recv) {
+            if (is_active && info.op == RequestInfo::Recv) {
                 int size = 0;
                 PMPI_Type_size(info.type, &size);
                 int count = 0;
@@ -276,7 +311,7 @@ struct MpiPattern::MpiPatternImpl {
             }
 
             if (!info.is_persistent)
-                req_map.erase(it);
+                taken.erase(it);
         }
     }
 
@@ -424,9 +459,26 @@ void MpiPattern::handle_pre_completion(Caliper* c, ChannelBody* chB, int nreq, M
     mP->handle_pre_completion(c, chB, nreq, reqs);
 }
 
-void MpiPattern::handle_completion(Caliper* c, ChannelBody* chB, int nreq, MPI_Request* reqs, MPI_Status* statuses)
+void MpiPattern::take_requests(int nreq, MPI_Request* reqs)
+{
+    mP->take_requests(nreq, reqs);
+}
+
+void MpiPattern::return_requests()
+{
+    mP->return_requests();
+}
+
+void MpiPattern::handle_completion(
+    Caliper*     c,
+    ChannelBody* chB,
+    bool         is_active,
+    int          nreq,
+    MPI_Request* reqs,
+    MPI_Status*  statuses
+)
 {
-    mP->handle_completion(c, chB, nreq, reqs, statuses);
+    mP->handle_completion(c, chB, is_active, nreq, reqs, statuses);
 }
 
 void MpiPattern::request_free(Caliper*, ChannelBody*, MPI_Request* req)
diff --git a/src/services/mpiwrap/MpiPattern.h b/src/services/mpiwrap/MpiPattern.h
index 506d0ff..3f990a8 100644
--- a/src/services/mpiwrap/MpiPattern.h
+++ b/src/services/mpiwrap/MpiPattern.h
@@ -81,7 +81,20 @@ public:
 
     void handle_start(Caliper* c, ChannelBody* chB, int nreq, MPI_Request* reqs);
     void handle_pre_completion(Caliper *c, ChannelBody* chB, int nreq, MPI_Request* reqs);
-    void handle_completion(Caliper* c, ChannelBody* chB, int nreq, MPI_Request* reqs, MPI_Status* statuses);
+    /// \brief Take the information about requests which the calling thread tries to complete.
+    ///   Another thread may get the handles for new requests before we process the completion.
+    void take_requests(int nreq, MPI_Request* reqs);
+    /// \brief Return the information about the requests that were not completed.
+    void return_requests();
+
+    void handle_completion(
+        Caliper*     c,
+        ChannelBody* chB,
+        bool         is_active,
+        int          nreq,
+        MPI_Request* reqs,
+        MPI_Status*  statuses
+    );
 
     void handle_comm_begin(Caliper* c, ChannelBody* chB); //region_begin
     void handle_comm_end(Caliper* c, ChannelBody* chB);   //region_end
diff --git a/src/services/mpiwrap/MpiTracing.cpp b/src/services/mpiwrap/MpiTracing.cpp
index 2b15541..7e09614 100644
--- a/src/services/mpiwrap/MpiTracing.cpp
+++ b/src/services/mpiwrap/MpiTracing.cpp
@@ -7,8 +7,10 @@
 #include "caliper/SnapshotRecord.h"
 
 #include <atomic>
+#include <map>
 #include <mutex>
 #include <numeric>
+#include <thread>
 #include <unordered_map>
 
 using namespace cali;
@@ -59,6 +61,7 @@ struct MpiTracing::MpiTracingImpl {
     std::mutex                                comm_map_lock;
 
     std::unordered_map<MPI_Request, RequestInfo> req_map;
+    std::map<std::thread::id, std::unordered_map<MPI_Request, RequestInfo>> taken_reqs;
     std::mutex                                   req_map_lock;
 
     // --- initialization
@@ -307,19 +310,50 @@ struct MpiTracing::MpiTracingImpl {
         }
     }
 
-    void handle_completion(Caliper* c, ChannelBody* chB, int nreq, MPI_Request* reqs, MPI_Status* statuses)
+    void take_requests(int nreq, MPI_Request* reqs)
     {
-        for (int i = 0; i < nreq; ++i) {
-            std::lock_guard<std::mutex> g(req_map_lock);
+        std::lock_guard<std::mutex> g(req_map_lock);
 
+        for (int i = 0; i < nreq; ++i) {
             auto it = req_map.find(reqs[i]);
 
             if (it == req_map.end())
                 continue;
 
+            taken_reqs[std::this_thread::get_id()].insert(*it);
+            req_map.erase(it);
+        }
+    }
+
+    void return_requests()
+    {
+        std::lock_guard<std::mutex> g(req_map_lock);
+
+        auto it = taken_reqs.find(std::this_thread::get_id());
+
+        if (it == taken_reqs.end())
+            return;
+
+        for (const auto& p : it->second)
+            req_map[p.first] = p.second;
+
+        taken_reqs.erase(it);
+    }
+
+    void handle_completion(Caliper* c, ChannelBody* chB, bool is_active, int nreq, MPI_Request* reqs, MPI_Status* statuses)
+    {
+        for (int i = 0; i < nreq; ++i) {
+            std::lock_guard<std::mutex> g(req_map_lock);
+
+            auto& taken = taken_reqs[std::this_thread::get_id()];
+            auto  it    = taken.find(reqs[i]);
+
+            if (it == taken.end())
+                continue;
+
             RequestInfo info = it->second;
 
-            if (info.op == RequestInfo::Recv) {
+            if (is_active && info.op == RequestInfo::Recv) {
                 int size = 0;
                 PMPI_Type_size(info.type, &size);
                 int count = 0;
@@ -329,7 +363,7 @@ struct MpiTracing::MpiTracingImpl {
             }
 
             if (!info.is_persistent)
-                req_map.erase(it);
+                taken.erase(it);
         }
     }
 
@@ -455,9 +489,26 @@ void MpiTracing::handle_start(Caliper* c, ChannelBody* chB, int nreq, MPI_Reques
     mP->handle_start(c, chB, nreq, reqs);
 }
 
-void MpiTracing::handle_completion(Caliper* c, ChannelBody* chB, int nreq, MPI_Request* reqs, MPI_Status* statuses)
+void MpiTracing::take_requests(int nreq, MPI_Request* reqs)
+{
+    mP->take_requests(nreq, reqs);
+}
+
+void MpiTracing::return_requests()
+{
+    mP->return_requests();
+}
+
+void MpiTracing::handle_completion(
+    Caliper*     c,
+    ChannelBody* chB,
+    bool         is_active,
+    int          nreq,
+    MPI_Request* reqs,
+    MPI_Status*  statuses
+)
 {
-    mP->handle_completion(c, chB, nreq, reqs, statuses);
+    mP->handle_completion(c, chB, is_active, nreq, reqs, statuses);
 }
 
 void MpiTracing::request_free(Caliper*, ChannelBody*, MPI_Request* req)
diff --git a/src/services/mpiwrap/MpiTracing.h b/src/services/mpiwrap/MpiTracing.h
index f6ee60d..51f4623 100644
--- a/src/services/mpiwrap/MpiTracing.h
+++ b/src/services/mpiwrap/MpiTracing.h
@@ -79,7 +79,20 @@ public:
     );
 
     void handle_start(Caliper* c, ChannelBody* chB, int nreq, MPI_Request* reqs);
-    void handle_completion(Caliper* c, ChannelBody* chB, int nreq, MPI_Request* reqs, MPI_Status* statuses);
+    /// \brief Take the information about requests which the calling thread tries to complete.
+    ///   Another thread may get the handles for new requests before we process the completion.
+    void take_requests(int nreq, MPI_Request* reqs);
+    /// \brief Return the information about the requests that were not completed.
+    void return_requests();
+
+    void handle_completion(
+        Caliper*     c,
+        ChannelBody* chB,
+        bool         is_active,
+        int          nreq,
+        MPI_Request* reqs,
+        MPI_Status*  statuses
+    );
 
     void request_free(Caliper* c, ChannelBody* chB, MPI_Request* req);
 
diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index ce7889d..bb223fb 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -173,6 +173,20 @@ struct MpiWrapperConfig
             prev->next = next;
     }
 
+    void take_requests(int nreq, MPI_Request* reqs) {
+        if (enable_msg_tracing)
+            tracing.take_requests(nreq, reqs);
+        if (enable_msg_pattern)
+            pattern.take_requests(nreq, reqs);
+    }
+
+    void return_requests() {
+        if (enable_msg_tracing)
+            tracing.return_requests();
+        if (enable_msg_pattern)
+            pattern.return_requests();
+    }
+
     void inc_wrap_counters() {
         {{forallfn foo}}
         if (enable_{{foo}})
@@ -563,6 +577,8 @@ post_init_cb(Caliper* c, Channel* channel)
         ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
+            if (mwc->enable_{{func}})
+                mwc->take_requests(1, &tmp_req);
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active())
                 mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), 1, &tmp_req);
         }
@@ -570,14 +586,19 @@ post_init_cb(Caliper* c, Channel* channel)
         {{callfn}}
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_{{func}} && mwc->channel.is_active()) {
+            if (mwc->enable_{{func}}) {
                 if (mwc->enable_msg_tracing)
-                    mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, &tmp_req, {{1}});
+                    mwc->tracing.handle_completion(&c, mwc->channel.body(), mwc->channel.is_active(), 1, &tmp_req, {{1}});
                 if (mwc->enable_msg_pattern)
-                    mwc->pattern.handle_completion(&c, mwc->channel.body(), 1, &tmp_req, {{1}});
+                    mwc->pattern.handle_completion(&c, mwc->channel.body(), mwc->channel.is_active(), 1, &tmp_req, {{1}});
             }
         }
 
+        for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
+            if (mwc->enable_{{func}})
+                mwc->return_requests();
+        }
+
         ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
@@ -599,12 +620,11 @@ post_init_cb(Caliper* c, Channel* channel)
         Caliper c;
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_{{func}} && mwc->channel.is_active() && (mwc->enable_msg_tracing || mwc->enable_msg_pattern)) {
+            if (mwc->enable_{{func}} && (mwc->enable_msg_tracing || mwc->enable_msg_pattern)) {
                 copy_reqs = true;
-                if (mwc->enable_msg_pattern)
+                mwc->take_requests(nreq, {{1}});
+                if (mwc->enable_msg_pattern && mwc->channel.is_active())
                     mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), nreq, {{1}});
-                else
-                    break;
             }
         }
 
@@ -623,10 +643,15 @@ post_init_cb(Caliper* c, Channel* channel)
         {{callfn}}
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_msg_tracing && nreq > 0 && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->tracing.handle_completion(&c, mwc->channel.body(), nreq, tmp_req, {{2}});
-            if (mwc->enable_msg_pattern && nreq > 0 && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->pattern.handle_completion(&c, mwc->channel.body(), nreq, tmp_req, {{2}});
+            if (mwc->enable_msg_tracing && nreq > 0 && copy_reqs && mwc->enable_{{func}})
+                mwc->tracing.handle_completion(&c, mwc->channel.body(), mwc->channel.is_active(), nreq, tmp_req, {{2}});
+            if (mwc->enable_msg_pattern && nreq > 0 && copy_reqs && mwc->enable_{{func}})
+                mwc->pattern.handle_completion(&c, mwc->channel.body(), mwc->channel.is_active(), nreq, tmp_req, {{2}});
+        }
+
+        for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
+            if (mwc->enable_{{func}})
+                mwc->return_requests();
         }
 
         ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
@@ -656,9 +681,9 @@ post_init_cb(Caliper* c, Channel* channel)
         bool copy_reqs = false;
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_{{func}} && mwc->channel.is_active() && (mwc->enable_msg_tracing || mwc->enable_msg_pattern)) {
+            if (mwc->enable_{{func}} && (mwc->enable_msg_tracing || mwc->enable_msg_pattern)) {
                 copy_reqs = true;
-                break;
+                mwc->take_requests(nreq, {{1}});
             }
         }
 
@@ -675,14 +700,20 @@ post_init_cb(Caliper* c, Channel* channel)
         {{callfn}}
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_msg_tracing && *{{2}} != MPI_UNDEFINED && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}), {{3}});
-            if (mwc->enable_msg_pattern && *{{2}} != MPI_UNDEFINED && mwc->enable_{{func}} && mwc->channel.is_active()) {
-                mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}));
-                mwc->pattern.handle_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}), {{3}});
+            if (mwc->enable_msg_tracing && *{{2}} != MPI_UNDEFINED && copy_reqs && mwc->enable_{{func}})
+                mwc->tracing.handle_completion(&c, mwc->channel.body(), mwc->channel.is_active(), 1, tmp_req+(*{{2}}), {{3}});
+            if (mwc->enable_msg_pattern && *{{2}} != MPI_UNDEFINED && copy_reqs && mwc->enable_{{func}}) {
+                if (mwc->channel.is_active())
+                    mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}));
+                mwc->pattern.handle_completion(&c, mwc->channel.body(), mwc->channel.is_active(), 1, tmp_req+(*{{2}}), {{3}});
             }
         }
 
+        for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
+            if (mwc->enable_{{func}})
+                mwc->return_requests();
+        }
+
         ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
 
         if (copy_reqs)
@@ -708,9 +739,9 @@ post_init_cb(Caliper* c, Channel* channel)
         bool copy_reqs = false;
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_{{func}} && mwc->channel.is_active() && (mwc->enable_msg_tracing || mwc->enable_msg_pattern)) {
+            if (mwc->enable_{{func}} && (mwc->enable_msg_tracing || mwc->enable_msg_pattern)) {
                 copy_reqs = true;
-                break;
+                mwc->take_requests(nreq, {{1}});
             }
         }
 
@@ -729,16 +760,22 @@ post_init_cb(Caliper* c, Channel* channel)
         {{callfn}}
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active())
+            if (mwc->enable_msg_tracing && copy_reqs && mwc->enable_{{func}})
                 for (int i = 0; i < *{{2}}; ++i)
-                   mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i], {{4}}+i);
-            if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active())
+                   mwc->tracing.handle_completion(&c, mwc->channel.body(), mwc->channel.is_active(), 1, tmp_req+{{3}}[i], {{4}}+i);
+            if (mwc->enable_msg_pattern && copy_reqs && mwc->enable_{{func}})
                for (int i = 0; i < *{{2}}; ++i) {
-                   mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i]);
-                   mwc->pattern.handle_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i], {{4}}+i);
+                   if (mwc->channel.is_active())
+                       mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i]);
+                   mwc->pattern.handle_completion(&c, mwc->channel.body(), mwc->channel.is_active(), 1, tmp_req+{{3}}[i], {{4}}+i);
                }
         }
 
+        for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
+            if (mwc->enable_{{func}})
+                mwc->return_requests();
+        }
+
         ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
 
         if (copy_reqs) {
@@ -764,21 +801,32 @@ post_init_cb(Caliper* c, Channel* channel)
         if ({{2}} == MPI_STATUS_IGNORE)
             {{2}} = &tmp_status;
 
+        for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
+            if (mwc->enable_{{func}})
+                mwc->take_requests(1, &tmp_req);
+        }
+
         ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
 
         {{callfn}}
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (*{{1}} && mwc->enable_{{func}} && mwc->channel.is_active()) {
+            if (*{{1}} && mwc->enable_{{func}}) {
                 if (mwc->enable_msg_tracing)
-                    mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, &tmp_req, {{2}});
+                    mwc->tracing.handle_completion(&c, mwc->channel.body(), mwc->channel.is_active(), 1, &tmp_req, {{2}});
                 if (mwc->enable_msg_pattern) {
-                    mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), 1, &tmp_req);
-                    mwc->pattern.handle_completion(&c, mwc->channel.body(), 1, &tmp_req, {{2}});
+                    if (mwc->channel.is_active())
+                        mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), 1, &tmp_req);
+                    mwc->pattern.handle_completion(&c, mwc->channel.body(), mwc->channel.is_active(), 1, &tmp_req, {{2}});
                 }
             }
         }
 
+        for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
+            if (mwc->enable_{{func}})
+                mwc->return_requests();
+        }
+
         ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
@@ -801,9 +849,9 @@ post_init_cb(Caliper* c, Channel* channel)
         bool copy_reqs = false;
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_{{func}} && mwc->channel.is_active() && (mwc->enable_msg_tracing || mwc->enable_msg_pattern)) {
+            if (mwc->enable_{{func}} && (mwc->enable_msg_tracing || mwc->enable_msg_pattern)) {
                 copy_reqs = true;
-                break;
+                mwc->take_requests(nreq, {{1}});
             }
         }
 
@@ -822,16 +870,22 @@ post_init_cb(Caliper* c, Channel* channel)
         {{callfn}}
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (*{{2}} && mwc->enable_{{func}} && mwc->channel.is_active()) {
+            if (*{{2}} && copy_reqs && mwc->enable_{{func}}) {
                 if (mwc->enable_msg_tracing)
-                    mwc->tracing.handle_completion(&c, mwc->channel.body(), nreq, tmp_req, {{3}});
+                    mwc->tracing.handle_completion(&c, mwc->channel.body(), mwc->channel.is_active(), nreq, tmp_req, {{3}});
                 if (mwc->enable_msg_pattern) {
-                    mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), nreq, tmp_req);
-                    mwc->pattern.handle_completion(&c, mwc->channel.body(), nreq, tmp_req, {{3}});
+                    if (mwc->channel.is_active())
+                        mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), nreq, tmp_req);
+                    mwc->pattern.handle_completion(&c, mwc->channel.body(), mwc->channel.is_active(), nreq, tmp_req, {{3}});
                 }
             }
         }
 
+        for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
+            if (mwc->enable_{{func}})
+                mwc->return_requests();
+        }
+
         ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
 
         if (copy_reqs) {
@@ -860,9 +914,9 @@ post_init_cb(Caliper* c, Channel* channel)
         bool copy_reqs = false;
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_{{func}} && mwc->channel.is_active() && (mwc->enable_msg_tracing || mwc->enable_msg_pattern)) {
+            if (mwc->enable_{{func}} && (mwc->enable_msg_tracing || mwc->enable_msg_pattern)) {
                 copy_reqs = true;
-                break;
+                mwc->take_requests(nreq, {{1}});
             }
         }
 
@@ -879,16 +933,22 @@ post_init_cb(Caliper* c, Channel* channel)
         {{callfn}}
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (*{{3}} && *{{2}} != MPI_UNDEFINED && mwc->enable_{{func}} && mwc->channel.is_active()) {
+            if (*{{3}} && *{{2}} != MPI_UNDEFINED && copy_reqs && mwc->enable_{{func}}) {
                 if (mwc->enable_msg_tracing)
-                    mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}), {{4}});
+                    mwc->tracing.handle_completion(&c, mwc->channel.body(), mwc->channel.is_active(), 1, tmp_req+(*{{2}}), {{4}});
                 if (mwc->enable_msg_pattern) {
-                    mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}));
-                    mwc->pattern.handle_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}), {{4}});
+                    if (mwc->channel.is_active())
+                        mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}));
+                    mwc->pattern.handle_completion(&c, mwc->channel.body(), mwc->channel.is_active(), 1, tmp_req+(*{{2}}), {{4}});
                 }
             }
         }
 
+        for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
+            if (mwc->enable_{{func}})
+                mwc->return_requests();
+        }
+
         ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
 
         if (copy_reqs)
@@ -908,9 +968,9 @@ post_init_cb(Caliper* c, Channel* channel)
         ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active())
+            if (mwc->enable_msg_tracing && mwc->enable_{{func}})
                 mwc->tracing.request_free(&c, mwc->channel.body(), {{0}});
-            if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active())
+            if (mwc->enable_msg_pattern && mwc->enable_{{func}})
                 mwc->pattern.request_free(&c, mwc->channel.body(), {{0}});
         }
 
-- 
2.43.0


From fb6d70ed59eaf56c1db8ffedf52b1affe25d277c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:17:30 +0000
Subject: [PATCH 58/78] fix: end exactly the MPI function regions that were
 begun

The wrap count was read again for the end, and changes when a channel is
created or deleted during the MPI call.
---
 src/services/mpiwrap/Wrapper.w | 170 ++++++++++++++++++++-------------
 1 file changed, 102 insertions(+), 68 deletions(-)

diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index bb223fb..d188ff2 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -311,7 +311,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -324,7 +325,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -337,7 +338,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -350,7 +352,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -363,7 +365,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         MPI_Status tmp_status;
 
@@ -381,7 +384,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
        }
 
-       ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+       ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
        {{callfn}}
@@ -394,7 +397,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         MPI_Status tmp_status;
 
@@ -416,7 +420,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -429,7 +433,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         MPI_Status tmp_status;
 
@@ -451,7 +456,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -464,7 +469,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -477,7 +483,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -490,7 +496,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -503,7 +510,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -516,7 +523,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -529,7 +537,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -542,7 +550,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -555,7 +564,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -574,7 +583,8 @@ post_init_cb(Caliper* c, Channel* channel)
             {{1}} = &tmp_status;
 
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_{{func}})
@@ -599,7 +609,7 @@ post_init_cb(Caliper* c, Channel* channel)
                 mwc->return_requests();
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -638,7 +648,8 @@ post_init_cb(Caliper* c, Channel* channel)
                 {{2}} = tmp_statuses;
         }
 
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -654,7 +665,7 @@ post_init_cb(Caliper* c, Channel* channel)
                 mwc->return_requests();
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 
         if (copy_reqs) {
             delete[] tmp_statuses;
@@ -695,7 +706,8 @@ post_init_cb(Caliper* c, Channel* channel)
                 {{3}} = &tmp_status;
         }
 
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -714,7 +726,7 @@ post_init_cb(Caliper* c, Channel* channel)
                 mwc->return_requests();
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 
         if (copy_reqs)
             delete[] tmp_req;
@@ -755,7 +767,8 @@ post_init_cb(Caliper* c, Channel* channel)
                 {{4}} = tmp_statuses;
         }
 
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -776,7 +789,7 @@ post_init_cb(Caliper* c, Channel* channel)
                 mwc->return_requests();
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 
         if (copy_reqs) {
             delete[] tmp_statuses;
@@ -806,7 +819,8 @@ post_init_cb(Caliper* c, Channel* channel)
                 mwc->take_requests(1, &tmp_req);
         }
 
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -827,7 +841,7 @@ post_init_cb(Caliper* c, Channel* channel)
                 mwc->return_requests();
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -865,7 +879,8 @@ post_init_cb(Caliper* c, Channel* channel)
             {{3}} = tmp_statuses;
         }
 
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -886,7 +901,7 @@ post_init_cb(Caliper* c, Channel* channel)
                 mwc->return_requests();
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 
         if (copy_reqs) {
             delete[] tmp_statuses;
@@ -928,7 +943,8 @@ post_init_cb(Caliper* c, Channel* channel)
                 {{4}} = &tmp_status;
         }
 
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -949,7 +965,7 @@ post_init_cb(Caliper* c, Channel* channel)
                 mwc->return_requests();
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 
         if (copy_reqs)
             delete[] tmp_req;
@@ -965,7 +981,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_msg_tracing && mwc->enable_{{func}})
@@ -976,7 +993,7 @@ post_init_cb(Caliper* c, Channel* channel)
 
         {{callfn}}
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -993,7 +1010,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -1006,7 +1024,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -1019,7 +1037,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -1032,7 +1051,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -1045,7 +1064,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -1058,7 +1078,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -1071,7 +1091,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -1090,7 +1111,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -1103,7 +1124,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -1114,7 +1136,7 @@ post_init_cb(Caliper* c, Channel* channel)
                 mwc->pattern.handle_n21(&c, mwc->channel.body(), {{1}}, {{2}}, {{6}}, {{7}});
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -1127,7 +1149,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -1138,7 +1161,7 @@ post_init_cb(Caliper* c, Channel* channel)
                 mwc->pattern.handle_n21(&c, mwc->channel.body(), {{1}}, {{2}}, {{7}}, {{8}});
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -1152,7 +1175,8 @@ post_init_cb(Caliper* c, Channel* channel)
 #endif
         Caliper c;
 
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -1163,7 +1187,7 @@ post_init_cb(Caliper* c, Channel* channel)
                 mwc->pattern.handle_n21(&c, mwc->channel.body(), {{2}}, {{3}}, {{5}}, {{6}});
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -1176,7 +1200,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -1187,7 +1212,7 @@ post_init_cb(Caliper* c, Channel* channel)
                 mwc->pattern.handle_n2n(&c, mwc->channel.body(), {{2}}, {{3}}, {{5}});
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -1200,7 +1225,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -1217,7 +1243,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -1230,7 +1256,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -1241,7 +1268,7 @@ post_init_cb(Caliper* c, Channel* channel)
                 mwc->pattern.handle_n2n(&c, mwc->channel.body(), {{2}}, {{3}}, {{5}});
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -1254,7 +1281,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -1264,7 +1292,7 @@ post_init_cb(Caliper* c, Channel* channel)
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active())
                 mwc->pattern.handle_n2n(&c, mwc->channel.body(), {{1}}, {{2}}, {{6}});
         }
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -1277,7 +1305,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -1288,7 +1317,7 @@ post_init_cb(Caliper* c, Channel* channel)
                 mwc->pattern.handle_n2n(&c, mwc->channel.body(), {{1}}, {{2}}, {{7}});
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -1301,7 +1330,8 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -1318,7 +1348,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -1332,7 +1362,8 @@ post_init_cb(Caliper* c, Channel* channel)
 #endif
         Caliper c;
 
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
 
         {{callfn}}
 
@@ -1351,7 +1382,7 @@ post_init_cb(Caliper* c, Channel* channel)
             }
         }
 
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
@@ -1376,7 +1407,8 @@ post_init_cb(Caliper* c, Channel* channel)
             mwc->mpi_events.mpi_init_evt(&c, &mwc->channel);
     }
 
-    ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+    const bool is_wrapped = ::{{func}}_wrap_count > 0;
+    ::push_mpifn(&c, is_wrapped, "{{func}}");
 
     /* skip the barrier / tracing, causes problems if not all ranks initialize MPI wrappers
     PMPI_Barrier(MPI_COMM_WORLD);
@@ -1385,13 +1417,14 @@ post_init_cb(Caliper* c, Channel* channel)
         if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active())
             mwc->tracing.handle_init(&c, &mwc->channel);
     */
-    ::pop_mpifn(&c, ::{{func}}_wrap_count);
+    ::pop_mpifn(&c, is_wrapped);
 }{{endfn}}
 
 {{fn func MPI_Finalize}}{
     Caliper c;
 
-    ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+    const bool is_wrapped = ::{{func}}_wrap_count > 0;
+    ::push_mpifn(&c, is_wrapped, "{{func}}");
 
     /* skip the barrier / tracing, causes problems if not all ranks initialize MPI wrappers
     PMPI_Barrier(MPI_COMM_WORLD);
@@ -1401,7 +1434,7 @@ post_init_cb(Caliper* c, Channel* channel)
             mwc->tracing.handle_finalize(&c, &mwc->channel);
     */
 
-    ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+    ::pop_mpifn(&c, is_wrapped);
 
     for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next)
         mwc->mpi_events.mpi_finalize_evt(&c, &mwc->channel);
@@ -1435,9 +1468,10 @@ post_init_cb(Caliper* c, Channel* channel)
     if (::enable_wrapper) {
 #endif
         Caliper c;
-        ::push_mpifn(&c, ::{{func}}_wrap_count > 0, "{{func}}");
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
         {{callfn}}
-        ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
+        ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
     } else {
         {{callfn}}
-- 
2.43.0


From c6def82bab9403a6cd2c3f0dd21ce9e4e7bad227 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:17:30 +0000
Subject: [PATCH 59/78] fix: do not record cancelled and inactive MPI receive
 requests

---
 src/services/mpiwrap/MpiPattern.cpp | 11 ++++++++++-
 src/services/mpiwrap/MpiTracing.cpp | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/services/mpiwrap/MpiPattern.cpp b/src/services/mpiwrap/MpiPattern.cpp
index 79f6c14..1706616 100644
--- a/src/services/mpiwrap/MpiPattern.cpp
+++ b/src/services/mpiwrap/MpiPattern.cpp
@@ -243,6 +243,15 @@ struct MpiPattern::MpiPatternImpl {
         }
     }
 
+    // Cancelled receives and inactive persistent requests (with an empty status) received no message
+    static bool is_received(const MPI_Status* status)
+    {
+        int cancelled = 0;
+        PMPI_Test_cancelled(status, &cancelled);
+
+        return !cancelled && status->MPI_SOURCE != MPI_ANY_SOURCE;
+    }
+
     void take_requests(int nreq, MPI_Request* reqs)
     {
         std::lock_guard<std::mutex> g(req_map_lock);
@@ -301,7 +310,7 @@ struct MpiPattern::MpiPatternImpl {
 
             RequestInfo info = it->second;
 
-            if (is_active && info.op == RequestInfo::Recv) {
+            if (is_active && info.op == RequestInfo::Recv && is_received(statuses + i)) {
                 int size = 0;
                 PMPI_Type_size(info.type, &size);
                 int count = 0;
diff --git a/src/services/mpiwrap/MpiTracing.cpp b/src/services/mpiwrap/MpiTracing.cpp
index 7e09614..22d7608 100644
--- a/src/services/mpiwrap/MpiTracing.cpp
+++ b/src/services/mpiwrap/MpiTracing.cpp
@@ -310,6 +310,15 @@ struct MpiTracing::MpiTracingImpl {
         }
     }
 
+    // Cancelled receives and inactive persistent requests (with an empty status) received no message
+    static bool is_received(const MPI_Status* status)
+    {
+        int cancelled = 0;
+        PMPI_Test_cancelled(status, &cancelled);
+
+        return !cancelled && status->MPI_SOURCE != MPI_ANY_SOURCE;
+    }
+
     void take_requests(int nreq, MPI_Request* reqs)
     {
         std::lock_guard<std::mutex> g(req_map_lock);
@@ -353,7 +362,7 @@ struct MpiTracing::MpiTracingImpl {
 
             RequestInfo info = it->second;
 
-            if (is_active && info.op == RequestInfo::Recv) {
+            if (is_active && info.op == RequestInfo::Recv && is_received(statuses + i)) {
                 int size = 0;
                 PMPI_Type_size(info.type, &size);
                 int count = 0;
-- 
2.43.0


From 995cb6f207c508f5c962bc9f3037c0ef9ed0f206 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:17:30 +0000
Subject: [PATCH 60/78] fix: forget freed MPI communicators

A new communicator with the same handle was recorded as the freed one.
---
 src/services/mpiwrap/MpiTracing.cpp | 11 +++++++++++
 src/services/mpiwrap/MpiTracing.h   |  3 +++
 src/services/mpiwrap/Wrapper.w      | 28 ++++++++++++++++++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/src/services/mpiwrap/MpiTracing.cpp b/src/services/mpiwrap/MpiTracing.cpp
index 22d7608..074d5a2 100644
--- a/src/services/mpiwrap/MpiTracing.cpp
+++ b/src/services/mpiwrap/MpiTracing.cpp
@@ -176,6 +176,12 @@ struct MpiTracing::MpiTracingImpl {
         return node;
     }
 
+    void comm_free(MPI_Comm comm)
+    {
+        std::lock_guard<std::mutex> g(comm_map_lock);
+        comm_map.erase(comm);
+    }
+
     // --- point-to-point
     //
 
@@ -525,6 +531,11 @@ void MpiTracing::request_free(Caliper*, ChannelBody*, MPI_Request* req)
     mP->request_free(req);
 }
 
+void MpiTracing::comm_free(MPI_Comm comm)
+{
+    mP->comm_free(comm);
+}
+
 void MpiTracing::handle_12n(Caliper* c, ChannelBody* chB, int count, MPI_Datatype type, int root, MPI_Comm comm)
 {
     int size = 0;
diff --git a/src/services/mpiwrap/MpiTracing.h b/src/services/mpiwrap/MpiTracing.h
index 51f4623..cc3bc58 100644
--- a/src/services/mpiwrap/MpiTracing.h
+++ b/src/services/mpiwrap/MpiTracing.h
@@ -96,6 +96,9 @@ public:
 
     void request_free(Caliper* c, ChannelBody* chB, MPI_Request* req);
 
+    /// \brief Forget a communicator before its handle can be reused
+    void comm_free(MPI_Comm comm);
+
     // --- collectives
 
     void handle_12n(Caliper* c, ChannelBody* chB, int count, MPI_Datatype type, int root, MPI_Comm comm);
diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index d188ff2..0b2b57e 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -1001,6 +1001,33 @@ post_init_cb(Caliper* c, Channel* channel)
 #endif
 }{{endfn}}
 
+//
+// --- Communicators
+//
+
+{{fn func MPI_Comm_free MPI_Comm_disconnect}}{
+#ifndef CALIPER_MPIWRAP_USE_GOTCHA
+    if (::enable_wrapper) {
+#endif
+        Caliper c;
+        const bool is_wrapped = ::{{func}}_wrap_count > 0;
+        ::push_mpifn(&c, is_wrapped, "{{func}}");
+
+        for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
+            if (mwc->enable_msg_tracing)
+                mwc->tracing.comm_free(*{{0}});
+        }
+
+        {{callfn}}
+
+        ::pop_mpifn(&c, is_wrapped);
+#ifndef CALIPER_MPIWRAP_USE_GOTCHA
+    } else {
+        {{callfn}}
+    }
+#endif
+}{{endfn}}
+
 //
 // --- Collectives
 //
@@ -1456,6 +1483,7 @@ post_init_cb(Caliper* c, Channel* channel)
     MPI_Recv MPI_Irecv MPI_Recv_init
     MPI_Sendrecv MPI_Sendrecv_replace
     MPI_Start MPI_Startall MPI_Request_free
+    MPI_Comm_free MPI_Comm_disconnect
     MPI_Wait MPI_Waitall MPI_Waitany MPI_Waitsome
     MPI_Test MPI_Testall MPI_Testany MPI_Testsome
     MPI_Barrier
-- 
2.43.0


From 37a39b7fc2940e116d2207c9ba32e9fd13c69331 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:17:30 +0000
Subject: [PATCH 61/78] fix: sizes of MPI collectives

Only use arguments that are significant on the rank and with MPI_IN_PLACE:
the others may be null. MPI_Scatterv used the displacements as counts.
---
 src/services/mpiwrap/MpiPattern.cpp | 22 +++++++++----
 src/services/mpiwrap/MpiTracing.cpp | 22 +++++++++----
 src/services/mpiwrap/Wrapper.w      | 50 +++++++++++++++++++++--------
 3 files changed, 68 insertions(+), 26 deletions(-)

diff --git a/src/services/mpiwrap/MpiPattern.cpp b/src/services/mpiwrap/MpiPattern.cpp
index 1706616..4c6f46b 100644
--- a/src/services/mpiwrap/MpiPattern.cpp
+++ b/src/services/mpiwrap/MpiPattern.cpp
@@ -497,22 +497,32 @@ void MpiPattern::request_free(Caliper*, ChannelBody*, MPI_Request* req)
 
 void MpiPattern::handle_12n(Caliper* c, ChannelBody* chB, int count, MPI_Datatype type, int root, MPI_Comm comm)
 {
-    int size = 0;
-    PMPI_Type_size(type, &size);
     int rank = 0;
     PMPI_Comm_rank(comm, &rank);
 
-    mP->push_coll_event(c, chB, Coll_12N, (rank == root ? count : 0) * size, root);
+    //   count and type are only significant at the root
+    int size = 0;
+    if (rank == root) {
+        PMPI_Type_size(type, &size);
+        size *= count;
+    }
+
+    mP->push_coll_event(c, chB, Coll_12N, size, root);
 }
 
 void MpiPattern::handle_n21(Caliper* c, ChannelBody* chB, int count, MPI_Datatype type, int root, MPI_Comm comm)
 {
-    int size = 0;
-    PMPI_Type_size(type, &size);
     int rank = 0;
     PMPI_Comm_rank(comm, &rank);
 
-    mP->push_coll_event(c, chB, Coll_N21, (rank != root ? count : 0) * size, root);
+    //   count and type are only significant at the other ranks
+    int size = 0;
+    if (rank != root) {
+        PMPI_Type_size(type, &size);
+        size *= count;
+    }
+
+    mP->push_coll_event(c, chB, Coll_N21, size, root);
 }
 
 void MpiPattern::handle_n2n(Caliper* c, ChannelBody* chB, int count, MPI_Datatype type, MPI_Comm comm)
diff --git a/src/services/mpiwrap/MpiTracing.cpp b/src/services/mpiwrap/MpiTracing.cpp
index 074d5a2..522fccc 100644
--- a/src/services/mpiwrap/MpiTracing.cpp
+++ b/src/services/mpiwrap/MpiTracing.cpp
@@ -538,22 +538,32 @@ void MpiTracing::comm_free(MPI_Comm comm)
 
 void MpiTracing::handle_12n(Caliper* c, ChannelBody* chB, int count, MPI_Datatype type, int root, MPI_Comm comm)
 {
-    int size = 0;
-    PMPI_Type_size(type, &size);
     int rank = 0;
     PMPI_Comm_rank(comm, &rank);
 
-    mP->push_coll_event(c, chB, Coll_12N, (rank == root ? count : 0) * size, root, mP->lookup_comm(c, comm));
+    //   count and type are only significant at the root
+    int size = 0;
+    if (rank == root) {
+        PMPI_Type_size(type, &size);
+        size *= count;
+    }
+
+    mP->push_coll_event(c, chB, Coll_12N, size, root, mP->lookup_comm(c, comm));
 }
 
 void MpiTracing::handle_n21(Caliper* c, ChannelBody* chB, int count, MPI_Datatype type, int root, MPI_Comm comm)
 {
-    int size = 0;
-    PMPI_Type_size(type, &size);
     int rank = 0;
     PMPI_Comm_rank(comm, &rank);
 
-    mP->push_coll_event(c, chB, Coll_N21, (rank != root ? count : 0) * size, root, mP->lookup_comm(c, comm));
+    //   count and type are only significant at the other ranks
+    int size = 0;
+    if (rank != root) {
+        PMPI_Type_size(type, &size);
+        size *= count;
+    }
+
+    mP->push_coll_event(c, chB, Coll_N21, size, root, mP->lookup_comm(c, comm));
 }
 
 void MpiTracing::handle_n2n(Caliper* c, ChannelBody* chB, int count, MPI_Datatype type, MPI_Comm comm)
diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index 0b2b57e..284151b 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -1127,13 +1127,17 @@ post_init_cb(Caliper* c, Channel* channel)
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{8}}, &tmp_commsize);
-                int total_count  = std::accumulate({{2}}, {{2}}+tmp_commsize, 0);
+                int tmp_rank = 0;
+                PMPI_Comm_rank({{8}}, &tmp_rank);
+                int total_count  = tmp_rank == {{7}} ? std::accumulate({{1}}, {{1}}+tmp_commsize, 0) : 0;
                 mwc->tracing.handle_12n(&c, mwc->channel.body(), total_count, {{3}}, {{7}}, {{8}});
             }
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{8}}, &tmp_commsize);
-                int total_count  = std::accumulate({{2}}, {{2}}+tmp_commsize, 0);
+                int tmp_rank = 0;
+                PMPI_Comm_rank({{8}}, &tmp_rank);
+                int total_count  = tmp_rank == {{7}} ? std::accumulate({{1}}, {{1}}+tmp_commsize, 0) : 0;
                 mwc->pattern.handle_12n(&c, mwc->channel.body(), total_count, {{3}}, {{7}}, {{8}});
             }
         }
@@ -1313,11 +1317,14 @@ post_init_cb(Caliper* c, Channel* channel)
 
         {{callfn}}
 
+        // the send count and type are not significant with MPI_IN_PLACE
+        const bool in_place = ({{0}} == MPI_IN_PLACE);
+
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->tracing.handle_n2n(&c, mwc->channel.body(), {{1}}, {{2}}, {{6}});
+                mwc->tracing.handle_n2n(&c, mwc->channel.body(), in_place ? {{4}} : {{1}}, in_place ? {{5}} : {{2}}, {{6}});
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->pattern.handle_n2n(&c, mwc->channel.body(), {{1}}, {{2}}, {{6}});
+                mwc->pattern.handle_n2n(&c, mwc->channel.body(), in_place ? {{4}} : {{1}}, in_place ? {{5}} : {{2}}, {{6}});
         }
         ::pop_mpifn(&c, is_wrapped);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
@@ -1337,11 +1344,20 @@ post_init_cb(Caliper* c, Channel* channel)
 
         {{callfn}}
 
+        // the send count and type are not significant with MPI_IN_PLACE
+        const bool in_place = ({{0}} == MPI_IN_PLACE);
+
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->tracing.handle_n2n(&c, mwc->channel.body(), {{1}}, {{2}}, {{7}});
-            if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->pattern.handle_n2n(&c, mwc->channel.body(), {{1}}, {{2}}, {{7}});
+            if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active()) {
+                int tmp_rank = 0;
+                PMPI_Comm_rank({{7}}, &tmp_rank);
+                mwc->tracing.handle_n2n(&c, mwc->channel.body(), in_place ? {{4}}[tmp_rank] : {{1}}, in_place ? {{6}} : {{2}}, {{7}});
+            }
+            if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active()) {
+                int tmp_rank = 0;
+                PMPI_Comm_rank({{7}}, &tmp_rank);
+                mwc->pattern.handle_n2n(&c, mwc->channel.body(), in_place ? {{4}}[tmp_rank] : {{1}}, in_place ? {{6}} : {{2}}, {{7}});
+            }
         }
 
         ::pop_mpifn(&c, is_wrapped);
@@ -1362,16 +1378,19 @@ post_init_cb(Caliper* c, Channel* channel)
 
         {{callfn}}
 
+        // the send count and type are not significant with MPI_IN_PLACE
+        const bool in_place = ({{0}} == MPI_IN_PLACE);
+
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{6}}, &tmp_commsize);
-                mwc->tracing.handle_n2n(&c, mwc->channel.body(), tmp_commsize * {{1}}, {{2}}, {{6}});
+                mwc->tracing.handle_n2n(&c, mwc->channel.body(), tmp_commsize * (in_place ? {{4}} : {{1}}), in_place ? {{5}} : {{2}}, {{6}});
             }
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{6}}, &tmp_commsize);
-                mwc->pattern.handle_n2n(&c, mwc->channel.body(), tmp_commsize * {{1}}, {{2}}, {{6}});
+                mwc->pattern.handle_n2n(&c, mwc->channel.body(), tmp_commsize * (in_place ? {{4}} : {{1}}), in_place ? {{5}} : {{2}}, {{6}});
             }
         }
 
@@ -1394,18 +1413,21 @@ post_init_cb(Caliper* c, Channel* channel)
 
         {{callfn}}
 
+        // the send count and type are not significant with MPI_IN_PLACE
+        const bool in_place = ({{0}} == MPI_IN_PLACE);
+
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{8}}, &tmp_commsize);
-                int total_count  = std::accumulate({{1}}, {{1}}+tmp_commsize, 0);
-                mwc->tracing.handle_n2n(&c, mwc->channel.body(), total_count, {{3}}, {{8}});
+                int total_count  = in_place ? std::accumulate({{5}}, {{5}}+tmp_commsize, 0) : std::accumulate({{1}}, {{1}}+tmp_commsize, 0);
+                mwc->tracing.handle_n2n(&c, mwc->channel.body(), total_count, in_place ? {{7}} : {{3}}, {{8}});
             }
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{8}}, &tmp_commsize);
-                int total_count  = std::accumulate({{1}}, {{1}}+tmp_commsize, 0);
-                mwc->pattern.handle_n2n(&c, mwc->channel.body(), total_count, {{3}}, {{8}});
+                int total_count  = in_place ? std::accumulate({{5}}, {{5}}+tmp_commsize, 0) : std::accumulate({{1}}, {{1}}+tmp_commsize, 0);
+                mwc->pattern.handle_n2n(&c, mwc->channel.body(), total_count, in_place ? {{7}} : {{3}}, {{8}});
             }
         }
 
-- 
2.43.0


From 4e9fb4c688eec30d4a13f03f7b278520d2823331 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:17:30 +0000
Subject: [PATCH 62/78] fix: lock the message pattern totals

Threads update the counters and rank sets concurrently.
---
 src/services/mpiwrap/MpiPattern.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/services/mpiwrap/MpiPattern.cpp b/src/services/mpiwrap/MpiPattern.cpp
index 4c6f46b..45155dc 100644
--- a/src/services/mpiwrap/MpiPattern.cpp
+++ b/src/services/mpiwrap/MpiPattern.cpp
@@ -120,8 +120,12 @@ struct MpiPattern::MpiPatternImpl {
     std::set<int> unique_src_ranks;
     std::set<int> unique_dest_ranks;
 
+    std::mutex totals_lock;
+
     void push_send_event(Caliper* c, ChannelBody*, int size, int dest, int tag)
     {
+        std::lock_guard<std::mutex> g(totals_lock);
+
         total_send_count++;
         total_send_size += size;
 
@@ -158,6 +162,8 @@ struct MpiPattern::MpiPatternImpl {
 
     void push_recv_event(Caliper* c, ChannelBody*, int src, int size, int tag)
     {
+        std::lock_guard<std::mutex> g(totals_lock);
+
         total_recv_count++;
         total_recv_size += size;
 
@@ -336,12 +342,16 @@ struct MpiPattern::MpiPatternImpl {
 
     void push_coll_event(Caliper* c, ChannelBody* chB, CollectiveType coll_type, int size, int root)
     {
+        std::lock_guard<std::mutex> g(totals_lock);
+
         ++total_coll_count;
         total_coll_size += size;
     }
 
     void handle_comm_begin(Caliper* c, ChannelBody* chn)
     {
+        std::lock_guard<std::mutex> g(totals_lock);
+
         total_send_count = 0;
         total_recv_count = 0;
         total_coll_count = 0;
@@ -355,6 +365,8 @@ struct MpiPattern::MpiPatternImpl {
 
     void handle_comm_end(Caliper* c, ChannelBody* chn)
     {
+        std::unique_lock<std::mutex> g(totals_lock);
+
         const Entry data[] = { { total_send_count_attr, Variant(total_send_count) },
                                { total_recv_count_attr, Variant(total_recv_count) },
                                { total_coll_count_attr, Variant(total_coll_count) },
@@ -366,6 +378,8 @@ struct MpiPattern::MpiPatternImpl {
                                { total_send_size_attr, Variant(total_send_size) },
                                { total_coll_size_attr, Variant(total_coll_size) } };
 
+        g.unlock();
+
         c->push_snapshot(chn, SnapshotView(8, data));
     }
 
-- 
2.43.0


From bcf7ab3e303fe29d3031e2d751096e7e7611a692 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:17:30 +0000
Subject: [PATCH 63/78] fix: no wait gap timer event for persistent MPI
 requests

Their timer was never started.
---
 src/services/mpiwrap/MpiPattern.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/services/mpiwrap/MpiPattern.cpp b/src/services/mpiwrap/MpiPattern.cpp
index 45155dc..ba53818 100644
--- a/src/services/mpiwrap/MpiPattern.cpp
+++ b/src/services/mpiwrap/MpiPattern.cpp
@@ -298,7 +298,8 @@ struct MpiPattern::MpiPatternImpl {
             if (it == taken.end())
                 continue;
 
-            if (it->second.op == RequestInfo::Recv)
+            // the timer is not started for persistent requests
+            if (it->second.op == RequestInfo::Recv && !it->second.is_persistent)
                 it->second.timer.end();
         }
     }
-- 
2.43.0


From 9cb4201e73ca5bd55c53652d58604f7ca60267c3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:06:13 +0000
Subject: [PATCH 64/78] fix: delete a shared annotation object only once

Two threads that release the last two copies could both see a zero count.
---
 src/caliper/Annotation.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/caliper/Annotation.cpp b/src/caliper/Annotation.cpp
index 8a7926f..d310dbf 100644
--- a/src/caliper/Annotation.cpp
+++ b/src/caliper/Annotation.cpp
@@ -200,9 +200,7 @@ struct Annotation::Impl {
 
     void detach()
     {
-        --m_refcount;
-
-        if (m_refcount == 0)
+        if (--m_refcount == 0)
             delete this;
     }
 };
-- 
2.43.0


From 1de2ac1688830283327cfb32e0910c66535bf821 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:23:50 +0000
Subject: [PATCH 65/78] fix: lock the tree formatter's tree

---
 src/reader/TreeFormatter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader/TreeFormatter.cpp b/src/reader/TreeFormatter.cpp
index 924f489..dab6da0 100644
--- a/src/reader/TreeFormatter.cpp
+++ b/src/reader/TreeFormatter.cpp
@@ -59,6 +59,7 @@ struct TreeFormatter::TreeFormatterImpl {
     std::vector<SortInfo> m_sort_info;
 
     std::mutex m_path_key_lock;
+    std::mutex m_tree_lock; // protects m_tree and m_column_info
 
     int column_width(int base) const
     {
@@ -141,6 +142,8 @@ struct TreeFormatter::TreeFormatterImpl {
 
     void add(const CaliperMetadataAccessInterface& db, const EntryList& list)
     {
+        std::lock_guard<std::mutex> g(m_tree_lock);
+
         const SnapshotTreeNode* node = nullptr;
 
         if (m_use_nested) {
-- 
2.43.0


From 4f3bd00f6a455c9769d64ca3ea391e08c1635c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:23 +0000
Subject: [PATCH 66/78] fix: compare aggregation keys by path content

Threads that create the same context tree path at the same time can leave
more than one copy of it in the tree. When one of them appears while an
aggregation runs, the results for the path were split into two records.
---
 src/reader/Aggregator.cpp | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index e4ec8ad..37882f7 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -26,17 +26,49 @@ using namespace cali;
 namespace
 {
 
+// Threads that create the same context tree path at the same time can leave
+// more than one copy of it in the tree, so we hash and compare paths by content.
+
+std::size_t compute_path_hash(const Node* node)
+{
+    std::size_t hash = 0;
+    for (; node && node->attribute() != CALI_INV_ID; node = node->parent()) {
+        Variant v = node->data();
+        const unsigned char* p = static_cast<const unsigned char*>(v.data());
+        hash = hash * 31 + node->attribute();
+        for (std::size_t i = 0; i < v.size(); ++i)
+            hash = hash * 31 + p[i];
+    }
+    return hash;
+}
+
+bool is_same_path(const Node* a, const Node* b)
+{
+    for (; a && b && a != b; a = a->parent(), b = b->parent())
+        if (!a->equals(b->attribute(), b->data()))
+            return false;
+    return a == b;
+}
+
 std::size_t compute_key_hash(const std::vector<Entry>& key)
 {
     std::size_t hash = 0;
     for (const Entry& e : key) {
-        hash += e.node()->id();
         if (e.is_immediate())
-            hash += e.value().to_uint();
+            hash += e.node()->id() + e.value().to_uint();
+        else
+            hash += compute_path_hash(e.node());
     }
     return hash;
 }
 
+bool is_same_key(const std::vector<Entry>& a, const std::vector<Entry>& b)
+{
+    return std::equal(a.begin(), a.end(), b.begin(), b.end(), [](const Entry& l, const Entry& r) {
+        return l == r || (l.is_reference() && r.is_reference() && is_same_path(l.node(), r.node()));
+    });
+}
+
 class CustomAttributeManager
 {
     std::string    m_name;
@@ -1084,7 +1116,7 @@ struct Aggregator::AggregatorImpl {
 
         std::size_t hash = compute_key_hash(key) % m_hashmap.size();
         for (size_t i = m_hashmap[hash]; i; i = m_entries[i]->next_entry_idx) {
-            if (key == m_entries[i]->key)
+            if (is_same_key(key, m_entries[i]->key))
                 return m_entries[i].get();
         }
 
-- 
2.43.0


From f0ef2191bf60a45f3a69d1c5eb9785728bea34bb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:39:43 +0000
Subject: [PATCH 67/78] fix: record no I/O bytes for failed read and write
 calls

---
 src/services/io/CurIOus/src/wrappers.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index 4da9c47..1e6e607 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -243,13 +243,16 @@ ssize_t wrapped_read(int fd, void* buf, size_t count)
         curious_call_callbacks(CURIOUS_READ_CALLBACK, &io_args);
 
         // Call the original, saving the result...
-        io_args.bytes_read = orig_read(fd, buf, count);
+        ssize_t return_val = orig_read(fd, buf, count);
         io_args.call_count = 1;
+        if (return_val > 0) {
+            io_args.bytes_read = return_val;
+        }
 
         //...for the pot callbacks to use
         curious_call_callbacks(CURIOUS_READ_CALLBACK | CURIOUS_POST_CALLBACK, &io_args);
 
-        WRAPPER_RETURN(io_args.bytes_read, read);
+        WRAPPER_RETURN(return_val, read);
 
         // and just call the original function every other time
     } else {
@@ -287,13 +290,16 @@ ssize_t wrapped_write(int fd, const void* buf, size_t count)
         curious_call_callbacks(CURIOUS_WRITE_CALLBACK, &io_args);
 
         // Call the original, saving the result...
-        io_args.bytes_written = orig_write(fd, buf, count);
-        io_args.call_count    = 1;
+        ssize_t return_val = orig_write(fd, buf, count);
+        io_args.call_count = 1;
+        if (return_val > 0) {
+            io_args.bytes_written = return_val;
+        }
 
         //...for the pot callbacks to use
         curious_call_callbacks(CURIOUS_WRITE_CALLBACK | CURIOUS_POST_CALLBACK, &io_args);
 
-        WRAPPER_RETURN(io_args.bytes_written, write);
+        WRAPPER_RETURN(return_val, write);
 
         // and just call the original function every other time
     } else {
-- 
2.43.0


From bdbe1722cbaed70f73dae888004af6503c4c64d6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:40:36 +0000
Subject: [PATCH 68/78] fix: forward lxstat64 to lxstat64

---
 src/services/io/CurIOus/src/wrappers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index 1e6e607..a3da5e9 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -552,7 +552,7 @@ int wrapped_lxstat64(int vers, const char* path, struct stat* buf)
     WRAPPER_ENTER(xstat);
 
     // Get the handle for the original function
-    xstat_f orig_lxstat64 = (xstat_f) gotcha_get_wrappee(io_fns[CURIOUS_XSTAT_ID].handle);
+    xstat_f orig_lxstat64 = (xstat_f) gotcha_get_wrappee(io_fns[CURIOUS_LXSTAT64_ID].handle);
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-- 
2.43.0


From 941ae7acde9fa63e076c05fb5033b8bec5a96bac Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:40:36 +0000
Subject: [PATCH 69/78] fix: remove all callbacks of a CurIOus instance

---
 src/services/io/CurIOus/src/callbacks.c     | 4 +++-
 src/services/io/CurIOus/src/dynamic_array.c | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/services/io/CurIOus/src/callbacks.c b/src/services/io/CurIOus/src/callbacks.c
index 12ec235..adfd149 100644
--- a/src/services/io/CurIOus/src/callbacks.c
+++ b/src/services/io/CurIOus/src/callbacks.c
@@ -62,7 +62,9 @@ void curious_deregister_callbacks(curious_t curious_inst)
                 // all of the call backs...
             } else if (block_size) {
                 remove_from_curious_dynamic_array(callbacks, j - block_size, block_size, NULL);
-                // ...and then start looking for a new block
+                // ...and then start looking for a new block; the
+                // remaining elements have moved forward
+                j -= block_size;
                 block_size = 0;
             }
         }
diff --git a/src/services/io/CurIOus/src/dynamic_array.c b/src/services/io/CurIOus/src/dynamic_array.c
index 23b0860..d85531c 100644
--- a/src/services/io/CurIOus/src/dynamic_array.c
+++ b/src/services/io/CurIOus/src/dynamic_array.c
@@ -54,7 +54,7 @@ int remove_from_curious_dynamic_array(curious_dynamic_array_t* self, int index,
     //TODO: make these actual errors
     if (index < 0 || index > self->last_el) {
         return -1;
-    } else if (num_els < 0 || num_els > self->last_el - index) {
+    } else if (num_els < 0 || num_els > self->last_el + 1 - index) {
         return -2;
     } else if (0 == num_els) {
         //not an error, we just don't need to remove anything
@@ -69,7 +69,7 @@ int remove_from_curious_dynamic_array(curious_dynamic_array_t* self, int index,
         }
     }
 
-    int tail_count = self->last_el - num_els - index;
+    int tail_count = self->last_el + 1 - num_els - index;
 
     // Move the remaining entries at the end of the array (if any)
     // forward to fill the vacated space
-- 
2.43.0


From a909366aac623b1256d837a1aaf6a7bf5320ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:40:36 +0000
Subject: [PATCH 70/78] fix: enable the I/O wrappers again for a new CurIOus
 instance

---
 src/services/io/CurIOus/src/curious.c  | 3 +++
 src/services/io/CurIOus/src/wrappers.c | 3 +++
 src/services/io/CurIOus/src/wrappers.h | 1 +
 3 files changed, 7 insertions(+)

diff --git a/src/services/io/CurIOus/src/curious.c b/src/services/io/CurIOus/src/curious.c
index e59080f..31b364c 100644
--- a/src/services/io/CurIOus/src/curious.c
+++ b/src/services/io/CurIOus/src/curious.c
@@ -28,6 +28,9 @@ int curious_init(curious_apis_t apis)
         wrapped_apis |= missing_apis;
     }
 
+    // The wrappers may have been disabled by a previous curious_finalize()
+    curious_enable_wrappers();
+
     return ++next_inst;
 }
 
diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index a3da5e9..851ada6 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -186,7 +186,10 @@ void curious_apply_wrappers(curious_apis_t apis)
     if (apis & CURIOUS_CSTDIO) {
         gotcha_wrap(&bindings[CURIOUS_CSTDIO_START], CURIOUS_FUNCTION_COUNT - CURIOUS_CSTDIO_START, "curious");
     }
+}
 
+void curious_enable_wrappers(void)
+{
     wrappers_enabled = 1;
 }
 
diff --git a/src/services/io/CurIOus/src/wrappers.h b/src/services/io/CurIOus/src/wrappers.h
index b568893..5c3ad27 100644
--- a/src/services/io/CurIOus/src/wrappers.h
+++ b/src/services/io/CurIOus/src/wrappers.h
@@ -23,6 +23,7 @@ typedef struct io_function_data {
 } io_function_data_t;
 
 void curious_apply_wrappers(curious_apis_t apis);
+void curious_enable_wrappers(void);
 void curious_disable_wrappers(void);
 
 // See io_arhs.h under include/curious for structs to serve as io_args
-- 
2.43.0


From ab1e473c456bad91296c2dab6868771057a6614b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:40:57 +0000
Subject: [PATCH 71/78] fix: find the mount point with the longest matching
 path

---
 src/services/io/CurIOus/src/file_registry.c |   1 -
 src/services/io/CurIOus/src/mount_tree.c    | 194 +++++++-------------
 src/services/io/CurIOus/src/mount_tree.h    |   1 -
 3 files changed, 69 insertions(+), 127 deletions(-)

diff --git a/src/services/io/CurIOus/src/file_registry.c b/src/services/io/CurIOus/src/file_registry.c
index 89ac5ff..e00d001 100644
--- a/src/services/io/CurIOus/src/file_registry.c
+++ b/src/services/io/CurIOus/src/file_registry.c
@@ -23,7 +23,6 @@ void curious_init_file_registry()
 void curious_finalize_file_registry()
 {
     destroy_curious_dynamic_array(&file_registry, (free_f) destroy_curious_file_record);
-    curious_finalize_mount_tree();
 }
 
 void destroy_curious_file_record(curious_file_record_t* record)
diff --git a/src/services/io/CurIOus/src/mount_tree.c b/src/services/io/CurIOus/src/mount_tree.c
index 7c1d33f..5b42210 100644
--- a/src/services/io/CurIOus/src/mount_tree.c
+++ b/src/services/io/CurIOus/src/mount_tree.c
@@ -1,189 +1,133 @@
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
-#include <errno.h>
 
 #include "mount_tree.h"
 
 #include "dynamic_array.h"
 
-#define ROOT_PATH "/"
+#define DIR_SEP '/'
 
 /*********
  * Types *
  *********/
 
-typedef struct mount_tree {
-    char*                   name;
-    char*                   full_path;
-    char*                   filesystem;
-    curious_dynamic_array_t children;
-} mount_tree_t;
+typedef struct mount_entry {
+    char*  full_path;
+    size_t len;
+    char*  filesystem;
+} mount_entry_t;
+
+// The mount table is only read once and never changes after that:
+// file records and callers refer to its strings
+static curious_dynamic_array_t mounts;
+static int                     have_mounts = 0;
 
 /**********************
  * Internal Functions *
  **********************/
-static void          create_mount_tree(mount_tree_t* self, char* name, char* full_path, char* filesystem);
-static void          destroy_mount_tree(mount_tree_t* self);
-static mount_tree_t* get_mount(char* full_path, char** name);
-static void          add_mount(char* full_path, char* filesystem);
-static int           compare_mount_tree_by_name(char* name, mount_tree_t* tree);
-
-static mount_tree_t root;
+static const mount_entry_t* get_mount(const char* full_path);
+static void                 add_mount(const char* full_path, const char* filesystem);
 
 void curious_init_mount_tree(void)
 {
-    create_mount_tree(&root, ROOT_PATH, ROOT_PATH, "");
+    if (have_mounts) {
+        return;
+    }
 
     FILE* mount_file = fopen("/proc/mounts", "r");
 
-    ssize_t bytes_read;
-    char*   line = NULL;
-    size_t  size = 0;
+    if (NULL == mount_file) {
+        return;
+    }
+
+    create_curious_dynamic_array(&mounts, 16, sizeof(mount_entry_t));
+
+    char*  line = NULL;
+    size_t size = 0;
 #define VAL_SEP " "
     // Read every line in the list of mounts
-    while (0 < (bytes_read = getline(&line, &size, mount_file))) {
+    while (0 < getline(&line, &size, mount_file)) {
+        char* pos = NULL;
+
         // Each line of /proc/mounts is a list of space-seperated values
         // We don't care about the first value, so just skip it
-        strtok(line, VAL_SEP);
+        strtok_r(line, VAL_SEP, &pos);
 
         // The second element is the full path to the mount
-        char* full_path = strtok(NULL, VAL_SEP);
+        char* full_path = strtok_r(NULL, VAL_SEP, &pos);
 
         // The third element is the type of filesystem the mount uses
-        char* filesystem = strtok(NULL, VAL_SEP);
+        char* filesystem = strtok_r(NULL, VAL_SEP, &pos);
 
-        add_mount(full_path, filesystem);
+        if (NULL != full_path && NULL != filesystem) {
+            add_mount(full_path, filesystem);
+        }
     }
 
     free(line);
     fclose(mount_file);
-}
-
-void curious_finalize_mount_tree(void)
-{
-    destroy_mount_tree(&root);
-}
-
-void create_mount_tree(mount_tree_t* self, char* name, char* full_path, char* filesystem)
-{
-    //printf("registering %s mount at %s\n", filesystem, full_path);
 
-    self->name       = strdup(name);
-    self->full_path  = strdup(full_path);
-    self->filesystem = strdup(filesystem);
-    create_curious_dynamic_array(&self->children, 0, sizeof(mount_tree_t));
+    have_mounts = 1;
 }
 
-void destroy_mount_tree(mount_tree_t* self)
+// Find the deepest mount which contains the given path
+const mount_entry_t* get_mount(const char* full_path)
 {
-    free(self->name);
-    free(self->full_path);
-    free(self->filesystem);
-    destroy_curious_dynamic_array(&self->children, (free_f) destroy_mount_tree);
-}
+    const mount_entry_t* ret = NULL;
 
-mount_tree_t* get_mount(char* full_path, char** name)
-{
-    if (0 == strcmp(full_path, ROOT_PATH)) {
-        return &root;
-    }
+    for (int i = 0; have_mounts && i <= mounts.last_el; ++i) {
+        const mount_entry_t* mount = (const mount_entry_t*) get_from_curious_dynamic_array(&mounts, i);
 
-    mount_tree_t* cur_mount = &root;
-    mount_tree_t* next_mount;
-#define DIR_SEP "/"
-    // Look at every path elemet (i.e. each level of directories) in the full path...
-    for (char* path_el = strtok(full_path, DIR_SEP); NULL != path_el; path_el = strtok(NULL, DIR_SEP)) {
-        // The name should always be the last path element we've looked at
-        if (NULL != name) {
-            *name = path_el;
+        if (0 != strncmp(full_path, mount->full_path, mount->len)) {
+            continue;
         }
-
-        // ...see if there's a mount one level down which matches the current path element
-        next_mount =
-            find_in_curious_dynamic_array(&cur_mount->children, path_el, (compare_f) compare_mount_tree_by_name);
-        // ...if we couldn't find a match, we've found the deepest relevant node,
-        // meaning that we're done
-        if (NULL == next_mount) {
-            return cur_mount;
-
-            // ...otherwise, we want to look at the childreen of the matching mount
-        } else {
-            cur_mount = next_mount;
+        // The mount point must match complete path elements
+        char next = full_path[mount->len];
+        if ('\0' != next && DIR_SEP != next && DIR_SEP != mount->full_path[mount->len - 1]) {
+            continue;
+        }
+        // A later mount at the same place hides an earlier one
+        if (NULL == ret || mount->len >= ret->len) {
+            ret = mount;
         }
     }
 
-    return &root;
+    return ret;
 }
 
-void add_mount(char* full_path, char* filesystem)
+void add_mount(const char* full_path, const char* filesystem)
 {
-    // If the path in question is to the root, no need to go looking;
-    // we should just set its filesystem now
-    if (0 == strcmp(full_path, ROOT_PATH)) {
-        // make sure we don't overwrite that first setup
-        // (the actual root entry is proper the first)
-        if (0 != strcmp(root.filesystem, "")) {
-            free(root.filesystem);
-            root.filesystem = strdup(filesystem);
-        }
+    mount_entry_t mount;
 
-        return;
-    }
+    mount.full_path  = strdup(full_path);
+    mount.len        = strlen(full_path);
+    mount.filesystem = strdup(filesystem);
 
-    char*         name         = NULL;
-    char*         path_copy    = strdup(full_path);
-    mount_tree_t* parent_mount = get_mount(path_copy, &name);
-
-    if (NULL == parent_mount) {
-        printf("No relevant mount found for %s\n", full_path);
-    } else if (0 != strcmp(name, parent_mount->name)) {
-        // Make a new child mount of the parent we found
-        mount_tree_t mount;
-        create_mount_tree(&mount, name, full_path, filesystem);
-        append_to_curious_dynamic_array(&parent_mount->children, &mount);
+    if (NULL != mount.full_path && NULL != mount.filesystem && mount.len > 0) {
+        append_to_curious_dynamic_array(&mounts, &mount);
     }
-
-    // wait until after the mount tree nodehas been created to free this copy,
-    // since name is part of that buffer
-    free(path_copy);
 }
 
 void curious_get_filesystem(const char* path, char** filesystem, char** mount_point)
 {
-    // get_mount uses strtok, which mangeles its input string,
-    // so we only want to pass in a copy
-    char* path_copy;
+    const mount_entry_t* mount = NULL;
 
-    // if the path starts from the root, it's absolute already, so just copy it
-    if ('/' == path[0]) {
-        path_copy = strdup(path);
+    // if the path starts from the root, it's absolute already
+    if (NULL != path && DIR_SEP == path[0]) {
+        mount = get_mount(path);
 
-        // otherwise, we need to atually find the absolute path
-        // and if we encounter an error, just set
-    } else {
-        path_copy = realpath(path, NULL);
+        // otherwise, we need to actually find the absolute path
+    } else if (NULL != path) {
+        char* full_path = realpath(path, NULL);
 
         // if we can't resolve the absolute path, we can't find the proper mount
-        if (NULL == path_copy) {
-            *filesystem  = NULL;
-            *mount_point = NULL;
-            return;
+        if (NULL != full_path) {
+            mount = get_mount(full_path);
+            free(full_path);
         }
     }
 
-    // Just find the deepest mount in the given path
-    // and return which filesystem it uses
-    mount_tree_t* mount = get_mount(path_copy, NULL);
-
-    // strdup and realpath both allocate a string, so we need to free it
-    free(path_copy);
-
-    *filesystem  = mount->filesystem;
-    *mount_point = mount->full_path;
-}
-
-int compare_mount_tree_by_name(char* name, mount_tree_t* tree)
-{
-    return strcmp(name, tree->name);
+    *filesystem  = mount ? mount->filesystem : NULL;
+    *mount_point = mount ? mount->full_path : NULL;
 }
diff --git a/src/services/io/CurIOus/src/mount_tree.h b/src/services/io/CurIOus/src/mount_tree.h
index 1e68ed2..efdc3b5 100644
--- a/src/services/io/CurIOus/src/mount_tree.h
+++ b/src/services/io/CurIOus/src/mount_tree.h
@@ -2,7 +2,6 @@
 #define MOUNT_TREE
 
 void curious_init_mount_tree(void);
-void curious_finalize_mount_tree(void);
 void curious_get_filesystem(const char* full_path, char** filesystem, char** mount_point);
 
 #endif
-- 
2.43.0


From 89a5752dcd59008b27ded4384c2cb2a5526553cd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:42:12 +0000
Subject: [PATCH 72/78] fix: protect the I/O file and callback registries
 against concurrent use

---
 src/services/io/CurIOus/src/callbacks.c     |  53 +++++++-
 src/services/io/CurIOus/src/curious.c       |  19 ++-
 src/services/io/CurIOus/src/dynamic_array.c |   4 +
 src/services/io/CurIOus/src/file_registry.c | 129 +++++++++++++-------
 src/services/io/CurIOus/src/wrappers.c      |  10 ++
 src/services/io/CurIOus/src/wrappers.h      |   5 +
 6 files changed, 170 insertions(+), 50 deletions(-)

diff --git a/src/services/io/CurIOus/src/callbacks.c b/src/services/io/CurIOus/src/callbacks.c
index adfd149..47c96de 100644
--- a/src/services/io/CurIOus/src/callbacks.c
+++ b/src/services/io/CurIOus/src/callbacks.c
@@ -1,4 +1,7 @@
+#include <errno.h>
+#include <pthread.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "wrappers.h"
 #include "callbacks.h"
@@ -6,18 +9,24 @@
 
 static curious_dynamic_array_t callback_registry[CURIOUS_CALLBACK_TYPE_COUNT];
 
+static pthread_mutex_t registry_mutex = PTHREAD_MUTEX_INITIALIZER;
+
 void curious_init_callback_registry(void)
 {
+    pthread_mutex_lock(&registry_mutex);
     for (int i = 0; i < CURIOUS_CALLBACK_TYPE_COUNT; ++i) {
         create_curious_dynamic_array(callback_registry + i, 0, sizeof(curious_callback_data_t));
     }
+    pthread_mutex_unlock(&registry_mutex);
 }
 
 void curious_finalize_callback_registry(void)
 {
+    pthread_mutex_lock(&registry_mutex);
     for (int i = 0; i < CURIOUS_CALLBACK_TYPE_COUNT; ++i) {
         destroy_curious_dynamic_array(callback_registry + i, NULL);
     }
+    pthread_mutex_unlock(&registry_mutex);
 }
 
 int curious_register_callback(
@@ -37,7 +46,11 @@ int curious_register_callback(
         data.curious_inst = curious_inst;
 
         //add record to the part of the registry corresponding to its type
+        curious_block_wrappers();
+        pthread_mutex_lock(&registry_mutex);
         append_to_curious_dynamic_array(callback_registry + type, (void*) &data);
+        pthread_mutex_unlock(&registry_mutex);
+        curious_unblock_wrappers();
 
         return 0;
     } else {
@@ -47,6 +60,8 @@ int curious_register_callback(
 
 void curious_deregister_callbacks(curious_t curious_inst)
 {
+    pthread_mutex_lock(&registry_mutex);
+
     for (int i = 0; i < CURIOUS_CALLBACK_TYPE_COUNT; ++i) {
         curious_dynamic_array_t* callbacks  = callback_registry + i;
         int                      block_size = 0;
@@ -74,19 +89,45 @@ void curious_deregister_callbacks(curious_t curious_inst)
             remove_from_curious_dynamic_array(callbacks, callbacks->last_el + 1 - block_size, block_size, NULL);
         }
     }
+
+    pthread_mutex_unlock(&registry_mutex);
 }
 
 void curious_call_callbacks(curious_callback_type_t type, void* io_args)
 {
-    //lookup the list of registred functions of the specified type...
-    curious_dynamic_array_t callbacks = callback_registry[type];
+#define LOCAL_CALLBACKS 16
+    curious_callback_data_t  local[LOCAL_CALLBACKS];
+    curious_callback_data_t* data = local;
 
-    //...and run every one
-    for (int i = 0; i <= callbacks.last_el; ++i) {
-        curious_callback_data_t* data = (curious_callback_data_t*) (get_from_curious_dynamic_array(&callbacks, i));
+    // the program must see the errno of its I/O function
+    int saved_errno = errno;
+
+    // Other threads may add and remove callbacks, so copy
+    // the list of registred functions of the specified type...
+    pthread_mutex_lock(&registry_mutex);
+    int count = callback_registry[type].last_el + 1;
+    if (count > LOCAL_CALLBACKS) {
+        data = malloc(count * sizeof(curious_callback_data_t));
+        if (NULL == data) {
+            data  = local;
+            count = LOCAL_CALLBACKS;
+        }
+    }
+    if (count > 0) {
+        memcpy(data, callback_registry[type].array, count * sizeof(curious_callback_data_t));
+    }
+    pthread_mutex_unlock(&registry_mutex);
 
+    //...and run every one
+    for (int i = 0; i < count; ++i) {
         //usr_data was registered with the function earlier,
         //io_args was just passed to the IO function in the main code
-        data->callback(type, data->usr_args, io_args);
+        data[i].callback(type, data[i].usr_args, io_args);
     }
+
+    if (data != local) {
+        free(data);
+    }
+
+    errno = saved_errno;
 }
diff --git a/src/services/io/CurIOus/src/curious.c b/src/services/io/CurIOus/src/curious.c
index 31b364c..4d2f69c 100644
--- a/src/services/io/CurIOus/src/curious.c
+++ b/src/services/io/CurIOus/src/curious.c
@@ -1,5 +1,6 @@
 #include <curious/curious.h>
 #include <stdio.h>
+#include <pthread.h>
 
 #include "callbacks.h"
 #include "wrappers.h"
@@ -10,8 +11,13 @@ static curious_t      next_inst    = 0;
 static int            active_insts = 0;
 static curious_apis_t wrapped_apis = 0;
 
+static pthread_mutex_t init_mutex = PTHREAD_MUTEX_INITIALIZER;
+
 int curious_init(curious_apis_t apis)
 {
+    curious_block_wrappers();
+    pthread_mutex_lock(&init_mutex);
+
     if (0 == active_insts) {
         //First-time setup
         curious_init_file_registry();
@@ -31,11 +37,19 @@ int curious_init(curious_apis_t apis)
     // The wrappers may have been disabled by a previous curious_finalize()
     curious_enable_wrappers();
 
-    return ++next_inst;
+    curious_t inst = ++next_inst;
+
+    pthread_mutex_unlock(&init_mutex);
+    curious_unblock_wrappers();
+
+    return inst;
 }
 
 void curious_finalize(curious_t curious_inst)
 {
+    curious_block_wrappers();
+    pthread_mutex_lock(&init_mutex);
+
     //Turn everything off if we don't have any active instances...
     if (0 == --active_insts) {
         curious_finalize_callback_registry();
@@ -46,4 +60,7 @@ void curious_finalize(curious_t curious_inst)
     } else {
         curious_deregister_callbacks(curious_inst);
     }
+
+    pthread_mutex_unlock(&init_mutex);
+    curious_unblock_wrappers();
 }
diff --git a/src/services/io/CurIOus/src/dynamic_array.c b/src/services/io/CurIOus/src/dynamic_array.c
index d85531c..74ef5e7 100644
--- a/src/services/io/CurIOus/src/dynamic_array.c
+++ b/src/services/io/CurIOus/src/dynamic_array.c
@@ -26,6 +26,10 @@ void destroy_curious_dynamic_array(curious_dynamic_array_t* self, free_f destroy
 
     //...and only afterwards free the array itself
     free(self->array);
+
+    self->array   = NULL;
+    self->len     = 0;
+    self->last_el = -1;
 }
 
 void append_to_curious_dynamic_array(curious_dynamic_array_t* self, void* new_el)
diff --git a/src/services/io/CurIOus/src/file_registry.c b/src/services/io/CurIOus/src/file_registry.c
index e00d001..4897287 100644
--- a/src/services/io/CurIOus/src/file_registry.c
+++ b/src/services/io/CurIOus/src/file_registry.c
@@ -1,7 +1,9 @@
 #include <unistd.h>
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
+#include <pthread.h>
 
 #include "file_registry.h"
 #include "dynamic_array.h"
@@ -9,10 +11,19 @@
 
 static curious_dynamic_array_t file_registry;
 
+static pthread_mutex_t registry_mutex = PTHREAD_MUTEX_INITIALIZER;
+
+// We make the assumption that the mount will be in the first 256 bytes,
+// since that's longer than any line in /proc/mounts
+#define BUF_SIZE 256
+
 void curious_init_file_registry()
 {
     curious_init_mount_tree();
+
+    pthread_mutex_lock(&registry_mutex);
     create_curious_dynamic_array(&file_registry, 3, sizeof(curious_file_record_t));
+    pthread_mutex_unlock(&registry_mutex);
 
     //lookup the actual filenames of the standard I/O files
     curious_register_file_by_fd(STDIN_FILENO);
@@ -22,7 +33,9 @@ void curious_init_file_registry()
 
 void curious_finalize_file_registry()
 {
+    pthread_mutex_lock(&registry_mutex);
     destroy_curious_dynamic_array(&file_registry, (free_f) destroy_curious_file_record);
+    pthread_mutex_unlock(&registry_mutex);
 }
 
 void destroy_curious_file_record(curious_file_record_t* record)
@@ -48,9 +61,6 @@ int curious_register_file_by_fd(int fd)
     char   fd_path[] = "/proc/self/fd/\0      ";
     size_t len       = strlen(fd_path);
 
-// We make the assumption that the mount will be in the first 256 bytes,
-// since that's longer than any line in /proc/mounts
-#define BUF_SIZE 256
     char buf[BUF_SIZE];
 
     // append fd to fd_path
@@ -58,44 +68,50 @@ int curious_register_file_by_fd(int fd)
     if (trunc_ret < 0 || trunc_ret >= DIGITS)
         fprintf(stderr, "Warning! err code: %i. fd (%i) may be truncated in fd_path (%s)\n", trunc_ret, fd, fd_path);
 
+    // the I/O wrappers must not change the program's errno
+    int saved_errno = errno;
+
     // see where the link stored at fd_path goes
-    size_t bytes_written = readlink(fd_path, buf, BUF_SIZE);
+    ssize_t bytes_written = readlink(fd_path, buf, BUF_SIZE - 1);
 
-    // readlink doesn't add a null terminator, so we should
-    if (bytes_written < BUF_SIZE - 1) {
-        buf[bytes_written] = '\0';
-    } else {
-        buf[BUF_SIZE - 1] = '\0';
+    if (bytes_written < 0) {
+        errno = saved_errno;
+        return -1;
     }
 
+    // readlink doesn't add a null terminator, so we should
+    buf[bytes_written] = '\0';
+
     // now register the file using that path
     char* filesystem;
     char* mount_point;
     curious_get_filesystem(buf, &filesystem, &mount_point);
-    return curious_register_file(buf, fd, filesystem, mount_point);
+    int ret = curious_register_file(buf, fd, filesystem, mount_point);
+    errno   = saved_errno;
+    return ret;
 }
 
 int curious_register_file(const char* path, int fd, char* filesystem, char* mount_point)
 {
-    curious_file_record_t* cur_record = (curious_file_record_t*) get_from_curious_dynamic_array(&file_registry, fd);
-
     //printf("Registering %s on %s filesystem as fd %d\n", path, filesystem, fd);
 
+    curious_file_record_t new_record;
+
+    new_record.path        = strdup(path);
+    new_record.filesystem  = filesystem;
+    new_record.mount_point = mount_point;
+    // If the file is a pipe, then identify the pipe as the 'mount point'
+    if (NULL == mount_point && 0 == strncmp(path, "pipe:", 5)) {
+        new_record.mount_point = new_record.path;
+    }
+
+    pthread_mutex_lock(&registry_mutex);
+
+    curious_file_record_t* cur_record = (curious_file_record_t*) get_from_curious_dynamic_array(&file_registry, fd);
+
     // If the fd hasn't been used before...
     if (NULL == cur_record) {
-        // We need to set up a new record
-        curious_file_record_t new_record;
-
-        // ...and intialise its fields
-        new_record.path        = strdup(path);
-        new_record.filesystem  = filesystem;
-        new_record.mount_point = mount_point;
-        // If the file is a pipe, then identify the pipe as the 'mount point'
-        if (NULL == mount_point && 0 == strncmp(path, "pipe:", 5)) {
-            new_record.mount_point = new_record.path;
-        }
-
-        //Ditto for a blank record to fill any extra space created
+        // We need a blank record to fill any extra space created
         //by adding this file record
         curious_file_record_t blank_record;
         blank_record.path        = NULL;
@@ -106,37 +122,64 @@ int curious_register_file(const char* path, int fd, char* filesystem, char* moun
 
         // ...otherwise...
     } else {
-        // ...all we need to do is intialise the feilds,
-        // since we already have space for a record where we need it
-        cur_record->path        = strdup(path);
-        cur_record->filesystem  = filesystem;
-        cur_record->mount_point = mount_point;
-        // If the file is a pipe, then identify the pipe as the 'mount point'
-        if (NULL == mount_point && 0 == strncmp(path, "pipe:", 5)) {
-            cur_record->mount_point = cur_record->path;
-        }
+        // ...all we need to do is replace the record,
+        // since we already have space for it where we need it
+        destroy_curious_file_record(cur_record);
+        *cur_record = new_record;
     }
 
+    pthread_mutex_unlock(&registry_mutex);
+
     return 0;
 }
 
 int curious_deregister_file(int fd)
 {
+    int ret = -1;
+
+    pthread_mutex_lock(&registry_mutex);
+
     curious_file_record_t* cur_record = (curious_file_record_t*) get_from_curious_dynamic_array(&file_registry, fd);
 
-    if (cur_record == NULL)
-        return -1;
-    //printf("deregistering file %s on %s filesystem as %d\n", cur_record->path, cur_record->filesystem, fd);
+    if (NULL != cur_record) {
+        destroy_curious_file_record(cur_record);
+        ret = 0;
+    }
 
-    free(cur_record->path);
-    cur_record->path       = NULL;
-    cur_record->filesystem = NULL;
+    pthread_mutex_unlock(&registry_mutex);
 
-    return 0;
+    return ret;
 }
 
-// This is mostly here so we can confile dirct access to the file registry to this file
+// Other threads may replace or remove the record at any time, so this returns a copy.
+// It remains valid until the next call on the same thread.
 curious_file_record_t* get_curious_file_record(int fd)
 {
-    return (curious_file_record_t*) get_from_curious_dynamic_array(&file_registry, fd);
+    static __thread curious_file_record_t record;
+    static __thread char                  path[BUF_SIZE];
+
+    curious_file_record_t* ret = NULL;
+
+    pthread_mutex_lock(&registry_mutex);
+
+    curious_file_record_t* cur_record = (curious_file_record_t*) get_from_curious_dynamic_array(&file_registry, fd);
+
+    if (NULL != cur_record) {
+        record = *cur_record;
+
+        if (NULL != cur_record->path) {
+            strncpy(path, cur_record->path, BUF_SIZE - 1);
+            record.path = path;
+
+            if (cur_record->mount_point == cur_record->path) {
+                record.mount_point = path;
+            }
+        }
+
+        ret = &record;
+    }
+
+    pthread_mutex_unlock(&registry_mutex);
+
+    return ret;
 }
diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index 851ada6..fb93197 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -206,6 +206,16 @@ static _Thread_local volatile sig_atomic_t wrapper_call_depth;
 static __thread volatile sig_atomic_t wrapper_call_depth;
 #endif
 
+void curious_block_wrappers(void)
+{
+    wrapper_call_depth++;
+}
+
+void curious_unblock_wrappers(void)
+{
+    wrapper_call_depth--;
+}
+
 #define WRAPPER_ENTER(wrapper) \
     wrapper_call_depth++;      \
     /* printf("entering %s wrapper\n", #wrapper); */
diff --git a/src/services/io/CurIOus/src/wrappers.h b/src/services/io/CurIOus/src/wrappers.h
index 5c3ad27..c7abe0c 100644
--- a/src/services/io/CurIOus/src/wrappers.h
+++ b/src/services/io/CurIOus/src/wrappers.h
@@ -26,6 +26,11 @@ void curious_apply_wrappers(curious_apis_t apis);
 void curious_enable_wrappers(void);
 void curious_disable_wrappers(void);
 
+// Keep I/O functions which are called on this thread (also by signal handlers)
+// from invoking callbacks
+void curious_block_wrappers(void);
+void curious_unblock_wrappers(void);
+
 // See io_arhs.h under include/curious for structs to serve as io_args
 // to callbacks for corresponding functions
 
-- 
2.43.0


From 389073db1644d140b478de692efc02d9e71e6221 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:42:12 +0000
Subject: [PATCH 73/78] fix: call the post callbacks of open() if and only if
 the pre callbacks ran

---
 src/services/io/CurIOus/src/wrappers.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index fb93197..798691d 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -329,7 +329,10 @@ int wrapped_open(const char* pathname, int flags, mode_t mode)
         .function_id = CURIOUS_OPEN_ID,
     };
 
-    if (1 == wrapper_call_depth && wrappers_enabled) {
+    // The wrappers can be enabled or disabled during the call
+    const int enabled = (1 == wrapper_call_depth && wrappers_enabled);
+
+    if (enabled) {
         // NOTE: calling realpath on pathname before passing it to curious_get_filesystem
         //       might be necessary in order to handle relative paths_
 
@@ -344,7 +347,7 @@ int wrapped_open(const char* pathname, int flags, mode_t mode)
     int fd = orig_open(pathname, flags, mode);
 
     // Only call callbacks the first time around
-    if (1 == wrapper_call_depth && wrappers_enabled) {
+    if (enabled) {
         curious_register_file_by_fd(fd);
         curious_call_callbacks(CURIOUS_METADATA_CALLBACK | CURIOUS_POST_CALLBACK, &io_args);
     }
-- 
2.43.0


From 0108e312208a46c9c68b00d4aba207996f72d2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:42:12 +0000
Subject: [PATCH 74/78] fix: forget a file when its descriptor is closed

---
 src/services/io/CurIOus/src/wrappers.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index 798691d..3c80e62 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -381,6 +381,10 @@ int wrapped_close(int fd)
             .mount_point = mount_point,
             .function_id = CURIOUS_CLOSE_ID,
         };
+
+        // The descriptor may be reused as soon as it is closed
+        curious_deregister_file(fd);
+
         curious_call_callbacks(CURIOUS_METADATA_CALLBACK, &io_args);
 
         // Call the original, saving the result...
-- 
2.43.0


From 9d353727c0bc211dc3d670a8f04245b7ffe30fad Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:42:12 +0000
Subject: [PATCH 75/78] fix: handle freopen() without a path in the io service

---
 src/services/io/CurIOus/src/wrappers.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index 3c80e62..faec087 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -820,7 +820,16 @@ FILE* wrapped_freopen(const char* path, const char* mode, FILE* stream)
             .function_id = CURIOUS_FREOPEN_ID,
         };
 
-        curious_get_filesystem(path, &io_args.filesystem, &io_args.mount_point);
+        // without a path, only the mode of the stream changes
+        if (NULL == path) {
+            curious_file_record_t* record = get_curious_file_record(fileno(stream));
+            if (NULL != record) {
+                io_args.filesystem  = record->filesystem;
+                io_args.mount_point = record->mount_point;
+            }
+        } else {
+            curious_get_filesystem(path, &io_args.filesystem, &io_args.mount_point);
+        }
         curious_call_callbacks(CURIOUS_METADATA_CALLBACK, &io_args);
 
         // Call the original, saving the result...
-- 
2.43.0


From dd573c867635cf8ecd36fa3e957eb3cc45c6b72b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:48:34 +0000
Subject: [PATCH 76/78] fix: begin and end one io region per I/O call

---
 src/services/io/IOService.cpp | 128 ++++++++++++++++++++++------------
 1 file changed, 83 insertions(+), 45 deletions(-)

diff --git a/src/services/io/IOService.cpp b/src/services/io/IOService.cpp
index f7805cf..242ed94 100644
--- a/src/services/io/IOService.cpp
+++ b/src/services/io/IOService.cpp
@@ -11,25 +11,47 @@
 #include "caliper/common/Log.h"
 
 #include <string.h>
+#include <atomic>
 #include <cstddef>
-#include <memory>
-#include <unordered_map>
+#include <map>
+#include <mutex>
 
 using namespace cali;
 
 namespace
 {
-struct user_data_t {
-    curious_t curious_ctx;
-    Channel   channel;
+//   There is a single CurIOus instance, whose callbacks remain registered: every I/O
+// call begins one region and ends it again, no matter how many channels there are
+// and if any of them starts, stops, or changes its state during the call.
+curious_t  curious_inst = 0;
+std::mutex curious_inst_lock;
 
-    user_data_t(curious_t ctx, Channel& chn) : curious_ctx(ctx), channel(chn) {}
-};
+//   The active io service channels
+std::map<cali_id_t, Channel> io_channels;
+std::mutex                   io_channels_lock;
+
+//   The current I/O call on this thread has begun a region
+thread_local bool region_is_open = false;
+
+std::atomic<int> num_io_callbacks;
+std::atomic<int> num_failed_io_callbacks;
+
+//   Returns the io channel that follows the one with the given id
+Channel next_io_channel(cali_id_t id)
+{
+    std::lock_guard<std::mutex> g(io_channels_lock);
 
-std::unordered_map<cali_id_t, std::unique_ptr<user_data_t>> curious_insts;
+    auto it = (id == CALI_INV_ID ? io_channels.begin() : io_channels.upper_bound(id));
+    return it == io_channels.end() ? Channel() : it->second;
+}
 
-int num_io_callbacks;
-int num_failed_io_callbacks;
+Channel next_active_io_channel(cali_id_t id)
+{
+    Channel channel = next_io_channel(id);
+    while (channel && !channel.is_active())
+        channel = next_io_channel(channel.id());
+    return channel;
+}
 
 Attribute io_region_attr;
 Attribute io_filesystem_attr;
@@ -49,30 +71,34 @@ Variant categories[] = {
     Variant(CALI_TYPE_STRING, "metadata", 9),
 };
 
+void push_data(Caliper& c, const Entry& data)
+{
+    for (Channel chn = next_active_io_channel(CALI_INV_ID); chn; chn = next_active_io_channel(chn.id()))
+        c.push_snapshot(chn.body(), SnapshotView(1, &data));
+}
+
 // We need to record different info for different I/O regions/records:
 
 // For read regions...
-void handle_unique_record_data(Caliper& c, Channel& channel, curious_read_record_t* record)
+void handle_unique_record_data(Caliper& c, curious_read_record_t* record)
 {
     if (record->bytes_read > 0) {
         // ...we care about how much data was read
-        Entry data(io_bytes_read_attr, cali_make_variant_from_uint(record->bytes_read));
-        c.push_snapshot(channel.body(), SnapshotView(1, &data));
+        push_data(c, Entry(io_bytes_read_attr, cali_make_variant_from_uint(record->bytes_read)));
     }
 }
 
 // For write regions...
-void handle_unique_record_data(Caliper& c, Channel& channel, curious_write_record_t* record)
+void handle_unique_record_data(Caliper& c, curious_write_record_t* record)
 {
     if (record->bytes_written > 0) {
         // ...we care about how much data was written
-        Entry data(io_bytes_written_attr, cali_make_variant_from_uint(record->bytes_written));
-        c.push_snapshot(channel.body(), SnapshotView(1, &data));
+        push_data(c, Entry(io_bytes_written_attr, cali_make_variant_from_uint(record->bytes_written)));
     }
 }
 
 // We don't need anything extra from metadata regions
-void handle_unique_record_data(Caliper& c, Channel& channel, curious_metadata_record_t* record)
+void handle_unique_record_data(Caliper& c, curious_metadata_record_t* record)
 {}
 
 // Just preforms some sanity checking before making a Variant from a C string
@@ -96,14 +122,17 @@ void handle_io(curious_callback_type_t type, void* usr_data, Record* record)
 
     // get a Caliper instance
 
-    Caliper c    = Caliper::sigsafe_instance();
-    auto    data = static_cast<user_data_t*>(usr_data);
+    Caliper c = Caliper::sigsafe_instance();
 
     // If we got a Caliper instance successfully...
-    if (c && data->channel.is_active()) {
+    if (c && (region_is_open || next_active_io_channel(CALI_INV_ID))) {
         // ...mark the end...
         if (type & CURIOUS_POST_CALLBACK) {
-            handle_unique_record_data(c, data->channel, record);
+            if (!region_is_open)
+                return;
+
+            region_is_open = false;
+            handle_unique_record_data(c, record);
 
             c.end(io_region_attr);
             c.end(io_filesystem_attr);
@@ -117,6 +146,8 @@ void handle_io(curious_callback_type_t type, void* usr_data, Record* record)
             c.begin(io_mount_point_attr, mount_point_var);
             c.begin(io_filesystem_attr, filesystem_var);
             c.begin(io_region_attr, categories[GET_CATEGORY(type)]);
+
+            region_is_open = true;
         }
 
         // ...otherwise not our failure (probably already inside Caliper)
@@ -129,55 +160,62 @@ void init_curious_in_channel(Caliper* c, Channel* channel)
 {
     channel->events().subscribe_attribute(c, io_region_attr);
 
-    curious_t curious_inst = curious_init(CURIOUS_ALL_APIS);
-    auto      data         = std::unique_ptr<user_data_t>(new user_data_t { curious_inst, *channel });
+    {
+        std::lock_guard<std::mutex> g(io_channels_lock);
+        io_channels[channel->id()] = *channel;
+    }
+
+    std::lock_guard<std::mutex> g(curious_inst_lock);
 
+    if (curious_inst)
+        return;
+
+    curious_inst = curious_init(CURIOUS_ALL_APIS);
+
+    // Register the post callbacks first so that no thread can miss one after a pre callback
     curious_register_callback(
         curious_inst,
-        CURIOUS_READ_CALLBACK,
+        CURIOUS_READ_CALLBACK | CURIOUS_POST_CALLBACK,
         (curious_callback_f) handle_io<curious_read_record_t>,
-        data.get()
+        nullptr
     );
     curious_register_callback(
         curious_inst,
-        CURIOUS_READ_CALLBACK | CURIOUS_POST_CALLBACK,
-        (curious_callback_f) handle_io<curious_read_record_t>,
-        data.get()
+        CURIOUS_WRITE_CALLBACK | CURIOUS_POST_CALLBACK,
+        (curious_callback_f) handle_io<curious_write_record_t>,
+        nullptr
     );
     curious_register_callback(
         curious_inst,
-        CURIOUS_WRITE_CALLBACK,
-        (curious_callback_f) handle_io<curious_write_record_t>,
-        data.get()
+        CURIOUS_METADATA_CALLBACK | CURIOUS_POST_CALLBACK,
+        (curious_callback_f) handle_io<curious_metadata_record_t>,
+        nullptr
     );
     curious_register_callback(
         curious_inst,
-        CURIOUS_WRITE_CALLBACK | CURIOUS_POST_CALLBACK,
-        (curious_callback_f) handle_io<curious_write_record_t>,
-        data.get()
+        CURIOUS_READ_CALLBACK,
+        (curious_callback_f) handle_io<curious_read_record_t>,
+        nullptr
     );
     curious_register_callback(
         curious_inst,
-        CURIOUS_METADATA_CALLBACK,
-        (curious_callback_f) handle_io<curious_metadata_record_t>,
-        data.get()
+        CURIOUS_WRITE_CALLBACK,
+        (curious_callback_f) handle_io<curious_write_record_t>,
+        nullptr
     );
     curious_register_callback(
         curious_inst,
-        CURIOUS_METADATA_CALLBACK | CURIOUS_POST_CALLBACK,
+        CURIOUS_METADATA_CALLBACK,
         (curious_callback_f) handle_io<curious_metadata_record_t>,
-        data.get()
+        nullptr
     );
-
-    curious_insts.insert(std::make_pair(channel->id(), std::move(data)));
 }
 
 void finalize_curious_in_channel(Caliper* c, Channel* channel)
 {
-    auto it = curious_insts.find(channel->id());
-    if (it != curious_insts.end()) {
-        curious_finalize(it->second->curious_ctx);
-        curious_insts.erase(it);
+    {
+        std::lock_guard<std::mutex> g(io_channels_lock);
+        io_channels.erase(channel->id());
     }
 
     if (Log::verbosity() >= 2)
-- 
2.43.0


From 9cbb9dcc3ec7bbf1b2bee571b90a45859fb653da Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 06:52:31 +0000
Subject: [PATCH 77/78] fix: register Kokkos callbacks once and let them
 outlive their channels

The kokkostime callbacks referred to a lambda and an instance that were gone
after the channel was deleted, every further kokkostime channel recorded each
Kokkos region once more, and a region begun before the first channel existed
was ended without a begin. The kokkoslookup callbacks used the deleted
instance, changed the callback list while other threads went through it, and
recorded allocations and copies in inactive channels.
---
 src/services/kokkos/KokkosLookup.cpp | 112 +++++++++++++++++++--------
 src/services/kokkos/KokkosTime.cpp   |  73 +++++++++--------
 2 files changed, 121 insertions(+), 64 deletions(-)

diff --git a/src/services/kokkos/KokkosLookup.cpp b/src/services/kokkos/KokkosLookup.cpp
index 4c358e2..b964220 100644
--- a/src/services/kokkos/KokkosLookup.cpp
+++ b/src/services/kokkos/KokkosLookup.cpp
@@ -42,11 +42,14 @@
 #include "caliper/common/Node.h"
 
 #include <algorithm>
+#include <atomic>
+#include <memory>
 #include <set>
 #include <iterator>
 #include <map>
 #include <cstring>
 #include <mutex>
+#include <vector>
 #include <cstdint>
 
 #include "types.hpp"
@@ -91,8 +94,8 @@ class KokkosLookup
 {
     static const ConfigSet::Entry s_configdata[];
 
-    unsigned m_num_spaces = 0;
-    unsigned m_num_copies = 0;
+    std::atomic<unsigned> m_num_spaces { 0 };
+    std::atomic<unsigned> m_num_copies { 0 };
 
     Attribute m_space_attr;
     Attribute m_size_attr;
@@ -308,6 +311,59 @@ class KokkosLookup
         );
     }
 
+    //   Kokkos callbacks can come at any time, also while channels are being created
+    // or deleted, so they are registered once and go through the list of instances.
+    typedef std::vector<std::shared_ptr<KokkosLookup>> InstanceList;
+
+    static std::mutex s_instances_lock;
+
+    //   Not deleted: channels may finish after static objects have been destroyed
+    static InstanceList& instances()
+    {
+        static InstanceList* list = new InstanceList;
+        return *list;
+    }
+
+    template <class Fn>
+    static void for_each_active(Fn fn)
+    {
+        InstanceList list;
+
+        {
+            std::lock_guard<std::mutex> g(s_instances_lock);
+            list = instances();
+        }
+
+        for (auto& p : list)
+            if (p->m_channel.is_active())
+                fn(*p);
+    }
+
+    static bool connect_callbacks()
+    {
+        kokkosp_callbacks.kokkosp_allocate_callback.connect(
+            [](const cali::kokkos::SpaceHandle handle, const char* name, const void* const ptr, const uint64_t size) {
+                for_each_active([&](KokkosLookup& k) { k.kokkos_allocate(handle, name, ptr, size); });
+            }
+        );
+        kokkosp_callbacks.kokkosp_deallocate_callback.connect(
+            [](const cali::kokkos::SpaceHandle, const char*, const void* const ptr, const uint64_t) {
+                for_each_active([&](KokkosLookup& k) { k.kokkos_deallocate(ptr); });
+            }
+        );
+        kokkosp_callbacks.kokkosp_begin_deep_copy_callback.connect([](const cali::kokkos::SpaceHandle,
+                                                                      const char*,
+                                                                      const void* dst_ptr,
+                                                                      const cali::kokkos::SpaceHandle,
+                                                                      const char*,
+                                                                      const void*    src_ptr,
+                                                                      const uint64_t size) {
+            for_each_active([&](KokkosLookup& k) { k.kokkos_deepcopy(dst_ptr, src_ptr, size); });
+        });
+
+        return true;
+    }
+
     KokkosLookup(Caliper* c, Channel* chn) : m_channel(*chn)
     {
         ConfigSet config = chn->config().init("kokkoslookup", s_configdata);
@@ -319,36 +375,16 @@ public:
 
     static void kokkoslookup_register(Caliper* c, Channel* chn)
     {
-        auto* instance = new KokkosLookup(c, chn);
-
-        kokkosp_callbacks.kokkosp_allocate_callback.connect([instance](
-                                                                const cali::kokkos::SpaceHandle handle,
-                                                                const char*                     name,
-                                                                const void* const               ptr,
-                                                                const uint64_t                  size
-                                                            ) {
-            instance->kokkos_allocate(handle, name, ptr, size);
-            // tracked_pointers.insert(NamedPointer{reinterpret_cast<std::uintptr_t>(ptr), std::string(name), size, handle});
-        });
+        std::shared_ptr<KokkosLookup> instance(new KokkosLookup(c, chn));
 
-        kokkosp_callbacks.kokkosp_deallocate_callback.connect(
-            [instance](const cali::kokkos::SpaceHandle, const char*, const void* const ptr, const uint64_t) {
-                instance->kokkos_deallocate(ptr);
-                // tracked_pointers.insert(NamedPointer{reinterpret_cast<std::uintptr_t>(ptr), std::string(name), size, handle});
-            }
-        );
+        static bool is_connected = connect_callbacks();
+        (void) is_connected;
+
+        {
+            std::lock_guard<std::mutex> g(s_instances_lock);
+            instances().push_back(instance);
+        }
 
-        kokkosp_callbacks.kokkosp_begin_deep_copy_callback.connect([instance](
-                                                                       const cali::kokkos::SpaceHandle,
-                                                                       const char*,
-                                                                       const void* dst_ptr,
-                                                                       const cali::kokkos::SpaceHandle,
-                                                                       const char*,
-                                                                       const void*    src_ptr,
-                                                                       const uint64_t size
-                                                                   ) {
-            instance->kokkos_deepcopy(dst_ptr, src_ptr, size);
-        });
 #if 0
         chn->events().pre_flush_evt.connect(
             [instance](Caliper* c, Channel* chn, SnapshotView info){
@@ -359,15 +395,27 @@ public:
                 instance->process_snapshot(c, rec);
             });
 #endif
-        chn->events().finish_evt.connect([instance](Caliper* c, Channel* chn) {
+        //   The instance refers to its channel: do not let the channel keep it
+        std::weak_ptr<KokkosLookup> ref(instance);
+        chn->events().finish_evt.connect([ref](Caliper* c, Channel* chn) {
+            std::shared_ptr<KokkosLookup> instance = ref.lock();
+
+            if (!instance)
+                return;
+
             instance->finish_log(c, chn);
-            delete instance;
+
+            std::lock_guard<std::mutex> g(s_instances_lock);
+            InstanceList& list = instances();
+            list.erase(std::remove(list.begin(), list.end(), instance), list.end());
         });
 
         Log(1).stream() << chn->name() << ": Registered kokkoslookup service" << std::endl;
     }
 };
 
+std::mutex KokkosLookup::s_instances_lock;
+
 const ConfigSet::Entry KokkosLookup::s_configdata[] = {
     {
         "attributes",
diff --git a/src/services/kokkos/KokkosTime.cpp b/src/services/kokkos/KokkosTime.cpp
index a381388..02ce568 100644
--- a/src/services/kokkos/KokkosTime.cpp
+++ b/src/services/kokkos/KokkosTime.cpp
@@ -50,65 +50,74 @@ using namespace cali;
 namespace
 {
 
+//   The regions are shared by all channels: there is one set of Kokkos callbacks,
+// however many channels enable the service. They may be invoked at any time
+// after a channel has gone.
 class KokkosTime
 {
     cali::Annotation kernel_name_annot;
     cali::Annotation kernel_type_annot;
 
-    KokkosTime(Caliper* c, Channel* chn)
-        : kernel_name_annot("region"), kernel_type_annot("kernel_type", CALI_ATTR_SKIP_EVENTS)
-    {}
+    //   Number of this thread's open regions. A region that was begun before the
+    // callbacks were registered has no begin event and must not be ended.
+    static thread_local unsigned s_num_open;
+
+    KokkosTime() : kernel_name_annot("region"), kernel_type_annot("kernel_type", CALI_ATTR_SKIP_EVENTS)
+    {
+        kokkosp_callbacks.kokkosp_begin_parallel_for_callback.connect([this](const char* name, const uint32_t, uint64_t*) {
+            pushRegion(name, "kokkos.parallel_for");
+        });
+        kokkosp_callbacks.kokkosp_begin_parallel_reduce_callback.connect(
+            [this](const char* name, const uint32_t, uint64_t*) { pushRegion(name, "kokkos.parallel_reduce"); }
+        );
+        kokkosp_callbacks.kokkosp_begin_parallel_scan_callback.connect(
+            [this](const char* name, const uint32_t, uint64_t*) { pushRegion(name, "kokkos.parallel_scan"); }
+        );
+        kokkosp_callbacks.kokkosp_begin_fence_callback.connect([this](const char* name, const uint32_t, uint64_t*) {
+            pushRegion(name, "kokkos.fence");
+        });
+        kokkosp_callbacks.kokkosp_end_parallel_for_callback.connect([this](const uint64_t) { popRegion(); });
+        kokkosp_callbacks.kokkosp_end_parallel_reduce_callback.connect([this](const uint64_t) { popRegion(); });
+        kokkosp_callbacks.kokkosp_end_parallel_scan_callback.connect([this](const uint64_t) { popRegion(); });
+        kokkosp_callbacks.kokkosp_end_fence_callback.connect([this](const uint64_t) { popRegion(); });
+        kokkosp_callbacks.kokkosp_push_region_callback.connect([this](const char* regionName) {
+            pushRegion(regionName, "kokkos.user_region");
+        });
+        kokkosp_callbacks.kokkosp_pop_region_callback.connect([this]() { popRegion(); });
+    }
 
 public:
 
     void pushRegion(const char* name, const char* type)
     {
+        ++s_num_open;
         kernel_type_annot.begin(type);
         kernel_name_annot.begin(name);
     }
 
     void popRegion()
     {
+        if (s_num_open == 0)
+            return;
+
+        --s_num_open;
         kernel_name_annot.end();
         kernel_type_annot.end();
     }
 
     static void kokkostime_register(Caliper* c, Channel* chn)
     {
-
-        auto* instance = new KokkosTime(c, chn);
-        chn->events().post_init_evt.connect([instance](Caliper* c, Channel* chn) {
-            kokkosp_callbacks.kokkosp_begin_parallel_for_callback.connect(
-                [&](const char* name, const uint32_t, uint64_t*) { instance->pushRegion(name, "kokkos.parallel_for"); }
-            );
-            kokkosp_callbacks.kokkosp_begin_parallel_reduce_callback.connect(
-                [&](const char* name, const uint32_t, uint64_t*) {
-                    instance->pushRegion(name, "kokkos.parallel_reduce");
-                }
-            );
-            kokkosp_callbacks.kokkosp_begin_parallel_scan_callback.connect(
-                [&](const char* name, const uint32_t, uint64_t*) { instance->pushRegion(name, "kokkos.parallel_scan"); }
-            );
-            kokkosp_callbacks.kokkosp_begin_fence_callback.connect([&](const char* name, const uint32_t, uint64_t*) {
-                instance->pushRegion(name, "kokkos.fence");
-            });
-            kokkosp_callbacks.kokkosp_end_parallel_for_callback.connect([&](const uint64_t) { instance->popRegion(); });
-            kokkosp_callbacks.kokkosp_end_parallel_reduce_callback.connect([&](const uint64_t) {
-                instance->popRegion();
-            });
-            kokkosp_callbacks.kokkosp_end_parallel_scan_callback.connect([&](const uint64_t) { instance->popRegion(); }
-            );
-            kokkosp_callbacks.kokkosp_end_fence_callback.connect([&](const uint64_t) { instance->popRegion(); });
-            kokkosp_callbacks.kokkosp_push_region_callback.connect([&](const char* regionName) {
-                instance->pushRegion(regionName, "kokkos.user_region");
-            });
-            kokkosp_callbacks.kokkosp_pop_region_callback.connect([&]() { instance->popRegion(); });
+        chn->events().post_init_evt.connect([](Caliper*, Channel*) {
+            static KokkosTime* instance = new KokkosTime;
+            (void) instance;
         });
-        chn->events().finish_evt.connect([instance](Caliper*, Channel*) { delete instance; });
 
         Log(1).stream() << chn->name() << ": Registered kokkostime service" << std::endl;
     }
 };
+
+thread_local unsigned KokkosTime::s_num_open { 0 };
+
 } // namespace
 
 namespace cali
-- 
2.43.0


From 6c7f07a9332a3aa32ccc37166cd2505172d63ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 06:52:31 +0000
Subject: [PATCH 78/78] fix: create the OMPT attributes before OpenMP events
 arrive

With CALI_USE_OMPT, OpenMP can start before a channel with the ompt service
exists: events were lost and, later, ended without a begin. Also count
channels and skipped callbacks atomically, and do not finalize a tool whose
initialization failed.
---
 src/services/ompt/OmptService.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/services/ompt/OmptService.cpp b/src/services/ompt/OmptService.cpp
index 49178a1..9449bcc 100644
--- a/src/services/ompt/OmptService.cpp
+++ b/src/services/ompt/OmptService.cpp
@@ -11,7 +11,9 @@
 
 #include <omp-tools.h>
 
+#include <atomic>
 #include <cstdlib>
+#include <mutex>
 
 using namespace cali;
 
@@ -33,8 +35,10 @@ struct OmptAPI {
         get_proc_id      = (ompt_get_proc_id_t) (*lookup)("ompt_get_proc_id");
         finalize_tool    = (ompt_finalize_tool_t) (*lookup)("ompt_finalize_tool");
 
-        if (!set_callback || !get_state || !enumerate_states || !get_proc_id || !finalize_tool)
+        if (!set_callback || !get_state || !enumerate_states || !get_proc_id || !finalize_tool) {
+            finalize_tool = nullptr; // we do not become an active tool
             return false;
+        }
 
         // enumerate states
 
@@ -63,7 +67,7 @@ Attribute proc_id_attr;
 Attribute thread_id_attr;
 Attribute num_threads_attr;
 
-unsigned int num_skipped { 0 };
+std::atomic<unsigned int> num_skipped { 0 };
 
 //
 // --- The OMPT callbacks
@@ -221,6 +225,8 @@ void cb_sync_region(int kind, ompt_scope_endpoint_t endpoint, ompt_data_t*, ompt
 // --- OMPT management
 //
 
+void init_attributes(Caliper* c);
+
 void setup_ompt_callbacks()
 {
     const struct callback_info {
@@ -245,6 +251,12 @@ int initialize_ompt(ompt_function_lookup_t lookup, int initial_device_num, ompt_
         return 0;
     }
 
+    //   With CALI_USE_OMPT, OpenMP can start before there is a channel with the ompt service
+    Caliper c;
+
+    if (c)
+        init_attributes(&c);
+
     setup_ompt_callbacks();
 
     Log(1).stream() << "OMPT support initialized" << std::endl;
@@ -310,7 +322,13 @@ void create_attributes(Caliper* c)
     );
 }
 
-int num_ompt_channels = 0;
+void init_attributes(Caliper* c)
+{
+    static std::once_flag is_initialized;
+    std::call_once(is_initialized, create_attributes, c);
+}
+
+std::atomic<int> num_ompt_channels { 0 };
 
 void pre_finish_cb(Caliper*, Channel* channel)
 {
@@ -330,12 +348,7 @@ void pre_finish_cb(Caliper*, Channel* channel)
 
 void register_ompt_service(Caliper* c, Channel* channel)
 {
-    static bool is_initialized = false;
-
-    if (!is_initialized) {
-        is_initialized = true;
-        create_attributes(c);
-    }
+    init_attributes(c);
 
     ++num_ompt_channels;
 
-- 
2.43.0

