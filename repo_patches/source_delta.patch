From 53782494feba6fe0f4c60fef3607b6883cc39526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 01/93] fix: keep earlier node entries when appending to a
 compressed snapshot record

Appending a second block of node entries wrote the new IDs over the ones
stored before and left stale bytes behind them.
---
 src/common/CompressedSnapshotRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/CompressedSnapshotRecord.cpp b/src/common/CompressedSnapshotRecord.cpp
index 4d01058..7800d9e 100644
--- a/src/common/CompressedSnapshotRecord.cpp
+++ b/src/common/CompressedSnapshotRecord.cpp
@@ -185,7 +185,7 @@ size_t CompressedSnapshotRecord::append(size_t n, const Node* const node_vec[])
         // size check, copy to actual buffer
         if (m_num_nodes + blk < 128 && m_imm_pos + m_imm_len + len <= m_buffer_len) {
             ::save_memmove(m_buffer + m_imm_pos + len, m_buffer + m_imm_pos, m_imm_len);
-            memcpy(m_buffer + 1, tmp, len);
+            memcpy(m_buffer + m_imm_pos, tmp, len);
 
             m_imm_pos += len;
             m_num_nodes += blk;
-- 
2.43.0


From 27d63019fca0e7a564e4d3e1a8dd72116d9b15e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 02/93] fix: keep non-ASCII bytes in escaped strings

The control character test compared a signed char, so every byte of a
multi-byte UTF-8 character was dropped from .cali and JSON output.
---
 src/common/util/format_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/util/format_util.h b/src/common/util/format_util.h
index be55f3b..8f479d6 100644
--- a/src/common/util/format_util.h
+++ b/src/common/util/format_util.h
@@ -39,7 +39,7 @@ inline std::ostream& write_json_esc_string(std::ostream& os, const char* str, st
             os.put('\\');
             os.put('n');
         }
-        if (c < 0x20) // skip control characters
+        if (static_cast<unsigned char>(c) < 0x20) // skip control characters
             continue;
         if (c == '\\' || c == '\"')
             os.put('\\');
@@ -57,7 +57,7 @@ inline std::ostream& write_cali_esc_string(std::ostream& os, const char* str, st
     for (size_t i = 0; i < size; ++i) {
         const char c = str[i];
 
-        if (c < 0x20) {
+        if (static_cast<unsigned char>(c) < 0x20) {
             if (c == '\n') { // handle newline in string
                 os.put('\\');
                 os.put('n');
-- 
2.43.0


From b6e7ecae79870656b6a8b938f1310f125884cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 03/93] fix: account for text already written in
 cali_prop2string()

The length check only looked at the next word, so the function wrote past
the end of a buffer that is too small for all properties together.
---
 src/common/cali_types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/cali_types.c b/src/common/cali_types.c
index ac52666..b1cda26 100644
--- a/src/common/cali_types.c
+++ b/src/common/cali_types.c
@@ -70,7 +70,7 @@ int cali_prop2string(int prop, char* buf, size_t len)
 
         size_t slen = strlen(p->str);
 
-        if ((slen + (ret > 0 ? 2 : 1)) > len)
+        if ((ret + slen + (ret > 0 ? 2 : 1)) > len)
             return -1;
         if (ret > 0)
             buf[ret++] = ':';
-- 
2.43.0


From 521f316a0957340cfd1b41789a7f8ff3c4abce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 04/93] fix: do not read before the start of an empty string

cali_make_variant_from_string("") read the byte in front of the string and
put it in the hash, so the result did not equal other empty strings.
---
 include/caliper/common/cali_variant.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/caliper/common/cali_variant.h b/include/caliper/common/cali_variant.h
index 22f80bf..c648ec4 100644
--- a/include/caliper/common/cali_variant.h
+++ b/include/caliper/common/cali_variant.h
@@ -126,13 +126,15 @@ inline cali_variant_t cali_make_variant_from_string(const char* value)
     size_t   size = strlen(value);
     uint64_t hash = 0;
 
-    const unsigned char* p = (const unsigned char*) value;
-    hash |= p[0];
-    hash <<= 8;
-    hash |= p[size / 2];
-    hash <<= 8;
-    hash |= p[size - 1];
-    hash <<= 8;
+    if (size > 0) {
+        const unsigned char* p = (const unsigned char*) value;
+        hash |= p[0];
+        hash <<= 8;
+        hash |= p[size / 2];
+        hash <<= 8;
+        hash |= p[size - 1];
+        hash <<= 8;
+    }
 
     cali_variant_t v;
 
-- 
2.43.0


From e22945986c117655169dac6ceb152c884378d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 05/93] fix: compare 64-bit integer and pointer variants
 without truncation

The difference was truncated to int: values 2^32 apart compared equal and
the order of values more than 2^31 apart was wrong.
---
 src/common/cali_variant.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/cali_variant.c b/src/common/cali_variant.c
index 5f457fa..013cc04 100644
--- a/src/common/cali_variant.c
+++ b/src/common/cali_variant.c
@@ -454,7 +454,7 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
     if (lhstype == rhstype) {
         switch (lhstype) {
         case CALI_TYPE_INV:
-            return lhs.value.v_int - rhs.value.v_int;
+            return (lhs.value.v_int > rhs.value.v_int) - (lhs.value.v_int < rhs.value.v_int);
         case CALI_TYPE_USR:
             {
                 int lhssize = (int) _EXTRACT_SIZE(lhs.type_and_size);
@@ -472,7 +472,7 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
                 return (cmp ? cmp : (lhssize - rhssize));
             }
         case CALI_TYPE_INT:
-            return lhs.value.v_int - rhs.value.v_int;
+            return (lhs.value.v_int > rhs.value.v_int) - (lhs.value.v_int < rhs.value.v_int);
         case CALI_TYPE_ADDR:
         case CALI_TYPE_UINT:
             {
@@ -491,7 +491,7 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
         case CALI_TYPE_TYPE:
             return ((int) lhs.value.v_type) - ((int) rhs.value.v_type);
         case CALI_TYPE_PTR:
-            return (int) ((char const*) (lhs.value.unmanaged_ptr) - (char const*) (rhs.value.unmanaged_ptr));
+            return (lhs.value.v_uint > rhs.value.v_uint) - (lhs.value.v_uint < rhs.value.v_uint);
         }
     }
 
-- 
2.43.0


From 22d6baef01a56f189f5ba697b0fd7177d226a8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 06/93] fix: do not crash on invalid node records

CaliperMetadataDB::merge_node() returns null for node info that cannot be
merged, and the ID mapping step dereferenced that. CaliReader reports
invalid node records as errors.
---
 src/reader/CaliperMetadataDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index da4dfe6..9904691 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -224,7 +224,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
 
         Node* node = merge_node(node_id, attr_id, prnt_id, v_data);
 
-        if (node_id != node->id())
+        if (node && node_id != node->id())
             idmap.insert(std::make_pair(node_id, node->id()));
 
         return node;
-- 
2.43.0


From ba1f5f37351af76c7e9215b3c31816a9434b8583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 07/93] fix: read empty values at the end of a .cali record

The key match required at least one character behind the key, so a record
ending in "data=" lost its (empty) value and was reported as malformed.
---
 src/reader/CaliReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index bf8479a..f46ff46 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -46,7 +46,7 @@ public:
 
     inline bool matches(size_t N, const char* key)
     {
-        if (it_ + N < end_) {
+        if (N <= static_cast<size_t>(end_ - it_)) {
             if (std::equal(it_, it_ + N, key)) {
                 it_ += N;
                 return true;
-- 
2.43.0


From 12dbb6aef5de462ec9fd1528e71a3024f2dc8002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 08/93] fix: read records without entries in .cali streams

---
 src/reader/CaliReader.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index f46ff46..8203bd3 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -55,6 +55,9 @@ public:
         return false;
     }
 
+    // consume the separator behind a record kind: records without fields are valid
+    inline bool matches_separator() { return !good() || matches(','); }
+
     std::string context() { return std::string { it_, end_ }; }
 };
 
@@ -242,9 +245,9 @@ struct CaliReader::CaliReaderImpl {
     {
         if (is.matches(11, "__rec=node,")) {
             read_node(is, db, idmap, node_proc);
-        } else if (is.matches(10, "__rec=ctx,")) {
+        } else if (is.matches(9, "__rec=ctx") && is.matches_separator()) {
             read_snapshot(is, db, idmap, snap_proc);
-        } else if (is.matches(14, "__rec=globals,")) {
+        } else if (is.matches(13, "__rec=globals") && is.matches_separator()) {
             read_globals(is, db, idmap);
         } else {
             set_error(std::string("Unknown/invalid record: ") + is.context());
-- 
2.43.0


From 409922ec6bf7be8d06ea91d27633d849583fad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 09/93] fix: do not pass on dangling references from .cali
 records

---
 src/reader/CaliReader.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index 8203bd3..93973f1 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -201,10 +201,17 @@ struct CaliReader::CaliReaderImpl {
         std::vector<Entry> rec;
         rec.reserve(refs.size() + std::min(attr.size(), data.size()));
 
+        auto add_entry = [this, &rec](const Entry& e) {
+            if (e.empty())
+                set_error("Invalid entry in snapshot record");
+            else
+                rec.push_back(e);
+        };
+
         for (cali_id_t id : refs)
-            rec.push_back(db.merge_entry(id, idmap));
+            add_entry(db.merge_entry(id, idmap));
         for (size_t i = 0; i < std::min(attr.size(), data.size()); ++i)
-            rec.push_back(db.merge_entry(attr[i], data[i], idmap));
+            add_entry(db.merge_entry(attr[i], data[i], idmap));
 
         snap_proc(db, rec);
     }
-- 
2.43.0


From 565a2e4ac084ddb6fe64ce8c622d8d6cf575d417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 10/93] fix: skip invalid nodes when importing records

---
 src/reader/CaliperMetadataDB.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index 9904691..8afcc56 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -262,6 +262,8 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
 
         Variant v_data = node->data();
 
+        if (!attr_node || v_data.empty()) // skip invalid nodes
+            return parent;
         if (v_data.type() == CALI_TYPE_STRING)
             v_data = make_string_variant(static_cast<const char*>(v_data.data()), v_data.size());
 
@@ -276,6 +278,8 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
         for (const Entry& e : rec) {
             Node* node = recursive_merge_node(e.node(), db);
 
+            if (!node)
+                continue;
             if (e.is_reference())
                 list.push_back(Entry(node));
             else if (e.is_immediate())
@@ -472,6 +476,8 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
         for (const Entry& e : import_globals) {
             Node* node = recursive_merge_node(e.node(), db);
 
+            if (!node)
+                continue;
             if (e.is_reference())
                 m_globals.push_back(Entry(node));
             else if (e.is_immediate())
-- 
2.43.0


From 5f1670412a1ec22687c84afd6f8a6a2c827432a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 11/93] fix: move the snapshot flag along with blackboard
 entries

---
 src/caliper/Blackboard.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/caliper/Blackboard.cpp b/src/caliper/Blackboard.cpp
index 3d1c00f..6113fc0 100644
--- a/src/caliper/Blackboard.cpp
+++ b/src/caliper/Blackboard.cpp
@@ -87,7 +87,16 @@ void Blackboard::del(cali_id_t key)
             size_t k = hashtable[j].key % Nmax;
             if ((j > I && (k <= I || k > j)) || (j < I && (k <= I && k > j))) {
                 hashtable[I] = hashtable[j];
-                I            = j;
+                // the snapshot flag moves along with the entry
+                if (toc[j / 32] & (1 << (j % 32))) {
+                    toc[I / 32] |= (1 << (I % 32));
+                    toctoc |= (1 << (I / 32));
+                } else {
+                    toc[I / 32] &= ~(1 << (I % 32));
+                    if (toc[I / 32] == 0)
+                        toctoc &= ~(1 << (I / 32));
+                }
+                I = j;
             }
         }
     }
-- 
2.43.0


From 4cecc5da3d5681f9164d1c87385b3cf1ce105711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 12/93] fix: handle an exhausted context tree memory pool

---
 include/caliper/common/Entry.h | 2 +-
 src/caliper/MetadataTree.cpp   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/caliper/common/Entry.h b/include/caliper/common/Entry.h
index 2f8a529..96ee28f 100644
--- a/include/caliper/common/Entry.h
+++ b/include/caliper/common/Entry.h
@@ -41,7 +41,7 @@ public:
     constexpr Entry() : m_node(nullptr) {}
 
     /// @brief Construct a reference entry from \a node
-    Entry(Node* node) : m_node(node), m_value(node->data()) {}
+    Entry(Node* node) : m_node(node), m_value(node ? node->data() : Variant()) {}
 
     /// @brief Construct an immediate entry from \a attr, \a val
     Entry(const Attribute& attr, const Variant& val) : m_node(attr.node()), m_value(val) {}
diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index f8f9f26..e43124a 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -196,9 +196,13 @@ Node* MetadataTree::create_child(const Attribute& attr, const Variant& value, No
 
     void* ptr = nullptr;
 
-    if (value.has_unmanaged_data())
+    if (value.has_unmanaged_data()) {
         ptr = m_mempool.allocate(value.size() + 1 /* ensure 0-padding so we can safely hand out string ptrs */);
 
+        if (!ptr)
+            return nullptr;
+    }
+
     size_t      index = m_nodeblock->index++;
     GlobalData* g     = mG.load();
 
-- 
2.43.0


From 8150ad2236c4b0ce01223084d327f29cc2435706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 13/93] fix: keep context tree nodes inside of their block

---
 src/caliper/MetadataTree.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index e43124a..955e52a 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -25,8 +25,9 @@ MetadataTree::GlobalData::GlobalData(MemoryPool& pool)
       node_blocks(0),
       g_mempool(pool)
 {
-    num_blocks      = config.get("num_blocks").to_uint();
-    nodes_per_block = std::min<uint64_t>(config.get("nodes_per_block").to_uint(), 256);
+    // the first block needs room for the bootstrap nodes
+    num_blocks      = std::max<uint64_t>(config.get("num_blocks").to_uint(), 1);
+    nodes_per_block = std::max<uint64_t>(std::min<uint64_t>(config.get("nodes_per_block").to_uint(), 256), 16);
 
     node_blocks = new NodeBlock[num_blocks];
 
@@ -97,6 +98,8 @@ bool MetadataTree::have_free_nodeblock(size_t n)
 {
     GlobalData* g = mG.load();
 
+    if (n > g->nodes_per_block)
+        return false;
     if (!m_nodeblock || m_nodeblock->index + n >= g->nodes_per_block) {
         if (g->next_block.load() >= g->num_blocks)
             return false;
-- 
2.43.0


From 81817818f7ef12d9b6eea16c4f2c068aed13f910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 14/93] fix: keep hidden attributes apart from visible regions

---
 src/caliper/Caliper.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 33e72ad..c0c4e14 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -520,6 +520,18 @@ namespace
 
 constexpr cali_id_t REGION_KEY { 1 };
 constexpr cali_id_t UNALIGNED_KEY { 2 };
+// Hidden attributes must not appear in snapshots and must not hide others,
+// so they don't share the slots of visible attributes
+constexpr cali_id_t HIDDEN_REGION_KEY { 3 };
+constexpr cali_id_t HIDDEN_UNALIGNED_KEY { 4 };
+
+inline cali_id_t get_blackboard_key_for_reference_entry(int prop)
+{
+    if (prop & CALI_ATTR_HIDDEN)
+        return prop & CALI_ATTR_UNALIGNED ? HIDDEN_UNALIGNED_KEY : HIDDEN_REGION_KEY;
+
+    return prop & CALI_ATTR_UNALIGNED ? UNALIGNED_KEY : REGION_KEY;
+}
 
 // Get the blackboard key, which determines the blackboard slot for each
 // attribute. By default, we merge most attributes into two slots:
@@ -531,15 +543,8 @@ inline cali_id_t get_blackboard_key(cali_id_t attr_id, int prop)
 {
     if (prop & CALI_ATTR_ASVALUE)
         return attr_id;
-    if (prop & CALI_ATTR_UNALIGNED)
-        return UNALIGNED_KEY;
 
-    return REGION_KEY;
-}
-
-inline cali_id_t get_blackboard_key_for_reference_entry(int prop)
-{
-    return prop & CALI_ATTR_UNALIGNED ? UNALIGNED_KEY : REGION_KEY;
+    return get_blackboard_key_for_reference_entry(prop);
 }
 
 void log_stack_error(const Node* stack, const Attribute& attr)
@@ -589,7 +594,7 @@ inline BlackboardEntry load_current_entry(const Attribute& attr, cali_id_t key,
             log_stack_error(nullptr, attr);
             return { Entry(), Entry() };
         }
-        if (key != UNALIGNED_KEY) {
+        if (key != UNALIGNED_KEY && key != HIDDEN_UNALIGNED_KEY) {
             log_stack_error(merged_entry.node(), attr);
             return { Entry(), Entry() };
         }
-- 
2.43.0


From 999876dabd66e0024334c0d3f07d9de6e6248a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 15/93] fix: aggregate attributes that are created after an
 aggregation entry

---
 src/services/aggregate/AggregationDB.cpp | 19 +++++++++++++++++++
 src/services/aggregate/AggregationDB.h   |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index c138695..2958c62 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -68,6 +68,22 @@ AggregateEntry* AggregationDB::find_or_create_entry(SnapshotView key, std::size_
     return &m_entries[entry_idx];
 }
 
+// Make room for aggregation attributes that were created after the entry
+void AggregationDB::extend_kernels(AggregateEntry* entry, std::size_t num_aggr_attrs, bool can_alloc)
+{
+    if (entry == &m_entries[0]) // the "skipped" entry has no kernels
+        return;
+    if (!can_alloc && m_kernels.size() + num_aggr_attrs >= m_kernels.capacity())
+        return;
+
+    size_t kernels_idx = m_kernels.size();
+    m_kernels.resize(m_kernels.size() + num_aggr_attrs, AggregateKernel());
+    std::copy_n(m_kernels.begin() + entry->kernels_idx, entry->num_kernels, m_kernels.begin() + kernels_idx);
+
+    entry->kernels_idx = kernels_idx;
+    entry->num_kernels = num_aggr_attrs;
+}
+
 void AggregationDB::process_snapshot(Caliper* c, SnapshotView rec, const AttributeInfo& info)
 {
     // --- extract key entries
@@ -96,6 +112,9 @@ void AggregationDB::process_snapshot(Caliper* c, SnapshotView rec, const Attribu
 
     ++entry->count;
 
+    if (entry->num_kernels < info.aggr_attrs.size())
+        extend_kernels(entry, info.aggr_attrs.size(), !c->is_signal());
+
     for (size_t a = 0; a < std::min(entry->num_kernels, info.aggr_attrs.size()); ++a) {
         Entry e = rec.get_immediate_entry(info.aggr_attrs[a]);
 
diff --git a/src/services/aggregate/AggregationDB.h b/src/services/aggregate/AggregationDB.h
index 44020cd..7312a37 100644
--- a/src/services/aggregate/AggregationDB.h
+++ b/src/services/aggregate/AggregationDB.h
@@ -127,6 +127,8 @@ class AggregationDB
 
     AggregateEntry* find_or_create_entry(cali::SnapshotView key, std::size_t hash, std::size_t num_aggr_attrs, bool can_alloc);
 
+    void extend_kernels(AggregateEntry* entry, std::size_t num_aggr_attrs, bool can_alloc);
+
 public:
 
     explicit AggregationDB(cali::Caliper* c);
-- 
2.43.0


From 58b5239a4bb1ad18786e05507e9816df762e26bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 16/93] fix: keep the key of skipped aggregation records on
 clear

---
 src/services/aggregate/AggregationDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index 2958c62..f44a18b 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -130,7 +130,7 @@ void AggregationDB::clear()
     m_hashmap.assign(m_hashmap.size(), 0);
     m_entries.resize(1);
     m_kernels.resize(0);
-    m_keyents.resize(0);
+    m_keyents.resize(1); // keep the key of the "skipped" entry
 
     m_entries[0].count = 0;
 }
-- 
2.43.0


From c64b724ebac345cc76e0acbea5046b40667d856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:18 +0000
Subject: [PATCH 17/93] fix: don't write beyond the end of a trace buffer

---
 src/services/trace/Trace.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index e3ac45e..2580f71 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -123,6 +123,7 @@ class Trace
             {
                 Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, flushing.\n";
                 c->flush_and_write(m_channel.body(), SnapshotView());
+                c->clear(&m_channel);
                 return tbuf;
             }
 
@@ -142,8 +143,10 @@ class Trace
 
         if (!tbuf->chunks->fits(rec))
             tbuf = handle_overflow(c, tbuf);
-        if (!tbuf)
+        if (!tbuf || !tbuf->chunks->fits(rec)) {
+            ++dropped_snapshots;
             return;
+        }
 
         tbuf->chunks->save_snapshot(rec);
     }
-- 
2.43.0


From ed9e0d957bb348c997bb1f0db3eac77e47b71d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 18/93] fix: flush trace buffer chunks in the order of
 recording

---
 src/services/trace/TraceBufferChunk.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/services/trace/TraceBufferChunk.cpp b/src/services/trace/TraceBufferChunk.cpp
index 6bc5bb0..f530d3a 100644
--- a/src/services/trace/TraceBufferChunk.cpp
+++ b/src/services/trace/TraceBufferChunk.cpp
@@ -44,6 +44,13 @@ size_t TraceBufferChunk::flush(Caliper* c, SnapshotFlushFn proc_fn)
 {
     size_t written = 0;
 
+    //
+    // flush subsequent buffers in list: these have the earlier records
+    //
+
+    if (m_next)
+        written += m_next->flush(c, proc_fn);
+
     //
     // local flush
     //
@@ -66,13 +73,6 @@ size_t TraceBufferChunk::flush(Caliper* c, SnapshotFlushFn proc_fn)
 
     written += m_nrec;
 
-    //
-    // flush subsequent buffers in list
-    //
-
-    if (m_next)
-        written += m_next->flush(c, proc_fn);
-
     return written;
 }
 
-- 
2.43.0


From 8a6638c21f10b4441c8adcfdc1c055ece6cea54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 19/93] fix: combine partial results of count, inclusive, and
 ratio aggregations

Inclusive results of parent regions were added up again when combining
partial results, regions without records of their own were counted, and
ratio operators with a common operand mixed up their partial sums.
---
 src/reader/Aggregator.cpp | 111 ++++++++++++++++++++++++++++----------
 1 file changed, 82 insertions(+), 29 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 6b0ae8a..f3cc9b0 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -172,9 +172,8 @@ public:
 
     void append_result(CaliperMetadataAccessInterface& db, EntryList& list) override
     {
-        uint64_t count = m_count.load();
-        if (count > 0)
-            list.push_back(Entry(m_config->attr(db), Variant(cali_make_variant_from_uint(count))));
+        // always write the count: a record without count counts as one when combining results
+        list.push_back(Entry(m_config->attr(db), Variant(cali_make_variant_from_uint(m_count.load()))));
     }
 
 private:
@@ -227,10 +226,9 @@ public:
 
     void append_result(CaliperMetadataAccessInterface& db, EntryList& list) override
     {
-        if (m_count > 0) {
-            list.push_back(Entry(m_config->m_count_attr.get(db), Variant(m_count)));
-            list.push_back(Entry(m_config->m_result_attr.get(db), Variant(m_config->get_scale() * m_count)));
-        }
+        // always write the count: a record without count counts as one when combining results
+        list.push_back(Entry(m_config->m_count_attr.get(db), Variant(m_count)));
+        list.push_back(Entry(m_config->m_result_attr.get(db), Variant(m_config->get_scale() * m_count)));
     }
 
 private:
@@ -249,18 +247,31 @@ public:
 
     class Config : public AggregateKernelConfig
     {
-        AggregationAttributeManager m_attr_mgr;
+        AggregationAttributeManager m_sum_attr;
+        AggregationAttributeManager m_isum_attr;
         bool m_is_inclusive;
 
     public:
 
-        AggregationAttributeManager& attr() { return m_attr_mgr; }
+        AggregationAttributeManager& sum_attr() { return m_sum_attr; }
+        AggregationAttributeManager& isum_attr() { return m_isum_attr; }
 
         bool is_inclusive() const override { return m_is_inclusive; }
         AggregateKernel* make_kernel() override { return new SumKernel(this); }
 
+        // Process the values in rec. For partial results of an inclusive sum, this
+        // is the exclusive sum, or the inclusive sum if there is nothing else in it.
+        int apply(CaliperMetadataAccessInterface& db, const EntryList& rec, std::function<void(const Entry&)> F)
+        {
+            int count = apply_to_matching_entries(db, m_sum_attr, rec, F);
+            if (count == 0 && m_is_inclusive)
+                count = apply_to_matching_entries(db, m_isum_attr, rec, F);
+            return count;
+        }
+
         Config(const std::string& target_name, bool is_inclusive) :
-            m_attr_mgr { target_name, is_inclusive ? "inclusive#" : "sum#" },
+            m_sum_attr { target_name, is_inclusive ? "isum.sum#" : "sum#", is_inclusive ? CALI_ATTR_HIDDEN : 0 },
+            m_isum_attr { target_name, "inclusive#" },
             m_is_inclusive { is_inclusive }
         { }
 
@@ -279,18 +290,37 @@ public:
 
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
     {
-        return apply_to_matching_entries(db, m_config->attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
+        return m_config->apply(db, rec, [this](const Entry& e){
+                m_sum += e.value();
+                m_isum += e.value();
+            });
+    }
+
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        m_config->apply(db, rec, [this](const Entry& e){ m_isum += e.value(); });
     }
 
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
-        if (m_sum)
-            rec.push_back(Entry(m_config->attr().derived_attr(db), m_sum));
+        if (!m_config->is_inclusive()) {
+            if (m_sum)
+                rec.push_back(Entry(m_config->sum_attr().derived_attr(db), m_sum));
+        } else if (m_isum) {
+            rec.push_back(Entry(m_config->isum_attr().derived_attr(db), m_isum));
+            if (m_sum != m_isum) {
+                const uint64_t zero = 0;
+                rec.push_back(
+                    Entry(m_config->sum_attr().derived_attr(db), m_sum ? m_sum : Variant(m_isum.type(), &zero, sizeof(zero)))
+                );
+            }
+        }
     }
 
 private:
 
     Variant m_sum;
+    Variant m_isum; // inclusive sum
     Config* m_config;
 };
 
@@ -338,20 +368,29 @@ public:
 
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
     {
-        return apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
+        return apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){
+                m_sum += e.value();
+                m_isum += e.value();
+            });
+    }
+
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){ m_isum += e.value(); });
     }
 
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
-        if (m_sum) {
-            rec.push_back(Entry(m_config->sum_attr().derived_attr(db), Variant(m_sum)));
-            rec.push_back(Entry(m_config->result_attr(db), Variant(m_config->get_scale() * m_sum.to_double())));
-        }
+        if (m_sum)
+            rec.push_back(Entry(m_config->sum_attr().derived_attr(db), m_sum));
+        if (m_isum)
+            rec.push_back(Entry(m_config->result_attr(db), Variant(m_config->get_scale() * m_isum.to_double())));
     }
 
 private:
 
     Variant m_sum;
+    Variant m_isum; // inclusive sum
     Config* m_config;
 };
 
@@ -552,8 +591,8 @@ public:
         AggregateKernel* make_kernel() override { return new ScaledRatioKernel(this); }
 
         Config(const std::vector<std::string>& cfg, bool is_inclusive)
-            : m_tgt1 { cfg[0], is_inclusive ? "isr.sum#" : "sr.sum#", CALI_ATTR_HIDDEN }
-            , m_tgt2 { cfg[1], is_inclusive ? "isr.sum#" : "sr.sum#", CALI_ATTR_HIDDEN }
+            : m_tgt1 { cfg[0], std::string(is_inclusive ? "isr.sum#" : "sr.sum#")+cfg[0]+"/"+cfg[1]+"#", CALI_ATTR_HIDDEN }
+            , m_tgt2 { cfg[1], std::string(is_inclusive ? "isr.sum#" : "sr.sum#")+cfg[0]+"/"+cfg[1]+"#", CALI_ATTR_HIDDEN }
             , m_ratio_attr { std::string(is_inclusive ? "iratio#" : "ratio#")+cfg[0]+"/"+cfg[1], CALI_TYPE_DOUBLE }
             , m_scale { 1.0 }
             , m_inclusive { is_inclusive }
@@ -580,28 +619,41 @@ public:
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
     {
         int count = 0;
-        count += apply_to_matching_entries(db, m_config->m_tgt1, rec, [this](const Entry& e){ m_sum1 += e.value(); });
-        count += apply_to_matching_entries(db, m_config->m_tgt2, rec, [this](const Entry& e){ m_sum2 += e.value(); });
+        count += apply_to_matching_entries(db, m_config->m_tgt1, rec, [this](const Entry& e){
+                m_sum1 += e.value();
+                m_isum1 += e.value();
+            });
+        count += apply_to_matching_entries(db, m_config->m_tgt2, rec, [this](const Entry& e){
+                m_sum2 += e.value();
+                m_isum2 += e.value();
+            });
         return count;
     }
 
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_matching_entries(db, m_config->m_tgt1, rec, [this](const Entry& e){ m_isum1 += e.value(); });
+        apply_to_matching_entries(db, m_config->m_tgt2, rec, [this](const Entry& e){ m_isum2 += e.value(); });
+    }
+
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
         if (m_sum1)
             rec.push_back(Entry(m_config->m_tgt1.derived_attr(db), m_sum1));
-        if (m_sum2) {
+        if (m_sum2)
             rec.push_back(Entry(m_config->m_tgt2.derived_attr(db), m_sum2));
-            if (m_sum1)
-                rec.push_back(
-                    Entry(m_config->m_ratio_attr.get(db), Variant(m_config->get_scale() * m_sum1.to_double() / m_sum2.to_double()))
-                );
-        }
+        if (m_isum1 && m_isum2)
+            rec.push_back(
+                Entry(m_config->m_ratio_attr.get(db), Variant(m_config->get_scale() * m_isum1.to_double() / m_isum2.to_double()))
+            );
     }
 
 private:
 
     Variant m_sum1;
     Variant m_sum2;
+    Variant m_isum1; // inclusive sums
+    Variant m_isum2;
     Config* m_config;
 };
 
@@ -674,8 +726,9 @@ public:
     void append_result(CaliperMetadataAccessInterface& db, EntryList& list) override
     {
         double total = m_config->get_total();
+        if (m_sum)
+            list.push_back(Entry(m_config->sum_attr().derived_attr(db), m_sum));
         if (m_isum && total > 0.0) {
-            list.push_back(Entry(m_config->sum_attr().derived_attr(db), Variant(m_sum)));
             list.push_back(Entry(m_config->result_attr(db), Variant(100.0 * m_isum.to_double() / total)));
         }
     }
-- 
2.43.0


From 7b0edcf4f57bb25c7843b463cde7bbba189ee2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 20/93] fix: don't throw on operator arguments that are not
 numbers

---
 src/reader/Aggregator.cpp   | 21 ++++++++++++++++++---
 src/reader/Preprocessor.cpp | 21 ++++++++++++++++++---
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index f3cc9b0..ecc617e 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -12,6 +12,8 @@
 #include "caliper/common/Log.h"
 #include "caliper/common/Node.h"
 
+#include "../common/StringConverter.h"
+
 #include <algorithm>
 #include <cassert>
 #include <cstring>
@@ -37,6 +39,19 @@ std::size_t compute_key_hash(const std::vector<Entry>& key)
     return hash;
 }
 
+double parse_scale(const std::string& str)
+{
+    bool   ok    = false;
+    double scale = StringConverter(str).to_double(&ok);
+
+    if (!ok) {
+        Log(0).stream() << "aggregator: Error: Invalid scaling factor \"" << str << "\"" << std::endl;
+        scale = 1.0;
+    }
+
+    return scale;
+}
+
 class CustomAttributeManager
 {
     std::string    m_name;
@@ -201,7 +216,7 @@ public:
 
         explicit Config(const std::string& scale_str)
             : m_count_attr { scale_str, "scount#", CALI_TYPE_UINT }
-            , m_scale { std::stod(scale_str) }
+            , m_scale { parse_scale(scale_str) }
         { }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg) { return new Config(cfg.front()); }
@@ -353,7 +368,7 @@ public:
             , m_inclusive { inclusive }
         {
             if (cfg.size() > 1)
-                m_scale = std::stod(cfg[1]);
+                m_scale = parse_scale(cfg[1]);
         }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg) { return new Config(cfg, false); }
@@ -598,7 +613,7 @@ public:
             , m_inclusive { is_inclusive }
         {
             if (cfg.size() > 2)
-                m_scale = std::stod(cfg[2]);
+                m_scale = parse_scale(cfg[2]);
         }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg)
diff --git a/src/reader/Preprocessor.cpp b/src/reader/Preprocessor.cpp
index c8161d7..fd7d06f 100644
--- a/src/reader/Preprocessor.cpp
+++ b/src/reader/Preprocessor.cpp
@@ -15,6 +15,8 @@
 
 #include "caliper/common/cali_types.h"
 
+#include "../common/StringConverter.h"
+
 #include <cmath>
 #include <vector>
 #include <utility>
@@ -45,6 +47,19 @@ Variant get_value(
     return Variant();
 }
 
+double parse_number(const std::string& str)
+{
+    bool   ok  = false;
+    double val = StringConverter(str).to_double(&ok);
+
+    if (!ok) {
+        Log(0).stream() << "preprocessor: Error: Invalid number \"" << str << "\"" << std::endl;
+        val = 1.0;
+    }
+
+    return val;
+}
+
 class Kernel
 {
 public:
@@ -70,7 +85,7 @@ class ScaledRatioKernel : public Kernel
         : m_res_attr_name(def), m_nom_attr_name(args[0]), m_dnm_attr_name(args[1]), m_scale(1.0)
     {
         if (args.size() > 2)
-            m_scale = std::stod(args[2]);
+            m_scale = parse_number(args[2]);
     }
 
 public:
@@ -116,7 +131,7 @@ class ScaleKernel : public Kernel
     ScaleKernel(const std::string& def, const std::vector<std::string>& args)
         : m_res_attr_name(def), m_tgt_attr_name(args[0]), m_scale(1.0)
     {
-        m_scale = std::stod(args[1]);
+        m_scale = parse_number(args[1]);
     }
 
 public:
@@ -155,7 +170,7 @@ class TruncateKernel : public Kernel
         : m_res_attr_name(def), m_tgt_attr_name(args[0]), m_factor(1.0)
     {
         if (args.size() > 1)
-            m_factor = std::stod(args[1]);
+            m_factor = parse_number(args[1]);
     }
 
 public:
-- 
2.43.0


From e9f25d0ab5a73beccabc2c181e6bff7f78d5f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 21/93] fix: ignore the order of explicitly selected
 aggregation keys

---
 src/reader/Aggregator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index ecc617e..ea1df7a 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -1162,6 +1162,11 @@ struct Aggregator::AggregatorImpl {
 
         if (!non_path_nodes.empty()) {
             std::reverse(non_path_nodes.begin(), non_path_nodes.end());
+            // The order of explicitly selected key attributes doesn't matter
+            if (!m_select_all)
+                std::stable_sort(non_path_nodes.begin(), non_path_nodes.end(), [](const Node* a, const Node* b) {
+                    return a->attribute() < b->attribute();
+                });
             key.emplace_back(db.make_tree_entry(non_path_nodes.size(), non_path_nodes.data()));
         }
 
-- 
2.43.0


From 5b7fa0f5684e207982824c5cdeb766a13b5677fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 22/93] fix: compute averages over more than 2^32 values

---
 include/caliper/common/Variant.h | 2 +-
 src/common/Variant.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/caliper/common/Variant.h b/include/caliper/common/Variant.h
index 7f92b21..81d09b1 100644
--- a/include/caliper/common/Variant.h
+++ b/include/caliper/common/Variant.h
@@ -88,7 +88,7 @@ public:
 
     Variant& min(const Variant& val);
     Variant& max(const Variant& val);
-    Variant  div(unsigned count);
+    Variant  div(uint64_t count);
 
     static void update_minmaxsum(const Variant& val, Variant& min_val, Variant& max_val, Variant& sum_val);
 
diff --git a/src/common/Variant.cpp b/src/common/Variant.cpp
index 3614e2b..7de026e 100644
--- a/src/common/Variant.cpp
+++ b/src/common/Variant.cpp
@@ -302,7 +302,7 @@ Variant& Variant::max(const Variant& val)
     return *this;
 }
 
-Variant Variant::div(unsigned count)
+Variant Variant::div(uint64_t count)
 {
     cali_attr_type type = this->type();
 
-- 
2.43.0


From 0f5c986128e58eb0e28117a55195e2190d873df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 23/93] fix: compare with values that don't fit the attribute's
 type in filters

---
 src/reader/RecordSelector.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/reader/RecordSelector.cpp b/src/reader/RecordSelector.cpp
index 7fd9c9a..fba2f51 100644
--- a/src/reader/RecordSelector.cpp
+++ b/src/reader/RecordSelector.cpp
@@ -121,6 +121,12 @@ struct RecordSelector::RecordSelectorImpl {
         return clause;
     }
 
+    static bool is_ordering(QuerySpec::Condition::Op op)
+    {
+        return op == QuerySpec::Condition::Op::LessThan || op == QuerySpec::Condition::Op::GreaterThan
+               || op == QuerySpec::Condition::Op::LessOrEqual || op == QuerySpec::Condition::Op::GreaterOrEqual;
+    }
+
     template <class Op>
     bool have_match(const Entry& entry, Op match)
     {
@@ -139,6 +145,10 @@ struct RecordSelector::RecordSelectorImpl {
         for (auto& f : m_filters) {
             Clause clause = make_clause(db, f);
 
+            // nothing is less or greater than a value that isn't valid for the attribute's type
+            if (is_ordering(clause.op) && clause.value.empty())
+                return false;
+
             switch (clause.op) {
             case QuerySpec::Condition::Op::Exist:
                 {
-- 
2.43.0


From 628a8b1cc61df51b4914a2c1f53c725ddb181053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 24/93] fix: truncate 64-bit integers exactly in LET
 expressions

---
 src/reader/Preprocessor.cpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/reader/Preprocessor.cpp b/src/reader/Preprocessor.cpp
index fd7d06f..b014364 100644
--- a/src/reader/Preprocessor.cpp
+++ b/src/reader/Preprocessor.cpp
@@ -190,17 +190,36 @@ public:
         if (!m_res_attr)
             m_res_attr = db.create_attribute(m_res_attr_name, type, CALI_ATTR_SKIP_EVENTS | CALI_ATTR_ASVALUE);
 
-        double val = v_tgt.to_double();
-        double res = val - fmod(val, m_factor);
+        Variant v_res;
+        double  factor = std::fabs(m_factor);
 
-        Variant v_res(res);
+        if (!(factor > 0.0))
+            return;
+
+        if (type != CALI_TYPE_DOUBLE && factor < 9e18 && factor == std::floor(factor)) {
+            // compute integers exactly
+            int64_t div = static_cast<int64_t>(factor);
 
-        if (type == CALI_TYPE_INT)
-            v_res = cali_make_variant_from_int(static_cast<int>(res));
-        else if (type == CALI_TYPE_UINT)
-            v_res = cali_make_variant_from_uint(static_cast<uint64_t>(fabs(res)));
+            if (type == CALI_TYPE_INT) {
+                int64_t val = v_tgt.to_int64();
+                v_res       = Variant(cali_make_variant_from_int64(val - val % div));
+            } else {
+                uint64_t val = v_tgt.to_uint();
+                v_res        = Variant(cali_make_variant_from_uint(val - val % static_cast<uint64_t>(div)));
+            }
+        } else {
+            double val = v_tgt.to_double();
+            double res = val - fmod(val, factor);
+
+            if (type == CALI_TYPE_INT)
+                v_res = Variant(cali_make_variant_from_int64(static_cast<int64_t>(res)));
+            else if (type == CALI_TYPE_UINT)
+                v_res = Variant(cali_make_variant_from_uint(static_cast<uint64_t>(fabs(res))));
+            else
+                v_res = Variant(res);
+        }
 
-        rec.push_back(Entry(m_res_attr, Variant(v_res)));
+        rec.push_back(Entry(m_res_attr, v_res));
     }
 
     static Kernel* create(const std::string& def, const std::vector<std::string>& args)
-- 
2.43.0


From 08fd6b8a4985e42ba557323a4b5e39182402c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 25/93] fix: keep whitespace and escapes in formatter arguments

---
 src/reader/CalQLParser.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/reader/CalQLParser.cpp b/src/reader/CalQLParser.cpp
index 5e3aa40..b31d367 100644
--- a/src/reader/CalQLParser.cpp
+++ b/src/reader/CalQLParser.cpp
@@ -36,17 +36,13 @@ int get_definition_id(const std::string& w, const QuerySpec::FunctionSignature*
 
 std::pair<std::string, std::string> get_keyval(const std::string& str)
 {
-    std::istringstream is(str);
+    // quotes and escapes have already been resolved
+    std::string::size_type pos = str.find('=');
 
-    std::string first = util::read_word(is, "=");
-    char        c     = util::read_char(is);
+    if (pos == std::string::npos)
+        return std::make_pair(std::string(), str);
 
-    if (c == '=') {
-        std::string val = util::read_word(is);
-        return std::make_pair(std::move(first), std::move(val));
-    } else {
-        return std::make_pair(std::string(), std::move(first));
-    }
+    return std::make_pair(str.substr(0, pos), str.substr(pos + 1));
 }
 
 bool is_in_arglist(const std::string& s, const QuerySpec::FunctionSignature& sig)
-- 
2.43.0


From 76c20501ce83927bdd565fe10f11cb21d21a3acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:23 +0000
Subject: [PATCH 26/93] fix: select everything if there is a star in the SELECT
 list

---
 src/reader/CalQLParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader/CalQLParser.cpp b/src/reader/CalQLParser.cpp
index b31d367..c099a78 100644
--- a/src/reader/CalQLParser.cpp
+++ b/src/reader/CalQLParser.cpp
@@ -315,7 +315,9 @@ struct CalQLParser::CalQLParserImpl {
                     if (w.empty())
                         set_error("Expected argument for SELECT", is);
                     else {
-                        spec.select.selection = QuerySpec::AttributeSelection::List;
+                        if (spec.select.selection != QuerySpec::AttributeSelection::All)
+                            spec.select.selection = QuerySpec::AttributeSelection::List;
+
                         spec.select.list.push_back(w);
 
                         selection_attr_name = w;
-- 
2.43.0


From 4535f19e3d7a17c085e2b419bf07176deeacfa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 27/93] fix: select nested regions and skip missing attributes
 in JSON output

---
 src/reader/JsonFormatter.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/reader/JsonFormatter.cpp b/src/reader/JsonFormatter.cpp
index 2320728..b348ff9 100644
--- a/src/reader/JsonFormatter.cpp
+++ b/src/reader/JsonFormatter.cpp
@@ -28,6 +28,9 @@ using namespace cali;
 struct JsonFormatter::JsonFormatterImpl {
     std::set<std::string> m_selected;
 
+    bool m_select_list = false;
+    bool m_select_path = false;
+
     OutputStream m_os;
     std::mutex m_os_lock;
 
@@ -72,7 +75,9 @@ struct JsonFormatter::JsonFormatterImpl {
             // doesn't make much sense
             break;
         case QuerySpec::AttributeSelection::List:
-            m_selected = std::set<std::string>(spec.select.list.begin(), spec.select.list.end());
+            m_selected    = std::set<std::string>(spec.select.list.begin(), spec.select.list.end());
+            m_select_list = true;
+            m_select_path = spec.select.use_path;
             break;
         }
 
@@ -83,9 +88,9 @@ struct JsonFormatter::JsonFormatterImpl {
     {
         std::string name = attr.name();
 
-        bool selected = m_selected.count(name) > 0;
+        bool selected = m_selected.count(name) > 0 || (m_select_path && attr.is_nested());
 
-        if (!selected && (!m_selected.empty() || attr.is_hidden() || attr.is_global()))
+        if (!selected && (m_select_list || attr.is_hidden() || attr.is_global()))
             return "";
 
         if (attr.is_nested() && !m_opt_sep_nested)
@@ -186,11 +191,19 @@ struct JsonFormatter::JsonFormatterImpl {
     {
         std::vector<Attribute> attrs;
 
-        if (m_selected.empty())
-            attrs = db.get_all_attributes();
-        else
-            for (const std::string& str : m_selected)
-                attrs.push_back(db.get_attribute(str));
+        attrs = db.get_all_attributes();
+
+        if (m_select_list)
+            attrs.erase(
+                std::remove_if(
+                    attrs.begin(),
+                    attrs.end(),
+                    [this](const Attribute& a) {
+                        return !(m_selected.count(a.name()) > 0 || (m_select_path && a.is_nested()));
+                    }
+                ),
+                attrs.end()
+            );
 
         // remove nested and hidden attributes
         if (!m_opt_sep_nested)
-- 
2.43.0


From 1ce01e966b86248e2271969ff449dcf2cc381adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 28/93] fix: escape attribute names in JSON attribute list

---
 src/reader/JsonFormatter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/JsonFormatter.cpp b/src/reader/JsonFormatter.cpp
index b348ff9..9097f0e 100644
--- a/src/reader/JsonFormatter.cpp
+++ b/src/reader/JsonFormatter.cpp
@@ -221,7 +221,8 @@ struct JsonFormatter::JsonFormatterImpl {
 
         int count = 0;
         for (const Attribute& a : attrs) {
-            os << (count++ > 0 ? ",\n" : "\n") << (m_opt_pretty ? "\t" : "") << '\"' << a.name() << "\": {";
+            os << (count++ > 0 ? ",\n" : "\n") << (m_opt_pretty ? "\t" : "");
+            util::write_json_esc_string(os << '\"', a.name()) << "\": {";
 
             // encode some properties
             os << "\"is_global\": " << (a.is_global() ? "true" : "false")
-- 
2.43.0


From 1f693221f3cb8edebd2cdb8d378b2653a15fc5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 29/93] fix: quote values that are not JSON literals

---
 src/reader/JsonFormatter.cpp      | 25 ++++++++++++++++++++++---
 src/reader/JsonSplitFormatter.cpp |  5 ++++-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/reader/JsonFormatter.cpp b/src/reader/JsonFormatter.cpp
index 9097f0e..b1b7855 100644
--- a/src/reader/JsonFormatter.cpp
+++ b/src/reader/JsonFormatter.cpp
@@ -16,6 +16,7 @@
 #include "../common/util/split.hpp"
 
 #include <algorithm>
+#include <cmath>
 #include <functional>
 #include <iterator>
 #include <mutex>
@@ -25,6 +26,26 @@
 
 using namespace cali;
 
+namespace
+{
+
+/// \brief Can \a val be written as JSON number or boolean?
+bool is_json_literal(const Variant& val)
+{
+    switch (val.type()) {
+    case CALI_TYPE_INT:
+    case CALI_TYPE_UINT:
+    case CALI_TYPE_BOOL:
+        return true;
+    case CALI_TYPE_DOUBLE:
+        return std::isfinite(val.to_double());
+    default:
+        return false;
+    }
+}
+
+} // namespace
+
 struct JsonFormatter::JsonFormatterImpl {
     std::set<std::string> m_selected;
 
@@ -146,9 +167,7 @@ struct JsonFormatter::JsonFormatterImpl {
                 if (key.empty())
                     continue;
 
-                cali_attr_type type = attr.type();
-
-                if (m_opt_quote_all || type == CALI_TYPE_STRING || type == CALI_TYPE_USR)
+                if (m_opt_quote_all || !is_json_literal(e.value()))
                     quote_kvs[std::move(key)] = e.value().to_string();
                 else
                     noquote_kvs[std::move(key)] = e.value().to_string();
diff --git a/src/reader/JsonSplitFormatter.cpp b/src/reader/JsonSplitFormatter.cpp
index ddca4c1..4d857c6 100644
--- a/src/reader/JsonSplitFormatter.cpp
+++ b/src/reader/JsonSplitFormatter.cpp
@@ -18,6 +18,7 @@
 #include "../common/util/format_util.h"
 
 #include <algorithm>
+#include <cmath>
 #include <functional>
 #include <iterator>
 #include <mutex>
@@ -276,10 +277,12 @@ struct JsonSplitFormatter::JsonSplitFormatterImpl {
     void write_immediate_entry(std::ostream& os, const EntryList& list, const Attribute& attr)
     {
         cali_attr_type type  = attr.type();
-        bool           quote = !(type == CALI_TYPE_INT || type == CALI_TYPE_UINT || type == CALI_TYPE_DOUBLE);
+        bool           isnum = (type == CALI_TYPE_INT || type == CALI_TYPE_UINT || type == CALI_TYPE_DOUBLE);
 
         for (const Entry& e : list)
             if (e.attribute() == attr.id()) {
+                bool quote = !isnum || (type == CALI_TYPE_DOUBLE && !std::isfinite(e.value().to_double()));
+
                 if (quote)
                     util::write_json_esc_string(os << "\"", e.value().to_string()) << "\"";
                 else
-- 
2.43.0


From f0c52b882cb11f497ad651e8a13ad01d9aa7035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 30/93] fix: keep values and columns apart in the json-split
 hierarchy

---
 src/reader/JsonSplitFormatter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reader/JsonSplitFormatter.cpp b/src/reader/JsonSplitFormatter.cpp
index 4d857c6..dbbd4c7 100644
--- a/src/reader/JsonSplitFormatter.cpp
+++ b/src/reader/JsonSplitFormatter.cpp
@@ -51,6 +51,8 @@ class Hierarchy
 
         const std::string& label() const { return m_label; }
 
+        const std::string& column() const { return m_column; }
+
         std::ostream& write_json(std::ostream& os) const
         {
             util::write_json_esc_string(os << "{ \"label\": \"", m_label) << "\"";
@@ -105,7 +107,8 @@ public:
             HierarchyNode* parent = node;
             std::string    label  = e.value().to_string();
 
-            for (node = parent->first_child(); node && (label != node->label()); node = node->next_sibling())
+            for (node = parent->first_child(); node && (label != node->label() || column != node->column());
+                 node = node->next_sibling())
                 ;
 
             if (!node) {
@@ -258,7 +261,8 @@ struct JsonSplitFormatter::JsonSplitFormatterImpl {
         std::vector<Entry> path;
 
         for (const Entry& e : list)
-            for (Node* node = e.node(); node && node->id() != CALI_INV_ID; node = node->parent())
+            for (Node* node = e.is_reference() ? e.node() : nullptr; node && node->id() != CALI_INV_ID;
+                 node       = node->parent())
                 for (const Attribute& a : path_attrs)
                     if (node->attribute() == a.id()) {
                         path.push_back(Entry(node));
-- 
2.43.0


From 5fc3780c5a655980ff7cacc9158493f8d6f87a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 31/93] fix: select nested regions in expand output

---
 src/reader/Expand.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/reader/Expand.cpp b/src/reader/Expand.cpp
index 885898e..d62aa7c 100644
--- a/src/reader/Expand.cpp
+++ b/src/reader/Expand.cpp
@@ -26,6 +26,9 @@ using namespace cali;
 struct Expand::ExpandImpl {
     std::set<std::string> m_selected;
 
+    bool m_select_list = false;
+    bool m_select_path = false;
+
     std::map<std::string, std::string> m_aliases;
 
     OutputStream m_os;
@@ -45,13 +48,20 @@ struct Expand::ExpandImpl {
             // doesn't make much sense
             break;
         case QuerySpec::AttributeSelection::List:
-            m_selected = std::set<std::string>(spec.select.list.begin(), spec.select.list.end());
+            m_selected    = std::set<std::string>(spec.select.list.begin(), spec.select.list.end());
+            m_select_list = true;
+            m_select_path = spec.select.use_path;
             break;
         }
 
         m_aliases = spec.aliases;
     }
 
+    bool is_selected(const Attribute& attr) const
+    {
+        return !m_select_list || m_selected.count(attr.name()) > 0 || (m_select_path && attr.is_nested());
+    }
+
     void print(CaliperMetadataAccessInterface& db, const EntryList& list)
     {
         int nentry = 0;
@@ -63,9 +73,7 @@ struct Expand::ExpandImpl {
                 std::vector<const Node*> nodes;
 
                 for (const Node* node = e.node(); node && node->attribute() != CALI_INV_ID; node = node->parent()) {
-                    std::string name = db.get_attribute(node->attribute()).name();
-
-                    if ((!m_selected.empty() && m_selected.count(name) == 0))
+                    if (!is_selected(db.get_attribute(node->attribute())))
                         continue;
 
                     nodes.push_back(node);
@@ -98,9 +106,10 @@ struct Expand::ExpandImpl {
                     os << (*it)->data().to_string();
                 }
             } else if (e.is_immediate()) {
-                std::string name = db.get_attribute(e.attribute()).name();
+                Attribute   attr = db.get_attribute(e.attribute());
+                std::string name = attr.name();
 
-                if ((!m_selected.empty() && m_selected.count(name) == 0))
+                if (!is_selected(attr))
                     continue;
 
                 {
-- 
2.43.0


From d6079c04ac7bcaddc8214feff4b0e92d8a0f0565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 32/93] fix: sort tree nodes and records without the sort
 attribute

---
 src/reader/SnapshotTree.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/reader/SnapshotTree.cpp b/src/reader/SnapshotTree.cpp
index d9cb9a6..7c4b61d 100644
--- a/src/reader/SnapshotTree.cpp
+++ b/src/reader/SnapshotTree.cpp
@@ -33,8 +33,12 @@ Variant SnapshotTreeNode::min_val(const Attribute& key)
             val = val ? std::min(val, (*it).second) : (*it).second;
     }
 
-    for (SnapshotTreeNode* node = first_child(); node; node = node->next_sibling())
-        val = val ? std::min(val, node->min_val(key)) : node->min_val(key);
+    for (SnapshotTreeNode* node = first_child(); node; node = node->next_sibling()) {
+        Variant child_val = node->min_val(key);
+
+        if (child_val)
+            val = val ? std::min(val, child_val) : child_val;
+    }
 
     m_v_min[key] = val;
     return val;
@@ -76,10 +80,10 @@ void SnapshotTreeNode::sort(const Attribute& key, bool ascending)
         auto l_it = std::find_if(lhs.begin(), lhs.end(), find_key);
         auto r_it = std::find_if(rhs.begin(), rhs.end(), find_key);
 
-        if (r_it == rhs.end())
-            return true;
         if (l_it == lhs.end())
             return false;
+        if (r_it == rhs.end())
+            return true;
 
         return ascending ? l_it->second < r_it->second : l_it->second > r_it->second;
     });
-- 
2.43.0


From 5502f631af9aa3ee63005f7c9ecf28d22fbfe1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:28 +0000
Subject: [PATCH 33/93] fix: don't throw on invalid field widths in format
 strings

---
 src/common/SnapshotTextFormatter.cpp | 8 +++++++-
 src/reader/UserFormatter.cpp         | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/common/SnapshotTextFormatter.cpp b/src/common/SnapshotTextFormatter.cpp
index 4a1d427..83229bb 100644
--- a/src/common/SnapshotTextFormatter.cpp
+++ b/src/common/SnapshotTextFormatter.cpp
@@ -9,6 +9,8 @@
 #include "caliper/common/CaliperMetadataAccessInterface.h"
 #include "caliper/common/Node.h"
 
+#include "StringConverter.h"
+
 #include "util/split.hpp"
 
 #include <algorithm>
@@ -70,7 +72,11 @@ struct cali::SnapshotTextFormatter::SnapshotTextFormatterImpl {
 
                 if (wfbegin >= 0 && wfend > wfbegin + 1) {
                     // we have a width specification field
-                    field.width = std::stoi(field_strings[wfbegin + 1]);
+                    bool ok    = false;
+                    int  width = StringConverter(field_strings[wfbegin + 1]).to_int(&ok);
+
+                    if (ok && width > 0)
+                        field.width = width;
 
                     if (wfbegin > 0)
                         apos = 0;
diff --git a/src/reader/UserFormatter.cpp b/src/reader/UserFormatter.cpp
index 1e65784..594f4f0 100644
--- a/src/reader/UserFormatter.cpp
+++ b/src/reader/UserFormatter.cpp
@@ -13,6 +13,8 @@
 #include "caliper/common/Node.h"
 #include "caliper/common/OutputStream.h"
 
+#include "../common/StringConverter.h"
+
 #include "../common/util/split.hpp"
 
 #include <algorithm>
@@ -81,7 +83,11 @@ struct UserFormatter::FormatImpl {
 
                 if (wfbegin >= 0 && wfend > wfbegin + 1) {
                     // width field specified
-                    field.width = stoi(field_strings[wfbegin + 1]);
+                    bool ok    = false;
+                    int  width = StringConverter(field_strings[wfbegin + 1]).to_int(&ok);
+
+                    if (ok && width > 0)
+                        field.width = width;
 
                     if (wfbegin > 0)
                         apos = 0;
-- 
2.43.0


From dfa93608103f0cf09031ed330fef346438f500ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:38 +0000
Subject: [PATCH 34/93] fix: indent short labels and record markers in the tree
 output

---
 src/reader/TreeFormatter.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/reader/TreeFormatter.cpp b/src/reader/TreeFormatter.cpp
index 924f489..097d3c2 100644
--- a/src/reader/TreeFormatter.cpp
+++ b/src/reader/TreeFormatter.cpp
@@ -241,12 +241,12 @@ struct TreeFormatter::TreeFormatterImpl {
             int width = column_width(m_path_column_width);
 
             std::string path_str;
-            path_str.append(std::min(2 * level, width - 2), ' ');
 
             if (2 * level >= width)
-                path_str.append("..");
+                path_str.append(width - 2, ' ').append("..");
             else
-                path_str.append(util::clamp_string(node->label_value().to_string(), width - 2 * level));
+                path_str.append(2 * level, ' ')
+                    .append(util::clamp_string(node->label_value().to_string(), width - 2 * level));
 
             util::pad_right(os, path_str, width);
         }
@@ -259,12 +259,11 @@ struct TreeFormatter::TreeFormatterImpl {
                 int width = column_width(m_path_column_width);
 
                 std::string path_str;
-                path_str.append(std::min(2 * level, width - 2), ' ');
 
-                if (2 * level >= width)
-                    path_str.append("..");
+                if (2 * level + 3 > width)
+                    path_str.append(width - 2, ' ').append("..");
                 else
-                    path_str.append(" |-");
+                    path_str.append(2 * level, ' ').append(" |-");
 
                 util::pad_right(os << "\n", path_str, width);
             }
@@ -308,6 +307,9 @@ struct TreeFormatter::TreeFormatterImpl {
     {
         int len = 2 * level + node->label_value().to_string().length();
 
+        if (node->records().size() > 1)
+            len = std::max(len, 2 * level + 3); // space for the " |-" record markers
+
         for (node = node->first_child(); node; node = node->next_sibling())
             len = std::max(len, recursive_max_path_label_width(node, level + 1));
 
-- 
2.43.0


From 3f38eec9b62fa7231ed39a831d38897823f3adb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:23 +0000
Subject: [PATCH 35/93] fix: count time in recursive regions once in flat
 inclusive profiles

---
 src/reader/FlatInclusiveRegionProfile.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/reader/FlatInclusiveRegionProfile.cpp b/src/reader/FlatInclusiveRegionProfile.cpp
index e51e3af..1358367 100644
--- a/src/reader/FlatInclusiveRegionProfile.cpp
+++ b/src/reader/FlatInclusiveRegionProfile.cpp
@@ -7,6 +7,7 @@
 
 #include <algorithm>
 #include <cstring>
+#include <set>
 
 using namespace cali;
 
@@ -32,8 +33,8 @@ struct FlatInclusiveRegionProfile::FlatInclusiveRegionProfileImpl {
         double val = metric_entry_it->value().to_double();
         total += val;
 
-        cali_id_t r_a_id         = region_attr.id();
-        bool      have_reg_entry = false;
+        cali_id_t             r_a_id = region_attr.id();
+        std::set<std::string> regions; // add the value just once for recursive regions
 
         for (const Entry& e : rec) {
             if (!e.is_reference())
@@ -43,14 +44,15 @@ struct FlatInclusiveRegionProfile::FlatInclusiveRegionProfileImpl {
                 cali_id_t n_a_id   = node->attribute();
                 bool is_target_reg = (r_a_id == CALI_INV_ID ? db.get_attribute(n_a_id).is_nested() : r_a_id == n_a_id);
 
-                if (is_target_reg) {
-                    have_reg_entry = true;
-                    reg_profile[node->data().to_string()] += val;
-                }
+                if (is_target_reg)
+                    regions.insert(node->data().to_string());
             }
         }
 
-        if (have_reg_entry)
+        for (const std::string& name : regions)
+            reg_profile[name] += val;
+
+        if (!regions.empty())
             total_reg += val;
     }
 };
-- 
2.43.0


From 204fefa0f162c9fc24cf2e26e5559642118f077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:34 +0000
Subject: [PATCH 36/93] fix: don't select all regions for region types that do
 not exist

---
 src/reader/FlatExclusiveRegionProfile.cpp   | 8 +++++++-
 src/reader/FlatInclusiveRegionProfile.cpp   | 8 +++++++-
 src/reader/NestedExclusiveRegionProfile.cpp | 8 +++++++-
 src/reader/NestedInclusiveRegionProfile.cpp | 8 +++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/reader/FlatExclusiveRegionProfile.cpp b/src/reader/FlatExclusiveRegionProfile.cpp
index 58aa984..ad0570f 100644
--- a/src/reader/FlatExclusiveRegionProfile.cpp
+++ b/src/reader/FlatExclusiveRegionProfile.cpp
@@ -17,6 +17,7 @@ struct FlatExclusiveRegionProfile::FlatExclusiveRegionProfileImpl {
 
     Attribute metric_attr;
     Attribute region_attr;
+    bool      all_regions = true;
 
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
@@ -32,6 +33,9 @@ struct FlatExclusiveRegionProfile::FlatExclusiveRegionProfileImpl {
         double val = metric_entry_it->value().to_double();
         total += val;
 
+        if (!all_regions && !region_attr)
+            return; // there are no regions of the requested type
+
         auto region_entry_it = rec.end();
 
         if (!region_attr)
@@ -60,8 +64,10 @@ FlatExclusiveRegionProfile::FlatExclusiveRegionProfile(
 {
     mP->metric_attr = db.get_attribute(metric_attr_name);
 
-    if (region_attr_name && strlen(region_attr_name) > 0)
+    if (region_attr_name && strlen(region_attr_name) > 0) {
         mP->region_attr = db.get_attribute(region_attr_name);
+        mP->all_regions = false;
+    }
 }
 
 void FlatExclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
diff --git a/src/reader/FlatInclusiveRegionProfile.cpp b/src/reader/FlatInclusiveRegionProfile.cpp
index 1358367..74d7154 100644
--- a/src/reader/FlatInclusiveRegionProfile.cpp
+++ b/src/reader/FlatInclusiveRegionProfile.cpp
@@ -18,6 +18,7 @@ struct FlatInclusiveRegionProfile::FlatInclusiveRegionProfileImpl {
 
     Attribute metric_attr;
     Attribute region_attr;
+    bool      all_regions = true;
 
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
@@ -33,6 +34,9 @@ struct FlatInclusiveRegionProfile::FlatInclusiveRegionProfileImpl {
         double val = metric_entry_it->value().to_double();
         total += val;
 
+        if (!all_regions && !region_attr)
+            return; // there are no regions of the requested type
+
         cali_id_t             r_a_id = region_attr.id();
         std::set<std::string> regions; // add the value just once for recursive regions
 
@@ -66,8 +70,10 @@ FlatInclusiveRegionProfile::FlatInclusiveRegionProfile(
 {
     mP->metric_attr = db.get_attribute(metric_attr_name);
 
-    if (region_attr_name && strlen(region_attr_name) > 0)
+    if (region_attr_name && strlen(region_attr_name) > 0) {
         mP->region_attr = db.get_attribute(region_attr_name);
+        mP->all_regions = false;
+    }
 }
 
 void FlatInclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
diff --git a/src/reader/NestedExclusiveRegionProfile.cpp b/src/reader/NestedExclusiveRegionProfile.cpp
index daa83fd..791415f 100644
--- a/src/reader/NestedExclusiveRegionProfile.cpp
+++ b/src/reader/NestedExclusiveRegionProfile.cpp
@@ -40,6 +40,7 @@ struct NestedExclusiveRegionProfile::NestedExclusiveRegionProfileImpl {
 
     Attribute metric_attr;
     Attribute region_attr;
+    bool      all_regions = true;
 
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
@@ -55,6 +56,9 @@ struct NestedExclusiveRegionProfile::NestedExclusiveRegionProfileImpl {
         double val = metric_entry_it->value().to_double();
         total += val;
 
+        if (!all_regions && !region_attr)
+            return; // there are no regions of the requested type
+
         cali_id_t r_a_id = region_attr.id();
 
         for (const Entry& e : rec) {
@@ -82,8 +86,10 @@ NestedExclusiveRegionProfile::NestedExclusiveRegionProfile(
 {
     mP->metric_attr = db.get_attribute(metric_attr_name);
 
-    if (region_attr_name && strlen(region_attr_name) > 0)
+    if (region_attr_name && strlen(region_attr_name) > 0) {
         mP->region_attr = db.get_attribute(region_attr_name);
+        mP->all_regions = false;
+    }
 }
 
 void NestedExclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
diff --git a/src/reader/NestedInclusiveRegionProfile.cpp b/src/reader/NestedInclusiveRegionProfile.cpp
index a5352dc..4ec5824 100644
--- a/src/reader/NestedInclusiveRegionProfile.cpp
+++ b/src/reader/NestedInclusiveRegionProfile.cpp
@@ -48,6 +48,7 @@ struct NestedInclusiveRegionProfile::NestedInclusiveRegionProfileImpl {
 
     Attribute metric_attr;
     Attribute region_attr;
+    bool      all_regions = true;
 
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
@@ -63,6 +64,9 @@ struct NestedInclusiveRegionProfile::NestedInclusiveRegionProfileImpl {
         double val = metric_entry_it->value().to_double();
         total += val;
 
+        if (!all_regions && !region_attr)
+            return; // there are no regions of the requested type
+
         cali_id_t   r_a_id = region_attr.id();
         std::string pathstr;
 
@@ -90,8 +94,10 @@ NestedInclusiveRegionProfile::NestedInclusiveRegionProfile(
 {
     mP->metric_attr = db.get_attribute(metric_attr_name);
 
-    if (region_attr_name && strlen(region_attr_name) > 0)
+    if (region_attr_name && strlen(region_attr_name) > 0) {
         mP->region_attr = db.get_attribute(region_attr_name);
+        mP->all_regions = false;
+    }
 }
 
 void NestedInclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
-- 
2.43.0


From 1ec51cb4a7b4d3bc18728a53e9ad07b863dd8ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:47 +0000
Subject: [PATCH 37/93] fix: select branches by the open regions in the event
 service

---
 src/services/event/EventTrigger.cpp | 50 +++++++++++++++++------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/services/event/EventTrigger.cpp b/src/services/event/EventTrigger.cpp
index 9e494c8..3448ee7 100644
--- a/src/services/event/EventTrigger.cpp
+++ b/src/services/event/EventTrigger.cpp
@@ -58,8 +58,6 @@ class EventTrigger
     RegionFilter region_filter;
     RegionFilter branch_filter;
 
-    std::vector<Variant> branch_filter_stack;
-
     std::string channel_name;
 
     //
@@ -143,6 +141,30 @@ class EventTrigger
         return attr.get(cali::subscription_event_attr).to_bool();
     }
 
+    //   Check if the given region, a value that is currently open for the given
+    // attribute, or a currently open nested region is selected by the branch filter.
+    bool is_in_branch(Caliper* c, const Attribute& attr, const Variant& value)
+    {
+        if (attr.type() == CALI_TYPE_STRING && branch_filter.pass(value))
+            return true;
+
+        const Entry entries[2] = { c->get_path_node(), c->get_blackboard_entry(attr) };
+
+        for (const Entry& e : entries) {
+            if (!e.is_reference())
+                continue;
+            for (const Node* node = e.node(); node && node->attribute() != CALI_INV_ID; node = node->parent()) {
+                Attribute node_attr = c->get_attribute(node->attribute());
+
+                if ((node_attr.is_nested() || node_attr == attr) && node_attr.type() == CALI_TYPE_STRING
+                    && branch_filter.pass(node->data()) && find_marker(node_attr))
+                    return true;
+            }
+        }
+
+        return false;
+    }
+
     //
     // --- Callbacks
     //
@@ -155,12 +177,8 @@ class EventTrigger
             return;
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
-        if (branch_filter.has_filters()) {
-            if (branch_filter.pass(value))
-                branch_filter_stack.push_back(value);
-            if (branch_filter_stack.empty())
-                return;
-        }
+        if (branch_filter.has_filters() && !is_in_branch(c, attr, value))
+            return;
 
         if (enable_snapshot_info) {
             assert(!marker_node->data().empty());
@@ -199,12 +217,8 @@ class EventTrigger
             return;
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
-        if (branch_filter.has_filters()) {
-            if (branch_filter.pass(value))
-                branch_filter_stack.push_back(value);
-            if (branch_filter_stack.empty())
-                return;
-        }
+        if (branch_filter.has_filters() && !is_in_branch(c, attr, value))
+            return;
 
         if (enable_snapshot_info) {
             assert(!marker_node->data().empty());
@@ -235,12 +249,8 @@ class EventTrigger
             return;
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
-        if (branch_filter.has_filters()) {
-            if (branch_filter_stack.empty())
-                return;
-            if (value == branch_filter_stack.back())
-                branch_filter_stack.pop_back();
-        }
+        if (branch_filter.has_filters() && !is_in_branch(c, attr, value))
+            return;
 
         if (enable_snapshot_info) {
             assert(!marker_node->data().empty());
-- 
2.43.0


From 08a5327438d4d42c6acd98d5bde101ecdb72c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:27 +0000
Subject: [PATCH 38/93] fix: don't convert negative numbers to unsigned in
 StringConverter

---
 src/common/StringConverter.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/common/StringConverter.cpp b/src/common/StringConverter.cpp
index 0a4e7b6..983c647 100644
--- a/src/common/StringConverter.cpp
+++ b/src/common/StringConverter.cpp
@@ -101,11 +101,16 @@ uint64_t cali::StringConverter::to_uint(bool* okptr, int base) const
     bool     ok  = false;
     uint64_t res = 0;
 
-    try {
-        res = std::stoull(m_str, nullptr, base);
-        ok  = true;
-    } catch (...) {
-        ok = false;
+    // stoull() wraps negative numbers, don't accept those
+    auto pos = std::find_if_not(m_str.begin(), m_str.end(), [](unsigned char c) { return std::isspace(c); });
+
+    if (pos != m_str.end() && *pos != '-') {
+        try {
+            res = std::stoull(m_str, nullptr, base);
+            ok  = true;
+        } catch (...) {
+            ok = false;
+        }
     }
 
     if (okptr)
-- 
2.43.0


From 06a317f68f53656b9ec50e1ff0dd982bb4992af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:27 +0000
Subject: [PATCH 39/93] fix: use the same value of a repeated option everywhere

---
 src/caliper/ConfigManager.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index 2bcf641..065583c 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -734,11 +734,21 @@ struct ConfigManager::Options::OptionsImpl {
     {
         std::vector<std::string> vec;
 
-        for (const auto& argp : args) {
+        for (auto arg_it = args.begin(); arg_it != args.end(); ++arg_it) {
+            const auto& argp = *arg_it;
+
             auto spec_it = spec.data.find(argp.first);
             if (spec_it == spec.data.end())
                 continue;
 
+            //   If there are multiple values for an option then the first one
+            // is used, like in get()
+            auto first_it = std::find_if(args.begin(), arg_it, [&argp](const std::pair<std::string, std::string>& p) {
+                return argp.first == p.first;
+            });
+            if (first_it != arg_it)
+                continue;
+
             //   Non-boolean options are enabled if they are present in args.
             // For boolean options, check if they are set to false or true.
             bool enabled = true;
-- 
2.43.0


From efed626528e382598cc41a9fae25c23b7c5221b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:27 +0000
Subject: [PATCH 40/93] fix: expand placeholders after an opening brace in
 option specs

---
 src/caliper/ConfigManager.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index 065583c..278a836 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -163,14 +163,10 @@ std::string expand_variables(const std::string& in, const std::string& val)
     while (is.good()) {
         char c = is.get();
 
-        if (c == '{') {
-            c = is.get();
-            if (c == '}') {
-                ret.append(val);
-                continue;
-            } else {
-                ret.push_back('{');
-            }
+        if (c == '{' && is.peek() == '}') {
+            is.get();
+            ret.append(val);
+            continue;
         }
 
         if (!is.good())
-- 
2.43.0


From cba4f2150a1104a17215d9bce728c484f5eb8d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:27 +0000
Subject: [PATCH 41/93] fix: report errors in a config spec's options

---
 src/caliper/ConfigManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index 278a836..20d6164 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -988,6 +988,8 @@ struct ConfigManager::ConfigManagerImpl {
 
         if (!ok)
             set_error(std::string("spec parse error: ") + util::clamp_string(spec.json, 48));
+        if (spec.opts.error())
+            set_error(spec.opts.error_msg());
         if (!m_error) {
             auto spec_p = std::make_shared<config_spec_t>(spec);
             m_spec.emplace(spec.name, spec_p);
-- 
2.43.0


From 49f4e6c363665e5cf2b5e32cb82d346d0c48f7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:27 +0000
Subject: [PATCH 42/93] fix: merge config profiles across files, the last
 definition is taken

---
 src/common/RuntimeConfig.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/common/RuntimeConfig.cpp b/src/common/RuntimeConfig.cpp
index ba90810..6fa4df4 100644
--- a/src/common/RuntimeConfig.cpp
+++ b/src/common/RuntimeConfig.cpp
@@ -167,6 +167,12 @@ struct RuntimeConfig::RuntimeConfigImpl {
         ::config_profile_t current_profile;
         std::string        current_profile_name { "default" };
 
+        // merge current profile into the profile DB, the last definition of a variable is taken
+        auto merge_current_profile = [&]() {
+            for (const auto& p : current_profile)
+                m_config_profiles[current_profile_name][p.first] = p.second;
+        };
+
         for (std::string line; std::getline(in, line);) {
             if (line.length() < 1)
                 continue;
@@ -177,9 +183,7 @@ struct RuntimeConfig::RuntimeConfigImpl {
                 std::string::size_type e = line.find_first_of(']');
 
                 if (b != std::string::npos && e != std::string::npos && b + 1 < e) {
-                    if (current_profile.size() > 0)
-                        m_config_profiles[current_profile_name].insert(current_profile.begin(), current_profile.end());
-
+                    merge_current_profile();
                     current_profile.clear();
                     current_profile_name = line.substr(b + 1, e - b - 1);
                 } else {
@@ -195,8 +199,7 @@ struct RuntimeConfig::RuntimeConfigImpl {
             }
         }
 
-        if (current_profile.size() > 0)
-            m_config_profiles[current_profile_name] = current_profile;
+        merge_current_profile();
     }
 
     void read_config_files(const std::vector<std::string>& filenames)
-- 
2.43.0


From 622fb2b4c5a44c5fcf1d5140606844ecc7224b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 43/93] fix: don't recurse endlessly into options that inherit
 each other

---
 src/caliper/ConfigManager.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index 20d6164..1cee37f 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -709,19 +709,29 @@ struct ConfigManager::Options::OptionsImpl {
         return ret;
     }
 
-    std::vector<std::string> get_inherited_specs(const std::string& name)
+    void add_inherited_specs(const std::string& name, std::vector<std::string>& visited, std::vector<std::string>& ret)
     {
-        std::vector<std::string> ret;
-
         auto spec_it = spec.data.find(name);
         if (spec_it == spec.data.end())
-            return ret;
+            return;
+        // options may inherit each other
+        if (std::find(visited.begin(), visited.end(), name) != visited.end())
+            return;
+
+        visited.push_back(name);
 
         for (const std::string& inh : spec_it->second.inherited_specs) {
-            auto tmp = get_inherited_specs(inh);
-            ret.insert(ret.end(), tmp.begin(), tmp.end());
+            add_inherited_specs(inh, visited, ret);
             ret.push_back(inh);
         }
+    }
+
+    std::vector<std::string> get_inherited_specs(const std::string& name)
+    {
+        std::vector<std::string> visited;
+        std::vector<std::string> ret;
+
+        add_inherited_specs(name, visited, ret);
 
         return ret;
     }
-- 
2.43.0


From a9984bf5615b804f65895a03d7c704514a5bb2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 44/93] fix: don't access invalid channels in
 cali_channel_get(), cali_channel_flush(), and cali_create_channel()

---
 src/caliper/cali.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index a389a34..54e136b 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -339,10 +339,14 @@ cali_variant_t cali_get(cali_id_t attr_id)
 
 cali_variant_t cali_channel_get(cali_id_t chn_id, cali_id_t attr_id)
 {
-    Caliper c       = Caliper::sigsafe_instance();
+    Caliper c = Caliper::sigsafe_instance();
+
+    if (!c)
+        return cali_make_empty_variant();
+
     Channel channel = c.get_channel(chn_id);
 
-    if (!c || !channel)
+    if (!channel)
         return cali_make_empty_variant();
 
     return c.get(channel.body(), c.get_attribute(attr_id)).value().c_variant();
@@ -648,7 +652,8 @@ cali_id_t cali_create_channel(const char* name, int flags, cali_configset_t cfgs
     RuntimeConfig cfg;
 
     cfg.allow_read_env(flags & CALI_CHANNEL_ALLOW_READ_ENV);
-    cfg.import(cfgset->cfgset);
+    if (cfgset)
+        cfg.import(cfgset->cfgset);
 
     Caliper c;
     Channel channel = c.create_channel(name, cfg);
@@ -724,6 +729,11 @@ void cali_channel_flush(cali_id_t chn_id, int flush_opts)
     Caliper c;
     Channel channel = c.get_channel(chn_id);
 
+    if (!channel) {
+        Log(0).stream() << "cali_channel_flush(): invalid channel id " << chn_id << std::endl;
+        return;
+    }
+
     c.flush_and_write(channel.body(), SnapshotView());
 
     if (flush_opts & CALI_FLUSH_CLEAR_BUFFERS)
-- 
2.43.0


From 3f43bfa36cac715728cc522a0c3085c660220083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 45/93] fix: make API calls after finalization and with invalid
 attributes harmless

---
 include/caliper/Caliper.h |   5 ++
 src/caliper/Caliper.cpp   | 130 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 132 insertions(+), 3 deletions(-)

diff --git a/include/caliper/Caliper.h b/include/caliper/Caliper.h
index 883e5c4..8a7aa73 100644
--- a/include/caliper/Caliper.h
+++ b/include/caliper/Caliper.h
@@ -227,6 +227,11 @@ class Caliper : public CaliperMetadataAccessInterface
 
     Caliper(GlobalData* g, ThreadData* t, bool sig) : sG(g), sT(t), m_is_signal(sig) {}
 
+    //   There is no global data before initialization and after finalization,
+    // and no thread data for unknown threads in signal handlers. API calls have
+    // no effect then.
+    bool is_valid() const { return sG && sT; }
+
     void release_thread();
 
 public:
diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index c0c4e14..a73aad6 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -679,7 +679,8 @@ Attribute Caliper::create_attribute(
     const Variant*     meta_val
 )
 {
-    assert(sG != 0);
+    if (!is_valid())
+        return Attribute();
 
     std::lock_guard<::siglock> g(sT->lock);
 
@@ -699,7 +700,8 @@ Attribute Caliper::create_attribute(
 
     // Add metadata nodes.
     for (int n = 0; n < n_meta; ++n)
-        node = sT->tree.get_child(meta_attr[n], meta_val[n], node);
+        if (meta_attr[n])
+            node = sT->tree.get_child(meta_attr[n], meta_val[n], node);
 
     // Look for attribute properties in presets
     auto propit = sG->attribute_prop_presets.find(name);
@@ -755,6 +757,9 @@ Attribute Caliper::create_attribute(
 
 Attribute Caliper::get_attribute(const std::string& name) const
 {
+    if (!is_valid())
+        return Attribute();
+
     std::lock_guard<::siglock>  gs(sT->lock);
     std::lock_guard<std::mutex> ga(sG->attribute_lock);
 
@@ -764,12 +769,18 @@ Attribute Caliper::get_attribute(const std::string& name) const
 
 Attribute Caliper::get_attribute(cali_id_t id) const
 {
+    if (!is_valid())
+        return Attribute();
+
     // no signal lock necessary
     return Attribute::make_attribute(sT->tree.node(id));
 }
 
 std::vector<Attribute> Caliper::get_all_attributes() const
 {
+    if (!is_valid())
+        return {};
+
     std::lock_guard<::siglock>  g(sT->lock);
     std::lock_guard<std::mutex> g_a(sG->attribute_lock);
 
@@ -798,6 +809,9 @@ void Caliper::memory_region_begin(
     const Variant*   extra_vals
 )
 {
+    if (!is_valid())
+        return;
+
     for (auto& channel : sG->active_channels)
         memory_region_begin(channel.body(), ptr, label, elem_size, ndim, dims, nextra, extra_attrs, extra_vals);
 }
@@ -805,6 +819,9 @@ void Caliper::memory_region_begin(
 /// Dispatch memory region annotation end across all active channels
 void Caliper::memory_region_end(const void* ptr)
 {
+    if (!is_valid())
+        return;
+
     for (auto& channel : sG->active_channels)
         memory_region_end(channel.body(), ptr);
 }
@@ -813,6 +830,9 @@ void Caliper::memory_region_end(const void* ptr)
 /// blackboard.
 std::vector<Entry> Caliper::get_globals()
 {
+    if (!is_valid())
+        return {};
+
     std::lock_guard<::siglock> g(sT->lock);
 
     return get_globals_from_blackboard(this, sG->process_blackboard, sG->process_blackboard_lock);
@@ -822,6 +842,9 @@ std::vector<Entry> Caliper::get_globals()
 /// and the process blackboard.
 std::vector<Entry> Caliper::get_globals(ChannelBody* chB)
 {
+    if (!is_valid())
+        return {};
+
     std::lock_guard<::siglock> g(sT->lock);
 
     std::vector<Entry> ret = get_globals_from_blackboard(this, sG->process_blackboard, sG->process_blackboard_lock);
@@ -836,6 +859,9 @@ std::vector<Entry> Caliper::get_globals(ChannelBody* chB)
 
 void Caliper::pull_context(SnapshotBuilder& rec)
 {
+    if (!is_valid())
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     // Get thread blackboard data
@@ -848,6 +874,9 @@ void Caliper::pull_context(SnapshotBuilder& rec)
 
 void Caliper::pull_snapshot(ChannelBody* chB, SnapshotView trigger_info, SnapshotBuilder& rec)
 {
+    if (!is_valid())
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     rec.append(trigger_info);
@@ -860,6 +889,9 @@ void Caliper::pull_snapshot(ChannelBody* chB, SnapshotView trigger_info, Snapsho
 
 void Caliper::push_snapshot(ChannelBody* chB, SnapshotView trigger_info)
 {
+    if (!is_valid())
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     sT->snapshot.reset();
@@ -877,6 +909,9 @@ void Caliper::push_snapshot(ChannelBody* chB, SnapshotView trigger_info)
 
 void Caliper::push_snapshot_replace(ChannelBody* chB, SnapshotView trigger_info, const Entry& target)
 {
+    if (!is_valid())
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     sT->snapshot.reset();
@@ -896,6 +931,9 @@ void Caliper::push_snapshot_replace(ChannelBody* chB, SnapshotView trigger_info,
 
 void Caliper::flush(ChannelBody* chB, SnapshotView flush_info, SnapshotFlushFn proc_fn)
 {
+    if (!is_valid())
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     chB->events.pre_flush_evt(this, chB, flush_info);
@@ -919,6 +957,9 @@ void Caliper::flush(ChannelBody* chB, SnapshotView flush_info, SnapshotFlushFn p
 
 void Caliper::flush_and_write(ChannelBody* chB, SnapshotView input_flush_info)
 {
+    if (!is_valid())
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     SnapshotRecord flush_info;
@@ -941,6 +982,9 @@ void Caliper::flush_and_write(ChannelBody* chB, SnapshotView input_flush_info)
 
 void Caliper::clear(Channel* chn)
 {
+    if (!is_valid())
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     chn->mP->events.clear_evt(this, chn);
@@ -950,6 +994,9 @@ void Caliper::clear(Channel* chn)
 
 void Caliper::begin(const Attribute& attr, const Variant& data)
 {
+    if (!is_valid() || !attr)
+        return;
+
     if (sT->stack_error)
         return;
 
@@ -986,6 +1033,9 @@ void Caliper::begin(const Attribute& attr, const Variant& data)
 
 void Caliper::end(const Attribute& attr)
 {
+    if (!is_valid() || !attr)
+        return;
+
     if (sT->stack_error)
         return;
 
@@ -1030,6 +1080,9 @@ void Caliper::end(const Attribute& attr)
 
 void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 {
+    if (!is_valid() || !attr)
+        return;
+
     if (sT->stack_error)
         return;
 
@@ -1075,6 +1128,9 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 
 void Caliper::set(const Attribute& attr, const Variant& data)
 {
+    if (!is_valid() || !attr)
+        return;
+
     if (sT->stack_error)
         return;
 
@@ -1103,6 +1159,9 @@ void Caliper::set(const Attribute& attr, const Variant& data)
 
 void Caliper::async_event(SnapshotView info)
 {
+    if (!is_valid())
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     for (auto& channel : sG->active_channels)
@@ -1111,6 +1170,9 @@ void Caliper::async_event(SnapshotView info)
 
 void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
+    if (!is_valid() || !attr)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1132,6 +1194,9 @@ void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data
 
 void Caliper::end(ChannelBody* chB, const Attribute& attr)
 {
+    if (!is_valid() || !attr)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1162,6 +1227,9 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
 
 void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
+    if (!is_valid() || !attr)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1179,6 +1247,9 @@ void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
 
 Entry Caliper::get(const Attribute& attr)
 {
+    if (!is_valid() || !attr)
+        return Entry();
+
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
@@ -1198,6 +1269,9 @@ Entry Caliper::get(const Attribute& attr)
 
 Entry Caliper::get_blackboard_entry(const Attribute& attr)
 {
+    if (!is_valid() || !attr)
+        return Entry();
+
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
@@ -1217,6 +1291,9 @@ Entry Caliper::get_blackboard_entry(const Attribute& attr)
 
 Entry Caliper::get(ChannelBody* chB, const Attribute& attr)
 {
+    if (!is_valid() || !attr)
+        return Entry();
+
     cali_id_t key = get_blackboard_key(attr.id(), attr.properties());
 
     std::lock_guard<::siglock> g(sT->lock);
@@ -1227,6 +1304,9 @@ Entry Caliper::get(ChannelBody* chB, const Attribute& attr)
 
 Entry Caliper::get_path_node()
 {
+    if (!is_valid())
+        return Entry();
+
     Entry e;
 
     {
@@ -1261,12 +1341,18 @@ void Caliper::memory_region_begin(
     const Variant*   extra_vals
 )
 {
+    if (!is_valid())
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
     chB->events.track_mem_evt(this, chB, ptr, label, elem_size, ndims, dims, n, extra_attrs, extra_vals);
 }
 
 void Caliper::memory_region_end(ChannelBody* chB, const void* ptr)
 {
+    if (!is_valid())
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
     chB->events.untrack_mem_evt(this, chB, ptr);
 }
@@ -1275,12 +1361,17 @@ void Caliper::memory_region_end(ChannelBody* chB, const void* ptr)
 
 void Caliper::make_record(size_t n, const Attribute attr[], const Variant value[], SnapshotBuilder& rec, Node* parent)
 {
+    if (!is_valid())
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     Node* node = parent;
 
     for (size_t i = 0; i < n; ++i)
-        if (attr[i].store_as_value())
+        if (!attr[i])
+            continue;
+        else if (attr[i].store_as_value())
             rec.append(Entry(attr[i], value[i]));
         else
             node = sT->tree.get_child(attr[i], value[i], node);
@@ -1291,30 +1382,45 @@ void Caliper::make_record(size_t n, const Attribute attr[], const Variant value[
 
 Node* Caliper::make_tree_entry(size_t n, const Node* nodelist[], Node* parent)
 {
+    if (!is_valid())
+        return nullptr;
+
     std::lock_guard<::siglock> g(sT->lock);
     return sT->tree.get_path(n, nodelist, parent);
 }
 
 Node* Caliper::make_tree_entry(const Attribute& attr, const Variant& data, Node* parent)
 {
+    if (!is_valid())
+        return nullptr;
+
     std::lock_guard<::siglock> g(sT->lock);
     return sT->tree.get_child(attr, data, parent);
 }
 
 Node* Caliper::make_tree_entry(const Attribute& attr, size_t n, const Variant data[], Node* parent)
 {
+    if (!is_valid())
+        return nullptr;
+
     std::lock_guard<::siglock> g(sT->lock);
     return sT->tree.get_path(attr, n, data, parent);
 }
 
 Node* Caliper::node(cali_id_t id) const
 {
+    if (!is_valid())
+        return nullptr;
+
     // no siglock necessary
     return sT->tree.node(id);
 }
 
 Variant Caliper::exchange(const Attribute& attr, const Variant& data)
 {
+    if (!is_valid() || !attr)
+        return Variant();
+
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
@@ -1341,6 +1447,9 @@ Variant Caliper::exchange(const Attribute& attr, const Variant& data)
 
 Channel Caliper::create_channel(const char* name, const RuntimeConfig& cfg)
 {
+    if (!is_valid())
+        return Channel();
+
     std::lock_guard<::siglock> g(sT->lock);
 
     Log(1).stream() << "Creating channel " << name << std::endl;
@@ -1383,6 +1492,9 @@ Channel Caliper::create_channel(const char* name, const RuntimeConfig& cfg)
 
 Channel Caliper::get_channel(cali_id_t id)
 {
+    if (!is_valid())
+        return Channel();
+
     auto it = std::find_if(sG->all_channels.begin(), sG->all_channels.end(), [id](const Channel& channel) {
         return id == channel.id();
     });
@@ -1392,11 +1504,17 @@ Channel Caliper::get_channel(cali_id_t id)
 
 std::vector<Channel> Caliper::get_all_channels()
 {
+    if (!is_valid())
+        return {};
+
     return sG->all_channels;
 }
 
 void Caliper::delete_channel(Channel& channel)
 {
+    if (!is_valid())
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     channel.mP->events.pre_finish_evt(this, &channel);
@@ -1415,6 +1533,9 @@ void Caliper::delete_channel(Channel& channel)
 
 void Caliper::activate_channel(Channel& channel)
 {
+    if (!is_valid())
+        return;
+
     channel.mP->is_active = true;
 
     auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
@@ -1426,6 +1547,9 @@ void Caliper::activate_channel(Channel& channel)
 
 void Caliper::deactivate_channel(Channel& channel)
 {
+    if (!is_valid())
+        return;
+
     auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
     if (it != sG->active_channels.end())
         sG->active_channels.erase(it);
-- 
2.43.0


From 4b559a26bd0497bb8675aed8fe8633329cb5628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 46/93] fix: don't access attributes after finalization in
 Annotation and TimedAsyncEvent

---
 src/caliper/Annotation.cpp | 38 +++++++++++++++++++++++++++++---------
 src/caliper/AsyncEvent.cpp |  8 ++++++++
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/caliper/Annotation.cpp b/src/caliper/Annotation.cpp
index 8a7926f..139429e 100644
--- a/src/caliper/Annotation.cpp
+++ b/src/caliper/Annotation.cpp
@@ -146,7 +146,11 @@ struct Annotation::Impl {
 
     void begin(const Variant& data)
     {
-        Caliper   c;
+        Caliper c;
+
+        if (!c)
+            return;
+
         Attribute attr = get_attribute(c, data.type());
 
         if (attr.type() == data.type() && attr.type() != CALI_TYPE_INV)
@@ -155,7 +159,11 @@ struct Annotation::Impl {
 
     void set(const Variant& data)
     {
-        Caliper   c;
+        Caliper c;
+
+        if (!c)
+            return;
+
         Attribute attr = get_attribute(c, data.type());
 
         if ((attr.type() == data.type()) && attr.type() != CALI_TYPE_INV)
@@ -164,13 +172,25 @@ struct Annotation::Impl {
 
     void end()
     {
-        Caliper   c;
+        Caliper c;
+
+        if (!c)
+            return;
+
         Attribute attr = Attribute::make_attribute(m_attr_node.load());
 
         if (attr)
             c.end(attr);
     }
 
+    //   Returns the type of the attribute if it has been created already. The
+    // attribute does not exist anymore after finalization.
+    cali_attr_type get_existing_type() const
+    {
+        cali::Node* attr_node = m_attr_node.load();
+        return attr_node && Caliper() ? Attribute::make_attribute(attr_node).type() : CALI_TYPE_INV;
+    }
+
     Attribute get_attribute(Caliper& c, cali_attr_type type)
     {
         cali::Node* attr_node = m_attr_node.load();
@@ -253,12 +273,12 @@ Annotation& Annotation::begin()
 
 Annotation& Annotation::begin(int data)
 {
-    Attribute attr = Attribute::make_attribute(pI->m_attr_node.load());
+    cali_attr_type type = pI->get_existing_type();
 
     // special case: allow assignment of int values to 'double' or 'uint' attributes
-    if (attr && attr.type() == CALI_TYPE_DOUBLE)
+    if (type == CALI_TYPE_DOUBLE)
         return begin(Variant(static_cast<double>(data)));
-    if (attr && attr.type() == CALI_TYPE_UINT)
+    if (type == CALI_TYPE_UINT)
         return begin(Variant(static_cast<uint64_t>(data)));
 
     return begin(Variant(data));
@@ -279,12 +299,12 @@ Annotation& Annotation::begin(const Variant& data)
 
 Annotation& Annotation::set(int data)
 {
-    Attribute attr = Attribute::make_attribute(pI->m_attr_node.load());
+    cali_attr_type type = pI->get_existing_type();
 
     // special case: allow assignment of int values to 'double' or 'uint' attributes
-    if (attr && attr.type() == CALI_TYPE_DOUBLE)
+    if (type == CALI_TYPE_DOUBLE)
         return set(Variant(static_cast<double>(data)));
-    if (attr && attr.type() == CALI_TYPE_UINT)
+    if (type == CALI_TYPE_UINT)
         return set(Variant(static_cast<uint64_t>(data)));
 
     return set(Variant(data));
diff --git a/src/caliper/AsyncEvent.cpp b/src/caliper/AsyncEvent.cpp
index aea6cbd..1fb61e0 100644
--- a/src/caliper/AsyncEvent.cpp
+++ b/src/caliper/AsyncEvent.cpp
@@ -62,6 +62,10 @@ void TimedAsyncEvent::end()
     uint64_t nsec = std::chrono::duration_cast<std::chrono::nanoseconds>(clock::now() - start_time_).count();
 
     Caliper c;
+
+    if (!c || !end_tree_node_)
+        return;
+
     Attribute duration_attr = ::get_event_duration_attr(c);
     const Entry data[2] = {
         { end_tree_node_ }, { duration_attr, cali_make_variant_from_uint(nsec) }
@@ -73,6 +77,10 @@ void TimedAsyncEvent::end()
 TimedAsyncEvent TimedAsyncEvent::begin(const char* message)
 {
     Caliper c;
+
+    if (!c)
+        return TimedAsyncEvent();
+
     Attribute begin_attr = ::get_async_event_begin_attr(c);
     Attribute end_attr = ::get_async_event_end_attr(c);
 
-- 
2.43.0


From ac9e515606c47b1791c9f36147155171ec75fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 47/93] fix: initialize context tree block table so node()
 finds no nodes in unused blocks

---
 src/caliper/MetadataTree.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index 955e52a..d2b6519 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -29,7 +29,8 @@ MetadataTree::GlobalData::GlobalData(MemoryPool& pool)
     num_blocks      = std::max<uint64_t>(config.get("num_blocks").to_uint(), 1);
     nodes_per_block = std::max<uint64_t>(std::min<uint64_t>(config.get("nodes_per_block").to_uint(), 256), 16);
 
-    node_blocks = new NodeBlock[num_blocks];
+    // blocks that aren't in use are empty
+    node_blocks = new NodeBlock[num_blocks]();
 
     Node* chunk = pool.aligned_alloc<Node>(nodes_per_block);
 
-- 
2.43.0


From 23c020ffc2d08ee10dbc8d629832a84d530032ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:51 +0000
Subject: [PATCH 48/93] fix: don't create attributes with an invalid type

---
 src/caliper/Caliper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index a73aad6..0a7f50c 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -693,6 +693,11 @@ Attribute Caliper::create_attribute(
             return it->second;
     }
 
+    if (type <= CALI_TYPE_INV || type > CALI_MAXTYPE) {
+        Log(0).stream() << "create_attribute(): Invalid type for attribute " << name << std::endl;
+        return Attribute();
+    }
+
     Node* node = nullptr;
 
     // Get type node
-- 
2.43.0


From 3b9f88e02e6c2b9a9e3dad119a7b7128680c21dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:56 +0000
Subject: [PATCH 49/93] fix: delete channels once, and detach deleted channels
 from the runtime

---
 src/caliper/Caliper.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 0a7f50c..9b75228 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1355,7 +1355,7 @@ void Caliper::memory_region_begin(
 
 void Caliper::memory_region_end(ChannelBody* chB, const void* ptr)
 {
-    if (!is_valid())
+    if (!is_valid() || !chB)
         return;
 
     std::lock_guard<::siglock> g(sT->lock);
@@ -1522,18 +1522,29 @@ void Caliper::delete_channel(Channel& channel)
 
     std::lock_guard<::siglock> g(sT->lock);
 
-    channel.mP->events.pre_finish_evt(this, &channel);
+    auto it = std::find(sG->all_channels.begin(), sG->all_channels.end(), channel);
+    if (it == sG->all_channels.end())
+        return; // not a channel, or it has been deleted already
 
-    Log(1).stream() << "Releasing channel " << channel.name() << std::endl;
+    //   Keep our own reference to the channel while we're working with it:
+    // callbacks may reset the given handle.
+    Channel chn(channel);
 
-    auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
-    if (it != sG->active_channels.end())
-        sG->active_channels.erase(it);
-    it = std::find(sG->all_channels.begin(), sG->all_channels.end(), channel);
+    chn.mP->events.pre_finish_evt(this, &chn);
+
+    Log(1).stream() << "Releasing channel " << chn.name() << std::endl;
+
+    deactivate_channel(chn);
+
+    it = std::find(sG->all_channels.begin(), sG->all_channels.end(), chn);
     if (it != sG->all_channels.end())
         sG->all_channels.erase(it);
 
-    channel.mP->events.finish_evt(this, &channel);
+    chn.mP->events.finish_evt(this, &chn);
+
+    //   The services are gone now. Remove their callbacks in case there are
+    // other handles for this channel.
+    chn.mP->events = Channel::Events();
 }
 
 void Caliper::activate_channel(Channel& channel)
@@ -1541,6 +1552,10 @@ void Caliper::activate_channel(Channel& channel)
     if (!is_valid())
         return;
 
+    // skip invalid and deleted channels
+    if (std::find(sG->all_channels.begin(), sG->all_channels.end(), channel) == sG->all_channels.end())
+        return;
+
     channel.mP->is_active = true;
 
     auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
-- 
2.43.0


From 25ff25186259e49e5ed7c05b5a91130465249ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:56 +0000
Subject: [PATCH 50/93] fix: make API calls with empty channel handles harmless

---
 src/caliper/Caliper.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 9b75228..f85ea5d 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -847,7 +847,7 @@ std::vector<Entry> Caliper::get_globals()
 /// and the process blackboard.
 std::vector<Entry> Caliper::get_globals(ChannelBody* chB)
 {
-    if (!is_valid())
+    if (!is_valid() || !chB)
         return {};
 
     std::lock_guard<::siglock> g(sT->lock);
@@ -879,7 +879,7 @@ void Caliper::pull_context(SnapshotBuilder& rec)
 
 void Caliper::pull_snapshot(ChannelBody* chB, SnapshotView trigger_info, SnapshotBuilder& rec)
 {
-    if (!is_valid())
+    if (!is_valid() || !chB)
         return;
 
     std::lock_guard<::siglock> g(sT->lock);
@@ -894,7 +894,7 @@ void Caliper::pull_snapshot(ChannelBody* chB, SnapshotView trigger_info, Snapsho
 
 void Caliper::push_snapshot(ChannelBody* chB, SnapshotView trigger_info)
 {
-    if (!is_valid())
+    if (!is_valid() || !chB)
         return;
 
     std::lock_guard<::siglock> g(sT->lock);
@@ -914,7 +914,7 @@ void Caliper::push_snapshot(ChannelBody* chB, SnapshotView trigger_info)
 
 void Caliper::push_snapshot_replace(ChannelBody* chB, SnapshotView trigger_info, const Entry& target)
 {
-    if (!is_valid())
+    if (!is_valid() || !chB)
         return;
 
     std::lock_guard<::siglock> g(sT->lock);
@@ -936,7 +936,7 @@ void Caliper::push_snapshot_replace(ChannelBody* chB, SnapshotView trigger_info,
 
 void Caliper::flush(ChannelBody* chB, SnapshotView flush_info, SnapshotFlushFn proc_fn)
 {
-    if (!is_valid())
+    if (!is_valid() || !chB)
         return;
 
     std::lock_guard<::siglock> g(sT->lock);
@@ -962,7 +962,7 @@ void Caliper::flush(ChannelBody* chB, SnapshotView flush_info, SnapshotFlushFn p
 
 void Caliper::flush_and_write(ChannelBody* chB, SnapshotView input_flush_info)
 {
-    if (!is_valid())
+    if (!is_valid() || !chB)
         return;
 
     std::lock_guard<::siglock> g(sT->lock);
@@ -987,7 +987,7 @@ void Caliper::flush_and_write(ChannelBody* chB, SnapshotView input_flush_info)
 
 void Caliper::clear(Channel* chn)
 {
-    if (!is_valid())
+    if (!is_valid() || !chn || !*chn)
         return;
 
     std::lock_guard<::siglock> g(sT->lock);
@@ -1175,7 +1175,7 @@ void Caliper::async_event(SnapshotView info)
 
 void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
-    if (!is_valid() || !attr)
+    if (!is_valid() || !chB || !attr)
         return;
 
     int  prop       = attr.properties();
@@ -1199,7 +1199,7 @@ void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data
 
 void Caliper::end(ChannelBody* chB, const Attribute& attr)
 {
-    if (!is_valid() || !attr)
+    if (!is_valid() || !chB || !attr)
         return;
 
     int  prop       = attr.properties();
@@ -1232,7 +1232,7 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
 
 void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
-    if (!is_valid() || !attr)
+    if (!is_valid() || !chB || !attr)
         return;
 
     int  prop       = attr.properties();
@@ -1296,7 +1296,7 @@ Entry Caliper::get_blackboard_entry(const Attribute& attr)
 
 Entry Caliper::get(ChannelBody* chB, const Attribute& attr)
 {
-    if (!is_valid() || !attr)
+    if (!is_valid() || !chB || !attr)
         return Entry();
 
     cali_id_t key = get_blackboard_key(attr.id(), attr.properties());
@@ -1346,7 +1346,7 @@ void Caliper::memory_region_begin(
     const Variant*   extra_vals
 )
 {
-    if (!is_valid())
+    if (!is_valid() || !chB)
         return;
 
     std::lock_guard<::siglock> g(sT->lock);
@@ -1567,7 +1567,7 @@ void Caliper::activate_channel(Channel& channel)
 
 void Caliper::deactivate_channel(Channel& channel)
 {
-    if (!is_valid())
+    if (!is_valid() || !channel)
         return;
 
     auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
-- 
2.43.0


From adc6b6cba25b4cae2aa1c224bf2bbb3f68ac93d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:11 +0000
Subject: [PATCH 51/93] fix: keep copies of blobs and immediate strings in
 CaliperMetadataDB

---
 src/reader/CaliperMetadataDB.cpp | 45 +++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index 8afcc56..b43010d 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -14,6 +14,7 @@
 #include <iostream>
 #include <map>
 #include <mutex>
+#include <set>
 #include <vector>
 
 using namespace cali;
@@ -40,6 +41,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
     mutable std::mutex           m_attribute_lock;
 
     std::vector<const char*> m_string_db;
+    std::set<std::string>    m_blob_db;
     mutable std::mutex       m_string_db_lock;
 
     std::vector<Entry> m_globals;
@@ -142,6 +144,21 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
         return Variant(CALI_TYPE_STRING, ptr, len);
     }
 
+    /// \brief Return a variant whose data is kept in this database
+    Variant make_managed_variant(const Variant& v)
+    {
+        if (v.type() == CALI_TYPE_STRING)
+            return make_string_variant(static_cast<const char*>(v.data()), v.size());
+        if (v.type() == CALI_TYPE_USR) {
+            std::lock_guard<std::mutex> g(m_string_db_lock);
+
+            auto it = m_blob_db.emplace(static_cast<const char*>(v.data()), v.size()).first;
+            return Variant(CALI_TYPE_USR, it->data(), it->size());
+        }
+
+        return v;
+    }
+
     Variant make_variant(cali_attr_type type, const std::string& str)
     {
         Variant ret;
@@ -260,12 +277,10 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
         Node* attr_node = recursive_merge_node(db.node(node->attribute()), db);
         Node* parent    = recursive_merge_node(node->parent(), db);
 
-        Variant v_data = node->data();
-
-        if (!attr_node || v_data.empty()) // skip invalid nodes
+        if (!attr_node || node->data().empty()) // skip invalid nodes
             return parent;
-        if (v_data.type() == CALI_TYPE_STRING)
-            v_data = make_string_variant(static_cast<const char*>(v_data.data()), v_data.size());
+
+        Variant v_data = make_managed_variant(node->data());
 
         return merge_node(node->id(), attr_node->id(), parent ? parent->id() : CALI_INV_ID, v_data);
     }
@@ -283,7 +298,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
             if (e.is_reference())
                 list.push_back(Entry(node));
             else if (e.is_immediate())
-                list.push_back(Entry(Attribute::make_attribute(node), e.value()));
+                list.push_back(Entry(Attribute::make_attribute(node), make_managed_variant(e.value())));
         }
 
         return list;
@@ -337,10 +352,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
             if (attr[i].store_as_value())
                 continue;
 
-            Variant v_data(data[i]);
-
-            if (v_data.type() == CALI_TYPE_STRING)
-                v_data = make_string_variant(static_cast<const char*>(data[i].data()), data[i].size());
+            Variant v_data(make_managed_variant(data[i]));
 
             node = parent->find_child_node(attr[i].id(), v_data);
 
@@ -440,9 +452,9 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
             });
 
             if (it == m_globals.end())
-                m_globals.push_back(Entry(attr, value));
+                m_globals.push_back(Entry(attr, make_managed_variant(value)));
             else
-                *it = Entry(attr, value);
+                *it = Entry(attr, make_managed_variant(value));
         } else {
             // check if we already have this value
             if (std::find_if(
@@ -481,7 +493,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
             if (e.is_reference())
                 m_globals.push_back(Entry(node));
             else if (e.is_immediate())
-                m_globals.push_back(Entry(Attribute::make_attribute(node), e.value()));
+                m_globals.push_back(Entry(Attribute::make_attribute(node), make_managed_variant(e.value())));
         }
 
         return m_globals;
@@ -527,11 +539,8 @@ Node* CaliperMetadataDB::merge_node(
     IdMap&         idmap
 )
 {
-    Variant v_data = value;
-
-    // if value is a string, find or insert it in string DB
-    if (v_data.type() == CALI_TYPE_STRING)
-        v_data = mP->make_string_variant(static_cast<const char*>(value.data()), value.size());
+    // if value is a string or blob, find or insert it in string DB
+    Variant v_data = mP->make_managed_variant(value);
 
     return mP->merge_node(node_id, attr_id, prnt_id, v_data, idmap);
 }
-- 
2.43.0


From e06e8b6f2eedc020fe3082a24d399011a810ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:35 +0000
Subject: [PATCH 52/93] fix: store metadata of as-value attributes in
 CaliperMetadataDB

---
 src/reader/CaliperMetadataDB.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index b43010d..6f71e03 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -352,19 +352,21 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
             if (attr[i].store_as_value())
                 continue;
 
-            Variant v_data(make_managed_variant(data[i]));
-
-            node = parent->find_child_node(attr[i].id(), v_data);
-
-            if (!node)
-                node = create_node(attr[i].id(), v_data, parent);
-
+            node   = find_or_create_child(attr[i], data[i], parent);
             parent = node;
         }
 
         return node;
     }
 
+    Node* find_or_create_child(const Attribute& attr, const Variant& data, Node* parent)
+    {
+        Variant v_data(make_managed_variant(data));
+        Node*   node = parent->find_child_node(attr.id(), v_data);
+
+        return node ? node : create_node(attr.id(), v_data, parent);
+    }
+
     Node* make_tree_entry(std::size_t n, const Node* nodelist[], Node* parent = 0)
     {
         Node* node = nullptr;
@@ -408,8 +410,12 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
 
         Node* parent = m_type_nodes[type];
 
-        if (meta > 0)
-            parent = make_tree_entry(meta, meta_attr, meta_data, parent);
+        // Metadata is always stored in nodes, even for as-value attributes
+        for (int i = 0; i < meta; ++i) {
+            std::lock_guard<std::mutex> g(m_node_lock);
+            if (meta_attr[i])
+                parent = find_or_create_child(meta_attr[i], meta_data[i], parent);
+        }
 
         auto unit_it = m_attr_units.find(name);
         if (unit_it != m_attr_units.end()) {
-- 
2.43.0


From 6f294c59b1b6c561353771c3db176736c57cd6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 53/93] fix: synchronize concurrent reads of context tree nodes

---
 include/caliper/common/lockfree-tree.hpp |  2 +-
 src/caliper/MetadataTree.cpp             | 35 ++++++++++++------------
 src/caliper/MetadataTree.h               |  8 ++++--
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/include/caliper/common/lockfree-tree.hpp b/include/caliper/common/lockfree-tree.hpp
index 74e1892..beac1a3 100644
--- a/include/caliper/common/lockfree-tree.hpp
+++ b/include/caliper/common/lockfree-tree.hpp
@@ -80,7 +80,7 @@ public:
 
     T* parent() const { return node(m_me).parent; }
 
-    T* first_child() const { return node(m_me).head.load(std::memory_order_relaxed); }
+    T* first_child() const { return node(m_me).head.load(std::memory_order_acquire); }
 
     T* next_sibling() const { return node(m_me).next; }
 
diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index d2b6519..bc045b0 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -128,6 +128,21 @@ bool MetadataTree::have_free_nodeblock(size_t n)
     return true;
 }
 
+Node* MetadataTree::create_node(cali_id_t attr_id, const Variant& data)
+{
+    GlobalData* g = mG.load();
+
+    size_t index = m_nodeblock->index.load(std::memory_order_relaxed);
+
+    Node* node = new (m_nodeblock->chunk + index)
+        Node((m_nodeblock - g->node_blocks) * g->nodes_per_block + index, attr_id, data);
+
+    // Other threads may look up the node by its id from here on
+    m_nodeblock->index.store(index + 1, std::memory_order_release);
+
+    return node;
+}
+
 //
 // --- Modifying tree operations
 //
@@ -164,8 +179,6 @@ Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant*
 
     // Create nodes
 
-    GlobalData* g = mG.load();
-
     for (size_t i = 0; i < n; ++i) {
         const void* dptr { data[i].data() };
         size_t      size { data[i].size() };
@@ -175,10 +188,7 @@ Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant*
             ptr += size + (align - (size + 1) % align);
         }
 
-        size_t index = m_nodeblock->index++;
-
-        node = new (m_nodeblock->chunk + index)
-            Node((m_nodeblock - g->node_blocks) * g->nodes_per_block + index, attr.id(), Variant(type, dptr, size));
+        node = create_node(attr.id(), Variant(type, dptr, size));
 
         if (parent)
             parent->append(node);
@@ -207,11 +217,7 @@ Node* MetadataTree::create_child(const Attribute& attr, const Variant& value, No
             return nullptr;
     }
 
-    size_t      index = m_nodeblock->index++;
-    GlobalData* g     = mG.load();
-
-    Node* node = new (m_nodeblock->chunk + index)
-        Node((m_nodeblock - g->node_blocks) * g->nodes_per_block + index, attr.id(), value.copy(ptr));
+    Node* node = create_node(attr.id(), value.copy(ptr));
 
     if (parent)
         parent->append(node);
@@ -255,8 +261,6 @@ Node* MetadataTree::get_path(size_t n, const Node* nodelist[], Node* parent = nu
 
 Node* MetadataTree::get_or_copy_node(const Node* from, Node* parent)
 {
-    GlobalData* g = mG.load();
-
     if (!parent)
         parent = root();
 
@@ -266,10 +270,7 @@ Node* MetadataTree::get_or_copy_node(const Node* from, Node* parent)
         if (!have_free_nodeblock(1))
             return nullptr;
 
-        size_t index = m_nodeblock->index++;
-
-        node = new (m_nodeblock->chunk + index)
-            Node((m_nodeblock - g->node_blocks) * g->nodes_per_block + index, from->attribute(), from->data());
+        node = create_node(from->attribute(), from->data());
 
         parent->append(node);
 
diff --git a/src/caliper/MetadataTree.h b/src/caliper/MetadataTree.h
index e847fa2..1be46ab 100644
--- a/src/caliper/MetadataTree.h
+++ b/src/caliper/MetadataTree.h
@@ -23,8 +23,8 @@ namespace internal
 class MetadataTree
 {
     struct NodeBlock {
-        Node*  chunk;
-        size_t index;
+        Node*               chunk;
+        std::atomic<size_t> index; ///< number of completed nodes in this block
     };
 
     struct GlobalData {
@@ -59,6 +59,8 @@ class MetadataTree
 
     bool have_free_nodeblock(size_t n);
 
+    Node* create_node(cali_id_t attr_id, const Variant& data);
+
     Node* create_path(const Attribute& attr, size_t n, const Variant data[], Node* parent);
     Node* create_child(const Attribute& attr, const Variant& value, Node* parent);
     Node* get_or_copy_node(const Node* from, Node* parent = nullptr);
@@ -102,7 +104,7 @@ public:
         size_t block = id / g->nodes_per_block;
         size_t index = id % g->nodes_per_block;
 
-        if (block >= g->num_blocks || index >= g->node_blocks[block].index)
+        if (block >= g->num_blocks || index >= g->node_blocks[block].index.load(std::memory_order_acquire))
             return nullptr;
 
         return g->node_blocks[block].chunk + index;
-- 
2.43.0


From a2ee651f469ef8a66f29169700393b9ca4ae7334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:57 +0000
Subject: [PATCH 54/93] fix: initialize the runtime once when threads start it
 concurrently

---
 src/caliper/Caliper.cpp | 54 ++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index f85ea5d..adb6d8a 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -297,8 +297,8 @@ struct Caliper::ThreadData {
 struct Caliper::GlobalData {
     // --- static data
 
-    static volatile sig_atomic_t s_init_lock;
-    static std::mutex            s_init_mutex;
+    static std::atomic<int> s_init_lock; // 0: initialized, 1: not initialized, 2: released
+    static std::mutex       s_init_mutex;
 
     static const ConfigSet::Entry s_configdata[];
 
@@ -481,8 +481,8 @@ struct Caliper::GlobalData {
 
 // --- static member initialization
 
-volatile sig_atomic_t Caliper::GlobalData::s_init_lock = 1;
-std::mutex            Caliper::GlobalData::s_init_mutex;
+std::atomic<int> Caliper::GlobalData::s_init_lock { 1 };
+std::mutex       Caliper::GlobalData::s_init_mutex;
 
 Caliper::GlobalData::S_GObject                Caliper::GlobalData::gObj;
 thread_local Caliper::GlobalData::S_TLSObject Caliper::GlobalData::tObj;
@@ -1611,40 +1611,40 @@ Caliper::Caliper() : m_is_signal(false)
 
 Caliper Caliper::instance()
 {
-    GlobalData* gPtr = nullptr;
-    ThreadData* tPtr = nullptr;
+    int init_lock = GlobalData::s_init_lock.load();
 
-    if (GlobalData::s_init_lock == 0) {
-        gPtr = GlobalData::gObj.g_ptr;
-        tPtr = GlobalData::tObj.t_ptr;
-    } else {
-        if (GlobalData::s_init_lock == 2)
-            // Caliper had been initialized previously; we're past the static destructor
-            return Caliper(nullptr, nullptr, true);
+    if (init_lock == 2)
+        // Caliper had been initialized previously; we're past the static destructor
+        return Caliper(nullptr, nullptr, true);
 
+    //   The initializing thread already has thread data, and can use
+    // Caliper::instance(). Other threads wait until initialization is complete.
+    if (init_lock == 1 && !GlobalData::tObj.t_ptr) {
         std::lock_guard<std::mutex> g(GlobalData::s_init_mutex);
 
-        Log::init();
-
-        GlobalData::gObj.g_ptr = nullptr;
-        GlobalData::tObj.t_ptr = nullptr;
+        if (GlobalData::s_init_lock.load() == 2)
+            return Caliper(nullptr, nullptr, true);
 
-        if (!GlobalData::gObj.g_ptr) {
-            tPtr = new ThreadData(true /* is_initial_thread */);
-            gPtr = new GlobalData(tPtr);
+        if (GlobalData::s_init_lock.load() == 1) {
+            Log::init();
 
-            GlobalData::gObj.g_ptr = gPtr;
+            ThreadData* t = new ThreadData(true /* is_initial_thread */);
 
-            gPtr->add_thread_data(tPtr);
-            gPtr->init();
+            GlobalData::gObj.g_ptr = new GlobalData(t);
 
-            GlobalData::s_init_lock = 0;
+            GlobalData::gObj.g_ptr->add_thread_data(t);
+            GlobalData::gObj.g_ptr->init();
 
-            // now we can use Caliper::instance()
+            // now we can use Caliper::instance() on this thread
             ::make_default_channel();
+
+            GlobalData::s_init_lock.store(0);
         }
     }
 
+    GlobalData* gPtr = GlobalData::gObj.g_ptr;
+    ThreadData* tPtr = GlobalData::tObj.t_ptr;
+
     if (!tPtr) {
         tPtr = gPtr->add_thread_data(new ThreadData(false /* is_initial_thread */));
         Caliper c(gPtr, tPtr, false);
@@ -1658,6 +1658,10 @@ Caliper Caliper::instance()
 
 Caliper Caliper::sigsafe_instance()
 {
+    // Only threads that have thread data can use the global data
+    if (!GlobalData::tObj.t_ptr)
+        return Caliper(nullptr, nullptr, true);
+
     return Caliper(GlobalData::gObj.g_ptr, GlobalData::tObj.t_ptr, true);
 }
 
-- 
2.43.0


From d73985b17db712c0f8d1ae47ce034141005a4594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 55/93] fix: don't modify the aggregate service's attribute
 info while it is in use

---
 src/services/aggregate/Aggregate.cpp | 58 ++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/src/services/aggregate/Aggregate.cpp b/src/services/aggregate/Aggregate.cpp
index 7cdad74..f992d49 100644
--- a/src/services/aggregate/Aggregate.cpp
+++ b/src/services/aggregate/Aggregate.cpp
@@ -17,6 +17,7 @@
 
 #include <algorithm>
 #include <cstring>
+#include <memory>
 #include <mutex>
 #include <sstream>
 
@@ -69,12 +70,17 @@ class Aggregate
     ThreadDB*      m_tdb_list = nullptr;
     util::spinlock m_tdb_lock;
 
-    AttributeInfo            m_attr_info;
-    std::vector<std::string> m_key_attribute_names;
+    //   Attributes can be created while other threads process snapshots.
+    // Changes are therefore made on a copy of the attribute info. Outdated
+    // copies may still be in use, and are kept until the end.
+    std::atomic<const AttributeInfo*>                 m_attr_info;
+    std::vector<std::unique_ptr<const AttributeInfo>> m_attr_info_copies;
+    std::vector<std::string>                          m_key_attribute_names;
+    std::mutex                                        m_attr_info_lock;
 
     Attribute m_tdb_attr;
 
-    size_t m_num_dropped_snapshots;
+    std::atomic<size_t> m_num_dropped_snapshots;
 
     inline ThreadDB* acquire_tdb(Caliper* c, bool can_alloc)
     {
@@ -100,6 +106,13 @@ class Aggregate
         return tdb;
     }
 
+    // Assumes that m_attr_info_lock is locked, except for the initial info
+    void set_attribute_info(const AttributeInfo& info)
+    {
+        m_attr_info_copies.emplace_back(new AttributeInfo(info));
+        m_attr_info.store(m_attr_info_copies.back().get());
+    }
+
     ResultAttributes make_result_attributes(Caliper* c, const Attribute& attr)
     {
         std::string      name = attr.name();
@@ -130,11 +143,19 @@ class Aggregate
         if (!(attr.properties() & CALI_ATTR_AGGREGATABLE))
             return;
 
-        if (std::find(m_attr_info.aggr_attrs.begin(), m_attr_info.aggr_attrs.end(), attr) != m_attr_info.aggr_attrs.end())
+        ResultAttributes result_attrs = make_result_attributes(c, attr);
+
+        std::lock_guard<std::mutex> g(m_attr_info_lock);
+
+        AttributeInfo info = *m_attr_info.load();
+
+        if (std::find(info.aggr_attrs.begin(), info.aggr_attrs.end(), attr) != info.aggr_attrs.end())
             return;
 
-        m_attr_info.aggr_attrs.push_back(attr);
-        m_attr_info.result_attrs.push_back(make_result_attributes(c, attr));
+        info.aggr_attrs.push_back(attr);
+        info.result_attrs.push_back(result_attrs);
+
+        set_attribute_info(info);
     }
 
     void init_aggregation_attributes(Caliper* c)
@@ -146,8 +167,17 @@ class Aggregate
 
         const int prop = CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_THREAD | CALI_ATTR_SKIP_EVENTS;
 
-        m_attr_info.count_attr = c->create_attribute("count", CALI_TYPE_UINT, prop);
-        m_attr_info.slot_attr  = c->create_attribute("aggregate.slot", CALI_TYPE_UINT, prop);
+        Attribute count_attr = c->create_attribute("count", CALI_TYPE_UINT, prop);
+        Attribute slot_attr  = c->create_attribute("aggregate.slot", CALI_TYPE_UINT, prop);
+
+        std::lock_guard<std::mutex> g(m_attr_info_lock);
+
+        AttributeInfo info = *m_attr_info.load();
+
+        info.count_attr = count_attr;
+        info.slot_attr  = slot_attr;
+
+        set_attribute_info(info);
     }
 
     void flush_cb(Caliper* c, SnapshotFlushFn proc_fn)
@@ -163,7 +193,7 @@ class Aggregate
 
         for (; tdb; tdb = tdb->next) {
             tdb->stopped.store(true);
-            num_written += tdb->db.flush(m_attr_info, c, proc_fn);
+            num_written += tdb->db.flush(*m_attr_info.load(), c, proc_fn);
             tdb->stopped.store(false);
         }
 
@@ -234,18 +264,22 @@ class Aggregate
         ThreadDB* tdb = acquire_tdb(c, !c->is_signal());
 
         if (tdb && !tdb->stopped.load())
-            tdb->db.process_snapshot(c, rec, m_attr_info);
+            tdb->db.process_snapshot(c, rec, *m_attr_info.load());
         else
             ++m_num_dropped_snapshots;
     }
 
     void check_key_attribute(const Attribute& attr)
     {
+        std::lock_guard<std::mutex> g(m_attr_info_lock);
+
         auto it = std::find(m_key_attribute_names.begin(), m_key_attribute_names.end(), attr.name());
 
         if (it != m_key_attribute_names.end()) {
             if (attr.store_as_value()) {
-                m_attr_info.imm_key_attrs.push_back(attr);
+                AttributeInfo info = *m_attr_info.load();
+                info.imm_key_attrs.push_back(attr);
+                set_attribute_info(info);
             } else {
                 Log(1).stream() << m_channel_name
                     << ": aggregate: Reference attributes are no longer supported in CALI_AGGREGATE_KEY, ignoring "
@@ -296,6 +330,8 @@ class Aggregate
 
     Aggregate(Caliper* c, Channel* chn) : m_channel_name { chn->name() }, m_num_dropped_snapshots(0)
     {
+        set_attribute_info(AttributeInfo());
+
         auto cfg = services::init_config_from_spec(chn->config(), s_spec);        
         m_key_attribute_names = cfg.get("key").to_stringlist(",");
         
-- 
2.43.0


From 8ec3fd888401f145530356adbf1af5b451a8c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:59 +0000
Subject: [PATCH 56/93] fix: don't lose concurrent updates when ending
 process-scope and channel values

---
 src/caliper/Caliper.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index adb6d8a..23e53db 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1079,7 +1079,13 @@ void Caliper::end(const Attribute& attr)
         handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
     else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
-        handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
+        // Another thread may have changed the entry in the meantime
+        current = load_current_entry(attr, key, sG->process_blackboard);
+
+        if (current.entry.empty())
+            sT->stack_error = true;
+        else
+            handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
     }
 }
 
@@ -1127,7 +1133,13 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
         handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
     else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
-        handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
+        // Another thread may have changed the entry in the meantime
+        current = load_current_entry(attr, key, sG->process_blackboard);
+
+        if (current.entry.empty())
+            sT->stack_error = true;
+        else
+            handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
     }
 }
 
@@ -1226,7 +1238,13 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
 
     {
         std::lock_guard<std::mutex> gbb(chB->channel_blackboard_lock);
-        handle_end(attr, prop, current, key, chB->channel_blackboard, sT->tree);
+        // Another thread may have changed the entry in the meantime
+        current = load_current_entry(attr, key, chB->channel_blackboard);
+
+        if (current.entry.empty())
+            sT->stack_error = true;
+        else
+            handle_end(attr, prop, current, key, chB->channel_blackboard, sT->tree);
     }
 }
 
-- 
2.43.0


From 1f9d94c5fc4b4b1e8a8aa96f4687bb7ca649a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:08 +0000
Subject: [PATCH 57/93] fix: keep empty values and whitespace at the end of a
 record in the Python reader

---
 python/caliper-reader/caliperreader/caliperstreamreader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/caliper-reader/caliperreader/caliperstreamreader.py b/python/caliper-reader/caliperreader/caliperstreamreader.py
index eee9a0e..50a0c15 100644
--- a/python/caliper-reader/caliperreader/caliperstreamreader.py
+++ b/python/caliper-reader/caliperreader/caliperstreamreader.py
@@ -129,7 +129,8 @@ def _read_cali_record(line):
     entry   = []
     string  = ""
 
-    iterator = iter(line.strip())
+    # only remove the line end: whitespace may be part of the last value
+    iterator = iter(line.rstrip('\r\n'))
 
     for c in iterator:
         if c == '\\':
@@ -149,7 +150,7 @@ def _read_cali_record(line):
         else:
             string += c
 
-    if len(string) > 0:
+    if len(entry) > 0 or len(string) > 0:
         entry.append(string)
         result[entry[0]] = entry[1:]
 
-- 
2.43.0


From 575e96826e0268bf4377080e2b6e304ce6d8a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:08 +0000
Subject: [PATCH 58/93] fix: keep the values of all references of a record in
 the Python reader

---
 .../caliperreader/caliperstreamreader.py        | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/python/caliper-reader/caliperreader/caliperstreamreader.py b/python/caliper-reader/caliperreader/caliperstreamreader.py
index 50a0c15..3c924ca 100644
--- a/python/caliper-reader/caliperreader/caliperstreamreader.py
+++ b/python/caliper-reader/caliperreader/caliperstreamreader.py
@@ -94,17 +94,30 @@ class CaliperStreamReader:
 
         if 'ref' in record:
             for node_id in record['ref']:
-                result.update(self.db.nodes[int(node_id)].expand())
+                _merge(result, self.db.nodes[int(node_id)].expand())
 
         if 'attr' in record and 'data' in record:
             for attr_id, val in zip(record['attr'], record['data']):
                 attr = self.db.attributes_by_id[int(attr_id)]
                 if not attr.is_hidden():
-                    result[attr.name()] = val
+                    _merge(result, { attr.name() : val })
 
         return result
 
 
+def _merge(record, entries):
+    """ Adds entries to record. There is a list of values for a key that
+        is in the record already.
+    """
+
+    for key, val in entries.items():
+        if key in record:
+            vals = [ v if isinstance(v, list) else [ v ] for v in (record[key], val) ]
+            record[key] = vals[0] + vals[1]
+        else:
+            record[key] = val
+
+
 def _read_cali_record(line):
     """ Splits comma-separated Caliper record line into constituent elements
 
-- 
2.43.0


From 18c1ead727bdb213a53f1943365e256d12c86821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:09 +0000
Subject: [PATCH 59/93] fix: report the type of pointer attributes in the
 Python reader

---
 python/caliper-reader/caliperreader/metadatadb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/caliper-reader/caliperreader/metadatadb.py b/python/caliper-reader/caliperreader/metadatadb.py
index a926729..558e1ba 100644
--- a/python/caliper-reader/caliperreader/metadatadb.py
+++ b/python/caliper-reader/caliperreader/metadatadb.py
@@ -279,6 +279,10 @@ class MetadataDB:
         }
 
     def import_node(self, node_id, attribute_id, data, parent_id = Node.CALI_INV_ID):
+        # Type nodes are pre-defined
+        if attribute_id == Attribute.type_attribute_id and node_id in self.nodes:
+            return
+
         node = Node(self, node_id, attribute_id, data)
         self.nodes[node_id] = node
 
-- 
2.43.0


From 8b90cad8beeb43f1d0ebc6375fbbce3c2110f379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:37 +0000
Subject: [PATCH 60/93] fix: combine partial results of metrics that exist only
 in other processes

---
 src/reader/Aggregator.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index ea1df7a..5b19e62 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -101,8 +101,13 @@ public:
 
     Attribute derived_attr(CaliperMetadataAccessInterface& db)
     {
-        if (!m_derived_attr && target_attr(db))
-            m_derived_attr = db.create_attribute(m_prefix+m_name, m_target_attr.type(), s_prop | m_prop);
+        if (!m_derived_attr) {
+            // there may be only partial results, e.g. from another process
+            if (target_attr(db))
+                m_derived_attr = db.create_attribute(m_prefix+m_name, m_target_attr.type(), s_prop | m_prop);
+            else
+                m_derived_attr = db.get_attribute(m_prefix+m_name);
+        }
         return m_derived_attr;
     }
 };
@@ -541,9 +546,9 @@ public:
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& list) override
     {
         Attribute tgt_attr = m_config->m_sum_attr.target_attr(db);
-        if (!tgt_attr)
-            return 0;
         Attribute sum_attr = m_config->m_sum_attr.derived_attr(db);
+        if (!sum_attr)
+            return 0;
         Attribute count_attr = m_config->m_count_attr.get(db);
         int count = 0;
 
@@ -831,12 +836,13 @@ public:
 
         bool get_statistics_attributes(CaliperMetadataAccessInterface& db, StatisticsAttributes& a)
         {
-            if (!m_target_attr)
-                return false;
-            if (a.sum) {
+            if (m_stat_attrs.sum) {
                 a = m_stat_attrs;
                 return true;
             }
+            // there may be only partial results, e.g. from another process
+            if (!m_target_attr && !db.get_attribute("var.sum#" + m_target_attr_name))
+                return false;
 
             int prop = CALI_ATTR_SKIP_EVENTS | CALI_ATTR_ASVALUE;
 
@@ -910,7 +916,7 @@ public:
 
 private:
 
-    unsigned m_count;
+    uint64_t m_count;
     double   m_sum;
     double   m_sqsum;
     Config*  m_config;
-- 
2.43.0


From 4328cfaa583d18b422d84661f1dcf82dcd3717c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:57 +0000
Subject: [PATCH 61/93] fix: ignore the end of regions that began before the
 region monitor was active

---
 src/services/monitor/RegionMonitor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/services/monitor/RegionMonitor.cpp b/src/services/monitor/RegionMonitor.cpp
index 5bdb75d..a7a4412 100644
--- a/src/services/monitor/RegionMonitor.cpp
+++ b/src/services/monitor/RegionMonitor.cpp
@@ -76,6 +76,8 @@ class RegionMonitor
         const Node* node = c->get(attr).node();
         if (!node)
             return;
+        if (m_time_stack.empty())
+            return; // this region began before the channel was active
 
         auto now  = std::chrono::high_resolution_clock::now();
         auto prev = m_time_stack.back();
-- 
2.43.0


From 64d0edbebf7e74fbc888b6c213fff419048436f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:57 +0000
Subject: [PATCH 62/93] fix: measure only loops with the given name in the loop
 monitor

---
 src/services/monitor/LoopMonitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/monitor/LoopMonitor.cpp b/src/services/monitor/LoopMonitor.cpp
index 5ead469..6966166 100644
--- a/src/services/monitor/LoopMonitor.cpp
+++ b/src/services/monitor/LoopMonitor.cpp
@@ -48,7 +48,7 @@ class LoopMonitor
             return true;
 
         for (const std::string& s : target_loops)
-            if (strncmp(static_cast<const char*>(value.data()), s.data(), s.size()) == 0)
+            if (s.size() == value.size() && memcmp(value.data(), s.data(), s.size()) == 0)
                 return true;
 
         return false;
-- 
2.43.0


From 71bf3e3024ea1a3107f63b2bf1f534cf0331ac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:57 +0000
Subject: [PATCH 63/93] fix: ignore the end of loops that began before the loop
 monitor was active

---
 src/services/monitor/LoopMonitor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/services/monitor/LoopMonitor.cpp b/src/services/monitor/LoopMonitor.cpp
index 6966166..1444bd4 100644
--- a/src/services/monitor/LoopMonitor.cpp
+++ b/src/services/monitor/LoopMonitor.cpp
@@ -86,6 +86,8 @@ class LoopMonitor
     void end_cb(Caliper* c, ChannelBody* chB, const Attribute& attr, const Variant& value)
     {
         if (attr == loop_attr) {
+            if (loop_level == 0)
+                return; // this loop began before the channel was active
             if (loop_level == target_level) {
                 snapshot(c, chB);
                 target_level = -1;
-- 
2.43.0


From 67039fac3a180b59fe3b59cd280f9caa84e2d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:06 +0000
Subject: [PATCH 64/93] fix: accept allocations with an element size of zero in
 the alloc service

---
 src/services/alloc/AllocService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index f607947..29da9af 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -184,7 +184,7 @@ class AllocService
         info.total_size = total_size;
         info.v_uid      = Variant(cali_make_variant_from_uint(++g_alloc_uid));
         info.elem_size  = elem_size;
-        info.num_elems  = total_size / elem_size;
+        info.num_elems  = elem_size > 0 ? total_size / elem_size : 0;
 
         Variant v_label(label);
 
-- 
2.43.0


From de6ecee90fa7687a5b4f8ed497cfd37f7626f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:06 +0000
Subject: [PATCH 65/93] fix: record the size of allocations of 2 GiB and more
 in the alloc service

---
 src/services/alloc/AllocService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index 29da9af..e641de2 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -208,7 +208,7 @@ class AllocService
                 c,
                 chB,
                 info.alloc_label_node,
-                Variant(static_cast<int>(total_size)),
+                Variant(cali_make_variant_from_int64(static_cast<int64_t>(total_size))),
                 info.v_uid,
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
@@ -256,7 +256,7 @@ class AllocService
                 c,
                 chB,
                 info.free_label_node,
-                Variant(-static_cast<int>(info.total_size)),
+                Variant(cali_make_variant_from_int64(-static_cast<int64_t>(info.total_size))),
                 info.v_uid,
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
-- 
2.43.0


From 423488833ca86ec24a54722664e2e3d79fe056e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:06 +0000
Subject: [PATCH 66/93] fix: count the memory of an allocation that replaces
 another one once in the alloc service

---
 src/services/alloc/AllocService.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index e641de2..76bc674 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -213,22 +213,31 @@ class AllocService
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
 
-        {
-            std::lock_guard<std::mutex> g(g_hwm_lock);
-
-            g_active_mem += total_size;
-            g_hwm        = std::max(g_hwm, g_active_mem);
-            g_region_hwm = std::max(g_region_hwm, g_active_mem);
-        }
+        uint64_t replaced_size = 0;
 
         {
             std::lock_guard<std::mutex> g(g_tree_lock);
 
-            g_tree.insert(info);
+            // We may have missed the release of a previous allocation at this address
+            auto tree_node = g_tree.find(HasStartAddress(info.start_addr));
+
+            if (tree_node)
+                replaced_size = (*tree_node).total_size;
+            else
+                g_max_tracked = std::max(++g_current_tracked, g_max_tracked);
 
-            g_max_tracked = std::max(++g_current_tracked, g_max_tracked);
+            g_tree.insert(info);
             ++g_total_tracked;
         }
+
+        {
+            std::lock_guard<std::mutex> g(g_hwm_lock);
+
+            g_active_mem -= replaced_size;
+            g_active_mem += total_size;
+            g_hwm        = std::max(g_hwm, g_active_mem);
+            g_region_hwm = std::max(g_region_hwm, g_active_mem);
+        }
     }
 
     void untrack_mem_cb(Caliper* c, ChannelBody* chB, const void* ptr)
-- 
2.43.0


From a5150a62b4f0ef88fdf551586acc7ddcecfb340a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:06 +0000
Subject: [PATCH 67/93] fix: count the memory of an allocation that replaces
 another one once in the allocstats service

---
 src/services/alloc/AllocStatsService.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/services/alloc/AllocStatsService.cpp b/src/services/alloc/AllocStatsService.cpp
index e691322..63ad3cc 100644
--- a/src/services/alloc/AllocStatsService.cpp
+++ b/src/services/alloc/AllocStatsService.cpp
@@ -72,17 +72,29 @@ class AllocStatsService
         if (!path)
             return;
 
+        AllocInfo replaced { 0, nullptr };
+
         {
             AllocInfo info { size, path };
             std::lock_guard<std::mutex> g(g_alloc_map_lock);
-            g_alloc_map[addr] = info;
 
-            g_max_tracked = std::max(++g_current_tracked, g_max_tracked);
+            // We may have missed the release of a previous allocation at this address
+            auto it = g_alloc_map.find(addr);
+            if (it != g_alloc_map.end()) {
+                replaced   = it->second;
+                it->second = info;
+            } else {
+                g_alloc_map[addr] = info;
+                g_max_tracked = std::max(++g_current_tracked, g_max_tracked);
+            }
+
             ++g_total_tracked;
         }
 
         {
             std::lock_guard<std::mutex> g(g_region_map_lock);
+            if (replaced.path)
+                g_region_map[replaced.path->id()].current_bytes -= replaced.bytes;
             auto it = g_region_map.find(path->id());
             if (it == g_region_map.end()) {
                 RegionInfo info { size, size, size, size, 1ull, path };
@@ -99,6 +111,7 @@ class AllocStatsService
         {
             std::lock_guard<std::mutex> g(g_hwm_lock);
 
+            g_active_mem -= replaced.bytes;
             g_active_mem += size;
             g_region_hwm = std::max(g_region_hwm, g_active_mem);
         }
-- 
2.43.0


From 1638df73170fd53bb63a5c8a3ffab5406368f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:06 +0000
Subject: [PATCH 68/93] fix: clear the statistics of the allocstats service
 with the channel

---
 src/services/alloc/AllocStatsService.cpp | 28 +++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/services/alloc/AllocStatsService.cpp b/src/services/alloc/AllocStatsService.cpp
index 63ad3cc..e2e1d31 100644
--- a/src/services/alloc/AllocStatsService.cpp
+++ b/src/services/alloc/AllocStatsService.cpp
@@ -56,6 +56,14 @@ class AllocStatsService
 
     std::string channel_name;
 
+    void release_bytes(const AllocInfo& info)
+    {
+        // the region may have been removed by clear() if the allocation is empty
+        auto it = g_region_map.find(info.path->id());
+        if (it != g_region_map.end())
+            it->second.current_bytes -= info.bytes;
+    }
+
     void track_mem_cb(
         Caliper*         c,
         const void*      ptr,
@@ -94,7 +102,7 @@ class AllocStatsService
         {
             std::lock_guard<std::mutex> g(g_region_map_lock);
             if (replaced.path)
-                g_region_map[replaced.path->id()].current_bytes -= replaced.bytes;
+                release_bytes(replaced);
             auto it = g_region_map.find(path->id());
             if (it == g_region_map.end()) {
                 RegionInfo info { size, size, size, size, 1ull, path };
@@ -136,7 +144,7 @@ class AllocStatsService
 
         {
             std::lock_guard<std::mutex> g(g_region_map_lock);
-            g_region_map[alloc_info.path->id()].current_bytes -= alloc_info.bytes;
+            release_bytes(alloc_info);
         }
 
         {
@@ -174,6 +182,9 @@ class AllocStatsService
         std::lock_guard<std::mutex> g(g_region_map_lock);
 
         for (const auto& it : g_region_map) {
+            if (it.second.count == 0)
+                continue;
+
             std::vector<Entry> rec;
             rec.reserve(5);
             rec.emplace_back(it.second.path);
@@ -189,7 +200,17 @@ class AllocStatsService
 
     void clear_cb(Caliper*, Channel*) {
         std::lock_guard<std::mutex> g(g_region_map_lock);
-        g_region_map.clear();
+
+        // keep track of the regions that have active allocations
+        for (auto it = g_region_map.begin(); it != g_region_map.end();) {
+            if (it->second.current_bytes == 0)
+                it = g_region_map.erase(it);
+            else {
+                RegionInfo info { it->second.current_bytes, 0, 0, it->second.current_bytes, 0, it->second.path };
+                it->second = info;
+                ++it;
+            }
+        }
     }
 
     void finish_cb(Caliper* c, Channel* chn)
@@ -241,6 +262,7 @@ public:
         chn->events().flush_evt.connect([instance](Caliper* c, SnapshotView ctx, SnapshotFlushFn flush_fn){
             instance->flush_cb(c, ctx, flush_fn);
         });
+        chn->events().clear_evt.connect([instance](Caliper* c, Channel* chn) { instance->clear_cb(c, chn); });
         chn->events().finish_evt.connect([instance](Caliper* c, Channel* chn) {
             instance->finish_cb(c, chn);
             delete instance;
-- 
2.43.0


From a5521f721f890aa878aa9d35c8316d41badb14be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:59 +0000
Subject: [PATCH 69/93] fix: correct the scale of the minimum and maximum
 iteration rates in the loop report

---
 src/caliper/controllers/LoopReportController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/controllers/LoopReportController.cpp b/src/caliper/controllers/LoopReportController.cpp
index c3327a7..197899f 100644
--- a/src/caliper/controllers/LoopReportController.cpp
+++ b/src/caliper/controllers/LoopReportController.cpp
@@ -86,7 +86,7 @@ class LoopReportController : public cali::internal::CustomOutputController
     Aggregator summary_local_aggregation(Caliper& c, CaliperMetadataDB& db)
     {
         const char* query_str =
-            " let iter_per_sec=ratio(loop.iterations,time.duration.ns,1e-9)"
+            " let iter_per_sec=ratio(loop.iterations,time.duration.ns,1e9)"
             " select loop"
             ",count()"
             ",sum(loop.iterations)"
-- 
2.43.0


From 74bee03f16bcc80d341e921156b2bbe2121703ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:59 +0000
Subject: [PATCH 70/93] fix: report the maximum of the message sizes across
 processes

---
 src/caliper/controllers/controllers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/controllers/controllers.cpp b/src/caliper/controllers/controllers.cpp
index 04563a1..ddb44b3 100644
--- a/src/caliper/controllers/controllers.cpp
+++ b/src/caliper/controllers/controllers.cpp
@@ -410,7 +410,7 @@ const char* builtin_mpi_option_specs = R"json(
   "select
     min(min#mms.min) as \"Msg size (min)\" unit Byte,
     avg(avg#mms.avg) as \"Msg size (avg)\" unit Byte,
-    max(max#mms.avg) as \"Msg size (avg)\" unit Byte"
+    max(max#mms.max) as \"Msg size (max)\" unit Byte"
  }
 },
 {
-- 
2.43.0


From 53760c91c39ba3987361b52873a6695a8d251534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:59 +0000
Subject: [PATCH 71/93] fix: add the missing select keyword in the
 cross-process query of the OpenMP report

---
 src/caliper/controllers/OpenMPReportController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/controllers/OpenMPReportController.cpp b/src/caliper/controllers/OpenMPReportController.cpp
index abcc189..4a3af29 100644
--- a/src/caliper/controllers/OpenMPReportController.cpp
+++ b/src/caliper/controllers/OpenMPReportController.cpp
@@ -42,7 +42,7 @@ public:
 
         // Config for second aggregation step in MPI mode (cross-process aggregation)
         std::string cross_query =
-            " max(max#n.threads) as \"#Threads\""
+            " select max(max#n.threads) as \"#Threads\""
             ",avg(inclusive#t.initial) as \"Time (thread) (avg)\""
             ",sum(inclusive#sum#time.duration) as \"Time (total)\"";
 
-- 
2.43.0


From e788f8f9b5475ab625f21a131b951bb2f14a36c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:36 +0000
Subject: [PATCH 72/93] fix: separate the column width from other arguments of
 the tree formatter

---
 src/caliper/controllers/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/controllers/util.cpp b/src/caliper/controllers/util.cpp
index b5acc98..e912b5f 100644
--- a/src/caliper/controllers/util.cpp
+++ b/src/caliper/controllers/util.cpp
@@ -14,7 +14,7 @@ std::string util::build_tree_format_spec(config_map_t& config, const ConfigManag
     std::string format = initial;
 
     if (opts.is_set("max_column_width"))
-        format.append("column-width=").append(opts.get("max_column_width"));
+        format.append(format.length() > 0 ? "," : "").append("column-width=").append(opts.get("max_column_width"));
     if (opts.is_enabled("print.metadata")) {
         auto avail_services = services::get_available_services();
         bool have_adiak =
-- 
2.43.0


From 6b62c69751c2149f5a246a490c2f1987350fdd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:36 +0000
Subject: [PATCH 73/93] fix: let the order_by_time option of the runtime report
 take effect

---
 .../controllers/RuntimeReportController.cpp   | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/caliper/controllers/RuntimeReportController.cpp b/src/caliper/controllers/RuntimeReportController.cpp
index 01628f4..acc9020 100644
--- a/src/caliper/controllers/RuntimeReportController.cpp
+++ b/src/caliper/controllers/RuntimeReportController.cpp
@@ -63,18 +63,29 @@ public:
         q_serial.append(" format ").append(format);
         q_cross.append(" format ").append(format);
 
+        q_local  = opts.build_query("local", q_local);
+        q_serial = opts.build_query("local", q_serial);
+        q_cross  = opts.build_query("cross", q_cross);
+
+        // The tree formatter uses the last sort criterion first, so order_by_time
+        // must come after the order_as_visited default
+        if (opts.is_enabled("order_by_time")) {
+            q_serial.append(" order by sum#report.t desc");
+            q_cross.append(" order by sum#sum#report.t desc");
+        }
+
         if (use_mpi) {
             config()["CALI_SERVICES_ENABLE"].append(",mpi,mpireport");
             config()["CALI_MPIREPORT_FILENAME"]          = opts.get("output", "stderr");
             config()["CALI_MPIREPORT_APPEND"]            = opts.get("output.append");
             config()["CALI_MPIREPORT_WRITE_ON_FINALIZE"] = "false";
-            config()["CALI_MPIREPORT_LOCAL_CONFIG"]      = opts.build_query("local", q_local);
-            config()["CALI_MPIREPORT_CONFIG"]            = opts.build_query("cross", q_cross);
+            config()["CALI_MPIREPORT_LOCAL_CONFIG"]      = q_local;
+            config()["CALI_MPIREPORT_CONFIG"]            = q_cross;
         } else {
             config()["CALI_SERVICES_ENABLE"].append(",report");
             config()["CALI_REPORT_FILENAME"] = opts.get("output", "stderr");
             config()["CALI_REPORT_APPEND"]   = opts.get("output.append");
-            config()["CALI_REPORT_CONFIG"]   = opts.build_query("local", q_serial);
+            config()["CALI_REPORT_CONFIG"]   = q_serial;
         }
 
         opts.update_channel_config(config());
@@ -150,8 +161,7 @@ const char* runtime_report_spec = R"json(
    "description": "Order tree branches by highest exclusive runtime",
    "query":
    {
-    "local": "order by sum#report.time desc",
-    "cross": "aggregate sum(sum#report.time) order by sum#sum#report.time desc"
+    "cross": "aggregate sum(sum#report.t)"
    }
   },{
    "name": "output.append",
-- 
2.43.0


From 45531e8e91922a6e9b9b58a319956f5000a34ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:36 +0000
Subject: [PATCH 74/93] fix: quote loop names in the queries of the loop report
 and spot controllers

---
 src/caliper/controllers/LoopReportController.cpp |  4 +++-
 src/caliper/controllers/SpotController.cpp       |  4 +++-
 src/caliper/controllers/util.cpp                 | 15 +++++++++++++++
 src/caliper/controllers/util.h                   |  3 +++
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/caliper/controllers/LoopReportController.cpp b/src/caliper/controllers/LoopReportController.cpp
index 197899f..6a16fd1 100644
--- a/src/caliper/controllers/LoopReportController.cpp
+++ b/src/caliper/controllers/LoopReportController.cpp
@@ -3,6 +3,8 @@
 
 #include "caliper/caliper-config.h"
 
+#include "util.h"
+
 #include <caliper/Caliper.h>
 #include <caliper/ConfigManager.h>
 #include <caliper/CustomOutputController.h>
@@ -131,7 +133,7 @@ class LoopReportController : public cali::internal::CustomOutputController
             ",ratio(loop.iterations,time.duration.ns,1e9)"
             " group by Block";
         query.append(" let Block=truncate(loop.start_iteration,").append(std::to_string(blocksize)).append(") ");
-        query.append(" where loop=\"").append(loopname).append("\" ");
+        query.append(" where loop=").append(util::quote(loopname)).append(" ");
 
         query = m_opts.build_query("local", query);
 
diff --git a/src/caliper/controllers/SpotController.cpp b/src/caliper/controllers/SpotController.cpp
index 4174a89..128571d 100644
--- a/src/caliper/controllers/SpotController.cpp
+++ b/src/caliper/controllers/SpotController.cpp
@@ -3,6 +3,8 @@
 
 #include "caliper/caliper-config.h"
 
+#include "util.h"
+
 #include <caliper/Caliper.h>
 #include <caliper/ConfigManager.h>
 #include <caliper/CustomOutputController.h>
@@ -170,7 +172,7 @@ public:
             " group by cali.channel,loop,block ";
 
         q_local.append(" let block = truncate(loop.start_iteration,").append(std::to_string(blocksize)).append(") ");
-        q_local.append(" where loop.start_iteration,loop=\"").append(loopname).append("\" ");
+        q_local.append(" where loop.start_iteration,loop=").append(util::quote(loopname)).append(" ");
 
         std::string query = m_opts.build_query("local", q_local);
 
diff --git a/src/caliper/controllers/util.cpp b/src/caliper/controllers/util.cpp
index e912b5f..84e59dc 100644
--- a/src/caliper/controllers/util.cpp
+++ b/src/caliper/controllers/util.cpp
@@ -28,3 +28,18 @@ std::string util::build_tree_format_spec(config_map_t& config, const ConfigManag
 
     return std::string("tree(") + format + ")";
 }
+
+std::string util::quote(const std::string& str)
+{
+    std::string ret = "\"";
+
+    for (char c : str) {
+        if (c == '"' || c == '\\')
+            ret.push_back('\\');
+        ret.push_back(c);
+    }
+
+    ret.push_back('"');
+
+    return ret;
+}
diff --git a/src/caliper/controllers/util.h b/src/caliper/controllers/util.h
index aaabd8f..ff5d49b 100644
--- a/src/caliper/controllers/util.h
+++ b/src/caliper/controllers/util.h
@@ -17,6 +17,9 @@ namespace util
 
 std::string build_tree_format_spec(config_map_t&, const cali::ConfigManager::Options&, const char* initial = "");
 
+/// \brief Return \a str as a quoted string for use in queries and config strings
+std::string quote(const std::string& str);
+
 }
 
 } // namespace cali
-- 
2.43.0


From f5e50a9f8230e38a33503c8fc0e453f8c0c356ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:36 +0000
Subject: [PATCH 75/93] fix: accept lists of target loops in the spot
 controller

---
 src/caliper/controllers/SpotController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/controllers/SpotController.cpp b/src/caliper/controllers/SpotController.cpp
index 128571d..8b3ded7 100644
--- a/src/caliper/controllers/SpotController.cpp
+++ b/src/caliper/controllers/SpotController.cpp
@@ -85,7 +85,7 @@ void convert_timeseries_option(const ConfigManager::Options& opts, const char* t
 
         target.append(ts_opt_name);
         target.append("=");
-        target.append(opts.get(spot_opt_name.c_str()));
+        target.append(util::quote(opts.get(spot_opt_name.c_str())));
     }
 }
 
-- 
2.43.0


From ecfba01e0969af17168f175f79d9354e907aaf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:36 +0000
Subject: [PATCH 76/93] fix: process the same loops in all processes in the
 loop report and spot controllers

---
 src/caliper/controllers/LoopReportController.cpp | 6 ++++--
 src/caliper/controllers/SpotController.cpp       | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/caliper/controllers/LoopReportController.cpp b/src/caliper/controllers/LoopReportController.cpp
index 6a16fd1..9824a28 100644
--- a/src/caliper/controllers/LoopReportController.cpp
+++ b/src/caliper/controllers/LoopReportController.cpp
@@ -246,10 +246,12 @@ class LoopReportController : public cali::internal::CustomOutputController
                 infovec.push_back(get_loop_info(db, rec));
             });
 
+            // all processes must participate for each of the root process' loops
+            infovec.resize(std::max(comm.bcast_int(static_cast<int>(infovec.size())), 0));
+
             if (!infovec.empty()) {
                 for (const LoopInfo& loopinfo : infovec)
-                    if (loopinfo.iterations > 0)
-                        process_timeseries(c, db, stream, loopinfo, comm);
+                    process_timeseries(c, db, stream, loopinfo, comm);
             } else {
                 Log(1).stream() << name() << ": No instrumented loops found" << std::endl;
             }
diff --git a/src/caliper/controllers/SpotController.cpp b/src/caliper/controllers/SpotController.cpp
index 8b3ded7..5e22f66 100644
--- a/src/caliper/controllers/SpotController.cpp
+++ b/src/caliper/controllers/SpotController.cpp
@@ -362,10 +362,12 @@ class SpotController : public cali::internal::CustomOutputController
             infovec.push_back(get_loop_info(in_db, rec));
         });
 
+        // all processes must participate for each of the root process' loops
+        infovec.resize(std::max(comm.bcast_int(static_cast<int>(infovec.size())), 0));
+
         if (!infovec.empty()) {
             for (const LoopInfo& loopinfo : infovec)
-                if (loopinfo.iterations > 0)
-                    process_timeseries(tsc.get(), c, writer, loopinfo, comm);
+                process_timeseries(tsc.get(), c, writer, loopinfo, comm);
         } else {
             Log(1).stream() << "[spot controller]: No instrumented loops found" << std::endl;
         }
-- 
2.43.0


From e297f11e8613f647f5266d5c528d3bc85cf13e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:36 +0000
Subject: [PATCH 77/93] fix: report invalid numbers in option values instead of
 throwing an exception

---
 src/caliper/ConfigManager.cpp                       | 5 +++++
 src/caliper/controllers/SampleProfileController.cpp | 2 +-
 src/caliper/controllers/SampleReportController.cpp  | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index 1cee37f..f287e7d 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -604,6 +604,11 @@ struct ConfigManager::Options::OptionsImpl {
                 StringConverter(arg.second).to_bool(&ok);
                 if (!ok)
                     return std::string("Invalid value \"") + arg.second + std::string("\" for ") + arg.first;
+            } else if (it->second.type == "int" || it->second.type == "double") {
+                bool ok = false;
+                StringConverter(arg.second).to_double(&ok);
+                if (!ok)
+                    return std::string("Invalid value \"") + arg.second + std::string("\" for ") + arg.first;
             }
         }
 
diff --git a/src/caliper/controllers/SampleProfileController.cpp b/src/caliper/controllers/SampleProfileController.cpp
index b6e448b..28f4e0b 100644
--- a/src/caliper/controllers/SampleProfileController.cpp
+++ b/src/caliper/controllers/SampleProfileController.cpp
@@ -36,7 +36,7 @@ public:
         config()["CALI_SAMPLER_FREQUENCY"] = freqstr;
 
         std::string query = " select path,count()";
-        double      freq   = std::stod(freqstr);
+        double      freq   = StringConverter(freqstr).to_double();
 
         if (freq > 0) {
             query.append(",scale_count(");
diff --git a/src/caliper/controllers/SampleReportController.cpp b/src/caliper/controllers/SampleReportController.cpp
index 0183b9f..4eb7bbf 100644
--- a/src/caliper/controllers/SampleReportController.cpp
+++ b/src/caliper/controllers/SampleReportController.cpp
@@ -33,7 +33,7 @@ public:
     )
         : ChannelController(name, 0, initial_cfg)
     {
-        double freq = std::max(1.0, std::stod(opts.get("sample.frequency", "200")));
+        double freq = std::max(1.0, StringConverter(opts.get("sample.frequency", "200")).to_double());
 
         config()["CALI_SAMPLER_FREQUENCY"] = std::to_string(freq);
 
-- 
2.43.0


From dd5b2cb193eede655c15411702add2d9766a3796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:12 +0000
Subject: [PATCH 78/93] fix: use the measured time for the I/O bandwidth
 metrics

---
 src/caliper/controllers/controllers.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/caliper/controllers/controllers.cpp b/src/caliper/controllers/controllers.cpp
index ddb44b3..1ee78a7 100644
--- a/src/caliper/controllers/controllers.cpp
+++ b/src/caliper/controllers/controllers.cpp
@@ -559,8 +559,8 @@ const char* builtin_gotcha_option_specs = R"json(
  "inherit": [ "io.bytes.read" ],
  "query":
  {
-  "local": "select io.region as I/O,ratio(ibr.bytes,time.duration.ns,8e3) as \"Read Mbit/s\" unit Mb/s group by io.region",
-  "cross": "select avg(ratio#ibr.bytes/time.duration.ns) as \"Avg read Mbit/s\",max(ratio#ibr.bytes/time.duration.ns) as \"Max read Mbit/s\""
+  "local": "let irb.time=first(sum#time.duration.ns,time.duration.ns) select io.region as I/O,ratio(ibr.bytes,irb.time,8e3) as \"Read Mbit/s\" unit Mb/s group by io.region",
+  "cross": "select avg(ratio#ibr.bytes/irb.time) as \"Avg read Mbit/s\",max(ratio#ibr.bytes/irb.time) as \"Max read Mbit/s\""
  }
 },{
  "name": "io.write.bandwidth",
@@ -570,8 +570,8 @@ const char* builtin_gotcha_option_specs = R"json(
  "inherit": [ "io.bytes.written" ],
  "query":
  {
-  "local": "select io.region as I/O,ratio(ibw.bytes,time.duration.ns,8e3) as \"Write Mbit/s\" unit Mb/s group by io.region",
-  "cross": "select avg(ratio#ibw.bytes/time.duration.ns) as \"Avg write Mbit/s\",max(ratio#ibw.bytes/time.duration.ns) as \"Max write Mbit/s\""
+  "local": "let iwb.time=first(sum#time.duration.ns,time.duration.ns) select io.region as I/O,ratio(ibw.bytes,iwb.time,8e3) as \"Write Mbit/s\" unit Mb/s group by io.region",
+  "cross": "select avg(ratio#ibw.bytes/iwb.time) as \"Avg write Mbit/s\",max(ratio#ibw.bytes/iwb.time) as \"Max write Mbit/s\""
  }
 },{
  "name": "mem.highwatermark",
-- 
2.43.0


From b98aa51b4f64bc3cc37f152243b03c10083ea612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 79/93] fix: aggregate loop-report's time series across all
 processes

---
 src/caliper/controllers/LoopReportController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/controllers/LoopReportController.cpp b/src/caliper/controllers/LoopReportController.cpp
index 9824a28..f24b151 100644
--- a/src/caliper/controllers/LoopReportController.cpp
+++ b/src/caliper/controllers/LoopReportController.cpp
@@ -158,7 +158,7 @@ class LoopReportController : public cali::internal::CustomOutputController
         return CalQLParser(query.c_str()).spec();
     }
 
-    void process_timeseries(Caliper& c, CaliperMetadataDB& db, OutputStream& stream, const LoopInfo& info, Comm comm)
+    void process_timeseries(Caliper& c, CaliperMetadataDB& db, OutputStream& stream, const LoopInfo& info, Comm& comm)
     {
         int         iterations = comm.bcast_int(info.iterations);
         int         rec_count  = comm.bcast_int(info.count);
-- 
2.43.0


From cb921118f19623367aea21262d6a26c704f1bccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:04 +0000
Subject: [PATCH 80/93] fix: keep alias and unit of the iteration metric in
 spot time series

---
 src/caliper/controllers/SpotController.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/caliper/controllers/SpotController.cpp b/src/caliper/controllers/SpotController.cpp
index 5e22f66..e81a96c 100644
--- a/src/caliper/controllers/SpotController.cpp
+++ b/src/caliper/controllers/SpotController.cpp
@@ -305,9 +305,6 @@ class SpotController : public cali::internal::CustomOutputController
             QuerySpec  spec = tsc->timeseries_spec();
             Aggregator cross_agg(spec);
 
-            m_db.add_attribute_aliases(spec.aliases);
-            m_db.add_attribute_units(spec.units);
-
             tsc->timeseries_local_aggregation(c, m_db, name.c_str(), std::max(blocksize, 1), cross_agg);
             comm.cross_aggregate(m_db, cross_agg);
 
@@ -348,6 +345,14 @@ class SpotController : public cali::internal::CustomOutputController
 
         auto tsc = std::dynamic_pointer_cast<SpotTimeseriesController>(p);
 
+        {
+            // make sure the summary does not create the metric attributes without their aliases and units
+            QuerySpec spec = tsc->timeseries_spec();
+
+            m_db.add_attribute_aliases(spec.aliases);
+            m_db.add_attribute_units(spec.units);
+        }
+
         const char* summary_local_query = "aggregate count(),sum(loop.iterations) where loop group by loop";
         const char* summary_cross_query = "aggregate max(sum#loop.iterations),max(count) group by loop";
 
-- 
2.43.0


From 6422399314f4bcaf37a54067cb061a6ca2460800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:38 +0000
Subject: [PATCH 81/93] fix: use the statuses of MPI_Waitsome and MPI_Testsome
 in their order

---
 src/services/mpiwrap/Wrapper.w | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index 6d0b1a4..ae2b04f 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -731,11 +731,11 @@ post_init_cb(Caliper* c, Channel* channel)
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active())
                 for (int i = 0; i < *{{2}}; ++i)
-                   mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i], {{4}}+{{3}}[i]);
+                   mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i], {{4}}+i);
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active())
                for (int i = 0; i < *{{2}}; ++i) {
                    mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i]);
-                   mwc->pattern.handle_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i], {{4}}+{{3}}[i]);
+                   mwc->pattern.handle_completion(&c, mwc->channel.body(), 1, tmp_req+{{3}}[i], {{4}}+i);
                }
         }
 
-- 
2.43.0


From 14f23e73458961db80f08959d0613241b196aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:38 +0000
Subject: [PATCH 82/93] fix: handle MPI_Waitany and MPI_Testany without an
 active request

---
 src/services/mpiwrap/Wrapper.w | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index ae2b04f..ce7889d 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -675,9 +675,9 @@ post_init_cb(Caliper* c, Channel* channel)
         {{callfn}}
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_msg_tracing && nreq > 0 && mwc->enable_{{func}} && mwc->channel.is_active())
+            if (mwc->enable_msg_tracing && *{{2}} != MPI_UNDEFINED && mwc->enable_{{func}} && mwc->channel.is_active())
                 mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}), {{3}});
-            if (mwc->enable_msg_pattern && nreq > 0 && mwc->enable_{{func}} && mwc->channel.is_active()) {
+            if (mwc->enable_msg_pattern && *{{2}} != MPI_UNDEFINED && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 mwc->pattern.handle_pre_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}));
                 mwc->pattern.handle_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}), {{3}});
             }
@@ -879,7 +879,7 @@ post_init_cb(Caliper* c, Channel* channel)
         {{callfn}}
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (*{{3}} && mwc->enable_{{func}} && mwc->channel.is_active()) {
+            if (*{{3}} && *{{2}} != MPI_UNDEFINED && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 if (mwc->enable_msg_tracing)
                     mwc->tracing.handle_completion(&c, mwc->channel.body(), 1, tmp_req+(*{{2}}), {{4}});
                 if (mwc->enable_msg_pattern) {
-- 
2.43.0


From 5e6e454d10952b9b962d0d36d2066fb83b0294b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:38 +0000
Subject: [PATCH 83/93] fix: do not record a message when an inactive
 persistent request is completed

---
 src/services/mpiwrap/MpiPattern.cpp | 11 +++++++++--
 src/services/mpiwrap/MpiTracing.cpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/services/mpiwrap/MpiPattern.cpp b/src/services/mpiwrap/MpiPattern.cpp
index 74fc22d..12cab8d 100644
--- a/src/services/mpiwrap/MpiPattern.cpp
+++ b/src/services/mpiwrap/MpiPattern.cpp
@@ -36,6 +36,7 @@ struct MpiPattern::MpiPatternImpl {
         enum { Unknown, Send, Recv } op { Unknown };
 
         bool is_persistent { false };
+        bool is_active { false };
 
         int          target;
         int          tag;
@@ -186,6 +187,7 @@ struct MpiPattern::MpiPatternImpl {
 
         info.op            = RequestInfo::Recv;
         info.is_persistent = false;
+        info.is_active     = true;
         info.target        = src;
         info.tag           = tag;
         info.type          = type;
@@ -233,6 +235,8 @@ struct MpiPattern::MpiPatternImpl {
             if (it == req_map.end())
                 continue;
 
+            it->second.is_active = true;
+
             RequestInfo info = it->second;
 
             if (info.op == RequestInfo::Send)
@@ -266,7 +270,8 @@ struct MpiPattern::MpiPatternImpl {
 
             RequestInfo info = it->second;
 
-            if (info.op == RequestInfo::Recv) {
+            // completion calls ignore inactive persistent requests
+            if (info.op == RequestInfo::Recv && info.is_active) {
                 int size = 0;
                 PMPI_Type_size(info.type, &size);
                 int count = 0;
@@ -275,7 +280,9 @@ struct MpiPattern::MpiPatternImpl {
                 push_recv_event(c, chB, statuses[i].MPI_SOURCE, size * count, statuses[i].MPI_TAG);
             }
 
-            if (!info.is_persistent)
+            if (info.is_persistent)
+                it->second.is_active = false;
+            else
                 req_map.erase(it);
         }
     }
diff --git a/src/services/mpiwrap/MpiTracing.cpp b/src/services/mpiwrap/MpiTracing.cpp
index 2b15541..7e5094d 100644
--- a/src/services/mpiwrap/MpiTracing.cpp
+++ b/src/services/mpiwrap/MpiTracing.cpp
@@ -40,6 +40,7 @@ struct MpiTracing::MpiTracingImpl {
         enum { Unknown, Send, Recv } op { Unknown };
 
         bool is_persistent { false };
+        bool is_active { false };
 
         int          target;
         int          tag;
@@ -252,6 +253,7 @@ struct MpiTracing::MpiTracingImpl {
 
         info.op            = RequestInfo::Recv;
         info.is_persistent = false;
+        info.is_active     = true;
         info.target        = src;
         info.tag           = tag;
         info.type          = type;
@@ -300,6 +302,8 @@ struct MpiTracing::MpiTracingImpl {
             if (it == req_map.end())
                 continue;
 
+            it->second.is_active = true;
+
             RequestInfo info = it->second;
 
             if (info.op == RequestInfo::Send)
@@ -319,7 +323,8 @@ struct MpiTracing::MpiTracingImpl {
 
             RequestInfo info = it->second;
 
-            if (info.op == RequestInfo::Recv) {
+            // completion calls ignore inactive persistent requests
+            if (info.op == RequestInfo::Recv && info.is_active) {
                 int size = 0;
                 PMPI_Type_size(info.type, &size);
                 int count = 0;
@@ -328,7 +333,9 @@ struct MpiTracing::MpiTracingImpl {
                 push_recv_event(c, chB, statuses[i].MPI_SOURCE, size * count, statuses[i].MPI_TAG, info.comm_node);
             }
 
-            if (!info.is_persistent)
+            if (info.is_persistent)
+                it->second.is_active = false;
+            else
                 req_map.erase(it);
         }
     }
-- 
2.43.0


From 31589c9e1d0197c448865ab13aa9a1e3db6dac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:38 +0000
Subject: [PATCH 84/93] fix: ignore insignificant arguments of rooted MPI
 collectives

---
 src/services/mpiwrap/MpiPattern.cpp | 14 ++++++++++----
 src/services/mpiwrap/MpiTracing.cpp | 14 ++++++++++----
 src/services/mpiwrap/Wrapper.w      | 10 ++++++----
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/services/mpiwrap/MpiPattern.cpp b/src/services/mpiwrap/MpiPattern.cpp
index 12cab8d..7f7d198 100644
--- a/src/services/mpiwrap/MpiPattern.cpp
+++ b/src/services/mpiwrap/MpiPattern.cpp
@@ -443,21 +443,27 @@ void MpiPattern::request_free(Caliper*, ChannelBody*, MPI_Request* req)
 
 void MpiPattern::handle_12n(Caliper* c, ChannelBody* chB, int count, MPI_Datatype type, int root, MPI_Comm comm)
 {
-    int size = 0;
-    PMPI_Type_size(type, &size);
     int rank = 0;
     PMPI_Comm_rank(comm, &rank);
 
+    // count and type are only significant on the sending processes
+    int size = 0;
+    if (rank == root)
+        PMPI_Type_size(type, &size);
+
     mP->push_coll_event(c, chB, Coll_12N, (rank == root ? count : 0) * size, root);
 }
 
 void MpiPattern::handle_n21(Caliper* c, ChannelBody* chB, int count, MPI_Datatype type, int root, MPI_Comm comm)
 {
-    int size = 0;
-    PMPI_Type_size(type, &size);
     int rank = 0;
     PMPI_Comm_rank(comm, &rank);
 
+    // count and type are only significant on the sending processes
+    int size = 0;
+    if (rank != root)
+        PMPI_Type_size(type, &size);
+
     mP->push_coll_event(c, chB, Coll_N21, (rank != root ? count : 0) * size, root);
 }
 
diff --git a/src/services/mpiwrap/MpiTracing.cpp b/src/services/mpiwrap/MpiTracing.cpp
index 7e5094d..3594b8e 100644
--- a/src/services/mpiwrap/MpiTracing.cpp
+++ b/src/services/mpiwrap/MpiTracing.cpp
@@ -474,21 +474,27 @@ void MpiTracing::request_free(Caliper*, ChannelBody*, MPI_Request* req)
 
 void MpiTracing::handle_12n(Caliper* c, ChannelBody* chB, int count, MPI_Datatype type, int root, MPI_Comm comm)
 {
-    int size = 0;
-    PMPI_Type_size(type, &size);
     int rank = 0;
     PMPI_Comm_rank(comm, &rank);
 
+    // count and type are only significant on the sending processes
+    int size = 0;
+    if (rank == root)
+        PMPI_Type_size(type, &size);
+
     mP->push_coll_event(c, chB, Coll_12N, (rank == root ? count : 0) * size, root, mP->lookup_comm(c, comm));
 }
 
 void MpiTracing::handle_n21(Caliper* c, ChannelBody* chB, int count, MPI_Datatype type, int root, MPI_Comm comm)
 {
-    int size = 0;
-    PMPI_Type_size(type, &size);
     int rank = 0;
     PMPI_Comm_rank(comm, &rank);
 
+    // count and type are only significant on the sending processes
+    int size = 0;
+    if (rank != root)
+        PMPI_Type_size(type, &size);
+
     mP->push_coll_event(c, chB, Coll_N21, (rank != root ? count : 0) * size, root, mP->lookup_comm(c, comm));
 }
 
diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index ce7889d..770091d 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -1017,15 +1017,17 @@ post_init_cb(Caliper* c, Channel* channel)
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active()) {
-                int tmp_commsize = 0;
+                int tmp_rank = 0, tmp_commsize = 0;
+                PMPI_Comm_rank({{8}}, &tmp_rank);
                 PMPI_Comm_size({{8}}, &tmp_commsize);
-                int total_count  = std::accumulate({{2}}, {{2}}+tmp_commsize, 0);
+                int total_count  = tmp_rank == {{7}} ? std::accumulate({{2}}, {{2}}+tmp_commsize, 0) : 0;
                 mwc->tracing.handle_12n(&c, mwc->channel.body(), total_count, {{3}}, {{7}}, {{8}});
             }
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active()) {
-                int tmp_commsize = 0;
+                int tmp_rank = 0, tmp_commsize = 0;
+                PMPI_Comm_rank({{8}}, &tmp_rank);
                 PMPI_Comm_size({{8}}, &tmp_commsize);
-                int total_count  = std::accumulate({{2}}, {{2}}+tmp_commsize, 0);
+                int total_count  = tmp_rank == {{7}} ? std::accumulate({{2}}, {{2}}+tmp_commsize, 0) : 0;
                 mwc->pattern.handle_12n(&c, mwc->channel.body(), total_count, {{3}}, {{7}}, {{8}});
             }
         }
-- 
2.43.0


From 0d2e12884c2a43057bbe07306ffe6ac5a24b1cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:38 +0000
Subject: [PATCH 85/93] fix: use the receive arguments of in-place MPI
 all-to-all collectives

---
 src/services/mpiwrap/Wrapper.w | 46 +++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index 770091d..09bfc80 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -1201,10 +1201,14 @@ post_init_cb(Caliper* c, Channel* channel)
         {{callfn}}
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->tracing.handle_n2n(&c, mwc->channel.body(), {{1}}, {{2}}, {{6}});
-            if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->pattern.handle_n2n(&c, mwc->channel.body(), {{1}}, {{2}}, {{6}});
+            if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active()) {
+                bool in_place = {{0}} == MPI_IN_PLACE;
+                mwc->tracing.handle_n2n(&c, mwc->channel.body(), in_place ? {{4}} : {{1}}, in_place ? {{5}} : {{2}}, {{6}});
+            }
+            if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active()) {
+                bool in_place = {{0}} == MPI_IN_PLACE;
+                mwc->pattern.handle_n2n(&c, mwc->channel.body(), in_place ? {{4}} : {{1}}, in_place ? {{5}} : {{2}}, {{6}});
+            }
         }
         ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
 #ifndef CALIPER_MPIWRAP_USE_GOTCHA
@@ -1224,10 +1228,18 @@ post_init_cb(Caliper* c, Channel* channel)
         {{callfn}}
 
         for (MpiWrapperConfig* mwc = MpiWrapperConfig::get_wrapper_config(); mwc; mwc = mwc->next) {
-            if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->tracing.handle_n2n(&c, mwc->channel.body(), {{1}}, {{2}}, {{7}});
-            if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active())
-                mwc->pattern.handle_n2n(&c, mwc->channel.body(), {{1}}, {{2}}, {{7}});
+            if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active()) {
+                int tmp_rank = 0;
+                PMPI_Comm_rank({{7}}, &tmp_rank);
+                bool in_place = {{0}} == MPI_IN_PLACE;
+                mwc->tracing.handle_n2n(&c, mwc->channel.body(), in_place ? {{4}}[tmp_rank] : {{1}}, in_place ? {{6}} : {{2}}, {{7}});
+            }
+            if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active()) {
+                int tmp_rank = 0;
+                PMPI_Comm_rank({{7}}, &tmp_rank);
+                bool in_place = {{0}} == MPI_IN_PLACE;
+                mwc->pattern.handle_n2n(&c, mwc->channel.body(), in_place ? {{4}}[tmp_rank] : {{1}}, in_place ? {{6}} : {{2}}, {{7}});
+            }
         }
 
         ::pop_mpifn(&c, ::{{func}}_wrap_count > 0);
@@ -1251,12 +1263,14 @@ post_init_cb(Caliper* c, Channel* channel)
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{6}}, &tmp_commsize);
-                mwc->tracing.handle_n2n(&c, mwc->channel.body(), tmp_commsize * {{1}}, {{2}}, {{6}});
+                bool in_place = {{0}} == MPI_IN_PLACE;
+                mwc->tracing.handle_n2n(&c, mwc->channel.body(), tmp_commsize * (in_place ? {{4}} : {{1}}), in_place ? {{5}} : {{2}}, {{6}});
             }
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{6}}, &tmp_commsize);
-                mwc->pattern.handle_n2n(&c, mwc->channel.body(), tmp_commsize * {{1}}, {{2}}, {{6}});
+                bool in_place = {{0}} == MPI_IN_PLACE;
+                mwc->pattern.handle_n2n(&c, mwc->channel.body(), tmp_commsize * (in_place ? {{4}} : {{1}}), in_place ? {{5}} : {{2}}, {{6}});
             }
         }
 
@@ -1282,14 +1296,18 @@ post_init_cb(Caliper* c, Channel* channel)
             if (mwc->enable_msg_tracing && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{8}}, &tmp_commsize);
-                int total_count  = std::accumulate({{1}}, {{1}}+tmp_commsize, 0);
-                mwc->tracing.handle_n2n(&c, mwc->channel.body(), total_count, {{3}}, {{8}});
+                bool in_place = {{0}} == MPI_IN_PLACE;
+                const int* counts = in_place ? {{5}} : {{1}};
+                int total_count  = std::accumulate(counts, counts+tmp_commsize, 0);
+                mwc->tracing.handle_n2n(&c, mwc->channel.body(), total_count, in_place ? {{7}} : {{3}}, {{8}});
             }
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_commsize = 0;
                 PMPI_Comm_size({{8}}, &tmp_commsize);
-                int total_count  = std::accumulate({{1}}, {{1}}+tmp_commsize, 0);
-                mwc->pattern.handle_n2n(&c, mwc->channel.body(), total_count, {{3}}, {{8}});
+                bool in_place = {{0}} == MPI_IN_PLACE;
+                const int* counts = in_place ? {{5}} : {{1}};
+                int total_count  = std::accumulate(counts, counts+tmp_commsize, 0);
+                mwc->pattern.handle_n2n(&c, mwc->channel.body(), total_count, in_place ? {{7}} : {{3}}, {{8}});
             }
         }
 
-- 
2.43.0


From ff115545f9b9f923276e2a168361a16c3cd8418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:36 +0000
Subject: [PATCH 86/93] fix: determine the size of MPI_Scatterv from its send
 counts

---
 src/services/mpiwrap/Wrapper.w | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/mpiwrap/Wrapper.w b/src/services/mpiwrap/Wrapper.w
index 09bfc80..f6aa36b 100644
--- a/src/services/mpiwrap/Wrapper.w
+++ b/src/services/mpiwrap/Wrapper.w
@@ -1020,14 +1020,14 @@ post_init_cb(Caliper* c, Channel* channel)
                 int tmp_rank = 0, tmp_commsize = 0;
                 PMPI_Comm_rank({{8}}, &tmp_rank);
                 PMPI_Comm_size({{8}}, &tmp_commsize);
-                int total_count  = tmp_rank == {{7}} ? std::accumulate({{2}}, {{2}}+tmp_commsize, 0) : 0;
+                int total_count  = tmp_rank == {{7}} ? std::accumulate({{1}}, {{1}}+tmp_commsize, 0) : 0;
                 mwc->tracing.handle_12n(&c, mwc->channel.body(), total_count, {{3}}, {{7}}, {{8}});
             }
             if (mwc->enable_msg_pattern && mwc->enable_{{func}} && mwc->channel.is_active()) {
                 int tmp_rank = 0, tmp_commsize = 0;
                 PMPI_Comm_rank({{8}}, &tmp_rank);
                 PMPI_Comm_size({{8}}, &tmp_commsize);
-                int total_count  = tmp_rank == {{7}} ? std::accumulate({{2}}, {{2}}+tmp_commsize, 0) : 0;
+                int total_count  = tmp_rank == {{7}} ? std::accumulate({{1}}, {{1}}+tmp_commsize, 0) : 0;
                 mwc->pattern.handle_12n(&c, mwc->channel.body(), total_count, {{3}}, {{7}}, {{8}});
             }
         }
-- 
2.43.0


From 40306e6d76e89f28bbbee47d5daf3cd884414e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:36 +0000
Subject: [PATCH 87/93] fix: ignore ends of OpenMP regions that began before
 the ompt service

---
 src/services/ompt/OmptService.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/services/ompt/OmptService.cpp b/src/services/ompt/OmptService.cpp
index 49178a1..cc2a3c5 100644
--- a/src/services/ompt/OmptService.cpp
+++ b/src/services/ompt/OmptService.cpp
@@ -65,6 +65,15 @@ Attribute num_threads_attr;
 
 unsigned int num_skipped { 0 };
 
+// Callbacks can arrive for regions that were begun before the OMPT service was
+// set up. There is nothing to end in this case, and an end() without a matching
+// begin() would put the thread's region stack into an error state.
+void end_region(Caliper& c, const Attribute& attr)
+{
+    if (!c.get(attr).empty())
+        c.end(attr);
+}
+
 //
 // --- The OMPT callbacks
 //
@@ -107,10 +116,8 @@ void cb_thread_end(ompt_data_t*)
         return;
     }
 
-    if (!c.get(thread_type_attr).empty())
-        c.end(thread_type_attr);
-    if (!c.get(proc_id_attr).empty())
-        c.end(proc_id_attr);
+    end_region(c, thread_type_attr);
+    end_region(c, proc_id_attr);
 }
 
 void cb_parallel_begin(ompt_data_t*, ompt_frame_t*, ompt_data_t*, unsigned nthreads, int, const void*)
@@ -134,7 +141,7 @@ void cb_parallel_end(ompt_data_t*, ompt_data_t*, int, const void*)
         return;
     }
 
-    c.end(region_attr);
+    end_region(c, region_attr);
 }
 
 void cb_implicit_task(
@@ -161,8 +168,8 @@ void cb_implicit_task(
         c.begin(num_threads_attr, cali_make_variant_from_int(static_cast<int>(par)));
         c.begin(thread_id_attr, cali_make_variant_from_int(static_cast<int>(index)));
     } else {
-        c.end(thread_id_attr);
-        c.end(num_threads_attr);
+        end_region(c, thread_id_attr);
+        end_region(c, num_threads_attr);
     }
 }
 
@@ -187,7 +194,7 @@ void cb_work(int wstype, ompt_scope_endpoint_t endpoint, ompt_data_t*, ompt_data
     if (endpoint == ompt_scope_begin) {
         c.begin(work_attr, Variant(name));
     } else if (endpoint == ompt_scope_end) {
-        c.end(work_attr);
+        end_region(c, work_attr);
     }
 }
 
@@ -214,7 +221,7 @@ void cb_sync_region(int kind, ompt_scope_endpoint_t endpoint, ompt_data_t*, ompt
     if (endpoint == ompt_scope_begin)
         c.begin(sync_attr, Variant(name));
     else if (endpoint == ompt_scope_end)
-        c.end(sync_attr);
+        end_region(c, sync_attr);
 }
 
 //
-- 
2.43.0


From c6ad85c5d1b6cfe0563a2c5448434dab2f7ddbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:23 +0000
Subject: [PATCH 88/93] fix: send complete large records in MPI aggregation

---
 src/caliper/aggregate_over_mpi.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/caliper/aggregate_over_mpi.cpp b/src/caliper/aggregate_over_mpi.cpp
index 5d8bbec..fc5262e 100644
--- a/src/caliper/aggregate_over_mpi.cpp
+++ b/src/caliper/aggregate_over_mpi.cpp
@@ -13,6 +13,7 @@
 #include "../common/SnapshotBuffer.h"
 
 #include <set>
+#include <vector>
 
 using namespace cali;
 
@@ -59,7 +60,18 @@ void pack_and_send(int dest, CaliperMetadataAccessInterface& db, Aggregator& agg
                 else if (e.is_immediate())
                     recursive_append_path(db, db.node(e.attribute()), nodebuf, written_nodes);
 
-            snapbuf.append(CompressedSnapshotRecord(list.size(), list.data()));
+            CompressedSnapshotRecord rec(list.size(), list.data());
+
+            if (rec.num_skipped() == 0)
+                snapbuf.append(rec);
+            else {
+                // the record didn't fit in CompressedSnapshotRecord's internal buffer
+                std::vector<unsigned char> buf(rec.needed_len());
+                CompressedSnapshotRecord   large_rec(buf.size(), buf.data());
+
+                large_rec.append(list.size(), list.data());
+                snapbuf.append(large_rec);
+            }
         }
     );
 
-- 
2.43.0


From efc05d6c131da3e559e657e59cc9601cddbc46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:20 +0000
Subject: [PATCH 89/93] fix: don't write other processes' strings into the
 broadcast buffer

---
 src/caliper/OutputCommMpi.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/caliper/OutputCommMpi.cpp b/src/caliper/OutputCommMpi.cpp
index 094aec3..3579bb7 100644
--- a/src/caliper/OutputCommMpi.cpp
+++ b/src/caliper/OutputCommMpi.cpp
@@ -79,7 +79,9 @@ std::string OutputCommMpi::bcast_str(const std::string& str) const
         MPI_Bcast(&len, 1, MPI_UNSIGNED, 0, mP->comm);
 
         std::vector<char> buf(len, '\0');
-        std::copy(str.begin(), str.end(), std::begin(buf));
+        // the other processes' strings may have a different length
+        if (mP->rank == 0)
+            std::copy(str.begin(), str.end(), std::begin(buf));
 
         MPI_Bcast(buf.data(), len, MPI_CHAR, 0, mP->comm);
 
-- 
2.43.0


From 068acd8a468a6bd3274ec079e483e55843f553c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:45 +0000
Subject: [PATCH 90/93] fix: separate the services lists of a config spec

---
 src/caliper/ConfigManager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index f287e7d..d5834e7 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -987,8 +987,12 @@ struct ConfigManager::ConfigManagerImpl {
             for (const auto& p : it->second.rec_dict(&ok))
                 spec.initial_cfg[p.first] = p.second.to_string();
 
-        if (cfg_srvcs.size() > 0)
-            spec.initial_cfg["CALI_SERVICES_ENABLE"].append(::join_stringlist(cfg_srvcs));
+        if (cfg_srvcs.size() > 0) {
+            std::string& services = spec.initial_cfg["CALI_SERVICES_ENABLE"];
+            if (!services.empty())
+                services.append(",");
+            services.append(::join_stringlist(cfg_srvcs));
+        }
 
         it = dict.find("defaults");
         if (ok && !m_error && it != dict.end())
-- 
2.43.0


From 0dc678a24a34c231062d6600c08422eb1dcc5fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:01 +0000
Subject: [PATCH 91/93] fix: keep Kokkos callbacks valid after their channel
 ends

---
 src/services/kokkos/KokkosTime.cpp | 81 ++++++++++++++++++------------
 1 file changed, 48 insertions(+), 33 deletions(-)

diff --git a/src/services/kokkos/KokkosTime.cpp b/src/services/kokkos/KokkosTime.cpp
index a381388..f97f316 100644
--- a/src/services/kokkos/KokkosTime.cpp
+++ b/src/services/kokkos/KokkosTime.cpp
@@ -55,9 +55,14 @@ class KokkosTime
     cali::Annotation kernel_name_annot;
     cali::Annotation kernel_type_annot;
 
-    KokkosTime(Caliper* c, Channel* chn)
-        : kernel_name_annot("region"), kernel_type_annot("kernel_type", CALI_ATTR_SKIP_EVENTS)
-    {}
+    KokkosTime() : kernel_name_annot("region"), kernel_type_annot("kernel_type", CALI_ATTR_SKIP_EVENTS) {}
+
+    // Number of open Kokkos regions on this thread
+    static int& depth()
+    {
+        thread_local int d = 0;
+        return d;
+    }
 
 public:
 
@@ -65,46 +70,56 @@ public:
     {
         kernel_type_annot.begin(type);
         kernel_name_annot.begin(name);
+        ++depth();
     }
 
     void popRegion()
     {
+        // Skip regions that began before we connected to Kokkos
+        if (depth() == 0)
+            return;
+
+        --depth();
         kernel_name_annot.end();
         kernel_type_annot.end();
     }
 
-    static void kokkostime_register(Caliper* c, Channel* chn)
+    static void connect_kokkos_callbacks()
     {
-
-        auto* instance = new KokkosTime(c, chn);
-        chn->events().post_init_evt.connect([instance](Caliper* c, Channel* chn) {
-            kokkosp_callbacks.kokkosp_begin_parallel_for_callback.connect(
-                [&](const char* name, const uint32_t, uint64_t*) { instance->pushRegion(name, "kokkos.parallel_for"); }
-            );
-            kokkosp_callbacks.kokkosp_begin_parallel_reduce_callback.connect(
-                [&](const char* name, const uint32_t, uint64_t*) {
-                    instance->pushRegion(name, "kokkos.parallel_reduce");
-                }
-            );
-            kokkosp_callbacks.kokkosp_begin_parallel_scan_callback.connect(
-                [&](const char* name, const uint32_t, uint64_t*) { instance->pushRegion(name, "kokkos.parallel_scan"); }
-            );
-            kokkosp_callbacks.kokkosp_begin_fence_callback.connect([&](const char* name, const uint32_t, uint64_t*) {
-                instance->pushRegion(name, "kokkos.fence");
-            });
-            kokkosp_callbacks.kokkosp_end_parallel_for_callback.connect([&](const uint64_t) { instance->popRegion(); });
-            kokkosp_callbacks.kokkosp_end_parallel_reduce_callback.connect([&](const uint64_t) {
-                instance->popRegion();
-            });
-            kokkosp_callbacks.kokkosp_end_parallel_scan_callback.connect([&](const uint64_t) { instance->popRegion(); }
-            );
-            kokkosp_callbacks.kokkosp_end_fence_callback.connect([&](const uint64_t) { instance->popRegion(); });
-            kokkosp_callbacks.kokkosp_push_region_callback.connect([&](const char* regionName) {
-                instance->pushRegion(regionName, "kokkos.user_region");
-            });
-            kokkosp_callbacks.kokkosp_pop_region_callback.connect([&]() { instance->popRegion(); });
+        //   The Kokkos callbacks can't be disconnected again and regions are
+        // visible in all channels, so there is a single persistent instance.
+        static KokkosTime* instance = nullptr;
+
+        if (instance)
+            return;
+
+        instance = new KokkosTime;
+
+        kokkosp_callbacks.kokkosp_begin_parallel_for_callback.connect(
+            [](const char* name, const uint32_t, uint64_t*) { instance->pushRegion(name, "kokkos.parallel_for"); }
+        );
+        kokkosp_callbacks.kokkosp_begin_parallel_reduce_callback.connect(
+            [](const char* name, const uint32_t, uint64_t*) { instance->pushRegion(name, "kokkos.parallel_reduce"); }
+        );
+        kokkosp_callbacks.kokkosp_begin_parallel_scan_callback.connect(
+            [](const char* name, const uint32_t, uint64_t*) { instance->pushRegion(name, "kokkos.parallel_scan"); }
+        );
+        kokkosp_callbacks.kokkosp_begin_fence_callback.connect(
+            [](const char* name, const uint32_t, uint64_t*) { instance->pushRegion(name, "kokkos.fence"); }
+        );
+        kokkosp_callbacks.kokkosp_end_parallel_for_callback.connect([](const uint64_t) { instance->popRegion(); });
+        kokkosp_callbacks.kokkosp_end_parallel_reduce_callback.connect([](const uint64_t) { instance->popRegion(); });
+        kokkosp_callbacks.kokkosp_end_parallel_scan_callback.connect([](const uint64_t) { instance->popRegion(); });
+        kokkosp_callbacks.kokkosp_end_fence_callback.connect([](const uint64_t) { instance->popRegion(); });
+        kokkosp_callbacks.kokkosp_push_region_callback.connect([](const char* regionName) {
+            instance->pushRegion(regionName, "kokkos.user_region");
         });
-        chn->events().finish_evt.connect([instance](Caliper*, Channel*) { delete instance; });
+        kokkosp_callbacks.kokkosp_pop_region_callback.connect([]() { instance->popRegion(); });
+    }
+
+    static void kokkostime_register(Caliper* c, Channel* chn)
+    {
+        chn->events().post_init_evt.connect([](Caliper*, Channel*) { connect_kokkos_callbacks(); });
 
         Log(1).stream() << chn->name() << ": Registered kokkostime service" << std::endl;
     }
-- 
2.43.0


From e003b8373526c99a134ab2e84d883d07194e27b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:01 +0000
Subject: [PATCH 92/93] fix: don't record Kokkos data in inactive or deleted
 channels

---
 src/services/kokkos/KokkosLookup.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/services/kokkos/KokkosLookup.cpp b/src/services/kokkos/KokkosLookup.cpp
index 4c358e2..5b6cab1 100644
--- a/src/services/kokkos/KokkosLookup.cpp
+++ b/src/services/kokkos/KokkosLookup.cpp
@@ -255,6 +255,9 @@ class KokkosLookup
 
     void kokkos_allocate(const cali::kokkos::SpaceHandle handle, const char* name, const void* const ptr, size_t size)
     {
+        if (!m_channel.is_active())
+            return;
+
         Caliper c;
         Variant v_space(handle.name);
 
@@ -264,12 +267,18 @@ class KokkosLookup
 
     void kokkos_deallocate(const void* const ptr)
     {
+        if (!m_channel.is_active())
+            return;
+
         Caliper c;
         c.memory_region_end(m_channel.body(), ptr);
     }
 
     void kokkos_deepcopy(const void* dst, const void* src, uint64_t size)
     {
+        if (!m_channel.is_active())
+            return;
+
         Caliper c;
 
         Entry data[] = { { m_dst_attr, Variant(CALI_TYPE_ADDR, &dst, sizeof(void*)) },
@@ -361,7 +370,8 @@ public:
 #endif
         chn->events().finish_evt.connect([instance](Caliper* c, Channel* chn) {
             instance->finish_log(c, chn);
-            delete instance;
+            // The Kokkos callbacks still refer to the instance: it must remain
+            instance->m_channel = Channel();
         });
 
         Log(1).stream() << chn->name() << ": Registered kokkoslookup service" << std::endl;
-- 
2.43.0


From 6aff7925e5d886bd9d2804912d1aef3c9cb85560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:24 +0000
Subject: [PATCH 93/93] fix: don't track failed allocations

---
 src/services/sysalloc/SysAllocService.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/services/sysalloc/SysAllocService.cpp b/src/services/sysalloc/SysAllocService.cpp
index 306f06e..ff01544 100644
--- a/src/services/sysalloc/SysAllocService.cpp
+++ b/src/services/sysalloc/SysAllocService.cpp
@@ -59,7 +59,7 @@ void* cali_malloc_wrapper(size_t size)
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
         Caliper c = Caliper::sigsafe_instance(); // prevent reentry
 
-        if (c && p->channel.is_active())
+        if (c && ret && p->channel.is_active())
             c.memory_region_begin(p->channel.body(), ret, "malloc", 1, 1, &size);
     }
 
@@ -80,7 +80,7 @@ void* cali_calloc_wrapper(size_t num, size_t size)
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
         Caliper c = Caliper::sigsafe_instance(); // prevent reentry
 
-        if (c && p->channel.is_active())
+        if (c && ret && p->channel.is_active())
             c.memory_region_begin(p->channel.body(), ret, "calloc", size, 1, &num);
     }
 
@@ -108,7 +108,7 @@ void* cali_realloc_wrapper(void* ptr, size_t size)
     for (ChannelList* p = sysalloc_channels; p; p = p->next) {
         Caliper c = Caliper::sigsafe_instance();
 
-        if (c && p->channel.is_active())
+        if (c && ret && p->channel.is_active())
             c.memory_region_begin(p->channel.body(), ret, "realloc", 1, 1, &size);
     }
 
-- 
2.43.0

