From 52c900ccc59a84629b3ee646e3ef4f223224e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:59 +0000
Subject: [PATCH 001/100] fix: Node::remove(index) checks the index before it
 deletes the child

---
 src/libs/conduit/conduit_node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index d166625..9a08f56 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14646,6 +14646,12 @@ Node::append()
 void
 Node::remove(index_t idx)
 {
+    if( ((size_t) idx) >= m_children.size())
+    {
+        CONDUIT_ERROR("Cannot remove child with invalid index: " << idx <<
+                      " (number of children: " << m_children.size() << ")");
+    }
+
     // note: we must remove the child pointer before the
     // schema. b/c the child pointer uses the schema
     // to cleanup
-- 
2.43.0


From 69d2a87a4a6dde14995b596d84f6539470f6f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:00 +0000
Subject: [PATCH 002/100] fix: Node::fetch_existing reports an empty path
 instead of recursing forever

---
 src/libs/conduit/conduit_node.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 9a08f56..9ac59f2 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14327,6 +14327,10 @@ Node::fetch_existing(const std::string &path) const
     // cull empty paths
     if(p_curr == "")
     {
+        if(p_next.empty())
+        {
+            CONDUIT_ERROR("Cannot fetch_existing empty path string");
+        }
         return this->fetch_existing(p_next);
     }
 
@@ -14376,6 +14380,10 @@ Node::fetch_existing(const std::string &path)
     // cull empty paths
     if(p_curr == "")
     {
+        if(p_next.empty())
+        {
+            CONDUIT_ERROR("Cannot fetch_existing empty path string");
+        }
         return this->fetch_existing(p_next);
     }
 
-- 
2.43.0


From 3a68674b0d3613c9ff10386b90e0f3d697e6dfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:00 +0000
Subject: [PATCH 003/100] fix: Schema::child_index reports non-object schemas
 instead of dereferencing NULL

---
 src/libs/conduit/conduit_schema.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index e7c7bfe..eca90c9 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -987,6 +987,15 @@ Schema::child_index(const std::string &name) const
 {
     index_t res=0;
 
+    // only objects have named children
+    if(m_dtype.id() != DataType::OBJECT_ID)
+    {
+        CONDUIT_ERROR("<Schema::child_index> Error: "
+                      << "Schema(" << this->path() << ") "
+                      << "is not an Object, attempt to access invalid child "
+                      << "named:" << name);
+    }
+
     // find p_curr with an iterator
     std::map<std::string, index_t>::const_iterator itr;
     itr = object_map().find(name);
-- 
2.43.0


From 6d6c673690a8494330bc1ede0e4877e9664f72e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:20 +0000
Subject: [PATCH 004/100] fix: Node::add_child on a list or leaf releases the
 old children and data first

---
 src/libs/conduit/conduit_node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 9ac59f2..c534d66 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14268,6 +14268,12 @@ Node::add_child(const std::string &name)
         return child(name);
     }
 
+    // a named child forces OBJECT_ID, release what a leaf or list holds
+    if(!dtype().is_object())
+    {
+        init(DataType::object());
+    }
+
     Schema &child_schema = m_schema->add_child(name);
     Schema *child_ptr = &child_schema;
     Node *child_node = new Node();
-- 
2.43.0


From 7bfea4f392333fd373c5cee0b4ed4b1bc8cdd7a2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:25:49 +0000
Subject: [PATCH 005/100] fix: Node::release frees storage it owns even when
 the node describes nothing

---
 src/libs/conduit/conduit_node.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index c534d66..1cf2e3d 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17337,17 +17337,11 @@ Node::release()
     // clean up any allocated or mmaped buffers
     if(m_alloced && m_data)
     {
-        ///
-        /// TODO: why do we need to check for empty here?
-        ///
-        if(dtype().id() != DataType::EMPTY_ID)
-        {
-            // clean up our storage
-            utils::conduit_free(m_data, m_allocator_id);
-            m_data = NULL;
-            m_data_size = 0;
-            m_alloced   = false;
-        }
+        // clean up our storage
+        utils::conduit_free(m_data, m_allocator_id);
+        m_data = NULL;
+        m_data_size = 0;
+        m_alloced   = false;
     }
     else if(m_mmaped && m_mmap)
     {
-- 
2.43.0


From bcaa6bc8ca0806b843e36bc98022c2d691fe70f2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:25:49 +0000
Subject: [PATCH 006/100] fix: Node::list_of_external drops the schema children
 of a node that already is a list

---
 src/libs/conduit/conduit_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 1cf2e3d..54c16f0 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14767,7 +14767,7 @@ Node::list_of_external(void *data,
                        const Schema &schema,
                        index_t num_entries)
 {
-    release();
+    reset();
     init_list();
 
     Schema s_compact;
-- 
2.43.0


From 1a29ae5a23092c68c6c31e653a24af763239b250 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:27:42 +0000
Subject: [PATCH 007/100] fix: Node::set(Node) copes with a source that is the
 node itself, its ancestor or its descendant

---
 src/libs/conduit/conduit_node.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 54c16f0..49e4c15 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -468,6 +468,32 @@ Node::mmap(const std::string &stream_path,
 void
 Node::set_node(const Node &node)
 {
+    // nothing to do for self assignment
+    if(this == &node)
+    {
+        return;
+    }
+
+    // if one of the nodes contains the other, resetting our tree would also
+    // destroy the source, so we need to copy the source first
+    bool related = false;
+    for(const Node *p = node.m_parent; p != NULL && !related; p = p->m_parent)
+    {
+        related = (p == this);
+    }
+    for(const Node *p = m_parent; p != NULL && !related; p = p->m_parent)
+    {
+        related = (p == &node);
+    }
+
+    if(related)
+    {
+        Node src_copy;
+        src_copy.set_node(node);
+        set_node(src_copy);
+        return;
+    }
+
     if(node.dtype().id() == DataType::OBJECT_ID)
     {
         reset();
-- 
2.43.0


From 6f6408076dd7d48b6349bd4597dbe0ee8aab5fbd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:27:42 +0000
Subject: [PATCH 008/100] fix: Node::swap and Node::move update the parent of
 the moved children

---
 src/libs/conduit/conduit_node.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 49e4c15..a34252d 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8801,6 +8801,15 @@ Node::swap(Node &n_b)
     // this should be an efficient O(1)
     std::swap(m_children,n_b.m_children);
 
+    // the swapped children need to point to their new parents
+    for(size_t i = 0; i < m_children.size(); i++)
+    {
+        m_children[i]->set_parent(this);
+    }
+    for(size_t i = 0; i < n_b.m_children.size(); i++)
+    {
+        n_b.m_children[i]->set_parent(&n_b);
+    }
 }
 
 
-- 
2.43.0


From f8740853e04722548798063d9582a1856ef59c26 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:28:49 +0000
Subject: [PATCH 009/100] fix: Node::set(std::vector) and set(initializer_list)
 honor the stride of a node they write in place

---
 src/libs/conduit/conduit_node.cpp | 414 ++++++++++++++++++++----------
 1 file changed, 276 insertions(+), 138 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index a34252d..a0f651b 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -1521,9 +1521,12 @@ void
 Node::set_int8_vector(const std::vector<int8> &data)
 {
     init(DataType::int8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int8)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int8),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(int8));
 }
 
 //---------------------------------------------------------------------------//
@@ -1538,9 +1541,12 @@ void
 Node::set_int16_vector(const std::vector<int16> &data)
 {
     init(DataType::int16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int16)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int16),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(int16));
 }
 
 //---------------------------------------------------------------------------//
@@ -1555,9 +1561,12 @@ void
 Node::set_int32_vector(const std::vector<int32> &data)
 {
     init(DataType::int32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int32),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(int32));
 }
 
 //---------------------------------------------------------------------------//
@@ -1572,9 +1581,12 @@ void
 Node::set_int64_vector(const std::vector<int64> &data)
 {
     init(DataType::int64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int64),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(int64));
 }
 
 //---------------------------------------------------------------------------//
@@ -1593,9 +1605,12 @@ void
 Node::set_uint8_vector(const std::vector<uint8> &data)
 {
     init(DataType::uint8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint8)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint8),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(uint8));
 }
 
 //---------------------------------------------------------------------------//
@@ -1610,9 +1625,12 @@ void
 Node::set_uint16_vector(const std::vector<uint16> &data)
 {
     init(DataType::uint16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint16)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint16),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(uint16));
 }
 
 //---------------------------------------------------------------------------//
@@ -1627,9 +1645,12 @@ void
 Node::set_uint32_vector(const std::vector<uint32> &data)
 {
     init(DataType::uint32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint32),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(uint32));
 }
 
 //---------------------------------------------------------------------------//
@@ -1644,9 +1665,12 @@ void
 Node::set_uint64_vector(const std::vector<uint64> &data)
 {
     init(DataType::uint64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint64),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(uint64));
 }
 
 //---------------------------------------------------------------------------//
@@ -1665,9 +1689,12 @@ void
 Node::set_float32_vector(const std::vector<float32> &data)
 {
     init(DataType::float32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(float32),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(float32));
 }
 
 //---------------------------------------------------------------------------//
@@ -1683,9 +1710,12 @@ void
 Node::set_float64_vector(const std::vector<float64> &data)
 {
     init(DataType::float64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(float64),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(float64));
 }
 
 //---------------------------------------------------------------------------//
@@ -1705,9 +1735,12 @@ void
 Node::set(const std::vector<char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(char),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(char));
 }
 
 //-----------------------------------------------------------------------------
@@ -1717,9 +1750,12 @@ void
 Node::set(const std::vector<signed char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(signed char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(signed char),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(signed char));
 }
 
 //-----------------------------------------------------------------------------
@@ -1727,9 +1763,12 @@ void
 Node::set(const std::vector<unsigned char> &data)
 {
     init(DataType::c_unsigned_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned char),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(unsigned char));
 }
 //-----------------------------------------------------------------------------
 #endif // end use char check
@@ -1742,9 +1781,12 @@ void
 Node::set(const std::vector<short> &data)
 {
     init(DataType::c_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(short)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(short),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(short));
 }
 
 //-----------------------------------------------------------------------------
@@ -1752,9 +1794,12 @@ void
 Node::set(const std::vector<unsigned short> &data)
 {
     init(DataType::c_unsigned_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned short)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned short),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(unsigned short));
 }
 //-----------------------------------------------------------------------------
 #endif // end use short check
@@ -1767,9 +1812,12 @@ void
 Node::set(const std::vector<int> &data)
 {
     init(DataType::c_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(int));
 }
 
 //-----------------------------------------------------------------------------
@@ -1777,9 +1825,12 @@ void
 Node::set(const std::vector<unsigned int> &data)
 {
     init(DataType::c_unsigned_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned int)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned int),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(unsigned int));
 }
 //-----------------------------------------------------------------------------
 #endif // end use int check
@@ -1792,9 +1843,12 @@ void
 Node::set(const std::vector<long> &data)
 {
     init(DataType::c_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(long),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(long));
 }
 
 //-----------------------------------------------------------------------------
@@ -1802,9 +1856,12 @@ void
 Node::set(const std::vector<unsigned long> &data)
 {
     init(DataType::c_unsigned_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned long),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(unsigned long));
 }
 //-----------------------------------------------------------------------------
 #endif // end use long check
@@ -1817,9 +1874,12 @@ void
 Node::set(const std::vector<long long> &data)
 {
     init(DataType::c_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(long long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(long long),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(long long));
 }
 
 //-----------------------------------------------------------------------------
@@ -1827,9 +1887,12 @@ void
 Node::set(const std::vector<unsigned long long> &data)
 {
     init(DataType::c_unsigned_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned long long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned long long),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(unsigned long long));
 }
 //-----------------------------------------------------------------------------
 #endif // end use long long check
@@ -1842,9 +1905,12 @@ void
 Node::set(const std::vector<float> &data)
 {
     init(DataType::c_float(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(float),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(float));
 }
 //-----------------------------------------------------------------------------
 #endif // end use float check
@@ -1857,9 +1923,12 @@ void
 Node::set(const std::vector<double> &data)
 {
     init(DataType::c_double(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(double)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(double),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(double));
 }
 //-----------------------------------------------------------------------------
 #endif // end use double check
@@ -1895,9 +1964,12 @@ void
 Node::set_int8_initializer_list(const std::initializer_list<int8> &data)
 {
     init(DataType::int8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int8) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int8),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(int8));
 }
 
 //-----------------------------------------------------------------------------
@@ -1914,9 +1986,12 @@ void
 Node::set_int16_initializer_list(const std::initializer_list<int16> &data)
 {
     init(DataType::int16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int16) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int16),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(int16));
 }
 
 //-----------------------------------------------------------------------------
@@ -1933,9 +2008,12 @@ void
 Node::set_int32_initializer_list(const std::initializer_list<int32> &data)
 {
     init(DataType::int32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int32),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(int32));
 }
 
 //-----------------------------------------------------------------------------
@@ -1953,9 +2031,12 @@ void
 Node::set_int64_initializer_list(const std::initializer_list<int64> &data)
 {
     init(DataType::int64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int64),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(int64));
 }
 
 //-----------------------------------------------------------------------------
@@ -1977,9 +2058,12 @@ void
 Node::set_uint8_initializer_list(const std::initializer_list<uint8> &data)
 {
     init(DataType::uint8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint8) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint8),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(uint8));
 }
 
 //-----------------------------------------------------------------------------
@@ -1996,9 +2080,12 @@ void
 Node::set_uint16_initializer_list(const std::initializer_list<uint16> &data)
 {
     init(DataType::uint16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint16) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint16),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(uint16));
 }
 
 //-----------------------------------------------------------------------------
@@ -2015,9 +2102,12 @@ void
 Node::set_uint32_initializer_list(const std::initializer_list<uint32> &data)
 {
     init(DataType::uint32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint32),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(uint32));
 }
 
 //-----------------------------------------------------------------------------
@@ -2034,9 +2124,12 @@ void
 Node::set_uint64_initializer_list(const std::initializer_list<uint64> &data)
 {
     init(DataType::uint64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint64),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(uint64));
 }
 
 //-----------------------------------------------------------------------------
@@ -2058,9 +2151,12 @@ void
 Node::set_float32_initializer_list(const std::initializer_list<float32> &data)
 {
     init(DataType::float32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(float32),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(float32));
 }
 
 //-----------------------------------------------------------------------------
@@ -2077,9 +2173,12 @@ void
 Node::set_float64_initializer_list(const std::initializer_list<float64> &data)
 {
     init(DataType::float64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(float64),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(float64));
 }
 
 //-----------------------------------------------------------------------------
@@ -2098,9 +2197,12 @@ void
 Node::set(const std::initializer_list<char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(char),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(char));
 }
 
 //-----------------------------------------------------------------------------
@@ -2110,9 +2212,12 @@ void
 Node::set(const std::initializer_list<signed char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(signed char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(signed char),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(signed char));
 }
 
 //-----------------------------------------------------------------------------
@@ -2120,9 +2225,12 @@ void
 Node::set(const std::initializer_list<unsigned char> &data)
 {
     init(DataType::c_unsigned_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned char),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(unsigned char));
 }
 
 //-----------------------------------------------------------------------------
@@ -2136,9 +2244,12 @@ void
 Node::set(const std::initializer_list<short> &data)
 {
     init(DataType::c_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(short) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(short),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(short));
 }
 
 //-----------------------------------------------------------------------------
@@ -2146,9 +2257,12 @@ void
 Node::set(const std::initializer_list<unsigned short> &data)
 {
     init(DataType::c_unsigned_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned short) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned short),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(unsigned short));
 }
 
 //-----------------------------------------------------------------------------
@@ -2162,9 +2276,12 @@ void
 Node::set(const std::initializer_list<int> &data)
 {
     init(DataType::c_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(int));
 }
 
 //-----------------------------------------------------------------------------
@@ -2172,9 +2289,12 @@ void
 Node::set(const std::initializer_list<unsigned int> &data)
 {
     init(DataType::c_unsigned_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned int) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned int),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(unsigned int));
 }
 
 //-----------------------------------------------------------------------------
@@ -2188,9 +2308,12 @@ void
 Node::set(const std::initializer_list<long> &data)
 {
     init(DataType::c_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(long),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2198,9 +2321,12 @@ void
 Node::set(const std::initializer_list<unsigned long> &data)
 {
     init(DataType::c_unsigned_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned long),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(unsigned long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2214,9 +2340,12 @@ void
 Node::set(const std::initializer_list<long long> &data)
 {
     init(DataType::c_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(long long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(long long),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(long long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2224,9 +2353,12 @@ void
 Node::set(const std::initializer_list<unsigned long long> &data)
 {
     init(DataType::c_unsigned_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned long long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned long long),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(unsigned long long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2240,9 +2372,12 @@ void
 Node::set(const std::initializer_list<float> &data)
 {
     init(DataType::c_float(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(float),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(float));
 }
 //-----------------------------------------------------------------------------
 #endif // end use float check
@@ -2255,9 +2390,12 @@ void
 Node::set(const std::initializer_list<double> &data)
 {
     init(DataType::c_double(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(double) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(double),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(double));
 }
 //-----------------------------------------------------------------------------
 #endif // end use double check
-- 
2.43.0


From 86300296211a7364297601a29a120eaa7e19707f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:28:49 +0000
Subject: [PATCH 010/100] fix: Node::set(DataArray) never reads past the end of
 the source array

---
 src/libs/conduit/conduit_node.cpp | 46 +++++++++++++++----------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index a0f651b..62da72f 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -963,7 +963,7 @@ Node::set_int8_array(const int8_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -985,7 +985,7 @@ Node::set_int16_array(const int16_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1007,7 +1007,7 @@ Node::set_int32_array(const int32_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1029,7 +1029,7 @@ Node::set_int64_array(const int64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1055,7 +1055,7 @@ Node::set_uint8_array(const uint8_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1077,7 +1077,7 @@ Node::set_uint16_array(const uint16_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1099,7 +1099,7 @@ Node::set_uint32_array(const uint32_array  &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1121,7 +1121,7 @@ Node::set_uint64_array(const uint64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1146,7 +1146,7 @@ Node::set_float32_array(const float32_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1168,7 +1168,7 @@ Node::set_float64_array(const float64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1194,7 +1194,7 @@ Node::set(const char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1214,7 +1214,7 @@ Node::set(const signed_char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1230,7 +1230,7 @@ Node::set(const unsigned_char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1250,7 +1250,7 @@ Node::set(const short_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1265,7 +1265,7 @@ Node::set(const unsigned_short_array&data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1285,7 +1285,7 @@ Node::set(const int_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1300,7 +1300,7 @@ Node::set(const unsigned_int_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1320,7 +1320,7 @@ Node::set(const long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1335,7 +1335,7 @@ Node::set(const unsigned_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1355,7 +1355,7 @@ Node::set(const long_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1370,7 +1370,7 @@ Node::set(const unsigned_long_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1390,7 +1390,7 @@ Node::set(const float_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1410,7 +1410,7 @@ Node::set(const double_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
-- 
2.43.0


From 8aff5d83d13fe9fc0bb04ba9c2ec45deca1cfb3d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:30:57 +0000
Subject: [PATCH 011/100] fix: Node::swap and Node::move keep the parent's
 schema in step for sibling nodes

---
 src/libs/conduit/conduit_node.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 62da72f..b367904 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8881,6 +8881,11 @@ Node::swap(Node &n_b)
     Schema *schema_a = m_schema;
     Schema *schema_b = n_b.m_schema;
 
+    // the parents' schema entries to update. we need to find both before
+    // we change one, since the nodes can be siblings
+    Schema **a_parent_entry = NULL;
+    Schema **b_parent_entry = NULL;
+
     // check if node a has a parent Node
     if(this->parent() != NULL)
     {
@@ -8895,7 +8900,7 @@ Node::swap(Node &n_b)
                          "failed to find schema child index in this Node's parent.");
         }
 
-        a_parent_schema->children()[idx] = schema_b;
+        a_parent_entry = &a_parent_schema->children()[idx];
     }
 
     // check if node b has a parent Node
@@ -8914,7 +8919,17 @@ Node::swap(Node &n_b)
 
         }
 
-        b_parent_schema->children()[idx] = schema_a;
+        b_parent_entry = &b_parent_schema->children()[idx];
+    }
+
+    if(a_parent_entry != NULL)
+    {
+        *a_parent_entry = schema_b;
+    }
+
+    if(b_parent_entry != NULL)
+    {
+        *b_parent_entry = schema_a;
     }
 
     // swap-o-rama
-- 
2.43.0


From e44b21b143e164406382796b09e2c9a1afc140fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:59 +0000
Subject: [PATCH 012/100] fix: DataType::spanned_bytes and strided_bytes of a
 leaf without elements are never negative

---
 src/libs/conduit/conduit_data_type.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libs/conduit/conduit_data_type.cpp b/src/libs/conduit/conduit_data_type.cpp
index af6a717..006b009 100644
--- a/src/libs/conduit/conduit_data_type.cpp
+++ b/src/libs/conduit/conduit_data_type.cpp
@@ -641,6 +641,11 @@ conduit::index_t
 DataType::strided_bytes() const
 {
     // this is the memory extent excluding the offset
+    // (without any elements, there is no extent)
+    if(m_num_ele == 0)
+    {
+        return 0;
+    }
     return m_stride * (m_num_ele -1) + m_ele_bytes;
 }
 
@@ -656,6 +661,11 @@ DataType::bytes_compact() const
 conduit::index_t
 DataType::spanned_bytes() const
 {
+    // without any elements, nothing is spanned
+    if(m_num_ele == 0)
+    {
+        return 0;
+    }
     return m_offset + m_stride * (m_num_ele -1) + m_ele_bytes;
 }
 
-- 
2.43.0


From 06af5be655176c3cc161e624b6317446925fcb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:23 +0000
Subject: [PATCH 013/100] fix: Node::contiguous_with keeps the start address
 across children without data

---
 src/libs/conduit/conduit_node.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index b367904..96d9455 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17914,6 +17914,9 @@ Node::contiguous_with(uint8 *start_addy, uint8 *&end_addy) const
 {
     bool res = true;
 
+    // a node without data ends where it starts
+    end_addy = start_addy;
+
     index_t dtype_id = dtype().id();
 
     if(dtype_id == DataType::OBJECT_ID ||
-- 
2.43.0


From 5a349d19f67889d9d9b640f09d0dcca336a90eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:44 +0000
Subject: [PATCH 014/100] fix: Node::serialize advances by the compact size of
 a strided child

---
 src/libs/conduit/conduit_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 96d9455..2832367 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17815,7 +17815,7 @@ Node::serialize(uint8 *data,index_t curr_offset) const
         for(itr = m_children.begin(); itr < m_children.end(); ++itr)
         {
             (*itr)->serialize(&data[0],curr_offset);
-            curr_offset+=(*itr)->total_strided_bytes();
+            curr_offset+=(*itr)->total_bytes_compact();
         }
     }
     else
-- 
2.43.0


From 7246bd9ddaa23e5a20f4105ae653f816a7134053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:23 +0000
Subject: [PATCH 015/100] fix: JSON arrays keep unsigned values that do not fit
 a signed 64 bit integer

---
 src/libs/conduit/conduit_generator.cpp | 56 +++++++++++++++++++-------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index feb5ef3..cdc0f40 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -483,14 +483,16 @@ Generator::Parser::JSON::json_to_numeric_dtype(const conduit_rapidjson::Value &j
     index_t res = DataType::EMPTY_ID; 
     if(jvalue.IsNumber())
     {
-        // TODO: We could have better logic for dealing with int vs uint
-        if(jvalue.IsUint64() || 
-           jvalue.IsInt64()  || 
-           jvalue.IsUint()   ||
+        if(jvalue.IsInt64() ||
            jvalue.IsInt())
         {
             res  = DataType::INT64_ID; // for int
         }
+        else if(jvalue.IsUint64() ||
+                jvalue.IsUint())
+        {
+            res  = DataType::UINT64_ID; // too large for int64
+        }
         else if(jvalue.IsDouble())
         {
             res  = DataType::FLOAT64_ID; // for float
@@ -522,26 +524,43 @@ Generator::Parser::JSON::check_homogenous_json_array(const conduit_rapidjson::Va
     // we could also have string reps of nan, infinity, etc.
     // json_to_numeric_dtype handles that case fo us
 
-    index_t val_type = json_to_numeric_dtype(jvalue[(conduit_rapidjson::SizeType)0]); 
-    bool homogenous  = (val_type != DataType::EMPTY_ID);
+    index_t val_type = DataType::INT64_ID;
+    bool homogenous  = true;
+    bool has_neg     = false;
 
-    for (conduit_rapidjson::SizeType i = 1; i < jvalue.Size() && homogenous; i++)
+    for (conduit_rapidjson::SizeType i = 0; i < jvalue.Size() && homogenous; i++)
     {
         index_t curr_val_type = json_to_numeric_dtype(jvalue[i]);
-        if(val_type == DataType::INT64_ID  &&
-           curr_val_type ==  DataType::FLOAT64_ID)
+        if(curr_val_type == DataType::EMPTY_ID)
+        {
+            // non homogenous inline
+            homogenous = false;
+            val_type = DataType::EMPTY_ID;
+        }
+        else if(curr_val_type ==  DataType::FLOAT64_ID)
         {
             // promote to a double (may be lossy in some cases)
             val_type = DataType::FLOAT64_ID;
         }
-        else if(curr_val_type == DataType::EMPTY_ID)
+        else if(curr_val_type == DataType::UINT64_ID &&
+                val_type == DataType::INT64_ID)
         {
-            // non homogenous inline
-            homogenous = false;
-            val_type = DataType::EMPTY_ID;
+            // promote to unsigned, for values too large for int64
+            val_type = DataType::UINT64_ID;
+        }
+        else if(curr_val_type == DataType::INT64_ID &&
+                jvalue[i].GetInt64() < 0)
+        {
+            has_neg = true;
         }
     }
 
+    // neither int64 nor uint64 can hold all of the values
+    if(val_type == DataType::UINT64_ID && has_neg)
+    {
+        val_type = DataType::FLOAT64_ID;
+    }
+
     return val_type;
 }
 
@@ -1083,9 +1102,10 @@ Generator::Parser::JSON::parse_inline_value(const conduit_rapidjson::Value &jval
                         << "number of elements in JSON array is more"
                         << "than dtype can hold");
         
-        if(hval_type == DataType::INT64_ID)
+        if(hval_type == DataType::INT64_ID ||
+           hval_type == DataType::UINT64_ID)
         {
-            if(node.dtype().is_unsigned_integer())
+            if(hval_type == DataType::UINT64_ID)
             {
                 parse_json_uint64_array(jvalue,node);
             }
@@ -1282,6 +1302,12 @@ Generator::Parser::JSON::walk_pure_json_schema(Node *node,
             int64_array vals = node->value();
             parse_json_int64_array(jvalue,vals);
         }
+        else if(hval_type == DataType::UINT64_ID)
+        {
+            node->set(DataType::uint64(jvalue.Size()));
+            uint64_array vals = node->value();
+            parse_json_uint64_array(jvalue,vals);
+        }
         else if(hval_type == DataType::FLOAT64_ID)
         {
             node->set(DataType::float64(jvalue.Size()));
-- 
2.43.0


From 02735f08148886db9808668930ec215d71d79ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:03 +0000
Subject: [PATCH 016/100] fix: floating point numbers written as text read back
 as the same value

---
 src/libs/conduit/conduit_generator.cpp | 2 +-
 src/libs/conduit/conduit_utils.cpp     | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index cdc0f40..59d74a1 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -125,7 +125,7 @@ public:
   {
   public:
       
-    static const conduit_rapidjson::ParseFlag RAPIDJSON_PARSE_OPTS = conduit_rapidjson::kParseNoFlags;
+    static const conduit_rapidjson::ParseFlag RAPIDJSON_PARSE_OPTS = conduit_rapidjson::kParseFullPrecisionFlag;
     
     static index_t json_to_numeric_dtype(const conduit_rapidjson::Value &jvalue);
     
diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 6601ae1..c21e41a 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1335,7 +1335,13 @@ std::string
 float64_to_string(float64 value)
 {
     char buffer[64] = {0};
-    snprintf(buffer,64,"%.15g",value);
+    // use the fewest digits (at least 15) that read back as the same value
+    for(int digits = 15; digits <= 17; digits++)
+    {
+        snprintf(buffer,64,"%.*g",digits,value);
+        if(strtod(buffer,NULL) == value)
+            break;
+    }
 
     std::string res(buffer);
 
-- 
2.43.0


From f5112c325f42f26527cb1c226468783e9e349624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:44 +0000
Subject: [PATCH 017/100] fix: json_sanitize follows string escapes and handles
 texts that start or end with a string or word

---
 src/libs/conduit/conduit_utils.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index c21e41a..9c34d0b 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -958,6 +958,7 @@ json_sanitize(const std::string &json)
     std::string res;
     bool        in_comment=false;
     bool        in_string=false;
+    bool        escaped=false;
     bool        in_id =false;
     std::string cur_id = "";
 
@@ -965,13 +966,15 @@ json_sanitize(const std::string &json)
     {
         bool emit = true;
         // check for start & end of a string
-        if(json[i] == '\"' &&  ( i > 0 && ( json[i-1] != '\\' )))
+        if(json[i] == '\"' && !in_comment && !escaped)
         {
             if(in_string)
                 in_string = false;
             else
                 in_string = true;
         }
+        // a backslash in a string escapes the next char
+        escaped = in_string && !escaped && json[i] == '\\';
 
         // handle two cases were we want to sanitize:
         // comments '//' to end of line & unquoted ids
@@ -995,9 +998,9 @@ json_sanitize(const std::string &json)
                 {
                     // ids can't start with numbers ,
                     // check the prior char if it exists
-                    if(i > 0 &&
-                       !check_num_char(json[i-1]) &&
-                       json[i-1] != '.')
+                    if(i == 0 ||
+                       (!check_num_char(json[i-1]) &&
+                        json[i-1] != '.'))
                     {
                         in_id = true;
                         // accum id chars
@@ -1052,6 +1055,21 @@ json_sanitize(const std::string &json)
             res += json[i];
     }
 
+    // the text may end with an id
+    if(in_id)
+    {
+        if( cur_id == "true"  ||
+            cur_id == "false" ||
+            cur_id == "null" )
+        {
+            res += cur_id;
+        }
+        else
+        {
+            res += "\"" + cur_id + "\"";
+        }
+    }
+
     return res;
 }
 
-- 
2.43.0


From c15daea776e54be594117a2eaa819346e399b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:44 +0000
Subject: [PATCH 018/100] fix: conduit_json strings are unescaped once, not
 twice

---
 src/libs/conduit/conduit_generator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 59d74a1..29dbaa1 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -975,8 +975,9 @@ Generator::Parser::JSON::parse_inline_leaf(const conduit_rapidjson::Value &jvalu
     {
         if(node.dtype().id() == DataType::CHAR8_STR_ID)
         {
+            // note: rapidjson already resolved the escapes
             std::string sval(jvalue.GetString());
-            node.set(utils::unescape_special_chars(sval));
+            node.set(sval);
         }
         else
         {
-- 
2.43.0


From ad360ca6da6986afa87450b6bc3be47c5d136304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:44 +0000
Subject: [PATCH 019/100] fix: conduit_json scalars may be nan or inf

---
 src/libs/conduit/conduit_generator.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 29dbaa1..f6becfb 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -979,6 +979,20 @@ Generator::Parser::JSON::parse_inline_leaf(const conduit_rapidjson::Value &jvalu
             std::string sval(jvalue.GetString());
             node.set(sval);
         }
+        else if(node.dtype().is_floating_point() &&
+                string_is_double(jvalue.GetString()))
+        {
+            // inline string with nan,inf,etc
+            float64 fval = string_to_double(jvalue.GetString());
+            if(node.dtype().id() == DataType::FLOAT32_ID)
+            {
+                node.set((float32)fval);
+            }
+            else
+            {
+                node.set(fval);
+            }
+        }
         else
         {
              // JSON type incompatible with char8_str
-- 
2.43.0


From 58332c2d983b8485ec20dc3f0a25c53b677832cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:44 +0000
Subject: [PATCH 020/100] fix: child names are escaped in JSON output

---
 src/libs/conduit/conduit_node.cpp   | 4 +++-
 src/libs/conduit/conduit_schema.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 2832367..3c329a6 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -13688,7 +13688,9 @@ Node::to_json_generic(std::ostream &os,
         for(size_t i=0; i <  nchildren;i++)
         {
             utils::indent(os,indent,depth+1,pad);
-            os << "\""<< m_schema->object_order()[i] << "\": ";
+            os << "\""
+               << utils::escape_special_chars(m_schema->object_order()[i])
+               << "\": ";
             m_children[i]->to_json_generic(os,
                                            detailed,
                                            address,
diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index eca90c9..48f2cd2 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -546,7 +546,9 @@ Schema::to_json_stream(std::ostream &os,
         for(size_t i=0; i < nchildren;i++)
         {
             utils::indent(os,indent,depth+1,pad);
-            os << "\""<< object_order()[i] << "\": ";
+            os << "\""
+               << utils::escape_special_chars(object_order()[i])
+               << "\": ";
             children()[i]->to_json_stream(os,indent,depth+1,pad,eoe);
             if(i < nchildren-1)
                 os << ",";
-- 
2.43.0


From bec32846b637cadcae220808cdecc93c2169169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:05 +0000
Subject: [PATCH 021/100] fix: control characters are escaped in JSON output,
 unknown escapes are kept as they are

---
 src/libs/conduit/conduit_utils.cpp | 29 ++++++++++++++++++++++++++---
 src/libs/conduit/conduit_utils.hpp |  4 +++-
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 9c34d0b..c135bc6 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1185,7 +1185,17 @@ escape_special_chars(const std::string &input)
 
             default:
             {
-                res += val;
+                if((unsigned char)val < 0x20)
+                {
+                    // other control chars
+                    char buff[8] = {0};
+                    snprintf(buff,8,"\\u%04x",(unsigned int)val);
+                    res += buff;
+                }
+                else
+                {
+                    res += val;
+                }
             }
         }
     }
@@ -1263,8 +1273,21 @@ unescape_special_chars(const std::string &input)
                 // \uFFFF & unknown escape strings
                 default:
                 {
-                    // simply emit
-                    res += val;
+                    // control chars are escaped as \u0001 to \u001f
+                    if(val == 'u' &&
+                       input.compare(i+2,2,"00") == 0 &&
+                       i + 5 < input_size &&
+                       (input[i+4] == '0' || input[i+4] == '1') &&
+                       isxdigit((unsigned char)input[i+5]))
+                    {
+                        res += (char)strtol(input.substr(i+4,2).c_str(),NULL,16);
+                        i += 5;
+                    }
+                    else
+                    {
+                        // simply emit
+                        res += input[i];
+                    }
                     break;
                 }
             }
diff --git a/src/libs/conduit/conduit_utils.hpp b/src/libs/conduit/conduit_utils.hpp
index 03cdf96..fd8559e 100644
--- a/src/libs/conduit/conduit_utils.hpp
+++ b/src/libs/conduit/conduit_utils.hpp
@@ -476,8 +476,10 @@ namespace utils
 /// Special chars that are not escaped, but are unescaped:
 ///    / (forward slash)
 ///
+/// Other control chars are escaped (and unescaped) as \u00XX.
+///
 /// Special chars that are not escaped or unescaped:
-///    \u (for hex escapes: \uFFFF)
+///    \u (for other hex escapes: \uFFFF)
 ///
 //-----------------------------------------------------------------------------
     std::string CONDUIT_API escape_special_chars(const std::string &input);
-- 
2.43.0


From dd077bfd3fa40015d495dd89b00f51ab90290de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:27 +0000
Subject: [PATCH 022/100] fix: JSON lists of strings that contain digits stay
 lists of strings

---
 src/libs/conduit/conduit_generator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index f6becfb..4d18fd1 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -501,7 +501,10 @@ Generator::Parser::JSON::json_to_numeric_dtype(const conduit_rapidjson::Value &j
     }
     else if(jvalue.IsString()) // we may have strings that are nan, inf, etc
     {
-        if(string_is_double(jvalue.GetString()))
+        // other strings with digits are strings
+        std::string sval(jvalue.GetString());
+        if(string_is_double(sval.c_str()) &&
+           sval.find_first_of("0123456789 \t\r\n") == std::string::npos)
         {
             res  = DataType::FLOAT64_ID;
         }
-- 
2.43.0


From db7fa70bcb52981a096452295274e42fdc61dd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:51 +0000
Subject: [PATCH 023/100] fix: child names that are special to YAML are quoted
 in YAML output

---
 src/libs/conduit/conduit_node.cpp   |  2 +-
 src/libs/conduit/conduit_schema.cpp |  2 +-
 src/libs/conduit/conduit_utils.cpp  | 35 ++++++++++++++++++++++++-----
 src/libs/conduit/conduit_utils.hpp  |  6 +++++
 4 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 3c329a6..84a13fc 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14099,7 +14099,7 @@ Node::to_yaml_generic(std::ostream &os,
         for(size_t i=0; i <  nchildren;i++)
         {
             utils::indent(os,indent,depth,pad);
-            os << m_schema->object_order()[i] << ": ";
+            os << utils::yaml_key(m_schema->object_order()[i]) << ": ";
             m_children[i]->to_yaml_generic(os,
                                            detailed,
                                            indent,
diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index 48f2cd2..0a75982 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -635,7 +635,7 @@ Schema::to_yaml_stream(std::ostream &os,
         {
             utils::indent(os,indent,depth,pad);
             // we always need eoe
-            os << object_order()[i] << ": " << eoe;
+            os << utils::yaml_key(object_order()[i]) << ": " << eoe;
             children()[i]->to_yaml_stream(os,
                                           indent,
                                           depth+1,
diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index c135bc6..ee66f4a 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1185,7 +1185,7 @@ escape_special_chars(const std::string &input)
 
             default:
             {
-                if((unsigned char)val < 0x20)
+                if((unsigned char)val < 0x20 || val == 0x7f)
                 {
                     // other control chars
                     char buff[8] = {0};
@@ -1203,6 +1203,30 @@ escape_special_chars(const std::string &input)
     return res;
 }
 
+//-----------------------------------------------------------------------------
+std::string
+yaml_key(const std::string &name)
+{
+    // plain if it starts with a word char, does not end with a space
+    // and has no chars that may be special to yaml
+    bool plain = !name.empty() && name[name.size()-1] != ' ';
+    for(size_t i = 0; i < name.size() && plain; ++i)
+    {
+        const char c = name[i];
+        plain = check_word_char(c) ||
+                check_num_char(c)  ||
+                (i > 0 && (c == '/' || c == '.' || c == '-' ||
+                           c == '+' || c == ' '));
+    }
+
+    if(plain)
+    {
+        return name;
+    }
+
+    return "\"" + escape_special_chars(name) + "\"";
+}
+
 //-----------------------------------------------------------------------------
 std::string
 unescape_special_chars(const std::string &input)
@@ -1273,12 +1297,13 @@ unescape_special_chars(const std::string &input)
                 // \uFFFF & unknown escape strings
                 default:
                 {
-                    // control chars are escaped as \u0001 to \u001f
+                    // control chars are escaped as \u0001 to \u001f and \u007f
                     if(val == 'u' &&
-                       input.compare(i+2,2,"00") == 0 &&
                        i + 5 < input_size &&
-                       (input[i+4] == '0' || input[i+4] == '1') &&
-                       isxdigit((unsigned char)input[i+5]))
+                       input.compare(i+2,2,"00") == 0 &&
+                       (((input[i+4] == '0' || input[i+4] == '1') &&
+                         isxdigit((unsigned char)input[i+5])) ||
+                        input.compare(i+4,2,"7f") == 0))
                     {
                         res += (char)strtol(input.substr(i+4,2).c_str(),NULL,16);
                         i += 5;
diff --git a/src/libs/conduit/conduit_utils.hpp b/src/libs/conduit/conduit_utils.hpp
index fd8559e..9102c23 100644
--- a/src/libs/conduit/conduit_utils.hpp
+++ b/src/libs/conduit/conduit_utils.hpp
@@ -485,6 +485,12 @@ namespace utils
     std::string CONDUIT_API escape_special_chars(const std::string &input);
     std::string CONDUIT_API unescape_special_chars(const std::string &input);
 
+//-----------------------------------------------------------------------------
+/// Returns a name as a YAML mapping key. The name is quoted (and escaped)
+/// unless it is a plain word.
+//-----------------------------------------------------------------------------
+    std::string CONDUIT_API yaml_key(const std::string &name);
+
 
 //-----------------------------------------------------------------------------
 /// fmt style string formatting helpers
-- 
2.43.0


From 49fdb9e8c53dd9b7a85117c19e194e30364a82f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:51 +0000
Subject: [PATCH 024/100] fix: YAML keeps unsigned values that do not fit a
 signed 64 bit integer

---
 src/libs/conduit/conduit_generator.cpp | 70 ++++++++++++++++++++------
 1 file changed, 55 insertions(+), 15 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 4d18fd1..78b4589 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -14,7 +14,9 @@
 // -- standard lib includes -- 
 //-----------------------------------------------------------------------------
 #include <stdio.h>
+#include <cerrno>
 #include <cstdlib>
+#include <cstring>
 
 //-----------------------------------------------------------------------------
 // -- rapidjson includes -- 
@@ -105,6 +107,10 @@ public:
     // to an integer
     static bool string_is_integer(const char *txt_value);
 
+    // checks if input c-string holds something that converts
+    // to an unsigned integer
+    static bool string_is_unsigned_integer(const char *txt_value);
+
     // converts c-string to double
     static double string_to_double(const char *txt_value);
     // converts c-string to long
@@ -422,8 +428,23 @@ Generator::Parser::string_is_integer(const char *txt_value)
     if(string_is_empty(txt_value))
         return false;
     char *val_end = NULL;
+    errno = 0;
     strtol(txt_value,&val_end,10);
-    return *val_end == 0;
+    return *val_end == 0 && errno != ERANGE;
+}
+
+//---------------------------------------------------------------------------//
+// checks if input string holds something that converts
+// to an unsigned integer
+bool
+Generator::Parser::string_is_unsigned_integer(const char *txt_value)
+{
+    if(string_is_empty(txt_value) || strchr(txt_value,'-') != NULL)
+        return false;
+    char *val_end = NULL;
+    errno = 0;
+    strtoul(txt_value,&val_end,10);
+    return *val_end == 0 && errno != ERANGE;
 }
 
 //---------------------------------------------------------------------------//
@@ -2001,6 +2022,10 @@ Generator::Parser::YAML::yaml_leaf_to_numeric_dtype(const char *txt_value)
     {
         res = DataType::INT64_ID;
     }
+    else if(string_is_unsigned_integer(txt_value))
+    {
+        res = DataType::UINT64_ID;
+    }
     else if(string_is_double(txt_value))
     {
         res = DataType::FLOAT64_ID;
@@ -2151,7 +2176,8 @@ Generator::Parser::YAML::parse_inline_value(yaml_document_t *yaml_doc,
                         << "number of elements in YAML array is more"
                         << "than dtype can hold");
 
-        if (hval_type == DataType::INT64_ID)
+        if (hval_type == DataType::INT64_ID ||
+            hval_type == DataType::UINT64_ID)
         {
             if (node.dtype().is_unsigned_integer())
             {
@@ -2347,6 +2373,7 @@ Generator::Parser::YAML::check_homogenous_yaml_numeric_sequence(const Node &node
     index_t res = DataType::EMPTY_ID;
     seq_size = -1;
     bool ok = true;
+    bool has_neg = false;
     index_t cld_idx;
     for (cld_idx = 0; cld_idx < get_yaml_sequence_length(yaml_node); cld_idx ++)
     {
@@ -2371,11 +2398,18 @@ Generator::Parser::YAML::check_homogenous_yaml_numeric_sequence(const Node &node
                 // good so far, promote to child's dtype
                 res = child_dtype_id;
             }
-            else if (res == DataType::INT64_ID && child_dtype_id == DataType::FLOAT64_ID)
+            else if (child_dtype_id == DataType::FLOAT64_ID)
             {
                 // promote to float64
                 res = DataType::FLOAT64_ID;
             }
+            else if (res == DataType::INT64_ID && child_dtype_id == DataType::UINT64_ID)
+            {
+                // promote to uint64, for values too large for int64
+                res = DataType::UINT64_ID;
+            }
+
+            has_neg = has_neg || get_yaml_string(yaml_child)[0] == '-';
         }
         else
         {
@@ -2388,6 +2422,11 @@ Generator::Parser::YAML::check_homogenous_yaml_numeric_sequence(const Node &node
     if (ok)
     {
         seq_size = cld_idx;
+        // neither int64 nor uint64 can hold all of the values
+        if (res == DataType::UINT64_ID && has_neg)
+        {
+            res = DataType::FLOAT64_ID;
+        }
     }
     else
     {
@@ -2484,6 +2523,10 @@ Generator::Parser::YAML::parse_yaml_inline_leaf(const char *yaml_txt,
     {
         node.set(static_cast<int64>(string_to_long(yaml_txt)));
     }
+    else if (string_is_unsigned_integer(yaml_txt))
+    {
+        node.set(static_cast<uint64>(string_to_unsigned_long(yaml_txt)));
+    }
     else if (string_is_double(yaml_txt))
     {
         node.set(static_cast<float64>(string_to_double(yaml_txt)));
@@ -3177,18 +3220,15 @@ Generator::Parser::YAML::walk_pure_yaml_schema(Node *node,
 
         if (hval_type == DataType::INT64_ID)
         {
-            if (node->dtype().is_unsigned_integer())
-            {
-                node->set(DataType::uint64(seq_size));
-                uint64_array vals = node->value();
-                parse_yaml_array<uint64>(yaml_doc, yaml_node, vals, seq_size);
-            }
-            else
-            {
-                node->set(DataType::int64(seq_size));
-                int64_array vals = node->value();
-                parse_yaml_array<int64>(yaml_doc, yaml_node, vals, seq_size);
-            }
+            node->set(DataType::int64(seq_size));
+            int64_array vals = node->value();
+            parse_yaml_array<int64>(yaml_doc, yaml_node, vals, seq_size);
+        }
+        else if (hval_type == DataType::UINT64_ID)
+        {
+            node->set(DataType::uint64(seq_size));
+            uint64_array vals = node->value();
+            parse_yaml_array<uint64>(yaml_doc, yaml_node, vals, seq_size);
         }
         else if(hval_type == DataType::FLOAT64_ID)
         {
-- 
2.43.0


From 99f05f5bf893c3cbbfa7ac363098965b4acb65cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:22 +0000
Subject: [PATCH 025/100] fix: the YAML text of an empty node parses back to an
 empty node

---
 src/libs/conduit/conduit_generator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 78b4589..508fe66 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -3143,11 +3143,18 @@ Generator::Parser::YAML::walk_pure_yaml_schema(Node *node,
     yaml_node_t     *yaml_node = parser.yaml_doc_root_ptr();
 
 
-    if(yaml_doc == NULL || yaml_node == NULL)
+    if(yaml_doc == NULL)
     {
         CONDUIT_ERROR("failed to fetch yaml document root");
     }
 
+    // a document without content is how an empty node is written
+    if(yaml_node == NULL)
+    {
+        node->reset();
+        return;
+    }
+
     walk_pure_yaml_schema(node,
                           schema,
                           yaml_doc,
-- 
2.43.0


From 37798377e85c8bff7e3ec66ad13cc10039c1b02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:37 +0000
Subject: [PATCH 026/100] fix: JSON values of an unexpected type are reported
 instead of ending the process

---
 src/libs/conduit/conduit_generator.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 508fe66..cc8dd74 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -21,6 +21,18 @@
 //-----------------------------------------------------------------------------
 // -- rapidjson includes -- 
 //-----------------------------------------------------------------------------
+#include "conduit_error.hpp"
+#include "conduit_utils.hpp"
+// report JSON values that don't have the expected type as conduit errors
+#define RAPIDJSON_ASSERT(x)                                                  \
+do                                                                           \
+{                                                                            \
+    if(!(x))                                                                 \
+    {                                                                        \
+        CONDUIT_ERROR("JSON Generator error:\n"                              \
+                      << "unexpected JSON value type: " #x);                 \
+    }                                                                        \
+} while(0)
 #include "rapidjson/document.h"
 #include "rapidjson/error/en.h"
 
-- 
2.43.0


From 3105292aa4bb132b40cb7e6f2248bb6b5d5547ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:37 +0000
Subject: [PATCH 027/100] fix: leaves given as a type name own their data
 unless they are generated as external

---
 src/libs/conduit/conduit_generator.cpp | 43 ++++++++++++++++----------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index cc8dd74..db2fd73 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -1613,18 +1613,19 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
     {
         DataType dtype;
         parse_leaf_dtype(jvalue,curr_offset,dtype);
-        schema->set(dtype);
-        
+
+        // node is already linked to the schema pointer
+        // we need to dynamically alloc, use compact dtype
+        DataType des_dtype;
+        dtype.compact_to(des_dtype);
+        node->set(des_dtype); // causes an init
+
         if(data != NULL)
         {
-            // node is already linked to the schema pointer
-            node->set_data_ptr(data);
-        }
-        else
-        {
-            // node is already linked to the schema pointer
-            // we need to dynamically alloc
-            node->set(dtype);  // causes an init
+            // copy bytes from src data to node's memory
+            memcpy(node->data_ptr(),
+                   ((uint8*)data) + dtype.offset(),
+                   (size_t)des_dtype.bytes_compact());
         }
     }
     else
@@ -1810,11 +1811,11 @@ Generator::Parser::JSON::walk_json_schema_external(Node   *node,
     {
         DataType dtype;
         parse_leaf_dtype(jvalue,curr_offset,dtype);
-        schema->set(dtype);
-        
+
         if(data != NULL)
         {
              // node is already linked to the schema pointer
+             schema->set(dtype);
              node->set_data_ptr(data);
         }
         else
@@ -2953,18 +2954,28 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
     {
         DataType dtype;
         parse_leaf_dtype(yaml_doc, yaml_node, curr_offset, dtype);
-        schema->set(dtype);
 
-        if (data)
+        if (data && external)
         {
             // node is already linked to the schema pointer
+            schema->set(dtype);
             node->set_data_ptr(data);
         }
         else
         {
             // node is already linked to the schema pointer
-            // we need to dynamically alloc
-            node->set(dtype);  // causes an init
+            // we need to dynamically alloc, use compact dtype
+            DataType des_dtype;
+            dtype.compact_to(des_dtype);
+            node->set(des_dtype); // causes an init
+
+            if (data)
+            {
+                // copy bytes from src data to node's memory
+                memcpy(node->data_ptr(),
+                       ((uint8*)data) + dtype.offset(),
+                       (size_t)des_dtype.bytes_compact());
+            }
         }
     }
     else
-- 
2.43.0


From 4e995b60b1661c98fb096c9976288721b665d40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:37 +0000
Subject: [PATCH 028/100] fix: leaves generated as external from YAML keep
 their offset and stride, drop debug output

---
 src/libs/conduit/conduit_generator.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index db2fd73..3ca1ca6 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -1720,7 +1720,6 @@ Generator::Parser::JSON::walk_json_schema_external(Node   *node,
                     {
                         // node is already linked to the schema pointer
                         schema->set(dtype);
-                        schema->print();
                         node->set_data_ptr(data);
                     }
                     else
@@ -2832,8 +2831,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                         if (external) // handle conduit_yaml_external case
                         {
                             // node is already linked to the schema pointer
-                            schema->set(des_dtype);
-                            schema->print();
+                            schema->set(src_dtype);
                             node->set_data_ptr(data);
                         }
                         else
-- 
2.43.0


From 87fbb4494b2e0f3319d31798a338bb02cc63cc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:37 +0000
Subject: [PATCH 029/100] fix: YAML sequences and maps where a scalar is
 expected are reported

---
 src/libs/conduit/conduit_generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 3ca1ca6..0760a11 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -2110,6 +2110,8 @@ Generator::Parser::YAML::check_yaml_is_mapping_node(const yaml_node_t *yaml_node
 const char *
 Generator::Parser::YAML::get_yaml_string(const yaml_node_t *yaml_node)
 {
+    CONDUIT_ASSERT(check_yaml_is_scalar_node(yaml_node),
+                   "YAML Generator error:\nexpected a YAML scalar value.");
     const char *yaml_value_str = (const char*) yaml_node->data.scalar.value;
     CONDUIT_ASSERT(yaml_value_str, "YAML Generator error:\nInvalid yaml scalar value.");
     return yaml_value_str;
-- 
2.43.0


From 626da020e37b9ef7ed4a9d543f7afc7903d5e7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:37 +0000
Subject: [PATCH 030/100] fix: YAML leaves without a length have one element,
 lengths may be references

---
 src/libs/conduit/conduit_generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 0760a11..9b0262d 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -2679,7 +2679,7 @@ Generator::Parser::YAML::parse_leaf_dtype(yaml_document_t *yaml_doc,
                 length = get_yaml_sequence_length(value_node);
             }
             // support explicit length 0 in a schema
-            else if (fetch_yaml_node_from_object_by_name(yaml_doc, yaml_node, "number_of_elements"))
+            else if (!fetch_yaml_node_from_object_by_name(yaml_doc, yaml_node, "number_of_elements"))
             {
                 length = 1;
             }
@@ -2764,7 +2764,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                     }
                     else if (check_yaml_is_mapping_node(len_value))
                     {
-                        const yaml_node_t *ref_value = fetch_yaml_node_from_object_by_name(yaml_doc, yaml_node, "reference");
+                        const yaml_node_t *ref_value = fetch_yaml_node_from_object_by_name(yaml_doc, len_value, "reference");
                         if (ref_value)
                         {
                             const std::string ref_path = get_yaml_string(ref_value);
-- 
2.43.0


From 772e4364f03f74aca3a7f9ebc606b1ad9733d337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:59 +0000
Subject: [PATCH 031/100] fix: YAML aliases that refer to a collection that
 contains them are reported

---
 src/libs/conduit/conduit_generator.cpp | 49 ++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 9b0262d..73a87b8 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -252,6 +252,9 @@ public:
        yaml_node_t     *yaml_doc_root_ptr();
 
     private:
+        // checks if a collection contains itself via an alias
+        bool node_contains_itself(int idx, std::vector<int> &state);
+
         yaml_document_t m_yaml_doc;
         yaml_parser_t   m_yaml_parser;
 
@@ -1991,6 +1994,52 @@ Generator::Parser::YAML::YAMLParserWrapper::parse(const char *yaml_txt)
     {
         m_yaml_doc_is_valid = true;
     }
+
+    // aliases may refer to the collection they are in,
+    // there is no finite tree for such a document
+    std::vector<int> state(m_yaml_doc.nodes.top - m_yaml_doc.nodes.start + 1, 0);
+    for(size_t i = 1; i < state.size(); i++)
+    {
+        CONDUIT_ASSERT(!node_contains_itself((int)i,state),
+                       "YAML Generator error:\n"
+                       << "YAML alias refers to a collection that contains it");
+    }
+}
+
+//---------------------------------------------------------------------------//
+bool
+Generator::Parser::YAML::YAMLParserWrapper::node_contains_itself(int idx,
+                                                                 std::vector<int> &state)
+{
+    // state: 0 == not visited, 1 == in progress, 2 == done
+    if(state[idx] != 0)
+    {
+        return state[idx] == 1;
+    }
+
+    state[idx] = 1;
+    const yaml_node_t *yaml_node = yaml_document_get_node(&m_yaml_doc,idx);
+    if(yaml_node->type == YAML_SEQUENCE_NODE)
+    {
+        for(yaml_node_item_t *itr = yaml_node->data.sequence.items.start;
+            itr < yaml_node->data.sequence.items.top; ++itr)
+        {
+            if(node_contains_itself(*itr,state))
+                return true;
+        }
+    }
+    else if(yaml_node->type == YAML_MAPPING_NODE)
+    {
+        for(yaml_node_pair_t *itr = yaml_node->data.mapping.pairs.start;
+            itr < yaml_node->data.mapping.pairs.top; ++itr)
+        {
+            if(node_contains_itself(itr->key,state) ||
+               node_contains_itself(itr->value,state))
+                return true;
+        }
+    }
+    state[idx] = 2;
+    return false;
 }
 
 //---------------------------------------------------------------------------//
-- 
2.43.0


From 905097d3f972afc65ab9a8e814e0421604b409d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:59 +0000
Subject: [PATCH 032/100] fix: leaf layouts that cannot exist in memory are
 reported by the generator

---
 src/libs/conduit/conduit_generator.cpp | 53 ++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 73a87b8..43a9b34 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -17,6 +17,7 @@
 #include <cerrno>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 
 //-----------------------------------------------------------------------------
 // -- rapidjson includes -- 
@@ -132,6 +133,9 @@ public:
 
     static index_t parse_leaf_dtype_name(const std::string &dtype_name);
 
+    // checks that the layout of a leaf is one that can exist in memory
+    static void check_leaf_dtype(const DataType &dtype);
+
 //-----------------------------------------------------------------------------
 // Generator::Parser::JSON handles parsing via rapidjson.
 // We want to isolate the conduit API from the rapidjson headers
@@ -281,6 +285,8 @@ public:
 
     static bool check_yaml_is_number(const yaml_node_t *yaml_node);
 
+    static bool check_yaml_is_unsigned_int(const yaml_node_t *yaml_node);
+
     static bool check_yaml_is_int(const yaml_node_t *yaml_node);
 
     static long get_yaml_long(const yaml_node_t *yaml_node);
@@ -507,6 +513,37 @@ Generator::Parser::parse_leaf_dtype_name(const std::string &dtype_name)
     return dtype_id;
 }
 
+//---------------------------------------------------------------------------//
+void
+Generator::Parser::check_leaf_dtype(const DataType &dtype)
+{
+    // note: values that don't fit an index_t show up as negative values
+    const index_t max_bytes = std::numeric_limits<index_t>::max();
+    const index_t num_ele   = dtype.number_of_elements();
+    const index_t offset    = dtype.offset();
+    const index_t ele_bytes = dtype.element_bytes();
+    const index_t stride    = dtype.stride();
+
+    bool ok = num_ele >= 0 && offset >= 0 && stride >= 0 &&
+              ele_bytes >= DataType::default_bytes(dtype.id());
+
+    // the end of the last element has to fit an index_t
+    ok = ok && offset <= max_bytes - ele_bytes;
+    const index_t per_ele = stride > ele_bytes ? stride : ele_bytes;
+    ok = ok && (per_ele == 0 ||
+                num_ele <= (max_bytes - offset - ele_bytes) / per_ele);
+
+    if(!ok)
+    {
+        CONDUIT_ERROR("Generator error:\n"
+                      << "invalid leaf layout: "
+                      << " number_of_elements: " << num_ele
+                      << " offset: " << offset
+                      << " stride: " << stride
+                      << " element_bytes: " << ele_bytes);
+    }
+}
+
 
 //-----------------------------------------------------------------------------
 // -- begin conduit::Generator::Parser::JSON --
@@ -996,6 +1033,7 @@ Generator::Parser::JSON::parse_leaf_dtype(const conduit_rapidjson::Value &jvalue
                       stride, 
                       ele_size,
                       endianness);
+        check_leaf_dtype(dtype_res);
     }
     else
     {
@@ -2120,6 +2158,14 @@ Generator::Parser::YAML::check_yaml_is_int(const yaml_node_t *yaml_node)
     return false;
 }
 
+//---------------------------------------------------------------------------//
+bool 
+Generator::Parser::YAML::check_yaml_is_unsigned_int(const yaml_node_t *yaml_node)
+{
+    return check_yaml_is_scalar_node(yaml_node) &&
+           string_is_unsigned_integer(get_yaml_string(yaml_node));
+}
+
 //---------------------------------------------------------------------------//
 long
 Generator::Parser::YAML::get_yaml_long(const yaml_node_t *yaml_node)
@@ -2638,7 +2684,7 @@ Generator::Parser::YAML::parse_leaf_dtype(yaml_document_t *yaml_doc,
             const yaml_node_t* value_node = fetch_yaml_node_from_object_by_name(yaml_doc, yaml_node, member_name);
             if (value_node)
             {
-                CONDUIT_ASSERT(check_yaml_is_number(value_node),
+                CONDUIT_ASSERT(check_yaml_is_unsigned_int(value_node),
                                "YAML Generator error:\n"
                                << "'" << member_name << "' must be a number ");
                 value_to_change = static_cast<uint64>(get_yaml_unsigned_long(value_node));
@@ -2650,7 +2696,7 @@ Generator::Parser::YAML::parse_leaf_dtype(yaml_document_t *yaml_doc,
                                                                               "number_of_elements");
         if (num_ele_node)
         {
-            CONDUIT_ASSERT(check_yaml_is_number(num_ele_node),
+            CONDUIT_ASSERT(check_yaml_is_unsigned_int(num_ele_node),
                            "YAML Generator error:\n"
                            << "'number_of_elements' must be a number ");
             length = static_cast<uint64>(get_yaml_unsigned_long(num_ele_node));
@@ -2668,7 +2714,7 @@ Generator::Parser::YAML::parse_leaf_dtype(yaml_document_t *yaml_doc,
                                                                                  "length");
             if (length_node)
             {
-                CONDUIT_ASSERT(check_yaml_is_number(length_node),
+                CONDUIT_ASSERT(check_yaml_is_unsigned_int(length_node),
                                "YAML Generator error:\n"
                                << "'length' must be a number ");
                 length = static_cast<uint64>(get_yaml_unsigned_long(length_node));
@@ -2740,6 +2786,7 @@ Generator::Parser::YAML::parse_leaf_dtype(yaml_document_t *yaml_doc,
                       stride,
                       ele_size,
                       endianness);
+        check_leaf_dtype(dtype_res);
     }
     else
     {
-- 
2.43.0


From f65620e06ec94496eec293fe7c66508b4422f72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:59 +0000
Subject: [PATCH 033/100] fix: failed allocations are reported instead of
 leaving a leaf without data

---
 src/libs/conduit/conduit_node.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 84a13fc..7a1ec6d 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17493,6 +17493,15 @@ Node::allocate(index_t dsize)
 {
     m_data = utils::conduit_allocate((size_t)dsize, (size_t)1, m_allocator_id);
     //  calloc((size_t)dsize,(size_t)1);
+    if(m_data == NULL && dsize != 0)
+    {
+        m_data_size = 0;
+        m_alloced   = false;
+        m_mmaped    = false;
+        m_schema->set(DataType::empty());
+        CONDUIT_ERROR("<Node::allocate> failed to allocate "
+                      << dsize << " bytes");
+    }
     m_data_size = dsize;
     m_alloced   = true;
     m_mmaped    = false;
-- 
2.43.0


From 73c515529c93f959eee568eb721767e5c65f609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 034/100] fix: base64 payloads that are shorter than their
 schema describes are reported

---
 src/libs/conduit/conduit_generator.cpp | 32 ++++++++++++++++++++++++++
 src/libs/conduit/conduit_utils.cpp     |  2 +-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 43a9b34..18f1d5a 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -217,6 +217,10 @@ public:
                                              const conduit_rapidjson::Value &jvalue,
                                              index_t curr_offset);
 
+    // checks that a schema only describes bytes in [0,data_size)
+    static bool    schema_fits(const Schema &schema,
+                               index_t data_size);
+
     static void    parse_base64(Node *node,
                                 const conduit_rapidjson::Value &jvalue);
 
@@ -1874,6 +1878,29 @@ Generator::Parser::JSON::walk_json_schema_external(Node   *node,
 }
 
 
+//---------------------------------------------------------------------------//
+bool
+Generator::Parser::JSON::schema_fits(const Schema &schema,
+                                     index_t data_size)
+{
+    const DataType &dtype = schema.dtype();
+    if(dtype.is_object() || dtype.is_list())
+    {
+        for(index_t i = 0; i < schema.number_of_children(); i++)
+        {
+            if(!schema_fits(schema.child(i),data_size))
+                return false;
+        }
+        return true;
+    }
+
+    // note: parse_leaf_dtype makes sure this does not overflow
+    return dtype.is_empty() ||
+           dtype.number_of_elements() == 0 ||
+           dtype.offset() + dtype.stride() * (dtype.number_of_elements() - 1)
+             + dtype.element_bytes() <= data_size;
+}
+
 //---------------------------------------------------------------------------//
 void 
 Generator::Parser::JSON::parse_base64(Node *node,
@@ -1920,6 +1947,11 @@ Generator::Parser::JSON::parse_base64(Node *node,
                              encoded_len,
                              decode_ptr);
 
+        // make sure the schema only describes bytes we have
+        CONDUIT_ASSERT(schema_fits(s,dec_buff_size),
+                       "conduit_base64_json protocol error: "
+                       << "schema describes more data than provided");
+
         node->set(s,decode_ptr);
 
     }
diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index ee66f4a..d3c8244 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1363,7 +1363,7 @@ base64_encode_buffer_size(index_t src_nbytes)
 index_t
 base64_decode_buffer_size(index_t encoded_nbytes)
 {
-    return (encoded_nbytes / 4) * 3 + 1;
+    return ((encoded_nbytes + 3) / 4) * 3 + 1;
 }
 
 
-- 
2.43.0


From 0961b687feb5f1ab31f2d01484c4d30280a28b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:19 +0000
Subject: [PATCH 035/100] fix: length references to missing or non-numeric
 leaves are reported

---
 src/libs/conduit/conduit_generator.cpp | 37 +++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 18f1d5a..bc93cce 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -133,6 +133,10 @@ public:
 
     static index_t parse_leaf_dtype_name(const std::string &dtype_name);
 
+    // fetches the length that another (already parsed) leaf holds
+    static index_t parse_reference_length(const Node &node,
+                                          const std::string &ref_path);
+
     // checks that the layout of a leaf is one that can exist in memory
     static void check_leaf_dtype(const DataType &dtype);
 
@@ -517,6 +521,33 @@ Generator::Parser::parse_leaf_dtype_name(const std::string &dtype_name)
     return dtype_id;
 }
 
+//---------------------------------------------------------------------------//
+index_t
+Generator::Parser::parse_reference_length(const Node &node,
+                                          const std::string &ref_path)
+{
+    // the node that holds the reference has no children yet,
+    // so resolve the steps to its parents here
+    const Node *base = &node;
+    std::string path = ref_path;
+    std::string curr, next;
+    utils::split_path(path,curr,next);
+    while(curr == ".." && base->parent() != NULL && !next.empty())
+    {
+        base = base->parent();
+        path = next;
+        utils::split_path(path,curr,next);
+    }
+    const Node &ref_node = base->fetch_existing(path);
+    CONDUIT_ASSERT(ref_node.dtype().is_number() &&
+                   ref_node.dtype().number_of_elements() > 0 &&
+                   ref_node.data_ptr() != NULL,
+                   "Generator error:\n"
+                   << "length reference " << ref_path
+                   << " is not a number");
+    return ref_node.to_index_t();
+}
+
 //---------------------------------------------------------------------------//
 void
 Generator::Parser::check_leaf_dtype(const DataType &dtype)
@@ -1507,7 +1538,7 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
                     {
                         const std::string ref_path = 
                           jvalue["length"]["reference"].GetString();
-                        length = node->fetch(ref_path).to_index_t();
+                        length = parse_reference_length(*node,ref_path);
                     }
                     else
                     {
@@ -1713,7 +1744,7 @@ Generator::Parser::JSON::walk_json_schema_external(Node   *node,
                     {
                         std::string ref_path = 
                           jvalue["length"]["reference"].GetString();
-                        length = node->fetch(ref_path).to_index_t();
+                        length = parse_reference_length(*node,ref_path);
                     }
                     else
                     {
@@ -2896,7 +2927,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                         if (ref_value)
                         {
                             const std::string ref_path = get_yaml_string(ref_value);
-                            length = node->fetch(ref_path).to_index_t();
+                            length = parse_reference_length(*node,ref_path);
                         }
                         else
                         {
-- 
2.43.0


From aa3cc3f4cfd221b5f2a84ab303d8e083c8828f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:33 +0000
Subject: [PATCH 036/100] fix: strings without elements or without a terminator
 are read within their bounds

---
 src/libs/conduit/conduit_node.cpp | 70 ++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 7a1ec6d..6465e0f 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -9053,7 +9053,7 @@ Node::to_int8() const
         case DataType::CHAR8_STR_ID:
         {
             int16 res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return (int8)res;
         }
@@ -9086,7 +9086,7 @@ Node::to_int16() const
         case DataType::CHAR8_STR_ID:
         {
             int16 res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9118,7 +9118,7 @@ Node::to_int32() const
         case DataType::CHAR8_STR_ID:
         {
             int32 res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9150,7 +9150,7 @@ Node::to_int64() const
         case DataType::CHAR8_STR_ID:
         {
             int64 res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9181,7 +9181,7 @@ Node::to_uint8() const
         case DataType::CHAR8_STR_ID:
         {
             uint16 res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return (uint8)res;
 
@@ -9214,7 +9214,7 @@ Node::to_uint16() const
         case DataType::CHAR8_STR_ID:
         {
             uint16 res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9245,7 +9245,7 @@ Node::to_uint32() const
         case DataType::CHAR8_STR_ID:
         {
             uint32 res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9276,7 +9276,7 @@ Node::to_uint64() const
         case DataType::CHAR8_STR_ID:
         {
             uint64 res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9308,7 +9308,7 @@ Node::to_float32() const
         case DataType::CHAR8_STR_ID:
         {
             float32 res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9340,7 +9340,7 @@ Node::to_float64() const
         case DataType::CHAR8_STR_ID:
         {
             float64 res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9372,7 +9372,7 @@ Node::to_index_t() const
         case DataType::CHAR8_STR_ID:
         {
             index_t res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9407,7 +9407,7 @@ Node::to_char() const
         case DataType::CHAR8_STR_ID:
         {
             int16 res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return (char)res;
         }
@@ -9438,7 +9438,7 @@ Node::to_short() const
         case DataType::CHAR8_STR_ID:
         {
             short res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9469,7 +9469,7 @@ Node::to_int() const
         case DataType::CHAR8_STR_ID:
         {
             int res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9501,7 +9501,7 @@ Node::to_long() const
         case DataType::CHAR8_STR_ID:
         {
             long res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9534,7 +9534,7 @@ Node::to_long_long() const
         case DataType::CHAR8_STR_ID:
         {
             long long res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9572,7 +9572,7 @@ Node::to_signed_char() const
         case DataType::CHAR8_STR_ID:
         {
             int16 res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return (signed char)res;
         }
@@ -9603,7 +9603,7 @@ Node::to_signed_short() const
         case DataType::CHAR8_STR_ID:
         {
             signed short res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9634,7 +9634,7 @@ Node::to_signed_int() const
         case DataType::CHAR8_STR_ID:
         {
             signed int res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9665,7 +9665,7 @@ Node::to_signed_long() const
         case DataType::CHAR8_STR_ID:
         {
             signed long res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9698,7 +9698,7 @@ Node::to_signed_long_long() const
         case DataType::CHAR8_STR_ID:
         {
             signed long long res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9738,7 +9738,7 @@ Node::to_unsigned_char() const
         case DataType::CHAR8_STR_ID:
         {
             uint16 res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return (unsigned char)res;
         }
@@ -9770,7 +9770,7 @@ Node::to_unsigned_short() const
         case DataType::CHAR8_STR_ID:
         {
             unsigned short res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9802,7 +9802,7 @@ Node::to_unsigned_int() const
         case DataType::CHAR8_STR_ID:
         {
             unsigned int res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9834,7 +9834,7 @@ Node::to_unsigned_long() const
         case DataType::CHAR8_STR_ID:
         {
             unsigned long res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9868,7 +9868,7 @@ Node::to_unsigned_long_long() const
         case DataType::CHAR8_STR_ID:
         {
             unsigned long long res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9903,7 +9903,7 @@ Node::to_float() const
         case DataType::CHAR8_STR_ID:
         {
             float res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9935,7 +9935,7 @@ Node::to_double() const
         case DataType::CHAR8_STR_ID:
         {
             double res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -9969,7 +9969,7 @@ Node::to_long_double() const
         case DataType::CHAR8_STR_ID:
         {
             long double res;
-            std::stringstream ss(as_char8_str());
+            std::stringstream ss(as_string());
             if(ss >> res)
                 return res;
         }
@@ -15667,7 +15667,17 @@ Node::as_string() const
                         DataType::CHAR8_STR_ID,
                         "as_string() const",
                         std::string());
-    return std::string(as_char8_str());
+    // stop at the null terminator, or at the last element if there is none
+    std::string res;
+    const index_t num_ele = dtype().number_of_elements();
+    for(index_t i = 0; m_data != NULL && i < num_ele; i++)
+    {
+        const char c = *((const char*)element_ptr(i));
+        if(c == '\0')
+            break;
+        res.push_back(c);
+    }
+    return res;
 }
 
 
-- 
2.43.0


From 90aaf385f0b1a69591f1ec75c9b48106b32593aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:56 +0000
Subject: [PATCH 037/100] fix: Schema::set copes with its own parts as a source
 and with object and list ids

---
 src/libs/conduit/conduit_schema.cpp | 46 +++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index 0a75982..a657559 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -110,6 +110,29 @@ Schema::reset()
 void 
 Schema::set(const Schema &schema)
 {
+    if(this == &schema)
+    {
+        return;
+    }
+
+    // reset() would change the source if it is part of our hierarchy
+    // (or we are part of its hierarchy), use a copy in these cases
+    bool related = false;
+    for(const Schema *s = schema.m_parent; s != NULL && !related; s = s->m_parent)
+    {
+        related = (s == this);
+    }
+    for(const Schema *s = m_parent; s != NULL && !related; s = s->m_parent)
+    {
+        related = (s == &schema);
+    }
+    if(related)
+    {
+        Schema schema_copy(schema);
+        set(schema_copy);
+        return;
+    }
+
     reset();
     bool init_children = false;
     index_t dt_id = schema.m_dtype.id();
@@ -151,8 +174,19 @@ void
 Schema::set(index_t dtype_id)
 {
     reset();
-    m_dtype.reset();
-    m_dtype.set_id(dtype_id);
+    if (dtype_id == DataType::OBJECT_ID)
+    {
+        init_object();
+    }
+    else if (dtype_id == DataType::LIST_ID)
+    {
+        init_list();
+    }
+    else
+    {
+        m_dtype.reset();
+        m_dtype.set_id(dtype_id);
+    }
 }
 
 
@@ -160,13 +194,15 @@ Schema::set(index_t dtype_id)
 void 
 Schema::set(const DataType &dtype)
 {
+    // copy b/c dtype may be our own, which reset() clears
+    const DataType new_dtype(dtype);
     reset();
-    if (dtype.id() == DataType::OBJECT_ID) {
+    if (new_dtype.id() == DataType::OBJECT_ID) {
         init_object();
-    } else if (dtype.id() == DataType::LIST_ID) {
+    } else if (new_dtype.id() == DataType::LIST_ID) {
         init_list();
     }
-    m_dtype = dtype;
+    m_dtype = new_dtype;
 }
 
 //---------------------------------------------------------------------------//
-- 
2.43.0


From 76390fafa3caee4a3b8f58ea51fa00e378e27055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:56 +0000
Subject: [PATCH 038/100] fix: Schema::equals and compatible compare children
 whose names contain a slash

---
 src/libs/conduit/conduit_schema.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index a657559..37bb09d 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -358,7 +358,7 @@ Schema::compatible(const Schema &s) const
             itr++)
         {
             // make sure we actually have the path
-            if(has_path(itr->first))
+            if(has_child(itr->first))
             {
                 // use index to fetch the child from the other schema
                 const Schema &s_chld = s.child(itr->second);
@@ -415,7 +415,7 @@ Schema::equals(const Schema &s) const
             itr != s.object_map().end() && res;
             itr++)
         {
-            if(has_path(itr->first))
+            if(has_child(itr->first))
             {
                 size_t s_idx = (size_t) itr->second;
                 res = s.children()[s_idx]->equals(child(itr->first));
@@ -430,7 +430,7 @@ Schema::equals(const Schema &s) const
             itr != object_map().end() && res;
             itr++)
         {
-            if(s.has_path(itr->first))
+            if(s.has_child(itr->first))
             {
                 size_t idx = (size_t) itr->second;
                 res = children()[idx]->equals(s.child(itr->first));
-- 
2.43.0


From 17df8d58cfaa3b61fd50996112f8f912c66f8c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:56 +0000
Subject: [PATCH 039/100] fix: Schema::fetch_existing follows '..' to the
 parent schema

---
 src/libs/conduit/conduit_schema.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index 37bb09d..6c89b25 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -955,8 +955,6 @@ Schema::fetch_existing(const std::string &path)
     std::string p_next;
     utils::split_path(path,p_curr,p_next);
 
-    size_t idx = (size_t) child_index(p_curr);
-    
     // check for parent
     if(p_curr == "..")
     {
@@ -969,6 +967,8 @@ Schema::fetch_existing(const std::string &path)
             return m_parent->fetch_existing(p_next);
         }
     }
+
+    size_t idx = (size_t) child_index(p_curr);
     
     if(p_next.empty())
     {
-- 
2.43.0


From 8a1a582e64e38a670441060a6180afc712bd0dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:52 +0000
Subject: [PATCH 040/100] fix: the YAML text of schema lists with leaves is
 valid

---
 src/libs/conduit/conduit_schema.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index 6c89b25..fc95e85 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -690,6 +690,10 @@ Schema::to_yaml_stream(std::ostream &os,
         {
             utils::indent(os,indent,depth,pad);
             os << "- ";
+            // leaves start with their first entry, they need eoe
+            if(children()[i]->m_dtype.id() != DataType::OBJECT_ID &&
+               children()[i]->m_dtype.id() != DataType::LIST_ID)
+                os << eoe;
             children()[i]->to_yaml_stream(os,
                                           indent,
                                           depth+1,
-- 
2.43.0


From e97c65c1db756a90efab823e06953df2bfc3ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:15 +0000
Subject: [PATCH 041/100] fix: an empty leaf of a schema text is parsed as an
 empty schema

---
 src/libs/conduit/conduit_generator.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index bc93cce..bbc1385 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -948,6 +948,10 @@ Generator::Parser::JSON::parse_leaf_dtype(const conduit_rapidjson::Value &jvalue
                       ele_size,
                       ele_size,
                       Endianness::DEFAULT_ID);
+        if(dtype_id == DataType::EMPTY_ID)
+        {
+            dtype_res = DataType::empty();
+        }
     }
     else if(jvalue.IsObject())
     {
@@ -1069,6 +1073,10 @@ Generator::Parser::JSON::parse_leaf_dtype(const conduit_rapidjson::Value &jvalue
                       ele_size,
                       endianness);
         check_leaf_dtype(dtype_res);
+        if(dtype_id == DataType::EMPTY_ID)
+        {
+            dtype_res = DataType::empty();
+        }
     }
     else
     {
@@ -2731,6 +2739,10 @@ Generator::Parser::YAML::parse_leaf_dtype(yaml_document_t *yaml_doc,
                       ele_size,
                       ele_size,
                       Endianness::DEFAULT_ID);
+        if(dtype_id == DataType::EMPTY_ID)
+        {
+            dtype_res = DataType::empty();
+        }
     }
     else if (check_yaml_is_mapping_node(yaml_node))
     {
@@ -2850,6 +2862,10 @@ Generator::Parser::YAML::parse_leaf_dtype(yaml_document_t *yaml_doc,
                       ele_size,
                       endianness);
         check_leaf_dtype(dtype_res);
+        if(dtype_id == DataType::EMPTY_ID)
+        {
+            dtype_res = DataType::empty();
+        }
     }
     else
     {
-- 
2.43.0


From 8b7f4a7e18d4cfe46f95f6b1e946c534b320b5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:03 +0000
Subject: [PATCH 042/100] fix: diff of strings stays within their elements

---
 src/libs/conduit/conduit_data_array.cpp | 60 +++++++++----------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/src/libs/conduit/conduit_data_array.cpp b/src/libs/conduit/conduit_data_array.cpp
index ababf48..64b9724 100644
--- a/src/libs/conduit/conduit_data_array.cpp
+++ b/src/libs/conduit/conduit_data_array.cpp
@@ -142,30 +142,20 @@ DataArray<T>::diff(const DataArray<T> &array, Node &info, const float64 epsilon)
         // case that is distinct from an empty string.
         if(t_nelems > 0)
         {
-            if(dtype().is_compact())
-            {
-                t_data = (const char*)element_ptr(0);
-            }
-            else
-            {
-                t_compact_data = new uint8[(size_t)dtype().bytes_compact()];
-                compact_elements_to(t_compact_data);
-                t_data = (const char*)t_compact_data;
-            }
+            // the elements are not always null terminated
+            t_compact_data = new uint8[(size_t)dtype().bytes_compact() + 1];
+            compact_elements_to(t_compact_data);
+            t_compact_data[dtype().bytes_compact()] = 0;
+            t_data = (const char*)t_compact_data;
         }
 
         if(o_nelems > 0)
         {
-            if(array.dtype().is_compact())
-            {
-                o_data = (const char*)array.element_ptr(0);
-            }
-            else
-            {
-                o_compact_data = new uint8[(size_t)array.dtype().bytes_compact()];
-                array.compact_elements_to(o_compact_data);
-                o_data = (const char*)o_compact_data;
-            }
+            // the elements are not always null terminated
+            o_compact_data = new uint8[(size_t)array.dtype().bytes_compact() + 1];
+            array.compact_elements_to(o_compact_data);
+            o_compact_data[array.dtype().bytes_compact()] = 0;
+            o_data = (const char*)o_compact_data;
         }
 
         // for debugging:
@@ -295,30 +285,20 @@ DataArray<T>::diff_compatible(const DataArray<T> &array, Node &info, const float
         // case that is distinct from an empty string.
         if(t_nelems > 0)
         {
-            if(dtype().is_compact())
-            {
-                t_data = (const char*)element_ptr(0);
-            }
-            else
-            {
-                t_compact_data = new uint8[(size_t)dtype().bytes_compact()];
-                compact_elements_to(t_compact_data);
-                t_data = (const char*)t_compact_data;
-            }
+            // the elements are not always null terminated
+            t_compact_data = new uint8[(size_t)dtype().bytes_compact() + 1];
+            compact_elements_to(t_compact_data);
+            t_compact_data[dtype().bytes_compact()] = 0;
+            t_data = (const char*)t_compact_data;
         }
 
         if(o_nelems > 0)
         {
-            if(array.dtype().is_compact())
-            {
-                o_data = (const char*)array.element_ptr(0);
-            }
-            else
-            {
-                o_compact_data = new uint8[(size_t)array.dtype().bytes_compact()];
-                array.compact_elements_to(o_compact_data);
-                o_data = (const char*)o_compact_data;
-            }
+            // the elements are not always null terminated
+            o_compact_data = new uint8[(size_t)array.dtype().bytes_compact() + 1];
+            array.compact_elements_to(o_compact_data);
+            o_compact_data[array.dtype().bytes_compact()] = 0;
+            o_data = (const char*)o_compact_data;
         }
 
         // for debugging:
-- 
2.43.0


From 318f1722a72ff2d90320308fefd7220ba689fa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:03 +0000
Subject: [PATCH 043/100] fix: diff reports nan values that differ

---
 src/libs/conduit/conduit_data_array.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_data_array.cpp b/src/libs/conduit/conduit_data_array.cpp
index 64b9724..1111fb2 100644
--- a/src/libs/conduit/conduit_data_array.cpp
+++ b/src/libs/conduit/conduit_data_array.cpp
@@ -111,6 +111,22 @@ DataArray<T>::compatible(const DataArray<T> &array) const
     return dtype().compatible(array.dtype());
 }
 
+//---------------------------------------------------------------------------//
+// floating point values differ when they are further apart than epsilon,
+// (a nan differs from everything but another nan)
+template <typename T>
+static bool
+values_differ(const T a, const T b, const float64 epsilon)
+{
+    if(a == b || (a != a && b != b))
+    {
+        return false;
+    }
+
+    const T delta = a - b;
+    return !(delta <= epsilon && delta >= -epsilon);
+}
+
 //---------------------------------------------------------------------------//
 template <typename T> 
 bool
@@ -237,7 +253,7 @@ DataArray<T>::diff(const DataArray<T> &array, Node &info, const float64 epsilon)
             info_ptr[i] = (*this)[i] - array[i];
             if(dtype().is_floating_point())
             {
-                res |= info_ptr[i] > epsilon || info_ptr[i] < -epsilon;
+                res |= values_differ((*this)[i], array[i], epsilon);
             }
             else
             {
@@ -402,7 +418,7 @@ DataArray<T>::diff_compatible(const DataArray<T> &array, Node &info, const float
             info_ptr[i] = (*this)[i] - array[i];
             if(dtype().is_floating_point())
             {
-                res |= info_ptr[i] > epsilon || info_ptr[i] < -epsilon;
+                res |= values_differ((*this)[i], array[i], epsilon);
             }
             else
             {
-- 
2.43.0


From 2b92f7898338f3d5278440e8939a9c117a51e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:03 +0000
Subject: [PATCH 044/100] fix: diff with relaxint compares all integers of the
 leaves

---
 src/libs/conduit/conduit_node.cpp | 41 ++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 6465e0f..db9c58f 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -18056,6 +18056,29 @@ Node::find_first_data_ptr() const
     return res;
 }
 
+//---------------------------------------------------------------------------//
+// do the elements of integer leaf a differ from those b holds in their place?
+static bool
+integers_differ(const Node &a, const Node &b)
+{
+    const int64_accessor  a_vals = a.as_int64_accessor();
+    const int64_accessor  b_vals = b.as_int64_accessor();
+    const bool a_signed = a.dtype().is_signed_integer();
+    const bool b_signed = b.dtype().is_signed_integer();
+
+    for(index_t i = 0; i < a.dtype().number_of_elements(); i++)
+    {
+        const bool a_neg = a_signed && a_vals[i] < 0;
+        const bool b_neg = b_signed && b_vals[i] < 0;
+        if(a_neg != b_neg || a_vals[i] != b_vals[i])
+        {
+            return true;
+        }
+    }
+
+    return false;
+}
+
 //---------------------------------------------------------------------------//
 bool
 Node::diff(const Node &n, Node &info, const float64 epsilon, bool relaxint) const
@@ -18072,12 +18095,9 @@ Node::diff(const Node &n, Node &info, const float64 epsilon, bool relaxint) cons
         // We ought to be able to compare integers of different sizes.
         if(relaxint)
         {
-            if(dtype().is_signed_integer() && n.dtype().is_signed_integer())
-                res = to_int64() != n.to_int64();
-            else if(dtype().is_unsigned_integer() && n.dtype().is_unsigned_integer())
-                res = to_uint64() != n.to_uint64();
-            else if(dtype().is_integer() && n.dtype().is_integer())
-                res = to_int64() != n.to_int64();
+            if(dtype().is_integer() && n.dtype().is_integer())
+                res = dtype().number_of_elements() != n.dtype().number_of_elements() ||
+                      integers_differ(*this, n);
             else
                 res = true;
         }
@@ -18260,12 +18280,9 @@ Node::diff_compatible(const Node &n, Node &info, const float64 epsilon,
         // We ought to be able to compare integers of different sizes.
         if(relaxint)
         {
-            if(dtype().is_signed_integer() && n.dtype().is_signed_integer())
-                res = to_int64() != n.to_int64();
-            else if(dtype().is_unsigned_integer() && n.dtype().is_unsigned_integer())
-                res = to_uint64() != n.to_uint64();
-            else if(dtype().is_integer() && n.dtype().is_integer())
-                res = to_int64() != n.to_int64();
+            if(dtype().is_integer() && n.dtype().is_integer())
+                res = dtype().number_of_elements() > n.dtype().number_of_elements() ||
+                      integers_differ(*this, n);
             else
                 res = true;
         }
-- 
2.43.0


From 1ef4cc43fb1caf8f343f11dcf7385e6338f75142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:02 +0000
Subject: [PATCH 045/100] fix: loading a data file that is shorter than its
 schema describes is reported

---
 src/libs/conduit/conduit_node.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index db9c58f..58ac5c2 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -304,8 +304,17 @@ Node::load(const std::string &stream_path,
         CONDUIT_ERROR("<Node::load> failed to open: " << stream_path);
     }
     ifs.read((char *)m_data,dsize);
+    index_t nread = (index_t)ifs.gcount();
     ifs.close();
 
+    if(nread != dsize)
+    {
+        reset();
+        CONDUIT_ERROR("<Node::load> failed to read " << dsize
+                      << " bytes from: " << stream_path
+                      << " (read " << nread << ")");
+    }
+
     //
     // See Below
     //
-- 
2.43.0


From 2cae59a9b59cd9a6910cdb2f5bbb0c24d4d74a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:02 +0000
Subject: [PATCH 046/100] fix: mapping a missing, short or empty file is
 reported, large files are mapped whole

---
 src/libs/conduit/conduit_node.cpp | 63 ++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 58ac5c2..9cb71ea 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17321,7 +17321,7 @@ class Node::MMap
 
   private:
       void      *m_data;
-      int        m_data_size;
+      index_t    m_data_size;
 
 #if !defined(CONDUIT_PLATFORM_WINDOWS)
       // memory-map file descriptor
@@ -17366,28 +17366,48 @@ Node::MMap::open(const std::string &path,
     }
 
 #if !defined(CONDUIT_PLATFORM_WINDOWS)
-    m_mmap_fd   = ::open(path.c_str(),
-                         (O_RDWR | O_CREAT),
-                         (S_IRUSR | S_IWUSR));
-
-    m_data_size = data_size;
+    m_mmap_fd   = ::open(path.c_str(), O_RDWR);
 
     if (m_mmap_fd == -1)
-    {
     {
         CONDUIT_ERROR("<Node::mmap> failed to open file: "
                      << "\"" << path << "\"");
     }
+
+    // access beyond the end of the file would be fatal
+    struct stat file_stat;
+    if (::fstat(m_mmap_fd, &file_stat) == -1 ||
+        (index_t)file_stat.st_size < data_size)
+    {
+        ::close(m_mmap_fd);
+        m_mmap_fd = -1;
+        CONDUIT_ERROR("<Node::mmap> file: \"" << path << "\" has less than "
+                      << data_size << " bytes");
     }
 
-    m_data = ::mmap(0,
-                    m_data_size,
-                    (PROT_READ | PROT_WRITE),
-                    MAP_SHARED,
-                    m_mmap_fd, 0);
+    // there is nothing to map for an empty description
+    void *data = NULL;
+    if (data_size > 0)
+    {
+        data = ::mmap(0,
+                      data_size,
+                      (PROT_READ | PROT_WRITE),
+                      MAP_SHARED,
+                      m_mmap_fd, 0);
+    }
+
+    if (data == NULL || data == MAP_FAILED)
+    {
+        ::close(m_mmap_fd);
+        m_mmap_fd = -1;
+        if (data == MAP_FAILED)
+        {
+            CONDUIT_ERROR("<Node::mmap> mmap data = MAP_FAILED" << path);
+        }
+    }
 
-    if (m_data == MAP_FAILED)
-        CONDUIT_ERROR("<Node::mmap> mmap data = MAP_FAILED" << path);
+    m_data      = data;
+    m_data_size = data_size;
 #else
     m_file_hnd = CreateFile(path.c_str(),
                             (GENERIC_READ | GENERIC_WRITE),
@@ -17417,7 +17437,7 @@ Node::MMap::open(const std::string &path,
                            FILE_MAP_ALL_ACCESS,
                            0, 0, 0);
 
-    m_data_size = (int)data_size;
+    m_data_size = data_size;
 
     if (m_data == NULL)
     {
@@ -17531,8 +17551,17 @@ Node::allocate(index_t dsize)
 void
 Node::mmap(const std::string &stream_path, index_t data_size)
 {
-    m_mmap = new MMap();
-    m_mmap->open(stream_path,data_size);
+    MMap *map = new MMap();
+    try
+    {
+        map->open(stream_path,data_size);
+    }
+    catch(...)
+    {
+        delete map;
+        throw;
+    }
+    m_mmap = map;
     m_data = m_mmap->data_ptr();
     m_data_size = data_size;
     m_alloced = false;
-- 
2.43.0


From 2dd1550439fd52d4a96f5f0a522c599b64271650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:16 +0000
Subject: [PATCH 047/100] fix: failures to write a file are reported

---
 src/libs/conduit/conduit_node.cpp   | 75 +++++++++++++++++++++++++++++
 src/libs/conduit/conduit_schema.cpp | 20 ++++++++
 2 files changed, 95 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 9cb71ea..7e3130c 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8611,6 +8611,11 @@ Node::serialize(const std::string &stream_path) const
     }
     serialize(ofs);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::serialize> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -12902,6 +12907,11 @@ Node::to_string_stream(const std::string &stream_path,
     }
     to_string_stream(ofs,protocol,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_string_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -12978,6 +12988,11 @@ Node::to_string_stream(const std::string &stream_path,
     }
     to_string_stream(ofs,opts);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_string_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13090,6 +13105,11 @@ Node::to_summary_string_stream(const std::string &stream_path,
     }
     to_summary_string_stream(ofs,opts);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_summary_string_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13368,6 +13388,11 @@ Node::to_json_stream(const std::string &stream_path,
                    pad,
                    eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_json_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13478,6 +13503,11 @@ Node::to_json_stream(const std::string &stream_path,
     }
     to_json_stream(ofs,opts);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_json_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13528,6 +13558,11 @@ Node::to_yaml_stream(const std::string &stream_path,
                    pad,
                    eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_yaml_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13625,6 +13660,11 @@ Node::to_yaml_stream(const std::string &stream_path,
     }
     to_yaml_stream(ofs,opts);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_yaml_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13672,6 +13712,11 @@ Node::to_json_generic(const std::string &stream_path,
     }
     to_json_generic(ofs,detailed,address,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_json> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -13859,6 +13904,11 @@ Node::to_pure_json(const std::string &stream_path,
     }
     to_json_generic(ofs,false,false,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_pure_json> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //---------------------------------------------------------------------------//
@@ -13899,6 +13949,11 @@ Node::to_detailed_json(const std::string &stream_path,
     }
     to_json_generic(ofs,true,false,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_detailed_json> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -13941,6 +13996,11 @@ Node::to_detailed_json_external(const std::string &stream_path,
     }
     to_json_generic(ofs,true,true,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_detailed_json> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -13986,6 +14046,11 @@ Node::to_base64_json(const std::string &stream_path,
     }
     to_base64_json(ofs,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_base64_json> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -14087,6 +14152,11 @@ Node::to_yaml_generic(const std::string &stream_path,
     }
     to_yaml_generic(ofs,detailed,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_yaml_generic> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -14220,6 +14290,11 @@ Node::to_pure_yaml(const std::string &stream_path,
     }
     to_yaml_generic(ofs,false,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Node::to_pure_yaml> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //---------------------------------------------------------------------------//
diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index fc95e85..63b5c7d 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -542,6 +542,11 @@ Schema::to_string_stream(const std::string &stream_path,
     }
     to_string_stream(ofs,protocol,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Schema::to_string_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //---------------------------------------------------------------------------//
@@ -634,6 +639,11 @@ Schema::to_json_stream(const std::string &stream_path,
     }
     to_json_stream(ofs,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Schema::to_json_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //---------------------------------------------------------------------------//
@@ -728,6 +738,11 @@ Schema::to_yaml_stream(const std::string &stream_path,
     }
     to_yaml_stream(ofs,indent,depth,pad,eoe);
     ofs.close();
+    if(ofs.fail())
+    {
+        CONDUIT_ERROR("<Schema::to_yaml_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //---------------------------------------------------------------------------//
@@ -765,6 +780,11 @@ Schema::save(const std::string &ofname,
     }
     ofile << oss.str();
     ofile.close();
+    if(ofile.fail())
+    {
+        CONDUIT_ERROR("<Schema::save> failed to write file: "
+                      << "\"" << ofname << "\"");
+    }
 }
 
 
-- 
2.43.0


From ca25af1e82233dd53985df0da4624776b6f67446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:22 +0000
Subject: [PATCH 048/100] fix: split_string and rsplit_string skip the whole
 separator

---
 src/libs/conduit/conduit_utils.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index d3c8244..3c633d7 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -460,8 +460,7 @@ split_string(const std::string &str,
     if (found != std::string::npos)
     {
         curr = str.substr(0,found);
-        if(found != str.size()-1)
-            next = str.substr(found+1,str.size()-(found-1));
+        next = str.substr(found + sep.size());
     }
     else
     {
@@ -513,8 +512,7 @@ rsplit_string(const std::string &str,
     if (found != std::string::npos)
     {
         next = str.substr(0,found);
-        if(found != str.size()-1)
-             curr = str.substr(found+1,str.size()-(found-1));
+        curr = str.substr(found + sep.size());
     }
     else
     {
-- 
2.43.0


From aee5a1a78a9fb28beb5e10f68ae8e04e694ac9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:22 +0000
Subject: [PATCH 049/100] fix: rsplit_file_path splits right after a drive
 letter

---
 src/libs/conduit/conduit_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 3c633d7..35d42cd 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -675,7 +675,7 @@ rsplit_file_path(const std::string &path,
                                           curr,
                                           next);
             // add drive letter back
-            if(next == "")
+            if(check_path.find(sep) == std::string::npos)
             {
                 // there was no split
                 curr = path.substr(0,3) + curr;
-- 
2.43.0


From 30a02f60232251def609b3ce9cc7f64e7c762ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:22 +0000
Subject: [PATCH 050/100] fix: is_file and is_directory tell sockets and
 devices from files and directories

---
 src/libs/conduit/conduit_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 35d42cd..280d629 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -729,7 +729,7 @@ is_file(const std::string &path)
     struct stat path_stat;
     if(stat(path.c_str(), &path_stat) == 0)
     {
-        if(path_stat.st_mode & S_IFREG)
+        if((path_stat.st_mode & S_IFMT) == S_IFREG)
             res = true;
     }
     return res;
@@ -751,7 +751,7 @@ is_directory(const std::string &path)
     struct stat path_stat;
     if (stat(path.c_str(), &path_stat) == 0)
     {
-        if (path_stat.st_mode & S_IFDIR)
+        if ((path_stat.st_mode & S_IFMT) == S_IFDIR)
             res = true;
     }
     return res;
-- 
2.43.0


From 763499a761cac1407f5091dad3081621ca32103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:31 +0000
Subject: [PATCH 051/100] fix: format with maps reads the elements of strided
 arrays

---
 src/libs/conduit/conduit_utils.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 280d629..3703f00 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1709,7 +1709,7 @@ format(const std::string &pattern,
             /* ints */
             case conduit::DataType::INT8_ID:
             {
-                int8 val = curr.as_int8_ptr()[map_index];
+                int8 val = curr.as_int8_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1723,7 +1723,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::INT16_ID:
             {
-                int16 val = curr.as_int16_ptr()[map_index];
+                int16 val = curr.as_int16_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1737,7 +1737,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::INT32_ID:
             {
-                int32 val = curr.as_int32_ptr()[map_index];
+                int32 val = curr.as_int32_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1751,7 +1751,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::INT64_ID:
             {
-                int64 val = curr.as_int64_ptr()[map_index];
+                int64 val = curr.as_int64_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1766,7 +1766,7 @@ format(const std::string &pattern,
             /* uints */
             case conduit::DataType::UINT8_ID:
             {
-                uint8 val = curr.as_uint8_ptr()[map_index];
+                uint8 val = curr.as_uint8_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1780,7 +1780,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::UINT16_ID:
             {
-                uint16 val = curr.as_uint16_ptr()[map_index];
+                uint16 val = curr.as_uint16_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1794,7 +1794,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::UINT32_ID:
             {
-                uint32 val = curr.as_uint32_ptr()[map_index];
+                uint32 val = curr.as_uint32_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1808,7 +1808,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::UINT64_ID:
             {
-                uint64 val = curr.as_uint64_ptr()[map_index];
+                uint64 val = curr.as_uint64_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1823,7 +1823,7 @@ format(const std::string &pattern,
             /* floats */
             case conduit::DataType::FLOAT32_ID:
             {
-                float32 val = curr.as_float32_ptr()[map_index];
+                float32 val = curr.as_float32_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1837,7 +1837,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::FLOAT64_ID:
             {
-                float64 val = curr.as_float64_ptr()[map_index];
+                float64 val = curr.as_float64_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
-- 
2.43.0


From cd56d7be34e9253c776f9f5f3abb0b231657d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:01 +0000
Subject: [PATCH 052/100] fix: HDF5 objects and files are closed when an
 operation fails

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 202 ++++++++++++++++++++++-
 1 file changed, 197 insertions(+), 5 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 40c0a8e..609032a 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -19,6 +19,8 @@
 //-----------------------------------------------------------------------------
 // standard lib includes
 //-----------------------------------------------------------------------------
+#include <algorithm>
+#include <exception>
 #include <iostream>
 
 //-----------------------------------------------------------------------------
@@ -383,6 +385,117 @@ private:
     bool          active;
 };
 
+//-----------------------------------------------------------------------------
+// Private class used to close the HDF5 objects an operation opened,
+// when the operation ends with an exception.
+//
+// Without this, those objects (and with them their file) stay open, and the
+// file can't be opened for writing or truncated until the process ends.
+//
+// Call done() when the operation is successful.
+//-----------------------------------------------------------------------------
+class HDF5ErrorCleanup
+{
+public:
+        HDF5ErrorCleanup(hid_t hdf5_id)
+        :  file_id(H5Iget_file_id(hdf5_id)),
+           active(true)
+        {
+            open_ids(ids);
+        }
+
+       ~HDF5ErrorCleanup()
+        {
+            if(active)
+            {
+                std::vector<hid_t> curr_ids;
+                open_ids(curr_ids);
+                for(size_t i=0;i<curr_ids.size();i++)
+                {
+                    if(std::find(ids.begin(),
+                                 ids.end(),
+                                 curr_ids[i]) == ids.end())
+                    {
+                        if(H5Iget_type(curr_ids[i]) == H5I_ATTR)
+                        {
+                            H5Aclose(curr_ids[i]);
+                        }
+                        else
+                        {
+                            H5Oclose(curr_ids[i]);
+                        }
+                    }
+                }
+            }
+
+            if(file_id >= 0)
+            {
+                H5Fclose(file_id);
+            }
+        }
+
+        void done()
+        {
+            active = false;
+        }
+
+private:
+    void open_ids(std::vector<hid_t> &res) const
+    {
+        const unsigned int h5_types = H5F_OBJ_GROUP | H5F_OBJ_DATASET |
+                                      H5F_OBJ_DATATYPE | H5F_OBJ_ATTR;
+        res.clear();
+        ssize_t num_ids = file_id >= 0 ? H5Fget_obj_count(file_id, h5_types)
+                                       : 0;
+        if(num_ids > 0)
+        {
+            res.resize((size_t)num_ids);
+            num_ids = H5Fget_obj_ids(file_id,
+                                     h5_types,
+                                     (size_t)num_ids,
+                                     &res[0]);
+            res.resize(num_ids > 0 ? (size_t)num_ids : 0);
+        }
+    }
+
+    // file that contains the objects
+    hid_t              file_id;
+    // ids that were open when the operation started
+    std::vector<hid_t> ids;
+    // reflects if the operation is still in progress
+    bool               active;
+};
+
+//-----------------------------------------------------------------------------
+// Private class used to close an HDF5 file, when an operation ends with an
+// exception. Call done() when the operation is successful.
+//-----------------------------------------------------------------------------
+class HDF5ErrorFileCloser
+{
+public:
+        HDF5ErrorFileCloser(hid_t hdf5_id)
+        :  file_id(hdf5_id),
+           active(true)
+        {}
+
+       ~HDF5ErrorFileCloser()
+        {
+            if(active)
+            {
+                H5Fclose(file_id);
+            }
+        }
+
+        void done()
+        {
+            active = false;
+        }
+
+private:
+    hid_t file_id;
+    bool  active;
+};
+
 //-----------------------------------------------------------------------------
 // helper method decls
 //-----------------------------------------------------------------------------
@@ -2313,6 +2426,10 @@ struct h5_read_opdata
 
     // whether to only get metadata
     bool             metadata_only;
+
+    // exception raised in the callback. (we can't throw through hdf5's
+    // iteration, it has state to clean up)
+    std::exception_ptr error;
 };
 
 //---------------------------------------------------------------------------//
@@ -2427,7 +2544,7 @@ h5l_iterate_traverse_op_func_get_child(Node &node,
 }
 
 //---------------------------------------------------------------------------//
-/// Our main callback for H5Literate.
+/// Body of our main callback for H5Literate.
 /// (adapted from: h5ex_g_traverse)
 //---------------------------------------------------------------------------//
 //  Operator function.  This function prints the name and type
@@ -2439,10 +2556,9 @@ h5l_iterate_traverse_op_func_get_child(Node &node,
 //  circular path in the file.
 //---------------------------------------------------------------------------//
 herr_t
-h5l_iterate_traverse_op_func(hid_t hdf5_id,
-                             const char *hdf5_path,
-                             const H5L_info_t *,// hdf5_info -- unused
-                             void *hdf5_operator_data)
+h5l_iterate_traverse_op_func_exec(hid_t hdf5_id,
+                                  const char *hdf5_path,
+                                  void *hdf5_operator_data)
 {
     herr_t h5_status = 0;
     herr_t h5_return_val = 0;
@@ -2590,6 +2706,31 @@ h5l_iterate_traverse_op_func(hid_t hdf5_id,
     return h5_return_val;
 }
 
+//---------------------------------------------------------------------------//
+/// Our main callback for H5Literate.
+/// Keeps exceptions from unwinding hdf5's iteration.
+//---------------------------------------------------------------------------//
+herr_t
+h5l_iterate_traverse_op_func(hid_t hdf5_id,
+                             const char *hdf5_path,
+                             const H5L_info_t *,// hdf5_info -- unused
+                             void *hdf5_operator_data)
+{
+    try
+    {
+        return h5l_iterate_traverse_op_func_exec(hdf5_id,
+                                                 hdf5_path,
+                                                 hdf5_operator_data);
+    }
+    catch(...)
+    {
+        ((struct h5_read_opdata*)hdf5_operator_data)->error
+            = std::current_exception();
+    }
+
+    return -1;
+}
+
 
 //---------------------------------------------------------------------------//
 void
@@ -2691,6 +2832,11 @@ read_hdf5_group_into_conduit_node(hid_t hdf5_group_id,
                            h5l_iterate_traverse_op_func,
                            (void *) &h5_od);
 
+    if(h5_od.error)
+    {
+        std::rethrow_exception(h5_od.error);
+    }
+
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_status,
                                                     hdf5_group_id,
                                                     ref_path,
@@ -3381,6 +3527,9 @@ hdf5_write(const Node &node,
         n.set_external(const_cast<Node&>(node));
     }
 
+    // close what we open, if we fail
+    HDF5ErrorCleanup cleanup(hdf5_id);
+
     std::string incompat_details;
     // check compat
     if(check_if_conduit_node_is_compatible_with_hdf5_tree(n,
@@ -3406,6 +3555,8 @@ hdf5_write(const Node &node,
                       << "\nDetails:\n" << incompat_details);
     }
 
+    cleanup.done();
+
     // restore hdf5 error stack
 }
 
@@ -3433,6 +3584,9 @@ hdf5_write(const Node &node,
     // of check_if_conduit_node_is_compatible_with_hdf5_tree
     HDF5ErrorStackSupressor supress_hdf5_errors;
 
+    // close what we open, if we fail
+    HDF5ErrorCleanup cleanup(hdf5_id);
+
     std::string incompat_details;
 
     // check compat
@@ -3459,6 +3613,9 @@ hdf5_write(const Node &node,
                       << "incompatible with the Conduit Node."
                       << " Details: " << incompat_details);
     }
+
+    cleanup.done();
+
     // restore hdf5 error stack
 }
 
@@ -3621,11 +3778,16 @@ hdf5_write(const Node &node,
         h5_file_id = hdf5_create_file(file_path);
     }
 
+    // close the file if we fail
+    HDF5ErrorFileCloser file_closer(h5_file_id);
+
     hdf5_write(node,
                h5_file_id,
                hdf5_path,
                opts);
 
+    file_closer.done();
+
     // close the hdf5 file
     CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_id),
                              "Error closing HDF5 file: " << file_path);
@@ -3718,6 +3880,9 @@ hdf5_read(hid_t hdf5_id,
     // disable hdf5 error stack
     HDF5ErrorStackSupressor supress_hdf5_errors;
 
+    // close what we open, if we fail
+    HDF5ErrorCleanup cleanup(hdf5_id);
+
     // get hdf5 object at path, then call read_hdf5_tree_into_conduit_node
     hid_t h5_child_obj  = H5Oopen(hdf5_id,
                                   hdf5_path.c_str(),
@@ -3741,6 +3906,8 @@ hdf5_read(hid_t hdf5_id,
                              "Failed to close HDF5 Object: "
                              << h5_child_obj);
 
+    cleanup.done();
+
     // restore hdf5 error stack
 }
 
@@ -3766,11 +3933,16 @@ hdf5_read(const std::string &file_path,
     // open the hdf5 file for reading
     hid_t h5_file_id = hdf5_open_file_for_read(file_path);
 
+    // close the file if we fail
+    HDF5ErrorFileCloser file_closer(h5_file_id);
+
     hdf5_read(h5_file_id,
               hdf5_path,
               opts,
               node);
 
+    file_closer.done();
+
     // close the hdf5 file
     CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_id),
                              "Error closing HDF5 file: " << file_path);
@@ -3833,12 +4005,17 @@ hdf5_read(hid_t hdf5_id,
     // disable hdf5 error stack
     HDF5ErrorStackSupressor supress_hdf5_errors;
 
+    // close what we open, if we fail
+    HDF5ErrorCleanup cleanup(hdf5_id);
+
     read_hdf5_tree_into_conduit_node(hdf5_id,
                                      "",
                                      false,
                                      opts,
                                      dest);
 
+    cleanup.done();
+
     // restore hdf5 error stack
 }
 
@@ -3863,6 +4040,9 @@ hdf5_read_info(hid_t hdf5_id,
     // disable hdf5 error stack
     HDF5ErrorStackSupressor supress_hdf5_errors;
 
+    // close what we open, if we fail
+    HDF5ErrorCleanup cleanup(hdf5_id);
+
     // get hdf5 object at path, then call read_hdf5_tree_into_conduit_node
     hid_t h5_child_obj  = H5Oopen(hdf5_id,
                                   hdf5_path.c_str(),
@@ -3886,6 +4066,8 @@ hdf5_read_info(hid_t hdf5_id,
                              "Failed to close HDF5 Object: "
                              << h5_child_obj);
 
+    cleanup.done();
+
     // restore hdf5 error stack
 }
 
@@ -3911,11 +4093,16 @@ hdf5_read_info(const std::string &file_path,
     // open the hdf5 file for reading
     hid_t h5_file_id = hdf5_open_file_for_read(file_path);
 
+    // close the file if we fail
+    HDF5ErrorFileCloser file_closer(h5_file_id);
+
     hdf5_read_info(h5_file_id,
               hdf5_path,
               opts,
               node);
 
+    file_closer.done();
+
     // close the hdf5 file
     CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_id),
                              "Error closing HDF5 file: " << file_path);
@@ -3978,12 +4165,17 @@ hdf5_read_info(hid_t hdf5_id,
     // disable hdf5 error stack
     HDF5ErrorStackSupressor supress_hdf5_errors;
 
+    // close what we open, if we fail
+    HDF5ErrorCleanup cleanup(hdf5_id);
+
     read_hdf5_tree_into_conduit_node(hdf5_id,
                                      "",
                                      true,
                                      opts,
                                      dest);
 
+    cleanup.done();
+
     // restore hdf5 error stack
 }
 
-- 
2.43.0


From 6f528bbb32bc87dc56616e36a49ca69f6b064f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:07 +0000
Subject: [PATCH 053/100] fix: HDF5 options are restored when a save or a
 handle write fails

---
 src/libs/relay/conduit_relay_io.cpp        | 26 ++++++++++++++++++++--
 src/libs/relay/conduit_relay_io_handle.cpp | 26 ++++++++++++++++++++--
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io.cpp b/src/libs/relay/conduit_relay_io.cpp
index 0d5e891..087e6d7 100644
--- a/src/libs/relay/conduit_relay_io.cpp
+++ b/src/libs/relay/conduit_relay_io.cpp
@@ -373,7 +373,18 @@ save(const Node &node,
             hdf5_set_options(options["hdf5"]);
         }
 
-        hdf5_save(node,path,options);
+        try
+        {
+            hdf5_save(node,path,options);
+        }
+        catch(...)
+        {
+            if(!prev_options.dtype().is_empty())
+            {
+                hdf5_set_options(prev_options);
+            }
+            throw;
+        }
 
         if(!prev_options.dtype().is_empty())
         {
@@ -500,7 +511,18 @@ save_merged(const Node &node,
             hdf5_set_options(options["hdf5"]);
         }
 
-        hdf5_append(node,path,options);
+        try
+        {
+            hdf5_append(node,path,options);
+        }
+        catch(...)
+        {
+            if(!prev_options.dtype().is_empty())
+            {
+                hdf5_set_options(prev_options);
+            }
+            throw;
+        }
 
         if(!prev_options.dtype().is_empty())
         {
diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index 53d42d4..1dd5ac6 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -722,7 +722,18 @@ HDF5Handle::write(const Node &node,
         hdf5_set_options(options()["hdf5"]);
     }
 
-    hdf5_write(node,m_h5_id, opts);
+    try
+    {
+        hdf5_write(node,m_h5_id, opts);
+    }
+    catch(...)
+    {
+        if(!prev_options.dtype().is_empty())
+        {
+            hdf5_set_options(prev_options);
+        }
+        throw;
+    }
 
     if(!prev_options.dtype().is_empty())
     {
@@ -758,7 +769,18 @@ HDF5Handle::write(const Node &node,
         hdf5_set_options(options()["hdf5"]);
     }
 
-    hdf5_write(node,m_h5_id,path,opts);
+    try
+    {
+        hdf5_write(node,m_h5_id,path,opts);
+    }
+    catch(...)
+    {
+        if(!prev_options.dtype().is_empty())
+        {
+            hdf5_set_options(prev_options);
+        }
+        throw;
+    }
 
     if(!prev_options.dtype().is_empty())
     {
-- 
2.43.0


From 0f06abb83f016732d50da4686b161b8afdf16018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:41 +0000
Subject: [PATCH 054/100] fix: HDF5 reads into strided leaves update them in
 place

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 609032a..a7c300c 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -3152,8 +3152,9 @@ read_hdf5_dataset_into_conduit_node(hid_t hdf5_dset_id,
                                     H5P_DEFAULT,
                                     n_tmp.data_ptr());
 
-                // copy out to our dest
-                dest.set(n_tmp);
+                // copy out to our dest (as the direct read does, this keeps
+                // the memory of a compatible dest)
+                dest.update(n_tmp);
             }
 
             H5Sclose(nodespace);
-- 
2.43.0


From 45e4aabcb0e762fc7837df6a3a7b591ab9c033d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:29 +0000
Subject: [PATCH 055/100] fix: opening a handle write only keeps the contents
 of the file

---
 src/libs/relay/conduit_relay_io_handle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index 1dd5ac6..6cd8770 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -409,8 +409,9 @@ BasicHandle::open()
     // we start out with a blank slate
     if( utils::is_file( path() ) )
     {
-        // read if handle is not 'write' only and we aren't truncating
-        if( open_mode_read() && !open_mode_truncate() )
+        // read if we aren't truncating (this includes the write only case,
+        // close() saves the existing contents with what was written)
+        if( !open_mode_truncate() )
         {
             // read from file
             io::load(path(),
-- 
2.43.0


From 6790fb8ac35d35f8594bbf1b3cf0f45fc6d7afc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:23 +0000
Subject: [PATCH 056/100] fix: listing the child names of a missing path
 through an HDF5 handle gives an empty list

---
 src/libs/relay/conduit_relay_io_handle.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index 6cd8770..78a1693 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -805,7 +805,12 @@ HDF5Handle::list_child_names(const std::string &path,
 {
     // note: wrong mode errors are handled before dispatch to interface
 
-    hdf5_group_list_child_names(m_h5_id, path, res);
+    res.clear();
+    // a missing path has no children
+    if(path == "/" || hdf5_has_path(m_h5_id, path))
+    {
+        hdf5_group_list_child_names(m_h5_id, path, res);
+    }
 }
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From 059699fc88b3b6ffefe1cfa74f6cae06efd7c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:43 +0000
Subject: [PATCH 057/100] fix: a handle that fails to open is closed, not half
 open

---
 src/libs/relay/conduit_relay_io_handle.cpp    | 40 +++++++++++--------
 .../relay/conduit_relay_io_handle_api.hpp     |  3 ++
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index 78a1693..b454e7d 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -869,16 +869,33 @@ IOHandle::~IOHandle()
 
 //-----------------------------------------------------------------------------
 void
-IOHandle::open(const std::string &path)
+IOHandle::open_handle()
 {
-    close();
-    m_handle = HandleInterface::create(path);
     if(m_handle != NULL)
     {
-        m_handle->open();
+        try
+        {
+            m_handle->open();
+        }
+        catch(...)
+        {
+            // we aren't open, so we can't keep the handle
+            delete m_handle;
+            m_handle = NULL;
+            throw;
+        }
     }
 }
 
+//-----------------------------------------------------------------------------
+void
+IOHandle::open(const std::string &path)
+{
+    close();
+    m_handle = HandleInterface::create(path);
+    open_handle();
+}
+
 //-----------------------------------------------------------------------------
 void
 IOHandle::open(const std::string &path,
@@ -886,10 +903,7 @@ IOHandle::open(const std::string &path,
 {
     close();
     m_handle = HandleInterface::create(path, protocol);
-    if(m_handle != NULL)
-    {
-        m_handle->open();
-    }
+    open_handle();
 }
 
 //-----------------------------------------------------------------------------
@@ -899,10 +913,7 @@ IOHandle::open(const std::string &path,
 {
     close();
     m_handle = HandleInterface::create(path, options);
-    if(m_handle != NULL)
-    {
-        m_handle->open();
-    }
+    open_handle();
 }
 
 //-----------------------------------------------------------------------------
@@ -913,10 +924,7 @@ IOHandle::open(const std::string &path,
 {
     close();
     m_handle = HandleInterface::create(path, protocol, options);
-    if(m_handle != NULL)
-    {
-        m_handle->open();
-    }
+    open_handle();
 }
 
 //-----------------------------------------------------------------------------
diff --git a/src/libs/relay/conduit_relay_io_handle_api.hpp b/src/libs/relay/conduit_relay_io_handle_api.hpp
index 24e93b4..160bb0a 100644
--- a/src/libs/relay/conduit_relay_io_handle_api.hpp
+++ b/src/libs/relay/conduit_relay_io_handle_api.hpp
@@ -173,6 +173,9 @@ public:
     };
 
 private:
+    // opens m_handle, releases it if this fails
+    void             open_handle();
+
     HandleInterface *m_handle;
 
 };
-- 
2.43.0


From d43bb7fd93d6d353c6da4f1fa346949573d95919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:53 +0000
Subject: [PATCH 058/100] fix: reading an HDF5 file by id keeps the order of
 the children of its root

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index a7c300c..c6b4770 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -2794,7 +2794,23 @@ read_hdf5_group_into_conduit_node(hid_t hdf5_group_id,
 
     // check for creation order index using propertylist
 
-    hid_t h5_gc_plist = H5Gget_create_plist(hdf5_group_id);
+    // we may have the id of a file, open its root group in this case
+    hid_t h5_gc_group_id = H5Gopen(hdf5_group_id,
+                                   ".",
+                                   H5P_DEFAULT);
+    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_gc_group_id,
+                                                    hdf5_group_id,
+                                                    ref_path,
+                                           "Error opening HDF5 Group: "
+                                           << hdf5_group_id);
+
+    hid_t h5_gc_plist = H5Gget_create_plist(h5_gc_group_id);
+
+    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Gclose(h5_gc_group_id),
+                                                    hdf5_group_id,
+                                                    ref_path,
+                                           "Error closing HDF5 Group: "
+                                           << h5_gc_group_id);
 
     if( CONDUIT_HDF5_VALID_ID(h5_gc_plist) )
     {
-- 
2.43.0


From 1f2f82456f274cba9ac43e64390ada0b36e968dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:06 +0000
Subject: [PATCH 059/100] fix: HDF5 read options that do not fit the dataset
 are reported

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 35 ++++++++++++++++++++----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index c6b4770..50c92dc 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -2934,10 +2934,6 @@ fill_dataset_opts(const std::string & ref_path, const Node & inopts,
     index_t rank       = H5Sget_simple_extent_ndims(dataspace_id);
     filled_opts["slabparams/rank"] = rank;
 
-    // Here we should do some error checking.  At least:
-    // - Each element of stride >= 1
-    // - Each element of offset >= 0
-
     // If dataspace_id is a scalar, then H5Sget_simple_extent_ndims will
     // return zero.  Setting rank to 0 makes the following code create 
     // zero-length arrays for offset, stride, and size, which is unhealthy.
@@ -2962,15 +2958,44 @@ fill_dataset_opts(const std::string & ref_path, const Node & inopts,
     index_t_array stride = conduit_node_to_argarray(filled_opts, "strides", "stride", rank, 1);
     index_t_array readsz = conduit_node_to_argarray(filled_opts, "sizes", "size", rank, (int)is_scalar);
 
+    if (offset.number_of_elements() < rank ||
+        stride.number_of_elements() < rank ||
+        readsz.number_of_elements() < rank)
+    {
+        CONDUIT_HDF5_ERROR(ref_path,
+            "Error reading HDF5 Dataset with options:"
+            << inopts.to_yaml() <<
+            "`size`, `offset` and `stride` must have an entry for each"
+            " of the " << rank << " dimensions of the HDF5 dataset.");
+    }
+
     for (int d = 0; d < rank; ++d)
     {
-        if (stride[d] == 0)
+        if (stride[d] <= 0)
         {
             CONDUIT_HDF5_ERROR(ref_path,
                 "Error reading HDF5 Dataset with options:"
                 << inopts.to_yaml() <<
                 "`stride` must be greater than zero.");
         }
+
+        if (offset[d] < 0 || readsz[d] < 0)
+        {
+            CONDUIT_HDF5_ERROR(ref_path,
+                "Error reading HDF5 Dataset with options:"
+                << inopts.to_yaml() <<
+                "`offset` and `size` can't be negative.");
+        }
+
+        if (!is_scalar && offset[d] > nsizes_array[d])
+        {
+            CONDUIT_HDF5_ERROR(ref_path,
+                "Error reading HDF5 Dataset with options:"
+                << inopts.to_yaml() <<
+                "Cannot read using offset (" << offset[d] << ")"
+                << " greater than the number of entries in"
+                << " the HDF5 dataset (" << nsizes_array[d] << ")");
+        }
     }
 
     index_t readcount = calculate_readsize(readsz, rank, nsizes_array, offset, stride);
-- 
2.43.0


From 4d5a6e19fc2127fbb5cfff397fcf987fd64f2c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:58 +0000
Subject: [PATCH 060/100] fix: HDF5 writes to datasets with several dimensions
 don't read or write beyond their extents

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 50c92dc..0f82178 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1058,6 +1058,17 @@ hdf5_ref_path_with_filename(hid_t hdf5_id,
 // Write Helpers
 //---------------------------------------------------------------------------//
 
+//---------------------------------------------------------------------------//
+// we only extend 1D datasets
+bool
+check_if_hdf5_dataspace_is_extendible(hid_t hdf5_dspace_id)
+{
+    hsize_t max_dims[1] = {0};
+    return H5Sget_simple_extent_ndims(hdf5_dspace_id) == 1 &&
+           H5Sget_simple_extent_dims(hdf5_dspace_id, NULL, max_dims) == 1 &&
+           max_dims[0] == H5S_UNLIMITED;
+}
+
 //---------------------------------------------------------------------------//
 bool
 check_if_conduit_leaf_is_compatible_with_hdf5_obj(const DataType &dtype,
@@ -1112,8 +1123,7 @@ check_if_conduit_leaf_is_compatible_with_hdf5_obj(const DataType &dtype,
             // we will check the 1d-properties of the hdf5 dataspace
             hssize_t h5_test_num_ele = H5Sget_simple_extent_npoints(h5_test_dspace);
 
-            hsize_t dataset_max_dims[1];
-            H5Sget_simple_extent_dims(h5_test_dspace, NULL, dataset_max_dims);
+            bool extendible = check_if_hdf5_dataspace_is_extendible(h5_test_dspace);
 
             // string case is special, check it first
 
@@ -1151,7 +1161,7 @@ check_if_conduit_leaf_is_compatible_with_hdf5_obj(const DataType &dtype,
 
                 res = false;
             }
-            else if( dataset_max_dims[0] != H5S_UNLIMITED && !opts.has_child("offset")
+            else if( !extendible && !opts.has_child("offset")
                 && !opts.has_child("stride") && dtype.number_of_elements()
                 !=  h5_test_num_ele )
             {
@@ -1784,12 +1794,11 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
     // get dimensions of dset
     hid_t dataspace = H5Dget_space(hdf5_dset_id);
     hsize_t dataset_dim = H5Sget_simple_extent_npoints(dataspace);
-    hsize_t dataset_max_dims[1];
-    H5Sget_simple_extent_dims(dataspace, NULL, dataset_max_dims);
+    bool extendible = check_if_hdf5_dataspace_is_extendible(dataspace);
 
     // if the layout is fixed and no offset/stride is supplied,
     // the entire array is overwriten
-    if (dataset_max_dims[0] != H5S_UNLIMITED && offset == 0 && stride == 1)
+    if (!extendible && offset == 0 && stride == 1)
     {
 
         // if the node is compact, we can write directly from its data ptr
@@ -1830,7 +1839,7 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
         hsize_t strides[1] = {stride};
 
         // convert the fixed dataset to an extendible dataset if necessary
-        if (dataset_max_dims[0] != H5S_UNLIMITED)
+        if (!extendible)
         {
 
             if (!HDF5Options::chunking_enabled)
-- 
2.43.0


From d30d465a034428eca9e8ebf25f8222abddce18d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:58 +0000
Subject: [PATCH 061/100] fix: converting an HDF5 dataset to an extendible one
 closes its group

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 0f82178..d0e5121 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1898,7 +1898,7 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
             // close the old dataset to prevent the old identifier from
             // interfering
             H5Oclose(hdf5_dset_id);
-            H5Dclose(hdf5_dset_parent_id);
+            H5Oclose(hdf5_dset_parent_id);
 
             hdf5_dset_id = H5Oopen(hdf5_id,
                 hdf5_dset_path.c_str(), H5P_DEFAULT);
-- 
2.43.0


From 1d3013a05c4e7934e1255b60f1b6059c83a910d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:31 +0000
Subject: [PATCH 062/100] fix: HDF5 write options are checked, writing no
 elements doesn't extend a dataset

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 31 +++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index d0e5121..7ece23d 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1786,10 +1786,6 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
     {
         stride = opts["stride"].to_value();
     }
-    if (stride == 0)
-    {
-        CONDUIT_ERROR("Stride must be greater than zero.");
-    }
 
     // get dimensions of dset
     hid_t dataspace = H5Dget_space(hdf5_dset_id);
@@ -1910,8 +1906,12 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
         }
 
         // get the dimensions required to fit the node in the dset
-        hsize_t required_dim[1] = {(hsize_t) (offset +
-            dt.number_of_elements() + (dt.number_of_elements() - 1) * (stride - 1))};
+        hsize_t required_dim[1] = {0};
+        if (dt.number_of_elements() > 0)
+        {
+            required_dim[0] = (hsize_t) (offset +
+                dt.number_of_elements() + (dt.number_of_elements() - 1) * (stride - 1));
+        }
 
         // extend the dataset if necessary
         if (dataset_dim < required_dim[0])
@@ -3506,6 +3506,21 @@ hdf5_close_file(hid_t hdf5_id)
 
 
 
+//---------------------------------------------------------------------------//
+void
+check_hdf5_write_options(const Node &opts)
+{
+    if(opts.has_child("offset") && opts["offset"].to_int64() < 0)
+    {
+        CONDUIT_ERROR("Offset can't be negative.");
+    }
+
+    if(opts.has_child("stride") && opts["stride"].to_int64() <= 0)
+    {
+        CONDUIT_ERROR("Stride must be greater than zero.");
+    }
+}
+
 //---------------------------------------------------------------------------//
 void
 hdf5_write(const Node &node,
@@ -3578,6 +3593,8 @@ hdf5_write(const Node &node,
         n.set_external(const_cast<Node&>(node));
     }
 
+    check_hdf5_write_options(opts);
+
     // close what we open, if we fail
     HDF5ErrorCleanup cleanup(hdf5_id);
 
@@ -3635,6 +3652,8 @@ hdf5_write(const Node &node,
     // of check_if_conduit_node_is_compatible_with_hdf5_tree
     HDF5ErrorStackSupressor supress_hdf5_errors;
 
+    check_hdf5_write_options(opts);
+
     // close what we open, if we fail
     HDF5ErrorCleanup cleanup(hdf5_id);
 
-- 
2.43.0


From 5a26e51c4436c4219f9af6ca016cc816250637e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:31 +0000
Subject: [PATCH 063/100] fix: writing at the start of a fixed HDF5 dataset of
 another length doesn't read beyond the node

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 7ece23d..8531f16 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1794,7 +1794,8 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
 
     // if the layout is fixed and no offset/stride is supplied,
     // the entire array is overwriten
-    if (!extendible && offset == 0 && stride == 1)
+    if (!extendible && offset == 0 && stride == 1 &&
+        (hsize_t) dt.number_of_elements() == dataset_dim)
     {
 
         // if the node is compact, we can write directly from its data ptr
-- 
2.43.0


From 20e9cd4a3706dcce0f3de441d300b97c1e7e8d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:15 +0000
Subject: [PATCH 064/100] fix: O2MIterator looks up each item's own entry in
 indices

sizes and offsets refer to entries in indices, so item j of a group is
indices[offset + j], as O2MIndex has it, not indices[offset] + j.
---
 .../conduit_blueprint_o2mrelation_iterator.cpp       | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
index 3e9cc9f..89c7842 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
@@ -426,13 +426,15 @@ O2MIterator::index(index_t one_index, index_t many_index, IndexType itype) const
             offset = m_offsets_node->as_index_t_accessor()[one_index];
         }
 
-        index = offset;
-        if(m_indices_node)
+        // sizes and offsets refer to entries in indices
+        if(m_indices_node && many_index > 0)
         {
-            index = m_indices_node->as_index_t_accessor()[offset];
+            index = m_indices_node->as_index_t_accessor()[offset + many_index - 1];
+        }
+        else
+        {
+            index = offset + (many_index - 1);
         }
-
-        index += (many_index - 1);
     }
     else if(itype == ONE)
     {
-- 
2.43.0


From efae87f2e0a259c71e0e4d28a9337f0f51dee600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:15 +0000
Subject: [PATCH 065/100] fix: O2MIterator skips groups without items when
 iterating over data

---
 ...conduit_blueprint_o2mrelation_iterator.cpp | 43 ++++++++++++++++---
 ...conduit_blueprint_o2mrelation_iterator.hpp |  3 ++
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
index 89c7842..1ca0d7a 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
@@ -152,7 +152,8 @@ O2MIterator::has_next(IndexType itype) const
 
     if(itype == DATA)
     {
-        is_next = has_next(ONE) || has_next(MANY);
+        is_next = has_next(MANY) ||
+                  next_filled(m_one_index) < elements(0, ONE);
     }
     else if(itype == ONE)
     {
@@ -182,7 +183,7 @@ O2MIterator::next(IndexType itype)
         else
         {
             m_many_index = 1;
-            m_one_index++;
+            m_one_index = next_filled(m_one_index);
         }
 
         nindex = index(m_one_index, m_many_index, DATA);
@@ -222,7 +223,7 @@ O2MIterator::peek_next(IndexType itype) const
         }
         else
         {
-            nindex = index(m_one_index + 1, 1, DATA);
+            nindex = index(next_filled(m_one_index), 1, DATA);
         }
     }
     else if(itype == ONE)
@@ -269,7 +270,7 @@ O2MIterator::has_previous(IndexType itype) const
 
     if(itype == DATA)
     {
-        is_prev = has_previous(ONE) || has_previous(MANY);
+        is_prev = has_previous(MANY) || previous_filled(m_one_index) >= 0;
     }
     else if(itype == ONE)
     {
@@ -298,8 +299,8 @@ O2MIterator::previous(IndexType itype)
         }
         else
         {
-            m_many_index = elements(m_one_index - 1, MANY);
-            m_one_index--;
+            m_one_index = previous_filled(m_one_index);
+            m_many_index = elements(m_one_index, MANY);
         }
 
         pindex = index(m_one_index, m_many_index, DATA);
@@ -330,7 +331,8 @@ O2MIterator::peek_previous(IndexType itype) const
         }
         else
         {
-            pindex = index(m_one_index - 1, elements(m_one_index - 1, MANY), DATA);
+            const index_t one_index = previous_filled(m_one_index);
+            pindex = index(one_index, elements(one_index, MANY), DATA);
         }
     }
     else if(itype == ONE)
@@ -449,6 +451,33 @@ O2MIterator::index(index_t one_index, index_t many_index, IndexType itype) const
 }
 
 
+//---------------------------------------------------------------------------//
+index_t
+O2MIterator::next_filled(index_t one_index) const
+{
+    const index_t nones = elements(0, ONE);
+    do
+    {
+        one_index++;
+    }
+    while(one_index < nones && elements(one_index, MANY) < 1);
+    return one_index;
+}
+
+
+//---------------------------------------------------------------------------//
+index_t
+O2MIterator::previous_filled(index_t one_index) const
+{
+    do
+    {
+        one_index--;
+    }
+    while(one_index >= 0 && elements(one_index, MANY) < 1);
+    return one_index;
+}
+
+
 //---------------------------------------------------------------------------//
 index_t
 O2MIterator::elements(index_t one_index, IndexType itype) const
diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.hpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.hpp
index 8f7517e..513bad9 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.hpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.hpp
@@ -128,6 +128,9 @@ private:
 //-----------------------------------------------------------------------------
     index_t index(index_t one_index, index_t many_index, IndexType itype) const;
     index_t elements(index_t one_index, IndexType itype) const;
+    /// index of the closest 'one' after (before) the given one with any items
+    index_t next_filled(index_t one_index) const;
+    index_t previous_filled(index_t one_index) const;
 
 //-----------------------------------------------------------------------------
 /// Iterator state/fields.
-- 
2.43.0


From 95a58a8181bf4a00920e0832807283d3bd527ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:15 +0000
Subject: [PATCH 066/100] fix: O2MIterator visits every 'one', also a single
 one and ones without items

---
 ...conduit_blueprint_o2mrelation_iterator.cpp | 26 +++++++++++++------
 ...conduit_blueprint_o2mrelation_iterator.hpp |  2 ++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
index 1ca0d7a..98e3216 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
@@ -52,7 +52,8 @@ O2MIterator::O2MIterator()
   m_indices_node(NULL),
   m_offsets_node(NULL),
   m_one_index(0),
-  m_many_index(0)
+  m_many_index(0),
+  m_one_visited(false)
 {
     
 }
@@ -64,7 +65,8 @@ O2MIterator::O2MIterator(const Node *node)
   m_indices_node(NULL),
   m_offsets_node(NULL),
   m_one_index(0),
-  m_many_index(0)
+  m_many_index(0),
+  m_one_visited(false)
 {
     std::vector<std::string> paths = conduit::blueprint::o2mrelation::data_paths(*node);
     m_data_node = &node->fetch_existing(paths.front());
@@ -93,7 +95,8 @@ O2MIterator::O2MIterator(const O2MIterator &itr)
   m_indices_node(itr.m_indices_node),
   m_offsets_node(itr.m_offsets_node),
   m_one_index(itr.m_one_index),
-  m_many_index(itr.m_many_index)
+  m_many_index(itr.m_many_index),
+  m_one_visited(itr.m_one_visited)
 {
     
 }
@@ -114,6 +117,7 @@ O2MIterator::operator=(const O2MIterator &itr)
         m_data_node = itr.m_data_node;
         m_one_index = itr.m_one_index;
         m_many_index = itr.m_many_index;
+        m_one_visited = itr.m_one_visited;
         m_sizes_node = itr.m_sizes_node;
         m_indices_node = itr.m_indices_node;
         m_offsets_node = itr.m_offsets_node;
@@ -157,7 +161,7 @@ O2MIterator::has_next(IndexType itype) const
     }
     else if(itype == ONE)
     {
-        is_next = m_one_index < elements(0, ONE) - 1;
+        is_next = m_one_index < elements(0, ONE) - (m_one_visited ? 1 : 0);
     }
     else // if(itype == MANY)
     {
@@ -193,17 +197,18 @@ O2MIterator::next(IndexType itype)
         if(m_many_index < 1)
         {
             m_many_index++;
-            nindex = m_one_index;
         }
-        else
+        if(m_one_visited)
         {
-            nindex = ++m_one_index;
+            m_one_index++;
         }
+        nindex = m_one_index;
     }
     else // if(itype == MANY)
     {
         nindex = m_many_index++;
     }
+    m_one_visited = true;
 
     return nindex;
 }
@@ -228,7 +233,7 @@ O2MIterator::peek_next(IndexType itype) const
     }
     else if(itype == ONE)
     {
-        nindex = m_one_index + ((m_many_index < 1) ? 0 : 1);
+        nindex = m_one_index + (m_one_visited ? 1 : 0);
     }
     else // if(itype == MANY)
     {
@@ -247,10 +252,12 @@ O2MIterator::to_front(IndexType itype)
     {
         m_one_index = 0;
         m_many_index = 0;
+        m_one_visited = false;
     }
     else if(itype == ONE)
     {
         m_one_index = 0;
+        m_one_visited = false;
     }
     else // if(itype == MANY)
     {
@@ -356,10 +363,12 @@ O2MIterator::to_back(IndexType itype)
     {
         m_one_index = elements(0, ONE);
         m_many_index = 1;
+        m_one_visited = true;
     }
     else if(itype == ONE)
     {
         m_one_index = elements(0, ONE);
+        m_one_visited = true;
     }
     else // if(itype == MANY)
     {
@@ -388,6 +397,7 @@ O2MIterator::to(const index_t i, IndexType itype)
     else if(itype == ONE)
     {
         m_one_index = i;
+        m_one_visited = true;
     }
     else // if(itype == MANY)
     {
diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.hpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.hpp
index 513bad9..95e36f3 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.hpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.hpp
@@ -155,6 +155,8 @@ private:
     index_t  m_one_index;
     /// current 'many' index in 'one' space
     index_t  m_many_index;
+    /// true if the current 'one' was visited, false at the front
+    bool     m_one_visited;
 
     // /// current 'one' count for 'o2mrelation' (constant)
     // index_t m_num_ones;
-- 
2.43.0


From 176b5932e0100453239fc7bb192c2f9b12cc4dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:15 +0000
Subject: [PATCH 067/100] fix: o2mrelation::compact_to packs every data array
 when there are several

---
 src/libs/blueprint/conduit_blueprint_o2mrelation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
index 6a3bfb6..018f724 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
@@ -225,7 +225,7 @@ void compact_to(const conduit::Node &o2mrelation,
                 o2miter.next(conduit::blueprint::o2mrelation::MANY);
                 const index_t data_index = o2miter.index(conduit::blueprint::o2mrelation::DATA);
 
-                for(index_t pi = 0; pi < (index_t)o2m_paths_curr.size(); pi++, curr_index++)
+                for(index_t pi = 0; pi < (index_t)o2m_paths_curr.size(); pi++)
                 {
                     const conduit::Node &o2m_data = o2mrelation[o2m_paths_curr[pi]];
                     conduit::Node &res_data = res[o2m_paths_curr[pi]];
@@ -235,6 +235,7 @@ void compact_to(const conduit::Node &o2mrelation,
                     res_temp.set_external(data_dtype, (void*)res_data.element_ptr(curr_index));
                     o2m_temp.to_data_type(data_dtype.id(), res_temp);
                 }
+                curr_index++;
             }
 
             curr_offset += o2miter.elements(conduit::blueprint::o2mrelation::MANY);
-- 
2.43.0


From 8283aee4376af1f09e7812cb80f4875ac72df4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:39 +0000
Subject: [PATCH 068/100] fix: O2MIndex::size() counts the ones of relations
 without sizes, offsets and indices

---
 .../conduit_blueprint_o2mrelation_index.cpp   | 28 +++++++++++++------
 .../conduit_blueprint_o2mrelation_index.hpp   |  3 ++
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_index.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_index.cpp
index 7ae519d..8495c79 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_index.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_index.cpp
@@ -45,12 +45,14 @@ namespace o2mrelation
 
 //---------------------------------------------------------------------------//
 O2MIndex::O2MIndex()
+: m_num_ones(0)
 {
 // empty //
 }
 
 //---------------------------------------------------------------------------//
 O2MIndex::O2MIndex(const Node *node)
+: m_num_ones(0)
 {
     if (node->has_child("sizes"))
     {
@@ -63,6 +65,19 @@ O2MIndex::O2MIndex(const Node *node)
     if(node->has_child("offsets"))
     {
         m_offsets_acc = (*node)["offsets"].as_index_t_accessor();
+        m_num_ones = m_offsets_acc.number_of_elements();
+    }
+    else if(node->has_child("indices"))
+    {
+        m_num_ones = m_indices_acc.number_of_elements();
+    }
+    else
+    {
+        const std::vector<std::string> paths = data_paths(*node);
+        if(!paths.empty())
+        {
+            m_num_ones = (*node)[paths.front()].dtype().number_of_elements();
+        }
     }
 }
 
@@ -75,7 +90,8 @@ O2MIndex::O2MIndex(const Node &node)
 O2MIndex::O2MIndex(const O2MIndex &itr)
 : m_sizes_acc(itr.m_sizes_acc),
   m_indices_acc(itr.m_indices_acc),
-  m_offsets_acc(itr.m_offsets_acc)
+  m_offsets_acc(itr.m_offsets_acc),
+  m_num_ones(itr.m_num_ones)
 { }
 
 //---------------------------------------------------------------------------//
@@ -87,6 +103,7 @@ O2MIndex::operator=(const O2MIndex &itr)
         m_sizes_acc = itr.m_sizes_acc;
         m_indices_acc = itr.m_indices_acc;
         m_offsets_acc = itr.m_offsets_acc;
+        m_num_ones = itr.m_num_ones;
     }
     return *this;
 }
@@ -158,14 +175,7 @@ O2MIndex::size(index_t one_index) const
 
     if(one_index == -1)
     {
-        if(m_offsets_acc.number_of_elements() > 0)
-        {
-            nelements = m_offsets_acc.number_of_elements();
-        }
-        else if (m_indices_acc.number_of_elements() > 0)
-        {
-            nelements = m_indices_acc.number_of_elements();
-        }
+        nelements = m_num_ones;
     }
     else
     {
diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_index.hpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_index.hpp
index 8daf7e8..30c17e7 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_index.hpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_index.hpp
@@ -113,6 +113,9 @@ private:
     index_t_accessor m_sizes_acc;
     index_t_accessor m_indices_acc;
     index_t_accessor m_offsets_acc;
+
+    /// Number of "ones"
+    index_t m_num_ones;
 };
 //-----------------------------------------------------------------------------
 // -- end conduit::blueprint::o2mrelation::O2MIndex --
-- 
2.43.0


From 280868fc1994f635560b331322586d9ffca5f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:39 +0000
Subject: [PATCH 069/100] fix: mcarray::verify rejects childless nodes and a
 zero length first component among longer ones

---
 src/libs/blueprint/conduit_blueprint_mcarray.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mcarray.cpp b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
index 3f31c7d..eca68b9 100644
--- a/src/libs/blueprint/conduit_blueprint_mcarray.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
@@ -75,8 +75,14 @@ bool verify(const conduit::Node &n,
         res = false;
     }
 
+    else if(n.number_of_children() == 0)
+    {
+        log::error(info,proto_name,"Node has no children");
+        res = false;
+    }
+
     NodeConstIterator itr = n.children();
-    index_t num_elems = 0;
+    index_t num_elems = -1;
 
     while(itr.has_next())
     {
@@ -86,7 +92,7 @@ bool verify(const conduit::Node &n,
         // make sure we have a number
         if(chld.dtype().is_number())
         {
-            if(num_elems == 0)
+            if(num_elems < 0)
             {
                 num_elems = chld.dtype().number_of_elements();
             }
-- 
2.43.0


From a286e942bb90cc1c49295e1b2d17322bfe8eed67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:39 +0000
Subject: [PATCH 070/100] fix: mcarray to_contiguous and to_interleaved handle
 lists and names with slashes

---
 src/libs/blueprint/conduit_blueprint_mcarray.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mcarray.cpp b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
index eca68b9..b60d9aa 100644
--- a/src/libs/blueprint/conduit_blueprint_mcarray.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
@@ -179,7 +179,10 @@ to_contiguous(const conduit::Node &src,
         curr_dt.set_offset(curr_offset);
         
         // put the dtype into our schema with the correct name
-        s_dest[name] = curr_dt;
+        // (the components of a list have no names)
+        Schema &s_comp = src.dtype().is_list() ? s_dest.append()
+                                               : s_dest.add_child(name);
+        s_comp.set(curr_dt);
         
         // update the offset for the next component
         curr_offset += elem_bytes * curr_dt.number_of_elements();
@@ -238,7 +241,10 @@ to_interleaved(const conduit::Node &src,
         curr_dt.set_offset(curr_offset);
         
         // put the dtype into our schema with the correct name
-        s_dest[name] = curr_dt;
+        // (the components of a list have no names)
+        Schema &s_comp = src.dtype().is_list() ? s_dest.append()
+                                               : s_dest.add_child(name);
+        s_comp.set(curr_dt);
         
         // update the offset for the next component
         curr_offset += elem_bytes;
-- 
2.43.0


From d4e2105763208829d42829dd6124d8f54cbe72e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:32 +0000
Subject: [PATCH 071/100] fix: uni-buffer material-dominant matsets and their
 fields convert to the other forms

They were taken for multi-buffer ones, which gave material sets without
any materials.
---
 .../conduit_blueprint_mesh_matset_xforms.cpp  | 133 ++++++++++++++++++
 1 file changed, 133 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
index b01006a..a347f02 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
@@ -665,6 +665,83 @@ sbm_rep_to_full(const std::map<std::string, std::pair<int64_accessor, float64_ac
     }
 }
 
+//-----------------------------------------------------------------------------
+// uni buffer by material -> multi buffer by material
+// values can be either vol fracs or matset vals
+void
+uni_buffer_by_material_to_multi_buffer_by_material(const conduit::Node &src_matset,
+                                                   const conduit::Node &src_values,
+                                                   conduit::Node &dest_values,
+                                                   conduit::Node &dest_elem_ids)
+{
+    std::map<int, std::string> reverse_matmap;
+    create_reverse_matmap(src_matset, reverse_matmap);
+
+    float64_accessor values = src_values.value();
+    int64_accessor material_ids = src_matset["material_ids"].value();
+    int64_accessor element_ids = src_matset["element_ids"].value();
+
+    std::map<std::string, std::vector<float64>> new_values;
+    std::map<std::string, std::vector<int64>> new_elem_ids;
+    for (auto & mapitem : reverse_matmap)
+    {
+        new_values[mapitem.second];
+        new_elem_ids[mapitem.second];
+    }
+
+    o2mrelation::O2MIterator itr(src_matset);
+    while (itr.has_next(o2mrelation::DATA))
+    {
+        const index_t data_index = itr.next(o2mrelation::DATA);
+        const std::string &matname = reverse_matmap[material_ids[data_index]];
+        new_values[matname].push_back(values[data_index]);
+        new_elem_ids[matname].push_back(element_ids[itr.index(o2mrelation::ONE)]);
+    }
+
+    read_from_map_write_out(new_values, dest_values);
+    read_from_map_write_out(new_elem_ids, dest_elem_ids);
+}
+
+//-----------------------------------------------------------------------------
+void
+uni_buffer_by_material_to_multi_buffer_by_material_matset(const conduit::Node &src_matset,
+                                                          conduit::Node &dest_matset)
+{
+    dest_matset.reset();
+    dest_matset["topology"].set(src_matset["topology"]);
+    uni_buffer_by_material_to_multi_buffer_by_material(src_matset,
+                                                       src_matset["volume_fractions"],
+                                                       dest_matset["volume_fractions"],
+                                                       dest_matset["element_ids"]);
+}
+
+//-----------------------------------------------------------------------------
+void
+uni_buffer_by_material_to_multi_buffer_by_material_field(const conduit::Node &src_matset,
+                                                         const conduit::Node &src_field,
+                                                         const std::string &dest_matset_name,
+                                                         conduit::Node &dest_field)
+{
+    dest_field.reset();
+
+    // if this field is material dependent
+    if (src_field.has_child("matset_values"))
+    {
+        Node elem_ids;
+        copy_matset_independent_parts_of_field(src_field,
+                                               dest_matset_name,
+                                               dest_field);
+        uni_buffer_by_material_to_multi_buffer_by_material(src_matset,
+                                                           src_field["matset_values"],
+                                                           dest_field["matset_values"],
+                                                           elem_ids);
+    }
+    else
+    {
+        dest_field.set(src_field);
+    }
+}
+
 //-----------------------------------------------------------------------------
 // venn full -> sparse by element
 void
@@ -1328,6 +1405,15 @@ to_multi_buffer_full(const conduit::Node &src_matset,
         detail::uni_buffer_by_element_to_multi_buffer_by_element_matset(src_matset, 
                                                                         dest_matset);
     }
+    // uni buffer by material
+    else if (is_material_dominant(src_matset) &&
+             is_uni_buffer(src_matset))
+    {
+        Node by_material;
+        detail::uni_buffer_by_material_to_multi_buffer_by_material_matset(src_matset,
+                                                                          by_material);
+        to_multi_buffer_full(by_material, dest_matset);
+    }
     // sparse_by_material
     else if (is_material_dominant(src_matset))
     {
@@ -1366,6 +1452,15 @@ to_sparse_by_element(const conduit::Node &src_matset,
         // nothing to do
         dest_matset.set(src_matset);
     }
+    // uni buffer by material
+    else if (is_material_dominant(src_matset) &&
+             is_uni_buffer(src_matset))
+    {
+        Node by_material;
+        detail::uni_buffer_by_material_to_multi_buffer_by_material_matset(src_matset,
+                                                                          by_material);
+        to_sparse_by_element(by_material, dest_matset, epsilon);
+    }
     // sparse_by_material
     else if (is_material_dominant(src_matset))
     {
@@ -1404,6 +1499,13 @@ to_multi_buffer_by_material(const conduit::Node &src_matset,
         detail::uni_buffer_by_element_to_multi_buffer_by_material_matset(src_matset,
                                                                          dest_matset);
     }
+    // uni buffer by material
+    else if (is_material_dominant(src_matset) &&
+             is_uni_buffer(src_matset))
+    {
+        detail::uni_buffer_by_material_to_multi_buffer_by_material_matset(src_matset,
+                                                                          dest_matset);
+    }
     // sparse_by_material
     else if (is_material_dominant(src_matset))
     {
@@ -1765,6 +1867,18 @@ to_multi_buffer_full(const conduit::Node &src_matset,
         conduit::blueprint::mesh::matset::detail::uni_buffer_by_element_to_multi_buffer_by_element_field(
             src_matset, src_field, dest_matset_name, dest_field);
     }
+    // uni buffer by material
+    else if (conduit::blueprint::mesh::matset::is_material_dominant(src_matset) &&
+             conduit::blueprint::mesh::matset::is_uni_buffer(src_matset))
+    {
+        Node by_material;
+        conduit::blueprint::mesh::matset::detail::uni_buffer_by_material_to_multi_buffer_by_material_matset(src_matset,
+                                                                          by_material);
+        Node by_material_field;
+        conduit::blueprint::mesh::matset::detail::uni_buffer_by_material_to_multi_buffer_by_material_field(
+            src_matset, src_field, dest_matset_name, by_material_field);
+        to_multi_buffer_full(by_material, by_material_field, dest_matset_name, dest_field);
+    }
     // sparse_by_material
     else if (conduit::blueprint::mesh::matset::is_material_dominant(src_matset))
     {
@@ -1813,6 +1927,18 @@ to_sparse_by_element(const conduit::Node &src_matset,
         dest_field["matset"].reset();
         dest_field["matset"] = dest_matset_name;
     }
+    // uni buffer by material
+    else if (conduit::blueprint::mesh::matset::is_material_dominant(src_matset) &&
+             conduit::blueprint::mesh::matset::is_uni_buffer(src_matset))
+    {
+        Node by_material;
+        conduit::blueprint::mesh::matset::detail::uni_buffer_by_material_to_multi_buffer_by_material_matset(src_matset,
+                                                                          by_material);
+        Node by_material_field;
+        conduit::blueprint::mesh::matset::detail::uni_buffer_by_material_to_multi_buffer_by_material_field(
+            src_matset, src_field, dest_matset_name, by_material_field);
+        to_sparse_by_element(by_material, by_material_field, dest_matset_name, dest_field, epsilon);
+    }
     // sparse_by_material
     else if (conduit::blueprint::mesh::matset::is_material_dominant(src_matset))
     {
@@ -1859,6 +1985,13 @@ to_multi_buffer_by_material(const conduit::Node &src_matset,
         conduit::blueprint::mesh::matset::detail::uni_buffer_by_element_to_multi_buffer_by_material_field(
             src_matset, src_field, dest_matset_name, dest_field);
     }
+    // uni buffer by material
+    else if (conduit::blueprint::mesh::matset::is_material_dominant(src_matset) &&
+             conduit::blueprint::mesh::matset::is_uni_buffer(src_matset))
+    {
+        conduit::blueprint::mesh::matset::detail::uni_buffer_by_material_to_multi_buffer_by_material_field(
+            src_matset, src_field, dest_matset_name, dest_field);
+    }
     // sparse_by_material
     else if (conduit::blueprint::mesh::matset::is_material_dominant(src_matset))
     {
-- 
2.43.0


From 7bc5cd638580649681796a15b43f93c960e09c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:22 +0000
Subject: [PATCH 072/100] fix: matset to_silo uses a signed type when the
 matset's integers are unsigned

---
 .../blueprint/conduit_blueprint_mesh_matset_xforms.cpp     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
index a347f02..72e44e0 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
@@ -81,7 +81,12 @@ to_silo(const conduit::Node &field,
         const float64 epsilon)
 {
     Node temp, data;
-    const DataType int_dtype = bputils::find_widest_dtype(matset, bputils::DEFAULT_INT_DTYPES);
+    DataType int_dtype = bputils::find_widest_dtype(matset, bputils::DEFAULT_INT_DTYPES);
+    if(int_dtype.is_unsigned_integer())
+    {
+        // mixed zones have negative entries in matlist
+        int_dtype = DataType::int64();
+    }
     const DataType float_dtype = bputils::find_widest_dtype(matset, bputils::DEFAULT_FLOAT_DTYPE);
     // if matset_values is not empty, we will
     // apply the same xform to it as we do to the volume fractions.
-- 
2.43.0


From 53026630f045875cf107921b586242412910d144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:12 +0000
Subject: [PATCH 073/100] fix: specset to_silo starts from an empty result and
 accepts any integer type in material_map

---
 src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
index 72e44e0..f4ed2b8 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
@@ -1596,10 +1596,11 @@ to_silo(const conduit::Node &specset,
         CONDUIT_ASSERT(matset_vals_itr.name() == matmap_itr.name(), 
             "blueprint::mesh::specset::to_silo materials must be in the same order "
             "between passed specset and passed matset.");
-        matmap_map[matmap_entry.as_int()] = matmap_index;
+        matmap_map[matmap_entry.to_int()] = matmap_index;
         matmap_index ++;
     }
 
+    dest.reset();
     dest["nmatspec"].set(DataType::index_t(nmat));
     index_t_array nmatspec = dest["nmatspec"].value();
     matset_vals_itr.to_front();
-- 
2.43.0


From 48892d6db0d5e60188e36b3ff386b528976440b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:19 +0000
Subject: [PATCH 074/100] fix: adjset::to_pairwise lists an entity shared via
 several groups once per neighbor

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index f801220..63cda15 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -6876,6 +6876,7 @@ mesh::adjset::to_pairwise(const Node &adjset,
     // Compile ordered lists for each neighbor containing their unique lists
     // of 'adjset' entity indices, as compiled from all groups in the source 'adjset'.
     std::map<index_t, std::vector<index_t>> pair_values_map;
+    std::map<index_t, std::set<index_t>> pair_value_sets;
     for(const std::string &group_name : adjset_group_names)
     {
         const Node &group_node = adjset["groups"][group_name];
@@ -6905,8 +6906,15 @@ mesh::adjset::to_pairwise(const Node &adjset,
         for(const index_t &neighbor_id : group_neighbors)
         {
             std::vector<index_t> &neighbor_values = pair_values_map[neighbor_id];
-            neighbor_values.insert(neighbor_values.end(),
-                group_values.begin(), group_values.end());
+            std::set<index_t> &neighbor_value_set = pair_value_sets[neighbor_id];
+            for(const index_t &value : group_values)
+            {
+                // NOTE: an entity may be shared with a neighbor via several groups
+                if(neighbor_value_set.insert(value).second)
+                {
+                    neighbor_values.push_back(value);
+                }
+            }
         }
     }
 
-- 
2.43.0


From 9ba20af401cada9b1523a7f2ba549667b2cf6c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:19 +0000
Subject: [PATCH 075/100] fix: adjset::validate does not read past the
 coordinates of 1D and 2D points

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index cec1bed..54ddad3 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -3129,8 +3129,10 @@ adjset::validate(const conduit::Node &doms,
                 ss << "Domain " << domain_id << " adjset " << adjsetName
                    << " group " << groupName
                    << ": vertex " << ptid
-                   << " (" << coord[0] << ", " << coord[1]
-                   << ", " << coord[2] << ") at index " << ptid
+                   << " (" << coord[0]
+                   << ", " << (coord.size() > 1 ? coord[1] : 0.)
+                   << ", " << (coord.size() > 2 ? coord[2] : 0.)
+                   << ") at index " << ptid
                    << " could not be located in neighbor domain "
                    << nbr << ".";
 
-- 
2.43.0


From e5fd167e88a300f1a932b661a823f32d91df8c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:01 +0000
Subject: [PATCH 076/100] fix: adjset::to_pairwise_canonical merges several
 groups with the same neighbor

---
 .../blueprint/conduit_blueprint_mesh_utils.cpp     | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 54ddad3..6b938d4 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -3258,7 +3258,19 @@ void adjset::to_pairwise_canonical(conduit::Node &doms,
             const std::string dest_key("adjsets/" + newAdjsetName);              
             const conduit::Node &src_adj = domain[src_key];
             conduit::Node &dest_adj = domain[dest_key];
-            if(conduit::blueprint::mesh::adjset::is_pairwise(src_adj))
+
+            // A pairwise adjset can be used as is (up to the group names) if
+            // it has no more than one group for each neighbor.
+            bool simple_pairwise = conduit::blueprint::mesh::adjset::is_pairwise(src_adj);
+            if(simple_pairwise)
+            {
+                std::set<index_t> neighbor_ids;
+                const conduit::Node &src_groups = src_adj["groups"];
+                for(conduit::index_t i = 0; i < src_groups.number_of_children(); i++)
+                    simple_pairwise &= neighbor_ids.insert(src_groups[i]["neighbors"].to_index_t()).second;
+            }
+
+            if(simple_pairwise)
             {
                 if(adjset::is_canonical(src_adj))
                 {
-- 
2.43.0


From dc78cc90f5b75eade90018ef4e1bb61199b158f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:01 +0000
Subject: [PATCH 077/100] fix: pointwise adjset comparison uses the domain ids
 in group names

---
 .../blueprint/conduit_blueprint_mesh_utils.cpp   | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 6b938d4..b5e71a7 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -3328,12 +3328,24 @@ foreach_adjset_mesh_pair_impl(conduit::Node &mesh, const std::string &adjsetName
     std::vector<Node *> domains = conduit::blueprint::mesh::domains(mesh);
     int maxDomains = domains.size();
 
+    // Group names contain domain ids, in ascending order.
+    std::vector<int> domain_ids;
+    for(int i = 0; i < maxDomains; i++)
+    {
+        domain_ids.push_back(domains[i]->has_path("state/domain_id") ?
+            domains[i]->fetch_existing("state/domain_id").to_int() : i);
+    }
+    std::sort(domain_ids.begin(), domain_ids.end());
+
     // Iterate over each of the possible adjset relationships. Not all of these
     // will have adjset groups.
-    for(int d0 = 0; d0 < maxDomains; d0++)
+    for(int i0 = 0; i0 < maxDomains; i0++)
     {
-        for(int d1 = d0 + 1; d1 < maxDomains; d1++)
+        for(int i1 = i0 + 1; i1 < maxDomains; i1++)
         {
+            const int d0 = domain_ids[i0];
+            const int d1 = domain_ids[i1];
+
             // make the adjset group name.
             std::stringstream ss;
             ss << conduit::blueprint::mesh::adjset::group_prefix() << "_" << d0 << "_" << d1;
-- 
2.43.0


From 195352423586248a01bdda5bd67d3a8374d6a1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:50 +0000
Subject: [PATCH 078/100] fix: adjset::verify requires the same number of
 dimensions in a window's origin, dims and ratio

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 63cda15..4c4aa0a 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -6781,10 +6781,10 @@ mesh::adjset::verify(const Node &adjset,
                         index_t window_dim = wndw["origin"].number_of_children();
                         window_res &= !wndw.has_child("dims") ||
                             verify_object_field(protocol, wndw,
-                                wndw_info, "dims", false, window_dim);
+                                wndw_info, "dims", false, false, window_dim);
                         window_res &= !wndw.has_child("ratio") ||
                             verify_object_field(protocol, wndw,
-                                wndw_info, "ratio", false, window_dim);
+                                wndw_info, "ratio", false, false, window_dim);
                     }
 
                     log::validation(wndw_info,window_res);
-- 
2.43.0


From 51e604d57d81806932d9a8254b1478652eea8b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:41 +0000
Subject: [PATCH 079/100] fix: shape information and offsets of mixed
 topologies do not read or write out of bounds

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 9 +++++++--
 src/libs/blueprint/conduit_blueprint_mesh_utils.hpp | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index b5e71a7..4478135 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -286,6 +286,11 @@ void
 ShapeCascade::init(const ShapeType &base_type)
 {
     dim = base_type.dim;
+    if(dim < 0)
+    {
+        CONDUIT_ERROR("Cannot build a shape cascade for elements of shape \""
+                      << base_type.type << "\".");
+    }
 
     dim_types[base_type.dim] = base_type;
     for(index_t di = base_type.dim - 1; di >= 0; di--)
@@ -2497,7 +2502,7 @@ topology::unstructured::generate_offsets(const Node &topo,
         off_node.set_external(offsets);
         off_node.to_data_type(int_dtype.id(), dest_ele_offsets);
     }
-    else if(!topo_shape.is_poly())
+    else if(!topo_shape.is_poly() && topo_shape.type != "mixed")
     {
         // Single element type
         const index_t num_topo_shapes =
@@ -2511,7 +2516,7 @@ topology::unstructured::generate_offsets(const Node &topo,
         }
         shape_node.to_data_type(int_dtype.id(), dest_ele_offsets);
     }
-    else if(topo_shape.type == "polygonal")
+    else if(topo_shape.type == "polygonal" || topo_shape.type == "mixed")
     {
         const Node &topo_size = topo["elements/sizes"];
         int64_accessor topo_sizes = topo_size.as_int64_accessor();
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
index df5ad0c..d4e372f 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
@@ -164,7 +164,7 @@ static const std::vector<const index_t*> TOPO_SHAPE_EMBEDDINGS = {
     &TOPO_TRI_EMBEDDING[0][0], &TOPO_QUAD_EMBEDDING[0][0],
     &TOPO_TET_EMBEDDING[0][0], &TOPO_HEX_EMBEDDING[0][0],
     &TOPO_WEDGE_EMBEDDING[0][0], &TOPO_PYRAMID_EMBEDDING[0][0],
-    nullptr, nullptr};
+    nullptr, nullptr, nullptr};
 
 //-----------------------------------------------------------------------------
 /// blueprint mesh utility structures
-- 
2.43.0


From afdfb269b2ab8078861ba8cc7b85c5531fc85346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:56 +0000
Subject: [PATCH 080/100] fix: uniform coordset origins are not truncated to
 integers in extents and combine

---
 .../blueprint/conduit_blueprint_mesh_partition.cpp |  2 +-
 .../blueprint/conduit_blueprint_mesh_utils.cpp     | 14 +++++++-------
 .../blueprint/conduit_blueprint_mesh_utils.hpp     |  2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 2ea3ddf..0e21025 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -6858,7 +6858,7 @@ private:
             for(size_t i = 0; i < worigin.size(); i++)
             {
                 const auto difference = sorigin[i] - worigin[i];
-                offsets.push_back(difference / spacing[i]);
+                offsets.push_back(static_cast<index_t>(std::llround(difference / spacing[i])));
             }
         }
         else if(mode == CombineImplicitMode::Rectilinear)
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 4478135..d66873b 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -1455,21 +1455,21 @@ coordset::extents(const Node &n)
         float64 min, max;
         if(csys_type == "uniform")
         {
-            index_t origin = 0;
+            float64 origin = 0.0;
             float64 spacing = 1.0;
             index_t dim = n["dims"][LOGICAL_AXES[i]].to_index_t();
             if(n.has_child("origin")
                 && n["origin"].has_child(csys_axes[i]))
             {
-                origin = n["origin"][csys_axes[i]].to_index_t();
+                origin = n["origin"][csys_axes[i]].to_float64();
             }
             if(n.has_child("spacing")
                 && n["spacing"].has_child("d"+csys_axes[i]))
             {
                 spacing = n["spacing"]["d" + csys_axes[i]].to_float64();
             }
-            min = (float64)origin;
-            max = (float64)origin + (spacing * ((float64)dim - 1.));
+            min = origin;
+            max = origin + (spacing * ((float64)dim - 1.));
             if(spacing < 0.)
             {
                 std::swap(min, max);
@@ -1571,12 +1571,12 @@ coordset::uniform::spacing(const Node &n)
 }
 
 //-----------------------------------------------------------------------------
-std::vector<index_t>
+std::vector<double>
 coordset::uniform::origin(const Node &n)
 {
     auto info = get_coordset_info(n);
     const auto &cset_axes = info.second;
-    std::vector<index_t> retval(cset_axes.size(), 0);
+    std::vector<double> retval(cset_axes.size(), 0);
     if(n.has_child("origin"))
     {
         const Node &n_spacing = n["origin"];
@@ -1585,7 +1585,7 @@ coordset::uniform::origin(const Node &n)
             const std::string child_name = cset_axes[i];
             if(n_spacing.has_child(child_name))
             {
-                retval[i] = n_spacing[child_name].to_index_t();
+                retval[i] = n_spacing[child_name].to_double();
             }
         }
     }
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
index d4e372f..37395e8 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
@@ -411,7 +411,7 @@ namespace coordset
         */
         std::vector<double> CONDUIT_BLUEPRINT_API spacing(const Node &n);
 
-        std::vector<index_t> CONDUIT_BLUEPRINT_API origin(const Node &n);
+        std::vector<double> CONDUIT_BLUEPRINT_API origin(const Node &n);
     }
 
     std::string CONDUIT_BLUEPRINT_API coordsys(const Node &coordset);
-- 
2.43.0


From b31d4532c2b1b686f3ab6e97d787feeed639bfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:56 +0000
Subject: [PATCH 081/100] fix: converting a strided structured topology to
 unstructured uses its offsets and strides

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 35 ++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 4c4aa0a..3f8983b 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -1247,6 +1247,28 @@ convert_topology_to_unstructured(const std::string &base_type,
     }
     index_t indices_per_elem = (index_t) pow(2, csys_axes.size());
 
+    // NOTE: A structured topology may only cover a window of the points of
+    // its coordset, as described by the (optional) offsets and strides.
+    const bool is_strided = is_base_structured &&
+        (topo["elements/dims"].has_child("offsets") ||
+         topo["elements/dims"].has_child("strides"));
+    index_t voffsets[3] = {0, 0, 0}, vstrides[3] = {0, 0, 0};
+    if(is_strided)
+    {
+        const conduit::Node &dim_node = topo["elements/dims"];
+        index_t default_stride = 1;
+        for(index_t d = 0; d < (index_t)csys_axes.size(); d++)
+        {
+            if(dim_node.has_child("offsets"))
+            {
+                voffsets[d] = dim_node["offsets"].as_index_t_accessor()[d];
+            }
+            vstrides[d] = dim_node.has_child("strides") ?
+                dim_node["strides"].as_index_t_accessor()[d] : default_stride;
+            default_stride = vstrides[d] * (voffsets[d] + vdims_axes[d]);
+        }
+    }
+
     conduit::Node &conn_node = dest["elements/connectivity"];
     conn_node.set(DataType(int_dtype.id(), num_elems * indices_per_elem));
 
@@ -1267,7 +1289,18 @@ convert_topology_to_unstructured(const std::string &base_type,
             {
                 curr_vert[d] += (i & (index_t)pow(2, d)) >> d;
             }
-            grid_ijk_to_id(&curr_vert[0], &vdims_axes[0], v);
+            if(is_strided)
+            {
+                v = 0;
+                for(index_t d = 0; d < (index_t)csys_axes.size(); d++)
+                {
+                    v += (voffsets[d] + curr_vert[d]) * vstrides[d];
+                }
+            }
+            else
+            {
+                grid_ijk_to_id(&curr_vert[0], &vdims_axes[0], v);
+            }
 
             src_idx_node.set(v);
             dst_idx_node.set_external(int_dtype,
-- 
2.43.0


From 3147b44c548455c174128ec876efc0d0a314141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:55 +0000
Subject: [PATCH 082/100] fix: derived topologies of strided connectivity read
 the right vertices

fix: derived topologies of strided connectivity read the right vertices
---
 ...nduit_blueprint_mesh_topology_metadata.cpp | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp b/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp
index f13ea68..9627e97 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp
@@ -1613,15 +1613,17 @@ void
 TopologyMetadata::Implementation::dispatch_connectivity_ph(const conduit::Node &subel,
     const conduit::Node &sizes)
 {
-    // Dispatch to different versions based on connectivity type.
+    // Dispatch to different versions based on connectivity type. Raw pointers
+    // can only be used when the values are stored back to back.
+    const bool raw = sizes.dtype().is_compact();
     index_t sizeslen = sizes.dtype().number_of_elements();
-    if(sizes.dtype().is_int32())
+    if(raw && sizes.dtype().is_int32())
         dispatch_shape_ph(subel, sizes.as_int32_ptr(), sizeslen);
-    else if(sizes.dtype().is_uint32())
+    else if(raw && sizes.dtype().is_uint32())
         dispatch_shape_ph(subel, sizes.as_uint32_ptr(), sizeslen);
-    else if(sizes.dtype().is_int64())
+    else if(raw && sizes.dtype().is_int64())
         dispatch_shape_ph(subel, sizes.as_int64_ptr(), sizeslen);
-    else if(sizes.dtype().is_uint64())
+    else if(raw && sizes.dtype().is_uint64())
         dispatch_shape_ph(subel, sizes.as_uint64_ptr(), sizeslen);
     else
     {
@@ -1635,14 +1637,16 @@ void
 TopologyMetadata::Implementation::dispatch_connectivity(const ShapeType &shape,
     const conduit::Node &conn)
 {
-    // Dispatch to different versions based on connectivity type.
-    if(conn.dtype().is_int32())
+    // Dispatch to different versions based on connectivity type. Raw pointers
+    // can only be used when the values are stored back to back.
+    const bool raw = conn.dtype().is_compact();
+    if(raw && conn.dtype().is_int32())
         dispatch_shape(shape, conn.as_int32_ptr(), conn.dtype().number_of_elements());
-    else if(conn.dtype().is_uint32())
+    else if(raw && conn.dtype().is_uint32())
         dispatch_shape(shape, conn.as_uint32_ptr(), conn.dtype().number_of_elements());
-    else if(conn.dtype().is_int64())
+    else if(raw && conn.dtype().is_int64())
         dispatch_shape(shape, conn.as_int64_ptr(), conn.dtype().number_of_elements());
-    else if(conn.dtype().is_uint64())
+    else if(raw && conn.dtype().is_uint64())
         dispatch_shape(shape, conn.as_uint64_ptr(), conn.dtype().number_of_elements());
     else
     {
-- 
2.43.0


From 1d3ae4a72df2a3f7519b27953ee2a5cce6cc43a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:53 +0000
Subject: [PATCH 083/100] fix: fields of topologies without sizes can be mapped
 to generated sides

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 3f8983b..f434d22 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -5313,7 +5313,7 @@ namespace detail
         bool vert_assoc = false; // true if the current field is vertex associated
         int dimensions = 0; // are we in 2D or 3D?
         int new_num_shapes = 0; // the number of new triangles or tetrahedrons
-        int num_orig_shapes = topo_src["elements/sizes"].dtype().number_of_elements(); // the number of original polygons or polyhedra
+        int num_orig_shapes = static_cast<int>(bputils::topology::length(topo_src)); // the number of original polygons or polyhedra
         Node volumes_info; // a container for the volumes of old shapes and the ratio between new and old volumes for each new shape
         bool volumes_calculated = false; // so we only calculate the volumes once as we go through the while loop
         float64_accessor volume_ratio; // a float64 accessor to the ratio between new and old volumes for each new shape
-- 
2.43.0


From 3807a7871bb8d63692f1df1bd7aa848a78e8dc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:02 +0000
Subject: [PATCH 084/100] fix: 64 bit integer fields mapped to generated sides
 keep their values

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index f434d22..a1260f1 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -5289,7 +5289,11 @@ namespace detail
                 }
                 else
                 {
-                    field_values.set(i, poly_field_data[tri_to_poly[i]]);
+                    // the destination has the same type as the source, so
+                    // the value can be copied without converting it
+                    memcpy(field_out["values"].element_ptr(i),
+                           field_src["values"].element_ptr(tri_to_poly[i]),
+                           field_src["values"].dtype().element_bytes());
                 }
             }
         }
-- 
2.43.0


From 9fae7e0ff1e799cecc06673d99a8c4590f4ad75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 085/100] fix: iterate_elements visits the elements of mixed
 topologies

---
 ..._blueprint_mesh_utils_iterate_elements.hpp | 64 ++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp b/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp
index 90bb92a..c200c8c 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp
@@ -381,6 +381,64 @@ traverse_polyhedral_elements(FuncType &&func, const Node &elements,
     }
 }
 
+//-----------------------------------------------------------------------------
+template<typename FuncType>
+inline void
+traverse_mixed_elements(FuncType &&func, const Node &topo, index_t &ent_id)
+{
+    // A mixed topology has the shape, size and offset of each of its elements.
+    const Node &elements = topo["elements"];
+    std::map<index_t, ShapeType> shape_map;
+    auto itr = elements["shape_map"].children();
+    while(itr.has_next())
+    {
+        const Node &n = itr.next();
+        shape_map[n.to_index_t()] = ShapeType(n.name());
+    }
+
+    const index_t_accessor conn = elements["connectivity"].as_index_t_accessor();
+    const index_t_accessor shapes = elements["shapes"].as_index_t_accessor();
+    const index_t_accessor sizes = elements["sizes"].as_index_t_accessor();
+    const index_t_accessor offsets = elements["offsets"].as_index_t_accessor();
+    for(index_t i = 0; i < shapes.number_of_elements(); i++)
+    {
+        const auto shape_itr = shape_map.find(shapes[i]);
+        if(shape_itr == shape_map.end())
+        {
+            CONDUIT_ERROR("Invalid mixed topology, shape " << shapes[i]
+                          << " is not in the shape map.");
+        }
+
+        entity e;
+        e.shape = shape_itr->second;
+        e.entity_id = ent_id;
+        for(index_t j = 0; j < sizes[i]; j++)
+        {
+            e.element_ids.push_back(conn[offsets[i] + j]);
+        }
+
+        if(e.shape.is_polyhedral())
+        {
+            const Node &subelements = topo["subelements"];
+            const index_t_accessor subconn = subelements["connectivity"].as_index_t_accessor();
+            const index_t_accessor subsizes = subelements["sizes"].as_index_t_accessor();
+            const index_t_accessor suboffsets = subelements["offsets"].as_index_t_accessor();
+            for(const index_t face : e.element_ids)
+            {
+                std::vector<index_t> ids;
+                for(index_t k = 0; k < subsizes[face]; k++)
+                {
+                    ids.push_back(subconn[suboffsets[face] + k]);
+                }
+                e.subelement_ids.push_back(ids);
+            }
+        }
+
+        func(e);
+        ent_id++;
+    }
+}
+
 //-----------------------------------------------------------------------------
 template<typename FuncType>
 inline void
@@ -594,7 +652,11 @@ iterate_elements(const Node &topo, Func &&func)
     case 0:
     {
         ShapeType shape(topo);
-        if(shape.is_polyhedral())
+        if(topo["elements/shape"].as_string() == "mixed")
+        {
+            impl::traverse_mixed_elements(func, topo, ent_id);
+        }
+        else if(shape.is_polyhedral())
         {
             impl::traverse_polyhedral_elements(func, topo["elements"], topo["subelements"], ent_id);
         }
-- 
2.43.0


From f99cb8db129dd867ceb61aa37e2fd87c66b95593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 086/100] fix: iterate_elements uses the offsets and strides of
 structured topologies

---
 ..._blueprint_mesh_utils_iterate_elements.hpp | 67 ++++++++++++-------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp b/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp
index c200c8c..b314fd1 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp
@@ -18,6 +18,7 @@
 //-----------------------------------------------------------------------------
 #include <algorithm>
 #include <array>
+#include <map>
 #include <utility>
 
 
@@ -545,6 +546,25 @@ traverse_structured(FuncType &&func, const Node &topo)
     topology::logical_dims(topo, dims.data(), 3);
     const index_t dimension = topology::dims(topo);
 
+    // The index of the first point and the distance between neighboring points
+    // in each dimension. A structured topology may cover a part of its points.
+    index_t base = 0;
+    std::array<index_t, 3> stride{1, dims[0] + 1, (dims[0] + 1) * (dims[1] + 1)};
+    const Node *elem_dims = topo.fetch_ptr("elements/dims");
+    if(elem_dims && (elem_dims->has_child("offsets") || elem_dims->has_child("strides")))
+    {
+        index_t default_stride = 1;
+        for(index_t d = 0; d < dimension; d++)
+        {
+            const index_t offset = elem_dims->has_child("offsets") ?
+                elem_dims->child("offsets").as_index_t_accessor()[d] : 0;
+            stride[d] = elem_dims->has_child("strides") ?
+                elem_dims->child("strides").as_index_t_accessor()[d] : default_stride;
+            base += offset * stride[d];
+            default_stride = stride[d] * (offset + dims[d] + 1);
+        }
+    }
+
     if(dimension == 1)
     {
         // Line elements
@@ -555,8 +575,8 @@ traverse_structured(FuncType &&func, const Node &topo)
         for(index_t i = 0; i < dims[0]; i++)
         {
             e.entity_id = i;
-            e.element_ids[0] = i;
-            e.element_ids[1] = i + 1;
+            e.element_ids[0] = base + i * stride[0];
+            e.element_ids[1] = base + (i + 1) * stride[0];
             func(e);
         }
     }
@@ -567,19 +587,20 @@ traverse_structured(FuncType &&func, const Node &topo)
         e.shape = ShapeType((index_t)ShapeId::Quad);
         e.element_ids.resize(4);
         e.subelement_ids.clear();
-        const index_t nx = dims[0] + 1;
         index_t id = 0;
         for(index_t j = 0; j < dims[1]; j++)
         {
-            const index_t jnx  = j * nx;
-            const index_t j1nx = (j + 1) * nx;
+            const index_t jnx  = base + j * stride[1];
+            const index_t j1nx = base + (j + 1) * stride[1];
             for(index_t i = 0; i < dims[0]; i++)
             {
+                const index_t i0 = i * stride[0];
+                const index_t i1 = (i + 1) * stride[0];
                 e.entity_id = id++;
-                e.element_ids[0] = jnx + i;
-                e.element_ids[1] = jnx + i + 1;
-                e.element_ids[2] = j1nx + i + 1;
-                e.element_ids[3] = j1nx + i;
+                e.element_ids[0] = jnx + i0;
+                e.element_ids[1] = jnx + i1;
+                e.element_ids[2] = j1nx + i1;
+                e.element_ids[3] = j1nx + i0;
                 func(e);
             }
         }
@@ -591,28 +612,28 @@ traverse_structured(FuncType &&func, const Node &topo)
         e.shape = ShapeType((index_t)ShapeId::Hex);
         e.element_ids.resize(8);
         e.subelement_ids.clear();
-        const index_t nx = dims[0] + 1;
-        const index_t ny = dims[1] + 1;
         index_t id = 0;
         for(index_t k = 0; k < dims[2]; k++)
         {
-            const index_t knxny  = k * nx * ny;
-            const index_t k1nxny = (k + 1) * nx * ny;
+            const index_t knxny  = base + k * stride[2];
+            const index_t k1nxny = base + (k + 1) * stride[2];
             for(index_t j = 0; j < dims[1]; j++)
             {
-                const index_t jnx  = j * nx;
-                const index_t j1nx = (j + 1) * nx;
+                const index_t jnx  = j * stride[1];
+                const index_t j1nx = (j + 1) * stride[1];
                 for(index_t i = 0; i < dims[0]; i++)
                 {
+                    const index_t i0 = i * stride[0];
+                    const index_t i1 = (i + 1) * stride[0];
                     e.entity_id = id++;
-                    e.element_ids[0] = knxny  + jnx  + i;
-                    e.element_ids[1] = knxny  + jnx  + i + 1;
-                    e.element_ids[2] = knxny  + j1nx + i + 1;
-                    e.element_ids[3] = knxny  + j1nx + i;
-                    e.element_ids[4] = k1nxny + jnx  + i;
-                    e.element_ids[5] = k1nxny + jnx  + i + 1;
-                    e.element_ids[6] = k1nxny + j1nx + i + 1;
-                    e.element_ids[7] = k1nxny + j1nx + i;
+                    e.element_ids[0] = knxny  + jnx  + i0;
+                    e.element_ids[1] = knxny  + jnx  + i1;
+                    e.element_ids[2] = knxny  + j1nx + i1;
+                    e.element_ids[3] = knxny  + j1nx + i0;
+                    e.element_ids[4] = k1nxny + jnx  + i0;
+                    e.element_ids[5] = k1nxny + jnx  + i1;
+                    e.element_ids[6] = k1nxny + j1nx + i1;
+                    e.element_ids[7] = k1nxny + j1nx + i0;
                     func(e);
                 }
             }
-- 
2.43.0


From ff68f75ca400d91819578cdfcf5a141c2d41c8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:53 +0000
Subject: [PATCH 087/100] fix: meshes without fields can be flattened

---
 .../blueprint/conduit_blueprint_mesh_flatten.cpp    | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
index e5ec91c..3839f94 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
@@ -724,6 +724,10 @@ MeshFlattener::get_fields_to_flatten(const Node &mesh,
         for(index_t i = 0; i < ndomains; i++)
         {
             const Node &domain = mesh[i];
+            if(!domain.has_child("fields"))
+            {
+                continue;
+            }
             const Node &fields = domain["fields"];
             auto itr = fields.children();
             while(itr.has_next())
@@ -753,10 +757,9 @@ MeshFlattener::get_reference_field(const Node &mesh,
     const index_t ndomains = mesh.number_of_children();
     for(index_t i = 0; i < ndomains; i++)
     {
-        const Node &fields = mesh[i]["fields"];
-        if(fields.has_child(field_name))
+        if(mesh[i].has_child("fields") && mesh[i]["fields"].has_child(field_name))
         {
-            const Node &field = fields[field_name];
+            const Node &field = mesh[i]["fields"][field_name];
             if(check_field_supported(field, topo_name, false))
             {
                 return &field;
@@ -1149,7 +1152,7 @@ MeshFlattener::flatten_single_domain(const Node &mesh, Node &output,
     }
 
     // Add fields to their respective tables
-    const Node &fields = mesh["fields"];
+    const Node *fields = mesh.fetch_ptr("fields");
 #ifdef DEBUG_MESH_FLATTEN
     std::cout << "Domain[" << domain_id << "] fields to flatten:\n";
     for(index_t i = 0; i < (index_t)fields_to_flatten.size(); i++)
@@ -1162,7 +1165,7 @@ MeshFlattener::flatten_single_domain(const Node &mesh, Node &output,
 #endif
     for(const std::string &field_name : fields_to_flatten)
     {
-        const Node *field = fields.fetch_ptr(field_name);
+        const Node *field = fields ? fields->fetch_ptr(field_name) : nullptr;
         if(field)
         {
             const std::string association = field->child("association").as_string();
-- 
2.43.0


From 9d50e8e036eb972ead5cc6e801f3f2833a2cfa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 088/100] fix: flattened columns can hold the values of every
 domain and component

---
 .../conduit_blueprint_mesh_flatten.cpp        | 110 +++++++++++++++---
 1 file changed, 91 insertions(+), 19 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
index 3839f94..c72f1d5 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
@@ -12,6 +12,7 @@
 //-----------------------------------------------------------------------------
 // std lib includes
 //-----------------------------------------------------------------------------
+#include <algorithm>
 #include <array>
 #include <iostream>
 #include <set>
@@ -548,6 +549,7 @@ MeshFlattener::collect_mesh_info(const Node &mesh, MeshInfo &out) const
     // Collect information about the mesh
     out.ndomains = mesh.number_of_children();
     bool first = true;
+    Node coord_values;
     for(index_t i = 0; i < out.ndomains; i++)
     {
         const Node &domain = mesh[i];
@@ -567,17 +569,35 @@ MeshFlattener::collect_mesh_info(const Node &mesh, MeshInfo &out) const
             first = false;
             out.dimension = blueprint::mesh::coordset::dims(dom_cset);
             out.axes = blueprint::mesh::utils::coordset::axes(dom_cset);
-            const std::string cset_type_name = dom_cset["type"].as_string();
-            if(cset_type_name == "uniform" || cset_type_name == "rectilinear")
+            out.cset_name = dom_cset.name();
+        }
+
+        // The column must be able to hold the coordinates of every domain.
+        const std::string cset_type_name = dom_cset["type"].as_string();
+        if(cset_type_name == "uniform")
+        {
+            Node &n = coord_values.append();
+            for(const std::string name : {"origin", "spacing"})
             {
-                out.coord_type = determine_element_dtype(dom_cset);
+                if(dom_cset.has_child(name))
+                {
+                    n[name].set_external(dom_cset[name]);
+                }
             }
-            else if(cset_type_name == "explicit")
+            if(n.number_of_children() == 0)
             {
-                out.coord_type = determine_element_dtype(dom_cset["values"]);
+                n.set_external(dom_cset["dims"]);
             }
-            out.cset_name = dom_cset.name();
         }
+        else if(cset_type_name == "rectilinear" || cset_type_name == "explicit")
+        {
+            coord_values.append().set_external(dom_cset["values"]);
+        }
+    }
+
+    if(coord_values.number_of_children() > 0)
+    {
+        out.coord_type = determine_element_dtype(coord_values);
     }
 
     // Check if each domain had a proper domain_id, if not replace domain
@@ -769,18 +789,59 @@ MeshFlattener::get_reference_field(const Node &mesh,
     return nullptr;
 }
 
+//-----------------------------------------------------------------------------
+// Returns the element size of the widest leaf of the selected kind, 0 if none.
+template<typename Func>
+static index_t
+widest_element_bytes(const Node &data, Func &&is_selected)
+{
+    const DataType &dt = data.dtype();
+    if(dt.is_object() || dt.is_list())
+    {
+        index_t retval = 0;
+        auto itr = data.children();
+        while(itr.has_next())
+        {
+            retval = std::max(retval, widest_element_bytes(itr.next(), is_selected));
+        }
+        return retval;
+    }
+    return is_selected(dt) ? dt.element_bytes() : 0;
+}
+
 //-----------------------------------------------------------------------------
 index_t
 MeshFlattener::determine_element_dtype(const Node &data) const
 {
-    // Turns out blueprint::mesh::utils has a function for this
-    const std::vector<DataType> default_dtypes{
-        DataType::float32(),
-        DataType::int32(),
-        DataType::uint32()
-    };
-    return blueprint::mesh::utils::find_widest_dtype(
-        data, default_dtypes).id();
+    // Find the widest type of each kind of number in the data.
+    const index_t widest_float =
+        widest_element_bytes(data, [](const DataType &dt) { return dt.is_floating_point(); });
+    const index_t widest_signed =
+        widest_element_bytes(data, [](const DataType &dt) { return dt.is_signed_integer(); });
+    const index_t widest_unsigned =
+        widest_element_bytes(data, [](const DataType &dt) { return dt.is_unsigned_integer(); });
+
+    // Pick a type that can represent all of the values.
+    if(widest_float > 0)
+    {
+        const bool need_float64 = widest_float > 4 || widest_signed > 2 || widest_unsigned > 2;
+        return need_float64 ? DataType::FLOAT64_ID : DataType::FLOAT32_ID;
+    }
+    if(widest_signed > 0)
+    {
+        const index_t bytes = std::max(widest_signed,
+            std::min<index_t>(widest_unsigned * 2, 8));
+        return bytes == 1 ? DataType::INT8_ID :
+               bytes == 2 ? DataType::INT16_ID :
+               bytes == 4 ? DataType::INT32_ID : DataType::INT64_ID;
+    }
+    if(widest_unsigned > 0)
+    {
+        return widest_unsigned == 1 ? DataType::UINT8_ID :
+               widest_unsigned == 2 ? DataType::UINT16_ID :
+               widest_unsigned == 4 ? DataType::UINT32_ID : DataType::UINT64_ID;
+    }
+    return DataType::FLOAT32_ID;
 }
 
 //-----------------------------------------------------------------------------
@@ -932,7 +993,7 @@ MeshFlattener::generate_element_centers(const Node &topo,
             // Only convert what we need to convert
             if(n_comp.dtype().id() != cset_type)
             {
-                n_cset_values.to_data_type(cset_type, temp[n_comp.name()]);
+                n_comp.to_data_type(cset_type, temp[n_comp.name()]);
             }
             else
             {
@@ -941,12 +1002,13 @@ MeshFlattener::generate_element_centers(const Node &topo,
         }
     }
 
+    const Node &n_centers_values = temp;
 #define GENERATE_ELEMENT_CENTERS_CSET_TYPE(CsetType, OutputType)\
 {\
     const std::array<const DataArray<CsetType>, 3> cset_values{\
-        (dimension > 0) ? n_cset_values[0].value() : DataArray<CsetType>(),\
-        (dimension > 1) ? n_cset_values[1].value() : DataArray<CsetType>(),\
-        (dimension > 2) ? n_cset_values[2].value() : DataArray<CsetType>(),\
+        (dimension > 0) ? n_centers_values[0].value() : DataArray<CsetType>(),\
+        (dimension > 1) ? n_centers_values[1].value() : DataArray<CsetType>(),\
+        (dimension > 2) ? n_centers_values[2].value() : DataArray<CsetType>(),\
     };\
     utils::generate_element_centers_impl<CsetType, OutputType>(topo, dimension,\
         cset_values.data(), output_values.data(), offset);\
@@ -1239,7 +1301,17 @@ MeshFlattener::flatten_many_domains(const Node &mesh, Node &output) const
         {
             const std::string assoc = ref_field->child("association").as_string();
             const Node &field_values = ref_field->child("values");
-            const index_t elem_dtype_id = determine_element_dtype(field_values);
+            // The column must be able to hold the values of every domain.
+            Node all_values;
+            for(index_t i = 0; i < info.ndomains; i++)
+            {
+                const Node *field = mesh[i].fetch_ptr("fields/" + field_name);
+                if(field && field->has_child("values"))
+                {
+                    all_values.append().set_external(field->child("values"));
+                }
+            }
+            const index_t elem_dtype_id = determine_element_dtype(all_values);
             if(assoc == "vertex")
             {
                 allocate_column(vertex_table["values/" + field_name], info.nverts, elem_dtype_id, &field_values);
-- 
2.43.0


From ac6efc054964170c3c576852e38126817c600a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:30 +0000
Subject: [PATCH 089/100] fix: flatten skips fields that are on another
 topology in some domains

---
 src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
index c72f1d5..274c733 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
@@ -1228,7 +1228,8 @@ MeshFlattener::flatten_single_domain(const Node &mesh, Node &output,
     for(const std::string &field_name : fields_to_flatten)
     {
         const Node *field = fields ? fields->fetch_ptr(field_name) : nullptr;
-        if(field)
+        // The field may be on another topology in this domain.
+        if(field && check_field_supported(*field, topo.name(), false))
         {
             const std::string association = field->child("association").as_string();
             const Node &field_values = field->child("values");
-- 
2.43.0


From c454d26f71a29515981b39e95edfbc67737f207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 090/100] fix: partition honours the fields option given as a
 list of names, also for whole domains

---
 .../conduit_blueprint_mesh_partition.cpp      | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 0e21025..d437372 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -1978,7 +1978,14 @@ Partitioner::initialize(const conduit::Node &n_mesh,
         selected_fields.clear();
         const conduit::Node &n_fields = options["fields"];
         for(index_t i = 0; i < n_fields.number_of_children(); i++)
-            selected_fields.push_back(n_fields[i].name());
+        {
+            // The fields are given as a list of strings. The names of the
+            // children of an object are accepted too.
+            if(n_fields.dtype().is_list() && n_fields[i].dtype().is_string())
+                selected_fields.push_back(n_fields[i].as_string());
+            else
+                selected_fields.push_back(n_fields[i].name());
+        }
     }
 
     // Get whether we want to preserve old numbering of vertices, elements.
@@ -3667,6 +3674,20 @@ Partitioner::wrap(size_t idx, const conduit::Node &n_mesh) const
         for(index_t i = 0; i < n_fields.number_of_children(); i++)
         {
             const conduit::Node &f = n_fields[i];
+            // Skip fields that are not selected.
+            if(!selected_fields.empty() &&
+               std::find(selected_fields.begin(),
+                         selected_fields.end(),
+                         f.name()) == selected_fields.end())
+            {
+                continue;
+            }
+            // Fields replaced by the new mapping must not refer to the input.
+            if(mapping && (f.name() == original_vertex_ids_name() ||
+                           f.name() == original_element_ids_name()))
+            {
+                continue;
+            }
             n_new_fields[f.name()].set_external_node(f);
         }
     }
@@ -3684,7 +3705,7 @@ Partitioner::wrap(size_t idx, const conduit::Node &n_mesh) const
     }
 
     // Save the vertex_ids as a new MC field.
-    if(nvertices > 0)
+    if(mapping && nvertices > 0)
     {
         conduit::Node &n_field = n_new_fields[original_vertex_ids_name()];
         n_field["association"] = "vertex";
@@ -3699,7 +3720,7 @@ Partitioner::wrap(size_t idx, const conduit::Node &n_mesh) const
     }
 
     // Save the element_ids as a new MC field.
-    if(nelements > 0)
+    if(mapping && nelements > 0)
     {
         conduit::Node &n_field = n_new_fields[original_element_ids_name()];
         n_field["association"] = "element";
-- 
2.43.0


From 8540f422b3ac23d8d9d93b1185cda1d929c0fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 091/100] fix: partition selects the vertices of
 one-dimensional grids

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index d437372..0e128e2 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -2833,7 +2833,7 @@ Partitioner::get_vertex_ids_for_element_ids(const conduit::Node &n_topo,
             {0,1,1},
             {1,1,1}
         };
-        int np = (ndims == 2) ? 4 : 8;
+        int np = 1 << ndims;
         auto n = element_ids.size();
         for(size_t j = 0; j < n; j++)
         {
-- 
2.43.0


From 388fecd2efa3c8206e97f41039012b2ae4a50901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 092/100] fix: partition keeps one-dimensional logical
 selections one-dimensional

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 0e128e2..882474b 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -610,7 +610,8 @@ SelectionLogical::get_vertex_ids(const conduit::Node &n_mesh,
         conduit::blueprint::mesh::utils::topology::logical_dims(n_topo, dims, 3);
         index_t ndims = conduit::blueprint::mesh::utils::topology::dims(n_topo);
         dims[0]++;
-        dims[1]++;
+        if(ndims > 1)
+            dims[1]++;
         if(ndims > 2)
             dims[2]++;
 
@@ -620,7 +621,7 @@ SelectionLogical::get_vertex_ids(const conduit::Node &n_mesh,
         auto mesh_NX   = dims[0];
         index_t n_end[3];
         n_end[0] = end[0] + 1;
-        n_end[1] = end[1] + 1;
+        n_end[1] = (ndims > 1) ? (end[1] + 1) : start[1];
         n_end[2] = (ndims > 2) ? (end[2] + 1) : start[2];
 
         for(index_t k = start[2]; k <= n_end[2]; k++)
-- 
2.43.0


From 2dd626daf57455b4bf9adbcb5eb354b5fb9b16de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 093/100] fix: partition does not leave one part of a split
 range selection empty

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 882474b..2247353 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -1146,8 +1146,10 @@ SelectionRanges::partition(const conduit::Node &n_mesh) const
             auto rc = (ranges[2*i+1] - ranges[2*i]) + 1;
             if(rc == 1)
             {
-                r0.push_back(ranges[2*i+0]);
-                r0.push_back(ranges[2*i+0]);
+                // Both parts must get elements.
+                std::vector<index_t> &r = r0.empty() ? r0 : r1;
+                r.push_back(ranges[2*i+0]);
+                r.push_back(ranges[2*i+0]);
             }
             else if(rc == 2)
             {
-- 
2.43.0


From ea6d321c3807a9754c52034755ec522c2bb32e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 094/100] fix: partition stops splitting when no selection has
 two elements

---
 .../conduit_blueprint_mesh_partition.cpp          | 15 ++++++++++++---
 .../conduit_blueprint_mpi_mesh_partition.cpp      |  4 ++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 2247353..e8af8b5 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -2077,15 +2077,18 @@ Partitioner::count_targets() const
 void
 Partitioner::get_largest_selection(int &sel_rank, int &sel_index) const
 {
-    sel_rank = 0;
+    // NOTE: A selection must contain more than 1 element to be split. If there
+    //       is no such selection then the returned rank is -1.
+    sel_rank = -1;
     sel_index = -1;
-    long largest_selection_size = 0;
+    long largest_selection_size = 1;
     for(size_t i = 0; i < selections.size(); i++)
     {
         long ssize = static_cast<long>(selections[i]->length(*meshes[i]));
         if(ssize > largest_selection_size)
         {
             largest_selection_size = ssize;
+            sel_rank = 0;
             sel_index = static_cast<int>(i);
         }
     }
@@ -2123,7 +2126,13 @@ Partitioner::split_selections()
             int sel_rank = -1, sel_index = -1;
             get_largest_selection(sel_rank, sel_index);
 
-            if(rank == sel_rank)
+            if(sel_rank < 0)
+            {
+                // None of the selections can be split any further.
+                target = nt;
+                splitting = false;
+            }
+            else if(rank == sel_rank)
             {
                 auto ps = selections[sel_index]->partition(*meshes[sel_index]);
 
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
index f911b27..e22ecc5 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
@@ -259,6 +259,10 @@ ParallelPartitioner::get_largest_selection(int &sel_rank, int &sel_index) const
     sel_rank = global_largest_selection.rank;
     sel_index = -1;
 
+    // A selection must contain more than 1 element to be split.
+    if(global_largest_selection.value <= 1)
+        sel_rank = -1;
+
     // If we're on that rank, determine the local selection index.
     if(sel_rank == rank)
     {
-- 
2.43.0


From da0332a969f6e36ebc71ccad87adc3a8f83fabc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 095/100] fix: partition_map_back keeps values of elements that
 are not in the partition

---
 .../conduit_blueprint_mesh_partition.cpp      | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index e8af8b5..135254a 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -9040,6 +9040,9 @@ map_element_field(const std::vector<const Node*> &in_nodes,
             const index_t idx      = out_idx * 2;
             const index_t dom_idx  = elemmap[idx];
             const index_t elem_idx = elemmap[idx+1];
+            // There is no value for this element.
+            if(dom_idx < 0)
+                continue;
             const Node &data = in_nodes[dom_idx]->child("values");
             for(index_t ci = 0; ci < ncomps; ci++)
             {
@@ -9058,6 +9061,9 @@ map_element_field(const std::vector<const Node*> &in_nodes,
             const index_t idx      = out_idx * 2;
             const index_t dom_idx  = elemmap[idx];
             const index_t elem_idx = elemmap[idx+1];
+            // There is no value for this element.
+            if(dom_idx < 0)
+                continue;
             const Node &data = in_nodes[dom_idx]->child("values");
             void *out_data = out_node.element_ptr(out_idx);
             const void *in_data = data.element_ptr(elem_idx);
@@ -10313,16 +10319,25 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
     communicate_mapback(packed_fields);
     for (const auto& orig_dom : packed_fields)
     {
-        // Precompute final element count
+        Node& tgt_dom = *gid_to_orig_dom[orig_dom.first];
+
+        // Precompute final element count. It is the number of elements in the
+        // original topology, not all of which may have been selected.
         index_t nelems = 0;
         for (const Node& src_chunk : orig_dom.second.children())
         {
-            DataArray<index_t> cnk_map = src_chunk["elem_map"].value();
-            nelems += cnk_map.number_of_elements();
+            for (const Node& field : src_chunk["fields"].children())
+            {
+                if (field["association"].as_string() == "element")
+                {
+                    const Node &topo = tgt_dom["topologies"][field["topology"].as_string()];
+                    nelems = std::max(nelems, topology::length(topo));
+                }
+            }
         }
 
         int cnk_id = 0;
-        vector<index_t> tgt_elem_map(nelems * 2);
+        vector<index_t> tgt_elem_map(nelems * 2, -1);
         vector<DataArray<index_t>> tgt_vert_maps(orig_dom.second.number_of_children());
         unordered_map<string, vector<const Node*>> field_groups;
         for (const Node& src_chunk : orig_dom.second.children())
@@ -10337,8 +10352,11 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
             for (index_t i = 0; i < cnk_map.number_of_elements(); i++)
             {
                 index_t out_idx = cnk_map[i];
-                tgt_elem_map[2*out_idx] = cnk_id;
-                tgt_elem_map[2*out_idx + 1] = i;
+                if (out_idx < nelems)
+                {
+                    tgt_elem_map[2*out_idx] = cnk_id;
+                    tgt_elem_map[2*out_idx + 1] = i;
+                }
             }
             // map_vertex_field expects a collection of vertex maps for each
             // chunk, instead of a single unified map
@@ -10352,7 +10370,6 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
             tmp.set_external(tgt_elem_map);
             elem_map_arr = tmp.value();
         }
-        Node& tgt_dom = *gid_to_orig_dom[orig_dom.first];
         for (const auto& fg : field_groups)
         {
             const vector<const Node*>& src_fields = fg.second;
-- 
2.43.0


From 663130018797f62629de9ee0d55d0347a3e68cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 096/100] fix: points topologies can be partitioned

---
 .../conduit_blueprint_mesh_partition.cpp        | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 135254a..f469f42 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -2866,6 +2866,10 @@ Partitioner::get_vertex_ids_for_element_ids(const conduit::Node &n_topo,
             }
         }
     }
+    else if(n_topo["type"].as_string() == "points")
+    {
+        vertex_ids.insert(element_ids.begin(), element_ids.end());
+    }
     else
     {
         conduit::blueprint::mesh::utils::ShapeType shape(n_topo);
@@ -3320,6 +3324,19 @@ Partitioner::create_new_unstructured_topo(const conduit::Node &n_topo,
     {
         unstructured_topo_from_unstructured(n_topo, csname, element_ids, vertex_ids, n_new_topo);
     }
+    else if(n_topo["type"].as_string() == "points")
+    {
+        // Element i is the point i.
+        std::vector<index_t> conn(topology::length(n_topo));
+        for(size_t i = 0; i < conn.size(); i++)
+            conn[i] = static_cast<index_t>(i);
+        conduit::Node n_uns;
+        n_uns["type"] = "unstructured";
+        n_uns["coordset"] = csname;
+        n_uns["elements/shape"] = "point";
+        n_uns["elements/connectivity"].set_external(conn);
+        unstructured_topo_from_unstructured(n_uns, csname, element_ids, vertex_ids, n_new_topo);
+    }
 }
 
 //---------------------------------------------------------------------------
-- 
2.43.0


From 7dda1d7c992b76949d11a11e19e5b0f84fde9695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 097/100] fix: partition extracts uniform grids in 1D and
 without origin or spacing

---
 .../conduit_blueprint_mesh_partition.cpp      | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index f469f42..bea466b 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -3132,23 +3132,30 @@ Partitioner::create_new_uniform_coordset(const conduit::Node &n_coordset,
     index_t ndims = conduit::blueprint::mesh::utils::coordset::dims(n_coordset);
     n_new_coordset["type"] = "uniform";
     n_new_coordset["dims/i"] = end[0] - start[0] + 2;
-    n_new_coordset["dims/j"] = end[1] - start[1] + 2;
+    if(ndims > 1)
+        n_new_coordset["dims/j"] = end[1] - start[1] + 2;
     if(ndims > 2)
         n_new_coordset["dims/k"] = end[2] - start[2] + 2;
 
     // Adjust the origins to the right start values.
     auto axes(conduit::blueprint::mesh::utils::coordset::axes(n_coordset));
-    const conduit::Node &n_origin = n_coordset["origin"];
-    const conduit::Node &n_spacing = n_coordset["spacing"];
+    if(!n_coordset.has_child("origin") && !n_coordset.has_child("spacing"))
+        axes = conduit::blueprint::mesh::utils::CARTESIAN_AXES;
     conduit::Node &n_new_origin = n_new_coordset["origin"];
     for(index_t i = 0; i < ndims; i++)
     {
-        conduit::Node &origin_i = n_new_origin[n_origin[i].name()];
-        double org = n_origin[i].to_double() + n_spacing[i].to_double() * start[i];
-        origin_i.set(org);
+        // The origin and the spacing are optional.
+        const std::string origin_path("origin/" + axes[i]);
+        const std::string spacing_path("spacing/d" + axes[i]);
+        double org = n_coordset.has_path(origin_path) ?
+            n_coordset[origin_path].to_double() : 0.;
+        double spc = n_coordset.has_path(spacing_path) ?
+            n_coordset[spacing_path].to_double() : 1.;
+        n_new_origin[axes[i]].set(org + spc * start[i]);
     }
     // Copy all the spacings
-    n_new_coordset["spacing"].set(n_coordset["spacing"]);
+    if(n_coordset.has_child("spacing"))
+        n_new_coordset["spacing"].set(n_coordset["spacing"]);
 }
 
 //---------------------------------------------------------------------------
-- 
2.43.0


From f2599dcdfe901f54af574915f3465cdfac3bd629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 098/100] fix: 1D combine writes the element index behind the
 domain index

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index bea466b..c2fa6b3 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -8652,8 +8652,8 @@ private:
                     {
                         const index_t id  = ioff + i;
                         const index_t idx = id * 2;
-                        emap_da[idx] = dom_idx;
-                        emap_da[idx] = i;
+                        emap_da[idx]   = dom_idx;
+                        emap_da[idx+1] = i;
                     }
                 }
             }
-- 
2.43.0


From 0628d4495dbafdc7a6a1fe42b7d82ea70ae866e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 099/100] fix: partition makes the original ids exactly when
 mapping is on

---
 .../conduit_blueprint_mesh_partition.cpp      | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index c2fa6b3..88adaa0 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -2707,9 +2707,12 @@ Partitioner::copy_fields(index_t domain, const std::string &topology,
     const conduit::Node &n_mesh,
     conduit::Node &n_output) const
 {
-    if(n_mesh.has_child("fields"))
+    // The mapping fields are made even if there are no other fields.
+    const conduit::Node n_no_fields;
+    const conduit::Node &n_fields = n_mesh.has_child("fields") ?
+        n_mesh["fields"] : n_no_fields;
+    if(mapping || n_mesh.has_child("fields"))
     {
-        const conduit::Node &n_fields = n_mesh["fields"];
         if(!vertex_ids.empty())
         {
             conduit::Node &n_output_fields = n_output["fields"];
@@ -2771,6 +2774,13 @@ Partitioner::copy_fields(index_t domain, const std::string &topology,
                 n_values["ids"].set(element_ids);
             }
         }
+
+        // An empty fields node would not be valid.
+        if(n_output.has_child("fields") &&
+           n_output["fields"].number_of_children() == 0)
+        {
+            n_output.remove("fields");
+        }
     }
 }
 
@@ -3770,6 +3780,10 @@ Partitioner::wrap(size_t idx, const conduit::Node &n_mesh) const
         n_field["values/ids"].set(elem_ids);
     }
 
+    // An empty fields node would not be valid.
+    if(n_new_fields.number_of_children() == 0)
+        n_wrap->remove("fields");
+
     return n_wrap;
 }
 
@@ -9995,7 +10009,7 @@ Partitioner::combine(int domain,
     }
 
     // Cleanup the output node, add original cells/verticies in needed
-    if(!output_fields.has_child(original_element_ids_name()))
+    if(mapping && !output_fields.has_child(original_element_ids_name()))
     {
         // Q: What happens in the case of multiple topologies?
         const Node &n_elem_map = output_topologies[0]["element_map"];
@@ -10050,7 +10064,7 @@ Partitioner::combine(int domain,
         output_topologies[i].remove("element_map");
     }
 
-    if(!output_fields.has_child(original_vertex_ids_name()))
+    if(mapping && !output_fields.has_child(original_vertex_ids_name()))
     {
         // Get the pointmaps
         const std::string &coordset_name = output_topologies[0]["coordset"].as_string();
@@ -10117,6 +10131,12 @@ Partitioner::combine(int domain,
     {
         output_coordsets[i].remove("pointmaps");
     }
+
+    // An empty fields node would not be valid.
+    if(output_fields.number_of_children() == 0)
+    {
+        output.remove("fields");
+    }
 }
 
 //-------------------------------------------------------------------------
-- 
2.43.0


From b52ce78e0c57c28b8704df13ec4ce9ef1bad3886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 100/100] fix: points topologies can be combined with other
 topologies

---
 .../conduit_blueprint_mesh_partition.cpp      | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 88adaa0..a444618 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -3307,6 +3307,22 @@ Partitioner::create_new_structured_topo(const conduit::Node &n_topo,
     }
 }
 
+//---------------------------------------------------------------------------
+/**
+ @brief Makes an unstructured topology whose element i is point i of n_topo.
+ */
+static void
+points_to_unstructured(const conduit::Node &n_topo, conduit::Node &n_uns)
+{
+    std::vector<index_t> conn(topology::length(n_topo));
+    for(size_t i = 0; i < conn.size(); i++)
+        conn[i] = static_cast<index_t>(i);
+    n_uns["type"] = "unstructured";
+    n_uns["coordset"] = n_topo["coordset"].as_string();
+    n_uns["elements/shape"] = "point";
+    n_uns["elements/connectivity"].set(conn);
+}
+
 //---------------------------------------------------------------------------
 /**
  @note We pass in the coordset name because the conversion routines in here
@@ -3343,15 +3359,8 @@ Partitioner::create_new_unstructured_topo(const conduit::Node &n_topo,
     }
     else if(n_topo["type"].as_string() == "points")
     {
-        // Element i is the point i.
-        std::vector<index_t> conn(topology::length(n_topo));
-        for(size_t i = 0; i < conn.size(); i++)
-            conn[i] = static_cast<index_t>(i);
         conduit::Node n_uns;
-        n_uns["type"] = "unstructured";
-        n_uns["coordset"] = csname;
-        n_uns["elements/shape"] = "point";
-        n_uns["elements/connectivity"].set_external(conn);
+        points_to_unstructured(n_topo, n_uns);
         unstructured_topo_from_unstructured(n_uns, csname, element_ids, vertex_ids, n_new_topo);
     }
 }
@@ -9561,11 +9570,11 @@ Partitioner::recommended_topology(const std::vector<const Node *> &inputs,
     };
 
     static const std::array<std::string, 5> topology_types = {
-        "points",
         "uniform",
         "rectilinear",
         "structured",
-        "unstructured"
+        "unstructured",
+        "points" // there is no logical grid of points to combine
     };
 
     index_t worst_coordset = 0;
@@ -9604,15 +9613,15 @@ Partitioner::recommended_topology(const std::vector<const Node *> &inputs,
     }
 
     std::string retval;
-    if(worst_topology < 2 && worst_coordset < 1)
+    if(worst_topology < 1 && worst_coordset < 1)
     {
         retval = "uniform";
     }
-    else if(worst_topology < 3 && worst_coordset < 2)
+    else if(worst_topology < 2 && worst_coordset < 2)
     {
         retval = "rectilinear";
     }
-    else if(worst_topology < 4)
+    else if(worst_topology < 3)
     {
         retval = "structured";
     }
@@ -10519,7 +10528,7 @@ Partitioner::combine_as_unstructured(const std::string &topo_name,
             if(t == "points")
             {
                 temporary_nodes.emplace_back();
-                // topology::points::to_explicit(topo, temporary_nodes.back());
+                points_to_unstructured(*topo, temporary_nodes.back());
                 working_topologies.push_back(&temporary_nodes.back());
             }
             else if(t == "uniform")
-- 
2.43.0

