From eb7a5c46f6a5f71d099e1afc1963d1e290645b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 01/15] fix: delete all-zero nodes in sequential binary quasi
 reduction like the other reducers

---
 include/tdzdd/dd/DdReducer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/dd/DdReducer.hpp b/include/tdzdd/dd/DdReducer.hpp
index 108d694..7067a9f 100644
--- a/include/tdzdd/dd/DdReducer.hpp
+++ b/include/tdzdd/dd/DdReducer.hpp
@@ -239,7 +239,8 @@ private:
             if (f0.row() != 0) f0 = newIdTable[f0.row()][f0.col()];
             if (f1.row() != 0) f1 = newIdTable[f1.row()][f1.col()];
 
-            if ((BDD && f1 == f0) || (ZDD && f1 == 0)) {
+            if ((BDD && f1 == f0) || (ZDD && f1 == 0)
+                    || (!BDD && !ZDD && f0 == 0 && f1 == 0)) {
                 newId[j] = f0;
             }
             else {
@@ -315,7 +316,8 @@ private:
                 assert(newId[j] == 0);
                 newId[j] = newId[f0.col()];
             }
-            else if ((BDD && f1 == f0) || (ZDD && f1 == 0)) { // forwarded
+            else if ((BDD && f1 == f0) || (ZDD && f1 == 0)
+                    || (!BDD && !ZDD && f0 == 0 && f1 == 0)) { // forwarded
                 assert(newId[j].row() < i);
             }
             else {
-- 
2.43.0


From ba8b76ee3d523a422d272bcc087d9e929ce38b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:36 +0000
Subject: [PATCH 02/15] fix: construct both operand states in getRoot of binary
 operations before they are destructed

---
 include/tdzdd/op/BinaryOperation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/op/BinaryOperation.hpp b/include/tdzdd/op/BinaryOperation.hpp
index 9650a41..80bb841 100644
--- a/include/tdzdd/op/BinaryOperation.hpp
+++ b/include/tdzdd/op/BinaryOperation.hpp
@@ -171,8 +171,8 @@ struct BddAnd_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 == 0) return 0;
         int i2 = base::spec2.get_root(base::state2(p));
+        if (i1 == 0) return 0;
         if (i2 == 0) return 0;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
@@ -241,8 +241,8 @@ struct BddOr_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 < 0) return -1;
         int i2 = base::spec2.get_root(base::state2(p));
+        if (i1 < 0) return -1;
         if (i2 < 0) return -1;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
@@ -345,8 +345,8 @@ public:
 
     int getRoot(Word* p) {
         int i1 = spec1.get_root(state1(p));
-        if (i1 == 0) return 0;
         int i2 = spec2.get_root(state2(p));
+        if (i1 == 0) return 0;
         if (i2 == 0) return 0;
 
         while (i1 != i2) {
-- 
2.43.0


From 331290f4ffc05c43519bb68ab5c071ecc26f83d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:52 +0000
Subject: [PATCH 03/15] fix: size the work numbers of the cardinality
 evaluators for numVars above the top level

---
 include/tdzdd/eval/Cardinality.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/eval/Cardinality.hpp b/include/tdzdd/eval/Cardinality.hpp
index a44e675..04bbea7 100644
--- a/include/tdzdd/eval/Cardinality.hpp
+++ b/include/tdzdd/eval/Cardinality.hpp
@@ -107,7 +107,8 @@ public:
         topLevel = level;
         pools.resize(topLevel + 1);
 
-        int max = ceil(double(topLevel) * log2(double(ARITY)) / 63.0) + 1;
+        int n = (numVars > topLevel) ? numVars : topLevel;
+        int max = ceil(double(n) * log2(double(ARITY)) / 63.0) + 1;
         tmp1.setArray(pools[topLevel].template allocate<uint64_t>(max));
         tmp2.setArray(pools[topLevel].template allocate<uint64_t>(max));
         tmp3.setArray(pools[topLevel].template allocate<uint64_t>(max));
-- 
2.43.0


From f96a66c4b5863a32c01ec58abd7fcbc85c337d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:26 +0000
Subject: [PATCH 04/15] fix: keep zero normalized in BigNumber::shiftLeft

---
 include/tdzdd/util/BigNumber.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/BigNumber.hpp b/include/tdzdd/util/BigNumber.hpp
index 4e4eba6..db5ed7c 100644
--- a/include/tdzdd/util/BigNumber.hpp
+++ b/include/tdzdd/util/BigNumber.hpp
@@ -192,6 +192,7 @@ public:
 
     size_t shiftLeft(int k) {
         assert(k >= 0);
+        if (operator==(0)) return 1; // keep zero normalized
         if (k >= 63) {
             int w = k / 63;
             for (uint64_t* q = array + size() - 1; q >= array; --q) {
-- 
2.43.0


From 227d1bf499499e2c8d3bbfbc02bbb0544c11c8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:45 +0000
Subject: [PATCH 05/15] fix: make self-assignment of NodeTableHandler safe

---
 include/tdzdd/dd/NodeTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/dd/NodeTable.hpp b/include/tdzdd/dd/NodeTable.hpp
index 0cf4536..7f5e9ea 100644
--- a/include/tdzdd/dd/NodeTable.hpp
+++ b/include/tdzdd/dd/NodeTable.hpp
@@ -436,9 +436,9 @@ public:
     }
 
     NodeTableHandler& operator=(NodeTableHandler const& o) {
+        o.pointer->ref();
         pointer->deref();
         pointer = o.pointer;
-        pointer->ref();
         return *this;
     }
 
-- 
2.43.0


From 5ffa10fd6573c008075ccadefb00d69a8c026f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:16 +0000
Subject: [PATCH 06/15] fix: drop the cached level index when a node table is
 stretched or re-initialized

---
 include/tdzdd/dd/NodeTable.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tdzdd/dd/NodeTable.hpp b/include/tdzdd/dd/NodeTable.hpp
index 7f5e9ea..e8471ed 100644
--- a/include/tdzdd/dd/NodeTable.hpp
+++ b/include/tdzdd/dd/NodeTable.hpp
@@ -60,6 +60,7 @@ public:
         assert(n >= 1);
         DataTable<Node<ARITY> >::init(n);
         initTerminals();
+        deleteIndex();
     }
 
     /**
@@ -117,6 +118,7 @@ public:
     void stretchBottom(int n) {
         int n0 = numVars();
         int d = n - n0;
+        if (d != 0) deleteIndex();
 
         if (d > 0) {
             this->setNumRows(n + 1);
-- 
2.43.0


From 9b24f5fcbdf7e1108697f8c3c59e6f7fa0df048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:50 +0000
Subject: [PATCH 07/15] fix: compare diagrams with duplicate nodes by structure
 in DdStructure::operator==

---
 include/tdzdd/DdStructure.hpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/DdStructure.hpp b/include/tdzdd/DdStructure.hpp
index 950aef8..e557ef6 100644
--- a/include/tdzdd/DdStructure.hpp
+++ b/include/tdzdd/DdStructure.hpp
@@ -313,8 +313,16 @@ public:
         if (size() > o.size()) return o.operator==(*this);
 
         MyHashMap<InitializedNode<ARITY>,size_t> uniq;
-        DataTable<NodeId> equiv(n + 1);
+        DataTable<NodeId> canon(n + 1); // representatives of own nodes
+        DataTable<NodeId> equiv(n + 1); // own equivalents of o's nodes
         {
+            size_t m = (*diagram)[0].size();
+            canon[0].resize(m);
+
+            for (size_t j = 0; j < m; ++j) {
+                canon[0][j] = j;
+            }
+
             size_t om = (*o.diagram)[0].size();
             equiv[0].resize(om);
             for (size_t j = 0; j < om; ++j) {
@@ -325,9 +333,19 @@ public:
         for (int i = 1; i <= n; ++i) {
             size_t m = (*diagram)[i].size();
             uniq.initialize(m * 2);
+            canon[i].resize(m);
 
             for (size_t j = 0; j < m; ++j) {
-                uniq[(*diagram)[i][j]] = j;
+                InitializedNode<ARITY> node;
+
+                for (int b = 0; b < ARITY; ++b) {
+                    NodeId f = (*diagram)[i][j].branch[b];
+                    node.branch[b] = canon[f.row()][f.col()];
+                }
+
+                size_t* p = uniq.getValue(node);
+                if (p == 0) uniq[node] = j;
+                canon[i][j] = NodeId(i, (p != 0) ? *p : j);
             }
 
             size_t om = (*o.diagram)[i].size();
@@ -346,7 +364,8 @@ public:
             }
         }
 
-        return root_ == equiv[o.root_.row()][o.root_.col()];
+        return canon[root_.row()][root_.col()]
+                == equiv[o.root_.row()][o.root_.col()];
     }
 
     /**
-- 
2.43.0


From 510d2af17914af5720d076211b2f9281d9138c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:29 +0000
Subject: [PATCH 08/15] fix: make self-assignment of MyHashTable safe

---
 include/tdzdd/util/MyHashTable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/MyHashTable.hpp b/include/tdzdd/util/MyHashTable.hpp
index 1a1e8e9..84a54a0 100644
--- a/include/tdzdd/util/MyHashTable.hpp
+++ b/include/tdzdd/util/MyHashTable.hpp
@@ -195,6 +195,7 @@ public:
     }
 
     MyHashTable& operator=(MyHashTable const& o) {
+        if (this == &o) return *this;
         initialize(o.tableSize_);
         for (const_iterator t = o.begin(); t != o.end(); ++t) {
             add(*t);
-- 
2.43.0


From 900d9fcebaa3d80da68ef0f487d3c8af7df00060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:29 +0000
Subject: [PATCH 09/15] fix: make self-assignment of MyVector safe

---
 include/tdzdd/util/MyVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index d62d228..7377c10 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -97,6 +97,7 @@ public:
     }
 
     MyVector& operator=(MyVector const& o) {
+        if (this == &o) return *this;
         resize(0);
         reserve(o.size_);
         size_ = o.size_;
-- 
2.43.0


From f17026faf887d004b0a1662436b528e1ec60e65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:44 +0000
Subject: [PATCH 10/15] fix: erase the requested elements in MyVector::erase

---
 include/tdzdd/util/MyVector.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index 7377c10..bda311d 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -275,8 +275,8 @@ public:
         assert(array_ <= first && first <= last && last <= array_ + size_);
         Size newSize = size_ - (last - first);
 
-        for (Size i = first - array_; i < newSize; ++i) {
-            array_[i] = last[i];
+        for (T* p = first; last < array_ + size_; ++p, ++last) {
+            *p = *last;
         }
 
         while (newSize < size_) {
@@ -487,8 +487,7 @@ public:
      */
     iterator erase(iterator pos) {
         assert(begin() <= pos && pos < end());
-        std::memmove(pos, pos + 1, end() - pos - 1);
-        return pos;
+        return erase(pos, pos + 1);
     }
 
     /**
-- 
2.43.0


From 7248fde93c7cadc1b5eaec1d8814624619438031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:02 +0000
Subject: [PATCH 11/15] fix: do not allocate for an empty std::vector in
 MyVector's converting constructor

---
 include/tdzdd/util/MyVector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index bda311d..462e1fb 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -109,7 +109,8 @@ public:
 
     template<typename U>
     MyVector(std::vector<U> const& o)
-            : capacity_(o.size()), size_(o.size()), array_(allocate(capacity_)) {
+            : capacity_(o.size()), size_(o.size()),
+              array_(capacity_ ? allocate(capacity_) : 0) {
         for (Size i = 0; i < size_; ++i) {
             new (array_ + i) T(o[i]);
         }
-- 
2.43.0


From d3dc0549e385ac66f5088f10119fb36570b8a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:25 +0000
Subject: [PATCH 12/15] fix: keep a block of regular size in MemoryPool::reuse

---
 include/tdzdd/util/MemoryPool.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/MemoryPool.hpp b/include/tdzdd/util/MemoryPool.hpp
index ccc4947..b1c7f20 100644
--- a/include/tdzdd/util/MemoryPool.hpp
+++ b/include/tdzdd/util/MemoryPool.hpp
@@ -101,10 +101,13 @@ public:
     }
 
     void reuse() {
-        if (blockList == 0) return;
+        if (nextUnit >= BLOCK_UNITS) { // the first block may not be a regular one
+            clear();
+            return;
+        }
         while (blockList->next != 0) {
-            Unit* block = blockList;
-            blockList = blockList->next;
+            Unit* block = blockList->next;
+            blockList->next = block->next;
             delete[] block;
         }
         nextUnit = 1;
-- 
2.43.0


From f6fcb9527a012432779e8dc234e397aa6bc2d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:40 +0000
Subject: [PATCH 13/15] fix: construct the target when MyVector<MemoryPool>
 moves an element and leave the source empty

---
 include/tdzdd/util/MemoryPool.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tdzdd/util/MemoryPool.hpp b/include/tdzdd/util/MemoryPool.hpp
index b1c7f20..f3491ad 100644
--- a/include/tdzdd/util/MemoryPool.hpp
+++ b/include/tdzdd/util/MemoryPool.hpp
@@ -81,6 +81,7 @@ public:
         blockList = o.blockList;
         nextUnit = o.nextUnit;
         o.blockList = 0;
+        o.nextUnit = BLOCK_UNITS;
     }
 
     virtual ~MemoryPool() {
@@ -235,7 +236,9 @@ typedef MyVector<MemoryPool> MemoryPools;
 template<>
 inline void MyVector<MemoryPool>::moveElement(MemoryPool& from,
         MemoryPool& to) {
+    new (&to) MemoryPool();
     to.moveFrom(from);
+    from.~MemoryPool();
 }
 
 } // namespace tdzdd
-- 
2.43.0


From b6b2c443fa77940da1d7713c849caaf70644e765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:07 +0000
Subject: [PATCH 14/15] fix: print terminal and lower-level roots in
 DdStructure::dumpSapporo

---
 include/tdzdd/DdStructure.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/DdStructure.hpp b/include/tdzdd/DdStructure.hpp
index e557ef6..1c341ea 100644
--- a/include/tdzdd/DdStructure.hpp
+++ b/include/tdzdd/DdStructure.hpp
@@ -730,6 +730,7 @@ public:
 
         DataTable<size_t> nodeId(diagram->numRows());
         size_t k = 0;
+        size_t rootId = 0;
 
         for (int i = 1; i <= n; ++i) {
             size_t const m = (*diagram)[i].size();
@@ -739,6 +740,7 @@ public:
             for (size_t j = 0; j < m; ++j, ++p) {
                 k += 2;
                 nodeId[i][j] = k;
+                if (root_ == NodeId(i, j)) rootId = k;
                 os << k << " " << i;
 
                 for (int c = 0; c <= 1; ++c) {
@@ -763,7 +765,15 @@ public:
             }
         }
 
-        os << nodeId[root_.row()][root_.col()] << "\n";
+        if (root_ == 0) {
+            os << "F\n";
+        }
+        else if (root_ == 1) {
+            os << "T\n";
+        }
+        else {
+            os << rootId << "\n";
+        }
         assert(k == l * 2);
     }
 };
-- 
2.43.0


From 1b174c2b692cb64fbd4bf3454b722247355bfc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:43 +0000
Subject: [PATCH 15/15] fix: avoid overflow of the distance from a negative
 minimum in IntRange::contains

---
 include/tdzdd/util/IntSubset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/util/IntSubset.hpp b/include/tdzdd/util/IntSubset.hpp
index d4038a8..ce40759 100644
--- a/include/tdzdd/util/IntSubset.hpp
+++ b/include/tdzdd/util/IntSubset.hpp
@@ -55,7 +55,7 @@ public:
 
     bool contains(int x) const {
         if (x < min || max < x) return false;
-        return (x - min) % step == 0;
+        return ((long long) x - min) % step == 0;
     }
 
     int lowerBound() const {
-- 
2.43.0

