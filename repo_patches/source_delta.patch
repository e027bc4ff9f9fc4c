From 2b19c79e78ebdca00df0d56c97c16b141e7e62a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 001/212] fix: Deque copy constructor must not claim heap
 capacity for its static buffer

---
 geomc/Deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 928156e..6411574 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -90,7 +90,7 @@ public:
     /// Construct a new circular buffer containing copies of all the items in `other`.
     Deque(const Deque<T,N>& other):
             _data((other._size > N) ? (new storage_t[other._capacity]) : _buf),
-            _capacity(std::max(other._capacity, N)),
+            _capacity((other._size > N) ? other._capacity : N),
             _head(0),
             _size(other._size)
     {
-- 
2.43.0


From 5e20f3d543ee454b256509fd89c985716b8cd24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 002/212] fix: Deque push of one of its own elements must
 survive reallocation

---
 geomc/Deque.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 6411574..0dc21bf 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -261,7 +261,15 @@ public:
     /// Add an element to the end of the buffer.
     template <typename U> // templated so that we can deduce and collapse lvalues
     T& push_back(U&& t) {
-        reserve(_size + 1);
+        if (_size + 1 > _capacity) {
+            // `t` might be one of our own elements; secure it before reallocating
+            T tmp(std::forward<U>(t));
+            reserve(_size + 1);
+            T* p = item(_size);
+            new (p) T(std::move(tmp));
+            _size += 1;
+            return *p;
+        }
         T* p = item(_size);
         // placement new, using move semantics if applicable:
         new (p) T(std::forward<U>(t));
@@ -277,7 +285,17 @@ public:
      */
     template <typename U> // templated so that we can deduce and collapse lvalues
     T& push_front(U&& t) {
-        reserve(_size + 1);
+        if (_size + 1 > _capacity) {
+            // `t` might be one of our own elements; secure it before reallocating
+            T tmp(std::forward<U>(t));
+            reserve(_size + 1);
+            const index_t m = capacity();
+            _head = (_head + m - 1) % m;
+            T* p = get() + _head;
+            new (p) T(std::move(tmp));
+            _size += 1;
+            return *p;
+        }
         const index_t n = capacity();
         _head = (_head + n - 1) % n;
         T* place = get() + _head;
-- 
2.43.0


From d380da08c5147435e21981a1053ce9c302adc32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 003/212] fix: Deque self-move-assignment must not destroy its
 own elements

---
 geomc/Deque.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 0dc21bf..ee8c92a 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -165,6 +165,7 @@ public:
     
     /// Move the contents of `other` to this buffer
     Deque& operator=(Deque&& other) {
+        if (this == &other) return *this;
         // destroy all our stuff
         for (index_t i = 0; i < _size; ++i) {
             item(i)->~T();
-- 
2.43.0


From 0d60f777aa0ed74e0275cc852ca8de9940550e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 004/212] fix: Deque comparison operators must be usable on
 const objects

---
 geomc/Deque.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index ee8c92a..94e7b5b 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -232,7 +232,7 @@ public:
      *
      * Two Deques are equal iff they contain equal elements in equal order.
      */
-    bool operator==(const Deque<T, N>& other) {
+    bool operator==(const Deque<T, N>& other) const {
         if (this == &other)       return true;  // literally the same object
         if (_size != other._size) return false; // different number of items; unequal
         for (index_t i = 0; i < _size; ++i) {
@@ -242,7 +242,7 @@ public:
     }
     
     /// Inequality operator.
-    bool operator!=(const Deque<T, N>& other) {
+    bool operator!=(const Deque<T, N>& other) const {
         return not ((*this) == other);
     }
     
-- 
2.43.0


From c0c444d05336677b796e0998dacdc364a135aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 005/212] fix: SmallStorage reallocation must move only the
 live elements

---
 geomc/SmallStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 0adb2ce..e79e776 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -51,7 +51,7 @@ private:
             size_t new_capacity = std::max(n, _capacity * 2);
             storage_t* new_data = new storage_t[new_capacity];
             T* src = begin();
-            for (size_t i = 0; i < n; ++i) {
+            for (size_t i = 0; i < _size; ++i) {
                 new (new_data + i) T{std::move(src[i])};
                 src[i].~T(); // destroy the source
             }
-- 
2.43.0


From 53b866081ac74f569ff1377193c92a8e6a99d50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 006/212] fix: SmallStorage move constructor must empty a
 source that used its inline buffer

---
 geomc/SmallStorage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index e79e776..d442f07 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -149,6 +149,7 @@ public:
                 new (_data + i) T {std::move(src[i])};
                 src[i].~T(); // destroy the source
             }
+            other._size = 0;
         } else {
             // array was stolen.
             // empty the other container
-- 
2.43.0


From 9b4e7bb068ddf6a48fbf487af3bdcd216995af6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 007/212] fix: SmallStorage self-move-assignment must not
 destroy its own elements

---
 geomc/SmallStorage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index d442f07..5191e79 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -169,6 +169,7 @@ public:
     
     /// Move the contents of `other` into this array.
     SmallStorage<T,N>& operator=(SmallStorage<T,N>&& other) {
+        if (&other == this) return *this; // no self-move
         _destroy(_data, _size);
         // if we have allocated storage, free it. we're going to clobber
         if (_capacity > N) delete [] _data;
-- 
2.43.0


From 3c58168e9615f1c33cda0e52a2aa0bbb93b2a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 008/212] fix: SmallStorage push_back of one of its own
 elements must survive reallocation

---
 geomc/SmallStorage.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 5191e79..dae85a0 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -235,6 +235,15 @@ public:
     
     /// Add a copy of the given item to the end of the array, increasing its size by 1.
     T& push_back(const T& item) {
+        if (_size == _capacity) {
+            // `item` might be one of our own elements; secure it before reallocating
+            T tmp {item};
+            _ensure_capacity(_size + 1);
+            T* dst = reinterpret_cast<T*>(_data + _size);
+            new (dst) T {std::move(tmp)};
+            _size += 1;
+            return *dst;
+        }
         _ensure_capacity(_size + 1);
         T* place = reinterpret_cast<T*>(_data + _size);
         new (place) T {item};
-- 
2.43.0


From bad06d77aee192af354010d03a9e94f4d1a6f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 009/212] fix: UniqueStorage self-move-assignment must not free
 its own array

---
 geomc/Storage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/Storage.h b/geomc/Storage.h
index c0d7be2..24d2ad0 100644
--- a/geomc/Storage.h
+++ b/geomc/Storage.h
@@ -283,6 +283,7 @@ struct UniqueStorage<T, DYNAMIC_DIM> {
 
 #if __cplusplus >= 201103L
     UniqueStorage& operator=(UniqueStorage<T,0>&& other) {
+        if (&other == this) return *this;
         if (data) delete[] data;
         data = other.data;
         sz = other.sz;
-- 
2.43.0


From 367dce8d559fe106a7bcaf3eaef3875be9217252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 010/212] fix: GenericStorage list construction must work for
 shared dynamic storage

---
 geomc/Storage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Storage.h b/geomc/Storage.h
index 24d2ad0..f9bb06d 100644
--- a/geomc/Storage.h
+++ b/geomc/Storage.h
@@ -406,7 +406,7 @@ struct GenericStorage : public Storage<T,N> {
     GenericStorage(index_t n):type(n) {}
     
     GenericStorage(std::initializer_list<T> list):type(list.size()) {
-        std::copy(list.begin(), list.end(), type::data);
+        std::copy(list.begin(), list.end(), type::get());
     }
 
 #ifdef PARSING_DOXYGEN
@@ -452,7 +452,7 @@ struct GenericStorage<T,N,STORAGE_UNIQUE> : public UniqueStorage<T,N> {
     GenericStorage(index_t n):type(n) {}
     
     GenericStorage(std::initializer_list<T> list):type(list.size()) {
-        std::copy(list.begin(), list.end(), type::data);
+        std::copy(list.begin(), list.end(), type::get());
     }
 
 };
-- 
2.43.0


From 43e847cb664c6afb9660d575fd9a0f18c6c5f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 011/212] fix: Tree successor search must start to the right of
 the subtree, not inside it

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 4928a47..df704ac 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -862,7 +862,7 @@ protected:
             NodeRef off_end_child = ancestor->child_last; 
             if (ancestor->n_children > 0) ++off_end_child;
             // look for a populated node to the right of us
-            for (NodeRef c = child; c != off_end_child; ++c) {
+            for (NodeRef c = std::next(child); c != off_end_child; ++c) {
                 if (c->n_children > 0) {
                     successor = c->child_first;
                     break;
@@ -889,7 +889,7 @@ protected:
                 node = parent, parent = node->parent) {
             if (parent->n_children != 0) {
                 NodeRef end_c = parent->child_last; ++end_c;
-                for (NodeRef c = node; c != end_c; ++c) {
+                for (NodeRef c = std::next(node); c != end_c; ++c) {
                     if (c->n_items > 0) {
                         return c->items_first;
                     }
-- 
2.43.0


From 030b23c62fbd02059a9dfd21ef07aa53c3a86177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 012/212] fix: Tree edge items of ancestors must come from
 their outermost non-empty children

---
 geomc/Tree.h | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index df704ac..2848b53 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -359,36 +359,24 @@ protected:
             ItemRef new_last,
             index_t delta_items) {
         
-        NodeRef prev_child = _nodes.end();
-        NodeRef n = leaf;
-        
-        ItemRef old_first = n->items_first;
-        ItemRef old_last  = n->items_last;
-        
         // update ancestors' item count and boundary items
-        while (n != _nodes.end()) {
+        for (NodeRef n = leaf; n != _nodes.end(); n = n->parent) {
             n->n_items += delta_items;
             
             if (n->n_items == 0) {
                 n->items_first = n->items_last = _items.end();
+            } else if (n == leaf) {
+                n->items_first = new_first;
+                n->items_last  = new_last;
             } else {
-                // If we ascended from an edge node, that node certainly
-                // controls (or used to control) our edge item. 
-                // But it might have also controlled our edge item if the 
-                // edge sibling doesn't have any items. In this case,
-                // its previous edge item will also be ours.
-                if (n->child_first == prev_child or 
-                        n->items_first == old_first) {
-                    n->items_first = new_first;
-                }
-                if (n->child_last == prev_child or
-                        n->items_last == old_last) {
-                    n->items_last = new_last;
-                }
+                // the edge items belong to the outermost children having any items
+                NodeRef first = n->child_first;
+                NodeRef last  = n->child_last;
+                while (first->n_items == 0) ++first;
+                while (last->n_items  == 0) --last;
+                n->items_first = first->items_first;
+                n->items_last  = last->items_last;
             }
-            
-            prev_child = n;
-            n = n->parent;
         }
     }
     
-- 
2.43.0


From 4474ad8db63283cf574f42783097b739dee8e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 013/212] fix: Tree node insertion must not dereference the
 off-end node

---
 geomc/Tree.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 2848b53..44b9b19 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -998,7 +998,8 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (n->parent != p and n != this->end()._root) return this->end();
+        if (n != this->end()._root and
+            (n == this->_storage->_nodes.end() or n->parent != p)) return this->end();
         
         // set the insert point for empty nodes
         if (parent_childless) {
@@ -1079,7 +1080,8 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (n->parent != p and this->end()._root != n) return this->end();
+        if (n != this->end()._root and
+            (n == this->_storage->_nodes.end() or n->parent != p)) return this->end();
         if (i_begin == i_end)                          return this->end();
         
         // set the insert point for empty nodes
-- 
2.43.0


From a322bdba7b1dbbf91de5458ad4b3b6edaab46944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 014/212] fix: Tree::insert_child_nodes must compile

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 44b9b19..8fc4c94 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1093,7 +1093,7 @@ public:
         // todo: this->_storage->_nodes.reserve(n_items);
         NodeRef prev_end_node  = this->end()._root;
         NodeRef first_new_node = this->_storage->_nodes.insert(
-            n, base_t::Node(this->_storage, p, *(i_begin++)));
+            n, typename base_t::Node(this->_storage, p, *(i_begin++)));
         NodeRef last_new_node  = first_new_node;
         
         // transfer ownership of the parent's items to the first child.
@@ -1109,7 +1109,7 @@ public:
         index_t ct = 1;
         for (NodeItemIterator i = i_begin; i != i_end; ++i, ++ct) {
             last_new_node = this->_storage->_nodes.insert(
-                n, base_t::Node(this->_storage, p, *i));
+                n, typename base_t::Node(this->_storage, p, *i));
         }
         
         // adjust child endpoints if necessary
-- 
2.43.0


From 1b49cac56b46e99238ff177f067707446d5d40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 015/212] fix: Tree::insert_items must compile

---
 geomc/Tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 8fc4c94..16e00b2 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1242,7 +1242,7 @@ public:
     template <typename LeafItemIterator>
     item_iterator insert_items(
             const item_iterator& insert_before,
-            const LeafItemIterator  begin_item,
+                  LeafItemIterator  begin_item,
             const LeafItemIterator& end_item,
             index_t* new_item_count=nullptr) const {
         // todo: it would be great if we could protect against the user
@@ -1260,8 +1260,8 @@ public:
         // retrieve parent and insert point
         NodeRef n = this->_root;
         ItemRef insert_pt = insert_before;
-        if (n.n_items == 0) {
-            insert_pt = item_successor(n);
+        if (n->n_items == 0) {
+            insert_pt = this->item_successor(n);
         }
         
         // insert the first item
-- 
2.43.0


From a9070be057fd829cea64ce23d16ce95e1a88e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 016/212] fix: Tree item erasure must compile and keep the
 node's last item

---
 geomc/Tree.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 16e00b2..7858229 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1478,8 +1478,8 @@ public:
             // this is a linear check; if we *knew* we were the parent, the
             // entire operation would be log(n). laaaaame.
             bool found = false;
-            for (item_iterator i = n->items_begin(); 
-                    i != n->items_end(); 
+            for (item_iterator i = this->items_begin(); 
+                    i != this->items_end(); 
                     ++i) {
                 if (i == item) {
                     found = true;
@@ -1488,20 +1488,22 @@ public:
             }
             
             if (found) {
+                const bool was_first = (item == n->items_first);
+                const bool was_last  = (item == n->items_last);
                 ItemRef next_item = this->_storage->_items.erase(item);
                 ItemRef prev_item = next_item; --prev_item;
                 
                 // figure out the new begin / end items
                 ItemRef new_begin, new_end;
-                if (item == n->items_first) {
+                if (was_first) {
                     new_begin = next_item;
                 } else {
                     new_begin = n->items_first;
                 }
-                if (item == n->items_last) {
+                if (was_last) {
                     new_end = prev_item;
                 } else {
-                    new_end = prev_item;
+                    new_end = n->items_last;
                 }
                 
                 this->_storage->update_boundary_items(
-- 
2.43.0


From fd049408545b1547e31007a477f0ec2ee863adec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 017/212] fix: Tree::clear must not advance an erased iterator

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 7858229..968d0df 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1536,8 +1536,8 @@ public:
             // delete the items
             ItemRef next_item;
             index_t n_deleted = 0;
-            for (next_item = n->items_first; next_item != endpt; ++next_item) {
-                this->_storage->_items.erase(next_item);
+            for (next_item = n->items_first; next_item != endpt; ) {
+                next_item = this->_storage->_items.erase(next_item);
                 ++n_deleted;
             }
             ItemRef prev_item = next_item; --prev_item;
-- 
2.43.0


From 45b90c9a405d0ae84166b64141097240b6152435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 018/212] fix: Tree child erasure must return end() when the
 last child is removed

---
 geomc/Tree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 968d0df..25a4e82 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1587,6 +1587,7 @@ public:
         }
         
         if (success) *success = true;
+        if (this->_root->n_children == 0) return this->end();
         return self_t(next_node, this->_storage);
     }
     
-- 
2.43.0


From 26d0d79c4850494a403f9027260dc8bbd24724b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 019/212] fix: Tree range constructor must count the items it
 copies

---
 geomc/Tree.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 25a4e82..a2066c5 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -203,8 +203,9 @@ public:
         
         // assign items to root
         node->items_first = _items.begin();
-        node->items_last  = _items.end(); --(node->items_last);
-        node->n_items     = _nodes.size();
+        node->items_last  = _items.end();
+        if (not _items.empty()) --(node->items_last);
+        node->n_items     = _items.size();
     }
     
     
-- 
2.43.0


From 925abea6a38d693fa7db9124fa73da240e6136bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 020/212] fix: Tree copy must rebuild every node's references

---
 geomc/Tree.h | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index a2066c5..4c692d2 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -343,10 +343,9 @@ protected:
     
     inline void recalculate_tree() {
         NodeRef n = _nodes.begin();
+        n->parent      = _nodes.end();
         n->child_first = std::next(n);
-        n->child_last  = _nodes.end(); --(n->child_last);
         n->items_first = _items.begin();
-        n->items_last  = _items.end(); --(n->items_last);
         root().recalculate_references();
     }
     
@@ -1635,13 +1634,13 @@ protected:
         // next unassigned leaf item:
         ItemRef begin_items = this->_root->items_first;
         // last / most recent assigned leaf item in the list: 
-        ItemRef last_item   = begin_items; --last_item;
-        NodeRef end_child   = this->node_successor(this->_root);
+        ItemRef last_item   = begin_items;
         
         // in essence we "build" the tree by simply taking ownership of 
-        // the nodes/items that already exist. we walk over the nodes in 
-        // tree order, which means that child nodes are taken in order too.
-        for (NodeRef node = this->_root; node != end_child; ) {
+        // the nodes/items that already exist. we walk over the nodes
+        // depth-first, which is the order in which both the groups of 
+        // siblings and the items are stored.
+        for (NodeRef node = this->_root; ; ) {
             node->child_first = node->child_last = 
                 (node->n_children > 0) ? begin_child : this->_storage->_nodes.end();
             node->items_first = node->items_last = 
@@ -1669,17 +1668,17 @@ protected:
                     // move the item "free space"
                     begin_items = last_item = node->items_last; ++begin_items;
                 }
-                    
-                // fixup the items_end along the right edge of this subtree.
-                NodeRef descendent = node;
-                for (NodeRef ancestor = node->parent;
-                        ancestor != this->_root;
-                        descendent = ancestor, ancestor = ancestor->parent) {
-                    if (ancestor->n_items > 0) ancestor->items_last = last_item;
+                
+                // done populating this subtree. ascend from all the subtrees 
+                // which are now complete, and fix up the end of their items.
+                while (node != this->_root and node == node->parent->child_last) {
+                    node = node->parent;
+                    if (node->n_items > 0) node->items_last = last_item;
                 }
+                if (node == this->_root) break;
                 
-                // done populating this tree. populate the next sibling tree.
-                node = this->node_successor(node);
+                // populate the next sibling tree.
+                ++node;
             }
         }
     }
-- 
2.43.0


From 6dc0c824dc0a039ced32d2dff845a06f609f0a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 021/212] fix: Tree move must re-point the off-end references
 at its own storage

---
 geomc/Tree.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 4c692d2..fefce91 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -184,8 +184,13 @@ public:
     }
     
     
-    /// Default move constructor.
-    Tree(Tree<NodeItem, LeafItem>&& other) = default;
+    /// Move constructor.
+    Tree(Tree<NodeItem, LeafItem>&& other):
+            _nodes(std::move(other._nodes)),
+            _items(std::move(other._items)) {
+        // off-end references must point to our own storage
+        recalculate_tree();
+    }
     
     
     /**
-- 
2.43.0


From 676b3d499b1fbea314ebe3c84bfdbeed5d83a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 022/212] fix: Tree::find_parent must search exactly the
 subtree

---
 geomc/Tree.h | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index fefce91..cd413e1 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -749,8 +749,10 @@ public:
      * If `i` is not in the subtree under this node, then return `end()`.
      */
     self_t find_parent(const const_item_iterator& i) const {
-        NodeRef subtree_last = node_successor(_root);
-        for (NodeRef n = _root; n != subtree_last; ++n) {
+        // visit this node, and then its (contiguous) descendents:
+        NodeRef subtree_last = (_root->n_children > 0) ? node_successor(_root) : std::next(_root);
+        for (NodeRef n = _root; n != subtree_last; 
+                n = (n == _root and _root->n_children > 0) ? _root->child_first : std::next(n)) {
             if (n->n_children == 0 and n->n_items > 0) {
                 ItemRef end_item = n->items_last; ++end_item;
                 for (ItemRef j = n->items_first; j != end_item; ++j) {
@@ -777,30 +779,32 @@ public:
      */
     template <bool BoundingFn(const NodeItem&, const LeafItem&)>
     self_t find_parent(const const_item_iterator& i) const {
-        NodeRef cur_root     = _root;
-        NodeRef subtree_last = node_successor(_root);
-        while (cur_root != subtree_last) {
+        NodeRef cur_root = _root;
+        while (true) {
             if (BoundingFn(cur_root->data, *i)) {
                 // cur_root may contain `i`
                 if (cur_root->n_children > 0) {
                     // recurse
                     cur_root = cur_root->child_first;
-                } else {
+                    continue;
+                } else if (cur_root->n_items > 0) {
                     // look for item
                     ItemRef end_item = cur_root->items_last; ++end_item;
                     for (ItemRef j = cur_root->items_first; j != end_item; ++j) {
                         // found it
                         if (j == i) return self_t(cur_root, _storage);
                     }
-                    // our current node is a leaf, so there is no subtree to jump over.
-                    ++cur_root;
                 }
-            } else {
-                // check next sibling
-                cur_root = node_successor(cur_root);
             }
+            // nothing further here. ascend from all the last children,
+            // and check the next sibling.
+            while (cur_root != _root and cur_root == cur_root->parent->child_last) {
+                cur_root = cur_root->parent;
+            }
+            if (cur_root == _root) break;
+            ++cur_root;
         }
-        return this->end();;
+        return this->end();
     }
     
     
-- 
2.43.0


From 453f0626fb9694333ac1d4905ba8b022907c420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 023/212] fix: Tree subtree_begin must compile

---
 geomc/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index cd413e1..4381f6c 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -708,7 +708,7 @@ public:
      * nodes in this subtree, beginning with the first child of this node.
      */
     inline self_t subtree_begin() const {
-        return _root->child_first;
+        return self_t(_root->child_first, _storage);
     }
     
     
-- 
2.43.0


From 83d468c4315af664c84ad9a3e1639dede4b43bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 024/212] fix: Tree subtree range of a childless node must be
 empty

---
 geomc/Tree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 4381f6c..a864d9f 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -717,7 +717,8 @@ public:
      * below this node.
      */
     inline self_t subtree_end() const {
-        return self_t(this->node_successor(_root), _storage);
+        // an empty range starts (and ends) at the global off-end node
+        return self_t((_root->n_children > 0) ? this->node_successor(_root) : _root->child_last, _storage);
     }
     
     
-- 
2.43.0


From 3b0ca573f80d82b3964215f68893ef1312efbe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 025/212] fix: Tree queries must not stop where the root's
 end() coincides with a grandchild

---
 geomc/Tree.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index a864d9f..b153639 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -502,6 +502,7 @@ public:
         Key        _key;
         BoundingFn _bound;
         TestFn     _test;
+        bool       _done = false;
         
     public:
         
@@ -517,18 +518,21 @@ public:
         
         /// Return true if this iterator points to the subtree at `other`.
         bool operator==(const I& other) const {
-            return other == _item;
+            // note: `_root.end()` may coincide with a node inside the subtree
+            return (other == _root.end()) ? _done : (not _done and other == _item);
         }
         
         /// Return true if this iterator does not point to the subtree at `other`.
         bool operator!=(const I& other) const {
-            return other != _item;
+            return not (*this == other);
         }
         
         /// Find the next result at or beyond the Subtree `other`.
         QueryIterator& operator=(const I& other) {
             _item = other;
+            _done = false;
             find_result();
+            return *this;
         }
     
     private:
@@ -537,20 +541,24 @@ public:
             if (_item.node_count() > 0 and _bound(_item, _key)) {
                 // descend into tree
                 _item = _item.begin();
-            } else if (_item == _root) {
-                _item = _root.end();
             } else {
                 // nothing further for us here. pop back out.
                 // while item is the last child of its parent, ascend:
-                while (_item._root == _item.parent()._root->child_last and _item.parent() != _root) {
+                while (_item != _root and _item._root == _item.parent()._root->child_last) {
                     _item = _item.parent();
                 }
-                ++_item;
+                if (_item == _root) {
+                    _item = _root.end();
+                    _done = true;
+                } else {
+                    ++_item;
+                }
             }
         }
         
         void find_result() {
-            while (_item != _root.end() and _item != _item.tree().end() and not _test(_item, _key)) {
+            if (_item == _item.tree().end()) _done = true;
+            while (not _done and not _test(_item, _key)) {
                 next_candidate();
             }
         }
@@ -563,7 +571,7 @@ public:
         }
         
         bool equal(const QueryIterator& other) const {
-            return _item == other._item;
+            return _done == other._done and _item == other._item;
         }
         
         const I& dereference() const {
-- 
2.43.0


From ff9715964b61c18eb0ee030737c8003c52f9b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 026/212] fix: const access to a Tree must compile

---
 geomc/Tree.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index b153639..5d8fc05 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -243,7 +243,8 @@ public:
     
     /// Get a const subtree iterator to the root of this tree.
     inline ConstSubtree<NodeItem, LeafItem> root() const {
-        return ConstSubtree<NodeItem, LeafItem>(_nodes.begin(), this);
+        Tree<NodeItem, LeafItem>* self = const_cast<Tree<NodeItem, LeafItem>*>(this);
+        return ConstSubtree<NodeItem, LeafItem>(self->_nodes.begin(), self);
     }
     
     
@@ -279,7 +280,8 @@ public:
      * in sibling-contiguous order.
      */
     ConstSubtree<NodeItem, LeafItem> end() const {
-        return ConstSubtree<NodeItem, LeafItem>(_nodes.end(), this);
+        Tree<NodeItem, LeafItem>* self = const_cast<Tree<NodeItem, LeafItem>*>(this);
+        return ConstSubtree<NodeItem, LeafItem>(self->_nodes.end(), self);
     }
     
     
@@ -409,10 +411,7 @@ protected:
     typedef typename Storage::ItemRef ItemRef;
     typedef typename Storage::ItemRef ConstItemRef;
     typedef typename Storage::Node    Node;
-    typedef typename std::conditional<
-            Const,
-            const Storage*,
-            Storage*>::type           StorageRef;
+    typedef Storage*                  StorageRef;
     
     
     StorageRef _storage;
@@ -925,6 +924,9 @@ protected:
     // curiously recurring pattern is weird :[
     ConstSubtree(const base_t& other):base_t(other) {}
     
+    ConstSubtree(const typename base_t::NodeRef& root, typename base_t::StorageRef storage):
+        base_t(root, storage) {}
+    
     ConstSubtree() {}
     
 public:
@@ -959,6 +961,7 @@ protected:
     using typename base_t::StorageRef;
     
     friend class SubtreeBase<NodeItem, LeafItem, false>;
+    friend class ConstSubtree<NodeItem, LeafItem>;
     friend class Tree<NodeItem, LeafItem>;
     
     // allow myself to construct myself.
-- 
2.43.0


From 52c2350c090f65b8f0404f746ba85855e553b3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 027/212] fix: GridIterator::operator-- wraps to the
 (inclusive) upper bound

---
 geomc/shape/GridIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 8452fa8..b4b4fd2 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -145,7 +145,7 @@ private:
         for (index_t i = dim_first;
                 i != dim_end and --(pt[i]) < region.lo[i];
                 i += dim_increment) {
-            if (i != dim_last) pt[i] = region.hi[i] - 1;
+            if (i != dim_last) pt[i] = region.hi[i];
         }
     }
     
-- 
2.43.0


From 5a65446e4603550bcbca2949c0ef38720d404353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 028/212] fix: GridIterator::advance is relative to the current
 point and region origin

---
 geomc/shape/GridIterator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index b4b4fd2..2692312 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -154,9 +154,12 @@ private:
         point_t dim  = region.dimensions();
         index_t vol  = region.volume();
         
+        // offset from the beginning of the grid
+        n += begin().distance_to(*this);
+        
         for (index_t i = dim_last; i != dim_first - dim_increment; i -= dim_increment) {
             vol     = vol / dim[i];
-            dest[i] = n / vol;
+            dest[i] = region.lo[i] + n / vol;
             n       = n % vol;
         }
         
-- 
2.43.0


From 349d8445da5edb84144bb4d3cb77e1963e625cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 029/212] fix: GridIterator<T,1> upper bound is exclusive;
 begin() keeps its order

---
 geomc/shape/GridIterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 2692312..f32e13d 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -209,7 +209,7 @@ class GridIterator<T,1,Order> :
 
 public:
 
-    static const ArrayOrder order;
+    static constexpr ArrayOrder order = Order;
     typedef typename PointType<T,1>::point_t point_t;
     
     const Rect<T,1> region;
@@ -219,11 +219,11 @@ public:
             region(r),
             pt(region.lo) {}
     GridIterator(const point_t &lo, const point_t &hi):
-            region(lo, hi + 1),
+            region(lo, hi - 1),
             pt(lo) {}
     
     inline GridIterator<T,1,Order> begin() const {
-        GridIterator<T,1> other = *this;
+        GridIterator<T,1,Order> other = *this;
         other.pt = region.lo;
         return other;
     }
-- 
2.43.0


From d63d3670ef7617cbe66af0e60535c8e5195c3726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 030/212] fix: GridIterator over an empty region has begin() ==
 end()

---
 geomc/shape/GridIterator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index f32e13d..55a6fc2 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -121,7 +121,7 @@ public:
         other.pt = region.lo;
         // one beyond the highest cell. i.e. first cell in
         // (N-1)D block just beyond the end of this region. 
-        other.pt[dim_last] = region.hi[dim_last] + 1;
+        if (not region.is_empty()) other.pt[dim_last] = region.hi[dim_last] + 1;
         return other;
     }
     
@@ -230,7 +230,8 @@ public:
     
     inline GridIterator<T,1,Order> end() const {
         GridIterator<T,1,Order> other = *this;
-        other.pt = region.hi + 1;
+        if (not region.is_empty()) other.pt = region.hi + 1;
+        else other.pt = region.lo;
         return other;
     }
     
-- 
2.43.0


From d98b998be09ec5df5ecafce77ae259053b315dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 031/212] fix: Rect | point does not modify its operand; make
 it const

---
 geomc/shape/Rect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index cb2192a..9776ebf 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -300,7 +300,7 @@ public:
      *
      * @return A Rect fully containing `this` and the point `p`.
      */
-    Rect<T,N> operator|(const point_t& p) {
+    Rect<T,N> operator|(const point_t& p) const {
         // point union
         return Rect<T,N>(
             std::min(lo, p),
-- 
2.43.0


From 19975ef159a57dd50c0019c35722c0f23113ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 032/212] fix: dimensional slicing of a Rect yields corners of
 the sliced dimension

---
 geomc/shape/Rect.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 9776ebf..b1ac8e1 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -244,8 +244,8 @@ public:
         const T* lo_p = ptype::iterator(lo);
         const T* hi_p = ptype::iterator(hi);
         Rect<T,M> out {
-            point_t{ lo_p[indices]...},
-            point_t{ hi_p[indices]...}
+            typename Rect<T,M>::point_t{ lo_p[indices]...},
+            typename Rect<T,M>::point_t{ hi_p[indices]...}
         };
         return out;
     }
@@ -265,8 +265,8 @@ public:
         const T* lo_p = ptype::iterator(lo);
         const T* hi_p = ptype::iterator(hi);
         Rect<T,M> out {
-            point_t{ lo_p[indices]...},
-            point_t{ hi_p[indices]...}
+            typename Rect<T,M>::point_t{ lo_p[indices]...},
+            typename Rect<T,M>::point_t{ hi_p[indices]...}
         };
         return out;
     }
-- 
2.43.0


From e38c1f5d8ce32a1751ec3136c924bcd26a31949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 033/212] fix: Rect::abs() compiles on const rects

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index b1ac8e1..0f545d9 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -723,8 +723,8 @@ public:
      */
     Rect<T,N> abs() const {
         Rect<T,N> out;
-        T* lo_i     = ptype::iterator(lo);
-        T* hi_i     = ptype::iterator(hi);
+        const T* lo_i = ptype::iterator(lo);
+        const T* hi_i = ptype::iterator(hi);
         T* out_lo_i = ptype::iterator(out.lo);
         T* out_hi_i = ptype::iterator(out.hi);
         for (index_t i = 0; i < N; ++i) {
-- 
2.43.0


From 9028701f48d8cc9918c699d6655b2d430eda492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 034/212] fix: Rect::intersects honors inclusive boundaries and
 empty boxes

---
 geomc/shape/Rect.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 0f545d9..d823f03 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -626,8 +626,9 @@ public:
     bool intersects(const Rect<T,N>& box) const {
         for (index_t axis = 0; axis < N; axis++) {
             // disjoint on this axis?
-            if (ptype::iterator(hi)[axis]     <= ptype::iterator(box.lo)[axis] or
-                ptype::iterator(box.hi)[axis] <= ptype::iterator(lo)[axis]) {
+            T max_lo = std::max(ptype::iterator(lo)[axis], ptype::iterator(box.lo)[axis]);
+            T min_hi = std::min(ptype::iterator(hi)[axis], ptype::iterator(box.hi)[axis]);
+            if (min_hi < max_lo) {
                 return false;
             }
         }
-- 
2.43.0


From ccdc8c81020b45333a5df0df814c57878cb17118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 035/212] fix: Rect::contains(Rect) is true for every empty box

---
 geomc/shape/Rect.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index d823f03..2d41749 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -598,6 +598,8 @@ public:
      * `this`.
      */
     bool contains(const Rect<T,N>& box) const {
+        // every rect contains the empty rect
+        if (box.is_empty()) return true;
         for (index_t axis = 0; axis < N; axis++) {
             // inner box must not protrude along any axis
             if (ptype::iterator(box.lo)[axis] < ptype::iterator(lo)[axis] or
-- 
2.43.0


From 0d57319171ff6ae2838850067571591ae363578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 036/212] fix: center of an integer Rect is consistent with
 from_center() at negative coordinates

---
 geomc/shape/Rect.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 2d41749..f0e19b5 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -656,7 +656,12 @@ public:
      * @return The center point of this region.
      */
     point_t center() const {
-        return (hi + lo + endpoint_measure) / 2;
+        if constexpr (std::is_integral<T>::value) {
+            // do not round toward the origin
+            return lo + dimensions() / 2;
+        } else {
+            return (hi + lo) / 2;
+        }
     }
 
     /**
-- 
2.43.0


From 819259cfd40caf45faf2fdf18d3cd22b12511c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 037/212] fix: Rect::set_dimensions sets the requested size for
 integer rects

---
 geomc/shape/Rect.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index f0e19b5..e641353 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -695,11 +695,8 @@ public:
         // [0|1|2|3|4]
         // [0|1|2|3]
 
-        // xxx fixme for int types
         dim = std::abs(dim);
-        point_t diff = (dim - dimensions()) / 2;
-        lo = lo - diff;
-        hi = hi + diff;
+        *this = Rect<T,N>::from_center(center(), dim);
     }
 
     /**
-- 
2.43.0


From 3b73fbb737a3e59823ff7d7c260d8a7159c354f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 038/212] fix: Rect::project finds the nearest point on the
 surface, not the nearest corner

---
 geomc/shape/Rect.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index e641353..9c121a8 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -856,12 +856,19 @@ public:
         T* p_i = ptype::iterator(p);
         const T* lo_i = ptype::iterator(lo);
         const T* hi_i = ptype::iterator(hi);
+        // if p is outside, the nearest boundary point is the nearest point.
+        if (not contains(p)) return clip(p);
+        // otherwise, move to the closest face.
+        index_t axis = 0;
+        T nearest = lo_i[0];
+        T dist = p_i[0] - lo_i[0];
         for (index_t i = 0; i < N; ++i) {
-            // for each coordinate, find the extrumum which is closest to p
-            T d_lo = std::abs(p_i[i] - lo_i[i]);
-            T d_hi = std::abs(p_i[i] - hi_i[i]);
-            p_i[i] = (d_lo < d_hi) ? lo_i[i] : hi_i[i];
+            T d_lo = p_i[i] - lo_i[i];
+            T d_hi = hi_i[i] - p_i[i];
+            if (d_lo < dist) { axis = i; dist = d_lo; nearest = lo_i[i]; }
+            if (d_hi < dist) { axis = i; dist = d_hi; nearest = hi_i[i]; }
         }
+        p_i[axis] = nearest;
         return p;
     }
 
@@ -870,7 +877,7 @@ public:
      */
     T sdf(point_t p) const {
         T sign = contains(p) ? -1 : 1;
-        return sign * project(p).dist(p);
+        return sign * ptype::mag(project(p) - p);
     }
 
     /**
-- 
2.43.0


From 7decb275c4682e5cf55ad6c88d95a79abab243ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 039/212] fix: Rect::contact_vector does not truncate the
 displacement to an integer

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 9c121a8..1b0034a 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -923,8 +923,8 @@ public:
         point_t v;
         bool overlap[N];
         bool all_overlap = true;
-        index_t shortest_axis;
-        index_t shortest_val = std::numeric_limits<T>::max();
+        index_t shortest_axis = 0;
+        T shortest_val = std::numeric_limits<T>::max();
         for (index_t i = 0; i < N; ++i) {
             auto r0 = this->axis(i);
             auto r1 = other.axis(i);
-- 
2.43.0


From 2317b6a8c631c3ede16224376f408fcc539c9d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:09 +0000
Subject: [PATCH 040/212] fix: GridIterator::advance compiles for any integer
 coordinate type

---
 geomc/shape/GridIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 55a6fc2..79c4fb8 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -150,7 +150,7 @@ private:
     }
     
     inline void advance(index_t n) {
-        point_t dest = point_t(0);
+        point_t dest = region.lo;
         point_t dim  = region.dimensions();
         index_t vol  = region.volume();
         
-- 
2.43.0


From 37fdea9e667753d42d082ed21bcf90dc7c27f84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 041/212] fix: SimpleMatrix::set_identity for nonsquare
 matrices

---
 geomc/linalg/mtxtypes/SimpleMatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index 0ab80ab..ec3ca36 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -500,9 +500,9 @@ public:
      */
     void set_identity() {
         set_zero();
-        T *last = data_end();
-        for (T *p = data_begin(); p < last; p += cols() + 1) {
-            *p = 1;
+        const index_t diag = std::min(rows(), cols());
+        for (index_t i = 0; i < diag; ++i) {
+            (*this)(i, i) = 1;
         }
     }
     
-- 
2.43.0


From 9f0c75bcbaa83bf25628a6b2656b4d6ca7dd326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 042/212] fix: generic matrix row iterator can be compared and
 dereferenced

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index 38ae378..d953e9b 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -208,7 +208,7 @@ private:
     
     friend class boost::iterator_core_access;
     
-    inline bool equal(const MtxColIterator<M,RefType>& other) const {
+    inline bool equal(const MtxRowIterator<M,RefType>& other) const {
         return (other.mtx == mtx) and (other.pt == pt);
     }
     
@@ -230,7 +230,7 @@ private:
     
     inline RefType dereference() const {
         // always make sure this is calling the function with the right const-ness!
-        return mtx->get(pt.row, pt.col);
+        return (*mtx)(pt.row, pt.col);
     }
     
 };
-- 
2.43.0


From da53056005946c864f791db4358ee2c00733219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 043/212] fix: matrix assignment proxy can be read

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index d953e9b..be3b2e2 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -275,7 +275,7 @@ public:
     
     // TODO: this should be a reference?
     inline operator T() const {
-        return ((const M*)m)->get(row, col);
+        return (*(const M*)m)(row, col);
     }
     
 };
-- 
2.43.0


From d0b8672304255fcd79e65db4cd62bed0ec89458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 044/212] fix: mtx_aliases_storage detects partially
 overlapping storage

---
 geomc/linalg/Matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 90a6336..d1c4c0e 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -321,11 +321,11 @@ inline bool mtx_aliases_storage(const Ma& a, const Mb& b) {
         for (index_t j = 0; j < b.storage_token_count(); j++) {
             auto& tka = buf_a[i];
             auto& tkb = buf_b[j];
-            if (tka.lo < tkb.lo or tka.hi > tkb.hi) return false;
+            if (tka.lo == tkb.lo or (tka.lo < tkb.hi and tkb.lo < tka.hi)) return true;
         }
     }
     
-    return true;
+    return false;
 }
 
 template <typename T, index_t N>
-- 
2.43.0


From f7aa193324231f560d7effec8e82c7ef66f045ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 045/212] fix: do not transpose twice when source and
 destination are aliased

---
 geomc/linalg/Matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index d1c4c0e..944565a 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -670,6 +670,7 @@ transpose(Md *into, const Mx &m) {
         return_t buf = detail::_ImplMtxInstance<return_t>::instance(m.cols(), m.rows());
         txpose_t::transpose(&buf, m);
         detail::_mtxcopy(into, buf);
+        return;
     }
 #endif
     txpose_t::transpose(into, m);
-- 
2.43.0


From e158648f2ed29a7570005bd7999fee2a6734fdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 046/212] fix: mtx * diag with a wide diagonal matrix does not
 read out of range

---
 geomc/linalg/mtxdetail/MatrixMult.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 573c911..b8963d7 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -93,9 +93,11 @@ public:
     template <typename Md>
     static void mul(Md* d, const Mat& a, const geom::DiagMatrix<T,M,N>& b) {
         const T* dp = b.diagonal_begin();
-        for (index_t c = 0; c < b.cols(); ++c, ++dp) {
+        const index_t diag = std::min(b.rows(), b.cols());
+        for (index_t c = 0; c < b.cols(); ++c) {
             for (index_t r = 0; r < a.rows(); ++r) {
-                d->set(r,c, (*dp) * a(r,c));
+                // columns beyond the end of the diagonal are zero
+                d->set(r,c, c < diag ? dp[c] * a(r,c) : 0);
             }
         }
     }
-- 
2.43.0


From eb1341e3173bf46082ae540c3afd7188e67e6127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 047/212] fix: diag * mtx multiplies the elements of the right
 operand

---
 geomc/linalg/mtxdetail/MatrixMult.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index b8963d7..476caec 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -115,9 +115,11 @@ public:
     template <typename Md>
     static void mul(Md* d, const geom::DiagMatrix<T,M,N>& a, const Mat& b) {
         const T* dp = a.diagonal_begin();
-        for (index_t r = 0; r < b.rows(); ++r, ++dp) {
-            for (index_t c = 0; c < a.cols(); ++c) {
-                d->set(r,c, (*dp) * a(r,c));
+        const index_t diag = std::min(a.rows(), a.cols());
+        for (index_t r = 0; r < a.rows(); ++r) {
+            for (index_t c = 0; c < b.cols(); ++c) {
+                // rows beyond the end of the diagonal are zero
+                d->set(r,c, r < diag ? dp[r] * b(r,c) : 0);
             }
         }
     }
-- 
2.43.0


From 000f41bde401d3b0975789aba1abfb0fc6d7c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 048/212] fix: product of two diagonal matrices compiles and
 stays in range when nonsquare

---
 geomc/linalg/mtxdetail/MatrixMult.h | 30 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 476caec..c0e399b 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -136,20 +136,24 @@ public:
     // diagonal destination matrix
     template <typename U, index_t I, index_t J>
     static void mul(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t diag = std::min(std::min(a.rows(), a.cols()), b.cols());
         T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb, ++pc) {
             *pc = (*pa) * (*pb);
         }
+        // any longer diagonal of the destination is zero
+        std::fill(pc, d->diagonal_end(), 0);
     }
     
     template <typename U, index_t I, index_t J>
     static void mul_acc(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t diag = std::min(std::min(a.rows(), a.cols()), b.cols());
         T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb, ++pc) {
             *pc += (*pa) * (*pb);
         }
     }
@@ -157,19 +161,21 @@ public:
     // arbitrary destination matrix
     template <typename Md>
     static void mul(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t diag = std::min(std::min(a.rows(), a.cols()), b.cols());
         d->set_zero();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb) {
             d->set(i, i, (*pa) * (*pb));
         }
     }
     
     template <typename Md>
     static void mul_acc(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t diag = std::min(std::min(a.rows(), a.cols()), b.cols());
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb) {
             d->set(i, i, (*d)(i,i) + (*pa) * (*pb));
         }
     }
-- 
2.43.0


From d07f4b50d557a7b485412b392ec3d9f0a590ec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 049/212] fix: product of permutations written to a dense
 matrix is not transposed

---
 geomc/linalg/mtxdetail/MatrixMult.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index c0e399b..4ece1c0 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -342,13 +342,13 @@ public:
     typedef geom::PermutationMatrix<((M < N) ? M : N)> return_t;
     
     template <typename Md>
-    static void mul(Md* d, const Ma& a, const Ma& b) {
+    static void mul(Md* d, const Ma& a, const Mb& b) {
         const index_t* d_a = a.getRowDestinations();
         const index_t* d_b = b.getRowDestinations();
         
         d->set_zero();
         for (index_t i = 0; i < a.rows(); i++) {
-            d->set(i, d_a[d_b[i]], 1);
+            d->set(d_a[d_b[i]], i, 1);
         }
     }
     
-- 
2.43.0


From 043f342c3597278b64e6a7d68e5ea4278b6eb448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 050/212] fix: product of permutations does not keep the stale
 sign of its destination

---
 geomc/linalg/mtxdetail/MatrixMult.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 4ece1c0..81d7a23 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -368,6 +368,7 @@ public:
             d_rd[i] = s_b[s_a[i]];
             d_cd[i] = d_a[d_b[i]];
         }
+        d->_sign = 0; // not computed yet
     }
 };
 
-- 
2.43.0


From b32c54aac075fa53a6fe46bad5886b9e0f8885df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 051/212] fix: sign of a permutation with cycles; a cycle of
 even length is odd

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index f066627..c601649 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -492,6 +492,8 @@ index_t permutation_sign(index_t* p, index_t n) {
             // ...and then proceed
             cur = next;
         } while (cur != i);
+        // a cycle of length k is the product of k - 1 transpositions.
+        odd = not odd;
     }
     return odd ? -1 : 1;
 }
-- 
2.43.0


From 1d5fc811b8c1ee9663c002a5447b02759bffc8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 052/212] fix: PermutationMatrix::sign() returns the newly
 computed sign

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index c601649..82b6c51 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -155,9 +155,8 @@ public:
             for (index_t i = 0; i < n; i++) {
                 row_dst[row_src[i]] = i;
             }
-        } else {
-            return _sign;
         }
+        return _sign;
     }
     
     
-- 
2.43.0


From 1878c379a007d224d265a1ae022bafec03e446e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 053/212] fix: swapping a row with itself does not change the
 sign of a permutation

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index 82b6c51..897c4d8 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -339,7 +339,7 @@ public:
         dst[src[b]] = a;
         // swap a/b
         std::swap(src[a], src[b]);
-        _sign *= -1;
+        if (a != b) _sign *= -1;
     }
     
     /**
@@ -358,7 +358,7 @@ public:
         src[dst[b]] = a;
         // swap a/b
         std::swap(dst[a], dst[b]);
-        _sign *= -1;
+        if (a != b) _sign *= -1;
     }
     
     /**
-- 
2.43.0


From 7ba9fc0db30bff4c4ee2fac157a91aafb7c0a655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 054/212] fix: permutation_apply resets the whole map to the
 identity

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index 897c4d8..18a1acf 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -463,6 +463,7 @@ void permutation_apply(index_t* p, index_t n, RandomAccessIterator v) {
             // (we only need to do this if we might encounter the cycle again)
             p[cur] = cur;
         } while (next != i);
+        p[i] = i;
     }
 }
 
-- 
2.43.0


From 18fa72f4084f59a73f1d85a234d43c6384dacc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 055/212] fix: det4x4 compiles

---
 geomc/linalg/mtxdetail/MatrixDet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index fe052b9..3e229ee 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -86,7 +86,7 @@ inline T det3x3(
 /// Compute the 4x4 matrix determinant.
 template <typename T>
 T det4x4(const T m[16]) {
-    const detail::_m4x4<T>& v = *reinterpret_cast<detail::_m4x4<T>*>(m);
+    const detail::_m4x4<T>& v = *reinterpret_cast<const detail::_m4x4<T>*>(m);
     return 
         diff_of_products(
             v.a, det3x3(v.f, v.g, v.h,  v.j, v.k, v.l,  v.n, v.o, v.p),
-- 
2.43.0


From 67fa8416a632d621d123239ca062f264f24b7461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 056/212] fix: determinant of an N x N matrix is the product of
 U's diagonal

---
 geomc/linalg/mtxdetail/MatrixDet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index 3e229ee..fa9e17f 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -121,7 +121,7 @@ T det_destructive(T* m, index_t n) {
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonals, if A is triangular
     for (index_t i = 0; i < n; ++i) {
-        d *= m[i * i];
+        d *= m[i * n + i];
     }
     return d;
 }
@@ -146,7 +146,7 @@ T detNxN(const T* m, index_t n) {
     // and det(AB) = det(A) * det(B). So if M = LU,
     // because `L` has unit diagonal, det(M) is just the diagonal elements of `U`.
     for (index_t i = 0; i < n; ++i) {
-        d *= buf[i * i];
+        d *= buf[i * n + i];
     }
     return d;
 }
-- 
2.43.0


From d82b76225ae122ee15c4158dd7f894460aac87fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 057/212] fix: det() of dynamic and large matrices compiles

---
 geomc/linalg/mtxdetail/MatrixDet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index fa9e17f..15f6656 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -166,7 +166,7 @@ template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
 inline T det(const SimpleMatrix<T, M, N, Lyt, P>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     if (M * N == 0 and m.rows() != m.cols()) return 0;
-    return det(m.data_begin(), m.rows());
+    return detNxN(m.data_begin(), m.rows());
 }
 
 // 2x2 matrix det
-- 
2.43.0


From cbc19c933152a6dc1a3e3ec45041fb08716d480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 058/212] fix: det() of a diagonal matrix compiles

---
 geomc/linalg/mtxdetail/MatrixDet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index 15f6656..76f1f33 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -202,7 +202,7 @@ T det(const DiagMatrix<T,N,M>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     T d = 1;
     if (m.rows() != m.cols()) return 0;
-    for (T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
+    for (const T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
         d *= *a;
     }
     return d;
-- 
2.43.0


From 485bfd9e18fb0e754931b84b8e9f390c98d7aa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 059/212] fix: inverse of a diagonal matrix compiles

---
 geomc/linalg/mtxdetail/MatrixInv.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixInv.h b/geomc/linalg/mtxdetail/MatrixInv.h
index 2aa16ee..abe8fd8 100644
--- a/geomc/linalg/mtxdetail/MatrixInv.h
+++ b/geomc/linalg/mtxdetail/MatrixInv.h
@@ -378,7 +378,7 @@ public:
     template <typename Md>
     static bool inv(Md *into, const geom::DiagMatrix<T,M,N>& m) {
         into->set_zero(); // for newly allocated matrices, redundant. oh well.
-        T *p = m.diagonal_begin();
+        const T *p = m.diagonal_begin();
         for (index_t i = 0; p != m.diagonal_end(); ++i, ++p) {
             T elem = *p;
             if (elem == 0) return false;
@@ -386,6 +386,19 @@ public:
         }
         return true;
     }
+    
+    // diagonal destination; may be the same matrix.
+    template <typename S, index_t J, index_t K>
+    static bool inv(geom::DiagMatrix<S,J,K> *into, const geom::DiagMatrix<T,M,N>& m) {
+        const T *p = m.diagonal_begin();
+        S *d = into->diagonal_begin();
+        for (; p != m.diagonal_end(); ++p, ++d) {
+            T elem = *p;
+            if (elem == 0) return false;
+            *d = 1/elem;
+        }
+        return true;
+    }
 };
 
 // inverse of permutation matrix is its transpose.
-- 
2.43.0


From bd2eeb94751344deb47347d8be35af613ea72298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 060/212] fix: LU decomposition considers the last pivot
 (singular and tall matrices)

---
 geomc/linalg/LUDecomp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/LUDecomp.h b/geomc/linalg/LUDecomp.h
index 54689af..e25a486 100644
--- a/geomc/linalg/LUDecomp.h
+++ b/geomc/linalg/LUDecomp.h
@@ -116,7 +116,7 @@ index_t decomp_lup(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
@@ -202,7 +202,7 @@ index_t decomp_plu(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
-- 
2.43.0


From cdd139c2a19349b51e91d298232f3c63b871acf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 061/212] fix: cholesky() of a column-major matrix

---
 geomc/linalg/Cholesky.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/Cholesky.h b/geomc/linalg/Cholesky.h
index cfa7b18..9ce6903 100644
--- a/geomc/linalg/Cholesky.h
+++ b/geomc/linalg/Cholesky.h
@@ -85,7 +85,7 @@ cholesky(SimpleMatrix<T,M,N,Lyt,P>* m) {
     if (M * N == 0 and m->rows() != m->cols()) {
         return false;
     }
-    return cholesky<T,true>(m->begin(), m->rows());
+    return cholesky<T,Lyt == ROW_MAJOR>(m->data_begin(), m->rows());
 }
 #endif
 
-- 
2.43.0


From 6a4640757d38928fb47141955a964b1b68b7ebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 062/212] fix: det() of large or permutation matrices and inv()
 of dynamic matrices do not compile (SmallStorage has no get())

---
 geomc/linalg/mtxdetail/MatrixDet.h | 4 ++--
 geomc/linalg/mtxdetail/MatrixInv.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index 76f1f33..e0b193c 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -140,7 +140,7 @@ template <typename T>
 T detNxN(const T* m, index_t n) {
     bool odd;
     SmallStorage<T, 64> buf(m, n * n);
-    if (decomp_plu(buf.get(), n, n, nullptr, &odd) != 0) return 0;
+    if (decomp_plu(buf.begin(), n, n, nullptr, &odd) != 0) return 0;
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonal elems, if A is triangular
     // and det(AB) = det(A) * det(B). So if M = LU,
@@ -224,7 +224,7 @@ template <index_t N>
 inline index_t det(const PermutationMatrix<N>& m) {
     index_t n = m.rows();
     SmallStorage<index_t,(N > 32 ? N : 32)> p(m.getRowSources(), n);
-    return permutation_sign(p.get(), n);
+    return permutation_sign(p.begin(), n);
 }
 
 /// @} // ingroup matrix
diff --git a/geomc/linalg/mtxdetail/MatrixInv.h b/geomc/linalg/mtxdetail/MatrixInv.h
index abe8fd8..d821050 100644
--- a/geomc/linalg/mtxdetail/MatrixInv.h
+++ b/geomc/linalg/mtxdetail/MatrixInv.h
@@ -270,7 +270,7 @@ struct _ImplMtxInvRaw<T,0> {
                 // make a buffer with the same layout as the output
                 static constexpr MatrixLayout Lyt = Md::Layout;
                 SmallStorage<T,64> buf(n * n); // try not to alloc
-                WrapperMatrix<T,0,0,Lyt> bmx(buf.get(), n, n);
+                WrapperMatrix<T,0,0,Lyt> bmx(buf.begin(), n, n);
                 detail::_mtxcopy(&bmx, m);
                 return geom::invNxN(into->data_begin(), bmx.data_begin(), n);
         }
-- 
2.43.0


From 574b968bc18693705e17deb72b33d1581abf5131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 063/212] fix: operator[] of diagonal and permutation matrices
 does not compile

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index be3b2e2..c0fb937 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -314,7 +314,7 @@ struct _ImplMtxReftype {
 
 template <typename M, typename T>
 struct _ImplMtxConstRowtype {
-    typedef MtxRowIterator<M, const T> const_row_iterator;
+    typedef MtxRowIterator<const M, const T> const_row_iterator;
 };
 
 template <typename M, typename T>
-- 
2.43.0


From edf9bdc8534e41b0927d910dc26c521c5b8aa777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 064/212] fix: as_transpose() does not compile for any matrix

---
 geomc/linalg/mtxtypes/SimpleMatrix.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index ec3ca36..dc22ebe 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -489,10 +489,15 @@ public:
     SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED> 
     as_transpose() const {
 #endif
-        return 
-        SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED>(
-            data.get(), cols(), rows()
-        );
+        typedef SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED> Mt;
+        T* p = const_cast<T*>(data.get());
+        if constexpr (M != DYNAMIC_DIM and N != DYNAMIC_DIM) {
+            return Mt(p);
+        } else if constexpr (M == DYNAMIC_DIM and N == DYNAMIC_DIM) {
+            return Mt(p, cols(), rows());
+        } else {
+            return Mt(p, (M == DYNAMIC_DIM) ? rows() : cols());
+        }
     }
     
     /**
-- 
2.43.0


From f44bd5abf559ecb4416cd950bffdcc39bdb03eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 065/212] fix: copy and transpose between static and dynamic
 permutation matrices do not compile

---
 geomc/linalg/mtxdetail/MatrixCopy.h         | 4 ++--
 geomc/linalg/mtxdetail/MatrixFunctionImpl.h | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixCopy.h b/geomc/linalg/mtxdetail/MatrixCopy.h
index cf99651..eb80029 100644
--- a/geomc/linalg/mtxdetail/MatrixCopy.h
+++ b/geomc/linalg/mtxdetail/MatrixCopy.h
@@ -21,8 +21,8 @@ namespace detail {
     }
 
 
-    template <index_t N>
-    inline void _mtxcopy(geom::PermutationMatrix<N>* into, const geom::PermutationMatrix<N>& src) {
+    template <index_t N, index_t M>
+    inline void _mtxcopy(geom::PermutationMatrix<N>* into, const geom::PermutationMatrix<M>& src) {
         into->setRowSources(src.getRowSources());
     }
 
diff --git a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
index 5239760..d1a4915 100644
--- a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
+++ b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
@@ -175,8 +175,7 @@ struct _ImplMtxTxpose<geom::PermutationMatrix<N> > {
     
     template <index_t L>
     inline static void transpose(geom::PermutationMatrix<L>* d, const geom::PermutationMatrix<N>& m) {
-        *d = m;
-        d->transpose();
+        d->setRowSources(m.getColSources());
     }
 };
 
-- 
2.43.0


From 811b585ad2f4ee5ac9106c467df0da2a0e9a9040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 066/212] fix: diagonal*diagonal and diagonal*permutation
 products are ambiguous and do not compile

---
 geomc/linalg/mtxdetail/MatrixMult.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 81d7a23..14ff582 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -38,6 +38,23 @@ namespace detail {
     >::type
 
 
+// true for the matrix types which have their own multiplication implementations
+template <typename Mt>                struct _IsSpecialMatrix { static constexpr bool val = false; };
+template <typename T, index_t M, index_t N> 
+struct _IsSpecialMatrix<geom::DiagMatrix<T,M,N>>              { static constexpr bool val = true; };
+template <index_t N>
+struct _IsSpecialMatrix<geom::PermutationMatrix<N>>           { static constexpr bool val = true; };
+
+// a matrix that is neither diagonal nor a permutation; again for disambiguation.
+#define REQUIRE_GENERAL_MATRIX_T(Mt) \
+    typename std::enable_if< \
+        std::is_base_of< \
+            geom::detail::MatrixBase<typename Mt::elem_t, Mt::ROWDIM, Mt::COLDIM, typename Mt::recurring_t>, \
+            Mt \
+        >::value and not _IsSpecialMatrix<Mt>::val \
+    >::type
+
+
 /************************************
  * Matrix mult implementations      *
  ************************************/
@@ -84,7 +101,7 @@ public:
 
 // mtx * diag
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_GENERAL_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, Mat::ROWDIM, N> return_t;
@@ -106,7 +123,7 @@ public:
 
 // diag * mtx
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_GENERAL_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, M, Mat::COLDIM> return_t;
-- 
2.43.0


From 8ae38e679d78597a30f635794d026d513c74d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 067/212] fix: mul() of a matrix and a vector into a given
 destination does not compile

---
 geomc/linalg/Matrix.h | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 944565a..71ccd4e 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -333,6 +333,35 @@ inline bool mtx_aliases_storage(const Vec<T,N>& a, const Vec<T,N>& b) {
     return a.begin() == b.begin();
 }
 
+template <typename T, index_t N, typename U, index_t M>
+inline bool mtx_aliases_storage(const Vec<T,N>& a, const Vec<U,M>& b) {
+    const void* a_lo = a.begin();
+    const void* a_hi = a.end();
+    const void* b_lo = b.begin();
+    const void* b_hi = b.end();
+    return a_lo < b_hi and b_lo < a_hi;
+}
+
+template <typename Mx, typename T, index_t N>
+inline typename std::enable_if<detail::IsMatrix<Mx>::val, bool>::type
+mtx_aliases_storage(const Mx& m, const Vec<T,N>& v) {
+    const void* v_lo = v.begin();
+    const void* v_hi = v.end();
+    typename Mx::storagebuffer_t buf = m.get_storage_token_buffer();
+    m.get_storage_tokens(buf.get());
+    for (index_t i = 0; i < m.storage_token_count(); i++) {
+        auto& tk = buf[i];
+        if (tk.lo == v_lo or (tk.lo < v_hi and v_lo < tk.hi)) return true;
+    }
+    return false;
+}
+
+template <typename T, index_t N, typename Mx>
+inline typename std::enable_if<detail::IsMatrix<Mx>::val, bool>::type
+mtx_aliases_storage(const Vec<T,N>& v, const Mx& m) {
+    return mtx_aliases_storage(m, v);
+}
+
 
 /************************************
  * Matrix mul                       *
-- 
2.43.0


From c2092c31a93a9426af4c2499b4b046419310b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 068/212] fix: m *= d with a nonsquare diagonal matrix writes
 outside of m

---
 geomc/linalg/Matrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 71ccd4e..58858d5 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -1081,6 +1081,10 @@ operator*=(Mx& m, const DiagMatrix<T,M,N>& d) {
     if ((Mx::COLDIM == 0 or M == 0) and (m.cols() != d.rows())) {
         throw DimensionMismatchException(m.rows(), m.cols(), d.rows(), d.cols());
     }
+    // the product must have the same shape as `m`
+    if (d.rows() != d.cols()) {
+        throw DimensionMismatchException(m.rows(), m.cols(), d.rows(), d.cols());
+    }
 #endif
     
     // diagonal matrixes don't care if they alias; there is
-- 
2.43.0


From 2ef4a2c768efdb09e4a25c7ac4ba1ca8d69e5155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 069/212] fix: sum of a permutation matrix and another matrix
 is truncated to bool

---
 geomc/linalg/mtxdetail/MatrixArithmetic.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixArithmetic.h b/geomc/linalg/mtxdetail/MatrixArithmetic.h
index da8a99f..fd39e6f 100644
--- a/geomc/linalg/mtxdetail/MatrixArithmetic.h
+++ b/geomc/linalg/mtxdetail/MatrixArithmetic.h
@@ -22,8 +22,7 @@ namespace detail {
 template <typename Ma, typename Mb>
 struct _ImplMatrixAdd {
     
-    //todo: should use decltype(Ma::elem_t + Mb::elem_t)
-    typedef SimpleMatrix<typename Ma::elem_t, 
+    typedef SimpleMatrix<decltype(std::declval<typename Ma::elem_t>() + std::declval<typename Mb::elem_t>()), 
                          Ma::ROWDIM * Mb::COLDIM == 0 ? 0 : Ma::ROWDIM, 
                          Ma::COLDIM * Mb::COLDIM == 0 ? 0 : Ma::COLDIM>
             return_t;
-- 
2.43.0


From 3fb067bed93d185ed30492159fb964b3299721d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 070/212] fix: product of an integer matrix and a real matrix
 is truncated to integers

---
 geomc/linalg/mtxdetail/MatrixMult.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 14ff582..a40dd6e 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -66,8 +66,9 @@ template <typename Ma, typename Mb, typename Enable=void>
 class _ImplMtxMul {
 public:
     
-    //TODO: this should probably use T = decltype(Ma::elem_t * Mb::elem_t)
-    typedef SimpleMatrix<typename Ma::elem_t, Ma::ROWDIM, Mb::COLDIM> return_t;
+    typedef SimpleMatrix<
+        decltype(std::declval<typename Ma::elem_t>() * std::declval<typename Mb::elem_t>()),
+        Ma::ROWDIM, Mb::COLDIM> return_t;
     
     template <typename Md>
     static void mul(Md* d, const Ma& a, const Mb& b) {
-- 
2.43.0


From a64bcda4a68483981d327f2a3e1e99013c14839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 071/212] fix: mul and mul_acc into a mixed dynamic/static
 destination do not check that the operands agree

---
 geomc/linalg/Matrix.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 58858d5..244b817 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -509,6 +509,10 @@ mul(Md *into, const Ma &a, const Mb &b) {
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
     
+    // do the source matrix dimensions agree?
+    if ((A::COLDIM == DYNAMIC_DIM or B::ROWDIM == DYNAMIC_DIM) and A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
     // if neither configuration yields dimension agreement:
     if (not ((Dr::rows(*into) == A::rows(a) and Dr::cols(*into) == B::cols(b)) or
              (Dc::rows(*into) == A::rows(a) and Dc::cols(*into) == B::cols(b))) ) {
@@ -553,6 +557,10 @@ mul_acc(Md *into, const Ma &a, const Mb &b) {
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
     
+    // do the source matrix dimensions agree?
+    if ((A::COLDIM == DYNAMIC_DIM or B::ROWDIM == DYNAMIC_DIM) and A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
     // if neither configuration yields dimension agreement:
     if (not ((Dr::rows(*into) == A::rows(a) and Dr::cols(*into) == B::cols(b)) or
              (Dc::rows(*into) == A::rows(a) and Dc::cols(*into) == B::cols(b))) ) {
-- 
2.43.0


From 9c1a9bd867d3894104e5adef231198437aeba2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 072/212] fix: orthogonal() of independent vectors divides by
 zero when a leading minor vanishes

---
 geomc/linalg/Orthogonal.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Orthogonal.h b/geomc/linalg/Orthogonal.h
index ec11bdf..686679b 100644
--- a/geomc/linalg/Orthogonal.h
+++ b/geomc/linalg/Orthogonal.h
@@ -76,7 +76,8 @@ Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
     std::copy(v0, v0 + N * (N-1), m);
     
     bool parity_swap = false;
-    if (decomp_plu(m, N-1, N, P, &parity_swap) > 0) {
+    // pivot columns; the coordinates of the pivots may be spread over the matrix.
+    if (decomp_lup(m, N-1, N, P, &parity_swap) > 0) {
         // matrix is singular; nullity is > 1. return 0 vector.
         return Vec<T,N>();
     }
@@ -90,7 +91,12 @@ Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
         o[r] /= mx(r,r);
     }
     
-    return o;
+    // undo the column permutation.
+    Vec<T,N> v_out;
+    for (index_t i = 0; i < N; i++) {
+        v_out[P[i]] = o[i];
+    }
+    return v_out;
 }
 
 
-- 
2.43.0


From dfc7d8c9f702b4720bee289583bfe5c57d1f671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 073/212] fix: nullspace() of independent vectors divides by
 zero when a leading minor vanishes

---
 geomc/linalg/Orthogonal.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Orthogonal.h b/geomc/linalg/Orthogonal.h
index 686679b..7b56148 100644
--- a/geomc/linalg/Orthogonal.h
+++ b/geomc/linalg/Orthogonal.h
@@ -144,7 +144,7 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     }
     
     T       m[N * (N-2)]; // <--  N-2 is the max # bases
-    index_t P[N - 2];     //     (N-1 and N cases handled above)
+    index_t P[N];         //     (N-1 and N cases handled above)
             T* n0 = null_basis[0].begin();
     const T* b0 = bases[0].begin();
     
@@ -158,9 +158,9 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     // each new null basis is a column of:
     detail::MxWrap<T,false> X = {n0, N, N - n};
     
-    // get V to row-echelon form
+    // get V to row-echelon form, pivoting columns
     bool parity_swap = false;
-    if (decomp_plu(m, n, N, P, &parity_swap) > 0) return false;
+    if (decomp_lup(m, n, N, P, &parity_swap) > 0) return false;
     
     // foreach null space basis
     for (index_t b = 0; b < N - n; b++) {
@@ -174,6 +174,11 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
             }
             x_i /= V(r, r);
         }
+        // undo the column permutation.
+        Vec<T,N> tmp = null_basis[b];
+        for (index_t i = 0; i < N; i++) {
+            X(P[i], b) = tmp[i];
+        }
     }
     
     return true;
-- 
2.43.0


From 4cf6574833405e8179be8b3d566b882e43c1588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:32 +0000
Subject: [PATCH 074/212] fix: Vec::reflect_about and bounce_on call a
 nonexistent neg()

---
 geomc/linalg/vecdetail/VecBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/VecBase.h b/geomc/linalg/vecdetail/VecBase.h
index 8348580..9eb0a74 100644
--- a/geomc/linalg/vecdetail/VecBase.h
+++ b/geomc/linalg/vecdetail/VecBase.h
@@ -604,7 +604,7 @@ public:
      */
     self_t reflect_about(self_t normal) const {
         normal = normal.unit();
-        return this->neg() + normal * 2 * this->dot(normal);
+        return -(*this) + normal * 2 * this->dot(normal);
     }
 
     /**
-- 
2.43.0


From 514a9b5a7b2d496bc247bdaa774cef5877a8f6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:32 +0000
Subject: [PATCH 075/212] fix: Vec::is_finite_real does not compile

---
 geomc/linalg/vecdetail/Vec2.h | 370 +++++++++++++++++-----------------
 geomc/linalg/vecdetail/Vec3.h |   6 +-
 2 files changed, 188 insertions(+), 188 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 68682b0..64b421c 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -1,185 +1,185 @@
-#pragma once
-
-/*
- * Vec2.h
- *
- *  Created on: May 9, 2009
- *      Author: Tim Babb
- */
-
-#include <cmath>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /** @ingroup linalg
-     *  @brief 2D specialization of vector class.
-     * 
-     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y}     // conventional Euclidean coordinate names
-     *     v.{s,t}     // conventional parameterization coordinate names
-     *     v.{row,col} // matrix coordinate names
-     * 
-     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
-     * `row` all refer to the same element.
-     * 
-     * Take special note that, in accordance with convention, `row` refers to the
-     * vertical position of a matrix element, despite being the first coordinate.
-     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
-     * horizontal coordinate. For this reason it is **inadviseable to interchange 
-     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
-     */
-    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
-
-    public:
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
-        
-        /// @brief (1, 0) vector constant
-        static const Vec<T,2> X_AXIS;
-        /// @brief (0, 1) vector constant
-        static const Vec<T,2> Y_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-        
-        /// Construct vector with both elements set to 0.
-        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
-        
-        /// Construct a vector with both elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
-
-        /// Construct a vector with elements `(x, y)`.
-        constexpr Vec(T x, T y) {
-            detail::VecBase<T,2>::x = x;
-            detail::VecBase<T,2>::y = y;
-        }
-        
-        /// Construct a vector with elements copied from the 2-element array `v`.
-        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
-        
-        /*===========================*
-         * Convenience Arithmetic    *
-         *===========================*/
-        
-        //do not hide these; we want to overload them:
-        using detail::VecCommon< T, 2, Vec<T,2> >::add;
-        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
-        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
-        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
-
-        /// Addition. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> add(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
-        }
-
-        /// Subtraction. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> sub(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
-        }
-
-        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> scale(T sx, T sy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
-        }
-
-        /// Dot product with the vector `(x1, y1)`.
-        inline T dot(T x1, T y1) const {
-            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
-        }
-
-        /// @return A new vector with the X component reflected.
-        inline Vec<T,2> reflected_x() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
-        }
-        
-        /// @return A new vector with the Y component reflected.
-        inline Vec<T,2> reflected_y() const {
-            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
-        }
-
-        /// @return `true` if no elements are an infinity or `NaN`.
-        bool is_finite_real() const {
-            return is_real(detail::VecBase<T,2>::x) and is_real(detail::VecBase<T,2>::y);
-        }
-        
-        /*===========================*
-         * 2D Geometry               *
-         *===========================*/
-
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees counterclockwise.
-         */
-        
-        Vec<T,2> left_perpendicular() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
-        }
-        
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees clockwise.
-         */
-        Vec<T,2> right_perpendicular() const {
-            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
-        }
-
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians`.
-         * @param radians Rotation angle in radians
-         */
-        Vec<T,2> rotated(T radians) const {
-            T sint = std::sin(radians);
-            T cost = std::cos(radians);
-            return Vec<T,2>(cost * this->x - sint * this->y,
-                            sint * this->x + cost * this->y);
-        }
-        
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians` about
-         * the point `center`.
-         * @param center Center of rotation.
-         * @param radians Angle of rotation.
-         */
-        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
-            return center + (((*this) - center).rotate(radians));
-        }
-
-        /**
-         * @return The polar coordinates `(r, angle)` for this cartesian point,
-         * with `angle` in radians.
-         */
-        inline Vec<T,2> to_polar() const {
-            return Vec<T,2>(this->mag(), angle());
-        }
-        
-        /**
-         * @return The cartesian `(x, y)` coordinates of this point interpreted
-         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
-         */
-        inline Vec<T,2> from_polar() const {
-            Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
-            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
-            return v;
-        }
-
-        /**
-         * @return The angle in radians to this vector from the x-axis, between 0 
-         * and `2 * pi`.
-         */
-        inline T angle() const {
-            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
-            if (theta < 0) theta += 2 * M_PI;
-            return theta;
-        }
-
-    }; //end Vec2 definition
-    
-    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
-    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
-
-} //end namespace geom
+#pragma once
+
+/*
+ * Vec2.h
+ *
+ *  Created on: May 9, 2009
+ *      Author: Tim Babb
+ */
+
+#include <cmath>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /** @ingroup linalg
+     *  @brief 2D specialization of vector class.
+     * 
+     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y}     // conventional Euclidean coordinate names
+     *     v.{s,t}     // conventional parameterization coordinate names
+     *     v.{row,col} // matrix coordinate names
+     * 
+     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
+     * `row` all refer to the same element.
+     * 
+     * Take special note that, in accordance with convention, `row` refers to the
+     * vertical position of a matrix element, despite being the first coordinate.
+     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
+     * horizontal coordinate. For this reason it is **inadviseable to interchange 
+     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
+     */
+    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
+
+    public:
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
+        
+        /// @brief (1, 0) vector constant
+        static const Vec<T,2> X_AXIS;
+        /// @brief (0, 1) vector constant
+        static const Vec<T,2> Y_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+        
+        /// Construct vector with both elements set to 0.
+        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
+        
+        /// Construct a vector with both elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
+
+        /// Construct a vector with elements `(x, y)`.
+        constexpr Vec(T x, T y) {
+            detail::VecBase<T,2>::x = x;
+            detail::VecBase<T,2>::y = y;
+        }
+        
+        /// Construct a vector with elements copied from the 2-element array `v`.
+        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
+        
+        /*===========================*
+         * Convenience Arithmetic    *
+         *===========================*/
+        
+        //do not hide these; we want to overload them:
+        using detail::VecCommon< T, 2, Vec<T,2> >::add;
+        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
+        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
+        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
+
+        /// Addition. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> add(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
+        }
+
+        /// Subtraction. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> sub(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
+        }
+
+        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> scale(T sx, T sy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
+        }
+
+        /// Dot product with the vector `(x1, y1)`.
+        inline T dot(T x1, T y1) const {
+            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
+        }
+
+        /// @return A new vector with the X component reflected.
+        inline Vec<T,2> reflected_x() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
+        }
+        
+        /// @return A new vector with the Y component reflected.
+        inline Vec<T,2> reflected_y() const {
+            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
+        }
+
+        /// @return `true` if no elements are an infinity or `NaN`.
+        bool is_finite_real() const {
+            return detail::is_real(detail::VecBase<T,2>::x) and detail::is_real(detail::VecBase<T,2>::y);
+        }
+        
+        /*===========================*
+         * 2D Geometry               *
+         *===========================*/
+
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees counterclockwise.
+         */
+        
+        Vec<T,2> left_perpendicular() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
+        }
+        
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees clockwise.
+         */
+        Vec<T,2> right_perpendicular() const {
+            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
+        }
+
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians`.
+         * @param radians Rotation angle in radians
+         */
+        Vec<T,2> rotated(T radians) const {
+            T sint = std::sin(radians);
+            T cost = std::cos(radians);
+            return Vec<T,2>(cost * this->x - sint * this->y,
+                            sint * this->x + cost * this->y);
+        }
+        
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians` about
+         * the point `center`.
+         * @param center Center of rotation.
+         * @param radians Angle of rotation.
+         */
+        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
+            return center + (((*this) - center).rotate(radians));
+        }
+
+        /**
+         * @return The polar coordinates `(r, angle)` for this cartesian point,
+         * with `angle` in radians.
+         */
+        inline Vec<T,2> to_polar() const {
+            return Vec<T,2>(this->mag(), angle());
+        }
+        
+        /**
+         * @return The cartesian `(x, y)` coordinates of this point interpreted
+         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
+         */
+        inline Vec<T,2> from_polar() const {
+            Vec<T,2> v;
+            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
+            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
+            return v;
+        }
+
+        /**
+         * @return The angle in radians to this vector from the x-axis, between 0 
+         * and `2 * pi`.
+         */
+        inline T angle() const {
+            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
+            if (theta < 0) theta += 2 * M_PI;
+            return theta;
+        }
+
+    }; //end Vec2 definition
+    
+    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
+    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
+
+} //end namespace geom
diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index ee24996..f2620ba 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -352,9 +352,9 @@ namespace geom {
         
         /// @return `true` if no elements are an infinity or `NaN`.
         bool is_finite_real() const {
-            return is_real(this->x) and
-                   is_real(this->y) and
-                   is_real(this->z);
+            return detail::is_real(this->x) and
+                   detail::is_real(this->y) and
+                   detail::is_real(this->z);
         }
 
     private:
-- 
2.43.0


From d6479a6a42cb4f623500677e0f8e342a6e550c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:32 +0000
Subject: [PATCH 076/212] fix: Vec2 rotate about a center calls a nonexistent
 overload

---
 geomc/linalg/vecdetail/Vec2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 64b421c..ce5dad0 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -145,7 +145,7 @@ namespace geom {
          * @param radians Angle of rotation.
          */
         Vec<T,2> rotate(Vec<T,2> center, T radians) const {
-            return center + (((*this) - center).rotate(radians));
+            return center + (((*this) - center).rotated(radians));
         }
 
         /**
-- 
2.43.0


From 541aab9bbe394f83a9d6765a4fa18839c6a019d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 077/212] fix: Vec2::from_polar takes the angle for the radius

---
 geomc/linalg/vecdetail/Vec2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index ce5dad0..99335c0 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -162,8 +162,8 @@ namespace geom {
          */
         inline Vec<T,2> from_polar() const {
             Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
-            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
+            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
+            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
             return v;
         }
 
-- 
2.43.0


From 5cfa1753ac5f00cdb89394961c7c9dc092cbb0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 078/212] fix: from_rgb, from_argb and from_rgba name a
 nonexistent constant

---
 geomc/linalg/vecdetail/Vec3.h |   6 +-
 geomc/linalg/vecdetail/Vec4.h | 296 +++++++++++++++++-----------------
 2 files changed, 151 insertions(+), 151 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index f2620ba..be99443 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -52,9 +52,9 @@ namespace geom {
      */
     template <typename T> 
     Vec<T,3> from_rgb(int aRGB){
-        T r = ((aRGB & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((aRGB & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T b =  (aRGB & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
+        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
         return Vec<T,3>(r,g,b);
     }
 
diff --git a/geomc/linalg/vecdetail/Vec4.h b/geomc/linalg/vecdetail/Vec4.h
index 2116bac..b5c09ca 100644
--- a/geomc/linalg/vecdetail/Vec4.h
+++ b/geomc/linalg/vecdetail/Vec4.h
@@ -1,148 +1,148 @@
-/*
- * Vec4.h
- *
- *  Created on: Feb 22, 2009
- *      Author: Tim Babb
- */
-
-#ifndef VECTOR4D_H_
-#define VECTOR4D_H_
-
-#include <cctype>
-#include <algorithm>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /*===========================*
-     * Global Functions          *
-     *===========================*/
-
-    template <typename T> const Vec<T,4> from_argb(int aRGB) {
-        T a = ((aRGB & 0xff000000) >> 24) / detail::_RGBChannelConversion<T>::factor;
-        T r = ((aRGB & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((aRGB & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T b =  (aRGB & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
-        return Vec<T,4>(r,g,b,a);
-    }
-
-    template <typename T> const Vec<T,4> from_rgba(int rgba) {
-        T r = ((rgba & 0xff000000) >> 24) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((rgba & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T b = ((rgba & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T a =  (rgba & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
-        return Vec<T,4>(r,g,b,a);
-    }
-
-    /*===========================*
-     * Vector Class              *
-     *===========================*/
-
-    /** @ingroup linalg
-     *  @brief 4D specialization of vector class.
-     * 
-     * `Vec<T,4>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y,z,w} // conventional Euclidean coordinate names
-     *     v.{s,t,u,v} // conventional parameterization coordinate names
-     *     v.{r,g,b,a} // conventional color tuple coordinate names
-     * 
-     * with `x`, `s`, and `r` all referring to the same element.
-     */
-    template <typename T> class Vec<T,4> : public detail::VecCommon< T, 4, Vec<T,4> > {
-    public:
-        
-        /// @brief (1, 0, 0, 0) constant
-        static const Vec<T,4> X_AXIS;
-        /// @brief (0, 1, 0, 0) constant
-        static const Vec<T,4> Y_AXIS;
-        /// @brief (0, 0, 1, 0) constant
-        static const Vec<T,4> Z_AXIS;
-        /// @brief (0, 0, 0, 1) constant
-        static const Vec<T,4> W_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-
-        
-        /// Construct vector with all elements set to 0.
-        constexpr Vec():detail::VecCommon<T, 4, Vec<T,4>>() {}
-        
-        /// Construct a vector with elements `(x, y, z, w)`.
-        constexpr Vec(T x, T y, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{x,y,z,w} {}
-
-        /// Construct a vector with elements copied from the 4-element array `v`.
-        constexpr Vec(const T v[4]):detail::VecCommon<T, 4, Vec<T,4>>(v) {};
-
-        /**
-         * @brief Construct a vector with `(x, y, z)` taken from the 3D vector `xyz`,
-         * and `w` as the final element.
-         */
-        template <typename U>
-        constexpr Vec(Vec<U,3> xyz, T w):detail::VecCommon<T, 4, Vec<T,4>>{
-            xyz.x, xyz.y, xyz.z, w
-        } {}
-        
-        template <typename U>
-        constexpr Vec(Vec<U,2> xy, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{
-            xy.x, xy.y, z, w
-        } {}
-
-        /// Construct a vector with all elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon<T, 4, Vec<T,4>>(a) {}
-        
-        /*===========================*
-         * Arithmetic                *
-         *===========================*/
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,4,Vec<T,4>>::operator==;
-        
-        using detail::VecCommon< T, 4, Vec<T,4> >::add;
-        using detail::VecCommon< T, 4, Vec<T,4> >::sub;
-        using detail::VecCommon< T, 4, Vec<T,4> >::scale;
-        using detail::VecCommon< T, 4, Vec<T,4> >::dot;
-
-        /// @return `(dx, dy, dz, dw)` added with `this`
-        Vec<T,4> add(T dx, T dy, T dz, T dw) const {
-            return Vec<T,4>(detail::VecBase<T,4>::x+dx, 
-                            detail::VecBase<T,4>::y+dy, 
-                            detail::VecBase<T,4>::z+dz, 
-                            detail::VecBase<T,4>::w+dw);
-        }
-        
-        /// @return `(dx, dy, dz, dw)` subtracted from `this`
-        Vec<T,4> sub(T dx, T dy, T dz, T dw) const {
-            return Vec<T,4>(detail::VecBase<T,4>::x-dx, 
-                            detail::VecBase<T,4>::y-dy, 
-                            detail::VecBase<T,4>::z-dz, 
-                            detail::VecBase<T,4>::w-dw);
-        }
-        
-        /// @return Element-wise scaled copy
-        Vec<T,4> scale(T a, T b, T c, T d) const {
-            return Vec<T,4>(a*detail::VecBase<T,4>::x, 
-                            b*detail::VecBase<T,4>::y, 
-                            c*detail::VecBase<T,4>::z, 
-                            d*detail::VecBase<T,4>::w);
-        }
-
-        /// @return Dot product of `this` with the vector `(xx, yy, zz, ww)`
-        T dot(T xx, T yy, T zz, T ww) const {
-            return (detail::VecBase<T,4>::x * xx) + 
-                   (detail::VecBase<T,4>::y * yy) + 
-                   (detail::VecBase<T,4>::z * zz) + 
-                   (detail::VecBase<T,4>::w * ww);
-        }
-        
-    }; //end Vec4 definition
-    
-    template <typename T> const Vec<T,4> Vec<T,4>::X_AXIS = Vec<T,4>(1,0,0,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::Y_AXIS = Vec<T,4>(0,1,0,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::Z_AXIS = Vec<T,4>(0,0,1,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::W_AXIS = Vec<T,4>(0,0,0,1);
-
-} //end namespace geom
-
-#endif /* VECTOR4D_H_ */
+/*
+ * Vec4.h
+ *
+ *  Created on: Feb 22, 2009
+ *      Author: Tim Babb
+ */
+
+#ifndef VECTOR4D_H_
+#define VECTOR4D_H_
+
+#include <cctype>
+#include <algorithm>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /*===========================*
+     * Global Functions          *
+     *===========================*/
+
+    template <typename T> const Vec<T,4> from_argb(int aRGB) {
+        T a = ((aRGB & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
+        return Vec<T,4>(r,g,b,a);
+    }
+
+    template <typename T> const Vec<T,4> from_rgba(int rgba) {
+        T r = ((rgba & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((rgba & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T b = ((rgba & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T a =  (rgba & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
+        return Vec<T,4>(r,g,b,a);
+    }
+
+    /*===========================*
+     * Vector Class              *
+     *===========================*/
+
+    /** @ingroup linalg
+     *  @brief 4D specialization of vector class.
+     * 
+     * `Vec<T,4>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y,z,w} // conventional Euclidean coordinate names
+     *     v.{s,t,u,v} // conventional parameterization coordinate names
+     *     v.{r,g,b,a} // conventional color tuple coordinate names
+     * 
+     * with `x`, `s`, and `r` all referring to the same element.
+     */
+    template <typename T> class Vec<T,4> : public detail::VecCommon< T, 4, Vec<T,4> > {
+    public:
+        
+        /// @brief (1, 0, 0, 0) constant
+        static const Vec<T,4> X_AXIS;
+        /// @brief (0, 1, 0, 0) constant
+        static const Vec<T,4> Y_AXIS;
+        /// @brief (0, 0, 1, 0) constant
+        static const Vec<T,4> Z_AXIS;
+        /// @brief (0, 0, 0, 1) constant
+        static const Vec<T,4> W_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+
+        
+        /// Construct vector with all elements set to 0.
+        constexpr Vec():detail::VecCommon<T, 4, Vec<T,4>>() {}
+        
+        /// Construct a vector with elements `(x, y, z, w)`.
+        constexpr Vec(T x, T y, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{x,y,z,w} {}
+
+        /// Construct a vector with elements copied from the 4-element array `v`.
+        constexpr Vec(const T v[4]):detail::VecCommon<T, 4, Vec<T,4>>(v) {};
+
+        /**
+         * @brief Construct a vector with `(x, y, z)` taken from the 3D vector `xyz`,
+         * and `w` as the final element.
+         */
+        template <typename U>
+        constexpr Vec(Vec<U,3> xyz, T w):detail::VecCommon<T, 4, Vec<T,4>>{
+            xyz.x, xyz.y, xyz.z, w
+        } {}
+        
+        template <typename U>
+        constexpr Vec(Vec<U,2> xy, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{
+            xy.x, xy.y, z, w
+        } {}
+
+        /// Construct a vector with all elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon<T, 4, Vec<T,4>>(a) {}
+        
+        /*===========================*
+         * Arithmetic                *
+         *===========================*/
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,4,Vec<T,4>>::operator==;
+        
+        using detail::VecCommon< T, 4, Vec<T,4> >::add;
+        using detail::VecCommon< T, 4, Vec<T,4> >::sub;
+        using detail::VecCommon< T, 4, Vec<T,4> >::scale;
+        using detail::VecCommon< T, 4, Vec<T,4> >::dot;
+
+        /// @return `(dx, dy, dz, dw)` added with `this`
+        Vec<T,4> add(T dx, T dy, T dz, T dw) const {
+            return Vec<T,4>(detail::VecBase<T,4>::x+dx, 
+                            detail::VecBase<T,4>::y+dy, 
+                            detail::VecBase<T,4>::z+dz, 
+                            detail::VecBase<T,4>::w+dw);
+        }
+        
+        /// @return `(dx, dy, dz, dw)` subtracted from `this`
+        Vec<T,4> sub(T dx, T dy, T dz, T dw) const {
+            return Vec<T,4>(detail::VecBase<T,4>::x-dx, 
+                            detail::VecBase<T,4>::y-dy, 
+                            detail::VecBase<T,4>::z-dz, 
+                            detail::VecBase<T,4>::w-dw);
+        }
+        
+        /// @return Element-wise scaled copy
+        Vec<T,4> scale(T a, T b, T c, T d) const {
+            return Vec<T,4>(a*detail::VecBase<T,4>::x, 
+                            b*detail::VecBase<T,4>::y, 
+                            c*detail::VecBase<T,4>::z, 
+                            d*detail::VecBase<T,4>::w);
+        }
+
+        /// @return Dot product of `this` with the vector `(xx, yy, zz, ww)`
+        T dot(T xx, T yy, T zz, T ww) const {
+            return (detail::VecBase<T,4>::x * xx) + 
+                   (detail::VecBase<T,4>::y * yy) + 
+                   (detail::VecBase<T,4>::z * zz) + 
+                   (detail::VecBase<T,4>::w * ww);
+        }
+        
+    }; //end Vec4 definition
+    
+    template <typename T> const Vec<T,4> Vec<T,4>::X_AXIS = Vec<T,4>(1,0,0,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::Y_AXIS = Vec<T,4>(0,1,0,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::Z_AXIS = Vec<T,4>(0,0,1,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::W_AXIS = Vec<T,4>(0,0,0,1);
+
+} //end namespace geom
+
+#endif /* VECTOR4D_H_ */
-- 
2.43.0


From 721e7ad843f45c4b6b937f23f4e49ca7c19d5138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 079/212] fix: Vec3 rotate about a center moves points off
 their circle

---
 geomc/linalg/vecdetail/Vec3.h | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index be99443..d823e97 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -309,30 +309,8 @@ namespace geom {
          * the axis `(u, v, w)`, and centerpoint `(a, b, c)`.
          */
         Vec<T,3> rotate(T u, T v, T w, T a, T b, T c, T radians){
-            const T& x = this->x;
-            const T& y = this->y;
-            const T& z = this->z;
-            
-            T cc = std::cos(radians);
-            T ss = std::sin(radians);
-            T oneMcos = 1 - cc;
-            
-            T u2 = u * u;
-            T v2 = v * v;
-            T w2 = w * w;
-            T uxvywz = diff_of_products(u, x, v, y) - (w * z);
-            
-            T p0 = sum_of_products(b, v, c, w);
-            T p1 = sum_of_products(a, u, c, w);
-            T p2 = sum_of_products(a, u, b, v);
-            T q0 = diff_of_products(a, v2 + w2, u, p0 - uxvywz);
-            T q1 = diff_of_products(b, u2 + w2, v, p1 - uxvywz);
-            T q2 = diff_of_products(c, u2 + v2, w, p2 - uxvywz);
-            
-            return Vec<T,3>(
-                    q0 * oneMcos + x * cc + (-c*v + b*w - w*y + v*z) * ss,
-                    q1 * oneMcos + y * cc + ( c*u - a*w + w*x - u*z) * ss,
-                    q2 * oneMcos + z * cc + (-b*u + a*v - v*x + u*y) * ss);
+            const Vec<T,3> center(a, b, c);
+            return center + (*this - center).rotate(u, v, w, radians);
         }
         
         /**
-- 
2.43.0


From dc5e3b54afee70785b0d5e74c5ffee5ee9ad2146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 080/212] fix: brace initialization of a Vec with more than 4
 elements does not compile

---
 geomc/linalg/Vec.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/geomc/linalg/Vec.h b/geomc/linalg/Vec.h
index dbaee90..e02176b 100644
--- a/geomc/linalg/Vec.h
+++ b/geomc/linalg/Vec.h
@@ -324,13 +324,14 @@ public:
      * @param items A brace-initializer list.
      */
 #if __cplusplus >= 201103L or PARSING_DOXYGEN
-    Vec(const std::initializer_list<T>& items):
-        detail::VecCommon< T,N,Vec<T,N> >(items.begin())
-    {
-#if __cplusplus >= 201402L
-        // items.size() not constexpr in c++11  D:<
-        static_assert(items.size() == N, "Vector must be initialized with N items");
-#endif
+    Vec(const std::initializer_list<T>& items) {
+        // the size of a function argument is never a constant expression;
+        // missing elements are zero, as in aggregate initialization.
+        std::copy(
+            items.begin(),
+            items.begin() + std::min<size_t>(items.size(), N),
+            this->begin()
+        );
     }
 #endif
     
-- 
2.43.0


From 6bc20c064a44b531540aee64006104e0b67145d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 081/212] fix: Vec3::rotate mixes up coordinates in the z
 component

---
 geomc/linalg/vecdetail/Vec3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index d823e97..fd9bea8 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -277,7 +277,7 @@ namespace geom {
             // (expected to be within 5% of "naïve" performance)
             T p0 = sum_of_products(v, y, w, z);
             T p1 = sum_of_products(u, x, w, z);
-            T p2 = sum_of_products(u, z, v, y);
+            T p2 = sum_of_products(u, x, v, y);
             
             T q0 = diff_of_products(v, z, w, y);
             T q1 = diff_of_products(w, x, u, z);
-- 
2.43.0


From 41748411799fe0b28c007a6068b4c44fc5c3ec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 082/212] fix: Ray::sdf does not compile

---
 geomc/linalg/Ray.h | 316 ++++++++++++++++++++++-----------------------
 1 file changed, 158 insertions(+), 158 deletions(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index 9f9eb6e..b7f8c86 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -1,158 +1,158 @@
-#pragma once
-
-#ifdef GEOMC_USE_STREAMS
-#include <iostream>
-#endif
-
-#include <geomc/linalg/LinalgTypes.h>
-#include <geomc/linalg/Vec.h>
-
-
-namespace geom {
-
-/**
- * @brief Ray class.
- * @tparam T Coordinate type.
- * @tparam N Dimensionality.
- * @ingroup linalg
- */
-template <typename T, index_t N>
-class Ray {
-public:
-    /**
-     * @brief The type of a point with the same dimension as this ray; a `Vec<T,N>`
-     * if `N` is greater than 1; or a `T` if `N` is 1.
-     */
-    typedef typename PointType<T,N>::point_t point_t;
-    /// Origin of ray.
-    point_t origin;
-    /// Direction of ray.
-    point_t direction;
-
-    /*************************
-     * Structors             *
-     *************************/
-    
-    /// Construct a ray through the origin directed along the +x axis.
-    Ray():origin((T)0),direction((T)0) {
-        direction[0] = 1; //x axis
-    }
-    
-    /// Construct a ray through the point `o` with direction `v`.
-    Ray(point_t o, point_t v):
-        origin(o),
-        direction(v) {}
-
-    /*************************
-     * Operators             *
-     *************************/
-
-    /// Return a ray pointing in the opposite direction.
-    Ray<T,N> operator-() const {
-        return {origin, -direction};
-    }
-
-    /*************************
-     * Public Methods        *
-     *************************/
-    
-    /// Change the dimensionality of this Ray.
-    template <index_t M>
-    inline Ray<T,M> resized() const {
-        return Ray<T,M>(
-            origin.   template resized<M>(),
-            direction.template resized<M>());
-    }
-
-    /// Return the point along this ray's direction, at distance `d` from the ray origin.
-    inline point_t at_distance(T d) const {
-        return origin + direction.unit() * d;
-    }
-
-    /// Return the point `origin + s * direction`.
-    inline point_t at_multiple(T s) const {
-        return origin + direction * s;
-    }
-    
-    /**
-     * @brief Find the point on the ray nearest to `p` by orhtogonally
-     * projecting `p` onto it.
-     */
-    inline point_t project(point_t p) const {
-        return (p - origin).project_on(direction) + origin;
-    }
-    
-    /// Signed distance from `p` to the nearest point on the ray.
-    inline T sdf(point_t p) const {
-        return std::sqrt(dist2());
-    }
-    
-    /// Compute the square of the distance from `p` to the nearest point on the ray.
-    inline T dist2(point_t p) const {
-        point_t b = p - origin;
-        T b2 = b.mag2();
-        T d  = direction.dot(b);
-        return b2 == 0 ? 0 : b2 - (d * d / b2);
-    }
-    
-}; // class Ray
-
-
-/**
- * Ray multiple.
- * @return `(r.origin + s * r.direction)`.
- * @related Ray
- * @ingroup linalg
- */
-template <typename T, index_t N>
-inline typename PointType<T,N>::point_t operator*(const Ray<T,N> r, T s) {
-    return r.at_multiple(s);
-}
-
-
-/**
- * Ray multiple.
- * @return `(r.origin + s * r.direction)`.
- * @related Ray
- * @ingroup linalg
- */
-template <typename T, index_t N>
-inline typename PointType<T,N>::point_t operator*(T s, const Ray<T,N> r) {
-    return r.at_multiple(s);
-}
-    
-#ifdef GEOMC_USE_STREAMS
-    
-/** @ingroup linalg
- * Ray stream output, in the form:
- * 
- *     <(x0, x1, x2, ... ), (v0, v1, v2, ...)>
- * where `x` is the origin and `v` is the direction.
- * @related Ray
- */
-template <typename T, index_t N>
-inline std::ostream &operator<< (std::ostream &stream, const Ray<T,N> &r) {
-    stream << "<" << r.origin << " + s * " << r.direction << ">";
-    return stream;
-}
-
-#endif // GEOMC_USE_STREAMS
-
-
-template <typename T, index_t N, typename H>
-struct Digest<Ray<T,N>, H> {
-    H operator()(const Ray<T,N> &r) const {
-        H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
-        return geom::hash_many<Vec<T,N>,H>(nonce, r.origin, r.direction);
-    }
-};
-
-} // namespace geom
-
-
-template <typename T, index_t N>
-struct std::hash<geom::Ray<T,N>> {
-    size_t operator()(const geom::Ray<T,N> &v) const {
-        return geom::hash<geom::Ray<T,N>, size_t>(v);
-    }
-};
+#pragma once
+
+#ifdef GEOMC_USE_STREAMS
+#include <iostream>
+#endif
+
+#include <geomc/linalg/LinalgTypes.h>
+#include <geomc/linalg/Vec.h>
+
+
+namespace geom {
+
+/**
+ * @brief Ray class.
+ * @tparam T Coordinate type.
+ * @tparam N Dimensionality.
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+class Ray {
+public:
+    /**
+     * @brief The type of a point with the same dimension as this ray; a `Vec<T,N>`
+     * if `N` is greater than 1; or a `T` if `N` is 1.
+     */
+    typedef typename PointType<T,N>::point_t point_t;
+    /// Origin of ray.
+    point_t origin;
+    /// Direction of ray.
+    point_t direction;
+
+    /*************************
+     * Structors             *
+     *************************/
+    
+    /// Construct a ray through the origin directed along the +x axis.
+    Ray():origin((T)0),direction((T)0) {
+        direction[0] = 1; //x axis
+    }
+    
+    /// Construct a ray through the point `o` with direction `v`.
+    Ray(point_t o, point_t v):
+        origin(o),
+        direction(v) {}
+
+    /*************************
+     * Operators             *
+     *************************/
+
+    /// Return a ray pointing in the opposite direction.
+    Ray<T,N> operator-() const {
+        return {origin, -direction};
+    }
+
+    /*************************
+     * Public Methods        *
+     *************************/
+    
+    /// Change the dimensionality of this Ray.
+    template <index_t M>
+    inline Ray<T,M> resized() const {
+        return Ray<T,M>(
+            origin.   template resized<M>(),
+            direction.template resized<M>());
+    }
+
+    /// Return the point along this ray's direction, at distance `d` from the ray origin.
+    inline point_t at_distance(T d) const {
+        return origin + direction.unit() * d;
+    }
+
+    /// Return the point `origin + s * direction`.
+    inline point_t at_multiple(T s) const {
+        return origin + direction * s;
+    }
+    
+    /**
+     * @brief Find the point on the ray nearest to `p` by orhtogonally
+     * projecting `p` onto it.
+     */
+    inline point_t project(point_t p) const {
+        return (p - origin).project_on(direction) + origin;
+    }
+    
+    /// Signed distance from `p` to the nearest point on the ray.
+    inline T sdf(point_t p) const {
+        return std::sqrt(dist2(p));
+    }
+    
+    /// Compute the square of the distance from `p` to the nearest point on the ray.
+    inline T dist2(point_t p) const {
+        point_t b = p - origin;
+        T b2 = b.mag2();
+        T d  = direction.dot(b);
+        return b2 == 0 ? 0 : b2 - (d * d / b2);
+    }
+    
+}; // class Ray
+
+
+/**
+ * Ray multiple.
+ * @return `(r.origin + s * r.direction)`.
+ * @related Ray
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+inline typename PointType<T,N>::point_t operator*(const Ray<T,N> r, T s) {
+    return r.at_multiple(s);
+}
+
+
+/**
+ * Ray multiple.
+ * @return `(r.origin + s * r.direction)`.
+ * @related Ray
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+inline typename PointType<T,N>::point_t operator*(T s, const Ray<T,N> r) {
+    return r.at_multiple(s);
+}
+    
+#ifdef GEOMC_USE_STREAMS
+    
+/** @ingroup linalg
+ * Ray stream output, in the form:
+ * 
+ *     <(x0, x1, x2, ... ), (v0, v1, v2, ...)>
+ * where `x` is the origin and `v` is the direction.
+ * @related Ray
+ */
+template <typename T, index_t N>
+inline std::ostream &operator<< (std::ostream &stream, const Ray<T,N> &r) {
+    stream << "<" << r.origin << " + s * " << r.direction << ">";
+    return stream;
+}
+
+#endif // GEOMC_USE_STREAMS
+
+
+template <typename T, index_t N, typename H>
+struct Digest<Ray<T,N>, H> {
+    H operator()(const Ray<T,N> &r) const {
+        H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
+        return geom::hash_many<Vec<T,N>,H>(nonce, r.origin, r.direction);
+    }
+};
+
+} // namespace geom
+
+
+template <typename T, index_t N>
+struct std::hash<geom::Ray<T,N>> {
+    size_t operator()(const geom::Ray<T,N> &v) const {
+        return geom::hash<geom::Ray<T,N>, size_t>(v);
+    }
+};
-- 
2.43.0


From bc96ef02680f70a1a70ab2c5830fd84395b28b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 083/212] fix: Ray::dist2 divides by the wrong squared length

---
 geomc/linalg/Ray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index b7f8c86..4e5a1ff 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -91,8 +91,9 @@ public:
     inline T dist2(point_t p) const {
         point_t b = p - origin;
         T b2 = b.mag2();
+        T v2 = direction.mag2();
         T d  = direction.dot(b);
-        return b2 == 0 ? 0 : b2 - (d * d / b2);
+        return v2 == 0 ? b2 : std::max<T>(0, b2 - (d * d / v2));
     }
     
 }; // class Ray
-- 
2.43.0


From ca0b83100284c90e157ce9a27b584cf3cabf1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 084/212] fix: brace initialization of a Quat does not compile

---
 geomc/linalg/Quaternion.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 39e444e..97e327a 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -60,12 +60,14 @@ public:
      * Example: `Quat<float> q = {0, 0, 0, 1};`
      * @param items A brace-initializer list.
      */
-    Quat(const std::initializer_list<T>& items):
-            detail::VecCommon< T,4,Quat<T>>(items.begin()) {
-        // items.size() not constexpr in c++11  D:<
-        static_assert(
-            items.size() == 4,
-            "Quaternion must be initialized with 4 elements");
+    Quat(const std::initializer_list<T>& items) {
+        // the size of a function argument is never a constant expression;
+        // missing elements are zero, as in aggregate initialization.
+        std::copy(
+            items.begin(),
+            items.begin() + std::min<size_t>(items.size(), 4),
+            this->begin()
+        );
     }
     
     /*******************************
-- 
2.43.0


From 86456ea6fcd0811bf3e1637559c00f091e650872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 085/212] fix: rotation_direction_align rotates by twice the
 angle

---
 geomc/linalg/Quaternion.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 97e327a..de59b1e 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -105,7 +105,14 @@ public:
     {
         Vec<T,3> axis = v ^ alignWith;
         T d = v.dot(alignWith);
-        return Quat<T>(axis, d);
+        Quat<T> q(axis, 1 + d);
+        if (q.is_zero()) {
+            // opposite directions; rotate about any perpendicular axis.
+            Vec<T,3> u;
+            u[v.argmin()] = 1;
+            q = Quat<T>(v ^ u, 0);
+        }
+        return q.unit();
     }
 
     /*******************************
-- 
2.43.0


From ff474c08290fe12f2b00908b74b75ec3502c6d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 086/212] fix: axis-angle conversions of Quat<float> do not
 compile

---
 geomc/linalg/Quaternion.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index de59b1e..8adeeb7 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -202,8 +202,8 @@ public:
      * `(x, y, z, radians)`.
      */
     Vec<T,4> to_axis_angle_rotation() const {
-        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, -1.0), 1.0);
-        double alpha = 2 * std::acos(w_clamp);
+        T w_clamp = std::min<T>(std::max<T>(detail::VecBase<T,4>::w, -1), 1);
+        T alpha = 2 * std::acos(w_clamp);
         if (detail::VecBase<T,4>::x == 0 and 
             detail::VecBase<T,4>::y == 0 and
             detail::VecBase<T,4>::z == 0)
@@ -220,7 +220,7 @@ public:
      */
     Vec<T,3> to_angular_velocity() const {
         // assumes a unit quaternion.
-        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, -1.0), 1.0);
+        T w_clamp = std::min<T>(std::max<T>(detail::VecBase<T,4>::w, -1), 1);
         T alpha = 2 * std::acos(w_clamp);
         if (imag().is_zero()) {
             return Vec<T,3>::zeros;
-- 
2.43.0


From d546f5671a6d0579bb966cceffc30aa44fff487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 087/212] fix: Quat::rotation_scale does not compile

---
 geomc/linalg/Quaternion.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 8adeeb7..63412eb 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -236,7 +236,8 @@ public:
     // this may go the "long way" around. that what we want?
     Quat<T> rotation_scale(T t) const {
         // assumes a unit quaternion.
-        const T w = std::max(-1, std::min(Vec<T,4>::w, 1));
+        const T w = std::max<T>(-1, std::min<T>(this->w, 1));
+        if (imag().is_zero()) return *this;
         T omega = std::acos(w);
         T theta = omega * t;
         return Quat<T>(std::sin(theta) * imag().unit(), std::cos(theta));
-- 
2.43.0


From f17c1e82937047c9e19d56b1902d7314712aedd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 088/212] fix: Quat::slerp does not compile

---
 geomc/linalg/Quaternion.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 63412eb..60e069a 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -250,7 +250,7 @@ public:
      * @param t Interpolation parameter between 0 and 1.
      * @return 
      */
-    Quat<T> slerp(const Quat<T> &q1, T t) const {
+    Quat<T> slerp(Quat<T> q1, T t) const {
         // assumed unit quaternion.
         const Quat<T> &q0 = *this;
         T dot = q0.dot(q1);
@@ -258,10 +258,12 @@ public:
             dot = -dot;
             q1 = -q1;
         }
-        dot = std::max(0, std::min<T>(1, dot)); //keep <dot> in the domain of acos.
+        dot = std::max<T>(0, std::min<T>(1, dot)); //keep <dot> in the domain of acos.
         T omega = std::acos(dot);
         T theta = omega * t;
-        Quat<T> q2 = (q1 - q0 * dot).unit();
+        Quat<T> q2 = q1 - q0 * dot;
+        if (q2.is_zero()) return q0;
+        q2 = q2.unit();
         return std::cos(theta) * q0 + std::sin(theta) * q2;
     }
     
-- 
2.43.0


From 03c4075f8af9ca41fe69b15cfb899b2dd9e72c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 089/212] fix: log of a real quaternion is NaN

---
 geomc/linalg/Quaternion.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 60e069a..ca81011 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -321,6 +321,10 @@ template <typename T>
 geom::Quat<T> log(const geom::Quat<T>& q) {
     T q_m = q.mag();
     T v_m = q.imag().mag();
+    if (v_m == 0) {
+        // real quaternion; the direction of the axis is arbitrary
+        return geom::Quat<T>(q.w < 0 ? (T) M_PI : (T) 0, 0, 0, std::log(q_m));
+    }
     T k   = std::acos(q.w / q_m);
     return geom::Quat<T>(k * q.imag() / v_m, std::log(q_m));
 }
-- 
2.43.0


From 1e985b66b16da77fa280c178c7b327625e11e055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 090/212] fix: pow of a real quaternion is NaN, and integer
 powers truncate the angle

---
 geomc/linalg/Quaternion.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index ca81011..4b09915 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -336,8 +336,10 @@ template <typename T, typename U>
 geom::Quat<T> pow(const geom::Quat<T> &q, U a) {
     T mag = q.mag();
     if (mag == 0) return geom::Quat<T>(0,0,0,1);
-    U theta = std::acos(q.real() / mag); // :(
-    geom::Vec<T,3> nhat = q.imag().unit();
+    T theta = std::acos(q.real() / mag); // :(
+    geom::Vec<T,3> nhat = q.imag();
+    // the direction of the axis of a real quaternion is arbitrary
+    nhat = nhat.is_zero() ? geom::Vec<T,3>::unit_x : nhat.unit();
     return std::pow(mag, a) * geom::Quat<T>(
         nhat * std::sin(a * theta), 
         std::cos(a * theta));
-- 
2.43.0


From 6678f1c3a34f5df0bb1038c97746c7ed1f260e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 091/212] fix: hashing a Ray does not compile

---
 geomc/linalg/Ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index 4e5a1ff..c4cb7ea 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -144,7 +144,7 @@ template <typename T, index_t N, typename H>
 struct Digest<Ray<T,N>, H> {
     H operator()(const Ray<T,N> &r) const {
         H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
-        return geom::hash_many<Vec<T,N>,H>(nonce, r.origin, r.direction);
+        return geom::hash_many<H>(nonce, r.origin, r.direction);
     }
 };
 
-- 
2.43.0


From 3f20007b406c404175f28fa7900805c92edbe581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 092/212] fix: Quat::exp and Quat::log do not compile

---
 geomc/linalg/Quaternion.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 4b09915..9d8a4d9 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -11,6 +11,16 @@
 #include <cmath>
 #include <geomc/linalg/Vec.h>
 
+namespace geom {
+    template <typename T> class Quat;
+}
+
+namespace std {
+    // used by the members of Quat
+    template <typename T> geom::Quat<T> exp(const geom::Quat<T>& q);
+    template <typename T> geom::Quat<T> log(const geom::Quat<T>& q);
+}
+
 namespace geom {
 
 /** @ingroup linalg 
-- 
2.43.0


From 0983dee92e04b44ae85d2f5509b49845795395ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 093/212] fix: resizing an AffineTransform drops the
 translation of its inverse

---
 geomc/linalg/AffineTransform.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index ed72436..759dc42 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -184,6 +184,7 @@ public:
             }
             // keep translation components in the homogenous column
             xf.mat(i,M) = static_cast<U>(mat(i,N));
+            xf.inv(i,M) = static_cast<U>(inv(i,N));
         }
         // this ought to be 1, but let's be pedantic
         xf.mat(M,M) = mat(N,N);
-- 
2.43.0


From 9401095608c1f6ccc361d399f184f007ae43a41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 094/212] fix: xf /= xf leaves the wrong inverse

---
 geomc/linalg/AffineTransform.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index 759dc42..b5b4b7b 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -168,8 +168,10 @@ public:
      * the inverse of `xf`.
      */
     AffineTransform<T,N>& operator/=(const AffineTransform<T,N>& xf) {
+        // (xf may be *this)
+        SimpleMatrix<T,N+1,N+1> new_inv = inv * xf.mat;
         mat = xf.inv * mat;
-        inv = inv * xf.mat;
+        inv = new_inv;
         return *this;
     }
     
-- 
2.43.0


From 9d948c7ec5ec7c8b7702a1b21436fffb49a1ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 095/212] fix: hashing an AffineTransform does not compile

---
 geomc/linalg/AffineTransform.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index b5b4b7b..0ed007c 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -877,9 +877,9 @@ AffineTransform<T,2> translation(T tx, T ty) {
 
 
 // hashing
-template <typename T, size_t N, typename H>
+template <typename T, index_t N, typename H>
 struct Digest<AffineTransform<T,N>, H> {
-    size_t operator()(const AffineTransform<T,N>& xf) const {
+    H operator()(const AffineTransform<T,N>& xf) const {
         H nonce = truncated_constant<H>(0x173d01f6a3408f0b, 0x74a2e1d9f7a37c6f);
         return geom::hash<SimpleMatrix<T,N+1,N+1>, H>(xf.mat) ^ nonce;
     }
-- 
2.43.0


From 6da41b21b026845a33644a1cd6e95b8dc8a8cb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 096/212] fix: direction_align of opposite vectors is not a
 rotation between them

---
 geomc/linalg/AffineTransform.h | 41 ++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index 0ed007c..d11b49d 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -440,6 +440,23 @@ inline void rotmat(
     rotmat(into, axis.x, axis.y, axis.z, ctr.x, ctr.y, ctr.z, theta);
 }
 
+namespace detail {
+
+// rotation by 180 degrees about some axis perpendicular to the unit vector `dir`
+template <typename T, index_t N>
+void rotmat_half_turn(SimpleMatrix<T,N,N>* into, const Vec<T,3>& dir) {
+    Vec<T,3> u;
+    u[dir.argmin()] = 1;
+    u = (u - u.project_on(dir)).unit();
+    for (index_t r = 0; r < 3; r++) {
+        for (index_t c = 0; c < 3; c++) {
+            into->set(r, c, 2 * u[r] * u[c] - (r == c ? 1 : 0));
+        }
+    }
+}
+
+} // namespace detail
+
 // rotation aligning `dir` with `alignWith`.
 // modified from http://www.iquilezles.org/www/articles/noacos/noacos.htm
 template <typename T>
@@ -451,14 +468,16 @@ inline void rotmat_direction_align(
     const Vec<T,3> v = dir ^ alignWith;
     const T c = dir.dot(alignWith);
     
+    const T s2 = v.mag2();
+    
     // handle poles
-    if (std::abs(c) == 1) {
+    if (s2 == 0) {
         into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
+        if (c < 0) { detail::rotmat_half_turn(into, dir); }
         return;
     }
     
-    const T k = (1 - c) / (1 - c * c);
+    const T k = (1 - c) / s2;
 
     T m[16] = { v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y, 0,
                 v.x*v.y*k + v.z,   v.y*v.y*k + c,      v.z*v.y*k - v.x, 0, 
@@ -476,15 +495,17 @@ SimpleMatrix<T,3,3> rotmat_direction_align(
     const Vec<T,3> v = dir ^ alignWith;
     const T c = dir.dot(alignWith);
     
+    const T s2 = v.mag2();
+    
     // handle poles
-    if (std::abs(c) == 1) {
+    if (s2 == 0) {
         SimpleMatrix<T,3,3> out;
         // 180 degree case:
-        if (c < 0) { out.set(0, 0, -1); out.set(2, 2, -1); }
+        if (c < 0) { detail::rotmat_half_turn(&out, dir); }
         return out;
     }
     
-    const T k = (1 - c) / (1 - c * c);
+    const T k = (1 - c) / s2;
 
     return {
         v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y,
@@ -571,14 +592,16 @@ inline void rotmat_direction_align(
     const Vec<T,3> v = dir ^ alignWith;
     const T c = dir.dot(alignWith);
     
+    const T s2 = v.mag2();
+    
     // handle poles
-    if (std::abs(c) == 1) {
+    if (s2 == 0) {
         into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
+        if (c < 0) { detail::rotmat_half_turn(into, dir); }
         return;
     }
     
-    const T k = (1 - c) / (1 - c * c);
+    const T k = (1 - c) / s2;
 
     T m[9] = { v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y,
                v.x*v.y*k + v.z,   v.y*v.y*k + c,      v.z*v.y*k - v.x, 
-- 
2.43.0


From 5fc8fc8ce410330290ac7712f3424e1f8088597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 097/212] fix: Quat::rotation_direction_align of exactly
 opposite directions whose dot product rounds

---
 geomc/linalg/Quaternion.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 9d8a4d9..4ec574b 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -116,7 +116,8 @@ public:
         Vec<T,3> axis = v ^ alignWith;
         T d = v.dot(alignWith);
         Quat<T> q(axis, 1 + d);
-        if (q.is_zero()) {
+        // (1 + d may differ from zero by a rounding error)
+        if (axis.is_zero() and d < 0) {
             // opposite directions; rotate about any perpendicular axis.
             Vec<T,3> u;
             u[v.argmin()] = 1;
-- 
2.43.0


From 20ba6f83cfddc7f2b5ccc57737ef7a56393ed1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 098/212] fix: comparisons of const Duals

---
 geomc/function/functiondetail/DualImpl.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index 0f04048..37a048b 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -170,17 +170,17 @@ struct Dual {
     // comparison
     
     /// Equality of primal component
-    inline bool operator==(const Dual<T,Dp> &d) { return x == d.x; }
+    inline bool operator==(const Dual<T,Dp> &d) const { return x == d.x; }
     /// Inequality of primal component
-    inline bool operator!=(const Dual<T,Dp> &d) { return x != d.x; }
+    inline bool operator!=(const Dual<T,Dp> &d) const { return x != d.x; }
     /// Greater-or-equal-to comparison of primal component
-    inline bool operator>=(const Dual<T,Dp> &d) { return x >= d.x; }
+    inline bool operator>=(const Dual<T,Dp> &d) const { return x >= d.x; }
     /// Less-or-equal-to comparison of primal component
-    inline bool operator<=(const Dual<T,Dp> &d) { return x <= d.x; }
+    inline bool operator<=(const Dual<T,Dp> &d) const { return x <= d.x; }
     /// Greater-than comparison of primal component
-    inline bool operator> (const Dual<T,Dp> &d) { return x  > d.x; }
+    inline bool operator> (const Dual<T,Dp> &d) const { return x  > d.x; }
     /// Less-than comparison of primal component
-    inline bool operator< (const Dual<T,Dp> &d) { return x  < d.x; }
+    inline bool operator< (const Dual<T,Dp> &d) const { return x  < d.x; }
     
     /// Post-increment
     Dual<T,Dp> operator++(int) {
-- 
2.43.0


From 0f02439fb074996b2ea5021695d087d59acde6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 099/212] fix: Dual constructed from another discontinuity
 policy keeps its primal value

---
 geomc/function/functiondetail/DualImpl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index 37a048b..45f57c3 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -148,7 +148,7 @@ struct Dual {
     
     /// Construct a Dual from one with a different discontinuity policy.
     template <DiscontinuityPolicy DP1>
-    constexpr Dual(const Dual<T,DP1>& d):x(d.dx), dx(d.dx) {}
+    constexpr Dual(const Dual<T,DP1>& d):x(d.x), dx(d.dx) {}
     
     /// Copy-construct a Dual
     constexpr Dual(const Dual& d) = default;
-- 
2.43.0


From cc802460cbe1f95b64a03402f28bd96ed49dc865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 100/212] fix: default-constructed Dual has a defined value

---
 geomc/function/functiondetail/DualImpl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index 45f57c3..0477384 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -138,7 +138,7 @@ struct Dual {
      *******************************/
    
     /// Construct a Dual default value and 0 derivative.
-    constexpr Dual():dx(0) {}
+    constexpr Dual():x(0),dx(0) {}
     
     /// Construct a Dual with value `x` and 0 derivative.
     constexpr Dual(T x):x(x),dx(0) {}
-- 
2.43.0


From 4f06f8bd8d74d3c086a3bc03b3e49c3bacccfdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 101/212] fix: Dual *= scalar is callable

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 35e9cb6..9a1a4f4 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -59,7 +59,7 @@ template <typename T, typename U, DiscontinuityPolicy Dp>
 requires requires(T t, U u) {
     {t * u} -> std::convertible_to<T>;
 }
-constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, T s) {
+constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, U s) {
     x.x  = x.x  * s;
     x.dx = x.dx * s;
     return x;
-- 
2.43.0


From 0fc1064f2fe491a7454060bbad314391f71f6d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 102/212] fix: multiplying or dividing a Dual by itself in
 place

---
 geomc/function/functiondetail/DualFunctions.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 9a1a4f4..356055f 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -47,10 +47,10 @@ constexpr Dual<T,Dp> operator*(U s, const Dual<T,Dp>& d) {
 /// Multiply and assign to dual.
 template <typename T, DiscontinuityPolicy Dp>
 constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, const Dual<T,Dp>& y) {
-    T x_x = x.x;
-    x.x  = x.x * y.x;
     // product rule: x * dy + y * dx
-    x.dx = sum_of_products(x_x, y.dx, y.x, x.dx);
+    // (compute the derivative first; `x` and `y` may be the same object)
+    x.dx = sum_of_products(x.x, y.dx, y.x, x.dx);
+    x.x  = x.x * y.x;
     return x;
 }
 
@@ -110,9 +110,11 @@ requires requires (T t, U u) {
     {t / u} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp>& operator/=(Dual<T,Dp>& x, const Dual<U,Dp>& y) {
-    auto x_x = x.x;
-    x.x  = x.x / y.x;
-    x.dx = diff_of_products(x.dx, y.x, x_x, y.dx) / (y.x * y.x);
+    // (compute the derivative first; `x` and `y` may be the same object)
+    const T y_x = y.x;
+    const T y_dx = y.dx;
+    x.dx = diff_of_products<T>(x.dx, y_x, x.x, y_dx) / (y_x * y_x);
+    x.x  = x.x / y_x;
     return x;
 }
 
-- 
2.43.0


From 73b748b59a2a0fbbf28fc3aca28b3a0c4fce4495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 103/212] fix: sign of the derivative of scalar - Dual

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 356055f..8fd5d8b 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -197,7 +197,7 @@ requires requires(T t, U u) {
 constexpr Dual<T,Dp> operator-(U s, const Dual<T,Dp>& d) { 
     return Dual<T,Dp>{
         s - d.x,
-        d.dx
+        -d.dx
     };
 }
 
-- 
2.43.0


From 05094c6fc1634ce54e4cfbf52965c1b39fcf59a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 104/212] fix: sign of the derivative of tan(Dual)

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 8fd5d8b..9b7590b 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -299,7 +299,7 @@ inline geom::Dual<T,P> cos(const geom::Dual<T,P> &d) {
 template <typename T, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> tan(const geom::Dual<T,P> &d) {
     T c = std::cos(d.x);
-    return geom::Dual<T,P>(std::tan(d.x), -d.dx / (c*c));
+    return geom::Dual<T,P>(std::tan(d.x), d.dx / (c*c));
 }
 
 
-- 
2.43.0


From 07b2ebfa2256f37bc8883863fe0e7a29168031f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 105/212] fix: sign of the derivative of exp(Dual)

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 9b7590b..a731716 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -362,7 +362,7 @@ inline geom::Dual<T,P> atan2(const geom::Dual<T,P> &y, const geom::Dual<T,P> &x)
 template <typename T, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> exp(const geom::Dual<T,P> &d) {
     T e = std::exp(d.x);
-    return geom::Dual<T,P>(e, -d.dx * e);
+    return geom::Dual<T,P>(e, d.dx * e);
 }
 
 
-- 
2.43.0


From 01876be7b833d196e6f2762137f7b5d56d4bd5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 106/212] fix: derivative of a Dual raised to a Dual

---
 geomc/function/functiondetail/DualFunctions.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index a731716..0221ac0 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -394,13 +394,11 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
     // and:
     //   df / dx = d/dx (x ^ y) = y * x ^ (y - 1)
     //   df / dy = d/dy (x ^ y) = log(x) * (x ^ y)
-    T a_c = pow(base.x, xp.x);
-    return geom::Dual<T,P>(
-        a_c,
-        base.dx * xp.x * a_c / xp.x +
-        xp.dx * a_c * std::log(base.x)
-    );
-    
+    T a_c = std::pow(base.x, xp.x);
+    T dx  = base.dx * xp.x * std::pow(base.x, xp.x - 1);
+    // a constant exponent admits a nonpositive base
+    if (xp.dx != 0) dx += xp.dx * a_c * std::log(base.x);
+    return geom::Dual<T,P>(a_c, dx);
 }
 
 
-- 
2.43.0


From 035d3eaaeadf00b23f6bda35ac21dce8dda97d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 107/212] fix: pow() of Duals is unambiguous, keeps its
 discontinuity policy, and is differentiable at zero

---
 geomc/function/functiondetail/DualFunctions.h | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 0221ac0..e4c8fcb 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -406,12 +406,13 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
  * @brief Returns `base` raised to exponent `xp`.
  * @related geom::Dual
  */
-template <typename T, typename U>
-inline geom::Dual<T> pow(const geom::Dual<T> &base, U xp) {
-    T a_x = pow(base.x, xp);
-    return geom::Dual<T>(
-        a_x,
-        base.dx * xp * a_x / base.x
+template <typename T, typename U, geom::DiscontinuityPolicy P>
+requires std::convertible_to<U,T>
+inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, U xp) {
+    T k = xp;
+    return geom::Dual<T,P>(
+        std::pow(base.x, k),
+        k == 0 ? T(0) : base.dx * k * std::pow(base.x, k - 1)
     );
 }
 
@@ -421,11 +422,12 @@ inline geom::Dual<T> pow(const geom::Dual<T> &base, U xp) {
  * @related geom::Dual
  */
 template <typename T, typename U, geom::DiscontinuityPolicy P>
+requires std::convertible_to<U,T>
 inline geom::Dual<T,P> pow(U base, const geom::Dual<T,P> &xp) {
-    T a_x = pow(base, xp.x);
-    return geom::Dual<T>(
+    T a_x = std::pow((T)base, xp.x);
+    return geom::Dual<T,P>(
         a_x,
-        xp.dx * a_x * std::log(base)
+        xp.dx * a_x * std::log((T)base)
     );
 }
 
-- 
2.43.0


From ba99fe421f55e57a5f1767ec883894ffafc94120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 108/212] fix: max() of Duals keeps its discontinuity policy

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index e4c8fcb..417ec82 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -547,7 +547,7 @@ inline geom::Dual<T,P> max(const geom::Dual<T,P> &d1, const geom::Dual<T,P> &d2)
     } else {
         dx = gt ? d1.dx : d2.dx;
     }
-    return geom::Dual<T>(x,dx);
+    return geom::Dual<T,P>(x,dx);
 }
 
 
-- 
2.43.0


From fe791a7077c3a87c0b17f050a09a3999502cc3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 109/212] fix: Duals which compare equal hash equally

---
 geomc/function/functiondetail/DualFunctions.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 417ec82..c092fda 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -255,10 +255,8 @@ constexpr Dual<T,Dp> operator-(const Dual<T,Dp>& d) {
 template <typename T, DiscontinuityPolicy Dp, typename H>
 struct Digest<Dual<T,Dp>, H> {
     H operator()(const Dual<T,Dp>& d) const {
-        return hash_combine<H>(
-            geom::hash<T,H>(d.x),
-            geom::hash<T,H>(d.dx)
-        );
+        // duals which compare equal (by their primal value) must hash equally
+        return geom::hash<T,H>(d.x);
     }
 };
 
-- 
2.43.0


From af6d8cda7e55990798c9fe450c9446eb9ff4d899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 110/212] fix: diff_of_products() of Duals

---
 geomc/function/functiondetail/UtilDetail.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/UtilDetail.h b/geomc/function/functiondetail/UtilDetail.h
index bc1437a..7d15f16 100644
--- a/geomc/function/functiondetail/UtilDetail.h
+++ b/geomc/function/functiondetail/UtilDetail.h
@@ -99,7 +99,7 @@ struct _ImplFMADot<Dual<T,P>, void> {
         T dp = geom::sum_of_products<T>(a.x, b.dx, a.dx, b.x);
         T dq = geom::sum_of_products<T>(c.x, d.dx, c.dx, d.x);
         return Dual<T,P>(
-            geom::diff_of_products<T>(a, b, c, d),
+            geom::diff_of_products<T>(a.x, b.x, c.x, d.x),
             dp - dq);
     }
     
-- 
2.43.0


From 73ecf35ff8a2411c2d00a666d33ee2f243b21b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 111/212] fix: products of complex numbers

---
 geomc/function/functiondetail/UtilDetail.h | 24 +++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/geomc/function/functiondetail/UtilDetail.h b/geomc/function/functiondetail/UtilDetail.h
index 7d15f16..cd8a520 100644
--- a/geomc/function/functiondetail/UtilDetail.h
+++ b/geomc/function/functiondetail/UtilDetail.h
@@ -135,10 +135,10 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // (a.r * b.r - a.i * b.i) + (a.r * b.i + a.i * b.r)i -
         // (c.r * d.r - c.i * d.i) + (c.r * d.i + c.i * d.r)i
-        auto ab_r = geom::diff_of_products<T>(a.real, b.real, a.imag, b.imag);
-        auto cd_r = geom::diff_of_products<T>(c.real, d.real, c.imag, d.imag);
-        auto ab_i =  geom::sum_of_products<T>(a.real, b.imag, a.imag, b.real);
-        auto cd_i =  geom::sum_of_products<T>(c.real, d.imag, c.imag, d.real);
+        auto ab_r = geom::diff_of_products<T>(a.real(), b.real(), a.imag(), b.imag());
+        auto cd_r = geom::diff_of_products<T>(c.real(), d.real(), c.imag(), d.imag());
+        auto ab_i =  geom::sum_of_products<T>(a.real(), b.imag(), a.imag(), b.real());
+        auto cd_i =  geom::sum_of_products<T>(c.real(), d.imag(), c.imag(), d.real());
         return {ab_r - cd_r, ab_i - cd_i};
     }
     
@@ -150,10 +150,10 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // (a.r * b.r - a.i * b.i) + (a.r * b.i + a.i * b.r)i +
         // (c.r * d.r - c.i * d.i) + (c.r * d.i + c.i * d.r)i
-        auto ab_r = geom::diff_of_products<T>(a.real, b.real, a.imag, b.imag);
-        auto cd_r = geom::diff_of_products<T>(c.real, d.real, c.imag, d.imag);
-        auto ab_i =  geom::sum_of_products<T>(a.real, b.imag, a.imag, b.real);
-        auto cd_i =  geom::sum_of_products<T>(c.real, d.imag, c.imag, d.real);
+        auto ab_r = geom::diff_of_products<T>(a.real(), b.real(), a.imag(), b.imag());
+        auto cd_r = geom::diff_of_products<T>(c.real(), d.real(), c.imag(), d.imag());
+        auto ab_i =  geom::sum_of_products<T>(a.real(), b.imag(), a.imag(), b.real());
+        auto cd_i =  geom::sum_of_products<T>(c.real(), d.imag(), c.imag(), d.real());
         return {ab_r + cd_r, ab_i + cd_i};
     }
     
@@ -172,11 +172,11 @@ struct _ImplFMADot<std::complex<T>, void> {
         
         // (a + bi) * (c + di) + (k_r + k_i i)
         // real: (ac - bd + k_r)
-        auto bd_k = geom::multiply_add<T>(-a.imag, b.imag, c.real);
-        auto real = geom::multiply_add<T>( a.real, b.real, bd_k);
+        auto bd_k = geom::multiply_add<T>(-a.imag(), b.imag(), c.real());
+        auto real = geom::multiply_add<T>( a.real(), b.real(), bd_k);
         // imag: (ad + bc + k_i)
-        auto bc_k = geom::multiply_add<T>(a.imag, b.real, c.imag);
-        auto imag = geom::multiply_add<T>(a.real, b.imag, bc_k);
+        auto bc_k = geom::multiply_add<T>(a.imag(), b.real(), c.imag());
+        auto imag = geom::multiply_add<T>(a.real(), b.imag(), bc_k);
         return {real, imag};
     }
 };
-- 
2.43.0


From fae3da509e7b04aa111a206fd6915b73ed96690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 112/212] fix: positive_mod() does not overflow for large
 moduli

---
 geomc/function/Utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/function/Utils.h b/geomc/function/Utils.h
index c160ad2..80049aa 100644
--- a/geomc/function/Utils.h
+++ b/geomc/function/Utils.h
@@ -22,7 +22,8 @@ namespace geom {
 
 template <typename T>
 inline std::enable_if_t<std::is_integral_v<T>, T> positive_mod(T a, T b) {
-    return (a % b + b) % b;
+    T r = a % b;
+    return (r != 0 and (r < 0) != (b < 0)) ? r + b : r;
 }
 
 template <typename T>
-- 
2.43.0


From 0b19902cc79232ca17314468cdc65a8e187dbe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 113/212] fix: ceil_div() of negative numerators

---
 geomc/function/Utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/function/Utils.h b/geomc/function/Utils.h
index 80049aa..cfe8b10 100644
--- a/geomc/function/Utils.h
+++ b/geomc/function/Utils.h
@@ -226,7 +226,8 @@ constexpr auto ceil_div(T a, T b) {
     if constexpr (not std::is_integral<T>()) {
         return std::ceil(a / b);
     } else {
-        return (a + b - 1) / b;
+        auto q = a / b;
+        return (a % b != 0 and (a < 0) == (b < 0)) ? q + 1 : q;
     }
 }
 
-- 
2.43.0


From d611ebc6145db4f260ada72c9af158d42ebe3b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 114/212] fix: floor_div() of negative numerators

---
 geomc/function/Utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/function/Utils.h b/geomc/function/Utils.h
index cfe8b10..768d10d 100644
--- a/geomc/function/Utils.h
+++ b/geomc/function/Utils.h
@@ -252,7 +252,8 @@ constexpr auto floor_div(T a, T b) {
     if constexpr (not std::is_integral<T>()) {
         return std::floor(a / b);
     } else {
-        return (a + b) / b - 1;
+        auto q = a / b;
+        return (a % b != 0 and (a < 0) != (b < 0)) ? q - 1 : q;
     }
 }
 
-- 
2.43.0


From 066a838bc7e2cb9998df32a4f0b8392d4003003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 115/212] fix: hashing of tuples

---
 geomc/Hash.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geomc/Hash.h b/geomc/Hash.h
index 0d95480..c124a72 100644
--- a/geomc/Hash.h
+++ b/geomc/Hash.h
@@ -11,6 +11,12 @@ namespace geom {
 template <typename T, typename H>
 H hash(const T& obj);
 
+template <typename H, typename... Hs>
+inline constexpr H hash_combine_many(H h, Hs... hashes);
+
+template <typename H>
+inline H hash_bytes(H nonce, const void* obj, size_t size);
+
 
 namespace detail {
 
-- 
2.43.0


From 9d0a9700678d959b39ee4e3c1f9e9aec43ac167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 116/212] fix: hashing of Simplexes

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index c9e6222..e9d912f 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -599,7 +599,7 @@ template <typename T, index_t N, typename H>
 struct Digest<Simplex<T,N>, H> {
     H operator()(const Simplex<T,N>& s) const {
         H nonce = geom::truncated_constant<H>(0x8159bb983f797983, 0xe8904e94430f7555);
-        return geom::hash_array<H>(nonce, s.pts, s.n);
+        return geom::hash_array<Vec<T,N>,H>(nonce, s.pts, s.n);
     }
 };
 
-- 
2.43.0


From 71e148dea1460b05d22d7479dcafb668bfbaaf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 117/212] fix: PerlinNoise's coordinate scramble overflowed a
 signed integer

---
 geomc/function/PerlinNoise.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/function/PerlinNoise.h b/geomc/function/PerlinNoise.h
index 684470c..f032018 100644
--- a/geomc/function/PerlinNoise.h
+++ b/geomc/function/PerlinNoise.h
@@ -188,7 +188,8 @@ protected:
             // do an iterated linear congruential scramble, using Knuth's constants:
             // xxx: todo: make portable
             index_t k = gridtype::iterator(pt)[i];
-            idx = 6364136223846793005LL * (k + idx) + 1442695040888963407LL;
+            // (the scramble wraps around, so it must be performed on unsigned integers)
+            idx = (index_t) (6364136223846793005ULL * ((uint64_t) k + (uint64_t) idx) + 1442695040888963407ULL);
         }
         idx = positive_mod(idx, (index_t) PERLIN_NUM_GRADIENTS);
         
-- 
2.43.0


From b07676e49facbdc4f6d01d5bf9f481383de46c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 118/212] fix: mirroring at the edge of a one-sample raster
 axis divided by zero

---
 geomc/function/functiondetail/RasterDetail.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 041874b..a7a4027 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -42,10 +42,11 @@ template <>
 class _ImplEdge<EDGE_MIRROR> {
 public:
     static inline index_t coord(index_t c, index_t max) {
+        if (max == 1) return 0;
         c = std::abs(c);
         max -= 1;
-        int cyc = c/max;
-        int i   = c%max;
+        index_t cyc = c/max;
+        index_t i   = c%max;
         return ((cyc & 1) == 0)?(i):(max-i);
     }
 };
-- 
2.43.0


From f1f0fcb1e3312fad5a1081e05765fafb946f2c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 119/212] fix: rasters rounded negative grid coordinates toward
 zero

---
 geomc/function/functiondetail/RasterDetail.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index a7a4027..817ffbb 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -87,7 +87,7 @@ public:
     typedef typename Raster<I,O,N,Channels>::sample_t sample_t;
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
-        grid_t gridPt = grid_t(pt + coord_t(0.5));
+        grid_t gridPt = (grid_t) std::floor(pt + coord_t(0.5));
         return r->template sample_discrete<Edge>(gridPt);
     }
 };
@@ -101,7 +101,7 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<N];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = (grid_t) std::floor(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 2^N sample pts into a contiguous buffer
@@ -120,7 +120,7 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<(2*N)];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = (grid_t) std::floor(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 4^N sample pts into a contiguous buffer
-- 
2.43.0


From d5719f1bb656918df30efc477e99eafc097b07e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 120/212] fix: one-dimensional rasters could not be
 interpolated

---
 geomc/function/functiondetail/RasterDetail.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 817ffbb..0d6fa44 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -105,7 +105,7 @@ public:
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 2^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt, gridPt + grid_t(1)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt, gridPt + grid_t(1)));
         
         return interp_linear(PointType<I,N>::iterator(s), buf, N);
     }
@@ -124,7 +124,7 @@ public:
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 4^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt - grid_t(1), gridPt + grid_t(2)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt - grid_t(1), gridPt + grid_t(2)));
         
         return interp_cubic(PointType<I,N>::iterator(s), buf, N);
     }
-- 
2.43.0


From 22043aa96fac40fb75ad126296001fc8bec27467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 121/212] fix: rasters did not place their last samples at the
 upper bound of the domain

---
 geomc/function/Raster.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index d6fa9cd..730c408 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -431,7 +431,14 @@ public:
 protected:
     
     inline coord_t toGridSpace(const coord_t &pt) const {
-        return (coord_t)m_extent * m_domain.unmap(pt);
+        coord_t g = pt - m_domain.lo;
+        coord_t d = m_domain.dimensions();
+        for (index_t i = 0; i < M; ++i) {
+            I n = (I) (PointType<index_t,M>::iterator(m_extent)[i] - 1);
+            // a single sample has no extent to be normalized to
+            if (n > 0) PointType<I,M>::iterator(g)[i] *= n / PointType<I,M>::iterator(d)[i];
+        }
+        return g;
     }
     
     template <EdgeBehavior Edge>
-- 
2.43.0


From 9035ec4edec2eb999be605354a955e72e59d634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 122/212] fix: Raster::samplecount() counted the channels of
 each sample

---
 geomc/function/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 730c408..146c871 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -425,7 +425,7 @@ public:
      * Number of grid sample points in this raster.
      */
     inline index_t samplecount() const {
-        return m_size;
+        return m_size / N;
     }
     
 protected:
-- 
2.43.0


From 6ce7d84cb551ee0f0faff8d36d5ba3acc11b9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 123/212] fix: the abyss value of a raster was not initialized

---
 geomc/function/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 146c871..9c0015d 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -128,7 +128,7 @@ protected:
     grid_t    m_extent;
     index_t   m_size;
     boost::shared_array<O> m_data;
-    sample_t  m_abyss;
+    sample_t  m_abyss = sample_t();
     Rect<I,M> m_domain;
     
 public:
-- 
2.43.0


From b8defab049f49a48f8c4309303137528be6fd193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 124/212] fix: rasters could not be sampled with run-time edge
 and interpolation choices

---
 geomc/function/Raster.h | 45 +++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 9c0015d..59a951f 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -284,35 +284,10 @@ public:
      * @return Sampled data.
      */
     sample_t sample(const coord_t &pt, EdgeBehavior edge=EDGE_CLAMP, Interpolation interp=INTERP_LINEAR) const {
-        grid_t gridPt;
-        pt = toGridSpace(pt);
-        
         switch (interp) {
-        case INTERP_NEAREST:
-            gridPt = grid_t(pt + coord_t(0.5));
-            return sample_discrete(gridPt, edge);
-        case INTERP_LINEAR:
-        {
-            sample_t buf_l[1<<M];
-            gridPt = (grid_t)pt;
-            coord_t s = pt - ((coord_t)gridPt);
-            
-            // copy surrounding 2^M sample pts into a contiguous buffer
-            copy(buf_l, Rect<index_t,M>(gridPt, gridPt + grid_t(2)), edge);
-            
-            return interp_linear(s.begin(), buf_l, M);
-        }
-        case INTERP_CUBIC:
-        {
-            sample_t buf_c[1<<(2*M)];
-            gridPt = (grid_t)pt;
-            coord_t s = pt - ((coord_t)gridPt);
-            
-            // copy surrounding 4^M sample pts into a contiguous buffer
-            copy(buf_c, Rect<index_t,M>(gridPt - grid_t(1), gridPt + grid_t(3)), edge);
-            
-            return interp_cubic(s.begin(), buf_c, M);
-        }
+        case INTERP_NEAREST: return sample_edge<INTERP_NEAREST>(pt, edge);
+        case INTERP_LINEAR:  return sample_edge<INTERP_LINEAR>(pt, edge);
+        case INTERP_CUBIC:   return sample_edge<INTERP_CUBIC>(pt, edge);
         default:
             return m_abyss;
         }
@@ -371,7 +346,7 @@ public:
             return m_abyss;
         }
         
-        return sample_t(m_data.get() + offs);
+        return PointType<O,N>::from_ptr(m_data.get() + offs);
     }
     
     /**
@@ -430,6 +405,18 @@ public:
     
 protected:
     
+    template <Interpolation Interp>
+    inline sample_t sample_edge(const coord_t &pt, EdgeBehavior edge) const {
+        switch (edge) {
+        case EDGE_CLAMP:    return sample<EDGE_CLAMP,    Interp>(pt);
+        case EDGE_PERIODIC: return sample<EDGE_PERIODIC, Interp>(pt);
+        case EDGE_MIRROR:   return sample<EDGE_MIRROR,   Interp>(pt);
+        case EDGE_CONSTANT: return sample<EDGE_CONSTANT, Interp>(pt);
+        default:
+            return m_abyss;
+        }
+    }
+    
     inline coord_t toGridSpace(const coord_t &pt) const {
         coord_t g = pt - m_domain.lo;
         coord_t d = m_domain.dimensions();
-- 
2.43.0


From 41850cc73f87ec9d986d6d2d0e200e1d4ba4bdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 125/212] fix: the gradient of one-dimensional PerlinNoise
 accumulated onto an uninitialized value

---
 geomc/function/PerlinNoise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/PerlinNoise.h b/geomc/function/PerlinNoise.h
index f032018..64eff73 100644
--- a/geomc/function/PerlinNoise.h
+++ b/geomc/function/PerlinNoise.h
@@ -164,7 +164,7 @@ public:
                 f[pair] = mix(t, a, b);
                 
                 // apply the multivariate chain rule:
-                point_t w;
+                point_t w = point_t();
                 // dt/dx is only nonzero along the current axis:
                 T* w_i  = pointtype::iterator(w) + axis;
                 //        dmix_dt(t, ...) * dt/dx
-- 
2.43.0


From 2856970f1570816493514b614da45b9a837eb3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 126/212] fix: the sum of two SphericalHarmonics was never
 computed nor returned

---
 geomc/function/SphericalHarmonics.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 8fc86c8..7346f65 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -545,11 +545,11 @@ class SphericalHarmonics {
      * Construct a SphericalHarmonics function which is the sum of this and another.
      */
     SphericalHarmonics<T,Bands> operator+(const SphericalHarmonics<T,Bands> &sh) {
-        index_t n = std::max(sh.size(), size());
+        index_t n = std::max(sh.bands(), bands());
         SphericalHarmonics<T,Bands> out(n);
-        for (index_t i; i < n; i++) {
-            out.coeffs[i] = coeffs[i] + sh.coeffs[i];
-        }
+        out += *this;
+        out += sh;
+        return out;
     }
     
     /**
-- 
2.43.0


From 92230e931ca4f940479df7941887d0db8ec4cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 127/212] fix: adding a constant to SphericalHarmonics added a
 different constant

---
 geomc/function/SphericalHarmonics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 7346f65..de478ca 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -526,7 +526,8 @@ class SphericalHarmonics {
      * @param k Bias.
      */
     SphericalHarmonics<T,Bands>& operator+=(T k) {
-        coeffs[0] += k;
+        // the first basis function has the constant value 1 / sqrt(4 * pi)
+        coeffs[0] += k * std::sqrt(4 * boost::math::constants::pi<T>());
         return *this;
     }
     
-- 
2.43.0


From 51b91e04c14950164eab910ae5e8ed6a34a515eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 128/212] fix: normalized SphericalHarmonics did not integrate
 to 1

---
 geomc/function/SphericalHarmonics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index de478ca..9a4fa39 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -285,9 +285,9 @@ class SphericalHarmonics {
      * If the integral is currently 0, no change will be made.
      */
     void normalize() {
-        T nh = coeffs[0];
+        T nh = coeffs[0] * std::sqrt(4 * boost::math::constants::pi<T>());
         if (nh == 0) return;
-        for (index_t i = 1; i < size(); i++) {
+        for (index_t i = 0; i < size(); i++) {
             coeffs[i] /= nh;
         }
     }
-- 
2.43.0


From 18d60c5a2bfe0ee29deb9631c233eb4b0ae1646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 129/212] fix: converting SphericalHarmonics to ZonalHarmonics
 scaled the bands wrongly

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 9a4fa39..bc148cb 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -616,7 +616,7 @@ class ZonalHarmonics {
         const T pi = boost::math::constants::pi<T>();
         Dimension<Bands>::set(n_bands,sh.bands());
         for (index_t l = 0; l < bands(); l++) {
-            coeffs[l] = sh.coeff(l,0) * std::sqrt((2*l - 1) / (4 * pi));
+            coeffs[l] = sh.coeff(l,0) * std::sqrt((2*l + 1) / (4 * pi));
         }
     }
     
-- 
2.43.0


From d372eed877f07f8bdebd6f0483b390dad4fe5a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 130/212] fix: ZonalHarmonics::dot read past the end of a
 shorter operand

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index bc148cb..2984db7 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -662,7 +662,7 @@ class ZonalHarmonics {
     T dot(const ZonalHarmonics<T,B> &zh) const {
         T sum = 0;
         const index_t n = std::min(bands(), zh.bands());
-        for (index_t i = 0; i < bands(); i++) {
+        for (index_t i = 0; i < n; i++) {
             sum += coeff(i) * zh.coeff(i);
         }
         return sum;
-- 
2.43.0


From 0e78520d53d6cc71f96235f7df2da17f66a64da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 131/212] fix: ZonalHarmonics::project evaluated the wrong
 Legendre polynomials

---
 geomc/function/SphericalHarmonics.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 2984db7..457a37f 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -763,11 +763,12 @@ class ZonalHarmonics {
         if (bands() > 1) coeffs[1] = x * val;
         T p_0 = 1;
         T p_1 = x;
-        for (index_t i = 1; i < bands(); i++) {
-            T p_i = (2 * i + 1) * x * p_1 - i * p_0 / ((T)i + 1);
+        for (index_t i = 1; i < bands() - 1; i++) {
+            // P(i + 1, x):
+            T p_i = ((2 * i + 1) * x * p_1 - i * p_0) / ((T)i + 1);
             p_0 = p_1;
             p_1 = p_i;
-            coeffs[i] = val * p_i;
+            coeffs[i + 1] = val * p_i;
         }
     }
     
-- 
2.43.0


From 9938bbb64cdb37f25355853899a23b9b52efdfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 132/212] fix: a first-order ZonalHarmonics lambertian included
 the second band

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 457a37f..bb27d3b 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -686,7 +686,7 @@ class ZonalHarmonics {
         clear();
         T fac = 1;
         coeffs[0] = 0.25;
-        if (bands() > 1) {
+        if (ct > 1) {
             coeffs[1] = 0.5;
             for (index_t n = 2; n < ct; n += 2) { // odd bands are 0.
                 fac *= n * (n - 1);
-- 
2.43.0


From 0a55265d02833a0437f6192eb9fe48db27add24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 133/212] fix: constructing SphericalHarmonics from fewer bands
 of ZonalHarmonics read past their end

---
 geomc/function/SphericalHarmonics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index bb27d3b..54979fd 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -190,7 +190,7 @@ class SphericalHarmonics {
         const index_t b = Bands > 0 ? std::min(zh.bands(), Bands) : zh.bands();
         Dimension<Bands>::set(n_bands, b);
         clear();
-        for (index_t l = 0; l < bands(); l++) {
+        for (index_t l = 0; l < b; l++) {
             T k = std::sqrt((4*pi) / (2 * l + 1));
             T p = zh.coeff(l);
             T v = p * k;
@@ -214,7 +214,7 @@ class SphericalHarmonics {
         project(new_axis, 1);
         for (index_t l = 0; l < bands(); l++) {
             for (index_t m = -l; m <= l; m++) {
-                coeff(l,m) *= zh.coeff(l) * std::sqrt((4*pi) / (2 * l + 1));
+                coeff(l,m) *= l < b ? zh.coeff(l) * std::sqrt((4*pi) / (2 * l + 1)) : 0;
             }
         }
     }
-- 
2.43.0


From f4a4fad64cd139f71675c8d6bd5b2384410cdff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 134/212] fix: re-oriented ZonalHarmonics were scaled wrongly

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 54979fd..aee20a2 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -214,7 +214,7 @@ class SphericalHarmonics {
         project(new_axis, 1);
         for (index_t l = 0; l < bands(); l++) {
             for (index_t m = -l; m <= l; m++) {
-                coeff(l,m) *= l < b ? zh.coeff(l) * std::sqrt((4*pi) / (2 * l + 1)) : 0;
+                coeff(l,m) *= l < b ? zh.coeff(l) * (4*pi) / (2 * l + 1) : 0;
             }
         }
     }
-- 
2.43.0


From 539ed33b1bfa63c490df07e0b00a7e6ec3b53ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 135/212] fix: convolution with ZonalHarmonics did not account
 for the scale of their coefficients

---
 geomc/function/SphericalHarmonics.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index aee20a2..bfe5115 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -302,7 +302,7 @@ class SphericalHarmonics {
         for (index_t l = 0; l < bands(); l++) {
             for (index_t m = -l; m <= l; m++) {
                 if (l < zh.bands())
-                    coeff(l,m) *= zh.coeff(l);
+                    coeff(l,m) *= zh.coeff(l) * 4 * boost::math::constants::pi<T>() / (2 * l + 1);
                 else
                     coeff(l,m)  = 0;
             }
@@ -778,7 +778,7 @@ class ZonalHarmonics {
      */
     void convolve(const ZonalHarmonics<T,Bands> &kernel) {
         for (index_t l = 0; l < bands(); l++) {
-            T k = std::sqrt((boost::math::constants::pi<T>() * 4) / (2 * l + 1));
+            T k = (boost::math::constants::pi<T>() * 4) / (2 * l + 1);
             coeffs[l] *= k * kernel.coeffs[l];
         }
     }
@@ -795,7 +795,7 @@ class ZonalHarmonics {
         // xxx debug
         //std::cout << "diffusing to " << t << "\n";
         for (index_t l = 0; l < bands(); l++) {
-            T k = std::sqrt((boost::math::constants::pi<T>() * 4) / (2 * l + 1));
+            T k = (boost::math::constants::pi<T>() * 4) / (2 * l + 1);
             T m = k * coeffs[l];
             coeffs[l] = detail::cpow(m, t) / k;
             //std::cout << m << " --> " << coeffs[l] * k << "\n";
-- 
2.43.0


From 3ca3587e8675784211f0ca2d69f6a8ba623b534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 136/212] fix: bounded random integers were not uniform for
 bounds above three quarters of the type's range

---
 geomc/random/Random.cpp | 589 ++++++++++++++++++++--------------------
 1 file changed, 291 insertions(+), 298 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index b5a053e..0e01859 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -1,298 +1,291 @@
-/*
- * Random.cpp
- *
- *  Created on: Feb 22, 2009
- *      Author: Tim Babb
- */
-
-#include <assert.h>
-#include <algorithm>
-#include <limits>
-
-#include <geomc/random/Random.h>
-
-#define INT_SIGNBIT       (1 << std::numeric_limits<int>::digits)
-#define LONG_SIGNBIT      (1L << std::numeric_limits<long>::digits)
-#define LONG_LONG_SIGNBIT (1LL << std::numeric_limits<long long>::digits)
-
-using namespace std;
-using namespace geom;
-
-typedef union fpbox {
-    uint32_t i;
-    float f;
-    uint64_t l;
-    double d;
-} FPBox;
-
-/**********************************
- * Structors                      *
- **********************************/
-
-Random::Random():_bitpool(0),
-                 _bitsleft(0) {}
-
-Random::~Random() {}
-
-/**********************************
- * Elementary Specializations     *
- **********************************/
-
-namespace geom {
-
-    
-template <> bool Random::rand<bool>() {
-    if (_bitsleft == 0) {
-        _bitpool = this->rand32();
-        _bitsleft = 32;
-    }
-    int bit = _bitpool & 1;
-    _bitpool = _bitpool >> 1;
-    _bitsleft--;
-    return bit;
-}
-
-
-template <> unsigned int Random::rand<unsigned int>() {
-    unsigned int bits = 0;
-    const int chunks = (std::numeric_limits<unsigned int>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
-#if UINT_MAX > (1LL << 32) - 1
-    for (int i = 0; i < chunks; i++) {
-        bits = (bits << 32) | rand32();
-    }
-#else
-    bits =(unsigned int)rand32();
-#endif
-    return bits;
-}
-
-
-template <> int Random::rand<int>() {
-    return rand<unsigned int>(); //MSB is now a sign bit; covers the entire range of <int> type. might we want to change this? 
-}
-
-
-template <> unsigned long Random::rand<unsigned long>() {
-    unsigned long bits = 0;
-    const int chunks = (std::numeric_limits<unsigned long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
-#if ULONG_MAX > (1LL << 32) - 1
-    for (int i = 0; i < chunks; i++) {
-        bits = (bits << 32) | rand32();
-    }
-#else
-    bits = (unsigned long)rand32();
-#endif
-    return bits;
-}
-
-
-template <> long Random::rand<long>() {
-    return rand<unsigned long>();
-}
-
-
-template <> unsigned long long Random::rand<unsigned long long>() {
-    unsigned long long bits = 0;
-    const int chunks = (std::numeric_limits<unsigned long long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
-    for (int i = 0; i < chunks; i++) {
-        bits = (bits << 32) | rand32();
-    }
-    return bits;
-}
-
-
-template <> long long Random::rand<long long>() {
-    return rand<unsigned long long>();
-}
-
-/* From the unpublished paper by Allen B. Downey.
- * https://allendowney.com/research/rand/downey07randfloat.pdf
- *
- * The conventional method of dividing a random number
- * by a constant excludes about 93% of the representable
- * floating point values between 0.0 and 1.0. Instead
- * we pick the bits of our number explicitly, but must
- * be careful to do so such that the distribution is
- * uniform. This method is fast, and makes efficient
- * use of our pseudorandom bits.
- *
- * The gist: Pick the mantissa, then pick the exponent
- * by iterative coin-flipping.
- */
-
-//TODO: use numeric_limits instead of hard-coded masks
-//see: boost::integer's int_t<bits>
-
-template <> float Random::rand<float>() {
-    // without IEEE754, our bit twiddling will not work.
-    // generally this will only fail for "exotic" systems:
-    static_assert(std::numeric_limits<float>::is_iec559, "floating point must be ieee754");
-    
-    uint32_t mant;
-    int exp, hi_exp, lo_exp;
-    FPBox lo, hi, ans;
-
-    lo.f = 0.0;
-    hi.f = 1.0;
-
-    lo_exp = (lo.i >> 23) & 0xFF;
-    hi_exp = (hi.i >> 23) & 0xFF;
-
-    //not >= because exp is decremented at the end of the last loop
-    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
-        if (rand<bool>()) break;
-    }
-
-    mant = (rand32() & 0xFFFFFE00) >> 9; //use the high quality bits
-
-    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
-
-    ans.i = (((uint32_t)exp) << 23) | mant; //combine exp and mantissa
-    return ans.f;
-}
-
-
-template <> double Random::rand<double>() {
-    // without IEEE754, our bit twiddling will not work.
-    // generally this will only fail for "exotic" systems:
-    static_assert(std::numeric_limits<double>::is_iec559, "floating point must be ieee754");
-    
-    int exp, hi_exp, lo_exp;
-    uint64_t mant;
-    FPBox lo, hi, ans;
-
-    lo.d = 0.0;
-    hi.d = 1.0;
-
-    lo_exp = (lo.l >> 52) & 0x7FF;
-    hi_exp = (hi.l >> 52) & 0x7FF;
-
-    //not >= because exp is decremented at the end of the last loop
-    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
-        if (rand<bool>()) break;
-    }
-    
-    mant = ((uint64_t)rand32() << 32) | rand32();
-    mant = (mant & 0xFFFFFFFFFFFFF000LL) >> 12; //use the high quality bits
-
-    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
-
-    ans.l = (((uint64_t)exp) << 52) | mant; //combine exp and mantissa
-    return ans.d;
-}
-
-/**********************************
- * Positive Range Specializations *
- **********************************/
-
-
-template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
-    unsigned int bits, val, lo;
-
-    do {
-        bits = rand<unsigned int>();
-        val = bits % hi;
-        lo = bits - val;
-        //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & INT_SIGNBIT) & ~(lo+(hi-1)) );
-    return val;
-}
-
-
-template <> int Random::rand<int>(int hi) {
-    if (hi < 0) {
-        return -rand<unsigned int>(-hi);
-    } else {
-        return rand<unsigned int>(hi);
-    }
-}
-
-
-template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
-    unsigned long bits, val, lo;
-
-    do {
-        bits = rand<unsigned long>();
-        val = bits % hi;
-        lo = bits - val;
-        //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_SIGNBIT) & ~(lo+(hi-1)) );
-    return val;
-}
-
-
-template <> long Random::rand<long>(long hi) {
-    if (hi < 0) {
-        return -rand<unsigned long>(-hi);
-    } else {
-        return rand<unsigned long>(hi);
-    }
-}
-
-
-template <> unsigned long long Random::rand<unsigned long long>(unsigned long long hi) {
-    unsigned long long bits, val, lo;
-
-    do {
-        bits = rand<unsigned long long>();
-        val = bits % hi;
-        lo = bits - val;
-        //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_LONG_SIGNBIT) & ~(lo+(hi-1)) );
-    return val;
-}
-
-
-template <> long long Random::rand<long long>(long long hi) {
-    if (hi < 0) {
-        return -rand<unsigned long long>(-hi);
-    } else {
-        return rand<unsigned long long>(hi);
-    }
-}
-
-
-template <> float Random::rand<float>(float hi) {
-    return hi * rand<float>();
-}
-
-
-template <> double Random::rand<double>(double hi) {
-    return hi * rand<double>();
-}
-
-/**********************************
- * Full Range Specializations     *
- **********************************/
-
-// todo: some of these will fail for ranges crossing zero where lo - hi is
-// greater than INT_MAX.
-
-
-template <> int Random::rand<int>(int lo, int hi) {
-    int lo1 = min(hi,lo);
-    return rand<int>(max(hi,lo) - lo1) + lo1;
-}
-
-
-template <> long long Random::rand<long long>(long long lo, long long hi) {
-    long long lo1 = min(hi,lo);
-    return rand<long long>(max(hi,lo) - lo1) + lo1;
-}
-
-
-template <> float Random::rand<float>(float lo, float hi) {
-    return (hi-lo)*rand<float>() + lo;
-}
-
-
-template <> double Random::rand<double>(double lo, double hi) {
-    return (hi-lo)*rand<double>() + lo;
-}
-
-/// @} //ingroup random
-
-} //end namespace geom
+/*
+ * Random.cpp
+ *
+ *  Created on: Feb 22, 2009
+ *      Author: Tim Babb
+ */
+
+#include <assert.h>
+#include <algorithm>
+#include <limits>
+
+#include <geomc/random/Random.h>
+
+using namespace std;
+using namespace geom;
+
+typedef union fpbox {
+    uint32_t i;
+    float f;
+    uint64_t l;
+    double d;
+} FPBox;
+
+/**********************************
+ * Structors                      *
+ **********************************/
+
+Random::Random():_bitpool(0),
+                 _bitsleft(0) {}
+
+Random::~Random() {}
+
+/**********************************
+ * Elementary Specializations     *
+ **********************************/
+
+namespace geom {
+
+    
+template <> bool Random::rand<bool>() {
+    if (_bitsleft == 0) {
+        _bitpool = this->rand32();
+        _bitsleft = 32;
+    }
+    int bit = _bitpool & 1;
+    _bitpool = _bitpool >> 1;
+    _bitsleft--;
+    return bit;
+}
+
+
+template <> unsigned int Random::rand<unsigned int>() {
+    unsigned int bits = 0;
+    const int chunks = (std::numeric_limits<unsigned int>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
+#if UINT_MAX > (1LL << 32) - 1
+    for (int i = 0; i < chunks; i++) {
+        bits = (bits << 32) | rand32();
+    }
+#else
+    bits =(unsigned int)rand32();
+#endif
+    return bits;
+}
+
+
+template <> int Random::rand<int>() {
+    return rand<unsigned int>(); //MSB is now a sign bit; covers the entire range of <int> type. might we want to change this? 
+}
+
+
+template <> unsigned long Random::rand<unsigned long>() {
+    unsigned long bits = 0;
+    const int chunks = (std::numeric_limits<unsigned long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
+#if ULONG_MAX > (1LL << 32) - 1
+    for (int i = 0; i < chunks; i++) {
+        bits = (bits << 32) | rand32();
+    }
+#else
+    bits = (unsigned long)rand32();
+#endif
+    return bits;
+}
+
+
+template <> long Random::rand<long>() {
+    return rand<unsigned long>();
+}
+
+
+template <> unsigned long long Random::rand<unsigned long long>() {
+    unsigned long long bits = 0;
+    const int chunks = (std::numeric_limits<unsigned long long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
+    for (int i = 0; i < chunks; i++) {
+        bits = (bits << 32) | rand32();
+    }
+    return bits;
+}
+
+
+template <> long long Random::rand<long long>() {
+    return rand<unsigned long long>();
+}
+
+/* From the unpublished paper by Allen B. Downey.
+ * https://allendowney.com/research/rand/downey07randfloat.pdf
+ *
+ * The conventional method of dividing a random number
+ * by a constant excludes about 93% of the representable
+ * floating point values between 0.0 and 1.0. Instead
+ * we pick the bits of our number explicitly, but must
+ * be careful to do so such that the distribution is
+ * uniform. This method is fast, and makes efficient
+ * use of our pseudorandom bits.
+ *
+ * The gist: Pick the mantissa, then pick the exponent
+ * by iterative coin-flipping.
+ */
+
+//TODO: use numeric_limits instead of hard-coded masks
+//see: boost::integer's int_t<bits>
+
+template <> float Random::rand<float>() {
+    // without IEEE754, our bit twiddling will not work.
+    // generally this will only fail for "exotic" systems:
+    static_assert(std::numeric_limits<float>::is_iec559, "floating point must be ieee754");
+    
+    uint32_t mant;
+    int exp, hi_exp, lo_exp;
+    FPBox lo, hi, ans;
+
+    lo.f = 0.0;
+    hi.f = 1.0;
+
+    lo_exp = (lo.i >> 23) & 0xFF;
+    hi_exp = (hi.i >> 23) & 0xFF;
+
+    //not >= because exp is decremented at the end of the last loop
+    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
+        if (rand<bool>()) break;
+    }
+
+    mant = (rand32() & 0xFFFFFE00) >> 9; //use the high quality bits
+
+    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
+
+    ans.i = (((uint32_t)exp) << 23) | mant; //combine exp and mantissa
+    return ans.f;
+}
+
+
+template <> double Random::rand<double>() {
+    // without IEEE754, our bit twiddling will not work.
+    // generally this will only fail for "exotic" systems:
+    static_assert(std::numeric_limits<double>::is_iec559, "floating point must be ieee754");
+    
+    int exp, hi_exp, lo_exp;
+    uint64_t mant;
+    FPBox lo, hi, ans;
+
+    lo.d = 0.0;
+    hi.d = 1.0;
+
+    lo_exp = (lo.l >> 52) & 0x7FF;
+    hi_exp = (hi.l >> 52) & 0x7FF;
+
+    //not >= because exp is decremented at the end of the last loop
+    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
+        if (rand<bool>()) break;
+    }
+    
+    mant = ((uint64_t)rand32() << 32) | rand32();
+    mant = (mant & 0xFFFFFFFFFFFFF000LL) >> 12; //use the high quality bits
+
+    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
+
+    ans.l = (((uint64_t)exp) << 52) | mant; //combine exp and mantissa
+    return ans.d;
+}
+
+/**********************************
+ * Positive Range Specializations *
+ **********************************/
+
+
+template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
+    unsigned int bits, val, lo;
+
+    do {
+        bits = rand<unsigned int>();
+        val = bits % hi;
+        lo = bits - val;
+        //while this chunk wraps around to zero:
+    } while ( lo + (hi - 1) < lo );
+    return val;
+}
+
+
+template <> int Random::rand<int>(int hi) {
+    if (hi < 0) {
+        return -rand<unsigned int>(-hi);
+    } else {
+        return rand<unsigned int>(hi);
+    }
+}
+
+
+template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
+    unsigned long bits, val, lo;
+
+    do {
+        bits = rand<unsigned long>();
+        val = bits % hi;
+        lo = bits - val;
+        //while this chunk wraps around to zero:
+    } while ( lo + (hi - 1) < lo );
+    return val;
+}
+
+
+template <> long Random::rand<long>(long hi) {
+    if (hi < 0) {
+        return -rand<unsigned long>(-hi);
+    } else {
+        return rand<unsigned long>(hi);
+    }
+}
+
+
+template <> unsigned long long Random::rand<unsigned long long>(unsigned long long hi) {
+    unsigned long long bits, val, lo;
+
+    do {
+        bits = rand<unsigned long long>();
+        val = bits % hi;
+        lo = bits - val;
+        //while this chunk wraps around to zero:
+    } while ( lo + (hi - 1) < lo );
+    return val;
+}
+
+
+template <> long long Random::rand<long long>(long long hi) {
+    if (hi < 0) {
+        return -rand<unsigned long long>(-hi);
+    } else {
+        return rand<unsigned long long>(hi);
+    }
+}
+
+
+template <> float Random::rand<float>(float hi) {
+    return hi * rand<float>();
+}
+
+
+template <> double Random::rand<double>(double hi) {
+    return hi * rand<double>();
+}
+
+/**********************************
+ * Full Range Specializations     *
+ **********************************/
+
+// todo: some of these will fail for ranges crossing zero where lo - hi is
+// greater than INT_MAX.
+
+
+template <> int Random::rand<int>(int lo, int hi) {
+    int lo1 = min(hi,lo);
+    return rand<int>(max(hi,lo) - lo1) + lo1;
+}
+
+
+template <> long long Random::rand<long long>(long long lo, long long hi) {
+    long long lo1 = min(hi,lo);
+    return rand<long long>(max(hi,lo) - lo1) + lo1;
+}
+
+
+template <> float Random::rand<float>(float lo, float hi) {
+    return (hi-lo)*rand<float>() + lo;
+}
+
+
+template <> double Random::rand<double>(double lo, double hi) {
+    return (hi-lo)*rand<double>() + lo;
+}
+
+/// @} //ingroup random
+
+} //end namespace geom
-- 
2.43.0


From 091bb0aaca34927e3f377b137020f79e3523be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 137/212] fix: a random integer of an empty range divided by
 zero

---
 geomc/random/Random.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index 0e01859..1afbf15 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -184,6 +184,8 @@ template <> double Random::rand<double>() {
 
 template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
     unsigned int bits, val, lo;
+    
+    if (hi == 0) return 0;
 
     do {
         bits = rand<unsigned int>();
@@ -206,6 +208,8 @@ template <> int Random::rand<int>(int hi) {
 
 template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
     unsigned long bits, val, lo;
+    
+    if (hi == 0) return 0;
 
     do {
         bits = rand<unsigned long>();
@@ -228,6 +232,8 @@ template <> long Random::rand<long>(long hi) {
 
 template <> unsigned long long Random::rand<unsigned long long>(unsigned long long hi) {
     unsigned long long bits, val, lo;
+    
+    if (hi == 0) return 0;
 
     do {
         bits = rand<unsigned long long>();
-- 
2.43.0


From 8636b786382c5f8ddd940e5a829c6b9c3924c041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 138/212] fix: negative bounds of random integers overflowed

---
 geomc/random/Random.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index 1afbf15..e59dfa2 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -199,7 +199,7 @@ template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
 
 template <> int Random::rand<int>(int hi) {
     if (hi < 0) {
-        return -rand<unsigned int>(-hi);
+        return -(int) rand<unsigned int>(-(unsigned int) hi);
     } else {
         return rand<unsigned int>(hi);
     }
@@ -223,7 +223,7 @@ template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
 
 template <> long Random::rand<long>(long hi) {
     if (hi < 0) {
-        return -rand<unsigned long>(-hi);
+        return -(long) rand<unsigned long>(-(unsigned long) hi);
     } else {
         return rand<unsigned long>(hi);
     }
@@ -247,7 +247,7 @@ template <> unsigned long long Random::rand<unsigned long long>(unsigned long lo
 
 template <> long long Random::rand<long long>(long long hi) {
     if (hi < 0) {
-        return -rand<unsigned long long>(-hi);
+        return -(long long) rand<unsigned long long>(-(unsigned long long) hi);
     } else {
         return rand<unsigned long long>(hi);
     }
-- 
2.43.0


From dbc691d867e0c42d620dcfd031b28e0b558b5b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 139/212] fix: wide ranges of random integers overflowed

---
 geomc/random/Random.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index e59dfa2..6e89cc9 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -267,19 +267,19 @@ template <> double Random::rand<double>(double hi) {
  * Full Range Specializations     *
  **********************************/
 
-// todo: some of these will fail for ranges crossing zero where lo - hi is
-// greater than INT_MAX.
-
-
 template <> int Random::rand<int>(int lo, int hi) {
     int lo1 = min(hi,lo);
-    return rand<int>(max(hi,lo) - lo1) + lo1;
+    // the size of the range may exceed the largest `int`
+    unsigned int range = (unsigned int) max(hi,lo) - (unsigned int) lo1;
+    return (int) (rand<unsigned int>(range) + (unsigned int) lo1);
 }
 
 
 template <> long long Random::rand<long long>(long long lo, long long hi) {
     long long lo1 = min(hi,lo);
-    return rand<long long>(max(hi,lo) - lo1) + lo1;
+    // the size of the range may exceed the largest `long long`
+    unsigned long long range = (unsigned long long) max(hi,lo) - (unsigned long long) lo1;
+    return (long long) (rand<unsigned long long>(range) + (unsigned long long) lo1);
 }
 
 
-- 
2.43.0


From 39a556b954eacbaae65f0f0c0a223e58eec25674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 140/212] fix: random reals could exceed their range by
 roundoff

---
 geomc/random/Random.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index 6e89cc9..b17a329 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -284,12 +284,16 @@ template <> long long Random::rand<long long>(long long lo, long long hi) {
 
 
 template <> float Random::rand<float>(float lo, float hi) {
-    return (hi-lo)*rand<float>() + lo;
+    float x = (hi-lo)*rand<float>() + lo;
+    // roundoff may carry the result past the ends of the range
+    return min(max(x, min(lo,hi)), max(lo,hi));
 }
 
 
 template <> double Random::rand<double>(double lo, double hi) {
-    return (hi-lo)*rand<double>() + lo;
+    double x = (hi-lo)*rand<double>() + lo;
+    // roundoff may carry the result past the ends of the range
+    return min(max(x, min(lo,hi)), max(lo,hi));
 }
 
 /// @} //ingroup random
-- 
2.43.0


From a7400a9befeab6bd9239f4bae7c985362e110c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 141/212] fix: reseeding a random number generator kept
 leftover bits of the previous stream

---
 geomc/random/LCRand.cpp |   1 +
 geomc/random/MTRand.cpp | 149 ++++++++++++++++++++--------------------
 geomc/random/Xorshiro.h |   3 +
 3 files changed, 79 insertions(+), 74 deletions(-)

diff --git a/geomc/random/LCRand.cpp b/geomc/random/LCRand.cpp
index b48b96c..601ffc1 100644
--- a/geomc/random/LCRand.cpp
+++ b/geomc/random/LCRand.cpp
@@ -24,6 +24,7 @@ uint32_t LCRand::rand32(){
 
 void LCRand::rseed(uint64_t seed){
     state = seed;
+    _bitsleft = 0; // discard bits of the previous stream
 }
 
 } /* namespace geom */
diff --git a/geomc/random/MTRand.cpp b/geomc/random/MTRand.cpp
index a889d89..bc7efdf 100644
--- a/geomc/random/MTRand.cpp
+++ b/geomc/random/MTRand.cpp
@@ -1,74 +1,75 @@
-/*
- * MTRand.cpp
- * Mersenne Twister Random Number Generator
- *
- *  Created on: Feb 22, 2009
- *      Author: Tim Babb
- *
- * Based on public domain code by michael brundage. snipped from:
- * http://www.qbrundage.com/michaelb/pubs/essays/random_number_generation.html
- * 
- * NOT CRYPTOGRAPHICALLY SECURE! Don't use for cryptography/gambling
- */
-
-#include <ctime>
-#include <limits>
-#include <geomc/random/MTRand.h>
-#include <geomc/random/LCRand.h>
-
-using namespace geom;
-
-int MTRand::uniq = 0;
-
-#define MT_IA           397
-#define MT_IB           (MT_LEN - MT_IA)
-#define UPPER_MASK      0x80000000
-#define LOWER_MASK      0x7FFFFFFF
-#define MATRIX_A        0x9908B0DF
-#define TWIST(b,i,j)    ((b)[i] & UPPER_MASK) | ((b)[j] & LOWER_MASK)
-#define MAGIC(s)        (((s)&1)*MATRIX_A)
-
-MTRand::MTRand(){
-    this->rseed(time(0) ^ (clock() + uniq++));
-}
-
-MTRand::MTRand(uint64_t seed){
-    this->rseed(seed);
-}
-
-MTRand::~MTRand() {
-    //do nothing
-}
-
-uint32_t MTRand::rand32() {
-    uint32_t *b = mt_buffer;
-    int idx = mt_index;
-    uint32_t s;
-    int i;
-
-    if (idx == MT_LEN*sizeof(uint32_t)) {
-        idx = 0;
-        i = 0;
-        for (; i < MT_IB; i++) {
-            s = TWIST(b, i, i+1);
-            b[i] = b[i + MT_IA] ^ (s >> 1) ^ MAGIC(s);
-        }
-        for (; i < MT_LEN-1; i++) {
-            s = TWIST(b, i, i+1);
-            b[i] = b[i - MT_IB] ^ (s >> 1) ^ MAGIC(s);
-        }
-
-        s = TWIST(b, MT_LEN-1, 0);
-        b[MT_LEN-1] = b[MT_IA-1] ^ (s >> 1) ^ MAGIC(s);
-    }
-    mt_index = idx + sizeof(uint32_t);
-    return *(uint32_t*)((unsigned char*)b + idx);
-}
-
-void MTRand::rseed(uint64_t seed){
-    LCRand seeder(seed);
-    for (int i = 0; i < MT_LEN; i++){
-        mt_buffer[i] = seeder.rand32();
-    }
-    mt_index = 0;
-}
+/*
+ * MTRand.cpp
+ * Mersenne Twister Random Number Generator
+ *
+ *  Created on: Feb 22, 2009
+ *      Author: Tim Babb
+ *
+ * Based on public domain code by michael brundage. snipped from:
+ * http://www.qbrundage.com/michaelb/pubs/essays/random_number_generation.html
+ * 
+ * NOT CRYPTOGRAPHICALLY SECURE! Don't use for cryptography/gambling
+ */
+
+#include <ctime>
+#include <limits>
+#include <geomc/random/MTRand.h>
+#include <geomc/random/LCRand.h>
+
+using namespace geom;
+
+int MTRand::uniq = 0;
+
+#define MT_IA           397
+#define MT_IB           (MT_LEN - MT_IA)
+#define UPPER_MASK      0x80000000
+#define LOWER_MASK      0x7FFFFFFF
+#define MATRIX_A        0x9908B0DF
+#define TWIST(b,i,j)    ((b)[i] & UPPER_MASK) | ((b)[j] & LOWER_MASK)
+#define MAGIC(s)        (((s)&1)*MATRIX_A)
+
+MTRand::MTRand(){
+    this->rseed(time(0) ^ (clock() + uniq++));
+}
+
+MTRand::MTRand(uint64_t seed){
+    this->rseed(seed);
+}
+
+MTRand::~MTRand() {
+    //do nothing
+}
+
+uint32_t MTRand::rand32() {
+    uint32_t *b = mt_buffer;
+    int idx = mt_index;
+    uint32_t s;
+    int i;
+
+    if (idx == MT_LEN*sizeof(uint32_t)) {
+        idx = 0;
+        i = 0;
+        for (; i < MT_IB; i++) {
+            s = TWIST(b, i, i+1);
+            b[i] = b[i + MT_IA] ^ (s >> 1) ^ MAGIC(s);
+        }
+        for (; i < MT_LEN-1; i++) {
+            s = TWIST(b, i, i+1);
+            b[i] = b[i - MT_IB] ^ (s >> 1) ^ MAGIC(s);
+        }
+
+        s = TWIST(b, MT_LEN-1, 0);
+        b[MT_LEN-1] = b[MT_IA-1] ^ (s >> 1) ^ MAGIC(s);
+    }
+    mt_index = idx + sizeof(uint32_t);
+    return *(uint32_t*)((unsigned char*)b + idx);
+}
+
+void MTRand::rseed(uint64_t seed){
+    LCRand seeder(seed);
+    for (int i = 0; i < MT_LEN; i++){
+        mt_buffer[i] = seeder.rand32();
+    }
+    mt_index = 0;
+    _bitsleft = 0; // discard bits of the previous stream
+}
diff --git a/geomc/random/Xorshiro.h b/geomc/random/Xorshiro.h
index aaaa804..4da047d 100644
--- a/geomc/random/Xorshiro.h
+++ b/geomc/random/Xorshiro.h
@@ -39,6 +39,7 @@ public:
         s[1] = splitmix64(&x);
         s[2] = splitmix64(&x);
         s[3] = splitmix64(&x);
+        _bitsleft = 0; // discard bits of the previous stream
     }
     
     template <typename F>
@@ -52,6 +53,7 @@ public:
         s[2] = splitmix64(&x);
         x = entropy();
         s[3] = splitmix64(&x);
+        _bitsleft = 0;
     }
     
     void seed(const uint64_t entropy[4]) {
@@ -59,6 +61,7 @@ public:
         s[1] = entropy[1];
         s[2] = entropy[2];
         s[3] = entropy[3];
+        _bitsleft = 0;
     }
     
     uint64_t rand64() {
-- 
2.43.0


From 87391b1a89543ae0acee5641526da0302f71d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 142/212] fix: random unit vectors could be undefined

---
 geomc/random/RandomTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index d7c2d60..32473e4 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -138,7 +138,7 @@ public:
                 v[i] = this->rng->template rand<T>(-1,1);
             }
             // discard points outside the unit ball
-        } while (v.mag2() > 1);
+        } while (v.mag2() > 1 or v.is_zero());
         return v.unit(); // return point on ball surface
     }
     
-- 
2.43.0


From b21d7f6ff9385dcf21d70f175b368abfcc1c09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 143/212] fix: random points in a ball were crowded about its
 center

---
 geomc/random/RandomTools.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index 32473e4..c9b9ff6 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -177,8 +177,7 @@ public:
      */
     template <index_t N> 
     inline Vec<T,N> solidball(T radius) {
-        T r = std::pow(this->rng->template rand<T>(), ((T)1)/N);
-        return solidball<N>() * r * radius;
+        return solidball<N>() * radius;
     }
     
     /**
-- 
2.43.0


From 143c33cf0939b656c1d12c59d42f2f33f1aca6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 144/212] fix: random points of shells, caps and arcs never
 came near the inner radius

---
 geomc/random/RandomTools.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index c9b9ff6..dea03b6 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -191,7 +191,7 @@ public:
      */
     template <index_t N> 
     Vec<T,N> shell(T minradius, T maxradius) {
-        T radius = std::pow(this->rng->template rand<T>(minradius/maxradius, 1), ((T)1)/N);
+        T radius = std::pow(this->rng->template rand<T>(std::pow(minradius/maxradius, (T)N), 1), ((T)1)/N);
         return this->unit<N>() * radius * maxradius;
     }
     
@@ -285,7 +285,8 @@ public:
      * distributed throughout the volume.
      */
     inline Vec<T,3> solidcap(Vec<T,3> dir, T half_angle_radians, T minR, T maxR) {
-        T r = this->rng->template rand<T>(minR / maxR, 1);
+        T k = minR / maxR;
+        T r = this->rng->template rand<T>(k * k * k, 1);
         r = maxR * std::cbrt(r);
         return r * this->cap(dir, half_angle_radians);
     }
@@ -375,7 +376,8 @@ public:
     Vec<T,2> solidarc(T min_radians, T max_radians,
                       T min_radius,  T max_radius) {
         T angle = this->rng->template rand<T>(min_radians, max_radians);
-        T len   = max_radius * std::sqrt(this->rng->template rand<T>(min_radius / max_radius, 1));
+        T k     = min_radius / max_radius;
+        T len   = max_radius * std::sqrt(this->rng->template rand<T>(k * k, 1));
         return Vec<T,2>(len,angle).from_polar();
     }
     
-- 
2.43.0


From c8bc89016199d945981d085abf3add505bc588b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 145/212] fix: random points of a cap about the negative z axis
 were on the opposite side

---
 geomc/random/RandomTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index dea03b6..84bea36 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -271,7 +271,7 @@ public:
     inline Vec<T,3> cap(Vec<T,3> dir, T half_angle_radians) {
         Vec<T,3> v = this->cap(half_angle_radians);
         Vec<T,3> rotAxis = Vec<T,3>(0,0,1).cross(dir);
-        if (rotAxis.is_zero()) return v;
+        if (rotAxis.is_zero()) return dir.z < 0 ? -v : v;
         return v.rotate(rotAxis, std::acos(dir.z/dir.mag()));
     }
     
-- 
2.43.0


From 3238936abb34ac87868341647c387e9e1f84946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 146/212] fix: random longs had only 32 bits, for want of the
 definition of ULONG_MAX

---
 geomc/random/Random.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index b17a329..db5eb68 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <assert.h>
+#include <climits>
 #include <algorithm>
 #include <limits>
 
-- 
2.43.0


From 8cf0ff137dbfee8ce2019fc2b620872326b62add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 147/212] fix: Capsule::project() and normal() compile for
 non-int coordinates

---
 geomc/shape/Capsule.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Capsule.h b/geomc/shape/Capsule.h
index 3765eb8..96b52d0 100644
--- a/geomc/shape/Capsule.h
+++ b/geomc/shape/Capsule.h
@@ -61,7 +61,7 @@ public:
         point_t v    = p  - p0;
         point_t axis = p1 - p0;
         T frac = v.dot(axis) / axis.mag2();
-        return p0 + axis * clamp(frac, 0, 1);
+        return p0 + axis * clamp<T>(frac, 0, 1);
     }
     
     /**
-- 
2.43.0


From 1339ba96b1c26787e3684a8a8a968aaeafc79284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 148/212] fix: capsules with coincident endpoints are spheres

---
 geomc/shape/Capsule.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Capsule.h b/geomc/shape/Capsule.h
index 96b52d0..f8a60f2 100644
--- a/geomc/shape/Capsule.h
+++ b/geomc/shape/Capsule.h
@@ -60,7 +60,9 @@ public:
     point_t nearest_axis_point(point_t p) const {
         point_t v    = p  - p0;
         point_t axis = p1 - p0;
-        T frac = v.dot(axis) / axis.mag2();
+        T a2   = axis.mag2();
+        // a zero-length axis is a sphere
+        T frac = a2 > 0 ? v.dot(axis) / a2 : 0;
         return p0 + axis * clamp<T>(frac, 0, 1);
     }
     
@@ -83,7 +85,8 @@ public:
     T sdf(point_t p) const {
         point_t b    = p  - p0;
         point_t axis = p1 - p0;
-        T frac = clamp<T>(b.dot(axis) / axis.mag2(), 0, 1);
+        T a2   = axis.mag2();
+        T frac = a2 > 0 ? clamp<T>(b.dot(axis) / a2, 0, 1) : 0;
         return (b - frac * axis).mag() - radius;
     }
     
-- 
2.43.0


From ffd3ec5da7618d6b2b4a683b80280009d9426b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 149/212] fix: dilate() compiles for non-int coordinates

---
 geomc/shape/Dilated.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 8757cd9..31fb93a 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -126,7 +126,7 @@ public:
  */
 template <typename Shape>
 inline Dilated<Shape> dilate(const Shape& s, typename Shape::elem_t dilation) {
-    return Dilated<Shape>(s, std::max(dilation, 0));
+    return Dilated<Shape>(s, std::max<typename Shape::elem_t>(dilation, 0));
 }
 
 /**
@@ -135,7 +135,7 @@ inline Dilated<Shape> dilate(const Shape& s, typename Shape::elem_t dilation) {
  */
 template <typename Shape>
 inline Dilated<Shape> dilate(const Dilated<Shape>& s, typename Shape::elem_t dilation) {
-    return Dilated<Shape>(s.shape, std::max(s.dilation + dilation, 0));
+    return Dilated<Shape>(s.shape, std::max<typename Shape::elem_t>(s.dilation + dilation, 0));
 }
 
 /**
@@ -160,7 +160,7 @@ inline Plane<T,N> dilate(Plane<T,N> p, T dilation) {
  */
 template <typename T, index_t N>
 inline Sphere<T,N> dilate(const Sphere<T,N>& s, T dilation) {
-    return Sphere<T,N>(s.center, std::max(s.r + dilation, 0));
+    return Sphere<T,N>(s.center, std::max<T>(s.r + dilation, 0));
 }
 
 /**
-- 
2.43.0


From 36af545c465329926264b74aa0a0a079add70212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 150/212] fix: Dilated(shape) initializes the dilation

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 31fb93a..d24941f 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -66,7 +66,7 @@ public:
     Dilated():dilation((T)0) {}
     
     /// Wrap `s` with zero dilation.
-    Dilated(const Shape& s):shape(s) {}
+    Dilated(const Shape& s):shape(s), dilation((T)0) {}
     
     /// Dilate `s` by the amount `dilation`.
     Dilated(const Shape& s, T dilation):shape(s), dilation(dilation) {}
-- 
2.43.0


From 5ce4b0536705019f1d0b0d047cdd7b37bdbaa4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 151/212] fix: dilated shapes contain their surface

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index d24941f..4beb744 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -77,7 +77,7 @@ public:
     
     /// Point containment test.
     bool contains(Vec<T,N> p) const {
-        return sdf(p) < 0;
+        return sdf(p) <= 0;
     }
     
     /// Signed distance function.
-- 
2.43.0


From 0c32bda73448a37e3fb2a70a18fe5a0077be09e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 152/212] fix: dilate(Plane) moves the plane along its normal

---
 geomc/shape/Dilated.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 4beb744..f0c360d 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -147,7 +147,8 @@ inline Dilated<Shape> dilate(const Dilated<Shape>& s, typename Shape::elem_t dil
  */
 template <typename T, index_t N>
 inline Plane<T,N> dilate(Plane<T,N> p, T dilation) {
-    p.d += dilation;
+    // the plane equation is `n.dot(x) + d = 0`; a smaller `d` is further along the normal
+    p.d -= dilation;
     return p;
 }
 
-- 
2.43.0


From ebbce098b8d1c57505ca799d4722c4ade6811d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 153/212] fix: Extruded::normal() compiles for non-int
 coordinates

---
 geomc/shape/Extruded.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Extruded.h b/geomc/shape/Extruded.h
index 72ce502..b6398a0 100644
--- a/geomc/shape/Extruded.h
+++ b/geomc/shape/Extruded.h
@@ -104,7 +104,7 @@ public:
                 T wall_dist = std::abs(base.sdf(p_base));
                 if (cap_dist < wall_dist) {
                     // the cap is nearest. use its normal
-                    return {Vec<T,N-1>{}, (cap_h >= height.hi) ? 1 : -1};
+                    return {Vec<T,N-1>{}, (T)((cap_h >= height.hi) ? 1 : -1)};
                 }
             }
             // the wall is nearest, use its normal
@@ -113,7 +113,7 @@ public:
             // p beyond the top or bottom cap
             if (inside_base) {
                 // p directly above or below a cap
-                return {Vec<T,N-1>{}, (h >= height.hi) ? 1 : -1};
+                return {Vec<T,N-1>{}, (T)((h >= height.hi) ? 1 : -1)};
             } else {
                 // p is outside the base shape
                 Vec<T,N> cap_pt {
-- 
2.43.0


From 34d4b09e571ee713db61cf2e6e72321a996a24a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 154/212] fix: Sphere::project() and normal() at the center
 were NaN

---
 geomc/shape/Sphere.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 01f5821..481f8b6 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -90,12 +90,17 @@ public:
      * Return the point `p` orthogonally projected onto the surface of the shape.
      */
     inline point_t project(point_t p) const {
-        return ptype::unit(p - center) * r + center;
+        return normal(p) * r + center;
     }
     
     /// Outward-facing direction.
     inline point_t normal(point_t p) const {
-        return ptype::unit(p - center);
+        point_t d = p - center;
+        if (d == point_t((T)0)) {
+            // all directions are equally near; pick one
+            ptype::iterator(d)[0] = 1;
+        }
+        return ptype::unit(d);
     }
     
     /// Shape-ray intersection test.
-- 
2.43.0


From e2f241afcc9f3344a4e69c083a6b7ea1db064517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 155/212] fix: Capsule::project() and normal() of points on the
 axis

---
 geomc/shape/Capsule.h | 10 +++++++---
 geomc/shape/Shape.h   | 20 ++++++++++++++++++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Capsule.h b/geomc/shape/Capsule.h
index f8a60f2..ac1592b 100644
--- a/geomc/shape/Capsule.h
+++ b/geomc/shape/Capsule.h
@@ -95,13 +95,17 @@ public:
      */
     point_t project(point_t p) const {
         point_t axis_pt = nearest_axis_point(p);
-        point_t v = p - axis_pt;
-        return axis_pt + v.with_length(radius);
+        return axis_pt + radius * normal(p);
     }
     
     /// Outward-facing direction.
     point_t normal(point_t p) const {
-        return ptype::unit(p - nearest_axis_point(p));
+        point_t v = p - nearest_axis_point(p);
+        if (v.is_zero()) {
+            // all directions around the axis are equally near; pick one
+            return detail::any_perpendicular<T,N>(p1 - p0);
+        }
+        return ptype::unit(v);
     }
     
     /*
diff --git a/geomc/shape/Shape.h b/geomc/shape/Shape.h
index dec8734..162e2d9 100644
--- a/geomc/shape/Shape.h
+++ b/geomc/shape/Shape.h
@@ -61,6 +61,26 @@ namespace geom {
  */
 
 
+namespace detail {
+
+/// Unit vector perpendicular to `v` (or an arbitrary unit vector, if `v` is zero).
+template <typename T, index_t N>
+inline Vec<T,N> any_perpendicular(const Vec<T,N>& v) {
+    // project away from the cardinal axis least aligned with `v`
+    index_t axis = 0;
+    for (index_t i = 1; i < N; ++i) {
+        if (std::abs(v[i]) < std::abs(v[axis])) axis = i;
+    }
+    Vec<T,N> d;
+    d[axis] = 1;
+    T m2 = v.mag2();
+    if (m2 > 0) d -= v * (v[axis] / m2);
+    return d.unit();
+}
+
+} // namespace detail
+
+
 /**
  * @brief Base class describing shapes with finite extents in N dimensions.
  *
-- 
2.43.0


From 585a57738f19f74b7848afdab1851239aa94083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 156/212] fix: cylinders contain their far cap

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index e1cb579..b43c45e 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -64,7 +64,7 @@ class Cylinder:
         T d  = a.dot(b);
         T x2 = d * d / a2;
         bool in_r = b2 - x2 <= radius * radius;
-        bool in_caps = x2 < a2 and d >= 0;
+        bool in_caps = x2 <= a2 and d >= 0;
         return in_r and in_caps;
     }
     
-- 
2.43.0


From bbe3b1583893ddc0c76158c54a06b5ae1e8421df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 157/212] fix: cylinder distances, projections and normals of
 points on the axis were NaN

---
 geomc/shape/Cylinder.h | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index b43c45e..7e3b5e0 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -80,15 +80,12 @@ class Cylinder:
         Vec<T,N> a = p1 - p0;
         // vec from "base" of cylinder to p
         Vec<T,N> b = p - p0;
-        T b2 = b.mag2(); // squared length of b (hypoteneuse)
         T a2 = a.mag2(); // squared length of axis (side 1)
         T d  = a.dot(b);
         // fractional distance along axis from 0 to 1
         T s  = d / a2;
-        // square of distance from the base to the projected axis point
-        T x2 = d * s;
         // signed distance of p to the surface of the cylinder
-        T r = std::sqrt(b2 - x2) - radius;
+        T r = (b - s * a).mag() - radius;
         // signed fractional distance along the axis to the nearest cap
         s = std::max(-s, (s - 1));
         // sdf is negative (inside shape) iff (s, r) in the negative quadrant
@@ -97,7 +94,7 @@ class Cylinder:
         s = std::max(s, (T)0);
         r = std::max(r, (T)0);
         // squared axis-parallel distance to cap
-        x2 = s * s * a2;
+        T x2 = s * s * a2;
         // signed distance to the surface point
         return sign * std::sqrt(r * r + x2);
     }
@@ -107,17 +104,16 @@ class Cylinder:
         Vec<T,N> a = p1 - p0;
         // vec from "base" of cylinder to p
         Vec<T,N> b = p - p0;
-        T b2 = b.mag2(); // squared length of b (hypoteneuse)
         T a2 = a.mag2(); // squared length of axis (side 1)
         T d  = a.dot(b);
         // fractional distance along axis from 0 to 1
         T s  = d / a2;
-        // square of distance from the base to the projected axis point
-        T x2 = d * s;
+        // radial vector
+        Vec<T,N> r = b - s * a;
         // distance of p to the axis
-        T r_dist = std::sqrt(b2 - x2);
-        // unit length radial vector
-        Vec<T,N> r = (p - p0 - s * a) / r_dist;
+        T r_dist = r.mag();
+        // make it unit length
+        r = r_dist > 0 ? r / r_dist : detail::any_perpendicular<T,N>(a);
         // adjust `r` and `s` to lie on the cylinder boundary
         if (s < 0 or s > 1) {
             // p projects onto the cap
@@ -136,20 +132,19 @@ class Cylinder:
     
     Vec<T,N> normal(Vec<T,N> p) const {
         // axis of the cylinder
-        auto a = p1 - p0;
+        Vec<T,N> a = p1 - p0;
         // vec from "base" of cylinder to p
-        auto b = p - p0;
-        T b2 = b.mag2(); // squared length of b (hypoteneuse)
+        Vec<T,N> b = p - p0;
         T a2 = a.mag2(); // squared length of axis (side 1)
         T d  = a.dot(b);
         // fractional distance along axis from 0 to 1
         T s  = d / a2;
-        // square of distance from the base to the projected axis point
-        T x2 = d * s;
+        // radial vector
+        Vec<T,N> r = b - s * a;
         // distance of p to the axis
-        T r_dist = std::sqrt(b2 - x2);
-        // unit length radial vector
-        auto r = (p - p0 - s * a) / r_dist;
+        T r_dist = r.mag();
+        // make it unit length
+        r = r_dist > 0 ? r / r_dist : detail::any_perpendicular<T,N>(a);
         // choose the outward direction
         Vec<T,N> n;
         if (s < 0 or s > 1) {
-- 
2.43.0


From a1237a914c1f2056623bba1ae87ed41a9afb723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 158/212] fix: Cylinder::sdf() was zero everywhere inside

---
 geomc/shape/Cylinder.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 7e3b5e0..39eb4e4 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -88,15 +88,17 @@ class Cylinder:
         T r = (b - s * a).mag() - radius;
         // signed fractional distance along the axis to the nearest cap
         s = std::max(-s, (s - 1));
-        // sdf is negative (inside shape) iff (s, r) in the negative quadrant
-        T sign = (s < 0 and r < 0) ? -1 : 1;
+        if (s < 0 and r < 0) {
+            // inside the shape; the nearer of the wall and the cap
+            return std::max(s * std::sqrt(a2), r);
+        }
         // clamped coordinates, to project orthogonally to the wall/cap
         s = std::max(s, (T)0);
         r = std::max(r, (T)0);
         // squared axis-parallel distance to cap
         T x2 = s * s * a2;
         // signed distance to the surface point
-        return sign * std::sqrt(r * r + x2);
+        return std::sqrt(r * r + x2);
     }
     
     Vec<T,N> project(Vec<T,N> p) const {
-- 
2.43.0


From 66e5c8c51929af606cccf102753ce5b3edc5ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 159/212] fix: Cylinder::normal() beyond the rim of the far cap

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 39eb4e4..f9c1974 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -153,7 +153,7 @@ class Cylinder:
             // p projects onto the cap
             if (r_dist > radius) {
                 // p projects onto the rim of the cap
-                n = p - (r * radius + p0);
+                n = p - (r * radius + (s < 0 ? p0 : p1));
             } else {
                 // p projects to the cap face; normal is axial
                 n = s < 0 ? -a : a;
-- 
2.43.0


From f1e5454c8e1ca05ffdee664bde14c03fb13a9b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 160/212] fix: Cylinder::convex_support() along the axis was
 NaN

---
 geomc/shape/Cylinder.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index f9c1974..f2cf2d3 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -191,7 +191,14 @@ class Cylinder:
     
     Vec<T,N> convex_support(Vec<T,N> d) const {
         Vec<T,N> a = p1 - p0;
-        Vec<T,N> perp = (d - d.project_on(a)).unit() * radius;
+        Vec<T,N> perp = d - d.project_on(a);
+        T eps = 16 * std::numeric_limits<T>::epsilon();
+        if (perp.mag2() > eps * eps * d.mag2()) {
+            perp = perp.unit() * radius;
+        } else {
+            // `d` points along the axis; the whole cap is extreme
+            perp = {};
+        }
         return (d.dot(a) > 0 ? p1 : p0) + perp;
     }
     
-- 
2.43.0


From b84792588ff5cd707e306145a667667a45dce7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 161/212] fix: the normal of a Rect at a point on its surface
 was NaN

---
 geomc/shape/Rect.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 1b0034a..22a9056 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -872,6 +872,25 @@ public:
         return p;
     }
 
+    /**
+     * @brief Unit-length outward-facing direction.
+     */
+    point_t normal(point_t p) const {
+        point_t n = p - project(p);
+        if (n == point_t((T)0)) {
+            // p is on the surface. point away from all the faces touching p.
+            T* n_i = ptype::iterator(n);
+            const T* p_i  = ptype::iterator(p);
+            const T* lo_i = ptype::iterator(lo);
+            const T* hi_i = ptype::iterator(hi);
+            for (index_t i = 0; i < N; ++i) {
+                n_i[i] = (p_i[i] == hi_i[i]) ? 1 : ((p_i[i] == lo_i[i]) ? -1 : 0);
+            }
+            return ptype::unit(n);
+        }
+        return ptype::unit(contains(p) ? -n : n);
+    }
+
     /**
      * @brief Return the signed distance to the surface of the shape.
      */
-- 
2.43.0


From d24ac3d73345cf1e498fc928e13c7b8a0163b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 162/212] fix: dilated projection of a point on the un-dilated
 surface was NaN

---
 geomc/shape/Dilated.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index f0c360d..e6ac589 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -102,6 +102,10 @@ public:
     /// Orthogonally project `p` to the surface of this shape.
     Vec<T,N> project(Vec<T,N> p) const {
         Vec<T,N> p_proj = shape.project(p);
+        if (p_proj == p) {
+            // p is on the un-dilated surface
+            return p + dilation * shape.normal(p);
+        }
         Vec<T,N> dp = (p_proj - p).unit();
         if (shape.contains(p)) {
             // dilated projection is further away from the point
-- 
2.43.0


From 392bf1034d24f18a98a6fee6b922b0edda81dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 163/212] fix: Frustum/ray intersection of rays through the
 origin or in the h=0 plane

---
 geomc/shape/Frustum.h | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index 38c1f43..b002e50 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -107,6 +107,24 @@ public:
         
         // first make our ray subspace basis orthogonal:
         Vec<T,N> o_ortho = ray.origin - ray.origin.project_on(ray.direction);
+        
+        // handle degenerate cases
+        T eps = 16 * std::numeric_limits<T>::epsilon();
+        if (o_ortho.mag2() <= eps * eps * ray.origin.mag2()) {
+            // the ray passes through the origin.
+            T h = ray.direction[N-1];
+            if (h != 0 and base.contains((ray.direction / h).template resized<N-1>())) {
+                // the ray is inside the infinite frustum
+                return slab_range;
+            }
+            // the ray intersects only the frustum tip, if it's included in the height range
+            T s = -ray.origin.fraction_on(ray.direction);
+            return Rect<T,1>(s, s) & slab_range;
+        } else if (o_ortho[N-1] == 0 and ray.direction[N-1] == 0) {
+            // the ray lies in the h=0 plane, and does not pass through the origin
+            return Rect<T,1>::empty;
+        }
+        
         Vec<T,N> z_plus;
         z_plus[N-1] = 1;
         // project the Z+ axis to the ray subspace. (the point on the projected ray
@@ -116,25 +134,6 @@ public:
         // project V to the h=0 plane
         Vec<T,N> v_base = ray.direction - ray.direction.project_on(o_base);
         
-        // handle degenerate cases
-        if (o_base[N-1] == 0) {
-            // the ray lies in the h=0 plane
-            if (o_base == (T)0) [[unlikely]] {
-                // the ray passes through the origin, and intersects the
-                // frustum tip, if it's included in the height range
-                T s = ray.direction.fraction_on(ray.origin);
-                return Rect<T,1>(s, s) & slab_range;
-            } else {
-                // the ray does not pass through the origin
-                return Rect<T,1>::empty;
-            }
-        } else if (v_base == (T)0) {
-            // ray passes through the origin. the frustum intersection is full iff the ray is 
-            // inside the the frustum; else it is empty.
-            return base.contains(o_base.template resized<N-1>())
-                ? slab_range         // full range  & slab_range
-                : Rect<T,1>::empty;  // empty range & slab_range
-        }
         // put `o` onto the h=1 plane
         o_base /= o_base[N-1];
         
-- 
2.43.0


From 3c729c050546a0ec6c5c717df2a97b1ca3d7a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 164/212] fix: Frustum/ray intersection of rays parallel to the
 frustum's axis

---
 geomc/shape/Frustum.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index b002e50..84b1aa8 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -133,6 +133,10 @@ public:
         Vec<T,N> o_base = z_plus.project_on(ray.direction) + z_plus.project_on(o_ortho);
         // project V to the h=0 plane
         Vec<T,N> v_base = ray.direction - ray.direction.project_on(o_base);
+        if (2 * v_base.mag2() < ray.direction.mag2()) {
+            // V is close to vertical; the other basis vector is not.
+            v_base = o_ortho - o_ortho.project_on(o_base);
+        }
         
         // put `o` onto the h=1 plane
         o_base /= o_base[N-1];
-- 
2.43.0


From 6c8bf0fb6717c269b708e1b43c06d3ceb597f199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 165/212] fix: Frustum/ray intersection chose the wrong side of
 the origin

---
 geomc/shape/Frustum.h | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index 84b1aa8..2e43007 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -180,22 +180,23 @@ public:
         T p_lo_x = lo.fraction_on(ray.direction);
         T p_hi_x = hi.fraction_on(ray.direction);
         
+        // the base hits also project to the other side of the origin. keep only the part of
+        // the ray on the side of the frustum. if a hit point is on the other side, then the
+        // ray exits our side of the (infinite) frustum at infinity, away from h=0.
+        T side  = clipped_height().hi > 0 ? 1 : -1;
+        T s_inf = side * ray.direction[N-1] > 0 
+            ? std::numeric_limits<T>::max()
+            : std::numeric_limits<T>::lowest();
+        if (side * p_lo_y <= 0 and side * p_hi_y <= 0) {
+            return Rect<T,1>::empty;
+        }
+        
         // construct the interval of overlap with the infinite frustum.
         s = Rect<T,1>::spanning_corners(
-            p_lo_x / p_lo_y - o_x,
-            p_hi_x / p_hi_y - o_x
+            side * p_lo_y > 0 ? p_lo_x / p_lo_y - o_x : s_inf,
+            side * p_hi_y > 0 ? p_hi_x / p_hi_y - o_x : s_inf
         );
         
-        T h0 = ray.origin[N-1] + s.lo * ray.direction[N-1];
-        T h1 = ray.origin[N-1] + s.hi * ray.direction[N-1];
-        if ((h0 < 0) != (h1 < 0)) {
-            // if the two hits are on either side of h=0, then the interval is inverted.
-            // (we have already handled the ray through the origin case).
-            // which of the two half-infinite intervals should be intersected with the slab?
-            s = (slab_range.lo < 0)
-                ? Rect<T,1>(std::numeric_limits<T>::lowest(), s.lo)
-                : Rect<T,1>(s.hi, std::numeric_limits<T>::max());
-        }
         // intersect the slab with the frustum interval.
         return s & slab_range;
     }
-- 
2.43.0


From 798af3e08210f75b0eb90f77e43b19ee1f43558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 166/212] fix: Cylinder/ray intersection of rays nearly
 parallel to the axis

---
 geomc/shape/Cylinder.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index f2cf2d3..9a74457 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -223,7 +223,9 @@ class Cylinder:
         Rect<T,1> interval;
         
         // construct an interval holding the ray's overlap with the infinite cylinder
-        if (k0 != 0 and quadratic_solve(roots, k0, k1, k2)) {
+        // (if k0 is within rounding error of zero, the ray is parallel to the axis)
+        const T eps = 16 * std::numeric_limits<T>::epsilon();
+        if (k0 > eps * ray.direction.mag2() and quadratic_solve(roots, k0, k1, k2)) {
             interval = Rect<T,1>::spanning_corners(roots[0], roots[1]);
         } else if (k2 < 0) {
             // if there is no intersection, then it might be the case that 
-- 
2.43.0


From 3c5d6b78771599b5334195b8fc8dec176345391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 167/212] fix: trace_simplex() returned the ray parameter from
 beyond the end of the solution

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index e9d912f..edf38fb 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -583,7 +583,7 @@ inline bool trace_simplex(const Vec<T,N> verts[N], const Ray<T,N>& ray, Vec<T,N-
     if (sum > 1) return false;
     
     // output result
-    *s  = x[N];
+    *s  = x[N - 1];
     if (uv) *uv = x.template resized<N-1>();
     return true;
 }
-- 
2.43.0


From 1310197814424aa3bc11ec43a469e9d0369364cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 168/212] fix: Simplex::is_facing() did not test all of the
 surface parameters

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index edf38fb..d8f74e2 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -320,7 +320,7 @@ public:
                 
                 // check that the coordinates of `p` are inside the simplex
                 T sum = 0;
-                for (index_t i = n_null; i < n_bases; ++i) {
+                for (index_t i = n_null; i < N; ++i) {
                     sum += x[i];
                     if (x[i] < 0 or sum > 1) return false;
                 }
-- 
2.43.0


From 505b926e8a7b64fc66be2638feb35b57d903dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 169/212] fix: Simplex::measure() of full simplexes is positive

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index d8f74e2..68475c7 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -383,7 +383,7 @@ public:
             if (n == 3) return (pts[1] - pts[0]).cross(pts[2] - pts[0]).mag() / 2;
         }
         // full volume
-        if (n == N + 1) return volume();
+        if (n == N + 1) return std::abs(volume());
         // otherwise, construct the basis of the simplex.
         // we'll use it to compute the volume
         Vec<T,N> bases[N];
-- 
2.43.0


From 3d4e4f10979196a9a3a9901bde23a88d5627f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 170/212] fix: Simplex::measure() used too large a basis

---
 geomc/shape/Simplex.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 68475c7..4ef2dbd 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -397,12 +397,13 @@ public:
         // divided by n factorial. i suspect the gram matrix could probably
         // be computed more efficiently, because it's symmetric
         T buf[N * N];
-        WrapperMatrix<T,0,0> b {buf, n, n};
-        WrapperMatrix<T,0,N,MatrixLayout::ROW_MAJOR> m0 {m, n};
-        WrapperMatrix<T,N,0,MatrixLayout::COL_MAJOR> m1 {m, n};
+        const index_t n_bases = n - 1;
+        WrapperMatrix<T,0,0> b {buf, n_bases, n_bases};
+        WrapperMatrix<T,0,N,MatrixLayout::ROW_MAJOR> m0 {m, n_bases};
+        WrapperMatrix<T,N,0,MatrixLayout::COL_MAJOR> m1 {m, n_bases};
         // (n x n) = (n x N) * (N x n)
         mul(&b, m0, m1);
-        return std::sqrt(std::abs(det_destructive(buf, n))) / k;
+        return std::sqrt(std::abs(det_destructive(buf, n_bases))) / k;
     }
     
     /**
-- 
2.43.0


From 09776d5c8bbe159363228239083efdaf57543b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 171/212] fix: Simplex/ray intersection stopped testing at
 zero-length intervals

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 4ef2dbd..19a0e0f 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -236,7 +236,7 @@ public:
             if (linear_solve(m, 2, B)) {
                 // intersect all the ranges of s for which 0 <= w_i <= 1.
                 Rect<T,1> interval = Rect<T,1>::full;
-                for (index_t i = 0; i < N + 1 and interval.hi > interval.lo; ++i) {
+                for (index_t i = 0; i < N + 1 and interval.hi >= interval.lo; ++i) {
                     // w_i = p_i + k_i * s
                     // solve for w_i = 0 and w_i = 1:
                     T p_i = B[0][i];
-- 
2.43.0


From e54ba13ea51398eb1185f94d2a4dc4802683f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 172/212] fix: transforming a Plane moved it in the opposite
 direction

The point of the plane nearest the origin is -d * normal.
---
 geomc/shape/Plane.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index a134e65..c4a3fea 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -150,10 +150,10 @@ public:
      * @param xf An affine transformation.
      */
     void apply(const AffineTransform<T,N> &xf) {
-        Vec<T,N> p0 = normal*d; // a point on the plane
+        Vec<T,N> p0 = -d * normal; // a point on the plane
         Vec<T,N> p1 = xf.apply(p0); // the new position of that point
         normal = xf.apply_normal(normal).unit(); // construct a plane with transformed normal
-        d = p1.dot(normal); // and transformed position
+        d = -p1.dot(normal); // and transformed position
     }
     
     /**
@@ -161,10 +161,10 @@ public:
      * @param xf An affine transformation.
      */
     void apply_inverse(const AffineTransform<T,N> &xf) {
-        Vec<T,N> p0 = normal*d;
+        Vec<T,N> p0 = -d * normal;
         Vec<T,N> p1 = xf.apply_inverse(p0);
         normal = xf.apply_inverse_normal(normal).unit();
-        d = p1.dot(normal);
+        d = -p1.dot(normal);
     }
     
     /**
-- 
2.43.0


From d95c2f78bd98256f45200547cff52cabae00f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 173/212] fix: Plane::intersects(Sphere) reported spheres clear
 of the plane

---
 geomc/shape/Plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index c4a3fea..6fb2806 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -182,7 +182,7 @@ public:
      * @return `true` if and only if this plane passes through `s`.
      */
     inline bool intersects(const Sphere<T,N> &s) const {
-        return distance(s.center) >= s.r;
+        return std::abs(distance(s.center)) <= s.r;
     }
     
     /**
-- 
2.43.0


From e4875fe79fbbb8a68e93032bf2053ec0197ba2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 174/212] fix: Plane::intersects(hull) never reported an
 intersection

---
 geomc/shape/Plane.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index 6fb2806..f4057b6 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -193,14 +193,15 @@ public:
      * otherwise,
      */
     bool intersects(const Vec<T,N> *hull, index_t npts) const {
-        bool negative;
+        bool negative = false;
         for (index_t i = 0; i < npts; i++){
             T dist = distance(hull[i]);
+            // if a point lies on the plane, or another point lies on the
+            // other side of the plane, then this shape crosses the plane.
+            if (dist == 0) return true;
             if (i > 0){
-                // if a point lies on the plane, or another point lies on the
-                // other side of the plane, then this shape crosses the plane.
-                if (dist == 0 || ((dist < 0) != negative)){
-                    return false;
+                if ((dist < 0) != negative){
+                    return true;
                 }
             } else {
                 negative = dist < 0;
-- 
2.43.0


From 144b5cf849b72d023d5c01c06a97e02adc8c70d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 175/212] fix: Convex::intersects(Convex) did not compile

It called a function which does not exist (gjk_intersect), on the base class
rather than the shape.
---
 geomc/shape/Shape.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Shape.h b/geomc/shape/Shape.h
index 162e2d9..40ffd3c 100644
--- a/geomc/shape/Shape.h
+++ b/geomc/shape/Shape.h
@@ -106,6 +106,10 @@ class Bounded {
 };
 
 
+// defined in geomc/shape/Intersect.h
+template <typename T, index_t N>
+bool intersects(const AnyConvex<T,N>& shape_a, const AnyConvex<T,N>& shape_b);
+
 /**
  * @brief Base class describing convex shapes in N-dimensional space.
  *
@@ -139,13 +143,15 @@ class Convex : public Bounded<T,N,Derived> {
     /**
      * @brief Convex shape overlap test.
      * 
+     * Include `geomc/shape/Intersect.h` to use this.
+     * 
      * @return True if and only if this convex shape overlaps `other`; false otherwise.
      */
     template <typename Shape>
     bool intersects(const Convex<T,N,Shape>& other) const {
-        return gjk_intersect(
-            as_any_convex(*this),
-            as_any_convex(other));
+        return geom::intersects(
+            as_any_convex(static_cast<const Derived&>(*this)),
+            as_any_convex(static_cast<const Shape&>(other)));
     }
     
     /**
-- 
2.43.0


From 8e1a697198a239321b47485bd4e501342dd57da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 176/212] fix: Sphere::intersects(Sphere) ignored the other
 sphere's radius

---
 geomc/shape/Sphere.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 481f8b6..1c6c117 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -70,7 +70,8 @@ public:
      * @return `true` if `s` overlaps with this sphere's volume, false otherwise.
      */
     bool intersects(Sphere s) const {
-        return ptype::mag2(center - s.center) <= r * r;
+        T R = r + s.r;
+        return ptype::mag2(center - s.center) <= R * R;
     }
     
     bool intersects(const Rect<T,N>& rect) const {
-- 
2.43.0


From 8ff544be1b1658418872b6168710eff78215ca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 177/212] fix: Sphere::intersects(Rect) measured from the
 radius instead of the center

---
 geomc/shape/Sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 1c6c117..a30cdd8 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -75,7 +75,7 @@ public:
     }
     
     bool intersects(const Rect<T,N>& rect) const {
-        return rect.dist2(r) <= r * r;
+        return rect.dist2(center) <= r * r;
     }
     
     point_t convex_support(point_t d) const {
-- 
2.43.0


From 246d1e897adbcfc43a2199d86cc3c3bf25412fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 178/212] fix: shapes with an overlap test of their own hid the
 general one

Sphere, Capsule, Rect and Oriented<Rect> could not be tested against any
other Convex shape; and a const Oriented<Rect> not against another.
---
 geomc/shape/Capsule.h  | 3 +++
 geomc/shape/Oriented.h | 5 ++++-
 geomc/shape/Rect.h     | 3 +++
 geomc/shape/Sphere.h   | 3 +++
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Capsule.h b/geomc/shape/Capsule.h
index ac1592b..0066e6c 100644
--- a/geomc/shape/Capsule.h
+++ b/geomc/shape/Capsule.h
@@ -66,6 +66,9 @@ public:
         return p0 + axis * clamp<T>(frac, 0, 1);
     }
     
+    // (do not hide the general convex overlap test)
+    using Convex<T,N,Capsule<T,N>>::intersects;
+    
     /**
      * Sphere-capsule intersection test.
      * @param s Another sphere.
diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index 7dda825..a848699 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -188,6 +188,9 @@ public:
         return shape.contains(p);
     }
     
+    // (do not hide the general convex overlap test)
+    using Convex<T,N,Oriented<Rect<T,N>>>::intersects;
+    
     /**
      * Test whether this Oriented<Rect> overlaps an axis-aligned Rect.
      * 
@@ -204,7 +207,7 @@ public:
      * @param b1 OritentedRect to test against.
      * @return `true` if and only if `this` overlaps with `b1`; `false` otherwise.
      */
-    bool intersects(const Oriented< Rect<T,N> >& b1) {
+    bool intersects(const Oriented< Rect<T,N> >& b1) const {
         // we will make ourselves axis-aligned; this is the same as applying
         // the inverse of our xf. We apply the inverse of xf to b1 too,
         // to preserve the relationhip between the us. From this, we
diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 22a9056..d1fa464 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -621,6 +621,9 @@ public:
         };
     }
 
+    // (do not hide the general convex overlap test)
+    using Convex<T,N,Rect<T,N>>::intersects;
+    
     /**
      * @brief Range intersection test.
      * @return `true` if and only if there is a point overlapped by both `Rect`s.
diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index a30cdd8..002b233 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -64,6 +64,9 @@ public:
         return ptype::mag2(center - p) <= r * r;
     }
     
+    // (do not hide the general convex overlap test)
+    using Convex<T,N,Sphere<T,N>>::intersects;
+    
     /**
      * Sphere-sphere intersection test.
      * @param s Another sphere.
-- 
2.43.0


From 4410685b17fa7f508050e7e889583dc966840055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 179/212] fix: Oriented<Rect> overlap did not compile above
 three dimensions

---
 geomc/shape/shapedetail/SeparatingAxis.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/shapedetail/SeparatingAxis.h b/geomc/shape/shapedetail/SeparatingAxis.h
index 48894a7..567cc38 100644
--- a/geomc/shape/shapedetail/SeparatingAxis.h
+++ b/geomc/shape/shapedetail/SeparatingAxis.h
@@ -150,9 +150,11 @@ class RectAxisHelper<T,2> : public RectAxisHelperBase<T,2> {
 
 template <typename T, index_t N, typename Enable=void>
 class RectIntersector {
+    public:
     
     static inline bool intersect(const Oriented<Rect<T,N> >& b0, const Rect<T,N>& b1) {
-        return gjk_intersect(b0, b1);
+        // (defined in geomc/shape/Intersect.h)
+        return geom::intersects(as_any_convex(b0), as_any_convex(b1));
     }
 };
 
-- 
2.43.0


From b850d82667e83dfdc4b0be60cff93459d68ac025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 180/212] fix: an Intersector reused after an overlap could
 report any shapes as overlapping

An overlap leaves a zero separation axis, and the support point of a round
shape in direction zero is NaN.
---
 geomc/shape/Intersect.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geomc/shape/Intersect.h b/geomc/shape/Intersect.h
index 9cb0f1e..7799670 100644
--- a/geomc/shape/Intersect.h
+++ b/geomc/shape/Intersect.h
@@ -46,6 +46,8 @@ public:
         const AnyConvex<T,N>& shape_a,
         const AnyConvex<T,N>& shape_b)
     {
+        // the previous test may not have left a direction to start from
+        if (separation_axis.is_zero()) separation_axis = Vec<T,N>::unit_x;
         // `a` is a point on the minkowski difference
         Vec<T,N> a = shape_a.convex_support( separation_axis) -
                      shape_b.convex_support(-separation_axis);
-- 
2.43.0


From fd540b4dfdbde27b7cbe68ebb7a3ff3f8270cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 181/212] fix: BinLatticePartition::query(Rect) did not compile

---
 geomc/shape/BinLatticePartition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 408cebe..8924b3f 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -274,7 +274,7 @@ public:
     }
 
     region_iterator query(Rect<T,N> region){
-        return region_iterator(*this, binRegion(region));
+        return region_iterator(this, binRegion(region));
     }
 
     region_iterator query(point_t pt, T radius){
-- 
2.43.0


From 1f189500e1e876dd5e79ae99ddfbf84fc6e8741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 182/212] fix: BinLatticePartition region iterators compared
 equal to an exhausted one

The position of an exhausted iterator is stale.
---
 geomc/shape/BinLatticePartition.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 8924b3f..77b7606 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -181,8 +181,8 @@ public:
         }
 
         bool equal(region_iterator const & other) const {
-            if (off_end and other.off_end){
-                return true;
+            if (off_end or other.off_end){
+                return off_end and other.off_end;
             } else {
                 return other.cur_cell_iter == cur_cell_iter;
             }
-- 
2.43.0


From c69bd679cd4829d89fd68f31f957365311eb4577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 183/212] fix: BinLatticePartition query of an empty region
 returned the entries of one bin

---
 geomc/shape/BinLatticePartition.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 77b7606..3074ca8 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -125,6 +125,10 @@ public:
                 grid(grid),
                 cellblock(region),
                 off_end(false){
+            if (region.is_empty()) {
+                off_end = true;
+                return;
+            }
             cur_cell_iter = grid->_cells.find(region.lo);
             if (cur_cell_iter == grid->_cells.end() and !gotoNextNonemptyCell(region.lo)){
                 off_end = true;
-- 
2.43.0


From fc512abbbc0433798de6d36682ece91d582a2eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 184/212] fix: BinLatticePartition queries missed entries on a
 boundary shared with the next bin

A Rect contains its upper extreme; so does the bin above it, if the extreme
lies on the boundary between two bins.
---
 geomc/shape/BinLatticePartition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 3074ca8..aad1775 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -311,7 +311,7 @@ public:
         //high coordinate is, as always, one beyond the maximum cell to check
         return Rect<index_t,N>(
                 (bin_t)((r.lo / _cellsize).floor()),
-                (bin_t)((r.hi / _cellsize).ceil())
+                (bin_t)((r.hi / _cellsize).floor()) + bin_t(1)
         );
     }
 
-- 
2.43.0


From 6639f6919f8cf2754c89b21a9e86ca62c168f65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 185/212] fix: BinLatticePartition did not compile in one
 dimension

---
 geomc/shape/BinLatticePartition.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index aad1775..a3be145 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -75,7 +75,7 @@ class BinLatticePartition {
 public:
     typedef typename Rect<index_t,N>::point_t  bin_t; //edit: wait, what?
     typedef typename Rect<T,N>::point_t        point_t;
-    typedef std::pair< Vec<T,N>, O >           item_t;
+    typedef std::pair<point_t, O>              item_t;
 
 protected:
 #if __cplusplus <= 199711L
@@ -204,12 +204,13 @@ public:
                 // increment cell within block
                 bool cellWithinRegion = false;
                 for (index_t inc_coord = 0; inc_coord < N; inc_coord++){
-                    if (thisCellCoords[inc_coord] + 1 >= cellblock.hi[inc_coord]){
+                    index_t& coord = bin_coord(thisCellCoords, inc_coord);
+                    if (coord + 1 >= bin_coord(cellblock.hi, inc_coord)){
                         // don't exceeded maximum along this axis; can't increment.
                         // rollover this axis and attempt to increment the next.
-                        thisCellCoords[inc_coord] = cellblock.lo[inc_coord];
+                        coord = bin_coord(cellblock.lo, inc_coord);
                     } else {
-                        thisCellCoords[inc_coord]++;
+                        coord++;
                         cellWithinRegion = true; // successfully incremented cell w/o going off edge
                         break;
                     }
@@ -302,16 +303,26 @@ public:
     }
 
     bin_t binOf(point_t location){
-        return (bin_t)((location / _cellsize).floor());
+        bin_t bin;
+        for (index_t i = 0; i < N; i++) {
+            T x = PointType<T,N>::iterator(location)[i];
+            bin_coord(bin, i) = (index_t)std::floor(x / _cellsize);
+        }
+        return bin;
     }
 
     protected:
 
+    // (points and bins are scalars in one dimension)
+    static inline index_t& bin_coord(bin_t& bin, index_t axis) {
+        return PointType<index_t,N>::iterator(bin)[axis];
+    }
+
     inline Rect<index_t,N> binRegion(Rect<T,N> r){
         //high coordinate is, as always, one beyond the maximum cell to check
         return Rect<index_t,N>(
-                (bin_t)((r.lo / _cellsize).floor()),
-                (bin_t)((r.hi / _cellsize).floor()) + bin_t(1)
+                binOf(r.lo),
+                binOf(r.hi) + bin_t(1)
         );
     }
 
-- 
2.43.0


From 67210ed9aca3d9c56adc40349a95dfd9bb861648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 186/212] fix: BinLatticePartition query of an empty region
 within one bin returned its entries

---
 geomc/shape/BinLatticePartition.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index a3be145..d4f3df0 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -319,6 +319,7 @@ public:
     }
 
     inline Rect<index_t,N> binRegion(Rect<T,N> r){
+        if (r.is_empty()) return Rect<index_t,N>();
         //high coordinate is, as always, one beyond the maximum cell to check
         return Rect<index_t,N>(
                 binOf(r.lo),
-- 
2.43.0


From 13e2648bfc82f60ec3decbddc44dba3db72fe9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 187/212] fix: KDTree did not compile

The index helpers called functions which do not exist, the const members
mixed up const and mutable list iterators, and node iterators could not be
copied.
---
 geomc/shape/KDTree.h                   | 18 ++++++-------
 geomc/shape/shapedetail/IndexHelpers.h | 36 +++++++-------------------
 2 files changed, 18 insertions(+), 36 deletions(-)

diff --git a/geomc/shape/KDTree.h b/geomc/shape/KDTree.h
index eb5662a..9237a46 100644
--- a/geomc/shape/KDTree.h
+++ b/geomc/shape/KDTree.h
@@ -135,12 +135,14 @@ public:
         
         KDNodeRef node;
         
-        KDNodeIterator(KDNodeRef n) : node(n) {}
+        template <bool> friend class KDNodeIterator;
         
-        KDNodeIterator(const KDNodeIterator<false>& i) : node(i.node) {}
+        KDNodeIterator(KDNodeRef n) : node(n) {}
         
     public:
         
+        KDNodeIterator(const KDNodeIterator<false>& i) : node(i.node) {}
+        
         typedef NodeData                                         value_type;
         typedef typename ConstType<NodeData,Const>::reference_t  reference;
         typedef typename ConstType<NodeData,Const>::pointer_t    pointer;
@@ -352,7 +354,7 @@ public:
      * therefore be used to find the next and previous siblings.
      */
     inline const_node_iterator begin() const {
-        return nodes.begin();
+        return const_cast<KDTree*>(this)->nodes.begin();
     }
     
     
@@ -361,7 +363,7 @@ public:
      * conceptually the parent of the root.
      */
     inline const_node_iterator end() const {
-        return nodes.end();
+        return const_cast<KDTree*>(this)->nodes.end();
     }
     
     
@@ -667,17 +669,15 @@ public:
      * Return the object in the tree closest to the query point `q`.
      */
     const Object& nearest(const Vec<T,N>& p) const {
-        KDDataRef ref;
-        T big = std::numeric_limits<T>::max();
-        nearestInNode(nodes.begin(), p, &ref, big, big);
-        return *ref;
+        return const_cast<KDTree*>(this)->nearest(p);
     }
     
     /**
      * Return the object in the tree closest to the query point `q`.
      */
     Object& nearest(const Vec<T,N>& p) {
-        KDDataRef ref;
+        // (any object will do, if no distance is representable)
+        KDDataRef ref = objects.begin();
         T big = std::numeric_limits<T>::max();
         T best_d2    = big;
         T worst_best = big;
diff --git a/geomc/shape/shapedetail/IndexHelpers.h b/geomc/shape/shapedetail/IndexHelpers.h
index de1fca9..c537b55 100644
--- a/geomc/shape/shapedetail/IndexHelpers.h
+++ b/geomc/shape/shapedetail/IndexHelpers.h
@@ -11,8 +11,7 @@ namespace detail {
  *****************************************/
 
 
-// basic shape
-// (works on rects)
+// bounded shapes
 template <typename T, index_t N, typename D>
 struct ShapeIndexHelper {
     
@@ -21,11 +20,15 @@ struct ShapeIndexHelper {
     typedef Rect<T,N> bound_t;
     
     static inline Vec<T,N> getPoint(const D& obj) {
-        return obj.center();
+        return obj.bounds().center();
     }
     
     static inline T dist2(const D& obj, const Vec<T,N>& p) {
-        return obj.dist2(p);
+        if constexpr (requires { obj.dist2(p); }) {
+            return obj.dist2(p);
+        } else {
+            return obj.bounds().dist2(p);
+        }
     }
     
     static inline bound_t bounds(const D& obj) {
@@ -46,7 +49,7 @@ struct ShapeIndexHelper< T, N, D* > {
     }
     
     static inline T dist2(const D* obj, const Vec<T,N>& p) {
-        return ShapeIndexHelper<T,N,D>::getDist2(*obj, p);
+        return ShapeIndexHelper<T,N,D>::dist2(*obj, p);
     }
     
     static inline bound_t bounds(const D* obj) {
@@ -68,7 +71,7 @@ struct ShapeIndexHelper< T, N, std::pair<K, V> > {
     }
     
     static inline T dist2(const std::pair<K,V>& obj, const Vec<T,N>& p) {
-        return ShapeIndexHelper<T,N,K>::getDist2(obj.first);
+        return ShapeIndexHelper<T,N,K>::dist2(obj.first, p);
     }
     
     static inline bound_t bounds(const std::pair<K,V>& obj) {
@@ -99,27 +102,6 @@ struct ShapeIndexHelper< T, N, Vec<T,N> > {
 };
 
 
-// bounded shapes
-template <typename T, index_t N>
-struct ShapeIndexHelper< T, N, Bounded<T,N> > {
-    
-    typedef Rect<T,N> bound_t;
-    
-    inline Vec<T,N> getPoint(const Bounded<T,N>& r) {
-        return r.bounds().center();
-    }
-    
-    static inline T dist2(const Bounded<T,N>& r, const Vec<T,N>& p) {
-        return r.bounds().clip(p).dist2(p);
-    }
-    
-    static inline bound_t bounds(const Bounded<T,N>& r) {
-        return r.bounds();
-    }
-    
-};
-
-
 // returns an upper bound on the squared distance to the nearest object
 // to `p` in mimimum bounding box `r`.
 template <typename T, index_t N>
-- 
2.43.0


From 964bc64abb23677fd845ef264884ec5038acc1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 188/212] fix: KDTree split its nodes at the sum of the
 positions instead of their mean

---
 geomc/shape/KDTree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/shape/KDTree.h b/geomc/shape/KDTree.h
index 9237a46..12a7659 100644
--- a/geomc/shape/KDTree.h
+++ b/geomc/shape/KDTree.h
@@ -732,6 +732,7 @@ private:
                 for (KDDataRef i = split_child->objects_begin; i != split_child->objects_end; ++i) {
                     mean += helper_t::getPoint(*i);
                 }
+                mean /= std::max<index_t>(1, split_child->nobjs);
                 for (KDDataRef i = split_child->objects_begin; i != split_child->objects_end; ++i) {
                     Vec<T,N> p = helper_t::getPoint(*i) - mean;
                     var += p * p;
-- 
2.43.0


From 7bb9785486185c5a796f40bee1a178b79f19ebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 189/212] fix: KDTree pivot computed from an uninitialized
 value

---
 geomc/shape/KDTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/KDTree.h b/geomc/shape/KDTree.h
index 12a7659..20dc093 100644
--- a/geomc/shape/KDTree.h
+++ b/geomc/shape/KDTree.h
@@ -718,7 +718,7 @@ private:
         Vec<T,N> var;
         
         index_t split_axis = 0;
-        T pivot;
+        T pivot = 0;
         
         // choose a split axis
         switch (params.axis) {
-- 
2.43.0


From 9ba95346b55b18aab61878d773350429e5526d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 190/212] fix: KDTree bounds of a split node did not cover its
 objects

After the swap, the moved object is at `middle`.
---
 geomc/shape/KDTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/KDTree.h b/geomc/shape/KDTree.h
index 20dc093..f2f191d 100644
--- a/geomc/shape/KDTree.h
+++ b/geomc/shape/KDTree.h
@@ -785,7 +785,7 @@ private:
                 // move this object to the new (upper) sibling
                 std::swap(*i, *--middle);
                 split_child->nobjs--;
-                new_sibling->bounds |= helper_t::bounds(*i);
+                new_sibling->bounds |= helper_t::bounds(*middle);
                 // `i` now contains an unchecked object; don't increment.
             } else {
                 split_child->bounds |= helper_t::bounds(*i);
-- 
2.43.0


From bdc0919609792b33f3b5030db63be2c4267405c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 191/212] fix: KDTree construction did not terminate for
 coincident objects

---
 geomc/shape/KDTree.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/geomc/shape/KDTree.h b/geomc/shape/KDTree.h
index f2f191d..6411de5 100644
--- a/geomc/shape/KDTree.h
+++ b/geomc/shape/KDTree.h
@@ -792,6 +792,19 @@ private:
                 ++i;
             }
         }
+        if (split_child->nobjs == 0 or split_child->nobjs == nobjs) {
+            // the pivot does not separate the objects (they may all coincide).
+            // divide them evenly, so that we always make progress.
+            split_child->nobjs = nobjs / 2;
+            middle = std::next(split_child->objects_begin, split_child->nobjs);
+            split_child->bounds = new_sibling->bounds = Rect<T,N>();
+            for (KDDataRef i = split_child->objects_begin; i != middle; ++i) {
+                split_child->bounds |= helper_t::bounds(*i);
+            }
+            for (KDDataRef i = middle; i != new_sibling->objects_end; ++i) {
+                new_sibling->bounds |= helper_t::bounds(*i);
+            }
+        }
         split_child->objects_end = new_sibling->objects_begin = middle;
         new_sibling->nobjs = nobjs - split_child->nobjs;
     }
-- 
2.43.0


From aa35b9ddd8d7ff7bc2ee8f2ca328fd3b689bfd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 192/212] fix: KDTree median pivot was never computed

---
 geomc/shape/KDTree.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/KDTree.h b/geomc/shape/KDTree.h
index 6411de5..3f56b62 100644
--- a/geomc/shape/KDTree.h
+++ b/geomc/shape/KDTree.h
@@ -2,7 +2,9 @@
 #include <geomc/Templates.h>
 
 #include <cmath>
+#include <algorithm>
 #include <list>
+#include <vector>
 
 namespace geom {
 
@@ -768,7 +770,15 @@ private:
                 }
                 break;
             case KDPivotChoice::PIVOT_MEDIAN:
-                // xxx: todo: this
+                {
+                    std::vector<T> xs;
+                    for (KDDataRef i = split_child->objects_begin; i != split_child->objects_end; ++i) {
+                        xs.push_back(helper_t::getPoint(*i)[split_axis]);
+                    }
+                    auto mid = xs.begin() + (xs.size() - 1) / 2;
+                    std::nth_element(xs.begin(), mid, xs.end());
+                    pivot = *mid;
+                }
                 break;
         }
         
-- 
2.43.0


From 21a1e75d74bc7d6f9c4e34e4ddeae144aecf0f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 193/212] fix: KDTree nodes listed other nodes' children as
 their own

---
 geomc/shape/KDTree.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/KDTree.h b/geomc/shape/KDTree.h
index 3f56b62..0f7f8f5 100644
--- a/geomc/shape/KDTree.h
+++ b/geomc/shape/KDTree.h
@@ -647,14 +647,15 @@ public:
         KDNodeRef new_node;
         if (n->child_begin == n->child_end) {
             // creating the first child of `node`.
+            KDNodeRef prev_parent = std::prev(n->child_end)->parent;
             new_node = nodes.insert(n->child_end, *n);
             new_node->child_begin = new_node->child_end = n->child_end;
             new_node->parent = n;
             n->child_begin = new_node;
-            if (n->parent != nodes.end() and n->parent->child_end == n->child_end) {
-                // are we creating a "first grandchild"?
-                // this node is the first one not a direct child of node->parent.
-                n->parent->child_end = new_node;
+            if (prev_parent != nodes.end() and prev_parent->child_end == n->child_end) {
+                // this node is the first one not a direct child of the node
+                // whose children precede it.
+                prev_parent->child_end = new_node;
             }
         } else {
             // creating a new sibling
-- 
2.43.0


From a914ed99ca1372658233ab202dd39649e210be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 194/212] fix: KDTree::insert returned nothing, and lost
 objects inserted below the root

---
 geomc/shape/KDTree.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/KDTree.h b/geomc/shape/KDTree.h
index 0f7f8f5..8ce6049 100644
--- a/geomc/shape/KDTree.h
+++ b/geomc/shape/KDTree.h
@@ -388,6 +388,12 @@ public:
             depth = 1;
         }
         
+        // the nodes above receive the object, too
+        for (KDNodeRef i = node.node->parent; i != nodes.end(); i = i->parent) {
+            i->bounds |= bnd;
+            i->nobjs++;
+        }
+        
         return insert_impl(node.node, obj, bnd, ctr, depth);
     }
     
@@ -891,7 +897,7 @@ private:
                     best_metric = metric;
                 }
             }
-            object_iterator out = insert_impl(best, obj, bnd, ctr, depth + 1);
+            return insert_impl(best, obj, bnd, ctr, depth + 1);
         } else {
             KDDataRef inserted = objects.insert(node->objects_end, obj);
             
@@ -924,6 +930,7 @@ private:
                     buildTree(node, depth);
                 }
             }
+            return inserted;
         }
     }
     
-- 
2.43.0


From ebc5bb012cded8ac1c2e2b9d38a73340f91642f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 195/212] fix: KDTree::insert did not compile for points

---
 geomc/shape/KDTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/KDTree.h b/geomc/shape/KDTree.h
index 8ce6049..3a958b2 100644
--- a/geomc/shape/KDTree.h
+++ b/geomc/shape/KDTree.h
@@ -374,7 +374,7 @@ public:
      * The tree will be descended recursively until the best leaf is found.
      */
     object_iterator insert(const node_iterator& node, const Object& obj) {
-        Rect<T,N> bnd = helper_t::bounds(obj);
+        Rect<T,N> bnd(helper_t::bounds(obj));
         Vec<T,N>  ctr = helper_t::getPoint(obj);
         
         index_t depth;
-- 
2.43.0


From 0259454b71d70d8fff2dc1743c7302ab0d1abe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 196/212] fix: a mirrored Oriented<Rect> had negative volume

---
 geomc/shape/Oriented.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index a848699..bb7bd62 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -232,7 +232,7 @@ public:
                 mx(j,i) = s * xf.mat(j,i);
             }
         }
-        return det_destructive(mx.data_begin(), N);
+        return std::abs(det_destructive(mx.data_begin(), N));
     }
     
 }; // class Oriented<Rect>
-- 
2.43.0


From c2aa04f9b677f320a781f1ea11755b926b5ef13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 197/212] fix: Oriented and Dilated shapes reported the wrong
 Convex trait

They passed on whether the base shape is RayIntersectable.
---
 geomc/shape/Dilated.h  | 2 +-
 geomc/shape/Oriented.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index e6ac589..72c5439 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -197,7 +197,7 @@ template <typename Shape>
 struct implements_shape_concept<Dilated<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value>
+        implements_shape_concept<Shape, Convex>::value>
 {};
 
 /// @}  // addtogroup traits
diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index bb7bd62..03d2845 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -349,7 +349,7 @@ template <typename Shape>
 struct implements_shape_concept<Oriented<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value>
+        implements_shape_concept<Shape, Convex>::value>
 {};
 
 /// @} // addtogroup traits
-- 
2.43.0


From b20b75e6a9b4d709259bd2de65d30c10ecb9a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 198/212] fix: Extruded shapes and Frustums reported the wrong
 Convex trait

---
 geomc/shape/Extruded.h | 2 +-
 geomc/shape/Frustum.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Extruded.h b/geomc/shape/Extruded.h
index b6398a0..990756d 100644
--- a/geomc/shape/Extruded.h
+++ b/geomc/shape/Extruded.h
@@ -244,7 +244,7 @@ template <typename Shape>
 struct implements_shape_concept<Extruded<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value
+        implements_shape_concept<Shape, Convex>::value
     >
 {};
 
diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index 2e43007..863de08 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -304,7 +304,7 @@ template <typename Shape>
 struct implements_shape_concept<Frustum<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value>
+        implements_shape_concept<Shape, Convex>::value>
 {};
 
 
-- 
2.43.0


From e55abbafa20a669d828ed2c9ed4bc86844801543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 199/212] fix: products with diagonal matrices and vectors, and
 sums of diagonal matrices, of mixed element types were truncated

---
 geomc/linalg/mtxdetail/MatrixArithmetic.h |  3 +-
 geomc/linalg/mtxdetail/MatrixMult.h       | 46 +++++++++++++----------
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixArithmetic.h b/geomc/linalg/mtxdetail/MatrixArithmetic.h
index fd39e6f..3f0d095 100644
--- a/geomc/linalg/mtxdetail/MatrixArithmetic.h
+++ b/geomc/linalg/mtxdetail/MatrixArithmetic.h
@@ -58,8 +58,7 @@ struct _ImplMatrixAdd < DiagMatrix<T,M,N>, DiagMatrix<S,J,K> > {
     typedef DiagMatrix<T,M,N> Ma;
     typedef DiagMatrix<S,J,K> Mb;
     
-    //TODO: use decltype(T+S)
-    typedef DiagMatrix<T,
+    typedef DiagMatrix<decltype(std::declval<T>() + std::declval<S>()),
                        M * J == 0 ? 0 : M,
                        N * K == 0 ? 0 : N>
             return_t;
diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index a40dd6e..6b982b3 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -105,7 +105,9 @@ template <typename Mat, typename T, index_t M, index_t N>
 class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_GENERAL_MATRIX_T(Mat)> {
 public:
 
-    typedef SimpleMatrix<T, Mat::ROWDIM, N> return_t;
+    typedef SimpleMatrix<
+        decltype(std::declval<typename Mat::elem_t>() * std::declval<T>()),
+        Mat::ROWDIM, N> return_t;
     
     // (a x M) * (M x N) -> (a x N)
     template <typename Md>
@@ -127,7 +129,9 @@ template <typename Mat, typename T, index_t M, index_t N>
 class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_GENERAL_MATRIX_T(Mat)> {
 public:
 
-    typedef SimpleMatrix<T, M, Mat::COLDIM> return_t;
+    typedef SimpleMatrix<
+        decltype(std::declval<T>() * std::declval<typename Mat::elem_t>()),
+        M, Mat::COLDIM> return_t;
     
     // (M x N) * (N x a) -> (N x a)
     template <typename Md>
@@ -207,12 +211,13 @@ public:
 template <typename Mat, typename T, index_t N>
 class _ImplMtxMul<Mat, geom::Vec<T,N>, REQUIRE_MATRIX_T(Mat)> {
 public:
-    typedef typename _ImplVectorLikeMatrix<T,Mat::ROWDIM,ORIENT_VEC_COL>::type return_t; // Vec<T,M>, unless dynamic.
+    typedef decltype(std::declval<typename Mat::elem_t>() * std::declval<T>()) elem_t;
+    typedef typename _ImplVectorLikeMatrix<elem_t,Mat::ROWDIM,ORIENT_VEC_COL>::type return_t; // Vec<T,M>, unless dynamic.
     
-    template <index_t M>
-    static void mul(geom::Vec<T,M>* d, const Mat& a, const geom::Vec<T,N>& b) {
+    template <typename U, index_t M>
+    static void mul(geom::Vec<U,M>* d, const Mat& a, const geom::Vec<T,N>& b) {
         for (index_t r = 0; r < M; r++) {
-            T x = 0;
+            elem_t x = 0;
             for (index_t c = 0; c < N; c++) {
                 x += a(r,c) * b[c];
             }
@@ -220,10 +225,10 @@ public:
         }
     }
     
-    template <index_t M>
-    static void mul_acc(geom::Vec<T,M>* d, const Mat& a, const geom::Vec<T,N>& b) {
+    template <typename U, index_t M>
+    static void mul_acc(geom::Vec<U,M>* d, const Mat& a, const geom::Vec<T,N>& b) {
         for (index_t r = 0; r < M; r++) {
-            T x = (*d)[r];
+            decltype(std::declval<U>() + std::declval<elem_t>()) x = (*d)[r];
             for (index_t c = 0; c < N; c++) {
                 x += a(r,c) * b[c];
             }
@@ -234,7 +239,7 @@ public:
     template <typename Md>
     static void mul(Md* d, const Mat& a, const geom::Vec<T,N>& b, REQUIRE_MATRIX_T(Md)* dummy=0) {
         for (index_t r = 0; r < a.rows(); r++) {
-            T x = 0;
+            elem_t x = 0;
             for (index_t c = 0; c < N; c++) {
                 x += a(r,c) * b[c];
             }
@@ -245,7 +250,7 @@ public:
     template <typename Md>
     static void mul_acc(Md* d, const Mat& a, const geom::Vec<T,N>& b, REQUIRE_MATRIX_T(Md)* dummy=0) {
         for (index_t r = 0; r < a.rows(); r++) {
-            T x = (*d)(r, 0);
+            decltype(std::declval<typename Md::elem_t>() + std::declval<elem_t>()) x = (*d)(r, 0);
             for (index_t c = 0; c < N; c++) {
                 x += a(r, c) * b[c];
             }
@@ -260,12 +265,13 @@ public:
 template <typename Mat, typename T, index_t M>
 class _ImplMtxMul<geom::Vec<T,M>, Mat, REQUIRE_MATRIX_T(Mat)> {
 public:
-    typedef typename _ImplVectorLikeMatrix<T,Mat::COLDIM,ORIENT_VEC_ROW>::type return_t; // Vec<T,N>, unless dynamic
+    typedef decltype(std::declval<typename Mat::elem_t>() * std::declval<T>()) elem_t;
+    typedef typename _ImplVectorLikeMatrix<elem_t,Mat::COLDIM,ORIENT_VEC_ROW>::type return_t; // Vec<T,N>, unless dynamic
     
-    template <index_t N>
-    static void mul(geom::Vec<T,N>* d, geom::Vec<T,M> b, const Mat& a) {
+    template <typename U, index_t N>
+    static void mul(geom::Vec<U,N>* d, geom::Vec<T,M> b, const Mat& a) {
         for (index_t c = 0; c < N; c++) {
-            T x = 0;
+            elem_t x = 0;
             for (index_t r = 0; r < M; r++) {
                 x += a(r,c) * b[r];
             }
@@ -273,10 +279,10 @@ public:
         }
     }
     
-    template <index_t N>
-    static void mul_acc(geom::Vec<T,N>* d, geom::Vec<T,M> b, const Mat& a) {
+    template <typename U, index_t N>
+    static void mul_acc(geom::Vec<U,N>* d, geom::Vec<T,M> b, const Mat& a) {
         for (index_t c = 0; c < N; c++) {
-            T x = (*d)[c];
+            decltype(std::declval<U>() + std::declval<elem_t>()) x = (*d)[c];
             for (index_t r = 0; r < M; r++) {
                 x += a(r,c) * b[r];
             }
@@ -287,7 +293,7 @@ public:
     template <typename Md>
     static void mul(Md* d, geom::Vec<T,M> b, const Mat& a, REQUIRE_MATRIX_T(Md)* dummy=0) {
         for (index_t c = 0; c < a.cols(); c++) {
-            T x = 0;
+            elem_t x = 0;
             for (index_t r = 0; r < M; r++) {
                 x += a(r,c) * b[r];
             }
@@ -298,7 +304,7 @@ public:
     template <typename Md>
     static void mul_acc(Md* d, geom::Vec<T,M> b, const Mat& a, REQUIRE_MATRIX_T(Md)* dummy=0) {
         for (index_t c = 0; c < a.cols(); c++) {
-            T x = (*d)(0,c);
+            decltype(std::declval<typename Md::elem_t>() + std::declval<elem_t>()) x = (*d)(0,c);
             for (index_t r = 0; r < M; r++) {
                 x += a(r,c) * b[r];
             }
-- 
2.43.0


From bc7e0615d75d547f2cf32cf4aacc1c5ca3fdb2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 200/212] fix: column iterators could not be assigned, so
 algorithms on columns did not compile

---
 geomc/linalg/mtxdetail/MatrixLayout.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixLayout.h b/geomc/linalg/mtxdetail/MatrixLayout.h
index ddc2eb9..c95ef8a 100644
--- a/geomc/linalg/mtxdetail/MatrixLayout.h
+++ b/geomc/linalg/mtxdetail/MatrixLayout.h
@@ -18,9 +18,9 @@ struct TransposeIterator :
     typedef typename std::conditional<Const, const T*, T*>::type pointer_t;
     typedef typename std::conditional<Const, const T&, T&>::type ref_t;
     
-    const pointer_t base;
-    const index_t   major; // # elements along major (consecutive) axis
-    const index_t   minor; // # elements along minor axis
+          pointer_t base;
+          index_t   major; // # elements along major (consecutive) axis
+          index_t   minor; // # elements along minor axis
           index_t   i;     // ordinal of this iterator
           pointer_t p;     // pointed memory location
     
-- 
2.43.0


From 69d673793f83d67c649439c7ca02e7b9707be931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 201/212] fix: grid iterators could not be assigned

---
 geomc/shape/GridIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 79c4fb8..d288424 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -74,7 +74,7 @@ public:
     typedef typename PointType<T,N>::point_t point_t;
     
     /// Region over which to iterate
-    const Rect<T,N> region;
+    Rect<T,N> region;
     /// Current point
     point_t pt;
     
@@ -212,7 +212,7 @@ public:
     static constexpr ArrayOrder order = Order;
     typedef typename PointType<T,1>::point_t point_t;
     
-    const Rect<T,1> region;
+    Rect<T,1> region;
     point_t pt;
     
     GridIterator(const Rect<T,1> &r):
-- 
2.43.0


From e51b9357bafec04443ad44e3580b23b0715d4dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:21 +0000
Subject: [PATCH 202/212] fix: the bounds-checked matrix build did not compile
 and did not check dense matrices

---
 geomc/linalg/Matrix.h                     |  4 ++++
 geomc/linalg/mtxdetail/MatrixBase.h       |  6 +++---
 geomc/linalg/mtxtypes/PermutationMatrix.h |  5 +++++
 geomc/linalg/mtxtypes/SimpleMatrix.h      | 15 +++++++++++++++
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 244b817..9dbb972 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -257,6 +257,10 @@
 
 #include <geomc/linalg/LinalgTypes.h>
 
+#ifdef GEOMC_MTX_CHECK_BOUNDS
+#include <stdexcept>
+#endif
+
 #if defined(GEOMC_MTX_CHECK_BOUNDS) or defined(GEOMC_MTX_CHECK_DIMS)
 #include <geomc/GeomException.h>
 #endif
diff --git a/geomc/linalg/mtxdetail/MatrixBase.h b/geomc/linalg/mtxdetail/MatrixBase.h
index 96175fe..9308d76 100644
--- a/geomc/linalg/mtxdetail/MatrixBase.h
+++ b/geomc/linalg/mtxdetail/MatrixBase.h
@@ -142,7 +142,7 @@ public:
     inline elem_t operator()(index_t row, index_t col) const {
 #ifdef GEOMC_MTX_CHECK_BOUNDS
             if (row >= rows() || col >= cols() || row < 0 || col < 0) {
-                throw std::out_of_range();
+                throw std::out_of_range("matrix coordinates");
             }
 #endif
         return derived()->operator()(row,col);
@@ -269,7 +269,7 @@ public:
     inline derived_reference operator()(index_t row, index_t col) {
 #ifdef GEOMC_MTX_CHECK_BOUNDS
             if (row >= derived()->rows() or col >= derived()->cols() or row < 0 or col < 0) {
-                throw std::out_of_range();
+                throw std::out_of_range("matrix coordinates");
             }
 #endif
         return derived_reference(derived(), row, col);
@@ -285,7 +285,7 @@ public:
     inline derived_reference set(index_t row, index_t col, T val) {
 #ifdef GEOMC_MTX_CHECK_BOUNDS
             if (row >= derived()->rows() or col >= derived()->cols() or row < 0 or col < 0) {
-                throw std::out_of_range();
+                throw std::out_of_range("matrix coordinates");
             }
 #endif
         return derived()->set(row,col, val);
diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index 18a1acf..87c1846 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -368,6 +368,11 @@ public:
      * @return The element at `(row, col)`; either 0 or 1.
      */
     inline bool operator()(index_t row, index_t col) const {
+#ifdef GEOMC_MTX_CHECK_BOUNDS
+        if (row < 0 or row >= rows() or col < 0 or col >= cols()) {
+            throw std::out_of_range("matrix coordinates");
+        }
+#endif
         return parent_t::getSrcData()[row] == col;
     }
     
diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index dc22ebe..5bbe272 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -442,6 +442,11 @@ public:
      * @return The element at `(row, col)`
      */
     inline T operator()(index_t r, index_t c) const {
+#ifdef GEOMC_MTX_CHECK_BOUNDS
+        if (r < 0 or r >= rows() or c < 0 or c >= cols()) {
+            throw std::out_of_range("matrix coordinates");
+        }
+#endif
         const index_t i = FlatMatrixLayout<T,Lyt>::index(r, c, rows(), cols());
         return data.get()[i];
     }
@@ -453,6 +458,11 @@ public:
      * @return A reference to the element at `(row, col)`
      */
     inline reference operator()(index_t r, index_t c) {
+#ifdef GEOMC_MTX_CHECK_BOUNDS
+        if (r < 0 or r >= rows() or c < 0 or c >= cols()) {
+            throw std::out_of_range("matrix coordinates");
+        }
+#endif
         const index_t i = FlatMatrixLayout<T,Lyt>::index(r, c, rows(), cols());
         return data.get()[i];
     }
@@ -465,6 +475,11 @@ public:
      * @return A reference to the element at `(row, col)`, for convenience.
      */
     inline reference set(index_t r, index_t c, T val) {
+#ifdef GEOMC_MTX_CHECK_BOUNDS
+        if (r < 0 or r >= rows() or c < 0 or c >= cols()) {
+            throw std::out_of_range("matrix coordinates");
+        }
+#endif
         const index_t i = FlatMatrixLayout<T,Lyt>::index(r, c, rows(), cols());
         T* elem = data.get() + i;
         *elem = val;
-- 
2.43.0


From 780b62d0da8d7208bba151061e9e3df57c3485ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:52 +0000
Subject: [PATCH 203/212] fix: restore the line endings of five files changed
 by earlier fixes

---
 geomc/linalg/Ray.h            | 318 +++++++++---------
 geomc/linalg/vecdetail/Vec2.h | 370 ++++++++++-----------
 geomc/linalg/vecdetail/Vec4.h | 296 ++++++++---------
 geomc/random/MTRand.cpp       | 150 ++++-----
 geomc/random/Random.cpp       | 604 +++++++++++++++++-----------------
 5 files changed, 869 insertions(+), 869 deletions(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index c4cb7ea..beb5f2a 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -1,159 +1,159 @@
-#pragma once
-
-#ifdef GEOMC_USE_STREAMS
-#include <iostream>
-#endif
-
-#include <geomc/linalg/LinalgTypes.h>
-#include <geomc/linalg/Vec.h>
-
-
-namespace geom {
-
-/**
- * @brief Ray class.
- * @tparam T Coordinate type.
- * @tparam N Dimensionality.
- * @ingroup linalg
- */
-template <typename T, index_t N>
-class Ray {
-public:
-    /**
-     * @brief The type of a point with the same dimension as this ray; a `Vec<T,N>`
-     * if `N` is greater than 1; or a `T` if `N` is 1.
-     */
-    typedef typename PointType<T,N>::point_t point_t;
-    /// Origin of ray.
-    point_t origin;
-    /// Direction of ray.
-    point_t direction;
-
-    /*************************
-     * Structors             *
-     *************************/
-    
-    /// Construct a ray through the origin directed along the +x axis.
-    Ray():origin((T)0),direction((T)0) {
-        direction[0] = 1; //x axis
-    }
-    
-    /// Construct a ray through the point `o` with direction `v`.
-    Ray(point_t o, point_t v):
-        origin(o),
-        direction(v) {}
-
-    /*************************
-     * Operators             *
-     *************************/
-
-    /// Return a ray pointing in the opposite direction.
-    Ray<T,N> operator-() const {
-        return {origin, -direction};
-    }
-
-    /*************************
-     * Public Methods        *
-     *************************/
-    
-    /// Change the dimensionality of this Ray.
-    template <index_t M>
-    inline Ray<T,M> resized() const {
-        return Ray<T,M>(
-            origin.   template resized<M>(),
-            direction.template resized<M>());
-    }
-
-    /// Return the point along this ray's direction, at distance `d` from the ray origin.
-    inline point_t at_distance(T d) const {
-        return origin + direction.unit() * d;
-    }
-
-    /// Return the point `origin + s * direction`.
-    inline point_t at_multiple(T s) const {
-        return origin + direction * s;
-    }
-    
-    /**
-     * @brief Find the point on the ray nearest to `p` by orhtogonally
-     * projecting `p` onto it.
-     */
-    inline point_t project(point_t p) const {
-        return (p - origin).project_on(direction) + origin;
-    }
-    
-    /// Signed distance from `p` to the nearest point on the ray.
-    inline T sdf(point_t p) const {
-        return std::sqrt(dist2(p));
-    }
-    
-    /// Compute the square of the distance from `p` to the nearest point on the ray.
-    inline T dist2(point_t p) const {
-        point_t b = p - origin;
-        T b2 = b.mag2();
-        T v2 = direction.mag2();
-        T d  = direction.dot(b);
-        return v2 == 0 ? b2 : std::max<T>(0, b2 - (d * d / v2));
-    }
-    
-}; // class Ray
-
-
-/**
- * Ray multiple.
- * @return `(r.origin + s * r.direction)`.
- * @related Ray
- * @ingroup linalg
- */
-template <typename T, index_t N>
-inline typename PointType<T,N>::point_t operator*(const Ray<T,N> r, T s) {
-    return r.at_multiple(s);
-}
-
-
-/**
- * Ray multiple.
- * @return `(r.origin + s * r.direction)`.
- * @related Ray
- * @ingroup linalg
- */
-template <typename T, index_t N>
-inline typename PointType<T,N>::point_t operator*(T s, const Ray<T,N> r) {
-    return r.at_multiple(s);
-}
-    
-#ifdef GEOMC_USE_STREAMS
-    
-/** @ingroup linalg
- * Ray stream output, in the form:
- * 
- *     <(x0, x1, x2, ... ), (v0, v1, v2, ...)>
- * where `x` is the origin and `v` is the direction.
- * @related Ray
- */
-template <typename T, index_t N>
-inline std::ostream &operator<< (std::ostream &stream, const Ray<T,N> &r) {
-    stream << "<" << r.origin << " + s * " << r.direction << ">";
-    return stream;
-}
-
-#endif // GEOMC_USE_STREAMS
-
-
-template <typename T, index_t N, typename H>
-struct Digest<Ray<T,N>, H> {
-    H operator()(const Ray<T,N> &r) const {
-        H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
-        return geom::hash_many<H>(nonce, r.origin, r.direction);
-    }
-};
-
-} // namespace geom
-
-
-template <typename T, index_t N>
-struct std::hash<geom::Ray<T,N>> {
-    size_t operator()(const geom::Ray<T,N> &v) const {
-        return geom::hash<geom::Ray<T,N>, size_t>(v);
-    }
-};
+#pragma once
+
+#ifdef GEOMC_USE_STREAMS
+#include <iostream>
+#endif
+
+#include <geomc/linalg/LinalgTypes.h>
+#include <geomc/linalg/Vec.h>
+
+
+namespace geom {
+
+/**
+ * @brief Ray class.
+ * @tparam T Coordinate type.
+ * @tparam N Dimensionality.
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+class Ray {
+public:
+    /**
+     * @brief The type of a point with the same dimension as this ray; a `Vec<T,N>`
+     * if `N` is greater than 1; or a `T` if `N` is 1.
+     */
+    typedef typename PointType<T,N>::point_t point_t;
+    /// Origin of ray.
+    point_t origin;
+    /// Direction of ray.
+    point_t direction;
+
+    /*************************
+     * Structors             *
+     *************************/
+    
+    /// Construct a ray through the origin directed along the +x axis.
+    Ray():origin((T)0),direction((T)0) {
+        direction[0] = 1; //x axis
+    }
+    
+    /// Construct a ray through the point `o` with direction `v`.
+    Ray(point_t o, point_t v):
+        origin(o),
+        direction(v) {}
+
+    /*************************
+     * Operators             *
+     *************************/
+
+    /// Return a ray pointing in the opposite direction.
+    Ray<T,N> operator-() const {
+        return {origin, -direction};
+    }
+
+    /*************************
+     * Public Methods        *
+     *************************/
+    
+    /// Change the dimensionality of this Ray.
+    template <index_t M>
+    inline Ray<T,M> resized() const {
+        return Ray<T,M>(
+            origin.   template resized<M>(),
+            direction.template resized<M>());
+    }
+
+    /// Return the point along this ray's direction, at distance `d` from the ray origin.
+    inline point_t at_distance(T d) const {
+        return origin + direction.unit() * d;
+    }
+
+    /// Return the point `origin + s * direction`.
+    inline point_t at_multiple(T s) const {
+        return origin + direction * s;
+    }
+    
+    /**
+     * @brief Find the point on the ray nearest to `p` by orhtogonally
+     * projecting `p` onto it.
+     */
+    inline point_t project(point_t p) const {
+        return (p - origin).project_on(direction) + origin;
+    }
+    
+    /// Signed distance from `p` to the nearest point on the ray.
+    inline T sdf(point_t p) const {
+        return std::sqrt(dist2(p));
+    }
+    
+    /// Compute the square of the distance from `p` to the nearest point on the ray.
+    inline T dist2(point_t p) const {
+        point_t b = p - origin;
+        T b2 = b.mag2();
+        T v2 = direction.mag2();
+        T d  = direction.dot(b);
+        return v2 == 0 ? b2 : std::max<T>(0, b2 - (d * d / v2));
+    }
+    
+}; // class Ray
+
+
+/**
+ * Ray multiple.
+ * @return `(r.origin + s * r.direction)`.
+ * @related Ray
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+inline typename PointType<T,N>::point_t operator*(const Ray<T,N> r, T s) {
+    return r.at_multiple(s);
+}
+
+
+/**
+ * Ray multiple.
+ * @return `(r.origin + s * r.direction)`.
+ * @related Ray
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+inline typename PointType<T,N>::point_t operator*(T s, const Ray<T,N> r) {
+    return r.at_multiple(s);
+}
+    
+#ifdef GEOMC_USE_STREAMS
+    
+/** @ingroup linalg
+ * Ray stream output, in the form:
+ * 
+ *     <(x0, x1, x2, ... ), (v0, v1, v2, ...)>
+ * where `x` is the origin and `v` is the direction.
+ * @related Ray
+ */
+template <typename T, index_t N>
+inline std::ostream &operator<< (std::ostream &stream, const Ray<T,N> &r) {
+    stream << "<" << r.origin << " + s * " << r.direction << ">";
+    return stream;
+}
+
+#endif // GEOMC_USE_STREAMS
+
+
+template <typename T, index_t N, typename H>
+struct Digest<Ray<T,N>, H> {
+    H operator()(const Ray<T,N> &r) const {
+        H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
+        return geom::hash_many<H>(nonce, r.origin, r.direction);
+    }
+};
+
+} // namespace geom
+
+
+template <typename T, index_t N>
+struct std::hash<geom::Ray<T,N>> {
+    size_t operator()(const geom::Ray<T,N> &v) const {
+        return geom::hash<geom::Ray<T,N>, size_t>(v);
+    }
+};
diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 99335c0..7513aea 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -1,185 +1,185 @@
-#pragma once
-
-/*
- * Vec2.h
- *
- *  Created on: May 9, 2009
- *      Author: Tim Babb
- */
-
-#include <cmath>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /** @ingroup linalg
-     *  @brief 2D specialization of vector class.
-     * 
-     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y}     // conventional Euclidean coordinate names
-     *     v.{s,t}     // conventional parameterization coordinate names
-     *     v.{row,col} // matrix coordinate names
-     * 
-     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
-     * `row` all refer to the same element.
-     * 
-     * Take special note that, in accordance with convention, `row` refers to the
-     * vertical position of a matrix element, despite being the first coordinate.
-     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
-     * horizontal coordinate. For this reason it is **inadviseable to interchange 
-     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
-     */
-    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
-
-    public:
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
-        
-        /// @brief (1, 0) vector constant
-        static const Vec<T,2> X_AXIS;
-        /// @brief (0, 1) vector constant
-        static const Vec<T,2> Y_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-        
-        /// Construct vector with both elements set to 0.
-        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
-        
-        /// Construct a vector with both elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
-
-        /// Construct a vector with elements `(x, y)`.
-        constexpr Vec(T x, T y) {
-            detail::VecBase<T,2>::x = x;
-            detail::VecBase<T,2>::y = y;
-        }
-        
-        /// Construct a vector with elements copied from the 2-element array `v`.
-        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
-        
-        /*===========================*
-         * Convenience Arithmetic    *
-         *===========================*/
-        
-        //do not hide these; we want to overload them:
-        using detail::VecCommon< T, 2, Vec<T,2> >::add;
-        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
-        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
-        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
-
-        /// Addition. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> add(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
-        }
-
-        /// Subtraction. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> sub(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
-        }
-
-        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> scale(T sx, T sy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
-        }
-
-        /// Dot product with the vector `(x1, y1)`.
-        inline T dot(T x1, T y1) const {
-            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
-        }
-
-        /// @return A new vector with the X component reflected.
-        inline Vec<T,2> reflected_x() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
-        }
-        
-        /// @return A new vector with the Y component reflected.
-        inline Vec<T,2> reflected_y() const {
-            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
-        }
-
-        /// @return `true` if no elements are an infinity or `NaN`.
-        bool is_finite_real() const {
-            return detail::is_real(detail::VecBase<T,2>::x) and detail::is_real(detail::VecBase<T,2>::y);
-        }
-        
-        /*===========================*
-         * 2D Geometry               *
-         *===========================*/
-
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees counterclockwise.
-         */
-        
-        Vec<T,2> left_perpendicular() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
-        }
-        
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees clockwise.
-         */
-        Vec<T,2> right_perpendicular() const {
-            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
-        }
-
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians`.
-         * @param radians Rotation angle in radians
-         */
-        Vec<T,2> rotated(T radians) const {
-            T sint = std::sin(radians);
-            T cost = std::cos(radians);
-            return Vec<T,2>(cost * this->x - sint * this->y,
-                            sint * this->x + cost * this->y);
-        }
-        
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians` about
-         * the point `center`.
-         * @param center Center of rotation.
-         * @param radians Angle of rotation.
-         */
-        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
-            return center + (((*this) - center).rotated(radians));
-        }
-
-        /**
-         * @return The polar coordinates `(r, angle)` for this cartesian point,
-         * with `angle` in radians.
-         */
-        inline Vec<T,2> to_polar() const {
-            return Vec<T,2>(this->mag(), angle());
-        }
-        
-        /**
-         * @return The cartesian `(x, y)` coordinates of this point interpreted
-         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
-         */
-        inline Vec<T,2> from_polar() const {
-            Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
-            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
-            return v;
-        }
-
-        /**
-         * @return The angle in radians to this vector from the x-axis, between 0 
-         * and `2 * pi`.
-         */
-        inline T angle() const {
-            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
-            if (theta < 0) theta += 2 * M_PI;
-            return theta;
-        }
-
-    }; //end Vec2 definition
-    
-    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
-    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
-
-} //end namespace geom
+#pragma once
+
+/*
+ * Vec2.h
+ *
+ *  Created on: May 9, 2009
+ *      Author: Tim Babb
+ */
+
+#include <cmath>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /** @ingroup linalg
+     *  @brief 2D specialization of vector class.
+     * 
+     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y}     // conventional Euclidean coordinate names
+     *     v.{s,t}     // conventional parameterization coordinate names
+     *     v.{row,col} // matrix coordinate names
+     * 
+     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
+     * `row` all refer to the same element.
+     * 
+     * Take special note that, in accordance with convention, `row` refers to the
+     * vertical position of a matrix element, despite being the first coordinate.
+     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
+     * horizontal coordinate. For this reason it is **inadviseable to interchange 
+     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
+     */
+    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
+
+    public:
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
+        
+        /// @brief (1, 0) vector constant
+        static const Vec<T,2> X_AXIS;
+        /// @brief (0, 1) vector constant
+        static const Vec<T,2> Y_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+        
+        /// Construct vector with both elements set to 0.
+        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
+        
+        /// Construct a vector with both elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
+
+        /// Construct a vector with elements `(x, y)`.
+        constexpr Vec(T x, T y) {
+            detail::VecBase<T,2>::x = x;
+            detail::VecBase<T,2>::y = y;
+        }
+        
+        /// Construct a vector with elements copied from the 2-element array `v`.
+        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
+        
+        /*===========================*
+         * Convenience Arithmetic    *
+         *===========================*/
+        
+        //do not hide these; we want to overload them:
+        using detail::VecCommon< T, 2, Vec<T,2> >::add;
+        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
+        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
+        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
+
+        /// Addition. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> add(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
+        }
+
+        /// Subtraction. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> sub(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
+        }
+
+        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> scale(T sx, T sy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
+        }
+
+        /// Dot product with the vector `(x1, y1)`.
+        inline T dot(T x1, T y1) const {
+            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
+        }
+
+        /// @return A new vector with the X component reflected.
+        inline Vec<T,2> reflected_x() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
+        }
+        
+        /// @return A new vector with the Y component reflected.
+        inline Vec<T,2> reflected_y() const {
+            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
+        }
+
+        /// @return `true` if no elements are an infinity or `NaN`.
+        bool is_finite_real() const {
+            return detail::is_real(detail::VecBase<T,2>::x) and detail::is_real(detail::VecBase<T,2>::y);
+        }
+        
+        /*===========================*
+         * 2D Geometry               *
+         *===========================*/
+
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees counterclockwise.
+         */
+        
+        Vec<T,2> left_perpendicular() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
+        }
+        
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees clockwise.
+         */
+        Vec<T,2> right_perpendicular() const {
+            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
+        }
+
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians`.
+         * @param radians Rotation angle in radians
+         */
+        Vec<T,2> rotated(T radians) const {
+            T sint = std::sin(radians);
+            T cost = std::cos(radians);
+            return Vec<T,2>(cost * this->x - sint * this->y,
+                            sint * this->x + cost * this->y);
+        }
+        
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians` about
+         * the point `center`.
+         * @param center Center of rotation.
+         * @param radians Angle of rotation.
+         */
+        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
+            return center + (((*this) - center).rotated(radians));
+        }
+
+        /**
+         * @return The polar coordinates `(r, angle)` for this cartesian point,
+         * with `angle` in radians.
+         */
+        inline Vec<T,2> to_polar() const {
+            return Vec<T,2>(this->mag(), angle());
+        }
+        
+        /**
+         * @return The cartesian `(x, y)` coordinates of this point interpreted
+         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
+         */
+        inline Vec<T,2> from_polar() const {
+            Vec<T,2> v;
+            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
+            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
+            return v;
+        }
+
+        /**
+         * @return The angle in radians to this vector from the x-axis, between 0 
+         * and `2 * pi`.
+         */
+        inline T angle() const {
+            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
+            if (theta < 0) theta += 2 * M_PI;
+            return theta;
+        }
+
+    }; //end Vec2 definition
+    
+    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
+    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
+
+} //end namespace geom
diff --git a/geomc/linalg/vecdetail/Vec4.h b/geomc/linalg/vecdetail/Vec4.h
index b5c09ca..ddedb0d 100644
--- a/geomc/linalg/vecdetail/Vec4.h
+++ b/geomc/linalg/vecdetail/Vec4.h
@@ -1,148 +1,148 @@
-/*
- * Vec4.h
- *
- *  Created on: Feb 22, 2009
- *      Author: Tim Babb
- */
-
-#ifndef VECTOR4D_H_
-#define VECTOR4D_H_
-
-#include <cctype>
-#include <algorithm>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /*===========================*
-     * Global Functions          *
-     *===========================*/
-
-    template <typename T> const Vec<T,4> from_argb(int aRGB) {
-        T a = ((aRGB & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
-        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
-        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
-        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
-        return Vec<T,4>(r,g,b,a);
-    }
-
-    template <typename T> const Vec<T,4> from_rgba(int rgba) {
-        T r = ((rgba & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
-        T g = ((rgba & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
-        T b = ((rgba & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
-        T a =  (rgba & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
-        return Vec<T,4>(r,g,b,a);
-    }
-
-    /*===========================*
-     * Vector Class              *
-     *===========================*/
-
-    /** @ingroup linalg
-     *  @brief 4D specialization of vector class.
-     * 
-     * `Vec<T,4>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y,z,w} // conventional Euclidean coordinate names
-     *     v.{s,t,u,v} // conventional parameterization coordinate names
-     *     v.{r,g,b,a} // conventional color tuple coordinate names
-     * 
-     * with `x`, `s`, and `r` all referring to the same element.
-     */
-    template <typename T> class Vec<T,4> : public detail::VecCommon< T, 4, Vec<T,4> > {
-    public:
-        
-        /// @brief (1, 0, 0, 0) constant
-        static const Vec<T,4> X_AXIS;
-        /// @brief (0, 1, 0, 0) constant
-        static const Vec<T,4> Y_AXIS;
-        /// @brief (0, 0, 1, 0) constant
-        static const Vec<T,4> Z_AXIS;
-        /// @brief (0, 0, 0, 1) constant
-        static const Vec<T,4> W_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-
-        
-        /// Construct vector with all elements set to 0.
-        constexpr Vec():detail::VecCommon<T, 4, Vec<T,4>>() {}
-        
-        /// Construct a vector with elements `(x, y, z, w)`.
-        constexpr Vec(T x, T y, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{x,y,z,w} {}
-
-        /// Construct a vector with elements copied from the 4-element array `v`.
-        constexpr Vec(const T v[4]):detail::VecCommon<T, 4, Vec<T,4>>(v) {};
-
-        /**
-         * @brief Construct a vector with `(x, y, z)` taken from the 3D vector `xyz`,
-         * and `w` as the final element.
-         */
-        template <typename U>
-        constexpr Vec(Vec<U,3> xyz, T w):detail::VecCommon<T, 4, Vec<T,4>>{
-            xyz.x, xyz.y, xyz.z, w
-        } {}
-        
-        template <typename U>
-        constexpr Vec(Vec<U,2> xy, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{
-            xy.x, xy.y, z, w
-        } {}
-
-        /// Construct a vector with all elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon<T, 4, Vec<T,4>>(a) {}
-        
-        /*===========================*
-         * Arithmetic                *
-         *===========================*/
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,4,Vec<T,4>>::operator==;
-        
-        using detail::VecCommon< T, 4, Vec<T,4> >::add;
-        using detail::VecCommon< T, 4, Vec<T,4> >::sub;
-        using detail::VecCommon< T, 4, Vec<T,4> >::scale;
-        using detail::VecCommon< T, 4, Vec<T,4> >::dot;
-
-        /// @return `(dx, dy, dz, dw)` added with `this`
-        Vec<T,4> add(T dx, T dy, T dz, T dw) const {
-            return Vec<T,4>(detail::VecBase<T,4>::x+dx, 
-                            detail::VecBase<T,4>::y+dy, 
-                            detail::VecBase<T,4>::z+dz, 
-                            detail::VecBase<T,4>::w+dw);
-        }
-        
-        /// @return `(dx, dy, dz, dw)` subtracted from `this`
-        Vec<T,4> sub(T dx, T dy, T dz, T dw) const {
-            return Vec<T,4>(detail::VecBase<T,4>::x-dx, 
-                            detail::VecBase<T,4>::y-dy, 
-                            detail::VecBase<T,4>::z-dz, 
-                            detail::VecBase<T,4>::w-dw);
-        }
-        
-        /// @return Element-wise scaled copy
-        Vec<T,4> scale(T a, T b, T c, T d) const {
-            return Vec<T,4>(a*detail::VecBase<T,4>::x, 
-                            b*detail::VecBase<T,4>::y, 
-                            c*detail::VecBase<T,4>::z, 
-                            d*detail::VecBase<T,4>::w);
-        }
-
-        /// @return Dot product of `this` with the vector `(xx, yy, zz, ww)`
-        T dot(T xx, T yy, T zz, T ww) const {
-            return (detail::VecBase<T,4>::x * xx) + 
-                   (detail::VecBase<T,4>::y * yy) + 
-                   (detail::VecBase<T,4>::z * zz) + 
-                   (detail::VecBase<T,4>::w * ww);
-        }
-        
-    }; //end Vec4 definition
-    
-    template <typename T> const Vec<T,4> Vec<T,4>::X_AXIS = Vec<T,4>(1,0,0,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::Y_AXIS = Vec<T,4>(0,1,0,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::Z_AXIS = Vec<T,4>(0,0,1,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::W_AXIS = Vec<T,4>(0,0,0,1);
-
-} //end namespace geom
-
-#endif /* VECTOR4D_H_ */
+/*
+ * Vec4.h
+ *
+ *  Created on: Feb 22, 2009
+ *      Author: Tim Babb
+ */
+
+#ifndef VECTOR4D_H_
+#define VECTOR4D_H_
+
+#include <cctype>
+#include <algorithm>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /*===========================*
+     * Global Functions          *
+     *===========================*/
+
+    template <typename T> const Vec<T,4> from_argb(int aRGB) {
+        T a = ((aRGB & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
+        return Vec<T,4>(r,g,b,a);
+    }
+
+    template <typename T> const Vec<T,4> from_rgba(int rgba) {
+        T r = ((rgba & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((rgba & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T b = ((rgba & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T a =  (rgba & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
+        return Vec<T,4>(r,g,b,a);
+    }
+
+    /*===========================*
+     * Vector Class              *
+     *===========================*/
+
+    /** @ingroup linalg
+     *  @brief 4D specialization of vector class.
+     * 
+     * `Vec<T,4>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y,z,w} // conventional Euclidean coordinate names
+     *     v.{s,t,u,v} // conventional parameterization coordinate names
+     *     v.{r,g,b,a} // conventional color tuple coordinate names
+     * 
+     * with `x`, `s`, and `r` all referring to the same element.
+     */
+    template <typename T> class Vec<T,4> : public detail::VecCommon< T, 4, Vec<T,4> > {
+    public:
+        
+        /// @brief (1, 0, 0, 0) constant
+        static const Vec<T,4> X_AXIS;
+        /// @brief (0, 1, 0, 0) constant
+        static const Vec<T,4> Y_AXIS;
+        /// @brief (0, 0, 1, 0) constant
+        static const Vec<T,4> Z_AXIS;
+        /// @brief (0, 0, 0, 1) constant
+        static const Vec<T,4> W_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+
+        
+        /// Construct vector with all elements set to 0.
+        constexpr Vec():detail::VecCommon<T, 4, Vec<T,4>>() {}
+        
+        /// Construct a vector with elements `(x, y, z, w)`.
+        constexpr Vec(T x, T y, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{x,y,z,w} {}
+
+        /// Construct a vector with elements copied from the 4-element array `v`.
+        constexpr Vec(const T v[4]):detail::VecCommon<T, 4, Vec<T,4>>(v) {};
+
+        /**
+         * @brief Construct a vector with `(x, y, z)` taken from the 3D vector `xyz`,
+         * and `w` as the final element.
+         */
+        template <typename U>
+        constexpr Vec(Vec<U,3> xyz, T w):detail::VecCommon<T, 4, Vec<T,4>>{
+            xyz.x, xyz.y, xyz.z, w
+        } {}
+        
+        template <typename U>
+        constexpr Vec(Vec<U,2> xy, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{
+            xy.x, xy.y, z, w
+        } {}
+
+        /// Construct a vector with all elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon<T, 4, Vec<T,4>>(a) {}
+        
+        /*===========================*
+         * Arithmetic                *
+         *===========================*/
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,4,Vec<T,4>>::operator==;
+        
+        using detail::VecCommon< T, 4, Vec<T,4> >::add;
+        using detail::VecCommon< T, 4, Vec<T,4> >::sub;
+        using detail::VecCommon< T, 4, Vec<T,4> >::scale;
+        using detail::VecCommon< T, 4, Vec<T,4> >::dot;
+
+        /// @return `(dx, dy, dz, dw)` added with `this`
+        Vec<T,4> add(T dx, T dy, T dz, T dw) const {
+            return Vec<T,4>(detail::VecBase<T,4>::x+dx, 
+                            detail::VecBase<T,4>::y+dy, 
+                            detail::VecBase<T,4>::z+dz, 
+                            detail::VecBase<T,4>::w+dw);
+        }
+        
+        /// @return `(dx, dy, dz, dw)` subtracted from `this`
+        Vec<T,4> sub(T dx, T dy, T dz, T dw) const {
+            return Vec<T,4>(detail::VecBase<T,4>::x-dx, 
+                            detail::VecBase<T,4>::y-dy, 
+                            detail::VecBase<T,4>::z-dz, 
+                            detail::VecBase<T,4>::w-dw);
+        }
+        
+        /// @return Element-wise scaled copy
+        Vec<T,4> scale(T a, T b, T c, T d) const {
+            return Vec<T,4>(a*detail::VecBase<T,4>::x, 
+                            b*detail::VecBase<T,4>::y, 
+                            c*detail::VecBase<T,4>::z, 
+                            d*detail::VecBase<T,4>::w);
+        }
+
+        /// @return Dot product of `this` with the vector `(xx, yy, zz, ww)`
+        T dot(T xx, T yy, T zz, T ww) const {
+            return (detail::VecBase<T,4>::x * xx) + 
+                   (detail::VecBase<T,4>::y * yy) + 
+                   (detail::VecBase<T,4>::z * zz) + 
+                   (detail::VecBase<T,4>::w * ww);
+        }
+        
+    }; //end Vec4 definition
+    
+    template <typename T> const Vec<T,4> Vec<T,4>::X_AXIS = Vec<T,4>(1,0,0,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::Y_AXIS = Vec<T,4>(0,1,0,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::Z_AXIS = Vec<T,4>(0,0,1,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::W_AXIS = Vec<T,4>(0,0,0,1);
+
+} //end namespace geom
+
+#endif /* VECTOR4D_H_ */
diff --git a/geomc/random/MTRand.cpp b/geomc/random/MTRand.cpp
index bc7efdf..0e24d57 100644
--- a/geomc/random/MTRand.cpp
+++ b/geomc/random/MTRand.cpp
@@ -1,75 +1,75 @@
-/*
- * MTRand.cpp
- * Mersenne Twister Random Number Generator
- *
- *  Created on: Feb 22, 2009
- *      Author: Tim Babb
- *
- * Based on public domain code by michael brundage. snipped from:
- * http://www.qbrundage.com/michaelb/pubs/essays/random_number_generation.html
- * 
- * NOT CRYPTOGRAPHICALLY SECURE! Don't use for cryptography/gambling
- */
-
-#include <ctime>
-#include <limits>
-#include <geomc/random/MTRand.h>
-#include <geomc/random/LCRand.h>
-
-using namespace geom;
-
-int MTRand::uniq = 0;
-
-#define MT_IA           397
-#define MT_IB           (MT_LEN - MT_IA)
-#define UPPER_MASK      0x80000000
-#define LOWER_MASK      0x7FFFFFFF
-#define MATRIX_A        0x9908B0DF
-#define TWIST(b,i,j)    ((b)[i] & UPPER_MASK) | ((b)[j] & LOWER_MASK)
-#define MAGIC(s)        (((s)&1)*MATRIX_A)
-
-MTRand::MTRand(){
-    this->rseed(time(0) ^ (clock() + uniq++));
-}
-
-MTRand::MTRand(uint64_t seed){
-    this->rseed(seed);
-}
-
-MTRand::~MTRand() {
-    //do nothing
-}
-
-uint32_t MTRand::rand32() {
-    uint32_t *b = mt_buffer;
-    int idx = mt_index;
-    uint32_t s;
-    int i;
-
-    if (idx == MT_LEN*sizeof(uint32_t)) {
-        idx = 0;
-        i = 0;
-        for (; i < MT_IB; i++) {
-            s = TWIST(b, i, i+1);
-            b[i] = b[i + MT_IA] ^ (s >> 1) ^ MAGIC(s);
-        }
-        for (; i < MT_LEN-1; i++) {
-            s = TWIST(b, i, i+1);
-            b[i] = b[i - MT_IB] ^ (s >> 1) ^ MAGIC(s);
-        }
-
-        s = TWIST(b, MT_LEN-1, 0);
-        b[MT_LEN-1] = b[MT_IA-1] ^ (s >> 1) ^ MAGIC(s);
-    }
-    mt_index = idx + sizeof(uint32_t);
-    return *(uint32_t*)((unsigned char*)b + idx);
-}
-
-void MTRand::rseed(uint64_t seed){
-    LCRand seeder(seed);
-    for (int i = 0; i < MT_LEN; i++){
-        mt_buffer[i] = seeder.rand32();
-    }
-    mt_index = 0;
-    _bitsleft = 0; // discard bits of the previous stream
-}
+/*
+ * MTRand.cpp
+ * Mersenne Twister Random Number Generator
+ *
+ *  Created on: Feb 22, 2009
+ *      Author: Tim Babb
+ *
+ * Based on public domain code by michael brundage. snipped from:
+ * http://www.qbrundage.com/michaelb/pubs/essays/random_number_generation.html
+ * 
+ * NOT CRYPTOGRAPHICALLY SECURE! Don't use for cryptography/gambling
+ */
+
+#include <ctime>
+#include <limits>
+#include <geomc/random/MTRand.h>
+#include <geomc/random/LCRand.h>
+
+using namespace geom;
+
+int MTRand::uniq = 0;
+
+#define MT_IA           397
+#define MT_IB           (MT_LEN - MT_IA)
+#define UPPER_MASK      0x80000000
+#define LOWER_MASK      0x7FFFFFFF
+#define MATRIX_A        0x9908B0DF
+#define TWIST(b,i,j)    ((b)[i] & UPPER_MASK) | ((b)[j] & LOWER_MASK)
+#define MAGIC(s)        (((s)&1)*MATRIX_A)
+
+MTRand::MTRand(){
+    this->rseed(time(0) ^ (clock() + uniq++));
+}
+
+MTRand::MTRand(uint64_t seed){
+    this->rseed(seed);
+}
+
+MTRand::~MTRand() {
+    //do nothing
+}
+
+uint32_t MTRand::rand32() {
+    uint32_t *b = mt_buffer;
+    int idx = mt_index;
+    uint32_t s;
+    int i;
+
+    if (idx == MT_LEN*sizeof(uint32_t)) {
+        idx = 0;
+        i = 0;
+        for (; i < MT_IB; i++) {
+            s = TWIST(b, i, i+1);
+            b[i] = b[i + MT_IA] ^ (s >> 1) ^ MAGIC(s);
+        }
+        for (; i < MT_LEN-1; i++) {
+            s = TWIST(b, i, i+1);
+            b[i] = b[i - MT_IB] ^ (s >> 1) ^ MAGIC(s);
+        }
+
+        s = TWIST(b, MT_LEN-1, 0);
+        b[MT_LEN-1] = b[MT_IA-1] ^ (s >> 1) ^ MAGIC(s);
+    }
+    mt_index = idx + sizeof(uint32_t);
+    return *(uint32_t*)((unsigned char*)b + idx);
+}
+
+void MTRand::rseed(uint64_t seed){
+    LCRand seeder(seed);
+    for (int i = 0; i < MT_LEN; i++){
+        mt_buffer[i] = seeder.rand32();
+    }
+    mt_index = 0;
+    _bitsleft = 0; // discard bits of the previous stream
+}
diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index db5eb68..49b4d21 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -1,302 +1,302 @@
-/*
- * Random.cpp
- *
- *  Created on: Feb 22, 2009
- *      Author: Tim Babb
- */
-
-#include <assert.h>
-#include <climits>
-#include <algorithm>
-#include <limits>
-
-#include <geomc/random/Random.h>
-
-using namespace std;
-using namespace geom;
-
-typedef union fpbox {
-    uint32_t i;
-    float f;
-    uint64_t l;
-    double d;
-} FPBox;
-
-/**********************************
- * Structors                      *
- **********************************/
-
-Random::Random():_bitpool(0),
-                 _bitsleft(0) {}
-
-Random::~Random() {}
-
-/**********************************
- * Elementary Specializations     *
- **********************************/
-
-namespace geom {
-
-    
-template <> bool Random::rand<bool>() {
-    if (_bitsleft == 0) {
-        _bitpool = this->rand32();
-        _bitsleft = 32;
-    }
-    int bit = _bitpool & 1;
-    _bitpool = _bitpool >> 1;
-    _bitsleft--;
-    return bit;
-}
-
-
-template <> unsigned int Random::rand<unsigned int>() {
-    unsigned int bits = 0;
-    const int chunks = (std::numeric_limits<unsigned int>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
-#if UINT_MAX > (1LL << 32) - 1
-    for (int i = 0; i < chunks; i++) {
-        bits = (bits << 32) | rand32();
-    }
-#else
-    bits =(unsigned int)rand32();
-#endif
-    return bits;
-}
-
-
-template <> int Random::rand<int>() {
-    return rand<unsigned int>(); //MSB is now a sign bit; covers the entire range of <int> type. might we want to change this? 
-}
-
-
-template <> unsigned long Random::rand<unsigned long>() {
-    unsigned long bits = 0;
-    const int chunks = (std::numeric_limits<unsigned long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
-#if ULONG_MAX > (1LL << 32) - 1
-    for (int i = 0; i < chunks; i++) {
-        bits = (bits << 32) | rand32();
-    }
-#else
-    bits = (unsigned long)rand32();
-#endif
-    return bits;
-}
-
-
-template <> long Random::rand<long>() {
-    return rand<unsigned long>();
-}
-
-
-template <> unsigned long long Random::rand<unsigned long long>() {
-    unsigned long long bits = 0;
-    const int chunks = (std::numeric_limits<unsigned long long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
-    for (int i = 0; i < chunks; i++) {
-        bits = (bits << 32) | rand32();
-    }
-    return bits;
-}
-
-
-template <> long long Random::rand<long long>() {
-    return rand<unsigned long long>();
-}
-
-/* From the unpublished paper by Allen B. Downey.
- * https://allendowney.com/research/rand/downey07randfloat.pdf
- *
- * The conventional method of dividing a random number
- * by a constant excludes about 93% of the representable
- * floating point values between 0.0 and 1.0. Instead
- * we pick the bits of our number explicitly, but must
- * be careful to do so such that the distribution is
- * uniform. This method is fast, and makes efficient
- * use of our pseudorandom bits.
- *
- * The gist: Pick the mantissa, then pick the exponent
- * by iterative coin-flipping.
- */
-
-//TODO: use numeric_limits instead of hard-coded masks
-//see: boost::integer's int_t<bits>
-
-template <> float Random::rand<float>() {
-    // without IEEE754, our bit twiddling will not work.
-    // generally this will only fail for "exotic" systems:
-    static_assert(std::numeric_limits<float>::is_iec559, "floating point must be ieee754");
-    
-    uint32_t mant;
-    int exp, hi_exp, lo_exp;
-    FPBox lo, hi, ans;
-
-    lo.f = 0.0;
-    hi.f = 1.0;
-
-    lo_exp = (lo.i >> 23) & 0xFF;
-    hi_exp = (hi.i >> 23) & 0xFF;
-
-    //not >= because exp is decremented at the end of the last loop
-    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
-        if (rand<bool>()) break;
-    }
-
-    mant = (rand32() & 0xFFFFFE00) >> 9; //use the high quality bits
-
-    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
-
-    ans.i = (((uint32_t)exp) << 23) | mant; //combine exp and mantissa
-    return ans.f;
-}
-
-
-template <> double Random::rand<double>() {
-    // without IEEE754, our bit twiddling will not work.
-    // generally this will only fail for "exotic" systems:
-    static_assert(std::numeric_limits<double>::is_iec559, "floating point must be ieee754");
-    
-    int exp, hi_exp, lo_exp;
-    uint64_t mant;
-    FPBox lo, hi, ans;
-
-    lo.d = 0.0;
-    hi.d = 1.0;
-
-    lo_exp = (lo.l >> 52) & 0x7FF;
-    hi_exp = (hi.l >> 52) & 0x7FF;
-
-    //not >= because exp is decremented at the end of the last loop
-    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
-        if (rand<bool>()) break;
-    }
-    
-    mant = ((uint64_t)rand32() << 32) | rand32();
-    mant = (mant & 0xFFFFFFFFFFFFF000LL) >> 12; //use the high quality bits
-
-    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
-
-    ans.l = (((uint64_t)exp) << 52) | mant; //combine exp and mantissa
-    return ans.d;
-}
-
-/**********************************
- * Positive Range Specializations *
- **********************************/
-
-
-template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
-    unsigned int bits, val, lo;
-    
-    if (hi == 0) return 0;
-
-    do {
-        bits = rand<unsigned int>();
-        val = bits % hi;
-        lo = bits - val;
-        //while this chunk wraps around to zero:
-    } while ( lo + (hi - 1) < lo );
-    return val;
-}
-
-
-template <> int Random::rand<int>(int hi) {
-    if (hi < 0) {
-        return -(int) rand<unsigned int>(-(unsigned int) hi);
-    } else {
-        return rand<unsigned int>(hi);
-    }
-}
-
-
-template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
-    unsigned long bits, val, lo;
-    
-    if (hi == 0) return 0;
-
-    do {
-        bits = rand<unsigned long>();
-        val = bits % hi;
-        lo = bits - val;
-        //while this chunk wraps around to zero:
-    } while ( lo + (hi - 1) < lo );
-    return val;
-}
-
-
-template <> long Random::rand<long>(long hi) {
-    if (hi < 0) {
-        return -(long) rand<unsigned long>(-(unsigned long) hi);
-    } else {
-        return rand<unsigned long>(hi);
-    }
-}
-
-
-template <> unsigned long long Random::rand<unsigned long long>(unsigned long long hi) {
-    unsigned long long bits, val, lo;
-    
-    if (hi == 0) return 0;
-
-    do {
-        bits = rand<unsigned long long>();
-        val = bits % hi;
-        lo = bits - val;
-        //while this chunk wraps around to zero:
-    } while ( lo + (hi - 1) < lo );
-    return val;
-}
-
-
-template <> long long Random::rand<long long>(long long hi) {
-    if (hi < 0) {
-        return -(long long) rand<unsigned long long>(-(unsigned long long) hi);
-    } else {
-        return rand<unsigned long long>(hi);
-    }
-}
-
-
-template <> float Random::rand<float>(float hi) {
-    return hi * rand<float>();
-}
-
-
-template <> double Random::rand<double>(double hi) {
-    return hi * rand<double>();
-}
-
-/**********************************
- * Full Range Specializations     *
- **********************************/
-
-template <> int Random::rand<int>(int lo, int hi) {
-    int lo1 = min(hi,lo);
-    // the size of the range may exceed the largest `int`
-    unsigned int range = (unsigned int) max(hi,lo) - (unsigned int) lo1;
-    return (int) (rand<unsigned int>(range) + (unsigned int) lo1);
-}
-
-
-template <> long long Random::rand<long long>(long long lo, long long hi) {
-    long long lo1 = min(hi,lo);
-    // the size of the range may exceed the largest `long long`
-    unsigned long long range = (unsigned long long) max(hi,lo) - (unsigned long long) lo1;
-    return (long long) (rand<unsigned long long>(range) + (unsigned long long) lo1);
-}
-
-
-template <> float Random::rand<float>(float lo, float hi) {
-    float x = (hi-lo)*rand<float>() + lo;
-    // roundoff may carry the result past the ends of the range
-    return min(max(x, min(lo,hi)), max(lo,hi));
-}
-
-
-template <> double Random::rand<double>(double lo, double hi) {
-    double x = (hi-lo)*rand<double>() + lo;
-    // roundoff may carry the result past the ends of the range
-    return min(max(x, min(lo,hi)), max(lo,hi));
-}
-
-/// @} //ingroup random
-
-} //end namespace geom
+/*
+ * Random.cpp
+ *
+ *  Created on: Feb 22, 2009
+ *      Author: Tim Babb
+ */
+
+#include <assert.h>
+#include <climits>
+#include <algorithm>
+#include <limits>
+
+#include <geomc/random/Random.h>
+
+using namespace std;
+using namespace geom;
+
+typedef union fpbox {
+    uint32_t i;
+    float f;
+    uint64_t l;
+    double d;
+} FPBox;
+
+/**********************************
+ * Structors                      *
+ **********************************/
+
+Random::Random():_bitpool(0),
+                 _bitsleft(0) {}
+
+Random::~Random() {}
+
+/**********************************
+ * Elementary Specializations     *
+ **********************************/
+
+namespace geom {
+
+    
+template <> bool Random::rand<bool>() {
+    if (_bitsleft == 0) {
+        _bitpool = this->rand32();
+        _bitsleft = 32;
+    }
+    int bit = _bitpool & 1;
+    _bitpool = _bitpool >> 1;
+    _bitsleft--;
+    return bit;
+}
+
+
+template <> unsigned int Random::rand<unsigned int>() {
+    unsigned int bits = 0;
+    const int chunks = (std::numeric_limits<unsigned int>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
+#if UINT_MAX > (1LL << 32) - 1
+    for (int i = 0; i < chunks; i++) {
+        bits = (bits << 32) | rand32();
+    }
+#else
+    bits =(unsigned int)rand32();
+#endif
+    return bits;
+}
+
+
+template <> int Random::rand<int>() {
+    return rand<unsigned int>(); //MSB is now a sign bit; covers the entire range of <int> type. might we want to change this? 
+}
+
+
+template <> unsigned long Random::rand<unsigned long>() {
+    unsigned long bits = 0;
+    const int chunks = (std::numeric_limits<unsigned long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
+#if ULONG_MAX > (1LL << 32) - 1
+    for (int i = 0; i < chunks; i++) {
+        bits = (bits << 32) | rand32();
+    }
+#else
+    bits = (unsigned long)rand32();
+#endif
+    return bits;
+}
+
+
+template <> long Random::rand<long>() {
+    return rand<unsigned long>();
+}
+
+
+template <> unsigned long long Random::rand<unsigned long long>() {
+    unsigned long long bits = 0;
+    const int chunks = (std::numeric_limits<unsigned long long>::digits + 32 - 1) / 32; //ceiling(x/y) = (x + y - 1) / y
+    for (int i = 0; i < chunks; i++) {
+        bits = (bits << 32) | rand32();
+    }
+    return bits;
+}
+
+
+template <> long long Random::rand<long long>() {
+    return rand<unsigned long long>();
+}
+
+/* From the unpublished paper by Allen B. Downey.
+ * https://allendowney.com/research/rand/downey07randfloat.pdf
+ *
+ * The conventional method of dividing a random number
+ * by a constant excludes about 93% of the representable
+ * floating point values between 0.0 and 1.0. Instead
+ * we pick the bits of our number explicitly, but must
+ * be careful to do so such that the distribution is
+ * uniform. This method is fast, and makes efficient
+ * use of our pseudorandom bits.
+ *
+ * The gist: Pick the mantissa, then pick the exponent
+ * by iterative coin-flipping.
+ */
+
+//TODO: use numeric_limits instead of hard-coded masks
+//see: boost::integer's int_t<bits>
+
+template <> float Random::rand<float>() {
+    // without IEEE754, our bit twiddling will not work.
+    // generally this will only fail for "exotic" systems:
+    static_assert(std::numeric_limits<float>::is_iec559, "floating point must be ieee754");
+    
+    uint32_t mant;
+    int exp, hi_exp, lo_exp;
+    FPBox lo, hi, ans;
+
+    lo.f = 0.0;
+    hi.f = 1.0;
+
+    lo_exp = (lo.i >> 23) & 0xFF;
+    hi_exp = (hi.i >> 23) & 0xFF;
+
+    //not >= because exp is decremented at the end of the last loop
+    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
+        if (rand<bool>()) break;
+    }
+
+    mant = (rand32() & 0xFFFFFE00) >> 9; //use the high quality bits
+
+    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
+
+    ans.i = (((uint32_t)exp) << 23) | mant; //combine exp and mantissa
+    return ans.f;
+}
+
+
+template <> double Random::rand<double>() {
+    // without IEEE754, our bit twiddling will not work.
+    // generally this will only fail for "exotic" systems:
+    static_assert(std::numeric_limits<double>::is_iec559, "floating point must be ieee754");
+    
+    int exp, hi_exp, lo_exp;
+    uint64_t mant;
+    FPBox lo, hi, ans;
+
+    lo.d = 0.0;
+    hi.d = 1.0;
+
+    lo_exp = (lo.l >> 52) & 0x7FF;
+    hi_exp = (hi.l >> 52) & 0x7FF;
+
+    //not >= because exp is decremented at the end of the last loop
+    for (exp = hi_exp - 1; exp > lo_exp; exp--) {
+        if (rand<bool>()) break;
+    }
+    
+    mant = ((uint64_t)rand32() << 32) | rand32();
+    mant = (mant & 0xFFFFFFFFFFFFF000LL) >> 12; //use the high quality bits
+
+    if (mant == 0 && rand<bool>()) exp++; //border values must not be skewed towards 1
+
+    ans.l = (((uint64_t)exp) << 52) | mant; //combine exp and mantissa
+    return ans.d;
+}
+
+/**********************************
+ * Positive Range Specializations *
+ **********************************/
+
+
+template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
+    unsigned int bits, val, lo;
+    
+    if (hi == 0) return 0;
+
+    do {
+        bits = rand<unsigned int>();
+        val = bits % hi;
+        lo = bits - val;
+        //while this chunk wraps around to zero:
+    } while ( lo + (hi - 1) < lo );
+    return val;
+}
+
+
+template <> int Random::rand<int>(int hi) {
+    if (hi < 0) {
+        return -(int) rand<unsigned int>(-(unsigned int) hi);
+    } else {
+        return rand<unsigned int>(hi);
+    }
+}
+
+
+template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
+    unsigned long bits, val, lo;
+    
+    if (hi == 0) return 0;
+
+    do {
+        bits = rand<unsigned long>();
+        val = bits % hi;
+        lo = bits - val;
+        //while this chunk wraps around to zero:
+    } while ( lo + (hi - 1) < lo );
+    return val;
+}
+
+
+template <> long Random::rand<long>(long hi) {
+    if (hi < 0) {
+        return -(long) rand<unsigned long>(-(unsigned long) hi);
+    } else {
+        return rand<unsigned long>(hi);
+    }
+}
+
+
+template <> unsigned long long Random::rand<unsigned long long>(unsigned long long hi) {
+    unsigned long long bits, val, lo;
+    
+    if (hi == 0) return 0;
+
+    do {
+        bits = rand<unsigned long long>();
+        val = bits % hi;
+        lo = bits - val;
+        //while this chunk wraps around to zero:
+    } while ( lo + (hi - 1) < lo );
+    return val;
+}
+
+
+template <> long long Random::rand<long long>(long long hi) {
+    if (hi < 0) {
+        return -(long long) rand<unsigned long long>(-(unsigned long long) hi);
+    } else {
+        return rand<unsigned long long>(hi);
+    }
+}
+
+
+template <> float Random::rand<float>(float hi) {
+    return hi * rand<float>();
+}
+
+
+template <> double Random::rand<double>(double hi) {
+    return hi * rand<double>();
+}
+
+/**********************************
+ * Full Range Specializations     *
+ **********************************/
+
+template <> int Random::rand<int>(int lo, int hi) {
+    int lo1 = min(hi,lo);
+    // the size of the range may exceed the largest `int`
+    unsigned int range = (unsigned int) max(hi,lo) - (unsigned int) lo1;
+    return (int) (rand<unsigned int>(range) + (unsigned int) lo1);
+}
+
+
+template <> long long Random::rand<long long>(long long lo, long long hi) {
+    long long lo1 = min(hi,lo);
+    // the size of the range may exceed the largest `long long`
+    unsigned long long range = (unsigned long long) max(hi,lo) - (unsigned long long) lo1;
+    return (long long) (rand<unsigned long long>(range) + (unsigned long long) lo1);
+}
+
+
+template <> float Random::rand<float>(float lo, float hi) {
+    float x = (hi-lo)*rand<float>() + lo;
+    // roundoff may carry the result past the ends of the range
+    return min(max(x, min(lo,hi)), max(lo,hi));
+}
+
+
+template <> double Random::rand<double>(double lo, double hi) {
+    double x = (hi-lo)*rand<double>() + lo;
+    // roundoff may carry the result past the ends of the range
+    return min(max(x, min(lo,hi)), max(lo,hi));
+}
+
+/// @} //ingroup random
+
+} //end namespace geom
-- 
2.43.0


From 3199e36a4fa6da613fc428bf0dc511a43e41e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:16 +0000
Subject: [PATCH 204/212] fix: the derivative of an unsigned scalar divided by
 a Dual was wrong

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index c092fda..1870f26 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -100,7 +100,7 @@ requires requires (T t, U u) {
 constexpr Dual<T,Dp> operator/(U s, const Dual<T,Dp>& d) {
     return Dual<T,Dp>{
         s / d.x,
-        -s * d.dx / (d.x * d.x)
+        -(s * d.dx) / (d.x * d.x)
     };
 }
 
-- 
2.43.0


From 3543909407dfaf3bae269ae59ec6cee7b9933ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 205/212] fix: sums, differences and quotients of a Dual and a
 wider scalar type did not compile

---
 geomc/function/functiondetail/DualFunctions.h | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 1870f26..29a4ffe 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -86,10 +86,10 @@ requires requires (T t, U u) {
     {t / u} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp> operator/(const Dual<T,Dp>& d, U s) {
-    return Dual<T,Dp>{
+    return Dual<T,Dp>(
         d.x  / s,
         d.dx / s
-    };
+    );
 }
 
 /// Scalar / dual division.
@@ -98,10 +98,10 @@ requires requires (T t, U u) {
     {u / t} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp> operator/(U s, const Dual<T,Dp>& d) {
-    return Dual<T,Dp>{
+    return Dual<T,Dp>(
         s / d.x,
         -(s * d.dx) / (d.x * d.x)
-    };
+    );
 }
 
 /// Divide and assign to dual.
@@ -150,10 +150,10 @@ requires requires(T t, U u) {
   {t + u} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp> operator+(const Dual<T,Dp>& d, U s) { 
-    return Dual<T,Dp>{
+    return Dual<T,Dp>(
         d.x + s,
         d.dx
-    };
+    );
 }
 
 /// Scalar + dual
@@ -162,10 +162,10 @@ requires requires(T t, U u) {
   {u + t} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp> operator+(U s, const Dual<T,Dp>& d) { 
-    return Dual<T,Dp>{
+    return Dual<T,Dp>(
         s + d.x,
         d.dx
-    };
+    );
 }
 
 /// Subtraction.
@@ -183,10 +183,10 @@ requires requires(T t, U u) {
   {t - u} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp> operator-(const Dual<T,Dp>& d, U s) { 
-    return Dual<T,Dp>{
+    return Dual<T,Dp>(
         d.x - s,
         d.dx
-    };
+    );
 }
 
 /// Scalar - dual
@@ -195,10 +195,10 @@ requires requires(T t, U u) {
   {u - t} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp> operator-(U s, const Dual<T,Dp>& d) { 
-    return Dual<T,Dp>{
+    return Dual<T,Dp>(
         s - d.x,
         -d.dx
-    };
+    );
 }
 
 /// Add and assign.
-- 
2.43.0


From c4fcd13c72cbb4008345a2d20c3f262fbb73371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:31 +0000
Subject: [PATCH 206/212] fix: tuples with repeated element types could not be
 hashed

---
 geomc/Hash.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/geomc/Hash.h b/geomc/Hash.h
index c124a72..1188ca0 100644
--- a/geomc/Hash.h
+++ b/geomc/Hash.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <string_view>
+#include <tuple>
 #include <functional>
 #include <typeindex>
 
@@ -11,6 +12,9 @@ namespace geom {
 template <typename T, typename H>
 H hash(const T& obj);
 
+template <typename H>
+inline constexpr H hash_combine_many(H h);
+
 template <typename H, typename... Hs>
 inline constexpr H hash_combine_many(H h, Hs... hashes);
 
@@ -195,10 +199,11 @@ template <typename... Ts, typename H>
 struct Digest<std::tuple<Ts...>, H> {
     H operator()(const std::tuple<Ts...>& t) const {
         H nonce = truncated_constant<H>(0xf804bbd33c7e7769, 0x439588acee006cd0);
-        // xxx: todo: use index_sequence_for<Ts...>() to avoid ambiguity
-        return hash_combine_many(
-            nonce,
-            geom::hash<Ts,H>(std::get<Ts>(t))...
+        return std::apply(
+            [&](const Ts&... elems) {
+                return hash_combine_many(nonce, geom::hash<Ts,H>(elems)...);
+            },
+            t
         );
     }
 };
-- 
2.43.0


From f89fcb3aedcff1f0f9dbe33e0112cf6060b5c08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 207/212] fix: zonal convolution with a kernel of fewer bands
 read past the end of the kernel

---
 geomc/function/SphericalHarmonics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index bfe5115..c68f8ff 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -779,7 +779,8 @@ class ZonalHarmonics {
     void convolve(const ZonalHarmonics<T,Bands> &kernel) {
         for (index_t l = 0; l < bands(); l++) {
             T k = (boost::math::constants::pi<T>() * 4) / (2 * l + 1);
-            coeffs[l] *= k * kernel.coeffs[l];
+            // the kernel is zero beyond its last band
+            coeffs[l] *= l < kernel.bands() ? k * kernel.coeffs[l] : 0;
         }
     }
     
-- 
2.43.0


From 6e0788c2eb2b0b5b95fe19513fea1e39940aedc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 208/212] fix: inserting an object above empty KDTree nodes
 followed an uninitialised iterator

---
 geomc/shape/KDTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/KDTree.h b/geomc/shape/KDTree.h
index 3a958b2..56c4137 100644
--- a/geomc/shape/KDTree.h
+++ b/geomc/shape/KDTree.h
@@ -875,7 +875,7 @@ private:
         node->nobjs++;
         
         if (node->child_begin != node->child_end) {
-            KDNodeRef best;
+            KDNodeRef best = node->child_begin; // (if all children are empty, no metric is finite)
             T best_metric = std::numeric_limits<T>::max();
             for (KDNodeRef i = node->child_begin; i != node->child_end; ++i) {
                 T metric;
-- 
2.43.0


From 6a0eb1c92882e89d7eb5a61bb42990754a8cae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:53 +0000
Subject: [PATCH 209/212] fix: an object inserted into an empty KDTree node was
 also listed by its preceding siblings

---
 geomc/shape/KDTree.h | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/geomc/shape/KDTree.h b/geomc/shape/KDTree.h
index 56c4137..ea158aa 100644
--- a/geomc/shape/KDTree.h
+++ b/geomc/shape/KDTree.h
@@ -861,6 +861,33 @@ private:
     }
     
     
+    /**
+     * An object was inserted before `tail` into `node`, which was empty. Any siblings
+     * whose objects precede it (and so ended at `tail`) now end at `inserted`.
+     */
+    void endObjectsBefore(KDDataRef inserted, KDDataRef tail, KDNodeRef node) {
+        if (node->parent == nodes.end()) return;
+        for (KDNodeRef i = node->parent->child_begin; i != node->parent->child_end; ++i) {
+            if (i != node and i->objects_begin != i->objects_end) {
+                endObjectsAt(i, inserted, tail);
+            }
+        }
+    }
+    
+    
+    /**
+     * Replace the end-of-objects `tail` with `inserted` in `node` and all its descendants.
+     */
+    void endObjectsAt(KDNodeRef node, KDDataRef inserted, KDDataRef tail) {
+        if (node->objects_end != tail) return;
+        if (node->objects_begin == tail) node->objects_begin = inserted;
+        node->objects_end = inserted;
+        for (KDNodeRef i = node->child_begin; i != node->child_end; ++i) {
+            endObjectsAt(i, inserted, tail);
+        }
+    }
+    
+    
     /**
      * Insert the given object into `node`, descending recursively until a leaf is found.
      */
@@ -902,11 +929,14 @@ private:
             KDDataRef inserted = objects.insert(node->objects_end, obj);
             
             if (node->objects_begin == node->objects_end) {
+                KDDataRef tail = node->objects_end;
                 // "separate" begin and end ptrs
                 node->objects_begin = inserted;
+                endObjectsBefore(inserted, tail, node);
                 // uncommon/degenerate case: multiple layers of empty nodes:
                 for (KDNodeRef p = node->parent; p != nodes.end() and p->objects_begin == p->objects_end; p = p->parent) {
                     p->objects_begin = inserted;
+                    endObjectsBefore(inserted, tail, p);
                 }
             }
             
-- 
2.43.0


From 2bf3ebf6c000cf3dce42e33f6891a6cf3acc13b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:53 +0000
Subject: [PATCH 210/212] fix: KDTree::insert returned an iterator to another
 object when the insertion split a node

---
 geomc/shape/KDTree.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/geomc/shape/KDTree.h b/geomc/shape/KDTree.h
index ea158aa..bd38b95 100644
--- a/geomc/shape/KDTree.h
+++ b/geomc/shape/KDTree.h
@@ -719,9 +719,9 @@ private:
     /**
      * Make a new sibling of `split_child` (assumed a leaf) and divide its objects between them
      * according to the current balance parameters. Do not check if the node needs to be split,
-     * or if splitting will exceed the desired node arity.
+     * or if splitting will exceed the desired node arity. If `tracked` is given, it follows its object.
      */
-    void splitNode(KDNodeRef split_child, index_t depth) {
+    void splitNode(KDNodeRef split_child, index_t depth, KDDataRef* tracked=nullptr) {
         Vec<T,N> mean;
         Vec<T,N> dim;
         Vec<T,N> var;
@@ -801,6 +801,10 @@ private:
             if (v[split_axis] > pivot) {
                 // move this object to the new (upper) sibling
                 std::swap(*i, *--middle);
+                if (tracked) {
+                    if      (*tracked == i)      *tracked = middle;
+                    else if (*tracked == middle) *tracked = i;
+                }
                 split_child->nobjs--;
                 new_sibling->bounds |= helper_t::bounds(*middle);
                 // `i` now contains an unchecked object; don't increment.
@@ -831,7 +835,7 @@ private:
      * Recursively sort the objects in `node` into subtrees according to the
      * current balancing parameters in `O(n log(n))` time.
      */
-    void buildTree(KDNodeRef node, index_t depth) {
+    void buildTree(KDNodeRef node, index_t depth, KDDataRef* tracked=nullptr) {
         // root node needs to calc its box
         if (depth == 0) {
             recalculateBounds(node);
@@ -846,7 +850,7 @@ private:
                 // continue splitting the oldest node 
                 // until we've either reached node arity or run out of splittable nodes
                 if (split_child->nobjs > params.leaf_arity) {
-                    splitNode(split_child, depth);
+                    splitNode(split_child, depth, tracked);
                     ++n_added;
                 }
                 ++split_child;
@@ -854,7 +858,7 @@ private:
             
             // recurse
             for (KDNodeRef i = node->child_begin; i != node->child_end; ++i) {
-                buildTree(i, depth + 1);
+                buildTree(i, depth + 1, tracked);
             }
             
         }
@@ -951,13 +955,13 @@ private:
                     }
                     // new sibling, or new subtree?
                     if (parent_arity >= params.node_arity) {
-                        buildTree(node, depth);
+                        buildTree(node, depth, &inserted);
                     } else {
-                        splitNode(node, depth);
+                        splitNode(node, depth, &inserted);
                     }
                 } else {
                     // root node cannot have new silbings
-                    buildTree(node, depth);
+                    buildTree(node, depth, &inserted);
                 }
             }
             return inserted;
-- 
2.43.0


From d235c4d15f9a5a38c68f240e7bb6763dd0a0b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:32 +0000
Subject: [PATCH 211/212] fix: SmallStorage emplace_back and resize from one of
 its own elements must survive reallocation

---
 geomc/SmallStorage.h | 45 ++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index dae85a0..0a72fb9 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -46,18 +46,22 @@ private:
         }
     }
     
+    // move all the live items to the given storage
+    void _relocate(storage_t* new_data, size_t new_capacity) {
+        T* src = begin();
+        for (size_t i = 0; i < _size; ++i) {
+            new (new_data + i) T{std::move(src[i])};
+            src[i].~T(); // destroy the source
+        }
+        if (_capacity > N) delete [] _data;
+        _data     = new_data;
+        _capacity = new_capacity;
+    }
+    
     void _ensure_capacity(size_t n) {
         if (n > _capacity) {
             size_t new_capacity = std::max(n, _capacity * 2);
-            storage_t* new_data = new storage_t[new_capacity];
-            T* src = begin();
-            for (size_t i = 0; i < _size; ++i) {
-                new (new_data + i) T{std::move(src[i])};
-                src[i].~T(); // destroy the source
-            }
-            if (_capacity > N) delete [] _data;
-            _data     = new_data;
-            _capacity = new_capacity;
+            _relocate(new storage_t[new_capacity], new_capacity);
         }
     }
     
@@ -254,7 +258,16 @@ public:
     /// Construct a new item at the end of the array from the given constructor arguments.
     template <typename... Args>
     T& emplace_back(Args&&... args) {
-        _ensure_capacity(_size + 1);
+        if (_size == _capacity) {
+            // the arguments might refer to one of our own elements;
+            // secure the new item before reallocating
+            T tmp {std::forward<Args>(args)...};
+            _ensure_capacity(_size + 1);
+            T* dst = reinterpret_cast<T*>(_data + _size);
+            new (dst) T {std::move(tmp)};
+            _size += 1;
+            return *dst;
+        }
         T* place = reinterpret_cast<T*>(_data + _size);
         new (place) T {std::forward<Args>(args)...};
         _size += 1;
@@ -308,9 +321,17 @@ public:
     /// if any are provided, and destroying any excess items.
     template <typename... Args>
     void resize(size_t count, const Args&... args) {
-        if (count > _size) {
+        if (count > _capacity) {
+            // the arguments might refer to one of our own elements;
+            // construct the missing items before relocating the others
+            size_t new_capacity = std::max(count, _capacity * 2);
+            storage_t* new_data = new storage_t[new_capacity];
+            for (size_t i = _size; i < count; ++i) {
+                new (new_data + i) T {args...};
+            }
+            _relocate(new_data, new_capacity);
+        } else if (count > _size) {
             // construct the missing items
-            _ensure_capacity(count);
             for (size_t i = _size; i < count; ++i) {
                 new (_data + i) T {args...};
             }
-- 
2.43.0


From f9d63986441563e3e236dfab98133278fe7910ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:45 +0000
Subject: [PATCH 212/212] fix: trace_simplex() must solve for the surface
 coordinates even if the caller does not ask for them

---
 geomc/shape/Simplex.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 19a0e0f..a4206f9 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -572,8 +572,7 @@ inline bool trace_simplex(const Vec<T,N> verts[N], const Ray<T,N>& ray, Vec<T,N-
     
     // linear solve
     Vec<T,N> x = ray.origin - verts[0];
-    index_t skip = uv ? 0 : N - 1;
-    if (not linear_solve(bases, 1, &x, skip)) return false;
+    if (not linear_solve(bases, 1, &x)) return false;
     
     // inside simplex?
     T sum = 0;
-- 
2.43.0

