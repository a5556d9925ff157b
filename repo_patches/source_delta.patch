From 6f27a880b72e97dc3b179bd1167b34de2ed2d304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 01/67] fix: vector::reserve must not reallocate (or form a
 pointer past the storage) when n fits the capacity

---
 ttl/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index fc42799..ab990c0 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -234,7 +234,7 @@ namespace ttl
    template<typename T>
    void vector<T>::reserve(size_type n)
    {
-      if (elements_ + n < end_of_elements_)
+      if (n <= capacity())
          return;
       T *newelements = static_cast<T *>(::operator new(n * sizeof(T)));
       T *o = newelements, *i = elements_;
-- 
2.43.0


From 7840999d11265fbac758e06c83dc8805a237ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 02/67] fix: vector::erase of an empty range must not touch the
 elements behind it

---
 ttl/vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index ab990c0..e8b5895 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -305,6 +305,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (off == lastoff)
+         return begin() + off;
       for (T *f = elements_ + off, *l = elements_ + lastoff; f != l;)
          (--l)->~T();
       T *o = elements_ + off;
-- 
2.43.0


From 6065d467e1575ef42b220c074edc64ec52fbf0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 03/67] fix: vector self-assignment must keep the contents

---
 ttl/vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index e8b5895..e182486 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -208,6 +208,8 @@ namespace ttl
    template<typename T>
    vector<T> &vector<T>::operator=(const vector &other)
    {
+      if (this == &other)
+         return *this;
       clear();
       reserve(other.capacity());
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
-- 
2.43.0


From 637e77768d9d8d0df68036b21d3695aa0b5a0350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 04/67] fix: vector::insert of a vector's own element must
 insert its value, not what has been moved over it

---
 ttl/vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index e182486..bcce529 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -121,13 +121,15 @@ namespace ttl
 
       iterator insert(const_iterator pos, size_type n, const value_type &x)
       {
-         vc_counter_args args(x);
+         const value_type copy(x); // x may be an element being moved
+         vc_counter_args args(copy);
          return insert_values(pos, n, &ttl::vector<T>::vc_counter, args);
       }
 
       iterator insert(const_iterator pos, const value_type &x)
       {
-         vc_counter_args args(x);
+         const value_type copy(x); // x may be an element being moved
+         vc_counter_args args(copy);
          return insert_values(pos, 1, &ttl::vector<T>::vc_counter, args);
       }
 
-- 
2.43.0


From 905bf2e07f8191e5584649e5e7827edaba711365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 05/67] fix: fixed_vector::swap must exchange the contents when
 the left side is the larger one

---
 ttl/fixed_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 61099fe..86a82dc 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -282,7 +282,7 @@ namespace ttl
       const bool this_a = this->size() < x.size();
       fixed_vector &a = this_a ? *this: x;
       fixed_vector &b = this_a ? x: *this;
-      size_type minsiz = this_a ? a.size(): b.size();
+      size_type minsiz = a.size();
       ttl::swap_ranges(a.elements(), a.elements() + minsiz, b.elements());
       T *e = b.elements() + minsiz;
       while (e < b.last_)
-- 
2.43.0


From c19fcdd11a85d6fa286061831d8d2b8ad0f6174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 06/67] fix: fixed_vector::erase of an empty range must not
 touch the elements behind it

---
 ttl/fixed_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 86a82dc..7396cb8 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -264,6 +264,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (first == last)
+         return begin() + off;
       for (T *f = elements() + off, *l = elements() + lastoff; f != l;)
          (--l)->~T();
       T *o = elements() + off;
-- 
2.43.0


From 467f1d5811455aeddb87b3ada039ebcf1211b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 07/67] fix: fixed_vector self-assignment must keep the
 contents

---
 ttl/fixed_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 7396cb8..81844d8 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -167,6 +167,8 @@ namespace ttl
    template<typename T, const unsigned int N>
    fixed_vector<T,N> &fixed_vector<T,N>::operator=(const fixed_vector &other)
    {
+      if (&other == this)
+         return *this;
       clear();
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
          ::new(last_++) T(*i);
-- 
2.43.0


From 4063dde9d1b5ce358b13690c26fb973009065826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 08/67] fix: fixed_vector::insert of the vector's own element
 must insert its value

---
 ttl/fixed_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 81844d8..18b9b5c 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -206,6 +206,7 @@ namespace ttl
          T *o;
          if (pos < end())
          {
+            const T copy(x); // x may be an element of this vector
             T *p = elements() + dist, *i = last_;
             for (o = last_ + n; end_of_elements() < o && i != p; --o)
                (--i)->~T();
@@ -218,7 +219,7 @@ namespace ttl
                i->~T();
             }
             for (o = p; n-- && o < end_of_elements();)
-               ::new(o++) T(x);
+               ::new(o++) T(copy);
          }
          else
          {
-- 
2.43.0


From 1593160bb1b0dbac503474b125635234dd85aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 09/67] fix: fixed_vector::insert of more elements than fit
 must not compute pointers outside of the storage

---
 ttl/fixed_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 18b9b5c..51867f1 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -208,6 +208,8 @@ namespace ttl
          {
             const T copy(x); // x may be an element of this vector
             T *p = elements() + dist, *i = last_;
+            if (n > (size_type)(end_of_elements() - p))
+               n = end_of_elements() - p;
             for (o = last_ + n; end_of_elements() < o && i != p; --o)
                (--i)->~T();
             if (end_of_elements() < o)
@@ -240,6 +242,8 @@ namespace ttl
          if (pos < end())
          {
             T *p = elements() + dist, *i = last_, *o;
+            if (n > end_of_elements() - p)
+               n = end_of_elements() - p;
             for (o = last_ + n; end_of_elements() < o && i != p; --o)
                (--i)->~T();
             if (end_of_elements() < o)
-- 
2.43.0


From 8763209a02179e3f4ae3e7b9a4265e9626b4b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 10/67] fix: fixed_vector must align its storage for the
 elements

---
 ttl/fixed_vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 51867f1..c17c001 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -34,6 +34,11 @@ namespace ttl
       typedef ttl::ptrdiff_t difference_type;
 
    private:
+#if __cplusplus >= 201103L // C++11
+      alignas(T)
+#elif defined(__GNUC__)
+      __attribute__((aligned(__alignof__(T))))
+#endif
       union { char b[sizeof(T)]; } bytes_[N];
       T *last_;
       T *elements() const { return (T *)bytes_; }
-- 
2.43.0


From cfae7276d3ddb37d978bb79ebb6c3c5406479ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 11/67] fix: list::clear must not leave the list's end linked
 to a deleted node

---
 ttl/list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 565cdc5..2ca7fae 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -404,6 +404,7 @@ namespace ttl
          head_.next = head_.next->next;
          delete p;
       }
+      head_.prev = &head_;
    }
    template<typename T>
    typename list<T>::iterator list<T>::erase(const_iterator pos, const_iterator last)
-- 
2.43.0


From 3a845ade1807f8720c1fac650eeabc93ce111166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 12/67] fix: list::splice of nothing, or to where the elements
 already are, must change nothing

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 2ca7fae..af7e053 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -35,6 +35,8 @@ namespace ttl
 
       void splice(list_node *first, list_node *last)
       {
+         if (first == last || this == last)
+            return;
          last->prev->next = this;
          first->prev->next = last;
          this->prev->next = first;
-- 
2.43.0


From f7d1e5902026771d77929d0df45d8397b2cdf316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 13/67] fix: list::erase of an empty range must erase nothing

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index af7e053..ebf231a 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -412,6 +412,8 @@ namespace ttl
    typename list<T>::iterator list<T>::erase(const_iterator pos, const_iterator last)
    {
       list_node *p = const_cast<list_node *>(pos.head_);
+      if (p == last.head_)
+         return iterator(p);
       while (p->next != last.head_)
       {
          node *next = static_cast<node *>(p->next);
-- 
2.43.0


From 4cf247cee0a5cc727ba035f74e41e4fce271a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 14/67] fix: list::resize to zero must remove all elements

---
 ttl/list.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index ebf231a..63c7d08 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -362,6 +362,11 @@ namespace ttl
    template<typename T>
    void list<T>::resize(size_type newsize)
    {
+      if (!newsize)
+      {
+         clear();
+         return;
+      }
       size_type siz = 0;
       list_node *p;
       for (p = head_.next; p != &head_; p = p->next)
@@ -381,6 +386,11 @@ namespace ttl
    template<typename T>
    void list<T>::resize(size_type newsize, const T &value)
    {
+      if (!newsize)
+      {
+         clear();
+         return;
+      }
       size_type siz = 0;
       list_node *p;
       for (p = head_.next; p != &head_; p = p->next)
-- 
2.43.0


From 3c7999bb0ddd41dae8f33fb01013576cc902b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 15/67] fix: list::resize must value-initialize the elements it
 appends

---
 ttl/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 63c7d08..332a198 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -126,7 +126,7 @@ namespace ttl
       struct node: list_node
       {
          T value;
-         node() {}
+         node(): value() {}
          node(const T &v): value(v) {}
       };
       list_node head_;
-- 
2.43.0


From 85d3ac71716b1e455fd754eaa0eca38154c48c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 16/67] fix: list::swap of two empty lists must leave them
 empty

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 332a198..4af2c92 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -78,6 +78,8 @@ namespace ttl
                t = a, a = b, b = t; // swap
             }
          }
+         if (b == b->next)
+            return; // both are empty
          a->prev = b->prev;
          a->next = b->next;
          b->prev->next = b->next->prev = a;
-- 
2.43.0


From 8d32bd24b7e1021ef2f88b05181bc681f0ce708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 17/67] fix: list self-assignment must keep the contents

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 4af2c92..6c20185 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -213,6 +213,8 @@ namespace ttl
 
       list &operator=(const list &other)
       {
+         if (&other == this)
+            return *this;
          clear();
          insert(begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From 12a310bb19df8984bee960b494d36a06700f63e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 18/67] fix: list::remove of a value that is an element of the
 list must not use it after deleting it

---
 ttl/list.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 6c20185..e772f8f 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -440,12 +440,23 @@ namespace ttl
    template<typename T>
    void list<T>::remove(const T &value)
    {
+      list_node *own = 0;
       for (list_node *p = head_.next, *n = p->next; p != &head_; p = n, n = n->next)
          if (static_cast<const node *>(p)->value == value)
          {
+            if (&static_cast<const node *>(p)->value == &value)
+            {
+               own = p; // value is still needed for comparison
+               continue;
+            }
             p->unlink();
             delete static_cast<node *>(p);
          }
+      if (own)
+      {
+         own->unlink();
+         delete static_cast<node *>(own);
+      }
    }
    template<typename T>
    template<typename Predicate>
-- 
2.43.0


From af6b80a70edcb6850c42356ad238e84605e479b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 19/67] fix: list::merge with itself must do nothing

---
 ttl/list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index e772f8f..f58f74a 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -499,6 +499,8 @@ namespace ttl
    template<typename T>
    void list<T>::merge(list &other) // merge sorted lists
    {
+      if (&other == this)
+         return;
       list_node *o = other.head_.next;
       for (list_node *i = head_.next; o != &other.head_ && i != &head_;)
       {
@@ -520,6 +522,8 @@ namespace ttl
    template<typename Compare>
    void list<T>::merge(list &other, Compare cmp)
    {
+      if (&other == this)
+         return;
       list_node *o = other.head_.next;
       for (list_node *i = head_.next; o != &other.head_ && i != &head_;)
       {
-- 
2.43.0


From 950bdb9746b0daac5df8f36dad8b3c3b7ea6753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 20/67] fix: forward_list::splice_after of an empty range, or
 to where it already is, must change nothing

---
 ttl/slist_node.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/slist_node.hpp b/ttl/slist_node.hpp
index 1c9b74a..ec2c832 100644
--- a/ttl/slist_node.hpp
+++ b/ttl/slist_node.hpp
@@ -36,6 +36,8 @@ namespace ttl
       }
       void splice_after(slist_node *f, slist_node *l)
       {
+         if (f->next == l || this == f)
+            return;
          slist_node *n = next;
          next = f->next;
          slist_node *o = f;
-- 
2.43.0


From 9ced6c66907db72350c2b1070dcc1389bb69c00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 21/67] fix: forward_list::splice_after of an element behind
 itself must change nothing

---
 ttl/forward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/forward_list.hpp b/ttl/forward_list.hpp
index df44e9a..fbde35b 100644
--- a/ttl/forward_list.hpp
+++ b/ttl/forward_list.hpp
@@ -160,7 +160,7 @@ namespace ttl
       {
          slist_node *p = const_cast<slist_node *>(pos.head_);
          slist_node *o = const_cast<slist_node *>(it.head_);
-         if (o == p)
+         if (o == p || o->next == p)
             return;
          p->splice_after(o);
       }
-- 
2.43.0


From 9dbe7ed0a5808ec22abb479bc0aac0b6b4d9ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 22/67] fix: forward_list self-assignment must keep the
 contents

---
 ttl/forward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/forward_list.hpp b/ttl/forward_list.hpp
index fbde35b..6e0708e 100644
--- a/ttl/forward_list.hpp
+++ b/ttl/forward_list.hpp
@@ -108,6 +108,8 @@ namespace ttl
 
       forward_list &operator=(const forward_list &other)
       {
+         if (&other == this)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From 061eb81b69d9cb9f769e24afe349acaf4f7083a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 23/67] fix: backward_list self-assignment must keep the
 contents

---
 ttl/backward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index f46213f..d9cd87f 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -120,6 +120,8 @@ namespace ttl
 
       backward_list &operator=(const backward_list &other)
       {
+         if (&other == this)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From 4150c82dffcd622d52301d2a5cc84adfe2a1711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 24/67] fix: lazy_queue self-assignment must keep the contents

---
 ttl/lazy_queue.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index 446ccec..981298b 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -144,6 +144,8 @@ namespace ttl
 
       lazy_queue &operator=(const lazy_queue &other)
       {
+         if (&other == this)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From a9a66029da7a948ce26dfbf91877d792c6ec957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 25/67] fix: backward_list::insert_after of a range at the end
 must move the tail

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index d9cd87f..2eec03a 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -268,7 +268,7 @@ namespace ttl
       for ( ; first != last; ++first)
          p = p->insert_after(new node(*first));
       if (pn == tail_)
-         tail_ = pn;
+         tail_ = p;
    }
    template<typename T>
    void backward_list<T>::clear()
-- 
2.43.0


From 1e087219817298d2737793f660d75bed65ae67c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 26/67] fix: backward_list::reverse of an empty list must keep
 its tail

---
 ttl/backward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index 2eec03a..c70b9a4 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -290,6 +290,8 @@ namespace ttl
    template<typename T>
    void backward_list<T>::reverse()
    {
+      if (!head_.next)
+         return;
       tail_ = head_.next;
       head_.reverse();
    }
-- 
2.43.0


From 03a7c8236d74f5faad7d2a5d49bd2e5bc283697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 27/67] fix: backward_list::pop_front of the last element must
 reset the tail

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index c70b9a4..521e354 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -175,7 +175,7 @@ namespace ttl
       void pop_front()
       {
          delete static_cast<node *>(head_.unlink_next());
-         if (empty())
+         if (!head_.next)
             tail_ = &head_;
       }
 
-- 
2.43.0


From feca4415d5c13fe714681efe84233d693148411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:19 +0000
Subject: [PATCH 28/67] fix: backward_list::swap with an empty one must not
 leave the tail in the other object

---
 ttl/backward_list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index 521e354..e9122eb 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -221,6 +221,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (!head_.next)
+            tail_ = &head_;
+         if (!other.head_.next)
+            other.tail_ = &other.head_;
       }
 
       void clear();
-- 
2.43.0


From 0f603334ae3a650be12d00a87620b5aa76d56f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 29/67] fix: lazy_queue::swap with an empty one must not leave
 the tail in the other object

---
 ttl/lazy_queue.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index 981298b..73d1161 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -209,6 +209,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (!head_.next)
+            tail_ = &head_;
+         if (!other.head_.next)
+            other.tail_ = &other.head_;
       }
 
       void clear();
-- 
2.43.0


From 746c1690e60fa352fa20f7fe7b12809c25e550d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 30/67] fix: lazy_queue::cleanup must not destroy the elements
 a second time

---
 ttl/lazy_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index 73d1161..cfe835a 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -139,7 +139,7 @@ namespace ttl
       void cleanup()
       {
          while (dead_.next)
-            ::delete(static_cast<node *>(dead_.unlink_next()));
+            ::operator delete(static_cast<node *>(dead_.unlink_next()));
       }
 
       lazy_queue &operator=(const lazy_queue &other)
-- 
2.43.0


From 6310f9571f7a94c5e042dda6ff5112d0bba56559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 31/67] fix: map::upper_bound and equal_range of a missing key
 must not skip the next entry

---
 ttl/map.hpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index 1a52ced..691f948 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -273,18 +273,12 @@ namespace ttl
    template<typename KT, typename T, typename Compare>
    typename map<KT,T,Compare>::iterator map<KT,T,Compare>::upper_bound(const KT &key)
    {
-      node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
+      return iterator(rbtree_.upper_bound(key));
    }
    template<typename KT, typename T, typename Compare>
    typename map<KT,T,Compare>::const_iterator map<KT,T,Compare>::upper_bound(const KT &key) const
    {
-      const node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
+      return const_iterator(rbtree_.upper_bound(key));
    }
 
    template<typename KT, typename T, typename Compare>
@@ -292,9 +286,7 @@ namespace ttl
    map<KT,T,Compare>::equal_range(const KT &key)
    {
       node_type *lo = rbtree_.lower_bound(key);
-      node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<node_type *>(rbtree_base::next_node(lo));
+      node_type *up = rbtree_.upper_bound(key);
       return pair<iterator, iterator>(iterator(lo), iterator(up));
    }
    template<typename KT, typename T, typename Compare>
@@ -302,9 +294,7 @@ namespace ttl
    map<KT,T,Compare>::equal_range(const KT &key) const
    {
       const node_type *lo = rbtree_.lower_bound(key);
-      const node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<const node_type *>(rbtree_base::next_node(lo));
+      const node_type *up = rbtree_.upper_bound(key);
       return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
    }
 
-- 
2.43.0


From b1a9b412dc61c7869ce535ff34ff5a62e2349277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 32/67] fix: set::upper_bound and equal_range of a missing key
 must not skip the next element

---
 ttl/set.hpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/ttl/set.hpp b/ttl/set.hpp
index a989355..646c9b2 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -250,18 +250,12 @@ namespace ttl
    template<typename KT, typename Compare>
    typename set<KT,Compare>::iterator set<KT,Compare>::upper_bound(const KT &key)
    {
-      node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
+      return iterator(rbtree_.upper_bound(key));
    }
    template<typename KT, typename Compare>
    typename set<KT,Compare>::const_iterator set<KT,Compare>::upper_bound(const KT &key) const
    {
-      const node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
+      return const_iterator(rbtree_.upper_bound(key));
    }
 
    template<typename KT, typename Compare>
@@ -269,9 +263,7 @@ namespace ttl
    set<KT,Compare>::equal_range(const KT &key)
    {
       node_type *lo = rbtree_.lower_bound(key);
-      node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<node_type *>(rbtree_base::next_node(lo));
+      node_type *up = rbtree_.upper_bound(key);
       return pair<iterator, iterator>(iterator(lo), iterator(up));
    }
    template<typename KT, typename Compare>
@@ -279,9 +271,7 @@ namespace ttl
    set<KT,Compare>::equal_range(const KT &key) const
    {
       const node_type *lo = rbtree_.lower_bound(key);
-      const node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<const node_type *>(rbtree_base::next_node(lo));
+      const node_type *up = rbtree_.upper_bound(key);
       return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
    }
 
-- 
2.43.0


From 43de646210cc89971682acbb108134a3ab3249fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 33/67] fix: map self-assignment must keep the contents

---
 ttl/map.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index 691f948..c11490c 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -181,6 +181,8 @@ namespace ttl
 
       map &operator=(const map &other)
       {
+         if (&other == this)
+            return *this;
          clear();
          rbtree_.assign(other.rbtree_);
          return *this;
-- 
2.43.0


From 8057600ae2d472a2557906f89d832df4fc350980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 34/67] fix: set self-assignment must keep the contents

---
 ttl/set.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/set.hpp b/ttl/set.hpp
index 646c9b2..e5c62d8 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -169,6 +169,8 @@ namespace ttl
 
       set &operator=(const set &other)
       {
+         if (&other == this)
+            return *this;
          clear();
          rbtree_.assign(other.rbtree_);
          return *this;
-- 
2.43.0


From c0c8d6b96ec92a07c8e3cc0035f1943ab574ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 35/67] fix: rbtree::assign of itself must keep the contents

---
 ttl/rbtree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index addb86a..a8d3279 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -332,6 +332,8 @@ namespace ttl
    template <class K, class KV, class KeyOfValue, class Compare>
    void rbtree<K,KV,KeyOfValue,Compare>::assign(const rbtree &other)
    {
+      if (&other == this)
+         return;
       if (root_())
          clear();
       const node *otherroot = other.get_root();
-- 
2.43.0


From e7c170755bcae2ef71d524691e56de9eec88f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 36/67] fix: rbtree::remove of a duplicated key must not lose
 another node

---
 ttl/rbtree.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index a8d3279..16047e9 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -492,12 +492,13 @@ namespace ttl
                *root = 0;
                break;
             }
+            rbnode *pivot = *root;
             if ((*root)->right && !is_red((*root)->right) && !is_red((*root)->right->left))
-            {
                *root = move_right(*root);
-               isless = is_less_(key, keyof_(static_cast<const node *>(*root)->data));
-            }
-            if (key == keyof_(static_cast<const node *>(*root)->data))
+            // a left child (with an equal key) just rotated up cannot be
+            // removed here: its right child is not prepared for delete_min
+            if (pivot == *root &&
+                key == keyof_(static_cast<const node *>(*root)->data))
             {
                rbnode *orphan = delete_min(&(*root)->right);
                orphan->color = (*root)->color;
-- 
2.43.0


From d7ff6957014d8883ff6654240358c7fc40f5ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 37/67] fix: rbtree::count must count all elements with the key

---
 ttl/rbtree.hpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index 16047e9..a6404ee 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -352,20 +352,10 @@ namespace ttl
    template <class K, class KV, class KeyOfValue, class Compare>
    size_t rbtree<K,KV,KeyOfValue,Compare>::count(const K &key) const
    {
-      const rbnode *n = root_();
       size_t c = 0;
-      while (n)
-      {
-         const K &nkey = keyof_(static_cast<const node *>(n)->data);
-         if (is_less_(nkey, key))
-            n = n->right;
-         else
-         {
-            if (nkey == key)
-               ++c;
-            n = n->left;
-         }
-      }
+      const rbnode *last = upper_bound(key);
+      for (const rbnode *n = lower_bound(key); n != last; n = next_node(n))
+         ++c;
       return c;
    }
 
-- 
2.43.0


From f4cff5c59d4e541e33cdf9991e75213cd8492d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 38/67] fix: vector_map::count of a present key must terminate

---
 ttl/vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/vector_map.hpp b/ttl/vector_map.hpp
index 711b91d..6b692da 100644
--- a/ttl/vector_map.hpp
+++ b/ttl/vector_map.hpp
@@ -69,7 +69,7 @@ namespace ttl
       size_type count(const KT &key) const
       {
          size_type n = 0;
-         for (const_iterator i = begin(); (i = find_key(i, key)) != end();)
+         for (const_iterator i = begin(); (i = find_key(i, key)) != end(); ++i)
             ++n;
          return n;
       }
-- 
2.43.0


From 060e53511f57d5c52fb27ccbda63b16d55528282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 39/67] fix: sorted_vector_map::count must be 1 for present,
 and 0 for missing keys

---
 ttl/sorted_vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 487b685..592a00a 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -158,7 +158,7 @@ namespace ttl
       iterator find(const KT &key);
       const_iterator find(const KT &key) const;
 
-      size_type count(const KT &key) const { return find(key) == cend(); }
+      size_type count(const KT &key) const { return find(key) != cend(); }
 
       ttl::pair<iterator,iterator> equal_range(const KT &key)
       {
-- 
2.43.0


From 4c11aa33b395c7484dcc6be955f06b16468916ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 40/67] fix: sorted_vector_map preallocated for one entry must
 grow when it gets the second

---
 ttl/sorted_vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 592a00a..eced061 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -280,7 +280,7 @@ namespace ttl
          value_type **i;
          size_type newcapacity = end_of_elements_ - elements_;
          newcapacity += newcapacity/2; // temporarily funny...
-         if (!newcapacity)
+         if (newcapacity < 2)
             newcapacity = 2;
          value_type **newelements = o = new value_type *[newcapacity];
          for (i = elements_; i != pos.ptr_;)
-- 
2.43.0


From 9aa2bcae3fc5d4243864b78bcef61476335dd80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 41/67] fix: bitset::set of a bit to false must clear the bit

---
 ttl/bitset.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 9f95580..21be03d 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -123,9 +123,7 @@ namespace ttl
       }
       bitset<N> &set(ttl::size_t pos, bool value)
       {
-         const slot_type mask = (slot_type)value << bits_bit(pos);
-         *bits_slot(pos) = (*bits_slot(pos) & ~mask) | mask;
-         return *this;
+         return value ? set(pos): reset(pos);
       }
 
       bitset<N> &reset()
-- 
2.43.0


From 28793ca23b13e3049b5e3545d84026e3b4f27c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 42/67] fix: bitset::reference assignment from a reference must
 keep the other bits and clear its own

---
 ttl/bitset.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 21be03d..2d1018d 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -71,8 +71,7 @@ namespace ttl
          ~reference() {}
          reference& operator=(const reference &other)
          {
-            *bits_ = (*bits_ & mask_) | (-other.operator bool() & mask_);
-            return *this;
+            return operator=(other.operator bool());
          }
          operator bool() const { return (*bits_ & mask_) != 0; }
          bool operator~() const { return (*bits_ & mask_) == 0; }
-- 
2.43.0


From 3c4e06d9e85720fd3fe3e2860a9840aea693a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 43/67] fix: bitset conversion from a smaller bitset must not
 copy its unused bits

---
 ttl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 2d1018d..50a401b 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -281,6 +281,8 @@ namespace ttl
       const ttl::size_t n = N < M ? capacity()/(sizeof(slot_type) * CHAR_BIT): other.capacity()/(sizeof(slot_type) * CHAR_BIT);
       for (i = 0; i < n; ++i)
          bits_[i] = other.slot(i);
+      if (M < N && i)
+         bits_[i - 1] &= other.last_bits(); // not other's unused bits
       for ( ; i < sizeof(bits_)/sizeof(*bits_); ++i)
          bits_[i] = 0;
       return *this;
-- 
2.43.0


From 0fb122680b40608231dd130007a86e3e55cd61bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 44/67] fix: bitset of a string longer than the bitset must not
 write outside of it

---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 50a401b..60a46a2 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -195,7 +195,7 @@ namespace ttl
    bitset<N>::bitset(const char *bits, ttl::size_t n, char zero, char one)
    {
       ttl::size_t i;
-      for (i = 0; i < n; ++i)
+      for (i = 0; i < n && i < N; ++i)
          if (!(bits[i] == zero || bits[i] == one))
             break;
       for (ttl::size_t s = i / (sizeof(slot_type) * CHAR_BIT); s < sizeof(bits_)/sizeof(*bits_); ++s)
-- 
2.43.0


From b309eb9c3b65abf3767fa14e0a2f36a2d7ac9acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 45/67] fix: bitset<0> of a number must not write outside of
 the object

---
 ttl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 60a46a2..94a1f78 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -370,6 +370,8 @@ namespace ttl
       return bitset<N>(a) ^= b;
    }
 
+   template<> inline bitset<0>::bitset(unsigned long) {}
+   template<> inline bitset<0>::bitset(unsigned long long) {}
    template<> inline bitset<0>::slot_type *bitset<0>::bits_slot(ttl::size_t) { return bits_; }
    template<> inline bool bitset<0>::test(ttl::size_t) const { return false; }
    template<> inline bitset<0> &bitset<0>::set() { return *this; }
-- 
2.43.0


From 5e53c43c1ab125f0b01b3a5a67d3c285ea6b6aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 46/67] fix: bitset::reference to a bit that is not there must
 not access memory outside of the bitset

---
 ttl/bitset.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 94a1f78..40dadec 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -65,7 +65,8 @@ namespace ttl
       public:
          reference& operator=(bool v)
          {
-            *bits_ = (*bits_ & ~mask_) | (-v & mask_);
+            if (mask_) // there is no such bit otherwise
+               *bits_ = (*bits_ & ~mask_) | (-v & mask_);
             return *this;
          }
          ~reference() {}
@@ -73,9 +74,9 @@ namespace ttl
          {
             return operator=(other.operator bool());
          }
-         operator bool() const { return (*bits_ & mask_) != 0; }
-         bool operator~() const { return (*bits_ & mask_) == 0; }
-         reference &flip() { *bits_ ^= mask_; return *this; }
+         operator bool() const { return mask_ && (*bits_ & mask_) != 0; }
+         bool operator~() const { return !operator bool(); }
+         reference &flip() { if (mask_) *bits_ ^= mask_; return *this; }
       };
 
       bool operator[](ttl::size_t pos) const
@@ -84,7 +85,7 @@ namespace ttl
       }
       reference operator[](ttl::size_t pos)
       {
-         return reference(bits_slot(pos), (pos < N) * 1ul << bits_bit(pos));
+         return reference(bits_slot(pos < N ? pos: 0), (pos < N) * 1ul << bits_bit(pos));
       }
 
       bool test(ttl::size_t pos) const
-- 
2.43.0


From 62da90988dd62e2a10dd34e0156412fb527d4e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 47/67] fix: search_n with a predicate must use it for the
 first element of a run too

---
 ttl/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 290cf8d..e62372a 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -135,7 +135,7 @@ namespace ttl
 
       for(; first != last; ++first)
       {
-         if (*first == value)
+         if (pred(*first, value))
          {
             ForwardIt candidate = first;
             for (Size c = 1;; ++c)
-- 
2.43.0


From 6cb62e6243413da612d590b44bcf708fe0a9735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 48/67] fix: min of equivalent values must be the first of them

---
 ttl/algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index e62372a..e310f2d 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -660,13 +660,13 @@ namespace ttl
    template<class T>
    inline ttl_constexpr const T &min(const T &a, const T &b)
    {
-      return a < b ? a: b;
+      return b < a ? b: a;
    }
 
    template<class T, class Compare>
    inline ttl_constexpr const T &min(const T &a, const T &b, Compare comp)
    {
-      return comp(a, b) ? a: b;
+      return comp(b, a) ? b: a;
    }
 
    template<class T>
-- 
2.43.0


From 6114a2a95d0645110d97719cf901c7b63d431115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 49/67] fix: lower_bound and upper_bound must not truncate the
 size of the range to int

---
 ttl/algorithm.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index e310f2d..9487178 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -502,9 +502,9 @@ namespace ttl
    template<class ForwardIt, class T>
    ForwardIt lower_bound(ForwardIt first, ForwardIt last, const T &value)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it = first + step;
          if (*it < value)
@@ -521,9 +521,9 @@ namespace ttl
    template<class ForwardIt, class T, class Compare>
    ForwardIt lower_bound(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it += step;
          if (comp(*it, value))
@@ -540,9 +540,9 @@ namespace ttl
    template<class ForwardIt, class T>
    ForwardIt upper_bound(ForwardIt first, ForwardIt last, const T &value)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it += step;
          if (!(value < *it))
@@ -559,9 +559,9 @@ namespace ttl
    template<class ForwardIt, class T, class Compare>
    ForwardIt upper_bound(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it += step;
          if (!comp(value, *it))
-- 
2.43.0


From 9efffe4da2c62c3fced6cd16878aac038b002faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 50/67] fix: ttl_countof must not expand the countof macro in
 its own expansion

---
 ttl/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/utility.hpp b/ttl/utility.hpp
index 70697f4..619850f 100644
--- a/ttl/utility.hpp
+++ b/ttl/utility.hpp
@@ -16,7 +16,7 @@ namespace ttl
 #ifndef countof
 #define countof(a) ttl::countof(a)
 #endif
-#define ttl_countof(a) ttl::countof(a)
+#define ttl_countof(a) (ttl::countof)(a)
 #else
    template<typename T, unsigned int N> char (&_char_array_ref(const T (&)[N]))[N];
 #ifndef countof
-- 
2.43.0


From 787663d3fff8a4c28a5de1145b69442ced566a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 51/67] fix: is_const and is_volatile of an rvalue reference
 must not form a pointer to it

---
 ttl/type_traits.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ttl/type_traits.hpp b/ttl/type_traits.hpp
index 08ca210..9b8e754 100644
--- a/ttl/type_traits.hpp
+++ b/ttl/type_traits.hpp
@@ -48,6 +48,9 @@ namespace ttl
    template<typename T> struct is_const: is_const_value<T*> {};
    // is_const is false because T is const, not the reference to T.
    template<typename T> struct is_const<T&>: false_type{};
+#if __cplusplus >= 201103L // C++11
+   template<typename T> struct is_const<T&&>: false_type{};
+#endif
 
    // is_volatile<T>::value == true if and only if T has volatile-qualification.
    template<typename T> struct is_volatile_value: false_type {};
@@ -56,6 +59,9 @@ namespace ttl
    template<typename T> struct is_volatile: is_volatile_value<T*> {};
    // is_const is false because T is const, not the reference to T.
    template <typename T> struct is_volatile<T&>: false_type {};
+#if __cplusplus >= 201103L // C++11
+   template <typename T> struct is_volatile<T&&>: false_type {};
+#endif
 
     // is_signed<T>::value == true if and only if T is one of the following types:
     template<class T> struct is_signed: integral_constant<bool,
-- 
2.43.0


From d3fc84be88ef01c92ffa63c0ef79e85fb65a8549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 52/67] fix: rbtree.hpp must compile when it is included first

---
 ttl/rbtree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index a6404ee..c0a0842 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -9,6 +9,8 @@
 #ifndef _TINY_TEMPLATE_LIBRARY_RBTREE_HPP_
 #define _TINY_TEMPLATE_LIBRARY_RBTREE_HPP_ 1
 
+#include "types.hpp"
+
 namespace ttl
 {
    template<typename T1, typename T2> struct pair;
-- 
2.43.0


From 3771b49fdb0eaa340db26c02c1b9e8afbc51ff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 53/67] fix: forward_list.hpp must compile when it is included
 first

---
 ttl/forward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/forward_list.hpp b/ttl/forward_list.hpp
index 6e0708e..0b3167a 100644
--- a/ttl/forward_list.hpp
+++ b/ttl/forward_list.hpp
@@ -12,6 +12,8 @@
 
 namespace ttl
 {
+   template<typename T> void swap(T &, T &);
+
    template<typename T>
    class forward_list
    {
-- 
2.43.0


From 8a5ee94ba70ce9be09a8b5983d20c38714c244bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 54/67] fix: maps must be comparable also when algorithm.hpp is
 included after map.hpp

---
 ttl/map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index c11490c..1e3e58c 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -301,7 +301,7 @@ namespace ttl
    }
 
    template<class InputIt1, class InputIt2>
-   bool equal(InputIt1, InputIt1, InputIt2);
+   bool equal(InputIt1, InputIt1, InputIt2, InputIt2);
 
    template <typename KT, typename T, typename Compare>
    bool operator==(const map<KT,T,Compare> &a, const map<KT,T,Compare> &b)
-- 
2.43.0


From 50cad5781eae38251deedb3ec7d990e9500a8c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 55/67] fix: bitset.hpp must compile as C++98, where a static
 member cannot use a member

---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 40dadec..d561966 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -24,7 +24,7 @@ namespace ttl
    public:
       static slot_type last_bits()
       {
-         return sizeof(bits_)*CHAR_BIT == N ? (slot_type)-1: (1lu << (N % (sizeof(slot_type) * CHAR_BIT))) - 1lu;
+         return N % (sizeof(slot_type) * CHAR_BIT) == 0 ? (slot_type)-1: (1lu << (N % (sizeof(slot_type) * CHAR_BIT))) - 1lu;
       }
       ttl::size_t last_slot_index() const {return N ? sizeof(bits_)/sizeof(*bits_) - 1: 0; }
 
-- 
2.43.0


From 983b1fb87a06f863367accef13ccbf45bbcb2b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:14 +0000
Subject: [PATCH 56/67] fix: reverse and swap_ranges of simple types must
 compile also when algorithm.hpp is included before utility.hpp

---
 ttl/algorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 9487178..cdc0176 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -19,6 +19,7 @@ namespace ttl
 #endif
    template<class T1, class T2> struct pair;
    template<class T1, class T2> pair<T1,T2> make_pair(T1, T2);
+   template<typename T> void swap(T &, T &);
 #if __cplusplus >= 201103L // C++11
    template<class T> struct remove_reference;
    template<class T> constexpr typename remove_reference<T>::type &&move(T &&);
-- 
2.43.0


From 4be1e5f56eb064d284cbbf932e17c8649d4f46a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 57/67] fix: swap_ranges of two kinds of iterators must
 compile: it returns one of the second range

---
 ttl/algorithm.hpp    | 2 +-
 ttl/array.hpp        | 2 +-
 ttl/fixed_vector.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index cdc0176..9dfe725 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -305,7 +305,7 @@ namespace ttl
    }
 
    template<class iterator1, class iterator2>
-   inline iterator1 swap_ranges(iterator1 first1, iterator1 last1, iterator2 first2)
+   inline iterator2 swap_ranges(iterator1 first1, iterator1 last1, iterator2 first2)
    {
       for (; first1 != last1; ++first1, ++first2)
          iter_swap(first1, first2);
diff --git a/ttl/array.hpp b/ttl/array.hpp
index ec34191..46b2939 100644
--- a/ttl/array.hpp
+++ b/ttl/array.hpp
@@ -12,7 +12,7 @@
 namespace ttl
 {
    template<class InputIt1, class InputIt2> bool equal(InputIt1, InputIt1, InputIt2, InputIt2);
-   template<class iterator1, class iterator2> iterator1 swap_ranges(iterator1, iterator1, iterator2);
+   template<class iterator1, class iterator2> iterator2 swap_ranges(iterator1, iterator1, iterator2);
    template<typename iterator, typename size_type, typename value_type> iterator fill_n(iterator, size_type count, const value_type &);
 
    template<typename T, const ttl::size_t N>
diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index c17c001..c2235f6 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -17,7 +17,7 @@ namespace ttl
    template<class ForwardIt, class T> pair<ForwardIt,ForwardIt> equal_range(ForwardIt, ForwardIt, const T &);
    template<class InputIt1, class InputIt2> bool equal(InputIt1, InputIt1, InputIt2, InputIt2);
    template<typename T> void swap(T &, T &);
-   template<class iterator1, class iterator2> iterator1 swap_ranges(iterator1, iterator1, iterator2);
+   template<class iterator1, class iterator2> iterator2 swap_ranges(iterator1, iterator1, iterator2);
 
    template<typename T, const unsigned int N>
    class fixed_vector
-- 
2.43.0


From 2a58c7c6596b07f41f702267ed544a003867471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 58/67] fix: vector and fixed_vector must construct elements in
 place also where their class has an operator new

---
 ttl/fixed_vector.hpp | 6 +++---
 ttl/vector.hpp       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index c2235f6..11e9777 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -65,7 +65,7 @@ namespace ttl
       {
          clear();
          for (; first != last && !full(); ++first)
-            new(last_++) T(*first);
+            ::new(last_++) T(*first);
       }
 
       iterator       begin() { return elements(); }
@@ -115,7 +115,7 @@ namespace ttl
       void push_back(const value_type &x)
       {
          if (!full())
-            new(last_++) T(x);
+            ::new(last_++) T(x);
       }
 
       void pop_back()
@@ -300,7 +300,7 @@ namespace ttl
       ttl::swap_ranges(a.elements(), a.elements() + minsiz, b.elements());
       T *e = b.elements() + minsiz;
       while (e < b.last_)
-         new (a.last_++) T(*e++);
+         ::new (a.last_++) T(*e++);
       b.last_ = b.elements() + minsiz;
       while (e > b.last_)
          (--e)->~T();
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index bcce529..ac55c19 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -143,7 +143,7 @@ namespace ttl
       void push_back(const value_type &x)
       {
          if (last_ < end_of_elements_)
-            new(last_++) T(x);
+            ::new(last_++) T(x);
          else
             insert(end(), (size_type)1, x);
       }
-- 
2.43.0


From 58bd2451a94c55404a495539a41b33c717dd8d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 59/67] fix: resize(n, value) must not need a default
 constructor

---
 ttl/fixed_vector.hpp | 2 +-
 ttl/vector.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 11e9777..9d21a9c 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -86,7 +86,7 @@ namespace ttl
       void resize(size_type new_size, const value_type &x)
       {
          if (new_size < size())
-            resize(new_size);
+            erase(begin() + new_size, end());
          else
             insert(end(), new_size - size(), x);
       }
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index ac55c19..042a861 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -101,7 +101,7 @@ namespace ttl
       void resize(size_type new_size, const value_type &x)
       {
          if (new_size < size())
-            resize(new_size);
+            erase(begin() + new_size, end());
          else
             insert(end(), new_size - size(), x);
       }
-- 
2.43.0


From e45d91c1bb0cb8499c22e09f15d3061a99b91b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 60/67] fix: lazy_queue must not rely on std::ptrdiff_t, which
 no header it includes promises

---
 ttl/lazy_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index cfe835a..04adcf5 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -29,8 +29,8 @@ namespace ttl
       typedef const T *const_pointer;
       typedef T &reference;
       typedef const T &const_reference;
-      typedef std::size_t size_type;
-      typedef std::ptrdiff_t difference_type;
+      typedef ttl::size_t size_type;
+      typedef ttl::ptrdiff_t difference_type;
 
    private:
       struct node: slist_node
-- 
2.43.0


From 3dd4c1fe1ff70940b69368062a9bdbc55763db8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 61/67] fix: rbtree must identify keys by the ordering alone

---
 ttl/rbtree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index c0a0842..25b1314 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -371,7 +371,7 @@ namespace ttl
          const K &nkey = keyof_(static_cast<const node *>(n)->data);
          if (is_less_(key, nkey))
             n = n->left;
-         else if (key == nkey)
+         else if (!is_less_(nkey, key))
             break;
          else
             n = n->right;
@@ -442,7 +442,7 @@ namespace ttl
          const K &ekey = keyof_(static_cast<const node *>(*edge)->data);
          if (is_less_(key, ekey))
             parent = *edge, edge = &(*edge)->left;
-         else if (key == ekey)
+         else if (!is_less_(ekey, key))
             return pair<node *, bool>(static_cast<node *>(*edge), false);
          else
             parent = *edge, edge = &(*edge)->right;
@@ -477,7 +477,7 @@ namespace ttl
                isless = is_less_(key, keyof_(static_cast<const node *>(*root)->data));
             }
             if (!isless &&
-                key == keyof_(static_cast<const node *>(*root)->data) &&
+                !is_less_(keyof_(static_cast<const node *>(*root)->data), key) &&
                 !(*root)->right)
             {
                deleted = *root;
@@ -490,7 +490,7 @@ namespace ttl
             // a left child (with an equal key) just rotated up cannot be
             // removed here: its right child is not prepared for delete_min
             if (pivot == *root &&
-                key == keyof_(static_cast<const node *>(*root)->data))
+                !is_less_(keyof_(static_cast<const node *>(*root)->data), key))
             {
                rbnode *orphan = delete_min(&(*root)->right);
                orphan->color = (*root)->color;
-- 
2.43.0


From 53cb98a73d56642f7c92db2cd170ee22108909ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 62/67] fix: sorted_vector_map must identify keys by the
 ordering alone

---
 ttl/sorted_vector_map.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index eced061..1cb45d6 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -112,7 +112,7 @@ namespace ttl
       T &operator[](const KT &key)
       {
          iterator i = find_insert_pos(key);
-         if (i != end() && i->first == key)
+         if (i != end() && !Compare()(key, i->first))
             return i->second;
          return insert_before(i, ttl::make_pair(key, T()))->second;
       }
@@ -140,7 +140,7 @@ namespace ttl
       ttl::pair<iterator,bool> insert(const value_type &value)
       {
          iterator i = find_insert_pos(value.first);
-         if (i != end() && i->first == value.first)
+         if (i != end() && !Compare()(value.first, i->first))
             return ttl::pair<iterator, bool>(i, false);
          return ttl::pair<iterator, bool>(insert_before(i, value), true);
       }
@@ -183,14 +183,14 @@ namespace ttl
       iterator upper_bound(const KT &key)
       {
          iterator i = find_insert_pos(key);
-         while (i != end() && i->first == key)
+         while (i != end() && !Compare()(key, i->first))
             ++i;
          return i;
       }
       const_iterator upper_bound(const KT &key) const
       {
          const_iterator i = find_insert_pos(key);
-         while (i != cend() && i->first == key)
+         while (i != cend() && !Compare()(key, i->first))
             ++i;
          return i;
       }
@@ -239,12 +239,12 @@ namespace ttl
       unsigned L = 0, H = size();
       while (L < H) {
          unsigned m = L + (H - L) / 2;
-         if (elements_[m]->first == key)
-            return pair<unsigned, bool>(m, true);
          if (comp(elements_[m]->first, key))
             L = m + 1;
-         else
+         else if (comp(key, elements_[m]->first))
             H = m;
+         else
+            return pair<unsigned, bool>(m, true);
       }
       return pair<unsigned, bool>(L, false);
    }
-- 
2.43.0


From 96967c101288b2f09df759f2dffd4ace4879b4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 63/67] fix: algorithms must not call functions of the
 namespaces of their iterators in place of each other

---
 ttl/algorithm.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 9dfe725..695d61b 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -176,19 +176,19 @@ namespace ttl
    template<class InputIt, class UnaryPredicate>
    bool all_of(InputIt first, InputIt last, UnaryPredicate p)
    {
-      return find_if_not(first, last, p) == last;
+      return ttl::find_if_not(first, last, p) == last;
    }
 
    template<class InputIt, class UnaryPredicate>
    bool any_of(InputIt first, InputIt last, UnaryPredicate p)
    {
-       return find_if(first, last, p) != last;
+       return ttl::find_if(first, last, p) != last;
    }
 
    template<class InputIt, class UnaryPredicate>
    bool none_of(InputIt first, InputIt last, UnaryPredicate p)
    {
-       return find_if(first, last, p) == last;
+       return ttl::find_if(first, last, p) == last;
    }
 
    // find duplicates
@@ -308,7 +308,7 @@ namespace ttl
    inline iterator2 swap_ranges(iterator1 first1, iterator1 last1, iterator2 first2)
    {
       for (; first1 != last1; ++first1, ++first2)
-         iter_swap(first1, first2);
+         ttl::iter_swap(first1, first2);
       return first2;
    }
 
@@ -440,7 +440,7 @@ namespace ttl
    template<class ForwardIt, class T>
    ForwardIt remove(ForwardIt first, ForwardIt last, const T &value)
    {
-      first = find(first, last, value);
+      first = ttl::find(first, last, value);
       if (first != last)
          for (ForwardIt i = first; ++i != last; )
             if (!(*i == value))
@@ -454,7 +454,7 @@ namespace ttl
    template<class ForwardIt, class UnaryPredicate>
    ForwardIt remove_if(ForwardIt first, ForwardIt last, UnaryPredicate p)
    {
-      first = find_if(first, last, p);
+      first = ttl::find_if(first, last, p);
       if (first != last)
          for (ForwardIt i = first; ++i != last; )
             if (!p(*i))
@@ -579,29 +579,29 @@ namespace ttl
    template<class ForwardIt, class T>
    inline bool binary_search(ForwardIt first, ForwardIt last, const T &value)
    {
-      first = lower_bound(first, last, value);
+      first = ttl::lower_bound(first, last, value);
       return !(first == last) && !(value < *first);
    }
 
    template<class ForwardIt, class T, class Compare>
    inline bool binary_search(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-       first = lower_bound(first, last, value, comp);
+       first = ttl::lower_bound(first, last, value, comp);
        return !(first == last) && !comp(value, *first);
    }
 
    template<class ForwardIt, class T>
    pair<ForwardIt,ForwardIt> equal_range(ForwardIt first, ForwardIt last, const T &value)
    {
-      ForwardIt low = lower_bound(first, last, value);
-      return make_pair(low, upper_bound(low, last, value));
+      ForwardIt low = ttl::lower_bound(first, last, value);
+      return ttl::make_pair(low, ttl::upper_bound(low, last, value));
    }
 
    template<class ForwardIt, class T, class Compare>
    pair<ForwardIt,ForwardIt> equal_range(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-      ForwardIt low = lower_bound(first, last, value, comp);
-      return make_pair(low, upper_bound(low, last, value, comp));
+      ForwardIt low = ttl::lower_bound(first, last, value, comp);
+      return ttl::make_pair(low, ttl::upper_bound(low, last, value, comp));
    }
 
    //
@@ -627,7 +627,7 @@ namespace ttl
    template<class ForwardIt>
    bool is_sorted(ForwardIt first, ForwardIt last)
    {
-      return is_sorted_until(first, last) == last;
+      return ttl::is_sorted_until(first, last) == last;
    }
 
    //
@@ -722,7 +722,7 @@ namespace ttl
    ttl::pair<ForwardIt, ForwardIt> minmax_element(ForwardIt first, ForwardIt last)
    {
       // TODO: optimize
-      return ttl::pair<ForwardIt, ForwardIt>(min_element(first, last), max_element(first, last));
+      return ttl::pair<ForwardIt, ForwardIt>(ttl::min_element(first, last), ttl::max_element(first, last));
    }
 }
 #endif // _TINY_TEMPLATE_LIBRARY_ALGORITHM_HPP_
-- 
2.43.0


From fd8a05d647e389f59a0908d93d55d0c2e1234ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 64/67] fix: shifts of a bitset of more than 2^32 bits must
 move the bits above 2^32

---
 ttl/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index d561966..25450f4 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -323,7 +323,7 @@ namespace ttl
    bitset<N> bitset<N>::operator<<(ttl::size_t pos) const
    {
       bitset<N> other;
-      for (unsigned i = 0; pos < N; ++i, ++pos)
+      for (ttl::size_t i = 0; pos < N; ++i, ++pos)
          if (test(i))
             other.set(pos);
       return other;
@@ -340,7 +340,7 @@ namespace ttl
    bitset<N> bitset<N>::operator>>(ttl::size_t pos) const
    {
       bitset<N> other;
-      for (unsigned i = 0; pos < N; ++i, ++pos)
+      for (ttl::size_t i = 0; pos < N; ++i, ++pos)
          if (test(pos))
             other.set(i);
       return other;
-- 
2.43.0


From 55635f2b2893f95b988ab9145514134fea04e54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:47 +0000
Subject: [PATCH 65/67] fix: an object that contains a vector can be appended
 to that vector

push_back counted the new element before copying it, so the copy of an
object which contains the vector read an element that was not there.
---
 ttl/fixed_vector.hpp | 9 ++++++---
 ttl/vector.hpp       | 5 ++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 9d21a9c..9a6a939 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -115,7 +115,10 @@ namespace ttl
       void push_back(const value_type &x)
       {
          if (!full())
-            ::new(last_++) T(x);
+         {
+            ::new(last_) T(x); // x may contain this vector
+            ++last_;
+         }
       }
 
       void pop_back()
@@ -230,8 +233,8 @@ namespace ttl
          }
          else
          {
-            for (o = last_; n-- && !full(); )
-               ::new(last_++) T(x);
+            for (o = last_; n-- && !full(); ++last_)
+               ::new(last_) T(x);
          }
       }
       return begin() + dist;
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index 042a861..eee4636 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -143,7 +143,10 @@ namespace ttl
       void push_back(const value_type &x)
       {
          if (last_ < end_of_elements_)
-            ::new(last_++) T(x);
+         {
+            ::new(last_) T(x); // x may contain this vector
+            ++last_;
+         }
          else
             insert(end(), (size_type)1, x);
       }
-- 
2.43.0


From a5dc63eea1884a31ca9f254ccbf2eb86422907ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:35 +0000
Subject: [PATCH 66/67] fix: sets with any comparator can be compared

---
 ttl/set.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttl/set.hpp b/ttl/set.hpp
index e5c62d8..44207ad 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -280,13 +280,13 @@ namespace ttl
    template<class InputIt1, class InputIt2>
    bool equal(InputIt1, InputIt1, InputIt2, InputIt2);
 
-   template <typename T>
-   bool operator==(const set<T> &a, const set<T> &b)
+   template <typename KT, typename Compare>
+   bool operator==(const set<KT,Compare> &a, const set<KT,Compare> &b)
    {
       return ttl::equal(a.begin(), a.end(), b.begin(), b.end());
    }
-   template <typename T>
-   bool operator!=(const set<T> &a, const set<T> &b)
+   template <typename KT, typename Compare>
+   bool operator!=(const set<KT,Compare> &a, const set<KT,Compare> &b)
    {
       return !(a == b);
    }
-- 
2.43.0


From 523429869710e597d002fdb1473e07ff687a1b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:37 +0000
Subject: [PATCH 67/67] fix: replace_copy and replace_copy_if copy the elements
 not replaced as they are

---
 ttl/algorithm.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 695d61b..8c8d113 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -401,7 +401,10 @@ namespace ttl
    OutputIt replace_copy(InputIt first, InputIt last, OutputIt d_first, const T &oldval, const T &newval)
    {
       for (; first != last; ++first, ++d_first)
-         *d_first = *first == oldval ? newval: *first;
+         if (*first == oldval)
+            *d_first = newval;
+         else
+            *d_first = *first;
       return d_first;
    }
 
@@ -409,7 +412,10 @@ namespace ttl
    OutputIt replace_copy_if(InputIt first, InputIt last, OutputIt d_first, UnaryPredicate p, const T& newval)
    {
       for (; first != last; ++first, ++d_first)
-         *d_first = p(*first) ? newval: *first;
+         if (p(*first))
+            *d_first = newval;
+         else
+            *d_first = *first;
       return d_first;
    }
 
-- 
2.43.0

