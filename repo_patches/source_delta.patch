From d1ec1cfe8b1a8893ed7548fe07ec1706c91653fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:30 +0000
Subject: [PATCH 01/10] fix: keep split_segment's index in sync when erasing an
 element throws

nv_erase popped the index entry before erasing from the store, so that a
throwing move assignment left the index one entry short.
---
 include/boost/poly_collection/detail/split_segment.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 4c18788..8b6cc0c 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -245,8 +245,9 @@ public:
 
   range nv_erase(const_iterator p)
   {
+    auto it=s.erase(iterator_from(p));
     pop_index_entry();
-    return range_from(s.erase(iterator_from(p)));
+    return range_from(it);
   }
     
   virtual range erase(const_base_iterator first,const_base_iterator last)
-- 
2.43.0


From ae5ec7a82b55c17e201232cf642a8ffda24ed3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:45 +0000
Subject: [PATCH 02/10] fix: keep the segment sentinel up to date when an
 operation throws

A backend op exiting by exception can leave behind reallocated or partially
modified storage (e.g. a range insertion failing midway), in which case the
cached sentinel became stale and global traversal went wrong.
---
 .../boost/poly_collection/detail/segment.hpp  | 86 ++++++++++++++-----
 1 file changed, 65 insertions(+), 21 deletions(-)

diff --git a/include/boost/poly_collection/detail/segment.hpp b/include/boost/poly_collection/detail/segment.hpp
index a080839..0238f93 100644
--- a/include/boost/poly_collection/detail/segment.hpp
+++ b/include/boost/poly_collection/detail/segment.hpp
@@ -115,33 +115,43 @@ public:
   template<typename U>
   std::size_t          max_size()const noexcept
                          {return impl<U>().nv_max_size();}
-  void                 reserve(std::size_t n){filter(impl().reserve(n));}
+  void                 reserve(std::size_t n)
+                         {guard g{*this};g.filter(impl().reserve(n));}
   template<typename U>
-  void                 reserve(std::size_t n){filter(impl<U>().nv_reserve(n));}
+  void                 reserve(std::size_t n)
+                         {guard g{*this};g.filter(impl<U>().nv_reserve(n));}
   std::size_t          capacity()const noexcept{return impl().capacity();}
   template<typename U>
   std::size_t          capacity()const noexcept
                          {return impl<U>().nv_capacity();}
-  void                 shrink_to_fit(){filter(impl().shrink_to_fit());}
+  void                 shrink_to_fit()
+                         {guard g{*this};g.filter(impl().shrink_to_fit());}
   template<typename U>
-  void                 shrink_to_fit(){filter(impl<U>().nv_shrink_to_fit());}
+  void                 shrink_to_fit()
+  {
+    guard g{*this};
+    g.filter(impl<U>().nv_shrink_to_fit());
+  }
 
   template<typename U,typename Iterator,typename... Args>
   base_iterator emplace(Iterator it,Args&&... args)
   {
-    return filter(impl<U>().nv_emplace(it,std::forward<Args>(args)...));
+    guard g{*this};
+    return g.filter(impl<U>().nv_emplace(it,std::forward<Args>(args)...));
   }
 
   template<typename U,typename... Args>
   base_iterator emplace_back(Args&&... args)
   {
-    return filter(impl<U>().nv_emplace_back(std::forward<Args>(args)...));
+    guard g{*this};
+    return g.filter(impl<U>().nv_emplace_back(std::forward<Args>(args)...));
   }
 
   template<typename T>
   base_iterator push_back(const T& x)
   {
-    return filter(impl().push_back(subaddress(x)));
+    guard g{*this};
+    return g.filter(impl().push_back(subaddress(x)));
   }
 
   template<
@@ -152,26 +162,30 @@ public:
   >
   base_iterator push_back(T&& x)
   {
-    return filter(impl().push_back_move(subaddress(x)));
+    guard g{*this};
+    return g.filter(impl().push_back_move(subaddress(x)));
   }
 
   template<typename U>
   base_iterator push_back_terminal(U&& x)
   {
-    return filter(
+    guard g{*this};
+    return g.filter(
       impl<typename std::decay<U>::type>().nv_push_back(std::forward<U>(x)));
   }
 
   template<typename T>
   base_iterator insert(const_base_iterator it,const T& x)
   {
-    return filter(impl().insert(it,subaddress(x)));
+    guard g{*this};
+    return g.filter(impl().insert(it,subaddress(x)));
   }
 
   template<typename U,typename T>
   base_iterator insert(const_iterator<U> it,const T& x)
   {
-    return filter(
+    guard g{*this};
+    return g.filter(
       impl<U>().nv_insert(it,*static_cast<const U*>(subaddress(x))));
   }
 
@@ -183,7 +197,8 @@ public:
   >
   base_iterator insert(const_base_iterator it,T&& x)
   {
-    return filter(impl().insert_move(it,subaddress(x)));
+    guard g{*this};
+    return g.filter(impl().insert_move(it,subaddress(x)));
   }
 
   template<
@@ -194,14 +209,16 @@ public:
   >
   base_iterator insert(const_iterator<U> it,T&& x)
   {
-    return filter(
+    guard g{*this};
+    return g.filter(
       impl<U>().nv_insert(it,std::move(*static_cast<U*>(subaddress(x)))));
   }
 
   template<typename InputIterator>
   base_iterator insert(InputIterator first,InputIterator last)
   {
-    return filter(
+    guard g{*this};
+    return g.filter(
       impl<typename std::iterator_traits<InputIterator>::value_type>().
         nv_insert(first,last));
   }
@@ -220,41 +237,48 @@ public:
   base_iterator insert(
     const_iterator<U> it,InputIterator first,InputIterator last)
   {
-    return filter(impl<U>().nv_insert(it,first,last));
+    guard g{*this};
+    return g.filter(impl<U>().nv_insert(it,first,last));
   }
 
   base_iterator erase(const_base_iterator it)
   {
-    return filter(impl().erase(it));
+    guard g{*this};
+    return g.filter(impl().erase(it));
   }
 
   template<typename U>
   base_iterator erase(const_iterator<U> it)
   {
-    return filter(impl<U>().nv_erase(it));
+    guard g{*this};
+    return g.filter(impl<U>().nv_erase(it));
   }
 
   base_iterator erase(const_base_iterator f,const_base_iterator l)
   {
-    return filter(impl().erase(f,l));
+    guard g{*this};
+    return g.filter(impl().erase(f,l));
   }
 
   template<typename U>
   base_iterator erase(const_iterator<U> f,const_iterator<U> l)
   {
-    return filter(impl<U>().nv_erase(f,l));
+    guard g{*this};
+    return g.filter(impl<U>().nv_erase(f,l));
   }
 
   template<typename Iterator>
   base_iterator erase_till_end(Iterator f)
   {
-    return filter(impl().erase_till_end(f));
+    guard g{*this};
+    return g.filter(impl().erase_till_end(f));
   }
 
   template<typename Iterator>
   base_iterator erase_from_begin(Iterator l)
   {
-    return filter(impl().erase_from_begin(l));
+    guard g{*this};
+    return g.filter(impl().erase_from_begin(l));
   }
   
   void                 clear()noexcept{filter(impl().clear());}
@@ -303,6 +327,26 @@ private:
   void          filter(base_sentinel x){snt=x;}
   base_iterator filter(const range& x){snt=x.second;return x.first;}
 
+  /* when a backend op exits by exception, internal storage may have been
+   * reallocated or partially modified, so the sentinel needs be recalculated
+   */
+
+  class guard
+  {
+  public:
+    explicit guard(segment& x):x{x}{}
+    guard(const guard&)=delete;
+    guard& operator=(const guard&)=delete;
+    ~guard(){if(!done)x.set_sentinel();}
+
+    void          filter(base_sentinel y){x.filter(y);done=true;}
+    base_iterator filter(const range& y){done=true;return x.filter(y);}
+
+  private:
+    segment& x;
+    bool     done=false;
+  };
+
   segment_backend_unique_ptr pimpl;
   base_sentinel              snt;
 };
-- 
2.43.0


From cdb5bf99663f945b2305157c9b18575650b161a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:02 +0000
Subject: [PATCH 03/10] fix: support insertion of a segment's own elements in
 split_segment

The store was expanded before the element to insert was constructed, so
args referring to an element of the segment dangled when capacity was
exceeded. Insertion now relies on the store's own growth, which also makes
it fail without effect when memory is exhausted.
---
 .../poly_collection/detail/split_segment.hpp  | 119 +++++++++---------
 1 file changed, 60 insertions(+), 59 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 8b6cc0c..7811a65 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -15,6 +15,7 @@
 
 #include <boost/poly_collection/detail/segment_backend.hpp>
 #include <boost/poly_collection/detail/value_holder.hpp>
+#include <algorithm>
 #include <iterator>
 #include <memory>
 #include <new>
@@ -122,7 +123,8 @@ public:
   virtual std::size_t   max_size()const noexcept{return nv_max_size();}
   std::size_t           nv_max_size()const noexcept{return s.max_size()-1;}
   virtual std::size_t   capacity()const noexcept{return nv_capacity();}
-  std::size_t           nv_capacity()const noexcept{return s.capacity();}
+  std::size_t           nv_capacity()const noexcept
+                         {return (std::min)(s.capacity(),i.capacity()-1);}
 
   virtual base_sentinel reserve(std::size_t n){return nv_reserve(n);}
 
@@ -164,21 +166,16 @@ public:
   template<typename Iterator,typename... Args>
   range nv_emplace(Iterator p,Args&&... args)
   {
-    auto q=prereserve(p);
-    auto it=s.emplace(
-      iterator_from(q),
+    return store_emplace(
+      iterator_from(p),
       value_holder_emplacing_ctor,std::forward<Args>(args)...);
-    push_index_entry();
-    return range_from(it);
   }
 
   template<typename... Args>
   range nv_emplace_back(Args&&... args)
   {
-    prereserve();
-    s.emplace_back(value_holder_emplacing_ctor,std::forward<Args>(args)...);
-    push_index_entry();
-    return range_from(s.size()-1);
+    return store_emplace_back(
+      value_holder_emplacing_ctor,std::forward<Args>(args)...);
   }
 
   virtual range push_back(const_value_pointer x)
@@ -186,10 +183,7 @@ public:
 
   range nv_push_back(const Concrete& x)
   {
-    prereserve();
-    s.emplace_back(x);
-    push_index_entry();
-    return range_from(s.size()-1);
+    return store_emplace_back(x);
   }
 
   virtual range push_back_move(value_pointer x)
@@ -197,10 +191,7 @@ public:
 
   range nv_push_back(Concrete&& x)
   {
-    prereserve();
-    s.emplace_back(std::move(x));
-    push_index_entry();
-    return range_from(s.size()-1);
+    return store_emplace_back(std::move(x));
   }
 
   virtual range insert(const_base_iterator p,const_value_pointer x)
@@ -208,10 +199,7 @@ public:
 
   range nv_insert(const_iterator p,const Concrete& x)
   {
-    p=prereserve(p);
-    auto it=s.emplace(iterator_from(p),x);
-    push_index_entry();
-    return range_from(it);
+    return store_emplace(iterator_from(p),x);
   }
 
   virtual range insert_move(const_base_iterator p,value_pointer x)
@@ -219,10 +207,7 @@ public:
 
   range nv_insert(const_iterator p,Concrete&& x)
   {
-    p=prereserve(p);
-    auto it=s.emplace(iterator_from(p),std::move(x));
-    push_index_entry();
-    return range_from(it);
+    return store_emplace(iterator_from(p),std::move(x));
   }
 
   template<typename InputIterator>
@@ -325,34 +310,65 @@ private:
     build_index();
   }
 
-  void prereserve()
+  /* args may refer to an element of the segment (or to its index entry), so
+   * growth of the store is left to the insertion op itself and expansion of
+   * the index is prepared on the side.
+   */
+
+  template<typename... Args>
+  range store_emplace(store_iterator p,Args&&... args)
+  {
+    index ii{{},i.get_allocator()};
+    prereserve(ii);
+    auto data=s.data();
+    try{
+      p=s.emplace(p,std::forward<Args>(args)...);
+    }
+    catch(...){
+      if(ii.capacity())i.swap(ii);
+      rebuild_index();
+      throw;
+    }
+    update_index(ii,data);
+    return range_from(p);
+  }
+
+  template<typename... Args>
+  range store_emplace_back(Args&&... args)
   {
-    if(s.size()==s.capacity())expand();
+    index ii{{},i.get_allocator()};
+    prereserve(ii);
+    auto data=s.data();
+    s.emplace_back(std::forward<Args>(args)...);
+    update_index(ii,data);
+    return range_from(s.size()-1);
   }
 
-  const_base_iterator prereserve(const_base_iterator p)
+  /* if i has no room for an additional entry, makes it in ii */
+
+  void prereserve(index& ii)const
   {
-    if(s.size()==s.capacity()){
-      auto n=p-i.data();
-      expand();
-      return const_base_iterator{i.data()+n};
+    std::size_t n=s.size();
+    if(i.capacity()<n+2){
+      ii.reserve(n<=1||(s.max_size()-1-n)/2<n?n+2:n+n/2+1);
     }
-    else return p;
   }
 
-  const_iterator prereserve(const_iterator p)
+  /* to be called after insertion of one element */
+
+  void update_index(index& ii,const store_value_type* data)
   {
-    if(s.size()==s.capacity()){
-      auto n=p-const_concrete_ptr(s.data());
-      expand();
-      return const_concrete_ptr(s.data())+n;
+    if(ii.capacity())i.swap(ii);
+    else if(s.data()==data){
+      push_index_entry();
+      return;
     }
-    else return p;
+    rebuild_index();
   }
 
   const_iterator prereserve(const_iterator p,std::size_t m)
   {
-    if(s.size()+m>s.capacity()){
+    if(s.size()+m>nv_capacity()){
       auto n=p-const_concrete_ptr(s.data());
       expand(m);
       return const_concrete_ptr(s.data())+n;
@@ -360,17 +376,6 @@ private:
     else return p;
   }
 
-  void expand()
-  {
-    std::size_t c=
-      s.size()<=1||(s.max_size()-1-s.size())/2<s.size()?
-        s.size()+1:
-        s.size()+s.size()/2;
-    i.reserve(c+1);
-    s.reserve(c);
-    rebuild_index();
-  }
-
   void expand(std::size_t m)
   {
     i.reserve(s.size()+m+1);
@@ -468,13 +473,9 @@ private:
     const_iterator p,InputIterator first,InputIterator last,
     std::input_iterator_tag)
   {
-    std::size_t n=0;
-    for(;first!=last;++first,++n,++p){
-      p=prereserve(p);
-      s.emplace(iterator_from(p),*first);
-      push_index_entry();
-    }
-    return range_from(iterator_from(p-n));
+    auto n=static_cast<std::size_t>(iterator_from(p)-s.begin()),m=n;
+    for(;first!=last;++first,++m)store_emplace(s.begin()+m,*first);
+    return range_from(n);
   }
 
   template<typename InputIterator>
-- 
2.43.0


From b62ec66da357c9b63bdcf42d3729337b3a0a2067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:01 +0000
Subject: [PATCH 04/10] fix: make split_segment throw length_error beyond
 max_size

reserve and insertion could fail with bad_alloc, as the index was expanded
first, and max_size did not take the index into account.
---
 .../poly_collection/detail/split_segment.hpp   | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 7811a65..de0e527 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -19,6 +19,7 @@
 #include <iterator>
 #include <memory>
 #include <new>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -121,7 +122,8 @@ public:
   virtual std::size_t   size()const noexcept{return nv_size();}
   std::size_t           nv_size()const noexcept{return s.size();}
   virtual std::size_t   max_size()const noexcept{return nv_max_size();}
-  std::size_t           nv_max_size()const noexcept{return s.max_size()-1;}
+  std::size_t           nv_max_size()const noexcept
+                         {return (std::min)(s.max_size(),i.max_size())-1;}
   virtual std::size_t   capacity()const noexcept{return nv_capacity();}
   std::size_t           nv_capacity()const noexcept
                          {return (std::min)(s.capacity(),i.capacity()-1);}
@@ -130,6 +132,7 @@ public:
 
   base_sentinel nv_reserve(std::size_t n)
   {
+    if(n>nv_max_size())throw_length_error();
     bool rebuild=n>s.capacity();
     i.reserve(n+1);
     s.reserve(n);
@@ -348,10 +351,14 @@ private:
 
   void prereserve(index& ii)const
   {
-    std::size_t n=s.size();
-    if(i.capacity()<n+2){
-      ii.reserve(n<=1||(s.max_size()-1-n)/2<n?n+2:n+n/2+1);
-    }
+    std::size_t n=s.size(),m=nv_max_size();
+    if(n>=m)throw_length_error();
+    if(i.capacity()<n+2)ii.reserve(n<=1||(m-n)/2<n?n+2:n+n/2+1);
+  }
+
+  static void throw_length_error()
+  {
+    throw std::length_error{"poly_collection: max_size exceeded"};
   }
 
   /* to be called after insertion of one element */
@@ -378,6 +385,7 @@ private:
 
   void expand(std::size_t m)
   {
+    if(m>nv_max_size()-s.size())throw_length_error();
     i.reserve(s.size()+m+1);
     s.reserve(s.size()+m);
     rebuild_index();
-- 
2.43.0


From 1976c68dd260d3ce60bc618cbded32ac681063f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:14 +0000
Subject: [PATCH 05/10] fix: leave the source valid when allocator-extended
 move construction fails

Segments already moved from were left in the source with an empty store and
a stale index.
---
 include/boost/poly_collection/detail/type_info_map.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index f983b82..9d8b78f 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -81,7 +81,8 @@ public:
   type_info_map(const type_info_map& x,const allocator_type& al):
     map{make(x.map,al)},cache{make<cache_type>(al)}
     {build_cache(x.cache);}
-  type_info_map(type_info_map&& x,const allocator_type& al):
+  type_info_map(type_info_map&& x,const allocator_type& al)
+  try:
     map{make(std::move(x.map),al)},
     cache{
       al==allocator_type{x.map.get_allocator()}&&x.map.empty()?
@@ -95,6 +96,13 @@ public:
     x.map.clear();
     x.cache.clear();
   }
+  catch(...){
+    /* some segments may have been moved from */
+
+    x.map.clear();
+    x.cache.clear();
+    throw;
+  }
 
   type_info_map& operator=(const type_info_map& x)
   {
-- 
2.43.0


From 6967b4e1c4beb1120ce8e92d79b62f5417632620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:49 +0000
Subject: [PATCH 06/10] fix: keep the type map cache on the propagated
 allocator

Copy assignment built the cache with the propagated allocator but then
move-assigned it, so that with POCCA and no POCMA the cache kept the old
allocator: memory came from an allocator that is not get_allocator() and a
later swap was undefined. A failed copy assignment had the same effect.
---
 .../boost/poly_collection/detail/type_info_map.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index 9d8b78f..77901ab 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -108,12 +108,12 @@ public:
   {
     if(this!=&x)try{
       map=x.map;
-      cache=make<cache_type>(map.get_allocator());
-      build_cache(x.cache);
+      cache=x.cache; /* propagates the allocator exactly as map does */
+      rebuild_cache();
     }
     catch(...){
       map.clear();
-      cache.clear();
+      reset_cache();
       throw;
     }
     return *this;
@@ -247,6 +247,14 @@ private:
     for(auto& p:cache)p.second=map.find(p.first);
   }
 
+  void reset_cache()
+  {
+    /* map's allocator may have been propagated and not yet cache's */
+
+    const auto empty=make<cache_type>(map.get_allocator());
+    cache=empty;
+  }
+
   map_type   map;
   cache_type cache;
 };
-- 
2.43.0


From ceef85e65d57902bbb22cb67e61e79f70d6a99eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:32 +0000
Subject: [PATCH 07/10] fix: restitute the carried element of adjacent_find and
 unique_copy

---
 include/boost/poly_collection/algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index 67c4fc3..ab737b7 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -244,7 +244,7 @@ struct adjacent_find_alg
   >
   LocalBaseIterator operator()(
     LocalIterator first,LocalIterator last,BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(first==last)return LocalBaseIterator{last};
@@ -955,7 +955,7 @@ struct unique_copy_alg
   OutputIterator operator()(
     LocalIterator first,LocalIterator last,
     OutputIterator res, BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(carry){
-- 
2.43.0


From cb0dbc1ba384e18d3875c78f0ef0b7baae42968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:37 +0000
Subject: [PATCH 08/10] fix: compare iterators of the same segment only in
 generic_find

---
 include/boost/poly_collection/algorithm.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index ab737b7..56f4c89 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -169,7 +169,10 @@ Iterator generic_find(
     std::forward<Args>(args)...);
   for(auto i:detail::segment_split(first,last)){
     auto it=alg(i);
-    if(it!=i.end())
+    /* it may belong in a previous segment (see adjacent_find) */
+    if(it!=i.end()||
+       traits::base_segment_info_iterator_from(it)!=
+         traits::base_segment_info_iterator_from(i.end()))
       return traits::iterator_from(
         it,traits::end_base_segment_info_iterator_from(last));
   }
-- 
2.43.0


From 11f637ad5c4119cd5af79b182bf400dd71b7bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:49 +0000
Subject: [PATCH 09/10] fix: grow geometrically on range insertion into split
 segments

Repeated insertion of short ranges at the end of a segment of a
function_collection or any_collection moved all its elements every time, as
capacity was expanded to just what the range needed.
---
 include/boost/poly_collection/detail/split_segment.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index de0e527..e1a9a2c 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -385,9 +385,11 @@ private:
 
   void expand(std::size_t m)
   {
-    if(m>nv_max_size()-s.size())throw_length_error();
-    i.reserve(s.size()+m+1);
-    s.reserve(s.size()+m);
+    std::size_t n=s.size(),r=nv_max_size()-n;
+    if(m>r)throw_length_error();
+    if(m<n/2&&n/2<=r)m=n/2; /* geometric growth */
+    i.reserve(n+m+1);
+    s.reserve(n+m);
     rebuild_index();
   }
 
-- 
2.43.0


From 7227bfc45cbf209928df43eaca96d00945f4e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:49 +0000
Subject: [PATCH 10/10] fix: do not rely on unary & to locate the target of a
 callable_wrapper

A callable with an overloaded operator& (std::addressof exists for a
reason, and the models use it) was bound to whatever that operator
returned, so invoking the element was undefined behaviour.
---
 include/boost/poly_collection/detail/callable_wrapper.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/callable_wrapper.hpp b/include/boost/poly_collection/detail/callable_wrapper.hpp
index 9b339db..111674b 100644
--- a/include/boost/poly_collection/detail/callable_wrapper.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper.hpp
@@ -13,6 +13,7 @@
 #pragma once
 #endif
 
+#include <boost/core/addressof.hpp>
 #include <boost/poly_collection/detail/is_invocable.hpp>
 #include <functional>
 #include <type_traits>
@@ -41,7 +42,8 @@ public:
       is_invocable_r<R,Callable,Args...>::value
     >::type* =nullptr
   >
-  explicit callable_wrapper(Callable& x)noexcept:pt{info(x)},px{&x}{}
+  explicit callable_wrapper(Callable& x)noexcept:
+    pt{info(x)},px{boost::addressof(x)}{}
   callable_wrapper(const callable_wrapper&)=default;
   callable_wrapper& operator=(const callable_wrapper&)=default;
 
-- 
2.43.0

