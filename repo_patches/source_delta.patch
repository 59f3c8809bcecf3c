From 89fc2243aa0234bb3e6d56476e535b8865d4c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 01/90] fix: copy_backward_fast must not copy more head bytes
 than the range has

---
 ualgobase.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ualgobase.cc b/ualgobase.cc
index 9561e6f..a9c4697 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -141,7 +141,7 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
     prefetch (result, 1, 0);
     size_t nBytes (distance (first, last));
     movsb_dir_down();
-    size_t nHeadBytes = uintptr_t(last) % 4;
+    size_t nHeadBytes = min (size_t(uintptr_t(last) % 4), nBytes);
     advance (last, -1);
     advance (result, -1);
     movsb (last, nHeadBytes, result);
-- 
2.43.0


From 2eb4893cb1b1384ec9cbdbb39a80deaf4abeb926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 02/90] fix: copy_backward_fast copied the last bytes from and
 to 3 bytes too low

---
 ualgobase.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ualgobase.cc b/ualgobase.cc
index a9c4697..efa43c7 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -151,6 +151,8 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
 	advance (last, -3);
 	advance (result, -3);
 	movsd (last, nMiddleBlocks, result);
+	advance (last, 3);
+	advance (result, 3);
 	nBytes %= 4;
     }
     movsb (last, nBytes, result);
-- 
2.43.0


From c0d423022ffd112f6ee365cb23a667d173cfc1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 03/90] fix: memblock::reserve must allocate at least size and
 what was asked for

---
 memblock.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index a90cc68..73f3471 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -79,17 +79,22 @@ void memblock::assign (const void* p, size_type n)
 ///
 void memblock::reserve (size_type newSize, bool bExact)
 {
-    if ((newSize += minimumFreeCapacity()) <= _capacity)
+    const size_type minFree = minimumFreeCapacity();
+    if (newSize + minFree <= _capacity)
 	return;
+    newSize = max (newSize, size()) + minFree;	// a linked block can be larger than requested
     pointer oldBlock (is_linked() ? nullptr : data());
     const size_t alignedSize (NextPow2 (newSize));
     if (!bExact)
-	newSize = alignedSize;
+	newSize = max (newSize, alignedSize);	// NextPow2 does not go past UINT32_MAX/2
     pointer newBlock = static_cast<pointer> (realloc (oldBlock, newSize));
     if (!newBlock)
 	throw bad_alloc (newSize);
-    if (!oldBlock & (cdata() != nullptr))
-	copy_n (cdata(), min (size() + 1, newSize), newBlock);
+    if (!oldBlock) {
+	copy_n (cdata(), size(), newBlock);
+	if (newSize > size())
+	    newBlock[size()] = 0;	// derived strings must remain terminated
+    }
     link (newBlock, size());
     _capacity = newSize;
 }
-- 
2.43.0


From cf9f2efb267c464bced40424ee2530d7552557b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 04/90] fix: lists, stacks and queues can be copied, assigned
 and swapped; a copied queue must not revive popped elements

---
 ulist.h  | 1 +
 uqueue.h | 5 +++--
 ustack.h | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ulist.h b/ulist.h
index a911529..81be45d 100644
--- a/ulist.h
+++ b/ulist.h
@@ -28,6 +28,7 @@ public:
     inline			list (size_type n, const T& v)	: vector<T> (n, v) {}
     inline			list (const list<T>& v)		: vector<T> (v) {}
     inline			list (const_iterator i1, const_iterator i2)	: vector<T> (i1, i2) {}
+    inline const list&		operator= (const list& v)	{ vector<T>::operator= (v); return *this; }
     inline size_type		size (void) const		{ return vector<T>::size(); }
     inline iterator		begin (void)			{ return vector<T>::begin(); }
     inline const_iterator	begin (void) const		{ return vector<T>::begin(); }
diff --git a/uqueue.h b/uqueue.h
index 5701e2c..a27204c 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -24,7 +24,8 @@ public:
 public:
     inline			queue (void)			: _storage(), _front (0) { }
     explicit inline		queue (const container_type& s)	: _storage (s), _front (0) { }
-    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (0) { }
+    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (s._front) { }
+    inline const queue&		operator= (const queue& s)	{ _storage = s._storage; _front = s._front; return *this; }
     inline size_type		size (void) const		{ return _storage.size() - _front; }
     inline bool			empty (void) const		{ return !size(); }
     inline reference		front (void)			{ return _storage [_front]; }
@@ -38,7 +39,7 @@ public:
 					_front = 0;
 				    }
 				}
-    inline void			swap (queue& v)			{ _storage.swap (v); swap (_front, v._front); }
+    inline void			swap (queue& v)			{ _storage.swap (v._storage); ::ustl::swap (_front, v._front); }
     inline bool			operator== (const queue& s) const	{ return _storage == s._storage && _front == s._front; }
     inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
 #if HAVE_CPP11
diff --git a/ustack.h b/ustack.h
index 0599842..c27f5cf 100644
--- a/ustack.h
+++ b/ustack.h
@@ -25,13 +25,14 @@ public:
     inline			stack (void)			: _storage () { }
     explicit inline		stack (const container_type& s)	: _storage (s) { }
     explicit inline		stack (const stack& s)		: _storage (s._storage) { }
+    inline const stack&		operator= (const stack& s)	{ _storage = s._storage; return *this; }
     inline bool			empty (void) const		{ return _storage.empty(); }
     inline size_type		size (void) const		{ return _storage.size(); }
     inline reference		top (void)			{ return _storage.back(); }
     inline const_reference	top (void) const		{ return _storage.back(); }
     inline void			push (const_reference v)	{ _storage.push_back (v); }
     inline void			pop (void)			{ _storage.pop_back(); }
-    inline void			swap (stack& v)			{ _storage.swap (v); }
+    inline void			swap (stack& v)			{ _storage.swap (v._storage); }
     inline bool			operator== (const stack& s) const	{ return _storage == s._storage; }
     inline bool			operator< (const stack& s) const	{ return _storage.size() < s._storage.size(); }
 #if HAVE_CPP11
-- 
2.43.0


From 407eff3b7207f1d37eb87d7e5a79360bd49a3601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 05/90] fix: set::emplace_hint compiles; multisets, queues and
 stacks can be copy-initialized and swapped

---
 umultiset.h | 4 ++--
 uqueue.h    | 2 +-
 uset.h      | 2 +-
 ustack.h    | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/umultiset.h b/umultiset.h
index b8e0272..5cc173b 100644
--- a/umultiset.h
+++ b/umultiset.h
@@ -35,7 +35,7 @@ public:
 public:
     inline			multiset (void)				: base_class() {}
     inline explicit		multiset (size_type n)			: base_class (n) {}
-    inline explicit		multiset (rcself_t v)			: base_class (v) {}
+    inline			multiset (rcself_t v)			: base_class (v) {}
     inline			multiset (const_iterator i1, const_iterator i2) : base_class() { insert (i1, i2); }
     inline rcself_t		operator= (rcself_t v)			{ base_class::operator= (v); return *this; }
     inline size_type		size (void) const			{ return base_class::size(); }
@@ -68,7 +68,7 @@ public:
     inline void			swap (multiset& v)			{ base_class::swap (v); }
 #if HAVE_CPP11
     using initlist_t = std::initializer_list<value_type>;
-    inline explicit		multiset (multiset&& v)			: base_class (move(v)) {}
+    inline			multiset (multiset&& v)			: base_class (move(v)) {}
     inline			multiset (initlist_t v)			: base_class() { insert (v.begin(), v.end()); }
     inline multiset&		operator= (multiset&& v)		{ base_class::operator= (move(v)); return *this; }
     inline iterator		insert (T&& v)				{ return base_class::insert (upper_bound(v), move(v)); }
diff --git a/uqueue.h b/uqueue.h
index a27204c..06d8bf1 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -24,7 +24,7 @@ public:
 public:
     inline			queue (void)			: _storage(), _front (0) { }
     explicit inline		queue (const container_type& s)	: _storage (s), _front (0) { }
-    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (s._front) { }
+    inline			queue (const queue& s)		: _storage (s._storage), _front (s._front) { }
     inline const queue&		operator= (const queue& s)	{ _storage = s._storage; _front = s._front; return *this; }
     inline size_type		size (void) const		{ return _storage.size() - _front; }
     inline bool			empty (void) const		{ return !size(); }
diff --git a/uset.h b/uset.h
index 51220d4..41b3c4b 100644
--- a/uset.h
+++ b/uset.h
@@ -73,7 +73,7 @@ public:
     inline			set (initlist_t v)			: base_class() { insert (v.begin(), v.end()); }
     inline set&			operator= (set&& v)			{ base_class::operator= (move(v)); return *this; }
     insertrv_t			insert (T&& v);
-    inline iterator		insert (const_iterator, T&& v)		{ return insert (move(v)); }
+    inline iterator		insert (const_iterator, T&& v)		{ return insert (move(v)).first; }
     inline void			insert (initlist_t v)			{ insert (v.begin(), v.end()); }
     template <typename... Args>
     inline insertrv_t		emplace (Args&&... args)		{ return insert (T(forward<Args>(args)...)); }
diff --git a/ustack.h b/ustack.h
index c27f5cf..26d7e70 100644
--- a/ustack.h
+++ b/ustack.h
@@ -24,7 +24,7 @@ public:
 public:
     inline			stack (void)			: _storage () { }
     explicit inline		stack (const container_type& s)	: _storage (s) { }
-    explicit inline		stack (const stack& s)		: _storage (s._storage) { }
+    inline			stack (const stack& s)		: _storage (s._storage) { }
     inline const stack&		operator= (const stack& s)	{ _storage = s._storage; return *this; }
     inline bool			empty (void) const		{ return _storage.empty(); }
     inline size_type		size (void) const		{ return _storage.size(); }
-- 
2.43.0


From 956717f8f65243ab30ba519d5c310a788dbdd770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 06/90] fix: queues with equal elements compare equal whatever
 was popped before

---
 uqueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uqueue.h b/uqueue.h
index 06d8bf1..8d9fa5c 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -40,7 +40,7 @@ public:
 				    }
 				}
     inline void			swap (queue& v)			{ _storage.swap (v._storage); ::ustl::swap (_front, v._front); }
-    inline bool			operator== (const queue& s) const	{ return _storage == s._storage && _front == s._front; }
+    inline bool			operator== (const queue& s) const	{ return size() == s.size() && equal (_storage.begin()+_front, _storage.end(), s._storage.begin()+s._front); }
     inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
 #if HAVE_CPP11
     inline			queue (queue&& v)		: _storage(move(v._storage)),_front(v._front) { v._front = 0; }
-- 
2.43.0


From 44073cf2ffb05af955d81ad5cb6fda499957e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 07/90] fix: priority_queue::swap and move assignment compile

---
 uheap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uheap.h b/uheap.h
index 2fbbf81..02f6d8a 100644
--- a/uheap.h
+++ b/uheap.h
@@ -143,7 +143,7 @@ public:
     constexpr const_reference	top (void) const	{ return _v.front(); }
     inline void			push (const_reference v){ _v.push_back (v); push_heap (_v.begin(), _v.end(), _c); }
     inline void			pop (void)		{ pop_heap (_v.begin(), _v.end()); _v.pop_back(); }
-    constexpr void		swap (priority_queue& v){ _v.swap (v._v); swap (_c, v._c); }
+    constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
     constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) {}
-- 
2.43.0


From 5aeaf5586084b71aa523daae824b67d2ad86aa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 08/90] fix: priority_queue constructed from a container orders
 its elements

---
 uheap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uheap.h b/uheap.h
index 02f6d8a..7b4c710 100644
--- a/uheap.h
+++ b/uheap.h
@@ -135,7 +135,7 @@ public:
     typedef typename container_type::const_iterator	const_iterator;
 public:
     constexpr explicit		priority_queue (const Comp& c = Comp()) : _v(), _c(c) {}
-    constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) {}
+    constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr			priority_queue (const_iterator f, const_iterator l, const Comp& c = Comp())
 				    : _v(f, l), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr size_type		size (void) const	{ return _v.size(); }
@@ -146,7 +146,7 @@ public:
     constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
-    constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) {}
+    constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) { make_heap (_v.begin(), _v.end(), _c); }
 				priority_queue (const_iterator f, const_iterator l, const Comp& c, container_type&& v)
 				    : _v(move(v)), _c(c) { _v.insert (_v.end(), f, l); make_heap (_v.begin(), _v.end(), _c); }
     constexpr priority_queue&	operator= (priority_queue&& v)	{ swap (v); return *this; }
-- 
2.43.0


From e6a15cb6440951d5e969a5907bba5989c1491ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 09/90] fix: priority_queue::pop uses the ordering of the queue

---
 uheap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uheap.h b/uheap.h
index 7b4c710..2a3ee67 100644
--- a/uheap.h
+++ b/uheap.h
@@ -142,7 +142,7 @@ public:
     constexpr bool			empty (void) const	{ return _v.empty(); }
     constexpr const_reference	top (void) const	{ return _v.front(); }
     inline void			push (const_reference v){ _v.push_back (v); push_heap (_v.begin(), _v.end(), _c); }
-    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end()); _v.pop_back(); }
+    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end(), _c); _v.pop_back(); }
     constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
-- 
2.43.0


From d312240635a9429cb24a1890bb7c9faf1f1684d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 10/90] fix: bitset::set of a bit range clears the bits that
 are zero in the value

---
 ubitset.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ubitset.h b/ubitset.h
index bdf0d8b..3c2afc8 100644
--- a/ubitset.h
+++ b/ubitset.h
@@ -80,12 +80,13 @@ public:
 			    br = val ? bOn : bOff;
 			}
 			// Sets the value of the bitrange \p first through \p last to the equivalent number of bits from \p v.
-    constexpr void	set (uoff_t first, uoff_t DebugArg(last), value_type v)
+    constexpr void	set (uoff_t first, uoff_t last, value_type v)
 			{
 			    assert (size_t (distance (first, last)) <= s_WordBits && "Bit ranges must be 32 bits or smaller");
 			    assert (first / s_WordBits == last / s_WordBits && "Bit ranges can not cross dword (4 byte) boundary");
 			    assert ((v & BitMask(value_type,distance(first,last))) == v && "The value is too large to fit in the given bit range");
-			    BitRef(first) |= v << (first % s_WordBits);
+			    value_type& br (BitRef (first));
+			    br = (br & ~(BitMask(value_type,distance(first,last)) << (first % s_WordBits))) | (v << (first % s_WordBits));
 			}
     			/// Clears the bit \p n.
     constexpr void	reset (uoff_t n)		{ set (n, false); }
-- 
2.43.0


From 2ad0a61ef896b8ab6293ae05c406d09dc3d67a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 11/90] fix: signed averages are not computed with the unsigned
 instruction

---
 simd.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/simd.h b/simd.h
index 74d97a1..9465cf8 100644
--- a/simd.h
+++ b/simd.h
@@ -343,9 +343,7 @@ MMX_DBL_PKOP2_SPEC(4,int32_t,bitwise_xor,pxor)
 
 #if __SSE2__ || __3DNOW__
 MMX_PKOP2_SPEC(8,uint8_t,fpavg,pavgb)
-MMX_PKOP2_SPEC(8,int8_t,fpavg,pavgb)
 MMX_PKOP2_SPEC(4,uint16_t,fpavg,pavgw)
-MMX_PKOP2_SPEC(4,int16_t,fpavg,pavgw)
 MMX_PKOP2_SPEC(8,uint8_t,fpmin,pminub)
 MMX_PKOP2_SPEC(8,uint8_t,fpmax,pmaxub)
 MMX_PKOP2_SPEC(4,int16_t,fpmax,pmaxsw)
-- 
2.43.0


From 1deeb36037c9949de46993c851f3c679bffeab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 12/90] fix: 4x4 float transform multiplies the second row by
 the second element

---
 ulaalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ulaalgo.h b/ulaalgo.h
index 4c69c0e..b727e5a 100644
--- a/ulaalgo.h
+++ b/ulaalgo.h
@@ -104,7 +104,7 @@ inline void _sse_transform_to_vector (float* result)
 	"movaps %%xmm0, %%xmm2		\n\t" // xmm1 = t[0 1 2 3]
 	"movaps %%xmm0, %%xmm3		\n\t" // xmm1 = t[0 1 2 3]
 	"shufps $0x00, %%xmm0, %%xmm0	\n\t" // xmm0 = t[0 0 0 0]
-	"shufps $0x66, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
+	"shufps $0x55, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
 	"shufps $0xAA, %%xmm2, %%xmm2	\n\t" // xmm2 = t[2 2 2 2]
 	"shufps $0xFF, %%xmm3, %%xmm3	\n\t" // xmm3 = t[3 3 3 3]
 	"mulps  %%xmm4, %%xmm0		\n\t" // xmm0 = t[0 0 0 0] * m[0 1 2 3]
-- 
2.43.0


From 2814277e04831e1af43917ce7029b933fe610ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 13/90] fix: sets and multisets find keys by their ordering

---
 umultiset.h | 2 +-
 uset.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/umultiset.h b/umultiset.h
index 5cc173b..b1ace1f 100644
--- a/umultiset.h
+++ b/umultiset.h
@@ -48,7 +48,7 @@ public:
     inline Comp			value_comp (void) const			{ return Comp(); }
     inline Comp			key_comp (void) const			{ return value_comp(); }
     inline void			assign (const_iterator i1, const_iterator i2)	{ clear(); insert (i1, i2); }
-    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
diff --git a/uset.h b/uset.h
index 41b3c4b..666e7cb 100644
--- a/uset.h
+++ b/uset.h
@@ -46,7 +46,7 @@ public:
     inline iterator		end (void)		{ return base_class::end(); }
     inline const_iterator	end (void) const	{ return base_class::end(); }
     inline const_iterator	cend (void) const	{ return base_class::cend(); }
-    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)	{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
-- 
2.43.0


From 12bace22c388460ecc57fe3b65d7f7a201f33081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 14/90] fix: shrinking a string keeps its terminator

---
 memblock.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index 73f3471..b63ca5e 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -104,10 +104,11 @@ void memblock::shrink_to_fit (void)
 {
     if (is_linked())
 	return;
-    pointer newBlock = static_cast<pointer> (realloc (begin(), size()));
-    if (!newBlock && size())
-	throw bad_alloc (size());
-    _capacity = size();
+    const size_type newCapacity = size() + minimumFreeCapacity();
+    pointer newBlock = static_cast<pointer> (realloc (begin(), newCapacity));
+    if (!newBlock && newCapacity)
+	throw bad_alloc (newCapacity);
+    _capacity = newCapacity;
     memlink::relink (newBlock, size());
 }
 
-- 
2.43.0


From 516e9286a5830aeab09df7dfe50e2ec2217dc9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 15/90] fix: a moved-from string is an empty string

---
 ustring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.h b/ustring.h
index c13eac2..2f55a68 100644
--- a/ustring.h
+++ b/ustring.h
@@ -218,7 +218,7 @@ public:
     static hashvalue_t		hash (const char* f1, const char* l1) noexcept;
 #if HAVE_CPP11
     using initlist_t = std::initializer_list<value_type>;
-    inline			string (string&& v)		: memblock (move(v)) {}
+    inline			string (string&& v)		: string() { swap (v); }
     inline			string (initlist_t v)		: memblock() { assign (v.begin(), v.size()); }
     inline string&		assign (string&& v)		{ swap (v); return *this; }
     inline string&		assign (initlist_t v)		{ return assign (v.begin(), v.size()); }
-- 
2.43.0


From 62c141fa30fb42e6ba94a200ba1139ab66d0414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 16/90] fix: replacing in a linked string does not write to the
 linked text

---
 ustring.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ustring.cc b/ustring.cc
index 261e47d..a57647b 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -230,6 +230,11 @@ string& string::replace (const_iterator first, const_iterator last, const_pointe
 	rp = memblock::erase (rp, bte - bti);
     else if (bte < bti)
 	rp = memblock::insert (rp, bti - bte);
+    else if (is_linked()) {
+	const size_type rpo = distance (begin(), first);
+	copy_link();
+	rp = iat (rpo);
+    }
     fill (rp, i1, distance(i1, i2), n);
     *end() = 0;
     return *this;
-- 
2.43.0


From 122be5089956526735eecf17c726700d9b8f5583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 17/90] fix: string formatting reports a conversion error

---
 ustring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.cc b/ustring.cc
index a57647b..715f050 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -336,7 +336,7 @@ int string::vformat (const char* fmt, va_list args)
     do {
 	__va_copy (args2, args);
 	rv = vsnprintf (data(), wcap = memblock::capacity(), fmt, args2);
-	resize (rv);
+	resize (max (rv, 0));
     } while (rv >= wcap);
     return rv;
 }
-- 
2.43.0


From e17e1ff23c0489a64822c07562f08d59cc1b2ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 18/90] fix: backward substring search finds matches at the
 beginning

---
 ustring.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index 715f050..9024acc 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -276,14 +276,13 @@ string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of substring \p s of size \p n before \p pos.
 string::pos_type string::rfind (const string& s, pos_type pos) const noexcept
 {
-    const_iterator d = iat(pos) - 1;
-    const_iterator sp = begin() + s.size() - 1;
-    const_iterator m = s.end() - 1;
-    for (long int i = 0; d > sp && size_type(i) < s.size(); -- d)
-	for (i = 0; size_type(i) < s.size(); ++ i)
-	    if (m[-i] != d[-i])
-		break;
-    return d > sp ? pos_type (distance (begin(), d + 2 - s.size())) : npos;
+    const size_type endi = distance (begin(), iat(pos));
+    if (s.empty() || s.size() > endi)
+	return npos;
+    for (pos_type i = endi - s.size() + 1; i-- > 0;)
+	if (memcmp (iat(i), s.c_str(), s.size()) == 0)
+	    return i;
+    return npos;
 }
 
 /// Returns the offset of the first occurence of one of characters in \p s of size \p n after \p pos.
-- 
2.43.0


From 7a6aec45705ceb54ececb64c14ad9ddc04e27f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 19/90] fix: backward searches of an empty string find nothing

---
 ustring.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index 9024acc..6821983 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -267,7 +267,7 @@ string::pos_type string::find (const string& s, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of character \p c before \p pos.
 string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; --i)
+    for (pos_type i = pos < size() ? pos+1 : size(); i-- > 0;)
 	if (at(i) == c)
 	    return i;
     return npos;
@@ -306,7 +306,7 @@ string::pos_type string::find_first_not_of (const string& s, pos_type pos) const
 /// Returns the offset of the last occurence of one of characters in \p s of size \p n before \p pos.
 string::pos_type string::find_last_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(size_type(pos),size()-1); i >= 0; -- i)
+    for (pos_type i = pos < size() ? pos+1 : size(); i-- > 0;)
 	if (s.find (at(i)) != npos)
 	    return i;
     return npos;
@@ -315,7 +315,7 @@ string::pos_type string::find_last_of (const string& s, pos_type pos) const noex
 /// Returns the offset of the last occurence of one of characters not in \p s of size \p n before \p pos.
 string::pos_type string::find_last_not_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; -- i)
+    for (pos_type i = pos < size() ? pos+1 : size(); i-- > 0;)
 	if (s.find (at(i)) == npos)
 	    return i;
     return npos;
-- 
2.43.0


From 53e763764827102a08466a76a881bb4caf660645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 20/90] fix: strings and text pointers compare by <= and >= as
 text

---
 ustring.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ustring.h b/ustring.h
index 2f55a68..d485d25 100644
--- a/ustring.h
+++ b/ustring.h
@@ -154,6 +154,8 @@ public:
     inline bool			operator< (value_type c) const		{ return 0 > compare (begin(), end(), &c, &c + 1); }
     inline bool			operator< (uvalue_type c) const		{ return operator< (value_type(c)); }
     inline bool			operator> (const_pointer s) const	{ return 0 < compare (s); }
+    inline bool			operator<= (const_pointer s) const	{ return 0 >= compare (s); }
+    inline bool			operator>= (const_pointer s) const	{ return 0 <= compare (s); }
     inline string&		insert (pos_type ip, size_type n, value_type c)				{ insert (iat(ip), n, c); return *this; }
     inline string&		insert (pos_type ip, const_pointer s)					{ insert (iat(ip), s, s + strlen(s)); return *this; }
     inline string&		insert (pos_type ip, const_pointer s, size_type nlen)			{ insert (iat(ip), s, s + nlen); return *this; }
-- 
2.43.0


From 620cf60621a0fe0b2fd212b7e5d963f5e9720cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 21/90] fix: seven byte characters are encoded with the right
 first bytes

---
 utf8.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utf8.h b/utf8.h
index 7fb47d0..a1dfe51 100644
--- a/utf8.h
+++ b/utf8.h
@@ -183,10 +183,11 @@ utf8out_iterator<Iterator,WChar>& utf8out_iterator<Iterator,WChar>::operator= (W
     if (nBytes > 1) {
 	// Write the bits 6 bits at a time, except for the first one,
 	// which may be less than 6 bits.
-	wchar_t shift = nBytes * 6;
-	*_i++ = ((v >> (shift -= 6)) & 0x3F) | (0xFF << (8 - nBytes));
+	const uint32_t uv = v;
+	unsigned shift = (nBytes - 1) * 6;
+	*_i++ = (shift < 32 ? uv >> shift : 0) | (0xFF << (8 - nBytes));
 	while (shift)
-	    *_i++ = ((v >> (shift -= 6)) & 0x3F) | 0x80;
+	    *_i++ = ((uv >> (shift -= 6)) & 0x3F) | 0x80;
     } else	// If only one byte, there is no header.
 	*_i++ = v;
     return *this;
-- 
2.43.0


From b1d36141b875ac22560effe4e118681665d70fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 22/90] fix: the distance between UTF-8 iterators counts whole
 characters

---
 utf8.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8.h b/utf8.h
index a1dfe51..e17c7ff 100644
--- a/utf8.h
+++ b/utf8.h
@@ -140,7 +140,7 @@ typename utf8in_iterator<Iterator,WChar>::difference_type
 utf8in_iterator<Iterator,WChar>::operator- (const utf8in_iterator<Iterator,WChar>& last) const
 {
     difference_type dist = 0;
-    for (Iterator first (last._i); first < _i; ++dist)
+    for (Iterator first (last.base()), end (base()); first < end; ++dist)
 	advance (first, Utf8SequenceBytes (*first));
     return dist;
 }
-- 
2.43.0


From 7c6e91d507c6a64069f1eaaaa2e6ee6720b48f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 23/90] fix: inserting a string inserts it once

---
 ustring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.h b/ustring.h
index d485d25..126b658 100644
--- a/ustring.h
+++ b/ustring.h
@@ -159,7 +159,7 @@ public:
     inline string&		insert (pos_type ip, size_type n, value_type c)				{ insert (iat(ip), n, c); return *this; }
     inline string&		insert (pos_type ip, const_pointer s)					{ insert (iat(ip), s, s + strlen(s)); return *this; }
     inline string&		insert (pos_type ip, const_pointer s, size_type nlen)			{ insert (iat(ip), s, s + nlen); return *this; }
-    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.c_str(), s.size()); return *this; }
+    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.begin(), s.end()); return *this; }
     inline string&		insert (pos_type ip, const string& s, size_type sp, size_type slen)	{ insert (iat(ip), s.iat(sp), s.iat(sp + slen)); return *this; }
     string&			insert (pos_type ip, size_type n, wvalue_type c);
     string&			insert (pos_type ip, const_wpointer first, const_wpointer last, size_type n = 1);
-- 
2.43.0


From 2d65e0f44a8914c49cda3c578d7d27e9a79f8c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 24/90] fix: formatting an empty text into an empty string ends

---
 ustring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.cc b/ustring.cc
index 6821983..9c7b058 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -336,7 +336,7 @@ int string::vformat (const char* fmt, va_list args)
 	__va_copy (args2, args);
 	rv = vsnprintf (data(), wcap = memblock::capacity(), fmt, args2);
 	resize (max (rv, 0));
-    } while (rv >= wcap);
+    } while (rv > 0 && rv >= wcap);
     return rv;
 }
 
-- 
2.43.0


From 72737236db82a74463f56722acdf7552af182ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 25/90] fix: a zero-terminated string without its zero is a
 shortfall

---
 mistream.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mistream.cc b/mistream.cc
index ea99d97..d48e207 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -48,8 +48,10 @@ void istream::text_write (ostringstream& os) const
 void istream::read_strz (string& str)
 {
     const_iterator zp = find (ipos(), end(), '\0');
-    if (zp == end())
-	zp = ipos();
+    if (zp == end()) {
+	verify_remaining ("read", "zero-terminated string", remaining() + 1);
+	return;
+    }
     const size_type strl = distance (ipos(), zp);
     str.assign (ipos(), strl);
     _pos += strl + 1;
-- 
2.43.0


From e75baeb167a5afdea2e52756f7f8797ed1c134de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 26/90] fix: seeking from the end counts as SEEK_END

---
 mistream.h | 2 +-
 mostream.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mistream.h b/mistream.h
index 4e32a1f..1d8c0a0 100644
--- a/mistream.h
+++ b/mistream.h
@@ -201,7 +201,7 @@ inline void istream::seekg (off_t p, seekdir d)
     switch (d) {
 	case beg:	seek (p); break;
 	case cur:	seek (pos() + p); break;
-	case ios_base::end:	seek (size() - p); break;
+	case ios_base::end:	seek (size() + p); break;
     }
 }
 
diff --git a/mostream.h b/mostream.h
index 7e8ecaf..744d2d0 100644
--- a/mostream.h
+++ b/mostream.h
@@ -179,7 +179,7 @@ inline void ostream::seekp (off_t p, seekdir d)
     switch (d) {
 	case beg:	seek (p); break;
 	case cur:	seek (pos() + p); break;
-	case ios_base::end:	seek (size() - p); break;
+	case ios_base::end:	seek (size() + p); break;
     }
 }
 
-- 
2.43.0


From 46828e497f03938489961f1f6b9ef63d45c316d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 27/90] fix: an output stream consumes an input only if it fits

---
 mistream.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mistream.cc b/mistream.cc
index d48e207..b890916 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -101,6 +101,8 @@ void ostream::write_strz (const char* str)
 /// Writes all available data from \p is.
 void ostream::read (istream& is)
 {
+    if (!verify_remaining ("write", "binary data", is.remaining()))
+	return;
     write (is.ipos(), is.remaining());
     is.seek (is.size());
 }
-- 
2.43.0


From e3dce80e1a74d60d5ab662779b31749b645759c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 28/90] fix: inserting into an output stream stays inside its
 buffer

---
 mistream.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mistream.cc b/mistream.cc
index b890916..b4a47b3 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -116,6 +116,8 @@ void ostream::text_write (ostringstream& os) const
 /// Inserts an empty area of \p size, at \p start.
 void ostream::insert (iterator start, size_type s)
 {
+    if (!verify_remaining ("insert", "bytes", s))
+	return;
     _pos += s;
     memlink::insert (start, s);
 }
-- 
2.43.0


From 034e2dd405bf433930153f3334886d32f6b580a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 29/90] fix: compound values are aligned in streams as their
 widest parts

---
 ulist.h     |  3 +++
 umap.h      |  3 +++
 umultimap.h |  2 ++
 uspecial.h  | 20 +++++++++++++++++++-
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/ulist.h b/ulist.h
index 81be45d..695280b 100644
--- a/ulist.h
+++ b/ulist.h
@@ -76,6 +76,9 @@ void list<T>::splice (iterator ip, list<T>& l, iterator first, iterator last)
     l.erase (first, last);
 }
 
+template <typename T>
+inline size_t stream_align_of (const list<T>&)	{ return stream_align_of (NullValue<vector<T> >()); }
+
 #if HAVE_CPP11
     template <typename T> using deque = list<T>;
 #else
diff --git a/umap.h b/umap.h
index 925bb68..bc23e10 100644
--- a/umap.h
+++ b/umap.h
@@ -165,4 +165,7 @@ inline void map<K,V,Comp>::erase (const_key_ref k)
 	erase (ip);
 }
 
+template <typename K, typename V, typename Comp>
+inline size_t stream_align_of (const map<K,V,Comp>&)	{ return stream_align_of (NullValue<vector<pair<K,V> > >()); }
+
 } // namespace ustl
diff --git a/umultimap.h b/umultimap.h
index 19d8837..08ab428 100644
--- a/umultimap.h
+++ b/umultimap.h
@@ -93,4 +93,6 @@ inline typename multimap<K,V,Comp>::const_iterator multimap<K,V,Comp>::find (con
     return (i < end() && Comp()(k, i->first)) ? end() : i;
 }
 
+template <typename K, typename V, typename Comp>
+inline size_t stream_align_of (const multimap<K,V,Comp>&)	{ return stream_align_of (NullValue<vector<pair<K,V> > >()); }
 } // namespace ustl
diff --git a/uspecial.h b/uspecial.h
index b59e320..8f6d674 100644
--- a/uspecial.h
+++ b/uspecial.h
@@ -104,13 +104,31 @@ unconst (const pair<typename Container::const_iterator, typename Container::cons
 
 //----{ vector }--------------------------------------------------------
 
+template <typename T1, typename T2>
+inline size_t stream_align_of (const pair<T1,T2>&);
+template <size_t N, typename T>
+inline size_t stream_align_of (const tuple<N,T>&);
+
 template <typename T>
 inline size_t stream_align_of (const vector<T>&)
 {
     typedef typename vector<T>::written_size_type written_size_type;
-    return stream_align_of (written_size_type());
+    return max (stream_align_of (written_size_type()), stream_align_of (NullValue<T>()));
 }
 
+template <typename T, typename Comp>
+inline size_t stream_align_of (const set<T,Comp>&)	{ return stream_align_of (NullValue<vector<T> >()); }
+template <typename T, typename Comp>
+inline size_t stream_align_of (const multiset<T,Comp>&)	{ return stream_align_of (NullValue<vector<T> >()); }
+
+//----{ pair, array }---------------------------------------------------
+
+template <typename T1, typename T2>
+inline size_t stream_align_of (const pair<T1,T2>&)
+{ return max (stream_align_of (NullValue<T1>()), stream_align_of (NullValue<T2>())); }
+template <typename T, size_t N>
+inline size_t stream_align_of (const array<T,N>&)	{ return stream_align_of (NullValue<T>()); }
+
 //----{ bitset }--------------------------------------------------------
 
 /// Writes bitset \p v into stream \p os.
-- 
2.43.0


From 6372c5fd7209ca5cc8883869f6a96052e3fd6239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 30/90] fix: system_error keeps its own copy of the operation

---
 ustdxept.cc | 5 ++++-
 ustdxept.h  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ustdxept.cc b/ustdxept.cc
index 7f0715c..eebaa72 100644
--- a/ustdxept.cc
+++ b/ustdxept.cc
@@ -63,10 +63,13 @@ system_error::system_error (const char* operation) noexcept
 : system_error (errno, system_category(), operation)
 #else
 : runtime_error (strerror (errno))
-,_operation (operation)
+,_operation ()
 ,_errno (errno)
 #endif
 {
+#if !HAVE_CPP14
+    try { _operation = operation; } catch (...) {}
+#endif
     set_format (xfmt_SystemError);
 }
 
diff --git a/ustdxept.h b/ustdxept.h
index 77d7003..74b8b48 100644
--- a/ustdxept.h
+++ b/ustdxept.h
@@ -156,7 +156,7 @@ public:
     inline const char*	Operation (void) const	{ return _operation.c_str(); }
 #if HAVE_CPP14
 			system_error (error_code ec, const char* operation) noexcept
-			    : runtime_error (ec.message()),_operation(operation),_errno(ec.value()) {}
+			    : runtime_error (ec.message()),_operation(),_errno(ec.value()) { try { _operation = operation; } catch (...) {} }
     inline              system_error (error_code ec, const string& operation) noexcept
 			    : system_error (ec, operation.c_str()) {}
     inline              system_error (int ec, const error_category& ecat, const char* operation)
-- 
2.43.0


From 4e829568b79fb968dc820a3dc42bc4324c6d88b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 31/90] fix: field widths of several digits and flags of
 numbers are formatted as set

---
 sostream.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sostream.cc b/sostream.cc
index f094b17..8bbc452 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -64,9 +64,12 @@ ostringstream& ostringstream::write (const void* buffer, size_type sz)
 /// Simple decimal encoding of \p n into \p fmt.
 inline char* ostringstream::encode_dec (char* fmt, uint32_t n) const noexcept
 {
+    char digits [10], *d = digits;
     do {
-	*fmt++ = '0' + n % 10;
+	*d++ = '0' + n % 10;
     } while (n /= 10);
+    while (d > digits)
+	*fmt++ = *--d;
     return fmt;
 }
 
@@ -74,11 +77,6 @@ inline char* ostringstream::encode_dec (char* fmt, uint32_t n) const noexcept
 void ostringstream::fmtstring (char* fmt, const char* typestr, bool bInteger) const
 {
     *fmt++ = '%';
-    if (_width) {
-	if (_fill == '0')
-	    *fmt++ = '0';
-	fmt = encode_dec (fmt, _width);
-    }
     if (_flags & left)
 	*fmt++ = '-';
     if (bInteger) {
@@ -86,7 +84,13 @@ void ostringstream::fmtstring (char* fmt, const char* typestr, bool bInteger) co
 	    *fmt++ = '+';
 	if (_flags & showbase)
 	    *fmt++ = '#';
-    } else {
+    }
+    if (_width) {
+	if (_fill == '0')
+	    *fmt++ = '0';
+	fmt = encode_dec (fmt, _width);
+    }
+    if (!bInteger) {
 	*fmt++ = '.';
 	fmt = encode_dec (fmt, _precision);
     }
-- 
2.43.0


From 5f67a3e60050b834de0f743b3c731c6501c27453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 32/90] fix: a text stream keeps what it wrote into a caller's
 buffer when it outgrows it

---
 sostream.cc | 13 +++++++++++++
 sostream.h  |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/sostream.cc b/sostream.cc
index 8bbc452..51a7a79 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -160,11 +160,24 @@ void ostringstream::link (void* p, size_type n) noexcept
     _buffer.link (p, n);
 }
 
+/// Sets the buffer to the text written so far.
+ostream& ostringstream::flush (void)
+{
+    ostream::flush();
+    if (_buffer.is_linked())
+	_buffer.link (begin(), pos());
+    else
+	_buffer.resize (pos());
+    return *this;
+}
+
 /// Attempts to create more output space. Returns remaining().
 ostringstream::size_type ostringstream::overflow (size_type n)
 {
     if (n > remaining() && (good() || n <= capacity() - pos())) {
 	const uoff_t oldPos (pos());
+	if (_buffer.is_linked())
+	    _buffer.link (begin(), size());
 	_buffer.reserve (oldPos + n, false);
 	_buffer.resize (oldPos + n);
 	ostream::link (_buffer);
diff --git a/sostream.h b/sostream.h
index 0c394c8..3161860 100644
--- a/sostream.h
+++ b/sostream.h
@@ -68,7 +68,7 @@ public:
     ostringstream&		write (const void* buffer, size_type size);
     inline ostringstream&	write (const cmemlink& buf)	{ return write (buf.begin(), buf.size()); }
     inline ostringstream&	seekp (off_t p, seekdir d =beg)	{ ostream::seekp(p,d); return *this; }
-    virtual ostream&		flush (void) override		{ ostream::flush(); _buffer.resize (pos()); return *this; }
+    virtual ostream&		flush (void) override;
     virtual size_type		overflow (size_type n = 1) override;
 protected:
     inline void			reserve (size_type n)		{ _buffer.reserve (n, false); }
-- 
2.43.0


From cb180f5d96dacc084a686d16b8c098ef86596a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 33/90] fix: a failed text stream counts only the text it has
 taken as written

---
 sostream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sostream.cc b/sostream.cc
index 51a7a79..7b8846e 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -138,7 +138,7 @@ int ostringstream::vformat (const char* fmt, va_list args)
 	if (0 > (rv = vsnprintf (ipos(), space, fmt, args2)))
 	    return rv;
     } while (rv >= space && rv < int(overflow(rv+1)));
-    SetPos (pos() + min (rv, space));
+    SetPos (pos() + (rv < space ? rv : max (space-1, 0)));
     return rv;
 }
 
-- 
2.43.0


From c3ca7978c46b21a6a5aac5e071db27adc415f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 34/90] fix: setf with a mask returns the previous flags

---
 sostream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sostream.h b/sostream.h
index 3161860..0cd9ff9 100644
--- a/sostream.h
+++ b/sostream.h
@@ -24,7 +24,7 @@ public:
     inline fmtflags		flags (fmtflags f)		{ fmtflags of (_flags); _flags = f; return of; }
     inline fmtflags		setf (fmtflags f)		{ fmtflags of (_flags); _flags |= f; return of; }
     inline fmtflags		unsetf (fmtflags f)		{ fmtflags of (_flags); _flags &= ~f; return of; }
-    inline fmtflags		setf (fmtflags f, fmtflags m)	{ unsetf(m); return setf(f); }
+    inline fmtflags		setf (fmtflags f, fmtflags m)	{ fmtflags of (_flags); _flags = (_flags & ~m) | f; return of; }
     void			iwrite (unsigned char v);
     void			iwrite (wchar_t v);
     inline void			iwrite (char v)			{ iwrite (static_cast<unsigned char>(v)); }
-- 
2.43.0


From 8827021df2adba354aacfb5fd04b00d00e2bbddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 35/90] fix: text input: setf with a mask returns the previous
 flags

---
 sistream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sistream.h b/sistream.h
index 9070bdf..96b74d9 100644
--- a/sistream.h
+++ b/sistream.h
@@ -29,7 +29,7 @@ public:
     inline fmtflags		flags (fmtflags f)		{ fmtflags of (_flags); _flags = f; return of; }
     inline fmtflags		setf (fmtflags f)		{ fmtflags of (_flags); _flags |= f; return of; }
     inline fmtflags		unsetf (fmtflags f)		{ fmtflags of (_flags); _flags &= ~f; return of; }
-    inline fmtflags		setf (fmtflags f, fmtflags m)	{ unsetf(m); return setf(f); }
+    inline fmtflags		setf (fmtflags f, fmtflags m)	{ fmtflags of (_flags); _flags = (_flags & ~m) | f; return of; }
     inline void			iread (char& v)			{ v = skip_delimiters(); }
     inline void			iread (unsigned char& v)	{ char c; iread(c); v = c; }
     void			iread (int& v);
-- 
2.43.0


From a36ed2eb192deedc3b9dc26f7b710b11125cca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 36/90] fix: reading a number stays within the text

---
 sistream.cc | 37 ++++++++++++++++++++++++++++++++-----
 sistream.h  |  1 +
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 4081cc8..ddb855e 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -86,6 +86,28 @@ template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base,
 
 } //}}} namespace
 
+/// Tries to make \p n bytes available without affecting the state if there are fewer.
+bool istringstream::lookahead (size_type n)
+{
+    if (remaining() >= n)
+	return true;
+    const iostate os = rdstate(), oe = exceptions();
+    ios_base::exceptions (goodbit);
+    try { underflow (n); } catch (...) { ios_base::exceptions (oe); throw; }
+    ios_base::exceptions (oe);
+    if (remaining() >= n)
+	return true;
+    ios_base::clear (os);
+    return false;
+}
+
+/// Returns true if \p c may be in a number, or precede it.
+static inline bool is_number_char (char c)
+{
+    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
+	|| c == '+' || c == '-' || c == '.' || c == ' ' || (c >= '\t' && c <= '\r');
+}
+
 template <typename T>
 inline void istringstream::read_number (T& v)
 {
@@ -93,11 +115,16 @@ inline void istringstream::read_number (T& v)
     if (!skip_delimiters())
 	return;
     ungetc();
-    iterator ilast;
-    do {
-	str_to_num<T> (ipos(), &ilast, (_flags & hex) ? 16 : (_flags & oct) ? 8 : 0, v);
-	skip (distance (ipos(), ilast));
-    } while (ilast == end() && underflow());
+    // The text may be neither terminated nor entirely in the buffer
+    size_type n = 0;
+    while (lookahead (n+1) && is_number_char (ipos()[n]))
+	++n;
+    const string text (ipos(), n);
+    issiter_t ilast;
+    str_to_num<T> (text.c_str(), &ilast, (_flags & hex) ? 16 : (_flags & oct) ? 8 : 0, v);
+    skip (distance (issiter_t(text.c_str()), ilast));
+    if (!remaining())
+	underflow();
 }
 
 void istringstream::iread (int& v)		{ read_number (v); }
diff --git a/sistream.h b/sistream.h
index 96b74d9..90dff81 100644
--- a/sistream.h
+++ b/sistream.h
@@ -71,6 +71,7 @@ public:
     inline int			sync (void)			{ skip (remaining()); return 0; }
 protected:
     char			skip_delimiters (void);
+    bool			lookahead (size_type n);
 private:
     inline void			read_strz (string&)	{ assert (!"Reading nul characters is not allowed from text streams"); }
     inline bool			is_delimiter (char c) const noexcept;
-- 
2.43.0


From 3fafad9fe51dd976df7b283b461569daf621e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 37/90] fix: unsigned numbers above the signed range are read

---
 sistream.cc | 8 ++++++++
 sistream.h  | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index ddb855e..0a9dcff 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -77,12 +77,18 @@ typedef istringstream::iterator issiter_t;
 template <typename T>
 inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, T& v)
     { v = strtol (i, const_cast<char**>(iend), base); }
+template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, unsigned long& v)
+    { v = strtoul (i, const_cast<char**>(iend), base); }
 template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned, double& v)
     { v = strtod (i, const_cast<char**>(iend)); }
 #if HAVE_LONG_LONG && SIZE_OF_LONG_LONG > SIZE_OF_LONG
 template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, long long& v)
     { v = strtoll (i, const_cast<char**>(iend), base); }
 #endif
+#if HAVE_LONG_LONG
+template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, unsigned long long& v)
+    { v = strtoull (i, const_cast<char**>(iend), base); }
+#endif
 
 } //}}} namespace
 
@@ -130,8 +136,10 @@ inline void istringstream::read_number (T& v)
 void istringstream::iread (int& v)		{ read_number (v); }
 void istringstream::iread (double& v)		{ read_number (v); } 
 void istringstream::iread (long& v)		{ read_number (v); }
+void istringstream::iread (unsigned long& v)	{ read_number (v); }
 #if HAVE_LONG_LONG
 void istringstream::iread (long long& v)	{ read_number (v); }
+void istringstream::iread (unsigned long long& v) { read_number (v); }
 #endif
 
 void istringstream::iread (wchar_t& v)
diff --git a/sistream.h b/sistream.h
index 90dff81..ea8a119 100644
--- a/sistream.h
+++ b/sistream.h
@@ -37,13 +37,13 @@ public:
     inline void			iread (short& v)		{ int c; iread(c); v = c; }
     inline void			iread (unsigned short& v)	{ int c; iread(c); v = c; }
     void			iread (long& v);
-    inline void			iread (unsigned long& v)	{ long c; iread(c); v = c; }
+    void			iread (unsigned long& v);
 #if HAVE_THREE_CHAR_TYPES
     void			iread (signed char& v)		{ char c; iread(c); v = c; }
 #endif
 #if HAVE_LONG_LONG
     void			iread (long long& v);
-    inline void			iread (unsigned long long& v)	{ long long c; iread(c); v = c; }
+    void			iread (unsigned long long& v);
 #endif
     void			iread (double& v);
     inline void			iread (float& v)		{ double c; iread(c); v = c; }
-- 
2.43.0


From 5574a840ec851d0d5ff0560d00a28301a05866ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:41 +0000
Subject: [PATCH 38/90] fix: reading a boolean consumes exactly the word

---
 sistream.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 0a9dcff..faeed7e 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -163,9 +163,13 @@ void istringstream::iread (bool& v)
     v = (c == 't' || c == '1');
     if (c != tf[v][0])
 	return;
-    for (const char* tv = tf[v]; c == *tv && (remaining() || underflow()); ++tv)
+    for (const char* tv = tf[v]; *++tv && (remaining() || underflow());) {
 	istream::iread (c);
-    ungetc();
+	if (c != *tv) {
+	    ungetc();
+	    break;
+	}
+    }
 }
 
 void istringstream::iread (string& v)
-- 
2.43.0


From 048b868c9561e4bea932dbac5b8520b70c441477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:43 +0000
Subject: [PATCH 39/90] fix: an escaped backslash does not escape what follows
 it

---
 sistream.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sistream.cc b/sistream.cc
index faeed7e..4c6d3c9 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -199,6 +199,8 @@ void istringstream::iread (string& v)
 		case '\\':	c = '\\'; break;
 	    };
 	    v.end()[-1] = c;
+	    if (c == '\\')
+		c = 0;	// does not escape the next one
 	} else {
 	    if (c == quoteChar)
 		break;
-- 
2.43.0


From c51d4c18bcbec60bfa4d084d072b12defe4aa9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 40/90] fix: get and peek at the end of the text return EOF and
 do not move

---
 sistream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sistream.h b/sistream.h
index ea8a119..a630742 100644
--- a/sistream.h
+++ b/sistream.h
@@ -55,13 +55,13 @@ public:
     inline string		str (void) const	{ string s; s.link (*this); return s; }
     inline istringstream&	str (const string& s)	{ link (s); return *this; }
     inline istringstream&	get (char& c)	{ return read (&c, sizeof(c)); }
-    inline int			get (void)	{ char c = EOF; get(c); return c; }
+    inline int			get (void)	{ char c; get(c); return _gcount ? int(c) : EOF; }
     istringstream&		get (char* p, size_type n, char delim = '\n');
     istringstream&		get (string& s, char delim = '\n');
     istringstream&		getline (char* p, size_type n, char delim = '\n');
     istringstream&		getline (string& s, char delim = '\n');
     istringstream&		ignore (size_type n, char delim = '\0');
-    inline char			peek (void)	{ char v = get(); ungetc(); return v; }
+    inline char			peek (void)	{ char v = get(); if (_gcount) ungetc(); return v; }
     inline istringstream&	unget (void)	{ ungetc(); return *this; }
     inline void			set_delimiters (const char* delimiters);
     istringstream&		read (void* buffer, size_type size);
-- 
2.43.0


From 78a0454ed0468ad32ecb0e3b1b7978d333116eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:50 +0000
Subject: [PATCH 41/90] fix: reading text into an empty buffer writes nothing

---
 sistream.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sistream.cc b/sistream.cc
index 4c6d3c9..8cf1fe9 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -222,6 +222,8 @@ istringstream& istringstream::read (void* buffer, size_type sz)
 istringstream& istringstream::get (char* p, size_type n, char delim)
 {
     _gcount = 0;
+    if (!n)
+	return *this;
     for (char c = 0, *pend = p+n-1; p < pend && (remaining() || underflow()); ++p, ++_gcount) {
 	istream::iread (c);
 	if (c == delim) {
-- 
2.43.0


From 88e814795030610e15d1132e9aff1731fcbd3cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:53 +0000
Subject: [PATCH 42/90] fix: ignore counts the characters it skips

---
 sistream.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 8cf1fe9..6b14ae9 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -276,9 +276,13 @@ istringstream& istringstream::getline (char* p, size_type n, char delim)
 /// Extract until \p delim or \p n chars have been read.
 istringstream& istringstream::ignore (size_type n, char delim)
 {
-    _gcount = n;
-    while (n-- && (remaining() || underflow()) && get() != delim) {}
-    _gcount -= n;
+    _gcount = 0;
+    for (char c = 0; _gcount < n && (remaining() || underflow());) {
+	istream::iread (c);
+	++_gcount;
+	if (c == delim)
+	    break;
+    }
     return *this;
 }
 
-- 
2.43.0


From ddf1a03cf78c3f5f92700dad3baaa1cb045be799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:44 +0000
Subject: [PATCH 43/90] fix: a descriptor is closed exactly once

---
 fstream.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index 37e9cc5..173026d 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -64,12 +64,16 @@ void fstream::set_and_throw (iostate s, const char* op)
 void fstream::attach (int nfd, const char* filename)
 {
     assert (filename && "Don't do that");
+    const int ofd (_fd), openErrno (errno);
     _filename = filename;
+    _fd = nfd;
     clear (goodbit);
-    if (nfd < 0)
+    if (ofd >= 0 && ofd != nfd && ::close (ofd) && errno != EINTR)
+	set_and_throw (badbit | failbit, "close");
+    if (nfd < 0) {
+	errno = openErrno;
 	set_and_throw (badbit, "open");
-    close();
-    _fd = nfd;
+    }
 }
 
 /// Detaches from the current fd.
@@ -118,12 +122,10 @@ void fstream::close (void)
 {
     if (_fd < 0)
 	return;	// already closed
-    while (::close(_fd)) {
-	if (errno != EINTR) {
-	    set_and_throw (badbit | failbit, "close");
-	    break;
-	}
-    }
+    const int ofd (_fd);
+    _fd = -1;	// it is released even when there is an error
+    if (::close (ofd) && errno != EINTR)
+	set_and_throw (badbit | failbit, "close");
     detach();
 }
 
-- 
2.43.0


From 9fdb3dfc68d3e3b45fb119294f7243ddcad43eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 44/90] fix: reading no bytes is not the end of the file

---
 fstream.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fstream.cc b/fstream.cc
index 173026d..8e8d1a6 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -156,6 +156,8 @@ off_t fstream::read (void* p, off_t n)
 /// Reads at most \p n bytes into \p p, stopping when it feels like it.
 off_t fstream::readsome (void* p, off_t n)
 {
+    if (!n)
+	return 0;
     ssize_t brn;
     do { brn = ::read (_fd, p, n); } while ((brn < 0) & (errno == EINTR));
     if (brn > 0)
-- 
2.43.0


From d9c2d9604f33c7052a622227375ec42a8e4e11bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:48 +0000
Subject: [PATCH 45/90] fix: a failed mmap returns an empty block

---
 fstream.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fstream.cc b/fstream.cc
index 8e8d1a6..3c66b3c 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -246,8 +246,10 @@ void fstream::set_nonblock (bool v) noexcept
 memlink fstream::mmap (off_t n, off_t offset)
 {
     void* result = ::mmap (nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, _fd, offset);
-    if (result == MAP_FAILED)
+    if (result == MAP_FAILED) {
 	set_and_throw (failbit, "mmap");
+	return memlink();
+    }
     return memlink (result, n);
 }
 
-- 
2.43.0


From 31b4b3c01d8c41dc1810bb989d392afdcb862e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:53 +0000
Subject: [PATCH 46/90] fix: set_nonblock reports its failure once, as
 requested

---
 fstream.cc | 6 ++++--
 fstream.h  | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index 3c66b3c..f3f1ae7 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -232,9 +232,11 @@ int fstream::fcntl (const char* rname, int request, long argument)
     return rv;
 }
 
-void fstream::set_nonblock (bool v) noexcept
+void fstream::set_nonblock (bool v)
 {
-    int curf = max (0, fcntl (FCNTLID (F_GETFL)));
+    int curf = fcntl (FCNTLID (F_GETFL));
+    if (curf < 0)
+	return;
     if (v) curf |=  O_NONBLOCK;
     else   curf &= ~O_NONBLOCK;
     fcntl (FCNTLID (F_SETFL), curf);
diff --git a/fstream.h b/fstream.h
index 1f973b8..cd27fd4 100644
--- a/fstream.h
+++ b/fstream.h
@@ -44,7 +44,7 @@ public:
     int			fcntl (const char* rname, int request, long argument = 0);
     inline int		fcntl (const char* rname, int request, int argument)	{ return fstream::fcntl (rname, request, long(argument)); }
     inline int		fcntl (const char* rname, int request, void* argument)	{ return fstream::fcntl (rname, request, intptr_t(argument)); }
-    void		set_nonblock (bool v = true) noexcept;
+    void		set_nonblock (bool v = true);
 #if HAVE_SYS_MMAN_H
     memlink		mmap (off_t n, off_t offset = 0);
     void		munmap (memlink& l);
-- 
2.43.0


From 7eca67a09737ac86fc1ffbeee1c369d4b5d1f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 47/90] fix: ofstream reports failed writes and writes nothing
 twice after one

---
 ofstream.cc | 26 +++++++++++++++++++++-----
 ofstream.h  |  2 ++
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index fb99918..475d113 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -5,6 +5,7 @@
 
 #include "ofstream.h"
 #include "ustring.h"
+#include "ustdxept.h"
 #include "uexception.h"
 #include <stdio.h>
 
@@ -62,10 +63,27 @@ void ofstream::close (void)
 /// Flushes the buffer to the file.
 ostream& ofstream::flush (void)
 {
-    while (good() && pos() && overflow (capacity())) {}
+    while (good() && pos())
+	write_buffer();
     return *this;
 }
 
+/// Writes the buffer to the file, keeping what the file would not take.
+void ofstream::write_buffer (void)
+{
+    // No exceptions until it is known how much has been written.
+    const iostate fileExceptions = _file.ios_base::exceptions();
+    _file.exceptions (goodbit);
+    const size_type btw = pos(), bw = _file.write (cdata(), btw);
+    erase (begin(), bw);
+    _file.exceptions (fileExceptions);
+    if (!_file.good() && set_and_throw (_file.rdstate())) {
+	if (_file.eof())
+	    throw stream_bounds_exception ("write", _file.name(), _file.pos() - bw, btw, bw);
+	throw file_exception ("write", _file.name());
+    }
+}
+
 /// Seeks to \p p based on \p d.
 ofstream& ofstream::seekp (off_t p, seekdir d)
 {
@@ -78,10 +96,8 @@ ofstream& ofstream::seekp (off_t p, seekdir d)
 /// Called when more buffer space (\p n bytes) is needed.
 ofstream::size_type ofstream::overflow (size_type n)
 {
-    if (_file.good() && n > capacity() - pos()) {
-	size_type bw = _file.write (cdata(), pos());
-	erase (begin(), bw);
-    }
+    if (_file.good() && n > capacity() - pos())
+	write_buffer();
     return ostringstream::overflow (n);
 }
 
diff --git a/ofstream.h b/ofstream.h
index 413ba5a..4412751 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -35,6 +35,8 @@ public:
     ofstream&		seekp (off_t p, seekdir d = beg);
     virtual ostream&	flush (void) override;
     virtual size_type	overflow (size_type n = 1) override;
+private:
+    void		write_buffer (void);
 private:
     fstream		_file;
 };
-- 
2.43.0


From 531823a40efaf8307c2f9d403c3c076d28158de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:14 +0000
Subject: [PATCH 48/90] fix: unwritten ofstream text never goes to another
 place or file

---
 ofstream.cc | 4 ++++
 ofstream.h  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/ofstream.cc b/ofstream.cc
index 475d113..b1be5d4 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -57,7 +57,9 @@ void ofstream::close (void)
 {
     clear (_file.rdstate());
     flush();
+    SetPos (0);	// there is no place to write what could not be written
     _file.close();
+    setstate (_file.rdstate());
 }
 
 /// Flushes the buffer to the file.
@@ -88,6 +90,8 @@ void ofstream::write_buffer (void)
 ofstream& ofstream::seekp (off_t p, seekdir d)
 {
     flush();
+    if (pos())
+	return *this;	// it belongs at the current position
     _file.seekp (p, d);
     clear (_file.rdstate());
     return *this;
diff --git a/ofstream.h b/ofstream.h
index 4412751..844d6fd 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -19,7 +19,7 @@ public:
     explicit		ofstream (int ofd);
     explicit		ofstream (const char* filename, openmode mode = out);
     virtual		~ofstream (void) noexcept;
-    inline void		open (const char* filename, openmode mode = out) { _file.open (filename, mode); clear (_file.rdstate()); }
+    inline void		open (const char* filename, openmode mode = out) { if (is_open()) close(); _file.open (filename, mode); clear (_file.rdstate()); }
     void		close (void);
     inline bool		is_open (void) const		{ return _file.is_open(); }
     inline iostate	exceptions (iostate v)		{ ostringstream::exceptions(v); return _file.exceptions(v); }
-- 
2.43.0


From e458ae680f82d44a4bf9d145e7ec8c42bd597ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 49/90] fix: ifstream::underflow keeps the unread part of the
 buffer

---
 ofstream.cc | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index b1be5d4..4111572 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -148,33 +148,36 @@ void ifstream::set_buffer_size (size_type sz)
 /// Reads at least \p n more bytes and returns available bytes.
 ifstream::size_type ifstream::underflow (size_type n)
 {
-    if (!_file.eof()) {
-	const ssize_t freeSpace = _buffer.size() - pos();
-	const ssize_t neededFreeSpace = max (n, _buffer.size() / 2);
-	const size_t oughtToErase = Align (max (0, neededFreeSpace - freeSpace));
-	const size_type nToErase = min (pos(), oughtToErase);
+    if (remaining() < n && _file.good()) {
+	const size_type freeSpace = _buffer.size() - pos();
+	const size_type neededFreeSpace = max (n, _buffer.size() / 2);
+	const size_type nToErase = freeSpace < neededFreeSpace ? pos() : 0;
 	_buffer.memlink::erase (_buffer.begin(), nToErase);
 	const uoff_t oldPos (pos() - nToErase);
 
-	size_type br = oldPos;
-	if (_buffer.size() - br < n) {
-	    _buffer.resize (br + neededFreeSpace);
-	    link (_buffer.data(), streamsize(0));
-	}
+	size_type br = oldPos + remaining();
+	if (_buffer.size() - oldPos < n)
+	    _buffer.resize (oldPos + neededFreeSpace);
 	if (_file.fd() == STDIN_FILENO)
 	    cout.flush();
 
+	// No exceptions until what has been read is in the stream.
+	const iostate fileExceptions = _file.ios_base::exceptions();
+	_file.exceptions (goodbit);
 	size_type brn = 1;
 	for (; br < oldPos + n && brn && _file.good(); br += brn)
 	    brn = _file.readsome (_buffer.begin() + br, _buffer.size() - br);
-	clear (_file.rdstate());
+	_file.exceptions (fileExceptions);
 
-	_buffer[br] = 0;
 	link (_buffer.data(), br);
 	seek (oldPos);
     }
-    if (_file.eof())
-	verify_remaining ("read", _file.name(), n);
+    if (remaining() < n) {
+	if (_file.eof())
+	    verify_remaining ("read", _file.name(), n);
+	else if (!_file.good() && set_and_throw (_file.rdstate()))
+	    throw file_exception ("read", _file.name());
+    }
     return remaining();
 }
 
-- 
2.43.0


From 1d817f43fe4eaa30404e8cbcaff9a7e06ed92b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:20 +0000
Subject: [PATCH 50/90] fix: ifstream seeks relative to what has been
 extracted, and drops the buffer when reopened

---
 ofstream.cc | 8 +++++---
 ofstream.h  | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index 4111572..842ab88 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -193,10 +193,12 @@ int ifstream::sync (void)
 /// Seeks to \p p based on \p d.
 ifstream& ifstream::seekg (off_t p, seekdir d)
 {
-    _buffer.clear();
-    link (_buffer);
+    if (d == cur)
+	p -= remaining();	// the file is ahead of the stream
+    link (_buffer.data(), streamsize(0));
+    _file.ios_base::clear();
     _file.seekg (p, d);
-    clear (_file.rdstate());
+    setstate (_file.rdstate());
     return *this;
 }
 
diff --git a/ofstream.h b/ofstream.h
index 844d6fd..11f550c 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -49,8 +49,8 @@ public:
 			ifstream (void);
     explicit		ifstream (int ifd);
     explicit		ifstream (const char* filename, openmode mode = in);
-    inline void		open (const char* filename, openmode mode = in)	{ _file.open (filename, mode); clear (_file.rdstate()); }
-    inline void		close (void)			{ _file.close(); clear (_file.rdstate()); }
+    inline void		open (const char* filename, openmode mode = in)	{ link (_buffer.data(), streamsize(0)); _file.open (filename, mode); clear (_file.rdstate()); }
+    inline void		close (void)			{ link (_buffer.data(), streamsize(0)); _file.close(); clear (_file.rdstate()); }
     inline bool		is_open (void) const		{ return _file.is_open(); }
     inline iostate	exceptions (iostate v)		{ istringstream::exceptions(v); return _file.exceptions(v); }
     inline void		setstate (iostate v)		{ istringstream::setstate(v); _file.setstate(v); }
-- 
2.43.0


From ede07a4bd52130646b8334d0c661f0bfa16831c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:21 +0000
Subject: [PATCH 51/90] fix: a read error is not the end of the file

---
 sistream.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 6b14ae9..d66d665 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -61,10 +61,8 @@ char istringstream::skip_delimiters (void)
 {
     char c = _delimiters[0];
     while (is_delimiter(c)) {
-	if (!remaining() && !underflow()) {
-	    verify_remaining ("read", "", 1);
+	if (!remaining() && !underflow())
 	    return 0;
-	}
 	istream::iread (c);
     }
     return c;
-- 
2.43.0


From d4adabfcfefec7500d78d7f7230313b21715f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 52/90] fix: getline extracts the delimiter also when it is yet
 to be read from the file

---
 sistream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sistream.cc b/sistream.cc
index d66d665..a8b663f 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -264,7 +264,7 @@ istringstream& istringstream::getline (string& s, char delim)
 istringstream& istringstream::getline (char* p, size_type n, char delim)
 {
     get (p, n, delim);
-    if (remaining() && ipos()[0] == delim) {
+    if (lookahead (1) && ipos()[0] == delim) {
 	skip (1);
 	++_gcount;
     }
-- 
2.43.0


From b673f2f4d1cb9af4fd87486d3878bcf6c9f19fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:08 +0000
Subject: [PATCH 53/90] fix: minmax with a comparison was ambiguous with the
 overload deleting it

---
 ualgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ualgo.h b/ualgo.h
index c95b699..e0b92b5 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -646,7 +646,7 @@ template <typename T, typename Compare>
 inline constexpr auto minmax (const T& a, const T& b, Compare comp)
     { return comp(a,b) ? make_pair<const T&,const T&>(a,b) : make_pair<const T&,const T&>(b,a); }
 template <typename T> constexpr void minmax (T&& a, T&& b) = delete;
-template <typename T, typename Compare> constexpr void minmax (const T& a, const T& b, Compare comp) = delete;
+template <typename T, typename Compare> constexpr void minmax (T&& a, T&& b, Compare comp) = delete;
 
 template <typename T>
 constexpr auto minmax (std::initializer_list<T> l)
-- 
2.43.0


From 3f6f5ad740dc1026dbb4c9665d8995255e9d615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:11 +0000
Subject: [PATCH 54/90] fix: find_end missed a match at the beginning of the
 range

---
 upredalgo.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/upredalgo.h b/upredalgo.h
index 1ba9e29..1e9a207 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -296,12 +296,16 @@ constexpr ForwardIterator1 search (ForwardIterator1 first1, ForwardIterator1 las
 template <typename ForwardIterator1, typename ForwardIterator2, typename BinaryPredicate>
 constexpr ForwardIterator1 find_end (ForwardIterator1 first1, ForwardIterator1 last1, ForwardIterator2 first2, ForwardIterator2 last2, BinaryPredicate comp)
 {
-    ForwardIterator1 s = last1 - distance(first2, last2);
-    for (; first1 < s; --s) {
-	ForwardIterator2 i = first2, j = s;
+    if (distance (first1, last1) < distance (first2, last2))
+	return last1;
+    for (ForwardIterator1 s = last1 - distance(first2, last2);; --s) {
+	ForwardIterator2 i = first2;
+	ForwardIterator1 j = s;
 	for (; i != last2 && comp(*j, *i); ++i, ++j) {}
 	if (i == last2)
 	    return s;
+	if (s == first1)
+	    break;
     }
     return last1;
 }
-- 
2.43.0


From af9e62e10d945672c020232dc291c90367033cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:15 +0000
Subject: [PATCH 55/90] fix: search_n did not find a run of no elements

---
 upredalgo.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/upredalgo.h b/upredalgo.h
index 1e9a207..70621b4 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -316,6 +316,8 @@ constexpr ForwardIterator1 find_end (ForwardIterator1 first1, ForwardIterator1 l
 template <typename Iterator, typename T, typename BinaryPredicate>
 constexpr Iterator search_n (Iterator first, Iterator last, size_t count, const T& value, BinaryPredicate comp)
 {
+    if (!count)
+	return first;
     size_t n = 0;
     for (; first != last; ++first) {
 	if (!comp (*first, value))
-- 
2.43.0


From b9e37107b045b7b9a6557398d3c917427a15b845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:18 +0000
Subject: [PATCH 56/90] fix: the difference of reverse, move and index
 iterators had the wrong sign

---
 uiterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index 1d82ce5..7401114 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -267,7 +267,7 @@ public:
     constexpr reverse_iterator	operator+ (size_t n) const { return reverse_iterator (_i - n); }
     constexpr reverse_iterator	operator- (size_t n) const { return reverse_iterator (_i + n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (i._i, _i); }
+    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (_i, i._i); }
 protected:
     Iterator			_i;
 };
@@ -310,7 +310,7 @@ public:
     constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i - n); }
     constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i + n); }
     constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
-    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (_i, i._i); }
+    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
     Iterator			_i;
 };
@@ -454,7 +454,7 @@ public:
     constexpr index_iterate	operator+ (size_t n) const { return index_iterate (_base, _i + n); }
     constexpr index_iterate	operator- (size_t n) const { return index_iterate (_base, _i - n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const index_iterate& i) const { return distance (_i, i._i); }
+    constexpr difference_type	operator- (const index_iterate& i) const { return distance (i._i, _i); }
 private:
     RandomAccessIterator	_base;
     IndexIterator		_i;
-- 
2.43.0


From 5eefe1eb08636a8916c139ea28bbc89b0c0dbf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:22 +0000
Subject: [PATCH 57/90] fix: move_iterator + n and - n went the wrong way

---
 uiterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index 7401114..dd1e4cb 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -307,8 +307,8 @@ public:
     constexpr move_iterator	operator-- (int)		{ move_iterator r (*this); -- _i; return r; }
     constexpr move_iterator&	operator+= (size_t n)		{ _i += n; return *this; }
     constexpr move_iterator&	operator-= (size_t n)		{ _i -= n; return *this; }
-    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i - n); }
-    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i + n); }
+    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i + n); }
+    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i - n); }
     constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
     constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
-- 
2.43.0


From 47f894273cc715c11e7ce46da7eea0c4ce548188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:26 +0000
Subject: [PATCH 58/90] fix: replace_copy returned nothing

---
 ualgo.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ualgo.h b/ualgo.h
index e0b92b5..148f98e 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -147,6 +147,7 @@ inline constexpr OutputIterator replace_copy (InputIterator first, InputIterator
 {
     for (; first != last; ++result, ++first)
         *result = (*first == old_value) ? new_value : *first;
+    return result;
 }
 
 /// Generate assigns the result of invoking gen, a function object that
-- 
2.43.0


From 64f4d93fa6c0e55e1dd67b7b60bba8410ba486e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:30 +0000
Subject: [PATCH 59/90] fix: replace_copy_if returned nothing

---
 upredalgo.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/upredalgo.h b/upredalgo.h
index 70621b4..0fd3398 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -120,6 +120,7 @@ constexpr OutputIterator replace_copy_if (InputIterator first, InputIterator las
 {
     for (; first != last; ++result, ++first)
         *result = pred(*first) ? new_value : *first;
+    return result;
 }
 
 /// Remove_copy_if copies elements from the range [first, last) to a range
-- 
2.43.0


From c83440b6e30e45e18e02bd681f3e7a3230045bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:34 +0000
Subject: [PATCH 60/90] fix: binary_search with a comparison denied values that
 are there and found greater ones

---
 upredalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upredalgo.h b/upredalgo.h
index 0fd3398..b686846 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -225,7 +225,7 @@ template <typename ForwardIterator, typename T, typename StrictWeakOrdering>
 constexpr bool binary_search (ForwardIterator first, ForwardIterator last, const T& value, StrictWeakOrdering comp)
 {
     ForwardIterator found = lower_bound (first, last, value, comp);
-    return found != last && !comp(*found, value);
+    return found != last && !comp(value, *found);
 }
 
 /// Returns the furthermost iterator i in [first,last) such that for
-- 
2.43.0


From 0b99a2d6bf23a5ee1a0cae3253760cda4a0a84fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:38 +0000
Subject: [PATCH 61/90] fix: merge and inplace_merge put equal elements of the
 second range first

---
 ualgo.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index 148f98e..80a4de9 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -241,10 +241,10 @@ OutputIterator merge (InputIterator1 first1, InputIterator1 last1,
 		      InputIterator2 first2, InputIterator2 last2, OutputIterator result)
 {
     for (; first1 != last1 && first2 != last2; ++result) {
-	if (*first1 < *first2)
-	    *result = *first1++;
-	else
+	if (*first2 < *first1)
 	    *result = *first2++;
+	else
+	    *result = *first1++;
     }
     if (first1 < last1)
 	return copy (first1, last1, result);
@@ -259,8 +259,10 @@ template <typename InputIterator>
 constexpr void inplace_merge (InputIterator first, InputIterator middle, InputIterator last)
 {
     for (; middle != last; ++first) {
-	while (*first < *middle)
+	while (first != middle && !(*middle < *first))
 	    ++ first;
+	if (first == middle)
+	    return;
 	reverse (first, middle);
 	reverse (first, ++middle);
     }
-- 
2.43.0


From af668b927d3fc9c29389a03c278f9a7e54c226a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:43 +0000
Subject: [PATCH 62/90] fix: sort used a default constructed comparison instead
 of the given one

---
 ualgo.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index 80a4de9..4870cf5 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -445,12 +445,22 @@ constexpr int qsort_adapter (const void* p1, const void* p2)
 /// \ingroup PredicateAlgorithms
 ///
 template <typename RandomAccessIterator, typename Compare>
-void sort (RandomAccessIterator first, RandomAccessIterator last, Compare)
+void sort (RandomAccessIterator first, RandomAccessIterator last, Compare comp)
 {
-    typedef typename iterator_traits<RandomAccessIterator>::value_type value_type;
-    typedef typename iterator_traits<RandomAccessIterator>::const_pointer const_pointer;
-    qsort (first, distance (first, last), sizeof(value_type),
-	   &qsort_adapter<const_pointer, Compare>);
+    // Heap sort; qsort can not be given comp.
+    for (size_t n = distance (first, last), i = n/2; n > 1;) {
+	if (i)
+	    --i;	// make the heap
+	else
+	    iter_swap (first, first + --n);
+	for (size_t j = i, c; (c = 2*j + 1) < n; j = c) {
+	    if (c + 1 < n && comp (first[c], first[c + 1]))
+		++c;
+	    if (!comp (first[j], first[c]))
+		break;
+	    iter_swap (first + j, first + c);
+	}
+    }
 }
 
 /// Sorts the container
-- 
2.43.0


From 16a2a361f98fcf800c97a90174eab7e82f1ed083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 63/90] fix: search for a longer range went past the end

---
 upredalgo.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/upredalgo.h b/upredalgo.h
index b686846..aa70490 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -280,8 +280,10 @@ inline void nth_element (RandomAccessIterator first, RandomAccessIterator, Rando
 template <typename ForwardIterator1, typename ForwardIterator2, typename BinaryPredicate>
 constexpr ForwardIterator1 search (ForwardIterator1 first1, ForwardIterator1 last1, ForwardIterator2 first2, ForwardIterator2 last2, BinaryPredicate comp)
 {
+    if (distance (first1, last1) < distance (first2, last2))
+	return last1;
     const ForwardIterator1 slast = last1 - distance(first2, last2) + 1;
-    for (; first1 < slast; ++first1) {
+    for (; first1 != slast; ++first1) {
 	ForwardIterator2 i = first2;
 	ForwardIterator1 j = first1;
 	for (; i != last2 && comp(*j, *i); ++i, ++j) {}
-- 
2.43.0


From d095a11a2510f4dc376db141b6dabee6b5c4bfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 64/90] fix: is_sorted and stable_sort ran off an empty reverse
 range

---
 ualgo.h     | 4 +++-
 upredalgo.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index 4870cf5..4b94136 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -480,7 +480,9 @@ inline void sort (RandomAccessIterator first, RandomAccessIterator last)
 template <typename RandomAccessIterator, typename Compare>
 constexpr void stable_sort (RandomAccessIterator first, RandomAccessIterator last, Compare comp)
 {
-    for (RandomAccessIterator j, i = first; ++i < last;) { // Insertion sort
+    if (first == last)
+	return;
+    for (RandomAccessIterator j, i = first; ++i != last;) { // Insertion sort
 	for (j = i; j-- > first && comp(*i, *j);) {}
 	if (++j != i) rotate (j, i, i + 1);
     }
diff --git a/upredalgo.h b/upredalgo.h
index aa70490..2e66a12 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -436,7 +436,9 @@ constexpr OutputIterator set_symmetric_difference (InputIterator1 first1, InputI
 template <typename ForwardIterator, typename StrictWeakOrdering>
 constexpr bool is_sorted (ForwardIterator first, ForwardIterator last, StrictWeakOrdering comp)
 {
-    for (ForwardIterator i = first; ++i < last; ++first)
+    if (first == last)
+	return true;
+    for (ForwardIterator i = first; ++i != last; ++first)
 	if (comp (*i, *first))
 	    return false;
     return true;
-- 
2.43.0


From c01b25e93b3e5e838d978b88f158ae9d412d81fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 65/90] fix: copy_backward of bytes returned the end of the
 result

---
 ualgobase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ualgobase.h b/ualgobase.h
index 1d9b28a..fbdd938 100644
--- a/ualgobase.h
+++ b/ualgobase.h
@@ -200,7 +200,7 @@ template <>
 inline uint8_t* copy_backward (const uint8_t* first, const uint8_t* last, uint8_t* result)
 {
     copy_backward_fast (first, last, result);
-    return result;
+    return result - (last - first);
 }
 
 template <typename T>
-- 
2.43.0


From 74c7ac9a697f58b6a9e4fce4d55440a3c74bfe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 66/90] fix: shared_ptr could not be copy assigned nor tell its
 use count

---
 umemory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/umemory.h b/umemory.h
index 13ec13a..609db81 100644
--- a/umemory.h
+++ b/umemory.h
@@ -178,7 +178,7 @@ public:
     inline			shared_ptr (shared_ptr&& p)	: _p (p._p) { p._p = nullptr; }
     inline			shared_ptr (const shared_ptr& p): _p (p._p) { if (_p) ++_p->refs; }
     inline			~shared_ptr (void)		{ reset(); }
-    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs : 0; }
+    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs.load() : 0; }
     inline constexpr bool	unique (void) const		{ return use_count() == 1; }
     inline constexpr pointer	get (void) const		{ return _p ? _p->p : nullptr; }
     void			reset (pointer p = nullptr) {
@@ -192,7 +192,7 @@ public:
     inline constexpr explicit	operator bool (void) const	{ return get(); }
     inline shared_ptr&		operator= (pointer p)		{ reset (p); return *this; }
     inline shared_ptr&		operator= (shared_ptr&& p)	{ swap (p); return *this; }
-    inline shared_ptr&		operator= (const shared_ptr& p)	{ reset(); _p = p; if (_p) ++_p->refs; return *this; }
+    inline shared_ptr&		operator= (const shared_ptr& p)	{ shared_ptr(p).swap (*this); return *this; }
     inline constexpr reference	operator* (void) const		{ return *get(); }
     inline constexpr pointer	operator-> (void) const		{ return get(); }
     inline constexpr reference	operator[] (size_t i) const	{ return get()[i]; }
-- 
2.43.0


From 9700ec6f5d03689e3a0e438ca2a75cfb8e6e95fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 67/90] fix: auto_ptr compared backward

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 609db81..e0cb5e5 100644
--- a/umemory.h
+++ b/umemory.h
@@ -51,7 +51,7 @@ public:
     inline pointer	operator-> (void) const		{ return _p; }
     inline bool		operator== (const pointer p) const	{ return _p == p; }
     inline bool		operator== (const auto_ptr<T>& p) const	{ return _p == p._p; }
-    inline bool		operator< (const auto_ptr<T>& p) const	{ return p._p < _p; }
+    inline bool		operator< (const auto_ptr<T>& p) const	{ return _p < p._p; }
 private:
     pointer		_p;
 };
-- 
2.43.0


From 569db42da5479cb1da5490497250728296d0dfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:49 +0000
Subject: [PATCH 68/90] fix: moving into a shared_ptr left its object with the
 source

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index e0cb5e5..0f4fe74 100644
--- a/umemory.h
+++ b/umemory.h
@@ -191,7 +191,7 @@ public:
     inline void			swap (shared_ptr& v)		{ ::ustl::swap (_p, v._p); }
     inline constexpr explicit	operator bool (void) const	{ return get(); }
     inline shared_ptr&		operator= (pointer p)		{ reset (p); return *this; }
-    inline shared_ptr&		operator= (shared_ptr&& p)	{ swap (p); return *this; }
+    inline shared_ptr&		operator= (shared_ptr&& p)	{ shared_ptr(move(p)).swap (*this); return *this; }
     inline shared_ptr&		operator= (const shared_ptr& p)	{ shared_ptr(p).swap (*this); return *this; }
     inline constexpr reference	operator* (void) const		{ return *get(); }
     inline constexpr pointer	operator-> (void) const		{ return get(); }
-- 
2.43.0


From 5b18eafeab366d7a6c44357dec8f9c28fbd57e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:54 +0000
Subject: [PATCH 69/90] fix: make gcd and lcm work on types narrower than int

---
 uutility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uutility.h b/uutility.h
index 3c13f29..1b3dc31 100644
--- a/uutility.h
+++ b/uutility.h
@@ -120,7 +120,7 @@ inline constexpr T sign (T v)
 template <typename T>
 constexpr T gcd (T a, T b)
 {
-    return b ? gcd(b,a%b) : absv(a);
+    return b ? gcd<T>(b,a%b) : absv(a);
 }
 
 /// Returns the least common multiple
-- 
2.43.0


From 5470836b7e4a4fdc65504bc2cf3540726edf7924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:58 +0000
Subject: [PATCH 70/90] fix: return the end of the sums from partial_sum, and
 give sumOp its arguments in order

---
 unumeric.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index fa9601b..ad9859b 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -71,9 +71,9 @@ template <typename InputIterator, typename OutputIterator>
 constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, OutputIterator result)
 {
     if (first < last)
-	*result = *first++;
-    while (first < last)
-	*++result = *first++ + *result;
+	*result++ = *first++;
+    for (; first < last; ++first, ++result)
+	*result = *(result - 1) + *first;
     return result;
 }
 
@@ -84,9 +84,9 @@ template <typename InputIterator, typename OutputIterator, typename BinaryOperat
 constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, OutputIterator result, BinaryOperation sumOp)
 {
     if (first < last)
-	*result = *first++;
-    while (first < last)
-	*++result = sumOp (*first++, *result);
+	*result++ = *first++;
+    for (; first < last; ++first, ++result)
+	*result = sumOp (*(result - 1), *first);
     return result;
 }
 
-- 
2.43.0


From 520f3ceea43b0ebda64bfa6bbcab81f11a768f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:02 +0000
Subject: [PATCH 71/90] fix: advance the input of adjacent_difference

---
 unumeric.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index ad9859b..04acf02 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -98,7 +98,7 @@ constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator
 {
     if (first < last)
 	*result++ = *first++;
-    while (first < last)
+    for (; first < last; ++first)
 	*result++ = *first - *(first - 1);
     return result;
 }
@@ -111,7 +111,7 @@ constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator
 {
     if (first < last)
 	*result++ = *first++;
-    while (first < last)
+    for (; first < last; ++first)
 	*result++ = differenceOp (*first, *(first - 1));
     return result;
 }
-- 
2.43.0


From d70067fe04681cd4b53438c22297fb332a87cadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:55 +0000
Subject: [PATCH 72/90] fix: return the number from postfix increment and
 decrement of an atomic

---
 uatomic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uatomic.h b/uatomic.h
index e030139..adf91b7 100644
--- a/uatomic.h
+++ b/uatomic.h
@@ -67,8 +67,8 @@ public:
 			    { return __atomic_xor_fetch (&_v, v, order); }
     inline		operator T (void) const	{ return load(); }
     inline atomic&	operator= (T v)		{ store(v); return *this; }
-    inline atomic	operator++ (int)	{ return fetch_add (1); }
-    inline atomic	operator-- (int)	{ return fetch_sub (1); }
+    inline T		operator++ (int)	{ return fetch_add (1); }
+    inline T		operator-- (int)	{ return fetch_sub (1); }
     inline atomic&	operator++ (void)	{ add_fetch (1); return *this; }
     inline atomic&	operator-- (void)	{ sub_fetch (1); return *this; }
     inline atomic&	operator+= (T v)	{ add_fetch (v); return *this; }
-- 
2.43.0


From 09dca290ad6f9e8a188c47506f1a1112a886e037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:00 +0000
Subject: [PATCH 73/90] fix: return the number an atomic operator made rather
 than the atomic

---
 uatomic.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/uatomic.h b/uatomic.h
index adf91b7..6f5547b 100644
--- a/uatomic.h
+++ b/uatomic.h
@@ -69,13 +69,13 @@ public:
     inline atomic&	operator= (T v)		{ store(v); return *this; }
     inline T		operator++ (int)	{ return fetch_add (1); }
     inline T		operator-- (int)	{ return fetch_sub (1); }
-    inline atomic&	operator++ (void)	{ add_fetch (1); return *this; }
-    inline atomic&	operator-- (void)	{ sub_fetch (1); return *this; }
-    inline atomic&	operator+= (T v)	{ add_fetch (v); return *this; }
-    inline atomic&	operator-= (T v)	{ sub_fetch (v); return *this; }
-    inline atomic&	operator&= (T v)	{ and_fetch (v); return *this; }
-    inline atomic&	operator|= (T v)	{  or_fetch (v); return *this; }
-    inline atomic&	operator^= (T v)	{ xor_fetch (v); return *this; }
+    inline T		operator++ (void)	{ return add_fetch (1); }
+    inline T		operator-- (void)	{ return sub_fetch (1); }
+    inline T		operator+= (T v)	{ return add_fetch (v); }
+    inline T		operator-= (T v)	{ return sub_fetch (v); }
+    inline T		operator&= (T v)	{ return and_fetch (v); }
+    inline T		operator|= (T v)	{ return  or_fetch (v); }
+    inline T		operator^= (T v)	{ return xor_fetch (v); }
 };
 #define ATOMIC_VAR_INIT	{0}
 
-- 
2.43.0


From f7c24f609e01a3a3bbf887bbb77521bcf9c7b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:05 +0000
Subject: [PATCH 74/90] fix: let move_iterator adapt iterators of any type

---
 uiterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index dd1e4cb..c5cfa62 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -299,7 +299,7 @@ public:
     constexpr bool		operator== (const move_iterator& iter) const	{ return _i == iter._i; }
     constexpr bool		operator< (const move_iterator& iter) const	{ return _i < iter._i; }
     constexpr Iterator		base (void) const		{ return _i; }
-    constexpr reference		operator* (void) const		{ return move(*_i); }
+    constexpr reference		operator* (void) const		{ return static_cast<reference>(*_i); }
     constexpr pointer		operator-> (void) const		{ return &*_i; }
     constexpr move_iterator&	operator++ (void)		{ ++_i; return *this; }
     constexpr move_iterator&	operator-- (void)		{ --_i; return *this; }
@@ -309,7 +309,7 @@ public:
     constexpr move_iterator&	operator-= (size_t n)		{ _i -= n; return *this; }
     constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i + n); }
     constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i - n); }
-    constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
+    constexpr reference		operator[] (uoff_t n) const	{ return *(*this + n); }
     constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
     Iterator			_i;
-- 
2.43.0


From 35c9a91a8e6eb95caeed1230461de72f517e99c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:10 +0000
Subject: [PATCH 75/90] fix: keep insert_iterator valid through *i++ = v

---
 uiterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index c5cfa62..d69d810 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -340,10 +340,10 @@ public:
 public:
     constexpr explicit		insert_iterator (Container& ctr, iterator ip) : _rctr (ctr), _ip (ip) {}
     inline insert_iterator&	operator= (typename Container::const_reference v)
-				    { _ip = _rctr.insert (_ip, v); return *this; }
+				    { _ip = _rctr.insert (_ip, v); ++_ip; return *this; }
     constexpr insert_iterator&	operator* (void)  { return *this; }
-    constexpr insert_iterator&	operator++ (void) { ++ _ip; return *this; }
-    constexpr insert_iterator	operator++ (int)  { insert_iterator prev (*this); ++_ip; return prev; }
+    constexpr insert_iterator&	operator++ (void) { return *this; }
+    constexpr insert_iterator&	operator++ (int)  { return *this; }
 protected:
     Container&			_rctr;
     iterator			_ip;
-- 
2.43.0


From d8be5b3ba2c1fa64fabd6627918dd7f17f47745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:48 +0000
Subject: [PATCH 76/90] fix: give the functor of a bound member function its
 result type

---
 ufunction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ufunction.h b/ufunction.h
index 328f517..724da93 100644
--- a/ufunction.h
+++ b/ufunction.h
@@ -315,7 +315,7 @@ MEM_FUN_T(mem_fun_ref,	const_mem_fun_ref_t, 	const T&,	(void) const,	.*)
 
 #define EXT_MEM_FUN_T(ClassName, HostType, FuncType) \
     template <class T, typename Ret, typename V> \
-    class ClassName : public unary_function<V,void> { \
+    class ClassName : public unary_function<V,Ret> { \
     public: \
 	typedef Ret (T::*func_t)(V) FuncType; \
     public: \
-- 
2.43.0


From e18103d50629aa1a46440b803101cd000f281628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:38 +0000
Subject: [PATCH 77/90] fix: let construct_at move from its argument

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 0f4fe74..b343a59 100644
--- a/umemory.h
+++ b/umemory.h
@@ -321,7 +321,7 @@ inline void construct_at (T* p, const T& value)
 ///
 template <typename T>
 inline void construct_at (T* p, T&& value)
-    { new (p) T (move<T>(value)); }
+    { new (p) T (move(value)); }
 #endif
 
 template <typename T>
-- 
2.43.0


From 81b14b232f27e871d49261fdcc591543c0179258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:24 +0000
Subject: [PATCH 78/90] fix: scale durations before narrowing the count

---
 uchrono.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index 5e986c4..23c1876 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -19,8 +19,10 @@ template <typename ToDuration, typename Rep, typename Period>
 struct __duration_cast_impl {
     using to_rep	= typename ToDuration::rep;
     using conv_ratio	= typename ratio_divide<Period, typename ToDuration::period>::type;
+    using from_rep	= typename tm::Select<numeric_limits<Rep>::is_integer, intmax_t, Rep>::Result;
+    using wide_rep	= typename tm::Select<numeric_limits<to_rep>::is_integer, from_rep, to_rep>::Result;
     static inline constexpr ToDuration cast (const duration<Rep, Period>& d)
-	{ return ToDuration (static_cast<to_rep>(d.count()) * conv_ratio::num / conv_ratio::den); }
+	{ return ToDuration (static_cast<to_rep>(static_cast<wide_rep>(static_cast<from_rep>(d.count())) * conv_ratio::num / conv_ratio::den)); }
 };
 
 /// Converts durations of different periods or representations
-- 
2.43.0


From 393799f67441c2621516ba4ec5c8178ed1f55a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:28 +0000
Subject: [PATCH 79/90] fix: let durations of different units be compared

---
 uchrono.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 23c1876..6ab9d66 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -98,25 +98,25 @@ struct duration {
     inline constexpr typename enable_if<
 		ratio_greater<ratio_divide<period,Period2>,ratio<1>>::value
 		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator== (const duration<rep,Period2>& v) const
+    bool>::type			operator== (const duration<Rep2,Period2>& v) const
 				    { return duration<Rep2,Period2>(*this) == v; }
     template <typename Rep2, typename Period2>
     inline constexpr typename enable_if<
 		ratio_less_equal<ratio_divide<period,Period2>,ratio<1>>::value
-		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator== (const duration<rep,Period2>& v) const
+		    && is_convertible<duration<Rep2,Period2>,duration>::value,
+    bool>::type			operator== (const duration<Rep2,Period2>& v) const
 				    { return operator== (duration(v)); }
     template <typename Rep2, typename Period2>
     inline constexpr typename enable_if<
 		ratio_greater<ratio_divide<period,Period2>,ratio<1>>::value
 		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator< (const duration<rep,Period2>& v) const
+    bool>::type			operator< (const duration<Rep2,Period2>& v) const
 				    { return duration<Rep2,Period2>(*this) < v; }
     template <typename Rep2, typename Period2>
     inline constexpr typename enable_if<
 		ratio_less_equal<ratio_divide<period,Period2>,ratio<1>>::value
-		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator< (const duration<rep,Period2>& v) const
+		    && is_convertible<duration<Rep2,Period2>,duration>::value,
+    bool>::type			operator< (const duration<Rep2,Period2>& v) const
 				    { return operator< (duration(v)); }
 
     inline void			read (istream& is)		{ is >> _r; }
-- 
2.43.0


From b38e715022119063a273f3bf85ad03308404710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:32 +0000
Subject: [PATCH 80/90] fix: carry correctly in hrtime_t arithmetic

---
 uchrono.h | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 6ab9d66..e7165a4 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -182,16 +182,16 @@ struct hrtime_t : public timespec {
     constexpr hrtime_t&		operator= (const hrtime_t&) = default;
     inline explicit constexpr	hrtime_t (const timespec& v)	: timespec(v){}
     inline constexpr		hrtime_t (time_t s, long ns)	: timespec{s,ns}{}
-    inline explicit constexpr	hrtime_t (intmax_t v)		: timespec{time_t(v/nano::den),time_t(v%nano::den)}{}
+    inline explicit constexpr	hrtime_t (intmax_t v)		: timespec{time_t(v/nano::den),time_t(v%nano::den)}{ carry(); }
     inline explicit constexpr	hrtime_t (float v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)}{}
     inline explicit constexpr	hrtime_t (double v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)}{}
     inline constexpr		operator intmax_t (void) const	{ return intmax_t(tv_sec)*nano::den + tv_nsec; }
     inline constexpr		operator float (void) const	{ return float(tv_nsec)/nano::den + tv_sec; }
     inline constexpr		operator double (void) const	{ return double(tv_nsec)/nano::den + tv_sec; }
     inline constexpr hrtime_t	operator+ (void) const		{ return *this; }
-    inline constexpr hrtime_t	operator- (void) const		{ return hrtime_t(-tv_sec,-tv_nsec); }
+    inline constexpr hrtime_t	operator- (void) const		{ hrtime_t r(-tv_sec,-tv_nsec); r.carry(); return r; }
     constexpr hrtime_t&		operator++ (void) {
-				    if (++tv_nsec > nano::den) {
+				    if (++tv_nsec >= nano::den) {
 					tv_nsec -= nano::den;
 					++tv_sec;
 				    }
@@ -208,11 +208,11 @@ struct hrtime_t : public timespec {
     inline constexpr hrtime_t	operator++ (int)		{ hrtime_t r(*this); operator++(); return r; }
     inline constexpr hrtime_t	operator-- (int)		{ hrtime_t r(*this); operator--(); return r; }
     constexpr hrtime_t&			operator+= (const hrtime_t& v) {
+				    tv_sec += v.tv_sec;
 				    if (nano::den <= (tv_nsec += v.tv_nsec)) {
 					tv_nsec -= nano::den;
 					++tv_sec;
 				    }
-				    tv_sec += v.tv_sec;
 				    return *this;
 				}
     constexpr hrtime_t&		operator-= (const hrtime_t& v) {
@@ -224,17 +224,21 @@ struct hrtime_t : public timespec {
 				    return *this;
 				}
     constexpr hrtime_t&		operator*= (intmax_t v) {
-				    tv_sec *= v;
-				    if (nano::den <= (tv_nsec *= v)) {
-					tv_sec += tv_nsec / nano::den;
-					tv_nsec %= nano::den;
-				    }
+				    tv_sec = tv_sec * v + tv_nsec * (v / nano::den);
+				    tv_nsec *= v % nano::den;
+				    tv_sec += tv_nsec / nano::den;
+				    tv_nsec %= nano::den;
+				    carry();
 				    return *this;
 				}
     constexpr hrtime_t&		operator/= (intmax_t v)	{
-				    tv_nsec /= v;
-				    tv_nsec += (tv_sec % v) * nano::den;
+				    if (tv_sec < 0 && tv_nsec > 0) {	// Truncate toward zero
+					++tv_sec;
+					tv_nsec -= nano::den;
+				    }
+				    tv_nsec = ((tv_sec % v) * nano::den + tv_nsec) / v;
 				    tv_sec /= v;
+				    carry();
 				    return *this;
 				}
     inline constexpr hrtime_t	operator+ (const hrtime_t& v) const	{ hrtime_t r(*this); return r += v; }
@@ -247,6 +251,14 @@ struct hrtime_t : public timespec {
     inline void			write (ostream& os) const		{ os << tv_sec << tv_nsec; }
     void			text_write (ostringstream& os) const	{ os.format ("%ld.%09ld", tv_sec, tv_nsec); }
     inline constexpr streamsize	stream_size (void) const		{ return stream_size_of(tv_sec) + stream_size_of(tv_nsec); }
+private:
+    // Nanoseconds are kept nonnegative, so that each time has only one value
+    constexpr void		carry (void) {
+				    if (tv_nsec < 0) {
+					tv_nsec += nano::den;
+					--tv_sec;
+				    }
+				}
 };
 
 // numeric_limits<hrtime_t>::min,max will always return 0
-- 
2.43.0


From 52a17de5bd2cf0eae6103b25ba28369fa8db8375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:36 +0000
Subject: [PATCH 81/90] fix: convert hrtime_t durations toward zero

---
 uchrono.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index e7165a4..b3dade9 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -280,11 +280,16 @@ struct __duration_cast_impl<ToDuration, hrtime_t, Period> {
     using to_rep	= typename ToDuration::rep;
     using ns_conv_ratio	= typename ratio_divide<Period, typename ToDuration::period>::type;
     using s_conv_ratio	= typename ratio_divide<ns_conv_ratio, Period>::type;
+    using wide_rep	= typename tm::Select<numeric_limits<to_rep>::is_integer, intmax_t, to_rep>::Result;
     static inline constexpr ToDuration cast (const duration<hrtime_t, Period>& d) {
-	auto& t = d.count();
-	return ToDuration (
-		static_cast<to_rep>(t.tv_sec) * s_conv_ratio::num / s_conv_ratio::den
-		+ static_cast<to_rep>(t.tv_nsec) * ns_conv_ratio::num / ns_conv_ratio::den);
+	auto t = d.count();
+	if (t.tv_sec < 0 && t.tv_nsec > 0) {	// Truncate both toward zero
+	    ++t.tv_sec;
+	    t.tv_nsec -= nano::den;
+	}
+	return ToDuration (static_cast<to_rep>(
+		static_cast<wide_rep>(t.tv_sec) * s_conv_ratio::num / s_conv_ratio::den
+		+ static_cast<wide_rep>(t.tv_nsec) * ns_conv_ratio::num / ns_conv_ratio::den));
     }
 };
 
-- 
2.43.0


From 6a7f00c82e302eabe391a72bd43dea2ce9be6c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:39 +0000
Subject: [PATCH 82/90] fix: give the least hrtime_t no nanoseconds

---
 uchrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index b3dade9..089b1da 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -266,7 +266,7 @@ template <> struct duration_values<hrtime_t> {
     static constexpr hrtime_t zero (void)
 	{ return hrtime_t(); }
     static constexpr hrtime_t min (void)
-	{ return hrtime_t (numeric_limits<decltype(hrtime_t::tv_sec)>::lowest(), nano::den-1); }
+	{ return hrtime_t (numeric_limits<decltype(hrtime_t::tv_sec)>::lowest(), 0); }
     static constexpr hrtime_t max (void)
 	{ return hrtime_t (numeric_limits<decltype(hrtime_t::tv_sec)>::max(), nano::den-1); }
 };
-- 
2.43.0


From 2a3844356be1904c9d48b3dac9e3bc46617394d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:43 +0000
Subject: [PATCH 83/90] fix: let hrtime_t be written as text

---
 uchrono.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uchrono.h b/uchrono.h
index 089b1da..3862416 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -261,6 +261,10 @@ private:
 				}
 };
 
+// hrtime_t converts to numbers, but is not written as one
+inline ostringstream& operator<< (ostringstream& os, const hrtime_t& v)
+    { v.text_write (os); return os; }
+
 // numeric_limits<hrtime_t>::min,max will always return 0
 template <> struct duration_values<hrtime_t> {
     static constexpr hrtime_t zero (void)
-- 
2.43.0


From 49bbb3cdda5c63857c3af046dc61f65f8a171889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:03 +0000
Subject: [PATCH 84/90] fix: demangle long type names

---
 uexception.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/uexception.cc b/uexception.cc
index 8cfacc8..6706f12 100644
--- a/uexception.cc
+++ b/uexception.cc
@@ -70,15 +70,14 @@ const char* demangle_type_name (char* buf, size_t bufSize, size_t* pdmSize) noex
 {
     size_t bl = strlen (buf);
 #if HAVE_CXXABI_H && WANT_NAME_DEMANGLING
-    char dmname [256];
-    size_t sz = VectorSize(dmname);
     int bFailed;
-    __cxa_demangle (buf, dmname, &sz, &bFailed);
+    char* dmname = __cxa_demangle (buf, nullptr, nullptr, &bFailed);
     if (!bFailed) {
 	bl = min (strlen (dmname), bufSize - 1);
 	memcpy (buf, dmname, bl);
 	buf[bl] = 0;
     }
+    free (dmname);
 #else
     bl = min (bl, bufSize);
 #endif
-- 
2.43.0


From eb5c20a60e6400cdfff466b97dc083a916d88af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:05 +0000
Subject: [PATCH 85/90] fix: keep a copy of the type name in
 stream_bounds_exception

---
 ustdxept.cc | 11 ++++++-----
 ustdxept.h  |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/ustdxept.cc b/ustdxept.cc
index eebaa72..3b2f293 100644
--- a/ustdxept.cc
+++ b/ustdxept.cc
@@ -147,11 +147,12 @@ size_t file_exception::stream_size (void) const noexcept
 /// Initializes the empty object. \p operation is the function that returned the error code.
 stream_bounds_exception::stream_bounds_exception (const char* operation, const char* type, uoff_t offset, size_t expected, size_t remaining) noexcept
 : system_error (operation)
-,_typeName (type)
+,_typeName ()
 ,_offset (offset)
 ,_expected (expected)
 ,_remaining (remaining)
 {
+    try { _typeName = type; } catch (...) {}
     set_format (xfmt_StreamBoundsException);
 }
 
@@ -159,7 +160,7 @@ stream_bounds_exception::stream_bounds_exception (const char* operation, const c
 void stream_bounds_exception::info (string& msgbuf, const char* fmt) const noexcept
 {
     char typeName [256];
-    strncpy (typeName, _typeName, VectorSize(typeName));
+    strncpy (typeName, TypeName(), VectorSize(typeName));
     typeName[VectorSize(typeName)-1] = 0;
     if (!fmt) fmt = "%s stream %s: @0x%X: need %u bytes, have %u";
     try { msgbuf.format (fmt, demangle_type_name (VectorBlock(typeName)), Operation(), _offset, _expected, _remaining); } catch (...) {}
@@ -169,21 +170,21 @@ void stream_bounds_exception::info (string& msgbuf, const char* fmt) const noexc
 void stream_bounds_exception::read (istream& is)
 {
     system_error::read (is);
-    is >> _typeName >> _offset >> _expected >> _remaining;
+    is >> _typeName >> ios::align() >> _offset >> _expected >> _remaining;
 }
 
 /// Writes the exception into stream \p os.
 void stream_bounds_exception::write (ostream& os) const
 {
     system_error::write (os);
-    os << _typeName << _offset << _expected << _remaining;
+    os << _typeName << ios::align() << _offset << _expected << _remaining;
 }
 
 /// Returns the size of the written exception.
 size_t stream_bounds_exception::stream_size (void) const noexcept
 {
     return system_error::stream_size() +
-	    stream_size_of(_typeName) +
+	    Align (stream_size_of(_typeName)) +
 	    stream_size_of(_offset) +
 	    stream_size_of(_expected) +
 	    stream_size_of(_remaining);
diff --git a/ustdxept.h b/ustdxept.h
index 74b8b48..bcb29b9 100644
--- a/ustdxept.h
+++ b/ustdxept.h
@@ -208,12 +208,12 @@ public:
     virtual void	read (istream& is) override;
     virtual void	write (ostream& os) const override;
     virtual size_t	stream_size (void) const noexcept override;
-    inline const char*	TypeName (void) const	{ return _typeName; }
+    inline const char*	TypeName (void) const	{ return _typeName.c_str(); }
     inline uoff_t	Offset (void) const	{ return _offset; }
     inline size_t	Expected (void) const	{ return _expected; }
     inline size_t	Remaining (void) const	{ return _remaining; }
 private:
-    const char*		_typeName;
+    string		_typeName;
     uoff_t		_offset;
     size_t		_expected;
     size_t		_remaining;
-- 
2.43.0


From c10e4dd9a3bc1bb10fa027d76b856c68b849d3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:07 +0000
Subject: [PATCH 86/90] fix: print sizes in exceptions in full

---
 uexception.cc | 4 ++--
 ustdxept.cc   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/uexception.cc b/uexception.cc
index 6706f12..33f449c 100644
--- a/uexception.cc
+++ b/uexception.cc
@@ -99,10 +99,10 @@ bad_alloc::bad_alloc (size_t nBytes) noexcept
     set_format (ustl::xfmt_BadAlloc);
 }
 
-/// Returns a descriptive error message. fmt="failed to allocate %d bytes"
+/// Returns a descriptive error message. fmt="failed to allocate %zu bytes"
 void bad_alloc::info (ustl::string& msgbuf, const char* fmt) const noexcept
 {
-    if (!fmt) fmt = "failed to allocate %d bytes";
+    if (!fmt) fmt = "failed to allocate %zu bytes";
     try { msgbuf.format (fmt, _bytesRequested); } catch (...) {}
 }
 
diff --git a/ustdxept.cc b/ustdxept.cc
index 3b2f293..951be69 100644
--- a/ustdxept.cc
+++ b/ustdxept.cc
@@ -156,13 +156,13 @@ stream_bounds_exception::stream_bounds_exception (const char* operation, const c
     set_format (xfmt_StreamBoundsException);
 }
 
-/// Returns a descriptive error message. fmt="%s stream %s: @%u: expected %u, available %u";
+/// Returns a descriptive error message. fmt="%s stream %s: @0x%zX: need %zu bytes, have %zu";
 void stream_bounds_exception::info (string& msgbuf, const char* fmt) const noexcept
 {
     char typeName [256];
     strncpy (typeName, TypeName(), VectorSize(typeName));
     typeName[VectorSize(typeName)-1] = 0;
-    if (!fmt) fmt = "%s stream %s: @0x%X: need %u bytes, have %u";
+    if (!fmt) fmt = "%s stream %s: @0x%zX: need %zu bytes, have %zu";
     try { msgbuf.format (fmt, demangle_type_name (VectorBlock(typeName)), Operation(), _offset, _expected, _remaining); } catch (...) {}
 }
 
-- 
2.43.0


From 20ca70dc76937826579ce0c29fd0e68a5f933ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:09 +0000
Subject: [PATCH 87/90] fix: give each system_error its format

---
 ustdxept.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ustdxept.h b/ustdxept.h
index bcb29b9..33f609d 100644
--- a/ustdxept.h
+++ b/ustdxept.h
@@ -156,7 +156,8 @@ public:
     inline const char*	Operation (void) const	{ return _operation.c_str(); }
 #if HAVE_CPP14
 			system_error (error_code ec, const char* operation) noexcept
-			    : runtime_error (ec.message()),_operation(),_errno(ec.value()) { try { _operation = operation; } catch (...) {} }
+			    : runtime_error (ec.message()),_operation(),_errno(ec.value())
+			    { try { _operation = operation; } catch (...) {} set_format (xfmt_SystemError); }
     inline              system_error (error_code ec, const string& operation) noexcept
 			    : system_error (ec, operation.c_str()) {}
     inline              system_error (int ec, const error_category& ecat, const char* operation)
-- 
2.43.0


From 6ddb6d387de22ec578ecad55ebe4a24179ba4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:11 +0000
Subject: [PATCH 88/90] fix: free the symbols a backtrace is assigned over

---
 bktrace.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bktrace.cc b/bktrace.cc
index 7be0f3d..9ac4f9f 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -37,8 +37,11 @@ CBacktrace::CBacktrace (const CBacktrace& v) noexcept
 /// Copy operator.
 const CBacktrace& CBacktrace::operator= (const CBacktrace& v) noexcept
 {
+    if (this == &v)
+	return *this;
     memcpy (_addresses, v._addresses, sizeof(_addresses));
-    _symbols = strdup (v._symbols);
+    nfree (_symbols);
+    _symbols = v._symbols ? strdup (v._symbols) : nullptr;
     _nFrames = v._nFrames;
     _symbolsSize = v._symbolsSize;
     return *this;
-- 
2.43.0


From 7d32e3a7006f93d9ea9fc6384a6305e7d16df90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:13 +0000
Subject: [PATCH 89/90] fix: give errc::not_supported its number

---
 uerror.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uerror.h b/uerror.h
index d3bbb00..c7aedb6 100644
--- a/uerror.h
+++ b/uerror.h
@@ -73,7 +73,7 @@ enum class errc {
     not_a_stream			= ENOSTR,
     not_connected			= ENOTCONN,
     not_enough_memory			= ENOMEM,
-    not_supported			= EINVAL,
+    not_supported			= ENOTSUP,
     operation_canceled			= ECANCELED,
     operation_in_progress		= EINPROGRESS,
     operation_not_permitted		= EPERM,
-- 
2.43.0


From 1f85313f10b80366751d26b970bd89a1e9518c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:15 +0000
Subject: [PATCH 90/90] fix: define reading and writing of error codes

---
 uerror.h    | 10 ++++++----
 ustdxept.cc |  7 +++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/uerror.h b/uerror.h
index c7aedb6..7d0da71 100644
--- a/uerror.h
+++ b/uerror.h
@@ -144,8 +144,9 @@ public:
     inline error_condition	default_error_condition (void) const noexcept;
     inline auto			message (void) const		{ return category().message (value()); }
     inline constexpr explicit		operator bool (void) const	{ return _ec; }
-    inline void			read (istream& is);
-    inline void			write (ostream& os) const;
+    void			read (istream& is);
+    void			write (ostream& os) const;
+    inline constexpr size_t	stream_size (void) const	{ return sizeof(_ec); }
     inline constexpr bool	operator== (const error_code& v) const	{ return category() == v.category() && value() == v.value(); }
     inline constexpr bool	operator== (const error_condition& v) const noexcept;
 private:
@@ -174,8 +175,9 @@ public:
     inline constexpr auto	category (void) const		{ return generic_category(); }
     inline auto			message (void) const		{ return category().message (value()); }
     inline constexpr explicit	operator bool (void) const	{ return value(); }
-    inline void			read (istream& is);
-    inline void			write (ostream& os) const;
+    void			read (istream& is);
+    void			write (ostream& os) const;
+    inline constexpr size_t	stream_size (void) const	{ return sizeof(_ec); }
     inline constexpr bool	operator== (const error_condition& v) const
 				    { return category() == v.category() && value() == v.value(); }
     inline constexpr bool	operator== (const error_code& v) const
diff --git a/ustdxept.cc b/ustdxept.cc
index 951be69..8f6c7f0 100644
--- a/ustdxept.cc
+++ b/ustdxept.cc
@@ -57,6 +57,13 @@ size_t error_message::stream_size (void) const noexcept
 
 //----------------------------------------------------------------------
 
+#if HAVE_CPP14
+void error_code::read (istream& is)		{ is >> _ec; }
+void error_code::write (ostream& os) const	{ os << _ec; }
+void error_condition::read (istream& is)	{ is >> _ec; }
+void error_condition::write (ostream& os) const	{ os << _ec; }
+#endif
+
 /// Initializes the empty object. \p operation is the function that returned the error code.
 system_error::system_error (const char* operation) noexcept
 #if HAVE_CPP14
-- 
2.43.0

