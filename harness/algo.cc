// A01, A02, A03: algorithms over arrays of DRV_T against Algo.tla; DRV_PART of them
#include "drv.h"
#include <ustl/uctralgo.h>
#include <ustl/upredalgo.h>
#include <ustl/ualgo.h>
struct Tagged {
    int32_t	v, n;
    Tagged (void) : v(0), n(0) {}
    Tagged (long e) : v (e), n (~int32_t(e)) {}
    operator long (void) const { return n == ~v ? v : -1; }
    bool operator< (const Tagged& o) const { return v/8 < o.v/8; }
    bool operator== (const Tagged& o) const { return v/8 == o.v/8; }
};
struct Obj {	// owns heap memory
    int*	p;
    Obj (void) : p (new int (0)) {}
    Obj (long v) : p (new int (int(v))) {}
    Obj (const Obj& o) : p (new int (*o.p)) {}
    Obj (Obj&& o) : p (o.p) { o.p = new int (119); }
    ~Obj (void) { delete p; p = NULL; }
    const Obj& operator= (const Obj& o) { *p = *o.p; return *this; }
    operator long (void) const { return *p; }
    bool operator< (const Obj& o) const { return *p/8 < *o.p/8; }
    bool operator== (const Obj& o) const { return *p/8 == *o.p/8; }
};
typedef DRV_T T;
template <typename X> struct IsClass { enum { v = !ustl::numeric_limits<X>::is_integral }; };
template <bool> struct KeyOf { static long k (const T& x) { return long(x); } };
template <> struct KeyOf<true> { static long k (const T& x) { return long(x)/8; } };
static long key (const T& x)	{ return KeyOf<IsClass<T>::v>::k (x); }
// function objects with state
struct Eqv  { long c; explicit Eqv (long n) : c(n) {} bool operator() (const T& x, const T& y) const { return c == 0 ? key(x) == key(y) : c == 1 ? key(x)%2 == key(y)%2 : key(x)/4 == key(y)/4; } };
struct Less { long c; explicit Less (long n) : c(n) {} bool operator() (const T& x, const T& y) const { return c == 0 ? key(x) < key(y) : c == 1 ? key(y) < key(x) : key(x)/4 < key(y)/4; } };
struct Pred { long c; explicit Pred (long n) : c(n) {} bool operator() (const T& x) const { return c == 0 ? key(x)%2 == 0 : c == 1 ? key(x) > 2 : key(x)%3 == 1; } };
struct Fn   { long c; explicit Fn (long n) : c(n) {} T operator() (const T& x) const { return T ((long(x)+c)%120); } };
struct Fn2  { long c; explicit Fn2 (long n) : c(n) {} T operator() (const T& x, const T& y) const { return T ((long(x)+2*long(y)+c)%120); } };
struct Gen  { long c; explicit Gen (long n) : c(n) {} T operator() (void) { return T (++c%120); } };

typedef ustl::vector<T>	V;
typedef ustl::reverse_iterator<T*> RI;
static Raw<V> vs [2];
static bool up = false;
static long base;
static void make (void)	{ vs[0].make(); vs[1].make(); }
static void kill (void)	{ vs[0].kill(); vs[1].kill(); }
static void seg_begin (void)	{ if (up) kill(); base = live_bytes(); make(); up = true; }
static void seg_end (Res& r)	{ kill(); r.push (live_bytes()-base); make(); }
static void state (W& w)	{ w.open(); for (int k = 0; k < 2; ++k) { w.open(); for (size_t n = 0; n < vs[k]->size(); ++n) w.i (long((*vs[k])[n])); w.close(); } w.close(); }
// an area of z blanks
struct Area {
    T*	p; long z;
    Area (long n) : p ((T*) malloc (sizeof(T)*(n+1))), z (n) { for (long j = 0; j < z; ++j) new (p+j) T (125); }
    ~Area (void) { for (long j = 0; j < z; ++j) (p+j)->~T(); free (p); }
    void tell (Res& r, long end) { r.push (end); for (long j = 0; j < z; ++j) r.push (long(p[j])); }
};
template <typename I> static long at (I f, I p)	{ long n = 0; while (!(f == p) && n < 5000) { ++f; ++n; } return n; }
static void lset (Args& a, int ix, const T* f, const T* l)
{
    if (a.n <= ix) a.set (ix, 0);
    Arg& g = a.a[ix];
    g.isl = true; g.n = 0; g.l = a.pool+a.npool;
    for (; f < l; ++f, ++g.n) a.pool[a.npool++] = long(*f);
}
// f called with the range as mode m has it
template <typename F> static void walk (V& v, long m, long i, long j, F f)
{
    if (m == 2) f (RI (v.begin()+j), RI (v.begin()+i));
#if DRV_PART == 1
    else if (m == 0 && (i+j) % 2) f ((const T*)(v.begin()+i), (const T*)(v.begin()+j));
#endif
    else f (v.begin()+i, v.begin()+j);
}
#define WALK	walk (v, m, i, j, [&](auto f, auto l)
static void view (Args& a, int ix, V& v, long m, long i, long j)
{
    if (m != 2) return lset (a, ix, v.begin()+i, v.begin()+j);
    if (a.n <= ix) a.set (ix, 0);
    Arg& g = a.a[ix];
    g.isl = true; g.n = 0; g.l = a.pool+a.npool;
    for (; j-- > i; ++g.n) a.pool[a.npool++] = long(v[j]);
}
static bool exec (const char* op, Args& a, Res& r)
{
    OP("set") { int k = clip (a.i(0)-1, 2); a.set (0, k+1); Tmp<T> t (a, 1); vs[k]->assign (t.begin(), t.end()); return true; }
    using namespace ustl;
    const long m = a.i(0);
    if (m < 0 || m > 3) return false;
#if DRV_PART == 1
    OP("values") {
	const T x (a.i(1)), y (a.i(2)); const long c = a.i(3);
	if (c) { auto p = minmax (x, y, Less(c)); r.push (key (p.first)); r.push (key (p.second)); }
	else {
	    auto p = minmax (x, y);
	    r.push (key (min (x, y))); r.push (key (max (x, y)));
	    if (key (p.first) != r.r[0] || key (p.second) != r.r[1]) r.push (-1);
	}
	return true;
    }
    OP("clamp") {
	const T x (a.i(1)), l (a.i(2)), h (a.i(3)); const Less c (a.i(4));
	if (c (h, l)) return false;
	r.push (key (a.i(4) ? clamp (x, l, h, c) : clamp (x, l, h))); return true;
    }
#elif DRV_PART == 2
    OP("fill_n") { long z = a.i(1), d = a.i(2), n = a.i(3); if (n < 0 || d < 0 || d+n > z) return false; Area A (z); T* e = m == 0 ? fill_n (A.p+d, n, T(a.i(4))) : (fill (A.p+d, A.p+d+n, T(a.i(4))), A.p+d+n); A.tell (r, e-(A.p+d)); return true; }
    OP("generate_n") { long z = a.i(1), d = a.i(2), n = a.i(3); if (n < 0 || d < 0 || d+n > z) return false; Area A (z); T* e = generate_n (A.p+d, n, Gen(a.i(4))); A.tell (r, e-(A.p+d)); return true; }
#endif
    const int k = a.i(1)-1;
    if (k < 0 || k > 1) return false;
    V& v = *vs[k]; V& w = *vs[1-k];
    const V& cv = v;
    const long n = v.size(), i = a.i(2), j = a.i(3), len = j-i, c = a.i(4);
    if (i < 0 || j < i || j > n || (m % 2 && (i || j != n))) return false;
    const bool C = m == 1, CC = m == 3;
    #define IFC(x, y)	if (C) { x; } else if (CC) { y; } else
    #define POS(p)	(p - v.begin())
#if DRV_PART == 1
    OP("find")		{ const T x (c); IFC (r.push (POS(find (v, x))), r.push (POS(find (cv, x)))) WALK { r.push (at (f, find (f, l, x))); }); return true; }
    OP("find_if")	{ const Pred p (c); IFC (r.push (POS(find_if (v, p))), r.push (POS(find_if (cv, p)))) WALK { r.push (at (f, find_if (f, l, p))); }); return true; }
    OP("count")		{ const T x (c); IFC (r.push (count (v, x)), r.push (count (cv, x))) WALK { r.push (count (f, l, x)); }); return true; }
    OP("count_if")	{ const Pred p (c); IFC (r.push (count_if (v, p)), r.push (count_if (cv, p))) WALK { r.push (count_if (f, l, p)); }); return true; }
    OP("for_each")	{ auto p = [&r](const T& x) { r.push (long(x)); }; IFC (for_each (v, p), for_each (cv, p)) WALK { for_each (f, l, p); }); return true; }
    OP("adjacent")	{ WALK { r.push (at (f, c ? adjacent_find (f, l, Eqv(c)) : adjacent_find (f, l))); }); return true; }
    OP("extremes")	{ WALK { r.push (at (f, c ? min_element (f, l, Less(c)) : min_element (f, l))); r.push (at (f, c ? max_element (f, l, Less(c)) : max_element (f, l))); }); return true; }
    OP("minmax")	{ WALK { auto p = c ? minmax_element (f, l, Less(c)) : minmax_element (f, l); r.push (at (f, p.first)); r.push (at (f, p.second)); }); return true; }
    OP("listed")	{
	if (!len || m == 2) return false;
	std::initializer_list<T> il; const T* b = v.begin()+i; size_t s = len; memcpy ((void*) &il, &b, sizeof(b)); memcpy ((char*) &il + sizeof(b), &s, sizeof(s));
	if (c) { auto p = minmax (il, Less(c)); r.push (key (p.first)); r.push (key (p.second)); }
	else { auto p = minmax (il); r.push (key (p.first)); r.push (key (p.second)); }
	return true;
    }
    if (!strcmp (op, "mismatch") || !strcmp (op, "equal")) {
	long o = a.i(5);
	if (o < 0 || o+len > long(w.size())) return false;
	auto go = [&](auto f, auto l, auto g) {
	    if (*op == 'e') { r.push (c ? equal (f, l, g, Eqv(c)) : equal (f, l, g)); return; }
	    auto p = c ? mismatch (f, l, g, Eqv(c)) : mismatch (f, l, g);
	    r.push (at (f, p.first)); r.push (at (g, p.second));
	};
	if (m == 2) go (RI (v.begin()+j), RI (v.begin()+i), RI (w.begin()+o+len)); else go (v.begin()+i, v.begin()+j, w.begin()+o);
	return true;
    }
    OP("search_n")	{ const T x (a.i(6)); const long s = a.i(5); if (s < 0) return false; WALK { r.push (at (f, c ? search_n (f, l, s, x, Eqv(c)) : search_n (f, l, s, x))); }); return true; }
    const long p = a.i(5), q = a.i(6);
    if (p < 0 || q < p || q > long(w.size())) return false;
    T *g = w.begin()+p, *h = w.begin()+q;
    OP("search")	{ WALK { r.push (at (f, c ? search (f, l, g, h, Eqv(c)) : search (f, l, g, h))); }); return true; }
    OP("find_end")	{ WALK { r.push (at (f, c ? find_end (f, l, g, h, Eqv(c)) : find_end (f, l, g, h))); }); return true; }
    OP("first_of")	{ WALK { r.push (at (f, c ? find_first_of (f, l, g, h, Eqv(c)) : find_first_of (f, l, g, h))); }); return true; }
    OP("lexcmp")	{ WALK { r.push (c ? lexicographical_compare (f, l, g, h, Less(c)) : lexicographical_compare (f, l, g, h)); }); return true; }
#elif DRV_PART == 2
    if (CC && !strstr (op, "copy") && strcmp (op, "transform")) return false;
    OP("fill")		{ const T x (c); IFC (fill (v, x), ) WALK { fill (f, l, x); }); return true; }
    OP("generate")	{ IFC (generate (v, Gen(c)), ) WALK { generate (f, l, Gen(c)); }); return true; }
    OP("transform_in")	{ const Fn g (c); if (C) { transform (v, g); r.push (n); } else WALK { r.push (at (f, transform (f, l, f, g))); }); return true; }
    OP("replace")	{ const T x (c), y (a.i(5)); IFC (replace (v, x, y), ) WALK { replace (f, l, x, y); }); return true; }
    OP("replace_if")	{ const T y (a.i(5)); const Pred p (c); IFC (replace_if (v, p, y), ) WALK { replace_if (f, l, p, y); }); return true; }
    OP("reverse")	{ IFC (reverse (v), ) WALK { reverse (f, l); }); return true; }
    OP("rotate")	{ if (c < 0 || c > len || C) return false; WALK { rotate (f, f+c, l); }); return true; }
    OP("crotate")	{ if (!C || (c < 0 ? -c : c) >= n) return false; rotate (v, c); return true; }
    OP("stable_partition") { if (C) return false; WALK { r.push (at (f, stable_partition (f, l, Pred(c)))); }); return true; }
    OP("partition")	{ if (C) return false; WALK { r.push (at (f, partition (f, l, Pred(c)))); }); view (a, 5, v, m, i, j); return true; }
    OP("shuffle")	{ IFC (random_shuffle (v), ) WALK { random_shuffle (f, l); }); view (a, 4, v, m, i, j); return true; }
    OP("iter_swap")	{ long x = c, y = a.i(5); if (C || x < 0 || y < 0 || x >= len || y >= len) return false; WALK { if (x%2) iter_swap (f+x, f+y); else swap (f[x], f[y]); }); return true; }
    OP("swap_ranges")	{ if (m || c < 0 || c+len > long(w.size())) return false; r.push (swap_ranges (v.begin()+i, v.begin()+j, w.begin()+c) - w.begin()); return true; }
    OP("shift")		{ if (m || c < 0 || c > i) return false; T* e = c % 2 ? copy (v.begin()+i, v.begin()+j, v.begin()+c) : copy_n (v.begin()+i, len, v.begin()+c); r.push (e - (v.begin()+c)); return true; }
    OP("shift_right")	{ if (m || c < i || c+len > n) return false; T* e = copy_backward (v.begin()+i, v.begin()+j, v.begin()+c+len); r.push (e - v.begin()); return true; }
    bool rm = !strcmp (op, "remove"), ri = !strcmp (op, "remove_if");
    if (rm || ri || !strcmp (op, "unique")) {
	const T x (c); long e = 0;
	if (C) {
	    if (rm) remove (v, x); else if (ri) remove_if (v, Pred(c)); else if (c) unique (v, Eqv(c)); else unique (v);
	    r.push (v.size()); lset (a, 5, NULL, NULL); return true;
	}
	WALK { e = at (f, rm ? remove (f, l, x) : ri ? remove_if (f, l, Pred(c)) : c ? unique (f, l, Eqv(c)) : unique (f, l)); });
	if (e > len) return false;
	r.push (e); if (m == 2) view (a, 5, v, m, i, j-e); else view (a, 5, v, m, i+e, j); return true;
    }
    // to an area
    const long z = a.i(4), d = a.i(5), x = a.i(6), y = a.i(7);
    if (d < 0 || z < 0 || z > 5000 || d+len > z) return false;
    Area A (z);
    T* o = A.p+d; T* e = NULL;
    #define TELL	A.tell (r, e-o); return true;
    OP("copy")		{ IFC (e = copy (v, o), e = copy (cv, o)) WALK { e = (d+len)%2 ? copy (f, l, o) : copy_n (f, len, o); }); TELL }
    OP("copy_backward")	{ if (m % 2) return false; T* s = NULL; WALK { s = copy_backward (f, l, o+len); }); A.tell (r, len - (s-o)); return true; }
    OP("copy_if")	{ IFC (e = copy_if (v, o, Pred(x)), e = copy_if (cv, o, Pred(x))) WALK { e = copy_if (f, l, o, Pred(x)); }); TELL }
    OP("reverse_copy")	{ if (m % 2) return false; WALK { e = reverse_copy (f, l, o); }); TELL }
    OP("rotate_copy")	{ if (m % 2 || x < 0 || x > len) return false; WALK { e = rotate_copy (f, f+x, l, o); }); TELL }
    OP("transform")	{ IFC (e = transform (v, o, Fn(x)), e = transform (cv, o, Fn(x))) WALK { e = transform (f, l, o, Fn(x)); }); TELL }
    OP("transform2")	{ if (y < 0 || y+len > long(w.size()) || CC) return false; T* g = w.begin()+y; IFC (e = transform (v, g, o, Fn2(x)), ) WALK { e = transform (f, l, g, o, Fn2(x)); }); TELL }
    OP("replace_copy")	{ const T s (x), t (y); IFC (e = replace_copy (v, o, s, t), e = replace_copy (cv, o, s, t)) WALK { e = replace_copy (f, l, o, s, t); }); TELL }
    OP("replace_copy_if") { const T t (y); IFC (e = replace_copy_if (v, o, Pred(x), t), e = replace_copy_if (cv, o, Pred(x), t)) WALK { e = replace_copy_if (f, l, o, Pred(x), t); }); TELL }
    OP("remove_copy")	{ const T s (x); IFC (e = remove_copy (v, o, s), e = remove_copy (cv, o, s)) WALK { e = remove_copy (f, l, o, s); }); TELL }
    OP("remove_copy_if") { IFC (e = remove_copy_if (v, o, Pred(x)), e = remove_copy_if (cv, o, Pred(x))) WALK { e = remove_copy_if (f, l, o, Pred(x)); }); TELL }
    OP("remove_copy_at") {
	if (m) return false;
	vector<T*> at; long last = -1;
	for (int s = 0; s < a.ln(6); ++s) { if (a.l(6)[s] <= last) return false; at.push_back (v.begin()+i+(last = a.l(6)[s])); }
	if (last >= len) return false;
	e = remove_copy (v.begin()+i, v.begin()+j, o, at.begin(), at.end()); TELL
    }
    OP("unique_copy")	{ if (x) { if (m % 2) return false; WALK { e = unique_copy (f, l, o, Eqv(x)); }); } else IFC (e = unique_copy (v, o), e = unique_copy (cv, o)) WALK { e = unique_copy (f, l, o); }); TELL }
#else
    const Less lt (c);
    auto sorted = [&lt](auto f, auto l) { for (long s = 1; s < at (f, l); ++s) if (lt (f[s], f[s-1])) return false; return true; };
    bool ss = !strcmp (op, "stable_sort");
    if (ss || !strcmp (op, "sort")) {
	if (CC) return false;
	if (C) { if (ss) { if (c) stable_sort (v, lt); else stable_sort (v); } else if (c) sort (v, lt); else sort (v); }
	else WALK { if (ss) { if (c) stable_sort (f, l, lt); else stable_sort (f, l); } else if (c) sort (f, l, lt); else sort (f, l); });
	if (!ss) view (a, 5, v, m, i, j);
	return true;
    }
    OP("is_sorted")	{ WALK { r.push (c ? is_sorted (f, l, lt) : is_sorted (f, l)); }); return true; }
    bool ps = !strcmp (op, "partial_sort");
    if (ps || !strcmp (op, "nth")) {
	const long x = a.i(5);
	if (x < 0 || x > len || CC) return false;
	WALK { if (ps) { if (c) partial_sort (f, f+x, l, lt); else partial_sort (f, f+x, l); } else if (c) nth_element (f, f+x, l, lt); else nth_element (f, f+x, l); });
	view (a, 6, v, m, i, j); return true;
    }
    OP("sort_copy") {
	const long z = a.i(5), d = a.i(6), x = a.i(7);
	if (d < 0 || x < 0 || z > 5000 || d+x > z) return false;
	Area A (z); T* o = A.p+d; T* e = NULL;
	WALK { e = c ? partial_sort_copy (f, l, o, o+x, lt) : partial_sort_copy (f, l, o, o+x); });
	lset (a, 8, A.p, A.p+z); r.push (e-o); return true;
    }
    OP("bounds") {
	bool ok = true; WALK { ok = sorted (f, l); }); if (!ok) return false;
	const T x (a.i(5));
	if (m % 2) {
	    if (c) return false;
	    if (C) { auto p = equal_range (v, x); r.push (POS(lower_bound (v, x))); r.push (POS(upper_bound (v, x))); r.push (POS(p.first)); r.push (POS(p.second)); r.push (binary_search (v, x)); }
	    else { auto p = equal_range (cv, x); r.push (POS(lower_bound (cv, x))); r.push (POS(upper_bound (cv, x))); r.push (POS(p.first)); r.push (POS(p.second)); r.push (binary_search (cv, x)); }
	} else WALK {
	    auto p = c ? equal_range (f, l, x, lt) : equal_range (f, l, x);
	    r.push (at (f, c ? lower_bound (f, l, x, lt) : lower_bound (f, l, x))); r.push (at (f, c ? upper_bound (f, l, x, lt) : upper_bound (f, l, x)));
	    r.push (at (f, p.first)); r.push (at (f, p.second)); r.push (c ? binary_search (f, l, x, lt) : binary_search (f, l, x));
	});
	return true;
    }
    OP("inplace_merge")	{ const long x = a.i(5); bool ok = true; if (c || CC || x < 0 || x > len) return false; WALK { ok = sorted (f, f+x) && sorted (f+x, l); }); if (!ok) return false; WALK { inplace_merge (f, f+x, l); }); return true; }
    OP("next")		{ if (CC) return false; WALK { r.push (c ? next_permutation (f, l, lt) : next_permutation (f, l)); }); return true; }
    OP("prev")		{ if (CC || c > 1) return false; WALK { r.push (c ? prev_permutation (f, l, lt) : prev_permutation (f, l)); }); return true; }
    const long z = a.i(5), d = a.i(6), p = a.i(7), q = a.i(8);
    if (p < 0 || q < p || q > long(w.size()) || z > 5000 || d < 0 || d+len+q-p > z) return false;
    bool ok = true; WALK { ok = sorted (f, l); }); if (!ok) return false;
    T *g = w.begin()+p, *h = w.begin()+q;
    if (!sorted (g, h)) return false;
    Area A (z); T* o = A.p+d; T* e = NULL;
    #define TELL	A.tell (r, e-o); return true;
    #define TAGGED	if (IsClass<T>::v) { lset (a, 9, A.p, A.p+z); r.push (e-o); return true; } TELL
    OP("merge")		{ if (c) return false; WALK { e = merge (f, l, g, h, o); }); TELL }
    OP("union")		{ WALK { e = c ? set_union (f, l, g, h, o, lt) : set_union (f, l, g, h, o); }); TELL }
    OP("intersection")	{ WALK { e = c ? set_intersection (f, l, g, h, o, lt) : set_intersection (f, l, g, h, o); }); TELL }
    OP("difference")	{ WALK { e = c ? set_difference (f, l, g, h, o, lt) : set_difference (f, l, g, h, o); }); TAGGED }
    OP("symmetric")	{ WALK { e = c ? set_symmetric_difference (f, l, g, h, o, lt) : set_symmetric_difference (f, l, g, h, o); }); TAGGED }
    OP("includes")	{ WALK { r.push (c ? includes (f, l, g, h, lt) : includes (f, l, g, h)); }); return true; }
#endif
    return false;
}
