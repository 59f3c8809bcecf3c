// C01: vectors of DRV_T against Vec.tla
#include "drv.h"
#ifdef DRV_OBJ
struct Obj {	// 16 bytes, heap payload
    int*	p;
    long	tag;
    Obj (void) : p (new int (0)), tag (7) {}
    Obj (long v) : p (new int (int(v))), tag (7) {}
    Obj (const Obj& o) : p (new int (*o.p)), tag (7) {}
    Obj (Obj&& o) : p (o.p), tag (7) { o.p = new int (-1); }
    ~Obj (void) { delete p; p = NULL; tag = 0; }
    const Obj& operator= (const Obj& o) { *p = *o.p; return *this; }
    operator long (void) const { return *p; }
    bool operator== (const Obj& o) const { return *p == *o.p; }
};
#endif
#ifdef DRV_P12
struct P12 { int a, b, c;
    P12 (void) : a(0),b(0),c(0) {}
    P12 (long v) : a (v), b (~int(v)), c (v*3) {}
    operator long (void) const { return b == (a == 0 && c == 0 ? b : ~a) && c == a*3 ? a : -99; }
};
#endif
typedef DRV_T T;
typedef ustl::vector<T> V;

enum { NV = 3, ML = 8 };
static Raw<V>	vr [NV];
alignas(16) static char mr [sizeof(T)*ML];
static long	base;
static bool	alive = false;
#define v(k)	vr[k].o()
static T* mem (void) { return (T*) mr; }
#if defined(DRV_OBJ)
enum { LINKS = 0 };
#else
enum { LINKS = 1 };
#endif

static void wipe (void)
{
    for (int k = 0; k < NV; ++k) v(k).~V();
    for (int k = 0; k < ML; ++k) (mem()+k)->~T();
}
static void seg_begin (void)
{
    if (alive) wipe();
    base = live_bytes();
    for (int k = 0; k < NV; ++k) new (&v(k)) V;
    for (int k = 0; k < ML; ++k) new (mem()+k) T (0);
    alive = true;
}
static void seg_end (Res& r)
{
    long mv [ML];
    for (int k = 0; k < ML; ++k) mv[k] = long(mem()[k]);
    wipe();
    r.push (live_bytes() - base);
    for (int k = 0; k < NV; ++k) new (&v(k)) V;
    for (int k = 0; k < ML; ++k) new (mem()+k) T (mv[k]);
}
static void state (W& w)
{
    w.obj();
    w.key ("v"); w.open();
    bool cap = true;
    for (int k = 0; k < NV; ++k) {
	const V& c = v(k);
	if (c.size() > 100000) { w.open(); w.i (-1); w.close(); cap = false; continue; }
	w.list (c.begin(), c.end());
	cap = cap && (c.is_linked() || c.capacity() >= c.size());
    }
    w.close();
    w.key ("lk"); w.open(); for (int k = 0; k < NV; ++k) w.i (v(k).is_linked()); w.close();
    w.ki ("cap", cap);
    w.key ("mem"); w.list (mem(), mem()+ML);
    w.endobj();
}
static bool exec (const char* op, Args& a, Res& r)
{
    OP("mem_set")	{ int i = clip (a.i(0), ML); a.set (0, i); mem()[i] = T(a.i(1)); return true; }
    int k = clip (a.i(0)-1, NV); a.set (0, k+1);
    V& c = v(k);
    const V& cc = c;
    long n = c.size();
    // second vector operand
    #define SECOND(ix) int j = clip (a.i(ix)-1, NV); a.set (ix, j+1); V& d = v(j); long m = d.size(); (void) d; (void) m;
    #define RANGE(ix,m) long b = clip (a.i(ix), m+1), e = clip (a.i((ix)+1), m+1); if (b > e) { long t = b; b = e; e = t; } a.set (ix, b); a.set ((ix)+1, e);
    #define POS(ix) long p = clip (a.i(ix), n+1); a.set (ix, p);
    OP("new_n")		{ c.~V(); new (&c) V (size_t(a.i(1))); return true; }
    OP("new_nv")	{ T x (a.i(2)); c.~V(); new (&c) V (size_t(a.i(1)), x); return true; }
    OP("new_range")	{ SECOND(1) if (j == k) return false; RANGE(2,m) c.~V(); new (&c) V (d.begin()+b, d.begin()+e); return true; }
    OP("new_copy")	{ SECOND(1) if (j == k) return false; c.~V(); new (&c) V (d); return true; }
    OP("new_move")	{ SECOND(1) if (j == k) return false; c.~V(); new (&c) V (ustl::move(d)); return true; }
    OP("new_list") {
	const long* l = a.l(1);
	switch (a.ln(1)) {
	    case 0: c.~V(); new (&c) V (std::initializer_list<T>{}); break;
	    case 1: c.~V(); new (&c) V {T(l[0])}; break;
	    case 2: c.~V(); new (&c) V {T(l[0]),T(l[1])}; break;
	    case 3: c.~V(); new (&c) V {T(l[0]),T(l[1]),T(l[2])}; break;
	    case 5: c.~V(); new (&c) V {T(l[0]),T(l[1]),T(l[2]),T(l[3]),T(l[4])}; break;
	    default: return false;
	}
	return true;
    }
    OP("copy")		{ SECOND(1) c = (const V&) d; return true; }
    OP("assign_r")	{ SECOND(1) if (j == k) return false; RANGE(2,m) c.assign (d.begin()+b, d.begin()+e); return true; }
    OP("assign_n")	{ T x (a.i(2)); c.assign (size_t(a.i(1)), x); return true; }
    OP("move")		{ SECOND(1) if (j == k) return false; c = ustl::move(d); return true; }
    OP("swap")		{ SECOND(1) if (n & 1) c.swap (d); else ustl::swap (c, d); return true; }
    OP("resize")	{ c.resize (size_t(a.i(1))); return true; }
    OP("resize_v")	{ T x (a.i(2)); c.resize (size_t(a.i(1)), x); return true; }
    OP("clear")		{ c.clear(); return true; }
    OP("dealloc")	{ c.deallocate(); return true; }
    OP("reserve")	{ c.reserve (size_t(a.i(1)), a.i(1) & 1); r.push (c.capacity() >= size_t(a.i(1))); return true; }
    OP("shrink")	{ c.shrink_to_fit(); return true; }
    OP("copy_link")	{ c.copy_link(); return true; }
    OP("link")		{ if (!LINKS) return false; long o = clip (a.i(1), ML+1), m = clip (a.i(2), ML-o+1); a.set (1, o); a.set (2, m); c.deallocate();
			  if (o & 1) c.link (mem()+o, mem()+o+m); else if (o & 2) c.link ((const T*)mem()+o, m); else c.link (mem()+o, m); return true; }
    OP("unlink")	{ if (!LINKS || !c.is_linked()) return false; c.unlink(); return true; }
    OP("manage")	{ int m = a.ln(1); if (!m) return false; c.deallocate(); T* p = (T*) malloc (sizeof(T)*m); for (int i = 0; i < m; ++i) new (p+i) T (a.l(1)[i]); c.manage (p, m); return true; }
    OP("push")		{ const T x (a.i(1)); c.push_back (x); return true; }
    OP("push_move")	{ c.push_back (T (a.i(1))); return true; }
    OP("emplace_back")	{ c.emplace_back (a.i(1)); return true; }
    OP("pop")		{ if (!n) return false; c.pop_back(); return true; }
    OP("insert")	{ POS(1) const T x (a.i(2)); V::iterator i = c.insert (cc.begin()+p, x); r.push (i-c.begin()); return true; }
    OP("insert_move")	{ POS(1) V::iterator i = c.insert (cc.begin()+p, T(a.i(2))); r.push (i-c.begin()); return true; }
    OP("emplace")	{ POS(1) V::iterator i = c.emplace (cc.begin()+p, a.i(2)); r.push (i-c.begin()); return true; }
    OP("insert_n")	{ POS(1) const T x (a.i(3)); V::iterator i = c.insert (cc.begin()+p, size_t(a.i(2)), x); r.push (i-c.begin()); return true; }
    OP("insert_l")	{ POS(1) const long* l = a.l(2); V::iterator i;
	switch (a.ln(2)) {
	    case 0: i = c.insert (cc.begin()+p, std::initializer_list<T>{}); break;
	    case 1: i = c.insert (cc.begin()+p, {T(l[0])}); break;
	    case 2: i = c.insert (cc.begin()+p, {T(l[0]),T(l[1])}); break;
	    case 3: i = c.insert (cc.begin()+p, {T(l[0]),T(l[1]),T(l[2])}); break;
	    default: { Tmp<T> t (a, 2); i = c.insert (cc.begin()+p, t.p, t.p+t.n); }
	}
	r.push (i-c.begin()); return true; }
    OP("insert_r")	{ POS(1) SECOND(2) if (j == k) return false; RANGE(3,m) V::iterator i = c.insert (cc.begin()+p, d.begin()+b, d.begin()+e); r.push (i-c.begin()); return true; }
    OP("erase")		{ if (!n) return false; long p = clip (a.i(1), n); a.set (1, p); V::iterator i = c.erase (cc.begin()+p); r.push (i-c.begin()); return true; }
    OP("erase_n")	{ POS(1) long m = clip (a.i(2), n-p+1); a.set (2, m); V::iterator i = c.erase (cc.begin()+p, size_t(m)); r.push (i-c.begin()); return true; }
    OP("erase_r")	{ RANGE(1,n) V::iterator i = c.erase (cc.begin()+b, cc.begin()+e); r.push (i-c.begin()); return true; }
    OP("write")		{ if (!n) return false; long i = clip (a.i(1), n); a.set (1, i); T x (a.i(2)); if (i == 0) c.front() = x; else if (i == n-1) c.back() = x; else if (i & 1) c[i] = x; else c.at(i) = x; return true; }
    OP("query") {
	r.push (cc.size()); r.push (cc.empty());
	for (long i = 0; i < n; ++i) r.push (long((i & 1) ? cc[i] : c.at(i)));
	for (V::const_reverse_iterator i = cc.rbegin(); i < cc.rend(); ++i) r.push (long(*i));
	if (n) { r.push (long(cc.front())); r.push (long(c.back())); }
	return true;
    }
    OP("equal")		{ if (!LINKS) return false; SECOND(1) r.push (cc == d); return true; }
    return false;
}
