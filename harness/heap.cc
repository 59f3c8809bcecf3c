// C06: heap algorithms and priority queues of DRV_T against Heap.tla
#include "drv.h"
struct Obj {	// owns heap memory
    int*	p;
    Obj (void) : p (new int (0)) {}
    Obj (long v) : p (new int (int(v))) {}
    Obj (const Obj& o) : p (new int (*o.p)) {}
    Obj (Obj&& o) : p (o.p) { o.p = new int (-1); }
    ~Obj (void) { delete p; p = NULL; }
    const Obj& operator= (const Obj& o) { *p = *o.p; return *this; }
    operator long (void) const { return *p; }
    bool operator< (const Obj& o) const { return *p < *o.p; }
};
typedef DRV_T T;
struct Cmp {
    int m;
    explicit Cmp (int n = 0) : m (n) {}
    bool operator() (const T& a, const T& b) const { return m == 0 ? a < b : m == 1 ? b < a : long(a)/10 < long(b)/10; }
};
typedef ustl::vector<T>	V;
typedef ustl::priority_queue<T,V,Cmp>	Q;
enum { NR = DRV_NR, NQ = DRV_NQ, NR1 = NR ? NR : 1, NQ1 = NQ ? NQ : 1 };
static Raw<V> vs [NR1];
static Raw<Q> qs [NQ1];
static bool up = false;
static long base;
static void make (void)	{ for (int k = 0; k < NR; ++k) vs[k].make(); for (int k = 0; k < NQ; ++k) qs[k].make(); }
static void kill (void)	{ for (int k = 0; k < NR; ++k) vs[k].kill(); for (int k = 0; k < NQ; ++k) qs[k].kill(); }
static void seg_begin (void)	{ if (up) kill(); base = live_bytes(); make(); up = true; }
static void seg_end (Res& r)	{ kill(); r.push (live_bytes()-base); make(); }
static void state (W& w)
{
    w.open();
    w.open(); for (int k = 0; k < NR; ++k) w.list (vs[k]->begin(), vs[k]->end()); w.close();
    w.open();
    for (int k = 0; k < NQ; ++k) { const Q& q = *qs[k]; w.open(); w.i (q.size()); if (!q.empty()) w.i (long(q.top())); w.close(); }
    w.close();
    w.close();
}
static void lset (Args& a, int ix, const V& v)
{
    if (a.n <= ix) a.set (ix, 0);
    Arg& g = a.a[ix];
    g.isl = true; g.n = v.size(); g.l = a.pool+a.npool;
    for (int i = 0; i < g.n; ++i) a.pool[a.npool++] = long(v[i]);
}
static bool exec (const char* op, Args& a, Res& r)
{
    if (op[0] != 'q') {
	if (!NR) return false;
	int k = clip (a.i(0)-1, NR); a.set (0, k+1);
	V& v = *vs[k];
	OP("load")	{ Tmp<T> t (a, 1); v.assign (t.begin(), t.end()); return true; }
	OP("pop_back")	{ if (v.empty()) return false; v.pop_back(); return true; }
	int m = a.i(1);
	const Cmp c (m);
	bool h = ustl::is_heap (v.begin(), v.end(), c);
	OP("is")	{ r.push (h); if (!m) r.r[0] = ustl::is_heap (v.begin(), v.end()); return true; }
	OP("make")	{ if (m) ustl::make_heap (v.begin(), v.end(), c); else ustl::make_heap (v.begin(), v.end()); lset (a, 2, v); return true; }
	// whether these apply is the specification's question, too: is is checked on every range
	for (long i = 1; i < long(v.size()); ++i) if (c (v[(i-1)/2], v[i])) return false;
	OP("push")	{ v.push_back (T (a.i(2))); if (m) ustl::push_heap (v.begin(), v.end(), c); else ustl::push_heap (v.begin(), v.end()); lset (a, 3, v); return true; }
	OP("pop")	{ if (v.empty()) return false; if (m) ustl::pop_heap (v.begin(), v.end(), c); else ustl::pop_heap (v.begin(), v.end()); lset (a, 2, v); return true; }
	OP("sort")	{ if (m) ustl::sort_heap (v.begin(), v.end(), c); else ustl::sort_heap (v.begin(), v.end()); lset (a, 2, v); return true; }
	return false;
    }
    if (!NQ) return false;
    int k = clip (a.i(0)-1, NQ); a.set (0, k+1);
    Q& q = *qs[k];
    OP("qpush")		{ const T x (a.i(1)); q.push (x); return true; }
    OP("qemplace")	{ q.emplace (a.i(1)); return true; }
    OP("qpop")		{ if (q.empty()) return false; q.pop(); return true; }
    OP("qdrain")	{ V v; while (!q.empty()) { v.push_back (q.top()); q.pop(); } lset (a, 1, v); return true; }
    OP("qnew")		{ Tmp<T> t (a, 2); const V v (t.begin(), t.end()); q.~Q(); new (&q) Q (v.begin(), v.end(), Cmp (a.i(1))); return true; }
    OP("qnew_c")	{ Tmp<T> t (a, 2); const V v (t.begin(), t.end()); q.~Q(); new (&q) Q (Cmp (a.i(1)), v); return true; }
    OP("qnew_m")	{ Tmp<T> t (a, 2); V v (t.begin(), t.end()); q.~Q(); new (&q) Q (Cmp (a.i(1)), ustl::move (v)); return true; }
    OP("qnew_cm")	{ Tmp<T> t (a, 2); long h = t.n/2; V v (t.begin()+h, t.end()); const V u (t.begin(), t.begin()+h); q.~Q(); new (&q) Q (u.begin(), u.end(), Cmp (a.i(1)), ustl::move (v)); return true; }
    int j = clip (a.i(1)-1, NQ); a.set (1, j+1);
    Q& p = *qs[j];
    OP("qswap")		{ q.swap (p); return true; }
    if (j == k) return false;
    OP("qmove")		{ q = ustl::move (p); return true; }
    OP("qnew_move")	{ q.~Q(); new (&q) Q (ustl::move (p)); return true; }
    return false;
}
