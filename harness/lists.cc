// C05: lists, deques, queues and stacks of DRV_T against Lists.tla
#include "drv.h"
struct Obj {	// owns heap memory
    int*	p;
    Obj (void) : p (new int (0)) {}
    Obj (long v) : p (new int (int(v))) {}
    Obj (const Obj& o) : p (new int (*o.p)) {}
    Obj (Obj&& o) : p (o.p) { o.p = new int (-1); }
    ~Obj (void) { delete p; p = NULL; }
    const Obj& operator= (const Obj& o) { *p = *o.p; return *this; }
    operator long (void) const { return *p; }
    bool operator== (const Obj& o) const { return *p == *o.p; }
    bool operator< (const Obj& o) const { return *p < *o.p; }
};
struct Tens {	// ordered by the tens alone
    long	v;
    Tens (void) : v (0) {}
    explicit Tens (long n) : v (n) {}
    bool operator< (const Tens& o) const { return v/10 < o.v/10; }
};
typedef DRV_T T;
typedef ustl::list<T>	CL;
typedef ustl::deque<T>	CD;
typedef ustl::queue<T>	CQ;
typedef ustl::stack<T>	CK;
typedef ustl::vector<T>	CV;
#ifndef DRV_KINDS
#define DRV_KINDS "llddqqkk"
#endif
static const char kinds[] = DRV_KINDS;
enum { N = sizeof(kinds)-1 };
alignas(16) static char store [N][64];
static bool	up = false;
static long	base;
template <typename C> C& at (int k)	{ return *(C*) store[k]; }
#define EACH(k,X)	switch (kinds[k]) { case 'l': X(CL) break; case 'd': X(CD) break; case 'q': X(CQ) break; case 'k': X(CK) break; }
static void make (int k)
{
    #define X(C) new (store[k]) C;
    EACH(k,X)
    #undef X
}
static void kill (int k)
{
    #define X(C) at<C>(k).~C();
    EACH(k,X)
    #undef X
}
static void seg_begin (void)
{
    if (up) for (int k = 0; k < N; ++k) kill (k);
    base = live_bytes();
    for (int k = 0; k < N; ++k) make (k);
    up = true;
}
static void seg_end (Res& r)
{
    for (int k = 0; k < N; ++k) kill (k);
    r.push (live_bytes()-base);
    for (int k = 0; k < N; ++k) make (k);
}
static void state (W& w)
{
    w.open();
    for (int k = 0; k < N; ++k) {
	if (kinds[k] == 'q') { w.open(); w.i (at<CQ>(k).size()); w.close(); }
	else if (kinds[k] == 'k') { w.open(); w.i (at<CK>(k).size()); w.close(); }
	else { const CL& c = at<CL>(k); if (c.size() > 5000) { w.open(); w.i (-1); w.close(); } else w.list (c.begin(), c.end()); }
    }
    w.close();
}
static bool odd (const T& v)	{ return long(v) & 1; }
#define POS(ix) long p = clip (a.i(ix), n+1); a.set (ix, p);
template <typename C> static bool common (const char* op, Args& a, Res& r, int k, int j)
{
    C& c = at<C>(k); C& d = at<C>(j);
    long n = c.size();
    OP("copy")		{ c = (const C&) d; return true; }
    OP("swap")		{ if (n & 1) c.swap (d); else ustl::swap (c, d); return true; }
    OP("equal")		{ if (!ustl::numeric_limits<T>::is_integral) return false; r.push (((const C&) c) == d); return true; }
    if (k == j) return false;
    OP("new_copy")	{ c.~C(); new (&c) C ((const C&) d); return true; }
    OP("move")		{ c = ustl::move (d); return true; }
    OP("new_move")	{ c.~C(); new (&c) C (ustl::move (d)); return true; }
    return false;
}
template <typename C> static bool lst (const char* op, Args& a, Res& r, int k, int j)
{
    C& c = at<C>(k); const C& cc = c; C& d = at<C>(j);
    long n = c.size(), m = d.size();
    OP("push")		{ const T x (a.i(1)); c.push_back (x); return true; }
    OP("push_move")	{ c.push_back (T (a.i(1))); return true; }
    OP("emplace")	{ c.emplace_back (a.i(1)); return true; }
    OP("pop")		{ if (!n) return false; c.pop_back(); return true; }
    OP("push_front")	{ const T x (a.i(1)); c.push_front (x); return true; }
    OP("push_front_move")	{ c.push_front (T (a.i(1))); return true; }
    OP("emplace_front")	{ c.emplace_front (a.i(1)); return true; }
    OP("pop_front")	{ if (!n) return false; c.pop_front(); return true; }
    OP("insert")	{ POS(1) const T x (a.i(2)); r.push (c.insert (cc.begin()+p, x)-c.begin()); return true; }
    OP("insert_n")	{ POS(1) const T x (a.i(3)); r.push (c.insert (cc.begin()+p, size_t(a.i(2)), x)-c.begin()); return true; }
    OP("insert_l")	{ POS(1) Tmp<T> t (a, 2); r.push ((t.n & 1 ? c.insert (cc.begin()+p, t.begin(), t.end()) : c.insert (cc.begin()+p, t.il()))-c.begin()); return true; }
    OP("erase")		{ if (!n) return false; long p = clip (a.i(1), n); a.set (1, p); r.push (c.erase (c.begin()+p)-c.begin()); return true; }
    OP("erase_r")	{ long b = clip (a.i(1), n+1), e = clip (a.i(2), n+1); if (b > e) { long t = b; b = e; e = t; } a.set (1, b); a.set (2, e); r.push (c.erase (c.begin()+b, c.begin()+e)-c.begin()); return true; }
    OP("resize")	{ const T x (a.i(2)); c.resize (a.i(1), x); return true; }
    OP("assign")	{ Tmp<T> t (a, 1); c.assign (t.begin(), t.end()); return true; }
    OP("clear")		{ c.clear(); return true; }
    OP("remove")	{ const T x (a.i(1)); c.remove (x); return true; }
    OP("remove_odd")	{ c.remove_if (odd); return true; }
    OP("reverse")	{ c.reverse(); return true; }
    OP("unique")	{ c.unique(); return true; }
    OP("sort")		{ c.sort(); return true; }
    OP("set_front")	{ if (!n) return false; c.front() = T(a.i(1)); return true; }
    OP("set_back")	{ if (!n) return false; c.back() = T(a.i(1)); return true; }
    OP("new")		{ Tmp<T> t (a, 1); c.~C(); if (t.n & 1) new (&c) C ((const T*) t.begin(), (const T*) t.end()); else new (&c) C (t.il()); return true; }
    OP("query")		{ r.push (cc.size()); r.push (cc.empty()); if (n) { r.push (long(cc.front())); r.push (long(cc.back())); } return true; }
    if (k == j) return false;
    OP("merge") {
	for (long i = 1; i < n; ++i) if (c[i] < c[i-1]) return false;
	for (long i = 1; i < m; ++i) if (d[i] < d[i-1]) return false;
	c.merge (d); return true;
    }
    OP("merge10") {
	ustl::list<Tens> x, y;
	for (long i = 0; i < n; ++i) { x.push_back (Tens (c[i])); if (i && x[i] < x[i-1]) return false; }
	for (long i = 0; i < m; ++i) { y.push_back (Tens (d[i])); if (i && y[i] < y[i-1]) return false; }
	x.merge (y);
	c.clear(); d.clear();
	for (const auto& i : x) c.push_back (T (long(i.v)));
	for (const auto& i : y) d.push_back (T (long(i.v)));
	return true;
    }
    OP("splice")	{ POS(1) long b = clip (a.i(3), m+1), e = clip (a.i(4), m+1); if (b > e) { long t = b; b = e; e = t; } if (!m) return false; a.set (3, b); a.set (4, e); c.splice (c.begin()+p, d, d.begin()+b, d.begin()+e); return true; }
    OP("splice_all")	{ POS(1) c.splice (c.begin()+p, d); return true; }
    OP("splice_from")	{ POS(1) long b = clip (a.i(3), m+1); a.set (3, b); c.splice (c.begin()+p, d, d.begin()+b); return true; }
    return false;
}
static bool exec (const char* op, Args& a, Res& r)
{
    int k = clip (a.i(0)-1, N); a.set (0, k+1);
    int j = k, ji = 0;
    if (!strcmp (op, "copy") || !strcmp (op, "new_copy") || !strcmp (op, "swap") || !strcmp (op, "move") || !strcmp (op, "new_move") || !strcmp (op, "equal") || !strncmp (op, "merge", 5)) ji = 1;
    if (!strncmp (op, "splice", 6)) ji = 2;
    if (ji) {
	j = clip (a.i(ji)-1, N); a.set (ji, j+1);
	if (kinds[j] != kinds[k]) return false;
    }
    switch (kinds[k]) {
	case 'l': return common<CL> (op, a, r, k, j) || lst<CL> (op, a, r, k, j);
	case 'd': return common<CD> (op, a, r, k, j) || lst<CD> (op, a, r, k, j);
	case 'q': {
	    if (common<CQ> (op, a, r, k, j)) return true;
	    CQ& c = at<CQ>(k); const CQ& cc = c;
	    OP("push")		{ const T x (a.i(1)); c.push (x); return true; }
	    OP("emplace")	{ c.emplace (a.i(1)); return true; }
	    OP("pop")		{ if (c.empty()) return false; c.pop(); return true; }
	    OP("set_front")	{ if (c.empty()) return false; c.front() = T(a.i(1)); return true; }
	    OP("set_back")	{ if (c.empty()) return false; c.back() = T(a.i(1)); return true; }
	    OP("new")		{ Tmp<T> t (a, 1); const CV v (t.begin(), t.end()); c.~CQ(); new (&c) CQ (v); return true; }
	    OP("new_m")		{ Tmp<T> t (a, 1); CV v (t.begin(), t.end()); c.~CQ(); new (&c) CQ (ustl::move (v)); return true; }
	    OP("query")		{ r.push (cc.size()); r.push (cc.empty()); if (cc.size()) { r.push (long(cc.front())); r.push (long(cc.back())); } return true; }
	    OP("drain")		{ while (!c.empty()) { r.push (long(c.front())); c.pop(); } return true; }
	    return false; }
	case 'k': {
	    if (common<CK> (op, a, r, k, j)) return true;
	    CK& c = at<CK>(k); const CK& cc = c;
	    OP("push")		{ const T x (a.i(1)); c.push (x); return true; }
	    OP("emplace")	{ c.emplace (a.i(1)); return true; }
	    OP("pop")		{ if (c.empty()) return false; c.pop(); return true; }
	    OP("set_back")	{ if (c.empty()) return false; c.top() = T(a.i(1)); return true; }
	    OP("new")		{ Tmp<T> t (a, 1); const CV v (t.begin(), t.end()); c.~CK(); new (&c) CK (v); return true; }
	    OP("new_m")		{ Tmp<T> t (a, 1); CV v (t.begin(), t.end()); c.~CK(); new (&c) CK (ustl::move (v)); return true; }
	    OP("query")		{ r.push (cc.size()); r.push (cc.empty()); if (cc.size()) r.push (long(cc.top())); return true; }
	    OP("drain")		{ while (!c.empty()) { r.push (long(c.top())); c.pop(); } return true; }
	    return false; }
    }
    return false;
}
