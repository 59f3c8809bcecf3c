// C03: sets and multisets of DRV_T against Sorted.tla
#include "drv.h"
#ifdef DRV_STR
struct T : public ustl::string {	// text that orders as the number does
    T (void) {}
    T (long v)			{ if (v) format ("%06ld and some more text to own", v); }
    operator long (void) const	{ return atol (c_str()); }
};
#else
typedef DRV_T T;
#endif
typedef ustl::set<T>			CS;
typedef ustl::multiset<T>		CM;
typedef ustl::set<T,ustl::greater<T> >	CT;
typedef ustl::multiset<T,ustl::greater<T> >	CN;
struct Third { bool operator() (const T& a, const T& b) const { return long(a)/3 < long(b)/3; } };
typedef ustl::set<T,Third>		CC;
typedef ustl::multiset<T,Third>		CD;
#ifndef DRV_KINDS
#define DRV_KINDS "ssmmttnnccdd"
#endif
static const char kinds[] = DRV_KINDS;
enum { N = sizeof(kinds)-1 };
static Raw<CS>	cs [N];
static bool	up = false;
static long	base;
template <typename C> C& at (int k)	{ static_assert (sizeof(C) <= sizeof(CS), ""); return *(C*) &cs[k].o(); }
static void make (int k)	{ switch (kinds[k]) { case 's': new (&at<CS>(k)) CS; break; case 'm': new (&at<CM>(k)) CM; break; case 't': new (&at<CT>(k)) CT; break; case 'n': new (&at<CN>(k)) CN; break; case 'c': new (&at<CC>(k)) CC; break; case 'd': new (&at<CD>(k)) CD; break; } }
static void kill (int k)	{ switch (kinds[k]) { case 's': at<CS>(k).~CS(); break; case 'm': at<CM>(k).~CM(); break; case 't': at<CT>(k).~CT(); break; case 'n': at<CN>(k).~CN(); break; case 'c': at<CC>(k).~CC(); break; case 'd': at<CD>(k).~CD(); break; } }
static void seg_begin (void)
{
    if (up) for (int k = 0; k < N; ++k) kill (k);
    base = live_bytes();
    for (int k = 0; k < N; ++k) make (k);
    up = true;
}
static void seg_end (Res& r)
{
    for (int k = 0; k < N; ++k) kill (k);
    r.push (live_bytes()-base);
    for (int k = 0; k < N; ++k) make (k);
}
static void state (W& w)
{
    w.open();
    for (int k = 0; k < N; ++k) { const CS& c = at<CS>(k); if (c.size() > 5000) { w.open(); w.i (-1); w.close(); } else w.list (c.begin(), c.end()); }
    w.close();
}
template <typename C> static void inspos (C& c, Res& r, const ustl::pair<typename C::iterator,bool>& i)	{ r.push (i.first - c.begin()); r.push (i.second); }
template <typename C> static void inspos (C& c, Res& r, const typename C::iterator& i)	{ r.push (i - c.begin()); }
template <typename C> static void erasek (C& c, Res& r, const T& x, C*)	{ c.erase (x); }
template <typename Cm> static void erasek (ustl::multiset<T,Cm>& c, Res& r, const T& x, ustl::multiset<T,Cm>*)	{ r.push (c.erase (x)); }
template <typename C> static bool run (const char* op, Args& a, Res& r, int k, int j)
{
    C& c = at<C>(k); const C& cc = c; C& d = at<C>(j);
    long n = c.size();
    OP("insert")	{ const T x (a.i(1)); inspos (c, r, c.insert (x)); return true; }
    OP("insert_move")	{ inspos (c, r, c.insert (T (a.i(1)))); return true; }
    OP("emplace")	{ inspos (c, r, c.emplace (a.i(1))); return true; }
    OP("emplace_back")	{ inspos (c, r, c.emplace_back (a.i(1))); return true; }
    OP("insert_hint")	{ const T x (a.i(1)); inspos (c, r, c.insert (c.begin()+n/2, x)); return true; }
    OP("insert_hint_move")	{ inspos (c, r, c.insert (cc.begin()+n/2, T (a.i(1)))); return true; }
    OP("emplace_hint")	{ inspos (c, r, c.emplace_hint (cc.end(), a.i(1))); return true; }
    OP("push_back")	{ const T x (a.i(1)); c.push_back (x); return true; }
    OP("insert_r")	{ Tmp<T> t (a, 1); c.insert ((const T*) t.begin(), (const T*) t.end()); return true; }
    OP("insert_l")	{ Tmp<T> t (a, 1); c.insert (t.il()); return true; }
    OP("insert_from")	{ if (k == j) return false; long m = d.size(), b = clip (a.i(2), m+1), e = clip (a.i(3), m+1); if (b > e) { long t = b; b = e; e = t; } a.set (2, b); a.set (3, e); const C& dd = d; c.insert (dd.begin()+b, dd.begin()+e); return true; }
    OP("assign")	{ Tmp<T> t (a, 1); c.assign ((const T*) t.begin(), (const T*) t.end()); return true; }
    OP("new_r")		{ Tmp<T> t (a, 1); c.~C(); new (&c) C ((const T*) t.begin(), (const T*) t.end()); return true; }
    OP("new_l")		{ Tmp<T> t (a, 1); c.~C(); new (&c) C (t.il()); return true; }
    OP("new")		{ c.~C(); new (&c) C; return true; }
    OP("erase_k")	{ const T x (a.i(1)); erasek (c, r, x, &c); return true; }
    OP("erase")		{ if (!n) return false; long p = clip (a.i(1), n); a.set (1, p); r.push (c.erase (c.begin()+p)-c.begin()); return true; }
    OP("erase_r")	{ long b = clip (a.i(1), n+1), e = clip (a.i(2), n+1); if (b > e) { long t = b; b = e; e = t; } a.set (1, b); a.set (2, e); r.push (c.erase (c.begin()+b, c.begin()+e)-c.begin()); return true; }
    OP("clear")		{ c.clear(); return true; }
    OP("copy")		{ c = (const C&) d; return true; }
    OP("swap")		{ if (n & 1) c.swap (d); else ustl::swap (c, d); return true; }
    OP("equal")		{ if (!ustl::numeric_limits<T>::is_integral) return false; r.push (cc == d); return true; }
    OP("look") {
	const T x (a.i(1));
	if (n & 1) {
	    r.push (c.find (x)-c.begin()); r.push (c.count (x)); r.push (c.lower_bound (x)-c.begin()); r.push (c.upper_bound (x)-c.begin());
	    typename C::range_t e = c.equal_range (x); r.push (e.first-c.begin()); r.push (e.second-c.begin());
	} else {
	    r.push (cc.find (x)-cc.begin()); r.push (cc.count (x)); r.push (cc.lower_bound (x)-cc.begin()); r.push (cc.upper_bound (x)-cc.begin());
	    typename C::const_range_t e = cc.equal_range (x); r.push (e.first-cc.begin()); r.push (e.second-cc.begin());
	}
	return true;
    }
    OP("query")		{ r.push (cc.size()); r.push (cc.empty()); r.list (cc.begin(), cc.end()); for (typename C::const_reverse_iterator i = cc.rbegin(); i != cc.rend(); ++i) r.push (long(*i)); return true; }
    if (k == j) return false;
    OP("new_copy")	{ c.~C(); new (&c) C ((const C&) d); return true; }
    OP("move")		{ c = ustl::move (d); return true; }
    OP("new_move")	{ c.~C(); new (&c) C (ustl::move (d)); return true; }
    return false;
}
static bool exec (const char* op, Args& a, Res& r)
{
    int k = clip (a.i(0)-1, N); a.set (0, k+1);
    int j = k;
    if (!strcmp (op, "copy") || !strcmp (op, "new_copy") || !strcmp (op, "swap") || !strcmp (op, "move") || !strcmp (op, "new_move") || !strcmp (op, "equal") || !strcmp (op, "insert_from")) {
	j = clip (a.i(1)-1, N); a.set (1, j+1);
	if (kinds[j] != kinds[k]) return false;
    }
    switch (kinds[k]) {
	case 's': return run<CS> (op, a, r, k, j);
	case 'm': return run<CM> (op, a, r, k, j);
	case 't': return run<CT> (op, a, r, k, j);
	case 'n': return run<CN> (op, a, r, k, j);
	case 'c': return run<CC> (op, a, r, k, j);
	case 'd': return run<CD> (op, a, r, k, j);
    }
    return false;
}
