// C04: maps and multimaps against Map.tla
#include "drv.h"
struct Str : public ustl::string {	// text that orders as the number does
    Str (void) {}
    Str (long v)		{ if (v) format ("%06ld and some more text to own", v); }
    operator long (void) const	{ return atol (c_str()); }
};
typedef DRV_K T;
typedef DRV_V V;
typedef ustl::pair<T,V>			P;
typedef ustl::map<T,V>			CP;
typedef ustl::multimap<T,V>		CN;
typedef ustl::map<T,V,ustl::greater<T> >	CR;
struct Third { bool operator() (const T& a, const T& b) const { return long(a)/3 < long(b)/3; } };
typedef ustl::map<T,V,Third>		CQ;
typedef ustl::multimap<T,V,Third>	CU;
#ifndef DRV_KINDS
#define DRV_KINDS "ppnnrrqquu"
#endif
static const char kinds[] = DRV_KINDS;
enum { N = sizeof(kinds)-1 };
static Raw<CP>	cs [N];
static bool	up = false;
static long	base;
template <typename C> C& at (int k)	{ static_assert (sizeof(C) <= sizeof(CP), ""); return *(C*) &cs[k].o(); }
static void make (int k)	{ switch (kinds[k]) { case 'p': new (&at<CP>(k)) CP; break; case 'n': new (&at<CN>(k)) CN; break; case 'r': new (&at<CR>(k)) CR; break; case 'q': new (&at<CQ>(k)) CQ; break; case 'u': new (&at<CU>(k)) CU; break; } }
static void kill (int k)	{ switch (kinds[k]) { case 'p': at<CP>(k).~CP(); break; case 'n': at<CN>(k).~CN(); break; case 'r': at<CR>(k).~CR(); break; case 'q': at<CQ>(k).~CQ(); break; case 'u': at<CU>(k).~CU(); break; } }
static void seg_begin (void)
{
    if (up) for (int k = 0; k < N; ++k) kill (k);
    base = live_bytes();
    for (int k = 0; k < N; ++k) make (k);
    up = true;
}
static void seg_end (Res& r)
{
    for (int k = 0; k < N; ++k) kill (k);
    r.push (live_bytes()-base);
    for (int k = 0; k < N; ++k) make (k);
}
static void state (W& w)
{
    w.open();
    for (int k = 0; k < N; ++k) { w.open(); const CP& c = at<CP>(k); if (c.size() > 5000) w.i (-1); else for (CP::const_iterator i = c.begin(); i != c.end(); ++i) { w.i (long(i->first)); w.i (long(i->second)); } w.close(); }
    w.close();
}
struct PTmp {
    P* p; long n;
    PTmp (const Args& a, int i) : p (NULL), n (a.ln(i)/2) { p = (P*) malloc (sizeof(P)*(n+1)); for (long j = 0; j < n; ++j) new (p+j) P (T (a.l(i)[2*j]), V (a.l(i)[2*j+1])); }
    ~PTmp (void) { for (long j = 0; j < n; ++j) (p+j)->~P(); free (p); }
    const P* begin (void)	{ return p; }
    const P* end (void)	{ return p+n; }
    std::initializer_list<P> il (void) const { std::initializer_list<P> l; const P* q = p; size_t m = n; memcpy ((void*) &l, &q, sizeof(q)); memcpy ((char*) &l + sizeof(q), &m, sizeof(m)); return l; }
};
template <typename C> static void inspos (C& c, Res& r, const ustl::pair<typename C::iterator,bool>& i)	{ r.push (i.first - c.begin()); r.push (i.second); }
template <typename C> static void inspos (C& c, Res& r, const typename C::iterator& i)	{ r.push (i - c.begin()); }
template <typename C> static bool mapops (const char* op, Args& a, Res& r, C& c)
{
    const C& cc = c;
    long n = c.size();
    OP("sub_set")	{ c[T(a.i(1))] = V (a.i(2)); return true; }
    OP("sub_get")	{ r.push (long(c[T(a.i(1))])); return true; }
    OP("emplace_hint")	{ r.push (c.emplace_hint (c.begin()+n/2, T(a.i(1)), V(a.i(2)))-c.begin()); return true; }
    OP("insert_hint")	{ const P x (T(a.i(1)), V(a.i(2))); r.push (c.insert (c.begin()+n/2, x)-c.begin()); return true; }
    OP("find_data")	{ long p = clip (a.i(2), n+1); if (!n) return false; a.set (2, p); const V x (a.i(1)); r.push ((p & 1 ? c.find_data (x, c.begin()+p) : cc.find_data (x, cc.begin()+p, cc.end()))-cc.begin()); return true; }
    bool has = false;
    const T x (a.i(1));
    for (typename C::const_iterator i = cc.begin(); i != cc.end(); ++i) has = has || (!c.key_comp()(i->first, x) && !c.key_comp()(x, i->first));
    if (!has) return false;
    OP("at_get")	{ r.push (long(a.i(1) & 1 ? c.at(x) : cc.at(x))); return true; }
    OP("csub_get")	{ r.push (long(cc[x])); return true; }
    OP("at_set")	{ c.at(x) = V(a.i(2)); return true; }
    return false;
}
static bool special (const char* op, Args& a, Res& r, CP& c)	{ return mapops (op, a, r, c); }
static bool special (const char* op, Args& a, Res& r, CR& c)	{ return mapops (op, a, r, c); }
static bool special (const char* op, Args& a, Res& r, CQ& c)	{ return mapops (op, a, r, c); }
template <typename Cm> static bool special (const char* op, Args& a, Res& r, ustl::multimap<T,V,Cm>& c)
{
    OP("emplace_hint")	{ r.push (c.emplace_hint (c.begin(), T(a.i(1)), V(a.i(2)))-c.begin()); return true; }
    return false;
}
template <typename C> static bool run (const char* op, Args& a, Res& r, int k, int j)
{
    C& c = at<C>(k); const C& cc = c; C& d = at<C>(j);
    long n = c.size();
    if (special (op, a, r, c)) return true;
    OP("insert")	{ const P x (T(a.i(1)), V(a.i(2))); inspos (c, r, c.insert (x)); return true; }
    OP("insert_move")	{ inspos (c, r, c.insert (P (T(a.i(1)), V(a.i(2))))); return true; }
    OP("emplace")	{ inspos (c, r, c.emplace (T(a.i(1)), V(a.i(2)))); return true; }
    OP("emplace_back")	{ inspos (c, r, c.emplace_back (T(a.i(1)), V(a.i(2)))); return true; }
    OP("insert_hint_move")	{ inspos (c, r, c.insert (cc.begin()+n/2, P (T(a.i(1)), V(a.i(2))))); return true; }
    OP("push_back")	{ const P x (T(a.i(1)), V(a.i(2))); c.push_back (x); return true; }
    OP("insert_r")	{ PTmp t (a, 1); c.insert (t.begin(), t.end()); return true; }
    OP("insert_l")	{ PTmp t (a, 1); c.insert (t.il()); return true; }
    OP("insert_from")	{ if (k == j) return false; long m = d.size(), b = clip (a.i(2), m+1), e = clip (a.i(3), m+1); if (b > e) { long t = b; b = e; e = t; } a.set (2, b); a.set (3, e); const C& dd = d; c.insert (dd.begin()+b, dd.begin()+e); return true; }
    OP("assign")	{ PTmp t (a, 1); c.assign (t.begin(), t.end()); return true; }
    OP("new_r")		{ PTmp t (a, 1); c.~C(); new (&c) C (t.begin(), t.end()); return true; }
    OP("new_l")		{ PTmp t (a, 1); c.~C(); new (&c) C (t.il()); return true; }
    OP("new")		{ c.~C(); new (&c) C; return true; }
    OP("erase_k")	{ const T x (a.i(1)); c.erase (x); return true; }
    OP("write")		{ if (!n) return false; long p = clip (a.i(1), n); a.set (1, p); (c.begin()+p)->second = V(a.i(2)); return true; }
    OP("erase")		{ if (!n) return false; long p = clip (a.i(1), n); a.set (1, p); r.push (c.erase (c.begin()+p)-c.begin()); return true; }
    OP("erase_r")	{ long b = clip (a.i(1), n+1), e = clip (a.i(2), n+1); if (b > e) { long t = b; b = e; e = t; } a.set (1, b); a.set (2, e); r.push (c.erase (c.begin()+b, c.begin()+e)-c.begin()); return true; }
    OP("clear")		{ c.clear(); return true; }
    OP("copy")		{ c = (const C&) d; return true; }
    OP("swap")		{ if (n & 1) c.swap (d); else ustl::swap (c, d); return true; }
    OP("look") {
	const T x (a.i(1));
	if (n & 1) {
	    r.push (c.find (x)-c.begin()); r.push (c.count (x)); r.push (c.lower_bound (x)-c.begin()); r.push (c.upper_bound (x)-c.begin());
	    typename C::range_t e = c.equal_range (x); r.push (e.first-c.begin()); r.push (e.second-c.begin());
	} else {
	    r.push (cc.find (x)-cc.begin()); r.push (cc.count (x)); r.push (cc.lower_bound (x)-cc.begin()); r.push (cc.upper_bound (x)-cc.begin());
	    typename C::const_range_t e = cc.equal_range (x); r.push (e.first-cc.begin()); r.push (e.second-cc.begin());
	}
	return true;
    }
    OP("query")		{ r.push (cc.size()); r.push (cc.empty()); for (typename C::const_iterator i = cc.begin(); i != cc.end(); ++i) { r.push (long(i->first)); r.push (long(i->second)); } return true; }
    if (k == j) return false;
    OP("new_copy")	{ c.~C(); new (&c) C ((const C&) d); return true; }
    OP("move")		{ c = ustl::move (d); return true; }
    OP("new_move")	{ c.~C(); new (&c) C (ustl::move (d)); return true; }
    return false;
}
static bool exec (const char* op, Args& a, Res& r)
{
    int k = clip (a.i(0)-1, N); a.set (0, k+1);
    int j = k;
    if (!strcmp (op, "copy") || !strcmp (op, "new_copy") || !strcmp (op, "swap") || !strcmp (op, "move") || !strcmp (op, "new_move") || !strcmp (op, "equal") || !strcmp (op, "insert_from")) {
	j = clip (a.i(1)-1, N); a.set (1, j+1);
	if (kinds[j] != kinds[k]) return false;
    }
    switch (kinds[k]) {
	case 'p': return run<CP> (op, a, r, k, j);
	case 'n': return run<CN> (op, a, r, k, j);
	case 'r': return run<CR> (op, a, r, k, j);
	case 'q': return run<CQ> (op, a, r, k, j);
	case 'u': return run<CU> (op, a, r, k, j);
    }
    return false;
}
