// C02: containers of elements with observable lifetimes against Life.tla
#include "drv.h"
struct Ev { int k; long id, src; };
enum { MAXEV = 60000 };
static Ev	evs [MAXEV];
static int	nev = 0;
static long	nextid = 1;
static void ev (int k, long id, long src = 0)	{ if (nev >= MAXEV) _exit (95); evs[nev].k = k; evs[nev].id = id; evs[nev].src = src; ++nev; }
struct Life {
    long	id;
    long	v;
    ustl::string pay;	// something to release
    Life (void) : id (nextid++), v (0), pay ("default payload of an element")	{ ev (1, id); }
    Life (long n) : id (nextid++), v (n), pay ("numbered payload of an element")	{ ev (1, id); }
    Life (const Life& o) : id (nextid++), v (o.v), pay (o.pay)			{ ev (2, id, o.id); }
    Life (Life&& o) : id (nextid++), v (o.v), pay (ustl::move (o.pay))		{ ev (2, id, o.id); }
    ~Life (void)								{ ev (4, id); id = -7; v = -7; }
    const Life& operator= (const Life& o)					{ ev (3, id, o.id); v = o.v; pay = o.pay; return *this; }
    const Life& operator= (Life&& o)						{ ev (3, id, o.id); v = o.v; pay.swap (o.pay); return *this; }
    bool operator< (const Life& o) const					{ ev (5, id); ev (5, o.id); return v < o.v; }
    bool operator== (const Life& o) const					{ ev (5, id); ev (5, o.id); return v == o.v; }
};
typedef ustl::vector<Life>		CV;
typedef ustl::list<Life>		CL;
typedef ustl::set<Life>			CS;
typedef ustl::multiset<Life>		CM;
typedef ustl::map<Life,Life>		CP;
typedef ustl::multimap<Life,Life>	CN;
typedef ustl::vector<ustl::unique_ptr<Life> > CU;
typedef ustl::stack<Life>		CK;
#ifndef DRV_KINDS
#define DRV_KINDS "vvllssmmppnnuukk"
#endif
static const char kinds[] = DRV_KINDS;
enum { N = sizeof(kinds)-1 };
alignas(16) static char store [N][64];
static bool	up = false;
static long	base;
#define EACH(k,X)	switch (kinds[k]) { case 'v': X(CV) break; case 'l': X(CL) break; case 's': X(CS) break; case 'm': X(CM) break; case 'p': X(CP) break; \
			case 'n': X(CN) break; case 'u': X(CU) break; case 'k': X(CK) break; }
template <typename C> C& at (int k)	{ static_assert (sizeof(C) <= 64, ""); return *(C*) store[k]; }
static void make (int k)
{
    #define X(C) new (store[k]) C;
    EACH(k,X)
    #undef X
}
static void kill (int k)
{
    #define X(C) at<C>(k).~C();
    EACH(k,X)
    #undef X
}
static void seg_begin (void)
{
    if (up) for (int k = 0; k < N; ++k) kill (k);
    nev = 0; nextid = 1;
    base = live_bytes();
    for (int k = 0; k < N; ++k) make (k);
    up = true;
}
static void seg_end (Res& r)
{
    for (int k = 0; k < N; ++k) kill (k);
    r.push (live_bytes()-base);
    for (int k = 0; k < N; ++k) make (k);
}
static const Life* nth (int k, long i)
{
    switch (kinds[k]) {
	case 'v': case 'l': case 's': case 'm': return at<CV>(k).begin()+i;
	case 'u': return at<CU>(k).begin()[i].get();
	case 'p': return i & 1 ? &at<CP>(k).begin()[i/2].second : &at<CP>(k).begin()[i/2].first;
	case 'n': return i & 1 ? &at<CN>(k).begin()[i/2].second : &at<CN>(k).begin()[i/2].first;
	case 'k': return &at<CK>(k).top()-(at<CK>(k).size()-1-i);
    }
    return NULL;
}
static long size (int k)
{
    switch (kinds[k]) {
	#define X(C) return at<C>(k).size();
	case 'p': return 2*at<CP>(k).size();
	case 'n': return 2*at<CN>(k).size();
	case 'u': return at<CU>(k).size();
	case 'k': return at<CK>(k).size();
    }
    return at<CV>(k).size();
    #undef X
}
static void state (W& w)
{
    w.obj();
    w.key ("c"); w.open();
    for (int k = 0; k < N; ++k) { w.open(); long n = size(k); if (n < 0 || n > 5000) w.i (-1); else for (long i = 0; i < n; ++i) { const Life* l = nth(k,i); w.i (l ? l->v : -2); } w.close(); }
    w.close();
    w.key ("held"); w.open();
    for (int k = 0; k < N; ++k) { long n = size(k); if (n > 0 && n <= 5000) for (long i = 0; i < n; ++i) { const Life* l = nth(k,i); w.i (l ? l->id : -2); } }
    w.close();
    w.key ("ev"); w.open();
    for (int i = 0; i < nev; ++i) { w.open(); w.i (evs[i].k); w.i (evs[i].id); w.i (evs[i].src); w.close(); }
    w.close();
    w.endobj();
    nev = 0;
}
#define POS(ix) long p = clip (a.i(ix), n+1); a.set (ix, p);
template <typename C> static bool common (const char* op, Args& a, int k, int j)	// all but the adaptors
{
    C& c = at<C>(k); C& d = at<C>(j);
    long n = c.size();
    OP("erase_n")	{ POS(1) long m = clip (a.i(2), n-p+1); a.set (2, m); if (m == 1) c.erase (c.begin()+p); else c.erase (c.begin()+p, c.begin()+p+m); return true; }
    OP("clear")		{ c.clear(); return true; }
    if (k == j) return false;
    OP("swap")		{ if (n & 1) c.swap (d); else ustl::swap (c, d); return true; }
    OP("move")		{ c = ustl::move (d); return true; }
    OP("new_move")	{ c.~C(); new (&c) C (ustl::move (d)); return true; }
    return false;
}
template <typename C> static bool copies (const char* op, int k, int j)
{
    C& c = at<C>(k); const C& d = at<C>(j);
    OP("copy")		{ c = d; return true; }
    OP("new_copy")	{ if (k == j) return false; c.~C(); new (&c) C (d); return true; }
    return false;
}
template <typename C> static bool seqs (const char* op, Args& a, int k)
{
    C& c = at<C>(k);
    const C& cc = c;
    long n = c.size();
    OP("push")		{ const Life x (a.i(1)); c.push_back (x); return true; }
    OP("push_move")	{ c.push_back (Life (a.i(1))); return true; }
    OP("emplace_back")	{ c.emplace_back (a.i(1)); return true; }
    OP("pop")		{ if (!n) return false; c.pop_back(); return true; }
    OP("insert")	{ POS(1) const Life x (a.i(2)); c.insert (cc.begin()+p, x); return true; }
    OP("insert_move")	{ POS(1) c.insert (cc.begin()+p, Life (a.i(2))); return true; }
    OP("emplace")	{ POS(1) c.emplace (cc.begin()+p, a.i(2)); return true; }
    OP("insert_n")	{ POS(1) const Life x (a.i(3)); c.insert (cc.begin()+p, size_t(a.i(2)), x); return true; }
    OP("insert_l")	{ POS(1) Tmp<Life> t (a, 2); if (t.n & 1) c.insert (cc.begin()+p, t.begin(), t.end()); else c.insert (cc.begin()+p, t.il()); return true; }
    OP("resize")	{ c.resize (a.i(1)); return true; }
    OP("resize_v")	{ const Life x (a.i(2)); c.resize (a.i(1), x); return true; }
    OP("assign_n")	{ const Life x (a.i(2)); c.assign (size_t(a.i(1)), x); return true; }
    OP("assign_l")	{ Tmp<Life> t (a, 1); c.assign (t.begin(), t.end()); return true; }
    OP("write")		{ if (!n) return false; long i = clip (a.i(1), n); a.set (1, i); if (a.i(2) & 1) c[i] = Life (a.i(2)); else { const Life x (a.i(2)); c.at(i) = x; } return true; }
    return false;
}
static bool exec (const char* op, Args& a, Res& r)
{
    int k = clip (a.i(0)-1, N); a.set (0, k+1);
    int j = k;
    if (!strcmp (op, "copy") || !strcmp (op, "new_copy") || !strcmp (op, "swap") || !strcmp (op, "move") || !strcmp (op, "new_move")) {
	j = clip (a.i(1)-1, N); a.set (1, j+1);
	if (kinds[j] != kinds[k]) return false;
    }
    char q = kinds[k];
    OP("new")		{ kill (k); make (k); return true; }
    bool vec = q == 'v' || q == 'l' || q == 'u';
    if (vec) {
	OP("dealloc")	{ if (q == 'u') at<CU>(k).deallocate(); else at<CV>(k).deallocate(); return true; }
	OP("reserve")	{ if (q == 'u') at<CU>(k).reserve (a.i(1)); else at<CV>(k).reserve (a.i(1), a.i(1) & 1); return true; }
	OP("shrink")	{ if (q == 'u') at<CU>(k).shrink_to_fit(); else at<CV>(k).shrink_to_fit(); return true; }
    }
    #define CC(C)	common<C> (op, a, k, j) || copies<C> (op, k, j)
    switch (q) {
	case 'v': return CC(CV) || seqs<CV> (op, a, k);
	case 'l': {
	    if (CC(CL) || seqs<CL> (op, a, k)) return true;
	    CL& c = at<CL>(k);
	    OP("push_front")	{ if (a.i(1) & 1) c.push_front (Life (a.i(1))); else { const Life x (a.i(1)); c.push_front (x); } return true; }
	    OP("pop_front")	{ if (!c.size()) return false; c.pop_front(); return true; }
	    return false; }
	case 'u': {
	    CU& c = at<CU>(k);
	    long n = c.size();
	    if (common<CU> (op, a, k, j)) return true;
	    OP("push")		{ c.push_back (ustl::make_unique<Life> (a.i(1))); return true; }
	    OP("push_move")	{ ustl::unique_ptr<Life> x (new Life (a.i(1))); c.push_back (ustl::move (x)); return true; }
	    OP("emplace_back")	{ c.emplace_back (new Life (a.i(1))); return true; }
	    OP("pop")		{ if (!n) return false; c.pop_back(); return true; }
	    OP("insert")	{ POS(1) c.insert (c.begin()+p, ustl::make_unique<Life> (a.i(2))); return true; }
	    OP("insert_move")	{ POS(1) ustl::unique_ptr<Life> x (new Life (a.i(2))); c.insert (c.begin()+p, ustl::move (x)); return true; }
	    OP("emplace")	{ POS(1) c.emplace (c.begin()+p, new Life (a.i(2))); return true; }
	    OP("write")		{ if (!n) return false; long i = clip (a.i(1), n); a.set (1, i); if (a.i(2) & 1) c[i].reset (new Life (a.i(2))); else c[i] = ustl::make_unique<Life> (a.i(2)); return true; }
	    return false; }
	case 's': case 'm': {
	    if (q == 's' ? (CC(CS)) : (CC(CM))) return true;
	    const Life* none = NULL;
	    OP("put")		{ const Life x (a.i(1)); if (q == 's') { if (x.v & 1) at<CS>(k).insert (x); else at<CS>(k).insert (none, x); } else { if (x.v & 1) at<CM>(k).insert (x); else at<CM>(k).insert (none, x); } return true; }
	    OP("put_move")	{ if (q == 's') { if (a.i(1) & 1) at<CS>(k).insert (Life (a.i(1))); else at<CS>(k).emplace (a.i(1)); } else { if (a.i(1) & 1) at<CM>(k).insert (Life (a.i(1))); else at<CM>(k).emplace (a.i(1)); } return true; }
	    OP("put_l")		{ Tmp<Life> t (a, 1); if (q == 's') { if (t.n & 1) at<CS>(k).insert (t.begin(), t.end()); else at<CS>(k).insert (t.il()); } else { if (t.n & 1) at<CM>(k).insert ((const Life*) t.begin(), (const Life*) t.end()); else at<CM>(k).insert (t.il()); } return true; }
	    OP("erase_k")	{ const Life x (a.i(1)); if (q == 's') at<CS>(k).erase (x); else at<CM>(k).erase (x); return true; }
	    return false; }
	case 'p': case 'n': {
	    if (q == 'p' ? (CC(CP)) : (CC(CN))) return true;
	    OP("putp")		{ const ustl::pair<Life,Life> x (Life (a.i(1)), Life (a.i(2))); if (q == 'p') at<CP>(k).insert (x); else at<CN>(k).insert (x); return true; }
	    OP("putp_move")	{ if (q == 'p') { if (a.i(2) & 1) at<CP>(k).insert (ustl::make_pair (Life (a.i(1)), Life (a.i(2)))); else at<CP>(k).emplace (Life (a.i(1)), Life (a.i(2))); }
				  else { if (a.i(2) & 1) at<CN>(k).insert (ustl::make_pair (Life (a.i(1)), Life (a.i(2)))); else at<CN>(k).emplace (Life (a.i(1)), Life (a.i(2))); } return true; }
	    OP("sub")		{ if (q != 'p') return false; at<CP>(k)[Life (a.i(1))] = Life (a.i(2)); return true; }
	    OP("erase_k")	{ const Life x (a.i(1)); if (q == 'p') at<CP>(k).erase (x); else at<CN>(k).erase (x); return true; }
	    return false; }
	case 'k': {
	    CK& c = at<CK>(k);
	    OP("copy")		{ c = at<CK>(j); return true; }
	    OP("new_copy")	{ if (k == j) return false; c.~CK(); new (&c) CK (at<CK>(j)); return true; }
	    OP("swap")		{ if (k == j) return false; c.swap (at<CK>(j)); return true; }
	    OP("move")		{ if (k == j) return false; c = ustl::move (at<CK>(j)); return true; }
	    OP("new_move")	{ if (k == j) return false; c.~CK(); new (&c) CK (ustl::move (at<CK>(j))); return true; }
	    OP("push")		{ const Life x (a.i(1)); c.push (x); return true; }
	    OP("push_move")	{ c.push (Life (a.i(1))); return true; }
	    OP("pop")		{ if (!c.size()) return false; c.pop(); return true; }
	    return false; }
    }
    return false;
}
