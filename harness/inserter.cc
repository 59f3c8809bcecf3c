// I01: inserting iterators on containers of DRV_KIND against Inserter.tla
#include "drv.h"
struct Tok {
    int* p;
    Tok (void) : p (new int (0)) {}
    explicit Tok (long v) : p (new int (v)) {}
    Tok (const Tok& t) : p (new int (*t.p)) {}
    ~Tok (void) { delete p; }
    const Tok& operator= (const Tok& t) { *p = *t.p; return *this; }
    bool operator== (const Tok& t) const { return *p == *t.p; }
    bool operator< (const Tok& t) const { return *p < *t.p; }
    operator long (void) const { return *p; }
};
typedef Tok E;
#if DRV_KIND == 1
typedef ustl::vector<E> C;
#elif DRV_KIND == 2
typedef ustl::list<E> C;
#elif DRV_KIND == 4
typedef ustl::set<E> C;
#elif DRV_KIND == 5
typedef ustl::multiset<E> C;
#else
typedef ustl::string C;
#define E char
#endif
static C* c; static Raw<ustl::insert_iterator<C> > ins; static bool have = false;
static long base; static bool up = false;
static void seg_begin (void)	{ if (up) delete c; base = live_bytes(); up = true; c = new C; have = false; }
static void seg_end (Res& r)	{ delete c; r.push (live_bytes()-base); c = new C; have = false; }
static void state (W& w)	{ w.open(); w.open(); for (C::const_iterator i = c->begin(); i != c->end(); ++i) w.i (*i); w.close(); w.close(); }
template <typename It> static void put (It& i, Args& a, const E* v, int w)
{
    for (int k = 0; k < a.ln(0); ++k) {
	switch (w) {
	    default:	*i = v[k]; ++i; break;
	    case 1:	*i++ = v[k]; break;
	    case 2:	*i = v[k]; i++; break;
	    case 3:	if (k&1) *i++ = v[k]; else { *i = v[k]; ++i; } break;
	    case 4:	{ It j (i); *j++ = v[k]; It m (j); i.~It(); new (&i) It (m); break; }
	}
    }
}
template <typename It> static void send (It i, Args& a, const E* v, int w)
{
    using namespace ustl;
    const int n = a.ln(0); const E last (a.i(1));
    switch (w) {
	default: *copy (v, v+n, i) = last; break;
	case 1: *copy_n (v, n, i) = last; break;
	case 2: *transform (v, v+n, i, identity<E>()) = last; break;
	case 3: *reverse_copy (reverse_iterator<const E*> (v+n), reverse_iterator<const E*> (v), i) = last; break;
	case 4: *remove_copy_if (v, v+n, i, bind2nd (equal_to<E>(), E (0))) = last; break;
    }
}
static bool exec (const char* op, Args& a, Res&)
{
    using namespace ustl;
    if (c->size() > 400) return false;
    for (int k = 0; k < a.ln(0); ++k) if (a.l(0)[k] < 1 || a.l(0)[k] > 120) return false;
    Tmp<E> v (a, 0);
    OP("set") { C d; for (int k = 0; k < v.n; ++k) d.push_back (v.p[k]); c->swap (d); have = false; return true; }
    OP("at") { if (a.i(0) < 0 || size_t(a.i(0)) > c->size()) return false; if (a.i(0)&1) ins.make (*c, c->begin()+a.i(0)); else ins.make (inserter (*c, c->begin()+a.i(0))); have = true; return true; }
    OP("put") { if (!have || a.i(1) < 0 || a.i(1) > 4) return false; put (*ins, a, v.p, a.i(1)); return true; }
    OP("send") { if (!have || a.i(1) < 1 || a.i(1) > 120) return false; send (*ins, a, v.p, a.i(2)); have = false; return true; }
    OP("back") { back_insert_iterator<C> i (back_inserter (*c)); have = false; if (a.i(1) < 5) put (i, a, v.p, a.i(1)); else copy (v.p, v.p+v.n, i); return true; }
    #if DRV_KIND == 2
    OP("front") { front_insert_iterator<C> i (front_inserter (*c)); have = false; if (a.i(1) < 5) put (i, a, v.p, a.i(1)); else copy (v.p, v.p+v.n, i); return true; }
    #endif
    return false;
}
