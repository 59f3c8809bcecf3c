// I01: iterator adaptors of DRV_KIND against Walk.tla
#include "drv.h"
struct Tok {	// moved from, it is nothing
    int* p;
    Tok (void) : p (NULL) {}
    explicit Tok (long v) : p (new int (v)) {}
    Tok (const Tok& t) : p (t.p ? new int (*t.p) : NULL) {}
    Tok (Tok&& t) : p (t.p) { t.p = NULL; }
    ~Tok (void) { delete p; }
    const Tok& operator= (const Tok& t) { if (&t != this) { delete p; p = t.p ? new int (*t.p) : NULL; } return *this; }
    const Tok& operator= (Tok&& t) { if (&t != this) { delete p; p = t.p; t.p = NULL; } return *this; }
    long val (void) const { return p ? *p : 0; }
    operator long (void) const { return val(); }
};
typedef ustl::vector<Tok> V;
typedef ustl::vector<uoff_t> X;
static V* mem; static X* idx;
enum { NS = 3 };
typedef ustl::reverse_iterator<Tok*> RV;
typedef ustl::move_iterator<Tok*> M;
typedef ustl::index_iterate<Tok*, uoff_t*> IX;
#define MB	mem->begin()
#define ME	mem->end()
#define XB	idx->begin()
#define XE	idx->end()
#if DRV_KIND == 1
typedef RV I;
static I mk (long n)		{ return I (ME-n); }
static long pos (const I& i)	{ return ME-i.base(); }
static I first (int w)		{ return w == 0 ? mem->rbegin() : w == 1 ? ustl::rbegin (*mem) : ustl::make_reverse_iterator (ME); }
static I last (int w)		{ return w == 0 ? mem->rend() : w == 1 ? ustl::rend (*mem) : ustl::make_reverse_iterator (MB); }
#elif DRV_KIND == 2
typedef ustl::reverse_iterator<const Tok*> I;
static const V& cm (void)	{ return *mem; }
static I mk (long n)		{ return I (cm().end()-n); }
static long pos (const I& i)	{ return ME-i.base(); }
static I first (int w)		{ return w == 0 ? cm().rbegin() : w == 1 ? ustl::rbegin (cm()) : w == 2 ? mem->crbegin() : w == 3 ? ustl::crbegin (*mem) : ustl::make_reverse_iterator (mem->cend()); }
static I last (int w)		{ return w == 0 ? cm().rend() : w == 1 ? ustl::rend (cm()) : w == 2 ? mem->crend() : w == 3 ? ustl::crend (*mem) : ustl::make_reverse_iterator (mem->cbegin()); }
#elif DRV_KIND == 3
typedef ustl::reverse_iterator<RV> I;
static I mk (long n)		{ return I (RV (MB+n)); }
static long pos (const I& i)	{ return i.base().base()-MB; }
static I first (int w)		{ return w ? ustl::make_reverse_iterator (mem->rend()) : I (mem->rend()); }
static I last (int w)		{ return w ? ustl::make_reverse_iterator (mem->rbegin()) : I (mem->rbegin()); }
#elif DRV_KIND == 4
typedef M I;
static I mk (long n)		{ return I (MB+n); }
static long pos (const I& i)	{ return i.base()-MB; }
static I first (int w)		{ return w ? ustl::make_move_iterator (MB) : I (MB); }
static I last (int w)		{ return w ? ustl::make_move_iterator (ME) : I (ME); }
#elif DRV_KIND == 5
typedef ustl::reverse_iterator<M> I;
static I mk (long n)		{ return I (M (ME-n)); }
static long pos (const I& i)	{ return ME-i.base().base(); }
static I first (int w)		{ return w ? ustl::make_reverse_iterator (ustl::make_move_iterator (ME)) : I (M (ME)); }
static I last (int w)		{ return w ? ustl::make_reverse_iterator (ustl::make_move_iterator (MB)) : I (M (MB)); }
#elif DRV_KIND == 6
typedef ustl::move_iterator<RV> I;
static I mk (long n)		{ return I (RV (ME-n)); }
static long pos (const I& i)	{ return ME-i.base().base(); }
static I first (int w)		{ return w ? ustl::make_move_iterator (mem->rbegin()) : I (RV (ME)); }
static I last (int w)		{ return w ? ustl::make_move_iterator (mem->rend()) : I (RV (MB)); }
#elif DRV_KIND == 7
typedef IX I;
static I mk (long n)		{ return I (MB, XB+n); }
static long pos (const I& i)	{ return i.base()-XB; }
static I first (int)		{ return ustl::index_iterator (MB, XB); }
static I last (int)		{ return ustl::index_iterator (MB, XE); }
#elif DRV_KIND == 8
typedef ustl::reverse_iterator<IX> I;
static I mk (long n)		{ return I (IX (MB, XE-n)); }
static long pos (const I& i)	{ return XE-i.base().base(); }
static I first (int)		{ return ustl::make_reverse_iterator (ustl::index_iterator (MB, XE)); }
static I last (int)		{ return ustl::make_reverse_iterator (ustl::index_iterator (MB, XB)); }
#else
typedef Tok* I;
static I mk (long n)		{ return MB+n; }
static long pos (const I& i)	{ return i-MB; }
static I first (int w)		{ return w ? ustl::begin (*mem) : mem->begin(); }
static I last (int w)		{ return w ? ustl::end (*mem) : mem->end(); }
#endif
enum { Indexed = DRV_KIND == 7 || DRV_KIND == 8 };
static Raw<I> s [NS];
static long base; static bool up = false;
static long length (void)	{ return Indexed ? idx->size() : mem->size(); }
static long at (int k)		{ return pos (*s[k]); }
static void seg_begin (void)
{
    if (up) { delete mem; delete idx; }
    base = live_bytes(); up = true;
    mem = new V; idx = new X;
    for (int k = 0; k < NS; ++k) s[k].make (mk (0));
}
static void seg_end (Res& r)
{
    delete mem; delete idx; r.push (live_bytes()-base);
    mem = new V; idx = new X;
    for (int k = 0; k < NS; ++k) *s[k] = mk (0);
}
static void state (W& w)
{
    w.open();
    w.open(); for (const Tok* t = mem->begin(); t != mem->end(); ++t) w.i (t->val()); w.close();
    w.open(); for (size_t n = 0; n < idx->size(); ++n) w.i ((*idx)[n]); w.close();
    w.open(); for (int k = 0; k < NS; ++k) w.i (at (k)); w.close();
    w.close();
}
static bool in (long p)		{ return p >= 0 && p < length(); }
#if DRV_KIND == 7 || DRV_KIND == 8
#define VAL1(e)		(*(e))
static void show (Res& r, Tok* p)	{ r.push (p-MB); r.push (p->val()); }
#else
#define VAL1(e)		(e)
static void show (Res& r, const Tok& t)	{ r.push (t.val()); }
#endif
#define PUT(e,t)	VAL1(e) = t
static bool exec (const char* op, Args& a, Res& r)
{
    using namespace ustl;
    OP("set") {
	for (int n = 0; n < a.ln(1); ++n) if (!Indexed || a.l(1)[n] < 0 || a.l(1)[n] >= a.ln(0)) return false;
	mem->resize (a.ln(0)); idx->resize (a.ln(1));
	for (int n = 0; n < a.ln(0); ++n) (*mem)[n] = Tok (a.l(0)[n]);
	for (int n = 0; n < a.ln(1); ++n) (*idx)[n] = a.l(1)[n];
	for (int n = 0; n < NS; ++n) { s[n].kill(); s[n].make (mk (0)); }
	return true;
    }
    OP("loop") {
	r.push (length());
	for (I i = first (0); i != last (0); ++i) {
	    #if DRV_KIND == 7 || DRV_KIND == 8
		r.push (*i-MB);
	    #else
		show (r, *i);
	    #endif
	}
	#if DRV_KIND == 1
	    eachfor (V::reverse_iterator, i, *mem) r.push (i->val());
	#elif DRV_KIND == 2
	    eachfor (V::const_reverse_iterator, i, cm()) r.push (i->val());
	#elif DRV_KIND == 7 || DRV_KIND == 8
	    vector<Tok*> out;
	    #if DRV_KIND == 7
		indexv_to_iteratorv (MB, *idx, out);
	    #else
		out.resize (idx->size()); copy_n (first (0), idx->size(), out.begin());
	    #endif
	    for (size_t n = 0; n < out.size(); ++n) r.push (out[n]-MB);
	#elif DRV_KIND == 9
	    foreach (V::iterator, i, *mem) r.push (i->val());
	#else
	    for (I i = first (1); i < last (1); i++) show (r, *i);
	#endif
	return true;
    }
    #if DRV_KIND == 9
    OP("helpers") {
	const long n = mem->size(), m = a.i(0); if (m < 0 || m > n) return false;
	const V& c = *mem;
	string str (n, 'x'); const string& cstr = str;
	list<int> lst (n, 3); const list<int>& clst = lst;
	#define H1(v,c,b)	r.push (ustl::begin(v)-b); r.push (ustl::end(v)-b); r.push (ustl::cbegin(c)-b); r.push (ustl::cend(c)-b); \
				r.push (ustl::rbegin(v).base()-b); r.push (ustl::rend(c).base()-b); r.push (ustl::crbegin(v).base()-b); r.push (ustl::crend(c).base()-b); \
				r.push (ustl::size(v)); r.push (ustl::empty(c)); r.push (ustl::data(v)-b);
	H1((*mem),c,MB)
	H1(str,cstr,str.data())
	H1(lst,clst,lst.data())
	int arr [5] = { 1, 2, 3, 4, 5 };
	r.push (ustl::begin(arr)-arr); r.push (VectorEnd(arr)-arr); r.push (ustl::data(arr)-arr); r.push (ustl::end(arr)-arr); r.push (ustl::size(arr)); r.push (ustl::cbegin(arr)-arr);
	V v2 (n); const V& c2 = v2;
	r.push (ibyi (c.begin()+m, c, c2)-v2.begin());
	r.push (ibyi (mem->begin()+m, *mem, v2)-v2.begin());
	r.push (ibyi (c.begin()+m, c, v2)-v2.begin());
	r.push (ibyi (mem->begin()+m, *mem, c2)-v2.begin());
	r.push (unconst (c.begin()+m, *mem)-MB);
	foreach (V::iterator, i, *mem) r.push (i->val());
	foreach (V::const_iterator, i, c) r.push (i->val());
	eachfor (V::reverse_iterator, i, *mem) r.push (i->val());
	eachfor (V::const_reverse_iterator, i, c) r.push (i->val());
	return true;
    }
    #endif
    const int k = a.i(0)-1;
    if (k < 0 || k >= NS) return false;
    const long p = at (k), n = length();
    OP("at") { if (a.i(1) < 0 || a.i(1) > n) return false; *s[k] = mk (a.i(1)); return true; }
    OP("step") {
	const int w = a.i(1); const long q = w < 2 ? p+1 : p-1;
	if (q < 0 || q > n || w < 0 || w > 3) return false;
	I& i = *s[k];
	r.push (pos (w == 0 ? ++i : w == 1 ? i++ : w == 2 ? --i : i--));
	return true;
    }
    OP("shift") {
	const long d = a.i(1), q = p+d; const int w = a.i(2);
	if (q < 0 || q > n || w < 0 || w > 5) return false;
	I& i = *s[k];
	if (w == 0) r.push (pos (i += d));
	else if (w == 1) r.push (pos (i -= -d));
	else if (w == 2) r.push (pos (i = i+d));
	else if (w == 3) r.push (pos (i = i-(-d)));
	else if (w == 4 || DRV_KIND != 9) r.push (pos (ustl::advance (i, d)));
	#if DRV_KIND == 9
	else if (d&1) {
	    void* v = i; void* u = ustl::advance (v, d*long(sizeof(Tok)));
	    i = (Tok*) v; r.push (pos ((Tok*) u));
	} else {
	    const void* v = i; const void* u = ustl::advance (v, d*long(sizeof(Tok)));
	    i = (Tok*) v; r.push (pos ((Tok*) u));
	}
	#endif
	return true;
    }
    OP("read") {
	const long d = a.i(1);
	if (!in (p) || !in (p+d)) return false;
	const I& i = *s[k];
	show (r, *i);
	#if DRV_KIND == 5 || DRV_KIND == 7 || DRV_KIND == 8
	    I c (i); show (r, *c++);
	#else
	    r.push (i->val());
	#endif
	show (r, i[d]); show (r, *(i+d));
	return true;
    }
    OP("write") {
	#if DRV_KIND != 2
	    const long d = a.i(1);
	    if (!in (p+d)) return false;
	    I& i = *s[k];
	    Tok t (a.i(2));
	    if (d) PUT(i[d],t); else PUT(*i,t);
	    return true;
	#else
	    return false;
	#endif
    }
    OP("take") {
	const long d = a.i(1);
	if (!in (p+d)) return false;
	I& i = *s[k];
	if (d) { Tok t (VAL1(i[d])); r.push (t.val()); }
	else { Tok t (VAL1(*i)); r.push (t.val()); }
	return true;
    }
    const int j = a.i(1)-1;
    if (j < 0 || j >= NS) return false;
    const long o = at (j);
    OP("ends") { if (j == k) return false; const int w = a.i(2); *s[k] = first (w); *s[j] = last (w); return true; }
    OP("copy") { if (a.i(2)) { I c (*s[j]); *s[k] = c; } else *s[k] = *s[j]; return true; }
    OP("plus") {
	const long d = a.i(2); const int w = a.i(3);
	if (o+d < 0 || o+d > n) return false;
	const I& i = *s[j];
	if (w) *s[k] = i-(-d); else *s[k] = i+d;
	return true;
    }
    OP("pair") {
	const I &x = *s[k], &y = *s[j];
	#if DRV_KIND == 9
	    const int w = a.i(2);
	    if (w) {
		void *vx = x, *vy = y; const void *cx = x, *cy = y; const long z = sizeof(Tok);
		r.push ((w == 1 ? ustl::distance (vy, vx) : w == 2 ? ustl::distance (cy, cx) : w == 3 ? ustl::distance (vy, cx) : ustl::distance (cy, vx))/z);
		r.push ((w == 1 ? ustl::distance (y, x) : w == 2 ? ustl::distance ((const Tok*) y, x) : ustl::distance (y, (const Tok*) x))/1);
		r.push ((w == 1 ? ustl::abs_distance (vy, vx) : w == 2 ? ustl::abs_distance (cy, cx) : ustl::abs_distance (vy, cx))/z);
	    } else
	#endif
	{ r.push (x-y); r.push (ustl::distance (y, x)); r.push (ustl::abs_distance (x, y)); }
	r.push (x == y); r.push (x != y); r.push (x < y); r.push (x > y); r.push (x <= y); r.push (x >= y);
	return true;
    }
    OP("range") {
	if (p > o) return false;
	r.push (o-p);
	#if DRV_KIND == 7 || DRV_KIND == 8
	    vector<Tok*> out (o-p);
	    if (a.i(2)) ustl::copy (*s[k], *s[j], out.begin()); else ustl::copy_n (*s[k], o-p, out.begin());
	    for (long n = 0; n < o-p; ++n) r.push (out[n]-MB);
	#else
	    vector<Tok> out (o-p);
	    if (a.i(2)) ustl::copy (*s[k], *s[j], out.begin()); else ustl::copy_n (*s[k], o-p, out.begin());
	    for (long n = 0; n < o-p; ++n) r.push (out[n].val());
	#endif
	return true;
    }
    return false;
}
