// M01: memblock, memlink, cmemlink against Mem.tla
#include "drv.h"
using ustl::memblock; using ustl::memlink; using ustl::cmemlink;
enum { NB = 3, NL = 1, NR = 1, K = NB+NL+NR, ML = 12 };
static Raw<memblock>	br [NB];
static Raw<memlink>	lr [NL];
static Raw<cmemlink>	cr [NR];
#define bl(k)	br[(k)-1].o()
#define vw(k)	lr[(k)-1-NB].o()
#define rv(k)	cr[(k)-1-NB-NL].o()
static char	mem [ML];
static long	base;
static bool	alive = false;
static bool isb (int k)	{ return k <= NB; }
static bool isw (int k)	{ return k <= NB+NL; }
static cmemlink& any (int k)	{ return isb(k) ? (cmemlink&) bl(k) : isw(k) ? (cmemlink&) vw(k) : rv(k); }
static bool owns (int k)	{ return isb(k) && !bl(k).is_linked(); }

static void make (void)
{
    for (int k = 1; k <= NB; ++k) new (&bl(k)) memblock;
    new (&vw(NB+1)) memlink;
    new (&rv(NB+NL+1)) cmemlink;
}
static void wipe (void)
{
    vw(NB+1).~memlink();
    rv(NB+NL+1).~cmemlink();
    for (int k = 1; k <= NB; ++k) bl(k).~memblock();
}
static void seg_begin (void)
{
    if (alive) wipe();
    base = live_bytes();
    memset (mem, 0, ML);
    make();
    alive = true;
}
static void seg_end (Res& r)
{
    wipe();
    r.push (live_bytes() - base);
    make();
}
static long where (int k)
{
    const char* p = any(k).cdata();
    long n = any(k).size();
    if (!p) return -2;
    if (owns (k)) {
	bool priv = !(p+n > mem && p < mem+ML);
	for (int j = 1; j <= NB; ++j)
	    if (j != k && owns(j)) {
		const char* q = bl(j).cdata();
		if (p < q+bl(j).capacity() && q < p+bl(k).capacity()) priv = false;
	    }
	return priv ? -1 : -3;
    }
    if (p >= mem && p <= mem+ML) return p-mem;
    for (int j = 1; j <= NB; ++j)
	if (owns(j) && p >= bl(j).cdata() && p <= bl(j).cdata()+bl(j).capacity())
	    return 1000*j + (p-bl(j).cdata());
    return -4;
}
static void state (W& w)
{
    bool cap = true;
    w.obj();
    w.key ("c"); w.open();
    for (int k = 1; k <= K; ++k) {
	const cmemlink& o = any(k);
	if (where(k) == -4 || o.size() > 100000) { w.open(); w.i(-1); w.close(); continue; }
	w.bytes (o.begin(), o.end()-o.begin());
	if (isb(k) && !bl(k).is_linked()) cap = cap && bl(k).capacity() >= o.size();
    }
    w.close();
    w.key ("at"); w.open(); for (int k = 1; k <= K; ++k) w.i (where (k)); w.close();
    w.ki ("cap", cap);
    w.key ("mem"); w.bytes (mem, ML);
    w.endobj();
}
static void drop (int k)	// unlink the views into block k's storage
{
    if (!owns(k)) return;
    for (int j = 1; j <= K; ++j)
	if (j != k && !owns(j)) {
	    long a = where(j);
	    if (a >= 1000 && a/1000 == k) { if (isb(j)) bl(j).unlink(); else if (isw(j)) vw(j).unlink(); else rv(j).unlink(); }
	}
}
static bool exec (const char* op, Args& a, Res& r)
{
    OP("mem_set")	{ int i = clip (a.i(0), ML); a.set (0, i); mem[i] = char(a.i(1)); return true; }
    int k = clip (a.i(0)-1, K)+1; a.set (0, k);
    #define SECOND	int j = clip (a.i(1)-1, K)+1; a.set (1, j);
    long n = any(k).size();
    char tmp [2048]; int tn = a.ln(1); for (int i = 0; i < tn; ++i) tmp[i] = char(a.l(1)[i]);
    OP("link") {
	long o = clip (a.i(1), ML+1), m = clip (a.i(2), ML-o+1); a.set (1, o); a.set (2, m);
	if (isb(k)) {
	    drop (k);
	    void* p = owns(k) ? bl(k).data() : NULL;
	    if (o % 3 == 0) bl(k).link (mem+o, m); else if (o % 3 == 1) bl(k).link ((const void*)(mem+o), m); else bl(k).link ((void*)(mem+o), (void*)(mem+o+m));
	    free (p);
	} else if (isw(k)) { if (o & 1) vw(k).link (mem+o, m); else vw(k).relink (mem+o, m); }
	else { if (o & 1) rv(k).link ((const void*)(mem+o), (const void*)(mem+o+m)); else rv(k).link (mem+o, m); }
	return true;
    }
    OP("link_null")	{ if (a.i(1) <= 0) return false; if (isb(k)) bl(k).link ((const void*) NULL, size_t(a.i(1))); else if (isw(k)) vw(k).link ((void*) NULL, size_t(a.i(1))); else rv(k).link ((const void*) NULL, size_t(a.i(1))); return true; }
    OP("link_obj") {
	SECOND if (j == k) return false;
	if (isb(k)) {
	    drop (k);
	    void* p = owns(k) ? bl(k).data() : NULL;
	    if (isw(j) && isb(j)) bl(k).link (bl(j)); else bl(k).link (any(j));
	    free (p);
	} else if (isw(k)) { if (isb(j)) vw(k).link (bl(j)); else vw(k) = any(j); }
	else { if (n & 1) rv(k).link (any(j)); else rv(k) = any(j); }
	return true;
    }
    OP("unlink")	{ if (owns(k)) return false; if (isb(k)) bl(k).unlink(); else if (isw(k)) vw(k).unlink(); else rv(k).unlink(); return true; }
    OP("vresize")	{ if (isb(k)) return false; long m = clip (a.i(1), n+1); a.set (1, m); if (isw(k)) vw(k).resize (m); else rv(k).resize (m); return true; }
    OP("vswap") {
	SECOND if (isb(k) || isb(j)) return false;
	if (j == k) { if (isw(k)) vw(k).swap (vw(k)); else rv(k).swap (rv(k)); }
	else if (isw(k)) vw(k).cmemlink::swap (rv(j)); else rv(k).swap (vw(j));
	return true;
    }
    OP("equal")		{ SECOND r.push (any(k) == any(j)); return true; }
    OP("sizes")		{ r.push (any(k).size()); r.push (any(k).readable_size()); r.push (any(k).empty()); return true; }
    if (!isw(k)) return false;
    memlink& l = isb(k) ? (memlink&) bl(k) : vw(k);
    OP("write")		{ if (!n) return false; long i = clip (a.i(1), n); a.set (1, i); if (i & 1) l.begin()[i] = char(a.i(2)); else *l.iat(i) = char(a.i(2)); return true; }
    OP("fill") {
	long p = clip (a.i(1), n+1); a.set (1, p);
	long es = a.ln(2); long c = es ? clip (a.i(3), (n-p)/es+1) : 0; a.set (3, c);
	char pat [80]; if (es > 80 || !es) return false; for (int i = 0; i < es; ++i) pat[i] = char(a.l(2)[i]);
	l.fill (l.begin()+p, pat, es, c);
	return true;
    }
    OP("vinsert")	{ if (isb(k)) return false; long p = clip (a.i(1), n+1), m = clip (a.i(2), n-p+1); a.set (1,p); a.set (2,m); l.insert (l.begin()+p, m); for (int i = 0; i < m; ++i) l.begin()[p+i] = char(a.i(3)); return true; }
    OP("verase")	{ if (isb(k)) return false; long p = clip (a.i(1), n+1), m = clip (a.i(2), n-p+1); a.set (1,p); a.set (2,m); l.erase (l.begin()+p, m); for (int i = 0; i < m; ++i) l.end()[-1-i] = char(a.i(3)); return true; }
    if (!isb(k)) return false;
    memblock& b = bl(k);
    // calls that do not apply leave no trace
    if (!strcmp (op, "move") || !strcmp (op, "new_move")) { SECOND if (!isb(j) || j == k) return false; }
    if (!strcmp (op, "swap")) { SECOND if (!isb(j)) return false; }
    if (!strcmp (op, "new_copy")) { SECOND if (j == k) return false; }
    if (!strcmp (op, "manage") && (owns(k) || !tn)) return false;
    drop (k);
    n = b.size();
    OP("resize")	{ long m = a.i(1); if (m & 1) b.resize (m); else b.resize (m, false); for (long i = n; i < m; ++i) b.begin()[i] = char(a.i(2)); return true; }
    OP("clear")		{ b.clear(); return true; }
    OP("assign")	{ b.assign (tmp, tn); return true; }
    OP("copy")		{ SECOND if (isb(j)) b = bl(j); else if (isw(j)) b = vw(j); else b = rv(j); return true; }
    OP("move")		{ SECOND if (!isb(j) || j == k) return false; drop (j); b = ustl::move (bl(j)); return true; }
    OP("swap")		{ SECOND if (!isb(j)) return false; drop (j); if (n & 1) b.swap (bl(j)); else ustl::swap (b, bl(j)); return true; }
    OP("dealloc")	{ b.deallocate(); return true; }
    OP("new_n")		{ b.~memblock(); new (&b) memblock (size_t(a.i(1))); for (long i = 0; i < a.i(1); ++i) b.begin()[i] = char(a.i(2)); return true; }
    OP("new_pn")	{ b.~memblock(); new (&b) memblock (tmp, tn); return true; }
    OP("new_copy")	{ SECOND if (j == k) return false; b.~memblock(); if (isb(j)) new (&b) memblock (bl(j)); else if (isw(j)) new (&b) memblock (vw(j)); else new (&b) memblock (rv(j)); return true; }
    OP("new_move")	{ SECOND if (!isb(j) || j == k) return false; drop (j); b.~memblock(); new (&b) memblock (ustl::move (bl(j))); return true; }
    OP("reserve")	{ size_t m = a.i(1); b.reserve (m, a.i(2)); r.push (b.capacity() >= m); return true; }
    OP("reserve_g")	{ size_t m = size_t(a.i(1)) << 20; b.reserve (m, a.i(2)); r.push (b.capacity() >= m); return true; }
    OP("shrink")	{ b.shrink_to_fit(); return true; }
    OP("copy_link")	{ b.copy_link(); return true; }
    OP("insert")	{ long p = clip (a.i(1), n+1), m = a.i(2); a.set (1, p); memblock::iterator i = b.insert (b.begin()+p, m); r.push (i-b.begin()); for (long q = 0; q < m; ++q) i[q] = char(a.i(3)); return true; }
    OP("erase")		{ long p = clip (a.i(1), n+1), m = clip (a.i(2), n-p+1); a.set (1, p); a.set (2, m); memblock::iterator i = b.erase (b.begin()+p, m); r.push (i-b.begin()); return true; }
    OP("release")	{ char* p = owns(k) ? b.data() : NULL; long m = owns(k) ? b.size() : 0; b.unlink(); r.bytes (p, m); free (p); return true; }
    OP("manage")	{ if (owns(k) || !tn) return false; char* p = (char*) malloc (tn); memcpy (p, tmp, tn); if (tn & 1) b.manage (p, tn); else { memlink t (p, tn); b.manage (t); } return true; }
    return false;
}
