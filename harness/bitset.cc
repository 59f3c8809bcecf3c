// C07: bitsets of DRV_W bits against Bitset.tla
#include "drv.h"
enum { W_ = DRV_W, N = DRV_N };
typedef ustl::bitset<W_> S;
static S bs [N];
static uint32_t guard = 0;
static void seg_begin (void)	{ for (int k = 0; k < N; ++k) bs[k] = S(); }
static void seg_end (Res& r)	{ seg_begin(); r.push (0); }
static void state (W& w)
{
    w.open();
    for (int k = 0; k < N; ++k) {
	const S& s = bs[k];
	w.open(); for (int i = 0; i < W_; ++i) if (i & 1 ? s.test (i) : s[i]) w.i (i); w.close();
    }
    w.close();
}
static uint32_t num (const Args& a, int ix)	{ const long* l = a.l(ix); int n = a.ln(ix); return (n > 0 ? l[0] : 0) | (n > 1 ? l[1] << 16 : 0); }
static ustl::string text (const Args& a, int ix)	{ ustl::string s; for (int i = 0; i < a.ln(ix); ++i) s.push_back (char(a.l(ix)[i])); return s; }
static bool exec (const char* op, Args& a, Res& r)
{
    int k = clip (a.i(0)-1, N); a.set (0, k+1);
    S& s = bs[k];
    const S& cs = s;
    OP("flip_all")	{ s.flip(); return true; }
    OP("set_all")	{ s.set(); return true; }
    OP("reset_all")	{ s.reset(); return true; }
    OP("clear")		{ s.clear(); return true; }
    OP("from_num")	{ if (k & 1) s = S (num (a, 1)); else { memset (&s, 0xA5, sizeof(s)); new (&s) S (num (a, 1)); } return true; }
    OP("from_text")	{ if (k & 1) s = S (text (a, 1)); else { memset (&s, 0xA5, sizeof(s)); new (&s) S (text (a, 1)); } return true; }
    OP("query") {
	r.push (cs.size()); r.push (cs.count()); r.push (cs.any()); r.push (cs.none()); r.push (cs.to_value() & 0xffff); r.push (cs.to_value() >> 16);
	ustl::string t = cs.to_string();
	ustl::ostringstream os; os << cs; os.flush();
	if (!(os.str() == t)) t = "differs";
	for (size_t i = 0; i < t.size(); ++i) r.push (uint8_t(t[i]));
	return true;
    }
    if (!strcmp (op, "flip") || !strcmp (op, "set1") || !strcmp (op, "reset") || !strcmp (op, "set")) {
	long n = clip (a.i(1), W_); a.set (1, n);
	OP("flip")	{ s.flip (n); return true; }
	OP("set1")	{ s.set (n); return true; }
	OP("reset")	{ s.reset (n); return true; }
	OP("set")	{ s.set (n, bool(a.i(2) & 1)); a.set (2, a.i(2) & 1); return true; }
    }
    if (!strcmp (op, "set_range") || !strcmp (op, "get_range")) {
	long f = clip (a.i(1), W_), l = clip (a.i(2), W_);
	if (f >= l || f/32 != l/32) return false;
	a.set (1, f); a.set (2, l);
	OP("get_range")	{ uint32_t v = cs.at (f, l); r.push (v & 0xffff); r.push (v >> 16); return true; }
	uint32_t v = num (a, 3);
	if (v >> (l-f)) return false;
	s.set (f, l, v); return true;
    }
    int j = clip (a.i(1)-1, N); a.set (1, j+1);
    const S& d = bs[j];
    OP("not")		{ s = ~d; return true; }
    OP("and_to")	{ s &= d; return true; }
    OP("or_to")		{ s |= d; return true; }
    OP("xor_to")	{ s ^= d; return true; }
    OP("copy")		{ s = d; return true; }
    OP("text_copy")	{ S t (d.to_string()); s = t; S z; if (z.any()) s.flip(); return true; }
    OP("equal")		{ r.push (cs == d); r.push (cs != d); return true; }
    int i = clip (a.i(2)-1, N); a.set (2, i+1);
    const S& e = bs[i];
    OP("and")		{ s = d & e; return true; }
    OP("or")		{ s = d | e; return true; }
    OP("xor")		{ s = d ^ e; return true; }
    return false;
}
