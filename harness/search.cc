// S02: searching and comparing strings against Search.tla
#include "drv.h"
using ustl::string;
enum { N = 3 };
static Raw<string>	sr [N];
static bool	up = false;
static void seg_begin (void)	{ for (int k = 0; k < N; ++k) { if (up) sr[k].kill(); sr[k].make(); } up = true; }
static void seg_end (Res&)	{ seg_begin(); }
static void state (W& w)
{
    w.open();
    for (int k = 0; k < N; ++k) { w.open(); for (size_t i = 0; i < sr[k].o().size(); ++i) w.i ((unsigned char) sr[k].o().begin()[i]); w.close(); }
    w.close();
}
static long P (size_t p)	{ return p == string::npos ? -1 : p > 1000000 ? -2 : long(p); }
static long sg (int v)		{ return v < 0 ? -1 : v > 0; }
template <typename A, typename B> static void ops (Res& r, const A& a, const B& b)
{ r.push (a == b); r.push (a != b); r.push (a < b); r.push (a > b); r.push (a <= b); r.push (a >= b); }
// a copy of exactly n bytes elsewhere, for pointer arguments: a read past it is seen
struct Cp { char* p; Cp (const string& s, long n, bool z = false) { p = (char*) malloc (n+z+!n); memcpy (p, s.begin(), n); if (z) p[n] = 0; } ~Cp (void) { free (p); } };
static bool zero (const string& s) { for (size_t i = 0; i < s.size(); ++i) if (!s.begin()[i]) return true; return false; }
static bool exec (const char* op, Args& a, Res& r)
{
    int k = clip (a.i(0)-1, N); a.set (0, k+1);
    string& s = sr[k].o();
    const string& cs = s;
    OP("set") {
	// a string of exactly this capacity, or a link to bytes without a terminator
	long n = a.ln(1); char* t = (char*) malloc (n+!n);
	for (long i = 0; i < n; ++i) t[i] = char(a.l(1)[i]);
	s.~string(); new (&s) string; s.assign (t, size_t(n));
	free (t);
	return true;
    }
    #define SECOND(ix) int j = clip (a.i(ix)-1, N); a.set (ix, j+1); const string& d = sr[j].o();
    #define POS(ix) size_t p = a.i(ix) < 0 ? size_t(string::npos) : size_t(a.i(ix)); a.set (ix, a.i(ix) < 0 ? -1 : a.i(ix));
    #define LEN(ix) long n = clip (a.i(ix), d.size()+1); a.set (ix, n);
    char c = char(a.i(1));
    OP("find_s")	{ SECOND(1) POS(2) r.push (P(cs.find (d, p))); return true; }
    OP("find_p")	{ SECOND(1) POS(2) LEN(3) Cp t (d, n); r.push (P(cs.find (t.p, p, n))); return true; }
    OP("find_c")	{ POS(2) size_t x = cs.find (c, p), y = cs.find ((unsigned char) c, p); r.push (x == y ? P(x) : -3); return true; }
    OP("rfind_s")	{ SECOND(1) POS(2) r.push (P(cs.rfind (d, p))); return true; }
    OP("rfind_p")	{ SECOND(1) POS(2) LEN(3) Cp t (d, n); r.push (P(cs.rfind (t.p, p, n))); return true; }
    OP("rfind_c")	{ POS(2) size_t x = cs.rfind (c, p), y = cs.rfind ((unsigned char) c, p); r.push (x == y ? P(x) : -3); return true; }
    OP("of_s")		{ SECOND(1) POS(2) r.push (P(cs.find_first_of (d, p))); r.push (P(cs.find_first_not_of (d, p))); r.push (P(cs.find_last_of (d, p))); r.push (P(cs.find_last_not_of (d, p))); return true; }
    OP("of_p")		{ SECOND(1) POS(2) LEN(3) Cp t (d, n); r.push (P(cs.find_first_of (t.p, p, n))); r.push (P(cs.find_first_not_of (t.p, p, n))); r.push (P(cs.find_last_of (t.p, p, n))); r.push (P(cs.find_last_not_of (t.p, p, n))); return true; }
    OP("of_c")		{
	POS(2)
	unsigned char u = c;
	if (s.size() & 1) { r.push (P(cs.find_first_of (c, p))); r.push (P(cs.find_first_not_of (c, p))); r.push (P(cs.find_last_of (c, p))); r.push (P(cs.find_last_not_of (c, p))); }
	else { r.push (P(cs.find_first_of (u, p))); r.push (P(cs.find_first_not_of (u, p))); r.push (P(cs.find_last_of (u, p))); r.push (P(cs.find_last_not_of (u, p))); }
	return true;
    }
    OP("deflt")		{ SECOND(1) r.push (P(cs.find (d))); r.push (P(cs.rfind (d))); r.push (P(cs.find_first_of (d))); r.push (P(cs.find_first_not_of (d))); r.push (P(cs.find_last_of (d))); r.push (P(cs.find_last_not_of (d))); return true; }
    OP("cmp")		{ SECOND(1) r.push (sg (cs.compare (d))); ops (r, cs, d); return true; }
    OP("cmp_z")		{ SECOND(1) if (zero (d)) return false; Cp t (d, d.size(), true); const char* z = t.p; r.push (sg (cs.compare (z))); ops (r, cs, z); ops (r, z, cs); return true; }
    OP("cmp_ch")	{ unsigned char u = c; if (s.size() & 1) { r.push (cs == c); r.push (cs != c); r.push (cs < c); } else { r.push (cs == u); r.push (cs != u); r.push (cs < u); } return true; }
    if (!strcmp (op, "cmp_r") || !strcmp (op, "cmp_rz")) {
	SECOND(1)
	#define UNS(ix) if (a.i(ix) < 0) a.set (ix, a.i(ix) == -1 ? -1 : 0);
	UNS(2) UNS(3) UNS(4)
	size_t o = a.i(2) < 0 ? size_t(string::npos) : size_t(a.i(2)), n = a.i(3) < 0 ? size_t(string::npos) : size_t(a.i(3)), o2 = a.i(4) < 0 ? size_t(string::npos) : size_t(a.i(4));
	OP("cmp_rz")	{ if (zero (d)) return false; Cp t (d, d.size(), true); r.push (sg (cs.compare (o, n, (const char*) t.p))); return true; }
	long m = clip (a.i(5), d.size()+1); a.set (5, m);
	Cp t (d, m);
	r.push (sg (cs.compare (o, n, d))); r.push (sg (cs.compare (o, n, d, o2, m))); r.push (sg (cs.compare (o, n, t.p, m)));
	return true;
    }
    OP("hash")	{
	SECOND(1)
	auto x = string::hash (s.begin(), s.end()); auto y = ustl::hash_value (d.begin(), d.end());
	if (!zero (d)) { Cp t (d, d.size(), true); if (ustl::hash_value (t.p) != y) return r.push (-1), true; }
	r.push (x == y); return true;
    }
    return false;
}
