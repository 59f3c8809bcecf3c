// S03: wide characters and UTF-8 text against Utf8.tla
#include "drv.h"
using ustl::string;
using ustl::vector; using ustl::Utf8Bytes;
typedef string::utf8_iterator u8it;
enum { N = 2 };
static Raw<string>	sr [N];
static bool	up = false;
static void seg_begin (void)	{ for (int k = 0; k < N; ++k) { if (up) sr[k].kill(); sr[k].make(); } up = true; }
static void seg_end (Res&)	{ seg_begin(); }
static void state (W& w)
{
    w.open();
    for (int k = 0; k < N; ++k) {
	const string& c = sr[k].o();
	w.open();
	for (size_t i = 0; i < c.size() && i < 100000; ++i) w.i ((unsigned char) c.begin()[i]);
	if (!c.is_linked() && c.begin()[c.size()]) w.i (-1);
	w.close();
    }
    w.close();
}
struct WT { wchar_t* p; long n; bool z;
    WT (Args& a, int i) : n (a.ln(i)/2), z (false) {
	if (!a.ln(i) && a.n <= i) a.set (i, 0);
	p = (wchar_t*) malloc ((n+1)*sizeof(wchar_t));
	for (long j = 0; j < n; ++j) { p[j] = wchar_t((uint32_t(a.l(i)[2*j]) << 16) | uint32_t(a.l(i)[2*j+1])); if (!p[j]) z = true; }
	p[n] = 0;
    }
    ~WT (void) { free (p); }
};
static void half (Res& r, wchar_t w)	{ r.push (uint32_t(w) >> 16); r.push (uint32_t(w) & 0xffff); }
static bool exec (const char* op, Args& a, Res& r)
{
    OP("seqbytes")	{ long c = a.i(0) & 255; a.set (0, c); r.push (ustl::Utf8SequenceBytes (wchar_t(c))); return true; }
    int k = clip (a.i(0)-1, N); a.set (0, k+1);
    string& s = sr[k].o();
    const string& cs = s;
    if (s.is_linked()) s.copy_link();	// decoding wants the terminator
    long n = 0;
    for (size_t i = 0; i < s.size(); ++n) i += ustl::Utf8SequenceBytes ((unsigned char) s.begin()[i]);
    #define LISTARG(ix) if (a.n <= ix || !a.a[ix].isl || (a.ln(ix) & 1)) return false; WT t (a, ix);
    #define ONECH(ix) if (a.n <= ix || a.ln(ix) != 2) return false; WT t (a, ix);
    #define CPOS(ix) long p = clip (a.i(ix), n+1); a.set (ix, p);
    if (n > 3000) s.clear(), n = -1;
    if (n < 0) return false;
    OP("assign")	{ LISTARG(1) s.assign (t.p, t.p+t.n); return true; }
    OP("assign_z")	{ LISTARG(1) if (t.z) return false; s.assign (t.p); return true; }
    OP("op_z")		{ LISTARG(1) if (t.z) return false; s = t.p; return true; }
    OP("assign_n")	{ ONECH(1) s.assign (size_t(a.i(2)), t.p[0]); return true; }
    OP("out_back")	{ LISTARG(1) s.clear(); ustl::utf8out_iterator<ustl::back_insert_iterator<string> > o (ustl::back_inserter (s)); for (long i = 0; i < t.n; ++i) { if (i & 1) *o++ = t.p[i]; else { *o = t.p[i]; ++o; } } return true; }
    OP("copy_back")	{ LISTARG(1) s.clear(); ustl::copy (t.p, t.p+t.n, ustl::utf8out (ustl::back_inserter (s))); return true; }
    OP("out_stream") {
	// a binary stream over exactly the announced number of bytes
	LISTARG(1)
	size_t m = ustl::Utf8Bytes (t.p, t.p+t.n);
	if (m > 100000) { s.assign ("bad", 3); return true; }
	char* b = (char*) malloc (m+!m);
	{
	    ustl::ostream os (b, m);
	    ustl::utf8ostream_iterator o (ustl::utf8out (os));
	    for (long i = 0; i < t.n; ++i) { if (i & 1) *o++ = t.p[i]; else { *o = t.p[i]; ++o; } }
	    if (os.pos() == m) s.assign (b, m); else s.assign ("bad", 3);
	}
	free (b);
	return true;
    }
    OP("out_ptr")	{
	LISTARG(1)
	// exactly the announced number of bytes
	size_t m = ustl::Utf8Bytes (t.p, t.p+t.n);
	if (m > 100000) { s.assign ("bad", 3); return true; }
	char* b = (char*) malloc (m+!m);
	ustl::utf8out_iterator<char*> o (ustl::utf8out (b));
	for (long i = 0; i < t.n; ++i) *o = t.p[i];
	if (size_t(o.base()-b) == m) s.assign (b, m); else s.assign ("bad", 3);
	free (b);
	return true;
    }
    OP("append")	{ LISTARG(1) s.append (t.p, t.p+t.n); return true; }
    OP("append_z")	{ LISTARG(1) if (t.z) return false; s.append (t.p); return true; }
    OP("pe_z")		{ LISTARG(1) if (t.z) return false; s += t.p; return true; }
    OP("append_n")	{ ONECH(1) s.append (size_t(a.i(2)), t.p[0]); return true; }
    OP("push")		{ ONECH(1) s.push_back (t.p[0]); return true; }
    OP("pe")		{ ONECH(1) s += t.p[0]; return true; }
    OP("insert")	{ LISTARG(2) CPOS(1) s.insert (size_t(s.wiat(p)-s.begin()), t.p, t.p+t.n, size_t(a.i(3))); return true; }
    OP("insert_n")	{ ONECH(2) CPOS(1) s.insert (size_t(s.wiat(p)-s.begin()), size_t(a.i(3)), t.p[0]); return true; }
    OP("erase")		{ long i = clip (a.i(1), n+1), j = clip (a.i(2), n+1); if (i > j) { long t = i; i = j; j = t; } a.set (1, i); a.set (2, j); s.erase (cs.wiat(i), cs.wiat(j)); return true; }
    OP("copy")		{ int j = clip (a.i(1)-1, N); a.set (1, j+1); string t (sr[j].o()); s.clear(); ustl::copy (t.utf8_begin(), t.utf8_end(), ustl::utf8out (ustl::back_inserter (s))); return true; }
    OP("app")		{ int j = clip (a.i(1)-1, N); a.set (1, j+1); string t (sr[j].o()); s += t; return true; }
    OP("read")		{ for (u8it i = cs.utf8_begin(); i < cs.utf8_end(); ++i) half (r, *i); return true; }
    OP("read_post")	{ u8it i (cs.utf8_begin()), e (cs.utf8_end()); while (!(i == e)) { u8it o (i++); half (r, *o); } return true; }
    OP("read_u")	{ typedef ustl::utf8in_iterator<const uint8_t*,uint32_t> uit; const uint8_t* b = (const uint8_t*) s.begin(); uit e (b+s.size()); for (uit i (b); i < e; ++i) half (r, *i); return true; }
    OP("read_stream") {
	if (!n) return true;
	char* b = (char*) malloc (s.size()); memcpy (b, cs.begin(), s.size());
	{
	    ustl::istream is (b, s.size());
	    ustl::utf8istream_iterator i (ustl::utf8in (is));
	    for (long q = 0; q < n; ++q) { if (q) { if (q & 1) ++i; else i++; } half (r, *i); }
	    if (is.pos() != s.size()) r.push (-1);
	}
	free (b);
	return true;
    }
    OP("read_wide")	{ vector<wchar_t> v; ustl::copy (cs.utf8_begin(), cs.utf8_end(), ustl::back_inserter (v)); for (size_t i = 0; i < v.size(); ++i) half (r, v[i]); return true; }
    OP("length")	{ r.push (cs.length()); return true; }
    OP("wiat")		{ CPOS(1) long x = cs.wiat (p)-cs.begin(), y = s.wiat (p)-s.begin(); r.push (x == y ? x : -1); return true; }
    OP("step")		{
	CPOS(1)
	long d = clip (a.i(2), n-p+1); a.set (2, d);
	u8it i (cs.utf8_begin()); i += p;
	u8it j (i + d), q (i); q += d; 
	u8it z (cs.utf8_end()); z = j;
	r.push (j == q && z == j ? j.base()-cs.begin() : -1);
	if (p+d < n) half (r, *j);
	return true;
    }
    OP("dist")		{
	long x = clip (a.i(1), n+1), y = clip (a.i(2), n+1); if (x > y) { long t = x; x = y; y = t; } a.set (1, x); a.set (2, y);
	u8it i (cs.utf8_begin()), j (cs.utf8_begin()); i += x; j += y;
	r.push (j-i); r.push (i == j); r.push (i < j);
	return true;
    }
    OP("bytes")		{
	vector<wchar_t> v; ustl::copy (cs.utf8_begin(), cs.utf8_end(), ustl::back_inserter (v));
	r.push (ustl::Utf8Bytes (v.begin(), v.end()));
	for (size_t i = 0; i < v.size(); ++i) r.push (ustl::Utf8Bytes (v[i]));
	u8it j (cs.utf8_begin());
	for (size_t i = 0; i < v.size(); ++i, ++j) r.push (ustl::Utf8SequenceBytes (*(const uint8_t*) j.base()));
	return true;
    }
    return false;
}
