// Text input streams.
#include "drv.h"
#include <math.h>
using namespace ustl;
enum { NS = 2 };

#ifndef TEXTFILE
typedef istringstream Stream;
struct In { Raw<Stream> s; char* b; long n; string* t; };
static In O [NS];
static long posof (In& o)	{ return o.s->pos(); }
static long seen (In& o)	{ return o.s->size(); }
static void drop (In& o)	{ free (o.b); o.b = NULL; delete o.t; o.t = NULL; o.n = 0; }
static void seg_begin (void)	{ for (int k = 0; k < NS; ++k) { O[k].b = NULL; O[k].n = 0; O[k].t = NULL; O[k].s.make(); } }
static void seg_end (Res&)	{ for (int k = 0; k < NS; ++k) { O[k].s.kill(); drop (O[k]); O[k].s.make(); } }
#endif
static void state (W& w)
{
    w.open();
    for (int k = 0; k < NS; ++k) {
	Stream& s = *O[k].s;
	w.open();
	w.i (seen (O[k])); w.i (posof (O[k])); w.i (s.flags()); w.i (s.rdstate()); w.i (s.ios_base::exceptions()); w.i (s.gcount());
	w.close();
    }
    w.close();
}
struct Block { char* p; explicit Block (long n) : p ((char*) malloc (n)) {} ~Block (void) { free (p); } };
static string str (const Args& a, int k)	{ string s; for (int j = 0; j < a.ln(k); ++j) s += char(a.l(k)[j]); return s; }
static bool ztext (const Args& a, int k)	{ for (int j = 0; j < a.ln(k); ++j) if (!a.l(k)[j]) return false; return true; }
static bool oddnum (const Args& a, int k)
{
    // texts whose numbers depend on the C library, or are not decimal
    for (int j = 0; j < a.ln(k); ++j) {
	long c = a.l(k)[j], d = j+1 < a.ln(k) ? a.l(k)[j+1] : 0;
	if (c == '0' && (d == 'b' || d == 'B')) return true;
    }
    return false;
}
static bool onlydec (const In& o)
{
    for (long j = 0; j < o.n; ++j) if (strchr ("iInNxXpP", (o.t ? o.t->data() : o.b)[j]) && (o.t ? o.t->data() : o.b)[j]) return false;
    return true;
}
static void setl (Args& a, int k, const long* q, int n)
{
    a.set (k, 0); Arg& g = a.a[k]; long* p = a.pool + a.npool;
    memcpy (p, q, n * sizeof(long)); a.npool += n; g.isl = true; g.l = p; g.n = n;
}
template <typename T> static void num (istringstream& s, Args& a, bool op, bool& thrown)
{
    T v = T(77);
    try { if (op) s >> v; else s.iread (v); } catch (stream_bounds_exception&) { thrown = true; }
    long q [4]; int n = sizeof(T) / 2;
    for (int k = 0; k < n; ++k) q[k] = ((unsigned long) v >> (16*k)) & 0xffff;
    setl (a, 3, q, n);
}
template <typename T> static void flt (istringstream& s, Args& a, bool& thrown)
{
    T v = 77;
    try { s >> v; } catch (stream_bounds_exception&) { thrown = true; }
    double d = v, m = fabs (d);
    a.set (2, d < 0 || (d == 0 && signbit (d)));
    if (!(m < 2147483648.0)) { a.set (3, -1); a.set (4, 0); }
    else { a.set (3, long (m)); a.set (4, long ((m - double (long (m))) * 256)); }
}

static bool exec2 (const char* op, Args& a, Res& r, In& o, bool& thrown)
{
    Stream& s = *o.s;
#ifndef TEXTFILE
    OP("new")	{
	if (oddnum (a, 2) || (a.i(1) == 2 && !ztext (a, 2)) || a.i(1) < 0 || a.i(1) > 4) return false;
	string t (str (a, 2));
	o.s.kill(); drop (o);
	o.n = t.size();
	o.b = (char*) malloc (o.n + (a.i(1) == 2)); if (o.n) memcpy (o.b, t.data(), o.n); if (a.i(1) == 2) o.b[o.n] = 0;
	switch (a.i(1)) {
	    case 0: new (o.s.b) istringstream (o.b, size_t(o.n)); break;
	    case 1: { cmemlink l (o.b, o.n); new (o.s.b) istringstream (l); } break;
	    case 2: new (o.s.b) istringstream ((const char*) o.b); break;
	    case 3: o.s.make(); o.s->link (o.b, o.n); break;
	    case 4: o.s.make(); { cmemlink l (o.b, o.n); o.s->relink (l); } break;
	}
	return true;
    }
    OP("settext") { if (oddnum (a, 1)) return false; string* t = new string (str (a, 1)); s.str (*t); drop (o); o.t = t; o.n = t->size(); return true; }
#endif
    OP("delims") { if (!ztext (a, 1)) return false; string t (str (a, 1)); s.set_delimiters (t.c_str()); return true; }
#ifndef TEXTFILE
    OP("clear")	{ s.clear (a.i(1) & 7); return true; }
    OP("setstate") { s.setstate (a.i(1) & 7); return true; }
#endif
    OP("exceptions") { s.exceptions (a.i(1) & 7); return true; }
    OP("flags")	{ r.push (s.flags (a.i(1))); return true; }
    OP("setf")	{ r.push (s.setf (a.i(1))); return true; }
    OP("unsetf") { r.push (s.unsetf (a.i(1))); return true; }
    OP("setfm")	{ r.push (s.setf (a.i(1), a.i(2))); return true; }
    OP("manip")	{ s.iread (ios::fmtflags_bits (a.i(1))); return true; }
#ifndef TEXTFILE
    OP("seek")	{ if (a.i(1) < 0 || a.i(1) > o.n) return false; s.seek (a.i(1)); return true; }
    OP("seekg")	{
	long p = (a.i(2) == 1 ? posof (o) : a.i(2) == 2 ? o.n : 0) + a.i(1);
	if (p < 0 || p > o.n || a.i(2) < 0 || a.i(2) > 2) return false;
	s.seekg (a.i(1), a.i(2) == 0 ? ios::beg : a.i(2) == 1 ? ios::cur : ios::end); return true;
    }
    OP("skip")	{ if (a.i(1) < 0 || posof (o) + a.i(1) > o.n) return false; s.skip (a.i(1)); return true; }
    OP("unget")	{ if (!s.pos()) return false; s.unget(); return true; }
    OP("sync")	{ r.n = 0; if (s.sync()) r.push (-1); return true; }
#endif
    OP("char")	{
	char c = 77; unsigned char u = 77; signed char g = 77;
	switch (a.i(1)) {
	    case 0: s.iread (c); break;
	    case 1: s.iread (u); c = u; break;
	    case 2: s.iread (g); c = g; break;
	    case 3: s >> c; break;
	    case 4: s >> u; c = u; break;
	    default: return false;
	}
	r.push ((unsigned char) c); return true;
    }
    OP("word")	{ string v ("old"); if (a.n > 1 && a.i(1)) s >> v; else s.iread (v); r.bytes (v.data(), v.size()); return true; }
    OP("bool")	{ bool v = true; if (a.n > 1 && a.i(1)) s >> v; else s.iread (v); r.push (v); return true; }
    OP("wchr")	{
	// characters with all their bytes of the right kind, of at most four
	for (long p = 0; p < o.n; ++p) {
	    const unsigned char* t = (const unsigned char*) (o.t ? o.t->data() : o.b) + p; long n = *t < 0x80 ? 1 : *t < 0xc0 ? 0 : *t < 0xe0 ? 2 : *t < 0xf0 ? 3 : *t < 0xf8 ? 4 : 0;
	    if (!n) return false;
	    for (long k = 1; k < n && p + k < o.n; ++k) if ((t[k] & 0xc0) != 0x80) return false;
	    p += n - 1;
	}
	if (posof (o) < o.n && ((o.t ? o.t->data() : o.b)[posof (o)] & 0xc0) == 0x80) return false;
	wchar_t v = 77; s.iread (v); r.push (v); return true;
    }
    OP("int")	{
	bool sg = a.i(2), w = a.n > 4 && a.i(4);
	switch (a.i(1)) {
	    case 1: if (sg) num<short> (s, a, w, thrown); else num<unsigned short> (s, a, w, thrown); break;
	    case 2: if (sg) num<int> (s, a, w, thrown); else num<unsigned> (s, a, w, thrown); break;
	    case 4: if (sg) num<long> (s, a, w, thrown); else num<unsigned long> (s, a, w, thrown); break;
	    case 5: if (sg) num<long long> (s, a, w, thrown); else num<unsigned long long> (s, a, w, thrown); break;
	    default: return false;
	}
	return true;
    }
    OP("float")	{
	if (!onlydec (o)) return false;
	switch (a.i(1)) {
	    case 0: flt<float> (s, a, thrown); break;
	    case 1: flt<double> (s, a, thrown); break;
	    case 2: flt<long double> (s, a, thrown); break;
	    default: return false;
	}
	return true;
    }
    OP("bits")	{ bitset<8> v; s >> v; for (int k = 8; --k >= 0;) r.push (v.test (k)); return true; }
    OP("get1")	{ r.push (s.get()); return true; }
    OP("getc")	{ char c = 77; s.get (c); r.push (c); return true; }
    OP("peek")	{ r.push (s.peek()); return true; }
    bool gl = !strcmp (op, "getline");
    if (gl || !strcmp (op, "get")) {
	long n = a.i(1); if (n < 0 || n > 10000) return false;
	Block p (n);
	memset (p.p, 0xEE, n);
	if (gl) s.getline (p.p, n, char (a.i(2))); else s.get (p.p, n, char (a.i(2)));
	if (n) {	// with the terminator
	    long g = s.gcount();
	    long e = g < n && !p.p[g] ? g : g > 0 && g <= n && !p.p[g-1] ? g - 1 : n - 1;
	    r.bytes (p.p, e + 1);
	}
	return true;
    }
    OP("gets")	{ string v ("old"); s.get (v, char (a.i(1))); r.bytes (v.data(), v.size()); return true; }
    OP("getlines") { string v ("old"); s.getline (v, char (a.i(1))); r.bytes (v.data(), v.size()); return true; }
    OP("fgetline") { string v ("old"); getline (s, v, char (a.i(1))); r.bytes (v.data(), v.size()); return true; }
    OP("ignore") { if (a.i(1) < 0) return false; if (a.n > 3 && a.i(3) && !a.i(2)) s.ignore (a.i(1)); else s.ignore (a.i(1), char (a.i(2))); return true; }
    OP("read")	{
	long n = a.i(1); if (n < 0 || n > 10000) return false;
	Block p (n); long left = seen (o) - posof (o);
	if (a.n > 2 && a.i(2)) { memlink l (p.p, n); s.read (l); } else s.read (p.p, n);
	r.bytes (p.p, n <= left ? n : long (s.gcount()) + 1); return true;
    }
    OP("readsome") { long n = a.i(1); if (n < 0 || n > 10000) return false; Block p (n); long m = s.readsome (p.p, n); r.bytes (p.p, m); return true; }
#ifndef TEXTFILE
    OP("str")	{ string v (s.str()); r.bytes (v.data(), v.size()); return true; }
    OP("rest")	{ ostringstream os; s.text_write (os); r.bytes (os.str().data(), os.str().size()); return true; }
#endif
    return false;
}
#ifndef TEXTFILE
static bool exec (const char* op, Args& a, Res& r)
{
    int k = a.i(0) - 1;
    if (k < 0 || k >= NS) return false;
    bool ok, thrown = false;
    try { ok = exec2 (op, a, r, O[k], thrown); } catch (stream_bounds_exception&) { ok = thrown = true; }
    if (thrown) { r.n = 0; r.x = "bounds"; }
    return ok;
}
#endif
