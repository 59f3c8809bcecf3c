// Text output streams.
#include "drv.h"
#include <ustl/umatrix.h>
enum Named : int { name0, name1, name2 };
static const char* const Names[3] = { "name0", "name1", "name2" };
LOOKUP_TEXT_STREAMABLE (Named, Names, 3)
using namespace ustl;
enum { NS = 2, Guard = 16 };

struct Out {
    Raw<ostringstream> s; unsigned char* b; long n, hw;
    void fresh (void)	{ b = NULL; n = -1; hw = 0; }
    void block (long m)	{ drop(); n = m; b = (unsigned char*) malloc (m + 2*Guard); memset (b, 0xA5, m + 2*Guard); }
    void drop (void)	{ if (b) free (b); b = NULL; n = -1; }
    bool intact (void)	{ if (!b) return true; for (long k = 0; k < Guard; ++k) if (b[k] != 0xA5 || b[Guard+n+k] != 0xA5) return false; return true; }
};
static Out O [NS];
static void seg_begin (void)	{ for (int k = 0; k < NS; ++k) { O[k].fresh(); O[k].s.make(); } }
static void seg_end (Res&)	{ for (int k = 0; k < NS; ++k) { O[k].s.kill(); O[k].drop(); O[k].fresh(); O[k].s.make(); } }
static void state (W& w)
{
    w.open();
    for (int k = 0; k < NS; ++k) {
	ostringstream& s = *O[k].s;
	w.open();
	w.bytes (s.begin(), s.pos() <= s.size() && s.pos() < 60000 ? long(s.pos()) : 0);
	w.i (s.pos()); w.i (s.flags()); w.i (s.width()); w.i (s.precision()); w.i ((unsigned char) s.fill()); w.i (s.rdstate()); w.i (s.exceptions());
	w.i (!O[k].b || (unsigned char*) s.begin() != O[k].b + Guard); w.i (O[k].intact() && (!O[k].b || (unsigned char*) s.begin() != O[k].b + Guard || long(s.size()) == O[k].n));
	w.close();
    }
    w.close();
}
template <typename T> static void num (ostringstream& s, const Arg& g, bool op)
{
    unsigned long v = 0; for (int k = 0; k < g.n; ++k) v |= (unsigned long)(g.l[k] & 0xffff) << (16*k);
    if (op) { s << T(v); } else { s.iwrite (T(v)); }
}
static string str (const Args& a, int k)	{ string s; for (int j = 0; j < a.ln(k); ++j) s += char(a.l(k)[j]); return s; }
static string sub (const long*& p, const long* e)	{ string s; long n = p < e ? *p++ : 0; while (n-- > 0 && p < e) s += char(*p++); return s; }
static bool ztext (const Args& a, int k)	{ for (int j = 0; j < a.ln(k); ++j) if (!a.l(k)[j]) return false; return true; }

static bool cont (ostringstream& s, long c, const long* p, long n)
{
    const long* e = p + n;
    switch (c) {
	case 1: { vector<int> v; while (p < e) v.push_back (*p++); s << v; } break;
	case 2: { vector<uint8_t> v; while (p < e) v.push_back (*p++); s << v; } break;
	case 3: { vector<int8_t> v; while (p < e) v.push_back (*p++); s << v; } break;
	case 4: { vector<string> v; while (p < e) v.push_back (sub (p, e)); s << v; } break;
	case 5: { if (n != 2) return false; s << make_pair (int(p[0]), int(p[1])); } break;
	case 6: { if (n % 2) return false; map<int,int> m; for (; p < e; p += 2) m.insert (make_pair (int(p[0]), int(p[1]))); s << m; } break;
	case 7: { vector<vector<int> > v; while (p < e) { vector<int> w; long m = *p++; while (m-- > 0 && p < e) w.push_back (*p++); v.push_back (w); } s << v; } break;
	case 8: { if (n != 4) return false; matrix<2,2,int> m; for (int k = 0; k < 4; ++k) m[k/2][k%2] = p[k]; s << m; } break;
	case 9: { if (n != 3) return false; tuple<3,int> t; for (int k = 0; k < 3; ++k) t[k] = p[k]; s << t; } break;
	case 10: { if (n != 4) return false; array<int,4> t; for (int k = 0; k < 4; ++k) t[k] = p[k]; s << t; } break;
	case 11: { if (n != 40) return false; bitset<40> b; for (int k = 0; k < 40; ++k) b.set (k, p[k]); s << b; } break;
	case 12: { set<int> v; while (p < e) v.insert (*p++); s << v; } break;
	case 13: { vector<bool> v; while (p < e) v.push_back (*p++ & 1); s << v; } break;
	case 14: { vector<char> v; while (p < e) v.push_back (*p++); s << v; } break;
	case 15: { string t (sub (p, e)); vector<int> v; while (p < e) v.push_back (*p++); s << make_pair (t, v); } break;
	case 16: { memblock m (n); for (long k = 0; k < n; ++k) m.begin()[k] = p[k]; s << m; } break;
	case 17: { vector<int> v; while (p < e) v.push_back (*p++); copy (v.begin(), v.end(), ostream_iterator<int,ostringstream> (s)); } break;
	default: return false;
    }
    return true;
}

static bool exec2 (const char* op, Args& a, Res& r, Out& o)
{
    ostringstream& s = *o.s;
    OP("new")	{ string t (str (a, 1)); o.s.kill(); o.drop(); if (t.empty()) o.s.make(); else new (o.s.b) ostringstream (t); return true; }
    OP("fixed")	{ if (a.i(1) < 0 || a.i(1) > 10000) return false; o.s.kill(); o.block (a.i(1)); new (o.s.b) ostringstream (o.b + Guard, size_t(o.n)); return true; }
    OP("link")	{
	if (a.i(1) < 0 || a.i(1) > 10000) return false;
	unsigned char* old = o.b; o.b = NULL; o.block (a.i(1));
	if (a.i(2)) { memlink l (o.b + Guard, o.n); s.link (l); } else s.link (o.b + Guard, o.n);
	free (old); return true;
    }
    OP("setstr") { string t (str (a, 1)); s.str (t); o.drop(); return true; }
    OP("str")	{ const string& t = s.str(); r.bytes (t.data(), t.size() < 60000 ? long(t.size()) : 0); return true; }
    OP("flush")	{ s.flush(); return true; }
    OP("mflush") { s << flush; return true; }
    OP("endl")	{ s << endl; return true; }
    OP("clear")	{ s.clear (a.i(1) & 7); return true; }
    OP("setstate") { s.setstate (a.i(1) & 7); return true; }
    OP("exceptions") { s.exceptions (a.i(1) & 7); return true; }
    OP("flags")	{ r.push (s.flags (a.i(1))); return true; }
    OP("setf")	{ r.push (s.setf (a.i(1))); return true; }
    OP("unsetf") { r.push (s.unsetf (a.i(1))); return true; }
    OP("setfm")	{ r.push (s.setf (a.i(1), a.i(2))); return true; }
    OP("manip")	{ s << ios::fmtflags_bits (a.i(1)); return true; }
    OP("base")	{ s << ios::base (a.i(1)); return true; }
    OP("setiosflags") { s << setiosflags (a.i(1)); return true; }
    OP("resetiosflags") { s << resetiosflags (a.i(1)); return true; }
    OP("width")	{ s.width (a.i(1)); return true; }
    OP("setw")	{ s << setw (a.i(1)); return true; }
    OP("iosw")	{ s << ios::width (a.i(1)); return true; }
    OP("precision") { s.precision (a.i(1)); return true; }
    OP("setp")	{ s << setprecision (a.i(1)); return true; }
    OP("fill")	{ s.fill (a.i(1)); return true; }
    OP("setfill") { s << setfill (a.i(1)); return true; }
    OP("seek")	{ if (a.i(1) < 0 || a.i(1) > o.hw) return false; s.seek (a.i(1)); return true; }
    OP("seekp")	{ long p = (a.i(2) == 1 ? long(s.pos()) : 0) + a.i(1); if (p < 0 || p > o.hw || a.i(2) < 0 || a.i(2) > 1) return false; s.seekp (a.i(1), a.i(2) ? ios::cur : ios::beg); return true; }
    OP("chr")	{
	char c = a.i(2);
	if (!c && a.i(1) == 5) { s << ends; return true; }
	switch (a.i(1)) {
	    case 0: s.iwrite (c); break;
	    case 1: s.iwrite ((unsigned char) c); break;
	    case 2: s.iwrite ((signed char) c); break;
	    case 3: s.put (c); break;
	    case 4: s << c; break;
	    case 5: s << (unsigned char) c; break;
	    default: return false;
	}
	return true;
    }
    OP("wchr")	{ if (a.i(1) < 0 || a.i(1) > 0x10ffff) return false; if (a.i(2)) s.iwrite (wchar_t (a.i(1))); else s << wchar_t (a.i(1)); return true; }
    OP("bool")	{ if (a.i(2)) s.iwrite (bool (a.i(1))); else s << bool (a.i(1)); return true; }
    OP("enum")	{ *o.s << Named (a.i(1)); return true; }
    OP("text")	{
	string t (str (a, 2));
	switch (a.i(1)) {
	    case 0: if (!ztext (a, 2)) return false; s.iwrite (t.c_str()); break;
	    case 1: s.iwrite (t); break;
	    case 2: s.write (t.data(), t.size()); break;
	    case 3: s.write (t); break;
	    case 4: if (!ztext (a, 2)) return false; s.iwrite ((const unsigned char*) t.c_str()); break;
	    case 5: if (!ztext (a, 2)) return false; s << t.c_str(); break;
	    case 6: s << t; break;
	    default: return false;
	}
	return true;
    }
    OP("int")	{
	if (!a.a[3].isl || a.n < 4) return false;
	bool sg = a.i(2) == 1, w = true; int n = a.ln(3);
	switch (a.i(1)) {
	    case 1: if (n != 1) return false; if (sg) num<short> (s, a.a[3], w); else num<unsigned short> (s, a.a[3], w); break;
	    case 2: if (n != 2) return false; if (sg) num<int> (s, a.a[3], w); else num<unsigned> (s, a.a[3], w); break;
	    case 4: if (n != 4) return false; if (sg) num<long> (s, a.a[3], w); else num<unsigned long> (s, a.a[3], w); break;
	    case 5: if (n != 4) return false; if (sg) num<long long> (s, a.a[3], w); else num<unsigned long long> (s, a.a[3], w); break;
	    case 6: if (n != 4 || sg) return false; { unsigned long v = 0; for (int k = 0; k < 4; ++k) v |= (unsigned long)(a.l(3)[k] & 0xffff) << (16*k); s << (void*) v; } break;
	    default: return false;
	}
	return true;
    }
    OP("float")	{
	double v = a.i(3) + a.i(4)/256.0; if (a.i(2)) v = -v;
	switch (a.i(1)) { case 0: s << float(v); break; case 1: s << v; break; case 2: s.iwrite ((long double) v); break; default: return false; }
	return true;
    }
    OP("cont")	{ return s.good() && cont (s, a.i(1), a.l(2), a.ln(2)); }
    OP("format") {
	if (!ztext (a, 3)) return false;
	string t (str (a, 3)); int n = a.i(2), v;
	switch (a.i(1)) {
	    case 0: v = s.format ("%s", t.c_str()); break;
	    case 1: v = s.format ("[%d:%s]", n, t.c_str()); break;
	    case 2: v = s.format ("%%%d", n); break;
	    case 3: v = s.format ("%10x", n); break;
	    case 4: v = s.format ("%.3s%s", t.c_str(), t.c_str()); break;
	    default: return false;
	}
	r.push (v); return true;
    }
    OP("written") { int j = a.i(1)-1; if (j < 0 || j >= NS || &O[j] == &o) return false; O[j].s->text_write (s); return true; }
    return false;
}
static bool exec (const char* op, Args& a, Res& r)
{
    int k = a.i(0) - 1;
    if (k < 0 || k >= NS) return false;
    Out& o = O[k];
    bool was = o.s->good();
    bool ok;
    try { ok = exec2 (op, a, r, o); } catch (stream_bounds_exception&) { ok = true; r.n = 0; r.x = "bounds"; }
    if (!ok) return false;
    // how far the text is known
    const char* raw[] = { "chr", "wchr", "bool", "enum", "text", "written" };
    const char* other[] = { "new", "fixed", "link", "setstr", "str", "flush", "mflush", "endl", "int", "float", "cont", "format" };
    long p = o.s->pos();
    for (unsigned i = 0; i < sizeof(raw)/sizeof(raw[0]); ++i) if (!strcmp (op, raw[i])) o.hw = was ? (p > o.hw ? p : o.hw) : p;
    for (unsigned i = 0; i < sizeof(other)/sizeof(other[0]); ++i) if (!strcmp (op, other[i])) o.hw = p;
    if (!strcmp (op, "new")) o.hw = a.ln(1);
    return true;
}
