// Binary streams over blocks of memory.
#include "drv.h"
using namespace ustl;
enum { NS = 2 };

template <typename S> struct St {
    Raw<S> s; unsigned char* b; long n;
    void fresh (void)	{ b = NULL; n = 0; }
    void kill (void)	{ s.kill(); free (b); }
    // a block of exactly this size, aligned to 16
    unsigned char* block (long m) { free (b); b = (unsigned char*) malloc (m ? m : 1); if (uintptr_t(b) % 16) _exit (94); n = m; return b; }
};
static St<istream> I [NS];
static St<ostream> O [NS];

static void seg_begin (void)	{ for (int k = 0; k < NS; ++k) { I[k].fresh(); I[k].s.make(); O[k].fresh(); O[k].s.make(); } }
static void seg_end (Res&)	{ for (int k = 0; k < NS; ++k) { I[k].kill(); O[k].kill(); I[k].fresh(); I[k].s.make(); O[k].fresh(); O[k].s.make(); } }
template <typename S> static void seen (W& w, S& s)
{
    w.open();
    // a position or size that can not be right is reported, not followed
    w.bytes (s.begin(), s.size() < 20000 ? long(s.size()) : 0);
    w.i (s.pos()); w.i (s.remaining()); w.i (s.rdstate()); w.i (s.exceptions());
    w.close();
}
static void state (W& w)
{
    w.open();
    w.open(); for (int k = 0; k < NS; ++k) seen (w, *I[k].s); w.close();
    w.open(); for (int k = 0; k < NS; ++k) seen (w, *O[k].s); w.close();
    w.close();
}
// results are reported also when the call throws
#define TRY(...)	try { __VA_ARGS__; } catch (stream_bounds_exception&) { r.x = "bounds"; }

template <typename T> static void get (istream& s, bool op, Res& r)
{
    T v; memset (&v, 0xAA, sizeof(v));
    try { if (op) { s >> v; } else { s.iread (v); } } catch (stream_bounds_exception&) { r.x = "bounds"; }
    r.bytes (&v, sizeof(v));
}
template <typename T> static void put (ostream& s, bool op, const long* l, Res& r)
{
    unsigned char b [sizeof(T)]; for (size_t k = 0; k < sizeof(T); ++k) b[k] = l[k];
    T v; memcpy (&v, b, sizeof(T));
    try { if (op) { s << v; } else { s.iwrite (v); } } catch (stream_bounds_exception&) { r.x = "bounds"; }
}
template <typename T> static void words (istream& s, Res& r)
{
    istream_iterator<T> e;
    TRY (for (istream_iterator<T> i (s); !(i == e); ++i) { T v = *i; r.bytes (&v, sizeof(v)); });
}
template <typename T> static void walk (istream& s, long n, long m, long mode, Res& r)
{
    istream_iterator<T> i (s);
    i += n;
    if (mode == 1) { while (m--) --i; }
    else if (mode == 2) { istream_iterator<T> j (i - m); i = j; }
    else if (m) i -= m;
    T v = *i;
    r.bytes (&v, sizeof(v));
}
template <typename T> static void wordso (ostream& s, const long* l, long n, Res& r)
{
    TRY (
	ostream_iterator<T> o (s);
	for (long k = 0; k + long(sizeof(T)) <= n; k += sizeof(T)) {
	    unsigned char b [sizeof(T)]; for (size_t j = 0; j < sizeof(T); ++j) b[j] = l[k+j];
	    T v; memcpy (&v, b, sizeof(T));
	    *o = v; ++o;
	}
    );
}
#define WIDTHS(w,f,...) switch (w) { case 1: f<uint8_t> (__VA_ARGS__); break; case 2: f<uint16_t> (__VA_ARGS__); break; case 4: f<uint32_t> (__VA_ARGS__); break; case 8: f<uint64_t> (__VA_ARGS__); break; default: return false; }

template <typename S> static bool both (const char* op, Args& a, Res& r, S& s)
{
    OP("clear")	{ s.clear (a.i(1)); return true; }
    OP("setstate")	{ s.setstate (a.i(1)); return true; }
    OP("exceptions")	{ r.push (s.exceptions (a.i(1))); return true; }
    OP("flags")	{ r.push (s.good()); r.push (s.bad()); r.push (s.fail()); r.push (s.eof()); r.push (!s); r.push (bool(s)); return true; }
    OP("aligned")	{ r.push (s.aligned (a.i(1))); r.push (s.align_size (a.i(1))); r.push (s.remaining()); return true; }
    OP("seek")	{ TRY (s.seek (a.i(1))); return true; }
    OP("iseek")	{ if (a.i(1) > long(s.size())) return false; TRY (s.iseek (s.begin() + a.i(1))); return true; }
    OP("skip")	{ TRY (s.skip (a.i(1))); return true; }
    OP("align")	{ TRY (s.align (a.i(1))); return true; }
    return false;
}
static long sum (const long* l, long n) { long c = 0; for (long k = 0; k < n; ++k) c += (l[k] != 0); return c; }

static bool exec (const char* op, Args& a, Res& r)
{
    long k = a.i(0)-1;
    if (k < 0 || k >= NS) return false;
    long j = a.i(1)-1; bool jok = a.n > 1 && !a.a[1].isl && j >= 0 && j < NS;
    istream& s = *I[k].s; ostream& o = *O[k].s;
    OP("link") {
	Tmp<unsigned char> t (a, 1);
	unsigned char* b = NULL;
	// the old block lives until the stream is linked to the new one
	unsigned char* old = I[k].b; I[k].b = NULL;
	b = I[k].block (t.n); if (t.n) memcpy (b, t.p, t.n);
	if (a.i(2) == 1) s.relink (b, t.n); else if (a.i(2) == 2) s.link (cmemlink (b, t.n)); else if (a.i(2) == 3) s.link (b, b + t.n); else if (a.i(2) == 4) s.relink (cmemlink (b, t.n));
	else if (a.i(2) == 5) { istream q (b, t.n); q.clear (s.rdstate()); q.exceptions (s.exceptions()); s.swap (q); }
	else s.link (b, t.n);
	free (old); return true;
    }
    OP("olink") {
	long n = a.i(1); if (n < 0 || n > 10000) return false;
	unsigned char* old = O[k].b; O[k].b = NULL;
	unsigned char* b = O[k].block (n); memset (b, a.i(2), n);
	memlink m (b, n);
	if (a.i(3) == 1) o.relink (b, n); else if (a.i(3) == 2) o.link (m); else if (a.i(3) == 3) o.link (b, b + n); else if (a.i(3) == 4) o.relink (m);
	else if (a.i(3) == 5) { ostream q (b, n); o.swap (q); }
	else o.link (b, n);
	free (old); return true;
    }
    OP("unlink")	{ s.unlink(); return true; }
    OP("ounlink")	{ o.unlink(); return true; }
    OP("seekg")	{ TRY (s.seekg (a.i(1), ios_base::seekdir (a.i(2)))); return true; }
    OP("seekp")	{ TRY (o.seekp (a.i(1), ios_base::seekdir (a.i(2)))); return true; }
    OP("ungetc")	{ TRY (s.ungetc()); return true; }
    OP("read") {
	long n = a.i(1); if (n < 0 || n > 10000) return false;
	unsigned char* b = (unsigned char*) malloc (n+1); memset (b, 0xAA, n+1);
	TRY (s.read (b, n));
	r.bytes (b, n); free (b); return true;
    }
    OP("readl") {
	long n = a.i(1); if (n < 0 || n > 10000) return false;
	unsigned char* b = (unsigned char*) malloc (n+1); memset (b, 0xAA, n+1);
	memlink m (b, n);
	TRY (s.read (m));
	r.bytes (b, n); free (b); return true;
    }
    OP("get")	{ if (a.i(1) <= 0 || s.pos() % a.i(1)) return false; WIDTHS (a.i(1), get, s, false, r); return true; }
    OP("getop")	{ if (a.i(1) <= 0 || s.pos() % a.i(1)) return false; WIDTHS (a.i(1), get, s, true, r); return true; }
    OP("readsome") {
	long n = a.i(1); if (n < 0 || n > 10000) return false;
	unsigned char* b = (unsigned char*) malloc (n+1);
	TRY (long c = s.readsome (b, n); r.push (c); if (c >= 0 && c <= n) r.bytes (b, c));
	free (b); return true;
    }
    OP("strz")	{ string t ("\xAA"); TRY (s.read_strz (t)); r.bytes (t.data(), t.size() < 20000 ? long(t.size()) : 0); return true; }
    OP("verify")	{ TRY (bool v = s.verify_remaining ("read", "some", a.i(1)); r.push (v)); return true; }
    OP("overify")	{ TRY (bool v = o.verify_remaining ("write", "some", a.i(1)); r.push (v)); return true; }
    OP("words")	{ if (a.i(1) <= 0 || s.pos() % a.i(1)) return false; WIDTHS (a.i(1), words, s, r); return true; }
    OP("walk") {
	long w = a.i(1), n = a.i(2), m = a.i(3);
	if (w <= 0 || s.pos() % w || n < 0 || m < 0 || m > n || (n+1)*w > long(s.remaining())) return false;
	WIDTHS (w, walk, s, n, m, a.i(4), r); return true;
    }
    OP("swap")	{ if (!jok) return false; s.swap (*I[j].s); if (k != j) { unsigned char* b = I[k].b; I[k].b = I[j].b; I[j].b = b; long n = I[k].n; I[k].n = I[j].n; I[j].n = n; } return true; }
    OP("oswap")	{ if (!jok) return false; o.swap (*O[j].s); if (k != j) { unsigned char* b = O[k].b; O[k].b = O[j].b; O[j].b = b; long n = O[k].n; O[k].n = O[j].n; O[j].n = n; } return true; }
    OP("write")	{ Tmp<unsigned char> t (a, 1); TRY (o.write (t.p, t.n)); return true; }
    OP("writel")	{ Tmp<unsigned char> t (a, 1); TRY (o.write (cmemlink (t.p, t.n))); return true; }
    OP("put")	{ long w = a.ln(1); if (w <= 0 || o.pos() % w) return false; WIDTHS (w, put, o, false, a.l(1), r); return true; }
    OP("putop")	{ long w = a.ln(1); if (w <= 0 || o.pos() % w) return false; WIDTHS (w, put, o, true, a.l(1), r); return true; }
    OP("wstrz")	{ Tmp<unsigned char> t (a, 1); if (sum (a.l(1), t.n) != t.n) return false; t.p[t.n] = 0; TRY (o.write_strz ((const char*) t.p)); return true; }
    OP("wordso")	{ long w = a.i(1); if (w <= 0 || o.pos() % w) return false; WIDTHS (w, wordso, o, a.l(2), a.ln(2), r); return true; }
    OP("insert") {
	long p = a.i(1), n = a.i(2); if (p < 0 || n < 0 || p > long(o.pos())) return false;
	TRY (long q = o.pos(); o.insert (o.begin() + p, n); if (long(o.pos()) == q + n && p + n <= long(o.size())) memset (o.begin() + p, a.i(3), n));
	return true;
    }
    OP("erase") {
	long p = a.i(1), n = a.i(2); if (p < 0 || n < 0 || p + n > long(o.pos())) return false;
	TRY (o.erase (o.begin() + p, n); memset (o.end() - n, a.i(3), n));
	return true;
    }
    OP("drain")	{ if (!jok) return false; TRY (o.read (*I[j].s)); return true; }
    OP("drainop")	{ if (!jok) return false; TRY (*I[j].s >> o); return true; }
    OP("unread")	{ if (!jok) return false; TRY (I[j].s->write (o)); return true; }
    OP("unreadop")	{ if (!jok) return false; TRY (o << *I[j].s); return true; }
    OP("written")	{ if (!jok || k == j) return false; TRY (O[j].s->write (o)); return true; }
    OP("writtenop")	{ if (!jok || k == j) return false; TRY (o << *O[j].s); return true; }
    OP("view")	{ istream v (o); v.exceptions (0); long n = v.remaining(); if (n > long(o.size())) { r.push (n); return true; } unsigned char* b = (unsigned char*) malloc (n+1); v.read (b, n); r.bytes (b, n); free (b); return true; }
    if (op[0] == 'o' && both (op+1, a, r, o)) return true;
    return both (op, a, r, s);
}
