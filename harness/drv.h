// Script driver: reads lines "S" (new segment) or "op arg arg ...", where an arg
// is an integer or a list "[1,2,3]". Runs each call on the real library and
// prints one JSON event per call: {"op":..,"a":[..],"r":[exc,[..]],"s":state}.
// A segment starts with a line "S". Output is written per event, so after a
// crash the last event printed is the last call that returned.
#pragma once
#include <ustl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <malloc.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes (void);
static inline long live_bytes (void) { return (long) __sanitizer_get_current_allocated_bytes(); }
#else
static inline long live_bytes (void) { struct mallinfo2 m = mallinfo2(); return (long) (m.uordblks + m.hblkhd); }
#endif

enum { MAXARGS = 24, MAXLIST = 1<<16 };

struct Arg {
    bool	isl;
    long	v;
    int		n;
    const long*	l;
};

struct Args {
    int		n;
    Arg		a [MAXARGS];
    long	pool [MAXLIST];
    int		npool;
    long	i (int k) const		{ return k < n && !a[k].isl ? a[k].v : 0; }
    int		ln (int k) const	{ return k < n && a[k].isl ? a[k].n : 0; }
    const long*	l (int k) const		{ return k < n && a[k].isl ? a[k].l : pool; }
    void	set (int k, long v)	{ if (k >= n) { for (int j = n; j <= k; ++j) { a[j].isl = false; a[j].v = 0; } n = k+1; } a[k].isl = false; a[k].v = v; }
};

static char	_obuf [1<<22];
static int	_on = 0;
static int	_ofd = 1;

static void oflush (void)
{
    for (int o = 0; o < _on;) {
	ssize_t r = ::write (_ofd, _obuf+o, _on-o);
	if (r <= 0) _exit (97);
	o += r;
    }
    _on = 0;
}
static void ochr (char c)
{
    if (_on >= int(sizeof(_obuf))) _exit (96);
    _obuf[_on++] = c;
}
static void ostr (const char* s)	{ while (*s) ochr (*s++); }
static void oint (long v)
{
    char b [24]; int n = 0;
    unsigned long u = v < 0 ? 0-(unsigned long)v : (unsigned long)v;
    do { b[n++] = '0'+u%10; u /= 10; } while (u);
    if (v < 0) ochr ('-');
    while (n) ochr (b[--n]);
}

// JSON writer for states: a list or record of integers, lists and records.
struct W {
    bool	first;
    W (void) : first (true) {}
    void sep (void)			{ if (!first) ochr (','); first = false; }
    void i (long v)			{ sep(); oint (v); }
    void open (void)			{ sep(); ochr ('['); first = true; }
    void close (void)			{ ochr (']'); first = false; }
    void obj (void)			{ sep(); ochr ('{'); first = true; }
    void endobj (void)			{ ochr ('}'); first = false; }
    void key (const char* k)		{ sep(); ochr ('"'); ostr (k); ostr ("\":"); first = true; }
    void str (const char* s)		{ sep(); ochr ('"'); ostr (s); ochr ('"'); }
    template <typename It> void list (It b, It e)	{ open(); for (; b != e; ++b) i (long(*b)); close(); }
    void bytes (const void* p, long n)	{ open(); for (long k = 0; k < n; ++k) i (((const unsigned char*)p)[k]); close(); }
    void ki (const char* k, long v)	{ key(k); i(v); }
    // 64 bit word as four 16 bit limbs, least significant first
    void limbs (unsigned long v)	{ open(); for (int k = 0; k < 4; ++k) i ((v >> (16*k)) & 0xffff); close(); }
};

// Result of one call.
enum { MAXRES = 1<<16 };
struct Res {
    const char*	x;
    int		n;
    long	r [MAXRES];
    void	clear (void)	{ x = ""; n = 0; }
    void	push (long v)	{ if (n >= MAXRES) _exit (95); r[n++] = v; }
    template <typename It> void list (It b, It e) { for (; b != e; ++b) push (long(*b)); }
    void	bytes (const void* p, long k)	{ for (long j = 0; j < k; ++j) push (((const unsigned char*)p)[j]); }
    void	limbs (unsigned long v)		{ for (int k = 0; k < 4; ++k) push ((v >> (16*k)) & 0xffff); }
    // A length that can not be right is reported as such rather than walked.
    void	sized (const void* p, long k)	{ push (k); if (k >= 0 && k < 20000) bytes (p, k); }
};

// To be provided by the driver:
static void seg_begin (void);
static void seg_end (Res& r);			// destroys everything; may report
static bool exec (const char* op, Args& a, Res& r);	// false: call not applicable, no event
static void state (W& w);

static Args	A;
static Res	R;
static char	_opname [64];

static const char* exc_name (void)
{
    try { throw; }
    catch (ustl::file_exception&)	{ return "file"; }
    catch (ustl::stream_bounds_exception&) { return "bounds"; }
    catch (ustl::system_error&)		{ return "system"; }
    catch (ustl::length_error&)		{ return "length"; }
    catch (ustl::out_of_range&)		{ return "range"; }
    catch (ustl::domain_error&)		{ return "domain"; }
    catch (ustl::invalid_argument&)	{ return "invalid"; }
    catch (ustl::logic_error&)		{ return "logic"; }
    catch (ustl::range_error&)		{ return "range_error"; }
    catch (ustl::overflow_error&)	{ return "overflow"; }
    catch (ustl::underflow_error&)	{ return "underflow"; }
    catch (ustl::runtime_error&)	{ return "runtime"; }
    catch (ustl::bad_alloc&)		{ return "alloc"; }
    catch (ustl::exception&)		{ return "exception"; }
    catch (...)				{ return "unknown"; }
}

static void emit (const char* op, Args& a, Res& r)
{
    W w;
    w.obj();
    w.key ("op"); w.str (op);
    w.key ("a"); w.open();
    for (int k = 0; k < a.n; ++k) {
	if (a.a[k].isl) { w.open(); for (int j = 0; j < a.a[k].n; ++j) w.i (a.a[k].l[j]); w.close(); }
	else w.i (a.a[k].v);
    }
    w.close();
    w.key ("r"); w.open(); w.str (r.x); w.open(); for (int k = 0; k < r.n; ++k) w.i (r.r[k]); w.close(); w.close();
    w.key ("s"); state (w); w.first = false;
    w.endobj();
    ochr ('\n');
    oflush();
}

static void finish_segment (void)
{
    A.n = 0; R.clear();
    try { seg_end (R); } catch (...) { R.clear(); R.x = exc_name(); }
    emit ("fin", A, R);
}

#ifndef DRV_NO_MAIN
int main (int argc, char** argv)
{
    if (argc < 4) return 98;
    int sfd = ::open (argv[1], O_RDONLY);
    _ofd = ::open (argv[2], O_WRONLY|O_CREAT|O_TRUNC, 0600);
    long skip = atol (argv[3]);
    if (sfd < 0 || _ofd < 0) return 98;
    off_t sz = lseek (sfd, 0, SEEK_END); lseek (sfd, 0, SEEK_SET);
    char* s = (char*) malloc (sz+1);
    for (off_t o = 0; o < sz;) { ssize_t r = ::read (sfd, s+o, sz-o); if (r <= 0) return 98; o += r; }
    s[sz] = 0;
    ::close (sfd);
    try { throw ustl::length_error ("warm up"); } catch (...) { exc_name(); }
    bool inseg = false;
    long seg = -1;
    for (char* p = s; *p;) {
	char* e = strchr (p, '\n');
	if (!e) e = p+strlen(p);
	char* nx = *e ? e+1 : e;
	*e = 0;
	if (*p == 'S' && !p[1]) {
	    if (inseg) finish_segment();
	    inseg = (++seg >= skip);
	    if (inseg) { alarm (60); ostr ("S\n"); oflush(); seg_begin(); }
	} else if (*p && inseg) {
	    int n = 0;
	    while (*p && *p != ' ' && n < 63) _opname[n++] = *p++;
	    _opname[n] = 0;
	    A.n = 0; A.npool = 0;
	    while (*p) {
		while (*p == ' ') ++p;
		if (!*p) break;
		if (A.n >= MAXARGS) return 94;
		Arg& g = A.a[A.n++];
		if (*p == '[') {
		    g.isl = true; g.l = A.pool+A.npool; g.n = 0; g.v = 0;
		    ++p;
		    while (*p && *p != ']') {
			if (A.npool >= MAXLIST) return 94;
			A.pool[A.npool++] = strtol (p, &p, 10); ++g.n;
			while (*p == ',' || *p == ' ') ++p;
		    }
		    if (*p == ']') ++p;
		} else { char* q = p; g.isl = false; g.n = 0; g.l = A.pool; g.v = strtol (p, &p, 10); if (p == q) return 94; }
	    }
	    R.clear();
	    bool ok;
	    try { ok = exec (_opname, A, R); }
	    catch (...) { ok = true; R.n = 0; R.x = exc_name(); }
	    if (ok) emit (_opname, A, R);
	}
	p = nx;
    }
    if (inseg) finish_segment();
    ostr ("E\n"); oflush();
    _exit (0);
}
#endif
#define OP(n)	if (!strcmp (op, n))

// ---- helpers of the drivers ----
static inline long clip (long i, long n)	{ return n <= 0 ? 0 : (i < 0 ? 0 : i % n); }
// storage for an object whose construction and destruction is part of a script
template <typename X> struct Raw {
    alignas(16) char b [sizeof(X)];
    X& o (void)		{ return *(X*)b; }
    X& operator* (void)	{ return *(X*)b; }
    X* operator-> (void)	{ return (X*)b; }
    template <typename... A> void make (A&&... a)	{ memset (b, 0xA5, sizeof(b)); new (b) X (ustl::forward<A>(a)...); }
    void kill (void)	{ o().~X(); }
};
// array of T built from a list argument
template <typename T> struct Tmp {
    T* p; long n;
    Tmp (const Args& a, int i) : p (NULL), n (a.ln(i)) { p = (T*) malloc (sizeof(T)*(n+1)); for (long j = 0; j < n; ++j) new (p+j) T (a.l(i)[j]); }
    ~Tmp (void) { for (long j = 0; j < n; ++j) (p+j)->~T(); free (p); }
    T* begin (void)	{ return p; }
    T* end (void)	{ return p+n; }
    // gcc's layout of an initializer list: pointer, length
    std::initializer_list<T> il (void) const { std::initializer_list<T> l; const T* q = p; size_t m = n; memcpy ((void*) &l, &q, sizeof(q)); memcpy ((char*) &l + sizeof(q), &m, sizeof(m)); return l; }
};
