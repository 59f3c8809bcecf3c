// A04: copying, filling, rotating and swapping of memory against Block.tla
#include "drv.h"
using namespace ustl;
#ifndef DRV_M
#define DRV_M 448
#endif
enum { M = DRV_M, Z = 4096 };
struct Three	{ uint8_t a, b, c; };
struct Twenty	{ uint32_t a[5]; };
static uint8_t room [Z+M+Z] __attribute__((aligned(4096)));
static uint8_t* const mem = room+Z;
static uint8_t pat [M];
static uint8_t hint [64]; static int nhint = 0;
static void start (void)
{
    memset (room, 0xA5, sizeof(room));
    memcpy (mem, pat, M);
    nhint = 0;
}
static void seg_begin (void)
{
    for (long i = 1; i <= M; ++i) pat[i-1] = (i*i*7 + 13*i + 5*(i/16)) % 251;
    start();
}
static void seg_end (Res&)	{ start(); }
static void state (W& w)
{
    w.open();
    for (int i = 0; i < M;) {
	int best = 0, at = 0, reps = 0;
	for (int k = 0; k < M; ++k) {
	    int n = 0;
	    while (i+n < M && k+n < M && mem[i+n] == pat[k+n]) ++n;
	    if (n > best) { best = n; at = k; }
	}
	if (nhint) while (i+reps < M && mem[i+reps] == hint[reps%nhint]) ++reps;
	w.open();
	if (reps > best)	{ w.i (1); w.i (reps); w.open(); for (int k = 0; k < nhint; ++k) w.i (hint[k]); w.close(); i += reps; }
	else if (best > 2 || !best)	{
	    if (best) { w.i (0); w.i (best); w.i (at); i += best; }
	    else { w.i (1); w.i (1); w.open(); w.i (mem[i]); w.close(); ++i; }
	} else			{ w.i (1); w.i (1); w.open(); w.i (mem[i]); w.close(); ++i; }
	w.close();
    }
    w.close();
}
template <class T> struct Width { enum { w = sizeof(T) }; };
template <> struct Width<void> { enum { w = 1 }; };
// calls f with pointers to read from and to write to
#define FORM(n,C,T)	case n: return f ((C*) 0, (T*) 0);
template <class F> static bool form (long n, F f)
{
    switch (n) {
	FORM(0,const void,void)		FORM(1,void,void)
	FORM(2,const uint8_t,uint8_t)	FORM(3,uint8_t,uint8_t)
	FORM(4,const char,char)		FORM(5,char,char)
	FORM(6,const int8_t,int8_t)	FORM(7,int8_t,int8_t)
	FORM(8,const uint16_t,uint16_t)	FORM(9,uint16_t,uint16_t)
	FORM(10,const int16_t,int16_t)	FORM(11,int16_t,int16_t)
	FORM(12,const uint32_t,uint32_t) FORM(13,uint32_t,uint32_t)
	FORM(14,const int32_t,int32_t)	FORM(15,int32_t,int32_t)
	FORM(16,const float,float)	FORM(17,float,float)
	FORM(18,const uint64_t,uint64_t) FORM(19,double,double)
	FORM(20,const Three,Three)	FORM(22,const wchar_t,wchar_t)
	FORM(23,char*const,char*)	FORM(24,Twenty,Twenty)
	default: return false;
    }
}
template <class T> static bool fits (T*, long o)	{ return !(o % __alignof__(T)); }
static bool fits (void*, long)			{ return true; }
template <class T> static T* at (T*, long o)	{ return (T*) (mem+o); }
template <class T> static T* past (T* p, long n)	{ return (T*) ((uint8_t*) p + n*Width<T>::w); }
static const void* past (const void* p, long n)	{ return (const uint8_t*) p + n; }
template <class P> static long off (P p)	{ return (const uint8_t*) p - mem; }
static bool whole (void)
{
    for (int i = 0; i < Z; ++i) if (room[i] != 0xA5 || room[Z+M+i] != 0xA5) return false;
    return true;
}
static bool in (long o, long n)	{ return o >= 0 && n >= 0 && o+n <= M; }
static bool apart (long a, long b, long n)	{ return a+n <= b || b+n <= a; }
template <class T> static long wof (T*)	{ return Width<T>::w; }
static long width (long f)
{
    long r = f == 21;
    form (f, [&](auto*, auto* t) { r = wof (t); return true; });
    return r;
}
template <class C, class T> static bool copying (int op, C* s, C* e, long n, T* d, Res& r)
{
    switch (op) {
	case 0: r.push (off (copy (s, e, d))); return true;
	case 1: r.push (off (copy_n (s, size_t(n), d))); return true;
	case 2: r.push (off (copy_backward (s, e, past (d, n)))); return true;
    }
    return false;
}
template <class C, class T> static bool making (int op, C* s, C* e, long n, T* d, Res& r)
{
    switch (op) {
	case 3: r.push (off (uninitialized_copy (s, e, d))); return true;
	case 4: r.push (off (uninitialized_copy_n (s, size_t(n), d))); return true;
	case 5: r.push (off (uninitialized_move (s, e, d))); return true;
	case 6: r.push (off (uninitialized_move_n (s, size_t(n), d))); return true;
    }
    return false;
}
static bool making (int, const void*, const void*, long, void*, Res&)	{ return false; }
static bool making (int, void*, void*, long, void*, Res&)	{ return false; }
template <class T, class V> static bool filling (int op, T* d, long n, V v, Res& r)
{
    switch (op) {
	case 0: fill (d, past (d, n), v); r.push (off (past (d, n))); return true;
	case 1: r.push (off (fill_n (d, size_t(n), v))); return true;
    }
    return false;
}
template <class T, class V> static bool ufilling (int op, T* d, long n, V v, Res& r)
{
    switch (op) {
	case 2: uninitialized_fill (d, d+n, v); r.push (off (d+n)); return true;
	case 3: r.push (off (uninitialized_fill_n (d, size_t(n), v))); return true;
    }
    return filling (op, d, n, v, r);
}
template <class T> static bool fillany (long, int op, T* d, long n, const uint8_t* b, Res& r)	{ T v; memcpy ((void*) &v, b, sizeof(v)); return ufilling (op, d, n, v, r); }
static bool fillany (long f, int op, void* d, long n, const uint8_t* b, Res& r)	{ return f ? filling (op, d, n, b[0], r) : filling (op, d, n, char(b[0]), r); }
static bool fillany (long f, int op, char* d, long n, const uint8_t* b, Res& r)	{ return f == 5 && op < 2 ? filling (op, d, n, b[0], r) : ufilling (op, d, n, char(b[0]), r); }
template <class T> static bool others (int op, T* a, T* b, long n, Res& r)
{
    switch (op) {
	case 0: r.push (off (swap_ranges (a, a+n, b))); return true;
	case 1: swap (*a, *b); return true;
	case 2: iter_swap (a, b); return true;
	case 3: uninitialized_default_construct (a, a+n); return true;
	case 4: uninitialized_default_construct_n (a, n); return true;
	case 5: construct (a, a+n); return true;
	case 6: uninitialized_value_construct (a, a+n); return true;
	case 7: uninitialized_value_construct_n (a, n); return true;
	case 8: destroy (a, a+n); return true;
	case 9: destroy_n (a, n); return true;
	case 10: for (; n; --n, ++a) construct_at (a, T()); return true;
	case 11: for (; n; --n, ++a) destroy_at (a); return true;
    }
    return false;
}
static bool others (int, void*, void*, long, Res&)	{ return false; }
static int which (const char* op, const char* const* l)	{ for (int k = 0; l[k]; ++k) if (!strcmp (op, l[k])) return k; return -1; }
static bool exec (const char* op, Args& a, Res& r)
{
    static const char* const copies[] = { "copy", "copyn", "copyback", "ucopy", "ucopyn", "umove", "umoven", 0 };
    static const char* const fills[] = { "fill", "filln", "ufill", "ufilln", 0 };
    const long f = a.i(0), w = width (f);
    if (!w) return false;
    start();
    bool did = false;
    int k;
    if ((k = which (op, copies)) >= 0) {
	const long s = a.i(1), n = a.i(2), d = a.i(3);
	if (n < 0 || !in (s, n*w) || !in (d, n*w)) return false;
	if (!apart (s, d, n*w) && (k > 2 || (k == 2 ? d < s : d > s) || (d-s)%w)) return false;
	if (f == 21) {
	    if (k > 2) return false;
	    if (k == 0) { copy_n_fast (mem+s, n, mem+d); r.push (d+n); }
	    else if (k == 1) r.push (off (unrolled_copy (mem+s, size_t(n), mem+d)));
	    else { copy_backward_fast (mem+s, mem+s+n, mem+d+n); r.push (d); }
	    did = true;
	} else did = form (f, [&](auto* c, auto* t) {
		auto p = at (c, s); auto q = at (t, d);
		if (!fits (t, s) || !fits (t, d)) return false;
		return k < 3 ? copying (k, p, past (p, n), n, q, r) : making (k, p, past (p, n), n, q, r); });
    } else if ((k = which (op, fills)) >= 0) {
	const long d = a.i(1), n = a.i(2);
	if (n < 0 || !in (d, n*w) || a.ln(3) != w) return false;
	for (long i = 0; i < w; ++i) hint[i] = a.l(3)[i];
	nhint = w;
	if (f == 21) {
	    if (k > 1) return false;
	    if (k == 0) { fill_n8_fast (mem+d, n, hint[0]); r.push (d+n); }
	    else r.push (off (unrolled_fill (mem+d, size_t(n), hint[0])));
	    did = true;
	} else did = form (f, [&](auto*, auto* t) { return fits (t, d) && fillany (f, k, at (t, d), n, hint, r); });
    } else if (!strcmp (op, "rotate")) {
	const long x = a.i(1), n = a.i(2), m = a.i(3);
	if (n < 0 || m < 0 || !in (x, (n+m)*w)) return false;
	if (f == 21) { rotate_fast (mem+x, mem+x+n, mem+x+n+m); did = true; }
	else did = form (f, [&](auto*, auto* t) { if (!fits (t, x)) return false; auto p = at (t, x); rotate (p, past (p, n), past (p, n+m)); return true; });
    } else if (!strcmp (op, "swaps") || !strcmp (op, "swap") || !strcmp (op, "iterswap")) {
	const bool one = strcmp (op, "swaps");
	const long x = a.i(1), n = one ? 1 : a.i(2), y = a.i(one ? 2 : 3);
	if (n < 0 || !in (x, n*w) || !in (y, n*w) || !apart (x, y, n*w)) return false;
	did = form (f, [&](auto*, auto* t) { return fits (t, x) && fits (t, y) && others (one ? op[0] == 's' ? 1 : 2 : 0, at (t, x), at (t, y), n, r); });
    } else if (!strcmp (op, "zero") || !strcmp (op, "destroy")) {
	const long x = a.i(1), n = a.i(2), v = a.i(3);
	static const int z[] = { 3, 4, 5, 6, 7, 10 }, y[] = { 8, 9, 11 };
	if (n < 0 || !in (x, n*w) || v < 0) return false;
	if (op[0] == 'z') { hint[0] = 0; nhint = 1; }
	did = form (f, [&](auto*, auto* t) { return fits (t, x) && others (op[0] == 'z' ? z[v%6] : y[v%3], at (t, x), at (t, x), n, r); });
    }
    if (did) r.push (!whole());
    return did;
}
