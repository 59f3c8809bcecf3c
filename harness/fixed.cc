// C08: tuples, arrays and matrices of DRV_T against Fixed.tla
#include "drv.h"
#include <ustl/umatrix.h>
typedef DRV_T T;
enum { N = DRV_N, NX = DRV_NX, NY = DRV_NY, NT = DRV_NT };
#ifdef DRV_ARRAY
typedef ustl::array<T,N> V;
#elif defined (DRV_MATRIX)
#include <ustl/ulaalgo.h>
typedef ustl::matrix<NX,NY,T> V;
#else
typedef ustl::tuple<N,T> V;
#endif
#ifndef DRV_T2
#define DRV_T2 DRV_T
#endif
typedef DRV_T2 T2;
struct Slot { unsigned char g1 [32]; unsigned char b [sizeof(V)] __attribute__((aligned(4))); unsigned char g2 [32]; };
static Slot slots [NT];
static V& at (int k)	{ return *(V*) slots[k].b; }
enum { FL = !ustl::numeric_limits<T>::is_integer, UNS = !ustl::numeric_limits<T>::is_signed, W4 = sizeof(T) == 4 };
static long val (const T& v)	{ if (FL) { long l = long(v); return T(l) == v ? l : 999999999; } return W4 ? long(int32_t(v)) : long(v); }
static void seg_begin (void)
{
    for (int k = 0; k < NT; ++k) { memset (&slots[k], 0xA5, sizeof(Slot)); new (slots[k].b) V; for (int i = 0; i < N; ++i) at(k).begin()[i] = T(0); }
}
static int guards (void)
{
    int bad = 0;
    for (int k = 0; k < NT; ++k) for (int i = 0; i < 32; ++i) bad += (slots[k].g1[i] != 0xA5) + (slots[k].g2[i] != 0xA5);
    return bad;
}
static void seg_end (Res& r)	{ seg_begin(); r.push (0); }
static void state (W& w)
{
    w.open();
    w.open(); for (int k = 0; k < NT; ++k) { w.open(); for (int i = 0; i < N; ++i) w.i (val (at(k).begin()[i])); w.close(); } w.close();
    w.i (guards());
    w.close();
}
static bool divisible (long x, long y)
{
    if (!y) return false;
    if (FL) return x % y == 0;
    if (W4 && UNS) return x >= 0 && y > 0;
    if (W4) return x > -2147483647L && y > -2147483647L;
    return true;
}
static T elem (long v)	{ return T(v); }
// keeps whole floats exact
static bool small (int k)	{ if (FL) for (int i = 0; i < N; ++i) { long v = val (at(k).begin()[i]); if (v > 1000 || v < -1000) return false; } return true; }
static bool divs (int k, int j)	{ for (int i = 0; i < N; ++i) if (!divisible (val (at(k).begin()[i]), val (at(j).begin()[i]))) return false; return true; }
static bool divv (int k, long v)	{ for (int i = 0; i < N; ++i) if (!divisible (val (at(k).begin()[i]), v)) return false; return true; }
#define IDX(ix)	int ix##_ = clip (a.i(ix)-1, NT); a.set (ix, ix##_+1)
static bool exec (const char* op, Args& a, Res& r)
{
    int k = clip (a.i(0)-1, NT); a.set (0, k+1);
    V& t = at(k);
    const V& ct = t;
    T* e = t.begin();
    if (a.ln(1) > N) return false;
    OP("set")		{ if (a.ln(1) != N) return false; for (int i = 0; i < N; ++i) e[i] = elem (a.l(1)[i]); return true; }
    OP("put")		{ int i = clip (a.i(1)-1, N); a.set (1, i+1); e[i] = elem (a.i(2)); return true; }
    OP("query") {
	r.push (ct.size()); r.push (ct.empty());
	int i = 0;
	for (typename V::const_iterator p = ct.begin(); p < ct.end(); ++p, ++i) r.push (val (*p));
	return true;
    }
    OP("fill")		{ T v = elem (a.i(1)); ustl::fill (t, v); return true; }
    if (!strcmp (op, "swap") || !strcmp (op, "copy") || !strcmp (op, "new_copy")) {
	int j = clip (a.i(1)-1, NT); a.set (1, j+1);
	OP("swap")	{ t.swap (at(j)); return true; }
	OP("copy")	{ t = (const V&) at(j); return true; }
	OP("new_copy")	{ V x ((const V&) at(j)); memcpy ((void*) e, x.begin(), sizeof(T)*N); return true; }
    }
    if (strlen (op) > 4 && !strcmp (op+3, "_tov")) {
	long v = a.i(1);
	if (!small (k)) return false;
	T x = elem (v);
	OP("add_tov")	{ t += x; return true; }
	OP("sub_tov")	{ t -= x; return true; }
	OP("mul_tov")	{ t *= x; return true; }
	OP("div_tov")	{ if (!divv (k, v)) return false; t /= x; return true; }
    }
    if (strlen (op) == 5 && !strcmp (op+3, "_v")) {
	int j = clip (a.i(1)-1, NT); a.set (1, j+1);
	long v = a.i(2);
	if (!small (j)) return false;
	T x = elem (v);
	const V& c = at(j);
	OP("add_v")	{ V s (c + x); t = s; return true; }
	OP("sub_v")	{ V s (c - x); t = s; return true; }
	OP("mul_v")	{ V s (c * x); t = s; return true; }
	OP("div_v")	{ if (!divv (j, v)) return false; V s (c / x); t = s; return true; }
    }
    OP("compare") {
	int j = clip (a.i(1)-1, NT); a.set (1, j+1);
	const V& c = at(j);
	r.push (ct == c); r.push (ct != c); r.push (ct < c); r.push (ct > c); r.push (ct <= c); r.push (ct >= c);
	return true;
    }
#ifdef DRV_MATRIX
    OP("row")		{ int y = clip (a.i(1), NY); a.set (1, y); ustl::tuple<NX,T> s (ct.row (y)); for (int x = 0; x < NX; ++x) r.push (val (s[x])); return true; }
    OP("column")	{ int x = clip (a.i(1), NX); a.set (1, x); ustl::tuple<NY,T> s (ct.column (x)); for (int y = 0; y < NY; ++y) r.push (val (s[y]) == val (ct[y][x]) ? val (s[y]) : 999999999); return true; }
    OP("vecmat")	{ if (a.ln(1) != NY || !small (k)) return false; ustl::tuple<NY,T> v; for (int y = 0; y < NY; ++y) v[y] = elem (a.l(1)[y]); ustl::tuple<NX,T> s (v * ct); for (int x = 0; x < NX; ++x) r.push (val (s[x])); return true; }
#if DRV_NX == DRV_NY
    OP("transpose")	{ ustl::transpose (t); return true; }
    OP("identity")	{ ustl::load_identity (t); return true; }
    OP("matmul")	{ int j = clip (a.i(1)-1, NT), i = clip (a.i(2)-1, NT); a.set (1, j+1); a.set (2, i+1); if (!small (j) || !small (i)) return false; const V s (((const V&) at(j)) * ((const V&) at(i))); t = s; return true; }
#endif
    return false;
#else
    if (strlen (op) == 5 && op[3] == '_' && op[4] == 'l') {
	Tmp<T> l (a, 1);
	#ifdef DRV_ARRAY
	if (l.n != N) return false;
	#endif
	if (!small (k)) return false;
	OP("add_l")	{ t += l.il(); return true; }
	OP("sub_l")	{ t -= l.il(); return true; }
	OP("mul_l")	{ t *= l.il(); return true; }
	OP("div_l")	{ for (int i = 0; i < l.n; ++i) if (!divisible (val (e[i]), a.l(1)[i])) return false; t /= l.il(); return true; }
    }
    if (strlen (op) == 6 && !strcmp (op+3, "_to")) {
	int j = clip (a.i(1)-1, NT); a.set (1, j+1);
	const V& c = at(j);
	if (!small (k) || !small (j)) return false;
	OP("add_to")	{ t += c; return true; }
	OP("sub_to")	{ t -= c; return true; }
	OP("mul_to")	{ t *= c; return true; }
	OP("div_to")	{ if (!divs (k, j)) return false; t /= c; return true; }
    }
    if (strlen (op) == 3) {
	int j = clip (a.i(1)-1, NT), i = clip (a.i(2)-1, NT); a.set (1, j+1); a.set (2, i+1);
	const V& c = at(j); const V& d = at(i);
	if (!small (j) || !small (i)) return false;
	OP("add")	{ V s (c + d); t = s; return true; }
	OP("sub")	{ V s (c - d); t = s; return true; }
	OP("mul")	{ V s (c * d); t = s; return true; }
	OP("div")	{ if (!divs (j, i)) return false; V s (c / d); t = s; return true; }
    }
#ifdef DRV_ARRAY
    if (!strcmp (op, "p_add")) return false;
    return false;
#else
    OP("zero")		{ new (slots[k].b) V; return true; }
    OP("from_ptr")	{ if (a.ln(1) != N) return false; Tmp<T> l (a, 1); const V s ((const T*) l.begin()); t = s; return true; }
    OP("init")		{ Tmp<T> l (a, 1); if (l.n & 1) { const V s (l.il()); t = s; } else t = l.il(); return true; }
    OP("spread") {
	Tmp<T> l (a, 1);
	const T* p = l.begin();
	if (l.n == 1) new (slots[k].b) V (p[0]);
	#if DRV_N >= 2
	else if (l.n == 2) new (slots[k].b) V (p[0], p[1]);
	#endif
	#if DRV_N >= 3
	else if (l.n == 3) new (slots[k].b) V (p[0], p[1], p[2]);
	#endif
	#if DRV_N >= 4
	else if (l.n == 4) new (slots[k].b) V (p[0], p[1], p[2], p[3]);
	#endif
	else return false;
	return true;
    }
    int j = clip (a.i(1)-1, NT); a.set (1, j+1);
    const V& c = at(j);
    OP("convert")	{ const ustl::tuple<N,T2> u (c); ustl::tuple<N,T2> u2; u2 = c; if (!(u == u2)) return true; const V s (u2); V s2; s2 = u; if (!(s == s2)) { e[0] += 1; return true; } t = s; return true; }
    if (!small (k) || !small (j)) return false;
    OP("p_add")		{ ustl::simd::padd (c, t); return true; }
    OP("p_sub")		{ ustl::simd::psub (c, t); return true; }
    OP("p_mul")		{ ustl::simd::pmul (c, t); return true; }
    OP("p_div")		{ if (!divs (k, j)) return false; ustl::simd::pdiv (c, t); return true; }
    OP("p_min")		{ ustl::simd::pmin (c, t); return true; }
    OP("p_max")		{ ustl::simd::pmax (c, t); return true; }
#ifndef DRV_FLOAT
    OP("p_and")		{ ustl::simd::pand (c, t); return true; }
    OP("p_or")		{ ustl::simd::por (c, t); return true; }
    OP("p_xor")		{ ustl::simd::pxor (c, t); return true; }
    OP("p_avg")		{ if (W4) return false; ustl::simd::pavg (c, t); return true; }
    OP("p_subs")	{ if (!UNS) return false; ustl::simd::psubs (c, t); return true; }
    if (!strncmp (op, "p_sh", 4)) {
	for (int i = 0; i < N; ++i) if (val (c[i]) < 0 || val (c[i]) >= 8 || val (t[i]) < 0) return false;
	OP("p_shl")	{ ustl::simd::pshl (c, t); return true; }
	OP("p_shr")	{ ustl::simd::pshr (c, t); return true; }
    }
#endif
    return false;
#endif
#endif
}
