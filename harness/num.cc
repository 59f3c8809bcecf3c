// A05: numeric algorithms and integer utilities on DRV_T against Num.tla
#pragma GCC optimize("wrapv")
#include "drv.h"
#include <ustl/unumeric.h>
typedef DRV_T T;
enum { WB = sizeof(T) };
typedef ustl::reverse_iterator<T*> RI;
typedef ustl::reverse_iterator<const T*> CRI;
struct F2 { int n; F2 (void) : n(2) {} T operator() (T x, T y) const { return T(n*x+y); } };
struct G2 { int n; G2 (void) : n(1) {} T operator() (T x, T y) const { return T(n*x-y); } };
struct MulMod { T m; explicit MulMod (T n) : m(n) {} T operator() (T x, T y) const { return T(T(x*y)%m); } };
static long base;
static void seg_begin (void)	{ base = live_bytes(); }
static void seg_end (Res& r)	{ r.push (live_bytes()-base); }
static void state (W& w)	{ w.open(); w.close(); }
static T num (Args& a, int n)	{ T v = 0; unsigned char b [sizeof(T)] = {}; for (int k = 0; k < WB && k < a.ln(n); ++k) b[k] = a.l(n)[k]; memcpy (&v, b, WB); return v; }
static void tell (Res& r, const T& v)	{ r.bytes (&v, WB); }
struct Arr {
    T* p; long n;
    Arr (Args& a, int k) : p (NULL), n (a.ln(k)/WB) {
	p = (T*) malloc (WB*(n+1));
	for (long i = 0; i < n*WB; ++i) ((unsigned char*) p)[i] = a.l(k)[i];
    }
    explicit Arr (long m) : p ((T*) malloc (WB*(m+1))), n (m) { memset (p, 119, WB*(m+1)); }
    ~Arr (void) { free (p); }
    void tell (Res& r, long e) { r.push (e); r.bytes (p, (n+1)*WB); }
};
#if DRV_T_SIGNED
#define UNS(x)
#else
#define UNS(x)	x
#endif
static bool exec (const char* op, Args& a, Res& r)
{
    using namespace ustl;
    OP("constants") {
	bool fb = true, np = true;
	static volatile uint32_t v32; static volatile uint64_t v64;
	#define C1(v)	v32 = v##u; v64 = uint64_t(v##u)<<7; fb = fb && FirstBit (uint32_t(v##u), 75) == FirstBit (uint32_t(v32), 75) && FirstBit (uint64_t(uint64_t(v##u)<<7), 75) == FirstBit (uint64_t(v64), 75); np = np && NextPow2 (v##u) == NextPow2 (uint32_t(v32));
	C1(0) C1(1) C1(2) C1(3) C1(4) C1(5) C1(1023) C1(1024) C1(1025) C1(0x40000000) C1(0x40000001) C1(0x7fffffff) C1(0x80000000) C1(0x80000001) C1(0xfffffff0) C1(0xffffffff)
	r.push (fb); r.push (np); return true;
    }
    OP("iota") { const long n = a.i(0); if (n < 0 || n > 1000) return false; Arr o (n); iota (o.p, o.p+n, num (a, 1)); o.tell (r, n); return true; }
    OP("mask") {
	T m = 0;
	switch (a.i(0)) {
	    default: return false;
	    #define M1(n)	case n: m = BitMask(T,n); break;
	    #define M8(n)	M1(n+1) M1(n+2) M1(n+3) M1(n+4) M1(n+5) M1(n+6) M1(n+7) M1(n+8)
	    M8(0)
	    #if DRV_W > 1
	    M8(8)
	    #endif
	    #if DRV_W > 2
	    M8(16) M8(24)
	    #endif
	    #if DRV_W > 4
	    M8(32) M8(40) M8(48) M8(56)
	    #endif
	}
	#if DRV_T_SIGNED
	return false;
	#endif
	tell (r, m); return true;
    }
    OP("pack") {
	T t = T(-1); pack_type (uint8_t(a.i(0)), t);
	#if DRV_T_SIGNED
	return false;
	#endif
	tell (r, t);
	#if DRV_W > 1
	uint16_t h = a.l(1)[0]+256*a.l(1)[1]; t = 0; pack_type (h, t); tell (r, t);
	#endif
	return true;
    }
    const bool rev = !a.a[0].isl && a.i(0) == 1;
    const long c = a.i(2);
    #define WALK(w)	auto w = [&](auto f, auto l)
    #define GO(w, A)	if (rev) w (RI (A.p+A.n), RI (A.p)); else if (A.n % 2) w ((const T*) A.p, (const T*) A.p+A.n); else w (A.p, A.p+A.n);
    OP("accumulate") {
	Arr v (a, 1); const T x = num (a, 3);
	WALK(w) { tell (r, c ? accumulate (f, l, x, F2()) : accumulate (f, l, x)); };
	GO(w, v) return true;
    }
    OP("inner") {
	Arr v (a, 1), u (a, 4); const T x = num (a, 3);
	if (u.n < v.n) return false;
	WALK(w) { tell (r, c ? inner_product (f, l, u.p, x, F2(), G2()) : inner_product (f, l, u.p, x)); };
	GO(w, v) return true;
    }
    bool ps = !strcmp (op, "partial_sum");
    if (ps || !strcmp (op, "difference")) {
	Arr v (a, 1), o (v.n); T* e = NULL;
	WALK(w) { e = ps ? (c ? partial_sum (f, l, o.p, F2()) : partial_sum (f, l, o.p)) : c ? adjacent_difference (f, l, o.p, F2()) : adjacent_difference (f, l, o.p); };
	GO(w, v) o.tell (r, e-o.p); return true;
    }
    const T lowest = T (uint64_t(1) << (WB*8-1));
    const bool ilow = numeric_limits<T>::is_signed;
    const T x = num (a, 0), y = num (a, 1);
    const long n = a.i(1);
    OP("power")	{ if (n < 0) return false; tell (r, power (x, unsigned(n))); return true; }
    OP("power_op") { if (n < 0) return false; const T m = num (a, 2); if (m <= 1 || x < 0 || !(x < m) || uint64_t(m) >> (4*WB-ilow)) return false; tell (r, power (x, unsigned(n), MulMod(m))); return true; }
    OP("minmax")	{ tell (r, min (x, y)); tell (r, max (x, y)); return true; }
    #define LOWEST(x)	(ilow && x == lowest)
    auto tame = [&](T v) { int t = ((unsigned char*) &v)[WB-1]; return t < 64 || (ilow && t >= 192); };
    OP("absv")	{ if (LOWEST(x)) return false; tell (r, absv (x)); return true; }
    OP("sign")	{ tell (r, sign (x)); return true; }
    OP("align")	{ if (is_negative(x) || is_negative(y) || !y || !tame (x) || !tame (y)) return false; tell (r, AlignDown (x, size_t(y))); tell (r, Align (x, size_t(y))); return true; }
    OP("divru")	{ if (is_negative(y) || !y || !tame (x) || !tame (y)) return false; tell (r, DivRU (x, y)); return true; }
    OP("gcd")	{ if (LOWEST(x) || LOWEST(y)) return false; tell (r, gcd (x, y)); return true; }
    OP("lcm")	{ if (LOWEST(x) || LOWEST(y) || (!x && !y)) return false; tell (r, lcm (x, y)); return true; }
    OP("bytes")	{ tell (r, bswap (x)); tell (r, native_to_le (x)); tell (r, native_to_be (x)); tell (r, le_to_native (native_to_le (x))); tell (r, be_to_native (native_to_be (x))); return true; }
    #if !DRV_T_SIGNED
    OP("rotate") { if (n < 0 || n >= 8*WB) return false; tell (r, Rol (x, n)); tell (r, Ror (x, n)); return true; }
    #endif
    #if !DRV_T_SIGNED && DRV_W >= 4
    OP("bits")	{ r.push (FirstBit (x, uoff_t(n))); r.push (popcount (x)); return true; }
    #endif
    #if !DRV_T_SIGNED && DRV_W == 4
    OP("pow2")	{ tell (r, NextPow2 (x)); return true; }
    #endif
    return false;
}
