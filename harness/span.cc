// D01: durations, points in time and rational numbers against Span.tla
#include "drv.h"
#include <ustl/uchrono.h>
using namespace ustl;
using namespace ustl::chrono;
typedef ustl::chrono::duration<int32_t, ratio<1,100000000> >	shakes;
typedef ustl::chrono::duration<int16_t, centi>		jiffies;
typedef ustl::chrono::duration<int32_t>			narrow;
typedef ustl::chrono::duration<int64_t, ratio<3,2> >	halves;
typedef ustl::chrono::duration<int8_t, ratio<3600> >	bytehours;
typedef high_resolution_clock::duration			fine;
enum { NU = 17 };
static long reg [NU];
static hrtime_t hr [2];
static void seg_begin (void)	{ memset (reg, 0, sizeof(reg)); hr[0] = hr[1] = hrtime_t(); }
static void seg_end (Res&)	{ }
static void num (W& w, long v)	{ w.bytes (&v, 8); }
static void state (W& w)
{
    w.open();
    w.open(); for (int i = 0; i < NU; ++i) num (w, reg[i]); w.close();
    w.open(); for (int i = 0; i < 2; ++i) { w.open(); num (w, hr[i].tv_sec); w.i (hr[i].tv_nsec); w.close(); } w.close();
    w.close();
}
template <class F> static bool unit (long u, F f)
{
    switch (u) {
	case 1: return f (nanoseconds());	case 2: return f (microseconds());	case 3: return f (milliseconds());	case 4: return f (seconds());
	case 5: return f (minutes());		case 6: return f (hours());		case 7: return f (days());		case 8: return f (weeks());
	case 9: return f (years());		case 10: return f (months());		case 11: return f (centuries());	case 12: return f (millenia());
	case 13: return f (shakes());		case 14: return f (jiffies());		case 15: return f (narrow());		case 16: return f (halves());
	case 17: return f (bytehours());
    }
    return false;
}
static long value (Args& a, int k)	{ uint64_t v = 0; for (int i = 0; i < 8; ++i) v |= uint64_t(uint8_t(a.l(k)[i])) << (8*i); return v; }
template <bool b> struct Yes {};
// a nanosecond is too small a part of a thousand years
template <class D, class E> struct TooFar { enum { no = 0 }; };
template <> struct TooFar<nanoseconds,millenia> { enum { no = 1 }; };
template <> struct TooFar<millenia,nanoseconds> { enum { no = 1 }; };
template <class F, class D, class E> static bool call (F f, D d, E e, Yes<false>)	{ return f (d, e); }
template <class F, class D, class E> static bool call (F, D, E, Yes<true>)	{ return false; }
template <class F, class D, class E> static bool call (F f, D d, E e)	{ return call (f, d, e, Yes<bool(TooFar<D,E>::no)>()); }
template <class F> static bool both (long u, long v, F f)
    { return unit (u, [&](auto d) { return unit (v, [&](auto e) { return call (f, d, e); }); }); }
template <class F> static bool near (long u, F f)	{ return unit (u, [&](auto d) { return call ([&](auto, auto e) { return f (e); }, nanoseconds(), d); }); }
template <class D> static D of (D, long u)	{ return D (typename D::rep (reg[u-1])); }
template <class C, class D> static time_point<C,D> point (D d)	{ return time_point<C,D> (d); }
typedef system_clock SC;
// what needs the second to become the first without a cast
template <class D, class E> static bool lossless (const char*, D&, E, bool, Res&, Yes<false>)	{ return false; }
template <class D, class E> static bool lossless (const char* op, D& d, E e, bool tp, Res& r, Yes<true>)
{
    time_point<SC,D> p (d); const time_point<SC,E> q (e);
    if (!strcmp (op, "convert")) {
	if (tp) { time_point<SC,D> x (q); d = x.time_since_epoch(); }
	else { D x (e); d = x; }
    } else if (!strcmp (op, "add")) {
	if (tp) { if (d.count() & 1) p += e; else p = p + e; d = p.time_since_epoch(); }
	else if (d.count() & 1) d += e;
	else d = d + e;
    } else if (!strcmp (op, "sub")) {
	if (tp) { if (d.count() & 1) p -= e; else p = p - D(e); d = p.time_since_epoch(); }
	else if (d.count() & 1) d -= e;
	else d = d - e;
    } else if (!strcmp (op, "diff")) {
	const D x = tp ? D(p - q) : D(d - e);
	long v = x.count(); r.bytes (&v, 8);
    } else
	return false;
    return true;
}
template <class D, class E> static bool compared (D, E, bool, Res&, Yes<false>)	{ return false; }
template <class D, class E> static bool compared (D d, E e, bool tp, Res& r, Yes<true>)
{
    const time_point<SC,D> p (d); const time_point<SC,E> q (e);
    r.push (tp ? p == q : d == e); r.push (tp ? p < q : d < e);
    return true;
}
template <class F> static bool frac (long i, F f)
{
    switch (i) {
	case 1: return f (ratio<0,1>());	case 2: return f (ratio<1,1>());	case 3: return f (ratio<-1>());		case 4: return f (ratio<2,6>());
	case 5: return f (ratio<4,15>());	case 6: return f (ratio<6,-4>());	case 7: return f (ratio<-10,-25>());	case 8: return f (ratio<60>());
	case 9: return f (milli());		case 10: return f (ratio<999,1000>());	case 11: return f (ratio<1000,7>());	case 12: return f (ratio<0,-9>());
	case 13: return f (ratio<-3,7>());	case 14: return f (ratio<36,84>());
    }
    return false;
}
template <class P, class Q> static void quot (P, Q, Res& r, Yes<true>)	{ typedef ratio_divide<P,Q> T; r.push (T::num); r.push (T::den); }
template <class P, class Q> static void quot (P, Q, Res& r, Yes<false>)	{ r.push (0); r.push (0); }
static void put (Res& r, const hrtime_t& h)	{ r.bytes (&h.tv_sec, 8); r.push (h.tv_nsec); }
template <class D> static long wide (D d)	{ return d.count(); }
// which calls are within range
typedef __int128 wideint;
static const struct { long num, den; int w; } units [NU+1] = { {1,1,8},
    {1,1000000000,8}, {1,1000000,8}, {1,1000,8}, {1,1,8}, {60,1,8}, {3600,1,8}, {86400,1,8}, {604800,1,8}, {31557600,1,8}, {2629800,1,8},
    {3155760000,1,8}, {31557600000,1,8}, {1,100000000,4}, {1,100,2}, {1,1,4}, {3,2,8}, {3600,1,1} };
static bool fits (wideint x, int w)	{ const wideint m = wideint(1) << (8*w-1); return x >= -m && x < m; }
static wideint gcd128 (wideint a, wideint b)	{ return b ? gcd128 (b, a%b) : a; }
// x of unit v in unit u
static bool conv (long v, long u, wideint x, wideint& y)
{
    if (u < 1 || u > NU || v < 1 || v > NU || (u == 1 && v == 12) || (u == 12 && v == 1)) return false;
    const wideint n = wideint(units[v].num)*units[u].den, d = wideint(units[v].den)*units[u].num, g = gcd128 (n, d);
    y = x*(n/g);
    if (!fits (y, 8)) return false;
    y /= d/g;
    return fits (y, units[u].w);
}
// whether each unit v is a whole number of units u
static bool whole (long v, long u)
    { const wideint n = wideint(units[v].num)*units[u].den, d = wideint(units[v].den)*units[u].num; return !(n % d); }
static wideint nanos (long h)	{ return wideint(hr[h-1].tv_sec)*1000000000 + hr[h-1].tv_nsec; }
static bool fitst (wideint x)	{ const wideint m = wideint(1000000000) << 63; return x >= -m && x < m; }
static bool isu (long u)	{ return u >= 1 && u <= NU; }
static bool allowed (const char* op, Args& a)
{
    const long u = a.i(0), v = a.i(1);
    wideint y = 0;
    #define IS(s)	(!strcmp (op, s))
    if (*op != 'h' && !isu (u)) return false;
    if (*op == 'h' && (u < 1 || u > 2)) return false;
    if (IS("set")) return a.ln(1) == 8;
    if (IS("cast") || IS("convert")) return isu (v) && conv (v, u, reg[v-1], y);
    if (IS("add")) return isu (v) && conv (v, u, reg[v-1], y) && fits (reg[u-1]+y, units[u].w);
    if (IS("sub") || IS("diff")) return isu (v) && conv (v, u, reg[v-1], y) && fits (reg[u-1]-y, units[u].w);
    if (IS("compare")) return isu (v) && (!whole (u, v) || conv (u, v, reg[u-1], y)) && (!whole (v, u) || conv (v, u, reg[v-1], y));
    if (IS("step")) return v >= 0 && v <= 3 && fits (wideint(reg[u-1]) + (v < 2 ? 1 : -1), units[u].w);
    if (IS("text")) return u != 17;
    if (IS("timet")) return u == 4;
    if (IS("htext")) return hr[u-1].tv_sec >= 0;
    if (IS("clock")) return u <= 6;
    if (IS("neg")) return fits (-wideint(reg[u-1]), units[u].w);
    if (IS("mul")) return v >= -120 && v <= 120 && fits (wideint(reg[u-1])*v, units[u].w);
    if (IS("div")) return v && v >= -120 && v <= 120 && fits (wideint(reg[u-1])/v, units[u].w);
    if (IS("mod")) return v && v >= -120 && v <= 120;
    if (IS("moddur")) return v > 0 && v <= 120;
    if (IS("hset")) return a.ln(1) == 8 && a.i(2) >= 0 && a.i(2) < 1000000000;
    if (IS("hnanos")) return a.ln(1) == 8;
    if (IS("hadd")) return v >= 1 && v <= 2 && fitst (nanos (u) + nanos (v));
    if (IS("hsub")) return v >= 1 && v <= 2 && fitst (nanos (u) - nanos (v));
    if (IS("hmul")) return v >= -1000000 && v <= 1000000 && fitst (nanos (u) * v);
    if (IS("hdiv")) return v && v >= -1000000 && v <= 1000000 && fitst (nanos (u) / v);
    if (IS("hstep")) return v >= 0 && v <= 3 && fitst (nanos (u) + (v < 2 ? 1 : -1));
    if (IS("hneg")) return fitst (-nanos (u));
    if (IS("hcompare")) return v >= 1 && v <= 2;
    if (IS("hint")) return fits (nanos (u), 8);
    if (IS("hto")) return isu (v) && v != 12 && v != 16 && fits (nanos (u), 8) && conv (1, v, nanos (u), y);
    if (IS("hfrom")) return isu (v) && conv (v, 1, reg[v-1], y);
    if (IS("haddd")) return isu (v) && conv (v, 1, reg[v-1], y) && fitst (nanos (u) + y);
    if (IS("hsubd")) return isu (v) && conv (v, 1, reg[v-1], y) && fitst (nanos (u) - y);
    return true;
}
template <class T> static void text (Res& r, const T& v)
{
    ostringstream os; os << v;
    r.bytes (os.str().data(), os.str().size());
}
// v as bytes, read back
template <class T> static T wire (Res& r, const T& v)
{
    char buf [64]; memset (buf, 0xa5, sizeof(buf));
    ostream os (buf, sizeof(buf)); os << v;
    if (os.pos() != stream_size_of(v)) return T();
    r.bytes (buf, os.pos());
    istream is (buf, os.pos()); T x; is >> x;
    return x;
}
// what clock id shows
static int64_t shows (clockid_t id)	{ struct timespec t; clock_gettime (id, &t); return t.tv_sec*1000000000L + t.tv_nsec; }
template <class C> static bool ask (Res& r, clockid_t id, bool steady)
{
    const int64_t from = id == CLOCK_REALTIME && C::period::den == 1 ? time(nullptr)*1000000000L : shows (id);
    const typename C::time_point p = C::now();
    const int64_t to = shows (id), t = duration_cast<nanoseconds> (p.time_since_epoch()).count(), unit = duration_cast<nanoseconds> (duration<intmax_t, typename C::period>(1)).count();
    r.push (t > from - unit && t <= to); r.push (C::is_steady == steady);
    return true;
}
static bool exec (const char* op, Args& a, Res& r)
{
    const long u = a.i(0), v = a.i(1);
    const bool tp = a.i(2);
    if (!allowed (op, a)) return false;
    if (IS("set")) {
	if (u < 1 || u > NU || a.ln(1) != 8) return false;
	const long x = value (a, 1);
	return unit (u, [&](auto d) { typedef decltype(d) D; D n ((typename D::rep) x); reg[u-1] = n.count(); return true; });
    } else if (IS("cast"))
	return both (u, v, [&](auto d, auto e) {
		typedef decltype(d) D; typedef decltype(e) E;
		e = of (e, v);
		d = tp ? time_point_cast<D> (time_point<SC,E> (e)).time_since_epoch() : duration_cast<D> (e);
		reg[u-1] = d.count();
		return true; });
    else if (IS("convert") || IS("add") || IS("sub") || IS("diff"))
	return both (u, v, [&](auto d, auto e) {
		typedef decltype(d) D; typedef decltype(e) E;
		d = of (d, u); e = of (e, v);
		if (!lossless (op, d, e, tp, r, Yes<ratio_divide<typename E::period, typename D::period>::den == 1>())) return false;
		reg[u-1] = d.count();
		return true; });
    else if (IS("compare"))
	return both (u, v, [&](auto d, auto e) {
		typedef decltype(d) D; typedef decltype(e) E;
		return compared (of (d, u), of (e, v), tp, r, Yes<ratio_divide<typename E::period, typename D::period>::den == 1 || ratio_divide<typename D::period, typename E::period>::den == 1>()); });
    else if (IS("step"))
	return v >= 0 && v <= 3 && unit (u, [&](auto d) {
		d = of (d, u);
		const long x = (v == 0 ? ++d : v == 1 ? d++ : v == 2 ? --d : d--).count();
		r.bytes (&x, 8);
		reg[u-1] = d.count();
		return true; });
    else if (IS("neg") || IS("mul") || IS("div") || IS("mod") || IS("moddur"))
	return (IS("neg") || IS("mul") || v) && unit (u, [&](auto d) {
		typedef decltype(d) D; typedef typename D::rep Rep;
		d = of (d, u);
		if (IS("neg")) { d = -d; if (+d == d) {} }
		else if (IS("mul")) d *= Rep(v);
		else if (IS("div")) d /= Rep(v);
		else if (IS("mod")) d %= Rep(v);
		else d %= D (Rep(v));
		reg[u-1] = d.count();
		return true; });
    else if (IS("limits"))
	return unit (u, [&](auto d) {
		typedef decltype(d) D;
		const long x[3] = { wide (D::zero()), wide (D::min()), wide (D::max()) };
		const long y[3] = { wide (time_point<SC,D>::zero().time_since_epoch()), wide (time_point<SC,D>::min().time_since_epoch()), wide (time_point<SC,D>::max().time_since_epoch()) };
		if (memcmp (x, y, sizeof(x))) return false;
		r.bytes (x, sizeof(x));
		return true; });
    else if (IS("text"))
	return unit (u, [&](auto d) {
		typedef decltype(d) D;
		if (v && !is_same<D,seconds>::value) text (r, time_point<SC,D> (of (d, u)));
		else text (r, of (d, u));
		return true; });
    else if (IS("wire"))
	return unit (u, [&](auto d) {
		typedef decltype(d) D;
		d = v ? wire (r, time_point<SC,D> (of (d, u))).time_since_epoch() : wire (r, of (d, u));
		reg[u-1] = d.count();
		return true; });
    else if (IS("rtext"))
	return frac (u, [&](auto p) { typedef decltype(p) P; text (r, ratio<P::num,P::den>()); return true; });
    else if (IS("timet")) {
	const long x = SC::to_time_t (SC::time_point (seconds (reg[3]))), y = SC::from_time_t (reg[3]).time_since_epoch().count();
	r.bytes (&x, 8); r.bytes (&y, 8);
	return true;
    } else if (IS("clock"))
	switch (u) {
	    case 1: return ask<SC> (r, CLOCK_REALTIME, false);
	    case 2: return ask<high_resolution_clock> (r, CLOCK_REALTIME, false);
	    case 3: return ask<steady_clock> (r, CLOCK_MONOTONIC, true);
	    case 4: return ask<system_clock_ms> (r, CLOCK_REALTIME, false);
	    case 5: return ask<system_clock_us> (r, CLOCK_REALTIME, false);
	    default: return ask<system_clock_ns> (r, CLOCK_REALTIME, false);
	}
    else if (IS("ratio"))
	return frac (u, [&](auto p) { return frac (v, [&](auto q) {
		typedef decltype(p) P; typedef decltype(q) Q;
		#define RATIO(t)	r.push (t::num); r.push (t::den)
		typedef ratio_add<P,Q> Sum; typedef ratio_subtract<P,Q> Diff; typedef ratio_multiply<P,Q> Prod;
		RATIO(P); RATIO(Q); RATIO(Sum); RATIO(Diff); RATIO(Prod);
		quot (p, q, r, Yes<Q::num != 0>());
		r.push (ratio_equal<P,Q>::value); r.push (ratio_not_equal<P,Q>::value); r.push (ratio_less<P,Q>::value);
		r.push (ratio_less_equal<P,Q>::value); r.push (ratio_greater<P,Q>::value); r.push (ratio_greater_equal<P,Q>::value);
		return true; }); });
    if (u < 1 || u > 2) return false;
    hrtime_t& h = hr[u-1];
    typedef time_point<high_resolution_clock, fine> Point;
    Point p = Point (fine (h));
    if (IS("hset") && a.ln(1) == 8)	h = hrtime_t (value (a, 1), a.i(2));
    else if (IS("hnanos") && a.ln(1) == 8) h = hrtime_t (intmax_t (value (a, 1)));
    else if (IS("hadd") && v >= 1 && v <= 2) {
	if (a.i(2) == 1) h = h + hr[v-1];
	else if (a.i(2) == 2) { p += fine (hr[v-1]); h = p.time_since_epoch().count(); }
	else h += hr[v-1];
    } else if (IS("hsub") && v >= 1 && v <= 2) {
	if (a.i(2) == 1) h = h - hr[v-1];
	else if (a.i(2) == 2) h = (p - Point (fine (hr[v-1]))).count();
	else h -= hr[v-1];
    } else if (IS("hmul")) { if (tp) h = h * intmax_t(v); else h *= intmax_t(v); }
    else if (IS("hdiv") && v) { if (tp) h = h / intmax_t(v); else h /= intmax_t(v); }
    else if (IS("hstep") && v >= 0 && v <= 3) { const hrtime_t x (v == 0 ? ++h : v == 1 ? h++ : v == 2 ? --h : h--); put (r, x); }
    else if (IS("hneg"))	h = tp ? (-fine(h)).count() : -h;
    else if (IS("hcompare") && v >= 1 && v <= 2) { r.push (tp ? fine(h) == fine(hr[v-1]) : h == hr[v-1]); r.push (tp ? fine(h) < fine(hr[v-1]) : h < hr[v-1]); r.push (h >= hr[v-1]); }
    else if (IS("htext"))	{ if (tp) text (r, fine (h)); else text (r, h); }
    else if (IS("hwire"))	h = tp ? wire (r, fine (h)).count() : wire (r, h);
    else if (IS("hlimits"))	{ put (r, fine::zero().count()); put (r, fine::min().count()); put (r, fine::max().count()); }
    else if (IS("hint"))	{ const long x = intmax_t (h); r.bytes (&x, 8); }
    else if (IS("hto"))
	return near (v, [&](auto d) { typedef decltype(d) D; d = tp ? time_point_cast<D> (p).time_since_epoch() : duration_cast<D> (fine (h)); reg[v-1] = d.count(); return true; });
    else if (IS("hfrom"))
	return near (v, [&](auto d) { h = tp ? fine (of (d, v)).count() : duration_cast<fine> (of (d, v)).count(); return true; });
    else if (IS("haddd") || IS("hsubd"))
	return near (v, [&](auto d) { if (op[1] == 'a') p += of (d, v); else p -= of (d, v); h = p.time_since_epoch().count(); return true; });
    else
	return false;
    return true;
}
