// I01: function objects on DRV_T against Func.tla
#pragma GCC optimize("wrapv")
#include "drv.h"
#include <ustl/ufunction.h>
#include <setjmp.h>
using namespace ustl;
typedef DRV_T T;
struct Obj {
    T v, w;
    T bump (void)	{ return v++; }
    T get (void) const	{ return v; }
    T take (T x)	{ return v = T(v+x); }
    T peek (T x) const	{ return T(w-x); }
};
static Obj* objs;
static long base; static bool up = false;
static void reset (void)	{ for (int k = 0; k < 3; ++k) { objs[k].v = 2*k+1; objs[k].w = 2*k+2; } }
static sigjmp_buf nowhere;
static void on_fpe (int)	{ siglongjmp (nowhere, 1); }
static void seg_begin (void)
{
    if (up) delete [] objs;
    base = live_bytes(); up = true; objs = new Obj [3]; reset();
    static bool set = false;
    if (!set) { set = true; signal (SIGFPE, on_fpe); }
}
static Obj keep [3];
static void seg_end (Res& r)	{ for (int k = 0; k < 3; ++k) keep[k] = objs[k]; delete [] objs; r.push (live_bytes()-base); objs = new Obj [3]; for (int k = 0; k < 3; ++k) objs[k] = keep[k]; }
static void state (W& w)	{ w.open(); for (int k = 0; k < 3; ++k) { w.open(); w.i (objs[k].v); w.i (objs[k].w); w.close(); } w.close(); }
static T uf (T x)	{ return T(5*x+1); }
static T bf (T x, T y)	{ return T(3*x-y); }
static T inc (T& x)	{ return ++x; }
template <class F> static bool bin (long b, F f)
{
    switch (b) {
	case 0: f (plus<T>()); break;		case 1: f (minus<T>()); break;		case 2: f (divides<T>()); break;	case 3: f (modulus<T>()); break;
	case 4: f (multiplies<T>()); break;	case 5: f (logical_and<T>()); break;	case 6: f (logical_or<T>()); break;	case 7: f (bitwise_or<T>()); break;
	case 8: f (bitwise_and<T>()); break;	case 9: f (bitwise_xor<T>()); break;	case 10: f (equal_to<T>()); break;	case 11: f (not_equal_to<T>()); break;
	case 12: f (greater<T>()); break;	case 13: f (less<T>()); break;		case 14: f (greater_equal<T>()); break;	case 15: f (less_equal<T>()); break;
	case 16: f (compare<T>()); break;	case 17: f (project1st<T,T>()); break;	case 18: f (project2nd<T,T>()); break;	case 19: f (ptr_fun (&bf)); break;
	default: return false;
    }
    return true;
}
// the code of a function, being read
struct Code { const long* c; const long* e; bool bad; long next (void) { if (c == e) { bad = true; return -1; } return *c++; } };
template <class F> static void tiny (Code& c, F f)
{
    long b;
    switch (c.next()) {
	case 2: f (negate<T>()); break;
	case 3: f (identity<T>()); break;
	case 4: b = c.next(); if (b != 1) { c.bad = true; return; } f (bind1st (minus<T>(), T(c.next()))); break;
	case 5: b = c.next(); if (b != 13) { c.bad = true; return; } f (bind2nd (less<T>(), T(c.next()))); break;
	default: c.bad = true;
    }
}
template <class F> static void lite (Code& c, F f)
{
    long b;
    switch (c.next()) {
	case 0: f (logical_not<T>()); break;
	case 1: f (bitwise_not<T>()); break;
	case 6: f (ptr_fun (&uf)); break;
	case 5: b = c.next();
	    if (b == 2) f (bind2nd (divides<T>(), T(c.next())));
	    else if (b == 16) f (bind2nd (compare<T>(), T(c.next())));
	    else { c.c -= 2; tiny (c, f); }
	    break;
	default: --c.c; tiny (c, f);
    }
}
template <class F> static void leaf (Code& c, F f)
{
    const long o = c.next();
    if (o == 4 || o == 5) {
	const long b = c.next(); const T v (c.next());
	if (c.bad || !(o == 4 ? bin (b, [&](auto op) { f (bind1st (op, v)); }) : bin (b, [&](auto op) { f (bind2nd (op, v)); }))) c.bad = true;
    } else { --c.c; lite (c, f); }
}
template <class F> static void una (Code& c, F f)
{
    if (c.c == c.e) { c.bad = true; return; }
    const long o = *c.c, o2 = c.c+1 < c.e ? c.c[1] : -1;
    if (o == 7) {
	++c.c;
	if (o2 == 8) { ++c.c; lite (c, [&](auto g) { lite (c, [&](auto h) { f (unary_negator (compose1 (g, h))); }); }); }
	else leaf (c, [&](auto g) { f (unary_negator (g)); });
    } else if (o == 8 && o2 == 8) {
	c.c += 2;
	tiny (c, [&](auto f1) { tiny (c, [&](auto f2) {
	    if (c.next() != 9 || c.next() != 0) { c.bad = true; return; }
	    tiny (c, [&](auto g) { tiny (c, [&](auto h) { f (compose1 (compose1 (f1, f2), compose2 (plus<T>(), g, h))); }); });
	}); });
    } else if (o == 8) { ++c.c; lite (c, [&](auto g) { lite (c, [&](auto h) { f (compose1 (g, h)); }); }); }
    else if (o == 9) {
	++c.c; const long b = c.next();
	tiny (c, [&](auto g) { tiny (c, [&](auto h) { if (c.bad || !bin (b, [&](auto op) { f (compose2 (op, g, h)); })) c.bad = true; }); });
    } else leaf (c, f);
}
static bool fits (long x)	{ return long(T(x)) == x; }
static bool exec1 (const char* op, Args& a, Res& r)
{
    OP("unary") {
	if (!fits (a.i(1))) return false;
	for (int n = 0; n < a.ln(0); ++n) if (a.l(0)[n] < -30000 || a.l(0)[n] > 30000) return false;
	Code c = { a.l(0), a.l(0)+a.ln(0), false };
	T x (a.i(1));
	bool ran = false;
	una (c, [&](auto f) { if (c.bad || c.c != c.e) return; ran = true; r.push (f (x)); auto f2 (f); r.push (dereference (f2) (&x)); });
	return ran;
    }
    OP("binary") {
	if (!fits (a.i(1)) || !fits (a.i(2))) return false;
	T x (a.i(1)), y (a.i(2));
	return bin (a.i(0), [&](auto f) { r.push (f (x, y)); r.push (dereference (f) (&x, &y)); });
    }
    OP("project") {
	if (!fits (a.i(0))) return false;
	r.push (project1st<T,long>() (T(a.i(0)), a.i(1))); r.push (project2nd<T,long>() (T(a.i(0)), a.i(1)));
	r.push (project1st<long,T>() (a.i(1), T(a.i(0)))); r.push (project2nd<long,T>() (a.i(1), T(a.i(0))));
	return true;
    }
    OP("bumpall") {
	if (a.i(0)) { Obj* p [3] = { objs, objs+1, objs+2 }; for_each (p, p+3, mem_fun (&Obj::bump)); }
	else for_each (objs, objs+3, mem_fun_ref (&Obj::bump));
	return true;
    }
    OP("search") {
	if (!fits (a.i(0))) return false;
	const T v (a.i(0));
	r.push (find_if (objs, objs+3, mem_var_equal_to (&Obj::w, v)) - objs);
	r.push (count_if (objs, objs+3, mem_var_less (&Obj::v, v)));
	return true;
    }
    if (a.i(0) < 1 || a.i(0) > 3) return false;
    Obj& o = objs[a.i(0)-1]; const Obj& co = o;
    OP("assign") { if (!fits (a.i(1)) || !fits (a.i(2))) return false; o.v = a.i(1); o.w = a.i(2); return true; }
    OP("bump") { r.push (a.i(1) ? mem_fun (&Obj::bump) (&o) : mem_fun_ref (&Obj::bump) (o)); return true; }
    OP("get") { r.push (a.i(1) ? mem_fun (&Obj::get) (&co) : mem_fun_ref (&Obj::get) (co)); return true; }
    OP("take") { if (!fits (a.i(1))) return false; r.push (mem_fun (&o, &Obj::take) (T(a.i(1)))); return true; }
    OP("peek") { if (!fits (a.i(1))) return false; r.push (mem_fun (&co, &Obj::peek) (T(a.i(1)))); r.push (compose1 (mem_fun (&co, &Obj::peek), negate<T>()) (T(a.i(1)))); return true; }
    T Obj::*mp = a.i(1) == 1 ? &Obj::v : &Obj::w;
    OP("varinc") { if (a.i(1) != 1 && a.i(1) != 2) return false; r.push (mem_var1 (mp, ptr_fun (&inc)) (o)); return true; }
    OP("var") {
	if (a.i(1) != 1 && a.i(1) != 2) return false;
	for (int n = 0; n < a.ln(2); ++n) if (a.l(2)[n] < -30000 || a.l(2)[n] > 30000) return false;
	Code c = { a.l(2), a.l(2)+a.ln(2), false };
	bool ran = false;
	lite (c, [&](auto f) { if (c.bad || c.c != c.e) return; ran = true; r.push (mem_var1 (mp, f) (o)); r.push (const_mem_var1 (mp, f) (co)); });
	return ran;
    }
    if (a.i(1) < 1 || a.i(1) > 3) return false;
    Obj& o2 = objs[a.i(1)-1]; const Obj& co2 = o2;
    OP("vars") {
	if (a.i(2) != 1 && a.i(2) != 2) return false;
	T Obj::*m = a.i(2) == 1 ? &Obj::v : &Obj::w;
	return bin (a.i(3), [&](auto f) { r.push (mem_var2 (m, f) (o, o2)); r.push (const_mem_var2 (m, f) (co, co2)); });
    }
    OP("compare") {
	if (!fits (a.i(2))) return false;
	const T c (a.i(2)); const T Obj::*v = &Obj::v; const T Obj::*w = &Obj::w;
	r.push (mem_var_equal_to (v, c) (o)); r.push (mem_var_less (v, c) (co)); r.push (mem_var_equal_to (w, c) (co)); r.push (mem_var_less (w, c) (o));
	r.push (mem_var_equal_to (v) (o, o2)); r.push (mem_var_less (v) (co, co2)); r.push (mem_var_equal_to (w) (co, co2)); r.push (mem_var_less (w) (o, o2));
	return true;
    }
    return false;
}
static bool exec (const char* op, Args& a, Res& r)
{
    if (sigsetjmp (nowhere, 1)) { r.clear(); return false; }	// divided by zero
    return exec1 (op, a, r);
}
