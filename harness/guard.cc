// P01: scope guards and unique resources against Guard.tla
#include "drv.h"
#include <ustl/umemory.h>
enum { NG = 3 };
static long runs [64]; static int nruns = 0;
#ifdef DRV_BOX
struct R1 {	// a resource that is not there any more when moved from
    int* p;
    R1 (long v) : p (new int (v)) {}
    R1 (const R1& o) : p (new int (*o.p)) {}
    R1 (R1&& o) : p (o.p) { o.p = NULL; }
    ~R1 (void) { delete p; }
    R1& operator= (R1&& o) { int* t = p; p = o.p; o.p = t; return *this; }
    bool operator== (const R1& o) const { return *p == *o.p; }
    operator long (void) const { return p ? *p : -1; }
};
#else
typedef long R1;
#endif
struct D1 {
    long	d;
    explicit D1 (long n) : d(n) {}
    void operator() (const R1& r) const noexcept { if (nruns < 60) { runs[nruns++] = d; runs[nruns++] = long(r); } }
};
struct F1 {
    long	d;
    explicit F1 (long n) : d(n) {}
    void operator() (void) const noexcept { if (nruns < 60) { runs[nruns++] = d; runs[nruns++] = 0; } }
};
typedef ustl::unique_resource<R1,D1> U;
typedef ustl::scope_exit<F1> G;
static Raw<U> us [NG]; static Raw<G> gs [NG];
static bool on [2*NG]; static long act [2*NG];
static bool up = false;
static long base;
static void kill (int g)	{ if (!on[g]) return; if (g < NG) us[g].kill(); else gs[g-NG].kill(); on[g] = false; }
static void told (Res& r)	{ for (int n = 0; n < nruns; ++n) r.push (runs[n]); nruns = 0; }
static void seg_begin (void)	{ if (up) for (int g = 0; g < 2*NG; ++g) kill (g); up = true; nruns = 0; base = live_bytes(); }
static void seg_end (Res& r)	{ for (int g = 0; g < 2*NG; ++g) kill (g); told (r); r.push (live_bytes()-base); }
static void state (W& w)
{
    w.open();
    for (int g = 0; g < 2*NG; ++g) {
	w.open(); w.i (on[g]);
	if (g < NG) { w.i (on[g] ? long(us[g]->get()) : 0); w.i (on[g] ? us[g]->get_deleter().d : 0); }
	else { w.i (0); w.i (on[g] ? act[g] : 0); }
	w.close();
    }
    w.close();
}
static bool exec (const char* op, Args& a, Res& r)
{
    static unsigned turn = 0;
    int m = ++turn % 2;
    const long g = a.i(0)-1, h = a.i(1)-1;
    if (g < 0 || g >= 2*NG) return false;
    OP("make") {
	if (on[g]) return false;
	if (g >= NG) { if (m) new (gs[g-NG].b) G (F1(a.i(2))); else new (gs[g-NG].b) G (ustl::make_scope_exit (F1(a.i(2)))); act[g] = a.i(2); }
	else if (a.i(3) && m) new (us[g].b) U (ustl::make_unique_resource (R1(a.i(1)), D1(a.i(2))));
	else if (a.i(3)) new (us[g].b) U (R1(a.i(1)), D1(a.i(2)));
	else new (us[g].b) U (R1(a.i(1)), D1(a.i(2)), false);
	return on[g] = true;
    }
    OP("checked") { if (on[g] || g >= NG) return false; new (us[g].b) U (ustl::make_unique_resource_checked (R1(a.i(1)), R1(a.i(3)), D1(a.i(2)))); told (r); return on[g] = true; }
    OP("move_make") {
	if (on[g] || h < 0 || h >= 2*NG || !on[h] || (h < NG) != (g < NG)) return false;
	if (g < NG) new (us[g].b) U (ustl::move (*us[h])); else { new (gs[g-NG].b) G (ustl::move (*gs[h-NG])); act[g] = act[h]; }
	told (r); return on[g] = true;
    }
    if (!on[g]) return false;
    OP("end")	{ kill (g); told (r); return true; }
    OP("release") {
	if (g >= NG) { gs[g-NG]->release(); told (r); return true; }
	R1 const& x = us[g]->release(); a.set (1, long(x)); r.push (long(x)); told (r); return true;
    }
    if (g >= NG) return false;
    OP("reset")	{ us[g]->reset(); told (r); return true; }
    OP("reset_to")	{ us[g]->reset (R1(a.i(1))); told (r); return true; }
    OP("move")	{ if (h < 0 || h >= NG || !on[h] || g == h) return false; *us[g] = ustl::move (*us[h]); told (r); return true; }
    return false;
}
