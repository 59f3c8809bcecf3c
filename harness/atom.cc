// P02: atomic operations on DRV_T by threads against Atom.tla
#include "drv.h"
#include "sched.h"
#include <ustl/uatomic.h>
typedef DRV_T T;
enum { WB = sizeof(T), ITEM = 5, RET = 2+2*WB, MAXEV = 64 };
struct Shared {
    alignas(8) ustl::atomic<T> x [2];
    alignas(8) ustl::atomic_flag f;
    alignas(8) ustl::atomic_flag free;
    alignas(8) int tas;
    alignas(8) long d;
    alignas(8) ustl::atomic<int> pub;
    alignas(8) long m;
    Shared (void) : x {{T(0)},{T(0)}}, f (false), free (false), tas (0), d (0), pub (0), m (0) {}
};
static Shared* s;
static long prog [MAXTHR][64*ITEM]; static int proglen [MAXTHR], pc [MAXTHR];
static bool holds [MAXTHR], told;
static long evs [MAXEV*RET]; static int nev;
static T val (long c)	{ T v; memset (&v, c < 64 ? 0 : c, WB); *(unsigned char*) &v = c; return v; }
static void seg_begin (void)	{ cur = -2; arena_reset(); cur = -1; s = NULL; for (int t = 0; t < MAXTHR; ++t) { thr[t].live = false; proglen[t] = pc[t] = 0; } }
static void seg_end (Res& r)	{ r.push (0); }
static bool quiet (void)	{ for (int t = 0; t < MAXTHR; ++t) if (thr[t].live && thr[t].inside) return false; return s; }
static void state (W& w)
{
    w.open();
    if (quiet()) {
	for (int n = 0; n < 2; ++n) { T v = s->x[n].load(); w.bytes (&v, WB); }
	w.i (*(char*) &s->f); w.i (*(char*) &s->free); w.i (s->tas); w.i (s->d);
    }
    w.close();
}
static ustl::memory_order ord (long o)	{ return ustl::memory_order (o); }
__attribute__((noinline)) static void call (int t, const long* i, long& ok, T& r1, T& r2)
{
    using namespace ustl;
    atomic<T>& x = s->x[i[2]-1];
    const long oo = i[1]%10, fo = i[1]/10;
    const T v = val (i[3]), v2 = val (i[4]);
    // orders are mostly known when compiled
    #define ORDS(all)	switch (oo) { case 0: { const memory_order o = memory_order_relaxed; all; break; } case 1: { const memory_order o = memory_order_consume; all; break; } \
	    case 2: { const memory_order o = memory_order_acquire; all; break; } case 3: { const memory_order o = memory_order_release; all; break; } \
	    case 4: { const memory_order o = memory_order_acq_rel; all; break; } default: { const memory_order o = memory_order_seq_cst; all; break; } }
    #define BOTH(c, d)	if (oo == 6) { d; } else ORDS(c)
    switch (i[0]) {
	case 1: BOTH (x.store (v, o), x.store (v)) break;
	case 2: BOTH (r1 = x.load (o), r1 = x.load()) break;
	case 3: BOTH (r1 = x.exchange (v, o), r1 = x.exchange (v)) break;
	case 4: r2 = v2; BOTH (ok = x.compare_exchange_weak (r2, v, o), ok = x.compare_exchange_weak (r2, v)) break;
	#define FAILS(f)	if (fo == 0) ORDS(ok = x.f (r2, v, o, memory_order_relaxed)) else if (fo == 1) ORDS(ok = x.f (r2, v, o, memory_order_consume)) else if (fo == 2) ORDS(ok = x.f (r2, v, o, memory_order_acquire)) else ORDS(ok = x.f (r2, v, o, memory_order_seq_cst))
	case 5: r2 = v2; FAILS(compare_exchange_weak) break;
	case 6: r2 = v2; FAILS(compare_exchange_strong) break;
	#define FE(n, f)	case n: BOTH (r1 = x.f (v, o), r1 = x.f (v)) break;
	FE(7,fetch_add) FE(8,fetch_sub) FE(9,fetch_and) FE(10,fetch_or) FE(11,fetch_xor)
	FE(12,add_fetch) FE(13,sub_fetch) FE(14,and_fetch) FE(15,or_fetch) FE(16,xor_fetch)
	case 17: r1 = x; break;
	case 18: x = v; break;
	case 19: r1 = x++; break;
	case 20: r1 = x--; break;
	case 21: r1 = ++x; break;
	case 22: r1 = --x; break;
	case 23: r1 = (x += v); break;
	case 24: r1 = (x -= v); break;
	case 25: r1 = (x &= v); break;
	case 26: r1 = (x |= v); break;
	case 27: r1 = (x ^= v); break;
	case 28: BOTH (ok = s->f.test_and_set (o), ok = s->f.test_and_set()) if (!ok) holds[t] = true; break;
	case 29: if (holds[t]) { holds[t] = false; BOTH (s->f.clear (o), s->f.clear()) ok = 1; } break;
	case 30: if (holds[t]) { long d = s->d; s->d = d+1; ok = 1; r1 = d; } break;
	case 31: ok = TestAndSet (&s->tas); break;
	case 32: if (t == 0 && !told) { told = true; s->m = 7; BOTH (s->pub.store (1, o), s->pub.store (1)) } break;
	case 33: { int p; BOTH (p = s->pub.load (o), p = s->pub.load()) ok = p; r1 = p ? s->m : 0; } break;
	case 34: BOTH (ok = s->free.test_and_set (o), ok = s->free.test_and_set()) break;
	case 35: BOTH (s->free.clear (o), s->free.clear()) break;
	// a publication through a fence, for what is relaxed
	case 36: if (t == 0 && !told) { told = true; s->m = 7; atomic_thread_fence (memory_order_release); s->pub.store (1, memory_order_relaxed); } break;
	case 37: { int p = s->pub.load (memory_order_relaxed); atomic_thread_fence (memory_order_acquire); ok = p; r1 = p ? s->m : 0; } break;
    }
}
static void thread_body (int t)
{
    while (pc[t] < proglen[t]) {
	long ok = 0; T r1 = 0, r2 = 0;
	call_begin();
	call (t, prog[t]+pc[t]*ITEM, ok, r1, r2);
	++pc[t];
	if (nev < MAXEV) {
	    long* e = evs+nev*RET; ++nev;
	    e[0] = natomic ? momask : -1; e[1] = ok;
	    for (int b = 0; b < WB; ++b) { e[2+b] = ((unsigned char*) &r1)[b]; e[2+WB+b] = ((unsigned char*) &r2)[b]; }
	}
	call_end();
    }
}
static bool exec (const char* op, Args& a, Res& r)
{
    OP("begin") {
	if (s) return false;
	s = new (take (sizeof(Shared))) Shared;
	for (int t = 0; t < MAXTHR; ++t) {
	    proglen[t] = a.ln(t)/ITEM; if (proglen[t] > 64) return false;
	    for (int n = 0; n < proglen[t]*ITEM; ++n) prog[t][n] = a.l(t)[n];
	    for (int n = 0; n < proglen[t]; ++n) if (prog[t][n*ITEM+2] < 1 || prog[t][n*ITEM+2] > 2) return false;
	    told = false; pc[t] = 0; holds[t] = false; thread_start (t);
	}
	return true;
    }
    const long t = a.i(0)-1;
    if (!s || t < 0 || t >= MAXTHR) return false;
    nev = 0;
    OP("go") {
	thread_go (t, a.i(1)); if (lost) return false;
	a.set (2, thr[t].live && thr[t].inside); put_list (a, 3, evs, nev*RET); put_list (a, 4, &acc[0][0], nacc*4);
	return true;
    }
    OP("one") {
	if (pc[t] >= proglen[t]) return false;
	to_end = true; thread_go (t, 1<<30); to_end = false;
	if (lost) return false;
	if (nev != 1) return false;
	a.set (1, evs[0]); r.list (evs+1, evs+RET); put_list (a, 2, &acc[0][0], nacc*4);
	return true;
    }
    return false;
}
