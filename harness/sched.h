// Threads of a driver as coroutines, each access of theirs to watched memory a
// point where another may be let run. The driver is compiled with
// -fsanitize=thread, for the calls that puts at each access, and these are here
// in place of the sanitizer's.
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#define NT	__attribute__((no_sanitize("thread")))
enum { MAXTHR = 3, STACK = 1<<16, ARENA = 1<<14, MAXACC = 4096 };
enum { RD, WR, ALOAD, ASTORE, ARMW, FENCE, FREED, MADE, STALE };
struct Thr { ucontext_t c; bool live, inside; char* stack; };
static Thr thr [MAXTHR];
static ucontext_t home;
static int cur = -1;		// which runs
static long budget;
static bool to_end = false;	// stop at the end of the call
static long acc [MAXACC][4]; static int nacc = 0; static bool lost = false;
static long momask = 0; static int natomic = 0;		// of the current call's atomic accesses
alignas(64) static char arena [ARENA];
static int abrk = 0;
static uint8_t alive [ARENA/4];		// granules: 0 never or no longer in use
static int sizes [ARENA/4]; static int nblocks = 0;

NT static void note (int k, long l, long n, long mo)
{
    if (nacc >= MAXACC) { lost = true; return; }
    acc[nacc][0] = k; acc[nacc][1] = l; acc[nacc][2] = n; acc[nacc][3] = mo; ++nacc;
}
NT static void pause_if_due (void)	{ if (budget <= 0) swapcontext (&thr[cur].c, &home); }
NT static bool watched (const volatile void* p)	{ long o = (const char*) p - arena; return cur >= 0 && o >= 0 && o < ARENA; }
// the pause comes first, so that what is accessed is as it then is
NT static void before (const volatile void* p)	{ if (watched (p)) { pause_if_due(); --budget; } }
NT static void done (const volatile void* p, int n, int k, int mo)
{
    if (!watched (p)) return;
    long o = (const char*) p - arena;
    bool ok = alive[o/4] && alive[(o+n-1)/4];
    mo &= 15; note (ok ? k : int(STALE), o/4+1, (o+n-1)/4-o/4+1, mo);
    if (k >= ALOAD && k <= ARMW) {
	++natomic;
	momask |= (mo == __ATOMIC_SEQ_CST ? 7 : mo == __ATOMIC_ACQ_REL ? 3 : mo == __ATOMIC_RELEASE ? 2 : mo == __ATOMIC_RELAXED ? 0 : 1);
    }
}
NT static void at (const volatile void* p, int n, int k, int mo)	{ before (p); done (p, n, k, mo); }
NT static void* take (size_t n)
{
    if (cur < -1) return malloc (n);
    int z = int((n+7)/8*8); if (!z) z = 8;
    if (abrk+z+8 > ARENA) abort();
    char* p = arena+abrk; abrk += z+8;	// never used again, so that what comes late is seen
    memset (p, 0, z); memset (alive+(p-arena)/4, 1, z/4); sizes[(p-arena)/4] = z; ++nblocks;
    if (cur >= 0) note (MADE, (p-arena)/4+1, z/4, 0);
    return p;
}
NT static void give (void* p)
{
    long o = (char*) p - arena;
    if (!p) return;
    if (o < 0 || o >= ARENA) { free (p); return; }
    if (cur >= 0) { pause_if_due(); --budget; }
    if (!alive[o/4] || !sizes[o/4]) { note (STALE, o/4+1, 1, 0); return; }
    note (FREED, o/4+1, sizes[o/4]/4, 0);
    memset (alive+o/4, 0, sizes[o/4]/4); sizes[o/4] = 0; --nblocks;
}
NT static void arena_reset (void)	{ abrk = 0; nblocks = 0; nacc = 0; lost = false; memset (alive, 0, sizeof(alive)); memset (sizes, 0, sizeof(sizes)); }
// the body of thread t: calls between which it is not inside
static void thread_body (int t);
NT static void entry (int t)	{ thread_body (t); thr[t].live = false; for (;;) swapcontext (&thr[t].c, &home); }
NT static void call_begin (void)	{ thr[cur].inside = true; momask = 0; natomic = 0; }
NT static void call_end (void)	{ thr[cur].inside = false; if (to_end) swapcontext (&thr[cur].c, &home); else pause_if_due(); }
NT static void thread_start (int t)
{
    if (!thr[t].stack) thr[t].stack = (char*) malloc (STACK);
    getcontext (&thr[t].c);
    thr[t].c.uc_stack.ss_sp = thr[t].stack; thr[t].c.uc_stack.ss_size = STACK; thr[t].c.uc_link = NULL;
    thr[t].live = true; thr[t].inside = false;
    makecontext (&thr[t].c, (void(*)(void)) entry, 1, t);
}
// what of a call's accesses was seen before a pause
static long mo_of [MAXTHR]; static int na_of [MAXTHR];
NT static void thread_go (int t, long k)
{
    nacc = 0; budget = k; if (!thr[t].live) return;
    momask = mo_of[t]; natomic = na_of[t];
    cur = t; swapcontext (&home, &thr[t].c); cur = -1;
    mo_of[t] = momask; na_of[t] = natomic;
}

NT void* operator new (size_t n)		{ return take (n); }
NT void* operator new[] (size_t n)	{ return take (n); }
NT void operator delete (void* p) noexcept	{ give (p); }
NT void operator delete[] (void* p) noexcept	{ give (p); }
NT void operator delete (void* p, size_t) noexcept	{ give (p); }
NT void operator delete[] (void* p, size_t) noexcept	{ give (p); }

extern "C" {
NT void __tsan_init (void) {}
NT void __tsan_func_entry (void*) {}
NT void __tsan_func_exit (void*) {}
NT void __tsan_read_range (void* p, unsigned long n)	{ at (p, n, RD, 0); }
NT void __tsan_write_range (void* p, unsigned long n)	{ at (p, n, WR, 0); }
NT void __tsan_vptr_update (void** p, void*)		{ at (p, 8, WR, 0); }
NT void __tsan_vptr_read (void** p)			{ at (p, 8, RD, 0); }
#define PLAIN(n)	\
    NT void __tsan_read##n (void* p) { at (p, n, RD, 0); } NT void __tsan_write##n (void* p) { at (p, n, WR, 0); } \
    NT void __tsan_unaligned_read##n (void* p) { at (p, n, RD, 0); } NT void __tsan_unaligned_write##n (void* p) { at (p, n, WR, 0); } \
    NT void __tsan_volatile_read##n (void* p) { at (p, n, RD, 0); } NT void __tsan_volatile_write##n (void* p) { at (p, n, WR, 0); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
#define RMW(b,N,op)	NT uint##b##_t __tsan_atomic##b##_fetch_##N (volatile uint##b##_t* p, uint##b##_t v, int mo) { at (p, b/8, ARMW, mo); uint##b##_t o = *p; *p = (op); return o; }
#define CAS(b,N)	NT int __tsan_atomic##b##_compare_exchange_##N (volatile uint##b##_t* p, uint##b##_t* e, uint##b##_t v, int mo, int fmo) { \
	before (p); uint##b##_t o = *p; bool eq = o == *e; done (p, b/8, eq ? ARMW : ALOAD, eq ? mo : fmo); if (eq) *p = v; else *e = o; return eq; }
#define ATOM(b)	\
    NT uint##b##_t __tsan_atomic##b##_load (const volatile uint##b##_t* p, int mo) { at (p, b/8, ALOAD, mo); return *p; } \
    NT void __tsan_atomic##b##_store (volatile uint##b##_t* p, uint##b##_t v, int mo) { at (p, b/8, ASTORE, mo); *p = v; } \
    RMW(b,add,o+v) RMW(b,sub,o-v) RMW(b,and,o&v) RMW(b,or,o|v) RMW(b,xor,o^v) RMW(b,nand,~(o&v)) CAS(b,strong) CAS(b,weak) \
    NT uint##b##_t __tsan_atomic##b##_exchange (volatile uint##b##_t* p, uint##b##_t v, int mo) { at (p, b/8, ARMW, mo); uint##b##_t o = *p; *p = v; return o; } \
    NT uint##b##_t __tsan_atomic##b##_compare_exchange_val (volatile uint##b##_t* p, uint##b##_t e, uint##b##_t v, int mo, int fmo) { __tsan_atomic##b##_compare_exchange_strong (p, &e, v, mo, fmo); return e; }
ATOM(8) ATOM(16) ATOM(32) ATOM(64)
NT void __tsan_atomic_thread_fence (int mo)	{ if (cur >= 0) note (FENCE, 1, 1, mo); if (cur >= 0 && mo == __ATOMIC_SEQ_CST) momask |= 7; }
NT void __tsan_atomic_signal_fence (int) {}
}
static void put_list (Args& a, int k, const long* l, int n)	{ a.set (k, 0); a.a[k].isl = true; a.a[k].l = l; a.a[k].n = n; }
