// P02: shared pointers of several threads to the same objects against Share.tla
#include "drv.h"
#include "sched.h"
#include <ustl/umemory.h>
enum { NREG = 3, ITEM = 3, MAXEV = 256 };
static long evs [MAXEV*2]; static int nev;
static void tell (long k, long v)	{ if (nev < MAXEV) { evs[nev*2] = k; evs[nev*2+1] = v; } ++nev; }
struct Obj {
    long v, id;
    explicit Obj (long n) : v (n*7), id (n) {}
    ~Obj (void) { tell (2, id); v = 0; }
};
typedef ustl::shared_ptr<Obj> P;
static Raw<P> reg [MAXTHR][NREG]; static bool up = false;
static long prog [MAXTHR][64*ITEM]; static int proglen [MAXTHR], pc [MAXTHR];
static bool begun = false;
static void seg_begin (void)
{
    arena_reset(); begun = false;
    for (int t = 0; t < MAXTHR; ++t) { thr[t].live = false; proglen[t] = pc[t] = 0; for (int r = 0; r < NREG; ++r) reg[t][r].make(); }
}
static bool quiet (void)	{ for (int t = 0; t < MAXTHR; ++t) if (thr[t].live && thr[t].inside) return false; return true; }
static void seg_end (Res& r)
{
    nev = 0;
    if (!quiet()) { r.push (-1); return; }
    for (int t = 0; t < MAXTHR; ++t) for (int n = 0; n < NREG; ++n) reg[t][n].kill();
    for (int n = 0; n < nev && n < MAXEV; ++n) r.push (evs[n*2+1]);
    r.push (nblocks); begun = false;
}
static void state (W& w)
{
    w.open();
    if (begun && quiet()) for (int t = 0; t < MAXTHR; ++t) for (int n = 0; n < NREG; ++n) { P& p = *reg[t][n]; w.i (p ? p->id : 0); w.i (p.use_count()); }
    w.close();
}
__attribute__((noinline)) static long call (int t, const long* i, int m)
{
    P& p = *reg[t][i[1]-1];
    if (i[0] == 4) {
	if (m == 0) p.reset (new Obj (i[2])); else if (m == 1) p = ustl::make_shared<Obj> (i[2]); else p = new Obj (i[2]);
	return 0;
    }
    P& q = *reg[t][i[2]-1];
    switch (i[0]) {
	case 1: if (m == 0) p = (const P&) q; else if (m == 1) { P x ((const P&) q); p = ustl::move (x); } else { P x ((const P&) q); p.swap (x); } break;
	case 2: if (m == 0 && &p != &q) { P x (ustl::move (q)); p = ustl::move (x); } else p = ustl::move (q); break;
	case 3: if (m == 0) p.reset(); else if (m == 1) { p.~P(); new (&p) P; } else p = P(); break;
	case 5: if (m) p.swap (q); else ustl::swap (p, q); break;
	case 6: return p.use_count();
	case 7: return p.unique();
	case 8: return p ? m ? p->v : (*p).v : 0;
	case 9: { P x ((const P&) q); return x ? x->v : 0; }
    }
    return 0;
}
static void thread_body (int t)
{
    while (pc[t] < proglen[t]) {
	call_begin();
	const int n = pc[t]++;
	long v = call (t, prog[t]+n*ITEM, (n+t+prog[t][n*ITEM+1])%3);
	tell (1, v);
	call_end();
    }
}
static bool exec (const char* op, Args& a, Res& r)
{
    OP("begin") {
	if (begun) return false;
	for (int t = 0; t < MAXTHR; ++t) {
	    proglen[t] = a.ln(t)/ITEM; if (proglen[t] > 64) return false;
	    for (int n = 0; n < proglen[t]*ITEM; ++n) prog[t][n] = a.l(t)[n];
	    for (int n = 0; n < proglen[t]; ++n) { const long* i = prog[t]+n*ITEM; if (i[1] < 1 || i[1] > NREG || i[2] < 1 || (i[0] != 4 && i[2] > NREG)) return false; }
	    pc[t] = 0; thread_start (t);
	}
	reg[0][0]->reset (new Obj (1)); reg[0][1]->reset (new Obj (2));
	for (int t = 1; t < MAXTHR; ++t) for (int n = 0; n < 2; ++n) *reg[t][n] = *reg[0][n];
	begun = true; return true;
    }
    const long t = a.i(0)-1;
    if (!begun || t < 0 || t >= MAXTHR) return false;
    nev = 0;
    OP("go") {
	thread_go (t, a.i(1));
	a.set (2, thr[t].live && thr[t].inside);
    } else OP("one") {
	if (pc[t] >= proglen[t] && !thr[t].inside) return false;
	to_end = true; thread_go (t, 1<<30); to_end = false;
	a.set (1, 0); a.set (2, 0);
    } else return false;
    if (lost || nev > MAXEV) return false;
    put_list (a, 3, evs, nev*2); put_list (a, 4, &acc[0][0], nacc*4);
    return true;
}
