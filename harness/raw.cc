// A04: objects in raw memory against Raw.tla
#include "drv.h"
using namespace ustl;
enum { N = DRV_N };
#ifndef DRV_PAD
#define DRV_PAD 1
#endif
static long wrong, alive;
struct Obj;
static uint8_t livemap [N];
static bool inplace (const void* p);
static int  slot (const void* p);
struct Obj {
    int v; uint8_t pad [DRV_PAD];
    void born (void)		{ ++alive; memset (pad, 0x5a, sizeof(pad)); if (inplace (this)) { if (livemap[slot(this)]) ++wrong; livemap[slot(this)] = 1; } }
    void used (void) const	{ if (inplace (this) && !livemap[slot(this)]) ++wrong; if (pad[DRV_PAD-1] != 0x5a) ++wrong; }
    Obj (void) : v (7)		{ born(); }
    explicit Obj (int n) : v (n) { born(); }
    Obj (const Obj& o) : v (o.v) { o.used(); born(); }
    Obj (Obj&& o) : v (o.v)	{ o.used(); o.v = -1; born(); }
    Obj& operator= (const Obj& o) { used(); o.used(); v = o.v; return *this; }
    ~Obj (void)			{ used(); --alive; if (inplace (this)) livemap[slot(this)] = 0; v = -9; }
};
static uint8_t room [(N+2)*sizeof(Obj)] __attribute__((aligned(16)));
static Obj* const ob = (Obj*) room + 1;
static bool inplace (const void* p)	{ return p >= (void*) ob && p < (void*) (ob+N); }
static int slot (const void* p)		{ return (const Obj*) p - ob; }
static void clear (void)	{ memset (livemap, 0, sizeof(livemap)); memset (room, 0xA5, sizeof(room)); wrong = alive = 0; }
static void seg_begin (void)	{ clear(); }
static void done (Res& r, long e)
{
    r.push (e); r.push (alive);
    for (size_t i = 0; i < sizeof(Obj); ++i) if (room[i] != 0xA5 || room[(N+1)*sizeof(Obj)+i] != 0xA5) ++wrong;
    r.push (wrong);
}
static void seg_end (Res& r)	{ clear(); done (r, 0); }
static void state (W& w)
{
    w.open();
    for (int i = 0; i < N; ++i) w.i (livemap[i] ? ob[i].v : 0);
    w.close();
}
static bool has (long o, long n, int l)
{
    if (o < 0 || n < 0 || o+n > N) return false;
    for (long i = o; i < o+n; ++i) if (livemap[i] != l) return false;
    return true;
}
static bool exec (const char* op, Args& a, Res& r)
{
    const long x = a.i(0), n = a.i(1), y = a.i(2);
    Obj* const p = ob+x; Obj* const q = ob+y; const Obj* const c = p;
    const bool apart = x+n <= y || y+n <= x;
    long e = 0;
    #define IS(s)	(!strcmp (op, s))
    if (IS("set")) {
	if (a.ln(0) != N) return false;
	clear();
	for (int i = 0; i < N; ++i) if (a.l(0)[i]) new (ob+i) Obj (a.l(0)[i]);
    } else if (IS("ucopy") || IS("ucopyn") || IS("umove") || IS("umoven")) {
	if (!has (x, n, 1) || !has (y, n, 0)) return false;
	Obj* z;
	if (IS("ucopy")) z = uninitialized_copy (c, c+n, q);
	else if (IS("ucopyn")) z = uninitialized_copy_n (c, n, q);
	else if (IS("umove")) z = uninitialized_move (p, p+n, q);
	else z = uninitialized_move_n (p, n, q);
	e = z-ob;
    } else if (IS("copy") || IS("copyn") || IS("copyback") || IS("swaps")) {
	if (!has (x, n, 1) || !has (y, n, 1) || (!apart && (IS("swaps") || (IS("copyback") ? y < x : y > x)))) return false;
	Obj* z;
	if (IS("copy")) z = copy (c, c+n, q);
	else if (IS("copyn")) z = copy_n (c, n, q);
	else if (IS("copyback")) z = copy_backward (c, c+n, q+n);
	else z = swap_ranges (p, p+n, q);
	e = z-ob;
    } else if (IS("fill") || IS("filln") || IS("ufill") || IS("ufilln")) {
	if (!has (x, n, op[0] != 'u')) return false;
	{
	    const Obj v (y);
	    e = x+n;
	    if (IS("fill")) fill (p, p+n, v);
	    else if (IS("filln")) e = fill_n (p, n, v) - ob;
	    else if (IS("ufill")) uninitialized_fill (p, p+n, v);
	    else e = uninitialized_fill_n (p, n, v) - ob;
	}
    } else if (IS("make")) {
	if (!has (x, n, 0)) return false;
	e = x+n;
	switch (y%6) {
	    case 0: uninitialized_default_construct (p, p+n); break;
	    case 1: uninitialized_default_construct_n (p, n); break;
	    case 2: construct (p, p+n); break;
	    case 3: uninitialized_value_construct (p, p+n); break;
	    case 4: uninitialized_value_construct_n (p, n); break;
	    default: for (long i = 0; i < n; ++i) construct_at (p+i); break;
	}
    } else if (IS("destroy")) {
	if (!has (x, n, 1)) return false;
	e = x+n;
	switch (y%4) {
	    case 0: destroy (p, p+n); break;
	    case 1: destroy_n (p, n); break;
	    case 2: for (long i = 0; i < n; ++i) destroy_at (p+i); break;
	    default: for (long i = 0; i < n; ++i) destroy (p+i); break;
	}
    } else if (IS("rotate")) {
	if (n < 0 || y < 0 || !has (x, n+y, 1)) return false;
	rotate (p, p+n, p+n+y);
    } else
	return false;
    done (r, e);
    return true;
}
