// P01: owning pointers of DRV_KIND against Own.tla
#include "drv.h"
#include <ustl/umemory.h>
enum { NR = 3, NObj = 6 };
struct Node;
#if DRV_KIND == 0
typedef ustl::auto_ptr<Node> H;
#elif DRV_KIND == 1
typedef ustl::unique_ptr<Node> H;
#elif DRV_KIND == 2
typedef ustl::unique_ptr<Node[]> H;
#else
typedef ustl::shared_ptr<Node> H;
#endif
static long dead [64]; static int ndead = 0;
static long ncells = 0;
struct Node {
    int*	id;	// on the heap, to be found out when used after the end
    long	v;
    Raw<H>	next;
    static Node* all [NObj+1];
    Node (void) : id (NULL), v (0) { next.make(); ++ncells; }
    explicit Node (long n) : id (NULL), v (0) { next.make(); ++ncells; init (n); }
    void init (long n) { v = n; id = new int (free()); all[*id] = this; }
    void lookup (void);	// dead or dying owners aside, does any still refer to it?
    ~Node (void) { if (id) { if (ndead < 64) dead[ndead++] = *id; all[*id] = NULL; lookup(); delete id; } --ncells; next.kill(); }
    static int free (void) { for (int n = 1; n <= NObj; ++n) if (!all[n]) return n; return 0; }
private:
    Node (const Node&); void operator= (const Node&);
};
Node* Node::all [NObj+1];
static Node* create (long v)
{
    #if DRV_KIND == 2
	Node* p = new Node [3]; p->init (v); return p;
    #else
	return new Node (v);
    #endif
}
static void destroy (Node* p)
{
    #if DRV_KIND == 2
	delete [] p;
    #else
	delete p;
    #endif
}
static Raw<H> roots [NR];
static int dying = -1;
static void kill (int n) { dying = n; roots[n].kill(); dying = -1; }
void Node::lookup (void)
{
    bool owned = false;
    #if DRV_KIND	// an auto_ptr deletes before it changes
    for (int n = 0; n < NR; ++n) if (n != dying && roots[n]->get() == this) owned = true;
    for (int n = 1; n <= NObj; ++n) if (all[n] && all[n]->next->get() == this) owned = true;
    #endif
    if (owned && ndead < 64) dead[ndead++] = -*id;
}
static Node* loose = NULL;
static bool up = false;
static long base;
static void make (void)	{ for (int n = 0; n < NR; ++n) roots[n].make(); loose = NULL; }
static void seg_begin (void)
{
    if (up) for (int n = 0; n < NR; ++n) kill (n);
    base = live_bytes(); make(); up = true; ndead = 0; ncells = 0;
    memset (Node::all, 0, sizeof(Node::all));
}
static long idof (Node* p)	{ return p ? (p->id ? *p->id : -1) : 0; }
static void state (W& w)
{
    w.open();
    w.open(); for (int n = 0; n < NR; ++n) w.i (idof (roots[n]->get())); w.close();
    w.open();
    for (int n = 1; n <= NObj; ++n) {
	Node* p = Node::all[n];
	w.open(); w.i (p != NULL); w.i (p ? p->v : 0); w.i (p ? idof (p->next->get()) : 0); w.close();
    }
    w.close();
    w.i (idof (loose));
    w.close();
}
static void told (Res& r)	{ for (int n = 0; n < ndead; ++n) r.push (dead[n]); ndead = 0; }
static void seg_end (Res& r)
{
    for (int n = 0; n < NR; ++n) kill (n);
    if (loose) { destroy (loose); loose = NULL; }
    told (r); r.push (live_bytes()-base+ncells); make();
}
static Node* owner;	// of the pointer last located
static H* loc (long h)
{
    owner = NULL;
    if (h < 1 || h > 3*NR) return NULL;
    H* p = &*roots[(h-1)%NR];
    for (int n = 0; n < (h-1)/NR; ++n) { if (!(owner = p->get())) return NULL; p = &*owner->next; }
    return p;
}
static bool ring (Node* o, Node* x)	{ for (int n = 0; x && n < NObj; ++n, x = x->next->get()) if (x == o) return true; return false; }
static void reset (H& h, Node* p, int m)	{ if (m) h = p; else h.reset (p); }
#if DRV_KIND == 0
static H& mv (H& h) { return h; }
#else
static H&& mv (H& h) { return ustl::move (h); }
#endif
static bool exec (const char* op, Args& a, Res& r)
{
    static unsigned turn = 0;
    int m = ++turn % 4;
    H* p = loc (a.i(0)); Node* po = owner;
    if (!p) return false;
    const bool root = a.i(0) <= NR;
    Node* x = p->get();
    OP("new") {
	if (!Node::free()) return false;
	if (m < 2) reset (*p, create (a.i(1)), m);
	#if DRV_KIND == 1
	else if (m == 2) *p = ustl::make_unique<Node> (a.i(1));
	#elif DRV_KIND == 3
	else if (m == 2) *p = ustl::make_shared<Node> (a.i(1));
	#endif
	else { H t (create (a.i(1))); *p = mv (t); }
	told (r); return true;
    }
    OP("drop") {
	if (m == 0 && root) { dying = a.i(0)-1; p->~H(); dying = -1; new (p) H; }
	else if (m == 1) { H t; *p = mv (t); }
	else reset (*p, NULL, m == 2);
	told (r); return true;
    }
    OP("write")	{ if (!x) return false; if (m == 0) (**p).v = a.i(1); else (*p)->v = a.i(1);
	#if DRV_KIND
	if (m == 1) (*p)[0].v = a.i(1);
	#endif
	return true; }
    #if DRV_KIND != 3
    OP("release")	{ if (loose) return false; loose = p->release(); r.push (idof (loose)); return true; }
    OP("adopt")		{ if (!loose || ring (po, loose)) return false; Node* y = loose; loose = NULL; if (m == 2) { H t (y); *p = mv (t); } else reset (*p, y, m%2); told (r); return true; }
    #endif
    #if DRV_KIND == 0
    OP("again")		{ reset (*p, x, m%2); told (r); return true; }
    #endif
    H* q = loc (a.i(1)); Node* qo = owner;
    if (!q) return false;
    const bool roots2 = root && a.i(1) <= NR && p != q;
    Node* y = q->get();
    OP("query") {
	r.push (idof (x)); r.push (x ? (m%2 ? (**p).v : (*p)->v) : 0);
	#if DRV_KIND
	r.push (bool (*p));
	#else
	r.push (x != NULL);
	#endif
	#if DRV_KIND == 3
	r.push (p->use_count()); r.push (p->unique());
	#else
	r.push (0); r.push (0);
	#endif
	r.push (m%2 ? *p == *q : *p == y); r.push (m%2 ? *p != *q : !(*p == y));
	r.push ((*p < *q) == (x < y));
	return true;
    }
    OP("swap") {
	if (ring (po, y) || ring (qo, x)) return false;
	#if DRV_KIND
	if (m%2) p->swap (*q); else
	#endif
	#if DRV_KIND == 0
	{ H t (*p); *p = *q; *q = t; }
	#else
	ustl::swap (*p, *q);
	#endif
	told (r); return true;
    }
    if (ring (po, y)) return false;
    OP("move")	{ if (m == 0 && p != q) { H t (mv (*q)); *p = mv (t); } else *p = mv (*q); told (r); return true; }
    OP("remake") { if (!roots2) return false; dying = a.i(0)-1; p->~H(); dying = -1; new (p) H (mv (*q)); told (r); return true; }
    #if DRV_KIND == 3
    OP("copy")	{ if (m == 0) { H t (*q); *p = t; } else if (m == 1) { H t (*q); p->swap (t); } else *p = *(const H*) q; told (r); return true; }
    OP("recopy") { if (!roots2) return false; dying = a.i(0)-1; p->~H(); dying = -1; new (p) H (*(const H*) q); told (r); return true; }
    #endif
    return false;
}
