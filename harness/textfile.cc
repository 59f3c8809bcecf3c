// Text input streams over files, which arrive in pieces of all sizes: the calls
// are those of textin.cc.
#define TEXTFILE
#include "drv.h"
#include "fsim.h"
using namespace ustl;

typedef ifstream Stream;
static const long Pieces [8][4] = {{0,0,0,0},{1,1,1,1},{2,1,-4,1},{3,3,3,3},{1,5,1,7},{-4,1,-4,0},{0,0,1,0},{4,3,2,1}};
struct In {
    Raw<Stream>	s;
    char*	b;
    long	n, at;		// of the text; where the error is, while it may come
    string*	t;
    int		pieces, er;
    int		k (void) const;
};
static In O [2];
int In::k (void) const		{ return this - O; }
static long posof (In& o)	{ return o.s->tellg(); }
static long seen (In& o)	{ return o.at >= 0 ? o.at : o.n; }
static void drop (In& o)	{ delete o.t; o.t = NULL; o.n = 0; o.at = -1; o.er = o.pieces = 0; S.err[o.k()] = 0; }
static void put (In& o, string* t)
{
    o.t = t; o.n = t->size();
    int fd = __real_open (fname (o.k()+1), O_WRONLY| O_CREAT| O_TRUNC, 0644);
    if (fd < 0 || __real_write (fd, t->data(), o.n) != o.n) _exit (95);
    __real_close (fd);
}
static void seg_begin (void);
static void seg_end (Res&)	{ for (int k = 0; k < 2; ++k) { O[k].s.kill(); drop (O[k]); O[k].s.make(); put (O[k], new string); O[k].s->open (fname (k+1)); } }
#include "textin.cc"

static void seg_begin (void)
{
    if (S.begun) fsim_end (NS);
    fsim_begin();
    for (int k = 0; k < NS; ++k) { O[k].b = NULL; O[k].t = NULL; O[k].s.make(); drop (O[k]); put (O[k], new string); O[k].s->open (fname (k+1)); }
}
static void tell (In& o, Args& a, int k)
{
    // has the error come?
    bool there = o.at >= 0 && !S.err[o.k()];
    if (there) o.at = -1;
    a.set (k, there);
}
static bool exec3 (const char* op, Args& a, Res& r, In& o, bool& thrown)
{
    static const int sizes[] = { -1, 0, 1, 2, 3, 5, 8, 64 };
    const char* f = fname (o.k()+1);
    Stream& s = *o.s;
    OP("fin") return false;
    bool nf = !strcmp (op, "newfault");
    if (nf || !strcmp (op, "new")) {
	long m = a.i(1);
	if (oddnum (a, 2) || m < 0 || m > 255 || m % 4 == 3 || (nf && (a.i(3) < 0 || a.i(3) > a.ln(2) || a.i(4) < 1 || a.i(4) > 200 || a.i(4) == 4 || a.i(4) == 11))) return false;
	o.s.kill(); drop (o); put (o, new string (str (a, 2)));
	switch (m % 4) {
	    case 0: o.s.make(); o.s->open (f); break;
	    case 1: new (o.s.b) ifstream (f); break;
	    case 2: new (o.s.b) ifstream (__real_open (f, O_RDONLY, 0)); break;
	}
	if (int z = m / 4 % 8) o.s->set_buffer_size (sizes [z]);
	o.pieces = m / 32;
	if (nf) { o.at = a.i(3); int k = o.k(); S.fd[k] = o.s->fd(); S.at[k] = o.at; S.err[k] = o.er = a.i(4); }
	return true;
    }
    OP("reopen") { if (oddnum (a, 1)) return false; string* t = new string (str (a, 1)); drop (o); put (o, t); if (o.n % 2) s.close(); s.open (f); return true; }
    OP("clear")	{ if (a.i(1)) return false; tell (o, a, 2); s.clear(); return true; }
    OP("fseekg") {
	long p = (a.i(2) == 1 ? posof (o) : a.i(2) == 2 ? o.n : 0) + a.i(1);
	if (p < 0 || p > seen (o) || a.i(2) < 0 || a.i(2) > 2) return false;
	tell (o, a, 3);
	s.seekg (a.i(1), a.i(2) == 0 ? ios::beg : a.i(2) == 1 ? ios::cur : ios::end); r.push (s.tellg()); return true;
    }
    OP("tellg")	{ r.push (s.tellg()); return true; }
    OP("skip")	{ if (a.i(1) < 0 || long(s.remaining()) < a.i(1)) return false; s.skip (a.i(1)); return true; }
    OP("unget")	{ if (!s.pos()) return false; if (a.n > 1) s.putback (o.t->data() [posof (o) - 1]); else s.unget(); return true; }
    OP("fsync")	{ s.sync(); a.set (1, posof (o)); a.set (2, s.rdstate()); return true; }
    return exec2 (op, a, r, o, thrown);
}
static bool exec (const char* op, Args& a, Res& r)
{
    int k = a.i(0) - 1;
    if (k < 0 || k >= NS) return false;
    bool ok, thrown = false;
    S.rq = Pieces [O[k].pieces]; S.nrq = 4; S.armed = true; S.nq = 0; errno = ERANGE;
    try { ok = exec3 (op, a, r, O[k], thrown); }
    catch (stream_bounds_exception&) { ok = thrown = true; }
    catch (file_exception& e) {
	// which error, unless that came earlier, and another errno since
	ok = true; r.n = 0; r.x = "file"; r.push (e.Errno() == ERANGE || e.Errno() == EINTR ? O[k].er : e.Errno());
    }
    S.armed = false;
    if (thrown) { r.n = 0; r.x = "bounds"; }
    return ok;
}
