// Buffered output files, the system taking as much as the script says.
#include "drv.h"
#include "fsim.h"
using namespace ustl;
enum { NS = 2 };

static Raw<ofstream> O [NS];
static void seg_begin (void)	{ fsim_begin(); for (int k = 0; k < NS; ++k) O[k].make(); }
static void seg_end (Res&)	{ for (int k = 0; k < NS; ++k) { O[k].kill(); O[k].make(); } fsim_end (NS); memset (S.open, 0, sizeof(S.open)); }
static void state (W& w)
{
    w.open(); w.open();
    for (int k = 0; k < NS; ++k) {
	ofstream& s = *O[k];
	w.open();
	w.i (s.is_open()); w.i (s.is_open() ? __real_lseek (s.fd(), 0, SEEK_CUR) : 0); w.i (s.rdstate()); w.i (s.ios_base::exceptions()); w.i (s.pos());
	static unsigned char b [200000];
	int fd = __real_open (fname (k+1), O_RDONLY, 0); long n = fd < 0 ? 0 : __real_read (fd, b, sizeof(b)); if (fd >= 0) __real_close (fd);
	w.bytes (b, n);
	w.close();
    }
    w.close();
    w.i (S.bad);
    w.close();
}
struct Block { char* p; explicit Block (long n) : p ((char*) malloc (n)) {} ~Block (void) { free (p); } };
static string str (const Args& a, int k)	{ string s; for (int j = 0; j < a.ln(k); ++j) s += char(a.l(k)[j]); return s; }
static void setl (Args& a, int k, const long* q, int n)
{
    a.set (k, 0); Arg& g = a.a[k]; long* p = a.pool + a.npool;
    memcpy (p, q, n * sizeof(long)); a.npool += n; g.isl = true; g.l = p; g.n = n;
}
static void arm (const Args& a)	{ int k = a.n - 2; S.q = a.l (k); S.nq = a.ln (k); S.iq = 0; S.wonly = true; S.armed = true; }
static void text (Args& a, const char* f, ...)
{
    char b [512]; va_list v; va_start (v, f); int n = vsnprintf (b, sizeof(b), f, v); va_end (v);
    long q [512]; for (int k = 0; k < n; ++k) q[k] = (unsigned char) b[k];
    setl (a, 2, q, n);
}

static int openflags (long m)	{ return ((m & 3) - 1) | O_CREAT | (m & 12 ? O_APPEND : 0) | (m & 32 ? O_TRUNC : 0); }

static bool exec2 (const char* op, Args& a, Res& r, Raw<ofstream>& o)
{
    ofstream& s = *o;
    OP("put")	{
	if (a.ln(2) != 1) return false;
	char c = a.l(2)[0]; arm (a);
	switch (a.i(1)) { case 0: s.put (c); break; case 1: s << c; break; case 2: s.iwrite ((unsigned char) c); break; default: return false; }
	return true;
    }
    OP("write")	{ Block b (a.ln(2)); for (int k = 0; k < a.ln(2); ++k) b.p[k] = a.l(2)[k]; arm (a); if (a.i(1)) s.write (cmemlink (b.p, a.ln(2))); else s.write (b.p, a.ln(2)); return true; }
    OP("str")	{
	for (int j = 0; j < a.ln(2); ++j) if (!a.l(2)[j]) return false;
	string t (str (a, 2)); arm (a);
	switch (a.i(1)) { case 0: s << t.c_str(); break; case 1: s << t; break; case 2: s.iwrite (t); break; default: return false; }
	return true;
    }
    OP("int")	{ long v = a.i(1); text (a, "%ld", v); arm (a); if (v % 2) s << int(v); else s << v; return true; }
    OP("fmt")	{ // a text of any length through format
	int n = a.i(1); if (n < 0 || n > 400) return false;
	text (a, "<%*d|%s>", n, 7, "end"); arm (a); s.format ("<%*d|%s>", n, 7, "end"); return true;
    }
    OP("line")	{ if (a.ln(2) != 1 || a.l(2)[0] != '\n') return false; arm (a); s << endl; return true; }
    OP("flush")	{ arm (a); s.flush(); return true; }
    OP("seekp")	{ if (!s.is_open() || s.rdstate() || a.i(2) < 0 || a.i(2) > 2) return false;
	struct stat st; __real_fstat (s.fd(), &st);
	long p = a.i(1) + (a.i(2) == 1 ? __real_lseek (s.fd(), 0, SEEK_CUR) + long(s.pos()) : a.i(2) == 2 ? long(st.st_size) : 0);
	if (p < 0 || p > 20000 || ((__real_fcntl (s.fd(), F_GETFL, 0) & O_APPEND) && a.i(2) == 1)) return false;
	arm (a); s.seekp (a.i(1), a.i(2) == 0 ? ios::beg : a.i(2) == 1 ? ios::cur : ios::end); return true; }
    OP("tellp")	{ if (!s.is_open() || (__real_fcntl (s.fd(), F_GETFL, 0) & O_APPEND)) return false; r.push (s.tellp()); return true; }
    bool mk = !strcmp (op, "make");
    if (mk || !strcmp (op, "open")) {
	long m = a.i(1); if (!(m & 2) || (m & ~0x2f) || s.rdstate() || (!s.is_open() && s.pos())) return false;
	const char* f = fname (int (&o - O) + 1);
	arm (a);
	if (!mk) { s.open (f, m); return true; }
	o.kill();
	switch (a.i(2)) {
	    case 0: new (o.b) ofstream (f, m); break;
	    case 1: { int fd = __real_open (f, openflags (m), 0644); S.took (fd); new (o.b) ofstream (fd); } break;
	    default: o.make(); o->open (f, m); break;
	}
	return true;
    }
    OP("close")	{ arm (a); s.close(); return true; }
    OP("kill")	{ arm (a); o.kill(); S.armed = false; o.make(); return true; }
    OP("clear")	{ s.clear(); return true; }
    OP("exceptions") { s.exceptions (a.i(1) & 7); return true; }
    return false;
}
static bool exec (const char* op, Args& a, Res& r)
{
    int k = a.i(0) - 1;
    if (k < 0 || k >= NS || a.n < 3 || !a.a[a.n-1].isl || !a.a[a.n-2].isl) return false;
    bool ok;
    S.armed = false; S.nq = 0; S.wrote = S.error = 0;
    const long was = O[k]->pos();
    try { ok = exec2 (op, a, r, O[k]); }
    catch (file_exception& e) { ok = true; S.armed = false; r.n = 0; r.x = "file"; r.push (e.Errno()); if (callnumber (e.Operation()) != 5) r.push (-99); }
    catch (stream_bounds_exception&) { ok = true; r.n = 0; r.x = "bounds"; }
    S.armed = false;
    long z [4] = { S.wrote, S.error, long(O[k]->pos()) - was + S.wrote, O[k]->rdstate() };
    setl (a, a.n - 1, z, 4);
    return ok;
}
