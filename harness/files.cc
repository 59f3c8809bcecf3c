// Files and descriptors, with the system doing what the script says.
#include "drv.h"
#include "fsim.h"
using namespace ustl;
enum { NS = 2, NF = 2 };

static Raw<fstream> O [NS];
static void seg_begin (void)	{ fsim_begin(); for (int k = 0; k < NS; ++k) O[k].make(); }
static void seg_end (Res&)	{ for (int k = 0; k < NS; ++k) { O[k].kill(); O[k].make(); } fsim_end (NF); memset (S.open, 0, sizeof(S.open)); }
static void state (W& w)
{
    w.open(); w.open();
    for (int k = 0; k < NS; ++k) {
	fstream& s = *O[k];
	w.open();
	w.i (S.id (s.fd())); w.i (s.rdstate()); w.i (s.exceptions()); w.i (fnumber (s.name().c_str()));
	if (s.is_open() || s.fd() >= 0) {
	    int fl = __real_fcntl (s.fd(), F_GETFL, 0);
	    w.i (__real_lseek (s.fd(), 0, SEEK_CUR)); w.i ((fl & O_ACCMODE) + 1); w.i (!!(fl & O_APPEND)); w.i (!!(fl & O_NONBLOCK));
	}
	w.close();
    }
    w.close(); w.open();
    for (int f = 1; f <= NF; ++f) file_state (w, f);
    w.close();
    fsim_state (w);
    w.close();
}
struct Block { char* p; explicit Block (long n) : p ((char*) malloc (n)) {} ~Block (void) { free (p); } };
static string str (const Args& a, int k)	{ string s; for (int j = 0; j < a.ln(k); ++j) s += char(a.l(k)[j]); return s; }
static void arm (const Args& a, int k)	{ S.q = a.l (k); S.nq = a.ln (k); S.iq = 0; S.armed = true; }
static bool fileok (long f)		{ return f >= 1 && f <= NF; }

static bool exec2 (const char* op, Args& a, Res& r)
{
    OP("readfile") { if (!fileok (a.i(0))) return false; memblock b; arm (a, 1); b.read_file (fname (a.i(0))); r.bytes (b.data(), b.size()); return true; }
    OP("writefile") { if (!fileok (a.i(0))) return false; Block b (a.ln(1)); for (int k = 0; k < a.ln(1); ++k) b.p[k] = a.l(1)[k]; cmemlink l (b.p, a.ln(1)); arm (a, 3); l.write_file (fname (a.i(0)), a.i(2)); return true; }
    OP("remove") {
	if (!fileok (a.i(0))) return false;
	struct stat x, y;
	if (!stat (fname (a.i(0)), &x)) for (int k = 0; k < MaxFd; ++k) if (!__real_fstat (S.base + k, &y) && x.st_ino == y.st_ino) return false;
	unlink (fname (a.i(0))); return true;
    }
    int k = a.i(0) - 1;
    if (k < 0 || k >= NS) return false;
    fstream& s = *O[k];
    OP("open")	{ if (!fileok (a.i(1)) || !(a.i(2) & 3)) return false; arm (a, 4); s.open (fname (a.i(1)), a.i(2), a.i(3)); return true; }
    OP("make")	{ if (!fileok (a.i(1)) || !(a.i(2) & 3)) return false; arm (a, 3); if (!s.is_open()) S.next(); O[k].kill(); new (O[k].b) fstream (fname (a.i(1)), a.i(2)); return true; }
    OP("kill")	{ arm (a, 1); O[k].kill(); O[k].make(); return true; }
    bool am = !strcmp (op, "attachmake");
    if (am || !strcmp (op, "attach")) {
	if (!fileok (a.i(1)) || !(a.i(2) & 3)) return false;
	long m = a.i(2); int fl = (m & 3) - 1; if (m & 2 && !(m & 128)) fl |= O_CREAT; if (m & 12) fl |= O_APPEND; if (m & 32) fl |= O_TRUNC; if (m & 64) fl |= O_NONBLOCK;
	struct stat st; if (!(fl & O_CREAT) && stat (fname (a.i(1)), &st)) return false;
	if (am) { S.armed = true; O[k].kill(); O[k].make(); S.armed = false; }
	int fd = __real_open (fname (a.i(1)), fl, 0644);
	if (fd < 0) _exit (95);
	S.armed = true; S.took (fd); arm (a, 3);
	if (am) { O[k].kill(); new (O[k].b) fstream (fd, fname (a.i(1))); } else s.attach (fd, fname (a.i(1)));
	return true;
    }
    OP("attachown") { if (!s.is_open()) return false; arm (a, 1); s.attach (s.fd(), s.name().c_str()); return true; }
    OP("attachnone") { if (!fileok (a.i(1))) return false; arm (a, 3); errno = a.i(2); s.attach (-1, fname (a.i(1))); return true; }
    OP("detach") { int fd = s.fd(); s.detach(); if (fd >= 0) { __real_close (fd); S.open [fd - S.base] = false; } return true; }
    OP("close")	{ arm (a, 1); s.close(); return true; }
    OP("sync")	{ arm (a, 1); s.sync(); return true; }
    OP("size")	{ arm (a, 1); r.push (s.size()); return true; }
    OP("seek")	{ arm (a, 3); r.push (s.seek (a.i(1), a.i(2) == 0 ? ios::beg : a.i(2) == 1 ? ios::cur : ios::end)); return true; }
    OP("pos")	{ r.push (s.pos()); return true; }
    OP("nonblock") { arm (a, 2); s.set_nonblock (a.i(1)); return true; }
    bool rs = !strcmp (op, "readsome");
    if (rs || !strcmp (op, "read")) {
	long n = a.i(1); if (n < 0 || n > 10000) return false;
	Block b (n); arm (a, 2);
	long m = rs ? s.readsome (b.p, n) : s.read (b.p, n);
	if (m < 0 || m > n) { r.push (-99); r.push (m); } else r.bytes (b.p, m);
	return true;
    }
    OP("write")	{ Block b (a.ln(1)); for (int j = 0; j < a.ln(1); ++j) b.p[j] = a.l(1)[j]; arm (a, 2); r.push (s.write (b.p, a.ln(1))); return true; }
    OP("map")	{
	long n = a.i(1), i = a.i(2); if (n <= 0 || n > 4096 || i < 0 || i >= n) return false;
	struct stat st; st.st_size = 0; if (s.is_open() && __real_fstat (s.fd(), &st)) return false;
	if (s.is_open() && !st.st_size && i == 0 && n == 0) return false;
	arm (a, 4);
	memlink l (s.mmap (n));
	if (!l.size()) { r.push (0); return true; }
	if (l.size() != size_t(n) || l.data() == (char*) MAP_FAILED) { r.push (-99); return true; }
	r.push (l.size());
	if (i < st.st_size) { r.push ((unsigned char) l.begin()[i]); l.begin()[i] = a.i(3); } else r.push (0);
	void* p = l.data();
	try { s.msync (l); } catch (...) { __real_munmap (p, n); throw; }
	s.munmap (l);
	if (l.size() || l.data()) r.push (-98);
	return true;
    }
    OP("clear")	{ s.clear (a.i(1) & 7); return true; }
    OP("setstate") { s.setstate (a.i(1) & 7); return true; }
    OP("exceptions") { s.exceptions (a.i(1) & 7); return true; }
    return false;
}
static bool exec (const char* op, Args& a, Res& r)
{
    bool ok;
    S.armed = false; S.nq = 0;
    try { ok = exec2 (op, a, r); }
    catch (file_exception& e) { ok = true; S.armed = false; r.n = 0; r.x = "file"; r.push (e.Errno()); r.push (callnumber (e.Operation())); r.push (fnumber (e.Filename())); }
    catch (stream_bounds_exception&) { ok = true; r.n = 0; r.x = "bounds"; }
    S.armed = false;
    return ok;
}
