// S01: strings against Str.tla
#include "drv.h"
#include <wchar.h>
using ustl::string;
enum { N = 3 };
static Raw<string>	sr [N];
static bool	up = false;
static long	base;
// in read only memory: a write through a linked string ends the run
static const char* const lits [] = { "", "a", "ab", "hello world", "\xC3\xA9t\xC3\xA9" };
static void seg_begin (void)
{
    if (up) for (int k = 0; k < N; ++k) sr[k].kill();
    base = live_bytes();
    for (int k = 0; k < N; ++k) sr[k].make();
    up = true;
}
static void seg_end (Res& r)
{
    for (int k = 0; k < N; ++k) sr[k].kill();
    r.push (live_bytes()-base);
    for (int k = 0; k < N; ++k) sr[k].make();
}
static void bytes (Res& r, const char* b, const char* e)	{ for (; b < e; ++b) r.push ((unsigned char) *b); }
static void state (W& w)
{
    w.open();
    for (int k = 0; k < N; ++k) {
	const string& c = sr[k].o();
	w.open();
	if (c.size() > 100000) w.i (-2);
	else for (size_t i = 0; i < c.size(); ++i) w.i ((unsigned char) c.begin()[i]);
	if (!c.is_linked() && (c.capacity() < c.size() || c.c_str()[c.size()])) w.i (-1);	// not terminated
	if (!c.c_str()) w.i (-3);
	w.close();
    }
    w.close();
}
// the bytes of a list argument, zero terminated, or not
struct CT { char* p; long n;
    CT (const Args& a, int i, bool z) : p (NULL), n (a.ln(i)) { p = (char*) malloc (n+z+!n); for (long j = 0; j < n; ++j) p[j] = char(a.l(i)[j]); if (z) p[n] = 0; }
    ~CT (void) { free (p); }
    const char* b (void) const { return p; }
    const char* e (void) const { return p+n; }
    std::initializer_list<char> il (void) const { std::initializer_list<char> l; const char* q = p; size_t m = n; memcpy ((void*) &l, &q, sizeof(q)); memcpy ((char*) &l + sizeof(q), &m, sizeof(m)); return l; }
};
struct WT { wchar_t* p; long n;
    WT (const Args& a, int i) : p (NULL), n (a.ln(i)) { p = (wchar_t*) malloc ((n+1)*sizeof(wchar_t)); for (long j = 0; j < n; ++j) p[j] = wchar_t(a.l(i)[j]); p[n] = 0; }
    ~WT (void) { free (p); }
    const wchar_t* b (void) const { return p; }
    const wchar_t* e (void) const { return p+n; }
};
static bool haszero (const Args& a, int i) { for (long j = 0; j < a.ln(i); ++j) if (!a.l(i)[j]) return true; return false; }
static bool exec (const char* op, Args& a, Res& r)
{
    int k = clip (a.i(0)-1, N); a.set (0, k+1);
    string& s = sr[k].o();
    const string& cs = s;
    long n = s.size();
    char c1 = char(a.n > 1 ? a.i(1) : 0);
    typedef string::iterator it;
    #define SECOND(ix) int j = clip (a.i(ix)-1, N); a.set (ix, j+1); string& d = sr[j].o(); const string& cd = d; (void) cd;
    #define RNG(ix) long b = clip (a.i(ix), n+1), e = clip (a.i((ix)+1), n+1); if (b > e) { long t = b; b = e; e = t; } a.set (ix, b); a.set ((ix)+1, e);
    #define POS(ix) long p = clip (a.i(ix), n+1); a.set (ix, p);
    #define NP(ix) (a.i(ix) == 1000000 ? size_t(string::npos) : size_t(a.i(ix)))	// a count to the end
    OP("new")		{ s.~string(); new (&s) string; return true; }
    OP("new_copy")	{ SECOND(1) if (j == k) return false; s.~string(); new (&s) string (cd); return true; }
    OP("new_sub")	{ SECOND(1) if (j == k) return false; s.~string(); new (&s) string (cd, a.i(2), NP(3)); return true; }
    OP("new_subd")	{ SECOND(1) if (j == k) return false; s.~string(); new (&s) string (cd, a.i(2)); return true; }
    OP("new_l")		{ CT t (a, 1, false); s.~string(); new (&s) string (t.b(), size_t(t.n)); return true; }
    OP("new_rng")	{ CT t (a, 1, false); s.~string(); new (&s) string (t.b(), t.e()); return true; }
    OP("new_il")	{ CT t (a, 1, false); s.~string(); new (&s) string (t.il()); return true; }
    OP("new_mem")	{ CT t (a, 1, false); ustl::cmemlink l (t.b(), t.n); s.~string(); new (&s) string (l); return true; }
    OP("new_fill")	{ s.~string(); new (&s) string (size_t(a.i(1)), char(a.i(2))); return true; }
    OP("new_lit")	{ long i = clip (a.i(1)-1, 5); a.set (1, i+1); s.~string(); new (&s) string (lits[i]); return true; }
    OP("link_lit")	{ long i = clip (a.i(1)-1, 5); a.set (1, i+1); s.~string(); new (&s) string; s.link (lits[i], strlen(lits[i])); return true; }
    OP("link_sub")	{ long i = clip (a.i(1)-1, 5); a.set (1, i+1); long l = strlen(lits[i]), o = clip (a.i(2), l+1), m = clip (a.i(3), l-o+1); a.set (2, o); a.set (3, m); s.~string(); new (&s) string; s.link (lits[i]+o, m); return true; }
    OP("new_move")	{ SECOND(1) if (j == k) return false; s.~string(); new (&s) string (ustl::move(d)); return true; }
    OP("assign_move")	{ SECOND(1) if (j == k) return false; s.assign (ustl::move(d)); return true; }
    OP("op_move")	{ SECOND(1) if (j == k) return false; s = ustl::move(d); return true; }
    OP("swap")		{ SECOND(1) if (n & 1) s.swap (d); else ustl::swap (s, d); return true; }
    OP("assign_s")	{ SECOND(1) s.assign (cd); return true; }
    OP("op_s")		{ SECOND(1) s = cd; return true; }
    OP("assign_sub")	{ SECOND(1) if (j == k) return false; s.assign (cd, a.i(2), NP(3)); return true; }
    OP("substr")	{ SECOND(1) if (j == k) return false; s = cd.substr (a.i(2), NP(3)); return true; }
    OP("assign_l")	{ CT t (a, 1, false); s.assign (t.b(), size_t(t.n)); return true; }
    OP("assign_rng")	{ CT t (a, 1, false); s.assign (t.b(), t.e()); return true; }
    OP("assign_il")	{ CT t (a, 1, false); s.assign (t.il()); return true; }
    OP("op_il")		{ CT t (a, 1, false); s = t.il(); return true; }
    OP("assign_fill")	{ s.assign (size_t(a.i(1)), char(a.i(2))); return true; }
    OP("op_c")		{ s = c1; return true; }
    OP("assign_wc")	{ s.assign (size_t(a.i(1)), wchar_t(a.i(2))); return true; }
    OP("assign_w")	{ WT t (a, 1); s.assign (t.b(), t.e()); return true; }
    OP("resize")	{ s.resize (a.i(1)); for (long i = n; i < a.i(1); ++i) s.begin()[i] = char(a.i(2)); return true; }
    OP("resize_c")	{ s.resize (a.i(1), char(a.i(2))); return true; }
    OP("clear")		{ s.clear(); return true; }
    OP("shrink")	{ s.shrink_to_fit(); return true; }
    OP("copy_link")	{ s.copy_link(); return true; }
    OP("reserve")	{ s.reserve (a.i(1), a.i(1) & 1); r.push (long(s.capacity()) >= a.i(1)); return true; }
    OP("append_l")	{ CT t (a, 1, false); s.append (t.b(), size_t(t.n)); return true; }
    OP("append_rng")	{ CT t (a, 1, false); s.append (t.b(), t.e()); return true; }
    OP("append_il")	{ CT t (a, 1, false); s.append (t.il()); return true; }
    OP("pe_il")		{ CT t (a, 1, false); s += t.il(); return true; }
    OP("append_fill")	{ s.append (size_t(a.i(1)), char(a.i(2))); return true; }
    OP("append_s")	{ SECOND(1) if (j == k) return false; s.append (cd); return true; }
    OP("pe_s")		{ SECOND(1) if (j == k) return false; s += cd; return true; }
    OP("append_sub")	{ SECOND(1) if (j == k) return false; s.append (cd, a.i(2), NP(3)); return true; }
    OP("append_wc")	{ s.append (size_t(a.i(1)), wchar_t(a.i(2))); return true; }
    OP("append_w")	{ WT t (a, 1); s.append (t.b(), t.e()); return true; }
    OP("push")		{ s.push_back (c1); return true; }
    OP("pe_c")		{ s += c1; return true; }
    OP("pe_uc")		{ s += (unsigned char) c1; return true; }
    OP("push_w")	{ s.push_back (wchar_t(a.i(1))); return true; }
    OP("pe_w")		{ s += wchar_t(a.i(1)); return true; }
    OP("pop")		{ if (!n) return false; s.pop_back(); return true; }
    OP("plus")		{ int i = clip (a.i(1)-1, N); a.set (1, i+1); SECOND(2) const string& x = sr[i].o(); s = x + cd; return true; }
    OP("insert_fill")	{ s.insert (size_t(a.i(1)), size_t(a.i(2)), char(a.i(3))); return true; }
    OP("insert_ifill")	{ s.insert (int(a.i(1)), size_t(a.i(2)), char(a.i(3))); return true; }
    OP("insert_l")	{ CT t (a, 2, false); if (n & 1) s.insert (size_t(a.i(1)), t.b(), size_t(t.n)); else s.insert (int(a.i(1)), t.b(), size_t(t.n)); return true; }
    OP("insert_s")	{ SECOND(2) if (j == k) return false; s.insert (size_t(a.i(1)), cd); return true; }
    OP("insert_sub")	{ SECOND(2) if (j == k) return false; s.insert (size_t(a.i(1)), cd, a.i(3), NP(4)); return true; }
    OP("insert_wc")	{ s.insert (size_t(a.i(1)), size_t(a.i(2)), wchar_t(a.i(3))); return true; }
    OP("insert_w")	{ WT t (a, 2); s.insert (size_t(a.i(1)), t.b(), t.e(), a.i(3)); return true; }
    OP("insert_itfill")	{ POS(1) it i = s.insert (cs.begin()+p, size_t(a.i(2)), char(a.i(3))); r.push (i-s.begin()); return true; }
    OP("insert_itc")	{ POS(1) it i = s.insert (cs.begin()+p, char(a.i(2))); r.push (i-s.begin()); return true; }
    OP("insert_itn")	{ POS(1) CT t (a, 2, false); it i = s.insert (cs.begin()+p, t.b(), t.e(), size_t(a.i(3))); r.push (i-s.begin()); return true; }
    OP("insert_il")	{ POS(1) CT t (a, 2, false); it i = s.insert (cs.begin()+p, t.il()); r.push (i-s.begin()); return true; }
    OP("erase_pos")	{ POS(1) s.erase (string::pos_type(p), string::size_type(NP(2))); return true; }
    OP("erase_ipos")	{ POS(1) s.erase (int(p), string::size_type(NP(2))); return true; }
    OP("erase_all")	{ s.erase(); return true; }
    OP("erase_from")	{ POS(1) s.erase (string::pos_type(p)); return true; }
    OP("erase_it")	{ RNG(1) it i = (e == b+1 ? s.erase (cs.begin()+b) : s.erase (cs.begin()+b, size_t(e-b))); r.push (i-s.begin()); return true; }
    OP("erase_rng")	{ RNG(1) it i = s.erase (cs.begin()+b, cs.begin()+e); r.push (i-s.begin()); return true; }
    OP("eraser")	{ if (a.i(1) > a.i(2)) { long t = a.i(1); a.set (1, a.i(2)); a.set (2, t); } it i = s.eraser (a.i(1), a.i(2)); r.push (i-s.begin()); return true; }
    OP("rep_n")		{ RNG(1) CT t (a, 3, false); if (b == e && !a.i(4)) return false; s.replace (cs.begin()+b, cs.begin()+e, t.b(), t.e(), size_t(a.i(4))); return true; }
    OP("rep_l")		{ RNG(1) CT t (a, 3, false); a.set (4, 1); s.replace (cs.begin()+b, cs.begin()+e, t.b(), size_t(t.n)); return true; }
    OP("rep_il")	{ RNG(1) CT t (a, 3, false); a.set (4, 1); s.replace (cs.begin()+b, cs.begin()+e, t.il()); return true; }
    OP("rep_s")		{ RNG(1) SECOND(3) if (j == k) return false; s.replace (cs.begin()+b, cs.begin()+e, cd); return true; }
    OP("rep_fill")	{ RNG(1) if (b == e && !a.i(3)) return false; s.replace (cs.begin()+b, cs.begin()+e, size_t(a.i(3)), char(a.i(4))); return true; }
    OP("rep_ps")	{ SECOND(3) if (j == k) return false; s.replace (size_t(a.i(1)), NP(2), cd); return true; }
    OP("rep_psub")	{ SECOND(3) if (j == k) return false; s.replace (size_t(a.i(1)), NP(2), cd, size_t(a.i(4)), NP(5)); return true; }
    OP("rep_pl")	{ CT t (a, 3, false); s.replace (size_t(a.i(1)), NP(2), t.b(), size_t(t.n)); return true; }
    OP("rep_pfill")	{ if ((!a.i(2) || a.i(1) >= n) && !a.i(3)) return false; s.replace (size_t(a.i(1)), NP(2), size_t(a.i(3)), char(a.i(4))); return true; }
    OP("write")		{ if (!n || s.is_linked()) return false; long p = clip (a.i(1), n); a.set (1, p); char x = char(a.i(2)); switch (p & 3) { case 0: s.at(p) = x; break; case 1: *s.iat(p) = x; break; case 2: s.begin()[p] = x; break; default: s.end()[p-n] = x; } return true; }
    OP("copy_out")	{ POS(2) long m = a.i(1); if (m < 1) return false; char* b = (char*) malloc (m); long c = cs.copy (b, m, p); r.push (c); if (c <= m) bytes (r, b, b+c); free (b); return true; }
    OP("copyto")	{ POS(2) long m = a.i(1); if (m < 2) return false; char* b = (char*) malloc (m); long c = cs.copyto (b, m, p); r.push (c); if (c < m) bytes (r, b, b+c+1); free (b); return true; }
    OP("format") {
	SECOND(3) if (j == k) return false;
	if (d.is_linked()) d.copy_link();	// text behind %s must be terminated
	int rv = -9, x = int(a.i(2));
	switch (clip (a.i(1), 6)) {
	    case 0: rv = s.format ("%d", x); break;
	    case 1: rv = s.format ("<%s>", d.c_str()); break;
	    case 2: rv = s.format ("%05x|%c", x < 0 ? -x : x, 'A'); break;
	    case 3: rv = s.format ("%s=%40d", d.c_str(), x); break;
	    case 4: rv = s.format ("%s", ""); break;
	    case 5: rv = s.format ("%%"); break;
	}
	a.set (1, clip (a.i(1), 6));
	r.push (rv);
	return true;
    }
    OP("to_string")	{ long x = a.i(1); switch (x & 3) { case 0: s = ustl::to_string (x); break; case 1: s = ustl::to_string (int(x)); break; case 2: s = ustl::to_string ((long long) x); break; default: s = (x < 0 ? ustl::to_string (x) : ustl::to_string (unsigned(x))); } return true; }
    OP("stol") {
	if (s.is_linked()) s.copy_link();
	int b = a.i(1) & 1 ? 16 : 10; a.set (1, b); size_t ix = 77; long v, w;
	for (long i = 0; i < n; ++i) if (!cs.at(i)) return false;
	switch (n & 3) { case 0: v = ustl::stoi (cs, &ix, b); w = ustl::stoi (cs, nullptr, b); break; case 1: v = ustl::stol (cs, &ix, b); w = ustl::stol (cs, nullptr, b); break;
			 case 2: v = ustl::stoll (cs, &ix, b); w = ustl::stoll (cs, nullptr, b); break; default: v = long(ustl::stoul (cs, &ix, b)); w = long(ustl::stoul (cs, nullptr, b)); }
	if (v != w) ix = 78; else if (v > 1000000) v = 1000000; else if (v < -1000000) v = -1000000;
	r.push (v); r.push (ix); return true;
    }
    OP("query") {
	r.push (cs.size()); r.push (cs.empty());
	for (long i = 0; i < n; ++i) r.push ((unsigned char) (i & 1 ? cs[i] : i & 2 ? cs.at(i) : *cs.iat(i)));
	for (string::const_reverse_iterator i = cs.rbegin(); i != cs.rend(); ++i) r.push ((unsigned char) *i);
	if (n) { r.push ((unsigned char) (n & 1 ? cs.front() : s.front())); r.push ((unsigned char) (n & 1 ? cs.back() : s.back())); }
	{ string t = cs.substr (1); bytes (r, t.begin(), t.end()); }
	{ string t = cs.substr (n/2, 3); bytes (r, t.begin(), t.end()); }
	return true;
    }
    // zero terminated arguments
    if (!strcmp (op, "assign_wz") || !strcmp (op, "op_wz") || !strcmp (op, "append_wz") || !strcmp (op, "pe_wz")) {
	if (haszero (a, 1)) return false;
	WT t (a, 1);
	OP("assign_wz")	s.assign (t.b());
	OP("op_wz")	s = t.b();
	OP("append_wz")	s.append (t.b());
	OP("pe_wz")	s += t.b();
	return true;
    }
    if (!strcmp (op, "assign_z") || !strcmp (op, "op_z") || !strcmp (op, "append_z") || !strcmp (op, "pe_z") || !strcmp (op, "cplus") || !strcmp (op, "pluslit")) {
	if (haszero (a, 1)) return false;
	CT t (a, 1, true);
	const char* z = (!t.n && (n & 1) ? NULL : t.b());	// a null pointer is the empty text
	OP("assign_z")	s.assign (z);
	OP("op_z")	s = z;
	OP("append_z")	s.append (z);
	OP("pe_z")	s += z;
	OP("cplus")	{ SECOND(2) s = t.b() + cd; }
	OP("pluslit")	{ SECOND(2) s = cd + t.b(); }
	return true;
    }
    OP("insert_z")	{ if (haszero (a, 2)) return false; CT t (a, 2, true); s.insert (size_t(a.i(1)), t.b()); return true; }
    OP("insert_itz")	{ if (haszero (a, 2)) return false; POS(1) CT t (a, 2, true); it i = s.insert (cs.begin()+p, t.n || (n & 1) ? t.b() : NULL, size_t(a.i(3))); r.push (i-s.begin()); return true; }
    OP("rep_z")		{ if (haszero (a, 3)) return false; RNG(1) CT t (a, 3, true); a.set (4, 1); s.replace (cs.begin()+b, cs.begin()+e, t.n || (n & 1) ? t.b() : (const char*) NULL); return true; }
    OP("rep_pz")	{ if (haszero (a, 3)) return false; CT t (a, 3, true); s.replace (size_t(a.i(1)), NP(2), t.b()); return true; }
    return false;
}
