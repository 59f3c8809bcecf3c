// Values of many types through binary streams.
#include "drv.h"
#include <ustl/uspecial.h>
using namespace ustl;

// A value is given and reported as a list of integers.
struct In { const long* p; const long* e; bool bad; long next (void) { if (p >= e) { bad = true; return 0; } return *p++; } };
template <typename T> struct scalar { static void load (T& v, In& i) { unsigned char b [sizeof(T)]; for (size_t k = 0; k < sizeof(T); ++k) b[k] = i.next(); memcpy (&v, b, sizeof(T)); } static void dump (const T& v, Res& r) { r.bytes (&v, sizeof(T)); } };
template <typename T> struct io : public scalar<T> {};
template <> struct io<bool> { static void load (bool& v, In& i) { v = i.next() & 1; } static void dump (const bool& v, Res& r) { unsigned char c; memcpy (&c, &v, 1); r.push (c); } };
template <> struct io<string> {
    static void load (string& v, In& i) { long n = i.next(); if (n < 0 || n > 100000) { i.bad = true; return; } v.clear(); while (n--) v += char(i.next()); }
    static void dump (const string& v, Res& r) { r.sized (v.data(), v.size()); }
};
template <> struct io<memblock> {
    static void load (memblock& v, In& i) { long n = i.next(); if (n < 0 || n > 100000) { i.bad = true; return; } v.resize (n); for (long k = 0; k < n; ++k) v.begin()[k] = i.next(); }
    static void dump (const memblock& v, Res& r) { r.sized (v.begin(), v.size()); }
};
template <typename A, typename B> struct io<pair<A,B> > {
    static void load (pair<A,B>& v, In& i) { io<A>::load (v.first, i); io<B>::load (v.second, i); }
    static void dump (const pair<A,B>& v, Res& r) { io<A>::dump (v.first, r); io<B>::dump (v.second, r); }
};
template <size_t N, typename T> struct io<tuple<N,T> > {
    static void load (tuple<N,T>& v, In& i) { for (size_t k = 0; k < N; ++k) io<T>::load (v[k], i); }
    static void dump (const tuple<N,T>& v, Res& r) { for (size_t k = 0; k < N; ++k) io<T>::dump (v[k], r); }
};
template <typename T, size_t N> struct io<array<T,N> > {
    static void load (array<T,N>& v, In& i) { for (size_t k = 0; k < N; ++k) io<T>::load (v[k], i); }
    static void dump (const array<T,N>& v, Res& r) { for (size_t k = 0; k < N; ++k) io<T>::dump (v[k], r); }
};
template <size_t N> struct io<bitset<N> > {
    static void load (bitset<N>& v, In& i) { v.reset(); for (size_t k = 0; k < N; ++k) if (i.next()) v.set (k); }
    static void dump (const bitset<N>& v, Res& r) { for (size_t k = 0; k < N; ++k) r.push (v.test (k)); }
};
template <typename C, typename T> struct cio {
    static void dump (const C& v, Res& r) { r.push (v.size()); if (v.size() < 20000) for (typename C::const_iterator k = v.begin(); k < v.end(); ++k) io<T>::dump (*k, r); }
    template <typename F> static void loop (In& i, F f) { long n = i.next(); if (n < 0 || n > 100000) { i.bad = true; return; } while (n--) { T e = T(); io<T>::load (e, i); f (e); } }
};
template <typename T> struct io<vector<T> > : public cio<vector<T>,T> { static void load (vector<T>& v, In& i) { v.clear(); cio<vector<T>,T>::loop (i, [&](const T& e) { v.push_back (e); }); } };
template <typename T> struct io<list<T> > : public cio<list<T>,T> { static void load (list<T>& v, In& i) { v.clear(); cio<list<T>,T>::loop (i, [&](const T& e) { v.push_back (e); }); } };
template <typename T> struct io<set<T> > : public cio<set<T>,T> { static void load (set<T>& v, In& i) { v.clear(); cio<set<T>,T>::loop (i, [&](const T& e) { v.insert (e); }); } };
template <typename T> struct io<multiset<T> > : public cio<multiset<T>,T> { static void load (multiset<T>& v, In& i) { v.clear(); cio<multiset<T>,T>::loop (i, [&](const T& e) { v.insert (e); }); } };
template <typename K, typename V> struct io<map<K,V> > : public cio<map<K,V>,pair<K,V> > { static void load (map<K,V>& v, In& i) { v.clear(); cio<map<K,V>,pair<K,V> >::loop (i, [&](const pair<K,V>& e) { v.insert (e); }); } };
template <typename K, typename V> struct io<multimap<K,V> > : public cio<multimap<K,V>,pair<K,V> > { static void load (multimap<K,V>& v, In& i) { v.clear(); cio<multimap<K,V>,pair<K,V> >::loop (i, [&](const pair<K,V>& e) { v.insert (e); }); } };

// A number on a grain of four.
struct Grain {
    unsigned long v;
    Grain (void) : v (0) {}
    void read (istream& is)		{ is >> long4grain (v); }
    void write (ostream& os) const	{ os << long4grain (v); }
    streamsize stream_size (void) const	{ return stream_size_of (long4grain (v)); }
};
template <> struct io<Grain> { static void load (Grain& g, In& i) { scalar<unsigned long>::load (g.v, i); } static void dump (const Grain& g, Res& r) { r.bytes (&g.v, 8); } };
// Values between manipulators.
struct Manip {
    uint8_t a; uint64_t b; uint16_t c; uint32_t d;
    Manip (void) : a(0), b(0), c(0), d(0) {}
    void read (istream& is)		{ is >> a >> ios::talign<uint64_t>() >> b >> c >> ios::skip (3) >> ios::align (4) >> d; }
    void write (ostream& os) const	{ os << a << ios::talign<uint64_t>() << b << c << ios::skip (3) << ios::align (4) << d; }
    streamsize stream_size (void) const	{ return 8 + 8 + 8 + 4; }
};
template <> struct io<Manip> {
    static void load (Manip& g, In& i) { io<uint8_t>::load (g.a, i); io<uint64_t>::load (g.b, i); io<uint16_t>::load (g.c, i); io<uint32_t>::load (g.d, i); }
    static void dump (const Manip& g, Res& r) { io<uint8_t>::dump (g.a, r); io<uint64_t>::dump (g.b, r); io<uint16_t>::dump (g.c, r); io<uint32_t>::dump (g.d, r); }
};

// Exceptions: built from their arguments, reported by what they tell.
static const char* const c_Types [3] = { "i", "", "N4ustl6stringE" };
template <typename E> struct Ex {
    E e; Ex (void); void load (In& i); void dump (Res& r) const;
    void read (istream& is) { e.read (is); } void write (ostream& os) const { e.write (os); } streamsize stream_size (void) const { return e.stream_size(); }
};
static string text (In& i) { string s; io<string>::load (s, i); return s; }
static void base (const exception& e, Res& r) { string s; e.info (s); io<string>::dump (s, r); r.push (e.format()); string t (e.what()); io<string>::dump (t, r); }
static void trace (const exception& e, Res& r)
{
    // the whole back trace, as text
    string s; s.resize (8192); ostringstream os; os.link (s.begin(), s.size()); try { e.backtrace().text_write (os); } catch (...) {}
    unsigned h = 5381; for (unsigned k = 0; k < os.pos(); ++k) h = h*33 + (unsigned char) s[k];
    r.push (h & 0x7fffffff);
}
template <typename E> struct io<Ex<E> > { static void load (Ex<E>& v, In& i) { v.load (i); } static void dump (const Ex<E>& v, Res& r) { v.dump (r); } };
// reported: the arguments
#define MSG(T)	template<> Ex<T>::Ex (void) : e ("x") {} \
		template<> void Ex<T>::load (In& i) { string s (text (i)); e.~T(); new (&e) T (s.c_str()); } \
		template<> void Ex<T>::dump (Res& r) const { string s (e.what()); io<string>::dump (s, r); }
MSG(logic_error) MSG(out_of_range) MSG(runtime_error)
template<> Ex<exception>::Ex (void) : e () {}
template<> void Ex<exception>::load (In& i) { i.next(); }
template<> void Ex<exception>::dump (Res& r) const { r.push (e.format()); }
struct Alloc : public bad_alloc { explicit Alloc (size_t n) : bad_alloc (n) {} size_t n (void) const { return _bytesRequested; } };
template<> Ex<Alloc>::Ex (void) : e (1) {}
template<> void Ex<Alloc>::load (In& i) { unsigned long n; io<unsigned long>::load (n, i); e.~Alloc(); new (&e) Alloc (n); }
template<> void Ex<Alloc>::dump (Res& r) const { unsigned long n = e.n(); r.bytes (&n, 8); }
// the message comes from the system: the driver compares it
static void sys (const system_error& e, Res& r)
{
    r.push (e.Errno()); string o (e.Operation()); io<string>::dump (o, r);
    string s; e.error_message::info (s, "%s|%s"); string w (e.Operation()); w += "|"; w += strerror (e.Errno()); r.push (s == w);
}
template<> Ex<system_error>::Ex (void) : e ("x") {}
template<> void Ex<system_error>::load (In& i) { int n = i.next(); string s (text (i)); i.next(); errno = n; e.~system_error(); new (&e) system_error (s.c_str()); }
template<> void Ex<system_error>::dump (Res& r) const { sys (e, r); }
template<> Ex<file_exception>::Ex (void) : e ("x", "y") {}
template<> void Ex<file_exception>::load (In& i) { int n = i.next(); string s (text (i)); i.next(); string f (text (i)); errno = n; e.~file_exception(); new (&e) file_exception (s.c_str(), f.c_str()); }
template<> void Ex<file_exception>::dump (Res& r) const { sys (e, r); string f (e.Filename()); io<string>::dump (f, r); }
template<> Ex<stream_bounds_exception>::Ex (void) : e ("x", "y", 1, 2, 3) {}
template<> void Ex<stream_bounds_exception>::load (In& i)
{
    int n = i.next(); string s (text (i)); i.next(); int t = i.next()%3; unsigned long a, b, c; io<unsigned long>::load (a, i); io<unsigned long>::load (b, i); io<unsigned long>::load (c, i);
    errno = n; e.~stream_bounds_exception(); new (&e) stream_bounds_exception (s.c_str(), c_Types[t], a, b, c);
}
template<> void Ex<stream_bounds_exception>::dump (Res& r) const
{
    sys (e, r); int t = 2; while (t >= 0 && strcmp (e.TypeName(), c_Types[t])) --t;
    r.push (t); unsigned long x [3] = { e.Offset(), e.Expected(), e.Remaining() }; r.bytes (x, 24);
}
// The call stack goes along: the copy read prints the one written.
struct Trace {
    exception e;
    long h;
    static long hash (const exception& x) { Res* r = new Res; r->clear(); trace (x, *r); long v = r->r[0]; delete r; return v; }
    Trace (void) : e (), h (0) {}
    void read (istream& is) { uint64_t v; is >> v; e.read (is); h = v; }
    void write (ostream& os) const { uint64_t v = hash (e); os << v; e.write (os); }
    streamsize stream_size (void) const { return 8 + e.stream_size(); }
};
static void __attribute__((noinline)) deep (Trace& t, long n) { if (n > 0) { deep (t, n-1); asm volatile (""); } else { t.e.~exception(); new (&t.e) exception(); } }
template <> struct io<Trace> {
    static void load (Trace& t, In& i) { deep (t, i.next() & 63); i.next(); t.h = Trace::hash (t.e); }
    static void dump (const Trace& t, Res& r) { r.push (0); r.push (t.h == Trace::hash (t.e)); }
};

#define KINDS \
    K(1,uint8_t) K(2,uint16_t) K(3,uint32_t) K(4,uint64_t) K(5,int8_t) K(6,int16_t) K(7,int32_t) K(8,int64_t) K(9,bool) K(10,float) K(11,double) K(12,wchar_t) \
    K(13,string) K(14,memblock) \
    K2(15,pair<uint8_t,uint32_t>) K2(16,pair<uint32_t,uint64_t>) K2(17,pair<string,uint16_t>) K2(18,pair<uint64_t,string>) K2(19,pair<uint8_t,pair<uint8_t,uint8_t> >) \
    K2(20,tuple<3,uint8_t>) K2(21,tuple<2,uint64_t>) K2(22,tuple<2,string>) K2(23,array<uint16_t,5>) K2(24,array<string,2>) K(25,bitset<32>) K(26,bitset<100>) \
    K(27,vector<uint8_t>) K(28,vector<uint16_t>) K(29,vector<uint32_t>) K(30,vector<uint64_t>) K(31,vector<bool>) K(32,vector<string>) K(33,vector<vector<uint64_t> >) K(34,vector<vector<uint8_t> >) \
    K2(35,vector<pair<uint64_t,uint32_t> >) K2(36,vector<pair<string,uint64_t> >) K2(37,vector<tuple<2,uint64_t> >) K(38,vector<memblock>) \
    K(39,set<uint32_t>) K(40,set<string>) K(41,multiset<uint64_t>) K2(42,map<uint32_t,string>) K2(43,map<string,uint64_t>) K2(44,map<string,vector<string> >) K2(45,multimap<uint16_t,uint64_t>) K2(46,map<uint32_t,set<uint64_t> >) \
    K2(47,vector<pair<string,pair<uint8_t,uint8_t> > >) K2(48,vector<pair<uint8_t,array<uint8_t,3> > >) K(49,Grain) K(50,Manip) K(51,list<uint16_t>) K(52,list<string>) K(53,vector<set<uint64_t> >) K2(54,vector<array<uint64_t,2> >) \
    K2(55,pair<vector<uint64_t>,uint8_t>) K2(56,vector<pair<uint8_t,vector<uint64_t> > >) K2(57,map<uint64_t,map<uint8_t,uint64_t> >) K2(58,vector<bitset<40> >) \
    K(60,Ex<exception>) K(61,Ex<Alloc>) K(62,Ex<logic_error>) K(63,Ex<out_of_range>) K(64,Ex<runtime_error>) K(65,Ex<system_error>) K(66,Ex<file_exception>) K(67,Ex<stream_bounds_exception>) K(68,Trace)

enum { MAXREC = 24, SIZE = 1<<16 };
struct Rec { long k, at, n; };
static Rec Q [MAXREC];
static long N, RN, End_;
static unsigned char* Buf;

static void seg_begin (void)	{ N = RN = End_ = 0; Buf = (unsigned char*) malloc (SIZE); }
static void seg_end (Res&)	{ free (Buf); Buf = NULL; N = RN = End_ = 0; }
static void state (W& w)	{ w.open(); w.i (N); w.i (RN); w.i (End_); w.close(); }

template <typename T> static bool wr (Args& a, Res& r)
{
    In in = { a.l(1), a.l(1)+a.ln(1), false };
    T v = T();
    io<T>::load (v, in);
    if (in.bad || in.p != in.e) return false;
    ostream o (Buf, SIZE);
    o.seek (End_); o.align (8);
    long at = o.pos();
    long n = stream_size_of (v);
    o << v;
    Rec q = { a.i(0), at, n };
    Q[N++] = q;
    End_ = at + n;
    a.set (2, at); a.set (3, n);
    r.push (long(o.pos()) - at);
    return true;
}
template <typename T> static void rd (istream& s, Res& r)
{
    T v = T(); long p = s.pos();
    s >> v;
    r.push (long(s.pos()) - p); io<T>::dump (v, r);
}
// reads; true if it reported a shortage
template <typename T> static bool rdx (istream& s, Res& r)
{
    T v = T();
    try { s >> v; } catch (stream_bounds_exception&) { return true; }
    if (s.fail()) return true;
    io<T>::dump (v, r);
    return false;
}
template <typename T> static void ont (istream& s, istream& t, Res& r)
{
    T v = T(); t >> v;
    long p = s.pos();
    s >> v;
    r.push (long(s.pos()) - p); io<T>::dump (v, r);
}
template <typename T> static bool wrx (istream& s, ostream& o)
{
    T v = T(); s >> v;
    try { o << v; } catch (stream_bounds_exception&) { return true; }
    return o.fail();
}
#define C(...) __VA_ARGS__
static bool vwr (long k, Args& a, Res& r)	{ switch (k) {
#define K(n,...)	case n: return wr<__VA_ARGS__> (a, r);
#define K2 K
    KINDS
#undef K
    } return false; }
static void vrd (long k, istream& s, Res& r)	{ switch (k) {
#define K(n,...)	case n: rd<__VA_ARGS__> (s, r); break;
    KINDS
#undef K
    } }
static bool vrdx (long k, istream& s, Res& r)	{ switch (k) {
#define K(n,...)	case n: return rdx<__VA_ARGS__> (s, r);
    KINDS
#undef K
    } return true; }
static void vont (long k, istream& s, istream& t, Res& r)	{ switch (k) {
#define K(n,...)	case n: ont<__VA_ARGS__> (s, t, r); break;
    KINDS
#undef K
    } }
static bool vwrx (long k, istream& s, ostream& o)	{ switch (k) {
#define K(n,...)	case n: return wrx<__VA_ARGS__> (s, o);
    KINDS
#undef K
    } return false; }

// exactly n bytes from offset at
struct Exact { unsigned char* p; Exact (long at, long n) : p ((unsigned char*) malloc (n ? n : 1)) { memcpy (p, Buf+at, n); } ~Exact (void) { free (p); } };

static bool exec (const char* op, Args& a, Res& r)
{
    long i = a.i(0);
    OP("write")	{ if (N >= MAXREC || a.n < 2 || !a.a[1].isl) return false; return vwr (i, a, r); }
    OP("next") {
	if (RN >= N) return false;
	Exact x (0, End_);
	istream s (x.p, End_); s.seek (Q[RN].at);
	vrd (Q[RN++].k, s, r);
	return true;
    }
    if (!strcmp (op, "solo") || !strcmp (op, "onto") || !strcmp (op, "cut") || !strcmp (op, "tight") || !strcmp (op, "into")) {
	if (i < 0 || i >= N) return false;
	Exact x (Q[i].at, Q[i].n);
	istream s (x.p, Q[i].n);
	OP("solo")	{ vrd (Q[i].k, s, r); return true; }
	OP("onto") {
	    long j = a.i(1); if (j < 0 || j >= N || Q[j].k != Q[i].k) return false;
	    Exact y (Q[j].at, Q[j].n);
	    istream t (y.p, Q[j].n);
	    vont (Q[i].k, s, t, r);
	    return true;
	}
	OP("into") {
	    long m = a.i(1), c = a.i(2);
	    if (Q[i].k != 14 || m < 0 || m > 100000 || c < 0 || c > Q[i].n) return false;
	    // size of what was written there
	    memblock v; { istream t (x.p, Q[i].n); t >> v; }
	    if (long(v.size()) > m && c) return false;
	    struct Room { unsigned char* p; Room (long n) : p ((unsigned char*) malloc (n ? n : 1)) { memset (p, 0xA5, n ? n : 1); } ~Room (void) { free (p); } } b (m);
	    Exact y (Q[i].at, Q[i].n - c);
	    istream t (y.p, Q[i].n - c);
	    memlink l (b.p, m);
	    try { t >> l; } catch (length_error&) { r.x = "length"; r.push (l.size()); r.push (0); for (long k = 0; k < m; ++k) if (b.p[k] != 0xA5) r.r[1] = 1; return true; } catch (stream_bounds_exception&) { if (!c) throw; r.push (1); return true; }
	    if (c) { r.push (t.fail()); return true; }
	    long same = 0; while (same < m && b.p[m-1-same] == 0xA5) ++same;
	    if (same > m - long(v.size())) same = m - long(v.size());
	    r.push (l.size()); r.push (same); r.push (t.pos());
	    for (size_t k = 0; k < l.size(); ++k) r.push (b.p[k]);
	    return true;
	}
	long m = a.i(1); if (m < 0 || m >= Q[i].n) return false;
	OP("cut") {
	    Exact y (Q[i].at, m);
	    istream c (y.p, m); c.exceptions (a.i(2));
	    Res* q = new Res; q->clear();
	    r.push (vrdx (Q[i].k, c, *q)); delete q;
	    return true;
	}
	unsigned char* b = (unsigned char*) malloc (m ? m : 1);
	ostream o (b, m); o.exceptions (a.i(2));
	r.push (vwrx (Q[i].k, s, o));
	free (b);
	return true;
    }
    OP("prefix") {
	if (i < 0 || i > End_) return false;
	Exact x (0, i);
	istream s (x.p, i); s.exceptions (a.i(1));
	r.push (0); r.push (0);
	for (long k = 0; k < N; ++k) {
	    try { s.align (8); } catch (stream_bounds_exception&) { r.r[1] = 1; break; }
	    if (s.fail()) { r.r[1] = 1; break; }
	    if (vrdx (Q[k].k, s, r)) { r.r[1] = 1; break; }
	    ++ r.r[0];
	}
	return true;
    }
    return false;
}
