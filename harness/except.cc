// E01: exceptions and error codes against Except.tla
#include "drv.h"
#include <errno.h>
using namespace ustl;
static const errc codes[] = { errc::address_family_not_supported, errc::address_in_use, errc::address_not_available, errc::already_connected, errc::argument_list_too_long, errc::argument_out_of_domain, errc::bad_address, errc::bad_file_descriptor, errc::bad_message, errc::broken_pipe, errc::connection_aborted, errc::connection_already_in_progress, errc::connection_refused, errc::connection_reset, errc::cross_device_link, errc::destination_address_required, errc::device_or_resource_busy, errc::directory_not_empty, errc::executable_format_error, errc::file_exists, errc::file_too_large, errc::filename_too_long, errc::function_not_supported, errc::host_unreachable, errc::identifier_removed, errc::illegal_byte_sequence, errc::inappropriate_io_control_operation, errc::interrupted, errc::invalid_argument, errc::invalid_seek, errc::io_error, errc::is_a_directory, errc::message_size, errc::network_down, errc::network_reset, errc::network_unreachable, errc::no_buffer_space, errc::no_child_process, errc::no_link, errc::no_lock_available, errc::no_message_available, errc::no_message, errc::no_protocol_option, errc::no_space_on_device, errc::no_stream_resources, errc::no_such_device_or_address, errc::no_such_device, errc::no_such_file_or_directory, errc::no_such_process, errc::not_a_directory, errc::not_a_socket, errc::not_a_stream, errc::not_connected, errc::not_enough_memory, errc::not_supported, errc::operation_canceled, errc::operation_in_progress, errc::operation_not_permitted, errc::operation_not_supported, errc::operation_would_block, errc::owner_dead, errc::permission_denied, errc::protocol_error, errc::protocol_not_supported, errc::read_only_file_system, errc::resource_deadlock_would_occur, errc::resource_unavailable_try_again, errc::result_out_of_range, errc::state_not_recoverable, errc::stream_timeout, errc::text_file_busy, errc::timed_out, errc::too_many_files_open_in_system, errc::too_many_files_open, errc::too_many_links, errc::too_many_symbolic_link_levels, errc::value_too_large, errc::wrong_protocol_type };
union Store {
    char	_start;
    #define KINDS(K)	K(1,ustl::exception) K(2,ustl::bad_cast) K(3,ustl::bad_typeid) K(4,ustl::bad_alloc) K(5,error_message) K(6,logic_error) K(7,domain_error)\
			K(8,invalid_argument) K(9,length_error) K(10,out_of_range) K(11,runtime_error) K(12,range_error) K(13,overflow_error) K(14,underflow_error)\
			K(15,system_error) K(17,file_exception) K(18,stream_bounds_exception)
    #define STORE(n,X)	char _s##n [sizeof(X)];
    KINDS(STORE)
    long double	_a;
    Store (void) : _start (0) {}
};
static struct Slot { long k; Store s; } slots [2];
static long base = 0;
template <class X> static X& as (Slot& s)	{ return *(X*) &s.s; }
// calls f with what is in the slot
template <class F> static void visit (Slot& s, F f)
{
    switch (s.k) {
	#define VISIT(n,X)	case n: f (as<X> (s)); break;
	KINDS(VISIT)
    }
}
template <class X> static void place (Slot& s, const X& x, long k)	{ new (&s.s) X (x); s.k = k; }
static void drop (Slot& s)	{ visit (s, [](auto& x) { typedef typename remove_reference<decltype(x)>::type X; x.~X(); }); s.k = 0; }
static void settle (void)	{ strerror (1000); }
static long hash (const ustl::exception& e)
{
    ostringstream os;
    e.backtrace().text_write (os);
    unsigned h = 1;
    for (const char c : os.str()) h = h*31 + uint8_t(c);
    return (h & 0x3fffffff) | 1;
}
static void seg_begin (void)
{
    for (Slot& s : slots) s.k = 0;
    { ustl::exception e; hash (e); }
    settle();
    base = live_bytes();
}
static void seg_end (Res& r)
{
    for (Slot& s : slots) drop (s);
    settle();
    r.push (live_bytes() - base);
}
static const char* nameof (ustl::exception&)		{ return ""; }
static const char* nameof (error_message& e)		{ return e.name(); }
static void more (W& w, ustl::exception&)		{ w.i (0); w.list ((char*)0, (char*)0); w.list ((char*)0, (char*)0); w.list ((char*)0, (char*)0); }
static void sys (W& w, system_error& e)
{
    const int n = e.Errno();
    w.i (e.code().value() == n ? n : 12345678);
    w.bytes (e.Operation(), strlen (e.Operation()));
}
static void more (W& w, system_error& e)		{ sys (w, e); w.list ((char*)0, (char*)0); w.list ((char*)0, (char*)0); }
static void more (W& w, file_exception& e)		{ sys (w, e); w.bytes (e.Filename(), strlen (e.Filename())); w.list ((char*)0, (char*)0); }
static void more (W& w, stream_bounds_exception& e)
{
    sys (w, e); w.bytes (e.TypeName(), strlen (e.TypeName()));
    const uint64_t n[3] = { uint64_t(e.Offset()), e.Expected(), e.Remaining() };
    w.bytes (n, sizeof(n));
}
static void state (W& w)
{
    w.open();
    for (Slot& s : slots) {
	w.open(); w.i (s.k);
	if (!s.k) { for (int i = 0; i < 3; ++i) w.list ((char*)0, (char*)0); w.i (0); w.i (0); for (int i = 0; i < 3; ++i) w.list ((char*)0, (char*)0); w.i (0); }
	visit (s, [&](auto& x) {
	    const ustl::exception& e = x;
	    const char* t = e.what(); w.bytes (t, strlen (t));
	    t = nameof (x); w.bytes (t, strlen (t));
	    string m ("old"); e.info (m); w.bytes (m.data(), m.size());
	    w.i (e.format());
	    more (w, x);
	    w.i (hash (e)); });
	w.close();
    }
    w.close();
}
static bool textof (Args& a, int k, string& t)
{
    for (int i = 0; i < a.ln(k); ++i) { if (a.l(k)[i] < 1 || a.l(k)[i] > 255) return false; t += char(a.l(k)[i]); }
    return true;
}
static uint64_t number (Args& a, int k, int i)	{ uint64_t v = 0; for (int j = 0; j < 8; ++j) v |= uint64_t(uint8_t(a.l(k)[8*i+j])) << (8*j); return v; }
static bool iserr (long n)
{
    static const short known[] = { 0, 1, 2, 4, 5, 9, 11, 12, 13, 17, 21, 22, 28, 32, 36, 75, 95 };
    if (n < -100000 || n > 100000) return false;
    if (n < 0 || n > 140) return true;
    for (short k : known) if (k == n) return true;
    return false;
}
static size_t skipname (const string& t, size_t i)	// after a name, or 0
{
    size_t n = 0, j = i;
    for (; j < t.size() && j < i+3 && isdigit (t[j]); ++j) n = 10*n + t[j]-'0';
    return j == i || !n || n > t.size()-j ? 0 : j+n;
}
// what is tried as the name of a type
static bool istype (const string& t)
{
    size_t i = 0;
    while (i < t.size() && t[i] == 'P') ++i;
    if (i == t.size() || t[i] == '?' || t[i] == 'q' || isdigit (t[i])) return true;
    if (t[i] == 'N') {
	size_t n = 0;
	for (++i; i < t.size() && t[i] != 'E'; ++n) if (!(i = skipname (t, i))) return false;
	return n && i+1 == t.size();
    }
    return i+1 == t.size() && strchr ("cdijm", t[i]);
}
template <class C, class X> static bool caught (const X& x)
{
    try { throw x; }
    catch (const C&) { return true; }
    catch (...) { return false; }
}
static void readinto (istream& is, ustl::exception& e)	{ is >> e; }
template <class X> static X* other (X*)			{ return new X ("zzz"); }
template <> ustl::exception* other (ustl::exception*)	{ return new ustl::exception; }
template <> bad_cast* other (bad_cast*)			{ return new bad_cast; }
template <> bad_typeid* other (bad_typeid*)		{ return new bad_typeid; }
template <> ustl::bad_alloc* other (ustl::bad_alloc*)	{ return new ustl::bad_alloc (77); }
template <> file_exception* other (file_exception*)	{ return new file_exception ("yyy", "a name to be replaced"); }
template <> stream_bounds_exception* other (stream_bounds_exception*)	{ return new stream_bounds_exception ("yyy", "i", 1, 2, 3); }
static bool exec (const char* op, Args& a, Res& r)
{
    const long x = a.i(0), y = a.i(1);
    #define IS(s)	(!strcmp (op, s))
    if (IS("demangle")) {
	string t;
	if (!textof (a, 1, t) || !istype (t) || x < 1 || x > 1000 || long(t.size()) >= x) return false;
	char b [1100]; memset (b, 0x5a, sizeof(b));
	memcpy (b, t.c_str(), t.size()+1);
	size_t n = 9999;
	const char* p = demangle_type_name (b, x, (x & 1) ? &n : NULL);
	for (int i = x; i < int(sizeof(b)); ++i) if (b[i] != 0x5a) return r.push (-i), true;
	const bool ended = memchr (b, 0, x);
	const size_t l = ended ? strlen (b) : x;
	r.push ((x & 1) ? n : l);
	if (p == b) r.bytes (p, l);
	return true;
    } else if (IS("code")) {
	if (!iserr (x) || !iserr (y)) return false;
	error_code e (x, system_category()), f (y, generic_category());
	error_condition c (x, generic_category()), d = f.default_error_condition();
	r.push (bool(e)); r.push (e == f); r.push (e == d); r.push (c == d); r.push (c == f);
	r.push (e.category().equivalent (int(x), d) && system_category().equivalent (e, int(y)) ? 1 : 0);
	int v = e.value(); r.bytes (&v, 4);
	v = e.default_error_condition().value(); r.bytes (&v, 4);
	e.assign (y, system_category()); c.assign (y, system_category());
	v = c.value() == e.value() ? e.value() : 0x7fffffff; r.bytes (&v, 4);
	e.clear(); c.clear();
	v = e.value() | c.value() | error_code().value() | error_condition().value() | (bool(c) ? 1 : 0); r.bytes (&v, 4);
	string m, n; m = error_code (x, system_category()).message(); n = error_condition (y, generic_category()).message();
	r.sized (m.data(), m.size()); r.bytes (n.data(), n.size());
	return true;
    } else if (IS("codewire")) {
	if (!iserr (x)) return false;
	error_code e (x, system_category()), f; error_condition c (x, system_category()), d;
	memblock m (8); ostream os (m); os << e; r.push (e.stream_size()); r.push (c.stream_size()); r.push (os.pos());
	os << c; r.bytes (m.begin(), 8);
	istream is (m); is >> f >> d;
	int v = f.value(); r.bytes (&v, 4); v = d.value(); r.bytes (&v, 4);
	return true;
    } else if (IS("errc")) {
	if (x < 1 || x > long(sizeof(codes)/sizeof(codes[0]))) return false;
	const errc c = codes[x-1];
	error_code e (c), f; f = c; error_condition d (c), g; g = c;
	r.push (e.value()); r.push (d.value()); r.push (f.value() == g.value() ? make_error_code (c).value() : -1); r.push (e == g && make_error_condition (c) == f);
	return true;
    }
    if (x < 1 || x > 2) return false;
    Slot& s = slots[x-1];
    if (IS("make")) {
	string t, o;
	if (y < 1 || y > 18 || !textof (a, 2, t) || !textof (a, 3, o) || !iserr (a.i(4)) || a.ln(5) != 24 || (y == 18 && !istype (t))) return false;
	drop (s);
	const int n = a.i(4), way = a.l(5)[0] & 3;
	const error_category cat = system_category();
	switch (y) {
	    case 1: new (&s.s) ustl::exception; break;
	    case 2: new (&s.s) bad_cast; break;
	    case 3: new (&s.s) bad_typeid; break;
	    case 4: new (&s.s) ustl::bad_alloc (number (a, 5, 0)); break;
	    #define MAKE(n,X)	case n: new (&s.s) X (t.c_str()); break;
	    MAKE(5,error_message) MAKE(6,logic_error) MAKE(7,domain_error) MAKE(8,invalid_argument) MAKE(9,length_error) MAKE(10,out_of_range)
	    MAKE(11,runtime_error) MAKE(12,range_error) MAKE(13,overflow_error) MAKE(14,underflow_error)
	    case 15: errno = n; new (&s.s) system_error (o.c_str()); break;
	    case 16:
		if (way == 0) new (&s.s) system_error (error_code (n, cat), o.c_str());
		else if (way == 1) new (&s.s) system_error (error_code (n, cat), o);
		else if (way == 2) new (&s.s) system_error (n, cat, o.c_str());
		else new (&s.s) system_error (n, cat, o);
		break;
	    case 17: errno = n; new (&s.s) file_exception (o.c_str(), t.empty() && way ? NULL : t.c_str()); break;
	    case 18: errno = n; new (&s.s) stream_bounds_exception (o.c_str(), t.c_str(), number (a, 5, 0), number (a, 5, 1), number (a, 5, 2)); break;
	}
	s.k = y == 16 ? 15 : y;
	visit (s, [&](auto& e) { a.set (6, hash (e)); });
	t.clear(); o.clear();
	return true;
    } else if (IS("copy")) {
	if (y < 1 || y > 2 || x == y || !slots[y-1].k) return false;
	drop (s);
	Slot& f = slots[y-1];
	visit (f, [&](auto& e) { place (s, e, f.k); });
	return true;
    }
    if (!s.k) return false;
    if (IS("drop")) { drop (s); return true; }
    else if (IS("assign")) {
	if (y < 1 || y > 2 || slots[y-1].k != s.k) return false;
	visit (s, [&](auto& e) { typedef typename remove_reference<decltype(e)>::type X; e = as<X> (slots[y-1]); });
	return true;
    } else if (IS("throw")) {
	visit (s, [&](auto& e) {
	    typedef typename remove_reference<decltype(e)>::type X;
	    #define CAUGHT(n,C)	r.push (caught<C> (e));
	    KINDS(CAUGHT)
	    const long k = s.k;
	    try { throw e; }
	    catch (ustl::exception& c) { drop (s); place (s, static_cast<X&> (c), k); }
	    catch (...) { } });
	return true;
    } else if (IS("info")) {
	if (y < 0 || y > 2) return false;
	string m; const char* fmt = NULL;
	if (y) switch (s.k) {
	    case 4: fmt = y == 1 ? "|%zu|" : "%zu!"; break;
	    case 17: fmt = y == 1 ? "|%s|%s|%s|" : "%s!"; break;
	    case 18: fmt = y == 1 ? "|%s|%s|%zu|%zu|%zu|" : "%s!"; break;
	    default: fmt = y == 1 ? "|%s|%s|" : "%s!";
	}
	visit (s, [&](auto& e) { const ustl::exception& b = e; b.info (m, fmt); });
	r.bytes (m.data(), m.size());
	return true;
    } else if (IS("text")) {
	ostringstream os;
	visit (s, [&](auto& e) { const ustl::exception& b = e; os << b; });
	r.bytes (os.str().data(), os.str().size());
	return true;
    } else if (IS("wire")) {
	visit (s, [&](auto& e) {
	    typedef typename remove_reference<decltype(e)>::type X;
	    const ustl::exception& b = e;
	    const size_t n = b.stream_size();
	    r.push (n);
	    if (n > 1 << 14) return;
	    memblock m (n); memset (m.begin(), 0x5a, n);
	    ostream os (m);
	    os << b;
	    r.push (os.pos());
	    static long l [1 << 14];
	    for (size_t i = 0; i < n; ++i) l[i] = uint8_t(m.begin()[i]);
	    a.set (1, 0); a.a[1].isl = true; a.a[1].l = l; a.a[1].n = n;
	    X* o = other ((X*) NULL);
	    istream is (m);
	    readinto (is, *o);
	    r.push (is.pos());
	    e.~X();
	    new (&s.s) X (*o);
	    delete o; });
	return true;
    }
    return false;
}
