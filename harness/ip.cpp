// Host literals: "//[" text "]" (VMODE 6) and "//" text (VMODE 4) for every
// text up to VN bytes over the characters that can occur in an address
// (VALPHA: 0 any byte, 1 hex digits ':' '.', 2 digits and '.', 3 the characters 1 a : .).
#include "vh.hpp"
#include "ref.hpp"
#ifndef VN
#define VN 8
#endif
#ifndef VMODE
#define VMODE 6
#endif
#ifndef VP
#define VP 0
#endif
#define ON(p) (VP == 0 || VP == p)
#ifndef VALPHA
#define VALPHA 1
#endif
static char in[VN + 1];
extern "C" void harness()
{
    unsigned long n = nondet_choice(VN + 1);
    for(unsigned i = 0; i < VN; ++i)
    {
#if VALPHA == 3
        in[i] = "1a:."[nondet_choice(4)];
#else
        in[i] = (char)nondet_u8();
#endif
#if VALPHA == 1
        v_assume(ref::hex(in[i]) || in[i] == ':' || in[i] == '.');
#elif VALPHA == 2
        v_assume(ref::digit(in[i]) || in[i] == '.');
#endif
    }
    n = v_fork(n);
    unsigned long const b = VMODE == 6 ? 3 : 2, z = VMODE == 6 ? 1 : 0;
    char* p = static_cast<char*>(::operator new(n + b + z));
    p[0] = '/'; p[1] = '/';
    if(VMODE == 6) { p[2] = '['; p[3 + n] = ']'; }
    for(unsigned long i = 0; i < n; ++i) p[b + i] = in[i];
    string_view s(p, n + b + z);
    bool six = VMODE == 6 && ref::ipv6(p + b, p + b + n);
    bool acc = true;
    try
    {
        u::url_view v(s);
        v_reach("accepted");
        ref::url r; bool const ok = ref::parse(r, p, p + b + n + z);
#if ON(1)
        if(VMODE == 6) v_assert(six, "only valid IPv6 literals are accepted");
        v_assert(ok, "accepted only if valid");
#endif
        if(! ok) return;
        if(r.host == 2) v_reach("IPv4");
        if(r.host == 1) v_reach("name");
#if ON(4)
        v_assert((int)v.host_type() == r.host, "host type");
        if(VMODE == 6) v_assert(v.host_type() == u::host_type::ipv6, "host type of an IPv6 literal");
        v_assert(same(v.encoded_host(), r.host_b, r.host_e), "encoded_host");
        if(r.host > 1) v_assert(same(v.host(), r.host_b, r.host_e), "host");
#endif
    }
    catch(u::invalid_part const&) { acc = false; v_reach("rejected"); }
#if ON(1)
    if(VMODE == 6) v_assert(acc || ! six, "valid IPv6 literal accepted");
    ref::url r; bool const ok = ref::parse(r, p, p + b + n + z);
    v_assert(acc || ! ok, "valid text accepted");
#endif
}
