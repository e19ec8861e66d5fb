// VOP 0 scheme identifiers, 1 scheme normalization, 2 numeric ports
#include "obs.hpp"
#ifndef VN
#define VN 6
#endif
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static bool same_low(string_view s, char const* k)
{
    std::size_t i = 0;
    for(; i < s.size() && k[i]; ++i) if(low(s[i]) != k[i]) return false;
    return i == s.size() && k[i] == 0;
}
#if VOP == 0
static text<VN, VA> t;
extern "C" void harness()
{
    t.draw();
    string_view const s = t.view();
    u::scheme const e = same_low(s, "ftp") ? u::scheme::ftp : same_low(s, "file") ? u::scheme::file : same_low(s, "http") ? u::scheme::http :
        same_low(s, "https") ? u::scheme::https : same_low(s, "ws") ? u::scheme::ws : same_low(s, "wss") ? u::scheme::wss : u::scheme::unknown;
    u::scheme const k = u::string_to_scheme(s);
    v_assert(k == e, "identifier of a scheme");
    v_assert(u::is_special(s) == (e != u::scheme::unknown), "special");
    if(e != u::scheme::unknown)
    {
        v_reach("special");
        v_assert(u::string_to_scheme(u::to_string(k)) == k, "name of an identifier");
        v_assert(same_low(s, u::to_string(k).data()), "normalized name");
    }
    else v_reach("unknown");
}
#elif VOP == 1
#if VN == 0
static outline t;
#else
static text<VN, VA> t;
#endif
extern "C" void harness()
{
    t.draw();
    unsigned const how = nondet_choice(2);
    g_fill = nondet_u8();
    string_view const s = t.view();
    ref::url r; v_assume(ref::parse(r, s.data(), s.data() + s.size()));
    url_t w; w.set_encoded_url(s);
    std::size_t const n = r.scheme_e ? (std::size_t)(r.scheme_e - r.b) : 0;
    if(how) w.normalize(); else w.normalize_scheme();
    string_view const z = w.encoded_url();
    v_assert(z.size() == s.size(), "length");
    if(z.size() != s.size()) return;
    for(std::size_t i = 0; i < s.size(); ++i) if(i < n) v_assert(z[i] == low(s[i]), "scheme in lower case"); else v_assert(z[i] == s[i], "nothing else changes");
    comp const c = of(r);
    v_assert(w.scheme().size() == n && same(w.encoded_path(), c.path) && same(w.encoded_host(), c.host) && same(w.encoded_query(), c.query) && same(w.encoded_fragment(), c.frag), "components");
    v_assert(w.data()[w.size()] == 0, "null terminated");
    if(n) v_reach("scheme");
    if(r.auth) v_reach("authority");
    v_assert(u::string_to_scheme(w.scheme()) == u::string_to_scheme(c.scheme), "identifier is kept");
}
#elif VOP == 2
extern "C" void harness()
{
    unsigned const n = nondet_u32();
#ifdef VSTART
    unsigned long k = VSTART;
#else
    unsigned long k = nondet_choice(5);
#endif
    g_fill = nondet_u8();
    static char const* const start[] = { "", "//h", "s://u:p@h:12/p?q#f", "//:99999999999/x", "/x" };
    k = v_fork(k);
    string_view const s = start[k];
    ref::url r; v_assume(ref::parse(r, s.data(), s.data() + s.size()));
    comp const c = of(r);
    url_t w; w.set_encoded_url(s);
    w.set_port(n);
    string_view const p = w.port();
    v_assert(p.size() >= 1 && p.size() <= 10, "length");
    // the digits, last to first, are those of n
    unsigned long len = v_fork(p.size());
    unsigned x = n;
    for(unsigned long i = len; i-- > 0; )
    {
        v_assert(p[i] == (char)('0' + x % 10), "digit");
        x /= 10;
    }
    v_assert(x == 0, "all digits");
    v_assert(len == 1 || p[0] != '0', "no leading zero");
    v_assert(w.has_authority() && same(w.encoded_host(), c.host) && same(w.encoded_user(), c.user) && same(w.encoded_password(), c.pass) && same(w.encoded_path(), c.path) &&
        same(w.encoded_query(), c.query) && same(w.encoded_fragment(), c.frag) && same(w.scheme(), c.scheme), "the rest is unchanged");
    ref::url q; bool const ok = ref::parse(q, w.data(), w.data() + w.size());
    v_assert(ok, "valid URL");
    v_assert(w.port_part().size() == len + 1, "port_part");
    if(len == 10) v_reach("ten digits");
    if(n == 0) v_reach("zero");
}
#endif
