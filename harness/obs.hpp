// What the observers of a URL have to return, given the reference reading of its text.
#ifndef OBS_HPP
#define OBS_HPP
#include "url.hpp"
// plain text `d` is what the encoded text `s` stands for
template<class S>
static inline bool is_decoding(S const& d, string_view s)
{
    char const* p = s.data(); char const* e = p + s.size(); std::size_t i = 0;
    while(p != e)
    {
        if(i >= d.size()) return false;
        if(*p != '%') { if(d[i] != *p) return false; ++p; }
        else { if((uc)d[i] != (uc)(ref::hexval(p[1]) * 16 + ref::hexval(p[2]))) return false; p += 3; }
        ++i;
    }
    return i == d.size();
}
static inline bool inside(string_view x, string_view s)
{ return x.empty() || (x.data() >= s.data() && x.data() + x.size() <= s.data() + s.size()); }

// the parts in encoded form
template<class V>
static void check_encoded(V const& v, ref::url const& r)
{
    v_assert(v.size() == (unsigned long)(r.e - r.b), "size");
    v_assert(same(v.encoded_url(), r.b, r.e), "encoded_url");
    v_assert(same(v.encoded_origin(), r.b, r.path_b), "encoded_origin");
    if(r.scheme_e) v_assert(same(v.scheme(), r.b, r.scheme_e), "scheme"); else v_assert(v.scheme().empty(), "no scheme");
    v_assert(v.has_authority() == r.auth, "has_authority");
    v_assert(same(v.encoded_authority(), r.auth_b, r.path_b), "encoded_authority");
    v_assert(v.has_userinfo() == r.userinfo, "has_userinfo");
    v_assert(same(v.encoded_userinfo(), r.auth_b, r.ui_e), "encoded_userinfo");
    v_assert(same(v.userinfo_part(), r.auth_b, r.host_b), "userinfo_part");
    v_assert(same(v.encoded_user(), r.auth_b, r.user_e), "encoded_user");
    if(r.pass) v_assert(same(v.encoded_password(), r.user_e + 1, r.ui_e), "encoded_password"); else v_assert(v.encoded_password().empty(), "no password");
    v_assert(same(v.encoded_host(), r.host_b, r.host_e), "encoded_host");
    v_assert(same(v.encoded_host_and_port(), r.host_b, r.path_b), "encoded_host_and_port");
    v_assert(same(v.port(), r.port_b, r.path_b), "port");
    v_assert(same(v.port_part(), r.host_e, r.path_b), "port_part");
    v_assert(same(v.encoded_path(), r.path_b, r.path_e), "encoded_path");
    v_assert(same(v.query_part(), r.path_e, r.query_e), "query_part");
    if(r.query) v_assert(same(v.encoded_query(), r.path_e + 1, r.query_e), "encoded_query"); else v_assert(v.encoded_query().empty(), "no query");
    v_assert(same(v.fragment_part(), r.query_e, r.e), "fragment_part");
    if(r.frag) v_assert(same(v.encoded_fragment(), r.query_e + 1, r.e), "encoded_fragment"); else v_assert(v.encoded_fragment().empty(), "no fragment");
}
// the parts in plain form
template<class V>
static void check_decoded(V const& v, comp const& c)
{
    v_assert(is_decoding(v.user(), c.user), "user");
    v_assert(is_decoding(v.password(), c.pass), "password");
    if(c.host_type == 1) v_assert(is_decoding(v.host(), c.host), "host"); else v_assert(same(v.host(), c.host), "address");
    v_assert(is_decoding(v.query(), c.query), "query");
    v_assert(is_decoding(v.fragment(), c.frag), "fragment");
}
#endif
