// Reading any text of up to VN characters into a view (or, VOWN, a container).
// VP selects the property: 1 acceptance, 2 encoded parts, 3 safety of every
// observer, 4 host type, 5 plain parts; 0 all.
#include "obs.hpp"
#ifndef VN
#define VN 6
#endif
#ifndef VP
#define VP 0
#endif
#ifndef VOWN
#define VOWN 0
#endif
#define ON(p) (VP == 0 || VP == p)
#if VN == 0
static outline t;
#else
static text<VN, VA> t;
#endif
#if VOWN
typedef url_t type;
#else
typedef u::url_view type;
#endif
extern "C" void harness()
{
    t.draw();
    g_fill = nondet_u8();
    string_view const s = t.view();
    ref::url r; bool const ok = ref::parse(r, s.data(), s.data() + s.size());
#if VP > 1
    v_assume(ok || VP == 3);
#endif
    bool acc = true;
    try
    {
        type const v(s);
        v_reach("accepted");
#if ON(1)
        v_assert(ok, "accepted only if valid");
#endif
        if(! ok) return;
#if ON(2)
#if VOWN
        v_assert(same(v.encoded_url(), s), "text");
        ref::url q; v_assume(ref::parse(q, v.data(), v.data() + v.size()));
        check_encoded(v, q);
        if(q.pass) v_assert(same(v.password_part(), q.user_e, q.ui_e), "password_part"); else v_assert(v.password_part().empty(), "no password_part");
        comp const c = of(r); v_assert(same(v.scheme(), c.scheme) && same(v.encoded_path(), c.path), "parts of the text");
#else
        check_encoded(v, r);
#endif
        if(r.auth) v_reach("authority");
#endif
#if ON(4)
        v_assert((int)v.host_type() == r.host, "host_type");
        if(r.host == 1) v_reach("name");
        if(r.host == 0) v_reach("none");
#endif
#if ON(5)
        check_decoded(v, of(r));
#endif
#if ON(3)
        {
            string_view const a = v.encoded_url();
            string_view const x[] = { v.encoded_origin(), v.scheme(), v.encoded_authority(), v.encoded_userinfo(), v.userinfo_part(), v.encoded_user(), v.encoded_password(),
                v.encoded_host(), v.encoded_host_and_port(), v.port(), v.port_part(), v.encoded_path(), v.encoded_query(), v.query_part(), v.encoded_fragment(), v.fragment_part() };
            for(auto const& y : x) v_assert(inside(y, a), "a view outside of the text");
            std::size_t n = 0, m = 0;
            for(auto e : v.segments()) { v_assert(inside(e.encoded_string(), v.encoded_path()), "a segment outside of the path"); n += e.encoded_string().size() + 1; v_assert(n <= a.size() + 1, "segments overlap"); }
            for(auto e : v.params()) { v_assert(inside(e.encoded_key(), v.encoded_query()) && inside(e.encoded_value(), v.encoded_query()), "a parameter outside of the query");
                m += e.encoded_key().size() + e.encoded_value().size() + 1; v_assert(m <= a.size(), "parameters overlap"); }
            (void)v.user(); (void)v.password(); (void)v.host(); (void)v.query(); (void)v.fragment();
            type const none; v_assert(none.size() == 0 && none.encoded_url().empty() && none.segments().begin() == none.segments().end() && none.params().begin() == none.params().end(), "an empty view");
            (void)none.user(); (void)none.password(); (void)none.host(); (void)none.query(); (void)none.fragment(); (void)none.encoded_authority(); (void)none.encoded_userinfo(); (void)none.has_userinfo();
        }
#endif
    }
    catch(u::invalid_part const&) { acc = false; v_reach("rejected"); }
#if ON(1)
    v_assert(acc || ! ok, "valid text accepted");
#elif VP != 3
    v_assert(acc, "valid text accepted");
#endif
}
