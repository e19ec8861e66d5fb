// One modification of a container that holds any valid URL of up to VN bytes
// (VN 0: an outline with all components),
// with any argument of up to VM bytes.  VOP selects the operation, VP the
// property whose assertions are compiled in (6..11).
#include "obs.hpp"
#ifndef VN
#define VN 5
#endif
#ifndef VM
#define VM 2
#endif
#ifndef VP
#define VP 0
#endif
#define ON(p) (VP == 0 || VP == p)
enum { URL, ORIGIN, SCHEME, AUTHORITY, USERINFO, USERINFO_PART, USER, ENC_USER, PASSWORD, ENC_PASSWORD, PASSWORD_PART,
    HOST, ENC_HOST, PORT, PORT_PART, PATH, QUERY, ENC_QUERY, QUERY_PART, FRAGMENT, ENC_FRAGMENT, FRAGMENT_PART, NORMALIZE, NORMALIZE_SCHEME };
#if VN == 0
static outline t;
#else
static text<VN, VA> t;
#endif
static text<VM, VB> a;

// what the operation has to do
struct expect
{
    bool ok;                    // succeeds
    comp c;                     // components afterwards
    int plain;                  // component given in plain form: 1 user 2 password 3 host 4 query 5 fragment
    int extra; string_view arg;
};
static void drop_authority(comp& c)
{
    // an empty authority stays when the path would be taken for one
    c.auth = starts2(c.path);
    c.ui = c.hp = c.port = false; c.user = c.pass = c.host = c.portv = string_view(); c.host_type = 0;
}
static void add_authority(expect& x) { if(! x.c.auth) { x.c.auth = true; if(! path_fits(x.c.hs, true, x.c.path)) x.ok = false; } }
static int host_kind(string_view s)          // of an encoded host; -1 invalid
{
    if(s.empty()) return 0;
    if(s[0] == '[') return s.size() >= 2 && s[s.size() - 1] == ']' && ref::ipv6(s.data() + 1, s.data() + s.size() - 1) ? 3 : -1;
    if(ref::ipv4(s.data(), s.data() + s.size())) return 2;
    return good(s, ref::REG) ? 1 : -1;
}
static bool authority_text(comp& c, string_view s)
{
    ref::url r; r.userinfo = r.pass = r.port = false; r.host = 0;
    if(! ref::authority(r, s.data(), s.data() + s.size())) return false;
    char const* b = s.data(); char const* e = b + s.size();
    c.auth = true; c.ui = r.userinfo; c.hp = r.pass; c.user = sv(b, r.user_e); c.pass = r.pass ? sv(r.user_e + 1, r.ui_e) : string_view();
    c.host = sv(r.host_b, r.host_e); c.port = r.port; c.portv = sv(r.port_b, e); c.host_type = r.host;
    return true;
}
static void userinfo(expect& x, string_view s)
{
    if(s.empty())
    {
        if(! x.c.auth) return;
        if(x.c.host.empty() && ! x.c.port) { drop_authority(x.c); return; }
        x.c.ui = x.c.hp = false; x.c.user = x.c.pass = string_view(); return;
    }
    if(! good(s, ref::COLON)) { x.ok = false; return; }
    add_authority(x);
    char const* b = s.data(); char const* e = b + s.size(); char const* k = ref::find(b, e, ':');
    x.c.ui = true; x.c.hp = k != e; x.c.user = sv(b, k); x.c.pass = x.c.hp ? sv(k + 1, e) : string_view();
}
static void user_(expect& x, string_view s)
{
    if(s.empty())
    {
        x.c.user = string_view();
        if(! x.c.hp) x.c.ui = false;
        return;
    }
    add_authority(x);
    x.c.ui = true; x.c.user = s;
}
static void password_(expect& x, string_view s)
{
    if(s.empty())
    {
        x.c.hp = false; x.c.pass = string_view();
        if(x.c.user.empty()) x.c.ui = false;
        return;
    }
    add_authority(x);
    x.c.ui = x.c.hp = true; x.c.pass = s;
}
static void host_(expect& x, string_view s)
{
    if(s.empty())
    {
        if(! x.c.auth) return;
        if(! x.c.ui && ! x.c.port) { drop_authority(x.c); return; }
        x.c.host = s; x.c.host_type = 0; return;
    }
    add_authority(x);
    x.c.host = s;
}
static void port_(expect& x, string_view s)
{
    if(s.empty())
    {
        if(x.c.auth && ! x.c.ui && x.c.host.empty()) { drop_authority(x.c); return; }
        x.c.port = false; x.c.portv = s; return;
    }
    for(std::size_t i = 0; i < s.size(); ++i) if(! ref::digit(s[i])) x.ok = false;
    add_authority(x);
    x.c.port = true; x.c.portv = s;
}
static void query_(expect& x, string_view s) { x.c.q = true; x.c.query = s; if(! good(s, ref::COLON | ref::AT | ref::SLASH | ref::QMARK)) x.ok = false; }
static void frag_(expect& x, string_view s) { x.c.f = true; x.c.frag = s; if(! good(s, ref::COLON | ref::AT | ref::SLASH | ref::QMARK)) x.ok = false; }

static void model(expect& x, int op, string_view s, ref::url& ru)
{
    comp& c = x.c;
    switch(op)
    {
    case URL:
        x.ok = ref::parse(ru, s.data(), s.data() + s.size());
        if(x.ok) c = of(ru);
        break;
    case ORIGIN:
    {
        comp o = c; o.hs = false; o.scheme = string_view(); o.auth = o.ui = o.hp = o.port = false;
        o.user = o.pass = o.host = o.portv = string_view(); o.host_type = 0;
        if(! s.empty())
        {
            char const* b = s.data(); char const* e = b + s.size(); char const* k = ref::find(b, e, ':');
            if(k == e || k == b || ! ref::alpha(*b)) { x.ok = false; break; }
            for(char const* p = b; p != k; ++p) if(! (ref::alpha(*p) || ref::digit(*p) || *p == '+' || *p == '-' || *p == '.')) x.ok = false;
            o.hs = true; o.scheme = sv(b, k); ++k;
            if(e - k >= 2 && k[0] == '/' && k[1] == '/')
            {
                k += 2;
                char const* z = e; if(z != k && z[-1] == '/') --z;      // trailing slash
                if(! authority_text(o, sv(k, z))) x.ok = false;
            }
            else if(! (k == e || (k + 1 == e && *k == '/'))) x.ok = false;
        }
        c = o;
        if(! path_fits(c.hs, c.auth, c.path)) x.ok = false;
        break;
    }
    case SCHEME:
        c.hs = ! s.empty(); c.scheme = s;
        if(c.hs)
        {
            if(! ref::alpha(s[0])) x.ok = false;
            for(std::size_t i = 0; i < s.size(); ++i) if(! (ref::alpha(s[i]) || ref::digit(s[i]) || s[i] == '+' || s[i] == '-' || s[i] == '.')) x.ok = false;
        }
        else if(! path_fits(c.hs, c.auth, c.path)) x.ok = false;
        break;
    case AUTHORITY:
        if(s.empty()) { if(c.auth) drop_authority(c); }
        else { add_authority(x); if(! authority_text(c, s)) x.ok = false; }
        break;
    case USERINFO: userinfo(x, s); break;
    case USERINFO_PART:
        if(s.empty()) { userinfo(x, s); break; }
        if(s[s.size() - 1] != '@') { x.ok = false; break; }
        userinfo(x, s.substr(0, s.size() - 1));
        break;
    case USER: user_(x, s); if(! s.empty()) x.plain = 1; x.extra = ref::REG; break;
    case ENC_USER: user_(x, s); if(! good(s, ref::REG)) x.ok = false; break;
    case PASSWORD: password_(x, s); if(! s.empty()) x.plain = 2; x.extra = ref::COLON; break;
    case ENC_PASSWORD: password_(x, s); if(! good(s, ref::COLON) || (! s.empty() && s[0] == ':')) x.ok = false; break;
    case PASSWORD_PART:
        if(s.empty()) { password_(x, s); break; }
        if(s[0] != ':') { x.ok = false; break; }
        s = s.substr(1);
        if(s.empty()) { add_authority(x); c.ui = c.hp = true; c.pass = s; break; }
        password_(x, s); if(! good(s, ref::COLON) || s[0] == ':') x.ok = false;
        break;
    case HOST:
        host_(x, s);
        if(! s.empty()) { c.host_type = host_kind(s); if(c.host_type < 2) { c.host_type = 1; x.plain = 3; } x.extra = ref::REG; }
        break;
    case ENC_HOST:
        host_(x, s);
        if(! s.empty()) { c.host_type = host_kind(s); if(c.host_type < 0) x.ok = false; }
        break;
    case PORT: port_(x, s); break;
    case PORT_PART:
        if(s.empty()) { port_(x, s); break; }
        if(s[0] != ':') { x.ok = false; break; }
        s = s.substr(1);
        if(s.empty()) { add_authority(x); c.port = true; c.portv = s; break; }
        port_(x, s);
        break;
    case PATH:
        c.path = s;
        if(! path_fits(c.hs, c.auth, s) || ! good(s, ref::COLON | ref::AT | ref::SLASH)) x.ok = false;
        break;
    case QUERY: c.q = ! s.empty(); c.query = s; if(c.q) x.plain = 4; x.extra = ref::COLON | ref::AT | ref::SLASH | ref::QMARK; break;
    case ENC_QUERY: if(s.empty()) { c.q = false; c.query = s; } else query_(x, s); break;
    case QUERY_PART:
        if(s.empty()) { c.q = false; c.query = s; break; }
        if(s[0] != '?') { x.ok = false; break; }
        query_(x, s.substr(1)); break;
    case FRAGMENT: c.f = ! s.empty(); c.frag = s; if(c.f) x.plain = 5; x.extra = ref::COLON | ref::AT | ref::SLASH | ref::QMARK; break;
    case ENC_FRAGMENT: if(s.empty()) { c.f = false; c.frag = s; } else frag_(x, s); break;
    case FRAGMENT_PART:
        if(s.empty()) { c.f = false; c.frag = s; break; }
        if(s[0] != '#') { x.ok = false; break; }
        frag_(x, s.substr(1)); break;
    default: break;
    }
}
static void apply(url_t& w, int op, string_view s)
{
    switch(op)
    {
    case URL: w.set_encoded_url(s); break;
    case ORIGIN: w.set_encoded_origin(s); break;
    case SCHEME: w.set_scheme(s); break;
    case AUTHORITY: w.set_encoded_authority(s); break;
    case USERINFO: w.set_encoded_userinfo(s); break;
    case USERINFO_PART: w.set_userinfo_part(s); break;
    case USER: w.set_user(s); break;
    case ENC_USER: w.set_encoded_user(s); break;
    case PASSWORD: w.set_password(s); break;
    case ENC_PASSWORD: w.set_encoded_password(s); break;
    case PASSWORD_PART: w.set_password_part(s); break;
    case HOST: w.set_host(s); break;
    case ENC_HOST: w.set_encoded_host(s); break;
    case PORT: w.set_port(s); break;
    case PORT_PART: w.set_port_part(s); break;
    case PATH: w.set_encoded_path(s); break;
    case QUERY: w.set_query(s); break;
    case ENC_QUERY: w.set_encoded_query(s); break;
    case QUERY_PART: w.set_query_part(s); break;
    case FRAGMENT: w.set_fragment(s); break;
    case ENC_FRAGMENT: w.set_encoded_fragment(s); break;
    case FRAGMENT_PART: w.set_fragment_part(s); break;
    case NORMALIZE: w.normalize(); break;
    case NORMALIZE_SCHEME: w.normalize_scheme(); break;
    default: break;
    }
}
// component `k` is the target of the operation (its value is judged by P6/P7,
// that of the others by P8)
static bool target(int op, int k)
{
    // 0 scheme 1 user 2 password 3 host 4 port 5 path 6 query 7 fragment
    switch(op)
    {
    case URL: return true;
    case ORIGIN: return k <= 4;
    case SCHEME: return k == 0;
    case AUTHORITY: return k >= 1 && k <= 4;
    case USERINFO: case USERINFO_PART: return k == 1 || k == 2;
    case USER: case ENC_USER: return k == 1;
    case PASSWORD: case ENC_PASSWORD: case PASSWORD_PART: return k == 2;
    case HOST: case ENC_HOST: return k == 3;
    case PORT: case PORT_PART: return k == 4;
    case PATH: return k == 5;
    case QUERY: case ENC_QUERY: case QUERY_PART: return k == 6;
    case FRAGMENT: case ENC_FRAGMENT: case FRAGMENT_PART: return k == 7;
    default: return false;
    }
}
static bool plain_op(int op) { return op == USER || op == PASSWORD || op == HOST || op == QUERY || op == FRAGMENT; }

static void run();
extern "C" void harness()
{
    run();
#if ON(11)
    v_assert(! g_bad, "memory is returned with its size");
    v_assert(g_live == 0, "memory is returned");
#endif
}
static void run()
{
    t.draw();
    a.draw();
    unsigned long const roomy = nondet_choice(2);
    g_fill = nondet_u8();
    unsigned const fail = ON(10) ? nondet_choice(2) : 0;
    string_view s0 = t.view();
    ref::url r0; v_assume(ref::parse(r0, s0.data(), s0.data() + s0.size()));
    string_view const s = a.view();
    url_t w;
    if(v_fork(roomy))
        w.set_encoded_url("0123456789012345678901234567890123456789012345678901234567890123");
    w.set_encoded_url(s0);
    comp const c0 = of(r0);
    expect x; x.ok = true; x.c = c0; x.plain = 0; x.extra = 0; x.arg = s;
    ref::url ru;
    model(x, VOP, s, ru);
    std::size_t const cap0 = w.capacity();
    unsigned const allocs0 = g_allocs;
    g_fail = (int)fail;
    int out = 0;                        // 0 done 1 refused 2 no memory
    try { apply(w, VOP, s); }
    catch(u::invalid_part const&) { out = 1; }
    catch(std::bad_alloc const&) { out = 2; }
    g_fail = 0;
#if ON(11)
    v_assert(w.data()[w.size()] == 0, "null terminated");
    v_assert(w.size() <= w.capacity(), "size within capacity");
    v_assert(w.encoded_url().size() == w.size(), "size is the length of the text");
    if(out == 0) v_assert(w.capacity() >= cap0, "capacity does not shrink");
    v_assert(out != 0 || g_allocs == allocs0 || w.size() > cap0, "no reallocation while the text fits");
#endif
    if(out != 2)
    {
#if ON(6) || ON(7)
        if(VP == 0 || (VP == 6) == plain_op(VOP) || (VP == 7 && VOP == HOST))
        {
            if(x.ok) v_assert(out == 0, "acceptable value is accepted"); else v_assert(out == 1, "unacceptable value is refused");
        }
#endif
    }
#if ON(10)
    else v_assert(fail == 1, "bad_alloc only when an allocation fails");
    if(out == 1) v_reach("refused");
    if(out == 2) v_reach("no memory");
    if(out != 0)
    {
        v_assert(same(w.encoded_url(), s0), "text unchanged after an exception");
        v_assert(w.capacity() == cap0, "capacity unchanged after an exception");
        v_assert((int)w.host_type() == c0.host_type && w.segments().size() == nsegs(c0.path) && w.params().size() == nparams(c0.q, c0.query), "state unchanged after an exception");
        v_assert(w.has_authority() == c0.auth && same(w.encoded_host(), c0.host) && same(w.encoded_user(), c0.user) && same(w.encoded_path(), c0.path), "components unchanged after an exception");
    }
#endif
    if(out != 0) return;
    v_reach("modified");
    comp const& c = x.c;
#if ON(11)
    struct later                            // further growth keeps everything
    {
        url_t& w; expect const& x;
        ~later()
        {
            if(! x.ok) return;
            try { auto sg = w.segments(); sg.insert_encoded(sg.end(), "zz"); } catch(u::invalid_part const&) {}
            std::size_t const n = w.encoded_path().size();
            std::size_t const m = w.size() - w.fragment_part().size();
            w.set_encoded_fragment("0123456789012345678901234567890123456789012345678901234567890123456789");
            v_assert(w.size() == m + 71 && w.data()[w.size()] == 0, "growth: size");
            v_assert(w.encoded_path().size() == n && same(w.encoded_path().substr(0, x.c.path.size()), x.c.path), "growth: path");
            if(x.plain != 4) v_assert(same(w.encoded_query(), x.c.query), "growth: query");
            if(x.plain != 3) v_assert(same(w.encoded_host(), x.c.host), "growth: host");
            if(x.plain != 1) v_assert(same(w.encoded_user(), x.c.user), "growth: user");
            v_assert(same(w.port(), x.c.portv), "growth: port");
        }
    } const after{w, x}; (void)after;
#endif
#if ON(6) || ON(7) || ON(8)
    if(x.ok) for(int k = 0; k < 8; ++k)
    {
        bool const tg = target(VOP, k);
        if(! (VP == 0 || (VP == 8 && ! tg) || (tg && VP == (plain_op(VOP) ? 6 : 7)))) continue;
        switch(k)
        {
        case 0:
            if(VOP == NORMALIZE || VOP == NORMALIZE_SCHEME) break;
            v_assert(same(w.scheme(), c.scheme), "scheme");
            break;
        case 1:
            v_assert(w.has_authority() == c.auth, "has_authority");
            if(x.plain == 1) v_assert(is_encoding(w.encoded_user(), s, x.extra), "user is encoded"); else v_assert(same(w.encoded_user(), c.user), "user");
            break;
        case 2:
            v_assert(w.has_userinfo() == c.ui, "has_userinfo");
            if(x.plain == 2) v_assert(is_encoding(w.encoded_password(), s, x.extra), "password is encoded"); else v_assert(same(w.encoded_password(), c.pass), "password");
            if(c.hp) v_assert(w.password_part().size() == w.encoded_password().size() + 1, "password_part"); else v_assert(w.password_part().empty(), "no password_part");
            break;
        case 3:
            if(x.plain == 3) v_assert(is_encoding(w.encoded_host(), s, x.extra), "host is encoded"); else v_assert(same(w.encoded_host(), c.host), "host");
            v_assert((int)w.host_type() == c.host_type, "host_type");
            break;
        case 4:
            v_assert(same(w.port(), c.portv), "port");
            v_assert(w.port_part().empty() == ! c.port, "port_part");
            break;
        case 5: v_assert(same(w.encoded_path(), c.path), "path"); break;
        case 6:
            if(x.plain == 4) v_assert(is_encoding(w.encoded_query(), s, x.extra), "query is encoded"); else v_assert(same(w.encoded_query(), c.query), "query");
            v_assert(w.query_part().empty() == ! c.q, "query_part");
            break;
        default:
            if(x.plain == 5) v_assert(is_encoding(w.encoded_fragment(), s, x.extra), "fragment is encoded"); else v_assert(same(w.encoded_fragment(), c.frag), "fragment");
            v_assert(w.fragment_part().empty() == ! c.f, "fragment_part");
            break;
        }
    }
#endif
#if ON(6)
    if(x.ok) switch(x.plain)
    {
    case 1: v_assert(same(w.user(), s), "user reads back"); break;
    case 2: v_assert(same(w.password(), s), "password reads back"); break;
    case 3: v_assert(same(w.host(), s), "host reads back"); break;
    case 4: v_assert(same(w.query(), s), "query reads back"); break;
    case 5: v_assert(same(w.fragment(), s), "fragment reads back"); break;
    default: break;
    }
#endif
#if ON(9)
    {
        string_view const z = w.encoded_url();
        ref::url r; bool const ok = ref::parse(r, z.data(), z.data() + z.size());
        v_assert(ok, "the text is a valid URL");
        comp const d = of(r);
        v_assert(same(w.scheme(), d.scheme), "reparse: scheme");
        v_assert(w.has_authority() == d.auth && w.has_userinfo() == d.ui, "reparse: authority");
        v_assert(same(w.encoded_user(), d.user), "reparse: user");
        v_assert(same(w.encoded_password(), d.pass), "reparse: password");
        v_assert(w.password_part().empty() == ! d.hp, "reparse: password_part");
        v_assert(same(w.encoded_host(), d.host), "reparse: host");
        v_assert(same(w.port(), d.portv) && w.port_part().empty() == ! d.port, "reparse: port");
        v_assert(same(w.encoded_path(), d.path), "reparse: path");
        v_assert(same(w.encoded_query(), d.query) && w.query_part().empty() == ! d.q, "reparse: query");
        v_assert(same(w.encoded_fragment(), d.frag) && w.fragment_part().empty() == ! d.f, "reparse: fragment");
        v_assert((int)w.host_type() == d.host_type, "reparse: host_type");
        v_assert(w.segments().size() == nsegs(d.path), "reparse: number of segments");
        v_assert(w.params().size() == nparams(d.q, d.query), "reparse: number of parameters");
    }
#endif
}
