// Owning container under test, with an allocator whose memory starts out
// arbitrary and which can be made to fail.
#ifndef URL_HPP
#define URL_HPP
#include "vh.hpp"
#include "ref.hpp"

static int g_fail;                  // nonzero: the next allocation fails
static unsigned g_allocs;
static unsigned long g_live;        // bytes handed out and not returned
static int g_bad;                   // a block was returned with a wrong size
static unsigned char g_fill;        // content of fresh memory (symbolic)
template<class T>
struct halloc
{
    typedef T value_type;
    halloc() = default;
    template<class U> halloc(halloc<U> const&) noexcept {}
    T* allocate(std::size_t n)
    {
        if(g_fail) throw std::bad_alloc();
        ++g_allocs; g_live += n * sizeof(T);
        char* p = static_cast<char*>(::operator new(n * sizeof(T) + 8));        // the size in front
        *reinterpret_cast<unsigned long*>(p) = n * sizeof(T); p += 8;
        for(std::size_t i = 0; i < n * sizeof(T); ++i) p[i] = (char)g_fill;
        return reinterpret_cast<T*>(p);
    }
    void deallocate(T* t, std::size_t n) noexcept
    {
        char* const p = reinterpret_cast<char*>(t) - 8;
        if(*reinterpret_cast<unsigned long*>(p) != n * sizeof(T)) g_bad = 1;
        g_live -= n * sizeof(T);
        ::operator delete(p);
    }
    bool operator==(halloc const&) const noexcept { return true; }
    bool operator!=(halloc const&) const noexcept { return false; }
};
typedef u::basic_url<halloc<char>> url_t;

static inline string_view sv(char const* b, char const* e) { return string_view(b, (std::size_t)(e - b)); }

// A URL as a record of components.
struct comp
{
    bool hs; string_view scheme;
    bool auth, ui, hp; string_view user, pass, host;
    bool port; string_view portv;
    string_view path;
    bool q; string_view query;
    bool f; string_view frag;
    int host_type;
};
static inline comp of(ref::url const& r)
{
    comp c;
    c.hs = r.scheme_e != nullptr; c.scheme = c.hs ? sv(r.b, r.scheme_e) : string_view();
    c.auth = r.auth; c.ui = r.userinfo; c.hp = r.pass;
    c.user = sv(r.auth_b, r.user_e); c.pass = r.pass ? sv(r.user_e + 1, r.ui_e) : string_view();
    c.host = sv(r.host_b, r.host_e);
    c.port = r.port; c.portv = sv(r.port_b, r.path_b);
    c.path = sv(r.path_b, r.path_e);
    c.q = r.query; c.query = r.query ? sv(r.path_e + 1, r.query_e) : string_view();
    c.f = r.frag; c.frag = r.frag ? sv(r.query_e + 1, r.e) : string_view();
    c.host_type = r.host;
    return c;
}
static inline bool has(string_view s, char c)
{ for(std::size_t i = 0; i < s.size(); ++i) if(s[i] == c) return true; return false; }
static inline bool prefixed(string_view part, char c, string_view s)       // part == c + s
{ return part.size() == s.size() + 1 && part[0] == c && same(part.substr(1), s); }
static inline bool starts2(string_view s) { return s.size() >= 2 && s[0] == '/' && s[1] == '/'; }
// first segment contains a colon
static inline bool seg_colon(string_view s)
{ for(std::size_t i = 0; i < s.size(); ++i) { if(s[i] == '/') return false; if(s[i] == ':') return true; } return false; }
// may this path stand in this context?
static inline bool path_fits(bool scheme, bool auth, string_view p)
{
    if(p.empty()) return true;
    if(auth) return p[0] == '/';
    if(starts2(p)) return false;
    return scheme || ! seg_colon(p);
}
static inline bool good(string_view s, int extra) { return ref::chars(s.data(), s.data() + s.size(), extra); }
static inline std::size_t nsegs(string_view p)
{
    if(p.empty()) return 0;
    std::size_t n = p[0] == '/' ? 0 : 1;
    for(std::size_t i = 0; i < p.size(); ++i) if(p[i] == '/') ++n;
    return n;
}
static inline std::size_t nparams(bool q, string_view s)
{
    if(! q) return 0;
    std::size_t n = 1;
    for(std::size_t i = 0; i < s.size(); ++i) if(s[i] == '&') ++n;
    return n;
}
// s is the minimal percent-encoding of plain: literal characters as they
// are, all others as %XX with upper case digits
static inline bool is_encoding(string_view s, string_view plain, int extra)
{
    char const* p = s.data(); char const* e = p + s.size();
    for(std::size_t i = 0; i < plain.size(); ++i)
    {
        char c = plain[i];
        if(ref::lit(c, extra)) { if(p == e || *p != c) return false; ++p; }
        else
        {
            uc x = (uc)c;
            if(e - p < 3 || p[0] != '%') return false;
            if(p[1] != "0123456789ABCDEF"[x >> 4]) return false;
            if(p[2] != "0123456789ABCDEF"[x & 15]) return false;
            p += 3;
        }
    }
    return p == e;
}

// A start text with the outline of a whole URL: every combination of absent,
// empty and non-empty scheme, user, password, host, port with some paths,
// queries and fragments.
struct outline
{
    enum { N = 26 };
    unsigned long sc, au, ui, ho, po, pa, qu, fr, n; char* p; char tmp[N + 1];
    void draw()
    {
#ifdef VSMALL
        sc = nondet_choice(2); au = nondet_choice(2); ui = 6 * nondet_choice(2); ho = nondet_choice(2); po = 2 * nondet_choice(2);
        pa = nondet_choice(7); qu = 3 * nondet_choice(2); fr = 2 * nondet_choice(2);
#else
        sc = nondet_choice(2); au = nondet_choice(2); ui = nondet_choice(7); ho = nondet_choice(3); po = nondet_choice(3);
        pa = nondet_choice(7); qu = nondet_choice(4); fr = nondet_choice(3);
#endif
        p = nullptr;
    }
    template<unsigned long W>
    void add(char const (&t)[W], unsigned long i)       // item i of a table with items of 5 characters
    { for(unsigned long k = 0; k < 5; ++k) { char const c = t[i * 5 + k]; tmp[n] = c; n += c != 0; } }
    string_view view()
    {
        if(p) return string_view(p, n);
        n = 0;
        add("\0\0\0\0\0S:\0\0", sc);
        add("\0\0\0\0\0//\0\0", au);
        add("\0\0\0\0\0@\0\0\0\0u@\0\0\0:@\0\0\0u:@\0\0:p@\0\0u:p@", au ? ui : 0);
        add("\0\0\0\0\0h\0\0\0\0[::]", au ? ho : 0);
        add("\0\0\0\0\0:\0\0\0\0:1\0\0", au ? po : 0);
        add("\0\0\0\0\0/\0\0\0\0/x\0\0\0//x\0\0x\0\0\0\0x/y\0\0/x/y/", pa);
        add("\0\0\0\0\0?\0\0\0\0?q\0\0\0?q=v&", qu);
        add("\0\0\0\0\0#\0\0\0\0#f\0\0", fr);
        n = v_fork(n);
        p = static_cast<char*>(::operator new(n));
        for(unsigned long i = 0; i < n; ++i) p[i] = tmp[i];
        return string_view(p, n);
    }
};
#endif
