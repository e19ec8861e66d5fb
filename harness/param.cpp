// Query parameters of any valid URL: VOP 0 iteration over a URL of up to VN
// characters (VN 0: an outline); 1, 2 look-up of any key of up to VM
// characters in "?" followed by any query of up to VN characters and a
// fragment (1 view, 2 container).
#include "obs.hpp"
#ifndef VN
#define VN 5
#endif
#ifndef VM
#define VM 2
#endif
#if VOP == 0 && VN == 0
static outline t;
#else
static text<VN, VA> t;
#endif
static text<VM, VB> a;

// the first parameter of q; q becomes the rest
struct par { string_view key, value; bool last; };
static par next(string_view& q)
{
    std::size_t k = 0; while(k < q.size() && q[k] != '&') ++k;
    string_view const s = q.substr(0, k);
    std::size_t m = 0; while(m < s.size() && s[m] != '=') ++m;
    par r; r.key = s.substr(0, m); r.value = m < s.size() ? s.substr(m + 1) : string_view(); r.last = k == q.size();
    q = r.last ? string_view() : q.substr(k + 1);
    return r;
}
static par nth(string_view q, std::size_t i) { par r = next(q); for(; i; --i) r = next(q); return r; }

template<class P>
static void check_iteration(P const& s, bool has, string_view query)
{
    std::size_t const n = nparams(has, query);
    v_assert(s.size() == n, "number of parameters");
    v_assert(s.empty() == (n == 0), "empty");
    auto it = s.begin(); auto const last = s.end();
    std::size_t i = 0;
    for(; it != last; ++it, ++i)
    {
        v_assert(i < n, "more parameters than the query has"); if(i >= n) return;
        par const p = nth(query, i);
        v_assert(same((*it).encoded_key(), p.key), "key");
        v_assert(same((*it).encoded_value(), p.value), "value");
        v_assert(is_decoding(it->key(), p.key), "plain key");
        v_assert(is_decoding(it->value(), p.value), "plain value");
    }
    v_assert(i == n, "fewer parameters than the query has");
    while(i)
    {
        --i; --it;
        par const p = nth(query, i);
        v_assert(same((*it).encoded_key(), p.key) && same((*it).encoded_value(), p.value), "parameter, backwards");
    }
    v_assert(it == s.begin(), "begin reached backwards");
}
template<class P>
static void check_lookup(P const& s, string_view query, string_view key)
{
    std::size_t const n = nparams(true, query);
    std::size_t hits = 0, first = n; par hit; hit.last = false;
    { string_view q = query; for(std::size_t i = 0; i < n; ++i) { par const p = next(q); if(is_decoding(key, p.key)) { if(! hits) { first = i; hit = p; } ++hits; } } }
    v_assert(s.count(key) == hits, "count");
    v_assert(s.contains(key) == (hits != 0), "contains");
    auto const f = s.find(key);
    bool thrown = false;
    if(hits == 0)
    {
        v_assert(f == s.end(), "find: nothing");
        v_assert(s[key].empty(), "[]: nothing");
        try { (void)s.at(key); } catch(u::out_of_range const&) { thrown = true; }
        v_assert(thrown, "at: throws when there is none");
        v_reach("absent");
        return;
    }
    v_reach("present");
    v_assert(f != s.end(), "find: something");
    auto it = s.begin(); for(std::size_t i = 0; i < first; ++i) ++it;
    v_assert(f == it, "find: the first one");
    v_assert(same((*f).encoded_value(), hit.value), "find: its value");
    v_assert(is_decoding(s[key], hit.value), "[]: its plain value");
    try { v_assert(is_decoding(s.at(key), hit.value), "at: its plain value"); } catch(u::out_of_range const&) { thrown = true; }
    v_assert(! thrown, "at: does not throw when there is one");
}
extern "C" void harness()
{
    t.draw();
    g_fill = nondet_u8();
#if VOP == 0
    string_view const s0 = t.view();
    ref::url r0; v_assume(ref::parse(r0, s0.data(), s0.data() + s0.size()));
    comp const c0 = of(r0);
    if(nparams(c0.q, c0.query) > 1) v_reach("two parameters");
    { u::url_view const v(s0); check_iteration(v.params(), c0.q, c0.query); }
    { url_t w; w.set_encoded_url(s0); check_iteration(w.params(), c0.q, c0.query); url_t const& k = w; check_iteration(k.params(), c0.q, c0.query); }
#else
    a.draw();
    string_view const q = t.view(), key = a.view();
    v_assume(good(q, ref::COLON | ref::AT | ref::SLASH | ref::QMARK));
    char* const p = static_cast<char*>(::operator new(q.size() + 4));
    p[0] = '/'; p[1] = '?'; for(std::size_t i = 0; i < q.size(); ++i) p[2 + i] = q[i];
    p[q.size() + 2] = '#'; p[q.size() + 3] = 'a';
    string_view const s(p, q.size() + 4);
#if VOP == 1
    u::url_view const v(s); check_lookup(v.params(), q, key);
#else
    url_t w; w.set_encoded_url(s); check_lookup(w.params(), q, key);
#endif
#endif
}
