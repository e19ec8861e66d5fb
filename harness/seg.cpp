// Path segments of any valid URL of up to VN characters (VN 0: an outline):
// VOP 0 iteration; 1 erase one, 2 erase a range, 3 insert_encoded, 4 insert,
// 5 replace_encoded, 6 replace, at any position, with any argument of up to
// VM characters and an allocation that may fail.
// VK 1: the cases listed as known findings instead of the others.
#include "obs.hpp"
#ifndef VN
#define VN 5
#endif
#ifndef VM
#define VM 2
#endif
#ifndef VK
#define VK 0
#endif
#if VN == 0
static outline t;
enum { MAXSEG = 4 };
#else
static text<VN, VA> t;
enum { MAXSEG = VN };
#endif
static text<VM, VB> a;

// start of segment i (with its slash); the length of the path when i is the number of segments
static std::size_t seg_at(string_view p, std::size_t i)
{
    std::size_t k = 0;
    for(; i; --i) { if(k < p.size()) ++k; while(k < p.size() && p[k] != '/') ++k; }
    return k;
}
static string_view bare(string_view s) { return ! s.empty() && s[0] == '/' ? s.substr(1) : s; }
static string_view seg(string_view p, std::size_t i) { std::size_t const k = seg_at(p, i); return bare(p.substr(k, seg_at(p, i + 1) - k)); }

template<class S>
static void check_iteration(S const& s, string_view path)
{
    std::size_t const n = nsegs(path);
    v_assert(s.size() == n, "number of segments");
    v_assert(s.empty() == (n == 0), "empty");
    auto it = s.begin(); auto const last = s.end();
    std::size_t i = 0;
    for(; it != last; ++it, ++i)
    {
        v_assert(i < n, "more segments than the path has"); if(i >= n) return;
        v_assert(same((*it).encoded_string(), seg(path, i)), "segment");
        v_assert(is_decoding(it->string(), seg(path, i)), "plain segment");
    }
    v_assert(i == n, "fewer segments than the path has");
    while(i)
    {
        --i; --it;
        v_assert(same((*it).encoded_string(), seg(path, i)), "segment, backwards");
    }
    v_assert(it == s.begin(), "begin reached backwards");
}

extern "C" void harness()
{
    t.draw();
#if VOP
    a.draw();
    unsigned long i = nondet_choice(MAXSEG + 1), j = nondet_choice(MAXSEG + 1);
    unsigned long const roomy = nondet_choice(2);
    unsigned const fail = nondet_choice(2);
#endif
    g_fill = nondet_u8();
    string_view const s0 = t.view();
    ref::url r0; v_assume(ref::parse(r0, s0.data(), s0.data() + s0.size()));
    comp const c0 = of(r0);
#if VOP == 0
    if(nsegs(c0.path) > 1) v_reach("two segments");
    { u::url_view const v(s0); check_iteration(v.segments(), c0.path); }
    { url_t w; w.set_encoded_url(s0); check_iteration(w.segments(), c0.path); url_t const& k = w; check_iteration(k.segments(), c0.path); }
#else
    std::size_t const n = nsegs(c0.path);
    bool const rootless = n && c0.path[0] != '/';
    bool const insert = VOP == 3 || VOP == 4;
    if(insert) { v_assume(i <= n); } else { v_assume(i < n); }
    if(VOP == 2) { v_assume(i <= j && j <= n); } else j = insert ? i : i + 1;
    i = v_fork(i); j = v_fork(j);
    char* const apart = static_cast<char*>(::operator new(1)); (void)apart;
    std::size_t const o = seg_at(c0.path, i), o2 = seg_at(c0.path, j);
    string_view const head = c0.path.substr(0, o), tail = c0.path.substr(o2);
    bool const change = VOP > 2 || i != j;
    // known findings: editing before or at the first segment of a path without a
    // leading slash, and erasing leading segments in front of an empty one
    // when there is no authority
    bool const k2 = rootless && i == 0 && change;
    bool const k1 = VOP <= 2 && change && ! c0.auth && i == 0 && starts2(tail);
#if VK
    v_assume(k1 || k2);
#else
    v_assume(! k1 && ! k2);
#endif
    string_view const s = VOP > 2 ? a.view() : string_view();
    url_t w;
    if(v_fork(roomy)) w.set_encoded_url("0123456789012345678901234567890123456789012345678901234567890123");
    w.set_encoded_url(s0);
    std::size_t const cap0 = w.capacity();
    bool ok = true;
    if(VOP == 3 || VOP == 5) ok = good(s, ref::COLON | ref::AT);
    // without an authority a path cannot begin with "//"
    if(VOP > 2 && ! c0.auth && (head.empty() ? s.empty() && ! tail.empty() : head.size() == 1 && head[0] == '/')) ok = false;
    auto sg = w.segments();
    auto first = sg.begin(); for(std::size_t k = 0; k < i; ++k) ++first;
    auto last = first; for(std::size_t k = i; k < j; ++k) ++last;
    auto r = first;
    int out = 0;
    g_fail = (int)fail;
    try
    {
        switch(VOP)
        {
        case 1: r = sg.erase(first); break;
        case 2: r = sg.erase(first, last); break;
        case 3: r = sg.insert_encoded(first, s); break;
        case 4: r = sg.insert(first, s); break;
        case 5: r = sg.replace_encoded(first, s); break;
        default: r = sg.replace(first, s); break;
        }
    }
    catch(u::invalid_part const&) { out = 1; }
    catch(std::bad_alloc const&) { out = 2; }
    g_fail = 0;
    v_assert(w.data()[w.size()] == 0, "null terminated");
    v_assert(w.size() <= w.capacity() && w.encoded_url().size() == w.size(), "size");
    if(out)
    {
        v_assert(out == 2 || ! ok, "acceptable segment is accepted");
        v_assert(out == 1 || fail == 1, "bad_alloc only when an allocation fails");
        v_assert(same(w.encoded_url(), s0) && w.capacity() == cap0, "unchanged after an exception");
        v_assert(w.segments().size() == n && same(w.encoded_path(), c0.path) && same(w.encoded_query(), c0.query), "state unchanged after an exception");
        if(out == 2) v_reach("no memory"); else v_reach("refused");
        return;
    }
    v_assert(ok, "unacceptable segment is refused");
    v_reach("edited");
    // the path
    string_view const p = w.encoded_path();
    v_assert(p.size() >= head.size() + tail.size(), "length of the path");
    if(p.size() < head.size() + tail.size()) return;
    v_assert(same(p.substr(0, head.size()), head), "segments before");
    v_assert(same(p.substr(p.size() - tail.size()), tail), "segments after");
    string_view const m = p.substr(head.size(), p.size() - head.size() - tail.size());
    if(VOP <= 2) v_assert(m.empty(), "erased");
    else
    {
        v_assert(! m.empty() && m[0] == '/', "slash");
        if(VOP == 3 || VOP == 5) v_assert(same(bare(m), s), "encoded segment"); else v_assert(is_encoding(bare(m), s, ref::COLON | ref::AT), "segment is encoded");
    }
    v_assert(w.segments().size() == n - (j - i) + (VOP > 2 ? 1 : 0), "number of segments");
    v_assert(w.segments().size() == nsegs(p), "number of segments of the path");
    // everything else
    v_assert(same(w.scheme(), c0.scheme) && w.has_authority() == c0.auth && same(w.encoded_user(), c0.user) && same(w.encoded_password(), c0.pass), "scheme and userinfo");
    v_assert(same(w.encoded_host(), c0.host) && same(w.port(), c0.portv) && (int)w.host_type() == c0.host_type, "host and port");
    v_assert(same(w.encoded_query(), c0.query) && w.query_part().empty() == ! c0.q, "query");
    v_assert(same(w.encoded_fragment(), c0.frag) && w.fragment_part().empty() == ! c0.f, "fragment");
    v_assert(w.params().size() == nparams(c0.q, c0.query), "number of parameters");
    { ref::url q; bool const valid = ref::parse(q, w.data(), w.data() + w.size()); v_assert(valid, "the text is a valid URL");
      v_assert(q.auth == c0.auth && (q.scheme_e != nullptr) == c0.hs && q.path_e - q.path_b == (long)p.size(), "the text reads back the same"); }
    // the iterator refers to what follows the change
    if(j == n) v_assert(r == w.segments().end(), "iterator at the end");
    else
    {
        v_assert(r != w.segments().end(), "iterator not at the end");
        v_assert(same((*r).encoded_string(), seg(tail, 0)), "iterator at the segment that follows");
    }
#endif
}
