// The static pool: any sequence of VN requests (types of 1, 2, 4, 8 and 16
// byte alignment; any number of elements) on a buffer of up to VL-1 bytes at
// VS alignments.  VOP 1: decoded strings held in a pool.
#include "obs.hpp"
#ifndef VN
#define VN 3
#endif
#ifndef VOP
#define VOP 0
#endif
#ifndef VL
#define VL 18
#endif
#ifndef VS
#define VS 16
#endif
#if VOP == 0
struct alignas(16) a16 { char c[16]; };
struct c3 { char c[3]; };
template<class T>
static char* get(u::basic_static_pool& p, unsigned long n) { typename u::basic_static_pool::allocator_type<T> a(p.allocator()); return reinterpret_cast<char*>(a.allocate(n)); }
extern "C" void harness()
{
    // number of elements: 0..VL-1, or one of those whose size in bytes wraps around
    unsigned long size = nondet_choice(VL), shift = nondet_choice(VS);
    unsigned long kind[VN], num[VN];
    for(unsigned i = 0; i < VN; ++i)
    {
        kind[i] = nondet_choice(6);
        unsigned long const k = nondet_choice(VL + 8);
        static unsigned long const big[] = { ~0ul, ~0ul - 7, 1ul << 63, (1ul << 63) + 1, 1ul << 62, 1ul << 60, (1ul << 60) + 1, ~0ul / 3 + 1 };
        num[i] = k < VL ? k : big[k - VL];
    }
    shift = v_fork(shift); size = v_fork(size);
    char* const raw = static_cast<char*>(::operator new(64));       // 16 byte aligned
    char* const b = raw + shift; char* const e = b + size;
    u::basic_static_pool pool(b, size);
    char* last = b;                                                  // end of what has been handed out
    for(unsigned i = 0; i < VN; ++i)
    {
        static unsigned long const sz[] = { 1, 2, 4, 8, 16, 3 }, al[] = { 1, 2, 4, 8, 16, 1 };
        unsigned long const k = v_fork(kind[i]), n = num[i];
        char* p = nullptr; bool full = false;
        try
        {
            switch(k) { case 0: p = get<char>(pool, n); break; case 1: p = get<short>(pool, n); break; case 2: p = get<int>(pool, n); break;
                case 3: p = get<long>(pool, n); break; case 4: p = get<a16>(pool, n); break; default: p = get<c3>(pool, n); break; }
        }
        catch(std::bad_alloc const&) { full = true; }
        // room left after aligning
        unsigned long const top = (unsigned long)(last - raw), q = (top + al[k] - 1) / al[k] * al[k];
        unsigned long const room = q <= shift + size ? shift + size - q : 0;
        bool const fits = q <= shift + size && n <= room / sz[k];
        v_assert(full == ! fits, "a request succeeds exactly when it fits");
        if(full) { v_reach("full"); continue; }
        v_reach("served");
        v_assert(p >= last && p <= e, "inside of the buffer, after earlier blocks");
        v_assert(n <= (unsigned long)(e - p) / sz[k], "the end is inside of the buffer");
        v_assert(((unsigned long)(p - raw)) % al[k] == 0, "aligned");
        last = p + n * sz[k];
    }
}
#else
// "//" host of 16 to 18 characters, some of them arbitrary, decoded into a pool
static text<VN, VA> t;
template<unsigned long P>
static void run(u::url_view const& v, comp const& c)
{
    u::static_pool<P> pool; bool full = false;
    try
    {
        auto const a = v.host(pool.allocator());
        v_assert(is_decoding(a, c.host), "first string");
        auto const b = v.query(pool.allocator());
        v_assert(is_decoding(b, c.query), "second string");
        v_assert(is_decoding(a, c.host), "first string is intact");
        v_reach("decoded");
    }
    catch(std::bad_alloc const&) { full = true; }
    std::size_t n = 0; { string_view h = c.host; for(std::size_t i = 0; i < h.size(); ++i) if(h[i] != '%') ++n; else { i += 2; ++n; } }
    if(P >= 128) v_assert(! full, "large enough");
    if(P < 16) v_assert(full || n <= 15, "too small");
}
extern "C" void harness()
{
    t.draw();
    string_view const s = t.view();
    v_assume(good(s, ref::REG));
    char* const p = static_cast<char*>(::operator new(2 + 14 + s.size() + 1 + 16 + s.size())); char* d = p;
    *d++ = '/'; *d++ = '/'; for(int i = 0; i < 14; ++i) *d++ = 'h'; for(std::size_t i = 0; i < s.size(); ++i) *d++ = s[i];
    *d++ = '?'; for(int i = 0; i < 16; ++i) *d++ = 'q'; for(std::size_t i = 0; i < s.size(); ++i) *d++ = s[i];
    ref::url r; v_assume(ref::parse(r, p, d));
    u::url_view const v(sv(p, d));
    run<128>(v, of(r)); run<8>(v, of(r));
}
#endif
