// Minimal ROBDD package with complement edges.  Used as the normal form of
// path conditions and guards inside the symbolic executor.
#pragma once
#include <cstdint>
#include <vector>
#include <unordered_map>
#include <stdexcept>
typedef uint32_t B;               // (node << 1) | complement
static const B T = 0, F = 1;      // node 0 is the terminal
static inline B Not(B a) { return a ^ 1; }

struct BddMgr
{
    struct Node { uint32_t var, lo, hi; };
    std::vector<Node> n;
    std::vector<uint32_t> uniq; size_t umask, ucount = 0;
    struct CE { B a, b, r; };
    std::vector<CE> cache; size_t cmask;
    uint32_t nvars = 0;
    size_t limit = 60u * 1000 * 1000;

    BddMgr()
    {
        n.push_back({0xffffffffu, 0, 0});
        uniq.assign(1 << 16, 0); umask = uniq.size() - 1;
        cache.assign(1 << 20, CE{0xffffffffu, 0, 0}); cmask = cache.size() - 1;
    }
    static size_t h3(uint32_t a, uint32_t b, uint32_t c)
    {
        uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xBF58476D1CE4E5B9ull ^ (c + 0x1234567ull) * 0x94D049BB133111EBull;
        x ^= x >> 31; return size_t(x * 0xD6E8FEB86659FD93ull >> 20);
    }
    uint32_t var(B a) const { return n[a >> 1].var; }
    B lo(B a) const { return n[a >> 1].lo ^ (a & 1); }
    B hi(B a) const { return n[a >> 1].hi ^ (a & 1); }
    void grow()
    {
        std::vector<uint32_t> u(uniq.size() * 2, 0); size_t m = u.size() - 1;
        for(uint32_t i = 1; i < n.size(); ++i)
        {
            size_t h = h3(n[i].var, n[i].lo, n[i].hi) & m;
            while(u[h]) h = (h + 1) & m;
            u[h] = i;
        }
        uniq.swap(u); umask = m;
        if(cache.size() < (1u << 23) && cache.size() < n.size())
        { cache.assign(cache.size() * 4, CE{0xffffffffu, 0, 0}); cmask = cache.size() - 1; }
    }
    B mk(uint32_t v, B l, B h)
    {
        if(l == h) return l;
        if(h & 1) return Not(mk(v, Not(l), Not(h)));
        size_t k = h3(v, l, h) & umask;
        while(uniq[k])
        {
            auto& x = n[uniq[k]];
            if(x.var == v && x.lo == l && x.hi == h) return uniq[k] << 1;
            k = (k + 1) & umask;
        }
        if(n.size() >= limit) throw std::runtime_error("BDD node limit");
        n.push_back({v, l, h});
        uniq[k] = (uint32_t)n.size() - 1;
        if(++ucount * 2 > uniq.size()) grow();
        return ((uint32_t)n.size() - 1) << 1;
    }
    uint32_t newVar() { return nvars++; }
    B ithVar(uint32_t v) { return mk(v, F, T); }
    B And(B a, B b)
    {
        if(a == F || b == F || a == Not(b)) return F;
        if(a == T) return b;
        if(b == T || a == b) return a;
        if(a > b) { B t = a; a = b; b = t; }
        size_t k = h3(a, b, 77) & cmask;
        if(cache[k].a == a && cache[k].b == b) return cache[k].r;
        uint32_t va = var(a), vb = var(b), v = va < vb ? va : vb;
        B al = va == v ? lo(a) : a, ah = va == v ? hi(a) : a;
        B bl = vb == v ? lo(b) : b, bh = vb == v ? hi(b) : b;
        B l = And(al, bl), h = And(ah, bh);
        B r = mk(v, l, h);
        cache[h3(a, b, 77) & cmask] = {a, b, r};
        return r;
    }
    B Or(B a, B b) { return Not(And(Not(a), Not(b))); }
    B Xor(B a, B b) { return Or(And(a, Not(b)), And(Not(a), b)); }
    B Ite(B f, B g, B h)
    {
        if(f == T) return g;
        if(f == F) return h;
        if(g == h) return g;
        return Or(And(f, g), And(Not(f), h));
    }
    size_t sizeOf(B f)
    {
        std::unordered_map<uint32_t, bool> seen; std::vector<uint32_t> st{f >> 1};
        while(! st.empty()) { uint32_t x = st.back(); st.pop_back(); if(! x || seen[x]) continue; seen[x] = true; st.push_back(n[x].lo >> 1); st.push_back(n[x].hi >> 1); }
        return seen.size();
    }
    bool disjoint(B a, B b) { return And(a, b) == F; }
};
