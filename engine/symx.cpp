// symx: merging symbolic executor for LLVM IR, deciding assertions with Z3.
//
//   symx module.bc entry out.json [-time S] [-z3ms MS] [-iters K]
//
// One forward pass executes the entry point on symbolic inputs.  States are
// merged at control flow joins; a value is a set of guarded alternatives
// (constants, pointers, functions of one input byte, bit-vector terms).
// Guards and path conditions are kept as BDDs over the input bits and over
// atoms standing for bit-vector predicates; every assertion becomes the
// query  path /\ ~property  which Z3 decides.
#include "bdd.h"
#include <z3++.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <bitset>
#include <unistd.h>
#include <tuple>
#include <map>
#include <set>
#include <unordered_map>
#include <vector>
#include <string>
#include <memory>
#include <chrono>
#include <cstring>
#include <cstdio>
#include <functional>
#include <stdexcept>
using llvm::Instruction; using llvm::Type; using llvm::BasicBlock; using llvm::dyn_cast; using llvm::cast; using llvm::isa;
using llvm::CallBase; using llvm::GlobalVariable; using llvm::Constant; using llvm::APInt;
typedef llvm::Value LV;
using std::string; using std::vector; using std::shared_ptr;
typedef uint64_t u64; typedef int64_t s64;

struct EngineError : std::runtime_error { using runtime_error::runtime_error; };
[[noreturn]] static void fail(const string& m, const LV* v = nullptr)
{
    string d = m;
    if(v) { llvm::raw_string_ostream os(d); os << " at: "; v->print(os); }
    throw EngineError(d);
}

static BddMgr bm;
static inline B And(B a, B b) { return bm.And(a, b); }
static inline B Or(B a, B b) { return bm.Or(a, b); }
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline s64 sext(u64 v, unsigned w) { return w >= 64 ? (s64)v : ((s64)(v << (64 - w)) >> (64 - w)); }

// ------------------------------------------------------------------ leaves
enum LK : uint8_t { CONST, PTR, FN1, PTRF, EXPR, VAR, BITS };   // BITS: one BDD per bit
enum XOP { X_ADD = 1, X_SUB, X_MUL, X_UDIV, X_UREM, X_SDIV, X_SREM, X_AND, X_OR, X_XOR, X_SHL, X_LSHR, X_ASHR, X_ZEXT, X_SEXT, X_TRUNC, X_CONCAT, X_EXTRACT };
struct Leaf
{
    LK k; uint8_t w; uint8_t op = 0; int obj = -1; int byte = -1; u64 c = 0;
    const u64* tab = nullptr; int nd = 0; const Leaf *a = nullptr, *b = nullptr; uint32_t id = 0;
};
typedef const Leaf* L;
static vector<Leaf*> allLeaves;
struct LKey
{
    LK k; uint8_t w, op; int obj, byte; u64 c; const void* t; L a, b;
    bool operator==(const LKey& o) const { return k == o.k && w == o.w && op == o.op && obj == o.obj && byte == o.byte && c == o.c && t == o.t && a == o.a && b == o.b; }
};
struct LKeyH { size_t operator()(const LKey& k) const {
    u64 h = k.k * 31 + k.w; auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
    mix(k.op); mix(k.obj); mix(k.byte); mix(k.c); mix((u64)k.t); mix((u64)k.a); mix((u64)k.b); return h; } };
static std::unordered_map<LKey, L, LKeyH> leafTab;
static L intern(LK k, uint8_t w, uint8_t op, int obj, int byte, u64 c, const u64* tab, L a, L b)
{
    LKey key{k, w, op, obj, byte, c, tab, a, b};
    auto it = leafTab.find(key);
    if(it != leafTab.end()) return it->second;
    auto* l = new Leaf; l->k = k; l->w = w; l->op = op; l->obj = obj; l->byte = byte; l->c = c; l->tab = tab; l->a = a; l->b = b;
    l->id = allLeaves.size(); allLeaves.push_back(l);
    if(k == FN1) { std::set<u64> s(tab, tab + 256); l->nd = s.size(); }
    leafTab[key] = l;
    return l;
}
static L cst(unsigned w, u64 v) { return intern(CONST, w, 0, -1, -1, v & maskw(w), nullptr, nullptr, nullptr); }
static L ptrl(int obj, u64 off) { return intern(PTR, 64, 0, obj, -1, off, nullptr, nullptr, nullptr); }
static std::set<vector<u64>> tabSet;
static L fn1(unsigned w, int byte, const u64* t)
{
    vector<u64> v(t, t + 256); bool same = true;
    for(auto& x : v) { x &= maskw(w); if(x != v[0]) same = false; }
    if(same) return cst(w, v[0]);
    auto it = tabSet.insert(std::move(v)).first;
    return intern(FN1, w, 0, -1, byte, 0, it->data(), nullptr, nullptr);
}
static L ptrf(int obj, L f) { if(f->k == CONST) return ptrl(obj, f->c); return intern(PTRF, 64, 0, obj, -1, 0, nullptr, f, nullptr); }
static vector<vector<B>> bitVecs; static std::map<vector<B>, int> bitVecIx;
static L bitsLeaf(const vector<B>& v)
{
    bool k = true; u64 c = 0; for(size_t i = 0; i < v.size(); ++i) { if(v[i] == T) c |= 1ull << i; else if(v[i] != F) k = false; }
    if(k) return cst(v.size(), c);
    auto it = bitVecIx.find(v); if(it == bitVecIx.end()) { it = bitVecIx.emplace(v, (int)bitVecs.size()).first; bitVecs.push_back(v); }
    return intern(BITS, v.size(), 0, -1, it->second, 0, nullptr, nullptr, nullptr);
}
static L expr(unsigned op, unsigned w, L a, L b = nullptr, u64 c = 0) { return intern(EXPR, w, op, -1, -1, c, nullptr, a, b); }

// ------------------------------------------------------------------ inputs
static vector<vector<B>> byteBits;           // per symbolic byte: 8 bits (lsb first)
struct Input { int kind; int ix; unsigned w; unsigned n; vector<uint32_t> vars; };  // 0 byte, 1 var, 2 choice
static vector<Input> inputs;
static vector<unsigned> varWidth;            // VAR leaves
static std::map<std::pair<int, vector<bool>>, B> setCache;
static B setRec(int byte, const std::bitset<256>& m, int bit, int base)
{
    int span = 1 << (bit + 1);
    bool all = true, none = true;
    for(int i = base; i < base + span; ++i) { if(m[i]) none = false; else all = false; }
    if(all) return T;
    if(none) return F;
    B lo = setRec(byte, m, bit - 1, base), hi = setRec(byte, m, bit - 1, base + span / 2);
    return bm.Ite(byteBits[byte][bit], hi, lo);
}
struct BSKey { int byte; std::bitset<256> m; bool operator==(const BSKey& o) const { return byte == o.byte && m == o.m; } };
struct BSH { size_t operator()(const BSKey& k) const { return std::hash<std::bitset<256>>()(k.m) * 31 + k.byte; } };
static std::unordered_map<BSKey, B, BSH> bsCache;
static B setBdd(int byte, const std::bitset<256>& m)
{
    auto it = bsCache.find({byte, m});
    if(it != bsCache.end()) return it->second;
    B r = setRec(byte, m, 7, 0);
    bsCache[{byte, m}] = r;
    return r;
}

// ------------------------------------------------------------------ objects
struct ObjInfo { string name; u64 base; u64 size; bool isConst; const llvm::Function* fn = nullptr; const GlobalVariable* gv = nullptr; };
static vector<ObjInfo> objs;
static std::map<u64, int> byAddr;
static u64 nextAddr = 0x100000;
static int newObj(const string& name, u64 size, bool isConst)
{
    ObjInfo o; o.name = name; o.size = size; o.isConst = isConst;
    o.base = nextAddr; nextAddr += ((size + 0x2000) & ~0xfffull);
    objs.push_back(o); byAddr[o.base] = objs.size() - 1;
    return objs.size() - 1;
}
static u64 addrOf(L l) { return objs[l->obj].base + l->c; }
static L leafFromAddr(u64 a)
{
    auto it = byAddr.upper_bound(a);
    if(it == byAddr.begin()) return cst(64, a);
    --it;
    auto& o = objs[it->second];
    if(a <= o.base + o.size + 0x400) return ptrl(it->second, a - o.base);
    return cst(64, a);
}
static L asInt(L l) // drop provenance
{
    if(l->k == PTR) return cst(64, addrOf(l));
    if(l->k == PTRF) { u64 t[256]; for(int i = 0; i < 256; ++i) t[i] = objs[l->obj].base + l->a->tab[i]; return fn1(64, l->a->byte, t); }
    return l;
}

// ------------------------------------------------------------------ leaf operations
static u64 foldBin(unsigned op, unsigned w, u64 a, u64 b)
{
    switch(op)
    {
    case X_ADD: return a + b; case X_SUB: return a - b; case X_MUL: return a * b;
    case X_UDIV: return b ? a / b : 0; case X_UREM: return b ? a % b : 0;
    case X_SDIV: return b ? (sext(b, w) == -1 ? -a : (u64)(sext(a, w) / sext(b, w))) : 0;
    case X_SREM: return b ? (sext(b, w) == -1 ? 0 : (u64)(sext(a, w) % sext(b, w))) : 0;
    case X_AND: return a & b; case X_OR: return a | b; case X_XOR: return a ^ b;
    case X_SHL: return b >= w ? 0 : a << b; case X_LSHR: return b >= w ? 0 : a >> b;
    case X_ASHR: return (u64)(sext(a, w) >> (b >= w ? w - 1 : b));
    }
    fail("foldBin");
}
static L leafBin(unsigned op, unsigned w, L a, L b)
{
    if(a->k == CONST && b->k == CONST) return cst(w, foldBin(op, w, a->c, b->c));
    if(a->k == PTR || a->k == PTRF || b->k == PTR || b->k == PTRF)
    {
        if(op == X_ADD)
        {
            if(b->k == PTR || b->k == PTRF) std::swap(a, b);
            if(a->k == PTR && b->k == CONST) return ptrl(a->obj, a->c + b->c);
            if(a->k == PTR && b->k == FN1) { u64 t[256]; for(int i = 0; i < 256; ++i) t[i] = a->c + b->tab[i]; return ptrf(a->obj, fn1(64, b->byte, t)); }
            if(a->k == PTRF && b->k == CONST) { u64 t[256]; for(int i = 0; i < 256; ++i) t[i] = a->a->tab[i] + b->c; return ptrf(a->obj, fn1(64, a->a->byte, t)); }
        }
        if(op == X_SUB)
        {
            if(a->k == PTR && b->k == PTR && a->obj == b->obj) return cst(64, a->c - b->c);
            if(a->k == PTR && b->k == CONST) return ptrl(a->obj, a->c - b->c);
        }
        return leafBin(op, w, asInt(a), asInt(b));
    }
    if(a->k == FN1 && b->k == CONST) { u64 t[256]; for(int i = 0; i < 256; ++i) t[i] = foldBin(op, w, a->tab[i], b->c); return fn1(w, a->byte, t); }
    if(a->k == CONST && b->k == FN1) { u64 t[256]; for(int i = 0; i < 256; ++i) t[i] = foldBin(op, w, a->c, b->tab[i]); return fn1(w, b->byte, t); }
    if(a->k == FN1 && b->k == FN1 && a->byte == b->byte) { u64 t[256]; for(int i = 0; i < 256; ++i) t[i] = foldBin(op, w, a->tab[i], b->tab[i]); return fn1(w, a->byte, t); }
    // small algebra
    if(b->k == CONST)
    {
        u64 c = b->c;
        if(c == 0 && (op == X_ADD || op == X_SUB || op == X_OR || op == X_XOR || op == X_SHL || op == X_LSHR || op == X_ASHR)) return a;
        if(c == 0 && (op == X_AND || op == X_MUL)) return b;
        if(c == 1 && (op == X_MUL || op == X_UDIV)) return a;
        if(c == maskw(w) && op == X_AND) return a;
        if(op == X_SUB) return leafBin(X_ADD, w, a, cst(w, 0 - c));
        if(op == X_ADD && a->k == EXPR && a->op == X_ADD && a->b->k == CONST) return leafBin(X_ADD, w, a->a, cst(w, a->b->c + c));
    }
    if(a->k == CONST && (op == X_ADD || op == X_MUL || op == X_AND || op == X_OR || op == X_XOR)) return leafBin(op, w, b, a);
    if(a == b && (op == X_SUB || op == X_XOR)) return cst(w, 0);
    if(a == b && (op == X_AND || op == X_OR)) return a;
    if((op == X_ADD || op == X_MUL || op == X_AND || op == X_OR || op == X_XOR) && b->k != CONST && a->id > b->id) std::swap(a, b);
    return expr(op, w, a, b);
}
static L leafCast(unsigned op, unsigned w, L a)
{
    if(a->w == w) return a;
    if(a->k == PTR || a->k == PTRF) a = asInt(a);
    auto f = [&](u64 v) { return op == X_SEXT ? (u64)sext(v, a->w) : v; };
    if(a->k == CONST) return cst(w, f(a->c));
    if(a->k == FN1) { u64 t[256]; for(int i = 0; i < 256; ++i) t[i] = f(a->tab[i]); return fn1(w, a->byte, t); }
    if(a->k == EXPR && op == X_TRUNC && (a->op == X_ZEXT || a->op == X_SEXT))
    {
        if(a->a->w == w) return a->a;
        if(a->a->w > w) return leafCast(X_TRUNC, w, a->a);
        return leafCast(a->op, w, a->a);
    }
    if(a->k == EXPR && op == X_ZEXT && a->op == X_ZEXT) return leafCast(X_ZEXT, w, a->a);
    if(a->k == EXPR && op == X_TRUNC && (a->op == X_ADD || a->op == X_SUB || a->op == X_MUL || a->op == X_AND || a->op == X_OR || a->op == X_XOR))
        return leafBin(a->op, w, leafCast(X_TRUNC, w, a->a), leafCast(X_TRUNC, w, a->b));
    return expr(op, w, a);
}
static L leafByte(L a, unsigned i) // i-th byte (little endian)
{
    if(a->w == 8) return a;
    if(a->k == PTR || a->k == PTRF) a = asInt(a);
    return leafCast(X_TRUNC, 8, leafBin(X_LSHR, a->w, a, cst(a->w, 8 * i)));
}
static L leafConcat(L hi, L lo)
{
    unsigned w = hi->w + lo->w;
    return leafBin(X_OR, w, leafBin(X_SHL, w, leafCast(X_ZEXT, w, hi), cst(w, lo->w)), leafCast(X_ZEXT, w, lo));
}

// bit-blasting to BDDs (fails on multiplication/division by non constants and on VARs)
static std::unordered_map<L, vector<B>> bitsMemo;
static bool blastable(L l)
{
    switch(l->k)
    {
    case CONST: case FN1: case PTR: case PTRF: case BITS: return true;
    case VAR: return false;
    case EXPR:
        if(l->op == X_MUL && l->b->k != CONST) return false;
        if(l->op == X_UDIV || l->op == X_UREM || l->op == X_SDIV || l->op == X_SREM) return false;
        if((l->op == X_SHL || l->op == X_LSHR || l->op == X_ASHR) && l->b->k != CONST) return false;
        return blastable(l->a) && (! l->b || blastable(l->b));
    }
    return false;
}
static vector<B> addBits(const vector<B>& a, const vector<B>& b, B cin)
{
    vector<B> r; B c = cin;
    for(size_t i = 0; i < a.size(); ++i)
    {
        B x = bm.Xor(a[i], b[i]);
        r.push_back(bm.Xor(x, c));
        c = Or(And(a[i], b[i]), And(x, c));
    }
    return r;
}
static const vector<B>& bits(L l)
{
    auto it = bitsMemo.find(l);
    if(it != bitsMemo.end()) return it->second;
    vector<B> r;
    if(l->k == PTR || l->k == PTRF) { auto x = bits(asInt(l)); return bitsMemo[l] = x; }
    if(l->k == BITS) r = bitVecs[l->byte];
    else if(l->k == CONST) for(unsigned i = 0; i < l->w; ++i) r.push_back((l->c >> i) & 1 ? T : F);
    else if(l->k == FN1)
        for(unsigned i = 0; i < l->w; ++i) { std::bitset<256> m; for(int v = 0; v < 256; ++v) m[v] = (l->tab[v] >> i) & 1; r.push_back(setBdd(l->byte, m)); }
    else
    {
        auto A = bits(l->a); vector<B> Bv; if(l->b) Bv = bits(l->b);
        unsigned w = l->w;
        switch(l->op)
        {
        case X_ADD: r = addBits(A, Bv, F); break;
        case X_SUB: for(auto& x : Bv) x = Not(x); r = addBits(A, Bv, T); break;
        case X_MUL:
        {
            r.assign(w, F);
            for(unsigned i = 0; i < w; ++i) if((l->b->c >> i) & 1)
            {
                vector<B> s(w, F); for(unsigned j = i; j < w; ++j) s[j] = A[j - i];
                r = addBits(r, s, F);
            }
            break;
        }
        case X_AND: for(unsigned i = 0; i < w; ++i) r.push_back(And(A[i], Bv[i])); break;
        case X_OR: for(unsigned i = 0; i < w; ++i) r.push_back(Or(A[i], Bv[i])); break;
        case X_XOR: for(unsigned i = 0; i < w; ++i) r.push_back(bm.Xor(A[i], Bv[i])); break;
        case X_SHL: for(unsigned i = 0; i < w; ++i) r.push_back(i >= l->b->c ? A[i - l->b->c] : F); break;
        case X_LSHR: for(unsigned i = 0; i < w; ++i) r.push_back(i + l->b->c < w ? A[i + l->b->c] : F); break;
        case X_ASHR: for(unsigned i = 0; i < w; ++i) r.push_back(i + l->b->c < w ? A[i + l->b->c] : A[w - 1]); break;
        case X_ZEXT: r = A; r.resize(w, F); break;
        case X_SEXT: r = A; r.resize(w, A.back()); break;
        case X_TRUNC: r.assign(A.begin(), A.begin() + w); break;
        default: fail("bits");
        }
    }
    return bitsMemo[l] = r;
}

// ------------------------------------------------------------------ Z3
static z3::context& zc() { static z3::context c; return c; }
static std::unordered_map<uint32_t, unsigned> atomOf;         // bdd var -> atom index
static vector<z3::expr> atoms;
static std::unordered_map<L, unsigned> zleafIx; static vector<z3::expr> zleaves;
static double z3time; static u64 z3queries, z3sat, z3unsat, z3unknown; static unsigned z3ms = 120000;
static z3::expr zbit(uint32_t v) { return zc().bool_const(("x" + std::to_string(v)).c_str()); }
static z3::expr zb(B f);
static z3::expr zleaf(L l)
{
    auto it = zleafIx.find(l);
    if(it != zleafIx.end()) return zleaves[it->second];
    z3::expr r(zc());
    auto& c = zc();
    switch(l->k)
    {
    case CONST: r = c.bv_val((uint64_t)l->c, l->w); break;
    case PTR: r = c.bv_val((uint64_t)addrOf(l), 64); break;
    case PTRF: r = zleaf(asInt(l)); break;
    case BITS:
    {
        auto& v = bitVecs[l->byte]; r = z3::ite(zb(v.back()), c.bv_val(1, 1), c.bv_val(0, 1));
        for(int i = (int)v.size() - 2; i >= 0; --i) r = z3::concat(r, z3::ite(zb(v[i]), c.bv_val(1, 1), c.bv_val(0, 1)));
        break;
    }
    case VAR: r = c.bv_const(("V" + std::to_string(l->byte)).c_str(), l->w); break;
    case FN1:
    {
        // bit i of the byte is the boolean input of that bit
        z3::expr b = c.bv_const(("b" + std::to_string(l->byte)).c_str(), 8);
        bool id = true; for(int i = 0; i < 256; ++i) if(l->tab[i] != (u64)i) id = false;
        if(id) { r = l->w == 8 ? b : l->w > 8 ? z3::zext(b, l->w - 8) : b.extract(l->w - 1, 0); break; }
        r = c.bv_val((uint64_t)l->tab[255], l->w);
        for(int i = 254; i >= 0; --i) if(l->tab[i] != l->tab[i + 1]) r = z3::ite(z3::ule(b, c.bv_val(i, 8)), c.bv_val((uint64_t)l->tab[i], l->w), r);
        break;
    }
    case EXPR:
    {
        z3::expr a = zleaf(l->a); z3::expr b(c); if(l->b) b = zleaf(l->b);
        switch(l->op)
        {
        case X_ADD: r = a + b; break; case X_SUB: r = a - b; break; case X_MUL: r = a * b; break;
        case X_UDIV: r = z3::udiv(a, b); break; case X_UREM: r = z3::urem(a, b); break;
        case X_SDIV: r = a / b; break; case X_SREM: r = z3::srem(a, b); break;
        case X_AND: r = a & b; break; case X_OR: r = a | b; break; case X_XOR: r = a ^ b; break;
        case X_SHL: r = z3::shl(a, b); break; case X_LSHR: r = z3::lshr(a, b); break; case X_ASHR: r = z3::ashr(a, b); break;
        case X_ZEXT: r = z3::zext(a, l->w - l->a->w); break; case X_SEXT: r = z3::sext(a, l->w - l->a->w); break;
        case X_TRUNC: r = a.extract(l->w - 1, 0); break;
        default: fail("zleaf");
        }
    }
    }
    zleafIx[l] = zleaves.size(); zleaves.push_back(r);
    return r;
}
static std::unordered_map<uint32_t, unsigned> zbddIx; static vector<z3::expr> zbdd;
static std::map<uint32_t, std::pair<int, int>> bitOwner;  // bdd var -> (byte, bit)
static z3::expr zvar(uint32_t v)
{
    auto a = atomOf.find(v);
    if(a != atomOf.end()) return atoms[a->second];
    return zbit(v);
}
static z3::expr zb(B f)
{
    if(f == T) return zc().bool_val(true);
    if(f == F) return zc().bool_val(false);
    // iterative post-order
    vector<uint32_t> st{f >> 1};
    while(! st.empty())
    {
        uint32_t x = st.back();
        if(x == 0 || zbddIx.count(x)) { st.pop_back(); continue; }
        auto& nd = bm.n[x]; uint32_t l = nd.lo >> 1, h = nd.hi >> 1;
        bool rdy = true;
        if(l && ! zbddIx.count(l)) { st.push_back(l); rdy = false; }
        if(h && ! zbddIx.count(h)) { st.push_back(h); rdy = false; }
        if(! rdy) continue;
        auto get = [&](B e) { z3::expr r = (e >> 1) == 0 ? zc().bool_val(true) : zbdd[zbddIx[e >> 1]]; return e & 1 ? ! r : r; };
        z3::expr v = zvar(nd.var);
        z3::expr r = nd.lo == F ? (v && get(nd.hi)) : nd.hi == T ? (v || get(nd.lo)) : z3::ite(v, get(nd.hi), get(nd.lo));
        zbddIx[x] = zbdd.size(); zbdd.push_back(r);
        st.pop_back();
    }
    z3::expr r = zbdd[zbddIx[f >> 1]];
    return f & 1 ? ! r : r;
}
static bool usedByteTerms = false; // atoms mention byte terms: tie bytes to bits
static void addTies(z3::solver& s)
{
    if(! usedByteTerms) return;
    auto& c = zc();
    for(size_t i = 0; i < byteBits.size(); ++i)
    {
        z3::expr b = c.bv_const(("b" + std::to_string(i)).c_str(), 8);
        for(int k = 0; k < 8; ++k) s.add((b.extract(k, k) == c.bv_val(1, 1)) == zbit(bm.var(byteBits[i][k])));
    }
}
struct Model { bool sat; bool unknown; vector<u64> in; };
static Model query(const z3::expr& f, bool want)
{
    auto t0 = std::chrono::steady_clock::now();
    z3::solver s = usedByteTerms || ! atoms.empty() ? z3::solver(zc(), "QF_BV") : z3::solver(zc(), "QF_FD");
    z3::params p(zc()); p.set("timeout", z3ms); s.set(p);
    s.add(f); addTies(s);
    auto r = s.check();
    ++z3queries; if(r == z3::sat) ++z3sat; else if(r == z3::unsat) ++z3unsat; else ++z3unknown;
    Model m; m.sat = r == z3::sat; m.unknown = r == z3::unknown;
    if(m.sat && want)
    {
        z3::model md = s.get_model();
        auto bv = [&](uint32_t v) { return md.eval(zbit(v), true).is_true(); };
        for(auto& i : inputs)
        {
            u64 x = 0;
            if(i.kind == 0) { for(int k = 0; k < 8; ++k) if(bv(bm.var(byteBits[i.ix][k]))) x |= 1u << k; }
            else if(i.kind == 1) { x = md.eval(zc().bv_const(("V" + std::to_string(i.ix)).c_str(), i.w), true).get_numeral_uint64(); }
            else { for(size_t k = 0; k < i.vars.size(); ++k) if(bv(i.vars[k])) x |= 1u << k; if(x >= i.n) x = i.n - 1; }
            m.in.push_back(x);
        }
    }
    z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return m;
}
static bool hasAtoms(B f)
{
    if(atoms.empty()) return false;
    static std::unordered_map<uint32_t, bool> memo; static size_t at = 0;
    if(at != atoms.size()) { memo.clear(); at = atoms.size(); }
    std::function<bool(uint32_t)> rec = [&](uint32_t x) -> bool {
        if(! x) return false;
        auto it = memo.find(x); if(it != memo.end()) return it->second;
        bool r = atomOf.count(bm.n[x].var) || rec(bm.n[x].lo >> 1) || rec(bm.n[x].hi >> 1);
        return memo[x] = r;
    };
    return rec(f >> 1);
}
static std::unordered_map<B, bool> feasCache;
static bool feasible(B g) // exact: BDD, plus Z3 when bit-vector atoms occur
{
    if(g == F) return false;
    if(g == T || ! hasAtoms(g)) return true;
    auto it = feasCache.find(g); if(it != feasCache.end()) return it->second;
    auto m = query(zb(g), false);
    return feasCache[g] = m.sat || m.unknown;
}
static bool leafHasByte(L l) { return l->k == FN1 || l->k == PTRF || (l->k == EXPR && (leafHasByte(l->a) || (l->b && leafHasByte(l->b)))); }
static std::map<std::tuple<int, L, L>, B> predCache;
enum { P_EQ, P_ULT, P_SLT };
static B atomFor(int p, L a, L b)
{
    if(leafHasByte(a) || leafHasByte(b)) { if(! usedByteTerms) feasCache.clear(); usedByteTerms = true; }
    z3::expr x = zleaf(a), y = zleaf(b);
    z3::expr e = (p == P_EQ ? x == y : p == P_ULT ? z3::ult(x, y) : z3::slt(x, y)).simplify();
    if(e.is_true()) return T;
    if(e.is_false()) return F;
    uint32_t v = bm.newVar(); atomOf[v] = atoms.size(); atoms.push_back(e);
    return bm.ithVar(v);
}
static B leafPred(int p, L a, L b)
{
    if(a->k == PTR && b->k == PTR && a->obj == b->obj)
        return (p == P_EQ ? a->c == b->c : p == P_ULT ? (objs[a->obj].base + a->c < objs[b->obj].base + b->c) : (s64)a->c < (s64)b->c) ? T : F;
    if(a->k == PTR || a->k == PTRF) a = asInt(a);
    if(b->k == PTR || b->k == PTRF) b = asInt(b);
    unsigned w = a->w;
    auto cmp = [&](u64 x, u64 y) { return p == P_EQ ? x == y : p == P_ULT ? x < y : sext(x, w) < sext(y, w); };
    if(a->k == CONST && b->k == CONST) return cmp(a->c, b->c) ? T : F;
    if(a == b) return p == P_EQ ? T : F;
    if(a->k == FN1 && b->k == CONST) { std::bitset<256> m; for(int i = 0; i < 256; ++i) m[i] = cmp(a->tab[i], b->c); return setBdd(a->byte, m); }
    if(a->k == CONST && b->k == FN1) { std::bitset<256> m; for(int i = 0; i < 256; ++i) m[i] = cmp(a->c, b->tab[i]); return setBdd(b->byte, m); }
    if(a->k == FN1 && b->k == FN1 && a->byte == b->byte) { std::bitset<256> m; for(int i = 0; i < 256; ++i) m[i] = cmp(a->tab[i], b->tab[i]); return setBdd(a->byte, m); }
    auto key = std::make_tuple(p, a, b);
    auto it = predCache.find(key); if(it != predCache.end()) return it->second;
    B r;
    if(blastable(a) && blastable(b))
    {
        auto A = bits(a), C = bits(b);
        if(p == P_EQ) { r = T; for(unsigned i = 0; i < w; ++i) r = And(r, Not(bm.Xor(A[i], C[i]))); }
        else
        {
            if(p == P_SLT) { A[w - 1] = Not(A[w - 1]); C[w - 1] = Not(C[w - 1]); }
            r = F;
            for(unsigned i = 0; i < w; ++i) { B lt = And(Not(A[i]), C[i]); B eq = Not(bm.Xor(A[i], C[i])); r = Or(lt, And(eq, r)); }
        }
    }
    else r = atomFor(p, a, b);
    return predCache[key] = r;
}

// ------------------------------------------------------------------ values
typedef vector<std::pair<B, L>> Alts;
struct Val
{
    enum : uint8_t { NONE, LEAF, UNION, BOOL, AGG } k = NONE;
    L leaf = nullptr; B b = F; shared_ptr<const Alts> u; shared_ptr<vector<Val>> agg;
    static Val ofLeaf(L l) { Val v; v.k = LEAF; v.leaf = l; return v; }
    static Val ofBool(B b) { Val v; v.k = BOOL; v.b = b; return v; }
    bool same(const Val& o) const
    {
        if(k != o.k) return false;
        switch(k) { case NONE: return true; case LEAF: return leaf == o.leaf; case UNION: return u == o.u || *u == *o.u; case BOOL: return b == o.b;
        case AGG: if(agg == o.agg) return true; for(size_t i = 0; i < agg->size(); ++i) if(! (*agg)[i].same((*o.agg)[i])) return false; return true; }
        return false;
    }
};
static size_t maxAlts = 0;
struct Acc // accumulates alternatives
{
    Alts a; std::unordered_map<L, size_t> ix;
    void add(B g, L l)
    {
        if(g == F) return;
        if(l->k == FN1 && l->nd <= 4)
        {
            std::map<u64, std::bitset<256>> m;
            for(int i = 0; i < 256; ++i) m[l->tab[i]][i] = 1;
            for(auto& kv : m) add1(And(g, setBdd(l->byte, kv.second)), cst(l->w, kv.first));
            return;
        }
        add1(g, l);
    }
    void add1(B g, L l)
    {
        if(g == F) return;
        if(a.size() < 8) { for(auto& x : a) if(x.second == l) { x.first = Or(x.first, g); return; } a.push_back({g, l}); if(a.size() == 8) for(size_t i = 0; i < 8; ++i) ix[a[i].second] = i; return; }
        auto it = ix.find(l);
        if(it != ix.end()) { a[it->second].first = Or(a[it->second].first, g); return; }
        ix[l] = a.size(); a.push_back({g, l});
        if(a.size() > 5000) fail("too many alternatives in a value");
    }
    Val val()
    {
        if(a.empty()) return Val();
        if(a.size() == 1) return Val::ofLeaf(a[0].second);
        if(a.size() > 64 && a[0].second->w > 1)
        {
            bool ok = true; for(auto& x : a) if(x.second->k == PTR || x.second->k == PTRF || ! blastable(x.second)) { ok = false; break; }
            if(ok)
            {
                unsigned w = a[0].second->w; vector<B> r(w, F);
                for(auto& x : a) { auto& v = bits(x.second); for(unsigned i = 0; i < w; ++i) r[i] = Or(r[i], And(x.first, v[i])); }
                return Val::ofLeaf(bitsLeaf(r));
            }
        }
        if(a.size() > maxAlts) maxAlts = a.size();
        Val v; v.k = Val::UNION; v.u = std::make_shared<Alts>(std::move(a)); return v;
    }
};
struct AltView // uniform iteration
{
    Alts tmp; const Alts* p;
    AltView(const Val& v)
    {
        if(v.k == Val::LEAF) { tmp.push_back({T, v.leaf}); p = &tmp; }
        else if(v.k == Val::UNION) p = v.u.get();
        else if(v.k == Val::BOOL) { if(v.b != F) tmp.push_back({v.b, cst(1, 1)}); if(v.b != T) tmp.push_back({Not(v.b), cst(1, 0)}); p = &tmp; }
        else fail("use of an undefined or aggregate value");
    }
    AltView(const AltView&) = delete;
    Alts::const_iterator begin() const { return p->begin(); } Alts::const_iterator end() const { return p->end(); }
};
static Val simp(Acc& acc, unsigned w)
{
    if(w == 1)
    {
        B t = F; for(auto& x : acc.a) if(x.second->c) t = Or(t, x.first);
        if(acc.a.empty()) return Val();
        if(acc.a.size() == 1) return Val::ofBool(acc.a[0].second->c ? T : F);
        return Val::ofBool(t);
    }
    return acc.val();
}
template<class Fn> static Val lift1(const Val& a, B pc, unsigned w, Fn f)
{
    if(a.k == Val::LEAF) { L l = f(a.leaf); if(l->k != FN1 || l->nd > 4) { if(w == 1) return Val::ofBool(l->c ? T : F); return Val::ofLeaf(l); } }
    Acc acc; AltView A(a);
    for(auto& x : A) if(a.k == Val::LEAF || And(x.first, pc) != F) acc.add(x.first, f(x.second));
    return simp(acc, w);
}
template<class Fn> static Val lift2(const Val& a, const Val& b, B pc, unsigned w, Fn f)
{
    if(a.k == Val::LEAF && b.k == Val::LEAF) return lift1(a, pc, w, [&](L x) { return f(x, b.leaf); });
    Acc acc; AltView A(a), C(b);
    for(auto& x : A)
    {
        if(And(x.first, pc) == F) continue;
        for(auto& y : C)
        {
            B g = And(x.first, y.first);
            if(g == F || And(g, pc) == F) continue;
            acc.add(g, f(x.second, y.second));
        }
    }
    return simp(acc, w);
}
static B liftPred(int p, const Val& a, const Val& b, B pc)
{
    AltView A(a), C(b); B r = F;
    for(auto& x : A)
    {
        if(And(x.first, pc) == F) continue;
        for(auto& y : C)
        {
            B g = And(x.first, y.first);
            if(g == F || And(g, pc) == F) continue;
            r = Or(r, And(g, leafPred(p, x.second, y.second)));
        }
    }
    return r;
}
static B truth(const Val& v)
{
    if(v.k == Val::BOOL) return v.b;
    if(v.k == Val::LEAF) return v.leaf->c & 1 ? T : F;
    fail("truth of non boolean");
}
static Val mergeVal(B ga, const Val& a, B gb, const Val& b)
{
    if(a.k == Val::NONE) return b;
    if(b.k == Val::NONE || a.same(b)) return a;
    if(a.k == Val::AGG || b.k == Val::AGG)
    {
        if(a.k != b.k || a.agg->size() != b.agg->size()) fail("merge of aggregates");
        Val r; r.k = Val::AGG; r.agg = std::make_shared<vector<Val>>();
        for(size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(mergeVal(ga, (*a.agg)[i], gb, (*b.agg)[i]));
        return r;
    }
    if(a.k == Val::BOOL && b.k == Val::BOOL)
    {
        if(a.b == T && b.b == F) return Val::ofBool(ga);      // on the merged state either ga or gb holds
        if(a.b == F && b.b == T) return Val::ofBool(gb);
        return Val::ofBool(Or(And(ga, a.b), And(gb, b.b)));
    }
    Acc acc; AltView A(a), C(b);
    for(auto& x : A) acc.add1(And(ga, x.first), x.second);
    for(auto& y : C) acc.add1(And(gb, y.first), y.second);
    return acc.val();
}

// ------------------------------------------------------------------ memory
struct Cell { Val v; uint8_t n = 0, idx = 0; };  // n: width of chunk, idx: position in chunk
struct ObjS { vector<Cell> c; Val size; B dead = F; };
typedef shared_ptr<ObjS> ObjP;
static vector<ObjP> constMem;       // initial contents of constant globals, by id
struct Mem
{
    vector<std::pair<int, ObjP>> o; // sorted by id
    ObjP* find(int id)
    {
        auto it = std::lower_bound(o.begin(), o.end(), id, [](const std::pair<int, ObjP>& a, int b) { return a.first < b; });
        if(it != o.end() && it->first == id) return &it->second;
        return nullptr;
    }
    void put(int id, ObjP p)
    {
        auto it = std::lower_bound(o.begin(), o.end(), id, [](const std::pair<int, ObjP>& a, int b) { return a.first < b; });
        if(it != o.end() && it->first == id) it->second = p; else o.insert(it, {id, p});
    }
    void erase(int id)
    {
        auto it = std::lower_bound(o.begin(), o.end(), id, [](const std::pair<int, ObjP>& a, int b) { return a.first < b; });
        if(it != o.end() && it->first == id) o.erase(it);
    }
};
static Val byteOf(const Val& v, unsigned n, unsigned i, B pc) { if(n == 1) return v; return lift1(v, T, 8, [&](L l) { return leafByte(l, i); }); (void)pc; }
static void splitChunk(ObjS& s, size_t off)
{
    size_t st = off - s.c[off].idx; unsigned n = s.c[st].n;
    if(n <= 1) return;
    Val v = s.c[st].v;
    for(unsigned i = 0; i < n; ++i) { s.c[st + i].v = byteOf(v, n, i, T); s.c[st + i].n = 1; s.c[st + i].idx = 0; }
}
static void prepStore(ObjS& s, size_t off, unsigned n)
{
    // chunks only partially covered are broken up
    for(size_t e : {off, off + n - 1})
    {
        if(s.c[e].n == 0 && s.c[e].idx == 0) continue;
        size_t st = e - s.c[e].idx; unsigned w = s.c[st].n;
        if(st < off || st + w > off + n) splitChunk(s, e);
    }
}
static void rawStore(ObjS& s, size_t off, unsigned n, const Val& v)
{
    prepStore(s, off, n);
    for(unsigned i = 0; i < n; ++i) { s.c[off + i].v = Val(); s.c[off + i].n = 0; s.c[off + i].idx = i; }
    s.c[off].v = v; s.c[off].n = n; s.c[off].idx = 0;
}
static Val freshByte();
static u64 undefReads;
static Val rawLoad(const ObjS& s, size_t off, unsigned n, unsigned w)
{
    auto& c = s.c[off];
    if(c.n == n && c.idx == 0) return c.v;
    Val r;
    for(unsigned i = 0; i < n; ++i)
    {
        auto& d = s.c[off + i]; size_t st = off + i - d.idx; unsigned cw = s.c[st].n;
        Val b;
        if(cw == 0) { ++undefReads; b = freshByte(); } // uninitialised: arbitrary
        else b = byteOf(s.c[st].v, cw, d.idx, T);
        if(i == 0) r = b;
        else r = lift2(b, r, T, 8 * (i + 1), [](L h, L l) { return leafConcat(h, l); });
    }
    (void)w;
    return r;
}
static int undefCount;
static Val freshByte()
{
    ++undefCount;
    int ix = byteBits.size(); vector<B> v(8);
    for(int k = 7; k >= 0; --k) { uint32_t x = bm.newVar(); v[k] = bm.ithVar(x); bitOwner[x] = {ix, k}; }
    byteBits.push_back(v);
    u64 t[256]; for(int i = 0; i < 256; ++i) t[i] = i;
    return Val::ofLeaf(fn1(8, ix, t));
}

struct State { B pc = T; Mem mem; vector<Val> regs; Val excType, excObj; vector<unsigned> hops; u64 meas = ~0ull; };
// Two states are joined unless they disagree on the exact position of a pointer:
// those stay apart so that addresses remain concrete.
static bool ptrConflict(const Val& a, const Val& b)
{
    return a.k == Val::LEAF && b.k == Val::LEAF && a.leaf != b.leaf && (a.leaf->k == PTR || b.leaf->k == PTR);
}
static bool memConflict(const Val& a, const Val& b)
{
    if(! ptrConflict(a, b)) return false;
    return ! (a.leaf->k == PTR && b.leaf->k == PTR && a.leaf->obj == b.leaf->obj);
}
static bool memCompatible(const Mem& a, const Mem& b)
{
    size_t i = 0, j = 0;
    while(i < a.o.size() && j < b.o.size())
    {
        if(a.o[i].first < b.o[j].first) { ++i; continue; }
        if(b.o[j].first < a.o[i].first) { ++j; continue; }
        const ObjS *x = a.o[i].second.get(), *y = b.o[j].second.get(); ++i; ++j;
        if(x == y) continue;
        size_t n = std::min(x->c.size(), y->c.size());
        for(size_t k = 0; k < n; ++k) if(x->c[k].n == 8 && y->c[k].n == 8 && x->c[k].idx == 0 && y->c[k].idx == 0 && memConflict(x->c[k].v, y->c[k].v)) return false;
    }
    return true;
}
static u64 ptrMeasure(const State& s, const vector<unsigned>& live)
{
    u64 m = 0;
    for(auto r : live) if(s.regs[r].k == Val::LEAF && s.regs[r].leaf->k == PTR) m += s.regs[r].leaf->c;
    for(auto& o : s.mem.o) for(auto& c : o.second->c) if(c.n == 8 && c.v.k == Val::LEAF && c.v.leaf->k == PTR) m += c.v.leaf->c;
    return m;
}
static unsigned maxStates = 8192; static u64 forkCount; static size_t statesPeak;

static void mergeMem(B ga, Mem& a, B gb, Mem& b)
{
    Mem r; size_t i = 0, j = 0;
    while(i < a.o.size() || j < b.o.size())
    {
        if(j >= b.o.size() || (i < a.o.size() && a.o[i].first < b.o[j].first)) { r.o.push_back(a.o[i++]); continue; }
        if(i >= a.o.size() || b.o[j].first < a.o[i].first) { r.o.push_back(b.o[j++]); continue; }
        ObjP x = a.o[i].second, y = b.o[j].second;
        if(x != y)
        {
            auto m = std::make_shared<ObjS>(*x); ObjS yy = *y;
            if(m->c.size() < yy.c.size()) m->c.resize(yy.c.size());
            if(yy.c.size() < m->c.size()) yy.c.resize(m->c.size());
            for(size_t k = 0; k < m->c.size(); )
            {
                Cell &p = m->c[k], &q = yy.c[k];
                if(p.n && p.idx == 0 && q.n == p.n && q.idx == 0)
                {
                    unsigned n = p.n;
                    if(! p.v.same(q.v)) p.v = mergeVal(ga, p.v, gb, q.v);
                    k += n; continue;
                }
                if(p.n == 0 && p.idx == 0 && q.n == 0 && q.idx == 0) { ++k; continue; }
                // undefined on one side: take the other (an uninitialised byte is arbitrary)
                if(p.n == 0 && p.idx == 0 && q.idx == 0 && q.n)
                {
                    bool clear = true; for(unsigned z = 0; z < q.n; ++z) if(m->c[k + z].n || m->c[k + z].idx) clear = false;
                    if(clear) { unsigned n = q.n; for(unsigned z = 0; z < n; ++z) m->c[k + z] = yy.c[k + z]; k += n; continue; }
                    splitChunk(yy, k); continue;
                }
                if(q.n == 0 && q.idx == 0 && p.idx == 0 && p.n)
                {
                    bool clear = true; for(unsigned z = 0; z < p.n; ++z) if(yy.c[k + z].n || yy.c[k + z].idx) clear = false;
                    if(clear) { k += p.n; continue; }
                    splitChunk(*m, k); continue;
                }
                if(p.n > 1) splitChunk(*m, k);
                if(q.n > 1) splitChunk(yy, k);
            }
            m->size = mergeVal(ga, x->size, gb, y->size);
            if(x->dead != y->dead) m->dead = Or(And(ga, x->dead), And(gb, y->dead));
            r.o.push_back({a.o[i].first, m});
        }
        else r.o.push_back(a.o[i]);
        ++i; ++j;
    }
    a.o.swap(r.o);
}

// ------------------------------------------------------------------ findings
struct Finding { string kind, name; vector<u64> in; };
static vector<Finding> findings; static std::map<string, int> findCount;
struct Oblig { string name; B pc, c; };
static vector<Oblig> obligs; static u64 obTotal, obSimpl;
static u64 bddOnly; static double z3total = 20; static std::map<string, vector<u64>> reachIn;
static std::map<string, B> reachG; static vector<string> reachNames;
static string curFn; static B topPc = T;
static string excName(L l) { return l->k == PTR ? objs[l->obj].name : "?"; }
static void report(const string& kind, const string& name, B g)
{
    if(g == F) return;
    string key = kind + " " + name;
    if(findCount[key] >= 1) return;
    auto m = query(zb(g), true);
    if(! m.sat && ! m.unknown) return;
    findCount[key]++;
    if(m.unknown) fail("solver gave up on " + key);
    findings.push_back({kind, name, m.in});
}

// ------------------------------------------------------------------ program
static llvm::Module* M; static const llvm::DataLayout* DL;
static std::unordered_map<const llvm::GlobalValue*, int> gid;
static unsigned widthOf(Type* t)
{
    if(t->isPointerTy()) return 64;
    if(auto i = dyn_cast<llvm::IntegerType>(t)) { if(i->getBitWidth() > 64) fail("integer wider than 64 bits"); return i->getBitWidth(); }
    string s; llvm::raw_string_ostream os(s); t->print(os);
    fail("unsupported type " + os.str());
}
static State* initState;
static Val constVal(const Constant* c);
static int globalId(const llvm::GlobalValue* g);
static void initObj(ObjS& s, u64 off, const Constant* c)
{
    Type* t = c->getType();
    if(isa<llvm::UndefValue>(c) && ! isa<llvm::PoisonValue>(c) && (t->isAggregateType())) { return; }
    if(isa<llvm::ConstantAggregateZero>(c))
    {
        u64 n = DL->getTypeAllocSize(t);
        std::function<void(Type*, u64)> z = [&](Type* t, u64 o) {
            if(auto st = dyn_cast<llvm::StructType>(t)) { auto sl = DL->getStructLayout(st); for(unsigned i = 0; i < st->getNumElements(); ++i) z(st->getElementType(i), o + sl->getElementOffset(i)); }
            else if(auto at = dyn_cast<llvm::ArrayType>(t)) { u64 e = DL->getTypeAllocSize(at->getElementType()); for(u64 i = 0; i < at->getNumElements(); ++i) z(at->getElementType(), o + i * e); }
            else { unsigned w = widthOf(t); unsigned nb = (w + 7) / 8; rawStore(s, o, nb, Val::ofLeaf(cst(nb * 8, 0))); }
        };
        z(t, off); (void)n; return;
    }
    if(auto cs = dyn_cast<llvm::ConstantStruct>(c)) { auto sl = DL->getStructLayout(cs->getType()); for(unsigned i = 0; i < cs->getNumOperands(); ++i) initObj(s, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
    if(auto ca = dyn_cast<llvm::ConstantArray>(c)) { u64 e = DL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i = 0; i < ca->getNumOperands(); ++i) initObj(s, off + i * e, ca->getOperand(i)); return; }
    if(auto cd = dyn_cast<llvm::ConstantDataArray>(c)) { unsigned e = cd->getElementByteSize(); for(unsigned i = 0; i < cd->getNumElements(); ++i) rawStore(s, off + i * e, e, Val::ofLeaf(cst(8 * e, cd->getElementAsInteger(i)))); return; }
    if(isa<llvm::UndefValue>(c)) return;
    unsigned w = widthOf(t), nb = (w + 7) / 8;
    Val v = constVal(c);
    if(w == 1) v = Val::ofLeaf(cst(8, truth(v) == T));
    rawStore(s, off, nb, v);
}
static int globalId(const llvm::GlobalValue* g)
{
    if(auto a = dyn_cast<llvm::GlobalAlias>(g)) return globalId(cast<llvm::GlobalValue>(a->getAliasee()->stripPointerCasts()));
    auto it = gid.find(g); if(it != gid.end()) return it->second;
    if(auto f = dyn_cast<llvm::Function>(g))
    {
        int id = newObj(f->getName().str(), 1, true); objs[id].fn = f; gid[g] = id; constMem.resize(objs.size()); return id;
    }
    auto gv = cast<GlobalVariable>(g);
    u64 n = gv->hasInitializer() ? (u64)DL->getTypeAllocSize(gv->getValueType()) : 8;
    int id = newObj(gv->getName().str(), n, gv->isConstant() || ! gv->hasInitializer()); objs[id].gv = gv; gid[g] = id;
    if(constMem.size() < objs.size()) constMem.resize(objs.size());
    auto s = std::make_shared<ObjS>(); s->c.resize(n); s->size = Val::ofLeaf(cst(64, n));
    bool ti = gv->getName().starts_with("_ZTI") || gv->getName().starts_with("_ZTS");
    if(gv->hasInitializer() && ! ti) initObj(*s, 0, gv->getInitializer());
    if(constMem.size() < objs.size()) constMem.resize(objs.size());
    constMem[id] = s;
    return id;
}
static Val gepVal(const llvm::GEPOperator* g, std::function<Val(const LV*)> val, B pc)
{
    llvm::MapVector<LV*, APInt> var; APInt off(64, 0);
    if(! g->collectOffset(*DL, 64, var, off)) fail("gep", g);
    Val p = val(g->getPointerOperand());
    Val o = Val::ofLeaf(cst(64, off.getZExtValue()));
    for(auto& kv : var)
    {
        Val ix = val(kv.first);
        u64 sc = kv.second.getZExtValue();
        ix = lift1(ix, pc, 64, [&](L l) { return leafBin(X_MUL, 64, leafCast(X_SEXT, 64, l), cst(64, sc)); });
        o = lift2(o, ix, pc, 64, [](L a, L b) { return leafBin(X_ADD, 64, a, b); });
    }
    if(o.k == Val::LEAF && o.leaf->k == CONST && o.leaf->c == 0) return p;
    return lift2(p, o, pc, 64, [](L a, L b) { return leafBin(X_ADD, 64, a, b); });
}
static Val constVal(const Constant* c)
{
    if(auto ci = dyn_cast<llvm::ConstantInt>(c))
    {
        if(ci->getBitWidth() == 1) return Val::ofBool(ci->isZero() ? F : T);
        if(ci->getBitWidth() > 64) fail("wide constant");
        return Val::ofLeaf(cst(ci->getBitWidth(), ci->getZExtValue()));
    }
    if(isa<llvm::ConstantPointerNull>(c)) return Val::ofLeaf(cst(64, 0));
    if(auto g = dyn_cast<llvm::GlobalValue>(c)) return Val::ofLeaf(ptrl(globalId(g), 0));
    if(isa<llvm::UndefValue>(c))
    {
        if(c->getType()->isAggregateType())
        {
            Val v; v.k = Val::AGG; v.agg = std::make_shared<vector<Val>>();
            for(unsigned i = 0; i < c->getType()->getStructNumElements(); ++i) v.agg->push_back(Val());
            return v;
        }
        unsigned w = widthOf(c->getType());
        if(w == 1) return Val::ofBool(F);
        return Val::ofLeaf(cst(w, 0));
    }
    if(isa<llvm::ConstantAggregateZero>(c) || isa<llvm::ConstantStruct>(c))
    {
        Val v; v.k = Val::AGG; v.agg = std::make_shared<vector<Val>>();
        for(unsigned i = 0; i < c->getType()->getStructNumElements(); ++i) v.agg->push_back(constVal(c->getAggregateElement(i)));
        return v;
    }
    if(auto ce = dyn_cast<llvm::ConstantExpr>(c))
    {
        auto val = [](const LV* v) { return constVal(cast<Constant>(v)); };
        switch(ce->getOpcode())
        {
        case Instruction::GetElementPtr: return gepVal(cast<llvm::GEPOperator>(ce), val, T);
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return val(ce->getOperand(0));
        case Instruction::Trunc: { unsigned w = widthOf(ce->getType()); return lift1(val(ce->getOperand(0)), T, w, [&](L l) { return leafCast(X_TRUNC, w, l); }); }
        case Instruction::Sub: { unsigned w = widthOf(ce->getType()); return lift2(val(ce->getOperand(0)), val(ce->getOperand(1)), T, w, [&](L a, L b) { return leafBin(X_SUB, w, a, b); }); }
        case Instruction::Add: { unsigned w = widthOf(ce->getType()); return lift2(val(ce->getOperand(0)), val(ce->getOperand(1)), T, w, [&](L a, L b) { return leafBin(X_ADD, w, a, b); }); }
        default: fail("constant expression", c);
        }
    }
    fail("constant", c);
}

// typeinfo chains
static bool tiMatch(const string& thrown, const string& caught)
{
    if(thrown == caught) return true;
    static const std::map<string, string> known = {
        {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
        {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
        {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
        {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"} };
    auto k = known.find(thrown); if(k != known.end()) return tiMatch(k->second, caught);
    auto g = M->getNamedGlobal(thrown);
    if(! g || ! g->hasInitializer()) return false;
    if(auto cs = dyn_cast<llvm::ConstantStruct>(g->getInitializer()))
        for(unsigned i = 2; i < cs->getNumOperands(); ++i)
            if(auto b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts()))
                if(tiMatch(b->getName().str(), caught)) return true;
    return false;
}

// ------------------------------------------------------------------ function info
struct FnInfo
{
    llvm::Function* F; unsigned nregs = 0;
    std::unordered_map<const LV*, unsigned> reg;
    std::unordered_map<const BasicBlock*, vector<unsigned>> live;   // live-in registers (without phis of the block)
    llvm::DominatorTree DT; llvm::LoopInfo LI; vector<BasicBlock*> rpo; std::unordered_map<const BasicBlock*, int> rpoIx;
    std::unordered_map<llvm::Loop*, vector<BasicBlock*>> nodes;     // RPO nodes per region (nullptr = top)
    u64 count = 0; std::unordered_map<llvm::Loop*, unsigned> loopIx;
};
static std::map<const llvm::Function*, FnInfo*> fnInfos;
static FnInfo* infoOf(llvm::Function* f)
{
    auto& r = fnInfos[f]; if(r) return r;
    r = new FnInfo; r->F = f;
    for(auto& a : f->args()) r->reg[&a] = r->nregs++;
    for(auto& bb : *f) for(auto& i : bb) if(! i.getType()->isVoidTy()) r->reg[&i] = r->nregs++;
    r->DT.recalculate(*f); r->LI.analyze(r->DT);
    llvm::ReversePostOrderTraversal<llvm::Function*> RPO(f);
    for(auto bb : RPO) { r->rpoIx[bb] = r->rpo.size(); r->rpo.push_back(bb); }
    for(auto bb : r->rpo) for(auto l = r->LI.getLoopFor(bb); l; l = l->getParentLoop()) if(! r->loopIx.count(l)) { unsigned k = r->loopIx.size(); r->loopIx[l] = k; }
    for(auto bb : r->rpo)
    {
        auto l = r->LI.getLoopFor(bb);
        r->nodes[l].push_back(bb);
        if(l && l->getHeader() == bb) r->nodes[l->getParentLoop()].push_back(bb);
    }
    // liveness
    std::unordered_map<const BasicBlock*, std::set<unsigned>> in;
    bool ch = true;
    while(ch)
    {
        ch = false;
        for(auto it = r->rpo.rbegin(); it != r->rpo.rend(); ++it)
        {
            auto bb = *it; std::set<unsigned> s;
            for(auto su : llvm::successors(bb))
            {
                auto t = in[su];
                for(auto& ph : su->phis()) t.erase(r->reg[&ph]);
                s.insert(t.begin(), t.end());
            }
            for(auto su : llvm::successors(bb))
                for(auto& ph : su->phis()) { auto v = ph.getIncomingValueForBlock(bb); auto k = r->reg.find(v); if(k != r->reg.end()) s.insert(k->second); }
            for(auto i = bb->rbegin(); i != bb->rend(); ++i)
            {
                if(isa<llvm::PHINode>(*i)) continue;
                auto k = r->reg.find(&*i); if(k != r->reg.end()) s.erase(k->second);
                for(auto& o : i->operands()) { auto q = r->reg.find(o.get()); if(q != r->reg.end()) s.insert(q->second); }
            }
            for(auto& ph : bb->phis()) s.insert(r->reg[&ph]);   // phis are assigned on the edge
            if(s != in[bb]) { in[bb] = s; ch = true; }
        }
    }
    for(auto& kv : in) r->live[kv.first].assign(kv.second.begin(), kv.second.end());
    return r;
}

static std::chrono::steady_clock::time_point deadline;
static unsigned maxIters = 400;
static u64 instCount, blockCount, mergeCount; static unsigned loopMax;
static bool trace = getenv("SYMX_TRACE") != nullptr;

struct Outcome { State st; Val ret; };
struct Result { vector<Outcome> norm, exc; };

static void addOutcome(vector<Outcome>& os, State&& s, const Val& ret)
{
    Outcome* to = nullptr;
    for(auto& o : os)
        if(! ptrConflict(o.ret, ret) && memCompatible(o.st.mem, s.mem) && ! ptrConflict(o.st.excType, s.excType)) { to = &o; break; }
    if(! to && os.size() >= maxStates)
        for(auto& o : os) if(! ptrConflict(o.st.excType, s.excType)) { to = &o; break; }
    if(! to) { os.push_back({}); os.back().st = std::move(s); os.back().ret = ret; if(os.size() > statesPeak) statesPeak = os.size(); return; }
    ++mergeCount;
    auto& o = *to;
    B ga = o.st.pc, gb = s.pc;
    o.ret = mergeVal(ga, o.ret, gb, ret);
    o.st.excType = mergeVal(ga, o.st.excType, gb, s.excType);
    o.st.excObj = mergeVal(ga, o.st.excObj, gb, s.excObj);
    mergeMem(ga, o.st.mem, gb, s.mem);
    o.st.pc = Or(ga, gb);
}

static Result callFn(llvm::Function* f, vector<Val> args, State&& st, int depth);

// --- memory access through (possibly many) pointers
static void checkAccess(State& st, B g, L p, u64 n, const char* what, B& ok, const LV* at, bool write)
{
    ok = F;
    if(p->k != PTR) { if(getenv("SYMX_VERBOSE") && at) { at->print(llvm::errs()); llvm::errs() << "  kind " << (int)p->k << " c " << p->c << "\n"; } report("MEM", string(what) + " through invalid pointer in " + curFn, And(g, st.pc)); return; }
    ObjS* s = nullptr;
    if(auto q = st.mem.find(p->obj)) s = q->get();
    else if((size_t)p->obj < constMem.size() && constMem[p->obj]) s = constMem[p->obj].get();
    if(! s) { report("MEM", string(what) + " of dead object " + objs[p->obj].name + " in " + curFn, And(g, st.pc)); return; }
    if(write && objs[p->obj].isConst) { report("MEM", "write to constant " + objs[p->obj].name + " in " + curFn, And(g, st.pc)); return; }
    ok = g;
    // bounds
    AltView S(s->size); B bad = F;
    for(auto& z : S) if(p->c > z.second->c || n > z.second->c - p->c) bad = Or(bad, And(g, z.first));
    if(s->dead != F) bad = Or(bad, And(g, s->dead));
    if(bad != F)
    {
        B b2 = And(bad, st.pc);
        if(feasible(b2)) report("MEM", string(what) + " out of bounds of " + objs[p->obj].name + " in " + curFn, b2);
        ok = And(g, Not(bad));
        if(p->c > s->c.size() || n > s->c.size() - p->c) ok = F;
    }
    (void)at;
}
static const ObjS* objRead(State& st, int id)
{
    if(auto q = st.mem.find(id)) return q->get();
    return constMem[id].get();
}
static ObjS* objWrite(State& st, int id)
{
    auto q = st.mem.find(id);
    if(! q) { // mutable global not yet in this state
        auto c = std::make_shared<ObjS>(*constMem[id]); st.mem.put(id, c); return st.mem.find(id)->get();
    }
    if(q->use_count() > 1) *q = std::make_shared<ObjS>(**q);
    return q->get();
}
// replace function-of-byte offsets and terms by explicit alternatives
static Alts ptrAlts(const Val& p, B pc)
{
    Alts r; AltView A(p);
    for(auto& x : A)
    {
        if(A.p->size() > 1 && And(x.first, pc) == F) continue;
        L l = x.second;
        if(l->k == CONST) l = leafFromAddr(l->c);
        if(l->k == PTRF)
        {
            std::map<u64, std::bitset<256>> m; for(int i = 0; i < 256; ++i) m[l->a->tab[i]][i] = 1;
            for(auto& kv : m) { B g = And(x.first, setBdd(l->a->byte, kv.second)); if(And(g, pc) != F) r.push_back({g, ptrl(l->obj, kv.first)}); }
        }
        else r.push_back({x.first, l});
    }
    return r;
}
static Val loadMem(State& st, const Val& p, unsigned w, const LV* at)
{
    unsigned n = (w + 7) / 8;
    // fast path for table lookups
    if(p.k == Val::LEAF && p.leaf->k == PTRF && n == 1)
    {
        auto s = objRead(st, p.leaf->obj); bool ok = s != nullptr; u64 t[256];
        if(ok) for(int i = 0; i < 256 && ok; ++i)
        {
            u64 o = p.leaf->a->tab[i];
            if(o >= s->c.size() || s->c[o].n != 1 || s->c[o].v.k != Val::LEAF || s->c[o].v.leaf->k != CONST || s->size.k != Val::LEAF) ok = false;
            else t[i] = s->c[o].v.leaf->c;
        }
        if(ok) { L l = fn1(8, p.leaf->a->byte, t); return lift1(Val::ofLeaf(l), T, 8, [](L x) { return x; }); }
    }
    Acc acc; bool anyBool = false; B okAll = F;
    AltView A(p);
    Alts expanded; const Alts* pa = A.p;
    for(auto& x : A) if(x.second->k == CONST || (x.second->k == PTRF)) { expanded = ptrAlts(p, st.pc); 
        // keep table-like alternatives unexpanded when possible
        pa = &expanded; break; }
    (void)anyBool;
    Val single; unsigned cnt = 0;
    for(auto& x : *pa)
    {
        B g = x.first;
        if(pa->size() > 1 && And(g, st.pc) == F) continue;
        B ok; checkAccess(st, g, x.second, n, "read", ok, at, false);
        if(ok == F || (ok != g && And(ok, st.pc) == F)) continue;
        okAll = Or(okAll, ok);
        auto s = objRead(st, x.second->obj);
        Val v = rawLoad(*s, x.second->c, n, w);
        ++cnt; single = v;
        AltView V(v);
        for(auto& y : V) acc.add(And(ok, y.first), y.second);
    }
    B np = And(st.pc, okAll);
    if(np != st.pc) st.pc = np;
    if(cnt == 0) { st.pc = F; return Val::ofLeaf(cst(w == 1 ? 8 : w, 0)); }
    Val r;
    if(cnt == 1 && (single.k == Val::LEAF || single.k == Val::BOOL || single.k == Val::UNION)) r = single;
    else r = acc.val();
    if(w != n * 8)
    {
        if(w == 1) return Val::ofBool(Not(liftPred(P_EQ, lift1(r, st.pc, 8, [](L l) { return leafBin(X_AND, 8, l, cst(8, 1)); }), Val::ofLeaf(cst(8, 0)), st.pc)));
        r = lift1(r, st.pc, w, [&](L l) { return leafCast(X_TRUNC, w, l); });
    }
    return r;
}
static void storeMem(State& st, const Val& p, unsigned w, Val v, const LV* at)
{
    if(v.k == Val::NONE) return; // undef
    unsigned n = (w + 7) / 8;
    if(w == 1) v = v.k == Val::BOOL && (v.b == T || v.b == F) ? Val::ofLeaf(cst(8, v.b == T)) : [&] { Acc a; a.add(v.b, cst(8, 1)); a.add(Not(v.b), cst(8, 0)); return a.val(); }();
    else if(w != n * 8) v = lift1(v, st.pc, n * 8, [&](L l) { return leafCast(X_ZEXT, n * 8, l); });
    Alts pa = ptrAlts(p, st.pc); B okAll = F; 
    bool single = pa.size() == 1;
    for(auto& x : pa)
    {
        B g = x.first;
        if(! single && And(g, st.pc) == F) continue;
        B ok; checkAccess(st, g, x.second, n, "write", ok, at, true);
        if(ok == F) continue;
        okAll = Or(okAll, ok);
        ObjS* s = objWrite(st, x.second->obj);
        if(single) rawStore(*s, x.second->c, n, v);
        else
        {
            prepStore(*s, x.second->c, n);
            auto& c = s->c[x.second->c];
            bool undef = true; for(unsigned i = 0; i < n; ++i) if(s->c[x.second->c + i].n) undef = false;
            if(undef) rawStore(*s, x.second->c, n, v);
            else { Val old = rawLoad(*s, x.second->c, n, w); rawStore(*s, x.second->c, n, mergeVal(ok, v, Not(ok), old)); }
            (void)c;
        }
    }
    B np = And(st.pc, okAll);
    if(np != st.pc) st.pc = np;
}
static void copyMem(State& st, const Val& d, const Val& s, const Val& n, const LV* at)
{
    Alts da = ptrAlts(d, st.pc), sa = ptrAlts(s, st.pc); AltView na(n);
    std::map<int, std::pair<ObjP, const ObjS*>> snap;
    B okAll = F;
    struct W { B g; L d, s; u64 n; };
    vector<W> ws;
    for(auto& k : na)
    {
        if(And(k.first, st.pc) == F) continue;
        if(k.second->k != CONST) fail("copy of unbounded symbolic length", at);
        for(auto& x : da)
        {
            B g1 = And(k.first, x.first); if(g1 == F || And(g1, st.pc) == F) continue;
            for(auto& y : sa)
            {
                B g = And(g1, y.first); if(g == F || And(g, st.pc) == F) continue;
                if(k.second->c == 0) { okAll = Or(okAll, g); continue; }
                if(k.second->c > (1u << 20)) { report("MEM", "copy of huge length in " + curFn, And(g, st.pc)); continue; }
                B ok1, ok2; checkAccess(st, g, y.second, k.second->c, "copy read", ok1, at, false);
                if(ok1 == F) continue;
                checkAccess(st, ok1, x.second, k.second->c, "copy write", ok2, at, true);
                if(ok2 == F || And(ok2, st.pc) == F) continue;
                okAll = Or(okAll, ok2);
                ws.push_back({ok2, x.second, y.second, k.second->c});
            }
        }
    }
    B np = And(st.pc, okAll); if(np != st.pc) st.pc = np;
    if(st.pc == F) return;
    // snapshot of sources
    std::map<int, ObjP> src;
    for(auto& w : ws) if(! src.count(w.s->obj))
    { auto q = st.mem.find(w.s->obj); src[w.s->obj] = q ? *q : constMem[w.s->obj]; }
    bool single = ws.size() == 1;
    if(single)
    {
        auto& w = ws[0]; auto& so = *src[w.s->obj]; ObjS* dst = objWrite(st, w.d->obj);
        u64 i = 0;
        while(i < w.n)
        {
            auto& c = so.c[w.s->c + i];
            if(c.idx == 0 && c.n && i + c.n <= w.n) { rawStore(*dst, w.d->c + i, c.n, c.v); i += c.n; }
            else if(c.idx == 0 && c.n == 0) { prepStore(*dst, w.d->c + i, 1); dst->c[w.d->c + i] = Cell(); ++i; }
            else { rawStore(*dst, w.d->c + i, 1, rawLoad(so, w.s->c + i, 1, 8)); ++i; }
        }
        return;
    }
    // group by destination byte: new value = union over writers, else old
    struct Contrib { B g; Val v; };
    std::map<std::pair<int, u64>, vector<Contrib>> by;
    for(auto& w : ws)
    {
        auto& so = *src[w.s->obj];
        for(u64 i = 0; i < w.n; ++i)
        {
            auto& c = so.c[w.s->c + i];
            Val v; if(! (c.idx == 0 && c.n == 0)) v = rawLoad(so, w.s->c + i, 1, 8);
            by[{w.d->obj, w.d->c + i}].push_back({w.g, v});
        }
    }
    for(auto& kv : by)
    {
        ObjS* dst = objWrite(st, kv.first.first); u64 off = kv.first.second;
        prepStore(*dst, off, 1);
        Acc acc; B cov = F; 
        for(auto& c : kv.second) { cov = Or(cov, c.g); if(c.v.k == Val::NONE) continue; AltView V(c.v); for(auto& y : V) acc.add(And(c.g, y.first), y.second); }
        B rest = Not(cov);
        if(And(rest, st.pc) != F && dst->c[off].n)
        { Val old = rawLoad(*dst, off, 1, 8); AltView V(old); for(auto& y : V) { B g = And(rest, y.first); if(And(g, st.pc) != F) acc.add(g, y.second); } }
        if(acc.a.empty()) { dst->c[off] = Cell(); continue; }
        rawStore(*dst, off, 1, acc.val());
    }
}

static int allocObj(State& st, const string& name, const Val& size, u64 phys)
{
    int id = newObj(name, phys, false);
    if(constMem.size() < objs.size()) constMem.resize(objs.size());
    auto s = std::make_shared<ObjS>(); s->c.resize(phys); s->size = size;
    st.mem.put(id, s);
    return id;
}

static string cstrOf(const LV* v)
{
    if(auto g = dyn_cast<GlobalVariable>(v->stripPointerCasts()))
        if(g->hasInitializer())
            if(auto cd = dyn_cast<llvm::ConstantDataArray>(g->getInitializer())) return cd->getAsCString().str();
    return "?";
}
static string cstrAt(L l)       // the string constant a pointer leaf refers to
{
    if(l->k == PTR && l->obj >= 0 && objs[l->obj].gv) return cstrOf(objs[l->obj].gv);
    return "?";
}
static std::set<string> extModels;

// ------------------------------------------------------------------ executing one activation
struct Act
{
    FnInfo* fi; int depth; Result res; std::unordered_map<const BasicBlock*, vector<State>> pend;
    vector<std::pair<State, Instruction*>> work;   // states still to run in the current block
    vector<int> allocas;

    Val get(State& s, const LV* v)
    {
        if(auto c = dyn_cast<Constant>(v)) return constVal(c);
        return s.regs[fi->reg[v]];
    }
    Val getw(State& s, const LV* v) { Val r = get(s, v); if(r.k == Val::NONE) { if(! isa<Constant>(v)) fail("use of a register without a value", v); unsigned w = widthOf(v->getType()); return w == 1 ? Val::ofBool(F) : Val::ofLeaf(cst(w, 0)); } return r; }
    void set(State& s, const LV* v, const Val& x) { s.regs[fi->reg[v]] = x; }

    void enter(const BasicBlock* from, const BasicBlock* to, State&& s)
    {
        if(! feasible(s.pc)) return;
        // phis
        vector<std::pair<unsigned, Val>> ph;
        for(auto& p : to->phis()) ph.push_back({fi->reg[&p], get(s, p.getIncomingValueForBlock(from))});
        for(auto& x : ph) s.regs[x.first] = x.second;
        if(! fi->loopIx.empty())
        {
            if(s.hops.size() < fi->loopIx.size()) s.hops.resize(fi->loopIx.size());
            auto l = fi->LI.getLoopFor(to);
            if(l && l->getHeader() == to) { auto& h = s.hops[fi->loopIx[l]]; if(l->contains(from)) ++h; else h = 0; if(h > loopMax) loopMax = h; }
        }
        auto& live = fi->live[to];
        auto& q = pend[to];
        State* hit = nullptr;
        for(auto& o : q)
        {
            bool ok = true;
            for(auto r : live) if(ptrConflict(o.regs[r], s.regs[r])) { ok = false; break; }
            if(ok && ! ptrConflict(o.excType, s.excType) && memCompatible(o.mem, s.mem)) { hit = &o; break; }
        }
        if(! hit && q.size() >= maxStates) hit = &q.back();
        if(! hit)
        {
            // drop dead registers
            State n; n.pc = s.pc; n.mem = std::move(s.mem); n.excType = s.excType; n.excObj = s.excObj; n.hops = std::move(s.hops);
            n.regs.resize(fi->nregs);
            for(auto r : live) n.regs[r] = std::move(s.regs[r]);
            q.push_back(std::move(n)); if(q.size() > statesPeak) statesPeak = q.size();
            return;
        }
        ++mergeCount;
        State& o = *hit; B ga = o.pc, gb = s.pc;
        for(auto r : live) o.regs[r] = mergeVal(ga, o.regs[r], gb, s.regs[r]);
        o.excType = mergeVal(ga, o.excType, gb, s.excType); o.excObj = mergeVal(ga, o.excObj, gb, s.excObj);
        mergeMem(ga, o.mem, gb, s.mem);
        for(size_t k = 0; k < o.hops.size() && k < s.hops.size(); ++k) o.hops[k] = std::max(o.hops[k], s.hops[k]);
        o.pc = Or(ga, gb); o.meas = ~0ull;
    }
    void runRegion(llvm::Loop* loop)
    {
        for(auto bb : fi->nodes[loop])
        {
            if(loop && bb == loop->getHeader()) continue; // executed by runLoop
            auto l = fi->LI.getLoopFor(bb);
            auto it = pend.find(bb); if(it == pend.end() || it->second.empty()) continue;
            if(l != loop) runLoop(l);
            else { vector<State> q = std::move(it->second); it->second.clear(); for(auto& s : q) runBlock(bb, std::move(s)); }
        }
    }
    void runLoop(llvm::Loop* l)
    {
        auto h = l->getHeader(); unsigned ix = fi->loopIx[l];
        while(! pend[h].empty())
        {
            auto& q = pend[h]; size_t best = 0;
            if(q.size() > 1)
            {
                // the state that is furthest behind goes first, so that it can join the others
                auto& live = fi->live[h];
                for(size_t i = 0; i < q.size(); ++i)
                {
                    if(q[i].meas == ~0ull) q[i].meas = ptrMeasure(q[i], live);
                    if(q[i].meas < q[best].meas) best = i;
                }
            }
            State s = std::move(q[best]);
            if(best + 1 != q.size()) q[best] = std::move(q.back());
            q.pop_back();
            if(s.hops.size() > ix && s.hops[ix] > maxIters)
            {
                report("HANG", "loop does not end within " + std::to_string(maxIters) + " iterations in " + curFn, s.pc);
                continue;
            }
            runBlock(h, std::move(s));
            runRegion(l);
        }
    }
    void finishExc(State&& s) { if(feasible(s.pc)) addOutcome(res.exc, std::move(s), Val()); }

    void unwindTo(const BasicBlock* from, const BasicBlock* lp, State&& s)
    {
        // clauses decide whether this landing pad takes the exception
        auto pad = lp->getLandingPadInst();
        bool catchAll = pad->isCleanup();
        B taken = F;
        for(unsigned i = 0; i < pad->getNumClauses(); ++i)
        {
            if(! pad->isCatch(i)) fail("filter clause", pad);
            auto c = pad->getClause(i)->stripPointerCasts();
            if(isa<llvm::ConstantPointerNull>(c)) { catchAll = true; continue; }
            AltView A(s.excType);
            for(auto& x : A) if(tiMatch(excName(x.second), cast<GlobalVariable>(c)->getName().str())) taken = Or(taken, x.first);
        }
        if(catchAll) { enter(from, lp, std::move(s)); return; }
        B y = And(s.pc, taken), n = And(s.pc, Not(taken));
        if(n != F) { State t = s; t.pc = n; finishExc(std::move(t)); }
        if(y != F) { s.pc = y; enter(from, lp, std::move(s)); }
    }

    // Splits the state on the alternatives of an operand; each part re-executes I.
    bool forkOn(State& st, Instruction& I, const LV* v)
    {
        if(isa<Constant>(v)) return false;
        unsigned r = fi->reg[v]; Val x = st.regs[r];
        if(x.k != Val::UNION) return false;
        if(work.size() > maxStates) return false;
        vector<std::pair<B, L>> parts;
        for(auto& a : *x.u) { B g = And(st.pc, a.first); if(g != F) parts.push_back({g, a.second}); }
        if(parts.size() == 1) { st.regs[r] = Val::ofLeaf(parts[0].second); return false; }
        if(parts.empty()) { st.pc = F; return false; }
        for(auto& p : parts)
        {
            ++forkCount;
            State t = st; t.pc = p.first; t.regs[r] = Val::ofLeaf(p.second);
            for(auto& y : t.regs) if(y.k == Val::UNION)
            {
                Acc acc; bool drop = false;
                for(auto& a : *y.u) if(And(a.first, t.pc) != F) acc.a.push_back(a); else drop = true;
                if(drop) { if(acc.a.size() == 1) y = Val::ofLeaf(acc.a[0].second); else { Val n; n.k = Val::UNION; n.u = std::make_shared<Alts>(std::move(acc.a)); y = n; } }
            }
            work.emplace_back(std::move(t), &I);
        }
        return true;
    }
    void runBlock(BasicBlock* bb, State&& s0)
    {
        size_t base = work.size();
        work.emplace_back(std::move(s0), bb->getFirstNonPHI());
        while(work.size() > base)
        {
            State st = std::move(work.back().first); Instruction* i = work.back().second; work.pop_back();
            ++blockCount;
            if((blockCount & 15) == 0 && std::chrono::steady_clock::now() > deadline) throw EngineError("TIME budget exhausted");
            while(i)
            {
                ++instCount; ++fi->count;
                size_t ma0 = maxAlts;
                bool cont = exec(st, *i);
                if(trace && maxAlts > ma0 && maxAlts > 24) { string d; llvm::raw_string_ostream os(d); i->print(os); fprintf(stderr, "ALTS %zu in %s: %s\n", maxAlts, fi->F->getName().str().c_str(), d.c_str()); }
                if(! cont || st.pc == F) break;
                i = i->getNextNode();
            }
        }
    }
    // returns false when the state has been handed over (or ended)
    bool exec(State& st, Instruction& I)
    {
        auto O = [&](unsigned i) { return getw(st, I.getOperand(i)); };
        B pc = st.pc;
        unsigned xop = 0;
        switch(I.getOpcode())
        {
        case Instruction::Add: xop = X_ADD; break; case Instruction::Sub: xop = X_SUB; break; case Instruction::Mul: xop = X_MUL; break;
        case Instruction::UDiv: xop = X_UDIV; break; case Instruction::URem: xop = X_UREM; break; case Instruction::SDiv: xop = X_SDIV; break;
        case Instruction::SRem: xop = X_SREM; break; case Instruction::And: xop = X_AND; break; case Instruction::Or: xop = X_OR; break;
        case Instruction::Xor: xop = X_XOR; break; case Instruction::Shl: xop = X_SHL; break; case Instruction::LShr: xop = X_LSHR; break;
        case Instruction::AShr: xop = X_ASHR; break;
        default: break;
        }
        if(xop)
        {
            unsigned w = widthOf(I.getType());
            Val a = O(0), b = O(1);
            if(w == 1)
            {
                B x = truth(a), y = truth(b);
                B r = xop == X_AND || xop == X_MUL ? And(x, y) : xop == X_OR ? Or(x, y) : bm.Xor(x, y);
                if(xop >= X_SHL || xop == X_UDIV) fail("i1 arithmetic", &I);
                set(st, &I, Val::ofBool(r)); return true;
            }
            set(st, &I, lift2(a, b, pc, w, [&](L x, L y) { return leafBin(xop, w, x, y); }));
            return true;
        }
        switch(I.getOpcode())
        {
        case Instruction::ICmp:
        {
            auto& c = cast<llvm::ICmpInst>(I); Val a = O(0), b = O(1); B r;
            if(widthOf(I.getOperand(0)->getType()) == 1)
            {
                B x = truth(a), y = truth(b);
                switch(c.getPredicate()) { case llvm::CmpInst::ICMP_EQ: r = Not(bm.Xor(x, y)); break; case llvm::CmpInst::ICMP_NE: r = bm.Xor(x, y); break;
                case llvm::CmpInst::ICMP_ULT: case llvm::CmpInst::ICMP_SGT: r = And(Not(x), y); break; case llvm::CmpInst::ICMP_UGT: case llvm::CmpInst::ICMP_SLT: r = And(x, Not(y)); break;
                case llvm::CmpInst::ICMP_ULE: case llvm::CmpInst::ICMP_SGE: r = Or(Not(x), y); break; default: r = Or(x, Not(y)); break; }
                set(st, &I, Val::ofBool(r)); return true;
            }
            switch(c.getPredicate())
            {
            case llvm::CmpInst::ICMP_EQ: r = liftPred(P_EQ, a, b, pc); break;
            case llvm::CmpInst::ICMP_NE: r = Not(liftPred(P_EQ, a, b, pc)); break;
            case llvm::CmpInst::ICMP_ULT: r = liftPred(P_ULT, a, b, pc); break;
            case llvm::CmpInst::ICMP_UGE: r = Not(liftPred(P_ULT, a, b, pc)); break;
            case llvm::CmpInst::ICMP_UGT: r = liftPred(P_ULT, b, a, pc); break;
            case llvm::CmpInst::ICMP_ULE: r = Not(liftPred(P_ULT, b, a, pc)); break;
            case llvm::CmpInst::ICMP_SLT: r = liftPred(P_SLT, a, b, pc); break;
            case llvm::CmpInst::ICMP_SGE: r = Not(liftPred(P_SLT, a, b, pc)); break;
            case llvm::CmpInst::ICMP_SGT: r = liftPred(P_SLT, b, a, pc); break;
            case llvm::CmpInst::ICMP_SLE: r = Not(liftPred(P_SLT, b, a, pc)); break;
            default: fail("icmp", &I);
            }
            if(And(pc, r) == F) r = F; else if(And(pc, Not(r)) == F) r = T;
            set(st, &I, Val::ofBool(r)); return true;
        }
        case Instruction::Select:
        {
            B c = truth(O(0));
            if(c == T || And(pc, Not(c)) == F) { set(st, &I, get(st, I.getOperand(1))); return true; }
            if(c == F || And(pc, c) == F) { set(st, &I, get(st, I.getOperand(2))); return true; }
            set(st, &I, mergeVal(c, get(st, I.getOperand(1)), Not(c), get(st, I.getOperand(2))));
            return true;
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
        {
            unsigned w = widthOf(I.getType()); Val a = O(0); unsigned aw = widthOf(I.getOperand(0)->getType());
            unsigned op = I.getOpcode() == Instruction::ZExt ? X_ZEXT : I.getOpcode() == Instruction::SExt ? X_SEXT : X_TRUNC;
            if(aw == 1)
            {
                u64 one = op == X_SEXT ? maskw(w) : 1; B c = truth(a);
                Acc acc; acc.add(c, cst(w, one)); acc.add(Not(c), cst(w, 0)); set(st, &I, acc.val()); return true;
            }
            if(w == 1) { set(st, &I, Val::ofBool(Not(liftPred(P_EQ, lift1(a, pc, aw, [&](L l) { return leafBin(X_AND, aw, l, cst(aw, 1)); }), Val::ofLeaf(cst(aw, 0)), pc)))); return true; }
            set(st, &I, lift1(a, pc, w, [&](L l) { return leafCast(op, w, l); })); return true;
        }
        case Instruction::PtrToInt: { unsigned w = widthOf(I.getType()); Val a = O(0); if(w < 64) a = lift1(a, pc, w, [&](L l) { return leafCast(X_TRUNC, w, l); }); set(st, &I, a); return true; }
        case Instruction::IntToPtr: { Val a = O(0); set(st, &I, lift1(a, pc, 64, [&](L l) { return l->k == CONST && l->c ? leafFromAddr(l->c) : l; })); return true; }
        case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: set(st, &I, get(st, I.getOperand(0))); return true;
        case Instruction::GetElementPtr: set(st, &I, gepVal(cast<llvm::GEPOperator>(&I), [&](const LV* v) { return getw(st, v); }, pc)); return true;
        case Instruction::Load:
        {
            auto& l = cast<llvm::LoadInst>(I);
            if(forkOn(st, I, l.getPointerOperand())) return false;
            if(st.pc == F) return false;
            set(st, &I, loadMem(st, getw(st, l.getPointerOperand()), widthOf(I.getType()), &I));
            return true;
        }
        case Instruction::Store:
        {
            auto& s = cast<llvm::StoreInst>(I);
            if(forkOn(st, I, s.getPointerOperand())) return false;
            if(st.pc == F) return false;
            storeMem(st, getw(st, s.getPointerOperand()), widthOf(s.getValueOperand()->getType()), get(st, s.getValueOperand()), &I);
            return true;
        }
        case Instruction::Alloca:
        {
            auto& a = cast<llvm::AllocaInst>(I);
            u64 n = DL->getTypeAllocSize(a.getAllocatedType());
            if(auto k = dyn_cast<llvm::ConstantInt>(a.getArraySize())) n *= k->getZExtValue(); else fail("dynamic alloca", &I);
            int id = allocObj(st, "local in " + fi->F->getName().str(), Val::ofLeaf(cst(64, n)), n);
            allocas.push_back(id); set(st, &I, Val::ofLeaf(ptrl(id, 0))); return true;
        }
        case Instruction::ExtractValue:
        {
            auto& e = cast<llvm::ExtractValueInst>(I); Val v = get(st, I.getOperand(0));
            for(auto ix : e.indices()) { if(v.k != Val::AGG) fail("extractvalue", &I); Val t = (*v.agg)[ix]; v = t; }
            set(st, &I, v); return true;
        }
        case Instruction::InsertValue:
        {
            auto& e = cast<llvm::InsertValueInst>(I); Val v = get(st, I.getOperand(0));
            if(e.getNumIndices() != 1 || v.k != Val::AGG) fail("insertvalue", &I);
            Val r; r.k = Val::AGG; r.agg = std::make_shared<vector<Val>>(*v.agg); (*r.agg)[e.getIndices()[0]] = get(st, I.getOperand(1));
            set(st, &I, r); return true;
        }
        case Instruction::Br:
        {
            auto& b = cast<llvm::BranchInst>(I); auto bb = I.getParent();
            if(b.isUnconditional()) { enter(bb, b.getSuccessor(0), std::move(st)); return false; }
            B c = truth(getw(st, b.getCondition())); B y = And(pc, c), n = And(pc, Not(c));
            if(n == F) { enter(bb, b.getSuccessor(0), std::move(st)); return false; }
            if(y == F) { enter(bb, b.getSuccessor(1), std::move(st)); return false; }
            State t = st; t.pc = y; enter(bb, b.getSuccessor(0), std::move(t));
            st.pc = n; enter(bb, b.getSuccessor(1), std::move(st));
            return false;
        }
        case Instruction::Switch:
        {
            auto& s = cast<llvm::SwitchInst>(I); auto bb = I.getParent(); Val c = getw(st, s.getCondition()); B rest = pc;
            unsigned cw = widthOf(s.getCondition()->getType());
            std::map<BasicBlock*, B> to; vector<BasicBlock*> order;
            for(auto& k : s.cases())
            {
                B e = cw == 1 ? (k.getCaseValue()->isZero() ? Not(truth(c)) : truth(c)) : liftPred(P_EQ, c, Val::ofLeaf(cst(cw, k.getCaseValue()->getZExtValue())), rest);
                B g = And(rest, e); if(g == F) continue;
                rest = And(rest, Not(e));
                auto d = k.getCaseSuccessor(); if(! to.count(d)) { to[d] = F; order.push_back(d); } to[d] = Or(to[d], g);
            }
            if(rest != F) { auto d = s.getDefaultDest(); if(! to.count(d)) { to[d] = F; order.push_back(d); } to[d] = Or(to[d], rest); }
            for(auto d : order) { State t = st; t.pc = to[d]; enter(bb, d, std::move(t)); }
            return false;
        }
        case Instruction::Ret:
        {
            Val r; if(I.getNumOperands()) r = get(st, I.getOperand(0));
            for(int a : allocas) st.mem.erase(a);
            st.regs.clear();
            addOutcome(res.norm, std::move(st), r); return false;
        }
        case Instruction::Unreachable:
            report("MEM", "unreachable code executed (undefined behaviour) in " + curFn, st.pc); return false;
        case Instruction::LandingPad:
        {
            auto& lp = cast<llvm::LandingPadInst>(I);
            Val r; r.k = Val::AGG; r.agg = std::make_shared<vector<Val>>();
            r.agg->push_back(st.excObj);
            Acc sel; B left = T;
            for(unsigned i = 0; i < lp.getNumClauses(); ++i)
            {
                auto c = lp.getClause(i)->stripPointerCasts();
                if(isa<llvm::ConstantPointerNull>(c)) { sel.add(left, cst(32, 9999)); left = F; break; }
                B t = F; AltView A(st.excType);
                for(auto& x : A) if(tiMatch(excName(x.second), cast<GlobalVariable>(c)->getName().str())) t = Or(t, x.first);
                sel.add(And(left, t), cst(32, globalId(cast<GlobalVariable>(c)) + 1)); left = And(left, Not(t));
            }
            sel.add(left, cst(32, 0));
            r.agg->push_back(sel.val());
            set(st, &I, r); return true;
        }
        case Instruction::Resume: { for(int a : allocas) st.mem.erase(a); st.regs.clear(); finishExc(std::move(st)); return false; }
        case Instruction::Call: case Instruction::Invoke: return call(st, cast<CallBase>(I));
        case Instruction::Fence: return true;
        case Instruction::AtomicRMW:
        {
            auto& a = cast<llvm::AtomicRMWInst>(I); unsigned w = widthOf(I.getType());
            Val p = O(0), old = loadMem(st, p, w, &I), x = O(1);
            unsigned op = a.getOperation() == llvm::AtomicRMWInst::Add ? X_ADD : a.getOperation() == llvm::AtomicRMWInst::Sub ? X_SUB : 0; if(! op) fail("atomicrmw", &I);
            storeMem(st, p, w, lift2(old, x, st.pc, w, [&](L l, L r) { return leafBin(op, w, l, r); }), &I); set(st, &I, old); return true;
        }
        default: fail(string("instruction ") + I.getOpcodeName(), &I);
        }
    }

    bool after(State& st, CallBase& c, const Val& r)
    {
        if(! c.getType()->isVoidTy()) set(st, &c, r);
        if(auto iv = dyn_cast<llvm::InvokeInst>(&c)) { if(st.pc != F) enter(iv->getParent(), iv->getNormalDest(), std::move(st)); return false; }
        return true;
    }
    bool throwFrom(State&& st, CallBase& c)
    {
        if(auto iv = dyn_cast<llvm::InvokeInst>(&c)) { unwindTo(iv->getParent(), iv->getUnwindDest(), std::move(st)); return false; }
        for(int a : allocas) st.mem.erase(a);
        st.regs.clear();
        finishExc(std::move(st)); return false;
    }

    bool call(State& st, CallBase& c)
    {
        LV* cv = c.getCalledOperand()->stripPointerCasts();
        if(auto ga = dyn_cast<llvm::GlobalAlias>(cv)) cv = const_cast<Constant*>(ga->getAliasee())->stripPointerCasts();
        if(auto f = dyn_cast<llvm::Function>(cv))
        {
            if(f->isIntrinsic()) { Val r; if(! intrinsic(st, c, f, r)) return false; return after(st, c, r); }
            return callOne(st, c, f);
        }
        Val p = getw(st, c.getCalledOperand()); Alts pa = ptrAlts(p, st.pc);
        if(pa.size() == 1)
        {
            if(pa[0].second->k != PTR || ! objs[pa[0].second->obj].fn) { report("MEM", "call through invalid pointer in " + curFn, st.pc); return false; }
            return callOne(st, c, const_cast<llvm::Function*>(objs[pa[0].second->obj].fn));
        }
        if(forkOn(st, c, c.getCalledOperand())) return false;
        fail("call through an undetermined pointer", &c);
    }
    bool join(State& st, CallBase& c, Result& r)
    {
        for(auto& e : r.exc)
        {
            State t; t.pc = e.st.pc; t.mem = std::move(e.st.mem); t.excType = e.st.excType; t.excObj = e.st.excObj;
            t.regs = st.regs; t.hops = st.hops;
            throwFrom(std::move(t), c);
        }
        if(r.norm.empty()) return false;
        for(size_t i = 1; i < r.norm.size(); ++i)
        {
            auto& o = r.norm[i];
            State t; t.pc = o.st.pc; t.mem = std::move(o.st.mem); t.regs = st.regs; t.hops = st.hops; t.excType = st.excType; t.excObj = st.excObj;
            if(after(t, c, o.ret)) work.emplace_back(std::move(t), c.getNextNode());
        }
        auto& o = r.norm[0];
        st.pc = o.st.pc; st.mem = std::move(o.st.mem);
        return after(st, c, o.ret);
    }
    bool callOne(State& st, CallBase& c, llvm::Function* f)
    {
        if(f->isDeclaration()) return external(st, c, f);
        vector<Val> args; for(auto& a : c.args()) args.push_back(get(st, a));
        State t; t.pc = st.pc; t.mem = std::move(st.mem); t.excType = st.excType; t.excObj = st.excObj;
        Result r = callFn(f, std::move(args), std::move(t), depth + 1);
        curFn = fi->F->getName().str();
        return join(st, c, r);
    }

    bool intrinsic(State& st, CallBase& c, llvm::Function* f, Val& r)
    {
        using namespace llvm;
        auto A = [&](unsigned i) { return getw(st, c.getArgOperand(i)); };
        unsigned w = c.getType()->isIntegerTy() || c.getType()->isPointerTy() ? widthOf(c.getType()) : 0;
        B pc = st.pc;
        auto pick = [&](B cnd, const Val& x, const Val& y) { if(cnd == T || ::And(pc, ::Not(cnd)) == ::F) return x; if(cnd == ::F || ::And(pc, cnd) == ::F) return y; return mergeVal(cnd, x, ::Not(cnd), y); };
        switch(f->getIntrinsicID())
        {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch:
        case Intrinsic::invariant_end: return true;
        case Intrinsic::invariant_start: r = Val::ofLeaf(cst(64, 0)); return true;
        case Intrinsic::trap: report("ABORT", "trap in " + curFn, pc); return false;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
            for(unsigned i = 0; i < 3; ++i) if(forkOn(st, c, c.getArgOperand(i))) return false;
            if(st.pc == ::F) return false;
            copyMem(st, A(0), A(1), A(2), &c); return st.pc != ::F;
        case Intrinsic::memset:
        {
            for(unsigned i = 0; i < 3; i += 2) if(forkOn(st, c, c.getArgOperand(i))) return false;
            if(st.pc == ::F) return false;
            Val d = A(0), x = A(1); Val nv = A(2); AltView nn(nv);
            u64 mx = 0; for(auto& k : nn) if(::And(k.first, pc) != ::F) mx = std::max(mx, k.second->c);
            if(nv.k == Val::LEAF && d.k == Val::LEAF && d.leaf->k == PTR && mx % 8 == 0 && x.k == Val::LEAF && x.leaf->k == CONST && x.leaf->c == 0 && d.leaf->c % 8 == 0)
            { for(u64 i = 0; i < mx; i += 8) storeMem(st, Val::ofLeaf(ptrl(d.leaf->obj, d.leaf->c + i)), 64, Val::ofLeaf(cst(64, 0)), &c); return st.pc != ::F; }
            if(nv.k == Val::LEAF && d.k == Val::LEAF && d.leaf->k == PTR && x.k == Val::LEAF && x.leaf->k == CONST && x.leaf->c == 0 && mx >= 8 && d.leaf->c % 8 == 0)
            { u64 i = 0; for(; i + 8 <= mx; i += 8) storeMem(st, Val::ofLeaf(ptrl(d.leaf->obj, d.leaf->c + i)), 64, Val::ofLeaf(cst(64, 0)), &c);
              for(; i + 4 <= mx; i += 4) storeMem(st, Val::ofLeaf(ptrl(d.leaf->obj, d.leaf->c + i)), 32, Val::ofLeaf(cst(32, 0)), &c);
              for(; i < mx; ++i) storeMem(st, Val::ofLeaf(ptrl(d.leaf->obj, d.leaf->c + i)), 8, Val::ofLeaf(cst(8, 0)), &c); return st.pc != ::F; }
            B rest = ::F; State done; bool has = false;
            // byte by byte on the sub-state that still has bytes to write
            for(u64 i = 0; i < mx; ++i)
            {
                B more = liftPred(P_ULT, Val::ofLeaf(cst(64, i)), nv, st.pc);
                B out = ::And(st.pc, ::Not(more));
                if(out != ::F) { State t = st; t.pc = out; if(! has) { done = std::move(t); has = true; } else { mergeMem(done.pc, done.mem, t.pc, t.mem); done.pc = ::Or(done.pc, t.pc); } }
                st.pc = ::And(st.pc, more); if(st.pc == ::F) break;
                Val p = lift1(d, st.pc, 64, [&](L l) { return leafBin(X_ADD, 64, l, cst(64, i)); });
                storeMem(st, p, 8, x, &c);
            }
            (void)rest;
            if(has) { if(st.pc == ::F) { st.mem = std::move(done.mem); st.pc = done.pc; } else { mergeMem(st.pc, st.mem, done.pc, done.mem); st.pc = ::Or(st.pc, done.pc); } }
            return st.pc != ::F;
        }
        case Intrinsic::umin: r = pick(liftPred(P_ULT, A(0), A(1), pc), A(0), A(1)); return true;
        case Intrinsic::umax: r = pick(liftPred(P_ULT, A(0), A(1), pc), A(1), A(0)); return true;
        case Intrinsic::smin: r = pick(liftPred(P_SLT, A(0), A(1), pc), A(0), A(1)); return true;
        case Intrinsic::smax: r = pick(liftPred(P_SLT, A(0), A(1), pc), A(1), A(0)); return true;
        case Intrinsic::abs: { Val z = Val::ofLeaf(cst(w, 0)); r = pick(liftPred(P_SLT, A(0), z, pc), lift1(A(0), pc, w, [&](L l) { return leafBin(X_SUB, w, cst(w, 0), l); }), A(0)); return true; }
        case Intrinsic::usub_sat: { Val d = lift2(A(0), A(1), pc, w, [&](L x, L y) { return leafBin(X_SUB, w, x, y); }); r = pick(liftPred(P_ULT, A(0), A(1), pc), Val::ofLeaf(cst(w, 0)), d); return true; }
        case Intrinsic::uadd_sat: { Val d = lift2(A(0), A(1), pc, w, [&](L x, L y) { return leafBin(X_ADD, w, x, y); }); r = pick(liftPred(P_ULT, d, A(0), pc), Val::ofLeaf(cst(w, maskw(w))), d); return true; }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        {
            unsigned aw = widthOf(c.getArgOperand(0)->getType()); auto id = f->getIntrinsicID();
            unsigned op = id == Intrinsic::uadd_with_overflow ? X_ADD : id == Intrinsic::usub_with_overflow ? X_SUB : X_MUL;
            Val d = lift2(A(0), A(1), pc, aw, [&](L x, L y) { return leafBin(op, aw, x, y); }); B ov;
            if(op == X_ADD) ov = liftPred(P_ULT, d, A(0), pc);
            else if(op == X_SUB) ov = liftPred(P_ULT, A(0), A(1), pc);
            else
            {
                // overflow iff b != 0 and a > max / b
                Val bv = A(1); Val lim = lift1(bv, pc, aw, [&](L l) { return leafBin(X_UDIV, aw, cst(aw, maskw(aw)), l); });
                ov = ::And(::Not(liftPred(P_EQ, bv, Val::ofLeaf(cst(aw, 0)), pc)), liftPred(P_ULT, lim, A(0), pc));
            }
            r.k = Val::AGG; r.agg = std::make_shared<vector<Val>>(); r.agg->push_back(d); r.agg->push_back(Val::ofBool(ov)); return true;
        }
        case Intrinsic::fshl: case Intrinsic::fshr:
        {
            auto k = dyn_cast<ConstantInt>(c.getArgOperand(2)); if(! k) fail("funnel shift", &c);
            unsigned s = k->getZExtValue() % w; if(f->getIntrinsicID() == Intrinsic::fshr) s = (w - s) % w;
            if(s == 0) { r = f->getIntrinsicID() == Intrinsic::fshl ? A(0) : A(1); return true; }
            r = lift2(A(0), A(1), pc, w, [&](L x, L y) { return leafBin(X_OR, w, leafBin(X_SHL, w, x, cst(w, s)), leafBin(X_LSHR, w, y, cst(w, w - s))); }); return true;
        }
        case Intrinsic::is_constant: r = Val::ofBool(::F); return true;
        case Intrinsic::objectsize: r = Val::ofLeaf(cst(w, maskw(w))); return true;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: r = A(0); return true;
        case Intrinsic::eh_typeid_for: r = Val::ofLeaf(cst(32, globalId(cast<GlobalVariable>(c.getArgOperand(0)->stripPointerCasts())) + 1)); return true;
        case Intrinsic::load_relative:
        {
            auto g = dyn_cast<GlobalVariable>(c.getArgOperand(0)->stripPointerCasts()); if(! g) fail("load.relative", &c);
            auto ca = cast<ConstantArray>(g->getInitializer()); Acc acc; Val ix = A(1); AltView IX(ix);
            for(auto& x : IX)
            {
                if(x.second->k != CONST) fail("load.relative index", &c);
                auto ce = cast<ConstantExpr>(ca->getOperand(x.second->c / 4)); if(ce->getOpcode() == Instruction::Trunc) ce = cast<ConstantExpr>(ce->getOperand(0));
                Val t = constVal(cast<Constant>(cast<ConstantExpr>(ce->getOperand(0))->getOperand(0))); acc.add(x.first, t.leaf);
            }
            r = acc.val(); return true;
        }
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap:
        {
            auto id = f->getIntrinsicID();
            r = lift1(A(0), pc, w, [&](L l) -> L {
                auto g = [&](u64 v) -> u64 { switch(id) { case Intrinsic::ctpop: return __builtin_popcountll(v); case Intrinsic::ctlz: return v ? __builtin_clzll(v) - (64 - w) : w; case Intrinsic::cttz: return v ? __builtin_ctzll(v) : w; default: return __builtin_bswap64(v) >> (64 - w); } };
                if(l->k == CONST) return cst(w, g(l->c));
                if(l->k == FN1) { u64 t[256]; for(int i = 0; i < 256; ++i) t[i] = g(l->tab[i]); return fn1(w, l->byte, t); }
                fail("bit count of a term", &c); });
            return true;
        }
        default: fail("intrinsic " + f->getName().str(), &c);
        }
    }

    bool external(State& st, CallBase& c, llvm::Function* f)
    {
        string n = f->getName().str(); extModels.insert(n);
        if(n == "memcpy" || n == "memmove" || n == "memcmp" || n == "bcmp" || n == "strlen" || n == "memchr" || n == "v_fork" || n == "_ZdlPv" || n == "_ZdlPvm")
        {
            for(unsigned i = 0; i < c.arg_size(); ++i) { if(n == "memchr" && i == 1) continue; if(forkOn(st, c, c.getArgOperand(i))) return false; }
            if(st.pc == F) return false;
        }
        B pc = st.pc;
        auto A = [&](unsigned i) { return getw(st, c.getArgOperand(i)); };
        auto ret = [&](const Val& v) { return after(st, c, v); };
        auto C = [](unsigned w, u64 v) { return Val::ofLeaf(cst(w, v)); };
        if(n.rfind("nondet_", 0) == 0 && pc != topPc) fail("inputs have to be drawn unconditionally", &c);
        if(n == "v_fork") return ret(A(0));
        if(n == "nondet_u8")
        {
            Val v = freshByte(); --undefCount; Input i; i.kind = 0; i.ix = byteBits.size() - 1; i.w = 8; i.n = 0; inputs.push_back(i);
            return ret(v);
        }
        if(n == "nondet_u32" || n == "nondet_u64")
        {
            unsigned w = n == "nondet_u32" ? 32 : 64; int ix = varWidth.size(); varWidth.push_back(w);
            Input i; i.kind = 1; i.ix = ix; i.w = w; i.n = 0; inputs.push_back(i);
            return ret(Val::ofLeaf(intern(VAR, w, 0, -1, ix, 0, nullptr, nullptr, nullptr)));
        }
        if(n == "nondet_choice")
        {
            Val k = A(0); if(k.k != Val::LEAF || k.leaf->k != CONST) fail("nondet_choice needs a constant", &c);
            unsigned K = k.leaf->c; unsigned nb = 0; while((1u << nb) < K) ++nb;
            Input i; i.kind = 2; i.ix = 0; i.w = 32; i.n = K; vector<B> bt(nb);
            for(int b = (int)nb - 1; b >= 0; --b) { bt[b] = bm.ithVar(bm.newVar()); }
            for(unsigned b = 0; b < nb; ++b) i.vars.push_back(bm.var(bt[b]));
            inputs.push_back(i);
            Acc acc;
            for(unsigned v = 0; v < (1u << nb); ++v) { B g = T; for(unsigned b = 0; b < nb; ++b) g = And(g, (v >> b) & 1 ? bt[b] : Not(bt[b])); acc.add1(g, cst(32, v < K ? v : K - 1)); }
            return ret(acc.val());
        }
        if(n == "v_assume") { if(pc == topPc) topPc = And(pc, truth(A(0))); st.pc = And(pc, truth(A(0))); if(! feasible(st.pc)) { st.pc = F; return false; } return ret(Val()); }
        if(n == "v_assert")
        {
            B cd = truth(A(0)); ++obTotal;
            if(cd == T) { ++obSimpl; return ret(Val()); }
            B bad = And(pc, Not(cd));
            bool reported = false;
            Val nv = A(1); AltView nms(nv);
            if(bad != F) for(auto& x : nms) { B b = And(bad, x.first); if(b != F && feasible(b)) { report("PROP", cstrAt(x.second), b); reported = true; } }
            if(! reported) obligs.push_back({nv.k == Val::LEAF ? cstrAt(nv.leaf) : string("?"), pc, cd});
            st.pc = And(pc, cd);
            if(st.pc == F) return false;
            return ret(Val());
        }
        if(n == "v_reach")
        {
            Val nv = A(0); AltView nms(nv);
            for(auto& x : nms) { string nm = cstrAt(x.second); if(! reachG.count(nm)) { reachG[nm] = F; reachNames.push_back(nm); } reachG[nm] = Or(reachG[nm], And(pc, x.first)); }
            return ret(Val());
        }
        if(n == "v_native") return ret(C(32, 0)); // 1 in the native build
        if(n == "__assert_fail") { report("ABORT", "assertion '" + cstrOf(c.getArgOperand(0)) + "' in " + curFn, pc); return false; }
        if(n == "_ZSt9terminatev" || n == "abort") { report("ABORT", n + " in " + curFn, pc); return false; }
        if(n == "__cxa_allocate_exception") { Val k = A(0); if(k.k != Val::LEAF) fail("exception size"); int id = allocObj(st, "exception", k, k.leaf->c); return ret(Val::ofLeaf(ptrl(id, 0))); }
        if(n == "__cxa_free_exception" || n == "__cxa_end_catch") return ret(Val());
        if(n == "__cxa_begin_catch") return ret(A(0));
        if(n == "__cxa_throw") { st.excObj = A(0); st.excType = A(1); return throwFrom(std::move(st), c); }
        if(n == "__cxa_rethrow") { return throwFrom(std::move(st), c); }
        if(n == "__cxa_guard_acquire")
        {
            Val g = loadMem(st, A(0), 8, &c); B z = liftPred(P_EQ, g, C(8, 0), st.pc);
            Acc a; a.add(z, cst(32, 1)); a.add(Not(z), cst(32, 0)); return ret(a.val());
        }
        if(n == "__cxa_guard_release") { storeMem(st, A(0), 8, C(8, 1), &c); return ret(Val()); }
        if(n == "__cxa_atexit") return ret(C(32, 0));
        if(n == "_Znwm" || n == "_Znam" || n == "malloc")
        {
            Val k = A(0); AltView K(k); u64 mx = 0;
            for(auto& x : K) if(And(x.first, pc) != F) { if(x.second->k != CONST) fail("allocation of unbounded symbolic size"); if(x.second->c > (1u << 16)) fail("allocation of " + std::to_string(x.second->c) + " bytes is outside the model"); mx = std::max(mx, x.second->c); }
            int id = allocObj(st, "heap block", k, mx); return ret(Val::ofLeaf(ptrl(id, 0)));
        }
        if(n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "free")
        {
            Alts pa = ptrAlts(A(0), pc);
            for(auto& x : pa)
            {
                B g = And(x.first, pc); if(g == F) continue;
                if(x.second->k == CONST && x.second->c == 0) continue;
                if(x.second->k != PTR || x.second->c != 0 || objs[x.second->obj].name != "heap block" || ! st.mem.find(x.second->obj)) { report("MEM", "free of invalid pointer in " + curFn, g); continue; }
                ObjS* s = objWrite(st, x.second->obj);
                if(And(g, s->dead) != F) report("MEM", "double free in " + curFn, And(g, s->dead));
                if(n == "_ZdlPvm") { /* sized: size must match */ B bad = Not(liftPred(P_EQ, s->size, A(1), g)); if(feasible(And(g, bad))) report("MEM", "sized delete with wrong size in " + curFn, And(g, bad)); }
                s->dead = Or(s->dead, g);
                if(s->dead == T || And(pc, Not(s->dead)) == F) s->c = vector<Cell>(s->c.size());
            }
            return ret(Val());
        }
        if(n == "memcpy" || n == "memmove") { copyMem(st, A(0), A(1), A(2), &c); if(st.pc == F) return false; return ret(A(0)); }
        if(n == "memcmp" || n == "bcmp" || n == "strncmp")
        {
            Val a = A(0), b = A(1), k = A(2); AltView K(k); u64 mx = 0;
            for(auto& x : K) if(And(x.first, pc) != F) { if(x.second->k != CONST) fail("memcmp length"); mx = std::max(mx, x.second->c); }
            B eq = T, lt = F, gt = F; State t = st; // reads are performed on a copy so that guards stay local
            B okpc = st.pc, lost = F;
            for(u64 i = 0; i < mx; ++i)
            {
                B more = liftPred(P_ULT, C(64, i), k, st.pc);
                t.pc = And(st.pc, more); if(t.pc == F) break;
                B before = t.pc;
                Val x = loadMem(t, lift1(a, t.pc, 64, [&](L l) { return leafBin(X_ADD, 64, l, cst(64, i)); }), 8, &c);
                if(t.pc == F) { lost = Or(lost, before); break; }
                Val y = loadMem(t, lift1(b, t.pc, 64, [&](L l) { return leafBin(X_ADD, 64, l, cst(64, i)); }), 8, &c);
                lost = Or(lost, And(before, Not(t.pc)));
                if(t.pc == F) break;
                B e = liftPred(P_EQ, x, y, t.pc); B l = n == "bcmp" ? F : liftPred(P_ULT, x, y, t.pc);
                B act = And(eq, more);
                lt = Or(lt, And(act, And(Not(e), l))); gt = Or(gt, And(act, And(Not(e), Not(l))));
                eq = And(eq, Or(Not(more), e));
                if(n == "strncmp") fail("strncmp");
            }
            st.pc = And(okpc, Not(lost)); if(st.pc == F) return false;
            Acc r; r.add(eq, cst(32, 0)); r.add(lt, cst(32, (u64)-1)); r.add(gt, cst(32, 1)); 
            return ret(r.val());
        }
        if(n == "strlen" || n == "memchr")
        {
            Val a = A(0); Acc r; B alive = st.pc; B lost = F;
            Val lim = n == "memchr" ? A(2) : Val(); Val ch = n == "memchr" ? lift1(A(1), pc, 8, [](L l) { return leafCast(X_TRUNC, 8, l); }) : C(8, 0);
            for(u64 i = 0; ; ++i)
            {
                if(n == "memchr") { B more = liftPred(P_ULT, C(64, i), lim, alive); B out = And(alive, Not(more)); if(out != F) r.add(out, cst(64, 0)); alive = And(alive, more); }
                if(alive == F) break;
                if(i > 4096) fail("strlen bound");
                State t; t.pc = alive; t.mem = st.mem;
                Val x = loadMem(t, lift1(a, alive, 64, [&](L l) { return leafBin(X_ADD, 64, l, cst(64, i)); }), 8, &c);
                lost = Or(lost, And(alive, Not(t.pc))); alive = t.pc;
                B z = And(alive, liftPred(P_EQ, x, ch, alive));
                if(z != F)
                {
                    if(n == "strlen") r.add(z, cst(64, i));
                    else { Val p = lift1(a, z, 64, [&](L l) { return leafBin(X_ADD, 64, l, cst(64, i)); }); AltView P(p); for(auto& q : P) r.add(And(z, q.first), q.second); }
                }
                alive = And(alive, Not(z));
            }
            st.pc = And(st.pc, Not(lost)); if(st.pc == F) return false;
            return ret(r.val());
        }
        if(n == "tolower" || n == "toupper")
        {
            bool lo = n == "tolower"; Val a = A(0);
            return ret(lift1(a, pc, 32, [&](L l) -> L {
                auto g = [&](u64 v) { return lo ? (v >= 'A' && v <= 'Z' ? v + 32 : v) : (v >= 'a' && v <= 'z' ? v - 32 : v); };
                if(l->k == CONST) return cst(32, g(l->c));
                if(l->k == FN1) { u64 t[256]; for(int i = 0; i < 256; ++i) t[i] = g(l->tab[i]); return fn1(32, l->byte, t); }
                fail("tolower of a term", &c); }));
        }
        // standard exception classes: contents are not modelled
        for(auto k : {"16invalid_argument", "12length_error", "12out_of_range", "11logic_error", "13runtime_error", "9bad_alloc", "9exception"})
        {
            string b = string("_ZNSt") + k;
            if(n.rfind(b + "C", 0) == 0 || n.rfind(b + "D", 0) == 0) return ret(Val());
        }
        fail("no model for external function " + n);
    }
};

static int maxDepth = 200;
static Result callFn(llvm::Function* f, vector<Val> args, State&& st, int depth)
{
    if(depth > maxDepth) fail("call depth");
    FnInfo* fi = infoOf(f);
    string saved = curFn; curFn = f->getName().str();
    if(trace) fprintf(stderr, "%*s> %s bdd=%zu pc=%zu\n", depth * 2, "", curFn.c_str(), bm.n.size(), bm.sizeOf(st.pc));
    Act a; a.fi = fi; a.depth = depth;
    st.regs.assign(fi->nregs, Val());
    unsigned i = 0;
    for(auto& x : f->args()) { st.regs[fi->reg[&x]] = args[i++]; }
    st.hops.clear();
    a.pend[&f->getEntryBlock()].push_back(std::move(st));
    a.runRegion(nullptr);
    for(auto& q : a.pend) if(! q.second.empty()) fail("irreducible control flow in " + curFn);
    if(f->doesNotThrow()) { for(auto& e : a.res.exc) report("ABORT", "exception leaves noexcept function " + curFn, e.st.pc); a.res.exc.clear(); }
    curFn = saved;
    return std::move(a.res);
}

static string jesc(const string& s) { string r; for(char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

int main(int argc, char** argv)
{
    if(argc < 4) { fprintf(stderr, "usage: symx module entry out.json [-time S] [-z3ms MS] [-iters K]\n"); return 2; }
    double tl = 600;
    for(int i = 4; i + 1 < argc; i += 2)
    {
        string o = argv[i];
        if(o == "-time") tl = atof(argv[i + 1]);
        else if(o == "-z3ms") z3ms = atoi(argv[i + 1]);
        else if(o == "-z3total") z3total = atof(argv[i + 1]);
        else if(o == "-iters") maxIters = atoi(argv[i + 1]);
        else if(o == "-nodes") bm.limit = strtoull(argv[i + 1], 0, 10);
    }
    auto t0 = std::chrono::steady_clock::now();
    deadline = t0 + std::chrono::milliseconds((long)(tl * 1000));
    llvm::LLVMContext ctx; llvm::SMDiagnostic err;
    auto m = llvm::parseIRFile(argv[1], err, ctx);
    if(! m) { err.print("symx", llvm::errs()); return 2; }
    M = m.get(); DL = &M->getDataLayout();
    string status = "ok", msg; u64 leftover = 0;
    try
    {
        auto f = M->getFunction(argv[2]); if(! f) fail("no entry function");
        State st;
        // mutable globals live in the state from the start
        for(auto& g : M->globals()) if(! g.isConstant() && g.hasInitializer() && g.getName() != "llvm.global_ctors" && g.getName() != "llvm.used")
        { int id = globalId(&g); if(! objs[id].isConst) st.mem.put(id, std::make_shared<ObjS>(*constMem[id])); }
        if(auto gc = M->getNamedGlobal("llvm.global_ctors"))
            if(auto ca = dyn_cast<llvm::ConstantArray>(gc->getInitializer()))
                for(auto& o : ca->operands())
                    if(auto cf = dyn_cast<llvm::Function>(cast<Constant>(o)->getAggregateElement(1u)))
                    { Result r = callFn(cf, {}, std::move(st), 0); if(r.norm.size() != 1) fail("global constructor failed"); st = std::move(r.norm[0].st); }
        Result r = callFn(f, {}, std::move(st), 0);
        for(auto& e : r.exc) report("ABORT", "exception escapes the harness", e.st.pc);
        double exec = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if(getenv("SYMX_VERBOSE")) fprintf(stderr, "exec %.2fs, %zu obligations\n", exec, obligs.size());
        double z3at0 = z3time;
        // every obligation that is not syntactically true is confirmed by Z3
        for(auto& o : obligs)
        {
            // (the BDD of the negation is already false; Z3 is given path and property separately)
            if(std::chrono::steady_clock::now() > deadline || z3time - z3at0 > z3total) { ++bddOnly; continue; }
            auto q = query(zb(o.pc) && ! zb(o.c), true);
            if(q.sat) fail("BDD and Z3 disagree on " + o.name);
            else if(q.unknown) ++bddOnly;
        }
        for(auto& nme : reachNames)
        {
            auto q = query(zb(reachG[nme]), true);
            if(q.sat) reachIn[nme] = q.in;
            printf("REACH %s %d\n", nme.c_str(), (int)q.sat);
        }
        if(leftover) { status = "incomplete"; msg = std::to_string(leftover) + " obligations undecided within the budget"; }
    }
    catch(EngineError& e) { status = string(e.what()).rfind("TIME", 0) == 0 ? "timeout" : "error"; msg = e.what(); }
    catch(z3::exception& e) { status = "error"; msg = string("z3: ") + e.msg(); }
    catch(std::exception& e) { status = string(e.what()) == "BDD node limit" ? "timeout" : "error"; msg = e.what(); }
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    FILE* o = fopen(argv[3], "w");
    fprintf(o, "{\"status\":\"%s\",\"message\":\"%s\",\"wall_s\":%.3f,\"z3_s\":%.3f,\"z3_queries\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_unknown\":%llu,\n",
        status.c_str(), jesc(msg).c_str(), wall, z3time, (unsigned long long)z3queries, (unsigned long long)z3sat, (unsigned long long)z3unsat, (unsigned long long)z3unknown);
    fprintf(o, "\"assert_instances\":%llu,\"assert_simplified\":%llu,\"obligations\":%zu,\"bdd_only\":%llu,\"instructions\":%llu,\"blocks\":%llu,\"merges\":%llu,\"loop_max\":%u,\"bdd_nodes\":%zu,\"input_bits\":%u,\"atoms\":%zu,\"max_alts\":%zu,\"undef_bytes\":%d,\"forks\":%llu,\"states_peak\":%zu,\n",
        (unsigned long long)obTotal, (unsigned long long)obSimpl, obligs.size(), (unsigned long long)bddOnly, (unsigned long long)instCount, (unsigned long long)blockCount, (unsigned long long)mergeCount, loopMax, bm.n.size(), bm.nvars, atoms.size(), maxAlts, undefCount, (unsigned long long)forkCount, statesPeak);
    fprintf(o, "\"functions\":[");
    bool first = true; for(auto& kv : fnInfos) { fprintf(o, "%s\"%s\"", first ? "" : ",", kv.first->getName().str().c_str()); first = false; }
    fprintf(o, "],\n\"models\":["); first = true; for(auto& x : extModels) { fprintf(o, "%s\"%s\"", first ? "" : ",", x.c_str()); first = false; }
    fprintf(o, "],\n\"reach\":{"); first = true;
    for(auto& nme : reachNames) { fprintf(o, "%s\"%s\":%s", first ? "" : ",", jesc(nme).c_str(), reachG[nme] != F && feasible(reachG[nme]) ? "true" : "false"); first = false; }
    fprintf(o, "},\n\"reach_inputs\":{"); first = true;
    for(auto& kv : reachIn)
    {
        fprintf(o, "%s\n\"%s\":[", first ? "" : ",", jesc(kv.first).c_str()); first = false;
        for(size_t i = 0; i < kv.second.size(); ++i) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)kv.second[i]);
        fprintf(o, "]");
    }
    fprintf(o, "},\n\"findings\":["); first = true;
    for(auto& x : findings)
    {
        fprintf(o, "%s\n{\"kind\":\"%s\",\"name\":\"%s\",\"inputs\":[", first ? "" : ",", x.kind.c_str(), jesc(x.name).c_str()); first = false;
        for(size_t i = 0; i < x.in.size(); ++i) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)x.in[i]);
        fprintf(o, "]}");
    }
    fprintf(o, "]}\n"); fclose(o);
    if(getenv("SYMX_PROFILE"))
    {
        vector<std::pair<u64, string>> p; for(auto& kv : fnInfos) p.push_back({kv.second->count, kv.first->getName().str()});
        std::sort(p.rbegin(), p.rend()); for(size_t i = 0; i < p.size() && i < 25; ++i) fprintf(stderr, "%10llu %s\n", (unsigned long long)p[i].first, p[i].second.c_str());
    }
    fflush(stdout);
    _exit(status == "ok" ? 0 : status == "error" ? 3 : 4);
}
