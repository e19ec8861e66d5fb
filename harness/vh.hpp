// Support for the harnesses.  The same source is compiled twice: to LLVM IR
// for the symbolic executor (inputs are symbolic) and natively with
// sanitizers for the replay of counterexamples (inputs are read from a file).
#ifndef VH_HPP
#define VH_HPP
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE               // instantiate std::string here, so that its code is executed too
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <boost/throw_exception.hpp>
#undef BOOST_THROW_EXCEPTION
#define BOOST_THROW_EXCEPTION(x) throw (x)     // same exception types, without source locations
#include <cstddef>
#include <cstdint>
#include <new>
#include <stdexcept>
#include <boost/url/src.hpp>
#include <boost/url/url.hpp>
#include <boost/url/url_view.hpp>
#include <boost/url/static_pool.hpp>

extern "C" {
unsigned char nondet_u8();
unsigned nondet_u32();
unsigned long nondet_u64();
unsigned nondet_choice(unsigned k);         // 0..k-1
void v_assume(bool);
void v_assert(bool, char const*);
void v_reach(char const*);
unsigned long v_fork(unsigned long);        // identity; makes the executor split on the value
int v_native();
void harness();
}

namespace u = boost::urls;
using u::string_view;
typedef unsigned char uc;

// one character: any byte, or one of a list of 2^k characters
struct any { static char draw() { return (char)nondet_u8(); } };
// the characters that tell the parts of a URL apart
struct delims { static char draw() { return "a1:/?#@%&=.[]-A "[nondet_choice(16)]; } };
struct delims8 { static char draw() { return "a:/?#@1&"[nondet_choice(8)]; } };
struct auth8 { static char draw() { return "a:@1[]/."[nondet_choice(8)]; } };
struct query8 { static char draw() { return "?a&=%26#"[nondet_choice(8)]; } };
struct path4 { static char draw() { return "a/:."[nondet_choice(4)]; } };
struct hex8 { static char draw() { return "%2aF/?:g"[nondet_choice(8)]; } };

// input text of symbolic length <= N: exactly sized, so that any access
// outside of it is an error
template<unsigned N, class A = any>
struct text
{
    char* p; unsigned long n;
    char buf[N ? N : 1];
    void draw()                             // call first, unconditionally
    {
        n = nondet_choice(N + 1);
        for(unsigned i = 0; i < N; ++i) buf[i] = A::draw();
        p = nullptr;
    }
    // placed in a heap block of exactly n bytes
    string_view view()
    {
        n = v_fork(n);
        if(! p)
        {
            p = static_cast<char*>(::operator new(n));
            for(unsigned long i = 0; i < n; ++i) p[i] = buf[i];
        }
        return string_view(p, n);
    }
};
#ifndef VA
#define VA any
#endif
#ifndef VB
#define VB any
#endif

static inline bool same(string_view a, string_view b)
{
    if(a.size() != b.size()) return false;
    char const* p = a.data(); char const* e = p + a.size(); char const* q = b.data();
    while(p != e) if(*p++ != *q++) return false;
    return true;
}
static inline bool same(string_view a, char const* b, char const* e) { return same(a, string_view(b, (std::size_t)(e - b))); }

// standard library error exits used by instantiated templates
#endif
