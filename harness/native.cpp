// Native side of the harness interface: inputs come from a file, one number per line.
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
static std::vector<unsigned long long> in; static size_t pos;
static unsigned long long next() { return pos < in.size() ? in[pos++] : 0; }
extern "C" {
unsigned char nondet_u8() { return (unsigned char)next(); }
unsigned nondet_u32() { return (unsigned)next(); }
unsigned long nondet_u64() { return next(); }
unsigned nondet_choice(unsigned k) { unsigned long long v = next(); return (unsigned)(v < k ? v : k - 1); }
void v_assume(bool b) { if(! b) { puts("ASSUME-FALSE"); fflush(stdout); _Exit(0); } }
void v_assert(bool b, char const* n) { if(! b) { printf("ASSERT-FAILED %s\n", n); fflush(stdout); _Exit(1); } }
void v_reach(char const* n) { printf("REACH %s\n", n); }
unsigned long v_fork(unsigned long x) { return x; }
int v_native() { return 1; }
void harness();
}
int main(int, char** a)
{
    FILE* f = fopen(a[1], "r"); if(! f) return 9;
    unsigned long long v; while(fscanf(f, "%llu", &v) == 1) in.push_back(v);
    fclose(f);
    harness();
    puts("DONE"); return 0;
}
