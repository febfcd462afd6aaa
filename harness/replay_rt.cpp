// Native replay runtime: feeds a recorded assignment to the harness, in call order per name.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <signal.h>
#include <unistd.h>
struct V { int bits; unsigned long long v; };
static std::map<std::string, std::vector<V>> vals;
static std::map<std::string, size_t> pos;
static std::map<std::string, void (*)()>& entries() { static std::map<std::string, void (*)()> e; return e; }
static FILE* obs = nullptr;
static unsigned long long get(const char* n)
{
    auto& v = vals[n];
    size_t i = pos[n]++;
    if (i >= v.size()) { return 0; }
    return v[i].v;
}
static std::string cur;
static void fail(const char* msg)
{
    printf("REPLAY-FAIL %s: %s\n", cur.c_str(), msg);
    fflush(stdout);
    _exit(1);
}
extern "C"
{
    void __sym_register(const char* name, void (*fn)()) { entries()[name] = fn; }
    uint64_t __sym_int(const char* n, int b) { uint64_t v = get(n); return b >= 64 ? v : v & ((1ull << b) - 1); }
    int64_t __sym_intr(const char* n, int b, int64_t lo, int64_t hi) { int64_t v = (int64_t)(get(n) << (64 - b)) >> (64 - b); return v < lo ? lo : v > hi ? hi : v; }
    float __sym_f32(const char* n) { uint32_t u = get(n); float f; memcpy(&f, &u, 4); return f; }
    double __sym_f64(const char* n) { uint64_t u = get(n); double f; memcpy(&f, &u, 8); return f; }
    float __sym_f32r(const char* n, double lo, double hi) { float f = __sym_f32(n); if (!(f >= lo && f <= hi)) { f = lo; } return f; }
    double __sym_f64r(const char* n, double lo, double hi) { double f = __sym_f64(n); if (!(f >= lo && f <= hi)) { f = lo; } return f; }
    void __sym_bytes(void* p, uint64_t n, const char* name) { for (uint64_t i = 0; i < n; i++) ((uint8_t*)p)[i] = get(name); }
    void __sym_assume(bool c) { if (!c) { printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _exit(0); } }
    void __sym_assert(bool c, const char* m) { if (!c) fail(m); }
    void __sym_assert_known(bool ok, bool known, const char* id, const char* m)
    {
        if (ok) return;
        if (known) { printf("REPLAY-KNOWN %s %s\n", id, m); fflush(stdout); _exit(4); }
        fail(m);
    }
    void __sym_close(double a, double r, double tol, const char* m)
    {
        if (!(std::fabs(a - r) <= tol)) { char b[300]; snprintf(b, 300, "%s: got %.9g expected %.9g (tolerance %.3g)", m, a, r, tol); fail(b); }
    }
    void __sym_close_fn(double a, double r, double at, double rt, const char* m)
    {
        bool ok = std::isnan(a) || std::isnan(r) ? std::isnan(a) && std::isnan(r) : std::isinf(a) || std::isinf(r) ? a == r : std::fabs(a - r) <= at + rt * std::fabs(r);
        if (!ok) { char b[300]; snprintf(b, 300, "%s: got %.17g expected %.17g", m, a, r); fail(b); }
    }
    void __sym_close_lin(double a, const double* v, const double* c, uint64_t n, double tol, const char* m)
    {
        long double r = 0;
        for (uint64_t i = 0; i < n; i++) r += (long double)c[i] * v[i];
        __sym_close(a, (double)r, tol, m);
    }
    double __sym_xadd(double a, double b) { return a + b; }
    double __sym_xmul(double a, double b) { return a * b; }
    uint64_t __sym_fork(uint64_t v) { return v; }
    void __sym_fuel(uint64_t s, const char*) { alarm(s ? 20 : 0); }
    uint64_t __sym_heap_live();
    int __sym_is_engine() { return 0; }
    int __sym_readable(const void*, uint64_t) { return 1; }
    void __sym_observe(uint64_t v) { if (obs) fprintf(obs, "u %016llx\n", (unsigned long long)v); }
    void __sym_observe_f(double v) { if (obs) fprintf(obs, "f %.17g\n", v); }
}
// live allocations are counted by interposing the allocator entry points
static long live = 0;
extern "C" uint64_t __sym_heap_live() { return live; }
#ifndef KSYM_NO_ALLOC_HOOK
#include <new>
extern "C" void* __real_malloc(size_t); extern "C" void __real_free(void*); extern "C" void* __real_calloc(size_t, size_t); extern "C" void* __real_realloc(void*, size_t);
extern "C" void* __wrap_malloc(size_t n)
{
    live++;
    // adversarial placement: 16-byte aligned, never 32-byte aligned, filled with garbage
    char* p = (char*)__real_malloc(n + 80);
    char* q = (char*)(((uintptr_t)p + 31) / 32 * 32 + 16);
    if (q < p + 16) q += 32;
    memcpy(q - 8, &p, 8);
    memcpy(q - 16, &n, 8);
    memset(q, 0xA5, n);
    return q;
}
extern "C" void __wrap_free(void* q) { if (!q) return; live--; char* p; memcpy(&p, (char*)q - 8, 8); __real_free(p); }
extern "C" void* __wrap_calloc(size_t a, size_t b) { void* p = __wrap_malloc(a * b); memset(p, 0, a * b); return p; }
extern "C" void* __wrap_realloc(void* q, size_t n)
{
    void* r = __wrap_malloc(n);
    if (q) { size_t o; memcpy(&o, (char*)q - 16, 8); memcpy(r, q, o < n ? o : n); __wrap_free(q); }
    return r;
}
void* operator new(size_t n) { return __wrap_malloc(n); }
void* operator new[](size_t n) { return __wrap_malloc(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
#endif
static void sig(int s)
{
    const char* m = s == SIGALRM ? "REPLAY-FAIL does not terminate within the time limit\n" : "REPLAY-FAIL crashed (signal)\n";
    (void)!write(1, m, strlen(m));
    _exit(1);
}
int main(int argc, char** argv)
{
    if (argc < 3) { for (auto& e : entries()) printf("%s\n", e.first.c_str()); return 0; }
    signal(SIGALRM, sig);
#ifndef KSYM_SAN
    signal(SIGSEGV, sig); signal(SIGBUS, sig); signal(SIGFPE, sig); signal(SIGABRT, sig); signal(SIGILL, sig);
#endif
    cur = argv[1];
    std::ifstream f(argv[2]);
    std::string line;
    while (std::getline(f, line))
    {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream is(line);
        std::string n, h;
        int b;
        is >> n >> b >> h;
        auto k = n.find('#');
        if (k != std::string::npos) n = n.substr(0, k);
        vals[n].push_back({ b, strtoull(h.c_str(), nullptr, 16) });
    }
    if (argc > 3) obs = fopen(argv[3], "w");
    auto it = entries().find(argv[1]);
    if (it == entries().end()) { printf("no such entry\n"); return 2; }
    live = 0;
    it->second();
    if (obs) fclose(obs);
    printf("REPLAY-OK\n");
    fflush(stdout);
    _exit(0);
}
