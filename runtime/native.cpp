// Native implementation of the harness API: replays one recorded input assignment against the real code.
// Input file (SYMX_REPLAY): one line per input "name size hex"; parameters in SYMX_PARAMS ("a=1,b=2").
// exit: 0 all assertions held, 1 assertion failed, 77 an assumption does not hold, 78 the inputs do not fit the harness
#include "symx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <string>
#include <vector>
struct In { std::string name; std::vector<unsigned char> b; };
static std::vector<In> g_in;
static size_t g_pos;
static bool g_loaded;
static uint64_t g_time;
static void load()
{
    if (g_loaded) return;
    g_loaded = true;
    const char* f = getenv("SYMX_REPLAY");
    FILE* fp = f ? fopen(f, "r") : nullptr;
    if (!fp) return;
    static char name[4096], hex[1 << 20];
    unsigned sz;
    while (fscanf(fp, "%4095s %u %1048575s", name, &sz, hex) == 3) {
        In in; in.name = name;
        if (hex[0] != '-') for (size_t i = 0; hex[i] && hex[i + 1]; i += 2) { unsigned x; sscanf(hex + i, "%2x", &x); in.b.push_back((unsigned char)x); }
        g_in.push_back(in);
    }
    fclose(fp);
}
static std::string clean(const char* n) { std::string s; for (; *n; ++n) s += (*n > ' ' && *n < 127) ? *n : '_'; return s.empty() ? "_" : s; }
static const In& next(const char* name)
{
    load();
    if (g_pos >= g_in.size() || g_in[g_pos].name != clean(name)) {
        printf("SYMX-INPUT-MISMATCH at %zu: wanted %s, have %s\n", g_pos, name, g_pos < g_in.size() ? g_in[g_pos].name.c_str() : "(none)");
        fflush(stdout);
        _Exit(78);
    }
    return g_in[g_pos++];
}
static uint64_t val(const char* name) { const In& i = next(name); uint64_t v = 0; memcpy(&v, i.b.data(), i.b.size() < 8 ? i.b.size() : 8); return v; }
extern "C" {
void symx_bytes(void* p, size_t n, const char* name) { const In& i = next(name); if (i.b.size() < n) { printf("SYMX-INPUT-MISMATCH size %s\n", name); _Exit(78); } memcpy(p, i.b.data(), n); }
uint64_t symx_u64(const char* n) { return val(n); }
uint32_t symx_u32(const char* n) { return (uint32_t)val(n); }
uint16_t symx_u16(const char* n) { return (uint16_t)val(n); }
uint8_t symx_u8(const char* n) { return (uint8_t)val(n); }
double symx_f64(const char* n) { uint64_t v = val(n); double d; memcpy(&d, &v, 8); return d; }
uint64_t symx_range(uint64_t, uint64_t, const char* n) { return val(n); }
uint64_t symx_choose(uint64_t, const char* n) { return val(n); }
void symx_assume(int c) { if (!c) { printf("SYMX-ASSUMPTION-NOT-MET\n"); fflush(stdout); _Exit(77); } }
void symx_assert_(int c, const char* m) { if (!c) { printf("SYMX-ASSERT-FAILED: %s\n", m); fflush(stdout); _Exit(1); } }
void symx_reach(const char*) {}
uint64_t symx_concretize(uint64_t v) { return v; }
int symx_is_symbolic(uint64_t) { return 0; }
void symx_fail(const char* m) { symx_assert_(0, m); }
void symx_print(const char* l, uint64_t v) { printf("SYMX-OUT %s %llu\n", l, (unsigned long long)v); }
int symx_engine(void) { return 0; }
void symx_preempt_bound(int) {}
void symx_done(void) { fflush(stdout); _Exit(0); }
uint64_t symx_param(const char* name, uint64_t d)
{
    const char* p = getenv("SYMX_PARAMS");
    std::string k = std::string(name) + "=";
    while (p && *p) {
        if (!strncmp(p, k.c_str(), k.size())) return strtoull(p + k.size(), nullptr, 0);
        p = strchr(p, ',');
        if (p) ++p;
    }
    return d;
}
uint64_t symx_select(int c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t symx_time(void) { return ++g_time; }
double symx_strtod(const char* s, char** e) { return strtod(s, e); }
int symx_fmt_double(char* b, size_t n, const char* f, int prec, double v) { return prec >= 0 ? snprintf(b, n, f, prec, v) : snprintf(b, n, f, v); }
}
#include <dlfcn.h>
int main(int argc, char** argv)
{
    typedef void (*fn)();
    if (argc < 2) return 79;
    fn f = (fn)dlsym(RTLD_DEFAULT, argv[1]);
    if (!f) { printf("no entry %s\n", argv[1]); return 79; }
    f();
    printf("SYMX-DONE\n");
    fflush(stdout);
    _Exit(0);
}
