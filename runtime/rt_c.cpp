// Model of the C library functions used by the code under test (no standard headers on purpose)
#include "symx.h"
#include <stdarg.h>
struct symx_file { int x; };
typedef symx_file FILE;
extern "C" { void* malloc(size_t); void* memcpy(void*, const void*, size_t); void* memset(void*, int, size_t); }
// ------------------------------------------------------------------ C library
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b)
{
    for (;; ++a, ++b) {
        unsigned char x = *a, y = *b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
}
int strncmp(const char* a, const char* b, size_t n)
{
    for (; n; --n, ++a, ++b) {
        unsigned char x = *a, y = *b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
    return 0;
}
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isalpha(int c) { return ((unsigned)(c | 32) - 'a') < 26; }
int isdigit(int c) { return ((unsigned)c - '0') < 10; }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isspace(int c) { return (c == ' ') | ((unsigned)c - '\t' < 5); }
int isupper(int c) { return ((unsigned)c - 'A') < 26; }
int islower(int c) { return ((unsigned)c - 'a') < 26; }
int isprint(int c) { return ((unsigned)c - 0x20) < 0x5f; }
int isgraph(int c) { return ((unsigned)c - 0x21) < 0x5e; }
int iscntrl(int c) { return ((unsigned)c < 0x20) | (c == 0x7f); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | (((unsigned)(c | 32) - 'a') < 6); }
int strcasecmp(const char* a, const char* b)
{
    for (;; ++a, ++b) {
        int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
        if (x != y) return x - y;
        if (!x) return 0;
    }
}
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { size_t k = strlen(n); for (; ; ++h) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return nullptr; } }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (void*)(s + i); return nullptr; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return nullptr; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); memcpy(r, s, n); return r; }

static int symx_errno;
int* __errno_location() { return &symx_errno; }
struct symx_env { symx_env* next; char* name; char* val; };
static symx_env* symx_envs;
static symx_env* symx_env_find(const char* n) { for (symx_env* e = symx_envs; e; e = e->next) if (!strcmp(e->name, n)) return e; return nullptr; }
char* getenv(const char* n) { symx_env* e = symx_env_find(n); return e ? e->val : nullptr; }
char* secure_getenv(const char* n) { return getenv(n); }
int setenv(const char* n, const char* v, int over)
{
    symx_env* e = symx_env_find(n);
    if (e && e->val && !over) return 0;
    if (!e) { e = (symx_env*)malloc(sizeof *e); e->val = nullptr; e->name = strdup(n); e->next = symx_envs; symx_envs = e; }
    e->val = strdup(v);
    return 0;
}
int unsetenv(const char* n) { symx_env* e = symx_env_find(n); if (e) e->val = nullptr; return 0; }
char** environ = nullptr;

static unsigned long long parse_u(const char* s, char** e, int base, bool& neg, bool& ovf)
{
    const char* p = s;
    while (isspace((unsigned char)*p)) ++p;
    neg = false; ovf = false;
    if (*p == '+') ++p; else if (*p == '-') { neg = true; ++p; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0;
    bool any = false;
    for (;; ++p) {
        int c = (unsigned char)*p, d;
        if (isdigit(c)) d = c - '0';
        else if (isalpha(c)) d = (c | 32) - 'a' + 10;
        else break;
        if (d >= base) break;
        any = true;
        if (v > (~0ULL - d) / base) ovf = true;
        v = v * base + d;
    }
    if (e) *e = (char*)(any ? p : s);
    return v;
}
unsigned long long strtoull(const char* s, char** e, int b) { bool n, o; unsigned long long v = parse_u(s, e, b, n, o); if (o) { symx_errno = 34; return ~0ULL; } return n ? -v : v; }
long long strtoll(const char* s, char** e, int b)
{
    bool n, o;
    unsigned long long v = parse_u(s, e, b, n, o);
    if (o || (!n && v > 0x7fffffffffffffffULL) || (n && v > 0x8000000000000000ULL)) { symx_errno = 34; return n ? (long long)0x8000000000000000ULL : 0x7fffffffffffffffLL; }
    return n ? -v : v;
}
unsigned long strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }
long strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoull(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtoll(s, e, b); }
int atoi(const char* s) { return (int)strtoll(s, nullptr, 10); }
long atol(const char* s) { return strtoll(s, nullptr, 10); }
double strtod(const char* s, char** e) { return symx_strtod(s, e); }
float strtof(const char* s, char** e) { return (float)symx_strtod(s, e); }
double atof(const char* s) { return symx_strtod(s, nullptr); }

// integer to text without data dependent forks on the digits themselves (only on their number)
static char* utoa_(char* end, unsigned long long v, unsigned base, bool upper)
{
    *end = 0;
    do {
        unsigned d = (unsigned)(v % base);
        v /= base;
        *--end = (char)(base <= 10 ? '0' + d : d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
    } while (v);
    return end;
}

int vsnprintf(char* buf, size_t n, const char* f, va_list ap)
{
    size_t o = 0;
    auto put = [&](char c) { if (o + 1 < n) buf[o] = c; ++o; };
    for (; *f; ++f) {
        if (*f != '%') { put(*f); continue; }
        const char* start = f++;
        bool left = false, zero = false, alt = false, plus = false, space = false;
        for (;; ++f) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '#') alt = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else break; }
        int w = 0, prec = -1, lng = 0;
        if (*f == '*') { w = va_arg(ap, int); ++f; if (w < 0) { left = true; w = -w; } } else while (isdigit(*f)) w = w * 10 + (*f++ - '0');
        if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg(ap, int); ++f; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
        for (;; ++f) { if (*f == 'l') ++lng; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 2; else if (*f == 'h') lng = -1; else if (*f == 'L') {} else break; }
        char tmp[420];
        const char* s = tmp;
        size_t len = 0;
        char sign = 0;
        switch (*f) {
        case '%': tmp[0] = '%'; len = 1; break;
        case 'c': tmp[0] = (char)va_arg(ap, int); len = 1; break;
        case 's': s = va_arg(ap, const char*); if (!s) s = "(null)"; len = prec >= 0 ? strnlen(s, prec) : strlen(s); break;
        case 'd': case 'i': {
            long long v = lng > 0 ? va_arg(ap, long long) : va_arg(ap, int);
            unsigned long long u = v < 0 ? -(unsigned long long)v : v;
            if (v < 0) sign = '-'; else if (plus) sign = '+'; else if (space) sign = ' ';
            s = utoa_(tmp + 400, u, 10, false);
            len = tmp + 400 - s;
            break;
        }
        case 'u': case 'x': case 'X': case 'o': case 'p': {
            unsigned long long u = *f == 'p' ? (unsigned long long)va_arg(ap, void*) : lng > 0 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
            s = utoa_(tmp + 400, u, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X');
            len = tmp + 400 - s;
            if (*f == 'p' || (alt && *f == 'x' && u)) { char* q = (char*)s; *--q = 'x'; *--q = '0'; s = q; len += 2; }
            break;
        }
        case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': {
            char fm[16]; int k = 0; fm[k++] = '%';
            if (alt) fm[k++] = '#';
            if (prec >= 0) { fm[k++] = '.'; fm[k++] = '*'; }
            fm[k++] = *f; fm[k] = 0;
            double d = va_arg(ap, double);
            len = symx_fmt_double(tmp, sizeof tmp, fm, prec, d);
            if (len && tmp[0] == '-') { sign = '-'; s = tmp + 1; --len; } else if (plus) sign = '+';
            break;
        }
        default: for (const char* q = start; q <= f; ++q) put(*q); continue;
        }
        bool num = *f != 's' && *f != 'c' && *f != '%';
        size_t padz = num && *f != 'f' && *f != 'g' && *f != 'e' && prec > (int)len ? prec - len : 0;
        size_t tot = len + padz + (sign ? 1 : 0);
        size_t pad = (size_t)w > tot ? w - tot : 0;
        if (!left && !(zero && num)) while (pad) { put(' '); --pad; }
        if (sign) put(sign);
        if (!left && zero && num) while (pad) { put('0'); --pad; }
        while (padz) { put('0'); --padz; }
        for (size_t i = 0; i < len; ++i) put(s[i]);
        while (pad) { put(' '); --pad; }
    }
    if (n) buf[o < n ? o : n - 1] = 0;
    return (int)o;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }
int fprintf(FILE*, const char*, ...) { return 0; }
int printf(const char*, ...) { return 0; }
int puts(const char*) { return 0; }
int fputs(const char*, FILE*) { return 0; }
int fflush(FILE*) { return 0; }
size_t fwrite(const void*, size_t, size_t n, FILE*) { return n; }
void perror(const char*) {}
static FILE symx_files[3];
FILE *stdin = &symx_files[0], *stdout = &symx_files[1], *stderr = &symx_files[2];
void __assert_fail(const char* e, const char*, unsigned, const char*) { symx_fail(e); }
int clock_gettime(int, void* ts) { uint64_t t = symx_time(); long* p = (long*)ts; p[0] = t / 1000; p[1] = (t % 1000) * 1000000; return 0; }
long time(long* t) { long v = (long)(symx_time() / 1000); if (t) *t = v; return v; }
int gettimeofday(void* tv, void*) { uint64_t t = symx_time(); long* p = (long*)tv; p[0] = t / 1000; p[1] = (t % 1000) * 1000; return 0; }
int getpid() { return 4711; }
int gethostname(char* b, size_t n) { strncpy(b, "host", n); return 0; }
int isatty(int) { return 0; }
int fileno(FILE*) { return 1; }
void* dlsym(void*, const char*) { return nullptr; }
char __libc_single_threaded = 0;
int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
unsigned int sleep(unsigned int) { return 0; }
int usleep(unsigned) { return 0; }
long syscall(long, ...) { return 1; }
static const unsigned short* symx_ctype_b;
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
typedef void (*sort_fn)();
void qsort(void* b, size_t n, size_t sz, int (*cmp)(const void*, const void*))
{
    char* p = (char*)b;
    char tmp[256];
    for (size_t i = 1; i < n; ++i)
        for (size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; --j) { memcpy(tmp, p + j * sz, sz); memcpy(p + j * sz, p + (j - 1) * sz, sz); memcpy(p + (j - 1) * sz, tmp, sz); }
}
double fabs(double x) { return __builtin_fabs(x); }
double floor(double x) { return __builtin_floor(x); }
double ceil(double x) { return __builtin_ceil(x); }
double round(double x) { return __builtin_round(x); }
double trunc(double x) { return __builtin_trunc(x); }
double sqrt(double x) { return __builtin_sqrt(x); }
double nearbyint(double x) { return __builtin_nearbyint(x); }
double rint(double x) { return __builtin_rint(x); }
double fmin(double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; }
double fmax(double a, double b) { return a != a ? b : b != b ? a : a < b ? b : a; }
double pow(double a, double b) { double r = 1; int n = (int)b; bool neg = n < 0; if (neg) n = -n; while (n--) r *= a; return neg ? 1 / r : r; }
long lround(double x) { return (long)__builtin_round(x); }
}



extern "C" {
static unsigned short s_ctype[384];
static const unsigned short* s_ctype_p;
const unsigned short** __ctype_b_loc()
{
    if (!s_ctype_p) {
        for (int c = 0; c < 128; ++c)
            s_ctype[128 + c] = (isupper(c) ? 256 : 0) | (islower(c) ? 512 : 0) | (isalpha(c) ? 1024 : 0) | (isdigit(c) ? 2048 : 0) | (isxdigit(c) ? 4096 : 0) |
                               (isspace(c) ? 8192 : 0) | (isprint(c) ? 16384 : 0) | (isgraph(c) ? 32768 : 0) | (iscntrl(c) ? 2 : 0) | (ispunct(c) ? 4 : 0) | (isalnum(c) ? 8 : 0);
        s_ctype_p = s_ctype + 128;
    }
    return &s_ctype_p;
}
int ffs(int x) { return x ? __builtin_ctz(x) + 1 : 0; }
char* strerror_r(int, char* b, size_t n) { if (n) *b = 0; return b; }
int stat(const char*, void*) { return -1; }
int mkdir(const char*, unsigned) { return -1; }
char* __cxa_demangle(const char*, char*, size_t*, int* st) { if (st) *st = -2; return nullptr; }
}
