#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void     symx_bytes(void* p, size_t n, const char* name);
uint64_t symx_u64(const char* name);
uint32_t symx_u32(const char* name);
uint16_t symx_u16(const char* name);
uint8_t  symx_u8(const char* name);
double   symx_f64(const char* name);
uint64_t symx_range(uint64_t lo, uint64_t hi, const char* name);   /* symbolic value in [lo,hi] */
uint64_t symx_choose(uint64_t n, const char* name);                /* concrete value in [0,n): all are explored */
void     symx_assume(int c);
void     symx_assert_(int c, const char* msg);
void     symx_reach(const char* label);                            /* reachability witness */
uint64_t symx_concretize(uint64_t v);                              /* forks over all feasible values */
int      symx_is_symbolic(uint64_t v);
void     symx_fail(const char* msg);
void     symx_print(const char* label, uint64_t v);
int      symx_engine(void);                                        /* 1 in the engine, 0 natively */
void     symx_preempt_bound(int k);
void     symx_done(void);
uint64_t symx_param(const char* name, uint64_t dflt);              /* tier dependent bound */
uint64_t symx_select(int c, uint64_t a, uint64_t b);
uint64_t symx_time(void);
double   symx_strtod(const char* s, char** e);
int      symx_fmt_double(char* buf, size_t n, const char* fmt, int prec, double v);
#ifdef __cplusplus
}
#endif
#define CHECK(c, msg) symx_assert_(!!(c), msg)
