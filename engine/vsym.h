// Harness API. In the instrumented build inputs are symbolic; in the native
// build (replay) they are read from a file.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int64_t vs_int(const char* name, int64_t lo, int64_t hi);   // lo<=x<=hi
uint64_t vs_uint(const char* name, uint64_t lo, uint64_t hi); // unsigned range
double vs_fix(const char* name, int64_t lo, int64_t hi, int scale); // n*2^-scale, lo<=n<=hi
double vs_double(const char* name);  // any bit pattern
float vs_float(const char* name);    // any bit pattern
void vs_bytes(const char* name, void* p, size_t n);         // n arbitrary bytes
int vs_choice(const char* name, int n);                      // 0..n-1, forked on
int64_t vs_concrete(int64_t v);                              // fork on every value of v
void vs_assume(int cond);
void vs_assert_(int cond, const char* msg);
void vs_fail(const char* msg);
void vs_reach(const char* label);
void vs_allow_abort(int on);    // abort/exit/uncaught exception ends the path quietly
int  vs_is_symbolic(void);
void vs_stop(void);             // end this path
void vs_note(const char* k, int64_t v);
#ifdef __cplusplus
}
#endif
#define VS_STR2(x) #x
#define VS_STR(x) VS_STR2(x)
#define vs_assert(c, msg) vs_assert_(!!(c), msg)
#ifdef __cplusplus
extern "C" void vs_harness();
extern "C" void vs_setup() __attribute__((weak));
#endif
