// Harness interface. Under symx these are engine builtins; under the native replay
// build they read the solver's concrete assignment (engine/rt/native.cpp).
#pragma once
#include <stddef.h>
extern "C" {
double vf_fix(const char* name, long lo, long hi, long den);  // {lo..hi}/den, every value
double vf_real(const char* name);                             // any real number
double vf_fp(const char* name);                               // any IEEE-754 double
long   vf_int(const char* name, long lo, long hi);            // any integer in [lo,hi]
void   vf_assume(bool c);
void   vf_assert(bool c, const char* label);
void   vf_fail(const char* label);
void   vf_cover(const char* label);
void   vf_kill(void);
long   vf_param(const char* name, long dflt);
long   vf_concrete(long v);                                   // fork over every feasible value
double vf_concrete_d(double v);
bool   vf_is_native(void);
void   vf_allow_exit(long);
void   vf_sched(long mode, long preempt);
void   vf_omp_threads(long);
void   vf_set_rank(long); int vf_get_rank(void); long vf_thread_id(void);
double vf_sel(bool c, double a, double b);                    // if-then-else without forking
bool   vf_and(bool a, bool b); bool vf_or(bool a, bool b);
void   vf_file_create(const char* name, const void* p, size_t n);
size_t vf_file_size(const char* name);
void   vf_file_read(const char* name, size_t off, void* dst, size_t n);
void   vf_debug(const char*, double); void vf_debugi(const char*, long);
void   vf_main(void);
}
static inline double vf_abs(double x) { return __builtin_fabs(x); }
static inline bool vf_near(double a, double b, double eps = 1e-9) { return __builtin_fabs(a - b) <= eps; }
