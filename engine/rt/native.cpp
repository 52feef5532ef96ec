// Native replay runtime: replays the solver's assignment against the really compiled code.
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <atomic>
#include <string>
#include <vector>
#include <unistd.h>
#include <omp.h>
#include "vf.h"
static std::map<std::string, double> vd; static std::map<std::string, long> vi; static std::map<std::string, long> par; static std::map<std::string, int> cnt;
struct Spin { std::atomic_flag f = ATOMIC_FLAG_INIT; void lock() { while (f.test_and_set()) ; } void unlock() { f.clear(); } };   // not a mutex: the replay scheduler wraps those
static Spin mu; static __thread int rank_ = -1; static bool verbose = false;
static std::string nm(const char* n) { int k = cnt[n]++; return std::string(n) + "#" + std::to_string(k); }
static void missing(const std::string& n) { if (verbose) fprintf(stderr, "note: %s not constrained, using 0\n", n.c_str()); }
__attribute__((weak)) void vf_sched_start(long, long);
extern "C" long vf_native_tid(void);
extern "C" {
double vf_fix(const char* name, long lo, long hi, long den) { std::lock_guard<Spin> g(mu); std::string n = nm(name); auto it = vd.find(n); if (it == vd.end()) { missing(n); return (lo <= 0 && hi >= 0) ? 0 : (double)lo / den; } return it->second; }
double vf_real(const char* name) { std::lock_guard<Spin> g(mu); std::string n = nm(name); auto it = vd.find(n); if (it == vd.end()) { missing(n); return 0; } return it->second; }
double vf_fp(const char* name) { return vf_real(name); }
long vf_int(const char* name, long lo, long hi) { std::lock_guard<Spin> g(mu); std::string n = nm(name); auto it = vi.find(n); if (it == vi.end()) { missing(n); return lo; } return it->second; }
void vf_assume(bool c) { if (!c) { printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _exit(3); } }
void vf_assert(bool c, const char* l) { if (!c) { printf("REPLAY-VIOLATION %s\n", l); fflush(stdout); _exit(1); } }
void vf_fail(const char* l) { vf_assert(false, l); }
void vf_cover(const char*) { }
void vf_kill(void) { printf("REPLAY-KILLED\n"); fflush(stdout); _exit(3); }
long vf_param(const char* n, long d) { auto it = par.find(n); return it == par.end() ? d : it->second; }
long vf_concrete(long v) { return v; }
double vf_concrete_d(double v) { return v; }
bool vf_is_native(void) { return true; }
static long allowExit;
static void onabort(int) { if (allowExit == 2) { printf("REPLAY-OK\n"); fflush(stdout); _exit(0); } signal(SIGABRT, SIG_DFL); raise(SIGABRT); }
void vf_allow_exit(long v) { allowExit = v; signal(SIGABRT, v == 2 ? onabort : SIG_DFL); }   // 1: exit() allowed; 2: also abort, failed assert, uncaught exception
void vf_sched(long m, long p) { if (vf_sched_start) vf_sched_start(m, p); }
void vf_omp_threads(long n) { omp_set_num_threads((int)n); }
void vf_set_rank(long r) { rank_ = (int)r; } int vf_get_rank(void) { return rank_; } long vf_thread_id(void) { return vf_native_tid(); }
double vf_sel(bool c, double a, double b) { return c ? a : b; }
bool vf_and(bool a, bool b) { return a && b; } bool vf_or(bool a, bool b) { return a || b; }
void vf_file_create(const char* n, const void* p, size_t k) { FILE* f = fopen(n, "wb"); if (k) fwrite(p, 1, k, f); fclose(f); }
size_t vf_file_size(const char* n) { FILE* f = fopen(n, "rb"); if (!f) return (size_t)-1; fseek(f, 0, SEEK_END); size_t r = ftell(f); fclose(f); return r; }
void vf_file_read(const char* n, size_t off, void* d, size_t k) { FILE* f = fopen(n, "rb"); fseek(f, off, SEEK_SET); if (fread(d, 1, k, f) != k) abort(); fclose(f); }
void vf_debug(const char* s, double d) { fprintf(stderr, "[dbg] %s %.17g\n", s, d); } void vf_debugi(const char* s, long d) { fprintf(stderr, "[dbg] %s %ld\n", s, d); }
}
static void onexit_() { if (!allowExit) { printf("REPLAY-EXIT\n"); fflush(stdout); } }
int main(int argc, char** argv) {
    if (argc < 2) return 2; verbose = argc > 2;
    FILE* f = fopen(argv[1], "r"); if (!f) return 2; char line[4096];
    while (fgets(line, sizeof line, f)) {
        char a[3000], k[8], v[1000]; if (sscanf(line, "param %2999s %999s", a, v) == 2) { par[a] = atol(v); continue; }
        if (sscanf(line, "in %2999s %7s %999s", a, k, v) == 3) { if (k[0] == 'i') vi[a] = atol(v); else { double d; char* sl = strchr(v, '/'); if (sl) { *sl = 0; d = strtod(v, 0) / strtod(sl + 1, 0); } else d = strtod(v, 0); vd[a] = d; } }
    }
    fclose(f); if (par.count("omp_threads")) omp_set_num_threads((int)par["omp_threads"]);
    atexit(onexit_);
    vf_main(); printf("REPLAY-OK\n"); fflush(stdout); _exit(0);
}
