// Command-line programs: main() with every option combination of the case, against the library called with
// the documented meaning of the options; and the text file that is written.
#include "common.hpp"
#include <new>
using namespace knor;
typedef std::vector<double> V;
#ifdef PROG_knord
#include "mpi_threads.hpp"
#include "dist_coordinator.hpp"
#include "dist_task_coordinator.hpp"
#else
#include "cxxopts/cxxopts.hpp"
#include "kmeans_coordinator.hpp"
#include "kmeans_task_coordinator.hpp"
#include "../libauto/kmeans.hpp"
#include "medoid_coordinator.hpp"
#include "fcm_coordinator.hpp"
#include "skmeans_coordinator.hpp"
#include "xmeans_coordinator.hpp"
#include "gmeans_coordinator.hpp"
#include "hclust_coordinator.hpp"
#endif
int program_main(int argc, char* argv[]);
namespace knor { namespace base { std::pair<std::pair<unsigned, double>, cluster_t> kmeansPP(std::string datafn, const size_t nrow, const size_t ncol, const unsigned k, const unsigned nstart, unsigned nthread, std::string dist_type); } }
// ---- draws: the same in both runs ----
struct seq { long v[256]; int made, next; }; static seq ints[8], reals[8]; static unsigned T;
static int who() { long t = vf_thread_id(); return t ? 1 + (int)((t - 1) % T) : 0; }
extern "C" long vf_draw_int(long a, long b) { seq& s = ints[who()]; if (s.next == s.made) { vf_assert(s.made < 256, "bound on the draws"); s.v[s.made++] = vf_concrete(vf_int(who() ? "picked" : "pick", a, b)); } return s.v[s.next++]; }
extern "C" double vf_draw_unit(void) { seq& s = reals[who()]; if (s.next == s.made) { vf_assert(s.made < 256, "bound on the draws"); s.v[s.made++] = vf_param("draws", 0) ? vf_concrete(vf_int(who() ? "united" : "unit", 0, 1)) : 0; } return s.v[s.next++] ? 5.0 / 8 : 1.0 / 8; }
static void rewind() { for (int q = 0; q < 8; q++) ints[q].next = reals[q].next = 0; }
// ---- options ----
struct Opt { const char* name; char letter; std::string text; }; static std::vector<Opt>* opts; static void opt(const char* n, char c, const std::string& t) { opts->push_back(Opt{n, c, t}); }
extern "C" const char* vf_opt_text(const char* name) { for (auto& o : *opts) if (std::string(o.name) == name) return o.text.c_str(); return NULL; }
extern "C" { static size_t oi;
#ifdef PROG_knord
char* optarg; int optind = 1; int getopt(int, char* const*, const char* spec) throw() { if (oi >= opts->size()) return -1; Opt& o = (*opts)[oi++]; const char* s = spec; while (*s && *s != o.letter) s++; if (!*s) return '?'; optarg = s[1] == ':' ? (char*)o.text.c_str() : NULL; return o.letter; }
#endif
}
static long choose(const char* n, long hi) { long m = vf_param(n, 0); return m ? vf_concrete(vf_int(n, 0, m > hi ? hi : m)) : 0; }
// ---- the written file ----
static std::string* out; static V* nums; static unsigned opened, closed; static std::string* fname; static bool mkfail;
extern "C" { void vf_out_open(const char* n) { opened++; *fname = n; *out = ""; nums->clear(); } void vf_out_text(const char* s, long n) { out->append(s, n); } void vf_out_uint(unsigned long v) { *out += std::to_string((unsigned long)vf_concrete((long)v)); }
void vf_out_real(double v) { *out += "@"; nums->push_back(v); } void vf_out_close(void) { closed++; } int vf_out_system(const char*) { return mkfail; } }
static void add(std::string& s, const std::vector<size_t>& v) { for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string((unsigned long)vf_concrete((long)v[i])); } }
extern "C" void vf_main() {
    opts = new std::vector<Opt>(); out = new std::string(); nums = new V(); fname = new std::string(); 
    size_t n = vf_param("n", 4), d = vf_param("d", 1); unsigned k = vf_param("k", 2); V x(n * d), c(k * d); static const double base_[] = {1, 2, 6, 7, 9, 3, 4, 8, 5, 2, 1, 6};
    for (size_t i = 0; i < n * d; i++) x[i] = base_[i % 12]; long sy = vf_param("sym", 1); for (long i = 0; i < sy; i++) x[i * (n * d - 1) / (sy > 1 ? sy - 1 : 1)] = vf_fix("x", vf_param("lo", 1), vf_param("hi", 4), 1); V nat = x;
    // which options are given
    long dist = choose("dist", 4), iters = choose("iters", 3), tol = choose("tol", 2), cen = choose("centers", 1), in = choose("init", 3), nn = choose("nodes", 2), flagP = choose("prune", 1), flagO = choose("omp", 1), outdir = vf_param("noout", 0) ? choose("noout", 1) : 1, ex = choose("extra", 2), bad = choose("bad", 3); T = 1 + choose("threads", 1); mkfail = choose("mkfail", 1);
    static const char* dn[] = {"", "eucl", "cos", "taxi", "sqeucl"}; static const char* inn[] = {"", "forgy", "random", "kmeanspp"};
    if (cen) for (size_t i = 0; i < k * d; i++) c[i] = vf_fix("c", 1, 3, 1);
    std::string metric =
#if defined(PROG_medoids)
        "taxi";
#elif defined(PROG_fcm)
        "sqeucl";
#elif defined(PROG_skmeans)
        "cos";
#else
        "eucl";
#endif
    if (dist) { metric = dn[dist]; opt("dist", 'd', metric); } 
    unsigned max = vf_param("maxit", 0) ? vf_param("maxit", 0) : std::numeric_limits<unsigned>::max(); if (max != std::numeric_limits<unsigned>::max()) opt("iters", 'i', std::to_string(max)); else if (iters) {
#if defined(PROG_xmeans) || defined(PROG_gmeans) || defined(PROG_hmeans)
        max = iters;   // at least one
#else
        max = iters - 1;
#endif
 opt("iters", 'i', std::to_string(max)); }
    double tolerance =
#if defined(PROG_fcm) || defined(PROG_xmeans) || defined(PROG_gmeans) || defined(PROG_hmeans)
        1E-6;
#else
        -1;
#endif
    if (tol) { tolerance = tol == 1 ? 0.5 : -1; opt("tol", 'l', tol == 1 ? "0.5" : "-1"); }
    std::string init =
#if defined(PROG_knori) || defined(PROG_mb_knori) || defined(PROG_knord)
        "kmeanspp"; if (in) { init = inn[in]; opt("init", 't', init); }
#else
        "forgy";
#endif
    if (cen) { init = "none"; opt("centersfn", 'C', "centers.bin"); vf_file_create("centers.bin", &c[0], sizeof(double) * c.size()); }
    opt("num_thread", 'T', std::to_string(T)); if (nn) opt("nnodes", 'N', std::to_string(nn)); unsigned nodes = nn ? nn : base::get_num_nodes();
    if (flagP) opt("prune", 'P', ""); if (flagO) opt("omp", 'O', ""); if (outdir) opt("outdir", 'o', "out");
    unsigned fz = 2, minsz = 2, starts = 10, mb = 100; short strict = 4; double srate = .2;
#if defined(PROG_fcm)
    if (ex) { fz = 2 + ex; opt("fuzzindex", 'z', std::to_string(fz)); }
#elif defined(PROG_xmeans) || defined(PROG_gmeans) || defined(PROG_hmeans)
    if (ex) { minsz = 1 + 2 * ex; opt("min_clust_size", 's', std::to_string(minsz)); }
#if defined(PROG_gmeans)
    long st = choose("strict", 1); if (st) { strict = 1; opt("strictness", 'S', "1"); }
#endif
#elif defined(PROG_medoids)
    if (ex) { srate = ex == 1 ? 1 : 0.5; opt("srate", 's', ex == 1 ? "1" : "0.5"); }
#elif defined(PROG_mb_knori)
    if (ex) { mb = ex; opt("mb_size", 'M', std::to_string(mb)); }
#elif defined(PROG_kmeanspp)
    starts = 1 + ex; opt("num_starts", 's', std::to_string(starts));
#endif
    if (bad == 3) vf_allow_exit(2); V file = x; if (bad == 1) file.push_back(0); if (bad == 2) file.pop_back(); if (bad != 3) vf_file_create("data.bin", &file[0], sizeof(double) * file.size());
    // the program
    std::string a1 = std::to_string(n), a2 = std::to_string(d), a3 = std::to_string(k); char a0[] = "prog", f[] = "data.bin"; char* args[] = {a0, f, &a1[0], &a2[0], &a3[0], NULL}; rewind(); vf_omp_threads(T); vf_set_rank(0); bool threw = false; int rc = 0;
    try { rc = program_main(5, args); } catch (...) { threw = true; }
    if (bad) { vf_assert(threw && !opened, "a data file of the wrong size, or none, is rejected"); vf_cover("rejected"); return; }
    vf_assert(threw || rc == 0, "the program ends normally"); if (!threw) vf_assert(opened == (outdir ? 1u : 0u) && closed == opened, "a result is written exactly if there is an output directory"); if (!outdir && !threw) { vf_cover("nothing written"); return; }
    if (!threw) vf_assert(*fname == (mkfail ? "cluster_t.yml" : "out/cluster_t.yml"), "name of the file"); std::string text = *out; V vals = *nums;
    // the library, called as documented
    rewind(); base::cluster_t r; const double* pc = cen ? &c[0] : NULL; std::string fn = "data.bin";
    bool rejected = false; try {
#if defined(PROG_knori)
    if (flagO) { V cc(k * d, 0.0); if (cen) cc = c; std::vector<unsigned> as(n); std::vector<llong_t> cnt(k); r = flagP ? omp::compute_kmeans(&nat[0], &cc[0], &as[0], &cnt[0], n, d, k, max, T, init, tolerance, metric) : omp::compute_min_kmeans(&nat[0], &cc[0], &as[0], &cnt[0], n, d, k, max, T, init, tolerance, metric); }
    else r = flagP ? kmeans_coordinator::create(fn, n, d, k, max, nodes, T, pc, init, tolerance, metric)->run() : prune::kmeans_task_coordinator::create(fn, n, d, k, max, nodes, T, pc, init, tolerance, metric)->run();
#elif defined(PROG_medoids)
    r = medoid_coordinator::create("", n, d, k, max, nodes, T, pc, init, tolerance, metric, srate)->run(&nat[0]);
#elif defined(PROG_fcm)
    r = fcm_coordinator::create(fn, n, d, k, max, nodes, T, pc, init, tolerance, metric, fz)->run();
#elif defined(PROG_skmeans)
    r = skmeans_coordinator::create(fn, n, d, k, max, nodes, T, pc, init, tolerance, metric)->run();
#elif defined(PROG_xmeans)
    r = xmeans_coordinator::create(fn, n, d, k, max, nodes, T, pc, init, tolerance, metric, minsz)->run();
#elif defined(PROG_gmeans)
    r = gmeans_coordinator::create(fn, n, d, k, max, nodes, T, pc, init, tolerance, metric, minsz, strict)->run();
#elif defined(PROG_hmeans)
    r = hclust_coordinator::create(fn, n, d, k, max, nodes, T, pc, init, tolerance, metric, minsz)->run();
#elif defined(PROG_mb_knori)
    { auto q = std::static_pointer_cast<prune::kmeans_task_coordinator>(prune::kmeans_task_coordinator::create(fn, n, d, k, max, nodes, T, pc, init, tolerance, metric)); q->set_mini_batch_size(mb); r = q->mb_run(); }
#elif defined(PROG_kmeanspp)
    r = base::kmeansPP(fn, n, d, k, starts, T, metric).second;
#elif defined(PROG_knord)
    if (flagP) std::static_pointer_cast<dist::dist_coordinator>(dist::dist_coordinator::create(1, args, fn, n, d, k, max, nodes, T, pc, init, tolerance, metric))->run(r, "x"); else std::static_pointer_cast<prune::dist_task_coordinator>(prune::dist_task_coordinator::create(1, args, fn, n, d, k, max, nodes, T, pc, init, tolerance, metric))->run(r, "x");
#endif
    } catch (...) { rejected = true; }
    vf_assert(threw == rejected, "the program fails exactly when the algorithm rejects the options"); if (threw) return;
    std::string e = "k: " + std::to_string((unsigned long)r.k) + "\nniter: " + std::to_string((unsigned long)r.iters) + "\nnsamples: " + std::to_string((unsigned long)n) + "\ndim: " + std::to_string((unsigned long)d) + "\nsize: ["; add(e, std::vector<size_t>(r.assignment_count.begin(), r.assignment_count.end())); e += "]\ncluster: ["; add(e, std::vector<size_t>(r.assignments.begin(), r.assignments.end())); e += "]\ncentroids: [";
    for (size_t j = 0; j < r.k; j++) { e += j ? ",[" : "["; for (size_t q = 0; q < d; q++) e += q ? ",@" : "@"; e += "]"; } e += "]\n";
    vf_assert(text == e, "the text is that of the result of the algorithm asked for"); vf_assert(vals.size() == r.k * d, "every coordinate is written"); for (size_t i = 0; i < vals.size() && i < r.centroids.size(); i++) vf_assert(vals[i] == r.centroids[i], "the coordinates written are those of the result");
    vf_cover("written");
}
