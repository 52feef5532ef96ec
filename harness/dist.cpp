// Distributed k-means: processes are threads over a shared-memory MPI. kind 0 full, 1 pruned.
#include <pthread.h>
#include <cstring>
#include "common.hpp"
#include "mpi_threads.hpp"
#include "clusters.hpp"
#include "dist_coordinator.hpp"
#include "dist_task_coordinator.hpp"
using namespace knor;
typedef std::vector<double> V;
static size_t n, d; static unsigned k, T, it; static int kind, dt; static std::string init; static double tol; static V x, c;
// every process draws the same sequence (same seed)
struct seq { long v[64]; int made, next[8]; }; static seq ints, reals; static pthread_mutex_t dm_ = PTHREAD_MUTEX_INITIALIZER;
extern "C" long vf_draw_int(long a, long b) { int r = vf_get_rank(); pthread_mutex_lock(&dm_); if (ints.next[r] == ints.made) ints.v[ints.made++] = vf_concrete(vf_int("pick", a, b)); long q = ints.v[ints.next[r]++]; pthread_mutex_unlock(&dm_); return q; }
extern "C" double vf_draw_unit(void) { int r = vf_get_rank(); pthread_mutex_lock(&dm_); if (reals.next[r] == reals.made) reals.v[reals.made++] = vf_concrete(vf_int("unit", 0, 3)); double q = reals.v[reals.next[r]++] / 4.0; pthread_mutex_unlock(&dm_); return q; }
extern "C" { void vf_out_open(const char*) { } void vf_out_text(const char*, long) { } void vf_out_uint(unsigned long) { } void vf_out_real(double) { } void vf_out_close(void) { } int vf_out_system(const char*) { return 0; } }   // the result is taken from memory
// ---- the processes ----
static base::cluster_t rootret; static V means[8]; static std::vector<size_t> sizes[8]; static std::vector<unsigned> own[8]; static size_t own0[8]; static const bool trace = false;
static std::string dname() { return dt == base::dist_t::TAXI ? "taxi" : dt == base::dist_t::SQEUCL ? "sqeucl" : dt == base::dist_t::COS ? "cos" : "eucl"; }
template <class C> static void drive(std::shared_ptr<C> q, int r) {
    base::cluster_t ret; vf_assert(q->get_nprocs() == (int)P, "number of processes"); own0[r] = q->global_rid(0);
    q->run(ret, "out"); if (!r) rootret = ret; means[r] = q->get_gcltrs()->get_means(); auto m = q->get_gcltrs()->get_num_members_v(); sizes[r].assign(m.begin(), m.end()); own[r].assign(q->get_cluster_assignments(), q->get_cluster_assignments() + q->get_nrow());
}
static void* process(void* p) {
    int r = (int)(long)p; vf_set_rank(r); const double* cc = init == "none" ? &c[0] : NULL;
    if (kind) { coordinator::ptr q = prune::dist_task_coordinator::create(0, NULL, "data.bin", n, d, k, it, vf_param("nodes", 1), T, cc, init, tol, dname()); drive(std::static_pointer_cast<prune::dist_task_coordinator>(q), r); }
    else { coordinator::ptr q = dist::dist_coordinator::create(0, NULL, "data.bin", n, d, k, it, vf_param("nodes", 1), T, cc, init, tol, dname()); drive(std::static_pointer_cast<dist::dist_coordinator>(q), r); }
    return NULL;
}
static base::cluster_t go(unsigned iters) {
    it = iters; arrived = round_ = inited = finalized = 0; for (int q = 0; q < 8; q++) ints.next[q] = reals.next[q] = 0; pthread_t h[8]; for (unsigned r = 0; r < P; r++) pthread_create(&h[r], NULL, process, (void*)(long)r); for (unsigned r = 0; r < P; r++) pthread_join(h[r], NULL);
    vf_assert(inited == P && finalized == P, "every process enters and leaves");
    const base::cluster_t& g = rootret; vf_assert(g.nrow == n && g.ncol == d && g.k == k && g.assignments.size() == n && g.assignment_count.size() == k && g.centroids.size() == k * d, "collected result has the shape of the data");
    size_t at = 0; for (unsigned r = 0; r < P; r++) { vf_assert(own0[r] == at, "the rows are split without gap or overlap"); for (size_t i = 0; i < own[r].size(); i++) vf_assert(at + i < n && own[r][i] == g.assignments[at + i], "the collected label is that of the process that owns the row"); at += own[r].size(); vf_assert(means[r] == means[0] && sizes[r] == sizes[0], "every process has the same centers and sizes"); } vf_assert(at == n, "the rows are split without gap or overlap");
    vf_assert(means[0] == g.centroids, "the collected centers are those of the processes"); return g;
}
static double dst(const double* a, const double* b) { return dt == base::dist_t::EUCL && d == 1 ? vf_abs(a[0] - b[0]) : ref::key(a, b, d, dt); }
extern "C" void vf_main() {
    n = vf_param("n", 3); d = vf_param("d", 1); k = vf_param("k", 2); T = vf_param("t", 1); P = vf_param("np", 2); dt = vf_param("dt", 0); kind = vf_param("kind", 0); unsigned M = vf_param("it", 2); tol = vf_param("tol", 0) ? vf_fix("tol", -1, 3, 4) : -1; long in = vf_param("init", 0); init = in == 1 ? "forgy" : in == 2 ? "random" : in == 3 ? "kmeanspp" : "none";
    x = ref::data(n, d); c.resize(k * d); if (!in) for (auto& q : c) q = vf_fix("c", vf_param("clo", 0), vf_param("chi", 2), 1); vf_file_create("data.bin", &x[0], sizeof(double) * n * d);
    V prev = c; std::vector<unsigned> lab; bool conv = false;
    if (in) {                                            // starting centers as single-process would choose them
        base::cluster_t g = go(1); prev.assign(k * d, 0.0); lab = g.assignments;
        if (in == 1) for (unsigned j = 0; j < k; j++) for (size_t q = 0; q < d; q++) prev[j * d + q] = x[ints.v[j] * d + q];
        if (in == 2) { vf_assert(ints.made >= (int)n, "one draw for every row"); std::vector<size_t> cnt(k, 0); for (size_t i = 0; i < n; i++) { cnt[ints.v[i]]++; for (size_t q = 0; q < d; q++) prev[ints.v[i] * d + q] += x[i * d + q]; } for (unsigned j = 0; j < k; j++) if (cnt[j]) for (size_t q = 0; q < d; q++) prev[j * d + q] /= cnt[j]; }
        if (in == 3) { size_t f = ints.v[0]; V best(n); for (size_t q = 0; q < d; q++) prev[q] = x[f * d + q];
            for (unsigned j = 1; j < k; j++) { double s = 0; for (size_t i = 0; i < n; i++) { double v = dst(&x[i * d], &prev[(j - 1) * d]); if (j == 1 || v < best[i]) best[i] = v; s += best[i]; } s *= reals.v[j - 1] / 4.0; size_t pick = n; for (size_t i = 0; i < n; i++) { s -= best[i]; if (s <= 0) { pick = i; break; } } vf_assert(pick < n, "a row is drawn"); for (size_t q = 0; q < d; q++) prev[j * d + q] = x[pick * d + q]; } }
    }
    for (unsigned m = 1; m <= M; m++) {
        base::cluster_t g = go(m); if (conv) { vf_assert(g.iters < m, "a converged run stops"); break; }
        std::vector<size_t> cnt(k, 0); V s(k * d, 0.0); size_t ch = 0;
        for (size_t i = 0; i < n; i++) { unsigned a = g.assignments[i]; vf_assert(a < k, "label in range"); double da = dst(&x[i * d], &prev[a * d]); for (unsigned j = 0; j < k; j++) vf_assert(da <= dst(&x[i * d], &prev[j * d]) + 1e-9, "row is labelled with a nearest center"); cnt[a]++; for (size_t q = 0; q < d; q++) s[a * d + q] += x[i * d + q]; if (m == 1 || a != lab[i]) ch++; }
        for (unsigned j = 0; j < k; j++) { vf_assert(g.assignment_count[j] == cnt[j], "sizes count the labels of all processes"); if (cnt[j]) for (size_t q = 0; q < d; q++) vf_assert(vf_near(g.centroids[j * d + q] * (double)cnt[j], s[j * d + q]), "a center is the mean of its rows in all processes"); else vf_cover("an empty cluster"); }
        vf_assert(g.iters == m, "reported iteration"); conv = ch == 0 || (double)ch <= tol * (double)n; if (conv && ch) vf_cover("stopped by the tolerance"); else if (conv) vf_cover("converged"); else if (m > 1) vf_cover("labels moved");
        prev = g.centroids; lab = g.assignments;
    }
    vf_cover("done");
}
