// k-means engines end to end from given centres: E-step, M-step, bookkeeping, for every engine kind.
// kind 0: full engine (pthreads), 1: pruned engine (pthreads), 2: OpenMP full, 3: OpenMP pruned
#include "common.hpp"
#include "kmeans_coordinator.hpp"
#include "kmeans_task_coordinator.hpp"
#include "kmeans.hpp"
using namespace knor;
static std::string dname(int dt) { return dt == base::dist_t::TAXI ? "taxi" : dt == base::dist_t::SQEUCL ? "sqeucl" : dt == base::dist_t::COS ? "cos" : "eucl"; }
static base::cluster_t go(int kind, std::vector<double>& x, std::vector<double> c, size_t n, size_t d, unsigned k, unsigned iters, unsigned nodes, unsigned T, int dt, bool file, double tol) {
    if (kind >= 2) {
        std::vector<unsigned> a(n); std::vector<llong_t> cnt(k); vf_omp_threads(T);
        return kind == 2 ? omp::compute_kmeans(&x[0], &c[0], &a[0], &cnt[0], n, d, k, iters, T, "none", tol, dname(dt))
                         : omp::compute_min_kmeans(&x[0], &c[0], &a[0], &cnt[0], n, d, k, iters, T, "none", tol, dname(dt));
    }
    std::string fn = "";
    if (file) { vf_file_create("data.bin", &x[0], sizeof(double) * n * d); fn = "data.bin"; }
    coordinator::ptr km = kind == 1 ? prune::kmeans_task_coordinator::create(fn, n, d, k, iters, nodes, T, &c[0], "none", tol, dname(dt))
                                    : kmeans_coordinator::create(fn, n, d, k, iters, nodes, T, &c[0], "none", tol, dname(dt));
    return km->run(file ? NULL : &x[0]);
}
// nearest in the metric; ties allowed
static bool nearer_eq(const double* x, const double* a, const double* b, size_t d, int dt) {
    if (dt == base::dist_t::COS) {   // cosine distance 1 - x.a/(|x||a|): compare x.a/|a| >= x.b/|b| without square roots
        if (ref::dot(x, x, d) == 0) return ref::dot(a, a, d) == 0 || ref::dot(b, b, d) > 0; if (ref::dot(a, a, d) == 0) return ref::dot(b, b, d) == 0 || ref::dot(x, b, d) <= 1e-9; if (ref::dot(b, b, d) == 0) return ref::dot(x, a, d) >= -1e-9;
        double xa = ref::dot(x, a, d), xb = ref::dot(x, b, d), aa = ref::dot(a, a, d), bb = ref::dot(b, b, d);
        double l = xa * std::sqrt(bb), r = xb * std::sqrt(aa);
        return l >= r - 1e-9;
    }
    return ref::key(x, a, d, dt) <= ref::key(x, b, d, dt) + (vf_param("exact", 1) ? 0.0 : 1e-9);
}
extern "C" void vf_main() {
    size_t n = vf_param("n", 4), d = vf_param("d", 1); unsigned k = vf_param("k", 2), T = vf_param("t", 2), nodes = vf_param("nodes", 2), it = vf_param("it", 2), from = vf_param("from", 1);
    int dt = vf_param("dt", 0), kind = vf_param("kind", 0); bool file = vf_param("file", 0); unsigned what = vf_param("what", 3);
    std::vector<double> x = ref::data(n, d), c = ref::data(k, d, "c");
    if (vf_param("cc", 0)) for (unsigned j = 0; j < k; j++) for (size_t q = 0; q < d; q++) c[j * d + q] = vf_param(("c" + std::to_string(j)).c_str(), j);   // given starting centres
    if (vf_param("xo", 0)) for (size_t i = 1; i < n; i++) vf_assume(x[i * d] >= x[(i - 1) * d]);   // symmetry: rows listed in order of first coordinate
    if (vf_param("order", 0)) for (unsigned j = 1; j < k; j++) vf_assume(c[j * d] >= c[(j - 1) * d]);   // symmetry: centres listed in order of first coordinate
    std::vector<double> prev = c;
    for (unsigned m = from; m <= it; m++) {
        if (m > 1 && m == from) prev = go(kind, x, c, n, d, k, m - 1, nodes, T, dt, file, -1).centroids;
        base::cluster_t r = go(kind, x, c, n, d, k, m, nodes, T, dt, file, -1);
        vf_assert(r.nrow == n && r.ncol == d && r.k == k && r.assignments.size() == n && r.assignment_count.size() == k && r.centroids.size() == k * d, "result shape");
        std::vector<size_t> cnt(k, 0); std::vector<double> sum(k * d, 0.0);
        for (size_t i = 0; i < n; i++) {
            unsigned a = r.assignments[i]; vf_assert(a < k, "assignment in range");
            if (what & 1) for (unsigned j = 0; j < k; j++) vf_assert(nearer_eq(&x[i * d], &prev[a * d], &prev[j * d], d, dt), "assigned centroid is nearest");
            cnt[a]++; for (size_t q = 0; q < d; q++) sum[a * d + q] += x[i * d + q];
        }
        bool anyempty = false;
        for (unsigned j = 0; j < k; j++) {
            if (what & 2) vf_assert(r.assignment_count[j] == cnt[j], "count is the number of members");
            if (cnt[j]) { if (what & 2) for (size_t q = 0; q < d; q++) vf_assert(vf_near(r.centroids[j * d + q] * (double)cnt[j], sum[j * d + q]), "centroid is the mean of its members"); }
            else anyempty = true;
        }
        if (anyempty) vf_cover("an empty cluster");
        else vf_cover("all clusters populated");
        if (m > 1) vf_cover("second iteration");
        prev = r.centroids;
    }
}
