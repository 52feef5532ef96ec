// Result packaging: dense construction, renumbering of sparse cluster ids, comparison.
#include "common.hpp"
#include <unordered_map>
using namespace knor; using namespace knor::base;
typedef std::vector<double> V;
static long pick(const char* n, long lo, long hi) { return vf_concrete(vf_int(n, lo, hi)); }
extern "C" void vf_main() {
    long what = vf_param("what", 0), lo = -3, hi = 3; size_t n = pick("n", 1, vf_param("n", 3)), d = vf_param("d", 2), k = pick("k", 1, vf_param("k", 3)); size_t it = vf_int("iters", 0, 9);
    if (what == 0 || what == 2) {
        std::vector<unsigned> a(n); for (auto& q : a) q = vf_int("a", 0, k - 1); std::vector<llong_t> c(k); for (auto& q : c) q = vf_int("c", 0, 1000); V m(k * d); for (auto& q : m) q = vf_fix("m", lo, hi, 1);
        cluster_t r(n, d, it, k, &a[0], &c[0], m), s; s.set_params(n, d, it, k); s.set_computed(&a[0], &c[0], m);
        cluster_t* two[] = {&r, &s};
        for (auto p : two) { vf_assert(p->nrow == n && p->ncol == d && p->k == k && p->iters == it, "shape and iterations"); vf_assert(p->assignments.size() == n && p->assignment_count.size() == k && p->centroids.size() == k * d, "shape of the parts");
            for (size_t i = 0; i < n; i++) vf_assert(p->assignments[i] == a[i], "labels unchanged"); for (size_t i = 0; i < k; i++) vf_assert((llong_t)p->assignment_count[i] == c[i], "sizes unchanged"); for (size_t i = 0; i < k * d; i++) vf_assert(p->centroids[i] == m[i], "centroids unchanged"); }
        vf_assert(r == s, "equal results compare equal");
        if (what == 2) { // one difference anywhere
            long w = pick("part", 0, 4); bool same = true;
            if (w == 0) { size_t i = pick("i", 0, n - 1); unsigned v = vf_int("nv", 0, k); same = v == a[i]; s.assignments[i] = v; } else if (w == 1) { size_t i = pick("i", 0, k - 1); llong_t v = vf_int("nv", 0, 1000); same = v == c[i]; s.assignment_count[i] = v; }
            else if (w == 2) { size_t i = pick("i", 0, k * d - 1); double v = vf_fix("nm", lo, hi, 1); same = v == m[i]; s.centroids[i] = v; }
            else if (w == 3) { cluster_t t(n + 1, d, it, k, &(a.insert(a.end(), 0u), a)[0], &c[0], m); vf_assert(!(t == r) && !(r == t), "results with different row counts differ"); }
            else { std::vector<llong_t> c2 = c; c2.push_back(0); V m2 = m; m2.resize((k + 1) * d, 0.0); cluster_t t(n, d, it, k + 1, &a[0], &c2[0], m2); vf_assert(!(t == r) && !(r == t), "results with different cluster counts differ"); }
            vf_assert((r == s) == same && (s == r) == same, "results are equal exactly when labels, sizes and centroids agree"); if (same) vf_cover("same"); else vf_cover("different");
        }
    } else if (what == 1) { // sparse ids
        size_t M = vf_param("ids", 4); std::vector<unsigned> a(n); std::vector<llong_t> c(M, 0); for (auto& q : a) { q = pick("a", 0, M - 1); c[q]++; }
        std::unordered_map<unsigned, V> m; size_t kk = 0; for (size_t j = 0; j < M; j++) if (c[j]) { V v(d); for (auto& q : v) q = vf_fix("m", lo, hi, 1); m[j] = v; kk++; }
        std::vector<llong_t> c0 = c; cluster_t r(n, d, it, a, c, m);
        vf_assert(r.nrow == n && r.ncol == d && r.iters == it && r.k == kk, "shape and iterations"); vf_assert(r.assignments.size() == n && r.assignment_count.size() == kk && r.centroids.size() == kk * d, "shape of the parts"); if (r.assignments.size() != n || r.assignment_count.size() != kk || r.centroids.size() != kk * d) return;
        for (size_t i = 0; i < n; i++) { unsigned b = r.assignments[i]; vf_assert(b < kk, "new label in range"); if (b >= kk) return; vf_assert((llong_t)r.assignment_count[b] == c0[a[i]], "size follows its cluster"); for (size_t q = 0; q < d; q++) vf_assert(r.centroids[b * d + q] == m[a[i]][q], "centroid follows its cluster");
            for (size_t j = 0; j < n; j++) vf_assert((b == r.assignments[j]) == (a[i] == a[j]), "rows share a new label exactly when they shared an old one"); }
        if (kk > 1 && c0[0] == 0) vf_cover("sparse ids");
    } else {                // mixture results
        V mean(k * d), resp(n * k), prob(k); for (auto& q : mean) q = vf_fix("m", lo, hi, 1); for (auto& q : resp) q = vf_fix("r", lo, hi, 1); for (auto& q : prob) q = vf_fix("p", lo, hi, 1); std::vector<dense_matrix<double>*> cov; for (size_t j = 0; j < k; j++) { V v(d * d); for (auto& q : v) q = vf_fix("c", lo, hi, 1); auto x = dense_matrix<double>::create(d, d); x->set(&v[0]); cov.push_back(x); }
        gmm_t g(n, d, it, k, &mean[0], cov, &resp[0], &prob[0]), h(n, d, it, k, &mean[0], cov, &resp[0], &prob[0]); vf_assert(g.nrow == n && g.ncol == d && g.iters == it && g.k == k && g.means == mean && g.gaussian_prob == prob && g.cov_mats.size() == k, "mixture parameters"); for (size_t j = 0; j < k; j++) vf_assert(g.cov_mats[j] == cov[j]->as_vector(), "covariances");
        vf_assert(g.resp_mat == resp, "responsibilities of every row and component"); vf_assert(g == h, "equal mixtures compare equal");
    }
    vf_cover("done");
}
