// Spherical k-means: min-max normalisation of the features, assignment by cosine distance, means of the normalised rows.
#include "common.hpp"
#include "skmeans_coordinator.hpp"
#include "clusters.hpp"
using namespace knor;
typedef std::vector<double> V;
static size_t n, d; static unsigned k, T;
static base::cluster_t go(const V& x, const V& c, unsigned it, V& norm, double tol = -1) {
    norm = x; coordinator::ptr km = skmeans_coordinator::create("", n, d, k, it, vf_param("nodes", 2), T, &c[0], "none", tol); return km->run(&norm[0]);
}
static double cosd(const double* a, const double* b) { double aa = ref::dot(a, a, d), bb = ref::dot(b, b, d); if (aa == 0 || bb == 0) return aa == bb ? 0 : 1; return 1 - ref::dot(a, b, d) / (std::sqrt(aa) * std::sqrt(bb)); }
extern "C" void vf_main() {
    n = vf_param("n", 3); d = vf_param("d", 2); k = vf_param("k", 2); T = vf_param("t", 2); unsigned it = vf_param("it", 1); long what = vf_param("what", 0);
    V x = ref::data(n, d), c(k * d, 0.5), z, mn(d), mx(d); long clo = vf_param("clo", 0), chi = vf_param("chi", 2); if (what) for (auto& q : c) q = vf_fix("c", clo, chi, 2);
    base::cluster_t r0 = go(x, c, 0, z); vf_assert(r0.centroids == c && r0.k == k && r0.nrow == n && r0.ncol == d, "no iteration leaves the centers alone");
    for (size_t q = 0; q < d; q++) {
        mn[q] = mx[q] = x[q]; for (size_t i = 1; i < n; i++) { if (x[i * d + q] < mn[q]) mn[q] = x[i * d + q]; if (x[i * d + q] > mx[q]) mx[q] = x[i * d + q]; }
        for (size_t i = 0; i < n; i++) { double g = z[i * d + q]; if (mx[q] > mn[q]) { vf_assert(vf_near(g * (mx[q] - mn[q]), x[i * d + q] - mn[q]), "features are scaled to their range"); vf_assert(g >= 0 && g <= 1 + 1e-12, "normalised values lie between zero and one"); } else vf_assert(g == 0, "a constant feature becomes zero"); }
        if (mx[q] < 0) vf_cover("negative feature"); if (mx[q] == mn[q]) vf_cover("constant feature");
    }
    if (!what) { vf_cover("done"); return; }
    if (vf_param("nz", 0)) for (size_t i = 0; i < n; i++) vf_assume(ref::dot(&z[i * d], &z[i * d], d) > 0);
    if (vf_param("nzc", 1)) for (unsigned j = 0; j < k; j++) vf_assume(ref::dot(&c[j * d], &c[j * d], d) > 0);
    V prev = c;
    for (unsigned m = 1; m <= it; m++) {
        V zz; base::cluster_t r = go(x, c, m, zz); vf_assert(zz == z, "normalisation does not depend on the number of iterations");
        std::vector<size_t> cnt(k, 0); V s(k * d, 0.0);
        for (size_t i = 0; i < n; i++) { unsigned a = r.assignments[i]; vf_assert(a < k, "label in range"); double da = cosd(&z[i * d], &prev[a * d]); for (unsigned j = 0; j < k; j++) vf_assert(da <= cosd(&z[i * d], &prev[j * d]) + 1e-9, "assigned center is at minimal cosine distance"); cnt[a]++; for (size_t q = 0; q < d; q++) s[a * d + q] += z[i * d + q]; }
        for (unsigned j = 0; j < k; j++) { vf_assert(r.assignment_count[j] == cnt[j], "sizes count the labels"); if (cnt[j]) for (size_t q = 0; q < d; q++) vf_assert(vf_near(r.centroids[j * d + q] * (double)cnt[j], s[j * d + q]), "center is the mean of exactly its rows"); }
        if (cnt[0] && cnt[1]) vf_cover("both populated"); prev = r.centroids;
    }
    vf_cover("done");
}
