// Fuzzy c-means: memberships and centers against the update equations, labels and sizes.
#include "common.hpp"
#include "fcm_coordinator.hpp"
#include "dense_matrix.hpp"
using namespace knor;
typedef std::vector<double> V;
static size_t n, d; static unsigned k, T, m; static int dt; static bool file;
static double dist(const double* a, const double* b) {
    if (dt == base::dist_t::TAXI) return ref::l1(a, b, d); if (dt == base::dist_t::SQEUCL) return ref::sq(a, b, d); if (dt == base::dist_t::EUCL) return std::sqrt(ref::sq(a, b, d));
    double aa = ref::dot(a, a, d), bb = ref::dot(b, b, d); if (aa == 0 || bb == 0) return aa == bb ? 0 : 1; return 1 - ref::dot(a, b, d) / (std::sqrt(aa) * std::sqrt(bb));
}
static std::string dname() { return dt == base::dist_t::TAXI ? "taxi" : dt == base::dist_t::SQEUCL ? "sqeucl" : dt == base::dist_t::COS ? "cos" : "eucl"; }
static base::cluster_t go(V& x, const V& c, unsigned it, V& um) {
    std::string fn = ""; if (file) { vf_file_create("data.bin", &x[0], sizeof(double) * n * d); fn = "data.bin"; }
    coordinator::ptr km = fcm_coordinator::create(fn, n, d, k, it, vf_param("nodes", 2), T, &c[0], "none", -1, dname(), m);
    base::cluster_t r = km->run(file ? NULL : &x[0], false); um = std::static_pointer_cast<fcm_coordinator>(km)->um->as_vector(); return r;
}
static double ipow(double a, unsigned e) { double r = 1; while (e--) r *= a; return r; }
extern "C" void vf_main() {
    n = vf_param("n", 3); d = vf_param("d", 1); k = vf_param("k", 2); T = vf_param("t", 2); m = vf_param("m", 2); dt = vf_param("dt", 0); file = vf_param("file", 0); unsigned it = vf_param("it", 1);
    V x = ref::data(n, d), c(k * d); long clo = vf_param("clo", -2), chi = vf_param("chi", 2), cden = vf_param("cden", 1); for (auto& q : c) q = vf_fix("c", clo, chi, cden);
    V prev = c;
    for (unsigned t = 1; t <= it; t++) {
        V um; base::cluster_t r = go(x, c, t, um); vf_assert(r.nrow == n && r.ncol == d && r.k == k && r.assignments.size() == n && r.assignment_count.size() == k && r.centroids.size() == k * d && um.size() == k * n, "result shape");
        V u(k * n); std::vector<size_t> cnt(k, 0);
        for (size_t i = 0; i < n; i++) {
            V di(k); unsigned zeros = 0; double s = 0; for (unsigned j = 0; j < k; j++) { di[j] = dist(&x[i * d], &prev[j * d]); if (di[j] < 1e-12) zeros++; }
            for (unsigned j = 0; j < k; j++) { double g = um[j * n + i]; vf_assert(g >= 0 && g <= 1 + 1e-9, "membership lies between zero and one"); u[j * n + i] = m == 1 ? g : std::pow(g, 1.0 / m); s += u[j * n + i]; }
            vf_assert(vf_near(s, 1, 1e-6), "memberships of a row sum to one");
            if (zeros) { vf_cover("a row on a center"); double z = 0; for (unsigned j = 0; j < k; j++) if (di[j] < 1e-12) z += u[j * n + i]; vf_assert(vf_near(z, 1, 1e-6), "a row on a center belongs to it entirely"); }
            else for (unsigned j = 0; j < k; j++) { double q = 0; for (unsigned l = 0; l < k; l++) q += std::pow(di[j] / di[l], 1.0 / (m - 1)); vf_assert(vf_near(u[j * n + i] * q, 1, 1e-6), "membership follows the distances"); }
            unsigned a = r.assignments[i]; vf_assert(a < k, "label in range"); for (unsigned j = 0; j < k; j++) vf_assert(um[a * n + i] >= um[j * n + i], "label has the largest membership"); cnt[a]++;
        }
        for (unsigned j = 0; j < k; j++) {
            vf_assert(r.assignment_count[j] == cnt[j], "sizes count the labels");
            double w = 0; for (size_t i = 0; i < n; i++) w += um[j * n + i];
            if (w > 1e-20) for (size_t q = 0; q < d; q++) { double s = 0; for (size_t i = 0; i < n; i++) s += um[j * n + i] * x[i * d + q]; vf_assert(vf_near(r.centroids[j * d + q] * w, s, 1e-9 * (w < 1 ? w : 1)), "center is the weighted mean of the rows"); }
            for (size_t q = 0; q < d; q++) vf_assert(!ref::is_nan(r.centroids[j * d + q]) && vf_abs(r.centroids[j * d + q]) < 1e6, "center is a number");
        }
        prev = r.centroids; if (t > 1) vf_cover("second iteration");
    }
    vf_cover("done");
}
