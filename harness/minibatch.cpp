// Mini-batch k-means: how sampled rows move the centers, and the labelling at the end.
#include "common.hpp"
#include "kmeans_task_coordinator.hpp"
#include "clusters.hpp"
using namespace knor;
typedef std::vector<double> V;
static size_t n, d; static unsigned k, T, mb; static int dt; static bool file, kpp; static double tol;
struct seq { long v[64]; int made, next; }; static seq us[16]; static std::vector<std::pair<unsigned, unsigned>> part; static long yes, lastyes;
extern "C" long vf_draw_int(long a, long b) { return vf_int("pick", a, b); }
static bool inrun;
extern "C" double vf_draw_unit(void) {
    if (!vf_thread_id()) return vf_fix("u", 0, 3, 4);
    unsigned q = (vf_thread_id() - 1) % T; seq& s = us[q]; if (s.next == s.made) s.v[s.made++] = vf_concrete(vf_int(q == 0 ? "sampled0" : q == 1 ? "sampled1" : "sampled", 0, 1)); return s.v[s.next++] ? 0.0 : 63.0 / 64; }
static base::cluster_t go(const V& x, const V& c, unsigned it) {
    for (seq& s : us) s.next = 0; V z(x); std::string fn = ""; if (file) { vf_file_create("data.bin", &x[0], sizeof(double) * n * d); fn = "data.bin"; }
    coordinator::ptr km = prune::kmeans_task_coordinator::create(fn, n, d, k, it, vf_param("nodes", 1), T, kpp ? NULL : &c[0], kpp ? "kmeanspp" : "none", tol, dt == base::dist_t::TAXI ? "taxi" : dt == base::dist_t::SQEUCL ? "sqeucl" : dt == base::dist_t::COS ? "cos" : "eucl");
    auto t = std::static_pointer_cast<prune::kmeans_task_coordinator>(km); t->set_mini_batch_size(mb); part.clear(); for (unsigned q = 0; q < T; q++) part.push_back(t->get_rid_len_tup(q));
    base::cluster_t r = t->mb_run(file ? NULL : &z[0]); vf_assert(z == x, "the data are not modified"); return r;
}
static double dist(const double* a, const double* b) {
    if (dt == base::dist_t::TAXI) return ref::l1(a, b, d); if (dt == base::dist_t::SQEUCL) return ref::sq(a, b, d); if (dt == base::dist_t::EUCL) return d == 1 ? vf_abs(a[0] - b[0]) : std::sqrt(ref::sq(a, b, d));
    double aa = ref::dot(a, a, d), bb = ref::dot(b, b, d); if (aa == 0 || bb == 0) return aa == bb ? 0 : 1; return 1 - ref::dot(a, b, d) / (std::sqrt(aa) * std::sqrt(bb));
}
static void shape(const V& x, const base::cluster_t& r) {
    vf_assert(r.nrow == n && r.ncol == d && r.k == k && r.assignments.size() == n && r.assignment_count.size() == k && r.centroids.size() == k * d, "result shape");
    std::vector<size_t> cnt(k, 0);
    for (size_t i = 0; i < n; i++) { unsigned a = r.assignments[i]; vf_assert(a < k, "label in range"); cnt[a]++; double da = dist(&x[i * d], &r.centroids[a * d]); for (unsigned j = 0; j < k; j++) vf_assert(da <= dist(&x[i * d], &r.centroids[j * d]) + 1e-9, "row is labelled with a nearest final center"); }
    for (unsigned j = 0; j < k; j++) vf_assert(r.assignment_count[j] == cnt[j], "sizes count the labels");
}
extern "C" void vf_main() {
    n = vf_param("n", 3); d = vf_param("d", 1); k = vf_param("k", 2); T = vf_param("t", 2); dt = vf_param("dt", 0); file = vf_param("file", 0); kpp = vf_param("kpp", 0); mb = vf_param("mb", 2); tol = vf_param("tol", -4) / 4.0; unsigned it = vf_param("it", 2); if (mb >= n) for (seq& s : us) s.made = 64;
    V x = ref::data(n, d), c(k * d, 0.0); if (!kpp) for (auto& q : c) q = vf_fix("c", vf_param("clo", 0), vf_param("chi", 2), vf_param("cden", 1));
    if (kpp) { base::cluster_t r = go(x, c, it); shape(x, r); for (size_t q = 0; q < d; q++) { double lo = x[q], hi = x[q]; for (size_t i = 1; i < n; i++) { if (x[i * d + q] < lo) lo = x[i * d + q]; if (x[i * d + q] > hi) hi = x[i * d + q]; } for (unsigned j = 0; j < k; j++) vf_assert(r.centroids[j * d + q] >= lo - 1e-9 && r.centroids[j * d + q] <= hi + 1e-9, "centers stay among the rows"); } vf_cover("done"); return; }
    base::cluster_t r = go(x, c, 0); shape(x, r); vf_assert(r.centroids == c, "no iteration leaves the centers alone");
    V m(c); std::vector<unsigned> lab(n, k); bool stopped = false;
    for (unsigned t = 1; t <= it; t++) {
        r = go(x, c, t); shape(x, r);
        if (!stopped) {
            std::vector<char> s(n, 0); size_t picked = 0;
            for (unsigned q = 0; q < T; q++) { unsigned len = part[q].second; for (unsigned i = 0; i < len; i++) { unsigned u = (t - 1) * len + i; vf_assert(u < (unsigned)us[q].made, "one draw for every row"); if (mb >= n || us[q].v[u]) { s[part[q].first + i] = 1; picked++; } } }
            for (size_t i = 0; i < n; i++) if (s[i]) { unsigned a = 0; for (unsigned j = 1; j < k; j++) { double u = dist(&x[i * d], &m[j * d]), v = dist(&x[i * d], &m[a * d]); vf_assume(vf_abs(u - v) > 1e-9); if (u < v) a = j; } lab[i] = a; }   // equally near centers: outside
            std::vector<size_t> cnt(k, 0); for (size_t i = 0; i < n; i++) if (lab[i] < k) cnt[lab[i]]++;
            V w(m); for (size_t i = 0; i < n; i++) if (s[i]) { double e = 1.0 / cnt[lab[i]]; for (size_t q = 0; q < d; q++) { double& g = w[lab[i] * d + q]; g = (1 - e) * g + e * x[i * d + q]; } }
            double mv = 0; for (size_t q = 0; q < k * d; q++) { mv += (w[q] - m[q]) * (w[q] - m[q]); vf_assert(vf_near(r.centroids[q], w[q]), "a center moves toward the sampled rows of its cluster"); }
            if (!picked) { vf_cover("nothing sampled"); vf_assert(r.centroids == m, "nothing sampled moves nothing"); } if (picked == n) vf_cover("everything sampled"); if (picked && mv > 0) vf_cover("a center moved");
            m = r.centroids; if (tol > 0 && mv < tol * tol - 1e-9) stopped = true; if (tol > 0) vf_assume(vf_abs(mv - tol * tol) > 1e-9);
        } else { vf_cover("stopped early"); vf_assert(r.centroids == m, "no move after the centers stopped moving"); }
    }
    vf_cover("done");
}
