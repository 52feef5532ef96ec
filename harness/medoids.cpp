// k-medoids: medoids are data rows, labels are nearest, swaps only improve and full sampling misses none.
#include "common.hpp"
#include "medoid_coordinator.hpp"
#include "clusters.hpp"
using namespace knor;
typedef std::vector<double> V;
static size_t n, d; static unsigned k, T; static int dt; static bool file; static double rate;
// One sequence of draws per thread (each worker owns its generator), shared by the runs of different length.
struct seq { long v[64]; int made, next; }; static seq ints, us[16]; static long yes, no;
extern "C" long vf_draw_int(long a, long b) { if (ints.next == ints.made) ints.v[ints.made++] = vf_int("pick", a, b); return ints.v[ints.next++]; }
extern "C" double vf_draw_unit(void) { unsigned q = vf_thread_id() % T; seq& s = us[q]; if (s.next == s.made) s.v[s.made++] = vf_concrete(vf_int(q == 0 ? "sampled0" : q == 1 ? "sampled1" : "sampled", 0, 1)); if (s.v[s.next++]) { yes++; return 0.0; } no++; return 0.875; }
static base::cluster_t go(const V& x, unsigned it) {
    ints.next = 0; for (seq& s : us) s.next = 0; yes = no = 0; V z(x);
    std::string fn = ""; if (file) { vf_file_create("data.bin", &x[0], sizeof(double) * n * d); fn = "data.bin"; }
    coordinator::ptr km = medoid_coordinator::create(fn, n, d, k, it, vf_param("nodes", 1), T, NULL, "forgy", -1, dt == base::dist_t::TAXI ? "taxi" : dt == base::dist_t::SQEUCL ? "sqeucl" : dt == base::dist_t::COS ? "cos" : "eucl", rate);
    base::cluster_t r = km->run(file ? NULL : &z[0], false); vf_assert(z == x, "the data are not modified"); return r;
}
static double dist(const double* a, const double* b) {
    if (dt == base::dist_t::TAXI) return ref::l1(a, b, d); if (dt == base::dist_t::SQEUCL) return ref::sq(a, b, d); if (dt == base::dist_t::EUCL) return d == 1 ? vf_abs(a[0] - b[0]) : std::sqrt(ref::sq(a, b, d));
    double aa = ref::dot(a, a, d), bb = ref::dot(b, b, d); if (aa == 0 || bb == 0) return aa == bb ? 0 : 1; return 1 - ref::dot(a, b, d) / (std::sqrt(aa) * std::sqrt(bb));
}
static double total(const V& x, const std::vector<unsigned>& l, unsigned c, const double* m) { double s = 0; for (size_t i = 0; i < n; i++) if (l[i] == c) s += dist(&x[i * d], m); return s; }
extern "C" void vf_main() {
    n = vf_param("n", 4); d = vf_param("d", 1); k = vf_param("k", 2); T = vf_param("t", 2); dt = vf_param("dt", 2); file = vf_param("file", 0); rate = vf_param("rate", 8) / 8.0; unsigned it = vf_param("it", 2); bool full = vf_param("full", 1); if (full) { for (seq& s : us) { s.made = 64; for (long& q : s.v) q = 1; } }
    if (vf_param("first", 0)) { ints.v[0] = vf_param("first", 0) - 1; ints.made = 1; }   // the first starting row may be fixed
    V x = ref::data(n, d); if (vf_param("distinct", 0)) for (size_t i = 1; i < n; i++) vf_assume(x[i * d] >= x[(i - 1) * d]);
    std::vector<unsigned> lab; V med; bool moved = false; unsigned last = 0, stop = 0;
    for (unsigned m = 0; m <= it; m++) {
        long y0 = yes, n0 = no; base::cluster_t r = go(x, m); long y1 = yes, n1 = no;
        vf_assert(r.nrow == n && r.ncol == d && r.k == k && r.assignments.size() == n && r.assignment_count.size() == k && r.centroids.size() == k * d, "result shape");
        std::vector<size_t> cnt(k, 0);
        for (size_t i = 0; i < n; i++) { unsigned a = r.assignments[i]; vf_assert(a < k, "label in range"); cnt[a]++; double da = dist(&x[i * d], &r.centroids[a * d]); for (unsigned j = 0; j < k; j++) vf_assert(da <= dist(&x[i * d], &r.centroids[j * d]) + 1e-9, "row is labelled with a nearest medoid"); }
        for (unsigned j = 0; j < k; j++) {
            const double* c = &r.centroids[j * d]; vf_assert((size_t)r.assignment_count[j] == cnt[j], "sizes count the labels");
            bool row = false, mine = !m; for (size_t i = 0; i < n; i++) { bool eq = true; for (size_t q = 0; q < d; q++) if (c[q] != x[i * d + q]) eq = false; if (eq) { row = true; if (m && lab[i] == j) mine = true; } } vf_assert(row, "a center is a row of the data");
            if (!m) continue;
            bool same = true; for (size_t q = 0; q < d; q++) if (c[q] != med[j * d + q]) same = false;
            double now = total(x, lab, j, c), old = total(x, lab, j, &med[j * d]);
            if (!same) { moved = true; vf_assert(mine, "a new medoid is a member of the cluster"); vf_assert(now < old + (dt == base::dist_t::TAXI || dt == base::dist_t::SQEUCL || (dt == base::dist_t::EUCL && d == 1) ? 0 : 1e-12), "a new medoid has a smaller summed distance"); vf_cover("medoid replaced"); }
            bool all = full || (n1 == n0 && y1 > y0 && last == m - 1);          // every row of this round was sampled
            if (all) { for (size_t i = 0; i < n; i++) if (lab[i] == j) vf_assert(now <= total(x, lab, j, &x[i * d]) + 1e-9, "no better sampled member is missed"); vf_cover("every row sampled"); }
            if (!full && y1 == y0) vf_assert(same, "no swap without a sampled row");
        }
        if (m && !stop && r.assignments == lab) stop = m;
        vf_assert(r.iters == (stop ? stop : m), "the run stops at the first step that moves no row");
        if (m && r.assignments != lab) vf_cover("labels moved");
        lab = r.assignments; med = r.centroids; last = r.iters;
    }
    vf_cover("done");
}
