// Repeated k-means++: the start with the least total distance is kept and reported.
#include "common.hpp"
#include "binding/kmeanspp.hpp"
using namespace knor;
typedef std::vector<double> V;
static std::vector<long> ints; static V units;
extern "C" long vf_draw_int(long a, long b) { long v = vf_concrete(vf_int("draw", a, b)); ints.push_back(v); return v; }
extern "C" double vf_draw_unit(void) { long den = vf_param("uden", 8); units.push_back(vf_fix("u", 1, den - 1, den)); return units.back(); }
static size_t n, d; static unsigned k, T, S; static int dt; static V x;
static double dst(const double* a, const double* b) { return dt == base::dist_t::TAXI ? ref::l1(a, b, d) : dt == base::dist_t::SQEUCL ? ref::sq(a, b, d) : d == 1 ? vf_abs(a[0] - b[0]) : std::sqrt(ref::sq(a, b, d)); }
extern "C" void vf_main() {
    n = vf_param("n", 3); d = vf_param("d", 1); k = vf_param("k", 2); T = vf_param("t", 2); S = vf_param("s", 2); dt = vf_param("dt", 0); x = ref::data(n, d); V z = x; bool file = vf_param("file", 0);
    const char* nm = dt == base::dist_t::TAXI ? "taxi" : dt == base::dist_t::SQEUCL ? "sqeucl" : "eucl";
    if (file) vf_file_create("data.bin", &x[0], sizeof(double) * n * d);
    auto r = file ? base::kmeansPP(std::string("data.bin"), n, d, k, S, T, nm) : base::kmeansPP(&z[0], n, d, k, S, T, nm); vf_assert(z == x, "the data are not modified");
    const base::cluster_t& c = r.second; unsigned runs = S ? S : 1; vf_assert(ints.size() == runs && units.size() >= runs * (k - 1), "as many starts as asked for");
    size_t per = units.size() / runs; vf_assert(per * runs == units.size(), "every start draws alike");
    double best = 0, second = -1; unsigned at = 0; V es, all;
    for (unsigned s = 0; s < runs; s++) {
        V cen(k * d, 0.0), D(n, 0.0); double e = 0; for (size_t q = 0; q < d; q++) cen[q] = x[ints[s] * d + q];
        for (unsigned j = 0; j < k; j++) {
            double tot = 0; for (size_t i = 0; i < n; i++) { double v = dst(&x[i * d], &cen[j * d]); if (!j || v < D[i]) D[i] = v; tot += D[i]; }
            e = tot; if (j + 1 == k) break;
            double target = tot * units[s * per + j], pre = 0; size_t pick = 0; for (size_t i = 0; i < n; i++) { double b = pre; pre += D[i]; vf_assume(tot == 0 || vf_abs(pre - target) > 1e-9); if (b < target && target < pre) pick = i; }
            for (size_t q = 0; q < d; q++) cen[(j + 1) * d + q] = x[pick * d + q];
        }
        es.push_back(e); all.insert(all.end(), cen.begin(), cen.end()); if (!s || e < best) { best = e; at = s; }
        if (s && e > best) vf_cover("starts differ");
    }
    vf_assert(vf_near(r.first.second, best), "the least total distance is reported"); vf_assert(r.first.first >= 1 && r.first.first <= runs, "the number of the best start");
    vf_assert(c.nrow == n && c.ncol == d && c.k == k && c.assignments.size() == n && c.assignment_count.size() == k && c.centroids.size() == k * d, "shape of the result");
    std::vector<size_t> cnt(k, 0); double e = 0;
    for (size_t i = 0; i < n; i++) { unsigned a = c.assignments[i]; vf_assert(a < k, "label in range"); cnt[a]++; double da = dst(&x[i * d], &c.centroids[a * d]); e += da; for (unsigned j = 0; j < k; j++) vf_assert(da <= dst(&x[i * d], &c.centroids[j * d]) + 1e-9, "the label is a nearest center of the best start"); }
    for (unsigned j = 0; j < k; j++) { vf_assert(c.assignment_count[j] == cnt[j], "sizes count the labels"); bool row = false; for (size_t i = 0; i < n; i++) { bool eq = true; for (size_t q = 0; q < d; q++) eq = eq && c.centroids[j * d + q] == x[i * d + q]; row = row || eq; } vf_assert(row, "every center is a row"); }
    vf_assert(vf_near(e, best), "the reported clustering is that of the best start"); unsigned b = r.first.first - 1; vf_assert(vf_near(es[b], best), "the start reported has the least total distance"); vf_assert(c.centroids == V(all.begin() + b * k * d, all.begin() + (b + 1) * k * d), "the centers are those of the start reported");
    if (at) vf_cover("a later start is better"); vf_cover("done");
}
