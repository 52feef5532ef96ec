// Initialisation methods: the draws of the random generator become symbolic (vf_random.h) and are recorded here.
// kind 0: full engine, 1: pruned engine, 2: OpenMP, 3: OpenMP pruned, 4: spherical k-means;  method 0: k-means++, 1: forgy, 2: random partition
#include "common.hpp"
#include "kmeans_coordinator.hpp"
#include "kmeans_task_coordinator.hpp"
#include "skmeans_coordinator.hpp"
#include "kmeans.hpp"
#include "clusters.hpp"
using namespace knor;
typedef std::vector<double> V;
struct ID { long a, b, v; }; static std::vector<ID> ints; static V units; static size_t pi, pu;
extern "C" long vf_draw_int(long a, long b) { if (pi == ints.size()) { ID d = {a, b, vf_concrete(vf_int("draw", a, b))}; ints.push_back(d); } vf_assert(ints[pi].a == a && ints[pi].b == b, "same range of draws in the second run"); return ints[pi++].v; }
extern "C" double vf_draw_unit(void) { long den = vf_param("uden", 8); if (pu == units.size()) units.push_back(vf_fix("u", 1, den - 1, den)); return units[pu++]; }
static V x; static size_t n, d; static unsigned k, T, nodes; static int kind, method; static std::string metric;
static const char* mname() { return method == 0 ? "kmeanspp" : method == 1 ? "forgy" : "random"; }
struct Out { V cen; std::vector<unsigned> lab; V dist; std::vector<size_t> cnt; };
static Out go(unsigned iters) {
    pi = pu = 0; Out o; V data = x;
    if (kind == 2 || kind == 3) {
        std::vector<unsigned> a(n); std::vector<llong_t> cnt(k); V c(k * d, 0.0); vf_omp_threads(T);
        base::cluster_t r = kind == 2 ? omp::compute_kmeans(&data[0], &c[0], &a[0], &cnt[0], n, d, k, iters, T, mname(), -1, metric) : omp::compute_min_kmeans(&data[0], &c[0], &a[0], &cnt[0], n, d, k, iters, T, mname(), -1, metric);
        o.cen = r.centroids; o.lab = r.assignments; o.cnt = r.assignment_count; return o;
    }
    bool file = vf_param("file", 0); std::string fn; if (file) { vf_file_create("data.bin", &data[0], sizeof(double) * n * d); fn = "data.bin"; }
    coordinator::ptr km;
    if (kind == 1) km = prune::kmeans_task_coordinator::create(fn, n, d, k, iters, nodes, T, NULL, mname(), -1, metric);
    else if (kind == 4) km = skmeans_coordinator::create(fn, n, d, k, iters, nodes, T, NULL, mname(), -1);
    else km = kmeans_coordinator::create(fn, n, d, k, iters, nodes, T, NULL, mname(), -1, metric);
    base::cluster_t r = km->run(file ? NULL : &data[0]); o.cen = r.centroids; o.lab = r.assignments; o.cnt = r.assignment_count;
    if (kind == 1 && iters == 0) o.dist = std::static_pointer_cast<prune::kmeans_task_coordinator>(km)->dist_v;
    if (kind == 4) x = data;   // rows as normalised
    return o;
}
static int dt() { return metric == "taxi" ? base::dist_t::TAXI : metric == "sqeucl" ? base::dist_t::SQEUCL : metric == "cos" ? base::dist_t::COS : base::dist_t::EUCL; }
static double dist(const double* a, const double* b) {
    int t = dt(); if (t == base::dist_t::COS) { double aa = ref::dot(a, a, d), bb = ref::dot(b, b, d); if (aa == 0 || bb == 0) return aa == bb ? 0 : 1; } if (t == base::dist_t::COS) return 1 - ref::dot(a, b, d) / (std::sqrt(ref::dot(a, a, d)) * std::sqrt(ref::dot(b, b, d)));
    if (t == base::dist_t::TAXI || (d == 1 && t != base::dist_t::SQEUCL)) return ref::l1(a, b, d); double s = ref::sq(a, b, d); return t == base::dist_t::SQEUCL ? s : std::sqrt(s);
}
static bool eqrow(const double* a, const double* b) { for (size_t q = 0; q < d; q++) if (!(a[q] == b[q])) return false; return true; }
extern "C" void vf_main() {
    n = vf_param("n", 3); d = vf_param("d", 1); k = vf_param("k", 2); T = vf_param("t", 2); nodes = vf_param("nodes", 2); kind = vf_param("kind", 0); method = vf_param("method", 0); long mt = vf_param("dt", 0);
    metric = kind == 4 ? "cos" : mt == 1 ? "cos" : mt == 2 ? "taxi" : mt == 3 ? "sqeucl" : "eucl"; double eps = 1e-9;
    x = ref::data(n, d); V xin = x;
    Out o = go(0);
    if (method == 0) {
        vf_assert(ints.size() >= 1 && ints[0].a == 0 && ints[0].b == (long)n - 1, "the first center is drawn among all rows"); vf_assert(units.size() >= k - 1, "one draw per further center");
        vf_assert(eqrow(&o.cen[0], &x[ints[0].v * d]), "the first center is the drawn row"); V D(n, 1e300);
        for (unsigned j = 1; j < k; j++) {
            double tot = 0; for (size_t i = 0; i < n; i++) { double s = dist(&x[i * d], &o.cen[(j - 1) * d]); if (s < D[i]) D[i] = s; tot += D[i]; }
            double target = tot * units[j - 1], pre = 0; bool ok = false, any = false;
            for (size_t i = 0; i < n; i++) { double b = pre; pre += D[i]; if (!eqrow(&x[i * d], &o.cen[j * d])) continue; any = true; if (b <= target + eps && target <= pre + eps && (D[i] > eps || tot <= eps * n)) ok = true; }
            vf_assert(any, "every center is a row"); vf_assert(ok, "the next center is the row into which the draw falls"); if (tot > 0) vf_cover("a row away from the centers"); else vf_cover("all rows coincide");
        }
        for (size_t i = 0; i < n; i++) {
            vf_assert(o.lab[i] < k, "every row has a label"); double s = dist(&x[i * d], &o.cen[(k - 1) * d]); if (s < D[i]) D[i] = s;
            vf_assert(vf_near(dist(&x[i * d], &o.cen[o.lab[i] * d]), D[i]), "the label is a nearest chosen center"); if (o.dist.size()) vf_assert(vf_near(o.dist[i], D[i]), "the distance is that to the nearest chosen center");
        }
    } else if (method == 1) {
        vf_assert(ints.size() == k, "one draw per center"); for (unsigned j = 0; j < k; j++) { vf_assert(ints[j].a == 0 && ints[j].b == (long)n - 1, "centers are drawn among all rows"); vf_assert(eqrow(&o.cen[j * d], &x[ints[j].v * d]), "each center is the drawn row"); }
    } else {
        vf_assert(ints.size() == n, "one draw per row"); std::vector<size_t> c(k, 0); V s(k * d, 0.0);
        for (size_t i = 0; i < n; i++) { vf_assert(ints[i].a == 0 && ints[i].b == (long)k - 1, "a group is drawn among all groups"); unsigned j = ints[i].v; vf_assert(o.lab[i] == j, "the row is in the drawn group"); c[j]++; for (size_t q = 0; q < d; q++) s[j * d + q] += x[i * d + q]; }
        for (unsigned j = 0; j < k; j++) if (c[j]) { for (size_t q = 0; q < d; q++) vf_assert(vf_near(o.cen[j * d + q] * (double)c[j], s[j * d + q]), "the center of a group is the mean of its rows"); } else vf_cover("an empty group");
    }
    vf_cover("initialised"); if (!vf_param("iter", 1)) return;
    // one iteration from there, with the same draws
    x = xin; Out r = go(1); std::vector<size_t> cnt(k, 0); V s(k * d, 0.0);
    for (size_t i = 0; i < n; i++) {
        unsigned a = r.lab[i]; vf_assert(a < k, "label in range"); double da = dist(&x[i * d], &o.cen[a * d]); for (unsigned j = 0; j < k; j++) vf_assert(da <= dist(&x[i * d], &o.cen[j * d]) + eps, "first assignment is to a nearest initial center");
        cnt[a]++; for (size_t q = 0; q < d; q++) s[a * d + q] += x[i * d + q];
    }
    for (unsigned j = 0; j < k; j++) { vf_assert(r.cnt[j] == cnt[j], "sizes after the first iteration"); if (cnt[j]) for (size_t q = 0; q < d; q++) vf_assert(vf_near(r.cen[j * d + q] * (double)cnt[j], s[j * d + q]), "centers after the first iteration are means"); }
    vf_cover("one iteration");
}
