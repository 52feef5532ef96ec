// g-means: the Anderson-Darling statistic, the projection it is computed on, and the decision taken from it.
#include "common.hpp"
#include "AndersonDarling.hpp"
#include "gmeans_coordinator.hpp"
#include "hclust_id_generator.hpp"
#include "thd_safe_bool_vector.hpp"
#include "clusters.hpp"
#include "linalg.hpp"
#include "thread.hpp"
#include <algorithm>
#include <cmath>
#include <set>
using namespace knor;
typedef std::vector<double> V;
static size_t n, d;
static long pick(const char* nm, long lo, long hi) { return vf_concrete(vf_int(nm, lo, hi)); }
static double Phi(double z) { return std::erfc(-z / std::sqrt(2.0)) / 2; }
static double stat(const V& s) {   // by definition; the order of the terms is found by rank, not by sorting in place
    size_t m = s.size(); double mu = 0, q = 0; for (double v : s) mu += v; mu /= m; for (double v : s) q += (v - mu) * (v - mu); double sd = std::sqrt(q / (m - 1)); V o(s); for (size_t i = 0; i < m; i++) for (size_t j = i + 1; j < m; j++) if (o[j] < o[i]) std::swap(o[i], o[j]);
    double a = 0; for (size_t i = 1; i <= m; i++) a += (2.0 * i - 1) * (std::log(Phi((o[i - 1] - mu) / sd)) + std::log(1 - Phi((o[m - i] - mu) / sd)));
    return -(double)m - a / m;
}
static bool flat(const V& s) { for (double v : s) if (v != s[0]) return false; return true; }
static double critical(double N, int q) { static const double c[] = {0.576, 0.656, 0.787, 0.918, 1.092}; return c[q] / (1 + 4 / N - 25 / (N * N)); }
static void statistic() {
    V s(n); for (auto& v : s) v = vf_fix("s", vf_param("lo", 0), vf_param("hi", 2), 1); if (flat(s)) vf_kill();
    V a(s); double r = base::AndersonDarling::compute_statistic(n, &a[0]); vf_cover("statistic"); vf_assert(vf_near(r, stat(s) + vf_param("wrong", 0), 1e-7), "the statistic is that of the definition");
    V b(s); std::reverse(b.begin(), b.end()); vf_assert(vf_near(base::AndersonDarling::compute_statistic(n, &b[0]), r, 1e-9), "the statistic depends on the order of the sample");
    V c(s); for (auto& v : c) v = 4 * v - 7; vf_assert(vf_near(base::AndersonDarling::compute_statistic(n, &c[0]), r, 1e-7), "the statistic depends on the unit of the sample");
    V cv; base::AndersonDarling::compute_critical_values((double)n, cv); vf_assert(cv.size() == 5, "five levels"); for (int q = 0; q < 5; q++) vf_assert(vf_near(cv[q], critical(n, q)), "critical value");
}
static gmeans_coordinator* make(unsigned T, short strict) { return new gmeans_coordinator("", n, d, 8, 1, vf_param("nodes", 1), T, NULL, base::init_t::FORGY, -1.0, base::dist_t::EUCL, 2, strict); }
struct P { unsigned id, z, o; V m; std::vector<size_t> l, r; };
static const unsigned ID[][3] = {{4, 7, 2}, {1, 6, 9}};
static P add(gmeans_coordinator* c, long q) {
    P p; p.id = ID[q][0]; p.z = ID[q][1]; p.o = ID[q][2]; c->hcltrs[p.id] = base::h_clusters::create(2, d, p.id, p.z, p.o); c->activate(p.id); c->activate(p.z); c->activate(p.o); return p;
}
static void place(gmeans_coordinator* c, P& p, size_t row, bool right) { (right ? p.r : p.l).push_back(row); c->cluster_assignments[row] = right ? p.o : p.z; c->part_id[row] = p.id; c->cluster_assignment_counts[right ? p.o : p.z]++; }
static void projection() {
    V x(n * d); for (auto& v : x) v = vf_fix("x", vf_param("lo", -1), vf_param("hi", 1), 1);
    auto* c = make(vf_param("t", 2), 0); c->build_thread_state(); c->set_thread_data_ptr(&x[0]); c->hcltrs.clear();
    std::vector<P> ps; for (long q = 0; q < 2; q++) { ps.push_back(add(c, q)); P& p = ps.back(); p.m.resize(2 * d); for (auto& v : p.m) v = vf_fix("m", vf_param("lo", -1), vf_param("hi", 1), 1); if (flat(p.m) && false) vf_kill(); c->hcltrs[p.id]->set_mean((const double*)&p.m[0]); }
    for (auto& p : ps) { bool same = true; for (size_t j = 0; j < d; j++) same &= p.m[j] == p.m[d + j]; if (same) vf_kill(); }
    for (size_t i = 0; i < n; i++) place(c, ps[pick("part", 0, 1)], i, pick("side", 0, 1));
    c->compute_cluster_diffs(); c->wake4run(H_SPLIT); c->wait4complete(); vf_cover("projected");
    for (auto& p : ps) { double vv = 0; for (size_t j = 0; j < d; j++) vv += (p.m[j] - p.m[d + j]) * (p.m[j] - p.m[d + j]); for (auto* s : {&p.l, &p.r}) for (size_t i : *s) { double t = 0; for (size_t j = 0; j < d; j++) t += x[i * d + j] * (p.m[j] - p.m[d + j]); vf_assert(vf_near(c->nearest_cdist[i] * vv, t, 1e-9), "a row is projected on the line between its two centers"); } }
}
static void decide() {
    long parts = vf_param("parts", 1); int strict = pick("strict", vf_param("slo", 0), vf_param("shi", 4)); auto* c = make(1, strict);
    c->cltr_active_vec->set(0, false); c->hcltrs.clear(); std::vector<P> ps; size_t per = n / (parts + (vf_param("done", 0) ? 1 : 0)), row = 0; V s(n);
    for (auto& v : s) { v = vf_fix("s", vf_param("lo", 0), vf_param("hi", 2), 1); }
    for (long q = 0; q < parts; q++) {
        ps.push_back(add(c, q)); P& p = ps.back(); size_t end = q + 1 == parts && !vf_param("done", 0) ? n : row + per;
        for (size_t f = row; row < end; row++) place(c, p, row, vf_param("sides", 0) ? pick("side", 0, 1) : row - f >= (end - f) / 2);
        p.m.resize(d); for (auto& v : p.m) v = vf_fix("m", -1, 1, 1); std::copy(p.m.begin(), p.m.end(), c->cltrs->means.begin() + p.id * d);
    }
    for (; row < n; row++) { s[row] = (double)(row * row); c->cluster_assignments[row] = c->part_id[row] = 5; c->cluster_assignment_counts[5]++; c->cltr_active_vec->set(5, false); }   // a cluster finished in an earlier round
    c->nearest_cdist = s; std::vector<unsigned> L = c->cluster_assignments; size_t nc = c->curr_nclust;
    c->partition_decision();
    size_t back = 0;
    for (auto& p : ps) {
        V t; for (auto* q : {&p.l, &p.r}) for (size_t i : *q) t.push_back(s[i]); double N = t.size(); bool kept = c->hcltrs.has_key(p.id);
        if (flat(t)) { vf_assert(!kept, "a partition without variance is split"); vf_cover("no variance"); } else { double a = stat(t), cr = critical(N, strict); if (a > cr + 1e-7) vf_assert(kept, "a split is taken back though the statistic exceeds the critical value"); else if (a < cr - 1e-7) vf_assert(!kept, "a split is kept though the statistic does not exceed the critical value"); }
        if (kept) {
            vf_cover("kept"); for (auto* q : {&p.l, &p.r}) for (size_t i : *q) vf_assert(c->cluster_assignments[i] == L[i], "a kept split moves a row");
            vf_assert(c->cluster_assignment_counts[p.z] == p.l.size() && c->cluster_assignment_counts[p.o] == p.r.size() && c->cluster_assignment_counts[p.id] == 0, "a kept split changes sizes"); vf_assert(!c->final_centroids.count(p.id) && c->is_active(p.z) && c->is_active(p.o), "a kept split is not finished");
        } else {
            back++; vf_cover("restored"); for (auto* q : {&p.l, &p.r}) for (size_t i : *q) vf_assert(c->cluster_assignments[i] == p.id, "a restored parent misses a row");
            vf_assert(c->cluster_assignment_counts[p.id] == (size_t)N && c->cluster_assignment_counts[p.z] == 0 && c->cluster_assignment_counts[p.o] == 0, "sizes of a restored parent"); vf_assert(!c->is_active(p.id) && !c->is_active(p.z) && !c->is_active(p.o), "a restored parent is final");
            vf_assert(c->final_centroids.count(p.id), "a restored parent has a center"); for (size_t j = 0; j < d; j++) vf_assert(c->final_centroids[p.id][j] == p.m[j] + vf_param("wrong", 0), "the center of a restored parent is that of the partition");
        }
    }
    for (size_t i = 0; i < n; i++) if (L[i] == 5) vf_assert(c->cluster_assignments[i] == 5, "a row of a finished cluster is moved");
    vf_assert(c->curr_nclust == nc - 2 * back, "the number of clusters counts the dissolved children"); vf_cover("decided");
}
extern "C" void vf_main() {
    n = vf_param("n", 3); d = vf_param("d", 1); long what = vf_param("what", 0);
    if (what == 0) statistic(); else if (what == 1) decide(); else projection();
}
