// x-means: partition means, distances, and the decision to keep a split or to restore the parent.
#include "common.hpp"
#include "xmeans_coordinator.hpp"
#include "hclust_id_generator.hpp"
#include "thd_safe_bool_vector.hpp"
#include "clusters.hpp"
#include "thread.hpp"
#include <cmath>
#include <set>
using namespace knor;
typedef std::vector<double> V;
static size_t n, d; static V x;
static double dist(size_t i, const double* c) { double s = 0; for (size_t j = 0; j < d; j++) s += (x[i * d + j] - c[j]) * (x[i * d + j] - c[j]); return std::sqrt(s); }
static long pick(const char* nm, long lo, long hi) { return vf_concrete(vf_int(nm, lo, hi)); }
static xmeans_coordinator* make(unsigned T, unsigned k) { return new xmeans_coordinator("", n, d, k, 1, vf_param("nodes", 1), T, NULL, base::init_t::FORGY, -1.0, base::dist_t::EUCL, 2); }
static void means(xmeans_coordinator* c) {
    static const unsigned IDS[] = {0, 3, 5};
    c->build_thread_state(); c->set_thread_data_ptr(&x[0]);
    for (int round = 0; round < 2; round++) {
        bool act[3]; std::set<unsigned> used;
        for (int q = 0; q < 3; q++) { act[q] = round == 0 || pick("active", 0, 1); c->cltr_active_vec->set(IDS[q], act[q]); }
        for (size_t i = 0; i < n; i++) { unsigned p = round == 0 ? 0 : IDS[pick("part", 0, 2)]; c->part_id[i] = c->cluster_assignments[i] = p; }
        c->wake4run(MEAN); c->wait4complete(); c->combine_partition_means();
        for (int q = 0; q < 3; q++) for (size_t j = 0; j < d; j++) {
            double s = 0; size_t m = 0; for (size_t i = 0; i < n; i++) if (c->part_id[i] == IDS[q]) { s += x[i * d + j]; m++; }
            if (act[q] && m) { vf_assert(vf_near(c->cltrs->get_mean_rawptr(IDS[q])[j] * m, s), "the center of a partition is the mean of its rows"); if (round && m > 1) vf_cover("partition of a recycled id"); }
        }
    }
    // one round of two-way assignment on those partitions
    struct P { unsigned id, z, o; V m; bool conv; }; std::vector<P> ps; unsigned nid = 6; c->hcltrs.clear();
    for (int q = 0; q < 3; q++) {
        bool any = false; for (size_t i = 0; i < n; i++) any |= c->part_id[i] == IDS[q];
        if (!c->cltr_active_vec->get(IDS[q]) || !any) { c->cltr_active_vec->set(IDS[q], false); continue; }
        P p; p.id = IDS[q]; p.z = nid++; p.o = nid++; p.m.resize(2 * d); for (auto& v : p.m) v = vf_fix("c", vf_param("lo", 0), vf_param("hi", 2), 1); p.conv = false;
        c->hcltrs[p.id] = base::h_clusters::create(2, d, p.id, p.z, p.o); c->hcltrs[p.id]->set_mean((const double*)&p.m[0]); c->activate(p.z); c->activate(p.o); ps.push_back(p);
    }
    if (ps.empty()) vf_kill();
    std::vector<unsigned> L = c->cluster_assignments; c->compute_pdist = true;
    c->wake4run(H_EM); c->wait4complete(); c->update_clusters();
    for (auto& p : ps) for (size_t i = 0; i < n; i++) if (c->part_id[i] == p.id) {
        double a = dist(i, &p.m[0]), b = dist(i, &p.m[d]); unsigned l = c->cluster_assignments[i];
        vf_assert(l == p.z || l == p.o, "a row leaves its partition"); vf_assert(l == p.z ? a <= b : b <= a, "a row goes to the farther center");
        vf_assert(vf_near(c->nearest_cdist[i], l == p.z ? a : b, 1e-6), "distance to the nearer center"); vf_cover("assigned");
        vf_assert(vf_near(c->partition_dist[i], dist(i, c->cltrs->get_mean_rawptr(p.id)), 1e-6), "distance to the center of the partition");
    }
    for (size_t i = 0; i < n; i++) if (!c->cltr_active_vec->get(L[i])) vf_assert(c->cluster_assignments[i] == L[i], "a row of a finished cluster moves");
}
// The criterion: log-likelihood of spherical Gaussians around the centers minus half the free parameters times log N, one term per center.
static double crit(double s, double N, double K, const V& sizes) {
    if (N <= K) return -std::numeric_limits<double>::infinity();
    s /= N - K; double p = (K - 1) + d * K + 1, r = 0;
    for (double q : sizes) r += (q ? q * std::log(q / N) - q * d * std::log(s) * .5 : 0) - q * std::log(2.0 * M_PI) * .5 - (q - K) * .5 - p * .5 * std::log(N);
    return r;
}
static void decide(xmeans_coordinator* c, long nparts) {
    struct P { unsigned id, z, o; std::vector<size_t> l, r; }; std::vector<P> ps; size_t row = 0; long lo = vf_param("dlo", 1), hi = vf_param("dhi", 3), den = vf_param("dden", 1), mul = vf_param("dmul", 1);
    static const unsigned ID[][3] = {{4, 7, 2}, {1, 6, 9}}; std::vector<unsigned> fin;
    c->cltr_active_vec->set(0, false); c->hcltrs.clear();
    size_t per = n / nparts;
    for (long q = 0; q < nparts; q++) {
        P p; p.id = ID[q][0]; p.z = ID[q][1]; p.o = ID[q][2]; size_t end = q + 1 == nparts ? n : row + per;
        for (; row < end; row++) { bool right = pick("side", 0, 1); (right ? p.r : p.l).push_back(row); c->cluster_assignments[row] = right ? p.o : p.z; c->part_id[row] = p.id; c->partition_dist[row] = 1 + mul * (vf_fix("p", lo, hi, den) - 1); c->nearest_cdist[row] = 1 + mul * (vf_fix("q", lo, hi, den) - 1); }
        c->hcltrs[p.id] = base::h_clusters::create(2, d, p.id, p.z, p.o); c->activate(p.id); c->activate(p.z); c->activate(p.o);
        c->cluster_assignment_counts[p.z] = p.l.size(); c->cluster_assignment_counts[p.o] = p.r.size(); c->cluster_assignment_counts[p.id] = 0;
        V m(d); for (auto& v : m) v = vf_fix("m", -1, 1, 1); std::copy(m.begin(), m.end(), c->cltrs->means.begin() + p.id * d); ps.push_back(p);
    }
    V means = c->cltrs->get_means(); std::vector<unsigned> L = c->cluster_assignments; V pd = c->partition_dist, nd = c->nearest_cdist;
    c->partition_decision();
    for (auto& p : ps) {
        double a = 0, b = 0, N = p.l.size() + p.r.size(); for (auto* s : {&p.l, &p.r}) for (size_t i : *s) { a += pd[i]; b += nd[i]; }
        double ps_ = crit(a, N, 1, V{N}), cs = crit(b, N, 2, V{(double)p.l.size(), (double)p.r.size()});
        bool kept = c->hcltrs.has_key(p.id);
        if (ps_ > cs + 1e-9) { vf_assert(!kept, "a split is kept though the parent scores higher"); } else if (cs > ps_ + 1e-9) { vf_assert(kept, "a split is taken back though the children score higher"); }
        if (kept) {
            vf_cover("kept");
            for (size_t i : p.l) vf_assert(c->cluster_assignments[i] == p.z, "a kept split moves a row"); for (size_t i : p.r) vf_assert(c->cluster_assignments[i] == p.o, "a kept split moves a row");
            vf_assert(c->cluster_assignment_counts[p.z] == p.l.size() && c->cluster_assignment_counts[p.o] == p.r.size() && c->cluster_assignment_counts[p.id] == 0, "a kept split changes sizes");
            vf_assert(!c->final_centroids.count(p.id) && c->is_active(p.z) && c->is_active(p.o), "a kept split is not finished"); auto h = c->hcltrs[p.id]; vf_assert(h->get_zeroid() == p.z && h->get_oneid() == p.o, "a kept split renames its children");
        } else {
            vf_cover("restored");
            for (auto* s : {&p.l, &p.r}) for (size_t i : *s) vf_assert(c->cluster_assignments[i] == p.id, "a restored parent misses a row");
            vf_assert(c->cluster_assignment_counts[p.id] == (size_t)N && c->cluster_assignment_counts[p.z] == 0 && c->cluster_assignment_counts[p.o] == 0, "sizes of a restored parent");
            vf_assert(!c->is_active(p.id) && !c->is_active(p.z) && !c->is_active(p.o), "a restored parent is final"); vf_assert(c->final_centroids.count(p.id), "a restored parent has a center");
            for (size_t j = 0; j < d; j++) vf_assert(c->final_centroids[p.id][j] == means[p.id * d + j] + vf_param("wrong", 0), "the center of a restored parent is that of the partition");
        }
        vf_assert(!c->final_centroids.count(p.z) && !c->final_centroids.count(p.o), "a child becomes final in the decision");
    }
    std::multiset<unsigned> rec(c->ider->recycler.begin(), c->ider->recycler.end()), want; for (auto& p : ps) if (!c->hcltrs.has_key(p.id)) { want.insert(p.z); want.insert(p.o); }
    vf_assert(rec == want, "exactly the ids of dissolved children are free again"); vf_cover("decided");
}
extern "C" void vf_main() {
    n = vf_param("n", 3); d = vf_param("d", 1); long what = vf_param("what", 0); x.resize(n * d);
    for (auto& v : x) v = what ? 0 : vf_fix("x", vf_param("lo", 0), vf_param("hi", 2), 1);
    xmeans_coordinator* c = make(vf_param("t", 1), vf_param("k", 8));
    if (what) decide(c, vf_param("parts", 1)); else means(c);
}
