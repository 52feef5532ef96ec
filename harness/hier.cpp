// Hierarchical k-means, x-means and g-means: the real main loop with its threads; the coordinator's virtual steps are
// overridden only to look at its state between them.
#include "common.hpp"
#include "hclust_coordinator.hpp"
#include "xmeans_coordinator.hpp"
#include "gmeans_coordinator.hpp"
#include "hclust_id_generator.hpp"
#include "thd_safe_bool_vector.hpp"
#include "clusters.hpp"
#include <set>
using namespace knor;
static size_t n, d; static unsigned k, T, it, ms; static int kind; static double x[64], tol = -1;
static double sq(size_t i, const double* c) { double s = 0; for (size_t j = 0; j < d; j++) s += (x[i * d + j] - c[j]) * (x[i * d + j] - c[j]); return s; }
static void mean_is(const char* what, const double* c, const std::vector<unsigned>& lab, unsigned id) {
    for (size_t j = 0; j < d; j++) { double s = 0; size_t q = 0; for (size_t i = 0; i < n; i++) if (lab[i] == id) { s += x[i * d + j]; q++; } vf_assert(!q || vf_near(c[j] * q, s), what); }
}
struct child { unsigned id, z, o; bool conv; std::vector<double> m; };
// x-means and g-means: the distances the split decision is made from
static void distances(hclust_coordinator*, const std::vector<child>&, const std::vector<unsigned>&, const std::vector<unsigned>&, bool) { }
static void distances(xmeans_coordinator* c, const std::vector<child>& H, const std::vector<unsigned>& P, const std::vector<unsigned>& A, bool first) {
    for (auto& h : H) {
        size_t q = 0; std::vector<double> s(d, 0.0); for (size_t i = 0; i < n; i++) if (P[i] == h.id) { q++; for (size_t j = 0; j < d; j++) s[j] += x[i * d + j]; }
        for (size_t i = 0; i < n; i++) if (P[i] == h.id) {
            if (first) { double e = 0, g = c->partition_dist[i]; for (size_t j = 0; j < d; j++) { double t = (double)q * x[i * d + j] - s[j]; e += t * t; } vf_assert(vf_near(g * g * (double)(q * q), e, 1e-6), "distance to the center of the partition"); }
            if (!h.conv) { double g = c->nearest_cdist[i]; vf_assert(vf_near(g * g, sq(i, &h.m[A[i] == h.z ? 0 : d]), 1e-6), "distance to the nearer center"); }
        }
    }
}
template<class B> struct hier : B {
    using B::B;
    std::vector<unsigned> L, P; std::vector<child> H; size_t splits = 0, steps = 0; bool odd = false; // odd: a split came out empty or was taken back
    void snap() {
        L = this->cluster_assignments; P = this->part_id; H.clear();
        std::vector<size_t> ks; this->hcltrs.get_keys(ks);
        for (auto q : ks) { auto c = this->hcltrs[q]; H.push_back(child{(unsigned)q, c->get_zeroid(), c->get_oneid(), c->has_converged(), c->get_means()}); }
        std::set<unsigned> ids; for (auto& h : H) { vf_assert(h.z != h.o, "two children with one id"); ids.insert(h.z); ids.insert(h.o); ids.insert(h.id); }
        vf_assert(ids.size() == 3 * H.size(), "an id in use is given to another cluster");
    }
    const child* part(unsigned p) { for (auto& h : H) if (h.id == p) return &h; return NULL; }
    void run_hinit() override {
        B::run_hinit(); snap();
        vf_assert(H.size() == 1 && H[0].id == 0, "starts from one partition of all rows"); for (size_t i = 0; i < n; i++) vf_assert(P[i] == 0, "starts from one partition of all rows");
    }
    void update_clusters() override {
        B::update_clusters(); steps++;
        auto& A = this->cluster_assignments;
        vf_assert(this->part_id == P, "a row changes its partition during a round");
        for (size_t i = 0; i < n; i++) {
            const child* h = part(P[i]);
            if (!h) { vf_assert(A[i] == L[i], "a row of a finished cluster is moved"); continue; }
            if (h->conv) { vf_assert(A[i] == L[i], "a row of a converged partition is moved"); continue; }
            vf_assert(A[i] == h->z || A[i] == h->o, "a row leaves its partition");
            double a = sq(i, &h->m[0]), b = sq(i, &h->m[d]);
            vf_assert(A[i] == h->z ? a <= b : b <= a, "a row goes to the farther of its two centers");
        }
        std::vector<size_t> ks; this->hcltrs.get_keys(ks); vf_assert(ks.size() == H.size(), "a partition vanishes during a round");
        for (auto& h : H) {
            vf_assert(this->hcltrs.has_key(h.id), "a partition vanishes during a round");
            auto c = this->hcltrs[h.id]; size_t qz = 0, qo = 0, ch = 0;
            vf_assert(c->get_zeroid() == h.z && c->get_oneid() == h.o, "a partition's children are renamed during a round");
            for (size_t i = 0; i < n; i++) { qz += A[i] == h.z; qo += A[i] == h.o; ch += P[i] == h.id && A[i] != L[i]; }
            vf_assert(this->cluster_assignment_counts[h.z] == qz && this->cluster_assignment_counts[h.o] == qo, "sizes equal the rows carrying the label");
            mean_is("a center is the mean of its rows", c->get_mean_rawptr(0), A, h.z); mean_is("a center is the mean of its rows", c->get_mean_rawptr(1), A, h.o);
            vf_assert(c->has_converged() == (h.conv || ch == 0 || ch <= tol * (qz + qo)), "a partition converges exactly when few enough of its rows moved");
            if (ch && ch <= tol * (qz + qo)) vf_cover("some rows moved"); if (qz == 0 || qo == 0) odd = true;
        }
        if (kind == 1) distances(this, H, P, A, steps == 1);
        bool cv = false, op = false; for (auto& h : H) { cv |= h.conv; op |= !h.conv; } if (cv && op) vf_cover("a partition converged before another");
        snap();
    }
    void init_splits() override {
        auto A = this->cluster_assignments;   // x-means and g-means may have taken splits back
        for (auto& h : H) {
            size_t back = 0, q = 0; for (size_t i = 0; i < n; i++) if (P[i] == h.id) { q++; if (A[i] != L[i]) { vf_assert(A[i] == h.id, "a row gets a foreign label"); back++; } }
            vf_assert(back == 0 || back == q, "a split is taken back for some rows only");
            if (back) { odd = true; vf_cover("split taken back"); taken(h.id, q); } else if (kind) vf_cover("split kept");
        }
        for (size_t i = 0; i < n; i++) if (!part(P[i])) vf_assert(A[i] == L[i], "a row of a finished cluster is moved");
        std::set<unsigned> live(A.begin(), A.end()); auto old = H;
        B::init_splits(); if (!this->hcltrs.keyless()) steps = 0;
        vf_assert(this->cluster_assignments == A, "splitting moves a row");
        snap();
        for (size_t i = 0; i < n; i++) if (part(A[i])) vf_assert(P[i] == A[i], "a row of a cluster to be split is not in its partition");
        if (H.size()) vf_cover("second round"); if (H.size() && ++splits == 2) vf_cover("third round");
        for (auto& h : H) {
            size_t q = 0; for (size_t i = 0; i < n; i++) { q += A[i] == h.id; vf_assert(A[i] != h.z && A[i] != h.o, "a new child has the id of a cluster in use"); }
            vf_assert(q >= 2 && q >= ms, "a cluster below the size limit is split"); vf_assert(this->is_active(h.id) && this->is_active(h.z) && this->is_active(h.o), "a cluster to be split is not active");
            vf_assert(!this->final_centroids.count(h.id), "a cluster to be split is reported as final");
        }
        for (auto& h : H) {
            bool two = false;
            for (size_t i = 0; i < n; i++) if (A[i] == h.id) for (size_t j = 0; j < n; j++) if (j != i && A[j] == h.id) {
                bool e = true; for (size_t q = 0; q < d; q++) e = e & (h.m[q] == x[i * d + q]) & (h.m[d + q] == x[j * d + q]);
                two = two | e;
            }
            vf_assert(two, "a split does not start from two of its rows");
        }
        if (!odd && live.size() + H.size() <= k) for (auto& h : old) for (unsigned c : {h.z, h.o}) if (!part(c)) {
            size_t q = 0; for (size_t i = 0; i < n; i++) q += A[i] == c;
            vf_assert(q < 2 || q < ms, "a cluster that is large enough is not split");
        }
        for (unsigned l : live) if (!part(l)) {
            vf_assert(!this->is_active(l), "a final cluster is active"); vf_assert(this->final_centroids.count(l), "a final cluster has no center");
            mean_is("the final center is the mean of its rows", &this->final_centroids[l][0], A, l);
        }
    }
    void taken(unsigned id, size_t q) {
        auto& A = this->cluster_assignments;
        vf_assert(this->cluster_assignment_counts[id] == q, "a restored parent has all its rows"); vf_assert(!this->hcltrs.has_key(id) && !this->is_active(id), "a restored parent stays final");
        vf_assert(this->final_centroids.count(id), "a restored parent has a center"); mean_is("a restored parent has the mean of its rows", &this->final_centroids[id][0], A, id);
        (void)A;
    }
};
static int drawn;
extern "C" long vf_draw_int(long a, long b) { long f = drawn == 0 ? vf_param("d0", -1) : vf_param("d1", -1); drawn++; if (f >= 0) return f; return vf_int("draw_int", a, b); }
extern "C" double vf_draw_unit(void) { return vf_fix("draw_real", 0, 7, 8); }
template<class B, class... A> static void go(A... a) {
    auto* c = new hier<B>(a...); coordinator::ptr hold(c);
    std::vector<double> z(x, x + n * d);
    base::cluster_t r = hold->run(&z[0], false);
    auto& L = c->cluster_assignments;
    vf_cover("done");
    std::map<unsigned, size_t> q; for (auto l : L) q[l]++;
    vf_assert(c->final_centroids.size() == q.size(), "one final center for each label"); for (auto& e : q) { vf_assert(c->final_centroids.count(e.first), "one final center for each label"); mean_is("the final center is the mean of its rows", &c->final_centroids[e.first][0], L, e.first); }
    vf_assert(r.nrow == n && r.ncol == d && r.k == q.size() && r.assignments.size() == n && r.assignment_count.size() == q.size() && r.centroids.size() == q.size() * d, "result has one size and center for each cluster");
    for (size_t i = 0; i < n; i++) { vf_assert(r.assignments[i] < q.size(), "label names a cluster"); vf_assert((size_t)r.assignment_count[r.assignments[i]] == q[L[i]], "size equals the rows carrying the label"); }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) vf_assert((r.assignments[i] == r.assignments[j]) == (L[i] == L[j]), "labels separate the same rows");
    for (unsigned j = 0; j < q.size(); j++) mean_is("the reported center is the mean of its rows", &r.centroids[j * d], r.assignments, j);
    vf_assert(r.iters == c->steps, "the number of steps of the last round is reported");
    vf_assert(q.size() <= 2 * k, "more clusters than one round beyond the maximum");
    vf_assert(vf_param("wrong", 0) == 0 || q.size() < 2, "wrong");
}
extern "C" void vf_main() {
    kind = vf_param("kind", 0); n = vf_param("n", 4); d = vf_param("d", 1); k = vf_param("k", 4); T = vf_param("t", 1); it = vf_param("it", 1); ms = vf_param("ms", 2); tol = vf_param("tol4", -4) / 4.0; unsigned nodes = vf_param("nodes", 1);
    for (size_t i = 0; i < n * d; i++) x[i] = vf_fix("x", vf_param("lo", 0), vf_param("hi", 3), 1);
    std::string fn = "", e = "eucl"; const double* cc = NULL;
    switch (kind) {
    case 0: go<hclust_coordinator>(fn, n, d, k, it, nodes, T, cc, base::init_t::FORGY, tol, base::dist_t::EUCL, ms); break;
    case 1: go<xmeans_coordinator>(fn, n, d, k, it, nodes, T, cc, base::init_t::FORGY, tol, base::dist_t::EUCL, ms); break;
    default: go<gmeans_coordinator>(fn, n, d, k, it, nodes, T, cc, base::init_t::FORGY, tol, base::dist_t::EUCL, ms, (short)vf_param("strict", 4)); break;
    }
}
