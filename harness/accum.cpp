// Cluster accumulators: any sequence of operations against an explicit list of members per cluster.
#include "common.hpp"
#include "clusters.hpp"
using namespace knor::base;
typedef std::vector<double> V;
static size_t D; static long lo, hi;
struct It { const double* p; size_t n, i; bool has_next() { return i < n; } double next() { return p[i++]; } };
static V row(const char* nm = "x") { V v(D); for (auto& q : v) q = vf_fix(nm, lo, hi, 1); return v; }
struct Ref { std::vector<std::vector<V>> m; std::vector<bool> mean; std::vector<V> base; };
static void check(clusters& c, Ref& r, const char* when) {
    for (size_t j = c.get_nclust(); j < r.m.size(); j++) vf_assert(r.m[j].empty(), "a cluster with members exists");
    vf_assert( c.get_ncol() == D && c.size() == c.get_nclust() * D && c.get_num_members_v().size() == c.get_nclust(), "accumulator shape");
    for (unsigned j = 0; j < c.get_nclust(); j++) {
        size_t n = j < r.m.size() ? r.m[j].size() : 0;
        vf_assert(c.get_num_members(j) == (knor::llong_t)n && c.get_num_members_v()[j] == (knor::llong_t)n, "number of members");
        for (size_t q = 0; q < D; q++) {
            double s = j < r.base.size() ? r.base[j][q] : 0; if (j < r.m.size()) for (auto& v : r.m[j]) s += v[q];
            double g = c.get(j * D + q); vf_assert(g == c.get_mean_rawptr(j)[q] && g == c.get_means()[j * D + q], "all accessors agree");
            bool mf = j < r.mean.size() && r.mean[j];
            vf_assert(vf_near(mf && n > 1 ? g * (double)n : g, s), mf ? "mean form holds the mean of the members" : "sum form holds the sum of the members");
        }
    }
}
static long pick(const char* nm, long mx) { return vf_concrete(vf_int(nm, 0, mx)); }
static clusters::ptr make(long cls, unsigned k) { return cls == 1 ? clusters::ptr(prune_clusters::create(k, D)) : cls == 2 ? h_clusters::create(k, D) : cls == 3 ? sparse_clusters::create(k, D) : clusters::create(k, D); }
static void ops(long cls, unsigned k, unsigned L) {
    clusters::ptr c = make(cls, k); Ref r; r.m.resize(k); r.mean.assign(k, false); check(*c, r, "new");
    for (unsigned s = 0; s < L; s++) {
        long op = pick("op", 8); unsigned j = pick("j", k - 1);
        if (op == 0) { vf_assume(!r.mean[j]); V v = row(); if (vf_param("iter", 0)) { It it = {&v[0], D, 0}; c->add_member(it, j); } else c->add_member((const double*)&v[0], j); r.m[j].push_back(v); }
        else if (op == 1) { vf_assume(!r.mean[j] && r.m[j].size()); size_t w = pick("w", r.m[j].size() - 1); V v = r.m[j][w]; if (vf_param("iter", 0)) { It it = {&v[0], D, 0}; c->remove_member(it, j); } else c->remove_member((const double*)&v[0], j); r.m[j].erase(r.m[j].begin() + w); vf_cover("member removed"); }
        else if (op == 2) { unsigned to = pick("to", k - 1); vf_assume(!r.mean[j] && !r.mean[to] && r.m[j].size()); size_t w = pick("w", r.m[j].size() - 1); V v = r.m[j][w];
            if (vf_param("iter", 0)) { It it = {&v[0], D, 0}; c->swap_membership(it, j, to); } else c->swap_membership((const double*)&v[0], j, to); r.m[j].erase(r.m[j].begin() + w); r.m[to].push_back(v); vf_cover("member moved"); }
        else if (op == 3) { c->finalize(j); r.mean[j] = true; if (r.m[j].size() > 1) vf_cover("mean of several"); }
        else if (op == 4) { c->unfinalize(j); if (r.mean[j] && r.m[j].size() > 1) vf_cover("mean form undone"); r.mean[j] = false; }
        else if (op == 5) { c->finalize_all(); for (unsigned q = 0; q < k; q++) r.mean[q] = true; }
        else if (op == 6) { c->unfinalize_all(); for (unsigned q = 0; q < k; q++) r.mean[q] = false; }
        else if (op == 7) { c->clear(); for (auto& m : r.m) m.clear(); r.mean.assign(k, false); }
        else { for (unsigned q = 0; q < k; q++) vf_assume(!r.mean[q]); clusters::ptr o = make(cls, k); V v = row(), w = row(); o->add_member((const double*)&v[0], j); o->add_member((const double*)&w[0], k - 1); r.m[j].push_back(v); r.m[k - 1].push_back(w);
            if (s & 1) c->peq(o); else *c += *o; Ref ro; ro.m.resize(k); ro.m[j].push_back(v); ro.m[k - 1].push_back(w); check(*o, ro, "merged from"); vf_cover("merged"); }
        for (unsigned q = 0; q < k; q++) vf_assert(c->is_complete(q) == r.mean[q], "form flag");
        check(*c, r, "after an operation");
    }
}
extern "C" void vf_main() {
    D = vf_param("d", 2); lo = vf_param("lo", -3); hi = vf_param("hi", 3); unsigned k = vf_param("k", 2); long what = vf_param("what", 0), cls = vf_param("cls", 0);
    if (what == 0) ops(cls, k, vf_param("l", 3));
    else if (what == 1) {   // members first, then a sequence of form switches, moves and merges
        clusters::ptr c = make(cls, k), o = make(cls, k); Ref r; r.m.resize(k); r.mean.assign(k, false); size_t n = pick("n", vf_param("n", 4)); size_t n2 = pick("n2", 2); std::vector<unsigned> in;
        for (size_t i = 0; i < n; i++) { unsigned j = pick("j", k - 1); V v = row(); c->add_member((const double*)&v[0], j); r.m[j].push_back(v); }
        for (size_t i = 0; i < n2; i++) { unsigned j = pick("j", k - 1); V v = row(); o->add_member((const double*)&v[0], j); r.m[j].push_back(v); }
        if (pick("how", 1)) c->peq(o); else *c += *o;
        check(*c, r, "merged"); c->finalize_all(); c->finalize_all(); r.mean.assign(k, true); check(*c, r, "means");
        c->unfinalize_all(); c->unfinalize_all(); r.mean.assign(k, false); check(*c, r, "sums again");
        unsigned a = pick("from", k - 1), b = pick("to", k - 1); if (r.m[a].size()) { V v = r.m[a].back(); r.m[a].pop_back(); r.m[b].push_back(v); c->swap_membership((const double*)&v[0], a, b); check(*c, r, "moved"); }
        c->finalize_all(); r.mean.assign(k, true); check(*c, r, "means again"); if (n + n2 > 2) vf_cover("means after a move");
    } else if (what == 2) { // direct setters, copies, comparison, scaling
        V m(k * D); for (auto& q : m) q = vf_fix("m", lo, hi, 1); clusters::ptr c = pick("ctor", 1) ? clusters::create(k, D, m) : clusters::create(k, D, &m[0]);
        vf_assert(c->get_means() == m && c->get_nclust() == k && c->get_ncol() == D, "constructed from means"); for (unsigned j = 0; j < k; j++) vf_assert(c->is_complete(j) && c->get_num_members(j) == 0, "constructed in mean form without members");
        unsigned j = pick("j", k - 1); V v = row(); long how = pick("how", 2); if (how == 0) { const V cv = v; c->set_mean(cv, j); } else if (how == 1) c->set_mean((const double*)&v[0], j); else { It it = {&v[0], D, 0}; c->set_mean(it, j); }
        for (size_t q = 0; q < D; q++) m[j * D + q] = v[q]; vf_assert(c->get_means() == m, "setting one mean");
        V all(k * D); for (auto& q : all) q = vf_fix("m", lo, hi, 1); clusters::ptr e = clusters::create(k, D); if (pick("how2", 1)) e->set_mean(all); else e->set_mean((const double*)&all[0]); vf_assert(e->get_means() == all, "setting all means");
        e->means_peq(&m[0]); for (size_t i = 0; i < k * D; i++) vf_assert(e->get_means()[i] == all[i] + m[i], "adding sums");
        std::vector<size_t> cnt(k); for (auto& q : cnt) q = vf_int("cnt", 0, 5); e->set_num_members_v(&cnt[0]); e->num_members_v_peq(&cnt[0]); e->num_members_peq(3, j);
        for (unsigned q = 0; q < k; q++) vf_assert(e->get_num_members(q) == (knor::llong_t)(2 * cnt[q] + (q == j ? 3 : 0)), "setting and adding counts");
        clusters::ptr z = clusters::create(1, D); *z = *e; vf_assert(*z == *e && z->get_nclust() == k && z->get_means() == e->get_means() && z->get_num_members_v() == e->get_num_members_v(), "assignment copies everything"); e->set_complete(j, true); *z = *e; for (unsigned q = 0; q < k; q++) vf_assert(z->is_complete(q) == e->is_complete(q), "assignment copies the form");
        e->set_complete_all(false); for (unsigned q = 0; q < k; q++) vf_assert(!e->is_complete(q), "form of all clusters"); e->set_complete_all(); for (unsigned q = 0; q < k; q++) vf_assert(e->is_complete(q), "form of all clusters");
        size_t p = pick("p", k * D - 1); V w = z->get_means(); double nv = vf_fix("nv", lo, hi, 1); bool same = w[p] == nv; w[p] = nv; z->set_mean(w); vf_assert((*z == *e) == same, "accumulators are equal exactly when sums and counts agree");
    } else if (what == 3) { // mini-batch step: (1-f) c + f x
        V m(k * D); for (auto& q : m) q = vf_fix("m", lo, hi, 1); clusters::ptr c = clusters::create(k, D, m); unsigned j = pick("j", k - 1); V v = row(); long b = pick("b", 4); double f = 1.0 / (double)(b + 1);
        c->scale_centroid(f, j, &v[0]); for (size_t i = 0; i < k * D; i++) { double w = i / D == j ? m[i] + (v[i % D] - m[i]) * f : m[i]; vf_assert(vf_near(c->get_means()[i], w), "a center moves toward the sample by the given fraction"); }
    } else {                // sparse accumulator grows on demand
        clusters::ptr c = sparse_clusters::create(1, D), o = sparse_clusters::create(pick("k2", 2) + 1, D); Ref r, q; r.m.resize(4); q.m.resize(4); size_t n = pick("n", 3);
        for (size_t i = 0; i < n; i++) { unsigned j = pick("j", 3); V v = row(); c->add_member((const double*)&v[0], j); r.m[j].push_back(v); check(*c, r, "grown"); }
        size_t n2 = pick("n2", 2); for (size_t i = 0; i < n2; i++) { unsigned j = pick("j2", 3); V v = row(); o->add_member((const double*)&v[0], j); q.m[j].push_back(v); r.m[j].push_back(v); }
        o->set_complete(3, false); c->set_complete(3, false); check(*o, q, "other"); c->peq(o); check(*c, r, "merged sparse accumulators");
        clusters::ptr e = sparse_clusters::create(1, D); e->peq(o); check(*e, q, "merged into a smaller one"); e->finalize_all(); q.mean.assign(4, true); check(*e, q, "means"); vf_cover("sparse merge");
        bool t = false; try { c->get_mean_rawptr(c->get_nclust()); } catch (oob_exception&) { t = true; } vf_assert(t, "a cluster that does not exist is reported");
    }
    vf_cover("done");
}
