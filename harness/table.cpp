// Triangular distance tables: storage for every pair, center table, row table.
#include "common.hpp"
#include "dist_matrix.hpp"
#include "clusters.hpp"
#include "exception.hpp"
using namespace knor;
typedef std::vector<double> V;
static bool eq(double a, double b) { return vf_near(a, b, 1e-9); }
extern "C" void vf_main() {
    long what = vf_param("what", 0), lo = vf_param("lo", -3), hi = vf_param("hi", 3); unsigned N = vf_param("n", 5); size_t d = vf_param("d", 2); vf_omp_threads(vf_param("t", 2));
    if (what == 0) {        // every size, every sequence of writes
        unsigned n = vf_concrete(vf_int("n", 2, N)); prune::dist_matrix::ptr t = prune::dist_matrix::create(n); vf_assert(t->get_num_rows() == n - 1, "number of table rows"); std::vector<V> r(n, V(n, std::numeric_limits<double>::max()));
        for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) { vf_assert(t->get(i, j) == std::numeric_limits<double>::max(), "a new table holds no distance"); vf_assert(t->pw_get(i, j) == (i == j ? 0.0 : std::numeric_limits<double>::max()), "a new table holds no distance"); }
        for (long s = 0; s < vf_param("l", 3); s++) { unsigned i = vf_concrete(vf_int("i", 0, n - 1)), j = vf_concrete(vf_int("j", 0, n - 1)); vf_assume(i != j); double v = vf_fix("v", lo, hi, 1); t->set(i, j, v); r[i][j] = r[j][i] = v; if (i > j) vf_cover("reversed pair"); 
            for (unsigned a = 0; a < n; a++) for (unsigned b = 0; b < n; b++) if (a != b) { vf_assert(t->get(a, b) == r[a][b], "pair holds the value last stored"); vf_assert(t->pw_get(a, b) == r[a][b], "pair holds the value last stored"); } else vf_assert(t->pw_get(a, a) == 0, "distance to itself is zero"); }
        if (vf_param("mn", 0)) { for (unsigned a = 0; a < n; a++) for (unsigned b = 0; b < a; b++) { double v = vf_fix("w", 0, hi, 1); t->set(a, b, v); r[a][b] = r[b][a] = v; }
            unsigned a = vf_concrete(vf_int("row", 0, n - 1)); double m = t->get_min_dist(a); bool hit = false; for (unsigned b = 0; b < n; b++) if (b != a) { vf_assert(m <= r[a][b], "smallest distance of an item"); hit |= m == r[a][b]; } vf_assert(hit, "smallest distance of an item"); }
    } else if (what == 1) { // center table, recomputed after the centers moved
        unsigned k = vf_concrete(vf_int("k", 1, N)); V m(k * d); base::prune_clusters::ptr c = base::prune_clusters::create(k, d, m); prune::dist_matrix::ptr t; if (k > 1) t = prune::dist_matrix::create(k); else { t = prune::dist_matrix::create(2); }
        for (long round = 0; round < vf_param("rounds", 2); round++) {
            for (auto& q : m) q = vf_fix("m", lo, hi, 1); c->set_mean(m); t->compute_dist(c, d);
            if (k > 1) for (unsigned i = 0; i < k; i++) { double best = std::numeric_limits<double>::max(); bool hit = false;
                for (unsigned j = 0; j < k; j++) if (j != i) { double h = t->get(i, j), s = ref::sq(&m[i * d], &m[j * d], d); vf_assert(h >= 0 && vf_near(4 * h * h, s, 1e-6), "half the Euclidean distance of two centers"); vf_assert(h >= c->get_s_val(i), "nearest other center"); hit |= h == c->get_s_val(i); }
                vf_assert(hit, "nearest other center"); }
            vf_assert(c->get_means() == m, "centers unchanged");
        }
        if (k > 2) vf_cover("three centers");
    } else {                // row table in every metric
        unsigned n = vf_concrete(vf_int("n", 2, N)); V x = ref::data(n, d); int dt = vf_param("dt", 0); V keep = x; prune::dist_matrix::ptr t = prune::dist_matrix::create(n);
        if (dt == base::dist_t::COS) for (unsigned i = 0; i < n; i++) vf_assume(ref::dot(&x[i * d], &x[i * d], d) > 0);
        t->compute_pairwise_dist(&x[0], d, (base::dist_t)dt);
        for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) if (i != j) {
            double g = t->pw_get(i, j), s = ref::sq(&x[i * d], &x[j * d], d); vf_assert(g == t->get(i, j), "both lookups agree");
            if (dt == base::dist_t::EUCL) vf_assert(g >= 0 && vf_near(g * g, s, 1e-6), "Euclidean distance of two rows");
            else if (dt == base::dist_t::SQEUCL) vf_assert(eq(g, s), "squared Euclidean distance of two rows");
            else if (dt == base::dist_t::TAXI) vf_assert(eq(g, ref::l1(&x[i * d], &x[j * d], d)), "Manhattan distance of two rows");
            else { double c = 1 - ref::dot(&x[i * d], &x[j * d], d) / (std::sqrt(ref::dot(&x[i * d], &x[i * d], d)) * std::sqrt(ref::dot(&x[j * d], &x[j * d], d))); vf_assert(vf_near(g, c, 1e-9), "cosine distance of two rows"); }
        }
        for (size_t i = 0; i < x.size(); i++) vf_assert(x[i] == keep[i], "rows unchanged"); if (n > 2) vf_cover("three rows");
    }
    vf_cover("done");
}
