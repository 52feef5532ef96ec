// Iteration limits and stopping: what = 0; rejection of impossible parameters: what = 1 (engines), 2 (option names).
// kind 0 full engine, 1 pruned engine, 2 OpenMP full, 3 OpenMP pruned, 4 spherical, 5 k-medoids
#include "common.hpp"
#include "kmeans_coordinator.hpp"
#include "kmeans_task_coordinator.hpp"
#include "skmeans_coordinator.hpp"
#include "medoid_coordinator.hpp"
#include "fcm_coordinator.hpp"
#include "kmeans.hpp"
using namespace knor;
typedef std::vector<double> V;
static size_t n, d; static unsigned k, T; static int kind;
extern "C" long vf_draw_int(long a, long b) { return a; }
extern "C" double vf_draw_unit(void) { return 0; }
static base::cluster_t go(const V& x, const V& c, unsigned it, double tol, std::string init = "none", std::string dist = "eucl") {
    V z(x), cc(c); cc.resize(std::max<size_t>(1, k) * d); std::vector<unsigned> a(n); std::vector<llong_t> cnt(std::max(1u, k)); coordinator::ptr km; double* p = init == "none" ? &cc[0] : NULL;
    switch (kind) {
    case 0: km = kmeans_coordinator::create("", n, d, k, it, 1, T, p, init, tol, dist); break;
    case 1: km = prune::kmeans_task_coordinator::create("", n, d, k, it, 1, T, p, init, tol, dist); break;
    case 2: vf_omp_threads(T); return omp::compute_kmeans(&z[0], &cc[0], &a[0], &cnt[0], n, d, k, it, T, init, tol, dist);
    case 3: vf_omp_threads(T); return omp::compute_min_kmeans(&z[0], &cc[0], &a[0], &cnt[0], n, d, k, it, T, init, tol, dist);
    case 4: km = skmeans_coordinator::create("", n, d, k, it, 1, T, p, init, tol, dist == "eucl" ? "cos" : dist); break;
    case 5: km = medoid_coordinator::create("", n, d, k, it, 1, T, NULL, init == "none" ? "forgy" : init, tol, dist, 1); break;
    default: km = fcm_coordinator::create("", n, d, k, it, 1, T, p, init, tol, dist, 2);
    }
    return km->run(&z[0], false);
}
static std::string word(const char* nm, unsigned len) { std::string s; for (unsigned i = 0; i < len; i++) s += (char)vf_int(nm, 97, 122); return s; }
extern "C" void vf_main() {
    n = vf_param("n", 3); d = vf_param("d", 1); k = vf_param("k", 2); T = vf_param("t", 2); kind = vf_param("kind", 0); unsigned M = vf_param("it", 3); long what = vf_param("what", 0);
    if (what == 1) {          // number of clusters
        V x(n * d), c; for (size_t i = 0; i < n; i++) x[i * d] = i; long kk = vf_concrete(vf_int("k", 0, n + 2)); k = kk; for (size_t i = 0; i < (k + 1) * d; i++) c.push_back(i % n);
        bool bad = kind == 2 || kind == 3 ? kk < 2 || kk > (long)n : kk == 0; vf_allow_exit(bad ? 2 : 0); if (!bad && kind == 1 && kk == 1) return;
        try { base::cluster_t r = go(x, c, 1, -1); if (bad) vf_fail("an impossible number of clusters is rejected"); vf_assert(r.k == (size_t)kk && r.assignments.size() == n, "a possible number of clusters is accepted"); vf_cover("accepted"); }
        catch (std::exception& e) { if (!bad) vf_fail("a possible number of clusters is accepted"); vf_cover("rejected"); }
        return;
    }
    if (what == 2) {          // names of options
        V x(n * d), c; for (size_t i = 0; i < n; i++) x[i * d] = i; for (size_t i = 0; i < k * d; i++) c.push_back(i % n); bool in = vf_param("init", 0); std::string w = word("letter", vf_param("len", 4)), ini = in ? w : "none", dt = in ? "eucl" : w;
        bool omp = kind == 2 || kind == 3; bool ok = in ? w == "random" || w == "forgy" || w == "kmeanspp" || w == "none" : w == "eucl" || w == "cos" || (!omp && (w == "taxi" || w == "sqeucl"));
        bool done = false; try { go(x, c, 0, -1, ini, dt); done = true; } catch (std::exception& e) { } catch (...) { }
        if (done) { vf_cover("accepted"); vf_assert(ok, "an unknown name is rejected"); } else { vf_cover("rejected"); vf_assert(!ok, "a known name is accepted"); }
        return;
    }
    V x = ref::data(n, d), c(k * d); if (vf_param("sorted", 0)) for (size_t i = 1; i < n; i++) vf_assume(x[i] >= x[i - 1]); for (auto& q : c) q = vf_fix("c", vf_param("clo", 0), vf_param("chi", 2), 1); if (kind == 4 && vf_param("cfix", 1)) for (size_t q = 0; q < k * d; q++) c[q] = q % (d + 1) == 0; if (kind == 4) for (size_t j = 0; j < k; j++) vf_assume(ref::dot(&c[j * d], &c[j * d], d) > 0);
    if (what == 3) {          // fuzzy c-means stops when the centers move less than the tolerance
        double tol = vf_fix("tolerance", 0, vf_param("tmax", 8), 4); V p(c); base::cluster_t e; unsigned stop = 0; bool conv = false;
        for (unsigned m = 1; m <= M && !conv; m++) { e = go(x, c, m, -1); vf_assert(e.iters == m, "a run that goes on reports the limit"); double mv = 0; for (size_t q = 0; q < k * d; q++) mv += (e.centroids[q] - p[q]) * (e.centroids[q] - p[q]); vf_assume(vf_abs(mv - tol * tol) > 1e-9); conv = mv < tol * tol; p = e.centroids; stop = m; }
        vf_cover(conv ? "stopped by the tolerance" : "the limit ends the run");
        base::cluster_t r = go(x, c, M, tol); vf_assert(r.iters == stop, "the reported iteration is the one the run stopped in"); vf_assert(r.assignments == e.assignments && r.assignment_count == e.assignment_count, "labels are those of the iteration the run stopped in"); for (size_t q = 0; q < k * d; q++) vf_assert(vf_near(r.centroids[q], e.centroids[q]), "centers are those of the iteration the run stopped in");
        return;
    }
    double tol = vf_param("tol", 1) ? vf_fix("tolerance", -1, vf_param("tmax", 3), 4) : -1;
    std::vector<unsigned> prev; unsigned stop = 0; bool conv = false; base::cluster_t e = go(x, c, 0, -1); vf_assert(e.iters == 0, "no iteration was asked for"); prev = e.assignments;
    for (unsigned m = 1; m <= M && !conv; m++) {      // the run of exactly m iterations
        base::cluster_t r = go(x, c, m, -1); size_t ch = 0; for (size_t i = 0; i < n; i++) if (kind != 5 && m == 1 || r.assignments[i] != prev[i]) ch++;
        stop = m; e = r; prev = r.assignments; if (!ch || (double)ch <= tol * n + 1e-9) { conv = true; vf_cover(ch ? "stopped by the tolerance" : "no label changed"); }
        vf_assert(r.iters == m, "a run that goes on reports the limit");
    }
    if (!conv) vf_cover("the limit ends the run");
    base::cluster_t r = go(x, c, M, tol);
    vf_assert(r.iters == stop, "the reported iteration is the one the run stopped in"); vf_assert(r.assignments == e.assignments, "labels are those of the iteration the run stopped in"); vf_assert(r.assignment_count == e.assignment_count, "sizes are those of the iteration the run stopped in"); for (size_t q = 0; q < k * d; q++) vf_assert(vf_near(r.centroids[q], e.centroids[q]), "centers are those of the iteration the run stopped in");
}
