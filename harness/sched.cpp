// The hand-shake between the coordinating thread and the workers, under every schedule with a bounded number of preemptions.
#include "common.hpp"
#include "kmeans_coordinator.hpp"
#include "kmeans_task_coordinator.hpp"
#include "skmeans_coordinator.hpp"
#include "fcm_coordinator.hpp"
#include "hclust_coordinator.hpp"
#include "xmeans_coordinator.hpp"
#include "gmeans_coordinator.hpp"
#include "medoid_coordinator.hpp"
using namespace knor;
static const double X[] = {0, 7, 1, 5, 3, 9}, C[] = {0, 6, 2};
static size_t n, d; static unsigned k, T, it; static int kind; static bool file, kpp; static std::vector<double> x, c;
static int drawn[64];   // draws of a thread are a fixed sequence: each worker owns its generator
extern "C" long vf_draw_int(long a, long b) { int q = drawn[vf_thread_id() & 63]++; return a + (2 * q + 1) % (b - a + 1); }
extern "C" double vf_draw_unit(void) { static const double u[] = {0.25, 0.75, 0.5, 0.125}; int q = drawn[vf_thread_id() & 63]++; return u[q & 3]; }
static base::cluster_t go() {
    for (int& q : drawn) q = 0;
    std::vector<double> z(x); std::string fn = "", init = kpp ? "kmeanspp" : "none"; if (file) fn = "data.bin"; const double* cc = kpp ? NULL : &c[0]; double* dp = file ? NULL : &z[0]; unsigned nodes = vf_param("nodes", 1);
    coordinator::ptr km;
    switch (kind) {
    case 0: km = kmeans_coordinator::create(fn, n, d, k, it, nodes, T, cc, init, -1, "eucl"); break;
    case 1: km = prune::kmeans_task_coordinator::create(fn, n, d, k, it, nodes, T, cc, init, -1, "eucl"); break;
    case 2: km = skmeans_coordinator::create(fn, n, d, k, it, nodes, T, cc, init, -1, "cos"); break;
    case 3: km = fcm_coordinator::create(fn, n, d, k, it, nodes, T, cc, "none", -1, "eucl", 2); break;
    case 4: km = hclust_coordinator::create(fn, n, d, k, it, nodes, T, NULL, "forgy", -1, "eucl", 2); break;
    case 5: km = xmeans_coordinator::create(fn, n, d, k, it, nodes, T, NULL, "forgy", -1, "eucl", 2); break;
    case 6: km = gmeans_coordinator::create(fn, n, d, k, it, nodes, T, NULL, "forgy", -1, "eucl", 2, 4); break;
    case 7: km = medoid_coordinator::create(fn, n, d, k, it, nodes, T, NULL, "forgy", -1, "taxi", vf_param("rate", 5) / 10.0); break;
    default: { coordinator::ptr q = prune::kmeans_task_coordinator::create(fn, n, d, k, it, nodes, T, cc, init, -1, "eucl"); std::static_pointer_cast<prune::kmeans_task_coordinator>(q)->set_mini_batch_size(vf_param("mb", 2)); return std::static_pointer_cast<prune::kmeans_task_coordinator>(q)->mb_run(dp); }
    }
    return km->run(dp, false);
}
extern "C" void vf_main() {
    kind = vf_param("kind", 0); n = vf_param("n", 2); d = 1; k = vf_param("k", 2); T = vf_param("t", 2); it = vf_param("it", 1); file = vf_param("file", 0); kpp = vf_param("kpp", 0);
    x.assign(X, X + n * d); c.assign(C, C + k * d); if (file) vf_file_create("data.bin", &x[0], sizeof(double) * n * d);
    base::cluster_t a = go();                       // one fixed schedule
    vf_sched(vf_param("what", 3), vf_param("p", 1));
    base::cluster_t b = go();                       // every schedule
    vf_cover("finished and released");
    vf_assert(b.assignments.size() == n && b.iters == a.iters && b.k == a.k && b.assignments == a.assignments, "labels do not depend on the schedule");
    vf_assert(b.assignment_count == a.assignment_count, "sizes do not depend on the schedule");
    vf_assert(b.centroids.size() == a.centroids.size(), "centers do not depend on the schedule");
    for (size_t i = 0; i < a.centroids.size(); i++) vf_assert(b.centroids[i] == a.centroids[i] + vf_param("wrong", 0), "centers do not depend on the schedule");
    if (kind < 2 && !kpp) {                         // and they are those of the rounds done one after another
        std::vector<double> m(c); std::vector<unsigned> l(n, 0); std::vector<size_t> q;
        for (unsigned t = 0; t < it; t++) {
            std::vector<double> s(k, 0.0); q.assign(k, 0);
            for (size_t i = 0; i < n; i++) { l[i] = 0; for (unsigned j = 1; j < k; j++) if (__builtin_fabs(x[i] - m[j]) < __builtin_fabs(x[i] - m[l[i]])) l[i] = j; q[l[i]]++; s[l[i]] += x[i]; }
            for (unsigned j = 0; j < k; j++) m[j] = q[j] ? s[j] / q[j] : 0;
        }
        vf_assert(b.assignments == l, "labels are those of the completed rounds");
        for (unsigned j = 0; j < k; j++) vf_assert((size_t)b.assignment_count[j] == q[j] && (!q[j] || vf_near(b.centroids[j], m[j])), "sizes and centers are those of the completed rounds");
    }
}
