// Row ranges of the threads, row lookup, and independence of the thread and node count.
#include "common.hpp"
#include "kmeans_coordinator.hpp"
#include "kmeans_task_coordinator.hpp"
#include "kmeans_thread.hpp"
#include "kmeans_task_thread.hpp"
#include "task_queue.hpp"
using namespace knor;
static long pick(const char* n, long lo, long hi) { return vf_concrete(vf_int(n, lo, hi)); }
static coordinator::ptr make(int kind, const std::string& fn, size_t n, size_t d, unsigned k, unsigned it, unsigned nodes, unsigned T, const double* c) {
    return kind ? prune::kmeans_task_coordinator::create(fn, n, d, k, it, nodes, T, c, "none", -1, "eucl") : kmeans_coordinator::create(fn, n, d, k, it, nodes, T, c, "none", -1, "eucl");
}
extern "C" void vf_main() {
    int what = vf_param("what", 0), kind = vf_param("kind", 0);
    if (what == 0) {          // the split itself, for every row count
        double c0[2] = {0, 0}; coordinator::ptr km = make(kind, "", 1, 1, vf_param("k", 1), 1, 1, 1, c0);
        unsigned T = pick("threads", 1, vf_param("t", 8)); size_t n = vf_int("nrow", 1, vf_param("n", 1 << 30)); vf_assume(n >= T);
        km->nrow = n; km->nthreads = T; unsigned next = 0, mx = 0, mn = ~0u;
        for (unsigned t = 0; t < T; t++) { std::pair<unsigned, unsigned> p = km->get_rid_len_tup(t); vf_assert(p.first == next, "ranges follow each other"); vf_assert(p.second > 0, "no thread without rows"); next += p.second; if (t + 1 < T) { if (p.second > mx) mx = p.second; if (p.second < mn) mn = p.second; } }
        vf_assert(next == n, "ranges cover every row exactly once"); if (T > 1) vf_assert(mx == mn, "full shares are equal");
        km->nrow = 1; km->nthreads = 1; vf_cover("done"); return;
    }
    size_t n = pick("n", vf_param("nmin", 1), vf_param("n", 4)), d = vf_param("d", 2); unsigned T = pick("t", 1, vf_param("t", 4)), nodes = pick("nodes", 1, vf_param("nodes", 2)); bool file = vf_param("file", 0);
    std::vector<double> x = ref::data(n, d); unsigned k = vf_param("k", 1);
    if (what == 1) {          // every row is with exactly one thread and can be looked up
        std::vector<double> c(k * d, 0.0); std::string fn; if (file) { vf_file_create("data.bin", &x[0], sizeof(double) * n * d); fn = "data.bin"; }
        coordinator::ptr km = make(kind, fn, n, d, k, vf_param("it", 0), nodes, T, &c[0]); km->run(file ? NULL : &x[0]);
        size_t E = T < n ? T : n; vf_assert(km->get_threads().size() == E, "no more threads than rows"); size_t next = 0; std::vector<unsigned> owner(n, 0);
        for (size_t t = 0; t < E; t++) {
            std::shared_ptr<thread> th = km->get_threads()[t]; vf_assert(th->get_thd_id() == t && th->get_start_rid() == next, "thread starts at its first row"); vf_assert(th->node_id < nodes, "node exists");
            size_t len = th->get_data_size() / (sizeof(double) * d); vf_assert(th->get_data_size() == len * sizeof(double) * d && len > 0, "size of the local data"); vf_assert(next + len <= n, "the range ends within the data");
            if (kind) { task_queue* q = std::static_pointer_cast<prune::kmeans_task_thread>(th)->get_task_queue(); vf_assert(((data_container<double>*)q)->get_nrow() == len && ((data_container<double>*)q)->get_start_rid() == next && ((data_container<double>*)q)->get_data_ptr() == th->get_local_data(), "task queue covers the range of its thread"); }
            for (size_t i = 0; i < len; i++) for (size_t j = 0; j < d; j++) vf_assert(th->get_local_data()[i * d + j] == x[(next + i) * d + j], "local data are the rows of the range");
            for (size_t i = 0; i < len; i++) { owner[next + i]++; vf_assert(kind ? true : th->get_global_data_id(i) == next + i, "local to global row number"); }
            next += len;
        }
        vf_assert(next == n, "all rows are covered"); for (size_t i = 0; i < n; i++) vf_assert(owner[i] == 1, "each row belongs to one thread");
        for (size_t i = 0; i < n; i++) { const double* p = km->get_thd_data(i); for (size_t j = 0; j < d; j++) vf_assert(p[j] == x[i * d + j], "looking up a row yields that row"); }
        if (n % E) vf_cover("uneven split"); vf_cover("done");
    } else {                  // same result for every thread and node count, from file or memory
        std::vector<double> c = ref::data(k, d, "c"); unsigned it = vf_param("it", 2); long dt = vf_param("dt", 0); (void)dt;
        base::cluster_t a = make(kind, "", n, d, k, it, 1, 1, &c[0])->run(&x[0]);
        std::string fn; if (file) { vf_file_create("data.bin", &x[0], sizeof(double) * n * d); fn = "data.bin"; }
        base::cluster_t b = make(kind, fn, n, d, k, it, nodes, T, &c[0])->run(file ? NULL : &x[0]);
        vf_assert(a.nrow == b.nrow && a.ncol == b.ncol && a.k == b.k && a.iters == b.iters, "same shape and iterations"); vf_assert(a.assignments == b.assignments, "same labels for every thread count"); vf_assert(a.assignment_count == b.assignment_count, "same sizes for every thread count");
        for (size_t i = 0; i < k * d; i++) vf_assert(vf_near(a.centroids[i], b.centroids[i]), "same centroids for every thread count"); if (T > 1 && n > 1) vf_cover("several threads"); vf_cover("done");
    }
}
