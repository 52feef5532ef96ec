// The task queue on its own (every row count) and the task loop of a worker.
#include "common.hpp"
#include "kmeans_task_coordinator.hpp"
#include "kmeans_task_thread.hpp"
#include "task_queue.hpp"
#include "clusters.hpp"
#include "thd_safe_bool_vector.hpp"
#include "dist_matrix.hpp"
using namespace knor;
static long pick(const char* n, long lo, long hi) { return vf_concrete(vf_int(n, lo, hi)); }
typedef data_container<double> DC;
static double buf[8];
static void round_(task_queue& q, const double* base, size_t first, size_t n, size_t ncol, bool drain) {
    size_t got = 0; unsigned tasks = 0; const unsigned cap = vf_param("cap", 1 << 20);
    while (q.has_task()) {
        vf_assert(((task_queue&)q).get_nxt_rid() == first + got, "next row to hand out");
        task* t = q.get_task(); size_t len = t->get_nrow();
        vf_assert(len > 0, "a task has rows"); vf_assert(t->get_start_rid() == first + got, "a task starts where the previous one ended");
        vf_assert((unsigned long)t->get_data_ptr() - (unsigned long)base == (unsigned long)got * ncol * sizeof(double), "a task points at the data of its first row");
        got += len; vf_assert(got <= n, "no row beyond the end is handed out"); delete t; if (++tasks == 2) vf_cover("several tasks");
        if (!drain || tasks >= cap) return;
    }
    vf_assert(got == n, "every row was handed out exactly once");
    task* e = q.get_task(); vf_assert(e->get_nrow() == 0 && !e->get_data_ptr(), "an exhausted queue hands out no rows"); delete e; vf_assert(!q.has_task(), "still exhausted");
}
extern "C" void vf_main() {
    int what = vf_param("what", 0);
    if (what == 0) {
        size_t n = vf_int("nrow", 1, vf_param("n", 40000)), ncol = vf_int("ncol", 1, vf_param("d", 1 << 20)); unsigned first = vf_int("first", 0, 1 << 28);
        if (pick("how", 0, 1)) { task_queue q(buf, first, n, ncol); round_(q, buf, first, n, ncol, true); q.reset(); round_(q, buf, first, n, ncol, pick("all", 0, 1)); q.reset(); round_(q, buf, first, n, ncol, true); }
        else { task_queue q; q.DC::set_start_rid(first); q.DC::set_nrow(n); q.set_ncol(ncol); q.DC::set_data_ptr(buf); vf_assert(q.get_ncol() == ncol, "number of columns"); q.reset(); vf_assert(q.has_task(), "a queue with rows has a task after reset"); round_(q, buf, first, n, ncol, true); q.reset(); round_(q, buf, first, n, ncol, true); }
        vf_cover("done");
    } else if (what == 1) {
        task_queue a; vf_assert(!a.has_task(), "a new queue is empty"); task_queue b(buf, 3, 0, 2); vf_assert(!b.has_task(), "a queue without rows has no task"); b.reset(); vf_assert(!b.has_task(), "a queue without rows has no task after reset"); task* t = b.get_task(); vf_assert(t->get_nrow() == 0, "an empty queue hands out no rows"); delete t; vf_cover("done");
    } else if (what == 2) {   // the loop of one worker: wake, then run until it sleeps; each row processed once per round
        size_t n = pick("n", 1, vf_param("n", 5)), d = vf_param("d", 1), off = pick("off", 0, 2); unsigned k = vf_param("k", 2); std::vector<double> x = ref::data(n, d), c = ref::data(k, d, "c");
        std::shared_ptr<base::prune_clusters> g = base::prune_clusters::create(k, d); g->set_mean((const double*)&c[0]);
        size_t N = n + off + 1; std::vector<unsigned> asg(N, base::INVALID_CLUSTER_ID); std::vector<double> dist(N, std::numeric_limits<double>::max());
        prune::task_thread::ptr t = prune::kmeans_task_thread::create(0, 0, off, n, d, g, &asg[0], "", base::dist_t::EUCL); new prune::task_thread::ptr(t);
        pthread_cond_t pc; pthread_cond_init(&pc, NULL); std::atomic<unsigned> pend(0); t->set_parent_cond(&pc); t->set_parent_pending_threads(&pend); t->set_dist_v_ptr(&dist[0]);
        t->set_recalc_v_ptr(base::thd_safe_bool_vector::create(N, false)); t->set_dist_mat_ptr(prune::dist_matrix::create(k)); t->set_local_data_ptr(&x[0], false); t->get_task_queue()->DC::set_data_ptr(&x[0]);
        t->set_prune_init(true); unsigned rounds = vf_param("rounds", 2);
        for (unsigned r = 0; r < rounds; r++) {
            pend = 2; t->wake(EM); unsigned calls = 0; while (t->get_state() != WAIT) { t->run(); vf_assert(++calls <= n + 1, "the worker finishes its round"); }
            vf_assert(pend == 1, "the worker reports its round once"); vf_assert(t->get_num_changed() == n, "every row was processed exactly once"); size_t tot = 0; for (unsigned j = 0; j < k; j++) tot += t->get_local_clusters()->get_num_members(j); vf_assert(tot == n, "every row was counted exactly once");
            for (size_t q = 0; q < d; q++) { double s = 0, w = 0; for (unsigned j = 0; j < k; j++) s += t->get_local_clusters()->get_means()[j * d + q]; for (size_t i = 0; i < n; i++) w += x[i * d + q]; vf_assert(s == w, "every row was added exactly once"); }
            for (size_t i = 0; i < N; i++) { bool in = i >= off && i < off + n; vf_assert((asg[i] < k) == in, "exactly the rows of the range are labelled"); if (in) vf_assert(vf_near(dist[i], vf_abs(x[(i - off) * d] - c[asg[i] * d])) || d > 1, "bound of the row itself"); }
            if (r == 0 && n > 2) vf_cover("several rows");
            pend = 2; t->meta.clust_idx = 0; t->wake(KMSPP_INIT); calls = 0; while (t->get_state() != WAIT) { t->run(); vf_assert(++calls <= n + 1, "the worker finishes its round"); }
            double s = 0; for (size_t i = 0; i < n; i++) s += dist[off + i]; vf_assert(pend == 1 && vf_near(t->get_cuml_dist(), s), "the cumulated distance sums each row once");
        }
        vf_cover("done");
    }
}
