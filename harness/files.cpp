// Binary input: whole, line by line, per thread; writing back; short and missing files.
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstdio>
// Model of the C++ file stream on top of the C one (the stream library itself is not under test).
namespace std { class vf_ifstream {
    FILE* f; bool fl, ef, op;
public:
    vf_ifstream() : f(0), fl(false), ef(false), op(false) {}
    void open(const string& n, ios_base::openmode = ios_base::in) { if (op) { fl = true; return; } f = fopen(n.c_str(), "rb"); op = f != 0; if (!f) fl = true; }
    bool good() const { return !fl && !ef; } bool is_open() const { return op; } bool eof() const { return ef; } bool fail() const { return fl; } explicit operator bool() const { return !fl; } bool operator!() const { return fl; }
    vf_ifstream& read(char* p, streamsize n) { if (!good() || !op) { fl = true; return *this; } if (n && fread(p, 1, n, f) != (size_t)n) { ef = fl = true; } return *this; }
    vf_ifstream& seekg(long p) { ef = false; if (!fl && op) fseek(f, p, SEEK_SET); return *this; }
    void close() { if (op) fclose(f); op = false; }
}; }
#define ifstream vf_ifstream
#include "io.hpp"
#undef ifstream
#include "common.hpp"
#include "exception.hpp"
#include "kmeans_thread.hpp"
#include "clusters.hpp"
#include "numa_reorg.hpp"
using namespace knor; using namespace knor::base;
typedef std::vector<double> V;
static long pick(const char* n, long lo, long hi) { return vf_concrete(vf_int(n, lo, hi)); }
static void leak(std::shared_ptr<knor::thread> t) { new std::shared_ptr<knor::thread>(t); }   // never started, so never joined
static void same(const double* a, const double* b, size_t n, const char* l) { for (size_t i = 0; i < n; i++) vf_assert(a[i] == b[i], l); }
extern "C" void vf_main() {
    long what = vf_param("what", 0); size_t n = pick("n", 1, vf_param("n", 3)), d = pick("d", 1, vf_param("d", 3)); V x(n * d); for (auto& q : x) q = vf_fix("x", -9, 9, 1);
    if (what == 0) {
        vf_file_create("m.bin", &x[0], x.size() * 8);
        { bin_io<double> b("m.bin", n, d); V v(n * d, 77.0); if (pick("api", 0, 1)) b.read(&v[0]); else b.read(&v); same(&v[0], &x[0], n * d, "whole file"); vf_assert(!b, "end of data is reported"); }
        { bin_io<double> b("m.bin", n, d, "rb"); size_t r = 0; while (b) { vf_assert(r < n, "no row beyond the end"); if (r >= n) break; if (r % 2) { V v = b.readline(); vf_assert(v.size() == d, "row length"); same(&v[0], &x[r * d], d, "row by row"); } else { V v(d + 1, 77.0); b.readline(&v[0]); same(&v[0], &x[r * d], d, "row by row"); vf_assert(v[d] == 77.0, "a row writes nothing else"); } r++; } vf_assert(r == n, "every row is read once"); }
        { bin_rm_reader<double> b("m.bin"); V v(n * d, 77.0); b.read(v); same(&v[0], &x[0], n * d, "whole file through the reader"); vf_assert(b.get_fn() == "m.bin", "file name"); }
        { bin_rm_reader<double> b("m.bin"); b.set_ncol(d); V v(d); size_t r = 0; while (b.readline(v)) { vf_assert(r < n, "no row beyond the end"); if (r >= n) break; same(&v[0], &x[r * d], d, "row by row through the reader"); r++; vf_assert(b.get_nrow() == r, "row counter"); } vf_assert(r == n && b.get_nrow() == n, "every row is read once"); }
        { bin_rm_reader<double> b("m.bin"); b.set_ncol(d); size_t from = pick("from", 0, n - 1); b.seek(from * d * 8); V v(d); vf_assert(b.readline(v), "row after a seek"); same(&v[0], &x[from * d], d, "row after a seek"); if (from) vf_cover("seek"); }
        { V y(n * d, 0.0); size_t m = pick("wn", 1, n * d); { bin_io<double> w("o.bin", n, d, "wb"); if (pick("wapi", 0, 1)) w.write(&x[0], m); else w.write(x, m); } vf_assert(vf_file_size("o.bin") == m * 8, "written size"); vf_file_read("o.bin", 0, &y[0], m * 8); same(&y[0], &x[0], m, "written values"); }
        for (size_t i = 0; i < n * d; i++) { double q; vf_file_read("m.bin", i * 8, &q, 8); vf_assert(q == x[i], "reading leaves the file alone"); }
    } else if (what == 1) { // a thread reads exactly its rows
        vf_file_create("m.bin", &x[0], x.size() * 8); size_t s = pick("start", 0, n - 1), len = pick("len", 1, n - s); clusters::ptr c = clusters::create(1, d); std::vector<unsigned> a(n, 0);
        kmeans_thread::ptr t = kmeans_thread::create(pick("node", 0, 1), 0, s, len, d, c, &a[0], "m.bin", dist_t::EUCL); vf_assert(t->get_start_rid() == s && t->get_data_size() == len * d * 8, "range of the thread");
        t->numa_alloc_mem(); same(t->get_local_data(), &x[s * d], len * d, "a thread reads exactly its rows"); for (size_t i = 0; i < len; i++) vf_assert(t->get_global_data_id(i) == s + i, "global row number");
        t->destroy_numa_mem(); leak(t); if (s && s + len < n) vf_cover("middle rows");
    } else if (what == 2) { // preloaded data, shared or redistributed over the nodes
        unsigned T = pick("t", 1, n); std::vector<thread::ptr> th; clusters::ptr c = clusters::create(1, d); std::vector<unsigned> a(n, 0); size_t per = n / T;
        for (unsigned i = 0; i < T; i++) { auto t = kmeans_thread::create(i % 2, i, i * per, i + 1 == T ? n - i * per : per, d, c, &a[0], "", dist_t::EUCL); th.push_back(t); }
        bool re = pick("redistribute", 0, 1); if (re) binding::memory_distributor<double>::create(&x[0], pick("nodes", 1, 2), n, d)->numa_reorg(th); else for (auto& t : th) t->set_local_data_ptr(&x[0]);
        for (auto& t : th) { size_t len = t->get_data_size() / 8; same(t->get_local_data(), &x[t->get_start_rid() * d], len, "a thread sees exactly its rows"); if (re) vf_assert(t->get_local_data() != &x[t->get_start_rid() * d], "redistribution copies"); }
        for (auto& t : th) leak(t);
    } else if (what == 3) { // dump of one cluster
        std::vector<unsigned> a(n); unsigned id = pick("id", 0, 1); V w; for (size_t i = 0; i < n; i++) { a[i] = pick("a", 0, 1); if (a[i] == id) w.insert(w.end(), &x[i * d], &x[i * d] + d); }
        store_cluster(id, &x[0], w.size() / d, &a[0], n, d, "d_"); std::string fn = "d_cluster_" + std::to_string(id) + "_r" + std::to_string(w.size() / d) + "_c" + std::to_string(d) + ".bin";
        vf_assert(vf_file_size(fn.c_str()) == w.size() * 8, "cluster file size"); if (w.size()) { V y(w.size()); vf_file_read(fn.c_str(), 0, &y[0], w.size() * 8); same(&y[0], &w[0], w.size(), "cluster file holds exactly the rows of the cluster"); vf_cover("cluster written"); }
    } else {                // short or missing file: refused, never filled up with made-up values
        size_t keep = pick("keep", 0, n * d - 1); if (pick("exists", 0, 1)) vf_file_create("m.bin", &x[0], keep * 8); else { vf_assume(keep == 0); } long how = pick("how", 0, 4); V v(n * d, 77.0); vf_cover("short"); vf_allow_exit(2); bool refused = false;
        try {
            if (how == 0) { bin_io<double> b("m.bin", n, d); b.read(&v); } else if (how == 1) { bin_io<double> b("m.bin", n, d); for (size_t i = 0; i < n; i++) b.readline(&v[i * d]); } else if (how == 2) { bin_io<double> b("m.bin", n, d); for (size_t i = 0; i < n; i++) b.readline(); }
            else if (how == 3) { clusters::ptr c = clusters::create(1, d); std::vector<unsigned> a(n, 0); kmeans_thread::ptr t = kmeans_thread::create(0, 0, 0, n, d, c, &a[0], "m.bin", dist_t::EUCL); leak(t); t->numa_alloc_mem(); }
            else { bin_rm_reader<double> b("m.bin"); b.set_ncol(d); V r(d); size_t g = 0; while (b.readline(r)) g++; vf_assert(g == keep / d, "only complete rows are returned"); refused = g < n; }
        } catch (...) { refused = true; }
        vf_assert(refused, "a short or missing file is refused");
    }
    vf_cover("done");
}
