// Id map, flag vector and cluster-id generator over every bounded operation history.
#include "common.hpp"
#include "thd_safe_bool_vector.hpp"
#include "hclust_id_generator.hpp"
#include <map>
#include <set>
using namespace knor::base;
static long pick(const char* nm, long lo, long hi) { return vf_concrete(vf_int(nm, lo, hi)); }
template <class T> static void agree(vmap<T>& m, std::map<size_t, T>& r, size_t mx) {
    const vmap<T>& cm = m; std::vector<size_t> ids; m.get_keys(ids); vf_assert(ids.size() == r.size() && m.keycount() == r.size(), "number of keys"); vf_assert(m.keyless() == r.empty(), "keyless exactly when no key is present");
    vf_assert(m.empty() == (m.size() == 0), "empty exactly at capacity zero");
    size_t i = 0; auto it = m.get_iterator();
    for (auto& kv : r) { vf_assert(ids[i++] == kv.first, "keys listed in order"); vf_assert(it.has_next(), "iterator reaches every key"); if (!it.has_next()) return; auto p = it.next(); vf_assert(p.first == kv.first && p.second == kv.second, "iterator yields each entry"); vf_assert(kv.first < cm.size() && cm[kv.first] == kv.second, "value of a present key"); }
    vf_assert(!it.has_next(), "iterator ends after the last entry"); vf_assert(!it.has_next(), "iterator stays at its end");
    for (size_t k = 0; k <= mx; k++) { vf_assert(m.has_key(k) == (r.count(k) > 0), "a key is reported present exactly when stored"); bool t = false; try { cm[k]; } catch (oob_exception&) { t = true; } vf_assert(t == (k >= m.size()), "reading past the capacity is reported"); }
}
template <class T> static void maps(T emp, bool dflt) {
    long K = vf_param("keys", 3), L = vf_param("l", 4); size_t cap = dflt ? 0 : pick("cap", 0, 2); vmap<T> m0, m1(cap, emp); vmap<T>& m = dflt ? m0 : m1; std::map<size_t, T> r; agree(m, r, K);
    for (long s = 0; s < L; s++) {
        long op = pick("op", 0, 5); size_t k = op <= 3 ? pick("k", 0, K) : 0; T v = op <= 1 ? (T)vf_int("v", -2, 2) : T();
        if (op == 0) { m[k] = v; if (v == emp) { r.erase(k); } else r[k] = v; }
        else if (op == 1) { m.at(k) = v; if (v == emp) { r.erase(k); } else r[k] = v; }
        else if (op == 2) { if (r.count(k)) vf_cover("present key erased"); m.erase(k); r.erase(k); }
        else if (op == 3) { bool had = r.count(k); size_t before = m.size(); T x = m[k]; vf_assert(x == (had ? r[k] : emp), "reading an absent key gives the empty value"); if (k >= before) vf_cover("grown"); }
        else if (op == 4) { size_t z = m.size(); m.clear(); vf_assert(m.size() == z, "clearing keeps the capacity"); r.clear(); }
        else { size_t z = pick("newcap", 0, 3); m.set_capacity(z); vf_assert(m.size() == z, "capacity"); r.clear(); }
        agree(m, r, K);
    }
    if (r.size() > 1) vf_cover("several keys");
}
extern "C" void vf_main() {
    long what = vf_param("what", 0), L = vf_param("l", 4);
    if (what == 0) maps<long>(vf_param("emp", 0), vf_param("dflt", 0));
    else if (what == 1) { // shared pointers as values: default map
        vmap<std::shared_ptr<int>> m; std::map<size_t, std::shared_ptr<int>> r;
        for (long s = 0; s < L; s++) { size_t k = pick("k", 0, 3); if (pick("op", 0, 1)) { auto p = std::make_shared<int>((int)s); m[k] = p; r[k] = p; } else { m.erase(k); r.erase(k); } agree(m, r, 3); }
        for (auto& kv : r) vf_assert(kv.second.use_count() == 2, "an erased entry releases its value");
    } else if (what == 2) { // flags
        size_t n = pick("n", 0, vf_param("n", 4)); bool init = pick("init", 0, 1); thd_safe_bool_vector::ptr f = thd_safe_bool_vector::create(n, init); std::vector<bool> r(n, init);
        for (long s = 0; s < L; s++) {
            if (r.empty() || pick("grow", 0, 1)) { size_t i = pick("ci", 0, vf_param("n", 4) + 1); bool v = vf_int("v", 0, 1); f->check_set(i, v); if (i >= r.size()) { if (i == r.size()) vf_cover("grown by one"); r.resize(i + 1, false); } r[i] = v; }
            else { size_t i = pick("i", 0, r.size() - 1); bool v = vf_int("v", 0, 1); f->set(i, v); r[i] = v; }
            vf_assert(f->size() == r.size() && f->raw().size() == r.size(), "number of flags");
            for (size_t i = 0; i < r.size() && i < f->size(); i++) { vf_assert(f->get(i) == r[i], "flag holds the value last set"); vf_assert((*f)[i] == r[i], "flag holds the value last set"); vf_assert((bool)f->raw()[i] == r[i], "flag holds the value last set"); }
        }
        thd_safe_bool_vector::ptr u = thd_safe_bool_vector::create(n); vf_assert(u->size() == n, "number of flags"); for (size_t i = 0; i < n; i++) { u->set(i, i & 1); } for (size_t i = 0; i < n; i++) vf_assert(u->get(i) == (bool)(i & 1), "flag holds the value last set");
    } else {                // id generator: split a cluster in use, or give ids back
        knor::hclust_id_generator::ptr g = knor::hclust_id_generator::create(); std::set<unsigned> used = {0}; std::set<unsigned> freed; unsigned mx = 0;
        for (long s = 0; s < L; s++) {
            if (used.empty() || pick("op", 0, 1)) {
                knor::split_id p = g->get_split_ids(); vf_assert(p.first != p.second, "the two ids differ"); vf_assert(!used.count(p.first) && !used.count(p.second), "an id in use is never handed out");
                unsigned fresh = 0; for (unsigned id : {p.first, p.second}) { if (freed.count(id)) freed.erase(id); else fresh++; used.insert(id); if (id > mx) mx = id; }
                vf_assert(freed.empty() || !fresh, "returned ids are used before new ones"); if (!fresh) vf_cover("both recycled"); if (fresh == 1) vf_cover("one recycled");
            } else { long w = pick("w", 0, used.size() - 1); auto it = used.begin(); std::advance(it, w); unsigned id = *it; g->reclaim_id(id); used.erase(id); freed.insert(id); }
            vf_assert(mx < used.size() + freed.size() , "ids stay dense");
        }
    }
    vf_cover("done");
}
