// Metrics against their definitions, dispatch by code, parsing of names.
#include "common.hpp"
#include "exception.hpp"
using namespace knor::base;
typedef std::vector<double> V;
static long rd(const char* n, long lo, long hi) { return vf_concrete(vf_int(n, lo, hi)); }
extern "C" void vf_main() {
    long what = vf_param("what", 0), lo = vf_param("lo", -3), hi = vf_param("hi", 3), den = vf_param("den", 1), real = vf_param("real", 0); size_t N = vf_param("n", 3);
    if (what <= 1) {
        size_t n = rd("len", vf_param("min", 0), N); V a(n), b(n); a.reserve(n + 1); b.reserve(n + 1); for (auto& q : a) q = real ? vf_real("a") : vf_fix("a", lo, hi, den); for (auto& q : b) q = real ? vf_real("b") : vf_fix("b", lo, hi, den);
        double s = ref::sq(a.data(), b.data(), n), l = ref::l1(a.data(), b.data(), n);
        if (what == 0) {
            double sq = sqeucl_dist<double>(a.data(), b.data(), n); vf_assert(sq == s, "squared Euclidean distance");
            double t = taxi_dist<double>(a.data(), b.data(), n); vf_assert(t == l, "Manhattan distance");
            double e = eucl_dist<double>(a.data(), b.data(), n); vf_assert(e >= 0 && vf_near(e * e, s, 1e-6), "Euclidean distance");
            vf_assert(dist_comp_raw<double>(a.data(), b.data(), n, dist_t::SQEUCL) == s, "dispatch to squared Euclidean"); vf_assert(dist_comp_raw<double>(a.data(), b.data(), n, dist_t::TAXI) == l, "dispatch to Manhattan");
            double f = dist_comp_raw<double>(a.data(), b.data(), n, dist_t::EUCL); vf_assert(f >= 0 && vf_near(f * f, s, 1e-6), "dispatch to Euclidean");
            vf_assert(sqeucl_dist<double>(b.data(), a.data(), n) == sq && taxi_dist<double>(b.data(), a.data(), n) == t && eucl_dist<double>(b.data(), a.data(), n) == e, "symmetry"); vf_assert(sq >= 0 && t >= 0, "distances are not negative");
            vf_assert(sqeucl_dist<double>(a.data(), a.data(), n) == 0 && taxi_dist<double>(a.data(), a.data(), n) == 0 && eucl_dist<double>(a.data(), a.data(), n) == 0, "distance to itself is zero");
            vf_assert((e == 0) == (s == 0), "zero distance means equal vectors");
            bool th = false; try { dist_comp_raw<double>(a.data(), b.data(), n, (dist_t)vf_int("bad", 4, 1000)); } catch (parameter_exception&) { th = true; } vf_assert(th, "an unknown metric is rejected");
        } else {
            
            double den2 = std::sqrt(ref::dot(a.data(), a.data(), n)) * std::sqrt(ref::dot(b.data(), b.data(), n)), dt = ref::dot(a.data(), b.data(), n);
            double c = cos_dist<double>(a.data(), b.data(), n); vf_assert(vf_near((1 - c) * den2, dt, 1e-6), "cosine distance"); vf_assert(vf_near(c, cos_dist<double>(b.data(), a.data(), n), 1e-9), "symmetry"); vf_assert(vf_near(cos_dist<double>(a.data(), a.data(), n), 0, 1e-9), "distance to itself is zero");
            double f = dist_comp_raw<double>(a.data(), b.data(), n, dist_t::COS); vf_assert(vf_near(f, c, 1e-9), "dispatch to cosine"); vf_assert(c >= -1e-9 && c <= 2 + 1e-9, "cosine distance lies between 0 and 2");
        }
        if (n == N) vf_cover("longest vector");
    } else if (what == 2) { // every string of the length: accepted exactly when it is one of the names
        size_t n = vf_param("n", 4); std::string s(n, 'a'); for (auto& q : s) q = (char)vf_int("ch", vf_param("clo", 1), vf_param("chi", 126));
        const char* dn[] = {"eucl", "cos", "taxi", "sqeucl"}; const int dv[] = {dist_t::EUCL, dist_t::COS, dist_t::TAXI, dist_t::SQEUCL}; const char* in[] = {"random", "forgy", "kmeanspp", "none"}; const int iv[] = {init_t::RANDOM, init_t::FORGY, init_t::PLUSPLUS, init_t::NONE};
        int want = -1, wi = -1; for (int i = 0; i < 4; i++) { std::string d(dn[i]), t(in[i]); if (d.size() == n) { bool e = true; for (size_t j = 0; j < n; j++) e &= d[j] == s[j]; if (e) want = dv[i]; } if (t.size() == n) { bool e = true; for (size_t j = 0; j < n; j++) e &= t[j] == s[j]; if (e) wi = iv[i]; } }
        int got = -1, gi = -1; try { got = get_dist_type(s); } catch (std::exception&) { } try { gi = get_init_type(s); } catch (std::exception&) { }
        vf_assert(got == want, "metric names are recognised and nothing else"); vf_assert(gi == wi, "initialisation names are recognised and nothing else"); if (want >= 0) vf_cover("metric name"); if (wi >= 0) vf_cover("initialisation name");
    }
    vf_cover("done");
}
