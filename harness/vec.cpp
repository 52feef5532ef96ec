// Vector helpers of linalg and util against their definitions; every length (forked) and content.
#include "common.hpp"
#include "linalg.hpp"
#include "util.hpp"
using namespace knor::base;
typedef std::vector<double> V;
static long lo, hi;
static size_t len(const char* nm, long mx, long mn = 0) { return vf_concrete(vf_int(nm, mn, mx)); }
static V vals(size_t n, const char* nm) { V v(n); v.reserve(n + 1); for (auto& x : v) x = vf_fix(nm, lo, hi, vf_param("den", 1)); return v; }
extern "C" void vf_main() {
    long op = vf_param("op", 0), N = vf_param("n", 4); lo = vf_param("lo", -4); hi = vf_param("hi", 4);
    if (op == 0) {          // sums, differences, factors, powers
        size_t n = len("n", N); V a = vals(n, "a"), b = vals(n, "b"), t = a, keep = a;
        linalg::peq(t.data(), b.data(), n); for (size_t i = 0; i < n; i++) vf_assert(t[i] == a[i] + b[i], "in-place sum");
        bool pre = len("prealloc", 1); V r(pre ? n : 0, 3.0); linalg::vdiff(a.data(), b.data(), n, r); vf_assert(r.size() == n, "difference"); for (size_t i = 0; i < n; i++) vf_assert(r[i] == a[i] - b[i], "difference");
        double f = vf_fix("f", lo, hi, 1); V s(pre ? n : 0, 3.0); linalg::scale(a, f, s); vf_assert(s.size() == n, "multiple"); for (size_t i = 0; i < n; i++) vf_assert(s[i] == a[i] * f, "multiple");
        V p(pre ? n : 0, 3.0); linalg::pow(a, p, 2.0); vf_assert(p.size() == n, "power"); for (size_t i = 0; i < n; i++) vf_assert(vf_near(p[i], a[i] * a[i]), "power");
        for (size_t i = 0; i < n; i++) vf_assert(a[i] == keep[i], "operands unchanged");
        if (pre && n) vf_cover("result vector given");
    } else if (op == 1) {   // dot products and norm
        size_t n = len("n", N, 0); V a = vals(n, "a"), b = vals(n, "b"); double d = 0, sq = 0; for (size_t i = 0; i < n; i++) { d += a[i] * b[i]; sq += a[i] * a[i]; }
        vf_assert(linalg::dot(a.data(), b.data(), n) == d, "dot product"); vf_assert(linalg::dot(a, b) == d, "dot product of vectors");
        size_t c = len("cols", 3, 1); V m = vals(n * c, "m"), r(len("stale", 2), 9.0); linalg::dot(a.data(), m.data(), n, c, r); vf_assert(r.size() == c, "vector times matrix");
        for (size_t j = 0; j < c; j++) { double w = 0; for (size_t i = 0; i < n; i++) w += a[i] * m[i * c + j]; vf_assert(r[j] == w, "vector times matrix"); }
        if (n <= 2) { double f = linalg::frobenius_norm<double>(a.data(), n); vf_assert(f >= 0, "norm is not negative"); vf_assert(vf_near(f * f, sq, 1e-6), "norm"); }
    } else if (op == 2) {   // comparisons
        size_t n = len("n", N), m = len("m", N); V a = vals(n, "a"), b = vals(m, "b");
        bool eq = n == m; for (size_t i = 0; i < n && i < m; i++) if (a[i] != b[i]) eq = false;
        vf_assert(v_eq(a, b) == eq, "vectors are equal exactly when lengths and elements agree"); if (n != m) vf_cover("different lengths");
        if (n == m) { vf_assert(eq_all<double>(a.data(), b.data(), n) == eq, "all elements are compared"); if (eq) vf_cover("equal"); else vf_cover("unequal"); }
        double c = vf_fix("c", lo, hi, 1); bool all = true; for (auto x : a) all &= x == c; vf_assert(v_eq_const(a, c) == all, "comparison with a constant");
    } else if (op == 3) {   // standardisation: zero mean, unit deviation, same order and spacing
        size_t n = len("n", N, 2); V a = vals(n, "a"); double s = 0; for (auto x : a) s += x; double m2 = 0; for (auto x : a) { double t = (double)n * x - s; m2 += t * t; } V z = a; linalg::scale(z.data(), n); if (m2 == 0) { vf_cover("constant"); for (auto v : z) vf_assert(v == 0, "a constant vector is only centered"); return; }
        double sd = std::sqrt(m2 / (double)(n * n * n));     // m2/n^2 is the summed squared deviation
        for (size_t i = 0; i < n; i++) vf_assert(vf_near(z[i] * sd, a[i] - s / (double)n, 1e-6), "standardised value");
    } else if (op == 4) {   // spherical projection
        size_t n = len("rows", vf_param("r", 2), 1), c = len("cols", vf_param("c", 2), 1); V a = vals(n * c, "a"), z = a; for (size_t i = 0; i < n; i++) vf_assume(ref::dot(&a[i * c], &a[i * c], c) > 0);
        spherical_projection(&z[0], n, c);
        for (size_t i = 0; i < n; i++) { double q = std::sqrt(ref::dot(&a[i * c], &a[i * c], c)); for (size_t j = 0; j < c; j++) vf_assert(vf_near(z[i * c + j] * q, a[i * c + j], 1e-6), "each row is scaled to unit length"); }
    } else {                // powers of two around k
        unsigned k = vf_concrete(vf_int("k", 1, vf_param("k", 70))); unsigned c = 1; while (c < k) c *= 2; unsigned f = c == k ? c : c / 2;
        vf_assert(get_hclust_ceil(k) == c, "smallest power of two not below k"); vf_assert(get_hclust_floor(k) == f, "largest power of two not above k");
        size_t tot = 0; for (size_t i = 1; i <= k; i *= 2) tot += i; vf_assert(get_max_hnodes<size_t>(k) == tot && get_max_hnodes<unsigned>(k) == tot, "nodes of a full binary tree");
    }
    vf_cover("done");
}
