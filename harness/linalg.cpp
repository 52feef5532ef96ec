// Determinant, adjoint and inverse against the Leibniz definition and the defining identities.
#include "common.hpp"
#include "linalg.hpp"
#include <algorithm>
using namespace knor::base;
typedef std::vector<double> V;
static double leibniz(const V& a, size_t n) {
    std::vector<int> p(n); for (size_t i = 0; i < n; i++) p[i] = i; double s = 0;
    do { int inv = 0; for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) inv += p[i] > p[j]; double t = inv % 2 ? -1.0 : 1.0; for (size_t i = 0; i < n; i++) t *= a[i * n + p[i]]; s += t; } while (std::next_permutation(p.begin(), p.end()));
    return s;
}
static V mul(const V& a, const V& b, size_t n) { V r(n * n, 0.0); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) r[i * n + j] += a[i * n + k] * b[k * n + j]; return r; }
extern "C" void vf_main() {
    size_t n = vf_param("n", 2); long what = vf_param("what", 7), lo = vf_param("lo", -2), hi = vf_param("hi", 2); bool real = vf_param("real", 0); V a(n * n);
    for (auto& x : a) x = real ? vf_real("a") : vf_fix("a", lo, hi, 1);
    V in = a; double det = leibniz(a, n);
    if (what & 1) { vf_assert(linalg::determinant(&a[0], n, n) == det, "determinant"); vf_assert(a == in, "determinant leaves the matrix alone"); }
    if (what & 2) {
        V adj(n * n, 5.0); linalg::adjoint(&a[0], &adj[0], n); V p = mul(a, adj, n), q = mul(adj, a, n);
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { vf_assert(p[i * n + j] == (i == j ? det : 0.0), "A adj(A) = det(A) I"); vf_assert(q[i * n + j] == (i == j ? det : 0.0), "adj(A) A = det(A) I"); }
        dense_matrix<double>* m = dense_matrix<double>::create(n, n); m->set(&a[0]); dense_matrix<double>* r = linalg::adjoint(m); vf_assert(r->get_nrow() == n && r->get_ncol() == n && r->as_vector() == adj, "adjoint of a matrix object");
    }
    if (what & 4) {
        V inv(n * n, 7.0); bool ok = linalg::inverse(&a[0], &inv[0], n);
        vf_assert(ok == (det != 0), "inverse exists exactly when the determinant is not zero");
        if (ok) { V p = mul(a, inv, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) vf_assert(vf_near(p[i * n + j], i == j ? 1.0 : 0.0), "A inverse(A) = I"); vf_cover("invertible"); }
        else { vf_assert(inv == V(n * n, 7.0), "no inverse is written for a singular matrix"); vf_cover("singular"); }
    }
    if (what & 8) {   // inverse times determinant is the transposed matrix of cofactors, written out independently
        vf_assume(det != 0); V inv(n * n, 7.0); bool ok = linalg::inverse(&a[0], &inv[0], n); vf_assert(ok, "inverse exists when the determinant is not zero");
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { V m; for (size_t r = 0; r < n; r++) for (size_t c = 0; c < n; c++) if (r != i && c != j) m.push_back(a[r * n + c]); double co = (n == 1 ? 1.0 : leibniz(m, n - 1)) * ((i + j) % 2 ? -1.0 : 1.0); vf_assert(inv[j * n + i] * det == co, "inverse times determinant is the adjoint"); }
    }
    vf_cover("done");
}
