// dense_matrix against the definitions of the operations; every shape up to r x c (forked), every content on the grid.
#include "common.hpp"
#include "dense_matrix.hpp"
#include "exception.hpp"
using namespace knor::base;
typedef dense_matrix<double> M; typedef std::vector<double> V;
static long lo, hi;
static size_t dim(const char* nm, long mx, long mn = 1) { return vf_concrete(vf_int(nm, mn, mx)); }
static V vals(size_t n, const char* nm) { V v(n); for (auto& x : v) x = vf_fix(nm, lo, hi, vf_param("den", 1)); return v; }
static M* mk(size_t r, size_t c, const V& v) { M* m = M::create(r, c); m->set(&v[0]); return m; }
static void same(M* m, size_t r, size_t c, const V& want, const char* what) {
    vf_assert(m->get_nrow() == r && m->get_ncol() == c, what);
    vf_assert(m->as_vector().size() == r * c, what);
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) vf_assert(vf_near(m->get(i, j), want[i * c + j]), what);
}
extern "C" void vf_main() {
    long op = vf_param("op", 0), R = vf_param("r", 3), C = vf_param("c", 3); lo = vf_param("lo", -4); hi = vf_param("hi", 4); vf_omp_threads(vf_param("t", 2));
    size_t r = dim("rows", R), c = dim("cols", C); V a = vals(r * c, "a");
    if (op == 0) {          // access, copies, equality, fill, resize
        M* m = mk(r, c, a); same(m, r, c, a, "set and get");
        for (size_t i = 0; i < r * c; i++) vf_assert(m->as_pointer()[i] == a[i], "row-major storage");
        M* cp = M::create(m); same(cp, r, c, a, "copy construction"); vf_assert(*cp == *m, "a copy equals its source");
        size_t pi = dim("i", r - 1, 0), pj = dim("j", c - 1, 0); double nv = vf_fix("v", lo, hi, 1);
        cp->set(pi, pj, nv); V b = a; b[pi * c + pj] = nv; same(cp, r, c, b, "set changes one element"); same(m, r, c, a, "a copy shares nothing with its source");
        vf_assert((*cp == *m) == (nv == a[pi * c + pj]), "equality compares every element");
        cp->peq(pi, pj, nv); b[pi * c + pj] += nv; same(cp, r, c, b, "adding to one element");
        V row = vals(c, "row"); cp->set_row(&row[0], pi); for (size_t j = 0; j < c; j++) b[pi * c + j] = row[j]; same(cp, r, c, b, "set_row replaces one row");
        M* t = M::create(dim("tr", 2), dim("tc", 2)); t->copy_from(cp); same(t, r, c, b, "copy_from takes shape and content");
        vf_assert(*t == *cp, "copy_from result equals the source");
        M* o = mk(c, r, a); vf_assert((*o == *m) == (r == c), "different shapes are unequal"); if (r != c) vf_cover("shapes differ");
        t->zero(); same(t, r, c, V(r * c, 0.0), "zero"); M* z = M::create(r, c, true); same(z, r, c, V(r * c, 0.0), "zero construction");
        t->resize(c + 1, r); vf_assert(t->get_nrow() == c + 1 && t->get_ncol() == r && t->as_vector().size() == (c + 1) * r, "resize");
    } else if (op == 1) {   // element-wise arithmetic and shape checks
        M* m = mk(r, c, a); V b = vals(r * c, "b"); M* n = mk(r, c, b); V s(r * c), d(r * c);
        for (size_t i = 0; i < r * c; i++) { s[i] = a[i] + b[i]; d[i] = a[i] - b[i]; }
        M* p = *m + *n; same(p, r, c, s, "sum"); M* q = *m - *n; same(q, r, c, d, "difference");
        same(m, r, c, a, "operands unchanged"); same(n, r, c, b, "operands unchanged");
        *m += *n; same(m, r, c, s, "in-place sum"); same(n, r, c, b, "operands unchanged");
    } else if (op == 2) {   // product
        size_t e = dim("inner", vf_param("e", 3)); V b = vals(c * e, "b"); M* m = mk(r, c, a); M* n = mk(c, e, b); M* p = *m * *n; V w(r * e, 0.0);
        for (size_t i = 0; i < r; i++) for (size_t j = 0; j < e; j++) for (size_t k = 0; k < c; k++) w[i * e + j] += a[i * c + k] * b[k * e + j];
        same(p, r, e, w, "product"); if (r != e && c != e) vf_cover("rectangular product");
    } else if (op == 3) {   // reductions
        M* m = mk(r, c, a); V cs(c, 0.0), rs(r, 0.0); double tot = 0, sq = 0;
        for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { cs[j] += a[i * c + j]; rs[i] += a[i * c + j]; tot += a[i * c + j]; sq += a[i * c + j] * a[i * c + j]; }
        V got(dim("stale", 2, 0), 7.0); m->sum(0, got); vf_assert(got.size() == c, "column sums"); for (size_t j = 0; j < c; j++) vf_assert(vf_near(got[j], cs[j]), "column sums");
        m->sum(1, got); vf_assert(got.size() == r, "row sums"); for (size_t i = 0; i < r; i++) vf_assert(vf_near(got[i], rs[i]), "row sums");
        vf_assert(vf_near(m->sum(), tot), "total");
        m->mean(got, 1); vf_assert(got.size() == c, "column means"); for (size_t j = 0; j < c; j++) vf_assert(vf_near(got[j] * (double)r, cs[j]), "column means");
        m->mean(got, 0); vf_assert(got.size() == r, "row means"); for (size_t i = 0; i < r; i++) vf_assert(vf_near(got[i] * (double)c, rs[i]), "row means");
        if (vf_param("norm", 0)) { double f = m->frobenius_norm(); vf_assert(f >= 0 && vf_near(f * f, sq, 1e-6), "Frobenius norm"); }
        bool thrown = false; try { m->sum(2, got); } catch (parameter_exception&) { thrown = true; } vf_assert(thrown, "unknown axis is rejected");
    } else if (op == 4) {   // argmax
        M* m = mk(r, c, a); std::vector<unsigned> ix(dim("stale", 1, 0), 9u);
        m->argmax(0, ix); vf_assert(ix.size() == r, "row argmax"); for (size_t i = 0; i < r; i++) { vf_assert(ix[i] < c, "row argmax in range"); for (size_t j = 0; j < c; j++) vf_assert(a[i * c + ix[i]] >= a[i * c + j], "row argmax is a maximum"); }
        m->argmax(1, ix); vf_assert(ix.size() == c, "column argmax"); for (size_t j = 0; j < c; j++) { vf_assert(ix[j] < r, "column argmax in range"); for (size_t i = 0; i < r; i++) vf_assert(a[ix[j] * c + j] >= a[i * c + j], "column argmax is a maximum"); }
        bool thrown = false; try { m->argmax(2, ix); } catch (parameter_exception&) { thrown = true; } vf_assert(thrown, "unknown axis is rejected");
    } else if (op == 5) {   // scaling by numbers and vectors
        double k = vf_fix("k", 1, hi, 1); M* m = mk(r, c, a); *m /= k; vf_assert(m->get_nrow() == r && m->get_ncol() == c, "division");
        for (size_t i = 0; i < r * c; i++) vf_assert(vf_near(m->as_pointer()[i] * k, a[i]), "division by a number");
        long ax = vf_concrete(vf_int("axis", 0, 1)); size_t len = ax == 0 ? c : r; V v = vals(len, "v"); for (auto x : v) vf_assume(x >= 1);
        M* q = mk(r, c, a); q->div_eq(v, ax);
        for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) vf_assert(vf_near(q->get(i, j) * v[ax == 0 ? j : i], a[i * c + j]), "division by a vector along an axis");
        if (vf_param("pw", 1)) {
        M* p = mk(r, c, a); p->div_eq_pow(v, ax, 2);
        for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { double w = v[ax == 0 ? j : i]; vf_assert(vf_near(p->get(i, j) * w * w, a[i * c + j] * a[i * c + j]), "division by a vector and power"); } }
        if (r != c) { M* s = mk(r, c, a); *s /= v; for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) vf_assert(vf_near(s->get(i, j) * v[ax == 0 ? j : i], a[i * c + j]), "division by a vector"); vf_cover("rectangular division"); }
        else { M* s = mk(r, c, a); bool t = false; try { *s /= v; } catch (std::exception&) { t = true; } vf_assert(t, "ambiguous division is rejected"); }
    } else if (op == 6) {   // minus a vector, powers
        M* m = mk(r, c, a); long ax = vf_concrete(vf_int("axis", 0, 1)); size_t len = ax == 0 ? c : r;
        if (r != c || ax == 1) { V v = vals(len, "v"); M* s = *m - v; V w(a); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) w[i * c + j] -= v[ax == 0 ? j : i]; same(s, r, c, w, "minus a vector"); same(m, r, c, a, "operands unchanged"); if (r != c) vf_cover("rectangular minus a vector"); }
        M* p = mk(r, c, a); p->pow_eq(2); for (size_t i = 0; i < r * c; i++) vf_assert(vf_near(p->as_pointer()[i], a[i] * a[i]), "square of every element");
    } else {                // incompatible shapes of vectors are rejected
        size_t len = dim("len", R + C, 0); vf_assume(len != r && len != c); V v(len + 1, 1.0); v.resize(len); M* m = mk(r, c, a); int n = 0;
        try { *m /= v; } catch (std::exception&) { n++; } try { m->div_eq(v, 0); } catch (std::exception&) { n++; } try { m->div_eq(v, 1); } catch (std::exception&) { n++; } try { m->div_eq_pow(v, 0, 2); } catch (std::exception&) { n++; }
        if (r != c) { vf_assert(n == 4, "incompatible vectors are rejected"); } else vf_assert(n == 4, "incompatible vectors are rejected");
        same(m, r, c, a, "a rejected operation changes nothing"); vf_cover("incompatible vector");
    }
    vf_cover("done");
}
