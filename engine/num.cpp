#include "num.h"
#include <cmath>
#include <limits>
#include <unordered_map>
Z3_context Z;
unsigned long g_inexact = 0;
using boost::multiprecision::abs;
using boost::multiprecision::gcd;
using boost::multiprecision::lcm;

Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_ast T_, F_;
Z3_ast zbool(bool b) { if (!T_) { T_ = keep(Z3_mk_true(Z)); F_ = keep(Z3_mk_false(Z)); } return b ? T_ : F_; }
Z3_ast znot(Z3_ast a) {
    if (a == zbool(true)) return zbool(false);
    if (a == zbool(false)) return zbool(true);
    if (Z3_get_ast_kind(Z, a) == Z3_APP_AST) {
        Z3_app ap = Z3_to_app(Z, a);
        if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_NOT) return Z3_get_app_arg(Z, ap, 0);
    }
    return keep(Z3_mk_not(Z, a));
}
Z3_ast zand(Z3_ast a, Z3_ast b) {
    if (a == zbool(false) || b == zbool(false)) return zbool(false);
    if (a == zbool(true)) return b; if (b == zbool(true)) return a;
    if (a == b) return a;
    Z3_ast v[2] = {a, b}; return keep(Z3_mk_and(Z, 2, v));
}
Z3_ast zor(Z3_ast a, Z3_ast b) {
    if (a == zbool(true) || b == zbool(true)) return zbool(true);
    if (a == zbool(false)) return b; if (b == zbool(false)) return a;
    if (a == b) return a;
    Z3_ast v[2] = {a, b}; return keep(Z3_mk_or(Z, 2, v));
}
static Z3_sort bvs(unsigned w) {
    static std::unordered_map<unsigned, Z3_sort> m;
    auto it = m.find(w); if (it != m.end()) return it->second;
    Z3_sort s = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); return m[w] = s;
}
Z3_ast bvconst(const Big& v, unsigned w) {
    Big m = v;
    if (m < 0) m += (Big(1) << w);
    return keep(Z3_mk_numeral(Z, m.str().c_str(), bvs(w)));
}
static Z3_sort realS() { static Z3_sort s; if (!s) { s = Z3_mk_real_sort(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); } return s; }
static Z3_sort fpS() { static Z3_sort s; if (!s) { s = Z3_mk_fpa_sort_double(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); } return s; }
static Z3_ast rne() { static Z3_ast a; if (!a) a = keep(Z3_mk_fpa_round_nearest_ties_to_even(Z)); return a; }

const Sym* mkInt(Z3_ast a, unsigned w) { Sym* s = new Sym; s->kind = K_INT; s->a = a; s->w = w; return s; }
Z3_ast intAst(Val v, unsigned w) {
    if (v.s) {
        if (v.s->kind != K_INT) {
            if (v.s->kind == K_FP && w == 64) return keep(Z3_mk_fpa_to_ieee_bv(Z, v.s->a));
            throw Unsupported{"integer operation on the bits of a symbolic double"};
        }
        if (v.s->w != w) throw Unsupported{"width mismatch in integer operation"};
        return v.s->a;
    }
    if (w == 1) return zbool(v.c & 1);
    return keep(Z3_mk_unsigned_int64(Z, v.c, bvs(w)));
}
Val boolVal(Z3_ast a) {
    if (a == zbool(true)) return Val((uint64_t)1);
    if (a == zbool(false)) return Val((uint64_t)0);
    return Val(mkInt(a, 1));
}
// ---------------------------------------------------------------- FIX
static unsigned bitsFor(const Big& lo, const Big& hi) {
    // signed width
    Big m = hi; Big n = lo < 0 ? -lo - 1 : Big(0);
    if (m < 0) m = 0;
    unsigned b = 1;
    if (m > 0) b = std::max(b, (unsigned)msb(m) + 2);
    if (n > 0) b = std::max(b, (unsigned)msb(n) + 2);
    if (lo < 0 && b < 1) b = 1;
    return std::max(b, 2u);
}
const Sym* mkFix(Z3_ast a, unsigned w, const Big& lo, const Big& hi, const Big& den) {
    Sym* s = new Sym; s->kind = K_FIX; s->a = a; s->w = w; s->lo = lo; s->hi = hi; s->den = den; return s;
}
static Z3_ast sx(Z3_ast a, unsigned from, unsigned to) {
    if (to == from) return a;
    if (to < from) return keep(Z3_mk_extract(Z, to - 1, 0, a));
    return keep(Z3_mk_sign_ext(Z, to - from, a));
}
static Z3_ast resize(const Sym* s, unsigned w) { return sx(s->a, s->w, w); }
static bool ratOf(double d, Big& num, Big& den) {
    if (!std::isfinite(d)) return false;
    int e; double m = frexp(d, &e);
    int64_t mi = (int64_t)ldexp(m, 53); e -= 53;
    num = mi; den = 1;
    if (mi == 0) return true;
    while (!(mi & 1)) { mi >>= 1; e++; }
    num = mi;
    if (e >= 0) num <<= e; else den <<= -e;
    return true;
}
double ratToD(const Big& n, const Big& d) {
    Big g = gcd(abs(n), d); Big nn = g == 0 ? n : n / g, dd = g == 0 ? d : d / g;
    if (abs(nn) < (Big(1) << 53) && dd < (Big(1) << 53)) return nn.convert_to<double>() / dd.convert_to<double>();
    // correctly rounded-ish big division
    Big a = abs(nn);
    if (a == 0) return 0;
    int sh = (int)msb(a) - (int)msb(dd); int k = 62 - sh; // scale so that quotient has ~63 bits
    Big q = k >= 0 ? (a << k) / dd : a / (dd << -k);
    double r = ldexp(q.convert_to<double>(), -k);
    return nn < 0 ? -r : r;
}
Val fixOrConst(const Sym* s) {
    if (s->lo == s->hi) {
        double d = ratToD(s->lo, s->den);
        Big n, de; ratOf(d, n, de);
        if (n * s->den == s->lo * de) return D(d);
    }
    return Val(s);
}
static const Sym* constFix(double d) {
    Big n, de; if (!ratOf(d, n, de)) throw Unsupported{"non-finite constant in FIX arithmetic"};
    unsigned w = bitsFor(n, n);
    return mkFix(bvconst(n, w), w, n, n, de);
}
static const Sym* asFix(Val v) { if (!v.s) return constFix(asD(v.c)); if (v.s->kind == K_FIX) return v.s; throw Unsupported{"expected FIX value"}; }
static bool isConst(const Sym* s) { return s->lo == s->hi; }
static Z3_ast scaleAst(const Sym* s, const Big& f, const Big& lo, const Big& hi, unsigned w) {
    // s->a * f in width w (w large enough)
    if (f == 1) return resize(s, w);
    if (isConst(s)) return bvconst(s->lo * f, w);
    // power of two -> shift via concat
    Z3_ast v = keep(Z3_mk_bvmul(Z, resize(s, w), bvconst(f, w)));
    return v;
}
static const Sym* fixAdd(const Sym* x, const Sym* y, bool sub) {
    Big L = lcm(x->den, y->den); Big fx = L / x->den, fy = L / y->den;
    Big xl = x->lo * fx, xh = x->hi * fx, yl = y->lo * fy, yh = y->hi * fy;
    Big lo = sub ? xl - yh : xl + yl, hi = sub ? xh - yl : xh + yh;
    unsigned w = std::max(bitsFor(lo, hi), std::max(bitsFor(xl, xh), bitsFor(yl, yh)));
    Z3_ast a = scaleAst(x, fx, xl, xh, w), b = scaleAst(y, fy, yl, yh, w);
    Z3_ast r;
    if (isConst(x) && isConst(y)) r = bvconst(lo, w);
    else r = keep(sub ? Z3_mk_bvsub(Z, a, b) : Z3_mk_bvadd(Z, a, b));
    unsigned w2 = bitsFor(lo, hi);
    return mkFix(sx(r, w, w2), w2, lo, hi, L);
}
static const Sym* fixNeg(const Sym* x) {
    Big lo = -x->hi, hi = -x->lo; unsigned w = bitsFor(lo, hi); unsigned W = std::max(w, x->w);
    return mkFix(sx(keep(Z3_mk_bvneg(Z, resize(x, W))), W, w), w, lo, hi, x->den);
}
static const Sym* fixMulC(const Sym* x, Big n, Big d) { // x * n/d, d>0
    if (n == 0) return mkFix(bvconst(0, 2), 2, 0, 0, 1);
    Big g = gcd(abs(n), d); n /= g; d /= g;
    g = gcd(abs(n), x->den); n /= g; Big xd = x->den / g;
    Big lo = n > 0 ? x->lo * n : x->hi * n, hi = n > 0 ? x->hi * n : x->lo * n;
    unsigned w = std::max(bitsFor(lo, hi), std::max(x->w, bitsFor(n, n)));
    Z3_ast a = (n == 1) ? resize(x, w) : (n == -1 ? keep(Z3_mk_bvneg(Z, resize(x, w))) : keep(Z3_mk_bvmul(Z, resize(x, w), bvconst(n, w))));
    unsigned w2 = bitsFor(lo, hi);
    Sym* r = (Sym*)mkFix(sx(a, w, w2), w2, lo, hi, xd * d);
    return r;
}
static const Sym* fixMul(const Sym* x, const Sym* y) {
    if (isConst(y)) return fixMulC(x, y->lo, y->den);
    if (isConst(x)) return fixMulC(y, x->lo, x->den);
    bool same = x->a == y->a && x->den == y->den;
    Big c[4] = {x->lo * y->lo, x->lo * y->hi, x->hi * y->lo, x->hi * y->hi};
    Big lo = c[0], hi = c[0];
    for (int i = 1; i < 4; i++) { if (c[i] < lo) lo = c[i]; if (c[i] > hi) hi = c[i]; }
    if (same && lo < 0) lo = 0;
    unsigned w = std::max(bitsFor(lo, hi), std::max(x->w, y->w));
    if (same) w = std::max(w, bitsFor(Big(0), hi));
    Z3_ast a = keep(Z3_mk_bvmul(Z, resize(x, w), resize(y, w)));
    Sym* r = (Sym*)mkFix(a, w, lo, hi, x->den * y->den);
    if (same) r->root = x;
    return r;
}
static Z3_ast fixLe0(const Sym* x, bool strict) { // x <= 0 / x < 0
    if (strict) { if (x->hi < 0) return zbool(true); if (x->lo >= 0) return zbool(false); return keep(Z3_mk_bvslt(Z, x->a, bvconst(0, x->w))); }
    if (x->hi <= 0) return zbool(true); if (x->lo > 0) return zbool(false);
    return keep(Z3_mk_bvsle(Z, x->a, bvconst(0, x->w)));
}
enum { LT, LE, EQ };
static Z3_ast fixCmp(const Sym* x, const Sym* y, int op) {
    Big L = lcm(x->den, y->den); Big fx = L / x->den, fy = L / y->den;
    Big xl = x->lo * fx, xh = x->hi * fx, yl = y->lo * fy, yh = y->hi * fy;
    if (op == LT) { if (xh < yl) return zbool(true); if (xl >= yh) return zbool(false); }
    if (op == LE) { if (xh <= yl) return zbool(true); if (xl > yh) return zbool(false); }
    if (op == EQ) { if (xh < yl || xl > yh) return zbool(false); if (xl == xh && yl == yh && xl == yl) return zbool(true); }
    if (x->a == y->a && x->den == y->den) return zbool(op != LT);
    auto fl = [](const Big& p, const Big& r) { Big q = p / r; if (q * r > p) q -= 1; return q; };
    if (isConst(y) && !isConst(x)) { // x.a op y*x.den, rounded to the grid of x
        Big n = y->lo * x->den, q = fl(n, y->den); bool ex = q * y->den == n;
        if (op == EQ) return ex ? keep(Z3_mk_eq(Z, x->a, bvconst(q, x->w))) : zbool(false);
        if (op == LT && ex) q -= 1;                      // x < q  <=>  x <= q-1 ; x < non-grid <=> x <= floor
        return keep(Z3_mk_bvsle(Z, x->a, bvconst(q, x->w)));
    }
    if (isConst(x) && !isConst(y)) { // const op y  <=>  y >= ceil(const)
        Big n = x->lo * y->den, q = -fl(-n, x->den); bool ex = q * x->den == n;
        if (op == EQ) return ex ? keep(Z3_mk_eq(Z, y->a, bvconst(q, y->w))) : zbool(false);
        if (op == LT && ex) q += 1;
        return keep(Z3_mk_bvsge(Z, y->a, bvconst(q, y->w)));
    }
    unsigned w = std::max(bitsFor(xl, xh), bitsFor(yl, yh));
    Z3_ast a = scaleAst(x, fx, xl, xh, w), b = scaleAst(y, fy, yl, yh, w);
    if (op == LT) return keep(Z3_mk_bvslt(Z, a, b));
    if (op == LE) return keep(Z3_mk_bvsle(Z, a, b));
    return keep(Z3_mk_eq(Z, a, b));
}
static const Sym* fixAbs(const Sym* x) {
    if (x->lo >= 0) return x;
    if (x->hi <= 0) return fixNeg(x);
    Big hi = std::max(Big(-x->lo), x->hi);
    unsigned w = std::max(bitsFor(Big(0), hi), x->w);
    Z3_ast a = resize(x, w);
    Z3_ast r = keep(Z3_mk_ite(Z, keep(Z3_mk_bvslt(Z, a, bvconst(0, w))), keep(Z3_mk_bvneg(Z, a)), a));
    unsigned w2 = bitsFor(Big(0), hi);
    return mkFix(sx(r, w, w2), w2, 0, hi, x->den);
}
static const Sym* mkSqrt(const Sym* f, bool neg) {
    Sym* s = new Sym; s->kind = K_SQRT; s->arg = f; s->neg = neg; return s;
}
static const Sym* mkAggSum(std::vector<Term> t, const Sym* fix) {
    Sym* s = new Sym; s->kind = K_SUM; s->terms = t; s->arg = fix; return s;
}
// view as sum of terms
static void sumView(Val v, int sign, std::vector<Term>& t, const Sym*& fix) {
    auto addFix = [&](const Sym* f) { const Sym* g = sign < 0 ? fixNeg(f) : f; fix = fix ? fixAdd(fix, g, false) : g; };
    if (!v.s) { if (asD(v.c) != 0) addFix(constFix(asD(v.c))); return; }
    switch (v.s->kind) {
        case K_FIX: addFix(v.s); break;
        case K_SQRT: t.push_back(Term{(v.s->neg ? -1 : 1) * sign, v.s->arg}); break;
        case K_SUM: for (auto& x : v.s->terms) t.push_back(Term{x.sign * sign, x.f}); if (v.s->arg) addFix(v.s->arg); break;
        default: throw Unsupported{"mixing symbolic number kinds"};
    }
}
static Val mkSumVal(std::vector<Term>& t, const Sym* fix) {
    // cancel identical opposite terms, merge identical ones (c*sqrt(a)+c*sqrt(a) = sqrt(4a))
    for (size_t i = 0; i < t.size(); i++)
        for (size_t j = i + 1; j < t.size(); j++)
            if (t[i].f->a == t[j].f->a && t[i].f->den == t[j].f->den) {
                if (t[i].sign != t[j].sign) { t.erase(t.begin() + j); t.erase(t.begin() + i); i = (size_t)-1; break; }
                t[i].f = fixMulC(t[i].f, 4, 1); t.erase(t.begin() + j); i = (size_t)-1; break;
            }
    if (t.empty()) return fix ? fixOrConst(fix) : D(0.0);
    if (t.size() == 1 && !fix) return Val(mkSqrt(t[0].f, t[0].sign < 0));
    return Val(mkAggSum(t, fix));
}
static const Sym* ZF() { static const Sym* z = constFix(0); return z; }
// F + sqrt(p) <= sqrt(q)   (p,q >= 0, F signed)      strict: <
static Z3_ast le3(const Sym* F, const Sym* p, const Sym* q, bool strict) {
    const Sym* F2 = fixMul(F, F);
    int LEs = strict ? LT : LE;
    // F >= 0 case
    const Sym* r = fixAdd(fixAdd(q, F2, true), p, true);           // q - F^2 - p
    const Sym* l = fixMulC(fixMul(F2, p), 4, 1);                   // 4F^2 p
    Z3_ast c1 = zand(strict ? fixCmp(ZF(), r, LT) : fixCmp(ZF(), r, LE), fixCmp(l, fixMul(r, r), LEs));
    // F < 0: sqrt p <= sqrt q + |F|  <=> p - q - F^2 <= 2|F| sqrt q
    const Sym* s = fixAdd(fixAdd(p, q, true), F2, true);
    const Sym* m = fixMulC(fixMul(F2, q), 4, 1);
    Z3_ast c2 = zor(fixLe0(s, true), fixCmp(fixMul(s, s), m, LEs));
    if (!strict) c2 = zor(fixLe0(s, false), fixCmp(fixMul(s, s), m, LE));
    Z3_ast neg = fixLe0(F, true);
    return zor(zand(neg, c2), zand(znot(neg), c1));
}
// sum <= 0 (or < 0)
static Z3_ast sumLe0(std::vector<Term> t, const Sym* fix, bool strict) {
    Val nv = mkSumVal(t, fix);
    t.clear(); fix = nullptr; sumView(nv, 1, t, fix);
    std::vector<const Sym*> P, N;
    for (auto& x : t) (x.sign > 0 ? P : N).push_back(x.f);
    if (t.empty()) return fixLe0(fix ? fix : ZF(), strict);
    const Sym* F = fix ? fix : ZF();
    if (P.size() == 1 && N.size() == 0) { // F + sqrt p <= 0  <=> F<=0 && p <= F^2
        return zand(fixLe0(F, strict), fixCmp(P[0], fixMul(F, F), strict ? LT : LE));
    }
    if (P.size() == 0 && N.size() == 1) { // F <= sqrt n
        return zor(fixLe0(F, true), zor(strict ? zbool(false) : fixLe0(F, false), fixCmp(fixMul(F, F), N[0], strict ? LT : LE)));
    }
    if (P.size() == 1 && N.size() == 1) return le3(F, P[0], N[0], strict);
    if (P.size() == 2 && N.size() == 0 && fix == nullptr) return strict ? zbool(false) : zand(fixLe0(P[0], false), fixLe0(P[1], false));
    if (P.size() == 0 && N.size() == 2 && fix == nullptr) return strict ? znot(zand(fixLe0(N[0], false), fixLe0(N[1], false))) : zbool(true);
    if (P.size() == 2 && N.size() == 1 && !fix) { // sqrt a + sqrt b <= sqrt c
        const Sym* r = fixAdd(fixAdd(N[0], P[0], true), P[1], true);
        const Sym* l = fixMulC(fixMul(P[0], P[1]), 4, 1);
        return zand(znot(fixLe0(r, true)), strict ? zand(znot(fixLe0(r, false)), fixCmp(l, fixMul(r, r), LT)) : fixCmp(l, fixMul(r, r), LE));
    }
    if (P.size() == 1 && N.size() == 2 && !fix) { // sqrt c <= sqrt a + sqrt b <=> !(sqrt a + sqrt b < sqrt c)
        std::vector<Term> u = {{1, N[0]}, {1, N[1]}, {-1, P[0]}};
        return znot(sumLe0(u, nullptr, !strict));
    }
    if (P.size() == 2 && N.size() == 2 && !fix) {
        // a+b-c-d + 2 sqrt(ab) <= 2 sqrt(cd)
        const Sym* FF = fixAdd(fixAdd(P[0], P[1], false), fixAdd(N[0], N[1], false), true);
        return le3(FF, fixMulC(fixMul(P[0], P[1]), 4, 1), fixMulC(fixMul(N[0], N[1]), 4, 1), strict);
    }
    if (P.size() == 2 && N.size() == 0) { // F + sqrt a + sqrt b <= 0 <=> F<=0, a+b+2sqrt(ab) <= F^2
        const Sym* r = fixAdd(fixAdd(fixMul(F, F), P[0], true), P[1], true);
        const Sym* l = fixMulC(fixMul(P[0], P[1]), 4, 1);
        return zand(fixLe0(F, strict), zand(znot(fixLe0(r, true)), strict ? zand(znot(fixLe0(r, false)), fixCmp(l, fixMul(r, r), LT)) : fixCmp(l, fixMul(r, r), LE)));
    }
    if (P.size() == 0 && N.size() == 2) { // F <= sqrt a + sqrt b <=> !( -F + sqrt a + sqrt b < 0)
        std::vector<Term> u = {{1, N[0]}, {1, N[1]}};
        return znot(sumLe0(u, fixNeg(F), !strict));
    }
    throw Unsupported{"comparison over more than 4 square roots"};
}

// ---------------------------------------------------------------- REAL / FP
const Sym* mkReal(Z3_ast a) { Sym* s = new Sym; s->kind = K_REAL; s->a = a; return s; }
const Sym* mkFP(Z3_ast a) { Sym* s = new Sym; s->kind = K_FP; s->a = a; return s; }
const Sym* toReal(Val v) {
    if (v.s) { if (v.s->kind == K_REAL) return v.s; throw Unsupported{"mixing REAL with other symbolic kind"}; }
    Big n, d; if (!ratOf(asD(v.c), n, d)) throw Unsupported{"non-finite constant in REAL arithmetic"};
    std::string t = n.str() + "/" + d.str();
    return mkReal(keep(Z3_mk_numeral(Z, t.c_str(), realS())));
}
const Sym* asFP(Val v) {
    if (v.s) { if (v.s->kind == K_FP) return v.s;
        if (v.s->kind == K_INT && v.s->w == 64) return mkFP(keep(Z3_mk_fpa_to_fp_bv(Z, v.s->a, fpS())));
        throw Unsupported{"mixing FP with other symbolic kind"}; }
    return mkFP(keep(Z3_mk_fpa_to_fp_bv(Z, keep(Z3_mk_unsigned_int64(Z, v.c, bvs(64))), fpS())));
}
static Kind kindOf(Val a, Val b) {
    Kind k = a.s ? a.s->kind : b.s->kind;
    if (a.s && b.s && a.s->kind != b.s->kind) {
        auto fx = [](Kind q) { return q == K_FIX || q == K_SQRT || q == K_SUM; };
        if (fx(a.s->kind) && fx(b.s->kind)) return K_SUM;
        if (a.s->kind == K_INT) return b.s->kind; if (b.s->kind == K_INT) return a.s->kind;
        throw Unsupported{"mixing symbolic number kinds"};
    }
    return k;
}
// a constant that is not on a coarse grid (an already rounded result): continue in IEEE arithmetic on every feasible value
static bool offGrid(const Big& n, const Big& d) { Big a = abs(n); return d > (Big(1) << 24) || a > (Big(1) << 40); }
static bool wide(const Sym* s) { return s->kind == K_FIX && (s->w > 62 || s->den > (Big(1) << 40)); }
static bool offC(Val v) { if (v.s) return false; double x = asD(v.c); if (!std::isfinite(x) || x == 0) return false; Big n, d; ratOf(x, n, d); return offGrid(n, d); }
double concretizeNum(const Sym* s);
static double cnum(Val v) { return v.s ? concretizeNum(v.s) : asD(v.c); }
static bool fxk(Kind k) { return k == K_FIX || k == K_SQRT || k == K_SUM; }
static bool finite(Val v) { return v.s || std::isfinite(asD(v.c)); }
static Val chk(const Sym* s) { return fixOrConst(s); }

Val fAdd(Val a, Val b) {
    if (!a.s && !b.s) return D(asD(a.c) + asD(b.c));
    Kind k = kindOf(a, b);
    if (k == K_FP) return Val(mkFP(keep(Z3_mk_fpa_add(Z, rne(), asFP(a)->a, asFP(b)->a))));
    if (!finite(a)) return a; if (!finite(b)) return b;
    if (!a.s && asD(a.c) == 0) return b;
    if (!b.s && asD(b.c) == 0) return a;
    if (k == K_REAL) { Z3_ast v[2] = {toReal(a)->a, toReal(b)->a}; return Val(mkReal(keep(Z3_mk_add(Z, 2, v)))); }
    if (fxk(k) && (offC(a) || offC(b))) return D(cnum(a) + cnum(b));
    if (k == K_FIX) { const Sym* r = fixAdd(asFix(a), asFix(b), false); if (wide(r)) return D(cnum(a) + cnum(b)); return chk(r); }
    if (k == K_INT) throw Unsupported{"double arithmetic on symbolic integer bits"};
    std::vector<Term> t; const Sym* f = nullptr; sumView(a, 1, t, f); sumView(b, 1, t, f);
    return mkSumVal(t, f);
}
Val fSub(Val a, Val b) {
    if (!a.s && !b.s) return D(asD(a.c) - asD(b.c));
    Kind k = kindOf(a, b);
    if (k == K_FP) return Val(mkFP(keep(Z3_mk_fpa_sub(Z, rne(), asFP(a)->a, asFP(b)->a))));
    if (!finite(a)) return a; if (!finite(b)) return D(-asD(b.c));
    if (!b.s && asD(b.c) == 0) return a;
    if (a.s && b.s && a.s == b.s) return D(0.0);
    if (k == K_REAL) { Z3_ast v[2] = {toReal(a)->a, toReal(b)->a}; return Val(mkReal(keep(Z3_mk_sub(Z, 2, v)))); }
    if (fxk(k) && (offC(a) || offC(b))) return D(cnum(a) - cnum(b));
    if (k == K_FIX) { const Sym* r = fixAdd(asFix(a), asFix(b), true); if (wide(r)) return D(cnum(a) - cnum(b)); return chk(r); }
    if (k == K_INT) throw Unsupported{"double arithmetic on symbolic integer bits"};
    std::vector<Term> t; const Sym* f = nullptr; sumView(a, 1, t, f); sumView(b, -1, t, f);
    return mkSumVal(t, f);
}
static Val scaleC(Val a, const Big& n, const Big& d) { // a * n/d for FIX/SQRT/SUM
    const Sym* s = a.s;
    if (n == 0) return D(0.0);
    if (s->kind == K_FIX) return chk(fixMulC(s, n, d));
    if (s->kind == K_SQRT) return Val(mkSqrt(fixMulC(s->arg, n * n, d * d), s->neg != (n < 0)));
    std::vector<Term> t; const Sym* f = nullptr; sumView(a, 1, t, f);
    for (auto& x : t) { x.f = fixMulC(x.f, n * n, d * d); if (n < 0) x.sign = -x.sign; }
    if (f) f = fixMulC(f, n, d);
    return mkSumVal(t, f);
}
Val fMul(Val a, Val b) {
    if (!a.s && !b.s) return D(asD(a.c) * asD(b.c));
    Kind k = kindOf(a, b);
    if (k == K_FP) return Val(mkFP(keep(Z3_mk_fpa_mul(Z, rne(), asFP(a)->a, asFP(b)->a))));
    if (k == K_REAL) {
        if ((!a.s && asD(a.c) == 0) || (!b.s && asD(b.c) == 0)) return D(0.0);
        if (!a.s && asD(a.c) == 1) return b; if (!b.s && asD(b.c) == 1) return a;
        Z3_ast v[2] = {toReal(a)->a, toReal(b)->a}; return Val(mkReal(keep(Z3_mk_mul(Z, 2, v)))); }
    if (k == K_INT) throw Unsupported{"double arithmetic on symbolic integer bits"};
    if (!finite(a) || !finite(b)) throw Unsupported{"FIX * non-finite"};
    if (fxk(k) && (offC(a) || offC(b))) { if (!b.s && asD(b.c) == 0) return D(0.0); return D(cnum(a) * cnum(b)); }
    if (!b.s) { Big n, d; ratOf(asD(b.c), n, d); return scaleC(a, n, d); }
    if (!a.s) { Big n, d; ratOf(asD(a.c), n, d); return scaleC(b, n, d); }
    if (k == K_FIX) { const Sym* r = fixMul(a.s, b.s); if (wide(r)) return D(cnum(a) * cnum(b)); return chk(r); }
    if (a.s->kind == K_SQRT && b.s->kind == K_SQRT) {
        if (a.s->arg->a == b.s->arg->a && a.s->arg->den == b.s->arg->den) return chk(a.s->neg == b.s->neg ? a.s->arg : fixNeg(a.s->arg));
        return Val(mkSqrt(fixMul(a.s->arg, b.s->arg), a.s->neg != b.s->neg));
    }
    const Sym* S = nullptr; const Sym* F = nullptr;
    if (a.s->kind == K_SQRT && b.s->kind == K_FIX) S = a.s, F = b.s;
    if (b.s->kind == K_SQRT && a.s->kind == K_FIX) S = b.s, F = a.s;
    if (S) { // sign of F must be known
        Z3_ast neg = fixLe0(F, true);
        bool n = decide(neg);
        return Val(mkSqrt(fixMul(S->arg, fixMul(F, F)), S->neg != n));
    }
    throw Unsupported{"product of sums of square roots"};
}
Val fDiv(Val a, Val b) {
    if (!a.s && !b.s) return D(asD(a.c) / asD(b.c));
    Kind k = kindOf(a, b);
    if (k == K_FP) return Val(mkFP(keep(Z3_mk_fpa_div(Z, rne(), asFP(a)->a, asFP(b)->a))));
    if (k == K_INT) throw Unsupported{"double arithmetic on symbolic integer bits"};
    if (!b.s) {
        double d = asD(b.c);
        if (std::isnan(d)) return b;
        if (std::isinf(d)) return D(0.0);
        if (d == 0) { // sign of a decides
            if (k == K_REAL || k == K_FIX || k == K_SQRT || k == K_SUM) {
                Val z = fCmp(FC_OEQ, a, D(0)); Val n = fCmp(FC_OLT, a, D(0));
                if (z.s ? decide(z.s->a) : z.c) return D(NAN);
                bool neg = (n.s ? decide(n.s->a) : n.c); if (std::signbit(d)) neg = !neg;
                return D(neg ? -INFINITY : INFINITY);
            }
        }
        if (d == 1) return a;
        if (k == K_REAL) return Val(mkReal(keep(Z3_mk_div(Z, toReal(a)->a, toReal(b)->a))));
        Big n, de; ratOf(d, n, de);
        if (n < 0) { n = -n; de = -de; }
        g_inexact++;
        if (fxk(k) && (offC(b) || offGrid(de, n))) return D(cnum(a) / d);
        return scaleC(a, de, n);
    }
    if (k == K_REAL) {
        Val z = fCmp(FC_OEQ, b, D(0));
        if (z.s ? decide(z.s->a) : z.c) return fDiv(a, D(0));
        if (!finite(a)) throw Unsupported{"inf / REAL"};
        return Val(mkReal(keep(Z3_mk_div(Z, toReal(a)->a, b.s->a))));
    }
    if (b.s->kind == K_SQRT) {
        if (a.s && a.s->kind == K_SQRT) {
            if (a.s->arg->a == b.s->arg->a && a.s->arg->den == b.s->arg->den) {
                Val z = fCmp(FC_OEQ, b, D(0));
                if (z.s ? decide(z.s->a) : z.c) return D(NAN);
                return D(a.s->neg == b.s->neg ? 1.0 : -1.0);
            }
        }
        double d = concretizeNum(b.s->arg); // sqrt argument concretised
        return fDiv(a, D(b.s->neg ? -std::sqrt(d) : std::sqrt(d)));
    }
    if (b.s->kind == K_FIX && a.s == b.s) {
        Val z = fCmp(FC_OEQ, b, D(0));
        if (z.s ? decide(z.s->a) : z.c) return D(NAN);
        return D(1.0);
    }
    double d = concretizeNum(b.s);
    return fDiv(a, D(d));
}
Val fNeg(Val a) {
    if (!a.s) return D(-asD(a.c));
    switch (a.s->kind) {
        case K_FIX: return chk(fixNeg(a.s));
        case K_REAL: return Val(mkReal(keep(Z3_mk_unary_minus(Z, a.s->a))));
        case K_FP: return Val(mkFP(keep(Z3_mk_fpa_neg(Z, a.s->a))));
        case K_SQRT: case K_SUM: return scaleC(a, -1, 1);
        default: throw Unsupported{"fneg"};
    }
}
Val fAbs(Val a) {
    if (!a.s) return D(std::fabs(asD(a.c)));
    switch (a.s->kind) {
        case K_FIX: return chk(fixAbs(a.s));
        case K_REAL: { Z3_ast z = toReal(D(0))->a; return Val(mkReal(keep(Z3_mk_ite(Z, keep(Z3_mk_lt(Z, a.s->a, z)), keep(Z3_mk_unary_minus(Z, a.s->a)), a.s->a)))); }
        case K_FP: return Val(mkFP(keep(Z3_mk_fpa_abs(Z, a.s->a))));
        case K_SQRT: return Val(mkSqrt(a.s->arg, false));
        case K_SUM: { Val n = fCmp(FC_OLT, a, D(0)); bool neg = n.s ? decide(n.s->a) : n.c; return neg ? fNeg(a) : a; }
        default: throw Unsupported{"fabs"};
    }
}
Val fSqrt(Val a) {
    if (!a.s) return D(std::sqrt(asD(a.c)));
    switch (a.s->kind) {
        case K_FIX: {
            Z3_ast neg = fixLe0(a.s, true);
            if (neg != zbool(false) && decide(neg)) return D(NAN);
            if (a.s->root) return chk(fixAbs(a.s->root));
            if (a.s->lo < 0) { // known non-negative on this path: tighten the interval
                Sym* t = (Sym*)mkFix(a.s->a, a.s->w, 0, a.s->hi, a.s->den); return Val(mkSqrt(t, false)); }
            return Val(mkSqrt(a.s, false));
        }
        case K_REAL: {
            Val n = fCmp(FC_OLT, a, D(0)); if (n.s ? decide(n.s->a) : n.c) return D(NAN);
            static std::unordered_map<Z3_ast, const Sym*> memo;
            auto it = memo.find(a.s->a); const Sym* r;
            if (it != memo.end()) r = it->second;
            else { r = mkReal(keep(Z3_mk_fresh_const(Z, "sqrt", realS()))); memo[a.s->a] = r; }
            Z3_ast m[2] = {r->a, r->a};
            addSideConstraint(zand(keep(Z3_mk_ge(Z, r->a, toReal(D(0))->a)), keep(Z3_mk_eq(Z, keep(Z3_mk_mul(Z, 2, m)), a.s->a))));
            return Val(r);
        }
        case K_FP: return Val(mkFP(keep(Z3_mk_fpa_sqrt(Z, rne(), a.s->a))));
        default: { double d = concretizeNum(a.s); return D(std::sqrt(d)); }
    }
}
Val fFloor(Val a, int mode) {
    if (!a.s) { double d = asD(a.c); return D(mode == 0 ? std::floor(d) : mode == 1 ? std::ceil(d) : mode == 2 ? std::trunc(d) : std::round(d)); }
    if (a.s->kind == K_FIX) {
        const Sym* x = a.s;
        if (x->den == 1) return a;
        if (mode == 1) return fNeg(fFloor(fNeg(a), 0));
        if (mode == 2 || mode == 3) {
            Val n = fCmp(FC_OLT, a, D(0)); bool neg = n.s ? decide(n.s->a) : n.c;
            if (mode == 2) return fFloor(a, neg ? 1 : 0);
            return neg ? fFloor(fSub(a, D(0.5)), 1) : fFloor(fAdd(a, D(0.5)), 0);
        }
        unsigned w = std::max(x->w, bitsFor(Big(0), x->den)) + 1;
        Z3_ast n = resize(x, w), d = bvconst(x->den, w);
        Z3_ast q = keep(Z3_mk_bvsdiv(Z, n, d)); // truncates
        Z3_ast rem = keep(Z3_mk_bvsrem(Z, n, d));
        Z3_ast q2 = keep(Z3_mk_ite(Z, keep(Z3_mk_bvslt(Z, rem, bvconst(0, w))), keep(Z3_mk_bvsub(Z, q, bvconst(1, w))), q));
        auto fl = [](const Big& p, const Big& r) { Big q = p / r; if (q * r > p) q -= 1; return q; };
        Big lo = fl(x->lo, x->den), hi = fl(x->hi, x->den);
        return chk(mkFix(q2, w, lo, hi, 1));
    }
    if (a.s->kind == K_FP) {
        Z3_ast rm = mode == 0 ? Z3_mk_fpa_round_toward_negative(Z) : mode == 1 ? Z3_mk_fpa_round_toward_positive(Z) : mode == 2 ? Z3_mk_fpa_round_toward_zero(Z) : Z3_mk_fpa_round_nearest_ties_to_away(Z);
        return Val(mkFP(keep(Z3_mk_fpa_round_to_integral(Z, rm, a.s->a))));
    }
    double d = concretizeNum(a.s); return fFloor(D(d), mode);
}
static Z3_ast cmpAst(Val a, Val b, int op) { // ordered, neither NaN
    auto inf = [](Val v) { return !v.s && std::isinf(asD(v.c)); };
    if (inf(a) || inf(b)) {
        double x = a.s ? 0 : asD(a.c), y = b.s ? 0 : asD(b.c);
        if (!inf(a)) x = 0; if (!inf(b)) y = 0;
        return zbool(op == LT ? x < y : op == LE ? x <= y : x == y);
    }
    Kind k = kindOf(a, b);
    if (k == K_REAL) {
        Z3_ast x = toReal(a)->a, y = toReal(b)->a;
        return keep(op == LT ? Z3_mk_lt(Z, x, y) : op == LE ? Z3_mk_le(Z, x, y) : Z3_mk_eq(Z, x, y));
    }
    if (k == K_FIX) return fixCmp(asFix(a), asFix(b), op);
    if (k == K_INT) throw Unsupported{"double compare on symbolic integer bits"};
    // SQRT / SUM quick paths: sqrt vs sqrt
    auto hugeC = [](Val v) { return !v.s && std::fabs(asD(v.c)) > 1e150; };
    if (hugeC(a) || hugeC(b)) { // |SQRT| bounded far below
        double x = hugeC(a) ? asD(a.c) : 0, y = hugeC(b) ? asD(b.c) : 0;
        return zbool(op == LT ? x < y : op == LE ? x <= y : x == y);
    }
    if (a.s && b.s && a.s->kind == K_SQRT && b.s->kind == K_SQRT && !a.s->neg && !b.s->neg) return fixCmp(a.s->arg, b.s->arg, op);
    std::vector<Term> t; const Sym* f = nullptr; sumView(a, 1, t, f); sumView(b, -1, t, f);
    if (op == EQ) return zand(sumLe0(t, f, false), znot(sumLe0(t, f, true)));
    return sumLe0(t, f, op == LT);
}
Val fCmp(unsigned p, Val a, Val b) {
    if (!a.s && !b.s) {
        double x = asD(a.c), y = asD(b.c); bool u = std::isnan(x) || std::isnan(y), r = false;
        switch (p) {
            case FC_FALSE: r = false; break; case FC_OEQ: r = !u && x == y; break; case FC_OGT: r = x > y; break;
            case FC_OGE: r = x >= y; break; case FC_OLT: r = x < y; break; case FC_OLE: r = x <= y; break;
            case FC_ONE: r = !u && x != y; break; case FC_ORD: r = !u; break; case FC_UNO: r = u; break;
            case FC_UEQ: r = u || x == y; break; case FC_UGT: r = u || x > y; break; case FC_UGE: r = u || x >= y; break;
            case FC_ULT: r = u || x < y; break; case FC_ULE: r = u || x <= y; break; case FC_UNE: r = u || x != y; break; default: r = true;
        }
        return Val((uint64_t)r);
    }
    if (p == FC_FALSE) return Val((uint64_t)0); if (p == FC_TRUE) return Val((uint64_t)1);
    if (kindOf(a, b) == K_FP) {
        Z3_ast x = asFP(a)->a, y = asFP(b)->a;
        Z3_ast un = zor(keep(Z3_mk_fpa_is_nan(Z, x)), keep(Z3_mk_fpa_is_nan(Z, y))); Z3_ast r;
        switch (p) {
            case FC_OEQ: r = Z3_mk_fpa_eq(Z, x, y); break; case FC_OGT: r = Z3_mk_fpa_gt(Z, x, y); break;
            case FC_OGE: r = Z3_mk_fpa_geq(Z, x, y); break; case FC_OLT: r = Z3_mk_fpa_lt(Z, x, y); break;
            case FC_OLE: r = Z3_mk_fpa_leq(Z, x, y); break;
            case FC_ONE: r = zand(znot(un), znot(keep(Z3_mk_fpa_eq(Z, x, y)))); break;
            case FC_ORD: r = znot(un); break; case FC_UNO: r = un; break;
            case FC_UEQ: r = zor(un, keep(Z3_mk_fpa_eq(Z, x, y))); break; case FC_UGT: r = zor(un, keep(Z3_mk_fpa_gt(Z, x, y))); break;
            case FC_UGE: r = zor(un, keep(Z3_mk_fpa_geq(Z, x, y))); break; case FC_ULT: r = zor(un, keep(Z3_mk_fpa_lt(Z, x, y))); break;
            case FC_ULE: r = zor(un, keep(Z3_mk_fpa_leq(Z, x, y))); break; default: r = znot(keep(Z3_mk_fpa_eq(Z, x, y)));
        }
        return boolVal(keep(r));
    }
    bool nan = (!a.s && std::isnan(asD(a.c))) || (!b.s && std::isnan(asD(b.c)));
    if (nan) return Val((uint64_t)(p >= FC_UNO));
    switch (p) {
        case FC_ORD: return Val((uint64_t)1); case FC_UNO: return Val((uint64_t)0);
        case FC_OEQ: case FC_UEQ: return boolVal(cmpAst(a, b, EQ));
        case FC_ONE: case FC_UNE: return boolVal(znot(cmpAst(a, b, EQ)));
        case FC_OLT: case FC_ULT: return boolVal(cmpAst(a, b, LT));
        case FC_OLE: case FC_ULE: return boolVal(cmpAst(a, b, LE));
        case FC_OGT: case FC_UGT: return boolVal(cmpAst(b, a, LT));
        case FC_OGE: case FC_UGE: return boolVal(cmpAst(b, a, LE));
    }
    throw Unsupported{"fcmp"};
}
Val fSelect(Z3_ast c, Val a, Val b) {
    if (a.s == b.s && a.c == b.c) return a;
    if (a.s || b.s) {
        Kind k = kindOf(a, b);
        if (k == K_FP) return Val(mkFP(keep(Z3_mk_ite(Z, c, asFP(a)->a, asFP(b)->a))));
        if (k == K_REAL && finite(a) && finite(b)) return Val(mkReal(keep(Z3_mk_ite(Z, c, toReal(a)->a, toReal(b)->a))));
        auto big = [](Val v) { return !v.s && std::fabs(asD(v.c)) > 1e15; };
        if (k == K_FIX && finite(a) && finite(b) && !big(a) && !big(b)) {
            const Sym *x = asFix(a), *y = asFix(b);
            Big L = lcm(x->den, y->den); Big fx = L / x->den, fy = L / y->den;
            if (msb(L) > 48 && (!a.s || !b.s)) return decide(c) ? a : b;   // a tiny constant would blow up the grid
            Big lo = std::min(Big(x->lo * fx), Big(y->lo * fy)), hi = std::max(Big(x->hi * fx), Big(y->hi * fy));
            unsigned w = bitsFor(lo, hi);
            Z3_ast r = keep(Z3_mk_ite(Z, c, scaleAst(x, fx, lo, hi, w), scaleAst(y, fy, lo, hi, w)));
            return Val(mkFix(r, w, lo, hi, L));
        }
        if (a.s && b.s && a.s->kind == K_SQRT && b.s->kind == K_SQRT && !a.s->neg && !b.s->neg) {
            Val q = fSelect(c, Val(a.s->arg), Val(b.s->arg));
            return Val(mkSqrt(q.s, false));
        }
    } else {
        double x = asD(a.c), y = asD(b.c);
        Big n1, d1, n2, d2;
        if (ratOf(x, n1, d1) && ratOf(y, n2, d2) && std::fabs(x) < 1e9 && std::fabs(y) < 1e9 && d1 <= 1024 && d2 <= 1024 && !(x == 0 && y == 0)) {
            const Sym *p = constFix(x), *q = constFix(y);
            Big L = lcm(d1, d2); Big lo = std::min(Big(p->lo * (L / d1)), Big(q->lo * (L / d2))), hi = std::max(Big(p->lo * (L / d1)), Big(q->lo * (L / d2)));
            unsigned w = bitsFor(lo, hi);
            return Val(mkFix(keep(Z3_mk_ite(Z, c, bvconst(p->lo * (L / d1), w), bvconst(q->lo * (L / d2), w))), w, lo, hi, L));
        }
    }
    return decide(c) ? a : b;
}
Val fMinMax(Val a, Val b, bool mx) {
    if (!a.s && !b.s) return D(mx ? std::fmax(asD(a.c), asD(b.c)) : std::fmin(asD(a.c), asD(b.c)));
    if (!a.s && std::isnan(asD(a.c))) return b; if (!b.s && std::isnan(asD(b.c))) return a;
    Val c = fCmp(FC_OLT, a, b);
    if (!c.s) return (c.c != 0) != mx ? a : b;
    return mx ? fSelect(c.s->a, b, a) : fSelect(c.s->a, a, b);
}
Val intToF(Val v, unsigned w, bool sgn) {
    if (!v.s) {
        if (sgn) { int64_t x = w == 64 ? (int64_t)v.c : ((int64_t)(v.c << (64 - w)) >> (64 - w)); return D((double)x); }
        return D((double)v.c);
    }
    if (w == 1) { Z3_ast r = keep(Z3_mk_ite(Z, v.s->a, bvconst(1, 2), bvconst(0, 2))); const Sym* s = mkFix(r, 2, 0, 1, 1); return sgn ? Val(fixNeg(s)) : Val(s); }
    Big lo, hi;
    if (v.s->hasRange) { lo = v.s->ulo; hi = v.s->uhi; if (sgn && w <= 64 && hi >= (Big(1) << (w - 1))) { lo = -(Big(1) << (w - 1)); hi = (Big(1) << (w - 1)) - 1; } }
    else if (sgn) { lo = -(Big(1) << (w - 1)); hi = (Big(1) << (w - 1)) - 1; }
    else { lo = 0; hi = (Big(1) << w) - 1; }
    if (hi > (Big(1) << 53) || lo < -(Big(1) << 53)) {
        // too wide for exactness: enumerate the feasible values
        uint64_t c = concretizeInt(v.s); return intToF(Val(c), w, sgn);
    }
    unsigned W = bitsFor(lo, hi);
    Z3_ast a = v.s->a;
    if (W > w) a = keep(sgn ? Z3_mk_sign_ext(Z, W - w, a) : Z3_mk_zero_ext(Z, W - w, a));
    else if (W < w) a = keep(Z3_mk_extract(Z, W - 1, 0, a));
    return chk(mkFix(a, W, lo, hi, 1));
}
Val fToInt(Val v, unsigned w, bool sgn) {
    if (!v.s) {
        double d = asD(v.c);
        uint64_t r = sgn ? (uint64_t)(int64_t)d : (d < 0 ? (uint64_t)(int64_t)d : (uint64_t)d);
        if (w < 64) r &= ((1ull << w) - 1);
        return Val(r);
    }
    if (v.s->kind == K_FIX) {
        Val t = fFloor(v, 2);
        if (!t.s) return fToInt(t, w, sgn);
        Z3_ast a = sx(t.s->a, t.s->w, w);
        return Val(mkInt(a, w));
    }
    if (v.s->kind == K_FP) {
        Z3_ast rz = Z3_mk_fpa_round_toward_zero(Z);
        return Val(mkInt(keep(sgn ? Z3_mk_fpa_to_sbv(Z, rz, v.s->a, w) : Z3_mk_fpa_to_ubv(Z, rz, v.s->a, w)), w));
    }
    double d = concretizeNum(v.s); return fToInt(D(d), w, sgn);
}
static double evalUF(const std::string& n, double x) {
    if (n == "log") return std::log(x); if (n == "log2") return std::log2(x); if (n == "log10") return std::log10(x);
    if (n == "exp") return std::exp(x); if (n == "exp2") return std::exp2(x);
    if (n == "erfc") return std::erfc(x); if (n == "erf") return std::erf(x);
    if (n == "sin") return std::sin(x); if (n == "cos") return std::cos(x); if (n == "tan") return std::tan(x);
    if (n == "acos") return std::acos(x); if (n == "asin") return std::asin(x); if (n == "atan") return std::atan(x);
    if (n == "cbrt") return std::cbrt(x); if (n == "lgamma") return std::lgamma(x); if (n == "tgamma") return std::tgamma(x);
    throw Unsupported{"math function " + n};
}
Val fUF(const char* name, Val a) {
    std::string n = name;
    if (!a.s) return D(evalUF(n, asD(a.c)));
    if (a.s->kind == K_REAL) {
        static std::unordered_map<std::string, Z3_func_decl> m;
        auto it = m.find(n); Z3_func_decl f;
        if (it == m.end()) { Z3_sort r = realS(); f = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, ("uf_" + n).c_str()), 1, &r, r); Z3_inc_ref(Z, Z3_func_decl_to_ast(Z, f)); m[n] = f; }
        else f = it->second;
        return Val(mkReal(keep(Z3_mk_app(Z, f, 1, &a.s->a))));
    }
    return D(evalUF(n, concretizeNum(a.s)));
}
Val fUF2(const char* name, Val a, Val b) {
    std::string n = name;
    if (n == "pow") {
        if (!b.s) {
            double e = asD(b.c);
            if (!a.s) return D(std::pow(asD(a.c), e));
            if (e == 0) return D(1.0); if (e == 1) return a; if (e == 2) return fMul(a, a);
            if (e == 0.5) return fSqrt(a);
            if (e == 3) return fMul(a, fMul(a, a)); if (e == 4) { Val q = fMul(a, a); return fMul(q, q); }
            if (e == -1) return fDiv(D(1.0), a);
            if (e == -2) return fDiv(D(1.0), fMul(a, a));
        }
        double x = a.s ? concretizeNum(a.s) : asD(a.c), y = b.s ? concretizeNum(b.s) : asD(b.c);
        return D(std::pow(x, y));
    }
    double x = a.s ? concretizeNum(a.s) : asD(a.c), y = b.s ? concretizeNum(b.s) : asD(b.c);
    if (n == "fmod") return D(std::fmod(x, y)); if (n == "atan2") return D(std::atan2(x, y)); if (n == "hypot") return D(std::hypot(x, y));
    throw Unsupported{"math function " + n};
}
