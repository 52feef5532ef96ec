// Symbolic value layer of the engine: integers (bit-vectors/Bool), and doubles in
// four symbolic representations (FIX exact fixed-point over bit-vectors, SQRT of a
// FIX, REAL, IEEE FP).
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <boost/multiprecision/cpp_int.hpp>
typedef boost::multiprecision::number<boost::multiprecision::cpp_int_backend<>, boost::multiprecision::et_off> Big;

enum Kind : uint8_t { K_INT, K_FIX, K_SQRT, K_SUM, K_REAL, K_FP, K_AGG };

struct Sym;
struct Val {
    uint64_t c;
    const Sym* s;
    Val() : c(0), s(nullptr) {}
    explicit Val(uint64_t v) : c(v), s(nullptr) {}
    explicit Val(const Sym* p) : c(0), s(p) {}
    bool sym() const { return s != nullptr; }
};
static inline double asD(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
static inline uint64_t fromD(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
static inline float asF(uint64_t c) { float d; uint32_t x = (uint32_t)c; memcpy(&d, &x, 4); return d; }
static inline uint64_t fromF(float d) { uint32_t c; memcpy(&c, &d, 4); return c; }
static inline Val D(double d) { return Val(fromD(d)); }

struct Term { int sign; const Sym* f; };   // sign*sqrt(f), f FIX >= 0

struct Sym {
    Kind kind;
    unsigned w = 0;        // INT: bits (1 = Bool sort); FIX: bv width
    Z3_ast a = nullptr;
    // FIX
    Big lo, hi, den;       // value = a/den, lo <= a <= hi
    const Sym* root = nullptr; // FIX: if value is root*root
    bool neg = false;      // SQRT: sign
    const Sym* arg = nullptr;  // SQRT: FIX argument
    std::vector<Term> terms;   // SUM: sum of terms (+ fix part in arg, may be null)
    std::vector<Val> agg;  // AGG
    uint64_t ulo = 0, uhi = ~0ull; bool hasRange = false; // INT: known unsigned range
};

struct Unsupported { std::string msg; };
struct NeedFork { Z3_ast cond; };
struct NeedEnum { const Sym* s; };

extern Z3_context Z;
Z3_ast keep(Z3_ast a);
Z3_ast zbool(bool b);
Z3_ast znot(Z3_ast a);
Z3_ast zand(Z3_ast a, Z3_ast b);
Z3_ast zor(Z3_ast a, Z3_ast b);
Z3_ast bvconst(const Big& v, unsigned w);

const Sym* mkInt(Z3_ast a, unsigned w);          // a: Bool if w==1 else BV w
Z3_ast intAst(Val v, unsigned w);                // lower to Bool/BV
Val boolVal(Z3_ast a);                           // folds true/false
const Sym* mkFix(Z3_ast a, unsigned w, const Big& lo, const Big& hi, const Big& den);
Val fixOrConst(const Sym* s);

// The executor provides these: decide a condition under the current path
// (may throw NeedFork) / get unique concrete value (may throw NeedEnum)
bool decide(Z3_ast cond);
uint64_t concretizeInt(const Sym* s);
double concretizeNum(const Sym* s);
void addSideConstraint(Z3_ast a);

Val fAdd(Val a, Val b);
Val fSub(Val a, Val b);
Val fMul(Val a, Val b);
Val fDiv(Val a, Val b);
Val fNeg(Val a);
Val fAbs(Val a);
Val fSqrt(Val a);
Val fFloor(Val a, int mode); // 0 floor 1 ceil 2 trunc 3 round(half away)
Val fMinMax(Val a, Val b, bool mx);
Val fSelect(Z3_ast c, Val a, Val b);     // may fork
enum FCmp { FC_FALSE=0, FC_OEQ, FC_OGT, FC_OGE, FC_OLT, FC_OLE, FC_ONE, FC_ORD, FC_UNO, FC_UEQ, FC_UGT, FC_UGE, FC_ULT, FC_ULE, FC_UNE, FC_TRUE };
Val fCmp(unsigned pred, Val a, Val b);   // returns i1
Val intToF(Val v, unsigned w, bool sgn);
Val fToInt(Val v, unsigned w, bool sgn);
Val fUF(const char* name, Val a);        // log/exp...: REAL -> UF, FIX -> concretize
Val fUF2(const char* name, Val a, Val b);
const Sym* toReal(Val v);                // REAL view
const Sym* asFP(Val v);
extern unsigned long g_inexact;          // FIX ops that IEEE would round
extern bool g_trackInexact;
