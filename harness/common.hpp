// Shared reference oracles for the harnesses.
#pragma once
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <memory>
#include "vf.h"
#include "types.hpp"
#include "util.hpp"
namespace ref {
// With parameter wide=W only every W-th value is left open and the others are fixed pseudo-random values of the same range:
// large shapes stay affordable.
static inline double fixw(const char* nm, long lo, long hi, long den) {
    static long cnt = 0; static unsigned long seed = 2463534242UL; long w = vf_param("wide", 0), q = cnt++;
    if (!w || q % w == w / 2) return vf_fix(nm, lo, hi, den);
    seed = seed * 6364136223846793005UL + 1442695040888963407UL; return (double)(lo + (long)((seed >> 33) % (unsigned long)(hi - lo + 1))) / den;
}
#define vf_fix ref::fixw
typedef std::vector<double> vec;
// Distances written out independently; squared Euclid orders like Euclid.
static inline double sq(const double* a, const double* b, size_t d) { double s = 0; for (size_t i = 0; i < d; i++) { double t = a[i] - b[i]; s += t * t; } return s; }
static inline double l1(const double* a, const double* b, size_t d) { double s = 0; for (size_t i = 0; i < d; i++) s += vf_abs(a[i] - b[i]); return s; }
static inline double dot(const double* a, const double* b, size_t d) { double s = 0; for (size_t i = 0; i < d; i++) s += a[i] * b[i]; return s; }
// strict "b is closer to x than a" in exact arithmetic, for the order-equivalent key
static inline double key(const double* a, const double* b, size_t d, int dt) { return dt == knor::base::dist_t::TAXI ? l1(a, b, d) : sq(a, b, d); }
static inline vec data(size_t n, size_t d, const char* nm = "x") { vec v(n * d); long lo = vf_param("lo", -2), hi = vf_param("hi", 2), den = vf_param("den", 1); for (size_t i = 0; i < n * d; i++) v[i] = vf_fix(nm, lo, hi, den); return v; }
// For cosine: choose unit-friendly vectors whose norms are exact (Pythagorean directions)
static inline bool is_nan(double x) { return x != x; }
}
