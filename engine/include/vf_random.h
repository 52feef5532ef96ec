// Random draws become solver-chosen values: every distribution object returns an
// arbitrary value of its documented range (contract stub of libstdc++'s <random>).
#pragma once
#include <random>
#include <vector>
#include "vf.h"
#ifndef VF_RDEN
#define VF_RDEN 8
#endif
// A harness that needs several generators to agree (same seed on every rank) defines
// VF_DRAW_HOOK and supplies these two functions.
#ifdef VF_DRAW_HOOK
extern "C" long vf_draw_int(long a, long b); extern "C" double vf_draw_unit(void);
#else
static inline long vf_draw_int(long a, long b) { return vf_int("draw_int", a, b); }
static inline double vf_draw_unit(void) { return vf_fix("draw_real", 0, VF_RDEN - 1, VF_RDEN); }
#endif
namespace std {
template<class T = int> struct vf_uniform_int_distribution {
    typedef T result_type; T a_, b_;
    explicit vf_uniform_int_distribution(T a = 0, T b = std::numeric_limits<T>::max()) : a_(a), b_(b) { }
    template<class G> T operator()(G&) { return (T)vf_draw_int((long)a_, (long)b_); }
    T a() const { return a_; } T b() const { return b_; } T min() const { return a_; } T max() const { return b_; } void reset() { }
};
template<class T = double> struct vf_uniform_real_distribution {
    typedef T result_type; T a_, b_;
    explicit vf_uniform_real_distribution(T a = 0.0, T b = 1.0) : a_(a), b_(b) { }
    template<class G> T operator()(G&) { return (T)vf_draw_unit() * (b_ - a_) + a_; }
    T a() const { return a_; } T b() const { return b_; } T min() const { return a_; } T max() const { return b_; } void reset() { }
};
struct vf_default_random_engine {
    typedef unsigned long result_type;
    vf_default_random_engine() { } explicit vf_default_random_engine(unsigned long) { } void seed(unsigned long = 1) { }
    static constexpr result_type min() { return 0; } static constexpr result_type max() { return 255; }
    result_type operator()() { return (result_type)vf_int("draw_raw", 0, 255); } void discard(unsigned long long) { }
};
}
#define uniform_int_distribution vf_uniform_int_distribution
#define uniform_real_distribution vf_uniform_real_distribution
#define default_random_engine vf_default_random_engine
