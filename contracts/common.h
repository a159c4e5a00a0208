// shared vocabulary of the contracts
#pragma once
#include "vc.h"
#include <Eigen/Core>
#include <Eigen/Dense>
// a proof step: proved here, used from here on
#ifdef VC_SYM
#define STEP(text, ...) do { ENSURES(text, (__VA_ARGS__)); REQUIRES(__VA_ARGS__); } while (0)
// an instance of a lemma that a harness of the same file proves for all values
#define INSTANCE(...) REQUIRES(__VA_ARGS__)
#else
#define STEP(...) ((void)0)
#define INSTANCE(...) ((void)0)
#endif
namespace vc {
// x is a whole multiple of p (p > 0); natively up to rounding of terms of size `scale`
inline bool multiple(double x, double p, double scale = 0) {
#ifdef VC_SYM
  return std::floor(x / p) * p == x;
#else
  double r = std::fabs(x - p * std::round(x / p));
  return r <= 1e-3 + 2e-6 * (std::fabs(x) + std::fabs(scale));
#endif
}
inline Eigen::Vector3f v3(const char* n, float lo = -INF, float hi = INF) {
  float x = flt(n, lo, hi), y = flt(n, lo, hi), z = flt(n, lo, hi);
  return Eigen::Vector3f(x, y, z);
}
// v holds n elements of arbitrary content (layout: see vc_sym_array)
template <class V> inline void fill(V& v, const char* name, const char* layout, long n) {
#ifdef VC_SYM
  v.p_ = static_cast<typename V::value_type*>(vc_sym_array(name, sizeof(typename V::value_type), layout, n));
  v.n_ = n;
#else
  v.resize(n);
  vc_havoc_array(name, v.data(), sizeof(typename V::value_type), layout, n);
#endif
}
inline float any(const char* n) { return vc_nd_float_any(n); }
inline double anyd(const char* n) { return vc_nd_double_any(n); }
inline bool same(double a, double b) { return (a == b) | ((a != a) & (b != b)); }   // NaN counts as equal to NaN
inline bool same(const Eigen::Vector3f& a, const Eigen::Vector3f& b) { return same(a.x(), b.x()) & same(a.y(), b.y()) & same(a.z(), b.z()); }
}
