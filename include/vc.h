// Contract language of irvc.  The same contract file is (a) compiled to LLVM IR and verified, with the
// vc_* primitives interpreted by the verifier (VC_SYM), and (b) compiled natively, with the primitives
// drawing concrete values, to replay counterexamples on the real code.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>

#ifdef VC_SYM
#define VC_NOTHROW noexcept
#else
#define VC_NOTHROW
#endif

extern "C" {
float vc_nd_float(const char* name, float lo, float hi) VC_NOTHROW;      // any finite real in [lo,hi]; +-inf = unbounded
double vc_nd_double(const char* name, double lo, double hi) VC_NOTHROW;
float vc_nd_float_any(const char* name) VC_NOTHROW;                      // incl. NaN and infinities
double vc_nd_double_any(const char* name) VC_NOTHROW;
int vc_nd_i32(const char* name, int lo, int hi) VC_NOTHROW;
long vc_nd_i64(const char* name, long lo, long hi) VC_NOTHROW;
bool vc_nd_bool(const char* name) VC_NOTHROW;
void vc_assume(bool c) VC_NOTHROW;
void vc_assert(bool c, const char* label) VC_NOTHROW;
void vc_lemma(bool c, const char* label) VC_NOTHROW;                      // proved, then usable
__attribute__((nomerge)) void vc_cover(bool c, const char* label) VC_NOTHROW;                      // must be reachable (vacuity guard)
void vc_loop_cut(bool inv) VC_NOTHROW;
long vc_iteration() VC_NOTHROW;                                             // in an invariant: completed iterations of its loop; natively -1
void vc_replace(void* real, void* contract) VC_NOTHROW;                   // calls to `real` use `contract`
void vc_replace_named(const char* demangled_regex, void* contract) VC_NOTHROW;
void* vc_sym_array(const char* name, long elem, const char* layout, long n) VC_NOTHROW;
void vc_havoc_array(const char* name, void* p, long elem, const char* layout, long n) VC_NOTHROW;   // arbitrary content
void* vc_alloc_unbounded(long elem, const char* layout) VC_NOTHROW;
void vc_clone_array(void* dst, const void* src) VC_NOTHROW;
float vc_uf1(const char* name, float x) VC_NOTHROW;
float vc_uf2(const char* name, float x, float y) VC_NOTHROW;
float vc_uf3(const char* name, float x, float y, float z) VC_NOTHROW;
float vc_uf4(const char* name, float x, float y, float z, float w) VC_NOTHROW;
int vc_ufi(const char* name, int lo, int hi, int n, ...) VC_NOTHROW;    // uninterpreted integer function of n doubles with values in [lo,hi]
// uninterpreted predicate: a name for a relation that another contract of the file proves to be its definition
bool vc_pred(const char* name, int n, ...) VC_NOTHROW;
bool vc_forall(long lo, long hi, bool (*f)(long, void*), void* ctx) VC_NOTHROW;   // f(k) for every lo <= k < hi
void vc_trace(const char* name, ...) VC_NOTHROW;
}

#define REQUIRES(c) vc_assume(c)
#define ENSURES(label, c) vc_assert((c), label)
#define LEMMA(label, c) vc_lemma((c), label)
#define COVER(label) vc_cover(true, label)
// hook in the code under contract: the invariant of the enclosing loop, defined by the contract file as vcinv_<tag>
#define VC_LOOP_INVARIANT(tag, ...) vchook_##tag(__VA_ARGS__)
#define HARNESS(name) extern "C" void vch_##name()

namespace vc {
const float INF = std::numeric_limits<float>::infinity();
inline float flt(const char* n, float lo = -INF, float hi = INF) { return vc_nd_float(n, lo, hi); }
inline double dbl(const char* n, double lo = -std::numeric_limits<double>::infinity(),
                  double hi = std::numeric_limits<double>::infinity()) { return vc_nd_double(n, lo, hi); }
inline int i32(const char* n, int lo = std::numeric_limits<int>::min(), int hi = std::numeric_limits<int>::max()) {
  return vc_nd_i32(n, lo, hi);
}
inline long i64(const char* n, long lo, long hi) { return vc_nd_i64(n, lo, hi); }
inline bool boolean(const char* n) { return vc_nd_bool(n); }

// Comparisons used in postconditions.  Exact over the reals in the verifier; natively they allow for rounding.
#ifdef VC_SYM
inline bool le(double a, double b) { return a <= b; }
inline bool lt(double a, double b) { return a < b; }
inline bool eq(double a, double b) { return a == b; }
inline bool le(double a, double b, double) { return a <= b; }
inline bool eq(double a, double b, double) { return a == b; }
// equality up to the rounding of constants: |a-b| <= 1e-6*scale
inline bool near(double a, double b, double scale) { return (a - b <= 1e-6 * scale) & (b - a <= 1e-6 * scale); }
#define VC_NATIVE(x) 0
#else
#define VC_NATIVE(x) (x)
inline bool near(double a, double b, double scale) { return std::fabs(a - b) <= 1e-4 + 1e-3 * (std::fabs(a) + std::fabs(b) + std::fabs(scale)); }
inline double tol_(double a, double b) { return 1e-4 + 1e-3 * (std::fabs(a) + std::fabs(b)); }
inline bool le(double a, double b) { return a <= b + tol_(a, b); }   // NaN -> false
inline bool lt(double a, double b) { return a < b + tol_(a, b); }
inline bool eq(double a, double b) { return a == b || std::fabs(a - b) <= tol_(a, b); }
inline bool le(double a, double b, double scale) { return a <= b + tol_(a, b) + 1e-3 * std::fabs(scale); }
inline bool eq(double a, double b, double scale) { return a == b || std::fabs(a - b) <= tol_(a, b) + 1e-3 * std::fabs(scale); }
#endif
// bound used by the verifier / by the native search
#ifdef VC_SYM
inline float pick(float s, float) { return s; }
#else
inline float pick(float, float n) { return n; }
#endif
// f(k) holds for every lo <= k < hi
template <class F> struct fa_ { static bool call(long k, void* c) { return (*static_cast<F*>(c))(k); } };
template <class F> inline bool forall(long lo, long hi, F f) { return vc_forall(lo, hi, &fa_<F>::call, &f); }
inline bool implies(bool a, bool b) { return !a | b; }
inline bool finite(float x) { return std::isfinite(x); }
}  // namespace vc
