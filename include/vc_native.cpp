// Native side of the contract primitives: replay of a verifier model, or random search for a failing input.
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <chrono>
#include <csignal>
#include <unistd.h>
#include "vc.h"

namespace {
struct Vacuous {};
std::map<std::string, std::vector<double>> vals;
std::map<std::string, int> count_;
std::mt19937_64 rng;
bool replay_only = false, perturb = false, sparse = false;
double pool[64]; int npool = 0;
std::vector<std::string> log_;
std::string fail;
bool failed = false;
int mode_ = 0;

std::string nm(const char* n) { int k = count_[n]++; return std::string(n) + "#" + std::to_string(k); }
double u() { return (rng() >> 11) * (1.0 / 9007199254740992.0); }
void note(const std::string& n, double v) { char b[64]; snprintf(b, 64, "%.17g", v); log_.push_back(n + " " + b); }
void remember(double v) { pool[npool++ % 64] = v; }

double rnd(double lo, double hi, bool isint) {
  if (sparse) {   // mostly zeros, bounds and repeated values: coincidences
    int r = rng() % 8;
    double v = r < 4 ? 0 : r < 6 && npool ? (rng() % 4 ? 1 : -1) * pool[rng() % (npool < 64 ? npool : 64)] : r == 6 ? (rng() % 2 ? lo : hi) : std::floor(u() * 9) - 4;
    if (std::isfinite(v) && v >= lo && v <= hi) return isint ? std::floor(v) : v;
  }
  bool bl = std::isfinite(lo), bh = std::isfinite(hi);
  for (int tries = 0; tries < 6; tries++) {
    double v;
    switch (rng() % 10) {
      case 0: v = 0; break;
      case 1: v = (double)(int)(rng() % 7) - 3; break;
      case 2: v = u() * 20 - 10; break;
      case 3: v = u() * 2000 - 1000; break;
      case 4: v = npool ? pool[rng() % (npool < 64 ? npool : 64)] : 1; break;
      case 5: v = npool ? pool[rng() % (npool < 64 ? npool : 64)] + (u() - 0.5) * 0.1 : u(); break;
      case 6: v = bl ? lo : -u() * 5; break;
      case 7: v = bh ? hi : u() * 5; break;
      default: v = (bl && bh) ? lo + u() * (hi - lo) : bl ? lo + u() * 10 : bh ? hi - u() * 10 : (u() - .5) * 10;
    }
    if (isint) v = std::floor(v);
    if (bl && v < lo) continue;
    if (bh && v > hi) continue;
    return v;
  }
  if (bl && bh) { double v = lo + u() * (hi - lo); return isint ? std::floor(v) : v; }
  return bl ? lo : bh ? hi : 0;
}
double draw(const std::string& n, double lo, double hi, bool isint) {
  auto it = vals.find(n);
  double v;
  if (it != vals.end()) {
    v = it->second[0];
    if (perturb && !isint && rng() % 3 == 0) v += (u() - 0.5) * (rng() % 2 ? 1e-3 : 1.0);
    if (perturb && rng() % 12 == 0) v = rnd(lo, hi, isint);
    if (v < lo) v = lo;
    if (v > hi) v = hi;
  } else if (replay_only) {
    v = 0 < lo ? lo : 0 > hi ? hi : 0;
  } else v = rnd(lo, hi, isint);
  remember(v); note(n, v);
  return v;
}
}  // namespace

extern "C" {
float vc_nd_float(const char* n, float lo, float hi) {
  std::string k = nm(n);
  float v = (float)draw(k, lo, hi, false);
  if (v < lo) v = lo; if (v > hi) v = hi;
  return v;
}
double vc_nd_double(const char* n, double lo, double hi) { return draw(nm(n), lo, hi, false); }
static double any1(const std::string& k);
static double any_(const char* n) { return any1(nm(n)); }
static double any1(const std::string& k) {
  if (!vals.count(k) && !replay_only) {
    int r = rng() % 8;
    if (r == 0) { note(k, NAN); return NAN; }
    if (r == 1) { note(k, INFINITY); return rng() % 2 ? INFINITY : -INFINITY; }
  }
  auto it = vals.find(k);
  if (it != vals.end() && !std::isfinite(it->second[0])) { note(k, it->second[0]); return it->second[0]; }
  return draw(k, -INFINITY, INFINITY, false);
}
float vc_nd_float_any(const char* n) { return (float)any_(n); }
double vc_nd_double_any(const char* n) { return any_(n); }
int vc_nd_i32(const char* n, int lo, int hi) { return (int)draw(nm(n), lo, hi, true); }
long vc_nd_i64(const char* n, long lo, long hi) { return (long)draw(nm(n), lo, hi, true); }
bool vc_nd_bool(const char* n) { return draw(nm(n), 0, 1, true) > 0.5; }
void vc_assume(bool c) { if (!c) throw Vacuous(); }
void vc_assert(bool c, const char* l) { if (!c && !failed) { failed = true; fail = l; } }
void vc_lemma(bool c, const char* l) { (void)c; (void)l; }
void vc_cover(bool, const char*) {}
long vc_iteration() { return -1; }
void vc_loop_cut(bool) {}
void vc_replace(void*, void*) {}
void vc_replace_named(const char*, void*) {}
bool vc_pred(const char*, int, ...) { return true; }
void vc_trace(const char*, ...) {}
float vc_uf1(const char*, float x) { return x; }
float vc_uf3(const char*, float x, float, float) { return x; }
float vc_uf4(const char*, float x, float, float, float) { return x; }
int vc_ufi(const char*, int lo, int, int, ...) { return lo; }
float vc_uf2(const char*, float x, float) { return x; }
void* vc_alloc_unbounded(long e, const char*) { return calloc(e, 100000); }
void vc_clone_array(void*, const void*) {}
bool vc_forall(long lo, long hi, bool (*f)(long, void*), void* c) { for (long k = lo; k < hi; k++) if (!f(k, c)) return false; return true; }
void vc_havoc_array(const char* name, void* pp, long es, const char* lay, long n) {
  std::string k = nm(name);
  char* p = (char*)pp;
  std::string s(lay);
  size_t pos = 0;
  while (pos < s.size()) {
    size_t e = s.find(',', pos); if (e == std::string::npos) e = s.size();
    std::string f = s.substr(pos, e - pos); pos = e + 1;
    size_t at = f.find('@'); if (at == std::string::npos) continue;
    std::string t = f.substr(0, at); long off = atol(f.c_str() + at + 1);
    for (long i = 0; i < n; i++) {
      std::string key = k + "[" + std::to_string(i) + "]." + std::to_string(off);
      char* q = p + i * es + off;
      if (t == "f32") { float v = (float)draw(key, -INFINITY, INFINITY, false); memcpy(q, &v, 4); }
      else if (t == "x32") { float v = (float)any1(key); memcpy(q, &v, 4); }
      else if (t == "x64") { double v = any1(key); memcpy(q, &v, 8); }
      else if (t == "f64") { double v = draw(key, -INFINITY, INFINITY, false); memcpy(q, &v, 8); }
      else if (t == "i32") { int v = (int)draw(key, -5, 100, true); memcpy(q, &v, 4); }
      else if (t == "i64") { long v = (long)draw(key, -5, 100, true); memcpy(q, &v, 8); }
      else if (t == "i16") { short v = (short)draw(key, -5, 200, true); memcpy(q, &v, 2); }
      else if (t == "i8") { char v = (char)draw(key, 0, 1, true); memcpy(q, &v, 1); }
    }
  }
}
void* vc_sym_array(const char* name, long es, const char* lay, long n) {
  void* p = calloc(n > 0 ? n : 1, es);
  vc_havoc_array(name, p, es, lay, n);
  return p;
}
void __assert_fail(const char* a, const char* f, unsigned l, const char*) noexcept(false) {
  if (!failed) { failed = true; fail = std::string("assertion: ") + a + " at " + f + ":" + std::to_string(l); }
  throw Vacuous();
}
}

static void dump(const char* path) {
  FILE* f = fopen(path, "w"); if (!f) return;
  for (auto& s : log_) fprintf(f, "%s\n", s.c_str());
  fclose(f);
}
static const char* outp = "/dev/null";
static void on_sig(int sig) {
  // crash (sanitizer abort, segfault) is a failure too
  fprintf(stdout, "VC_FAIL crash signal %d\n", sig); fflush(stdout); dump(outp); _exit(1);
}
extern "C" void __asan_on_error() { fprintf(stdout, "VC_FAIL memory error (address sanitizer)\n"); fflush(stdout); dump(outp); }
extern "C" void __ubsan_on_report() { fprintf(stdout, "VC_FAIL undefined behaviour (ubsan)\n"); fflush(stdout); dump(outp); _exit(1); }

// usage: prog harness values|- out seconds seed
int main(int argc, char** argv) {
  void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, (std::string("vch_") + argv[1]).c_str());
  if (!h) { fprintf(stderr, "no harness %s\n", argv[1]); return 3; }
  outp = argv[3];
  double secs = atof(argv[4]); unsigned long seed = strtoul(argv[5], 0, 10);
  const char* want = argc > 6 ? argv[6] : "";
  bool have = std::string(argv[2]) != "-";
  if (have) {
    FILE* f = fopen(argv[2], "r"); char n[512]; char v[256];
    while (f && fscanf(f, "%511s %255s", n, v) == 2) vals[n] = {strtod(v, 0)};
    if (f) fclose(f);
  }
  signal(SIGSEGV, on_sig); signal(SIGFPE, on_sig); signal(SIGABRT, on_sig); signal(SIGBUS, on_sig); signal(SIGILL, on_sig);
  auto t0 = std::chrono::steady_clock::now();
  long runs = 0, vac = 0;
  for (;;) {
    count_.clear(); log_.clear(); failed = false; npool = 0; 
    rng.seed(seed * 1000003UL + runs);
    sparse = rng() % 3 == 0;
    replay_only = have && runs == 0;
    perturb = have && runs > 0 && runs % 2;
    std::map<std::string, std::vector<double>> keep;
    bool swapped = false;
    if (have && runs > 0 && runs % 2 == 0) { keep.swap(vals); swapped = true; }
    bool v = false;
    try { h(); } catch (Vacuous&) { v = true; } catch (std::exception& e) { if (!failed) { failed = true; fail = std::string("uncaught exception: ") + e.what(); } }
    catch (...) { if (!failed) { failed = true; fail = "uncaught exception"; } }
    if (swapped) keep.swap(vals);
    runs++; if (v && !failed) vac++;
    if (failed && (!*want || fail == want || fail.find("assertion") == 0 || runs > 0)) {
      printf("VC_FAIL %s\nruns %ld\n", fail.c_str(), runs); dump(outp); return 1;
    }
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    if (secs <= 0) break;
  }
  printf("VC_OK runs %ld vacuous %ld\n", runs, vac);
  return 0;
}
