// Harness interface: symbolic values, checks, environment control.  In the symbolic executor the sym_* functions are
// intrinsics; in a native replay they are implemented by native_rt.cpp from a recorded counterexample.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <utility>
#include <algorithm>
#include <limits>
#include <omp.h>
extern "C" {
double sym_real(const char* name, double lo, double hi, int lsb);
double sym_double(const char* name);
uint32_t sym_u32(const char* name);
int32_t sym_i32(const char* name);
uint64_t sym_u64(const char* name);
int sym_choice(const char* name, int n);
void sym_assume(int c);
void sym_check(int c, const char* label);
void sym_cover(const char* label);
int sym_prove(int c);
int sym_possible(int c);
int sym_is_symbolic(double v);
int sym_is_symbolic_int(uint64_t v);
double sym_param(const char* name, double def);
void sym_note(const char* name, double v);
void sym_set_threads(int n);
void sym_sched(int mode, int bound);
void sym_race(int on);
void sym_ufpoints(int on);
void sym_end();
void sym_globals(int restore);
size_t verif_fresh(size_t (*f)(void*, double*), void* ctx, double* out);
int64_t sym_conc(int64_t v);
void sym_fail(const char* label);
void sym_unsupported(const char* msg);
double sym_ite(int c, double a, double b);
int sym_decide(int c);
int sym_native();
void sym_bind_double(const char* s, double v);
void sym_bind_int(const char* s, int v);
void harness_main();
void verif_on_exit(int code);
}
inline int P(const char* n, double d) { return (int)sym_param(n, d); }
#define NAME(buf, ...) char buf[64]; vname(buf, __VA_ARGS__)
// "prefix<i>" / "prefix<i>_<j>" without printf (the executor has no printf)
inline void vname(char* b, const char* p, int i = -1, int j = -1) {
    while (*p) *b++ = *p++;
    auto num = [&](int v) { char t[12]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); while (n) *b++ = t[--n]; };
    if (i >= 0) num(i); if (j >= 0) { *b++ = '_'; num(j); } *b = 0;
}
struct VName { char b[64]; VName(const char* p, int i = -1, int j = -1) { vname(b, p, i, j); } operator const char*() const { return b; } };

// ---- recorded output
struct VAtom { double v; int fmt, prec; };
extern std::vector<VAtom> verif_atoms;
std::string* verif_file(const char* name);
bool verif_has_file(const char* name);
void verif_deny_file(const char* name);
void verif_reset_io();

// ---- per-thread log of random draws and emitted edges
struct VEvent { int kind; unsigned long long gid, idx; double a, b, v; unsigned long long k; int u, w; };   // 1 real draw, 2 geometric draw, 3 edge, 4 mark
struct VLog { VEvent* e; int n, cap; };
extern VLog verif_log[64];
extern int verif_log_on;
extern int verif_draw_mode;
void verif_log_clear();
extern "C" void verif_event(int kind, unsigned long long gid, unsigned long long idx, double a, double b, double v, unsigned long long k);
inline void verif_edge(int u, int w) { verif_event(3, (unsigned)u, (unsigned)w, 0, 0, 0, 0); }
extern "C" void sym_termination(double maxInstructions, const char* label);

// result of f computed as if nothing had been called before and without leaving a trace: the variables of static storage duration
// are restored afterwards (natively f runs in a child process).  Has to come before the first call into the library.
template <class F> std::vector<double> fresh(F f) {
    if (!sym_native()) { sym_globals(0); std::vector<double> r = f(); sym_globals(1); return r; }
    struct C { F* f; } c{&f}; static double buf[65536]; size_t n = verif_fresh([](void* p, double* o) -> size_t { std::vector<double> r = (*((C*)p)->f)(); for (size_t i = 0; i < r.size(); i++) o[i] = r[i]; return r.size(); }, &c, buf); return std::vector<double>(buf, buf + n);
}
