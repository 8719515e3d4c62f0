// native replay runtime: sym_* answered from a recorded counterexample (env VERIF_REPLAY: "name<TAB>value" lines)
#include "sym.h"
#include <map>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <unistd.h>
#include <sys/wait.h>
extern "C" void ENTRY();
static std::map<std::string, std::string> g_in, g_par;
static bool g_loaded = false; static std::mutex g_m;
static void load() {
    if (g_loaded) return; g_loaded = true;
    const char* f = getenv("VERIF_REPLAY"); if (!f) return; FILE* fp = fopen(f, "r"); if (!fp) return; char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, fp)) > 0) { while (n && (line[n - 1] == '\n')) line[--n] = 0; char* t = strchr(line, '\t'); if (!t) continue; *t = 0; if (!strncmp(line, "param:", 6)) g_par[line + 6] = t + 1; else g_in[line] = t + 1; }
    free(line); fclose(fp);
}
static const char* get(const char* n) { std::lock_guard<std::mutex> l(g_m); load(); auto it = g_in.find(n); return it == g_in.end() ? nullptr : it->second.c_str(); }
static void finish(int code) { fflush(stdout); fflush(stderr); _exit(code); }
extern "C" {
double sym_real(const char* n, double lo, double hi, int lsb) { const char* s = get(n); double v = s ? strtod(s, nullptr) : lo; if (v < lo) v = lo; if (v >= hi) v = std::nextafter(hi, lo); return v; }
double sym_double(const char* n) { const char* s = get(n); return s ? strtod(s, nullptr) : 0; }
uint32_t sym_u32(const char* n) { const char* s = get(n); return s ? (uint32_t)strtoull(s, nullptr, 0) : 0; }
int32_t sym_i32(const char* n) { const char* s = get(n); return s ? (int32_t)strtoll(s, nullptr, 0) : 0; }
uint64_t sym_u64(const char* n) { const char* s = get(n); return s ? strtoull(s, nullptr, 0) : 0; }
int sym_choice(const char* n, int k) { const char* s = get(n); return s ? (int)strtoll(s, nullptr, 0) : 0; }
void sym_assume(int c) { if (!c) { printf("REPLAY-ASSUME-FALSE\n"); finish(43); } }
void sym_check(int c, const char* label) { if (!c) { printf("REPLAY-VIOLATION %s\n", label); finish(42); } }
void sym_fail(const char* label) { sym_check(0, label); }
void sym_cover(const char*) {}
int sym_prove(int c) { return c; }
int sym_possible(int c) { return c; }
int sym_is_symbolic(double) { return 0; }
int sym_is_symbolic_int(uint64_t) { return 0; }
double sym_param(const char* n, double d) { std::lock_guard<std::mutex> l(g_m); load(); auto it = g_par.find(n); return it == g_par.end() ? d : strtod(it->second.c_str(), nullptr); }
void sym_note(const char* n, double v) { printf("note %s=%.17g\n", n, v); }
void sym_termination(double, const char*) {}
void sym_set_threads(int n) { omp_set_num_threads(n); }
void sym_sched(int, int) {}
void sym_race(int) {}
void sym_ufpoints(int) {}
void sym_end() { finish(0); }
int64_t sym_conc(int64_t v) { return v; }
void sym_unsupported(const char* m) { printf("REPLAY-UNSUPPORTED %s\n", m); finish(44); }
double sym_ite(int c, double a, double b) { return c ? a : b; }
int sym_decide(int c) { return c; }
int sym_native() { return 1; }
void sym_globals(int) {}
size_t verif_fresh(size_t (*f)(void*, double*), void* ctx, double* out) {
    int p[2]; if (pipe(p)) finish(44); pid_t c = fork(); if (c < 0) finish(44);
    if (!c) { close(p[0]); size_t n = f(ctx, out); auto put = [&](const void* d, size_t k) { const char* q = (const char*)d; while (k) { ssize_t w = write(p[1], q, k); if (w <= 0) _exit(44); q += w; k -= w; } }; put(&n, sizeof n); put(out, n * sizeof(double)); _exit(0); }
    close(p[1]); size_t n = 0; auto take = [&](void* d, size_t k) { char* q = (char*)d; while (k) { ssize_t w = read(p[0], q, k); if (w <= 0) return false; q += w; k -= w; } return true; };
    bool ok = take(&n, sizeof n) && n <= 65536 && take(out, n * sizeof(double)); close(p[0]); int st; waitpid(c, &st, 0); if (!ok || !WIFEXITED(st)) { printf("REPLAY-VIOLATION child failed\n"); finish(42); } if (WEXITSTATUS(st)) finish(WEXITSTATUS(st)); return n;
}
void sym_bind_double(const char*, double) {}
void sym_bind_int(const char*, int) {}
double sym_draw_real(unsigned long long gid, unsigned long long idx, double a, double b) {
    char k[96]; snprintf(k, 96, "u_%llx_%llu", gid, idx); const char* s = get(k); double v = s ? strtod(s, nullptr) : a + (b - a) * 0.5; if (v < a) v = a; if (v >= b && a < b) v = std::nextafter(b, a); return v; }
unsigned long long sym_draw_int(unsigned long long gid, unsigned long long idx, unsigned long long mx) {
    char k[96]; snprintf(k, 96, "k_%llx_%llu", gid, idx); const char* s = get(k); return s ? strtoull(s, nullptr, 0) : 0; }
void __attribute__((weak)) verif_on_exit(int) {}
int __wrap_omp_get_num_procs() { return 1; }
unsigned __wrap__ZNSt6thread20hardware_concurrencyEv() { return 1; }
}

int main() {
    const char* t = getenv("VERIF_NATIVE_TIMEOUT"); alarm(t ? atoi(t) : 60);
    try { ENTRY(); } catch (...) { printf("REPLAY-VIOLATION uncaught exception\n"); finish(42); }
    printf("REPLAY-OK\n"); finish(0);
}
