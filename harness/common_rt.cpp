// runtime shared by the symbolic build and the native replay: recorded files, event log
#include "sym.h"
#include <verif_io.h>
#include <random>
namespace std { verif_ostream verif_cout("<cout>"), verif_cerr("<cerr>"), verif_clog("<clog>"); }
std::vector<VAtom> verif_atoms;
VLog verif_log[64];
int verif_log_on = 0;
int verif_draw_mode = 0;
unsigned long long verif_geo[8]; int verif_geo_i = 8;
static struct { std::string* name; std::string* text; bool deny; } g_files[16];
static int g_nfiles = 0;
static int fileIdx(const char* n) {
    for (int i = 0; i < g_nfiles; i++) if (*g_files[i].name == n) return i;
    g_files[g_nfiles].name = new std::string(n); g_files[g_nfiles].text = new std::string(); g_files[g_nfiles].deny = false; return g_nfiles++;
}
std::string* verif_file(const char* n) { return g_files[fileIdx(n)].text; }
bool verif_has_file(const char* n) { for (int i = 0; i < g_nfiles; i++) if (*g_files[i].name == n && !g_files[i].deny) return true; return false; }
void verif_deny_file(const char* n) { g_files[fileIdx(n)].deny = true; }
bool verif_can_open(const char* n) { return !g_files[fileIdx(n)].deny; }
int verif_nfiles() { return g_nfiles; }
int verif_atom(double v, int f, int p) { verif_atoms.push_back({v, f, p}); return (int)verif_atoms.size() - 1; }
void verif_reset_io() { for (int i = 0; i < g_nfiles; i++) g_files[i].text->clear(); verif_atoms.clear(); }
void verif_log_clear() { for (auto& l : verif_log) l.n = 0; }
extern "C" void verif_event(int kind, unsigned long long gid, unsigned long long idx, double a, double b, double v, unsigned long long k) {
    if (!verif_log_on) return;
    VLog& l = verif_log[omp_get_thread_num() & 63];
    if (l.n == l.cap) { int nc = l.cap ? 2 * l.cap : 16; VEvent* e = new VEvent[nc]; for (int i = 0; i < l.n; i++) e[i] = l.e[i]; delete[] l.e; l.e = e; l.cap = nc; }
    VEvent& e = l.e[l.n++]; e.kind = kind; e.gid = gid; e.idx = idx; e.a = a; e.b = b; e.v = v; e.k = k; e.u = e.w = 0;
    if (kind == 3) { e.u = (int)gid; e.w = (int)idx; }
}
extern "C" unsigned verif_random_device() { static unsigned c = 0; return 0x51ed0000u + c++; }
