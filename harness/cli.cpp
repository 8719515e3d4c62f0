// C27 / C28: the command line clients with stand-ins for the library calls
#include "sym.h"
#include <limits>
#include <stdexcept>
#ifdef HRG
#include <hypergirgs/Generator.h>
#else
#include <girgs/Generator.h>
#endif
#ifdef __clang__
int cli_main(int, char**) asm("main");
#else
int cli_main(int, char**);
extern "C" void verif_exit(int c) { verif_on_exit(c); fflush(stdout); _Exit(0); }
#endif
int verif_nfiles(); bool verif_can_open(const char* name);
typedef std::vector<double> VD; typedef std::vector<VD> VV; typedef std::vector<std::pair<int, int>> Edges;
// what the library was asked for
static struct { int weights = 0, pos = 0, scale = 0, edges = 0, dot = 0, rad = 0, ang = 0, R = 0, nk = 0; bool args = true, thr = true; } C;
// effective option values
static struct { int n, d, s1, s2, s3, threads; double ple, alpha, deg, T; bool dot, edge, coord, nkr; std::string file; } X;
static bool bad, denied, help; static int M, NOLD; static const char OLD[] = "9 9\n\n7 8\n"; static const char* FILES[] = {"out", "a.b", "v1.2/g raph", "1", "graph.txt"}; static VV POS; static VD A, B;
// the edges the stand-ins return: both orientations, unsorted, adjacent to few nodes
static std::pair<int, int> edgeOf(int i) { static const int U[] = {1, 0, 2, 2, 0, 1, 5}, V[] = {0, 2, 1, 0, 1, 2, 3}; return i < 7 ? std::make_pair(U[i], V[i]) : std::make_pair(i * 7 % 1000, i * 3); }
static bool eqd(double a, double b) { return a == b; }
static void lib() { C.thr &= omp_get_max_threads() == X.threads; }
#ifndef HRG
namespace girgs {
VD generateWeights(int n, double ple, int seed, bool) { lib(); C.weights++; C.args &= n == X.n; C.args &= eqd(ple, X.ple); C.args &= seed == X.s1; return A; }
VV generatePositions(int n, int d, int seed, bool) { lib(); C.pos++; C.args &= n == X.n; C.args &= d == X.d; C.args &= seed == X.s2; return POS; }
double scaleWeights(VD& w, double deg, int d, double alpha) { lib(); C.scale++; C.args &= w == A; C.args &= eqd(deg, X.deg); C.args &= d == X.d; C.args &= eqd(alpha, X.alpha); w = B; return 2; }
Edges generateEdges(const VD& w, const VV& p, double alpha, int seed) { lib(); C.edges++; C.args &= w == B; C.args &= p == POS; C.args &= eqd(alpha, X.alpha); C.args &= seed == X.s3; Edges e; for (int i = 0; i < M; i++) e.push_back(edgeOf(i)); return e; }
void saveDot(const VD& w, const VV& p, const Edges& g, const std::string& f) { C.dot++; C.args &= w == B; C.args &= p == POS; C.args &= (int)g.size() == M; for (int i = 0; i < (int)g.size(); i++) C.args &= g[i] == edgeOf(i); if (!verif_can_open(f.c_str())) throw std::runtime_error("open"); *verif_file(f.c_str()) = "dot"; }
}
#else
namespace hypergirgs {
static void radius(int n, double al, double T, double deg) { C.R++; C.args &= n == X.n; C.args &= eqd(al, X.alpha); C.args &= eqd(T, X.T); C.args &= eqd(deg, X.deg); }
double calculateRadius(int n, double al, double T, double deg) { radius(n, al, T, deg); return 7.5; }
double calculateRadiusLikeNetworKit(int n, double al, double T, double deg) { radius(n, al, T, deg); C.nk++; return 8.5; }
static double RR() { return X.nkr ? 8.5 : 7.5; }
VD sampleRadii(int n, double al, double R, int seed, bool) { lib(); C.rad++; C.args &= n == X.n; C.args &= eqd(al, X.alpha); C.args &= R == RR(); C.args &= seed == X.s1; return A; }
VD sampleAngles(int n, int seed, bool) { lib(); C.ang++; C.args &= n == X.n; C.args &= seed == X.s2; return B; }
Edges generateEdges(VD& r, VD& a, double T, double R, int seed) { lib(); C.edges++; C.args &= r == A; C.args &= a == B; C.args &= eqd(T, X.T); C.args &= R == RR(); C.args &= seed == X.s3; Edges e; for (int i = 0; i < M; i++) e.push_back(edgeOf(i)); return e; }
}
#endif
struct Tok { std::vector<double> v; std::vector<int> fmt, prec; std::vector<std::vector<int>> lines; };
static Tok tokens(const std::string& t) {
    Tok r; std::vector<int> cur; size_t i = 0; while (i < t.size()) {
        if (t[i] == '\n') { if (!cur.empty()) r.lines.push_back(cur); cur.clear(); i++; continue; }
        if (t[i] == ' ' || t[i] == '\t') { i++; continue; }
        cur.push_back((int)r.v.size());
        if (t[i] == 1) { size_t a = 0; for (i++; t[i] != 2; i++) a = a * 10 + (t[i] - '0'); i++; r.v.push_back(verif_atoms[a].v); r.fmt.push_back(verif_atoms[a].fmt); r.prec.push_back(verif_atoms[a].prec); }
        else { double x = 0; bool neg = false, num = true; for (; i < t.size() && t[i] != ' ' && t[i] != '\t' && t[i] != '\n'; i++) { if (t[i] == '-') neg = true; else if (t[i] >= '0' && t[i] <= '9') x = x * 10 + (t[i] - '0'); else num = false; } r.v.push_back(num ? neg ? -x : x : -12345); r.fmt.push_back(3); r.prec.push_back(0); }
    }
    if (!cur.empty()) r.lines.push_back(cur); return r;
}
static void outcome(int status) {
    int base = 3 + (denied ? 1 : 0) + NOLD; std::string f = X.file; auto kept = [&](bool w, const char* ext) { return !NOLD || w || *verif_file((f + ext).c_str()) == OLD; };
    if (help) { sym_check(status == 0, "help and version end with status 0"); sym_check(!C.edges && verif_nfiles() == base, "help and version generate nothing"); sym_cover("help"); return; }
    bool valid = !bad && X.threads >= 1 && X.threads <= 4; double hi = X.n - 1.0;
#ifndef HRG
    valid = valid && X.d >= 1 && X.d <= 5; valid = valid && X.ple > 2 && X.ple <= 3; valid = valid && X.alpha > 1;
#else
    valid = valid && X.alpha > .5 && X.alpha <= 1; valid = valid && X.T >= 0 && X.T < 1;
#endif
    valid = valid && X.deg >= 1 && X.deg <= hi;
    if (!valid) { sym_check(status != 0, "a parameter that is no number or out of range gives a nonzero status"); sym_check(verif_nfiles() == base, "no file is written for invalid parameters"); sym_check(kept(false, ".txt") && kept(false, ".dot") && kept(false, ".hyp"), "no existing file is touched for invalid parameters"); sym_cover("invalid"); return; }
    if (denied) { sym_check(status != 0, "an output file that cannot be opened gives a nonzero status"); sym_cover("denied"); return; }
    sym_check(status == 0, "valid parameters give status 0");
    sym_check(C.args, "options and generated data reach the library unchanged"); sym_check(C.thr, "the requested number of threads is set before the library is called"); sym_check(C.edges == 1, "one graph is generated");
#ifndef HRG
    sym_check(C.weights == 1 && C.pos == 1 && C.scale == 1, "weights, positions and scaling are computed once"); sym_check(C.dot == (X.dot ? 1 : 0), "the dot file is written exactly if requested");
    if (X.dot) sym_check(*verif_file((f + ".dot").c_str()) == "dot", "the dot file has the requested name"); bool coord = false, dot = X.dot;
#else
    sym_check(C.R == 1 && C.rad == 1 && C.ang == 1, "radius, radii and angles are computed once"); sym_check(C.nk == (X.nkr ? 1 : 0), "the requested radius estimation is used"); bool coord = X.coord, dot = false;
#endif
    sym_check(verif_nfiles() == base + (NOLD ? 0 : (X.edge ? 1 : 0) + (dot ? 1 : 0) + (coord ? 1 : 0)), "exactly the requested files are written"); sym_check(kept(X.edge, ".txt") && kept(dot, ".dot") && kept(coord, ".hyp"), "files that are not requested stay as they are");
    if (X.edge) { bool h = verif_has_file((f + ".txt").c_str()); sym_check(h, "the edge list has the requested name"); Tok t = tokens(*verif_file((f + ".txt").c_str())); bool s = (int)t.lines.size() == M + 1; for (auto& l : t.lines) s &= l.size() == 2; sym_check(s, "the edge list has a header line and one line per edge");
        sym_check(t.v[0] == X.n && t.v[1] == M, "the edge list starts with the numbers of nodes and edges"); bool e = true; for (int i = 0; i < M; i++) { e &= t.v[2 + 2 * i] == edgeOf(i).first; e &= t.v[3 + 2 * i] == edgeOf(i).second; } sym_check(e, "the edge list holds the generated edges"); sym_cover("edge list"); }
    if (coord) { bool h = verif_has_file((f + ".hyp").c_str()); sym_check(h, "the coordinate file has the requested name"); Tok t = tokens(*verif_file((f + ".hyp").c_str())); bool s = (int)t.lines.size() == X.n; for (auto& l : t.lines) s &= l.size() == 2; sym_check(s, "the coordinate file has one line per node"); bool e = true, p = true; for (int i = 0; i < X.n; i++) { e &= t.v[2 * i] == A[i]; e &= t.v[2 * i + 1] == B[i]; p &= t.prec[2 * i] >= 16 && t.prec[2 * i + 1] >= 16; } sym_check(e, "the coordinate file holds radius and angle of each node in order"); sym_check(p, "coordinates are written with at least 16 decimals"); sym_cover("coordinates"); }
    sym_cover("valid");
}
extern "C" void verif_on_exit(int code) { outcome(code); }
static std::string num(long v) { std::string s; bool neg = v < 0; unsigned long u = neg ? 0ul - v : v; do { s.insert(s.begin(), char('0' + u % 10)); u /= 10; } while (u); return neg ? "-" + s : s; }
static std::string textD(const char* n, double v) { std::string d = std::string("$") + n; if (!sym_native()) { sym_bind_double(d.c_str(), v); return d; } char b[64]; snprintf(b, 64, "%.17g", v); return b; }
static std::string textI(const char* n, int v) { std::string d = std::string("$") + n; if (!sym_native()) { sym_bind_int(d.c_str(), v); return d; } return num(v); }
// the documented option table
#ifndef HRG
static const char* NAMES[] = {"n", "d", "ple", "alpha", "deg", "wseed", "pseed", "sseed", "threads", "file", "dot", "edge"}; enum { NOPT = 12 };
#else
static const char* NAMES[] = {"n", "alpha", "t", "deg", "rseed", "aseed", "sseed", "threads", "nkr", "file", "edge", "coord"}; enum { NOPT = 12 };
#endif
static std::vector<std::pair<std::string, std::string>> OPTS;
static bool useI(int k, int& dst, bool on) { if (!on) return false; dst = sym_i32(NAMES[k]); OPTS.push_back({NAMES[k], textI(NAMES[k], dst)}); return true; }
static bool useD(int k, double& dst, bool on) { if (!on) return false; dst = sym_double(NAMES[k]); OPTS.push_back({NAMES[k], textD(NAMES[k], dst)}); return true; }
static void useFlag(int k, bool& dst, bool on) { if (!on) return; dst = sym_choice(NAMES[k], 2); OPTS.push_back({NAMES[k], dst ? "1" : "0"}); }
static int run(bool reverse) {
    static std::vector<std::string> st; st.push_back("client"); if (reverse) for (int i = (int)OPTS.size(); i--;) { st.push_back("-" + OPTS[i].first); st.push_back(OPTS[i].second); } else for (auto& o : OPTS) { st.push_back("-" + o.first); st.push_back(o.second); }
    static std::vector<char*> av; for (auto& s : st) av.push_back(const_cast<char*>(s.c_str())); av.push_back(nullptr); int status = -1; try { status = cli_main((int)st.size(), av.data()); } catch (...) { status = 134; } return status;
}
// mode 0: every option alone / all but one / all, values symbolic; 1: text that is no number; 2: files that cannot be opened; 3: help, version
extern "C" void CLI() {
    int mode = P("mode", 0); sym_set_threads(4); M = P("m", 2); A = {1.5, 2.5, .25}; B = {3, 5, .5}; POS = {{.25}, {.75}, {.5}}; verif_reset_io();
    X.n = 10000; X.d = 1; X.ple = 2.5; X.deg = 10; X.s1 = 12; X.s2 = 130; X.s3 = 1400; X.threads = 1; X.file = "graph"; X.dot = X.edge = X.coord = X.nkr = false; X.T = 0;
#ifdef HRG
    X.alpha = .75;
#else
    X.alpha = std::numeric_limits<double>::infinity();
#endif
    bool on[NOPT]; for (auto& o : on) o = false;
    if (mode == 3) { help = true; int k = sym_choice("which", 4); static std::vector<std::string> st; st.push_back("client"); if (k) st.push_back(k == 1 ? "--help" : k == 2 ? "-help" : "--version"); if (k == 3) { st.push_back("-edge"); st.push_back("1"); } static std::vector<char*> av; for (auto& s : st) av.push_back(const_cast<char*>(s.c_str())); av.push_back(nullptr); int status = -1; try { status = cli_main((int)st.size(), av.data()); } catch (...) { status = 134; } outcome(status); return; }
    int pm = P("pm", 0); bool small = P("small", 0); // pm 0: one option and the output options; 1: all but one; 2: all; 3: all options of the list given by bit mask
    int k = pm < 2 ? sym_choice("option", NOPT) : 0; int mask = P("mask", 0); for (int i = 0; i < NOPT; i++) on[i] = pm == 0 ? i == k : pm == 1 ? i != k : pm == 2 ? true : (mask >> i & 1);
    int o = 0; if (small && on[0]) { X.n = 3; OPTS.push_back({"n", "3"}); X.deg = 1.5; on[
#ifdef HRG
        3
#else
        4
#endif
    ] = false; OPTS.push_back({"deg", "1.5"}); o++; } else if (P("fixn", 0) && on[0]) { X.n = P("fixn", 0); OPTS.push_back({"n", num(X.n)}); o++; } else { useI(o++, X.n, on[0]); }
#ifndef HRG
    useI(o, X.d, on[o]); o++; useD(o, X.ple, on[o]); o++; useD(o, X.alpha, on[o]); o++; useD(o, X.deg, on[o]); o++; useI(o, X.s1, on[o]); o++; useI(o, X.s2, on[o]); o++; useI(o, X.s3, on[o]); o++;
#else
    useD(o, X.alpha, on[o]); o++; useD(o, X.T, on[o]); o++; useD(o, X.deg, on[o]); o++; useI(o, X.s1, on[o]); o++; useI(o, X.s2, on[o]); o++; useI(o, X.s3, on[o]); o++;
#endif
    if (on[o]) { static const int TH[] = {4, 1, 3, 0, -1, 5, 100000}; X.threads = TH[sym_choice("threads", P("nth", 7))]; OPTS.push_back({"threads", num(X.threads)}); } o++;
#ifdef HRG
    useFlag(o, X.nkr, on[o]); o++;
#endif
    if (on[o]) { int c = P("fname", 0); X.file = FILES[c < 0 ? sym_choice("name", 5) : c]; OPTS.push_back({"file", X.file}); } o++;
#ifdef HRG
    useFlag(o, X.edge, on[o]); o++; if (on[o] && !small && X.n != 3) OPTS.push_back({"coord", "0"}); else useFlag(o, X.coord, on[o]);
#else
    useFlag(o, X.dot, on[o]); o++; useFlag(o, X.edge, on[o]);
#endif
    if (mode == 1) { static const char* BAD[] = {"abc", "x1", ".", "99999999999999999999", "1e999"}; int j = sym_choice("badopt", (int)OPTS.size()), b = sym_choice("badtext", 5); const std::string& nm = OPTS[j].first; bool isint = nm == "n" || nm == "d" || nm == "threads" || nm.find("seed") != std::string::npos, isdbl = nm == "ple" || nm == "alpha" || nm == "deg" || nm == "t"; if ((!isint && !isdbl) || (b == 3 && !isint) || (b == 4 && !isdbl)) sym_end(); OPTS[j].second = BAD[b]; bad = true; }
    // between n-1 and n the documentation leaves the average degree open
    sym_assume(!(X.deg > X.n - 1.0 && X.deg < X.n));
    if (mode == 2) { denied = true; std::string ext = P("ext", 0) == 0 ? ".txt" : P("ext", 0) == 1 ? ".dot" : ".hyp"; verif_deny_file((X.file + ext).c_str()); if (!(P("ext", 0) == 0 ? X.edge : P("ext", 0) == 1 ? X.dot : X.coord)) sym_end(); }
    if (P("old", 0)) { NOLD = 3; for (const char* e : {".txt", ".dot", ".hyp"}) *verif_file((X.file + e).c_str()) = OLD; }
    outcome(run(P("rev", 0)));
}
