// C39: what a call returns does not depend on the calls made before it.  The reference result comes from an execution in which
// the checked call is the first one (fresh); then other calls are made with other arguments, then the checked call again.
#include "sym.h"
typedef std::vector<double> VD; typedef std::vector<std::pair<int, int>> Edges; typedef std::vector<std::vector<double>> VV;
static const double PI_ = 3.14159265358979323846, INF = std::numeric_limits<double>::infinity();
static VD flat(Edges e) { for (auto& p : e) if (p.first > p.second) std::swap(p.first, p.second); std::sort(e.begin(), e.end()); VD r; for (auto& p : e) { r.push_back(p.first); r.push_back(p.second); } return r; }
static bool same(const VD& a, const VD& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i]; return r; }
static void judge(const VD& a, const VD& b) { sym_check(same(a, b), "the result does not depend on earlier calls"); sym_cover(a.empty() ? "empty" : "some"); }
#ifndef HYP
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
static const double X[] = {0.1, .3, .63, .99, 0, .5}, WT[] = {1, 3, 1.7, 12, .5, 2};
static double alphaOf(const char* name) { double a = sym_param(name, 2); return a == 0 ? INF : a; }
static Edges graph(int n, int D, double alpha, int seed, int off, int step, double scale) { VD w(n); VV x(n, VD(D)); for (int i = 0; i < n; i++) { w[i] = scale * WT[(off + i) % 6]; for (int d = 0; d < D; d++) x[i][d] = X[(off + step * i + d) % 6]; } return girgs::generateEdges(w, x, alpha, seed); }
extern "C" void C39_edges() {
    int n = P("n", 3), D = P("D", 1), T = P("T", 1), n2 = P("n2", 5), D2 = P("D2", 1), T2 = P("T2", 1), off = sym_choice("off", 6), step = sym_choice("step", 3) + 1; sym_ufpoints(1);
    auto f = [&] { sym_set_threads(T); return flat(graph(n, D, alphaOf("alpha"), P("seed", 3), off, step, 1)); };
    VD a = fresh(f); sym_set_threads(T2); int mode = verif_draw_mode; verif_draw_mode = 1; Edges other = graph(n2, D2, alphaOf("alpha2"), P("seed2", 3), off + 1, 1, P("small", 0) ? .01 : 5); verif_draw_mode = mode; judge(a, f());
}
// one tree used twice: the second graph is the one that its seed gives in a new tree
extern "C" void C39_tree() {
    int n = P("n", 3), T = P("T", 1), off = sym_choice("off", 6), seed = P("seed", 3), seed2 = P("seed2", 4); double alpha = alphaOf("alpha"); sym_set_threads(T); sym_ufpoints(1); VD w(n); VV x(n, VD(2)); for (int i = 0; i < n; i++) { w[i] = WT[(off + i) % 6]; x[i] = {X[(off + 2 * i) % 6], X[(off + i + 1) % 6]}; }
    std::vector<Edges> loc(T); auto cb = [&](int u, int v, int t) { loc[t].emplace_back(u, v); }; auto take = [&] { Edges e; for (auto& l : loc) { e.insert(e.end(), l.begin(), l.end()); l.clear(); } return flat(e); };
    auto f = [&] { auto t = girgs::makeSpatialTree<2>(w, x, alpha, cb); t.generateEdges(seed); return take(); };
    VD a = fresh(f); auto t = girgs::makeSpatialTree<2>(w, x, alpha, cb); int mode = verif_draw_mode; verif_draw_mode = 1; t.generateEdges(seed2); verif_draw_mode = mode; take(); t.generateEdges(seed); judge(a, take());
}
extern "C" void C39_samples() {
    int n = P("n", 3), D = P("D", 2), T = P("T", 1), n2 = P("n2", 5), T2 = P("T2", 2), seed = P("seed", 3), seed2 = P("seed2", 4); bool par = P("par", 1); double ple = sym_param("ple", 2.5); sym_ufpoints(1);
    auto f = [&] { sym_set_threads(T); VD w = girgs::generateWeights(n, ple, seed, par); for (auto& p : girgs::generatePositions(n, D, seed, par)) for (double v : p) w.push_back(v); return w; };
    VD a = fresh(f); sym_set_threads(T2); girgs::generateWeights(n2, sym_param("ple2", 3.1), seed2, P("par2", 1)); girgs::generatePositions(n2, P("D2", 3), seed2, P("par2", 1)); judge(a, f());
}
extern "C" void C39_scale() {
    int n = P("n", 4), D = P("D", 1), T = P("T", 1), off = sym_choice("off", 6); double deg = .4 + .3 * sym_choice("deg", 3);
    auto f = [&] { sym_set_threads(T); VD w(n); for (int i = 0; i < n; i++) w[i] = WT[(off + i) % 6]; double s = girgs::scaleWeights(w, deg, D, alphaOf("alpha")); w.push_back(s); return w; };
    VD a = fresh(f); sym_set_threads(P("T2", 2)); VD w; for (int i = 0; i < P("n2", 6); i++) w.push_back(1 + i * i); girgs::scaleWeights(w, 1.3, P("D2", 2), alphaOf("alpha2")); try { girgs::scaleWeights(w, 1.3, 2, -1); } catch (...) {} judge(a, f());
}
#else
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
static const double A[] = {.4, 0, 6.283185307, 3.1415, 1.5, 4.0}, O[] = {.3, 1.6, 2.4, .1, .7, 1.1};
static Edges graph(int n, double R, double te, int seed, int off, int step) { VD r(n), phi(n); for (int i = 0; i < n; i++) { double o = O[(off + i) % 6]; r[i] = o >= R ? .1 * R : R - o; phi[i] = A[(off + step * i) % 6]; } return hypergirgs::generateEdges(r, phi, te, R, seed); }
extern "C" void C39_hedges() {
    int n = P("n", 3), T = P("T", 1), T2 = P("T2", 1), off = sym_choice("off", 6), step = sym_choice("step", 3) + 1; double R = sym_param("R", 6), te = sym_param("temp", .5); sym_ufpoints(1);
    auto f = [&] { sym_set_threads(T); return flat(graph(n, R, te, P("seed", 3), off, step)); };
    VD a = fresh(f); sym_set_threads(T2); int mode = verif_draw_mode; verif_draw_mode = 1; Edges other = graph(P("n2", 6), sym_param("R2", 11), sym_param("temp2", .2), P("seed2", 3), off + 1, 1); verif_draw_mode = mode; judge(a, f());
}
extern "C" void C39_htree() {
    int n = P("n", 3), T = P("T", 1), off = sym_choice("off", 6), seed = P("seed", 3), seed2 = P("seed2", 4); double R = sym_param("R", 6), te = sym_param("temp", .5); sym_set_threads(T); sym_ufpoints(1); VD r(n), phi(n); for (int i = 0; i < n; i++) { double o = O[(off + i) % 6]; r[i] = o >= R ? .1 * R : R - o; phi[i] = A[(off + 2 * i) % 6]; }
    std::vector<Edges> loc(T); auto cb = [&](int u, int v, int t) { loc[t].emplace_back(u, v); }; auto take = [&] { Edges e; for (auto& l : loc) { e.insert(e.end(), l.begin(), l.end()); l.clear(); } return flat(e); };
    auto f = [&] { auto t = hypergirgs::makeHyperbolicTree(r, phi, te, R, cb); t.generate(seed); return take(); };
    VD a = fresh(f); auto t = hypergirgs::makeHyperbolicTree(r, phi, te, R, cb); int mode = verif_draw_mode; verif_draw_mode = 1; t.generate(seed2); verif_draw_mode = mode; take(); t.generate(seed); judge(a, take());
}
extern "C" void C39_hsamples() {
    int n = P("n", 3), T = P("T", 1), n2 = P("n2", 5), T2 = P("T2", 2), seed = P("seed", 3), seed2 = P("seed2", 4); bool par = P("par", 1), par2 = P("par2", 1); double R = sym_param("R", 6), al = sym_param("alpha", .75), R2 = sym_param("R2", 9), al2 = sym_param("alpha2", .9); sym_ufpoints(1);
    auto f = [&] { sym_set_threads(T); VD r = hypergirgs::sampleRadii(n, al, R, seed, par), b = hypergirgs::sampleAngles(n, seed, par); r.insert(r.end(), b.begin(), b.end()); auto p = hypergirgs::sampleRadiiAndAngles(n, al, R, seed, par); r.insert(r.end(), p.first.begin(), p.first.end()); r.insert(r.end(), p.second.begin(), p.second.end()); return r; };
    VD a = fresh(f); sym_set_threads(T2); hypergirgs::sampleRadii(n2, al2, R2, seed2, par2); hypergirgs::sampleAngles(n2, seed2, par2); hypergirgs::sampleRadiiAndAngles(n2, al2, R2, seed2, par2); judge(a, f());
}
extern "C" void C39_radius() {
    static const int N[] = {100, 1000, 100000}; int n = N[sym_choice("n", 3)]; static const double AL[] = {.6, .75, 1.2}, TE[] = {0, .4, .9}; double al = AL[sym_choice("alpha", 3)], te = TE[sym_choice("temp", 3)], deg = 5 + 3 * sym_choice("deg", 2);
    auto f = [&] { VD r{hypergirgs::calculateRadius(n, al, te, deg), hypergirgs::calculateRadiusLikeNetworKit(n, al, te, deg)}; return r; };
    VD a = fresh(f); static const int N2[] = {100, 5000}; int m = N2[sym_choice("n2", 2)]; double al2 = AL[sym_choice("alpha2", 3)], te2 = TE[sym_choice("temp2", 3)]; hypergirgs::calculateRadius(m, al2, te2, 7); hypergirgs::calculateRadiusLikeNetworKit(m, al2, te2, 7); judge(a, f());
}
#endif
