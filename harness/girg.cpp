// GIRG generator: C01 threshold edges, C02 edge probability, C03 simple graph, C09 data structure, C16 reproducibility
#include "judge.h"
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
using namespace girgs;
typedef std::vector<double> VD; typedef std::vector<VD> VV;
static const double INF = std::numeric_limits<double>::infinity();
static VD weightSet(int set, int n) {
    static const double S[][6] = {{.1, .1, .1, .1, .1, .1}, {.1, .25, .9, .1, .3, .1}, {1, 1, 1, 1, 1, 1}, {1, 4, 20, 1, 3, 2}, {.02, .03, .5, .02, .02, .02}, {.02, .02, .02, .02, .02, .02},
        {.3, .3, .3, .3, .3, .3}, {.3, .7, .3, 1.3, .3, .3}, {2.5, .3, .3, .3, .7, .3}, {.05, .05, .2, .05, .05, .05}, {.01, .01, .01, .01, .01, .01}, {.004, .01, .3, .004, .1, .004}, {1e-8, 2e-8, 1e-7, 1e-8, 1e-8, 1e-8}, {1e-6, 8000, 3000, 1e-6, 1e-6, 1e-6},
        {.01, .0199, .0199, .01, .0199, .01}, {.03, .0599, .2, .03, .0599, .03}, {5.7e-4, 1.133e-3, 5.7e-4, 5.7e-4, 5.7e-4, 5.7e-4}, {.002, .0021, .1, .0039, .002, .03}, {.1, .2, .4, .8, .1, .2}, {1000, 700, 300, 5, 20, 90000}, {1e6, 2e5, 3e5, 1e6, 5e4, 1e6}};
    if (set >= 100) { uint32_t s = set * 2654435761u; auto rnd = [&] { s = s * 1664525u + 1013904223u; return (s >> 8) / 16777216.0; }; VD w(n); double base = std::pow(10.0, -2.5 * rnd()); for (double& v : w) { v = base / std::pow(1.0 - .999 * rnd(), 1 / 1.5); } return w; } // pseudo-random, power law
    return VD(S[set], S[set] + n);
}
static double powi(double x, int k) { double r = 1; for (int i = 0; i < k; i++) r *= x; return r; }
static double torus(const VD& a, const VD& b) {
    double m = 0;
    for (size_t d = 0; d < a.size(); d++) { double t = a[d] >= b[d] ? a[d] - b[d] : b[d] - a[d]; double s = t <= 1.0 - t ? t : 1.0 - t; m = m >= s ? m : s; }
    return m;
}
static VV symPositions(int n, int D, int lsb) { VV p(n, VD(D)); for (int i = 0; i < n; i++) for (int d = 0; d < D; d++) p[i][d] = sym_real(VName("x", i, d), 0, 1, lsb); return p; }
static double sum(const VD& w) { double s = 0; for (double x : w) s += x; return s; }
static bool inRange(const Edges& e, int n) { bool ok = true; for (auto& p : e) ok &= p.first >= 0 && p.first < n && p.second >= 0 && p.second < n; return ok; }
static int count(const Edges& e, int u, int v) { int c = 0; for (auto& p : e) c += (p.first == u && p.second == v) || (p.first == v && p.second == u); return c; }

// ---- C01: threshold model, the exported entry point
extern "C" void C01_threshold() {
    int D = P("D", 1), n = P("n", 2), T = P("T", 1); sym_set_threads(T);
    VD w = weightSet(P("set", 0), n); VV x = symPositions(n, D, P("lsb", 10)); double W = sum(w); for (int d = 0; d < P("fix", 0); d++) x[0][d] = 0.0625 + 0.1875 * d;
    sym_termination(3e7, "generateEdges terminates");
    Edges e = generateEdges(w, x, INF, P("seed", 5));
    sym_check(inRange(e, n), "edge endpoints are node indices");
    for (int u = 0; u < n; u++) {
        sym_check(count(e, u, u) == 0, "no self loop");
        for (int v = u + 1; v < n; v++) {
            double t = torus(x[u], x[v]), dD = powi(t, D), wt = w[u] * w[v] / W; int c = count(e, u, v);
            sym_check(c <= 1, "a pair is reported at most once");
            if (c) { sym_check(dD <= wt * (1 + 1e-9), "an edge has distance^D within w_u*w_v/W"); sym_cover("edge"); }
            else { sym_check(dD >= wt * (1 - 1e-9), "a pair with distance^D below w_u*w_v/W is an edge"); sym_cover("non-edge"); }
        }
    }
}

// many nodes in many weight layers (deterministic pseudo-random), node number `node` has `symd` symbolic coordinates in [lo,hi]
static void crowd(int n, int D, VD& w, VV& x) {
    uint32_t s = P("salt", 1) * 2654435761u; auto rnd = [&](int m) { s = s * 1664525u + 1013904223u; return (int)((s >> 10) % (uint32_t)m); };
    int layers = P("layers", 6), node = P("node", 0), symd = P("symd", 1), lsb = P("lsb", 8); double base = sym_param("base", .01); w.assign(n, 0); x.assign(n, VD(D));
    for (int i = 0; i < n; i++) { int a = rnd(layers), b = rnd(layers); w[i] = base * (1 << (a < b ? a : b)) * (1 + rnd(1000) / 1001.); for (int d = 0; d < D; d++) { double v = rnd(1 << lsb) / double(1 << lsb); x[i][d] = i == node && d < symd ? sym_real(VName("x", i, d), sym_param("lo", 0), sym_param("hi", 1), lsb) : v; } }
}
struct Counts { int n; std::vector<int> c; bool ok; Counts(const Edges& e, int n) : n(n), c(n * n, 0), ok(true) { for (auto& p : e) { if (p.first < 0 || p.first >= n || p.second < 0 || p.second >= n) { ok = false; continue; } c[p.first * n + p.second]++; if (p.first != p.second) c[p.second * n + p.first]++; } } int operator()(int u, int v) const { return c[u * n + v]; } };
extern "C" void C01_many() {
    int D = P("D", 1), n = P("n", 24), T = P("T", 1); sym_set_threads(T); if (T > 1) sym_sched(P("sched", 0), P("sbound", 0)); VD w; VV x; crowd(n, D, w, x); double W = sum(w); sym_termination(4e9, "generateEdges terminates");
    Edges e = generateEdges(w, x, INF, P("seed", 5)); Counts c(e, n); bool self = true, one = true, near = true, far = true;
    for (int u = 0; u < n; u++) { self &= c(u, u) == 0; for (int v = u + 1; v < n; v++) { double dD = powi(torus(x[u], x[v]), D), wt = w[u] * w[v] / W; int k = c(u, v); one &= k <= 1; if (k) near &= dD <= wt * (1 + 1e-9); else far &= dD >= wt * (1 - 1e-9); } }
    sym_check(c.ok, "edge endpoints are node indices"); sym_check(self, "no self loop"); sym_check(one, "a pair is reported at most once"); sym_check(near, "an edge has distance^D within w_u*w_v/W"); sym_check(far, "a pair with distance^D below w_u*w_v/W is an edge"); sym_cover(e.size() > (size_t)n ? "many edges" : e.empty() ? "no edges" : "some edges");
}

// large graphs: the other pairs are found by a sweep over the sorted first coordinate, node "node" may be symbolic
extern "C" void C01_big() {
    int D = P("D", 1), n = P("n", 20000), T = P("T", 1), node = P("node", 0); bool sy = P("symd", 1) > 0; sym_set_threads(T); VD w; VV x; crowd(n, D, w, x); double W = sum(w), wm = 0; for (double v : w) wm = wm < v ? v : wm; sym_termination(2e10, "generateEdges terminates");
    Edges e = generateEdges(w, x, INF, P("seed", 5)); bool ok = true, self = true; std::vector<std::vector<int>> adj(n); for (auto& p : e) { if (p.first < 0 || p.first >= n || p.second < 0 || p.second >= n) { ok = false; continue; } self &= p.first != p.second; adj[p.first].push_back(p.second); adj[p.second].push_back(p.first); }
    sym_check(ok, "edge endpoints are node indices"); sym_check(self, "no self loop"); if (!ok || !self) return; bool one = true, near = true, far = true; for (auto& a : adj) { std::sort(a.begin(), a.end()); for (size_t i = 1; i < a.size(); i++) one &= a[i] != a[i - 1]; } sym_check(one, "a pair is reported at most once");
    std::vector<int> ord; for (int i = 0; i < n; i++) if (!sy || i != node) ord.push_back(i); std::sort(ord.begin(), ord.end(), [&](int a, int b) { return x[a][0] < x[b][0]; });
    auto pair = [&](int u, int v) { double dD = powi(torus(x[u], x[v]), D), wt = w[u] * w[v] / W; bool k = std::binary_search(adj[u].begin(), adj[u].end(), v); if (k) near &= dD <= wt * (1 + 1e-9); else far &= dD >= wt * (1 - 1e-9); };
    double reach = powi(.25, D) < wm * wm / W ? 1 : 0; if (!reach) { reach = 1; while (powi(reach / 2, D) > wm * wm / W) reach /= 2; } size_t m = ord.size();
    for (size_t i = 0; i < m; i++) for (size_t k = 1; k < m; k++) { size_t j = (i + k) % m; double d = x[ord[j]][0] - x[ord[i]][0]; if (d < 0) d += 1; if (d > reach || d > .5 || (d == .5 && ord[i] > ord[j])) break; if (d == 0 && j < i) continue; pair(ord[i], ord[j]); }
    size_t inReach = 0; for (auto& p : e) if (!sy || (p.first != node && p.second != node)) { inReach++; pair(p.first, p.second); } if (sy) for (int v = 0; v < n; v++) if (v != node) pair(node, v);
    sym_check(near, "an edge has distance^D within w_u*w_v/W"); sym_check(far, "a pair with distance^D below w_u*w_v/W is an edge"); sym_cover(e.size() > (size_t)n ? "many edges" : e.empty() ? "no edges" : "some edges");
}
// ---- C02: general model.  The log of draws and edges of the real tree code is compared with the model's probability.
struct Run { std::vector<VEvent> ev; Edges edges; };
template <int D> static void runTree(const VD& w, const VV& x, double alpha, int seed, int T) {
    auto cb = [](int u, int v, int) { verif_edge(u, v); };
    auto t = makeSpatialTree<D>(w, x, alpha, cb); verif_log_clear(); verif_log_on = 1; t.generateEdges(seed); verif_log_on = 0; (void)T;
}
static void runTreeD(int D, const VD& w, const VV& x, double alpha, int seed, int T) { switch (D) { case 1: runTree<1>(w, x, alpha, seed, T); break; case 2: runTree<2>(w, x, alpha, seed, T); break; case 3: runTree<3>(w, x, alpha, seed, T); break; case 4: runTree<4>(w, x, alpha, seed, T); break; case 5: runTree<5>(w, x, alpha, seed, T); break; } }
extern "C" void C02_pair() {
    int D = P("D", 1), T = P("T", 1); sym_set_threads(T); double alpha = sym_param("alpha", 2); VD w = weightSet(P("set", 0), 2);
    int fix = P("fix", 0), pch = P("pch", 0); VV x(2, VD(D)); static const double PC[] = {.24, .51, .1, .3, .6, .76, .99, .4}; // pch: positions from a list
    for (int i = 0; i < 2; i++) { int c = pch ? sym_choice(VName("pos", i), pch) : 0; for (int d = 0; d < D; d++) x[i][d] = pch ? (d ? PC[(c + d) % 8] : PC[c]) : (i == 0 && d < fix) ? 0.0625 + 0.1875 * d : sym_real(VName("x", i, d), 0, 1, P("lsb", 10)); }
    double W = sum(w), t = torus(x[0], x[1]); sym_assume(t > 0); sym_ufpoints(1);
    runTreeD(D, w, x, alpha, P("seed", 7), T);
    auto ev = events(); distinctDraws(ev);
    double dD = powi(t, D), p = std::pow(w[0] * w[1] / W / dD, alpha); judgePair(ev, p > 1 ? 1.0 : p, 1e-9);
}

// positions from a coarse grid that has several points per cell, cell boundaries and coinciding points
static VV choicePositions(int n, int D, int m, int symn) {
    static const double A[] = {0.05, 0.1, 0.5625, 0.8, 0.99, 0.25, 0.5, 0.0}; VV x(n, VD(D));
    for (int i = 0; i < n; i++) { int c = i < symn ? sym_choice(VName("pos", i), m) : (i * 2) % m; for (int d = 0; d < D; d++) x[i][d] = A[(c + d * (c % 2)) % 8]; }
    return x;
}
static bool negligible(const VD& w, const VV& x, int u, int v, double alpha) { double t = torus(x[u], x[v]); return t > 0 && std::pow(w[u] * w[v] / sum(w) / powi(t, x[u].size()), alpha) <= 1.0001e-6; }
// ---- C03: every pair is decided exactly once.  With all draws at their lower end every pair with positive probability is an edge.
extern "C" void C03_pairs() {
    int D = P("D", 1), n = P("n", 4), T = P("T", 1); double alpha = sym_param("alpha", 2); sym_set_threads(T); if (T > 1) sym_sched(P("sched", 0), P("sbound", 0));
    VD w = weightSet(P("set", 0), n); VV x = P("coarse", 0) ? symPositions(n, D, P("coarse", 0)) : choicePositions(n, D, P("m", 4), P("symn", n));
    if (P("entry", 0)) {
        verif_draw_mode = 1; Edges e = generateEdges(w, x, alpha, P("seed", 3)); verif_draw_mode = 0; bool one = true, none = true, self = true;
        for (int u = 0; u < n; u++) { self &= count(e, u, u) == 0; for (int v = u + 1; v < n; v++) { int c = count(e, u, v); one &= c <= 1; none &= c >= 1 || negligible(w, x, u, v, alpha); } }
        sym_check(self, "no self loop"); sym_check(one, "no pair is sampled twice"); sym_check(none, "no pair is left out"); sym_cover("entry"); return;
    }
    verif_draw_mode = 1; runTreeD(D, w, x, alpha, P("seed", 3), T); verif_draw_mode = 0;
    auto ev = events(); Edges e; for (auto& v : ev) if (v.kind == 3) e.push_back({v.u, v.w});
    bool one = true, none = true, self = true, rng = true;
    for (auto& p : e) rng &= p.first >= 0 && p.first < n && p.second >= 0 && p.second < n;
    for (int u = 0; u < n; u++) { self &= count(e, u, u) == 0; for (int v = u + 1; v < n; v++) { int c = count(e, u, v); one &= c <= 1; none &= c >= 1 || negligible(w, x, u, v, alpha); } }
    sym_check(rng, "edge endpoints are node indices"); sym_check(self, "no self loop"); sym_check(one, "no pair is sampled twice"); sym_check(none, "no pair is left out");
    distinctDraws(ev); bool skip = false; for (auto& v : ev) skip |= v.kind == 2; sym_cover(skip ? "with skips" : "direct only");
}
extern "C" void C03_many() {
    int D = P("D", 1), n = P("n", 24), T = P("T", 1); double alpha = sym_param("alpha", 2); sym_set_threads(T); if (T > 1) sym_sched(P("sched", 0), P("sbound", 0)); VD w; VV x; crowd(n, D, w, x); sym_termination(4e9, "generateEdges terminates");
    verif_draw_mode = 1; verif_log_clear(); verif_log_on = 1; Edges e = generateEdges(w, x, alpha, P("seed", 3)); verif_draw_mode = 0; verif_log_on = 0; sym_check(manyDistinct(events()), "no random draw is used twice"); Counts c(e, n); bool one = true, none = true, self = true;
    for (int u = 0; u < n; u++) { self &= c(u, u) == 0; for (int v = u + 1; v < n; v++) { int k = c(u, v); one &= k <= 1; if (!k) none &= negligible(w, x, u, v, alpha); } }
    sym_check(c.ok, "edge endpoints are node indices"); sym_check(self, "no self loop"); sym_check(one, "no pair is sampled twice"); sym_check(none, "no pair is left out"); sym_cover(e.size() > (size_t)n ? "many edges" : e.empty() ? "no edges" : "some edges");
}
// two nodes at the top of their weight layers whose requested volume nearly fills a cell, a light node far away: the largest
// probabilities that a pair of cells that do not touch can have.  Draws at their lower end: every pair that is not negligible is an edge.
extern "C" void C03_top() {
    int D = P("D", 1), T = P("T", 1), k = P("k", 10), a = P("a", 0), b = P("b", 0), n = 4; double alpha = sym_param("alpha", 70), f = sym_param("f", .999); sym_set_threads(T);
    VD w = {1.998 * (1 << a), 1.998 * (1 << b), 1, 1}; double c = f * std::ldexp(sum(w), -k); for (double& v : w) v *= c; // W / w0^2 = 2^k / f
    VV x(n, VD(D, .3)); x[2].assign(D, .71); x[3].assign(D, .9); for (int d = 0; d < D; d++) x[0][d] = .25 - std::ldexp(1., -16); for (int i = 0; i < 2; i++) if (i || P("both", 0)) x[i][0] = sym_real(VName("x", i), .24, .265, P("lsb", 14));
    verif_draw_mode = 1; verif_log_clear(); verif_log_on = 1; Edges e = generateEdges(w, x, alpha, P("seed", 3)); verif_draw_mode = 0; verif_log_on = 0; sym_check(manyDistinct(events()), "no random draw is used twice");
    bool one = true, none = true; for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) { int m = count(e, u, v); one &= m <= 1; none &= m >= 1 || negligible(w, x, u, v, alpha); }
    sym_check(one, "no pair is sampled twice"); sym_check(none, "no pair is left out"); sym_cover(e.empty() ? "no edges" : "edges");
}
// ---- C02: skips
extern "C" void C02_skips() {
    int D = P("D", 1), n = P("n", 4); double alpha = sym_param("alpha", 2); sym_set_threads(1);
    VD w = weightSet(P("set", 0), n); VV x = choicePositions(n, D, P("m", 4), P("symn", 2));
    verif_draw_mode = 1; runTreeD(D, w, x, alpha, 3, 1); auto e1 = events();
    verif_draw_mode = 2; runTreeD(D, w, x, alpha, 3, 1); auto e2 = events(); verif_draw_mode = 0;
    judgeSkips(e1, e2);
}
extern "C" void C02_big() {
    int na = P("na", 70001), nb = P("nb", 70003), n = na + nb; sym_set_threads(P("T", 4)); VD w(n, 1.); VV x(n, VD(1)); for (int i = 0; i < n; i++) x[i][0] = i < na ? .1 + i * 1e-6 : .6 + (i - na) * 1e-6; auto cb = [](int u, int v, int) { verif_edge(u, v); };
    auto t = makeSpatialTree<1>(w, x, 2.0, cb); t.m_gens.resize(8); bigSession(na, nb, [&] { t.sampleTypeII(3, 5, 2, 0, 0); });
}
static bool sameEdges(const Edges& a, const Edges& b, int n) {
    if (a.size() != b.size()) return false; bool ok = true; for (int u = 0; u < n; u++) for (int v = u; v < n; v++) ok &= count(a, u, v) == count(b, u, v); return ok;
}
// ---- C16: two runs with the same seed and thread count under different schedules
extern "C" void C16_girg() {
    int D = P("D", 1), n = P("n", 3), T = P("T", 2); double alpha = sym_param("alpha", 2); if (alpha == 0) alpha = INF; sym_set_threads(T); VD w = weightSet(P("set", 0), n); VV x = P("coarse", 0) ? symPositions(n, D, P("coarse", 0)) : choicePositions(n, D, P("m", 2), P("symn", 1));
    int seed = P("seed", 3); sym_sched(P("s1", 0), 0); Edges a = generateEdges(w, x, alpha, seed); sym_sched(P("s2", 1), P("sbound", 0)); Edges b = generateEdges(w, x, alpha, seed);
    sym_check(sameEdges(a, b, n), "two runs with the same seed and thread count give the same edges"); sym_cover(a.empty() ? "no edges" : "edges");
}
static bool sameSorted(Edges a, Edges b) { auto nrm = [](Edges& e) { for (auto& p : e) if (p.first > p.second) std::swap(p.first, p.second); std::sort(e.begin(), e.end()); }; nrm(a); nrm(b); return a == b; }
extern "C" void C16_many() {
    int D = P("D", 1), n = P("n", 24), T = P("T", 2); double alpha = sym_param("alpha", 2); if (alpha == 0) alpha = INF; sym_set_threads(T); VD w; VV x; crowd(n, D, w, x); int mode = P("mode", 5), seed = P("seed", 3); verif_draw_mode = mode; sym_sched(P("s1", 0), 0); Edges a = generateEdges(w, x, alpha, seed); sym_sched(P("s2", 1), P("sbound", 0)); Edges b = generateEdges(w, x, alpha, seed); verif_draw_mode = 0;
    sym_check(sameSorted(a, b), "two runs with the same seed and thread count give the same edges"); sym_cover(a.empty() ? "no edges" : "edges");
}
extern "C" void C19_many() {
    int D = P("D", 1), n = P("n", 24); VD w; VV x; crowd(n, D, w, x); sym_set_threads(P("T", 1)); Edges a = generateEdges(w, x, INF, P("seed", 1)); sym_set_threads(P("T2", 4)); Edges b = generateEdges(w, x, INF, P("seed2", -1)); sym_check(sameSorted(a, b), "the edges do not depend on seed and number of threads"); sym_cover(a.empty() ? "no edges" : "edges");
}
// ---- C19: threshold graphs depend on nothing but weights and positions
extern "C" void C19_girg() {
    int D = P("D", 1), n = P("n", 3); VD w = weightSet(P("set", 0), n); VV x = symPositions(n, D, P("lsb", 8)); sym_set_threads(P("T", 1)); Edges a = generateEdges(w, x, INF, P("seed", 1)); sym_set_threads(P("T2", 4)); Edges b = generateEdges(w, x, INF, P("seed2", -1));
    sym_check(sameEdges(a, b, n), "the edges do not depend on seed and number of threads"); sym_cover(a.empty() ? "no edges" : "edges");
}
// ---- C25: complete graph through small edge buffers
extern "C" void C25_girg() {
    int D = P("D", 1), n = P("n", 5), T = P("T", 2); sym_set_threads(T); VD w(n, 1.0); w[0] = sym_param("w0", 1); VV x = choicePositions(n, D, P("m", 4), P("symn", 2)); if (T > 1) sym_sched(P("sched", 0), P("sbound", 0));
    for (int i = 0; i < n; i++) w[i] *= n + sym_param("w0", 1); double big = sum(w); (void)big; // w_u*w_v/W >= 1/2^D
    bool thr = P("thr", 1); sym_termination(5e7, "generateEdges terminates"); Edges e = generateEdges(w, x, thr ? INF : 2.0, 4); bool one = true, none = true, rng = inRange(e, n); for (int u = 0; u < n; u++) for (int v = u; v < n; v++) { int c = count(e, u, v); if (u == v) one &= c == 0; else { one &= c <= 1; none &= c >= 1; } }
    sym_check(rng, "edge endpoints are node indices"); sym_check(one, "no edge is returned twice"); sym_check(none, "no edge is lost"); sym_cover("complete");
}
// complete graphs with more edges than the buffer of a thread holds in production
static bool complete(const Edges& e, int n) { if (e.size() != (size_t)n * (n - 1) / 2) return false; std::vector<unsigned char> c((size_t)n * n, 0); bool ok = true; for (auto& p : e) { if (p.first < 0 || p.first >= n || p.second < 0 || p.second >= n || p.first == p.second) return false; int u = p.first < p.second ? p.first : p.second, v = p.first + p.second - u; ok &= !c[(size_t)u * n + v]; c[(size_t)u * n + v] = 1; } return ok; }
extern "C" void C25_big() {
    int n = P("n", 1460), T = P("T", 1), D = P("D", 1); sym_set_threads(T); if (T > 1) sym_sched(P("sched", 0), 0); VD w(n, 2. * n); VV x(n, VD(D)); for (int i = 0; i < n; i++) for (int d = 0; d < D; d++) x[i][d] = ((i * 37 + d) % 64) / 64.; x[0][0] = sym_real("x", 0, 1, 3);
    Edges e = generateEdges(w, x, P("thr", 1) ? INF : 2.0, 4); sym_check(complete(e, n), "every edge of a complete graph is returned exactly once"); sym_cover("complete");
}
// many light nodes in clusters of coinciding points: edges are found deep in the tree, by all threads
extern "C" void C25_light() {
    int D = P("D", 1), n = P("n", 6), T = P("T", 2), nc = P("clusters", 2); sym_set_threads(T); VD w(n, .02); static const double C[] = {0.05, 0.55, 0.3, 0.8}; VV x(n, VD(D)); std::vector<int> cl(n);
    for (int i = 0; i < n; i++) { cl[i] = i < P("symn", 2) ? sym_choice(VName("cluster", i), nc) : i % nc; for (int d = 0; d < D; d++) x[i][d] = C[cl[i]]; }
    if (T > 1) sym_sched(P("sched", 0), P("sbound", 0)); bool thr = P("thr", 1); sym_termination(2e8, "generateEdges terminates"); Edges e = generateEdges(w, x, thr ? INF : 2.0, 4); bool one = true, none = true, other = true;
    for (int u = 0; u < n; u++) for (int v = u; v < n; v++) { int c = count(e, u, v); if (u == v) one &= c == 0; else { one &= c <= 1; if (cl[u] == cl[v]) none &= c >= 1; else if (thr) other &= c == 0; } }
    sym_check(inRange(e, n), "edge endpoints are node indices"); sym_check(one, "no edge is returned twice"); sym_check(none, "no edge is lost"); sym_check(other, "no edge between distant light nodes"); sym_cover("light");
}
// ---- C34
extern "C" void C34_dimension() {
    int D = P("D", 6), n = P("n", 2); sym_set_threads(P("T", 1)); VD w = weightSet(3, n); VV x = symPositions(n, D, 8); verif_reset_io(); Edges e = generateEdges(w, x, P("thr", 1) ? INF : 2.0, 3);
    sym_check(e.empty(), "no edges for an unsupported dimension"); std::string t = *verif_file("<cout>") + *verif_file("<cerr>"); sym_check(!t.empty(), "the unsupported dimension is reported"); sym_cover("unsupported");
}
// ---- C26: saveDot
static std::string num(long v) { std::string s; if (v < 0) return "?"; do { s.insert(s.begin(), char('0' + v % 10)); v /= 10; } while (v); return s; }
extern "C" void C26_dot() {
    int n = P("n", 2), D = P("D", 2), m = P("m", 1); VD w(n); VV x(n, VD(D)); for (int i = 0; i < n; i++) { w[i] = sym_real(VName("w", i), 0, 1000, 0); for (int d = 0; d < D; d++) x[i][d] = sym_real(VName("x", i, d), 0, 1, 0); }
    int sm = P("syme", m); Edges e(m); for (int i = 0; i < m; i++) { unsigned long long h = (i + 1) * 0x9E3779B97F4A7C15ull; e[i] = i < sm ? std::make_pair((int)sym_choice(VName("u", i), n), (int)sym_choice(VName("v", i), n)) : std::make_pair((int)((h >> 20) % n), (int)((h >> 40) % n)); }
    verif_reset_io(); bool deny = P("deny", 0), thrown = false; static const char* NM[] = {"graph.dot", "a b.v1", "d.x/g", "g"}; const char* name = NM[P("name", 0)]; if (P("old", 0)) *verif_file(name) = "graph old {\n\t7\t-- 9;\n}\n"; if (deny) verif_deny_file(name);
    try { saveDot(w, x, e, name); } catch (std::exception&) { thrown = true; }
    if (deny) { sym_check(thrown, "an output file that cannot be opened is reported by an exception"); sym_cover("denied"); return; }
    sym_check(!thrown, "no exception for a file that can be opened"); sym_check(verif_has_file(name), "the named file is written");
    // tokens: numbers written with << are atoms (text "\1<index>\2"), everything else is text
    const std::string& t = *verif_file(name); std::vector<std::string> lines; std::string cur; for (char c : t) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; }
    sym_check(cur.empty(), "the file ends with a line break"); std::vector<std::string> nodes, edges; bool graph = false, close = false, order = true;
    auto strip = [](const std::string& s) { std::string r; for (char c : s) if (c != ' ' && c != '\t') r += c; return r; };
    for (auto& l : lines) { std::string s = strip(l); if (s.empty()) continue; if (close) order = false; if (s.compare(0, 5, "graph") == 0 && s.back() == '{') { order &= !graph; graph = true; } else if (s == "}") close = true; else if (s.find("--") != std::string::npos) edges.push_back(s); else if (s.find('[') != std::string::npos) { order &= edges.empty(); nodes.push_back(s); } }
    sym_check(graph && close && order, "one graph block, nodes before edges"); sym_check((int)nodes.size() == n, "one line per node"); sym_check((int)edges.size() == m, "one line per edge");
    bool eo = true; for (int i = 0; i < m; i++) { std::string s = num(e[i].first) + "--" + num(e[i].second), q = edges[i]; if (!q.empty() && q.back() == ';') q.pop_back(); eo &= q == s; } sym_check(eo, "edge lines hold the endpoints of the edges in order");
    for (int i = 0; i < n; i++) {
        std::vector<double> v; std::vector<int> pr; std::string txt; const std::string& s = nodes[i]; for (size_t k = 0; k < s.size(); k++) { if (s[k] == 1) { size_t a = 0; for (k++; s[k] != 2; k++) a = a * 10 + (s[k] - '0'); v.push_back(verif_atoms[a].v); pr.push_back(verif_atoms[a].fmt == 1 ? verif_atoms[a].prec : 0); txt += '#'; } else txt += s[k]; }
        std::string ex = num(i) + "[label=\"#\",pos=\"#"; for (int d = 1; d < D; d++) ex += ",#"; ex += "\"];"; sym_check(txt == ex, "a node line holds index, label and position attributes");
        bool val = (int)v.size() == D + 1; if (val) { val &= v[0] == w[i]; for (int d = 0; d < D; d++) val &= v[1 + d] == x[i][d]; } sym_check(val, "weight and coordinates of the node are written"); bool prec = pr.size() && pr[0] >= 2; for (size_t k = 1; k < pr.size(); k++) prec &= pr[k] >= 6; sym_check(prec, "weights are written with two and coordinates with six decimals");
    }
    sym_cover("written");
}
// ---- C32: torus metric of nodes
template <unsigned D> static void c32() {
    typedef Node<D> N; auto mk = [](const char* s, int i) { VD c(D); for (unsigned d = 0; d < D; d++) c[d] = sym_real(VName(s, d), 0, 1, 0); return N(c, 1.0, i); };
    N a = mk("a", 0), b = mk("b", 1), c = mk("c", 2); double ab = a.distance(b), ba = b.distance(a), bc = b.distance(c), ac = a.distance(c); double m = 0; bool eq = true;
    for (unsigned d = 0; d < D; d++) { double t = a.coord[d] >= b.coord[d] ? a.coord[d] - b.coord[d] : b.coord[d] - a.coord[d]; double s = t <= 1.0 - t ? t : 1.0 - t; m = m >= s ? m : s; eq &= a.coord[d] == b.coord[d]; }
    sym_check(ab == m, "distance is the torus maximum norm"); sym_check(ab == ba, "distance is symmetric"); sym_check(ab <= 0.5 && ab >= 0, "distance lies between 0 and 1/2"); sym_check((ab == 0) == eq, "distance is zero exactly for equal positions"); sym_check(ac <= ab + bc, "triangle inequality"); sym_cover("metric");
}
extern "C" void C32_metric() { switch (P("D", 1)) { case 1: c32<1>(); break; case 2: c32<2>(); break; case 3: c32<3>(); break; case 4: c32<4>(); break; case 5: c32<5>(); break; } }
#include <girgs/Helper.h>
extern "C" void C31_pow() {
    double x = sym_real("x", -1000, 1000, 0); double r = 1; auto t = [&](double v) { double d = v - r; sym_check(d == 0, "power equals repeated multiplication"); r *= x; };
    t(pow_to_the<0>(x)); t(pow_to_the<1>(x)); t(pow_to_the<2>(x)); t(pow_to_the<3>(x)); t(pow_to_the<4>(x)); t(pow_to_the<5>(x)); t(pow_to_the<6>(x)); t(pow_to_the<7>(x)); t(pow_to_the<8>(x)); t(pow_to_the<9>(x)); t(pow_to_the<10>(x)); t(pow_to_the<11>(x)); t(pow_to_the<12>(x)); t(pow_to_the<13>(x)); t(pow_to_the<14>(x)); t(pow_to_the<15>(x)); t(pow_to_the<16>(x)); sym_cover("pow");
}
#include <girgs/Hyperbolic.h>
extern "C" void C30_convert() {
    double R = sym_real("R", 1, 40, 0), tol = 1e-9; auto near = [&](double a, double b) { double d = a - b; return d <= tol && d >= -tol; };
    double r = sym_real("r", 0, 40, 0), w = radiusToGirgWeight(r, R), back = girgWeightToRadius(w, R); sym_check(near(back, r), "radius to weight and back gives the radius"); sym_check(w > 0, "weights are positive"); if (r <= R) sym_check(w >= 1, "nodes inside the disc have weight at least 1"); else sym_check(w <= 1, "nodes outside the disc have weight at most 1");
    double r2 = sym_real("r2", 0, 40, 0), w2 = radiusToGirgWeight(r2, R); if (r2 <= r) sym_check(w2 >= w, "nodes closer to the center have larger weights");
    double v = sym_real("w", 1e-3, 1e6, 0); const double SC[] = {1, .5, 7, .03125}; double sc = SC[sym_choice("scaling", 4)], q = girgWeightToRadius(v, R, sc), w3 = radiusToGirgWeight(q, R) * sc; double rel = (w3 - v); sym_check(rel <= 1e-9 * v && rel >= -1e-9 * v, "weight to radius and back gives the weight");
    double a = sym_real("angle", 0, 2 * 3.14159265358979323846, 0), p = angleToGirgPosition(a); sym_check(p >= 0 && p <= 1, "positions lie in [0,1]"); sym_check(near(girgPositionToAngle(p), a), "angle to position and back gives the angle"); double x = sym_real("position", 0, 1, 0), b = girgPositionToAngle(x); sym_check(b >= 0 && b <= 6.2831853071795865, "angles lie in [0,2 pi]"); sym_check(near(angleToGirgPosition(b), x), "position to angle and back gives the position");
    double t = sym_real("angle2", 0, 2 * 3.14159265358979323846, 0), d = (t - a) - 2 * 3.14159265358979323846 * (angleToGirgPosition(t) - p); sym_check(d <= tol && d >= -tol, "positions are proportional to angles"); sym_cover("converted");
}
// ---- C33: a pair of layers whose weights differ by more than 2^30
extern "C" void C33_ratio() {
    sym_set_threads(1); VD w{1e-6, 8000, 1e-6}; const double A[] = {0.6, 0.51, 0.74}; VV x{{0.05}, {A[sym_choice("pos", 3)]}, {0.3}}; auto cb = [](int u, int v, int) { verif_edge(u, v); };
    auto t = makeSpatialTree<1>(w, x, 2.0, cb); t.m_gens.resize(1); unsigned hi = t.m_layers - 1; verif_log_clear(); verif_log_on = 1; t.sampleTypeII(3, 5, 2, 0, hi); t.sampleTypeII(5, 3, 2, hi, 0); verif_log_on = 0;
    auto ev = events(); int n = 0; for (auto& e : ev) if (e.kind == 3) { n++; sym_check(e.u + e.w == 1, "only the pair of these cells is sampled"); } sym_cover(n ? "edges" : "no edges");
}
// ---- C35: at most one node
extern "C" void C35_tiny() {
    int D = P("D", 1), T = P("T", 1), n = sym_choice("nodes", 2); sym_set_threads(T); if (T > 1) sym_sched(P("sched", 0), P("sbound", 0)); static const double A[] = {INF, 2, 1.3, 9}, V[] = {1, .01, 300, .004};
    double alpha = A[sym_choice("alpha", 4)]; VD w(n); VV x = symPositions(n, D, 10); if (n) w[0] = V[sym_choice("weight", 4)]; sym_termination(3e8, "generateEdges terminates");
    Edges e = generateEdges(w, x, alpha, P("seed", 5)); sym_check(e.empty(), "a graph on at most one node has no edges"); sym_cover(n ? "one node" : "no node");
    if (!n) { sym_check(generateWeights(0, 2.5, 3, P("par", 1)).empty(), "no weights for no nodes"); sym_check(generatePositions(0, D, 3, P("par", 1)).empty(), "no positions for no nodes"); }
}
// ---- C36: inputs stay as they are
extern "C" void C36_inputs() {
    int D = P("D", 1), n = P("n", 3), T = P("T", 1); sym_set_threads(T); VD w = weightSet(P("set", 1), n); VV x = symPositions(n, D, P("lsb", 5)); const VD w0 = w; const VV x0 = x; auto same = [&] { bool r = (int)w.size() == n && (int)x.size() == n; for (int i = 0; r && i < n; i++) { r &= w[i] == w0[i] && (int)x[i].size() == D; for (int d = 0; r && d < D; d++) r &= x[i][d] == x0[i][d]; } return r; };
    Edges e = generateEdges(w, x, P("thr", 1) ? INF : 2.0, P("seed", 5)); sym_check(same(), "generateEdges leaves weights and positions unchanged");
    const Edges e0 = e; saveDot(w, x, e, "g.dot"); sym_check(same(), "saveDot leaves weights and positions unchanged"); sym_check(e == e0, "saveDot leaves the edges unchanged"); sym_cover(e.empty() ? "no edges" : "edges");
}
// ---- C37: profiling
template <int D> static void c37() {
    int n = P("n", 3), T = P("T", 1), seed = P("seed", 5); sym_set_threads(T); double alpha = sym_param("alpha", 2); if (alpha == 0) alpha = INF; VD w = weightSet(P("set", 1), n); VV x = choicePositions(n, D, P("m", 4), P("symn", n)); std::vector<VEvent> ev[2]; Edges e[2]; sym_ufpoints(1);
    for (int k = 0; k < 2; k++) { std::vector<Edges> loc(T); auto cb = [&](int u, int v, int t) { loc[t].emplace_back(u < v ? u : v, u < v ? v : u); }; auto t = makeSpatialTree<D>(w, x, alpha, cb, k > 0); t.generateEdges(seed); for (auto& l : loc) e[k].insert(e[k].end(), l.begin(), l.end()); std::sort(e[k].begin(), e[k].end()); }
    sym_check(e[0] == e[1], "profiling does not change the edges"); sym_cover(e[0].empty() ? "no edges" : "edges");
}
extern "C" void C37_profile() { switch (P("D", 1)) { case 1: c37<1>(); break; case 2: c37<2>(); break; case 3: c37<3>(); break; case 4: c37<4>(); break; case 5: c37<5>(); break; } }
