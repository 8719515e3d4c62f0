// HRG generator: C10 threshold edges, C11 edge probability, exactly-once, C16 reproducibility, C17 termination
#include "judge.h"
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
typedef std::vector<double> VD;
typedef hypergirgs::Point Point_;
static const double PI_ = 3.14159265358979323846;
// radii as R minus an offset
static VD radiiSet(int set, int n, double R) {
    static const double S[][6] = {{.3, .3, .3, .3, .3, .3}, {.3, 1.6, 2.4, .1, .7, 1.1}, {.5, .2, .9, .4, .6, .8}, {1, 2, .25, 1, 2, 3}, {1.5, .5, .5, 2.5, .5, 1.5}, {.05, .7, .05, .7, .05, .7}, {2.75, .2, .4, .3, .1, .6}, {.2, 3.3, 1.2, .2, 2.2, .6}, {.999, .999, .5, .999, 1.999, .1}, {.98, 1.97, .98, 2.99, .5, .1}};
    VD r(n); if (set >= 100) { uint32_t s = set * 2654435761u; for (double& v : r) { s = s * 1664525u + 1013904223u; double o = -std::log(1.0 - .9999 * ((s >> 8) / 16777216.0)) / .75; v = o >= R ? 0.125 * R : R - o; } return r; } // pseudo-random, like a real disc
    for (int i = 0; i < n; i++) { double o = S[set][i]; r[i] = o >= R ? 0.125 * R : R - o; } return r;
}
static double circ(double a, double b) { double t = a >= b ? a - b : b - a; double o = 2 * PI_ - t; return t <= o ? t : o; }
static int count(const Edges& e, int u, int v) { int c = 0; for (auto& p : e) c += (p.first == u && p.second == v) || (p.first == v && p.second == u); return c; }
// contract between the values of cos and sin at the symbolic angles: cos(a-b) = cos a cos b + sin a sin b
static void contract(const VD& phi) {
    int n = phi.size(); VD c(n), s(n); for (int i = 0; i < n; i++) { c[i] = std::cos(phi[i]); s[i] = std::sin(phi[i]); }
    if (sym_native()) return;
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (sym_is_symbolic(phi[i]) || sym_is_symbolic(phi[j])) { double d = c[j] * c[i] + s[j] * s[i] - std::cos(circ(phi[i], phi[j])); sym_assume(d <= 1e-12 && d >= -1e-12); }
}
// the first `fix` angles come from a list that includes cell boundaries and both ends of the circle, the others are arbitrary
static VD angles(int n, int fix) {
    static const double A[] = {0.4, 0.0, 6.283185307, 3.14159265358979323846, 1.5, 4.0, 2.2, 5.1,
        .049, .0986, .1963, 1.5216, .19, .25, .3435, .40}; VD phi(n);   // from index 8: close to cell ends of grids with 64 and 128 cells
    int na = P("na", 4);
    if (int salt = P("arnd", 0)) { double b = 6.283 * ((salt * 2654435761u >> 8) / 16777216.0); for (int i = 0; i < n; i++) { int c = i ? sym_choice(VName("a", i), na) : 0; double d = i ? (c % 2 ? -3.1 : 3.1) / (1 << (c / 2)) + .017 * salt / (1 << (c / 2)) : 0; phi[i] = b + d; if (phi[i] < 0) phi[i] += 2 * PI_; if (phi[i] >= 2 * PI_) phi[i] -= 2 * PI_; } return phi; } // around a pseudo-random angle, at distances pi, pi/2, pi/4, ...
    if (P("quad", 0)) { static const double Q[] = {.4, 2.2, 4.0, 5.1}; int q = sym_choice("quad", na); for (int i = 0; i < n; i++) phi[i] = Q[(i + q) % 4] + .11 * (i / 4); return phi; } // nodes in all quadrants
    for (int i = 0; i < n; i++) phi[i] = i < fix ? A[P("a0", 0) + sym_choice(VName("a", i), na)] : sym_real(VName("phi", i), 0, 2 * PI_, 0);
    return phi;
}
// cosine of the critical angle of two radii: connected iff cos(angle) > crit
static double crit(double r1, double r2, double R) { return (std::cosh(r1) * std::cosh(r2) - std::cosh(R)) / (std::sinh(r1) * std::sinh(r2)); }
extern "C" void C10_threshold() {
    int n = P("n", 2), T = P("T", 1), fix = P("fix", 0); double R = sym_param("R", 5); sym_set_threads(T); if (P("sched", 0)) sym_sched(P("sched", 0), P("sbound", 0));
    VD r = radiiSet(P("set", 0), n, R), phi = angles(n, fix);
    contract(phi);
    sym_termination(6e7, "generateEdges terminates");
    Edges e = hypergirgs::generateEdges(r, phi, 0, R, P("seed", 5));
    bool ok = true; for (auto& p : e) ok &= p.first >= 0 && p.first < n && p.second >= 0 && p.second < n; sym_check(ok, "edge endpoints are node indices");
    for (int u = 0; u < n; u++) { sym_check(count(e, u, u) == 0, "no self loop");
        for (int v = u + 1; v < n; v++) {
            double cs = std::cos(circ(phi[v], phi[u])), k = crit(r[u], r[v], R); int c = count(e, u, v); sym_check(c <= 1, "a pair is reported at most once");
            if (c) { sym_check(cs >= k - 1e-9, "an edge has hyperbolic distance at most R"); sym_cover("edge"); } else { sym_check(cs <= k + 1e-9, "a pair with hyperbolic distance below R is an edge"); sym_cover("non-edge"); }
        } }
}

// many nodes (deterministic pseudo-random radii and angles), node number `node` has a symbolic angle in [lo,hi]
static void crowd(int n, double R, VD& r, VD& phi) {
    uint32_t s = P("salt", 1) * 2654435761u; auto rnd = [&](int m) { s = s * 1664525u + 1013904223u; return (int)((s >> 10) % (uint32_t)m); }; int node = P("node", 0), sym = P("symd", 1), span = P("span", 5); r.assign(n, 0); phi.assign(n, 0);
    for (int i = 0; i < n; i++) { int a = rnd(span * 100), b = rnd(span * 100); double o = (a < b ? a : b) * .01 + .005; r[i] = o >= R ? R * .1 : R - o; int gran = P("gran", 1000); double v = rnd(gran) * (2 * PI_ / gran); phi[i] = i == node && sym == 2 ? .05 + 6.2 / P("na", 16) * sym_choice(VName("angle", i), P("na", 16)) : i == node && sym ? sym_real(VName("phi", i), sym_param("lo", 0), sym_param("hi", 1), 0) : v; }
}
static void contractNode(const VD& phi, int node) { if (sym_native()) return; double c0 = std::cos(phi[node]), s0 = std::sin(phi[node]); for (int j = 0; j < (int)phi.size(); j++) if (j != node) { double d = c0 * std::cos(phi[j]) + s0 * std::sin(phi[j]) - std::cos(circ(phi[node], phi[j])); sym_assume(d <= 1e-12 && d >= -1e-12); } }
struct Counts { int n; std::vector<int> c; bool ok; Counts(const Edges& e, int n) : n(n), c(n * n, 0), ok(true) { for (auto& p : e) { if (p.first < 0 || p.first >= n || p.second < 0 || p.second >= n) { ok = false; continue; } c[p.first * n + p.second]++; if (p.first != p.second) c[p.second * n + p.first]++; } } int operator()(int u, int v) const { return c[u * n + v]; } };
extern "C" void C10_many() {
    int n = P("n", 20), T = P("T", 1); double R = sym_param("R", 8); sym_set_threads(T); if (T > 1) sym_sched(P("sched", 0), P("sbound", 0)); VD r, phi; crowd(n, R, r, phi); if (P("symd", 1) == 1) contractNode(phi, P("node", 0)); sym_termination(4e9, "generateEdges terminates");
    Edges e = hypergirgs::generateEdges(r, phi, 0, R, P("seed", 5)); Counts c(e, n); bool self = true, one = true, near = true, far = true;
    for (int u = 0; u < n; u++) { self &= c(u, u) == 0; for (int v = u + 1; v < n; v++) { double cs = std::cos(circ(phi[v], phi[u])), k = crit(r[u], r[v], R); int m = c(u, v); one &= m <= 1; if (m) near &= cs >= k - 1e-9; else far &= cs <= k + 1e-9; } }
    sym_check(c.ok, "edge endpoints are node indices"); sym_check(self, "no self loop"); sym_check(one, "a pair is reported at most once"); sym_check(near, "an edge has hyperbolic distance at most R"); sym_check(far, "a pair with hyperbolic distance below R is an edge"); sym_cover(e.size() > (size_t)n ? "many edges" : e.empty() ? "no edges" : "some edges");
}

extern "C" void C10_big() {
    int n = P("n", 4000), T = P("T", 1); double R = sym_param("R", 18); sym_set_threads(T); if (T > 1) sym_sched(P("sched", 0), P("sbound", 0)); VD r, phi; crowd(n, R, r, phi); sym_termination(2e10, "generateEdges terminates");
    Edges e = hypergirgs::generateEdges(r, phi, 0, R, P("seed", 5)); bool ok = true, self = true, one = true, near = true, far = true; std::vector<std::vector<int>> adj(n); for (auto& p : e) { if (p.first < 0 || p.first >= n || p.second < 0 || p.second >= n) { ok = false; continue; } self &= p.first != p.second; adj[p.first < p.second ? p.first : p.second].push_back(p.first < p.second ? p.second : p.first); }
    sym_check(ok, "edge endpoints are node indices"); sym_check(self, "no self loop"); if (!ok || !self) return; for (auto& a : adj) { std::sort(a.begin(), a.end()); for (size_t i = 1; i < a.size(); i++) one &= a[i] != a[i - 1]; } sym_check(one, "a pair is reported at most once");
    std::vector<double> co(n), si(n), ex(n), ix(n), ish(n); double cR = std::cosh(R); for (int i = 0; i < n; i++) { co[i] = std::cos(phi[i] / 2); si[i] = std::sin(phi[i] / 2); ex[i] = std::exp(r[i]); ix[i] = 1 / ex[i]; ish[i] = 1 / std::sinh(r[i]); }
    // 1 - cos(angle) against (cosh R - cosh(r1 - r2)) / (sinh r1 sinh r2)
    for (int u = 0; u < n; u++) { size_t k = 0; for (int v = u + 1; v < n; v++) { double h = si[u] * co[v] - co[u] * si[v], q = (cR - .5 * (ex[u] * ix[v] + ix[u] * ex[v])) * ish[u] * ish[v], g = 2 * h * h - q, tol = 1e-4 * q + 1e-13; bool m = k < adj[u].size() && adj[u][k] == v; if (m) { near &= g <= tol; k++; } else far &= g >= -tol; } }
    sym_check(near, "an edge has hyperbolic distance at most R"); sym_check(far, "a pair with hyperbolic distance below R is an edge"); sym_cover(e.size() > (size_t)n ? "many edges" : e.empty() ? "no edges" : "some edges");
}

// ---- C11: T > 0
static void runTree(VD& r, VD& phi, double T, double R, int seed) {
    auto cb = [](int u, int v, int) { verif_edge(u, v); };
    auto t = hypergirgs::makeHyperbolicTree(r, phi, T, R, cb); verif_log_clear(); verif_log_on = 1; t.generate(seed); verif_log_on = 0;
}
static double prob(double r1, double r2, double delta, double T, double R) {
    double D = std::cosh(r1 - r2) + (1 - std::cos(delta)) * std::sinh(r1) * std::sinh(r2); return 1 / (1 + std::exp((std::acosh(D < 1 ? 1.0 : D) - R) / (2 * T)));
}
extern "C" void C11_pair() {
    int th = P("T", 1), fix = P("fix", 2); double R = sym_param("R", 5), T = sym_param("temp", 0.5); sym_set_threads(th);
    VD r = radiiSet(P("set", 0), 2, R), phi = angles(2, fix); contract(phi); sym_ufpoints(1);
    runTree(r, phi, T, R, P("seed", 5)); auto ev = events(); distinctDraws(ev);
    judgePair(ev, prob(r[0], r[1], circ(phi[0], phi[1]), T, R), 1e-6);
}
extern "C" void C11_skips() {
    int n = P("n", 4); double R = sym_param("R", 5), T = sym_param("temp", 0.5); sym_set_threads(1); VD r = radiiSet(P("set", 0), n, R), phi = angles(n, n);
    verif_draw_mode = 1; runTree(r, phi, T, R, 3); auto e1 = events(); verif_draw_mode = 2; runTree(r, phi, T, R, 3); auto e2 = events(); verif_draw_mode = 0;
    judgeSkips(e1, e2);
}
// ---- C03: every pair is decided exactly once
extern "C" void C03_hrg_pairs() {
    int n = P("n", 3), th = P("T", 1); double R = sym_param("R", 5), T = sym_param("temp", 0.5); sym_set_threads(th); if (P("sched", 0)) sym_sched(P("sched", 0), P("sbound", 0));
    VD r = radiiSet(P("set", 0), n, R), phi = angles(n, n); verif_draw_mode = 1; Edges e; std::vector<VEvent> ev;
    if (P("entry", 0)) e = hypergirgs::generateEdges(r, phi, T, R, 3);
    else { runTree(r, phi, T, R, 3); ev = events(); for (auto& v : ev) if (v.kind == 3) e.push_back({v.u, v.w}); }
    verif_draw_mode = 0; bool one = true, none = true, self = true, rng = true;
    for (auto& p : e) rng &= p.first >= 0 && p.first < n && p.second >= 0 && p.second < n;
    for (int u = 0; u < n; u++) { self &= count(e, u, u) == 0; for (int v = u + 1; v < n; v++) { int c = count(e, u, v); one &= c <= 1; none &= c >= 1 || prob(r[u], r[v], circ(phi[u], phi[v]), T, R) <= 1.0001e-6; } }
    sym_check(rng, "edge endpoints are node indices"); sym_check(self, "no self loop"); sym_check(one, "no pair is sampled twice"); sym_check(none, "no pair is left out");
    distinctDraws(ev); bool skip = false; for (auto& v : ev) skip |= v.kind == 2; sym_cover(skip ? "with skips" : "direct only");
}
extern "C" void C03_hmany() {
    int n = P("n", 20), th = P("T", 1); double R = sym_param("R", 8), T = sym_param("temp", .5); sym_set_threads(th); if (th > 1) sym_sched(P("sched", 0), P("sbound", 0)); VD r, phi; crowd(n, R, r, phi); if (P("symd", 1) == 1) contractNode(phi, P("node", 0)); sym_termination(4e9, "generateEdges terminates");
    verif_draw_mode = 1; verif_log_clear(); verif_log_on = 1; Edges e = hypergirgs::generateEdges(r, phi, T, R, P("seed", 3)); verif_draw_mode = 0; verif_log_on = 0; sym_check(manyDistinct(events()), "no random draw is used twice"); Counts c(e, n); bool self = true, one = true, none = true;
    for (int u = 0; u < n; u++) { self &= c(u, u) == 0; for (int v = u + 1; v < n; v++) { int m = c(u, v); one &= m <= 1; none &= m >= 1 || prob(r[u], r[v], circ(phi[u], phi[v]), T, R) <= 1.0001e-6; } }
    sym_check(c.ok, "edge endpoints are node indices"); sym_check(self, "no self loop"); sym_check(one, "no pair is sampled twice"); sym_check(none, "no pair is left out"); sym_cover(e.size() > (size_t)n ? "many edges" : e.empty() ? "no edges" : "some edges");
}
extern "C" void C11_big() {
    int na = P("na", 70001), nb = P("nb", 70003), n = na + nb; double R = sym_param("R", 23), T = sym_param("temp", .9); sym_set_threads(P("T", 4)); VD r(n, R - .3), phi(n); for (int i = 0; i < n; i++) phi[i] = i < na ? .1 + i * 1e-6 : 3.3 + (i - na) * 1e-6; auto cb = [](int u, int v, int) { verif_edge(u, v); };
    auto t = hypergirgs::makeHyperbolicTree(r, phi, T, R, cb); hypergirgs::default_random_engine gen(5); bigSession(na, nb, [&] { t.sampleTypeII(3, 5, 2, 0, 0, gen); });
}
static bool sameEdges(const Edges& a, const Edges& b, int n) {
    if (a.size() != b.size()) return false; bool ok = true; for (int u = 0; u < n; u++) for (int v = u; v < n; v++) ok &= count(a, u, v) == count(b, u, v); return ok;
}
// ---- C16: two runs with the same seed and thread count under different schedules
extern "C" void C16_hrg() {
    int n = P("n", 3), th = P("T", 2), seed = P("seed", 5); double R = sym_param("R", 5), T = sym_param("temp", 0.5); sym_set_threads(th); VD r = radiiSet(P("set", 0), n, R), phi = angles(n, n);
    sym_sched(P("s1", 0), 0); Edges a = hypergirgs::generateEdges(r, phi, T, R, seed); sym_sched(P("s2", 1), P("sbound", 0)); Edges b = hypergirgs::generateEdges(r, phi, T, R, seed);
    sym_check(sameEdges(a, b, n), "two runs with the same seed and thread count give the same edges"); sym_cover(a.empty() ? "no edges" : "edges");
}
static bool sameSorted(Edges a, Edges b) { auto nrm = [](Edges& e) { for (auto& p : e) if (p.first > p.second) std::swap(p.first, p.second); std::sort(e.begin(), e.end()); }; nrm(a); nrm(b); return a == b; }
extern "C" void C16_hmany() {
    int n = P("n", 24), th = P("T", 2), seed = P("seed", 5); double R = sym_param("R", 8), T = sym_param("temp", 0.5); sym_set_threads(th); VD r, phi; crowd(n, R, r, phi); verif_draw_mode = P("mode", 5); sym_sched(P("s1", 0), 0); Edges a = hypergirgs::generateEdges(r, phi, T, R, seed); sym_sched(P("s2", 1), P("sbound", 0)); Edges b = hypergirgs::generateEdges(r, phi, T, R, seed); verif_draw_mode = 0;
    sym_check(sameSorted(a, b), "two runs with the same seed and thread count give the same edges"); sym_cover(a.empty() ? "no edges" : "edges");
}
extern "C" void C19_hmany() {
    int n = P("n", 24); double R = sym_param("R", 8); VD r, phi; crowd(n, R, r, phi); if (P("symd", 1) == 1) contractNode(phi, P("node", 0)); sym_set_threads(P("T", 1)); Edges a = hypergirgs::generateEdges(r, phi, 0, R, P("seed", 1)); sym_set_threads(P("T2", 4)); Edges b = hypergirgs::generateEdges(r, phi, 0, R, P("seed2", -1)); sym_check(sameSorted(a, b), "the edges do not depend on seed and number of threads"); sym_cover(a.empty() ? "no edges" : "edges");
}
// ---- C19
extern "C" void C19_hrg() {
    int n = P("n", 3), fix = P("fix", 2); double R = sym_param("R", 5); VD r = radiiSet(P("set", 0), n, R), phi = angles(n, fix); contract(phi); sym_set_threads(P("T", 1)); Edges a = hypergirgs::generateEdges(r, phi, 0, R, P("seed", 1)); sym_set_threads(P("T2", 4)); Edges b = hypergirgs::generateEdges(r, phi, 0, R, P("seed2", -1));
    sym_check(sameEdges(a, b, n), "the edges do not depend on seed and number of threads"); sym_cover(a.empty() ? "no edges" : "edges");
}
// ---- C25: complete graph through small buffers; C17 termination
extern "C" void C25_hrg() {
    int n = P("n", 5), th = P("T", 2); double R = sym_param("R", 8); sym_set_threads(th); VD r(n), phi = angles(n, P("syma", 1)); for (int i = 0; i < n; i++) r[i] = R / 2 * (1 - 0.1 * i) - 0.01; sym_sched(P("sched", 0), P("sbound", 0));
    sym_termination(5e7, "generateEdges terminates"); Edges e = hypergirgs::generateEdges(r, phi, 0, R, 4); bool one = true, none = true, rng = true; for (auto& p : e) rng &= p.first >= 0 && p.first < n && p.second >= 0 && p.second < n;
    for (int u = 0; u < n; u++) for (int v = u; v < n; v++) { int c = count(e, u, v); if (u == v) one &= c == 0; else { one &= c <= 1; none &= c >= 1; } }
    sym_check(rng, "edge endpoints are node indices"); sym_check(one, "no edge is returned twice"); sym_check(none, "no edge is lost"); sym_cover("complete");
}
static bool complete(const Edges& e, int n) { if (e.size() != (size_t)n * (n - 1) / 2) return false; std::vector<unsigned char> c((size_t)n * n, 0); bool ok = true; for (auto& p : e) { if (p.first < 0 || p.first >= n || p.second < 0 || p.second >= n || p.first == p.second) return false; int u = p.first < p.second ? p.first : p.second, v = p.first + p.second - u; ok &= !c[(size_t)u * n + v]; c[(size_t)u * n + v] = 1; } return ok; }
extern "C" void C25_hbig() {
    int n = P("n", 1460), th = P("T", 1); double R = sym_param("R", 8); sym_set_threads(th); sym_sched(P("sched", 0), 0); VD r(n), phi(n); for (int i = 0; i < n; i++) { r[i] = R / 2 * (1 - 0.2 * (i % 5)) - 0.01; phi[i] = .05 + (i * 37 % 64) * (2 * PI_ / 64); } phi[0] = .05 + 2.1 * sym_choice("angle", 3);
    Edges e = hypergirgs::generateEdges(r, phi, 0, R, 4); sym_check(complete(e, n), "every edge of a complete graph is returned exactly once"); sym_cover("complete");
}
// clusters of coinciding nodes close to the border of the disc: edges are found deep in the tree, by all threads
extern "C" void C25_hlight() {
    int n = P("n", 6), th = P("T", 2), nc = P("clusters", 2); double R = sym_param("R", 8); sym_set_threads(th); static const double C[] = {.4, 4.0, 2.2, 5.1}; VD r(n, R - .3), phi(n); std::vector<int> cl(n);
    for (int i = 0; i < n; i++) { cl[i] = i < P("symn", 2) ? sym_choice(VName("cluster", i), nc) : i % nc; phi[i] = C[cl[i]]; }
    sym_sched(P("sched", 0), P("sbound", 0)); sym_termination(2e8, "generateEdges terminates"); Edges e = hypergirgs::generateEdges(r, phi, 0, R, 4); bool one = true, none = true, other = true, rng = true; for (auto& p : e) rng &= p.first >= 0 && p.first < n && p.second >= 0 && p.second < n;
    for (int u = 0; u < n; u++) for (int v = u; v < n; v++) { int c = count(e, u, v); if (u == v) one &= c == 0; else { one &= c <= 1; if (cl[u] == cl[v]) none &= c >= 1; else other &= c == 0; } }
    sym_check(rng, "edge endpoints are node indices"); sym_check(one, "no edge is returned twice"); sym_check(none, "no edge is lost"); sym_check(other, "no edge between distant outer nodes"); sym_cover("light");
}
extern "C" void C17_hrg() {
    int n = P("n", 3), th = P("T", 2); double R = sym_param("R", 8), T = sym_param("temp", 0); sym_set_threads(th); VD r = radiiSet(P("set", 0), n, R), phi = angles(n, n); sym_sched(P("sched", 2), P("sbound", 2));
    verif_draw_mode = P("draws", 1); sym_termination(2e7, "generateEdges terminates"); Edges e = hypergirgs::generateEdges(r, phi, T, R, P("seed", 4)); bool ok = true; for (auto& p : e) ok &= p.first >= 0 && p.first < n && p.second >= 0 && p.second < n && p.first != p.second; sym_check(ok, "edge endpoints are node indices"); sym_cover("terminated");
}

// ---- C29: cached distances of points
extern "C" void C29_points() {
    double R = sym_param("R", 8); int fix = P("fix", 1); const double F[] = {0.3, R - .4, R / 2, R * .9, 1e-3, R * .25}; double r1 = F[sym_choice("r1", P("nr", 5))], r2 = F[sym_choice("r2", P("nr", 5))];
    VD phi = angles(2, fix); contract(phi); Point_ a(0, r1, phi[0]), b(1, r2, phi[1]);
    double s = std::sinh(r1) * std::sinh(r2), q = std::cos(circ(phi[0], phi[1])), e = std::cosh(r1) * std::cosh(r2) - s * q, tol = 1e-9 * (1 + s), c = std::cosh(R); double m = e > 1 ? e : 1.0;
    double D = a.hyperbolicDistanceCosh(b), D2 = b.hyperbolicDistanceCosh(a); sym_check(D <= m + tol && D >= m - tol, "cosh of the distance equals the formula"); sym_check(D2 <= D + tol && D2 >= D - tol && D >= 1, "the distance is symmetric");
    bool below = a.isDistanceBelowR(b, c), below2 = b.isDistanceBelowR(a, c); if (below) sym_check(e < c + tol, "a pair reported closer than R is closer than R"); else sym_check(e > c - tol, "a pair closer than R is reported closer than R"); if (below2) sym_check(e < c + tol, "a pair reported closer than R is closer than R"); else sym_check(e > c - tol, "a pair closer than R is reported closer than R");
    sym_cover(below ? "below" : "above");
    double hi = std::acosh(m + tol), lo = std::acosh(m - tol > 1 ? m - tol : 1.0), d = a.hyperbolicDistance(b); sym_check(d <= hi && d >= lo, "the distance of cached points equals the formula");
    double f = hypergirgs::hyperbolicDistance(r1, phi[0], r2, phi[1]), g = hypergirgs::hyperbolicDistance(r2, phi[1], r1, phi[0]); sym_check(f <= hi && f >= lo, "the distance function equals the formula"); sym_check(g <= hi && g >= lo, "the distance function is symmetric");
}
// ---- C35: at most one node
extern "C" void C35_htiny() {
    int T = P("T", 1), n = sym_choice("nodes", 2); sym_set_threads(T); if (T > 1) sym_sched(P("sched", 0), P("sbound", 0)); static const double TE[] = {0, .5, .05, .95}, RS[] = {8, 3, 20, 1.5}; double te = TE[sym_choice("temp", 4)], R = RS[sym_choice("R", 4)]; VD r(n), phi(n);
    if (n) { r[0] = R * (.1 + .25 * sym_choice("radius", 4)); static const double A[] = {0, 3.1415, 6.2831, 1.234}; phi[0] = A[sym_choice("window", 4)] + sym_real("phi", 0, 8e-5, 0); } sym_termination(3e8, "generateEdges terminates");
    Edges e = hypergirgs::generateEdges(r, phi, te, R, P("seed", 5)); sym_check(e.empty(), "a graph on at most one node has no edges"); sym_cover(n ? "one node" : "no node");
    if (!n) { auto p = hypergirgs::sampleRadiiAndAngles(0, .75, R, 3, P("par", 1)); sym_check(p.first.empty() && p.second.empty() && hypergirgs::sampleRadii(0, .75, R, 3, P("par", 1)).empty() && hypergirgs::sampleAngles(0, 3, P("par", 1)).empty(), "no coordinates for no nodes"); }
}
// ---- C36: inputs stay as they are
extern "C" void C36_hinputs() {
    int n = P("n", 3), T = P("T", 1); double R = sym_param("R", 6); sym_set_threads(T); VD r = radiiSet(P("set", 1), n, R), phi = angles(n, P("fix", n - 1)); contract(phi); const VD r0 = r, p0 = phi;
    Edges e = hypergirgs::generateEdges(r, phi, sym_param("temp", 0), R, P("seed", 5)); bool same = (int)r.size() == n && (int)phi.size() == n; for (int i = 0; same && i < n; i++) same &= r[i] == r0[i] && phi[i] == p0[i]; sym_check(same, "generateEdges leaves radii and angles unchanged"); sym_cover(e.empty() ? "no edges" : "edges");
}
// ---- C37: profiling
extern "C" void C37_hprofile() {
    int n = P("n", 3), T = P("T", 1), seed = P("seed", 5); double R = sym_param("R", 6), te = sym_param("temp", 0); sym_set_threads(T); VD r = radiiSet(P("set", 1), n, R), phi = angles(n, n); Edges e[2]; sym_ufpoints(1);
    for (int k = 0; k < 2; k++) { std::vector<Edges> loc(T); auto cb = [&](int u, int v, int t) { loc[t].emplace_back(u < v ? u : v, u < v ? v : u); }; auto t = hypergirgs::makeHyperbolicTree(r, phi, te, R, cb, k > 0); t.generate(seed); for (auto& l : loc) e[k].insert(e[k].end(), l.begin(), l.end()); std::sort(e[k].begin(), e[k].end()); }
    sym_check(e[0] == e[1], "profiling does not change the edges"); sym_cover(e[0].empty() ? "no edges" : "edges");
}
