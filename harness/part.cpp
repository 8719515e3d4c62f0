// data structures: C09 GIRG cell access, C12 distance filter, C13 angle cells, C14 radius layers, C15 HRG comparison levels
#include "sym.h"
#ifndef HYP
#include <girgs/SpatialTree.h>
using namespace girgs;
typedef std::vector<double> VD; typedef std::vector<VD> VV;
template <int D> static void c09() {
    int n = P("n", 3), T = P("T", 1); sym_set_threads(T); if (P("sched", 0)) sym_sched(P("sched", 0), P("sbound", 0));
    static const double S[][6] = {{.1, .1, .1, .1, .1, .1}, {.1, .25, .9, .1, .3, .1}, {.05, .05, .2, .05, .05, .05}, {1, 2, 4, 8, 3, 5}, {.02, .03, .5, .02, .02, .02}, {.3, .1, .1, .7, .1, .2}, {1e-8, 2e-8, 1e-7, 1e-8, 1e-8, 1e-8},
        {.1, .1 * (4 - 1e-9), .1 * (2 - 1e-10), .1, .1 * (8 - 1e-8), .1}, {.7, 700 * (1 + 1e-9), .7 * 1024, .7 * 64 * (1 - 1e-9), .7, 1.4}, {.1, .2, .8, .4, .1, .1}, {1e-6, 8000, 30, 1e-6, .3, 1e-3}, {.5, 40000, 70000, 9e5, .5, 3}};
    VD w(S[P("set", 0)], S[P("set", 0)] + n); VV x(n, VD(D)); static const double A[] = {0, 0.999, 0.5, 0.3, 0.75, 0.62}; int symn = P("symn", n);
    for (int i = 0; i < n; i++) for (int d = 0; d < D; d++) x[i][d] = i < symn ? sym_real(VName("x", i, d), 0, 1, P("lsb", 10)) : A[(i + d) % 6];
    auto cb = [](int, int, int) {}; auto t = makeSpatialTree<D>(w, x, 2.0, cb);
    double w0 = *std::min_element(w.begin(), w.end()); std::vector<int> lay(n); for (int i = 0; i < n; i++) { int l = 0; while (w[i] >= std::ldexp(w0, l + 1)) l++; lay[i] = l; }
    typedef SpatialTreeCoordinateHelper<D> H; bool size = true, member = true, once = true, attr = true, kth = true; int lmax = P("lmax", 4), total = 0;
    for (unsigned l = 0; l < t.m_weight_layers.size(); l++) {
        auto& L = t.m_weight_layers[l];
        for (unsigned lev = 0; lev <= L.m_target_level && (int)lev <= lmax; lev++) {
            unsigned first = H::firstCellOfLevel(lev), nc = H::numCellsInLevel(lev);
            std::vector<int> cell(n), cnt(nc, 0); for (int i = 0; i < n; i++) { std::array<double, D> c; for (int d = 0; d < D; d++) c[d] = x[i][d]; cell[i] = H::cellForPoint(c, lev); if (lay[i] == (int)l && cell[i] >= 0 && cell[i] < (int)nc) cnt[cell[i]]++; }
            for (unsigned c = 0; c < nc; c++) {
                int k = L.pointsInCell(first + c, lev); auto it = L.cellIterators(first + c, lev); size &= k == cnt[c] && it.second - it.first == cnt[c]; if (k != cnt[c]) continue;
                int seen[8] = {0}; int j = 0;
                for (auto p = it.first; p != it.second; ++p, ++j) { total++; int id = p->index; if (id < 0 || id >= n) { member = false; continue; } member &= lay[id] == (int)l && cell[id] == (int)c; once &= seen[id]++ == 0; attr &= p->weight == w[id]; for (int d = 0; d < D; d++) attr &= p->coord[d] == x[id][d]; kth &= L.kthPoint(first + c, lev, j).index == id; }
            }
        }
    }
    sym_check(size, "a cell reports as many points of a weight layer as lie in it"); sym_check(member, "points reported for a cell and a weight layer lie in that cell and layer"); sym_check(once, "a point is reported once per cell"); sym_check(attr, "stored points keep their weight and position"); sym_check(kth, "the k-th point of a cell is the k-th of its range"); if (total >= n) sym_cover("points");
}
// many nodes, most of them deterministic pseudo-random; node `node` has a symbolic first coordinate in [lo,hi] and, with symw, one of four weights
template <int D> static void c09many() {
    int n = P("n", 100), T = P("T", 1), layers = P("layers", 5), node = P("node", 0), lsb = P("lsb", 8); sym_set_threads(T); if (P("sched", 0)) sym_sched(P("sched", 0), P("sbound", 0));
    uint32_t s = P("salt", 1) * 2654435761u; auto rnd = [&](int m) { s = s * 1664525u + 1013904223u; return (int)((s >> 10) % (uint32_t)m); }; VD w(n); VV x(n, VD(D)); double base = sym_param("base", .01);
    for (int i = 0; i < n; i++) { int a = rnd(layers), b = rnd(layers); w[i] = base * (1 << (a < b ? a : b)) * (1 + rnd(1000) / 1001.); for (int d = 0; d < D; d++) x[i][d] = rnd(4096) / 4096.; }
    if (P("symd", 1)) x[node][0] = sym_real("x", sym_param("lo", 0), sym_param("hi", 1), lsb); if (P("symw", 0)) w[node] = base * (1 << sym_choice("w", layers)) * 1.5;
    auto cb = [](int, int, int) {}; auto t = makeSpatialTree<D>(w, x, 2.0, cb); double w0 = *std::min_element(w.begin(), w.end()); std::vector<int> lay(n), cell(n); for (int i = 0; i < n; i++) { int l = 0; while (w[i] >= w0 * (1u << (l + 1))) l++; lay[i] = l; }
    typedef SpatialTreeCoordinateHelper<D> H; bool size = true, member = true, once = true, attr = true, kth = true; int lmax = P("lmax", 3);
    for (int lev = 0; lev <= lmax; lev++) {
        unsigned first = H::firstCellOfLevel(lev), nc = H::numCellsInLevel(lev); for (int i = 0; i < n; i++) { std::array<double, D> c; for (int d = 0; d < D; d++) c[d] = x[i][d]; cell[i] = (int)sym_conc(H::cellForPoint(c, lev)); }
        for (unsigned l = 0; l < t.m_weight_layers.size(); l++) {
            auto& L = t.m_weight_layers[l]; if (lev > (int)L.m_target_level) continue; std::vector<int> cnt(nc, 0); for (int i = 0; i < n; i++) if (lay[i] == (int)l) { if (cell[i] < 0 || cell[i] >= (int)nc) member = false; else cnt[cell[i]]++; }
            std::vector<unsigned char> seen(n, 0);
            for (unsigned c = 0; c < nc; c++) {
                int k = L.pointsInCell(first + c, lev); auto it = L.cellIterators(first + c, lev); size &= k == cnt[c] && it.second - it.first == cnt[c]; if (k != cnt[c]) continue; int j = 0;
                for (auto p = it.first; p != it.second; ++p, ++j) { int id = p->index; if (id < 0 || id >= n) { member = false; continue; } member &= lay[id] == (int)l && cell[id] == (int)c; once &= !seen[id]; seen[id] = 1; attr &= p->weight == w[id]; for (int d = 0; d < D; d++) attr &= p->coord[d] == x[id][d]; if (j < 3 || j == k - 1) kth &= L.kthPoint(first + c, lev, j).index == id; }
            }
        }
    }
    sym_check(size, "a cell reports as many points of a weight layer as lie in it"); sym_check(member, "points reported for a cell and a weight layer lie in that cell and layer"); sym_check(once, "a point is reported once per cell"); sym_check(attr, "stored points keep their weight and position"); sym_check(kth, "the k-th point of a cell is the k-th of its range"); sym_cover("many points");
}
extern "C" void C09_many() { switch (P("D", 1)) { case 1: c09many<1>(); break; case 2: c09many<2>(); break; case 3: c09many<3>(); break; case 4: c09many<4>(); break; case 5: c09many<5>(); break; } }
extern "C" void C09_cells() { switch (P("D", 1)) { case 1: c09<1>(); break; case 2: c09<2>(); break; case 3: c09<3>(); break; case 4: c09<4>(); break; case 5: c09<5>(); break; } }
#else
#include <hypergirgs/HyperbolicTree.h>
using namespace hypergirgs;
typedef std::vector<double> VD;
static const double PI_ = 3.14159265358979323846;
// ---- C14
extern "C" void C14_layers() {
    int n = P("n", 3), T = P("T", 1); double R = sym_param("R", 4), h = sym_param("h", 1); sym_set_threads(T); if (P("sched", 0)) sym_sched(P("sched", 0), P("sbound", 0));
    VD r(n), a(n); static const double A[] = {0, 6.2831, 3.14159265358979323846, 1.1, 4.4, 2.5}; int symr = P("symr", n), syma = P("syma", n);
    for (int i = 0; i < n; i++) { r[i] = i < symr ? sym_real(VName("r", i), P("zero", 0) ? 0 : 1e-3, R, 0) : R - 0.3 - 0.9 * i; a[i] = i < syma ? sym_real(VName("a", i), 0, 2 * PI_, 0) : A[i % 6]; }
    std::vector<Point> pts; std::vector<unsigned> pre; auto Ls = RadiusLayer::buildPartition(r, a, R, h, pts, pre, false);
    sym_check((int)pts.size() == n, "every point is stored"); bool size = true, member = true, once = true, lev0 = true, kth = true, desc = true; int total = 0, lmax = P("lmax", 4);
    for (size_t l = 0; l < Ls.size(); l++) {
        auto& L = Ls[l]; if (l) desc &= Ls[l].m_target_level <= Ls[l - 1].m_target_level && Ls[l].m_r_max <= Ls[l - 1].m_r_max + 1e-9;
        for (unsigned lev = 0; lev <= L.m_target_level && (int)lev <= lmax; lev++) {
            unsigned first = (1u << lev) - 1, nc = 1u << lev; std::vector<int> cnt(nc, 0), cell(n), in(n);
            for (int i = 0; i < n; i++) { cell[i] = AngleHelper::cellForPoint(a[i], lev); double q = (R - r[i]) / h; in[i] = (int)q == (int)l; if (in[i] && cell[i] < (int)nc) cnt[cell[i]]++; }
            for (unsigned c = 0; c < nc; c++) {
                int k = L.pointsInCell(first + c, lev); auto it = L.cellIterators(first + c, lev); size &= k == cnt[c] && it.second - it.first == cnt[c]; if (k != cnt[c]) continue;
                int seen[8] = {0}, j = 0;
                for (auto p = it.first; p != it.second; ++p, ++j) { if (lev == 0) total++; int id = p->id; if (id < 0 || id >= n) { member = false; continue; } member &= in[id] && cell[id] == (int)c; once &= seen[id]++ == 0; kth &= L.kthPoint(first + c, lev, j).id == id; lev0 &= L.m_r_min <= r[id] + 1e-9 && r[id] <= L.m_r_max + 1e-9; }
            }
        }
    }
    sym_check(size, "a cell reports as many points of a radius layer as lie in it"); sym_check(member, "points reported for a cell and a radius layer lie in that cell and layer"); sym_check(once, "a point is reported once per cell"); sym_check(kth, "the k-th point of a cell is the k-th of its range");
    sym_check(lev0, "the radius of a point lies within the bounds of its layer"); sym_check(total == n, "every point belongs to exactly one layer"); sym_check(desc, "inner layers have smaller radii and are not deeper"); sym_cover("points");
}
extern "C" void C14_many() {
    int n = P("n", 100), T = P("T", 1), node = P("node", 0); double R = sym_param("R", 10), h = sym_param("h", 1); sym_set_threads(T); if (P("sched", 0)) sym_sched(P("sched", 0), P("sbound", 0));
    uint32_t s = P("salt", 1) * 2654435761u; auto rnd = [&](int m) { s = s * 1664525u + 1013904223u; return (int)((s >> 10) % (uint32_t)m); }; VD r(n), a(n); for (int i = 0; i < n; i++) { int u = rnd(5000), v = rnd(5000); r[i] = R * (1 - (u < v ? u : v) / 5000.01); a[i] = rnd(4096) * (2 * PI_ / 4096); }
    if (P("syma", 1)) a[node] = sym_real("a", sym_param("lo", 0), sym_param("hi", 6.283185307179586), 0); if (P("symr", 0)) r[node] = sym_real("r", 0, R, 0);
    std::vector<Point> pts; std::vector<unsigned> pre; auto Ls = RadiusLayer::buildPartition(r, a, R, h, pts, pre, false); sym_check((int)pts.size() == n, "every point is stored");
    bool size = true, member = true, once = true, lev0 = true, kth = true, desc = true; int total = 0, lmax = P("lmax", 4); std::vector<int> in(n), cell(n); for (int i = 0; i < n; i++) { double q = (R - r[i]) / h; in[i] = (int)sym_conc((int)q); }
    for (size_t l = 0; l < Ls.size(); l++) if (l) desc &= Ls[l].m_target_level <= Ls[l - 1].m_target_level && Ls[l].m_r_max <= Ls[l - 1].m_r_max + 1e-9;
    for (int lev = 0; lev <= lmax; lev++) { unsigned first = (1u << lev) - 1, nc = 1u << lev; for (int i = 0; i < n; i++) cell[i] = (int)sym_conc(AngleHelper::cellForPoint(a[i], lev));
        for (size_t l = 0; l < Ls.size(); l++) { auto& L = Ls[l]; if (lev > (int)L.m_target_level) continue; std::vector<int> cnt(nc, 0); for (int i = 0; i < n; i++) if (in[i] == (int)l && cell[i] < (int)nc) cnt[cell[i]]++; std::vector<unsigned char> seen(n, 0);
            for (unsigned c = 0; c < nc; c++) { int k = L.pointsInCell(first + c, lev); auto it = L.cellIterators(first + c, lev); size &= k == cnt[c] && it.second - it.first == cnt[c]; if (k != cnt[c]) continue; int j = 0;
                for (auto p = it.first; p != it.second; ++p, ++j) { if (lev == 0) total++; int id = p->id; if (id < 0 || id >= n) { member = false; continue; } member &= in[id] == (int)l && cell[id] == (int)c; once &= !seen[id]; seen[id] = 1; if (j < 3 || j == k - 1) kth &= L.kthPoint(first + c, lev, j).id == id; if (lev == 0) lev0 &= L.m_r_min <= r[id] + 1e-9 && r[id] <= L.m_r_max + 1e-9; } } } }
    sym_check(size, "a cell reports as many points of a radius layer as lie in it"); sym_check(member, "points reported for a cell and a radius layer lie in that cell and layer"); sym_check(once, "a point is reported once per cell"); sym_check(kth, "the k-th point of a cell is the k-th of its range");
    sym_check(lev0, "the radius of a point lies within the bounds of its layer"); sym_check(total == n, "every point belongs to exactly one layer"); sym_check(desc, "inner layers have smaller radii and are not deeper"); sym_cover("many points");
}
// ---- C12
extern "C" void C12_filter() {
    double mp = sym_param("maxp", 1), R = sym_param("R", 10), T = sym_param("T", 0.5); sym_ufpoints(1);
    decltype(HyperbolicTree<void (*)(int, int, int)>::m_typeI_filter) f(mp, R, T); double hi = sym_param("hi", mp * (1 - 1e-12)), lo = sym_param("lo", 0);
    double p = sym_real("prob", lo, hi, 0), x = sym_real("coshd", 1, sym_param("maxc", 1e9), 0);
    double up = f.coshDistForProb_upperBound(p), low = f.coshDistForProb_lowerBound(p);
    sym_check(up >= low, "the upper bound is not below the lower bound");
    static volatile double sink; for (double v : {up, low}) { double y = std::acosh(v); sink = std::exp((y - R) / (2 * T)); } // lemma points for acosh and exp
    double d = std::acosh(x), e = std::exp((d - R) / (2 * T)); // connection probability 1/(1+e)
    if (x > up) { sym_check(p * (1 + e) >= 1 - 1e-9, "a pair farther than the upper bound is no edge"); sym_cover("above"); }
    else if (x < low) { sym_check(p * (1 + e) <= 1 + 1e-9, "a pair closer than the lower bound is an edge"); sym_cover("below"); } else sym_cover("between");
}
// ---- C13
extern "C" void C13_point() {
    int L = P("L", 3); double alo = 0, ahi = 2 * PI_;
    if (P("win", 0)) { unsigned m = 1u << L; const unsigned S[] = {0, 4, m / 8 - 2, m / 4 - 2, m / 3, m / 2 - 3, m / 2 + 3, m / 3 * 2, m / 4 * 3 - 2, m - 8, m - 5, m / 7, m / 5 * 4, m / 11 * 3, m / 13 * 12, m / 2 + m / 16 - 2}; unsigned s = S[sym_choice("window", 16)]; alo = 2 * PI_ * s / m; ahi = 2 * PI_ * (s + 5) / m; }
    double a = sym_real("angle", alo, ahi, 0); unsigned c = AngleHelper::cellForPoint(a, L), first = AngleHelper::firstCellOfLevel(L);
    sym_check(c < AngleHelper::numCellsInLevel(L), "the cell of an angle is a cell of the level"); auto b = AngleHelper::bounds(first + c, L);
    sym_check(b.first <= a + 1e-12 && a < b.second + 1e-12, "an angle lies within the bounds of its cell");
    if (L > 0) sym_check(AngleHelper::parent(first + c) == AngleHelper::firstCellOfLevel(L - 1) + AngleHelper::cellForPoint(a, L - 1), "the cell of an angle one level up is the parent of its cell"); sym_cover("cell");
}
extern "C" void C13_tree() {
    unsigned c = sym_u32("cell"); sym_assume(c < (1u << 30)); unsigned a = AngleHelper::firstChild(c), b = AngleHelper::secondChild(c);
    sym_check(b == a + 1, "the children of a cell are consecutive"); sym_check(AngleHelper::parent(a) == c && AngleHelper::parent(b) == c, "the parent of a child is the cell");
    int L = sym_choice("L", 29); unsigned f = AngleHelper::firstCellOfLevel(L), m = AngleHelper::numCellsInLevel(L);
    if (c >= f && c < f + m) { unsigned g = AngleHelper::firstCellOfLevel(L + 1); sym_check(a >= g && b < g + AngleHelper::numCellsInLevel(L + 1), "children lie one level deeper"); sym_check(a - g == 2 * (c - f), "children keep the angular order"); sym_cover("level"); }
}
extern "C" void C13_touch() {
    int L = P("L", 4); unsigned m = 1u << L, f = m - 1, i = sym_u32("i"), j = sym_u32("j"); sym_assume(i < m && j < m); unsigned d = i > j ? i - j : j - i, cd = d < m - d ? d : m - d;
    bool t = AngleHelper::touching(f + i, f + j, L); sym_check(t == (cd <= 1), "cells touch iff they are equal or neighbours on the circle"); int b = AngleHelper::cellsBetween(f + i, f + j, L); sym_check(b == (cd <= 1 ? 0 : (int)cd - 1), "number of cells between two cells on the shorter way"); sym_cover(t ? "touch" : "apart");
}
extern "C" void C13_dist() {
    int L = P("L", 3); double a = sym_real("a", 0, 2 * PI_, 0), b = sym_real("b", 0, 2 * PI_, 0); unsigned f = AngleHelper::firstCellOfLevel(L), i = AngleHelper::cellForPoint(a, L), j = AngleHelper::cellForPoint(b, L);
    double s = a >= b ? a - b : b - a, o = 2 * PI_ - s, c = s <= o ? s : o; double d = AngleHelper::dist(f + i, f + j, L);
    sym_check(d <= c + 1e-12, "the distance of two cells is a lower bound for the angular distance of their points"); sym_check((d == 0) == AngleHelper::touching(f + i, f + j, L), "the distance is zero exactly for touching cells"); double w = 2 * PI_ / (1 << L);
    sym_check(c <= d + 2 * w + 1e-12, "the distance of two cells is tight up to their widths"); sym_cover("dist");
}
extern "C" void C13_distc() { // deep levels: distance of two arbitrary cells, in units of the cell width
    int L = P("L", 20); unsigned m = 1u << L, f = m - 1, i = P("ci", 0) ? sym_choice("ic", 4) * (m / 3) : sym_u32("i"), g[] = {0, 1, 2, 3, 5, m / 4, m / 2 - 1, m / 2, m / 2 + 1, m - 3, m - 2, m - 1}, k = g[sym_choice("gap", 12)]; sym_assume(i < m); unsigned j = (i + k) & (m - 1), cd = k < m - k ? k : m - k; double w = 2 * PI_ / m, d = AngleHelper::dist(f + i, f + j, L), e = AngleHelper::dist(f + j, f + i, L), ex = cd <= 1 ? 0 : (cd - 1) * w;
    sym_check(d <= ex * (1 + 1e-12) && d >= ex * (1 - 1e-12), "the distance of two cells is the exact minimum over their points"); sym_check(d == e, "the distance of two cells is symmetric"); sym_cover("distc");
}
// ---- C15: points in cells that do not touch at the comparison level of their radius layers are farther apart than R
extern "C" void C15_level() {
    double R = sym_param("R", 8), h = 1; int nl = (int)(R / h) + 1; static const int DI[] = {0, 1, 2, 4, 7, 11, 16}; int i = DI[sym_choice("i", P("ni", 5))], j = DI[sym_choice("j", P("ni", 5))]; sym_assume(i < nl && j < nl); sym_ufpoints(1);
    double ri = R - (i + 1) * h, rj = R - (j + 1) * h; unsigned lev = RadiusLayer::partitioningBaseLevel(ri, rj, R); sym_check(lev < 31, "comparison level is a valid level"); sym_check(lev == RadiusLayer::partitioningBaseLevel(rj, ri, R), "comparison level is symmetric");
    { unsigned deepest = RadiusLayer::partitioningBaseLevel(R - h, R - h, R); if (lev > deepest) lev = deepest; } // the tree has no deeper levels
    if (lev < 2) { sym_cover("shallow"); return; }
    // corners of the two layers; in between the distance is monotone in both radii where it exceeds R
    double a = ri < 0 ? 0 : ri, b = rj < 0 ? 0 : rj; if (sym_choice("ci", 2)) a = ri + h; if (sym_choice("cj", 2)) b = rj + h;
    unsigned f = AngleHelper::firstCellOfLevel(lev); double d = AngleHelper::dist(f, f + 2, lev), delta = sym_real("delta", d, PI_, 0);
    double sh = std::sin(delta / 2), cd = std::cosh(a - b) + 2 * sh * sh * std::sinh(a) * std::sinh(b); sym_check(cd >= std::cosh(R) * (1 - 1e-7), "points in cells that do not touch at the comparison level are farther apart than R"); sym_cover("apart");
    // and one level deeper would not be safe: the bound is tight up to a factor two of the angle
}
#endif
