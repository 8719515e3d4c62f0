// C04 Morton code, C05 point->cell, C06 touching / cell distance, C07 cell tree numbering (SpatialTreeCoordinateHelper, BitManipulation)
#include "sym.h"
#include <girgs/BitManipulation.h>
#include <girgs/SpatialTreeCoordinateHelper.h>
#include <girgs/Node.h>
#include <girgs/Helper.h>
using namespace girgs;
template <template <int> class F> static void byD() { switch (P("D", 2)) { case 1: F<1>::run(); break; case 2: F<2>::run(); break; case 3: F<3>::run(); break; case 4: F<4>::run(); break; case 5: F<5>::run(); break; } }
// reference: bit l of coordinate d sits at position l*D+d
template <int D> constexpr int nbits(int d) { return D > 4 ? 32 / D : (32 - d + D - 1) / D; }   // coordinate d has as many bits as there are positions l*D+d below 32 (D=5: the 6 bits per coordinate the generic code handles, 30-bit codes)
template <int D> static uint32_t refDeposit(const std::array<uint32_t, D>& c) { uint32_t r = 0; for (int d = 0; d < D; d++) for (int l = 0; l < nbits<D>(d); l++) r |= ((c[d] >> l) & 1u) << (l * D + d); return r; }
template <int D> static uint32_t refExtract(uint32_t x, int d) { uint32_t r = 0; for (int l = 0; l < nbits<D>(d); l++) r |= ((x >> (l * D + d)) & 1u) << l; return r; }

template <int D> struct Morton { static void run() {
    std::array<uint32_t, D> c; for (int d = 0; d < D; d++) { c[d] = sym_u32(VName("c", d)); int b = nbits<D>(d); if (b < 32) c[d] &= (1u << b) - 1; }
    uint32_t m = BitManipulation<D>::deposit(c);
    sym_check(m == refDeposit<D>(c), "deposit interleaves the bits: bit l of coordinate d at position l*D+d");
    auto e = BitManipulation<D>::extract(m); bool ok = true; for (int d = 0; d < D; d++) ok &= e[d] == c[d];
    sym_check(ok, "extract(deposit(c)) == c");
    { std::array<uint32_t, D> h; for (int d = 0; d < D; d++) h[d] = c[d] >> 1; sym_check(BitManipulation<D>::deposit(h) == (D == 32 ? 0 : m >> D), "dropping the lowest coordinate bits drops the lowest D code bits"); }
    uint32_t x = sym_u32("x"); if (D > 4) x &= (1u << (32 / D * D)) - 1;
    auto f = BitManipulation<D>::extract(x); bool okx = true; for (int d = 0; d < D; d++) okx &= f[d] == refExtract<D>(x, d);
    sym_check(okx, "extract reads coordinate d from positions l*D+d");
    sym_check(BitManipulation<D>::deposit(f) == x, "deposit(extract(x)) == x");
    sym_cover("morton");
} };
extern "C" void C04_morton() { byD<Morton>(); }

template <int D> struct Tree { static void run() {
    using H = SpatialTreeCoordinateHelper<D>; const int maxL = 31 / D - 1; // children of the deepest level still fit in 32 bits
    for (int L = 0; L <= maxL; L++) {
        uint64_t first = 0; for (int l = 0; l < L; l++) first += 1ull << (D * l); uint64_t cnt = 1ull << (D * L);
        sym_check(H::numChildren() == (1u << D), "2^D children per cell");
        sym_check(H::numCellsInLevel(L) == cnt, "2^(D*l) cells in level l"); sym_check(H::firstCellOfLevel(L) == first, "levels are numbered consecutively");
        uint32_t loc = sym_u32(VName("cell", L)) & (uint32_t)(cnt - 1); uint32_t cell = (uint32_t)first + loc;
        sym_check(H::cellOfLevel(cell) == loc, "cellOfLevel is the level-local index");
        uint32_t fc = H::firstChild(cell), lc = H::lastChild(cell); uint64_t nf = first + cnt;
        sym_check(fc == nf + (uint64_t)loc * (1u << D) && lc == fc + (1u << D) - 1, "children of a cell are the 2^D consecutive cells of the next level");
        uint32_t k = sym_u32(VName("k", L)) & ((1u << D) - 1), ch = fc + k;
        sym_check(H::parent(ch) == cell, "parent(child) == cell");
        auto pc = BitManipulation<D>::extract(loc); auto cc = BitManipulation<D>::extract(H::cellOfLevel(ch)); bool ok = true;
        for (int d = 0; d < D; d++) ok &= (cc[d] >> 1) == pc[d];
        sym_check(ok, "the children of a cell are its spatial halves");
    }
    sym_cover("tree");
} };
extern "C" void C07_tree() { byD<Tree>(); }

template <int D> struct CellPoint { static void run() {
    using H = SpatialTreeCoordinateHelper<D>; int L = P("L", 3);
    std::array<double, D> x; for (int d = 0; d < D; d++) { x[d] = sym_double(VName("x", d)); sym_assume(x[d] >= 0 && x[d] < 1); }
    uint32_t c = H::cellForPoint(x, L);
    sym_check((uint64_t)c < (1ull << (D * L)), "the cell index is inside the level");
    // the cell of the level below contains it: nesting
    auto b = BitManipulation<D>::extract(c); bool in = true; double w = std::ldexp(1.0, -L);
    for (int d = 0; d < D; d++) in &= (double)b[d] * w <= x[d] && x[d] < ((double)b[d] + 1.0) * w;
    sym_check(in, "cellForPoint returns the cell whose coordinate box contains the point");
    sym_cover("cellForPoint");
} };
extern "C" void C05_point() { byD<CellPoint>(); }
template <int D> struct CellNest { static void run() {
    using H = SpatialTreeCoordinateHelper<D>; int L = P("L", 3);
    std::array<double, D> x; for (int d = 0; d < D; d++) { x[d] = sym_double(VName("x", d)); sym_assume(x[d] >= 0 && x[d] < 1); }
    uint32_t c = H::cellForPoint(x, L), ch = H::cellForPoint(x, L + 1);
    sym_check(H::parent(H::firstCellOfLevel(L + 1) + ch) == H::firstCellOfLevel(L) + c, "the cell one level deeper is a child of the cell");
    sym_cover("nest");
} };
extern "C" void C05_nest() { byD<CellNest>(); }
template <int D> struct Bounds { static void run() {
    using H = SpatialTreeCoordinateHelper<D>; int L = P("L", 3); uint32_t loc = sym_u32("cell"); if (D * L < 32) loc &= (uint32_t)((1ull << (D * L)) - 1);
    auto b = H::bounds(H::firstCellOfLevel(L) + loc, L); double w = std::ldexp(1.0, -L); bool ok = true;
    for (int d = 0; d < D; d++) { uint32_t k = refExtract<D>(loc, d); ok &= b[d].first == (double)k * w && b[d].second == (double)(k + 1) * w; }
    sym_check(ok, "bounds is the dyadic box [k*2^-l,(k+1)*2^-l) of the level-local index");
    sym_cover("bounds");
} };
extern "C" void C05_bounds() { byD<Bounds>(); }

template <int D> struct Touch { static void run() {
    using H = SpatialTreeCoordinateHelper<D>; int L = P("L", 3); uint32_t mask = (uint32_t)((1ull << (D * L)) - 1);
    uint32_t a = sym_u32("a") & mask, b = sym_u32("b") & mask; uint32_t A = H::firstCellOfLevel(L) + a, B = H::firstCellOfLevel(L) + b;
    int N = 1 << L; bool touch = true; int mx = 0;
    for (int d = 0; d < D; d++) { int p = (int)refExtract<D>(a, d), q = (int)refExtract<D>(b, d); int df = p > q ? p - q : q - p; int r = df < N - df ? df : N - df; touch &= r <= 1; mx = r > mx ? r : mx; }
    sym_check(H::touching(A, B, L) == touch, "touching iff the cells are equal or adjacent on the torus in every coordinate");
    sym_check(H::touching(A, B, L) == H::touching(B, A, L), "touching is symmetric");
    sym_cover("touch");
} };
extern "C" void C06_touching() { byD<Touch>(); }
template <int D> struct Dist { static void run() {
    using H = SpatialTreeCoordinateHelper<D>; int L = P("L", 3); uint32_t mask = (uint32_t)((1ull << (D * L)) - 1);
    uint32_t a; if (P("fixa", 0)) { const uint32_t F[] = {0, mask & 0x9e3779b9u, mask, mask & 0x55555555u, 1u << (D * L - 1), mask - 1, mask & 0x11111111u, mask & 0xf0f0f0f0u}; a = F[sym_choice("a", P("fixa", 8))]; } else a = sym_u32("a") & mask;
    uint32_t b = sym_u32("b") & mask; uint32_t A = H::firstCellOfLevel(L) + a, B = H::firstCellOfLevel(L) + b;
    int N = 1 << L; int mx = 0;
    for (int d = 0; d < D; d++) { int p = (int)refExtract<D>(a, d), q = (int)refExtract<D>(b, d); int df = p > q ? p - q : q - p; int r = df < N - df ? df : N - df; mx = r > mx ? r : mx; }
    double ref = mx <= 1 ? 0.0 : (double)(mx - 1) * std::ldexp(1.0, -L);
    sym_check(H::dist(A, B, L) == ref, "dist is the gap between the cells on the torus: max over coordinates of (cells in between) * 2^-l, 0 when touching");
    sym_cover("dist");
} };
extern "C" void C06_dist() { byD<Dist>(); }
// dist is a lower bound for the torus distance of any two points of the cells; touching cells are exactly those with gap 0
template <int D> struct DistPts { static void run() {
    using H = SpatialTreeCoordinateHelper<D>; int L = P("L", 3); std::vector<double> p(D), q(D); std::array<double, D> pa, qa;
    for (int d = 0; d < D; d++) { p[d] = pa[d] = sym_real(VName("p", d), 0, 1, 12); q[d] = qa[d] = sym_real(VName("q", d), 0, 1, 12); }
    uint32_t A = H::firstCellOfLevel(L) + H::cellForPoint(pa, L), B = H::firstCellOfLevel(L) + H::cellForPoint(qa, L);
    Node<D> u(p, 1.0, 0), v(q, 1.0, 1); double dd = u.distance(v);
    sym_check(H::dist(A, B, L) <= dd, "cell distance is a lower bound for the distance of the points in the cells");
    if (!H::touching(A, B, L)) sym_check(H::dist(A, B, L) >= std::ldexp(1.0, -L), "non-touching cells are at least one cell width apart");
    else sym_check(dd <= 2 * std::ldexp(1.0, -L), "points in touching cells are at most two cell widths apart");
    sym_cover("distpts");
} };
extern "C" void C06_points() { byD<DistPts>(); }
