// C22/C23 weight scaling, C24 disc radius
#include "sym.h"
#include <limits>
typedef std::vector<double> VD;
static const double PI_ = 3.14159265358979323846;
#ifndef HYP
#include <girgs/Generator.h>
#include <girgs/WeightScaling.h>
// probability that two nodes with k = w_u*w_v/W at uniform random positions are adjacent
static double pairThreshold(double k, int D) { double v = k * (1 << D); return v <= 1 ? v : 1.0; }
static double ipow(double x, int a) { double r = 1; for (int i = 0; i < a; i++) r *= x; return r; }
static double pairGeneral(double k, int D, double alpha, int ia) { // integral of min(1,(k/x)^alpha) over x = dist^D
    double m = 1 << D; if (k * m >= 1) return 1; double ka = ia ? ipow(k, ia) : std::pow(k, alpha);
    return m * (k * (1 + 1 / (alpha - 1)) - ka * std::pow(m, alpha - 1) / (alpha - 1));
}
extern "C" void C22_scale() {
    int n = P("n", 3), D = P("D", 1), T = P("T", 1), symw = P("symw", 1); double alpha = sym_param("alpha", 0); bool thr = alpha == 0; if (thr) alpha = std::numeric_limits<double>::infinity(); int ia = P("alpha", 0); bool isint = ia == sym_param("alpha", 0); sym_set_threads(T);
    static const double S[][8] = {{1, 1, 1, 1, 1, 1, 1, 1}, {1, 1.5, 2, 3, 1.2, 1, 1, 1}, {1, 1, 8, 1, 1, 2, 1, 1}, {.5, 4, 4, .5, .5, 4, 1, 1}, {1, 1, 1, 50, 1, 1, 1, 1}, {2, 30, 1, 20, 3, 1, 1, 2}};
    VD w; if (P("gen", 0)) { uint32_t r = P("salt", 1) * 2654435761u; for (int i = 0; i < n; i++) { r = r * 1664525u + 1013904223u; int a = (r >> 8) & 7; r = r * 1664525u + 1013904223u; w.push_back((1 << ((r >> 20) & 7 & a)) * (1 + ((r >> 8) & 1023) / 1024.)); } } else w.assign(S[P("set", 0)], S[P("set", 0)] + n); for (int i = 0; i < symw; i++) w[i] = sym_real(VName("w", i), sym_param("wlo", 0.5), sym_param("whi", 2), 0); if (double m = sym_param("wmul", 0)) for (double& x : w) x *= m;
    double deg; static const double G[] = {0.2, 0.5, 0.9, 1.3, 2.2, 3.5}; deg = sym_param("deg", 0); if (deg == 0) { deg = G[sym_choice("deg", P("ndeg", 4))]; sym_assume(deg < (n - 1) * 0.9); } if (deg < 0) deg = sym_real("degree", -deg, sym_param("deghi", 1), 0);
    VD s = w; sym_termination(4e7, "weight scaling terminates"); double c = girgs::scaleWeights(s, deg, D, alpha);
    sym_check(c > 0, "the scaling factor is positive"); bool ok = true; for (int i = 0; i < n; i++) { double e = s[i] - w[i] * c; ok &= e <= 1e-9 * c && e >= -1e-9 * c; } sym_check(ok, "all weights are multiplied by the returned factor");
    double W = 0; for (double x : w) W += x; double E = 0;
    for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (u != v) { double k = w[u] * w[v] * c / W; E += thr ? pairThreshold(k, D) : pairGeneral(k, D, alpha, isint ? ia : 0); }
    E /= n; sym_check(E - deg <= 0.02 + 1e-4, "the expected average degree after scaling is not above the desired one"); sym_check(deg - E <= 0.02 + 1e-4, "the expected average degree after scaling is not below the desired one"); sym_cover("scaled");
}
// ---- C38: alphas without a scaling
extern "C" void C38_reject() {
    int n = P("n", 3), D = P("D", 1), T = P("T", 1); sym_set_threads(T); static const double S[] = {1, 3, .5, 20, 1, 7}; VD w(S, S + n); const VD w0 = w; double alpha; if (P("list", 0)) { static const double A[] = {std::numeric_limits<double>::quiet_NaN(), -std::numeric_limits<double>::quiet_NaN(), -std::numeric_limits<double>::infinity(), -1, -.5, -0.0, 0, 1, -5e-324, -8.5, -1e300, -1e-9, -2, -3}; alpha = A[sym_choice("alpha", 14)]; } else { alpha = sym_double("alpha"); sym_assume(!(alpha > 0) || alpha == 1); } bool thrown = false; sym_termination(4e7, "weight scaling terminates");
    try { girgs::scaleWeights(w, 1, D, alpha); } catch (...) { thrown = true; } sym_check(thrown, "alpha without a scaling is rejected"); bool same = (int)w.size() == n; for (int i = 0; same && i < n; i++) same &= w[i] == w0[i]; sym_check(same, "the weights stay unchanged if alpha is rejected"); sym_cover("rejected");
}
#else
#include <hypergirgs/Generator.h>
extern "C" void C24_radius() {
    double alpha = sym_param("alpha", .75), T = sym_param("T", 0); int n = P("n", 100); sym_ufpoints(1);
    double X = 2 * alpha * alpha / ((alpha - .5) * (alpha - .5)) * (T == 0 ? 1 / PI_ : T / std::sin(PI_ * T)); // expected degree = n * X * exp(-R/2)
    int g = P("grid", 16), k = sym_choice("bracket", g); double lo = 1 + (n - 2.0) * k / g, hi = 1 + (n - 2.0) * (k + 1) / g, deg = sym_real("deg", lo, hi, 0);
    double R = hypergirgs::calculateRadius(n, alpha, T, deg); double a = 2 * std::log(n * X / hi), b = 2 * std::log(n * X / lo);
    sym_check(R >= a - 1e-9 && R <= b + 1e-9, "the expected degree of the disc radius is the desired one"); double e = std::exp(-R / 2) * n * X; sym_check(e >= lo * (1 - 1e-6) && e <= hi * (1 + 1e-6), "the degree formula inverts the radius"); sym_cover("radius");
}
static double nkDegree(double n, double alpha, double R) { // expected average degree of the threshold model, Krioukov et al.
    double g = 2 * alpha + 1, xi = (g - 1) / (g - 2); return 2 / PI_ * xi * xi * n * (std::exp(-R / 2) + std::exp(-alpha * R) * (alpha * (R / 2) * (PI_ / 4 / alpha / alpha - (PI_ - 1) / alpha + (PI_ - 2)) - 1));
}
extern "C" void C24_networkit() {
    double alpha = sym_param("alpha", .75), T = sym_param("T", 0); int n = P("n", 1000); double lo = sym_param("lo", 1), hi = sym_param("hi", 10); sym_ufpoints(1); sym_termination(2e7, "radius search terminates");
    if (T == 0) { int k = sym_choice("window", P("nw", 24)); double wd = (hi - lo), deg = sym_real("deg", lo + k * wd, lo + (k + 1) * wd, 0), R = hypergirgs::calculateRadiusLikeNetworKit(n, alpha, T, deg); double d = nkDegree(n, alpha, R); sym_check(d - deg <= 0.0101 && deg - d <= 0.0101, "the expected degree of the disc radius is the desired one"); sym_cover("cold"); return; }
    int g = 8, k = sym_choice("bracket", g); double a = lo + (hi - lo) * k / g, b = lo + (hi - lo) * (k + 1) / g, deg = sym_real("deg", a, b, 0), R = hypergirgs::calculateRadiusLikeNetworKit(n, alpha, T, deg); double x = alpha / (alpha - .5);
    double X = 2 / PI_ * x * x * (PI_ * T / std::sin(PI_ * T)); sym_check(R >= 2 * std::log(n * X / b) - 1e-9 && R <= 2 * std::log(n * X / a) + 1e-9, "the expected degree of the disc radius is the desired one"); sym_cover("warm");
}
#endif
