// C20 weights and positions, C21 radii and angles: range and distribution of what the samplers return for arbitrary draws
#include "judge.h"
#ifndef HYP
#include <girgs/Generator.h>
#else
#include <hypergirgs/Generator.h>
#endif
typedef std::vector<double> VD;
static const double PI_ = 3.14159265358979323846;
static std::vector<VEvent> reals() { std::vector<VEvent> r; for (auto& e : events()) if (e.kind == 1) r.push_back(e); return r; }
// the values are the images of the draws under an inverse distribution function F (of the quantile in [0,1)): the draws are
// restricted to one bracket of a grid each, and up to the order the values have to lie between the images of its ends.
// When the draws of all values are in the same bracket the order does not matter.
template <class F> static void judge(const VD& v, const std::vector<VEvent>& ev, F f, bool incr, double eps) {
    int g = P("grid", 8), k = sym_choice("bracket", g); double a = (double)k / g, b = (double)(k + 1) / g;
    for (auto& e : ev) { double w = e.b - e.a; sym_assume(e.v >= e.a + a * w); sym_assume(e.v <= e.a + b * w); }
    double x = f(a), y = f(b); if (!incr) std::swap(x, y); bool ok = true; for (double z : v) ok &= z >= x - eps && z <= y + eps;
    sym_check(ok, "sampled values follow the inverse of the distribution function"); sym_cover("bracket");
}
// each draw is used for one value: moving one draw moves exactly one value (checked with the other draws in the lowest bracket)
#ifndef HYP
extern "C" void C20_weights() {
    int n = P("n", 2), T = P("T", 1); double ple = sym_param("ple", 2.5); sym_set_threads(T); verif_log_clear(); verif_log_on = 1; sym_ufpoints(1);
    VD w = girgs::generateWeights(n, ple, P("seed", 5), P("par", 1)); verif_log_on = 0; sym_check((int)w.size() == n, "one weight per node"); auto ev = events(); distinctDraws(ev); ev = reals();
    double lo = std::pow(0.5 * n, 1 - ple); auto F = [&](double q) { return std::pow((lo - 1) * q + 1, 1 / (1 - ple)); }; double f0 = F(0), f1 = F(1);
    bool r = true; for (double x : w) r &= x >= std::min(f0, f1) * (1 - 1e-12) && x <= std::max(f0, f1) * (1 + 1e-12); sym_check(r, "weights lie between 1 and n/2");
    sym_check((int)ev.size() >= n, "every weight has a draw of its own"); judge(w, ev, F, n >= 2, 1e-9 * n);
}
extern "C" void C20_positions() {
    int n = P("n", 2), D = P("D", 2), T = P("T", 1); sym_set_threads(T); verif_log_clear(); verif_log_on = 1;
    auto x = girgs::generatePositions(n, D, P("seed", 5), P("par", 1)); verif_log_on = 0; bool sz = (int)x.size() == n; for (auto& p : x) sz &= (int)p.size() == D; sym_check(sz, "n positions with D coordinates each"); auto ev = events(); distinctDraws(ev); ev = reals();
    VD c; for (auto& p : x) for (double v : p) c.push_back(v); bool r = true; for (double v : c) r &= v >= 0 && v < 1; sym_check(r, "coordinates lie in [0,1)");
    sym_check((int)ev.size() >= n * D, "every coordinate has a draw of its own"); judge(c, ev, [](double q) { return q; }, true, 1e-12);
}
// every value depends on a draw of its own: with one draw high and the others low exactly one value is high
template <class G> static void one(int cnt, G gen, double lowMax, double highMin, bool incr) {
    verif_log_clear(); verif_log_on = 1; VD v = gen(); verif_log_on = 0; auto ev = reals(); int h = sym_choice("high", cnt); sym_assume((int)ev.size() == cnt);
    for (int i = 0; i < cnt; i++) { double w = ev[i].b - ev[i].a; if (i == h) sym_assume(ev[i].v >= ev[i].a + 0.75 * w); else sym_assume(ev[i].v <= ev[i].a + 0.25 * w); }
    int c = 0; for (double x : v) { if (incr ? x >= highMin - 1e-9 : x <= highMin + 1e-9) c++; } sym_check(c == 1, "every sampled value depends on one draw of its own"); sym_cover("one"); (void)lowMax;
}
extern "C" void C20_indep() {
    int n = P("n", 3), D = P("D", 1), T = P("T", 1); sym_set_threads(T); sym_ufpoints(1); double ple = sym_param("ple", 2.5);
    if (P("weights", 1)) { double lo = std::pow(0.5 * n, 1 - ple); double hi = std::pow((lo - 1) * 0.75 + 1, 1 / (1 - ple)), l = std::pow((lo - 1) * 0.25 + 1, 1 / (1 - ple)); one(n, [&] { return girgs::generateWeights(n, ple, P("seed", 5), true); }, l, hi, true); }
    else one(n * D, [&] { VD c; for (auto& p : girgs::generatePositions(n, D, P("seed", 5), true)) for (double v : p) c.push_back(v); return c; }, .25, .75, true);
}
#else
extern "C" void C21_sample() {
    int n = P("n", 2), T = P("T", 1), what = P("what", 2); double alpha = sym_param("alpha", .75), R = sym_param("R", 8); sym_set_threads(T); sym_ufpoints(1); verif_log_clear(); verif_log_on = 1;
    VD r, a; int seed = P("seed", 5), par = P("par", 1);
    if (what == 0) r = hypergirgs::sampleRadii(n, alpha, R, seed, par); else if (what == 1) a = hypergirgs::sampleAngles(n, seed, par); else { auto p = hypergirgs::sampleRadiiAndAngles(n, alpha, R, seed, par); r = p.first; a = p.second; }
    verif_log_on = 0; auto ev = events(); distinctDraws(ev); ev = reals(); sym_check((what == 1 || (int)r.size() == n) && (what == 0 || (int)a.size() == n), "one value per node");
    double cR = std::cosh(alpha * R), mx = std::acosh(cR) / alpha; bool ok = true; for (double x : r) ok &= x >= 0 && x <= std::max(mx, R) * (1 + 1e-12); sym_check(ok, "radii lie between 0 and R"); ok = true; for (double x : a) ok &= x >= 0 && x < 2 * PI_; sym_check(ok, "angles lie in [0,2pi)");
    sym_check((int)ev.size() >= (int)(r.size() + a.size()), "every value has a draw of its own"); VD q = r; for (double x : a) q.push_back(x); if (q.empty()) return;
    int g = P("grid", 8), k = sym_choice("bracket", g); double lo = (double)k / g, hi = (double)(k + 1) / g;
    for (auto& e : ev) { double w = e.b - e.a; sym_assume(e.v >= e.a + lo * w); sym_assume(e.v <= e.a + hi * w); }
    auto F = [&](double p) { return std::acosh(1 + p * (cR - 1)) / alpha; }; ok = true; double f0 = F(lo), f1 = F(hi); for (double x : r) ok &= x >= f0 - 1e-6 && x <= f1 + 1e-6; sym_check(ok, "radii follow the inverse of the radial distribution function");
    ok = true; for (double x : a) ok &= x >= 2 * PI_ * lo - 1e-9 && x <= 2 * PI_ * hi + 1e-9; sym_check(ok, "angles are uniform on the circle"); sym_cover("bracket");
}
extern "C" void C21_indep() {
    int n = P("n", 2), T = P("T", 1), what = P("what", 2); double alpha = sym_param("alpha", .75), R = sym_param("R", 8); sym_set_threads(T); sym_ufpoints(1); verif_log_clear(); verif_log_on = 1; VD r, a; int seed = P("seed", 5), par = P("par", 1);
    if (what == 0) r = hypergirgs::sampleRadii(n, alpha, R, seed, par); else if (what == 1) a = hypergirgs::sampleAngles(n, seed, par); else { auto p = hypergirgs::sampleRadiiAndAngles(n, alpha, R, seed, par); r = p.first; a = p.second; }
    verif_log_on = 0; auto ev = reals(); int cnt = r.size() + a.size(), h = sym_choice("high", cnt); sym_assume((int)ev.size() == cnt);
    for (int i = 0; i < cnt; i++) { double w = ev[i].b - ev[i].a; if (i == h) sym_assume(ev[i].v >= ev[i].a + 0.75 * w); else sym_assume(ev[i].v <= ev[i].a + 0.25 * w); }
    double cR = std::cosh(alpha * R), rm = std::acosh(1 + 0.75 * (cR - 1)) / alpha; int c = 0; for (double x : r) if (x >= rm - 1e-6) c++; for (double x : a) if (x >= 1.5 * PI_ - 1e-9) c++; sym_check(c == 1, "every sampled value depends on one draw of its own"); sym_cover("one");
}
#endif
// many values with the chunk size of production: number of values and threads around the points where the work is split differently
static bool manyOk(VD v, std::vector<double> img, double eps) { if (v.size() != img.size()) return false; std::sort(v.begin(), v.end()); std::sort(img.begin(), img.end()); bool ok = true; for (size_t i = 0; i < v.size(); i++) ok &= v[i] >= img[i] - eps && v[i] <= img[i] + eps; return ok; }
static double q01(const VEvent& e) { return (e.v - e.a) / (e.b - e.a); }
extern "C" void samplers_many() {
    int n = P("n", 19999) + sym_choice("dn", P("ndn", 4)), T = 1 + sym_choice("threads", P("nth", 4)), what = P("what", 0); sym_set_threads(T); verif_log_clear(); verif_log_on = 1; verif_draw_mode = 5; VD v, w; size_t rows = n; bool sz = true;
#ifndef HYP
    int D = P("D", 2); double ple = sym_param("ple", 2.5); if (what == 0) v = girgs::generateWeights(n, ple, P("seed", 5), true); else { auto x = girgs::generatePositions(n, D, P("seed", 5), true); rows = x.size(); for (auto& p : x) { sz &= (int)p.size() == D; for (double c : p) v.push_back(c); } }
#else
    double alpha = sym_param("alpha", .75), R = sym_param("R", 20); if (what == 0) v = hypergirgs::sampleRadii(n, alpha, R, P("seed", 5), true); else if (what == 1) w = hypergirgs::sampleAngles(n, P("seed", 5), true); else { auto p = hypergirgs::sampleRadiiAndAngles(n, alpha, R, P("seed", 5), true); v = p.first; w = p.second; }
#endif
    verif_draw_mode = 0; verif_log_on = 0; auto ev = events(); sym_check(manyDistinct(ev), "no random draw is used twice"); ev = reals(); VD q; for (auto& e : ev) q.push_back(q01(e));
#ifndef HYP
    sym_check((int)rows == n && sz, what ? "n positions with D coordinates each" : "one weight per node"); sym_check(ev.size() >= v.size(), "every value has a draw of its own"); double lo = std::pow(0.5 * n, 1 - ple); if (what == 0) for (auto& x : q) x = std::pow((lo - 1) * x + 1, 1 / (1 - ple));
    if (ev.size() == v.size()) sym_check(manyOk(v, q, 1e-9 * (what ? 1 : n)), "sampled values follow the inverse of the distribution function"); std::sort(v.begin(), v.end()); bool dup = false; for (size_t i = 1; i < v.size(); i++) dup |= v[i] == v[i - 1]; sym_check(!dup, "different draws give different values");
#else
    sym_check((what == 1 || (int)v.size() == n) && (what == 0 || (int)w.size() == n), "one value per node"); sym_check(ev.size() >= v.size() + w.size(), "every value has a draw of its own"); double cR = std::cosh(alpha * R);
    if (what == 0 && ev.size() == v.size()) { for (auto& x : q) x = std::acosh(1 + x * (cR - 1)) / alpha; sym_check(manyOk(v, q, 1e-6), "radii follow the inverse of the radial distribution function"); }
    if (what == 1 && ev.size() == w.size()) { for (auto& x : q) x *= 2 * PI_; sym_check(manyOk(w, q, 1e-9), "angles are uniform on the circle"); }
    auto cdf = [](VD x, double hi) { bool in = true; for (double y : x) in &= y >= 0 && y <= hi * (1 + 1e-12); return in; }; if (what != 1) sym_check(cdf(v, R), "radii lie between 0 and R"); if (what) sym_check(cdf(w, 2 * PI_), "angles lie in [0,2pi)");
    if (what == 2 && ev.size() == v.size() + w.size()) { VD back; for (double r : v) back.push_back((std::cosh(alpha * r) - 1) / (cR - 1)); for (double a : w) back.push_back(a / (2 * PI_)); sym_check(manyOk(back, q, 1e-6), "radii and angles follow the inverse of their distribution functions"); }
#endif
    sym_cover("many");
}
static bool sameV(const VD& a, const VD& b) { bool ok = a.size() == b.size(); for (size_t i = 0; ok && i < a.size(); i++) ok &= a[i] == b[i]; return ok; }
#ifndef HYP
extern "C" void C16_sample() {
    int n = P("n", 3), D = P("D", 2), T = P("T", 2), seed = P("seed", 5), par = P("par", 1); sym_set_threads(T); VD a, b; sym_sched(0, 0);
    auto flat = [](const std::vector<VD>& x) { VD c; for (auto& p : x) for (double v : p) c.push_back(v); return c; };
    if (P("what", 0) == 0) { a = girgs::generateWeights(n, 2.5, seed, par); sym_sched(P("s2", 2), P("sbound", 1)); b = girgs::generateWeights(n, 2.5, seed, par); } else { a = flat(girgs::generatePositions(n, D, seed, par)); sym_sched(P("s2", 2), P("sbound", 1)); b = flat(girgs::generatePositions(n, D, seed, par)); }
    sym_check(sameV(a, b), "two runs with the same seed and thread count give the same samples"); sym_cover("same");
}
#else
extern "C" void C16_sample() {
    int n = P("n", 3), T = P("T", 2), seed = P("seed", 5), par = P("par", 1), what = P("what", 2); sym_set_threads(T); sym_sched(0, 0);
    auto run = [&] { if (what == 0) return hypergirgs::sampleRadii(n, .75, 10, seed, par); if (what == 1) return hypergirgs::sampleAngles(n, seed, par); auto p = hypergirgs::sampleRadiiAndAngles(n, .75, 10, seed, par); VD v = p.first; v.insert(v.end(), p.second.begin(), p.second.end()); return v; };
    VD a = run(); sym_sched(P("s2", 2), P("sbound", 1)); VD b = run(); sym_check(sameV(a, b), "two runs with the same seed and thread count give the same samples"); sym_cover("same");
}
#endif
