// judging the log of random draws and emitted edges against connection probabilities (shared by GIRG and HRG harnesses)
#pragma once
#include "sym.h"
#include <algorithm>
extern unsigned long long verif_geo[8]; extern int verif_geo_i;
typedef std::vector<std::pair<int, int>> Edges;
static std::vector<VEvent> events() { std::vector<VEvent> r; for (auto& l : verif_log) for (int i = 0; i < l.n; i++) r.push_back(l.e[i]); return r; }
static void distinctDraws(const std::vector<VEvent>& ev) {
    bool ok = true; for (size_t i = 0; i < ev.size(); i++) for (size_t j = 0; j < i; j++) if (ev[i].kind != 3 && ev[j].kind != 3 && ev[i].gid == ev[j].gid && ev[i].idx == ev[j].idx) ok = false;
    sym_check(ok, "no random draw is used twice");
}
// the same for long logs: real and geometric draws
static bool manyDistinct(const std::vector<VEvent>& ev) { std::vector<std::pair<unsigned long long, unsigned long long>> d; for (auto& e : ev) if (e.kind != 3) d.push_back({e.gid, e.idx}); std::sort(d.begin(), d.end()); for (size_t i = 1; i < d.size(); i++) if (d[i] == d[i - 1]) return false; return true; }
static bool lt(double a, double b, double eps) { return a < b * (1 - eps); }
// two nodes: the whole run decides one pair
static void judgePair(const std::vector<VEvent>& ev, double p, double eps, int nodes = 2) {
    int nu = 0, ng = 0, ne = 0; double u = 0, a = 0, b = 1, q = 1; unsigned long long k = 0; bool order = true, gfirst = false;
    for (auto& e : ev) {
        if (e.kind == 1) { if (!nu) { u = e.v; a = e.a; b = e.b; } nu++; }
        else if (e.kind == 2) { if (!ng) { q = e.a; k = e.k; if (!nu) gfirst = true; } ng++; }
        else if (e.kind == 3) { ne++; order &= e.u >= 0 && e.u < nodes && e.v == e.v && e.w >= 0 && e.w < nodes && e.u != e.w; }
    }
    sym_check(order, "edge endpoints are two different nodes"); sym_check(ne <= 1, "a pair is reported at most once");
    if (nu == 0 && ng == 0) {
        if (ne) { sym_check(p >= 1 - eps, "an edge without a random draw has probability 1"); sym_cover("certain edge"); }
        else { sym_check(p <= 1.0001e-6, "a pair without a random draw has a negligible probability (below 1e-6)"); sym_cover("negligible pair"); }
    } else if (ng == 0 && nu == 1) {
        double thr = a + (b - a) * p;   // Pr[u < thr] == p for u uniform in [a,b)
        if (ne) sym_check(!(u > thr * (1 + eps)), "a pair tested directly is an edge only if its draw falls below the connection probability");
        else sym_check(!(u < thr * (1 - eps)), "a pair tested directly whose draw falls below the connection probability is an edge");
        sym_cover(ne ? "direct edge" : "direct non-edge");
    } else if (ng >= 1 && gfirst && nu <= 1) {
        sym_check(p <= q * (1 + eps), "skip probability bounds the connection probability");
        sym_check(q <= 1, "skip probability is a probability");
        if (nu == 0) { sym_check(k >= 1 && ne == 0, "a skipped pair is no edge, a pair not skipped is tested"); sym_cover("skipped"); }
        else {
            sym_check(k == 0, "a pair is tested only when the skip lands on it");
            double thr = a + (b - a) * (p / q);
            if (ne) sym_check(!(u > thr * (1 + eps)), "a pair hit by the skips is an edge only if its draw falls below p/q");
            else sym_check(!(u < thr * (1 - eps)), "a pair hit by the skips whose draw falls below p/q is an edge");
            sym_cover(ne ? "hit edge" : "hit non-edge");
        }
    } else sym_unsupported("a way of drawing the pair that the harness does not know");
}
// ---- skips: draws at their lower end give the order in which the pairs of each skip session lie; with arbitrary skips the
// tested pairs have to be exactly those the skips land on.
static bool unit(const VEvent& e) { return e.a == 0 && e.b == 1; } // draw of a direct test
struct Session { std::vector<std::pair<int, int>> pairs; double q; };
static void judgeSkips(const std::vector<VEvent>& e1, const std::vector<VEvent>& e2) {
    std::vector<Session> ss; size_t i = 0; // parse reference run: session = G (U edge G)*
    while (i < e1.size()) {
        if (e1[i].kind != 2) { i++; continue; }
        Session s; s.q = e1[i].a; i++;
        while (i + 2 < e1.size() && e1[i].kind == 1 && !unit(e1[i]) && e1[i + 1].kind == 3 && e1[i + 2].kind == 2) { s.pairs.push_back({e1[i + 1].u, e1[i + 1].w}); i += 3; }
        if (s.pairs.empty()) sym_unsupported("draws of a skip session not recognised"); ss.push_back(s);
    }
    size_t k = 0, j = 0; bool posOk = true, endOk = true, parse = true;
    while (j < e2.size()) {
        if (e2[j].kind != 2) { j++; continue; }
        if (k >= ss.size()) { parse = false; break; }
        Session& s = ss[k++]; unsigned long long r = e2[j].k; if (e2[j].a != s.q) parse = false; j++;
        while (j + 2 < e2.size() && e2[j].kind == 1 && !unit(e2[j]) && e2[j + 1].kind == 3 && e2[j + 2].kind == 2) {
            if (r >= s.pairs.size()) { posOk = false; break; }
            posOk &= s.pairs[r] == std::make_pair(e2[j + 1].u, e2[j + 1].w); r += 1 + e2[j + 2].k; j += 3;
        }
        endOk &= r >= s.pairs.size();
    }
    if (!parse) sym_unsupported("skip sessions of the two runs do not correspond");
    if (ss.empty()) { sym_cover("no skips"); return; }
    sym_check(k == ss.size(), "the same skip sessions take place"); sym_check(posOk, "a skip lands on the pair that many positions further"); sym_check(endOk, "a session ends only after its last pair has been passed");
    sym_cover(k > 1 ? "sessions" : "session");
}
// one skip session over na*nb pairs, more than 32 bit can count: the session hits the pairs number r1 and r2 (or passes the last pair)
template <class F> static void bigSession(unsigned long long na, unsigned long long nb, F session) {
    const unsigned long long N = na * nb, L[] = {0, na - 1, na, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, N - na, N - 2, N - 1, N, N + 1, N + 0x100000000ull, 1ull << 40, 1ull << 62}; const int K = 16;
    int i = sym_choice("r1", K), j = sym_choice("r2", K); sym_assume(L[j] > L[i]); for (auto& g : verif_geo) g = 1ull << 60; verif_geo_i = 0; verif_geo[0] = L[i]; verif_geo[1] = L[j] - L[i] - 1; verif_log_clear(); verif_log_on = 1; verif_draw_mode = 7; session(); verif_draw_mode = 0; verif_log_on = 0; verif_geo_i = 8;
    auto ev = events(); Edges e; int ng = 0; for (auto& v : ev) { if (v.kind == 3) e.push_back({v.u, v.w}); if (v.kind == 2) ng++; } if (!ng) sym_unsupported("no skips in this session");
    int hits = (L[i] < N) + (L[j] < N); sym_check((int)e.size() == hits, "a skip session tests exactly the pairs it hits and ends behind the last pair"); bool ok = true; for (auto& p : e) { int a = p.first < (int)na ? p.first : p.second, b = p.first + p.second - a; ok &= a >= 0 && a < (int)na && b >= (int)na && b < (int)(na + nb); } if (e.size() == 2) ok &= e[0] != e[1] && (e[0].first != e[1].second || e[0].second != e[1].first);
    sym_check(ok, "different positions of a skip session are different pairs of the two cells"); sym_cover(hits ? "hits" : "passed");
}
