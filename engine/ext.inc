// ------------------------------------------------------------------ external functions and intrinsics
enum Fn { F_POW, F_EXP, F_LOG, F_LOG2, F_COS, F_SIN, F_COSH, F_SINH, F_TANH, F_ACOSH, F_ASINH, F_ATANH, F_SQRT, F_EXP2, F_LOG10, F_LOG1P, F_EXPM1, F_ACOS, F_ASIN, F_ATAN, F_TAN, F_CBRT, F_NUM };
static const char* fnName[] = {"pow", "exp", "log", "log2", "cos", "sin", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh", "sqrt", "exp2", "log10", "log1p", "expm1", "acos", "asin", "atan", "tan", "cbrt"};
static double fnEval(int f, double a, double b) {
    switch (f) { case F_POW: return pow(a, b); case F_EXP: return exp(a); case F_LOG: return log(a); case F_LOG2: return log2(a); case F_COS: return cos(a); case F_SIN: return sin(a); case F_COSH: return cosh(a); case F_SINH: return sinh(a); case F_TANH: return tanh(a); case F_ACOSH: return acosh(a); case F_ASINH: return asinh(a); case F_ATANH: return atanh(a); case F_SQRT: return sqrt(a); case F_EXP2: return exp2(a); case F_LOG10: return log10(a); case F_LOG1P: return log1p(a); case F_EXPM1: return expm1(a); case F_ACOS: return acos(a); case F_ASIN: return asin(a); case F_ATAN: return atan(a); case F_TAN: return tan(a); case F_CBRT: return cbrt(a); }
    return NAN;
}
// monotonicity on the domain: 1 increasing, -1 decreasing, 0 none. cosh only on x >= 0.
static int fnMono(int f) { switch (f) { case F_EXP: case F_LOG: case F_LOG2: case F_SINH: case F_TANH: case F_ACOSH: case F_ASINH: case F_ATANH: case F_SQRT: case F_EXP2: case F_LOG10: case F_LOG1P: case F_EXPM1: case F_ASIN: case F_ATAN: case F_CBRT: return 1; case F_ACOS: return -1; } return 0; }
static Val cacheReal(const z3::expr& e) { return mkRealV(e, -INFINITY, INFINITY, 0, false); }
static void addFact(Exec& E, State& s, const z3::expr& e) { E.add(s, e); if (s.model) { try { if (!s.model->eval(e, true).is_true()) s.model.reset(); } catch (z3::exception&) { s.model.reset(); } } }
// a fact about a freshly introduced constant never removes solutions for the inputs; we may have to recompute the model
static void ufRelate(Exec& E, State& s, int fn, const UF& A, const UF& B) {
    if (A.res.conc() && B.res.conc()) return;
    if (fn == F_POW) {
        // same exponent
        if (A.a[1].conc() && B.a[1].conc()) { if (A.a[1].c != B.a[1].c) return; double e = asD(A.a[1].c); z3::expr x = toReal(A.a[0]), y = toReal(B.a[0]), p = toReal(A.res), q = toReal(B.res); if (e > 0) { addFact(E, s, z3::implies(x <= y, p <= q)); addFact(E, s, z3::implies(y <= x, q <= p)); } else { addFact(E, s, z3::implies(x <= y, p >= q)); addFact(E, s, z3::implies(y <= x, q >= p)); } return; }
        z3::expr e1 = toReal(A.a[1]), e2 = toReal(B.a[1]); z3::expr x = toReal(A.a[0]), y = toReal(B.a[0]), p = toReal(A.res), q = toReal(B.res);
        addFact(E, s, z3::implies(e1 == e2 && e1 > realConst(0) && x <= y, p <= q)); addFact(E, s, z3::implies(e1 == e2 && e1 > realConst(0) && y <= x, q <= p)); return;
    }
    z3::expr x = toReal(A.a[0]), y = toReal(B.a[0]), p = toReal(A.res), q = toReal(B.res);
    int m = fnMono(fn);
    if (m == 1) { addFact(E, s, z3::implies(x <= y, p <= q)); addFact(E, s, z3::implies(y <= x, q <= p)); }
    else if (m == -1) { addFact(E, s, z3::implies(x <= y, p >= q)); addFact(E, s, z3::implies(y <= x, q >= p)); }
    else if (fn == F_COSH) { RI a = riOf(A.a[0]), b = riOf(B.a[0]); if (a.lo >= 0 && b.lo >= 0) { addFact(E, s, z3::implies(x <= y, p <= q)); addFact(E, s, z3::implies(y <= x, q <= p)); } else { addFact(E, s, z3::implies(x <= y && x >= realConst(0), p <= q)); addFact(E, s, z3::implies(y <= x && y >= realConst(0), q <= p)); addFact(E, s, z3::implies(x == y || x == -y, p == q)); } }
    else {
        addFact(E, s, z3::implies(x == y, p == q));
        RI a = riOf(A.a[0]), b = riOf(B.a[0]);
        if ((fn == F_COS || fn == F_SIN) && (a.lo < 0 || b.lo < 0)) { // parity and period
            bool c = fn == F_COS; z3::expr twopi = realConst(2 * M_PI), eps = realConst(1e-14), nq = c ? q : -q; addFact(E, s, z3::implies(x == -y, p == nq));
            auto near = [&](const z3::expr& u, const z3::expr& v) { return u - v <= eps && v - u <= eps; };
            addFact(E, s, z3::implies(x == y - twopi || y == x - twopi, near(p, q))); addFact(E, s, z3::implies(x == twopi - y || -x == twopi + y, near(p, nq)));
        }
    }
}
static int fnInverse(int f) { switch (f) { case F_EXP: return F_LOG; case F_LOG: return F_EXP; case F_COSH: return F_ACOSH; case F_ACOSH: return F_COSH; case F_SINH: return F_ASINH; case F_ASINH: return F_SINH; case F_TANH: return F_ATANH; case F_ATANH: return F_TANH; } return -1; }
static bool ufCall(Exec& E, State& s, int fn, const Val& a0, const Val& a1, Val& r) {
    bool two = fn == F_POW;
    if (a0.conc() && (!two || a1.conc())) {
        double v = fnEval(fn, asD(a0.c), two ? asD(a1.c) : 0); r = Val(asU(v));
        if (s.ufpoints && std::isfinite(v) && std::isfinite(asD(a0.c)) && (!two || std::isfinite(asD(a1.c)))) {
            int n = 0; for (auto& u : s.ufs) { if (u.fn == fn) { n++; if (u.res.conc() && u.a[0].c == a0.c && (!two || u.a[1].c == a1.c)) return true; } }
            if (n > 80) return true;
            UF u; u.fn = fn; u.a[0] = a0; u.a[1] = a1; u.res = r; for (auto& w : s.ufs) if (w.fn == fn && !w.res.conc()) ufRelate(E, s, fn, w, u); s.ufs.push_back(u);
        }
        return true;
    }
    if (a0.undef() || (two && a1.undef())) { r = undefVal(); return true; }
    if (fpSide(a0) || (two && fpSide(a1))) {
        if (fn == F_SQRT) { s.hasFP = true; r = Val(new Sym(K_FP, 64, z3::to_expr(*gz, Z3_mk_fpa_sqrt(*gz, rne(), toFP(a0))))); return true; }
        throw Unsupported(string("libm ") + fnName[fn] + " on a symbolic IEEE value"); }
    s.hasReal = true;
    if (two) {
        if (a1.conc()) {
            double e = asD(a1.c); if (e == 0) { r = Val(asU(1.0)); return true; } if (e == 1) { r = a0; return true; }
            if (e == std::floor(e) && std::fabs(e) <= 4) { if (e < 0 && riOf(a0).lo <= 0 && riOf(a0).hi >= 0 && E.decide(s, toReal(a0) == realConst(0))) { r = Val(asU(INFINITY)); return true; } Val p = a0; for (int k = 1; k < (int)std::fabs(e); k++) p = E.fbin(s, Instruction::FMul, p, a0); if (e < 0) p = E.fbin(s, Instruction::FDiv, Val(asU(1.0)), p); r = p; return true; }
            if (std::isinf(e)) { if (E.decide(s, toReal(a0) == realConst(1))) { r = Val(asU(1.0)); return true; } bool big = E.decide(s, toReal(a0) > realConst(1)); r = Val(asU(big == (e > 0) ? INFINITY : 0.0)); return true; }
            RI x = riOf(a0); if (x.lo <= 0) { if (E.decide(s, toReal(a0) == realConst(0))) { r = Val(asU(e > 0 ? 0.0 : INFINITY)); return true; } if (x.lo < 0 && E.decide(s, toReal(a0) < realConst(0))) { if (e == 2) { r = E.fbin(s, Instruction::FMul, a0, a0); return true; } throw Unsupported("pow of a negative symbolic base"); } }
        } else if (a0.conc()) { double b = asD(a0.c); if (b == 1) { r = Val(asU(1.0)); return true; } if (b == 0) { if (E.decide(s, toReal(a1) > realConst(0))) { r = Val(asU(0.0)); return true; } throw Unsupported("pow(0, nonpositive)"); } if (std::isinf(b) && b > 0) { if (E.decide(s, toReal(a1) > realConst(0))) { r = Val(asU(INFINITY)); return true; } throw Unsupported("pow(inf)"); } if (b < 0) throw Unsupported("pow negative base"); }
        else { RI x = riOf(a0); if (x.lo <= 0 && E.decide(s, toReal(a0) <= realConst(0))) throw Unsupported("pow nonpositive base, symbolic exponent"); }
    } else if (a0.conc()) {}
    if ((fn == F_LOG || fn == F_LOG2 || fn == F_LOG10) && riOf(a0).lo <= 0) { if (E.decide(s, toReal(a0) == realConst(0))) { r = Val(asU(-INFINITY)); return true; } if (E.decide(s, toReal(a0) < realConst(0))) { r = Val(asU(NAN)); return true; } }
    if (fn == F_SQRT && riOf(a0).lo < 0) { if (E.decide(s, toReal(a0) < realConst(0))) { r = Val(asU(NAN)); return true; } }
    if (fn == F_ACOSH && riOf(a0).lo < 1) { if (E.decide(s, toReal(a0) < realConst(1))) { r = Val(asU(NAN)); return true; } }
    z3::expr e0 = toReal(a0);
    for (auto& u : s.ufs) if (u.fn == fn && !u.res.conc() && z3::eq(toReal(u.a[0]), e0) && (!two || (u.a[1].conc() && a1.conc() ? u.a[1].c == a1.c : (!u.a[1].conc() && !a1.conc() && z3::eq(toReal(u.a[1]), toReal(a1)))))) { r = u.res; return true; }
    z3::expr y = gz->real_const((string(fnName[fn]) + "!" + std::to_string(E.fresh++)).c_str());
    double lo = -INFINITY, hi = INFINITY; RI x = riOf(a0); z3::expr one = realConst(1), zero = realConst(0);
    std::vector<z3::expr> facts;
    auto sl = [](double v) { return v < 0 ? v * (1 + 1e-14) : v * (1 - 1e-14); }; auto su = [](double v) { return v < 0 ? v * (1 - 1e-14) : v * (1 + 1e-14); };
    auto monoRange = [&](int m) { double l = m > 0 ? x.lo : x.hi, h = m > 0 ? x.hi : x.lo; double vl = fnEval(fn, l, 0), vh = fnEval(fn, h, 0); if (std::isfinite(vl)) lo = std::max(lo, sl(vl)); if (std::isfinite(vh)) hi = std::min(hi, su(vh)); };
    switch (fn) {
    case F_POW: {
        lo = 0; facts.push_back(y > zero);
        if (a1.conc()) { double e = asD(a1.c); if (e > 0) { facts.push_back(z3::implies(e0 >= one, y >= one)); facts.push_back(z3::implies(e0 <= one, y <= one)); double vl = x.lo > 0 ? pow(x.lo, e) : 0, vh = pow(x.hi, e); if (std::isfinite(vl)) lo = sl(vl); if (std::isfinite(vh)) hi = su(vh); } else { facts.push_back(z3::implies(e0 >= one, y <= one)); facts.push_back(z3::implies(e0 <= one, y >= one)); double vl = pow(x.hi, e), vh = x.lo > 0 ? pow(x.lo, e) : INFINITY; if (std::isfinite(vl)) lo = sl(vl); if (std::isfinite(vh)) hi = su(vh); } }
        else { z3::expr ee = toReal(a1); facts.push_back(z3::implies(ee >= zero && e0 >= one, y >= one)); facts.push_back(z3::implies(ee >= zero && e0 <= one, y <= one)); facts.push_back(z3::implies(ee <= zero && e0 >= one, y <= one)); facts.push_back(z3::implies(ee <= zero && e0 <= one, y >= one)); facts.push_back(z3::implies(ee >= one && e0 >= one, y >= e0)); facts.push_back(z3::implies(ee >= one && e0 <= one, y <= e0)); }
        break; }
    case F_EXP: case F_EXP2: lo = 0; facts.push_back(y > zero); facts.push_back(z3::implies(e0 >= zero, y >= one)); facts.push_back(z3::implies(e0 <= zero, y <= one)); monoRange(1); break;
    case F_LOG: case F_LOG10: facts.push_back(z3::implies(e0 >= one, y >= zero)); facts.push_back(z3::implies(e0 <= one, y <= zero)); monoRange(1); break;
    case F_LOG2: { monoRange(1); int k0 = std::isfinite(lo) ? (int)std::floor(lo) : -40, k1 = std::isfinite(hi) ? (int)std::ceil(hi) : 40; k0 = std::max(k0, -60); k1 = std::min(k1, 60); for (int k = k0; k <= k1; k++) { z3::expr pk = realConst(std::ldexp(1.0, k)), kk = realConst(k); facts.push_back((y >= kk) == (e0 >= pk)); } break; }
    case F_COS: case F_SIN: lo = -1; hi = 1; break;
    case F_COSH: lo = 1; facts.push_back(y >= one); if (x.lo >= 0) monoRange(1); else { double v = cosh(std::max(std::fabs(x.lo), std::fabs(x.hi))); if (std::isfinite(v)) hi = su(v); } break;
    case F_TANH: lo = -1; hi = 1; monoRange(1); break;
    case F_ACOSH: lo = 0; monoRange(1); break;
    case F_SQRT: lo = 0; facts.push_back(y >= zero); facts.push_back(y * y == e0); monoRange(1); break;
    case F_SINH: monoRange(1); facts.push_back(z3::implies(e0 >= zero, y >= e0)); facts.push_back(z3::implies(e0 <= zero, y <= e0)); break;
    default: { int m = fnMono(fn); if (m) monoRange(m); }
    }
    if (std::isfinite(lo)) facts.push_back(y >= realConst(lo)); if (std::isfinite(hi)) facts.push_back(y <= realConst(hi));
    for (auto& q : facts) addFact(E, s, q);
    r = mkRealV(y, lo, hi, 0, false);
    UF u; u.fn = fn; u.a[0] = a0; u.a[1] = a1; u.res = r; int cnt = 0;
    for (auto it = s.ufs.rbegin(); it != s.ufs.rend() && cnt < 200; ++it) if (it->fn == fn) { UF w = *it; ufRelate(E, s, fn, w, u); cnt++; }
    int inv = fnInverse(fn); cnt = 0; if (inv >= 0) for (auto it = s.ufs.rbegin(); it != s.ufs.rend() && cnt < 20; ++it) if (it->fn == inv && !it->res.conc()) { UF w = *it; cnt++; z3::expr c = e0 == toReal(w.res); if (fn == F_ACOSH) c = c && toReal(w.a[0]) >= realConst(0); addFact(E, s, z3::implies(c, y == toReal(w.a[0]))); }
    s.ufs.push_back(u); return true;
}
double Exec::ufTrue(int fn, double a, double ex) { return fnEval(fn, a, ex); }
void Exec::pointLemma(State& s, const UF& u, double a, double ex) {
    z3::expr x = toReal(u.a[0]), y = toReal(u.res); int fn = u.fn; RI r = riOf(u.a[0]);
    auto up = [](double v) { return v + 1e-12 * std::fabs(v) + 1e-300; }; auto dn = [](double v) { return v - 1e-12 * std::fabs(v) - 1e-300; };
    double a1 = std::nextafter(a, INFINITY), a0 = std::nextafter(a, -INFINITY);
    auto f = [&](double v) { return fnEval(fn, v, ex); };
    auto fact = [&](const z3::expr& e) { add(s, e); };
    if (fn == F_COS || fn == F_SIN) { double t = f(a); z3::expr d = z3::ite(x >= realConst(a), x - realConst(a), realConst(a) - x) + realConst(1e-12); fact(y <= realConst(t) + d && y >= realConst(t) - d);
        // monotone on half periods
        double off = fn == F_COS ? 0 : -0.5; int k = (int)std::floor(a / M_PI - off); double L = (k + off) * M_PI, H = (k + off + 1) * M_PI; double gl = L + 1e-15 * (1 + std::fabs(L)), gh = H - 1e-15 * (1 + std::fabs(H)); if (k == 0 && fn == F_COS) gl = 0;
        bool dec = fn == F_COS ? (k & 1) == 0 : (k & 1) != 0; z3::expr in = x >= realConst(gl) && x <= realConst(gh); z3::expr hiV = realConst(t + 1e-13), loV = realConst(t - 1e-13), A = realConst(a);
        fact(z3::implies(in && (dec ? x >= A : x <= A), y <= hiV)); fact(z3::implies(in && (dec ? x <= A : x >= A), y >= loV)); return; }
    int m = fnMono(fn); if (fn == F_POW) m = ex > 0 ? 1 : -1; if (fn == F_COSH && r.lo >= 0) m = 1;
    if (m == 1) { double v1 = f(a1), v0 = f(a0); if (std::isfinite(v1)) fact(z3::implies(x <= realConst(a1), y <= realConst(up(v1)))); if (std::isfinite(v0)) fact(z3::implies(x >= realConst(a0), y >= realConst(dn(v0)))); }
    else if (m == -1) { double v1 = f(a1), v0 = f(a0); if (std::isfinite(v1)) fact(z3::implies(x <= realConst(a1), y >= realConst(dn(v1)))); if (std::isfinite(v0)) fact(z3::implies(x >= realConst(a0), y <= realConst(up(v0)))); }
    // tangents of convex / concave functions
    double slope = NAN; int cvx = 0; double v = f(a);
    switch (fn) { case F_POW: slope = ex * std::pow(a, ex - 1); cvx = (ex > 1 || ex < 0) ? 1 : -1; break; case F_EXP: slope = v; cvx = 1; break; case F_EXP2: slope = v * M_LN2; cvx = 1; break; case F_LOG: slope = 1 / a; cvx = -1; break; case F_LOG2: slope = 1 / (a * M_LN2); cvx = -1; break; case F_COSH: slope = std::sinh(a); cvx = 1; break; case F_ACOSH: slope = 1 / std::sqrt(a * a - 1); cvx = -1; break; case F_SQRT: slope = 0.5 / std::sqrt(a); cvx = -1; break; }
    if (cvx && std::isfinite(slope) && std::isfinite(v) && std::isfinite(r.lo) && std::isfinite(r.hi)) {
        double slack = 1e-12 * (std::fabs(v) + std::fabs(slope) * std::max(std::fabs(r.hi - a), std::fabs(r.lo - a))) + 1e-300;
        z3::expr l = realConst(v) + realConst(slope) * (x - realConst(a)); if (cvx > 0) fact(y >= l - realConst(slack)); else fact(y <= l + realConst(slack)); }
    if (!m && !cvx) { double w = 1e-9 * (1 + std::fabs(a)); (void)w; }
}
template <int fn> static bool hLibm(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { return ufCall(E, s, fn, a[0], a.size() > 1 ? a[1] : Val(), r); }
static bool hLibmL(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { throw Unsupported("long double libm"); }
static Val rabs(Exec& E, State& s, const Val& x) {
    if (x.conc()) return Val(asU(std::fabs(asD(x.c)))); if (x.undef()) return x;
    if (fpSide(x)) { s.hasFP = true; return Val(new Sym(K_FP, 64, z3::to_expr(*gz, Z3_mk_fpa_abs(*gz, toFP(x))))); }
    Sym* y = x.sym(); if (y->lo >= 0) return x; if (y->hi <= 0) return E.fneg(s, x);
    return mkRealV(z3::ite(y->e >= realConst(0), y->e, -y->e), 0, std::max(std::fabs(y->lo), std::fabs(y->hi)), y->lsb, y->grid);
}
static bool hFabs(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { r = rabs(E, s, a[0]); return true; }
template <int mode> static bool hRound(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { // 0 floor 1 ceil 2 trunc 3 round 4 rint
    const Val& x = a[0];
    if (x.conc()) { double d = asD(x.c); r = Val(asU(mode == 0 ? floor(d) : mode == 1 ? ceil(d) : mode == 2 ? trunc(d) : mode == 3 ? round(d) : nearbyint(d))); return true; }
    if (x.undef()) { r = x; return true; }
    if (fpSide(x)) { s.hasFP = true; Z3_ast rm = mode == 0 ? Z3_mk_fpa_rtn(*gz) : mode == 1 ? Z3_mk_fpa_rtp(*gz) : mode == 2 ? Z3_mk_fpa_rtz(*gz) : mode == 3 ? Z3_mk_fpa_rna(*gz) : Z3_mk_fpa_rne(*gz); z3::expr m = z3::to_expr(*gz, rm); r = Val(new Sym(K_FP, 64, z3::to_expr(*gz, Z3_mk_fpa_round_to_integral(*gz, m, toFP(x))))); return true; }
    Val k; if (mode >= 3) throw Unsupported("round on symbolic real");
    if (!E.realToInt(s, x, 64, true, k)) return false; int64_t n = (int64_t)k.c; z3::expr kn = realConst((double)n);
    if (mode == 0 && x.sym()->lo < 0 && E.decide(s, x.sym()->e < kn)) n--; else if (mode == 1 && E.decide(s, x.sym()->e > kn)) n++;
    r = Val(asU((double)n)); return true;
}
template <bool mx> static bool hMinMax(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) {
    if (a[0].conc() && a[1].conc()) { r = Val(asU(mx ? fmax(asD(a[0].c), asD(a[1].c)) : fmin(asD(a[0].c), asD(a[1].c)))); return true; }
    if (fpSide(a[0]) || fpSide(a[1])) { s.hasFP = true; z3::expr x = toFP(a[0]), y = toFP(a[1]); r = Val(new Sym(K_FP, 64, z3::to_expr(*gz, mx ? Z3_mk_fpa_max(*gz, x, y) : Z3_mk_fpa_min(*gz, x, y)))); return true; }
    Ty t; t.k = TV_DBL; t.bits = 64; t.size = 8; Val c = E.fcmp(s, mx ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, a[0], a[1]); r = E.select(s, c, a[0], a[1], t); return true;
}
static uint64_t cc(Exec& E, State& s, const Val& v, unsigned w = 64) { return E.concretize(s, v, w); }

// ---- sym_* API
static bool fixedReal(State& s, const string& n, double dflt, double lo, double hi, Val& r) { if (!g_fixed) return false; auto it = g_fix.find(n); double v = it == g_fix.end() ? dflt : strtod(it->second.c_str(), nullptr); if (v < lo) v = lo; if (v >= hi && lo < hi) v = std::nextafter(hi, lo); r = Val(asU(v)); s.inputs.push_back({n, r, K_REAL, 0}); return true; }
static bool fixedInt(State& s, const string& n, uint64_t mask, Val& r) { if (!g_fixed) return false; auto it = g_fix.find(n); r = Val((it == g_fix.end() ? 0 : (uint64_t)strtoull(it->second.c_str(), nullptr, 0)) & mask); s.inputs.push_back({n, r, K_BV, 0}); return true; }
static bool hSymReal(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) {
    string n = E.readStr(s, a[0].c); double lo = asD(a[1].c), hi = asD(a[2].c); int lsb = (int)sx(a[3].c, 32); if (fixedReal(s, n, lo, lo, hi, r)) return true;
    s.hasReal = true; z3::expr x = gz->real_const(n.c_str());
    E.add(s, x >= realConst(lo)); E.add(s, x < realConst(hi)); s.model.reset();
    Val v = mkRealV(x, lo, hi, lsb > 0 ? -lsb : -60, true); if (lsb <= 0) v.sym()->grid = false;
    s.inputs.push_back({n, v, K_REAL, lsb}); r = v; return true;
}
static bool hSymDouble(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { string n = E.readStr(s, a[0].c); if (fixedReal(s, n, 0, -INFINITY, INFINITY, r)) return true; s.hasFP = true; Val v(new Sym(K_FP, 64, gz->constant(n.c_str(), fpSort()))); s.inputs.push_back({n, v, K_FP, 0}); r = v; return true; }
template <int w> static bool hSymInt(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { string n = E.readStr(s, a[0].c); if (fixedInt(s, n, w < 64 ? (1ull << (w & 63)) - 1 : ~0ull, r)) return true; s.hasBV = true; Val v(new Sym(K_BV, w, gz->bv_const(n.c_str(), w))); s.inputs.push_back({n, v, K_BV, 0}); r = v; return true; }
static bool hSymChoice(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) {
    string n = E.readStr(s, a[0].c); int k = (int)sx(cc(E, s, a[1], 32), 32); if (s.done) return false; if (fixedInt(s, n, ~0ull, r)) return true;
    for (int i = k - 1; i >= 1; i--) { E.work.push_back(s); State& c = E.work.back(); c.inputs.push_back({n, Val((uint64_t)i), K_BV, 0}); Frame& f = c.th[c.cur].st.back(); f.regs[o.dst] = Val((uint64_t)i); E.advance(f, o); S.forks++; }
    s.inputs.push_back({n, Val((uint64_t)0), K_BV, 0}); r = Val((uint64_t)0); return true;
}
static z3::expr condOf(const Val& v) { if (v.isSym() && v.sym()->k == K_BOOL) return v.sym()->e; z3::expr e = (toBV(v, v.isSym() ? v.sym()->w : 32) != gz->bv_val(0, v.isSym() ? v.sym()->w : 32)).simplify(); return e; }
static bool hAssume(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) {
    if (a[0].conc()) { if (!a[0].c) { s.done = true; s.end = "assume"; S.pathsAssume++; } return true; }
    if (a[0].undef()) { E.violation(s, "assumption on an uninitialised value", "memory"); return false; }
    z3::expr c = condOf(a[0]); int mv = E.evalModel(s, c);
    if (mv != 1) { int q = E.query(s, c, E.branchTimeout()); if (q == 0) { s.done = true; s.end = "assume"; S.pathsAssume++; return true; } s.model = q == 1 ? E.lastModel : nullptr; if (q < 0) s.unsureFeasible = true; }
    E.add(s, c); E.pin(s, c, 1); return true;
}
static bool hCheck(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) {
    string label = E.readStr(s, a[1].c); S.checks++; S.checkLabels[label]++;
    if (a[0].conc()) { if (a[0].c) { S.checksConcrete++; return true; } E.violation(s, label, "check"); return false; }
    if (a[0].undef()) { E.violation(s, label + " (result depends on an uninitialised value)", "memory"); return false; }
    z3::expr c = condOf(a[0]); if (c.is_true()) { S.checksSyntactic++; return true; }
    auto it = s.conc.find(c.id()); if (it != s.conc.end() && it->second) { S.checksSyntactic++; return true; }
    int q = E.query(s, !c, g_qTimeout); if (q == 1) q = E.refine(s, !c, g_qTimeout); S.checksSolver++;
    if (q == 0) { E.pin(s, c, 1); return true; }
    if (q < 0) { S.inconclusive++; S.unknownLabels[label]++; E.add(s, c); s.model.reset(); s.unsureFeasible = true; return true; }
    { State v = s; z3::expr nc = !c; E.violation(v, label, "check", &nc); }
    q = E.query(s, c, E.branchTimeout()); if (q == 0) { s.done = true; s.end = "checkfail"; return false; }
    E.add(s, c); s.model = q == 1 ? E.lastModel : nullptr; return true;
}
static bool hCover(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { string l = E.readStr(s, a[0].c); auto& n = S.cover[l]; if (n && s.unsureFeasible) { n++; return true; } if (s.unsureFeasible || n == 0) { int q = E.query(s, gz->bool_val(true), g_qTimeout); if (q != 1) return true; } n++; return true; }
static bool hProve(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { if (a[0].conc()) { r = Val(a[0].c ? 1 : 0); return true; } int q = E.query(s, !condOf(a[0]), g_qTimeout); if (q == 1) q = E.refine(s, !condOf(a[0]), g_qTimeout); S.checksSolver++; r = Val(q == 0 ? 1 : 0); return true; }
static bool hPossible(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { if (a[0].conc()) { r = Val(a[0].c ? 1 : 0); return true; } int q = E.query(s, condOf(a[0]), g_qTimeout); if (q == 1) q = E.refine(s, condOf(a[0]), g_qTimeout); r = Val(q == 0 ? 0 : 1); return true; }
static bool hIsSym(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { r = Val(a[0].conc() ? 0 : 1); return true; }
static bool hParam(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { string n = E.readStr(s, a[0].c); r = Val(asU(param(n, asD(a[1].c)))); return true; }
static bool hNote(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { string n = E.readStr(s, a[0].c); char b[64]; if (a[1].conc()) snprintf(b, 64, "=%.17g", asD(a[1].c)); else { b[0] = 0; n += "=" + (a[1].isSym() ? a[1].sym()->e.to_string() : string("?")); } s.notes.push_back(n + b); if (g_verbose > 1) fprintf(stderr, "note %s%s\n", n.c_str(), b); return true; }
static bool hDrawReal(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) {
    char key[96]; snprintf(key, 96, "u_%llx_%llu", (unsigned long long)cc(E, s, a[0]), (unsigned long long)cc(E, s, a[1]));
    auto it = s.draws.find(key); if (it != s.draws.end()) { r = it->second; return true; }
    RI lo = riOf(a[2]), hi = riOf(a[3]); s.hasReal = true;
    if (a[2].conc() && a[3].conc() && !(asD(a[2].c) < asD(a[3].c))) { r = a[2]; s.draws[key] = r; return true; }
    if (a[3].conc() && !std::isfinite(asD(a[3].c))) { s.notes.push_back("draw with non-finite bound"); r = a[3]; s.draws[key] = r; return true; }
    if (g_fixed && a[2].conc() && a[3].conc()) { fixedReal(s, key, asD(a[2].c) + (asD(a[3].c) - asD(a[2].c)) * 0.5, asD(a[2].c), asD(a[3].c), r); s.draws[key] = r; return true; }
    z3::expr x = gz->real_const(key); E.add(s, x >= toReal(a[2])); E.add(s, x < toReal(a[3])); s.model.reset();
    Val v = mkRealV(x, lo.lo, hi.hi, 0, false); s.inputs.push_back({key, v, K_REAL, 0}); s.draws[key] = v; r = v; return true;
}
static bool hDrawInt(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { // gid, idx, max (inclusive) -> u64
    char key[96]; snprintf(key, 96, "k_%llx_%llu", (unsigned long long)cc(E, s, a[0]), (unsigned long long)cc(E, s, a[1]));
    auto it = s.draws.find(key); if (it != s.draws.end()) { r = it->second; return true; }
    if (fixedInt(s, key, ~0ull, r)) { s.draws[key] = r; return true; }
    s.hasBV = true; z3::expr x = gz->bv_const(key, 64); E.add(s, z3::ule(x, toBV(a[2], 64))); s.model.reset(); Val v(new Sym(K_BV, 64, x)); s.inputs.push_back({key, v, K_BV, 0}); s.draws[key] = v; r = v; return true;
}
static bool hThreads(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { s.maxThreads = (int)cc(E, s, a[0], 32); return true; }
static bool hSched(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { s.sched = (int)cc(E, s, a[0], 32); s.preemptBound = (int)cc(E, s, a[1], 32); return true; }
static bool hRace(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { s.race = cc(E, s, a[0], 32); return true; }
static bool hUfPoints(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { s.ufpoints = cc(E, s, a[0], 32); return true; }
static bool hTermination(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { double n = asD(a[0].c); s.termLimit = n > 0 ? s.instrs + (unsigned long long)n : 0; s.termLabel = E.readStr(s, a[1].c); return true; }
static bool hEnd(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { E.endPath(s, "ok"); return false; }
static bool hConcI(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { uint64_t v = E.concretize(s, a[0], 64); if (s.done) return false; r = Val(v); return true; }
static bool hConcD(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { if (a[0].conc()) { r = a[0]; return true; } throw Unsupported("concretise double"); }
static bool hFail(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { string l = E.readStr(s, a[0].c); S.checks++; S.checkLabels[l]++; E.violation(s, l, "check"); return false; }
static bool hUnsupported(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { throw Unsupported("harness: " + E.readStr(s, a[0].c)); }
static bool hSymIte(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { Ty t; t.k = TV_DBL; t.bits = 64; t.size = 8; Val c = a[0]; if (!c.conc()) c = mkBool(condOf(a[0])); r = E.select(s, c, a[1], a[2], t); return true; }
static bool hDecide(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { if (a[0].conc()) { r = Val(a[0].c ? 1 : 0); return true; } r = Val(E.decide(s, condOf(a[0])) ? 1 : 0); return true; }

// ---- memory
static bool hNew(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { uint64_t n = cc(E, s, a[0]); if (s.done) return false; r = Val(mkptr(E.alloc(s, n, 0))); return true; }
static bool hCalloc(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { r = Val(mkptr(E.alloc(s, cc(E, s, a[0]) * cc(E, s, a[1]), 0, true))); return true; }
static bool hFree(Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { uint64_t p = cc(E, s, a[0]); if (!p) return true; uint32_t id = ptrid(p); if (id >= s.mem.size() || !s.mem[id] || ptroff(p) != 0 || s.mem[id]->kind != 0) { E.violation(s, "invalid free", "memory"); return false; } if (!s.mem[id]->alive) { E.violation(s, "double free", "memory"); return false; } E.freeObj(s, id); return true; }
static bool hMemcpy(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { uint64_t d = cc(E, s, a[0]), q = cc(E, s, a[1]), n = cc(E, s, a[2]); if (s.done) return false; r = a[0]; return E.memCopy(s, d, q, n); }
static bool hMemset(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { uint64_t d = cc(E, s, a[0]), n = cc(E, s, a[2]); if (s.done) return false; r = a[0]; Val b = a[1]; if (b.isSym() && b.sym()->k == K_BV && b.sym()->w != 8) b = mkBV(b.sym()->e.extract(7, 0), 8); return E.memSet(s, d, b, n); }
static bool byteAt(Exec& E, State& s, uint64_t p, uint8_t& out) { MemObj* m = E.acc(s, p, 1, false); if (!m) return false; Ty t; t.k = TV_INT; t.bits = 8; t.size = 1; Val v = E.loadRaw(m, ptroff(p), t); if (!v.conc()) { uint64_t c = E.concretize(s, v, 8); if (s.done) return false; out = c; } else out = v.c; return true; }
static bool hMemcmp(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { uint64_t p = cc(E, s, a[0]), q = cc(E, s, a[1]), n = cc(E, s, a[2]); r = Val((uint64_t)0); for (uint64_t i = 0; i < n; i++) { uint8_t x, y; if (!byteAt(E, s, p + i, x) || !byteAt(E, s, q + i, y)) return false; if (x != y) { r = Val((uint64_t)(uint32_t)((int)x - (int)y)); return true; } } return true; }
static bool hStrlen(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { uint64_t p = cc(E, s, a[0]), n = 0; for (;;) { uint8_t x; if (!byteAt(E, s, p + n, x)) return false; if (!x) break; n++; } r = Val(n); return true; }
static bool hStrcmp(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { uint64_t p = cc(E, s, a[0]), q = cc(E, s, a[1]); for (uint64_t i = 0;; i++) { uint8_t x, y; if (!byteAt(E, s, p + i, x) || !byteAt(E, s, q + i, y)) return false; if (x != y) { r = Val((uint64_t)(uint32_t)((int)x - (int)y)); return true; } if (!x) { r = Val((uint64_t)0); return true; } } }
static bool hMemchr(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { uint64_t p = cc(E, s, a[0]), n = cc(E, s, a[2]); for (uint64_t i = 0; i < n; i++) { uint8_t x; if (!byteAt(E, s, p + i, x)) return false; if (x == (uint8_t)a[1].c) { r = Val(p + i); return true; } } r = Val((uint64_t)0); return true; }
static bool hNop(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { r = Val((uint64_t)0); return true; }
static bool hOne(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { r = Val(1); return true; }
static bool hArg0(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { r = a[0]; return true; }
static bool hErrno(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { if (!s.errnoObj) s.errnoObj = E.alloc(s, 4, 2, true); r = Val(mkptr(s.errnoObj)); return true; }
static bool hAssertFail(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { string l = "assertion failed: " + E.readStr(s, a[0].c); S.checks++; E.violation(s, l, "assert"); return false; }
static bool hAbort(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { E.violation(s, "abort()", "abort"); return false; }
static bool hTrap(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { E.violation(s, "undefined behaviour (sanitizer trap: integer overflow, bad shift or bounds)", "ub"); return false; }
static bool hExit(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) {
    if (Function* F = E.M.getFunction("verif_on_exit")) if (!F->isDeclaration()) { Thread& t = s.th[s.cur]; E.pushFrame(s, t, F, {a[0]}, FK_STOPCALL); return false; }
    E.endPath(s, "exit"); return false; }
// exceptions
static bool hExcAlloc(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { r = Val(mkptr(E.alloc(s, std::max<uint64_t>(a[0].c, 8), 0, true))); return true; }
static bool hThrow(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { Thread& t = s.th[s.cur]; t.excPtr = a[0].c; t.excTI = a[1].c; E.unwind(s); return false; }
static bool hRethrow(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { E.unwind(s); return false; }
static bool hStdThrow(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) {
    Thread& t = s.th[s.cur]; t.excPtr = mkptr(E.alloc(s, 64, 0, true)); t.excTI = 0;
    string n = o.callee ? o.callee->getName().str() : ""; s.notes.push_back("standard library exception: " + demangle(n));
    for (auto& G : E.M.globals()) if (G.getName() == "_ZTISt9exception") t.excTI = mkptr(E.gid[&G]);
    E.unwind(s); return false; }
static bool hBeginCatch(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { r = a[0]; Thread& t = s.th[s.cur]; // pointer exceptions (e.g. const char*) are passed by value
    return true; }
static bool hTypeid(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { r = Val((uint64_t)ptrid(a[0].c)); return true; }
// strtod & friends: "$name" denotes a symbolic argument registered by sym_str_double/sym_str_int
static std::map<string, Val> dummy;
static bool setErrno(Exec& E, State& s, int v) { if (!s.errnoObj) s.errnoObj = E.alloc(s, 4, 2, true); MemObj* m = E.acc(s, mkptr(s.errnoObj), 4, true); if (!m) return false; Ty t; t.k = TV_INT; t.bits = 32; t.size = 4; E.storeRaw(m, 0, t, Val((uint64_t)v)); return true; }
static bool hStrtod(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) {
    string str = E.readStr(s, a[0].c); if (s.done) return false; uint64_t used = 0;
    if (!str.empty() && str[0] == '$') { auto it = s.draws.find(str); if (it == s.draws.end()) throw Unsupported("unknown symbolic string " + str); r = it->second; used = str.size(); }
    else { char* e; errno = 0; r = Val(asU(strtod(str.c_str(), &e))); used = e - str.c_str(); if (errno && !setErrno(E, s, errno)) return false; }
    if (a[1].c) { MemObj* m = E.acc(s, a[1].c, 8, true); if (!m) return false; Ty t; t.k = TV_INT; t.bits = 64; t.size = 8; E.storeRaw(m, ptroff(a[1].c), t, Val(a[0].c + used)); } return true; }
static bool hStrtol(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) {
    string str = E.readStr(s, a[0].c); if (s.done) return false; uint64_t used = 0;
    if (!str.empty() && str[0] == '$') { auto it = s.draws.find(str); if (it == s.draws.end()) throw Unsupported("unknown symbolic string " + str); r = it->second; used = str.size(); }
    else { char* e; errno = 0; r = Val((uint64_t)strtol(str.c_str(), &e, (int)a[2].c)); used = e - str.c_str(); if (errno && !setErrno(E, s, errno)) return false; }
    if (a[1].c) { MemObj* m = E.acc(s, a[1].c, 8, true); if (!m) return false; Ty t; t.k = TV_INT; t.bits = 64; t.size = 8; E.storeRaw(m, ptroff(a[1].c), t, Val(a[0].c + used)); } return true; }
static bool hBindStr(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { s.draws[E.readStr(s, a[0].c)] = a[1]; return true; }
static bool hBindStrI(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { Val v = a[1]; if (v.isSym()) { if (v.sym()->w == 32) v = mkBV(z3::sext(v.sym()->e, 32), 64); } else v = Val((uint64_t)sx(v.c, 32)); s.draws[E.readStr(s, a[0].c)] = v; return true; }

// ---- OpenMP / threads
static bool hForkCall(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) {
    Function* F = E.fnById[ptrid(a[2].c)]; std::vector<Val> rest(a.begin() + 3, a.end()); Thread& t = s.th[s.cur];
    int n = s.pushThreads ? s.pushThreads : s.maxThreads; s.pushThreads = 0; if (n < 1) n = 1;
    if (t.inTeam) { // nested region: serialised
        std::vector<Val> args; for (int k = 0; k < 2; k++) args.push_back(Val(mkptr(E.alloc(s, 4, 2, true)))); for (auto& x : rest) args.push_back(x);
        // run as an ordinary call; the thread number inside is 0, team size 1
        throw Unsupported("nested parallel region"); }
    E.startTeam(s, F, rest, n); return false; // the master resumes after the join
}
static bool hPushThreads(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { int64_t n = sx(cc(E, s, a[2], 32), 32); if (s.done) return false; if (n <= 0) { E.violation(s, "parallel region requested with a non-positive number of threads", "omp"); return false; } s.pushThreads = (int)n; return true; }
static bool hGtid(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { r = Val((uint64_t)s.th[s.cur].otid); return true; }
static bool hNumThreads(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { r = Val((uint64_t)(s.th[s.cur].inTeam ? s.team.n : 1)); return true; }
static bool hOneProc(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { r = Val(1); return true; } // a machine may have fewer processors than threads
static bool hMaxThreads(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { r = Val((uint64_t)s.maxThreads); return true; }
static bool hSetThreads(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { int64_t v = sx(cc(E, s, a[0], 32), 32); if (v > 0) s.maxThreads = (int)v; return true; }
static bool hInPar(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { r = Val((uint64_t)(s.th[s.cur].inTeam && s.team.n > 1)); return true; }
static bool hBarrier(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) {
    if (!s.th[s.cur].inTeam) return true;
    Frame& f = s.th[s.cur].st.back(); if (o.dst >= 0) f.regs[o.dst] = Val((uint64_t)0); E.advance(f, o); E.barrierArrive(s); return false; }
static bool hSingle(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { Thread& t = s.th[s.cur]; if (!t.inTeam) { r = Val(1); return true; } E.visible(s); int k = ++t.singles; if (k > s.team.singlesClaimed) { s.team.singlesClaimed = k; r = Val(1); } else r = Val((uint64_t)0); return true; }
static bool hMaster(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { r = Val((uint64_t)(s.th[s.cur].otid == 0)); return true; }
static bool lockAcq(Exec& E, State& s, uint64_t m) { // returns true when acquired
    auto it = s.mutexOwner.find(m); Thread& t = s.th[s.cur];
    if (it != s.mutexOwner.end()) { if (it->second == s.cur) { E.violation(s, "mutex locked twice by the same thread", "deadlock"); return false; } t.status = TS_MUTEX; t.wait = m; E.schedule(s); return false; }
    s.mutexOwner[m] = s.cur; E.vcJoin(t.vc, s.syncVC[m]); return true; }
static void lockRel(Exec& E, State& s, uint64_t m) { s.mutexOwner.erase(m); E.vcJoin(s.syncVC[m], s.th[s.cur].vc); E.tick(s, s.cur); }
static bool hLock(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { E.visible(s); r = Val((uint64_t)0); return lockAcq(E, s, cc(E, s, a[0])); }
static bool hUnlock(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { uint64_t m = cc(E, s, a[0]); auto it = s.mutexOwner.find(m); if (it == s.mutexOwner.end() || it->second != s.cur) { E.violation(s, "mutex unlocked by a thread that does not hold it", "deadlock"); return false; } lockRel(E, s, m); r = Val((uint64_t)0); return true; }
static bool hTryLock(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { E.visible(s); uint64_t m = cc(E, s, a[0]); if (s.mutexOwner.count(m)) { r = Val(16); return true; } 
    if (s.team.active && s.team.n > 1 && (s.race || E.exploring(s)) && s.tryFails < 2) { // an attempt may fail whatever the other threads do
        S.schedForks++; E.work.push_back(s); State& f = E.work.back(); f.tryFails++; Thread& t = f.th[f.cur]; Frame& g = t.st.back(); if (o.dst >= 0) g.regs[o.dst] = Val(16); E.advance(g, o); }
    s.mutexOwner[m] = s.cur; E.vcJoin(s.th[s.cur].vc, s.syncVC[m]); r = Val((uint64_t)0); return true; }
// thread_local variables: one copy per thread of a team (the master uses the object itself), created with the initial value
static bool hTls(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) {
    Thread& t = s.th[s.cur]; uint32_t id = ptrid(a[0].c); if (!t.inTeam || t.otid == 0) { r = a[0]; return true; }
    auto& c = s.tls[{id, t.otid}];
    if (!c) { uint64_t sz = s.mem[id]->size; uint32_t n = E.alloc(s, sz, 2, true); s.tls[{id, t.otid}] = n; for (auto& G : E.M.globals()) if (E.gid[&G] == id && G.hasInitializer()) E.initG(s.mem[n].p, 0, G.getInitializer()); }
    r = Val(mkptr(s.tls[{id, t.otid}]) + ptroff(a[0].c)); return true; }
// sym_globals(0) remembers the variables of static storage duration of the code under test, sym_globals(1) restores them
static bool hGlobals(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) {
    bool restore = cc(E, s, a[0], 32) != 0; if (!restore) s.saved.clear();
    for (auto& G : E.M.globals()) { if (G.isConstant() || G.getName().contains("verif")) continue; uint32_t id = E.gid[&G]; if (!restore) s.saved[id] = s.mem[id]; else if (s.saved.count(id)) s.mem[id] = s.saved[id]; }
    if (restore) s.tls.clear(); return true; }
static bool hCvWait(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) {
    Thread& t = s.th[s.cur];
    if (t.cvPhase == 0) { // a[1] = unique_lock* ; first member is the mutex pointer
        MemObj* m = E.acc(s, a[1].c, 8, false); if (!m) return false; Ty ty; ty.k = TV_PTR; ty.bits = 64; ty.size = 8; uint64_t mx = E.loadRaw(m, ptroff(a[1].c), ty).c;
        E.visible(s); t.cvMutex = mx; lockRel(E, s, mx); t.cvPhase = 1; t.status = TS_CV; t.wait = a[0].c;
        if (s.team.active && s.team.n > 1 && (s.race || E.exploring(s)) && s.spurious < 1) { S.schedForks++; E.work.push_back(s); State& f = E.work.back(); f.spurious++; f.th[f.cur].status = TS_RUN; } // spurious wake-up
        E.schedule(s); return false; }
    // woken up: re-acquire
    uint64_t mx = t.cvMutex; if (!lockAcq(E, s, mx)) return false; t.cvPhase = 0; return true; }
template <bool all> static bool hCvNotify(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { E.visible(s); for (auto& t : s.th) if (t.status == TS_CV && t.wait == a[0].c) { t.status = TS_RUN; if (!all) break; } return true; }
static bool hCritical(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { E.visible(s); return lockAcq(E, s, a[2].c); }
static bool hEndCritical(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { lockRel(E, s, a[2].c); return true; }
static bool hReduce(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { E.visible(s); r = Val(1); return lockAcq(E, s, a[6].c); }
static bool hEndReduceNowait(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { lockRel(E, s, a[2].c); return true; }
static bool hEndReduce(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { if (s.mutexOwner.count(a[2].c)) lockRel(E, s, a[2].c); return hBarrier(E, s, o, a, r); }
template <int w, bool sg> static bool hStaticInit(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) {
    Ty ty; ty.k = TV_INT; ty.bits = w; ty.size = w / 8; Ty t4; t4.k = TV_INT; t4.bits = 32; t4.size = 4;
    auto ldp = [&](uint64_t p, const Ty& t) -> int64_t { MemObj* m = E.acc(s, p, t.size, false); if (!m) return 0; uint64_t v = E.concretize(s, E.loadRaw(m, ptroff(p), t), t.bits); return sg ? sx(v, w) : (int64_t)v; };
    auto st = [&](uint64_t p, const Ty& t, int64_t v) { MemObj* m = E.acc(s, p, t.size, true); if (m) E.storeRaw(m, ptroff(p), t, Val((uint64_t)v & maskw(t.bits))); };
    int sched = (int)cc(E, s, a[2], 32); int64_t lo = ldp(a[4].c, ty), hi = ldp(a[5].c, ty), inc = sx(cc(E, s, a[7], w), w), chunk = sx(cc(E, s, a[8], w), w); if (s.done) return false;
    Thread& t = s.th[s.cur]; int n = t.inTeam ? s.team.n : 1, tid = t.otid;
    int64_t trip = inc > 0 ? (hi < lo ? 0 : (hi - lo) / inc + 1) : (lo < hi ? 0 : (lo - hi) / (-inc) + 1);
    if ((sched & 0xff) == 33) { if (chunk < 1) chunk = 1; int64_t span = chunk * inc; st(a[6].c, ty, span * n); st(a[4].c, ty, lo + span * tid); st(a[5].c, ty, lo + span * tid + span - inc); st(a[3].c, t4, trip ? (tid == ((trip - 1) / chunk) % n) : 0); return !s.done; }
    // static, no chunk: balanced partition
    if (trip < n) { if (tid < trip) { st(a[4].c, ty, lo + tid * inc); st(a[5].c, ty, lo + tid * inc); } else { st(a[4].c, ty, hi + inc); st(a[5].c, ty, hi); } st(a[3].c, t4, tid == trip - 1); }
    else { int64_t small = trip / n, extra = trip % n; int64_t b = lo + inc * (tid * small + std::min<int64_t>(tid, extra)); int64_t e = b + small * inc - (tid < extra ? 0 : inc); st(a[4].c, ty, b); st(a[5].c, ty, e); st(a[3].c, t4, tid == n - 1); }
    st(a[6].c, ty, trip * (inc > 0 ? inc : -inc)); return !s.done;
}
template <int w, bool sg> static bool hDispInit(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { // loc gtid sched lb ub st chunk
    Thread& t = s.th[s.cur]; t.dispatch++; if ((int)s.team.disp.size() <= t.dispatch) { Disp d; d.lo = sg ? sx(a[3].c, w) : (int64_t)a[3].c; d.hi = sg ? sx(a[4].c, w) : (int64_t)a[4].c; d.st = sx(a[5].c, w); d.chunk = std::max<int64_t>(1, sx(a[6].c, w)); d.cur = d.lo; s.team.disp.push_back(d); } return true; }
template <int w, bool sg> static bool hDispNext(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { // loc gtid p_last p_lb p_ub p_st
    Thread& t = s.th[s.cur]; Disp& d = s.team.disp.at(t.dispatch); E.visible(s); if (d.st > 0 ? d.cur > d.hi : d.cur < d.hi) { r = Val((uint64_t)0); return true; }
    Ty ty; ty.k = TV_INT; ty.bits = w; ty.size = w / 8; Ty t4; t4.k = TV_INT; t4.bits = 32; t4.size = 4;
    auto st = [&](uint64_t p, const Ty& t, int64_t v) { MemObj* m = E.acc(s, p, t.size, true); if (m) E.storeRaw(m, ptroff(p), t, Val((uint64_t)v & maskw(t.bits))); };
    int64_t b = d.cur, e = b + (d.chunk - 1) * d.st; if (d.st > 0) e = std::min(e, d.hi); else e = std::max(e, d.hi); d.cur = e + d.st;
    st(a[2].c, t4, d.st > 0 ? e >= d.hi : e <= d.hi); st(a[3].c, ty, b); st(a[4].c, ty, e); st(a[5].c, ty, d.st); r = Val(1); return !s.done; }

// ---- LLVM integer intrinsics
template <int k> static bool hIMinMax(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { unsigned pr = k == 0 ? CmpInst::ICMP_ULT : k == 1 ? CmpInst::ICMP_UGT : k == 2 ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
    if (o.ty.k == TV_VEC) { auto* g = new Agg; r.p = P<RC>(g); Ty et = tyOf(cast<FixedVectorType>(o.ty.t)->getElementType()); auto& x = static_cast<Agg*>(a[0].p.p)->v; auto& y = static_cast<Agg*>(a[1].p.p)->v; for (size_t i = 0; i < x.size(); i++) g->v.push_back(E.select(s, E.icmp(s, pr, x[i], y[i], et.bits), x[i], y[i], et)); return true; }
    Val c = E.icmp(s, pr, a[0], a[1], o.ty.bits); r = E.select(s, c, a[0], a[1], o.ty); return true; }
static bool hAbs(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { Val z((uint64_t)0); Val n = E.intBin(s, Instruction::Sub, z, a[0], o.ty.bits); Val c = E.icmp(s, CmpInst::ICMP_SLT, a[0], z, o.ty.bits); r = E.select(s, c, n, a[0], o.ty); return true; }
static bool hCtlz(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { unsigned w = o.ty.bits; if (a[0].conc()) { unsigned k = 0; for (; k < w && !((a[0].c >> (w - 1 - k)) & 1); k++); r = Val((uint64_t)k); return true; } s.hasBV = true; z3::expr x = toBV(a[0], w), e = gz->bv_val(w, w); for (unsigned i = 0; i < w; i++) e = z3::ite(x.extract(i, i) == gz->bv_val(1, 1), gz->bv_val(w - 1 - i, w), e); r = mkBV(e, w); return true; }
static bool hCttz(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { unsigned w = o.ty.bits; if (a[0].conc()) { unsigned k = 0; for (; k < w && !((a[0].c >> k) & 1); k++); r = Val((uint64_t)k); return true; } s.hasBV = true; z3::expr x = toBV(a[0], w), e = gz->bv_val(w, w); for (int i = w - 1; i >= 0; i--) e = z3::ite(x.extract(i, i) == gz->bv_val(1, 1), gz->bv_val(i, w), e); r = mkBV(e, w); return true; }
static bool hCtpop(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { unsigned w = o.ty.bits; if (a[0].conc()) { r = Val((uint64_t)__builtin_popcountll(a[0].c)); return true; } s.hasBV = true; z3::expr x = toBV(a[0], w), e = gz->bv_val(0, w); for (unsigned i = 0; i < w; i++) e = e + (w > 1 ? z3::zext(x.extract(i, i), w - 1) : x); r = mkBV(e, w); return true; }
static bool hBswap(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { unsigned w = o.ty.bits; if (!a[0].conc()) throw Unsupported("bswap"); r = Val(__builtin_bswap64(a[0].c) >> (64 - w)); return true; }
template <bool left> static bool hFsh(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { unsigned w = o.ty.bits; if (!a[2].conc()) throw Unsupported("fsh symbolic amount"); unsigned k = a[2].c % w;
    if (k == 0) { r = left ? a[0] : a[1]; return true; } Val hi = E.intBin(s, Instruction::Shl, a[0], Val((uint64_t)(left ? k : w - k)), w), lo = E.intBin(s, Instruction::LShr, a[1], Val((uint64_t)(left ? w - k : k)), w); r = E.intBin(s, Instruction::Or, hi, lo, w); return true; }
template <int k> static bool hOvf(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { // 0 uadd 1 sadd 2 usub 3 ssub 4 umul 5 smul
    unsigned w = tyOf(cast<StructType>(o.ty.t)->getElementType(0)).bits; auto* g = new Agg; r.p = P<RC>(g);
    if (a[0].conc() && a[1].conc()) { __int128 x, y; if (k & 1) { x = sx(a[0].c, w); y = sx(a[1].c, w); } else { x = a[0].c; y = a[1].c; } __int128 z = k < 2 ? x + y : k < 4 ? x - y : (k == 4 ? (__int128)((unsigned __int128)x * (unsigned __int128)y) : x * y); bool ov; uint64_t t = (uint64_t)z & maskw(w); if (k & 1) ov = z != (__int128)sx(t, w); else ov = k == 4 ? (unsigned __int128)z != t : z != (__int128)t; g->v = {Val(t), Val((uint64_t)ov)}; return true; }
    s.hasBV = true; z3::expr x = toBV(a[0], w), y = toBV(a[1], w); unsigned ww = k >= 4 ? 2 * w : w + 1; z3::expr X = (k & 1) ? z3::sext(x, ww - w) : z3::zext(x, ww - w), Y = (k & 1) ? z3::sext(y, ww - w) : z3::zext(y, ww - w); z3::expr z = k < 2 ? X + Y : k < 4 ? X - Y : X * Y; z3::expr t = z.extract(w - 1, 0); z3::expr b = (k & 1) ? z3::sext(t, ww - w) : z3::zext(t, ww - w); g->v = {mkBV(t, w), mkBool(b != z)}; return true; }
template <bool add> static bool hUSat(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { unsigned w = o.ty.bits; Val z = E.intBin(s, add ? Instruction::Add : Instruction::Sub, a[0], a[1], w); Val c = add ? E.icmp(s, CmpInst::ICMP_ULT, z, a[0], w) : E.icmp(s, CmpInst::ICMP_ULT, a[0], a[1], w); r = E.select(s, c, add ? Val(maskw(w)) : Val((uint64_t)0), z, o.ty); return true; }
static bool hFmulAdd(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { if (a[0].conc() && a[1].conc() && a[2].conc()) { r = Val(asU(asD(a[0].c) * asD(a[1].c) + asD(a[2].c))); return true; } r = E.fbin(s, Instruction::FAdd, E.fbin(s, Instruction::FMul, a[0], a[1]), a[2]); return true; }
static bool hCopysign(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { if (a[0].conc() && a[1].conc()) { r = Val(asU(copysign(asD(a[0].c), asD(a[1].c)))); return true; } throw Unsupported("copysign"); }
static bool hFmod(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { if (a[0].conc() && a[1].conc()) { r = Val(asU(fmod(asD(a[0].c), asD(a[1].c)))); return true; } 
    if (isReal(a[0]) && a[1].conc()) { Val q = E.fbin(s, Instruction::FDiv, a[0], a[1]); if (!q.isSym()) throw Unsupported("fmod"); Val k; if (!E.realToInt(s, q, 64, true, k)) return false; Val kk(asU((double)(int64_t)k.c)); r = E.fbin(s, Instruction::FSub, a[0], E.fbin(s, Instruction::FMul, kk, a[1])); return true; }
    throw Unsupported("fmod"); }
static bool hNextafter(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { if (a[0].conc() && a[1].conc()) { r = Val(asU(nextafter(asD(a[0].c), asD(a[1].c)))); return true; } r = a[0]; return true; }
static bool hLdexp(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { int k = (int)sx(cc(E, s, a[1], 32), 32); if (s.done) return false; if (a[0].conc()) { r = Val(asU(ldexp(asD(a[0].c), k))); return true; } r = E.fbin(s, Instruction::FMul, a[0], Val(asU(ldexp(1.0, k)))); return true; }
static bool hHypot(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { if (a[0].conc() && a[1].conc()) { r = Val(asU(hypot(asD(a[0].c), asD(a[1].c)))); return true; } throw Unsupported("hypot"); }
static bool hAtan2(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { if (a[0].conc() && a[1].conc()) { r = Val(asU(atan2(asD(a[0].c), asD(a[1].c)))); return true; } throw Unsupported("atan2"); }
static bool hFma(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { if (a[0].conc() && a[1].conc() && a[2].conc()) { r = Val(asU(fma(asD(a[0].c), asD(a[1].c), asD(a[2].c)))); return true; } r = E.fbin(s, Instruction::FAdd, E.fbin(s, Instruction::FMul, a[0], a[1]), a[2]); return true; }
static bool hIsFpClass(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) {
    unsigned m = a[1].c; if (a[0].conc()) { double d = asD(a[0].c); bool sg = std::signbit(d); unsigned c; switch (std::fpclassify(d)) { case FP_NAN: c = 3; break; case FP_INFINITE: c = sg ? 4 : 512; break; case FP_NORMAL: c = sg ? 8 : 256; break; case FP_SUBNORMAL: c = sg ? 16 : 128; break; default: c = sg ? 32 : 64; } r = Val((uint64_t)((m & c) != 0)); return true; }
    if (isReal(a[0])) { z3::expr e = toReal(a[0]); z3::expr q = gz->bool_val(false); if (m & (8 | 16)) q = q || e < realConst(0); if (m & (256 | 128)) q = q || e > realConst(0); if (m & (32 | 64)) q = q || e == realConst(0); r = mkBool(q); return true; }
    s.hasFP = true; z3::expr x = toFP(a[0]); auto X = [&](Z3_ast q) { return z3::to_expr(*gz, q); }; z3::expr neg = X(Z3_mk_fpa_is_negative(*gz, x)); z3::expr q = gz->bool_val(false);
    if (m & 3) q = q || X(Z3_mk_fpa_is_nan(*gz, x)); z3::expr inf = X(Z3_mk_fpa_is_infinite(*gz, x)), nor = X(Z3_mk_fpa_is_normal(*gz, x)), sub = X(Z3_mk_fpa_is_subnormal(*gz, x)), ze = X(Z3_mk_fpa_is_zero(*gz, x));
    if (m & 4) q = q || (inf && neg); if (m & 512) q = q || (inf && !neg); if (m & 8) q = q || (nor && neg); if (m & 256) q = q || (nor && !neg); if (m & 16) q = q || (sub && neg); if (m & 128) q = q || (sub && !neg); if (m & 32) q = q || (ze && neg); if (m & 64) q = q || (ze && !neg); r = mkBool(q); return true; }
template <bool dep> static bool hPdepPext(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) {
    unsigned w = o.ty.bits; uint64_t m = cc(E, s, a[1], w); if (s.done) return false; unsigned k = 0;
    if (a[0].conc()) { uint64_t v = 0; for (unsigned i = 0; i < w; i++) if ((m >> i) & 1) { if (dep) { if ((a[0].c >> k) & 1) v |= 1ull << i; } else if ((a[0].c >> i) & 1) v |= 1ull << k; k++; } r = Val(v); return true; }
    s.hasBV = true; z3::expr x = toBV(a[0], w); z3::expr e = gz->bv_val(0, w);
    for (unsigned i = 0; i < w; i++) if ((m >> i) & 1) { unsigned src = dep ? k : i, dst = dep ? i : k; z3::expr b = w > 1 ? z3::zext(x.extract(src, src), w - 1) : x; e = e | z3::shl(b, gz->bv_val(dst, w)); k++; }
    r = mkBV(e, w); return true; }
static bool hObjSize(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { r = Val(~0ull & maskw(o.ty.bits)); return true; }
static bool hVReduceAdd(Exec& E, State& s, Op& o, std::vector<Val>& a, Val& r) { auto& v = static_cast<Agg*>(a[0].p.p)->v; Val x = v[0]; for (size_t i = 1; i < v.size(); i++) x = E.intBin(s, Instruction::Add, x, v[i], o.ty.bits); r = x; return true; }

void Exec::registerExt() {
    auto R = [&](const char* n, Handler h) { ext[n] = h; };
    R("sym_real", hSymReal); R("sym_double", hSymDouble); R("sym_u32", hSymInt<32>); R("sym_u64", hSymInt<64>); R("sym_i32", hSymInt<32>); R("sym_choice", hSymChoice);
    R("sym_assume", hAssume); R("sym_check", hCheck); R("sym_cover", hCover); R("sym_prove", hProve); R("sym_possible", hPossible); R("sym_is_symbolic", hIsSym); R("sym_is_symbolic_int", hIsSym); R("sym_param", hParam); R("sym_note", hNote);
    R("sym_draw_real", hDrawReal); R("sym_draw_int", hDrawInt); R("sym_set_threads", hThreads); R("sym_sched", hSched); R("sym_race", hRace); R("sym_ufpoints", hUfPoints); R("sym_end", hEnd); R("sym_termination", hTermination); R("sym_conc", hConcI); R("sym_fail", hFail); R("sym_unsupported", hUnsupported); R("sym_ite", hSymIte); R("sym_decide", hDecide); R("sym_native", hNop); R("sym_bind_double", hBindStr); R("sym_bind_int", hBindStrI);
    R("_Znwm", hNew); R("_Znam", hNew); R("malloc", hNew); R("_ZnwmSt11align_val_t", hNew); R("_ZnwmRKSt9nothrow_t", hNew); R("_ZnamRKSt9nothrow_t", hNew); R("calloc", hCalloc); R("free", hFree); R("_ZdlPv", hFree); R("_ZdlPvm", hFree); R("_ZdaPv", hFree); R("_ZdaPvm", hFree); R("_ZdlPvSt11align_val_t", hFree); R("_ZdlPvmSt11align_val_t", hFree);
    for (auto n : {"llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline", "memcpy", "memmove"}) R(n, hMemcpy); for (auto n : {"llvm.memset", "memset"}) R(n, hMemset);
    R("memcmp", hMemcmp); R("bcmp", hMemcmp); R("strlen", hStrlen); R("strcmp", hStrcmp); R("memchr", hMemchr); R("strtod", hStrtod); R("strtol", hStrtol); R("strtoll", hStrtol); R("__isoc23_strtol", hStrtol); R("__errno_location", hErrno);
    for (auto n : {"llvm.lifetime", "llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.prefetch", "llvm.stackrestore", "llvm.stacksave", "llvm.invariant", "llvm.donothing", "llvm.dbg", "llvm.var.annotation", "__cxa_atexit", "__cxa_thread_atexit", "__cxa_end_catch", "__cxa_free_exception", "__kmpc_end_single", "__kmpc_for_static_fini", "__kmpc_end_master", "__kmpc_end_masked", "__kmpc_flush", "__kmpc_dispatch_fini_4", "__kmpc_dispatch_deinit", "pthread_mutex_init", "pthread_mutex_destroy", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev", "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt12out_of_rangeD1Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt9exceptionD2Ev", "omp_set_dynamic", "omp_set_nested", "omp_get_nested", "omp_get_dynamic", "time", "puts", "printf", "putchar", "fputs", "fflush", "fwrite", "omp_get_wtime"}) R(n, hNop);
    for (auto n : {"_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt12domain_errorC1EPKc", "_ZNSt12length_errorC1EPKc"}) R(n, hNop);
    for (auto n : {"llvm.expect", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.annotation", "llvm.ssa.copy", "__cxa_get_exception_ptr"}) R(n, hArg0); R("llvm.threadlocal.address", hTls); R("sym_globals", hGlobals);
    // function-local statics: initialised once, other threads wait and see the initialisation
    R("__cxa_guard_acquire", [](Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { MemObj* m = E.acc(s, a[0].c, 1, false, true); if (!m) return false; if (m->data[ptroff(a[0].c)]) { E.vcJoin(s.th[s.cur].vc, s.syncVC[a[0].c]); r = Val((uint64_t)0); return true; } r = Val((uint64_t)1); return lockAcq(E, s, a[0].c); });
    R("__cxa_guard_release", [](Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { MemObj* m = E.acc(s, a[0].c, 1, true, true); if (!m) return false; m->data[ptroff(a[0].c)] = 1; lockRel(E, s, a[0].c); return true; });
    R("__cxa_guard_abort", [](Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { lockRel(E, s, a[0].c); return true; });
    R("__assert_fail", hAssertFail); R("abort", hAbort); R("_ZSt9terminatev", hAbort); R("__cxa_pure_virtual", hAbort); R("llvm.trap", hTrap); R("llvm.ubsantrap", hTrap); R("exit", hExit); R("_exit", hExit); R("quick_exit", hExit);
    R("__cxa_allocate_exception", hExcAlloc); R("__cxa_throw", hThrow); R("__cxa_rethrow", hRethrow); R("__cxa_begin_catch", hBeginCatch); R("llvm.eh.typeid.for", hTypeid);
    for (auto n : {"_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_out_of_rangePKc", "_ZSt19__throw_logic_errorPKc", "_ZSt24__throw_invalid_argumentPKc", "_ZSt20__throw_system_errori", "_ZSt25__throw_bad_function_callv", "_ZSt21__throw_runtime_errorPKc", "_ZSt16__throw_bad_castv", "_ZSt21__throw_bad_exceptionv"}) R(n, hStdThrow);
    R("pow", hLibm<F_POW>); R("exp", hLibm<F_EXP>); R("log", hLibm<F_LOG>); R("log2", hLibm<F_LOG2>); R("cos", hLibm<F_COS>); R("sin", hLibm<F_SIN>); R("cosh", hLibm<F_COSH>); R("sinh", hLibm<F_SINH>); R("tanh", hLibm<F_TANH>); R("acosh", hLibm<F_ACOSH>); R("asinh", hLibm<F_ASINH>); R("atanh", hLibm<F_ATANH>); R("sqrt", hLibm<F_SQRT>); R("exp2", hLibm<F_EXP2>); R("log10", hLibm<F_LOG10>); R("log1p", hLibm<F_LOG1P>); R("expm1", hLibm<F_EXPM1>); R("acos", hLibm<F_ACOS>); R("asin", hLibm<F_ASIN>); R("atan", hLibm<F_ATAN>); R("tan", hLibm<F_TAN>); R("cbrt", hLibm<F_CBRT>);
    R("llvm.pow", hLibm<F_POW>); R("llvm.exp", hLibm<F_EXP>); R("llvm.log", hLibm<F_LOG>); R("llvm.log2", hLibm<F_LOG2>); R("llvm.cos", hLibm<F_COS>); R("llvm.sin", hLibm<F_SIN>); R("llvm.sqrt", hLibm<F_SQRT>); R("llvm.exp2", hLibm<F_EXP2>); R("llvm.log10", hLibm<F_LOG10>);
    R("llvm.powi", [](Exec& E, State& s, Op&, std::vector<Val>& a, Val& r) { int k = (int)sx(a[1].c, 32); return ufCall(E, s, F_POW, a[0], Val(asU((double)k)), r); });
    R("fabs", hFabs); R("llvm.fabs", hFabs); R("floor", hRound<0>); R("llvm.floor", hRound<0>); R("ceil", hRound<1>); R("llvm.ceil", hRound<1>); R("trunc", hRound<2>); R("llvm.trunc", hRound<2>); R("round", hRound<3>); R("llvm.round", hRound<3>); R("rint", hRound<4>); R("llvm.rint", hRound<4>); R("nearbyint", hRound<4>); R("llvm.nearbyint", hRound<4>);
    R("fmin", hMinMax<false>); R("llvm.minnum", hMinMax<false>); R("fmax", hMinMax<true>); R("llvm.maxnum", hMinMax<true>); R("llvm.fmuladd", hFmulAdd); R("llvm.fma", hFma); R("fma", hFma); R("llvm.copysign", hCopysign); R("fmod", hFmod); R("nextafter", hNextafter); R("ldexp", hLdexp); R("scalbn", hLdexp); R("llvm.ldexp", hLdexp); R("hypot", hHypot); R("atan2", hAtan2); R("llvm.is.fpclass", hIsFpClass);
    R("llvm.umin", hIMinMax<0>); R("llvm.umax", hIMinMax<1>); R("llvm.smin", hIMinMax<2>); R("llvm.smax", hIMinMax<3>); R("llvm.abs", hAbs); R("llvm.ctlz", hCtlz); R("llvm.cttz", hCttz); R("llvm.ctpop", hCtpop); R("llvm.bswap", hBswap); R("llvm.fshl", hFsh<true>); R("llvm.fshr", hFsh<false>);
    R("llvm.uadd.with.overflow", hOvf<0>); R("llvm.sadd.with.overflow", hOvf<1>); R("llvm.usub.with.overflow", hOvf<2>); R("llvm.ssub.with.overflow", hOvf<3>); R("llvm.umul.with.overflow", hOvf<4>); R("llvm.smul.with.overflow", hOvf<5>); R("llvm.usub.sat", hUSat<false>); R("llvm.uadd.sat", hUSat<true>);
    R("llvm.objectsize", hObjSize); R("llvm.is.constant", hNop); R("llvm.x86.bmi.pdep.32", hPdepPext<true>); R("llvm.x86.bmi.pext.32", hPdepPext<false>); R("llvm.x86.bmi.pdep.64", hPdepPext<true>); R("llvm.x86.bmi.pext.64", hPdepPext<false>); R("llvm.vector.reduce.add", hVReduceAdd);
    R("__kmpc_fork_call", hForkCall); R("__kmpc_push_num_threads", hPushThreads); R("__kmpc_global_thread_num", hGtid); R("omp_get_thread_num", hGtid); R("omp_get_num_threads", hNumThreads); R("omp_get_max_threads", hMaxThreads); R("omp_get_num_procs", hOneProc); R("_ZNSt6thread20hardware_concurrencyEv", hOneProc); R("omp_set_num_threads", hSetThreads); R("omp_in_parallel", hInPar);
    R("__kmpc_barrier", hBarrier); R("__kmpc_single", hSingle); R("__kmpc_master", hMaster); R("__kmpc_masked", hMaster); R("__kmpc_critical", hCritical); R("__kmpc_critical_with_hint", hCritical); R("__kmpc_end_critical", hEndCritical); R("__kmpc_reduce", hReduce); R("__kmpc_reduce_nowait", hReduce); R("__kmpc_end_reduce", hEndReduce); R("__kmpc_end_reduce_nowait", hEndReduceNowait);
    R("__kmpc_for_static_init_4", hStaticInit<32, true>); R("__kmpc_for_static_init_4u", hStaticInit<32, false>); R("__kmpc_for_static_init_8", hStaticInit<64, true>); R("__kmpc_for_static_init_8u", hStaticInit<64, false>);
    R("__kmpc_dispatch_init_4", hDispInit<32, true>); R("__kmpc_dispatch_init_4u", hDispInit<32, false>); R("__kmpc_dispatch_init_8", hDispInit<64, true>); R("__kmpc_dispatch_init_8u", hDispInit<64, false>); R("__kmpc_dispatch_next_4", hDispNext<32, true>); R("__kmpc_dispatch_next_4u", hDispNext<32, false>); R("__kmpc_dispatch_next_8", hDispNext<64, true>); R("__kmpc_dispatch_next_8u", hDispNext<64, false>);
    R("pthread_mutex_lock", hLock); R("pthread_mutex_unlock", hUnlock); R("pthread_mutex_trylock", hTryLock);
    R("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", hCvWait); R("_ZNSt18condition_variable10notify_allEv", hCvNotify<true>); R("_ZNSt18condition_variable10notify_oneEv", hCvNotify<false>);
}
