    // ---------------------------------------------------------------- arithmetic
    Val intBin(State& s, unsigned opc, const Val& x, const Val& y, unsigned w) {
        if (w > 64) {
            if ((x.conc() || (x.p && x.p->tag == T_BIG)) && (y.conc() || (y.p && y.p->tag == T_BIG))) {
                auto g = [](const Val& v) { unsigned __int128 r = v.c; if (!v.conc()) memcpy(&r, static_cast<Big*>(v.p.p)->b, 16); return r; };
                unsigned __int128 a = g(x), b = g(y), r = 0;
                switch (opc) { case Instruction::Add: r = a + b; break; case Instruction::Sub: r = a - b; break; case Instruction::Mul: r = a * b; break; case Instruction::And: r = a & b; break; case Instruction::Or: r = a | b; break; case Instruction::Xor: r = a ^ b; break;
                    case Instruction::Shl: r = a << (unsigned)b; break; case Instruction::LShr: r = a >> (unsigned)b; break; case Instruction::UDiv: if (!b) throw Unsupported("div0"); r = a / b; break; case Instruction::URem: r = a % b; break; default: throw Unsupported("i128 op"); }
                auto* B = new Big; memcpy(B->b, &r, 16); Val v; v.p = P<RC>(B); return v;
            }
            throw Unsupported("symbolic i128");
        }
        if (x.conc() && y.conc()) {
            uint64_t a = x.c, b = y.c, m = maskw(w);
            switch (opc) {
            case Instruction::Add: return Val((a + b) & m); case Instruction::Sub: return Val((a - b) & m); case Instruction::Mul: return Val((a * b) & m);
            case Instruction::And: return Val(a & b); case Instruction::Or: return Val(a | b); case Instruction::Xor: return Val(a ^ b);
            case Instruction::Shl: return b >= w ? undefVal() : Val((a << b) & m); case Instruction::LShr: return b >= w ? undefVal() : Val(a >> b); case Instruction::AShr: return b >= w ? undefVal() : Val((uint64_t)(sx(a, w) >> b) & m);
            case Instruction::UDiv: if (!b) { violation(s, "integer division by zero", "ub"); return Val(); } return Val(a / b);
            case Instruction::URem: if (!b) { violation(s, "integer division by zero", "ub"); return Val(); } return Val(a % b);
            case Instruction::SDiv: if (!b) { violation(s, "integer division by zero", "ub"); return Val(); } if (sx(b, w) == -1) return Val((0 - a) & m); return Val((uint64_t)(sx(a, w) / sx(b, w)) & m);
            case Instruction::SRem: if (!b) { violation(s, "integer division by zero", "ub"); return Val(); } if (sx(b, w) == -1) return Val((uint64_t)0); return Val((uint64_t)(sx(a, w) % sx(b, w)) & m);
            }
            throw Unsupported("int op");
        }
        if (x.undef() || y.undef()) { // absorbing cases
            if (opc == Instruction::And && ((x.conc() && x.c == 0) || (y.conc() && y.c == 0))) return Val((uint64_t)0);
            return undefVal();
        }
        if (w == 1) {
            z3::expr a = toBool(x), b = toBool(y);
            switch (opc) { case Instruction::And: case Instruction::Mul: return mkBool(a && b); case Instruction::Or: return mkBool(a || b); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkBool(a != b); }
            throw Unsupported("i1 op");
        }
        s.hasBV = true;
        z3::expr a = toBV(x, w), b = toBV(y, w);
        switch (opc) {
        case Instruction::Add: return mkBV(a + b, w); case Instruction::Sub: return mkBV(a - b, w); case Instruction::Mul: return mkBV(a * b, w);
        case Instruction::And: return mkBV(a & b, w); case Instruction::Or: return mkBV(a | b, w); case Instruction::Xor: return mkBV(a ^ b, w);
        case Instruction::Shl: return mkBV(z3::shl(a, b), w); case Instruction::LShr: return mkBV(z3::lshr(a, b), w); case Instruction::AShr: return mkBV(z3::ashr(a, b), w);
        }
        if (decide(s, b == gz->bv_val(0, w))) { violation(s, "integer division by zero", "ub"); return Val(); }
        switch (opc) {
        case Instruction::UDiv: return mkBV(z3::udiv(a, b), w); case Instruction::URem: return mkBV(z3::urem(a, b), w);
        case Instruction::SDiv: return mkBV(a / b, w); case Instruction::SRem: return mkBV(z3::srem(a, b), w); }
        throw Unsupported("int op");
    }
    Val icmp(State& s, unsigned pr, const Val& x, const Val& y, unsigned w) {
        if (x.conc() && y.conc()) {
            uint64_t a = x.c, b = y.c; int64_t sa = sx(a, w), sb = sx(b, w);
            switch (pr) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
                case CmpInst::ICMP_SGT: return sa > sb; case CmpInst::ICMP_SGE: return sa >= sb; case CmpInst::ICMP_SLT: return sa < sb; case CmpInst::ICMP_SLE: return sa <= sb; }
        }
        if (x.undef() || y.undef()) return undefVal();
        if (w == 1) { z3::expr a = toBool(x), b = toBool(y); if (pr == CmpInst::ICMP_EQ) return mkBool(a == b); if (pr == CmpInst::ICMP_NE) return mkBool(a != b); if (pr == CmpInst::ICMP_ULT) return mkBool(!a && b); if (pr == CmpInst::ICMP_UGT) return mkBool(a && !b); throw Unsupported("i1 cmp"); }
        if (w > 64) throw Unsupported("i128 cmp");
        s.hasBV = true;
        z3::expr a = toBV(x, w), b = toBV(y, w);
        switch (pr) {
        case CmpInst::ICMP_EQ: return mkBool(a == b); case CmpInst::ICMP_NE: return mkBool(a != b);
        case CmpInst::ICMP_UGT: return mkBool(z3::ugt(a, b)); case CmpInst::ICMP_UGE: return mkBool(z3::uge(a, b)); case CmpInst::ICMP_ULT: return mkBool(z3::ult(a, b)); case CmpInst::ICMP_ULE: return mkBool(z3::ule(a, b));
        case CmpInst::ICMP_SGT: return mkBool(a > b); case CmpInst::ICMP_SGE: return mkBool(a >= b); case CmpInst::ICMP_SLT: return mkBool(a < b); case CmpInst::ICMP_SLE: return mkBool(a <= b); }
        throw Unsupported("icmp");
    }
    Val fbin(State& s, unsigned opc, const Val& x, const Val& y) {
        if (x.conc() && y.conc()) {
            double a = asD(x.c), b = asD(y.c), r;
            switch (opc) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; case Instruction::FRem: r = std::fmod(a, b); break; default: throw Unsupported("fop"); }
            return Val(asU(r));
        }
        if (x.undef() || y.undef()) return undefVal();
        if (fpSide(x) || fpSide(y)) {
            s.hasFP = true; z3::expr a = toFP(x), b = toFP(y); Z3_ast r;
            switch (opc) { case Instruction::FAdd: r = Z3_mk_fpa_add(*gz, rne(), a, b); break; case Instruction::FSub: r = Z3_mk_fpa_sub(*gz, rne(), a, b); break; case Instruction::FMul: r = Z3_mk_fpa_mul(*gz, rne(), a, b); break; case Instruction::FDiv: r = Z3_mk_fpa_div(*gz, rne(), a, b); break; default: throw Unsupported("symbolic frem"); }
            return Val(new Sym(K_FP, 64, z3::to_expr(*gz, r)));
        }
        // real mode
        s.hasReal = true; S.realOps++;
        bool nfx = x.conc() && !std::isfinite(asD(x.c)), nfy = y.conc() && !std::isfinite(asD(y.c));
        if (nfx || nfy) {
            double v = asD(nfx ? x.c : y.c); const Val& o = nfx ? y : x; if (std::isnan(v)) return Val(asU(v));
            switch (opc) {
            case Instruction::FAdd: return Val(asU(v));
            case Instruction::FSub: return Val(asU(nfx ? v : -v));
            case Instruction::FMul: { RI r = riOf(o); if (r.lo > 0) return Val(asU(v)); if (r.hi < 0) return Val(asU(-v)); z3::expr e = toReal(o); if (decide(s, e == realConst(0))) return Val(asU(NAN)); return Val(asU(decide(s, e > realConst(0)) ? v : -v)); }
            case Instruction::FDiv: if (nfy) return Val(asU(0.0)); { z3::expr e = toReal(o); return Val(asU(decide(s, e >= realConst(0)) ? v : -v)); }
            }
            throw Unsupported("non-finite real op");
        }
        RI a = riOf(x), b = riOf(y); z3::expr ex = toReal(x), ey = toReal(y);
        double lo = -INFINITY, hi = INFINITY; int lsb = 0; bool grid = a.grid && b.grid;
        z3::expr r(*gz);
        switch (opc) {
        case Instruction::FAdd: if (x.conc() && asD(x.c) == 0) return y; if (y.conc() && asD(y.c) == 0) return x; r = ex + ey; lo = dn(a.lo + b.lo); hi = up(a.hi + b.hi); lsb = std::min(a.lsb, b.lsb); if (grid) { lo = a.lo + b.lo; hi = a.hi + b.hi; } break;
        case Instruction::FSub: if (y.conc() && asD(y.c) == 0) return x; if (x.isSym() && y.isSym() && x.sym()->e.id() == y.sym()->e.id()) return Val((uint64_t)0); r = ex - ey; lo = dn(a.lo - b.hi); hi = up(a.hi - b.lo); if (grid) { lo = a.lo - b.hi; hi = a.hi - b.lo; } lsb = std::min(a.lsb, b.lsb); break;
        case Instruction::FMul: {
            if (x.conc() && asD(x.c) == 1) return y; if (y.conc() && asD(y.c) == 1) return x; if ((x.conc() && asD(x.c) == 0) || (y.conc() && asD(y.c) == 0)) return Val((uint64_t)0);
            r = ex * ey; double c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; bool nan = false; for (double v : c) if (std::isnan(v)) nan = true;
            if (!nan) { lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); if (!grid) { lo = dn(lo); hi = up(hi); } }
            if (x.isSym() && y.isSym() && x.sym()->e.id() == y.sym()->e.id() && lo < 0) lo = 0;
            lsb = a.lsb + b.lsb; break; }
        case Instruction::FDiv: {
            if (y.conc()) {
                double d = asD(y.c); if (d == 0) { z3::expr z = (ex == realConst(0)); if (decide(s, z)) return Val(asU(NAN)); bool pos = decide(s, ex > realConst(0)); return Val(asU((pos ^ (std::signbit(d) != 0)) ? INFINITY : -INFINITY)); }
                if (d == 1) return x;
                r = ex / ey; lo = d > 0 ? dn(a.lo / d) : dn(a.hi / d); hi = d > 0 ? up(a.hi / d) : up(a.lo / d); int e2; if (std::fabs(std::frexp(d, &e2)) == 0.5) { lsb = a.lsb - (e2 - 1); if (d > 0 && grid) { lo = a.lo / d; hi = a.hi / d; } } else grid = false;
            } else {
                if (b.lo <= 0 && b.hi >= 0) { if (decide(s, ey == realConst(0))) { if (x.conc() && asD(x.c) == 0) return Val(asU(NAN)); if (!x.conc() && decide(s, ex == realConst(0))) return Val(asU(NAN)); bool pos = x.conc() ? asD(x.c) > 0 : decide(s, ex > realConst(0)); return Val(asU(pos ? INFINITY : -INFINITY)); } }
                r = ex / ey; grid = false;
                if (b.lo > 0 || b.hi < 0) { double c[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi}; bool nan = false; for (double v : c) if (std::isnan(v)) nan = true; if (!nan) { lo = dn(*std::min_element(c, c + 4)); hi = up(*std::max_element(c, c + 4)); } }
                else if (b.lo >= 0 && a.lo >= 0) { lo = 0; }
            }
            break; }
        default: throw Unsupported("real op");
        }
        if (!(grid && exactFit(lo, hi, lsb))) { S.realInexact++; grid = false; }
        return mkRealV(r, lo, hi, lsb, grid);
    }
    Val fneg(State& s, const Val& x) {
        if (x.conc()) return Val(asU(-asD(x.c))); if (x.undef()) return x;
        if (fpSide(x)) { s.hasFP = true; return Val(new Sym(K_FP, 64, z3::to_expr(*gz, Z3_mk_fpa_neg(*gz, toFP(x))))); }
        Sym* y = x.sym(); return mkRealV(-y->e, -y->hi, -y->lo, y->lsb, y->grid);
    }
    Val fcmp(State& s, unsigned pr, const Val& x, const Val& y) {
        if (pr == CmpInst::FCMP_FALSE) return Val((uint64_t)0); if (pr == CmpInst::FCMP_TRUE) return Val(1);
        if (x.conc() && y.conc()) {
            double a = asD(x.c), b = asD(y.c); bool un = std::isnan(a) || std::isnan(b);
            switch (pr) { case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_OEQ: return a == b; case CmpInst::FCMP_OGT: return a > b; case CmpInst::FCMP_OGE: return a >= b; case CmpInst::FCMP_OLT: return a < b; case CmpInst::FCMP_OLE: return a <= b; case CmpInst::FCMP_ONE: return !un && a != b;
                case CmpInst::FCMP_UEQ: return un || a == b; case CmpInst::FCMP_UGT: return un || a > b; case CmpInst::FCMP_UGE: return un || a >= b; case CmpInst::FCMP_ULT: return un || a < b; case CmpInst::FCMP_ULE: return un || a <= b; case CmpInst::FCMP_UNE: return a != b || un; }
        }
        if (x.undef() || y.undef()) return undefVal();
        bool uno = pr & 8; unsigned base = pr & 7; // bits: 1 eq, 2 gt, 4 lt, 8 unordered
        if (fpSide(x) || fpSide(y)) {
            s.hasFP = true; z3::expr a = toFP(x), b = toFP(y);
            auto E = [&](Z3_ast q) { return z3::to_expr(*gz, q); };
            z3::expr eq = E(Z3_mk_fpa_eq(*gz, a, b)), gt = E(Z3_mk_fpa_gt(*gz, a, b)), lt = E(Z3_mk_fpa_lt(*gz, a, b)), un = E(Z3_mk_fpa_is_nan(*gz, a)) || E(Z3_mk_fpa_is_nan(*gz, b));
            z3::expr r = gz->bool_val(false);
            if (base == 3) r = E(Z3_mk_fpa_geq(*gz, a, b)); else if (base == 5) r = E(Z3_mk_fpa_leq(*gz, a, b)); else if (base == 7) r = !un; else { if (base & 1) r = r || eq; if (base & 2) r = r || gt; if (base & 4) r = r || lt; }
            if (uno) r = r || un;
            return mkBool(r);
        }
        s.hasReal = true;
        bool nx = x.conc() && std::isnan(asD(x.c)), ny = y.conc() && std::isnan(asD(y.c)); if (nx || ny) return Val(uno);
        if (pr == CmpInst::FCMP_UNO) return Val((uint64_t)0); if (pr == CmpInst::FCMP_ORD) return Val(1);
        RI a = riOf(x), b = riOf(y);
        if (x.isSym() && y.isSym() && x.sym()->e.id() == y.sym()->e.id()) return Val(base & 1 ? 1 : 0);
        bool infx = x.conc() && !std::isfinite(asD(x.c)), infy = y.conc() && !std::isfinite(asD(y.c));
        if (infx || infy) { bool gt = infx ? asD(x.c) > 0 : asD(y.c) < 0; return Val(gt ? (base & 2 ? 1 : 0) : (base & 4 ? 1 : 0)); }
        if (a.lo > b.hi) return Val(base & 2 ? 1 : 0);
        if (a.hi < b.lo) return Val(base & 4 ? 1 : 0);
        if (a.lo >= b.hi) { if (base == 3) return Val(1); if (base == 4) return Val((uint64_t)0); }
        if (a.hi <= b.lo) { if (base == 5) return Val(1); if (base == 2) return Val((uint64_t)0); }
        z3::expr ex = toReal(x), ey = toReal(y);
        switch (base) { case 1: return mkBool(ex == ey, false); case 2: return mkBool(ex > ey, false); case 3: return mkBool(ex >= ey, false); case 4: return mkBool(ex < ey, false); case 5: return mkBool(ex <= ey, false); case 6: return mkBool(ex != ey, false); case 7: return Val(1); case 0: return Val((uint64_t)0); }
        throw Unsupported("fcmp");
    }
    // x (symbolic bool) ? a : b. Returns true when merged
    Val select(State& s, const Val& c, const Val& a, const Val& b, const Ty& ty) {
        if (c.conc()) return c.c & 1 ? a : b;
        if (c.undef()) return undefVal();
        z3::expr ce = toBool(c);
        auto it = s.conc.find(ce.id()); if (it != s.conc.end()) return it->second ? a : b;
        if (a.conc() && b.conc() && a.c == b.c) return a;
        bool fork = false;
        if (ty.k == TV_AGG || ty.k == TV_VEC || ty.k == TV_X80 || ty.k == TV_PTR || (ty.k == TV_INT && ty.bits > 64)) fork = true;
        if (a.undef() || b.undef() || ty.k == TV_FLT) fork = true;
        if (fork) return decide(s, ce) ? a : b;
        if (ty.k == TV_INT && !isReal(a) && !isReal(b)) {
            if (ty.bits == 1) return mkBool(z3::ite(ce, toBool(a), toBool(b)));
            s.hasBV = true; return mkBV(z3::ite(ce, toBV(a, ty.bits), toBV(b, ty.bits)), ty.bits);
        }
        if (fpSide(a) || fpSide(b)) return Val(new Sym(K_FP, 64, z3::ite(ce, toFP(a), toFP(b))));
        static const bool forksel = param("forksel", 0) != 0;
        if (forksel && ty.k == TV_DBL) return decide(s, ce) ? a : b;
        bool nf = (a.conc() && !std::isfinite(asD(a.c))) || (b.conc() && !std::isfinite(asD(b.c)));
        if (nf || ty.k != TV_DBL) return decide(s, ce) ? a : b;
        RI x = riOf(a), y = riOf(b);
        double lo = std::min(x.lo, y.lo), hi = std::max(x.hi, y.hi);
        // min/max pattern: tighten the interval
        if (ce.is_app() && ce.num_args() == 2) {
            z3::expr l = ce.arg(0), r = ce.arg(1); auto k = ce.decl().decl_kind(); z3::expr ea = toReal(a), eb = toReal(b);
            bool lt = k == Z3_OP_LT || k == Z3_OP_LE, gt = k == Z3_OP_GT || k == Z3_OP_GE;
            if (lt || gt) {
                bool same = z3::eq(l, ea) && z3::eq(r, eb), swp = z3::eq(l, eb) && z3::eq(r, ea);
                if ((same && lt) || (swp && gt)) { lo = std::min(x.lo, y.lo); hi = std::min(x.hi, y.hi); }
                else if ((same && gt) || (swp && lt)) { lo = std::max(x.lo, y.lo); hi = std::max(x.hi, y.hi); }
                // |v| pattern
            }
        }
        if (s.conc.size() || true) { if (lo == hi && false) return a; }
        return mkRealV(z3::ite(ce, toReal(a), toReal(b)), lo, hi, std::min(x.lsb, y.lsb), x.grid && y.grid);
    }
    // double (real) -> integer, forks over the possible values
    bool realToInt(State& s, const Val& v, unsigned w, bool sgn, Val& out) {
        Sym* y = v.sym(); z3::expr e = y->e;
        int sh = sgn ? w - 1 : w; double top = std::ldexp(1.0, sh);
        if (y->hi >= top && decide(s, e >= realConst(top))) { violation(s, "floating value out of range in conversion to an integer", "ub"); return false; }
        double bot = sgn ? -std::ldexp(1.0, w - 1) - 1 : -1; if (y->lo <= bot && decide(s, e <= realConst(bot))) { violation(s, "floating value out of range in conversion to an integer", "ub"); return false; }
        auto it = s.conc.find(e.id() | 0x80000000u); if (it != s.conc.end()) { out = Val(it->second & maskw(w)); return true; }
        if (!s.model) { int r = query(s, gz->bool_val(true), branchTimeout()); if (r != 1) throw Unsupported("real to int: solver unknown"); s.model = lastModel; }
        z3::expr x = s.model->eval(e, true); string ds = Z3_get_numeral_decimal_string(*gz, x, 40); double d = strtod(ds.c_str(), nullptr);
        long long k = (long long)std::trunc(d);
        // floor of the decimal string, guarding against rounding up in strtod
        { size_t dot = ds.find('.'); string ip = dot == string::npos ? ds : ds.substr(0, dot); k = strtoll(ip.c_str(), nullptr, 10); }
        z3::expr in = k > 0 ? (e >= realConst((double)k) && e < realConst((double)k + 1)) : k < 0 ? (e <= realConst((double)k) && e > realConst((double)k - 1)) : (e > realConst(-1) && e < realConst(1));
        if (k == 0 && y->lo >= 0) in = e < realConst(1);
        pins.push_back(e);
        int r = query(s, !in, branchTimeout());
        if (r != 0) { S.forks++; work.push_back(s); State& o = work.back(); add(o, !in); o.model = r == 1 ? lastModel : nullptr; if (r < 0) o.unsureFeasible = true; add(s, in); }
        s.conc[e.id() | 0x80000000u] = (uint64_t)k; out = Val((uint64_t)k & maskw(w)); return true;
    }
    static long double ld(const Val& v) { long double r = 0; if (v.p && v.p->tag == T_BIG) memcpy(&r, static_cast<Big*>(v.p.p)->b, 10); return r; }
    static Val ldv(long double x) { auto* b = new Big; memcpy(b->b, &x, 10); Val v; v.p = P<RC>(b); return v; }

    // ---- single precision. A concrete float is its 32-bit pattern; a symbolic one is kept as the double (real or IEEE term) of
    // equal value, so that an operation is the double operation followed by the rounding to 24 bits
    static Val f2d(const Val& x) { if (!x.conc()) return x; float q; uint32_t u = (uint32_t)x.c; memcpy(&q, &u, 4); return Val(asU((double)q)); }
    Val d2f(State& s, const Val& x) {
        if (x.conc()) { float q = (float)asD(x.c); uint64_t u = 0; memcpy(&u, &q, 4); return Val(u); }
        if (x.undef()) return x;
        if (fpSide(x)) { s.hasFP = true; z3::expr e = toFP(x); static z3::sort f32(*gz, Z3_mk_fpa_sort_32(*gz)); z3::expr n = z3::to_expr(*gz, Z3_mk_fpa_to_fp_float(*gz, rne(), e, f32)); return Val(new Sym(K_FP, 64, z3::to_expr(*gz, Z3_mk_fpa_to_fp_float(*gz, rne(), n, fpSort())))); }
        if (!isReal(x)) throw Unsupported("narrowing of a non-floating value");
        Sym* y = x.sym(); double m = std::max(std::fabs(y->lo), std::fabs(y->hi));
        if (y->grid && std::isfinite(m) && (m == 0 || std::ilogb(m) - y->lsb <= 23)) return x;
        int top = std::isfinite(m) ? (m == 0 ? 0 : std::ilogb(m)) : 40, n = 26; double mn = y->lo > 0 ? y->lo : y->hi < 0 ? -y->hi : 0; int bot = top - n; if (mn > 0) bot = std::max(bot, std::ilogb(mn));
        z3::expr e = y->e, ab = y->lo >= 0 ? e : z3::ite(e >= realConst(0), e, -e); z3::expr r(*gz);
        for (int k = bot; k <= top; k++) {
            double u = std::ldexp(1.0, k - 23); z3::expr q = z3::to_expr(*gz, Z3_mk_real2int(*gz, e * realConst(1 / u) + realConst(0.5)));
            z3::expr v = z3::to_expr(*gz, Z3_mk_int2real(*gz, q)) * realConst(u);
            r = k == bot ? v : z3::ite(ab >= realConst(std::ldexp(1.0, k)), v, r);
        }
        double lo = std::isfinite(y->lo) ? (double)(float)y->lo : y->lo, hi = std::isfinite(y->hi) ? (double)(float)y->hi : y->hi; S.realInexact++;
        return mkRealV(r, lo, hi, std::max(y->lsb, bot - 23), y->grid || mn > 0);
    }
    Val binop(State& s, unsigned opc, const Val& x, const Val& y, Type* t) {
        if (auto* vt = dyn_cast<FixedVectorType>(t)) { auto* a = new Agg; Val r; r.p = P<RC>(a); for (unsigned i = 0; i < vt->getNumElements(); i++) a->v.push_back(binop(s, opc, static_cast<Agg*>(x.p.p)->v[i], static_cast<Agg*>(y.p.p)->v[i], vt->getElementType())); return r; }
        if (t->isX86_FP80Ty()) {
            if (isReal(x) || isReal(y)) { Val a = isReal(x) ? x : Val(asU((double)ld(x))), b = isReal(y) ? y : Val(asU((double)ld(y))); return fbin(s, opc, a, b); }
            long double a = ld(x), b = ld(y); switch (opc) { case Instruction::FAdd: return ldv(a + b); case Instruction::FSub: return ldv(a - b); case Instruction::FMul: return ldv(a * b); case Instruction::FDiv: return ldv(a / b); } throw Unsupported("x87 op"); }
        if (t->isFloatTy()) { if (x.undef() || y.undef()) return undefVal(); Val r = fbin(s, opc, f2d(x), f2d(y)); return s.done ? r : d2f(s, r); }
        if (t->isDoubleTy()) return fbin(s, opc, x, y);
        return intBin(s, opc, x, y, t->getIntegerBitWidth());
    }

    // accesses at a symbolic address: when all feasible addresses are few initialised slots of one object the access is
    // expressed with if-then-else over the slots instead of forking (parameter symaddr = largest number of slots)
    bool symSlots(State& s, const Val& v, const Ty& ty, bool atomic, bool needInit, std::vector<uint64_t>& out) {
        static const unsigned K = (unsigned)param("symaddr", 0);
        if (!K || atomic || s.race || !v.isSym() || v.sym()->k != K_BV || ty.k == TV_AGG || ty.k == TV_VEC || ty.k == TV_X80 || ty.size > 8) return false;
        z3::expr e = toBV(v, 64); if (s.conc.count(e.id())) return false;
        auto it = s.slots.find(e.id());
        if (it == s.slots.end()) {
            auto l = std::make_shared<std::vector<uint64_t>>(); z3::expr c = gz->bool_val(true); pins.push_back(e);
            if (s.model) { uint64_t x; z3::expr r = s.model->eval(e, true); if (r.is_numeral_u64(x)) { l->push_back(x); c = e != gz->bv_val(x, 64); } }
            for (;;) {
                if (l->size() > K) { l->clear(); break; }
                int r = query(s, c, branchTimeout()); if (r == 0) break; if (r < 0) { l->clear(); break; }
                uint64_t x; z3::expr m = lastModel->eval(e, true); if (!m.is_numeral_u64(x)) { l->clear(); break; } l->push_back(x); c = c && e != gz->bv_val(x, 64);
            }
            std::sort(l->begin(), l->end()); s.slots[e.id()] = l; it = s.slots.find(e.id());
        }
        out = *it->second; if (out.size() < 2) return false;
        uint32_t id = ptrid(out[0]); if (id == 0 || id >= s.mem.size() || !s.mem[id].p || s.mem[id].p->kind == 5 || !s.mem[id].p->alive) return false;
        MemObj* o = s.mem[id].p;
        for (uint64_t x : out) {
            int64_t off = ptroff(x); if (ptrid(x) != id || off < 0 || off + (int64_t)ty.size > (int64_t)o->size || (x - out[0]) % ty.size) return false;
            if (needInit) { Val w = loadRaw(o, off, ty); if (w.undef() || (w.isSym() && w.sym()->k != K_BV && w.sym()->k != K_BOOL)) return false; }
        }
        return true;
    }
    // address of a pointer operand; forks over feasible values when symbolic
    uint64_t addr(State& s, const Val& v) { return v.conc() ? v.c : concretize(s, v, 64); }

    void step(State& s, Thread& t, Frame& f, Op& o) {
        switch (o.opc) {
        case Instruction::Br:
            if (!o.b) { jump(f, o.e0); return; }
            { Val& c = reg(f, o.a); bool v; if (c.conc()) v = c.c & 1; else { if (c.undef()) { violation(s, "branch on an uninitialised value", "memory"); return; } v = decide(s, toBool(c)); } if (s.done) return; jump(f, v ? o.e0 : o.e1); return; }
        case Instruction::Switch: {
            Val c = reg(f, o.a); if (c.undef()) { violation(s, "branch on an uninitialised value", "memory"); return; }
            if (c.conc()) { for (auto& k : o.cases) if (k.first == c.c) { jump(f, k.second); return; } jump(f, o.e0); return; }
            z3::expr e = toBV(c, o.oty.bits); for (auto& k : o.cases) if (decide(s, e == gz->bv_val((uint64_t)k.first, o.oty.bits))) { jump(f, k.second); return; } jump(f, o.e0); return; }
        case Instruction::Ret: { Val v; if (o.I->getNumOperands()) v = reg(f, o.a); doReturn(s, v); return; }
        case Instruction::Unreachable: violation(s, "reached unreachable code (undefined behaviour)", "ub"); return;
        case Instruction::Alloca: { uint64_t n = concretize(s, reg(f, o.a), 64); uint32_t id = alloc(s, n * o.off, 1); f.allocas.push_back(id); f.regs[o.dst] = Val(mkptr(id)); f.ip++; return; }
        case Instruction::Load: {
            if (!reg(f, o.a).conc()) { std::vector<uint64_t> sl; if (symSlots(s, reg(f, o.a), o.ty, o.pred, true, sl)) {
                unsigned w = o.ty.size * 8; z3::expr e = toBV(reg(f, o.a), 64), x(*gz); bool first = true; Ty wt = o.ty; wt.k = TV_INT; wt.bits = w;
                for (uint64_t p : sl) { MemObj* m = acc(s, p, o.ty.size, false); if (!m) return; z3::expr y = toBV(loadRaw(m, ptroff(p), wt), w); x = first ? y : z3::ite(e == gz->bv_val(p, 64), y, x); first = false; }
                if (o.ty.k == TV_INT && o.ty.bits < w) x = x.extract(o.ty.bits - 1, 0);
                s.hasBV = true; Val r = mkBV(x, o.ty.k == TV_INT ? o.ty.bits : w); if (o.ty.k == TV_DBL && r.isSym()) r = Val(new Sym(K_FP, 64, toFP(r))); f.regs[o.dst] = r; f.ip++; return; } }
            uint64_t p = addr(s, reg(f, o.a)); if (s.done) return;
            if (o.pred) { visible(s); }
            MemObj* m = acc(s, p, o.ty.size, false, o.pred); if (!m) return;
            if (o.pred) { auto it = s.syncVC.find(p); if (it != s.syncVC.end()) vcJoin(t.vc, it->second); }
            f.regs[o.dst] = (o.ty.k == TV_AGG || o.ty.k == TV_VEC) ? loadT(m, ptroff(p), o.ty.t) : loadRaw(m, ptroff(p), o.ty); f.ip++; return; }
        case Instruction::Store: {
            if (!reg(f, o.b).conc() && !reg(f, o.a).undef() && !(reg(f, o.a).isSym() && reg(f, o.a).sym()->k != K_BV && reg(f, o.a).sym()->k != K_BOOL)) { std::vector<uint64_t> sl; if (symSlots(s, reg(f, o.b), o.oty, o.pred, true, sl)) {
                unsigned w = o.oty.size * 8; z3::expr e = toBV(reg(f, o.b), 64); Val src = reg(f, o.a); z3::expr y = o.oty.k == TV_INT && o.oty.bits < w ? z3::zext(toBV(src, o.oty.bits), w - o.oty.bits) : toBV(src, w); Ty wt = o.oty; wt.k = TV_INT; wt.bits = w; s.hasBV = true;
                for (uint64_t p : sl) { MemObj* m = acc(s, p, o.oty.size, true); if (!m) return; z3::expr old = toBV(loadRaw(m, ptroff(p), wt), w); storeRaw(m, ptroff(p), wt, mkBV(z3::ite(e == gz->bv_val(p, 64), y, old), w)); }
                f.ip++; return; } }
            uint64_t p = addr(s, reg(f, o.b)); if (s.done) return;
            if (o.pred) { visible(s); }
            MemObj* m = acc(s, p, o.oty.size, true, o.pred); if (!m) return;
            if (o.pred) { vcJoin(s.syncVC[p], t.vc); tick(s, s.cur); }
            if (o.oty.k == TV_AGG || o.oty.k == TV_VEC) storeT(m, ptroff(p), o.oty.t, reg(f, o.a)); else storeRaw(m, ptroff(p), o.oty, reg(f, o.a)); f.ip++; return; }
        case Instruction::GetElementPtr: {
            Val b = reg(f, o.a); uint64_t off = o.off; bool sym = false;
            for (auto& sc : o.scaled) { Val& x = reg(f, sc.first); if (x.conc()) off += (uint64_t)(sx(x.c, sc.second.second) * sc.second.first); else { if (x.undef()) { f.regs[o.dst] = undefVal(); f.ip++; return; } sym = true; } }
            if (!b.conc()) { if (b.undef()) { f.regs[o.dst] = b; f.ip++; return; } sym = true; }
            if (!sym) { f.regs[o.dst] = Val(b.c + off); f.ip++; return; }
            z3::expr e = toBV(b, 64) + gz->bv_val((uint64_t)off, 64);
            for (auto& sc : o.scaled) { Val& x = reg(f, sc.first); if (x.conc()) continue; z3::expr i = toBV(x, sc.second.second); auto it = s.conc.find(i.id()); if (it != s.conc.end()) i = gz->bv_val((uint64_t)it->second, sc.second.second); if (sc.second.second < 64) i = z3::sext(i, 64 - sc.second.second); e = e + i * gz->bv_val((uint64_t)sc.second.first, 64); }
            f.regs[o.dst] = mkBV(e, 64); f.ip++; return; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            if (o.ty.k == TV_INT && o.ty.bits <= 64) { Val& x = reg(f, o.a); Val& y = reg(f, o.b); f.regs[o.dst] = intBin(s, o.opc, x, y, o.ty.bits); f.ip++; return; }
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            Val r = binop(s, o.opc, reg(f, o.a), reg(f, o.b), o.ty.t); if (s.done) return; f.regs[o.dst] = r; f.ip++; return; }
        case Instruction::FNeg: if (o.ty.k == TV_FLT) { Val x = reg(f, o.a); f.regs[o.dst] = d2f(s, fneg(s, f2d(x))); f.ip++; return; } if (o.ty.k == TV_X80) { Val x = reg(f, o.a); f.regs[o.dst] = isReal(x) ? fneg(s, x) : ldv(-ld(x)); } else if (o.ty.k == TV_VEC) { auto* a = new Agg; Val r; r.p = P<RC>(a); for (auto& x : static_cast<Agg*>(reg(f, o.a).p.p)->v) a->v.push_back(fneg(s, x)); f.regs[o.dst] = r; } else f.regs[o.dst] = fneg(s, reg(f, o.a)); f.ip++; return;
        case Instruction::ICmp: {
            Val& x = reg(f, o.a); Val& y = reg(f, o.b);
            if (o.oty.k == TV_VEC) { auto* vt = cast<FixedVectorType>(o.oty.t); auto* a = new Agg; Val r; r.p = P<RC>(a); for (unsigned i = 0; i < vt->getNumElements(); i++) a->v.push_back(icmp(s, o.pred, static_cast<Agg*>(x.p.p)->v[i], static_cast<Agg*>(y.p.p)->v[i], DL->getTypeSizeInBits(vt->getElementType()))); f.regs[o.dst] = r; f.ip++; return; }
            f.regs[o.dst] = icmp(s, o.pred, x, y, o.oty.bits); f.ip++; return; }
        case Instruction::FCmp: {
            Val& x = reg(f, o.a); Val& y = reg(f, o.b);
            if (o.oty.k == TV_X80) { Val a = isReal(x) ? x : Val(asU((double)ld(x))), b = isReal(y) ? y : Val(asU((double)ld(y))); f.regs[o.dst] = fcmp(s, o.pred, a, b); f.ip++; return; }
            if (o.oty.k == TV_FLT) { f.regs[o.dst] = fcmp(s, o.pred, f2d(x), f2d(y)); f.ip++; return; }
            if (o.oty.k == TV_VEC) { auto* a = new Agg; Val r; r.p = P<RC>(a); auto& xv = static_cast<Agg*>(x.p.p)->v; auto& yv = static_cast<Agg*>(y.p.p)->v; for (size_t i = 0; i < xv.size(); i++) a->v.push_back(fcmp(s, o.pred, xv[i], yv[i])); f.regs[o.dst] = r; f.ip++; return; }
            f.regs[o.dst] = fcmp(s, o.pred, x, y); f.ip++; return; }
        case Instruction::Select: {
            Val& c = reg(f, o.a);
            if (c.p && c.p->tag == T_AGG) { auto* a = new Agg; Val r; r.p = P<RC>(a); auto* vt = cast<FixedVectorType>(o.ty.t); for (size_t i = 0; i < static_cast<Agg*>(c.p.p)->v.size(); i++) a->v.push_back(select(s, static_cast<Agg*>(c.p.p)->v[i], static_cast<Agg*>(reg(f, o.b).p.p)->v[i], static_cast<Agg*>(reg(f, o.c).p.p)->v[i], tyOf(vt->getElementType()))); f.regs[o.dst] = r; f.ip++; return; }
            Val r = select(s, c, reg(f, o.b), reg(f, o.c), o.ty); f.regs[o.dst] = r; f.ip++; return; }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: {
            Val x = reg(f, o.a); unsigned wi = o.oty.bits, wo = o.ty.bits;
            if (o.opc == Instruction::Freeze) { if (x.undef()) x = Val((uint64_t)0); f.regs[o.dst] = x; f.ip++; return; }
            if (o.ty.k == TV_VEC || o.oty.k == TV_VEC) { // go through bytes
                if (o.opc != Instruction::BitCast) {
                    auto* a = new Agg; Val r; r.p = P<RC>(a); unsigned ei = o.oty.t->getScalarSizeInBits(), eo = o.ty.t->getScalarSizeInBits();
                    for (auto& e : static_cast<Agg*>(x.p.p)->v) { if (!e.conc()) throw Unsupported("symbolic vector cast"); a->v.push_back(Val(o.opc == Instruction::SExt ? (uint64_t)sx(e.c, ei) & maskw(eo) : e.c & maskw(eo))); }
                    f.regs[o.dst] = r; f.ip++; return; }
                MemObj m; m.size = 64; m.data.assign(64, 0); storeT(&m, 0, o.oty.t, x); f.regs[o.dst] = loadT(&m, 0, o.ty.t); f.ip++; return; }
            if (x.undef()) { f.regs[o.dst] = x; f.ip++; return; }
            if (o.opc == Instruction::BitCast) {
                if (x.isSym()) { Sym* y = x.sym(); if (o.ty.k == TV_INT && y->k == K_FP) x = mkBV(toBV(x, 64), 64); else if (o.ty.k == TV_DBL && y->k == K_BV) x = Val(new Sym(K_FP, 64, toFP(x))); }
                f.regs[o.dst] = x; f.ip++; return; }
            if (o.oty.k == TV_PTR) wi = 64; if (o.ty.k == TV_PTR) wo = 64;
            if (wo > 64 || wi > 64) {
                if (x.isSym()) throw Unsupported("symbolic i128 cast");
                unsigned __int128 v = x.c; if (!x.conc()) memcpy(&v, static_cast<Big*>(x.p.p)->b, 16); else if (o.opc == Instruction::SExt) v = (unsigned __int128)(__int128)sx(x.c, wi);
                if (wo > 64) { auto* B = new Big; memcpy(B->b, &v, 16); Val r; r.p = P<RC>(B); f.regs[o.dst] = r; } else f.regs[o.dst] = Val((uint64_t)v & maskw(wo)); f.ip++; return; }
            if (x.conc()) { f.regs[o.dst] = Val((o.opc == Instruction::SExt ? (uint64_t)sx(x.c, wi) : x.c) & maskw(wo)); f.ip++; return; }
            if (isReal(x)) { if (wi == wo) { f.regs[o.dst] = x; f.ip++; return; } throw Unsupported("integer cast of real bits"); }
            s.hasBV = true;
            if (wi == 1) { if (o.opc == Instruction::SExt) f.regs[o.dst] = mkBV(z3::ite(toBool(x), gz->bv_val((uint64_t)maskw(wo), wo), gz->bv_val(0, wo)), wo); else f.regs[o.dst] = mkBV(toBV(x, wo), wo); f.ip++; return; }
            z3::expr e = toBV(x, wi);
            if (wo == 1) f.regs[o.dst] = mkBool(e.extract(0, 0) == gz->bv_val(1, 1));
            else if (wo > wi) f.regs[o.dst] = mkBV(o.opc == Instruction::SExt ? z3::sext(e, wo - wi) : z3::zext(e, wo - wi), wo);
            else if (wo < wi) f.regs[o.dst] = mkBV(e.extract(wo - 1, 0), wo); else f.regs[o.dst] = x;
            f.ip++; return; }
        case Instruction::FPToUI: case Instruction::FPToSI: {
            Val x = reg(f, o.a); if (x.undef()) { f.regs[o.dst] = x; f.ip++; return; }
            bool sg = o.opc == Instruction::FPToSI; unsigned w = o.ty.bits;
            if (o.oty.k == TV_X80 && !isReal(x)) { long double v = ld(x); f.regs[o.dst] = Val((sg ? (uint64_t)(int64_t)v : (uint64_t)v) & maskw(w)); f.ip++; return; }
            if (o.oty.k == TV_FLT) x = f2d(x);
            if (x.conc()) {
                double d = asD(x.c);
                double tr = std::trunc(d), top = std::ldexp(1.0, sg ? w - 1 : w), bot = sg ? -top : 0;
                if (!(tr >= bot && tr < top)) { violation(s, "floating value out of range in conversion to an integer", "ub"); return; }
                f.regs[o.dst] = Val((sg ? (uint64_t)(int64_t)tr : (uint64_t)tr) & maskw(w)); f.ip++; return; }
            if (isReal(x)) { Val r; if (!realToInt(s, x, w, sg, r)) return; f.regs[o.dst] = r; f.ip++; return; }
            { s.hasFP = true; s.hasBV = true; z3::expr e = toFP(x); auto E = [&](Z3_ast q) { return z3::to_expr(*gz, q); };
              double top = std::ldexp(1.0, sg ? w - 1 : w); double bot = sg ? -top : 0;
              z3::expr tr = E(Z3_mk_fpa_round_to_integral(*gz, rtz(), e));
              z3::expr ok = E(Z3_mk_fpa_lt(*gz, tr, fpConst(top))) && E(Z3_mk_fpa_geq(*gz, tr, fpConst(bot)));
              if (!decide(s, ok)) { violation(s, "floating value out of range in conversion to an integer", "ub"); return; }
              f.regs[o.dst] = mkBV(E(sg ? Z3_mk_fpa_to_sbv(*gz, rtz(), e, w) : Z3_mk_fpa_to_ubv(*gz, rtz(), e, w)), w); f.ip++; return; } }
        case Instruction::UIToFP: case Instruction::SIToFP: {
            Val x = reg(f, o.a); if (x.undef()) { f.regs[o.dst] = x; f.ip++; return; } unsigned w = o.oty.bits; bool sg = o.opc == Instruction::SIToFP;
            if (o.ty.k == TV_VEC) { auto* a = new Agg; Val r; r.p = P<RC>(a); unsigned ei = o.oty.t->getScalarSizeInBits(); for (auto& e : static_cast<Agg*>(x.p.p)->v) { if (!e.conc()) throw Unsupported("symbolic vector cast"); a->v.push_back(Val(asU(sg ? (double)sx(e.c, ei) : (double)e.c))); } f.regs[o.dst] = r; f.ip++; return; }
            if (!x.conc()) {
                auto it = s.conc.find(toBV(x, w).id()); if (it != s.conc.end()) x = Val(it->second);
                else if (s.hasReal && !s.hasFP) { uint64_t c = concretize(s, x, w); if (s.done) return; x = Val(c); }
                else { s.hasFP = true; z3::expr e = toBV(x, w); f.regs[o.dst] = Val(new Sym(K_FP, 64, z3::to_expr(*gz, sg ? Z3_mk_fpa_to_fp_signed(*gz, rne(), e, fpSort()) : Z3_mk_fpa_to_fp_unsigned(*gz, rne(), e, fpSort())))); if (o.ty.k == TV_FLT) f.regs[o.dst] = d2f(s, f.regs[o.dst]); f.ip++; return; } }
            if (o.ty.k == TV_X80) { f.regs[o.dst] = ldv(sg ? (long double)sx(x.c, w) : (long double)x.c); f.ip++; return; }
            if (o.ty.k == TV_FLT) { float q = sg ? (float)sx(x.c, w) : (float)x.c; uint64_t u = 0; memcpy(&u, &q, 4); f.regs[o.dst] = Val(u); f.ip++; return; }
            f.regs[o.dst] = Val(asU(sg ? (double)sx(x.c, w) : (double)x.c)); f.ip++; return; }
        case Instruction::FPExt: case Instruction::FPTrunc: {
            Val x = reg(f, o.a); if (x.undef()) { f.regs[o.dst] = x; f.ip++; return; }
            if (x.isSym()) { if (!isReal(x) && (o.ty.k == TV_X80 || o.oty.k == TV_X80)) throw Unsupported("symbolic IEEE value in extended precision"); f.regs[o.dst] = o.ty.k == TV_FLT ? d2f(s, x) : x; f.ip++; return; }
            long double v = o.oty.k == TV_X80 ? ld(x) : o.oty.k == TV_FLT ? [&] { float q; memcpy(&q, &x.c, 4); return (long double)q; }() : (long double)asD(x.c);
            if (o.ty.k == TV_X80) f.regs[o.dst] = ldv(v); else if (o.ty.k == TV_FLT) { float q = o.oty.k == TV_DBL ? (float)asD(x.c) : (float)v; uint64_t u = 0; memcpy(&u, &q, 4); f.regs[o.dst] = Val(u); } else f.regs[o.dst] = Val(asU((double)v)); f.ip++; return; }
        case Instruction::ExtractValue: { Val v = reg(f, o.a); for (auto i : o.idx) { Val n = static_cast<Agg*>(v.p.p)->v[i]; v = n; } f.regs[o.dst] = v; f.ip++; return; }
        case Instruction::InsertValue: {
            Val base = reg(f, o.a); if (!base.p || base.p->tag != T_AGG) base = zeroOf(o.ty.t);
            std::function<Val(const Val&, size_t)> ins = [&](const Val& v, size_t d) -> Val { if (d == o.idx.size()) return reg(f, o.b); auto* n = new Agg; n->v = static_cast<Agg*>(v.p.p)->v; Val r; r.p = P<RC>(n); Val q = ins(n->v[o.idx[d]], d + 1); n->v[o.idx[d]] = q; return r; };
            Val r = ins(base, 0); f.regs[o.dst] = r; f.ip++; return; }
        case Instruction::ExtractElement: { Val& v = reg(f, o.a); uint64_t i = concretize(s, reg(f, o.b), 64); f.regs[o.dst] = static_cast<Agg*>(v.p.p)->v.at(i); f.ip++; return; }
        case Instruction::InsertElement: { Val b = reg(f, o.a); auto* n = new Agg; n->v = (b.p && b.p->tag == T_AGG) ? static_cast<Agg*>(b.p.p)->v : static_cast<Agg*>(zeroOf(o.ty.t).p.p)->v; Val r; r.p = P<RC>(n); n->v.at(concretize(s, reg(f, o.c), 64)) = reg(f, o.b); f.regs[o.dst] = r; f.ip++; return; }
        case Instruction::ShuffleVector: { Val a = reg(f, o.a), b = reg(f, o.b); Type* st = o.I->getOperand(0)->getType(); if (!a.p || a.p->tag != T_AGG) a = zeroOf(st); if (!b.p || b.p->tag != T_AGG) b = zeroOf(st); auto& av = static_cast<Agg*>(a.p.p)->v; auto& bv = static_cast<Agg*>(b.p.p)->v; auto* n = new Agg; Val r; r.p = P<RC>(n); for (int x : o.args) n->v.push_back(x < 0 ? Val() : x < (int)av.size() ? av[x] : bv[x - av.size()]); f.regs[o.dst] = r; f.ip++; return; }
        case Instruction::AtomicRMW: {
            uint64_t p = addr(s, reg(f, o.a)); if (s.done) return; if (!o.I->use_empty() || cast<AtomicRMWInst>(*o.I).getOrdering() != AtomicOrdering::Monotonic) visible(s);
            MemObj* m = acc(s, p, o.ty.size, true, true); if (!m) return;
            auto ord = cast<AtomicRMWInst>(*o.I).getOrdering();
            Val old = loadRaw(m, ptroff(p), o.ty), nv, x = reg(f, o.b);
            switch (o.pred) { case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, x, o.ty.t); break; case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, x, o.ty.t); break; case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::FAdd: nv = binop(s, Instruction::FAdd, old, x, o.ty.t); break; case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, x, o.ty.t); break; case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, x, o.ty.t); break;
                case AtomicRMWInst::Max: case AtomicRMWInst::Min: case AtomicRMWInst::UMax: case AtomicRMWInst::UMin: { unsigned pr = o.pred == AtomicRMWInst::Max ? CmpInst::ICMP_SGT : o.pred == AtomicRMWInst::Min ? CmpInst::ICMP_SLT : o.pred == AtomicRMWInst::UMax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT; nv = select(s, icmp(s, pr, old, x, o.ty.bits), old, x, o.ty); break; }
                default: throw Unsupported("atomicrmw op"); }
            m = acc(s, p, o.ty.size, true, true); if (!m) return; storeRaw(m, ptroff(p), o.ty, nv);
            if (ord != AtomicOrdering::Monotonic) { auto& vc = s.syncVC[p]; vcJoin(t.vc, vc); vcJoin(vc, t.vc); tick(s, s.cur); }
            f.regs[o.dst] = old; f.ip++; return; }
        case Instruction::AtomicCmpXchg: {
            uint64_t p = addr(s, reg(f, o.a)); if (s.done) return; visible(s); Ty et = tyOf(o.I->getOperand(1)->getType());
            MemObj* m = acc(s, p, et.size, true, true); if (!m) return; Val old = loadRaw(m, ptroff(p), et); Val eq;
            if (isReal(old) || isReal(reg(f, o.b))) { Val e2 = reg(f, o.b); eq = (isReal(old) && isReal(e2) && z3::eq(old.sym()->e, e2.sym()->e)) ? Val(1) : fcmp(s, CmpInst::FCMP_OEQ, old, e2); }
            else eq = icmp(s, CmpInst::ICMP_EQ, old, reg(f, o.b), et.k == TV_PTR ? 64 : et.bits);
            bool e = eq.conc() ? eq.c & 1 : decide(s, toBool(eq)); m = acc(s, p, et.size, true, true); if (!m) return; if (e) storeRaw(m, ptroff(p), et, reg(f, o.c));
            auto ord = cast<AtomicCmpXchgInst>(*o.I).getSuccessOrdering(); if (ord != AtomicOrdering::Monotonic) { auto& vc = s.syncVC[p]; vcJoin(t.vc, vc); vcJoin(vc, t.vc); tick(s, s.cur); }
            auto* a = new Agg; a->v = {old, Val((uint64_t)e)}; Val r; r.p = P<RC>(a); f.regs[o.dst] = r; f.ip++; return; }
        case Instruction::Fence: f.ip++; return;
        case Instruction::LandingPad: { auto* a = new Agg; a->v = {Val(t.excPtr), Val()}; uint64_t sel = 0; for (size_t i = 0; i < o.args.size(); i++) if (o.idx[i]) { uint64_t want = reg(f, o.args[i]).c; if (tiMatch(s, t.excTI, want)) { sel = want ? ptrid(want) : 1; break; } } a->v[1] = Val(sel); Val r; r.p = P<RC>(a); f.regs[o.dst] = r; f.ip++; return; }
        case Instruction::Resume: if (t.st.size() == 1 || f.kind != FK_NORMAL) { violation(s, "uncaught exception", "exception"); return; } popFrame(s, t); unwind(s); return;
        case Instruction::Call: case Instruction::Invoke: call(s, t, f, o); return;
        default: throw Unsupported(string("instruction ") + o.I->getOpcodeName());
        }
    }
    void call(State& s, Thread& t, Frame& f, Op& o) {
        Function* F = o.callee;
        if (!F) { if (cast<CallBase>(o.I)->isInlineAsm()) { f.ip++; return; } uint64_t p = concretize(s, reg(f, o.a), 64); if (s.done) return; uint32_t id = ptrid(p); if (id >= fnById.size() || !fnById[id] || ptroff(p)) { violation(s, "call through an invalid function pointer", "memory"); return; } F = fnById[id]; }
        std::vector<Val> args; args.reserve(o.args.size()); for (int a : o.args) args.push_back(reg(f, a));
        auto& cb = cast<CallBase>(*o.I);
        for (unsigned i = 0; i < cb.arg_size(); i++) if (cb.isByValArgument(i)) { uint64_t sz = DL->getTypeAllocSize(cb.getParamByValType(i)); uint32_t id = alloc(s, sz, 1); if (!memCopy(s, mkptr(id), args[i].c, sz)) return; args[i] = Val(mkptr(id)); }
        Handler h = nullptr;
        if (o.callee && o.resolved) h = o.h; else { h = findHandler(F); if (o.callee) { o.resolved = true; o.h = h; } }
        if (h) {
            Val r; int cur = s.cur; size_t depth = t.st.size();
            if (!F->isVarArg()) for (unsigned i = 0; i < args.size() && i < F->arg_size(); i++) if (F->getArg(i)->getType()->isFloatTy()) args[i] = f2d(args[i]);
            if (!h(*this, s, o, args, r)) return;
            if (s.done) return;
            if (F->getReturnType()->isFloatTy()) r = d2f(s, r);
            Frame& g = s.th[cur].st[depth - 1]; if (o.dst >= 0) g.regs[o.dst] = r; advance(g, o); return;
        }
        if (F->isDeclaration()) throw Unsupported("external function " + demangle(F->getName().str()));
        pushFrame(s, t, F, std::move(args));
    }
    Handler findHandler(Function* F) {
        string n = F->getName().str();
        if (F->isIntrinsic()) { size_t k = n.size(); while (true) { auto it = ext.find(n.substr(0, k)); if (it != ext.end()) return it->second; k = n.rfind('.', k - 1); if (k == string::npos || k < 5) break; } throw Unsupported("intrinsic " + n); }
        if (!F->isDeclaration() && n.compare(0, 2, "_Z") != 0 && n.compare(0, 4, "sym_") != 0) { static const std::set<string> over = {}; return nullptr; }
        auto it = ext.find(n); if (it != ext.end() && (F->isDeclaration())) return it->second;
        if (F->isDeclaration() && n.size() > 1 && n.back() == 'f' && F->getReturnType()->isFloatTy()) { it = ext.find(n.substr(0, n.size() - 1)); if (it != ext.end()) return it->second; }
        return nullptr;
    }
