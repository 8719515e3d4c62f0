static const int F_POW_ID = 0;
// ------------------------------------------------------------------ expressions
static std::unordered_map<uint64_t, z3::expr*> g_realCache;
static string bigPow2(const string& dec, int e) { // dec * 2^e in decimal
    std::vector<uint32_t> d; // base 1e9 little endian
    for (int i = (int)dec.size(); i > 0; i -= 9) d.push_back((uint32_t)atol(dec.substr(std::max(0, i - 9), i - std::max(0, i - 9)).c_str()));
    while (e > 0) { int k = std::min(e, 29); uint64_t carry = 0; for (auto& x : d) { uint64_t v = ((uint64_t)x << k) + carry; x = v % 1000000000u; carry = v / 1000000000u; } while (carry) { d.push_back(carry % 1000000000u); carry /= 1000000000u; } e -= k; }
    string r; char b[16]; for (int i = (int)d.size() - 1; i >= 0; i--) { snprintf(b, 16, i == (int)d.size() - 1 ? "%u" : "%09u", d[i]); r += b; } return r;
}
static z3::expr realConst(double v) {
    uint64_t u = asU(v == 0 ? 0.0 : v);
    auto it = g_realCache.find(u); if (it != g_realCache.end()) return *it->second;
    if (!std::isfinite(v)) throw Unsupported("non-finite constant in real mode");
    int e; double m = std::frexp(std::fabs(v), &e); uint64_t mi = (uint64_t)std::ldexp(m, 53); e -= 53;
    while (mi && !(mi & 1)) { mi >>= 1; e++; }
    string s = std::to_string(mi);
    if (mi == 0) s = "0"; else if (e >= 0) s = bigPow2(s, e); else s = s + "/" + bigPow2("1", -e);
    if (v < 0) s = "-" + s;
    z3::expr* x = new z3::expr(gz->real_val(s.c_str()));
    g_realCache[u] = x; return *x;
}
static z3::sort fpSort() { static z3::sort* s = nullptr; if (!s) s = new z3::sort(gz->fpa_sort(11, 53)); return *s; }
static z3::expr rne() { static z3::expr* s = nullptr; if (!s) s = new z3::expr(z3::to_expr(*gz, Z3_mk_fpa_rne(*gz))); return *s; }
static z3::expr rtz() { static z3::expr* s = nullptr; if (!s) s = new z3::expr(z3::to_expr(*gz, Z3_mk_fpa_rtz(*gz))); return *s; }
static z3::expr fpConst(double v) {
    if (std::isnan(v)) return z3::to_expr(*gz, Z3_mk_fpa_nan(*gz, fpSort()));
    z3::expr b = gz->bv_val((uint64_t)asU(v), 64);
    return z3::to_expr(*gz, Z3_mk_fpa_to_fp_bv(*gz, b, fpSort())).simplify();
}
static Val mkBV(z3::expr e, unsigned w, bool simp = true) {
    if (simp) e = e.simplify();
    uint64_t v; if (w <= 64 && e.is_numeral_u64(v)) return Val(v & maskw(w));
    return Val(new Sym(K_BV, w, e));
}
static Val mkBool(z3::expr e, bool simp = true) {
    if (simp) e = e.simplify();
    if (e.is_true()) return Val(1); if (e.is_false()) return Val((uint64_t)0);
    return Val(new Sym(K_BOOL, 1, e));
}
static z3::expr toBV(const Val& v, unsigned w) {
    if (v.conc()) return gz->bv_val((uint64_t)(v.c & maskw(w)), w);
    if (v.p->tag == T_BIG) { z3::expr lo = gz->bv_val(*(uint64_t*)static_cast<Big*>(v.p.p)->b, 64), hi = gz->bv_val(*(uint64_t*)(static_cast<Big*>(v.p.p)->b + 8), 64); return z3::concat(hi, lo); }
    if (!v.isSym()) throw Unsupported("aggregate as bv");
    Sym* s = v.sym();
    if (s->k == K_BV) { if (s->w != w) throw Unsupported("bv width mismatch"); return s->e; }
    if (s->k == K_BOOL) { return z3::ite(s->e, gz->bv_val(1, w), gz->bv_val(0, w)); }
    if (s->k == K_FP) return z3::to_expr(*gz, Z3_mk_fpa_to_ieee_bv(*gz, s->e));
    if (s->k == K_UNDEF) throw Unsupported("undef as bv");
    throw Unsupported("real value used as integer bits");
}
static z3::expr toBool(const Val& v) {
    if (v.conc()) return gz->bool_val(v.c & 1);
    if (!v.isSym()) throw Unsupported("agg as bool");
    if (v.sym()->k == K_BOOL) return v.sym()->e;
    if (v.sym()->k == K_BV) return (toBV(v, v.sym()->w) != gz->bv_val(0, v.sym()->w));
    throw Unsupported("bad bool");
}
static bool isReal(const Val& v) { return v.isSym() && v.sym()->k == K_REAL; }
static z3::expr toReal(const Val& v) { if (v.conc()) return realConst(asD(v.c)); if (isReal(v)) return v.sym()->e; throw Unsupported("expected real"); }
static z3::expr toFP(const Val& v) {
    if (v.conc()) return fpConst(asD(v.c));
    if (v.isSym() && v.sym()->k == K_FP) return v.sym()->e;
    if (v.isSym() && v.sym()->k == K_BV && v.sym()->w == 64) return z3::to_expr(*gz, Z3_mk_fpa_to_fp_bv(*gz, v.sym()->e, fpSort()));
    throw Unsupported("expected fp");
}
static Val undefVal() { static P<Sym> u; if (!u) { u = P<Sym>(new Sym(K_UNDEF, 0, gz->bool_val(true))); } return Val(u); }
static int lsbOf(double v) { if (v == 0) return 2000; int e; double m = std::frexp(std::fabs(v), &e); uint64_t mi = (uint64_t)std::ldexp(m, 53); e -= 53; return e + __builtin_ctzll(mi); }
struct RI { double lo, hi; int lsb; bool grid; };
static RI riOf(const Val& v) { if (v.conc()) { double d = asD(v.c); return {d, d, lsbOf(d), std::isfinite(d)}; } Sym* s = v.sym(); return {s->lo, s->hi, s->lsb, s->grid}; }
static double dn(double x) { return std::nextafter(x, -INFINITY); }
static double up(double x) { return std::nextafter(x, INFINITY); }
static Val mkRealV(const z3::expr& e, double lo, double hi, int lsb, bool grid) {
    Sym* s = new Sym(K_REAL, 64, e); s->lo = lo; s->hi = hi; s->lsb = lsb; s->grid = grid; return Val(s);
}
static bool exactFit(double lo, double hi, int lsb) { double m = std::max(std::fabs(lo), std::fabs(hi)); if (!std::isfinite(m)) return false; if (m == 0) return true; int e = std::ilogb(m); return (e - lsb) <= 52 && lsb > -1070; }

static bool fpSide(const Val& v) { return v.isSym() && (v.sym()->k == K_FP || v.sym()->k == K_BV); }
static string demangle(const string& n) { return llvm::demangle(n); }

// ------------------------------------------------------------------ executor
struct Exec {
    Module& M; std::unordered_map<const Function*, std::unique_ptr<CF>> cfs; std::unordered_map<const GlobalValue*, uint32_t> gid; std::vector<Function*> fnById;
    std::unordered_map<string, Handler> ext; std::list<State> work; z3::solver solver; std::vector<PCN*> stk; std::vector<P<PCN>> stkHold; bool timedOut = false; size_t stopViols = (size_t)param("stopviol", 60);
    std::vector<z3::expr> pins; std::shared_ptr<z3::model> lastModel; int fresh = 0;
    Exec(Module& M) : M(M), solver(*gz, z3::solver::simple()) { registerExt(); }
    void registerExt();

    // ---------------------------------------------------------------- compile
    int constCode(CF* cf, std::unordered_map<const Value*, int>& m, const Constant* C) {
        auto it = m.find(C); if (it != m.end()) return it->second;
        cf->consts.push_back(evalConst(C)); int code = ~(int)(cf->consts.size() - 1); m[C] = code; return code;
    }
    Val zeroOf(Type* t) {
        if (t->isStructTy()) { auto* a = new Agg; for (auto* e : cast<StructType>(t)->elements()) a->v.push_back(zeroOf(e)); Val v; v.p = P<RC>(a); return v; }
        if (t->isArrayTy()) { auto* a = new Agg; for (uint64_t i = 0; i < t->getArrayNumElements(); i++) a->v.push_back(zeroOf(t->getArrayElementType())); Val v; v.p = P<RC>(a); return v; }
        if (auto* vt = dyn_cast<FixedVectorType>(t)) { auto* a = new Agg; for (unsigned i = 0; i < vt->getNumElements(); i++) a->v.push_back(zeroOf(vt->getElementType())); Val v; v.p = P<RC>(a); return v; }
        if (t->isX86_FP80Ty() || (t->isIntegerTy() && t->getIntegerBitWidth() > 64)) { Val v; v.p = P<RC>(new Big); return v; }
        return Val((uint64_t)0);
    }
    Val evalConst(const Constant* C) {
        if (auto* ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { auto* b = new Big; APInt x = ci->getValue().zext(128); memcpy(b->b, x.getRawData(), 16); Val v; v.p = P<RC>(b); return v; } return Val(ci->getZExtValue()); }
        if (auto* cf = dyn_cast<ConstantFP>(C)) {
            if (C->getType()->isX86_FP80Ty()) { auto* b = new Big; APInt x = cf->getValueAPF().bitcastToAPInt(); memcpy(b->b, x.getRawData(), 10); Val v; v.p = P<RC>(b); return v; }
            return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue());
        }
        if (isa<ConstantPointerNull>(C)) return Val((uint64_t)0);
        if (isa<UndefValue>(C)) { if (C->getType()->isAggregateType() || C->getType()->isVectorTy()) return zeroOf(C->getType()); return undefVal(); }
        if (isa<ConstantAggregateZero>(C)) return zeroOf(C->getType());
        if (auto* gv = dyn_cast<GlobalValue>(C)) { if (auto* al = dyn_cast<GlobalAlias>(C)) return evalConst(al->getAliasee()); return Val(mkptr(gidOf(gv))); }
        if (auto* ca = dyn_cast<ConstantAggregate>(C)) { auto* a = new Agg; for (unsigned i = 0; i < ca->getNumOperands(); i++) a->v.push_back(evalConst(ca->getOperand(i))); Val v; v.p = P<RC>(a); return v; }
        if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { auto* a = new Agg; for (unsigned i = 0; i < cd->getNumElements(); i++) a->v.push_back(evalConst(cd->getElementAsConstant(i))); Val v; v.p = P<RC>(a); return v; }
        if (auto* ce = dyn_cast<ConstantExpr>(C)) {
            if (ce->getOpcode() == Instruction::GetElementPtr) { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported("const gep"); Val b = evalConst(ce->getOperand(0)); return Val(b.c + off.getSExtValue()); }
            if (ce->isCast()) { Val v = evalConst(ce->getOperand(0)); if (v.conc() && ce->getType()->isIntegerTy()) v.c &= maskw(ce->getType()->getIntegerBitWidth()); return v; }
            if (ce->getOpcode() == Instruction::Sub) return Val(evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c);
            if (ce->getOpcode() == Instruction::Add) return Val(evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c);
        }
        string s; raw_string_ostream os(s); C->print(os); throw Unsupported("constant " + s);
    }
    uint32_t gidOf(const GlobalValue* g) { auto it = gid.find(g); if (it == gid.end()) throw Unsupported("global " + g->getName().str()); return it->second; }

    CF* compile(Function* F) {
        auto& slot = cfs[F]; if (slot) return slot.get();
        slot.reset(new CF); CF* cf = slot.get(); cf->F = F; cf->name = demangle(F->getName().str());
        std::unordered_map<const Value*, int> m; int n = 0;
        for (auto& A : F->args()) m[&A] = n++;
        for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) m[&I] = n++;
        cf->nregs = n;
        auto code = [&](const Value* v) -> int { if (auto* C = dyn_cast<Constant>(v)) return constCode(cf, m, C); auto it = m.find(v); if (it == m.end()) return 0; return it->second; };
        std::unordered_map<const BasicBlock*, int> start; int ip = 0;
        std::vector<const BasicBlock*> order;
        for (auto& B : *F) { start[&B] = ip; for (auto& I : B) if (!isa<PHINode>(I) && !isa<DbgInfoIntrinsic>(I)) ip++; }
        auto edge = [&](const BasicBlock* from, const BasicBlock* to) { Edge e; e.target = start[to]; for (auto& I : *to) { auto* phi = dyn_cast<PHINode>(&I); if (!phi) break; e.moves.push_back({m[phi], code(phi->getIncomingValueForBlock(from))}); } cf->edges.push_back(e); return (int)cf->edges.size() - 1; };
        for (auto& B : *F) for (auto& I : B) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            Op o; o.opc = I.getOpcode(); o.I = &I; o.ty = tyOf(I.getType()); if (!I.getType()->isVoidTy()) o.dst = m[&I];
            if (I.getNumOperands() > 0 && !isa<BranchInst>(I) && !isa<CallBase>(I)) { o.oty = tyOf(I.getOperand(0)->getType()); }
            switch (I.getOpcode()) {
            case Instruction::Br: { auto& b = cast<BranchInst>(I); o.e0 = edge(&B, b.getSuccessor(0)); if (b.isConditional()) { o.a = code(b.getCondition()); o.b = 1; o.e1 = b.getSuccessor(1) == b.getSuccessor(0) ? o.e0 : edge(&B, b.getSuccessor(1)); } break; }
            case Instruction::Switch: { auto& s = cast<SwitchInst>(I); o.a = code(s.getCondition()); o.e0 = edge(&B, s.getDefaultDest()); for (auto& c : s.cases()) o.cases.push_back({c.getCaseValue()->getZExtValue(), edge(&B, c.getCaseSuccessor())}); o.oty = tyOf(s.getCondition()->getType()); break; }
            case Instruction::GetElementPtr: {
                auto& g = cast<GetElementPtrInst>(I); o.a = code(g.getPointerOperand());
                for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    if (StructType* st = it.getStructTypeOrNull()) { o.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); }
                    else { int64_t sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(it.getOperand())) o.off += ci->getSExtValue() * sz; else o.scaled.push_back({code(it.getOperand()), {sz, it.getOperand()->getType()->getIntegerBitWidth()}}); }
                } break; }
            case Instruction::ICmp: case Instruction::FCmp: o.pred = cast<CmpInst>(I).getPredicate(); o.a = code(I.getOperand(0)); o.b = code(I.getOperand(1)); break;
            case Instruction::Alloca: { auto& al = cast<AllocaInst>(I); o.a = code(al.getArraySize()); o.off = DL->getTypeAllocSize(al.getAllocatedType()); break; }
            case Instruction::Store: o.a = code(I.getOperand(0)); o.b = code(I.getOperand(1)); o.oty = tyOf(I.getOperand(0)->getType()); o.pred = cast<StoreInst>(I).isAtomic(); break;
            case Instruction::Load: o.a = code(I.getOperand(0)); o.pred = cast<LoadInst>(I).isAtomic(); break;
            case Instruction::ExtractValue: o.a = code(I.getOperand(0)); for (auto i : cast<ExtractValueInst>(I).indices()) o.idx.push_back(i); break;
            case Instruction::InsertValue: o.a = code(I.getOperand(0)); o.b = code(I.getOperand(1)); for (auto i : cast<InsertValueInst>(I).indices()) o.idx.push_back(i); break;
            case Instruction::Call: case Instruction::Invoke: {
                auto& cb = cast<CallBase>(I); for (auto& A : cb.args()) { if (A->getType()->isMetadataTy()) { o.args.push_back(0); continue; } o.args.push_back(code(A)); }
                o.callee = cb.getCalledFunction(); if (!o.callee) { if (auto* al = dyn_cast<GlobalAlias>(cb.getCalledOperand())) o.callee = dyn_cast<Function>(al->getAliasee()); }
                if (!o.callee) { if (cb.isInlineAsm()) o.callee = nullptr; o.a = code(cb.getCalledOperand()); }
                if (auto* inv = dyn_cast<InvokeInst>(&I)) { o.e0 = edge(&B, inv->getNormalDest()); o.e1 = edge(&B, inv->getUnwindDest()); }
                break; }
            case Instruction::LandingPad: { auto& lp = cast<LandingPadInst>(I); for (unsigned i = 0; i < lp.getNumClauses(); i++) { o.args.push_back(lp.isCatch(i) ? code(lp.getClause(i)) : 0); o.idx.push_back(lp.isCatch(i)); } break; }
            case Instruction::AtomicRMW: o.a = code(I.getOperand(0)); o.b = code(I.getOperand(1)); o.pred = cast<AtomicRMWInst>(I).getOperation(); break;
            case Instruction::ShuffleVector: { auto& sv = cast<ShuffleVectorInst>(I); o.a = code(I.getOperand(0)); o.b = code(I.getOperand(1)); for (int x : sv.getShuffleMask()) o.args.push_back(x); break; }
            default:
                if (I.getNumOperands() > 0) o.a = code(I.getOperand(0)); if (I.getNumOperands() > 1) o.b = code(I.getOperand(1)); if (I.getNumOperands() > 2) o.c = code(I.getOperand(2));
            }
            cf->code.push_back(std::move(o));
        }
        if (auto* sp = F->getSubprogram()) { string f = (sp->getDirectory() + "/" + sp->getFilename()).str(); if (sp->getFilename().starts_with("/")) f = sp->getFilename().str(); cf->repo = f.find("/repo/source") != string::npos || f.find("/girgs/") != string::npos || f.find("/hypergirgs/") != string::npos; if (f.find("/verif/") != string::npos || f.find("/usr/") != string::npos) cf->repo = false; }
        return cf;
    }

    // ---------------------------------------------------------------- solver
    void sync(const P<PCN>& pc) {
        std::vector<PCN*> path; for (PCN* x = pc.p; x; x = x->parent.p) path.push_back(x);
        std::reverse(path.begin(), path.end());
        size_t k = 0; while (k < path.size() && k < stk.size() && path[k] == stk[k]) k++;
        if (stk.size() > k) { solver.pop(stk.size() - k); stk.resize(k); stkHold.resize(k); }
        for (; k < path.size(); k++) { solver.push(); solver.add(path[k]->e); stk.push_back(path[k]); stkHold.push_back(P<PCN>(path[k])); }
    }
    // 1 sat, 0 unsat, -1 unknown
    int query(State& s, const z3::expr& c, unsigned timeout, bool wantModel = true) {
        double t0 = now(); S.queries++; int r = -1; lastModel.reset();
        if (!s.hasFP) {
            sync(s.pc); solver.push(); solver.add(c);
            z3::params p(*gz); p.set("timeout", std::min(timeout, 2000u)); solver.set(p);
            z3::check_result cr = z3::unknown; try { cr = solver.check(); } catch (z3::exception& e) { cr = z3::unknown; }
            if (cr == z3::sat) { r = 1; if (wantModel) lastModel = std::make_shared<z3::model>(solver.get_model()); } else if (cr == z3::unsat) r = 0;
            solver.pop();
        }
        if (r < 0) r = oneShot(s, c, timeout, s.hasFP ? "QF_FPBV" : (s.hasReal && !s.hasBV ? "nlsat" : "smt"));
        if (r < 0 && s.hasReal && !s.hasFP && !s.hasBV) r = oneShot(s, c, timeout, "smt");
        double dt = now() - t0; S.solverTime += dt; if (dt > S.maxQuery) S.maxQuery = dt;
        if (r == 1) S.qsat++; else if (r == 0) S.qunsat++; else S.qunknown++;
        return r;
    }
    int oneShot(State& s, const z3::expr& c, unsigned timeout, const string& mode) {
        try {
            z3::solver so = mode == "nlsat" ? z3::tactic(*gz, "qfnra-nlsat").mk_solver() : mode == "smt" ? z3::solver(*gz, z3::solver::simple()) : z3::solver(*gz, mode.c_str());
            z3::params p(*gz); p.set("timeout", timeout); so.set(p);
            for (PCN* x = s.pc.p; x; x = x->parent.p) so.add(x->e);
            so.add(c);
            auto cr = so.check();
            if (cr == z3::sat) { lastModel = std::make_shared<z3::model>(so.get_model()); return 1; }
            if (cr == z3::unsat) return 0;
        } catch (z3::exception& e) {}
        return -1;
    }
    void add(State& s, const z3::expr& c) { s.pc = P<PCN>(new PCN(s.pc, c)); }
    // counterexample-guided refinement of the libm abstraction: where the model gives a function application a value
    // that the real function does not have there, add a true lemma around that point and ask again
    double modelNum(z3::model& m, const z3::expr& e) { z3::expr x = m.eval(e, true); string d = Z3_get_numeral_decimal_string(*gz, x, 30); return strtod(d.c_str(), nullptr); }
    void pointLemma(State& s, const UF& u, double a, double ex);
    double ufTrue(int fn, double a, double ex);
    int refine(State& s, const z3::expr& c, unsigned timeout) {
        for (int it = 0; it < 60; it++) {
            if (!lastModel) return -1;
            std::shared_ptr<z3::model> m = lastModel; bool bad = false; std::vector<UF> us;
            for (auto& u : s.ufs) if (u.res.isSym()) us.push_back(u);
            if (us.empty()) return 1;
            for (auto& u : us) { try {
                double a = modelNum(*m, toReal(u.a[0])), ex = u.fn == F_POW_ID ? modelNum(*m, toReal(u.a[1])) : 0; if (u.fn == F_POW_ID && !u.a[1].conc()) continue;
                double t = ufTrue(u.fn, a, ex), y = modelNum(*m, toReal(u.res)); if (!std::isfinite(t) || !std::isfinite(a)) continue;
                if (std::fabs(y - t) > 1e-10 * std::fabs(t) + 1e-13) { pointLemma(s, u, a, ex); bad = true; S.refinements++; }
            } catch (z3::exception&) {} }
            if (!bad) return 1;
            s.model.reset(); int r = query(s, c, timeout); if (r != 1) return r;
        }
        return 1; // the model may still be off: the native replay decides
    }
    int evalModel(State& s, const z3::expr& c) { // 1 true 0 false -1 don't know
        if (!s.model) return -1;
        try { z3::expr r = s.model->eval(c, true); if (r.is_true()) return 1; if (r.is_false()) return 0; } catch (z3::exception&) {}
        return -1;
    }
    void pin(State& s, const z3::expr& c, uint64_t v) { pins.push_back(c); s.conc[c.id()] = v; }
    unsigned branchTimeout() { return std::min(g_qTimeout, 10000u); }
    // decide a boolean: forks (clone gets the negation and re-executes the current instruction) when both are possible
    bool decide(State& s, const z3::expr& c0) {
        z3::expr c = c0; if (c.is_true()) return true; if (c.is_false()) return false;
        if (c.is_not()) return !decide(s, c.arg(0));
        auto it = s.conc.find(c.id()); if (it != s.conc.end()) return it->second;
        static const bool refbr = param("refbr", 0) != 0; // settle the libm abstraction at every branch
        if (refbr && s.hasReal && !s.ufs.empty()) {
            int t = query(s, c, branchTimeout()); if (t == 1) t = refine(s, c, branchTimeout()); std::shared_ptr<z3::model> tm = t == 1 ? lastModel : nullptr; if (t == 0) { pin(s, c, 0); return false; }
            int f = query(s, !c, branchTimeout()); if (f == 1) f = refine(s, !c, branchTimeout()); std::shared_ptr<z3::model> fm = f == 1 ? lastModel : nullptr; if (f == 0) { pin(s, c, 1); s.model = tm; return true; }
            S.forks++; pins.push_back(c); work.push_back(s); State& o = work.back(); add(o, !c); o.conc[c.id()] = 0; o.model = fm; if (f < 0) o.unsureFeasible = true;
            add(s, c); s.conc[c.id()] = 1; s.model = tm; if (t < 0) s.unsureFeasible = true; return true;
        }
        int mv = evalModel(s, c); int t = -1, f = -1; std::shared_ptr<z3::model> tm, fm;
        if (mv == 1) { t = 1; tm = s.model; S.modelHits++; } else if (mv == 0) { f = 1; fm = s.model; S.modelHits++; }
        if (t != 1) { t = query(s, c, branchTimeout()); if (t == 1) tm = lastModel; }
        if (t == 0) { pin(s, c, 0); return false; }
        if (f != 1) { f = query(s, !c, branchTimeout()); if (f == 1) fm = lastModel; }
        if (f == 0) { pin(s, c, 1); if (!s.model) s.model = tm; return true; }
        // both (or unknown)
        S.forks++;
        pins.push_back(c);
        work.push_back(s); State& o = work.back(); add(o, !c); o.conc[c.id()] = 0; o.model = fm; if (f < 0) o.unsureFeasible = true;
        add(s, c); s.conc[c.id()] = 1; s.model = tm; if (t < 0) s.unsureFeasible = true;
        return true;
    }
    uint64_t concretize(State& s, const Val& v, unsigned w) {
        if (v.conc()) return v.c;
        if (v.undef()) { violation(s, "use of an uninitialised value", "memory"); return 0; }
        if (v.isSym() && v.sym()->k == K_BOOL) return decide(s, v.sym()->e);
        if (v.isSym() && v.sym()->k == K_REAL) throw Unsupported("concretize real");
        z3::expr e = toBV(v, w);
        auto it = s.conc.find(e.id()); if (it != s.conc.end()) return it->second;
        uint64_t val = 0; bool have = false;
        if (s.model) { z3::expr r = s.model->eval(e, true); if (r.is_numeral_u64(val)) have = true; }
        if (!have) { int r = query(s, gz->bool_val(true), branchTimeout()); if (r != 1) throw Unsupported("concretize: solver unknown"); s.model = lastModel; z3::expr x = s.model->eval(e, true); if (!x.is_numeral_u64(val)) throw Unsupported("concretize: no value"); }
        z3::expr eq = (e == gz->bv_val(val, w)); pins.push_back(e);
        int r = query(s, !eq, branchTimeout());
        if (r != 0) { S.forks++; work.push_back(s); State& o = work.back(); add(o, !eq); o.model = r == 1 ? lastModel : nullptr; if (r < 0) o.unsureFeasible = true; add(s, eq); }
        s.conc[e.id()] = val; return val;
    }

    // ---------------------------------------------------------------- violations
    string modelStr(z3::model& m, const Input& in) {
        if (in.v.conc()) { char b[64]; if (in.kind == K_REAL || in.kind == K_FP) snprintf(b, 64, "%a", asD(in.v.c)); else snprintf(b, 64, "%llu", (unsigned long long)in.v.c); return b; }
        z3::expr r = m.eval(in.v.sym()->e, true); char b[64];
        if (in.kind == K_REAL) {
            string s; if (r.is_algebraic() && !r.is_numeral()) s = Z3_get_numeral_decimal_string(*gz, r, 60); else s = Z3_get_numeral_decimal_string(*gz, r, 60);
            snprintf(b, 64, "%a", strtod(s.c_str(), nullptr)); return b; }
        if (in.kind == K_FP) { z3::expr bv = z3::to_expr(*gz, Z3_mk_fpa_to_ieee_bv(*gz, r)).simplify(); uint64_t u = 0; if (!bv.is_numeral_u64(u)) { bool nan = true; if (nan) return "nan"; } snprintf(b, 64, "%a", asD(u)); if (std::isnan(asD(u))) return "nan"; return b; }
        if (in.kind == K_BOOL) return r.is_true() ? "1" : "0";
        uint64_t u = 0; r.is_numeral_u64(u); snprintf(b, 64, "%llu", (unsigned long long)u); return b;
    }
    string where(State& s) {
        string r; auto& t = s.th[s.cur]; int n = 0;
        for (auto it = t.st.rbegin(); it != t.st.rend() && n < 6; ++it, ++n) {
            auto& f = *it; string loc; if (f.ip < (int)f.f->code.size()) if (auto& dl = f.f->code[f.ip].I->getDebugLoc()) { auto fn = dl->getFilename().str(); auto sl = fn.rfind('/'); loc = " (" + (sl == string::npos ? fn : fn.substr(sl + 1)) + ":" + std::to_string(dl.getLine()) + ")"; }
            string nm = f.f->name; if (nm.size() > 90) nm = nm.substr(0, 87) + "..."; r += (n ? " <- " : "") + nm + loc;
        }
        return r;
    }
    // a stronger condition that keeps real comparisons away from equality by k times the size of the compared values, so that
    // the witness survives rounding and the tolerance of the libm lemmas
    z3::expr robust(const z3::expr& e, bool pos, double k, z3::model& m) {
        if (!e.is_app()) return pos ? e : !e;
        auto d = e.decl().decl_kind();
        if (d == Z3_OP_NOT) return robust(e.arg(0), !pos, k, m);
        if (d == Z3_OP_AND || d == Z3_OP_OR) { z3::expr_vector v(*gz); for (unsigned i = 0; i < e.num_args(); i++) v.push_back(robust(e.arg(i), pos, k, m)); return (d == Z3_OP_AND) == pos ? z3::mk_and(v) : z3::mk_or(v); }
        if ((d == Z3_OP_LE || d == Z3_OP_LT || d == Z3_OP_GE || d == Z3_OP_GT) && e.arg(0).is_real()) {
            z3::expr a = e.arg(0), b = e.arg(1); if (d == Z3_OP_GE || d == Z3_OP_GT) std::swap(a, b); if (!pos) std::swap(a, b);   // a below b
            double x = modelNum(m, a), y = modelNum(m, b); double w = k * std::min(std::max(std::fabs(x), std::fabs(y)), 1e6); return a + realConst(w) <= b;
        }
        return pos ? e : !e;
    }
    void violation(State& s, const string& label, const string& kind, const z3::expr* cond = nullptr) {
        // find a model of pc && cond; prefer one on the declared dyadic grid
        z3::expr c = cond ? *cond : gz->bool_val(true);
        if (g_violCount[label] >= 4) { s.done = true; s.end = "violation"; S.pathsViol++; return; }
        z3::expr g = c; bool anyGrid = false;
        for (auto& in : s.inputs) if (in.kind == K_REAL && in.v.isSym() && in.lsb > 0) { z3::expr x = in.v.sym()->e * realConst(std::ldexp(1.0, in.lsb)); g = g && z3::is_int(x); anyGrid = true; }
        int r = -1; if (anyGrid) r = oneShot(s, g, 5000, "smt");
        if (r == 1) r = refine(s, g, 5000);
        if (r != 1) { r = query(s, c, g_qTimeout); if (r == 1) r = refine(s, c, g_qTimeout); }
        if (r == 0) { // path infeasible after all
            s.done = true; s.end = "assume"; S.pathsAssume++; return; }
        s.done = true; s.end = "violation"; S.pathsViol++; g_violCount[label]++;
        if (r < 0) { S.inconclusive++; S.unknownLabels[label]++; return; }
        Viol v; v.label = label; v.kind = kind; v.where = where(s); v.notes = s.notes;
        std::shared_ptr<z3::model> m = lastModel;
        auto put = [&] { v.inputs.clear(); for (auto& in : s.inputs) v.inputs.push_back({in.name, modelStr(*m, in)});
            if (!s.trace.empty()) { string t; for (auto& x : s.trace) t += x + ";"; v.inputs.push_back({"__sched", t}); }
            g_viols.push_back(v); };
        if (cond && s.hasReal && !s.hasFP) { // witnesses away from the boundary first
            std::shared_ptr<z3::model> m0 = m; int got = 0;
            for (double k : {100.0, 1.0, 0.1, 0.003}) {
                try { z3::expr rc = robust(c, true, k, *m0); if (z3::eq(rc, c)) break;
                    if (anyGrid) { z3::expr q = rc; for (auto& in : s.inputs) if (in.kind == K_REAL && in.v.isSym() && in.lsb > 0) q = q && z3::is_int(in.v.sym()->e * realConst(std::ldexp(1.0, in.lsb)));
                        int z = oneShot(s, q, 4000, "smt"); if (z == 1) z = refine(s, q, 4000); if (z == 1) { m = lastModel; put(); if (++got == 2) break; continue; } }
                    int z = query(s, rc, 4000); if (z == 1) z = refine(s, rc, 4000); if (z == 1) { m = lastModel; put(); if (++got == 2) break; }
                } catch (z3::exception&) { break; }
            }
            m = m0;
        }
        put();
        if (g_verbose) fprintf(stderr, "VIOL %s at %s\n", label.c_str(), v.where.c_str());
    }

    // ---------------------------------------------------------------- memory
    uint32_t alloc(State& s, uint64_t size, uint8_t kind, bool init = false) {
        if (size > (1ull << 30)) throw Unsupported("allocation of more than 1 GB");
        auto* o = new MemObj; o->size = size; o->kind = kind; o->data.assign(size, 0); if (!init) o->init.assign(size, 0);
        s.mem.push_back(P<MemObj>(o)); return s.mem.size() - 1;
    }
    MemObj* acc(State& s, uint64_t p, uint64_t size, bool write, bool atomic = false) { // returns nullptr if a violation was reported
        S.memChecks++;
        uint32_t id = ptrid(p); int64_t off = ptroff(p);
        if (id == 0) { violation(s, "null pointer dereference", "memory"); return nullptr; }
        if (id >= s.mem.size()) { violation(s, "wild pointer dereference", "memory"); return nullptr; }
        MemObj* o = s.mem[id].p;
        if (!o || o->kind == 5) { violation(s, "wild pointer dereference", "memory"); return nullptr; }
        if (!o->alive) { violation(s, o->kind == 1 ? "use after scope" : "use after free", "memory"); return nullptr; }
        if (off < 0 || off + (int64_t)size > (int64_t)o->size) { violation(s, write ? "out-of-bounds write" : "out-of-bounds read", "memory"); return nullptr; }
        if (s.team.active && s.team.n > 1 && s.race) { if (!raceCheck(s, p, size, write, atomic)) return nullptr; }
        if (write) {
            if (o->kind == 3) { violation(s, "write to constant memory", "memory"); return nullptr; }
            if (o->rc > 1) { auto* c = new MemObj(*o); c->rc = 0; s.mem[id] = P<MemObj>(c); o = c; }
        }
        return o;
    }
    bool raceCheck(State& s, uint64_t p, uint64_t size, bool write, bool atomic) {
        S.raceChecks++;
        if (!s.shadow) s.shadow = std::make_shared<Shadow>(); else if (s.shadow.use_count() > 1) s.shadow = std::make_shared<Shadow>(*s.shadow);
        Thread& t = s.th[s.cur]; int tid = s.cur; uint32_t clk = t.vc[tid];
        for (uint64_t a = p & ~3ull; a < p + size; a += 4) {
            uint8_t m = 0; for (int b = 0; b < 4; b++) if (a + b >= p && a + b < p + size) m |= 1 << b;
            Sh& h = (*s.shadow)[a];
            if (atomic) continue; // atomics never race with each other; mixed accesses are caught from the plain side
            if ((h.wmask & m) && h.wtid != tid && h.wclk > (h.wtid < t.vc.size() ? t.vc[h.wtid] : 0)) { violation(s, write ? "data race (write/write)" : "data race (write/read)", "race"); return false; }
            if (write) {
                for (auto& r : h.rd) if (r.tid != tid && (r.mask & m) && r.clk > (r.tid < t.vc.size() ? t.vc[r.tid] : 0)) { violation(s, "data race (read/write)", "race"); return false; }
                if (h.wmask && (h.wtid != tid || h.wclk != clk)) h.wmask = 0;
                h.wmask |= m; h.wtid = tid; h.wclk = clk; h.rd.clear();
            } else {
                bool f = false; for (auto& r : h.rd) if (r.tid == tid) { if (r.clk == clk) r.mask |= m; else { r.mask = m; r.clk = clk; } f = true; }
                if (!f) h.rd.push_back({(uint8_t)tid, m, clk});
            }
        }
        return true;
    }
    static void splitCells(MemObj* o, uint32_t off, uint32_t size, bool erase) {
        if (o->sym.empty()) return;
        auto it = o->sym.upper_bound(off); if (it != o->sym.begin()) --it;
        while (it != o->sym.end() && it->first < off + size) {
            uint32_t b = it->first, e = b + it->second.size;
            if (e <= off) { ++it; continue; }
            if (b >= off && e <= off + size) { if (erase) it = o->sym.erase(it); else ++it; continue; }
            // partial overlap: explode into bytes
            Val v = it->second.v; unsigned w = it->second.size * 8; it = o->sym.erase(it);
            z3::expr x = toBV(v, w);
            for (uint32_t k = 0; k < w / 8; k++) if (!(erase && b + k >= off && b + k < off + size)) { Val bv = mkBV(x.extract(8 * k + 7, 8 * k), 8); if (bv.conc()) o->data[b + k] = bv.c; else o->sym[b + k] = Cell{1, bv}; }
            it = o->sym.upper_bound(off); if (it != o->sym.begin()) --it;
        }
    }
    Val loadRaw(MemObj* o, uint32_t off, const Ty& ty) {
        unsigned sz = ty.size;
        if (!o->sym.empty()) {
            auto it = o->sym.find(off);
            if (it != o->sym.end() && it->second.size == sz) {
                Val v = it->second.v;
                if (v.isSym()) { Sym* y = v.sym();
                    if (ty.k == TV_FLT ? y->k == K_BV : sz == 4 && (y->k == K_FP || y->k == K_REAL)) throw Unsupported("bits of a symbolic float");
                    if (ty.k == TV_DBL && y->k == K_BV) return Val(new Sym(K_FP, 64, toFP(v)));
                    if (ty.k == TV_INT && y->k == K_FP) return mkBV(toBV(v, 64), 64);
                    if (ty.k == TV_INT && y->k == K_BV && ty.bits != y->w) return mkBV(y->e.extract(ty.bits - 1, 0), ty.bits);
                }
                return v;
            }
            auto lo = o->sym.upper_bound(off); if (lo != o->sym.begin()) --lo; bool ov = false;
            for (; lo != o->sym.end() && lo->first < off + sz; ++lo) if (lo->first + lo->second.size > off) ov = true;
            if (ov) {
                if (sz > 8) throw Unsupported("wide load over symbolic bytes");
                z3::expr r(*gz); bool first = true;
                for (unsigned k = 0; k < sz; k++) {
                    z3::expr b = gz->bv_val((unsigned)o->data[off + k], 8);
                    auto it2 = o->sym.upper_bound(off + k); if (it2 != o->sym.begin()) { --it2; if (it2->first + it2->second.size > off + k) { unsigned d = off + k - it2->first; b = toBV(it2->second.v, it2->second.size * 8).extract(8 * d + 7, 8 * d); } }
                    r = first ? b : z3::concat(b, r); first = false;
                }
                Val v = mkBV(r, sz * 8);
                if (v.isSym() && ty.k == TV_DBL) return Val(new Sym(K_FP, 64, toFP(v)));
                if (v.isSym() && ty.k == TV_INT && ty.bits != sz * 8) return mkBV(v.sym()->e.extract(ty.bits - 1, 0), ty.bits);
                return v;
            }
        }
        if (!o->init.empty()) { bool any = false; for (unsigned k = 0; k < sz; k++) if (o->init[off + k]) { any = true; break; } if (!any) { if (ty.k == TV_X80 || sz > 8) throw Unsupported("uninitialised wide load"); return undefVal(); } }
        if (ty.k == TV_X80 || (ty.k == TV_INT && ty.bits > 64)) { auto* b = new Big; memcpy(b->b, &o->data[off], sz); Val v; v.p = P<RC>(b); return v; }
        uint64_t r = 0; memcpy(&r, &o->data[off], sz); if (ty.k == TV_INT) r &= maskw(ty.bits); return Val(r);
    }
    void storeRaw(MemObj* o, uint32_t off, const Ty& ty, const Val& v) {
        unsigned sz = ty.size;
        splitCells(o, off, sz, true);
        if (v.conc()) { memcpy(&o->data[off], &v.c, sz); if (!o->init.empty()) memset(&o->init[off], 1, sz); return; }
        if (v.p->tag == T_BIG) { memcpy(&o->data[off], static_cast<Big*>(v.p.p)->b, sz); if (!o->init.empty()) memset(&o->init[off], 1, sz); return; }
        if (v.undef()) { if (!o->init.empty()) memset(&o->init[off], 0, sz); else memset(&o->data[off], 0, sz); return; }
        Val w = v; if (v.sym()->k == K_BOOL || (v.sym()->k == K_BV && v.sym()->w != sz * 8)) { z3::expr e = v.sym()->k == K_BOOL ? toBV(v, sz * 8) : z3::zext(v.sym()->e, sz * 8 - v.sym()->w); w = mkBV(e, sz * 8); if (w.conc()) { storeRaw(o, off, ty, w); return; } }
        o->sym[off] = Cell{sz, w}; if (!o->init.empty()) memset(&o->init[off], 1, sz);
    }
    Val loadT(MemObj* o, uint32_t off, Type* t) {
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
            auto* a = new Agg; Val v; v.p = P<RC>(a);
            if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) a->v.push_back(loadT(o, off + (uint32_t)sl->getElementOffset(i), st->getElementType(i))); }
            else { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); unsigned es = DL->getTypeAllocSize(et); for (unsigned i = 0; i < n; i++) a->v.push_back(loadT(o, off + i * es, et)); }
            return v;
        }
        return loadRaw(o, off, tyOf(t));
    }
    void storeT(MemObj* o, uint32_t off, Type* t, const Val& v) {
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
            auto* a = static_cast<Agg*>(v.p.p);
            if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeT(o, off + (uint32_t)sl->getElementOffset(i), st->getElementType(i), a->v[i]); }
            else { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); unsigned es = DL->getTypeAllocSize(et); for (unsigned i = 0; i < a->v.size(); i++) storeT(o, off + i * es, et, a->v[i]); }
            return;
        }
        storeRaw(o, off, tyOf(t), v);
    }
    bool memCopy(State& s, uint64_t d, uint64_t sp, uint64_t n) {
        if (n == 0) return true;
        MemObj* so = acc(s, sp, n, false); if (!so) return false;
        P<MemObj> hold(so);
        MemObj* dob = acc(s, d, n, true); if (!dob) return false;
        so = hold.p; uint32_t so_ = ptroff(sp), do_ = ptroff(d);
        std::vector<uint8_t> tmp(so->data.begin() + so_, so->data.begin() + so_ + n), ti;
        if (!so->init.empty()) ti.assign(so->init.begin() + so_, so->init.begin() + so_ + n);
        std::vector<std::pair<uint32_t, Cell>> cells;
        if (!so->sym.empty()) {
            auto it = so->sym.upper_bound(so_); if (it != so->sym.begin()) --it;
            for (; it != so->sym.end() && it->first < so_ + n; ++it) {
                uint32_t b = it->first, e = b + it->second.size; if (e <= so_) continue;
                if (b >= so_ && e <= so_ + n) cells.push_back({b - so_, it->second});
                else { z3::expr x = toBV(it->second.v, it->second.size * 8); for (uint32_t k = 0; k < it->second.size; k++) if (b + k >= so_ && b + k < so_ + n) cells.push_back({b + k - so_, Cell{1, mkBV(x.extract(8 * k + 7, 8 * k), 8)}}); }
            }
        }
        splitCells(dob, do_, n, true);
        memcpy(&dob->data[do_], tmp.data(), n);
        if (!dob->init.empty()) { if (ti.empty()) memset(&dob->init[do_], 1, n); else memcpy(&dob->init[do_], ti.data(), n); }
        for (auto& c : cells) dob->sym[do_ + c.first] = c.second;
        return true;
    }
    bool memSet(State& s, uint64_t d, const Val& v, uint64_t n) {
        if (n == 0) return true; MemObj* o = acc(s, d, n, true); if (!o) return false; uint32_t off = ptroff(d);
        splitCells(o, off, n, true); if (v.conc()) memset(&o->data[off], (int)(v.c & 255), n); else if (v.undef()) {} else for (uint64_t i = 0; i < n; i++) o->sym[off + i] = Cell{1, v};
        if (!o->init.empty()) memset(&o->init[off], v.undef() ? 0 : 1, n); return true;
    }
    void freeObj(State& s, uint32_t id) { MemObj* o = s.mem[id].p; auto* c = new MemObj; c->size = o->size; c->alive = false; c->kind = o->kind; s.mem[id] = P<MemObj>(c); }
    string readStr(State& s, uint64_t p) {
        string r; for (;; p++) { MemObj* o = acc(s, p, 1, false); if (!o) return r; Ty t; t.k = TV_INT; t.bits = 8; t.size = 1; Val v = loadRaw(o, ptroff(p), t); if (!v.conc()) throw Unsupported("symbolic string"); if (!v.c) return r; r += (char)v.c; if (r.size() > 100000) throw Unsupported("long string"); }
    }

    // ---------------------------------------------------------------- frames / control
    Val& reg(Frame& f, int c) { return c >= 0 ? f.regs[c] : f.f->consts[~c]; }
    void jump(Frame& f, int e) {
        Edge& ed = f.f->edges[e];
        if (!ed.moves.empty()) {
            if (ed.moves.size() == 1) { Val t = reg(f, ed.moves[0].second); f.regs[ed.moves[0].first] = std::move(t); }
            else { static std::vector<Val> tmp; tmp.clear(); for (auto& m : ed.moves) tmp.push_back(reg(f, m.second)); for (size_t i = 0; i < ed.moves.size(); i++) f.regs[ed.moves[i].first] = std::move(tmp[i]); }
        }
        f.ip = ed.target;
    }
    void pushFrame(State& s, Thread& t, Function* F, std::vector<Val> args, FK kind = FK_NORMAL) {
        CF* cf = compile(F); if (t.st.size() > 2000) throw Unsupported("stack overflow (recursion deeper than 2000)");
        Frame f; f.f = cf; f.regs.resize(cf->nregs); for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) f.regs[i] = std::move(args[i]); f.kind = kind;
        t.st.push_back(std::move(f));
        if (cf->repo) S.funcs.insert(cf->name);
    }
    void advance(Frame& f, Op& o) { if (o.opc == Instruction::Invoke) jump(f, o.e0); else f.ip++; }
    void popFrame(State& s, Thread& t) { for (auto a : t.st.back().allocas) freeObj(s, a); t.st.pop_back(); }

    void doReturn(State& s, const Val& rv) {
        Thread& t = s.th[s.cur]; FK k = t.st.back().kind; popFrame(s, t);
        if (k == FK_MICRO) { t.status = TS_JOIN; joinCheck(s); schedule(s); return; }
        if (k == FK_STOPCALL) { endPath(s, "exit"); return; }
        if (t.st.empty()) { if (s.cur == 0) endPath(s, "ok"); else { t.status = TS_DONE; schedule(s); } return; }
        Frame& f = t.st.back(); Op& o = f.f->code[f.ip]; if (o.dst >= 0) f.regs[o.dst] = rv; advance(f, o);
    }
    void endPath(State& s, const string& why) { s.done = true; s.end = why; if (why == "ok") S.pathsOk++; else if (why == "exit") S.pathsExit++;
        uint64_t k = S.pathsOk + S.pathsExit; if (g_samples.size() < 12 && (k & (k - 1)) == 0 && !s.unsureFeasible) { // remember a concrete input for this path (translator validation)
            try { z3::expr g = gz->bool_val(true); for (auto& in : s.inputs) if (in.kind == K_REAL && in.v.isSym() && in.lsb > 0) g = g && z3::is_int(in.v.sym()->e * realConst(std::ldexp(1.0, in.lsb)));
                int r = oneShot(s, g, 3000, "smt"); if (r != 1) r = query(s, gz->bool_val(true), 3000); if (r == 1) r = refine(s, gz->bool_val(true), 3000);
                if (r == 1) { std::vector<std::pair<string, string>> v; for (auto& in : s.inputs) v.push_back({in.name, modelStr(*lastModel, in)}); if (!s.trace.empty()) v.push_back({"__sched", "1"}); g_samples.push_back(v); } } catch (z3::exception&) {} }
    }
    // exceptions
    string tiName(uint64_t p) { for (auto& kv : gid) if (kv.second == ptrid(p)) return kv.first->getName().str(); return ""; }
    bool tiMatch(State& s, uint64_t thrown, uint64_t want) {
        if (want == 0) return true; uint64_t x = thrown; int n = 0;
        static const std::map<string, string> stdBase = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
            {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
        while (x && n++ < 10) { if (x == want) return true;
            { string nm = tiName(x), wn = tiName(want); for (int k = 0; k < 6; k++) { auto it = stdBase.find(nm); if (it == stdBase.end()) break; nm = it->second; if (nm == wn) return true; } }
            MemObj* o = s.mem[ptrid(x)].p; if (!o || o->size < 24) return false; uint64_t b; memcpy(&b, &o->data[16], 8); x = b; if (x && (ptrid(x) >= s.mem.size() || !s.mem[ptrid(x)])) return false; }
        return false;
    }
    void unwind(State& s) {
        Thread& t = s.th[s.cur];
        while (!t.st.empty()) {
            Frame& f = t.st.back(); Op& o = f.f->code[f.ip];
            if (o.opc == Instruction::Invoke) { jump(f, o.e1); Op& lp = f.f->code[f.ip]; if (lp.opc == Instruction::LandingPad) { auto& L = cast<LandingPadInst>(*lp.I); bool m = L.isCleanup(); for (size_t i = 0; i < lp.args.size(); i++) if (lp.idx[i]) { if (tiMatch(s, t.excTI, reg(f, lp.args[i]).c)) m = true; } else m = true; if (m) return; /* else continue unwinding */ } }
            if (f.kind != FK_NORMAL) { violation(s, "exception escapes a parallel region or handler", "exception"); return; }
            if (t.st.size() == 1) { // keep the frame so that the location can be reported
                violation(s, "uncaught exception", "exception"); return; }
            popFrame(s, t);
        }
        violation(s, "uncaught exception", "exception");
    }
    // ---------------------------------------------------------------- threads
    static void vcJoin(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
    void tick(State& s, int t) { auto& vc = s.th[t].vc; if ((int)vc.size() <= t) vc.resize(t + 1, 0); vc[t]++; }
    bool runnable(State& s, int i) {
        Thread& t = s.th[i];
        if (t.status == TS_RUN) return !t.st.empty();
        if (t.status == TS_MUTEX) return !s.mutexOwner.count(t.wait);
        return false;
    }
    void schedule(State& s) { // current thread cannot continue: choose another
        if (s.done) return;
        std::vector<int> r; for (int i = 0; i < (int)s.th.size(); i++) if (runnable(s, i)) r.push_back(i);
        if (r.empty()) { violation(s, "deadlock: no thread can make progress", "deadlock"); return; }
        int pick = s.sched == 1 ? r.back() : r.front();
        if (exploring(s) && r.size() > 1) {
            pick = r.front();
            for (size_t k = 1; k < r.size(); k++) { S.schedForks++; work.push_back(s); State& o = work.back(); switchTo(o, r[k]); }
        }
        switchTo(s, pick);
    }
    void switchTo(State& s, int i) { if (s.sched == 2 && s.trace.size() < 400) s.trace.push_back(std::to_string(i)); s.cur = i; Thread& t = s.th[i]; if (t.status == TS_MUTEX) t.status = TS_RUN; /* retries the lock */ }
    // visible operation: possibly preempt. returns false if another thread was scheduled in this state
    // can the threads of a region interact other than at barriers? (regions that cannot are run in one order: C18 decides that they are free of races)
    std::map<Function*, int> syncMemo; bool regionSyncs = true;
    bool syncFn(Function* F0) {
        auto it = syncMemo.find(F0); if (it != syncMemo.end()) return it->second; syncMemo[F0] = 0; std::set<Function*> seen; std::vector<Function*> st{F0}; bool r = false;
        while (!st.empty() && !r) { Function* F = st.back(); st.pop_back(); if (!F || !seen.insert(F).second) continue;
            string nm = F->getName().str(); if (F->isDeclaration()) { if (nm.find("pthread_") != string::npos || nm.find("critical") != string::npos || nm.find("kmpc_dispatch_next") != string::npos || nm.find("condition_variable") != string::npos || nm.find("kmpc_single") != string::npos || nm.find("kmpc_ordered") != string::npos || nm.find("_lock") != string::npos) r = true; continue; }
            for (auto& B : *F) for (auto& I : B) { if (auto* L = dyn_cast<LoadInst>(&I)) { if (L->isAtomic()) r = true; } else if (auto* W = dyn_cast<StoreInst>(&I)) { if (W->isAtomic()) r = true; } else if (isa<AtomicCmpXchgInst>(&I)) r = true; else if (auto* X = dyn_cast<AtomicRMWInst>(&I)) { if (!X->use_empty()) r = true; }
                for (auto& U : I.operands()) if (auto* G = dyn_cast<Function>(U.get()->stripPointerCasts())) st.push_back(G); } }
        syncMemo[F0] = r; return r;
    }
    bool exploring(State& s) { return s.sched == 2 && s.team.active && s.team.n >= 2 && s.team.syncs; }
    void visible(State& s) {
        if (!exploring(s)) return;
        Thread& t = s.th[s.cur]; if (t.passed) { t.passed = false; return; }
        S.schedPts++;
        if (s.preempt >= s.preemptBound) return;
        for (int i = 0; i < (int)s.th.size(); i++) if (i != s.cur && runnable(s, i)) { S.schedForks++; work.push_back(s); State& o = work.back(); o.th[s.cur].passed = true; o.preempt++; switchTo(o, i); }
    }
    void joinCheck(State& s) {
        for (int i : s.team.th) if (s.th[i].status != TS_JOIN) return;
        // all threads of the team have finished: merge clocks, continue the master
        VC m; for (int i : s.team.th) vcJoin(m, s.th[i].vc);
        int master = s.team.th[0];
        for (int i : s.team.th) if (i != master) { s.th[i].status = TS_DONE; s.th[i].st.clear(); }
        s.th[master].vc = m; tick(s, master); s.th[master].status = TS_RUN; s.th[master].inTeam = false; s.th[master].otid = 0;
        while (s.th.size() > (size_t)master + 1 && s.th.back().status == TS_DONE) s.th.pop_back();
        s.team = Team(); s.shadow.reset(); s.cur = master; s.syncVC.clear();
        Frame& f = s.th[master].st.back(); advance(f, f.f->code[f.ip]); // past fork_call
    }
    void barrierArrive(State& s) { // current thread arrives; advance past the barrier is done by the caller
        s.th[s.cur].status = TS_BARRIER;
        for (int i : s.team.th) if (s.th[i].status != TS_BARRIER) { schedule(s); return; }
        VC m; for (int i : s.team.th) vcJoin(m, s.th[i].vc);
        for (int i : s.team.th) { s.th[i].vc = m; tick(s, i); s.th[i].status = TS_RUN; }
        schedule(s);
    }
    void startTeam(State& s, Function* micro, std::vector<Val> args, int n) {
        int me = s.cur; s.team = Team(); s.team.active = true; s.team.n = n; s.team.syncs = s.sched == 2 && n > 1 ? syncFn(micro) : true; s.shadow.reset();
        tick(s, me);
        for (int i = 0; i < n; i++) {
            int id = me; if (i) { s.th.emplace_back(); id = s.th.size() - 1; s.th[id].vc = s.th[me].vc; }
            s.team.th.push_back(id); s.th[id].otid = i; s.th[id].inTeam = true; s.th[id].singles = 0; s.th[id].status = TS_RUN; s.th[id].dispatch = -1;
        }
        for (int i = 0; i < n; i++) tick(s, s.team.th[i]);
        for (int i = 0; i < n; i++) {
            std::vector<Val> a; for (int k = 0; k < 2; k++) { uint32_t o = alloc(s, 4, 2, true); uint32_t v = k ? 0 : i; memcpy(s.mem[o]->data.data(), &v, 4); a.push_back(Val(mkptr(o))); }
            for (auto& x : args) a.push_back(x);
            pushFrame(s, s.th[s.team.th[i]], micro, a, FK_MICRO);
        }
        if (s.sched == 1) { switchTo(s, s.team.th.back()); }
    }

#include "ops.inc"

    // ---------------------------------------------------------------- main loop
    void initGlobals(State& s) {
        s.mem.emplace_back(); // id 0 = null
        std::vector<GlobalVariable*> gvs;
        for (auto& G : M.globals()) { gvs.push_back(&G); uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 8; if (!G.hasInitializer()) sz = std::max<uint64_t>(sz, 1024); uint32_t id = alloc(s, sz, G.hasInitializer() && G.isConstant() ? 3 : 2, true); gid[&G] = id; }
        for (auto& F : M) { auto* o = new MemObj; o->kind = 5; s.mem.push_back(P<MemObj>(o)); gid[&F] = s.mem.size() - 1; fnById.resize(s.mem.size(), nullptr); fnById[s.mem.size() - 1] = &F; }
        for (auto* G : gvs) if (G->hasInitializer()) { MemObj* o = s.mem[gid[G]].p; initG(o, 0, G->getInitializer()); }
    }
    void initG(MemObj* o, uint32_t off, const Constant* C) {
        Type* t = C->getType();
        if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
        if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initG(o, off + (uint32_t)sl->getElementOffset(i), C->getAggregateElement(i)); return; }
        if (t->isArrayTy() || t->isVectorTy()) { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); unsigned es = DL->getTypeAllocSize(et); for (unsigned i = 0; i < n; i++) initG(o, off + i * es, C->getAggregateElement(i)); return; }
        try { Val v = evalConst(C); if (!v.undef()) storeRaw(o, off, tyOf(t), v); } catch (Unsupported&) {}
    }
    void runState(State& s) {
        while (!s.done) {
            try {
                Thread& t = s.th[s.cur]; Frame& f = t.st.back(); Op& o = f.f->code[f.ip];
                s.instrs++; S.instrs++;
                step(s, t, f, o);
                if ((S.instrs & 0xffff) == 0) { if (now() > g_timeLimit) { timedOut = true; return; } }
                if (s.termLimit && s.instrs > s.termLimit) { violation(s, s.termLabel, "nontermination"); }
                else if (s.instrs > g_maxInstr) { S.pathsLimit++; s.done = true; s.end = "limit"; }
            } catch (Unsupported& u) { S.pathsUnsup++; S.unsup[string(u.what()) + " @ " + where(s)]++; s.done = true; s.end = "unsup"; }
            catch (z3::exception& e) { S.pathsUnsup++; S.unsup[string("z3: ") + e.msg() + " @ " + where(s)]++; s.done = true; s.end = "unsup"; }
        }
    }
    void run(const string& entry) {
        Function* F = M.getFunction(entry); if (!F) throw Unsupported("no entry function " + entry);
        work.emplace_back(); State& s0 = work.back(); initGlobals(s0); s0.th.emplace_back(); s0.th[0].vc = {1};
        // global constructors run first (as frames on top of main)
        pushFrame(s0, s0.th[0], F, {});
        if (auto* gc = M.getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            for (int i = (int)ca->getNumOperands() - 1; i >= 0; i--) if (auto* cf = dyn_cast<Function>(cast<ConstantStruct>(ca->getOperand(i))->getOperand(1))) ctorList.push_back(cf);
            // run constructors to completion on a temporary thread, last pushed executed first
            Frame mainF = s0.th[0].st.back(); s0.th[0].st.clear();
            for (int i = (int)ctorList.size() - 1; i >= 0; i--) {
                pushFrame(s0, s0.th[0], ctorList[i], {}); runState(s0); if (timedOut) return;
                if (s0.end != "ok") throw Unsupported("global constructor failed: " + s0.end); s0.done = false; S.pathsOk--; s0.th[0].st.clear();
            }
            s0.th[0].st.push_back(mainF);
        }
        while (!work.empty()) {
            if (rndSearch && work.size() > 1 && work.size() < 4000) { rndState ^= rndState << 13; rndState ^= rndState >> 7; rndState ^= rndState << 17; size_t k = rndState % work.size(); auto it = work.begin(); std::advance(it, k); if (std::next(it) != work.end()) { auto last = std::prev(work.end()); std::swap(*it, *last); } }
            State s = std::move(work.back()); work.pop_back();
            runState(s);
            if (timedOut || now() > g_timeLimit) { timedOut = true; return; }
            if (g_viols.size() >= stopViols) { timedOut = true; return; }
            if (S.pathsOk + S.pathsExit + S.pathsViol > g_maxPaths) { timedOut = true; return; }
        }
    }
    std::vector<Function*> ctorList; bool rndSearch = param("search", 0) != 0; uint64_t rndState = 88172645463325252ull + (uint64_t)(param("vseed", 1) * 7919);
};
#include "ext.inc"
