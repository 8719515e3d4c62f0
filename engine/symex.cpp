// symex: symbolic executor over LLVM IR with an SMT back end (z3).
// Inputs, random draws, schedules are symbolic / forked; sym_check() is decided by the solver.
#include "core.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <list>
#include <cxxabi.h>
#include <unistd.h>
using namespace llvm;
using std::string;

// ------------------------------------------------------------------ options / globals
static std::map<string, double> g_params;
static std::map<string, string> g_fix; static bool g_fixed = false; // concrete replay: recorded values of the inputs
static double param(const string& n, double d) { auto it = g_params.find(n); return it == g_params.end() ? d : it->second; }
static unsigned long long g_maxInstr = 400000000ull; // per path
static double g_timeLimit = 600;                      // per job
static unsigned g_qTimeout = 20000;                   // ms per check query
static unsigned g_maxPaths = 10000000;
static int g_verbose = 0;
static z3::context* gz;
static auto g_t0 = std::chrono::steady_clock::now();
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }

struct Stats {
    uint64_t instrs = 0, forks = 0, queries = 0, qsat = 0, qunsat = 0, qunknown = 0, modelHits = 0;
    uint64_t checks = 0, checksSolver = 0, checksConcrete = 0, checksSyntactic = 0, inconclusive = 0;
    uint64_t pathsOk = 0, pathsAssume = 0, pathsLimit = 0, pathsUnsup = 0, pathsViol = 0, pathsExit = 0;
    uint64_t refinements = 0; uint64_t realOps = 0, realInexact = 0, memChecks = 0, raceChecks = 0, schedForks = 0, schedPts = 0;
    double solverTime = 0, maxQuery = 0;
    std::map<string, uint64_t> cover, unsup, checkLabels, unknownLabels;
    std::set<string> funcs;
} S;

struct Viol { string label, kind, where; std::vector<std::pair<string, string>> inputs; std::vector<string> notes; };
static std::vector<Viol> g_viols;
static std::map<string, int> g_violCount;
static std::vector<std::vector<std::pair<string, string>>> g_samples;

// ------------------------------------------------------------------ types
enum TK : uint8_t { TV_VOID, TV_INT, TV_DBL, TV_FLT, TV_X80, TV_PTR, TV_AGG, TV_VEC };
struct Ty { TK k = TV_VOID; unsigned bits = 0; unsigned size = 0; Type* t = nullptr; };
static const DataLayout* DL;
static Ty tyOf(Type* t) {
    Ty r; r.t = t;
    if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return r;
    if (t->isIntegerTy()) { r.k = TV_INT; r.bits = t->getIntegerBitWidth(); r.size = DL->getTypeStoreSize(t); }
    else if (t->isDoubleTy()) { r.k = TV_DBL; r.bits = 64; r.size = 8; }
    else if (t->isFloatTy()) { r.k = TV_FLT; r.bits = 32; r.size = 4; }
    else if (t->isX86_FP80Ty()) { r.k = TV_X80; r.bits = 80; r.size = 10; }
    else if (t->isPointerTy()) { r.k = TV_PTR; r.bits = 64; r.size = 8; }
    else if (t->isVectorTy()) { r.k = TV_VEC; r.size = DL->getTypeStoreSize(t); }
    else if (t->isStructTy() || t->isArrayTy()) { r.k = TV_AGG; r.size = DL->getTypeStoreSize(t); }
    else if (t->isFunctionTy()) { r.k = TV_VOID; }
    else throw Unsupported("type");
    return r;
}

// ------------------------------------------------------------------ compiled functions
struct State; struct Exec; struct Op; struct CF;
typedef bool (*Handler)(Exec&, State&, Op&, std::vector<Val>&, Val&);
struct Edge { int target; int block; std::vector<std::pair<int, int>> moves; };
struct Op {
    unsigned opc = 0, pred = 0; Ty ty, oty; int dst = -1, a = 0, b = 0, c = 0;
    std::vector<int> args; const Instruction* I = nullptr;
    int64_t off = 0; std::vector<std::pair<int, std::pair<int64_t, unsigned>>> scaled;
    int e0 = -1, e1 = -1; std::vector<std::pair<uint64_t, int>> cases;
    Function* callee = nullptr; CF* cf = nullptr; Handler h = nullptr; bool resolved = false; unsigned align = 1;
    std::vector<unsigned> idx;
};
struct CF {
    Function* F; std::vector<Op> code; std::vector<Edge> edges; std::vector<Val> consts; int nregs = 0; string name; bool repo = false;
};

struct PCN { int rc = 0; P<PCN> parent; z3::expr e; unsigned depth; PCN(const P<PCN>& p, const z3::expr& e) : parent(p), e(e), depth(p ? p->depth + 1 : 1) {}
    ~PCN() { P<PCN> q = std::move(parent); while (q && q->rc == 1) { P<PCN> n = std::move(q->parent); q = std::move(n); } } };

enum FK : uint8_t { FK_NORMAL, FK_MICRO, FK_STOPCALL };
struct Frame { CF* f; int ip = 0; std::vector<Val> regs; std::vector<uint32_t> allocas; FK kind = FK_NORMAL; };
enum TS : uint8_t { TS_RUN, TS_JOIN, TS_BARRIER, TS_MUTEX, TS_CV, TS_DONE };
typedef std::vector<uint32_t> VC;
struct Thread {
    std::vector<Frame> st; TS status = TS_RUN; uint64_t wait = 0; VC vc; int otid = 0; int nest = 0; int singles = 0; bool inTeam = false;
    uint64_t excPtr = 0, excTI = 0; uint64_t cvMutex = 0; int cvPhase = 0; bool passed = false; int dispatch = -1;
};
struct Disp { int64_t lo, hi, st, chunk, cur; int users; };
struct Team { bool active = false; bool syncs = true; int n = 1; std::vector<int> th; int singlesClaimed = 0; std::vector<Disp> disp; };
struct Sh { uint8_t wmask = 0; uint8_t wtid = 0; uint32_t wclk = 0; struct R { uint8_t tid, mask; uint32_t clk; }; std::vector<R> rd; };
typedef std::unordered_map<uint64_t, Sh> Shadow;
struct UF { int fn; Val a[2]; Val res; };
struct Input { string name; Val v; int kind; int lsb; };
struct State {
    std::vector<P<MemObj>> mem; P<PCN> pc; std::shared_ptr<z3::model> model;
    std::vector<Thread> th; int cur = 0; Team team; int maxThreads = 1, pushThreads = 0; int sched = 0; int preempt = 0, tryFails = 0, spurious = 0, preemptBound = 0;
    std::map<uint64_t, int> mutexOwner; std::map<uint64_t, VC> syncVC; std::shared_ptr<Shadow> shadow; bool race = param("race", 0) != 0;
    std::vector<UF> ufs; std::vector<Input> inputs; std::map<string, Val> draws; std::unordered_map<unsigned, uint64_t> conc; std::map<unsigned, std::shared_ptr<std::vector<uint64_t>>> slots;
    uint64_t instrs = 0; bool done = false; string end; std::vector<string> notes; std::vector<string> trace; bool unsureFeasible = false; bool hasFP = false, hasReal = false, hasBV = false; bool ufpoints = false;
    unsigned long long termLimit = 0; string termLabel; int errnoObj = 0; bool libmApprox = false; std::map<std::pair<uint32_t, int>, uint32_t> tls; std::map<uint32_t, P<MemObj>> saved;
};

#include "exec.inc"

int main(int argc, char** argv) {
    string bc, out, entry = "harness_main";
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        if (a == "-o") out = argv[++i];
        else if (a == "-e") entry = argv[++i];
        else if (a == "-v") g_verbose++;
        else if (a == "-t") g_timeLimit = atof(argv[++i]);
        else if (a == "-q") g_qTimeout = atoi(argv[++i]);
        else if (a == "-i") g_maxInstr = (unsigned long long)atof(argv[++i]);
        else if (a == "-f") { g_fixed = true; std::ifstream f(argv[++i]); string l; while (std::getline(f, l)) { auto t = l.find('\t'); if (t != string::npos && l.compare(0, 6, "param:") != 0) g_fix[l.substr(0, t)] = l.substr(t + 1); } }
        else if (a == "-p") { string kv = argv[++i]; auto p = kv.find('='); g_params[kv.substr(0, p)] = atof(kv.substr(p + 1).c_str()); }
        else bc = a;
    }
    try { z3::set_param("smt.arith.nl.optimize_bounds", false); } catch (z3::exception&) {}
    z3::context ctx; gz = &ctx;
    LLVMContext lc; SMDiagnostic err;
    auto M = parseIRFile(bc, err, lc);
    if (!M) { err.print("symex", errs()); return 3; }
    DL = &M->getDataLayout();
    string fatal;
    bool timedOut = false;
    try { Exec E(*M); E.run(entry); timedOut = E.timedOut; }
    catch (Unsupported& u) { fatal = u.what(); }
    catch (z3::exception& e) { fatal = string("z3: ") + e.msg(); }
    std::ostringstream o;
    auto q = [](const string& s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; };
    o << "{\n \"fatal\": " << q(fatal) << ", \"timed_out\": " << (timedOut ? "true" : "false") << ", \"wall_s\": " << now() << ",\n";
    o << " \"paths\": {\"ok\":" << S.pathsOk << ",\"exit\":" << S.pathsExit << ",\"assume_false\":" << S.pathsAssume << ",\"limit\":" << S.pathsLimit << ",\"unsupported\":" << S.pathsUnsup << ",\"violation\":" << S.pathsViol << "},\n";
    o << " \"instrs\":" << S.instrs << ",\"forks\":" << S.forks << ",\"queries\":" << S.queries << ",\"sat\":" << S.qsat << ",\"unsat\":" << S.qunsat << ",\"unknown\":" << S.qunknown << ",\"model_hits\":" << S.modelHits
      << ",\"solver_s\":" << S.solverTime << ",\"max_query_s\":" << S.maxQuery << ",\n";
    o << " \"checks\":" << S.checks << ",\"checks_solver\":" << S.checksSolver << ",\"checks_concrete\":" << S.checksConcrete << ",\"checks_syntactic\":" << S.checksSyntactic << ",\"inconclusive\":" << S.inconclusive << ",\n";
    o << " \"real_ops\":" << S.realOps << ",\"real_ops_maybe_rounded\":" << S.realInexact << ",\"mem_accesses\":" << S.memChecks << ",\"race_checks\":" << S.raceChecks << ",\"sched_points\":" << S.schedPts << ",\"sched_forks\":" << S.schedForks << ",\n";
    auto dumpMap = [&](const char* n, std::map<string, uint64_t>& m) { o << " \"" << n << "\": {"; bool f = true; for (auto& kv : m) { o << (f ? "" : ",") << q(kv.first) << ":" << kv.second; f = false; } o << "},\n"; };
    dumpMap("cover", S.cover); dumpMap("unsupported", S.unsup); dumpMap("check_labels", S.checkLabels); dumpMap("unknown_labels", S.unknownLabels);
    o << " \"functions\": ["; { bool f = true; for (auto& x : S.funcs) { o << (f ? "" : ",") << q(x); f = false; } } o << "],\n";
    o << " \"samples\": ["; { bool f = true; for (auto& v : g_samples) { o << (f ? "\n  [" : ",\n  ["); bool g = true; for (auto& kv : v) { o << (g ? "" : ",") << "[" << q(kv.first) << "," << q(kv.second) << "]"; g = false; } o << "]"; f = false; } } o << "],\n";
    o << " \"refinements\": " << S.refinements << ",\n";
    o << " \"violations\": ["; { bool f = true; for (auto& v : g_viols) { o << (f ? "\n" : ",\n") << "  {\"label\":" << q(v.label) << ",\"kind\":" << q(v.kind) << ",\"where\":" << q(v.where) << ",\"inputs\":["; bool g = true; for (auto& kv : v.inputs) { o << (g ? "" : ",") << "[" << q(kv.first) << "," << q(kv.second) << "]"; g = false; } o << "],\"notes\":["; g = true; for (auto& n : v.notes) { o << (g ? "" : ",") << q(n); g = false; } o << "]}"; f = false; } } o << "]\n}\n";
    if (out.empty()) std::cout << o.str(); else { std::ofstream f(out); f << o.str(); }
    _exit(0);
}
