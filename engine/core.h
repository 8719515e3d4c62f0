// Symbolic executor over LLVM IR -- core data structures (values, expressions, memory, state).
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <memory>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <chrono>
#include <z3++.h>

struct RC { int rc = 0; uint8_t tag; RC(uint8_t t) : tag(t) {} virtual ~RC() {} };
template <class T> struct P {
    T* p = nullptr;
    P() {}
    P(T* q) : p(q) { if (p) ++p->rc; }
    P(const P& o) : p(o.p) { if (p) ++p->rc; }
    P(P&& o) noexcept : p(o.p) { o.p = nullptr; }
    template <class U> P(const P<U>& o) : p(o.p) { if (p) ++p->rc; }
    P& operator=(const P& o) { if (o.p) ++o.p->rc; rel(); p = o.p; return *this; }
    P& operator=(P&& o) noexcept { if (this != &o) { rel(); p = o.p; o.p = nullptr; } return *this; }
    ~P() { rel(); }
    void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
    T* operator->() const { return p; }
    T& operator*() const { return *p; }
    explicit operator bool() const { return p != nullptr; }
    bool operator==(const P& o) const { return p == o.p; }
};
enum { T_SYM, T_AGG, T_BIG };
enum Kind : uint8_t { K_BV, K_BOOL, K_REAL, K_FP, K_UNDEF };

struct Sym : RC {
    Kind k; unsigned w; z3::expr e;
    // Real mode: interval and dyadic-grid information used to decide whether the IEEE operation is exact
    double lo = -INFINITY, hi = INFINITY; int lsb = 0; bool grid = false;
    Sym(Kind k, unsigned w, const z3::expr& e) : RC(T_SYM), k(k), w(w), e(e) {}
};
struct Val {
    uint64_t c = 0; P<RC> p;
    Val() {}
    Val(uint64_t c) : c(c) {}
    Val(const P<Sym>& s) : p(s) {}
    Val(Sym* s) : p(s) {}
    bool conc() const { return !p; }
    bool isSym() const { return p && p->tag == T_SYM; }
    Sym* sym() const { return static_cast<Sym*>(p.p); }
    bool undef() const { return isSym() && sym()->k == K_UNDEF; }
};
struct Agg : RC { std::vector<Val> v; Agg() : RC(T_AGG) {} };
struct Big : RC { uint8_t b[16] = {0}; Big() : RC(T_BIG) {} };   // i128 / x86_fp80 (concrete)

struct Cell { uint32_t size; Val v; };
struct MemObj {
    int rc = 0;
    uint32_t size = 0; bool alive = true; uint8_t kind = 0;      // 0 heap 1 stack 2 global 3 const global 4 external
    std::vector<uint8_t> data, init;                              // init empty = fully initialised
    std::map<uint32_t, Cell> sym;
    const char* name = nullptr;
};
struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

static const uint64_t BIAS = 1ull << 31;
inline uint64_t mkptr(uint32_t id, int64_t off = 0) { return ((uint64_t)id << 32) + BIAS + off; }
inline uint32_t ptrid(uint64_t p) { return p >> 32; }
inline int64_t ptroff(uint64_t p) { return (int64_t)(p & 0xffffffffull) - (int64_t)BIAS; }
inline double asD(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
inline uint64_t asU(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
