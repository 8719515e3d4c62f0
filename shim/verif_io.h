// environment model of the iostream library: output is recorded per file name; a floating point value becomes an
// atom \x01<index>\x02 that refers to (value, fixed?, precision).
#ifndef VERIF_IO_H
#define VERIF_IO_H
#include <string>
#include <cstring>
#include <cstdlib>
#include <ios_stub.h>
// every other library header that can pull in the real stream headers comes before the renaming macros below
#include <iosfwd>
#include <iterator>
#include <streambuf>
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <deque>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <set>
#include <stack>
#include <stdexcept>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
extern "C" int sym_is_symbolic_int(unsigned long v);
namespace std {
struct verif_manip_prec { int p; };
struct verif_manip_width { int w; };
struct verif_manip_fill { char c; };
struct verif_ios_base { static const int app = 8, out = 16, in = 1, trunc = 32, binary = 4, ate = 2, verif_fixed = 64, verif_scientific = 128, floatfield = 192, failbit = 512, badbit = 1024, eofbit = 2048, goodbit = 0, adjustfield = 0, left = 0, right = 0, internal = 0, dec = 0, basefield = 0, showpoint = 0; typedef int fmtflags; typedef int openmode; };
class verif_ostream : public verif_ios_base {
public:
    string* sink = nullptr; int prec = 6; int fmt = 0; bool bad_ = false, throw_ = false;   // fmt 0 default, 1 fixed, 2 scientific
    verif_ostream() {}
    explicit verif_ostream(const char* n) : sink(verif_file(n)) {}
    virtual ~verif_ostream() {}
    verif_ostream& verif_put(const char* s, size_t n) { if (sink) sink->append(s, n); return *this; }
    verif_ostream& verif_int(long long v) { if (sym_is_symbolic_int((unsigned long)v)) { int k = verif_atom((double)v, 3, 0); char c = 1; verif_put(&c, 1); verif_int(k); c = 2; return verif_put(&c, 1); } char b[24]; int i = 24; bool neg = v < 0; unsigned long long u = neg ? 0ull - (unsigned long long)v : v; do { b[--i] = '0' + u % 10; u /= 10; } while (u); if (neg) b[--i] = '-'; return verif_put(b + i, 24 - i); }
    verif_ostream& verif_uint(unsigned long long u) { if (sym_is_symbolic_int((unsigned long)u)) return verif_int((long long)u); char b[24]; int i = 24; do { b[--i] = '0' + u % 10; u /= 10; } while (u); return verif_put(b + i, 24 - i); }
    verif_ostream& verif_double(double v) { int k = verif_atom(v, fmt, prec); char c = 1; verif_put(&c, 1); verif_int(k); c = 2; return verif_put(&c, 1); }
    verif_ostream& operator<<(bool v) { return verif_int(v); }
    verif_ostream& operator<<(short v) { return verif_int(v); }
    verif_ostream& operator<<(unsigned short v) { return verif_int(v); }
    verif_ostream& operator<<(int v) { return verif_int(v); }
    verif_ostream& operator<<(unsigned v) { return verif_uint(v); }
    verif_ostream& operator<<(long v) { return verif_int(v); }
    verif_ostream& operator<<(unsigned long v) { return verif_uint(v); }
    verif_ostream& operator<<(long long v) { return verif_int(v); }
    verif_ostream& operator<<(unsigned long long v) { return verif_uint(v); }
    verif_ostream& operator<<(float v) { return verif_double(v); }
    verif_ostream& operator<<(double v) { return verif_double(v); }
    verif_ostream& operator<<(long double v) { return verif_double((double)v); }
    verif_ostream& operator<<(const void*) { return verif_put("0xptr", 5); }
    verif_ostream& operator<<(verif_ostream& (*f)(verif_ostream&)) { return f(*this); }
    verif_ostream& put(char c) { return verif_put(&c, 1); }
    verif_ostream& write(const char* s, long n) { return verif_put(s, n); }
    int precision() const { return prec; } int precision(int p) { int o = prec; prec = p; return o; }
    verif_ostream& flush() { return *this; }
    verif_ostream& verif_flush() { return *this; }
    int verif_setprecision_() const { return prec; }
    bool good() const { return !bad_; } bool fail() const { return bad_; } bool bad() const { return false; } bool eof() const { return false; }
    explicit operator bool() const { return !bad_; } bool operator!() const { return bad_; }
    // format flags of std::ios_base: 64 fixed, 128 scientific
    int setf(int f) { int o = fmt * 64; if (f & 64) fmt |= 1; if (f & 128) fmt |= 2; return o; }
    int setf(int f, int mask) { int o = fmt * 64; if (mask & 64) fmt &= ~1; if (mask & 128) fmt &= ~2; return setf(f & mask), o; }
    void unsetf(int f) { if (f & 64) fmt &= ~1; if (f & 128) fmt &= ~2; }
    int flags() const { return fmt * 64; } int flags(int f) { int o = fmt * 64; fmt = f / 64 & 3; return o; }
    void exceptions(int m) { if (m) { throw_ = true; if (bad_) throw std::runtime_error("stream"); } }
    void setstate(int) { bad_ = true; if (throw_) throw std::runtime_error("stream"); } void clear() { bad_ = false; }
    int width() const { return 0; } int width(int) { return 0; } char fill() const { return ' '; } char fill(char) { return ' '; }
};
inline verif_ostream& operator<<(verif_ostream& o, const char* s) { return o.verif_put(s, strlen(s)); }
inline verif_ostream& operator<<(verif_ostream& o, char c) { return o.verif_put(&c, 1); }
inline verif_ostream& operator<<(verif_ostream& o, const string& s) { return o.verif_put(s.data(), s.size()); }
inline verif_ostream& operator<<(verif_ostream& o, verif_manip_prec p) { o.prec = p.p; return o; }
inline verif_ostream& operator<<(verif_ostream& o, verif_manip_width) { return o; }
inline verif_ostream& operator<<(verif_ostream& o, verif_manip_fill) { return o; }
inline verif_ostream& verif_endl(verif_ostream& o) { return o.put('\n'); }
inline verif_ostream& verif_flush(verif_ostream& o) { return o; }
inline verif_ostream& verif_fixed(verif_ostream& o) { o.fmt = 1; return o; }
inline verif_ostream& verif_scientific(verif_ostream& o) { o.fmt = 2; return o; }
inline verif_ostream& verif_defaultfloat(verif_ostream& o) { o.fmt = 0; return o; }
inline verif_manip_prec verif_setprecision(int p) { return {p}; }
inline verif_manip_width verif_setw(int p) { return {p}; }
inline verif_manip_fill verif_setfill(char p) { return {p}; }
inline verif_ostream& verif_boolalpha(verif_ostream& o) { return o; }
class verif_ofstream : public verif_ostream {
    bool open_ = false;
public:
    verif_ofstream() {}
    explicit verif_ofstream(const char* n, int mode = 0) { open(n, mode); }
    explicit verif_ofstream(const string& n, int mode = 0) { open(n.c_str(), mode); }
    void open(const char* n, int mode = 0) { if (verif_can_open(n)) { sink = verif_file(n); if (!(mode & 8)) sink->clear(); open_ = true; } else { bad_ = true; if (throw_) throw std::runtime_error("open"); } }
    void open(const string& n, int mode = 0) { open(n.c_str(), mode); }
    bool is_open() const { return open_; }
    void close() { open_ = false; sink = nullptr; }
};
class verif_stringstream : public verif_ostream {
    string buf;
public:
    verif_stringstream() { sink = &buf; }
    explicit verif_stringstream(const string& s) : buf(s) { sink = &buf; }
    string str() const { return buf; } void str(const string& s) { buf = s; }
};
template <class T, class C = char, class Tr = void> class verif_ostream_iterator {
    verif_ostream* o; const char* d;
public:
    typedef output_iterator_tag iterator_category; typedef void value_type; typedef ptrdiff_t difference_type; typedef void pointer; typedef void reference;
    verif_ostream_iterator(verif_ostream& s, const char* delim = nullptr) : o(&s), d(delim) {}
    verif_ostream_iterator& operator=(const T& v) { *o << v; if (d) *o << d; return *this; }
    verif_ostream_iterator& operator*() { return *this; } verif_ostream_iterator& operator++() { return *this; } verif_ostream_iterator operator++(int) { return *this; }
};
extern verif_ostream verif_cout, verif_cerr, verif_clog;
}
#define cout verif_cout
#define cerr verif_cerr
#define clog verif_clog
#define ostream verif_ostream
#define ostream_iterator verif_ostream_iterator
#define ofstream verif_ofstream
#define stringstream verif_stringstream
#define ostringstream verif_stringstream
#define endl verif_endl
#define flush verif_flush
#define fixed verif_fixed
#define scientific verif_scientific
#define defaultfloat verif_defaultfloat
#define setprecision verif_setprecision
#define setw verif_setw
#define setfill verif_setfill
#define boolalpha verif_boolalpha
#define ios_base verif_ios_base
#define ios verif_ios_base
#endif
