// environment model: uniform_int_distribution (replaces libstdc++'s header of the same name)
#ifndef VERIF_UID_H
#define VERIF_UID_H
#include <limits>
#include <type_traits>
namespace std {
template <class G> struct verif_g_test {};
template <class I = int> class uniform_int_distribution {
    I a_, b_;
public:
    using result_type = I;
    struct param_type { I a, b; param_type(I a = 0, I b = numeric_limits<I>::max()) : a(a), b(b) {} };
    uniform_int_distribution() : a_(0), b_(numeric_limits<I>::max()) {}
    explicit uniform_int_distribution(I a, I b = numeric_limits<I>::max()) : a_(a), b_(b) {}
    explicit uniform_int_distribution(const param_type& p) : a_(p.a), b_(p.b) {}
    void reset() {}
    I a() const { return a_; } I b() const { return b_; } I min() const { return a_; } I max() const { return b_; }
    template <class G> I operator()(G& g) { unsigned long long r = g.verif_raw(); unsigned long long span = (unsigned long long)b_ - (unsigned long long)a_; return span == ~0ull ? (I)r : (I)((unsigned long long)a_ + r % (span + 1)); }
    template <class G> I operator()(G& g, const param_type& p) { return uniform_int_distribution(p)(g); }
};
}
#endif
