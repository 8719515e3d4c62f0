// C08: the parallel radix sort returns a sorted permutation (both copies: -DHYP selects the one of hypergirgs)
#include "sym.h"
#ifdef HYP
#include <hypergirgs/IntSort.h>
#else
#include <girgs/IntSort.h>
#endif
template <class K> struct Item { K key; int tag; };
template <class K, class V> static void judge(const V& v, const K* keys, int n) {
    bool sorted = true, once = true, keep = true, stable = true; int seen[16] = {0};
    for (int i = 0; i < n; i++) { if (i) { sorted &= !(v[i].key < v[i - 1].key); stable &= !(v[i].key == v[i - 1].key && v[i].tag < v[i - 1].tag); } int t = v[i].tag; if (t < 0 || t >= n) { once = false; continue; } seen[t]++; keep &= v[i].key == keys[t]; }
    for (int t = 0; t < n; t++) once &= seen[t] == 1;
    sym_check(once, "every element occurs exactly once in the output"); sym_check(keep, "elements keep their key"); sym_check(sorted, "the output is sorted by key"); sym_check(stable, "elements with equal keys keep their order"); sym_cover("sorted");
}
// keys: sym=1 arbitrary in [0,max]; otherwise near one of several places of the key range that are interesting for digits
template <class K> static void keysFor(K* k, int n, K max) {
    int w = P("win", 2), mode = P("keys", 0), nb = P("nb", 4);
    for (int i = 0; i < n; i++) {
        if (mode == 1) { k[i] = sizeof(K) == 8 ? (K)sym_u64(VName("key", i)) : (K)sym_u32(VName("key", i)); sym_assume(k[i] <= max); continue; }
        const K bases[] = {0, max, (K)255, (K)(max / 2), (K)65535, (K)(max - max / 4)};
        K b = bases[sym_choice(VName("base", i), nb)]; uint32_t o = sym_u32(VName("off", i)); sym_assume(o < (uint32_t)w);
        k[i] = b + (K)o; if (b == max) k[i] = b - (K)o; sym_assume(k[i] <= max);
    }
}
template <class K, size_t RW> static void run() {
    int n = P("n", 3), T = P("T", 1), over = P("over", 0); K max = (K)sym_param("max", 255) ; if (P("shift", 0)) max = (K)(((uint64_t)1 << P("shift", 0)) - P("minus", 0)); sym_set_threads(T);
    if (P("sched", 0)) sym_sched(P("sched", 0), P("sbound", 0));
    K keys[16]; keysFor<K>(keys, n, max); auto ext = [](const Item<K>& x) { return x.key; };
    if (over == 0) { std::vector<Item<K>> v(n); for (int i = 0; i < n; i++) v[i] = {keys[i], i}; intsort::intsort<Item<K>, decltype(ext), K, RW>(v, ext, max); judge(v, keys, n); }
    if (over == 1) { std::vector<Item<K>> v(n); for (int i = 0; i < n; i++) v[i] = {keys[i], i}; intsort::intsort<typename std::vector<Item<K>>::iterator, decltype(ext), K, RW>(v.begin(), v.end(), ext, max); judge(v, keys, n); }
    if (over == 2) { std::shared_ptr<Item<K>[]> v(new Item<K>[n]); for (int i = 0; i < n; i++) v[i] = {keys[i], i}; intsort::intsort<Item<K>, decltype(ext), K, RW>(v, n, ext, max); judge(v, keys, n); }
    if (over == 3) { std::unique_ptr<Item<K>[]> v(new Item<K>[n]); for (int i = 0; i < n; i++) v[i] = {keys[i], i}; intsort::intsort<Item<K>, decltype(ext), K, RW>(v, n, ext, max); judge(v, keys, n); }
}
extern "C" void C08_sort8() { run<uint32_t, 8>(); }
extern "C" void C08_sort2() { run<uint32_t, 2>(); }
extern "C" void C08_sort3() { run<uint32_t, 3>(); }
extern "C" void C08_sort8l() { run<uint64_t, 8>(); }
// many elements, of which a few have symbolic keys: counters and offsets of the buckets exceed 8 and 16 bit
template <class K, size_t RW> static void many() {
    int n = P("n", 300), T = P("T", 2), symn = P("symn", 2), span = P("span", 0), nb = P("nb", 3); K max = P("shift", 0) ? (K)(((uint64_t)1 << P("shift", 0)) - P("minus", 1)) : (K)sym_param("max", 255); sym_set_threads(T); if (P("sched", 0)) sym_sched(P("sched", 0), P("sbound", 0));
    uint64_t s = P("salt", 1) * 2654435761u; auto rnd = [&] { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 20; }; std::vector<K> keys(n); std::vector<Item<K>> v(n);
    for (int i = 0; i < n; i++) keys[i] = span ? (K)(max / P("div", 1) - rnd() % (uint64_t)span) : (K)(rnd() % ((uint64_t)max + 1));
    for (int i = 0; i < symn; i++) { const K B[] = {0, max, (K)(max / 2)}; int p = n > 1 ? i * (n - 1) / (symn > 1 ? symn - 1 : 1) : 0; if (p >= n) break; K b = B[sym_choice(VName("base", i), nb)]; uint32_t o = sym_u32(VName("off", i)); sym_assume(o < (uint32_t)P("win", 2)); keys[p] = b == max ? b - (K)o : b + (K)o; sym_assume(keys[p] <= max); }
    for (int i = 0; i < n; i++) v[i] = {keys[i], i}; auto ext = [](const Item<K>& x) { return x.key; }; int over = P("over", 0);
    if (over == 0) intsort::intsort<Item<K>, decltype(ext), K, RW>(v, ext, max);
    if (over == 1) intsort::intsort<typename std::vector<Item<K>>::iterator, decltype(ext), K, RW>(v.begin(), v.end(), ext, max);
    if (over == 2) { std::shared_ptr<Item<K>[]> a(new Item<K>[n]); std::copy(v.begin(), v.end(), a.get()); intsort::intsort<Item<K>, decltype(ext), K, RW>(a, n, ext, max); std::copy(a.get(), a.get() + n, v.begin()); }
    if (over == 3) { std::unique_ptr<Item<K>[]> a(new Item<K>[n]); std::copy(v.begin(), v.end(), a.get()); intsort::intsort<Item<K>, decltype(ext), K, RW>(a, n, ext, max); std::copy(a.get(), a.get() + n, v.begin()); }
    bool sorted = true, once = true, keep = true, stable = true; std::vector<unsigned char> seen(n, 0); for (int i = 0; i < n; i++) { if (i) { sorted &= !(v[i].key < v[i - 1].key); stable &= !(v[i].key == v[i - 1].key && v[i].tag < v[i - 1].tag); } int t = v[i].tag; if (t < 0 || t >= n) { once = false; continue; } once &= !seen[t]; seen[t] = 1; keep &= v[i].key == keys[t]; }
    sym_check((int)v.size() == n && once, "every element occurs exactly once in the output"); sym_check(keep, "elements keep their key"); sym_check(sorted, "the output is sorted by key"); sym_check(stable, "elements with equal keys keep their order"); sym_cover("sorted");
}
extern "C" void C08_many8() { many<uint32_t, 8>(); }
extern "C" void C08_many8l() { many<uint64_t, 8>(); }
extern "C" void C08_many3() { many<uint32_t, 3>(); }
