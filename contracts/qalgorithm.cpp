// C22: qalgorithm functions match the std algorithms over whole containers
// STD: c++17
// ASSUME: predicates and element comparisons are pure functions of the element
// BOUNDED: C22_erase_all.* erase_all, erase_all_if: at most 5 elements (real std::remove_if; every content and predicate)
#include "vf.hpp"
#include <itlib/qalgorithm.hpp>
#include <itlib/span.hpp>
#include <itlib/pod_vector.hpp>
#include <vector>
using namespace itlib;
using T = uint32_t;

// an arbitrary predicate: an arbitrary (but fixed) function of the element's value
struct Pred { bool operator()(const T& x) const { return vf_uf("pred", x, 1) != 0; } };
// an arbitrary equality of elements with a value of another type
struct Key { uint32_t k; };
inline bool operator==(const T& x, const Key& k) { return vf_uf2("equal", x, k.k, 1) != 0; }

// containers with n arbitrary elements; base(c) is the first one
struct S { using C = span<T>; static C mk(T* p, uint64_t n) { return C(p, n); } };
struct SC { using C = span<const T>; static C mk(T* p, uint64_t n) { return C(p, n); } };
struct P { using C = pod_vector<T>; static C mk(T* p, uint64_t n) { return C(p, p + n); } };
struct V { using C = std::vector<T>; static C mk(T* p, uint64_t n) { return C(p, p + n); } };
#define SRC \
    uint64_t n = vf_u64("n", 0, VF_BIG); vf_limit(n); \
    T* src = static_cast<T*>(vf_array("src", n, 4, 4)); \
    typename K::C c = K::mk(src, n); \
    const auto& cc = c; (void)cc; const T* b = c.data(); (void)b;

// i designates the first match, or is n when there is none
template <class M> void first(const T* src, uint64_t n, uint64_t i, M m) {
    vf_ensure(i <= n);
    if (i < n) vf_ensure(m(src[i]));
    uint64_t j = vf_u64("j", 0, VF_BIG);
    if (j < i) { vf_inst(j / 4); vf_ensure(!m(src[j])); }
}
template <class C, class I> uint64_t idx(C& c, I it) { return uint64_t(it - c.begin()); }

template <class K> void find_value() {
    SRC
    T v = T(vf_u64("v", 0, 0xffffffff));
    auto m = [&](T x) { return x == v; };
    switch (vf_u64("form", 0, 3)) {
    case 0: first(src, n, idx(c, qfind(c, v)), m); break;
    case 1: first(src, n, idx(cc, qfind(cc, v)), m); break;
    case 2: { auto p = pfind(c, v); if (p) vf_ensure(p >= b && p < b + n); first(src, n, p ? uint64_t(p - b) : n, m); break; }
    default: { auto p = pfind(cc, v); if (p) vf_ensure(p >= b && p < b + n); first(src, n, p ? uint64_t(p - b) : n, m); break; }
    }
    vf_ensure(c.size() == n);
}
template <class K> void find_key() {
    SRC
    Key v{uint32_t(vf_u64("v", 0, 0xffffffff))};
    auto m = [&](T x) { return x == v; };
    if (vf_bool("pointer")) { auto p = pfind(c, v); first(src, n, p ? uint64_t(p - b) : n, m); }
    else first(src, n, idx(c, qfind(c, v)), m);
}
template <class K> void find_pred() {
    SRC
    Pred m;
    switch (vf_u64("form", 0, 3)) {
    case 0: first(src, n, idx(c, qfind_if(c, m)), m); break;
    case 1: first(src, n, idx(cc, qfind_if(cc, Pred{})), m); break;
    case 2: { auto p = pfind_if(c, m); if (p) vf_ensure(p >= b && p < b + n); first(src, n, p ? uint64_t(p - b) : n, m); break; }
    default: { auto p = pfind_if(cc, Pred{}); if (p) vf_ensure(p >= b && p < b + n); first(src, n, p ? uint64_t(p - b) : n, m); break; }
    }
    vf_ensure(c.size() == n);
}
HARNESS(C22_find_value_span) { find_value<S>(); }
HARNESS(C22_find_value_span_const) { find_value<SC>(); }
HARNESS(C22_find_value_pod_vector) { find_value<P>(); }
HARNESS(C22_find_value_vector) { find_value<V>(); }
HARNESS(C22_find_key_span) { find_key<S>(); }
HARNESS(C22_find_key_span_const) { find_key<SC>(); }
HARNESS(C22_find_key_pod_vector) { find_key<P>(); }
HARNESS(C22_find_key_vector) { find_key<V>(); }
HARNESS(C22_find_pred_span) { find_pred<S>(); }
HARNESS(C22_find_pred_span_const) { find_pred<SC>(); }
HARNESS(C22_find_pred_pod_vector) { find_pred<P>(); }
HARNESS(C22_find_pred_vector) { find_pred<V>(); }

// the quantifiers
struct NotPred { bool operator()(const T& x) const { return !Pred{}(x); } };
enum { ALL, ANY, NONE };
template <class K, int W> void quantifiers() {
    SRC
    Pred m;
    bool r;
    if (vf_bool("lvalue")) r = W == ALL ? qall_of(c, m) : W == ANY ? qany_of(c, m) : qnone_of(c, m);
    else r = W == ALL ? qall_of(cc, Pred{}) : W == ANY ? qany_of(cc, Pred{}) : qnone_of(cc, Pred{});
    // what holds for every element, and what has a witness (the searches are proved above)
    bool every = W == ANY ? !r : r;
    uint64_t w = vf_u64("w", 0, VF_BIG);
    if (every && w < n) { vf_inst(w / 4); vf_ensure(m(src[w]) == (W == ALL)); }
    if (!every) vf_ensure((W == ALL ? qfind_if(cc, NotPred{}) : qfind_if(cc, m)) != cc.end());
    if (n == 0) vf_ensure(every);
}
// the default predicate: the element itself
template <class K, int W> void identities() {
    SRC
    bool r = W == ALL ? qall_of(c) : W == ANY ? qany_of(c) : qnone_of(c);
    bool every = W == ANY ? !r : r;
    auto nz = [](const T& x) { return x != 0; };
    uint64_t w = vf_u64("w", 0, VF_BIG);
    if (every && w < n) { vf_inst(w / 4); vf_ensure((src[w] != 0) == (W == ALL)); }
    if (!every) vf_ensure((W == ALL ? qfind(cc, T(0)) : qfind_if(cc, nz)) != cc.end());
    if (n == 0) vf_ensure(every);
}
HARNESS(C22_quantifiers_all_span) { quantifiers<S, ALL>(); }
HARNESS(C22_quantifiers_all_pod_vector) { quantifiers<P, ALL>(); }
HARNESS(C22_quantifiers_all_vector) { quantifiers<V, ALL>(); }
HARNESS(C22_quantifiers_any_span) { quantifiers<S, ANY>(); }
HARNESS(C22_quantifiers_any_pod_vector) { quantifiers<P, ANY>(); }
HARNESS(C22_quantifiers_any_vector) { quantifiers<V, ANY>(); }
HARNESS(C22_quantifiers_none_span) { quantifiers<S, NONE>(); }
HARNESS(C22_quantifiers_none_pod_vector) { quantifiers<P, NONE>(); }
HARNESS(C22_quantifiers_none_vector) { quantifiers<V, NONE>(); }
HARNESS(C22_identities_all_span) { identities<S, ALL>(); }
HARNESS(C22_identities_all_pod_vector) { identities<P, ALL>(); }
HARNESS(C22_identities_all_vector) { identities<V, ALL>(); }
HARNESS(C22_identities_any_span) { identities<S, ANY>(); }
HARNESS(C22_identities_any_pod_vector) { identities<P, ANY>(); }
HARNESS(C22_identities_any_vector) { identities<V, ANY>(); }
HARNESS(C22_identities_none_span) { identities<S, NONE>(); }
HARNESS(C22_identities_none_pod_vector) { identities<P, NONE>(); }
HARNESS(C22_identities_none_vector) { identities<V, NONE>(); }

// erase_first: the element that goes is the first match. The position is a ghost variable, recorded by erase.
template <class B> struct Rec : B {
    using B::B;
    uint64_t pos = 0, erases = 0;
    template <class I> auto erase(I it) { pos = uint64_t(it - this->begin()); ++erases; return B::erase(it); }
    template <class I, class J> auto erase(I f, J l) { pos = uint64_t(f - this->begin()); erases += uint64_t(l - f); return B::erase(f, l); }
};
struct RP { using C = Rec<pod_vector<T>>; static C mk(T* p, uint64_t n) { return C(p, p + n); } };
struct RV { using C = Rec<std::vector<T>>; static C mk(T* p, uint64_t n) { return C(p, p + n); } };
template <class K, int W> void erases_first() {
    SRC
    T v = T(vf_u64("v", 0, 0xffffffff));
    bool r; Pred m; auto eqv = [&](const T& x) { return x == v; };
    if (W == 0) r = erase_first(c, v); else r = vf_bool("lvalue") ? erase_first_if(c, m) : erase_first_if(c, Pred{});
    vf_ensure(c.erases == uint64_t(r));
    uint64_t p = r ? c.pos : n;
    vf_ensure(r == (p < n));
    if (W == 0) first(src, n, p, eqv); else first(src, n, p, m);
    if (!r) { uint64_t w = vf_u64("w", 0, VF_BIG); if (w < n) { vf_inst(w / 4); vf_ensure(!(W == 0 ? src[w] == v : m(src[w]))); } }
    vf_ensure(uint64_t(c.size()) == n - r);
    uint64_t j = vf_u64("u", 0, VF_BIG);
    if (j < n - r) vf_ensure(c.begin()[j] == src[j < p ? j : j + 1]);
}
HARNESS(C22_erase_first_pod_vector) { erases_first<RP, 0>(); }
HARNESS(C22_erase_first_vector) { erases_first<RV, 0>(); }
HARNESS(C22_erase_first_if_pod_vector) { erases_first<RP, 1>(); }
HARNESS(C22_erase_first_if_vector) { erases_first<RV, 1>(); }
// erase_all: the elements that do not match stay, in order
template <class C, int W> void erases_all() {
    uint64_t n = vf_concrete(vf_u64("n", 0, 5), 6);
    T a[5], e[5]; uint64_t m = 0;
    T v = T(vf_u64("v", 0, 0xffffffff));
    C c;
    for (uint64_t i = 0; i < n; ++i) { a[i] = T(vf_u64("a", 0, 0xffffffff)); c.push_back(a[i]); }
    for (uint64_t i = 0; i < n; ++i) if (!(W == 0 ? a[i] == v : Pred{}(a[i]))) e[m++] = a[i];
    uint64_t r; Pred p;
    if (W == 0) r = erase_all(c, v); else if (W == 1) r = erase_all_if(c, p); else r = erase_all_if(c, Pred{});
    vf_ensure(r == n - m && c.size() == m);
    for (uint64_t i = 0; i < m; ++i) vf_ensure(c.begin()[i] == e[i]);
}
HARNESS(C22_erase_all_pod_vector) { erases_all<pod_vector<T>, 0>(); }
HARNESS(C22_erase_all_vector) { erases_all<std::vector<T>, 0>(); }
HARNESS(C22_erase_all_if_pod_vector) { erases_all<pod_vector<T>, 1>(); }
HARNESS(C22_erase_all_if_vector) { erases_all<std::vector<T>, 2>(); }
// ... for any number of elements: element i is the number i, and which of them match is arbitrary.
// std::remove_if starts with std::find_if, whose contract is proved by C22_find_contract_* and used by C22_erases_*
using N = uint64_t;
struct NPred { bool operator()(const N& x) const { return vf_uf("match", x, 1) != 0; } };
struct NKey {};
inline bool operator==(const N& x, const NKey&) { return NPred{}(x); }
template <class C, int W> uint64_t erase_matching(C& c) {
    NPred p;
    return W == 0 ? erase_all(c, NKey{}) : W == 1 ? erase_all_if(c, p) : erase_all_if(c, NPred{});
}
#define NUMBERS \
    uint64_t n = vf_u64("n", 0, VF_BIG); vf_limit(n); \
    N* src = static_cast<N*>(vf_array("src", n, 8, 8)); \
    for (uint64_t i = 0; i < n; ++i) src[i] = i; \
    C c(src, src + n);
// the contract of find_if over numbers: the first match, or the end; "none before it matches" at the number `before` (any number)
static uint64_t before;
static bool find_post(const N* f, const N* l, const N* r) {
    uint64_t n = l - f, p = r - f;
    if (p > n) return false;
    if (p < n && !NPred{}(f[p])) return false;
    if (before < p && NPred{}(f[before])) return false;
    return true;
}
static N* find_contract(N* f, N* l) {
    vf_ensure_l(f <= l, "find_if is called on a range");
    uint64_t p = vf_u64("first match", 0, VF_BIG);
    vf_assume(p <= uint64_t(l - f));
    vf_assume(find_post(f, l, f + p));
    return f + p;
}
#define FIND_CONTRACT vf_contract("std::__find_if<", "random_access_iterator_tag", reinterpret_cast<const void*>(&find_contract));
template <class C, int W> void finds() {
    NUMBERS
    before = vf_u64("x", 0, VF_BIG);
    vf_inst(before);
    auto i = W == 0 ? std::find(c.begin(), c.end(), NKey{}) : std::find_if(c.begin(), c.end(), NPred{});
    vf_inst(before / 4);
    vf_ensure(find_post(c.data(), c.data() + n, c.data() + (i - c.begin())));
}
HARNESS(C22_find_contract_pod_vector) { finds<pod_vector<N>, 0>(); }
HARNESS(C22_find_contract_vector) { finds<std::vector<N>, 0>(); }
HARNESS(C22_find_contract_if_pod_vector) { finds<pod_vector<N>, 1>(); }
HARNESS(C22_find_contract_if_vector) { finds<std::vector<N>, 1>(); }
// every element that stays does not match
template <class C, int W> void erases_only() {
    NUMBERS
    FIND_CONTRACT
    before = vf_u64("k", 0, VF_BIG);
    uint64_t r = erase_matching<C, W>(c), m = c.size(), k = before;
    vf_ensure_l(m <= n && r == n - m, "the number of elements removed is returned");
    if (k >= m) return;
    N v = c.begin()[k];
    vf_ensure_l(v < n && !NPred{}(v), "no matching element stays");
}
// neighbours in the result are in order, and everything between them matched (the ends count as neighbours)
template <class C, int W> void erases_between() {
    NUMBERS
    FIND_CONTRACT
    uint64_t x = before = vf_idx("x", n);
    N cx = c.begin()[x]; vf_ensure(cx == x);
    uint64_t r = erase_matching<C, W>(c), m = c.size();
    if (r > n) return;
    uint64_t k = vf_u64("k", 0, VF_BIG);
    if (k > m) return;
    uint64_t lo = 0, hi = n;                             // elements lo..hi-1 are between the neighbours
    if (k > 0) lo = c.begin()[k - 1] + 1;
    if (k < m) hi = c.begin()[k];
    vf_ensure_l(lo <= hi, "the elements that stay keep their order");
    if (x >= lo && x < hi) vf_ensure_l(NPred{}(x), "only matching elements are removed");
}
HARNESS(C22_erases_only_pod_vector) { erases_only<pod_vector<N>, 0>(); }
HARNESS(C22_erases_only_vector) { erases_only<std::vector<N>, 0>(); }
HARNESS(C22_erases_only_if_pod_vector) { erases_only<pod_vector<N>, 1>(); }
HARNESS(C22_erases_only_if_vector) { erases_only<std::vector<N>, 2>(); }
HARNESS(C22_erases_between_pod_vector) { erases_between<pod_vector<N>, 0>(); }
HARNESS(C22_erases_between_vector) { erases_between<std::vector<N>, 0>(); }
HARNESS(C22_erases_between_if_pod_vector) { erases_between<pod_vector<N>, 1>(); }
HARNESS(C22_erases_between_if_vector) { erases_between<std::vector<N>, 2>(); }
