// C10: dynamic_bitset behaves as a sequence of bits
// STD: c++17
// OPTS: bits=1
// ASSUME: arguments passed by reference do not refer into the bitset (append to itself)
#include "vf.hpp"
#include <itlib/dynamic_bitset.hpp>
#include "stdvec.hpp"
using namespace itlib;
template <class W> using BS = dynamic_bitset<std::vector<W>>;

// An arbitrary bitset: N bits in words of arbitrary content, the unused bits of the last word included.
// b.test(j) is bit j%W of word j/W of that content (BIT).
#define STATE_(b, src, N, name) \
    POS(N, name "_size") vf_limit(N##_w_); \
    W* src = static_cast<W*>(vf_array(name, (N + wb - 1) / wb, sizeof(W), sizeof(W))); \
    BS<W> b; vf_std_vector(const_cast<std::vector<W>&>(b.buffer()), src, (N + wb - 1) / wb, (N + wb - 1) / wb + SPARE); b.resize(N);
#define SPARE 0
#define STATE STATE_(b, src, n, "b")
// an arbitrary position or size, as words and bits
#define POS(v, name) const uint64_t v##_w_ = vf_u64(name "_words", 0, VF_BIG / wb), v##_b_ = vf_u64(name "_bits", 0, wb - 1), v = v##_w_ * wb + v##_b_;
// prove it for the two cases separately
#define CASES(c) (void)vf_concrete((c) ? 1 : 0, 2);
#define WORD using W = decltype(w_); constexpr uint64_t wb = 8 * sizeof(W); (void)wb;
template <class W> bool bit(const W* src, uint64_t j) { constexpr uint64_t wb = 8 * sizeof(W); return (src[j / wb] & W(W(1) << (j % wb))) != 0; }
template <class F> void words(F f) {
    switch (vf_u64("word", 0, 3)) {
    case 0: f(uint8_t()); break;
    case 1: f(uint16_t()); break;
    case 2: f(uint32_t()); break;
    default: f(uint64_t()); break;
    }
}
// bit j of b is `v` for an arbitrary j
#define EACH POS(j, "j") if (j < cb.size())
#define CB const BS<W>& cb = b; (void)cb;

HARNESS(C10_state) {
    words([](auto w_) { WORD
        STATE CB
        vf_ensure(cb.size() == n && cb.empty() == (n == 0));
        vf_ensure(cb.word_size() == (n + wb - 1) / wb && cb.byte_size() == (n + 7) / 8);
        EACH { vf_ensure(cb.test(j) == bit(src, j)); vf_ensure(cb[j] == bit(src, j)); vf_ensure(bool(b[j]) == bit(src, j)); vf_ensure(b[j].test() == bit(src, j)); }
    });
}
HARNESS(C10_set) {
    words([](auto w_) { WORD
        STATE CB
        POS(i, "i") vf_assume(i < n);
        bool v = vf_bool("v");
        if (vf_bool("valued")) b.set(i, v); else if (v) b.set(i); else b.reset(i);
        vf_ensure(cb.size() == n);
        EACH vf_ensure(cb.test(j) == (j == i ? v : bit(src, j)));
    });
}
HARNESS(C10_set_by_reference) {
    words([](auto w_) { WORD
        STATE CB
        POS(i, "i") vf_assume(i < n);
        bool v = vf_bool("v");
        switch (vf_u64("how", 0, 2)) {
        case 0: b[i] = v; break;
        case 1: if (v) b[i].set(); else b[i].reset(); break;
        default: b[i].set(v); break;
        }
        vf_ensure(cb.size() == n);
        EACH vf_ensure(cb.test(j) == (j == i ? v : bit(src, j)));
    });
}
HARNESS(C10_flip) {
    words([](auto w_) { WORD
        STATE CB
        POS(i, "i") vf_assume(i < n);
        if (vf_bool("ref")) b[i].flip(); else b.flip(i);
        vf_ensure(cb.size() == n);
        EACH vf_ensure(cb.test(j) == (j == i ? !bit(src, j) : bit(src, j)));
    });
}
// every bit is v, whatever the unused bits of the last word
#define UNIFORM(v) \
    POS(n, "n") vf_assume(n > 0); vf_limit(n_w_); W stray = W(vf_u64("stray", 0, W(~W(0)))); \
    const W one = v ? W(~W(0)) : W(0); std::vector<W> t((n + wb - 1) / wb, one); \
    if (n % wb) { W low = W(W(W(1) << (n % wb)) - 1); t.back() = v ? W(stray | low) : W(stray & W(~low)); } \
    BS<W> b; b.assign(t); b.resize(n);
HARNESS(C10_all) {
    words([](auto w_) { WORD
        STATE CB
        bool r = cb.all();
        EACH vf_ensure(!r || cb.test(j));     // all() promises every bit
        vf_ensure(n || !r);
    });
}
HARNESS(C10_any) {
    words([](auto w_) { WORD
        STATE CB
        bool r = cb.any();
        vf_ensure(cb.none() == !r);
        EACH vf_ensure(r || !cb.test(j));     // !any() promises that no bit is set
        vf_ensure(n || !r);
    });
}
HARNESS(C10_all_true) {
    words([](auto w_) { WORD
        UNIFORM(true) CB
        vf_ensure(cb.all() && cb.any() && !cb.none());
        EACH vf_ensure(cb.test(j));
    });
}
HARNESS(C10_all_false) {
    words([](auto w_) { WORD
        UNIFORM(false) CB
        vf_ensure(!cb.any() && !cb.all() && cb.none());
        EACH vf_ensure(!cb.test(j));
    });
}
HARNESS(C10_resize) {
    words([](auto w_) { WORD
        const uint64_t spare = vf_u64("spare", 0, VF_BIG); vf_limit(spare);
#undef SPARE
#define SPARE spare
        STATE CB
#undef SPARE
#define SPARE 0
        POS(m, "m") vf_limit(m_w_);
        if (vf_bool("reserve")) b.reserve(m); b.resize(m);
        vf_ensure(cb.size() == m && cb.word_size() == (m + wb - 1) / wb && cb.empty() == (m == 0));
        EACH vf_ensure(cb.test(j) == (j < n && bit(src, j)));     // new bits are false
    });
}
HARNESS(C10_push_back) {
    words([](auto w_) { WORD
        STATE CB
        bool v = vf_bool("v");
        b.push_back(v);
        vf_ensure(cb.size() == n + 1 && cb.word_size() == n / wb + 1);
        EACH vf_ensure(cb.test(j) == (j == n ? v : bit(src, j)));
    });
}
HARNESS(C10_construct) {
    words([](auto w_) { WORD
        POS(n, "n") vf_limit(n_w_);
        W v = W(vf_u64("v", 0, W(~W(0))));
        BS<W> b(n, v); CB
        BS<W> z(n); const BS<W>& cz = z;
        vf_ensure(cb.size() == n && cz.size() == n && cb.word_size() == (n + wb - 1) / wb);
        EACH { vf_ensure(cb.test(j) == bit(&v, j % wb)); vf_ensure(!cz.test(j)); }
        BS<W> e; vf_ensure(e.size() == 0 && e.empty());
    });
}
HARNESS(C10_copy_move) {
    words([](auto w_) { WORD
        STATE CB
        STATE_(o, os, on, "other")
        const BS<W>& co = o;
        switch (vf_u64("how", 0, 3)) {
        case 0: { BS<W> c(cb); const BS<W>& cc = c; vf_ensure(cc.size() == n); EACH vf_ensure(cc.test(j) == bit(src, j)); break; }
        case 1: { BS<W> c(std::move(b)); const BS<W>& cc = c; vf_ensure(cc.size() == n && cb.size() == 0 && cb.empty()); POS(j, "j") if (j < n) vf_ensure(cc.test(j) == bit(src, j)); return; }
        case 2: { o = cb; vf_ensure(co.size() == n); EACH vf_ensure(co.test(j) == bit(src, j)); break; }
        default: { o = std::move(b); vf_ensure(co.size() == n && cb.size() == 0 && cb.empty()); POS(j, "j") if (j < n) vf_ensure(co.test(j) == bit(src, j)); return; }
        }
        vf_ensure(cb.size() == n);
        EACH vf_ensure(cb.test(j) == bit(src, j));
    });
}
HARNESS(C10_assign) {
    words([](auto w_) { WORD
        STATE CB
        POS(m, "m") vf_limit(m_w_);
        W* s2 = static_cast<W*>(vf_array("words", m, sizeof(W), sizeof(W)));
        std::vector<W> v; vf_std_vector(v, s2, m, m);
        b.assign(v);
        vf_ensure(cb.size() == m * wb && cb.word_size() == m);
        EACH vf_ensure(cb.test(j) == bit(s2, j));
    });
}
template <class W> void t_append() { constexpr uint64_t wb = 8 * sizeof(W);
    STATE CB
    STATE_(o, os, on, "other")
    const BS<W>& co = o;
    b.append(o);
    vf_ensure(cb.size() == n + on && cb.word_size() == (n + on + wb - 1) / wb);
    EACH { if (j < n) vf_ensure(cb.test(j) == bit(src, j)); else vf_ensure(cb.test(j) == bit(os, j - n)); }
    vf_ensure(co.size() == on);
    POS(k, "k") if (k < on) vf_ensure(co.test(k) == bit(os, k));
}
HARNESS(C10_append_8) { t_append<uint8_t>(); }
HARNESS(C10_append_16) { t_append<uint16_t>(); }
HARNESS(C10_append_32) { t_append<uint32_t>(); }
HARNESS(C10_append_64) { t_append<uint64_t>(); }
// The source position is written as the target position plus D words plus d bits (or minus D words plus d bits): every
// position is of one of the two forms, and d is then the padding between the words of the two bitsets.
template <class W, bool Up> void t_copy() { constexpr uint64_t wb = 8 * sizeof(W);
    STATE CB
    STATE_(o, os, on, "other")
    const BS<W>& co = o;
    POS(f, "from") POS(t, "to")
    const uint64_t D = vf_u64("D", 0, VF_BIG / wb), d = vf_u64("d", 0, wb - 1);
    if (!Up) vf_assume(f + d >= D * wb);
    const uint64_t p = Up ? f + d + D * wb : f + d - D * wb;
    vf_assume(f <= t && t <= n && p <= on && t - f <= on - p);
    b.copy(b.begin() + f, b.begin() + t, co.begin() + p);
    vf_ensure(cb.size() == n && cb.word_size() == (n + wb - 1) / wb);
    EACH { if (j < f || j >= t) vf_ensure(cb.test(j) == bit(src, j));
        else vf_ensure(cb.test(j) == bit(os, j - f + p)); }
    vf_ensure(co.size() == on);
    POS(k, "k") if (k < on) vf_ensure(co.test(k) == bit(os, k));
}
HARNESS(C10_copy_up_8) { t_copy<uint8_t, true>(); }
HARNESS(C10_copy_up_16) { t_copy<uint16_t, true>(); }
HARNESS(C10_copy_up_32) { t_copy<uint32_t, true>(); }
HARNESS(C10_copy_up_64) { t_copy<uint64_t, true>(); }
HARNESS(C10_copy_down_8) { t_copy<uint8_t, false>(); }
HARNESS(C10_copy_down_16) { t_copy<uint16_t, false>(); }
HARNESS(C10_copy_down_32) { t_copy<uint32_t, false>(); }
HARNESS(C10_copy_down_64) { t_copy<uint64_t, false>(); }
HARNESS(C10_iterators) {
    words([](auto w_) { WORD
        STATE CB
        POS(i, "i") vf_assume(i < n);
        auto it = b.begin() + ptrdiff_t(i); auto ct = cb.begin() + ptrdiff_t(i);
        vf_ensure(it - b.begin() == ptrdiff_t(i) && b.end() - it == ptrdiff_t(n - i) && (it == b.end()) == false && it != b.end());
        vf_ensure(bool(*it) == bit(src, i) && *ct == bit(src, i));
        const auto before = it++; vf_ensure(*before == bit(src, i) && it - before == 1);
        --it; vf_ensure(it == before); ++ct; ct--; vf_ensure(*ct == bit(src, i));
        bool v = vf_bool("v"); *it = v;
        EACH vf_ensure(cb.test(j) == (j == i ? v : bit(src, j)));
    });
}
