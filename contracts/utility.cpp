// C30: owner_from_member, bit_cast and force_move reach exactly the object given
#include "obj.hpp"
#include <itlib/utility.hpp>

struct In { uint8_t a; uint64_t b; };
struct Own { uint32_t first; uint8_t tiny; In in; uint16_t arr[5]; uint64_t last; };
struct Base1 { uint64_t x; }; struct Base2 { uint32_t y; };
struct Multi : Base1, Base2 { uint8_t m; uint32_t k; };
HARNESS(C30_owner_from_member) {
    uint64_t n = vf_u64("n", 1, VF_BIG); vf_limit(n);
    Own* o = static_cast<Own*>(vf_array("owners", n * sizeof(Own), 1, alignof(Own)));
    uint64_t i = vf_idx("i", n);
    vf_ensure_l(itlib::owner_from_member(o[i].first, &Own::first) == o + i, "the object whose member it is");
    vf_ensure_l(itlib::owner_from_member(o[i].tiny, &Own::tiny) == o + i, "the object whose member it is");
    vf_ensure_l(itlib::owner_from_member(o[i].in, &Own::in) == o + i, "the object whose member it is");
    vf_ensure_l(itlib::owner_from_member(o[i].arr, &Own::arr) == o + i, "the object whose member it is");
    vf_ensure_l(itlib::owner_from_member(o[i].last, &Own::last) == o + i, "the object whose member it is");
    Multi m;
    vf_ensure_l(itlib::owner_from_member(m.k, &Multi::k) == &m && itlib::owner_from_member(m.m, &Multi::m) == &m, "the object whose member it is");
}
// members beyond every round offset
template <uint64_t PAD> struct Far { char pad[PAD]; uint8_t b; uint64_t w; };
template <uint64_t PAD> void far_member() {
    static Far<PAD> obj; auto o = &obj;
    vf_ensure_l(itlib::owner_from_member(o->b, &Far<PAD>::b) == o && itlib::owner_from_member(o->w, &Far<PAD>::w) == o, "the object whose member it is, whatever its offset");
}
HARNESS(C30_owner_from_far_member) {
    far_member<1>(); far_member<120>(); far_member<127>(); far_member<128>(); far_member<255>(); far_member<256>(); far_member<1000>();
    far_member<32760>(); far_member<32768>(); far_member<65528>(); far_member<65536>(); far_member<70001>();
}
HARNESS(C30_owner_from_very_far_member) {
    far_member<(1u << 20) + 3>(); far_member<(1u << 24) + 5>();
}
// every size: the bytes arrive in place
template <unsigned N> struct By { uint8_t b[N]; };
template <unsigned N> struct By2 { char c[N]; };
template <unsigned N> void cast_bytes() {
    By<N> x; for (unsigned i = 0; i < N; ++i) x.b[i] = uint8_t(i * 7 + 1);
    uint64_t k = N < 16 ? vf_concrete(vf_idx("k", N), N) : vf_concrete(vf_idx("k", 2), 2) ? N - 1 : N / 2;
    uint8_t v = uint8_t(vf_u64("v", 0, 255)); x.b[k] = v;
    By2<N> y = itlib::bit_cast<By2<N>>(x);
    By<N> z = itlib::bit_cast<By<N>>(y);
    for (unsigned i = 0; i < N; ++i) {
        uint8_t e = i == k ? v : uint8_t(i * 7 + 1);
        vf_ensure_l(uint8_t(y.c[i]) == e, "every byte of the source, in place");
        vf_ensure_l(z.b[i] == e && x.b[i] == e, "casting back gives the source");
    }
}
HARNESS(C30_bit_cast_1_8) { switch (vf_concrete(vf_u64("size", 0, 5), 6)) { case 0: cast_bytes<1>(); break; case 1: cast_bytes<2>(); break; case 2: cast_bytes<3>(); break; case 3: cast_bytes<4>(); break; case 4: cast_bytes<5>(); break; default: cast_bytes<8>(); } }
HARNESS(C30_bit_cast_9_33) { switch (vf_concrete(vf_u64("size", 0, 3), 4)) { case 0: cast_bytes<9>(); break; case 1: cast_bytes<17>(); break; case 2: cast_bytes<28>(); break; default: cast_bytes<33>(); } }
HARNESS(C30_bit_cast_65) { cast_bytes<65>(); }
struct Four { uint8_t b[4]; };
struct Odd { uint8_t b[7]; }; struct Odd2 { char c[7]; };
HARNESS(C30_bit_cast) {
    uint32_t x = uint32_t(vf_u64("x", 0, 0xffffffff));
    Four f = itlib::bit_cast<Four>(x);
    uint64_t k = vf_concrete(vf_idx("k", 4), 4);
    vf_ensure_l(f.b[k] == uint8_t(x >> (8 * k)), "every byte of the source, in place");
    vf_ensure_l(itlib::bit_cast<uint32_t>(f) == x, "casting back gives the source");
    vf_ensure_l(itlib::bit_cast<int32_t>(x) == int32_t(x), "the same representation");
    vf_ensure_l(itlib::bit_cast<uint32_t>(itlib::bit_cast<float>(x)) == x, "casting back gives the source");
    Odd o; uint8_t v = uint8_t(vf_u64("v", 0, 127)); for (int i = 0; i < 7; ++i) o.b[i] = uint8_t(i * 3);
    o.b[6] = v;
    Odd2 p = itlib::bit_cast<Odd2>(o);
    vf_ensure_l(p.c[6] == char(v) && p.c[0] == 0 && p.c[5] == 15 && o.b[6] == v, "every byte of the source, in place");
}
HARNESS(C30_force_move) {
    uint32_t x = uint32_t(vf_u64("x", 0, 0x7fffffff));
    Obj<1> a(x);
    auto&& r = itlib::force_move(a);
    auto&& r2 = itlib::force_move(std::move(a));
    vf_ensure_l(&r2 == &a, "force_move gives the object itself");
    bool rv = std::is_same<decltype(itlib::force_move(a)), Obj<1>&&>::value, rv2 = std::is_same<decltype(itlib::force_move(std::move(a))), Obj<1>&&>::value;
    vf_ensure_l(rv && rv2, "force_move gives a modifiable rvalue");
    vf_ensure_l(&r == &a && a.get() == x, "force_move gives the object itself");
    Obj<1> b(itlib::force_move(a));
    vf_ensure_l(b.get() == x && a.get() == Obj<1>::MOVED, "initialising from force_move moves");
    Obj<1> c(1u);
    c = itlib::force_move(b);
    vf_ensure_l(c.get() == x && b.get() == Obj<1>::MOVED, "assigning from force_move moves");
    Obj<1> d(itlib::force_move(itlib::force_move(c)));
    vf_ensure_l(d.get() == x && c.get() == Obj<1>::MOVED, "initialising from force_move moves");
    struct Inc;
    vf_ensure(itlib::make_nullptr<Inc>() == nullptr && itlib::make_nullptr<int>() == nullptr);
}
