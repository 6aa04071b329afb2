// C13: expected<T,E> and its specialisations hold exactly one live value or error
// STD: c++17
#include "obj.hpp"
#include <itlib/expected.hpp>
using namespace itlib;

using V = Obj<1>;
using E = Obj<2>;

// a copy may fail
struct Thr {
    uint32_t v;
    Thr(uint32_t x) { if (x > 1000) throw 1; vf_life_begin(this, sizeof(Thr)); v = x; }
    Thr(const Thr& o) { vf_life_check(&o, sizeof(Thr)); if (vf_nondet("copy throws")) throw 1; vf_life_begin(this, sizeof(Thr)); v = o.v; }
    Thr(Thr&& o) noexcept { vf_life_check(&o, sizeof(Thr)); vf_life_begin(this, sizeof(Thr)); v = o.v; }
    Thr& operator=(const Thr& o) { vf_life_check(this, sizeof(Thr)); vf_life_check(&o, sizeof(Thr)); if (vf_nondet("assignment throws")) throw 1; v = o.v; return *this; }
    Thr& operator=(Thr&& o) noexcept { vf_life_check(this, sizeof(Thr)); vf_life_check(&o, sizeof(Thr)); v = o.v; return *this; }
    ~Thr() { vf_life_end(this, sizeof(Thr)); }
};

static uint32_t val(const char* n) { return uint32_t(vf_u64(n, 0, 0xdeadbeee)); }

// ---------------------------------------------------------------------------- expected<T,E>
using X = expected<V, E>;
static X mkX(bool h, uint32_t x) { if (h) return X(V(x)); return X(unexpected(E(x))); }
template <typename Y> static void isX(const Y& y, bool h, uint32_t x) {
    vf_ensure_l(y.has_value() == h && y.has_error() == !h && bool(y) == h, "state is the specified one");
    if (h) vf_ensure_l(y.value().get() == x && (*y).get() == x && y->get() == x, "value is the specified one");
    else vf_ensure_l(y.error().get() == x, "error is the specified one");
}
#define ARB(x, h, e) bool h = vf_bool(#h); uint32_t e = val(#e); X x = mkX(h, e); isX(x, h, e);

HARNESS(C13_te_construct) {
    uint32_t a = val("a");
    X d; isX(d, true, 77);
    X v{V(a)}; isX(v, true, a);
    V src(a); X m(std::move(src)); isX(m, true, a); src.use();
    X e(unexpected(E(a))); isX(e, false, a);
    X e2(unexpected()); isX(e2, false, 77);
    X e3 = unexpected(uint32_t(a)); isX(e3, false, a);
}
HARNESS(C13_te_lvalue_error) {
    uint32_t a = val("a");
    E err(a);
    X e(unexpected(err)); isX(e, false, a);
    vf_ensure_l(err.get() == a, "an lvalue error is copied, not moved from");
    const E cerr(a);
    X e2(unexpected(cerr)); isX(e2, false, a);
    vf_ensure_l(cerr.get() == a, "an lvalue error is copied, not moved from");
    e2 = unexpected(err); isX(e2, false, a);
    vf_ensure_l(err.get() == a, "an lvalue error is copied, not moved from");
    X m(unexpected(std::move(err))); isX(m, false, a);
}
HARNESS(C13_te_move_construct) {
    ARB(x, h, a)
    X y(std::move(x));
    isX(y, h, a);
    vf_ensure(x.has_value() == h);
    X z(std::move(y));
    isX(z, h, a);
}
HARNESS(C13_te_move_assign) {
    ARB(x, h, a) ARB(y, g, b)
    X& r = (x = std::move(y));
    vf_ensure(&r == &x);
    isX(x, g, b);
    vf_ensure(y.has_value() == g);
    uint32_t c = val("c"); bool k = vf_bool("k");
    y = mkX(k, c);                                      // a moved-from object is assignable
    isX(y, k, c); isX(x, g, b);
}
// value and error of different sizes, either way round
struct Big : E { uint64_t pad; Big(uint32_t x) noexcept : E(x), pad(x) {} };
template <typename A, typename B> static void sized() {
    using Y = expected<A, B>;
    bool h = vf_bool("h"), g = vf_bool("g"); uint32_t a = val("a"), b = val("b");
    auto mk = [](bool k, uint32_t q) { if (k) return Y(A(q)); return Y(unexpected(B(q))); };
    auto is = [](const Y& y, bool k, uint32_t q) {
        vf_ensure_l(y.has_value() == k && y.has_error() == !k, "state is the specified one");
        if (k) vf_ensure_l(y.value().get() == q, "value is the specified one"); else vf_ensure_l(y.error().get() == q, "error is the specified one"); };
    Y x = mk(h, a), y = mk(g, b);
    is(x, h, a); is(y, g, b);
    x = std::move(y);
    is(x, g, b);
    vf_ensure_l(y.has_value() == g, "a moved-from object keeps its state");
    Y z(std::move(x));
    is(z, g, b);
    vf_ensure_l(x.has_value() == g, "a moved-from object keeps its state");
    x = mk(h, a); is(x, h, a);
    std::swap(x, z); is(x, g, b); is(z, h, a);
}
HARNESS(C13_te_small_value) { sized<V, Big>(); }
HARNESS(C13_te_small_error) { sized<Big, E>(); }
HARNESS(C13_te_self_move) {
    ARB(x, h, a)
    X& y = x;
    x = std::move(y);
    vf_ensure(x.has_value() == h);
}
HARNESS(C13_te_swap) {
    ARB(x, h, a) ARB(y, g, b)
    std::swap(x, y);
    isX(x, g, b); isX(y, h, a);
}
HARNESS(C13_te_assign_from) {
    ARB(x, h, a)
    uint32_t b = val("b");
    V v(b);
    x = std::move(v); isX(x, true, b); v.use();
    E e(b);
    x = unexpected(std::move(e)); isX(x, false, b); e.use();
    x = unexpected(); isX(x, false, 77);
    x = X(); isX(x, true, 77);
}
HARNESS(C13_te_access) {
    ARB(x, h, a)
    const X& c = x;
    uint32_t b = val("b");
    if (h) {
        V* p = &x.value();
        vf_ensure(&*x == p && x.operator->() == p && &c.value() == p && &*c == p && c.operator->() == p);
        V&& r1 = std::move(x).value(); V&& r2 = *std::move(x);
        vf_ensure(&r1 == p && &r2 == p);
        isX(x, true, a);
        x.value() = V(b); isX(x, true, b);
        x->v = a; isX(x, true, a);
        V out = std::move(x).value(); vf_ensure(out.get() == a); vf_ensure(x.has_value());
    }
    else {
        E* p = &x.error();
        vf_ensure(&c.error() == p);
        E&& r = std::move(x).error();
        vf_ensure(&r == p);
        isX(x, false, a);
        x.error() = E(b); isX(x, false, b);
        E out = std::move(x).error(); vf_ensure(out.get() == b); vf_ensure(x.has_error());
    }
}
HARNESS(C13_te_value_or) {
    ARB(x, h, a)
    uint32_t b = val("b");
    V alt(b);
    const X& c = x;
    { V r = c.value_or(alt); vf_ensure(r.get() == (h ? a : b)); vf_ensure_l(alt.get() == b, "an lvalue alternative is not modified"); isX(x, h, a); }
    { V r = x.value_or(alt); vf_ensure(r.get() == (h ? a : b)); vf_ensure_l(alt.get() == b, "an lvalue alternative is not modified"); isX(x, h, a); }
    { V r = c.value_or(b); vf_ensure(r.get() == (h ? a : b)); isX(x, h, a); }
    { V r = c.value_or(V(b)); vf_ensure(r.get() == (h ? a : b)); isX(x, h, a); }
    { V r = std::move(x).value_or(alt); vf_ensure(r.get() == (h ? a : b)); vf_ensure_l(alt.get() == b, "an lvalue alternative is not modified"); vf_ensure(x.has_value() == h); }
    X y = mkX(h, a);
    { V r = std::move(y).value_or(V(b)); vf_ensure(r.get() == (h ? a : b)); vf_ensure(y.has_value() == h); }
    if (!h) { isX(x, false, a); isX(y, false, a); }
}
// same type for value and error
using XX = expected<V, V>;
HARNESS(C13_same_types) {
    bool h = vf_bool("h"), g = vf_bool("g"); uint32_t a = val("a"), b = val("b");
    XX x = h ? XX(V(a)) : XX(unexpected(V(a))); XX y = g ? XX(V(b)) : XX(unexpected(V(b)));
    isX(x, h, a);
    x = std::move(y);
    isX(x, g, b);
    XX z(std::move(x)); isX(z, g, b);
}
// trivially copyable payloads of different size
HARNESS(C13_scalar_payloads) {
    using S = expected<uint64_t, uint8_t>;
    bool h = vf_bool("h"), g = vf_bool("g"); uint64_t a = vf_u64("a", 0, VF_MAX), b = vf_u64("b", 0, VF_MAX);
    S x = h ? S(uint64_t(a)) : S(unexpected(uint8_t(a))), y = g ? S(uint64_t(b)) : S(unexpected(uint8_t(b)));
    S z(std::move(x));
    vf_ensure(z.has_value() == h && (h ? z.value() == a : z.error() == uint8_t(a)));
    z = std::move(y);
    vf_ensure(z.has_value() == g && (g ? z.value() == b : z.error() == uint8_t(b)));
    vf_ensure(z.value_or(a) == (g ? b : a));
}

// ---------------------------------------------------------------------------- expected<T&,E>
using R = expected<V&, E>;
static R mkR(bool h, V& t, uint32_t x) { if (h) return R(t); return R(unexpected(E(x))); }
static void isR(const R& y, bool h, V* t, uint32_t x) {
    vf_ensure_l(y.has_value() == h && y.has_error() == !h && bool(y) == h, "state is the specified one");
    if (h) vf_ensure_l(&y.value() == t && &*y == t && y.operator->() == t, "refers to the specified object");
    else vf_ensure_l(y.error().get() == x, "error is the specified one");
}
#define RARB(x, t, h, e) bool h = vf_bool(#h); uint32_t e = val(#e); R x = mkR(h, t, e); isR(x, h, &t, e);
HARNESS(C13_ref_construct) {
    uint32_t a = val("a");
    V t(5);
    R r(t); isR(r, true, &t, 0); vf_ensure(t.get() == 5);
    E err(a);
    R e(unexpected(err)); isR(e, false, nullptr, a);
    vf_ensure_l(err.get() == a, "an lvalue error is copied, not moved from");
    R e2(unexpected(std::move(err))); isR(e2, false, nullptr, a); err.use();
    R e3 = unexpected(uint32_t(a)); isR(e3, false, nullptr, a);
    R e4 = unexpected(); isR(e4, false, nullptr, 77);
    isR(e, false, nullptr, a);
}
HARNESS(C13_ref_move) {
    V s(5), t(6);
    RARB(x, s, h, a) RARB(y, t, g, b)
    R m(std::move(x)); isR(m, h, &s, a);
    vf_ensure(x.has_value() == h);
    R& r = (m = std::move(y)); vf_ensure(&r == &m);
    isR(m, g, &t, b);
    vf_ensure(y.has_value() == g);
    vf_ensure(s.get() == 5 && t.get() == 6);
    y = mkR(h, s, a); isR(y, h, &s, a); isR(m, g, &t, b);
}
HARNESS(C13_ref_self_swap) {
    V s(5), t(6);
    RARB(x, s, h, a) RARB(y, t, g, b)
    std::swap(x, y);
    isR(x, g, &t, b); isR(y, h, &s, a);
    R& z = x; x = std::move(z);
    vf_ensure(x.has_value() == g);
    if (g) isR(x, true, &t, b);
    vf_ensure(s.get() == 5 && t.get() == 6);
}
HARNESS(C13_ref_access) {
    V s(5), t(6);
    RARB(x, s, h, a)
    vf_ensure(&x.value_or(t) == (h ? &s : &t));
    uint32_t b = val("b");
    if (h) { x->v = b; vf_ensure(s.get() == b && t.get() == 6); isR(x, true, &s, 0); }
    else {
        E* p = &x.error(); const R& c = x; vf_ensure(&c.error() == p);
        E&& r = std::move(x).error(); vf_ensure(&r == p); isR(x, false, nullptr, a);
        x.error() = E(b); isR(x, false, nullptr, b);
    }
}

// ---------------------------------------------------------------------------- expected<void,E>
using W = expected<void, E>;
static W mkW(bool h, uint32_t x) { if (h) return W(); return W(unexpected(E(x))); }
static void isW(const W& y, bool h, uint32_t x) {
    vf_ensure_l(y.has_value() == h && y.has_error() == !h && bool(y) == h, "state is the specified one");
    if (!h) vf_ensure_l(y.error().get() == x, "error is the specified one");
}
#define WARB(x, h, e) bool h = vf_bool(#h); uint32_t e = val(#e); W x = mkW(h, e); isW(x, h, e);
HARNESS(C13_void_construct) {
    uint32_t a = val("a");
    W d; isW(d, true, 0);
    E err(a);
    W e(unexpected(err)); isW(e, false, a);
    vf_ensure_l(err.get() == a, "an lvalue error is copied, not moved from");
    W e2(unexpected(std::move(err))); isW(e2, false, a); err.use();
    W e3 = unexpected(uint32_t(a)); isW(e3, false, a);
    W e4 = unexpected(); isW(e4, false, 77);
}
HARNESS(C13_void_move) {
    WARB(x, h, a) WARB(y, g, b)
    W m(std::move(x)); isW(m, h, a);
    vf_ensure(x.has_value() == h);
    W& r = (m = std::move(y)); vf_ensure(&r == &m);
    isW(m, g, b);
    vf_ensure(y.has_value() == g);
    y = mkW(h, a); isW(y, h, a); isW(m, g, b);
}
HARNESS(C13_void_self_swap) {
    WARB(x, h, a) WARB(y, g, b)
    std::swap(x, y);
    isW(x, g, b); isW(y, h, a);
    W& z = x; x = std::move(z);
    vf_ensure(x.has_value() == g);
}
HARNESS(C13_void_access) {
    WARB(x, h, a)
    if (h) return;
    uint32_t b = val("b");
    E* p = &x.error(); const W& c = x; vf_ensure(&c.error() == p);
    E&& r = std::move(x).error(); vf_ensure(&r == p); isW(x, false, a);
    x.error() = E(b); isW(x, false, b);
    E out = std::move(x).error(); vf_ensure(out.get() == b && x.has_error());
}

// ---------------------------------------------------------------------------- expected<T,void> (eoptional)
using O = eoptional<V>;
static O mkO(bool h, uint32_t x) { if (h) return O(V(x)); return O(unexpected()); }
template <typename Y> static void isO(const Y& y, bool h, uint32_t x) {
    vf_ensure_l(y.has_value() == h && y.has_error() == !h && bool(y) == h, "state is the specified one");
    if (h) vf_ensure_l(y.value().get() == x && (*y).get() == x && y->get() == x, "value is the specified one");
}
#define OARB(x, h, e) bool h = vf_bool(#h); uint32_t e = val(#e); O x = mkO(h, e); isO(x, h, e);
HARNESS(C13_opt_construct) {
    uint32_t a = val("a");
    O d; isO(d, true, 77);
    V s(a); O m(std::move(s)); isO(m, true, a); s.use();
    O e = unexpected(); isO(e, false, 0);
}
HARNESS(C13_opt_copy) {
    OARB(x, h, a) OARB(y, g, b)
    O m(x); isO(m, h, a); isO(x, h, a);
    O& r = (m = y); vf_ensure(&r == &m);
    isO(m, g, b); isO(y, g, b); isO(x, h, a);
    O& z = m; m = z; isO(m, g, b);
    y = x; isO(y, h, a); isO(m, g, b);
}
HARNESS(C13_opt_move) {
    OARB(x, h, a) OARB(y, g, b)
    O m(std::move(x)); isO(m, h, a);
    vf_ensure(x.has_value() == h);
    O& r = (m = std::move(y)); vf_ensure(&r == &m);
    isO(m, g, b);
    vf_ensure(y.has_value() == g);
    y = mkO(h, a); isO(y, h, a); isO(m, g, b);
    std::swap(y, m); isO(y, g, b); isO(m, h, a);
    O& z = m; m = std::move(z); vf_ensure(m.has_value() == h);
}
HARNESS(C13_opt_clear_emplace) {
    OARB(x, h, a)
    uint32_t b = val("b"), c = val("c");
    bool k = vf_bool("k");
    if (k) { x.clear(); isO(x, false, 0); x.clear(); isO(x, false, 0); }
    V s(b);
    x.emplace(s); isO(x, true, b); vf_ensure_l(s.get() == b, "an lvalue argument is copied, not moved from");
    x.emplace(std::move(s)); isO(x, true, b); s.use();
    x.emplace(b, c); isO(x, true, b ^ c);
    x.emplace(); isO(x, true, 77);
    x.clear(); isO(x, false, 0);
}
HARNESS(C13_opt_access) {
    OARB(x, h, a)
    const O& c = x;
    uint32_t b = val("b");
    V alt(b);
    { V r = c.value_or(alt); vf_ensure(r.get() == (h ? a : b)); vf_ensure_l(alt.get() == b, "an lvalue alternative is not modified"); isO(x, h, a); }
    { V r = x.value_or(b); vf_ensure(r.get() == (h ? a : b)); isO(x, h, a); }
    if (h) {
        V* p = &x.value();
        vf_ensure(&*x == p && x.operator->() == p && &c.value() == p && &*c == p && c.operator->() == p);
        V&& r1 = std::move(x).value(); V&& r2 = *std::move(x);
        vf_ensure(&r1 == p && &r2 == p);
        isO(x, true, a);
        x.value() = V(b); isO(x, true, b); x->v = a; isO(x, true, a);
    }
    { V r = std::move(x).value_or(alt); vf_ensure(r.get() == (h ? a : b)); vf_ensure_l(alt.get() == b, "an lvalue alternative is not modified"); vf_ensure(x.has_value() == h); }
    if (!h) { V r = std::move(x).value_or(V(b)); vf_ensure(r.get() == b); isO(x, false, 0); }
}
// a failing copy leaves either one live value or none
using Q = eoptional<Thr>;
HARNESS(C13_opt_throwing_copy) {
    bool h = vf_bool("h"), g = vf_bool("g");
    Q x = h ? Q(Thr(1)) : Q(unexpected()), y = g ? Q(Thr(2)) : Q(unexpected());
    bool thrown = false;
    try { x = y; } catch (int) { thrown = true; }
    vf_ensure(y.has_value() == g && (!g || y->v == 2));
    if (!thrown) vf_ensure(x.has_value() == g && (!g || x->v == 2));
    else if (x.has_value()) vf_ensure(x->v == 1 || x->v == 2);
}
HARNESS(C13_opt_throwing_construct) {
    bool g = vf_bool("g");
    Q y = g ? Q(Thr(2)) : Q(unexpected());
    try { Q x(y); vf_ensure(x.has_value() == g && (!g || x->v == 2)); } catch (int) { vf_ensure(g); }
    vf_ensure(y.has_value() == g && (!g || y->v == 2));
}
HARNESS(C13_opt_throwing_emplace) {
    bool h = vf_bool("h");
    Q x = h ? Q(Thr(1)) : Q(unexpected());
    uint32_t a = val("a");
    bool thrown = false;
    try { x.emplace(a); } catch (int) { thrown = true; }
    vf_ensure(thrown == (a > 1000));
    if (!thrown) vf_ensure(x.has_value() && x->v == a);
    else if (x.has_value()) vf_ensure(x->v == 1);
}

// ---------------------------------------------------------------------------- expected<T&,void>
using P = eoptional<V&>;
HARNESS(C13_optref) {
    V s(5), t(6);
    bool h = vf_bool("h"), g = vf_bool("g");
    P x = h ? P(s) : P(unexpected()), y = g ? P(t) : P(unexpected());
    auto is = [](const P& p, V* v) {
        vf_ensure_l(p.has_value() == !!v && p.has_error() == !v && bool(p) == !!v, "state is the specified one");
        if (v) vf_ensure_l(&p.value() == v && &*p == v && p.operator->() == v, "refers to the specified object");
    };
    V *ps = h ? &s : nullptr, *pt = g ? &t : nullptr;
    is(x, ps); is(y, pt);
    vf_ensure(&x.value_or(t) == (h ? &s : &t));
    P c(x); is(c, ps); is(x, ps);
    P m(std::move(c)); is(m, ps);
    m = y; is(m, pt); is(y, pt);
    m = std::move(x); is(m, ps);
    m.clear(); is(m, nullptr);
    m.emplace(t); is(m, &t);
    m.emplace(s); is(m, &s);
    vf_ensure(s.get() == 5 && t.get() == 6);
}
// ---------------------------------------------------------------------------- expected<void,void>
HARNESS(C13_voidvoid) {
    using B = expected<void, void>;
    bool h = vf_bool("h"), g = vf_bool("g");
    B x = h ? B() : B(unexpected()), y = g ? B() : B(unexpected());
    auto is = [](const B& b, bool v) { vf_ensure_l(b.has_value() == v && b.has_error() == !v && bool(b) == v, "state is the specified one"); };
    is(x, h); is(y, g);
    B c(x); is(c, h); is(x, h);
    B m(std::move(c)); is(m, h);
    m = y; is(m, g); is(y, g);
    m = std::move(x); is(m, h);
    m.clear(); is(m, false);
    m.emplace(); is(m, true);
}
