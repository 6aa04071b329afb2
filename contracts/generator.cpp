// C25: generator runs its coroutine lazily, one step per request, and owns it
// STD: c++20
#include "obj.hpp"
#include <itlib/generator.hpp>

struct Err { uint32_t code; };
// What the coroutine body does is chosen anew for every step: yield a value, finish, or throw
enum { yield, finish, fail };
struct Script { int act; uint32_t val; uint64_t steps, locals; };
struct Local {                                           // a local of the coroutine
    Script* s; uint32_t live;
    explicit Local(Script& x) noexcept : s(&x), live(1) { vf_life_begin(this, sizeof(Local)); ++s->locals; }
    Local(const Local&) = delete;
    ~Local() { vf_life_check(this, sizeof(Local)); --s->locals; live = 0; vf_life_end(this, sizeof(Local)); }
    void use() const { vf_life_check(this, sizeof(Local)); vf_ensure_l(live == 1, "a suspended coroutine keeps its locals"); }
};
static uint32_t val(const char* n) { return uint32_t(vf_u64(n, 0, 0x7fffffff)); }
static void pick(Script& s) { s.act = int(vf_concrete(vf_u64("what the coroutine does next", 0, 2), 3)); s.val = val("value"); }

struct MO : Obj<1> {                                     // move-only value
    using Obj<1>::Obj;
    MO(MO&&) = default;
    MO(const MO&) = delete;
    MO& operator=(MO&&) = default;
};
// kinds of T: value, move-only value, reference to mutable, reference to const
static Obj<5>* g_slot;                                   // the object reference generators yield
template <typename T> struct K;
template <> struct K<Obj<1>> { static Obj<1> make(uint32_t v) { return Obj<1>(v); } };
template <> struct K<MO> { static MO make(uint32_t v) { return MO(v); } };
template <> struct K<Obj<5>&> { static Obj<5>& make(uint32_t v) { g_slot->v = v; return *g_slot; } };
template <> struct K<const Obj<5>&> { static const Obj<5>& make(uint32_t v) { g_slot->v = v; return *g_slot; } };

template <typename T>
static itlib::generator<T> coro(Script& s, Obj<2> arg, MO marg) {
    Local l(s);
    uint32_t a = arg.get();
    for (;;) {
        l.use();
        vf_ensure_l(arg.get() == a && marg.get() == a + 1, "a suspended coroutine keeps its arguments");
        ++s.steps;
        if (s.act == finish) co_return;
        if (s.act == fail) throw Err{s.val};
        co_yield K<T>::make(s.val);
    }
}
template <typename T> static itlib::generator<T> start(Script& s) {
    uint32_t a = val("argument");
    return coro<T>(s, Obj<2>(a), MO(a + 1));
}
template <typename T> constexpr bool isref = std::is_reference<T>::value;

// one step through next(), in which the body does what the script says
template <typename T> static bool step(itlib::generator<T>& g, Script& s) {
    uint64_t n = s.steps;
    bool thrown = false, has = false;
    try {
        auto r = g.next();
        has = bool(r);
        vf_ensure_l(r.has_value() == has, "has_value");
        if (has) {
            vf_ensure_l((*r).get() == s.val, "next() returns the value yielded");
            if constexpr (isref<T>) vf_ensure_l(&*r == g_slot, "a reference generator gives the object itself");
        }
    }
    catch (const Err& e) { thrown = true; vf_ensure_l(e.code == s.val, "the exception of the coroutine reaches the caller unchanged"); }
    vf_ensure_l(s.steps == n + 1, "next() runs the coroutine to its next suspension, once");
    vf_ensure_l(thrown == (s.act == fail), "an exception of the coroutine reaches the caller of next()");
    vf_ensure_l(has == (s.act == yield), "next() is empty exactly when the coroutine has finished");
    vf_ensure_l(g.done() == (s.act != yield), "done() after the coroutine ended, by return or by exception");
    vf_ensure_l(s.locals == (s.act == yield), "locals live exactly while the coroutine is suspended inside");
    vf_ensure_l(bool(g), "a generator that owns a coroutine is not empty");
    return s.act == yield;
}
// a finished coroutine is not run again
template <typename T> static void finished(itlib::generator<T>& g, Script& s) {
    uint64_t n = s.steps;
    auto r = g.next();
    vf_ensure_l(!r && !r.has_value() && g.done() && s.steps == n, "a finished coroutine stays finished");
}
// the states of a generator. As the body looks at nothing but the script, suspended after one step stands for suspended after any number of steps
enum { fresh, suspended, iterated, ended, kinds };
template <typename T> static bool put(itlib::generator<T>& g, Script& s, int k) {
    vf_ensure_l(!g.done() && s.steps == 0 && s.locals == 0, "nothing of the body runs before the first request");
    if (k == fresh) return true;
    if (k == ended) { s.act = vf_bool("ended by exception") ? fail : finish; s.val = val("code"); step(g, s); return true; }
    s.act = yield; s.val = val("first value");
    if (k == suspended) return step(g, s);
    auto i = g.begin();
    return !(i == g.end());
}
static int kind() { return int(vf_concrete(vf_u64("state of the generator", 0, kinds - 1), kinds)); }
#define ARB(T, g) int k_##g = kind(); Script s_##g{}; auto g = start<T>(s_##g); put(g, s_##g, k_##g);

template <typename T> static void t_next() {
    Obj<5> slot(0); g_slot = &slot;
    {
        ARB(T, g)
        vf_reach("state");
        if (k_g == ended) { finished(g, s_g); }
        else {
            pick(s_g);
            vf_ensure_l(!g.done(), "done() only after the end was reached");
            if (step(g, s_g)) { vf_reach("yielded"); pick(s_g); if (!step(g, s_g)) finished(g, s_g); }
            else { vf_reach("ended"); finished(g, s_g); }
        }
    }
    vf_ensure_l(vf_live_blocks() == 0, "the coroutine is destroyed with its generator");
}
HARNESS(C25_next_value) { t_next<Obj<1>>(); }
HARNESS(C25_next_move_only) { t_next<MO>(); }
HARNESS(C25_next_ref) { t_next<Obj<5>&>(); }
HARNESS(C25_next_const_ref) { t_next<const Obj<5>&>(); }

// the value taken out of next() is the caller's: it stays as it is when the generator goes on or dies
HARNESS(C25_value_outlives_generator) {
    {
        Script s{}; auto g = start<MO>(s);
        s.act = yield; s.val = val("v"); uint32_t v = s.val;
        auto r = g.next();
        MO mine = std::move(*r);
        if (vf_bool("continue")) { pick(s); try { g.next(); } catch (const Err&) {} }
        else g.reset();
        vf_ensure_l(mine.get() == v && bool(r), "a value returned belongs to the caller");
    }
    vf_ensure(vf_live_blocks() == 0);
}

template <typename T> static void t_iter() {
    Obj<5> slot(0); g_slot = &slot;
    {
        Script s{}; auto g = start<T>(s);
        bool fr = vf_bool("begin of a fresh generator");
        if (!fr) { s.act = yield; s.val = val("v0"); step(g, s); }
        uint64_t n = s.steps;
        pick(s);
        bool thrown = false;
        try {
            auto i = g.begin();
            vf_ensure_l(s.steps == n + 1, "begin() runs the coroutine to its next suspension, once");
            vf_ensure_l(s.act != fail, "an exception of the coroutine reaches the caller of begin()");
            bool at_end = i == g.end();
            vf_ensure_l(at_end == (s.act == finish) && at_end == (g.end() == i) && at_end != (i != g.end()) && at_end != (g.end() != i), "the end is reached exactly when the coroutine has finished");
            if (!at_end) {
                for (int j = 0; j < 2; ++j) {
                    vf_ensure_l((*i).get() == s.val, "operator* gives the value yielded, any number of times");
                    if constexpr (isref<T>) vf_ensure_l(&*i == g_slot, "a reference generator gives the object itself");
                }
                static_assert(std::is_same_v<decltype(*i), std::conditional_t<isref<T>, T, T&>>, "operator* gives a reference");
                vf_ensure_l(s.steps == n + 1, "operator* does not run the coroutine");
                pick(s);
                ++n;
                auto& r = ++i;
                vf_ensure_l(&r == &i && s.steps == n + 1, "operator++ runs the coroutine to its next suspension, once");
                vf_ensure_l(s.act != fail, "an exception of the coroutine reaches the caller of operator++");
                vf_ensure_l((i == g.end()) == (s.act == finish), "the end is reached exactly when the coroutine has finished");
                if (i != g.end()) { vf_ensure_l((*i).get() == s.val, "operator* gives the value yielded, any number of times"); vf_reach("second value"); }
            }
        }
        catch (const Err& e) { thrown = true; vf_reach("thrown"); vf_ensure_l(s.act == fail && e.code == s.val, "the exception of the coroutine reaches the caller unchanged"); vf_ensure_l(s.steps == n + 1, "one step"); }
        vf_ensure_l(thrown == (s.act == fail), "exceptions are reported");
        vf_ensure_l(g.done() == (s.act != yield) && s.locals == (s.act == yield), "locals live exactly while the coroutine is suspended inside");
        if (g.done()) finished(g, s);
    }
    vf_ensure_l(vf_live_blocks() == 0, "the coroutine is destroyed with its generator");
}
HARNESS(C25_iterate_value) { t_iter<Obj<1>>(); }
HARNESS(C25_iterate_move_only) { t_iter<MO>(); }
HARNESS(C25_iterate_ref) { t_iter<Obj<5>&>(); }
HARNESS(C25_iterate_const_ref) { t_iter<const Obj<5>&>(); }

// go on with a generator in the state given
template <typename T> static void goes_on(itlib::generator<T>& g, Script& s, int k) {
    vf_ensure_l(bool(g), "owns the coroutine");
    vf_ensure_l(g.done() == (k == ended), "the state of the coroutine is kept");
    vf_ensure_l(s.locals == (k == suspended || k == iterated), "the coroutine is kept as it is");
    if (k == ended) return finished(g, s);
    pick(s);
    step(g, s);
}
HARNESS(C25_move_construct) {
    {
        ARB(Obj<1>, a)
        uint64_t n = s_a.steps;
        auto b(std::move(a));
        vf_ensure_l(!a && s_a.steps == n, "moving transfers the coroutine and leaves the source empty");
        goes_on(b, s_a, k_a);
        a.reset();
        vf_ensure(!a);
    }
    vf_ensure_l(vf_live_blocks() == 0, "the coroutine is destroyed once");
}
template <typename T> static void t_assign(int mode) {
    Obj<5> slot(0); g_slot = &slot;
    {
        ARB(T, a)
        ARB(T, b)
        if (mode == 1) { b.reset(); vf_ensure(s_b.locals == 0); }          // to an empty generator
        if (mode == 2) { a.reset(); vf_ensure(s_a.locals == 0); }          // from an empty generator
        uint64_t na = s_a.steps, nb = s_b.steps;
        auto& r = (b = std::move(a));
        vf_ensure_l(&r == &b && !a, "move assignment leaves the source empty");
        vf_ensure_l(s_b.locals == 0, "move assignment destroys the coroutine held before");
        vf_ensure_l(s_a.steps == na && s_b.steps == nb, "moving runs nothing");
        vf_ensure(vf_live_blocks() == (mode != 2));
        if (mode == 2) vf_ensure(!b);
        else goes_on(b, s_a, k_a);
    }
    vf_ensure_l(vf_live_blocks() == 0, "the coroutine is destroyed once");
}
HARNESS(C25_move_assign) { t_assign<Obj<1>>(0); }
HARNESS(C25_move_assign_ref) { t_assign<Obj<5>&>(0); }
HARNESS(C25_move_assign_to_empty) { t_assign<Obj<1>>(1); }
HARNESS(C25_move_assign_from_empty) { t_assign<Obj<1>>(2); }
HARNESS(C25_self_move_assign) {
    {
        ARB(Obj<1>, a)
        auto& same = a;
        a = std::move(same);
        vf_ensure_l(!a || a.done() == (k_a == ended), "self move leaves a valid generator");
        if (a) goes_on(a, s_a, k_a);
    }
    vf_ensure_l(vf_live_blocks() == 0, "the coroutine is destroyed once");
}
HARNESS(C25_reset_and_destroy) {
    {
        Script s{};
        {
            auto g = start<Obj<1>>(s);
            put(g, s, kind());
            uint64_t n = s.steps;
            if (vf_bool("reset")) {
                g.reset();
                vf_ensure_l(!g && s.locals == 0 && vf_live_blocks() == 0, "reset destroys the coroutine");
                g.reset();
                vf_ensure_l(!g, "reset of an empty generator does nothing");
            }
            vf_ensure_l(s.steps == n, "destroying runs nothing");
        }
        vf_ensure_l(s.locals == 0, "the generator destroys the coroutine and its locals");
    }
    vf_ensure(vf_live_blocks() == 0);
}
static_assert(!std::is_copy_constructible_v<itlib::generator<int>> && !std::is_copy_assignable_v<itlib::generator<int>>, "move-only");

// next() in a loop: the values come in order, for any number of them
struct Count { uint64_t i, n; };
static itlib::generator<uint64_t> upto(Count& c) { for (; c.i < c.n; ++c.i) co_yield c.i; }
HARNESS(C25_all_in_order) {
    {
        Count c{0, vf_u64("n", 0, VF_BIG)};
        vf_limit(c.n);
        auto g = upto(c);
        uint64_t cnt = 0;
        while (auto v = g.next()) { vf_ensure_l(*v == cnt, "the values come in the order in which they are yielded"); ++cnt; }
        vf_ensure_l(cnt == c.n, "as many values as the coroutine yields");
        vf_ensure(g.done());
    }
    vf_ensure(vf_live_blocks() == 0);
}
