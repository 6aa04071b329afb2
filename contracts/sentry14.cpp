// C18: sentry before C++17: movable; elided and actual moves
// STD: c++14
// FLAGS: -fno-elide-constructors
#include "vf.hpp"
#include <itlib/sentry.hpp>
#include "sentry.inc"
HARNESS(C18_14_scope_exit) { SCOPE_EXIT }
HARNESS(C18_14_early_return) { EARLY_RETURN }
HARNESS(C18_14_exception) { EXCEPTION }
HARNESS(C18_14_lvalue_func) { LVALUE_FUNC }
HARNESS(C18_14_rvalue_func) { RVALUE_FUNC }
HARNESS(C18_14_nested) { NESTED }
HARNESS(C18_14_func_pointer) { FUNC_POINTER }

// One move from a guard in any state (it has the duty, or has given it away). A chain of moves is a sequence of these.
HARNESS(C18_14_move_step) {
    uint32_t n = 0, id = val("id");
    bool has = vf_bool("has");
    alignas(8) char buf[3][sizeof(itlib::sentry<Fn>)];
    using S = itlib::sentry<Fn>;
    S* a = new (buf[0]) S(Fn(&n, id));
    S* other = nullptr;
    if (!has) other = new (buf[1]) S(std::move(*a));    // a gave its duty away
    vf_ensure_l(n == 0, "moving a guard does not call");
    S* b = new (buf[2]) S(std::move(*a));
    vf_ensure_l(n == 0, "moving a guard does not call");
    bool first = vf_bool("source dies first");
    if (first) { a->~S(); vf_ensure_l(n == 0, "a guard without the duty does not call"); }
    b->~S();
    vf_ensure_l(n == (has ? id : 0), "the duty to call moves along");
    if (!first) { a->~S(); vf_ensure_l(n == (has ? id : 0), "a guard without the duty does not call"); }
    if (other) { other->~S(); vf_ensure_l(n == id, "the duty to call is neither lost nor duplicated"); }
}
HARNESS(C18_14_move_lvalue_step) {
    uint32_t n = 0, id = val("id");
    bool has = vf_bool("has");
    Fn f(&n, id);
    alignas(8) char buf[3][sizeof(itlib::sentry<Fn&>)];
    using S = itlib::sentry<Fn&>;
    S* a = new (buf[0]) S(f);
    S* other = nullptr;
    if (!has) other = new (buf[1]) S(std::move(*a));
    S* b = new (buf[2]) S(std::move(*a));
    vf_ensure_l(n == 0 && f.state == 1 && f.own == 0, "moving a guard does not touch the function it refers to");
    if (vf_bool("source dies first")) { a->~S(); b->~S(); } else { b->~S(); a->~S(); }
    vf_ensure_l(n == (has ? id : 0), "the duty to call moves along");
    if (other) other->~S();
    vf_ensure_l(n == id && f.own == 1 && f.state == 1, "called exactly once");
}
static itlib::sentry<Fn> pass(itlib::sentry<Fn> s) { return s; }
HARNESS(C18_14_through_function) {
    uint32_t n = 0, id = val("id");
    {
        auto s = pass(itlib::make_sentry(Fn(&n, id)));
        vf_ensure_l(n == 0, "not called before the scope is left");
    }
    vf_ensure_l(n == id, "called exactly once when the scope is left");
}
