// a function object with observable lifetime, which must not be called when moved from
struct Fn {
    uint32_t* calls; uint32_t id; uint32_t state;       // state 1: has its function, 2: moved from
    uint32_t own;                                       // modified by calls
    Fn(uint32_t* c, uint32_t i) noexcept { vf_life_begin(this, sizeof(Fn)); calls = c; id = i; state = 1; own = 0; }
    Fn(const Fn& o) noexcept { vf_life_check(&o, sizeof(Fn)); vf_life_begin(this, sizeof(Fn)); calls = o.calls; id = o.id; state = o.state; own = o.own; }
    Fn(Fn&& o) noexcept { vf_life_check(&o, sizeof(Fn)); vf_life_begin(this, sizeof(Fn)); calls = o.calls; id = o.id; state = o.state; own = o.own; o.state = 2; }
    ~Fn() { vf_life_check(this, sizeof(Fn)); state = 0; vf_life_end(this, sizeof(Fn)); }
    void operator()() { vf_life_check(this, sizeof(Fn)); vf_ensure_l(state == 1, "the function called still has its state"); ++own; *calls += id; }
};
static uint32_t val(const char* n) { return uint32_t(vf_u64(n, 1, 1000)); }

#define SCOPE_EXIT \
    uint32_t n = 0, id = val("id"); \
    { \
        auto s = itlib::make_sentry(Fn(&n, id)); \
        vf_ensure_l(n == 0, "not called before the scope is left"); \
    } \
    vf_ensure_l(n == id, "called exactly once when the scope is left"); \
    { \
        itlib::sentry<Fn> s(Fn(&n, 1)); \
        vf_ensure_l(n == id, "not called before the scope is left"); \
    } \
    vf_ensure_l(n == id + 1, "called exactly once when the scope is left");

static uint32_t early(uint32_t* n, uint32_t id, bool e) {
    auto s = itlib::make_sentry(Fn(n, id));
    if (e) return *n;
    *n += 5;
    return *n;
}
#define EARLY_RETURN \
    uint32_t n = 0, id = val("id"); bool e = vf_bool("early"); \
    uint32_t r = early(&n, id, e); \
    vf_ensure_l(r == (e ? 0 : 5), "not called before the scope is left"); \
    vf_ensure_l(n == r + id, "called exactly once when the scope is left");

static void thrower(uint32_t* n, uint32_t id, bool t) {
    auto s = itlib::make_sentry(Fn(n, id));
    if (t) throw 1;
    vf_ensure_l(*n == 0, "not called before the scope is left");
}
#define EXCEPTION \
    uint32_t n = 0, id = val("id"); bool t = vf_bool("throw"), caught = false; \
    try { thrower(&n, id, t); } catch (int) { caught = true; vf_ensure_l(n == id, "called before the exception is handled"); } \
    vf_ensure(caught == t); \
    vf_ensure_l(n == id, "called exactly once when the scope is left");

#define LVALUE_FUNC \
    uint32_t n = 0, id = val("id"); \
    Fn f(&n, id); \
    { \
        auto s = itlib::make_sentry(f); \
        vf_ensure_l(n == 0 && f.state == 1 && f.own == 0, "an lvalue function is not touched before the call"); \
        f.id = id + 1; \
    } \
    vf_ensure_l(n == id + 1, "an lvalue function is referenced"); \
    vf_ensure_l(f.own == 1 && f.state == 1, "an lvalue function is referenced and stays intact"); \
    { itlib::sentry<Fn&> s(f); } \
    vf_ensure(n == 2 * (id + 1) && f.own == 2 && f.state == 1);

#define RVALUE_FUNC \
    uint32_t n = 0, id = val("id"); \
    Fn f(&n, id); \
    { \
        auto s = itlib::make_sentry(std::move(f)); \
        vf_ensure_l(n == 0, "not called before the scope is left"); \
    } \
    vf_ensure_l(n == id, "called exactly once when the scope is left"); \
    vf_ensure_l(f.own == 0, "an rvalue function is moved into the guard");

#define NESTED \
    uint32_t n = 0; \
    { \
        auto a = itlib::make_sentry([&] { vf_ensure_l(n == 1, "inner guard first"); n = 2; }); \
        { \
            auto b = itlib::make_sentry([&] { vf_ensure(n == 0); n = 1; }); \
            vf_ensure(n == 0); \
        } \
        vf_ensure(n == 1); \
    } \
    vf_ensure(n == 2);

static uint32_t g_calls;
static void count_call() { ++g_calls; }
#define FUNC_POINTER \
    g_calls = 0; \
    { auto s = itlib::make_sentry(&count_call); vf_ensure(g_calls == 0); } \
    vf_ensure_l(g_calls == 1, "called exactly once when the scope is left");
