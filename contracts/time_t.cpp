// C21: time_t and duration conversions are exact
// STD: c++17
// ASSUME: gmtime_r, localtime_r, timegm, mktime and strftime are functions of their arguments (and of the process's time zone and locale, which do not change)
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE      // the verifier reads the definitions of std::string functions
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "vf.hpp"
#include <itlib/time_t.hpp>
#include <limits>
namespace ch = std::chrono;
using TT = itlib::time_t;
static_assert(sizeof(std::time_t) == 8, "");

constexpr int64_t MIN = std::numeric_limits<int64_t>::min(), MAX = std::numeric_limits<int64_t>::max();
inline int64_t any(const char* name) { return int64_t(vf_u64(name, 0, VF_MAX)); }
#define TIME(t, s) int64_t s = any(#s); const TT t = TT::from_seconds(s);

HARNESS(C21_conversion) {
    TT z;
    vf_ensure(z.seconds_since_epoch() == 0);
    int64_t s = any("s");
    auto t = TT::from_seconds(s);
    vf_ensure(t.seconds_since_epoch() == s && std::time_t(t) == s);
    const TT u(std::time_t{s});
    vf_ensure(u == t && u.seconds_since_epoch() == s && std::time_t(u) == s);
    TT c(u), d; d = c;
    vf_ensure(c == t && d == t && d.seconds_since_epoch() == s);
}
HARNESS(C21_comparison) {
    TIME(t, s) TIME(u, r)
    vf_ensure((t == u) == (s == r)); vf_ensure((t != u) == (s != r));
    vf_ensure((t < u) == (s < r)); vf_ensure((t <= u) == (s <= r));
    vf_ensure((t > u) == (s > r)); vf_ensure((t >= u) == (s >= r));
}
HARNESS(C21_now) {
    std::time_t a = std::time(nullptr);
    auto t = TT::now();
    std::time_t b = std::time(nullptr);
    vf_ensure(a <= t.seconds_since_epoch() && t.seconds_since_epoch() <= b);
}
// num/den: whole seconds truncate towards zero
template <class D> int64_t whole(int64_t c) {
    constexpr int64_t num = D::period::num, den = D::period::den;
    if (num == 1) return c / den;
    vf_assume(c <= MAX / num && c >= MIN / num);      // representable
    return c * num;
}
inline void fits_add(int64_t s, int64_t d) { vf_assume(d >= 0 ? s <= MAX - d : s >= MIN - d); }
inline void fits_sub(int64_t s, int64_t d) { vf_assume(d >= 0 ? s >= MIN + d : s <= MAX + d); }
template <class D> void durations() {
    TIME(t, s)
    auto c = typename D::rep(any("count"));
    D d(c);
    int64_t w = whole<D>(int64_t(c));
    if (vf_bool("add")) {
        fits_add(s, w);
        auto r = t + d;
        vf_ensure(r.seconds_since_epoch() == s + w && t.seconds_since_epoch() == s);
        TT q = t; auto& x = (q += d);
        vf_ensure(&x == &q && q == r);
        if (!(s == 0 && w == MIN)) vf_ensure((r - d) == t);          // mutually inverse
        if (w != MIN) { fits_sub(r.seconds_since_epoch(), s); vf_ensure((r - t) == ch::seconds(w)); }
    } else {
        fits_sub(s, w);
        auto r = t - d;
        vf_ensure(r.seconds_since_epoch() == s - w && t.seconds_since_epoch() == s);
        TT q = t; auto& x = (q -= d);
        vf_ensure(&x == &q && q == r);
        vf_ensure((r + d) == t);
    }
}
HARNESS(C21_seconds) { durations<ch::seconds>(); }
HARNESS(C21_milliseconds) { durations<ch::milliseconds>(); }
HARNESS(C21_nanoseconds) { durations<ch::nanoseconds>(); }
HARNESS(C21_minutes) { durations<ch::minutes>(); }
HARNESS(C21_hours) { durations<ch::hours>(); }
HARNESS(C21_seconds_int) { durations<ch::duration<int>>(); }
HARNESS(C21_minutes_short) { durations<ch::duration<short, std::ratio<60>>>(); }
HARNESS(C21_ticks_int) { durations<ch::duration<int, std::ratio<1, 50>>>(); }
// floating-point durations: whatever duration_cast makes of them
template <class P> void float_durations() {
    TIME(t, s)
    uint64_t bits = vf_u64("bits", 0, VF_MAX); double c;
    if (vf_native) c = double(int64_t(bits % 2000000) - 1000000) / 7; else __builtin_memcpy(&c, &bits, 8);
    ch::duration<double, P> d(c);
    int64_t w = ch::duration_cast<ch::seconds>(d).count();
    if (vf_bool("add")) { fits_add(s, w); vf_ensure((t + d).seconds_since_epoch() == s + w); TT q = t; q += d; vf_ensure(q == t + d); }
    else { fits_sub(s, w); vf_ensure((t - d).seconds_since_epoch() == s - w); TT q = t; q -= d; vf_ensure(q == t - d); }
}
HARNESS(C21_double_seconds) { float_durations<std::ratio<1>>(); }
HARNESS(C21_double_milliseconds) { float_durations<std::milli>(); }
HARNESS(C21_double_hours) { float_durations<std::ratio<3600>>(); }
HARNESS(C21_difference) {
    TIME(t, s) TIME(u, r)
    fits_sub(s, r);
    auto d = t - u;
    static_assert(std::is_same<decltype(d), TT::duration_type>::value, "");
    vf_ensure(d.count() == s - r);
    vf_ensure(u + d == t);
}
inline bool same(const std::tm& a, const std::tm& b) {
    return int(a.tm_sec == b.tm_sec) & int(a.tm_min == b.tm_min) & int(a.tm_hour == b.tm_hour) & int(a.tm_mday == b.tm_mday) & int(a.tm_mon == b.tm_mon)
        & int(a.tm_year == b.tm_year) & int(a.tm_wday == b.tm_wday) & int(a.tm_yday == b.tm_yday) & int(a.tm_isdst == b.tm_isdst) & int(a.tm_gmtoff == b.tm_gmtoff);
}
HARNESS(C21_gmtime) {
    TIME(t, s)
    std::tm e = {}; std::time_t x = s;
    if (!gmtime_r(&x, &e)) return;          // not representable
    std::tm r = t.gmtime();
    vf_ensure(same(r, e) && t.seconds_since_epoch() == s);
}
HARNESS(C21_localtime) {
    TIME(t, s)
    std::tm e = {}; std::time_t x = s;
    if (!localtime_r(&x, &e)) return;
    std::tm r = t.localtime();
    vf_ensure(same(r, e) && t.seconds_since_epoch() == s);
}
inline std::tm any_tm() {
    std::tm m = {};
    constexpr uint64_t I = 0xffffffff;
    m.tm_sec = int(vf_u64("sec", 0, I)); m.tm_min = int(vf_u64("min", 0, I)); m.tm_hour = int(vf_u64("hour", 0, I)); m.tm_mday = int(vf_u64("mday", 0, I));
    m.tm_mon = int(vf_u64("mon", 0, I)); m.tm_year = int(vf_u64("year", 0, I)); m.tm_wday = int(vf_u64("wday", 0, I)); m.tm_yday = int(vf_u64("yday", 0, I));
    m.tm_isdst = int(vf_u64("isdst", 0, 2)) - 1;
    return m;
}
HARNESS(C21_from_gmtime) {
    std::tm m = any_tm(), e = m;
    std::time_t x = timegm(&e);
    auto t = TT::from_gmtime(m);
    vf_ensure(t.seconds_since_epoch() == x);
    vf_ensure(same(m, e));                  // normalised
}
HARNESS(C21_from_localtime) {
    std::tm m = any_tm(), e = m;
    std::time_t x = mktime(&e);
    auto t = TT::from_localtime(m);
    vf_ensure(t.seconds_since_epoch() == x);
    vf_ensure(same(m, e));
}

// strftime: the text is an arbitrary function of format and time; every ordinary character of a format stands for itself
// BOUNDED: C21_strftime.* output of at most 4000 characters (real loop; every format, time and text)
#ifdef VF_SYMBOLIC
extern "C" { uint64_t vf_text_len(const char* format, const std::tm* m); const char* vf_text(const char* format, const std::tm* m); }
#else
#include <dlfcn.h>
#include <string>
static std::string the_text(const char* f, const std::tm* m) { std::string g = std::string("x") + f; static char buf[1 << 21]; size_t n = std::strftime(buf, sizeof buf - 1, g.c_str(), m); return n ? std::string(buf + 1, n - 1) : std::string(); }
static uint64_t vf_text_len(const char* f, const std::tm* m) { return the_text(f, m).size(); }
static const char* vf_text(const char* f, const std::tm* m) { static char t[1 << 21]; std::string x = the_text(f, m); std::memcpy(t, x.c_str(), x.size() + 1); return t; }
extern "C" size_t strftime(char* s, size_t max, const char* f, const struct tm* m) noexcept {
    using F = size_t (*)(char*, size_t, const char*, const struct tm*);
    static F real = F(dlsym(RTLD_NEXT, "strftime"));
    vf_ensure_l(max < (1 << 22), "strftime is repeated only while its output does not fit (termination)");
    return real(s, max, f, m);
}
#endif
HARNESS(C21_strftime) {
    uint64_t n = vf_u64("format_length", 0, VF_BIG); vf_limit(n);
    const char* f = vf_cstr("format", n);
    std::tm m = any_tm();
    if (vf_native) m = TT::from_seconds(int64_t(vf_u64("native_time", 0, uint64_t(1) << 34))).gmtime();
    std::tm before = m;
    uint64_t len = vf_text_len(f, &m); vf_assume(vf_native || len <= 4000);
    const char* text = vf_text(f, &m);
    std::string r = itlib::strftime(f, m);
    vf_ensure(r.size() == len);
    uint64_t k = vf_u64("k", 0, VF_BIG);
    if (k < len) vf_ensure(r[k] == text[k]);
    vf_ensure(same(m, before));
}
