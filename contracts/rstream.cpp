// C29: rstream reads sequentially from the wrapped stream, redirect_rstream from a position and goes back
#include "vf.hpp"
#define ITLIB_RSTREAM_OVERLOAD_RSHIFT 1
#include <itlib/rstream.hpp>

// The stream is a parameter: here one over n characters with observable calls, which behaves as std::istream is specified to
struct Stream {
    using char_type = char;
    const unsigned char* data; uint64_t n;
    uint64_t pos, reads, seeks, bits;                    // bits: 1 eof, 2 fail, 4 bad
    const char* buf; std::streamsize count;              // of the last read
    Stream& read(char* b, std::streamsize c) {
        ++reads; buf = b; count = c;
        if (bits) { bits |= 2; return *this; }
        uint64_t left = n - pos;
        if (uint64_t(c) > left) { bits |= 3; pos = n; } else pos += uint64_t(c);
        return *this;
    }
    bool fail() const { return (bits & 6) != 0; }
    bool good() const { return bits == 0; }
    bool eof() const { return (bits & 1) != 0; }
    // a token from pos up to some later position; one that ends at the end of the stream is complete but sets eof
    template <class T> Stream& operator>>(T& t) {
        ++gets; got = &t;
        if (bits) { bits |= 2; return *this; }
        uint64_t len = vf_u64("token", 0, VF_BIG);
        vf_assume(len <= n - pos);
        pos += len;
        if (pos == n) bits |= len ? 1 : 3;
        return *this;
    }
    uint64_t gets; const void* got;
    std::streampos tellg() { if (bits) bits |= 2; return fail() ? std::streampos(-1) : std::streampos(std::streamoff(pos)); }
    Stream& seekg(std::streampos p) { ++seeks; bits &= ~uint64_t(1); if (!fail()) { if (std::streamoff(p) >= 0 && uint64_t(std::streamoff(p)) <= n) pos = uint64_t(std::streamoff(p)); else bits |= 2; } return *this; }
};
using R = itlib::basic_rstream<Stream>;
using D = itlib::basic_redirect_rstream<Stream>;
#define STREAM \
    Stream s{}; s.n = vf_u64("n", 0, VF_BIG); vf_limit(s.n); \
    s.pos = vf_u64("pos", 0, s.n);

static void same_state(const R& r, const Stream& s) {
    vf_ensure_l(r.fail() == s.fail() && bool(r) == !s.fail() && r.good() == s.good() && r.eof() == s.eof(), "the state is that of the wrapped stream");
}
HARNESS(C29_read) {
    STREAM
    s.bits = vf_concrete(vf_u64("state", 0, 7), 8);
    R r(s);
    same_state(r, s);
    vf_ensure_l(s.reads == 0 && s.seeks == 0, "wrapping does not touch the stream");
    Stream t = s;
    char b[4] = {};
    std::streamsize c = std::streamsize(vf_u64("count", 0, VF_BIG));
    R& q = r.read(b, c);
    t.read(b, c);
    vf_ensure_l(&q == &r && s.reads == 1 && s.seeks == 0 && s.buf == b && s.count == c && s.pos == t.pos && s.bits == t.bits, "read is exactly one read of the wrapped stream with the same buffer and count");
    same_state(r, s);
}
HARNESS(C29_sequence) {
    STREAM
    uint64_t p0 = s.pos;
    char b[4] = {};
    std::streamsize c = std::streamsize(vf_u64("c", 0, VF_BIG)), d = std::streamsize(vf_u64("d", 0, VF_BIG));
    {
        R r(s);
        r.read(b, c).read(b + 1, d);
        vf_ensure_l(s.reads == 2 && s.buf == b + 1 && s.count == d, "reads go on where the last one ended");
        if (uint64_t(c) + uint64_t(d) <= s.n - p0) { vf_ensure_l(r.good() && s.pos == p0 + uint64_t(c) + uint64_t(d), "reads go on where the last one ended"); vf_reach("good"); }
        else { vf_ensure_l(r.fail() && r.eof() && !r, "reading beyond the end is reported"); vf_reach("eof"); }
    }
    vf_ensure_l(s.seeks == 0, "an rstream never seeks");
}
HARNESS(C29_redirect) {
    STREAM
    uint64_t p0 = s.pos, at = vf_u64("at", 0, s.n);
    char b[4] = {};
    {
        D d(s, std::streampos(std::streamoff(at)));
        vf_ensure_l(s.pos == at && s.reads == 0 && d.good(), "a redirect_rstream begins at its position");
        R& r = d;
        uint64_t c = vf_u64("count", 0, s.n - at);
        r.read(b, std::streamsize(c));
        vf_ensure_l(r.good() && s.pos == at + c && s.buf == b, "a redirect_rstream reads from its position on");
        same_state(r, s);
    }
    vf_ensure_l(s.pos == p0 && s.good(), "the original position is restored when the redirect_rstream ends");
    vf_ensure_l(s.reads == 1, "nothing else is read");
}
HARNESS(C29_redirect_nested) {
    STREAM
    uint64_t p0 = s.pos, x = vf_u64("x", 0, s.n), y = vf_u64("y", 0, s.n);
    char b[4] = {};
    {
        D d(s, std::streampos(std::streamoff(x)));
        uint64_t c = vf_u64("c", 0, s.n - x);
        d.read(b, std::streamsize(c));
        {
            D e(s, std::streampos(std::streamoff(y)));
            vf_ensure(s.pos == y);
            uint64_t k = vf_u64("k", 0, s.n - y);
            e.read(b, std::streamsize(k));
        }
        vf_ensure_l(s.pos == x + c, "the original position is restored when the redirect_rstream ends");
    }
    vf_ensure_l(s.pos == p0, "the original position is restored when the redirect_rstream ends");
}
HARNESS(C29_shift) {
    STREAM
    s.bits = vf_concrete(vf_u64("state", 0, 7), 8);
    R r(s);
    uint64_t p0 = s.pos; bool g = s.bits == 0;
    int i = 0; char c = 0;
    R& q = vf_bool("int") ? r >> i : r >> c;
    vf_ensure_l(&q == &r && s.gets == 1 && (s.got == &i || s.got == &c) && s.reads == 0 && s.seeks == 0, "operator>> is exactly one extraction from the wrapped stream");
    vf_ensure_l(g ? s.pos >= p0 : s.pos == p0 && r.fail(), "the state is that of the wrapped stream");
    same_state(r, s);
}
HARNESS(C29_redirect_to_the_end) {
    STREAM
    uint64_t p0 = s.pos, at = vf_u64("at", 0, s.n);
    int i = 0;
    {
        D d(s, std::streampos(std::streamoff(at)));
        d >> i;
        same_state(d, s);
        if (d.fail()) return;
        if (d.eof()) vf_reach("eof");
    }
    vf_ensure_l(s.pos == p0 && s.good(), "the original position is restored when the redirect_rstream ends, also after reading up to the end");
}
