// C19: memory stream buffers transfer bytes exactly
// STD: c++17
// ASSUME: the locale operations of basic_streambuf have no effect on its buffer
// ASSUME: seeks of an output buffer relative to the end are relative to the end of the allocated buffer (where the characters end is not recorded)
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE      // the verifier reads the definitions of std::string and std::streambuf functions
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "vf.hpp"
#include <string>
#include <streambuf>
#include <itlib/mem_streambuf.hpp>
#include <itlib/pod_vector.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <vector>
using namespace itlib;

// an arbitrary state: n characters in the container, put position p. (The capacity is always in use, except when empty.)
// MAX: the most a container can hold
template <class C> struct lim { static constexpr uint64_t max = VF_BIG; };
template <class T, size_t N> struct lim<static_vector<T, N>> { static constexpr uint64_t max = N; };
#define OUT \
    using T = typename C::value_type; constexpr uint64_t MAX = lim<C>::max; \
    uint64_t n0 = vf_u64("n", 0, MAX); vf_limit(n0); \
    T* src = static_cast<T*>(vf_array("src", n0, sizeof(T), sizeof(T))); \
    mem_ostreambuf<C> b; const auto& c = b.peek_container(); \
    vf_ensure(b.poff() == 0); \
    vf_ensure(uint64_t(b.sputn(src, n0)) == n0); \
    vf_ensure(b.poff() == n0 && c.size() >= n0); \
    uint64_t n = c.size(); \
    uint64_t p = vf_u64("p", 0, VF_BIG); vf_assume(p <= n0); \
    vf_ensure(uint64_t(std::streamoff(b.pubseekpos(p))) == p);
// content: src[0..w), then the m characters of s
template <class B, class T> void content(B& b, uint64_t n0, const T* src, uint64_t p, const T* s, uint64_t m) {
    const auto& c = b.peek_container();
    uint64_t j = vf_u64("j", 0, VF_BIG);
    if (j < p) vf_ensure(c.data()[j] == src[j]);
    else if (j < p + m) vf_ensure(c.data()[j] == s[j - p]);
    else if (j < n0) vf_ensure(c.data()[j] == src[j]);
}
// the state after a write of m characters s at p
template <class B, class T> void written(B& b, uint64_t n0, const T* src, uint64_t p, const T* s, uint64_t m) {
    const auto& c = b.peek_container();
    vf_ensure(b.poff() == p + m && c.size() >= p + m && c.size() >= n0);
    content(b, n0, src, p, s, m);
}
// usable: m characters written now are all there is
template <class C> void usable(mem_ostreambuf<C>& b) {
    using T = typename C::value_type;
    vf_ensure(b.poff() == 0);
    uint64_t m = vf_u64("m2", 0, lim<C>::max); vf_limit(m);
    T* s = static_cast<T*>(vf_array("again", m, sizeof(T), sizeof(T)));
    vf_ensure(uint64_t(b.sputn(s, m)) == m);
    vf_ensure(b.poff() == m && b.peek_container().size() >= m);
    uint64_t j = vf_u64("j2", 0, VF_BIG);
    if (j < m) vf_ensure(b.peek_container().data()[j] == s[j]);
}
template <class C> void write_block() {
    OUT
    uint64_t m = vf_u64("m", 0, MAX); vf_limit(m); vf_assume(p + m <= MAX);
    T* s = static_cast<T*>(vf_array("s", m, sizeof(T), sizeof(T)));
    vf_ensure(uint64_t(b.sputn(s, m)) == m);
    written(b, n0, src, p, s, m);
}
template <class C> void write_char() {
    OUT
    vf_assume(p + 1 <= MAX);
    T ch = T(vf_u64("ch", 0, sizeof(T) == 1 ? 0xff : 0x10ffff));
    auto r = b.sputc(ch);
    vf_ensure(r == std::char_traits<T>::to_int_type(ch));
    written(b, n0, src, p, &ch, 1);
}
template <class C> void seek() {
    OUT
    auto out = std::ios_base::out;
    if (vf_bool("again")) { vf_assume(p + 1 <= MAX); T ch = T(1); b.sputc(ch); content(b, n0, src, p, &ch, 1); return; }
    vf_ensure(b.poff() == p);
    uint64_t q = vf_u64("q", 0, VF_BIG); vf_assume(q <= n);
    std::streamoff r;
    switch (vf_concrete(vf_u64("way", 0, 4), 5)) {
    case 0: r = b.pubseekpos(q); break;
    case 1: r = b.pubseekoff(std::streamoff(q), std::ios_base::beg, out); break;
    case 2: r = b.pubseekoff(std::streamoff(q) - std::streamoff(p), std::ios_base::cur, out); break;
    case 3: r = b.pubseekoff(std::streamoff(q) - std::streamoff(n), std::ios_base::end, out); break;
    default: r = b.pubseekoff(0, std::ios_base::cur, out); q = p;
    }
    vf_ensure(uint64_t(r) == q && b.poff() == q && c.size() == n);
    content(b, n0, src, p, src, 0);
}
template <class C> void take() {
    OUT
    C r = b.get_container();
    vf_ensure(r.size() == p);
    uint64_t j = vf_u64("j", 0, VF_BIG);
    if (j < p) vf_ensure(r.data()[j] == src[j]);
    usable(b);
    vf_ensure(r.size() == p);
}
template <class C> void clears() {
    OUT
    b.clear();
    vf_ensure(c.size() == 0);
    usable(b);
}
template <class C> void reserves() {
    using T = typename C::value_type;
    uint64_t r = vf_u64("reserve", 0, lim<C>::max); vf_limit(r);
    mem_ostreambuf<C> b(r);
    vf_ensure(b.peek_container().size() >= r);
    if (vf_bool("char")) { T ch = T(7); vf_ensure(b.sputc(ch) == 7); vf_ensure(b.poff() == 1 && b.peek_container().data()[0] == ch); C t = b.get_container(); vf_ensure(t.size() == 1 && t.data()[0] == ch); }
    else usable(b);
}
using CV = std::vector<char>;
using CS = std::string;
using CP = pod_vector<char>;
using CW = std::vector<wchar_t>;
using CF = static_vector<char, 100>;
using CM = small_vector<char, 10>;
HARNESS(C19_write_block_vector) { write_block<CV>(); }
HARNESS(C19_write_block_string) { write_block<CS>(); }
HARNESS(C19_write_block_pod_vector) { write_block<CP>(); }
HARNESS(C19_write_block_wide) { write_block<CW>(); }
HARNESS(C19_write_block_static_vector) { write_block<CF>(); }
HARNESS(C19_write_block_small_vector) { write_block<CM>(); }
HARNESS(C19_write_char_vector) { write_char<CV>(); }
HARNESS(C19_write_char_string) { write_char<CS>(); }
HARNESS(C19_write_char_pod_vector) { write_char<CP>(); }
HARNESS(C19_write_char_wide) { write_char<CW>(); }
HARNESS(C19_write_char_static_vector) { write_char<CF>(); }
HARNESS(C19_write_char_small_vector) { write_char<CM>(); }
HARNESS(C19_seek_vector) { seek<CV>(); }
HARNESS(C19_seek_string) { seek<CS>(); }
HARNESS(C19_seek_pod_vector) { seek<CP>(); }
HARNESS(C19_seek_wide) { seek<CW>(); }
HARNESS(C19_seek_static_vector) { seek<CF>(); }
HARNESS(C19_seek_small_vector) { seek<CM>(); }
HARNESS(C19_take_vector) { take<CV>(); }
HARNESS(C19_take_string) { take<CS>(); }
HARNESS(C19_take_pod_vector) { take<CP>(); }
HARNESS(C19_take_wide) { take<CW>(); }
HARNESS(C19_take_static_vector) { take<CF>(); }
HARNESS(C19_take_small_vector) { take<CM>(); }
HARNESS(C19_clear_vector) { clears<CV>(); }
HARNESS(C19_clear_string) { clears<CS>(); }
HARNESS(C19_clear_pod_vector) { clears<CP>(); }
HARNESS(C19_clear_wide) { clears<CW>(); }
HARNESS(C19_clear_static_vector) { clears<CF>(); }
HARNESS(C19_clear_small_vector) { clears<CM>(); }
HARNESS(C19_reserve_vector) { reserves<CV>(); }
HARNESS(C19_reserve_string) { reserves<CS>(); }
HARNESS(C19_reserve_pod_vector) { reserves<CP>(); }
HARNESS(C19_reserve_wide) { reserves<CW>(); }
HARNESS(C19_reserve_static_vector) { reserves<CF>(); }
HARNESS(C19_reserve_small_vector) { reserves<CM>(); }

// input: n characters, get position p
#define IN \
    uint64_t n = vf_u64("n", 0, VF_BIG); vf_limit(n); \
    T* src = static_cast<T*>(vf_array("src", n, sizeof(T), sizeof(T))); \
    mem_istreambuf<T> b; \
    vf_ensure(b.size() == 0 && b.goff() == 0); \
    if (vf_bool("empty_first")) vf_ensure(b.sgetc() == std::char_traits<T>::eof()); \
    b.reset(src, n); \
    vf_ensure(b.size() == n && b.goff() == 0); \
    uint64_t p = vf_u64("p", 0, VF_BIG); vf_assume(p <= n); \
    vf_ensure(uint64_t(std::streamoff(b.pubseekpos(p))) == p); \
    vf_ensure(b.goff() == p && b.size() == n);
template <class T> void read_block() {
    IN
    uint64_t m = vf_u64("m", 0, VF_BIG); vf_limit(m);
    T* d = static_cast<T*>(vf_array("dst", m, sizeof(T), sizeof(T)));
    uint64_t j = vf_u64("j", 0, VF_BIG);
    T old = T(); if (j < m) old = d[j];
    uint64_t r = uint64_t(b.sgetn(d, std::streamsize(m)));
    vf_ensure(r == (m < n - p ? m : n - p));
    vf_ensure(b.goff() == p + r && b.size() == n);
    if (j < r) vf_ensure(d[j] == src[p + j]);
    else if (j < m) vf_ensure(d[j] == old);
    // then continues from there
    if (p + r < n) vf_ensure(b.sgetc() == std::char_traits<T>::to_int_type(src[p + r])); else vf_ensure(b.sgetc() == std::char_traits<T>::eof());
}
template <class T> void read_char() {
    IN
    auto eof = std::char_traits<T>::eof();
    if (sizeof(T) > 1) for (uint64_t i = 0; i < 3; ++i) if (p + i >= 1 && p + i - 1 < n) vf_assume(src[p + i - 1] != T(-1));     // WEOF is not a character
    auto want = p < n ? std::char_traits<T>::to_int_type(src[p]) : eof;
    auto next = p + 1 < n ? std::char_traits<T>::to_int_type(src[p + 1]) : eof;
    uint64_t q = p < n ? p + 1 : p;
    switch (vf_concrete(vf_u64("how", 0, 3), 4)) {
    case 0: vf_ensure(b.sbumpc() == want); vf_ensure(b.goff() == q); break;
    case 1: vf_ensure(b.sgetc() == want); vf_ensure(b.goff() == p); break;
    case 2: vf_ensure(b.snextc() == next); vf_ensure(b.goff() == q); break;
    default: // one back
        if (p > 0) { vf_ensure(b.sungetc() == std::char_traits<T>::to_int_type(src[p - 1])); vf_ensure(b.goff() == p - 1); }
        else { vf_ensure(b.sungetc() == eof); vf_ensure(b.goff() == 0); }
    }
    vf_ensure(b.size() == n);
}
template <class T> void seek_in() {
    IN
    auto in = std::ios_base::in;
    uint64_t q = vf_u64("q", 0, VF_BIG); vf_assume(q <= n);
    std::streamoff r;
    switch (vf_concrete(vf_u64("way", 0, 4), 5)) {
    case 0: r = b.pubseekpos(q); break;
    case 1: r = b.pubseekoff(std::streamoff(q), std::ios_base::beg, in); break;
    case 2: r = b.pubseekoff(std::streamoff(q) - std::streamoff(p), std::ios_base::cur, in); break;
    case 3: r = b.pubseekoff(std::streamoff(q) - std::streamoff(n), std::ios_base::end, in); break;
    default: r = b.pubseekoff(0, std::ios_base::cur, in); q = p;
    }
    vf_ensure(uint64_t(r) == q && b.goff() == q && b.size() == n);
    vf_ensure(b.sgetc() == (q < n ? std::char_traits<T>::to_int_type(src[q]) : std::char_traits<T>::eof()));
}
template <class T> void construct_in() {
    uint64_t n = vf_u64("n", 0, VF_BIG); vf_limit(n);
    T* src = static_cast<T*>(vf_array("src", n, sizeof(T), sizeof(T)));
    mem_istreambuf<T> b(src, n);
    vf_ensure(b.size() == n && b.goff() == 0);
    vf_ensure(b.sgetc() == (n ? std::char_traits<T>::to_int_type(src[0]) : std::char_traits<T>::eof()));
    uint64_t m = vf_u64("m", 0, VF_BIG); vf_limit(m);
    T* other = static_cast<T*>(vf_array("other", m, sizeof(T), sizeof(T)));
    b.reset(other, m);
    vf_ensure(b.size() == m && b.goff() == 0);
    vf_ensure(b.sgetc() == (m ? std::char_traits<T>::to_int_type(other[0]) : std::char_traits<T>::eof()));
}
HARNESS(C19_read_block) { read_block<char>(); }
HARNESS(C19_read_block_wide) { read_block<wchar_t>(); }
HARNESS(C19_read_char) { read_char<char>(); }
HARNESS(C19_read_char_wide) { read_char<wchar_t>(); }
HARNESS(C19_seek_in) { seek_in<char>(); }
HARNESS(C19_seek_in_wide) { seek_in<wchar_t>(); }
HARNESS(C19_construct_in) { construct_in<char>(); }
HARNESS(C19_construct_in_wide) { construct_in<wchar_t>(); }
