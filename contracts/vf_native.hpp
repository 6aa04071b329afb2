// Native meaning of the specification primitives: bounded execution of the harnesses on the real code.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <chrono>
#include <random>
#include <sys/mman.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#define VFN_ASAN
#endif
#endif
#ifndef ASAN_POISON_MEMORY_REGION
#define ASAN_POISON_MEMORY_REGION(a, n) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void)0)
#endif
#include <unistd.h>
#include <fcntl.h>

namespace vfn {
struct Choice { uint64_t val, lo, hi; };
struct Shared { uint64_t n; uint64_t cases; struct { char name[24]; uint64_t val; } c[256]; char fail[512]; };
struct Prune {};
template <class T> struct RawAlloc {   // bookkeeping must not go through the counted operator new
    using value_type = T;
    RawAlloc() = default; template <class U> RawAlloc(const RawAlloc<U>&) {}
    T* allocate(size_t n) { return (T*)std::malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { std::free(p); }
    template <class U> bool operator==(const RawAlloc<U>&) const { return true; }
    template <class U> bool operator!=(const RawAlloc<U>&) const { return false; }
};
template <class K> using Set = std::set<K, std::less<K>, RawAlloc<K>>;
template <class K, class V> using Map = std::map<K, V, std::less<K>, RawAlloc<std::pair<const K, V>>>;
template <class T> using Vec = std::vector<T, RawAlloc<T>>;
struct Block { uint64_t n, align, tag, room; };
struct Snap { Vec<uint64_t> v; };
struct Guard { const char* p; uint64_t n; const void* lock; };
struct RT {
    Vec<Choice> pre;            // prefix to follow
    size_t pos = 0;
    Vec<std::pair<std::string, Vec<uint64_t>>>* replay = nullptr;
    Vec<size_t> rpos;
    bool random = false; unsigned mode = 0; bool hinted = false; uint64_t hint = 0;     // random search: spread of the values, a suggestion for the next one
    std::mt19937_64 rng{1};
    Shared* sh = nullptr;
    Set<const void*> alive;
    Map<const void*, Block> blocks;
    Map<const void*, uint64_t> news;
    bool active = false;
    Vec<void*> arena;
    Vec<Snap> snaps;
    Vec<std::pair<std::string, void(*)()>> hs;
    Map<std::string, uint64_t> reach;
    Map<std::string, uint64_t> events;
    Map<std::pair<std::string, std::pair<uint64_t, uint64_t>>, uint64_t> ufs;
};
inline RT& rt() { static RT* r = new (std::malloc(sizeof(RT))) RT; return *r; }
inline void record(const char* name, uint64_t v) {
    auto s = rt().sh;
    if (s && s->n < 256) { auto& c = s->c[s->n]; std::strncpy(c.name, name, 23); c.val = v; s->n++; }
}
[[noreturn]] inline void fail(const char* what) {
    auto s = rt().sh;
    if (s) { std::snprintf(s->fail, sizeof s->fail, "%s", what); }
    std::fprintf(stderr, "VF-FAIL %s\n", what);
    _exit(42);
}
inline uint64_t choose(const char* name, uint64_t lo, uint64_t hi, uint64_t n /* number of small values */) {
    RT& r = rt();
    if (hi < lo) throw Prune{};
    uint64_t v;
    if (r.replay) {
        v = lo;
        for (size_t i = 0; i < r.replay->size(); ++i) {
            auto& e = (*r.replay)[i];
            if (e.first == name && r.rpos[i] < e.second.size()) { v = e.second[r.rpos[i]++]; break; }
        }
        if (v < lo || v > hi) throw Prune{};
        record(name, v);
        return v;
    }
    uint64_t h = (hi - lo < n - 1) ? hi : lo + n - 1;
    if (r.random) {
        uint64_t hh = h;
        if (r.mode >= 2) { uint64_t w = r.mode == 2 ? 24 : 64; if (hh - lo < w) hh = hi - lo < w ? hi : lo + w; }
        v = lo + (hh - lo == ~uint64_t(0) ? r.rng() : r.rng() % (hh - lo + 1));
        if ((r.mode & 1) && r.rng() % 6 == 0) {       // boundary values
            uint64_t z = r.rng();
            v = z % 3 == 0 ? hi - (z >> 8) % 3 : z % 3 == 1 ? (uint64_t(1) << (z >> 8) % 64) - (z >> 16) % 2 : lo + (z >> 8) % 300;
            if (v < lo || v > hi) v = lo;
        }
        if (r.hinted) { r.hinted = false; if (r.mode >= 2 && r.hint >= lo && r.hint <= hi) v = r.hint; }
    }
    else if (r.pos < r.pre.size()) {
        auto& c = r.pre[r.pos];
        if (c.val > h || c.val < lo) { c.lo = lo; c.hi = h; c.val = lo; r.pre.resize(r.pos + 1); } // domain depends on earlier choices only
        c.hi = h; v = c.val; r.pos++;
    }
    else { r.pre.push_back({lo, lo, h}); v = lo; r.pos++; }
    record(name, v);
    return v;
}
}
inline vf_native_reg::vf_native_reg(const char* name, void (*f)()) { vfn::rt().hs.push_back({name, f}); }

extern "C" {
inline uint64_t vf_u64(const char* name, uint64_t lo, uint64_t hi, unsigned k) { return vfn::choose(name, lo, hi, uint64_t(k) + 1); }
inline bool vf_bool(const char* name) { return vfn::choose(name, 0, 1, 2) != 0; }
inline bool vf_nondet(const char* name) { return vfn::choose(name, 0, 1, 2) != 0; }
inline void vf_assume_(bool c) { if (!c) throw vfn::Prune{}; }
inline void vf_stop() { throw vfn::Prune{}; }
inline uint64_t vfn_max() { return vfn::rt().replay ? 100000 : 64; }
inline void vf_limit(uint64_t n) { if (n > vfn_max()) throw vfn::Prune{}; }
inline void vf_ensure_(bool c, const char* label) { if (!c) vfn::fail((std::string("postcondition: ") + label).c_str()); }
inline void vf_reach(const char* l) { vfn::rt().reach[l]++; }
inline void vfn_fill(const char* name, void* p, uint64_t n, uint64_t gran) {
    for (uint64_t i = 0; i < n; ++i) {
        auto& r = vfn::rt(); if (r.mode >= 2 && r.rng() % 16) { r.hinted = true; r.hint = i * 2 + r.rng() % 2; }     // mostly increasing
        uint64_t v = vfn::choose(name, 0, gran >= 8 ? ~uint64_t(0) : (uint64_t(1) << 8 * gran) - 1, 3);
        std::memcpy((char*)p + i * gran, &v, gran);
    }
}
inline void* vf_array(const char* name, uint64_t n, uint64_t gran, uint64_t align) {
    vf_limit(n);
    void* p = nullptr;
    if (posix_memalign(&p, align < 8 ? 8 : align, n * gran)) abort();
    vfn::rt().arena.push_back(p);
    vfn_fill(name, p, n, gran);
    return p;
}
inline char* vf_cstr(const char* name, uint64_t n) {
    vf_limit(n);
    char* p = static_cast<char*>(malloc(n + 1));
    vfn::rt().arena.push_back(p);
    vfn_fill(name, p, n, 1);
    for (uint64_t i = 0; i < n; ++i) if (!p[i] || (unsigned char)p[i] > 126) p[i] = "%aYp x"[(unsigned char)p[i] % 6];
    p[n] = 0;
    return p;
}
inline void vf_generalize(void*, uint64_t, uint64_t, uint64_t) {}
inline void vf_havoc_content(const char* name, void* p, uint64_t n, uint64_t gran) { vfn_fill(name, p, n, gran); }
inline void vf_alive_range(void*, uint64_t, uint64_t) {}
inline void vf_life_begin(const void* p, uint64_t) { if (!vfn::rt().alive.insert(p).second) vfn::fail("construction on a live element"); }
inline void vf_life_end(const void* p, uint64_t) { if (!vfn::rt().alive.erase(p)) vfn::fail("destruction of storage without a live element"); }
inline void vf_life_check(const void* p, uint64_t) { if (!vfn::rt().alive.count(p)) vfn::fail("use of storage without a live element"); }
inline void vf_live_src(void* p, uint64_t n, uint64_t S) { for (uint64_t i = 0; i < n; ++i) vf_life_begin((char*)p + i * S, S); }
inline void vf_dead_src(void* p, uint64_t n, uint64_t S) { for (uint64_t i = 0; i < n; ++i) vf_life_end((char*)p + i * S, S); }
inline bool vf_alive(const void* p) { return vfn::rt().alive.count(p) != 0; }
inline uint64_t vf_block_size(const void* p) {
    auto& b = vfn::rt().blocks; auto i = b.find(p); if (i != b.end()) return i->second.n;
    auto& m = vfn::rt().news; auto j = m.find(p); if (j != m.end()) return j->second;
#ifdef VFN_ASAN
    if (p && __sanitizer_get_ownership(p)) return __sanitizer_get_allocated_size(p);     // from malloc
#endif
    return 0;
}
inline bool vf_is_block(const void* p) {
    if (vfn::rt().blocks.count(p) || vfn::rt().news.count(p)) return true;
#ifdef VFN_ASAN
    if (p && __sanitizer_get_ownership(p)) return true;     // from malloc
#endif
    return false;
}
inline uint64_t vf_live_blocks() { return vfn::rt().blocks.size() + vfn::rt().news.size(); }
inline bool vf_same_object(const void* p, const void* q) {
    if (p == q) return true;
    auto find = [](const void* x) -> const void* { auto& b = vfn::rt().blocks; auto i = b.upper_bound(x); if (i == b.begin()) return nullptr; --i;
        return (const char*)x <= (const char*)i->first + i->second.n ? i->first : nullptr; };
    auto a = find(p); return a && a == find(q);
}
inline uint64_t vf_uf2(const char* name, uint64_t x, uint64_t y, uint64_t hi) {
    auto& m = vfn::rt().ufs; std::pair<std::string, std::pair<uint64_t, uint64_t>> k{name, {x, y}};
    auto i = m.find(k); if (i != m.end()) return i->second;
    auto& r = vfn::rt(); if (r.mode >= 2 && hi > 3) { r.hinted = true; r.hint = x * 2 + 1; }     // mostly monotone
    auto v = vfn::choose(name, 0, hi, 3); m[k] = v; return v;
}
inline uint64_t vf_uf(const char* name, uint64_t x, uint64_t hi) { return vf_uf2(name, x, 0, hi); }
inline uint64_t vf_concrete(uint64_t v, uint64_t) { return v; }
inline bool vf_split(bool c) { return c; }
inline void* vf_alloc(uint64_t n, uint64_t align, uint64_t tag) {
    if (n > (1u << 24)) throw vfn::Prune{};
    uint64_t room = n + 256;
    uint64_t al = align < 64 ? 64 : align; room = (room + al - 1) / al * al; void* p = nullptr; if (posix_memalign(&p, al, room)) std::abort(); std::memset(p, 0xcd, room);
    ASAN_POISON_MEMORY_REGION((char*)p + n, room - n);
    vfn::rt().blocks[p] = {n, align, tag, room}; return p;
}
inline void vf_dealloc(void* p, uint64_t n, uint64_t align, uint64_t tag) {
    auto& b = vfn::rt().blocks; auto i = b.find(p);
    if (i == b.end()) vfn::fail("deallocation of something that is not an allocated block");
    if (i->second.n != n) vfn::fail("deallocation with a wrong size");
    if (i->second.align != align || i->second.tag != tag) vfn::fail("deallocation with a wrong allocator or alignment");
    auto a = vfn::rt().alive.lower_bound(p);
    if (a != vfn::rt().alive.end() && *a < (const void*)((char*)p + n)) vfn::fail("storage released with live elements");
    ASAN_UNPOISON_MEMORY_REGION(p, i->second.room); b.erase(i); std::free(p);
}
inline void* vf_realloc(void* p, uint64_t n, uint64_t tag) {
    if (!p) return vf_alloc(n, 1, tag);
    auto& b = vfn::rt().blocks; auto i = b.find(p);
    if (i == b.end()) vfn::fail("reallocation of something that is not an allocated block");
    if (i->second.tag != tag) vfn::fail("reallocation with a wrong allocator");
    auto old = i->second.n; void* q = vf_alloc(n, i->second.align, tag);
    std::memcpy(q, p, old < n ? old : n); vf_dealloc(p, old, i->second.align, tag); return q;
}
inline void vf_free(void* p, uint64_t tag) {
    if (!p) return;
    auto& b = vfn::rt().blocks; auto i = b.find(p);
    if (i == b.end()) vfn::fail("deallocation of something that is not an allocated block");
    vf_dealloc(p, i->second.n, i->second.align, tag);
}
inline bool vf_expand(void* p, uint64_t n, uint64_t tag) {
    auto& b = vfn::rt().blocks; auto i = b.find(p);
    if (i == b.end()) vfn::fail("expansion of something that is not an allocated block");
    if (i->second.tag != tag) vfn::fail("expansion by a wrong allocator");
    if (!vf_nondet("expand_ok") || n > i->second.room) return false;
    ASAN_POISON_MEMORY_REGION(p, i->second.room); ASAN_UNPOISON_MEMORY_REGION(p, n);
    i->second.n = n; return true;
}
inline void* vf_block_start(const void* x) {
    auto& b = vfn::rt().blocks; auto i = b.upper_bound(x); if (i == b.begin()) vfn::fail("not inside a block"); --i; return (void*)i->first;
}
inline uint64_t vf_snapshot(const void* p, uint64_t n, uint64_t gran) {
    vfn::Snap s; for (uint64_t i = 0; i < n; ++i) { uint64_t v = 0; std::memcpy(&v, (const char*)p + i * gran, gran); s.v.push_back(v); }
    vfn::rt().snaps.push_back(s); return vfn::rt().snaps.size() - 1;
}
inline uint64_t vf_peek(uint64_t s, uint64_t i) { auto& v = vfn::rt().snaps[s].v; if (i >= v.size()) vfn::fail("harness: peek out of range"); return v[i]; }
inline void vf_shared(void*, uint64_t, void (*)(void*), void*) {}
inline void vf_inst(uint64_t) {}
inline void vf_contract(const char*, const char*, const void*) {}
inline void vf_increasing(const void*, const void*, uint64_t, const char*, uint64_t, uint64_t) {}
inline void vf_unshared(void*) {}
inline uint64_t vf_held(void*) { return 0; }
inline uint64_t vf_atomic_old() { return 0; }
inline uint64_t vf_atomic_new() { return 0; }
inline uint64_t vf_set_thread(uint64_t) { return 0; }
inline void vf_event(const char* k) { vfn::rt().events[k]++; }
inline uint64_t vf_events(const char* k) { return vfn::rt().events[k]; }
}

#ifdef VF_MAIN
void* operator new(size_t n) {
    auto p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc();
    auto& r = vfn::rt(); if (r.active) { r.news[p] = n; std::memset(p, 0xcd, n); } return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept {
    auto p = std::malloc(n ? n : 1); auto& r = vfn::rt();
    if (p && r.active) { r.news[p] = n; std::memset(p, 0xcd, n); }
    return p;
}
void operator delete(void* p) noexcept { if (!p) return; auto& r = vfn::rt(); r.news.erase(p); std::free(p); }
void operator delete(void* p, size_t n) noexcept {
    if (!p) return; auto& r = vfn::rt(); auto i = r.news.find(p);
    if (r.active && i != r.news.end()) { if (i->second != n) vfn::fail("operator delete with a wrong size"); }
    r.news.erase(p); std::free(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
namespace vfn {
inline bool run_case(void (*f)()) {
    RT& r = rt();
    r.pos = 0; r.hinted = false; r.mode = r.random ? unsigned(r.rng() % 4) : 0; r.alive.clear(); r.blocks.clear(); r.news.clear(); r.snaps.clear(); r.ufs.clear(); r.events.clear();
    if (r.sh) r.sh->n = 0;
    for (size_t i = 0; i < r.rpos.size(); ++i) r.rpos[i] = 0;
    bool full = true;
    r.active = true;
    try { f(); } catch (Prune&) { full = false; }
    r.active = false;
    if (full) {
        if (!r.alive.empty()) fail("an element is still alive at the end");
        if (!r.blocks.empty()) fail("a block is still allocated at the end");
        if (!r.news.empty()) fail("memory from operator new is leaked");
    }
    for (auto p : r.arena) std::free(p);
    r.arena.clear();
    if (r.sh) r.sh->cases++;
    return full;
}
}
int main(int argc, char** argv) {
    using namespace vfn;
    RT& r = rt();
    if (argc < 2) return 2;
    std::string cmd = argv[1];
    if (cmd == "list") { for (auto& h : r.hs) std::printf("%s\n", h.first.c_str()); return 0; }
    if (argc < 4) return 2;
    void (*f)() = nullptr;
    for (auto& h : r.hs) if (h.first == argv[2]) f = h.second;
    if (!f) return 2;
    int fd = open(argv[3], O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) return 2;
    r.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    uint64_t full = 0, total = 0; bool exhaustive = false;
    if (cmd == "replay") {   // replay H shared FILE: lines "name v v v"
        Vec<std::pair<std::string, Vec<uint64_t>>> rp;
        FILE* fp = std::fopen(argv[4], "r"); if (!fp) return 2;
        char* line = nullptr; size_t cap = 0;
        while (getline(&line, &cap, fp) > 0) {
            char* t = std::strtok(line, " \n"); if (!t || *t == '#') continue;
            rp.push_back({t, {}});
            while ((t = std::strtok(nullptr, " \n"))) rp.back().second.push_back(std::strtoull(t, nullptr, 10));
        }
        r.replay = &rp; r.rpos.resize(rp.size());
        total = 1; full = run_case(f);
    }
    else {                   // search H shared SECONDS SEED
        double secs = std::atof(argv[4]); r.rng.seed(std::strtoull(argv[5], nullptr, 10));
        auto t0 = std::chrono::steady_clock::now();
        auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
        while (true) {      // odometer, deepest choice first
            total++; full += run_case(f);
            while (!r.pre.empty() && r.pre.back().val >= r.pre.back().hi) r.pre.pop_back();
            if (r.pre.empty()) { exhaustive = true; break; }
            r.pre.resize(r.pre.size()); r.pre.back().val++;
            if (el() > secs * 0.6) break;
        }
        r.random = true;
        double end = exhaustive ? el() + secs * 0.3 : secs;
        while (el() < end) { total++; full += run_case(f); }
    }
    std::printf("{\"cases\": %llu, \"full\": %llu, \"exhaustive\": %s, \"reach\": {", (unsigned long long)total, (unsigned long long)full, exhaustive ? "true" : "false");
    bool first = true;
    for (auto& e : r.reach) { std::printf("%s\"%s\": %llu", first ? "" : ", ", e.first.c_str(), (unsigned long long)e.second); first = false; }
    std::printf("}}\n");
    return 0;
}
#endif
