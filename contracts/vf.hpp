// Specification primitives shared by all contract harnesses.
//
// VF_SYMBOLIC: the primitives are declared only; the verifier (vf/intrin.py) gives them their meaning and
//              a harness is proved for all values of its choices.
// otherwise  : the primitives are implemented below; the harness runs on the real code under ASan/UBSan for
//              enumerated or sampled values of its choices (replay of counterexamples, bounded search).
#pragma once
#include <cstdint>
#include <cstddef>
#include <new>
#include <utility>
#include <type_traits>

extern "C" {
// an arbitrary value in [lo, hi]; natively one of lo, lo+1, .. lo+k
uint64_t vf_u64(const char* name, uint64_t lo, uint64_t hi, unsigned k = 4);
bool vf_bool(const char* name);
void vf_assume_(bool c);
void vf_ensure_(bool c, const char* label);
void vf_reach(const char* label);                       // vacuity guard: must be reachable
[[noreturn]] void vf_stop();                            // end of this path (requires not met)
// n cells of gran bytes with arbitrary content (an object outside the code under test)
void* vf_array(const char* name, uint64_t n, uint64_t gran, uint64_t align);
void vf_generalize(void* obj, uint64_t objsize, uint64_t S, uint64_t gran);
void vf_havoc_content(const char* name, void* p, uint64_t n, uint64_t gran);
void vf_alive_range(void* p, uint64_t n, uint64_t S);
void vf_live_src(void* p, uint64_t n, uint64_t S);       // harness-owned storage holds n live elements
void vf_dead_src(void* p, uint64_t n, uint64_t S);       // ... and no more
void vf_life_begin(const void* p, uint64_t size);
void vf_life_end(const void* p, uint64_t size);
void vf_life_check(const void* p, uint64_t size);
bool vf_alive(const void* p);
uint64_t vf_block_size(const void* p);
bool vf_is_block(const void* p);                        // start of a live heap block
uint64_t vf_live_blocks();
bool vf_same_object(const void* p, const void* q);
uint64_t vf_uf(const char* name, uint64_t x, uint64_t hi);      // an arbitrary but fixed function
uint64_t vf_uf2(const char* name, uint64_t x, uint64_t y, uint64_t hi);
uint64_t vf_concrete(uint64_t v, uint64_t n);           // v < n, case split on its value
bool vf_split(bool c);                                  // case split
void* vf_alloc(uint64_t n, uint64_t align, uint64_t tag);
void vf_dealloc(void* p, uint64_t n, uint64_t align, uint64_t tag);
void* vf_realloc(void* p, uint64_t n, uint64_t tag);
void vf_free(void* p, uint64_t tag);
bool vf_expand(void* p, uint64_t n, uint64_t tag);      // the allocator may resize a block in place
void* vf_block_start(const void* p);
bool vf_nondet(const char* name);                       // the environment's decision, explored both ways
uint64_t vf_snapshot(const void* p, uint64_t n, uint64_t gran); // remember n cells at p
uint64_t vf_peek(uint64_t snap, uint64_t i);            // cell i of a snapshot
void vf_limit(uint64_t n);                              // native only: skip cases with n too large
// concurrency: from now on the object at p is shared with other threads. mode 1: its data may only be touched while
// holding the lock inside of it (an atomic flag or a mutex); whenever the calling thread enters the critical section,
// other(ctx) runs first: what the other threads did until then. mode 2: an atomic variable, which other threads change
// at any time. Natively nothing happens (the calls run without other threads).
void vf_shared(void* p, uint64_t mode, void (*other)(void*), void* ctx);
// modular step: calls of functions whose name contains `name` (and not `except`) are checked against the contract f, not run
void vf_contract(const char* name, const char* except, const void* f);
void vf_inst(uint64_t t);                                // proof hint: instantiate what loops established for their iteration t
// the precondition that the ranks (vf_uf function `rank`) of the 32-bit values at src, src+step, .. (n of them) increase
// strictly, for all pairs of positions the code looked at and pos, in src or in its copy at p
void vf_increasing(const void* p, const void* src, uint64_t n, const char* rank, uint64_t step, uint64_t pos);
void vf_unshared(void* p);
uint64_t vf_held(void* p);                              // locks in the object at p the calling thread holds
uint64_t vf_atomic_old(); uint64_t vf_atomic_new();     // value before and after the last atomic access to shared memory
uint64_t vf_set_thread(uint64_t id);                    // from now on the code runs in thread id; returns the previous
char* vf_cstr(const char* name, uint64_t n);              // an arbitrary string of length n
uint64_t vf_events(const char* kind);                   // number of recorded events of a kind
void vf_event(const char* kind);
}
#define vf_assume(c) vf_assume_(!!(c))
#define vf_ensure(c) vf_ensure_(!!(c), #c)
#define vf_ensure_l(c, l) vf_ensure_(!!(c), l)

#ifdef VF_SYMBOLIC
#define HARNESS(name) extern "C" void h_##name()
constexpr bool vf_native = false;
#else
#define HARNESS(name) extern "C" void h_##name(); static vf_native_reg reg_##name(#name, h_##name); extern "C" void h_##name()
constexpr bool vf_native = true;
struct vf_native_reg { vf_native_reg(const char* name, void (*f)()); };
#endif

constexpr uint64_t VF_MAX = ~uint64_t(0);
constexpr uint64_t VF_BIG = uint64_t(1) << 40;          // size of "any" container: more elements than fit in memory

// ---------------------------------------------------------------------------- element type with observable lifetime
struct Elem {
    uint32_t v;
    static constexpr uint32_t MOVED = 0xdeadbeef;
    Elem() noexcept { vf_life_begin(this, sizeof(Elem)); v = 0; }
    Elem(uint32_t x) noexcept { vf_life_begin(this, sizeof(Elem)); v = x; }
    Elem(const Elem& o) noexcept { vf_life_check(&o, sizeof(Elem)); vf_life_begin(this, sizeof(Elem)); v = o.v; }
    Elem(Elem&& o) noexcept { vf_life_check(&o, sizeof(Elem)); vf_life_begin(this, sizeof(Elem)); v = o.v; o.v = MOVED; }
    Elem& operator=(const Elem& o) noexcept { vf_life_check(this, sizeof(Elem)); vf_life_check(&o, sizeof(Elem)); v = o.v; return *this; }
    Elem& operator=(Elem&& o) noexcept { vf_life_check(this, sizeof(Elem)); vf_life_check(&o, sizeof(Elem)); auto t = o.v; o.v = MOVED; v = t; return *this; }
    ~Elem() { vf_life_end(this, sizeof(Elem)); }
    bool operator==(const Elem& o) const { vf_life_check(this, sizeof(Elem)); vf_life_check(&o, sizeof(Elem)); return v == o.v; }
    bool operator!=(const Elem& o) const { return !(*this == o); }
};

// ---------------------------------------------------------------------------- allocator (std interface) with observable calls
template <typename T>
struct VAlloc {
    using value_type = T;
    uint64_t tag;
    VAlloc(uint64_t t = 1) noexcept : tag(t) {}
    template <typename U> VAlloc(const VAlloc<U>& o) noexcept : tag(o.tag) {}
    T* allocate(size_t n) { return static_cast<T*>(vf_alloc(n * sizeof(T), alignof(T), tag)); }
    void deallocate(T* p, size_t n) noexcept { vf_dealloc(p, n * sizeof(T), alignof(T), tag); }
    template <typename U> bool operator==(const VAlloc<U>& o) const { return tag == o.tag; }
    template <typename U> bool operator!=(const VAlloc<U>& o) const { return tag != o.tag; }
};

// an arbitrary index below n; ends the path when there is none
inline uint64_t vf_idx(const char* name, uint64_t n) {
    if (n == 0) vf_stop();
    return vf_u64(name, 0, n - 1, 64);
}

#ifndef VF_SYMBOLIC
#include "vf_native.hpp"
#endif
