#pragma once
#include "vf.hpp"
// payload: observable lifetime, a type tag (destroying or using it as the wrong type is an error), observable moves
template <uint32_t TAG>
struct Obj {
    uint32_t v, tag;
    static constexpr uint32_t MOVED = 0xdeadbeef;
    void use() const { vf_life_check(this, sizeof(Obj)); vf_ensure_l(tag == TAG, "payload used as its own type"); }
    Obj() noexcept { vf_life_begin(this, sizeof(Obj)); v = 77; tag = TAG; }
    Obj(uint32_t x) noexcept { vf_life_begin(this, sizeof(Obj)); v = x; tag = TAG; }
    Obj(uint32_t a, uint32_t b) noexcept { vf_life_begin(this, sizeof(Obj)); v = a ^ b; tag = TAG; }
    Obj(const Obj& o) noexcept { o.use(); vf_life_begin(this, sizeof(Obj)); v = o.v; tag = TAG; }
    Obj(Obj&& o) noexcept { o.use(); vf_life_begin(this, sizeof(Obj)); v = o.v; o.v = MOVED; tag = TAG; }
    Obj& operator=(const Obj& o) noexcept { use(); o.use(); v = o.v; return *this; }
    Obj& operator=(Obj&& o) noexcept { use(); o.use(); auto t = o.v; o.v = MOVED; v = t; return *this; }
    ~Obj() { use(); vf_life_end(this, sizeof(Obj)); }
    uint32_t get() const { use(); return v; }
};
