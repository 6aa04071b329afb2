// C24: make_ptr and shared_from share ownership correctly
// STD: c++17
#include "obj.hpp"
#include <itlib/make_ptr.hpp>
#include <itlib/shared_from.hpp>

using A = Obj<1>;
struct NC : Obj<2> {                                    // move-only
    using Obj<2>::Obj;
    NC(NC&&) = default;
    NC(const NC&) = delete;
};
static uint32_t val(const char* n) { return uint32_t(vf_u64(n, 0, 0xdeadbeee)); }

HARNESS(C24_make_shared) {
    uint32_t x = val("x"), y = val("y");
    {
        A a(x);
        const A ca(y);
        auto p = itlib::make_shared(a);
        static_assert(std::is_same<decltype(p), std::shared_ptr<A>>::value, "type");
        vf_ensure_l(p && p->get() == x && a.get() == x && p.get() != &a, "a copy of an lvalue");
        vf_ensure_l(p.use_count() == 1 && vf_live_blocks() == 1, "the result is the only owner of one object");
        a.v = y; vf_ensure(p->get() == x);
        auto c = itlib::make_shared(ca);
        static_assert(std::is_same<decltype(c), std::shared_ptr<const A>>::value, "type");
        vf_ensure_l(c->get() == y && ca.get() == y && c.get() != &ca && c.use_count() == 1, "a copy of an lvalue");
        auto m = itlib::make_shared(std::move(a));
        vf_ensure_l(m->get() == y && a.v == A::MOVED && m.use_count() == 1, "moved from an rvalue");
        auto n = itlib::make_shared(NC(x));
        vf_ensure_l(n->get() == x && n.use_count() == 1, "moved from an rvalue");
        vf_ensure(vf_live_blocks() == 4);
        auto q = p; vf_ensure(p.use_count() == 2);
        p.reset(); vf_ensure(vf_live_blocks() == 4 && q->get() == x);
        q.reset(); vf_ensure_l(vf_live_blocks() == 3, "destroyed with its last owner");
    }
    vf_ensure(vf_live_blocks() == 0);
}
HARNESS(C24_make_unique) {
    uint32_t x = val("x"), y = val("y");
    {
        A a(x);
        const A ca(y);
        auto p = itlib::make_unique(a);
        static_assert(std::is_same<decltype(p), std::unique_ptr<A>>::value, "type");
        vf_ensure_l(p && p->get() == x && a.get() == x && p.get() != &a && vf_live_blocks() == 1, "a copy of an lvalue");
        auto c = itlib::make_unique(ca);
        static_assert(std::is_same<decltype(c), std::unique_ptr<const A>>::value, "type");
        vf_ensure_l(c->get() == y && ca.get() == y && c.get() != &ca, "a copy of an lvalue");
        auto m = itlib::make_unique(std::move(a));
        vf_ensure_l(m->get() == x && a.v == A::MOVED, "moved from an rvalue");
        auto n = itlib::make_unique(NC(x));
        vf_ensure_l(n->get() == x && vf_live_blocks() == 4, "moved from an rvalue");
        p.reset(); vf_ensure(vf_live_blocks() == 3);
    }
    vf_ensure(vf_live_blocks() == 0);
}

// owner states: 0 empty, 1 owns the object, 2 non-null pointer with use count zero, 3 owns, but holds null
struct Two { A a, b; Two(uint32_t x, uint32_t y) : a(x), b(y) {} };
HARNESS(C24_make_aliased) {
    uint32_t x = val("x"), y = val("y");
    int k = int(vf_concrete(vf_u64("owner kind", 0, 3), 4));
    A other(5);
    {
        std::shared_ptr<Two> real = std::make_shared<Two>(x, y);
        std::shared_ptr<Two> owner;
        if (k == 1) owner = real;
        if (k == 2) owner = std::shared_ptr<Two>(std::shared_ptr<Two>(), real.get());
        if (k == 3) owner = std::shared_ptr<Two>(real, nullptr);
        long before = owner.use_count();
        bool null = vf_bool("null address"), outside = vf_bool("address outside of the owner");
        A* addr = null ? nullptr : outside ? &other : &real->b;
        const std::shared_ptr<Two>& co = owner;
        std::shared_ptr<A> p = itlib::make_aliased(co, addr);
        if (k == 0 || k == 2) {
            vf_ensure_l(p.get() == nullptr && p.use_count() == 0, "null for an owner with use count zero");
            vf_ensure(owner.use_count() == 0 && real.use_count() == 1);
        }
        else {
            vf_ensure_l(p.get() == addr, "exactly the given address");
            vf_ensure_l(p.use_count() == before + 1 && owner.use_count() == before + 1, "shares ownership");
            Two* obj = real.get();
            owner.reset(); real.reset();
            vf_ensure_l(p.use_count() == 1 && obj->a.get() == x && obj->b.get() == y && p.get() == addr, "keeps the owner alive");
            vf_ensure(vf_live_blocks() == 1);
            bool viacopy = vf_bool("via copy");
            if (viacopy) { auto q = p; p.reset(); vf_ensure(obj->b.get() == y && q.use_count() == 1); }
            else p.reset();
            vf_ensure_l(vf_live_blocks() == 0, "as long as it exists");
        }
    }
    vf_ensure(vf_live_blocks() == 0 && other.get() == 5);
}
HARNESS(C24_make_aliased_const) {
    uint32_t x = val("x");
    auto o = std::make_shared<const Two>(x, 3);
    auto p = itlib::make_aliased(o, &o->a);
    static_assert(std::is_same<decltype(p), std::shared_ptr<const A>>::value, "type");
    const Two* t = o.get();
    vf_ensure(p.get() == &t->a && o.use_count() == 2);
    o.reset();
    vf_ensure(p->get() == x && p.use_count() == 1);
}

struct Node : itlib::enable_shared_from {
    A a, b;
    Node(uint32_t x, uint32_t y) : a(x), b(y) {}
    std::shared_ptr<void> self() { return shared_from_this(); }
    std::shared_ptr<const void> cself() const { return shared_from_this(); }
    std::weak_ptr<void> wself() { return weak_from_this(); }
    std::weak_ptr<const void> cwself() const { return weak_from_this(); }
    std::shared_ptr<Node> sf() { return shared_from(this); }
    std::shared_ptr<const Node> csf() const { return shared_from(this); }
    std::shared_ptr<A> pb() { return shared_from(&b); }
    std::shared_ptr<const A> cpa() const { return shared_from(&a); }
    std::weak_ptr<A> wpb() { return weak_from(&b); }
    std::weak_ptr<const A> cwpa() const { return weak_from(&a); }
    template <typename T> std::weak_ptr<T> wany(T* p) { return weak_from(p); }
    template <typename T> std::shared_ptr<T> any(T* p) { return shared_from(p); }
};
#define NODE uint32_t x = val("x"), y = val("y"); auto o = std::make_shared<Node>(x, y); Node* n = o.get(); const Node* cn = n; (void)cn; \
    bool extra = vf_bool("another owner"); std::shared_ptr<Node> second; if (extra) second = o; long base = extra ? 2 : 1; vf_ensure(o.use_count() == base);

// each result keeps the owner alive exactly as long as it exists
template <typename P> static void keeps(P p, std::shared_ptr<Node>& o, std::shared_ptr<Node>& second, Node* n, const void* addr, uint32_t x, uint32_t y, long base) {
    vf_ensure_l(p.get() == addr, "exactly the given address");
    vf_ensure_l(p.use_count() == base + 1 && o.use_count() == base + 1, "shares ownership");
    o.reset(); second.reset();
    vf_ensure_l(p.use_count() == 1 && n->a.get() == x && n->b.get() == y, "keeps the owner alive");
    p.reset();
    vf_ensure_l(vf_live_blocks() == 0, "as long as it exists");
}
HARNESS(C24_shared_from_this) { NODE
    if (vf_bool("const")) keeps(cn->cself(), o, second, n, static_cast<const itlib::enable_shared_from*>(n), x, y, base);
    else keeps(n->self(), o, second, n, static_cast<itlib::enable_shared_from*>(n), x, y, base);
}
HARNESS(C24_shared_from) { NODE
    int k = int(vf_concrete(vf_u64("which", 0, 6), 7));
    if (k == 5) keeps(n->any(static_cast<A*>(nullptr)), o, second, n, nullptr, x, y, base);
    if (k == 6) keeps(n->any(static_cast<const Node*>(nullptr)), o, second, n, nullptr, x, y, base);
    if (k == 0) keeps(n->sf(), o, second, n, n, x, y, base);
    if (k == 1) keeps(cn->csf(), o, second, n, n, x, y, base);
    if (k == 2) keeps(n->pb(), o, second, n, &n->b, x, y, base);
    if (k == 3) keeps(cn->cpa(), o, second, n, &n->a, x, y, base);
    if (k == 4) { A other(4); keeps(n->any(&other), o, second, n, &other, x, y, base); }
}
template <typename W> static void weak(W w, std::shared_ptr<Node>& o, std::shared_ptr<Node>& second, const void* addr, long base) {
    vf_ensure_l(!w.expired() && w.use_count() == base && o.use_count() == base, "a weak pointer does not own");
    { auto p = w.lock(); vf_ensure_l(p.get() == addr, "exactly the given address"); vf_ensure(p.use_count() == base + 1); }
    vf_ensure(o.use_count() == base);
    o.reset(); second.reset();
    vf_ensure_l(w.expired() && !w.lock(), "a weak pointer does not keep the owner alive");
    vf_ensure(vf_live_blocks() <= 1);
    w.reset();
    vf_ensure(vf_live_blocks() == 0);
}
HARNESS(C24_weak_from) { NODE
    int k = int(vf_concrete(vf_u64("which", 0, 4), 5));
    if (k == 4) weak(n->wany(static_cast<A*>(nullptr)), o, second, nullptr, base);
    if (k == 0) weak(n->wself(), o, second, static_cast<itlib::enable_shared_from*>(n), base);
    if (k == 1) weak(cn->cwself(), o, second, static_cast<const itlib::enable_shared_from*>(n), base);
    if (k == 2) weak(n->wpb(), o, second, &n->b, base);
    if (k == 3) weak(cn->cwpa(), o, second, &n->a, base);
}
HARNESS(C24_unowned) {                                  // no owner: nothing to share, an exception as from std
    uint32_t x = val("x");
    Node n(x, 3);
    int k = int(vf_concrete(vf_u64("which", 0, 3), 4));
    bool thrown = false;
    try {
        if (k == 0) n.self();
        if (k == 1) n.sf();
        if (k == 2) n.pb();
        if (k == 3) static_cast<const Node&>(n).cpa();
    } catch (const std::bad_weak_ptr&) { thrown = true; }
    vf_ensure_l(thrown, "no owner to share with");
    vf_ensure(n.wself().expired());
}
