// An arbitrary std::vector (libstdc++): content src[0..n), capacity cap, put together from its representation
// (begin, end, end of storage) so that no operation of the vector is needed to reach the state.
#pragma once
#include <cstring>
#include <vector>
template <class E> void vf_std_vector(std::vector<E>& v, const E* src, uint64_t n, uint64_t cap) {
    static_assert(sizeof(std::vector<E>) == 3 * sizeof(E*), "libstdc++ vector");
    E* p = cap ? static_cast<E*>(::operator new(cap * sizeof(E))) : nullptr;
    if (n) std::memcpy(static_cast<void*>(p), src, n * sizeof(E));
    E* rep[3] = {p, p + n, p + cap};
    std::memcpy(static_cast<void*>(&v), rep, sizeof(rep));
}
