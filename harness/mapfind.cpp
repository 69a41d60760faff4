// The forms of mapFind with opaque keys. The map is passed as mutable: what
// mapFind does with it is up to mapFind.
#include "vp.hpp"

#include <map>
#include <unordered_map>

struct Key1 {
    Key1(const Key1&) noexcept;
    Key1(Key1&&) noexcept;
    Key1() noexcept;
    Key1& operator=(const Key1&) noexcept;
    Key1& operator=(Key1&&) noexcept;
    ~Key1();
    bool operator==(const Key1&) const noexcept;
    long payload;
};
struct Key2 {
    Key2(const Key2&) noexcept;
    Key2(Key2&&) noexcept;
    Key2() noexcept;
    Key2& operator=(const Key2&) noexcept;
    Key2& operator=(Key2&&) noexcept;
    ~Key2();
    bool operator<(const Key2&) const noexcept;
    long payload;
};
namespace std {
template<>
struct hash<Key1> {
    size_t operator()(const Key1&) const noexcept;
};
}  // namespace std

#include "gmlc/containers/mapOps.hpp"

#define VP extern "C" __attribute__((noinline))
using sz = std::size_t;
using H = std::unordered_map<Key1, sz>;
using O = std::map<Key2, sz>;

#define FORMS(P, M, K) \
    VP sz vp_##P##_def(M* m, const K& k, const sz& d) { return mapFind(*m, k, d); } \
    VP sz vp_##P##_opt(M* m, const K& k, sz* out) \
    { \
        auto r = mapFind(*m, k); \
        if (r) { \
            *out = *r; \
            return 1; \
        } \
        return 0; \
    }

FORMS(hash, H, Key1)
FORMS(order, O, Key2)
