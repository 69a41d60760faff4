// Instantiations of the mapped vectors with opaque elements and search terms.
#include "vp.hpp"

#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>

// element type
struct V {
    explicit V(int seed) noexcept;
    V() noexcept;
    V(const V&) noexcept;
    V(V&&) noexcept;
    V& operator=(const V&) noexcept;
    V& operator=(V&&) noexcept;
    ~V();
    long payload;
};
// a search term with a hash
struct Key1 {
    Key1(const Key1&) noexcept;
    Key1(Key1&&) noexcept;
    Key1() noexcept;
    Key1& operator=(const Key1&) noexcept;
    Key1& operator=(Key1&&) noexcept;
    ~Key1();
    bool operator==(const Key1&) const noexcept;
    long payload;
};
// a search term with an order only
struct Key2 {
    Key2(const Key2&) noexcept;
    Key2(Key2&&) noexcept;
    Key2() noexcept;
    Key2& operator=(const Key2&) noexcept;
    Key2& operator=(Key2&&) noexcept;
    ~Key2();
    bool operator<(const Key2&) const noexcept;
    long payload;
};
namespace std {
template<>
struct hash<Key1> {
    size_t operator()(const Key1&) const noexcept;
};
}  // namespace std

#include "gmlc/containers/MapTraits.hpp"
template<>
struct is_easily_hashable<Key1> {
    static constexpr bool value = true;
};

#include "gmlc/containers/DualMappedPointerVector.hpp"
#include "gmlc/containers/DualMappedVector.hpp"
#include "gmlc/containers/DualStringMappedVector.hpp"
#include "gmlc/containers/MappedPointerVector.hpp"
#include "gmlc/containers/MappedVector.hpp"
#include "gmlc/containers/StringMappedVector.hpp"

using namespace gmlc::containers;
#define VP extern "C"
using sz = std::size_t;
using sv = std::string_view;

struct Visit {
    void operator()(const V&) const noexcept;
};
struct Modify {
    void operator()(V&) const noexcept;
};
struct VisitP {
    void operator()(V*) const noexcept;
};
struct VisitCP {
    void operator()(const V*) const noexcept;
};
struct Change {
    V operator()(const V&) const noexcept;
};

static long opt(const std::optional<sz>& r)
{
    return r ? static_cast<long>(*r) : -1L;
}

#define LIFE(P, T)                                                            \
    VP void vp_##P##_ctor(T* c) { new (c) T(); }                              \
    VP void vp_##P##_dtor(T* c) { c->~T(); }                                  \
    VP void vp_##P##_move_ctor(T* c, T* o) { new (c) T(std::move(*o)); }      \
    VP void vp_##P##_move_assign(T* c, T* o) { *c = std::move(*o); }          \
    VP sz vp_##P##_size(const T* c) { return c->size(); }                     \
    VP void vp_##P##_clear(T* c) { c->clear(); }                              \
    VP void vp_##P##_removeIndex(T* c, sz i) { c->removeIndex(i); }

#define VALUES(P, T)                                                          \
    VP void vp_##P##_copy_ctor(T* c, const T* o) { new (c) T(*o); }           \
    VP void vp_##P##_copy_assign(T* c, const T* o) { *c = *o; }               \
    VP V* vp_##P##_index(T* c, sz n) { return &(*c)[n]; }                     \
    VP const V* vp_##P##_cindex(const T* c, sz n) { return &(*c)[n]; }        \
    VP V* vp_##P##_at(T* c, sz n) { return &c->at(n); }                       \
    VP const V* vp_##P##_cat(const T* c, sz n) { return &c->at(n); }          \
    VP V* vp_##P##_back(T* c) { return &c->back(); }                          \
    VP const V* vp_##P##_cback(const T* c) { return &c->back(); }             \
    VP void vp_##P##_apply(T* c, Visit* f) { c->apply(*f); }                  \
    VP void vp_##P##_modify(T* c, Modify* f) { c->modify(*f); }               \
    VP void vp_##P##_transform(T* c, Change* f) { c->transform(*f); }         \
    VP void vp_##P##_iterate(const T* c, Visit* f)                            \
    {                                                                         \
        for (auto it = c->begin(); it != c->end(); ++it) {                    \
            (*f)(*it);                                                        \
        }                                                                     \
    }

// operations taking one term of type K (number N)
#define FINDV(P, T, K, N)                                                     \
    VP V* vp_##P##_find##N(T* c, const K& k)                                  \
    {                                                                         \
        auto it = c->find(k);                                                 \
        if (it == c->end()) {                                                 \
            return nullptr;                                                   \
        }                                                                     \
        return const_cast<V*>(&*it);                                          \
    }                                                                         \
    VP const V* vp_##P##_cfind##N(const T* c, const K& k)                     \
    {                                                                         \
        auto it = c->find(k);                                                 \
        if (it == c->end()) {                                                 \
            return nullptr;                                                   \
        }                                                                     \
        return &*it;                                                          \
    }
#define REMOVE(P, T, K, N)                                                    \
    VP void vp_##P##_remove##N(T* c, const K& k) { c->remove(k); }
#define ADDIDX(P, T, K, N)                                                    \
    VP bool vp_##P##_addidx##N(T* c, const K& k, sz i)                        \
    {                                                                         \
        return c->addSearchTermForIndex(k, i);                                \
    }
#define ADD(P, T, K, N, K2, N2)                                               \
    VP bool vp_##P##_add##N##N2(T* c, const K& k, const K2& e)                \
    {                                                                         \
        return c->addSearchTerm(k, e);                                        \
    }
#define SINGLE(P, T, K)                                                       \
    VP long vp_##P##_insert(T* c, const K& k, int v) { return opt(c->insert(k, v)); } \
    VP long vp_##P##_insert_none(T* c, int v) { return opt(c->insert(no_search, v)); } \
    VP sz vp_##P##_assign(T* c, const K& k, int v) { return c->insert_or_assign(k, v); } \
    REMOVE(P, T, K, 1)
#define INSV(P, T, K)                                                         \
    VP long vp_##P##_insert_v(T* c, const K& k, V& v) { return opt(c->insert(k, std::move(v))); } \
    VP sz vp_##P##_assign_v(T* c, const K& k, const V& v) { return c->insert_or_assign(k, v); }
#define DUAL(P, T, K, L, NO1, NO2, NO3)                                       \
    VP long vp_##P##_insert(T* c, const K& k, const L& l, int v) { return opt(c->insert(k, l, v)); } \
    VP sz vp_##P##_assign(T* c, const K& k, const L& l, int v) { return c->insert_or_assign(k, l, v); } \
    VP long vp_##P##_insert_1(T* c, const K& k, int v) { return opt(c->insert(k, NO2, v)); } \
    VP long vp_##P##_insert_2(T* c, const L& l, int v) { return opt(c->insert(NO1, l, v)); } \
    VP sz vp_##P##_assign_1(T* c, const K& k, int v) { return c->insert_or_assign(k, NO2, v); } \
    VP sz vp_##P##_assign_2(T* c, const L& l, int v) { return c->insert_or_assign(NO3, l, v); } \
    REMOVE(P, T, K, 1)                                                        \
    REMOVE(P, T, L, 2)
#define DUALV(P, T, K, L)                                                     \
    VP long vp_##P##_insert_none(T* c, int v) { return opt(c->insert(no_search, no_search, v)); } \
    FINDV(P, T, K, 1)                                                         \
    FINDV(P, T, L, 2)                                                         \
    ADDIDX(P, T, K, 1)                                                        \
    ADDIDX(P, T, L, 2)                                                        \
    ADD(P, T, K, 1, K, 1)                                                     \
    ADD(P, T, K, 1, L, 2)                                                     \
    ADD(P, T, L, 2, K, 1)                                                     \
    ADD(P, T, L, 2, L, 2)
#define POINTERS(P, T)                                                        \
    VP V* vp_##P##_pindex(const T* c, sz n) { return (*c)[n]; }               \
    VP V* vp_##P##_pback(T* c) { return c->back(); }                          \
    VP void vp_##P##_papply(T* c, VisitP* f) { c->apply(*f); }                \
    VP void vp_##P##_cpapply(const T* c, VisitCP* f) { c->apply(*f); }        \
    VP void vp_##P##_piterate(const T* c, VisitCP* f)                         \
    {                                                                         \
        for (auto it = c->begin(); it != c->end(); ++it) {                    \
            (*f)(it->get());                                                  \
        }                                                                     \
    }
#define FINDP(P, T, K, N)                                                     \
    VP V* vp_##P##_pfind##N(const T* c, const K& k) { return c->find(k); }

using ptr = std::unique_ptr<V>;
using MV = MappedVector<V, Key1, reference_stability::unstable>;
using MS = MappedVector<V, Key2, reference_stability::stable, 2>;
using SV = StringMappedVector<V, reference_stability::unstable>;
using SS = StringMappedVector<V, reference_stability::stable, 2>;
using MP = MappedPointerVector<V, Key1>;
using MQ = MappedPointerVector<V, Key2>;
using DV = DualMappedVector<V, Key1, Key2, reference_stability::unstable>;
using DS = DualMappedVector<V, Key2, Key1, reference_stability::stable, 2>;
using TV = DualStringMappedVector<V, Key1, reference_stability::unstable>;
using TS = DualStringMappedVector<V, Key2, reference_stability::stable, 2>;
using DP = DualMappedPointerVector<V, Key1, Key2>;

#define MAPPED(P, T, K) LIFE(P, T) VALUES(P, T) FINDV(P, T, K, 1) SINGLE(P, T, K) INSV(P, T, K)
MAPPED(mv, MV, Key1)
ADDIDX(mv, MV, Key1, 1)
MAPPED(ms, MS, Key2)
ADDIDX(ms, MS, Key2, 1)
MAPPED(sv, SV, sv)
MAPPED(ss, SS, sv)
#define POINTER(P, T, K)                                                      \
    LIFE(P, T) SINGLE(P, T, K) ADDIDX(P, T, K, 1) POINTERS(P, T) FINDP(P, T, K, 1) \
    VP long vp_##P##_insert_p(T* c, const K& k, ptr& p) { return opt(c->insert(k, std::move(p))); } \
    VP sz vp_##P##_assign_p(T* c, const K& k, ptr& p) { return c->insert_or_assign(k, std::move(p)); }
POINTER(mp, MP, Key1)
POINTER(mq, MQ, Key2)
LIFE(dv, DV) VALUES(dv, DV) DUAL(dv, DV, Key1, Key2, no_search, no_search, no_search) DUALV(dv, DV, Key1, Key2)
LIFE(ds, DS) VALUES(ds, DS) DUAL(ds, DS, Key2, Key1, no_search, no_search, no_search) DUALV(ds, DS, Key2, Key1)
LIFE(tv, TV) VALUES(tv, TV) DUAL(tv, TV, sv, Key1, no_search, no_search, no_search) DUALV(tv, TV, sv, Key1)
LIFE(ts, TS) VALUES(ts, TS) DUAL(ts, TS, sv, Key2, no_search, no_search, no_search) DUALV(ts, TS, sv, Key2)
LIFE(dp, DP) DUAL(dp, DP, Key1, Key2, no_search, nullptr, nullptr) POINTERS(dp, DP) FINDP(dp, DP, Key1, 1) FINDP(dp, DP, Key2, 2)
VP V* vp_dp_pat(const DP* c, sz n) { return c->at(n); }
VP long vp_dp_insert_p(DP* c, const Key1& k, const Key2& l, ptr& p) { return opt(c->insert(k, l, std::move(p))); }
VP sz vp_dp_assign_p(DP* c, const Key1& k, const Key2& l, ptr& p) { return c->insert_or_assign(k, l, std::move(p)); }
