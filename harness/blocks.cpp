#include "vp.hpp"

#include "gmlc/containers/StableBlockDeque.hpp"
#include "gmlc/containers/StableBlockVector.hpp"

using namespace gmlc::containers;
#define VP extern "C"
using sz = std::size_t;
using pd = std::ptrdiff_t;

#define COMMON(P, T)                                                                        \
    VP void vp_##P##_ctor(T* c) { new (c) T(); }                                            \
    VP void vp_##P##_ctor_n(T* c, sz n, const Elem& i) { new (c) T(n, i); }                 \
    VP void vp_##P##_dtor(T* c) { c->~T(); }                                                \
    VP void vp_##P##_copy_ctor(T* c, const T* o) { new (c) T(*o); }                         \
    VP void vp_##P##_move_ctor(T* c, T* o) { new (c) T(std::move(*o)); }                    \
    VP void vp_##P##_copy_assign(T* c, const T* o) { *c = *o; }                             \
    VP void vp_##P##_move_assign(T* c, T* o) { *c = std::move(*o); }                        \
    VP void vp_##P##_push_back_c(T* c, const Elem& v) { c->push_back(v); }                  \
    VP void vp_##P##_push_back_m(T* c, Elem& v) { c->push_back(std::move(v)); }             \
    VP void vp_##P##_emplace_back(T* c, int v) { c->emplace_back(v); }                      \
    VP void vp_##P##_pop_back(T* c) { c->pop_back(); }                                      \
    VP void vp_##P##_clear(T* c) { c->clear(); }                                            \
    VP void vp_##P##_shrink(T* c) { c->shrink_to_fit(); }                                   \
    VP void vp_##P##_assign(T* c, const Elem* f, const Elem* l) { c->assign(f, l); }        \
    VP void vp_##P##_massign(T* c, Elem* f, Elem* l) { c->move_assign(f, l); }              \
    VP Elem* vp_##P##_index(T* c, sz n) { return &(*c)[n]; }                                \
    VP const Elem* vp_##P##_cindex(const T* c, sz n) { return &(*c)[n]; }                   \
    VP Elem* vp_##P##_at(T* c, sz n) { return &c->at(n); }                                  \
    VP const Elem* vp_##P##_cat(const T* c, sz n) { return &c->at(n); }                     \
    VP Elem* vp_##P##_front(T* c) { return &c->front(); }                                   \
    VP const Elem* vp_##P##_cfront(const T* c) { return &c->front(); }                      \
    VP Elem* vp_##P##_back(T* c) { return &c->back(); }                                     \
    VP const Elem* vp_##P##_cback(const T* c) { return &c->back(); }                        \
    VP sz vp_##P##_size(const T* c) { return c->size(); }                                   \
    VP bool vp_##P##_empty(const T* c) { return c->empty(); }                               \
    /* iteration: element reached, end reached, positions distinguished */                 \
    VP Elem* vp_##P##_it_add(T* c, pd k, pd d) { return &*(c->begin() + k + d); }           \
    VP const Elem* vp_##P##_cit_add(const T* c, pd k, pd d)                                 \
    {                                                                                       \
        auto it = c->begin() + k + d;                                                       \
        return &*it;                                                                        \
    }                                                                                       \
    VP Elem* vp_##P##_it_sub(T* c, pd k, pd d) { return &*(c->begin() + k - d); }           \
    VP Elem* vp_##P##_it_inc(T* c, pd k)                                                    \
    {                                                                                       \
        auto it = c->begin() + k;                                                           \
        ++it;                                                                               \
        return &*it;                                                                        \
    }                                                                                       \
    VP Elem* vp_##P##_it_dec(T* c, pd k)                                                    \
    {                                                                                       \
        auto it = c->begin() + k;                                                           \
        --it;                                                                               \
        return &*it;                                                                        \
    }                                                                                       \
    VP Elem* vp_##P##_it_incp(T* c, pd k)                                                   \
    {                                                                                       \
        auto it = c->begin() + k;                                                           \
        return &*(it++);                                                                    \
    }                                                                                       \
    VP Elem* vp_##P##_it_incp2(T* c, pd k)                                                  \
    {                                                                                       \
        auto it = c->begin() + k;                                                           \
        it++;                                                                               \
        return &*it;                                                                        \
    }                                                                                       \
    VP Elem* vp_##P##_it_decp(T* c, pd k)                                                   \
    {                                                                                       \
        auto it = c->begin() + k;                                                           \
        return &*(it--);                                                                    \
    }                                                                                       \
    VP Elem* vp_##P##_it_decp2(T* c, pd k)                                                  \
    {                                                                                       \
        auto it = c->begin() + k;                                                           \
        it--;                                                                               \
        return &*it;                                                                        \
    }                                                                                       \
    VP Elem* vp_##P##_it_end_sub(T* c, pd k) { return &*(c->end() - k); }                   \
    VP Elem* vp_##P##_it_end_dec(T* c)                                                      \
    {                                                                                       \
        auto it = c->end();                                                                 \
        --it;                                                                               \
        return &*it;                                                                        \
    }                                                                                       \
    VP const Elem* vp_##P##_it_arrow(T* c, pd k)                                            \
    {                                                                                       \
        auto it = c->begin() + k;                                                           \
        return it.operator->();                                                             \
    }                                                                                       \
    /* iterators as they are handed out, not moved before */                                \
    VP Elem* vp_##P##_it_begin(T* c) { return &*c->begin(); }                               \
    VP const Elem* vp_##P##_cit_begin(const T* c)                                           \
    {                                                                                       \
        const auto it = c->begin();                                                         \
        return &*it;                                                                        \
    }                                                                                       \
    VP const Elem* vp_##P##_cit_cbegin(T* c)                                                \
    {                                                                                       \
        auto it = c->cbegin();                                                              \
        return it.operator->();                                                             \
    }                                                                                       \
    VP const Elem* vp_##P##_cit_inc(const T* c, pd k)                                       \
    {                                                                                       \
        auto it = c->begin() + k;                                                           \
        ++it;                                                                               \
        return &*it;                                                                        \
    }                                                                                       \
    VP const Elem* vp_##P##_cit_end_sub(const T* c, pd k)                                   \
    {                                                                                       \
        auto it = c->end() - k;                                                             \
        return &*it;                                                                        \
    }                                                                                       \
    VP bool vp_##P##_beg_end(T* c) { return c->begin() == c->end(); }                       \
    VP bool vp_##P##_beg_cend(const T* c) { return c->begin() == c->end(); }                \
    VP bool vp_##P##_beg_mix(T* c)                                                          \
    {                                                                                       \
        const T& k = *c;                                                                    \
        return c->begin() == k.begin();                                                     \
    }                                                                                       \
    VP bool vp_##P##_beg_mixe(T* c) { return c->end() == c->cend(); }                       \
    VP bool vp_##P##_eq(T* c, pd i, pd j) { return c->begin() + i == c->begin() + j; }      \
    VP bool vp_##P##_ne(T* c, pd i, pd j) { return c->begin() + i != c->begin() + j; }      \
    VP bool vp_##P##_eq_end(T* c, pd i) { return c->begin() + i == c->end(); }              \
    VP bool vp_##P##_ceq_end(const T* c, pd i) { return c->begin() + i == c->end(); }       \
    VP bool vp_##P##_ceq_cend(T* c, pd i) { return c->cbegin() + i == c->cend(); }          \
    VP bool vp_##P##_inc_end(T* c, pd i) { return ++(c->begin() + i) == c->end(); }         \
    VP bool vp_##P##_inc_eq(T* c, pd i) { return ++(c->begin() + i) == c->begin() + (i + 1); } \
    VP bool vp_##P##_dec_eq(T* c, pd i) { return --(c->begin() + (i + 1)) == c->begin() + i; } \
    VP bool vp_##P##_end_eq(T* c, pd i, pd k) { return c->end() - k == c->begin() + i; }    \
    VP bool vp_##P##_mix_eq(T* c, pd i, pd j)                                               \
    {                                                                                       \
        const T& k = *c;                                                                    \
        return c->begin() + i == k.begin() + j;                                             \
    }                                                                                       \
    VP bool vp_##P##_mix_ne(T* c, pd i, pd j)                                               \
    {                                                                                       \
        const T& k = *c;                                                                    \
        return k.begin() + i != c->begin() + j;                                             \
    }                                                                                       \
    VP bool vp_##P##_mix_end(T* c, pd i)                                                    \
    {                                                                                       \
        const T& k = *c;                                                                    \
        return c->begin() + i == k.end();                                                   \
    }                                                                                       \
    VP bool vp_##P##_mix_cend(T* c, pd i)                                                   \
    {                                                                                       \
        return c->end() == c->cbegin() + i;                                                 \
    }

#define DQ(P, T)                                                                            \
    VP void vp_##P##_push_front_c(T* c, const Elem& v) { c->push_front(v); }                \
    VP void vp_##P##_push_front_m(T* c, Elem& v) { c->push_front(std::move(v)); }           \
    VP void vp_##P##_emplace_front(T* c, int v) { c->emplace_front(v); }                    \
    VP void vp_##P##_pop_front(T* c) { c->pop_front(); }

#define BOTH(N)                                                                             \
    using SV##N = StableBlockVector<Elem, N>;                                               \
    using SD##N = StableBlockDeque<Elem, N>;                                                \
    COMMON(v##N, SV##N)                                                                     \
    COMMON(d##N, SD##N)                                                                     \
    DQ(d##N, SD##N)

BOTH(0)
BOTH(1)
BOTH(2)
#ifdef VP_THOROUGH
BOTH(3)
BOTH(5)
#endif
