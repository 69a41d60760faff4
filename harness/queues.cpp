#include "vp.hpp"

#include "gmlc/containers/AirLock.hpp"
#include "gmlc/containers/BlockingPriorityQueue.hpp"
#include "gmlc/containers/BlockingQueue.hpp"
#include "gmlc/containers/SimpleQueue.hpp"

using namespace gmlc::containers;
using SQ = SimpleQueue<Elem, Mtx>;
using BQ = BlockingQueue<Elem, Mtx, Cond>;
using PQ = BlockingPriorityQueue<Elem, Mtx, Cond>;
using AL = AirLock<Elem, Mtx, Cond>;
using OE = std::optional<Elem>;
#define VP extern "C"

#define COMMON(P, T)                                                           \
    VP void vp_##P##_ctor(T* q) { new (q) T(); }                               \
    VP void vp_##P##_ctor_cap(T* q, size_t n) { new (q) T(n); }                \
    VP void vp_##P##_dtor(T* q) { q->~T(); }                                   \
    VP void vp_##P##_move_ctor(T* q, T* o) { new (q) T(std::move(*o)); }       \
    VP void vp_##P##_move_assign(T* q, T* o) { *q = std::move(*o); }           \
    VP bool vp_##P##_empty(const T* q) { return q->empty(); }                  \
    VP void vp_##P##_clear(T* q) { q->clear(); }                               \
    VP void vp_##P##_reserve(T* q, size_t n) { q->reserve(n); }                \
    VP void vp_##P##_push_copy(T* q, const Elem* e) { q->push(*e); }           \
    VP void vp_##P##_push_move(T* q, Elem* e) { q->push(std::move(*e)); }      \
    VP void vp_##P##_emplace(T* q, const Elem* e) { q->emplace(*e); }          \
    VP void vp_##P##_emplace_move(T* q, Elem* e) { q->emplace(std::move(*e)); }

COMMON(sq, SQ)
COMMON(bq, BQ)
COMMON(pq, PQ)

VP size_t vp_sq_size(const SQ* q) { return q->size(); }
VP size_t vp_bq_size(const BQ* q) { return q->size(); }
VP void vp_sq_pushVector(SQ* q, const std::vector<Elem>* v) { q->pushVector(*v); }
VP void vp_sq_pop(SQ* q, OE* out) { new (out) OE(q->pop()); }
VP void vp_sq_peek(const SQ* q, OE* out) { new (out) OE(q->peek()); }

#define BLOCKING(P, T)                                                         \
    VP void vp_##P##_try_pop(T* q, OE* out) { new (out) OE(q->try_pop()); }    \
    VP void vp_##P##_try_peek(const T* q, OE* out)                             \
    {                                                                          \
        new (out) OE(q->try_peek());                                           \
    }                                                                          \
    VP void vp_##P##_pop(T* q, Elem* out) { new (out) Elem(q->pop()); }        \
    VP void vp_##P##_pop_timed(T* q, OE* out, Dur d)                           \
    {                                                                          \
        new (out) OE(q->pop(d));                                               \
    }                                                                          \
    VP void vp_##P##_popOrCall(T* q, Elem* out, Callback cb)                   \
    {                                                                          \
        new (out) Elem(q->popOrCall(cb));                                      \
    }
BLOCKING(bq, BQ)
BLOCKING(pq, PQ)

VP void vp_pq_pushPriority_copy(PQ* q, const Elem* e) { q->pushPriority(*e); }
VP void vp_pq_pushPriority_move(PQ* q, Elem* e) { q->pushPriority(std::move(*e)); }
VP void vp_pq_emplacePriority(PQ* q, const Elem* e) { q->emplacePriority(*e); }
VP void vp_pq_emplacePriority_move(PQ* q, Elem* e) { q->emplacePriority(std::move(*e)); }

VP void vp_al_ctor(AL* a) { new (a) AL(); }
VP void vp_al_dtor(AL* a) { a->~AL(); }
VP bool vp_al_try_load_copy(AL* a, const Elem* e) { return a->try_load(*e); }
VP bool vp_al_try_load_move(AL* a, Elem* e) { return a->try_load(std::move(*e)); }
VP void vp_al_load_copy(AL* a, const Elem* e) { a->load(*e); }
VP void vp_al_load_move(AL* a, Elem* e) { a->load(std::move(*e)); }
VP void vp_al_try_unload(AL* a, OE* out) { new (out) OE(a->try_unload()); }
VP bool vp_al_isLoaded(const AL* a) { return a->isLoaded(); }
