#include "vp.hpp"

#include "gmlc/containers/CircularBuffer.hpp"

using namespace gmlc::containers;
#define VP extern "C"
using CB = CircularBuffer;
using CR = CircularBufferRaw;
using uc = unsigned char;

#define COMMON(P, T)                                                                     \
    VP int vp_##P##_capacity(const T* b) { return b->capacity(); }                       \
    VP bool vp_##P##_empty(const T* b) { return b->empty(); }                            \
    VP bool vp_##P##_avail(const T* b, int n) { return b->isSpaceAvailable(n); }         \
    VP bool vp_##P##_push(T* b, const uc* d, int n) { return b->push(d, n); }            \
    VP int vp_##P##_avail_push(T* b, const uc* d, int n)                                 \
    {                                                                                    \
        int a = b->isSpaceAvailable(n) ? 2 : 0;                                          \
        return a + (b->push(d, n) ? 1 : 0);                                              \
    }                                                                                    \
    VP int vp_##P##_next(const T* b) { return b->nextDataSize(); }                       \
    VP int vp_##P##_pop(T* b, uc* d, int n) { return b->pop(d, n); }                     \
    VP void vp_##P##_clear(T* b) { b->clear(); }

COMMON(cr, CR)
COMMON(cb, CB)
VP void vp_cr_ctor_size(CR* b, uc* d, int n) { new (b) CR(d, n); }
VP void vp_cb_ctor(CB* b) { new (b) CB(); }
VP void vp_cb_ctor_size(CB* b, int n) { new (b) CB(n); }
VP void vp_cb_dtor(CB* b) { b->~CB(); }
VP void vp_cb_resize(CB* b, int n) { b->resize(n); }
VP void vp_cb_copy_ctor(CB* b, const CB* o) { new (b) CB(*o); }
VP void vp_cb_move_ctor(CB* b, CB* o) { new (b) CB(std::move(*o)); }
VP void vp_cb_copy_assign(CB* b, const CB* o) { *b = *o; }
VP void vp_cb_move_assign(CB* b, CB* o) { *b = std::move(*o); }
