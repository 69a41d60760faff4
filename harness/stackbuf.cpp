#include "vp.hpp"

#include "gmlc/containers/StackBuffer.hpp"

using namespace gmlc::containers;
#define VP extern "C"
using SB = StackBuffer;
using SR = StackBufferRaw;
using uc = unsigned char;

#define COMMON(P, T)                                                                     \
    VP int vp_##P##_capacity(const T* b) { return b->capacity(); }                       \
    VP int vp_##P##_count(const T* b) { return b->getCurrentCount(); }                   \
    VP bool vp_##P##_empty(const T* b) { return b->empty(); }                            \
    VP bool vp_##P##_avail(const T* b, int n) { return b->isSpaceAvailable(n); }         \
    VP bool vp_##P##_push(T* b, const uc* d, int n) { return b->push(d, n); }            \
    VP int vp_##P##_avail_push(T* b, const uc* d, int n)                                 \
    {                                                                                    \
        int a = b->isSpaceAvailable(n) ? 2 : 0;                                          \
        return a + (b->push(d, n) ? 1 : 0);                                              \
    }                                                                                    \
    VP int vp_##P##_next(const T* b) { return b->nextDataSize(); }                       \
    VP int vp_##P##_pop(T* b, uc* d, int n) { return b->pop(d, n); }                     \
    VP void vp_##P##_reverse(T* b) { b->reverse(); }                                     \
    VP void vp_##P##_clear(T* b) { b->clear(); }                                         \
    VP void vp_##P##_swap(T* b, T* o) { b->swap(*o); }                                   \
    VP void vp_##P##_ctor(T* b) { new (b) T(); }

COMMON(sr, SR)
COMMON(sb, SB)
VP void vp_sr_ctor_size(SR* b, uc* d, int n) { new (b) SR(d, n); }
VP void vp_sb_ctor_size(SB* b, int n) { new (b) SB(n); }
VP void vp_sb_dtor(SB* b) { b->~SB(); }
VP int vp_sb_raw(const SB* b) { return b->rawBlockCapacity(); }
VP bool vp_sb_resize(SB* b, int n) { return b->resize(n); }
VP void vp_sb_copy_ctor(SB* b, const SB* o) { new (b) SB(*o); }
VP void vp_sb_move_ctor(SB* b, SB* o) { new (b) SB(std::move(*o)); }
VP void vp_sb_copy_assign(SB* b, const SB* o) { *b = *o; }
VP void vp_sb_move_assign(SB* b, SB* o) { *b = std::move(*o); }
