#include "vp.hpp"

#include "gmlc/containers/WorkQueue.hpp"

using namespace gmlc::containers;
#define VP extern "C"
using WQ = WorkQueue;
using Blk = std::shared_ptr<BasicWorkBlock>;
using Prio = WorkQueue::WorkPriority;

VP void vp_wq_ctor(WQ* q, int n) { new (q) WQ(n); }
VP void vp_wq_dtor(WQ* q) { q->~WQ(); }
VP int vp_wq_getWorkerCount(WQ* q) { return q->getWorkerCount(); }
VP void vp_wq_close(WQ* q) { q->closeWorkerQueue(); }
VP void vp_wq_add_high(WQ* q, const Blk* b) { q->addWorkBlock(*b, Prio::high); }
VP void vp_wq_add_required(WQ* q, const Blk* b) { q->addWorkBlock(*b, Prio::required); }
VP void vp_wq_add_medium(WQ* q, const Blk* b) { q->addWorkBlock(*b, Prio::medium); }
VP void vp_wq_add_default(WQ* q, const Blk* b) { q->addWorkBlock(*b); }
VP void vp_wq_add_low(WQ* q, const Blk* b) { q->addWorkBlock(*b, Prio::low); }
VP void vp_wq_addv_high(WQ* q, std::vector<Blk>* b) { q->addWorkBlock(*b, Prio::high); }
VP void vp_wq_addv_required(WQ* q, std::vector<Blk>* b) { q->addWorkBlock(*b, Prio::required); }
VP void vp_wq_addv_medium(WQ* q, std::vector<Blk>* b) { q->addWorkBlock(*b, Prio::medium); }
VP void vp_wq_addv_default(WQ* q, std::vector<Blk>* b) { q->addWorkBlock(*b); }
VP void vp_wq_addv_low(WQ* q, std::vector<Blk>* b) { q->addWorkBlock(*b, Prio::low); }
VP bool vp_wq_isEmpty(const WQ* q) { return q->isEmpty(); }
VP size_t vp_wq_numBlock(const WQ* q) { return q->numBlock(); }
VP void vp_wq_setPriorityRatio(WQ* q, int r) { q->setPriorityRatio(r); }
VP void vp_wq_getWorkBlock(WQ* q, Blk* out) { new (out) Blk(q->getWorkBlock()); }
VP int vp_wq_defaultRatio() { return defaultPriorityRatio; }

struct Work {
    int operator()() const;
    long tag;
};
struct VWork {
    void operator()() const;
    long tag;
};

#define BLOCK(P, R, F)                                                                          \
    using P##_T = WorkBlock<R>;                                                                 \
    VP void vp_##P##_ctor(P##_T* b) { new (b) P##_T(); }                                        \
    VP void vp_##P##_ctor_task(P##_T* b, std::packaged_task<R()>* t)                            \
    {                                                                                           \
        new (b) P##_T(std::move(*t));                                                           \
    }                                                                                           \
    VP void vp_##P##_ctor_func(P##_T* b, F* f) { new (b) P##_T(std::move(*f)); }                \
    VP void vp_##P##_move_ctor(P##_T* b, P##_T* o) { new (b) P##_T(std::move(*o)); }            \
    VP void vp_##P##_move_assign(P##_T* b, P##_T* o) { *b = std::move(*o); }                    \
    VP void vp_##P##_execute(P##_T* b) { b->P##_T::execute(); }                                 \
    VP bool vp_##P##_isFinished(P##_T* b) { return b->P##_T::isFinished(); }                    \
    VP void vp_##P##_reset(P##_T* b) { b->reset(); }                                            \
    VP void vp_##P##_wait(P##_T* b) { b->wait(); }                                              \
    VP void vp_##P##_updateTask(P##_T* b, std::packaged_task<R()>* t)                           \
    {                                                                                           \
        b->updateTask(std::move(*t));                                                           \
    }                                                                                           \
    VP void vp_##P##_updateWorkFunction(P##_T* b, F* f)                                         \
    {                                                                                           \
        b->updateWorkFunction(std::move(*f));                                                   \
    }                                                                                           \
    VP void vp_##P##_get_future(P##_T* b, std::shared_future<R>* out)                           \
    {                                                                                           \
        new (out) std::shared_future<R>(b->get_future());                                       \
    }

BLOCK(wbi, int, Work)
BLOCK(wbv, void, VWork)
VP int vp_wbi_getReturnVal(wbi_T* b) { return b->getReturnVal(); }
VP void vp_wbv_getReturnVal(wbv_T* b) { b->getReturnVal(); }
