"""Jobs of the queue family."""
from . import queues as q

HARNESS = ['queues']
ASSUME = [
    'std::vector, std::queue, std::optional, unique_lock, lock_guard, the mutex and the condition variable behave as the standard says',
    'allocation does not fail; element moves do not throw, copies and construction may',
    'at most 2^40 elements; the analysed instantiation stands for all element, mutex and condition types',
    'objects are not used during their construction or destruction or as the source of a running move',
]
EXPLAIN = {
    '*': 'Every public operation is interpreted abstractly from every state satisfying the class invariant (arbitrary symbolic contents), sequentially '
         'and, thread-modularly, with guarded members arbitrary at each lock acquisition. Obligations are the specification checks at the end of each abstract path.',
    'C01': 'Lock-set analysis: every access of every operation to every member with the locks certainly held; conflicting pairs must share a lock.',
    'C02': 'Lock-order graph over all operations, lock typestate on every path including exceptional ones, waits and callbacks.',
}
RULES = {
    '*': 'contract of the operation on the abstract element sequences (order, identity, count), checked on all abstract paths',
    'C01': 'non-atomic conflicting accesses hold a common mutex',
    'C02': 'acyclic acquisition order; no double lock, no wait or callback under a foreign lock, no lock kept at return or unwind',
    'C05': 'flag marked empty only under both locks; ticket (true to false) is followed by insertion and notify_all; no wait while elements available',
}


def jobs(ctx):
    P = ctx['prog']['queues']
    out = []
    for kind in ('sq', 'bq', 'pq', 'al'):
        for op in q.OPS[kind]:
            out.append(('%s %s' % (q.QUEUES[kind]['name'], op), job(P, kind, op)))
    return out


def job(P, kind, op):
    def run(r):
        sink = {'lockops': set(), 'edges': {}, 'acc': {}, 'acc_maybe': {}}
        if kind != 'al':
            e, n = q.run_seq(P, kind, op, sink)
            r.engine(e, n)
        if kind == 'al' or op not in ('ctor', 'ctor_cap', 'dtor', 'move_ctor'):
            sink = {'lockops': set(), 'edges': {}, 'acc': {}, 'acc_maybe': {}}
            e, n = q.run_conc(P, kind, op, sink)
            r.engine(e, n)
            r.extra['kind'] = kind
            r.extra['acc'] = sink['acc']
            r.extra['edges'] = sink['edges']
            r.obligations = {'member accesses with lock set': len(sink['acc']), 'lock order edges': len(sink['edges']), 'lock operations': len(sink['lockops'])}
    return run


def combine(ctx, results):
    out = []
    for kind in ('sq', 'bq', 'pq', 'al'):
        acc = {}
        edges = {}
        for r in results:
            if r.extra.get('kind') == kind:
                for k, v in r.extra['acc'].items():
                    acc.setdefault(k, v)
                for k, v in r.extra['edges'].items():
                    edges.setdefault(k, v)
        name = q.QUEUES[kind]['name']
        for a, b in q.races(acc):
            wa, ta, _ = acc[a]
            wb, tb, _ = acc[b]
            out.append(dict(property='C01', rule='race on %s' % a[0], message='%s of %s::%s by %s holding {%s} and %s by %s (%s) holding {%s} exclude each other by no lock' % (
                a[2], name, a[0], a[1], ', '.join(sorted(a[3])), b[2], b[1], wb, ', '.join(sorted(b[3]))), where=wa, entry='%s %s / %s' % (name, a[1], b[1]), path=ta, stack=[wa, wb], witness={}))
        for a, b in q.cycles(edges):
            op, w, t = edges[(a, b)]
            out.append(dict(property='C02', rule='lock order %s %s' % (a, b), message='%s is acquired while holding %s by %s, another operation acquires them in the opposite order (%s)' % (
                b, a, op, '; '.join('%s then %s in %s' % (x, y, edges[(x, y)][1]) for x, y in edges if (x, y) != (a, b))), where=w, entry=op, path=t, stack=[w], witness={}))
    return out
