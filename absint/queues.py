"""Specifications of SimpleQueue, BlockingQueue, BlockingPriorityQueue and
AirLock (C01..C08)."""
from .poly import Lin, C, ZERO, fresh
from .engine import (Engine, Spec, Ghost, State, Ptr, NULL, UNDEF, Obj, Model, Opq, Agg, Undecided, Stop, Throw, Fork, loc)
from .models import (ModelSpec, OpaqueClass, PlainClass, ALL, new_var, new_seq, seqlen, seqnorm, seqrev, seq_equal,
                     show_seq, locate, where, set_seq, blob_equal)

QUEUES = {
    'sq': dict(cls='gmlc::containers::SimpleQueue<Elem, Mtx>', name='SimpleQueue'),
    'bq': dict(cls='gmlc::containers::BlockingQueue<Elem, Mtx, Cond>', name='BlockingQueue'),
    'pq': dict(cls='gmlc::containers::BlockingPriorityQueue<Elem, Mtx, Cond>', name='BlockingPriorityQueue'),
    'al': dict(cls='gmlc::containers::AirLock<Elem, Mtx, Cond>', name='AirLock'),
}
COMMON = ['ctor', 'ctor_cap', 'dtor', 'move_ctor', 'move_assign', 'empty', 'clear', 'reserve', 'push_copy', 'push_move', 'emplace', 'emplace_move']
OPS = {
    'sq': COMMON + ['size', 'pushVector', 'pop', 'peek'],
    'bq': COMMON + ['size', 'try_pop', 'try_peek', 'pop', 'pop_timed', 'popOrCall'],
    'pq': COMMON + ['try_pop', 'try_peek', 'pop', 'pop_timed', 'popOrCall', 'pushPriority_copy', 'pushPriority_move', 'emplacePriority', 'emplacePriority_move'],
}
OPS['al'] = AL_OPS = ['ctor', 'dtor', 'try_load_copy', 'try_load_move', 'load_copy', 'load_move', 'try_unload', 'isLoaded']
PUSHES = {'push_copy': 'Q', 'push_move': 'Q', 'emplace': 'Q', 'emplace_move': 'Q', 'pushPriority_copy': 'P', 'pushPriority_move': 'P',
          'emplacePriority': 'P', 'emplacePriority_move': 'P'}
POPS = ('pop', 'try_pop', 'pop_timed', 'popOrCall')
PEEKS = ('peek', 'try_peek')
OPTSIZE = 16


class Layout:
    """roles of the members, by name and otherwise by type and order"""

    def __init__(self, types, cls):
        t = types.get(cls)
        if t is None:
            raise KeyError('class %s vanished' % cls)
        self.size = t['size']
        self.mem = t['mem']
        self.role = {}   # offset -> role
        self.off = {}    # role -> offset
        self.unknown = []
        vecs = [m for m in self.mem if m['ty'].startswith('vector<')]
        mtx = [m for m in self.mem if m['ty'] == 'Mtx']
        flags = [m for m in self.mem if m['ty'] in ('atomic<bool>', 'atomic_bool', 'bool')]
        prio = [m for m in self.mem if m['ty'].startswith('queue<') or m['ty'].startswith('deque<')]
        cond = [m for m in self.mem if m['ty'] == 'Cond']
        elem = [m for m in self.mem if m['ty'] == 'Elem']

        def pick(lst, role, names, pos):
            for m in lst:
                if m['n'] in names:
                    return self.set(role, m)
            rest = [m for m in lst if m['o'] not in self.role]
            if rest:
                return self.set(role, rest[min(pos, len(rest) - 1)])
        if vecs:
            pick([m for m in vecs if 'push' in m['n'].lower()] or vecs, 'push', ('pushElements',), 0)
            pick([m for m in vecs if 'pull' in m['n'].lower()] or vecs, 'pull', ('pullElements',), 0)
            pick([m for m in mtx if 'push' in m['n'].lower()] or mtx, 'pushLock', ('m_pushLock',), 0)
            pick([m for m in mtx if 'pull' in m['n'].lower()] or mtx, 'pullLock', ('m_pullLock',), 0)
            pick(prio, 'prio', ('priorityQueue',), 0)
            pick([m for m in flags if 'mpty' in m['n']] or flags, 'flag', ('queueEmptyFlag',), 0)
        else:
            pick(mtx, 'door', ('door',), 0)
            pick(elem, 'data', ('data',), 0)
            pick(flags, 'loaded', ('loaded',), 0)
        pick(cond, 'cond', ('condition',), 0)
        for m in self.mem:
            if m['o'] not in self.role:
                self.unknown.append(m)

    def set(self, role, m):
        if m is not None:
            self.role[m['o']] = role
            self.off[role] = m['o']
            setattr(self, 'z_' + role, m['z'])

    def find(self, off):
        for m in self.mem:
            if m['o'] <= off < m['o'] + max(m['z'], 1):
                return self.role.get(m['o'], m['n'])
        return None


class QGhost(Ghost):
    seqs = ('Q', 'P', 'Q2', 'P2', 'L', 'Y', 'Z', 'lastL', 'lastZ')

    def __init__(self):
        self.held = ()        # (name) of locks held, in order
        self.Q = self.P = None
        self.Q2 = self.P2 = None
        self.L = None         # expected delivery order of the pull side
        self.Y = None         # content of push at the acquisition of its lock
        self.Z = None         # content of prio at the acquisition of pullLock
        self.lastL = self.lastZ = None
        self.nothrow = False
        self.waits = ()
        self.removed = ()
        self.inserted = ()
        self.evidence = False
        self.sec_flag_true = False   # flag stored true, everything empty, in this section
        self.sec_flag_false = False  # flag known false in this pullLock section
        self.push_flag_false = False  # flag known false in this pushLock section
        self.push_was_empty = False
        self.seen_push_empty = False  # push was seen empty by this operation
        self.ticket = False
        self.need_notify = False
        self.cleared = ()
        self.flagv = None     # SimpleQueue: value of the flag while pullLock is held
        self.loaded = None
        self.data0 = None
        self.loaded0 = None
        self.sawLoaded = ()
        self.trans = ()
        self.front = None


class QSpecBase(ModelSpec, Spec):
    classes = {'Elem': OpaqueClass('Elem', 8)}

    def __init__(self, prog, kind, op, conc, sink):
        self.prog = prog
        self.kind = kind
        self.op = op
        self.conc = conc
        self.sink = sink     # shared facts: accesses, edges
        self.lay = Layout(prog.types, QUEUES[kind]['cls'])
        self.mem_props = {'*': 'C03' if kind != 'al' else 'C07'}
        self.obj = None
        self.src = None

    # which container member is at (region, offset)
    def member(self, rid, off):
        if rid in (self.obj, self.src) and not off.t:
            m = self.lay.find(off.c)
            return ('src.' if rid == self.src else '') + (m or '?')
        return None

    def models(self):
        return [self.m_harness] + ALL

    def m_harness(self, e, fn):
        d = fn['dem']
        if not fn['decl'] and not (fn.get('std') and fn['base'] in ('lock', 'try_lock') and fn['scopes'] == ['std']):
            return None
        if fn.get('std') and not fn['decl']:
            if fn['base'] == 'lock':
                return self.h_stdlock
            return None
        t = {'Mtx::lock()': self.h_lock, 'Mtx::unlock()': self.h_unlock, 'Mtx::try_lock()': self.h_trylock,
             'Mtx::Mtx()': self.h_nop, 'Mtx::~Mtx()': self.h_nop, 'Cond::Cond()': self.h_nop, 'Cond::~Cond()': self.h_nop,
             'Cond::notify_one()': lambda *a: self.h_notify(False, *a), 'Cond::notify_all()': lambda *a: self.h_notify(True, *a),
             'Callback::operator()() const': self.h_callback}
        if d in t:
            return t[d]
        if d.startswith('Cond::wait('):
            return self.h_wait
        if d.startswith('Cond::timedWait('):
            return self.h_timedwait
        return None

    def h_nop(self, e, st, fn, a, ins):
        return None

    def lockname(self, st, p):
        if not isinstance(p, Ptr):
            raise Undecided('mutex address')
        n = self.member(p.r, st.poly.norm(p.o))
        return n or 'other#%d' % p.r

    def h_lock(self, e, st, fn, a, ins):
        self.acquire(st, self.lockname(st, a[0]))

    def h_stdlock(self, e, st, fn, a, ins):
        # deadlock free: no order among them
        for p in a:
            n = self.lockname(st, self.eng.load(st, p, 8, 'ptr') if p.r in st.regions and st.regions[p.r].kind == 'stack' else p)
            self.acquire(st, n, order=False)
            if p.r in st.regions and st.regions[p.r].kind == 'stack':
                self.eng.store(st, p + 8, 1, C(1))

    def h_trylock(self, e, st, fn, a, ins):
        n = self.lockname(st, a[0])
        if st.choose('try_lock', 2, ['busy', 'acquired']):
            self.acquire(st, n, order=False)
            return C(1)
        return ZERO

    def acquire(self, st, n, order=True):
        g = st.ghost
        self.sink['lockops'].add((self.op, n, where(st)))
        if n in g.held:
            self.eng.report(st, 'C02', 'lock taken twice', '%s is locked while this thread holds it already' % n)
            raise Stop()
        if order and st.inexact is None:
            for h in g.held:
                self.sink['edges'].setdefault((h, n), (self.kind + '_' + self.op, where(st), st.trace_list()))
        g.held = g.held + (n,)
        self.on_acquire(st, n)

    def h_unlock(self, e, st, fn, a, ins):
        n = self.lockname(st, a[0])
        g = st.ghost
        if n not in g.held:
            self.eng.report(st, 'C02', 'unlock without lock', '%s is unlocked but not held' % n)
            raise Stop()
        self.on_release(st, n)
        g.held = tuple(h for h in g.held if h != n)

    def on_acquire(self, st, n):
        pass

    def on_release(self, st, n):
        pass

    def h_notify(self, all_, e, st, fn, a, ins):
        self.on_notify(st, all_)
        return None

    def on_notify(self, st, all_):
        pass

    def h_callback(self, e, st, fn, a, ins):
        if st.ghost.held:
            self.eng.report(st, 'C02', 'callback under lock', 'the user callback runs while %s is held' % ', '.join(st.ghost.held))
        if st.choose('callback', 2, ['returns', 'throws']):
            raise Throw('user')
        self.on_havoc_all(st)
        return None

    def on_havoc_all(self, st):
        pass

    def waitlock(self, st, p):
        m = self.eng.load(st, p, 8, 'ptr')
        return self.lockname(st, m)

    def h_wait(self, e, st, fn, a, ins):
        n = self.waitlock(st, a[1])
        self.check_wait(st, n)
        self.do_wait(st, n, None)
        return None

    def h_timedwait(self, e, st, fn, a, ins):
        n = self.waitlock(st, a[1])
        self.check_wait(st, n)
        r = st.choose('timed wait', 2, ['is notified or wakes up', 'times out'])
        d = None
        p = a[2]
        try:
            d = self.eng.load(st, p, 8, 'i64')
        except Undecided:
            pass
        self.do_wait(st, n, (d, r))
        return C(r)

    def check_wait(self, st, n):
        g = st.ghost
        if n not in g.held:
            self.eng.report(st, 'C02', 'wait without lock', 'waiting with %s not held' % n)
            raise Stop()
        if len(g.held) > 1:
            self.eng.report(st, 'C02', 'wait with lock', 'waiting while also holding %s' % ', '.join(h for h in g.held if h != n))

    def end_locks(self, st):
        if st.ghost.held:
            how = 'an exception' if st.exc else 'return'
            self.eng.report(st, 'C02', 'lock not released', '%s still held at %s of %s' % (', '.join(st.ghost.held), how, self.op))

    # set up the object with abstract content
    def make_object(self, st, raw=False):
        r = st.new_region('arg', self.lay.size, self.kind, self.lazy)
        if raw:
            r.init = 'undef'
        return r.rid

    def lazy(self, e, st, r, off, size, t):
        """content of members the specification does not know"""
        st.approx('unknown member at offset %r' % off)
        if t == 'ptr':
            return NULL if st.choose('unknown pointer member null') else Ptr(st.new_region('opaque', 1 << 30, 'unknown', 'opaque').rid)
        if t.startswith('i'):
            return st.sym('member', 0, (1 << (8 * size)) - 1)
        raise Undecided('unknown member')

    def vec_at(self, st, obj, role):
        v = st.regions[obj].cells.get(C(self.lay.off[role]))
        if v is None or not isinstance(v[1], Model):
            return None
        return v[1].r

    def fill(self, st, obj, pull, push, prio, flag):
        w = st.w(obj)
        for role, segs, k in (('pull', pull, 'vector'), ('push', push, 'vector'), ('prio', prio, 'queue')):
            if role in self.lay.off:
                s = new_seq(self.eng, st, k, 'Elem', segs, role)
                w.cells[C(self.lay.off[role])] = (24 if k == 'vector' else 80, Model(k, s.rid))
        w.cells[C(self.lay.off['flag'])] = (1, flag)

    def role_of_seq(self, st, rid):
        for obj in (self.obj, self.src):
            if obj is None or obj not in st.regions:
                continue
            for o, (z, v) in st.regions[obj].cells.items():
                if isinstance(v, Model) and v.r == rid:
                    return self.member(obj, o)
        return None

    def args_for(self, st):
        """argument list, arguments remembered in self"""
        op = self.op
        self.out = None
        self.val = None
        a = [Ptr(self.obj)]
        if op in ('move_ctor', 'move_assign'):
            a.append(Ptr(self.src))
        elif op in PUSHES or op in ('try_load_copy', 'try_load_move', 'load_copy', 'load_move'):
            r = st.new_region('arg', 8, 'value')
            v = Obj('Elem', 'newvalue')
            r.cells[ZERO] = (8, v)
            self.val = v
            self.valr = r.rid
            a.append(Ptr(r.rid))
        elif op == 'pushVector':
            st.ghost.nothrow = True   # one by one, a throwing copy would leave some of the vector behind
            r = st.new_region('arg', 24, 'values')
            self.valvar = new_var(st, 'val')
            s = new_seq(self.eng, st, 'vector', 'Elem', (self.valvar,), 'values')
            r.cells[ZERO] = (24, Model('vector', s.rid))
            self.valseq = s.rid
            a.append(Ptr(r.rid))
        elif op in ('ctor_cap', 'reserve'):
            a.append(st.sym('capacity', 0, 1 << 40))
        elif op in POPS or op in PEEKS or op == 'try_unload':
            r = st.new_region('arg', OPTSIZE, 'result')
            self.out = r.rid
            a.append(Ptr(r.rid))
            if op == 'pop_timed':
                self.dur = st.sym('timeout', 0, 1 << 60)
                a.append(self.dur)
            if op == 'popOrCall':
                a.append(st.sym('callback', 0, 1 << 60))
        return a

    def plain_elem_result(self):
        return self.op in ('pop', 'popOrCall') and self.kind != 'sq'

    def result(self, st):
        """Obj or None for an empty optional"""
        if self.plain_elem_result():
            return self.eng.load(st, Ptr(self.out), 8, 'Elem')
        f = self.eng.load(st, Ptr(self.out, C(8)), 1, 'i8')
        if f is UNDEF:
            raise Undecided('result not initialised')
        if st.eq0(f):
            return None
        return self.eng.load(st, Ptr(self.out), 8, 'Elem')


def fmt(v):
    return 'nothing' if v is None else repr(v)


# ---------------------------------------------------------------------------
class SeqSpec(QSpecBase):
    """one operation on a quiescent queue, everything else at rest"""

    def start(self, quiet=None):
        st = State()
        st.ghost = QGhost()
        op = self.op
        raw = op in ('ctor', 'ctor_cap', 'move_ctor')
        self.obj = self.make_object(st, raw)
        g = st.ghost
        g.Q = ()
        g.P = ()
        if not raw:
            g.Q, g.P = self.quiescent(st, self.obj)
        if op in ('move_ctor', 'move_assign'):
            self.src = self.make_object(st)
            g.Q2, g.P2 = self.quiescent(st, self.src)
        st_args = self.args_for(st)
        return st, st_args

    def quiescent(self, st, obj):
        pull = (new_var(st, 'pull'),)
        push = (new_var(st, 'push'),)
        prio = (new_var(st, 'prio'),) if 'prio' in self.lay.off else ()
        flag = st.sym('flag', 0, 1)
        self.pending = (obj, pull, push, prio, flag)
        self.fill(st, obj, pull, push, prio, flag)
        return seqrev(pull) + push, prio

    def variants(self, st, obj):
        """the quiescent states: the flag tells emptiness and nothing waits in
        push while pull (and the priority channel) are empty"""
        out = []
        lp = lambda s, role: seqlen(s.regions[self.vec_at(s, obj, role)].data)
        # all empty
        s = st.clone()
        s.poly.add_eq(lp(s, 'pull'))
        s.poly.add_eq(lp(s, 'push'))
        if 'prio' in self.lay.off:
            s.poly.add_eq(lp(s, 'prio'))
        fo = C(self.lay.off['flag'])
        s.poly.add_eq(s.regions[obj].cells[fo][1] - 1)
        s.note('start: queue %d empty' % (1 if obj == self.obj else 2))
        out.append(s)
        s = st.clone()
        s.poly.add_ge(lp(s, 'pull') - 1)
        s.poly.add_eq(s.regions[obj].cells[fo][1])
        s.note('start: pull side not empty')
        out.append(s)
        if 'prio' in self.lay.off:
            s = st.clone()
            s.poly.add_eq(lp(s, 'pull'))
            s.poly.add_ge(lp(s, 'prio') - 1)
            s.poly.add_eq(s.regions[obj].cells[fo][1])
            s.note('start: only priority elements on the pull side')
            out.append(s)
        return out

    def starts(self):
        st, args = self.start()
        sts = [st]
        if self.op not in ('ctor', 'ctor_cap', 'move_ctor'):
            sts = [x for s in sts for x in self.variants(s, self.obj)]
        if self.src is not None:
            sts = [x for s in sts for x in self.variants(s, self.src)]
        return sts, args

    def do_wait(self, st, n, timed):
        g = st.ghost
        g.waits = g.waits + (timed,) if len(g.waits) < 2 else g.waits[-1:] + (timed,)
        if timed is not None and self.op == 'pop_timed':
            if not (isinstance(timed[0], Lin) and st.poly.entails_eq(timed[0] - self.dur)):
                self.eng.report(st, 'C08', 'timeout', 'the wait is not bounded by the requested timeout')
        if timed is None and self.op == 'pop_timed':
            self.eng.report(st, 'C08', 'untimed wait', 'the timed pop waits without bound')
        # other threads act meanwhile: any quiescent state
        k = st.choose('meanwhile', 3 if 'prio' in self.lay.off else 2, ['the queue stays or gets empty', 'elements arrived', 'priority elements arrived'])
        self.havoc(st, k)

    def on_havoc_all(self, st):
        k = st.choose('meanwhile', 3 if 'prio' in self.lay.off else 2, ['the queue stays or gets empty', 'elements arrived', 'priority elements arrived'])
        self.havoc(st, k)

    def havoc(self, st, k):
        g = st.ghost
        pull = (new_var(st, 'pull', 1),) if k == 1 else ()
        push = (new_var(st, 'push'),) if k >= 1 else ()
        prio = (new_var(st, 'prio', 1 if k == 2 else 0),) if 'prio' in self.lay.off and k else ()
        for role, segs in (('pull', pull), ('push', push), ('prio', prio)):
            if role in self.lay.off:
                rid = self.vec_at(st, self.obj, role)
                if rid is None:
                    raise Undecided('container member in flux')
                set_seq(st, rid, segs)
        st.w(self.obj).cells[C(self.lay.off['flag'])] = (1, C(0 if k else 1))
        g.Q = seqrev(pull) + push
        g.P = prio

    def content(self, st, obj):
        pull = self.vec_at(st, obj, 'pull')
        push = self.vec_at(st, obj, 'push')
        if pull is None or push is None:
            raise Undecided('representation')
        q = seqrev(st.regions[pull].data) + st.regions[push].data
        p = ()
        if 'prio' in self.lay.off:
            r = self.vec_at(st, obj, 'prio')
            if r is None:
                raise Undecided('representation')
            p = st.regions[r].data
        return q, p

    # expected effect
    def finish(self, st, collect):
        e = self.eng
        g = st.ghost
        op = self.op
        self.end_locks(st)
        if op == 'dtor':
            collect['done'] += 1
            return
        wantQ, wantP = g.Q, g.P
        prop = 'C03'
        if st.exc:
            if op in ('push_move', 'emplace_move') and st.exc == 'user':
                pass
        else:
            if op in PUSHES:
                seg = (('e', ((0, 8, self.val),)),)
                if PUSHES[op] == 'Q':
                    wantQ = wantQ + seg
                else:
                    wantP = wantP + seg
            elif op == 'pushVector':
                wantQ = wantQ + st.regions[self.valseq].data
            elif op == 'clear':
                wantQ = wantP = ()
            elif op in ('move_ctor', 'move_assign'):
                wantQ, wantP = g.Q2, g.P2
            elif op in POPS or op in PEEKS:
                res = self.result(st)
                chan = 'prio' if not self.seq_empty(st, wantP) else 'ord'
                want = wantP if chan == 'prio' else wantQ
                if self.seq_empty(st, want):
                    exp = None
                else:
                    exp, rest = self.first(st, chan)
                if op in PEEKS:
                    ok = same_val(res, exp)
                    if not ok:
                        e.report(st, 'C06' if chan == 'prio' and res is not None else 'C04', 'peek result', '%s returns %s, the next element is %s' % (op, fmt(res), fmt(exp)))
                else:
                    if not same_val(res, exp):
                        p = 'C03'
                        if res is None:
                            p = 'C08' if op == 'pop_timed' else 'C04'
                        elif chan == 'prio':
                            p = 'C06'
                        e.report(st, p, 'pop result', '%s returns %s, the first element is %s' % (op, fmt(res), fmt(exp)), stop=True)
                    if exp is not None:
                        if chan == 'prio':
                            wantP = g.P[1:]
                        else:
                            wantQ = g.Q[1:]
                    if op == 'pop_timed' and res is None:
                        if not any(w is not None and w[1] == 1 for w in g.waits):
                            e.report(st, 'C08', 'gave up early', 'pop(timeout) returns nothing although no wait with the timeout has timed out')
                if op in PEEKS:
                    wantQ, wantP = g.Q, g.P
        gotQ, gotP = self.content(st, self.obj)
        if op in POPS and not st.exc:
            pass
        what = op + (' that throws' if st.exc else '')
        if not seq_equal(st, gotQ, wantQ):
            e.report(st, 'C03', 'content', 'after %s the queue holds %s instead of %s' % (what, show_seq(st, gotQ), show_seq(st, wantQ)), stop=True)
        if not seq_equal(st, gotP, wantP):
            e.report(st, 'C06' if op not in ('clear', 'move_ctor', 'move_assign') else 'C03', 'content', 'after %s the priority channel holds %s instead of %s' % (what, show_seq(st, gotP), show_seq(st, wantP)), stop=True)
        g.Q, g.P = seqnorm(st, wantQ), seqnorm(st, wantP)
        if self.src is not None:
            q2, p2 = self.content(st, self.src)
            if not (self.seq_empty(st, q2) and self.seq_empty(st, p2)):
                e.report(st, 'C03', 'content', 'after %s the source still holds %s' % (op, show_seq(st, q2)), stop=True)
        if op == 'empty' and not st.exc:
            self.check_empty(st, st.ret, 'empty()')
        if op == 'size' and not st.exc:
            n = seqlen(g.Q)
            if not (isinstance(st.ret, Lin) and st.poly.entails_eq(st.ret - n)):
                e.report(st, 'C04', 'size', 'size() returns %r for %r elements' % (st.ret, st.poly.norm(n)))
        collect['done'] += 1
        collect['post'].append((st.clone(), self.obj))
        if self.src is not None:
            s2 = st.clone()
            s2.ghost.Q = s2.ghost.P = ()
            collect['post'].append((s2, self.src))

    def check_empty(self, st, v, what):
        g = st.ghost
        emp = self.seq_empty(st, g.Q) and self.seq_empty(st, g.P)
        if st.eq0(v) == emp:
            self.eng.report(st, 'C04', 'empty', '%s is %s for a queue holding %s%s' % (what, 'false' if emp else 'true', show_seq(st, g.Q), show_seq(st, g.P) if g.P else ''))

    def seq_empty(self, st, segs):
        segs = seqnorm(st, segs)
        if any(s[0] == 'e' for s in segs):
            return False
        return not st.ge(seqlen(segs) - 1, 'there are elements')

    def first(self, st, chan):
        """first element of the expected channel (held in the ghost)"""
        g = st.ghost
        name = 'P' if chan == 'prio' else 'Q'
        for _ in range(6):
            segs = seqnorm(st, getattr(g, name))
            setattr(g, name, segs)
            s = segs[0]
            if s[0] == 'e':
                return s[1][0][2], segs[1:]
            if st.ge(s[3] - 1):
                from .models import split_elem
                split_elem(self.eng, st, s, ZERO, 'Elem')
            else:
                raise Undecided('first element')
        raise Undecided('first element')


class ConcSpec(QSpecBase):
    """one operation while any other operations run: guarded members are
    arbitrary at each acquisition of their lock (rely), what the operation
    does to them is summarised at each release (guarantee)"""

    def start(self):
        st = State()
        g = st.ghost = CGhost()
        self.obj = self.make_object(st)
        self.fill(st, self.obj, (new_var(st, 'pull'),), (new_var(st, 'push'),), (new_var(st, 'prio'),), UNDEF)
        sts = [st]
        if self.op == 'move_assign':
            self.src = self.make_object(st)
            self.fill(st, self.src, (new_var(st, 'pull2'),), (new_var(st, 'push2'),), (new_var(st, 'prio2'),), ZERO)
            sts = []
            a = st.clone()
            for role in ('pull', 'push', 'prio'):
                if role in self.lay.off:
                    a.poly.add_eq(seqlen(a.regions[self.vec_at(a, self.src, role)].data))
            a.w(self.src).cells[C(self.lay.off['flag'])] = (1, C(1))
            a.note('start: the source is empty')
            sts.append(a)
            b = st.clone()
            b.poly.add_ge(seqlen(b.regions[self.vec_at(b, self.src, 'pull')].data) - 1)
            b.note('start: the source is not empty')
            sts.append(b)
        out = []
        for s in sts:
            args = self.args_for(s)
            out.append((s, args))
        return out

    # --- accesses
    def access(self, st, role, rw):
        g = st.ghost
        tab = self.sink['acc'] if not st.inexact else self.sink['acc_maybe']
        k = (role, self.op, rw, frozenset(g.held))
        if k not in tab:
            tab[k] = (where(st), st.trace_list(), self.kind)

    def on_seq(self, st, rid, rw):
        role = self.role_of_seq(st, rid)
        if role is not None and not role.startswith('src.') and rw != 'ctor':
            self.access(st, role, rw)

    SKIP = ('push', 'pull', 'prio', 'pushLock', 'pullLock', 'cond', 'door')

    def on_load(self, st, r, off, size, t):
        if r.rid == self.obj:
            m = self.member(r.rid, off)
            if m is not None and m not in self.SKIP:
                self.access(st, m, 'read')
                if m == 'flag':
                    return self.flag_load(st)
                if m == 'loaded':
                    return self.loaded_load(st)
        return None

    def on_store(self, st, r, off, size, v):
        if r.rid == self.obj:
            m = self.member(r.rid, off)
            if m is not None and m not in self.SKIP:
                self.access(st, m, 'write')
                if m == 'flag':
                    self.flag_store(st, v)
                    return True
                if m == 'loaded':
                    self.loaded_store(st, v)
                    return True
        return False

    def flag_ptr(self, st, p):
        return isinstance(p, Ptr) and p.r == self.obj and self.member(p.r, st.poly.norm(p.o)) in ('flag', 'loaded')

    def role_at(self, st, p):
        return self.member(p.r, st.poly.norm(p.o))

    def atomic_load(self, st, p, size, t, order):
        if not self.flag_ptr(st, p):
            if isinstance(p, Ptr) and p.r == self.obj:
                st.approx('atomic member')
                return st.sym('atomic', 0, (1 << (8 * size)) - 1)
            return None
        return self.loaded_load(st) if self.role_at(st, p) == 'loaded' else self.flag_load(st)

    def atomic_store(self, st, p, size, v, order):
        if not self.flag_ptr(st, p):
            if isinstance(p, Ptr) and p.r == self.obj:
                return True
            return False
        (self.loaded_store if self.role_at(st, p) == 'loaded' else self.flag_store)(st, v)
        return True

    def atomic_cas(self, st, p, size, exp, new):
        if not self.flag_ptr(st, p):
            return None
        ld, sv = (self.loaded_load, self.loaded_store) if self.role_at(st, p) == 'loaded' else (self.flag_load, self.flag_store)
        cur = ld(st)
        e = self.eng.bit(st, exp)
        ok = cur.c == e.c
        if ok:
            n = self.eng.bit(st, new)
            if cur.c == 1 and n.c == 0:
                self.flag_ticket(st)
            if cur.c != n.c:
                sv(st, new, True)
        return cur, ok

    def atomic_rmw(self, st, p, size, k, x):
        if not self.flag_ptr(st, p):
            if isinstance(p, Ptr) and p.r == self.obj:
                st.approx('atomic member')
                return st.sym('atomic', 0, (1 << (8 * size)) - 1)
            return None
        if k != 'xchg':
            raise Undecided('atomicrmw of the flag')
        ld, sv = (self.loaded_load, self.loaded_store) if self.role_at(st, p) == 'loaded' else (self.flag_load, self.flag_store)
        cur = ld(st)
        n = self.eng.bit(st, x)
        if cur.c == 1 and n.c == 0:
            self.flag_ticket(st)
        if cur.c != n.c:
            sv(st, x, True)
        return cur

    # --- the empty flag
    def flag_load(self, st):
        g = st.ghost
        if self.kind == 'sq':
            if g.flagv is not None and 'pullLock' in g.held:
                v = g.flagv
            else:
                v = st.choose('empty flag', 2, ['not set', 'set'])
            if v:
                g.evidence = True
            return C(v)
        if any(h in g.flagfalse for h in g.held):
            return ZERO
        v = st.choose('empty flag', 2, ['not set', 'set'])
        if v:
            g.evidence = True
        else:
            # only somebody with both locks can set it again
            g.flagfalse = g.held
            if 'pullLock' in g.held:
                g.sec_flag_false = True
            if 'pushLock' in g.held:
                g.push_flag_false = True
        return C(v)

    def flag_ticket(self, st):
        g = st.ghost
        if self.kind != 'sq':
            g.ticket = True
            g.sec_flag_false = True
            g.push_flag_false = True
            g.ticket_done = False

    def flag_store(self, st, v, cas=False):
        g = st.ghost
        v = self.eng.bit(st, v).c
        if self.kind == 'sq':
            if 'pullLock' not in g.held:
                self.eng.report(st, 'C04', 'flag outside lock', 'the empty flag is set to %s without the lock of the pull side' % bool(v))
            g.flagv = v
            return
        if v:
            bad = [h for h in ('pullLock', 'pushLock') if h not in g.held]
            if bad:
                self.eng.report(st, 'C04', 'flag outside lock', 'the queue is marked empty without holding %s: elements may arrive meanwhile' % ', '.join(bad))
                self.eng.report(st, 'C05', 'flag outside lock', 'the queue is marked empty without holding %s' % ', '.join(bad))
            else:
                full = [r for r in ('pull', 'push', 'prio') if not self.is_empty(st, r)]
                if full:
                    self.eng.report(st, 'C04', 'flag', 'the queue is marked empty while %s holds elements' % ', '.join(full))
            g.sec_flag_true = True
            g.flagfalse = ()
        else:
            g.sec_flag_true = False
            if not cas and not g.ticket and 'pullLock' not in g.held and 'pushLock' not in g.held:
                pass
            g.flagfalse = g.held

    def is_empty(self, st, role):
        if role not in self.lay.off:
            return True
        rid = self.vec_at(st, self.obj, role)
        if rid is None:
            raise Undecided('representation')
        return self.segs_empty(st, st.regions[rid].data)

    def segs_empty(self, st, segs):
        segs = seqnorm(st, segs)
        if any(x[0] == 'e' for x in segs):
            return False
        return not st.ge(seqlen(segs) - 1, 'there are elements')

    def seg(self, st, role):
        rid = self.vec_at(st, self.obj, role)
        if rid is None:
            raise Undecided('representation')
        return st.regions[rid].data

    # --- sections
    def on_acquire(self, st, n):
        g = st.ghost
        if n == 'pushLock':
            v = (new_var(st, 'push'),)
            if self.kind == 'sq' and 'pullLock' in g.held and g.inherit_empty:
                v = ()
            set_seq(st, self.vec_at(st, self.obj, 'push'), v)
            g.Y = v
            g.push_flag_false = False
            g.pull_seen = False
        elif n == 'pullLock':
            v = (new_var(st, 'pull'),)
            set_seq(st, self.vec_at(st, self.obj, 'pull'), v)
            g.L0 = g.L = seqrev(v)
            g.Z0 = g.Z = ()
            if 'prio' in self.lay.off:
                z = (new_var(st, 'prio'),)
                set_seq(st, self.vec_at(st, self.obj, 'prio'), z)
                g.Z0 = g.Z = z
            g.sec_flag_false = False
            g.sec_flag_true = False
            g.sec_push_empty = False
            g.sec_removed = False
            g.inherit_empty = False
            if self.kind == 'sq':
                k = st.choose('pull side', 2, ['holds elements', 'is empty'])
                if k:
                    st.poly.add_eq(v[0][3])
                    g.inherit_empty = True
                else:
                    st.poly.add_ge(v[0][3] - 1)
                g.flagv = k

    def newval(self, st, segs):
        """the run consists of exactly what this operation inserts"""
        op = self.op
        if op == 'pushVector':
            return seq_equal(st, seqnorm(st, segs), seqnorm(st, st.regions[self.valseq].data))
        return len(segs) == 1 and segs[0][0] == 'e' and segs[0][1][0][2] == self.val

    def diff(self, st, T, now, what, prop='C03'):
        """now == T without a prefix, plus a suffix: (removed, inserted)"""
        T = seqnorm(st, T)
        now = seqnorm(st, now)
        for k in range(len(T) + 1):
            rest = T[k:]
            if len(rest) <= len(now) and seq_equal(st, rest, now[:len(rest)]):
                rem = T[:k]
                ins = now[len(rest):]
                if any(x[0] == 'x' for x in rem):
                    continue
                return rem, ins, rest
        self.eng.report(st, prop, 'content', 'on release %s holds %s, starting from %s' % (what, show_seq(st, now), show_seq(st, T)))
        raise Stop()

    def note_removed(self, st, rem, chan):
        g = st.ghost
        for x in rem:
            g.removed = g.removed + ((chan, x[1][0][2]),)
        if len(g.removed) > 4:
            raise Undecided('many removals')

    def note_inserted(self, st, ins, chan):
        g = st.ghost
        if not ins:
            return
        g.inserted = g.inserted + ((chan, self.newval(st, ins)),)
        if len(g.inserted) > 4:
            raise Undecided('many insertions')

    def ledger(self):
        return self.op not in ('clear', 'move_assign')

    def on_release(self, st, n):
        g = st.ghost
        if n == 'pushLock':
            now = self.seg(st, 'push')
            Y = g.Y
            pull = 'pullLock' in g.held
            wasempty = self.segs_empty(st, Y)
            if wasempty:
                g.seen_push_empty = True
                if pull:
                    g.sec_push_empty = True
                    if self.segs_empty(st, g.L) and self.segs_empty(st, g.Z):
                        g.evidence = True
            if not self.ledger():
                return
            now = seqnorm(st, now)
            Yn = seqnorm(st, Y)
            if seq_equal(st, Yn, now[:len(Yn)]):
                ins = now[len(Yn):]
                self.note_inserted(st, ins, 'ord')
                if ins and wasempty:
                    self.into_empty_push(st)
            elif not now and pull:
                g.L = tuple(g.L) + tuple(Yn)
                g.sec_push_empty = True
            else:
                if pull and seq_equal(st, seqnorm(st, tuple(g.L) + Yn), seqnorm(st, seqrev(self.seg(st, 'pull')) + now)):
                    g.L = seqrev(self.seg(st, 'pull'))
                else:
                    self.eng.report(st, 'C03', 'content', 'on release the push side holds %s, starting from %s' % (show_seq(st, now), show_seq(st, Yn)))
                    raise Stop()
        elif n == 'pullLock':
            self.release_pull(st, False)
            if 'pushLock' in g.held and not self.is_empty(st, 'pull'):
                g.pull_seen = True

    def into_empty_push(self, st):
        g = st.ghost
        if 'pullLock' in g.held and not self.is_empty(st, 'pull'):
            g.pull_seen = True
        if g.pull_seen:
            # whoever takes the last element from the pull side looks at the
            # push side afterwards, under the lock held here
            return
        if self.kind == 'sq':
            if True:
                self.eng.report(st, 'C04', 'push side', 'an element is added to the push side although the pull side may be empty: empty() stays true')
            return
        if not (g.push_flag_false or g.ticket):
            g.need_notify = 'an element is added to the empty push side without knowing the empty flag is clear, and nobody is notified'

    def release_pull(self, st, waiting):
        g = st.ghost
        now = seqrev(self.seg(st, 'pull'))
        if self.ledger():
            rem, ins, rest = self.diff(st, g.L, now, 'the pull side')
            self.note_removed(st, rem, 'ord')
            if rem and 'prio' in self.lay.off and not self.segs_empty(st, g.Z0):
                self.eng.report(st, 'C06', 'overtaken', 'an ordinary element is taken while priority elements are present')
            if ins:
                self.note_inserted(st, ins, 'ord')
                if not g.sec_push_empty and not (self.kind == 'sq' and g.inherit_empty):
                    # elements that arrived on the push side since it was seen
                    # empty were pushed at the same time as this one
                    if not g.seen_push_empty:
                        self.eng.report(st, 'C03', 'order', 'an element is put on the pull side although elements may be waiting on the push side')
                if self.kind != 'sq' and not (g.ticket or g.sec_flag_false):
                    g.need_notify = 'an element is added to the pull side without notifying blocked consumers'
            if 'prio' in self.lay.off:
                remz, insz, restz = self.diff(st, g.Z, self.seg(st, 'prio'), 'the priority channel', 'C06')
                self.note_removed(st, remz, 'prio')
                if insz:
                    self.note_inserted(st, insz, 'prio')
                    if not (g.ticket or g.sec_flag_false):
                        g.need_notify = 'a priority element is added without notifying blocked consumers'
                ins = ins or insz
            if g.ticket and g.sec_notified and (ins or not self.is_empty(st, 'pull') or not self.is_empty(st, 'prio')):
                g.ticket_done = True
        else:
            if self.kind != 'sq' and not self.is_empty(st, 'pull') and self.op == 'move_assign' and not g.sec_notified:
                g.need_notify = 'elements are moved in without notifying blocked consumers'
        empty = self.is_empty(st, 'pull') and self.is_empty(st, 'prio')
        if self.kind == 'sq':
            pe = self.is_empty(st, 'pull')
            if g.flagv is not None and bool(g.flagv) != pe:
                self.eng.report(st, 'C04', 'flag', 'the lock of the pull side is released with the empty flag %s while the pull side is %s' % ('set' if g.flagv else 'clear', 'empty' if pe else 'not empty'))
            if pe and not (g.sec_push_empty or g.inherit_empty or not self.ledger()):
                self.eng.report(st, 'C04', 'push side', 'the pull side is left empty without moving over what waits on the push side')
            g.flagv = None
        else:
            same = self.segs_empty(st, g.L0) and self.segs_empty(st, g.Z0)
            if empty and not g.sec_flag_true and not same:
                self.eng.report(st, 'C05', 'flag not set', 'the queue is left without available elements but not marked empty under both locks: a later push does not notify')
        g.lastL, g.lastZ = g.L0, g.Z0
        g.sec_notified = False

    def do_wait(self, st, n, timed):
        g = st.ghost
        if self.kind != 'al' and n == 'pullLock':
            if timed is None and not (self.is_empty(st, 'pull') and self.is_empty(st, 'prio')):
                self.eng.report(st, 'C05', 'wait', 'the consumer waits although an element is available')
                raise Stop()
        if self.op == 'pop_timed':
            if timed is None:
                self.eng.report(st, 'C08', 'untimed wait', 'the timed pop waits without bound')
            elif not (isinstance(timed[0], Lin) and st.poly.entails_eq(timed[0] - self.dur)):
                self.eng.report(st, 'C08', 'timeout', 'the wait is not bounded by the requested timeout')
            elif timed[1]:
                g.timedout = True
        self.on_release(st, n)
        g.evidence = False
        self.on_acquire(st, n)

    def on_notify(self, st, all_):
        g = st.ghost
        if all_:
            if 'pullLock' in g.held or g.inserted:
                g.sec_notified = True
                if g.need_notify:
                    g.need_notify = False
            if g.ticket and g.inserted:
                g.ticket_done = True

    def on_havoc_all(self, st):
        pass

    # --- end of the operation
    def finish(self, st, collect):
        e = self.eng
        g = st.ghost
        op = self.op
        self.end_locks(st)
        collect['done'] += 1
        if g.need_notify:
            e.report(st, 'C05', 'notification', g.need_notify)
        if g.ticket and not g.ticket_done:
            e.report(st, 'C05', 'notification', 'the empty flag was cleared (consumers may be waiting) but no element was made available and announced to all of them afterwards')
        if not self.ledger():
            return
        what = op + (' that throws' if st.exc else '')
        rem = tuple(v for c, v in g.removed)
        if op in PUSHES or op == 'pushVector':
            want = 0 if st.exc else 1
            if op == 'pushVector' and not st.exc:
                if self.segs_empty(st, (self.valvar,)):
                    want = 0
            if len(g.inserted) != want or not all(ok for c, ok in g.inserted):
                e.report(st, 'C03', 'insertion', '%s added %s to the queue' % (what, 'nothing' if not g.inserted else 'something else than its argument' if len(g.inserted) == 1 and want else '%d times' % len(g.inserted)))
            elif want and op in PUSHES:
                c = g.inserted[0][0]
                if c != ('prio' if PUSHES[op] == 'P' else 'ord'):
                    e.report(st, 'C06' if self.kind == 'pq' else 'C03', 'channel', '%s puts its element on the wrong channel' % op)
        elif g.inserted:
            e.report(st, 'C03', 'insertion', '%s adds elements to the queue' % what)
        if op in POPS and not st.exc:
            res = self.result(st)
            want = () if res is None else (res,)
            if rem != want:
                e.report(st, 'C03', 'delivery', '%s returns %s but removed %s' % (op, fmt(res), ', '.join(map(fmt, rem)) or 'nothing'))
            if res is None:
                if not g.evidence:
                    e.report(st, 'C04', 'gave up', '%s returns nothing without having seen the whole queue empty' % op)
                    if op == 'pop_timed':
                        e.report(st, 'C08', 'gave up', '%s returns nothing without having found the queue empty after the wait' % op)
                if op == 'pop_timed' and not g.timedout:
                    e.report(st, 'C08', 'gave up early', 'pop(timeout) returns nothing although no wait with the timeout has timed out')
        elif rem:
            e.report(st, 'C03', 'delivery', '%s removed %s from the queue' % (what, ', '.join(map(fmt, rem))))
        if op in PEEKS and not st.exc:
            res = self.result(st)
            if res is not None:
                z = seqnorm(st, g.lastZ or ())
                l = seqnorm(st, g.lastL or ())
                if self.segs_empty(st, z):
                    if not (l and l[0][0] == 'e' and l[0][1][0][2] == res):
                        e.report(st, 'C04', 'peek', '%s returns %s which is not the next element' % (op, fmt(res)))
                elif not (z and z[0][0] == 'e' and z[0][1][0][2] == res):
                    e.report(st, 'C06', 'peek', '%s returns %s while a priority element is next' % (op, fmt(res)))


class CGhost(QGhost):
    seqs = ('L', 'L0', 'Y', 'Z', 'Z0', 'lastL', 'lastZ')

    def __init__(self):
        QGhost.__init__(self)
        self.L0 = self.Z0 = None
        self.flagfalse = ()
        self.ticket_done = False
        self.sec_push_empty = False
        self.sec_removed = False
        self.sec_notified = False
        self.inherit_empty = False
        self.timedout = False
        self.pull_seen = False


class AirSpec(ConcSpec):
    """AirLock operations between arbitrary other operations"""

    def start(self):
        st = State()
        st.ghost = CGhost()
        self.obj = self.make_object(st)
        if self.op == 'ctor':
            st.regions[self.obj].init = 'undef'
        else:
            st.w(self.obj).cells[C(self.lay.off['data'])] = (8, Obj('Elem', fresh('cargo')))
            st.w(self.obj).cells[C(self.lay.off['loaded'])] = (1, UNDEF)
        return [(st, self.args_for(st))]

    def raw(self):
        return self.op in ('ctor', 'dtor')

    def access(self, st, role, rw):
        if not self.raw():
            ConcSpec.access(self, st, role, rw)

    def on_load(self, st, r, off, size, t):
        return None if self.raw() else ConcSpec.on_load(self, st, r, off, size, t)

    def on_store(self, st, r, off, size, v):
        return False if self.raw() else ConcSpec.on_store(self, st, r, off, size, v)

    def flag_ptr(self, st, p):
        return not self.raw() and ConcSpec.flag_ptr(self, st, p)

    def cargo(self, st):
        v = st.regions[self.obj].cells.get(C(self.lay.off['data']))
        return v[1] if v is not None else None

    def on_acquire(self, st, n):
        g = st.ghost
        if n != 'door':
            return
        k = st.choose('airlock', 2, ['free', 'loaded'])
        g.loaded0 = g.loaded = k
        g.data0 = Obj('Elem', fresh('cargo' if k else 'stale'))
        st.w(self.obj).cells[C(self.lay.off['data'])] = (8, g.data0)
        g.sec_notified = False

    def on_release(self, st, n):
        g = st.ghost
        if n != 'door':
            return
        d = self.cargo(st)
        if g.loaded0 == 1 and g.loaded == 1:
            if d != g.data0:
                self.eng.report(st, 'C07', 'overwritten', 'the loaded object is replaced by %r before it is unloaded' % (d,))
                raise Stop()
        elif g.loaded0 == 0 and g.loaded == 1:
            g.trans = g.trans + (('load', d),)
        elif g.loaded0 == 1 and g.loaded == 0:
            g.trans = g.trans + (('unload', g.data0),)
            if not g.sec_notified:
                g.need_notify = 'the airlock is unloaded without notifying a blocked loader'

    def loaded_load(self, st):
        g = st.ghost
        if 'door' in g.held:
            v = g.loaded
        else:
            v = st.choose('loaded', 2, ['no', 'yes'])
        g.sawLoaded = (g.sawLoaded + (v,))[-3:]
        return C(v)

    def loaded_store(self, st, v, cas=False):
        g = st.ghost
        v = self.eng.bit(st, v).c
        if 'door' not in g.held:
            self.eng.report(st, 'C07', 'state outside lock', 'the airlock is marked %s without holding the door lock' % ('loaded' if v else 'free'))
            raise Stop()
        g.loaded = v

    def flag_ticket(self, st):
        pass

    def on_notify(self, st, all_):
        g = st.ghost
        g.sec_notified = True
        g.need_notify = False

    def do_wait(self, st, n, timed):
        g = st.ghost
        if n == 'door' and g.loaded == 0:
            self.eng.report(st, 'C05', 'wait', 'the loader waits although the airlock is free')
            raise Stop()
        self.on_release(st, n)
        self.on_acquire(st, n)

    def finish(self, st, collect):
        e = self.eng
        g = st.ghost
        op = self.op
        collect['done'] += 1
        if op == 'dtor':
            return
        if op == 'ctor':
            if not st.exc:
                v = st.regions[self.obj].cells.get(C(self.lay.off['loaded']))
                if v is None or not (isinstance(v[1], Lin) and st.eq0(v[1])):
                    e.report(st, 'C07', 'initial state', 'a new airlock is not marked free')
            return
        self.end_locks(st)
        if g.need_notify:
            e.report(st, 'C05', 'notification', g.need_notify)
        what = op + (' that throws' if st.exc else '')
        tr = [t for t, _ in g.trans]
        if op.startswith('try_load') or op.startswith('load'):
            ok = not st.exc
            if op.startswith('try_load') and ok:
                ok = not st.eq0(st.ret)
                if not ok and 1 not in g.sawLoaded:
                    e.report(st, 'C07', 'refused', 'try_load returns false although the airlock was never seen loaded')
            if tr != (['load'] if ok else []):
                e.report(st, 'C07', 'load', '%s %s although %s' % (what, 'reports success' if ok else 'reports no success', 'it stored nothing' if not tr else 'it did ' + ', '.join(tr)))
            elif ok and g.trans[0][1] != self.val:
                e.report(st, 'C07', 'load', '%s stores %r instead of its argument' % (what, g.trans[0][1]))
        elif op == 'try_unload':
            if st.exc:
                if tr:
                    e.report(st, 'C07', 'lost', 'try_unload throws after the object was taken out')
                return
            res = self.result(st)
            if res is None:
                if tr:
                    e.report(st, 'C07', 'lost', 'try_unload returns nothing but marked the airlock free')
                elif 0 not in g.sawLoaded:
                    e.report(st, 'C07', 'refused', 'try_unload returns nothing although the airlock was never seen free')
            elif tr != ['unload'] or g.trans[0][1] != res:
                e.report(st, 'C07', 'unload', 'try_unload returns %s but %s' % (fmt(res), 'the airlock stays loaded' if not tr else 'took out %s' % fmt(g.trans[0][1])))
        elif op == 'isLoaded':
            if not g.sawLoaded or st.eq0(st.ret) != (g.sawLoaded[-1] == 0):
                e.report(st, 'C07', 'isLoaded', 'isLoaded does not report whether the airlock is loaded')


def run_conc(prog, kind, op, sink):
    spec = (AirSpec if kind == 'al' else ConcSpec)(prog, kind, op, True, sink)
    e = Engine(prog, spec)
    e.models = spec.models()
    collect = {'done': 0}
    for st, args in spec.start():
        e.call_entry(st, 'vp_%s_%s' % (kind, op), args)
        e.run('%s %s concurrently' % (QUEUES[kind]['name'], op), st, lambda s: spec.finish(s, collect))
    return e, collect['done']


def races(acc):
    """pairs of accesses to one member without a common lock, one of them a
    write"""
    out = []
    items = sorted(acc, key=str)
    for i, a in enumerate(items):
        for b in items[i:]:
            if a[0] != b[0] or (a[2] == 'read' and b[2] == 'read'):
                continue
            if a[3] & b[3]:
                continue
            out.append((a, b))
    return out


def cycles(edges):
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)
    out = []
    for a, b in sorted(edges):
        # is a reachable from b
        seen = set()
        todo = [b]
        while todo:
            x = todo.pop()
            if x == a:
                out.append((a, b))
                break
            if x in seen:
                continue
            seen.add(x)
            todo.extend(g.get(x, ()))
    return out


def same_val(a, b):
    if a is None or b is None:
        return a is b
    return a == b


OBS = {'sq': ['empty', 'size', 'peek', 'pop'], 'bq': ['empty', 'size', 'try_peek', 'try_pop'], 'pq': ['empty', 'try_peek', 'try_pop']}


def run_seq(prog, kind, op, sink):
    """analyse one operation from every quiescent state, then the observers on
    each resulting state"""
    spec = SeqSpec(prog, kind, op, False, sink)
    e = Engine(prog, spec)
    e.models = spec.models()
    sts, args = spec.starts()
    collect = {'done': 0, 'post': []}
    for st in sts:
        e.call_entry(st, 'vp_%s_%s' % (kind, op), args)
        e.run('%s %s' % (QUEUES[kind]['name'], op), st, lambda s: spec.finish(s, collect))
    n = 0
    for post, obj in collect['post']:
        for ob in OBS[kind]:
            n += 1
            spec2 = SeqSpec(prog, kind, ob, False, sink)
            spec2.eng = e
            e.spec = spec2
            e.models = spec2.models()
            e.mcache = {}
            s = post.clone()
            s.exc = None
            s.ghost.held = ()
            s.ghost.waits = ()
            spec2.obj = obj
            spec2.src = None
            if ob == 'empty' and False:
                continue
            a = spec2.args_for(s)
            s.note('then: ' + ob)
            c2 = {'done': 0, 'post': []}
            e.call_entry(s, 'vp_%s_%s' % (kind, ob), a)
            e.run('%s %s, then %s' % (QUEUES[kind]['name'], op, ob), s, lambda x: spec2.finish(x, c2))
            collect['done'] += c2['done']
    return e, collect['done']
