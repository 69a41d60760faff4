"""Specifications of WorkQueue and WorkBlock (W01..W05)."""
import re
from .poly import Lin, C, ZERO, fresh
from .engine import (Engine, Spec, Ghost, State, Ptr, NULL, FnV, UNDEF, Obj, Model, Opq, Agg, Undecided, Stop, Throw, loc)
from .models import (ModelSpec, OpaqueClass, SharedPtr, ALL, new_var, new_seq, seqlen, seqnorm, seq_equal, show_seq, locate, where, set_seq,
                     seq_of, conv_args, may_throw, view, nonempty)

HARNESS = ['work']
WQ = 'gmlc::containers::WorkQueue'
LEVELS = ('High', 'Med', 'Low')
PRIO = {'high': 'High', 'required': 'High', 'medium': 'Med', 'default': 'Med', 'low': 'Low'}
INTMAX = (1 << 31) - 1


class ThreadClass:
    """std::thread element: Obj('thr', id); 'none' is not joinable"""
    size = 8

    def fresh(self, e, st):
        return ((0, 8, Obj('thr', fresh('thread'))),)

    def move_blob(self, e, st, src, ins):
        v = e.load(st, src, 8, 'thr')
        e.store(st, src, 8, Obj('thr', 'none'))
        if isinstance(v, Obj) and v.id == 'started':
            v = Obj('thr', fresh('thread'))
        return ((0, 8, v),)

    def copy_blob(self, e, st, src, ins):
        raise Undecided('copy of a thread')

    def default_blob(self, e, st, ins):
        return ((0, 8, Obj('thr', 'none')),)

    def destroy_blob(self, e, st, blob):
        e.spec.thread_destroyed(st, blob[0][2])


class WGhost(Ghost):
    seqs = ('H0', 'M0', 'L0')

    def __init__(self):
        self.held = ()
        self.H0 = self.M0 = self.L0 = None
        self.m0 = self.r0 = None
        self.pushed = ()          # (level, 'blk' | 'vec' | 'other')
        self.note_after = False   # a notification followed the last push
        self.note_all = False
        self.before = None        # size of the level before the push
        self.execs = 0            # executions of the tracked block
        self.blk = None           # tracked block
        self.taken = None         # block taken by the worker
        self.taken_execs = 0
        self.seen_empty = ()
        self.halt = None          # worker: None not seen set
        self.halt_false = False   # worker: seen clear in this lock section
        self.halted = False       # close: set by this call
        self.halt_locked = False  # close: and published under the lock
        self.wake_ok = False
        self.joins = 0
        self.idle = False
        self.nw = None
        self.pops = ()
        self.closed = False       # the queue was closed before: no thread is joinable
        self.arg = None


class WSpec(ModelSpec, Spec):
    classes = {'std::shared_ptr<gmlc::containers::BasicWorkBlock>': SharedPtr('B'), 'std::thread': ThreadClass()}
    for _k in list(classes):
        classes[_k.replace(' ', '')] = classes[_k]

    def __init__(self, prog, op, mode, sink):
        self.prog = prog
        self.op = op
        self.mode = mode     # 'seq', 'conc', 'worker'
        self.sink = sink
        self.mem_props = {'*': {'c': 'W03', 'd': 'W03', 'w': 'W02'}.get('w' if mode == 'worker' else op[0], 'W02')}
        if op in ('getWorkBlock',):
            self.mem_props = {'*': 'W01'}
        self.spawned = None
        t = prog.types.get(WQ)
        if t is None:
            raise KeyError('class WorkQueue vanished')
        self.size = t['size']
        self.off = {}
        self.names = {}
        qs = [m for m in t['mem'] if m['ty'].startswith('SimpleQueue<')]
        for lv in LEVELS:
            for m in qs:
                if lv.lower() in m['n'].lower() and lv not in self.off:
                    self.set(lv, m)
        for lv in LEVELS:
            if lv not in self.off:
                rest = [m for m in qs if m['o'] not in self.names]
                if rest:
                    self.set(lv, rest[0])
        ints = [m for m in t['mem'] if m['ty'] in ('atomic<int>', 'int', 'atomic_int', 'volatile int')]
        for role, key in (('ratio', 'ratio'), ('workers', 'worker'), ('count', 'count')):
            for m in ints:
                if key in m['n'].lower() and role not in self.off and m['o'] not in self.names:
                    self.set(role, m)
        for m in t['mem']:
            if m['o'] in self.names:
                continue
            if m['ty'].startswith('vector<std::thread'):
                self.set('pool', m)
            elif m['ty'] in ('mutex', 'recursive_mutex', 'timed_mutex'):
                self.set('lock', m)
            elif m['ty'].startswith('condition_variable'):
                self.set('cond', m)
            elif m['ty'] in ('atomic<bool>', 'bool', 'atomic_bool', 'atomic<int>') and 'halt' in m['n'].lower():
                self.set('halt', m)
        bools = [m for m in t['mem'] if m['ty'] in ('atomic<bool>', 'bool', 'atomic_bool') and m['o'] not in self.names]
        if 'halt' not in self.off and bools:
            self.set('halt', bools[0])
        self.mem = t['mem']
        self.obj = None

    def set(self, role, m):
        self.off[role] = m['o']
        self.names[m['o']] = role

    def member(self, rid, off):
        if rid == self.obj and not off.t:
            for m in self.mem:
                z = m['z'] or 4
                if m['o'] <= off.c < m['o'] + z:
                    return self.names.get(m['o'], m['n'])
        return None

    # --- objects
    def new_block(self, st, name='work block'):
        r = st.new_region('token', 64, name, self.block_init)
        r.meta = {'fin': None}
        return Ptr(r.rid)

    def block_init(self, e, st, r, off, size, t):
        if t == 'ptr' and not off.t and off.c == 0:
            v = st.new_region('opaque', 256, 'virtual functions', self.vt_init)
            return Ptr(v.rid)
        return None

    def vt_init(self, e, st, r, off, size, t):
        if off.t:
            return None
        init = e.p.globals.get('_ZTVN4gmlc10containers13NullWorkBlockE', {}).get('init')
        f = e.const_at(st, init, off.c + 16, 8, 'ptr') if init else None
        if isinstance(f, FnV):
            n = self.prog.fns[f.n].get('name')
            if n in ('execute', 'isFinished'):
                return Opq('virt:' + n)
        return None

    def fresh_shared(self, st, ty):
        n = 'block %d' % st.nextrid
        if st.choose(n, 2, ['is given', 'is null']):
            return ((0, 8, NULL), (8, 8, NULL))
        return ((0, 8, self.new_block(st)), (8, 8, Opq()))

    def make_shared(self, st, fn, a, ins):
        if 'NullWorkBlock' not in fn['dem'].split('(')[0]:
            raise Undecided('make_shared of another class')
        r = st.new_region('heap', 8, 'NullWorkBlock')
        g = self.eng.global_region(st, '_ZTVN4gmlc10containers13NullWorkBlockE')
        st.w(r.rid).cells[ZERO] = (8, Ptr(g, C(16)))
        self.eng.put_blob(st, a[0], 16, ((0, 8, Ptr(r.rid)), (8, 8, Opq())))
        return None

    def indirect(self, st, v, args, ins):
        if not (isinstance(v, Opq) and isinstance(v.id, str) and v.id.startswith('virt:')):
            return NotImplemented
        p = args[0]
        r, off = self.eng.access(st, p, 8, 'call on')
        if r.kind != 'token':
            raise Undecided('virtual call on %s' % r.name)
        g = st.ghost
        fin = r.meta.get('fin')
        if v.id == 'virt:isFinished':
            if fin is None:
                fin = st.choose('block %d finished' % p.r, 2, ['no', 'yes'])
                st.w(p.r).meta['fin'] = fin
            return C(fin)
        # execute
        if 'lock' in g.held:
            self.eng.report(st, 'W02', 'executed under lock', 'a work block is executed while the queue lock is held')
        if g.blk is not None and g.blk == p:
            g.execs = min(g.execs + 1, 3)
        if g.taken is not None and g.taken == p:
            g.taken_execs = min(g.taken_execs + 1, 3)
        st.w(p.r).meta['fin'] = 1
        return None

    # --- models
    def models(self):
        return [self.m_work] + ALL

    def m_work(self, e, fn):
        cls = fn.get('cls', '')
        d = fn['dem']
        base = fn.get('base')
        if cls.startswith('SimpleQueue<'):
            return {'pop': self.q_pop, 'peek': self.q_peek, 'push': self.q_push, 'emplace': self.q_push, 'pushVector': self.q_pushv,
                    'empty': self.q_empty, 'size': self.q_size, 'clear': self.q_clear, 'reserve': self.nop,
                    'SimpleQueue': self.q_ctor, '~SimpleQueue': self.nop}.get(base, self.unknown)
        if d == 'std::thread::_M_start_thread(std::unique_ptr<std::thread::_State, std::default_delete<std::thread::_State>>, void (*)())':
            return self.t_start
        if d == 'std::thread::join()':
            return self.t_join
        if d == 'std::thread::detach()':
            return self.t_detach
        if d == 'std::thread::hardware_concurrency()':
            return lambda e, st, fn, a, ins: st.sym('cores', 0, 4096)
        if d == 'std::thread::_State::~_State()':
            return self.nop
        if fn.get('std') and not fn['decl']:
            if cls == 'thread' and fn['scopes'][1:] == ['std']:
                if base == 'joinable':
                    return self.t_joinable
                if base == '~thread':
                    return self.t_dtor
                if base == 'operator=':
                    return self.t_assign
                if base == 'swap':
                    return self.unknown
                if base == 'thread':
                    ps = conv_args(fn)
                    if not ps:
                        return lambda e, st, fn, a, ins: e.store(st, a[0], 8, Obj('thr', 'none'))
                    if len(ps) == 1 and ps[0] == 'std::thread&&':
                        return self.t_move
                return None
            if cls.startswith('vector<std::thread') and base == 'resize':
                return self.p_resize
            if cls in ('mutex',):
                return {'lock': self.m_lock, 'unlock': self.m_unlock, 'try_lock': self.m_trylock, 'mutex': self.nop, '~mutex': self.nop}.get(base)
            if cls in ('condition_variable', 'condition_variable_any') and base in ('wait_for', 'wait_until') and len(conv_args(fn)) == 2:
                return self.c_timed
        if d in ('std::condition_variable::notify_one()', 'std::condition_variable::notify_all()'):
            return (lambda *a: self.c_notify(True, *a)) if 'all' in d else (lambda *a: self.c_notify(False, *a))
        if d.startswith('std::condition_variable::wait(std::unique_lock<std::mutex>&)'):
            return self.c_wait
        if d in ('std::condition_variable::condition_variable()', 'std::condition_variable::~condition_variable()'):
            return self.nop
        if d.startswith('std::chrono::_V2::') and base == 'now' or d.startswith('std::chrono::_V2::') and d.endswith('now()'):
            return lambda e, st, fn, a, ins: Opq()
        return None

    def nop(self, e, st, fn, a, ins):
        return None

    def unknown(self, e, st, fn, a, ins):
        raise Undecided('unmodelled ' + fn['dem'][:100])

    # queues of the levels, atomic FIFO
    def level(self, st, p):
        m = self.member(p.r, st.poly.norm(p.o)) if isinstance(p, Ptr) else None
        if m in LEVELS:
            return m
        raise Undecided('unknown queue')

    def lseq(self, st, p):
        v = self.eng.load(st, p, 136, 'q')
        if not isinstance(v, Model):
            raise Undecided('queue object')
        return v.r

    def q_ctor(self, e, st, fn, a, ins):
        if conv_args(fn) not in ([], ['unsigned long']):
            raise Undecided('queue constructor')
        self.set_level(st, a[0], ())

    def set_level(self, st, p, segs):
        r = new_seq(self.eng, st, 'queue', 'std::shared_ptr<gmlc::containers::BasicWorkBlock>', segs, 'level')
        st.w(p.r).cells[st.poly.norm(p.o)] = (136, Model('sq', r.rid))

    def put_opt(self, st, out, words):
        e = self.eng
        if words is None:
            e.store(st, out + 16, 1, ZERO)
        else:
            e.put_blob(st, out, 16, words)
            e.store(st, out + 16, 1, C(1))

    def q_pop(self, e, st, fn, a, ins):
        out, q = a[0], a[1]
        lv = self.level(st, q)
        g = st.ghost
        g.idle = False if self.mode == 'worker' else g.idle
        if self.mode == 'seq':
            rid = self.lseq(st, q)
            segs = seqnorm(st, st.regions[rid].data)
            if not segs or not st.ge(seqlen(segs) - 1, 'level %s holds work' % lv):
                g.seen_empty = g.seen_empty + (lv,)
                return self.put_opt(st, out, None)
            locate(e, st, rid, ZERO)
            segs = seqnorm(st, st.regions[rid].data)
            set_seq(st, rid, segs[1:])
            g.pops = g.pops + (lv,)
            return self.put_opt(st, out, segs[0][1])
        self.check_taken(st)
        if self.op == 'worker_idle' or not st.choose('level %s' % lv, 2, ['is empty', 'holds work']):
            if lv not in g.seen_empty:
                g.seen_empty = g.seen_empty + (lv,)
            return self.put_opt(st, out, None)
        b = ((0, 8, self.new_block(st)), (8, 8, Opq()))
        if g.taken is not None and self.mode != 'worker':
            self.eng.report(st, 'W02', 'block lost', 'a second block is taken from a level, the first one is dropped')
        g.taken = b[0][2]
        g.taken_execs = 0
        g.idle = False
        self.put_opt(st, out, b)

    def check_taken(self, st):
        """the block taken before must be dealt with by now"""
        g = st.ghost
        if self.mode == 'worker' and g.taken is not None:
            fin = st.regions[g.taken.r].meta.get('fin') if g.taken.r in st.regions else 1
            if g.taken_execs == 0 and fin != 1:
                self.eng.report(st, 'W02', 'not executed', 'the worker takes a block without executing it%s' % ('' if fin is not None else ' or looking whether it is finished'))
            elif g.taken_execs > 1:
                self.eng.report(st, 'W02', 'executed twice', 'the worker executes the block it took more than once')
            g.taken = None

    def q_peek(self, e, st, fn, a, ins):
        raise Undecided('peek')

    def q_push(self, e, st, fn, a, ins):
        lv = self.level(st, a[0])
        g = st.ghost
        w = e.blob(st, a[1], 16)
        ps = conv_args(fn)
        v = w[0][2] if w else UNDEF
        what = 'blk' if (g.blk is not None and v == g.blk) else 'null' if v == NULL else 'other'
        g.pushed = (g.pushed + ((lv, what),))[-3:]
        g.note_after = False
        g.note_all = False
        g.before = None
        if self.mode == 'seq':
            rid = self.lseq(st, a[0])
            segs = st.regions[rid].data
            g.before = seqlen(segs)
            set_seq(st, rid, seqnorm(st, segs) + (('e', w),))
        if ps and ps[0].endswith('&&'):
            e.put_blob(st, a[1], 16, ((0, 8, NULL), (8, 8, NULL)))
        return None

    def q_pushv(self, e, st, fn, a, ins):
        lv = self.level(st, a[0])
        g = st.ghost
        src = seq_of(e, st, a[1], 'vector')
        g.pushed = (g.pushed + ((lv, 'vec' if src == getattr(self, 'vec', None) else 'other'),))[-3:]
        g.note_after = g.note_all = False
        g.before = None
        if self.mode == 'seq':
            rid = self.lseq(st, a[0])
            set_seq(st, rid, seqnorm(st, st.regions[rid].data) + seqnorm(st, st.regions[src].data))

    def q_empty(self, e, st, fn, a, ins):
        lv = self.level(st, a[0])
        g = st.ghost
        if self.mode == 'seq':
            segs = seqnorm(st, st.regions[self.lseq(st, a[0])].data)
            if segs and st.ge(seqlen(segs) - 1, 'level %s holds work' % lv):
                return ZERO
            g.seen_empty = g.seen_empty + (lv,) if lv not in g.seen_empty else g.seen_empty
            return C(1)
        if self.op == 'worker_idle' or not st.choose('level %s' % lv, 2, ['is empty', 'holds work']):
            if lv not in g.seen_empty:
                g.seen_empty = g.seen_empty + (lv,)
            return C(1)
        return ZERO

    def q_size(self, e, st, fn, a, ins):
        self.level(st, a[0])
        if self.mode == 'seq':
            return st.poly.norm(seqlen(st.regions[self.lseq(st, a[0])].data))
        return st.sym('size', 0, 1 << 28)

    def q_clear(self, e, st, fn, a, ins):
        self.level(st, a[0])
        if self.mode == 'seq':
            set_seq(st, self.lseq(st, a[0]), ())

    # threads
    def tval(self, st, p):
        v = self.eng.load(st, p, 8, 'thr')
        if v is UNDEF:
            self.memerr(st, 'dead', 'use of a thread object that is not alive')
            raise Stop()
        if not isinstance(v, Obj):
            raise Undecided('thread object')
        return v

    def joinable(self, st, v):
        if v.id in ('none', 'T:none', 'T:joined'):
            return 0
        if v.id in ('T:live', 'started'):
            return 1
        if st.ghost.closed:
            return 0
        return st.choose('thread joinable', 2, ['no', 'yes'])

    def t_start(self, e, st, fn, a, ins):
        p = e.load(st, a[1], 8, 'ptr')
        if isinstance(p, Ptr) and self.spawned is None:
            s = st.clone()
            s.frames = []
            self.spawned = (s, p)
        e.store(st, a[1], 8, NULL)
        e.store(st, a[0], 8, Obj('thr', 'started'))
        self.sink['spawns'] = self.sink.get('spawns', 0) + 1

    def t_move(self, e, st, fn, a, ins):
        v = self.tval(st, a[1])
        e.store(st, a[0], 8, v)
        e.store(st, a[1], 8, Obj('thr', 'none'))

    def t_assign(self, e, st, fn, a, ins):
        v = self.tval(st, a[1])
        old = self.tval(st, a[0])
        if old.id in ('T:live', 'started'):
            self.on_terminate(st)
            raise Stop()
        if old.id in ('T:none', 'T:joined'):
            v = Obj('thr', 'T:live' if self.joinable(st, v) else 'T:none')
        elif v.id == 'started':
            v = Obj('thr', fresh('thread'))
        e.store(st, a[0], 8, v)
        e.store(st, a[1], 8, Obj('thr', 'none'))
        return a[0]

    def t_joinable(self, e, st, fn, a, ins):
        return C(self.joinable(st, self.tval(st, a[0])))

    def t_join(self, e, st, fn, a, ins):
        v = self.tval(st, a[0])
        g = st.ghost
        if v.id in ('none', 'T:none', 'T:joined'):
            e.report(st, 'W03', 'join', 'join of a thread that %s' % ('has been joined already' if v.id == 'T:joined' else 'was never started'))
            raise Stop()
        if 'lock' in g.held:
            e.report(st, 'W03', 'join under lock', 'a worker is joined while the queue lock it needs is held')
        if v.id == 'T:live':
            g.joins = min(g.joins + 1, 3)
            if not g.halted:
                e.report(st, 'W03', 'join before halt', 'a worker is joined before the halt request is set')
            elif not g.halt_locked:
                e.report(st, 'W03', 'halt not published', 'the halt request is set without the queue lock: a worker between its check and its wait misses it')
            elif not g.wake_ok:
                e.report(st, 'W03', 'not woken', 'the workers are joined without having been notified after the halt request')
            e.store(st, a[0], 8, Obj('thr', 'T:joined'))
        else:
            e.store(st, a[0], 8, Obj('thr', fresh('thread')) if st.regions[a[0].r].kind == 'seq' else Obj('thr', 'none'))

    def t_detach(self, e, st, fn, a, ins):
        v = self.tval(st, a[0])
        e.report(st, 'W03', 'detached', 'a worker thread is detached instead of joined')
        raise Stop()

    def t_dtor(self, e, st, fn, a, ins):
        v = self.tval(st, a[0])
        self.thread_destroyed(st, v)
        e.store(st, a[0], 8, UNDEF)

    def thread_destroyed(self, st, v):
        if isinstance(v, Obj) and v.id in ('T:live', 'started'):
            self.eng.report(st, 'W03', 'thread not joined', 'a running worker thread object is destroyed without being joined')
            raise Stop()

    def on_terminate(self, st):
        self.eng.report(st, 'W03', 'terminate', 'std::terminate is called')

    def p_resize(self, e, st, fn, a, ins):
        rid = seq_of(e, st, a[0], 'vector')
        n = st.poly.norm(view(st, a[1], 64, False))
        segs = seqnorm(st, st.regions[rid].data)
        if segs or len(a) != 2:
            raise Undecided('resize of a filled vector')
        if st.eq0(n):
            return None
        t = Lin.sym(fresh('t'))
        st.assume(t, n - 1 - t)
        set_seq(st, rid, (('x', fresh('pool'), False, t), ('e', ((0, 8, Obj('thr', 'T:none')),)), ('x', fresh('pool'), False, n - 1 - t)))

    def elem_from(self, st, ety, ps, a, ins):
        if ety.startswith('std::thread'):
            # construction of a thread in place
            self.note_spawn(st, ps, a)
            return ((0, 8, Obj('thr', fresh('thread'))),)
        return None

    def note_spawn(self, st, ps, a):
        """the function a thread built in place runs, with its arguments"""
        e = self.eng
        fn = None
        if len(a) == 1:
            want = ps[0].replace('&', '').replace(' const', '').replace('const ', '').strip() + '::operator()()'
            for k, f in self.prog.fns.items():
                d = f.get('dem', '')
                if not f['decl'] and (d == want or d == want + ' const'):
                    fn, args = k, [a[0]]
        elif len(a) == 2:
            f = e.load(st, a[0], 8, 'ptr')
            this = e.load(st, a[1], 8, 'ptr')
            if isinstance(f, FnV) and isinstance(this, Ptr):
                fn, args = f.n, [this]
        if fn is None:
            raise Undecided('thread started with ' + ', '.join(ps)[:100])
        self.sink['spawns'] = self.sink.get('spawns', 0) + 1
        if self.spawned is None:
            s = st.clone()
            s.frames = []
            self.spawned = (s, (fn, args))

    # locks
    def lname(self, st, p):
        m = self.member(p.r, st.poly.norm(p.o)) if isinstance(p, Ptr) else None
        return m or 'other'

    def m_lock(self, e, st, fn, a, ins):
        n = self.lname(st, a[0])
        g = st.ghost
        if n in g.held:
            e.report(st, 'W03', 'lock taken twice', 'the queue lock is taken while held')
            raise Stop()
        g.held = g.held + (n,)
        g.halt_false = False
        if g.halted:
            g.halt_locked = True

    def m_trylock(self, e, st, fn, a, ins):
        if st.choose('try_lock', 2):
            self.m_lock(e, st, fn, a, ins)
            return C(1)
        return ZERO

    def m_unlock(self, e, st, fn, a, ins):
        n = self.lname(st, a[0])
        g = st.ghost
        g.held = tuple(h for h in g.held if h != n)
        g.halt_false = False

    def wlock(self, st, p):
        return self.lname(st, self.eng.load(st, p, 8, 'ptr'))

    def before_wait(self, st, p):
        g = st.ghost
        n = self.wlock(st, p)
        if n not in g.held:
            raise Undecided('wait without lock')
        if self.mode == 'worker':
            self.check_taken(st)
            if self.op == 'worker_idle':
                self.eng.report(st, 'W03', 'keeps sleeping', 'a worker of a halted queue goes to sleep instead of leaving')
                raise Stop()
            if n != 'lock' or not g.halt_false:
                self.eng.report(st, 'W03', 'missed halt', 'the worker goes to sleep without having seen the halt flag clear under the queue lock: it can miss the close')
        g.halt_false = False

    def c_timed(self, e, st, fn, a, ins):
        self.before_wait(st, a[1])
        return C(st.choose('timed wait', 2, ['is notified or wakes up', 'times out']))

    def c_wait(self, e, st, fn, a, ins):
        self.before_wait(st, a[1])
        if self.mode == 'worker':
            e.report(st, 'W02', 'unbounded sleep', 'the worker waits without bound although blocks are added without the queue lock: a block added between its check and the wait is not started')
            raise Stop()
        return None

    def c_notify(self, all_, e, st, fn, a, ins):
        g = st.ghost
        g.note_after = True
        if all_:
            g.note_all = True
            if g.halted:
                g.wake_ok = g.halt_locked or g.wake_ok
        return None

    # --- scalar members
    def track(self, st, m, rw):
        if m is None or self.op in ('ctor', 'dtor') or m in LEVELS:
            return
        k = (m, self.op, rw, frozenset(st.ghost.held))
        tab = self.sink['acc'] if not st.inexact else self.sink['acc_maybe']
        if k not in tab:
            tab[k] = (where(st), st.trace_list())

    def on_load(self, st, r, off, size, t):
        if r.rid == self.obj:
            m = self.member(r.rid, off)
            if m in ('lock', 'cond', 'pool') or m in LEVELS:
                return None
            self.track(st, m, 'read')
            return self.mload(st, m, size)
        return None

    def on_store(self, st, r, off, size, v):
        if r.rid == self.obj:
            m = self.member(r.rid, off)
            if m in ('lock', 'cond', 'pool') or m in LEVELS:
                return False
            self.track(st, m, 'write')
            return self.mstore(st, m, v)
        return False

    def on_seq(self, st, rid, rw):
        if self.obj in st.regions and 'pool' in self.off and rw != 'ctor':
            c = st.regions[self.obj].cells.get(C(self.off['pool']))
            if c is not None and isinstance(c[1], Model) and c[1].r == rid:
                self.track(st, 'pool', rw)

    def on_elem_write(self, st, r, off):
        self.on_seq(st, r.rid, 'write')

    def mload(self, st, m, size):
        g = st.ghost
        if m == 'halt' and self.mode == 'worker':
            if g.halt is None and self.op != 'worker_idle':
                if st.choose('halt', 2, ['is not requested', 'is requested']):
                    g.halt = 1
                else:
                    if 'lock' in g.held:
                        g.halt_false = True
                    return ZERO
            return C(1)
        if self.mode in ('conc', 'worker') and m in ('ratio', 'count'):
            return st.sym(m, 1 if m == 'ratio' else 0, INTMAX - 1)
        return None

    def mstore(self, st, m, v):
        g = st.ghost
        if m == 'halt' and self.op in ('close', 'dtor') and self.mode == 'conc':
            b = self.eng.bit(st, v).c
            if b:
                g.halted = True
                g.halt_locked = 'lock' in g.held
                g.wake_ok = False
            else:
                self.eng.report(st, 'W03', 'halt withdrawn', 'the halt request is cleared')
            return False
        if self.mode in ('conc', 'worker') and m in ('ratio', 'count'):
            return True
        return False

    def atom(self, st, p):
        if isinstance(p, Ptr) and p.r == self.obj:
            return self.member(p.r, st.poly.norm(p.o))
        return None

    # atomic accesses do not race
    def atomic_load(self, st, p, size, t, order):
        m = self.atom(st, p)
        if m is None:
            return None
        v = self.mload(st, m, size)
        if v is not None:
            return v
        return self.raw_load(st, p, size, t)

    def raw_load(self, st, p, size, t):
        c = st.regions[p.r].cells.get(st.poly.norm(p.o))
        if c is None:
            return None
        return c[1]

    def atomic_store(self, st, p, size, v, order):
        m = self.atom(st, p)
        if m is None:
            return False
        if not self.mstore(st, m, v):
            st.w(p.r).cells[st.poly.norm(p.o)] = (size, v)
        return True

    def atomic_rmw(self, st, p, size, k, x):
        m = self.atom(st, p)
        if m is None:
            return None
        cur = self.atomic_load(st, p, size, 'i%d' % (8 * size), None)
        if k == 'xchg':
            n = x
        elif k in ('add', 'sub'):
            n = cur + x if k == 'add' else cur - x
        else:
            raise Undecided('atomicrmw ' + k)
        self.atomic_store(st, p, size, n, None)
        return cur

    def atomic_cas(self, st, p, size, exp, new):
        m = self.atom(st, p)
        if m is None:
            return None
        cur = self.atomic_load(st, p, size, 'i%d' % (8 * size), None)
        ok = self.eng.icmp(st, 'eq', cur, exp, 'i%d' % (8 * size))
        if ok:
            self.atomic_store(st, p, size, new, None)
        return cur, ok

    def loop_head(self, st, fr, b, back, n):
        g = st.ghost
        if self.mode == 'worker' and back and 'gmlc/containers' in fr.fn.get('file', '') and not fr.fn.get('std'):
            self.check_taken(st)
            g.seen_empty = ()

    # --- start states
    def make(self, st, raw=False):
        r = st.new_region('arg', self.size, 'WorkQueue', self.lazy)
        self.obj = r.rid
        if raw:
            r.init = 'undef'
            return
        w = st.w(r.rid)
        for lv, nm in zip(LEVELS, ('H0', 'M0', 'L0')):
            segs = (new_var(st, lv),)
            st.assume((C(1 << 28)) - seqlen(segs))
            self.set_level(st, Ptr(r.rid, C(self.off[lv])), segs)
            setattr(st.ghost, nm, segs)
        g = st.ghost
        g.r0 = st.sym('ratio', 1, INTMAX)
        g.m0 = st.sym('count', 0, INTMAX - 1)
        g.nw = st.sym('workers', 0, INTMAX)
        for role, v in (('ratio', g.r0), ('count', g.m0), ('workers', g.nw)):
            if role in self.off:
                w.cells[C(self.off[role])] = (4, v)
        if 'halt' in self.off:
            w.cells[C(self.off['halt'])] = (1, ZERO)

    def make_pool(self, st, halted):
        g = st.ghost
        n = g.nw
        t = Lin.sym(fresh('t'))
        segs = ()
        if not st.poly.entails_ge(-n):
            st.assume(t, n - 1 - t)
            segs = (('x', fresh('pool'), False, t), ('e', ((0, 8, Obj('thr', 'T:joined' if halted else 'T:live')),)), ('x', fresh('pool'), False, n - 1 - t))
        r = new_seq(self.eng, st, 'vector', 'std::thread', segs, 'threadpool')
        st.w(self.obj).cells[C(self.off['pool'])] = (24, Model('vector', r.rid))
        if 'halt' in self.off:
            st.w(self.obj).cells[C(self.off['halt'])] = (1, C(1 if halted else 0))
        g.halted = g.halt_locked = g.wake_ok = g.closed = bool(halted)

    def lazy(self, e, st, r, off, size, t):
        st.approx('unknown member at offset %r' % off)
        if t == 'ptr':
            return NULL if st.choose('unknown pointer member null') else Ptr(st.new_region('opaque', 1 << 30, 'unknown', 'opaque').rid)
        if t.startswith('i'):
            return st.sym('member', 0, (1 << (8 * size)) - 1)
        raise Undecided('unknown member')

    def held_at_end(self, st, prop):
        if st.ghost.held:
            self.eng.report(st, prop, 'lock not released', 'the queue lock is still held at the end of %s' % self.op)

    def cell(self, st, role):
        c = st.regions[self.obj].cells.get(C(self.off[role])) if role in self.off else None
        return c[1] if c is not None else None

    def lcontent(self, st, lv):
        v = self.cell(st, lv)
        return st.regions[v.r].data


def engine(prog, spec):
    e = Engine(prog, spec)
    e.models = spec.models()
    for f in prog.fns.values():
        f.pop('_model', None)
    return e


def newsink():
    return {'acc': {}, 'acc_maybe': {}, 'spawns': 0}


# --- sequential contracts -----------------------------------------------------
def j_get(P, mode):
    def run(r):
        sink = newsink()
        spec = WSpec(P, 'getWorkBlock', mode, sink)
        e = engine(P, spec)
        st = State()
        st.ghost = WGhost()
        spec.make(st)
        out = st.new_region('arg', 16, 'result')
        done = [0]

        def empty(s, segs):
            segs = seqnorm(s, segs)
            return not segs or not s.ge(seqlen(segs) - 1, 'level holds work')

        def first(s, nm):
            from .models import split_elem
            for _ in range(4):
                segs = seqnorm(s, getattr(s.ghost, nm))
                setattr(s.ghost, nm, segs)
                if segs[0][0] == 'e':
                    return segs[0]
                split_elem(e, s, segs[0], ZERO, 'std::shared_ptr<gmlc::containers::BasicWorkBlock>')
            raise Undecided('first')

        def end(s):
            g = s.ghost
            spec.held_at_end(s, 'W01')
            if s.exc:
                return
            w = e.blob(s, Ptr(out.rid), 16)
            v = w[0][2]
            done[0] += 1
            if mode == 'conc':
                if v == NULL and g.taken is None:
                    miss = [lv for lv in LEVELS if lv not in g.seen_empty]
                    if miss:
                        e.report(s, 'W01', 'gave up', 'getWorkBlock returns nothing without having found level %s empty' % ', '.join(miss))
                elif g.taken is None or v != g.taken:
                    e.report(s, 'W02', 'block lost', 'getWorkBlock took a block from its level but returns %r' % (v,))
                return
            order = None
            if not empty(s, g.H0):
                order = 'H0'
            elif s.ge(g.m0 - g.r0, 'the ratio is reached') and not empty(s, g.L0):
                order = 'L0!'
            elif not empty(s, g.M0):
                order = 'M0'
            elif not empty(s, g.L0):
                order = 'L0'
            nm = order[:2] if order else None
            names = {'H0': 'High', 'M0': 'Med', 'L0': 'Low'}
            want = first(s, nm)[1] if nm else None
            wv = want[0][2] if want else NULL
            if v != wv:
                src = ', '.join(g.pops) or 'nothing'
                e.report(s, 'W01', 'wrong choice', 'getWorkBlock takes from %s, expected the first block of %s%s' % (src, names[nm] if nm else 'nothing', ' (priority ratio reached)' if order == 'L0!' else ''), stop=True)
            for k, lv in names.items():
                exp = seqnorm(s, getattr(g, k))
                if k == nm:
                    exp = exp[1:]
                if not seq_equal(s, spec.lcontent(s, lv), exp):
                    e.report(s, 'W02', 'content', 'after getWorkBlock level %s holds %s instead of %s' % (lv, show_seq(s, spec.lcontent(s, lv)), show_seq(s, exp)), stop=True)
            c = spec.cell(s, 'count')
            if c is not None and not s.inexact:
                exp = g.m0 + 1 if order == 'M0' else ZERO if order == 'L0!' else g.m0
                if not s.poly.entails_eq(c - exp):
                    if order == 'L0' and s.poly.entails_eq(c):
                        pass    # low work in the absence of medium work may restart the count
                    else:
                        e.report(s, 'W01', 'counter', 'the counter of medium blocks is %r after handing out %s, expected %r' % (s.poly.norm(c), {'M0': 'a medium block', 'L0!': 'a forced low block', 'L0': 'a low block', 'H0': 'a high block', None: 'nothing'}[order], s.poly.norm(exp)))
            rr = spec.cell(s, 'ratio')
            if rr is not None and not s.poly.entails_eq(rr - g.r0):
                e.report(s, 'W01', 'ratio', 'getWorkBlock changes the priority ratio')
        e.call_entry(st, 'vp_wq_getWorkBlock', [Ptr(spec.obj), Ptr(out.rid)])
        # the result is returned through memory
        e.run('WorkQueue getWorkBlock%s' % (' concurrently' if mode == 'conc' else ''), st, end)
        r.engine(e, done[0])
        r.extra['acc'] = sink['acc']
    return run


def j_add(P, op):
    prio = op.split('_')[1]
    vec = op.startswith('addv')

    def run(r):
        sink = newsink()
        spec = WSpec(P, op, 'seq', sink)
        e = engine(P, spec)
        st = State()
        g = st.ghost = WGhost()
        spec.make(st)
        done = [0]
        args = [Ptr(spec.obj)]
        g.blk = spec.new_block(st, 'the work block')
        sts = []
        if vec:
            n = st.sym('n_vec', 0, 1 << 40)
            arg = st.new_region('arg', 24, 'blocks')
            t = Lin.sym(fresh('t'))
            for k in (0, 1, 2):
                s = st.clone()
                if k == 0:
                    s.poly.add_eq(n)
                    segs = ()
                else:
                    s.assume(t, n - 1 - t)
                    w = ((0, 8, s.ghost.blk), (8, 8, Opq())) if k == 1 else ((0, 8, NULL), (8, 8, NULL))
                    segs = (('x', fresh('v'), False, t), ('e', w), ('x', fresh('v'), False, n - 1 - t))
                q = new_seq(e, s, 'vector', 'std::shared_ptr<gmlc::containers::BasicWorkBlock>', segs, 'blocks')
                s.w(arg.rid).cells[ZERO] = (24, Model('vector', q.rid))
                s.note('start: %s' % ('no block', 'a block somewhere in the vector', 'a null pointer somewhere in the vector')[k])
                sts.append((s, k == 1, q.rid))
            args.append(Ptr(arg.rid))
        else:
            arg = st.new_region('arg', 16, 'block pointer')
            a = st.clone()
            a.w(arg.rid).cells[ZERO] = (8, a.ghost.blk)
            a.w(arg.rid).cells[C(8)] = (8, Opq())
            a.note('start: a block')
            b = st.clone()
            b.w(arg.rid).cells[ZERO] = (8, NULL)
            b.w(arg.rid).cells[C(8)] = (8, NULL)
            b.note('start: a null pointer')
            sts = [(a, True, None), (b, False, None)]
            args.append(Ptr(arg.rid))

        def end(s, given, q):
            g = s.ghost
            spec.held_at_end(s, 'W02')
            if s.exc:
                return
            done[0] += 1
            fin = s.regions[g.blk.r].meta.get('fin') if given else None
            # what it was at the start
            lv = PRIO[prio]
            has = s.ge(g.nw - 1, 'there are workers')
            if has:
                if given and g.execs:
                    e.report(s, 'W02', 'executed by caller', '%s executes the block although there are workers' % op, stop=True)
                if vec:
                    want = ((lv, 'vec'),)
                    if g.pushed != want:
                        # one by one is fine as well, content decides
                        pass
                    for k, l in (('H0', 'High'), ('M0', 'Med'), ('L0', 'Low')):
                        exp = seqnorm(s, getattr(g, k))
                        got = spec.lcontent(s, l)
                        if l == lv:
                            exp2 = exp + seqnorm(s, s.regions[q].data)
                            if not seq_equal(s, got, exp2):
                                e.report(s, 'W02', 'content', 'after %s level %s holds %s instead of %s' % (op, l, show_seq(s, got), show_seq(s, exp2)), stop=True)
                        elif not seq_equal(s, got, exp):
                            e.report(s, 'W02', 'content', '%s changes level %s' % (op, l), stop=True)
                    if given and not g.note_after:
                        e.report(s, 'W02', 'no notification', 'workers are not notified after blocks are queued', stop=True)
                    return
                dropped = not given or (fin == 1 and prio != 'required')
                maybe = given and fin is None and prio != 'required'
                want = () if dropped else ((lv, 'blk'),)
                if g.pushed != want:
                    e.report(s, 'W02', 'queued', '%s of %s queues %s, expected %s' % (op, 'a null pointer' if not given else 'a finished block' if fin == 1 else 'a block', ', '.join('%s at %s' % (b, a) for a, b in g.pushed) or 'nothing', 'the block at %s' % lv if want else 'nothing'), stop=True)
                if want and not g.note_after and g.before is not None and s.ge(g.nw - 1 - g.before, 'fewer blocks than workers wait'):
                    e.report(s, 'W02', 'no notification', 'no worker is notified after the block is queued (level held %r blocks for %r workers)' % (s.poly.norm(g.before), s.poly.norm(g.nw)), stop=True)
            else:
                if g.pushed:
                    e.report(s, 'W02', 'queued', '%s queues a block although there is no worker' % op, stop=True)
                if given:
                    if g.execs > 1:
                        e.report(s, 'W02', 'executed twice', '%s executes the block more than once' % op, stop=True)
                    # fin==1 because of the execution or from the start
                    if g.execs == 0 and fin != 1:
                        e.report(s, 'W02', 'not executed', '%s without workers returns without executing the block' % op, stop=True)
        for s, given, q in sts:
            if q is not None:
                spec.vec = q
            e.call_entry(s, 'vp_wq_' + op, args)
            e.run('WorkQueue ' + op, s, lambda x: end(x, given, q))
        r.engine(e, done[0])
        r.extra['acc'] = sink['acc']
    return run


def j_simple(P, op):
    def run(r):
        sink = newsink()
        spec = WSpec(P, op, 'seq', sink)
        e = engine(P, spec)
        st = State()
        g = st.ghost = WGhost()
        spec.make(st)
        args = [Ptr(spec.obj)]
        arg = None
        if op == 'setPriorityRatio':
            arg = st.sym('r', -INTMAX - 1, INTMAX)
            args.append(arg)
        done = [0]
        sts = [st]
        if op == 'getWorkerCount' and 'halt' in spec.off:
            h = st.clone()
            h.w(spec.obj).cells[C(spec.off['halt'])] = (1, C(1))
            h.note('start: the queue is closed')
            sts.append(h)

        def end(s):
            g = s.ghost
            if s.exc:
                return
            done[0] += 1
            ret = s.ret
            if op == 'isEmpty':
                emp = True
                for k in ('H0', 'M0', 'L0'):
                    segs = seqnorm(s, getattr(g, k))
                    if segs and s.ge(seqlen(segs) - 1, 'level holds work'):
                        emp = False
                if s.eq0(ret) == emp:
                    e.report(s, 'W01', 'isEmpty', 'isEmpty returns %s while %s' % ('false' if emp else 'true', 'no block is queued' if emp else 'blocks are queued'))
            elif op == 'numBlock':
                n = seqlen(g.H0) + seqlen(g.M0) + seqlen(g.L0)
                if not s.poly.entails_eq(ret - n):
                    e.report(s, 'W01', 'numBlock', 'numBlock returns %r for %r blocks' % (s.poly.norm(ret), s.poly.norm(n)))
            elif op == 'getWorkerCount':
                h = spec.cell(s, 'halt')
                want = g.nw if s.eq0(h) else ZERO
                if not s.poly.entails_eq(ret - want):
                    e.report(s, 'W03', 'worker count', 'getWorkerCount returns %r, expected %r' % (s.poly.norm(ret), s.poly.norm(want)))
            elif op == 'setPriorityRatio':
                rr = spec.cell(s, 'ratio')
                if rr is None:
                    raise Undecided('ratio member')
                want = arg if s.ge(arg - 1, 'ratio is positive') else C(spec.default)
                if not s.poly.entails_eq(rr - want):
                    e.report(s, 'W01', 'ratio', 'setPriorityRatio(%r) sets the ratio to %r instead of %r' % (s.poly.norm(arg), s.poly.norm(rr), want))
            if op != 'setPriorityRatio':
                for role, v in (('ratio', g.r0), ('count', g.m0)):
                    c = spec.cell(s, role)
                    if c is not None and not s.poly.entails_eq(c - v):
                        e.report(s, 'W01', role, '%s changes the %s' % (op, role))
                for k, lv in (('H0', 'High'), ('M0', 'Med'), ('L0', 'Low')):
                    if not seq_equal(s, spec.lcontent(s, lv), getattr(g, k)):
                        e.report(s, 'W02', 'content', '%s changes level %s' % (op, lv))
        if op == 'setPriorityRatio':
            d = []
            s0 = State()
            s0.ghost = WGhost()
            e.call_entry(s0, 'vp_wq_defaultRatio', [])
            e.run('defaultPriorityRatio', s0, lambda s: d.append(s.ret.c))
            spec.default = d[0]
        for s in sts:
            e.call_entry(s, 'vp_wq_' + op, args)
            e.run('WorkQueue ' + op, s, end)
        r.engine(e, done[0])
        r.extra['acc'] = sink['acc']
    return run


def j_close(P, op):
    def run(r):
        sink = newsink()
        spec = WSpec(P, op, 'conc', sink)
        e = engine(P, spec)
        done = [0]
        for halted in (False, True):
            for none in (False, True):
                st = State()
                g = st.ghost = WGhost()
                spec.make(st)
                if none:
                    st.poly.add_eq(g.nw)
                else:
                    st.poly.add_ge(g.nw - 1)
                spec.make_pool(st, halted)
                st.note('start: %s, %s workers' % ('closed already' if halted else 'running', 'no' if none else 'some'))

                def end(s, none=none, halted=halted):
                    g = s.ghost
                    done[0] += 1
                    spec.held_at_end(s, 'W03')
                    if s.exc:
                        e.report(s, 'W03', 'throws', '%s throws' % op)
                        return
                    if op == 'close':
                        h = spec.cell(s, 'halt')
                        if h is None or s.eq0(h):
                            e.report(s, 'W03', 'not halted', 'the queue is not marked halted after closeWorkerQueue')
                    if not none and not halted and g.joins != 1:
                        e.report(s, 'W03', 'not joined', 'a worker thread is joined %d times by %s' % (g.joins, op))
                e.call_entry(st, 'vp_wq_' + op, [Ptr(spec.obj)])
                e.run('WorkQueue %s' % op, st, end)
        r.engine(e, done[0])
        r.extra['acc'] = sink['acc']
    return run


def j_ctor(P, _=None):
    def run(r):
        sink = newsink()
        spec = WSpec(P, 'ctor', 'seq', sink)
        e = engine(P, spec)
        st = State()
        st.ghost = WGhost()
        spec.make(st, True)
        n = st.ghost.arg = st.sym('threads', -INTMAX - 1, INTMAX)
        done = [0]

        def end(s):
            if s.exc:
                return
            done[0] += 1
            nw = spec.cell(s, 'workers')
            pool = spec.cell(s, 'pool')
            if not isinstance(pool, Model):
                raise Undecided('pool')
            if nw is None:
                raise Undecided('worker count')
            segs = s.regions[pool.r].data
            if not s.poly.entails_eq(seqlen(segs) - nw):
                e.report(s, 'W03', 'pool', 'the queue reports %r workers but holds %r threads' % (s.poly.norm(nw), s.poly.norm(seqlen(segs))))
            for x in segs:
                if x[0] == 'e' and x[1][0][2] == Obj('thr', 'T:none'):
                    e.report(s, 'W03', 'worker not started', 'a thread of the pool is not started')
            if s.ge(s.ghost.arg, 'a count is given') and not s.poly.entails_eq(nw - s.ghost.arg):
                e.report(s, 'W03', 'worker count', '%r workers instead of %r' % (s.poly.norm(nw), n))
            h = spec.cell(s, 'halt')
            if h is not None and not s.eq0(h):
                e.report(s, 'W03', 'halted', 'a new queue is halted')
            for lv in LEVELS:
                v = spec.cell(s, lv)
                if not isinstance(v, Model) or seqnorm(s, s.regions[v.r].data):
                    e.report(s, 'W02', 'content', 'a new queue is not empty')
            rr = spec.cell(s, 'ratio')
            c = spec.cell(s, 'count')
            if isinstance(rr, Lin) and not s.poly.entails_ge(rr - 1):
                e.report(s, 'W01', 'ratio', 'a new queue has the ratio %r' % rr)
            if isinstance(c, Lin) and not s.poly.entails_eq(c):
                e.report(s, 'W01', 'counter', 'a new queue starts with count %r' % c)
        e.call_entry(st, 'vp_wq_ctor', [Ptr(spec.obj), n])
        e.run('WorkQueue constructor', st, end)
        r.engine(e, done[0])
        # the function the threads run
        if spec.spawned is None:
            r.undecided.append(dict(entry='worker', why='no thread start found', where='', paths=1))
            return
        for op in ('worker', 'worker_idle'):
            s, p = spec.spawned
            s = s.clone()
            spec2 = WSpec(P, op, 'worker', sink)
            spec2.obj = spec.obj
            e2 = engine(P, spec2)
            e2.gfn = e.gfn
            fn = None
            if isinstance(p, tuple):
                fn, targ = p
                vp = None
            else:
                targ = [p]
                vp = s.regions[p.r].cells.get(ZERO)
            if vp is not None and isinstance(vp[1], Ptr) and vp[1].r in s.regions:
                gl = s.regions[vp[1].r].name
                init = P.globals.get(gl, {}).get('init')
                for k in range(4):
                    f = e2.const_at(s, init, vp[1].o.c + 8 * k, 8, 'ptr') if init else None
                    if isinstance(f, FnV) and P.fns[f.n].get('name') == '_M_run':
                        fn = f.n
            if fn is None:
                raise Undecided('thread function')
            s.ghost = WGhost()
            s.exc = None
            # other threads have run since
            w = s.w(spec.obj)
            d2 = [0]
            h = 'halt' in spec.off
            if op == 'worker_idle':
                s.ghost.halt = 1
                s.note('start: the queue is halted and empty')

            def end2(x):
                d2[0] += 1
                g = x.ghost
                spec2.held_at_end(x, 'W03')
                if x.exc:
                    e2.report(x, 'W02', 'throws', 'the worker ends by an exception')
                    return
                spec2.check_taken(x)
                if not g.halt:
                    e2.report(x, 'W02', 'worker leaves', 'a worker leaves its loop although no halt was requested')
                    e2.report(x, 'W03', 'worker leaves', 'a worker leaves its loop although no halt was requested')
            e2.call_entry(s, fn, targ)
            e2.run('WorkQueue ' + op.replace('_', ', ').replace('idle', 'halted and empty'), s, end2)
            if op == 'worker' and d2[0] == 0:
                r.undecided.append(dict(entry=op, why='the worker loop has no analysed exit', where='', paths=1))
            if op == 'worker_idle' and d2[0] == 0 and not e2.undecided and not e2.findings:
                s.frames = []
                s.inexact = None
                e2.report(s, 'W03', 'never leaves', 'a worker of a halted and empty queue never leaves its loop')
            r.engine(e2, d2[0])
        r.extra['acc'] = sink['acc']
    return run


# --- WorkBlock ------------------------------------------------------------------
class BGhost(Ghost):
    def __init__(self):
        self.runs = ()       # task states invoked
        self.gets = ()       # futures asked for their value
        self.waits = ()
        self.value = None


class BSpec(ModelSpec, Spec):
    """packaged_task value: Obj('task', state, mode), mode in none, ready
    (future not retrieved), armed (retrieved), done (invoked)"""
    mem_props = {'*': 'W04'}

    def __init__(self, prog, kind, op):
        self.prog = prog
        self.kind = kind
        self.op = op
        ty = 'int' if kind == 'wbi' else 'void'
        self.cls = 'gmlc::containers::WorkBlock<%s>' % ty
        t = prog.types.get(self.cls)
        if t is None:
            raise KeyError('class WorkBlock vanished')
        self.size = t['size']
        self.off = {}
        for m in t['mem']:
            if m['ty'].startswith('packaged_task<'):
                self.off['task'] = m['o']
            elif m['ty'].startswith('shared_future<') or m['ty'].startswith('future<'):
                self.off['future'] = m['o']
            elif m['n'] == 'finished':
                self.off['finished'] = m['o']
            elif m['n'] == 'loaded':
                self.off['loaded'] = m['o']
        self.known = set(self.off.values()) | {0}

    def models(self):
        return [self.m_block] + ALL

    def m_block(self, e, fn):
        cls = fn.get('cls', '')
        base = fn.get('base')
        if fn['decl']:
            return None
        if cls.startswith('packaged_task<'):
            return {'packaged_task': self.t_ctor, '~packaged_task': self.t_dtor, 'operator=': self.t_assign, 'valid': self.t_valid,
                    'get_future': self.t_getfuture, 'operator()': self.t_call, 'reset': self.t_reset, 'swap': self.t_swap}.get(base, self.unknown)
        if (cls.startswith('shared_future<') or cls.startswith('future<')) and fn.get('std'):
            own = cls.split('<')[0]
            return {own: self.f_ctor, '~' + own: self.f_dtor, 'operator=': self.f_assign, 'get': self.f_get, 'share': self.f_ctor, 'valid': self.f_valid}.get(base, self.f_base(base))
        if cls.startswith('__basic_future<'):
            return {'valid': self.f_valid, 'wait': self.f_wait, 'wait_for': self.unknown}.get(base, self.unknown)
        return None

    def f_base(self, base):
        return {'wait': self.f_wait}.get(base, self.unknown)

    def unknown(self, e, st, fn, a, ins):
        raise Undecided('unmodelled ' + fn['dem'][:100])

    def task(self, st, p):
        v = self.eng.load(st, p, 16, 'task')
        if not isinstance(v, Obj) or v.st == 'dead':
            self.memerr(st, 'dead', 'use of a packaged_task that is not alive')
            raise Stop()
        return v

    def put_task(self, st, p, v):
        self.eng.store(st, p, 16, v)

    def t_ctor(self, e, st, fn, a, ins):
        ps = conv_args(fn)
        if not ps:
            return self.put_task(st, a[0], Obj('task', 'none'))
        if 'packaged_task<' in ps[0]:
            v = self.task(st, a[1])
            self.put_task(st, a[0], v)
            self.put_task(st, a[1], Obj('task', 'none'))
            return None
        # from a function object: a new state for the given work
        f = e.load(st, a[1], 8, 'i64')
        self.put_task(st, a[0], Obj('task', 'ready/%s' % self.newstate(st, self.fname(st, f))))

    def fname(self, st, v):
        if isinstance(v, Lin):
            from .poly import symname
            return symname(v.t[0][0]) if v.t else str(v.c)
        return '?'

    def newstate(self, st, f):
        return 's%d:%s' % (st.nins, f)

    def t_dtor(self, e, st, fn, a, ins):
        v = self.task(st, a[0])
        self.put_task(st, a[0], Obj('task', v.id, 'dead'))

    def t_assign(self, e, st, fn, a, ins):
        v = self.task(st, a[1])
        self.task(st, a[0])
        self.put_task(st, a[1], Obj('task', 'none'))
        self.put_task(st, a[0], v)
        return a[0]

    def t_swap(self, e, st, fn, a, ins):
        x, y = self.task(st, a[0]), self.task(st, a[1])
        self.put_task(st, a[0], y)
        self.put_task(st, a[1], x)

    def t_valid(self, e, st, fn, a, ins):
        return C(0 if self.task(st, a[0]).id == 'none' else 1)

    def t_getfuture(self, e, st, fn, a, ins):
        v = self.task(st, a[1])
        if v.id == 'none' or not v.id.startswith('ready/'):
            st.note('get_future: %s' % ('no state' if v.id == 'none' else 'future already retrieved'))
            raise Throw('std')
        s = v.id.split('/')[1]
        self.put_task(st, a[1], Obj('task', 'armed/' + s))
        self.eng.store(st, a[0], 16, Obj('fut', s))

    def t_call(self, e, st, fn, a, ins):
        v = self.task(st, a[0])
        if v.id == 'none' or v.id.startswith('done'):
            st.note('task call: %s' % ('no state' if v.id == 'none' else 'promise already satisfied'))
            raise Throw('std')
        m, s = v.id.split('/')
        st.ghost.runs = (st.ghost.runs + (s,))[-3:]
        self.put_task(st, a[0], Obj('task', ('done/' if m == 'armed' else 'doneready/') + s))

    def t_reset(self, e, st, fn, a, ins):
        v = self.task(st, a[0])
        if v.id == 'none':
            st.note('reset: no state')
            raise Throw('std')
        f = v.id.split(':')[1]
        self.put_task(st, a[0], Obj('task', 'ready/' + self.newstate(st, f)))

    def fut(self, st, p):
        v = self.eng.load(st, p, 16, 'fut')
        if not isinstance(v, Obj) or v.st == 'dead':
            self.memerr(st, 'dead', 'use of a future that is not alive')
            raise Stop()
        return v

    def f_ctor(self, e, st, fn, a, ins):
        ps = conv_args(fn)
        if fn['base'] == 'share':
            v = self.fut(st, a[1])
            self.eng.store(st, a[0], 16, v)
            self.eng.store(st, a[1], 16, Obj('fut', 'none'))
            return None
        if not ps:
            return self.eng.store(st, a[0], 16, Obj('fut', 'none'))
        if len(ps) != 1 or 'future<' not in ps[0]:
            raise Undecided('future constructor')
        v = self.fut(st, a[1])
        self.eng.store(st, a[0], 16, v)
        if ps[0].endswith('&&'):
            self.eng.store(st, a[1], 16, Obj('fut', 'none'))

    def f_dtor(self, e, st, fn, a, ins):
        v = self.fut(st, a[0])
        self.eng.store(st, a[0], 16, Obj('fut', v.id, 'dead'))

    def f_assign(self, e, st, fn, a, ins):
        ps = conv_args(fn)
        self.fut(st, a[0])
        v = self.fut(st, a[1])
        if ps[0].endswith('&&') and a[0] != a[1]:
            self.eng.store(st, a[1], 16, Obj('fut', 'none'))
        self.eng.store(st, a[0], 16, v)
        return a[0]

    def f_valid(self, e, st, fn, a, ins):
        return C(0 if self.fut(st, a[0]).id == 'none' else 1)

    def f_get(self, e, st, fn, a, ins):
        v = self.fut(st, a[0])
        if v.id == 'none':
            raise Throw('std')
        st.ghost.gets = (st.ghost.gets + (v.id,))[-2:]
        if ins.get('t') == 'ptr':
            if not hasattr(self, 'val'):
                self.val = None
            r = st.new_region('opaque', 8, 'value of ' + v.id, 'opaque')
            x = st.sym('value', -INTMAX - 1, INTMAX)
            st.w(r.rid).cells[ZERO] = (4, x)
            st.ghost.value = x
            return Ptr(r.rid)
        return None

    def f_wait(self, e, st, fn, a, ins):
        v = self.fut(st, a[0])
        if v.id == 'none':
            raise Throw('std')
        st.ghost.waits = (st.ghost.waits + (v.id,))[-2:]

    # --- objects
    def lazy(self, e, st, r, off, size, t):
        if not off.t and off.c == 0:
            return Ptr(e.global_region(st, '_ZTVN4gmlc10containers9WorkBlockIiEE'), C(16))
        st.approx('unknown member at %r' % off)
        if t.startswith('i'):
            return st.sym('member', 0, (1 << (8 * size)) - 1)
        return None

    def make(self, st, state, tag=''):
        """state: (task, future, finished, loaded)"""
        r = st.new_region('arg', self.size, 'WorkBlock' + tag, self.lazy)
        task, fut, fin, loaded = state
        r.cells[C(self.off['task'])] = (16, Obj('task', task))
        r.cells[C(self.off['future'])] = (16, Obj('fut', fut))
        if 'finished' in self.off:
            r.cells[C(self.off['finished'])] = (1, C(fin))
        if 'loaded' in self.off:
            r.cells[C(self.off['loaded'])] = (1, C(loaded))
        return r.rid

    def get(self, st, rid, role):
        c = st.regions[rid].cells.get(C(self.off[role])) if role in self.off else None
        return c[1] if c is not None else None


STATES = {
    'no task': ('none', 'none', 0, 0),
    'no task, executed': ('none', 'none', 1, 0),
    'armed': ('armed/s0:f', 's0:f', 0, 1),
    'executed': ('done/s0:f', 's0:f', 1, 1),
}
BOPS = ['ctor', 'ctor_task', 'ctor_func', 'move_ctor', 'move_assign', 'execute', 'isFinished', 'reset', 'wait', 'updateTask', 'updateWorkFunction', 'get_future', 'getReturnVal']


def j_block(P, kind, op):
    def run(r):
        spec = BSpec(P, kind, op)
        e = engine(P, spec)
        done = [0]
        starts = [None] if op.startswith('ctor') or op == 'move_ctor' else list(STATES)
        srcs = list(STATES) if op.startswith('move') else [None]
        for s0 in starts:
            for s1 in srcs:
                st = State()
                st.ghost = BGhost()
                if s0 is None:
                    rr = st.new_region('arg', spec.size, 'WorkBlock', 'undef')
                    obj = rr.rid
                else:
                    obj = spec.make(st, STATES[s0])
                args = [Ptr(obj)]
                src = None
                if s1 is not None:
                    sv = tuple(x.replace('s0', 's1') if isinstance(x, str) else x for x in STATES[s1])
                    src = spec.make(st, sv, ' (source)')
                    args.append(Ptr(src))
                out = None
                if op in ('ctor_task', 'updateTask'):
                    t = st.new_region('arg', 16, 'new task')
                    t.cells[ZERO] = (16, Obj('task', 'ready/new:g'))
                    args.append(Ptr(t.rid))
                elif op in ('ctor_func', 'updateWorkFunction'):
                    t = st.new_region('arg', 8, 'new work')
                    g = Lin.sym(fresh('g'))
                    t.cells[ZERO] = (8, g)
                    spec.gname = spec.fname(st, g)
                    args.append(Ptr(t.rid))
                elif op == 'get_future':
                    out = st.new_region('arg', 16, 'future').rid
                    args.append(Ptr(out))
                st.note('start: %s%s' % (s0 or 'raw', ', source ' + s1 if s1 else ''))

                def end(s, s0=s0, s1=s1, obj=obj, src=src, out=out):
                    g = s.ghost
                    done[0] += 1
                    rep = lambda rule, msg: e.report(s, 'W04', rule, msg, stop=True)
                    what = '%s of a block (%s)' % (op, s0 or 'new')
                    old = STATES[s0] if s0 else None
                    if s.exc:
                        if op in ('wait', 'getReturnVal') and old and old[1] == 'none':
                            return
                        rep('throws', '%s throws' % what)
                    task, fut = spec.get(s, obj, 'task'), spec.get(s, obj, 'future')
                    fin, loaded = spec.get(s, obj, 'finished'), spec.get(s, obj, 'loaded')
                    if not isinstance(task, Obj) or not isinstance(fut, Obj):
                        rep('state', '%s leaves no task or future object' % what)
                    for nm, v in (('finished', fin), ('loaded', loaded)):
                        if v is None or v is UNDEF:
                            if nm in spec.off:
                                rep('uninitialised', '%s leaves the flag "%s" uninitialised' % (what, nm))
                            raise Undecided('flag')
                    fin, loaded = not s.eq0(fin), not s.eq0(loaded)
                    runs = g.runs
                    if op == 'execute':
                        want = ('s0:f',) if s0 == 'armed' else ()
                        if runs != want:
                            rep('execution', '%s runs the task %d times, expected %d' % (what, len(runs), len(want)))
                        if not fin:
                            rep('not finished', '%s leaves it unfinished' % what)
                        if fut.id != old[1] or (s0 == 'armed' and task.id != 'done/s0:f') or (s0 != 'armed' and task.id != old[0]):
                            rep('state', '%s changes its task or future' % what)
                        if loaded != bool(old[3]):
                            rep('state', '%s changes whether a task is loaded' % what)
                        return
                    if runs:
                        rep('execution', '%s runs the task' % what)
                    if op in ('isFinished', 'wait', 'get_future', 'getReturnVal'):
                        if (task.id, fut.id, int(fin), int(loaded)) != old:
                            rep('state', '%s changes the block' % what)
                        if op == 'isFinished' and s.eq0(s.ret) == bool(old[2]):
                            rep('isFinished', 'isFinished is wrong for a block that is %s' % s0)
                        if op == 'get_future' and spec.fut(s, Ptr(out)).id != old[1]:
                            rep('future', 'get_future returns another future')
                        if op in ('wait', 'getReturnVal'):
                            if g.gets + g.waits != () and (set(g.gets) | set(g.waits)) != {old[1]} or not (g.gets or g.waits):
                                rep('future', '%s does not wait for the task of the block' % what)
                        if op == 'getReturnVal' and kind == 'wbi' and (g.value is None or not s.poly.entails_eq(s.ret - g.value)):
                            rep('value', 'getReturnVal does not return the value of the future')
                        return
                    # operations that arm the block
                    if op == 'move_assign' or op == 'move_ctor':
                        sv = tuple(x.replace('s0', 's1') if isinstance(x, str) else x for x in STATES[s1])
                        if (task.id, fut.id, int(fin), int(loaded)) != sv:
                            rep('state', 'after %s the block is not what the source was (%s)' % (op, s1))
                        t2 = spec.get(s, src, 'task')
                        if isinstance(t2, Obj) and t2.id != 'none':
                            rep('state', 'after %s the source still holds a task' % op)
                        return
                    if fin:
                        rep('finished', '%s leaves the block finished' % what)
                    f = {'ctor_task': 'g', 'updateTask': 'g', 'reset': 'f'}.get(op) or (spec.gname if op in ('ctor_func', 'updateWorkFunction') else None)
                    if op == 'ctor' or (op == 'reset' and s0.startswith('no task')):
                        if task.id != 'none' or loaded or fut.id != 'none':
                            rep('state', '%s: a block without a task claims to have one' % what)
                        return
                    if not loaded:
                        rep('not loaded', '%s leaves the block without a loaded task' % what)
                    if not task.id.startswith('armed/'):
                        rep('not armed', '%s leaves a task that is %s' % (what, task.id.split('/')[0]))
                    sid = task.id.split('/')[1]
                    if not sid.endswith(':' + f):
                        rep('task', '%s leaves another task loaded' % what)
                    if fut.id != sid:
                        rep('future', '%s: the future does not belong to the task that will run' % what)
                    if old and sid == old[1]:
                        rep('future', '%s keeps the old future' % what)
                e.call_entry(st, 'vp_%s_%s' % (kind, op), args)
                e.run('WorkBlock<%s> %s' % ('int' if kind == 'wbi' else 'void', op), st, end)
        r.engine(e, done[0])
    return run


ADDS = [a + p for a in ('add_', 'addv_') for p in PRIO]


def jobs(ctx):
    P = ctx['prog']['work']
    out = []
    if ctx['prop'] in (None, 'W01', 'W02', 'W03', 'W05'):
        out.append(('WorkQueue constructor and worker loop', j_ctor(P)))
        for op in ADDS:
            out.append(('WorkQueue ' + op, j_add(P, op)))
        for op in ('isEmpty', 'numBlock', 'setPriorityRatio', 'getWorkerCount'):
            out.append(('WorkQueue ' + op, j_simple(P, op)))
        for m in ('seq', 'conc'):
            out.append(('WorkQueue getWorkBlock (%s)' % m, j_get(P, m)))
        for op in ('close', 'dtor'):
            out.append(('WorkQueue ' + op, j_close(P, op)))
    if ctx['prop'] in (None, 'W04'):
        for k in ('wbi', 'wbv'):
            for op in BOPS:
                out.append(('WorkBlock<%s> %s' % ('int' if k == 'wbi' else 'void', op), j_block(P, k, op)))
    return out


def combine(ctx, results):
    from .queues import races
    acc = {}
    out = []
    for r in results:
        for k, v in r.extra.get('acc', {}).items():
            acc.setdefault(k, v)
    for a, b in races(acc):
        if a[1] == 'close' and b[1] == 'close':
            continue
        wa, ta = acc[a]
        wb, tb = acc[b]
        out.append(dict(property='W05', rule='race on %s' % a[0], message='%s of WorkQueue::%s by %s holding {%s} and %s by %s (%s) holding {%s} exclude each other by no lock' % (
            a[2], a[0], a[1], ', '.join(sorted(a[3])), b[2], b[1], wb, ', '.join(sorted(b[3]))), where=wa, entry='%s / %s' % (a[1], b[1]), path=ta, stack=[wa, wb], witness={}))
    return out


ASSUME = [
    'SimpleQueue behaves as an atomic FIFO (decided separately by C01-C04)',
    'std::thread, mutex, condition_variable, packaged_task, futures, shared_ptr and vector behave as the standard says; starting a thread and allocation do not fail',
    'work blocks are finished after execute() and do not throw from it (packaged_task stores exceptions)',
    'closeWorkerQueue is not called by two threads at the same time',
]
EXPLAIN = {
    '*': 'Every public operation of WorkQueue, the function its threads run, and every operation of WorkBlock<int> and WorkBlock<void> is interpreted abstractly: '
         'contracts on the three level sequences for arbitrary contents, counters and worker counts; typestate of threads (one arbitrary worker is tracked through all loops), '
         'locks, halt flag, notifications and of the packaged task and its future.',
}
RULES = {'*': 'contract and typestate obligations at the end of every abstract path and at each wait, join, notification and execution'}
