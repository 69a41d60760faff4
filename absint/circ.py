"""CircularBuffer and CircularBufferRaw: R01, R02, R03.

Abstract state: buffer of arbitrary capacity with n blocks in first-in first-out
order, laid out in one run [r,w) or, wrapped, in an upper run [r,e) followed by a
marker (or less than 5 spare bytes) and a lower run [0,w). The front block and
one arbitrary other block are tracked, everything between is a run of unknown
blocks. Final states are read the way a reader would walk them."""
from .poly import Lin, C, ZERO, fresh
from .engine import Engine, State, Ptr, NULL, UNDEF, Undecided, Stop
from .rawmem import RawSpec, RGhost, roles

HARNESS = ['circ']
NS = 'gmlc::containers::'
MAXI = (1 << 31) - 1
RAWROLES = {'origin': (('origin',), 'unsigned char*'), 'write': (('next_write',), 'unsigned char*'), 'read': (('next_read',), 'unsigned char*'),
            'cap': (('capacity_',), 'int'), 'count': (('dataCount',), 'int')}
TOPROLES = {'data': (('data',), 'unsigned char*'), 'stated': (('actualSize',), 'int'), 'actual': (('actualCapacity',), 'int')}
HDR = 4


class Item:
    """one block or a run of blocks in the order they leave the buffer; lo is the
    address of its first byte in region rid as it was before the operation"""
    __slots__ = ('kind', 'rid', 'lo', 'n', 'cnt')

    def __init__(self, kind, rid, lo, n, cnt):
        self.kind = kind
        self.rid = rid
        self.lo = lo
        self.n = n          # block: size without header, run: bytes
        self.cnt = cnt


class Buf:
    def __init__(self):
        self.obj = None
        self.rid = 0
        self.C = self.K = self.r = self.w = self.n = ZERO
        self.items = []
        self.wrapped = False


class RSpec(RawSpec):
    def __init__(self, prog, raw, op):
        self.prog = prog
        self.raw = raw
        self.op = op
        r, self.rawsize, self.guess = roles(prog.types, NS + 'CircularBufferRaw', RAWROLES, optional=('count',))
        if raw:
            self.roles = r
            self.size = self.rawsize
        else:
            t = prog.types.get(NS + 'CircularBuffer')
            if t is None:
                raise KeyError('class CircularBuffer vanished')
            sub = [m for m in t['mem'] if m['ty'] == 'CircularBufferRaw']
            if len(sub) != 1:
                raise Undecided('CircularBuffer does not hold one CircularBufferRaw')
            self.roles, self.size, g = roles(prog.types, NS + 'CircularBuffer', TOPROLES)
            self.guess = self.guess or g
            for k, (o, ty) in r.items():
                self.roles[k] = (o + sub[0]['o'], ty)
        self.props = ('R03', 'R01') if op in OWN else ('R01', 'R02')
        self.bufs = []

    def memerr(self, st, kind, msg):
        for p in (('R03',) if kind == 'free' else self.props):
            self.eng.report(st, p, 'memory ' + kind, msg)

    def unknown_int(self, st, rid, off, size, v):
        for b in self.bufs:
            if b.rid == rid:
                for it in b.items:
                    if it.kind == 'run' and st.poly.sat(off - it.lo, it.lo + it.n - off - 4):
                        st.approx('header of an arbitrary block')

    # --- states
    def make(self, st, shape, name):
        b = Buf()
        r = st.new_region('object', self.size, name)
        b.obj = r.rid
        self.bufs.append(b)
        if shape == 'uninit':
            return b
        if self.guess:
            st.approx('members identified by type only')
        if shape == 'empty':
            stale = st.new_region('stale', 0, 'storage of another buffer')
            st.w(stale.rid).alive = False
            for k in ('cap', 'count', 'stated', 'actual'):
                if k in self.roles:
                    self.put(st, b.obj, k, ZERO)
            p = NULL
            if 'data' in self.roles:
                self.put(st, b.obj, 'data', NULL)
                p = Ptr(stale.rid, st.sym('p'))
            for k in ('origin', 'read', 'write'):
                self.put(st, b.obj, k, p)
            return b
        b.C = st.sym('C', 0, MAXI)
        b.K = st.sym('K', 0, MAXI) if not self.raw else b.C
        st.assume(b.K - b.C)
        size = b.K if self.raw else st.sym('S', 0, 1 << 31)
        st.assume(size - b.K)
        buf = st.new_region('heap', size, 'the buffer of ' + name)
        buf.meta['raw'] = True
        buf.meta['own'] = True
        buf.data = ()
        b.rid = buf.rid
        ints = st.ghost.ints

        def place(kinds, at):
            for k in kinds:
                if k in 'FT':
                    s = st.sym('s' + k, 1, MAXI)
                    b.items.append(Item('blk', b.rid, at, s, C(1)))
                    ints[(b.rid, at)] = s
                    at = at + HDR + s
                    b.n = b.n + 1
                else:
                    cnt = st.sym('cnt' + k, 1, 1 << 27)
                    ln = st.sym('run' + k, 5, MAXI)
                    h = st.sym('first' + k, 1, MAXI)
                    st.assume(ln - cnt.scale(5), ln - HDR - h)
                    b.items.append(Item('run', b.rid, at, ln, cnt))
                    ints[(b.rid, at)] = h
                    at = at + ln
                    b.n = b.n + cnt
                if at is not None:
                    st.assume(b.C - at)
            return at
        if shape != 'c0':
            kind, up, low, mark = shape
            b.r = st.sym('r', 0, MAXI)
            if kind == 'lin':
                b.w = place(up, b.r)
            else:
                b.wrapped = True
                e = place(up, b.r)
                if mark:
                    st.assume(b.C - e - 5)
                    ints[(b.rid, e)] = C(-1)
                else:
                    st.assume(C(4) - (b.C - e), b.C - e)
                b.w = place(low, ZERO)
                st.assume(b.r - b.w)
                if 'count' not in self.roles:
                    st.assume(b.r - b.w - 1)
        for k, v in (('cap', b.C), ('count', b.n), ('stated', b.C), ('actual', b.K), ('data', Ptr(b.rid)), ('origin', Ptr(b.rid)), ('read', Ptr(b.rid, b.r)), ('write', Ptr(b.rid, b.w))):
            if k in self.roles:
                self.put(st, b.obj, k, v)
        return b

    # --- final states
    def rep(self, st, props, rule, msg):
        for p in props:
            self.eng.report(st, p, rule, msg)
        raise Stop()

    def intval(self, st, obj, role, props):
        v = self.cell(st, obj, role)
        if v is UNDEF:
            self.rep(st, props, 'uninitialised', 'member %s is left uninitialised by %s' % (role, self.op))
        if not isinstance(v, Lin):
            raise Undecided('member %s is %r' % (role, v))
        return st.poly.norm(v)

    def ptrval(self, st, obj, role, props):
        v = self.cell(st, obj, role)
        if v is UNDEF:
            self.rep(st, props, 'uninitialised', 'member %s is left uninitialised by %s' % (role, self.op))
        if not isinstance(v, Ptr):
            raise Undecided('member %s is %r' % (role, v))
        return v

    def check(self, st, obj, cap, items, props, what, exact=None):
        """the object must represent a buffer of that capacity holding the items;
        exact = (r, w) when the operation must not have changed it at all"""
        n = ZERO
        for it in items:
            n = n + it.cnt
        v = self.intval(st, obj, 'cap', props)
        if not st.eq0(v - cap):
            self.rep(st, props, 'capacity', 'after %s the capacity is %r instead of %r' % (what, v, st.poly.norm(cap)))
        v = self.intval(st, obj, 'count', props) if 'count' in self.roles else n
        if not st.eq0(v - n):
            self.rep(st, props, 'count', 'after %s the count is %r instead of %r' % (what, v, st.poly.norm(n)))
        org = self.ptrval(st, obj, 'origin', props)
        rd = self.ptrval(st, obj, 'read', props)
        wr = self.ptrval(st, obj, 'write', props)
        if 'data' in self.roles:
            if not st.eq0(self.intval(st, obj, 'stated', props) - cap):
                self.rep(st, props, 'stated size', 'after %s the stated size is not the capacity' % what)
            K = self.intval(st, obj, 'actual', props)
            if not st.ge(K - cap):
                self.rep(st, props, 'allocation', 'after %s the capacity exceeds the allocated size' % what)
            data = self.ptrval(st, obj, 'data', props)
            if data.r == 0:
                if not st.eq0(K) or not st.eq0(cap):
                    self.rep(st, props, 'allocation', 'after %s there is no storage for the stated capacity' % what)
            else:
                r = st.regions.get(data.r)
                if r is None or not r.alive:
                    self.rep(st, props, 'dangling', 'after %s the buffer refers to released storage' % what)
                if r.kind != 'heap' or not st.eq0(data.o):
                    self.rep(st, props, 'allocation', 'after %s the buffer does not own its storage' % what)
                if not st.ge(r.size - K):
                    self.rep(st, props, 'allocation', 'after %s the storage is smaller (%r) than recorded (%r)' % (what, st.poly.norm(r.size), K))
        else:
            data = org
        for nm, p in (('read', rd), ('write', wr)):
            if p.r != org.r:
                self.rep(st, props, 'origin', 'after %s the %s position lies in other storage' % (what, nm))
        r = st.poly.norm(rd.o - org.o)
        w = st.poly.norm(wr.o - org.o)
        if not items:
            if not st.eq0(r) or not st.eq0(w):
                self.rep(st, props, 'positions', 'after %s the empty buffer does not start at its origin' % what)
        if st.eq0(cap):
            return
        if org.r != data.r or not st.eq0(org.o - data.o):
            self.rep(st, props, 'origin', 'after %s the buffer works on other storage than it owns' % what)
        if org.r == 0:
            self.rep(st, props, 'origin', 'after %s there is no storage for the stated capacity' % what)
        if not items:
            return
        if exact is not None:
            if not st.eq0(r - exact[0]) or not st.eq0(w - exact[1]):
                self.rep(st, props, 'positions', 'the positions are changed by %s' % what)
        if not st.ge(r) or not st.ge(cap - r - 5):
            self.rep(st, props, 'positions', 'after %s the read position %r leaves no room for a block' % (what, r))
        if 'count' not in self.roles and st.eq0(r - w):
            self.rep(st, props, 'positions', 'after %s the positions coincide as in an empty buffer although blocks are stored' % what)
        pos = r
        wraps = 0
        region = st.regions[org.r]
        for k, it in enumerate(items):
            wrap = False
            if k and not st.ge(cap - pos - 5):
                wrap = True
            else:
                v = self.rawint(st, region, st.poly.norm(org.o + pos), 4, 'i32', True)
                if not isinstance(v, Lin):
                    self.rep(st, props, 'block header', 'after %s the header of a stored block is overwritten' % what)
                if not st.ge(v):
                    wrap = True
                    if not st.eq0(v + 1):
                        # any negative value makes the reader wrap
                        pass
            if wrap:
                if wraps:
                    self.rep(st, props, 'layout', 'after %s a reader wraps around twice' % what)
                wraps = 1
                pos = ZERO
            if it.kind == 'blk':
                z = self.int_is(st, org.r, org.o + pos, it.n)
                if z is not None:
                    self.rep(st, props, 'block header', 'after %s the size recorded for a stored block %s' % (what, z))
                z = self.range_is(st, org.r, org.o + pos + HDR, it.n, it.rid, it.lo if it.rid not in [b.rid for b in self.bufs] else it.lo + HDR)
                if z is not None:
                    self.rep(st, props, 'block bytes', 'after %s a stored block %s' % (what, z))
                pos = st.poly.norm(pos + HDR + it.n)
            else:
                z = self.range_is(st, org.r, org.o + pos, it.n, it.rid, it.lo)
                if z is not None:
                    self.rep(st, props, 'block bytes', 'after %s stored blocks are damaged: the range %s' % (what, z))
                pos = st.poly.norm(pos + it.n)
            if not st.ge(cap - pos):
                self.rep(st, props, 'layout', 'after %s a stored block ends outside the buffer' % what)
            if wraps and not st.ge(r - pos):
                self.rep(st, props, 'layout', 'after %s blocks at both ends overlap' % what)
        if not st.eq0(w - pos):
            if wraps or not st.eq0(w) or st.ge(cap - pos - 5):
                self.rep(st, props, 'positions', 'after %s the write position is %r, the last block ends at %r' % (what, w, pos))

    def ownership(self, st, objs, what):
        seen = {}
        if 'data' in self.roles:
            for o in objs:
                p = self.cell(st, o, 'data')
                if isinstance(p, Ptr) and p.r > 0:
                    if p.r in seen:
                        self.rep(st, ('R03',), 'shared storage', 'after %s two buffers own the same storage' % what)
                    seen[p.r] = o
        for rid, r in st.regions.items():
            if r.kind == 'heap' and r.alive and rid not in seen and not (self.raw and r.meta.get('own')):
                self.rep(st, ('R03',), 'leak', 'after %s storage (%s) is never released' % (what, r.name))
        for b in self.bufs:
            if self.raw and b.rid and not st.regions[b.rid].alive:
                self.rep(st, ('R01',), 'release', '%s releases storage it does not own' % what)


OWN = ('ctor', 'ctor_size', 'dtor', 'copy_ctor', 'move_ctor', 'copy_assign', 'move_assign', 'resize')
SIMPLE = ('push', 'avail_push', 'avail', 'pop', 'next', 'empty', 'capacity', 'clear')


def shapes():
    out = ['empty', 'c0', ('lin', 'F', '', False)]
    ts = ['F%sT%s' % (a, b) for a in ('', 'A') for b in ('', 'B')]
    for t in ts:
        out.append(('lin', t, '', False))
    # upper run holds the front block
    out.append(('wrap', 'F', '', False))
    for t in ts:
        out.append(('wrap', t, '', False))
        for m in (False, True):
            out.append(('wrap', t, 'D', m))
    for a in ('F', 'FA'):
        for low in ('T', 'BT', 'TD', 'BTD'):
            for m in (False, True):
                out.append(('wrap', a, low, m))
    # reader at the marker
    for t in ['F'] + ts:
        out.append(('wrap', '', t, True))
    return out


SHAPES = shapes()
DEST = ['empty', 'c0', ('lin', 'F', '', False), ('wrap', 'F', 'T', True)]


def job(P, raw, op, part):
    def run(r):
        done = [0]
        eng = []
        k = 'cr' if raw else 'cb'
        for v1, v2 in part:
            try:
                one(P, raw, op, k, v1, v2, done, eng)
            except Undecided as u:
                r.undecided.append(dict(entry='%s %s' % (k, op), why=str(u), where='', paths=1))
        for e in eng:
            r.engine(e, 0)
        r.done += done[0]
    return run


def sname(s):
    if s is None or isinstance(s, str):
        return s
    return '%s %s%s' % (s[0], s[1], ('/' + ('marker ' if s[3] else '') + s[2]) if s[0] == 'wrap' else '')


def one(P, raw, op, k, v1, v2, done, eng):
    sp = RSpec(P, raw, op)
    e = Engine(P, sp)
    e.models = sp.models()
    eng.append(e)
    st = State()
    st.ghost = RGhost()
    b = sp.make(st, v1, 'the buffer')
    o = None
    if v2 == 'self':
        o = b
    elif v2 is not None:
        o = sp.make(st, v2, 'the other buffer')
    if st.poly.bad or not st.poly.sat():
        return
    args = [Ptr(b.obj)]
    n = None
    variants = [None]
    if op in ('push', 'avail_push', 'pop'):
        n = st.sym('n', -(1 << 31), MAXI)
        variants = ['block', 'null', 'nopos'] if op != 'pop' else ['block', 'nopos']
    if op == 'avail':
        n = st.sym('n', -(1 << 31), MAXI)
        args.append(n)
    if op == 'resize':
        n = st.sym('n', 0, MAXI)
        args.append(n)
    if op == 'ctor_size':
        n = st.sym('n', 0, MAXI)
        if raw:
            u = st.new_region('heap', n, 'the memory block')
            u.meta.update(raw=True, own=True)
            u.data = ()
            args.append(Ptr(u.rid))
        args.append(n)
    if v2 is not None:
        args.append(Ptr(o.obj))
    for var in variants:
        s = st.clone()
        a = list(args)
        user = None
        if var is not None:
            if var == 'null':
                a.append(NULL)
            else:
                if var == 'block':
                    s.assume(n - 1)
                    u = s.new_region('user', n, "the caller's block")
                else:
                    s.assume(-n)
                    u = s.new_region('user', ZERO, "the caller's block")
                u.meta['raw'] = True
                u.data = ()
                user = u.rid
                a.append(Ptr(u.rid))
            a.append(n)

        def end(x, var=var, user=user):
            final(sp, x, raw, op, b, o, v2, n, var, user)
            done[0] += 1
        e.call_entry(s, 'vp_%s_%s' % (k, op), a)
        e.run('%s %s (%s%s%s)' % ('CircularBufferRaw' if raw else 'CircularBuffer', op, sname(v1), ', ' + sname(v2) if v2 else '', ', ' + var if var else ''), s, end)


def boolean(st, v):
    return not st.eq0(v)


def final(sp, st, raw, op, b, o, v2, n, var, user):
    rep = lambda props, rule, msg: sp.rep(st, props, rule, msg)
    thrown = st.exc is not None
    objs = [b.obj] if op != 'dtor' else []
    if o is not None and o is not b:
        objs.append(o.obj)
    if thrown and op != 'resize' and not (op in ('copy_ctor', 'copy_assign', 'ctor_size') and st.exc == 'bad_array_new_length'):
        rep(('R01', 'R02') if op not in OWN else ('R03',), 'exception', '%s throws' % op)

    def same(props, what):
        sp.check(st, b.obj, b.C, b.items, props, what, exact=(b.r, b.w))
    if op == 'dtor':
        sp.ownership(st, [], 'destruction')
        return
    if op in ('ctor', 'ctor_size'):
        sp.check(st, b.obj, n if op == 'ctor_size' else ZERO, [], ('R01', 'R02', 'R03') if op == 'ctor_size' else ('R01', 'R03'), 'construction')
        sp.ownership(st, objs, 'construction')
        return
    ret = st.ret
    if ret is UNDEF:
        rep(('R01', 'R02', 'R03'), 'result', '%s returns an indeterminate value' % op)

    def fits():
        need = n + HDR
        if b.wrapped:
            return st.ge(b.r - b.w - need)
        return st.ge(b.C - b.w - need) or st.ge(b.r - need)
    if op in ('push', 'avail_push'):
        v = ret
        acc = boolean(st, v)
        if op == 'avail_push':
            acc = not (st.eq0(v) or st.eq0(v - 2))
            av = not (st.eq0(v) or st.eq0(v - 1))
            if var == 'block' and av != acc:
                rep(('R02',), 'available', 'isSpaceAvailable says %s, but push %s the block' % (av, 'stores' if acc else 'refuses'))
        if not acc:
            same(('R01', 'R02'), 'a refused push')
            if var == 'block' and fits():
                rep(('R01', 'R02'), 'refused', 'push refuses a block for which there is contiguous space')
        else:
            if var != 'block':
                rep(('R01',), 'accepted', 'push accepts %s' % ('null data' if var == 'null' else 'a block of non-positive size'))
            sp.check(st, b.obj, b.C, b.items + [Item('blk', user, ZERO, n, C(1))], ('R02', 'R01'), 'push')
        sp.ownership(st, objs, 'push')
        return
    if op == 'avail':
        if st.ge(n - 1):
            if boolean(st, ret) != fits():
                rep(('R02',), 'available', 'isSpaceAvailable is wrong')
        same(('R02',), 'isSpaceAvailable')
        return
    if op in ('empty', 'capacity', 'next'):
        pr = ('R03',) if op == 'capacity' else ('R02',)
        if op == 'empty':
            if boolean(st, ret) != (not b.items):
                rep(pr, 'result', 'empty() is wrong')
        else:
            want = b.C if op == 'capacity' else b.items[0].n if b.items else ZERO
            if not isinstance(ret, Lin) or not st.eq0(ret - want):
                rep(pr, 'result', '%s returns %r instead of %r' % ('nextDataSize' if op == 'next' else op, ret, st.poly.norm(want)))
        same(pr, op)
        return
    if op == 'pop':
        if not b.items:
            if not st.eq0(ret):
                rep(('R02',), 'result', 'pop of an empty buffer returns %r' % ret)
            same(('R02', 'R01'), 'pop of an empty buffer')
            return
        f = b.items[0]
        if not st.ge(n - f.n):
            if not st.eq0(ret + f.n):
                rep(('R02',), 'result', 'pop into a too small block returns %r instead of %r' % (ret, -f.n))
            sp.check(st, b.obj, b.C, b.items, ('R02',), 'a refused pop')
            return
        if not st.eq0(ret - f.n):
            rep(('R02',), 'result', 'pop returns %r instead of the size %r' % (ret, f.n))
        z = sp.range_is(st, user, ZERO, f.n, b.rid, f.lo + HDR)
        if z is not None:
            rep(('R02',), 'popped bytes', 'the block handed out by pop %s' % z)
        sp.check(st, b.obj, b.C, b.items[1:], ('R02', 'R01'), 'pop')
        sp.ownership(st, objs, 'pop')
        return
    if op == 'clear':
        sp.check(st, b.obj, b.C, [], ('R02', 'R01'), 'clear')
        sp.ownership(st, objs, 'clear')
        return
    P = ('R03', 'R01')
    if op == 'resize':
        if thrown:
            same(('R03',), 'a resize that throws')
            if st.ge(n - b.C):
                rep(('R03',), 'resize refused', 'growing the buffer throws')
            sp.ownership(st, objs, 'a resize that throws')
            return
        sp.check(st, b.obj, n, b.items, P, 'resize')
        sp.ownership(st, objs, 'resize')
        return
    P = ('R03',)
    if thrown:
        return
    if v2 == 'self':
        same(P, 'self ' + op)
        sp.ownership(st, objs, 'self ' + op)
        return
    sp.check(st, b.obj, o.C, o.items, P, 'the copy' if op.startswith('copy') else 'the move')
    if op.startswith('copy'):
        sp.check(st, o.obj, o.C, o.items, P, 'being copied', exact=(o.r, o.w))
    else:
        sp.check(st, o.obj, ZERO, [], P, 'being moved from')
    sp.ownership(st, objs, op)


def jobs(ctx):
    P = ctx['prog']['circ']
    out = []

    def add(raw, op, cases):
        nm = 'CircularBufferRaw' if raw else 'CircularBuffer'
        for i in range(0, len(cases), 24):
            out.append(('%s %s%s' % (nm, op, ' (%d)' % (i // 24 + 1) if len(cases) > 24 else ''), job(P, raw, op, cases[i:i + 24])))
    for raw in (True, False):
        if not raw:
            add(raw, 'ctor', [('uninit', None)])
            add(raw, 'dtor', [(s, None) for s in SHAPES])
            add(raw, 'resize', [(s, None) for s in SHAPES])
            for op in ('copy_ctor', 'move_ctor'):
                add(raw, op, [('uninit', s) for s in SHAPES])
            for op in ('copy_assign', 'move_assign'):
                add(raw, op, [(d, s) for d in DEST for s in SHAPES] + [(d, 'self') for d in SHAPES])
        add(raw, 'ctor_size', [('uninit', None)])
        for op in SIMPLE:
            add(raw, op, [(s, None) for s in SHAPES])
    return out


ASSUME = [
    'memcpy, memmove and new[]/delete[] behave as the standard says; allocation of a representable size does not fail',
    'blocks passed by the caller are as large as stated and do not lie inside the buffer',
    'fewer than 2^28 blocks, capacities below 2^31, sizes given to the constructor and resize are not negative',
]
EXPLAIN = {
    '*': 'Every operation is interpreted abstractly from every state satisfying the class invariant, enumerated by shape (one run, wrapped with and without marker, reader at the marker, '
         'position of the tracked block) with symbolic capacity, positions, sizes, block counts and bytes. Memory is a write log over the unknown initial bytes, ranges are related by a polyhedron; '
         'every access is a bounds obligation and every final state is walked as a reader would and must hold the contents demanded.',
}
RULES = {'*': 'bounds and lifetime of every access; layout invariant and contents contract at the end of every abstract path; single ownership of storage'}
