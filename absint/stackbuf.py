"""StackBuffer and StackBufferRaw: S01, S02, S03.

Abstract state: buffer of arbitrary capacity D with c blocks, used data bytes
off; the index entry of the top block and of one arbitrary other block j are
tracked (Skolem constants), together with their bytes. Each operation is
interpreted from every such state and must end in one with the contents its
contract demands."""
from .poly import Lin, C, ZERO, fresh
from .engine import Engine, State, Ptr, NULL, UNDEF, Undecided, Stop, loc
from .rawmem import RawSpec, RGhost, roles

HARNESS = ['stackbuf']
NS = 'gmlc::containers::'
MAXI = (1 << 31) - 1
RAWROLES = {'origin': (('origin',), 'unsigned char*'), 'next': (('next',), 'unsigned char*'), 'index': (('nextIndex',), 'dataIndex*'),
            'cap': (('dataSize',), 'int'), 'count': (('dataCount',), 'int')}
TOPROLES = {'data': (('data',), 'unsigned char*'), 'stated': (('statedSize',), 'int'), 'actual': (('actualCapacity',), 'int')}


class Buf:
    """symbolic description of one buffer before the operation"""

    def __init__(self):
        self.obj = None
        self.rid = 0
        self.D = self.K = self.off = self.c = ZERO
        self.ents = []     # (position from the top, offset, size)


class SSpec(RawSpec):
    def __init__(self, prog, raw, op):
        self.prog = prog
        self.raw = raw
        self.op = op
        t = prog.types.get(NS + 'StackBuffer')
        r, self.rawsize, self.guess = roles(prog.types, NS + 'StackBufferRaw', RAWROLES)
        if raw:
            self.roles = r
            self.size = self.rawsize
        else:
            if t is None:
                raise KeyError('class StackBuffer vanished')
            sub = [m for m in t['mem'] if m['ty'] == 'StackBufferRaw']
            if len(sub) != 1:
                raise Undecided('StackBuffer does not hold one StackBufferRaw')
            self.roles, self.size, g = roles(prog.types, NS + 'StackBuffer', TOPROLES)
            self.guess = self.guess or g
            for k, (o, ty) in r.items():
                self.roles[k] = (o + sub[0]['o'], ty)
        self.mem_props = ('S01', 'S03') if op in OWN else ('S01', 'S02') if op in ('push', 'avail_push', 'pop', 'next', 'reverse') else ('S01',)
        self.bufs = []

    def memerr(self, st, kind, msg):
        ps = ('S03',) if kind == 'free' else self.mem_props
        for p in ps:
            self.eng.report(st, p, 'memory ' + kind, msg)

    def unknown_int(self, st, rid, off, size, v):
        for b in self.bufs:
            if b.rid == rid:
                # entry of a block that is not tracked
                lo = b.D - b.c.scale(8)
                if st.poly.entails_ge(lo - off - 4) or st.poly.entails_ge(off - b.D):
                    return
                st.approx('index entry of an arbitrary block')

    # --- states
    def make(self, st, var, name):
        b = Buf()
        r = st.new_region('object', self.size, name)
        b.obj = r.rid
        self.bufs.append(b)
        if var == 'uninit':
            return b
        if self.guess:
            st.approx('members identified by type only')
        if var == 'empty':
            stale = st.new_region('stale', 0, 'storage of another buffer')
            st.w(stale.rid).alive = False
            for k in ('cap', 'count', 'stated', 'actual'):
                if k in self.roles:
                    self.put(st, b.obj, k, ZERO)
            if 'data' in self.roles:
                self.put(st, b.obj, 'data', NULL)
                p = Ptr(stale.rid, st.sym('p'))
            else:
                p = NULL
            self.put(st, b.obj, 'origin', p)
            self.put(st, b.obj, 'next', p)
            self.put(st, b.obj, 'index', Ptr(stale.rid, st.sym('ix')) if not self.raw else NULL)
            return b
        b.D = st.sym('D', 0, MAXI)
        b.K = st.sym('K', 0, MAXI) if not self.raw else b.D
        st.assume(b.K - b.D)
        size = b.K if self.raw else st.sym('S', 0, 1 << 31)
        st.assume(size - b.K)
        buf = st.new_region('heap', size, 'the buffer of ' + name)
        buf.meta['raw'] = True
        buf.meta['own'] = True
        buf.data = ()
        b.rid = buf.rid
        b.log = ()
        if var in ('c0', 'small'):
            b.c = b.off = ZERO
            if var == 'small':
                st.assume(C(7) - b.D)
            else:
                st.assume(b.D - 8)
        else:
            b.c = st.sym('c', 1, 1 << 28)
            b.off = st.sym('off', 1, MAXI)
            st.assume(b.D - b.off - b.c.scale(8))
            o1 = st.sym('o1', 0, MAXI)
            s1 = st.sym('s1', 1, MAXI)
            st.assume(b.off - o1 - s1, s1)
            b.ents.append((C(1), o1, s1))
            if var == 'c1':
                st.assume(C(1) - b.c)
            else:
                j = st.sym('j', 2)
                st.assume(b.c - j)
                oj = st.sym('oj', 0, MAXI)
                sj = st.sym('sj', 1, MAXI)
                st.assume(b.off - oj - sj)
                if var == 'below':
                    st.assume(o1 - oj - sj)
                else:
                    st.assume(oj - o1 - s1)
                b.ents.append((j, oj, sj))
            # the other blocks take at least one byte each
            rest = b.off - b.c
            for i, o, s in b.ents:
                rest = rest - s + 1
            st.assume(rest)
            for i, o, s in b.ents:
                at = st.poly.norm(b.D - b.c.scale(8) + (i - 1).scale(8))
                st.ghost.ints[(b.rid, at)] = o
                st.ghost.ints[(b.rid, st.poly.norm(at + 4))] = s
        for k, v in (('cap', b.D), ('count', b.c), ('stated', b.D), ('actual', b.K), ('data', Ptr(b.rid)), ('origin', Ptr(b.rid)), ('next', Ptr(b.rid, b.off))):
            if k in self.roles:
                self.put(st, b.obj, k, v)
        if var == 'small':
            self.put(st, b.obj, 'index', Ptr(b.rid, st.sym('ix')))
        else:
            self.put(st, b.obj, 'index', Ptr(b.rid, st.poly.norm(b.D - 8 - b.c.scale(8))))
        return b

    # --- final states
    def rep(self, st, props, rule, msg):
        for p in props:
            self.eng.report(st, p, rule, msg)
        raise Stop()

    def intval(self, st, obj, role, props):
        v = self.cell(st, obj, role)
        if v is UNDEF:
            self.rep(st, props, 'uninitialised', 'member %s is left uninitialised by %s' % (role, self.op))
        if not isinstance(v, Lin):
            raise Undecided('member %s is %r' % (role, v))
        return st.poly.norm(v)

    def ptrval(self, st, obj, role, props):
        v = self.cell(st, obj, role)
        if v is UNDEF:
            self.rep(st, props, 'uninitialised', 'member %s is left uninitialised by %s' % (role, self.op))
        if not isinstance(v, Ptr):
            raise Undecided('member %s is %r' % (role, v))
        return v

    def check(self, st, obj, D, c, ents, props, what, off=None, fresh_from=None):
        """the object must represent a buffer of capacity D with c blocks, among
        them ents = [(position, region, offset, size)] with those bytes; off: the
        used bytes demanded"""
        cap = self.intval(st, obj, 'cap', props)
        if not st.eq0(cap - D):
            self.rep(st, props, 'capacity', 'after %s the capacity is %r instead of %r' % (what, cap, st.poly.norm(D)))
        cnt = self.intval(st, obj, 'count', props)
        if not st.eq0(cnt - c):
            self.rep(st, props, 'count', 'after %s the count is %r instead of %r' % (what, cnt, st.poly.norm(c)))
        org = self.ptrval(st, obj, 'origin', props)
        nxt = self.ptrval(st, obj, 'next', props)
        if 'data' in self.roles:
            if not st.eq0(self.intval(st, obj, 'stated', props) - D):
                self.rep(st, props, 'stated size', 'after %s the stated size is not the capacity' % what)
            K = self.intval(st, obj, 'actual', props)
            if not st.ge(K - D):
                self.rep(st, props, 'allocation', 'after %s the capacity exceeds the allocated size' % what)
            data = self.ptrval(st, obj, 'data', props)
            if data.r == 0:
                if not st.eq0(K) or not st.eq0(D):
                    self.rep(st, props, 'allocation', 'after %s there is no storage for the stated capacity' % what)
            else:
                r = st.regions.get(data.r)
                if r is None or not r.alive:
                    self.rep(st, props, 'dangling', 'after %s the buffer refers to released storage' % what)
                if r.kind != 'heap' or not st.eq0(data.o):
                    self.rep(st, props, 'allocation', 'after %s the buffer does not own its storage' % what)
                if not st.ge(r.size - K):
                    self.rep(st, props, 'allocation', 'after %s the storage is smaller (%r) than recorded (%r)' % (what, st.poly.norm(r.size), K))
        else:
            data = org
        if st.eq0(D):
            if not st.eq0(c):
                self.rep(st, props, 'count', 'after %s an empty buffer claims blocks' % what)
            if nxt.r != org.r or not st.eq0(nxt.o - org.o):
                self.rep(st, props, 'used bytes', 'after %s an empty buffer claims data' % what)
            return
        if org != data and (org.r != data.r or not st.eq0(org.o - data.o)):
            self.rep(st, props, 'origin', 'after %s the stack works on other storage than it owns' % what)
        if org.r == 0:
            self.rep(st, props, 'origin', 'after %s there is no storage for the stated capacity' % what)
        if nxt.r != org.r:
            self.rep(st, props, 'origin', 'after %s the write position lies in other storage' % what)
        o = st.poly.norm(nxt.o - org.o)
        if not st.ge(o) or not st.ge(D - o - c.scale(8)):
            self.rep(st, props, 'used bytes', 'after %s the write position %r leaves the data region' % (what, o))
        if off is not None and not st.eq0(o - off):
            self.rep(st, props, 'used bytes', 'after %s the write position is %r instead of %r' % (what, o, st.poly.norm(off)))
        if st.eq0(c) and not st.eq0(o):
            self.rep(st, props, 'used bytes', 'after %s the empty buffer still claims %r bytes' % (what, o))
        if st.ge(D - 8):
            ix = self.ptrval(st, obj, 'index', props)
            want = st.poly.norm(org.o + D - 8 - c.scale(8))
            if ix.r != org.r or not st.eq0(ix.o - want):
                self.rep(st, props, 'index position', 'after %s the index position does not match the count' % what)
        for pos, rid, so, size in ents:
            h = st.poly.norm(org.o + D - c.scale(8) + (pos - 1).scale(8))
            r = st.regions[org.r]
            v = self.rawint(st, r, h, 4, 'i32', True)
            z = self.int_is(st, org.r, h + 4, size)
            if z is not None:
                self.rep(st, props, 'block index', 'after %s the size recorded for a stored block %s' % (what, z))
            if not isinstance(v, Lin):
                self.rep(st, props, 'block index', 'after %s the position recorded for a stored block is indeterminate' % what)
            if not st.ge(v) or not st.ge(o - v - size):
                self.rep(st, props, 'block index', 'after %s a stored block at %r lies outside the used bytes' % (what, st.poly.norm(v)))
            w = self.range_is(st, org.r, org.o + v, size, rid, so)
            if w is not None:
                self.rep(st, props, 'block bytes', 'after %s a stored block %s' % (what, w))

    def shift(self, b, d, skip=0):
        return [(i + d, b.rid, o, s) for i, o, s in b.ents[skip:]]

    def ownership(self, st, objs, what):
        seen = {}
        if 'data' in self.roles:
            for o in objs:
                p = self.cell(st, o, 'data')
                if isinstance(p, Ptr) and p.r > 0:
                    if p.r in seen:
                        self.rep(st, ('S03',), 'shared storage', 'after %s two buffers own the same storage' % what)
                    seen[p.r] = o
        for rid, r in st.regions.items():
            if r.kind == 'heap' and r.alive and rid not in seen and not (self.raw and r.meta.get('own')):
                self.rep(st, ('S03',), 'leak', 'after %s storage (%s) is never released' % (what, r.name))
        for b in self.bufs:
            if self.raw and b.rid and not st.regions[b.rid].alive:
                self.rep(st, ('S01',), 'release', '%s releases storage it does not own' % what)


OWN = ('ctor', 'ctor_size', 'dtor', 'copy_ctor', 'move_ctor', 'copy_assign', 'move_assign', 'swap', 'resize', 'raw', 'capacity')
SIMPLE = ('push', 'avail_push', 'avail', 'pop', 'next', 'count', 'empty', 'capacity', 'reverse', 'clear')
VARS = ('empty', 'small', 'c0', 'c1', 'below', 'above')


def job(P, raw, op):
    def run(r):
        done = [0]
        eng = []
        k = 'sr' if raw else 'sb'
        first = VARS
        if op in ('ctor', 'ctor_size', 'copy_ctor', 'move_ctor'):
            first = ('uninit',)
        second = (None,)
        if op in ('copy_ctor', 'move_ctor', 'copy_assign', 'move_assign', 'swap'):
            second = VARS if op.endswith('ctor') else VARS + ('self',)
        for v1 in first:
            for v2 in second:
                try:
                    one(P, raw, op, k, v1, v2, done, eng)
                except Undecided as u:
                    r.undecided.append(dict(entry='%s %s' % (k, op), why=str(u), where='', paths=1))
        for e in eng:
            r.engine(e, 0)
        r.done += done[0]
    return run


def unchanged(sp, st, b, props, what):
    ents = sp.shift(b, 0)
    sp.check(st, b.obj, b.D, b.c, ents, props, what, off=b.off)


def one(P, raw, op, k, v1, v2, done, eng):
    sp = SSpec(P, raw, op)
    e = Engine(P, sp)
    e.models = sp.models()
    eng.append(e)
    st = State()
    st.ghost = RGhost()
    b = sp.make(st, v1, 'the buffer')
    o = None
    if v2 == 'self':
        o = b
    elif v2 is not None:
        o = sp.make(st, v2, 'the other buffer')
    args = [Ptr(b.obj)]
    user = None
    n = None
    variants = [None]
    if op in ('push', 'avail_push', 'pop'):
        n = st.sym('n', -(1 << 31), MAXI)
        variants = ['block', 'null', 'nopos'] if op != 'pop' else ['block', 'nopos']
    if op in ('avail', 'resize'):
        n = st.sym('n', -(1 << 31), MAXI)
        args.append(n)
    if op == 'ctor_size':
        n = st.sym('n', 0, MAXI)
        if raw:
            u = st.new_region('heap', n, 'the memory block')
            u.meta.update(raw=True, own=True)
            u.data = ()
            args.append(Ptr(u.rid))
        args.append(n)
    if v2 is not None:
        args.append(Ptr(o.obj))
    for var in variants:
        s = st.clone()
        a = list(args)
        user = None
        if var is not None:
            if var == 'null':
                a.append(NULL)
            else:
                if var == 'block':
                    s.assume(n - 1)
                    u = s.new_region('user', n, "the caller's block")
                else:
                    s.assume(-n)
                    u = s.new_region('user', ZERO, "the caller's block")
                u.meta['raw'] = True
                u.data = ()
                user = u.rid
                a.append(Ptr(u.rid))
            a.append(n)

        def end(x, var=var, user=user):
            final(sp, x, raw, op, b, o, v2, n, var, user)
            done[0] += 1
        e.call_entry(s, 'vp_%s_%s' % (k, op), a)
        e.run('%s %s (%s%s%s)' % ('StackBufferRaw' if raw else 'StackBuffer', op, v1, ', ' + v2 if v2 else '', ', ' + var if var else ''), s, end)


def boolean(st, v):
    return not st.eq0(v)


def final(sp, st, raw, op, b, o, v2, n, var, user):
    rep = lambda props, rule, msg: sp.rep(st, props, rule, msg)
    thrown = st.exc is not None
    objs = [b.obj] if op != 'dtor' else []
    if o is not None and o is not b:
        objs.append(o.obj)
    if thrown and op not in ('resize',) and not (op in ('copy_ctor', 'copy_assign', 'ctor_size') and st.exc == 'bad_array_new_length'):
        rep(('S01', 'S02') if op not in OWN else ('S03',), 'exception', '%s throws' % op)
    what = op
    if op == 'dtor':
        sp.ownership(st, [], 'destruction')
        return
    if op in ('ctor', 'ctor_size'):
        sp.check(st, b.obj, n if op == 'ctor_size' else ZERO, ZERO, [], ('S01', 'S02', 'S03') if op == 'ctor_size' else ('S01', 'S03'), 'construction', off=ZERO)
        sp.ownership(st, objs, 'construction')
        return
    fits = None
    if op in ('push', 'avail_push', 'avail'):
        fits = st.poly.norm(b.D - b.off - (b.c + 1).scale(8) - n)
    ret = st.ret
    if ret is UNDEF:
        rep(('S01', 'S02', 'S03'), 'result', '%s returns an indeterminate value' % op)
    if op in ('push', 'avail_push'):
        v = ret
        acc = boolean(st, v)
        if op == 'avail_push':
            acc = not (st.eq0(v) or st.eq0(v - 2))
            av = not (st.eq0(v) or st.eq0(v - 1))
            if var == 'block' and av != acc:
                rep(('S02',), 'available', 'isSpaceAvailable says %s, but push %s the block' % (av, 'stores' if acc else 'refuses'))
        if not acc:
            unchanged(sp, st, b, ('S01', 'S02'), 'a refused push')
            if var == 'block' and st.ge(fits) and st.ge(b.D - 8):
                rep(('S01', 'S02'), 'refused', 'push refuses a block for which there is space')
        else:
            if var != 'block':
                rep(('S01',), 'accepted', 'push accepts %s' % ('null data' if var == 'null' else 'a block of non-positive size'))
            ents = sp.shift(b, 1) + [(C(1), user, ZERO, n)]
            sp.check(st, b.obj, b.D, b.c + 1, ents, ('S01', 'S02'), 'push', off=b.off + n)
        sp.ownership(st, objs, 'push')
        return
    if op == 'avail':
        if st.ge(n - 1):
            if boolean(st, ret) != st.ge(fits):
                rep(('S02', 'S01'), 'available', 'isSpaceAvailable is wrong')
        unchanged(sp, st, b, ('S02',), 'isSpaceAvailable')
        return
    if op in ('count', 'empty', 'capacity', 'raw', 'next'):
        want = {'count': b.c, 'capacity': b.D, 'raw': b.K, 'next': b.ents[0][2] if b.ents else ZERO}.get(op)
        pr = ('S03',) if op in ('capacity', 'raw') else ('S02',)
        if op == 'empty':
            if boolean(st, ret) != st.eq0(b.c):
                rep(pr, 'result', 'empty() is wrong')
        elif not isinstance(ret, Lin) or not st.eq0(ret - want):
            rep(pr, 'result', '%s returns %r instead of %r' % ({'count': 'getCurrentCount', 'raw': 'rawBlockCapacity', 'next': 'nextDataSize'}.get(op, op), ret, st.poly.norm(want)))
        unchanged(sp, st, b, pr, op)
        return
    if op == 'pop':
        if not b.ents:
            if not st.eq0(ret):
                rep(('S02',), 'result', 'pop of an empty buffer returns %r' % ret)
            unchanged(sp, st, b, ('S02', 'S01'), 'pop of an empty buffer')
            return
        _, o1, s1 = b.ents[0]
        room = n if var == 'block' else ZERO
        if not st.ge(n - s1):
            if not st.eq0(ret + s1):
                rep(('S02',), 'result', 'pop into a too small block returns %r instead of %r' % (ret, -s1))
            unchanged(sp, st, b, ('S02',), 'a refused pop')
            return
        if not st.eq0(ret - s1):
            rep(('S02',), 'result', 'pop returns %r instead of the size %r' % (ret, s1))
        w = sp.range_is(st, user, ZERO, s1, b.rid, o1)
        if w is not None:
            rep(('S02',), 'popped bytes', 'the block handed out by pop %s' % w)
        last = st.eq0(o1 + s1 - b.off)
        one_left = st.eq0(b.c - 1)
        off = ZERO if one_left else b.off - s1 if last else b.off
        sp.check(st, b.obj, b.D, b.c - 1, sp.shift(b, -1, 1), ('S02', 'S01'), 'pop', off=off)
        sp.ownership(st, objs, 'pop')
        return
    if op == 'reverse':
        ents = [(b.c + 1 - i, b.rid, p, s) for i, p, s in b.ents]
        sp.check(st, b.obj, b.D, b.c, ents, ('S02', 'S01'), 'reverse', off=b.off)
        return
    if op == 'clear':
        sp.check(st, b.obj, b.D, ZERO, [], ('S02',), 'clear', off=ZERO)
        sp.ownership(st, objs, 'clear')
        return
    if op == 'resize':
        if thrown:
            unchanged(sp, st, b, ('S03',), 'a resize that throws')
            if st.ge(n - b.off - b.c.scale(8)):
                rep(('S03',), 'resize refused', 'resize throws although everything fits into the new size')
            if not st.ge(n):
                rep(('S03',), 'resize refused', 'resize throws for a negative size')
            sp.ownership(st, objs, 'a resize that throws')
            return
        if not boolean(st, ret):
            unchanged(sp, st, b, ('S03',), 'a refused resize')
            if st.ge(n):
                rep(('S03',), 'resize refused', 'resize to a possible size is refused')
            return
        if not st.ge(n):
            rep(('S03',), 'resize accepted', 'resize to a negative size is accepted')
        if not st.ge(n - b.off - b.c.scale(8)):
            rep(('S03', 'S01'), 'resize accepted', 'resize loses data without throwing')
        sp.check(st, b.obj, n, b.c, sp.shift(b, 0), ('S03', 'S01'), 'resize', off=b.off)
        sp.ownership(st, objs, 'resize')
        return
    # two buffers
    P = ('S03',)
    if thrown:
        return
    if v2 == 'self':
        unchanged(sp, st, b, P, 'self ' + op)
        sp.ownership(st, objs, 'self ' + op)
        return
    if op == 'swap':
        sp.check(st, b.obj, o.D, o.c, sp.shift(o, 0), P, 'swap', off=o.off)
        sp.check(st, o.obj, b.D, b.c, sp.shift(b, 0), P, 'swap', off=b.off)
    elif op in ('copy_ctor', 'copy_assign'):
        sp.check(st, b.obj, o.D, o.c, sp.shift(o, 0), P, 'the copy', off=o.off)
        sp.check(st, o.obj, o.D, o.c, sp.shift(o, 0), P, 'being copied', off=o.off)
    else:
        sp.check(st, b.obj, o.D, o.c, sp.shift(o, 0), P, 'the move', off=o.off)
        sp.check(st, o.obj, ZERO, ZERO, [], P, 'being moved from')
    sp.ownership(st, objs, op)


def jobs(ctx):
    P = ctx['prog']['stackbuf']
    out = []
    for op in ('ctor', 'ctor_size') + SIMPLE + ('swap',):
        out.append(('StackBufferRaw ' + op, job(P, True, op)))
    for op in ('ctor', 'ctor_size', 'dtor') + SIMPLE + ('raw', 'swap', 'resize', 'copy_ctor', 'move_ctor', 'copy_assign', 'move_assign'):
        out.append(('StackBuffer ' + op, job(P, False, op)))
    return out


ASSUME = [
    'memcpy, memmove, std::reverse, std::swap and new[]/delete[] behave as the standard says; allocation of a representable size does not fail',
    'blocks passed by the caller are as large as stated and do not lie inside the buffer',
    'fewer than 2^28 blocks, capacities below 2^31',
]
EXPLAIN = {
    '*': 'Every operation is interpreted abstractly from every state satisfying the class invariant: capacity, block count, sizes, positions and byte contents are symbolic, '
         'the top block and one arbitrary other block are tracked. Memory is a write log over the unknown initial bytes, ranges are related by a polyhedron; '
         'every access is a bounds obligation and every final state must represent the contents demanded.',
}
RULES = {'*': 'bounds and lifetime of every access; class invariant and contents contract at the end of every abstract path; single ownership of storage'}
