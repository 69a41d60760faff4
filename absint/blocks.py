"""StableBlockVector, StableBlockDeque and BlockIterator: B01 - B07.

One arbitrary block K and one arbitrary place in it are tracked; every other
block is represented by one summary region about which nothing but its bounds is
known. K is, before the operation, at an arbitrary slot of the table, at an
arbitrary slot of the free list, or a block the operation allocates. Whatever is
shown of the tracked place holds for every element and every block.

Pointer tables are lists of slot ranges (later entries win) mapping to K, to the
summary ('O'), to null ('N') or to nothing initialised ('U')."""
from .poly import Lin, C, ZERO, fresh
from .engine import Engine, State, Ptr, NULL, UNDEF, Obj, Undecided, Stop, Throw, Ghost, Spec, view
from .models import ModelSpec, ALL, OpaqueClass, r_new, r_delete
from .rawmem import isptr

HARNESS = ['blocks']
NS = 'gmlc::containers::'
PT = 'Elem**'
VROLES = {'csize': (('csize',), 'size_t'), 'tab': (('dataptr',), PT), 'slots': (('dataSlotsAvailable',), 'int'), 'b': (('dataSlotIndex',), 'int'),
          'bsize': (('bsize',), 'int'), 'fslots': (('freeSlotsAvailable',), 'int'), 'fidx': (('freeIndex',), 'int'), 'ftab': (('freeblocks',), PT)}
DROLES = {'csize': (('csize',), 'size_t'), 'tab': (('dataptr',), PT), 'slots': (('dataSlotsAvailable',), 'int'), 'b': (('dataSlotBack',), 'int'),
          'f': (('dataSlotFront',), 'int'), 'bsize': (('bsize',), 'int'), 'fsize': (('fsize',), 'int'),
          'fslots': (('freeSlotsAvailable',), 'int'), 'fidx': (('freeIndex',), 'int'), 'ftab': (('freeblocks',), PT)}
BIG = 1 << 26
RAWMEM = Obj('Elem', 'raw', 'dead')


def find_roles(types, cls, table):
    """role -> (offset, size): members by name, else by order of declaration"""
    t = types.get(cls)
    if t is None:
        raise KeyError('class %s vanished' % cls)
    out = {}
    used = set()
    for role, (names, ty) in table.items():
        for m in t['mem']:
            if m['n'] in names and m['o'] not in used:
                out[role] = (m['o'], ty)
                used.add(m['o'])
    guess = False
    for role, (names, ty) in table.items():
        if role in out:
            continue
        rest = [m for m in t['mem'] if m['o'] not in used and (m['ty'] == ty or ty == PT and isptr(m['ty']) or ty == 'size_t' and m['ty'] in ('unsigned long', 'std::size_t'))]
        if not rest:
            raise Undecided('member %s of %s not found' % (role, cls))
        m = rest[0]
        out[role] = (m['o'], ty)
        used.add(m['o'])
        if len(rest) > 1:
            guess = True
    return out, t['size'], guess


class BGhost(Ghost):
    def __init__(self):
        self.nothrow = True
        self.newk = None    # the tracked new block
        self.picked = True
        self.threw = False
        self.keep = ()      # objects that exist whatever refers to them
        self.other = None
        self.wild = None    # what an unused slot may point to
        self.size = {}      # sizes before the operation
        self.idx = {}       # index of the tracked places before the operation
        self.args = ()      # arguments


class Cont:
    """initial (or final) reading of a container"""

    def __init__(self):
        self.obj = 0
        self.null = False
        self.f = {}
        self.k = 0          # tracked block of this container
        self.kslot = None   # slot of K in the table
        self.kfree = None   # slot of K in the free list
        self.idx = None     # index of the tracked place


class BSpec(ModelSpec, Spec):
    pure_end = True

    def __init__(self, prog, cont, n, op):
        self.prog = prog
        self.cont = cont
        self.n = n
        self.S = 1 << n
        self.op = op
        self.classes = {'Elem': OpaqueClass('Elem', 8)}
        cls = NS + ('StableBlockVector' if cont == 'v' else 'StableBlockDeque') + '<Elem, %dU, std::allocator<Elem> >' % n
        self.roles, self.osize, guess = find_roles(prog.types, cls, VROLES if cont == 'v' else DROLES)
        self.guess = guess
        self.main = op_props(cont, op)

    def models(self):
        return [self.m_blocks] + ALL

    # --- reports
    def rep(self, st, props, rule, msg):
        for p in props:
            self.eng.report(st, p, rule, msg)

    def value_of(self, st, cls, args):
        return 'val'

    def memerr(self, st, kind, msg):
        props = ['B04'] + [p for p in self.main if p != 'B04']
        if st.ghost.threw:
            props.append('B07')
        self.rep(st, props, 'memory ' + kind, msg)

    # --- memory
    def m_blocks(self, e, fn):
        s = fn['sym']
        if s in ('_Znam', '_Znwm'):
            return self.r_new
        if s in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm'):
            return self.r_delete
        return None

    def r_new(self, e, st, fn, a, ins):
        if not isinstance(a[0], Lin):
            raise Undecided('allocation size')
        n = view(st, a[0], 64, False)
        if not st.ge(C(1 << 40) - n, 'the allocation size is representable'):
            raise Throw('bad_array_new_length')
        n = st.poly.norm(n)
        if fn['sym'] == '_Znwm' and not n.t and n.c <= 8 * self.S:
            # a block
            g = st.ghost
            if not g.picked and st.choose('the block allocated is the tracked one', 2, ['no', 'yes']):
                r = st.new_region('heap', n, 'the tracked block')
                self.blk(r, g.to, RAWMEM)
                g.newk = Ptr(r.rid)
                g.picked = True
                return Ptr(r.rid)
            o = self.other(st)
            if n.c < 8 * self.S:
                self.memerr(st, 'size', 'a block of %d bytes is allocated for %d elements' % (n.c, self.S))
                raise Stop()
            return Ptr(o)
        r = st.new_region('heap', n, 'table')
        if n.c % 8 or any(k % 8 for _, k in n.t):
            raise Undecided('size of a table')
        r.meta['unit'] = 8
        r.meta['tab'] = True
        r.data = ()
        return Ptr(r.rid)

    def other(self, st):
        return st.ghost.other.r

    def blk(self, r, to, obj, n=1):
        r.meta['blk'] = to
        r.data = obj

    def r_delete(self, e, st, fn, a, ins):
        p = a[0]
        if p is UNDEF:
            self.memerr(st, 'undef', 'release through an uninitialised pointer')
            raise Stop()
        if isinstance(p, Ptr) and p.r == st.ghost.other.r:
            if not st.eq0(p.o):
                self.memerr(st, 'free', 'release of an address inside a block')
                raise Stop()
            return None
        if isinstance(p, Ptr) and p.r and len(a) > 1 and isinstance(a[1], Lin) and p.r in st.regions and st.regions[p.r].alive:
            if not st.eq0(st.regions[p.r].size - a[1]):
                self.memerr(st, 'free', 'a block is returned with another size than it was allocated with')
        return r_delete(e, st, fn, a, ins)

    def slot(self, off):
        if off.c % 8 or any(k % 8 for _, k in off.t):
            raise Undecided('table address %r' % off)
        return Lin(off.c // 8, tuple((s, k // 8) for s, k in off.t))

    def on_load(self, st, r, off, size, t):
        if 'tab' in r.meta:
            if size != 8 or t != 'ptr':
                raise Undecided('table read as ' + t)
            s = self.slot(off)
            v = self.tread(st, r.data, s)
            if v == 'U' and self.op in ITP + ITB:
                # the slot behind the last block: whatever it holds must not matter
                v = 'W' if st.choose('content of the slot behind the last block', 2, ['null', 'anything']) else 'N'
                w = st.w(r.rid)
                w.data = self.twrite(st, w.data, s, v)
            return self.tval(st, v)
        if 'oth' in r.meta:
            return Obj('Elem', fresh('any'), 'any') if t == 'Elem' else st.sym('payload')
        if 'blk' in r.meta:
            if t != 'Elem':
                raise Undecided('element bytes')
            if st.eq0(off - r.meta['blk'].scale(8)):
                return r.data
            return Obj('Elem', fresh('any'), 'any')
        if r.kind == 'global' and r.init == 'opaque' and t == 'ptr':
            i = self.prog.globals.get(r.name, {}).get('init')
            if i == ['n'] and not r.cells:
                return NULL
        return None

    def on_store(self, st, r, off, size, v):
        if 'tab' in r.meta:
            if size != 8:
                raise Undecided('table write')
            w = st.w(r.rid)
            w.data = self.twrite(st, w.data, self.slot(off), self.abst(st, v))
            return True
        if 'oth' in r.meta:
            return True
        if 'blk' in r.meta:
            if not isinstance(v, Obj):
                raise Undecided('element bytes')
            if st.eq0(off - r.meta['blk'].scale(8)):
                w = st.w(r.rid)
                w.data = v
            return True
        return False

    def abst(self, st, v):
        if v is UNDEF:
            return 'U'
        if isinstance(v, Ptr):
            if v.r == 0:
                return 'N'
            if v.r == st.ghost.other.r:
                if not st.eq0(v.o):
                    raise Undecided('pointer into a block in a table')
                return 'O'
            r = st.regions.get(v.r)
            if r is not None and 'blk' in r.meta:
                if not st.eq0(v.o):
                    raise Undecided('pointer into a block in a table')
                return Ptr(v.r)
        raise Undecided('table entry %r' % (v,))

    def tval(self, st, v):
        if v == 'U':
            return UNDEF
        if v == 'N':
            return NULL
        if v == 'O':
            return st.ghost.other
        if v == 'W':
            return st.ghost.wild
        return v

    # --- tables
    def tread(self, st, data, s):
        for lo, hi, v in reversed(data):
            if inside(st, s, lo, hi):
                return v
        return 'U'

    def twrite(self, st, data, s, v):
        p = st.poly
        s = p.norm(s)
        out = [x for x in data if not (p.entails_ge(x[0] - s) and p.entails_ge(s + 1 - x[1]))]
        return self.tadd(st, out, s, s + 1, v)

    def tadd(self, st, out, lo, hi, v):
        """append an entry, merging it with a neighbour when nothing lies between"""
        p = st.poly
        out = list(out)
        if isinstance(v, str):
            for i in range(len(out) - 1, -1, -1):
                a, b, w = out[i]
                if w == v:
                    if p.entails_ge(lo - a) and p.entails_ge(b - hi):
                        return tuple(out)
                    up = p.entails_ge(lo - a) and p.entails_ge(b - lo)
                    dn = p.entails_ge(hi - a) and p.entails_ge(b - hi)
                    if up or dn:
                        nl, nh = (a, p.norm(hi)) if up else (p.norm(lo), b)
                        if up and not p.entails_ge(hi - b):
                            pass
                        elif dn and not p.entails_ge(a - lo):
                            pass
                        else:
                            out[i] = (nl, nh, v)
                            return tuple(out)
                # may later entries win where the new one is written?
                if not (p.entails_ge(lo - b) or p.entails_ge(a - hi)):
                    break
        out.append((p.norm(lo), p.norm(hi), v))
        return tuple(out)

    def on_fill(self, st, ptr, c, n):
        if not isinstance(ptr, Ptr) or ptr.r not in st.regions or 'tab' not in st.regions[ptr.r].meta:
            return False
        if st.ge(-n):
            return True
        r, off = self.eng.access(st, ptr, n, 'write')
        if not (isinstance(c, Lin) and not c.t and c.c == 0):
            raise Undecided('fill of a table')
        w = st.w(r.rid)
        a = self.slot(off)
        w.data = self.tadd(st, w.data, a, a + self.slot(n), 'N')
        return True

    def on_copy(self, st, dst, src, n):
        if not isinstance(dst, Ptr) or not isinstance(src, Ptr):
            return False
        d = st.regions.get(dst.r)
        s = st.regions.get(src.r)
        if not any(x is not None and 'tab' in x.meta for x in (d, s)):
            for x in (d, s):
                if x is not None and ('blk' in x.meta or 'oth' in x.meta):
                    raise Undecided('bytewise copy of elements')
            return False
        if st.ge(-n, 'nothing to copy'):
            return True
        s, so = self.eng.access(st, src, n, 'read')
        d, do = self.eng.access(st, dst, n, 'write')
        if 'tab' not in s.meta or 'tab' not in d.meta:
            raise Undecided('copy between a table and an object')
        m = self.slot(n)
        a = self.slot(so)
        b = self.slot(do)
        add = []
        sh = b - a
        for lo, hi, v in s.data:
            if st.ge(lo - a - m) or st.ge(a - hi):
                continue
            l = lo if st.ge(lo - a) else a
            h = hi if st.ge(a + m - hi) else a + m
            if st.ge(h - l - 1):
                add.append((l + sh, h + sh, v))
        w = st.w(d.rid)
        out = w.data
        # the part of the target range nothing known is copied to
        full = len(add) and st.poly.entails_ge(b - add[0][0]) and st.poly.entails_ge(add[0][1] - b - m)
        if out and not full:
            out = self.tadd(st, out, b, b + m, 'U')
        for l, h, v in add:
            out = self.tadd(st, out, l, h, v)
        w.data = out
        return True

    # --- objects
    def field(self, st, obj, role):
        if role not in self.roles:
            return {'f': ZERO, 'fsize': C(-1)}[role]
        o, ty = self.roles[role]
        if ty == PT:
            return self.eng.load(st, Ptr(obj, C(o)), 8, 'ptr')
        v = self.eng.load(st, Ptr(obj, C(o)), 8 if ty == 'size_t' else 4, 'i64' if ty == 'size_t' else 'i32')
        if isinstance(v, Lin):
            v = view(st, v, 64 if ty == 'size_t' else 32, ty != 'size_t')
        return v

    def put(self, st, obj, role, v):
        if role in self.roles:
            o, ty = self.roles[role]
            self.eng.put(st, obj, C(o), 8 if ty in (PT, 'size_t') else 4, v)

    def make_other(self, st):
        r = st.new_region('heap', 8 * self.S, 'a block')
        r.meta['oth'] = True
        r.data = ()
        st.ghost.other = Ptr(r.rid)
        r = st.new_region('heap', 8 * self.S, 'whatever an unused slot refers to')
        r.alive = False
        st.ghost.wild = Ptr(r.rid)

    def table(self, st, name, slots):
        r = st.new_region('heap', slots.scale(8), name)
        r.meta['unit'] = 8
        r.meta['tab'] = True
        r.data = ()
        return r

    def make(self, st, shape, name, elem, to):
        """container of a shape: 'uninit', ('null', fields) or (free list, where K is)"""
        c = Cont()
        r = st.new_region('obj', self.osize, name)
        c.obj = r.rid
        if shape == 'uninit':
            c.null = True
            return c
        S = self.S
        F = c.f
        if shape[0] == 'null':
            c.null = True
            F.update(dict(shape[1]))
            for k in ('csize', 'slots', 'b', 'f', 'bsize', 'fsize', 'fslots', 'fidx'):
                F[k] = C(F[k])
            F['tab'] = F['ftab'] = NULL
            for k in F:
                self.put(st, c.obj, k, F[k])
            return c
        free, where = shape[1], shape[2]
        m = shape[3] if len(shape) > 3 else None    # explicit number of blocks
        F['slots'] = st.sym('slots', 64, BIG)
        F['bsize'] = st.sym('bsize', 0, S)
        if m is None:
            F['b'] = st.sym('back', 0)
        elif self.cont == 'd':
            F['f'] = st.sym('front', 0)
            F['b'] = F['f'] + (m - 1)
        else:
            F['b'] = C(m - 1)
        st.assume(F['slots'] - 2 - F['b'])
        if self.cont == 'd':
            if m is None:
                F['f'] = st.sym('front', 0)
                st.assume(F['b'] - F['f'])
            F['fsize'] = st.sym('fsize', -1, S - 1)
        else:
            F['f'] = ZERO
            F['fsize'] = C(-1)
        F['csize'] = (F['b'] - F['f']).scale(S) + F['bsize'] - F['fsize'] - 1
        st.assume(F['csize'])
        t = self.table(st, 'the block table', F['slots'])
        F['tab'] = Ptr(t.rid)
        t.data = ((F['f'], F['b'] + 1, 'O'),)
        if free == 'nofree':
            F['fslots'] = F['fidx'] = ZERO
            F['ftab'] = NULL
        else:
            F['fslots'] = st.sym('freeslots', 64, BIG)
            if free in ('full', 'full1'):
                F['fidx'] = F['fslots'] - (free == 'full1')
            elif isinstance(free, int):
                F['fidx'] = C(free)
            else:
                F['fidx'] = st.sym('freeidx', 0)
                st.assume(F['fslots'] - F['fidx'] - (8 if free == 'room' else 0))
            ft = self.table(st, 'the free list', F['fslots'])
            F['ftab'] = Ptr(ft.rid)
            ft.data = ((ZERO, F['fidx'], 'O'),)
        if where in ('tab', 'free'):
            k = st.new_region('heap', 8 * S, 'the tracked block')
            c.k = k.rid
            if where == 'tab':
                s = st.sym('kslot')
                st.assume(s - F['f'], F['b'] - s)
                c.kslot = s
                t.data = t.data + ((s, s + 1, Ptr(k.rid)),)
                c.idx = (s - F['f']).scale(S) + to - F['fsize'] - 1
                self.blk(k, to, None)
            else:
                s = st.sym('kfree')
                st.assume(s, F['fidx'] - 1 - s)
                c.kfree = s
                ft.data = ft.data + ((s, s + 1, Ptr(k.rid)),)
                self.blk(k, to, RAWMEM)
            if where == 'tab':
                k.data = ('live?', elem)
        for k in F:
            self.put(st, c.obj, k, F[k])
        return c

    def register(self, st, c, role):
        c.role = role
        g = st.ghost
        g.keep = g.keep + (Ptr(c.obj),) + ((Ptr(c.k),) if c.k else ())
        g.size = dict(g.size)
        g.size[role] = c.f.get('csize', ZERO)
        if c.idx is not None:
            g.idx = dict(g.idx)
            g.idx[role] = c.idx
        return c

    def liveness(self, st, c, elem):
        """decide whether the tracked place holds an element; list of states"""
        if not c.k or c.kslot is None:
            return [st]
        out = []
        for live in (True, False):
            for side in ((0, 1) if not live else (0,)):
                s = st.clone()
                if live:
                    s.assume(c.idx, c.f['csize'] - 1 - c.idx)
                elif side == 0:
                    s.assume(-c.idx - 1)
                else:
                    s.assume(c.idx - c.f['csize'])
                if s.poly.bad or not s.poly.sat():
                    continue
                s.w(c.k).data = Obj('Elem', elem, 'live') if live else RAWMEM
                out.append(s)
        return out

    # --- reading final states
    def read(self, st, obj, what):
        c = Cont()
        c.obj = obj
        for k in ('csize', 'tab', 'slots', 'b', 'f', 'bsize', 'fsize', 'fslots', 'fidx', 'ftab'):
            v = self.field(st, obj, k)
            if v is UNDEF:
                self.rep(st, self.main, 'uninitialised', 'after %s the member %s is indeterminate' % (what, k))
                raise Stop()
            c.f[k] = v
        if not isinstance(c.f['tab'], Ptr) or not isinstance(c.f['ftab'], Ptr):
            raise Undecided('table pointer')
        c.null = c.f['tab'].r == 0
        return c

    def find(self, st, data, k, lo, hi):
        """slots of [lo,hi) that hold K"""
        out = []
        for i, (a, b, v) in enumerate(data):
            if not (isinstance(v, Ptr) and v.r == k):
                continue
            if not st.poly.entails_eq(b - a - 1):
                raise Undecided('several slots with one block')
            if not (st.ge(a - lo) and st.ge(hi - 1 - a)):
                continue
            if any(inside(st, a, x, y) for x, y, _ in data[i + 1:]):
                continue
            out.append(a)
        return out


def inside(st, s, lo, hi):
    if st.poly.entails_eq(hi - lo - 1):
        return st.eq0(s - lo)
    return st.ge(s - lo) and st.ge(hi - 1 - s)


def op_props(cont, op):
    if op.startswith(('it_', 'cit_', 'beg_', 'eq', 'ne', 'ceq', 'inc_', 'dec_', 'end_', 'mix_')):
        return ['B05', 'B01' if cont == 'v' else 'B02']
    if op.startswith(('copy', 'move')):
        return ['B06']
    if op == 'dtor':
        return ['B04']
    return ['B01' if cont == 'v' else 'B02']


# --- what each operation has to do ---------------------------------------------
class Want:
    """expected final container: size and the identity of every element"""

    def __init__(self, size, ident):
        self.size = size
        self.ident = ident


def old(c0, st, j, k, elem):
    """identity of the element with initial index j of container c0, when it is
    looked for in block k; None when it can not be there"""
    if k == c0.k and c0.kslot is not None and st.eq0(st.ghost.idx[c0.role] - j):
        return elem
    return None


def check(sp, st, what, finals, ks, props, stable):
    """finals: [(object, name, Want or None)]; ks: tracked blocks;
    stable: an element out of place counts as relocated"""
    g = st.ghost
    e = sp.eng
    rep = lambda pr, rule, msg: sp.rep(st, list(dict.fromkeys(list(pr) + (['B07'] if g.threw else []))), rule, msg)
    m4 = ['B04'] + (['B06'] if 'B06' in props else [])
    cs = []
    used = []
    for obj, name, want in finals:
        c = sp.read(st, obj, what)
        cs.append((c, name, want))
        F = c.f
        if want is not None and not st.eq0(F['csize'] - want.size):
            rep(props, 'size', 'after %s %s has size %r instead of %r' % (what, name, st.poly.norm(F['csize']), st.poly.norm(want.size)))
        for role in ('tab', 'ftab'):
            p = F[role]
            if p.r == 0:
                continue
            r = st.regions.get(p.r)
            if r is None or not r.alive:
                rep(m4, 'dangling', 'after %s the %s of %s is a released one' % (what, 'block table' if role == 'tab' else 'free list', name))
                raise Stop()
            if 'tab' not in r.meta or not st.eq0(p.o):
                raise Undecided('table of another kind')
            if p.r in used:
                rep(['B04'] + list(props), 'shared', 'after %s two containers use the same table' % what)
                raise Stop()
            used.append(p.r)
            n = F['slots' if role == 'tab' else 'fslots']
            if not st.ge(r.size - n.scale(8)):
                rep(m4, 'capacity', 'after %s %s records %r slots in a table of %r bytes' % (what, name, n, r.size))
                raise Stop()
        if F['ftab'].r == 0 and not (st.eq0(F['fidx']) and st.eq0(F['fslots'])):
            rep(m4, 'layout', 'after %s %s has a free list that does not exist' % (what, name))
            raise Stop()
        if c.null:
            if not st.eq0(F['csize']):
                rep(['B04'] + list(props), 'layout', 'after %s %s has no table but is not empty' % (what, name))
                raise Stop()
            if F['ftab'].r:
                raise Undecided('free list without table')
            val = nullval(st, c)
            if val is None or val not in sp.nulls:
                if sp.found is not None:
                    sp.found.append(nullmodel(st, c))
                else:
                    raise Undecided('empty state of an unknown kind')
            continue
        if not (st.ge(F['fidx']) and st.ge(F['fslots'] - F['fidx'])):
            rep(m4, 'layout', 'after %s the number of free blocks of %s is out of range' % (what, name))
            raise Stop()
        ok = st.ge(F['f']) and st.ge(F['b'] - F['f']) and st.ge(F['bsize']) and st.ge(sp.S - F['bsize']) and st.ge(F['fsize'] + 1) and st.ge(sp.S - 1 - F['fsize'])
        if not ok or not st.eq0(F['csize'] - (F['b'] - F['f']).scale(sp.S) - F['bsize'] + F['fsize'] + 1):
            rep(['B04'] + list(props), 'layout', 'after %s the positions in %s do not match its size' % (what, name))
            raise Stop()
        if not st.ge(F['slots'] - 2 - F['b']):
            rep(['B04'] + list(props), 'layout', 'after %s the slot behind the last block of %s lies outside its table' % (what, name))
            raise Stop()
        if not st.ge(F['slots'] - 64) or F['ftab'].r and not st.ge(F['fslots'] - 64):
            raise Undecided('small table')
        # an arbitrary used slot holds a block
        pr = st.objs.get(('probe', obj))
        if pr is None:
            pr = st.objs[('probe', obj)] = st.sym('probe')
            st.assume(pr - F['f'], F['b'] - pr)
        v = sp.tread(st, st.regions[F['tab'].r].data, pr)
        if v in ('U', 'N', 'W'):
            rep(['B04'] + list(props), 'block missing', 'after %s a slot in use of %s holds no block' % (what, name))
            raise Stop()
        if F['ftab'].r and st.ge(F['fidx'] - 1):
            fp = st.objs.get(('fprobe', obj))
            if fp is None:
                fp = st.objs[('fprobe', obj)] = st.sym('fprobe')
                st.assume(fp, F['fidx'] - 1 - fp)
            v = sp.tread(st, st.regions[F['ftab'].r].data, fp)
            if v in ('U', 'N', 'W'):
                rep(m4, 'block missing', 'after %s an entry of the free list of %s is no block' % (what, name))
                raise Stop()
    for rid, r in sorted(st.regions.items()):
        if 'tab' in r.meta and r.alive and rid not in used:
            rep(['B04'], 'leak', 'after %s a table is never released' % what)
    for k in ks:
        if not k:
            continue
        r = st.regions[k]
        spots = []
        for c, name, want in cs:
            F = c.f
            if F['tab'].r and not c.null:
                for s in sp.find(st, st.regions[F['tab'].r].data, k, F['f'], F['b'] + 1):
                    spots.append(('tab', c, name, want, s))
            if F['ftab'].r:
                for s in sp.find(st, st.regions[F['ftab'].r].data, k, ZERO, F['fidx']):
                    spots.append(('free', c, name, want, s))
        o = r.data
        if not r.alive:
            if spots:
                rep(['B04'] + list(props), 'dangling', 'after %s a released block is still in %s' % (what, 'use' if spots[0][0] == 'tab' else 'a free list'))
                raise Stop()
            if o.st != 'dead':
                rep(['B04'], 'element leak', 'after %s an element of a released block was never destroyed' % what)
            continue
        if not spots:
            rep(['B04'], 'leak', 'after %s a block is lost' % what)
            continue
        if len(spots) > 1:
            rep(['B04'] + list(props), 'shared', 'after %s a block is held in two places' % what)
            raise Stop()
        kind, c, name, want, s = spots[0]
        if not st.ge(r.size - 8 * sp.S):
            rep(m4, 'capacity', 'after %s %s holds a block of %r bytes' % (what, name, r.size))
        if kind == 'free':
            if o.st != 'dead':
                rep(['B04'] + list(props), 'element leak', 'after %s an element of an unused block was never destroyed' % what)
            continue
        F = c.f
        i = st.poly.norm((s - F['f']).scale(sp.S) + r.meta['blk'] - F['fsize'] - 1)
        if st.ge(i) and st.ge(F['csize'] - 1 - i):
            if o.st == 'dead':
                rep(['B04'] + list(props), 'element missing', 'after %s the element with index %r of %s is not constructed' % (what, i, name))
                continue
            if o.st == 'any' or want is None:
                continue
            w = want.ident(st, i, k)
            if w is None:
                rep(list(props) + (['B03'] if stable else []), 'element', 'after %s the element with index %r of %s is not where it was' % (what, i, name))
            elif w != '*' and (o.id != w or o.st != 'live'):
                rep(list(props) + (['B03'] if stable else []), 'element', 'after %s the element with index %r of %s has another value%s' % (what, i, name, ' (moved from)' if o.st == 'moved' else ''))
        elif o.st != 'dead':
            rep(['B04'] + list(props), 'element leak', 'after %s a live element lies outside %s' % (what, name))


VALF = ('csize', 'slots', 'b', 'f', 'bsize', 'fsize', 'fslots', 'fidx')


def nullval(st, c):
    out = []
    for k in VALF:
        v = st.poly.norm(c.f[k])
        if v.t:
            return None
        out.append((k, v.c))
    return tuple(out)


def nullmodel(st, c):
    m = st.poly.model()
    if m is None or st.inexact:
        return None
    return tuple((k, st.poly.value(m, c.f[k])) for k in VALF)


def val_obj(st, ident):
    r = st.new_region('user', 8, "the caller's element")
    r.cells[ZERO] = (8, Obj('Elem', ident, 'live'))
    return r.rid


READ1 = ('index', 'cindex', 'at', 'cat', 'front', 'cfront', 'back', 'cback')
READ0 = ('size', 'empty')
PUSH = ('push_back_c', 'push_back_m', 'emplace_back', 'push_front_c', 'push_front_m', 'emplace_front')
ITP = ('it_add', 'cit_add', 'it_sub', 'it_inc', 'it_dec', 'it_incp', 'it_incp2', 'it_decp', 'it_decp2', 'it_end_sub', 'it_end_dec', 'it_arrow',
       'it_begin', 'cit_begin', 'cit_cbegin', 'cit_inc', 'cit_end_sub')
ITB = ('eq', 'ne', 'eq_end', 'ceq_end', 'ceq_cend', 'inc_end', 'inc_eq', 'dec_eq', 'end_eq', 'mix_eq', 'mix_ne', 'mix_end', 'mix_cend',
       'beg_end', 'beg_cend', 'beg_mix', 'beg_mixe')


class Run:
    """one operation from one entry state"""

    def __init__(self, P, cont, n, nulls, eng, r, found=None):
        self.P = P
        self.cont = cont
        self.n = n
        self.nulls = nulls
        self.r = r
        self.engs = eng
        self.found = found
        self.done = 0
        self.small = False
        self.moved = ()
        self.name = 'StableBlock%s<%d>' % ('Vector' if cont == 'v' else 'Deque', 1 << n)

    def spec(self, op):
        sp = BSpec(self.P, self.cont, self.n, op)
        sp.nulls = self.nulls
        sp.found = self.found
        e = Engine(self.P, sp)
        e.models = sp.models()
        e.widen_from = sp.S + 3
        e.max_visits = sp.S + 14
        e.bounds = (8 * BIG,)
        if self.small:
            e.widen_from = e.max_visits = 100000
        self.engs.append(e)
        return sp, e

    def state(self, sp):
        st = State()
        st.ghost = g = BGhost()
        g.to = st.sym('to', 0, sp.S - 1)
        sp.make_other(st)
        return st

    def go(self, sp, e, st, op, args, label, end):
        def fin(x):
            end(x)
            self.done += 1
        e.call_entry(st, 'vp_%s%d_%s' % (self.cont, self.n, op), args)
        e.run('%s %s (%s)' % (self.name, op, label), st, fin)

    # ---
    def simple(self, op, shape):
        """operations on one container"""
        self.small = op == 'ctor_n' or len(shape) > 3 and isinstance(shape, tuple) or shape[0] == 'null'
        sp, e = self.spec(op)
        self.reuse(sp, shape)
        st0 = self.state(sp)
        g = st0.ghost
        S = sp.S
        c = sp.register(st0, sp.make(st0, shape, 'the container', 'old', g.to), 'c')
        if op in PUSH:
            g.nothrow = False
        if shape == 'uninit' or shape[0] != 'null' and shape[2] == 'new' or shape[0] == 'null':
            g.picked = False
        for st in sp.liveness(st0, c, 'old'):
            lab = shape_name(shape)
            args = [Ptr(c.obj)]
            variants = [None]
            if op in PUSH and op.endswith('_c') and c.kslot is not None:
                variants = [None, 'alias']
            for var in variants:
                s = st.clone()
                a = list(args)
                val = None
                if op in PUSH:
                    if op.startswith('emplace'):
                        a.append(s.sym('v', -100, 100))
                    elif var == 'alias':
                        if s.regions[c.k].data.st != 'live':
                            continue
                        a.append(Ptr(c.k, g.to.scale(8)))
                        val = 'alias'
                    else:
                        v = val_obj(s, 'val')
                        a.append(Ptr(v))
                        val = v
                n = None
                if op == 'ctor_n':
                    n = s.sym('n', 0, 2 * S + 1 if self.small else BIG)
                    v = val_obj(s, 'val')
                    a += [n, Ptr(v)]
                    val = v
                if op in ('assign', 'massign'):
                    n = s.sym('n', 0, min(2 * S + 1, S + (1 if self.cont == 'd' else 2)) if self.small else BIG)
                    src = s.new_region('user', n.scale(8), "the caller's elements")
                    src.meta['unit'] = 8
                    at = s.sym('from', 0)
                    s.assume(n - 1 - at)
                    # the caller's elements: one is tracked
                    sp.blk(src, at, Obj('Elem', 'src', 'live'))
                    s.ghost.keep += (Ptr(src.rid),)
                    s.ghost.args = (n,)
                    self.run_simple(sp, e, s, op, a + [Ptr(src.rid), Ptr(src.rid, n.scale(8))], lab, c, val, src.rid)
                    continue
                if n is not None:
                    s.ghost.args = (n,)
                if isinstance(val, int):
                    s.ghost.keep += (Ptr(val),)
                self.run_simple(sp, e, s, op, a, lab + (', ' + var if var else ''), c, val, None)

    def run_simple(self, sp, e, st, op, a, lab, c, val, src):
        props = sp.main

        def end(x):
            g = x.ghost
            ks = [k for k in (c.k, g.newk and g.newk.r) if k]
            n = g.args[0] if g.args else None
            thrown = x.exc is not None
            if thrown and op in PUSH and x.exc == 'user':
                g.threw = True
            elif thrown and op not in PUSH and op not in ('at', 'cat'):
                sp.rep(x, props, 'exception', '%s throws' % op)
                return
            elif thrown and op in PUSH:
                sp.rep(x, props, 'exception', '%s throws' % op)
                return
            size = g.size['c']
            same = Want(size, lambda s, i, k: old(c, s, i, k, 'old'))
            if op == 'dtor':
                return check(sp, x, 'destruction', [], ks, ['B04'], False)
            if op == 'ctor':
                return check(sp, x, 'construction', [(c.obj, 'the container', Want(ZERO, None))], ks, props, False)
            if op == 'ctor_n':
                return check(sp, x, 'construction', [(c.obj, 'the container', Want(n, lambda s, i, k: 'val'))], ks, props, False)
            if g.threw:
                return check(sp, x, '%s that throws' % op, [(c.obj, 'the container', same)], ks, ['B07'], True)
            if op in PUSH:
                front = 'front' in op

                def ident(s, i, k):
                    if front:
                        if s.eq0(i):
                            return 'old' if val == 'alias' else 'val'
                        return old(c, s, i - 1, k, 'old')
                    if s.eq0(i - size):
                        return 'old' if val == 'alias' else 'val'
                    return old(c, s, i, k, 'old')
                check(sp, x, op, [(c.obj, 'the container', Want(size + 1, ident))], ks, props, True)
                if isinstance(val, int) and op.endswith('_c'):
                    o = x.regions[val].cells[ZERO][1]
                    if o.st != 'live' or o.id != 'val':
                        sp.rep(x, props, 'argument', '%s changes its argument' % op)
                return
            if op in ('pop_back', 'pop_front'):
                if not x.ge(size - 1):
                    return check(sp, x, op + ' of an empty container', [(c.obj, 'the container', same)], ks, props, True)
                d = 1 if op == 'pop_front' else 0
                w = Want(size - 1, lambda s, i, k: old(c, s, i + d, k, 'old'))
                return check(sp, x, op, [(c.obj, 'the container', w)], ks, props, True)
            if op == 'clear':
                return check(sp, x, op, [(c.obj, 'the container', Want(ZERO, None))], ks, props, False)
            if op == 'shrink':
                return check(sp, x, 'shrink_to_fit', [(c.obj, 'the container', same)], ks, props, True)
            if op in ('assign', 'massign'):
                def ident(s, i, k):
                    return 'src' if s.eq0(i - s.regions[src].meta['blk']) else '*'
                check(sp, x, op, [(c.obj, 'the container', Want(n, ident))], ks, props, False)
                o = x.regions[src].data
                if op == 'assign' and (o.st != 'live' or o.id != 'src'):
                    sp.rep(x, props, 'argument', 'assign changes its source')
                return
            raise KeyError(op)
        self.go(sp, e, st, op, a, lab, end)

    def reuse(self, sp, shape):
        """operations on a container moved from belong to B06 as well"""
        if shape[0] == 'null' and shape[1] in self.moved and 'B06' not in sp.main:
            sp.main = list(sp.main) + ['B06']

    def reads(self, op, shape):
        sp, e = self.spec(op)
        self.reuse(sp, shape)
        st0 = self.state(sp)
        g = st0.ghost
        c = sp.register(st0, sp.make(st0, shape, 'the container', 'old', g.to), 'c')
        null = shape[0] == 'null'
        props = sp.main
        S = sp.S
        for st in sp.liveness(st0, c, 'old'):
            F = c.f
            size = F['csize']
            a = [Ptr(c.obj)]
            live = c.k and st.regions[c.k].data.st == 'live'
            want = None          # 'K', 'throw', Lin or bool
            lab = shape_name(shape)
            at = None
            if op in ('size', 'empty'):
                want = size
            elif op in READ1:
                if op in ('front', 'cfront', 'back', 'cback'):
                    if not live:
                        continue
                    st.assume(c.idx - (ZERO if 'front' in op else size - 1), (ZERO if 'front' in op else size - 1) - c.idx)
                    want = 'K'
                else:
                    i = st.sym('n', 0, BIG * 4)
                    a.append(i)
                    if live:
                        st.assume(c.idx - i, i - c.idx)
                        want = 'K'
                    elif op in ('at', 'cat'):
                        st.assume(i - size)
                        want = 'throw'
                    else:
                        continue
            elif op in ITP:
                if not live:
                    continue
                want = 'K'
                i = c.idx
                # start from an arbitrary position 0..size
                k = st.sym('k', 0)
                st.assume(size - k)
                if op in ('it_add', 'cit_add'):
                    d = i - k
                    a += [k, d]
                elif op == 'it_sub':
                    d = k - i
                    a += [k, d]
                elif op in ('it_begin', 'cit_begin', 'cit_cbegin'):
                    st.assume(i.scale(-1))
                elif op in ('it_inc', 'it_incp2', 'cit_inc'):
                    st.assume(i - k - 1, k + 1 - i)
                    a.append(k)
                elif op in ('it_dec', 'it_decp2'):
                    st.assume(i - k + 1, k - 1 - i)
                    a.append(k)
                elif op in ('it_incp', 'it_decp', 'it_arrow'):
                    st.assume(i - k, k - i)
                    if op == 'it_decp':
                        st.assume(k - 1)
                    a.append(k)
                elif op in ('it_end_sub', 'cit_end_sub'):
                    a.append(size - i)
                elif op == 'it_end_dec':
                    st.assume(i - size + 1, size - 1 - i)
            elif op in ITB:
                if c.k and not live:
                    continue
                want = 'bool'
                i = ZERO
                if not op.startswith('beg_'):
                    i = st.sym('i', 0)
                    st.assume(size - i)
                    a.append(i)
                if op in ('inc_end', 'inc_eq', 'dec_eq'):
                    st.assume(size - i - 1)
                if op in ('eq', 'ne', 'mix_eq', 'mix_ne', 'end_eq'):
                    j = st.sym('j', 0)
                    st.assume(size - j)
                    a.append(j)
            if st.poly.bad or not st.poly.sat():
                continue

            def end(x, want=want, a=a, size=size):
                if x.exc is not None:
                    if want != 'throw':
                        sp.rep(x, props, 'exception', '%s throws for an index below the size' % op)
                    return
                v = x.ret
                if v is UNDEF:
                    sp.rep(x, props, 'result', '%s returns an indeterminate value' % op)
                    return
                if want == 'throw':
                    sp.rep(x, props, 'result', '%s does not throw for an index that is not below the size' % op)
                elif want == 'K':
                    if not isinstance(v, Ptr) or v.r != c.k or not x.eq0(v.o - g.to.scale(8)):
                        sp.rep(x, props, 'result', '%s yields another place than the element asked for' % op)
                elif want == 'bool':
                    i = a[1] if len(a) > 1 else ZERO
                    if op in ('beg_mix', 'beg_mixe'):
                        t = True
                    elif op in ('eq', 'ne', 'mix_eq', 'mix_ne'):
                        t = x.eq0(i - a[2])
                        if op.endswith('ne'):
                            t = not t
                    elif op == 'inc_end':
                        t = x.eq0(i + 1 - size)
                    elif op in ('inc_eq', 'dec_eq'):
                        t = True
                    elif op == 'end_eq':
                        t = x.eq0(size - a[2] - i)
                    else:
                        t = x.eq0(i - size)
                    if x.eq0(v) == t:
                        sp.rep(x, props, 'comparison', '%s: iterators to %s positions compare %s' % (op, 'equal' if t != op.endswith('ne') else 'different', 'unequal' if t != op.endswith('ne') else 'equal'))
                elif op == 'size':
                    if not x.eq0(v - size):
                        sp.rep(x, props, 'result', 'size() is wrong')
                elif x.eq0(v) == x.eq0(size):
                    sp.rep(x, props, 'result', 'empty() is wrong')
                check(sp, x, op, [(c.obj, 'the container', Want(size, lambda s, i, k: old(c, s, i, k, 'old')))], [c.k], [p for p in props if p != 'B05'], True)
            self.go(sp, e, st, op, a, lab, end)

    def pair(self, op, dshape, oshape):
        """copy and move between two containers"""
        sp, e = self.spec(op)
        st0 = self.state(sp)
        g = st0.ghost
        c = sp.register(st0, sp.make(st0, dshape, 'the target', 'old', g.to), 'c')
        if dshape == 'uninit' or dshape[0] == 'null' or dshape[2] == 'new':
            g.picked = False
        if oshape == 'self':
            o = c
        else:
            sto = g.to
            if op.startswith('copy') and oshape[0] != 'null':
                sto = st0.sym('from', 0, sp.S - 1)
            o = sp.register(st0, sp.make(st0, oshape, 'the source', 'src', sto), 'o')
        for s1 in sp.liveness(st0, c, 'old'):
            for st in (sp.liveness(s1, o, 'src') if o is not c else [s1]):
                self.run_pair(sp, e, st, op, c, o, '%s, %s' % (shape_name(dshape), shape_name(oshape)))

    def run_pair(self, sp, e, st, op, c, o, lab):
        props = ['B06']

        def end(x):
            g = x.ghost
            ks = [k for k in dict.fromkeys((c.k, o.k, g.newk and g.newk.r)) if k]
            if x.exc is not None:
                sp.rep(x, props, 'exception', '%s throws' % op)
                return
            if o is c:
                w = Want(g.size['c'], lambda s, i, k: old(c, s, i, k, 'old'))
                return check(sp, x, 'self ' + op, [(c.obj, 'the container', w)], ks, props, True)
            size = g.size['o']
            if op.startswith('copy'):
                def ident(s, i, k):
                    if k == o.k:
                        return None
                    if o.idx is None:
                        return '*'
                    return 'src' if s.eq0(i - s.ghost.idx['o']) else '*'
                same = Want(size, lambda s, i, k: old(o, s, i, k, 'src'))
                return check(sp, x, op, [(c.obj, 'the copy', Want(size, ident)), (o.obj, 'the source', same)], ks, props, False)
            w = Want(size, lambda s, i, k: old(o, s, i, k, 'src'))
            check(sp, x, op, [(c.obj, 'the target', w), (o.obj, 'the source', Want(ZERO, None))], ks, props, True)
        self.go(sp, e, st, op, [Ptr(c.obj), Ptr(o.obj)], lab, end)


def shape_name(s):
    if isinstance(s, str):
        return s
    if s[0] == 'null':
        return 'no table'
    fr = s[1]
    fr = {'nofree': '', 'free': ' and free list', 'room': ' and free list with room', 'full': ' and full free list', 'full1': ' and almost full free list'}.get(fr) if isinstance(fr, str) else ' and free list of %d' % fr
    return 'table%s%s, %s' % (fr, ', %d blocks' % s[3] if len(s) > 3 else '', {'tab': 'tracked block in use', 'free': 'tracked block free', 'new': 'tracked block new', 'none': 'no tracked block'}[s[2]])


def norm_shapes(ks=('tab', 'free', 'new')):
    out = []
    for k in ks:
        for fr in ('nofree', 'free'):
            if k == 'free' and fr == 'nofree':
                continue
            out.append(('norm', fr, k))
    return out


def small_shapes(frees, ms, ks=('tab', 'free')):
    out = []
    for m in ms:
        for fr in frees:
            for k in ks:
                if k == 'free' and fr in ('nofree', 0):
                    continue
                out.append(('norm', fr, k, m))
    return out


def discover(P, cont, n):
    """values of the members in the states without table"""
    nulls = []
    todo = []

    def add(found):
        for v in found:
            if v is not None and v not in nulls:
                nulls.append(v)
                todo.append(v)
    found = []
    R = Run(P, cont, n, nulls, [], None, found)
    R.simple('ctor', 'uninit')
    add(found)
    fresh_states = list(nulls)
    rounds = 0
    while todo and rounds < 3:
        v = todo.pop()
        rounds += 1
        found = []
        R = Run(P, cont, n, nulls, [], None, found)
        for op in ('move_ctor', 'move_assign'):
            d = 'uninit' if op == 'move_ctor' else ('null', v)
            R.pair(op, d, ('null', v))
            R.pair(op, d, ('norm', 'free', 'tab'))
        add(found)
    return nulls, [v for v in nulls if v not in fresh_states]


def job(P, cont, n, nulls, calls, moved=()):
    def run(r):
        engs = []
        R = Run(P, cont, n, nulls, engs, r)
        R.moved = moved
        for kind, args in calls:
            try:
                getattr(R, kind)(*args)
            except Undecided as u:
                r.undecided.append(dict(entry='%s %s' % (R.name, args[0]), why=str(u), where='', paths=1))
        for e in engs:
            r.engine(e, 0)
        r.done += R.done
    return run


def jobs(ctx):
    P = ctx['prog']['blocks']
    out = []
    prop = ctx.get('prop')
    deep = ctx['tier'] == 'thorough'
    ns = (0, 1, 2) if ctx['tier'] != 'thorough' else (0, 1, 2, 3, 5)
    for cont in 'vd':
        for n in ns:
            try:
                nulls, moved = discover(P, cont, n)
            except Undecided as u:
                def failed(r, u=u, cont=cont, n=n):
                    r.undecided.append(dict(entry='%s%d' % (cont, n), why=str(u), where='', paths=1))
                out.append(('discover', failed))
                continue
            nm = 'StableBlock%s<%d> ' % ('Vector' if cont == 'v' else 'Deque', 1 << n)
            null = [('null', v) for v in nulls]

            def add(op, calls):
                if prop == 'B06' and not relevant(prop, cont, op):
                    # a container moved from can be used again
                    calls = [c for c in calls if c[0] in ('simple', 'reads') and c[1][1][0] == 'null' and c[1][1][1] in moved]
                    if not calls:
                        return
                elif prop is not None and not relevant(prop, cont, op):
                    return
                out.append((nm + op, job(P, cont, n, nulls, calls, moved)))
            add('ctor', [('simple', ('ctor', 'uninit'))])
            add('ctor_n', [('simple', ('ctor_n', 'uninit'))])
            ams = ((1, 2, 3, 4), (1, 2, 3), (1, 2) if deep else (1,))[n] if n < 3 else (1,)
            pms = (1, 2) if n < 2 or deep and n < 3 else (1,)
            ashapes = small_shapes(('nofree', 'room') + (('full',) if deep else ()), ams, ('tab', 'free', 'new'))
            push = [o for o in PUSH if cont == 'd' or 'front' not in o]
            pop = ['pop_back'] + (['pop_front'] if cont == 'd' else [])
            for op in push + pop + ['shrink']:
                add(op, [('simple', (op, s)) for s in null + norm_shapes()])
            for s in null + small_shapes(('nofree', 'room', 'full', 'full1'), (1, 2, 3)):
                add('clear', [('simple', ('clear', s))])
            for s in null + small_shapes(('nofree', 0, 1, 2), (1, 2, 3)):
                add('dtor', [('simple', ('dtor', s))])
            for op in ('assign', 'massign'):
                for s in null + ashapes:
                    add(op, [('simple', (op, s))])
            rd = null + [('norm', 'nofree', 'tab')]
            for op in READ0 + READ1:
                add(op, [('reads', (op, s)) for s in rd])
            for op in ITP:
                add(op, [('reads', (op, s)) for s in rd[len(null):]])
            for op in ITB:
                add(op, [('reads', (op, s)) for s in null + [('norm', 'nofree', 'none')]])
            src = null + [('norm', 'free', 'tab'), ('norm', 'nofree', 'tab'), ('norm', 'free', 'free')]
            few = small_shapes(('nofree', 0, 1, 2), (1, 2, 3))
            csrc = null + small_shapes(('nofree',), pms, ('tab',))
            cdst = [s for s in ashapes if s[3] in pms]
            for s in src:
                add('move_ctor', [('pair', ('move_ctor', 'uninit', s))])
            for s in null + small_shapes(('nofree',), ams, ('tab',)):
                add('copy_ctor', [('pair', ('copy_ctor', 'uninit', s))])
            for d in null + cdst:
                for s in csrc:
                    add('copy_assign', [('pair', ('copy_assign', d, s))])
                if d[0] == 'null' or d[2] == 'tab':
                    add('copy_assign', [('pair', ('copy_assign', d, 'self'))])
            for d in null + few:
                add('move_assign', [('pair', ('move_assign', d, s)) for s in null + [('norm', 'free', 'none')]])
            for d in null + norm_shapes(('tab',)):
                add('move_assign', [('pair', ('move_assign', d, 'self'))])
            for s in src:
                add('move_assign', [('pair', ('move_assign', d, s)) for d in null + [('norm', 1, 'none', 1)]])
    return out


def relevant(prop, cont, op):
    if prop in ('B03', 'B04'):
        return prop == 'B04' or op in PUSH or op in ('pop_back', 'pop_front', 'shrink') or op.startswith('move')
    if prop == 'B07':
        return op in PUSH
    return prop in op_props(cont, op) or prop == 'B04'


ASSUME = [
    'new[] and allocators return storage of the size requested, allocation of a representable size does not fail',
    'element copies and assignments made by whole container operations do not throw; those of push and emplace may',
    'block sizes 1, 2 and 4 (thorough also 8 and 32) represent all block sizes: code is instantiated per size',
    'fewer than 2^26 slots',
]
EXPLAIN = {
    '*': 'Every operation is interpreted abstractly from every state satisfying the class invariant: slot positions, fills and sizes are symbolic, one arbitrary block and one arbitrary place in it '
         'are tracked exactly, all others are summarised, pointer tables are range maps. Each final state must satisfy the invariant, hold every block once, and have the tracked place constructed exactly '
         'when its index is in range, with the identity demanded.',
}
RULES = {'*': 'bounds, liveness and single release of every access; layout invariant; index arithmetic and identity of an arbitrary element at the end of every abstract path'}
