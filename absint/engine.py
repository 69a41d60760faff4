"""Abstract interpreter over the resolved program (LLVM IR of the harness
instantiations). Disjunctive (trace partitioned) relational analysis: integers
are linear expressions constrained by a polyhedron, memory is a set of regions
with cells, std containers are abstract sequences / maps (models.py). Loop heads
are closed by subsumption against the abstract states seen there before."""
import time
from fractions import Fraction
from math import gcd
from .poly import Lin, Poly, ZERO, C, fresh, symname, _fm, Blowup


DEADLINE = [None]   # wall clock limit for all engines of this process


class Undecided(Exception):
    pass


class Stop(Exception):
    """path ends (infeasible, terminated or reported)"""


class Fork(Exception):
    def __init__(self, opts):
        self.opts = opts  # list of (label, [lins >= 0], choice or None)


class Throw(Exception):
    """a C++ exception is raised by the modelled callee"""

    def __init__(self, payload='user'):
        self.payload = payload


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o=ZERO):
        self.r = r
        self.o = o if isinstance(o, Lin) else C(o)

    def __add__(self, n):
        return Ptr(self.r, self.o + n)

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.r == self.r and x.o == self.o

    def __hash__(self):
        return hash((self.r, self.o))

    def __repr__(self):
        return 'null' if self.r == 0 else 'p%d[%r]' % (self.r, self.o)


NULL = Ptr(0)


class FnV:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'fn:' + self.n

    def __eq__(self, x):
        return isinstance(x, FnV) and x.n == self.n

    def __hash__(self):
        return hash(self.n)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'agg%r' % (self.v,)


class Obj:
    """content of an opaque object. id identifies the value, st is its
    life state: 'live', 'moved', 'dead'"""
    __slots__ = ('ty', 'id', 'st')

    def __init__(self, ty, i, st='live'):
        self.ty = ty
        self.id = i
        self.st = st

    def __repr__(self):
        return '%s<%s%s>' % (self.ty, self.id if isinstance(self.id, str) else symname(self.id), '' if self.st == 'live' else ' ' + self.st)

    def __eq__(self, x):
        return isinstance(x, Obj) and (x.ty, x.id, x.st) == (self.ty, self.id, self.st)

    def __hash__(self):
        return hash((self.ty, self.id, self.st))


class Model:
    """cell content of a modelled std container: refers to the region holding
    its abstract value"""
    __slots__ = ('k', 'r')

    def __init__(self, k, r):
        self.k = k
        self.r = r

    def __repr__(self):
        return '%s#%d' % (self.k, self.r)

    def __eq__(self, x):
        return isinstance(x, Model) and (x.k, x.r) == (self.k, self.r)

    def __hash__(self):
        return hash((self.k, self.r))


class Opq:
    """opaque scalar"""
    __slots__ = ('id',)

    def __init__(self, i=None):
        self.id = i if i is not None else fresh('o')

    def __repr__(self):
        return symname(self.id) if isinstance(self.id, int) else str(self.id)

    def __eq__(self, x):
        return isinstance(x, Opq) and x.id == self.id

    def __hash__(self):
        return hash(self.id)


class Region:
    __slots__ = ('rid', 'kind', 'size', 'cells', 'alive', 'init', 'name', 'meta', 'data')

    def __init__(self, rid, kind, size, name='', init='undef'):
        self.rid = rid
        self.kind = kind
        self.size = size
        self.cells = {}
        self.alive = True
        self.init = init
        self.name = name
        self.meta = {}
        self.data = None  # model data (immutable)

    def copy(self):
        r = Region.__new__(Region)
        r.rid = self.rid
        r.kind = self.kind
        r.size = self.size
        r.cells = dict(self.cells)
        r.alive = self.alive
        r.init = self.init
        r.name = self.name
        r.meta = dict(self.meta)
        r.data = self.data
        return r


class Frame:
    __slots__ = ('fn', 'b', 'i', 'prev', 'regs', 'allocas', 'ins', 'depth', 'visits')

    def __init__(self, fn):
        self.fn = fn
        self.b = 0
        self.i = 0
        self.prev = -1
        self.regs = {}
        self.allocas = ()
        self.ins = None
        self.visits = {}

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.b = self.b
        f.i = self.i
        f.prev = self.prev
        f.regs = dict(self.regs)
        f.allocas = self.allocas
        f.ins = self.ins
        f.visits = dict(self.visits) if self.visits else {}
        return f


class Ghost:
    """base of the specification state carried along a path"""

    def copy(self):
        g = self.__class__.__new__(self.__class__)
        for k, v in self.__dict__.items():
            if isinstance(v, (list, dict, set)):
                v = v.copy()
            g.__dict__[k] = v
        return g

    def canon(self, cn):
        out = []
        for k in sorted(self.__dict__):
            if k.startswith('_'):
                continue
            out.append((k, cn.any(self.__dict__[k])))
        return tuple(out)


class State:
    def __init__(self):
        self.poly = Poly()
        self.regions = {}
        self.own = set()
        self.frames = []
        self.exc = None
        self.choices = {}
        self.nins = 0
        self.trace = None
        self.inexact = None
        self.ghost = None
        self.nextrid = 1
        self.objs = {}     # facts about opaque identities: ('eq',a,b) -> bool
        self.lemma = ()
        self.ret = None

    def clone(self):
        s = State.__new__(State)
        s.poly = self.poly.copy()
        s.regions = dict(self.regions)
        s.own = set()
        self.own = set()
        s.frames = [f.copy() for f in self.frames]
        s.exc = self.exc
        s.choices = dict(self.choices)
        s.nins = self.nins
        s.trace = self.trace
        s.inexact = self.inexact
        s.ghost = self.ghost.copy() if self.ghost is not None else None
        s.nextrid = self.nextrid
        s.objs = dict(self.objs)
        s.lemma = self.lemma
        s.ret = self.ret
        return s

    # --- decisions -----------------------------------------------------
    def ge(self, e, why=None):
        """decide e >= 0, forking when both are possible"""
        p = self.poly
        e = p.norm(e)
        if not e.t:
            return e.c >= 0
        if p.entails_ge(e):
            return True
        if not p.sat(e):
            return False
        raise Fork([(why or '%r >= 0' % e, [e], None), ('not ' + why if why else '%r < 0' % e, [(-e) - 1], None)])

    def eq0(self, e):
        p = self.poly
        e = p.norm(e)
        if not e.t:
            return e.c == 0
        if not p.sat(e, -e):
            return False
        a = p.entails_ge(e)
        b = p.entails_ge(-e)
        if a and b:
            return True
        opts = [('%r == 0' % e, [e, -e], None)]
        if not b:
            opts.append(('%r > 0' % e, [e - 1], None))
        if not a:
            opts.append(('%r < 0' % e, [(-e) - 1], None))
        raise Fork(opts)

    def choose(self, label, n=2, names=None):
        key = (label, self.nins)
        v = self.choices.get(key)
        if v is None:
            raise Fork([('%s: %s' % (label, names[i] if names else i), [], (key, i)) for i in range(n)])
        return v

    def approx(self, why):
        if not self.inexact:
            self.inexact = why

    def assume(self, *es):
        for e in es:
            self.poly.add_ge(e)

    def sym(self, name, lo=None, hi=None):
        s = Lin.sym(fresh(name))
        if lo is not None:
            self.poly.add_ge(s - lo)
        if hi is not None:
            self.poly.add_ge(-(s - hi) if isinstance(hi, Lin) else C(hi) - s)
        return s

    # --- regions -------------------------------------------------------
    def new_region(self, kind, size, name='', init='undef'):
        rid = self.nextrid
        self.nextrid += 1
        r = Region(rid, kind, size if isinstance(size, Lin) else C(size), name, init)
        self.regions[rid] = r
        self.own.add(rid)
        return r

    def w(self, rid):
        """region for writing"""
        r = self.regions[rid]
        if rid not in self.own:
            r = r.copy()
            self.regions[rid] = r
            self.own.add(rid)
        return r

    def note(self, text):
        self.trace = (self.trace, text)

    def trace_list(self, n=40):
        out = []
        t = self.trace
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        return out[::-1]


def view(st, v, w, signed):
    """representative of v modulo 2^w in the unsigned or signed range"""
    if not isinstance(v, Lin):
        return v
    M = 1 << w
    v = st.poly.norm(v)
    if not v.t:
        c = v.c % M
        if signed and c >= M // 2:
            c -= M
        return C(c)
    lo = -(M // 2) if signed else 0
    hi = lo + M - 1
    if st.ge(v - lo):
        if st.ge(C(hi) - v):
            return v
        if st.ge(C(hi + M) - v):
            return v - M
    else:
        if st.ge(v - (lo - M)):
            return v + M
    raise Undecided('integer range of %r' % v)


def inrange(st, v, w, signed):
    if not isinstance(v, Lin):
        return False
    M = 1 << w
    lo = -(M // 2) if signed else 0
    hi = lo + M - 1
    return st.poly.entails_ge(v - lo) and st.poly.entails_ge(C(hi) - v)


WIDTH = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128}


def width(t):
    w = WIDTH.get(t)
    if w is None:
        if t.startswith('i') and t[1:].isdigit():
            return int(t[1:])
        raise Undecided('width of ' + t)
    return w


def elem_index(st, v):
    """offset as a multiple of the element size, so that generalised iterators
    stay on element boundaries"""
    o = st.poly.norm(v.o)
    r = st.regions.get(v.r)
    k = unit(r)
    if k > 1 and isinstance(k, int) and o.c % k == 0 and all(x % k == 0 for _, x in o.t):
        return Lin(o.c // k, tuple((s, x // k) for s, x in o.t)), k
    return o, 1


def div(z, k):
    return Lin(z.c // k, tuple((s, x // k) for s, x in z.t))


def unit(r):
    """size of the elements of an array like region"""
    if r is None:
        return 1
    return r.meta.get('esz', 1) if r.kind == 'seq' else r.meta.get('unit', 1)


class Canon:
    """canonical form of the part of a state that is still reachable; integer
    expressions become numbered slots"""

    def __init__(self, st, wide=False):
        self.st = st
        self.wide = wide
        self.slots = {}
        self.order = []
        self.ids = {}
        self.rids = {}
        self.rorder = []

    def slot(self, e):
        n = self.slots.get(e)
        if n is None:
            n = self.slots[e] = len(self.order)
            self.order.append(e)
        return n

    def ident(self, i):
        if isinstance(i, str):
            return i
        n = self.ids.get(i)
        if n is None:
            n = self.ids[i] = len(self.ids)
        return n

    def rid(self, r):
        if r == 0:
            return 0
        n = self.rids.get(r)
        if n is None:
            n = self.rids[r] = len(self.rids) + 1
            self.rorder.append(r)
        return n

    def lin(self, v):
        v = self.st.poly.norm(v)
        if not v.t and (not self.wide or v.c in (0, 1)):
            return v.c
        return ('L', self.slot(v))

    def any(self, v):
        if isinstance(v, Lin):
            return self.lin(v)
        if isinstance(v, Ptr):
            return ('P', self.rid(v.r)) + self.off(v)
        if isinstance(v, Obj):
            return ('E', v.ty, self.ident(v.id), v.st)
        if isinstance(v, Model):
            return ('M', v.k, self.rid(v.r))
        if isinstance(v, Agg):
            return ('A',) + tuple(self.any(x) for x in v.v)
        if isinstance(v, Opq):
            return ('O', self.ident(v.id))
        if isinstance(v, (list, tuple)):
            if len(v) == 4 and v[0] == 'x' and isinstance(v[3], Lin):
                return ('x', self.ident(v[1]), v[2], self.any(v[3]))
            return tuple(self.any(x) for x in v)
        if isinstance(v, dict):
            return tuple((self.any(k), self.any(v[k])) for k in v)
        if isinstance(v, (set, frozenset)):
            return frozenset(self.any(x) for x in v)
        if hasattr(v, 'canon'):
            return v.canon(self)
        return v

    def off(self, v):
        # offsets into fixed objects stay as they are
        if not v.o.t and self.wide:
            r = self.st.regions.get(v.r)
            if r is None or (r.kind != 'seq' and not r.size.t and 'unit' not in r.meta):
                return (v.o.c,)
        i, k = elem_index(self.st, v)
        return (self.lin(i), k)

    def rsize(self, r):
        k = r.meta.get('unit')
        if k is None:
            return self.any(r.size) if r.size.t else r.size.c
        z = self.st.poly.norm(r.size)
        if z.c % k or any(x % k for _, x in z.t):
            raise Undecided('size of an array')
        return self.lin(div(z, k)), k

    def key_off(self, o):
        return self.any(o) if o.t else o.c

    def state(self, header):
        st = self.st
        out = [header]
        for f in st.frames:
            out.append((f.fn['sym'], f.b, f.i))
            for k in sorted(f.regs):
                out.append((k, self.any(f.regs[k])))
            out.append(self.any([Ptr(a) for a in f.allocas if a in st.regions]))
        out.append(self.any(st.exc))
        if st.ghost is not None:
            out.append(st.ghost.canon(self))
        i = 0
        while i < len(self.rorder):
            r = st.regions.get(self.rorder[i])
            i += 1
            if r is None:
                out.append('gone')
                continue
            cells = sorted(((st.poly.norm(o), z, v) for o, (z, v) in r.cells.items()), key=lambda x: (x[0].c, x[0].t))
            out.append((r.kind, r.alive, self.rsize(r),
                        tuple((self.key_off(o), z if isinstance(z, int) else self.any(z), self.any(v)) for o, z, v in cells),
                        self.any(r.data), self.any(r.meta)))
        return tuple(out)


class Rewriter:
    """copy of a state with its slot expressions replaced"""

    def __init__(self, st, m):
        self.st = st
        self.m = m

    def lin(self, v):
        v = self.st.poly.norm(v)
        return self.m.get(v, v)

    def any(self, v):
        if isinstance(v, Lin):
            return self.lin(v)
        if isinstance(v, Ptr):
            if not v.o.t:
                r = self.st.regions.get(v.r)
                if r is None or (r.kind != 'seq' and not r.size.t and 'unit' not in r.meta):
                    return v
            i, k = elem_index(self.st, v)
            return Ptr(v.r, self.lin(i).scale(k))
        if isinstance(v, Agg):
            return Agg([self.any(x) for x in v.v])
        if isinstance(v, tuple):
            return tuple(self.any(x) for x in v)
        if isinstance(v, list):
            return [self.any(x) for x in v]
        if isinstance(v, dict):
            return {self.any(k): self.any(x) for k, x in v.items()}
        if isinstance(v, (set, frozenset)):
            return v.__class__(self.any(x) for x in v)
        if hasattr(v, 'rewrite'):
            return v.rewrite(self)
        return v

    def apply(self, rids):
        st = self.st
        for f in st.frames:
            f.regs = {k: self.any(v) for k, v in f.regs.items()}
        if st.ghost is not None:
            g = st.ghost
            for k in list(g.__dict__):
                g.__dict__[k] = self.any(g.__dict__[k])
        for rid in rids:
            if rid not in st.regions:
                continue
            r = st.w(rid)
            k = r.meta.get('unit')
            if k is not None or r.size.t:
                r.size = self.lin(r.size) if k is None else self.lin(div(st.poly.norm(r.size), k)).scale(k)
            r.cells = {(self.lin(o) if o.t else o): (z if isinstance(z, int) else self.lin(z), self.any(v)) for o, (z, v) in r.cells.items()}
            r.data = self.any(r.data)
            r.meta = {k: self.any(v) for k, v in r.meta.items()}
        keep = set(rids)
        for rid in list(st.regions):
            if rid not in keep and st.regions[rid].kind != 'global':
                del st.regions[rid]


def project(cons, drop):
    """eliminate the symbols; None on blow up. Dropping constraints only
    enlarges the set"""
    cur = dict(cons)
    for s in drop:
        low = []
        up = []
        rest = {}
        for t, c in cur.items():
            k = 0
            for x, kk in t:
                if x == s:
                    k = kk
            if k > 0:
                low.append((c, dict(t), k))
            elif k < 0:
                up.append((c, dict(t), -k))
            else:
                rest[t] = c
        if len(low) * len(up) > 400:
            return None
        for cl, tl, kl in low:
            for cu, tu, ku in up:
                d = {}
                for x, k in tl.items():
                    d[x] = d.get(x, 0) + k * ku
                for x, k in tu.items():
                    d[x] = d.get(x, 0) + k * kl
                d.pop(s, None)
                t = tuple(sorted((x, k) for x, k in d.items() if k))
                c = cl * ku + cu * kl
                if not t:
                    continue
                if t not in rest or c < rest[t]:
                    rest[t] = c
        cur = rest
        if len(cur) > 400:
            return None
    return cur


BOUNDS = ((1 << 31) - 2, (1 << 31) - 1, (1 << 40) - 1, 1 << 40, 1 << 41)


class SlotPoly:
    """a polyhedron over the slots of a canonical state"""

    def __init__(self, poly, order):
        self.poly = poly
        self.order = order
        self._cons = None

    def cons(self):
        if self._cons is None:
            syms = set()
            for e in self.order:
                syms.update(e.syms())
            cons = dict(self.poly._component(syms))
            self.slots = [fresh('slot') for _ in self.order]
            ren = {}
            extra = []
            for s, e in zip(self.slots, self.order):
                if e.c == 0 and len(e.t) == 1 and e.t[0][1] == 1 and e.t[0][0] not in ren:
                    ren[e.t[0][0]] = s
                else:
                    extra.append((s, e))
            out = {}

            def put(e):
                if not e.t:
                    return
                d = {}
                for x, k in e.t:
                    x = ren.get(x, x)
                    d[x] = d.get(x, 0) + k
                t = tuple(sorted((x, k) for x, k in d.items() if k))
                if t and (t not in out or e.c < out[t]):
                    out[t] = e.c
            for t, c in cons.items():
                put(Lin(c, t))
            for s, e in extra:
                d = e - Lin.sym(s)
                put(d)
                put(-d)
            ss = set(self.slots)
            drop = set(x for t in out for x, _ in t if x not in ss)
            # fewest occurrences first
            cnt = {}
            for t in out:
                for x, _ in t:
                    cnt[x] = cnt.get(x, 0) + 1
            r = project(out, sorted(drop, key=lambda x: cnt[x]))
            self._cons = [] if r is None else list(r.items())
            self.failed = r is None
        return self._cons

    def at(self, t, c, order):
        e = C(c)
        m = dict(zip(self.slots, order))
        for s, k in t:
            e = e + m[s].scale(k)
        return e

    def includes(self, poly, order):
        cons = self.cons()
        if self.failed:
            return False
        return all(poly.entails_ge(self.at(t, c, order)) for t, c in cons)


def candidates(o, k):
    """template relations among k slots, as coefficient lists"""
    for i in range(k):
        yield ((i, 1),)
        yield ((i, -1),)
    for i in range(k):
        for j in range(k):
            if i != j:
                yield ((i, 1), (j, -1))
    if k <= 9:
        for i in range(k):
            for j in range(i):
                for l in range(k):
                    if l != i and l != j:
                        yield ((i, 1), (j, 1), (l, -1))
                        yield ((i, -1), (j, -1), (l, 1))


def solve(rows, n):
    """reduced row echelon form of integer equations sum(a*x)+c = 0 as lists
    of n+1 fractions"""
    piv = []
    m = [[Fraction(x) for x in r] for r in rows]
    at = 0
    for j in range(n):
        k = None
        for i in range(at, len(m)):
            if m[i][j]:
                k = i
                break
        if k is None:
            continue
        m[at], m[k] = m[k], m[at]
        d = m[at][j]
        m[at] = [x / d for x in m[at]]
        for i in range(len(m)):
            if i != at and m[i][j]:
                f = m[i][j]
                m[i] = [x - f * y for x, y in zip(m[i], m[at])]
        piv.append(j)
        at += 1
    return m[:at], piv


def generators(rows, n):
    """a point and directions of the affine space"""
    m, piv = solve(rows, n)
    point = [Fraction(0)] * n
    for r, j in zip(m, piv):
        point[j] = -r[n]
    dirs = []
    free = [j for j in range(n) if j not in piv]
    for j in free:
        d = [Fraction(0)] * n
        d[j] = Fraction(1)
        for r, p in zip(m, piv):
            d[p] = -r[j]
        dirs.append(d)
    return point, dirs


def equalities(cons, index, n):
    """rows of the equations among constraints given as opposite pairs"""
    d = {}
    for t, c in cons:
        if t not in d or c < d[t]:
            d[t] = c
    rows = []
    for t, c in d.items():
        neg = tuple((s, -k) for s, k in t)
        if d.get(neg) == -c and t[0][1] > 0 and all(s in index for s, _ in t):
            r = [0] * (n + 1)
            for s, k in t:
                r[index[s]] = k
            r[n] = c
            rows.append(r)
    return rows


def affine_join(old, oldc, poly, order):
    """equations between slots that hold both in the old and in the new state"""
    n = len(order)
    if n > 40:
        return []
    rows1 = equalities(oldc, {s: i for i, s in enumerate(old.slots)}, n)
    new = SlotPoly(poly, order)
    newc = new.cons()
    if new.failed:
        return []
    rows2 = equalities(newc, {s: i for i, s in enumerate(new.slots)}, n)
    p1, d1 = generators(rows1, n)
    p2, d2 = generators(rows2, n)
    dirs = d1 + d2 + [[a - b for a, b in zip(p2, p1)]]
    # equations a with a.d = 0 for all directions
    m, piv = solve([d + [0] for d in dirs], n)
    free = [j for j in range(n) if j not in piv]
    out = []
    for j in free:
        a = [Fraction(0)] * n
        a[j] = Fraction(1)
        for r, p in zip(m, piv):
            a[p] = -r[j]
        c = -sum(x * y for x, y in zip(a, p1))
        l = 1
        for x in a + [c]:
            l = l * x.denominator // gcd(l, x.denominator)
        co = [int(x * l) for x in a]
        if sum(1 for x in co if x) > 12 or max(abs(x) for x in co) > 64:
            continue
        out.append(([(i, x) for i, x in enumerate(co) if x], int(c * l)))
    return out


class Finding:
    def __init__(self, prop, rule, msg, st, where, witness):
        self.prop = prop
        self.rule = rule
        self.msg = msg
        self.where = where
        self.trace = st.trace_list()
        self.stack = []
        self.witness = witness
        self.entry = ''
        for f in st.frames:
            self.stack.append(loc(f))

    def key(self):
        return (self.prop, self.rule, self.where)


def loc(f):
    ins = f.ins
    fn = f.fn
    file = fn.get('file', '')
    line = 0
    if ins is not None:
        file = ins.get('lf', file)
        line = ins.get('l', 0)
    return '%s:%s in %s' % (file, line, short(fn))


def short(fn):
    n = fn.get('name') or fn.get('dem')
    sc = fn.get('scopes') or []
    return '::'.join([s.split('<')[0] for s in reversed(sc) if s not in ('gmlc', 'containers', 'std')] + [n])


class Program:
    def __init__(self, data):
        self.fns = data['functions']
        self.globals = data['globals']
        self.types = data['types']
        for s, f in self.fns.items():
            f['sym'] = s
            if f['decl']:
                continue
            for bi, b in enumerate(f['blocks']):
                ls = b.get('loops') or []
                b['head'] = bool(ls) and ls[0] == bi
            # registers defined in each loop, for killing at the head
            defs = {}
            for bi, b in enumerate(f['blocks']):
                for h in b.get('loops') or ():
                    d = defs.setdefault(h, set())
                    for ins in b['i']:
                        if 'd' in ins and ins['o'] != 'alloca':
                            d.add(ins['d'])
            f['loopdefs'] = defs
            sc = f.get('scopes') or []
            f['std'] = bool(sc) and sc[-1] in ('std', '__gnu_cxx')
            f['cls'] = sc[0] if sc else ''
            nm = f.get('name', '')
            f['base'] = basename(nm)


def basename(nm):
    """function name without template arguments"""
    if nm.startswith('operator'):
        if nm.startswith('operator<<'):
            return 'operator<<'
        if nm.startswith('operator<=>'):
            return 'operator<=>'
        if nm.startswith('operator<='):
            return 'operator<='
        if nm.startswith('operator->'):
            return 'operator->'
        if nm.startswith('operator<'):
            return 'operator<'
        i = nm.find('<', 9)
        return nm[:i].rstrip() if i > 0 else nm
    i = nm.find('<')
    return nm[:i] if i > 0 else nm


class Engine:
    def __init__(self, prog, spec, max_paths=4000, max_steps=3000000, max_visits=8, deadline=None):
        self.p = prog
        self.spec = spec
        self.findings = {}
        self.undecided = {}
        self.unconfirmed = {}
        self.stats = {'paths': 0, 'steps': 0, 'loads': 0, 'stores': 0, 'calls': 0, 'forks': 0, 'heads': 0, 'joined': 0}
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.max_visits = max_visits
        self.widen_from = 2
        self.bounds = ()
        self.functions = set()
        self.sites = set()
        self.deadline = deadline or DEADLINE[0]
        self.entry = ''
        self.models = []
        self.gfn = {}
        self.first = None
        self.mcache = {}
        spec.eng = self

    # --- reports --------------------------------------------------------
    def report(self, st, prop, rule, msg, stop=False):
        fr = st.frames[-1] if st.frames else None
        # the innermost frame inside the code under analysis
        where = None
        for f in reversed(st.frames):
            if 'gmlc/containers' in f.fn.get('file', ''):
                where = loc(f)
                break
        if where is None:
            where = loc(fr) if fr else self.first or self.entry
        key = (prop, rule, where)
        if st.inexact:
            self.unconfirmed.setdefault(key, (msg, st.inexact, self.entry))
        else:
            m = st.poly.model()
            if m is None:
                self.unconfirmed.setdefault(key, (msg, 'no integer witness', self.entry))
            elif key not in self.findings:
                wit = {}
                for s, v in m.items():
                    wit[symname(s)] = v
                fd = Finding(prop, rule, msg, st, where, wit)
                fd.entry = self.entry
                self.findings[key] = fd
        if stop:
            raise Stop()

    def undec(self, st, why):
        where = ''
        if st is not None and st.frames:
            where = loc(st.frames[-1])
            for f in reversed(st.frames):
                if 'gmlc/containers' in f.fn.get('file', ''):
                    where += ' <- ' + loc(f)
                    break
        k = (self.entry, why, where)
        self.undecided[k] = self.undecided.get(k, 0) + 1

    # --- driver -----------------------------------------------------------
    def call_entry(self, st, sym, args):
        fn = self.p.fns.get(sym)
        if fn is None or fn['decl']:
            raise KeyError('entry %s vanished' % sym)
        st.frames = []
        self.push_frame(st, fn, args)

    def base(self, st, p):
        """the unknown address at which a raw buffer lies"""
        if p.r == 0:
            return ZERO
        r = st.regions.get(p.r)
        if r is None or 'raw' not in r.meta:
            raise Undecided('difference of unrelated addresses')
        if 'addr' not in r.meta:
            w = st.w(p.r)
            w.meta = dict(w.meta)
            w.meta['addr'] = st.sym('&' + r.name, 1 << 12, 1 << 47)
            r = w
        return r.meta['addr']

    def push_frame(self, st, fn, args):
        f = Frame(fn)
        for i, a in enumerate(args):
            f.regs[i] = a
        st.frames.append(f)
        if len(st.frames) > 120:
            raise Undecided('call depth')
        self.functions.add(fn['sym'])
        if self.first is None and 'gmlc/containers' in fn.get('file', ''):
            self.first = '%s:%s in %s' % (fn['file'], fn.get('line', 0), short(fn))

    def run(self, entry, st, on_end):
        self.entry = entry
        self.first = None
        work = [st]
        heads = {}
        npaths = 0
        nsteps = 0
        self.heads = heads
        self.wide = {}
        while work:
            st = work.pop()
            snap = None
            try:
                while True:
                    nsteps += 1
                    if nsteps > self.max_steps or (self.deadline and nsteps % 256 == 0 and time.time() > self.deadline):
                        self.undec(st, 'step budget')
                        work = []
                        raise Stop()
                    self.snap = None
                    try:
                        if not st.frames:
                            break
                        self.step(st)
                        st.nins += 1
                    except Fork as fk:
                        self.stats['forks'] += 1
                        base = self.snap if self.snap is not None else st
                        opts = []
                        for lab, lins, ch in fk.opts:
                            if not base.poly.sat(*lins):
                                continue
                            opts.append((lab, lins, ch))
                        first = None
                        for lab, lins, ch in opts:
                            c = base.clone()
                            for e in lins:
                                c.poly.add_ge(e)
                            if ch is not None:
                                c.choices[ch[0]] = ch[1]
                            if c.poly.bad:
                                continue
                            fr = c.frames[-1] if c.frames else None
                            c.note('%s: %s' % (loc(fr) if fr else '', lab))
                            if first is None:
                                first = c
                            else:
                                work.append(c)
                        if first is None:
                            raise Stop()
                        st = first
                npaths += 1
                self.finish(st, on_end, work)
            except Stop:
                npaths += 1
            except Undecided as u:
                npaths += 1
                self.undec(st, str(u))
            if npaths > self.max_paths:
                self.undec(None, 'path budget')
                break
        self.stats['paths'] += npaths
        self.stats['steps'] += nsteps

    def finish(self, st, on_end, work):
        # end handlers may fork as well
        todo = [st]
        while todo:
            s = todo.pop()
            if self.deadline and time.time() > self.deadline:
                self.undec(s, 'time budget')
                return
            # end handlers that only read the state may keep what they learned
            base = s if self.spec.pure_end else s.clone()
            try:
                on_end(s)
            except Fork as fk:
                for lab, lins, ch in fk.opts:
                    if not base.poly.sat(*lins):
                        continue
                    c = base.clone()
                    for e in lins:
                        c.poly.add_ge(e)
                    if ch is not None:
                        c.choices[ch[0]] = ch[1]
                    c.note('at the end: ' + lab)
                    if not c.poly.bad:
                        todo.append(c)
            except Stop:
                pass
            except Undecided as u:
                self.undec(base, str(u))

    # --- operands ----------------------------------------------------------
    def ev(self, st, fr, a):
        if a.__class__ is int:
            try:
                return fr.regs[a]
            except KeyError:
                raise Undecided('register %d undefined in %s' % (a, fr.fn['dem']))
        return self.const(st, a)

    def const(self, st, a):
        k = a[0]
        if k == 'i':
            w = a[1]
            v = int(a[2])
            if w > 1 and v >= 1 << (w - 1):
                v -= 1 << w
            return C(v)
        if k == 'n':
            return NULL
        if k == 'u':
            return self.undef_of(a[1])
        if k == 'f':
            return FnV(a[1])
        if k == 'g':
            return Ptr(self.global_region(st, a[1]))
        if k == 'G':
            b = self.const(st, a[1])
            off = a[2][0]
            return b + off if isinstance(b, Ptr) else UNDEF
        if k == 'c':
            return self.const(st, a[3])
        if k == 'z':
            return self.zero_of(a[1])
        if k == 'a':
            return Agg([self.const(st, x[1]) for x in a[1]])
        if k == 'd':
            return Opq('d' + a[1])
        if k == 'm':
            return UNDEF
        raise Undecided('constant %r' % (a,))

    def undef_of(self, t):
        if t.startswith('{') or t.startswith('['):
            return Agg([UNDEF for _ in range(agg_len(t))])
        return UNDEF

    def zero_of(self, t):
        if t == 'ptr':
            return NULL
        if t.startswith('i'):
            return ZERO
        if t.startswith('{') or t.startswith('['):
            return Agg([self.zero_of(x) for x in agg_elems(t)])
        return Opq('d0')

    def global_region(self, st, name):
        key = 'G:' + name
        for rid in (st.lemma and st.lemma or ()):
            pass
        g = self.gfn.get(name)
        if g is not None and g in st.regions:
            return g
        info = self.p.globals.get(name, {})
        # stable region numbers for globals: negative
        if g is None:
            g = self.gfn[name] = -(len(self.gfn) + 1)
        r = Region(g, 'global', C(info.get('size', 0) or (1 << 20)), name, 'opaque')
        if info.get('const') and 'init' in info:
            r.init = 'const'
            r.meta['init'] = name
        elif 'init' in info:
            r.init = 'opaque'
        st.regions[g] = r
        return g

    # --- memory ---------------------------------------------------------------
    def access(self, st, ptr, size, what):
        """validity checks; returns the region"""
        if not isinstance(ptr, Ptr):
            if ptr is UNDEF:
                self.spec.memerr(st, 'undef', '%s through an uninitialised pointer' % what)
                raise Stop()
            raise Undecided('%s through %r' % (what, ptr))
        if ptr.r == 0:
            self.spec.memerr(st, 'null', '%s through a null pointer' % what)
            raise Stop()
        r = st.regions.get(ptr.r)
        if r is None or not r.alive:
            self.spec.memerr(st, 'dangling', '%s of released storage%s' % (what, ' (%s)' % r.name if r is not None else ''))
            raise Stop()
        if not isinstance(size, Lin):
            size = C(size)
        off = st.poly.norm(ptr.o)
        if r.kind == 'seq' or r.kind == 'opaque':
            return r, off
        lo_ok = st.poly.entails_ge(off)
        end = st.poly.norm(r.size - off - size)
        hi_ok = st.poly.entails_ge(end)
        if lo_ok and hi_ok:
            return r, off
        if not lo_ok:
            if not st.ge(off, 'offset %r of %s is not negative' % (off, r.name)):
                self.spec.memerr(st, 'bounds', '%s before the start of %s (offset %r)' % (what, r.name, off))
                raise Stop()
        if not st.ge(end, 'access of %r bytes at %r ends inside %s of %r bytes' % (size, off, r.name, r.size)):
            self.spec.memerr(st, 'bounds', '%s past the end of %s (offset %r, %r bytes, size %r)' % (what, r.name, off, size, r.size))
            raise Stop()
        return r, off

    def find_cell(self, st, r, off, size):
        """key of the cell equal to [off,off+size) or None when nothing
        overlaps; overlapping cells are returned as a list"""
        c = r.cells.get(off)
        if c is not None and c[0] == size:
            return off, None
        over = []
        if not off.t and isinstance(size, int):
            lo = off.c
            hi = lo + size
            for o, (z, v) in r.cells.items():
                if not o.t and isinstance(z, int):
                    if o.c < hi and lo < o.c + z:
                        if o.c == lo and z == size:
                            return o, None
                        over.append(o)
                else:
                    k = self.overlap(st, o, z, off, size)
                    if k == 'same':
                        return o, None
                    if k:
                        over.append(o)
            return None, over
        for o, (z, v) in list(r.cells.items()):
            k = self.overlap(st, o, z, off, size)
            if k == 'same':
                return o, None
            if k:
                over.append(o)
        return None, over

    def overlap(self, st, o, z, off, size):
        """relation of the cells [o,o+z) and [off,off+size): 'same', False or
        'part'. Forks when undetermined."""
        p = st.poly
        d = p.norm(off - o)
        if not d.t:
            if isinstance(z, int) and isinstance(size, int):
                if d.c == 0 and z == size:
                    return 'same'
                return False if d.c >= z or -d.c >= size else 'part'
        zz = z if isinstance(z, Lin) else C(z)
        ss = size if isinstance(size, Lin) else C(size)
        after = d - zz      # off >= o+z
        before = -(d + ss)  # off+size <= o
        if p.entails_ge(after) or p.entails_ge(before):
            return False
        if p.entails_ge(zz * 1 if False else zz) and p.entails_eq(zz):
            return False
        if p.entails_eq(ss):
            return False
        if p.entails_eq(d) and p.entails_eq(zz - ss):
            return 'same'
        opts = []
        if p.sat(after):
            opts.append(('access after cell', [after], None))
        if p.sat(before):
            opts.append(('access before cell', [before], None))
        if not opts:
            if p.sat(d, -d, zz - ss, ss - zz):
                # may be the same, certainly overlapping
                opts2 = [('access same cell', [d, -d, zz - ss, ss - zz], None)]
                for lab, l in (('cell starts earlier', d - 1), ('cell starts later', -d - 1)):
                    if p.sat(l):
                        opts2.append((lab, [l], None))
                if len(opts2) == 1:
                    for lab, l in (('longer', zz - ss - 1), ('shorter', ss - zz - 1)):
                        if p.sat(l):
                            opts2.append((lab, [d, -d, l], None))
                if len(opts2) > 1:
                    raise Fork(opts2)
            return 'part'
        rest = [('access touches cell', [-after - 1, -before - 1], None)]
        opts = [x for x in opts + rest if p.sat(*x[1])]
        if len(opts) == 1:
            lab, lins, _ = opts[0]
            return False if lab != 'access touches cell' else 'part'
        raise Fork(opts)

    def load(self, st, ptr, size, t='i64'):
        r, off = self.access(st, ptr, size, 'read')
        h = self.spec.on_load
        if h is not None:
            v = h(st, r, off, size, t)
            if v is not None:
                return v
        if r.kind == 'seq':
            return self.seqload(st, r, off, size, t)
        if r.kind == 'global':
            return self.gload(st, r, off, size, t)
        k, over = self.find_cell(st, r, off, size)
        if k is not None:
            return self.as_type(st, r.cells[k][1], t, size)
        if over:
            return self.partial_load(st, r, off, size, t, over)
        return self.init_load(st, r, off, size, t)

    def as_type(self, st, v, t, size=0):
        if t == 'ptr':
            if isinstance(v, Lin):
                if v.is_const() and v.c == 0:
                    return NULL
                return v
            return v
        if isinstance(v, Ptr) and t[0] == 'i' and v.r == 0 and v.o == ZERO:
            return ZERO
        if t.startswith('{') or t.startswith('['):
            if isinstance(v, Agg):
                return v
            if v is UNDEF:
                return self.undef_of(t)
        return v

    def init_load(self, st, r, off, size, t):
        init = r.init
        if t.startswith('{'):
            # aggregate load: field by field
            vals = []
            for o, z, et in agg_layout(t):
                vals.append(self.load(st, Ptr(r.rid, off + o), z, et))
            return Agg(vals)
        if init == 'undef':
            return UNDEF
        if init == 'zero':
            return self.zero_of(t)
        if init == 'opaque':
            if r.kind == 'global':
                pass
            v = self.fresh_val(st, t, size)
            self.put(st, r.rid, off, size, v)
            return v
        if callable(init):
            v = init(self, st, r, off, size, t)
            if v is None:
                raise Undecided('initial content of %s at %r' % (r.name, off))
            self.put(st, r.rid, off, size, v)
            return v
        raise Undecided('init')

    def fresh_val(self, st, t, size=0):
        if t == 'ptr':
            return Ptr(st.new_region('opaque', 1 << 40, 'unknown object', 'opaque').rid)
        if t[0] == 'i':
            w = width(t)
            return st.sym('v', 0, (1 << w) - 1)
        return Opq()

    def gload(self, st, r, off, size, t):
        if r.init == 'const' and not off.t:
            init = self.p.globals[r.name].get('init')
            v = self.const_at(st, init, off.c, size, t)
            if v is not None:
                return v
        k, over = self.find_cell(st, r, off, size)
        if k is not None:
            return r.cells[k][1]
        v = self.fresh_val(st, t)
        self.put(st, r.rid, off, size, v)
        return v

    def const_at(self, st, init, off, size, t):
        if init is None:
            return None
        k = init[0]
        if k == 'a':
            for o, c, z in init[1]:
                if o <= off < o + max(z, 1):
                    return self.const_at(st, c, off - o, size, t)
            return None
        if k == 'z':
            return self.zero_of(t)
        if off != 0:
            return None
        if k in ('i', 'n', 'f', 'g', 'G'):
            return self.const(st, init)
        return None

    def partial_load(self, st, r, off, size, t, over):
        if t.startswith('{') or t.startswith('['):
            vals = []
            for o, z, et in agg_layout(t):
                vals.append(self.load(st, Ptr(r.rid, off + o), z, et))
            return Agg(vals)
        if not off.t and isinstance(size, int):
            # zero filled or undefined bytes
            vs = [r.cells[o] for o in over]
            if all(v is UNDEF for _, v in vs):
                return UNDEF
            # low bytes of a wider integer
            if len(over) == 1:
                o = over[0]
                z, v = r.cells[o]
                if isinstance(v, Lin) and isinstance(z, int) and not o.t:
                    d = off.c - o.c
                    if d >= 0 and d + size <= z and v.is_const():
                        return C((v.c >> (8 * d)) & ((1 << (8 * size)) - 1))
                if isinstance(v, Agg):
                    return UNDEF
            if all(isinstance(v, Lin) and v.is_const() and v.c == 0 for _, v in vs):
                return self.zero_of(t)
        raise Undecided('read of %s at %r overlaps other cells' % (r.name, off))

    def put(self, st, rid, off, size, v):
        r = st.w(rid)
        r.cells[off] = (size, v)

    def store(self, st, ptr, size, v, t=None):
        r, off = self.access(st, ptr, size, 'write')
        if r.kind == 'seq':
            return self.seqstore(st, r, off, size, v)
        h = self.spec.on_store
        if h is not None and h(st, r, off, size, v):
            return
        if r.kind == 'global' and r.init == 'const':
            raise Undecided('write to constant ' + r.name)
        k, over = self.find_cell(st, r, off, size)
        if k is not None:
            self.put(st, r.rid, k, size, v)
            return
        if over:
            self.clear_cells(st, r, off, size, over)
        if isinstance(v, Agg):
            # keep struct stores as separate cells
            for o, z, x in (agg_typed(v, t) if t else agg_cells(v, size)):
                self.put(st, r.rid, off + o, z, x)
            return
        self.put(st, r.rid, off, size, v)

    def clear_cells(self, st, r, off, size, over):
        """the range is about to be overwritten"""
        w = st.w(r.rid)
        lo = off
        for o in over:
            z, v = w.cells[o]
            if not o.t and not off.t and isinstance(z, int) and isinstance(size, int):
                if off.c <= o.c and o.c + z <= off.c + size:
                    del w.cells[o]
                    continue
                if isinstance(v, Lin) and v.is_const() and v.c == 0 or v is UNDEF:
                    # split a filled cell
                    del w.cells[o]
                    if o.c < off.c:
                        w.cells[o] = (off.c - o.c, v)
                    if o.c + z > off.c + size:
                        w.cells[C(off.c + size)] = (o.c + z - off.c - size, v)
                    continue
            else:
                zz = z if isinstance(z, Lin) else C(z)
                ss = size if isinstance(size, Lin) else C(size)
                if st.poly.entails_ge(o - off) and st.poly.entails_ge(off + ss - o - zz):
                    del w.cells[o]
                    continue
            raise Undecided('write to %s at %r partially overwrites a cell at %r' % (r.name, off, o))

    def seqload(self, st, r, off, size, t):
        raise Undecided('element access')

    def seqstore(self, st, r, off, size, v):
        raise Undecided('element access')

    # copy of a byte range between constant offset objects
    def copy_bytes(self, st, dst, src, n, size_lin=None):
        h = self.spec.on_copy
        if h is not None and h(st, dst, src, n):
            return
        n = st.poly.norm(n)
        if not n.t and n.c == 0:
            return
        if n.t:
            raise Undecided('copy of symbolic size')
        sr, so = self.access(st, src, n.c, 'read')
        dr, do = self.access(st, dst, n.c, 'write')
        if sr.kind == 'seq' or dr.kind == 'seq':
            cells = self.blob(st, src, n.c)
            self.put_blob(st, dst, n.c, cells)
            return
        if so.t or do.t:
            raise Undecided('copy at symbolic offset')
        moved = []
        for o, (z, v) in sr.cells.items():
            if o.t or not isinstance(z, int):
                k = self.overlap(st, o, z, so, n.c)
                if k:
                    raise Undecided('copy overlaps a symbolic cell')
                continue
            if o.c >= so.c and o.c + z <= so.c + n.c:
                moved.append((o.c - so.c, z, v))
            elif o.c < so.c + n.c and so.c < o.c + z:
                if v is UNDEF or isinstance(v, Lin) and v.is_const() and v.c == 0:
                    lo = max(o.c, so.c)
                    hi = min(o.c + z, so.c + n.c)
                    moved.append((lo - so.c, hi - lo, v))
                else:
                    raise Undecided('copy splits a cell')
        if sr.init not in ('undef', 'zero') and not moved and callable(sr.init):
            raise Undecided('copy of lazily known bytes')
        k, over = self.find_cell(st, dr, do, n.c)
        if k is not None:
            over = [k]
        if over:
            self.clear_cells(st, dr, do, n.c, over)
        w = st.w(dr.rid)
        if dr.init == 'zero' and sr.init == 'undef':
            pass
        for o, z, v in moved:
            w.cells[C(do.c + o)] = (z, v)
        if sr.init == 'opaque' and not moved:
            w.cells[do] = (n.c, Opq())

    def blob(self, st, ptr, size):
        """cells of an object, relative offsets"""
        r, off = self.access(st, ptr, size, 'read')
        if r.kind == 'seq':
            return self.seqblob(st, r, off, size)
        if off.t:
            raise Undecided('object at symbolic offset')
        out = []
        for o, (z, v) in sorted(((o, c) for o, c in r.cells.items() if not o.t), key=lambda x: x[0].c):
            if isinstance(z, int) and o.c >= off.c and o.c + z <= off.c + size:
                out.append((o.c - off.c, z, v))
            elif isinstance(z, int) and o.c < off.c + size and off.c < o.c + z:
                out.append((max(o.c, off.c) - off.c, min(o.c + z, off.c + size) - max(o.c, off.c), v))
        return tuple(out)

    def put_blob(self, st, ptr, size, blob):
        r, off = self.access(st, ptr, size, 'write')
        if r.kind == 'seq':
            return self.seqput(st, r, off, size, blob)
        k, over = self.find_cell(st, r, off, size)
        if k is not None:
            over = [k]
        if over:
            self.clear_cells(st, r, off, size, over)
        w = st.w(r.rid)
        for o, z, v in blob:
            w.cells[off + o] = (z, v)

    # --- stepping ------------------------------------------------------------
    def step(self, st):
        fr = st.frames[-1]
        blk = fr.fn['blocks'][fr.b]['i']
        ins = blk[fr.i]
        fr.ins = ins
        o = ins['o']
        m = DISPATCH.get(o)
        if m is None:
            raise Undecided('instruction ' + o)
        m(self, st, fr, ins)

    def setd(self, st, fr, ins, v):
        fr.regs[ins['d']] = v
        fr.i += 1

    def i_alloca(self, st, fr, ins):
        n = self.ev(st, fr, ins['a'][0])
        if not (isinstance(n, Lin) and n.is_const()):
            raise Undecided('variable length array')
        r = st.new_region('stack', ins['z'] * n.c, ins.get('n', 'tmp'))
        fr.allocas = fr.allocas + (r.rid,)
        self.setd(st, fr, ins, Ptr(r.rid))

    def i_load(self, st, fr, ins):
        self.stats['loads'] += 1
        p = self.ev(st, fr, ins['a'][0])
        if 'at' in ins and self.spec.atomic_load is not None:
            v = self.spec.atomic_load(st, p, ins['z'], ins['t'], ins['at'])
            if v is not None:
                return self.setd(st, fr, ins, v)
        v = self.load(st, p, ins['z'], ins['t'])
        if ins['t'] == 'i1' and isinstance(v, Lin):
            v = self.bit(st, v)
        self.setd(st, fr, ins, v)

    def i_store(self, st, fr, ins):
        self.stats['stores'] += 1
        v = self.ev(st, fr, ins['a'][0])
        p = self.ev(st, fr, ins['a'][1])
        if 'at' in ins and self.spec.atomic_store is not None:
            if self.spec.atomic_store(st, p, ins['z'], v, ins['at']):
                fr.i += 1
                return
        self.store(st, p, ins['z'], v, ins['vt'])
        fr.i += 1

    def bit(self, st, v):
        if v is UNDEF:
            return v
        if not isinstance(v, Lin):
            raise Undecided('bit of %r' % (v,))
        v = st.poly.norm(v)
        if not v.t:
            return C(v.c & 1)
        # value known to be 0 or 1
        if st.poly.entails_ge(v) and st.poly.entails_ge(C(1) - v):
            return C(1) if not st.eq0(v) else ZERO
        raise Undecided('parity of %r' % v)

    def i_getelementptr(self, st, fr, ins):
        b = self.ev(st, fr, ins['a'][0])
        off, var = ins['g']
        if var == '?':
            raise Undecided('gep')
        if not isinstance(b, Ptr):
            if isinstance(b, Lin):
                b = Ptr(0, b)
            elif b is UNDEF:
                return self.setd(st, fr, ins, UNDEF)
            else:
                raise Undecided('gep on %r' % (b,))
        o = b.o + off
        for sc, x, t in var:
            v = self.ev(st, fr, x)
            if v is UNDEF:
                return self.setd(st, fr, ins, UNDEF)
            v = self.lin(st, v)
            v = view(st, v, width(t), True)
            o = o + v.scale(sc)
        self.setd(st, fr, ins, Ptr(b.r, st.poly.norm(o)))

    def lin(self, st, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Ptr) and v.r == 0:
            return v.o
        raise Undecided('integer from %r' % (v,))

    def i_icmp(self, st, fr, ins):
        a = self.ev(st, fr, ins['a'][0])
        b = self.ev(st, fr, ins['a'][1])
        r = self.icmp(st, ins['p'], a, b, ins['ct'])
        self.setd(st, fr, ins, C(1) if r else ZERO)

    def icmp(self, st, p, a, b, t):
        if a is UNDEF or b is UNDEF:
            self.spec.memerr(st, 'undef', 'comparison of an uninitialised value')
            raise Stop()
        if isinstance(a, Ptr) and not isinstance(b, Ptr) and isinstance(b, Lin):
            b = Ptr(0, b)
        if isinstance(b, Ptr) and not isinstance(a, Ptr) and isinstance(a, Lin):
            a = Ptr(0, a)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            h = self.spec.ptr_cmp(st, p, a, b)
            if h is not None:
                return h
            if a.r == b.r:
                d = a.o - b.o
                return self.cmp0(st, p, d)
            if p == 'eq':
                return False
            if p == 'ne':
                return True
            if b.r == 0 and b.o.is_const() and b.o.c == 0:
                return p in ('ugt', 'uge')
            if a.r == 0 and a.o.is_const() and a.o.c == 0:
                return p in ('ult', 'ule')
            v = st.choose('relative order of unrelated objects')
            st.approx('order of unrelated addresses')
            return bool(v)
        if isinstance(a, FnV) or isinstance(b, FnV):
            if p in ('eq', 'ne'):
                return (a == b) == (p == 'eq')
        if isinstance(a, Lin) and isinstance(b, Lin):
            if t == 'ptr':
                t = 'i64'
            w = width(t)
            if p in ('eq', 'ne'):
                d = st.poly.norm(a - b)
                if not d.t:
                    r = d.c % (1 << w) == 0
                    return r == (p == 'eq')
                if not ((inrange(st, a, w, False) and inrange(st, b, w, False)) or (inrange(st, a, w, True) and inrange(st, b, w, True))):
                    a = view(st, a, w, False)
                    b = view(st, b, w, False)
                    d = a - b
                return st.eq0(d) == (p == 'eq')
            s = p[0] == 's'
            a = view(st, a, w, s)
            b = view(st, b, w, s)
            d = a - b
            q = p[1:]
            if q == 'ge':
                return st.ge(d)
            if q == 'gt':
                return st.ge(d - 1)
            if q == 'lt':
                return st.ge((-d) - 1)
            if q == 'le':
                return st.ge(-d)
        if isinstance(a, Opq) and isinstance(b, Opq) and a == b and p in ('eq', 'ne', 'uge', 'ule', 'sge', 'sle'):
            return p != 'ne'
        if isinstance(a, Opq) or isinstance(b, Opq):
            h = self.spec.opq_cmp(st, p, a, b)
            if h is not None:
                return h
            v = st.choose('opaque comparison')
            st.approx('opaque comparison')
            return bool(v)
        raise Undecided('comparison of %r and %r' % (a, b))

    def cmp0(self, st, p, d):
        if p == 'eq':
            return st.eq0(d)
        if p == 'ne':
            return not st.eq0(d)
        q = p[1:]
        if q == 'ge':
            return st.ge(d)
        if q == 'gt':
            return st.ge(d - 1)
        if q == 'lt':
            return st.ge((-d) - 1)
        return st.ge(-d)

    def i_fcmp(self, st, fr, ins):
        v = st.choose('floating comparison')
        st.approx('floating point')
        self.setd(st, fr, ins, C(v))

    def arith(self, st, fr, ins):
        o = ins['o']
        t = ins['t']
        a = self.ev(st, fr, ins['a'][0])
        b = self.ev(st, fr, ins['a'][1])
        if a is UNDEF or b is UNDEF:
            return self.setd(st, fr, ins, UNDEF)
        w = width(t)
        if w == 1:
            a = self.bit(st, a).c
            b = self.bit(st, b).c
            v = {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}.get(o)
            if v is None:
                raise Undecided('bit ' + o)
            return self.setd(st, fr, ins, C(v))
        if isinstance(a, FnV) or isinstance(b, FnV):
            # tag bits of member function pointers
            if o == 'and' and isinstance(b, Lin) and b.is_const() and b.c == 1:
                return self.setd(st, fr, ins, ZERO)
            raise Undecided('arithmetic on a function address')
        if isinstance(a, Ptr) and a.r == 0:
            a = a.o
        if isinstance(b, Ptr) and b.r == 0:
            b = b.o
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if o == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r == b.r:
                    return self.setd(st, fr, ins, st.poly.norm(a.o - b.o))
                return self.setd(st, fr, ins, st.poly.norm(self.base(st, a) + a.o - self.base(st, b) - b.o))
            if o in ('add', 'sub') and isinstance(a, Ptr) and isinstance(b, Lin):
                return self.setd(st, fr, ins, Ptr(a.r, a.o + b if o == 'add' else a.o - b))
            if o == 'add' and isinstance(b, Ptr):
                return self.setd(st, fr, ins, Ptr(b.r, b.o + a))
            raise Undecided('arithmetic on addresses')
        if isinstance(a, Opq) or isinstance(b, Opq):
            return self.setd(st, fr, ins, Opq())
        a = st.poly.norm(a)
        b = st.poly.norm(b)
        M = 1 << w
        if o == 'add':
            v = a + b
        elif o == 'sub':
            v = a - b
        elif o == 'mul':
            if not a.t:
                v = b.scale(view(st, a, w, True).c)
            elif not b.t:
                v = a.scale(view(st, b, w, True).c)
            else:
                v = self.nonlinear(st, a, b, w)
        elif o == 'shl':
            if b.t:
                raise Undecided('shift by a variable')
            v = a.scale(1 << b.c)
        elif o in ('udiv', 'urem', 'lshr', 'sdiv', 'srem', 'ashr'):
            s = o in ('sdiv', 'srem', 'ashr')
            b = view(st, b, w, s and o != 'ashr')
            if b.t:
                raise Undecided('division by a variable')
            k = b.c
            if o in ('lshr', 'ashr'):
                k = 1 << k
            if k == 0:
                self.spec.memerr(st, 'undef', 'division by zero')
                raise Stop()
            a = view(st, a, w, s)
            q, r = self.divmod(st, a, k, s and o != 'ashr')
            v = r if o in ('urem', 'srem') else q
        elif o == 'and':
            if not a.t and not b.t:
                v = C((a.c % M) & (b.c % M))
            else:
                x, k = (a, b) if not b.t else (b, a)
                if k.t:
                    raise Undecided('bitwise and')
                m = k.c % M
                if (m & (m + 1)) == 0:
                    x = view(st, x, w, False)
                    v = self.divmod(st, x, m + 1, False)[1]
                elif (M - m) & (M - m - 1) == 0:
                    x = view(st, x, w, False)
                    v = x - self.divmod(st, x, M - m, False)[1]
                else:
                    raise Undecided('bitwise and')
        elif o in ('or', 'xor'):
            if not a.t and not b.t:
                v = C((a.c % M) | (b.c % M) if o == 'or' else (a.c % M) ^ (b.c % M))
            elif not b.t and b.c == 0:
                v = a
            elif not a.t and a.c == 0:
                v = b
            elif o == 'xor' and not b.t and b.c % M == M - 1:
                v = C(-1) - a
            else:
                raise Undecided('bitwise ' + o)
        else:
            raise Undecided(o)
        if not v.t:
            c = v.c % M
            if c >= M // 2:
                c -= M
            v = C(c)
        if ins.get('nsw') and v.t and self.spec.check_overflow:
            a2 = self.sview_quiet(st, v, w)
            if a2:
                if not st.ge(v + (M // 2)) or not st.ge(C(M // 2 - 1) - v):
                    self.spec.overflow(st, '%s of %r and %r' % (o, a, b))
        self.setd(st, fr, ins, st.poly.norm(v))

    def sview_quiet(self, st, v, w):
        M = 1 << w
        return not (st.poly.entails_ge(v + (M // 2)) and st.poly.entails_ge(C(M // 2 - 1) - v))

    def nonlinear(self, st, a, b, w):
        key = ('mul', a, b)
        v = st.objs.get(key)
        if v is None:
            v = st.sym('m')
            st.objs[key] = v
            if st.poly.entails_ge(a) and st.poly.entails_ge(b):
                st.assume(v)
            st.approx('product of two variables')
        return v

    def divmod(self, st, a, k, signed):
        """a = k*q + r, truncating when signed"""
        a = st.poly.norm(a)
        if not a.t:
            if signed and a.c < 0:
                q = -((-a.c) // k) if k > 0 else (-a.c) // (-k)
            else:
                q = a.c // k if k > 0 else -(a.c // -k)
            return C(q), C(a.c - q * k)
        # exact division by coefficients
        if all(c % k == 0 for _, c in a.t):
            base = Lin(0, tuple((s, c // k) for s, c in a.t))
            rest = a.c % k
            if rest == 0:
                return base + (a.c // k), ZERO
            if not signed or st.ge(a):
                return base + (a.c // k), C(rest)
        if signed and not st.ge(a):
            q, r = self.divmod(st, -a, k, False)
            return -q, -r
        if k < 0:
            raise Undecided('division by a negative number')
        key = ('div', a, k)
        q = st.objs.get(key)
        if q is None:
            q = Lin.sym(fresh('q'))
            st.objs[key] = q
            st.assume(a - q.scale(k), q.scale(k) + (k - 1) - a)
        return q, a - q.scale(k)

    def i_cast(self, st, fr, ins):
        o = ins['o']
        v = self.ev(st, fr, ins['a'][0])
        if v is UNDEF:
            return self.setd(st, fr, ins, UNDEF)
        if o in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if o == 'inttoptr' and isinstance(v, Lin):
                v = Ptr(0, v)
            elif o == 'ptrtoint' and isinstance(v, Ptr) and v.r == 0:
                v = v.o
            return self.setd(st, fr, ins, v)
        if o in ('sitofp', 'uitofp', 'fpext', 'fptrunc'):
            return self.setd(st, fr, ins, Opq())
        if o in ('fptosi', 'fptoui'):
            st.approx('floating point')
            w = width(ins['t'])
            return self.setd(st, fr, ins, st.sym('f', 0, (1 << w) - 1))
        if isinstance(v, (Ptr, Opq, FnV)):
            return self.setd(st, fr, ins, v if o != 'trunc' else Opq())
        w0 = width(ins['st'])
        w1 = width(ins['t'])
        if o == 'trunc':
            if w1 == 1:
                v = self.bit(st, v)
            elif not v.t:
                c = v.c % (1 << w1)
                v = C(c - (1 << w1) if c >= 1 << (w1 - 1) else c)
        elif o == 'zext':
            v = view(st, v, w0, False)
        elif o == 'sext':
            v = view(st, v, w0, True) if w0 > 1 else C(-v.c)
        self.setd(st, fr, ins, v)

    def i_select(self, st, fr, ins):
        c = self.ev(st, fr, ins['a'][0])
        c = self.cond(st, c)
        self.setd(st, fr, ins, self.ev(st, fr, ins['a'][1 if c else 2]))

    def cond(self, st, c):
        if c is UNDEF:
            self.spec.memerr(st, 'undef', 'decision on an uninitialised value')
            raise Stop()
        if isinstance(c, Opq):
            st.approx('opaque condition')
            return bool(st.choose('opaque condition'))
        return self.bit(st, c).c == 1

    def i_freeze(self, st, fr, ins):
        self.setd(st, fr, ins, self.ev(st, fr, ins['a'][0]))

    def i_br(self, st, fr, ins):
        s = ins['s']
        if len(s) == 1:
            return self.goto(st, fr, s[0])
        c = self.cond(st, self.ev(st, fr, ins['a'][0]))
        self.goto(st, fr, s[0] if c else s[1])

    def i_switch(self, st, fr, ins):
        v = self.ev(st, fr, ins['a'][0])
        if v is UNDEF:
            self.spec.memerr(st, 'undef', 'switch on an uninitialised value')
            raise Stop()
        for c, b in ins['cases']:
            c = int(c)
            if self.icmp(st, 'eq', v, C(c), 'i%d' % ins['w']):
                return self.goto(st, fr, b)
        self.goto(st, fr, ins['def'])

    def goto(self, st, fr, b):
        prev = fr.b
        fn = fr.fn
        blk = fn['blocks'][b]
        # phis
        i = 0
        vals = []
        for ins in blk['i']:
            if ins['o'] != 'phi':
                break
            i += 1
            for pb, x in ins['a']:
                if pb == prev:
                    vals.append((ins['d'], self.ev(st, fr, x)))
                    break
        back = False
        if blk['head']:
            back = b in (fn['blocks'][prev].get('loops') or ())
            if back:
                for d in fn['loopdefs'][b]:
                    fr.regs.pop(d, None)
        for d, v in vals:
            fr.regs[d] = v
        fr.prev = prev
        fr.b = b
        fr.i = i
        if blk['head']:
            self.loop_head(st, fr, b, back)

    def loop_head(self, st, fr, b, back):
        self.stats['heads'] += 1
        n = fr.visits.get(b, 0) + 1 if back else 0
        fr.visits[b] = n
        h = self.spec.loop_head
        if h is not None:
            h(st, fr, b, back, n)
        if self.spec.liveness:
            from .liveness import prune, forget_symbols
            prune(st)
        if back:
            self.spec.fold(st)
        cn = Canon(st)
        key = cn.state(('head', b))
        if self.spec.liveness:
            forget_symbols(st, cn.order)
            if st.poly.bad:
                raise Stop()
        hs = self.heads.setdefault(key, [])
        for sp, inex in hs:
            if inex and not st.inexact and n < self.widen_from:
                continue
            if sp.includes(st.poly, cn.order):
                self.stats['joined'] += 1
                raise Stop()
        if n > self.max_visits:
            raise Undecided('loop not closed')
        if n and n % 16 == 0 and n < self.widen_from and not st.inexact and st.poly.model() is None:
            # only rational points are left, or the search gives up
            raise Undecided('no integer point found for this path')
        if n >= self.widen_from:
            cn2 = Canon(st, True)
            k2 = ('wide',) + cn2.state(('head', b))
            old, times = self.wide.get(k2, (None, 0))
            if old is not None:
                if old.includes(st.poly, cn2.order):
                    self.stats['joined'] += 1
                    raise Stop()
                self.widen(st, cn2, old, times)
                cn = Canon(st)
                key = cn.state(('head', b))
                hs = self.heads.setdefault(key, [])
                for sp, inex in hs:
                    if inex and not st.inexact:
                        continue
                    if sp.includes(st.poly, cn.order):
                        self.stats['joined'] += 1
                        raise Stop()
                cn2 = Canon(st, True)
                k2 = ('wide',) + cn2.state(('head', b))
            self.wide[k2] = (SlotPoly(st.poly.copy(), list(cn2.order)), times + 1)
        hs.append((SlotPoly(st.poly.copy(), list(cn.order)), st.inexact))

    def widen(self, st, cn, old, n):
        """generalise the state to one that contains the old one as well"""
        oldc = old.cons()
        if old.failed:
            return
        order = cn.order
        keep = []
        for t, c in oldc:
            e = old.at(t, c, order)
            if st.poly.entails_ge(e):
                keep.append((t, c))
        if n <= 3:
            op = Poly()
            for t, c in oldc:
                op.add_ge(Lin(c, t))
            kp = Poly()
            for t, c in keep:
                kp.add_ge(Lin(c, t))
            m1 = op.model() or {}
            for cand in candidates(old, len(order)):
                e = ZERO
                f = ZERO
                for i, k in cand:
                    e = e + Lin.sym(old.slots[i], k)
                    f = f + order[i].scale(k)
                # constant for which it is an equality in both, or a sign
                cs = {op.value(m1, -e) if m1 or not e.t else 0, 0}
                if n <= 1 and len(cand) == 1 and cand[0][1] < 0:
                    cs.update(BOUNDS)
                    cs.update(self.bounds)
                for c in cs:
                    x = e + c
                    if not kp.entails_ge(x) and op.entails_ge(x) and st.poly.entails_ge(f + c):
                        keep.append((x.t, x.c))
                        kp.add_ge(x)
        for coef, c in affine_join(old, oldc, st.poly, order):
            e = C(c)
            for i, k in coef:
                e = e + Lin.sym(old.slots[i], k)
            keep.append((e.t, e.c))
            e = -e
            keep.append((e.t, e.c))
        newp = Poly()
        m = dict(zip(old.slots, [Lin.sym(fresh('w')) for _ in order]))
        for t, c in keep:
            e = C(c)
            for s, k in t:
                e = e + m[s].scale(k)
            newp.add_ge(e)
        mp = {}
        for s, e in zip(old.slots, order):
            mp[e] = m[s]
        rw = Rewriter(st, mp)
        rw.apply(cn.rorder)
        st.poly = newp
        st.objs = {k: v for k, v in st.objs.items() if not isinstance(v, Lin)}
        st.approx('loop generalisation')
        st.note('generalised at a loop head')
        self.stats['widened'] = self.stats.get('widened', 0) + 1

    def i_extractvalue(self, st, fr, ins):
        v = self.ev(st, fr, ins['a'][0])
        for i in ins['ix']:
            if v is UNDEF:
                break
            if not isinstance(v, Agg):
                raise Undecided('extractvalue of %r' % (v,))
            v = v.v[i]
        self.setd(st, fr, ins, v)

    def i_insertvalue(self, st, fr, ins):
        v = self.ev(st, fr, ins['a'][0])
        x = self.ev(st, fr, ins['a'][1])
        self.setd(st, fr, ins, ins_agg(v, ins['ix'], x, ins['t']))

    def i_ret(self, st, fr, ins):
        v = self.ev(st, fr, ins['a'][0]) if ins.get('a') else None
        self.spec.on_return(st, fr, v)
        self.leave(st, fr)
        if not st.frames:
            st.ret = v
            st.exc = None
            return
        self.resume_call(st, v)

    def leave(self, st, fr):
        for a in fr.allocas:
            if a in st.regions:
                del st.regions[a]
        st.frames.pop()

    def resume_call(self, st, v):
        """continue after the call instruction of the top frame"""
        fr = st.frames[-1]
        ins = fr.fn['blocks'][fr.b]['i'][fr.i]
        if 'd' in ins:
            fr.regs[ins['d']] = v
        if ins['o'] == 'invoke':
            self.goto(st, fr, ins['s'][0])
        else:
            fr.i += 1

    def throw(self, st, payload):
        st.exc = payload
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn['blocks'][fr.b]['i'][fr.i]
            if ins['o'] == 'invoke':
                st.note('%s: exception unwinds' % loc(fr))
                self.goto(st, fr, ins['s'][1])
                return
            self.spec.on_unwind(st, fr)
            self.leave(st, fr)

    def i_landingpad(self, st, fr, ins):
        typed = 'type' in ins['clauses']
        self.setd(st, fr, ins, Agg([Ptr(st.new_region('opaque', 64, 'exception', 'opaque').rid), Opq('sel:%s' % (st.exc,))]))

    def i_resume(self, st, fr, ins):
        exc = st.exc or 'user'
        self.spec.on_unwind(st, fr)
        self.leave(st, fr)
        self.throw(st, exc)

    def i_unreachable(self, st, fr, ins):
        raise Stop()

    def i_fence(self, st, fr, ins):
        fr.i += 1

    def i_fop(self, st, fr, ins):
        self.setd(st, fr, ins, Opq())

    def i_cmpxchg(self, st, fr, ins):
        p, exp, new = [self.ev(st, fr, x) for x in ins['a']]
        h = self.spec.atomic_cas
        if h is not None:
            self.snap = st.clone()
            fr = st.frames[-1]
            r = h(st, p, ins['z'], exp, new)
            if r is not None:
                return self.setd(st, fr, ins, Agg([r[0], C(1) if r[1] else ZERO]))
        cur = self.load(st, p, ins['z'], 'i%d' % (8 * ins['z']))
        ok = self.icmp(st, 'eq', cur, exp, 'i%d' % (8 * ins['z']))
        if ok:
            self.store(st, p, ins['z'], new)
        self.setd(st, fr, ins, Agg([cur, C(1) if ok else ZERO]))

    def i_atomicrmw(self, st, fr, ins):
        p, x = [self.ev(st, fr, a) for a in ins['a']]
        t = 'i%d' % (8 * ins['z'])
        k = ins['rmw']
        h = self.spec.atomic_rmw
        if h is not None:
            self.snap = st.clone()
            fr = st.frames[-1]
            r = h(st, p, ins['z'], k, x)
            if r is not None:
                return self.setd(st, fr, ins, r)
        cur = self.load(st, p, ins['z'], t)
        if k == 'xchg':
            v = x
        elif k == 'add':
            v = self.lin(st, cur) + x
        elif k == 'sub':
            v = self.lin(st, cur) - x
        else:
            raise Undecided('atomicrmw ' + k)
        self.store(st, p, ins['z'], v)
        self.setd(st, fr, ins, cur)

    def i_call(self, st, fr, ins):
        self.stats['calls'] += 1
        f = ins['f']
        if f.__class__ is list and f[0] == 'f':
            name = f[1]
        else:
            v = self.ev(st, fr, f)
            if isinstance(v, FnV):
                name = v.n
            else:
                self.snap = st.clone()
                args = [self.ev(st, st.frames[-1], a) for a in ins['a']]
                r = self.spec.indirect(st, v, args, ins)
                if r is NotImplemented:
                    raise Undecided('indirect call')
                return self.resume_call(st, r)
        fn = self.p.fns.get(name)
        if fn is None:
            raise Undecided('unknown callee ' + name)
        args = [self.ev(st, fr, a) for a in ins['a']]
        h = self.find_model(fn)
        if h is not None:
            self.snap = st.clone()
            try:
                r = h(self, st, fn, args, ins)
            except Throw as t:
                return self.throw(st, t.payload)
            if r is NotImplemented:
                h = None
            elif r is ENTERED:
                return
            else:
                return self.resume_call(st, r)
        if fn['decl']:
            raise Undecided('external ' + fn['dem'])
        if 'byval' in ins:
            i, z = ins['byval']
            r = st.new_region('stack', z, 'byval')
            self.copy_bytes(st, Ptr(r.rid), args[i], C(z))
            args[i] = Ptr(r.rid)
        self.push_frame(st, fn, args)

    def find_model(self, fn):
        h = self.mcache.get(fn['sym'], 0)
        if h == 0:
            h = None
            for m in self.models:
                h = m(self, fn)
                if h is not None:
                    break
            self.mcache[fn['sym']] = h
        return h


ENTERED = object()


def agg_elems(t):
    """element type strings of an aggregate type"""
    if t.startswith('['):
        n, et = t[1:-1].split('x', 1)
        return [et] * int(n)
    out = []
    d = 0
    cur = ''
    for ch in t[1:-1]:
        if ch in '{[':
            d += 1
        if ch in '}]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


def agg_len(t):
    return len(agg_elems(t))


def ty_size_align(t):
    if t == 'ptr' or t == 'f64':
        return 8, 8
    if t == 'f32':
        return 4, 4
    if t == 'f80':
        return 16, 16
    if t.startswith('i'):
        w = int(t[1:])
        b = max(1, (w + 7) // 8)
        return b, b
    if t.startswith('['):
        es = agg_elems(t)
        if not es:
            return 0, 1
        s, a = ty_size_align(es[0])
        return s * len(es), a
    off = 0
    al = 1
    for e in agg_elems(t):
        s, a = ty_size_align(e)
        off = (off + a - 1) // a * a + s
        al = max(al, a)
    return (off + al - 1) // al * al, al


def agg_layout(t):
    out = []
    off = 0
    if t.startswith('['):
        for e in agg_elems(t):
            s, a = ty_size_align(e)
            out.append((off, s, e))
            off += s
        return out
    for e in agg_elems(t):
        s, a = ty_size_align(e)
        off = (off + a - 1) // a * a
        out.append((off, s, e))
        off += s
    return out


def agg_cells(v, size):
    """cells of a first class aggregate store; all members pointers/ints of
    equal size is the common case"""
    n = len(v.v)
    z = size // n if n else 0
    out = []
    for i, x in enumerate(v.v):
        if isinstance(x, Agg):
            for o, zz, y in agg_cells(x, z):
                out.append((i * z + o, zz, y))
        else:
            out.append((i * z, z, x))
    return out


def agg_typed(v, t):
    out = []
    for (o, z, et), x in zip(agg_layout(t), v.v):
        if isinstance(x, Agg):
            for oo, zz, y in agg_typed(x, et):
                out.append((o + oo, zz, y))
        else:
            out.append((o, z, x))
    return out


def ins_agg(v, ix, x, t=None):
    if not ix:
        return x
    if v is UNDEF:
        v = Agg([UNDEF] * (agg_len(t) if t else ix[0] + 1))
    l = list(v.v)
    l[ix[0]] = ins_agg(l[ix[0]], ix[1:], x)
    return Agg(l)


DISPATCH = {
    'alloca': Engine.i_alloca, 'load': Engine.i_load, 'store': Engine.i_store,
    'getelementptr': Engine.i_getelementptr, 'icmp': Engine.i_icmp, 'fcmp': Engine.i_fcmp,
    'select': Engine.i_select, 'freeze': Engine.i_freeze, 'br': Engine.i_br, 'switch': Engine.i_switch,
    'extractvalue': Engine.i_extractvalue, 'insertvalue': Engine.i_insertvalue, 'ret': Engine.i_ret,
    'landingpad': Engine.i_landingpad, 'resume': Engine.i_resume, 'unreachable': Engine.i_unreachable,
    'fence': Engine.i_fence, 'cmpxchg': Engine.i_cmpxchg, 'atomicrmw': Engine.i_atomicrmw,
    'call': Engine.i_call, 'invoke': Engine.i_call,
}
for _o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
    DISPATCH[_o] = Engine.arith
for _o in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'fptosi', 'fptoui'):
    DISPATCH[_o] = Engine.i_cast
for _o in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem'):
    DISPATCH[_o] = Engine.i_fop


class Spec:
    pure_end = False
    liveness = False
    """defaults of the specification hooks"""
    on_load = None
    on_store = None
    on_copy = None
    atomic_load = None
    atomic_store = None
    atomic_cas = None
    atomic_rmw = None
    loop_head = None
    check_overflow = False
    mem_props = {}

    def memerr(self, st, kind, msg):
        p = self.mem_props.get(kind) or self.mem_props.get('*')
        if p is None:
            raise Undecided('memory error outside the property: ' + msg)
        for q in (p if isinstance(p, (tuple, list)) else (p,)):
            self.eng.report(st, q, 'memory: ' + kind, msg)

    def overflow(self, st, msg):
        pass

    def ptr_cmp(self, st, p, a, b):
        return None

    def opq_cmp(self, st, p, a, b):
        return None

    def on_return(self, st, fr, v):
        pass

    def on_unwind(self, st, fr):
        pass

    def fold(self, st):
        pass

    def indirect(self, st, v, args, ins):
        return NotImplemented
