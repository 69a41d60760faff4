"""Models of the language runtime, opaque harness objects and std containers."""
import re
from .poly import Lin, C, ZERO, fresh, symname
from .engine import (Engine, Ptr, NULL, FnV, UNDEF, Agg, Obj, Model, Opq, Undecided, Stop, Throw, ENTERED,
                     view, width, loc)

# --- sequences ---------------------------------------------------------------
# tuple of segments: ('e', blob) one element, ('x', var, rev, len) unknown run


def seglen(s):
    return C(1) if s[0] == 'e' else s[3]


def seqlen(segs):
    n = ZERO
    for s in segs:
        n = n + (1 if s[0] == 'e' else s[3])
    return n


def seqnorm(st, segs):
    out = []
    for s in segs:
        if s[0] == 'x' and st.poly.entails_ge(-s[3]):
            continue
        out.append(s)
    return tuple(out)


def new_var(st, name='x', minlen=0, length=None):
    v = fresh(name)
    if length is None:
        n = Lin.sym(fresh('n_' + name))
        st.poly.add_ge(n - minlen)
        st.poly.add_ge(C(1 << 40) - n)
    else:
        n = length
    return ('x', v, False, n)


def substitute(st, var, repl):
    """replace the forward run of a variable by other segments everywhere"""
    back = tuple(rev_seg(s) for s in reversed(repl))

    def sub(segs):
        if not any(s[0] == 'x' and s[1] == var for s in segs):
            return segs
        out = []
        for s in segs:
            if s[0] == 'x' and s[1] == var:
                out.extend(back if s[2] else repl)
            else:
                out.append(s)
        return tuple(out)
    for rid in list(st.regions):
        r = st.regions[rid]
        if r.kind == 'seq' and r.data is not None:
            n = sub(r.data)
            if n is not r.data:
                st.w(rid).data = n
    g = st.ghost
    if g is not None:
        for k in getattr(g, 'seqs', ()):
            v = getattr(g, k)
            if v is not None:
                setattr(g, k, sub(v))


def rev_seg(s):
    if s[0] == 'e':
        return s
    return ('x', s[1], not s[2], s[3])


def seqrev(segs):
    return tuple(rev_seg(s) for s in reversed(segs))


def locate(e, st, rid, idx):
    """position of the element with index idx as a single 'e' segment. The
    index is known to be inside the sequence."""
    for _ in range(12):
        r = st.regions[rid]
        segs = r.data
        pos = ZERO
        for i, s in enumerate(segs):
            n = seglen(s)
            d = st.poly.norm(idx - pos)
            if st.ge((n - 1) - d):
                if s[0] == 'e':
                    return i
                split_elem(e, st, s, d, r.meta.get('ety'))
                break
            pos = pos + n
        else:
            return None
    raise Undecided('element search')


def split_elem(e, st, s, k, ety):
    """split variable segment s (as it appears) so that its element at local
    index k becomes explicit"""
    n = s[3]
    if s[2]:
        k = n - 1 - k
    a = ('x', fresh('x'), False, k)
    b = ('x', fresh('x'), False, n - 1 - k)
    blob = e.spec.fresh_elem(st, ety)
    e.spec.on_split(st, s[1], a[1], blob, b[1])
    repl = (a, ('e', blob), b)
    repl = seqnorm(st, repl)
    substitute(st, s[1], repl)


def cut(e, st, rid, idx):
    """make idx a segment boundary, returns the segment position"""
    for _ in range(12):
        segs = st.regions[rid].data
        pos = ZERO
        for i, s in enumerate(segs):
            d = st.poly.norm(idx - pos)
            if st.eq0(d):
                return i
            n = seglen(s)
            if s[0] == 'x':
                if not st.ge(d - n):
                    k = d
                    if s[2]:
                        k = n - d
                    a = ('x', fresh('x'), False, k)
                    b = ('x', fresh('x'), False, n - k)
                    e.spec.on_split(st, s[1], a[1], None, b[1])
                    substitute(st, s[1], (a, b))
                    break
            pos = pos + n
        else:
            d = st.poly.norm(idx - pos)
            if st.eq0(d):
                return len(segs)
            return None
    raise Undecided('cut search')


def fold_state(st):
    """merge neighbouring segments that nothing distinguishes: elements only
    the sequences themselves mention, standing next to each other wherever
    they occur"""
    seqs = []
    used = set()

    def idents(v):
        if isinstance(v, Obj):
            used.add(v.id)
        elif isinstance(v, Opq):
            used.add(v.id)
        elif isinstance(v, Ptr):
            used.add(('r', v.r))
        elif isinstance(v, Lin):
            for x in v.syms():
                used.add(x)
        elif isinstance(v, Agg):
            for x in v.v:
                idents(x)
        elif isinstance(v, (list, tuple, set, frozenset)):
            for x in v:
                idents(x)
        elif isinstance(v, dict):
            for k, x in v.items():
                idents(k)
                idents(x)
    for f in st.frames:
        for v in f.regs.values():
            idents(v)
    for r in st.regions.values():
        if r.kind == 'seq':
            if r.data is not None:
                seqs.append(r.data)
        elif r.kind != 'global':
            for z, v in r.cells.values():
                idents(v)
    g = st.ghost
    names = getattr(g, 'seqs', ()) if g is not None else ()
    if g is not None:
        for k, v in g.__dict__.items():
            if k in names:
                if v is not None:
                    seqs.append(v)
            elif not k.startswith('_'):
                idents(v)

    def key(s):
        return s[1] if s[0] == 'x' else ('e', s[1])

    def free(s):
        if s[0] == 'x':
            return True
        if len(s[1]) == 1 and isinstance(s[1][0][2], Ptr) and not s[1][0][2].r:
            return False
        for o, z, v in s[1]:
            if isinstance(v, Obj):
                if v.st != 'live' or isinstance(v.id, str) or v.id in used:
                    return False
            elif isinstance(v, (Opq,)):
                if v.id in used:
                    return False
            elif isinstance(v, Ptr):
                if v.r and v.r in st.regions and st.regions[v.r].meta.get('any'):
                    continue
                if v.r and (('r', v.r) in used or v.r not in st.regions or (not st.regions[v.r].alive) or (st.regions[v.r].kind != 'token' and not st.regions[v.r].meta.get('token'))):
                    return False
            elif not (isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][0] not in used):
                return False
        return True
    bad = set()
    for data in seqs:
        for s in data:
            if not free(s):
                bad.add(key(s))
    # lone elements become runs of one
    changed = {}
    for data in seqs:
        for s in data:
            k = key(s)
            if s[0] == 'e' and k not in bad and k not in changed:
                changed[k] = ('x', fresh('x'), False, C(1))
    if changed:
        def sub(segs):
            return tuple(changed.get(key(s), s) if s[0] == 'e' else s for s in segs)
        for rid in list(st.regions):
            r = st.regions[rid]
            if r.kind == 'seq' and r.data is not None and any(s[0] == 'e' and key(s) in changed for s in r.data):
                st.w(rid).data = sub(r.data)
        for k in names:
            v = getattr(g, k)
            if v is not None:
                setattr(g, k, sub(v))
    for _ in range(40):
        if not merge_pair(st, g, names):
            break


def merge_pair(st, g, names):
    seqs = [r.data for r in st.regions.values() if r.kind == 'seq' and r.data is not None]
    seqs += [getattr(g, k) for k in names if getattr(g, k) is not None]
    lens = {}
    for data in seqs:
        for s in data:
            if s[0] == 'x':
                lens[s[1]] = s[3]
    # runs of one element have no direction
    single = set(v for v, n in lens.items() if not n.t and n.c == 1)
    occ = {}
    for data in seqs:
        for s in data:
            if s[0] == 'x':
                occ[s[1]] = occ.get(s[1], 0) + 1
    for data in seqs:
        for i in range(len(data) - 1):
            a, b = data[i], data[i + 1]
            if a[0] != 'x' or b[0] != 'x' or a[1] == b[1]:
                continue
            if occ[a[1]] != occ[b[1]]:
                continue
            # forward order (va, vb): b follows a here
            ra, rb = a[2], b[2]
            if a[1] in single and b[1] in single:
                ra = rb = False
            elif a[1] in single:
                ra = rb
            elif b[1] in single:
                rb = ra
            if ra != rb:
                continue
            x, y = (a[1], b[1]) if not ra else (b[1], a[1])
            ok = True
            cnt = 0
            for dd in seqs:
                for k, s in enumerate(dd):
                    if s[0] == 'x' and s[1] == x:
                        f = dd[k + 1] if k + 1 < len(dd) else None
                        p = dd[k - 1] if k else None
                        fw = f is not None and f[0] == 'x' and f[1] == y and (x in single or not s[2]) and (y in single or not f[2])
                        bw = p is not None and p[0] == 'x' and p[1] == y and (x in single or s[2]) and (y in single or p[2])
                        if not fw and not bw:
                            ok = False
                            break
                        cnt += 1
                if not ok:
                    break
            if not ok or cnt != occ[x]:
                continue
            v = fresh('x')
            ln = lens[x] + lens[y]

            def sub(segs):
                out = []
                k = 0
                while k < len(segs):
                    s = segs[k]
                    t = segs[k + 1] if k + 1 < len(segs) else None
                    if t is not None and s[0] == 'x' and t[0] == 'x':
                        if s[1] == x and t[1] == y and (x in single or not s[2]) and (y in single or not t[2]):
                            out.append(('x', v, False, ln))
                            k += 2
                            continue
                        if s[1] == y and t[1] == x and (x in single or t[2]) and (y in single or s[2]):
                            out.append(('x', v, True, ln))
                            k += 2
                            continue
                    out.append(s)
                    k += 1
                return tuple(out)
            for rid in list(st.regions):
                r = st.regions[rid]
                if r.kind == 'seq' and r.data is not None and any(s[0] == 'x' and s[1] == x for s in r.data):
                    st.w(rid).data = sub(r.data)
            for k in names:
                w = getattr(g, k)
                if w is not None:
                    setattr(g, k, sub(w))
            return True
    return False


def seq_equal(st, a, b):
    """structural equality after normalisation"""
    a = seqnorm(st, a)
    b = seqnorm(st, b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] == 'e':
            if not blob_equal(st, x[1], y[1]):
                return False
        else:
            if x[1] != y[1]:
                return False
            if x[2] != y[2] and not st.poly.entails_ge(C(1) - x[3]):
                return False
    return True


def blob_equal(st, a, b):
    if len(a) != len(b):
        return False
    for (o, z, v), (o2, z2, v2) in zip(a, b):
        if o != o2 or z != z2:
            return False
        if isinstance(v, Lin) and isinstance(v2, Lin):
            if not st.poly.entails_eq(v - v2):
                return False
        elif isinstance(v, Ptr) and isinstance(v2, Ptr):
            if v.r != v2.r or not st.poly.entails_eq(v.o - v2.o):
                return False
        elif v != v2:
            return False
    return True


def show_seq(st, segs):
    out = []
    for s in segs:
        if s[0] == 'e':
            out.append('/'.join(repr(v) for _, _, v in s[1]))
        else:
            out.append('%s%s(%r)' % ('rev ' if s[2] else '', symname(s[1]), st.poly.norm(s[3])))
    return '[' + ', '.join(out) + ']'


def seq_region(e, st, r, off):
    """(element index, inner offset) of a byte offset"""
    z = r.meta['esz']
    off = st.poly.norm(off)
    if any(k % z for _, k in off.t):
        raise Undecided('element address %r' % off)
    idx = Lin(off.c // z, tuple((s, k // z) for s, k in off.t))
    return idx, off.c % z


def seq_elem(e, st, r, off, what='access'):
    """segment position and inner offset, with bounds check"""
    idx, inner = seq_region(e, st, r, off)
    e.spec.on_seq(st, r.rid, 'write' if what == 'write' else 'read')
    n = seqlen(r.data)
    if not st.ge(idx, 'index %r not negative' % idx) or not st.ge(n - 1 - idx, 'index %r below the size %r' % (idx, n)):
        e.spec.memerr(st, 'bounds', '%s of an element outside the container (index %r, size %r)' % (what, idx, st.poly.norm(n)))
        raise Stop()
    i = locate(e, st, r.rid, idx)
    if i is None:
        raise Undecided('element not located')
    return i, inner


def eng_seqload(self, st, r, off, size, t):
    i, inner = seq_elem(self, st, r, off, 'read')
    blob = st.regions[r.rid].data[i][1]
    for o, z, v in blob:
        if o == inner and z == size:
            return self.as_type(st, v, t)
    if t.startswith('{'):
        from .engine import agg_layout
        return Agg([eng_seqload(self, st, st.regions[r.rid], off + o, z, et) for o, z, et in agg_layout(t)])
    for o, z, v in blob:
        if o < inner + size and inner < o + z:
            raise Undecided('partial read of an element')
    return UNDEF


def eng_seqstore(self, st, r, off, size, v):
    i, inner = seq_elem(self, st, r, off, 'write')
    segs = list(st.regions[r.rid].data)
    blob = [c for c in segs[i][1] if not (c[0] < inner + size and inner < c[0] + c[1])]
    if len(blob) < len(segs[i][1]) - 1:
        raise Undecided('wide write to an element')
    for c in segs[i][1]:
        if c not in blob and (c[0] != inner or c[1] != size):
            raise Undecided('partial write to an element')
    blob.append((inner, size, v))
    blob.sort(key=lambda c: c[0])
    segs[i] = ('e', tuple(blob))
    st.w(r.rid).data = tuple(segs)
    self.spec.on_elem_write(st, r, off)


def eng_seqblob(self, st, r, off, size):
    i, inner = seq_elem(self, st, r, off, 'read')
    blob = st.regions[r.rid].data[i][1]
    if inner == 0 and size == r.meta['esz']:
        return blob
    return tuple((o - inner, z, v) for o, z, v in blob if o >= inner and o + z <= inner + size)


def eng_seqput(self, st, r, off, size, nb):
    i, inner = seq_elem(self, st, r, off, 'write')
    segs = list(st.regions[r.rid].data)
    blob = [c for c in segs[i][1] if not (c[0] < inner + size and inner < c[0] + c[1])]
    blob += [(o + inner, z, v) for o, z, v in nb]
    blob.sort(key=lambda c: c[0])
    segs[i] = ('e', tuple(blob))
    st.w(r.rid).data = tuple(segs)
    self.spec.on_elem_write(st, r, off)


Engine.seqload = eng_seqload
Engine.seqstore = eng_seqstore
Engine.seqblob = eng_seqblob
Engine.seqput = eng_seqput


# --- opaque objects ---------------------------------------------------------
def get_obj(e, st, ptr, ty, size, what):
    v = e.load(st, ptr, size, ty)
    if not isinstance(v, Obj) or v.st == 'dead':
        if isinstance(v, Obj) or v is UNDEF:
            e.spec.memerr(st, 'dead', '%s a %s that is not alive' % (what, ty))
            raise Stop()
        raise Undecided('%s object %r' % (what, v))
    return v


def may_throw(st, ins, what):
    if ins is not None and ins.get('nounwind'):
        return
    if what.startswith('copy of ') and what != 'copy of elements' and getattr(st.ghost, 'nothrow', False):
        return
    if st.choose(what, 2, ['returns', 'throws']):
        raise Throw('user')


def construct(e, st, ptr, ty, size, i, ctor):
    v = e.load(st, ptr, size, ty)
    if isinstance(v, Obj) and v.st not in ('dead', 'any'):
        e.spec.memerr(st, 'overwrite', 'construction over a live %s' % ty)
    e.store(st, ptr, size, Obj(ty, i))
    e.spec.on_construct(st, ptr, ty, i, ctor)


class OpaqueClass:
    """copy may throw, move does not"""

    def __init__(self, ty, size, copy_throws=True):
        self.ty = ty
        self.size = size
        self.copy_throws = copy_throws

    def fresh(self, e, st):
        return ((0, self.size, Obj(self.ty, fresh(self.ty.lower()))),)

    def copy_blob(self, e, st, src, ins):
        o = get_obj(e, st, src, self.ty, self.size, 'copy of')
        if self.copy_throws:
            may_throw(st, ins, 'copy of %s' % self.ty)
        return ((0, self.size, Obj(self.ty, o.id, o.st)),)

    def move_blob(self, e, st, src, ins):
        o = get_obj(e, st, src, self.ty, self.size, 'move of')
        e.store(st, src, self.size, Obj(self.ty, o.id, 'moved'))
        return ((0, self.size, Obj(self.ty, o.id, o.st)),)

    def default_blob(self, e, st, ins):
        return ((0, self.size, Obj(self.ty, 'default')),)

    def destroy_blob(self, e, st, blob):
        pass


class PlainClass:
    """trivially copyable"""

    def __init__(self, ty, size, fresh=None):
        self.ty = ty
        self.size = size
        self._fresh = fresh

    def fresh(self, e, st):
        if self._fresh:
            return self._fresh(e, st)
        return ((0, self.size, st.sym('v', 0, (1 << (8 * self.size)) - 1)),)

    def copy_blob(self, e, st, src, ins):
        b = e.blob(st, src, self.size)
        if not b:
            b = ((0, self.size, e.load(st, src, self.size, 'i%d' % (8 * self.size))),)
        return b

    move_blob = copy_blob

    def default_blob(self, e, st, ins):
        return ((0, self.size, ZERO),)

    def destroy_blob(self, e, st, blob):
        pass


class UniquePtr:
    size = 8

    def __init__(self, ty):
        self.ty = ty

    def fresh(self, e, st):
        return e.spec.fresh_unique(st, self.ty)

    def copy_blob(self, e, st, src, ins):
        raise Undecided('copy of unique_ptr')

    def move_blob(self, e, st, src, ins):
        v = e.load(st, src, 8, 'ptr')
        e.store(st, src, 8, NULL)
        return ((0, 8, v),)

    def default_blob(self, e, st, ins):
        return ((0, 8, NULL),)

    def destroy_blob(self, e, st, blob):
        for o, z, v in blob:
            if isinstance(v, Ptr) and v.r != 0:
                e.spec.delete_object(st, v, self.ty)


class SharedPtr:
    """two words: pointer and control block; ownership is not counted"""
    size = 16

    def __init__(self, ty):
        self.ty = ty

    def fresh(self, e, st):
        return e.spec.fresh_shared(st, self.ty)

    def copy_blob(self, e, st, src, ins):
        return e.blob(st, src, 16)

    def move_blob(self, e, st, src, ins):
        b = e.blob(st, src, 16)
        e.put_blob(st, src, 16, ((0, 8, NULL), (8, 8, NULL)))
        return b

    def default_blob(self, e, st, ins):
        return ((0, 8, NULL), (8, 8, NULL))

    def destroy_blob(self, e, st, blob):
        pass


def m_opaque(e, fn):
    """special members of the undefined harness classes"""
    if not fn['decl']:
        return None
    d = fn['dem']
    m = re.match(r'^(\w+)::(~?\w+|operator=|operator==|operator<)\((.*)\)( const)?$', d)
    if not m:
        return None
    cls, mem, args = m.group(1), m.group(2), m.group(3)
    ty = e.spec.classes.get(cls)
    if ty is None or not isinstance(ty, OpaqueClass):
        return None
    size = ty.size
    if mem == cls:
        if args == '':
            def h(e, st, fn, a, ins):
                may_throw(st, ins, 'default construction of %s' % cls)
                construct(e, st, a[0], cls, size, 'default', 'default')
            return h
        if args == cls + ' const&':
            def h(e, st, fn, a, ins):
                b = ty.copy_blob(e, st, a[1], ins)
                construct(e, st, a[0], cls, size, b[0][2].id, 'copy')
                if b[0][2].st == 'moved':
                    e.store(st, a[0], size, b[0][2])
            return h
        if args == cls + '&&':
            def h(e, st, fn, a, ins):
                b = ty.move_blob(e, st, a[1], ins)
                construct(e, st, a[0], cls, size, b[0][2].id, 'move')
                if b[0][2].st == 'moved':
                    e.store(st, a[0], size, b[0][2])
            return h

        def h(e, st, fn, a, ins):
            may_throw(st, ins, 'construction of %s' % cls)
            i = e.spec.value_of(st, cls, a[1:])
            construct(e, st, a[0], cls, size, i, 'value')
        return h
    if mem == '~' + cls:
        def h(e, st, fn, a, ins):
            v = e.load(st, a[0], size, cls)
            if not isinstance(v, Obj) or v.st == 'dead':
                if isinstance(v, Obj) or v is UNDEF:
                    e.spec.memerr(st, 'dead', 'destruction of a %s that is not alive' % cls)
                    raise Stop()
                raise Undecided('destruction of %r' % (v,))
            e.store(st, a[0], size, Obj(cls, v.id, 'dead'))
            e.spec.on_destroy(st, a[0], cls, v)
        return h
    if mem == 'operator=':
        move = args.endswith('&&')

        def h(e, st, fn, a, ins):
            get_obj(e, st, a[0], cls, size, 'assignment to')
            v = get_obj(e, st, a[1], cls, size, 'assignment from')
            if not move:
                may_throw(st, ins, 'copy of %s' % cls)
            elif not (a[0] == a[1]):
                e.store(st, a[1], size, Obj(cls, v.id, 'moved'))
            e.store(st, a[0], size, v)
            e.spec.on_assign(st, a[0], a[1], cls, v, move)
            return a[0]
        return h
    return None


# --- runtime -----------------------------------------------------------------
def r_new(e, st, fn, a, ins):
    n = view(st, a[0], 64, False) if isinstance(a[0], Lin) else None
    if n is None:
        raise Undecided('allocation size')
    r = st.new_region('heap', n, 'allocation at %s' % where(st))
    e.spec.on_alloc(st, r)
    return Ptr(r.rid)


def where(st):
    for f in reversed(st.frames):
        if 'gmlc/containers' in f.fn.get('file', ''):
            return loc(f)
    return ''


def r_delete(e, st, fn, a, ins):
    p = a[0]
    if isinstance(p, Ptr) and p.r == 0:
        return None
    if not isinstance(p, Ptr):
        raise Undecided('delete of %r' % (p,))
    r = st.regions.get(p.r)
    if r is None or not r.alive:
        e.spec.memerr(st, 'free', 'storage released twice')
        raise Stop()
    if r.kind != 'heap' or not st.eq0(p.o):
        e.spec.memerr(st, 'free', 'release of storage that was not allocated (%s)' % r.name)
        raise Stop()
    e.spec.on_free(st, r)
    st.w(p.r).alive = False
    return None


def r_throw(e, st, fn, a, ins):
    raise Throw('std')


def r_cxa_throw(e, st, fn, a, ins):
    raise Throw('thrown')


def r_rethrow(e, st, fn, a, ins):
    raise Throw(st.exc or 'user')


def r_terminate(e, st, fn, a, ins):
    e.spec.on_terminate(st)
    raise Stop()


def r_exc_alloc(e, st, fn, a, ins):
    return Ptr(st.new_region('opaque', 1 << 20, 'exception', 'opaque').rid)


def r_ret_arg0(e, st, fn, a, ins):
    return a[0]


def r_lifetime(e, st, fn, a, ins):
    p = a[1]
    if isinstance(p, Ptr) and p.r in st.regions and st.regions[p.r].kind == 'stack' and not p.o.t and p.o.c == 0:
        st.w(p.r).cells = {}


def r_nop(e, st, fn, a, ins):
    return None


def r_zero(e, st, fn, a, ins):
    return ZERO


def r_memcpy(e, st, fn, a, ins):
    n = a[2] if isinstance(a[2], Lin) else None
    if n is None:
        raise Undecided('memcpy size')
    e.copy_bytes(st, a[0], a[1], view(st, n, 64, False))
    return a[0]


def r_memset(e, st, fn, a, ins):
    n = st.poly.norm(view(st, a[2], 64, False))
    c = a[1]
    h = e.spec.on_fill
    if h is not None and h(st, a[0], c, n):
        return a[0]
    if n.t:
        raise Undecided('memset of symbolic size')
    if n.c == 0:
        return a[0]
    r, off = e.access(st, a[0], n.c, 'write')
    k, over = e.find_cell(st, r, off, n.c)
    if k is not None:
        over = [k]
    if over:
        e.clear_cells(st, r, off, n.c, over)
    if not (isinstance(c, Lin) and not c.t and c.c == 0):
        e.put(st, r.rid, off, n.c, Opq())
    else:
        e.put(st, r.rid, off, n.c, ZERO)
    return a[0]


def r_minmax(kind, signed):
    def h(e, st, fn, a, ins):
        w = width(ins['t'])
        x = view(st, a[0], w, signed)
        y = view(st, a[1], w, signed)
        big = st.ge(x - y)
        return x if big == (kind == 'max') else y
    return h


def r_overflow(op, signed):
    def h(e, st, fn, a, ins):
        w = width(ins['at'][0])
        x = view(st, a[0], w, signed)
        y = view(st, a[1], w, signed)
        if op == 'add':
            v = x + y
        elif op == 'sub':
            v = x - y
        elif not y.t:
            v = x.scale(y.c)
        elif not x.t:
            v = y.scale(x.c)
        else:
            raise Undecided('product')
        lo = -(1 << (w - 1)) if signed else 0
        hi = lo + (1 << w) - 1
        ok = st.ge(v - lo) and st.ge(C(hi) - v)
        return Agg([v, ZERO if ok else C(1)])
    return h


def r_expect(e, st, fn, a, ins):
    return a[0]


def r_typeid(e, st, fn, a, ins):
    return Opq('sel:typeid')


def r_bytes_eq(e, st, fn, a, ins):
    raise Undecided('memcmp')


RT = {
    '_Znwm': r_new, '_Znam': r_new, '_ZnwmSt11align_val_t': r_new, '_ZdlPv': r_delete, '_ZdaPv': r_delete,
    '_ZdlPvm': r_delete, '_ZdaPvm': r_delete, '_ZdlPvSt11align_val_t': r_delete, '_ZnwmRKSt9nothrow_t': r_new, '_ZnamRKSt9nothrow_t': r_new,
    '__cxa_throw': r_cxa_throw, '__cxa_rethrow': r_rethrow, '__cxa_begin_catch': r_ret_arg0,
    '__cxa_end_catch': r_nop, '__cxa_allocate_exception': r_exc_alloc, '__cxa_free_exception': r_nop,
    '_ZSt9terminatev': r_terminate, '__clang_call_terminate': r_terminate, 'llvm.trap': r_terminate,
    'memcpy': r_memcpy, 'memmove': r_memcpy, 'memset': r_memset, 'abort': r_terminate, 'strlen': None,
    '__gxx_personality_v0': r_nop, '__cxa_guard_acquire': r_zero, '__cxa_guard_release': r_nop, '__cxa_atexit': r_zero,
}


def m_runtime(e, fn):
    s = fn['sym']
    h = RT.get(s)
    if h:
        return h
    if s.startswith('llvm.'):
        if s.startswith('llvm.memcpy') or s.startswith('llvm.memmove'):
            return r_memcpy
        if s.startswith('llvm.memset'):
            return r_memset
        p = s.split('.')
        if p[1] in ('umax', 'umin', 'smax', 'smin'):
            return r_minmax(p[1][1:], p[1][0] == 's')
        if len(p) > 3 and p[2] == 'with' and p[3] == 'overflow':
            return r_overflow(p[1][1:], p[1][0] == 's')
        if p[1] == 'lifetime':
            return r_lifetime
        if p[1] in ('dbg', 'assume', 'experimental', 'invariant', 'prefetch', 'donothing', 'stackrestore', 'stacksave'):
            return r_nop
        if p[1] == 'expect':
            return r_expect
        if s.startswith('llvm.is.constant'):
            return r_zero
        if s.startswith('llvm.eh.typeid.for'):
            return r_typeid
        if p[1] == 'abs':
            def h(e, st, fn, a, ins):
                w = width(ins['t'])
                x = view(st, a[0], w, True)
                return x if st.ge(x) else -x
            return h
        return None
    d = fn['dem']
    if d.startswith('std::__throw_') or d.startswith('std::__detail::__throw'):
        return r_throw
    if fn['decl'] and re.match(r'^std::(logic_error|runtime_error|invalid_argument|out_of_range|length_error|bad_alloc|exception|bad_optional_access|system_error|future_error)::', d):
        return r_nop
    if fn['decl'] and re.match(r'^std::\w+::~\w+\(\)$', d) and ('error' in d or 'exception' in d or 'bad_' in d):
        return r_nop
    return None


# --- std::vector, std::deque, std::queue ---------------------------------------
def split_targs(s):
    out = []
    d = 0
    cur = ''
    for ch in s:
        if ch in '<([{':
            d += 1
        if ch in '>)]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def targs(cls):
    i = cls.find('<')
    if i < 0:
        return []
    return split_targs(cls[i + 1:cls.rstrip().rfind('>')])


SEQSIZE = {'vector': 24, 'deque': 80, 'queue': 80}


def seq_of(e, st, ptr, k):
    """region holding the sequence of the container object at ptr"""
    z = SEQSIZE[k]
    v = e.load(st, ptr, z, 'seq:' + k)
    if isinstance(v, Model):
        return v.r
    if v is UNDEF or isinstance(v, Obj):
        e.spec.memerr(st, 'dead', 'use of a container that is not alive')
        raise Stop()
    raise Undecided('container object %r' % (v,))


def new_seq(e, st, k, ety, segs=(), name=''):
    et = e.spec.elem_type(ety)
    r = st.new_region('seq', 1 << 40, name or k, 'undef')
    r.meta = {'ety': ety, 'esz': et.size, 'k': k}
    r.data = tuple(segs)
    return r


def set_seq(st, rid, segs):
    st.w(rid).data = tuple(segs)


def conv_args(fn):
    """parameter list text of the demangled name"""
    d = fn['dem']
    if d.endswith(' const'):
        d = d[:-6]
    depth = 0
    for i in range(len(d) - 1, -1, -1):
        if d[i] == ')':
            depth += 1
        elif d[i] == '(':
            depth -= 1
            if depth == 0:
                return split_targs(d[i + 1:-1])
    return []


def blob_from_args(e, st, ety, fn, a, ins):
    """element built from constructor arguments"""
    et = e.spec.elem_type(ety)
    ps = conv_args(fn)
    ps = ps[-len(a):] if a else []
    if not a:
        if isinstance(et, OpaqueClass):
            may_throw(st, ins, 'default construction')
        return et.default_blob(e, st, ins)
    if len(a) == 1:
        p = ps[0]
        base = p.replace('&', '').replace(' const', '').replace('const ', '').strip()
        if same_type(base, ety):
            if p.endswith('&&'):
                return et.move_blob(e, st, a[0], ins)
            if p.endswith('const&') or p.endswith('&'):
                return et.copy_blob(e, st, a[0], ins)
    b = e.spec.elem_from(st, ety, ps, a, ins)
    if b is None:
        raise Undecided('emplace of %s from %s' % (ety, ps))
    return b


def canon_ty(t):
    t = t.replace('std::__cxx11::', 'std::').replace(' ', '')
    t = t.replace('std::basic_string<char,std::char_traits<char>,std::allocator<char>>', 'std::string')
    t = t.replace('unsignedlong', 'ulong')
    return t


def same_type(a, b):
    return canon_ty(a) == canon_ty(b)


def seq_copy_segs(e, st, segs, ety, ins):
    """copy of all elements (may throw when copying may)"""
    et = e.spec.elem_type(ety)
    if isinstance(et, OpaqueClass) and et.copy_throws:
        n = seqlen(segs)
        if not st.eq0(n):
            may_throw(st, ins, 'copy of elements')
    elif not isinstance(et, (OpaqueClass, PlainClass, SharedPtr)):
        raise Undecided('copy of %s elements' % ety)
    return segs


def destroy_segs(e, st, segs, ety):
    et = e.spec.elem_type(ety)
    for s in segs:
        if s[0] == 'e':
            et.destroy_blob(e, st, s[1])
        else:
            e.spec.destroy_run(st, s, ety)


def m_seq(e, fn):
    if fn.get('decl') or not fn.get('std'):
        return None
    cls = fn['cls']
    m = re.match(r'^(vector|deque|queue)<', cls)
    if not m:
        if cls == 'std' or fn['scopes'][0] in ('std', '_V2'):
            return m_algo(e, fn)
        return None
    k = m.group(1)
    ety = targs(cls)[0]
    if e.spec.elem_type(ety) is None:
        return None
    base = fn['base']
    if k == 'queue':
        base = {'push': 'push_back', 'pop': 'pop_front', 'emplace': 'emplace_back'}.get(base, base)
    f = SEQ.get(base)
    if base == cls.split('<')[0]:
        f = s_ctor
    elif base.startswith('~'):
        f = s_dtor
    if f is None:
        if base.startswith('_M_') or base.startswith('_S_') or base in ('get_allocator', 'max_size', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend'):
            return None if not base.startswith('_M_') else s_unknown
        return s_unknown
    ps = conv_args(fn)
    sret = bool(fn['args']) and 'sret' in fn['args'][0]
    esz = e.spec.elem_type(ety).size

    def h(e, st, fn, a, ins):
        return f(e, st, k, ety, esz, a, ps, fn, ins)
    return h


def s_unknown(e, st, fn, a, ins):
    raise Undecided('unmodelled container operation ' + fn['dem'][:120])


def other_seq(e, st, k, p):
    return seq_of(e, st, p, k)


def s_ctor(e, st, k, ety, esz, a, ps, fn, ins):
    z = SEQSIZE[k]
    this = a[0]
    ps = [p for p in ps if 'allocator<' not in p or p.startswith('std::' + k)]
    if not ps or (k == 'queue' and not ps):
        r = new_seq(e, st, k, ety)
        e.store(st, this, z, Model(k, r.rid))
        e.spec.on_seq(st, r.rid, 'ctor')
        return None
    p = ps[0]
    if p.startswith('std::' + k + '<'):
        src = seq_of(e, st, a[1], k)
        if p.endswith('&&'):
            e.spec.on_seq(st, src, 'write')
            # the storage (and so the element addresses) moves along
            r = new_seq(e, st, k, ety)
            e.store(st, this, z, Model(k, src))
            e.store(st, a[1], z, Model(k, r.rid))
            e.spec.on_seq_move(st, a[1], this)
        else:
            e.spec.on_seq(st, src, 'read')
            segs = seq_copy_segs(e, st, st.regions[src].data, ety, ins)
            r = new_seq(e, st, k, ety, segs)
            e.store(st, this, z, Model(k, r.rid))
        return None
    if p in ('unsigned long',):
        n = st.poly.norm(view(st, a[1], 64, False))
        if len(ps) == 1:
            if n.is_const() and n.c <= 8:
                et = e.spec.elem_type(ety)
                r = new_seq(e, st, k, ety, [('e', et.default_blob(e, st, ins)) for _ in range(n.c)])
                e.store(st, this, z, Model(k, r.rid))
                return None
    raise Undecided('container construction ' + fn['dem'][:100])


def s_dtor(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'write')
    e.spec.on_seq_destroy(st, rid)
    destroy_segs(e, st, st.regions[rid].data, ety)
    st.w(rid).alive = False
    e.store(st, a[0], SEQSIZE[k], UNDEF)
    return None


def s_assign(e, st, k, ety, esz, a, ps, fn, ins):
    z = SEQSIZE[k]
    if not ps or not ps[0].startswith('std::' + k + '<'):
        raise Undecided('container assignment ' + fn['dem'][:100])
    d = seq_of(e, st, a[0], k)
    s = seq_of(e, st, a[1], k)
    if ps[0].endswith('&&'):
        e.spec.on_seq(st, d, 'write')
        e.spec.on_seq(st, s, 'write')
        if d == s:
            # libstdc++: self move assignment clears
            destroy_segs(e, st, st.regions[d].data, ety)
            set_seq(st, d, ())
            return a[0]
        destroy_segs(e, st, st.regions[d].data, ety)
        set_seq(st, d, ())
        e.store(st, a[0], z, Model(k, s))
        e.store(st, a[1], z, Model(k, d))
        e.spec.on_seq_move(st, a[1], a[0])
        return a[0]
    e.spec.on_seq(st, d, 'write')
    e.spec.on_seq(st, s, 'read')
    if d == s:
        return a[0]
    segs = seq_copy_segs(e, st, st.regions[s].data, ety, ins)
    destroy_segs(e, st, st.regions[d].data, ety)
    set_seq(st, d, segs)
    return a[0]


def s_swap(e, st, k, ety, esz, a, ps, fn, ins):
    z = SEQSIZE[k]
    d = seq_of(e, st, a[0], k)
    s = seq_of(e, st, a[1], k)
    e.spec.on_seq(st, d, 'write')
    e.spec.on_seq(st, s, 'write')
    e.store(st, a[0], z, Model(k, s))
    e.store(st, a[1], z, Model(k, d))
    e.spec.on_seq_move(st, a[1], a[0])
    e.spec.on_seq_move(st, a[0], a[1])


def s_empty(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'read')
    segs = seqnorm(st, st.regions[rid].data)
    if any(s[0] == 'e' for s in segs):
        return ZERO
    n = seqlen(segs)
    if st.ge(n - 1, 'container is not empty'):
        return ZERO
    set_seq(st, rid, ())
    return C(1)


def s_size(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'read')
    return st.poly.norm(seqlen(st.regions[rid].data))


def s_capacity(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'read')
    n = seqlen(st.regions[rid].data)
    c = st.sym('cap')
    st.assume(c - n, C(1 << 41) - c)
    st.approx('capacity')
    return c


def s_begin(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'read')
    return Ptr(rid, ZERO)


def s_end(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'read')
    return Ptr(rid, st.poly.norm(seqlen(st.regions[rid].data).scale(esz)))


def nonempty(e, st, rid, what):
    segs = seqnorm(st, st.regions[rid].data)
    n = seqlen(segs)
    if not st.ge(n - 1, 'container is not empty'):
        e.spec.memerr(st, 'bounds', '%s on an empty container' % what)
        raise Stop()
    set_seq(st, rid, segs)
    return n


def s_index(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'read')
    i = view(st, a[1], 64, False)
    n = seqlen(st.regions[rid].data)
    if not st.ge(n - 1 - i, 'index %r below size' % i):
        e.spec.memerr(st, 'bounds', 'index %r outside a container of size %r' % (i, st.poly.norm(n)))
        raise Stop()
    return Ptr(rid, i.scale(esz))


def s_at(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'read')
    i = view(st, a[1], 64, False)
    n = seqlen(st.regions[rid].data)
    if not st.ge(n - 1 - i, 'index %r below size' % i):
        raise Throw('std')
    return Ptr(rid, i.scale(esz))


def s_front(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'read')
    nonempty(e, st, rid, 'front()')
    return Ptr(rid, ZERO)


def s_back(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'read')
    n = nonempty(e, st, rid, 'back()')
    return Ptr(rid, st.poly.norm((n - 1).scale(esz)))


def s_push_back(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'write')
    b = blob_from_args(e, st, ety, fn, a[1:], ins)
    segs = seqnorm(st, st.regions[rid].data)
    set_seq(st, rid, segs + (('e', b),))
    e.spec.on_insert(st, rid, 'back', b)
    if fn['base'] in ('emplace_back', 'emplace') and ins.get('t') == 'ptr':
        return Ptr(rid, st.poly.norm(seqlen(segs).scale(esz)))
    return None


def s_push_front(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'write')
    b = blob_from_args(e, st, ety, fn, a[1:], ins)
    set_seq(st, rid, (('e', b),) + st.regions[rid].data)
    e.spec.on_insert(st, rid, 'front', b)
    return Ptr(rid, ZERO) if ins.get('t') == 'ptr' else None


def s_pop_back(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'write')
    n = nonempty(e, st, rid, 'pop')
    i = locate(e, st, rid, n - 1)
    segs = st.regions[rid].data
    segs = seqnorm(st, segs)
    e.spec.on_remove(st, rid, 'back', segs[-1][1])
    destroy_segs(e, st, segs[-1:], ety)
    set_seq(st, rid, segs[:-1])


def s_pop_front(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'write')
    nonempty(e, st, rid, 'pop')
    locate(e, st, rid, ZERO)
    segs = seqnorm(st, st.regions[rid].data)
    e.spec.on_remove(st, rid, 'front', segs[0][1])
    destroy_segs(e, st, segs[:1], ety)
    set_seq(st, rid, segs[1:])


def s_clear(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'write')
    destroy_segs(e, st, st.regions[rid].data, ety)
    e.spec.on_clear(st, rid)
    set_seq(st, rid, ())


def s_reserve(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'write')
    return None


def seq_pos(e, st, rid, p, esz):
    """index of an iterator into rid"""
    if not isinstance(p, Ptr) or p.r != rid:
        e.spec.memerr(st, 'bounds', 'iterator of another container')
        raise Stop()
    idx, inner = seq_region(e, st, st.regions[rid], p.o)
    if inner:
        raise Undecided('iterator inside an element')
    return idx


def s_insert(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'write')
    pos = seq_pos(e, st, rid, a[1], esz)
    if len(ps) == 3 and not ps[1].startswith('unsigned'):
        # range
        seg, _ = source_range(e, st, ps, a, 2, ety, ins)
        seg = seq_copy_segs(e, st, seg, ety, ins)
    elif len(ps) == 2:
        b = blob_from_args(e, st, ety, fn, a[2:], ins)
        seg = (('e', b),)
    else:
        raise Undecided('insert ' + fn['dem'][:100])
    i = cut(e, st, rid, pos)
    if i is None:
        e.spec.memerr(st, 'bounds', 'insertion position outside the container')
        raise Stop()
    segs = st.regions[rid].data
    set_seq(st, rid, segs[:i] + tuple(seg) + segs[i:])
    e.spec.on_insert_range(st, rid, pos, seg)
    return Ptr(rid, pos.scale(esz))


def range_between(e, st, rid, i, j):
    """segments of [i,j)"""
    a = cut(e, st, rid, i)
    b = cut(e, st, rid, j)
    a = cut(e, st, rid, i)
    if a is None or b is None:
        e.spec.memerr(st, 'bounds', 'range outside the container')
        raise Stop()
    return a, b


def source_range(e, st, ps, a, at, ety, ins):
    """segments of an iterator pair argument"""
    f, l = a[at], a[at + 1]
    t = ps[1]
    rev = 'reverse_iterator' in t
    mv = 'move_iterator' in t
    if isinstance(f, Ptr) and f.r in st.regions and st.regions[f.r].kind == 'stack' and (rev or mv):
        f = e.load(st, f, 8, 'ptr')
        l = e.load(st, l, 8, 'ptr')
    if not (isinstance(f, Ptr) and isinstance(l, Ptr) and f.r == l.r and f.r in st.regions and st.regions[f.r].kind == 'seq'):
        raise Undecided('iterator range')
    r = st.regions[f.r]
    e.spec.on_seq(st, f.r, 'read')
    i, _ = seq_region(e, st, r, f.o)
    j, _ = seq_region(e, st, r, l.o)
    if rev:
        i, j = j, i
    if st.poly.entails_eq(i) and st.poly.entails_eq(j - seqlen(r.data)):
        seg = r.data
    else:
        x, y = range_between(e, st, f.r, i, j)
        seg = st.regions[f.r].data[x:y]
    if mv:
        raise Undecided('move range')
    return (seqrev(seg) if rev else seg), f.r


def s_erase(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'write')
    i = seq_pos(e, st, rid, a[1], esz)
    if len(a) == 2:
        n = seqlen(st.regions[rid].data)
        if not st.ge(i) or not st.ge(n - 1 - i):
            e.spec.memerr(st, 'bounds', 'erase outside the container')
            raise Stop()
        p = locate(e, st, rid, i)
        segs = st.regions[rid].data
        e.spec.on_erase(st, rid, i)
        destroy_segs(e, st, segs[p:p + 1], ety)
        set_seq(st, rid, segs[:p] + segs[p + 1:])
        return a[1]
    j = seq_pos(e, st, rid, a[2], esz)
    x, y = range_between(e, st, rid, i, j)
    segs = st.regions[rid].data
    e.spec.on_erase(st, rid, i)
    destroy_segs(e, st, segs[x:y], ety)
    set_seq(st, rid, segs[:x] + segs[y:])
    return a[1]


def s_assign_range(e, st, k, ety, esz, a, ps, fn, ins):
    rid = seq_of(e, st, a[0], k)
    e.spec.on_seq(st, rid, 'write')
    if len(ps) == 2 and not ps[0].startswith('unsigned'):
        seg, _ = source_range(e, st, [None] + ps, a, 1, ety, ins)
        seg = seq_copy_segs(e, st, seg, ety, ins)
        destroy_segs(e, st, st.regions[rid].data, ety)
        set_seq(st, rid, seg)
        return None
    raise Undecided('assign')


SEQ = {
    'operator=': s_assign, 'swap': s_swap, 'empty': s_empty, 'size': s_size, 'capacity': s_capacity,
    'begin': s_begin, 'end': s_end, 'cbegin': s_begin, 'cend': s_end, 'data': s_begin,
    'operator[]': s_index, 'at': s_at, 'front': s_front, 'back': s_back,
    'push_back': s_push_back, 'emplace_back': s_push_back, 'push_front': s_push_front, 'emplace_front': s_push_front,
    'pop_back': s_pop_back, 'pop_front': s_pop_front, 'clear': s_clear, 'reserve': s_reserve,
    'shrink_to_fit': s_reserve, 'insert': s_insert, 'erase': s_erase, 'assign': s_assign_range,
}


# --- algorithms over sequences -------------------------------------------------
def is_seq_ptr(st, p):
    return isinstance(p, Ptr) and p.r in st.regions and st.regions[p.r].kind == 'seq'


def a_reverse(e, st, fn, a, ins):
    if len(a) != 2 or not is_seq_ptr(st, a[0]) or not is_seq_ptr(st, a[1]) or a[0].r != a[1].r:
        return NotImplemented
    rid = a[0].r
    r = st.regions[rid]
    e.spec.on_seq(st, rid, 'write')
    i, _ = seq_region(e, st, r, a[0].o)
    j, _ = seq_region(e, st, r, a[1].o)
    if st.poly.entails_eq(i) and st.poly.entails_eq(j - seqlen(r.data)):
        x, y = 0, len(r.data)
    else:
        x, y = range_between(e, st, rid, i, j)
    segs = st.regions[rid].data
    set_seq(st, rid, segs[:x] + seqrev(segs[x:y]) + segs[y:])
    e.spec.on_reorder(st, rid)
    return None


def a_rotate(e, st, fn, a, ins):
    raise Undecided('rotate')


ALGO = {'reverse': a_reverse}


def m_algo(e, fn):
    return ALGO.get(fn['base'])


# --- shared_ptr as a pair of words -------------------------------------------
def sp_targ(cls):
    return targs(cls)[0] if targs(cls) else ''


def m_shared(e, fn):
    if fn.get('decl') or not fn.get('std'):
        return None
    m = re.match(r'^(shared_ptr|__shared_ptr|__shared_ptr_access)<', fn['cls'])
    if not m:
        if fn['scopes'] == ['std'] and fn['base'] == 'make_shared':
            return lambda e, st, fn, a, ins: e.spec.make_shared(st, fn, a, ins)
        if fn['scopes'] == ['std'] and fn['base'] in ('operator==', 'operator!=') and 'shared_ptr<' in fn['dem'] and 'nullptr_t' in fn['dem']:
            ne = fn['base'] == 'operator!='

            def h(e, st, fn, a, ins):
                p = [x for x in a if isinstance(x, Ptr) and x.r != 0]
                v = e.load(st, p[0], 8, 'ptr')
                return C(1) if e.icmp(st, 'ne' if ne else 'eq', v, NULL, 'ptr') else ZERO
            return h
        return None
    base = fn['base']
    own = m.group(1)
    ps = conv_args(fn)
    if base == own:
        if not ps or ps[0] == 'decltype(nullptr)' or ps[0] == 'std::nullptr_t':
            def h(e, st, fn, a, ins):
                e.put_blob(st, a[0], 16, ((0, 8, NULL), (8, 8, NULL)))
            return h
        if 'shared_ptr<' in ps[0] and len(ps) == 1 and '(' not in ps[0]:
            mv = ps[0].endswith('&&')

            def h(e, st, fn, a, ins):
                b = sp_words(e, st, a[1])
                e.put_blob(st, a[0], 16, b)
                if mv:
                    e.put_blob(st, a[1], 16, ((0, 8, NULL), (8, 8, NULL)))
            return h
        return s_unknown
    if base == '~' + own:
        def h(e, st, fn, a, ins):
            sp_words(e, st, a[0])
            e.put_blob(st, a[0], 16, ((0, 8, UNDEF), (8, 8, UNDEF)))
        return h
    if base == 'operator=':
        if not ps or 'shared_ptr<' not in ps[0]:
            return s_unknown
        mv = ps[0].endswith('&&')

        def h(e, st, fn, a, ins):
            b = sp_words(e, st, a[1])
            sp_words(e, st, a[0])
            if mv and a[0] != a[1]:
                e.put_blob(st, a[1], 16, ((0, 8, NULL), (8, 8, NULL)))
            e.put_blob(st, a[0], 16, b)
            return a[0]
        return h
    if base in ('operator bool', 'get', 'operator->', 'operator*', '_M_get'):
        def h(e, st, fn, a, ins):
            v = sp_words(e, st, a[0])[0][2]
            if base == 'operator bool':
                return C(1) if e.icmp(st, 'ne', v, NULL, 'ptr') else ZERO
            return v
        return h
    if base == 'reset' and not ps:
        def h(e, st, fn, a, ins):
            sp_words(e, st, a[0])
            e.put_blob(st, a[0], 16, ((0, 8, NULL), (8, 8, NULL)))
        return h
    if base == 'swap':
        def h(e, st, fn, a, ins):
            x, y = sp_words(e, st, a[0]), sp_words(e, st, a[1])
            e.put_blob(st, a[0], 16, y)
            e.put_blob(st, a[1], 16, x)
        return h
    return s_unknown


def sp_words(e, st, p):
    v = e.load(st, p, 8, 'ptr')
    if v is UNDEF:
        e.spec.memerr(st, 'dead', 'use of a shared_ptr that is not alive')
        raise Stop()
    return ((0, 8, v), (8, 8, e.load(st, p + 8, 8, 'ptr')))


ALL = [m_opaque, m_runtime, m_shared, m_seq]


class ModelSpec:
    """hook defaults used by the models"""
    on_fill = None
    classes = {}

    def elem_type(self, ety):
        return self.classes.get(canon_ty(ety)) or self.classes.get(ety)

    def fresh_elem(self, st, ety):
        return self.elem_type(ety).fresh(self.eng, st)

    def fresh_unique(self, st, ty):
        raise Undecided('unknown unique_ptr')

    def fresh_shared(self, st, ty):
        raise Undecided('unknown shared_ptr')

    def make_shared(self, st, fn, a, ins):
        raise Undecided('make_shared')

    def delete_object(self, st, p, ty):
        raise Undecided('delete of an object')

    def destroy_run(self, st, s, ety):
        pass

    def value_of(self, st, cls, args):
        return fresh('val')

    def elem_from(self, st, ety, ps, a, ins):
        return None

    def on_terminate(self, st):
        pass

    def fold(self, st):
        fold_state(st)

    def _nop(self, *a):
        pass

    on_split = on_seq = on_seq_move = on_seq_destroy = on_insert = on_insert_range = on_remove = on_clear = on_erase = _nop
    on_reorder = on_elem_write = on_construct = on_destroy = on_assign = on_alloc = on_free = _nop
