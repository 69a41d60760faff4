"""Byte buffers as write logs over symbolic initial contents.

A raw region carries in .data the tuple of writes made to it, oldest first:
    (lo, n, ('val', v, size, o))    bytes [o, o+n) of an integer of `size` bytes
    (lo, n, ('copy', Ptr, log))     bytes copied from another (or the same) region as
                                    it was when `log` was its log
    (lo, n, ('rev', unit))          units of the range in reversed order
lo and n are linear expressions. resolve() reads a byte range back through the
log and yields the pieces it consists of: initial bytes of some region, or bytes
of a stored integer."""
from .poly import Lin, C, ZERO, fresh
from .engine import Ptr, UNDEF, Undecided, Stop, Throw, Ghost, Spec, view, Opq, Agg
from .models import ModelSpec, ALL, r_memcpy, r_new


class RGhost(Ghost):
    def __init__(self):
        self.ints = {}    # initial integers read from or assumed at (region, offset)
        self.prov = {}    # value read: (region, offset, size) it was read from
        self.copied = ()  # ranges handed to the user


class RawSpec(ModelSpec, Spec):
    mem_props = ('X',)
    pure_end = True

    def models(self):
        return [self.m_raw] + ALL

    # --- hooks
    def memerr(self, st, kind, msg):
        for p in self.mem_props:
            self.eng.report(st, p, 'memory ' + kind, msg)

    def on_alloc(self, st, r):
        r.meta['raw'] = True
        r.meta['fresh'] = True
        r.data = ()

    def israw(self, st, p):
        if not isinstance(p, Ptr):
            return False
        r = st.regions.get(p.r)
        return r is not None and 'raw' in r.meta

    def m_raw(self, e, fn):
        s = fn['sym']
        if s in ('_Znam', '_Znwm'):
            return self.r_new
        if s == 'memcpy' or s.startswith('llvm.memcpy'):
            return self.r_memcpy
        if s == 'memcmp':
            return None
        if fn.get('std') and fn['base'] == 'reverse':
            return self.a_reverse
        return None

    def r_new(self, e, st, fn, a, ins):
        n = view(st, a[0], 64, False) if isinstance(a[0], Lin) else None
        if n is not None and not st.ge(C(1 << 40) - n, 'the allocation size is representable'):
            raise Throw('bad_array_new_length')
        return r_new(e, st, fn, a, ins)

    def r_memcpy(self, e, st, fn, a, ins):
        n = a[2] if isinstance(a[2], Lin) else None
        if n is None:
            raise Undecided('memcpy size')
        n = view(st, n, 64, False)
        if self.israw(st, a[0]) and isinstance(a[1], Ptr) and a[0].r == a[1].r and st.ge(n - 1):
            d = a[0].o - a[1].o
            if not st.poly.entails_eq(d):
                if not st.ge(d - n) and not st.ge(-d - n):
                    if not st.eq0(d):
                        self.memerr(st, 'overlap', 'memcpy between overlapping ranges')
                        raise Stop()
        return r_memcpy(e, st, fn, a, ins)

    def a_reverse(self, e, st, fn, a, ins):
        if len(a) != 2 or not self.israw(st, a[0]) or not isinstance(a[1], Ptr) or a[0].r != a[1].r:
            return NotImplemented
        unit = self.unit_of(fn)
        n = st.poly.norm(a[1].o - a[0].o)
        if not st.ge(n - 2 * unit):
            return None
        r, off = e.access(st, a[0], n, 'write')
        w = st.w(r.rid)
        w.data = w.data + ((off, n, ('rev', unit)),)
        return None

    def unit_of(self, fn):
        d = fn['dem']
        for k, t in self.prog.types.items():
            if k in d and t.get('size'):
                return t['size']
        if 'unsigned char' in d or '<char' in d:
            return 1
        raise Undecided('element size of ' + d[:80])

    def on_load(self, st, r, off, size, t):
        if 'raw' not in r.meta:
            return None
        if t[0] in '{[':
            raise Undecided('aggregate read of raw memory')
        return self.rawint(st, r, off, size, t)

    def on_store(self, st, r, off, size, v):
        if 'raw' not in r.meta:
            return False
        if isinstance(v, Agg):
            raise Undecided('aggregate write to raw memory')
        sz = C(size) if not isinstance(size, Lin) else size
        w = st.w(r.rid)
        w.data = w.data + ((off, sz, ('val', v, size, ZERO)),)
        return True

    def on_copy(self, st, dst, src, n):
        e = self.eng
        if not self.israw(st, dst) and not self.israw(st, src):
            if st.ge(-n):
                return True
            for p in (dst, src):
                if isinstance(p, Ptr) and p.r == 0:
                    self.memerr(st, 'null', 'copy through a null pointer')
                    raise Stop()
            return False
        if st.ge(-n, 'nothing to copy'):
            return True
        sr, so = e.access(st, src, n, 'read')
        dr, do = e.access(st, dst, n, 'write')
        if 'raw' in dr.meta and 'raw' in sr.meta:
            w = st.w(dr.rid)
            w.data = w.data + ((do, n, ('copy', Ptr(sr.rid, so), sr.data)),)
            self.on_rawcopy(st, dr, do, sr, so, n)
            return True
        if n.t:
            raise Undecided('copy of symbolic size from an object')
        if 'raw' in dr.meta:
            b = e.blob(st, src, n.c)
            w = st.w(dr.rid)
            add = []
            at = 0
            for o, z, v in sorted(b, key=lambda x: x[0]):
                if o > at:
                    add.append((do + at, C(o - at), ('val', UNDEF, o - at, ZERO)))
                add.append((do + o, C(z), ('val', v, z, ZERO)))
                at = o + z
            if at < n.c:
                add.append((do + at, C(n.c - at), ('val', UNDEF, n.c - at, ZERO)))
            w.data = w.data + tuple(add)
            return True
        # raw to object, integer by integer
        if n.c % 4:
            raise Undecided('copy of %d raw bytes to an object' % n.c)
        out = []
        for k in range(0, n.c, 4):
            out.append((k, 4, self.rawint(st, sr, so + k, 4, 'i32')))
        e.put_blob(st, dst, n.c, out)
        return True

    def on_rawcopy(self, st, dr, do, sr, so, n):
        pass

    # --- reading
    def rawint(self, st, r, off, size, t, check=False):
        ps = self.resolve(st, r.rid, r.data, off, C(size))
        if len(ps) == 1:
            k = ps[0]
            if k[0] == 'val':
                if k[2] == size and st.poly.entails_eq(k[3]):
                    return k[1]
                if k[1] is UNDEF:
                    return UNDEF
                if check:
                    return UNDEF
                raise Undecided('part of an integer in raw memory')
            if st.regions[k[1]].meta.get('fresh') if k[1] in st.regions else False:
                return UNDEF
            return self.base_int(st, k[1], k[2], size)
        if any(k[0] == 'val' and k[1] is UNDEF for k in ps):
            return UNDEF
        # bytes of several origins: any value
        if check:
            return UNDEF
        st.approx('integer assembled from several writes')
        return st.sym('mixed', -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1)

    def base_int(self, st, rid, off, size):
        """initial integer at an offset"""
        g = st.ghost
        if size == 4:
            for (b, o), v in sorted(g.ints.items(), key=str):
                if b == rid and st.eq0(off - o):
                    return v
        v = st.sym('m', -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1)
        self.unknown_int(st, rid, off, size, v)
        if size == 4:
            g.ints[(rid, off)] = v
        g.prov[(v,)] = (rid, off, size)
        return v

    def unknown_int(self, st, rid, off, size, v):
        pass

    def resolve(self, st, rid, log, lo, n, depth=0):
        """pieces of the byte range, in order; forks as needed"""
        if depth > 60:
            raise Undecided('write log too deep')
        if not st.ge(n - 1):
            return []
        p = st.poly
        for i in range(len(log) - 1, -1, -1):
            elo, en, pay = log[i]
            if st.ge(elo - lo - n) or st.ge(lo - elo - en):
                continue
            older = log[:i]
            out = []
            s = lo
            if not st.ge(lo - elo):
                out += self.resolve(st, rid, older, lo, p.norm(elo - lo), depth + 1)
                s = elo
            end = lo + n
            tail = []
            if not st.ge(elo + en - end):
                tail = self.resolve(st, rid, older, elo + en, p.norm(end - elo - en), depth + 1)
                end = elo + en
            o = p.norm(s - elo)
            m = p.norm(end - s)
            if pay[0] == 'val':
                out.append(('val', pay[1], pay[2], p.norm(pay[3] + o), m))
            elif pay[0] == 'copy':
                out += self.resolve(st, pay[1].r, pay[2], p.norm(pay[1].o + o), m, depth + 1)
            else:
                u = pay[1]
                b = o.c % u
                if any(k % u for _, k in o.t) or m.t or m.c > u - b:
                    raise Undecided('read of a reversed range')
                src = p.norm(elo + en - u - (o - b) + b)
                out += self.resolve(st, rid, older, src, m, depth + 1)
            return merge(st, out + tail)
        return [('base', rid, p.norm(lo), p.norm(n))]

    def range_is(self, st, rid, lo, n, want_rid, want_lo):
        """does [lo,lo+n) of region rid now hold the initial bytes
        [want_lo, want_lo+n) of region want_rid? Returns None or what else"""
        r = st.regions[rid]
        return self.pieces_are(st, self.resolve(st, rid, r.data, st.poly.norm(lo), st.poly.norm(n)), want_rid, want_lo)

    def pieces_are(self, st, pieces, want_rid, want_lo):
        at = ZERO
        for k in pieces:
            if k[0] == 'val' and isinstance(k[1], Lin):
                # a value read from somewhere and stored unchanged
                q = st.ghost.prov.get((k[1],))
                if q is not None and q[2] == k[2]:
                    k = ('base', q[0], q[1] + k[3], k[4])
            if k[0] == 'val':
                return 'is overwritten by %s' % ('an integer' if k[1] is not UNDEF else 'indeterminate bytes')
            if k[1] != want_rid:
                nm = st.regions[k[1]].name if k[1] in st.regions else 'other memory'
                return 'contains bytes of %s' % nm
            if not st.eq0(k[2] - want_lo - at):
                return 'contains other bytes of %s' % (st.regions[k[1]].name if k[1] in st.regions else 'the buffer')
            at = at + k[3]
        return None

    def int_is(self, st, rid, lo, want):
        """is the 4 byte integer at lo equal to want? None or what else"""
        r = st.regions[rid]
        v = self.rawint(st, r, st.poly.norm(lo), 4, 'i32', True)
        if v is UNDEF:
            return 'is overwritten'
        if not isinstance(v, Lin):
            return 'is no integer'
        if not st.eq0(v - want):
            return 'is %r instead of %r' % (st.poly.norm(v), st.poly.norm(want))
        return None

    # --- objects by roles
    def cell(self, st, obj, role):
        o, ty = self.roles[role]
        r = st.regions[obj]
        t = 'ptr' if isptr(ty) else 'i32'
        return self.eng.load(st, Ptr(obj, C(o)), 8 if t == 'ptr' else 4, t)

    def put(self, st, obj, role, v):
        o, ty = self.roles[role]
        self.eng.put(st, obj, C(o), 8 if isptr(ty) else 4, v)


def isptr(ty):
    return ty.endswith('*') or 'unique_ptr<' in ty


def merge(st, ps):
    out = []
    for k in ps:
        if out and k[0] == 'base' and out[-1][0] == 'base' and out[-1][1] == k[1] and st.poly.entails_eq(out[-1][2] + out[-1][3] - k[2]):
            out[-1] = ('base', k[1], out[-1][2], st.poly.norm(out[-1][3] + k[3]))
        elif out and k[0] == 'val' and out[-1][0] == 'val' and out[-1][1] is k[1] and out[-1][2] == k[2] and st.poly.entails_eq(out[-1][3] + out[-1][4] - k[3]):
            out[-1] = ('val', k[1], k[2], out[-1][3], st.poly.norm(out[-1][4] + k[4]))
        else:
            out.append(k)
    return out


def roles(types, cls, table, base=0, optional=()):
    """role -> (offset, type): by name, else the first unused member of the type"""
    t = types.get(cls)
    if t is None:
        raise KeyError('class %s vanished' % cls)
    out = {}
    used = set()
    guess = False
    for role, (names, ty) in table.items():
        for m in t['mem']:
            if m['n'] in names and m['o'] not in used:
                out[role] = (base + m['o'], m['ty'])
                used.add(m['o'])
                break
    for role, (names, ty) in table.items():
        if role in out:
            continue
        rest = [m for m in t['mem'] if m['o'] not in used and (m['ty'] == ty or isptr(ty) == isptr(m['ty']))]
        same = [r for r in table if r not in out and table[r][1] == ty]
        if not rest and role in optional:
            continue
        if not rest:
            raise Undecided('member %s of %s not found' % (role, cls))
        out[role] = (base + rest[0]['o'], rest[0]['ty'])
        used.add(rest[0]['o'])
        if len(rest) > 1 or len(same) > 1:
            guess = True
    return out, t['size'], guess
