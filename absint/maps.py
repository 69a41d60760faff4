"""Models of std::map / std::unordered_map with tracked keys, of strings and
string views as identities, and of StableBlockVector as a sequence.

A map is known at a few keys: each is in the map, out of it or not decided yet;
all other entries are summarised and materialised on demand. Iteration meets the
known entries in any order and any number of others."""
import re
from .poly import Lin, C, ZERO, fresh
from .engine import Ptr, NULL, UNDEF, Agg, Obj, Model, Undecided, Stop, Throw, view
from . import models as M
from .models import seqlen, seq_region, get_obj, targs, conv_args, canon_ty, s_unknown, seq_of

M.SEQSIZE['sbv'] = 48
MAPSIZE = {'umap': 56, 'map': 48}
STR = 'std::string'
VIEWTY = 'std::basic_string_view<char,std::char_traits<char>>'


# --- strings -----------------------------------------------------------------
class StringClass(M.OpaqueClass):
    """a string is its content; views of it point at the object (short strings
    live inside the object)"""

    def __init__(self):
        M.OpaqueClass.__init__(self, 'string', 32, False)


class ViewClass:
    size = 16

    def __init__(self, spec=None):
        self.spec = spec

    def fresh(self, e, st):
        return ((0, 8, st.sym('len', 0, 1 << 40)), (8, 8, Ptr(st.ghost.reststr)))

    def copy_blob(self, e, st, src, ins):
        return tuple((o, z, v) for (o, z), v in zip(((0, 8), (8, 8)), read_view(e, st, src)))

    move_blob = copy_blob

    def default_blob(self, e, st, ins):
        return ((0, 8, ZERO), (8, 8, NULL))

    def destroy_blob(self, e, st, blob):
        pass


def read_view(e, st, p):
    ln = e.load(st, p, 8, 'i64')
    q = e.load(st, p + 8, 8, 'ptr')
    if not isinstance(ln, Lin) or not isinstance(q, Ptr):
        if ln is UNDEF or q is UNDEF:
            e.spec.memerr(st, 'dead', 'use of a string view that is not initialised')
            raise Stop()
        raise Undecided('string view')
    return ln, q


class Stale(Exception):
    pass


def text_at(e, st, q):
    """identity of the characters at q: a key, None for characters of some other
    entry. Raises Stale when they are gone"""
    r = st.regions.get(q.r)
    if q.r == 0:
        raise Stale('nothing')
    if r is None or not r.alive:
        raise Stale('released storage%s' % (' (%s)' % r.name if r is not None else ''))
    if r.meta.get('any'):
        return None
    if r.kind == 'global':
        # a literal
        return ('lit', not (r.size.c == 1 and not r.size.t))
    if r.kind == 'seq':
        i, inner = seq_region(e, st, r, q.o)
        n = seqlen(r.data)
        if inner:
            raise Undecided('view into the middle of a string')
        if not st.ge(i) or not st.ge(n - 1 - i):
            raise Stale('a string no longer in its container')
        k = M.locate(e, st, q.r, i)
        if k is None:
            raise Undecided('string not located')
        b = st.regions[q.r].data[k][1]
        v = b[0][2]
    else:
        v = None
        if st.eq0(q.o):
            c = r.cells.get(ZERO)
            v = c[1] if c else UNDEF
        else:
            hit = [c for o, c in r.cells.items() if o == q.o]
            v = hit[0][1] if hit else UNDEF
    if not isinstance(v, Obj) or v.ty != 'string':
        if v is UNDEF:
            raise Stale('storage that holds no string')
        raise Undecided('characters %r' % (v,))
    if v.st != 'live':
        raise Stale('a string that is %s' % ('destroyed' if v.st == 'dead' else 'moved from'))
    return v.id


def view_id(e, st, ln, q):
    """key designated by a view"""
    i = text_at(e, st, q)
    if i is None or isinstance(i, tuple):
        return i if i is None else fresh('str')
    want = st.ghost.lens.get(i) if isinstance(i, str) else None
    if want is not None and not st.eq0(ln - want):
        return fresh('str')
    return i


def view_key(e, st, ln, q, what):
    if q.r == 0 and st.eq0(ln):
        # the empty view
        for t in sorted(st.ghost.lens):
            if st.eq0(st.ghost.lens[t]):
                return t
        return None
    try:
        return view_id(e, st, ln, q)
    except Stale as x:
        e.spec.stale(st, '%s reads %s' % (what, x))
        raise Stop()


def str_len(st, i):
    w = st.ghost.lens.get(i) if isinstance(i, str) else None
    return w if w is not None else st.sym('len', 0, 1 << 40)


def string_from(e, st, ps, a, ins):
    """content of a string constructed from the arguments"""
    p = canon_ty(ps[0]).replace('const', '').rstrip('&')
    if p == VIEWTY:
        ln, q = read_view(e, st, a[0])
        i = view_key(e, st, ln, q, 'construction of a string')
        return i if i is not None else fresh('str')
    if p == STR:
        o = get_obj(e, st, a[0], 'string', 32, 'copy of')
        if ps[0].endswith('&&'):
            e.store(st, a[0], 32, Obj('string', o.id, 'moved'))
        return o.id
    arr = re.match(r'^(const)?char.*\[\d+\]$', ps[0].replace(' ', ''))
    if (p == 'char*' or arr) and len(ps) >= 1:
        q = a[0]
        if not arr and len(canon_ty(ps[0])) and ps[0].rstrip().endswith('&'):
            q = e.load(st, a[0], 8, 'ptr')
        try:
            i = text_at(e, st, q)
        except Stale as x:
            e.spec.stale(st, 'construction of a string reads %s' % x)
            raise Stop()
        if i is None:
            return fresh('str')
        if isinstance(i, tuple):
            return fresh('str') if i[1] else 'empty'
        ln = None
        if len(ps) > 1 and canon_ty(ps[1]).startswith('ulong'):
            ln = a[1]
            if isinstance(ln, Ptr):
                ln = e.load(st, ln, 8, 'i64')
            w = st.ghost.lens.get(i) if isinstance(i, str) else None
            if w is not None and not st.eq0(ln - w):
                return fresh('str')
            return i
        # up to the first zero character
        if st.choose('characters up to a zero', 2, ['the whole term', 'another length']):
            return fresh('str')
        return i
    return None


def m_string(e, fn):
    if fn.get('decl') and 'basic_string<char' not in fn['dem']:
        return None
    d = fn['dem']
    cls = fn.get('cls') or ''
    if not cls.startswith('basic_string<char') and not (fn.get('decl') and d.startswith('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>')):
        if not fn.get('decl') and fn.get('std') and cls.startswith('char_traits<char>') and fn['base'] == 'length':
            return h_length
        return None
    m = re.match(r'^(?:.*?[ ])?std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::(operator[^(]*|~?\w+)', d)
    base = m.group(1).strip() if m else (fn.get('base') or '')
    if base == 'basic_string' or (fn.get('base') or '').startswith('basic_string'):
        base = 'ctor'
    ps = [p for p in conv_args(fn) if 'std::allocator<char>' not in p or 'basic_string<' in p]

    if base == 'ctor':
        def h(e, st, fn, a, ins):
            if not ps:
                e.store(st, a[0], 32, Obj('string', 'empty'))
                return None
            i = string_from(e, st, ps, a[1:], ins)
            if i is None:
                raise Undecided('string construction ' + d[:120])
            e.store(st, a[0], 32, Obj('string', i))
        return h
    if base == '~basic_string':
        def h(e, st, fn, a, ins):
            o = get_obj(e, st, a[0], 'string', 32, 'destruction of')
            e.store(st, a[0], 32, Obj('string', o.id, 'dead'))
        return h
    if base == 'operator=' or base == 'assign':
        def h(e, st, fn, a, ins):
            get_obj(e, st, a[0], 'string', 32, 'assignment to')
            i = string_from(e, st, ps, a[1:], ins)
            if i is None:
                raise Undecided('string assignment ' + d[:120])
            e.store(st, a[0], 32, Obj('string', i))
            return a[0]
        return h
    if base.startswith('operator std::basic_string_view') or base.startswith('operator basic_string_view'):
        def h(e, st, fn, a, ins):
            o = get_obj(e, st, a[0], 'string', 32, 'view of')
            return Agg([str_len(st, o.id), a[0]])
        return h
    if base in ('data', 'c_str'):
        def h(e, st, fn, a, ins):
            get_obj(e, st, a[0], 'string', 32, 'access to')
            return a[0]
        return h
    if base in ('size', 'length'):
        def h(e, st, fn, a, ins):
            o = get_obj(e, st, a[0], 'string', 32, 'access to')
            return str_len(st, o.id)
        return h
    return s_unknown


def h_length(e, st, fn, a, ins):
    try:
        i = text_at(e, st, a[0])
    except Stale as x:
        e.spec.stale(st, 'reading the length of %s' % x)
        raise Stop()
    if isinstance(i, tuple):
        return ZERO if not i[1] else st.sym('len', 0, 1 << 20)
    if i is not None and not st.choose('characters up to a zero', 2, ['the whole term', 'another length']):
        return str_len(st, i)
    return st.sym('len', 0, 1 << 40)


def m_names(e, fn):
    """a vector of strings may move them when it grows"""
    if fn.get('decl') or not fn.get('std') or not (fn.get('cls') or '').startswith('vector<') or fn['base'] not in ('push_back', 'emplace_back', 'insert', 'emplace', 'reserve', 'resize'):
        return None
    if canon_ty(targs(fn['cls'])[0]) != STR:
        return None
    f = M.m_seq(e, fn)

    def h(e, st, fn, a, ins):
        this = a[1] if fn['args'] and 'sret' in fn['args'][0] else a[0]
        # decide before the state is changed
        grows = st.choose('capacity of the vector of names', 2, ['exhausted', 'sufficient']) == 0
        r = f(e, st, fn, a, ins)
        if grows:
            old = seq_of(e, st, this, 'vector')
            q = st.regions[old]
            n = M.new_seq(e, st, 'vector', q.meta['ety'], q.data, q.name)
            st.w(old).alive = False
            e.store(st, this, 24, Model('vector', n.rid))
            if isinstance(r, Ptr) and r.r == old:
                r = Ptr(n.rid, r.o)
        return r
    return h


# --- StableBlockVector -------------------------------------------------------
def put_iter(e, st, p, q):
    e.put_blob(st, p, 24, ((0, 8, q), (8, 8, q), (16, 4, ZERO)))


def m_sbv(e, fn):
    if fn.get('decl') or fn.get('std'):
        return None
    cls = (fn.get('cls') or '')
    if cls.startswith('BlockIterator<'):
        return BIT.get(fn['base']) if fn['base'] != 'BlockIterator' else None
    if not cls.startswith('StableBlockVector<'):
        return None
    ety = targs(cls)[0]
    if e.spec.elem_type(ety) is None:
        return None
    base = fn['base']
    ps = [p.replace('gmlc::containers::StableBlockVector<', 'std::sbv<', 1) if p.startswith('gmlc::containers::StableBlockVector<') else p for p in conv_args(fn)]
    esz = e.spec.elem_type(ety).size
    if base in ('begin', 'end', 'cbegin', 'cend'):
        f = M.s_begin if base.endswith('begin') else M.s_end

        def h(e, st, fn, a, ins):
            p = f(e, st, 'sbv', ety, esz, a[1:], ps, fn, ins)
            put_iter(e, st, a[0], p)
        return h
    if base == 'pop_back':
        def h(e, st, fn, a, ins):
            rid = seq_of(e, st, a[0], 'sbv')
            if st.eq0(seqlen(st.regions[rid].data)):
                return None
            return M.s_pop_back(e, st, 'sbv', ety, esz, a, ps, fn, ins)
        return h
    f = M.SEQ.get(base) if base in ('operator=', 'empty', 'size', 'operator[]', 'at', 'front', 'back', 'push_back', 'emplace_back', 'clear', 'shrink_to_fit') else None
    if base == 'StableBlockVector':
        f = M.s_ctor
    elif base.startswith('~'):
        f = M.s_dtor
    if f is None:
        return s_unknown

    def h(e, st, fn, a, ins):
        return f(e, st, 'sbv', ety, esz, a, ps, fn, ins)
    return h


def it_get(e, st, p):
    v = e.load(st, p, 8, 'ptr')
    if not isinstance(v, Ptr):
        raise Undecided('block iterator')
    return v


def it_esz(st, q):
    r = st.regions.get(q.r)
    if r is None or r.kind != 'seq':
        raise Undecided('block iterator')
    return r.meta['esz']


def it_deref(e, st, fn, a, ins):
    return it_get(e, st, a[0])


def it_step(sign):
    def h(e, st, fn, a, ins):
        post = len(a) > 1
        this = a[1] if post else a[0]
        q = it_get(e, st, this)
        if post:
            put_iter(e, st, a[0], q)
        put_iter(e, st, this, q + it_esz(st, q) * sign)
        return None if post else this
    return h


def it_move(sign, copy):
    def h(e, st, fn, a, ins):
        this, mv = (a[1], a[2]) if copy else (a[0], a[1])
        n = view(st, mv if isinstance(mv, Lin) else e.load(st, mv, 8, 'i64'), 64, True)
        q = it_get(e, st, this)
        z = it_esz(st, q)
        put_iter(e, st, a[0], Ptr(q.r, st.poly.norm(q.o + n.scale(z * sign))))
        return None if copy else this
    return h


def it_cmp(pred):
    def h(e, st, fn, a, ins):
        x, y = it_get(e, st, a[0]), it_get(e, st, a[1])
        if x.r != y.r:
            raise Undecided('iterators of different containers')
        return C(1) if st.eq0(x.o - y.o) == (pred == 'eq') else ZERO
    return h


BIT = {'operator*': it_deref, 'operator->': it_deref, 'operator++': it_step(1), 'operator--': it_step(-1),
       'operator+=': it_move(1, False), 'operator-=': it_move(-1, False), 'operator+': it_move(1, True), 'operator-': it_move(-1, True),
       'operator==': it_cmp('eq'), 'operator!=': it_cmp('ne'), 'operator bool': s_unknown, 'checkEquivalence': s_unknown,
       'check': s_unknown, 'checkNeg': s_unknown}


# --- maps ----------------------------------------------------------------------
# region data: (known, rest, visited); known: tuple of (key, initially, now, node)
# with 'in', 'out' or 'maybe'; rest: 'none', 'some' or 'dirty'
def map_rid(e, st, p, k):
    v = e.load(st, p, MAPSIZE[k], 'seq:' + k)
    if isinstance(v, Model):
        return v.r
    if v is UNDEF or isinstance(v, Obj):
        e.spec.memerr(st, 'dead', 'use of a map that is not alive')
        raise Stop()
    raise Undecided('map object %r' % (v,))


def new_map(e, st, k, kt, known=(), rest='none', bound=None, inj=()):
    r = st.new_region('map', 1 << 12, k, 'undef')
    kz = e.spec.elem_type(kt).size
    r.meta = {'kt': kt, 'k': k, 'voff': (kz + 7) & ~7, 'bound': bound, 'inj': tuple(inj)}
    r.data = (tuple(known), rest, ())
    return r


def set_map(st, rid, known=None, rest=None, visited=None):
    r = st.w(rid)
    d = r.data
    r.data = (d[0] if known is None else tuple(known), d[1] if rest is None else rest, d[2] if visited is None else tuple(visited))


def node(e, st, rid, keyblob, val, kid=None):
    m = st.regions[rid]
    kz = e.spec.elem_type(m.meta['kt']).size
    r = st.new_region('node', m.meta['voff'] + 8, 'map entry')
    r.meta = {'map': Ptr(rid)}
    for o, z, v in keyblob:
        r.cells[C(o)] = (z, v)
    r.cells[C(m.meta['voff'])] = (8, val)
    return Ptr(r.rid)


def node_key(e, st, rid, p):
    """key blob of an entry"""
    kt = st.regions[rid].meta['kt']
    z = e.spec.elem_type(kt).size
    return e.blob(st, p, z)


def known_of(st, rid, kid):
    for x in st.regions[rid].data[0]:
        if x[0] == kid:
            return x
    return None


def with_known(st, rid, kid, init, now, nd):
    out = []
    for x in st.regions[rid].data[0]:
        out.append((kid, init, now, nd) if x[0] == kid else x)
    set_map(st, rid, known=out)


def decide(st, rid, kid):
    """resolve 'maybe'"""
    x = known_of(st, rid, kid)
    if x is None or x[2] != 'maybe':
        return x
    s = 'out' if st.choose('term %s' % kid, 2, ['in use', 'not in use']) else 'in'
    with_known(st, rid, kid, s, s, x[3])
    if s == 'out':
        st.w(x[3].r).alive = False
    return known_of(st, rid, kid)


def kill(st, nd):
    if nd.r in st.regions:
        st.w(nd.r).alive = False


def rest_of(st, rid):
    """'dirty' also when the current iteration has changed entries it has left"""
    d = st.regions[rid].data
    return 'dirty' if d[1] == 'some' and '~' in d[2] else d[1]


def new_rest(e, st, rid, rest=None):
    """an entry that is not among the known ones"""
    m = st.regions[rid]
    kt = m.meta['kt']
    v = st.sym('at', 0, 1 << 40)
    if (rest or rest_of(st, rid)) == 'dirty' or m.meta['bound'] is None:
        st.approx('values of changed map entries')
    else:
        st.assume(m.meta['bound'] - 1 - v)
        if st.poly.bad:
            raise Stop()
        for i, w in enumerate(m.meta['inj']):
            # terms designate different elements
            st.assume(w - v - 1 if st.choose('index of another entry / %d' % i, 2, ['smaller', 'greater']) == 0 else v - w - 1)
            if st.poly.bad:
                raise Stop()
    nd = node(e, st, rid, e.spec.elem_type(kt).fresh(e, st), v)
    st.w(nd.r).meta['v0'] = v
    return nd


def leave_rest(st, rid, nd):
    """the iteration moves on from an entry of the rest"""
    r = st.regions.get(nd.r)
    if r is None or 'v0' not in r.meta:
        return
    z, v = r.cells[C(st.regions[rid].meta['voff'])]
    if not isinstance(v, Lin) or not st.poly.entails_eq(v - r.meta['v0']):
        d = st.regions[rid].data
        if '~' not in d[2]:
            set_map(st, rid, visited=d[2] + ('~',))
    forget(st, rid, nd)


def forget(st, rid, nd):
    """content of an entry of the rest that is behind the iteration"""
    w = st.w(nd.r)
    w.meta = {'map': Ptr(rid), 'left': True}
    w.cells = {}
    w.init = recall


def recall(e, st, r, off, size, t):
    st.approx('entry behind the iteration')
    rid = r.meta['map'].r
    m = st.regions[rid]
    if st.eq0(off - m.meta['voff']) and size == 8:
        return st.sym('at', 0, 1 << 40)
    for o, z, v in e.spec.elem_type(m.meta['kt']).fresh(e, st):
        if st.eq0(off - o) and size == z:
            return v
    return None


def advance(e, st, rid):
    """next entry of an iteration"""
    order_visited(st, rid)
    known, rest, visited = st.regions[rid].data
    cand = [x for x in known if x[0] not in visited and x[2] != 'out']
    opts = ['entry %s' % x[0] for x in cand]
    if rest != 'none':
        opts.append('another entry')
    if not any(x[2] == 'in' for x in cand):
        opts.append('the end')
    k = st.choose('iteration meets', len(opts), opts) if len(opts) > 1 else 0
    o = opts[k]
    if o == 'the end':
        for x in cand:
            with_known(st, rid, x[0], 'out', 'out', x[3])
            kill(st, x[3])
        return Ptr(rid)
    if o == 'another entry':
        return new_rest(e, st, rid, rest)
    x = cand[k]
    if x[2] == 'maybe':
        with_known(st, rid, x[0], 'in', 'in', x[3])
    set_map(st, rid, visited=st.regions[rid].data[2] + (x[0],))
    return x[3]


def step_from(e, st, nd):
    r = st.regions.get(nd.r)
    if r is None or not r.alive or r.kind != 'node':
        e.spec.memerr(st, 'dead', 'a map iterator is advanced that is not valid any more')
        raise Stop()
    rid = r.meta['map'].r
    if 'left' in r.meta:
        st.approx('iteration from an entry behind')
    elif 'v0' in r.meta:
        leave_rest(st, rid, nd)
    else:
        kid = [x[0] for x in st.regions[rid].data[0] if x[3] == nd]
        if not kid:
            raise Undecided('map entry')
        if kid[0] not in st.regions[rid].data[2]:
            st.approx('iteration from the middle of a map')
            set_map(st, rid, visited=st.regions[rid].data[2] + (kid[0],))
    return rid


def order_visited(st, rid):
    # the order of the visits does not matter
    d = st.regions[rid].data
    if list(d[2]) != sorted(d[2]):
        set_map(st, rid, visited=tuple(sorted(d[2])))


def find(e, st, rid, kid):
    """entry of a key or None"""
    m = st.regions[rid]
    if kid is not None:
        x = decide(st, rid, kid)
        if x is not None:
            return x[3] if x[2] == 'in' else None
    if m.data[1] == 'none':
        return None
    if st.choose('other term', 2, ['in use', 'not in use']):
        return None
    if rest_of(st, rid) == 'dirty':
        # nothing is known about its value; it matters when it is read
        r = st.new_region('node', m.meta['voff'] + 8, 'map entry')
        nd = Ptr(r.rid)
        forget(st, rid, nd)
        return nd
    nd = new_rest(e, st, rid)
    set_map(st, rid, rest='dirty')
    return nd


def key_arg(e, st, rid, p, pt):
    """(key, key blob) of a key argument"""
    kt = st.regions[rid].meta['kt']
    t = canon_ty(pt).replace('const', '').rstrip('&')
    if kt == VIEWTY:
        if t == VIEWTY:
            ln, q = read_view(e, st, p)
        elif t == STR:
            o = get_obj(e, st, p, 'string', 32, 'use of')
            ln, q = str_len(st, o.id), p
        else:
            raise Undecided('term of type ' + pt)
        return view_key(e, st, ln, q, 'the lookup'), ((0, 8, ln), (8, 8, q))
    if t != kt:
        raise Undecided('term of type ' + pt)
    z = e.spec.elem_type(kt).size
    o = get_obj(e, st, p, kt, z, 'use of')
    if o.st == 'moved':
        return None, ((0, z, o),)
    return (o.id if isinstance(o.id, str) else None), ((0, z, Obj(kt, o.id)),)


def insert(e, st, rid, kid, blob, val):
    if not isinstance(val, Lin):
        raise Undecided('mapped value')
    x = known_of(st, rid, kid) if kid is not None else None
    nd = node(e, st, rid, blob, val)
    if x is None:
        if isinstance(kid, str) or any(isinstance(v, Obj) and v.st == 'moved' for _, _, v in blob):
            e.spec.stray(st, 'a term that was never given is added to the lookup')
            raise Stop()
        set_map(st, rid, rest='dirty')
        st.w(nd.r).meta['v0'] = val
    else:
        with_known(st, rid, kid, x[1], 'in', nd)
    return nd


def value_arg(e, st, p, pt):
    t = canon_ty(pt).replace('const', '').rstrip('&').strip()
    if t == 'ulong':
        return e.load(st, p, 8, 'i64')
    if t in ('int', 'unsignedint'):
        return view(st, e.load(st, p, 4, 'i32'), 32, t == 'int')
    raise Undecided('mapped value of type ' + pt)


def pair_ret(ins, nd, new):
    return Agg([nd, C(1) if new else ZERO])


def p_find(e, st, k, rid, a, ps, fn, ins):
    kid, _ = key_arg(e, st, rid, a[1], ps[0])
    nd = find(e, st, rid, kid)
    return nd if nd is not None else Ptr(rid)


def p_count(e, st, k, rid, a, ps, fn, ins):
    kid, _ = key_arg(e, st, rid, a[1], ps[0])
    return C(1) if find(e, st, rid, kid) is not None else ZERO


def p_emplace(e, st, k, rid, a, ps, fn, ins):
    if len(ps) != 2:
        raise Undecided('emplace ' + fn['dem'][:100])
    kid, blob = key_arg(e, st, rid, a[1], ps[0])
    nd = find(e, st, rid, kid)
    if nd is not None:
        return pair_ret(ins, nd, False)
    return pair_ret(ins, insert(e, st, rid, kid, blob, value_arg(e, st, a[2], ps[1])), True)


def p_insert_or_assign(e, st, k, rid, a, ps, fn, ins):
    kid, blob = key_arg(e, st, rid, a[1], ps[0])
    v = value_arg(e, st, a[2], ps[1])
    nd = find(e, st, rid, kid)
    if nd is not None:
        e.store(st, nd + st.regions[rid].meta['voff'], 8, v)
        return pair_ret(ins, nd, False)
    return pair_ret(ins, insert(e, st, rid, kid, blob, v), True)


def p_insert(e, st, k, rid, a, ps, fn, ins):
    if len(ps) != 1 or 'pair<' not in ps[0]:
        raise Undecided('insert ' + fn['dem'][:100])
    t = ps[0][ps[0].index('pair<'):]
    pt = targs(t.rstrip('&').rstrip())
    kt = pt[0]
    kz = {VIEWTY: 16, STR: 32}.get(canon_ty(kt).replace('const', ''), 8)
    kid, blob = key_arg(e, st, rid, a[1], kt)
    nd = find(e, st, rid, kid)
    if nd is not None:
        return pair_ret(ins, nd, False)
    return pair_ret(ins, insert(e, st, rid, kid, blob, value_arg(e, st, a[1] + kz, pt[1])), True)


def p_index(e, st, k, rid, a, ps, fn, ins):
    kid, blob = key_arg(e, st, rid, a[1], ps[0])
    nd = find(e, st, rid, kid)
    if nd is None:
        nd = insert(e, st, rid, kid, blob, ZERO)
    return nd + st.regions[rid].meta['voff']


def p_at(e, st, k, rid, a, ps, fn, ins):
    kid, blob = key_arg(e, st, rid, a[1], ps[0])
    nd = find(e, st, rid, kid)
    if nd is None:
        raise Throw('std')
    return nd + st.regions[rid].meta['voff']


def p_begin(e, st, k, rid, a, ps, fn, ins):
    set_map(st, rid, visited=(), rest=rest_of(st, rid))
    return advance(e, st, rid)


def p_end(e, st, k, rid, a, ps, fn, ins):
    return Ptr(rid)


def erase_node(e, st, rid, nd):
    r = st.regions.get(nd.r)
    if r is None or not r.alive or r.kind != 'node':
        e.spec.memerr(st, 'dead', 'erasure of a map entry that does not exist')
        raise Stop()
    if r.meta['map'].r != rid:
        e.spec.memerr(st, 'bounds', 'erasure of an entry of another map')
        raise Stop()
    for x in st.regions[rid].data[0]:
        if x[3] == nd:
            with_known(st, rid, x[0], x[1], 'out', nd)
    if 'v0' in r.meta:
        forget(st, rid, nd)
    kill(st, nd)


def p_erase(e, st, k, rid, a, ps, fn, ins):
    if len(a) != 2:
        raise Undecided('erase ' + fn['dem'][:100])
    p = ps[0]
    if 'iterator' in p:
        nd = a[1]
        if not isinstance(nd, Ptr):
            raise Undecided('map iterator')
        erase_node(e, st, rid, nd)
        if ins.get('t') == 'void':
            return None
        # the iterator handed back is usually dropped: advance only on use
        return lazy_next(e, st, rid)
    kid, _ = key_arg(e, st, rid, a[1], p)
    nd = find(e, st, rid, kid)
    if nd is None:
        return ZERO
    erase_node(e, st, rid, nd)
    return C(1)


def lazy_next(e, st, rid):
    if st.regions[rid].meta.get('iter'):
        order_visited(st, rid)
        return advance(e, st, rid)
    return Ptr(rid, C(1))     # not inspected by anyone


def p_clear(e, st, k, rid, a, ps, fn, ins):
    for x in st.regions[rid].data[0]:
        with_known(st, rid, x[0], x[1], 'out', x[3])
        kill(st, x[3])
    set_map(st, rid, rest='none')


def p_size(e, st, k, rid, a, ps, fn, ins):
    known, rest, _ = st.regions[rid].data
    for x in known:
        decide(st, rid, x[0])
    n = sum(1 for x in st.regions[rid].data[0] if x[2] == 'in')
    if rest == 'none':
        return C(n)
    return C(n) + st.sym('terms', 0, 1 << 40)


def p_empty(e, st, k, rid, a, ps, fn, ins):
    n = p_size(e, st, k, rid, a, ps, fn, ins)
    if st.eq0(n):
        set_map(st, rid, rest='none')
        return C(1)
    return ZERO


def copy_map(e, st, rid):
    for x in st.regions[rid].data[0]:
        decide(st, rid, x[0])
    m = st.regions[rid]
    r = new_map(e, st, m.meta['k'], m.meta['kt'], (), rest_of(st, rid), m.meta['bound'], m.meta['inj'])
    out = []
    for kid, init, now, nd in m.data[0]:
        if now == 'in':
            nd = node(e, st, r.rid, node_key(e, st, rid, nd), e.load(st, nd + m.meta['voff'], 8, 'i64'))
        out.append((kid, init, now, nd))
    set_map(st, r.rid, known=out)
    return r.rid


def empty_like(e, st, rid):
    """map without entries in which the same keys are tracked"""
    m = st.regions[rid]
    r = new_map(e, st, m.meta['k'], m.meta['kt'], tuple((x[0], 'out', 'out', Ptr(0)) for x in m.data[0]), 'none', m.meta['bound'])
    return r.rid


def p_ctor(e, st, k, a, ps, fn, ins, kt):
    z = MAPSIZE[k]
    ps = [p for p in ps if 'std::allocator<' not in p or re.match(r'^std::(unordered_)?map<', p)]
    if not ps:
        r = new_map(e, st, k, kt, tuple((x, 'out', 'out', Ptr(0)) for x in e.spec.tracked(st, kt)))
        e.store(st, a[0], z, Model(k, r.rid))
        return None
    if not re.match(r'^std::(unordered_)?map<', ps[0]):
        raise Undecided('map construction ' + fn['dem'][:100])
    src = map_rid(e, st, a[1], k)
    if ps[0].endswith('&&'):
        e.store(st, a[0], z, Model(k, src))
        e.store(st, a[1], z, Model(k, empty_like(e, st, src)))
    else:
        e.store(st, a[0], z, Model(k, copy_map(e, st, src)))


def drop_map(st, rid):
    for x in st.regions[rid].data[0]:
        if x[3].r:
            kill(st, x[3])
    st.w(rid).alive = False


def p_assign(e, st, k, rid, a, ps, fn, ins):
    z = MAPSIZE[k]
    if not re.match(r'^std::(unordered_)?map<', ps[0]):
        raise Undecided('map assignment')
    src = map_rid(e, st, a[1], k)
    if ps[0].endswith('&&'):
        if src == rid:
            p_clear(e, st, k, rid, a, ps, fn, ins)
            return a[0]
        n = empty_like(e, st, src)
        drop_map(st, rid)
        e.store(st, a[0], z, Model(k, src))
        e.store(st, a[1], z, Model(k, n))
        return a[0]
    if src == rid:
        return a[0]
    n = copy_map(e, st, src)
    drop_map(st, rid)
    e.store(st, a[0], z, Model(k, n))
    return a[0]


def p_swap(e, st, k, rid, a, ps, fn, ins):
    z = MAPSIZE[k]
    src = map_rid(e, st, a[1], k)
    e.store(st, a[0], z, Model(k, src))
    e.store(st, a[1], z, Model(k, rid))


def p_dtor(e, st, k, rid, a, ps, fn, ins):
    drop_map(st, rid)
    e.store(st, a[0], MAPSIZE[k], UNDEF)


def p_reserve(e, st, k, rid, a, ps, fn, ins):
    return None


MAP = {'find': p_find, 'count': p_count, 'contains': p_count, 'emplace': p_emplace, 'try_emplace': p_emplace, 'insert_or_assign': p_insert_or_assign,
       'insert': p_insert, 'operator[]': p_index, 'at': p_at, 'begin': p_begin, 'cbegin': p_begin, 'end': p_end, 'cend': p_end, 'erase': p_erase,
       'clear': p_clear, 'size': p_size, 'empty': p_empty, 'operator=': p_assign, 'swap': p_swap, 'reserve': p_reserve}


def m_map(e, fn):
    if fn.get('decl') or not fn.get('std'):
        return None
    cls = (fn.get('cls') or '')
    base = fn['base']
    if re.match(r'^(_Node_iterator|_Node_const_iterator|_Rb_tree_iterator|_Rb_tree_const_iterator)<', cls):
        return NIT.get(base)
    if cls.startswith('_Node_iterator_base<') and base == '_M_incr':
        return s_unknown
    m = re.match(r'^(unordered_map|map)<', cls)
    if not m:
        return None
    k = 'umap' if m.group(1) == 'unordered_map' else 'map'
    ta = targs(cls)
    kt = canon_ty(ta[0])
    if e.spec.elem_type(kt) is None or canon_ty(ta[1]) != 'ulong':
        return s_unknown
    ps = conv_args(fn)
    if base == m.group(1):
        return lambda e, st, fn, a, ins: p_ctor(e, st, k, a, ps, fn, ins, kt)
    f = p_dtor if base.startswith('~') else MAP.get(base)
    if f is None:
        return s_unknown

    def h(e, st, fn, a, ins):
        rid = map_rid(e, st, a[0], k)
        if base in ('begin', 'cbegin'):
            st.w(rid).meta['iter'] = True
        return f(e, st, k, rid, a, ps, fn, ins)
    return h


def cur_node(e, st, p):
    v = e.load(st, p, 8, 'ptr')
    if not isinstance(v, Ptr):
        raise Undecided('map iterator')
    r = st.regions.get(v.r)
    if r is not None and r.kind == 'map':
        if v.o == C(1):
            raise Undecided('iterator returned by erase')
        e.spec.memerr(st, 'bounds', 'the end iterator of a map is used as an entry')
        raise Stop()
    if r is None or r.kind != 'node' or not r.alive:
        e.spec.memerr(st, 'dead', 'use of a map entry that does not exist any more')
        raise Stop()
    return v


def n_deref(e, st, fn, a, ins):
    return cur_node(e, st, a[0])


def n_inc(e, st, fn, a, ins):
    nd = cur_node(e, st, a[0])
    rid = step_from(e, st, nd)
    order_visited(st, rid)
    nx = advance(e, st, rid)
    e.store(st, a[0], 8, nx)
    return nd if len(a) > 1 else a[0]


NIT = {'operator->': n_deref, 'operator*': n_deref, 'operator++': n_inc, 'operator--': s_unknown}
ALL = [m_map, m_names, m_string, m_sbv] + M.ALL
