"""Mapped vectors (M01..M04, M06, M07).

The representation (which member is the storage, the lookup, the names) is found
by interpreting the default constructor. Every operation is then interpreted from
an arbitrary content in which a few terms are followed: the argument, a term that
designates an existing element, and one other term that stands for all the rest."""
from .poly import Lin, C, ZERO, fresh
from .engine import Engine, Spec, Ghost, State, Ptr, NULL, UNDEF, Agg, Obj, Model, Undecided, Stop, Throw, view
from . import models as M
from .models import ModelSpec, OpaqueClass, new_seq, new_var, seqlen, seqnorm, seq_equal, show_seq, locate, set_seq, get_obj, canon_ty, conv_args
from . import maps
from .maps import VIEWTY, STR, MAPSIZE

HARNESS = ['mapped']
UPTR = 'std::unique_ptr<V,std::default_delete<V>>'
CONT = {
    'mv': dict(name='MappedVector<unstable>', keys=['Key1']),
    'ms': dict(name='MappedVector<stable>', keys=['Key2'], stable=True),
    'sv': dict(name='StringMappedVector<unstable>', keys=[VIEWTY]),
    'ss': dict(name='StringMappedVector<stable>', keys=[VIEWTY], stable=True),
    'mp': dict(name='MappedPointerVector<hashed>', keys=['Key1'], ptr=True),
    'mq': dict(name='MappedPointerVector<ordered>', keys=['Key2'], ptr=True),
    'dv': dict(name='DualMappedVector<unstable>', keys=['Key1', 'Key2']),
    'ds': dict(name='DualMappedVector<stable>', keys=['Key2', 'Key1'], stable=True),
    'tv': dict(name='DualStringMappedVector<unstable>', keys=[VIEWTY, 'Key1']),
    'ts': dict(name='DualStringMappedVector<stable>', keys=[VIEWTY, 'Key2'], stable=True),
    'dp': dict(name='DualMappedPointerVector', keys=['Key1', 'Key2'], ptr=True),
}
for _c in CONT.values():
    _c.setdefault('stable', False)
    _c.setdefault('ptr', False)
    _c['string'] = VIEWTY in _c['keys']
    _c['dual'] = len(_c['keys']) == 2

LIFE = ['ctor', 'dtor', 'move_ctor', 'move_assign', 'size', 'clear', 'removeIndex']
VALUES = ['copy_ctor', 'copy_assign', 'index', 'cindex', 'at', 'cat', 'back', 'cback', 'apply', 'modify', 'transform', 'iterate']
POINTERS = ['pindex', 'pback', 'papply', 'cpapply', 'piterate']


def ops(k):
    c = CONT[k]
    out = LIFE + (POINTERS if c['ptr'] else VALUES)
    if c['dual']:
        out = out + ['insert', 'assign', 'insert_1', 'insert_2', 'assign_1', 'assign_2', 'remove1', 'remove2']
        if c['ptr']:
            out += ['pfind1', 'pfind2', 'pat', 'insert_p', 'assign_p']
        else:
            out += ['insert_none', 'find1', 'cfind1', 'find2', 'cfind2', 'addidx1', 'addidx2', 'add11', 'add12', 'add21', 'add22']
    else:
        out = out + ['insert', 'insert_none', 'assign', 'remove1']
        if c['ptr']:
            out += ['addidx1', 'pfind1', 'insert_p', 'assign_p']
        else:
            out += ['find1', 'cfind1', 'insert_v', 'assign_v']
            if not c['string']:
                out += ['addidx1']
    return out


class G(Ghost):
    seqs = ('visits', 'results')

    def __init__(self):
        self.visits = ()
        self.results = ()
        self.lens = {}
        self.reststr = 0
        self.nothrow = True
        self.seed = None
        self.dead = ()
        self.p = {}         # index each followed term designates before the operation
        self.n = self.idx = None
        self.roots = ()     # regions the final comparison needs

    def canon(self, cn):
        return tuple((k, cn.any(v if not isinstance(v, dict) else tuple(sorted(v.items())))) for k, v in sorted(self.__dict__.items()) if k != '_')


class MSpec(ModelSpec, Spec):
    pure_end = False
    liveness = True

    def __init__(self, prog, kind, op, prop):
        self.prog = prog
        self.kind = kind
        self.op = op
        self.c = CONT[kind]
        self.prop = prop            # properties the operation belongs to
        self.mem_props = {'*': prop}
        self.classes = {'V': OpaqueClass('V', 8, False), 'Key1': OpaqueClass('Key1', 8, False), 'Key2': OpaqueClass('Key2', 8, False),
                        STR: maps.StringClass(), VIEWTY: maps.ViewClass(), UPTR: M.UniquePtr('V')}
        self.elem = UPTR if self.c['ptr'] else 'V'
        self.track = {}             # key type -> followed terms

    def models(self):
        return [self.m_functors] + maps.ALL

    # --- hooks of the models
    def tracked(self, st, kt):
        return self.track.get(kt, ())

    def stale(self, st, msg):
        self.eng.report(st, 'M04' if self.c['string'] else self.prop[0], 'term storage', msg)

    def stray(self, st, msg):
        self.eng.report(st, self.prop[0], 'stray term', msg)

    def value_of(self, st, cls, args):
        if cls == 'V' and len(args) == 1 and isinstance(args[0], Lin) and st.ghost.seed is not None:
            if st.poly.entails_eq(view(st, args[0], 32, True) - st.ghost.seed):
                return 'new'
        return fresh('val')

    def elem_from(self, st, ety, ps, a, ins):
        e = self.eng
        ety = canon_ty(ety)
        if ety == 'V' and len(a) == 1 and canon_ty(ps[0]).replace('const', '').rstrip('&') == 'int':
            v = a[0]
            if isinstance(v, Ptr):
                v = e.load(st, v, 4, 'i32')
            return ((0, 8, Obj('V', self.value_of(st, 'V', [v]))),)
        if ety == STR:
            i = maps.string_from(e, st, [canon_p(p) for p in ps], list(a), ins)
            return None if i is None else ((0, 32, Obj('string', i)),)
        if ety == VIEWTY and len(a) == 1 and canon_ty(ps[0]).replace('const', '').rstrip('&') == STR:
            o = get_obj(e, st, a[0], 'string', 32, 'view of')
            return ((0, 8, maps.str_len(st, o.id)), (8, 8, a[0]))
        if ety == UPTR and len(a) == 1:
            p = canon_ty(ps[0]).rstrip('&')
            if p == 'V*':
                q = a[0]
                if ps[0].rstrip().endswith('&'):
                    q = e.load(st, q, 8, 'ptr')
                return ((0, 8, q),)
            if 'nullptr' in p:
                return ((0, 8, NULL),)
        return None

    def fresh_unique(self, st, ty):
        r = st.new_region('heap', 8, 'element')
        r.meta = {'token': True}
        r.cells[ZERO] = (8, Obj('V', fresh('v')))
        return ((0, 8, Ptr(r.rid)),)

    def delete_object(self, st, p, ty):
        e = self.eng
        r = st.regions.get(p.r)
        if r is None or not r.alive:
            self.memerr(st, 'free', 'an element is destroyed twice')
            raise Stop()
        if r.kind != 'heap':
            self.memerr(st, 'free', 'destruction of something that is no element (%s)' % r.name)
            raise Stop()
        v = e.load(st, p, 8, 'V')
        if not isinstance(v, Obj) or v.st == 'dead':
            self.memerr(st, 'free', 'an element is destroyed twice')
            raise Stop()
        e.store(st, p, 8, Obj('V', v.id, 'dead'))
        st.w(p.r).alive = False

    def destroy_run(self, st, s, ety):
        if canon_ty(ety) == UPTR:
            if s[1] in st.ghost.dead:
                self.memerr(st, 'free', 'elements are destroyed twice')
                raise Stop()
            st.ghost.dead = st.ghost.dead + (s[1],)

    # --- loop heads
    def fold(self, st):
        drop_nodes(st)
        for rid in [i for i, r in st.regions.items() if r.kind == 'seq' and r.data]:
            r = st.regions[rid]
            if canon_ty(r.meta['ety']) in (STR, VIEWTY, 'Key1', 'Key2') and any(s[0] == 'e' and unknown(st, s[1]) for s in r.data):
                fold_unknown(st, rid)
        ModelSpec.fold(self, st)

    # --- functors
    def m_functors(self, e, fn):
        if not fn['decl']:
            return None
        d = fn['dem']
        t = {'Visit::operator()(V const&) const': self.h_visit, 'Modify::operator()(V&) const': self.h_modify,
             'VisitP::operator()(V*) const': self.h_visitp, 'VisitCP::operator()(V const*) const': self.h_visitp,
             'Change::operator()(V const&) const': self.h_change,
             'Key1::operator==(Key1 const&) const': self.h_keyeq, 'Key2::operator==(Key2 const&) const': self.h_keyeq}
        return t.get(d)

    def visit(self, st, blob):
        g = st.ghost
        g.visits = seqnorm(st, g.visits) + (('e', blob),)

    def h_visit(self, e, st, fn, a, ins):
        o = get_obj(e, st, a[1], 'V', 8, 'visit of')
        self.visit(st, ((0, 8, o),))

    def h_visitp(self, e, st, fn, a, ins):
        if not isinstance(a[1], Ptr):
            raise Undecided('pointer visited')
        if a[1].r == 0:
            self.eng.report(st, 'M07', 'visit', 'the function is called with a null pointer')
            raise Stop()
        self.visit(st, ((0, 8, a[1]),))

    def h_modify(self, e, st, fn, a, ins):
        g = st.ghost
        o = get_obj(e, st, a[1], 'V', 8, 'visit of')
        self.visit(st, ((0, 8, o),))
        n = Obj('V', fresh('mod'))
        e.store(st, a[1], 8, n)
        g.results = seqnorm(st, g.results) + (('e', ((0, 8, n),)),)

    def h_change(self, e, st, fn, a, ins):
        g = st.ghost
        o = get_obj(e, st, a[2], 'V', 8, 'visit of')
        self.visit(st, ((0, 8, o),))
        n = Obj('V', fresh('res'))
        M.construct(e, st, a[0], 'V', 8, n.id, 'value')
        g.results = seqnorm(st, g.results) + (('e', ((0, 8, n),)),)

    def h_keyeq(self, e, st, fn, a, ins):
        t = fn['dem'].split('::')[0]
        x = get_obj(e, st, a[0], t, 8, 'comparison of')
        y = get_obj(e, st, a[1], t, 8, 'comparison of')
        if x.id == y.id:
            return C(1)
        if isinstance(x.id, str) or isinstance(y.id, str):
            return ZERO
        st.approx('comparison of unknown terms')
        return C(st.choose('terms', 2, ['differ', 'are equal']))

    def ptr_cmp(self, st, p, a, b):
        return None


def unknown(st, blob):
    """an element that is none of the followed terms"""
    for o, z, v in blob:
        if isinstance(v, Obj):
            if isinstance(v.id, str) or v.st != 'live':
                return False
        elif isinstance(v, Ptr):
            r = st.regions.get(v.r)
            if r is None or not r.meta.get('any'):
                return False
        elif not isinstance(v, Lin):
            return False
    return True


def drop_nodes(st):
    """forget map entries nothing refers to any more"""
    seen = set()
    todo = []

    def refs(v):
        for x in walk(v):
            r = x.r if isinstance(x, (Ptr, Model)) else None
            if r is not None and r not in seen:
                seen.add(r)
                todo.append(r)
    for f in st.frames:
        refs(f.regs)
        refs([Ptr(a) for a in f.allocas])
    refs(st.ghost.__dict__)
    for i, r in st.regions.items():
        if r.kind != 'node' and i not in seen:
            seen.add(i)
            todo.append(i)
    while todo:
        r = st.regions.get(todo.pop())
        if r is None:
            continue
        for z, v in r.cells.values():
            refs(v)
        refs(r.data)
        refs(r.meta)
    for i in [i for i, r in st.regions.items() if r.kind == 'node' and i not in seen]:
        del st.regions[i]


def fold_unknown(st, rid):
    """neighbouring terms that are not followed become a run of any length.
    The loops that gather them meet any number of them, so the length is not
    related to anything else"""
    r = st.regions[rid]
    z = r.meta['esz']
    ptrs = {}
    bad = []

    def look(v):
        if isinstance(v, Ptr):
            if v.r == rid:
                ptrs[st.poly.norm(v.o)] = None
        elif isinstance(v, Agg):
            for x in v.v:
                look(x)
        elif isinstance(v, (list, tuple, set, frozenset)):
            for x in v:
                look(x)
        elif isinstance(v, dict):
            for k, x in v.items():
                look(k)
                look(x)
        elif hasattr(v, '__dict__') and not isinstance(v, Model):
            look(v.__dict__)
    for f in st.frames:
        look(f.regs)
    look(st.ghost)
    for q in st.regions.values():
        for zz, v in q.cells.values():
            look(v)
        look(q.data)
        look(q.meta)
    # boundaries pointed at
    pos = [ZERO]
    for s in r.data:
        pos.append(st.poly.norm(pos[-1] + (C(1) if s[0] == 'e' else s[3])))
    marks = {}
    for o in ptrs:
        i = [k for k, p in enumerate(pos) if st.poly.entails_eq(p.scale(z) - o)]
        if not i:
            return
        # boundaries that coincide: the last one
        ptrs[o] = i[-1]
        marks[i[-1]] = True
    out = []
    newpos = {0: ZERO}
    cur = ZERO
    k = 0
    n = len(r.data)
    while k < n:
        newpos[k] = cur
        s = r.data[k]
        if s[0] == 'e' and not unknown(st, s[1]):
            out.append(s)
            cur = cur + 1
            k += 1
            continue
        ln = ZERO
        j = k
        while j < n and (j == k or j not in marks):
            t = r.data[j]
            if t[0] == 'e' and not unknown(st, t[1]):
                break
            ln = ln + (C(1) if t[0] == 'e' else t[3])
            j += 1
        if j == k + 1 and s[0] == 'x':
            out.append(s)
            cur = cur + s[3]
        elif not st.poly.entails_eq(ln):
            v = st.sym('terms', 1 if st.poly.entails_ge(ln - 1) else 0, 1 << 40)
            out.append(('x', fresh('x'), False, v))
            cur = cur + v
        k = j
    newpos[n] = cur
    w = st.w(rid)
    w.data = tuple(out)
    mp = {}
    for o, i in ptrs.items():
        mp[o] = st.poly.norm(newpos[i].scale(z))

    def sub(v):
        if isinstance(v, Ptr):
            return Ptr(rid, mp[st.poly.norm(v.o)]) if v.r == rid else v
        if isinstance(v, Agg):
            return Agg([sub(x) for x in v.v])
        if isinstance(v, tuple):
            return tuple(sub(x) for x in v)
        if isinstance(v, list):
            return [sub(x) for x in v]
        if isinstance(v, dict):
            return {sub(k): sub(x) for k, x in v.items()}
        return v
    for f in st.frames:
        f.regs = sub(f.regs)
    g = st.ghost
    for kk in list(g.__dict__):
        g.__dict__[kk] = sub(g.__dict__[kk])
    for i in list(st.regions):
        q = st.regions[i]
        hit = []
        look2 = lambda v: [hit.append(1) for x in walk(v) if isinstance(x, Ptr) and x.r == rid]
        for zz, v in q.cells.values():
            look2(v)
        look2(q.data)
        look2(q.meta)
        if hit:
            q = st.w(i)
            q.cells = {o: (zz, sub(v)) for o, (zz, v) in q.cells.items()}
            q.data = sub(q.data)
            q.meta = sub(q.meta)


def walk(v):
    if isinstance(v, Agg):
        for x in v.v:
            yield from walk(x)
    elif isinstance(v, (list, tuple, set, frozenset)):
        for x in v:
            yield from walk(x)
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from walk(k)
            yield from walk(x)
    else:
        yield v


def canon_p(p):
    c = canon_ty(p)
    return c


# --- representation -----------------------------------------------------------
class Rep:
    """members found by running the default constructor"""

    def __init__(self, prog, kind, r):
        sp = MSpec(prog, kind, 'ctor', ('M01',))
        e = Engine(prog, sp)
        e.models = sp.models()
        st = State()
        st.ghost = G()
        obj = st.new_region('arg', 4096, 'container')
        end = []
        sp.eng = e
        e.call_entry(st, 'vp_%s_ctor' % kind, [Ptr(obj.rid)])
        e.run('%s constructor' % kind, st, lambda s: end.append(s))
        self.e = e
        self.ok = False
        self.members = []           # (offset, size, role, kind, type)
        if len(end) != 1 or e.undecided or end[0].exc:
            self.why = 'the default constructor is not understood'
            if e.undecided:
                self.why += ' (%s)' % list(e.undecided)[0][1]
            return
        s = end[0]
        self.why = ''
        keys = list(CONT[kind]['keys'])
        data = 0
        for o, (z, v) in sorted(s.regions[obj.rid].cells.items(), key=lambda x: x[0].c):
            if o.t:
                self.why = 'symbolic member offset'
                return
            if not isinstance(v, Model):
                self.why = 'a member that is no known container at offset %d' % o.c
                return
            q = s.regions[v.r]
            if q.kind == 'map':
                kt = q.meta['kt']
                if kt not in keys:
                    self.why = 'a lookup by %s' % kt
                    return
                keys.remove(kt)
                self.members.append((o.c, z, 'lookup', v.k, kt))
                if q.data[0] or q.data[1] != 'none':
                    pass
            elif q.kind == 'seq':
                ety = canon_ty(q.meta['ety'])
                if ety == sp.elem and not data:
                    data += 1
                    self.members.append((o.c, z, 'data', v.k, ety))
                elif ety == STR and VIEWTY in CONT[kind]['keys']:
                    self.members.append((o.c, z, 'names', v.k, ety))
                else:
                    self.why = 'a second container of %s' % ety
                    return
        if not data or keys:
            self.why = 'no storage or lookup found'
            return
        if sum(1 for m in self.members if m[2] == 'names') != (1 if CONT[kind]['string'] else 0):
            self.why = 'storage of the names not found'
            return
        self.size = max(m[0] + m[1] for m in self.members)
        self.ok = True

    def get(self, role, kt=None):
        for m in self.members:
            if m[2] == role and (kt is None or m[4] == kt):
                return m


class Content:
    """an arbitrary content and what is followed in it"""

    def __init__(self):
        self.obj = self.old = self.n = None
        self.p = {}         # term -> index or None
        self.kt = {}        # term -> key type
        self.names = None


def fill(sp, st, rep, obj, pres, kts, n=None, hole=None):
    """an arbitrary content with the terms pres: {term: in use?}"""
    e = sp.eng
    c = Content()
    c.obj = obj
    w = st.w(obj)
    data = rep.get('data')
    run = new_var(st, 'data')
    if n is not None:
        run = ('x', run[1], False, n)
    segs = (run,)
    c.n = run[3]
    if hole:
        # a null pointer is stored at the position of the term
        tail = new_var(st, 'data')
        segs = (run, ('e', ((0, 8, NULL),)), tail)
        c.n = run[3] + 1 + tail[3]
        c.hole = run[3]
    s = new_seq(e, st, data[3], sp.elem, segs, 'elements')
    w.cells[C(data[0])] = (data[1], Model(data[3], s.rid))
    o = new_seq(e, st, data[3], sp.elem, segs, 'elements before')
    c.data, c.old = s.rid, o.rid
    names = rep.get('names')
    at = {}
    if names is not None:
        segs = []
        pos = ZERO
        for t in sorted(pres, key=lambda t: (t[0] == 'K', t)):
            if kts[t] != VIEWTY or not pres[t]:
                continue
            x = new_var(st, 'names')
            segs += [x, ('e', ((0, 32, Obj('string', t)),))]
            pos = pos + x[3]
            at[t] = pos
            pos = pos + 1
        segs.append(new_var(st, 'names'))
        q = new_seq(e, st, names[3], STR, tuple(segs), 'names')
        w.cells[C(names[0])] = (names[1], Model(names[3], q.rid))
        c.names = q.rid
    inj = {}
    for t in pres:
        c.kt[t] = kts[t]
        c.p[t] = None
        if pres[t]:
            v = c.hole if hole == t else st.sym('at' + t, 0)
            if hole != t:
                st.assume(c.n - 1 - v)
            c.p[t] = v
    for m in rep.members:
        if m[2] != 'lookup':
            continue
        ts = [t for t in pres if kts[t] == m[4]]
        vals = [c.p[t] for t in ts if pres[t]]
        single = sp.c['string'] and not sp.c['dual']
        q = maps.new_map(e, st, m[3], m[4], (), 'some', c.n, vals if single else ())
        known = []
        for t in ts:
            if pres[t]:
                if m[4] == VIEWTY:
                    blob = ((0, 8, st.ghost.lens[t]), (8, 8, Ptr(c.names, at[t].scale(32))))
                else:
                    blob = ((0, 8, Obj(m[4], t)),)
                known.append((t, 'in', 'in', maps.node(e, st, q.rid, blob, c.p[t])))
            else:
                known.append((t, 'out', 'out', Ptr(0)))
        maps.set_map(st, q.rid, known=known)
        w.cells[C(m[0])] = (m[1], Model(m[3], q.rid))
        inj[m[4]] = vals
    if sp.c['string'] and not sp.c['dual']:
        # one term per element
        v = inj[VIEWTY]
        c.distinct = [(v[i], v[j]) for i in range(len(v)) for j in range(i)]
    else:
        c.distinct = []
    return c


# --- expectations --------------------------------------------------------------
PROPS = {'insert': 'M01', 'insert_none': 'M01', 'insert_v': 'M01', 'insert_p': 'M01', 'insert_1': 'M01', 'insert_2': 'M01'}


def props_of(op):
    if op.startswith('remove'):
        return 'M02'
    if op in ('assign', 'assign_v', 'assign_p', 'assign_1', 'assign_2'):
        return 'M03'
    if op in ('apply', 'modify', 'transform', 'iterate', 'papply', 'cpapply', 'piterate'):
        return 'M07'
    return 'M01'


def terms(c, op, k):
    """(followed argument terms, existing term) of an operation"""
    if op in ('insert', 'assign', 'insert_p', 'assign_p', 'insert_v', 'assign_v'):
        return (['A1', 'A2'] if c['dual'] else ['A1']), None
    if op in ('insert_1', 'assign_1', 'remove1', 'find1', 'cfind1', 'pfind1', 'addidx1'):
        return ['A1'], None
    if op in ('insert_2', 'assign_2', 'remove2', 'find2', 'cfind2', 'pfind2', 'addidx2'):
        return ['A2'], None
    if op.startswith('add') and len(op) == 5:
        return ['A' + op[3], 'E' + op[4]], 'E' + op[4]
    return [], None


def variants(c, op):
    ts, ex = terms(c, op, None)
    two = [{}]
    for t in ts:
        two = [dict(v, **{t: b}) for v in two for b in (True, False)]
    out = []
    maps_ = [1, 2] if c['dual'] else [1]
    for v in two:
        for i in maps_:
            for b in (True, False):
                out.append((dict(v, **{'K%d' % i: b}), 'other term %s' % ('in use' if b else 'not in use')))
    if ex and op[3] == op[4]:
        # the new term is the existing one
        for i in maps_:
            for b in (True, False):
                out.append(({'A' + op[3]: b, 'K%d' % i: True}, 'the same term twice'))
    return out


def run(prog, kind, op, r, prop=None):
    c = CONT[kind]
    rep0 = Rep(prog, kind, r)
    if not rep0.ok:
        r.engine(rep0.e)
        r.undecided.append(dict(entry='%s %s' % (c['name'], op), why='representation: ' + rep0.why, where='', paths=1))
        return
    main = props_of(op)
    pr = (main,) + (('M06',) if c['ptr'] and main != 'M06' else ())
    sp = MSpec(prog, kind, op, pr)
    e = Engine(prog, sp, max_paths=20000)
    e.models = sp.models()
    e.widen_from = 24
    e.max_visits = 40
    done = [0]
    vs = variants(c, op)
    if op in ('move_assign', 'copy_assign'):
        vs = [(v, lab) for v, lab in vs]
    for pres, lab in vs:
        ext = ['self', 'other'] if op == 'copy_assign' else [None]
        if op in ('insert_p', 'assign_p'):
            ext = [None, 'null']
        if c['ptr'] and (op.startswith('assign') and pres.get('A1' if op[-1] != '2' else 'A2') or op.startswith('remove') and (op == 'removeIndex' or pres['A' + op[-1]])):
            ext = ext + ['hole']
        for extra in ext:
            one(sp, e, rep0, kind, op, pres, lab, extra, done)
    r.engine(e, done[0])


def one(sp, e, rep, kind, op, pres, lab, extra, done):
    c = sp.c
    st = State()
    g = st.ghost = G()
    kts = {t: c['keys'][int(t[1]) - 1] for t in pres}
    same = any(t[0] == 'A' for t in pres) and op.startswith('add') and len(op) == 5 and not any(t[0] == 'E' for t in pres)
    sp.track = {}
    for t in sorted(pres):
        sp.track[kts[t]] = sp.track.get(kts[t], ()) + (t,)
        if kts[t] == VIEWTY:
            g.lens[t] = st.sym('len' + t, 0, 1 << 40)
    rs = st.new_region('opaque', 1 << 40, 'other terms', 'opaque')
    rs.meta = {'any': True}
    g.reststr = rs.rid
    raw = op in ('ctor', 'copy_ctor', 'move_ctor')
    obj = st.new_region('arg', rep.size, 'container').rid
    me = None
    if not raw:
        me = fill(sp, st, rep, obj, pres if op not in ('copy_assign', 'move_assign') or extra == 'self' else {}, kts, hole=None if extra != 'hole' else 'index' if op == 'removeIndex' else 'A2' if op[-1] == '2' else 'A1')
    src = None
    args = [Ptr(obj)]
    if op in ('copy_ctor', 'move_ctor', 'move_assign', 'copy_assign'):
        if extra == 'self':
            src = me
            args.append(Ptr(obj))
        else:
            so = st.new_region('arg', rep.size, 'source').rid
            src = fill(sp, st, rep, so, pres, kts)
            args.append(Ptr(so))
        if op in ('copy_assign', 'move_assign') and extra != 'self':
            # the terms of the destination are others
            for m in rep.members:
                if m[2] == 'lookup':
                    rid = st.regions[obj].cells[C(m[0])][1].r
                    maps.set_map(st, rid, known=[(t, 'out', 'out', Ptr(0)) for t in sp.track.get(m[4], ())])
    argreg = {}

    def term_arg(t):
        kt = kts[t]
        if kt == VIEWTY:
            s = st.new_region('arg', 32, 'string of the caller')
            s.cells[ZERO] = (32, Obj('string', t))
            v = st.new_region('arg', 16, 'view')
            v.cells[ZERO] = (8, g.lens[t])
            v.cells[C(8)] = (8, Ptr(s.rid))
            argreg[t] = s.rid
            args.append(Ptr(v.rid))
        else:
            s = st.new_region('arg', 8, 'term')
            s.cells[ZERO] = (8, Obj(kt, t))
            argreg[t] = s.rid
            args.append(Ptr(s.rid))
    ts, ex = terms(c, op, kind)
    for t in ts:
        if t == ex and same:
            t = 'A' + op[3]
        if t in pres:
            term_arg(t)
    idx = None
    argv = None
    if op in ('insert', 'assign', 'insert_none', 'insert_1', 'insert_2', 'assign_1', 'assign_2'):
        g.seed = st.sym('seed', -(1 << 31), (1 << 31) - 1)
        args.append(g.seed)
    elif op in ('insert_v', 'assign_v'):
        q = st.new_region('arg', 8, 'value')
        q.cells[ZERO] = (8, Obj('V', 'argV'))
        argv = q.rid
        args.append(Ptr(q.rid))
    elif op in ('insert_p', 'assign_p'):
        b = st.new_region('heap', 8, 'object of the caller')
        b.cells[ZERO] = (8, Obj('V', 'argV'))
        q = st.new_region('arg', 8, 'unique_ptr')
        if extra == 'null':
            st.w(b.rid).alive = False
        given = 0 if extra == 'null' else b.rid
        q.cells[ZERO] = (8, Ptr(given))
        argv = (q.rid, given)
        args.append(Ptr(q.rid))
    elif op in ('removeIndex', 'index', 'cindex', 'at', 'cat', 'pindex', 'pat', 'addidx1', 'addidx2'):
        idx = me.hole if extra == 'hole' else st.sym('index', 0, (1 << 62))
        args.append(idx)
        if op in ('index', 'cindex'):
            st.assume(me.n - 1 - idx)
    elif op in ('apply', 'modify', 'transform', 'iterate', 'papply', 'cpapply', 'piterate'):
        args.append(Ptr(st.new_region('arg', 1, 'function').rid))
    if op in ('back', 'cback', 'pback'):
        st.assume(me.n - 1)
    x = src or me
    if x is not None:
        g.p, g.n = dict(x.p), x.n
    g.idx = idx
    g.roots = tuple(Ptr(rid) for rid in sorted(st.regions))
    sts = [st]
    for x in (me, src):
        if x is None or (x is src and src is me and x is not None and len(sts) > 1):
            continue
        for a, b in x.distinct:
            nxt = []
            for s in sts:
                for d in (a - b - 1, b - a - 1):
                    s2 = s.clone()
                    s2.poly.add_ge(d)
                    nxt.append(s2)
            sts = nxt
    ck = Check(sp, e, rep, kind, op, pres, kts, me, src, argreg, argv, ex, same, extra)
    ck.raw = obj
    name = ', '.join('%s %s' % (t, 'in use' if b else 'not in use') for t, b in sorted(pres.items()))

    def fin(s):
        ck.end(s)
        done[0] += 1
    for s in sts:
        e.call_entry(s, 'vp_%s_%s' % (kind, op), list(args))
        e.run('%s %s (%s%s)' % (c['name'], op, name, {'self': ', onto itself', 'null': ', no object given', 'hole': ', no object stored'}.get(extra, '')), s, fin)


class Check:
    def __init__(self, sp, e, rep, kind, op, pres, kts, me, src, argreg, argv, ex, same, extra):
        self.__dict__.update(locals())
        self.c = sp.c

    def rep_(self, st, props, rule, msg):
        for p in (props if isinstance(props, (tuple, list)) else (props,)):
            self.e.report(st, p, rule, msg)

    def parts(self, st, obj):
        """storage, maps and names of a container at the end"""
        r = st.regions[obj]
        out = {'maps': {}, 'names': []}
        for m in self.rep.members:
            v = r.cells.get(C(m[0]))
            if v is None or not isinstance(v[1], Model):
                if v is not None and v[1] is not UNDEF:
                    raise Undecided('member at the end')
                return None
            q = st.regions[v[1].r]
            if m[2] == 'lookup':
                out['maps'][m[4]] = v[1].r
            elif m[2] == 'data':
                out['data'] = v[1].r
            else:
                out['names'].append(v[1].r)
        return out

    def term(self, st, parts, t, want, props, what):
        """term t finds index want (None: nothing)"""
        e = self.e
        kt = self.kts[t]
        rid = parts['maps'][kt]
        x = maps.known_of(st, rid, t)
        if x is None:
            raise Undecided('term %s is not followed' % t)
        nm = {'A': 'the term given', 'E': 'the existing term', 'K': 'another term'}[t[0]]
        if x[2] != 'in':
            if want is not None:
                self.rep_(st, props, 'lookup', '%s: %s does not find anything any more, it should find element %r' % (what, nm, st.poly.norm(want)))
            return
        v = e.load(st, x[3] + st.regions[rid].meta['voff'], 8, 'i64')
        if not isinstance(v, Lin):
            raise Undecided('mapped value %r' % (v,))
        v = view(st, v, 64, False)
        if want is None:
            self.rep_(st, props, 'lookup', '%s: %s finds element %r, it should find nothing' % (what, nm, st.poly.norm(v)))
            return
        if not st.eq0(v - want):
            self.rep_(st, props, 'lookup', '%s: %s finds element %r instead of %r' % (what, nm, st.poly.norm(v), st.poly.norm(want)))
        if kt == VIEWTY:
            self.owned(st, parts, t, x[3], what)

    def owned(self, st, parts, t, nd, what):
        """the text of the term lies in the names of the container"""
        e = self.e
        ln = e.load(st, nd, 8, 'i64')
        q = e.load(st, nd + 8, 8, 'ptr')
        nm = {'A': 'the term given', 'E': 'the existing term', 'K': 'another term'}[t[0]]
        if not isinstance(q, Ptr) or not isinstance(ln, Lin):
            raise Undecided('view in the lookup')
        try:
            i = maps.text_at(e, st, q)
        except maps.Stale as x:
            self.rep_(st, 'M04', 'term storage', '%s: the lookup refers to %s for %s' % (what, x, nm))
            return
        if q.r not in parts['names']:
            r = st.regions.get(q.r)
            self.rep_(st, 'M04', 'term storage', '%s: the lookup refers to %s for %s instead of the names of the container' % (what, r.name if r else 'nothing', nm))
            return
        if i != t or not st.eq0(ln - st.ghost.lens[t]):
            self.rep_(st, 'M04', 'term storage', '%s: the text the lookup refers to is not %s' % (what, nm))

    def expected(self, st, old, edit=None):
        """copy of the sequence old with edit(rid) applied"""
        r = new_seq(self.e, st, 'vector', self.sp.elem, st.regions[old].data, 'expected')
        if edit is not None:
            edit(r.rid)
        return r.rid

    def contents(self, st, parts, exp, props, what):
        a, b = st.regions[parts['data']].data, st.regions[exp].data
        n, m = seqlen(a), seqlen(b)
        if not st.eq0(n - m):
            self.rep_(st, props, 'contents', '%s: %r elements instead of %r' % (what, st.poly.norm(n), st.poly.norm(m)))
            return
        if not seq_equal(st, a, b):
            self.rep_(st, props, 'contents', '%s: the elements are %s instead of %s' % (what, show_seq(st, a), show_seq(st, b)))

    def element(self, st):
        """blob of the element an insertion stores"""
        if not self.c['ptr']:
            return ((0, 8, Obj('V', 'argV' if self.argv is not None else 'new')),)
        return None

    def at_index(self, st, rid, i, blob):
        k = locate(self.e, st, rid, i)
        if k is None:
            raise Undecided('element not located')
        segs = st.regions[rid].data
        set_seq(st, rid, segs[:k] + (('e', blob),) + segs[k + 1:])

    def without(self, st, rid, i):
        k = locate(self.e, st, rid, i)
        if k is None:
            raise Undecided('element not located')
        segs = st.regions[rid].data
        gone = segs[k]
        set_seq(st, rid, segs[:k] + segs[k + 1:])
        return gone

    def stored(self, st, parts, i):
        """element at index i of the storage"""
        rid = parts['data']
        n = seqlen(st.regions[rid].data)
        if not st.ge(n - 1 - i):
            return None
        k = locate(self.e, st, rid, i)
        return None if k is None else st.regions[rid].data[k][1]

    def new_element(self, st, parts, i, props, what):
        """the element at i is the new one; returns its blob"""
        b = self.stored(st, parts, i)
        if b is None:
            self.rep_(st, props, 'contents', '%s: there is no element %r' % (what, st.poly.norm(i)))
            raise Stop()
        if not self.c['ptr']:
            return self.element(st)
        q = b[0][2] if len(b) == 1 else None
        if not isinstance(q, Ptr):
            raise Undecided('element %r' % (b,))
        if self.argv is not None:
            want = Ptr(self.argv[1])
            if not (q.r == want.r and q.o == want.o):
                self.rep_(st, props + ('M06',), 'contents', '%s: element %r is not the object given' % (what, st.poly.norm(i)))
                raise Stop()
            if want.r == 0:
                return b
        r = st.regions.get(q.r)
        if q.r == 0 or r is None:
            self.rep_(st, props, 'contents', '%s: element %r is null' % (what, st.poly.norm(i)))
            raise Stop()
        c = r.cells.get(ZERO)
        if not r.alive or c is None or not isinstance(c[1], Obj) or c[1].st != 'live':
            self.rep_(st, props + ('M06',), 'ownership', '%s: element %r has been destroyed' % (what, st.poly.norm(i)))
            raise Stop()
        if self.argv is None and c[1].id != 'new':
            self.rep_(st, props, 'contents', '%s: element %r is not made from the arguments' % (what, st.poly.norm(i)))
        return b

    def objects(self, st, parts, gone, what, dropped_all=False):
        """ownership of the objects of a pointer vector"""
        if not self.c['ptr']:
            return
        held = set()
        for s in st.regions[parts['data']].data if parts else ():
            if s[0] == 'e':
                q = s[1][0][2]
                if isinstance(q, Ptr) and q.r:
                    if q.r in held:
                        self.rep_(st, 'M06', 'ownership', '%s: an object is owned by two elements' % what)
                    held.add(q.r)
                    r = st.regions.get(q.r)
                    if r is None or not r.alive:
                        self.rep_(st, 'M06', 'ownership', '%s: an element has been destroyed and is still stored' % what)
            elif s[1] in st.ghost.dead:
                self.rep_(st, 'M06', 'ownership', '%s: elements have been destroyed and are still stored' % what)
        if gone is not None and gone[0] == 'e':
            q = gone[1][0][2]
            if isinstance(q, Ptr) and q.r and q.r not in held:
                r = st.regions.get(q.r)
                if r is not None and r.alive:
                    self.rep_(st, 'M06', 'ownership', '%s: the object of the element removed is not destroyed' % what)
        mine = None
        if self.argv is not None:
            c = st.regions[self.argv[0]].cells.get(ZERO)
            if c and isinstance(c[1], Ptr):
                mine = c[1].r
                if mine and mine in held:
                    self.rep_(st, 'M06', 'ownership', '%s: the object has two owners' % what)
                if mine and not st.regions[mine].alive:
                    self.rep_(st, 'M06', 'ownership', '%s: the object left with the caller is destroyed' % what)
        for r in st.regions.values():
            if r.kind == 'heap' and r.alive and not r.meta.get('token') and r.rid not in held and r.rid != mine:
                self.rep_(st, 'M06', 'ownership', '%s: an object is lost (%s)' % (what, r.name))

    def unchanged(self, st, me, props, what, parts=None):
        parts = parts or self.parts(st, me.obj)
        if parts is None:
            self.rep_(st, props, 'contents', '%s: the container has been destroyed' % what)
            raise Stop()
        self.contents(st, parts, me.old, props, what)
        for t in sorted(self.pres):
            if t in st.ghost.p:
                self.term(st, parts, t, st.ghost.p[t], props, what)
        self.objects(st, parts, None, what)

    def ret_is(self, st, want, props, what):
        v = st.ret
        if not isinstance(v, Lin):
            raise Undecided('result %r' % (v,))
        v = view(st, v, 64, True)
        if not st.eq0(v - want):
            self.rep_(st, props, 'result', '%s returns %r instead of %r' % (what, st.poly.norm(v), st.poly.norm(want) if isinstance(want, Lin) else want))

    def bool_is(self, st, want, props, what):
        v = st.ret
        if not isinstance(v, Lin):
            raise Undecided('result %r' % (v,))
        if st.eq0(v) == want:
            self.rep_(st, props, 'result', '%s returns %s' % (what, 'false' if want else 'true'))

    def addr_is(self, st, parts, i, props, what):
        """the result is the address of element i (None: null)"""
        v = st.ret
        if not isinstance(v, Ptr):
            raise Undecided('result %r' % (v,))
        if i is None:
            if v.r != 0:
                self.rep_(st, props, 'result', '%s finds something' % what)
            return
        if v.r != parts['data'] or not st.eq0(v.o - i.scale(8)):
            self.rep_(st, props, 'result', '%s does not give element %r' % (what, st.poly.norm(i)))

    def object_is(self, st, parts, i, props, what):
        v = st.ret
        if not isinstance(v, Ptr):
            raise Undecided('result %r' % (v,))
        if i is None:
            if v.r != 0:
                self.rep_(st, props, 'result', '%s gives an object' % what)
            return
        b = self.stored(st, parts, i)
        if b is None:
            raise Undecided('element')
        if b[0][2] != v:
            self.rep_(st, props, 'result', '%s does not give the object of element %r' % (what, st.poly.norm(i)))

    def end(self, st):
        op = self.op
        c = self.c
        me = self.me
        P = (props_of(op),)
        what = {'assign': 'insert_or_assign'}.get(op.split('_')[0], op) if op.startswith(('assign', 'insert')) else op
        if st.exc:
            if op in ('at', 'cat', 'pat'):
                i = view(st, st.ghost.idx, 64, False)
                if st.ge(st.ghost.n - 1 - i):
                    self.rep_(st, ('M06',) if op == 'pat' else P, 'result', 'at throws for an index in range')
                else:
                    self.unchanged(st, me, P, 'at')
                return
            self.rep_(st, P, 'exception', '%s throws' % what)
            return
        X = P + (('M06',) if c['ptr'] else ())
        if op == 'dtor':
            return
        if op == 'ctor':
            parts = self.parts(st, self.me_obj(st))
            for t in sorted(self.pres):
                self.term(st, parts, t, None, P, 'a new container')
            self.size0(st, parts, P, 'a new container')
            return
        if op in ('copy_ctor', 'copy_assign', 'move_ctor', 'move_assign'):
            obj = self.me_obj(st)
            parts = self.parts(st, obj)
            if parts is None:
                raise Undecided('members of the copy')
            w = 'a copy' if op.startswith('copy') else 'a moved container'
            self.contents(st, parts, self.src.old, X, w)
            for t in sorted(self.pres):
                self.term(st, parts, t, st.ghost.p[t], P, w)
            if op.startswith('copy') and self.extra != 'self':
                sp = self.parts(st, self.src.obj)
                self.contents(st, sp, self.src.old, P, 'being copied')
                for t in sorted(self.pres):
                    self.term(st, sp, t, st.ghost.p[t], P, 'being copied')
            self.objects(st, parts, None, w)
            return
        parts = self.parts(st, me.obj)
        if parts is None:
            self.rep_(st, P, 'contents', '%s: the container has been destroyed' % what)
            return
        n = st.ghost.n
        if op == 'size':
            self.ret_is(st, n, P, 'size')
            self.unchanged(st, me, P, op)
            return
        if op == 'clear':
            self.size0(st, parts, X, 'clear')
            for t in sorted(self.pres):
                self.term(st, parts, t, None, P, 'clear')
            if c['ptr']:
                for s in st.regions[me.old].data:
                    if s[0] == 'x' and s[1] not in st.ghost.dead and not st.eq0(s[3]):
                        self.rep_(st, 'M06', 'ownership', 'clear: elements are not destroyed')
                    if s[0] == 'e':
                        self.objects(st, parts, s, 'clear')
            return
        if op in ('apply', 'iterate', 'papply', 'cpapply', 'piterate', 'modify', 'transform'):
            if not seq_equal(st, st.ghost.visits, st.regions[me.old].data):
                self.visits(st, me, op)
            if op in ('modify', 'transform'):
                if not seq_equal(st, st.ghost.results, st.regions[parts['data']].data):
                    self.rep_(st, 'M07', 'results', '%s: the elements are %s, the function produced %s' % (op, show_seq(st, st.regions[parts['data']].data), show_seq(st, st.ghost.results)))
                for t in sorted(self.pres):
                    self.term(st, parts, t, st.ghost.p[t], P, op)
            else:
                self.unchanged(st, me, P, op, parts)
            return
        if op in ('index', 'cindex', 'at', 'cat', 'back', 'cback'):
            i = n - 1 if op.endswith('back') else view(st, st.ghost.idx, 64, False)
            if not st.ge(n - 1 - i):
                self.rep_(st, P, 'result', '%s gives an element for an index out of range' % op)
                return
            self.addr_is(st, parts, i, P, op)
            self.unchanged(st, me, P, op, parts)
            return
        if op in ('pindex', 'pback', 'pat'):
            i = n - 1 if op.endswith('back') else view(st, st.ghost.idx, 64, False)
            if not st.ge(n - 1 - i):
                if op == 'pat':
                    self.rep_(st, 'M06', 'result', 'at gives an object for an index out of range')
                else:
                    self.object_is(st, parts, None, ('M06',), 'an index out of range')
                return
            self.object_is(st, parts, i, ('M06',), op)
            self.unchanged(st, me, ('M06',), op, parts)
            return
        if op.lstrip('cp').startswith('find'):
            t = 'A' + op[-1]
            if c['ptr']:
                self.object_is(st, parts, st.ghost.p[t], ('M01', 'M06'), 'find')
            else:
                self.addr_is(st, parts, st.ghost.p[t], P, 'find')
            self.unchanged(st, me, P, 'find', parts)
            return
        if op.startswith('addidx'):
            t = 'A' + op[-1]
            i = view(st, st.ghost.idx, 64, False)
            ok = not self.pres[t] and st.ge(n - 1 - i)
            self.bool_is(st, ok, P, 'addSearchTermForIndex')
            self.contents(st, parts, me.old, P, 'addSearchTermForIndex')
            for x in sorted(self.pres):
                self.term(st, parts, x, i if ok and x == t else st.ghost.p[x], P, 'addSearchTermForIndex')
            self.objects(st, parts, None, op)
            return
        if op.startswith('add'):
            t = 'A' + op[3]
            ex = t if self.same else self.ex
            ok = self.pres[ex] and not self.pres[t]
            self.bool_is(st, ok, P, 'addSearchTerm')
            self.contents(st, parts, me.old, P, 'addSearchTerm')
            for x in sorted(self.pres):
                self.term(st, parts, x, st.ghost.p[ex] if ok and x == t else st.ghost.p[x], P, 'addSearchTerm')
            return
        if op.startswith('remove'):
            if op == 'removeIndex':
                i = view(st, st.ghost.idx, 64, False)
                if not st.ge(n - 1 - i):
                    self.unchanged(st, me, P, 'removeIndex of no element', parts)
                    return
            else:
                i = st.ghost.p['A' + op[-1]]
                if i is None:
                    self.unchanged(st, me, P, 'removal of an unknown term', parts)
                    return
            self.removed(st, parts, i, P, 'removeIndex' if op == 'removeIndex' else 'remove')
            return
        self.inserted(st, parts, P, what)

    def visits(self, st, me, op):
        self.rep_(st, 'M07', 'visits', '%s calls the function for %s, the elements are %s' % (op, show_seq(st, st.ghost.visits), show_seq(st, st.regions[me.old].data)))

    def me_obj(self, st):
        return self.me.obj if self.me is not None else self.raw

    def size0(self, st, parts, props, what):
        n = seqlen(st.regions[parts['data']].data)
        if not st.eq0(n):
            self.rep_(st, props, 'contents', '%s has %r elements' % (what, st.poly.norm(n)))

    def removed(self, st, parts, i, P, what):
        me = self.me
        n = st.ghost.n
        c = self.c
        X = P + (('M06',) if c['ptr'] else ())
        drop = True
        if c['stable'] and not st.eq0(n - 1 - i):
            drop = False
        gone = [None]

        def edit(rid):
            gone[0] = self.without(st, rid, i)
        exp = self.expected(st, me.old, edit if drop else None)
        self.contents(st, parts, exp, X, what)
        for t in sorted(self.pres):
            w = st.ghost.p[t]
            if w is not None:
                if st.eq0(w - i):
                    w = None
                elif drop and st.ge(w - i - 1):
                    w = w - 1
            self.term(st, parts, t, w, P, what)
        self.objects(st, parts, gone[0], what)

    def inserted(self, st, parts, P, what):
        me = self.me
        n = st.ghost.n
        op = self.op
        c = self.c
        args = [t for t in terms(c, op, None)[0]]
        use = [self.pres[t] for t in args]
        assign = op.startswith('assign')
        if assign:
            same = False
            if use and use[0]:
                if len(args) == 1 or not c['ptr']:
                    same = True
                elif use[1]:
                    same = st.eq0(st.ghost.p[args[0]] - st.ghost.p[args[1]])
            if same:
                Q = ('M03',)
                p = st.ghost.p[args[0]]
                gone = [None]
                self.ret_is(st, p, Q, what)
                nb = self.new_element(st, parts, p, Q, what)

                def edit(rid):
                    k = locate(self.e, st, rid, p)
                    gone[0] = st.regions[rid].data[k]
                    self.at_index(st, rid, p, nb)
                exp = self.expected(st, me.old, edit)
                self.contents(st, parts, exp, Q + (('M06',) if c['ptr'] else ()), what)
                for t in sorted(self.pres):
                    self.term(st, parts, t, p if t in args else st.ghost.p[t], Q, what)
                self.objects(st, parts, gone[0], what)
                self.taken(st, Q, what)
                return
        elif use and all(use):
            Q = ('M03',)
            self.ret_is(st, C(-1), Q, what)
            self.unchanged(st, me, Q, 'a refused ' + what, parts)
            if self.argv is not None:
                if c['ptr']:
                    v = st.regions[self.argv[0]].cells.get(ZERO)
                    if v is None or v[1] != Ptr(self.argv[1]):
                        self.rep_(st, Q + ('M06',), 'argument', 'a refused insertion takes the object')
                else:
                    v = st.regions[self.argv].cells.get(ZERO)
                    if v is None or v[1] != Obj('V', 'argV'):
                        self.rep_(st, Q, 'argument', 'a refused insertion takes the value')
            return
        if any(use):
            # one of two terms in use: only the other terms and elements are promised
            self.kept(st, parts, args, P, what)
            return
        Q = ('M01', 'M03') if assign else ('M01',)
        self.ret_is(st, n, Q, what)
        nb = self.new_element(st, parts, n, Q, what)

        def app(rid):
            set_seq(st, rid, st.regions[rid].data + (('e', nb),))
        exp = self.expected(st, me.old, app)
        self.contents(st, parts, exp, Q + (('M06',) if c['ptr'] else ()), what)
        for t in sorted(self.pres):
            self.term(st, parts, t, n if t in args else st.ghost.p[t], Q, what)
        self.objects(st, parts, None, what)
        self.taken(st, Q, what)

    def taken(self, st, Q, what):
        if self.argv is None or not self.c['ptr']:
            return
        v = st.regions[self.argv[0]].cells.get(ZERO)
        if v is None or v[1] != NULL:
            self.rep_(st, ('M06',), 'ownership', '%s leaves the object with the caller as well' % what)

    def kept(self, st, parts, args, P, what):
        me = self.me
        for t in sorted(self.pres):
            if t not in args:
                self.term(st, parts, t, st.ghost.p[t], ('M01',), what)


def job(P, kind, op):
    def fn(r):
        run(P, kind, op, r)
    return fn


def concerns(prop, op):
    """may the operation break the property (as findings are attributed)"""
    if prop in ('M02', 'M07'):
        return props_of(op) == prop
    if prop == 'M01':
        return props_of(op) in ('M01', 'M03')
    if prop == 'M03':
        return op.startswith(('insert', 'assign'))
    return True


def jobs(ctx):
    P = ctx['prog']['mapped']
    out = []
    for k in CONT:
        if ctx.get('prop') == 'M04' and not CONT[k]['string']:
            continue
        if ctx.get('prop') == 'M06' and not CONT[k]['ptr']:
            continue
        for op in ops(k):
            if not concerns(ctx.get('prop'), op):
                continue
            out.append(('%s %s' % (CONT[k]['name'], op), job(P, k, op)))
    return out


ASSUME = [
    'std::map, std::unordered_map, std::vector, std::string and std::unique_ptr behave as the standard says; allocation does not fail',
    'equality, order and hash of the search terms are consistent and they, the elements and the functions do not throw',
    'StableBlockVector behaves as a sequence with stable addresses (B01..B07 decide that)',
]
EXPLAIN = {
    '*': 'Every operation is interpreted abstractly on an arbitrary content. Terms are followed individually: those given to the operation, an existing one, and one further term that stands for all '
         'the others (in use or not); the indices they designate, the number of elements and the index argument are symbols related by a polyhedron. Maps are summarised at all other entries, loops over '
         'maps and elements are iterated to a fixpoint. At the end of every abstract path the storage, the index each followed term designates and the result are compared with what the property demands.',
}
RULES = {'*': 'storage, lookup and result after the operation equal the specified ones on every abstract path; views held by the lookup designate live strings of the same container; every object has one owner'}
