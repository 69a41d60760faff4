"""mapFind (M08): every form on an arbitrary map, the key given in it or not."""
from .poly import C, ZERO
from .engine import Engine, State, Ptr, Obj, Model, Undecided, view, Lin
from . import maps
from .maps import MAPSIZE
from . import mapped
from .mapped import MSpec, G

HARNESS = ['mapfind']
MAPS = {'hash': ('umap', 'Key1', 'std::unordered_map'), 'order': ('map', 'Key2', 'std::map')}
OPS = ('def', 'opt')


class FSpec(MSpec):
    def __init__(self, prog, kind, op, prop):
        super().__init__(prog, 'mv', op, prop)


def run(P, kind, op, r):
    k, kt, nm = MAPS[kind]
    sp = FSpec(P, kind, op, ('M08',))
    e = Engine(P, sp, max_paths=2000)
    e.models = sp.models()
    sp.eng = e
    sp.track = {kt: ('A1', 'K1')}
    done = [0]
    for given in (True, False):
        for other in (True, False):
            st = State()
            g = st.ghost = G()
            q = maps.new_map(e, st, k, kt, (), 'some')
            known = []
            vals = {}
            for t, b in (('A1', given), ('K1', other)):
                if b:
                    vals[t] = st.sym('value' + t, 0, (1 << 64) - 1)
                    known.append((t, 'in', 'in', maps.node(e, st, q.rid, ((0, 8, Obj(kt, t)),), vals[t])))
                else:
                    vals[t] = None
                    known.append((t, 'out', 'out', Ptr(0)))
            maps.set_map(st, q.rid, known=known)
            obj = st.new_region('arg', MAPSIZE[k], 'map')
            obj.cells[ZERO] = (MAPSIZE[k], Model(k, q.rid))
            key = st.new_region('arg', 8, 'key')
            key.cells[ZERO] = (8, Obj(kt, 'A1'))
            cell = st.new_region('arg', 8, 'default' if op == 'def' else 'result')
            d = st.sym('default', 0, (1 << 64) - 1)
            cell.cells[ZERO] = (8, d)
            g.p = dict(vals)
            g.roots = tuple(Ptr(i) for i in sorted(st.regions))

            def fin(s, vals=vals, d=d, obj=obj.rid, rid=q.rid, cell=cell.rid, key=key.rid, given=given):
                done[0] += 1
                rep = lambda rule, msg: e.report(s, 'M08', rule, msg)
                if s.exc:
                    rep('exception', 'mapFind throws')
                    return
                v = s.ret
                if not isinstance(v, Lin):
                    raise Undecided('result %r' % (v,))
                v = view(s, v, 64, False)
                if op == 'def':
                    want = vals['A1'] if given else d
                    if not s.eq0(v - want):
                        rep('result', 'mapFind with a default returns %r instead of %s' % (s.poly.norm(v), 'the value stored under the key' if given else 'the default'))
                else:
                    if s.eq0(v) == given:
                        rep('result', 'mapFind returns %s' % ('nothing for a key in the map' if given else 'a value for a key not in the map'))
                    elif given:
                        w = s.regions[cell].cells.get(ZERO)
                        if w is None or not isinstance(w[1], Lin):
                            raise Undecided('result')
                        if not s.eq0(view(s, w[1], 64, False) - vals['A1']):
                            rep('result', 'mapFind returns another value than the one stored under the key')
                # the arguments are what they were
                c = s.regions[obj].cells.get(ZERO)
                if c is None or not isinstance(c[1], Model):
                    rep('map', 'mapFind destroys the map')
                    return
                m = s.regions[c[1].r]
                if m.data[1] != 'some':
                    rep('map', 'mapFind changes other entries of the map')
                for t in ('A1', 'K1'):
                    x = maps.known_of(s, c[1].r, t)
                    if x is None:
                        raise Undecided('key not followed')
                    if (x[2] == 'in') != (vals[t] is not None):
                        rep('map', 'mapFind %s an entry' % ('adds' if vals[t] is None else 'removes'))
                    elif vals[t] is not None:
                        w = e.load(s, x[3] + m.meta['voff'], 8, 'i64')
                        if not s.eq0(view(s, w, 64, False) - vals[t]):
                            rep('map', 'mapFind changes the value of an entry')
                if op == 'def':
                    w = s.regions[cell].cells.get(ZERO)
                    if w is None or not isinstance(w[1], Lin) or not s.eq0(w[1] - d):
                        rep('map', 'mapFind changes the default')
            e.call_entry(st, 'vp_%s_%s' % (kind, op), [Ptr(obj.rid), Ptr(key.rid), Ptr(cell.rid)])
            e.run('mapFind on %s, %s (key %s, another key %s)' % (nm, 'default given' if op == 'def' else 'optional result', 'in the map' if given else 'not in the map',
                                                                'in the map' if other else 'not in the map'), st, fin)
    r.engine(e, done[0])


def job(P, kind, op):
    def fn(r):
        run(P, kind, op, r)
    return fn


def jobs(ctx):
    P = ctx['prog']['mapfind']
    return [('mapFind %s %s' % (MAPS[k][2], op), job(P, k, op)) for k in MAPS for op in OPS]


ASSUME = [
    'std::map and std::unordered_map behave as the standard says, equality, order and hash of the keys are consistent and do not throw',
]
EXPLAIN = {'*': 'All forms of mapFind are interpreted abstractly on an arbitrary map in which the key given and one further key are followed (each in the map or not, all values symbols); the result and the map '
                'afterwards are compared with what the property demands.'}
RULES = {'*': 'result = stored value if the key is in the map, else the default or nothing; every entry of the map is what it was'}
