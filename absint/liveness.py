"""Liveness of registers and of stack variables whose address is not kept.

A register or variable that is not read again before it is written again does
not distinguish two states; dropping it lets states meet at loop heads."""
from .poly import Lin, _tight
from .engine import Ptr, Agg, Model


def operands(ins):
    out = []
    for x in ins.get('a') or ():
        if x.__class__ is int:
            out.append(x)
    f = ins.get('f')
    if f.__class__ is int:
        out.append(f)
    g = ins.get('g')
    if g and g[1] != '?':
        for sc, x, t in g[1]:
            if x.__class__ is int:
                out.append(x)
    return out


def succs(ins):
    out = list(ins.get('s') or ())
    if 'cases' in ins:
        out += [b for _, b in ins['cases']] + [ins['def']]
    return out


class Live:
    def __init__(self, fn):
        self.fn = fn
        self.root = {}      # register -> (alloca register, offset or None)
        self.size = {}
        blocks = fn['blocks']
        for b in blocks:
            for ins in b['i']:
                if ins['o'] == 'alloca':
                    n = ins['a'][0]
                    self.size[ins['d']] = ins['z'] if n[0] == 'i' and int(n[2]) == 1 else None
                    self.root[ins['d']] = (ins['d'], 0)
        chg = True
        while chg:
            chg = False
            for b in blocks:
                for ins in b['i']:
                    d = ins.get('d')
                    if ins['o'] == 'getelementptr' and d not in self.root and ins['a'][0].__class__ is int and ins['a'][0] in self.root:
                        r, o = self.root[ins['a'][0]]
                        off, var = ins['g']
                        self.root[d] = (r, o + off if o is not None and var != '?' and not var else None)
                        chg = True
        self.ins_ = [set() for _ in blocks]      # live at the start of the block, after its phis
        self.outs = [set() for _ in blocks]
        preds = [[] for _ in blocks]
        for i, b in enumerate(blocks):
            for s in succs(b['i'][-1]):
                preds[s].append(i)
        work = list(range(len(blocks)))
        while work:
            i = work.pop()
            out = set()
            for s in succs(blocks[i]['i'][-1]):
                v = set(self.ins_[s])
                for ins in blocks[s]['i']:
                    if ins['o'] != 'phi':
                        break
                    v.discard(ins['d'])
                for ins in blocks[s]['i']:
                    if ins['o'] != 'phi':
                        break
                    for pb, x in ins['a']:
                        if pb == i and x.__class__ is int:
                            self.use(v, x)
                out |= v
            self.outs[i] = out
            v = set(out)
            for ins in reversed(blocks[i]['i']):
                if ins['o'] == 'phi':
                    break
                self.step(v, ins)
            if v != self.ins_[i]:
                self.ins_[i] = v
                work.extend(preds[i])
        self.cache = {}

    def use(self, v, x, mem=True):
        v.add(x)
        if mem and x in self.root:
            v.add(('m', self.root[x][0]))

    def whole(self, x, z):
        r = self.root.get(x)
        return r[0] if r is not None and r[1] == 0 and self.size.get(r[0]) == z else None

    def step(self, v, ins):
        """from after the instruction to before it"""
        o = ins['o']
        if 'd' in ins:
            v.discard(ins['d'])
        if o == 'alloca':
            v.discard(('m', ins['d']))
            return
        if o == 'store':
            x, p = ins['a']
            if p.__class__ is int:
                k = self.whole(p, ins['z'])
                if k is not None:
                    v.discard(('m', k))
                    v.add(p)
                else:
                    self.use(v, p, p in self.root and ('m', self.root[p][0]) in v)
            if x.__class__ is int:
                self.use(v, x)
            return
        if o == 'getelementptr':
            for x in operands(ins):
                self.use(v, x, False)
            return
        if o in ('call', 'invoke'):
            f = ins['f']
            n = f[1] if f.__class__ is list and f[0] == 'f' else ''
            if n.startswith('llvm.lifetime'):
                p = ins['a'][1]
                if p.__class__ is int:
                    k = self.root.get(p)
                    if k is not None and k[1] == 0:
                        v.discard(('m', k[0]))
                    v.add(p)
                return
            if n.startswith('llvm.memcpy'):
                z = ins['a'][2]
                p = ins['a'][0]
                if p.__class__ is int and z.__class__ is list and z[0] == 'i':
                    k = self.whole(p, int(z[2]))
                    if k is not None:
                        v.discard(('m', k))
                        v.add(p)
                        if ins['a'][1].__class__ is int:
                            self.use(v, ins['a'][1])
                        return
        for x in operands(ins):
            self.use(v, x)

    def at(self, b, i):
        """live before instruction i of block b"""
        k = (b, i)
        r = self.cache.get(k)
        if r is None:
            v = set(self.outs[b])
            for ins in reversed(self.fn['blocks'][b]['i'][i:]):
                self.step(v, ins)
            r = self.cache[k] = frozenset(v)
        return r


def live_of(fn):
    v = fn.get('live')
    if v is None:
        v = fn['live'] = Live(fn)
    return v


def pointed(v, out):
    if isinstance(v, Ptr):
        out.add(v.r)
    elif isinstance(v, Model):
        out.add(v.r)
    elif isinstance(v, Agg):
        for x in v.v:
            pointed(x, out)
    elif isinstance(v, (list, tuple, set, frozenset)):
        for x in v:
            pointed(x, out)
    elif isinstance(v, dict):
        for k, x in v.items():
            pointed(k, out)
            pointed(x, out)
    elif hasattr(v, '__dict__'):
        pointed(v.__dict__, out)


def prune(st):
    """drop dead registers and the content of dead stack variables"""
    dead = []
    out = set()
    n = len(st.frames)
    for k, fr in enumerate(st.frames):
        lv = live_of(fr.fn)
        if k == n - 1:
            live = lv.at(fr.b, fr.i)
        else:
            ins = fr.fn['blocks'][fr.b]['i'][fr.i]
            live = set()
            if ins['o'] == 'invoke':
                for s in ins['s']:
                    live |= lv.ins_[s]
                live |= lv.outs[fr.b]
            else:
                live = lv.at(fr.b, fr.i + 1)
        for d in list(fr.regs):
            if d not in live:
                v = fr.regs[d]
                if d in lv.size and isinstance(v, Ptr):
                    dead.append(v.r)
                del fr.regs[d]
                continue
            if d in lv.root:
                if ('m', lv.root[d][0]) not in live and d == lv.root[d][0] and isinstance(fr.regs[d], Ptr):
                    dead.append(fr.regs[d].r)
            else:
                pointed(fr.regs[d], out)
    if not dead:
        return
    ds = set(dead)
    pointed(st.ghost, out)
    for rid, r in st.regions.items():
        if rid in ds:
            continue
        for c in r.cells.values():
            pointed(c[1], out)
        pointed(r.data, out)
        pointed(r.meta, out)
    # what dead variables that are still pointed at hold is kept
    while True:
        more = [r for r in ds if r in out]
        if not more:
            break
        for rid in more:
            ds.discard(rid)
            for c in st.regions[rid].cells.values():
                pointed(c[1], out)
    for rid in ds:
        if rid in st.regions and st.regions[rid].cells:
            st.w(rid).cells = {}


def forget_symbols(st, order):
    """eliminate symbols the state no longer mentions, where that loses no
    integer point (unit coefficients on one side)"""
    p = st.poly
    live = set()
    for e in order:
        live.update(p.norm(e).syms())
    for k, v in st.objs.items():
        for x in (k if isinstance(k, tuple) else (k,)) + (v,):
            if isinstance(x, Lin):
                live.update(p.norm(x).syms())
    cur = p.cons
    occ = {}
    for t in cur:
        for s, k in t:
            if s not in live:
                o = occ.setdefault(s, [0, 0, True, True])
                i = 0 if k > 0 else 1
                o[i] += 1
                if abs(k) != 1:
                    o[2 + i] = False
    for s in sorted(occ, key=lambda s: occ[s][0] * occ[s][1]):
        low, up, rest = [], [], {}
        for t, c in cur.items():
            k = dict(t).get(s, 0)
            if k > 0:
                low.append((c, t, k))
            elif k < 0:
                up.append((c, t, -k))
            else:
                rest[t] = c
        if not (all(k == 1 for _, _, k in low) or all(k == 1 for _, _, k in up)):
            continue
        if len(low) * len(up) > len(low) + len(up) + 4:
            continue
        ok = True
        for cl, tl, kl in low:
            for cu, tu, ku in up:
                e = Lin(cl, tl).scale(ku) + Lin(cu, tu).scale(kl)
                r = _tight(e.c, e.t)
                if r is True:
                    continue
                if r is False:
                    p.bad = True
                    return
                c, t = r
                if t not in rest or c < rest[t]:
                    rest[t] = c
        cur = rest
    p.cons = cur
