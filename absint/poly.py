"""Linear integer expressions and an exact convex-polyhedra domain.

Constraints are linear inequalities over integer symbols. Emptiness is decided
by Fourier-Motzkin projection with integer tightening; a non-empty polyhedron
yields an integer point by back substitution. No solver is involved."""
from math import gcd

_names = {}
_next = [1]


def fresh(name='s'):
    s = _next[0]
    _next[0] += 1
    _names[s] = '%s%d' % (name, s)
    return s


def symname(s):
    return _names.get(s, 's%d' % s)


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = None

    @staticmethod
    def sym(s, k=1):
        return Lin(0, ((s, k),))

    def is_const(self):
        return not self.t

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash((self.c, self.t))
        return h

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    __radd__ = __add__

    def scale(self, k):
        if k == 0:
            return Lin(0)
        if k == 1:
            return self
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.t))

    def coef(self, s):
        for a, k in self.t:
            if a == s:
                return k
        return 0

    def syms(self):
        return [s for s, _ in self.t]

    def __repr__(self):
        out = ''
        for s, k in self.t:
            if k == 1:
                out += '+' + symname(s)
            elif k == -1:
                out += '-' + symname(s)
            else:
                out += '%+d*%s' % (k, symname(s))
        if self.c or not out:
            out += '%+d' % self.c
        return out.lstrip('+')


ZERO = Lin(0)
ONE = Lin(1)


def C(n):
    return Lin(n)


class Blowup(Exception):
    pass


def _tight(c, t):
    """normalise sum(t)+c >= 0 ; returns (c,t) or True/False when constant"""
    if not t:
        return c >= 0
    g = 0
    for _, k in t:
        g = gcd(g, k)
        if g == 1:
            break
    if g > 1:
        c = c // g  # floor: integer tightening
        t = tuple((s, k // g) for s, k in t)
    return (c, t)


INEXACT = 20


def _fm(cons, limit=4000):
    """cons: dict t -> c meaning sum(t)+c>=0. Returns elimination record or None
    when infeasible. Record: list of (sym, [(c,t,k) lower], [(c,t,k) upper])."""
    rec = []
    cons = dict(cons)
    work = 0
    while cons:
        cnt = {}
        for t in cons:
            for s, k in t:
                p = cnt.get(s)
                if p is None:
                    p = cnt[s] = [0, 0, 1, 1]
                if k > 0:
                    p[0] += 1
                    if k > p[2]:
                        p[2] = k
                else:
                    p[1] += 1
                    if -k > p[3]:
                        p[3] = -k
        best = None
        bs = None
        for s, (p, n, kp, kn) in cnt.items():
            v = p * n - p - n
            if kp > 1 and kn > 1:
                v += INEXACT   # this projection may add points that are not integer
            if best is None or v < best or (v == best and s < bs):
                best, bs = v, s
        s = bs
        low = []
        up = []
        rest = {}
        for t, c in cons.items():
            k = 0
            for a, kk in t:
                if a == s:
                    k = kk
                    break
            if k > 0:
                low.append((c, t, k))
            elif k < 0:
                up.append((c, t, -k))
            else:
                rest[t] = c
        rec.append((s, low, up))
        for cl, tl, kl in low:
            for cu, tu, ku in up:
                g = gcd(kl, ku)
                a, b = ku // g, kl // g
                d = {}
                for x, k in tl:
                    d[x] = k * a
                for x, k in tu:
                    v = d.get(x, 0) + k * b
                    if v:
                        d[x] = v
                    else:
                        d.pop(x, None)
                d.pop(s, None)
                r = _tight(cl * a + cu * b, tuple(sorted(d.items())))
                if r is True:
                    continue
                if r is False:
                    return None
                c, t = r
                o = rest.get(t)
                if o is None or c < o:
                    rest[t] = c
                work += 1
        if work > limit * 10 or len(rest) > limit:
            raise Blowup()
        # opposite pairs quickly show emptiness
        for t, c in rest.items():
            nt = tuple((x, -k) for x, k in t)
            o = rest.get(nt)
            if o is not None and c + o < 0:
                return None
        cons = rest
    return rec


def _model(rec, want=None, tries=None):
    val = {}

    def solve(i):
        if i < 0:
            return True
        s, low, up = rec[i]
        lo = hi = None
        for c, t, k in low:
            v = c
            for x, kk in t:
                if x != s:
                    v += kk * val.get(x, 0)
            b = -(v // k)  # k*s + v >= 0 -> s >= ceil(-v/k)
            if lo is None or b > lo:
                lo = b
        for c, t, k in up:
            v = c
            for x, kk in t:
                if x != s:
                    v += kk * val.get(x, 0)
            b = v // k
            if hi is None or b < hi:
                hi = b
        if lo is None and hi is None:
            cand = [0, 1]
        elif lo is None:
            cand = [0, hi] if hi >= 0 else [hi, hi - 1]
        elif hi is None:
            cand = [lo, lo + 1] if lo > 0 else [0, 1]
        else:
            if lo > hi:
                return False
            cand = sorted(set([lo, hi, (lo + hi) // 2, min(hi, lo + 1)]))
        for v in cand:
            tries[0] -= 1
            if tries[0] < 0:
                return False
            val[s] = v
            if solve(i - 1):
                return True
        val.pop(s, None)
        return False
    if solve(len(rec) - 1):
        return val
    return None


_cache = {}
STAT = {'queries': 0, 'fm': 0}


def _feasible(cons):
    """cons: dict t->c. True/False (Blowup treated as feasible)"""
    key = frozenset(cons.items())
    r = _cache.get(key)
    if r is None:
        STAT['fm'] += 1
        try:
            r = _fm(cons) is not None
        except Blowup:
            r = 'unknown'
        if len(_cache) > 400000:
            _cache.clear()
        _cache[key] = r
    return r


class Poly:
    """conjunction of linear constraints with an eliminated-equality map"""
    __slots__ = ('cons', 'sub', 'bad')

    def __init__(self):
        self.cons = {}  # t -> c
        self.sub = {}   # sym -> Lin
        self.bad = False

    def copy(self):
        p = Poly.__new__(Poly)
        p.cons = dict(self.cons)
        p.sub = dict(self.sub)
        p.bad = self.bad
        return p

    def norm(self, e):
        sub = self.sub
        if not e.t or not sub:
            return e
        for s, _ in e.t:
            if s in sub:
                break
        else:
            return e
        d = {}
        c = e.c
        for s, k in e.t:
            r = sub.get(s)
            if r is None:
                d[s] = d.get(s, 0) + k
            else:
                c += r.c * k
                for x, kk in r.t:
                    d[x] = d.get(x, 0) + kk * k
        return Lin(c, tuple(sorted((s, k) for s, k in d.items() if k)))

    def _component(self, syms):
        """constraints connected to the symbols"""
        need = set(syms)
        out = {}
        items = list(self.cons.items())
        changed = True
        while changed:
            changed = False
            rest = []
            for t, c in items:
                if any(s in need for s, _ in t):
                    out[t] = c
                    for s, _ in t:
                        if s not in need:
                            need.add(s)
                            changed = True
                else:
                    rest.append((t, c))
            items = rest
        return out

    def _with(self, extra):
        """component of extra (list of normalised Lin >= 0) plus extra.
        returns dict or False when trivially infeasible"""
        syms = set()
        for e in extra:
            syms.update(e.syms())
        d = self._component(syms)
        for e in extra:
            r = _tight(e.c, e.t)
            if r is True:
                continue
            if r is False:
                return False
            c, t = r
            o = d.get(t)
            if o is None or c < o:
                d[t] = c
        return d

    def sat(self, *extra):
        """may the extra constraints (each >= 0) hold as well?"""
        STAT['queries'] += 1
        if self.bad:
            return False
        ex = [self.norm(e) for e in extra]
        d = self._with(ex)
        if d is False:
            return False
        return _feasible(d) is not False

    def entails_ge(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c >= 0
        # quick: identical or stronger constraint present
        r = _tight(e.c, e.t)
        if r is True:
            return True
        o = self.cons.get(r[1])
        if o is not None and o <= r[0]:
            return True
        return not self.sat((-e) - 1)

    def entails_eq(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c == 0
        return self.entails_ge(e) and self.entails_ge(-e)

    def add_ge(self, e):
        """assume e >= 0"""
        e = self.norm(e)
        r = _tight(e.c, e.t)
        if r is True:
            return
        if r is False:
            self.bad = True
            return
        c, t = r
        o = self.cons.get(t)
        if o is not None and o <= c:
            return
        self.cons[t] = c
        nt = tuple((s, -k) for s, k in t)
        o = self.cons.get(nt)
        if o is not None:
            if c + o < 0:
                self.bad = True
                return
            if c + o == 0:
                del self.cons[t]
                del self.cons[nt]
                self.add_eq(Lin(c, t))
                return
        if len(t) > 1 or True:
            # implied equality of e with 0?
            if len(t) <= 3 and not self.sat(Lin(c - 1, t)):
                if not self.sat(ZERO):
                    self.bad = True
                    return
                self.cons.pop(t, None)
                self.add_eq(Lin(c, t))

    def add_eq(self, e):
        e = self.norm(e)
        if not e.t:
            if e.c != 0:
                self.bad = True
            return
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if e.c % g:
            self.bad = True
            return
        if g > 1:
            e = Lin(e.c // g, tuple((s, k // g) for s, k in e.t))
        piv = None
        for s, k in e.t:
            if k in (1, -1):
                piv = (s, k)  # last = youngest symbol
        if piv is None:
            # no unit coefficient: introduce q with k*s' elimination via two inequalities
            for x in (e, -e):
                o = self.cons.get(x.t)
                if o is None or x.c < o:
                    self.cons[x.t] = x.c
            if not self.sat(ZERO):
                self.bad = True
            return
        s, k = piv
        # k*s + rest = 0 -> s = -rest/k
        rest = Lin(e.c, tuple((a, b) for a, b in e.t if a != s))
        r = rest.scale(-k)
        one = {s: r}
        for x, v in list(self.sub.items()):
            if v.coef(s):
                self.sub[x] = _subst1(v, s, r)
        self.sub[s] = r
        changed = []
        for t in list(self.cons):
            if any(a == s for a, _ in t):
                c = self.cons.pop(t)
                changed.append(_subst1(Lin(c, t), s, r))
        for x in changed:
            q = _tight(x.c, x.t)
            if q is True:
                continue
            if q is False:
                self.bad = True
                return
            c, t = q
            o = self.cons.get(t)
            if o is None or c < o:
                self.cons[t] = c
        for x in changed:
            q = _tight(x.c, x.t)
            if q is True or q is False:
                continue
            nt = tuple((a, -b) for a, b in q[1])
            o = self.cons.get(nt)
            if o is not None and q[1] in self.cons and self.cons[q[1]] + o == 0:
                c = self.cons.pop(q[1])
                self.cons.pop(nt)
                self.add_eq(Lin(c, q[1]))
                if self.bad:
                    return
            elif o is not None and q[1] in self.cons and self.cons[q[1]] + o < 0:
                self.bad = True
                return

    def feasible(self):
        if self.bad:
            return False
        return _feasible(dict(self.cons)) is not False

    def model(self, extra=()):
        """an integer point (dict sym->int) or None"""
        if self.bad:
            return None
        d = dict(self.cons)
        for e in extra:
            e = self.norm(e)
            r = _tight(e.c, e.t)
            if r is True:
                continue
            if r is False:
                return None
            c, t = r
            o = d.get(t)
            if o is None or c < o:
                d[t] = c
        try:
            rec = _fm(d)
        except Blowup:
            return None
        if rec is None:
            return None
        m = _model(rec, tries=[20000])
        if m is None:
            return None
        return m

    def value(self, m, e):
        e = self.norm(e)
        return e.c + sum(k * m.get(s, 0) for s, k in e.t)


def _subst1(v, s, r):
    k = v.coef(s)
    return Lin(v.c, tuple((a, b) for a, b in v.t if a != s)) + r.scale(k)
