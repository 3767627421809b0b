"""Linear integer facts of a path: entailment by elimination of variables (Fourier-Motzkin with integer tightening)."""
from math import gcd
from terms import *


def _norm(d, c):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return d, c
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        d = {t: k // g for t, k in d.items()}
        c = -((-c) // g)
    return d, c


def refutes(ineqs, limit=400):
    """no integer point satisfies every (d, c): sum d + c <= 0 (sound; incomplete)"""
    cur = {}
    def put(m, d, c):
        d, c = _norm(d, c)
        if not d:
            return c > 0
        k = tuple(sorted(((t.n, x) for t, x in d.items())))
        if k not in m or m[k][1] < c:
            m[k] = (d, c)
        return False
    for d, c in ineqs:
        if put(cur, dict(d), c):
            return True
    while cur:
        vs = {}
        for d, c in cur.values():
            for t, k in d.items():
                p, n = vs.get(t, (0, 0))
                vs[t] = (p + (k > 0), n + (k < 0))
        t = min(vs, key=lambda x: (vs[x][0] * vs[x][1], x.n))
        pos, negs, nxt = [], [], {}
        for d, c in cur.values():
            k = d.get(t, 0)
            if k > 0:
                pos.append((d, c, k))
            elif k < 0:
                negs.append((d, c, -k))
            else:
                put(nxt, d, c)
        for d1, c1, k1 in pos:
            for d2, c2, k2 in negs:
                d = {}
                for x, k in d1.items():
                    d[x] = d.get(x, 0) + k * k2
                for x, k in d2.items():
                    d[x] = d.get(x, 0) + k * k1
                if put(nxt, d, c1 * k2 + c2 * k1):
                    return True
        if len(nxt) > limit:
            return False
        cur = nxt
    return False


class Facts(object):
    def __init__(self, conds, nonneg=(), extra=()):
        """conds: (atom, polarity); extra: terms known to be <= 0"""
        self.base = []
        self.neq = []
        for a, p in conds:
            self.atom(a, p)
        for t in extra:
            c, d = lin_of(t)
            self.base.append((d, c))
        self.close(nonneg)

    def atom(self, a, p):
        while a.op == 'NOT':
            a, p = a.a[0], not p
        if a.op == 'LT0':
            c, d = lin_of(a.a[0])
            if p:
                self.base.append((d, c + 1))
            else:
                self.base.append(({t: -k for t, k in d.items()}, -c))
        elif a.op in ('EQ0', 'EQ'):
            l = a.a[0] if a.op == 'EQ0' else sub(a.a[0], a.a[1])
            c, d = lin_of(l)
            if p:
                self.base.append((d, c))
                self.base.append(({t: -k for t, k in d.items()}, -c))
            else:
                self.neq.append((d, c))
        elif a.op == 'AND' and p:
            for x in a.a:
                self.atom(x, True)

    def close(self, nonneg):
        vs = set()
        for d, c in self.base + self.neq:
            vs |= set(d)
        for t in set(nonneg) | {t for t in vs if t in NONNEG}:
            self.base.append(({t: -1}, 0))
        rest = list(self.neq)
        for _ in range(4):
            left = []
            for d, c in rest:
                n = ({t: -k for t, k in d.items()}, -c)
                if refutes(self.base + [(d, c + 1)]):      # never below: strictly above
                    self.base.append((n[0], n[1] + 1))
                elif refutes(self.base + [(n[0], n[1] + 1)]):
                    self.base.append((d, c + 1))
                else:
                    left.append((d, c))
            if len(left) == len(rest):
                break
            rest = left

    def infeasible(self):
        return refutes(self.base)

    def le(self, a, b):
        """a <= b, three-valued"""
        c, d = lin_of(sub(a, b))
        if not {k for k in d.values() if k}:
            return c <= 0
        nn = [({t: -1}, 0) for t in d if t in NONNEG]
        if refutes(self.base + nn + [({t: -k for t, k in d.items()}, -c + 1)]):
            return True
        if refutes(self.base + nn + [(d, c)]):
            return False
        return None
