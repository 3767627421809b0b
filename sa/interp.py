"""Abstract interpreter over MIR: value-number terms, guarded outcomes, loop summaries.

No program code is executed and no solver is used: every function is analysed on fully
symbolic inputs; loops are summarised by one generic iteration (inductive havoc of what the
iteration changes) or, over literally known sequences, peeled."""
from terms import *
from facts import *
import time


class Decline(Exception):
    pass


class Imprecise(Exception):
    pass


class NeedGeneric(Exception):
    pass


class St(object):
    __slots__ = ('cells', 'facts', 'conds', 'iv', 'ev', 'nfresh', 'vneg')

    def __init__(self):
        self.cells = {}
        self.facts = {}
        self.conds = ()
        self.iv = {}
        self.ev = ()
        self.nfresh = 0
        self.vneg = {}

    def fork(self):
        s = St.__new__(St)
        s.cells = dict(self.cells)
        s.facts = dict(self.facts)
        s.conds = self.conds
        s.iv = dict(self.iv)
        s.ev = self.ev
        s.nfresh = self.nfresh
        s.vneg = dict(self.vneg)
        return s

    # ---------------------------------------------------------------- facts
    def bounds(self, l):
        """interval of a linear form"""
        c, d = lin_of(l)
        d = {t: k for t, k in d.items() if k}
        if not d:
            return c, c
        f = _fc(d)
        key = mklin(0, {t: (k if f > 0 else -k) for t, k in d.items()})
        lo, hi = self.iv.get(key, (None, None, ()))[:2]
        if f < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        # compositional bounds
        clo, chi = 0, 0
        for t, k in d.items():
            tlo, thi = self.tb(t)
            a, b = (tlo, thi) if k > 0 else (thi, tlo)
            clo = None if clo is None or a is None else clo + k * a
            chi = None if chi is None or b is None else chi + k * b
        if clo is not None and (lo is None or clo > lo):
            lo = clo
        if chi is not None and (hi is None or chi < hi):
            hi = chi
        return (None if lo is None else lo + c), (None if hi is None else hi + c)

    def tb(self, t):
        lo, hi = None, None
        r = self.iv.get(t)
        if r:
            lo, hi = r[0], r[1]
        if (t in NONNEG or t.op in ('LEN', 'IDX', 'SATSUB')) and (lo is None or lo < 0):
            lo = 0
        return lo, hi

    def truth(self, t):
        if t.op == 'C':
            return bool(t.a[0])
        if t.op == 'NOT':
            r = self.truth(t.a[0])
            return None if r is None else not r
        r = self.facts.get(t)
        if r is not None:
            return r
        if t.op == 'LT0':
            lo, hi = self.bounds(t.a[0])
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
            return None
        if t.op == 'EQ0':
            lo, hi = self.bounds(t.a[0])
            if lo is not None and lo > 0:
                return False
            if hi is not None and hi < 0:
                return False
            if lo == 0 and hi == 0:
                return True
            c, d = lin_of(t.a[0])
            key = mklin(0, d)
            r = self.iv.get(key)
            if r and (-c) in r[2]:
                return False
            return None
        if t.op == 'VAR':
            v, p, i = t.a
            if v.op == 'ADT':
                return v.a[1] == i
            k = self.facts.get(('var', v))
            if k is not None:
                return k == i
            ng = self.vneg.get(v)
            if ng and i in ng:
                return False
            n = nvariants(p)
            if ng and n and len(ng) == n - 1 and i not in ng:
                return True
            if n == 1:
                return True
            return None
        if t.op == 'AND':
            rs = [self.truth(x) for x in t.a]
            if any(r is False for r in rs):
                return False
            if all(rs):
                return True
            return None
        if t.op == 'QALL' and t.a[0].op != 'NOSRC':
            l = length(t.a[0])
            if isC(l):
                return True if l.a[0] == 0 else None
            lo, hi = self.bounds(l)
            if hi is not None and hi <= 0:
                return True
        return None

    def learn(self, t, pol, cond=True):
        """adds fact t==pol; returns False when contradictory"""
        if t.op == 'NOT':
            return self.learn(t.a[0], not pol, cond)
        r = self.truth(t)
        if r is not None:
            return r == pol
        if t.op == 'VAR':
            v, p, i = t.a
            if pol:
                self.facts[('var', v)] = i
            else:
                self.vneg[v] = self.vneg.get(v, frozenset()) | {i}
                n = nvariants(p)
                ng = self.vneg[v]
                if n and len(ng) == n - 1:
                    j = [x for x in range(n) if x not in ng][0]
                    self.facts[('var', v)] = j
        elif t.op in ('LT0', 'EQ0'):
            c, d = lin_of(t.a[0])
            key = mklin(0, d)
            lo, hi, ex = self.iv.get(key, (None, None, frozenset()))
            if t.op == 'LT0':
                if pol:
                    hi = -c - 1 if hi is None else min(hi, -c - 1)
                else:
                    lo = -c if lo is None else max(lo, -c)
            else:
                if pol:
                    lo = hi = -c
                else:
                    ex = frozenset(ex) | {-c}
            blo, bhi = self.bounds(key)
            if lo is None or (blo is not None and blo > lo):
                lo = blo
            if hi is None or (bhi is not None and bhi < hi):
                hi = bhi
            while lo is not None and lo in ex:
                lo += 1
            while hi is not None and hi in ex:
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return False
            self.iv[key] = (lo, hi, ex)
            self.facts[t] = pol
        else:
            self.facts[t] = pol
            if t.op == 'QALL' and not pol and t.a[0].op != 'NOSRC':
                l = length(t.a[0])
                if not isC(l) and not self.learn(eq(l, C(0)), False, cond=False):
                    return False
        if cond:
            self.conds = self.conds + ((t, pol),)
        return True

    def event(self, *e):
        self.ev = self.ev + (e,)

    def variant(self, v):
        if v.op == 'ADT':
            return v.a[1]
        return self.facts.get(('var', v))

    def norm(self, t):
        """rewrites symbolic enum values whose (field-less) variant is known"""
        m = {}
        for k, i in self.facts.items():
            if isinstance(k, tuple) and k[0] == 'var':
                v = k[1]
        for x in subterms(t):
            i = self.facts.get(('var', x))
            if i is not None:
                p = self.varpath(x)
                if p and nfields(p, i) == 0:
                    m[x] = mk('ADT', p, i, ())
        for k, r in self.iv.items():
            if r[0] is not None and r[0] == r[1] and k.op != 'LIN':
                m[k] = C(r[0])
        return subst(t, m) if m else t

    _vp = {}

    def varpath(self, v):
        return St._vp.get(v)


def _fc(d):
    t = min(d, key=lambda x: x.n)
    return d[t]


def local_term(t, lid):
    """depends on the iteration of loop lid"""
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        if not isinstance(x, T) or x in seen:
            return False
        seen.add(x)
        if x.op in ('ELEM', 'IDX', 'LV', 'LOOPV') and x.a[0] == lid:
            return True
        return any(go(y) for y in x.a)
    return go(t)


class Loop(object):
    def __init__(self, id):
        self.id = id
        self.mode = None       # 'unroll' | 'generic' | 'final'
        self.entry = None
        self.skips = []
        self.exh = False
        self.srcs = {}         # loc -> (it)
        self.base = []         # list of source seqs consumed this pass
        self.hits = 0
        self.irregular = False


class LoopRec(object):
    """summary of one loop"""

    def __init__(self, id, fn):
        self.id = id
        self.fn = fn
        self.src = None
        self.cases = []     # (kind, conds, events, {loc: post})
        self.havoc = {}     # loc -> (lv, init)
        self.exits = []
        self.closed = {}

    def __repr__(self):
        return 'LoopRec(%s src=%s)' % (self.id, self.src)


class Frame(object):
    __slots__ = ('fn', 'id', 'env', 'body', 'loops', 'cp', 'isprom', 'div')


def EV_ITER_EMPTY():
    return mk('IT', EMPTY)


class Interp(object):
    exact_casts = False # narrowing conversions are kept as terms
    decided = False     # unroll loops whose every pass is decided without assumptions
    def __init__(self, prog, prims=None, budget=120.0, maxpaths=3000):
        self.p = prog
        self.prims = prims or {}
        self.cps = {}
        self.loopstack = []
        self.stack = []
        self.unknown = {}      # opaque callee -> count
        self.panics = []
        self.deadline = time.time() + budget
        self.maxpaths = maxpaths
        self.analysed = set()
        self.const_memo = {}
        self.steps = 0
        self.loopids = {}
        self.opaque_fns = set()
        self.watch = None      # optional callback on every call
        import models
        self.models = models.MODELS
        self.modfall = models.fallback

    # ---------------------------------------------------------------- misc
    def cp(self, *k):
        return self.cps.setdefault(k, len(self.cps))

    def readloc(self, st, cell, path):
        v = st.cells.get(cell)
        if v is None:
            if isinstance(cell, tuple) and cell[0] == 'sym':
                v = cell[1]
            elif isinstance(cell, tuple) and cell[0] == 'refcell':
                v = mk('CONTENT', cell[1])
            else:
                v = mk('UNINIT')
        return self.readpath(st, v, path)

    def readpath(self, st, v, path):
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if k == 'f':
            if v.op == 'PTR':
                v = self.readloc(st, v.a[0], v.a[1])
            r = fld(v, e[1], e[2], e[3])
            if r.op == 'FLD' and len(e) > 4 and e[4]:
                NONNEG.add(r)
            return r
        if k == 'i':
            return at(v, e[1])
        if k == 'elem':
            if v.op == 'EUPD' and v.a[1] == e[1]:
                return v.a[2]
            return elem(e[1], v)
        if k == 'key':
            return mapval(v, e[1])
        if k == 'it':
            return v.a[e[1]]
        if k == 'ss':
            return slc(v, e[1], e[2])
        raise Imprecise('proj ' + k)

    def writeloc(self, st, cell, path, new):
        v = st.cells.get(cell)
        if v is None:
            v = self.readloc(st, cell, ())
        st.cells[cell] = self.setpath(st, v, path, new)

    def setpath(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        if k == 'f':
            if v.op == 'PTR':
                # field of something held by pointer (transparent wrapper)
                self.writeloc(st, v.a[0], v.a[1] + tuple(path), new)
                return v
            inner = self.setpath(st, self.proj(st, v, e), path[1:], new)
            p, var, i = e[1], e[2], e[3]
            if p == '(tuple)':
                n = len(v.a) if v.op == 'TUP' else (e[5] if len(e) > 5 else None)
                if n is None:
                    n = i + 1
                fs = [fld(v, p, 0, j) for j in range(max(n, i + 1))]
                fs[i] = inner
                return tup(fs)
            if p == '(closure)':
                if v.op == 'CLO':
                    ups = list(v.a[1])
                    while len(ups) <= i:
                        ups.append(mk('UNINIT'))
                    ups[i] = inner
                    return mk('CLO', v.a[0], tuple(ups), v.a[2])
                return mk('CLOUPD', v, i, inner)
            n = nfields(p, var)
            if n is None:
                raise Imprecise('fields of ' + p)
            if v.op == 'UNINIT' or (v.op == 'ADT' and (v.a[0] != p or v.a[1] != var)):
                fs = [mk('UNINIT')] * n
            else:
                fs = [fld(v, p, var, j) for j in range(n)]
            fs[i] = inner
            return adt(p, var, fs)
        if k == 'i':
            inner = self.setpath(st, self.proj(st, v, e), path[1:], new)
            return store(v, e[1], inner)
        if k == 'elem':
            inner = self.setpath(st, self.proj(st, v, e), path[1:], new)
            if v.op == 'EUPD' and v.a[1] == e[1]:
                v = v.a[0]
            if inner is elem(e[1], v):
                return v
            return mk('EUPD', v, e[1], inner)
        if k == 'key':
            inner = self.setpath(st, self.proj(st, v, e), path[1:], new)
            return mapins(v, e[1], inner)
        if k == 'it':
            inner = self.setpath(st, v.a[e[1]], path[1:], new)
            a = list(v.a)
            a[e[1]] = inner
            return mk(v.op, *a)
        if k == 'ss':
            inner = self.setpath(st, self.proj(st, v, e), path[1:], new)
            return seq([mk('SUB', v, C(0), e[1])] + list(parts(inner)) + [mk('SUB', v, e[2], length(v))])
        raise Imprecise('setpath ' + k)

    def deref(self, st, v):
        while v.op == 'PTR':
            v = self.readloc(st, v.a[0], v.a[1])
        return v

    def deref_deep(self, st, v, depth=0):
        """replaces embedded pointers by the values they point to (for shared snapshots)"""
        if v.op == 'PTR':
            return self.deref_deep(st, self.readloc(st, v.a[0], v.a[1]), depth + 1)
        if depth > 6:
            return v
        if v.op in ('ADT',) and any(mentions(f, ('PTR',)) for f in v.a[2]):
            return adt(v.a[0], v.a[1], [self.deref_deep(st, f, depth + 1) for f in v.a[2]])
        if v.op == 'TUP' and mentions(v, ('PTR',)):
            return tup([self.deref_deep(st, f, depth + 1) for f in v.a])
        return v

    def ptr_of(self, st, v):
        """location a mutable-reference value denotes"""
        if v.op == 'PTR':
            return v.a[0], v.a[1]
        return ('sym', v), ()

    # ---------------------------------------------------------------- places
    def resolve(self, fr, st, place):
        """-> ('loc', cell, path) or ('val', term)"""
        l, projs = place
        cell = (fr.id, l)
        cur = ('loc', cell, ())
        for pj in projs:
            k = pj[0]
            if k == '*':
                if cur[0] == 'loc':
                    v = self.readloc(st, cur[1], cur[2])
                    if v.op == 'PTR':
                        cur = ('loc', v.a[0], v.a[1])
                    elif pj[1] == 'box':
                        pass
                    elif ('sym', v) in st.cells:
                        cur = ('loc', ('sym', v), ())
                    else:
                        cur = ('val', v)
                else:
                    v = cur[1]
                    if v.op == 'PTR':
                        cur = ('loc', v.a[0], v.a[1])
                    elif ('sym', v) in st.cells:
                        cur = ('loc', ('sym', v), ())
            elif k == 'f':
                if pj[2] in TRANSPARENT:
                    continue
                uns = pj[5] is not None and isinstance(pj[5], (list, tuple)) and pj[5][0] == 'prim' and pj[5][1] in UNSIGNED
                e = ('f', pj[2], pj[3], pj[1], uns)
                if cur[0] == 'loc':
                    v0 = self.readloc(st, cur[1], cur[2])
                    if v0.op == 'PTR':
                        cur = ('loc', v0.a[0], v0.a[1] + (e,))
                    else:
                        cur = ('loc', cur[1], cur[2] + (e,))
                else:
                    cur = ('val', self.proj(st, cur[1], e))
            elif k == 'd':
                continue
            elif k in ('i', 'ci', 'ss'):
                base = self.rd(st, cur)
                if base.op == 'PTR':
                    cur = ('loc', base.a[0], base.a[1])
                    base = self.rd(st, cur)
                if k == 'i':
                    iv = self.readloc(st, (fr.id, pj[1]), ())
                    e = ('i', iv)
                elif k == 'ci':
                    off = C(pj[1])
                    if pj[3]:
                        off = sub(length(base), C(pj[1]))
                    e = ('i', off)
                else:
                    lo = C(pj[1])
                    hi = sub(length(base), C(pj[2])) if pj[3] else C(pj[2])
                    e = ('ss', lo, hi)
                if cur[0] == 'loc':
                    cur = ('loc', cur[1], cur[2] + (e,))
                else:
                    cur = ('val', self.proj(st, cur[1], e))
            else:
                raise Imprecise('place projection %s' % k)
        return cur

    def rd(self, st, cur):
        if cur[0] == 'loc':
            return self.readloc(st, cur[1], cur[2])
        return cur[1]

    def rdplace(self, fr, st, place):
        v = self.rd(st, self.resolve(fr, st, place))
        return v

    def wrplace(self, fr, st, place, v):
        cur = self.resolve(fr, st, place)
        if cur[0] == 'loc':
            self.writeloc(st, cur[1], cur[2], v)
            return
        # write through a symbolic mutable reference: re-resolve with symbolic cells
        cur = self.resolve_mut(fr, st, place)
        self.writeloc(st, cur[1], cur[2], v)

    def resolve_mut(self, fr, st, place):
        """like resolve, but materialises symbolic cells so that a location results"""
        l, projs = place
        # find last deref over a symbolic value
        for cut in range(len(projs), -1, -1):
            sub_ = self.resolve(fr, st, [l, projs[:cut]])
            if cut < len(projs) and projs[cut][0] == '*' and True:
                v = self.rd(st, sub_)
                if v.op != 'PTR':
                    key = ('sym', v)
                    if key not in st.cells:
                        st.cells[key] = v
                    r = self.resolve(fr, st, place)
                    if r[0] == 'loc':
                        return r
        r = self.resolve(fr, st, place)
        if r[0] == 'loc':
            return r
        v = r[1]
        key = ('sym', v)
        st.cells.setdefault(key, v)
        return ('loc', key, ())

    # ---------------------------------------------------------------- operands
    def const(self, fr, st, k):
        kind = k['k']
        if kind == 'int':
            ty = fz(k['ty']) if k.get('ty') is not None else None
            if ty and ty[0] == 'adt' and ty[1] in ADTS and ADTS[ty[1]]['enum'] and 0 <= int(k['v']) < len(ADTS[ty[1]]['v']) and not any(x['f'] for x in ADTS[ty[1]]['v']):
                # a field-less enum constant
                return mk('ADT', ty[1], int(k['v']), ())
            return C(int(k['v']))
        if kind == 'str':
            return S(k['v'])
        if kind == 'zst':
            ty = fz(k['ty'])
            if ty[0] == 'tuple' and not ty[1]:
                return UNIT
            if ty[0] == 'closure':
                return mk('CLO', ty[1], (), self.envkey(fr.env))
            if ty[0] == 'adt':
                return mk('ADT', ty[1], 0, ())
            if ty[0] == 'fndef':
                return mk('FNV', sub_ty(ty[1], fr.env))
            return mk('ZST', ty)
        if kind == 'fn':
            return mk('FNV', self.subfn(fz(k['f']), fr.env))
        if kind == 'promoted':
            return self.promoted(fr, st, k['i'])
        if kind == 'static':
            f = self.p.fns.get(k['v']) or self.p.byname.get(k['v'], [None])[0]
            if f is not None and f.kind == 'Static' and fz(f.body['locals'][0])[0] == 'prim':
                r = self.constdef(fr, st, {'def': f.id, 'dargs': ()})
                if r is not None and isC(r):
                    return r
            return mk('STATIC', k['v'])
        if kind == 'opaque':
            ct = k.get('ct')
            if ct and ct in fr.env and fr.env[ct][0] == 'const':
                try:
                    return C(int(fr.env[ct][1]))
                except ValueError:
                    pass
            if ct:
                return mk('CPARAM', ct)
            if k.get('def'):
                r = self.constdef(fr, st, k)
                if r is not None:
                    return r
            ty = fz(k.get('ty'))
            if k['v'] in ('true', 'false'):
                return C(k['v'] == 'true')
            return mk('KONST', k.get('def') or k['v'], fz(k.get('dargs', ())) if k.get('def') else ())
        raise Imprecise('const ' + kind)

    def subfn(self, fr_, env):
        return ('fnref', fr_[1], fr_[2], sub_ty(fr_[3], env), fr_[4], fr_[5],
                ('fnref', fr_[6][1], fr_[6][2], sub_ty(fr_[6][3], env), None, None, None) if fr_[6] else None)

    def constdef(self, fr, st, k):
        f = self.p.fns.get(k['def'])
        if f is None and k.get('dargs'):
            # associated constant of a trait, for a known implementor
            targs = [sub_ty(fz(a), fr.env) for a in k['dargs']]
            if targs[0][0] == 'adt':
                tr, _, nm = k['def'].rpartition('::')
                b = self.find_impl(tr, targs, 'const ' + nm)
                if b and b[1] in self.p.fns:
                    return self.constdef(fr, st, {'def': b[1]})
        if f is None or not f.const:
            return None
        if k['def'] in self.const_memo:
            return self.const_memo[k['def']]
        env = dict(zip(f.g, [sub_ty(fz(a), fr.env) for a in k.get('dargs', ())]))
        s = St()
        outs = self.exec_body(f, f.body, [], env, s, ('const', f.id))
        r = None
        if len(outs) == 1:
            r = self.deref_deep(outs[0][0], outs[0][1])
        self.const_memo[k['def']] = r
        return r

    def promoted(self, fr, st, i):
        key = (fr.fn.id, i, self.envkey(fr.env))
        if key in self.const_memo:
            return self.const_memo[key]
        s = St()
        outs = self.exec_body(fr.fn, fr.fn.prom[i], [], fr.env, s, ('prom', fr.fn.id, i))
        r = mk('KONST', 'promoted', fr.fn.id, i)
        if len(outs) == 1:
            r = self.deref_deep(outs[0][0], outs[0][1])
        self.const_memo[key] = r
        return r

    def envkey(self, env):
        return tuple(sorted(env.items()))

    def op(self, fr, st, o):
        if o[0] == 'k':
            return self.const(fr, st, o[1])
        return self.rdplace(fr, st, o[1])

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, destty=None):
        """-> list of (st, value)"""
        k = r[0]
        if k == 'use':
            return [(st, self.op(fr, st, r[1]))]
        if k == 'ref':
            if r[1]:
                cur = self.resolve(fr, st, r[2])
                if cur[0] == 'val':
                    cur = self.resolve_mut(fr, st, r[2])
                return [(st, mk('PTR', cur[1], cur[2]))]
            cur = self.resolve(fr, st, r[2])
            v = self.rd(st, cur)
            # shared reborrow of a mutable pointer: snapshot
            if v.op == 'PTR':
                # &(&mut T): keep the snapshot of what it points to
                v = self.deref(st, v)
            if v.op in ITOPS or v.op == 'CLO':
                return [(st, v)]
            return [(st, self.deref_deep(st, v))]
        if k == 'agg':
            kind = r[1]
            vs = [self.op(fr, st, o) for o in r[2]]
            if kind[0] == 'array':
                return [(st, seqof(vs))]
            if kind[0] == 'tuple':
                return [(st, tup(vs))]
            if kind[0] == 'adt':
                if kind[1] in TRANSPARENT and len(vs) == 1:
                    return [(st, vs[0])]
                return [(st, adt(kind[1], kind[2], vs))]
            if kind[0] == 'closure':
                return [(st, mk('CLO', kind[1], tuple(vs), self.envkey(fr.env)))]
            return [(st, mk('OPQ', 'agg', tuple(vs)))]
        if k == 'cast':
            v = self.op(fr, st, r[2])
            to = fz(r[4])
            frm = fz(r[3])
            if r[1].startswith('IntToInt') or r[1].startswith('Int'):
                if to[0] == 'prim' and to[1] in ('u8', 'i8', 'u16', 'i16') and frm != to and not isC(v) and frm[1] not in ('u8', 'bool'):
                    return [(st, mk('CAST', to[1], v))]
                if frm[0] == 'prim' and to[0] == 'prim' and not isC(v) and BITS.get(to[1], 99) < BITS.get(frm[1], 0):
                    if self.exact_casts:
                        return [(st, mk('CAST', to[1], v))]
                    st.event('narrow', v, BITS[to[1]])
                if frm[0] == 'prim' and frm[1] == 'bool':
                    return [(s2, C(b)) for s2, b in self.branch(st, v)]
                return [(st, v)]
            if 'FloatToInt' in r[1] or 'IntToFloat' in r[1] or 'FloatToFloat' in r[1]:
                return [(st, mk('FCAST', to, v))]
            return [(st, v)]
        if k == 'bin':
            return self.binop(fr, st, r)
        if k == 'un':
            v = self.op(fr, st, r[2])
            if r[1] == 'Not':
                ot = fz(r[2][1].get('ty')) if r[2][0] == 'k' else self.place_ty(fr, r[2][1])
                if ot and ot[0] == 'prim' and ot[1] in BITS:
                    if isC(v):
                        return [(st, C(((1 << BITS[ot[1]]) - 1) ^ v.a[0]))]
                    return [(st, mk('UN', 'Not', v))]
                return [(st, neg(v))]
            if r[1] == 'PtrMetadata':
                return [(st, length(self.deref(st, v)))]
            if r[1] == 'Neg':
                return [(st, mulc(v, -1))]
            return [(st, mk('UN', r[1], v))]
        if k == 'discr':
            v = self.rdplace(fr, st, r[1])
            v = self.deref(st, v)
            if v.op == 'ADT':
                d = ADTS.get(v.a[0])
                return [(st, C(int(d['v'][v.a[1]]['d'])) if d else C(v.a[1]))]
            return [(st, mk('DISCR', v))]
        if k == 'repeat':
            v = self.op(fr, st, r[1])
            n = r[2]
            if n in fr.env and fr.env[n][0] == 'const':
                n = fr.env[n][1]
            try:
                nn = C(int(str(n).replace('_usize', '')))
            except ValueError:
                nn = mk('CPARAM', n)
            return [(st, seq([mk('REP', v, nn)]))]
        return [(st, mk('OPQ', 'rv', str(r[1:])[:60]))]

    def binop(self, fr, st, r):
        b = r[1]
        x = self.op(fr, st, r[2])
        y = self.op(fr, st, r[3])
        ty = fz(r[4])
        isb = ty == ('prim', 'bool')
        if ty[0] == 'prim' and ty[1] in ('f64', 'f32'):
            return [(st, mk('F' + b, x, y))]
        ov = b.endswith('WithOverflow')
        if ov:
            b = b[:-len('WithOverflow')]
        if b.endswith('Unchecked'):
            b = b[:-len('Unchecked')]
        if isb and b in ('BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne'):
            out = []
            for s1, p in self.branch(st, x):
                if b == 'BitAnd' and not p:
                    out.append((s1, FALSE))
                    continue
                if b == 'BitOr' and p:
                    out.append((s1, TRUE))
                    continue
                if b in ('BitAnd', 'BitOr'):
                    out.append((s1, y))
                elif (b in ('BitXor', 'Ne')):
                    out.append((s1, neg(y) if p else y))
                else:
                    out.append((s1, y if p else neg(y)))
            return out
        if ty[0] == 'prim' and ty[1] in UNSIGNED:
            for q in (x, y):
                if q.op not in ('C', 'LIN'):
                    NONNEG.add(q)
        if b == 'Add':
            v = add(x, y)
        elif b == 'Sub':
            v = sub(x, y)
        elif b == 'Mul':
            v = mul(x, y)
        elif b == 'Eq':
            v = eq(x, y)
        elif b == 'Ne':
            v = neg(eq(x, y))
        elif b == 'Lt':
            v = lt(x, y)
        elif b == 'Le':
            v = le(x, y)
        elif b == 'Gt':
            v = lt(y, x)
        elif b == 'Ge':
            v = le(y, x)
        elif b in ('Shl', 'Shr', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor') and isC(x) and isC(y):
            a_, b_ = x.a[0], y.a[0]
            if b in ('Div', 'Rem') and b_ == 0:
                return []
            v = C({'Shl': lambda: a_ << b_, 'Shr': lambda: a_ >> b_, 'Div': lambda: a_ // b_, 'Rem': lambda: a_ % b_,
                   'BitAnd': lambda: a_ & b_, 'BitOr': lambda: a_ | b_, 'BitXor': lambda: a_ ^ b_}[b]())
        elif b == 'Shl' and isC(y):
            v = mulc(x, 1 << y.a[0])
        else:
            v = mk('BIN', b, x, y)
        if ov:
            return [(st, tup([v, FALSE]))]
        return [(st, v)]

    # ---------------------------------------------------------------- branching
    def branch(self, st, t):
        """-> list of (st, bool)"""
        if t.op == 'C':
            return [(st, bool(t.a[0]))]
        if t.op == 'NOT':
            return [(s, not b) for s, b in self.branch(st, t.a[0])]
        if t.op == 'AND':
            out = []
            cur = [st]
            for x in t.a:
                nxt = []
                for s in cur:
                    for s2, b in self.branch(s, x):
                        if b:
                            nxt.append(s2)
                        else:
                            out.append((s2, False))
                cur = nxt
            return [(s, True) for s in cur] + out
        r = st.truth(t)
        if r is not None:
            return [(st, r)]
        out = []
        s1 = st.fork()
        if s1.learn(t, True):
            out.append((s1, True))
        s2 = st.fork()
        if s2.learn(t, False):
            out.append((s2, False))
        return out

    def split_variant(self, st, v, path, assume=None):
        """-> list of (st, variant index)"""
        if v.op == 'ADT':
            return [(st, v.a[1])]
        if v.op == 'PTR':
            return self.split_variant(st, self.deref(st, v), path)
        St._vp[v] = path
        n = nvariants(path)
        if n == 2:
            out = []
            for s, b in self.branch(st, mk('VAR', v, path, 1)):
                out.append((s, 1 if b else 0))
            out.sort(key=lambda x: -x[1])
            return out
        k = st.variant(v)
        if k is not None:
            return [(st, k)]
        out = []
        for i in range(n):
            s = st.fork()
            if s.learn(mk('VAR', v, path, i), True):
                out.append((s, i))
        return out

    def assume_variant(self, st, v, path, i):
        if v.op == 'ADT':
            return v.a[1] == i
        St._vp[v] = path
        n = nvariants(path)
        if n == 2:
            return st.learn(mk('VAR', v, path, 1), i == 1, cond=False)
        return st.learn(mk('VAR', v, path, i), True, cond=False)

    # ---------------------------------------------------------------- calls
    def call_fn(self, fn, args, env, st, site):
        """inline a workspace function -> list of (st, ret)"""
        self.stack.append(fn.id)
        try:
            if len(self.stack) > 60:
                raise Imprecise('depth')
            n = len(st.conds)
            pre = st.conds
            outs = self.exec_body(fn, fn.body, args, env, st, site)
            self.asserted(pre, n, outs)
            return outs
        finally:
            self.stack.pop()

    def asserted(self, pre, n, outs):
        """a bound that holds on every way out of a function is asserted by it (it panics otherwise): known from then on, not a condition"""
        common = None
        for s, v in outs:
            if s.conds[:n] != pre:
                return
            k = set(z for z in s.conds[n:] if z[0].op == 'LT0' and any(x.op == 'LEN' for x in subterms(z[0])))
            common = k if common is None else common & k
            if not common:
                return
        for s, v in outs:
            s.conds = pre + tuple(z for z in s.conds[n:] if z not in common)

    def exec_body(self, fn, body, args, env, st, site):
        fr = Frame()
        fr.fn = fn
        fr.body = body
        fr.env = env
        fr.cp = self.cp(site, fn.id, id(body))
        fr.id = fr.cp
        fr.loops = body.get('_loops')
        if fr.loops is None:
            fr.loops = body['_loops'] = loops_of(body)
        fr.div = body.get('_div')
        if fr.div is None:
            fr.div = body['_div'] = diverging(body)
        self.analysed.add(fn.id)
        # stale cells of an earlier activation at the same site
        for i, a in enumerate(args):
            st.cells[(fr.id, i + 1)] = a
        outs = self.run(fr, st, 0, None, None)
        res = []
        for kind, s, _ in outs:
            if kind == 'ret':
                v = s.cells.get((fr.id, 0), UNIT)
                for l in range(len(body['locals'])):
                    s.cells.pop((fr.id, l), None)
                res.append((s, v))
        return res

    def run(self, fr, st, bb, region, header):
        out = []
        work = [(st, bb, True)]
        body = fr.body
        n = 0
        while work:
            st, bb, first = work.pop()
            n += 1
            self.steps += 1
            if n > 60000 or len(out) > self.maxpaths:
                raise Imprecise('path budget in ' + fr.fn.n)
            if self.steps % 256 == 0 and time.time() > self.deadline:
                raise Imprecise('time budget in ' + fr.fn.n)
            if region is not None:
                if bb == header and not first:
                    out.append(('back', st, None))
                    continue
                if bb not in region:
                    out.append(('exit', st, bb))
                    continue
            if bb in fr.loops and not (first and bb == header):
                nxt = []
                for kind, s2, nb in self.run_loop(fr, st, bb):
                    if kind == 'ret':
                        out.append((kind, s2, nb))
                    else:
                        nxt.append((s2, nb, False))
                work.extend(reversed(nxt))
                continue
            b = body['blocks'][bb]
            states = [st]
            for s_ in b['s']:
                if s_[0] == '=':
                    ns = []
                    for s in states:
                        for s2, v in self.rvalue(fr, s, s_[2]):
                            self.wrplace(fr, s2, s_[1], v)
                            ns.append(s2)
                    states = ns
                elif s_[0] == 'sd':
                    pass
            t = b['t']
            nxt = []
            for s in states:
                for kind, s2, nb in self.term(fr, s, bb, t):
                    if kind == 'ret':
                        out.append((kind, s2, None))
                    else:
                        nxt.append((s2, nb, False))
            work.extend(reversed(nxt))
        return out

    def term(self, fr, st, bb, t):
        k = t[0]
        if k == 'goto':
            return [('go', st, t[1])]
        if k == 'ret':
            return [('ret', st, None)]
        if k == 'drop':
            return [('go', st, t[2])]
        if k == 'assert':
            return [('go', st, t[3])]
        if k == 'unreach' or k == 'resume':
            return []
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'call':
            return self.call_term(fr, st, bb, t)
        return []

    def switch(self, fr, st, t):
        c0 = st.conds
        out = self.switch0(fr, st, t)
        if fr.div and len(out) > 1:
            live = [o for o in out if o[2] not in fr.div]
            if live and len(live) < len(out):
                for k, s, b in out:
                    if b in fr.div:
                        self.panics.append((fr.fn.n, b, None, s))
                if len(live) == 1:
                    # the other branch panics: what is learnt is a precondition, not a case split
                    live[0][1].conds = c0
                return live
        return out

    def switch0(self, fr, st, t):
        v = self.op(fr, st, t[1])
        ty = fz(t[4])
        arms = [(int(x), b) for x, b in t[2]]
        if isC(v):
            for x, b in arms:
                if x == v.a[0]:
                    return [('go', st, b)]
            return [('go', st, t[3])]
        if v.op == 'DISCR':
            e = v.a[0]
            path = self.enum_path(fr, e, t)
            if path:
                out = []
                d = ADTS[path]
                disc = [int(x['d']) for x in d['v']]
                for s, i in self.split_variant(st, e, path):
                    tgt = t[3]
                    for x, b in arms:
                        if x == disc[i]:
                            tgt = b
                    out.append(('go', s, tgt))
                # group otherwise-variants: keep distinct (trace partitioning)
                return out
        if ty == ('prim', 'bool') or v.op in ('NOT', 'EQ', 'EQ0', 'LT0', 'VAR', 'QALL', 'AND'):
            out = []
            for s, bv in self.branch(st, v):
                tgt = t[3]
                for x, b in arms:
                    if x == int(bv):
                        tgt = b
                out.append(('go', s, tgt))
            return out
        out = []
        cur = st
        for x, b in arms:
            e = eq(v, C(x)) if v.op in INTISH else intish_eq(v, C(x))
            nx = None
            for s, bv in self.branch(cur, e):
                if bv:
                    out.append(('go', s, b))
                else:
                    nx = s
            if nx is None:
                return out
            cur = nx
        out.append(('go', cur, t[3]))
        return out

    def enum_path(self, fr, e, t):
        p = St._vp.get(e)
        if p:
            return p
        # find the place whose discriminant was taken
        o = t[1]
        if o[0] == 'k':
            return None
        loc = o[1][0]
        for b in fr.body['blocks']:
            for s in b['s']:
                if s[0] == '=' and s[1][0] == loc and not s[1][1] and s[2][0] == 'discr':
                    ty = self.place_ty(fr, s[2][1])
                    if ty and ty[0] == 'adt':
                        St._vp[e] = ty[1]
                        return ty[1]
        return None

    def place_ty(self, fr, place):
        l, projs = place
        ty = sub_ty(fz(fr.body['locals'][l]), fr.env)
        for pj in projs:
            if pj[0] == '*':
                if ty and ty[0] in ('ref', 'ptr'):
                    ty = ty[2]
                elif ty and ty[0] == 'adt' and ty[2]:
                    ty = ty[2][0]
            elif pj[0] == 'f':
                ty = sub_ty(fz(pj[5]), fr.env)
            elif pj[0] in ('i', 'ci'):
                if ty and ty[0] in ('slice', 'array'):
                    ty = ty[1]
        return ty

    def call_term(self, fr, st, bb, t):
        _, fop, args, dest, target, line = t
        vs = [self.op(fr, st, a) for a in args]
        fv = self.op(fr, st, fop)
        site = (fr.cp, bb)
        res = self.call_value(st, fv, vs, fr, site, line)
        out = []
        if target < 0:
            self.panics.append((fr.fn.n, line, fv, st))
            return []
        for s, v in res:
            self.wrplace(fr, s, dest, v)
            out.append(('go', s, target))
        return out

    def call_value(self, st, fv, vs, fr, site, line=0):
        """call of a function value -> list of (st, value)"""
        fv = self.deref(st, fv)
        if fv.op == 'FNV':
            return self.call_ref(st, fv.a[0], vs, fr, site, line)
        if fv.op == 'CLO':
            return self.call_closure(st, fv, vs, site)
        st.event('app', fv, tuple(vs))
        return [(st, mk('APP', fv, *vs))]

    def call_closure(self, st, f, vs, site, loc=None):
        """vs: untupled arguments"""
        if f.op == 'PTR':
            loc = (f.a[0], f.a[1])
            f = self.deref(st, f)
        if f.op == 'FNV':
            return self.call_ref(st, f.a[0], list(vs), None, site, 0)
        if f.op == 'TABF':
            x = st.norm(self.deref(st, vs[0]))
            hit = [o for i, o in f.a if i is x]
            if hit:
                return [(st, hit[0])]
        if f.op != 'CLO':
            st.event('app', f, tuple(vs))
            return [(st, mk('APP', f, *vs))]
        fn = self.p.fns.get(f.a[0])
        if fn is None:
            return [(st, mk('APP', f, *vs))]
        self_ty = fz(fn.body['locals'][1])
        if self_ty[0] == 'ref' and self_ty[1]:
            if loc is None:
                c = ('clo', self.cp(site, fn.id))
                st.cells[c] = f
                a0 = mk('PTR', c, ())
            else:
                a0 = mk('PTR', loc[0], loc[1])
        else:
            a0 = f
        if self.stack.count(fn.id) > 1:
            return [(st, mk('OPQ', 'rec', fn.n))]
        return self.call_fn(fn, [a0] + list(vs), dict(f.a[2]), st, site)

    def find_impl(self, trait, targs, method):
        """workspace impl of a trait method for substituted types"""
        best = None
        for im in self.p.impl_ix.get(trait, ()):
            env = {}
            okk = True
            for a, b in zip(im['targs'], targs):
                if a and b and a[0] != 'const' and not match_ty(a, b, env):
                    okk = False
                    break
            if okk:
                for it in im['items']:
                    if it[0] == method:
                        # prefer non-blanket impls
                        score = 0 if im['targs'][0][0] == 'param' else 1
                        if best is None or score > best[0]:
                            best = (score, it[1], env)
        return best

    def call_ref(self, st, f, vs, fr, site, line=0):
        _, fid, name, targs, trait, meth, res = f
        if self.watch:
            self.watch(self, st, f, vs, site)
        short = shortname(name)
        if name.endswith('::{constructor#0}'):
            q = name[:-len('::{constructor#0}')]
            if q in ADTS and len(ADTS[q]['v']) == 1:
                return [(st, vs[0] if q in TRANSPARENT and len(vs) == 1 else adt(q, 0, vs))]
            en, _, vn = q.rpartition('::')
            if en in ADTS:
                for i, x in enumerate(ADTS[en]['v']):
                    if x['n'] == vn:
                        return [(st, adt(en, i, vs))]
        # FnOnce/FnMut/Fn call
        if trait in ('core::ops::function::FnOnce', 'core::ops::function::FnMut', 'core::ops::function::Fn'):
            a = vs[1]
            l = list(a.a) if a.op == 'TUP' else [a]
            if a.op not in ('TUP',):
                ar = self.tuple_arity(targs)
                l = [fld(a, '(tuple)', 0, i) for i in range(ar)] if ar is not None else [a]
            return self.call_closure(st, vs[0], l, site)
        cands = [name]
        if res:
            cands.append(res[2])
        for n in cands:
            h = self.prims.get(n) or self.prims.get(shortname(n))
            if h:
                return h(self, st, f, vs, site)
        # resolve to workspace code
        fn = None
        env = None
        if res and res[1] in self.p.fns:
            fn = self.p.fns[res[1]]
            env = dict(zip(fn.g, res[3]))
        elif not trait and fid in self.p.fns:
            fn = self.p.fns[fid]
            env = dict(zip(fn.g, targs))
        elif trait:
            b = self.find_impl(trait, targs, meth)
            if b is None and vs:
                # dispatch on the abstract value
                v0 = self.deref(st, vs[0])
                if v0.op == 'ADT':
                    b = self.find_impl(trait, (('adt', v0.a[0], ()),) + tuple(targs[1:]), meth)
            if b is not None:
                fn = self.p.fns.get(b[1])
                if fn is not None:
                    env = dict(b[2])
                    # method generics follow the trait's
                    k = [g for g in fn.g if g not in env]
                    extra = targs[len(targs) - len(k):] if k else ()
                    env.update(zip(k, extra))
            elif fid in self.p.fns:
                fn = self.p.fns[fid]       # provided method
                env = dict(zip(fn.g, targs))
        if fn is not None and not (fn.derived and meth in ('clone', 'eq', 'ne', 'cmp', 'partial_cmp', 'fmt', 'hash', 'clone_from', 'lt', 'le', 'gt', 'ge', 'max', 'min')):
            for n in (fn.id, fn.n, shortname(fn.n)):
                h = self.prims.get(n)
                if h:
                    return h(self, st, f, vs, site)
            if fn.id in self.opaque_fns or fn.n in self.opaque_fns:
                return self.opaque(st, fn.n, vs)
            if self.stack.count(fn.id) > 0:
                self.unknown['recursion ' + fn.n] = 1
                return self.opaque(st, fn.n, vs)
            return self.call_fn(fn, vs, env, st, site)
        # library models
        cx = CallCx(self, f, fr, site, targs)
        for n in ([meth and (trait.split('::')[-1] + '::' + meth)] if trait else []) + [short]:
            h = self.models.get(n)
            if h:
                try:
                    r = h(self, st, vs, cx)
                except Decline:
                    r = NotImplemented
                if r is not NotImplemented:
                    return r
        r = self.modfall(self, st, name, vs, cx)
        if r is not NotImplemented:
            return r
        return self.opaque(st, res[2] if res else name, vs)

    def tuple_arity(self, targs):
        for a in targs[1:]:
            if a[0] == 'tuple':
                return len(a[1])
        return None

    def opaque(self, st, name, vs):
        self.unknown[name] = self.unknown.get(name, 0) + 1
        args = tuple(self.deref_deep(st, v) for v in vs)
        r = mk('CALL', name, *args)
        st.event('opaque', name, args)
        for i, v in enumerate(vs):
            # everything the callee can reach through a mutable borrow, also inside closures and adaptors, may have changed
            for x in [v] if v.op == 'PTR' else sorted((y for y in subterms(v) if y.op == 'PTR'), key=lambda y: y.n):
                self.writeloc(st, x.a[0], x.a[1], mk('AFTER', name, i, *args))
        return [(st, r)]

    # ---------------------------------------------------------------- loops
    def run_loop(self, fr, st, header):
        region = fr.loops[header]
        lid = self.loopids.setdefault((fr.cp, header), len(self.loopids))

        def iteration(s):
            return self.run(fr, s, header, region, header)
        return self.core_loop(st, lid, iteration, fr.fn.n)

    def core_loop(self, st, lid, iteration, where, unroll_ok=True):
        """iteration(st) -> [('back',st,_)|('exit',st,payload)|('ret',st,_)]
        -> list of ('exit'|'ret', st, payload)"""
        L = Loop(lid)
        # ---- peeling over literally known sequences
        if unroll_ok:
            done = []
            pending = [st]
            rest = []
            cnt = 0
            try:
                while pending:
                    cnt += 1
                    if cnt > (150 if self.decided else 40):
                        raise NeedGeneric()
                    nxt = []
                    for s in pending:
                        L.mode = 'unroll'
                        L.entry = s
                        L.hits = 0
                        L.srcs = {}
                        ne = len(self.panics)
                        self.loopstack.append(L)
                        try:
                            o = iteration(s.fork())
                        except NeedGeneric:
                            if cnt == 1:
                                raise
                            rest.append(s)
                            continue
                        finally:
                            self.loopstack.pop()
                        if L.hits == 0:
                            # a pass that is decided without assumptions is a concrete step
                            if any(k == 'back' and (not self.decided or len(o) > 1 or s2.conds != s.conds) for k, s2, _ in o):
                                raise NeedGeneric()
                        for kind, s2, pl in o:
                            if kind == 'back':
                                nxt.append(s2)
                            else:
                                done.append((kind, s2, pl))
                    pending = nxt
                for s in rest:
                    done.extend(self.generic_loop(s, lid, iteration, where))
                return done
            except NeedGeneric:
                if rest or cnt > 1:
                    pass
        return self.generic_loop(st, lid, iteration, where)

    def generic_loop(self, st, lid, iteration, where):
        L = Loop(lid)
        havoc = {}
        entry = st
        for rnd in range(12):
            s0 = entry.fork()
            for (cell, path), (lv, init) in havoc.items():
                self.writeloc(s0, cell, path, lv)
            L.mode = 'generic'
            L.entry = s0.fork()
            L.skips = []
            L.exh = False
            L.srcs = {}
            L.base = []
            L.extra = False
            L.irregular = False
            s0.conds = ()
            s0.ev = ()
            self.loopstack.append(L)
            try:
                outs = iteration(s0)
            finally:
                self.loopstack.pop()
            backs = [s for k, s, _ in outs if k == 'back'] + list(L.skips)
            new = {}
            late = False
            for b in backs:
                for cell, v1 in b.cells.items():
                    if cell in L.entry.cells or not (isinstance(cell, tuple) and cell[0] in ('sym', 'refcell')):
                        continue
                    d = cell[1] if cell[0] == 'sym' else mk('CONTENT', cell[1])
                    # memory behind an input reference, first touched inside the loop
                    if v1 is not d and not local_term(cell[1], lid):
                        if cell not in entry.cells:
                            entry.cells[cell] = d
                            late = True
            if late:
                continue
            for b in backs:
                for cell, v0 in L.entry.cells.items():
                    v1 = b.cells.get(cell)
                    if v1 is None or v1 is v0:
                        continue
                    for path, x0, x1 in diff(v0, v1):
                        loc = (cell, path)
                        if x1.op == 'GIT' and x1.a[0] == lid and x1.a[1] is x0:
                            continue
                        if x1.op == 'EUPD' and x1.a[1] == lid and x1.a[0] is x0:
                            continue
                        if x0.op in ITOPS and loc in L.srcs:
                            continue
                        if covered(loc, havoc):
                            continue
                        new[loc] = x0
            # refinement: drop sub-locations of new coarser ones
            if not new:
                break
            for loc in sorted(new, key=lambda l: len(l[1])):
                if covered(loc, havoc):
                    continue
                # remove finer
                for h in [h for h in havoc if h[0] == loc[0] and h[1][:len(loc[1])] == loc[1]]:
                    del havoc[h]
                init = self.readloc(entry, loc[0], loc[1])
                lv = mk('LV', lid, (loc[0] if not (isinstance(loc[0], tuple) and loc[0][0] == 'sym') else loc[0], loc[1]), init)
                if init.op == 'LEN' or init in NONNEG or (isC(init)):
                    NONNEG.add(lv)
                havoc[loc] = (lv, init)
        else:
            raise Imprecise('loop does not stabilise in ' + where)
        # regularity: each loop-carried iterator consumed exactly once on every back edge
        regular = bool(L.srcs)
        for loc, it in L.srcs.items():
            for b in backs:
                v = self.readloc(b, loc[0], loc[1])
                if not (v.op == 'GIT' and v.a[1] is it):
                    regular = False
        if L.irregular:
            regular = False
        rec = LoopRec(lid, where)
        rec.havoc = havoc
        rec.regular = regular
        rec.srcs = dict(L.srcs)
        bases = []
        for b in L.base:
            if b not in bases:
                bases.append(b)
        fin = [b for b in bases if b.op != 'INF' and not (b.op == 'SEQ' and len(b.a) == 1 and b.a[0].op == 'REP' and b.a[0].a[1].op == 'INFLEN')]
        # 0..len(s) next to s, or alone
        fin2 = []
        for b in fin:
            if b.op == 'SEQ' and len(b.a) == 1 and b.a[0].op == 'RNG' and isC(b.a[0].a[0]) and b.a[0].a[0].a[0] == 0 and b.a[0].a[1].op == 'LEN':
                b = b.a[0].a[1].a[0]
            if b not in fin2:
                fin2.append(b)
        src = None
        if fin2:
            src = fin2[0] if len(fin2) == 1 else mk('ZIP', *fin2)
        elif bases:
            src = bases[0]
        rec.src = src
        exits = [(k, s, pl) for k, s, pl in outs if k != 'back']
        ind = {}
        if regular and backs:
            for loc, (lv, init) in havoc.items():
                ds = set(sub(self.readloc(b, loc[0], loc[1]), lv) for b in backs)
                if len(ds) == 1:
                    d = ds.pop()
                    if isC(d) and d.a[0] != 0:
                        ind[lv] = add(init, mulc(mk('IDX', lid), d.a[0]))
        rec.ind = ind
        if ind:
            memo = {}
            for s in backs + [x for _, x, _ in exits]:
                for cell, v in list(s.cells.items()):
                    if isinstance(v, T):
                        s.cells[cell] = subst(v, ind, memo)
                s.conds = tuple(ncond(subst(a, ind, memo), p) for a, p in s.conds)
                s.ev = subst_ev(s.ev, ind, memo)
                for a, p in s.conds:
                    if a.op != 'C':
                        s.learn(a, p, cond=False)
        for k, s, pl in outs:
            if k == 'back':
                rec.cases.append(('back', s.conds, s.ev, s))
            else:
                rec.cases.append((k, s.conds, s.ev, s))
        for s in L.skips:
            rec.cases.append(('skip', s.conds, s.ev, s))
        result = []
        q = None
        if regular and exits:
            dnf = frozenset(c for c in (dnf_clause(s.conds) for s in backs))
            q = mkqall(lid, src, dnf)
        # early exits / while exits
        for k, s, pl in exits:
            s.ev = entry.ev + (('loop', rec),) + s.ev
            s.conds = entry.conds + s.conds
            if q is not None:
                s2 = s
                if q.op == 'QALL':
                    s2.facts[q] = False
                    s2.conds = entry.conds + ((q, False),) + s.conds[len(entry.conds):]
            result.append((k, s, pl))
        if L.exh:
            c = entry.fork()
            for loc, (lv, init) in havoc.items():
                if lv in ind:
                    d = sub(ind[lv], init)
                    k = lin_of(d)[1][mk('IDX', lid)]
                    v = add(init, mulc(length(src), k)) if src is not None and src.op != 'INF' else mk('LOOPV', lid, loc_key(loc), init)
                else:
                    v = self.close(rec, loc, lv, init, backs, regular, src, bool(exits))
                rec.closed[loc] = v
                self.writeloc(c, loc[0], loc[1], v)
            # element-wise updates
            for cell, v0 in L.entry.cells.items():
                locs = set()
                for b in backs:
                    v1 = b.cells.get(cell)
                    if v1 is None or v1 is v0:
                        continue
                    for path, x0, x1 in diff(v0, v1):
                        if x1.op == 'EUPD' and x1.a[1] == lid and x1.a[0] is x0:
                            locs.add((path, x0))
                for path, x0 in locs:
                    cases = []
                    for b in backs:
                        x = self.readloc(b, cell, path)
                        nv = x.a[2] if x.op == 'EUPD' and x.a[1] == lid else elem(lid, x0)
                        cases.append((b.conds, (one(nv),)))
                    v = seq([mk('COMP', lid, x0, merge_cases(cases))])
                    if not regular:
                        v = mk('LOOPV', lid, (cell, path), x0)
                    self.writeloc(c, cell, path, v)
            if q is not None and q.op == 'QALL':
                if not c.learn(q, True):
                    c = None
            elif q is not None and q is FALSE:
                c = None
            if c is not None:
                c.ev = entry.ev + (('loop', rec),)
                more = False
                for loc, it in L.srcs.items():
                    chain = single_chain(self, L, loc[0], loc[1])
                    rest = exhausted(it)
                    if it.op == 'IT' and not chain and has_more(rest):
                        rest = mk('IT', EMPTY)
                    if has_more(rest):
                        done = plen(parts(it.a[0])[0])
                        for i in range(len(loc[1])):
                            w = self.readloc(c, loc[0], loc[1][:i])
                            if w.op == 'ITENUM':
                                self.writeloc(c, loc[0], loc[1][:i], mk('ITENUM', w.a[0], add(w.a[1], done)))
                    self.writeloc(c, loc[0], loc[1], rest)
                    if has_more(rest):
                        more = True
                c.conds = c.conds
                if more:
                    # a further part of the iterated sequence
                    lid2 = self.loopids.setdefault(('part', lid), len(self.loopids))
                    result.extend(self.core_loop(c, lid2, iteration, where))
                else:
                    L2 = Loop(lid)
                    L2.mode = 'final'
                    L2.entry = c
                    self.loopstack.append(L2)
                    try:
                        outs = iteration(c.fork())
                    finally:
                        self.loopstack.pop()
                    for k, s, pl in outs:
                        if k == 'back':
                            # loop goes on although its iterator is exhausted
                            continue
                        result.append((k, s, pl))
        rec.result_n = len(result)
        return result

    def close(self, rec, loc, lv, init, backs, regular, src, early):
        vals = [(b.conds, self.readloc(b, loc[0], loc[1])) for b in backs]
        if all(v is lv for _, v in vals):
            return init
        if regular:
            # append
            cases = []
            okk = True
            for c, v in vals:
                if v is lv:
                    cases.append((c, ()))
                elif v.op == 'SEQ' and v.a and v.a[0].op == 'ALL' and v.a[0].a[0] is lv:
                    cases.append((c, v.a[1:]))
                else:
                    okk = False
                    break
            if okk:
                return seq(parts(init) + (mk('COMP', rec.id, src, merge_cases(cases)),))
            # prepend
            if src is not None and src.op != 'INF':
                cases = []
                for c, v in vals:
                    if v is lv:
                        cases.append((c, ()))
                    elif v.op == 'SEQ' and len(v.a) > 1 and v.a[-1].op == 'ALL' and v.a[-1].a[0] is lv and not any(
                            y is lv for q in v.a[:-1] for y in subterms(q)):
                        cases.append((c, v.a[:-1]))
                    else:
                        cases = None
                        break
                if cases:
                    rs = rev(src)
                    m = {mk('IDX', rec.id): sub(add(length(src), C(-1)), mk('IDX', rec.id)), mk('ELEM', rec.id, src): elem(rec.id, rs)}
                    cases = [(tuple((subst(a, m), b) for a, b in c), tuple(subst(i, m) for i in its)) for c, its in cases]
                    return seq((mk('COMP', rec.id, rs, merge_cases(cases)),) + parts(init))
            # counters
            ds = set()
            for c, v in vals:
                d = sub(v, lv)
                ds.add(d)
            if len(ds) == 1:
                d = next(iter(ds))
                if isC(d) and not early:
                    return add(init, mulc(length(src), d.a[0]))
            if ds and all(isC(d) for d in ds):
                return mk('LOOPV', rec.id, loc_key(loc), init)
            # sums of a function of the element
            if len(ds) == 1 and src is not None and src.op != 'INF':
                d = next(iter(ds))
                if not varies(d, rec.id):
                    m = {}
                    for y in subterms(d):
                        if y.op in ('ELEM', 'IDX') and y.a[0] == rec.id:
                            m[y] = mk('ELEM', '•', y.a[1]) if y.op == 'ELEM' else mk('IDX', '•')
                    return add(init, mk('SUMOF', src, subst(d, m)))
            # boolean flags
            if isC(init) and all(v is lv or isC(v) for _, v in vals):
                ks = set(v for _, v in vals if v is not lv)
                if len(ks) == 1:
                    k = ks.pop()
                    if k is init:
                        return init
                    dnf = frozenset(dnf_clause(c) for c, v in vals if v is lv)
                    q = mkqall(rec.id, src, dnf)
                    if init.a[0] in (0, 1) and k.a[0] in (0, 1):
                        return q if init.a[0] == 1 else neg(q)
            # conjunction / disjunction accumulators: the flag stays put once it differs from what further elements need
            for stick in (FALSE, TRUE):
                dnf = self.sticky(lv, vals, stick)
                if dnf is not None:
                    q = mkqall(rec.id, src, dnf)
                    i = init if stick is FALSE else neg(init)
                    r = q if i is TRUE else i if i is FALSE else mk('AND', i, q)
                    return r if stick is FALSE else neg(r)
            # overwritten by every element: the last one decides
            if not any(y is lv for c, v in vals for z in [v] + [a for a, _ in c] for y in subterms(z)) and all(
                    isC(v) or v.op in ('NOT', 'EQ', 'EQ0', 'LT0', 'VAR', 'QALL') for _, v in vals):
                return mk('LASTOF', rec.id, src if src is not None else mk('NOSRC'), init, tuple((tuple(c), v) for c, v in vals))
        # prepend / map updates
        ups = []
        for c, v in vals:
            chain = []
            x = v
            while x.op in ('MINS', 'STORE', 'MREM', 'LUPD', 'BVOR'):
                if x.op == 'LUPD':
                    chain.append((x.op, x.a[0], x.a[2], x.a[3]))
                    x = x.a[1]
                    continue
                chain.append((x.op,) + x.a[1:])
                x = x.a[0]
            if x is not lv or not regular:
                return mk('LOOPV', rec.id, loc_key(loc), init)
            ups.append((c, tuple(reversed(chain))))
        return mk('LUPD', rec.id, init, src if src is not None else mk('NOSRC'), tuple(ups))

    def sticky(self, lv, vals, stick):
        dnf = set()
        for c, v in vals:
            pol = [p for a, p in c if a is lv]
            rest = tuple((a, p) for a, p in c if a is not lv)
            if any(y is lv for a, _ in rest for y in subterms(a)):
                return None
            stuck = (stick is TRUE)
            if pol and pol[0] == stuck:
                if v is not lv and v is not stick:
                    return None
                continue
            if v is lv:
                dnf.add(dnf_clause(rest))
            elif v is stick:
                continue
            elif isC(v):
                if not pol:
                    return None
                dnf.add(dnf_clause(rest))
            elif pol and v.op in ('NOT', 'EQ', 'EQ0', 'LT0', 'VAR', 'QALL') and not any(y is lv for y in subterms(v)):
                t, b = (v.a[0], False) if v.op == 'NOT' else (v, True)
                dnf.add(dnf_clause(rest + ((t, b != stuck),)))
            else:
                return None
        return frozenset(dnf)

    # ------------------------------------------------- generic iteration helper for models
    def each(self, st, it, body, site, tag=''):
        """drives iterator value `it` to exhaustion; body(st, elem) -> [(st, None|payload)]
        -> ('done', st) / ('exit', st, payload)"""
        cell = ('iter', self.cp(site, 'each', tag))
        st.cells[cell] = it
        lid = self.loopids.setdefault((site, 'each', tag), len(self.loopids))

        def iteration(s):
            out = []
            for s1, o in self.next_at(s, cell, (), site):
                if o.op == 'ADT':
                    if o.a[1] == 0:
                        out.append(('exit', s1, ('done',)))
                    else:
                        for s2, p in body(s1, o.a[2][0]):
                            if p is None:
                                out.append(('back', s2, None))
                            else:
                                out.append(('exit', s2, ('pl', p)))
                else:
                    for s2, i in self.split_variant(s1, o, OPTION):
                        if i == 0:
                            out.append(('exit', s2, ('done',)))
                        else:
                            for s3, p in body(s2, fld(o, OPTION, 1, 0)):
                                if p is None:
                                    out.append(('back', s3, None))
                                else:
                                    out.append(('exit', s3, ('pl', p)))
            return out
        res = []
        for k, s, pl in self.core_loop(st, lid, iteration, str(site)):
            s.cells.pop(cell, None)
            if pl[0] == 'done':
                res.append(('done', s, None))
            else:
                res.append(('exit', s, pl[1]))
        return res

    # ---------------------------------------------------------------- iterators
    def next_at(self, st, cell, path, site):
        """Iterator::next on the iterator stored at a location -> [(st, option)]"""
        it = self.readloc(st, cell, path)
        o = it.op
        if o == 'PTR':
            return self.next_at(st, it.a[0], it.a[1], site)
        if o == 'ITMAP':
            out = []
            for s, v in self.next_at(st, cell, path + (('it', 0),), site):
                for s2, x in self.opt(s, v):
                    if x is None:
                        out.append((s2, NONE))
                    else:
                        for s3, y in self.call_closure(s2, it.a[1], [x], (site, 'map', it.a[2])):
                            out.append((s3, some(y)))
            return out
        if o in ('ITFILT', 'ITFM', 'ITTW', 'ITSW'):
            return self.next_filter(st, cell, path, it, site)
        if o == 'ITENUM':
            out = []
            cnt = it.a[1]
            for s, v in self.next_at(st, cell, path + (('it', 0),), site):
                for s2, x in self.opt(s, v):
                    if x is None:
                        out.append((s2, NONE))
                    else:
                        cur = self.readloc(s2, cell, path)
                        lid = self.git_of(cur.a[0])
                        if lid is not None:
                            i = add(cnt, mk('IDX', lid))
                            if self.filtered(cur.a[0]):
                                if self.loopstack:
                                    self.loopstack[-1].irregular = True
                                i = mk('OPQ', 'enumerate', self.cp(site, 'enum'), C(s2.nfresh))
                        else:
                            i = cnt
                            self.writeloc(s2, cell, path, mk('ITENUM', cur.a[0], add(cnt, C(1))))
                        out.append((s2, some(tup([i, x]))))
            return out
        if o == 'ITZIP':
            out = []
            for s, v in self.next_at(st, cell, path + (('it', 0),), site):
                for s2, x in self.opt(s, v):
                    if x is None:
                        out.append((s2, NONE))
                        continue
                    for s3, w in self.next_at(s2, cell, path + (('it', 1),), site):
                        for s4, y in self.opt(s3, w):
                            out.append((s4, NONE if y is None else some(tup([x, y]))))
            return out
        if o == 'ITCHAIN':
            out = []
            for s, v in self.next_at(st, cell, path + (('it', 0),), site):
                for s2, x in self.opt(s, v):
                    if x is None:
                        out.extend(self.next_at(s2, cell, path + (('it', 1),), site))
                    else:
                        out.append((s2, some(x)))
            return out
        if o == 'ITFLAT':
            return self.next_flat(st, cell, path, it, site)
        if o == 'ITREV':
            return self.opaque(st, 'Rev::next', [mk('PTR', cell, path)])
        if o == 'ITTAKE':
            out = []
            n = it.a[1]
            # take over an infinite generator is resolved at construction
            for s, b in self.branch(st, le(n, C(0))):
                if b:
                    out.append((s, NONE))
                else:
                    for s2, v in self.next_at(s, cell, path + (('it', 0),), site):
                        cur = self.readloc(s2, cell, path)
                        if self.git_of(cur.a[0]) is not None:
                            if self.loopstack:
                                self.loopstack[-1].irregular = True
                        else:
                            self.writeloc(s2, cell, path, mk('ITTAKE', cur.a[0], sub(n, C(1))))
                        out.append((s2, v))
            return out
        if o == 'ADT':
            b = self.find_impl('core::iter::traits::iterator::Iterator', (('adt', it.a[0], ()),), 'next')
            if b:
                fn = self.p.fns[b[1]]
                return self.call_fn(fn, [mk('PTR', cell, path)], dict(b[2]), st, (site, 'next'))
        if o in ('IT', 'ITMUT'):
            return self.next_base(st, cell, path, it, site)
        if o == 'GIT':
            # second consumption in the same generic iteration
            if self.loopstack:
                self.loopstack[-1].irregular = True
            v = mk('NEXT2', it, mk('C', st.nfresh))
            St._vp[v] = OPTION
            out = []
            for s, i in self.split_variant(st, v, OPTION):
                out.append((s, some(fld(v, OPTION, 1, 0)) if i else NONE))
            return out
        # unknown iterator value: symbolic sequence
        self.writeloc(st, cell, path, mk('IT', it))
        return self.next_at(st, cell, path, site)

    def positional(self, st, cell, path):
        """the iterator sits under an adaptor that depends on positions"""
        for i in range(len(path)):
            if path[i][0] == 'it' and self.readloc(st, cell, path[:i]).op in ('ITENUM', 'ITZIP', 'ITTAKE'):
                return True
        return False

    def filtered(self, it):
        while True:
            if it.op in ('ITFILT', 'ITFM', 'ITTW', 'ITSW', 'ITFLAT', 'ITCHAIN'):
                return True
            if it.op in ('ITMAP', 'ITENUM', 'ITTAKE'):
                it = it.a[0]
                continue
            if it.op == 'ITZIP':
                return self.filtered(it.a[0]) or self.filtered(it.a[1])
            return False

    def git_of(self, it):
        while True:
            if it.op == 'GIT':
                return it.a[0]
            if it.op in ('ITMAP', 'ITFILT', 'ITFM', 'ITENUM', 'ITZIP', 'ITTAKE', 'ITTW', 'ITSW', 'ITCHAIN'):
                it = it.a[0]
                continue
            if it.op == 'ADT':
                for f in it.a[2]:
                    r = self.git_of(f)
                    if r is not None:
                        return r
            return None

    def opt(self, st, v):
        """option value -> [(st, None|inner)]"""
        if v.op == 'ADT':
            return [(st, v.a[2][0] if v.a[1] == 1 else None)]
        return [(s, fld(v, OPTION, 1, 0) if i else None) for s, i in self.split_variant(st, v, OPTION)]

    def carried(self, cell, path, it):
        """the loop whose iteration this iterator is carried through, if any"""
        if not self.loopstack:
            return None
        L = self.loopstack[-1]
        if cell not in L.entry.cells:
            return None
        try:
            v = self.readloc(L.entry, cell, path)
        except Exception:
            return None
        if v is it:
            return L
        return None

    def next_base(self, st, cell, path, it, site):
        L = self.carried(cell, path, it)
        s = it.a[0] if it.op == 'IT' else None
        if it.op == 'ITMUT':
            # a[0] = target PTR, a[1] = consumed prefix length (constant) or end
            return self.next_mut(st, cell, path, it, site, L)
        ps = parts(s)
        if L is not None and L.mode in ('unroll', 'final'):
            if not ps:
                L.hits += 1
                return [(st, NONE)]
            if ps[0].op == 'ONE':
                L.hits += 1
                self.writeloc(st, cell, path, mk('IT', seq(ps[1:])))
                return [(st, some(ps[0].a[0]))]
            if s.op == 'INF':
                # infinite companions of a known sequence: position tracked
                self.writeloc(st, cell, path, mk('IT', mk('INF', s.a[0], add(s.a[1], C(1)))))
                return [(st, some(gsym(s.a[0], s.a[1])))]
            if ps[0].op == 'REP' and ps[0].a[1].op == 'INFLEN':
                return [(st, some(ps[0].a[0]))]
            if L.mode == 'unroll':
                raise NeedGeneric()
            # final pass over a sequence that is not empty: should not happen
            return [(st, NONE)]
        if L is not None and L.mode == 'generic':
            L.srcs[(cell, path)] = it
            if not ps:
                return [(st, NONE)]
            head = ps[0] if single_chain(self, L, cell, path) else None
            srcseq = seq([ps[0]]) if head is not None else s
            if s.op == 'INF':
                srcseq = s
            if srcseq.op != 'INF' and not (srcseq.op == 'SEQ' and srcseq.a and srcseq.a[0].op == 'REP' and srcseq.a[0].a[1].op == 'INFLEN'):
                L.exh = True
            self.writeloc(st, cell, path, mk('GIT', L.id, it))
            if srcseq.op == 'SEQ' and len(srcseq.a) == 1 and srcseq.a[0].op == 'COMP':
                L0, src0, cases = srcseq.a[0].a
                if all(len(i) <= 1 and all(q.op == 'ONE' for q in i) for _, i in cases) and (
                        all(len(i) == 1 for _, i in cases) or not self.positional(st, cell, path)):
                    out = []
                    if src0 not in L.base:
                        L.base.append(src0)
                    for conds, items in cases:
                        m = {}
                        for x in comp_binders(conds, items, L0):
                            m[x] = elem(L.id, x.a[1]) if x.op == 'ELEM' else mk('IDX', L.id)
                        s2 = st.fork()
                        good = True
                        for a, p in conds:
                            a2 = subst(a, m)
                            if a2.op == 'C':
                                if bool(a2.a[0]) != p:
                                    good = False
                                    break
                            elif not s2.learn(a2, p):
                                good = False
                                break
                        if not good:
                            continue
                        if items:
                            out.append((s2, some(subst(items[0].a[0], m))))
                        else:
                            L.skips.append(s2)
                    return out
            if srcseq not in L.base:
                L.base.append(srcseq)
            e = elem(L.id, srcseq)
            return [(st, some(e))]
        # plain consumption
        if not ps:
            return [(st, NONE)]
        if ps[0].op == 'ONE':
            self.writeloc(st, cell, path, mk('IT', seq(ps[1:])))
            return [(st, some(ps[0].a[0]))]
        if s.op == 'INF':
            self.writeloc(st, cell, path, mk('IT', mk('INF', s.a[0], add(s.a[1], C(1)))))
            return [(st, some(gsym(s.a[0], s.a[1])))]
        out = []
        n = length(s)
        for s2, b in self.branch(st, lt(C(0), n)):
            if b:
                v = at(s, C(0))
                self.writeloc(s2, cell, path, mk('IT', slc(s, C(1), n)))
                out.append((s2, some(v)))
            else:
                self.writeloc(s2, cell, path, mk('IT', EMPTY))
                out.append((s2, NONE))
        return out

    def next_mut(self, st, cell, path, it, site, L):
        tgt, k = it.a
        tc, tp = tgt.a
        cur = self.readloc(st, tc, tp)
        lst = conc_list(cur)
        if lst is not None and isC(k):
            if L is None or L.mode in ('unroll', 'final') or k.a[0] >= len(lst):
                if L is not None:
                    L.hits += 1
                if k.a[0] >= len(lst):
                    return [(st, NONE)]
                self.writeloc(st, cell, path, mk('ITMUT', tgt, add(k, C(1))))
                return [(st, some(mk('PTR', tc, tp + (('i', k),))))]
        if k.op == 'END':
            return [(st, NONE)]
        if L is not None and L.mode == 'generic':
            L.srcs[(cell, path)] = it
            L.exh = True
            base = cur
            while base.op == 'EUPD' and base.a[1] == L.id:
                base = base.a[0]
            if base not in L.base:
                L.base.append(base)
            self.writeloc(st, cell, path, mk('GIT', L.id, it))
            return [(st, some(mk('PTR', tc, tp + (('elem', L.id),))))]
        if L is not None and L.mode == 'unroll':
            raise NeedGeneric()
        if L is not None and L.mode == 'final':
            return [(st, NONE)]
        out = []
        for s2, b in self.branch(st, lt(k, length(cur))):
            if b:
                self.writeloc(s2, cell, path, mk('ITMUT', tgt, add(k, C(1))))
                out.append((s2, some(mk('PTR', tc, tp + (('i', k),)))))
            else:
                out.append((s2, NONE))
        return out

    def next_filter(self, st, cell, path, it, site):
        out = []
        todo = [st]
        guard = 0
        while todo:
            guard += 1
            if guard > 64:
                raise Imprecise('filter')
            st = todo.pop()
            for s, v in self.next_at(st, cell, path + (('it', 0),), site):
                for s2, x in self.opt(s, v):
                    if x is None:
                        out.append((s2, NONE))
                        continue
                    cur = self.readloc(s2, cell, path)
                    generic = self.git_of(cur.a[0]) is not None
                    for s3, y in self.call_closure(s2, it.a[1], [x], (site, it.op, it.a[2])):
                        if it.op == 'ITFM':
                            for s4, z in self.opt(s3, y):
                                if z is not None:
                                    out.append((s4, some(z)))
                                elif generic:
                                    self.loopstack[-1].skips.append(s4)
                                else:
                                    todo.append(s4)
                        else:
                            for s4, b in self.branch(s3, y):
                                if it.op == 'ITTW':
                                    if b:
                                        out.append((s4, some(x)))
                                    else:
                                        out.append((s4, NONE))
                                    continue
                                if it.op == 'ITSW':
                                    if b and generic:
                                        self.loopstack[-1].irregular = True
                                        self.loopstack[-1].skips.append(s4)
                                    elif b:
                                        todo.append(s4)
                                    else:
                                        out.append((s4, some(x)))
                                    continue
                                if b:
                                    out.append((s4, some(x)))
                                elif generic:
                                    self.loopstack[-1].skips.append(s4)
                                else:
                                    todo.append(s4)
        return out

    def next_flat(self, st, cell, path, it, site):
        # generic element of a generic inner sequence
        out = []
        for s, v in self.next_at(st, cell, path + (('it', 0),), site):
            for s2, x in self.opt(s, v):
                if x is None:
                    out.append((s2, NONE))
                    continue
                x = self.deref(s2, x)
                if x.op == 'ADT' and x.a[0] == OPTION:
                    if x.a[1] == 1:
                        out.append((s2, some(x.a[2][0])))
                    elif self.git_of(self.readloc(s2, cell, path).a[0]) is not None:
                        self.loopstack[-1].skips.append(s2)
                    else:
                        out.extend(self.next_at(s2, cell, path, site))
                    continue
                inner = x.a[0] if x.op == 'IT' else x
                lid = self.git_of(self.readloc(s2, cell, path).a[0])
                if lid is None:
                    raise Imprecise('flatten')
                self.loopstack[-1].irregular = True
                e = elem(('flat', lid), inner)
                out.append((s2, some(e)))
        return out


class CallCx(object):
    __slots__ = ('I', 'f', 'fr', 'site', 'targs')

    def __init__(self, I, f, fr, site, targs):
        self.I, self.f, self.fr, self.site, self.targs = I, f, fr, site, targs


BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}
UNSIGNED = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize')
TRANSPARENT = {'alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull',
               'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_uninit::MaybeUninit',
               'core::mem::maybe_dangling::MaybeDangling',
               'core::num::wrapping::Wrapping', 'core::cmp::Reverse_', 'core::cell::UnsafeCell'}
ITOPS = {'IT', 'ITMAP', 'ITFILT', 'ITFM', 'ITENUM', 'ITZIP', 'ITCHAIN', 'ITFLAT', 'ITREV', 'ITTAKE', 'ITMUT', 'GIT', 'ITTW', 'ITSW'}


def ncond(a, p):
    while a.op == 'NOT':
        a, p = a.a[0], not p
    return a, p


def subst_ev(ev, m, memo):
    out = []
    for e in ev:
        if e and e[0] == 'loop':
            out.append(e)
        else:
            out.append(tuple(subst(x, m, memo) if isinstance(x, T) else (tuple(subst(y, m, memo) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x) for x in e))
    return tuple(out)


def diverging(body):
    """blocks from which the function cannot return"""
    bl = body['blocks']
    n = len(bl)
    preds = [[] for _ in range(n)]
    for i, b in enumerate(bl):
        for x in succs(b['t']):
            preds[x].append(i)
    good = set(i for i, b in enumerate(bl) if b['t'][0] == 'ret')
    work = list(good)
    while work:
        x = work.pop()
        for y in preds[x]:
            if y not in good:
                good.add(y)
                work.append(y)
    return frozenset(i for i in range(n) if i not in good)


def intish_eq(a, b):
    c, d = lin_of(sub(a, b))
    d = {t: k for t, k in d.items() if k}
    if not d:
        return C(c == 0)
    if _fc(d) < 0:
        c, d = -c, {t: -k for t, k in d.items()}
    return mk('EQ0', mklin(c, d))


def shortname(n):
    # '<A as B::C>::m' -> 'C::m' ; 'a::b::C::m' -> 'C::m'
    if n.startswith('<'):
        i = n.rfind(' as ')
        j = n.rfind('>::')
        if i >= 0 and j > i:
            return n[i + 4:j].split('::')[-1] + '::' + n[j + 3:]
    ps = n.split('::')
    return '::'.join(ps[-2:])


def store(s, i, v):
    l = conc_list(s)
    if l is not None and isC(i) and 0 <= i.a[0] < len(l):
        l = list(l)
        l[i.a[0]] = v
        return seqof(l)
    if at(s, i) is v:
        return s
    if s.op == 'STORE' and s.a[1] is i:
        s = s.a[0]
    return mk('STORE', s, i, v)


# maps
def mapins(m, k, v):
    if m.op == 'MINS' and m.a[1] is k:
        m = m.a[0]
    if mapval(m, k) is v and m.op != 'MAP0':
        return m
    return mk('MINS', m, k, v)


def mapval(m, k):
    x = m
    while True:
        if x.op == 'MINS':
            e = eq(x.a[1], k)
            if e is TRUE:
                return x.a[2]
            if e is FALSE:
                x = x.a[0]
                continue
        break
    return mk('MVAL', x, k)


def maphas(m, k):
    x = m
    while True:
        if x.op == 'MINS':
            e = eq(x.a[1], k)
            if e is TRUE:
                return TRUE
            if e is FALSE:
                x = x.a[0]
                continue
        elif x.op == 'MREM':
            e = eq(x.a[1], k)
            if e is TRUE:
                return FALSE
            if e is FALSE:
                x = x.a[0]
                continue
        elif x.op == 'MAP0' or x is EMPTY:
            return FALSE
        break
    return mk('MHAS', x, k)


def diff(a, b, path=()):
    """minimal differing sub-locations"""
    if a is b:
        return []
    if a.op == 'ADT' or b.op == 'ADT':
        x = a if a.op == 'ADT' else b
        p, var = x.a[0], x.a[1]
        okk = (a.op != 'ADT' or b.op != 'ADT' or (a.a[0] == b.a[0] and a.a[1] == b.a[1]))
        d = ADTS.get(p)
        if okk and d and not d['enum'] and a.op not in ('UNINIT',) and b.op not in ('UNINIT', 'BOT'):
            n = nfields(p, var)
            out = []
            for i in range(n):
                out += diff(fld(a, p, var, i), fld(b, p, var, i), path + (('f', p, var, i, False),))
            return out
    if a.op == 'TUP' and b.op == 'TUP' and len(a.a) == len(b.a):
        out = []
        for i in range(len(a.a)):
            out += diff(a.a[i], b.a[i], path + (('f', '(tuple)', 0, i, False),))
        return out
    if a.op == 'CLO' and b.op == 'CLO' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        out = []
        for i in range(len(a.a[1])):
            out += diff(a.a[1][i], b.a[1][i], path + (('f', '(closure)', 0, i, False),))
        return out
    if a.op in ITOPS and a.op == b.op and a.op not in ('IT', 'ITMUT', 'GIT'):
        out = []
        for i in range(len(a.a)):
            x, y = a.a[i], b.a[i]
            if x is not y:
                if isinstance(x, T) and isinstance(y, T):
                    out += diff(x, y, path + (('it', i),))
        return out
    return [(path, a, b)]


def covered(loc, havoc):
    for h in havoc:
        if h[0] == loc[0] and loc[1][:len(h[1])] == h[1]:
            return True
    return False


def loc_key(loc):
    return (loc[0], loc[1])


def dnf_clause(conds):
    return frozenset(conds)


def merge_cases(cases):
    """merges cases whose items agree when they only differ by one complementary literal"""
    cs = [(tuple(c), tuple(i)) for c, i in cases]
    ch = True
    while ch:
        ch = False
        for x in range(len(cs)):
            for y in range(x + 1, len(cs)):
                if cs[x][1] == cs[y][1]:
                    a, b = frozenset(cs[x][0]), frozenset(cs[y][0])
                    d1, d2 = a - b, b - a
                    if len(d1) == 1 and len(d2) == 1:
                        (t1, p1), (t2, p2) = list(d1)[0], list(d2)[0]
                        if t1 is t2 and p1 != p2:
                            keep = tuple(l for l in cs[x][0] if l in b)
                            cs[x] = (keep, cs[x][1])
                            del cs[y]
                            ch = True
                            break
                    elif not d1 or not d2:
                        cs[x] = (cs[x][0] if not d1 else cs[y][0], cs[x][1])
                        del cs[y]
                        ch = True
                        break
            if ch:
                break
    return tuple(cs)


def simplify_dnf(dnf):
    cs = [(tuple(c), ()) for c in dnf]
    return frozenset(frozenset(c) for c, _ in merge_cases(cs))


def varies(t, lid):
    """mentions a value changed by loop lid, or an unknown one"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'LV':
                if x.a[0] == lid:
                    return True
                continue
            if x.op in ('OPQ', 'CALL', 'UNINIT'):
                return True
            st.extend(x.a)
    return False


def mkqall(lid, src, dnf):
    """for all elements of src: dnf"""
    dnf = simplify_dnf(dnf)
    if frozenset() in dnf:
        return TRUE
    # canonical bound variable
    ts = set()
    for c in dnf:
        for a, p in c:
            for x in subterms(a):
                if x.op in ('ELEM', 'IDX') and x.a[0] == lid:
                    ts.add(x)
    m = {}
    for x in ts:
        m[x] = mk('ELEM', '•', x.a[1]) if x.op == 'ELEM' else mk('IDX', '•')
    cl = []
    for c in dnf:
        out = []
        for a, p in c:
            a2 = subst(a, m)
            if a2.op == 'NOT':
                a2, p = a2.a[0], not p
            out.append((a2, p))
        out.sort(key=lambda z: (z[0].n, z[1]))
        cl.append(tuple(out))
    cl.sort(key=lambda z: [(a.n, p) for a, p in z])
    return mk('QALL', src if src is not None else mk('NOSRC'), tuple(cl))


def comp_binders(conds, items, L0):
    seen = set()
    for a, _ in conds:
        for x in subterms(a):
            if x.op in ('ELEM', 'IDX') and x.a[0] == L0:
                seen.add(x)
    for i in items:
        for x in subterms(i):
            if x.op in ('ELEM', 'IDX') and x.a[0] == L0:
                seen.add(x)
    return seen


def single_chain(I, L, cell, path):
    """part-wise iteration is used when the iterator is not zipped with another"""
    v = L.entry.cells.get(cell)
    for e in path:
        if v.op == 'ITZIP':
            return False
        v = I.proj(L.entry, v, e)
    return True


def exhausted(it):
    if it.op == 'IT':
        s = it.a[0]
        ps = parts(s)
        if s.op == 'INF':
            return it
        return mk('IT', seq(ps[1:]))
    if it.op == 'ITMUT':
        return mk('ITMUT', it.a[0], mk('END'))
    return it


def has_more(it):
    if it.op == 'IT':
        s = it.a[0]
        return s.op != 'INF' and s is not EMPTY and not (s.op == 'SEQ' and s.a[0].op == 'REP' and s.a[0].a[1].op == 'INFLEN')
    return False
