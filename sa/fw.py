"""Check framework: obligations over function summaries, three-valued comparison, evidence."""
import hashlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
from facts import *
from interp import *
from terms import *
import prims as PR
import refute

VERIF = extract.VERIF

IMPREC = ('LOOPV', 'LV', 'CALL', 'AFTER', 'OPQ', 'UNINIT', 'BOT', 'NEXT2', 'KONST', 'CLOUPD', 'EUPD', 'SRCNEXT',
          'CONTENT', 'ZST', 'UN', 'BIN', 'CAST', 'FCAST', 'GIT', 'ITFLAT', 'DEFAULT', 'NOSRC')


REFOPS = tuple(x for x in IMPREC) + ('FRESH', 'DSYM')


def precise(t):
    return not mentions(t, IMPREC)


# ------------------------------------------------------------------ canonical forms
def canon(t):
    """alpha-renames loop binders, orders cases"""
    memo = {}

    def go(x, d):
        if isinstance(x, tuple):
            return tuple(go(y, d) for y in x)
        if not isinstance(x, T):
            return x
        k = (x, d)
        r = memo.get(k)
        if r is not None:
            return r
        if x.op == 'COMP':
            L, src, cases = x.a
            nl = ('λ', d)
            m = {}
            for y in binders(cases, L):
                m[y] = elem(nl, y.a[1]) if y.op == 'ELEM' else mk('IDX', nl)
            cs = subst_t(cases, m)
            cs = [(tuple(sorted(((go(a, d + 1), p) for a, p in c), key=lambda z: (z[0].n, z[1]))), go(i, d + 1)) for c, i in cs]
            cs.sort(key=lambda z: (len(z[0]), [(a.n, p) for a, p in z[0]], [i.n for i in z[1]]))
            r = mk('COMP', nl, go(src, d), tuple(cs))
        elif x.op == 'LUPD' and x.a[0] != ('λ', d) and isinstance(x.a[2], T):
            L, base, src, cases = x.a
            nl = ('λ', d)
            m = {}
            for y in binders(cases, L):
                m[y] = elem(nl, y.a[1]) if y.op == 'ELEM' else mk('IDX', nl)
            r = mk('LUPD', nl, go(base, d), go(src, d), go(subst_t(cases, m), d + 1))
        else:
            na = tuple(go(y, d) for y in x.a)
            r = x if na == x.a else rebuild(x.op, na)
        memo[k] = r
        return r
    return go(t, 0)


def binders(cases, L):
    seen = set()
    st = [cases]
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
        elif isinstance(y, T):
            for z in subterms(y):
                if z.op in ('ELEM', 'IDX') and z.a[0] == L:
                    seen.add(z)
    return seen


def subst_t(x, m):
    if isinstance(x, T):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(subst_t(y, m) for y in x)
    return x


def inst(x, L, v_elem, v_idx):
    """replaces the element / position of loop L in x"""
    m = {}
    for y in binders((x,), L):
        m[y] = v_elem if y.op == 'ELEM' else v_idx
    return subst_t(x, m)


# ------------------------------------------------------------------ three-valued comparison
def free_leaf(t):
    """an input value about which nothing is assumed"""
    while True:
        o = t.op
        if o in ('SYM', 'DSYM', 'CPARAM'):
            return True
        if o == 'APP' and t.a[0].op == 'SYM':
            return True
        if o == 'FLD':
            t = t.a[0]
        elif o == 'ELEM':
            t = t.a[1]
        elif o in ('AT', 'MVAL', 'USZ', 'LEN', 'MHAS', 'NSYMS'):
            t = t.a[0]
        elif o == 'SEQ' and len(t.a) == 1 and t.a[0].op == 'SUB':
            t = t.a[0].a[0]
        elif o == 'REV':
            t = t.a[0]
        else:
            return False


def comb(rs):
    r = 'EQ'
    why = None
    for x, w in rs:
        if x == 'DIFF':
            return x, w
        if x == 'UNK' and r == 'EQ':
            r, why = x, w
    return r, why


def isint(t):
    return t.op in INTISH or isC(t) and isinstance(t.a[0], int) and not isinstance(t.a[0], bool)


def nonempty(x):
    return any(p.op == 'ONE' or p.op == 'ALL' and (p.a[0].op == 'S' and p.a[0].a[0] or p.a[0].op == 'DISP' and isint(p.a[0].a[0])) for p in x.a)


def cmp3(st, a, b, path=''):
    if a is b:
        return 'EQ', None
    a, b = st.norm(a), st.norm(b)
    if a is b:
        return 'EQ', None
    w = '%s: %s  expected  %s' % (path, show(a)[:400], show(b)[:400])
    for x, y in ((a, b), (b, a)):
        if isC(x) and x.a[0] in (0, 1) and not isC(y) and y in st.facts:
            return ('EQ' if st.truth(y) == bool(x.a[0]) else 'DIFF'), w
    if neg(a) is b or a is neg(b):
        return 'DIFF', w
    if a.op == 'ADDED' and b.op == 'ADDED':
        return cmp3(st, a.a[0], b.a[0], path)
    if a.op in ('MINS', 'MAP0') or b.op in ('MINS', 'MAP0'):
        ka, kb = ground_map(a), ground_map(b)
        if ka is not None and kb is not None:
            if set(ka) != set(kb):
                return 'UNK', w
            return comb(cmp3(st, ka[k], kb[k], path + '[%s]' % show(k)) for k in ka)
        return 'UNK', w
    if a.op == 'ADT' or b.op == 'ADT':
        x = a if a.op == 'ADT' else b
        y = b if a.op == 'ADT' else a
        p, v = x.a[0], x.a[1]
        if y.op == 'ADT':
            if y.a[0] != p:
                return 'UNK', w
            if y.a[1] != v:
                return 'DIFF', w
        elif nvariants(p) and nvariants(p) > 1:
            k = st.truth(mk('VAR', y, p, v)) if nvariants(p) != 2 else st.truth(mk('VAR', y, p, 1))
            if nvariants(p) == 2 and v == 0 and k is not None:
                k = not k
            if k is None:
                return ('DIFF' if free_leaf(y) else 'UNK'), w
            if k is False:
                return 'DIFF', w
        n = len(x.a[2])
        names = [f[0] for f in ADTS[p]['v'][v]['f']] if p in ADTS else list(range(n))
        return comb(cmp3(st, fld(a, p, v, i), fld(b, p, v, i), path + '.' + str(names[i])) for i in range(n))
    if a.op == 'TUP' or b.op == 'TUP':
        n = len(a.a) if a.op == 'TUP' else len(b.a)
        if a.op == 'TUP' and b.op == 'TUP' and len(a.a) != len(b.a):
            return 'UNK', w
        return comb(cmp3(st, fld(a, '(tuple)', 0, i), fld(b, '(tuple)', 0, i), path + '.' + str(i)) for i in range(n))
    for x, y in ((a, b), (b, a)):
        if x.op == 'SEQ' and nonempty(x) and y.op not in ('SEQ', 'ADT') and st.truth(eq(length(y), C(0))) is True:
            return 'DIFF', w
    if a.op == 'SEQ' or b.op == 'SEQ' or a.op == 'REV' and b.op == 'REV' and False:
        return cmpseq(st, a, b, path, w)
    if a.op == 'REV' and b.op == 'REV':
        return cmp3(st, a.a[0], b.a[0], path + '.rev')
    if a.op == 'DISP' and b.op == 'DISP' and (isint(a.a[0]) or isint(b.a[0])):
        return cmp3(st, a.a[0], b.a[0], path + '.shown')
    for x, y in ((a, b), (b, a)):
        if x.op == 'CAST' and x.a[0] in ('u8', 'u16') and x.a[1] is y and free_leaf(y):
            # cut to fewer bits than the value can need
            return 'DIFF', w
    if a.op in ('S', 'FMT', 'STRF') and b.op in ('S', 'FMT', 'STRF'):
        return ('DIFF' if a.op == b.op and precise(a) and precise(b) else 'UNK'), w
    if a.op == 'FMT' or b.op == 'FMT':
        return 'UNK', w
    if a.op == b.op and a.op in ('APP', 'CMP') and len(a.a) == len(b.a) and st.truth(eq(a, b)) is None:
        r, w2 = comb(cmp3(st, x, y, path + '(%d)' % i) for i, (x, y) in enumerate(zip(a.a, b.a)))
        return r, (w2 or w)
    if not precise(a) or not precise(b):
        return 'UNK', w
    e = eq(a, b)
    r = st.truth(e)
    if r is True:
        return 'EQ', None
    if r is False:
        return 'DIFF', w
    if a.op in INTISH or b.op in INTISH:
        c, d = lin_of(sub(a, b))
        if all(free_leaf(t) for t in d):
            return 'DIFF', w
        return 'UNK', w
    if a.op == 'FRESH' and b.op == 'FRESH':
        return 'DIFF', w
    for x, y in ((a, b), (b, a)):
        if x.op == 'FRESH' and free_leaf(y):
            return 'DIFF', w
        if x.op == 'C' and free_leaf(y):
            return 'DIFF', w
        if x.op == 'GSYM' and (free_leaf(y) or y.op == 'FRESH'):
            return 'DIFF', w
    if a.op == 'GSYM' and b.op == 'GSYM':
        return cmp3(st, a.a[1], b.a[1], path + '.idx')
    if free_leaf(a) and free_leaf(b):
        return 'DIFF', w
    if a.op in BOOLOPS and b.op in BOOLOPS:
        return 'UNK', w
    return 'UNK', w


BOOLOPS = ('EQ', 'EQ0', 'LT0', 'NOT', 'VAR', 'QALL', 'AND')


def ground_map(m):
    out = {}
    while m.op == 'MINS':
        out.setdefault(m.a[1], m.a[2])
        m = m.a[0]
    return out if m.op == 'MAP0' else None


def solid(q):
    """a part that holds at least one element whatever the inputs are"""
    return q.op == 'ONE' or q.op == 'ALL' and (q.a[0].op == 'DISP' or q.a[0].op == 'S' and bool(q.a[0].a[0]))


def cmpseq(st, a, b, path, w):
    for x, y in ((a, b), (b, a)):
        if x.op == 'SEQ' and len(x.a) == 1 and x.a[0].op == 'SUB' and (x.a[0].a[0] is y or canon(x.a[0].a[0]) is canon(y)):
            z = x.a[0]
            rs = [must(st, eq(z.a[1], C(0))), must(st, le(length(z.a[0]), z.a[2]))]
            if rs == [True, True]:
                return 'EQ', None
            sat = any(y.op == 'LEN' and canon(y) is canon(length(z.a[0])) for q, _ in st.conds for y in subterms(q))
            if isC(z.a[1]) and isC(z.a[2]) and sat:
                # a fixed number of elements, taken only when there are more
                return 'DIFF', w
            return ('DIFF' if False in rs and precise(z) else 'UNK'), w
    pa, pb = list(parts(a)), list(parts(b))
    i = 0
    # common prefix / suffix
    while pa and pb and pa[0] is pb[0]:
        pa.pop(0), pb.pop(0)
    while pa and pb and pa[-1] is pb[-1]:
        pa.pop(), pb.pop()
    if not pa and not pb:
        return 'EQ', None
    if (not pa or not pb) and any(solid(q) for q in pa + pb):
        return 'DIFF', w
    if pa and pb and all(q[0].op == 'ALL' and q[0].a[0].op == 'S' for q in (pa, pb)):
        s1, s2 = pa[0].a[0].a[0], pb[0].a[0].a[0]
        if not s1.startswith(s2) and not s2.startswith(s1):
            return 'DIFF', w
    if len(pa) == len(pb):
        res = []
        for k, (x, y) in enumerate(zip(pa, pb)):
            q = '%s[%d]' % (path, k)
            if x.op == 'ONE' and y.op == 'ONE':
                res.append(cmp3(st, x.a[0], y.a[0], q))
            elif x.op == 'COMP' and y.op == 'COMP':
                res.append(cmpcomp(st, x, y, q))
            elif x.op == 'SUB' and y.op == 'SUB' and x.a[0] is y.a[0]:
                r1, _ = cmp3(st, x.a[1], y.a[1], q)
                r2, _ = cmp3(st, x.a[2], y.a[2], q)
                res.append(('EQ', None) if r1 == r2 == 'EQ' else (('DIFF', w) if 'DIFF' in (r1, r2) and 'UNK' not in (r1, r2) else ('UNK', w)))
            elif {x.op, y.op} == {'ALL', 'SUB'} and x.a[0] is y.a[0]:
                z = x if x.op == 'SUB' else y
                rs = [must(st, eq(z.a[1], C(0))), must(st, le(length(z.a[0]), z.a[2]))]
                res.append(('DIFF', w) if False in rs and precise(z) else ('EQ', None) if rs == [True, True] else ('UNK', w))
            elif x.op == 'ALL' and y.op == 'ALL' and not (x.a[0] is a and y.a[0] is b):
                res.append(cmp3(st, x.a[0], y.a[0], q))
            elif x.op == 'ALL' and y.op == 'ALL' and free_leaf(x.a[0]) and free_leaf(y.a[0]):
                res.append(('DIFF', w))
            elif set((x.op, y.op)) <= {'ALL', 'ONE', 'SUB', 'COMP'} and x.op != y.op and nonempty_possible(x) and nonempty_possible(y) \
                    and precise(x) and precise(y) and 'COMP' not in (x.op, y.op) and len(pa) == 1 \
                    and (x.op == 'ONE' or y.op == 'ONE') and all(free_leaf(z.a[0]) for z in (x, y) if z.op == 'ALL'):
                res.append(('DIFF', w))
            else:
                res.append(('UNK', w))
        return comb(res)
    la, lb = conc_list(seq(pa)), conc_list(seq(pb))
    if la is not None and lb is not None:
        return 'DIFF', w
    if not pa or not pb:
        rest = pa or pb
        if any(p.op == 'ONE' for p in rest):
            return 'DIFF', w
        if any(p.op == 'ALL' and free_leaf(p.a[0]) and st.truth(eq(length(p.a[0]), C(0))) is not True for p in rest):
            return 'DIFF', w
        if any(p.op == 'COMP' and precise(p) and free_leaf(p.a[1]) and any(any(q.op == 'ONE' for q in i) and satisfiable(st, c) for c, i in p.a[2]) for p in rest):
            return 'DIFF', w
        return 'UNK', w
    # definite length difference
    d = sub(length(seq(pa)), length(seq(pb)))
    if isC(d) and d.a[0] != 0:
        return 'DIFF', w
    return 'UNK', w


def nonempty_possible(p):
    return True


def satisfiable(st, conds):
    s = st.fork()
    for a, p in conds:
        if not s.learn(a, p):
            return False
    return True


def cmpcomp(st, x, y, path):
    L0, s0, c0 = x.a
    L1, s1, c1 = y.a
    w = '%s: %s  expected  %s' % (path, show(x)[:400], show(y)[:400])
    r, w2 = cmp3(st, s0, s1, path + '.src')
    if r != 'EQ':
        return r, w2
    nl = ('μ', path)

    def ren(L, cs):
        m = {}
        for z in binders(cs, L):
            m[z] = elem(nl, z.a[1]) if z.op == 'ELEM' else mk('IDX', nl)
        return subst_t(cs, m)
    c0, c1 = ren(L0, c0), ren(L1, c1)
    res = []
    for k0, i0 in c0:
        for k1, i1 in c1:
            s = st.fork()
            good = True
            for a, p in tuple(k0) + tuple(k1):
                if a.op == 'C':
                    if bool(a.a[0]) != p:
                        good = False
                        break
                elif not s.learn(a, p):
                    good = False
                    break
            if not good:
                continue
            cond = k0 or k1
            r, w3 = cmp3(s, seq(i0), seq(i1), path + '{%s}' % showconds(k0)[:200])
            if r == 'DIFF' and not all(precise(a) for a, _ in tuple(k0) + tuple(k1)):
                r = 'UNK'
            res.append((r, w3))
    return comb(res)


def joint(st, t, src, L='J'):
    """a sequence made of passes over src, as one list of (state, items) per class of element; None if not of that form"""
    out = [(st.fork(), ())]
    for p in parts(st.norm(t)):
        if p.op == 'ALL' and p.a[0] is src:
            out = [(s, i + (one(mk('ELEM', L, src)),)) for s, i in out]
            continue
        if p.op != 'COMP' or p.a[1] is not src:
            return None
        L0, _, cases = p.a
        m = {}
        for z in binders(cases, L0):
            m[z] = elem(L, z.a[1]) if z.op == 'ELEM' else mk('IDX', L)
        cases = subst_t(cases, m)
        nx = []
        for s, items in out:
            for conds, it in cases:
                s2 = s.fork()
                if learn_all(s2, conds):
                    nx.append((s2, items + tuple(it)))
        out = nx
    return out


def learn_all(s, conds):
    for a, p in conds:
        if a.op == 'C':
            if bool(a.a[0]) != p:
                return False
        elif not s.learn(a, p):
            return False
    return True


def rec(tag, ret=None):
    """primitive: records the call, returns unit (or ret)"""
    def h(I, st, f, vs, site):
        st.event(tag, tuple(I.deref_deep(st, v) for v in vs), vs[0] if vs else None)
        return [(st, UNIT if ret is None else ret)]
    return h


def events(st, tag):
    return [e for e in st.ev if e[0] == tag]


def apply(s, st, f, args):
    return s.I.call_closure(st.fork(), f, list(args), ('apply',))


def qall(src, body):
    """the atom (and polarity) stating that body holds for every element"""
    a = body(mk('ELEM', '•', src))
    pol = True
    if a.op == 'NOT':
        a, pol = a.a[0], False
    return mk('QALL', src, (((a, pol),),))


def paths_of(t):
    """maximal field paths a term reads"""
    fl = {x for x in subterms(t) if x.op in ('FLD', 'ELEM')}
    return {x for x in fl if not any(x is not y and y.op == 'FLD' and x in set(subterms(y)) for y in fl)}


def foreign(t, atoms):
    """t reads nothing that the atoms are about"""
    want = set().union(*[paths_of(a) for a in atoms]) if atoms else set()
    have = set(subterms(t))
    return bool(want) and bool(paths_of(t)) and not any(x in have for x in want) and not any(x in set(subterms(y)) for x in paths_of(t) for y in want)


def boolres(c, rule, w, st, ret, spec, atoms, what, ok=lambda a: precise(a)):
    """a boolean result against a specification over atoms; the path is refined until the atoms are decided"""
    for s2 in c.split(st, atoms):
        want = spec(s2)
        got = bool(ret.a[0]) if isC(ret) else s2.truth(ret)
        if got is None and want is not None and precise(ret) and foreign(ret, atoms):
            c.viol(rule, w, what, '%s does not depend on %s' % (show(ret)[:200], show(atoms[0])[:200]))
        elif got is None or want is None:
            c.inc(rule, w, what, '%s when %s' % (show(ret)[:200], showconds(s2.conds)[:300]))
        elif got == want:
            c.ok(rule, w, what)
        else:
            # an undecided path refined here: both refinements must be possible
            c.res(False if all(ok(a) for a, _ in s2.conds) else None, rule, w, what, '%s when %s' % (got, showconds(s2.conds)[:400]))


def linvars(t):
    if t.op == 'NOT':
        t = t.a[0]
    if t.op in ('LT0', 'EQ0'):
        return frozenset(lin_of(t.a[0])[1])
    return None


ZERO = 'zero'


def diffs(st, a, p):
    """difference constraints (x, y, c): x - y <= c, for the fact a == p; None when it is something else; [] when irrelevant"""
    if a.op == 'NOT':
        return diffs(st, a.a[0], not p)
    if a.op not in ('LT0', 'EQ0'):
        return []
    k, d = lin_of(pay(st, a.a[0]))
    if len(d) > 2 or any(abs(v) != 1 for v in d.values()):
        return None
    pos = [x for x, v in d.items() if v == 1]
    ng = [x for x, v in d.items() if v == -1]
    if len(pos) > 1 or len(ng) > 1:
        return None
    x = pos[0] if pos else ZERO
    y = ng[0] if ng else ZERO
    if a.op == 'LT0':            # x - y + k < 0
        return [(x, y, -k - 1)] if p else [(y, x, k)]
    if p:
        return [(x, y, -k), (y, x, k)]
    return [('ne', x, y, -k)]


def pay(st, t):
    """integer comparisons of options known to be present are comparisons of their contents"""
    if t.op == 'LIN':
        m = {x: unsome(x) for x in lin_of(t)[1] if St_opt(st, x)}
        if m:
            return subst(t, m)
    return t


def St_opt(st, x):
    return x.op in ('SYM', 'FLD') and st.truth(mk('VAR', x, OPTION, 1)) is True


def must(st, t, hyps=()):
    """True: entailed; False: some input reaching this path violates it; None: not decided.
    Difference-bound closure: complete when every constraint that shares a connected variable with t is of that form over free inputs."""
    r = st.truth(t)
    if r is not None:
        return r
    goal = diffs(st, t, True)
    neg_ = diffs(st, t, False)
    if not goal and t.op in ('LT0', 'EQ0', 'NOT') and goal is None:
        return None
    if not goal or not neg_:
        # not an arithmetic fact: violable when about free inputs and nothing on the path speaks of the same values
        if t.op == 'VAR' and free_leaf(t.a[0]) and not any(t.a[0] in set(subterms(a)) for a, _ in st.conds):
            return False
        return None
    if len(goal) > 1 or goal[0][0] == 'ne' or neg_[0][0] == 'ne':
        # equalities: both directions entailed -> True; one direction violable -> False
        if goal[0][0] == 'ne':
            return None
        rs = [entail(st, [g], hyps) for g in goal]
        return True if all(x is True for x in rs) else (False if any(x is False for x in rs) else None)
    return entail(st, goal, hyps)


def entail(st, goal, hyps):
    (gx, gy, gc), = goal
    cs, odd = [], []
    for a, p in list(st.conds) + list(hyps):
        d = diffs(st, a, p)
        if d is None:
            odd.append(a)
        elif d:
            cs.extend(d)
    for k, r in st.iv.items():
        for b, up in ((r[0], False), (r[1], True)):
            if b is not None:
                d = diffs(st, mk('LT0', add(k, C(-b))) if False else (le(k, C(b)) if up else le(C(b), k)), True)
                if d:
                    cs.extend(d)
    ne = [c for c in cs if c[0] == 'ne']
    cs = [c for c in cs if c[0] != 'ne']
    vs = {gx, gy, ZERO}
    for x, y, _ in cs:
        vs |= {x, y}
    for v in vs:
        if v is not ZERO and v in NONNEG or (v is not ZERO and v.op == 'LEN'):
            cs.append((ZERO, v, 0))
    dist = {v: None for v in vs}
    dist[gy] = 0          # x - y <= dist(y -> x)
    for _ in range(len(vs)):
        for x, y, c in cs:
            if dist[y] is not None and (dist[x] is None or dist[x] > dist[y] + c):
                dist[x] = dist[y] + c
    if dist[gx] is not None and dist[gx] <= gc:
        return True
    # refuted: only if the connected constraints are all of this form and about free inputs
    comp = {v for v in (gx, gy) if v is not ZERO}
    grew = True
    while grew:
        grew = False
        for x, y, _ in cs:
            e = {x, y} - {ZERO}
            if e & comp and not e <= comp:
                comp |= e
                grew = True
    if not all(free_leaf(v) for v in comp):
        return None
    for a in odd:
        if any(v in comp for v in subterms(a)):
            return None
    for _, x, y, _ in ne:
        if x in comp or y in comp:
            # an excluded single point never entails a bound unless it sits exactly on it
            if {x, y} <= {gx, gy}:
                return None
    for a, p in st.conds:
        if not precise(a):
            return None
    return False


def normeq(st, t):
    """rewrites with the known affine equalities as well"""
    m = []
    t = st.norm(t)
    for k, r in st.iv.items():
        if r[0] is None or r[0] != r[1] or k.op != 'LIN':
            continue
        c, d = lin_of(st.norm(k))
        for v in sorted(d, key=lambda x: x.n):
            if abs(d[v]) == 1:
                # v = (r - rest) / coef
                rest = mklin(c, {x: y for x, y in d.items() if x is not v})
                m.append((v, mulc(sub(C(r[0]), rest), d[v])))
                break

    def go(x):
        x = st.norm(x)
        for v, y in m:
            x = subst(x, {v: y})
        return x
    t = go(t)
    if t.op == 'SEQ' and any(p.op == 'SUB' for p in t.a):
        t = seq([mk('ALL', p.a[0]) if p.op == 'SUB' and p.a[1] is C(0) and go(length(p.a[0])) is p.a[2] else p for p in t.a])
    return t


# ------------------------------------------------------------------ check context
class Missing(Exception):
    pass


class Summary(object):
    def __init__(self, fn, I, outs, args, names):
        self.fn, self.I, self.outs, self.args, self.names = fn, I, outs, args, names

    def cell(self, st, name):
        return st.cells.get(('in', name))

    def arg(self, name):
        return mk('SYM', name)


class Check(object):
    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.dir = extract.facts()
        self.p = Program(self.dir)
        self.obs = []
        self.analysed = set()
        self.paths = 0
        self.loops = 0
        self.rules = {}
        self.symtypes = {}
        self.refute_time = 0.0
        self.assume = set()

    # ---- anchors
    def fn(self, name, optional=False):
        f = None
        try:
            f = self.p.fn(name)
        except Exception:
            f = None
        if f is None and not optional:
            self.viol('anchor', name, 'missing', 'public function %s no longer exists' % name)
            raise Missing(name)
        return f

    def has(self, name):
        return self.fn(name, optional=True) is not None

    # ---- verdicts
    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rule, where, what):
        self.obs.append(('ok', rule, where, what, ''))

    def inc(self, rule, where, what, why=''):
        self.obs.append(('inc', rule, where, what, why))

    def viol(self, rule, where, what, why):
        self.obs.append(('viol', rule, where, what, why))

    def res(self, r, rule, where, what, why=''):
        if r == 'EQ' or r is True:
            self.ok(rule, where, what)
        elif r == 'DIFF' or r is False:
            self.viol(rule, where, what, why or '')
        else:
            self.inc(rule, where, what, why or '')

    def same(self, rule, where, st, a, b, what):
        r, w = cmp3(st, a, b)
        if r != 'EQ':
            r2, w2 = cmp3(st, canon(st.norm(a)), canon(st.norm(b)))
            r, w = (r2, w2)
        if r == 'UNK' and not mentions(a, REFOPS) and not mentions(b, REFOPS) and self.refute_time < 40:
            t0 = time.time()
            d = refute.differ(st.conds, a, b, self.symtypes)
            self.refute_time += time.time() - t0
            if d:
                r, w = 'DIFF', '%s; for example %s' % (w, d)
        if r == 'DIFF':
            w = 'when %s: %s' % (showconds(st.conds)[:500], w)
            if any(mentions(x, ('CALL',)) for x, _ in st.conds):
                # the path hangs on a call nobody looked into: it may never be taken
                r = 'UNK'
        self.res(r, rule, where, what, w)
        return r

    def truth(self, rule, where, st, t, want, what):
        """t must evaluate to want on this path"""
        r = st.truth(t) if isinstance(t, T) else t
        if r is None:
            self.inc(rule, where, what, show(t))
        else:
            self.res(r == want, rule, where, what, 'when %s: %s is %s' % (showconds(st.conds)[:500], show(t)[:300], r))

    # ---- summaries
    def summary(self, name, args=None, prims=None, env=None, budget=100, pre=None, opaque=(), maxpaths=3000, rule='summary', lits=None, decided=False, exact_casts=False):
        f = name if not isinstance(name, str) else self.fn(name)
        I = Interp(self.p, prims=PR.STD if prims is None else prims, budget=budget, maxpaths=maxpaths)
        I.opaque_fns = set(opaque)
        I.decided = decided
        I.exact_casts = exact_casts
        st = St()
        vs, names = [], []
        for i in range(f.body['argc']):
            nm = 'a%d' % (i + 1)
            for x in f.body['names']:
                if x[1][0] == i + 1 and not x[1][1]:
                    nm = x[0]
            # parameter names are the author's: callers address arguments by position
            nm = (args[i] if args and i < len(args) and isinstance(args[i], str) else 'a%d' % (i + 1))
            v = args[i] if args and i < len(args) and isinstance(args[i], T) else mk('SYM', nm)
            if lits and nm in lits:
                v = lits[nm]
            ty = fz(f.body['locals'][i + 1])
            if ty[0] == 'ref' and ty[1]:
                st.cells[('in', nm)] = v
                v = mk('PTR', ('in', nm), ())
            self.symtypes[nm] = ty
            vs.append(v)
            names.append(nm)
        if pre:
            pre(st)
        try:
            outs = I.call_fn(f, vs, env or {}, st, ('top',))
        except Imprecise as e:
            self.inc(rule, f.n, 'summary', 'outside the domain: %s' % e)
            return None
        except RecursionError as e:
            self.inc(rule, f.n, 'summary', 'recursion')
            return None
        except Exception as e:
            if os.environ.get('SADEBUG'):
                raise
            self.inc(rule, f.n, 'summary', 'engine: %r' % e)
            return None
        self.analysed |= I.analysed
        self.paths += len(outs)
        self.loops += len(I.loopids)
        if not outs:
            self.inc(rule, f.n, 'summary', 'no returning path')
        return Summary(f, I, outs, vs, names)

    def split(self, st, atoms):
        """refines a path until every atom is decided"""
        sts = [st]
        for a in atoms:
            nx = []
            for s in sts:
                t = s.truth(a)
                if t is not None:
                    nx.append(s)
                    continue
                for pol in (True, False):
                    s2 = s.fork()
                    if s2.learn(a, pol):
                        nx.append(s2)
            sts = nx
        return sts

    def split_from(self, st, conds, atoms):
        s = st.fork()
        if not learn_all(s, conds):
            return []
        return self.split(s, atoms)

    # ---- result
    def finish(self, technique, level='other', extra=None):
        known = load_known(self.pid)
        viols = {}
        for s, rule, where, what, why in self.obs:
            if s == 'viol':
                viols.setdefault((rule, where, what), why)
        kf, new = [], []
        for k, why in viols.items():
            key = '%s|%s|%s' % k
            hit = next((e for e in known if e['key'] == key), None)
            (kf if hit else new).append((k, why, hit))
        n_ok = sum(1 for o in self.obs if o[0] == 'ok')
        n_inc = sum(1 for o in self.obs if o[0] == 'inc')
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
            'coverage': {
                'explanation': technique,
                'functions_analysed': len(self.analysed),
                'function_list': sorted(set(self.p.fns[i].n for i in self.analysed if i in self.p.fns))[:150],
                'guarded_paths': self.paths,
                'loops_summarised': self.loops,
                'obligations': len(self.obs),
                'discharged': n_ok,
                'inconclusive': n_inc,
                'rules': self.rules,
                'obligations_by_rule': _by_rule(self.obs),
                'inconclusive_list': [' | '.join(str(y)[:160] for y in o[1:]) for o in self.obs if o[0] == 'inc'][:40],
            },
            'assumptions': sorted(self.assume) + [
                'std/smallvec/bit-vec operations behave as their models in sa/models.py',
                'integer arithmetic does not overflow; allocation succeeds'],
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(new),
        }
        if extra:
            ev['coverage'].update(extra)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        for k, why, h in kf:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, h['what']))
        rc = 0
        if new:
            rp = VERIF + '/evidence/%s.violation.json' % self.pid
            with open(rp, 'w') as f:
                json.dump([{'rule': k[0], 'function': k[1], 'construct': k[2], 'why': why, 'site': self.site(k[1]),
                            'rule_text': self.rules.get(k[0], '')} for k, why, _ in new], f, indent=1)
            for k, why, _ in new[:12]:
                print('  %s: %s: %s [%s] %s' % (self.site(k[1]), k[1], k[2], k[0], why[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            rc = 1
        with open(VERIF + '/evidence/%s.json' % self.pid, 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d inconclusive, %d violations, %d known; %d functions, %.1fs' % (
            self.pid, len(self.obs), n_ok, n_inc, len(new), len(kf), len(self.analysed), time.time() - self.t0))
        if os.environ.get('SAV'):
            for o in self.obs:
                if o[0] != 'ok' or os.environ.get('SAV') == '2':
                    print('   ', o[0], o[1], o[2], o[3], '::', str(o[4])[:700])
        return rc

    def site(self, name):
        try:
            f = self.p.fn(name)
            return '%s:%s' % (f.file, f.line)
        except Exception:
            return '?'


def _by_rule(obs):
    d = {}
    for o in obs:
        e = d.setdefault(o[1], {'ok': 0, 'inc': 0, 'viol': 0})
        e[o[0]] += 1
    return d


def load_known(pid):
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e.get('property') == pid and e.get('status') == 'known']


def F(v, path, name, var=0):
    """field by name (type path by suffix)"""
    p = full(path)
    for i, x in enumerate(ADTS[p]['v'][var]['f']):
        if x[0] == name:
            return fld(v, p, var, i)
    raise Missing('%s.%s' % (path, name))


def full(path):
    if path in ADTS:
        return path
    c = [p for p in ADTS if p.endswith('::' + path)]
    c = [p for p in c if p.startswith('cfg')] or c
    if len(c) == 1:
        return c[0]
    raise Missing('type ' + path + ' %s' % c)


def mkadt(path, var=0, **fs):
    p = full(path)
    d = ADTS[p]['v']
    if isinstance(var, str):
        var = [i for i, x in enumerate(d) if x['n'] == var][0]
    names = [x[0] for x in d[var]['f']]
    assert set(names) == set(fs) or set(names) == set(k.replace('_', '') for k in fs), (names, fs)
    return adt(p, var, [fs.get(n, fs.get('_' + n)) for n in names])


def withf(v, path, **fs):
    """v with some fields replaced"""
    p = full(path)
    names = [x[0] for x in ADTS[p]['v'][0]['f']]
    if set(fs) - set(names):
        raise Missing(str(set(fs) - set(names)))
    return adt(p, 0, [fs.get(n, fld(v, p, 0, i)) for i, n in enumerate(names)])


def variant(path, name):
    p = full(path)
    return p, [i for i, x in enumerate(ADTS[p]['v']) if x['n'] == name][0]


def isvar(v, path, name):
    p, i = variant(path, name)
    St._vp[v] = p
    if nvariants(p) == 2:
        t = mk('VAR', v, p, 1)
        if v.op == 'ADT':
            return C(v.a[1] == i)
        return t if i == 1 else neg(t)
    if v.op == 'ADT':
        return C(v.a[1] == i)
    return mk('VAR', v, p, i)


def is_some(v):
    if v.op == 'ADT':
        return C(v.a[1] == 1)
    St._vp[v] = OPTION
    return mk('VAR', v, OPTION, 1)


def unsome(v):
    return fld(v, OPTION, 1, 0)
