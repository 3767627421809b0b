"""FIRST, FOLLOW and LAST sets."""
import itertools

from fix import *
from lin import Facts

TECHNIQUE = ('abstract interpretation of MIR: the fixpoint loops are reduced to the transfer of one pass over rules of bounded shape; the set equations of that transfer, its start and its stopping '
             'condition are compared with the definition in a normal form of symbol sets')

PV = 'sets::PerSymbolSetVal'
FS = 'first::FirstSets'
CR = 'cfg::CfgRule'
CLOSED = [[[]], [['a']], [['a'], ['b']], [['a', 'b'], []], [['a', 'b', 'c'], [], []]]
SHAPES = [[[]], [['a']], [['a', 'b']], [['a', 'b', 'c']], [['a'], ['b']]]


VAGUE = tuple(x for x in IMPREC if x != 'LV')


class Unk(Exception):
    pass


def grammar(rules):
    fs = ADTS[full('cfg::Cfg')]['v'][0]['f']
    g = mk('SYM', 'g')
    return adt(full('cfg::Cfg'), 0, [seqof(rules) if f[0] == 'rules' else F(g, 'cfg::Cfg', f[0]) for f in fs])


def impl_fn(c, name, ty='Cfg'):
    tr, m = name.split('::')
    f = [x for x in c.p.impls if x['trait'] and x['trait'].split('<')[0].split('::')[-1] == tr and x['self'][0] == 'adt' and x['self'][1].split('::')[-1] == ty]
    r = [v for x in f for k, v in x['items'] if k == m]
    if len(r) != 1:
        c.viol('anchor', name, 'missing', 'no implementation of %s for %s' % (tr, ty))
        return None
    return c.p.fns[r[0]]


def aliasings(shape):
    """rules of a shape, one variant for every way its symbols may coincide"""
    names = ['l%d' % i for i in range(len(shape))] + [x for r in shape for x in r]

    def go(i, blocks):
        if i == len(names):
            yield {n: b[0] for b in blocks for n in b}
            return
        for k in range(len(blocks)):
            yield from go(i + 1, blocks[:k] + [blocks[k] + [names[i]]] + blocks[k + 1:])
        yield from go(i + 1, blocks + [[names[i]]])
    for m in go(0, []):
        yield [(mk('DSYM', m['l%d' % i]), [mk('DSYM', m[x]) for x in r]) for i, r in enumerate(shape)]


def syms_of(rs):
    out = []
    for l, rhs in rs:
        for x in [l] + rhs:
            if x not in out:
                out.append(x)
    return out


def knowing(facts):
    def pre(st):
        for a, p in facts:
            st.learn(a, p)
    return pre


def kinds(rs, term):
    """every choice of which symbols that are no left-hand sides are terminal (the others have rules not shown here)"""
    ls = [l for l, r in rs]
    free = [x for x in syms_of(rs) if x not in ls]
    base = [(term(l), False) for l in ls]
    for bits in itertools.product((True, False), repeat=len(free)):
        yield base + [(term(x), b) for x, b in zip(free, bits)]


def terms_of(rs):
    return [adt(full(CR), 0, [l, seqof(rhs), mk('SYM', 'h%d' % i)]) for i, (l, rhs) in enumerate(rs)]


def prims(c):
    p = dict(PR.STD)
    p.update(PR.SETS)
    return p


def lset(st, t):
    """normal form of a list read as a set"""
    t = st.norm(t)
    if t is EMPTY:
        return frozenset()
    if t.op in ('SORT', 'DEDUP'):
        if t.a[1] is not UNIT:
            raise Unk(show(t)[:200])
        return lset(st, t.a[0])
    if t.op == 'REV':
        return lset(st, t.a[0])
    if t.op == 'SEQ':
        out = set()
        for p in t.a:
            if p.op == 'ONE':
                out.add(('x', rep(st, p.a[0])))
            elif p.op == 'ALL':
                out |= lset(st, p.a[0])
            else:
                raise Unk(show(p)[:200])
        return frozenset(out)
    if t.op == 'FLD' and t.a[0].op == 'MVAL':
        return frozenset([('l', t.a[0].a[0], rep(st, t.a[0].a[1]))])
    if t.op == 'LV':
        return frozenset([('u', t)])
    raise Unk(show(t)[:200])


SYMS = []


def rep(st, x):
    """one representative for symbols that are equal on this path"""
    x = st.norm(x)
    for y in SYMS:
        if y is x or st.truth(eq(x, y)) is True:
            return y
    return x


def val(st, v):
    """(has_none, set) of a value"""
    h = st.truth(st.norm(F(v, PV, 'has_none')))
    if h is None:
        raise Unk('has_none of ' + show(v)[:200])
    return h, lset(st, F(v, PV, 'list'))


def get(st, m, k):
    """value of a map at a symbol, or None when there is no entry"""
    while True:
        m = st.norm(m)
        if m.op == 'MINS':
            t = st.truth(eq(m.a[1], k))
            if t is None:
                raise Unk('key %s' % show(m.a[1]))
            if t:
                return m.a[2]
            m = m.a[0]
            continue
        if m.op in ('MAP0',):
            return None
        if m.op in ('LV', 'SYM', 'FLD'):
            t = st.truth(mk('MHAS', m, k))
            if t is None:
                raise Unk('entry of %s' % show(k))
            return mk('MVAL', m, k) if t else None
        raise Unk(show(m)[:200])


def get2(st, m, k):
    v = get(st, m, k)
    return (False, frozenset()) if v is None else val(st, v)


def keys(m):
    out = []
    while m.op == 'MINS':
        out.append(m.a[1])
        m = m.a[0]
    return out, m


def map_of(c, tname, ret):
    """what the published reader gives for a result"""
    fn = impl_fn(c, 'PredictSets::predict_sets', tname)
    if fn is None:
        raise Missing(tname)
    s = c.summary(fn, [ret], prims=prims(c))
    if len(s.outs) != 1:
        return None
    st, r = s.outs[0]
    return st.norm(s.I.deref_deep(st, r))


def terminal_atom(c, rs):
    """the atom deciding whether a symbol is terminal in the analysed grammar"""
    f = c.fn('Cfg::terminal_symbols')
    g = grammar(terms_of(rs))
    s = c.summary(f, [g], prims=prims(c))
    st, ret = s.outs[0]
    ret = s.I.deref_deep(st, ret)
    fn = impl_fn(c, 'Index::index', 'SymbolBitSet')
    if fn is None:
        raise Unk('index of a symbol set')

    def at(x):
        s2 = c.summary(fn, [ret, x], prims=prims(c))
        rs_ = [(a.conds, a.norm(s2.I.deref_deep(a, r))) for a, r in s2.outs]
        if len(rs_) == 1:
            return rs_[0][1]
        if len(rs_) == 2 and all(len(cd) == 1 for cd, r in rs_) and rs_[0][0][0][0] is rs_[1][0][0][0]:
            cd, r = rs_[0] if rs_[0][0][0][1] else rs_[1]
            if r is TRUE:
                return cd[0][0]
        raise Unk('index of a symbol set')
    return at


def first_of(st, M, rhs, term):
    """FIRST of a string under the path conditions"""
    out = set()
    for x in rhs:
        if st.truth(term(x)):
            return False, frozenset(out | {('x', rep(st, x))})
        h, l = get2(st, M, x)
        out |= l
        if not h:
            return False, frozenset(out)
    return True, frozenset(out)


def le(a, b):
    return (not a[0] or b[0]) and a[1] <= b[1]


def join(a, b):
    return a[0] or b[0], a[1] | b[1]


def showset(st, v):
    return '{%s%s}' % (', '.join(sorted(show(x[1]) if x[0] in 'xu' else 'set of %s' % show(x[2]) for x in v[1])), ', none' if v[0] else '')


def exits(c, s, getmap):
    """for every result: the loop it comes from, the map before the last pass, the cases of a pass and the condition under which the result is returned"""
    out = []
    for st, ret in s.outs:
        m = getmap(st, ret)
        if m is None:
            out.append((st, None, None, None))
            continue
        m = st.norm(m)
        ks, b = keys(m)
        L = None
        for r, ch in alloops(st):
            for loc, (lv, init) in r.havoc.items():
                if lv is b:
                    L = (r, loc, lv, init)
        out.append((st, m, b, L))
    return out


def same_terms(st):
    """representative of a term under the equations of a path"""
    up = {}

    def find(x):
        while x in up:
            x = up[x]
        return x
    def join(x, y):
        x, y = find(x), find(y)
        if x is not y:
            up[x] = y
    for a, p in st.conds:
        if p and a.op == 'EQ':
            join(*a.a)
            if any(x.op == 'ADT' and x.a[0] == full(PV) for x in a.a):
                join(*[st.norm(F(x, PV, 'list')) for x in a.a])
    return find


def nogrowth(st, M, M2, syms):
    """symbols whose value may have grown although the path is one on which nothing is said to have changed"""
    bad = []
    for k in syms:
        a, b = get(st, M, k), get(st, M2, k)
        if a is b or b is None:
            continue
        va, vb = get2(st, M, k), val(st, b)
        if le(vb, va):
            continue
        la = C(0) if a is None else length(F(a, PV, 'list'))
        d = eq(st.norm(add(length(st.norm(F(b, PV, 'list'))), C(1 if vb[0] else 0))), st.norm(add(st.norm(la), C(1 if va[0] else 0))))
        t = [st.truth(st.norm(d)), None if a is None else st.truth(st.norm(eq(b, a)))]
        if True in t:
            continue
        find = same_terms(st)
        if a is not None and va[0] == vb[0] and find(st.norm(F(b, PV, 'list'))) is find(st.norm(F(a, PV, 'list'))):
            continue
        if a is None and not vb[0] and (find(st.norm(F(b, PV, 'list'))) is EMPTY or any(find(x) is find(st.norm(F(b, PV, 'list'))) and st.truth(eq(length(x), C(0))) for q, p in st.conds for x in subterms(q) if x.op in ('SORT', 'DEDUP', 'SEQ'))):
            continue
        fb, fa = st.norm(add(length(st.norm(F(b, PV, 'list'))), C(1 if vb[0] else 0))), st.norm(add(st.norm(la), C(1 if va[0] else 0)))
        fc = Facts(st.conds)
        if fc.le(fb, fa) is True:
            continue
        bad.append((k, va, vb))
    return bad


def passes(c, s, w, rs, term, getmap, step, initial, lhskeys):
    """checks every transition of the loop that computes the sets"""
    syms = []
    for l, rhs in rs:
        for x in [l] + rhs:
            if x not in syms:
                syms.append(x)
    SYMS[:] = syms
    nn = '%d rules, right-hand sides of %s' % (len(rs), [len(r) for l, r in rs])
    for st, m, M, L in exits(c, s, getmap):
        if L is None and not mentions(m, ('LV', 'LOOPV', 'CALL', 'OPQ')):
            # no pass changes anything: the start must already be closed under the rules
            initial(c, st, m, rs, nn)
            for s6 in c.split(st, step.atoms(st, rs, term)):
                try:
                    one(c, w, s6, rs, term, m, m, step, None, nn, syms, lhskeys)
                except Unk as e:
                    c.inc('pass', w, nn, str(e)[:300])
            continue
        if L is None:
            c.inc('pass', w, nn, 'no loop')
            continue
        rec, loc, lv, init = L
        # start
        initial(c, st, init, rs, nn)
        jobs = []
        if m is M:
            ex = [(a, p) for a, p in st.conds if any(x is l2 for x in subterms(a) for l2, _ in rec.havoc.values())]
            # the first pass must be made
            s1 = st.fork()
            s1.conds = [x for x in s1.conds if x not in ex] if isinstance(s1.conds, list) else s1.conds
            i0 = {l2: i2 for l2, i2 in rec.havoc.values()}
            tr = [s1.truth(s1.norm(subst_t(a, i0))) for a, p in ex]
            if ex and all(t is not None and bool(t) == p for t, (a, p) in zip(tr, ex)):
                c.viol('start', w, nn, 'the loop ends before its first pass')
            else:
                c.ok('start', w, nn + ': a first pass is made')
            for kind, conds, ev, s2 in rec.cases:
                if kind != 'back':
                    continue
                nx = {l2: c.cur.I.readloc(s2, *lc) for lc, (l2, i2) in rec.havoc.items()}
                jobs.append((s2, conds, nx[lv], [(subst_t(a, nx), p) for a, p in ex]))
        else:
            jobs.append((st, [], m, []))
            for kind, conds, ev, s2 in rec.cases:
                if kind == 'back':
                    jobs.append((s2, conds, c.cur.I.readloc(s2, *loc), None))
        for s2, conds, M2, ex in jobs:
            s3 = s2.fork()
            if not learn_all(s3, conds):
                continue
            ks = [l for l, r in rs]
            nts = lambda q: [l for l, r in rs] + [x for l, r in rs for x in r if q.truth(term(x)) is not True]
            nts = [x for x in syms if s3.truth(term(x)) is not True]
            for s5 in c.split(s3, [mk('MHAS', M, k) for k in nts]):
                for s6 in c.split(s5, [F(mk('MVAL', M, k), PV, 'has_none') for k in nts if s5.truth(mk('MHAS', M, k))] + step.atoms(s5, rs, term)):
                    try:
                        one(c, w, s6, rs, term, M, M2, step, ex, nn, syms, lhskeys)
                    except Unk as e:
                        c.inc('pass', w, nn, str(e)[:300])


def one(c, w, st, rs, term, M, M2, step, ex, nn, syms, lhskeys):
    M2 = st.norm(M2)
    cond = 'when %s: ' % showconds(st.conds)[:700]
    vs = []
    for l, r in rs:
        for x in [l] + [x for x in r if not st.truth(term(x))]:
            x = rep(st, x)
            if x not in vs:
                vs.append(x)
    old = {k: get2(st, M, k) for k in vs}
    new = {k: get2(st, M2, k) for k in vs}
    low = {k: old[k] for k in vs}
    for k, v in step.eqs(st, rs, term, old, M):
        low[k] = join(low[k], v)
    up = dict(low)
    while True:
        nx = dict(up)
        for k, v in step.eqs(st, rs, term, up, None):
            nx[k] = join(nx[k], v)
        if nx == up:
            break
        up = nx
    for k in vs:
        if any(x[0] == 'u' for x in new[k][1]):
            # what an earlier pass may have left over
            known = (new[k][0], frozenset(x for x in new[k][1] if x[0] != 'u'))
            if not le(known, up[k]):
                c.viol('pass', w, nn + ': ' + step.upname, cond + '%s gets %s, which is more than %s' % (show(k), showset(st, known), showset(st, up[k])))
            else:
                c.inc('pass', w, nn + ': ' + step.upname, 'left over from an earlier pass')
        elif not le(low[k], new[k]):
            c.viol('pass', w, nn + ': ' + step.lowname, cond + '%s gets %s, which lacks part of %s' % (show(k), showset(st, new[k]), showset(st, low[k])))
        elif not le(new[k], up[k]):
            c.viol('pass', w, nn + ': ' + step.upname, cond + '%s gets %s, which is more than %s' % (show(k), showset(st, new[k]), showset(st, up[k])))
        else:
            c.ok('pass', w, nn + ': transfer of ' + show(k))
    for k in keys(M2)[0]:
        if lhskeys and all(st.truth(eq(k, l)) is False for l, r in rs):
            c.viol('pass', w, nn + ': entries', cond + 'an entry is made for %s, which is not a left-hand side' % show(k))
    for l, r in rs:
        if get(st, M2, l) is None:
            c.viol('pass', w, nn + ': entries', cond + 'no entry for the left-hand side %s' % show(l))
        else:
            c.ok('pass', w, nn + ': entries')
    if ex is not None:
        s7 = st.fork()
        if not learn_all(s7, ex):
            return
        for a, p in s7.conds:
            # values said to be equal agree on none
            if p and a.op == 'EQ' and any(x.op == 'ADT' and x.a[0] == full(PV) for x in a.a):
                t = [s7.truth(s7.norm(F(x, PV, 'has_none'))) for x in a.a]
                if True in t and False in t:
                    return
        bad = nogrowth(s7, M, M2, vs)
        if not bad:
            c.ok('stop', w, nn)
        elif not any(mentions(a, VAGUE) for a, p in ex):
            c.viol('stop', w, nn, cond + 'the loop may end although %s has just grown from %s to %s' % (show(bad[0][0]), showset(st, bad[0][1]), showset(st, bad[0][2])))
        else:
            c.inc('stop', w, nn, show(ex[0][0])[:300])


class FirstStep(object):
    lowname = 'FIRST of the right-hand side is added to the left-hand side'
    upname = 'nothing else is added'

    @staticmethod
    def atoms(st, rs, term):
        return []

    @staticmethod
    def eqs(st, rs, term, cur, M):
        for l, rhs in rs:
            out, none = frozenset(), True
            for x in rhs:
                if st.truth(term(x)):
                    out, none = out | {('x', rep(st, x))}, False
                    break
                h, s = cur[rep(st, x)]
                out = out | s
                if not h:
                    none = False
                    break
            yield rep(st, l), (none, out)


class FollowStep(object):
    lowname = 'what may come after a symbol is added to its FOLLOW set'
    upname = 'nothing else is added'

    @staticmethod
    def fval(st, x):
        m = mk('SYM', 'fs')
        return mk('MVAL', m, rep(st, x))

    @staticmethod
    def atoms(st, rs, term):
        return [F(FollowStep.fval(st, x), PV, 'has_none') for l, r in rs for x in r if st.truth(term(x)) is not True]

    @staticmethod
    def eqs(st, rs, term, cur, M):
        for l, rhs in rs:
            for i, x in enumerate(rhs):
                if st.truth(term(x)):
                    continue
                out, none = frozenset(), True
                for y in rhs[i + 1:]:
                    if st.truth(term(y)):
                        out, none = out | {('x', rep(st, y))}, False
                        break
                    h, s = val(st, FollowStep.fval(st, y))
                    out = out | s
                    if not h:
                        none = False
                        break
                r = (False, out)
                if none:
                    r = join(r, cur[rep(st, l)])
                yield rep(st, x), r


def cases_of(c, shapes, closed=False, long=False):
    def go():
        for shape in shapes:
            for rs in aliasings(shape):
                term = terminal_atom(c, rs)
                ls = [l for l, r in rs]
                if closed:
                    # every symbol without a rule here is terminal; rules added only to make symbols of the first one nonterminal
                    if len(rs) > 1 and not rs[-1][1] and (len(set(ls)) < len(ls) or any(l not in rs[0][1] for l in ls[1:])):
                        continue
                    yield rs, term, [(term(x), x not in ls) for x in syms_of(rs)]
                    continue
                for kd in kinds(rs, term):
                    yield rs, term, kd
        if long:
            # longer rules, for a few coincidences and kinds
            for syms in (['l0', 'a', 'b', 'c', 'd', 'e'], ['l0', 'a', 'b', 'c', 'a', 'b'], ['l0', 'a', 'a', 'b', 'b', 'l0']):
                x = [mk('DSYM', n) for n in syms]
                rs = [(x[0], x[1:])]
                term = terminal_atom(c, rs)
                own = [y for y in syms_of(rs) if y is not x[0]]
                for t in [None] + own[1:]:
                    yield rs, term, [(term(x[0]), False)] + [(term(y), y is t) for y in own]
    return go


def first(c):
    cases = cases_of(c, SHAPES, long=True)
    c.rule('start', 'FIRST starts from nothing; FOLLOW from none for exactly the left-hand sides that are roots')
    c.rule('pass', 'one pass adds to the sets exactly what the definition says for every rule (Jacobi step as the lower bound, least fixpoint as the upper bound)')
    c.rule('stop', 'the computation ends only when a whole pass changed nothing')
    for rs, term, kd in cases():
        s = c.summary('FirstSets::new', [grammar(terms_of(rs))], prims=prims(c), maxpaths=20000, budget=200, pre=knowing(kd))
        if not s:
            continue
        c.cur = s
        getmap = lambda st, ret: map_of(c, 'FirstSets', st.norm(s.I.deref_deep(st, ret)))

        def initial(c, st, init, rs, nn):
            for l, r in rs:
                for x in [l] + r:
                    try:
                        v = get2(st, init, x)
                    except Unk as e:
                        c.inc('start', 'FirstSets::new', nn, str(e)[:200])
                        continue
                    c.res(v == (False, frozenset()), 'start', 'FirstSets::new', nn, 'the set of %s starts as %s' % (show(x), showset(st, v)))
        passes(c, s, 'FirstSets::new', rs, term, getmap, FirstStep, initial, True)


def follow(c):
    cases = cases_of(c, CLOSED, True)
    for rs, term, kd in cases():
        for roots in ([], ['r0'], ['r0', 'r1']):
            if roots and len(rs) > 2 or len(roots) > 1 and rs[0][1]:
                continue
            g = grammar(terms_of(rs))
            fs = ADTS[full('cfg::Cfg')]['v'][0]['f']
            rts = [mk('SYM', x) for x in roots]
            g = adt(full('cfg::Cfg'), 0, [seqof(rts) if f[0] == 'roots' else F(g, 'cfg::Cfg', f[0]) for f in fs])
            s = c.summary('FollowSets::new', [g, 'fs'], prims=prims(c), maxpaths=20000, budget=200, pre=knowing(kd))
            if not s:
                continue
            c.cur = s
            getmap = lambda st, ret: map_of(c, 'FollowSets', st.norm(s.I.deref_deep(st, ret)))

            def initial(c, st, init, rs, nn):
                for s1 in c.split(st, [eq(l, r) for l, _ in rs for r in rts]):
                    for l, _ in rs:
                        want = any(s1.truth(eq(l, r)) for r in rts)
                        try:
                            v = get2(s1, init, l)
                        except Unk as e:
                            c.inc('start', 'FollowSets::new', nn, str(e)[:200])
                            continue
                        c.res(v == (want, frozenset()), 'start', 'FollowSets::new', nn, 'the set of %s starts as %s when it is %s root' % (show(l), showset(s1, v), 'a' if want else 'no'))
            passes(c, s, 'FollowSets::new', rs, term, getmap, FollowStep, initial, False)


def string(c):
    c.rule('string', 'FIRST of a string is the union of FIRST of its symbols up to and including the first that is not nullable, and contains none iff all are nullable')
    rs = next(aliasings([[]]))
    s0 = c.summary('FirstSets::new', [grammar(terms_of(rs))], prims=prims(c), maxpaths=20000)
    if not s0:
        return
    term = terminal_atom(c, rs)
    for st0, ret0 in s0.outs:
        me = st0.norm(s0.I.deref_deep(st0, ret0))
        M = map_of(c, 'FirstSets', me)
        if M is None or M.op != 'LV':
            c.inc('string', 'FirstSets::first_set_for_string', 'sets', show(M)[:200])
            continue
        for n in range(4):
            xs = [mk('SYM', 's%d' % i) for i in range(n)]
            s = c.summary('FirstSets::first_set_for_string', [me, seqof(xs)], prims=prims(c), maxpaths=20000)
            if not s:
                continue
            w = 'FirstSets::first_set_for_string'
            SYMS[:] = xs
            for st, ret in [(q, r) for q0, r in s.outs for q in c.split(q0, [q0.norm(F(q0.norm(s.I.deref_deep(q0, r)), PV, 'has_none'))])]:
                ret = st.norm(s.I.deref_deep(st, ret))
                ats = [eq(x, y) for i, x in enumerate(xs) for y in xs[i + 1:]]
                for s1 in c.split(st, ats):
                    for s2 in c.split(s1, [term(rep(s1, x)) for x in xs]):
                        nt = [rep(s2, x) for x in xs if not s2.truth(term(x))]
                        # a symbol that is not terminal has a rule, hence an entry
                        s3 = s2.fork()
                        if not all(s3.learn(mk('MHAS', M, x), True) for x in nt):
                            continue
                        for s4 in c.split(s3, [F(mk('MVAL', M, x), PV, 'has_none') for x in nt]):
                            try:
                                want = first_of(s4, M, xs, term)
                                got = val(s4, ret)
                            except Unk as e:
                                c.inc('string', w, '%d symbols' % n, str(e)[:300])
                                continue
                            c.res(want == got, 'string', w, '%d symbols' % n, 'when %s: %s instead of %s' % (showconds(s4.conds)[:500], showset(s4, got), showset(s4, want)))


def p_firsts(I, st, f, vs, site):
    return [(st, mk('FIRSTS', I.deref_deep(st, vs[0])))]


def p_follows(I, st, f, vs, site):
    return [(st, mk('FOLLOWS', I.deref_deep(st, vs[0]), I.deref_deep(st, vs[1])))]


def wrappers(c):
    c.rule('last', 'LAST sets are the FIRST sets of the grammar with every right-hand side reversed')
    c.rule('entry', 'the entry points compute the sets of the grammar they are called on')
    pr = prims(c)
    pr.update({'FirstSets::new': p_firsts, 'FollowSets::new': p_follows})
    many = [list(aliasings(x))[-1] for x in ([['a', 'b', 'c'], ['d', 'e']], [['a', 'b'], []], [['a', 'b'], ['c']], [['a', 'b', 'c', 'd', 'e', 'f']], [['a'], [], ['b', 'c'], ['d', 'e', 'f', 'g']])]
    for rs in many + list(aliasings([['a', 'b']])) + list(aliasings([['a', 'b', 'c']])) + list(aliasings([['a', 'b'], ['c']])):
        g = grammar(terms_of(rs))
        back = [adt(full(CR), 0, [l, seqof(r[::-1]), mk('SYM', 'h%d' % i)]) for i, (l, r) in enumerate(rs)]
        s = c.summary('LastSets::new', [g], prims=pr)
        if s:
            for st, ret in s.outs:
                m = map_of(c, 'LastSets', st.norm(s.I.deref_deep(st, ret)))
                m = st.norm(m)
                src = [x for x in subterms(m) if x.op == 'FIRSTS']
                if m.op == 'MAP0' or len(src) != 1 or m is not st.norm(map_of(c, 'FirstSets', src[0])):
                    c.inc('last', 'LastSets::new', 'sets', show(m)[:200])
                    continue
                got = F(src[0].a[0], 'cfg::Cfg', 'rules')
                c.same('last', 'LastSets::new', st, strip(st.norm(got)), strip(seqof(back)), 'rules whose FIRST sets are taken')
    for name, args, want in (('CfgSetsExt::first_sets', ['g'], lambda g: mk('FIRSTS', g)),
                             ('CfgSetsExt::follow_sets', ['g'], None), ('CfgSetsExt::follow_sets_with_first', ['g', 'f'], None)):
        fn = impl_fn(c, name)
        if fn is None:
            continue
        s = c.summary(fn, args, prims=pr)
        for st, ret in s.outs:
            ret = st.norm(s.I.deref_deep(st, ret))
            gg = mk('SYM', 'g')
            if want:
                c.same('entry', name, st, ret, want(gg), 'FIRST sets of the grammar')
            elif ret.op == 'FOLLOWS':
                c.same('entry', name, st, ret.a[0], gg, 'FOLLOW sets of the grammar')
                c.same('entry', name, st, ret.a[1], st.norm(map_of(c, 'FirstSets', mk('SYM', 'f') if len(args) > 1 else mk('FIRSTS', gg))), 'with its FIRST sets')
            else:
                c.inc('entry', name, 'FOLLOW sets', show(ret)[:200])


def strip(t):
    """left- and right-hand sides of a concrete list of rules"""
    if t.op == 'SEQ' and all(p.op == 'ONE' for p in t.a):
        return seqof([mk('TUP', F(p.a[0], CR, 'lhs'), F(p.a[0], CR, 'rhs')) for p in t.a])
    return t


PARTS = [first, follow, string, wrappers]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p14', 'queries', 'terminal'), ('p14', 'ops', 'index'), ('p21', 'elements', 'reverse')]
