"""Random generation: only strings of the grammar, the stated shares, the stated limits."""
from fw import *
from fw import cmp3
import lin

TECHNIQUE = ('abstract interpretation of MIR: inductive step of the generation loop (every case of a pass is one of expand, emit, guard, return to a recorded '
             'place), what a recorded place holds compared with what a return restores, and symbolic weight tables for the choice of a rule')


def rand_fn(c):
    fs = [f for f in c.p.fns.values() if f.kind != 'Closure' and '{closure' not in f.n and f.n.endswith('Random>::random') and f.n.startswith('<cfg_grammar::cfg::Cfg as ')]
    if not fs:
        raise Missing('<Cfg as Random>::random')
    return fs[0]


def wr(I, st, p, v):
    cell, path = I.ptr_of(st, p)
    I.writeloc(st, cell, path, v)


def p_add(I, st, f, vs, site):
    wr(I, st, vs[0], mk('WADD', I.deref_deep(st, vs[0]), *[I.deref_deep(st, x) for x in vs[1:4]]))
    return [(st, UNIT)]


def p_mut(I, st, f, vs, site):
    wr(I, st, vs[0], mk('MUTR', I.deref_deep(st, vs[0])))
    return [(st, UNIT)]


def prims():
    pr = dict(PR.STD)
    pr['WeightedRhsByLhs::pick_rhs'] = lambda I, st, f, vs, site: [(st, mk('PICK', I.deref_deep(st, vs[0]), I.deref_deep(st, vs[1])))]
    pr['WeightedRhsByLhs::add_weight'] = p_add
    pr['GenRange::mutate_start'] = p_mut
    return pr


def step(c):
    c.rule('step', 'every pass of the generation loop takes the first symbol of the remaining work and expands, emits or guards it, or returns to a recorded place')
    f = rand_fn(c)
    s = c.summary(f, ['self', 'start', 'limit', 'rng', 'neg', 'tochar'], prims=prims(), rule='step')
    if not s:
        return
    w = f.n
    groups = {}
    for st, ret in s.outs:
        ls = []
        for e in st.ev:
            if e[0] == 'loop' and not any(e[1] is x for x in ls):
                ls.append(e[1])
        main = [L for L in ls if any(i is seqof([mk('SYM', 'start')]) for lv, i in L.havoc.values())]
        if len(main) != 1:
            c.inc('step', w, 'generation loop', '%d candidates' % len(main))
            continue
        g = groups.setdefault(id(main[0]), (main[0], [], []))
        g[1].append((st, ret))
        g[2].extend(x for x in ls if not any(x is y for y in g[2]))
    for L, outs, ls in groups.values():
        X = Ctx()
        X.c, X.s, X.w, X.L = c, s, w, L
        X.start, X.limit = mk('SYM', 'start'), mk('SYM', 'limit')
        one_loop(X, outs, ls)


def one_loop(X, outs, loops):
    c, s, w, L = X.c, X.s, X.w, X.L
    X.wl = next(loc for loc, (lv, i) in L.havoc.items() if i is seqof([X.start]))
    X.W = L.havoc[X.wl][0]
    X.rl = X.sl = None
    for st, ret in outs:
        if isvar(ret, 'Result', 'Ok') is TRUE:
            v = st.norm(ret.a[2][0])
            vr, vs = fld(v, '(tuple)', 0, 0), fld(v, '(tuple)', 0, 1)
            for loc, (lv, i) in L.havoc.items():
                if lv is vr:
                    X.rl = loc
                if lv is vs:
                    X.sl = loc
            if X.rl is None or X.sl is None:
                c.res(False if precise(v) and free_leaf(v) else None, 'step', w, 'returns the symbols and characters put out', show(v)[:300])
    if X.rl is None or X.sl is None:
        c.inc('step', w, 'output of the loop')
        return
    X.R, X.S = L.havoc[X.rl][0], L.havoc[X.sl][0]
    X.fr = {X.W: mk('SYM', 'work'), X.R: mk('SYM', 'output'), X.S: mk('SYM', 'text')}
    st0 = outs[0][0]
    c.same('step', w, st0, L.havoc[X.rl][1], EMPTY, 'nothing has been put out at the start')
    c.same('step', w, st0, L.havoc[X.sl][1], EMPTY, 'nothing has been put out at the start')
    X.h = at(X.W, C(0))
    X.tail = slc(X.W, C(1), length(X.W))
    X.rngl = next((loc for loc in L.havoc if loc[0] == ('in', 'rng')), None)
    X.guards, X.backs, X.emits = [], [], []
    X.term = term_spec(c, X)
    for st, ret in outs:
        leave(X, st, ret)
    for kind, conds, evs, s2 in L.cases:
        if kind == 'back':
            case(X, conds, evs, s2)
    places(X, loops)


class Ctx:
    """what is put out and what text it makes are independent: to_char gives a character for any symbols it likes"""
    def free(self, t, more=None):
        return subst(t, dict(self.fr, **{}) if not more else {**more, **self.fr})

    def fst(self, st, goals, more=None, hyps=()):
        """the path's conditions that speak of what the goal speaks of, over free outputs"""
        r = St()
        at_ = {x for g in goals for x in subterms(self.free(g, more)) if free_leaf(x) and not (x.op == 'SYM' and x.a[0] in LISTS)}
        for a, p in list(st.conds) + list(hyps):
            a = self.free(a, more)
            if not isinstance(a, T) or isC(a):
                if isC(a) and bool(a.a[0]) != p:
                    return None
                continue
            if a.op in ('LT0', 'EQ0') and any(x in at_ for x in subterms(a)):
                if not r.learn(a, p):
                    return None
        return r

    def must(self, st, goal, more=None):
        r = must(st, goal)
        if r is None:
            s2 = self.fst(st, [goal], more)
            r = must(s2, self.free(goal, more)) if s2 is not None else None
        return r

    def same(self, rule, st, a, b, what, more=None, hyps=()):
        a, b = st.norm(a), st.norm(b)
        r, _ = cmp3(st, a, b)
        if r == 'EQ':
            return self.c.ok(rule, self.w, what)
        s2 = self.fst(st, [a, b], more, hyps)
        if s2 is None:
            return self.c.inc(rule, self.w, what)
        self.c.symtypes.update(LISTS)
        return self.c.same(rule, self.w, s2, self.free(a, more), self.free(b, more), what)


SYMT = ('adt', 'cfg_symbol::symbol::Symbol', (('adt', 'core::num::nonzero::NonZero', (('prim', 'u32'),)),))
LISTS = {'work': ('ref', False, ('slice', SYMT)), 'output': ('ref', False, ('slice', SYMT)), 'chosen': ('ref', False, ('slice', SYMT)),
         'text': ('ref', False, ('slice', ('prim', 'char'))), 'forbidden': ('ref', False, ('slice', ('prim', 'char'))), 'character': ('prim', 'char'), 'tries': ('prim', 'u64')}


def rd(X, s2, loc):
    return s2.norm(X.s.I.readloc(s2, *loc))


def term_spec(c, X):
    """the truth value of 'h has no rule', as the public query gives it"""
    try:
        q = c.summary('Cfg::terminal_symbols', ['self'], rule='step')
        idx = [f for f in c.p.fns.values() if f.n.endswith('SymbolBitSet as core::ops::index::Index>::index') or f.n.endswith('SymbolBitSet as core::ops::Index>::index')]
        if not q or len(q.outs) != 1 or len(idx) != 1:
            return None
        st, r = q.outs[0]
        I = Interp(c.p, prims=PR.STD)
        o = I.call_fn(idx[0], [st.norm(I.deref_deep(st, r)), X.h], {}, St(), ('t',))
        o = [(s1, s1.norm(I.deref_deep(s1, v))) for s1, v in o]
        if len(o) == 1:
            return o[0][1]
        for s1, v in o:
            if v is TRUE and len(s1.conds) == 1 and s1.conds[0][1]:
                return s1.conds[0][0]
        return None
    except (Missing, Imprecise):
        return None


def asked(X, st, conds):
    """what the path has established about h: (has no rule, has a negative rule)"""
    t = n = None
    other = []
    for a, p in conds:
        if not any(x is X.h for x in subterms(a)) or any(x.op in ('APP', 'PICK') for x in subterms(a)):
            continue
        if a.op == 'MHAS' and a.a[1] is X.h and mentions(a.a[0], ('MAPOF', 'MAP0', 'LOOPV', 'LUPD', 'MINS')):
            n = p
        elif X.term is not None and (a is X.term or show(canon(a)) == show(canon(X.term))):
            t = p
        else:
            other.append((a, p))
    return t, n, other


def case(X, conds, evs, s2):
    c, w = X.c, X.w
    work, res, txt = rd(X, s2, X.wl), rd(X, s2, X.rl), rd(X, s2, X.sl)
    why = 'when %s: work %s, output %s' % (showconds(conds)[-300:], show(work)[:160], show(res)[:160])
    ne = s2.truth(lt(C(0), length(X.W)))
    if ne is None:
        c.inc('step', w, 'a pass needs remaining work', why)
        return
    t, n, other = asked(X, s2, conds)
    apps = [e for e in evs if e[0] == 'app']
    emitted = seq(parts(X.R) + (one(X.h),))
    picks = [x for x in subterms(work) if x.op == 'PICK']

    def need(what, got, want):
        # a question that was never put to h is a definite omission only if nothing else about h was asked
        c.res(True if got is want else (False if got is (not want) or (got is None and not other and X.term is not None) else None), 'step', w, what, why)
    if picks:
        pk = picks[0]
        c.same('step', w, s2, pk.a[1], X.h, 'the expanded symbol is the first one')
        X.same('step', s2, work, concat(pk, X.tail), 'the first symbol is replaced by the chosen right-hand side, in order', more={pk: mk('SYM', 'chosen')}, hyps=[(lt(C(0), length(X.W)), True)])
        c.same('step', w, s2, res, X.R, 'expanding puts nothing out')
        c.same('step', w, s2, txt, X.S, 'expanding puts nothing out')
        need('only symbols with rules are expanded', t, False)
        need('symbols with negative rules are not expanded', n, False)
        X.table = pk.a[0]
        return
    if work.op == 'FLD' and not any(x is X.W for x in parts(work)) or (work.op != 'LOOPV' and not any(x is X.W for x in subterms(work)) and mentions(work, ('ELEM', 'MVAL'))):
        emit(X, conds, s2, None, txt, why, apps, need, t, n, ret=True)
        X.backs.append((conds, s2, X.W, emitted, None, why))
        return
    if work.op == 'LOOPV':
        emit(X, conds, s2, None, None, why, apps, need, t, n, ret=True)
        return
    if res is emitted or (work is X.tail and apps):
        c.same('step', w, s2, work, X.tail, 'emitting uses up the symbol')
        c.same('step', w, s2, res, emitted, 'a symbol without rules is put out once')
        emit(X, conds, s2, res, txt, why, apps, need, t, n)
        X.emits.append((conds, evs, s2, why))
        return
    if work is X.tail and res is X.R:
        c.same('step', w, s2, txt, X.S, 'a symbol with a negative rule puts nothing out')
        if n is True:
            need('symbols without rules are put out', t, False) if t is not None else c.ok('step', w, 'guard')
            X.guards.append((conds, s2, why))
        else:
            need('a symbol is only left out for its negative rule', n, True)
        return
    if free_leaf(work) or precise(work):
        r = cmpseq(s2, work, X.tail, '', []) if False else None
        ps = parts(work)
        definite = all(p.op in ('ONE', 'ALL', 'SUB') for p in ps) and precise(work) and precise(res)
        c.res(False if definite else None, 'step', w, 'a pass expands, emits or guards the first symbol', why)
        return
    c.inc('step', w, 'a pass expands, emits or guards the first symbol', why)


def emit(X, conds, s2, res, txt, why, apps, need, t, n, ret=False):
    c, w = X.c, X.w
    need('only symbols without rules are put out', t, True)
    c.res(len(apps) == 1, 'step', w, 'to_char is asked once per symbol put out', why)
    app = next((x for a, p in conds for x in subterms(a) if x.op == 'APP' and len(x.a) >= 2), None)
    if app is not None:
        c.same('step', w, s2, app.a[1], X.h, 'to_char is asked about the symbol put out')
        has = s2.truth(is_some(app))
        now = seq(parts(X.S) + (one(unsome(app)),)) if has else X.S
        if not ret and has is not None:
            c.same('step', w, s2, txt, now, 'the text grows by the character given, if any')
    over = lt(F(unsome(X.limit), 'Limits', 'terminals'), add(length(X.R), C(1)))
    for s3 in c.split(s2, [is_some(X.limit)]):
        if s3.truth(is_some(X.limit)):
            r = X.must(s3, negate(over))
            c.res(r, 'limit', w, 'generation goes on only within the limit of terminals', why)


def negate(a):
    return mk('NOT', a) if a.op != 'NOT' else a.a[0]


def leave(X, st, ret):
    c, w = X.c, X.w
    why = 'when %s' % showconds(st.conds)[-300:]
    if isvar(ret, 'Result', 'Ok') is TRUE:
        c.res(must(st, eq(length(X.W), C(0))), 'step', w, 'generation ends when no work remains', why)
        return
    if isvar(ret, 'Result', 'Err') is not TRUE:
        c.inc('step', w, 'outcome', show(ret)[:100])
        return
    e = st.norm(ret.a[2][0])
    if not is_(e):
        c.inc('limit', w, 'error', show(e)[:100])
        return
    ls = is_some(X.limit)
    lim = unsome(X.limit)
    if isvar(e, 'RandomGenError', 'LimitExceeded') is TRUE:
        c.res(None if st.truth(ls) is None else (st.truth(ls) or (None if X.must(st, lt(C(1 << 48), length(X.R))) is True else False)), 'limit', w, 'the limit error needs a limit', why)
        if st.truth(ls):
            c.res(X.must(st, lt(F(lim, 'Limits', 'terminals'), add(length(X.R), C(1)))), 'limit', w, 'the limit error needs more symbols than allowed', why)
    else:
        if st.truth(ls):
            nl = F(lim, 'Limits', 'negative_rule_attempts')
            if any(any(x is nl for x in subterms(a)) for a, p in st.conds):
                c.ok('limit', w, 'the attempt error asks the given limit')
            else:
                c.res(False if not mentions(X.limit, ('LOOPV',)) else None, 'limit', w, 'the attempt error asks the given limit', why)


def is_(e):
    return e.op == 'ADT'


def places(X, loops):
    """recorded places and returns to them"""
    c, s, w = X.c, X.s, X.w
    c.rule('place', 'a recorded place holds the work behind the symbol, the output length, the random source and the forbidden text; '
                    'a return restores exactly these and forgets the places recorded later')
    # returns may also happen in a loop over the recorded places
    for L in loops:
        if L is X.L or X.wl not in L.havoc:
            continue
        for kind, conds, evs, s2 in L.cases:
            if kind == 'back':
                wv = rd(X, s2, X.wl)
                if wv is not L.havoc[X.wl][0]:
                    X.backs.append((conds, s2, L.havoc[X.wl][0], None, L, 'when %s: work %s' % (showconds(conds)[-300:], show(wv)[:200])))
    if not X.guards or not X.backs:
        c.inc('place', w, 'guards and returns', '%d, %d' % (len(X.guards), len(X.backs)))
        return
    # where places are kept: the map whose update in a guard case holds a record with the remaining work
    recs = []
    for conds, s2, why in X.guards:
        for loc, (lv, init) in X.L.havoc.items():
            v = rd(X, s2, loc)
            if v is lv or v.op != 'MINS' or v.a[0] is not lv:
                continue
            items = parts(v.a[2])
            if items and items[-1].op == 'ONE' and items[-1].a[0].op == 'ADT':
                recs.append((loc, lv, v.a[1], items[:-1], items[-1].a[0], s2, why))
    if not recs:
        c.inc('place', w, 'recorded places', X.guards[0][2])
        return
    bl = recs[0][0]
    B = recs[0][1]
    used = {}
    kept = []
    counters = set()
    for conds, evs, s2, why in X.emits:
        unseen(X, conds, evs, s2, B, why)
    for conds, s2, W0, emitted, inner, why in X.backs:
        wv = rd(X, s2, X.wl)
        f = wv
        if f.op != 'FLD':
            c.res(None, 'place', w, 'a return restores recorded work', why)
            continue
        e = f.a[0]
        i = f.a[-1]
        used.setdefault('work', set()).add(i)
        c.same('place', w, s2, wv, f, 'a return restores recorded work')
        path = f.a[1]
        R0 = inner.havoc[X.rl][0] if inner and X.rl in inner.havoc else emitted
        S1 = inner.havoc[X.sl][0] if inner and X.sl in inner.havoc else now_text(X, s2, conds)
        # the output is cut to a recorded length
        rv = rd(X, s2, X.rl)
        if R0 is not None:
            j = cut_field(rv, R0, e)
            if j is None and rv is EMPTY:
                # cut to a recorded length known to be none
                j = next((x.a[-1] for a, p in conds for x in subterms(a) if x.op == 'FLD' and x.a[0] is e and x is not f and s2.truth(eq(x, C(0))) is True), None)
            if j is not None:
                used.setdefault('len', set()).add(j)
                c.ok('place', w, 'a return cuts the output to the recorded length')
            elif rv is R0:
                # no cut: only if the output is not longer than recorded
                js = sorted({x.a[-1] for a, p in conds for x in subterms(a) if x.op == 'FLD' and x.a[0] is e and any(y is X.R or y is R0 for y in subterms(a)) and x is not f})
                if any(s2.truth(lt(fl(e, f, k), length(R0))) is False for k in js):
                    c.ok('place', w, 'a return cuts the output to the recorded length')
                else:
                    c.viol('place', w, 'a return cuts the output to the recorded length', 'output kept, ' + why)
            else:
                c.res(False if precise(rv) and not mentions(rv, ('LOOPV', 'AFTER')) and rv.op == 'SEQ' and len(rv.a) == 1 and rv.a[0].op == 'SUB' and rv.a[0].a[0] in (R0, X.R) and free_leaf_len(rv.a[0]) else None,
                      'place', w, 'a return cuts the output to the recorded length', show(rv)[:200])
        # the forbidden text is taken off the text
        m = sorted({x.a[-1] for a, p in conds for x in subterms(a) if x.op == 'FLD' and x.a[0] is e and is_ends(a, x)})
        if len(m) == 1:
            used.setdefault('forb', set()).add(m[0])
            if S1 is not None:
                ft = fl(e, f, m[0])
                if not any(a.op.startswith('B:') and p and is_ends(a, ft) or (a.op != 'QALL' and p and is_ends(a, ft)) for a, p in conds):
                    c.res(False if any(not p and is_ends(a, ft) and a.op != 'QALL' for a, p in conds) else None, 'place', w, 'a return happens only at a forbidden text', why)
                else:
                    c.ok('place', w, 'a return happens only at a forbidden text')
                tv = rd(X, s2, X.sl)
                want = slc(S1, C(0), sub(length(S1), length(ft)))
                if s2.truth(lt(C(0), length(ft))) is False and tv is S1:
                    c.ok('place', w, 'a return takes the forbidden text off')
                else:
                    app = next((x for a, p in conds for x in subterms(a) if x.op == 'APP' and len(x.a) >= 2), None)
                    more = {ft: mk('SYM', 'forbidden')}
                    if app is not None:
                        more[unsome(app)] = mk('SYM', 'character')
                    X.same('place', s2, tv, s2.norm(want), 'a return takes the forbidden text off', more=more, hyps=[(lt(length(S1), length(ft)), False)])
        else:
            c.inc('place', w, 'a return happens only at a forbidden text', why)
        # random source
        if X.rngl:
            gv = rd(X, s2, X.rngl)
            g0 = gv
            while g0.op in ('MUTR', 'AFTER', 'LOOPV'):
                g0 = g0.a[-1] if g0.op == 'LOOPV' else (g0.a[0] if g0.op == 'MUTR' else g0.a[2])
            if g0.op == 'FLD' and g0.a[0] is e:
                used.setdefault('rng', set()).add(g0.a[-1])
            elif X.rngl in X.L.havoc and g0 is X.L.havoc[X.rngl][0]:
                kept.append(why)
        # later places
        bv = rd(X, s2, bl)
        ordr = forget(X, s2, bv, B, e, f, why)
        if ordr is not None:
            used.setdefault('order', set()).add(ordr)
        # attempts
        for s3 in c.split(s2, [is_some(X.limit)]):
            if s3.truth(is_some(X.limit)):
                nl = F(unsome(X.limit), 'Limits', 'negative_rule_attempts')
                got = None
                for loc, (lv, init) in (inner or X.L).havoc.items():
                    v = rd(X, s3, loc)
                    if v.op == 'MINS' and v is not lv and loc != bl:
                        d = sub(v.a[2], mk('MVAL', v.a[0], v.a[1]))
                        got = (v.a[2], d)
                if got:
                    c.same('limit', w, s3, got[1], C(1), 'every return counts as one attempt')
                    counters.update(loc for loc, (lv, init) in (inner or X.L).havoc.items() if loc != bl and rd(X, s3, loc).op == 'MINS' and rd(X, s3, loc) is not lv)
                    r = X.must(s3, le(got[0], nl), {sub(got[0], C(1)): mk('SYM', 'tries')} if got[0].op == 'LIN' else None)
                    if r is not True and not any(any(x is nl for x in subterms(a)) for a, p in s3.conds):
                        r = False
                    c.res(r, 'limit', w, 'a return is allowed only within the limit of attempts', why)
    if used.get('rng'):
        for why in kept:
            c.viol('place', w, 'a return restores the recorded random source', 'not restored, ' + why)
    for conds, s2, why in X.guards:
        for loc in counters:
            if loc not in X.L.havoc:
                continue
            lv = X.L.havoc[loc][0]
            v = rd(X, s2, loc)
            if v.op == 'MINS' and v.a[0] is lv and v.a[2] is C(0):
                c.res(s2.truth(mk('MHAS', lv, v.a[1])) is False, 'limit', w, 'the returns made so far still count when a place is recorded', why)
            elif v is lv:
                c.ok('limit', w, 'the returns made so far still count when a place is recorded')
    for loc, lv, key, rest, rec_, s2, why in recs:
        get = lambda k: [rec_.a[2][i] for i in used.get(k, ()) if i < len(rec_.a[2])]
        for v in get('work'):
            c.same('place', w, s2, v, X.tail, 'a place holds the work behind the symbol')
        for v in get('len'):
            X.same('place', s2, v, length(X.R), 'a place holds the length of the output')
        for v in get('rng'):
            if X.rngl:
                c.same('place', w, s2, v, X.L.havoc[X.rngl][0], 'a place holds the random source')
        for v in get('forb'):
            ok_ = any(x.op == 'MVAL' and x.a[1] is X.h for x in subterms(v))
            c.res(True if ok_ else (False if precise(v) and not mentions(v, ('LOOPV',)) and free_leaf(v) else None), 'place', w, 'a place holds the text forbidden after the symbol', show(v)[:200])
            texts(X, s2, v)
            X.same('place', s2, key, add(length(X.S), length(v)), 'a place is looked up where the forbidden text would end')
        for i in used.get('order', ()):
            v = rec_.a[2][i]
            cl = next((l for l, (x, init) in X.L.havoc.items() if x is v), None)
            if cl is not None:
                nv = rd(X, s2, cl)
                c.res(must(s2, lt(v, nv)), 'place', w, 'places are numbered in the order they are recorded', show(nv)[:100])
            else:
                c.res(None, 'place', w, 'places are numbered in the order they are recorded', show(v)[:100])
        for q in rest:
            if not (q.op == 'ALL' and q.a[0].op == 'MVAL'):
                c.inc('place', w, 'earlier places stay', show(q)[:100])
            else:
                c.ok('place', w, 'earlier places stay')


def free_leaf_len(p):
    return free_leaf(p.a[2]) or isC(p.a[2]) or p.a[2].op in ('LEN', 'LIN', 'FLD')


def is_ends(a, x):
    return any(y.op == 'B:ends_with' or (y.op.startswith('B:') and 'ends_with' in y.op) for y in subterms(a)) and any(y is x for y in subterms(a))


def texts(X, s2, v):
    """the forbidden text of a place is, character by character, that of a negative rule for the symbol"""
    c, w = X.c, X.w
    if not (v.op == 'MVAL' and v.a[1] is X.h and v.a[0].op == 'MAPOF' and v.a[0].a[0].op == 'SEQ' and len(v.a[0].a[0].a) == 1 and v.a[0].a[0].a[0].op == 'COMP'):
        return
    L, src, cases = v.a[0].a[0].a[0].a
    if src is not mk('SYM', 'neg') or len(cases) != 1 or cases[0][0] or len(cases[0][1]) != 1 or cases[0][1][0].op != 'ONE':
        return
    t, e = cases[0][1][0].a[0], mk('ELEM', L, src)
    if t.op != 'TUP' or len(t.a) != 2:
        return
    c.same('place', w, s2, t.a[0], F(e, 'NegativeRule', 'sym'), 'the forbidden text belongs to the symbol of its rule')
    chars = mk('CHARS', F(e, 'NegativeRule', 'chars'))
    if seq_like(t.a[1], chars) is not None:
        c.res(seq_like(t.a[1], chars), 'place', w, 'the forbidden text is that of the rule', show(t.a[1])[:200])


def seq_like(got, want):
    """True: the same text; False: another arrangement of it"""
    if got is want or parts(got) == [want] or [p.a[0] for p in parts(got) if p.op == 'ALL'] == [want] and len(parts(got)) == 1:
        return True
    ps = parts(got)
    if got.op == 'REV' or (len(ps) == 1 and ps[0].op in ('REV', 'SUB')) or (len(ps) == 1 and ps[0].op == 'ALL' and ps[0].a[0].op == 'REV'):
        return False if any(x is want for x in subterms(got)) and not mentions(got, ('LOOPV', 'AFTER')) else None
    return None


def unseen(X, conds, evs, s2, B, why):
    """after a character is put out and kept, no recorded place may have its forbidden text there"""
    c, w = X.c, X.w
    what = 'every place that ends here is asked for its forbidden text'
    S1 = now_text(X, s2, conds)
    if S1 is None or S1 is X.S:
        return
    about = [(a, p) for a, p in conds if any(x is B for x in subterms(a))]
    loopy = any(e[0] == 'loop' and e[1] is not X.L for e in evs) or any(mentions(a, ('AFTER',)) for a, p in conds)
    if not about:
        c.res(None if loopy else False, 'place', w, what, 'nothing is asked ' + why)
        return
    for a, p in about:
        if a.op == 'MHAS' and a.a[0] is B:
            X.same('place', s2, a.a[1], length(S1), 'places are looked up by the length of the text')
            if not p:
                continue
            v = mk('MVAL', B, a.a[1])
            of = [(b, q) for b, q in conds if any(x is v for x in subterms(b))]
            if any(b.op == 'QALL' and b.a[0] is v and q and any(len(cl) == 1 and not cl[0][1] and 'ends_with' in cl[0][0].op for cl in b.a[1]) for b, q in of):
                c.ok('place', w, what)
                continue
            el = {x for b, q in of for x in subterms(b) if x.op in ('AT', 'ELT') and x.a[0] is v}
            cut = {**{x: mk('SYM', '_e%d' % i) for i, x in enumerate(sorted(el, key=show))}, length(v): mk('SYM', '_n')}
            if loopy or any(any(x is v for x in subterms(subst(b, cut))) for b, q in of):
                c.inc('place', w, what, why)
                continue
            # only single places are asked: enough if there are no more of them
            r = must(s2, le(length(v), C(len(el))))
            c.res(True if r is True else False, 'place', w, what, '%d of any number of places are asked %s' % (len(el), why))


def fl(e, f, k):
    return mk('FLD', e, *f.a[1:-1], k)


def cut_field(rv, R0, e):
    ps = parts(rv)
    if len(ps) == 1 and ps[0].op == 'SUB' and ps[0].a[0] is R0 and ps[0].a[1] is C(0):
        x = ps[0].a[2]
        if x.op == 'FLD' and x.a[0] is e:
            return x.a[-1]
    return None


def now_text(X, s2, conds):
    app = next((x for a, p in conds for x in subterms(a) if x.op == 'APP' and len(x.a) >= 2), None)
    if app is None:
        return None
    t = s2.truth(is_some(app))
    if t is None:
        return None
    return seq(parts(X.S) + (one(unsome(app)),)) if t else X.S


def forget(X, s2, bv, B, e, f, why):
    """later places are dropped, earlier ones stay; gives the index of the field that orders places"""
    c, w = X.c, X.w
    if bv is B:
        c.viol('place', w, 'a return forgets the places recorded later', 'all recorded places are kept ' + why)
        return None
    if bv.op != 'LUPD' or bv.a[1] is not B:
        c.inc('place', w, 'a return forgets the places recorded later', show(bv)[:200])
        return None
    res = None
    for cs, upd in bv.a[3]:
        for u in (upd if upd and isinstance(upd[0], tuple) else (upd,)):
            if not (isinstance(u, tuple) and u and u[0] == 'MINS'):
                c.inc('place', w, 'a return forgets the places recorded later', str(u)[:100])
                continue
            v = u[2]
            if not (v.op == 'SEQ' and len(v.a) == 1 and v.a[0].op == 'COMP'):
                if v is EMPTY:
                    c.viol('place', w, 'places recorded earlier stay', why)
                else:
                    c.inc('place', w, 'a return forgets the places recorded later', show(v)[:200])
                continue
            L, src, cases = v.a[0].a
            x = mk('ELEM', L, src)
            ks = sorted({y.a[-1] for k, _ in cases for a, p in k for y in subterms(a) if y.op == 'FLD' and y.a[0] is x and any(z is fl(e, f, y.a[-1]) for z in subterms(a))})
            if len(ks) != 1:
                # what is kept is decided without a look at the place returned to
                blind = not any(y is e for k, _ in cases for a, p in k for y in subterms(a))
                keeps = any(items and not any(mentions(a, tuple(o for o in IMPREC if o not in ('LV', 'LOOPV', 'LUPD', 'AFTER', 'MVAL'))) for a, p in k) for k, items in cases)
                c.res(False if blind and keeps and not ks else None, 'place', w, 'a return forgets the places recorded later', show(v)[:300])
                continue
            k = ks[0]
            mine, his = fl(e, f, k), fl(x, f, k)
            for later in (True, False):
                for kc, items in cases:
                    s3 = s2.fork()
                    if not s3.learn(lt(mine, his), later) or not learn_all(s3, kc):
                        continue
                    if later:
                        c.res(False if items else True, 'place', w, 'a return forgets the places recorded later', showconds(kc)[:200])
                    else:
                        c.res(True if items else False, 'place', w, 'places recorded earlier stay', showconds(kc)[:200])
            res = k
    return res


def table(c):
    c.rule('table', 'every rule enters the table once under its own left-hand side, with its own right-hand side, at weight/1000, or 1 if it has none')
    f = rand_fn(c)
    s = c.summary(f, ['self', 'start', 'limit', 'rng', 'neg', 'tochar'], prims=prims(), rule='table')
    if not s:
        return
    g = mk('SYM', 'self')
    done = False
    for st, ret in s.outs[:1]:
        for e in st.ev:
            if e[0] != 'loop':
                continue
            L = e[1]
            for kind, conds, evs, s2 in sorted(L.cases, key=lambda k: not adds_of(s, L, k[3])):
                adds = []
                for loc, (lv, init) in L.havoc.items():
                    try:
                        v = s2.norm(s.I.readloc(s2, *loc))
                    except Exception:
                        continue
                    adds += [x for x in subterms(v) if x.op == 'WADD']
                if not adds and not done:
                    continue
                if kind != 'back' or not adds:
                    if any(x.op == 'WADD' for k2, c2, e2, s4 in L.cases for loc in L.havoc for x in subterms(s4.norm(s.I.readloc(s4, *loc)))) and kind == 'back':
                        c.res(False if all(precise(a) for a, p in conds) else None, 'table', f.n, 'every rule enters the table', 'left out when %s' % showconds(conds)[:200])
                    continue
                done = True
                if len(adds) != 1:
                    c.viol('table', f.n, 'a rule enters the table once', 'when %s' % showconds(conds)[:200])
                    continue
                a = adds[0]
                lhs = a.a[2]
                e_ = next((x for x in subterms(lhs) if x.op == 'ELEM'), None)
                if e_ is None:
                    c.inc('table', f.n, 'entry', show(a)[:200])
                    continue
                c.same('table', f.n, s2, e_.a[1], F(g, 'cfg::Cfg', 'rules'), 'the table is made from the rules of the grammar')
                c.same('table', f.n, s2, lhs, F(e_, 'CfgRule', 'lhs'), 'an entry is under the left-hand side of its rule')
                c.same('table', f.n, s2, a.a[3], F(e_, 'CfgRule', 'rhs'), 'an entry has the right-hand side of its rule')
                hw = F(F(e_, 'CfgRule', 'history'), 'History', 'weight')
                for s3 in c.split(s2, [is_some(hw)]):
                    has = s3.truth(is_some(hw))
                    num, den = ratio(s3.norm(a.a[1]))
                    if num is None:
                        c.inc('table', f.n, 'share of a rule', show(a.a[1])[:200])
                    elif has:
                        c.res((num is s3.norm(unsome(hw)) and den == 1000.0) or (False if isC(num) or num is s3.norm(unsome(hw)) else None), 'table', f.n, 'share of a rule', show(a.a[1])[:200])
                    else:
                        c.res((num.a[0] if den == 1 else num.a[0] / den) == 1.0 if isC(num) else None, 'table', f.n, 'share of a rule without a weight', show(a.a[1])[:200])
    if not done:
        c.inc('table', f.n, 'table entries')


def adds_of(s, L, s2):
    r = 0
    for loc in L.havoc:
        try:
            r += sum(1 for x in subterms(s2.norm(s.I.readloc(s2, *loc))) if x.op == 'WADD')
        except Exception:
            pass
    return r


def ratio(t):
    import struct
    fv = lambda b: struct.unpack('<d', struct.pack('<Q', b))[0]
    if t.op == 'FDiv' and isC(t.a[1]):
        n, d = t.a
        dv = fv(d.a[0]) if d.a[0] > 1 << 52 else float(d.a[0])
        if isC(n) and n.a[0] > 1 << 52:
            n = C(int(fv(n.a[0])))
        return n, dv
    if isC(t):
        v = fv(t.a[0]) if t.a[0] > 1 << 52 else float(t.a[0])
        return C(int(v * 1000)), 1000.0
    return t, 1.0


def pick(c):
    big = c.tier == 'thorough'
    c.rule('pick', 'with up to %d rules of any weights, a value inside the share of a rule picks that rule; the value is drawn from the total' % (4 if big else 3))
    fa, fp = c.fn('WeightedRhsByLhs::add_weight'), c.fn('WeightedRhsByLhs::pick_rhs')
    A, Bs = C(1), C(2)
    T0 = None
    nw = c.summary('WeightedRhsByLhs::new', [], rule='pick')
    if nw and len(nw.outs) == 1:
        T0 = nw.outs[0][0].norm(nw.outs[0][1])
    if T0 is None:
        return
    for keys in ([A], [A, A], [A, Bs], [A, A, A], [A, Bs, A], [Bs, A, A]) + (([A, A, A, A], [A, Bs, A, Bs]) if big else ()):
        one_table(c, fa, fp, T0, keys, A, Bs)


U = {'W': ('prim', 'u32')}


def one_table(c, fa, fp, T0, keys, A, Bs):
    w = fp.n
    ws = [mk('SYM', 'w%d' % i) for i in range(len(keys))]
    rs = [mk('SYM', 'rhs%d' % i) for i in range(len(keys))]
    base = St()
    for x in ws:
        base.learn(lt(x, C(0)), False)
    tabs = [(base, T0)]
    for k, x, r in zip(keys, ws, rs):
        nx = []
        for st, t in tabs:
            def pre(s, st=st, t=t):
                learn_all(s, st.conds)
                s.cells[('in', 'self')] = t
            z = c.summary(fa, ['self', x, k, r], pre=pre, rule='pick', decided=True, env=U)
            if not z:
                return
            for s2, ret in z.outs:
                nx.append((s2, s2.norm(F0(z, s2))))
        tabs = nx[:6]
    V = mk('SYM', 'value')
    tag = 'rules of [%s]' % ', '.join('AB'[k.a[0] - 1] for k in keys)
    for st, t in tabs:
        def pre(s):
            learn_all(s, st.conds)
            for x in ws:
                s.learn(lt(x, C(0)), False)
        pr = dict(PR.STD)

        def gen(I, s, f, vs, site):
            s.event('draw', I.deref_deep(s, vs[1]))
            return [(s, V)]
        pr['GenRange::generate'] = gen
        z = c.summary(fp, [t, A, 'rng'], prims=pr, pre=pre, rule='pick', decided=True, env=U)
        if not z:
            return
        mine = [i for i, k in enumerate(keys) if k is A]
        for s1, ret in z.outs:
            s2 = reals(s1)
            if s2 is None:
                continue
            ret = s2.norm(z.I.deref_deep(s1, ret))
            tot = C(0)
            for i in mine:
                tot = add(tot, ws[i])
            for e in s1.ev:
                if e[0] == 'draw':
                    c.same('pick', w, s2, e[1], tot, tag + ': the value is drawn from the total')
            if len(mine) == 1:
                c.same('pick', w, s2, ret, rs[mine[0]], tag + ': the only rule is picked')
                continue
            lo = C(0)
            for i in mine:
                hi = add(lo, ws[i])
                s3 = s2.fork()
                if s3.learn(lt(lo, V), True) and s3.learn(lt(V, hi), True) and feasible(s3, [(lt(lo, V), True), (lt(V, hi), True)] + [(lt(x, C(0)), False) for x in ws]):
                    c.same('pick', w, s3, ret, rs[i], tag + ': the rule whose share holds the value is picked')
                lo = hi


FCMP = {'FLt': lt, 'FLe': le, 'FGt': lambda a, b: lt(b, a), 'FGe': lambda a, b: le(b, a), 'FEq': eq}


def reals(st):
    """floating comparisons of whole numbers are comparisons"""
    r = St()
    for a, p in st.conds:
        b = FCMP[a.op](*a.a) if a.op in FCMP else a
        if isC(b):
            if bool(b.a[0]) != p:
                return None
        elif not r.learn(b, p):
            return None
    return r


def feasible(s3, extra):
    return not lin.Facts(list(s3.conds) + extra).infeasible()


def F0(z, st):
    return z.cell(st, 'self')


PARTS = [step, table, pick]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p06', 'conv', 'Weight'), ('p14', 'queries', 'terminal'), ('p14', 'ops', 'index')]
