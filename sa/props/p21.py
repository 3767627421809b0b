"""Operations on the list of rules."""
from fix import *
from props.p12 import cf

TECHNIQUE = ('abstract interpretation of MIR: each operation is summarised as a symbolic map over the list of rules (filters, element-wise maps, orderings with their keys, quantified comparisons) '
             'and the summary is compared with the operation it names')

G = mk('SYM', 'self')
RULES = cf(G, 'rules')
FIELDS = ('sym_source', 'lexemes', 'roots', 'wrapped_roots', 'rhs_len_invariant', 'eliminate_nulling')
HST = 'history'


def frame(c, ru, s, st, changed):
    v = s.cell(st, 'self')
    for f in FIELDS + ('rules',):
        if f not in changed:
            c.same(ru, s.fn.n, st, st.norm(cf(v, f)), cf(G, f), 'leaves %s alone' % f)
    return st.norm(cf(v, 'rules'))


def keyed(c, ru, s, st, rs, op, what):
    """the list reordered or compacted by a key of (left-hand side, right-hand side)"""
    w = s.fn.n
    if rs.op != op or rs.a[0] is not RULES:
        c.res(False if precise(rs) and rs.op in ('SYM', 'FLD', 'COMP', 'SORT', 'DEDUP', 'REV', 'SEQ') else None, ru, w, what, show(rs)[:300])
        return
    clo = rs.a[1]
    x, y = mk('SYM', 'x'), mk('SYM', 'y')
    if clo is UNIT:
        c.inc(ru, w, what, 'by the order of rules')
        return
    if clo.op != 'CLO':
        c.inc(ru, w, what, show(clo)[:100])
        return
    n = arity(c, clo)
    if n == 1:
        for s2, k in apply(s, st, clo, [x]):
            k = s2.norm(s.I.deref_deep(s2, k))
            keyok(c, ru, w, k, x, what)
        return
    for s2, k in apply(s, st, clo, [x, y]):
        k = s2.norm(s.I.deref_deep(s2, k))
        lc, rc = mk('CMP', R(x, 'lhs'), R(y, 'lhs')), mk('CMP', R(x, 'rhs'), R(y, 'rhs'))
        why = '%s when %s' % (show(k)[:200], showconds(s2.conds)[:200])
        if op == 'DEDUP':
            le, re_ = eq(R(x, 'lhs'), R(y, 'lhs')), mk('EQ', R(x, 'rhs'), R(y, 'rhs'))
            for s3 in c.split(s2, [le, s3norm(s2, re_)]):
                got = bool(s3.norm(k).a[0]) if isC(s3.norm(k)) else s3.truth(k)
                want = all(s3.truth(t) for t in (le, s3norm(s2, re_)))
                c.res(None if got is None else got == want or (False if precise(k) else None), ru, w, what, why)
            continue
        if k.op == 'CMP':
            if s2.truth(mk('VAR', lc, 'core::cmp::Ordering', 1)) is True:
                c.res(True if k is rc else (False if precise(k) else None), ru, w, what, why)
            else:
                a, b = k.a
                if a.op in ('TUP', 'ADT') and b.op == a.op:
                    keyok(c, ru, w, a, x, what)
                    keyok(c, ru, w, b, y, what)
                else:
                    c.res(False if precise(k) and k in (lc, rc) else None, ru, w, what, why)
        elif k.op == 'ADT' and k.a[0] == 'core::cmp::Ordering':
            c.res(True if s2.truth(mk('VAR', lc, 'core::cmp::Ordering', k.a[1])) is True and k.a[1] != 1 else None, ru, w, what, why)
        else:
            c.inc(ru, w, what, why)


def s3norm(st, t):
    return st.norm(t)


def arity(c, clo):
    f = c.p.fns.get(clo.a[0])
    return (f.body['argc'] - 1) if f is not None else None


def keyok(c, ru, w, k, x, what):
    want = (R(x, 'lhs'), R(x, 'rhs'))
    got = tuple(fld(k, '(tuple)', 0, i) for i in range(2)) if k.op == 'TUP' else (k,)
    if k.op == 'TUP' and set(want) <= set(k.a) and len(k.a) > 2:
        # a finer key: harmless for an ordering, not for a removal
        # an ordering by anything of the rule besides the left-hand side comes before the right-hand side
        early = precise(k) and (k.a.index(want[1]) < k.a.index(want[0]) or any(want[1] in set(subterms(y)) or R(x, 'history') in set(subterms(y)) for y in k.a[:k.a.index(want[1])]))
        c.res(True if 'orders' in what and tuple(k.a[:2]) == want else (False if precise(k) and ('orders' not in what or early) else None), ru, w, what, show(k)[:200])
        return
    c.res(True if got == want else (False if precise(k) else None), ru, w, what, 'key %s' % show(k)[:200])


def order(c):
    c.rule('order', 'sort orders the rules by left-hand side, then right-hand side; dedup drops consecutive rules with the same sides; sort_by orders by the given comparison')
    for m, op in (('sort', 'SORT'), ('dedup', 'DEDUP')):
        s = c.summary('Cfg::' + m, ['self'])
        for st, ret in (s.outs if s else ()):
            rs = frame(c, 'order', s, st, ('rules',))
            keyed(c, 'order', s, st, rs, op, 'orders by both sides' if op == 'SORT' else 'compares both sides')
    s = c.summary('Cfg::sort_by', ['self', 'f'])
    for st, ret in (s.outs if s else ()):
        rs = frame(c, 'order', s, st, ('rules',))
        ok = rs.op == 'SORT' and rs.a[0] is RULES and (rs.a[1] is mk('SYM', 'f') or closure_is(s, st, rs.a[1], mk('SYM', 'f'), 2))
        c.res(True if ok else (False if precise(rs) and rs.op != 'SORT' else None), 'order', s.fn.n, 'orders by the given comparison', show(rs)[:200])


def closure_is(s, st, clo, f, n):
    """clo(x..) = f(x..)"""
    if clo.op != 'CLO':
        return None
    xs = [mk('SYM', 'x%d' % i) for i in range(n)]
    outs = apply(s, st, clo, xs)
    return len(outs) == 1 and outs[0][1].op == 'APP' and outs[0][1].a[0] is f and tuple(outs[0][1].a[1:]) == tuple(xs)


def again(c):
    """rules that the grammar has already are added as well"""
    from props.p13 import grammar, terms_of
    D = lambda n: mk('DSYM', n)
    for txt, own, other in (('a -> x to a -> x', [('a', 'x')], [('a', 'x')]), ('a -> to a -> x', [('a', 'x')], [('a', '')]), ('a -> a b to a -> b a', [('a', 'ba')], [('a', 'ab')]),
                            ('b -> x to a -> x, c -> x', [('a', 'x'), ('c', 'x')], [('b', 'x')]), ('a -> x to c -> x, a -> x', [('c', 'x'), ('a', 'x')], [('a', 'x')])):
        g, o = [grammar(terms_of([(D(l), [D(x) for x in r]) for l, r in rs])) for rs in (own, other)]
        s = c.summary('Cfg::extend', ['self', 'o'], lits={'self': g, 'o': o}, decided=True)
        if not s or len(s.outs) != 1:
            c.inc('lists', 'Cfg::extend', txt)
            continue
        st, ret = s.outs[0]
        rs = st.norm(cf(s.cell(st, 'self'), 'rules'))
        want = concat(cf(g, 'rules'), seqof([mk('ADDED', x.a[0]) for x in parts(cf(o, 'rules'))]))
        if rs.op != 'SEQ' or any(x.op != 'ONE' for x in rs.a):
            c.inc('lists', s.fn.n, txt, show(rs)[:200])
            continue
        c.res(True if rs is want else (False if len(rs.a) != len(want.a) else None), 'lists', s.fn.n, 'adding ' + txt, show(rs)[:300])


def elements(c):
    c.rule('lists', 'retain keeps exactly the rules the predicate accepts, unchanged and in order; clear_rules removes all; reverse reverses every right-hand side and nothing else; '
                    'extend adds every rule of the other grammar, unchanged and in order; rules() lists the rules in order')
    E = lambda L, src=RULES: mk('ELEM', L, src)
    s = c.summary('Cfg::retain', ['self', 'f'])
    f = mk('SYM', 'f')
    for st, ret in (s.outs if s else ()):
        rs = frame(c, 'lists', s, st, ('rules',))
        want = lambda L, src: ((((mk('APP', f, E(L, src)), True),), (one(E(L, src)),)), (((mk('APP', f, E(L, src)), False),), ()))
        cmplist(c, 'lists', s, st, rs, seq([mk('COMP', 'R', RULES, want('R', RULES))]), 'keeps exactly the accepted rules')
    s = c.summary('Cfg::clear_rules', ['self'])
    for st, ret in (s.outs if s else ()):
        rs = frame(c, 'lists', s, st, ('rules',))
        c.same('lists', s.fn.n, st, rs, EMPTY, 'no rules are left')
    s = c.summary('Cfg::reverse', ['self'])
    for st, ret in (s.outs if s else ()):
        rs = frame(c, 'lists', s, st, ('rules',))
        e = E('R')
        r = mkadt('cfg::CfgRule', lhs=R(e, 'lhs'), rhs=rev(R(e, 'rhs')), history=R(e, HST))
        cmplist(c, 'lists', s, st, rs, seq([mk('COMP', 'R', RULES, (((), (one(r),)),))]), 'every right-hand side is reversed')
    s = c.summary('Cfg::extend', ['self', 'o'])
    orules = cf(mk('SYM', 'o'), 'rules')
    for st, ret in (s.outs if s else ()):
        rs = frame(c, 'lists', s, st, ('rules',))
        e = E('R', orules)
        cmplist(c, 'lists', s, st, rs, concat(RULES, seq([mk('COMP', 'R', orules, (((), (one(mk('ADDED', e)),)),))])), 'every rule of the other grammar is added')
    again(c)
    s = c.summary('Cfg::rules', ['self'])
    for st, ret in (s.outs if s else ()):
        stream(c, 'lists', s, st, ret, RULES, lambda s2, x, e, why: c.same('lists', s.fn.n, s2, x, e, 'lists the rules'))
    s = c.summary('Cfg::set_roots', ['self', 'r'])
    for st, ret in (s.outs if s else ()):
        frame(c, 'lists', s, st, ('roots',))
        c.same('lists', s.fn.n, st, st.norm(cf(s.cell(st, 'self'), 'roots')), mk('SYM', 'r'), 'replaces the roots')
    s = c.summary('Cfg::set_wrapped_roots', ['self', 'r'])
    for st, ret in (s.outs if s else ()):
        frame(c, 'lists', s, st, ('wrapped_roots',))
        c.same('lists', s.fn.n, st, st.norm(cf(s.cell(st, 'self'), 'wrapped_roots')), mk('SYM', 'r'), 'replaces the wrapped roots')
    for m, want in (('roots', cf(G, 'roots')), ('wrapped_roots', cf(G, 'wrapped_roots')), ('has_roots', neg(eq(length(cf(G, 'roots')), C(0))))):
        s = c.summary('Cfg::' + m, ['self'])
        for st, ret in (s.outs if s else ()):
            ret = st.norm(s.I.deref_deep(st, ret))
            if m == 'has_roots':
                boolres(c, 'lists', s.fn.n, st, ret, lambda s2: s2.truth(want), [want.a[0] if want.op == 'NOT' else want], 'tells whether there are roots')
            else:
                c.same('lists', s.fn.n, st, ret, want, 'reads the field')


def cmplist(c, ru, s, st, got, want, what):
    c.same(ru, s.fn.n, st, got, want, what)


def stream(c, ru, s, st, ret, src, body):
    """drives the returned iterator; every element of src yields exactly one item"""
    it = s.I.deref_deep(st, ret)
    try:
        s0 = st.fork()
        outs = models_materialise(s, s0, it)
    except Exception as e:
        c.inc(ru, s.fn.n, 'the listing', repr(e)[:200])
        return
    for s2, sq in outs:
        sq = s2.norm(sq)
        if sq is src:
            body(s2, mk('ELEM', 'R', src), mk('ELEM', 'R', src), '')
            continue
        ps = list(parts(sq))
        if len(ps) == 1 and ps[0].op == 'COMP':
            L, b, cases = ps[0].a
            if b is not src:
                c.res(False if part_of(b) is src or base(b) is src else None, ru, s.fn.n, 'one item per rule, in order', show(sq)[:200])
                continue
            for conds, items in cases:
                s3 = s2.fork()
                if not learn_all(s3, conds):
                    continue
                if len(items) != 1 or items[0].op != 'ONE':
                    c.res(False if all(i.op == 'ONE' for i in items) and all(precise(a) for a, _ in conds) else None, ru, s.fn.n, 'one item per rule, in order', show(sq)[:200])
                    continue
                body(s3, items[0].a[0], mk('ELEM', L, src), showconds(conds))
        else:
            c.res(False if part_of(sq) is src or base(sq) is src and sq is not src else None, ru, s.fn.n, 'one item per rule, in order', show(sq)[:200])


def models_materialise(s, st, it):
    import models
    return models.materialise(s.I, st, it, ('chk', 'stream'), 'x')


def column(c):
    c.rule('column', 'column(n) lists, for every rule in order, its left-hand side, the symbol before position n, the symbol at position n, and the n-th dot of its history')
    s = c.summary('Cfg::column', ['self', 'col'])
    if not s:
        return
    w = s.fn.n
    col = mk('SYM', 'col')
    D = lambda v, n: F(v, 'cfg::DotInfo', n)

    def body(st, x, e, why):
        rhs = R(e, 'rhs')
        zero, inb, atend, dotb = eq(col, C(0)), lt(col, length(rhs)), eq(col, length(rhs)), lt(col, C(3))
        d3 = lt(col, length(F(R(e, HST), 'earley::History', 'dots')))
        for s2 in c.split(st, [zero, inb, atend, dotb, d3]):
            if s2.truth(dotb) != s2.truth(d3) or (s2.truth(inb) and s2.truth(atend)) or not consistent(s2):
                continue
            g = lambda n: pick(s2, D(x, n))
            c.same('column', w, s2, g('lhs'), R(e, 'lhs'), 'the left-hand side')
            opt(c, w, s2, g('postdot'), at(rhs, col) if s2.truth(inb) else None, 'the symbol at the dot')
            opt(c, w, s2, g('predot'), None if s2.truth(zero) or not (s2.truth(inb) or s2.truth(atend)) else at(rhs, sub(col, C(1))), 'the symbol before the dot')
            q = g('earley')
            if q is NONE:
                c.viol('column', w, 'the dot of the history', 'none')
            else:
                q = s2.norm(unsome(q))
                d = F(R(e, HST), 'earley::History', 'dots')
                if s2.truth(dotb):
                    c.same('column', w, s2, q, at(d, col), 'the dot of the history')
    for st, ret in s.outs:
        stream(c, 'column', s, st, ret, RULES, body)


def pick(st, t):
    return st.norm(t)


def opt(c, w, st, got, want, what):
    if want is None:
        v = st.truth(is_some(got))
        c.res(None if v is None else not v, 'column', w, what, '%s when %s' % (show(got)[:200], showconds(st.conds)[:200]))
        return
    v = st.truth(is_some(got))
    if v is not True:
        c.res(v, 'column', w, what, '%s when %s' % (show(got)[:200], showconds(st.conds)[:200]))
        return
    c.same('column', w, st, unsome(got), want, what)


# ------------------------------------------------------------------ comparison
def seqeq(st, lits, X, Y, inner):
    """do the literals say that X and Y are equal sequences? True / False (they do not) / None"""
    e = mk('EQ', X, Y)
    e2 = mk('EQ', Y, X)
    for a, p in lits:
        if a in (e, e2) and p:
            return True
    ln = None
    for a, p in lits:
        if a in (eq(length(X), length(Y)), eq(length(Y), length(X))) and p:
            ln = True
    for a, p in lits:
        if p and a.op == 'QALL' and a.a[0].op == 'ZIP' and set(a.a[0].a) == {X, Y} and ln:
            rs = [inner(cl, mk('ELEM', '•', X), mk('ELEM', '•', Y)) for cl in a.a[1]]
            return all(rs) if None not in rs else (False if False in rs else None)
    rel = [a for a, p in lits if (X in set(subterms(a)) or Y in set(subterms(a)))]
    if not rel:
        return False
    if all(a.op == 'LASTOF' or a.op == 'QALL' and a.a[0].op == 'ZIP' and set(a.a[0].a) == {X, Y} or a in (eq(length(X), length(Y)), eq(length(Y), length(X))) for a in rel) and all(precise(a) for a in rel):
        return False
    return None


def symeq(cl, a, b):
    return any(x in (mk('EQ', a, b), mk('EQ', b, a)) and p for x, p in cl)


def ruleeq(st):
    def f(cl, a, b):
        if any(x.op == 'EQ' and set(x.a) == {a, b} and p for x, p in cl):
            return None
        l = symeq(cl, R(a, 'lhs'), R(b, 'lhs'))
        r = seqeq(st, cl, R(a, 'rhs'), R(b, 'rhs'), lambda cl2, x, y: symeq(cl2, x, y))
        if not l or r is False:
            return False if all(precise(x) for x, _ in cl) else None
        return r
    return f


def equivalent(c):
    c.rule('equal', 'two grammars are equivalent iff they have as many rules and the rules agree, in order, on both sides; nothing else is compared')
    s = c.summary('Cfg::equivalent', ['self', 'o'])
    if not s:
        return
    w = s.fn.n
    o = cf(mk('SYM', 'o'), 'rules')
    okatoms = lambda a: any(x is RULES or x is o for x in subterms(a))
    for st, ret in s.outs:
        for s2, b in s.I.branch(st, st.norm(ret)):
            lits = [(a, p) for a, p in s2.conds]
            why = '%s when %s' % (b, showconds(s2.conds)[:400])
            if b:
                c.res(seqeq(s2, lits, RULES, o, ruleeq(s2)), 'equal', w, 'equivalent grammars have equal rules', why)
                continue
            # some difference between the sides must be known
            r = None
            for a, p in lits:
                if not p and a in (eq(length(RULES), length(o)), eq(length(o), length(RULES))):
                    r = True
                elif not p and a.op == 'EQ':
                    xs = set(a.a)
                    es = [y for y in subterms(a) if y.op == 'ELEM' and y.a[1] in (RULES, o)]
                    if len(set(es)) == 2 and len({y.a[0] for y in es}) == 1:
                        u, v = [y for y in set(es) if y.a[1] is RULES], [y for y in set(es) if y.a[1] is o]
                        if u and v:
                            if xs in ({R(u[0], 'lhs'), R(v[0], 'lhs')}, {R(u[0], 'rhs'), R(v[0], 'rhs')}):
                                r = True
                elif not p and a.op == 'QALL' and a.a[0].op == 'ZIP' and set(a.a[0].a) == {RULES, o} and r is None and len(a.a[1]) == 1:
                    x, y = mk('ELEM', '•', RULES), mk('ELEM', '•', o)
                    allowed = [{R(x, 'lhs'), R(y, 'lhs')}, {R(x, 'rhs'), R(y, 'rhs')}]
                    if all(q.op == 'EQ' and pp and set(q.a) in allowed for q, pp in a.a[1][0]):
                        r = True
            if r is None and lits and all(precise(a) and (p and neutral(a) or alien(a, p)) for a, p in lits):
                r = False
            c.res(r, 'equal', w, 'grammars with equal rules are equivalent', why)


def neutral(a):
    return a.op in ('EQ', 'EQ0', 'QALL')


def alien(a, p):
    """a fact that can hold between grammars with equal rules"""
    t = show(a)
    if a.op == 'QALL' and not p:
        return len(a.a[1]) == 1 and any(alien(x, not q) for x, q in a.a[1][0]) and all(precise(x) for x, _ in a.a[1][0])
    return a.op == 'EQ' and '.rhs' not in t and '.lhs' not in t and '.rules' not in t.replace('<self.rules>', '').replace('<o.rules>', '')


PARTS = [order, elements, column, equivalent]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p05', 'split', ''), ('p06', 'roots', 'dot')]
