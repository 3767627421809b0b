"""Cycle detection and elimination."""
from fix import *
import models
from props.p12 import cf

TECHNIQUE = ('abstract interpretation of MIR: the per-rule classification, the kept rules, the renaming table and the rewritten rules are extracted from the loop summaries '
             'and compared with the definition over the unit-derivation relation')

CY = 'cyclical::Cycles'
G = lambda y: F(y, CY, 'grammar')


def mat(y):
    v = fld(F(y, CY, 'unit_derivation'), full('UnitDerivationMatrix'), 0, 0)
    return F(v, 'SymbolBitMatrix', 'bit_matrix')


def bm(y, a, b):
    return mk('BM', mat(y), PR.usz(a), PR.usz(b))


def rules(y):
    return cf(G(y), 'rules')


def cyc(y, e):
    rhs = R(e, 'rhs')
    return [eq(length(rhs), C(1)), bm(y, at(rhs, C(0)), R(e, 'lhs'))]


def env(c, f):
    """generic parameter of the container is the grammar itself"""
    gs = c.fn(f).g
    return dict((g, ('adt', full('cfg::Cfg'), ())) for g in gs)


def summ(c, name, args, prims=None):
    return c.summary(name, args, prims=PR.SETS if prims is None else prims, env=env(c, name))


def analysis(c):
    c.rule('find', 'the unit-derivation relation of the grammar decides: cycle-free iff it is nowhere reflexive; a rule is cyclical iff it is a unit rule whose right-hand side derives its left-hand side')
    y = mk('SYM', 'y')
    s = summ(c, 'Cycles::new', ['g'])
    for st, ret in (s.outs if s else ()):
        m = mat(st.norm(ret))
        want = mk('REL', 'unit', cf(mk('SYM', 'g'), 'rules'))
        c.res(True if m is want else (False if m.op == 'REL' else None), 'find', s.fn.n, 'unit derivation of the grammar', show(m)[:200])
        c.same('find', s.fn.n, st, G(ret), mk('SYM', 'g'), 'of the given grammar')
        cfree = F(ret, CY, 'cycle_free')
        c.res(False if cfree.op == 'ADT' and cfree.a[1] == 1 else (True if cfree is NONE else None), 'find', s.fn.n, 'nothing is assumed about cycles', show(cfree))
    s = summ(c, 'Cycles::cycle_free', ['y'])
    cache = F(y, CY, 'cycle_free')
    q = free_atom(y)
    for st, ret in (s.outs if s else ()):
        v = st.norm(ret)
        v = s.I.deref_deep(st, v)
        if st.truth(is_some(cache)):
            c.same('find', s.fn.n, st, v, unsome(cache), 'repeats its first answer')
            continue
        boolres(c, 'find', s.fn.n, st, v, lambda s2: s2.truth(q), [q], 'cycle-free iff no symbol derives itself')
        out = s.cell(st, 'y')
        c.same('find', s.fn.n, st, F(out, CY, 'grammar'), G(y), 'the grammar is unchanged')
    s = summ(c, 'Cycles::classify', ['y'])
    for st, ret in (s.outs if s else ()):
        for s2, v in models.collect_seq(s.I, st.fork(), ret, ('collect',), 'iter'):
            J = joint(s2, v, rules(y))
            if J is None:
                c.inc('find', s.fn.n, 'classifies every rule', show(v)[:200])
                continue
            E = mk('ELEM', 'J', rules(y))
            for s3, items in J:
                if len(items) != 1 or items[0].op != 'ONE':
                    c.res(False if all(precise(a) for a, _ in s3.conds) and all(i.op == 'ONE' for i in items) else None, 'find', s.fn.n, 'classifies every rule', showconds(s3.conds)[:200])
                    continue
                c.same('find', s.fn.n, s3, fld(items[0].a[0], '(tuple)', 0, 0), E, 'names the rule')
                verd = fld(items[0].a[0], '(tuple)', 0, 1)
                boolres(c, 'find', s.fn.n, s3, verd, lambda s4: all(s4.truth(a) for a in cyc(y, E)), cyc(y, E), 'cyclical iff unit rule on a cycle')
    s = summ(c, 'Cycles::cycle_participants', ['y', 'b'])
    b = mk('SYM', 'b')
    for st, ret in (s.outs if s else ()):
        for s2, v in models.collect_seq(s.I, st.fork(), ret, ('collect',), 'iter'):
            filt(c, 'find', s.fn.n, s2, v, y, lambda s3, E: all(s3.truth(a) for a in cyc(y, E)) == s3.truth(b), lambda E: cyc(y, E) + [b], 'yields exactly the rules of the asked kind')


def free_atom(y):
    rng = mk('SEQ', mk('RNG', C(0), mk('NSYMS', cf(G(y), 'sym_source'))))
    i = mk('IDX', '•')
    return mk('QALL', rng, (((mk('BM', mat(y), i, i), False),),))


def filt(c, rule, w, st, v, y, want, atoms, what):
    J = joint(st, v, rules(y))
    if J is None:
        c.inc(rule, w, what, show(v)[:200])
        return
    E = mk('ELEM', 'J', rules(y))
    for s, items in J:
        for s2 in c.split(s, atoms(E)):
            pr = all(precise(a) for a, _ in s2.conds)
            if want(s2, E):
                if len(items) == 1 and items[0].op == 'ONE':
                    r, why = cmp3(s2, items[0].a[0], E)
                    c.res(r, rule, w, what, why)
                else:
                    c.res(False if pr and all(i.op == 'ONE' for i in items) else None, rule, w, what, 'missing when %s' % showconds(s2.conds[-6:])[:400])
            else:
                c.res(True if not items else (False if pr else None), rule, w, what, 'present when %s' % showconds(s2.conds[-6:])[:400])


def is_free(st, y):
    cache = F(y, CY, 'cycle_free')
    if st.truth(is_some(cache)):
        return st.truth(unsome(cache))
    return st.truth(free_atom(y))


def remove(c):
    c.rule('remove', 'remove_cycles() drops exactly the cyclical rules and changes nothing else')
    y = mk('SYM', 'y')
    s = summ(c, 'Cycles::remove_cycles', ['y'])
    for st, ret in (s.outs if s else ()):
        out = G(s.cell(st, 'y'))
        v = st.norm(cf(out, 'rules'))
        if v is rules(y):
            f = is_free(st, y)
            c.res(True if f else (False if all(precise(a) for a, _ in st.conds) else None), 'remove', s.fn.n, 'keeps exactly the rules off cycles', 'nothing removed when %s' % showconds(st.conds)[:300])
        else:
            filt(c, 'remove', s.fn.n, st, v, y, lambda s2, E: not all(s2.truth(a) for a in cyc(y, E)), lambda E: cyc(y, E), 'keeps exactly the rules off cycles')
        for n in ('sym_source', 'roots', 'wrapped_roots', 'rhs_len_invariant', 'eliminate_nulling', 'lexemes'):
            c.same('remove', s.fn.n, st, cf(out, n), cf(G(y), n), 'nothing else in the grammar changes')


def rewrite(c):
    c.rule('rewrite', 'rewrite_cycles(): cyclical rules go; every other rule stays, with each symbol replaced by the representative of its cycle; rules without such symbols stay as they are; '
                      'roots are replaced likewise')
    c.rule('table', 'the representative of a cycle is one of its symbols, and the table lists exactly the symbols that derive it and are derived by it')
    y = mk('SYM', 'y')
    s = summ(c, 'Cycles::rewrite_cycles', ['y'])
    if not s:
        return
    w = s.fn.n
    E = mk('ELEM', 'J', rules(y))
    tabs = set()
    for st, ret in s.outs:
        out = G(s.cell(st, 'y'))
        v = st.norm(cf(out, 'rules'))
        f = is_free(st, y)
        if v is rules(y):
            c.res(True if f else (False if all(precise(a) for a, _ in st.conds) else None), 'rewrite', w, 'cycles are rewritten', 'nothing rewritten when %s' % showconds(st.conds)[:300])
            c.same('rewrite', w, st, cf(out, 'roots'), cf(G(y), 'roots'), 'roots stay')
            continue
        J = joint(st, v, rules(y))
        if J is None:
            c.inc('rewrite', w, 'rules after rewriting', show(v)[:200])
        T = None
        for x in subterms(v):
            if x.op in ('MHAS', 'MVAL') and any(z.op == 'BM' or z.op == 'LUPD' for z in [x.a[0]]):
                T = x.a[0]
        if T is None:
            c.inc('rewrite', w, 'renaming table', '')
            continue
        if T not in tabs:
            tabs.add(T)
            table(c, w, st, T, y)
        for s1, items in (J or ()):
            for s2 in c.split(s1, cyc(y, E)):
                on = all(s2.truth(a) for a in cyc(y, E))
                pr = all(okay(a, T) for a, _ in s2.conds)
                why = 'when %s' % showconds(s2.conds[-4:])[-400:]
                if on:
                    c.res(True if not items else (False if pr else None), 'rewrite', w, 'cyclical rules are removed', why)
                    continue
                if not items:
                    c.res(False if pr else None, 'rewrite', w, 'every other rule is kept', why)
                    continue
                if len(items) != 1 or items[0].op not in ('ONE', 'ADDED'):
                    c.res(False if pr and all(i.op in ('ONE', 'ADDED') for i in items) else None, 'rewrite', w, 'every other rule is kept once', why)
                    continue
                x = items[0].a[0]
                if x.op == 'ADDED':
                    x = x.a[0]
                c.ok('rewrite', w, 'every other rule is kept once')
                renamed(c, w, s2, x, E, T, pr)
        roots(c, w, st, out, y, T)


def okay(a, T):
    return not mentions(subst(a, {T: mk('SYM', 'T')}), ('CALL', 'OPQ', 'AFTER', 'LOOPV', 'LV'))


def tr(s, T, x):
    """the renamed symbol on this path; None when undecided"""
    h = s.truth(mk('MHAS', T, x))
    if h is False:
        return x
    v = mk('MVAL', T, x)
    if h:
        k = s.truth(is_some(v))
        if k is True:
            return unsome(v)
        if k is False:
            return x
    return None


def renamed(c, w, st, x, E, T, pr):
    if x is E:
        kept(c, w, st, R(E, 'rhs'), T, pr, 'a renamed right-hand side is written')
        # nothing of it is renamed
        l = tr(st, T, R(E, 'lhs'))
        sub_ = [st] if l is not None else c.split(st, [mk('MHAS', T, R(E, 'lhs')), is_some(mk('MVAL', T, R(E, 'lhs')))])
        for s2 in sub_:
            l = tr(s2, T, R(E, 'lhs'))
            c.res(True if l is R(E, 'lhs') else (False if l is not None and pr else None), 'rewrite', w, 'a renamed left-hand side is written', showconds(s2.conds[-4:])[-300:])
        return
    for s2 in c.split(st, [mk('MHAS', T, R(E, 'lhs')), is_some(mk('MVAL', T, R(E, 'lhs')))]):
        l = tr(s2, T, R(E, 'lhs'))
        got = s2.norm(R(x, 'lhs'))
        if l is None:
            c.inc('rewrite', w, 'left-hand side is renamed', show(got)[-200:])
        else:
            c.res(True if got is l else (False if pr and got in (R(E, 'lhs'), unsome(mk('MVAL', T, R(E, 'lhs')))) else None), 'rewrite', w, 'left-hand side is renamed', show(got)[-200:])
    c.same('rewrite', w, st, R(x, 'history'), R(E, 'history'), 'the history is kept')
    rn(c, w, st, R(x, 'rhs'), R(E, 'rhs'), T, pr, 'right-hand side is renamed', lambda e: e, lambda z: z)


def kept(c, w, st, src, T, pr, what):
    """src is left as it is: the path must have looked at its symbols in the table"""
    looked = [a for a, _ in st.conds if any(x is src for x in subterms(a)) and any(x is T for x in subterms(a))
              and not (a.op in ('MHAS',) or a.op == 'IS' and a.a[0].op == 'MVAL')]
    every = [a for a, p in st.conds if a in looked and a.op == 'QALL' and p and a.a[0] is src]
    e = mk('ELEM', '•', src)
    verdict = None
    for q in every:
        rs = []
        for conj in q.a[1]:
            s2 = st.fork()
            if not learn_all(s2, conj):
                continue
            h, k = s2.truth(mk('MHAS', T, e)), s2.truth(is_some(mk('MVAL', T, e)))
            rs.append(True if h is False or k is False else (False if h and k and all(okay(a, T) for a, _ in conj) else None))
        r = False if False in rs else (None if None in rs else True)
        verdict = r if verdict is None or r is True else verdict
    if every:
        c.res(verdict if verdict is not False or pr else None, 'rewrite', w, what, 'left as it is although a symbol in it is renamed, when %s' % showconds(st.conds[-3:])[-300:])
        return
    c.res(True if any(a.op == 'QALL' for a in looked) else (None if looked or not pr else False), 'rewrite', w, what,
          'left as it is without looking its symbols up')


def rn(c, w, st, v, src, T, pr, what, sel, out):
    v = st.norm(v)
    if v is src:
        return kept(c, w, st, src, T, pr, what)
    J = joint(st, v, src, 'K')
    if J is None:
        if part_of(v) is src:
            c.viol('rewrite', w, what, 'only a part')
            return
        c.inc('rewrite', w, what, show(v)[:300])
        return
    e = mk('ELEM', 'K', src)
    x = sel(e)
    for s, items in J:
        for s2 in c.split(s, [mk('MHAS', T, x), is_some(mk('MVAL', T, x))]):
            want = tr(s2, T, x)
            p2 = pr and all(okay(a, T) for a, _ in s2.conds)
            if len(items) != 1:
                c.res(False if p2 and all(i.op == 'ONE' for i in items) else None, 'rewrite', w, what, 'when %s' % showconds(s2.conds[-3:])[-300:])
                continue
            if want is None:
                c.inc('rewrite', w, what, 'undecided')
                continue
            got = s2.norm(out(items[0].a[0])) if items[0].op == 'ONE' else None
            c.res(True if got is want else (False if p2 and got in (x, unsome(mk('MVAL', T, x))) else None), 'rewrite', w, what, '%s when %s' % (show(got)[-100:] if got is not None else '?', showconds(s2.conds[-3:])[-300:]))


def counts(a):
    """a condition on nothing but how many entries the table has so far: nothing about the symbol at hand"""
    if a.op not in ('EQ0', 'EQ', 'LT0'):
        return False
    bare = subst(a, {x: mk('SYM', 'n') for x in subterms(a) if x.op == 'LEN' and x.a[0].op == 'LV'})
    return bare is not a and not mentions(bare, ('LV', 'ELEM', 'CALL', 'OPQ', 'LOOPV', 'AFTER'))


def roots(c, w, st, out, y, T):
    r0 = cf(G(y), 'roots')
    r1 = st.norm(cf(out, 'roots'))
    if r1 is r0:
        c.viol('rewrite', w, 'roots are renamed', 'the roots keep naming symbols whose rules were renamed')
    else:
        rn(c, w, st, r1, r0, T, True, 'roots are renamed', lambda e: e, lambda z: z)
    w0 = cf(G(y), 'wrapped_roots')
    w1 = st.norm(cf(out, 'wrapped_roots'))
    if w1 is w0:
        c.viol('rewrite', w, 'wrapped roots are renamed', 'unchanged')
    else:
        for n in ('inner_root', 'root'):
            rn(c, w, st, w1, w0, T, True, 'wrapped roots are renamed', lambda e: F(e, 'WrappedRoot', n), lambda z: F(z, 'WrappedRoot', n))
    for n in ('sym_source', 'rhs_len_invariant', 'eliminate_nulling', 'lexemes'):
        c.same('rewrite', w, st, cf(out, n), cf(G(y), n), 'nothing else in the grammar changes')


def table(c, w, st, T, y):
    init, ups = unwind(T)
    if init is not mk('MAP0') or len(ups) != 1 or ups[0][0] != 'LUPD' or base(ups[0][2]) is not rules(y):
        c.inc('table', w, 'table of representatives', show(T)[:200])
        return
    E = mk('ELEM', 'ρ', rules(y))
    lhs = R(E, 'lhs')
    LVs = set(x for x in subterms(ups[0][3][0][0][0][0]) if x.op == 'LV') if False else None
    for k, us in renloop(ups[0][3], ups[0][1], E):
        s = st.fork()
        s.conds = ()
        if not learn_all(s, k):
            continue
        for s2 in c.split(s, cyc(y, E)):
            on = all(s2.truth(a) for a in cyc(y, E))
            has = [(a, p) for a, p in s2.conds if a.op == 'MHAS' and a.a[0].op == 'LV' and a.a[1] is lhs]
            why = 'when %s' % showconds(s2.conds)[:300]
            if not on:
                c.res(True if not us else None, 'table', w, 'only cyclical rules name representatives', why)
                continue
            if not us:
                c.res(True if has and has[0][1] else (False if all(precise(a) or a.op == 'MHAS' and a.a[1] is lhs or counts(a) for a, _ in s2.conds) else None), 'table', w, 'every cycle gets a representative', why)
                continue
            if not has or has[0][1]:
                c.res(None, 'table', w, 'a representative is chosen once', why)
                continue
            # members
            lup = [u for u in us if u[0] == 'LUPD']
            last = us[-1]
            c.res(True if last[0] == 'MINS' and last[1] in (lhs, at(R(E, 'rhs'), C(0))) and last[2] is NONE else (False if not any(u[0] == 'MINS' for u in us) else None), 'table', w, 'the representative stands for itself', show(last[2]) if last[0] == 'MINS' else last[0])
            if len(lup) != 1:
                c.res(False if not lup else None, 'table', w, 'members of the cycle are listed', why)
                continue
            member(c, w, s2, lup[0], lhs, y, last[1] if last[0] == 'MINS' and last[2] is NONE else lhs)


def member(c, w, st, u, lhs, y, rep):
    _, L, src, cases = u
    S = mk('IDX', 'σ')
    row = mk('BMROW', mat(y), PR.usz(lhs))
    fwd = [mk('ELEM', 'σ', row), mk('BM', mat(y), PR.usz(lhs), S)]
    bwd = mk('BM', mat(y), S, PR.usz(lhs))
    d = pointdef(src)
    for k, us in renloop(cases, L, mk('ELEM', 'σ', src), S):
        # the row's bits, written position by position
        alts = [(k, None)]
        if d is not None:
            L2, src2, cs2 = d
            alts = []
            bit = mk('ELEM', 'σ', src)
            pol = next((p for a, p in k if a is bit), None)
            for k2, v in cs2:
                k3 = renloop(k2, L2, mk('ELEM', 'σ', src2), S)
                if pol is None:
                    alts = [(k, None)]
                    break
                if isC(v):
                    if bool(v.a[0]) == pol:
                        alts.append((tuple(x for x in k if x[0] is not bit) + tuple(k3), v))
                else:
                    v3 = renloop(v, L2, mk('ELEM', 'σ', src2), S)
                    alts.append((tuple(x for x in k if x[0] is not bit) + tuple(k3) + ((v3, pol),), v))
        for kk, _ in alts:
            s = st.fork()
            s.conds = ()
            if not learn_all(s, kk):
                continue
            for s2 in c.split(s, [fwd[0], bwd]):
                f_ = s2.truth(fwd[0])
                if f_ is None:
                    f_ = s2.truth(fwd[1])
                ins = f_ and s2.truth(bwd)
                pr = all(precise(a) for a, _ in s2.conds)
                hit = [x for x in us if x[0] == 'MINS']
                g = gsym('sym', S)
                if hit:
                    okk = hit[0][1] is g and hit[0][2] is some(rep)
                    other = hit[0][1] is g and hit[0][2] in (some(lhs), some(at(R(mk('ELEM', 'ρ', rules(y)), 'rhs'), C(0)))) and not okk
                    c.res(okk if ins and okk else (False if pr and (other or not ins) else None), 'table', w, 'members of the cycle are listed', 'when %s' % showconds(s2.conds)[:300])
                else:
                    c.res(True if not ins else (False if pr else None), 'table', w, 'members of the cycle are listed', 'omitted when %s' % showconds(s2.conds)[:300])


def pointdef(t):
    """LUPD that writes every position"""
    if t.op == 'LUPD':
        L, init, src, cases = t.a
        out = []
        for k, us in cases:
            if len(us) != 1 or us[0][0] != 'STORE' or us[0][1] is not mk('IDX', L):
                return None
            out.append((k, us[0][2]))
        return L, src, out
    return None


PARTS = [analysis, remove, rewrite]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p22', 'build', 'unit'), ('p22', 'steps', ''), ('p22', 'read', 'index')]
