"""Usefulness of rules."""
from fix import *
import models

TECHNIQUE = ('abstract interpretation of MIR: the analysis is expressed over symbol-set queries, right-hand-side closures and the reachability relation (decided separately); '
             'the per-rule verdict and the removed rules are compared with the definition')

US = 'useful::Usefulness'
SET = 'symbol_bit_set::SymbolBitSet'
bv = lambda v: F(v, SET, 'bit_vec')


def cf(v, n):
    return F(v, 'cfg::Cfg', n)


def prod(u):
    return bv(F(u, US, 'productivity'))


def reach(u):
    return bv(F(u, US, 'reachable_syms'))


def mat(u):
    v = F(u, US, 'reachability')
    v = fld(v, full('ReachabilityMatrix'), 0, 0)
    return F(v, 'SymbolBitMatrix', 'bit_matrix')


def leaves(t):
    if t.op == 'BVOR':
        return set().union(*[leaves(x) for x in t.a])
    if t.op == 'SEQ' and all(p.op == 'REP' and isC(p.a[0]) and p.a[0].a[0] == 0 for p in t.a):
        return set()
    return {t}


def known(t):
    return all(x.op in ('QSET', 'RHSCL') for x in leaves(t)) and not mentions(t, ('CALL', 'OPQ', 'LOOPV', 'LUPD', 'AFTER'))


def new(c):
    c.rule('sets', 'productive = closure under "all" of terminals and symbols with an empty rule; reachable starts with the unused symbols; reachability is reflexive')
    g = mk('SYM', 'g')
    rules = cf(g, 'rules')
    s = c.summary('Usefulness::new', ['g'], prims=PR.SETS)
    if not s:
        return
    w = s.fn.n
    q = lambda k: mk('QSET', k, rules)
    for st, ret in s.outs:
        ret = st.norm(ret)
        check_new(c, w, st, ret, rules)


def check_new(c, w, st, ret, rules):
    q = lambda k: mk('QSET', k, rules)
    p = prod(ret)
    ls = leaves(p)
    cl = [x for x in ls if x.op == 'RHSCL']
    rest = ls - set(cl) - {q('unused'), q('terminal'), q('nulling')}
    okk = None
    if len(cl) == 1 and not rest:
        mode, gr, inner = cl[0].a
        li = leaves(inner)
        if gr is rules and known(inner):
            if mode != 'All':
                okk = False
            else:
                # unused symbols are terminals
                okk = li - {q('unused')} == {q('terminal'), q('nulling')} 
        elif gr is rules and not mentions(inner, ('CALL', 'OPQ', 'AFTER')):
            okk = None
    elif not cl and not rest:
        okk = False
    elif rest and all(x.op in ('QSET', 'RHSCL') for x in ls) and known(p):
        okk = None
    c.res(okk, 'sets', w, 'productive symbols', show(p)[:300])
    r = leaves(reach(ret))
    c.res(True if r == {q('unused')} else (False if known(reach(ret)) and (all(x.op == 'QSET' for x in r) or q('unused') in r and all(x.op in ('QSET', 'RHSCL') for x in r)) else None), 'sets', w, 'reachable symbols start with the unused ones', show(reach(ret))[:300])
    m = mat(ret)
    ops = []
    while m.op in ('RCL', 'TCL'):
        ops.append(m.op)
        m = m.a[0]
    isr = m is mk('REL', 'reach', rules) or (m is mk('REL', 'direct', rules) and 'TCL' in ops)
    c.res((True if 'RCL' in ops else False) if isr else (False if m.op == 'REL' else None), 'sets', w, 'reachability is the reflexive reachability relation', show(mat(ret))[:300])


def reachable(c):
    c.rule('mark', 'reachable(): every symbol of the row of every given symbol becomes reachable, nothing else changes')
    u, syms = mk('SYM', 'u'), mk('SYM', 'syms')
    s = c.summary('Usefulness::reachable', ['u', 'syms'], prims=PR.SETS)
    for st, ret in (s.outs if s else ()):
        out = s.cell(st, 'u')
        markrows(c, 'mark', s.fn.n, st, reach(out), reach(u), mat(u), syms)
        c.same('mark', s.fn.n, st, prod(out), prod(u), 'productivity is kept')
        c.same('mark', s.fn.n, st, mat(out), mat(u), 'the relation is kept')


def markrows(c, rule, w, st, t, t0, m, syms):
    what = 'marks every symbol reachable from the given ones'
    init, ups = unwind(st.norm(t))
    c.same(rule, w, st, init, t0, 'keeps what was reachable')
    if not ups:
        c.res(False if init is t0 and st.truth(eq(length(syms), C(0))) is not True else None, rule, w, what, 'nothing is marked when %s' % showconds(st.conds)[:200])
        return
    for u in ups:
        if u[0] != 'LUPD':
            c.inc(rule, w, what, 'update outside a loop')
            continue
        if part_of(u[2]) is syms:
            c.viol(rule, w, what, 'only some of the given symbols: %s' % show(u[2])[:200])
            continue
        if base(u[2]) is not syms:
            c.inc(rule, w, what, 'loop over %s' % show(u[2])[:200])
            continue
        E = mk('ELEM', 'ρ', syms)
        row = mk('BMROW', m, PR.usz(E))
        for k, us in renloop(u[3], u[1], E):
            s2 = st.fork()
            if not learn_all(s2, k):
                continue
            hit = [x for x in us if x[0] == 'LUPD' and (base(x[2]) is row or part_of(x[2]) is row)]
            if not hit:
                pr = not us and all(precise(a) for a, _ in k)
                c.res(False if pr and k else None, rule, w, what, 'skips a given symbol when %s' % showconds(k)[:200])
                continue
            for x in hit:
                if part_of(x[2]) is row:
                    c.viol(rule, w, what, 'only a part of the row')
                    continue
                S = mk('ELEM', 'σ', row)
                for k2, us2 in renloop(x[3], x[1], S, mk('IDX', 'σ')):
                    for s3 in c.split_from(s2, k2, [S]):
                        on = s3.truth(S)
                        st1 = [y for y in us2 if y[0] == 'STORE' and y[1] is mk('IDX', 'σ')]
                        oth = [y for y in us2 if y not in st1]
                        pr = all(precise(a) for a, _ in k2)
                        alr = already(k2, mk('IDX', 'σ'), 1)
                        if oth:
                            c.inc(rule, w, what, 'not understood')
                        elif on:
                            c.res(True if st1 and st1[-1][2] is TRUE or alr else (False if pr and (not st1 or precise(st1[-1][2])) else None), rule, w, what, 'when %s' % showconds(k2)[:200])
                        else:
                            c.res(True if not st1 else (False if pr and isC(st1[-1][2]) else None), rule, w, 'marks nothing else', 'when %s: %s' % (showconds(k2)[:200], show(st1[-1][2]) if st1 else ''))


def verdict(c):
    c.rule('verdict', 'a rule is productive iff all its right-hand-side symbols are, reachable iff its left-hand side is; summaries and removal agree with it')
    u, r = mk('SYM', 'u'), mk('SYM', 'r')
    s = c.summary('Usefulness::usefulness', ['u', 'r'], prims=PR.SETS)
    for st, ret in (s.outs if s else ()):
        x = F(ret, 'UsefulnessForRule', 'usefulness')
        rule_verdict(c, s, st, F(x, 'RuleUsefulness', 'productive'), F(x, 'RuleUsefulness', 'reachable'), u, r)
        c.same('verdict', s.fn.n, st, F(ret, 'UsefulnessForRule', 'rule'), r, 'names the rule')
    for nm, sets in (('all_useful', [prod(u), reach(u)]), ('all_productive', [prod(u)]), ('all_reachable', [reach(u)])):
        s = c.summary('Usefulness::' + nm, ['u'], prims=PR.SETS)
        for st, ret in (s.outs if s else ()):
            ats = [qall(b, lambda e: e) for b in (prod(u), reach(u))]
            boolres(c, 'verdict', s.fn.n, st, ret, lambda s2: all(s2.truth(qall(b, lambda e: e)) for b in sets), ats, 'true exactly when all symbols are',
                    ok=lambda a: precise(a))
    s = c.summary('Usefulness::productivity', ['u', 'x'], prims=PR.SETS)
    for st, ret in (s.outs if s else ()):
        a = at(prod(u), PR.usz(mk('SYM', 'x')))
        ret = s.I.deref_deep(st, ret)
        if ret is a:
            c.ok('verdict', s.fn.n, 'productivity of the symbol')
        else:
            boolres(c, 'verdict', s.fn.n, st, ret, lambda s2: s2.truth(a), [a], 'productivity of the symbol')
    g = mk('SYM', 'g')
    rules = cf(g, 'rules')
    s = c.summary('Usefulness::useless_rules', ['u', 'g'], prims=PR.SETS)
    for st, ret in (s.outs if s else ()):
        for s2, v in models.collect_seq(s.I, st.fork(), ret, ('collect',), 'iter'):
            filt(c, 'verdict', s.fn.n, s2, v, rules, u, False, 'lists exactly the useless rules', lambda e: F(e, 'UsefulnessForRule', 'rule'))
    s = c.summary('Usefulness::remove_useless_rules', ['u', 'g'], prims=PR.SETS)
    for st, ret in (s.outs if s else ()):
        out = s.cell(st, 'g')
        removed(c, s, st, out, g, u)


def removed(c, s, st, out, g, u):
    rules = cf(g, 'rules')
    v = st.norm(cf(out, 'rules'))
    ats = [qall(prod(u), lambda e: e), qall(reach(u), lambda e: e)]
    what = 'keeps exactly the useful rules'
    if v is rules:
        for s2 in c.split(st, ats):
            c.res(True if all(s2.truth(a) for a in ats) else (False if all(precise(a) for a, _ in s2.conds) else None), 'verdict', s.fn.n, what, 'nothing is removed when %s' % showconds(s2.conds)[:300])
    else:
        filt(c, 'verdict', s.fn.n, st, v, rules, u, True, what)
    for n in ('sym_source', 'roots', 'wrapped_roots', 'rhs_len_invariant', 'eliminate_nulling', 'lexemes'):
        c.same('verdict', s.fn.n, st, cf(out, n), cf(g, n), 'nothing else in the grammar changes')


def useful_atoms(u, e):
    return [qall(R(e, 'rhs'), lambda x: at(prod(u), PR.usz(x))), at(reach(u), PR.usz(R(e, 'lhs')))]


def filt(c, rule, w, st, v, rules, u, keep, what, proj=lambda e: e):
    J = joint(st, v, rules)
    if J is None:
        ps = parts(v)
        if len(ps) == 1 and ps[0].op == 'SUB' and ps[0].a[0] is rules:
            c.viol(rule, w, what, 'a slice of the rules')
            return
        c.inc(rule, w, what, show(v)[:200])
        return
    E = mk('ELEM', 'J', rules)
    for s, items in J:
        for s2 in c.split(s, useful_atoms(u, E)):
            useful = all(s2.truth(a) for a in useful_atoms(u, E))
            expect = useful == keep
            pr = all(precise(a) for a, _ in s2.conds)
            if expect:
                if len(items) == 1 and items[0].op == 'ONE':
                    r, why = cmp3(s2, proj(items[0].a[0]), E)
                    c.res(r, rule, w, what, why)
                else:
                    c.res(False if pr and all(i.op == 'ONE' for i in items) else None, rule, w, what, 'dropped when %s' % showconds(s2.conds[-6:])[:400])
            else:
                c.res(True if not items else (False if pr else None), rule, w, what, 'kept when %s' % showconds(s2.conds[-6:])[:400])


def rule_verdict(c, s, st, p, q, u, r):
    ats = useful_atoms(u, r)
    boolres(c, 'verdict', s.fn.n, st, p, lambda s2: s2.truth(ats[0]), ats[:1], 'productive iff all right-hand-side symbols are') if p is not ats[0] else c.ok('verdict', s.fn.n, 'productive iff all right-hand-side symbols are')
    boolres(c, 'verdict', s.fn.n, st, q, lambda s2: s2.truth(ats[1]), ats[1:], 'reachable iff the left-hand side is') if q is not ats[1] else c.ok('verdict', s.fn.n, 'reachable iff the left-hand side is')


def entry(c):
    c.rule('entry', 'usefulness() starts from the roots of the grammar, usefulness_with_roots() from the given ones; make_proper() removes useless rules and reports whether there were none')
    g = mk('SYM', 'g')
    rules = cf(g, 'rules')
    U0 = mk('SYM', 'U')

    def p_new(I, st, f, vs, site):
        gg = PR.rulekey(I, st, vs[0])
        return [(st, mk('SYM', 'U' if gg is rules else 'Uother'))]
    base_ = dict(PR.SETS)
    base_['Usefulness::new'] = p_new
    base_['Usefulness::reachable'] = rec('reachable')
    base_['Usefulness::remove_useless_rules'] = rec('remove')
    roots_ = (cf(g, 'roots'), mk('SYM', 'roots'))
    for nm, want in (('usefulness', cf(g, 'roots')), ('usefulness_with_roots', mk('SYM', 'roots'))):
        s = c.summary('CfgClassifyExt>::' + nm, ['g', 'roots'], prims=base_)
        for st, ret in (s.outs if s else ()):
            ev = events(st, 'reachable')
            if len(ev) != 1:
                # besides the roots, only what is taken from them may be marked
                args = [st.norm(e[1][1]) for e in ev]
                other = [a for a in args if any(a is r for r in roots_ if r is not want)]
                c.res(False if ret is U0 and (not ev or other) else None, 'entry', s.fn.n, 'marks what the roots reach', '%d calls%s' % (len(ev), ', one with other symbols: %s' % show(other[0])[:80] if other else ''))
                continue
            c.same('entry', s.fn.n, st, ev[0][1][1], want, 'marks what the roots reach')
            c.same('entry', s.fn.n, st, s.cell(st, 'g') or g, g, 'the grammar is unchanged')
    b2 = dict(base_)

    def p_us(I, st, f, vs, site):
        st.event('use', tuple(I.deref_deep(st, v) for v in vs))
        return [(st, U0)]
    b2['CfgClassifyExt::usefulness'] = p_us
    s = c.summary('CfgClassifyExt>::make_proper', ['g'], prims=b2)
    u = U0
    ats = [qall(prod(u), lambda e: e), qall(reach(u), lambda e: e)]
    for st, ret in (s.outs if s else ()):
        if len(events(st, 'use')) != 1:
            c.inc('entry', s.fn.n, 'uses the usefulness analysis')
            continue
        boolres(c, 'entry', s.fn.n, st, ret, lambda s2: all(s2.truth(a) for a in ats), ats, 'true exactly when nothing was useless')
        rm = events(st, 'remove')
        for s2 in c.split(st, ats):
            allu = all(s2.truth(a) for a in ats)
            if not allu:
                c.res(True if len(rm) == 1 else (False if all(precise(a) for a, _ in s2.conds) and not rm and st.norm(s.cell(st, 'g')) is g else None), 'entry', s.fn.n, 'useless rules are removed', 'when %s' % showconds(s2.conds)[:300])
            else:
                c.ok('entry', s.fn.n, 'useless rules are removed')


PARTS = [new, reachable, verdict, entry]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p08', 'setclosure', ''), ('p14', 'queries', 'nulling|terminal|productive'), ('p14', 'ops', '::iter|index'), ('p22', 'build', 'reach|direct'), ('p22', 'steps', ''), ('p22', 'read', '')]
