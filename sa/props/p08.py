"""Closures over right-hand sides compute the least fixpoint."""
from fix import *

TECHNIQUE = ('abstract interpretation of MIR: the work-list loop of each closure is reduced to its inductive step, and the step is checked for '
             'soundness, propagation, completeness, seeding, rule indexing and exit condition')


def cf(v, n):
    return F(v, 'cfg::Cfg', n)


SET = 'symbol_bit_set::SymbolBitSet'


def closure(c, name, args, rule, kind):
    """kind(st) -> 'all'|'any'|'val'|None"""
    s = c.summary(name, args)
    if not s:
        return
    c.cur = s
    w = s.fn.n
    g, p = mk('SYM', args[0]), mk('SYM', args[1])
    rules = cf(g, 'rules')
    p0 = p if kind == 'val' else F(p, SET, 'bit_vec')
    done = set()
    for st, ret in s.outs:
        c.same(rule, w, st, s.cell(st, args[0]), g, 'the grammar is not changed') if s.cell(st, args[0]) is not None else None
        stack = [k for k in st.cells if isinstance(k, tuple) and k[0] == 'refcell']
        for k in stack:
            v = st.norm(st.cells[k])
            r = True if v is EMPTY else (False if free_leaf_seq(v) or any(q.op == 'ONE' for q in parts(v)) else None)
            if v.op == 'LV':
                r = st.truth(eq(length(v), C(0)))
            c.res(r, rule, w, 'the scratch stack is left empty', show(v)[:200])
        top = [e[1] for e in st.ev if e[0] == 'loop']
        W = next((r for r in top if any(i is p0 for _, i in r.havoc.values()) and r.src is None), None)
        if W is None:
            rr = next((r for r in top if any(i is p0 for _, i in r.havoc.values())), None)
            if rr is None and not any(i is p0 for r, _ in alloops(st) for _, i in r.havoc.values()):
                outp = st.norm(s.cell(st, args[1]))
                n0 = any(st.truth(eq(length(x), C(0))) for x in (p0, rules))
                c.res(True if n0 else (False if outp is p else None), rule, w, 'the property is propagated', 'unchanged when %s' % showconds(st.conds)[:200])
            elif rr is not None and rr.src is not None and base(rr.src) is rules:
                # one pass over the rules cannot be transitive
                c.viol(rule, w, 'the property is propagated', 'a single pass over the rules, not repeated until nothing changes')
            else:
                c.inc(rule, w, 'work-list loop')
            continue
        key = (W.id, tuple(sorted(i.n for _, i in W.havoc.values())))
        if key in done:
            continue
        done.add(key)
        worklist(c, s, st, W, g, p0, rules, rule, w, kind)


def free_leaf_seq(v):
    return free_leaf(v) or (v.op == 'CONTENT')


def worklist(c, s, st, W, g, p0, rules, rule, w, kind):
    ploc = next(l for l, (lv, i) in W.havoc.items() if i is p0)
    # stack: location popped in the loop
    sloc = None
    for l, (lv, i) in W.havoc.items():
        if l == ploc:
            continue
        for k, conds, evs, s2 in W.cases:
            if k == 'back':
                v = s.I.readloc(s2, *l)
                ps = parts(v)
                if ps and ps[0].op == 'SUB' and ps[0].a[0] is lv:
                    sloc = l
    if sloc is None:
        # repeated passes: the loop may end only after a pass that changed nothing
        c.inc(rule, w, 'work-list loop', 'no popped list')
        return
    S, sinit = W.havoc[sloc]
    # seeding
    mem = (lambda x: is_some(x)) if kind == 'val' else (lambda x: x)
    e = mk('ELEM', 'seed', p0)
    a = mem(e)
    want = mk('COMP', 'seed', p0, ((((a, True),), (one(gsym('sym', mk('IDX', 'seed'))),)), (((a, False),), ())))
    ps = [q for q in parts(st.norm(sinit)) if not (q.op == 'ALL' and q.a[0].op == 'CONTENT')]
    c.same(rule, w, st, seq(ps), mk('SEQ', want), 'work starts with every symbol that has the property')
    # exits
    for k, conds, evs, s2 in W.cases:
        if k in ('exit', 'ret', 'brk'):
            # evaluated on the popped list before it is cleared
            t = any(s2.truth(x) for x in (eq(length(S), C(0)), lt(length(S), C(1))))
            c.res(True if t else (False if all(prec2(x) for x, _ in conds) else None), rule, w, 'work ends only when the list is empty', showconds(conds)[:300])
    # index
    ms = set()
    for k, conds, evs, s2 in W.cases:
        if k != 'back':
            continue
        v = parts(s.I.readloc(s2, *sloc))
        # exactly one symbol taken
        inner = [e[1] for e in evs if e[0] == 'loop' and any(i is W.havoc[ploc][0] for _, i in e[1].havoc.values())]
        for a, pol in conds:
            if a.op == 'MHAS' and not pol:
                inner = inner or ['none']
        if not inner:
            unt = s.I.readloc(s2, *ploc) is W.havoc[ploc][0]
            c.res(None if not unt else False if all(prec2(x) for x, _ in conds) else None, rule, w, 'every rule with the symbol on its right-hand side is examined', 'skipped when %s' % showconds(conds)[:300])
            continue
        for r in inner:
            if r == 'none':
                c.ok(rule, w, 'every rule with the symbol on its right-hand side is examined')
                continue
            src = base(r.src) if r.src is not None else None
            sl = src.a[0] if src is not None and src.op == 'SEQ' and len(src.a) == 1 and src.a[0].op == 'SUB' else None
            if sl is not None and (base(sl.a[0]) is rules or sl.a[0].op == 'FLD' and sl.a[0].a[0].op == 'MVAL'):
                rs = [must(s2, eq(sl.a[1], C(0))), must(s2, le(length(sl.a[0]), sl.a[2]))]
                f = isC(sl.a[1]) and isC(sl.a[2]) or isC(sl.a[1]) and sl.a[1].a[0] > 0
                c.res(False if f or (False in rs and prec2(sl)) else None, rule, w, 'every rule with the symbol on its right-hand side is examined', 'only a part of the list: %s' % show(src)[-200:])
                continue
            if src is rules:
                rho = elem(r.id, r.src)
            elif src is not None and src.op == 'FLD' and src.a[0].op == 'MVAL':
                m, key = src.a[0].a[0], src.a[0].a[1]
                sz = length(S)
                kk = at(S, sub(sz, C(1)))
                c.res(True if key is kk or key is at(S, C(0)) else None, rule, w, 'every rule with the symbol on its right-hand side is examined', show(key)[:200])
                if m not in ms:
                    ms.add(m)
                    fldsel = src
                    occ_index(c, rule, w, st, rules, m, lambda v, f=src: fld(v, f.a[1], f.a[2], f.a[3]))
                rho = at(rules, elem(r.id, r.src))
            else:
                c.inc(rule, w, 'every rule with the symbol on its right-hand side is examined', show(r.src)[:200] if r.src else '')
                continue
            step(c, s, r, W, ploc, sloc, rho, rule, w, kind)


def prec2(a):
    return not mentions(a, ('CALL', 'AFTER', 'OPQ', 'UNINIT'))


def step(c, s, r, W, ploc, sloc, rho, rule, w, kind0):
    if ploc not in r.havoc:
        c.inc(rule, w, 'step')
        return
    P = r.havoc[ploc][0]
    S = r.havoc[sloc][0] if sloc in r.havoc else None
    lhs, rhs = R(rho, 'lhs'), R(rho, 'rhs')
    val = lambda x: at(P, PR.usz(x))
    for k, conds, evs, s2 in r.cases:
        if k == 'skip':
            continue
        if k != 'back':
            c.res(False if all(prec2(a) for a, _ in conds) else None, rule, w, 'every rule with the symbol on its right-hand side is examined',
                  'leaves the rules early when %s' % showconds(conds)[:300])
            continue
        newp = s.I.readloc(s2, *ploc)
        news = s.I.readloc(s2, *sloc)
        kinds = [kind0]
        if kind0 == 'mode':
            m = mk('SYM', 'mode')
            t = s2.truth(isvar(m, 'RhsPropertyMode', 'All'))
            kinds = ['all' if t else 'any'] if t is not None else ['all', 'any']
        for kind in kinds:
            s3 = s2
            if kind0 == 'mode' and len(kinds) > 1:
                s3 = s2.fork()
                if not s3.learn(isvar(mk('SYM', 'mode'), 'RhsPropertyMode', 'All'), kind == 'all'):
                    continue
            one_case(c, s, s3, conds, newp, news, P, S, lhs, rhs, val, rule, w, kind)


def one_case(c, s, s2, conds, newp, news, P, S, lhs, rhs, val, rule, w, kind):
    why = 'when %s' % showconds(tuple(short(conds)))[:500]
    pr = all(prec2(a) for a, _ in conds)
    if kind == 'val':
        cond = all_fact(s2, rhs, lambda e: is_some(val(e)))
    elif kind == 'all':
        cond = all_fact(s2, rhs, lambda e: val(e))
    else:
        cond = any_fact(s2, rhs, lambda e: val(e))
    has = s2.truth(is_some(val(lhs)) if kind == 'val' else val(lhs))
    total = mk('SUMOF', rhs, unsome(val(mk('ELEM', '•', rhs)))) if kind == 'val' else None
    better = None
    if kind == 'val':
        better = True if has is False else s2.truth(lt(total, unsome(val(lhs))))
    if newp is P:
        if S is not None and news is not S:
            c.res(None, rule, w, 'nothing is queued without a change', why)
        if kind == 'val':
            good = cond is False or better is False
            bad = cond is not False and better is not False
        else:
            good = has is True or cond is False
            bad = has is not True and cond is not False
        c.res(True if good else (False if bad and pr else None), rule, w, 'a rule whose condition holds passes the property on', why)
        return
    if newp.op != 'STORE' or newp.a[0] is not P:
        c.inc(rule, w, 'step update', show(newp)[:200])
        return
    _, ix, v = newp.a
    c.res(True if ix is PR.usz(lhs) else (False if ix.op == 'USZ' and not mentions(ix, ('CALL', 'OPQ')) else None), rule, w, 'the left-hand side receives the property', show(ix)[-200:])
    if kind == 'val':
        c.res(True if v is some(total) else (False if v.op == 'ADT' and lint(v) else None), rule, w, 'the value is the sum over the right-hand side', show(v)[:100])
        c.res(True if better else (False if pr and better is False or pr and better is None and cond is not None and not unknown_cmp(s2, conds) else None), rule, w, 'a value changes only to a smaller one', why)
    else:
        c.res(True if v is TRUE else (False if v is FALSE else None), rule, w, 'the property is set', show(v)[:100])
    c.res(True if cond else (False if pr else None), rule, w, 'the property is passed on only when the rule satisfies its condition', why)
    if S is None or news is S:
        c.res(False if pr else None, rule, w, 'a changed symbol is queued', why)
    else:
        ps = parts(news)
        good = any(q is one(lhs) for q in ps)
        c.res(True if good else (False if all(q.op in ('ONE', 'ALL', 'SUB') for q in ps) else None), rule, w, 'a changed symbol is queued', why)


def lint(v):
    return not mentions(v, ('CALL', 'OPQ', 'LOOPV')) or any(x.op == 'SUMOF' for x in subterms(v))


def unknown_cmp(s2, conds):
    return False


def short(conds):
    return conds[-6:]


def setclosure(c):
    c.rule('set', 'rhs_closure: seeds with all members, examines every rule with the popped symbol, sets and queues the left-hand side exactly when all/any symbols '
                  'have the property and it had it not, ends with an empty list')
    closure(c, 'Cfg::rhs_closure', ['g', 'set', 'mode'], 'set', 'mode')
    for nm, want in (('Cfg::rhs_closure_for_all', 'All'), ('Cfg::rhs_closure_for_any', 'Any')):
        pr = dict(PR.STD)
        pr['Cfg::rhs_closure'] = rec('closure')
        s = c.summary(nm, ['g', 'set'], prims=pr)
        if not s:
            continue
        for st, ret in s.outs:
            ev = events(st, 'closure')
            if len(ev) != 1:
                c.inc('set', s.fn.n, 'delegates to the closure')
                continue
            c.truth('set', s.fn.n, st, isvar(ev[0][1][2], 'RhsPropertyMode', want), True, 'closes under %s' % want)
            c.same('set', s.fn.n, st, ev[0][1][1], mk('SYM', 'set'), 'closes the given set')


def values(c):
    c.rule('values', 'rhs_closure_with_values: least sum over right-hand sides, by decreasing updates only, until nothing changes')
    closure(c, 'Cfg::rhs_closure_with_values', ['g', 'vals'], 'values', 'val')


PARTS = [setclosure, values]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p14', 'ops', '::iter|index|::set ')]
