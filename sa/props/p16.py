"""LL(1) classification of nonterminals."""
import itertools

from fix import *
from props.p13 import CR, FS, PV, F, Unk, grammar, impl_fn, p_firsts, prims, terms_of

TECHNIQUE = ('abstract interpretation of MIR: table construction and classification are summarised together over grammars of bounded shape with given FIRST and FOLLOW sets, the right-hand-side '
             'closure being its least fixpoint; every resulting class map is compared with the definition')

SB = 'symbol_bit_set::SymbolBitSet'
FOL = 'follow::FollowSets'


def D(x):
    return mk('DSYM', x)


def pv(none, ts):
    fs = ADTS[full(PV)]['v'][0]['f']
    return adt(full(PV), 0, [C(none) if f[0] == 'has_none' else seqof([D(t) for t in ts]) for f in fs])


def world(c, rules, first, follow):
    """prims giving the sets of a world; rules: [(lhs, rhs)], first: one (none, terminals) per rule, follow: {lhs: (none, terminals)}"""
    g = grammar(terms_of([(D(l), [D(x) for x in r]) for l, r in rules]))
    pr = prims(c)
    pr['FirstSets::new'] = p_firsts
    sets = {}
    for (l, r), v in zip(rules, first):
        sets[tuple(r)] = v

    def of(I, st, f, vs, site):
        a, b = I.deref_deep(st, vs[0]), I.deref_deep(st, vs[1])
        ffs = ADTS[full(FOL)]['v'][0]['f']
        if a is not g or b.op != 'FIRSTS' and b is not fld(mk('FIRSTS', g), full(FS), 0, 0) or len(ffs) != 1:
            raise Imprecise('follow sets of something else')
        m = mk('MAP0')
        for l in sorted(follow):
            m = mk('MINS', m, D(l), pv(*follow[l]))
        return [(st, adt(full(FOL), 0, [m]))]
    pr['FollowSets::new'] = of

    def string(I, st, f, vs, site):
        a, s = I.deref_deep(st, vs[0]), I.deref_deep(st, vs[1])
        if a.op != 'FIRSTS' or a.a[0] is not g:
            raise Imprecise('FIRST sets of something else')
        if s.op != 'SEQ' or any(p.op != 'ONE' or p.a[0].op != 'DSYM' for p in s.a):
            raise Imprecise('FIRST of ' + show(s)[:100])
        k = tuple(p.a[0].a[0] for p in s.a)
        if k not in sets:
            raise Imprecise('FIRST of another string')
        return [(st, pv(*sets[k]))]
    pr['FirstSets::first_set_for_string'] = string

    def close(any_):
        def h(I, st, f, vs, site):
            cell, path = PR.bitcell(I, st, vs[1])
            if I.deref_deep(st, vs[0]) is not g:
                raise Imprecise('closure over another grammar')
            m = any_
            if m is None:
                m = I.deref(st, vs[2])
                if m.op != 'ADT':
                    raise Imprecise('mode')
                m = ADTS[m.a[0]]['v'][m.a[1]]['n'] == 'Any'
            bits = I.readloc(st, cell, path)
            n, has = members(st, bits, sorted({x for l, r in rules for x in [l] + r}))
            has = closed(rules, has, m)
            I.writeloc(st, cell, path, bitsof(n, has))
            return [(st, UNIT)]
        return h
    pr['Cfg::rhs_closure_for_any'] = close(True)
    pr['Cfg::rhs_closure_for_all'] = close(False)
    pr['Cfg::rhs_closure'] = close(None)
    return g, pr


def members(st, bits, names):
    has = set()
    for x in names:
        u = PR.usz(D(x))
        b = st.norm(bits)
        while True:
            if b.op == 'STORE':
                t = st.truth(eq(b.a[1], u))
                if t is None:
                    raise Imprecise('bit of a symbol %s in %s' % (show(u), show(b)))
                if t:
                    if not isC(b.a[2]):
                        raise Imprecise('bit of a symbol')
                    if b.a[2].a[0]:
                        has.add(x)
                    break
                b = b.a[0]
                continue
            if b.op == 'SEQ' and len(b.a) == 1 and b.a[0].op == 'REP' and isC(b.a[0].a[0]):
                if b.a[0].a[0].a[0]:
                    has.add(x)
                break
            raise Imprecise('bits ' + show(b)[:150])
    return bits, has


def bitsof(bits, has):
    for x in sorted(has):
        bits = mk('STORE', bits, PR.usz(D(x)), TRUE)
    return bits


def closed(rules, has, any_):
    has = set(has)
    while True:
        n = len(has)
        for l, r in rules:
            if any(x in has for x in r) if any_ else (all(x in has for x in r) and r):
                has.add(l)
        if len(has) == n:
            return has


def expected(rules, first, follow):
    """class of every nonterminal that has a row; None where a rule reaches a cell twice"""
    cell = {}
    twice = set()
    for i, ((l, r), (none, ts)) in enumerate(zip(rules, first)):
        for t in ts:
            cell.setdefault((l, t), set()).add(i)
        if none:
            for t in follow[l][1]:
                if t in ts:
                    twice.add(l)
                cell.setdefault((l, t), set()).add(i)
    has = closed(rules, {l for (l, t), v in cell.items() if len(v) > 1}, True)
    if closed(rules, has | twice, True) != has:
        # by the equations of FIRST and FOLLOW another nonterminal below conflicts then: not a world that occurs
        return None
    return {l: l in has for l, t in cell}


TS = [(), ('t',), ('u',), ('t', 'u')]
WORLDS = [
    [('A', [])], [('A', ['x'])],
    [('A', ['x']), ('A', ['y'])], [('A', ['x']), ('A', [])], [('A', ['x']), ('A', ['y']), ('A', ['z'])],
    [('A', ['x']), ('B', ['y'])],
    [('A', ['x']), ('A', ['y']), ('B', ['A'])], [('B', ['w', 'A', 'v']), ('A', ['x']), ('A', ['y'])],
    [('C', ['B']), ('B', ['A', 'w']), ('A', ['x']), ('A', ['y'])],
]


def firsts(rules, thorough):
    for i, (l, r) in enumerate(rules):
        if not r:
            yield [(True, ())]
        elif r[0] in 'BAC' or r[0] == 'w':
            # determined rows above the interesting one: any set does
            yield [(False, ('t',)), (True, ())]
        elif (len(rules) > 3 or len(rules) == 3 and i == 2) and not thorough:
            yield [(False, ('t',)), (False, ('u',)), (True, ())]
        else:
            yield [(n, ts) for n in (False, True) for ts in TS]


def run(c):
    done = 0
    w = 'LlParseTable::classify'
    c.rule('classes', 'a nonterminal is context-free when one of its cells holds two rules or when some right-hand side of its rules holds, directly or not, a context-free nonterminal, and LL(1) otherwise; '
                      'exactly the nonterminals with a nonempty row are classified')
    for rules in WORLDS:
        lhs = sorted({l for l, r in rules})
        for fs in itertools.product(*firsts(rules, c.tier == 'thorough')):
            fols = [[(True, ('t',))] if l in 'BC' and len(rules) > 2 else [(False, ts) for ts in TS[:3]] + [(True, ('t', 'u'))] if any(v[0] for (l2, r), v in zip(rules, fs) if l2 == l) else [(True, ('t',))] for l in lhs]
            for fo in itertools.product(*fols):
                follow = dict(zip(lhs, fo))
                want = expected(rules, fs, follow)
                if want is None:
                    continue
                one_world(c, w, rules, fs, follow, want)


def what(rules, fs, follow):
    return '; '.join('%s -> %s with FIRST {%s}' % (l, ' '.join(r) or 'nothing', ', '.join(list(ts) + ['none'] * n)) for (l, r), (n, ts) in zip(rules, fs)) + '; ' + \
        '; '.join('FOLLOW(%s) = {%s}' % (l, ', '.join(list(ts) + ['end'] * n)) for l, (n, ts) in sorted(follow.items()))


def one_world(c, w, rules, fs, follow, want):
    tag = what(rules, fs, follow)
    try:
        g, pr = world(c, rules, fs, follow)
    except (Missing, KeyError) as e:
        c.inc('classes', w, 'sets', 'layout of the sets not recognised: %s' % e)
        return
    s = c.summary('LlParseTable::new', [g], prims=pr)
    if not s:
        return
    if not s.outs:
        c.viol('classes', 'LlParseTable::new', tag, 'no table is returned')
        return
    for st, ret in s.outs:
        t = st.norm(s.I.deref_deep(st, ret))
        s2 = c.summary(w, [t], prims=pr, pre=lambda q: [q.learn(a, p) for a, p in st.conds])
        if not s2:
            continue
        if not s2.outs:
            c.viol('classes', w, tag, 'no classification is returned')
        for st2, r2 in s2.outs:
            r2 = st2.norm(s2.I.deref_deep(st2, r2))
            s3 = c.summary('LlClassification::classes', [r2], prims=pr, pre=lambda q: [q.learn(a, p) for a, p in st2.conds])
            if not s3:
                continue
            for st3, m in s3.outs:
                m = st3.norm(s3.I.deref_deep(st3, m))
                got = classes_of(m)
                if got is None:
                    c.inc('classes', w, tag, show(m)[:300])
                    continue
                c.res(got == want, 'classes', w, tag, 'classes %s instead of %s' % (name(got), name(want)))


def name(x):
    return '{%s}' % ', '.join('%s: %s' % (k, 'context-free' if v else 'LL(1)') for k, v in sorted(x.items()))


def classes_of(m):
    out = {}
    while m.op == 'MINS':
        k, v = m.a[1], m.a[2]
        if k.op != 'DSYM' or v.op != 'ADT':
            return None
        nm = ADTS[v.a[0]]['v'][v.a[1]]['n']
        if nm not in ('Ll1', 'ContextFree'):
            return None
        out.setdefault(k.a[0], nm == 'ContextFree')
        m = m.a[0]
    return out if m.op == 'MAP0' else None


PARTS = [run]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p13', 'first', ''), ('p13', 'follow', ''), ('p13', 'string', ''), ('p08', 'setclosure', '')]
