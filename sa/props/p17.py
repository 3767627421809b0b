"""Recursive rules, the kind of their recursion and the distances reported with them."""
import itertools

from fix import *
from props.p13 import CR, F, Unk, VAGUE, aliasings, grammar, impl_fn, prims, terms_of

TECHNIQUE = ('abstract interpretation of MIR: the iterators over recursive rules are driven symbolically over rule lists of bounded shape with an unknown reachability matrix; every reported rule, kind and '
             'distance is compared with the definition on every path')

RR = 'recursive::RecursiveRule'
RK = 'recursive::RecursionKind'
SHAPES = [[[]], [['a']], [['a', 'b']], [['a', 'b', 'c']], [['a'], ['b']], [['a'], []], [[], ['a', 'b']]]
WIDE = [[(mk('DSYM', 'l'), [mk('DSYM', x) for x in 'pqrstuv'])], [(mk('DSYM', 'l'), [mk('DSYM', x) for x in 'pqrs'])], [(mk('DSYM', 'l'), [mk('DSYM', x) for x in 'pqrst'])],
        [(mk('DSYM', 'l'), [mk('DSYM', 'l')] * 4)], [(mk('DSYM', 'l'), [mk('DSYM', 'p'), mk('DSYM', 'p'), mk('DSYM', 'p'), mk('DSYM', 'q')])]]
MAX = C(2 ** 32 - 1)


def worlds():
    for sh in SHAPES:
        for rs in aliasings(sh):
            yield rs
    for rs in WIDE:
        yield rs


def dist(i, k):
    t = mk('SYM', 'd%d_%d' % (i, k))
    return t


def hooks(c, rs):
    pr = prims(c)
    ds = seqof([seqof([dist(i, k) for k in range(len(r) + 1)]) for i, (l, r) in enumerate(rs)])

    def run_(I, st, f, vs, site):
        st.event('distances', I.deref_deep(st, vs[1]), I.deref_deep(st, vs[2]))
        return [(st, ds)]

    def read(I, st, f, vs, site):
        return [(st, ds)]
    pr['MinimalDistance::minimal_distances'] = run_
    pr['MinimalDistance::distances'] = read
    pr['MinimalDistance::new'] = lambda I, st, f, vs, site: [(st, mk('MINDIST', I.deref_deep(st, vs[0])))]
    return pr


def atom_of(c, g, pr):
    """how the analysed reachability matrix answers: a function from two symbols to an atom"""
    m = mk('REL', 'reach', F(g, 'cfg::Cfg', 'rules'))
    return lambda a, b: mk('BM', m, PR.usz(a), PR.usz(b))


def pairs(t):
    out = []
    while t.op in ('SORT',):
        t = t.a[0]
    if t is EMPTY:
        return out
    if t.op != 'SEQ':
        return None
    for p in t.a:
        if p.op != 'ONE' or p.a[0].op != 'TUP' or not all(isC(x) for x in p.a[0].a):
            return None
        out.append(tuple(x.a[0] for x in p.a[0].a))
    return out


def run(c):
    c.rule('rules', 'recursive_rules() reports, in order, exactly the rules some right-hand-side symbol of which derives the left-hand side: left for the first symbol, right for the last, middle for any strictly between; no distances')
    c.rule('dots', 'minimal_distances() measures from exactly the recursive positions, in both directions, and reports for the same rules the distances at the start and at the end')
    entry(c)
    for rs in worlds():
        one_world(c, rs)


def entry(c):
    f = impl_fn(c, 'CfgClassifyExt::recursion', 'Cfg')
    if f is None:
        return
    s = c.summary(f, ['g'], prims=prims(c))
    t = c.summary('Recursion::new', ['g'], prims=prims(c))
    if s and t and len(s.outs) == 1 and len(t.outs) == 1:
        a, b = [x.outs[0][0].norm(x.I.deref_deep(x.outs[0][0], x.outs[0][1])) for x in (s, t)]
        c.same('rules', 'CfgClassifyExt::recursion', s.outs[0][0], a, b, 'the recursion of another grammar')


def one_world(c, rs):
    g = grammar(terms_of(rs))
    tag = '; '.join('%s -> %s' % (show(l), ' '.join(map(show, r)) or 'nothing') for l, r in rs)
    pr = hooks(c, rs)
    bm = atom_of(c, g, pr)

    def pre(st):
        for l, r in rs:
            # a left-hand side derives every symbol of its rules
            for x in r:
                st.learn(bm(l, x), True)
    s = c.summary('Recursion::new', [g], prims=pr, pre=pre)
    if not s:
        return
    for st, rec in s.outs:
        rec = st.norm(s.I.deref_deep(st, rec))
        drive(c, rs, tag, bm, pr, pre, rec, 'Recursion::recursive_rules', False)
        drive(c, rs, tag, bm, pr, pre, rec, 'Recursion::minimal_distances', True)


def drive(c, rs, tag, bm, pr, pre, rec, name, far):
    rule = 'dots' if far else 'rules'
    s = c.summary(name, [rec], prims=pr, pre=pre)
    if not s:
        return
    if not s.outs:
        c.viol(rule, name, tag, 'no iterator is returned')
    for st, it in s.outs:
        it = st.norm(s.I.deref_deep(st, it))
        evs = events(st, 'distances')
        steps(c, rs, tag, bm, pr, pre, name, far, rule, st.conds, it, [], evs)


def steps(c, rs, tag, bm, pr, pre, name, far, rule, conds, it, got, evs):
    if it.op != 'ADT':
        # an adaptor of the standard library: its items are read off the sequence
        if it.op == 'IT':
            it = it.a[0]
        c.inc(rule, name, tag, 'iterator %s' % show(it)[:200])
        return
    f = impl_fn(c, 'Iterator::next', it.a[0].split('::')[-1])
    if f is None:
        return

    def pre2(st):
        pre(st)
        for a, p in conds:
            st.learn(a, p)
    s = c.summary(f, [it], prims=pr, pre=pre2)
    if not s:
        return
    if not s.outs:
        c.viol(rule, name, tag, 'the iterator never answers')
    for st, r in s.outs:
        r = st.norm(s.I.deref_deep(st, r))
        x = st.truth(is_some(r)) if r.op != 'ADT' else r.a[1] == 1
        if x is None:
            c.inc(rule, name, tag, show(r)[:200])
            continue
        ev2 = evs + events(st, 'distances')
        if not x:
            finish(c, rs, tag, bm, name, far, rule, st, got, ev2)
            continue
        if len(got) > len(rs):
            c.viol(rule, name, tag, 'more rules are reported than there are')
            continue
        steps(c, rs, tag, bm, pr, pre, name, far, rule, st.conds, st.norm(st.cells[('in', 'a1')]), got + [r.a[2][0]], ev2)


def finish(c, rs, tag, bm, name, far, rule, st0, got, evs):
    known = {y for l, r in rs for x in r for y in (bm(x, l), bm(l, x))} | {is_some(dist(i, k)) for i, (l, r) in enumerate(rs) for k in range(len(r) + 1)}
    odd = [a for a, p in st0.conds if a not in known]
    if odd:
        c.inc(rule, name, tag, 'depends on ' + show(odd[0])[:300])
        return
    for st in c.split(st0, [bm(x, l) for l, r in rs for x in r]):
        T_ = lambda a, b: bool(st.truth(bm(a, b)))
        want, dots = [], []
        for i, (l, r) in enumerate(rs):
            v = [T_(x, l) for x in r]
            dots += [(i, k) for k, b in enumerate(v) if b]
            if any(v):
                want.append((i, v[0], any(v[1:-1]), v[-1], len(r)))
        when = 'for %s where %s' % (tag, ', '.join('%s derives %s' % (show(x), show(l)) for x, l in sorted({(x, l) for l, r in rs for x in r if T_(x, l)}, key=str)) or 'nothing derives')
        if len(want) != len(got):
            c.viol(rule, name, 'rules', '%s: %d rules reported instead of %d' % (when, len(got), len(want)))
            continue
        for (i, le_, mi, ri, n), v in zip(want, got):
            try:
                k = F(v, RR, 'recursion')
                vals = [st.truth(st.norm(F(k, RK, x))) for x in ('left', 'middle', 'right')]
                rl = st.norm(F(v, RR, 'rule'))
                d = st.norm(F(v, RR, 'distances'))
            except (KeyError, Missing) as e:
                c.inc(rule, name, 'fields', str(e))
                continue
            if None in vals:
                c.inc(rule, name, tag, show(k)[:200])
                continue
            ok = vals == [le_, mi, ri]
            c.res(ok, rule, name, 'kind', '%s: left, middle, right are %s instead of %s' % (when, vals, [le_, mi, ri]))
            want_rule = terms_of(rs)[i]
            if mentions(rl, VAGUE):
                c.inc(rule, name, tag, show(rl)[:200])
            else:
                c.res(rl is want_rule, rule, name, 'rule', '%s: %s reported instead of %s' % (when, show(rl)[:200], show(want_rule)))
            if not far:
                c.res(d is NONE or (None if d.op != 'ADT' else False), rule, name, 'distance', '%s: distances %s' % (when, show(d)[:100])) if d is NONE or d.op == 'ADT' else c.inc(rule, name, tag, show(d)[:100])
            else:
                ends(c, rule, name, when, st, d, i, n)
        if far:
            if len(evs) != 1:
                c.res(False, rule, name, 'measured', '%s: distances are computed %d times' % (when, len(evs))) if not evs else c.inc(rule, name, 'measured', '%d computations' % len(evs))
                continue
            lst, dr = st.norm(evs[0][1]), st.norm(evs[0][2])
            have = pairs(lst)
            if have is None or dr.op != 'ADT':
                c.inc(rule, name, tag, show(lst)[:200])
                continue
            c.res(sorted(set(have)) == sorted(dots), rule, name, 'positions', '%s: measured from %s instead of %s' % (when, sorted(have), dots))
            c.res(ADTS[dr.a[0]]['v'][dr.a[1]]['n'] == 'Symmetric', rule, name, 'direction', 'direction %s' % show(dr))


def ends(c, rule, name, when, st, d, i, n):
    if d.op != 'ADT' or d.a[1] != 1 or d.a[2][0].op != 'TUP':
        c.res(False, rule, name, 'distance', '%s: no distances' % when) if d is NONE else c.inc(rule, name, 'distance', show(d)[:200])
        return
    for t, k, nm in zip(d.a[2][0].a, (0, n), ('start', 'end')):
        o = dist(i, k)
        for q in c.split(st, [is_some(o)]):
            want = q.norm(unsome(o)) if q.truth(is_some(o)) else MAX
            t2 = q.norm(t)
            if mentions(t2, VAGUE):
                c.inc(rule, name, nm, show(t2)[:200])
                continue
            c.res(t2 is want or q.truth(eq(t2, want)) is True, rule, name, nm, '%s: distance %s instead of %s' % (when, show(t2)[:100], show(want)))


PARTS = [run]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p22', 'build', 'reach|direct'), ('p22', 'steps', ''), ('p22', 'read', '')]
