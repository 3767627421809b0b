"""wrap_input: every root gets one wrapping rule over three fresh symbols, recorded consistently."""
from fw import *

TECHNIQUE = 'abstract interpretation of MIR: loop summary of the root-wrapping pass compared with its specification per guarded path'


def wrap(c):
    c.rule('wrap', 'for every root r, exactly one new root n with rule n ::= s r e (s, e, n fresh per root); '
                   'record, root list and rule agree; nothing else changes')
    s = c.summary('Cfg::wrap_input', ['self'])
    if s is None:
        return
    where = s.fn.n
    g = mk('SYM', 'self')
    cf = lambda v, n: F(v, 'cfg::Cfg', n)
    for st, ret in s.outs:
        out = s.cell(st, 'self')
        roots0 = cf(g, 'roots')
        wr = st.norm(cf(out, 'wrapped_roots'))
        roots = st.norm(cf(out, 'roots'))
        rules = st.norm(cf(out, 'rules'))
        for n in ('lexemes', 'rhs_len_invariant', 'eliminate_nulling', 'tmp_stack'):
            c.same('wrap', where, st, cf(out, n), cf(g, n), 'leaves %s alone' % n)
        L = 'W'
        # element-wise view of the three results over the original roots
        vw = view(c, st, wr, roots0, where, 'record list')
        vr = view(c, st, roots, roots0, where, 'root list')
        pr = list(parts(rules))
        if pr and pr[0].op == 'ALL' and pr[0].a[0] is cf(g, 'rules'):
            vu = view(c, st, seq(pr[1:]), roots0, where, 'new rules')
            c.ok('wrap', where, 'existing rules kept in front')
        else:
            vu = None
            c.same('wrap', where, st, rules, concat(cf(g, 'rules'), rules), 'existing rules kept in front')
        if not (vw and vr and vu):
            continue
        (L1, w1), (L2, r1), (L3, u1) = vw, vr, vu
        e = mk('ELEM', 'W', roots0)
        w1, r1, u1 = [inst(x, l, e, mk('IDX', 'W')) for l, x in ((L1, w1), (L2, r1), (L3, u1))]
        W = lambda n: F(w1, 'WrappedRoot', n)
        c.same('wrap', where, st, W('inner_root'), e, 'recorded inner root is the old root')
        c.same('wrap', where, st, r1, W('root'), 'new root list holds the recorded root')
        if u1.op == 'ADDED':
            u1 = u1.a[0]
            c.ok('wrap', where, 'rule goes through the length-limited insertion')
        R = lambda n: F(u1, 'CfgRule', n)
        c.same('wrap', where, st, R('lhs'), W('root'), 'wrapping rule is for the recorded root')
        c.same('wrap', where, st, R('rhs'), seqof([W('start_of_input'), e, W('end_of_input')]), 'wrapping rule is start root end')
        three = [W('root'), W('start_of_input'), W('end_of_input')]
        for n, x in zip(('root', 'start', 'end'), three):
            if x.op == 'FRESH':
                c.res(mentions(x, ('IDX',)), 'wrap', where, '%s symbol is fresh for every root' % n, 'shared between roots: ' + show(x))
            elif free_leaf(x) or x.op == 'GSYM':
                c.viol('wrap', where, '%s symbol is fresh for every root' % n, show(x))
            else:
                c.inc('wrap', where, '%s symbol is fresh for every root' % n, show(x))
        if all(x.op == 'FRESH' for x in three):
            c.res(len(set(three)) == 3, 'wrap', where, 'the three fresh symbols differ', show(tuple(three)))


def view(c, st, s, src, where, what):
    """single item per element of src -> (loop, item)"""
    t = seq(parts(s))
    if t is EMPTY:
        # acceptable only when there are no roots
        r = st.truth(eq(length(src), C(0)))
        if r is True:
            c.ok('wrap', where, what + ' has one entry per root')
        elif r is False or st.truth(eq(length(src), C(0))) is None:
            c.viol('wrap', where, what + ' has one entry per root', 'no entries when %s' % showconds(st.conds))
        return None
    if t is src:
        return ('id', mk('ELEM', 'id', src))
    if t.op == 'SEQ' and len(t.a) == 1 and t.a[0].op == 'COMP' and t.a[0].a[1] is src:
        L, _, cases = t.a[0].a
        lens = [len(i) for _, i in cases]
        if all(n == 1 for n in lens) and len(cases) == 1 and cases[0][1][0].op == 'ONE':
            c.ok('wrap', where, what + ' has one entry per root')
            return (L, cases[0][1][0].a[0])
        if any(n != 1 for n in lens) and all(q.op == 'ONE' for _, i in cases for q in i):
            c.viol('wrap', where, what + ' has one entry per root', show(t)[:600])
            return None
    if t.op == 'SEQ' and len(t.a) == 1 and t.a[0].op == 'COMP' and t.a[0].a[1] is rev(src):
        c.viol('wrap', where, what + ' has one entry per root', 'in reverse order of the roots: ' + show(t)[:600])
        return None
    if t.op == 'SEQ' and len(t.a) > 1 and all(p.op in ('ONE', 'ALL', 'COMP') for p in t.a) and precise(t):
        c.viol('wrap', where, what + ' has one entry per root', show(t)[:600])
        return None
    c.inc('wrap', where, what + ' has one entry per root', show(t)[:300])
    return None


def shapes(c):
    """root lists of known length, over unknown and over repeated roots"""
    c.rule('few', 'for up to %d roots: one record, one root and one rule each, all in order, every fresh symbol used once' % (4 if c.tier == 'thorough' else 3))
    g = mk('SYM', 'self')
    cf = lambda v, n: F(v, 'cfg::Cfg', n)
    x, y, z, u = [mk('SYM', 'r%d' % i) for i in range(4)]
    lists = [[], [x], [x, y], [x, x], [x, y, z], [x, y, x]] + ([[x, y, z, u], [x, x, y, y]] if c.tier == 'thorough' else [])
    for rs in lists:
        g1 = withf(g, 'cfg::Cfg', roots=seqof(rs))
        s = c.summary('Cfg::wrap_input', ['self'], pre=lambda st: st.cells.__setitem__(('in', 'self'), g1), rule='few')
        if s is None:
            continue
        w = s.fn.n
        for st, ret in s.outs:
            out = s.cell(st, 'self')
            tag = 'roots [%s]' % ', '.join(r.a[0] for r in rs)
            rec_ = conc_list(st.norm(cf(out, 'wrapped_roots')))
            rts = conc_list(st.norm(cf(out, 'roots')))
            ps = parts(st.norm(cf(out, 'rules')))
            new = None
            if ps and ps[0].op == 'ALL' and ps[0].a[0] is cf(g, 'rules'):
                new = conc_list(seq(ps[1:]))
            if rec_ is None or rts is None or new is None:
                r0 = [cf(out, n) for n in ('wrapped_roots', 'roots', 'rules')]
                c.res(False if rec_ is not None and rts is not None and all(p.op in ('ONE', 'ALL') for p in ps) and precise(seq(ps)) else None, 'few', w, tag + ': lists are known', show(tuple(r0))[:300])
                continue
            if not (len(rec_) == len(rts) == len(new) == len(rs)):
                c.viol('few', w, tag + ': one record, root and rule per root', '%d records, %d roots, %d rules when %s' % (len(rec_), len(rts), len(new), showconds(st.conds)[:300]))
                continue
            c.ok('few', w, tag + ': one record, root and rule per root')
            seen = []
            for i, (a, b, r) in enumerate(zip(rec_, rts, new)):
                if r.op == 'ADDED':
                    r = r.a[0]
                W = lambda n: F(a, 'WrappedRoot', n)
                c.same('few', w, st, W('inner_root'), rs[i], tag + ': records are in the order of the roots')
                c.same('few', w, st, b, W('root'), tag + ': root list agrees with the record')
                c.same('few', w, st, F(r, 'CfgRule', 'lhs'), W('root'), tag + ': rule is for the recorded root')
                c.same('few', w, st, F(r, 'CfgRule', 'rhs'), seqof([W('start_of_input'), rs[i], W('end_of_input')]), tag + ': rule is start root end')
                seen += [st.norm(W(n)) for n in ('root', 'start_of_input', 'end_of_input')]
            if all(q.op == 'FRESH' for q in seen):
                c.res(len(set(seen)) == len(seen), 'few', w, tag + ': every fresh symbol is used once', show(tuple(seen))[:300] + ' when ' + showconds(st.conds)[:300])
            else:
                c.res(False if all(q.op in ('FRESH', 'SYM', 'FLD') for q in seen) else None, 'few', w, tag + ': every fresh symbol is used once', show(tuple(seen))[:300])


PARTS = [wrap, shapes]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p01', 'gen', '')]
