"""Precedenced rules."""
from fix import *
from props import p07

TECHNIQUE = ('abstract interpretation of MIR: the builder is read as a state machine; the rules and state of each transition are compared with the documented meaning of levels and associativity, '
             'for every position of the operand symbol in right-hand sides of bounded length')

PB = 'precedenced_rule::PrecedencedRuleBuilder'
AS = 'precedenced_rule::Associativity'
RB = 'rule_builder::RuleBuilder'
CR = 'cfg::CfgRule'
N = 4


def prims(c):
    p = dict(PR.STD)
    p.update(p07.hist_prims(c))
    return p


def added(st):
    return [st.norm(e[1]) for e in st.ev if e[0] == 'add_rule']


def symlist(t):
    return [p.a[0] for p in t.a] if t.op == 'SEQ' and all(p.op == 'ONE' for p in t.a) else None


def prevhist(h):
    while h.op == 'HISTL':
        h = h.a[1]
    return h


def variant_of(st, v, path):
    for x in ADTS[full(path)]['v']:
        if st.truth(isvar(v, path, x['n'])):
            return x['n']
    return None


def deferred(me):
    """the field that keeps rules for the end"""
    fs = ADTS[full(PB)]['v'][0]['f']
    xs = [f[0] for f in fs if 'CfgRule' in str(f[1])]
    return xs[0] if len(xs) == 1 else None


def alternatives(c):
    c.rule('operand', 'left associative: the leftmost operand stays at the level of the alternative, all others become the tighter level; right associative: the rightmost; group: every operand becomes the loosest level')
    c.rule('others', 'symbols other than the operand, their order and their number are kept; the alternative belongs to the level at which it was built')
    c.rule('reset', 'associativity and history serve one alternative; the default is left')
    me = mk('SYM', 'self')
    g = lambda v, n: F(v, PB, n)
    dn = deferred(me)
    for name, extra in (('PrecedencedRuleBuilder::rhs_with_history', ['h']), ('PrecedencedRuleBuilder::rhs', [])):
        for n in range(N + 1 if extra else 2):
            syms = [mk('SYM', 's%d' % i) for i in range(n)]
            s = c.summary(name, ['self', seqof(syms)] + extra, prims=prims(c))
            if not s:
                continue
            w = name
            ats = [eq(x, g(me, 'lhs')) for x in syms]
            for st0, ret0 in s.outs:
                for st in c.split(st0, ats):
                    ret = st.norm(s.I.deref_deep(st, ret0))
                    assoc = variant_of(st, g(me, 'assoc'), AS)
                    if assoc is None:
                        c.inc('operand', w, 'associativity', showconds(st.conds)[:200])
                        continue
                    at_ = [i for i, a in enumerate(ats) if st.truth(a)]
                    rules = added(st)
                    keep = None
                    what = '%s, operands at %s of %d' % (assoc, at_, n)
                    cond = 'when %s: ' % showconds(st.conds)[:400]
                    if dn:
                        d = st.norm(g(ret, dn))
                        old = g(me, dn)
                        ps = parts(d) if d.op == 'SEQ' else None
                        if d is old:
                            new = []
                        elif ps and ps[0].op == 'ALL' and ps[0].a[0] is old and all(p.op == 'ONE' for p in ps[1:]):
                            new = [p.a[0] for p in ps[1:]]
                        else:
                            new = None
                    else:
                        new = None
                    if new is None:
                        c.inc('operand', w, what, 'state')
                        continue
                    cur, tight, lhs = g(me, 'current_lhs'), g(me, 'tighter_lhs'), g(me, 'lhs')
                    if assoc == 'Group':
                        # until the end every operand stays what it is
                        if rules:
                            # emitted at once: its operands cannot be the loosest level yet, unless there are none
                            c.res(False if at_ else True, 'operand', w, what, cond + 'the alternative is emitted before the loosest level is known')
                            rules2 = rules
                        else:
                            rules2 = new
                        want = [lhs if i in at_ else x for i, x in enumerate(syms)]
                    else:
                        ext = (at_[0] if assoc == 'Left' else at_[-1]) if at_ else None
                        want = [cur if i == ext else tight if i in at_ else x for i, x in enumerate(syms)]
                        rules2 = rules
                        if new and not rules:
                            rules2 = new
                            # deferred: operands must not be left to become the loosest level
                    if len(rules2) != 1:
                        c.viol('others', w, what, cond + '%d rules are added for one alternative' % len(rules2))
                        continue
                    r = rules2[0]
                    got = symlist(st.norm(F(r, CR, 'rhs')))
                    if got is None:
                        c.inc('operand', w, what, 'right-hand side')
                        continue
                    if len(got) != n:
                        c.viol('others', w, what, cond + 'the right-hand side has %d symbols instead of %d' % (len(got), n))
                        continue
                    for i in range(n):
                        r_ = 'EQ' if i in at_ and st.norm(got[i]) is st.norm(want[i]) else None
                        if r_:
                            c.ok('operand', w, what)
                        else:
                            c.same('operand' if i in at_ else 'others', w, st, got[i], want[i], 'symbol %d: %s' % (i, what))
                    c.same('others', w, st, F(r, CR, 'lhs'), cur, 'level: ' + what)
                    h = prevhist(st.norm(F(r, CR, 'history')))
                    if extra:
                        c.same('others', w, st, h, mk('SYM', 'h'), 'history: ' + what)
                    else:
                        b = st.truth(is_some(g(me, 'history')))
                        if b:
                            c.same('others', w, st, h, unsome(g(me, 'history')), 'history: ' + what)
                    # state
                    a = st.norm(g(ret, 'assoc'))
                    c.res({'Left': True, None: False if a is g(me, 'assoc') and assoc != 'Left' else None}.get(variant_of(st, a, AS), False), 'reset', w, 'associativity: ' + what, cond + show(a))
                    c.same('reset', w, st, g(ret, 'history'), NONE, 'history')
                    for f in ('lhs', 'tighter_lhs', 'current_lhs'):
                        c.same('reset', w, st, g(ret, f), g(me, f), 'keeps ' + f)


def levels(c):
    c.rule('levels', 'the first level is a fresh symbol; every looser level is a fresh symbol with a rule to the level before it, which becomes the tighter level; nothing else is added')
    c.rule('finish', 'finishing a precedenced rule adds: left-hand side to the loosest level, and every grouped alternative with its operands at the loosest level; starting another rule finishes it')
    pr = prims(c)
    me = mk('SYM', 'self')
    g = lambda v, n: F(v, PB, n)
    for name, args in (('PrecedencedRuleBuilder::new', ['g', 'x']), ('RuleBuilder::precedenced_rule', ['b', 'x']), ('Cfg::precedenced_rule', ['g', 'x'])):
        s = c.summary(name, args, prims=pr)
        if not s:
            continue
        for st, ret in s.outs:
            ret = st.norm(s.I.deref_deep(st, ret))
            w = name
            cu, ti = g(ret, 'current_lhs'), g(ret, 'tighter_lhs')
            c.res(cu.op == 'FRESH' or (None if mentions(cu, ('CALL', 'OPQ')) else False), 'levels', w, 'the first level is a fresh symbol', show(cu))
            c.same('levels', w, st, ti, cu, 'at the tightest level operands stay at the level')
            c.same('levels', w, st, g(ret, 'lhs'), mk('SYM', 'x'), 'left-hand side')
            v = variant_of(st, g(ret, 'assoc'), AS)
            c.res(None if v is None else v == 'Left', 'levels', w, 'default associativity is left', str(v))
            c.same('levels', w, st, g(ret, 'history'), NONE, 'no history')
            d = deferred(ret)
            if d:
                c.same('levels', w, st, g(ret, d), EMPTY, 'no alternatives')
            n = len(added(st))
            c.res(n == 0, 'levels', w, 'no rule is added', '%d rules' % n)
    s = c.summary('PrecedencedRuleBuilder::lower_precedence', ['self'], prims=pr)
    if s:
        w = s.fn.n
        for st, ret in s.outs:
            ret = st.norm(s.I.deref_deep(st, ret))
            cu = g(ret, 'current_lhs')
            c.res(cu.op == 'FRESH' or (None if mentions(cu, ('CALL', 'OPQ')) else False), 'levels', w, 'a looser level is a fresh symbol', show(cu))
            c.same('levels', w, st, g(ret, 'tighter_lhs'), g(me, 'current_lhs'), 'the level before is the tighter one')
            rs = added(st)
            if len(rs) == 1:
                c.same('levels', w, st, F(rs[0], CR, 'lhs'), cu, 'rule from the looser level')
                c.same('levels', w, st, F(rs[0], CR, 'rhs'), seqof([g(me, 'current_lhs')]), 'rule to the level before')
            else:
                c.res(None if any(e[0] == 'loop' for e in st.ev) else False, 'levels', w, 'one rule to the level before', '%d rules' % len(rs))
            for f in ('lhs', 'history', 'assoc') + ((deferred(ret),) if deferred(ret) else ()):
                c.same('levels', w, st, g(ret, f), g(me, f), 'keeps ' + f)
    for name, args, then in (('PrecedencedRuleBuilder::finalize', ['self'], None), ('PrecedencedRuleBuilder::rule', ['self', 'y'], 'rule'), ('PrecedencedRuleBuilder::precedenced_rule', ['self', 'y'], 'prec')):
        s = c.summary(name, args, prims=pr)
        if not s:
            continue
        w = name
        for st, ret in s.outs:
            fin(c, w, s, st, me)
            ret = st.norm(s.I.deref_deep(st, ret))
            if then == 'rule':
                c.same('finish', w, st, F(ret, RB, 'lhs'), some(mk('SYM', 'y')), 'next left-hand side')
            elif then == 'prec':
                c.same('finish', w, st, g(ret, 'lhs'), mk('SYM', 'y'), 'next left-hand side')
                cu = g(ret, 'current_lhs')
                c.res(cu.op == 'FRESH' or None, 'finish', w, 'new levels', show(cu))
    for name, args, f, want in (('PrecedencedRuleBuilder::history', ['self', 'y'], 'history', some(mk('SYM', 'y'))), ('PrecedencedRuleBuilder::associativity', ['self', 'y'], 'assoc', mk('SYM', 'y'))):
        s = c.summary(name, args, prims=pr)
        if not s:
            continue
        for st, ret in s.outs:
            ret = st.norm(s.I.deref_deep(st, ret))
            c.same('levels', name, st, g(ret, f), want, f)
            for k in ('lhs', 'tighter_lhs', 'current_lhs', 'history', 'assoc'):
                if k != f:
                    c.same('levels', name, st, g(ret, k), g(me, k), 'keeps ' + k)


def gram_rules(st):
    """what is appended to the rules of the grammar behind the builder"""
    for k, v in st.cells.items():
        if isinstance(k, tuple) and k[0] == 'sym' and v.op == 'ADT' and v.a[0] == full('cfg::Cfg'):
            return k[1], st.norm(F(v, 'cfg::Cfg', 'rules'))
    return None, None


def fin(c, w, s, st, me):
    g = lambda v, n: F(v, PB, n)
    gr, rules = gram_rules(st)
    if gr is None:
        c.res(False if not [e for e in st.ev if e[0] in ('add_rule', 'loop')] else None, 'finish', w, 'rules of the grammar', 'nothing is added')
        return
    old = F(gr, 'cfg::Cfg', 'rules')
    ps = parts(rules)
    if not ps or ps[0].op != 'ALL' or ps[0].a[0] is not old:
        return c.inc('finish', w, 'rules of the grammar', show(rules)[:200])
    top, grp, unk = [], [], []
    for p in ps[1:]:
        if p.op == 'ONE' and p.a[0].op == 'ADDED':
            top.append(p.a[0].a[0])
        elif p.op == 'COMP':
            grp.append(p)
        else:
            unk.append(p)
    cur, lhs = g(me, 'current_lhs'), g(me, 'lhs')
    # levels built by the builder that starts afterwards add no rules
    hit = [r for r in top if F(r, CR, 'lhs') is lhs or st.norm(F(r, CR, 'lhs')) is st.norm(lhs)]
    if len(hit) == 1 and len(top) == 1:
        c.same('finish', w, st, F(hit[0], CR, 'rhs'), seqof([cur]), 'the left-hand side derives the loosest level')
    elif unk or len(top) > 1:
        c.inc('finish', w, 'the left-hand side derives the loosest level', '%d' % len(top))
    elif top:
        c.same('finish', w, st, F(top[0], CR, 'lhs'), lhs, 'the left-hand side derives the loosest level')
    else:
        c.viol('finish', w, 'the left-hand side derives the loosest level', 'no such rule is added')
    d = deferred(me)
    if not d:
        return c.inc('finish', w, 'grouped alternatives', 'state')
    src = g(me, d)
    if not grp and not unk:
        if st.norm(src) is EMPTY or st.truth(eq(st.norm(length(src)), C(0))):
            return c.ok('finish', w, 'no grouped alternatives on this path')
        return c.viol('finish', w, 'grouped alternatives are added', 'they are not added')
    for p in grp:
        L, sr, cases = p.a[0], p.a[1], p.a[2]
        if base(sr) is not src:
            if part_of(sr) is src:
                c.viol('finish', w, 'grouped alternatives are added', 'only some of them: %s' % show(sr)[:200])
            else:
                c.inc('finish', w, 'grouped alternatives', show(sr)[:200])
            continue
        e = mk('ELEM', L, sr)
        for conds, items in cases:
            s2 = st.fork()
            if not learn_all(s2, conds):
                continue
            if len(items) != 1 or items[0].op != 'ONE' or items[0].a[0].op != 'ADDED':
                c.res(False if not items and all(precise(a) for a, _ in conds) else None, 'finish', w, 'grouped alternatives are added', 'when %s: %d rules' % (showconds(conds)[:200], len(items)))
                continue
            r = items[0].a[0].a[0]
            c.same('finish', w, s2, F(r, CR, 'lhs'), F(e, CR, 'lhs'), 'a grouped alternative keeps its level')
            c.same('finish', w, s2, F(r, CR, 'history'), F(e, CR, 'history'), 'a grouped alternative keeps its history')
            rhs = s2.norm(F(r, CR, 'rhs'))
            want = F(e, CR, 'rhs')
            q = parts(rhs)
            if rhs is want:
                c.viol('finish', w, 'grouped operands become the loosest level', 'the right-hand side is not changed')
                continue
            if len(q) != 1 or q[0].op != 'COMP' or base(q[0].a[1]) is not want or q[0].a[1].op == 'REV':
                c.inc('finish', w, 'grouped operands become the loosest level', show(rhs)[:200])
                continue
            if q[0].a[1] is not want:
                c.viol('finish', w, 'grouped alternatives keep their order', show(rhs)[:200])
                continue
            x = mk('ELEM', q[0].a[0], want)
            for cd, it in q[0].a[2]:
                s3 = s2.fork()
                if not learn_all(s3, cd):
                    continue
                for s4 in c.split(s3, [eq(x, lhs)]):
                    if len(it) != 1 or it[0].op != 'ONE':
                        c.res(False if len(it) != 1 else None, 'finish', w, 'grouped alternatives keep their length', showconds(cd)[:200])
                        continue
                    op = s4.truth(eq(x, lhs))
                    got = s4.norm(it[0].a[0])
                    if op and got is s4.norm(cur):
                        c.ok('finish', w, 'grouped operands become the loosest level')
                    elif not op and got is x:
                        c.ok('finish', w, 'other symbols are kept')
                    else:
                        c.same('finish', w, s4, got, cur if op else x, 'grouped operands become the loosest level' if op else 'other symbols are kept')


def groups(c):
    """finishing with a bounded list of grouped alternatives: every choice of operand positions"""
    pr = prims(c)
    me0 = mk('SYM', 'self')
    d = deferred(me0)
    if not d:
        return c.inc('finish', 'PrecedencedRuleBuilder::finalize', 'grouped alternatives', 'state')
    fs = [f[0] for f in ADTS[full(PB)]['v'][0]['f']]
    g = lambda v, n: F(v, PB, n)
    w = 'PrecedencedRuleBuilder::finalize'
    for shape in ([0], [1], [2], [3], [1, 1], [2, 1]):
        xs = [[mk('SYM', 's%d%d' % (i, j)) for j in range(n)] for i, n in enumerate(shape)]
        rules = [adt(full(CR), 0, [mk('SYM', 'lv%d' % i), seqof(x), mk('SYM', 'h%d' % i)]) for i, x in enumerate(xs)]
        me = adt(full(PB), 0, [seqof(rules) if f == d else g(me0, f) for f in fs])
        s = c.summary(w, [me], prims=pr)
        if not s:
            continue
        cur, lhs = g(me0, 'current_lhs'), g(me0, 'lhs')
        for st0, ret in s.outs:
            for st in c.split(st0, [eq(x, lhs) for r in xs for x in r]):
                rs = added(st)
                grp = [r for r in rs if st.norm(F(r, CR, 'history')).op == 'SYM']
                cond = 'when %s: ' % showconds(st.conds)[:300]
                if len(rs) != len(rules) + 1 or len(grp) != len(rules):
                    c.res(None if any(e[0] == 'loop' for e in st.ev) else False if len(rs) < len(rules) + 1 else None, 'finish', w, 'grouped alternatives are added', cond + '%d rules for %d alternatives' % (len(rs), len(rules)))
                    continue
                for i, x in enumerate(xs):
                    r = [q for q in grp if F(q, CR, 'history') is mk('SYM', 'h%d' % i)]
                    if len(r) != 1:
                        c.inc('finish', w, 'a grouped alternative keeps its history', show(grp)[:200] if not isinstance(grp, list) else '')
                        continue
                    c.same('finish', w, st, F(r[0], CR, 'lhs'), mk('SYM', 'lv%d' % i), 'a grouped alternative keeps its level')
                    c.same('finish', w, st, F(r[0], CR, 'rhs'), seqof([cur if st.truth(eq(y, lhs)) else y for y in x]), 'every operand of a grouped alternative becomes the loosest level')


PARTS = [alternatives, levels, groups]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p01', 'gen', 'next_sym'), ('p19', 'builder', '')]
