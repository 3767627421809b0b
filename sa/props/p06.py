"""Provenance of derived rules."""
from fix import *
import models
from props.p12 import cf
from props import p07
from props.p07 import RECS, conv_of, hist_prims

TECHNIQUE = ('abstract interpretation of MIR: the history value stored with every derived rule is extracted symbolically at each place that stores one and compared, field by field, '
             'with the record it must carry; inductive step for the pieces of a split rule')

HI = 'earley::History'
LN = 'LinkedHistoryNode'
SELF = ('in', 'self')
h = lambda v, n: F(v, HI, n)
NULLID = C((1 << 32) - 1)


def lvar(name):
    vs = [x['n'] for x in ADTS[full(LN)]['v']]
    return vs.index(name)


def nodef(v, var, f):
    i = lvar(var)
    k = [x[0] for x in ADTS[full(LN)]['v'][i]['f']].index(f)
    return fld(v, full(LN), i, k)


def origin_id(v):
    return F(h(v, 'origin'), 'earley::ExternalOrigin', 'id')


def trace(d, n):
    return F(F(d, 'rule_dot::RuleDot', 'trace'), 'earley::ExternalDottedRule', n)


def nodes(c):
    c.rule('nodes', 'every update of a history changes exactly what it records: binarization keeps the origin for the top piece only; elimination records the removed symbol and its side, '
                    'and keeps only the origin for a nulling rule; weights and sequence details are stored; precedence changes nothing')
    p, n = mk('SYM', 'prev'), mk('SYM', 'node')
    s = c.summary('earley::process_linked', ['node', 'prev'])
    if not s:
        return
    seen = set()
    for st, ret in s.outs:
        ret = st.norm(s.I.deref_deep(st, ret))
        ks = [var for var, rec in RECS if st.truth(isvar(n, LN, var))]
        if len(ks) != 1:
            c.inc('nodes', s.fn.n, 'the kind of the update is known', str(ks))
            continue
        seen.add(ks[0])
        update(c, 'nodes', s.fn.n, st, ret, p, ks[0], lambda f: nodef(n, ks[0], f))
    for var, rec in RECS:
        c.res(True if var in seen else None, 'nodes', s.fn.n, '%s is handled' % var)


def conv(c):
    c.rule('conv', 'a record turned into a history applies exactly its own update to the history it names')
    for var, rec in RECS:
        i = conv_of(c, rec)
        if i is None:
            c.viol('conv', rec, 'converts into a history', 'no conversion')
            continue
        pr = dict(PR.STD)
        pr['earley::process_linked'] = p07.p_linked
        s = c.summary(c.p.fns[i], ['v'], prims=pr)
        if not s:
            continue
        v = mk('SYM', 'v')
        for st, ret in s.outs:
            ret = st.norm(s.I.deref_deep(st, ret))
            if ret.op == 'HISTL':
                k, pv = ret.a
                c.same('conv', rec, st, pv, F(v, 'cfg_history::' + rec, 'prev'), 'continues the given history')
                if k.op != 'ADT' or k.a[1] != lvar(var):
                    c.res(False if k.op == 'ADT' else None, 'conv', rec, 'applies its own update', show(k)[:200])
                    continue
                for f in [x[0] for x in ADTS[full(LN)]['v'][lvar(var)]['f']]:
                    c.same('conv', rec, st, nodef(k, var, f), F(v, 'cfg_history::' + rec, f), 'passes %s on' % f)
            else:
                update(c, 'conv', rec, st, ret, F(v, 'cfg_history::' + rec, 'prev'), var, lambda f: F(v, 'cfg_history::' + rec, f))


def update(c, ru, w, st, ret, p, var, g):
    keep = lambda s2, fs, why: [c.same(ru, w, s2, h(ret, f), h(p, f), '%s %s' % (why, f)) for f in fs]
    if var == 'AssignPrecedence':
        keep(st, ('dots', 'origin', 'nullable', 'weight', 'sequence'), 'precedence keeps')
    elif var == 'Binarize':
        top = g('is_top')
        for s2 in c.split(st, [top]):
            if s2.truth(top):
                c.same(ru, w, s2, h(ret, 'origin'), h(p, 'origin'), 'the top piece keeps the origin')
            else:
                c.same(ru, w, s2, origin_id(ret), NULLID, 'a helper piece has no origin')
            keep(s2, ('nullable', 'weight', 'sequence'), 'splitting keeps')
            dots(c, ru, w, s2, ret, p)
    elif var == 'EliminateNulling':
        elimn(c, ru, w, st, ret, p, g)
    elif var == 'RewriteSequence':
        keep(st, ('dots', 'origin', 'nullable', 'weight'), 'sequence details leave')
        q = h(ret, 'sequence')
        if q is h(p, 'sequence') or q.op == 'ADT' and q.a[1] == 0:
            c.viol(ru, w, 'sequence details are stored', show(q))
            return
        for f in ('top', 'rhs', 'sep'):
            c.same(ru, w, st, F(unsome(q), 'earley::SequenceDetails', f), g(f), 'sequence details are stored')
    elif var == 'Weight':
        keep(st, ('dots', 'origin', 'nullable', 'sequence'), 'a weight leaves')
        q = h(ret, 'weight')
        if q is h(p, 'weight') or q is NONE:
            c.viol(ru, w, 'the weight is stored in thousandths', show(q))
            return
        sc = scaled(unsome(q), g('weight')) if q.op == 'ADT' and q.a[1] == 1 else None
        c.res(sc, ru, w, 'the weight is stored in thousandths', show(q)[:200])
    elif var == 'SequenceRhs':
        keep(st, ('weight', 'nullable', 'sequence'), 'sequence dots leave')


def scaled(x, wt):
    """x = wt * 1000.0 as an integer; None when not of a known form"""
    import struct
    if x is wt:
        return False
    if not any(y.op in IMPREC or y is wt for y in subterms(x) if isinstance(y, T)):
        return False
    if x.op == 'LIN' and any(y.op == 'FCAST' and y.a[-1] is wt for y in subterms(x)):
        return False
    if x.op in ('FCAST', 'CAST') and x.a[0] in (('prim', 'u8'), ('prim', 'u16'), 'u8', 'u16'):
        return False
    if x.op in ('FCAST', 'CAST') and x.a[-1].op == 'FMul' and wt in x.a[-1].a:
        k = [y for y in x.a[-1].a if y is not wt]
        if len(k) == 1 and isC(k[0]):
            return k[0].a[0] == struct.unpack('<Q', struct.pack('<d', 1000.0))[0]
    if x.op in ('FCAST', 'CAST') and x.a[-1] is wt:
        return False
    return None


def dots(c, ru, w, st, ret, p):
    d = h(ret, 'dots')
    for i in range(3):
        x = st.norm(at(d, C(i)))
        if x is st.norm(at(h(p, 'dots'), C(i))):
            c.ok(ru, w, 'a dot traces to its own rule or nowhere')
            continue
        t = st.norm(trace(x, 'id'))
        c.res(True if t in (NULLID, origin_id(p)) else (False if precise(t) and (isC(t) or t.op in ('FLD',)) else None), ru, w, 'a dot traces to its own rule or nowhere', show(x)[:300])


def elimn(c, ru, w, st, ret, p, g):
    which = g('which')
    B = full('BinarizedRhsRange')
    vs = [x['n'] for x in ADTS[B]['v']]
    isb = lambda s2, k: s2.truth(isvar(which, B, k))
    for s2 in c.split(st, [isvar(which, B, 'All'), isvar(which, B, 'Right')]):
        if isb(s2, 'All'):
            c.same(ru, w, s2, h(ret, 'origin'), h(p, 'origin'), 'a nulling rule keeps the origin')
            for f in ('nullable', 'weight', 'sequence'):
                c.same(ru, w, s2, h(ret, f), NONE, 'a nulling rule keeps no %s record' % f)
            c.res(False if s2.norm(h(ret, 'dots')) is s2.norm(h(p, 'dots')) else True, ru, w, 'a nulling rule keeps no dots')
            continue
        right = isb(s2, 'Right')
        for f in ('dots', 'origin', 'weight', 'sequence'):
            c.same(ru, w, s2, h(ret, f), h(p, f), 'a shortened rule keeps %s' % f)
        q = h(ret, 'nullable')
        if q is NONE or q is h(p, 'nullable'):
            c.viol(ru, w, 'the removed symbol is recorded', show(q))
            continue
        q = unsome(q)
        r0, r1 = unsome(g('rhs0')), unsome(g('rhs1'))
        got = s2.norm(fld(q, '(tuple)', 0, 0))
        want = r1 if right else r0
        c.res(True if got is want else (False if got in (r0, r1) else None), ru, w, 'the removed symbol is recorded', show(got))
        c.same(ru, w, s2, fld(q, '(tuple)', 0, 1), C(1 if right else 0), 'the side of the removed symbol is recorded')


def roots(c):
    c.rule('root', 'a basic rule has the origin it was given: none for no-ops, zero for plain rules, the rule number otherwise; and no other record')
    c.rule('read', 'dot(n) is the n-th of the three dots and traces to nothing beyond them')
    RN = 'cfg_history::RootHistoryNode'
    fs = [i for i in c.p.impls if i['trait'] == 'core::convert::From' and i['self'] == ('adt', full(HI), ()) and i['targs'][1] == ('adt', RN, ())]
    if len(fs) != 1:
        c.viol('root', RN, 'converts into a history', 'no conversion')
    else:
        s = c.summary(c.p.fns[dict(fs[0]['items'])['from']], ['v'])
        v = mk('SYM', 'v')
        vs = [x['n'] for x in ADTS[RN]['v']]
        for st, ret in (s.outs if s else ()):
            ret = st.norm(s.I.deref_deep(st, ret))
            for s2 in c.split(st, [isvar(v, RN, 'NoOp'), isvar(v, RN, 'Origin')]):
                o = s2.norm(origin_id(ret))
                k = 'NoOp' if s2.truth(isvar(v, RN, 'NoOp')) else 'Origin' if s2.truth(isvar(v, RN, 'Origin')) else 'Rule'
                if k != 'Origin':
                    c.same('root', RN, s2, o, NULLID if k == 'NoOp' else C(0), 'origin of %s' % k)
                else:
                    while o.op == 'CAST' and o.a[0] == 'u32':
                        o = o.a[1]
                    c.same('root', RN, s2, o, fld(v, RN, vs.index('Origin'), 0), 'origin of a numbered rule')
                for f in ('nullable', 'weight', 'sequence'):
                    c.same('root', RN, s2, h(ret, f), NONE, 'a basic rule has no other record')
    s = c.summary('earley::History::dot', ['self', 'n'])
    if s:
        n, d = mk('SYM', 'n'), h(SELFV, 'dots')
        for st, ret in s.outs:
            ret = st.norm(s.I.deref_deep(st, ret))
            inb = lt(n, C(3))
            for s2 in c.split(st, [inb, lt(n, length(d))]):
                if (s2.truth(inb) is not None) and s2.truth(lt(n, length(d))) not in (None, s2.truth(inb)):
                    continue
                if s2.truth(inb):
                    c.same('read', s.fn.n, s2, ret, at(d, n), 'the n-th dot')
                else:
                    c.same('read', s.fn.n, s2, trace(ret, 'id'), NULLID, 'no dot beyond the third')
    for m, f in (('origin', 'origin'), ('nullable', 'nullable')):
        s = c.summary('earley::History::' + m, ['self'])
        for st, ret in (s.outs if s else ()):
            c.same('read', s.fn.n, st, st.norm(s.I.deref_deep(st, ret)), h(SELFV, f), 'reads the field')
    s = c.summary('earley::ExternalOrigin::is_null', ['self'])
    for st, ret in (s.outs if s else ()):
        c.same('read', s.fn.n, st, ret, eq(F(SELFV, 'earley::ExternalOrigin', 'id'), NULLID), 'an origin is unknown exactly when it is the one of no-ops')


SELFV = mk('SYM', 'self')


def pieces(c):
    c.rule('pieces', 'when a rule is split in twos, every piece records its height, the length of the original rule and whether it is the top piece; otherwise pieces and whole rules carry the history of the rule')
    pr = dict(PR.SYM)
    pr.update(hist_prims(c))
    s = c.summary('Cfg::add_rule', ['self', 'rule'], prims=pr)
    if not s:
        return
    w = s.fn.n
    g, rule = mk('SYM', 'self'), mk('SYM', 'rule')
    lim = cf(g, 'rhs_len_invariant')
    rhs = R(rule, 'rhs')
    done = set()
    for st, ret in s.outs:
        rules = st.norm(cf(s.cell(st, 'self'), 'rules'))
        loops = [e[1] for e in st.ev if e[0] == 'loop']
        if not any(x.op in ('LV', 'LOOPV') for x in subterms(rules)):
            for p in parts(rules)[1:]:
                if p.op == 'ONE':
                    c.same('pieces', w, st, R(p.a[0], 'history'), R(rule, 'history'), 'a rule stored whole keeps its history')
            continue
        rec = next((l for l in loops if any(loc[0] == SELF and lv[1] is cf(g, 'rules') for loc, lv in l.havoc.items())), None)
        if rec is None or st.truth(is_some(lim)) is not True:
            continue
        key = (rec.id,)
        if key in done:
            continue
        done.add(key)
        loop(c, s, st, rec, g, rule, w)


def loop(c, s, st0, rec, g, rule, w):
    rhs = R(rule, 'rhs')
    limv = unsome(cf(g, 'rhs_len_invariant'))
    rl = next(loc for loc, lv in rec.havoc.items() if loc[0] == SELF and lv[1] is cf(g, 'rules'))
    wl = next((loc for loc, (lv, init) in rec.havoc.items() if init in (rhs, rev(rhs))), None)
    cnt = None
    backs = [x for x in rec.cases if x[0] == 'back']
    for loc, (lv, init) in rec.havoc.items():
        if init is C(0) and all(x[3].norm(sub(s.I.readloc(x[3], *loc), lv)) is C(1) for x in backs):
            cnt = lv
    LR = rec.havoc[rl][0]
    two = eq(limv, C(2))
    for kind, conds, evs, s1 in rec.cases:
        if kind != 'back':
            continue
        s1 = s1.fork()
        if not s1.learn(lt(limv, C(2)), False):
            continue
        for s2 in c.split(s1, [two] + ([eq(cnt, C(0))] if cnt is not None else [])):
            nr = s2.norm(s.I.readloc(s2, *rl))
            ps = list(parts(nr))
            if len(ps) != 2 or ps[0].op != 'ALL' or ps[0].a[0] is not LR or ps[1].op != 'ONE':
                c.inc('pieces', w, 'stored piece', show(nr)[:200])
                continue
            r = ps[1].a[0]
            hist = s2.norm(R(r, 'history'))
            nw = s2.norm(s.I.readloc(s2, *wl)) if wl else None
            if nw is None:
                c.inc('pieces', w, 'remaining symbols are tracked')
                continue
            top = True if conc_list(nw) == [] or conc_list(normeq(s2, nw)) == [] else s2.truth(eq(length(nw), C(0)))
            if top is None and any(p.op == 'ONE' for p in parts(nw)):
                top = False
            why = 'when %s: %s' % (showconds(s2.conds)[:300], show(hist)[:200])
            if hist is R(rule, 'history'):
                if not s2.truth(two):
                    c.ok('pieces', w, 'pieces of a rule not split in twos carry its history')
                    continue
                first = s2.truth(eq(cnt, C(0))) if cnt is not None else None
                c.res(True if first and top else (False if top is False or first is False else None), 'pieces', w, 'every piece of a rule split in twos records its place', why)
                continue
            if hist.op != 'HISTL':
                c.res(False if precise(hist) and hist.op == 'ADT' else None, 'pieces', w, 'every piece continues the history of the rule', why)
                continue
            k, pv = hist.a
            c.same('pieces', w, s2, pv, R(rule, 'history'), 'every piece continues the history of the rule')
            if not s2.truth(two):
                c.res(False if k.op == 'ADT' else None, 'pieces', w, 'pieces of a rule not split in twos carry its history', why)
                continue
            if k.op != 'ADT' or k.a[1] != lvar('Binarize'):
                c.res(False if k.op == 'ADT' else None, 'pieces', w, 'every piece of a rule split in twos records its place', why)
                continue
            c.same('pieces', w, s2, nodef(k, 'Binarize', 'full_len'), length(rhs), 'the length of the original rule is recorded')
            hh = s2.norm(nodef(k, 'Binarize', 'height'))
            if cnt is not None:
                c.res(True if s2.norm(sub(hh, cnt)) is C(0) else (False if isC(s2.norm(sub(hh, cnt))) or isC(hh) else None), 'pieces', w, 'the height counts the pieces below', show(hh))
            else:
                c.inc('pieces', w, 'the height counts the pieces below')
            it = s2.norm(nodef(k, 'Binarize', 'is_top'))
            emp = s2.norm(eq(length(nw), C(0)))
            for s3 in c.split(s2, [emp, it]):
                if not consistent(s3):
                    continue
                tv = bool(s3.norm(it).a[0]) if isC(s3.norm(it)) else s3.truth(it)
                tp = top if top is not None else s3.truth(emp)
                c.res(None if tv is None or tp is None else tv == tp, 'pieces', w, 'exactly the last piece is the top', '%s, remaining %s' % (show(it), show(nw)[:100]))


def nulling(c):
    c.rule('nulling', 'a rule made by eliminating nulling symbols, or moved to the nulling grammar, records both symbols of the rule and which of them are nullable')
    p07.elim(c, True)


PARTS = [nodes, conv, roots, pieces, nulling]
