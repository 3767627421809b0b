"""A length limit on right-hand sides holds for every stored rule, and splitting preserves what the rule derives."""
from fw import *

TECHNIQUE = ('abstract interpretation of MIR (sequence + affine domain): inductive step of the splitting loop (re-expanding the helper symbol '
             'gives back the remaining right-hand side, pieces fit the limit) and an effect analysis of every writer of the rule list')

SELF = ('in', 'self')


def cf(v, n):
    return F(v, 'cfg::Cfg', n)


def R(v, n):
    return F(v, 'CfgRule', n)


def rev1(x):
    return rev(x)


def split(c):
    c.rule('split', 'a rule is stored whole only if it fits; otherwise each stored piece fits the limit, its left-hand side is a fresh symbol put in '
                    'place of the symbols it took, and the last piece carries the original left-hand side')
    pr = dict(PR.SYM)
    s = c.summary('Cfg::add_rule', ['self', 'rule'], prims=pr)
    if not s:
        return
    w = s.fn.n
    g, rule = mk('SYM', 'self'), mk('SYM', 'rule')
    lim = cf(g, 'rhs_len_invariant')
    rhs = R(rule, 'rhs')
    seenloops = set()
    for st, ret in s.outs:
        out = s.cell(st, 'self')
        rules = st.norm(cf(out, 'rules'))
        has = st.truth(is_some(lim))
        for n in ('lexemes', 'roots', 'wrapped_roots', 'rhs_len_invariant', 'eliminate_nulling', 'tmp_stack'):
            c.same('split', w, st, cf(out, n), cf(g, n), 'insertion leaves %s alone' % n)
        ps = list(parts(rules))
        loops = [e[1] for e in st.ev if e[0] == 'loop']
        if not any(x.op == 'LV' or x.op == 'LOOPV' for x in subterms(rules)):
            if not (ps and ps[0].op == 'ALL' and ps[0].a[0] is cf(g, 'rules')):
                c.res(False if precise(rules) else None, 'split', w, 'existing rules stay in front', show(rules)[:200])
                continue
            new = ps[1:]
            c.same('split', w, st, ret, C(len(new)), 'returns the number of stored pieces')
            if not new:
                # nothing stored: only for rules that may not be stored at all
                emp = eq(length(rhs), C(0))
                t = must(st, emp)
                c.res(t, 'split', w, 'a rule is dropped only when empty and empty rules are excluded', showconds(st.conds)[:300])
                continue
            if len(new) == 1 and new[0].op == 'ONE':
                r = new[0].a[0]
                c.same('split', w, st, R(r, 'lhs'), R(rule, 'lhs'), 'a rule stored whole keeps its left-hand side')
                c.same('split', w, st, R(r, 'rhs'), rhs, 'a rule stored whole keeps its right-hand side')
                c.same('split', w, st, R(r, 'history'), R(rule, 'history'), 'a rule stored whole keeps its history')
                if has is not False:
                    for s2 in c.split(st, [is_some(lim)]):
                        if s2.truth(is_some(lim)):
                            c.res(must(s2, le(length(rhs), unsome(lim))), 'split', w, 'a rule stored whole fits the limit', showconds(s2.conds)[:300])
            else:
                c.inc('split', w, 'pieces', show(rules)[:200])
            continue
        # path through the splitting loop
        rec = next((l for l in loops if any(loc[0] == SELF and lv[1] is cf(g, 'rules') for loc, lv in l.havoc.items())), None)
        if rec is None:
            c.inc('split', w, 'splitting loop', show(rules)[:200])
            continue
        key = (rec.id, st.truth(is_some(lim)), st.truth(cf(g, 'eliminate_nulling')))
        if key in seenloops:
            continue
        seenloops.add(key)
        if st.truth(is_some(lim)) is not True:
            c.ok('split', w, 'without a limit only a rule longer than memory would be split')
            continue
        loop(c, s, st, rec, g, rule, w, ret)


def loop(c, s, st0, rec, g, rule, w, ret):
    rhs = R(rule, 'rhs')
    lim = unsome(cf(g, 'rhs_len_invariant'))
    rl = next(loc for loc, lv in rec.havoc.items() if loc[0] == SELF and lv[1] is cf(g, 'rules'))
    wl, orient = None, None
    for loc, (lv, init) in rec.havoc.items():
        if init is rhs:
            wl, orient = loc, False
        elif init is rev(rhs):
            wl, orient = loc, True
    if wl is None:
        c.inc('split', w, 'remaining symbols are tracked')
        return
    W = rec.havoc[wl][0]
    LR = rec.havoc[rl][0]
    counters = [loc for loc, (lv, init) in rec.havoc.items() if init is C(0)]
    ori = rev if orient else (lambda x: x)
    for kind, conds, evs, s2 in rec.cases:
        if kind == 'exit':
            t = s2.truth(eq(length(W), C(0)))
            c.res(t if t is not None else must0(s2, eq(length(W), C(0)), W, rec.havoc[wl][1]), 'split', w, 'splitting ends only when no symbol remains', showconds(conds)[:300])
            continue
        if kind in ('ret', 'brk'):
            c.inc('split', w, 'early return from splitting', showconds(conds)[:200])
            continue
        s2 = s2.fork()
        # limits below two cannot be met by any splitting
        if not s2.learn(lt(lim, C(2)), False):
            continue
        nr = s2.norm(s.I.readloc(s2, *rl))
        nw = s2.norm(s.I.readloc(s2, *wl))
        ps = list(parts(nr))
        if not ps or not (ps[0].op == 'ALL' and ps[0].a[0] is LR):
            c.res(False if not mentions(nr, ('CALL', 'LOOPV', 'AFTER', 'OPQ')) else None, 'split', w, 'stored pieces are kept', show(nr)[:200])
            continue
        new = ps[1:]
        if len(new) != 1 or new[0].op != 'ONE':
            c.res(False if all(p.op == 'ONE' for p in new) else None, 'split', w, 'each step stores one piece', '%d pieces when %s' % (len(new), showconds(conds)[:200]))
            continue
        r = new[0].a[0]
        if r.op == 'ADDED':
            r = r.a[0]
        prhs = s2.norm(R(r, 'rhs'))
        lhs = R(r, 'lhs')
        why = 'when %s: piece %s, remaining %s' % (showconds(conds)[:300], show(r)[:300], show(nw)[:200])
        t = s2.truth(le(length(prhs), lim))
        if t is None:
            t = must0(s2, le(length(prhs), lim), W, rec.havoc[wl][1])
        c.res(t, 'split', w, 'every piece fits the limit', why)
        rem = ori(nw)
        qs = list(parts(rem))
        full_ = W
        emp = conc_list(nw) == [] or conc_list(normeq(s2, nw)) == [] or s2.truth(eq(length(nw), C(0)))
        if emp:
            c.same('split', w, s2, lhs, R(rule, 'lhs'), 'the last piece has the original left-hand side')
            tot = norm_eq(s2, ori(prhs))
            c.res(True if tot is full_ else cmpw(s2, ori(prhs), full_), 'split', w, 'the last piece takes all remaining symbols in order', why)
            continue
        if lhs.op != 'FRESH':
            c.res(False if free_leaf(lhs) else None, 'split', w, 'an inner piece has a fresh left-hand side', why)
            continue
        if not mentions(lhs, ('IDX',)):
            c.viol('split', w, 'an inner piece has a fresh left-hand side', 'one symbol shared by all pieces: ' + why)
            continue
        done = False
        if qs and qs[0] is one(lhs):
            done = True
            cand = ori(concat(prhs, seq(qs[1:])))
        elif qs and qs[-1] is one(lhs):
            done = True
            cand = ori(concat(seq(qs[:-1]), prhs))
        if not done:
            c.res(False if not any(x is lhs for x in subterms(nw)) else None, 'split', w, 'the fresh symbol replaces the symbols it took', why)
            continue
        c.res(True if norm_eq(s2, cand) is full_ else cmpw(s2, cand, full_), 'split', w, 'the fresh symbol replaces the symbols it took', why)
        # counters
    if not free_leaf(ret) and ret.op == 'LV':
        loc = next((l for l, (lv, i) in rec.havoc.items() if lv is ret), None)
        if loc:
            c.same('split', w, st0, rec.havoc[loc][1], C(0), 'the piece count starts at zero')
            for kind, conds, evs, s2 in rec.cases:
                if kind == 'back':
                    c.same('split', w, s2, sub(s.I.readloc(s2, *loc), rec.havoc[loc][0]), C(1), 'the piece count grows by one per piece')


def norm_eq(s2, t):
    return normeq(s2, t)


def must0(s2, t, W, init):
    return None


def cmpw(s2, a, W):
    """the sequence must be exactly W; definite when it is built from known pieces of W and cannot be W"""
    a = normeq(s2, a)
    ps = parts(a)
    if not all(p.op == 'ONE' or (p.op == 'SUB' and p.a[0] in (W, mk('REV', W))) or (p.op == 'ALL' and p.a[0] in (W, mk('REV', W))) for p in ps):
        return None
    d = normeq(s2, sub(length(a), length(W)))
    if isC(d) and d.a[0] != 0 or s2.truth(eq(d, C(0))) is False:
        return False
    if any(p.op in ('SUB', 'ALL') and p.a[0].op == 'REV' for p in ps):
        return False
    subs = [p for p in ps if p.op == 'SUB']
    if len(subs) == len(ps) == 2 and subs[0].a[1] is subs[1].a[2]:
        return False         # the two halves swapped
    return None


def p_add(I, st, f, vs, site):
    cell, path = I.ptr_of(st, vs[0])
    rule = I.deref_deep(st, vs[1])
    cur = I.readloc(st, cell, path)
    st.event('add', rule, cf(cur, 'rhs_len_invariant'))
    return PR.p_add_rule(I, st, f, vs, site)


def limit(c):
    c.rule('limit', 'setting a limit stores it first and then re-inserts every rule through the limited insertion')
    pr = dict(PR.STD)
    pr['Cfg::add_rule'] = p_add
    s = c.summary('Cfg::limit_rhs_len', ['self', 'limit'], prims=pr)
    if not s:
        return
    w = s.fn.n
    g, l = mk('SYM', 'self'), mk('SYM', 'limit')
    for st, ret in s.outs:
        out = s.cell(st, 'self')
        c.same('limit', w, st, cf(out, 'rhs_len_invariant'), l, 'the limit is stored')
        old = cf(g, 'rules')
        j = joint(st, cf(out, 'rules'), old)
        if j is None:
            c.inc('limit', w, 'every rule is re-inserted', show(cf(out, 'rules'))[:200])
        else:
            for s2, items in j:
                if len(items) == 1 and items[0].op == 'ONE' and items[0].a[0].op == 'ADDED':
                    c.same('limit', w, s2, items[0].a[0].a[0], mk('ELEM', 'J', old), 'every rule is re-inserted')
                elif len(items) == 1 and items[0].op == 'ONE':
                    e = mk('ELEM', 'J', old)
                    ok_ = None
                    if items[0].a[0] is e:
                        for s3 in c.split(s2, [is_some(l)]):
                            if s3.truth(is_some(l)):
                                pv = cf(g, 'rhs_len_invariant')
                                hy = [(le(length(R(e, 'rhs')), unsome(pv)), True)] if s3.truth(is_some(pv)) else []
                                c.res(must(s3, le(length(R(e, 'rhs')), unsome(l)), hy), 'limit', w, 'every rule is re-inserted', 'kept without splitting when %s' % showconds(s3.conds)[:200])
                    else:
                        c.inc('limit', w, 'every rule is re-inserted', show(items[0])[:200])
                else:
                    c.res(False if all(i.op == 'ONE' for i in items) else None, 'limit', w, 'every rule is re-inserted', '%d rules for one when %s' % (len(items), showconds(s2.conds)[:200]))
        for loop_ in [e[1] for e in st.ev if e[0] == 'loop']:
            for kind, conds, evs, s2 in loop_.cases:
                for e in evs:
                    if e[0] == 'add':
                        c.same('limit', w, s2, e[2], l, 'rules are re-inserted under the new limit')
    s = c.summary('Cfg::rule_rhs_len_allowed_range', ['self'], prims={})
    if s:
        lim = cf(g, 'rhs_len_invariant')
        for st, r in s.outs:
            if r.op == 'ADT' and len(r.a[2]) >= 2:
                if st.truth(is_some(lim)):
                    c.same('limit', s.fn.n, st, r.a[2][1], unsome(lim), 'the allowed range ends at the limit')


def writers(c):
    c.rule('writers', 'every public operation that changes the rule list either inserts through the limited insertion, or only drops, reorders or reverses stored rules')
    names = sorted(n for n, fs in c.p.byname.items() if n.startswith('cfg_grammar::cfg::Cfg::') and fs[0].kind != 'Closure' and '{' not in n)
    g = mk('SYM', 'self')
    n_ = 0
    for n in names:
        f = c.p.byname[n][0]
        if f.body['argc'] < 1 or n.endswith('::add_rule'):
            continue
        t = fz(f.body['locals'][1])
        if not (t[0] == 'ref' and t[1] and t[2][0] == 'adt' and t[2][1] == 'cfg_grammar::cfg::Cfg'):
            continue
        args = ['self'] + ['a%d' % i for i in range(2, f.body['argc'] + 1)]
        s = c.summary(f, args, rule='writers')
        if not s:
            continue
        n_ += 1
        for st, ret in s.outs:
            out = s.cell(st, 'self')
            try:
                new = st.norm(cf(out, 'rules'))
            except Missing:
                continue
            r, why = admissible(c, st, new, cf(g, 'rules'), g)
            c.res(r, 'writers', f.n, 'stored rules respect the limit', why)
    c.res(True if n_ >= 5 else None, 'writers', 'cfg_grammar::cfg::Cfg', 'writers enumerated', '%d' % n_)
    # no other module reaches the rule list mutably
    for f in c.p.fns.values():
        if f.crate == 'cfg_grammar' and f.n.startswith('cfg_grammar::cfg::'):
            continue
    return


def admissible(c, st, t, old, g):
    """every rule in t was stored before, was split to the limit, or is no longer than one stored before"""
    if t is old:
        return True, ''
    if t.op in ('SORT', 'DEDUP'):
        return admissible(c, st, t.a[0], old, g)
    worst, why = True, ''
    for p in parts(t):
        if p.op == 'ALL':
            if p.a[0] is old:
                continue
            if p.a[0].op in ('SORT', 'DEDUP', 'REV'):
                r, y = admissible(c, st, p.a[0].a[0], old, g)
                if r is not True:
                    worst, why = r, y
                continue
            if free_leaf(p.a[0]):
                return False, 'rules taken over without splitting: %s' % show(p.a[0])[:200]
            worst, why = None, show(p)[:200]
        elif p.op == 'ONE':
            r, y = item(st, p.a[0], None, None, g)
            if r is False:
                return r, y
            if r is None:
                worst, why = r, y
        elif p.op == 'COMP':
            L, src, cases = p.a
            for conds, items in cases:
                s2 = st.fork()
                if not learn_all(s2, conds):
                    continue
                for q in items:
                    if q.op != 'ONE':
                        worst, why = None, show(q)[:200]
                        continue
                    r, y = item(s2, q.a[0], mk('ELEM', L, src) if src is old or within(src, old) else None, src, g)
                    if r is False:
                        return r, y
                    if r is None:
                        worst, why = r, y
        else:
            worst, why = None, show(p)[:200]
    return worst, why


def within(src, old):
    while src.op in ('SORT', 'DEDUP', 'REV'):
        src = src.a[0]
    if src.op == 'SEQ' and len(src.a) == 1 and src.a[0].op == 'COMP' and src.a[0].a[1] is old:
        L = src.a[0].a[0]
        return all(i.op == 'ONE' and i.a[0] is mk('ELEM', L, old) for _, its in src.a[0].a[2] for i in its)
    return src is old


def item(st, x, e, src, g):
    if x.op == 'ADDED':
        return True, ''
    if e is not None and x is e:
        return True, ''
    if x.op == 'ELEM' and x.a[1].op == 'SEQ':
        return admissible(None, st, x.a[1], cf(g, 'rules'), g)
    try:
        rhs = R(x, 'rhs')
    except Missing:
        return None, ''
    if e is not None:
        d = sub(length(rhs), length(R(e, 'rhs')))
        if isC(d) and d.a[0] <= 0:
            return True, ''
    lim = cf(g, 'rhs_len_invariant')
    t = st.truth(is_some(lim))
    if t is False:
        return True, ''
    n = length(rhs)
    if isC(n) and n.a[0] <= 2:
        return True, ''
    if t and st.truth(le(n, unsome(lim))):
        return True, ''
    if x.op == 'ELEM' and free_leaf(x):
        return False, 'rules taken over without splitting: %s' % show(src)[:200]
    if isC(n) and n.a[0] > 2:
        return False, 'rule of length %d stored without splitting: %s' % (n.a[0], show(x)[:200])
    if free_leaf(n) and n.op == 'LEN' and precise(n):
        return False, 'rule of any length stored without splitting: %s' % show(x)[:200]
    return None, show(x)[:200]


def shapes(c):
    """rules of known length over unknown symbols"""
    big = c.tier == 'thorough'
    c.rule('shape', 'for rules of up to %d symbols and limits up to %d: stored pieces fit, helper symbols are fresh and used once, '
                    'and expanding the helpers gives back the rule' % ((9, 5) if big else (7, 4)))
    g, rule = mk('SYM', 'self'), mk('SYM', 'rule')
    pr = dict(PR.SYM)
    for k in [None] + list(range(2, 6 if big else 5)):
        for n in range(10 if big else 8):
            for nul in ((FALSE, TRUE) if n < 3 else (FALSE,)):
                xs = [mk('SYM', 'x%d' % i) for i in range(n)]
                g1 = withf(g, 'cfg::Cfg', rhs_len_invariant=NONE if k is None else some(C(k)), eliminate_nulling=nul)
                r1 = withf(rule, 'CfgRule', rhs=seqof(xs))
                try:
                    # what the history says does not matter here; a known number of dots keeps every step decided
                    r1 = withf(r1, 'CfgRule', history=withf(R(rule, 'history'), 'History', dots=EMPTY))
                except Missing:
                    pass
                s = c.summary('Cfg::add_rule', ['self', r1], prims=pr, pre=lambda st: st.cells.__setitem__(('in', 'self'), g1), decided=True, rule='shape')
                if s is None:
                    return
                for st, ret in s.outs:
                    shape(c, s, st, ret, g, r1, xs, k, nul)


def shape(c, s, st, ret, g, r1, xs, k, nul):
    w = s.fn.n
    tag = '%d symbols, %s' % (len(xs), 'no limit' if k is None else 'limit %d' % k) + (', no empty rules' if nul is TRUE else '')
    out = s.cell(st, 'self')
    ps = parts(st.norm(cf(out, 'rules')))
    new = conc_list(seq(ps[1:])) if ps and ps[0].op == 'ALL' and ps[0].a[0] is cf(g, 'rules') else None
    if new is None:
        c.inc('shape', w, tag + ': stored pieces are known', show(seq(ps))[:300])
        return
    c.same('shape', w, st, ret, C(len(new)), tag + ': returns the number of stored pieces')
    why = 'stored %s when %s' % (', '.join(show(x)[:120] for x in new)[:600], showconds(st.conds)[:200])
    if nul is TRUE and not xs:
        c.ok('shape', w, tag + ': empty rule')
        return
    whole = k is None or len(xs) <= k
    if not new:
        c.viol('shape', w, tag + ': the rule is stored', why)
        return
    if whole:
        c.res(len(new) == 1, 'shape', w, tag + ': a fitting rule is stored whole', why)
    env, known, prec = {}, True, True
    tops = []
    for r in new:
        if r.op == 'ADDED':
            r = r.a[0]
        lhs, rhs = st.norm(R(r, 'lhs')), conc_list(st.norm(R(r, 'rhs')))
        if rhs is None:
            c.inc('shape', w, tag + ': piece contents are known', why)
            return
        if k is not None:
            c.res(len(rhs) <= k, 'shape', w, tag + ': every piece fits the limit', why)
        if lhs.op == 'FRESH':
            if lhs in env:
                c.viol('shape', w, tag + ': helper symbols are used once', why)
                return
            env[lhs] = rhs
        else:
            tops.append((lhs, rhs, r))
    if len(tops) != 1:
        c.res(False if all(free_leaf(t[0]) for t in tops) else None, 'shape', w, tag + ': one piece has the original left-hand side', why)
        return
    c.same('shape', w, st, tops[0][0], R(r1, 'lhs'), tag + ': one piece has the original left-hand side')
    if whole and len(new) == 1:
        c.same('shape', w, st, R(tops[0][2], 'history'), R(r1, 'history'), tag + ': a fitting rule keeps its history')
    used = []

    def expand(l, d):
        o = []
        for x in l:
            if x in env and d < 40:
                used.append(x)
                o += expand(env[x], d + 1)
            else:
                o.append(x)
        return o
    full_ = expand(tops[0][1], 0)
    c.same('shape', w, st, seqof(full_), seqof(xs), tag + ': expanding the helpers gives back the rule')
    c.res(sorted(map(show, used)) == sorted(map(show, env)), 'shape', w, tag + ': every helper symbol is used once', why)


PARTS = [split, limit, writers, shapes]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p01', 'gen', 'next_sym')]
