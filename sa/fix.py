"""Inductive reading of work-list / round-robin fixpoints from loop summaries."""
from fw import *


def alloops(st):
    """every loop summary reachable from the events of a path: (rec, chain of enclosing recs)"""
    out, seen = [], set()

    def go(evs, chain):
        for e in evs:
            if e[0] == 'loop':
                r = e[1]
                k = (id(r), tuple(id(x) for x in chain))
                if k in seen:
                    continue
                seen.add(k)
                out.append((r, chain))
                for kind, conds, ev2, s2 in r.cases:
                    go(ev2, chain + (r,))
    go(st.ev, ())
    return out


def base(t):
    """the sequence under reorderings and removal of repeats"""
    while t.op in ('SORT', 'DEDUP', 'REV', 'MAPOF'):
        t = t.a[0]
    return t


def part_of(t):
    """the sequence of which t is a proper slice"""
    t = base(t)
    if t.op == 'SEQ' and len(t.a) == 1 and t.a[0].op == 'SUB':
        b = t.a[0]
        if isC(b.a[1]) and b.a[1].a[0] > 0 or isC(b.a[2]) or isC(sub(length(b.a[0]), b.a[2])) and sub(length(b.a[0]), b.a[2]).a[0] > 0:
            return base(b.a[0])
    if t.op == 'SEQ' and len(t.a) == 1 and t.a[0].op == 'COMP' and all(len(it) <= 1 and all(x.op == 'ONE' for x in it) for _, it in t.a[0].a[2]):
        return part_of(t.a[0].a[1])
    return None


def elem_of(t, src):
    """is t an element of (a reordering of) src?"""
    return t.op == 'ELEM' and base(t.a[1]) is src


def all_fact(st, src, body):
    """truth of: body(x) holds for every x of src, from the quantified facts of the path. body: fn(elem)->atom"""
    e = mk('ELEM', '•', src)
    a = body(e)
    pol = True
    if a.op == 'NOT':
        a, pol = a.a[0], False
    q = mk('QALL', src, (((a, pol),),))
    r = st.truth(q)
    if r is not None:
        return r
    q2 = mk('QALL', src, (((a, not pol),),))
    # all negated -> none holds
    if st.truth(q2) is True and st.truth(eq(length(src), C(0))) is False:
        return False
    return None


def any_fact(st, src, body):
    e = mk('ELEM', '•', src)
    a = body(e)
    pol = True
    if a.op == 'NOT':
        a, pol = a.a[0], False
    r = st.truth(mk('QALL', src, (((a, not pol),),)))
    return None if r is None else not r


def occ_index(c, rule, w, st, rules, m, field):
    """the list `field` of entry x of map m holds (at least) the index of every rule with x on its right-hand side.
    m is the closed form of a map filled by a loop over the rules"""
    if m.op != 'LOOPV' and m.op != 'LUPD':
        c.inc(rule, w, 'occurrence lists cover every rule', show(m)[:200])
        return
    rec = next((r for r, ch in alloops(st) if any(v is m for v in r.closed.values())), None)
    if rec is None or base(rec.src or EMPTY) is not rules:
        c.inc(rule, w, 'occurrence lists cover every rule', show(m)[:200])
        return
    loc = next(l for l, v in rec.closed.items() if v is m)
    lv = rec.havoc[loc][0]
    r = elem(rec.id, rec.src)
    rhs = R(r, 'rhs')
    for kind, conds, evs, s2 in rec.cases:
        if kind in ('exit', 'ret', 'brk'):
            c.res(False if all(precise(a) or not mentions(a, ('CALL', 'OPQ')) for a, _ in conds) else None, rule, w,
                  'occurrence lists cover every rule', 'indexing stops early when %s' % showconds(conds)[:200])
            continue
        v = REC_I.readloc(s2, *loc) if False else c_read(c, s2, loc)
        # the update for right-hand sides is the outermost LUPD over the rule's right-hand side
        found = None
        x = v
        while x.op in ('LUPD', 'MINS', 'STORE'):
            if x.op == 'LUPD' and base(x.a[2]) is rhs:
                found = x
                break
            if x.op == 'LUPD' and part_of(x.a[2]) is rhs:
                c.viol(rule, w, 'occurrence lists cover every rule', 'only a part of the right-hand side is indexed: %s' % show(x.a[2])[-200:])
                found = 'bad'
                break
            x = x.a[1] if x.op == 'LUPD' else x.a[0]
        if found == 'bad':
            continue
        if found is None:
            n0 = s2.truth(eq(length(rhs), C(0)))
            if n0:
                c.ok(rule, w, 'occurrence lists cover every rule')
                continue
            lup = [y for y in subterms(v) if y.op == 'LUPD' and rhs in set(subterms(y.a[2]))]
            opaque = lup or mentions(v, ('CALL', 'OPQ', 'AFTER')) or any(y.op == 'LOOPV' and y is not lv for y in subterms(v) if y.a and y.a[0] != rec.id)
            c.res(None if opaque else False, rule, w, 'occurrence lists cover every rule', 'right-hand side not indexed when %s %s' % (showconds(conds)[:200], [show(y.a[2])[:200] for y in lup]))
            continue
        L2, _, src2, cases = found.a
        e2 = elem(L2, src2)
        for cc, ups in cases:
            okk = None
            for u in ups:
                if u[0] == 'MINS' and u[1] is e2:
                    try:
                        lst = field(u[2])
                    except Missing:
                        continue
                    last = parts(lst)[-1] if parts(lst) else None
                    okk = bool(last is not None and last is one(mk('IDX', rec.id)))
                    if not okk and last is not None and last.op == 'ONE' and not isC(last.a[0]) and not precise(last.a[0]):
                        okk = None
            if not ups:
                okk = False
            c.res(okk, rule, w, 'occurrence lists cover every rule', 'when %s: %s' % (showconds(cc)[:200], str([show(y)[:200] for u in ups for y in u[1:]])[:300]))


def R(v, n):
    return F(v, 'CfgRule', n)


def c_read(c, st, loc):
    return c.cur.I.readloc(st, *loc)


# ------------------------------------------------------------------ sets and relations filled by loops
def unwind(t):
    """(initial value, updates in order)"""
    ups = []
    x = complemented(t)
    if x is not None:
        i, ups = unwind(x)
        return flip(i), [flipu(u) for u in ups]
    while t.op in ('LUPD', 'STORE', 'MINS', 'MREM'):
        if t.op == 'LUPD':
            ups.append(('LUPD', t.a[0], t.a[2], t.a[3]))
            t = t.a[1]
        else:
            ups.append((t.op,) + t.a[1:])
            t = t.a[0]
    return t, list(reversed(ups))


def complemented(t):
    """the sequence whose point-wise complement is t"""
    if t.op == 'SEQ' and len(t.a) == 1 and t.a[0].op == 'COMP':
        L, src, cases = t.a[0].a
        if len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1 and cases[0][1][0].op == 'ONE' and cases[0][1][0].a[0] is neg(elem(L, src)):
            return src
    return None


def flip(v):
    if isC(v):
        return C(1 - int(v.a[0]))
    if v.op == 'SEQ' and all(p.op == 'REP' and isC(p.a[0]) for p in v.a):
        return seq([mk('REP', flip(p.a[0]), p.a[1]) for p in v.a])
    return mk('BVNOT', v)


def flipu(u):
    if u[0] == 'LUPD':
        return u[:3] + (tuple((k, tuple(flipu(x) for x in us)) for k, us in u[3]),)
    return u[:2] + (flip(u[2]),)


def renloop(x, L, e, i=None):
    m = {}
    for y in binders((x,), L):
        if y.op == 'ELEM' and e.op == 'ELEM' and base(y.a[1]) is not base(e.a[1]):
            m[y] = elem(e.a[0], y.a[1])
            continue
        m[y] = e if y.op == 'ELEM' else (i if i is not None else mk('IDX', e.a[0] if e.op == 'ELEM' else '?'))
    return subst_t(x, m)


def expand(u, depth=0):
    """an update loop over a pipeline (COMP) becomes loops over the pipeline's own sources"""
    _, L, src, cases = u
    b = base(src)
    if b.op != 'SEQ' or depth > 4 or not all(p.op in ('COMP', 'ONE', 'ALL') for p in b.a):
        return [u]
    if len(b.a) == 1 and b.a[0].op == 'ALL':
        return [u]
    if any(y.op == 'IDX' for y in binders((cases,), L)):
        return [u]
    out = []
    for p in b.a:
        if p.op == 'ONE':
            out.extend(('CASE', c, ups) for c, ups in renloop(cases, L, p.a[0]))
        elif p.op == 'ALL':
            out.extend(expand(('LUPD', L, p.a[0], renloop(cases, L, mk('ELEM', L, p.a[0]))), depth + 1))
        else:
            L2, src2, cs2 = p.a
            nc = []
            for k, items in cs2:
                if not items:
                    nc.append((k, ()))
                    continue
                ups = []
                for q in items:
                    ups.extend(expand(('LUPD', L, seq([q]), cases), depth + 1))
                alts = [(tuple(k), ())]
                for x in ups:
                    if x[0] == 'CASE':
                        continue
                    alts = [(kk, uu + (x,)) for kk, uu in alts]
                cas = [x for x in ups if x[0] == 'CASE']
                # single item with cases: alternatives
                if cas:
                    alts = [(kk + tuple(x[1]), uu + tuple(x[2])) for kk, uu in alts for x in cas] if len(items) == 1 or len(cas) == sum(1 for q in items if q.op == 'ONE') and all(not x[1] for x in cas) and False else \
                        ([(kk, uu + tuple(y for x in cas for y in x[2])) for kk, uu in alts] if all(not x[1] for x in cas) else None)
                if alts is None:
                    return [u]
                nc.extend(alts)
            out.append(('LUPD', L2, src2, tuple(nc)))
    return out


def already(conds, target, val):
    for a, p in conds:
        b = a
        if b.op == 'ELEM' and target.op == 'IDX' and b.a[0] == target.a[0] and mentions(b.a[1], ('LV',)) and bool(p) == bool(val):
            return True
        if b.op == 'AT' and b.a[1] is target and any(y.op == 'LV' for y in subterms(b.a[0])) and bool(p) == bool(val):
            return True
        if b.op in ('MVAL', 'MHAS') and b.a[1] is target and any(y.op == 'LV' for y in subterms(b.a[0])) and bool(p) == bool(val):
            return True
    return False


def setmarks(c, rule, w, st, t, over, specs, val, what):
    """t is a set (bit vector, relation, map of flags) filled by loops over `over`.
    specs: [(label, guard(e) -> [(atom, polarity)], inner(e) -> sequence or None, target(e, s) -> index)].
    Decides that exactly the specified members get the value val. Returns the initial value or None."""
    init, ups = unwind(st.norm(t))
    E = mk('ELEM', 'ρ', over)
    X = []
    for u in ups:
        X.extend(expand(u) if u[0] == 'LUPD' else [u])
    states = [(st.fork(), [])]
    for u in X:
        if u[0] != 'LUPD':
            c.inc(rule, w, what, 'update outside a loop %s' % show(u[1])[:200])
            return init
        _, L, src, cases = u
        if part_of(src) is over:
            c.viol(rule, w, what, 'only a part is visited: %s' % show(src)[:200])
            return init
        if base(src) is not over:
            c.inc(rule, w, what, 'loop over %s' % show(src)[:200])
            return init
        cases = renloop(cases, L, E)
        nx = []
        for s, items in states:
            for k, its in cases:
                s2 = s.fork()
                if learn_all(s2, k):
                    nx.append((s2, items + [(k, i) for i in its]))
        states = nx
    if not X:
        free = free_leaf(init) or init is EMPTY or init.op == 'BM0' or init.op == 'SEQ' and all(p.op == 'REP' for p in init.a)
        c.res(False if free else None, rule, w, what, 'nothing is recorded: %s' % show(init)[:200])
        return init
    guards = []
    for lab, g, inner, target in specs:
        for a, p in g(E):
            if a not in guards:
                guards.append(a)
    for s, items in states:
        for s2 in c.split(s, guards):
            one_marks(c, rule, w, s2, s, items, E, specs, val, what)
    return init


def one_marks(c, rule, w, st, st0, items, E, specs, val, what):
    why = 'when %s' % showconds(st.conds[-6:])[:300]
    def fine(a, p):
        # "not recorded yet" holds for the first rule
        if a.op in ('AT', 'MVAL', 'MHAS') and a.a[0].op == 'LV' and bool(p) != bool(val) and precise(a.a[1]):
            return True
        return not mentions(a, ('CALL', 'OPQ', 'AFTER', 'LOOPV', 'LV'))
    pr = all(fine(a, p) for a, p in st0.conds)
    used = set()
    unk = False
    for n, (k, u) in enumerate(items):
        if u[0] in ('STORE', 'MINS'):
            if not isC(u[2]):
                unk = True
        elif u[0] != 'LUPD':
            unk = True
    for lab, g, inner, target in specs:
        gt = all(st.truth(a) == p for a, p in g(E))
        sub_ = inner(E) if inner else None
        got = None
        if sub_ is None:
            tg = st.norm(target(E, None))
            for n, (k, u) in enumerate(items):
                if u[0] in ('STORE', 'MINS') and st.norm(u[1]) is tg:
                    used.add(n)
                    got = u[2] is C(val) if isC(u[2]) else None
                elif u[0] == 'LUPD':
                    # a loop over a sequence whose single element is meant
                    pass
            if got is None and already(st.conds, target(E, None), val):
                got = True
            if gt:
                c.res(True if got else (None if unk or not pr else False), rule, w, what, '%s is not recorded %s' % (lab, why))
            elif got:
                c.res(False if pr else None, rule, w, what, '%s is recorded %s' % (lab, why))
        else:
            S = mk('ELEM', 'σ', sub_)
            for n, (k, u) in enumerate(items):
                if u[0] != 'LUPD':
                    continue
                if part_of(u[2]) is sub_:
                    c.viol(rule, w, what, '%s: only a part is visited %s' % (lab, show(u[2])[-200:]))
                    used.add(n)
                    got = True
                    continue
                if base(u[2]) is not sub_:
                    continue
                got = True
                used.add(n)
                for k2, us in renloop(u[3], u[1], S):
                    s3 = st.fork()
                    if not learn_all(s3, k2):
                        continue
                    tg = s3.norm(target(E, S))
                    hit = [x for x in us if x[0] in ('STORE', 'MINS') and s3.norm(x[1]) is tg]
                    oth = [x for x in us if x not in hit]
                    pr2 = pr and all(fine(a, p) for a, p in k2)
                    if already(k2, target(E, S), val):
                        c.ok(rule, w, what)
                    elif hit:
                        c.res((hit[-1][2] is C(val)) if isC(hit[-1][2]) else None, rule, w, what, '%s: recorded as %s' % (lab, show(hit[-1][2])))
                        if not gt:
                            c.res(False if pr2 else None, rule, w, what, '%s is recorded %s' % (lab, why))
                    elif gt:
                        c.res(False if pr2 and not oth else None, rule, w, what, '%s is not recorded when %s' % (lab, showconds(k2)[:200]))
                    if oth:
                        for x in oth:
                            if x[0] in ('STORE', 'MINS') and not mentions(x[1], ('CALL', 'OPQ', 'LOOPV', 'LV', 'AFTER')) and isC(x[2]) and (x[2] is C(val)):
                                c.res(None, rule, w, what, 'something else is recorded: %s' % show(x[1])[:200])
            if got is None and gt:
                n0 = st.truth(eq(length(sub_), C(0)))
                c.res(True if n0 else (None if unk or not pr or len(used) < len(items) else False), rule, w, what, '%s are not recorded %s' % (lab, why))
    for n, (k, u) in enumerate(items):
        if n in used:
            continue
        if u[0] in ('STORE', 'MINS') and isC(u[2]) and not mentions(u[1], ('CALL', 'OPQ', 'LOOPV', 'LV', 'AFTER')):
            # another member
            c.res(False if pr and not any(inner for _, _, inner, _ in specs) and u[1].op in ('USZ', 'TUP') and (u[2] is C(val)) and not empty_guard(st, u) else None,
                  rule, w, what, '%s is recorded %s' % (show(u[1])[:100], why))
        else:
            c.res(None, rule, w, what, 'not understood: %s' % (u[0],))


def empty_guard(st, u):
    return False


def classes(st, t, src, L='J'):
    """like joint(), also through passes over intermediate lists: list of (state, items) per class of element of src"""
    out = [(st.fork(), ())]
    for p in parts(st.norm(t)):
        if p.op == 'ALL' and p.a[0] is src:
            out = [(s, i + (one(mk('ELEM', L, src)),)) for s, i in out]
            continue
        if p.op == 'COMP' and p.a[1] is not src:
            nx = []
            for s, its in out:
                inner = classes(s, p.a[1], src, L)
                if inner is None:
                    return None
                for s2, its2 in inner:
                    cur = [(s2, its)]
                    for x in its2:
                        if x.op != 'ONE':
                            return None
                        L0, s0, cases = p.a
                        m = {}
                        for z in binders(cases, L0):
                            if z.op != 'ELEM' or z.a[1] is not s0:
                                return None
                            m[z] = x.a[0]
                        cs = subst_t(cases, m)
                        cur2 = []
                        for s3, i3 in cur:
                            for conds, it in cs:
                                s4 = s3.fork()
                                if learn_all(s4, [(s4.norm(a), pl) for a, pl in conds]):
                                    cur2.append((s4, i3 + tuple(it)))
                        cur = cur2
                    nx += cur
            out = nx
            continue
        if p.op != 'COMP':
            return None
        L0, _, cases = p.a
        m = {}
        for z in binders(cases, L0):
            m[z] = elem(L, z.a[1]) if z.op == 'ELEM' else mk('IDX', L)
        cases = subst_t(cases, m)
        nx = []
        for s, items in out:
            for conds, it in cases:
                s2 = s.fork()
                if learn_all(s2, conds):
                    nx.append((s2, items + tuple(it)))
        out = nx
    return out


def qcons(st, src, n):
    """False when a quantified fact of the path about src contradicts what is known of its n elements"""
    for a, p in st.conds:
        if a.op != 'QALL' or a.a[0] is not src:
            continue
        val = True
        for k in range(n):
            m = {mk('ELEM', '•', src): at(src, C(k)), mk('IDX', '•'): C(k)}
            ts = []
            for conj in a.a[1]:
                v = True
                for b, q in conj:
                    t = st.truth(st.norm(subst(b, m)))
                    if t is None:
                        v = None if v is True else v
                    elif t != q:
                        v = False
                        break
                ts.append(v)
            e = True if any(t is True for t in ts) else (None if any(t is None for t in ts) else False)
            if e is False:
                val = False
                break
            if e is None:
                val = None
        if val is not None and val != p:
            return False
    return True


def distinct(st, a, b, pool):
    """two different places of a rule hold different symbols in general"""
    return a is not b and a in pool and b in pool and st.truth(eq(a, b)) is not True


def consistent(st):
    """False: the path's equalities contradict another of its facts"""
    for a, p in st.conds:
        if a.op == 'EQ0' and p:
            continue
        v = normeq(st, a)
        if isC(v) and bool(v.a[0]) != p:
            return False
    return True
