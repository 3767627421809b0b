"""Symbol set queries."""
from fix import *

TECHNIQUE = ('abstract interpretation of MIR: each query is reduced to its initial set and the marks made per rule, which are compared with the definition; '
             'set operations are compared point-wise')


def cf(v, n):
    return F(v, 'cfg::Cfg', n)


SET = 'symbol_bit_set::SymbolBitSet'
bv = lambda v: F(v, SET, 'bit_vec')
LHS = ('the left-hand side', lambda e: [], None, lambda e, s: PR.usz(R(e, 'lhs')))
RHS = ('right-hand-side symbols', lambda e: [], lambda e: R(e, 'rhs'), lambda e, s: PR.usz(s))
NULL = ('the left-hand side of an empty rule', lambda e: [(eq(length(R(e, 'rhs')), C(0)), True)], None, lambda e, s: PR.usz(R(e, 'lhs')))


def rep(v, g):
    return mk('SEQ', mk('REP', C(v), PR.nsyms(F(g, 'cfg::Cfg', 'sym_source')) if hasattr(PR, 'nsyms') else mk('NSYMS', cf(g, 'sym_source'))))


def queries(c):
    c.rule('query', 'used/unused/terminal/nulling/productive/subtract_productive: initial membership and the marks made for every rule are exactly those of the definition')
    g, s0 = mk('SYM', 'g'), mk('SYM', 's')
    rules = cf(g, 'rules')
    spec = {
        'used': (0, 1, [LHS, RHS], 'reset'), 'unused': (1, 0, [LHS, RHS], 'reset'), 'terminal': (1, 0, [LHS], 'reset'),
        'nulling': (0, 1, [NULL], 'keep'), 'productive': (0, 1, [LHS], 'keep'), 'subtract_productive': (1, 0, [LHS], 'keep'),
    }
    for n, (i, v, sp, mode) in spec.items():
        s = c.summary('SymbolBitSet::' + n, ['s', 'g'])
        if not s:
            continue
        for st, ret in s.outs:
            out = bv(s.cell(st, 's'))
            init = setmarks(c, 'query', s.fn.n, st, out, rules, sp, v, 'marks exactly ' + ' and '.join(x[0] for x in sp))
            ini(c, s, st, init, g, i, mode, s0)
    for n, (i, v, sp) in {'terminal_symbols': (1, 0, [LHS]), 'nulling_symbols': (0, 1, [NULL]), 'unused_symbols': (1, 0, [LHS, RHS])}.items():
        s = c.summary('Cfg::' + n, ['g'])
        if not s:
            continue
        for st, ret in s.outs:
            init = setmarks(c, 'query', s.fn.n, st, bv(st.norm(ret)), rules, sp, v, 'marks exactly ' + ' and '.join(x[0] for x in sp))
            ini(c, s, st, init, g, i, 'reset', s0)


def ini(c, s, st, init, g, i, mode, s0):
    if init is None:
        return
    want = rep(i, g)
    what = 'starts with %s symbols of the grammar' % ('all' if i else 'no')
    if mode == 'keep':
        z = st.truth(eq(length(bv(s0)), C(0)))
        if z is None:
            l0 = length(bv(s0))
            m = must(st, le(C(1), l0)) if init is bv(s0) else must(st, eq(l0, C(0)))
            c.res(m, 'query', s.fn.n, 'starts with the given set' if init is not bv(s0) else what, 'when %s: %s' % (showconds(st.conds)[:200], show(init)[:200]))
            return
        if not z:
            c.same('query', s.fn.n, st, init, bv(s0), 'starts with the given set')
            return
    if st.truth(eq(mk('NSYMS', cf(g, 'sym_source')), C(0))) and init is EMPTY:
        c.ok('query', s.fn.n, what)
        return
    samebits(c, 'query', s.fn.n, st, init, want, what)


def samebits(c, rule, w, st, a, b, what):
    a, b = st.norm(a), st.norm(b)
    if a is b:
        c.ok(rule, w, what)
        return
    # constant-filled vectors
    def rp(x):
        return x.a[0] if x.op == 'SEQ' and len(x.a) == 1 and x.a[0].op == 'REP' else None
    x, y = rp(a), rp(b)
    if x is not None and y is not None:
        v = x.a[0] is y.a[0] or (False if isC(x.a[0]) and isC(y.a[0]) else None)
        l, _ = cmp3(st, x.a[1], y.a[1])
        c.res(False if v is False or l == 'DIFF' else (True if v and l == 'EQ' else None), rule, w, what, '%s, expected %s' % (show(a)[:200], show(b)[:200]))
        return
    if a is EMPTY and y is not None or free_leaf(a) and y is not None:
        c.viol(rule, w, what, '%s, expected %s when %s' % (show(a)[:200], show(b)[:200], showconds(st.conds)[:200]))
        return
    c.same(rule, w, st, a, b, what)


def ops(c):
    c.rule('ops', 'reset/set_all/from_elem/new/set/negate/union/reserve/space/all/is_empty/iter/index are the set operations they name')
    g, s0 = mk('SYM', 'g'), mk('SYM', 's')
    B = bv(s0)
    ss = mk('SYM', 'src')
    n = mk('NSYMS', ss)

    def run(name, args, **kw):
        return c.summary('SymbolBitSet::' + name, args, **kw)
    for nm, v in (('reset', 0), ('set_all', 1)):
        s = run(nm, ['s', 'src'])
        for st, ret in (s.outs if s else ()):
            samebits(c, 'ops', s.fn.n, st, bv(s.cell(st, 's')), mk('SEQ', mk('REP', C(v), n)), 'one position per symbol, all %s' % v)
    s = run('from_elem', ['g', 'e'])
    for st, ret in (s.outs if s else ()):
        samebits(c, 'ops', s.fn.n, st, bv(ret), mk('SEQ', mk('REP', mk('SYM', 'e'), mk('NSYMS', cf(g, 'sym_source')))), 'one position per symbol')
    s = run('new', [])
    for st, ret in (s.outs if s else ()):
        c.same('ops', s.fn.n, st, bv(ret), EMPTY, 'starts empty')
    s = run('set', ['s', 'x', 'e'])
    for st, ret in (s.outs if s else ()):
        v = st.norm(bv(s.cell(st, 's')))
        ix, e = PR.usz(mk('SYM', 'x')), mk('SYM', 'e')
        if v is B:
            # unchanged: only when it already had the value
            t = st.truth(eq(at(B, ix), e)) if st.truth(e) is None else st.truth(at(B, ix)) == st.truth(e)
            c.res(True if t else (False if all(precise(a) for a, _ in st.conds) else None), 'ops', s.fn.n, 'membership becomes the given value', 'unchanged when %s' % showconds(st.conds)[:300])
        elif v.op == 'STORE' and v.a[0] is B:
            c.same('ops', s.fn.n, st, v.a[1], ix, 'the position of the symbol')
            r, wy = cmp3(st, v.a[2], e)
            c.res(r if r != 'UNK' else (True if isC(v.a[2]) and st.truth(e) == bool(v.a[2].a[0]) else None), 'ops', s.fn.n, 'membership becomes the given value', wy)
        else:
            c.inc('ops', s.fn.n, 'membership becomes the given value', show(v)[:200])
    s = run('negate', ['s'])
    for st, ret in (s.outs if s else ()):
        v = st.norm(bv(s.cell(st, 's')))
        e = mk('ELEM', 'n', B)
        pointwise(c, 'ops', s.fn.n, st, v, B, lambda e: neg(e), 'membership is inverted')
    s = run('union', ['s', 'o'])
    for st, ret in (s.outs if s else ()):
        v = st.norm(bv(s.cell(st, 's')))
        o = bv(mk('SYM', 'o'))
        r = True if v.op == 'BVOR' and set(v.a) == {B, o} else (False if v.op in ('BVAND', 'BVXOR', 'BVDIFFERENCE') or v is B or v is o else None)
        c.res(r, 'ops', s.fn.n, 'becomes the union', show(v)[:200])
    s = run('space', ['s'])
    for st, ret in (s.outs if s else ()):
        c.same('ops', s.fn.n, st, ret, length(B), 'number of positions')
    s = run('reserve', ['s', 'n'])
    for st, ret in (s.outs if s else ()):
        v = st.norm(bv(s.cell(st, 's')))
        N = mk('SYM', 'n')
        if v is B:
            c.res(must(st, le(N, length(B))), 'ops', s.fn.n, 'space for the given number of symbols', 'unchanged when %s' % showconds(st.conds)[:300])
            continue
        ps = parts(v)
        if len(ps) == 2 and ps[0].op == 'ALL' and ps[0].a[0] is B and ps[1].op == 'REP':
            c.same('ops', s.fn.n, st, ps[1].a[0], C(0), 'added positions are not members')
            c.same('ops', s.fn.n, st, ps[1].a[1], sub(N, length(B)), 'space for the given number of symbols')
        else:
            c.same('ops', s.fn.n, st, v, seq(parts(B) + (mk('REP', C(0), sub(N, length(B))),)), 'members stay')
    for nm, pol in (('all', True), ('is_empty', False)):
        s = run(nm, ['s'])
        for st, ret in (s.outs if s else ()):
            q = all_fact(st, B, (lambda e: e) if pol else (lambda e: neg(e)))
            what = 'true exactly when %s position is a member' % ('every' if pol else 'no')
            if isC(ret) and q is not None:
                c.res(bool(ret.a[0]) == q, 'ops', s.fn.n, what, '%s when %s' % (show(ret), showconds(st.conds)[:300]))
            elif q is None and ret.op in ('QALL', 'NOT'):
                x, p = (ret.a[0], False) if ret.op == 'NOT' else (ret, True)
                qq = mk('QALL', B, (((mk('ELEM', '•', B), pol),),))
                qo = mk('QALL', B, (((mk('ELEM', '•', B), not pol),),))
                c.res(True if x is qq and p else (False if x is qq or x is qo else None), 'ops', s.fn.n, what, show(ret)[:200])
            elif isC(ret) and bool(ret.a[0]) is True and unseen(st, B):
                c.viol('ops', s.fn.n, what, 'a position is never looked at: %s when %s' % (show(ret), showconds(st.conds)[:300]))
            elif isC(ret) and all(simple(a, B) for a, _ in st.conds):
                c.viol('ops', s.fn.n, what, '%s when %s' % (show(ret), showconds(st.conds)[:300]))
            else:
                c.inc('ops', s.fn.n, what, show(ret)[:200])
    s = run('iter', ['s'])
    for st, ret in (s.outs if s else ()):
        import models
        for s2, v in models.collect_seq(s.I, st.fork(), ret, ('collect',), 'iter'):
            e = mk('ELEM', 'i', B)
            want = mk('COMP', 'i', B, ((((e, True),), (one(gsym('sym', mk('IDX', 'i'))),)), (((e, False),), ())))
            c.same('ops', s.fn.n, s2, v, mk('SEQ', want), 'exactly the members, in order')
    f = 'symbol_bit_set::SymbolBitSet as std::ops::Index<cfg_symbol::Symbol>>::index'
    idx(c, 'ops', s0, B)


def simple(a, B):
    return a.op == 'QALL' and a.a[0] is B and precise(a) or a.op == 'ELEM' and a.a[1] is B


def unseen(st, B):
    """the path decides on the strength of the length and of slices of B that leave out a position B may have"""
    n = length(B)
    lo, hi = None, None
    for a, pol in st.conds:
        if a.op in ('QALL', 'ELEM'):
            s = a.a[0 if a.op == 'QALL' else 1]
            if a.op == 'QALL' and not precise(a):
                return False
            if s is B:
                return False
            ps = parts(s)
            if len(ps) != 1 or ps[0].op != 'SUB' or ps[0].a[0] is not B:
                return False
            _, l, h = ps[0].a
            lo = l if lo is None else mk('BOT')
            hi = h
        elif mentions(a, ('ELEM', 'QALL', 'CALL', 'OPQ', 'AFTER', 'LOOPV')):
            return False
        elif set(x for x in subterms(a) if x.op == 'SYM') - set(subterms(B)):
            return False
    if lo is None:      # no position looked at: sound only when B is empty
        return not must(st, eq(n, C(0))) and satisfiable(st, [(lt(C(0), n), True)])
    if lo.op == 'BOT':
        return False
    if isC(lo) and lo.a[0] > 0:
        return True
    return isC(hi) and not must(st, le(n, hi)) and satisfiable(st, [(lt(hi, n), True)])


def pointwise(c, rule, w, st, v, B, want, what):
    if v is B:
        c.viol(rule, w, what, 'unchanged')
        return
    ps = parts(v)
    if len(ps) != 1 or ps[0].op != 'COMP' or ps[0].a[1] is not B:
        c.inc(rule, w, what, show(v)[:200])
        return
    L, _, cases = ps[0].a
    for k, items in cases:
        s2 = st.fork()
        if not learn_all(s2, k):
            continue
        e = mk('ELEM', L, B)
        for pol in (True, False):
            s3 = s2.fork()
            if not s3.learn(e, pol):
                continue
            if len(items) == 1 and items[0].op == 'ONE':
                t = s3.truth(items[0].a[0])
                x = s3.truth(want(e))
                c.res(None if t is None or x is None else t == x, rule, w, what, show(items[0])[:200])
            else:
                c.inc(rule, w, what, str(items)[:200])


def idx(c, rule, s0, B):
    fs = [f for f in c.p.fns.values() if f.n.split('::')[-1] == 'index' and 'SymbolBitSet' in f.n and 'Matrix' not in f.n]
    if len(fs) != 1:
        c.inc(rule, 'SymbolBitSet::index', 'anchor', str([f.n for f in fs])[:200])
        return
    s = c.summary(fs[0], ['s', 'x'])
    if not s:
        return
    for st, ret in s.outs:
        v = s.I.deref_deep(st, ret)
        a = at(B, PR.usz(mk('SYM', 'x')))
        if isC(v):
            c.res(None if st.truth(a) is None else st.truth(a) == bool(v.a[0]), rule, s.fn.n, 'membership of the symbol', '%s when %s' % (show(v), showconds(st.conds)[:300]))
        else:
            c.same(rule, s.fn.n, st, v, a, 'membership of the symbol')


PARTS = [queries, ops]
