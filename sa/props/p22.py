"""Derivation matrices."""
from fix import *

TECHNIQUE = ('abstract interpretation of MIR: the pairs recorded for every rule are extracted from the loop summaries and compared with the definition of each relation; '
             'closure operations are tracked symbolically')


def cf(v, n):
    return F(v, 'cfg::Cfg', n)


def M(v):
    """the bit matrix inside a (wrapped) symbol matrix"""
    for p in ('DirectDerivationMatrix', 'ReachabilityMatrix', 'UnitDerivationMatrix'):
        if v.op == 'ADT' and v.a[0].endswith('::' + p):
            v = v.a[2][0]
    return F(v, 'SymbolBitMatrix', 'bit_matrix')


PAIRS = [('every pair of left-hand side and right-hand-side symbol', lambda e: [], lambda e: R(e, 'rhs'), lambda e, s: tup([PR.usz(R(e, 'lhs')), PR.usz(s)]))]
UNIT_ = [('the pair of a unit rule', lambda e: [(eq(length(R(e, 'rhs')), C(1)), True), (eq(R(e, 'lhs'), at(R(e, 'rhs'), C(0))), False)], None,
          lambda e, s: tup([PR.usz(R(e, 'lhs')), PR.usz(at(R(e, 'rhs'), C(0)))]))]


def closed(c, rule, w, t, want, what):
    """strips closure operators; want: list of operators expected outermost first"""
    ops = []
    while t.op in ('TCL', 'RCL'):
        ops.append(t.op)
        t = t.a[0]
    if 'TCL' in ops and ops.count('TCL') > 1:
        ops = [o for i, o in enumerate(ops) if o not in ops[:i]]
    c.res(True if sorted(set(ops)) == sorted(want) else (None if mentions(t, ('CALL', 'OPQ', 'AFTER', 'LOOPV')) else False), rule, w, what, '%s, expected %s' % (ops, want))
    return t


def build(c):
    c.rule('build', 'direct derivation holds exactly the pairs (left-hand side, right-hand-side symbol); unit derivation is the transitive closure of the unit rules between different '
                    'symbols; reachability is the transitive closure of direct derivation')
    g = mk('SYM', 'g')
    rules = cf(g, 'rules')
    n = mk('NSYMS', cf(g, 'sym_source'))
    X = 'CfgSymbolBitMatrixExt>::'
    for nm, want, specs, what in (('direct_derivation_matrix', [], PAIRS, 'direct derivation'), ('reachability_matrix', ['TCL'], PAIRS, 'reachability'),
                                  ('unit_derivation_matrix', ['TCL'], UNIT_, 'unit derivation')):
        s = c.summary(X + nm, ['g'])
        if not s:
            continue
        for st, ret in s.outs:
            t = closed(c, 'build', s.fn.n, st.norm(M(ret)), want, 'closed as a %s relation' % what)
            init = setmarks(c, 'build', s.fn.n, st, t, rules, specs, 1, 'relates exactly ' + specs[0][0])
            size(c, s, st, init, n)
            self_ = s.cell(st, 'g')
    s = c.summary(X + 'empty_matrix', ['g'])
    for st, ret in (s.outs if s else ()):
        size(c, s, st, M(ret), n)


def size(c, s, st, init, n):
    if init.op == 'BM0':
        r = comb([cmp3(st, init.a[0], n), cmp3(st, init.a[1], n)])
        c.res(r[0], 'build', s.fn.n, 'starts empty, one row and column per symbol', str(r[1])[:300])
    else:
        c.res(None, 'build', s.fn.n, 'starts empty, one row and column per symbol', show(init)[:200])


WORLDS = ['a -> b, a -> c', 'a -> b c, a -> b', 'a -> b c, a -> d c, b -> b d', 'a -> a, a -> a a', 'a -> b, b -> a', 'a -> b, b -> c, c -> a', 'a -> b, b -> a, c -> b',
          'a -> b c, a -> c b d, a -> b d', 'a -> a, b -> b b, a -> b', 'a -> b, a -> b, a -> c d, b -> ', 'b -> a, a -> b c, c -> b', 'a -> a b, a -> b a, b -> a']


def worlds(c):
    """whole matrices of small grammars: what one rule records may depend on the rules before it"""
    from props.p13 import grammar, prims, terms_of
    c.rule('worlds', 'for grammars of a few rules, the pairs marked, closed where the matrix is, are exactly those of the definition')
    for txt in WORLDS:
        rules = [(l.strip(), r.split()) for l, r in (x.split('->') for x in txt.split(','))]
        g = grammar(terms_of([(mk('DSYM', l), [mk('DSYM', x) for x in r]) for l, r in rules]))
        for nm, want in (('direct_derivation_matrix', {(l, x) for l, r in rules for x in r}), ('unit_derivation_matrix', {(l, r[0]) for l, r in rules if len(r) == 1 and r[0] != l})):
            s = c.summary('CfgSymbolBitMatrixExt>::' + nm, [g], prims=prims(c), decided=True)
            if not s or len(s.outs) != 1:
                c.inc('worlds', nm, txt, '%d results' % len(s.outs) if s else 'no summary')
                continue
            st, ret = s.outs[0]
            t = st.norm(M(st.norm(s.I.deref_deep(st, ret))))
            tcl = False
            while t.op in ('TCL', 'RCL'):
                tcl |= t.op == 'TCL'
                t = t.a[0]
            b = t
            while b.op == 'MINS':
                b = b.a[0]
            m = ground_marks(t) if b.op == 'BM0' else None
            if m is None:
                c.inc('worlds', nm, txt, show(t)[:200])
                continue
            if tcl:
                m, want = trans(m), trans(want)
            c.res(m == want, 'worlds', s.fn.n, '%s of %s' % (nm, txt), 'marks %s instead of %s' % (sorted(m), sorted(want)))


def trans(r):
    while True:
        n = r | {(a, d) for a, b in r for c, d in r if b == c}
        if n == r:
            return r
        r = n


def ground_marks(t):
    m = mk('MAP0')
    ins = []
    while t.op == 'MINS':
        ins.append((t.a[1], t.a[2]))
        t = t.a[0]
    for k, v in reversed(ins):
        m = mk('MINS', m, k, v)
    es = ground_entries(m)
    if es is None:
        return None
    out = set()
    for k, v in es.items():
        if v is FALSE:
            continue
        if v is not TRUE or k.op != 'TUP' or any(x.op != 'USZ' or x.a[0].op != 'DSYM' for x in k.a):
            return None
        out.add(tuple(x.a[0].a[0] for x in k.a))
    return out


def steps(c):
    c.rule('steps', 'reflexive() adds the reflexive closure only, reachability() the transitive closure only; conversions keep the matrix')
    m = mk('SYM', 'm')
    for nm, op, fr in (('ReachabilityMatrix::reflexive', 'RCL', 'ReachabilityMatrix'), ('DirectDerivationMatrix::reachability', 'TCL', 'DirectDerivationMatrix')):
        s = c.summary(nm, ['m'])
        for st, ret in (s.outs if s else ()):
            m0 = F(fld(m, full(fr), 0, 0), 'SymbolBitMatrix', 'bit_matrix')
            t = st.norm(M(ret))
            want = mk(op, m0)
            c.res(True if t is want else (False if t is m0 or (t.op in ('TCL', 'RCL') and t.a[0] is m0) else None), 'steps', s.fn.n, 'the closure named', show(t)[:200])
    for f in c.p.fns.values():
        if f.n.endswith('SymbolBitMatrix as core::convert::From>::from') or f.n.endswith('BitMatrix as core::convert::From>::from'):
            s = c.summary(f, ['m'])
            for st, ret in (s.outs if s else ()):
                ty = fz(f.body['locals'][1])
                src = m
                if ty[0] == 'adt' and not ty[1].endswith('::SymbolBitMatrix'):
                    src = fld(m, ty[1], 0, 0)
                src = F(src, 'SymbolBitMatrix', 'bit_matrix')
                got = ret if ret.op != 'ADT' and not (ret.op == 'FLD' and False) else ret
                try:
                    got = src if st.norm(ret) is src else F(ret, 'SymbolBitMatrix', 'bit_matrix')
                except Exception:
                    c.inc('steps', f.n, 'keeps the matrix')
                    continue
                c.res(True if st.norm(got) is src else None, 'steps', f.n, 'keeps the matrix', show(got)[:200])


def square(c):
    c.rule('square', 'a plain bit matrix becomes a symbol matrix, unchanged, exactly when it has as many rows as columns')
    m = mk('SYM', 'm')
    for f in [f for f in c.p.fns.values() if f.n.endswith('SymbolBitMatrix as core::convert::TryFrom>::try_from')]:
        s = c.summary(f, ['m'])
        for st, ret in (s.outs if s else ()):
            ret = st.norm(ret)
            z = mk('BMSIZE', m)
            q = eq(fld(z, '(tuple)', 0, 0), fld(z, '(tuple)', 0, 1))
            t = st.truth(q)
            sure = all(set(x.a[0] for x in subterms(a) if x.op == 'SYM') <= {'m'} and not mentions(a, ('CALL', 'OPQ', 'AFTER', 'LOOPV')) for a, _ in st.conds)
            ok = ret.op == 'ADT' and ret.a[1] == 0
            what = 'accepted exactly when square' + ('' if t is None else ' (%s)' % ('square' if t else 'not square'))
            if t is None:
                c.res(False if sure else None, 'square', f.n, what, '%s when %s' % (show(ret)[:100], showconds(st.conds)[:200]))
                continue
            c.res(ok == t if ret.op == 'ADT' else None, 'square', f.n, what, '%s when %s' % (show(ret)[:100], showconds(st.conds)[:200]))
            if ok and t:
                c.same('square', f.n, st, F(ret.a[2][0], 'SymbolBitMatrix', 'bit_matrix'), m, 'keeps the matrix')


def read(c):
    c.rule('read', 'indexing by a pair reads row first, column second; iter_row_syms yields exactly the symbols of the row')
    m = mk('SYM', 'm')
    B = F(m, 'SymbolBitMatrix', 'bit_matrix')
    fs = [f for f in c.p.fns.values() if f.n.endswith('SymbolBitMatrix as core::ops::index::Index>::index')]
    for f in fs[:1]:
        x, y = mk('SYM', 'x'), mk('SYM', 'y')
        s = c.summary(f, ['m', tup([x, y])])
        for st, ret in (s.outs if s else ()):
            v = s.I.deref_deep(st, ret)
            a = mk('BM', B, PR.usz(x), PR.usz(y))
            sw = mk('BM', B, PR.usz(y), PR.usz(x))
            if isC(v):
                t = st.truth(a)
                c.res((t == bool(v.a[0])) if t is not None else (False if st.truth(sw) is not None else None), 'read', f.n, 'reads row, then column', '%s when %s' % (show(v), showconds(st.conds)[:300]))
            else:
                c.res(True if v is a else (False if v is sw else None), 'read', f.n, 'reads row, then column', show(v)[:200])
    s = c.summary('SymbolBitMatrix::iter_row_syms', ['m', 'r'])
    for st, ret in (s.outs if s else ()):
        import models
        row = mk('BMROW', B, PR.usz(mk('SYM', 'r')))
        e = mk('ELEM', 'i', row)
        want = mk('COMP', 'i', row, ((((e, True),), (one(gsym('sym', mk('IDX', 'i'))),)), (((e, False),), ())))
        for s2, v in models.collect_seq(s.I, st.fork(), ret, ('collect',), 'iter'):
            c.same('read', s.fn.n, s2, v, mk('SEQ', want), 'exactly the symbols of the row, in order')


PARTS = [build, steps, square, read, worlds]
