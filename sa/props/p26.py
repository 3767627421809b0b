"""Printed grammars and named rules."""
from fix import *
from props.p12 import cf

TECHNIQUE = ('abstract interpretation of MIR: the printed text is summarised as a symbolic string (literals, numbers, names, loops over rules and right-hand sides) '
             'and compared piece by piece, on every path, with the documented format')

G = mk('SYM', 'self')


def tokens(st, items):
    """pieces of a text: literals merged, ('n', symbol), ('s', name), ('loop', L, src, cases); None when unknown"""
    out = []
    for x in items:
        if x.op == 'COMP':
            out.append(('loop',) + tuple(x.a))
            continue
        if x.op == 'ONE':
            v = x.a[0]
            if isC(v):
                lit(out, chr(v.a[0]))
                continue
            return None
        if x.op != 'ALL':
            return None
        v = st.norm(x.a[0])
        if v.op == 'S':
            lit(out, v.a[0])
        elif v.op == 'SEQ':
            t = tokens(st, v.a)
            if t is None:
                return None
            for y in t:
                lit(out, y[1]) if y[0] == 'lit' else out.append(y)
        elif v.op == 'DISP':
            if v.a[0].op == 'USZ':
                out.append(('n', st.norm(v.a[0].a[0])))
            else:
                out.append(('d', v.a[0]))
        elif precise(v):
            out.append(('s', v))
        else:
            return None
    return [t for t in out if t != ('lit', '')]


def lit(out, s):
    if out and out[-1][0] == 'lit':
        out[-1] = ('lit', out[-1][1] + s)
    else:
        out.append(('lit', s))


def symtok(st, names, e, bare):
    """the expected text of a symbol; None when the path does not decide it"""
    if bare:
        return [('n', e)]
    i = usz(e)
    inb = st.truth(lt(i, length(names)))
    sm = st.truth(is_some(at(names, i)))
    if inb is None or inb and sm is None:
        return None
    if inb and sm:
        nm = F(unsome(at(names, i)), 'SymbolName', 'name')
        return [('s', nm), ('lit', '('), ('n', e), ('lit', ')')]
    return [('lit', 'g'), ('n', e), ('lit', '('), ('n', e), ('lit', ')')]


def usz(e):
    return mk('USZ', e)


def cat(*ls):
    out = []
    for l in ls:
        for t in l:
            lit(out, t[1]) if t[0] == 'lit' else out.append(t)
    return [t for t in out if t != ('lit', '')]


def stok(ts):
    return ''.join('<%s>' % show(t[1]) if t[0] in ('n', 's', 'd') else t[1] if t[0] == 'lit' else '{loop}' for t in ts)


def symsplit(c, st, names, e, bare):
    if bare:
        return [st]
    i = usz(e)
    out = []
    for s2 in c.split(st, [lt(i, length(names))]):
        out += c.split(s2, [is_some(at(names, i))]) if s2.truth(lt(i, length(names))) else [s2]
    return out


def bnf(c):
    c.rule('rule', 'every rule is printed on its own line as LHS ::= SYM ~ SYM ~ ...; with () for an empty right-hand side, in order')
    c.rule('sym', 'a symbol is printed as its name and number, a nameless one as g, its number and its number; only numbers are printed when no symbol has a name')
    s = c.summary('Cfg::stringify_to_bnf', ['self'])
    if not s:
        return
    w = s.fn.n
    rules = cf(G, 'rules')
    names = F(cf(G, 'sym_source'), 'SymbolSource', 'names')
    q = qall(names, lambda e: neg(is_some(e)))
    for st0, ret in s.outs:
        for st in c.split(st0, [q]):
            bare = st.truth(q)
            r = st.norm(s.I.deref_deep(st, ret))
            ps = [p for p in parts(r) if not (p.op == 'ALL' and p.a[0].op == 'S' and p.a[0].a[0] == '')]
            if len(ps) != 1 or ps[0].op != 'COMP':
                c.res(None if not precise(r) or len(ps) < 1 else False if all(p.op in ('COMP', 'ALL') for p in ps) and any(p.op == 'ALL' and p.a[0].op == 'S' for p in ps) else None,
                      'rule', w, 'only rules are printed', show(r)[:200])
                continue
            L, src, cases = ps[0].a
            if src is not rules:
                c.res(False if part_of(src) is rules or base(src) is rules else None, 'rule', w, 'every rule is printed, in order', show(src)[:200])
                continue
            e = mk('ELEM', L, rules)
            for conds, items in cases:
                s1 = st.fork()
                if not learn_all(s1, conds):
                    continue
                emp = eq(length(R(e, 'rhs')), C(0))
                for s2 in symsplit(c, s1, names, R(e, 'lhs'), bare):
                    for s3 in c.split(s2, [emp]):
                        line(c, w, s3, items, e, names, bare, s3.truth(emp))


def line(c, w, st, items, e, names, bare, empty):
    why = 'when %s' % showconds(st.conds)[:300]
    ts = tokens(st, items)
    if ts is None:
        c.inc('rule', w, 'the text of a rule', show(seq(items))[:300])
        return
    lhs = symtok(st, names, R(e, 'lhs'), bare)
    if empty:
        ts = [t for t in ts if not (t[0] == 'loop' and t[2] is R(e, 'rhs'))]
        ts = cat(ts)
        want = cat(lhs, [('lit', ' ::= ();\n')])
        verdict(c, 'rule', w, ts, want, 'an empty rule', why)
        return
    loops = [i for i, t in enumerate(ts) if t[0] == 'loop']
    if len(loops) != 1:
        c.res(False if not loops and all(t[0] in ('lit', 'n', 's') for t in ts) and not any(R(e, 'rhs') in set(subterms(t[1])) for t in ts if t[0] != 'lit') else None, 'rule', w, 'the right-hand side is printed', stok(ts)[:300])
        return
    k = loops[0]
    verdict(c, 'rule', w, cat(ts[:k]), cat(lhs, [('lit', ' ::= ')]), 'the left-hand side', why)
    verdict(c, 'rule', w, cat(ts[k + 1:]), [('lit', ';\n')], 'the end of the line', why)
    _, L, src, cases = ts[k]
    rhs = R(e, 'rhs')
    if src is not rhs:
        c.res(False if part_of(src) is rhs or base(src) is rhs else None, 'rule', w, 'every symbol is printed, in order', show(src)[:200])
        return
    x = mk('ELEM', L, rhs)
    first, last = eq(mk('IDX', L), C(0)), eq(mk('IDX', L), sub(length(rhs), C(1)))
    modes = []
    for conds, items in cases:
        s1 = st.fork()
        if not learn_all(s1, conds):
            continue
        for s2 in symsplit(c, s1, names, x, bare):
            for s3 in c.split(s2, [first, last]):
                t = tokens(s3, items)
                wt = symtok(s3, names, x, bare)
                if t is None or wt is None:
                    c.inc('sym', w, 'the text of a symbol', show(seq(items))[:300])
                    return
                modes.append((s3.truth(first), s3.truth(last), t, wt, showconds(s3.conds)[:300]))
    SEP = [('lit', ' ~ ')]
    pre = [cat([] if f else SEP, wt) for f, l, t, wt, y in modes]
    post = [cat(wt, [] if l else SEP) for f, l, t, wt, y in modes]
    got = [t for f, l, t, wt, y in modes]
    if got == post:
        pre = post
    for (f, l, t, wt, y), p in zip(modes, pre):
        verdict(c, 'sym', w, t, p, 'a symbol of the right-hand side', 'when ' + y)


def verdict(c, ru, w, got, want, what, why):
    if got == want:
        c.ok(ru, w, what)
        return
    bad = all(t[0] in ('lit', 'n', 's') or t[0] == 'd' and precise(t[1]) for t in got)
    if bad and any(t[0] == 's' and t not in want and ('s', t[1]) not in want for t in got):
        # a name read some other way
        bad = all(t[1].op == 'FLD' for t in got if t[0] == 's')
    c.res(False if bad else None, ru, w, what, '%r instead of %r %s' % (stok(got)[:150], stok(want)[:150], why))


def named(c):
    c.rule('named', 'named rules are equal iff their sides carry the same names, position for position, and their histories agree where both have one; naming a rule keeps both sides, the history and the names')
    N = 'cfg::NamedCfgRule'
    g = lambda v, n: F(v, N, n)
    s = c.summary('<cfg_grammar::cfg::NamedCfgRule as core::cmp::PartialEq>::eq', ['a', 'b'])
    a, b = mk('SYM', 'a'), mk('SYM', 'b')
    if s:
        nm = lambda v, x: at(g(v, 'names'), usz(x))
        EQ = eq
        z = mk('ZIP', g(a, 'rhs'), g(b, 'rhs'))
        x, y = mk('ELEM', '•', g(a, 'rhs')), mk('ELEM', '•', g(b, 'rhs'))
        Q = mk('QALL', z, (((EQ(nm(a, x), nm(b, y)), True),),))
        A = [EQ(nm(a, g(a, 'lhs')), nm(b, g(b, 'lhs'))), eq(length(g(a, 'rhs')), length(g(b, 'rhs'))), Q]
        ha, hb = is_some(g(a, 'history')), is_some(g(b, 'history'))
        H = EQ(g(a, 'history'), g(b, 'history'))
        spec = lambda s2: all(s2.truth(t) for t in A) and (not s2.truth(ha) or not s2.truth(hb) or s2.truth(H))
        for st, ret in s.outs:
            ats = A + [ha, hb, H]
            odd = [t for t, p in st.conds if t not in ats and not (t.op == 'EQ' and any(q.op == 'ELEM' for q in subterms(t))) and not simple(t, z)]
            ret = st.norm(ret)
            boolres(c, 'named', s.fn.n, st, ret, spec, ats, 'compares names, lengths and histories', ok=lambda t: precise(t) and not odd)
    s = c.summary('CfgRule::named', ['self', 'ss'])
    for st, ret in (s.outs if s else ()):
        ret = st.norm(s.I.deref_deep(st, ret))
        for f, want in (('lhs', R(G, 'lhs')), ('rhs', R(G, 'rhs')), ('history', some(R(G, 'history'))), ('names', F(mk('SYM', 'ss'), 'SymbolSource', 'names'))):
            c.same('named', s.fn.n, st, g(ret, f), want, 'naming keeps %s' % f)


def simple(t, z):
    """a quantified comparison of names over the same pairs"""
    return t.op == 'QALL' and t.a[0] is z and all(len(cl) == 1 and cl[0][0].op == 'EQ' and precise(cl[0][0]) for cl in t.a[1])


PARTS = [bnf, named]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p01', 'look', 'name_of|::names'), ('p01', 'hist', 'name_of')]
