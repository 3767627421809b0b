"""Renaming symbols is uniform over the whole grammar, and the recorded mapping is its two-way table."""
from fw import *

TECHNIQUE = ('abstract interpretation of MIR (value numbering over an uninterpreted renaming): every symbol position of the grammar after '
             'the pass must be the renaming applied to the position before it, per guarded loop case')


def MF(v, n):
    return F(v, 'intern::Mapping', n)


def app(x):
    return mk('APP', mk('SYM', 'map'), x)


def comp(src, f):
    return seq([mk('COMP', 'E', src, (((), (one(f(elem('E', src))),)),))])


def mapped_rhs(c, rule, w, st, got, src):
    exp = comp(src, app)
    if got is src:
        q = mkqall('E', src, {frozenset([(eq(elem('E', src), app(elem('E', src))), True)])})
        if st.truth(q):
            c.ok(rule, w, 'every right-hand-side symbol is renamed')
            return
        if any(a.op == 'EQ' and p and canon(src) in (canon(a.a[0]), canon(a.a[1])) and canon(exp) in (canon(a.a[0]), canon(a.a[1])) for a, p in st.conds):
            c.ok(rule, w, 'every right-hand-side symbol is renamed')
            return
    c.same(rule, w, st, got, exp, 'every right-hand-side symbol is renamed')


def remap(c):
    c.rule('remap', 'after renaming by f: every rule l ::= r1..rn has become exactly one rule f(l) ::= f(r1)..f(rn) with the same history, '
                    'roots and all four symbols of every wrapped root are renamed, the name table is moved by the same f')
    pr = dict(PR.STD)
    pr['SymbolSource::remap_symbols'] = rec('names')
    s = c.summary('Remap::remap_symbols', ['self', 'map'], prims=pr)
    if s is None:
        return
    w = s.fn.n
    g0 = F(mk('SYM', 'self'), 'Remap', 'grammar')
    cf = lambda v, n: F(v, 'cfg::Cfg', n)
    for st, ret in s.outs:
        g = st.cells.get(('sym', g0))
        if g is None:
            c.viol('remap', w, 'the grammar is renamed', 'grammar untouched')
            continue
        js = joint(st, cf(g, 'rules'), cf(g0, 'rules'))
        if js is None:
            t = [x for x in subterms(cf(g, 'rules')) if x.op == 'DEDUP']
            c.res(False if t else None, 'remap', w, 'one rule per rule', ('equal rules are merged: ' if t else '') + show(cf(g, 'rules'))[:300])
        else:
            e = mk('ELEM', 'J', cf(g0, 'rules'))
            for s2, items in js:
                if len(items) != 1 or items[0].op != 'ONE':
                    c.res(False if all(x.op == 'ONE' for x in items) else None, 'remap', w, 'one rule per rule', '%d rules when %s' % (len(items), showconds(s2.conds)[:300]))
                    continue
                c.ok('remap', w, 'one rule per rule')
                r = items[0].a[0]
                if r.op == 'ADDED':
                    r = r.a[0]
                c.same('remap', w, s2, F(r, 'CfgRule', 'lhs'), app(F(e, 'CfgRule', 'lhs')), 'left-hand side is renamed')
                mapped_rhs(c, 'remap', w, s2, F(r, 'CfgRule', 'rhs'), F(e, 'CfgRule', 'rhs'))
                c.same('remap', w, s2, F(r, 'CfgRule', 'history'), F(e, 'CfgRule', 'history'), 'history is kept')
        c.same('remap', w, st, cf(g, 'roots'), comp(cf(g0, 'roots'), app), 'roots are renamed')
        wr0 = cf(g0, 'wrapped_roots')
        j = joint(st, cf(g, 'wrapped_roots'), wr0)
        if j is None:
            c.inc('remap', w, 'one wrapped root per wrapped root', show(cf(g, 'wrapped_roots'))[:300])
        else:
            for s2, items in j:
                if len(items) != 1 or items[0].op != 'ONE':
                    c.res(False if all(x.op == 'ONE' for x in items) else None, 'remap', w, 'one wrapped root per wrapped root')
                    continue
                x, e = items[0].a[0], mk('ELEM', 'J', wr0)
                for n in ('root', 'inner_root', 'start_of_input', 'end_of_input'):
                    c.same('remap', w, s2, F(x, 'WrappedRoot', n), app(F(e, 'WrappedRoot', n)), 'wrapped root: %s is renamed' % n)
        ev = events(st, 'names')
        if len(ev) != 1:
            c.res(False if not any(e[0] == 'opaque' for e in st.ev) else None, 'remap', w, 'names are moved by the same renaming', '%d moves' % len(ev))
        else:
            f = ev[0][1][1]
            c.same('remap', w, st, ev[0][1][0], cf(g0, 'sym_source'), 'the names of this grammar are moved')
            x = mk('SYM', 'x')
            for s2, r in apply(s, st, f, [x]):
                c.same('remap', w, s2, r, app(x), 'names are moved by the same renaming')
        for n in ('rhs_len_invariant', 'eliminate_nulling'):
            c.same('remap', w, st, cf(g, n), cf(g0, n), 'leaves %s alone' % n)


def composed(c, w, st, out, me, oti, ote, total=False):
    """out is me followed by the renaming with tables oti (towards internal) and ote (towards external)"""
    src = MF(me, 'to_internal')
    j = joint(st, MF(out, 'to_internal'), src)
    if j is None:
        c.inc('table', w, 'internal side is composed', show(MF(out, 'to_internal'))[:300])
    else:
        e = mk('ELEM', 'J', src)
        ix = PR.usz(unsome(e))
        inb = lt(ix, length(oti))
        for s2, items in j:
            for s3 in c.split(s2, [is_some(e), inb]):
                if s3.truth(is_some(e)) and not s3.truth(inb) and (total or any(x.op == 'AT' and x.a[1] is ix for i in items for x in subterms(i))):
                    continue        # outside the table: does not return
                exp = at(oti, ix) if s3.truth(is_some(e)) and s3.truth(inb) else NONE
                c.same('table', w, s3, seq(items), seqof([exp]), 'internal side is composed')
    c.same('table', w, st, MF(out, 'to_external'), comp(ote, lambda x: at(MF(me, 'to_external'), PR.usz(x))), 'external side is composed')


def table(c):
    c.rule('table', 'the mapping starts as the identity, composing renames both directions, an ordering renames by the sorted position and its table is inverted exactly')
    s = c.summary('Remap::new', ['g'])
    g = mk('SYM', 'g')
    ns = mk('NSYMS', F(g, 'cfg::Cfg', 'sym_source'))
    NONNEG.add(ns)
    idn = lambda f: seq([mk('COMP', 'E', mk('SEQ', mk('RNG', C(0), ns)), (((), (one(f(gsym('sym', mk('IDX', 'E')))),)),))])
    if s:
        for st, r in s.outs:
            m = F(r, 'Remap', 'mapping')
            c.same('table', s.fn.n, st, MF(m, 'to_internal'), idn(some), 'starts as the identity towards internal symbols')
            c.same('table', s.fn.n, st, MF(m, 'to_external'), idn(lambda x: x), 'starts as the identity towards external symbols')
    n = mk('SYM', 'n')
    s = c.summary('Mapping::new', ['n'])
    if s:
        for st, r in s.outs:
            c.same('table', s.fn.n, st, MF(r, 'to_internal'), seq([mk('REP', NONE, n)]), 'an empty mapping has no internal symbol')
            c.same('table', s.fn.n, st, MF(r, 'to_external'), EMPTY, 'an empty mapping has no external symbol')
    s = c.summary('Mapping::translate', ['self', 'other'])
    me, ot = mk('SYM', 'self'), mk('SYM', 'other')
    if s:
        for st, r in s.outs:
            out = s.cell(st, 'self')
            composed(c, s.fn.n, st, out, me, MF(ot, 'to_internal'), MF(ot, 'to_external'))
    pr = dict(PR.STD)
    pr['Remap::remap_symbols'] = rec('remap')
    s = c.summary('Remap::reorder_symbols', ['self', 'f'], prims=pr)
    if s:
        w = s.fn.n
        g0 = F(me, 'Remap', 'grammar')
        ns = mk('NSYMS', F(g0, 'cfg::Cfg', 'sym_source'))
        every = seq([mk('COMP', 'E', mk('SEQ', mk('RNG', C(0), ns)), (((), (one(gsym('sym', mk('IDX', 'E'))),)),))])
        for st, r in s.outs:
            rv = events(st, 'remap')
            if len(rv) != 1:
                c.res(False if not any(e[0] == 'opaque' for e in st.ev) and len(rv) <= 1 else None, 'table', w,
                      'ordering renames the grammar', 'renamed %d times when %s' % (len(rv), showconds(st.conds)[:300]))
                continue
            c.ok('table', w, 'ordering renames the grammar')
            mo = F(me, 'Remap', 'mapping')
            m = F(s.cell(st, 'self'), 'Remap', 'mapping')
            sorts = {x for y in (MF(m, 'to_external'), MF(m, 'to_internal'), rv[0][1][1]) for x in subterms(y) if x.op == 'SORT'}
            if len(sorts) != 1:
                c.inc('table', w, 'all symbols are ordered', '%d orderings' % len(sorts))
                continue
            ext = sorts.pop()
            c.same('table', w, st, ext.a[0], every, 'all symbols are ordered')
            a, b = mk('SYM', 'a'), mk('SYM', 'b')
            if ext.a[1] is not None and isinstance(ext.a[1], T) and ext.a[1].op in ('CLO', 'SYM'):
                for s2, rr in apply(s, st, ext.a[1], [a, b]):
                    c.same('table', w, s2, rr, mk('APP', mk('SYM', 'f'), a, b), 'symbols are ordered by the given order')
            inn = mk('LUPD', 'E', seq([mk('REP', NONE, ns)]), ext, (((), (('STORE', PR.usz(elem('E', ext)), some(gsym('sym', mk('IDX', 'E')))),)),))
            composed(c, w, st, m, mo, inn, ext, total=True)
            x = mk('SYM', 'x')
            for s2, rr in apply(s, st, rv[0][1][1], [x]):
                c.same('table', w, s2, rr, unsome(at(inn, PR.usz(x))), 'the grammar is renamed by the recorded table')
    s = c.summary('Remap::get_mapping', ['self'])
    if s:
        for st, r in s.outs:
            c.same('table', s.fn.n, st, r, F(me, 'Remap', 'mapping'), 'the record is returned')


def drop(c):
    c.rule('drop', 'removing unused symbols orders the used ones first and cuts exactly the unused ones off')
    un = mk('SYM', 'unused')
    pr = dict(PR.STD)
    pr['Remap::reorder_symbols'] = rec('reorder')
    pr['SymbolSource::truncate'] = rec('trunc')
    pr['Cfg::unused_symbols'] = rec('unused', mkadt('SymbolBitSet', bit_vec=un))
    s = c.summary('Remap::remove_unused_symbols', ['self'], prims=pr)
    if not s:
        return
    w = s.fn.n
    for st, r in s.outs:
        ev = events(st, 'reorder')
        tv = events(st, 'trunc')
        uv = events(st, 'unused')
        if len(ev) != 1 or len(tv) != 1 or len(uv) != 1:
            c.inc('drop', w, 'orders once and cuts once')
            continue
        order = [e[0] for e in st.ev if e[0] in ('reorder', 'trunc', 'unused')]
        c.res(order == ['unused', 'reorder', 'trunc'], 'drop', w, 'the unused set is taken before renaming and the cut comes after it', str(order))
        a, b = mk('SYM', 'a'), mk('SYM', 'b')
        ua, ub = at(un, PR.usz(a)), at(un, PR.usz(b))
        for s1, rr in apply(s, st, ev[0][1][1], [a, b]):
            for s2 in c.split(s1, [ua, ub]):
                x, y = s2.truth(ua), s2.truth(ub)
                if rr.op == 'CMP' and mentions(rr, ('AT',)):
                    c.same('drop', w, s1, rr, mk('CMP', ua, ub), 'used symbols come before unused ones')
                elif x == y:
                    c.ok('drop', w, 'ties are the order of the caller')
                else:
                    c.same('drop', w, s2, rr, mk('ADT', ORDERING, 0 if x < y else 2, ()), 'used symbols come before unused ones')
        ns = mk('NSYMS', F(F(mk('SYM', 'self'), 'Remap', 'grammar'), 'cfg::Cfg', 'sym_source'))
        cut = tv[0][1][1]
        d = sub(ns, cut)
        if d.op == 'LEN' and d.a[0].op == 'SEQ' and len(d.a[0].a) == 1 and d.a[0].a[0].op == 'COMP':
            p = d.a[0].a[0]
            j = joint(st, d.a[0], un)
            if j is None:
                c.inc('drop', w, 'cuts as many symbols as are unused', show(d))
            else:
                for s2, items in j:
                    e = mk('ELEM', 'J', un)
                    for s3 in c.split(s2, [e]):
                        t = s3.truth(e)
                        c.res(len(items) == (1 if t else 0), 'drop', w, 'cuts as many symbols as are unused', '%d counted for a symbol whose unused mark is %s' % (len(items), t))
        elif isC(d) or (precise(d) and not mentions(d, ('COMP', 'SUM', 'LEN'))):
            c.viol('drop', w, 'cuts as many symbols as are unused', show(cut))
        else:
            c.inc('drop', w, 'cuts as many symbols as are unused', show(cut)[:200])


PARTS = [remap, table, drop]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p01', 'remap', ''), ('p01', 'hist', 'remap_symbols'), ('p14', 'queries', 'unused'), ('p14', 'ops', '::iter|index')]
