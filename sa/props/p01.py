"""Fresh symbols are unique and consecutive; names stay aligned with the symbols they were given to."""
import itertools
from fw import *

TECHNIQUE = 'abstract interpretation of MIR (affine + sequence domain): transfer function of every symbol-source operation compared with its specification'

SRC = 'source::SymbolSource'


def N(v):
    return F(v, 'symbol::Symbol', 'n')


def base(c, name, args, **kw):
    return c.summary(name, args, prims={}, **kw)


def nxt(v):
    return F(v, SRC, 'next_symbol')


def names(v):
    return F(v, SRC, 'names')


def namew(x):
    """SymbolName built from the text x"""
    return mkadt('source::SymbolName', name=x)


def gen(c):
    c.rule('gen', 'a new symbol takes the next number, the counter advances by one, exactly one name entry (the given one) is appended')
    s = base(c, 'SymbolSource::next_sym', ['src', 'name'])
    src, nm = mk('SYM', 'src'), mk('SYM', 'name')
    if s:
        w = s.fn.n
        for st0, ret in s.outs:
            for st in c.split(st0, [is_some(nm)]):
                out = s.cell(st, 'src')
                c.same('gen', w, st, N(ret), N(nxt(src)), 'returns the next unused number')
                c.same('gen', w, st, N(nxt(out)), add(N(nxt(src)), C(1)), 'advances the counter by one')
                e = some(namew(unsome(nm))) if st.truth(is_some(nm)) else NONE
                c.same('gen', w, st, names(out), concat(names(src), seqof([e])), 'appends exactly the given name')
    n = mk('CPARAM', 'N')
    for fn_, args in (('SymbolSource::sym', ['src']), ('SymbolSource::with_names', ['src', 'names'])):
        s = base(c, fn_, args)
        if not s:
            continue
        w = s.fn.n
        for st, ret in s.outs:
            out = s.cell(st, 'src')
            item = one_per(ret)
            if item:
                L, x = item
                c.same('gen', w, st, N(x), add(N(nxt(src)), mk('IDX', L)), 'k-th result has number next + k')
            elif ret.op == 'SEQ' and len(ret.a) == 1 and ret.a[0].op == 'REP':
                c.viol('gen', w, 'k-th result has number next + k', 'all results are equal: ' + show(ret)[:200])
            else:
                c.inc('gen', w, 'k-th result has number next + k', show(ret)[:200])
            d = sub(N(nxt(out)), N(nxt(src)))
            if isC(d) or d.op == 'CPARAM' or d.op == 'LIN' or free_leaf(d):
                okd = d.op == 'CPARAM' or (d.op == 'LEN' and d.a[0] is mk('SYM', 'names'))
                c.res(okd or (False if precise(d) else None), 'gen', w, 'counter advances by the number of symbols', show(d))
            else:
                c.inc('gen', w, 'counter advances by the number of symbols', show(d))
            nn = names(out)
            pp = list(parts(nn))
            if pp and pp[0].op == 'ALL' and pp[0].a[0] is names(src):
                it = per(seq(pp[1:]))
                if it is None:
                    c.inc('gen', w, 'one name entry per symbol', show(nn)[:200])
                else:
                    L, cases = it
                    for cnd, items in cases:
                        s2 = st.fork()
                        if not all(s2.learn(a, p) for a, p in cnd if a.op != 'C'):
                            continue
                        given = mk('ELEM', L, mk('SYM', 'names'))
                        for s3 in (c.split(s2, [is_some(given)]) if len(args) == 2 else [s2]):
                            exp = NONE
                            if len(args) == 2 and s3.truth(is_some(given)):
                                exp = some(namew(unsome(given)))
                            c.same('gen', w, s3, seq(items), seqof([exp]), 'one name entry per symbol, in order')
            else:
                c.res(False if precise(nn) else None, 'gen', w, 'name entries are appended', show(nn)[:200])
    # iterator form
    s = c.summary('SymbolSource::generate', ['src'], prims={})
    f = [x for x in c.p.fns.values() if x.n.endswith('::Generate as core::iter::traits::iterator::Iterator>::next')]
    for g in f[:1]:
        s = c.summary(g, ['it'], prims={})
        if s:
            for st, ret in s.outs:
                sc = [v for k, v in st.cells.items() if k[0] == 'sym' and v.op == 'ADT' and v.a[0].endswith('SymbolSource')]
                it = mk('SYM', 'it')
                old = F(it, 'source::Generate', 'source')
                if len(sc) == 1:
                    c.same('gen', s.fn.n, st, N(unsome(ret)), N(nxt(old)), 'iterator yields the next unused number')
                    c.same('gen', s.fn.n, st, N(nxt(sc[0])), add(N(nxt(old)), C(1)), 'iterator advances the counter by one')
                    c.same('gen', s.fn.n, st, names(sc[0]), concat(names(old), seqof([NONE])), 'iterator appends an empty name')


def one_per(t):
    r = per(t)
    if r and len(r[1]) == 1 and not r[1][0][0] and len(r[1][0][1]) == 1 and r[1][0][1][0].op == 'ONE':
        return r[0], r[1][0][1][0].a[0]
    return None


def per(t):
    if t.op == 'SEQ' and len(t.a) == 1 and t.a[0].op == 'COMP':
        return t.a[0].a[0], t.a[0].a[2]
    return None


def look(c):
    c.rule('look', 'counts, names and numbering are read back from the position of the symbol')
    src, sy = mk('SYM', 'src'), mk('SYM', 'sym')
    s = base(c, 'SymbolSource::new', [])
    if s:
        for st, r in s.outs:
            c.same('look', s.fn.n, st, N(nxt(r)), C(1), 'an empty source starts with the first symbol')
            c.same('look', s.fn.n, st, names(r), EMPTY, 'an empty source has no names')
    s = base(c, 'SymbolSource::num_syms', ['src'])
    if s:
        for st, r in s.outs:
            c.same('look', s.fn.n, st, r, sub(N(nxt(src)), C(1)), 'count is the number of symbols handed out')
    ix = sub(N(sy), C(1))
    NONNEG.add(N(sy))
    inb = lt(ix, length(names(src)))
    ent = at(names(src), ix)
    for fn_, isopt in (('SymbolSource::original_name_of', True), ('SymbolSource::name_of', False)):
        s = base(c, fn_, ['src', 'sym'])
        if not s:
            continue
        w = s.fn.n
        for st0, r in s.outs:
            for st in c.split(st0, [inb, is_some(ent)]):
                if st.truth(inb) and st.truth(is_some(ent)):
                    e = F(unsome(ent), 'source::SymbolName', 'name')
                    if isopt:
                        c.same('look', w, st, r, some(e), 'a named symbol yields its own name')
                    else:
                        c.same('look', w, st, uncow(r), e, 'a named symbol yields its own name')
                elif isopt:
                    c.same('look', w, st, r, NONE, 'an unnamed symbol has no name')
                else:
                    c.same('look', w, st, uncow(r), seq([mk('ALL', S('g')), mk('ALL', mk('DISP', ix))]), 'an unnamed symbol is shown as g followed by its number')
    s = base(c, 'SymbolSource::names', ['src'])
    if s:
        for st, r in s.outs:
            c.same('look', s.fn.n, st, r, names(src), 'the name list is returned unchanged')
    s = base(c, 'SymbolSource::name_map', ['src'])
    if s:
        for st, r in s.outs:
            if r.op != 'MAPOF':
                c.inc('look', s.fn.n, 'name map pairs every name with its symbol', show(r)[:200])
                continue
            e = mk('ELEM', 'm', names(src))
            exp = seq([mk('COMP', 'm', names(src), (
                (((is_some(e), True),), (one(tup([unsome(e), mkadt('symbol::Symbol', n=add(mk('IDX', 'm'), C(1)))])),)),
                (((is_some(e), False),), ())))])
            c.same('look', s.fn.n, st, r.a[0], exp, 'name map pairs every name with its symbol')
    s = c.summary('SymbolSource::truncate', ['src', 'len'], prims={})
    ln = mk('SYM', 'len')
    NONNEG.add(ln)
    if s:
        for st0, r in s.outs:
            out = s.cell(st0, 'src')
            short = lt(ln, length(names(src)))
            c.same('look', s.fn.n, st0, N(nxt(out)), add(ln, C(1)), 'after truncation the next symbol is the cut position')
            for st in c.split(st0, [short]):
                exp = slc(names(src), C(0), ln) if st.truth(short) else names(src)
                c.same('look', s.fn.n, st, names(out), exp, 'truncation keeps exactly the names below the cut')
    for f in c.p.fns.values():
        if f.n.endswith('::generate_fresh::Unfolder as core::iter::traits::iterator::Iterator>::next'):
            s = c.summary(f, ['it'], prims={})
            if s:
                it = mk('SYM', 'it')
                cur = F(it, 'Unfolder', '0')
                for st, r in s.outs:
                    c.same('look', f.n, st, N(unsome(r)), N(cur), 'enumeration yields the current symbol')
                    c.same('look', f.n, st, N(F(s.cell(st, 'it'), 'Unfolder', '0')), add(N(cur), C(1)), 'enumeration advances by one')
    s = base(c, 'SymbolSource::generate_fresh', [])
    if s:
        for st, r in s.outs:
            if r.op == 'ADT':
                c.same('look', s.fn.n, st, N(r.a[2][0]), C(1), 'enumeration starts with the first symbol')


def uncow(v):
    while v.op == 'ADT' and v.a[0].endswith('::Cow') and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


def remap(c):
    c.rule('remap', 'renaming moves every name to the position of its renamed symbol and leaves the rest empty')
    s = c.summary('SymbolSource::remap_symbols', ['src', 'map'], prims={})
    if not s:
        return
    src = mk('SYM', 'src')
    w = s.fn.n
    for st, r in s.outs:
        out = s.cell(st, 'src')
        c.same('remap', w, st, nxt(out), nxt(src), 'the counter is not changed')
        v = names(out)
        if v.op != 'LOOPV' or v.a[2] is not EMPTY:
            if precise(v):
                c.viol('remap', w, 'names are rebuilt from nothing', show(v)[:200])
            else:
                c.inc('remap', w, 'names are rebuilt from nothing', show(v)[:200])
            continue
        rec = next((e[1] for e in st.ev if e[0] == 'loop' and e[1].id == v.a[0]), None)
        if rec is None or rec.src is not names(src) or not rec.regular:
            c.inc('remap', w, 'visits every name once')
            continue
        c.ok('remap', w, 'visits every name once')
        for kind, conds, evs, s2 in rec.cases:
            if kind == 'exit' or kind == 'ret':
                c.viol('remap', w, 'visits every name once', 'leaves the loop early when %s' % showconds(conds))
                continue
            x = s.I.readloc(s2, *v.a[1])
            old = mk('SYM', 'x')
            app = mk('APP', mk('SYM', 'map'), mkadt('symbol::Symbol', n=add(mk('IDX', rec.id), C(1))))
            idx = sub(N(app), C(1))
            if x.op == 'STORE':
                c.same('remap', w, s2, x.a[1], idx, 'stores at the renamed position')
                c.same('remap', w, s2, x.a[2], elem(rec.id, names(src)), 'stores the name of the same symbol')
                fill = [p for p in parts(x.a[0]) if p.op != 'ALL']
                for p in fill:
                    if p.op == 'REP':
                        c.same('remap', w, s2, p.a[0], NONE, 'gaps are filled with no name')
            elif x.op == 'LV':
                c.viol('remap', w, 'stores every name', 'skips a name when %s' % showconds(conds))
            else:
                c.inc('remap', w, 'stores at the renamed position', show(x)[:200])


def grammar(c):
    c.rule('pass', 'the grammar front end hands out symbols of its own source only')
    g = mk('SYM', 'g')
    src = F(g, 'cfg::Cfg', 'sym_source')
    for fn_, args in (('cfg::Cfg::next_sym', ['g', 'name']), ('cfg::Cfg::lexeme', ['g', 'name'])):
        s = base(c, fn_, args)
        if not s:
            continue
        w = s.fn.n
        nm = mk('SYM', 'name')
        for st0, r in s.outs:
            for st in c.split(st0, [is_some(nm)]):
                out = s.cell(st, 'g')
                so = F(out, 'cfg::Cfg', 'sym_source')
                c.same('pass', w, st, N(r), N(nxt(src)), 'returns the next unused number')
                c.same('pass', w, st, N(nxt(so)), add(N(nxt(src)), C(1)), 'advances the counter by one')
                e = some(namew(unsome(nm))) if st.truth(is_some(nm)) else NONE
                c.same('pass', w, st, names(so), concat(names(src), seqof([e])), 'records the given name')
                for n in ('rules', 'roots', 'wrapped_roots', 'rhs_len_invariant'):
                    c.same('pass', w, st, F(out, 'cfg::Cfg', n), F(g, 'cfg::Cfg', n), 'leaves %s alone' % n)
                if fn_.endswith('lexeme'):
                    lex = F(out, 'cfg::Cfg', 'lexemes')
                    bits = lex.a[2][0] if lex.op == 'ADT' else lex
                    i = sub(N(nxt(src)), C(1))
                    if bits.op == 'STORE':
                        c.same('pass', w, st, bits.a[1], i, 'the lexeme mark is set for the new symbol')
                        c.same('pass', w, st, bits.a[2], TRUE, 'the lexeme mark is set')
                    elif not mentions(bits, ('STORE', 'LUPD', 'CALL', 'AFTER', 'LOOPV')):
                        c.viol('pass', w, 'the lexeme mark is set', show(bits)[:200])
                    else:
                        c.inc('pass', w, 'the lexeme mark is set', show(bits)[:200])
                else:
                    c.same('pass', w, st, F(out, 'cfg::Cfg', 'lexemes'), F(g, 'cfg::Cfg', 'lexemes'), 'leaves lexemes alone')
    f = c.fn('cfg::Cfg::sym')
    s = base(c, f, ['g']) if f else None
    if s:
        for st, r in s.outs:
            so = F(s.cell(st, 'g'), 'cfg::Cfg', 'sym_source')
            c.same('pass', s.fn.n, st, N(nxt(so)), add(N(nxt(src)), mk('CPARAM', 'N')), 'advances the counter by the number of symbols')
            item = one_per(r)
            if item:
                c.same('pass', s.fn.n, st, N(item[1]), add(N(nxt(src)), mk('IDX', item[0])), 'k-th result has number next + k')
            else:
                c.inc('pass', s.fn.n, 'k-th result has number next + k', show(r)[:200])
    s = base(c, 'cfg::Cfg::num_syms', ['g'])
    if s:
        for st, r in s.outs:
            c.same('pass', s.fn.n, st, r, sub(N(nxt(src)), C(1)), 'count is that of the source')


def build(c, given):
    """A source made through its own interface: one symbol per entry of `given` (True: named n<i>, False: without a name)."""
    s = c.summary('SymbolSource::new', [], prims={}, rule='hist', decided=True)
    if not s or len(s.outs) != 1:
        return None
    src = s.outs[0][1]
    for i, g in enumerate(given):
        s = c.summary('SymbolSource::next_sym', [mk('PTR', ('in', 'src'), ()), some(mk('SYM', 'n%d' % i)) if g else NONE], prims={}, pre=lambda st, v=src: st.cells.__setitem__(('in', 'src'), v), rule='hist', decided=True)
        if not s or len(s.outs) != 1:
            return None
        src = s.cell(s.outs[0][0], 'src')
    return src


def bits(n):
    for k in range(1 << n):
        yield [bool(k >> i & 1) for i in range(n)]


def observe(c, src, given, order, tag, w0):
    """names read back: symbol order[i]+1 carries the i-th given name"""
    if not precise(src):
        c.inc('hist', w0, tag, show(src)[:200])
        return
    inv = {p: i for i, p in enumerate(order)}
    for fn_ in ('SymbolSource::name_of', 'SymbolSource::original_name_of'):
        for k in range(max([len(given)] + [p + 1 for p in order])):
            s = c.summary(fn_, [src, mkadt('symbol::Symbol', n=C(k + 1))], prims={}, rule='hist', decided=True)
            if not s:
                continue
            i = inv.get(k)
            for st, r in s.outs:
                if fn_.endswith('original_name_of'):
                    c.same('hist', w0, st, r, some(mk('SYM', 'n%d' % i)) if i is not None and given[i] else NONE, tag + ': original name of symbol %d' % k)
                elif i is not None and given[i]:
                    c.same('hist', w0, st, uncow(r), mk('SYM', 'n%d' % i), tag + ': name of symbol %d' % k)
                else:
                    c.same('hist', w0, st, uncow(r), seq([mk('ALL', S('g')), mk('ALL', mk('DISP', C(k)))]), tag + ': name of symbol %d' % k)


def hist(c):
    c.rule('hist', 'after any short history of generating, renaming and truncating, every symbol shows the name it was given')
    top = 4 if c.tier == 'thorough' else 3
    for n in range(top + 1):
        for given in bits(n):
            src = build(c, given)
            if src is None:
                c.inc('hist', 'SymbolSource::next_sym', 'history of %d symbols' % n)
                continue
            tag = 'given ' + ''.join('n' if g else '-' for g in given)
            observe(c, src, given, list(range(n)), tag, 'SymbolSource::name_of')
            s = c.summary('SymbolSource::name_map', [src], prims={}, rule='hist', decided=True)
            if s:
                for st, r in s.outs:
                    got = conc_list(r.a[0]) if r.op == 'MAPOF' else None
                    g2 = None if got is not None else ground_map(r)
                    exp = {mk('SYM', 'n%d' % i): C(i + 1) for i in range(n) if given[i]}
                    if got is not None:
                        g2 = {}
                        for x in got:
                            g2[fld(x, '(tuple)', 0, 0)] = fld(x, '(tuple)', 0, 1)
                    if g2 is None:
                        c.inc('hist', s.fn.n, tag + ': name map', show(r)[:200])
                        continue
                    g3 = {st.norm(F(k, 'source::SymbolName', 'name')): st.norm(N(v)) for k, v in g2.items()}
                    okd = g3 == exp
                    c.res(okd or (False if all(precise(x) for kv in g3.items() for x in kv) else None), 'hist', s.fn.n, tag + ': name map', show(r)[:200])
            for cut in range(1, n + 1):
                s = c.summary('SymbolSource::truncate', [mk('PTR', ('in', 'src'), ()), C(cut)], prims={}, pre=lambda st: st.cells.__setitem__(('in', 'src'), src), rule='hist', decided=True)
                if not s:
                    continue
                for st, r in s.outs:
                    t2 = tag + ' cut to %d' % cut
                    short = s.cell(st, 'src')
                    observe(c, short, given[:cut], list(range(cut)), t2, s.fn.n)
                    s2 = c.summary('SymbolSource::next_sym', [mk('PTR', ('in', 'src'), ()), some(mk('SYM', 'n%d' % cut))], prims={}, pre=lambda q: q.cells.__setitem__(('in', 'src'), short), rule='hist', decided=True)
                    for st2, r2 in (s2.outs if s2 else ()):
                        c.same('hist', s.fn.n, st2, N(r2), C(cut + 1), t2 + ': the next symbol takes the cut position')
                        observe(c, s2.cell(st2, 'src'), given[:cut] + [True], list(range(cut + 1)), t2 + ' and one more', s.fn.n)
            if n < 2 or n > 3:
                continue
            for order in itertools.permutations(range(n + 1), n):
                for keep in range(1, n + 1):
                    if keep != n and (c.tier != 'thorough' or not all(given)):
                        continue
                    table = mk('TABF', *((mkadt('symbol::Symbol', n=C(i + 1)), mkadt('symbol::Symbol', n=C(p + 1))) for i, p in enumerate(order)))
                s = c.summary('SymbolSource::remap_symbols', [mk('PTR', ('in', 'src'), ()), table], prims={}, pre=lambda st: st.cells.__setitem__(('in', 'src'), src), rule='hist', decided=True)
                if not s:
                    continue
                for st, r in s.outs:
                    observe(c, s.cell(st, 'src'), given, order, tag + ' renamed ' + ''.join(map(str, order)), s.fn.n)


PARTS = [gen, look, remap, grammar, hist]
