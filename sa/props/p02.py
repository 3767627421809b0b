"""Symbol numbers survive every encoding."""
from fw import *

TECHNIQUE = ('abstract interpretation of MIR (affine domain): encoder and decoder of every format summarised as affine maps on the '
             'symbol number; their composition must be the identity and the accepted range exact')


def N(v):
    return F(v, 'symbol::Symbol', 'n')


def find(c, pat):
    a, b = pat
    r = [f for f in c.p.fns.values() if f.n.startswith('<') and a in f.n and f.n.endswith(b)]
    if len(r) != 1:
        c.viol('anchor', a + b, 'missing', 'implementation no longer exists')
        return None
    return r[0]


def numeric(c):
    c.rule('num', 'the numeric value of a symbol counts from zero in every accessor and encoder')
    s = mk('SYM', 's')
    for pat, args in ((('cfg_symbol::symbol::Symbol', 'Symbol::usize'), None),):
        pass
    x = c.summary('symbol::Symbol::usize', ['s'], prims={})
    if x:
        for st, r in x.outs:
            c.same('num', x.fn.n, st, r, sub(N(s), C(1)), 'position is the stored number minus one')
    x = c.summary('symbol::Symbol::first', [], prims={})
    if x:
        for st, r in x.outs:
            c.same('num', x.fn.n, st, N(r), C(1), 'the first symbol is number zero')
    f = find(c, ('cfg_symbol::symbol::Symbol as core::convert::Into', '>::into'))
    if f:
        x = c.summary(f, ['s'], prims={})
        if x:
            for st, r in x.outs:
                c.same('num', f.n, st, r, sub(N(s), C(1)), 'integer conversion agrees with the position')
    f = find(c, ('cfg_symbol::symbol::Symbol as core::default::Default', '>::default'))
    if f:
        x = c.summary(f, [], prims={})
        if x:
            for st, r in x.outs:
                c.same('num', f.n, st, N(r), C(1), 'the default symbol is the first one')
    for tr, m, exp in (('core::cmp::PartialEq', 'eq', lambda a, b: eq(N(a), N(b))), ('core::cmp::Ord', 'cmp', lambda a, b: mk('CMP', N(a), N(b)))):
        f = find(c, ('cfg_symbol::symbol::Symbol as ' + tr + '>', '::' + m))
        if f:
            x = c.summary(f, ['s', 't'], prims={})
            if x:
                for st, r in x.outs:
                    c.same('num', f.n, st, r, exp(s, mk('SYM', 't')), '%s compares the numbers' % m)


WIDTHS = (('u8', 8), ('u16', 16), ('u32', 32))


def nz(w):
    return {'T': ('adt', 'core::num::nonzero::NonZero', (('prim', w),))}


def points(top, terms):
    """both sides of every boundary a comparison or a cut to a machine width can have"""
    ps = set()
    for k in (0, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 1 << 64):
        ps.update(range(k - 3, k + 4))
        ps.update((k + 100, k + (1 << 8), k + (1 << 16)))
    for t in terms:
        for x in subterms(t):
            if x.op == 'C' or x.op == 'LIN':
                ps.update(range(abs(x.a[0]) - 2, abs(x.a[0]) + 3))
    return sorted(p for p in ps if 0 <= p <= top)


def value(t, given):
    e = refute.Ev({}, None)
    for k, v in given.items():
        e.roots[k] = v
        if k.op != 'SYM':
            e.memo[k] = v
    return e.asint(e.ev(t))


def holds(st, given):
    return all(bool(value(a, given)) == p for a, p in st.conds)


def pointwise(c, rule, w, what, outs, mkgiven, pts, judge):
    """judge(st, ret, n) -> True/False/None for the only path that n takes"""
    bad, unk = None, 0
    for n in pts:
        g = mkgiven(n)
        try:
            hit = [o for o in outs if holds(o[0], g)]
            if len(hit) != 1:
                raise refute.Unev('paths')
            r, d = judge(hit[0][0], hit[0][1], n, g)
        except (refute.Unev, AttributeError, TypeError):
            unk += 1
            continue
        if r is False and bad is None:
            bad = (n, d, showconds(hit[0][0].conds)[:300])
    if bad:
        c.viol(rule, w, what, 'number %d: %s (when %s)' % bad)
    elif unk:
        c.inc(rule, w, what, '%d of %d boundary points undecided' % (unk, len(pts)))
    else:
        c.ok(rule, w, what)


def mini(c):
    c.rule('json', 'decoding a number encoded for a symbol gives that symbol; every number below the maximum is accepted, every other one rejected with an error')
    s = mk('SYM', 's')
    sym = 'cfg_symbol::symbol::Symbol'
    one_sym = lambda n: {s: ('A', next(p for p in ADTS if p.endswith('symbol::Symbol')), 0, (n,))}
    encs = [(find(c, ('cfg_symbol::symbol::Symbol as miniserde::ser::Serialize', '>::begin')), lambda r: r.a[2][0], 'encodes the position'),
            (c.fn('symbol::Symbol::usize'), lambda r: r, 'position is the stored number minus one')]
    for f, get, what in encs:
        if not f:
            continue
        for wn, wb in WIDTHS:
            x = c.summary(f, ['s'], prims={}, env=nz(wn), exact_casts=True)
            if x:
                pointwise(c, 'json', f.n, '%s (%s)' % (what, wn), x.outs, one_sym, [n for n in points((1 << wb) - 1, [r for _, r in x.outs]) if n],
                          lambda st, r, n, g: (value(get(r), g) == n - 1, 'the symbol stored as this number gives %d' % value(get(r), g)))
    fs = [f for f in c.p.fns.values() if f.file.endswith('symbol.rs') and f.n.endswith('as miniserde::de::Visitor>::nonnegative')]
    if len(fs) != 1:
        c.viol('anchor', 'miniserde decoder of Symbol', 'missing', 'no decoder')
        return
    f = fs[0]
    num = mk('SYM', 'n')
    NONNEG.add(num)
    for wn, wb in WIDTHS:
        x = c.summary(f, ['place', 'n'], prims={}, env=nz(wn), exact_casts=True)
        if not x:
            continue

        def judge(st, r, n, g):
            if r.op != 'ADT':
                raise refute.Unev('result')
            okay = r.a[1] == 0
            fits = n < (1 << wb) - 1
            if okay != fits:
                return False, 'accepted' if okay else 'rejected'
            val = F(x.cell(st, 'place'), 'symbol::miniserde_impls::Place', 'out')
            if not okay:
                return (True, '') if val is F(mk('SYM', 'place'), 'symbol::miniserde_impls::Place', 'out') else (None, '')
            if val.op != 'ADT' or val.a[1] != 1:
                return (False if precise(val) else None), 'success stores no symbol'
            v = value(N(unsome(val)), g)
            return v == n + 1, 'decoded as symbol number %d' % (v - 1)
        pointwise(c, 'json', f.n, 'accepts exactly the numbers of symbols and inverts the encoder (%s)' % wn, x.outs, lambda n: {num: n},
                  points((1 << 64) - 1, [a for st, _ in x.outs for a, _ in st.conds]), judge)


def nano(c):
    c.rule('bin', 'the binary decoder inverts the binary encoder')
    r = [f for f in c.p.fns.values() if 'cfg_symbol::symbol::Symbol as nanoserde' in f.n]
    se = [f for f in r if f.n.endswith('::ser_bin')]
    de = [f for f in r if f.n.endswith('::de_bin')]
    if len(se) != 1 or len(de) != 1:
        c.viol('anchor', 'binary encoding of Symbol', 'missing', 'encoder or decoder missing')
        return
    s = mk('SYM', 's')
    sym = next(p for p in ADTS if p.endswith('symbol::Symbol'))
    code = {}
    pts = None
    x = c.summary(se[0], ['s', 'out'], prims={}, exact_casts=True)
    y = c.summary(de[0], ['offset', 'bytes'], prims={}, exact_casts=True)
    if not x or not y:
        return
    terms = [a for st, r in x.outs + y.outs for a in [r] + [q for q, _ in st.conds] + [v for e in st.ev if e[0] == 'opaque' for v in e[2]]]
    pts = [n for n in points((1 << 32) - 1, terms) if n]
    written = {}

    def enc(st, r, n, g):
        ev = [e for e in st.ev if e[0] == 'opaque' and e[1].endswith('ser_bin')]
        if len(ev) != 1:
            raise refute.Unev('writes')
        v = value(ev[0][2][0], g)
        if v in written and written[v] != n:
            return False, 'encoded like symbol number %d' % (written[v] - 1)
        written[v] = n
        return True, ''
    pointwise(c, 'bin', se[0].n, 'different symbols are encoded differently', x.outs, lambda n: {s: ('A', sym, 0, (n,))}, pts, enc)
    back = {n: v for v, n in written.items()}
    # the decoder reads one number, written by the encoder
    got = {z for st, r in y.outs for t in [r] + [q for q, _ in st.conds] for z in subterms(t) if z.op == 'CALL' and z.a[0].endswith('de_bin')}
    if len(got) != 1:
        c.inc('bin', de[0].n, 'decodes what the encoder wrote', '%d reads' % len(got))
        return
    got, = got

    def dec(st, r, n, g):
        if r.op != 'ADT':
            raise refute.Unev('result')
        if r.a[1] != 0:
            return False, 'rejected'
        v = value(N(r.a[2][0]), g)
        return v == n, 'decoded as symbol number %d' % (v - 1)
    res = 'core::result::Result'
    ok = {n: {got: ('A', next((z.a[1] for st, r in y.outs for t in [r] + [q for q, _ in st.conds] for z in subterms(t) if z.op in ('VAR', 'FLD') and z.a[0] is got), res), 0, (back[n],))} for n in back}
    pointwise(c, 'bin', de[0].n, 'decodes what the encoder wrote', y.outs, lambda n: ok[n], sorted(ok), dec)


PARTS = [numeric, mini, nano]
