"""Loading grammars from BNF text."""
from fix import *

TECHNIQUE = ('abstract interpretation of MIR: tokenizing, the syntax tables, the evaluation of parse trees and the building of the grammar are summarised together for texts covering every '
             'construct of the notation and every kind of mistake; the parser generator is a function of the syntax table the loader gives it; every outcome is compared with the notation')

CR = 'cfg::CfgRule'


class Bad(Exception):
    pass


def text(v):
    """the string a term spells, or None"""
    if v.op == 'S':
        return v.a[0]
    if v.op == 'SEQ':
        r = ''
        for q in v.a:
            x = q.a[0]
            if q.op == 'ONE' and x.op == 'C' and 0 <= x.a[0] < 0x110000:
                r += chr(x.a[0])
            elif q.op in ('ALL', 'ONE') and x.op in ('S', 'SEQ', 'DISP', 'TOSTR'):
                t = text(x)
                if t is None:
                    return None
                r += t
            else:
                return None
        return r
    if v.op in ('DISP', 'TOSTR') and v.a:
        x = v.a[-1]
        return str(x.a[0]) if x.op == 'C' else text(x)
    return None


# ---------------------------------------------------------------- the parser generator, as a function of the syntax table
def viable(rules, start, toks):
    """number of leading tokens an Earley recogniser accepts, and whether all of them make a start symbol"""
    def close(s, sets):
        work = list(s)
        while work:
            (k, d, o) = it = work.pop()
            l, r = rules[k]
            if d < len(r):
                new = [(j, 0, len(sets)) for j, q in enumerate(rules) if q[0] == r[d]]
            else:
                src = s if o == len(sets) else sets[o]
                new = [(k2, d2 + 1, o2) for k2, d2, o2 in list(src) if d2 < len(rules[k2][1]) and rules[k2][1][d2] == l]
            for n in new:
                if n not in s:
                    s.add(n)
                    work.append(n)
        return s
    sets = []
    sets.append(close(set((j, 0, 0) for j, q in enumerate(rules) if q[0] == start), sets))
    for i, t in enumerate(toks):
        nx = set((k, d + 1, o) for k, d, o in sets[i] if d < len(rules[k][1]) and rules[k][1][d] == t)
        if not nx:
            return i, False
        sets.append(close(nx, sets))
    return len(toks), any(d == len(rules[k][1]) and o == 0 and rules[k][0] == start for k, d, o in sets[-1]) and len(toks) > 0


def tree(rules, start, toks):
    """the parse tree: ('leaf', token index) or ('node', rule, children)"""
    memo = {}

    def sym(s, i, j):
        k = (s, i, j)
        if k not in memo:
            memo[k] = []
            out = [('leaf', i)] if j == i + 1 and toks[i] == s else []
            for n, (l, r) in enumerate(rules):
                if l == s:
                    out += [('node', n, x) for x in seq(r, i, j)]
            memo[k] = out
        return memo[k]

    def seq(r, i, j):
        if len(r) == 1:
            return [(t,) for t in sym(r[0], i, j)]
        return [(a,) + b for m in range(i + 1, j - len(r) + 2) for a in sym(r[0], i, m) for b in seq(r[1:], m, j)]
    ts = sym(start, 0, len(toks))
    if len(ts) != 1:
        raise Imprecise('%d parse trees' % len(ts))
    return ts[0]


def prims():
    pr = {}

    def of(I, st, v, what):
        c, p = I.ptr_of(st, v)
        t = I.readloc(st, c, p)
        if t.op != what:
            raise Imprecise('%s is %s' % (what, show(t)[:80]))
        return c, p, t

    def g_new(I, st, f, vs, site):
        n = conc_list(I.deref_deep(st, vs[0]))
        s = st.norm(vs[1])
        if n is None or s.op != 'C':
            raise Imprecise('syntax table')
        return [(st, mk('BNF', len(n), s.a[0], ()))]

    def val(I, st, v):
        """the table, also behind a reference"""
        v = st.norm(I.deref_deep(st, v))
        if v.op != 'BNF':
            raise Imprecise('syntax table is ' + show(v)[:80])
        return v

    def g_syms(I, st, f, vs, site):
        return [(st, seqof([C(i) for i in range(val(I, st, vs[0]).a[0])]))]

    def g_rule(I, st, f, vs, site):
        c, p, t = of(I, st, vs[0], 'BNF')
        l = st.norm(vs[1])
        r = conc_list(st.norm(I.deref_deep(st, vs[2])))
        if l.op != 'C' or not r or any(x.op != 'C' for x in r):
            raise Imprecise('syntax rule')
        I.writeloc(st, c, p, mk('BNF', t.a[0], t.a[1], t.a[2] + ((l.a[0], tuple(x.a[0] for x in r)),)))
        return [(st, vs[0])]

    RQ = 'tiny_earley::Recognizer'
    if RQ not in ADTS or not {'forest', 'finished_node'} <= set(x[0] for x in ADTS[RQ]['v'][0]['f']):
        raise Imprecise('another parser generator')

    def recog(g, done, now, fin):
        r = mk('RECOG', g, done, now)
        fs = [x[0] for x in ADTS[RQ]['v'][0]['f']]
        return adt(RQ, 0, [fin if n == 'finished_node' else mk('FOREST', r) if n == 'forest' else r for n in fs])

    def rq(I, st, v):
        c, p = I.ptr_of(st, v)
        t = st.norm(I.readloc(st, c, p))
        r = [x for x in subterms(t) if x.op == 'RECOG']
        if t.op != 'ADT' or t.a[0] != RQ or not r:
            raise Imprecise('recogniser is ' + show(t)[:80])
        r = [x for x in r if x.a[0].op == 'BNF'][-1] if t.a[2][0].op != 'RECOG' else t.a[2][0]
        return c, p, r, t.a[2][[x[0] for x in ADTS[RQ]['v'][0]['f']].index('finished_node')]

    def r_new(I, st, f, vs, site):
        return [(st, recog(val(I, st, vs[0]), (), (), NONE))]

    def r_scan(I, st, f, vs, site):
        c, p, t, fin = rq(I, st, vs[0])
        s, v = st.norm(vs[1]), st.norm(vs[2])
        if s.op != 'C' or v.op != 'C':
            raise Imprecise('scanned %s, %s' % (show(s)[:60], show(v)[:60]))
        I.writeloc(st, c, p, recog(t.a[0], t.a[1], t.a[2] + ((s.a[0], v.a[0]),), fin))
        return [(st, UNIT)]

    def r_end(I, st, f, vs, site):
        c, p, t, fin = rq(I, st, vs[0])
        if len(t.a[2]) > 1:
            raise Imprecise('several tokens at one place')
        g = t.a[0]
        n = t.a[1] + t.a[2]
        k, end = viable(g.a[2], g.a[1], [x[0] for x in n])
        if not t.a[2] or k < len(n):
            # what was finished before stays
            I.writeloc(st, c, p, recog(g, t.a[1], (), fin))
            return [(st, FALSE)]
        I.writeloc(st, c, p, recog(g, n, (), some(mk('ROOT', mk('RECOG', g, n, ()))) if end else NONE))
        return [(st, TRUE)]

    def evaluator(I, st, f, vs, site):
        fo = st.norm(I.deref_deep(st, vs[0]))
        return [(st, mk('EVALR', fo, st.norm(I.deref_deep(st, vs[1])), vs[1] if vs[1].op == 'PTR' else NONE))]

    def evaluate(I, st, f, vs, site):
        e = st.norm(I.deref_deep(st, vs[0]))
        node = st.norm(vs[1])
        if e.op != 'EVALR' or node.op != 'ROOT' or e.a[0].op != 'FOREST' or e.a[0].a[0].a[0] is not node.a[0].a[0] or e.a[0].a[0].a[1][:len(node.a[0].a[1])] != node.a[0].a[1]:
            raise Imprecise('evaluation of %s in %s' % (show(node)[:60], show(e)[:100]))
        rec = node.a[0]
        g, toks = rec.a[0], rec.a[1]
        ev = e.a[1]
        if ev.op != 'ADT':
            raise Imprecise('evaluator')
        cell = ('in', 'evaluator')
        st.cells[cell] = ev
        me = mk('PTR', cell, ())

        def call(st, meth, args):
            ref = ('fn', '', 'tiny_earley::forest::Eval::' + meth, (('adt', ev.a[0], ()),), 'tiny_earley::forest::Eval', meth, None)
            return I.call_ref(st, ref, [me] + args, None, site)

        def go(st, t):
            if t[0] == 'leaf':
                s, v = toks[t[1]]
                return call(st, 'leaf', [C(s), C(v)])
            outs = [(st, [])]
            for k in t[2]:
                outs = [(s2, l + [v]) for s, l in outs for s2, v in go(s, k)]
            return [o for s, l in outs for o in call(s, 'product', [C(t[1] + 2), seqof(l)])]
        return go(st, tree(g.a[2], g.a[1], [x[0] for x in toks]))

    for n, h in (('Grammar::new', g_new), ('Grammar::symbols', g_syms), ('Grammar::rule', g_rule), ('Recognizer::new', r_new), ('Recognizer::scan', r_scan),
                 ('Recognizer::end_earleme', r_end), ('Forest::evaluator', evaluator), ('Evaluator::evaluate', evaluate)):
        pr['tiny_earley::' + n] = h
        pr['tiny_earley::forest::' + n] = h

    # interned strings: a string's place is the order of its first use
    def fz_new(I, st, f, vs, site):
        pool = {}
        POOLS.append(pool)
        return [(st, mk('POOL', len(POOLS) - 1))]

    def pool(I, st, v):
        p = st.norm(I.deref_deep(st, v))
        if p.op != 'POOL':
            raise Imprecise('string pool')
        return POOLS[p.a[0]]

    def fz_full(I, st, f, vs, site):
        p = pool(I, st, vs[0])
        s = text(st.norm(I.deref_deep(st, vs[1])))
        if s is None:
            raise Imprecise('interned ' + show(vs[1])[:60])
        return [(st, mk('TUP', C(p.setdefault(s, len(p))), mk('S', s)))]

    def fz_get(I, st, f, vs, site):
        p = pool(I, st, vs[0])
        i = st.norm(vs[1])
        if i.op != 'C':
            raise Imprecise('index')
        l = [s for s, n in p.items() if n == i.a[0]]
        return [(st, some(mk('S', l[0])) if l else NONE)]
    for n, h in (('new', fz_new), ('insert_full', fz_full), ('get_index', fz_get)):
        pr['FrozenIndexSet::' + n] = h
        pr['elsa::index_set::FrozenIndexSet::' + n] = h

    def chars(I, st, f, vs, site):
        s = text(st.norm(I.deref_deep(st, vs[0])))
        if s is None:
            raise Imprecise('characters of ' + show(vs[0])[:60])
        return [(st, mk('IT', seqof([C(ord(ch)) for ch in s])))]
    pr['str::chars'] = chars

    for n, h in (('trim', str.strip), ('trim_end', str.rstrip), ('trim_start', str.lstrip)):
        def trim(I, st, f, vs, site, h=h):
            s = text(st.norm(I.deref_deep(st, vs[0])))
            if s is None:
                raise Imprecise('trimmed ' + show(vs[0])[:60])
            return [(st, mk('S', h(s)))]
        pr['str::' + n] = trim

    for n, h in (('trim_matches', str.strip), ('trim_end_matches', str.rstrip), ('trim_start_matches', str.lstrip)):
        def trimm(I, st, f, vs, site, h=h):
            s, ch = text(st.norm(I.deref_deep(st, vs[0]))), st.norm(I.deref_deep(st, vs[1]))
            ch = chr(ch.a[0]) if ch.op == 'C' else text(ch)
            if s is None or ch is None or len(ch) != 1:
                raise Imprecise('trimmed ' + show(vs[0])[:60])
            return [(st, mk('S', h(s, ch)))]
        pr['str::' + n] = trimm
    for n, h in (('to_ascii_lowercase', str.lower), ('to_ascii_uppercase', str.upper), ('to_lowercase', str.lower), ('to_uppercase', str.upper)):
        def conv(I, st, f, vs, site, h=h, n=n):
            v = st.norm(I.deref_deep(st, vs[0]))
            s = text(v)
            if s is None or 'ascii' in n and not s.isascii():
                raise Imprecise('text ' + show(v)[:60])
            return [(st, mk('S', h(s)))]
        pr['str::' + n] = pr['String::' + n] = conv
    asc = lambda p: lambda x: x.isascii() and p(x)
    for n, h in (('is_ascii_alphabetic', asc(str.isalpha)), ('is_ascii_alphanumeric', asc(str.isalnum)), ('is_ascii_digit', asc(str.isdigit)), ('is_ascii', str.isascii),
                 ('is_ascii_lowercase', asc(str.islower)), ('is_ascii_uppercase', asc(str.isupper)), ('is_alphabetic', str.isalpha), ('is_alphanumeric', lambda x: x.isalpha() or x.isnumeric()),
                 ('is_numeric', str.isnumeric), ('is_lowercase', str.islower), ('is_uppercase', str.isupper), ('is_ascii_whitespace', lambda x: x in ' \t\n\r\x0c'),
                 ('is_whitespace', lambda x: x in ' \t\n\r\x0b\x0c\x85\xa0\u2003'), ('is_control', lambda x: ord(x) < 32 or 127 <= ord(x) < 160),
                 ('is_ascii_punctuation', lambda x: x.isascii() and x.isprintable() and not x.isalnum() and x != ' ')):
        def cls(I, st, f, vs, site, h=h):
            v = st.norm(I.deref_deep(st, vs[0]))
            if v.op != 'C':
                raise Imprecise('character ' + show(v)[:60])
            return [(st, TRUE if h(chr(v.a[0])) else FALSE)]
        pr['char::' + n] = pr['methods::' + n] = cls

    def join(I, st, f, vs, site):
        l = conc_list(st.norm(I.deref_deep(st, vs[0])))
        l = [text(x) for x in l] if l is not None else [None]
        sep = text(st.norm(I.deref_deep(st, vs[1])))
        if None in l or sep is None:
            raise Imprecise('joined text')
        return [(st, mk('S', sep.join(l)))]
    pr['[$T]::join'] = pr['slice::join'] = join
    pr['stdio::_print'] = pr['stdio::_eprint'] = lambda I, st, f, vs, site: [(st, UNIT)]

    def from_u32(I, st, f, vs, site):
        v = st.norm(I.deref_deep(st, vs[0]))
        if v.op != 'C':
            raise Imprecise('character ' + show(v)[:60])
        return [(st, some(v) if v.a[0] < 0xd800 or 0xdfff < v.a[0] < 0x110000 else NONE)]
    for n in ('char::from_u32', 'char::convert::from_u32', 'convert::from_u32', 'methods::from_u32'):
        pr[n] = from_u32
    return pr


POOLS = []


# ---------------------------------------------------------------- reading grammars back
def field(t, name):
    if t.op != 'ADT' or t.a[0] not in ADTS:
        raise Bad('not a known value: ' + show(t)[:80])
    fs = [x[0] for x in ADTS[t.a[0]]['v'][t.a[1]]['f']]
    if name not in fs:
        raise Bad('no field ' + name)
    return t.a[2][fs.index(name)]


def num(t):
    """the one number inside a symbol, an origin, ..."""
    while t.op == 'ADT' and len(t.a[2]) == 1:
        t = t.a[2][0]
    if t.op != 'C':
        raise Bad('not a number: ' + show(t)[:80])
    return t.a[0]


def lst(t):
    l = conc_list(t)
    if l is None:
        raise Bad('not a known list: ' + show(t)[:80])
    return l


def string(t):
    while t.op == 'ADT' and len(t.a[2]) == 1 and t.a[0] != OPTION:
        t = t.a[2][0]
    r = text(t)
    if r is None:
        raise Bad('not a known text: ' + show(t)[:80])
    return r


def opt(t, f):
    if t.op != 'ADT' or t.a[0] != OPTION:
        raise Bad('not an option: ' + show(t)[:80])
    return f(t.a[2][0]) if t.a[1] == 1 else None


def entries(t):
    """pairs of a map, oldest first"""
    if t.op == 'MAPOF':
        out = {}
        for p in lst(t.a[0]):
            if p.op != 'TUP':
                raise Bad('map entry')
            out[p.a[0]] = p.a[1]
        return list(out.items())
    out = {}
    l = []
    while t.op == 'MINS':
        l.append((t.a[1], t.a[2]))
        t = t.a[0]
    if t.op != 'MAP0':
        raise Bad('not a known map: ' + show(t)[:80])
    for k, v in reversed(l):
        out[k] = v
    return list(out.items())


class Loaded(object):
    def __init__(self, cfg):
        src = field(cfg, 'sym_source')
        self.names = [opt(x, string) for x in lst(field(src, 'names'))]
        self.rules = [(num(field(r, 'lhs')), [num(x) for x in lst(field(r, 'rhs'))], num(field(field(r, 'history'), 'origin'))) for r in lst(field(cfg, 'rules'))]
        self.roots = [num(x) for x in lst(field(cfg, 'roots'))]
        if any(not 1 <= s <= len(self.names) for l, r, _ in self.rules for s in [l] + r):
            raise Bad('symbol numbers')

    def name(self, s):
        return self.names[s - 1]

    def lang(self, s, n=3):
        """strings of at most n named or rule-less symbols an unnamed symbol derives"""
        lhs = set(l for l, _, _ in self.rules)
        L = {}
        ch = True
        sub_ = lambda x: L.get(x, set()) if x in lhs and self.name(x) is None else {(x,)}
        while ch:
            ch = False
            for l, r, _ in self.rules:
                if self.name(l) is None:
                    acc = {()}
                    for x in r:
                        acc = set(a + b for a in acc for b in sub_(x) if len(a) + len(b) <= n)
                    if not acc <= L.setdefault(l, set()):
                        L[l] |= acc
                        ch = True
        return L.get(s, set())


REPS = {'': [1], '*': [0, 1, 2, 3], '+': [1, 2, 3]}


def compare(g, want, strings=()):
    """a grammar against [(lhs, [(name, repetition)])]: what differs, or None"""
    lex = {}
    named = [n for n in g.names if n is not None]
    if len(set(named)) != len(named):
        return 'two symbols are called %s' % sorted(n for n in set(named) if named.count(n) > 1)[0]
    num_ = {n: i + 1 for i, n in enumerate(g.names) if n is not None}
    texts = set(n for l, r in want for n in [l] + [x for x, _ in r] if not n.startswith('"'))
    if set(n for n in named if not n.startswith('__lex')) != texts:
        return 'named symbols %s instead of %s' % (sorted(set(named)), sorted(texts))
    have = [(l, r, o) for l, r, o in g.rules if g.name(l) is not None and not g.name(l).startswith('__lex')]
    if len(have) != len(want):
        return '%d rules instead of %d' % (len(have), len(want))
    for i, ((l, r, o), (wl, wr)) in enumerate(zip(have, want)):
        if g.name(l) != wl:
            return 'rule %d is for %s instead of %s' % (i + 1, g.name(l), wl)
        if o != i + 1:
            return 'rule %d has origin %d' % (i + 1, o)
        if len(r) != len(wr):
            return 'rule %d has %d symbols instead of %d' % (i + 1, len(r), len(wr))
        for x, (wn, rep) in zip(r, wr):
            if wn.startswith('"'):
                # a string literal stands for one symbol of its own
                if lex.setdefault(wn[1:], x) != x:
                    return 'two symbols for the literal %s' % wn[1:]
                continue
            if g.name(x) is not None:
                if rep or g.name(x) != wn:
                    return 'rule %d has %s instead of %s%s' % (i + 1, g.name(x), wn, rep)
                continue
            w = set((num_[wn],) * k for k in REPS[rep])
            h = g.lang(x)
            if h != w:
                nm = lambda ss: ', '.join(sorted(' '.join(g.name(y) or 'g%d' % (y - 1) for y in s) or '(nothing)' for s in ss)[:4])
                return 'for %s%s: %s' % (wn, rep, 'derives ' + nm(h - w) if h - w else 'does not derive ' + nm(w - h))
    if g.roots != [num_[want[0][0]]]:
        return 'roots are %s instead of [%s]' % ([g.name(x) for x in g.roots], want[0][0])
    if len(set(lex.values())) != len(lex):
        return 'one symbol for two literals'
    for s, x in lex.items():
        if any(x == num_[n] for n in texts):
            return 'the literal %s is the symbol %s' % (s, g.name(x))
    g.lex = lex
    return None


BASIC = [
    ('A ::= B;', [('A', 'B')]),
    ('A ::= B C D;', [('A', 'B C D')]),
    ('A ::= ;', [('A', '')]),
    ('A ::= ();', [('A', '')]),
    ('A ::= B () C;', [('A', 'B C')]),
    ('A ::= () B;', [('A', 'B')]),
    ('A ::= B | C D;', [('A', 'B'), ('A', 'C D')]),
    ('A ::= B | () | C;', [('A', 'B'), ('A', ''), ('A', 'C')]),
    ('A ::= B*;', [('A', 'B*')]),
    ('A ::= B+;', [('A', 'B+')]),
    ('A ::= B* C+ D;', [('A', 'B* C+ D')]),
    ('A ::= B C* | B+;', [('A', 'B C*'), ('A', 'B+')]),
    ('A ::= B* B*;', [('A', 'B* B*')]),
    ('A ::= B; C ::= D;', [('A', 'B'), ('C', 'D')]),
    ('B ::= C; A ::= B;', [('B', 'C'), ('A', 'B')]),
    ('A ::= B; B ::= A C A; C ::= ;', [('A', 'B'), ('B', 'A C A'), ('C', '')]),
    ('A ::= B; A ::= C; B ::= D;', [('A', 'B'), ('A', 'C'), ('B', 'D')]),
    ('A ::= B; C ::= ; D ::= E | F; G ::= A;', [('A', 'B'), ('C', ''), ('D', 'E'), ('D', 'F'), ('G', 'A')]),
    ('A ::= B | C | D | E | F | G | H; I ::= J | K | L;', [('A', x) for x in 'BCDEFGH'] + [('I', x) for x in 'JKL']),
    ('A ::= A A;', [('A', 'A A')]),
    ('A ::= A*;', [('A', 'A*')]),
    ('A::=B C;', [('A', 'B C')]),
    ('\n\tA\n::=\tB \n C\t;\n', [('A', 'B C')]),
    ('A::=B*|C+;D::=A;', [('A', 'B*'), ('A', 'C+'), ('D', 'A')]),
    ('abc_1 ::= _x zZ9 Az;', [('abc_1', '_x zZ9 Az')]),
    ('A ::= a AA aA Aa;', [('A', 'a AA aA Aa')]),
    ('lexer ::= A;', [('lexer', 'A')]),
    ('A ::= _a a A_;', [('A', '_a a A_')]),
]
# text the tokens of which are known, up to a character that starts none: where that character is
BASIC_BAD = [('A : B;', (1, 3)), ('A ::= "b";', (1, 7)), ('A ::= B;\n C ::= 9;', (2, 8)), ('@', (1, 1)), ('A ::= B ~ C;', (1, 9)), ('A ::=\n\n  B;\n\tC := D;', (4, 4)), ('A ::= B:', (1, 8)), ('A ::= é;', (1, 7)), ('A ::+ B;', (1, 3)), ('A :;= B;', (1, 3)), ('A ::B;', (1, 3))]
BASIC_ERR = ['', ' ', 'A', 'A ::= B', 'A B;', '::= B;', 'A ::= * B;', 'A ::= B**;', 'A ::= B;;', 'A ::= | B;', 'A ::= B |;', 'A ::= (B);', 'A ::= (;', 'A ::= B; C', 'A ::= B ::= C;', 'A ::= ()*;', ';', 'A | B ::= C;', 'A ::= B; ::=']

ADVANCED = [
    ('A ::= B;', [('A', 'B')], {}),
    ('A ::= B ~ C ~ D;', [('A', 'B C D')], {}),
    ('A ::= ;', [('A', '')], {}),
    ('A ::= > nothing;', [('A', '')], {1: 'nothing'}),
    ('A ::= B | C ~ D;', [('A', 'B'), ('A', 'C D')], {}),
    ('A ::= B > one | C > two | D;', [('A', 'B'), ('A', 'C'), ('A', 'D')], {1: 'one', 2: 'two'}),
    ('A ::= B | C > two; B ::= C > three;', [('A', 'B'), ('A', 'C'), ('B', 'C')], {2: 'two', 3: 'three'}),
    ('A ::= B* ~ C+ ~ D;', [('A', 'B* C+ D')], {}),
    ('A ::= B+ | B*;', [('A', 'B+'), ('A', 'B*')], {}),
    ('A ::= B; B ::= A ~ A; C ::= B;', [('A', 'B'), ('B', 'A A'), ('C', 'B')], {}),
    ('\n\tA\n::=\tB \n ~ C\t;\n', [('A', 'B C')], {}),
    ('A ::= "x";', [('A', '"x')], {}),
    ('A ::= "x" ~ B ~ "yx";', [('A', '"x B "yx')], {}),
    ('A ::= "x" ~ "x"; B ::= "x" ~ "y";', [('A', '"x "x'), ('B', '"x "y')], {}),
    ('A ::= "\\"\\\\";', [('A', '""\\')], {}),
    ('A ::= "";', [('A', '"')], {}),
    ('A ::= "x" ~ " x" ~ "X";', [('A', [('"x', ''), ('" x', ''), ('"X', '')])], {}),
    ('A ::= _a ~ a ~ A_ ~ lexer_ ~ lexers;', [('A', '_a a A_ lexer_ lexers')], {}),
    ('A ::= "_x" ~ "x";', [('A', '"_x "x')], {}),
    ('A ::= B; lexer { B ::= "b"; }', [('A', 'B'), ('B', '"b')], {}),
    ('A ::= B ~ C; lexer { B ::= "b"; C ::= "c" ~ D | "d"; } E ::= A;', [('A', 'B C'), ('E', 'A'), ('B', '"b'), ('C', '"c D'), ('C', '"d')], {}),
    ('lexer { B ::= "b"; } A ::= B;', [('A', 'B'), ('B', '"b')], {}),
    ('A ::= B; lexer { B ::= "b"; } lexer { C ::= "c" > act; }', [('A', 'B'), ('B', '"b'), ('C', '"c')], {3: 'act'}),
    ('A ::= B | C > c | D | E | F | G | H > h; I ::= J > j | K | L;', [('A', x) for x in 'BCDEFGH'] + [('I', x) for x in 'JKL'], {2: 'c', 7: 'h', 8: 'j'}),
]
LEXICAL = {20: 'B', 21: 'B C', 22: 'B', 23: 'B C'}
ADVANCED_BAD = [('A : B;', (1, 3)), ('A ::= @;', (1, 7)), ('A ::= B;\n C ::= 9;', (2, 8)), ('A ::= B\n ~ C ~ %;', (2, 8))]
# where the first token that fits nowhere is
ADVANCED_AT = [('A B;', (1, 3)), ('A ::= B C;', (1, 9)), ('A ::= B;\n C ::= ~;', (2, 8)), ('A ::= B;;', (1, 9)), ('lexer { }', (1, 9)), ('A ::= B > ;', (1, 11)), ('A ::= "x"*;', (1, 10)), ('A ::=\n  B |\n  ;', (3, 3)), ('A ::=\n  B |\n;', (3, 1)), ('A ::=\n\n;;', (3, 2))]
ADVANCED_ERR = ['', 'A ::= B', 'A ::= "x', 'lexer { A ::= B;', 'A ::= B; lexer { A ::= "x"; }', 'A ::= Other("x");']


def words(s):
    if not isinstance(s, str):
        return s
    out = []
    for w in s.split():
        rep = w[-1] if w[-1] in '*+' and not w.startswith('"') else ''
        out.append((w[:-1] if rep else w, rep))
    return out


def run(c, fn, t):
    """the outcomes of loading a text: ('ok', term) / ('err', line, column) / ('panic', place) or None"""
    POOLS.clear()
    try:
        pr = prims()
    except Imprecise as e:
        c.inc('load', fn, repr(t), str(e))
        return None, None
    s = c.summary(fn, [mk('S', t)], prims=pr, decided=True, budget=60, rule='load')
    if s is None:
        return None, None
    if s.I.unknown:
        c.inc('load', s.fn.n, repr(t), 'calls nobody looked into: %s' % sorted(s.I.unknown)[:3])
        return s, None
    if not s.outs:
        pl = [p for p in s.I.panics if not p[3].conds]
        if pl and len(s.I.panics) == len(pl):
            c.obs.pop()
            return s, ('panic', pl[0][0])
        return s, None
    if len(s.outs) != 1 or s.outs[0][0].conds:
        c.inc('load', s.fn.n, repr(t), '%d outcomes' % len(s.outs))
        return s, None
    st, v = s.outs[0]
    v = st.norm(s.I.deref_deep(st, v))
    if v.op != 'ADT' or v.a[0] != RESULT:
        c.inc('load', s.fn.n, repr(t), show(v)[:200])
        return s, None
    if v.a[1] == 0:
        return s, ('ok', v.a[2][0])
    try:
        return s, ('err', num(field(v.a[2][0], 'line')), num(field(v.a[2][0], 'col')))
    except Bad as e:
        return s, ('err', None, None)


def good(c, fn, t, read):
    s, o = run(c, fn, t)
    if o is None:
        return
    what = 'loading %r' % t
    if o[0] != 'ok':
        c.viol('load', s.fn.n, what, 'is refused' if o[0] == 'err' else 'panics in %s' % o[1])
        return
    try:
        d = read(o[1])
    except Bad as e:
        c.inc('load', s.fn.n, what, str(e))
        return
    c.res(d is None, 'load', s.fn.n, what, d)


def bad(c, fn, t, at_=None):
    s, o = run(c, fn, t)
    if o is None:
        return
    what = 'loading %r' % t
    if o[0] == 'panic':
        c.viol('refuse', s.fn.n, what, 'panics in %s instead of returning an error' % o[1])
    elif o[0] == 'ok':
        c.viol('refuse', s.fn.n, what, 'is accepted')
    elif at_ is None:
        c.ok('refuse', s.fn.n, what)
    elif o[1] is None:
        c.inc('refuse', s.fn.n, what, 'position')
    else:
        c.res(o[1:] == at_, 'refuse', s.fn.n, what, 'error at line %d column %d instead of line %d column %d' % (o[1], o[2], at_[0], at_[1]))


def basic(c):
    c.rule('load', 'loading a text that follows the notation gives one rule per alternative, in order, numbered from 1, over symbols that carry the names in the text, with the first left-hand side as the root')
    c.rule('refuse', 'loading any other text gives an error, at the place of the first character that starts no token')
    fn = 'CfgLoadExt>::load'
    if not c.has(fn):
        c.fn(fn)
    for t, rules in BASIC:
        want = [(l, words(r)) for l, r in rules]
        good(c, fn, t, lambda v: compare(Loaded(v), want))
    for t, p in BASIC_BAD:
        bad(c, fn, t, p)
    for t in BASIC_ERR:
        bad(c, fn, t)


def advanced(c):
    fn = 'CfgLoadAdvancedExt>::load_advanced'
    if not c.has(fn):
        c.fn(fn)
    for i, (t, rules, acts) in enumerate(ADVANCED):
        want = [(l, words(r)) for l, r in rules]

        def read(v):
            g = Loaded(field(v, 'cfg'))
            d = compare(g, want)
            if d:
                return d
            num_ = {n: k + 1 for k, n in enumerate(g.names) if n is not None}
            # characters: one symbol each
            ch = {}
            for k, s in entries(field(field(v, 'lexer_map'), 'classes')):
                q = [x for x in subterms(k) if x.op == 'MAPOF']
                ps = lst(q[0].a[0]) if len(q) == 1 else []
                if len(ps) != 1 or ps[0].op != 'TUP' or ps[0].a[0].op != 'C':
                    raise Bad('character class')
                cc = chr(ps[0].a[0].a[0])
                if cc in ch:
                    return 'two symbols for the character %r' % cc
                ch[cc] = num(s)
            if len(set(ch.values())) != len(ch):
                return 'one symbol for two characters'
            if set(ch) != set(x for s in g.lex for x in s):
                return 'characters %s instead of those in the text' % sorted(ch)
            for s, x in g.lex.items():
                rs = [r for l, r, _ in g.rules if l == x]
                if len(rs) != 1:
                    return '%d rules for the literal "%s"' % (len(rs), s)
                if rs[0] != [ch[y] for y in s]:
                    return 'the literal "%s" is not spelt by its characters' % s
            ac = {num(k): opt(a, string) for k, a in entries(field(v, 'actions'))}
            if ac != {k + 1: acts.get(k + 1) for k in range(len(want))}:
                return 'actions %s instead of %s' % (ac, acts)
            sm = {string(k): num(x) for k, x in entries(field(v, 'sym_map'))}
            if any(sm.get(n) != x for n, x in num_.items()):
                return 'symbols by name: %s instead of %s' % (sm, num_)
            bits = [x for x in subterms(field(v, 'sbs')) if x.op == 'SEQ']
            bl = conc_list(bits[0]) if len(bits) == 1 else None
            if bl is None or any(x.op != 'C' for x in bl):
                raise Bad('lexeme set')
            on = set(k + 1 for k, x in enumerate(bl) if x.a[0])
            w = set(g.lex.values()) | set(num_[n] for n in LEXICAL.get(i + 1, '').split())
            if on != w:
                return 'lexemes %s instead of %s' % (sorted(g.name(x) or 'g%d' % (x - 1) for x in on), sorted(g.name(x) or 'g%d' % (x - 1) for x in w))
            return None
        good(c, fn, t, read)
    for t, p in ADVANCED_BAD + ADVANCED_AT:
        bad(c, fn, t, p)
    for t in ADVANCED_ERR:
        bad(c, fn, t)


LETTER = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
DIGIT = '0123456789'
CHARS = [chr(i) for i in range(128)] + ['\u00e9', '\u0660', '\u03b1', '\u2003', '\U0001d538']


def each(c):
    """what every character is, at the start of a token, after a name and inside a literal"""
    b, a = 'CfgLoadExt>::load', 'CfgLoadAdvancedExt>::load_advanced'
    one_ = lambda r: [('A', words(r))]
    for fn, sep, toks in ((b, ' ', ';|+*()'), (a, ' ~ ', ';|+*()~{}>"')):
        cfg = (lambda v: v) if fn is b else (lambda v: field(v, 'cfg'))
        for ch in CHARS:
            t = 'A ::= ' + ch + sep + 'B;'
            if ch in LETTER:
                w = one_(ch + ' B') if ch not in 'AB' else one_(ch + ' B')
                good(c, fn, t, lambda v: compare(Loaded(cfg(v)), w))
            elif ch in ' \n\t' and fn is b:
                good(c, fn, t, lambda v: compare(Loaded(cfg(v)), one_('B')))
            else:
                bad(c, fn, t, None if ch in toks or ch in ' \n\t' else (1, 7))
            t = 'A ::= x' + ch + ';'
            if ch in LETTER or ch in DIGIT:
                good(c, fn, t, lambda v: compare(Loaded(cfg(v)), one_('x' + ch)))
            elif ch in ' \n\t':
                good(c, fn, t, lambda v: compare(Loaded(cfg(v)), one_('x')))
            elif ch in '*+':
                good(c, fn, t, lambda v: compare(Loaded(cfg(v)), one_('x' + ch)))
            else:
                bad(c, fn, t, None if ch in toks else (1, 8))
    for ch in CHARS:
        if ch in '"\\':
            continue
        for t in ('A ::= "%s";' % ch, 'A ::= "\\%s";' % ch):
            def read(v):
                g = Loaded(field(v, 'cfg'))
                d = compare(g, [('A', [('"' + ch, '')])])
                if d:
                    return d
                x = g.lex[ch]
                rs = [r for l, r, _ in g.rules if l == x]
                ks = entries(field(field(v, 'lexer_map'), 'classes'))
                if len(ks) != 1 or len(rs) != 1 or rs[0] != [num(ks[0][1])]:
                    return 'the literal %r is not spelt by its characters' % ch
                q = [y for y in subterms(ks[0][0]) if y.op == 'MAPOF']
                ps = lst(q[0].a[0]) if len(q) == 1 else []
                if len(ps) != 1 or ps[0].op != 'TUP' or ps[0].a[0].op != 'C':
                    raise Bad('character class')
                return None if ps[0].a[0].a[0] == ord(ch) else 'the literal %r is spelt %r' % (ch, chr(ps[0].a[0].a[0]))
            good(c, a, t, read)


def printing(c):
    c.rule('print', 'to_bnf writes every rule, in order, on a line of its own: left-hand side, " ::= ", the right-hand side separated by blanks, and ";"; unnamed symbols are a g and their number')
    fn = 'CfgLoadExt>::to_bnf'
    if not c.has(fn):
        c.fn(fn)
    for t, rules in BASIC:
        n = len(c.obs)
        s, o = run(c, 'CfgLoadExt>::load', t)
        del c.obs[n:]
        if o is None or o[0] != 'ok':
            continue
        try:
            g = Loaded(o[1])
        except Bad:
            continue
        nm = lambda x: g.name(x) or 'g%d' % (x - 1)
        q = c.summary(fn, [o[1]], prims=prims(), decided=True, budget=60, rule='print')
        if q is None:
            continue
        what = 'printing what %r gives' % t
        if q.I.unknown or len(q.outs) != 1 or q.outs[0][0].conds:
            c.inc('print', q.fn.n, what, 'calls nobody looked into: %s' % sorted(q.I.unknown)[:3])
            continue
        st, v = q.outs[0]
        v = text(st.norm(q.I.deref_deep(st, v)))
        if v is None:
            c.inc('print', q.fn.n, what, 'text')
            continue
        w = ''.join('%s ::= %s;\n' % (nm(l), ' '.join(nm(x) for x in r)) for l, r, _ in g.rules)
        c.res(v == w, 'print', q.fn.n, what, 'prints %r instead of %r' % (v, w))


PARTS = [basic, advanced, each, printing]
