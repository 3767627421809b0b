"""Hash-consed value terms (Herbrand domain with affine integers and sequences)."""
import sys
sys.setrecursionlimit(200000)


class T(object):
    __slots__ = ('op', 'a', 'n')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = len(_tab)
        _tab[k] = t
    return t


NONNEG = set()          # terms known to be >= 0
ADTS = {}               # filled by facts: path -> {enum,g,v}

OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
ORDERING = 'core::cmp::Ordering'


def C(v):
    return mk('C', int(v))


def S(s):
    return mk('S', s)


UNIT = mk('TUP')
TRUE = C(1)
FALSE = C(0)
EMPTY = mk('SEQ')


def isC(t):
    return t.op == 'C'


def nfields(path, var):
    d = ADTS.get(path)
    if d is None:
        return None
    try:
        return len(d['v'][var]['f'])
    except IndexError:
        return None


def nvariants(path):
    d = ADTS.get(path)
    return len(d['v']) if d else None


def adt(path, var, fs):
    fs = tuple(fs)
    if fs:
        f0 = fs[0]
        if f0.op == 'FLD' and f0.a[1] == path and f0.a[2] == var and f0.a[3] == 0:
            v = f0.a[0]
            if all(f.op == 'FLD' and f.a[0] is v and f.a[1] == path and f.a[2] == var and f.a[3] == i
                   for i, f in enumerate(fs)):
                return v
    return mk('ADT', path, var, fs)


def tup(fs):
    fs = tuple(fs)
    if len(fs) >= 2:
        f0 = fs[0]
        if f0.op == 'FLD' and f0.a[1] == '(tuple)' and f0.a[3] == 0:
            v = f0.a[0]
            if all(f.op == 'FLD' and f.a[0] is v and f.a[1] == '(tuple)' and f.a[3] == i for i, f in enumerate(fs)):
                return v
    return mk('TUP', *fs)


def some(v):
    return adt(OPTION, 1, (v,))


NONE = mk('ADT', OPTION, 0, ())


def ok(v):
    return adt(RESULT, 0, (v,))


def err(v):
    return adt(RESULT, 1, (v,))


def fld(v, path, var, i):
    if v.op == 'ADT' and v.a[0] == path:
        if v.a[1] == var and i < len(v.a[2]):
            return v.a[2][i]
        return mk('BOT')
    if v.op == 'TUP' and path == '(tuple)':
        if i < len(v.a):
            return v.a[i]
    if v.op == 'CLO' and path == '(closure)':
        if i < len(v.a[1]):
            return v.a[1][i]
    return mk('FLD', v, path, var, i)


# ---------------------------------------------------------------- integers
def lin_of(t):
    if t.op == 'C':
        return t.a[0], {}
    if t.op == 'LIN':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, d):
    items = sorted(((t, k) for t, k in d.items() if k != 0), key=lambda x: x[0].n)
    if not items:
        return C(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('LIN', c, tuple(items))


def add(a, b, kb=1):
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    for t, k in db.items():
        da[t] = da.get(t, 0) + kb * k
    return mklin(ca + kb * cb, da)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    c, d = lin_of(a)
    return mklin(c * k, {t: x * k for t, x in d.items()})


def mul(a, b):
    if isC(a):
        return mulc(b, a.a[0])
    if isC(b):
        return mulc(a, b.a[0])
    if a.n > b.n:
        a, b = b, a
    return mk('MUL', a, b)


def neg(t):
    """boolean negation"""
    if isC(t):
        return C(1 - t.a[0])
    if t.op == 'NOT':
        return t.a[0]
    return mk('NOT', t)


def _firstcoef(d):
    t = min(d, key=lambda x: x.n)
    return d[t]


def lt0(l):
    """boolean term: l < 0"""
    c, d = lin_of(l)
    d = {t: k for t, k in d.items() if k}
    if not d:
        return C(c < 0)
    if _firstcoef(d) < 0:
        # l<0  <=> not (-l-1 < 0)
        return mk('NOT', mk('LT0', mklin(-c - 1, {t: -k for t, k in d.items()})))
    return mk('LT0', mklin(c, d))


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return lt0(add(sub(a, b), C(-1)))


INTISH = ('LIN', 'LEN', 'IDX', 'C', 'MUL', 'SATSUB', 'MIN', 'MAX', 'SUM', 'SUMOF')


def ground_entries(m):
    """entries of a map built from nothing by insertions of provably distinct keys"""
    out = {}
    while m.op == 'MINS':
        es = [eq(m.a[1], k) for k in out]
        if any(e is not TRUE and e is not FALSE for e in es):
            return None
        if TRUE not in es:
            out[m.a[1]] = m.a[2]
        m = m.a[0]
    return out if m.op == 'MAP0' else None


def eq(a, b):
    if a is b:
        return TRUE
    if isC(a) and isC(b):
        return FALSE
    if a.op == 'S' and b.op == 'S':
        return FALSE
    if a.op == 'PTR' and b is C(0) or b.op == 'PTR' and a is C(0):
        return FALSE
    if a.op == b.op == 'ADT' and a.a[0] == b.a[0] or a.op == b.op == 'TUP' and len(a.a) == len(b.a):
        if a.op == 'ADT' and a.a[1] != b.a[1]:
            return FALSE
        es = [eq(x, y) for x, y in (zip(a.a[2], b.a[2]) if a.op == 'ADT' else zip(a.a, b.a))]
        if any(e is FALSE for e in es):
            return FALSE
        if all(e is TRUE for e in es):
            return TRUE
    if a.op == b.op == 'SEQ':
        x, y = conc_list(a), conc_list(b)
        if x is not None and y is not None:
            if len(x) != len(y):
                return FALSE
            es = [eq(u, v) for u, v in zip(x, y)]
            if any(e is FALSE for e in es):
                return FALSE
            if all(e is TRUE for e in es):
                return TRUE
    if a.op in ('MINS', 'MAP0') and b.op in ('MINS', 'MAP0'):
        x, y = ground_entries(a), ground_entries(b)
        if x is not None and y is not None:
            if len(x) != len(y):
                return FALSE
            es = []
            for k, v in x.items():
                ts = [(w, eq(k, q)) for q, w in y.items()]
                if any(e is not TRUE and e is not FALSE for w, e in ts):
                    es = None
                    break
                ws = [w for w, e in ts if e is TRUE]
                es.append(eq(v, ws[0]) if ws else FALSE)
            if es is not None:
                if any(e is FALSE for e in es):
                    return FALSE
                if all(e is TRUE for e in es):
                    return TRUE
    if a.op == b.op == 'MAPOF':
        x, y = conc_list(a.a[0]), conc_list(b.a[0])
        if x and y and len(x) == len(y) == 1:
            return eq(x[0], y[0])
    if a.op in INTISH or b.op in INTISH:
        c, d = lin_of(sub(a, b))
        d = {t: k for t, k in d.items() if k}
        if not d:
            return C(c == 0)
        if _firstcoef(d) < 0:
            c, d = -c, {t: -k for t, k in d.items()}
        if c == 0 and len(d) == 2:
            # numbers of distinct symbols are distinct
            (t, k), (u, l) = d.items()
            if k == -l and t.op == u.op == 'USZ' and t.a[0].op == u.a[0].op == 'DSYM':
                return FALSE
        return mk('EQ0', mklin(c, d))
    if a.op == b.op == 'USZ' and a.a[0].op == b.a[0].op == 'DSYM':
        return FALSE
    if a.op == 'FRESH' and b.op == 'FRESH' or a.op == 'DSYM' and b.op == 'DSYM':
        return FALSE
    if (a.op == 'FRESH') != (b.op == 'FRESH'):
        f, o = (a, b) if a.op == 'FRESH' else (b, a)
        if not mentions(o, ('FRESH', 'LV', 'LOOPV')):
            return FALSE
    if a.n > b.n:
        a, b = b, a
    return mk('EQ', a, b)


_ment = {}


def mentions(t, ops):
    k = (t, ops)
    r = _ment.get(k)
    if r is None:
        r = False
        stack = [t]
        seen = set()
        while stack:
            x = stack.pop()
            if isinstance(x, T):
                if x in seen:
                    continue
                seen.add(x)
                if x.op in ops:
                    r = True
                    break
                stack.extend(x.a)
            elif isinstance(x, tuple):
                stack.extend(x)
        _ment[k] = r
    return r


def subterms(t):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)


# ---------------------------------------------------------------- sequences
# parts: ONE(v) ALL(s) SUB(s,lo,hi) COMP(L,src,cases) REP(v,n) RNG(lo,hi)
def one(v):
    return mk('ONE', v)


def parts(t):
    if t.op == 'SEQ':
        return t.a
    return (mk('ALL', t),)


def seq(ps):
    out = []
    for p in ps:
        if p.op == 'ALL':
            s = p.a[0]
            if s.op == 'SEQ':
                out.extend(s.a)
                continue
            if s.op == 'S':
                if not s.a[0]:
                    continue
                if out and out[-1].op == 'ALL' and out[-1].a[0].op == 'S':
                    out[-1] = mk('ALL', mk('S', out[-1].a[0].a[0] + s.a[0]))
                    continue
        if p.op == 'SUB':
            q = subseq_part(p.a[0], p.a[1], p.a[2])
            if q is None:
                continue
            if q.op == 'SUB' and out and out[-1].op == 'SUB' and out[-1].a[0] is q.a[0] and out[-1].a[2] is q.a[1]:
                prev = out.pop()
                q = subseq_part(q.a[0], prev.a[1], q.a[2])
            out.append(q)
            continue
        if p.op == 'REP' and isC(p.a[1]):
            n = p.a[1].a[0]
            if n <= 16:
                out.extend([one(p.a[0])] * n)
                continue
        if p.op == 'COMP':
            L, src, cases = p.a
            # identity comprehension
            if len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1:
                it = cases[0][1][0]
                if it.op == 'ONE' and it.a[0] is mk('ELEM', L, src):
                    out.extend(parts(src))
                    continue
            if all(not its for _, its in cases):
                continue
        out.append(p)
    if len(out) == 1 and out[0].op == 'ALL':
        return out[0].a[0]
    return mk('SEQ', *out)


def subseq_part(s, lo, hi):
    if lo is hi:
        return None
    if isC(lo) and lo.a[0] == 0 and hi is length(s):
        return mk('ALL', s)
    return mk('SUB', s, lo, hi)


def seqof(vs):
    return mk('SEQ', *[one(v) for v in vs])


def concat(a, b):
    return seq(parts(a) + parts(b))


def conc_list(t):
    """list of elements when the sequence is completely known"""
    if t.op == 'SEQ' and all(p.op == 'ONE' for p in t.a):
        return [p.a[0] for p in t.a]
    return None


def plen(p):
    if p.op == 'ONE':
        return C(1)
    if p.op == 'ALL':
        return length(p.a[0])
    if p.op == 'SUB':
        return sub(p.a[2], p.a[1])
    if p.op == 'RNG':
        d = sub(p.a[1], p.a[0])
        return d
    if p.op == 'REP':
        return p.a[1]
    if p.op == 'COMP':
        ns = set()
        for _, its in p.a[2]:
            n = C(0)
            for q in its:
                n = add(n, plen(q))
            ns.add(n)
        if len(ns) == 1:
            n = ns.pop()
            if isC(n):
                return mulc(length(p.a[1]), n.a[0])
    r = mk('LEN', mk('SEQ', p))
    NONNEG.add(r)
    return r


def length(t):
    if t.op == 'SEQ':
        n = C(0)
        for p in t.a:
            n = add(n, plen(p))
        return n
    if t.op == 'REV' or t.op == 'SORT' or t.op == 'STORE' or t.op == 'EUPD':
        return length(t.a[0])
    if t.op == 'LUPD' and t.a[1].op in ('SEQ', 'STORE', 'LUPD') and all(u[0] == 'STORE' for _, us in t.a[3] for u in us):
        return length(t.a[1])
    if t.op == 'ZIP':
        return length(t.a[0])
    if t.op == 'S':
        return C(len(t.a[0].encode('utf8')))
    if t.op == 'INF':
        return mk('INFLEN')
    r = mk('LEN', t)
    NONNEG.add(r)
    return r


def rev(t):
    if t.op == 'REV':
        return t.a[0]
    if t.op == 'SEQ':
        out = []
        for p in reversed(t.a):
            if p.op in ('ONE', 'REP'):
                out.append(p)
            elif p.op == 'ALL':
                out.append(mk('ALL', rev(p.a[0])))
            elif p.op == 'SUB':
                n = length(p.a[0])
                out.append(mk('SUB', rev(p.a[0]), sub(n, p.a[2]), sub(n, p.a[1])))
            else:
                out.append(mk('ALL', mk('REV', mk('SEQ', p))))
        return seq(out)
    return mk('REV', t)


def elem(L, s):
    if s.op == 'SEQ' and len(s.a) == 1:
        p = s.a[0]
        if p.op == 'RNG':
            return add(p.a[0], mk('IDX', L))
        if p.op == 'REP':
            return p.a[0]
        if p.op == 'ALL':
            return elem(L, p.a[0])
    if s.op == 'REV':
        u = s.a[0]
        if u.op == 'SEQ' and len(u.a) == 1:
            p = u.a[0]
            if p.op == 'RNG':
                return sub(add(p.a[1], C(-1)), mk('IDX', L))
            if p.op == 'REP':
                return p.a[0]
    if s.op == 'INF':
        return gsym(s.a[0], add(mk('IDX', L), s.a[1]))
    if s.op == 'ZIP':
        return tup([elem(L, x) for x in s.a])
    return mk('ELEM', L, s)


def gsym(kind, idx):
    return mk('GSYM', kind, idx)


def at(s, i):
    """element of a sequence; symbolic where undetermined"""
    if s.op == 'SEQ':
        k = i.a[0] if isC(i) else None
        if k is not None:
            pos = C(0)
            for p in s.a:
                n = plen(p)
                if not isC(n):
                    if p.op == 'COMP' and isC(pos):
                        L, src, cases = p.a
                        if len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1 and cases[0][1][0].op == 'ONE':
                            return instantiate(cases[0][1][0].a[0], L, src, sub(i, pos))
                    if isC(pos):
                        off = sub(i, pos)
                        if len(s.a) == 1 or p is s.a[-1]:
                            if p.op == 'ALL':
                                return at(p.a[0], off)
                            if p.op == 'SUB':
                                return at(p.a[0], add(p.a[1], off))
                            if p.op == 'RNG':
                                return add(p.a[0], off)
                            if p.op == 'REP':
                                return p.a[0]
                    break
                if isC(pos) and isC(n) and k < pos.a[0] + n.a[0]:
                    off = sub(i, pos)
                    if p.op == 'ONE':
                        return p.a[0]
                    if p.op == 'ALL':
                        return at(p.a[0], off)
                    if p.op == 'SUB':
                        return at(p.a[0], add(p.a[1], off))
                    if p.op == 'RNG':
                        return add(p.a[0], off)
                    if p.op == 'REP':
                        return p.a[0]
                    break
                pos = add(pos, n)
        elif len(s.a) == 1:
            p = s.a[0]
            if p.op == 'SUB':
                return at(p.a[0], add(p.a[1], i))
            if p.op == 'RNG':
                return add(p.a[0], i)
            if p.op == 'REP':
                return p.a[0]
            if p.op == 'COMP':
                L, src, cases = p.a
                if len(cases) == 1 and not cases[0][0] and len(cases[0][1]) == 1 and cases[0][1][0].op == 'ONE':
                    return instantiate(cases[0][1][0].a[0], L, src, i)
        # last element
        if len(s.a) > 1 and s.a[-1].op == 'ONE' and i is add(length(s), C(-1)):
            return s.a[-1].a[0]
    if s.op == 'STORE':
        e = eq(s.a[1], i)
        if e is TRUE:
            return s.a[2]
        if e is FALSE:
            return at(s.a[0], i)
    if s.op == 'REV':
        return at(s.a[0], sub(add(length(s), C(-1)), i))
    if s.op == 'INF':
        return gsym(s.a[0], add(i, s.a[1]))
    if i.op == 'IDX':
        return elem(i.a[0], s)
    if s.op == 'ZIP':
        return tup([at(x, i) for x in s.a])
    return mk('AT', s, i)


def instantiate(t, L, src, i):
    m = {mk('IDX', L): i}
    for x in subterms(t):
        if x.op == 'ELEM' and x.a[0] == L:
            m[x] = at(x.a[1], i)
    return subst(t, m)


def slc(s, lo, hi):
    """s[lo..hi]"""
    if lo is hi:
        return EMPTY
    if isC(lo) and lo.a[0] == 0 and hi is length(s):
        return s
    if s.op == 'S' and isC(lo) and isC(hi):
        b = s.a[0].encode()
        if 0 <= lo.a[0] <= hi.a[0] <= len(b):
            try:
                return mk('S', b[lo.a[0]:hi.a[0]].decode())
            except UnicodeDecodeError:
                pass
    l = conc_list(s)
    if l is not None and isC(lo) and isC(hi):
        return seqof(l[lo.a[0]:hi.a[0]])
    if s.op == 'SEQ':
        # try to cut on part boundaries
        pos = C(0)
        bounds = [(pos)]
        for p in s.a:
            pos = add(pos, plen(p))
            bounds.append(pos)
        i = next((k for k, b in enumerate(bounds) if b is lo), None)
        j = next((k for k, b in enumerate(bounds) if b is hi), None)
        if i is not None and j is not None and i <= j:
            return seq(s.a[i:j])
        if len(s.a) == 1 and s.a[0].op == 'SUB':
            p = s.a[0]
            return seq([mk('SUB', p.a[0], add(p.a[1], lo), add(p.a[1], hi))])
        if i is not None:
            # cut leading whole parts
            if i > 0:
                return slc(seq(s.a[i:]), C(0), sub(hi, lo))
    return seq([mk('SUB', s, lo, hi)])


# ---------------------------------------------------------------- rebuild / substitution
def rebuild(op, a):
    if op == 'FLD':
        return fld(*a)
    if op == 'ADT':
        return adt(*a)
    if op == 'TUP':
        return tup(a)
    if op == 'SEQ':
        return seq(a)
    if op == 'LIN':
        c, items = a
        r = C(c)
        for t, k in items:
            r = add(r, t, k)
        return r
    if op == 'LEN':
        return length(a[0])
    if op == 'AT':
        return at(*a)
    if op == 'ELEM':
        return elem(*a)
    if op == 'EQ':
        return eq(*a)
    if op == 'EQ0':
        return eq(a[0], C(0))
    if op == 'LT0':
        return lt0(a[0])
    if op == 'NOT':
        return neg(a[0])
    if op == 'REV':
        return rev(a[0])
    if op == 'MUL':
        return mul(*a)
    return mk(op, *a)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        na = tuple(go(y) for y in x.a)
        r = x if na == x.a else rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def show(t, d=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
    if not isinstance(t, T):
        return str(t).split('::')[-1] if isinstance(t, str) else str(t)
    if d > 24:
        return '…'
    o = t.op
    if o == 'C':
        return str(t.a[0])
    if o == 'S':
        return repr(t.a[0])
    if o == 'ADT':
        p, v, fs = t.a
        dd = ADTS.get(p)
        nm = p.split('::')[-1]
        if dd and dd['enum']:
            nm = dd['v'][v]['n']
        if not fs:
            return nm
        names = [f[0] for f in dd['v'][v]['f']] if dd else range(len(fs))
        if all(str(n).isdigit() for n in names):
            return nm + '(' + ', '.join(show(f, d + 1) for f in fs) + ')'
        return nm + '{' + ', '.join('%s: %s' % (n, show(f, d + 1)) for n, f in zip(names, fs)) + '}'
    if o == 'TUP':
        return '(' + ', '.join(show(x, d + 1) for x in t.a) + ')'
    if o == 'FLD':
        v, p, var, i = t.a
        dd = ADTS.get(p)
        if dd:
            if p == OPTION:
                return show(v, d + 1) + '?'
            n = dd['v'][var]['f'][i][0]
            if dd['enum']:
                n = dd['v'][var]['n'] + '.' + n
        else:
            n = i
        return '%s.%s' % (show(v, d + 1), n)
    if o == 'LIN':
        s = []
        for x, k in t.a[1]:
            s.append((('+' if k > 0 else '-') + ('' if abs(k) == 1 else '%d*' % abs(k)) + show(x, d + 1)))
        if t.a[0]:
            s.append('%+d' % t.a[0])
        return '(' + ' '.join(s) + ')'
    if o == 'SEQ':
        return '[' + ', '.join(show(x, d + 1) for x in t.a) + ']'
    if o == 'ONE':
        return show(t.a[0], d + 1)
    if o == 'ALL':
        return '*' + show(t.a[0], d + 1)
    if o == 'SUB':
        return '*%s[%s..%s]' % tuple(show(x, d + 1) for x in t.a)
    if o == 'COMP':
        return 'for#%s in %s {%s}' % (t.a[0], show(t.a[1], d + 1), '; '.join(
            '%s => %s' % (showconds(c, d + 1), show(tuple(i), d + 1)) for c, i in t.a[2]))
    if o == 'LT0':
        return '%s<0' % show(t.a[0], d + 1)
    if o == 'EQ0':
        return '%s==0' % show(t.a[0], d + 1)
    if o == 'EQ':
        return '%s==%s' % (show(t.a[0], d + 1), show(t.a[1], d + 1))
    if o == 'NOT':
        return '!' + show(t.a[0], d + 1)
    if o == 'VAR':
        dd = ADTS.get(t.a[1])
        return '%s is %s' % (show(t.a[0], d + 1), dd['v'][t.a[2]]['n'] if dd else t.a[2])
    if o == 'ELEM':
        return '$%s<%s>' % (t.a[0], show(t.a[1], d + 1))
    if o == 'AT':
        return '%s[%s]' % (show(t.a[0], d + 1), show(t.a[1], d + 1))
    if o == 'LEN':
        return 'len(%s)' % show(t.a[0], d + 1)
    if o in ('SYM', 'DSYM'):
        return str(t.a[0])
    if o == 'LV':
        return 'lv#%s:%s' % (t.a[0], show(t.a[1], d + 1))
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) for x in t.a))


def showconds(cs, d=0):
    return ' & '.join(('' if p else '¬') + '(' + show(a, d) + ')' for a, p in cs) or 'true'
