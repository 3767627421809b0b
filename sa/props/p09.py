"""Sequence rules and the productions they are rewritten to."""
from fix import *
from props import p07
from lin import Facts

TECHNIQUE = ('abstract interpretation of MIR: every path of the rewriting of one sequence is read as an equation between languages of repetitions '
             '(intervals of counts with a kind of separation, linear arithmetic over the bounds); the work-list invariant ties requested symbols to sequences')

SQ = 'cfg_sequence::Sequence'
SEP = 'cfg_sequence::Separator'
KINDS = ('Trailing', 'Proper', 'Liberal', 'Null')


def kinds():
    return {x['n']: i for i, x in enumerate(ADTS[full(SEP)]['v'])}


class Bad(Exception):
    pass


class Unknown(Exception):
    pass


INF = 'inf'


class Seqn:
    """(item, lo, hi, kind, separator) read from a sequence value on a path"""

    def __init__(self, st, v):
        g = lambda n: st.norm(F(v, SQ, n))
        self.lhs, self.item, self.lo, end, sep = g('lhs'), g('rhs'), g('start'), g('end'), g('separator')
        self.read(st, end, sep)

    def read(self, st, end, sep):
        t = st.truth(is_some(end))
        if t is None:
            raise Unknown('end')
        self.hi = st.norm(unsome(end)) if t else INF
        self.sep = sep
        self.kind, self.by = None, None
        for n, i in kinds().items():
            if st.truth(isvar(sep, SEP, n)):
                self.kind = n
                self.by = None if n == 'Null' else st.norm(fld(sep, full(SEP), i, 0))

    def same(self, st, o):
        """three-valued equality of the five components"""
        r = [cmp3(st, self.item, o.item)[0], num3(st, self.lo, o.lo)]
        if (self.hi == INF) != (o.hi == INF):
            r.append('DIFF')
        elif self.hi != INF:
            r.append(num3(st, self.hi, o.hi))
        if self.sep is o.sep:
            r.append('EQ')
        elif self.kind and o.kind:
            r.append('DIFF' if self.kind != o.kind else 'EQ' if self.kind == 'Null' else cmp3(st, self.by, o.by)[0])
        else:
            r.append('?')
        return 'DIFF' if 'DIFF' in r else 'EQ' if set(r) == {'EQ'} else '?'

    def __str__(self):
        return '%s{%s..=%s, %s}' % (show(self.item)[-30:], show(self.lo)[-60:], self.hi if self.hi == INF else show(self.hi)[-60:], self.kind)


class Key(Seqn):
    def __init__(self, st, k, path):
        g = lambda n: st.norm(F(k, path, n))
        self.lhs, self.item, self.lo = None, g('rhs'), g('start')
        self.read(st, g('end'), g('separator'))


def key_of(st, k):
    if k.op == 'ADT' and {x[0] for x in ADTS[k.a[0]]['v'][0]['f']} >= {'rhs', 'start', 'end', 'separator'}:
        return Key(st, k, k.a[0])
    return None


# ---- arithmetic on a path
def np2(st, ts, nonneg):
    """next_power_of_two: x <= np(x), and 1 <= np(x)/2 <= x-1 <= 2*(np(x)/2) - 1 for x >= 2"""
    seen, halves, nps = set(), [], []

    def go(t):
        if isinstance(t, tuple):
            for y in t:
                go(y)
        if not isinstance(t, T) or t in seen:
            return
        seen.add(t)
        if t.op == 'BIN' and t.a[0] in ('Div', 'Shr') and isC(t.a[2]) and t.a[2].a[0] == (2 if t.a[0] == 'Div' else 1) and isnp(t.a[1]):
            halves.append((t, t.a[1].a[1]))
        if isnp(t):
            nps.append((t, t.a[1]))
        for x in t.a:
            go(x)
    for t in ts:
        go(t)
    f = Facts(st.conds, nonneg)
    out = []
    for t, x in nps:
        out += [sub(x, t), sub(C(1), t)]
    for t, x in halves:
        if f.le(C(2), x):
            out += [sub(C(1), t), sub(t, sub(x, C(1))), sub(x, add(t, t))]
    return out


def isnp(t):
    return t.op == 'CALL' and str(t.a[0]).endswith('next_power_of_two') and isinstance(t.a[1], T)


LIN = {}


def leq(st, a, b):
    """a <= b, three-valued; INF allowed"""
    if b == INF:
        return True
    if a == INF:
        return False
    return LIN[st].le(st.norm(a), st.norm(b))


def num3(st, a, b):
    if a is b:
        return 'EQ'
    x, y = leq(st, a, b), leq(st, b, a)
    return 'EQ' if x and y else 'DIFF' if False in (x, y) else '?'


def plus(a, b):
    return INF if INF in (a, b) else add(a, b)


class Lang:
    """lo..=hi items with a kind of separation: 'Null', 'Proper', 'Trailing'; kind 'bare': at most one item, no separator"""

    def __init__(self, kind, lo, hi, by=None):
        self.kind, self.lo, self.hi, self.by = kind, lo, hi, by

    def __str__(self):
        return '%s[%s..%s]' % (self.kind, show(self.lo)[-60:], self.hi if self.hi == INF else show(self.hi)[-60:])


def langs_of(st, s):
    if s.kind is None:
        raise Unknown('kind of separation')
    if s.kind == 'Liberal':
        return [Lang('Proper', s.lo, s.hi, s.by), Lang('Trailing', s.lo, s.hi, s.by)]
    return [Lang(s.kind, s.lo, s.hi, s.by)]


def tokens(st, rule, X, req):
    """the right-hand side as item / sep / self / Seqn"""
    rhs = st.norm(F(rule, 'cfg::CfgRule', 'rhs'))
    if rhs.op != 'SEQ':
        raise Unknown('right-hand side')
    out = []
    for p in rhs.a:
        if p.op == 'ONE':
            v = st.norm(p.a[0])
        else:
            raise Unknown('right-hand side')
        if v is X.item:
            out.append('item')
        elif X.by is not None and v is X.by:
            out.append('sep')
        elif v is X.lhs:
            out.append('self')
        elif v in req:
            out.append(req[v])
        elif v.op == 'MVAL':
            v = remembered(st, v)
            if v in req:
                out.append(req[v])
                continue
            if v.op != 'MVAL':
                raise Unknown('remembered symbol')
            k = key_of(st, v.a[1])
            if k is None:
                raise Unknown('remembered symbol')
            out.append(k)
        elif v.op == 'FRESH':
            raise Bad('%s is a fresh symbol for which no sequence is requested' % show(v))
        else:
            raise Unknown(show(v)[:100])
    return out


def comps(k1, k2):
    if k1.op == 'ADT' and k2.op == 'ADT' and k1.a[0] == k2.a[0]:
        out = []
        for a, b in zip(k1.a[2], k2.a[2]):
            if a is b:
                continue
            if a.op == 'ADT' and b.op == 'ADT' and a.a[0] == b.a[0]:
                if a.a[1] != b.a[1]:
                    return [FALSE]
                out += comps(a, b)
            elif a.op == 'ADT' or b.op == 'ADT':
                if a.op != 'ADT':
                    a, b = b, a
                out.append(isv(b, a.a[0], a.a[1]))
                for i, x in enumerate(a.a[2]):
                    y = fld(b, a.a[0], a.a[1], i)
                    if x is not y:
                        out.append(eq(x, y))
            else:
                out.append(eq(a, b))
        return out
    return [] if k1 is k2 else [eq(k1, k2)]


def keyeq(st, k1, k2):
    r = [st.truth(x) for x in comps(st.norm(k1), st.norm(k2))]
    return False if False in r else None if None in r else True


def remembered(st, v):
    m, k = v.a
    while m.op == 'MINS':
        r = keyeq(st, m.a[1], k)
        if r is None:
            raise Unknown('remembered symbol')
        if r:
            return st.norm(m.a[2])
        m = m.a[0]
    return mk('MVAL', m, k)


def lookups(st):
    """(map, key, found?) asked on the path"""
    out = []
    for a, pol in st.conds:
        a = st.norm(a)
        if a.op == 'MHAS':
            out.append((a.a[0], a.a[1], pol))
    return out


def feasible(st):
    for m, k, pol in lookups(st):
        while m.op == 'MINS':
            r = keyeq(st, m.a[1], k)
            if r is None:
                break
            if r:
                if not pol:
                    return False
                break
            m = m.a[0]
        else:
            if m.op == 'MAP0' and pol:
                return False
    return True


def isv(v, path, i):
    return isvar(v, path, ADTS[path]['v'][i]['n'])


def saturate(st):
    """equalities of the path, both sides rewritten; False when they contradict"""
    for _ in range(3):
        more = False
        for a, pol in list(st.conds):
            if a.op == 'EQ' and pol:
                x, y = st.norm(a.a[0]), st.norm(a.a[1])
                if x is y:
                    continue
                e = eq(x, y)
                t = st.truth(e)
                if t is False:
                    return False
                if t is None:
                    if not st.learn(e, True):
                        return False
                    more = True
        if not more:
            break
    return all(st.truth(st.norm(a)) is not (not pol) for a, pol in st.conds) and consistent(st)


def refine(c, st, Xv, extra=()):
    """splits a path until the shape of the sequence and the equality of remembered keys is known"""
    ats = [is_some(F(Xv, SQ, 'end'))] + [isvar(F(Xv, SQ, 'separator'), SEP, n) for n in KINDS]
    for m, k, pol in lookups(st):
        while m.op == 'MINS':
            ats += [a for a in comps(m.a[1], k) if a is not FALSE]
            m = m.a[0]
    return [s for s in c.split(st, ats) if feasible(s) and saturate(s)]


def cat(st, X, toks):
    """language of a token string; a list of Lang"""
    alts = [[]]
    for t in toks:
        if t == 'item':
            alts = [a + [('I', C(1), C(1))] for a in alts]
        elif t == 'sep':
            alts = [a + [('S',)] for a in alts]
        else:
            if t.item is not X.item:
                if cmp3(st, t.item, X.item)[0] == 'EQ':
                    pass
                else:
                    raise Bad('a sequence of another symbol is used: %s' % t)
            if t.kind is not None and t.kind != 'Null' and X.kind not in (None, 'Null') and t.by is not X.by:
                r = cmp3(st, t.by, X.by)[0]
                if r == 'DIFF':
                    raise Bad('separated by another symbol: %s' % t)
                if r != 'EQ':
                    raise Unknown('separator')
            alts = [a + [(l.kind, l.lo, l.hi)] for a in alts for l in langs_of(st, t)]
    return [fold(st, X, a) for a in alts]


def fold(st, X, a):
    one = lambda t: leq(st, C(1), t[1])
    if not a:
        return Lang('bare', C(0), C(0))
    if len(a) == 1:
        if a[0][0] == 'S':
            raise Bad('a separator on its own')
        if a[0][0] == 'I':
            return Lang('bare', C(1), C(1))
        return Lang(a[0][0], a[0][1], a[0][2])
    # normalise towards a sum: glue between neighbours
    cur = a[0]
    k = cur[0]
    if k == 'S':
        raise Bad('starts with a separator')
    lo, hi = cur[1], cur[2]
    state = {'I': 'bare', 'Null': 'Null', 'Proper': 'Proper', 'Trailing': 'Trailing'}[k]
    nonempty = one(cur)
    for t in a[1:]:
        if t[0] == 'S':
            if state in ('bare', 'Proper') :
                if nonempty is not True:
                    if nonempty is False:
                        raise Bad('a separator with nothing before it')
                    raise Unknown('possibly empty prefix')
                state = 'Trailing'
            elif state == 'Null':
                if leq(st, hi, C(1)) and nonempty:
                    state = 'Trailing'
                elif leq(st, C(2), hi):
                    raise Bad('elements without separation followed by a separator')
                else:
                    raise Unknown('separation')
            else:
                raise Bad('two separators in a row')
            continue
        n = {'I': 'bare', 'Null': 'Null', 'Proper': 'Proper', 'Trailing': 'Trailing'}[t[0]]
        tn = one(t)
        if state == 'Trailing':
            if n == 'bare' or n == 'Proper':
                if tn is not True:
                    raise (Bad('an element is left with a trailing separator') if leq(st, t[1], C(0)) and leq(st, C(1), hi) else Unknown('possibly empty suffix'))
                state = 'Proper'
            elif n == 'Trailing':
                state = 'Trailing'
            elif n == 'Null':
                if leq(st, t[2], C(1)) and tn:
                    state = 'Proper'
                elif leq(st, C(2), t[2]):
                    raise Bad('elements without separation in a separated sequence')
                else:
                    raise Unknown('separation')
        elif state in ('bare', 'Null'):
            if n in ('bare', 'Null'):
                state = 'Null'
            elif nonempty and tn:
                raise Bad('elements not separated from a separated sequence')
            else:
                raise Unknown('mixed')
        elif state == 'Proper':
            if nonempty and tn:
                raise Bad('two separated runs without a separator between them')
            raise Unknown('mixed')
        lo, hi = plus(lo, t[1]), plus(hi, t[2])
        nonempty = True if (nonempty or tn) else (None if None in (nonempty, tn) else False)
    return Lang(state, st.norm(lo) if lo != INF else lo, st.norm(hi) if hi != INF else hi)


def fits(st, l, kind):
    """may the strings of l occur in a sequence with this kind of separation?"""
    if l.kind == kind:
        return True
    small = 0 if 'Trailing' in (l.kind, kind) else 1
    if l.kind == 'bare':
        return leq(st, l.hi, C(small))
    r = leq(st, l.hi, C(small))
    if r:
        return True
    return False if r is False else None


def cover(st, target, ls):
    """None/True/False: the union of the intervals equals lo..=hi"""
    lo, hi = target.lo, target.hi
    why = ''
    unk = False
    for l in ls:
        for x, y, w in ((lo, l.lo, 'fewer'), (l.hi, hi, 'more')):
            r = leq(st, x, y)
            if r is False:
                # the part must be inhabited
                if leq(st, l.lo, l.hi):
                    return False, '%s repetitions than the rule allows: %s' % (w, l)
                unk = True
            elif r is None:
                unk = True
    # chain
    rest = list(ls)
    reach = None
    first = [l for l in rest if leq(st, l.lo, lo)]
    if not first:
        if all(leq(st, plus(lo, C(1)), l.lo) for l in rest):
            return False, 'the minimum is never produced'
        return None, 'minimum'
    reach = first[0].hi
    used = {id(first[0])}
    moved = True
    while moved and not (leq(st, hi, reach)):
        moved = False
        for l in rest:
            if id(l) in used:
                continue
            if reach == INF or leq(st, l.lo, plus(reach, C(1))):
                used.add(id(l))
                moved = True
                if leq(st, reach, l.hi):
                    reach = l.hi
                elif leq(st, l.hi, reach) is None:
                    unk = True
    if leq(st, hi, reach):
        return (None if unk else True), ''
    # definite gap: every interval is either inside lo..=reach or begins after reach+1
    nxt = plus(reach, C(1))
    if reach != INF and leq(st, nxt, hi):
        out = True
        for l in rest:
            if leq(st, l.hi, reach) or leq(st, plus(nxt, C(1)), l.lo):
                continue
            out = False
        if out:
            return False, '%s repetitions are not produced' % show(nxt)[-80:]
    return None, 'gap'


RANK = {'Null': 0, 'Proper': 0, 'Trailing': 1, 'Liberal': 2}


def value(t, env):
    """value of an arithmetic term at given bounds"""
    if t in env:
        return env[t]
    if isC(t):
        return t.a[0]
    if t.op == 'LIN':
        r = t.a[0]
        for x, k in t.a[1]:
            v = value(x, env)
            if v is None:
                return None
            r += k * v
        return r
    if isnp(t):
        v = value(t.a[1], env)
        return None if v is None or v < 0 else 1 << max(0, (v - 1).bit_length()) if v else 1
    if t.op == 'BIN' and t.a[0] in ('Div', 'Rem', 'Shr', 'Shl'):
        a, b = value(t.a[1], env), value(t.a[2], env)
        if a is None or b is None or a < 0 or b < 0 or b == 0 and t.a[0] in ('Div', 'Rem'):
            return None
        return {'Div': lambda: a // b, 'Rem': lambda: a % b, 'Shr': lambda: a >> b, 'Shl': lambda: a << b}[t.a[0]]()
    if t.op in ('MIN', 'MAX', 'SATSUB') and len(t.a) == 2:
        a, b = value(t.a[0], env), value(t.a[1], env)
        if a is None or b is None:
            return None
        return min(a, b) if t.op == 'MIN' else max(a, b) if t.op == 'MAX' else max(0, a - b)
    return None


def holds(st, env):
    """the path is taken at these bounds (None: not known). New sub-sequences are taken to be unknown so far."""
    for a, pol in st.conds:
        while a.op == 'NOT':
            a, pol = a.a[0], not pol
        a = st.norm(a)
        if isC(a):
            if bool(a.a[0]) != pol:
                return False
            continue
        if a.op in ('LT0', 'EQ0', 'EQ'):
            v = value(a.a[0] if a.op != 'EQ' else sub(a.a[0], a.a[1]), env)
            if v is None:
                return None
            if (v < 0 if a.op == 'LT0' else v == 0) != pol:
                return False
        elif a.op == 'MHAS':
            if pol:
                return None
        elif a.op != 'VAR':
            return None
    return True


def counterexample(st, X, target, prod):
    """bounds at which the counts produced differ from the counts allowed, read off the arithmetic of the path"""
    for lo in range(0, 12):
        for hi in (range(lo, 16) if X.hi != INF else [None]):
            env = {}
            if isC(X.lo):
                if X.lo.a[0] != lo:
                    continue
            else:
                env[X.lo] = lo
            if X.hi != INF:
                if isC(X.hi):
                    if X.hi.a[0] != hi:
                        continue
                else:
                    if X.hi in env and env[X.hi] != hi:
                        continue
                    env[X.hi] = hi
            if not all(x.op in ('FLD', 'SYM') for x in env):
                return None
            if holds(st, env) is not True:
                continue
            got = set()
            for l in prod:
                a = value(l.lo, env)
                b = 40 if l.hi == INF else value(l.hi, env)
                if a is None or b is None:
                    return None
                got |= set(range(a, min(b, 40) + 1))
            want = set(range(lo, (40 if hi is None else hi) + 1))
            if got != want:
                d = min(got ^ want)
                return 'for %s..=%s, %d repetitions are %s:' % (lo, 'unlimited' if hi is None else hi, d, 'produced' if d in got else 'not produced')
    return None


def well_founded(st, X, s):
    """the sub-sequence is smaller: (maximum, width, separation), or for no maximum (minimum 1 < 0 < others, separation)"""
    if s.same(st, X) == 'EQ':
        return False
    if X.kind is None or s.kind is None:
        return None
    rank = RANK[s.kind] < RANK[X.kind]
    if X.hi == INF:
        if s.hi != INF:
            return True
        def cl(v):
            for k in (1, 0):
                r = num3(st, v, C(k))
                if r == 'EQ':
                    return 1 - k
                if r == '?':
                    return None
            return 2
        a, b = cl(s.lo), cl(X.lo)
        if s.lo is X.lo:
            return True if rank else None
        if a is None or b is None:
            return None
        return True if a < b or a == b and rank else None
    if s.hi == INF:
        return None
    if leq(st, plus(s.hi, C(1)), X.hi):
        return True
    if not leq(st, s.hi, X.hi):
        return None
    if leq(st, plus(sub(s.hi, s.lo), C(1)), sub(X.hi, X.lo)):
        return True
    if leq(st, sub(s.hi, s.lo), sub(X.hi, X.lo)) and rank:
        return True
    return None


def requests(st, root):
    """(pushed sequences, memoised key -> symbol) found in the final state"""
    push, memo, seen = [], [], set()

    def go(t):
        if not isinstance(t, T) or t in seen or t.op in ('LV', 'LOOPV', 'AFTER', 'LUPD'):
            return
        seen.add(t)
        if t.op == 'SEQ':
            for p in t.a:
                if p.op == 'ONE' and p.a[0].op == 'ADT' and p.a[0].a[0] == full(SQ):
                    push.append(p.a[0])
        if t.op == 'MINS':
            memo.append((t.a[1], t.a[2]))
            go(t.a[0])
            return
        for x in t.a:
            if isinstance(x, T):
                go(x)
            elif isinstance(x, tuple):
                for y in x:
                    go(y)
    go(root)
    return push, memo


def equation(c, w, st0, Xv, rules, root0, what):
    """one path of the lowering of sequence Xv"""
    facts = st0.fork()
    for st in refine(c, facts, Xv):
        equation1(c, w, st, Xv, [st.norm(r) for r in rules], st.norm(root0), what)


def equation1(c, w, st, Xv, rules, root, what):
    st = st.fork()
    try:
        X = Seqn(st, Xv)
    except Unknown as e:
        return c.inc('language', w, what, str(e))
    if X.kind is None:
        return c.inc('language', w, what, 'kind of separation')
    if X.by is not None and X.by is X.item:
        return
    # a sequence that allows nothing is not a rule
    nn = [X.lo] + ([X.hi] if X.hi != INF else [])
    nn = [t for t in nn if not isC(t)]
    if X.hi != INF and not st.learn(le(X.lo, X.hi), True):
        return
    LIN.clear()
    LIN[st] = Facts(st.conds, nn, np2(st, [root] + rules, nn))
    if LIN[st].infeasible():
        return
    tag = '%s %s' % (what, X.kind)
    cond = 'when %s: ' % showconds(st.conds)[-400:]
    push, memo = requests(st, root)
    req = {}
    for p in push:
        try:
            s = Seqn(st, p)
        except Unknown as e:
            return c.inc('language', w, tag, str(e))
        req[s.lhs] = s
    # memory
    for k, v in memo:
        kk = key_of(st, k)
        v = st.norm(v)
        if kk is None:
            c.inc('requested', w, tag, 'key')
            continue
        if v not in req:
            c.res(False if v.op == 'FRESH' else None, 'requested', w, tag, cond + '%s is remembered for %s but its sequence is not requested' % (show(v), kk))
            continue
        r = req[v].same(st, kk)
        c.res({'EQ': True, 'DIFF': False}.get(r), 'requested', w, tag, cond + 'the symbol of %s is remembered for %s' % (req[v], kk))
    # distinct symbols for distinct sequences
    for p in push:
        l = st.norm(F(p, SQ, 'lhs'))
        if l.op != 'FRESH':
            c.res(False if l is X.lhs or l.op == 'MVAL' else None, 'requested', w, tag, cond + 'a sequence is requested for %s, which is not a new symbol' % show(l)[-80:])
    for s in req.values():
        c.res(well_founded(st, X, s), 'smaller', w, tag, cond + 'the sequence is reduced to itself: %s' % s)
        if s.hi != INF:
            r = leq(st, s.lo, s.hi)
            c.res(r if r is not False else False, 'smaller', w, tag, cond + 'a sequence with minimum above its maximum is requested: %s' % s)
    # rules
    prod, rec = [], []
    try:
        for r in rules:
            l = st.norm(F(r, 'cfg::CfgRule', 'lhs'))
            if l is not X.lhs:
                rr = cmp3(st, l, X.lhs)[0]
                if rr == 'DIFF' or l in req or l.op == 'FRESH':
                    raise Bad('a rule is added for %s instead of the symbol of the sequence' % show(l)[-80:])
                raise Unknown('left-hand side')
            t = tokens(st, r, X, req)
            if 'self' in t:
                rec.append(t)
            else:
                for x in t:
                    if isinstance(x, Seqn) and x.same(st, X) == 'EQ':
                        raise Bad('the sequence is defined by itself')
                prod += cat(st, X, t)
        target = langs_of(st, X)
        if X.kind == 'Liberal':
            pass
        for t in rec:
            glue = ['item'] if X.kind == 'Null' else ['sep', 'item']
            if X.kind == 'Proper' and (t == ['self', 'sep', 'item'] or t == ['item', 'sep', 'self']) or X.kind == 'Null' and t in (['self', 'item'], ['item', 'self']) \
                    or X.kind == 'Trailing' and t in (['self', 'item', 'sep'], ['item', 'sep', 'self']):
                if not prod:
                    raise Bad('recursion without a base')
                if X.kind == 'Proper' and any(leq(st, l.lo, C(0)) for l in prod):
                    raise Bad('recursion over an empty base separates nothing')
                prod = [Lang(X.kind if l.kind == 'bare' else l.kind, l.lo, INF) for l in prod]
            elif t == ['self']:
                pass
            elif X.kind in ('Proper', 'Null') and all(x in ('self', 'item', 'sep') for x in t):
                raise Bad('recursive rule %s in a sequence with %s separation' % (t, X.kind))
            else:
                raise Unknown('recursion %s' % t)
        kindset = {t.kind for t in target}
        per = {k: [] for k in kindset}
        unk = False
        for l in prod:
            f = {k: fits(st, l, k) for k in kindset}
            if all(v is False for v in f.values()):
                if leq(st, l.lo, l.hi):
                    raise Bad('%s in a sequence with %s separation' % (l, X.kind))
                unk = True
            elif True not in f.values():
                unk = True
            for k, v in f.items():
                if v:
                    per[k].append(l)
                elif v is None:
                    pass
                elif l.kind != k and l.hi != INF and leq(st, l.lo, C(1)) is not False:
                    # the short strings of another kind
                    small = C(0) if 'Trailing' in (l.kind, k) else C(1)
                    per[k].append(Lang(k, l.lo, small)) if leq(st, l.lo, small) and leq(st, small, l.hi) else None
                elif l.kind != k and l.hi == INF and leq(st, l.lo, C(0)):
                    per[k].append(Lang(k, C(0), C(0)))
        verdict, why = True, ''
        for t in target:
            v, y = cover(st, t, per[t.kind])
            if v is not True:
                verdict = False if v is False else (None if verdict is True else verdict)
                why = y
                if v is False:
                    break
        if unk and verdict:
            verdict = None
        if verdict is None and all(any(l.kind in (k, 'bare') or k == 'Proper' and l.kind == 'Null' for l in prod) for k in kindset):
            why = counterexample(st, X, target, prod)
            if why:
                verdict = False
        c.res(verdict, 'language', w, tag, cond + '%s of %s; the rules produce %s' % (why, X, ', '.join(map(str, prod))))
    except Bad as e:
        c.viol('language', w, tag, cond + '%s (sequence %s)' % (e, X))
    except Unknown as e:
        c.inc('language', w, tag, str(e))


def hist(c, w, st, rules, Xv, topv, first, what):
    """provenance of the emitted rules"""
    H = topv
    for r in rules:
        h = st.norm(F(r, 'cfg::CfgRule', 'history'))
        ls = []
        while h.op == 'HISTL':
            ls.append(h.a[0])
            h = h.a[1]
        ln = full('LinkedHistoryNode')
        nm = [ADTS[ln]['v'][x.a[1]]['n'] if x.op == 'ADT' else '?' for x in ls]
        if h.op in ('CALL', 'OPQ') or '?' in nm:
            c.inc('history', w, what, 'history')
            continue
        want = st.norm(F(H, SQ, 'history'))
        b = st.truth(is_some(want))
        if b:
            c.same('history', w, st, h, unsome(want), 'history of ' + what)
        if 'RewriteSequence' in nm:
            d = ls[nm.index('RewriteSequence')]
            i = ADTS[ln]['v'][d.a[1]]['f']
            g = {x[0]: st.norm(v) for x, v in zip(i, d.a[2])}
            if 'top' in g:
                c.res(boolval(st, g['top'], first), 'history', w, 'marks the rules of the sequence itself: ' + what, 'top is %s' % show(g['top']))
            if 'rhs' in g:
                c.same('history', w, st, g['rhs'], F(H, SQ, 'rhs'), 'element recorded: ' + what)
        elif b:
            c.viol('history', w, what, 'the rewriting is not recorded')
        if 'SequenceRhs' in nm:
            d = ls[nm.index('SequenceRhs')]
            a = st.norm(d.a[2][0])
            rhs = st.norm(F(r, 'cfg::CfgRule', 'rhs'))
            if rhs.op == 'SEQ' and a.op == 'SEQ' and all(p.op == 'ONE' for p in rhs.a + a.a):
                got = [st.norm(p.a[0]) for p in a.a]
                exp = [st.norm(p.a[0]) for p in rhs.a]
                okk = len(got) == 3
                for i, v in enumerate(got):
                    t = st.truth(is_some(v))
                    if t is None:
                        okk = None if okk else okk
                        continue
                    if t != (i < len(exp)):
                        okk = False
                    elif t and st.norm(unsome(v)) is not exp[i]:
                        okk = False if cmp3(st, unsome(v), exp[i])[0] == 'DIFF' else None
                c.res(okk, 'history', w, 'right-hand side recorded: ' + what, show(a)[-200:])


def boolval(st, t, want):
    r = st.truth(t)
    return None if r is None else r == want


def rewrite(c):
    c.rule('language', 'the rules added for a sequence produce exactly the allowed numbers of elements with the demanded separation, taking the requested sub-sequences at their own meaning')
    c.rule('requested', 'every symbol handed out for a sub-sequence is new, remembered under that very sub-sequence, and queued with it')
    c.rule('smaller', 'no sequence is reduced to itself; no sub-sequence has its minimum above its maximum')
    c.rule('worklist', 'every queued sequence is lowered; nothing else leaves the queue')
    c.rule('history', 'emitted rules carry the history given with the sequence, what was recorded names the element and the symbols of the rule')
    prims = dict(PR.STD)
    prims.update(p07.hist_prims(c))
    top = mk('SYM', 'top')
    cut = dict(prims)
    stop = lambda I, st, f, vs, site: [(st, NONE)]
    cut['Vec::pop'] = stop
    cut['VecDeque::pop_front'] = cut['VecDeque::pop_back'] = stop
    s = c.summary('SequencesToProductions::rewrite', ['self', top], prims=cut)
    w = 'SequencesToProductions::rewrite'
    if s:
        for st, ret in s.outs:
            rules = [e[1] for e in st.ev if e[0] == 'add_rule']
            if any(e[0] == 'loop' for e in st.ev):
                c.inc('language', w, 'the sequence itself', 'loop')
                continue
            root = st.norm(st.cells[('in', 'self')])
            old = [x for q, _ in st.conds for x in subterms(q) if x.op == 'MHAS' and x.a[0].op == 'FLD' and x.a[0].a[0] is mk('SYM', 'self')]
            c.res(not old, 'requested', w, 'no symbol handed out for an earlier sequence is reused', 'looks up %s' % (show(old[0])[:200] if old else ''))
            push, _ = requests(st, root)
            if not rules and len(push) == 1 and cmp3(st, push[0], top)[0] == 'EQ':
                c.inc('language', w, 'the sequence itself', 'queued')
                continue
            if not rules:
                X = top
            equation(c, w, st, top, rules, root, 'the sequence itself:')
            hist(c, w, st, rules, top, top, True, 'the sequence itself')
    # the work list
    ks = kinds()
    sq = full(SQ)
    for hi in (NONE,):
        g = lambda n: F(top, SQ, n)
        order = [x[0] for x in ADTS[sq]['v'][0]['f']]
        val = {n: g(n) for n in order}
        val['separator'] = adt(full(SEP), ks['Liberal'], [mk('SYM', 'sep')])
        t = adt(sq, 0, [val[n] for n in order])
        s = c.summary('SequencesToProductions::rewrite', ['self', t], prims=prims)
        if not s:
            return
        done = set()
        for st, ret in s.outs:
            found = False
            for r, ch in alloops(st):
                if ch or id(r) in done:
                    found = found or not ch
                    continue
                done.add(id(r))
                found |= loop(c, w, st, r, t)
            if not found:
                c.inc('worklist', w, 'work list', 'no work list recognised')


def popped(st, root):
    """the work list as it was, and the element taken from it"""
    seen, out = set(), []

    def go(t):
        if not isinstance(t, T) or t in seen:
            return
        seen.add(t)
        if t.op == 'SUB':
            n = length(t.a[0])
            if isC(t.a[1]) and t.a[1].a[0] == 0 and sub(n, t.a[2]) is C(1):
                out.append((t.a[0], sub(n, C(1)), True))
            elif isC(t.a[1]) and t.a[1].a[0] == 1 and t.a[2] is n:
                out.append((t.a[0], C(0), True))
            else:
                out.append((t.a[0], None, False))
        for x in t.a:
            if isinstance(x, T):
                go(x)
            elif isinstance(x, tuple):
                for y in x:
                    go(y)
    go(root)
    return out


def loop(c, w, st0, r, top):
    found = False
    for kind, conds, ev, s2 in r.cases:
        if ('in', 'self') not in s2.cells:
            continue
        root = s2.norm(s2.cells[('in', 'self')])
        if kind == 'exit' or kind == 'brk' or kind == 'ret':
            continue
        ps = popped(s2, root)
        if len(ps) != 1 or ps[0][1] is None:
            c.inc('worklist', w, 'work list', 'no work list recognised')
            continue
        old, i, _ = ps[0]
        X = at(old, i)
        found = True
        new = mk('SYM', 'queued')
        m = {X: new}
        for o2, i2, k2 in popped(s2, s2.cells[('in', 'self')]):
            if i2 is not None:
                m[at(o2, i2)] = new
        s3 = St()
        if not learn_all(s3, [(subst_t(a, m), pol) for a, pol in tuple(x for x in st0.conds if not mentions(x[0], ('LV', 'LOOPV', 'AFTER', 'LUPD'))) + tuple(conds) + tuple(s2.conds) + tuple((s2.norm(a), pol) for a, pol in conds)]):
            continue
        rules = [subst_t(s2.norm(e[1]), m) for e in ev if e[0] == 'add_rule']
        root = subst_t(root, m)
        X = new
        equation(c, w, s3, X, rules, root, 'a queued sequence:')
        if not rules:
            c.viol('worklist', w, 'work list', 'when %s: a queued sequence gets no rule' % showconds(s2.conds)[-300:])
        else:
            c.ok('worklist', w, 'a queued sequence is taken and lowered')
        hist(c, w, s3, rules, X, top, False, 'a queued sequence')
    # leaving
    for kind, conds, ev, s2 in r.cases:
        if kind == 'back' or ('in', 'self') not in s2.cells:
            continue
        root = s2.cells[('in', 'self')]
        lvs = [x for x in stacks(root)]
        if not lvs:
            continue
        s2 = s2.fork()
        if not learn_all(s2, conds):
            continue
        for x in lvs:
            e = s2.truth(lt(length(x), C(1)))
            c.res(e, 'worklist', w, 'the work list is empty at the end', 'when %s: sequences remain queued' % showconds(s2.conds)[-300:])
    return found


def stacks(root):
    """fields of the rewriter that are lists of sequences"""
    if root.op != 'ADT':
        return []
    fs = ADTS[root.a[0]]['v'][root.a[1]]['f']
    return [v for f, v in zip(fs, root.a[2]) if str(f[1]).find("'cfg_sequence::Sequence'") >= 0 and "HashMap" not in str(f[1])]


# ---------------------------------------------------------------- builders
def ranges(c):
    c.rule('range', 'a range means the inclusive bounds it denotes; no bound means from zero, without limit')
    B = 'core::ops::range::Bound'
    vn = {x['n']: i for i, x in enumerate(ADTS[B]['v'])} if B in ADTS else {'Included': 0, 'Excluded': 1, 'Unbounded': 2}
    a, b = mk('SYM', 'a'), mk('SYM', 'b')
    lows = [('Included', adt(B, vn['Included'], [a]), a), ('Excluded', adt(B, vn['Excluded'], [a]), add(a, C(1))), ('Unbounded', adt(B, vn['Unbounded'], []), C(0))]
    highs = [('Included', adt(B, vn['Included'], [b]), b), ('Excluded', adt(B, vn['Excluded'], [b]), sub(b, C(1))), ('Unbounded', adt(B, vn['Unbounded'], []), None)]
    for name in ('cfg_sequence::Sequence::range', 'SequenceRuleBuilder::range', 'SequenceRuleBuilder::rhs_with_range'):
        for ln, lb, lo in lows:
            for hn, hb, hi in highs:
                rng = mk('TUP', lb, hb)
                args = ['self', rng] if not name.endswith('with_range') else ['self', 'x', rng]
                pr = dict(PR.STD)
                pr['SequenceDestination::add_sequence'] = p_addseq
                s = c.summary(name, args, prims=pr)
                if not s:
                    continue
                for st, ret in s.outs:
                    ret = st.norm(s.I.deref_deep(st, ret))
                    what = '%s %s..%s' % (name.split('::')[-1], ln, hn)
                    if name.startswith('cfg_sequence'):
                        l, e = F(ret, SQ, 'start'), F(ret, SQ, 'end')
                    elif name.endswith('with_range'):
                        seq = added(st)
                        if seq is None:
                            c.inc('range', name, what, 'no sequence')
                            continue
                        l, e = F(seq, SQ, 'start'), F(seq, SQ, 'end')
                    else:
                        v = st.norm(F(ret, 'builder::SequenceRuleBuilder', 'range'))
                        if st.truth(is_some(v)) is not True or unsome(v).op != 'TUP':
                            c.inc('range', name, what, show(v)[:100])
                            continue
                        l, e = unsome(v).a
                    bound(c, name, st, l, lo, what + ' minimum')
                    t = st.truth(is_some(e))
                    if hi is None:
                        c.res(None if t is None else not t, 'range', name, what + ' maximum', show(e))
                    elif t is not True:
                        c.res(t, 'range', name, what + ' maximum', 'no maximum')
                    else:
                        bound(c, name, st, unsome(e), hi, what + ' maximum')


def bound(c, w, st, got, want, what):
    got = st.norm(uncast(got))
    c.same('range', w, st, got, want, what)


def uncast(t):
    """bounds are taken below 2^32: casts through a wider type do not change them"""
    if t.op == 'CAST':
        return uncast([x for x in t.a if isinstance(x, T)][-1])
    return t


def p_addseq(I, st, f, vs, site):
    v = I.deref_deep(st, vs[1])
    cell = None
    st.event('addseq', v)
    return [(st, UNIT)]


def added(st):
    xs = [e[1] for e in st.ev if e[0] == 'addseq']
    return st.norm(xs[0]) if len(xs) == 1 else None


def builder(c):
    c.rule('builder', 'the sequence handed over has the symbols, range, separation and history given to the builder; range and history serve one rule only; starting a rule resets the separation')
    BL = 'builder::SequenceRuleBuilder'
    sy = lambda n: mk('SYM', n)
    pr = dict(PR.STD)
    pr['SequenceDestination::add_sequence'] = p_addseq
    g = lambda v, n: st.norm(F(v, BL, n))
    me = sy('self')
    for name, args in (('SequenceRuleBuilder::rhs_with_history', ['self', 'x', 'h']), ('SequenceRuleBuilder::rhs', ['self', 'x'])):
        s = c.summary(name, args, prims=pr)
        if not s:
            continue
        for st, ret in s.outs:
            ret = st.norm(s.I.deref_deep(st, ret))
            q = added(st)
            if q is None:
                n = len([e for e in st.ev if e[0] == 'addseq'])
                c.res(False if not st.ev or n > 1 and not any(e[0] == 'loop' for e in st.ev) else None, 'builder', name, 'one sequence per rule', '%d sequences handed over' % n)
                continue
            for n, want in (('lhs', unsome(g(me, 'lhs'))), ('rhs', sy('x')), ('separator', g(me, 'separator')),
                            ('history', sy('h') if len(args) == 3 else g(me, 'history'))):
                c.same('builder', name, st, F(q, SQ, n), want, n)
            rg = unsome(g(me, 'range'))
            for i, n in enumerate(('start', 'end')):
                c.same('builder', name, st, F(q, SQ, n), tupf(rg, i), n)
            c.same('builder', name, st, g(ret, 'range'), NONE, 'the range serves one rule')
            if len(args) == 2:
                c.same('builder', name, st, g(ret, 'history'), NONE, 'the history serves one rule')
            for n in ('lhs', 'separator', 'destination'):
                c.same('builder', name, st, g(ret, n), g(me, n), 'keeps ' + n)
    specs = [('SequenceRuleBuilder::sequence', ['self', 'x'], {'lhs': some(sy('x')), 'separator': 'Null'}, ('destination', 'history')),
             ('SequenceRuleBuilder::separator', ['self', 'x'], {'separator': sy('x')}, ('destination', 'history', 'lhs', 'range')),
             ('SequenceRuleBuilder::intersperse', ['self', 'x'], {'separator': 'Proper'}, ('destination', 'history', 'lhs', 'range')),
             ('SequenceRuleBuilder::history', ['self', 'x'], {'history': some(sy('x'))}, ('destination', 'separator', 'lhs', 'range')),
             ('SequenceRuleBuilder::inclusive', ['self', 'x', 'y'], {'range': some(mk('TUP', sy('x'), sy('y')))}, ('destination', 'separator', 'lhs', 'history')),
             ('SequenceRuleBuilder::new', ['d'], {'history': NONE, 'separator': 'Null', 'range': NONE, 'destination': sy('d')}, ())]
    for name, args, sets, keeps in specs:
        s = c.summary(name, args, prims=pr)
        if not s:
            continue
        for st, ret in s.outs:
            ret = st.norm(s.I.deref_deep(st, ret))
            for n, want in sets.items():
                got = g(ret, n)
                if want == 'Null':
                    c.same('builder', name, st, got, adt(full(SEP), kinds()['Null'], []), n)
                elif isinstance(want, str):
                    r = st.truth(isvar(got, SEP, want))
                    c.res(r, 'builder', name, n, '%s is %s' % (n, show(got)[:100]))
                    if r and want == 'Proper':
                        c.same('builder', name, st, fld(got, full(SEP), kinds()['Proper'], 0), sy('x'), 'separator')
                else:
                    c.same('builder', name, st, got, want, n)
            for n in keeps:
                c.same('builder', name, st, g(ret, n), g(me, n), 'keeps ' + n)
    # sequences
    for name, args, sets, keeps in (('cfg_sequence::Sequence::inclusive', ['self', 'x', 'y'], {'start': sy('x'), 'end': sy('y')}, ('lhs', 'rhs', 'separator', 'history')),
                                    ('cfg_sequence::Sequence::separator', ['self', 'x'], {'separator': sy('x')}, ('lhs', 'rhs', 'start', 'end', 'history'))):
        s = c.summary(name, args, prims=pr)
        if not s:
            continue
        for st, ret in s.outs:
            ret = st.norm(s.I.deref_deep(st, ret))
            for n, want in sets.items():
                c.same('builder', name, st, F(ret, SQ, n), want, n)
            for n in keeps:
                c.same('builder', name, st, F(ret, SQ, n), F(me, SQ, n), 'keeps ' + n)
    # prefix
    s = c.summary('cfg_sequence::Separator::prefix_separator', ['self'], prims=pr)
    if s:
        for st, ret in s.outs:
            ret = st.norm(s.I.deref_deep(st, ret))
            for n, want in (('Proper', 'Trailing'), ('Liberal', 'Trailing'), ('Trailing', 'Trailing'), ('Null', 'Null')):
                if st.truth(isvar(me, SEP, n)):
                    r = st.truth(isvar(ret, SEP, want))
                    c.res(r, 'builder', s.fn.n, 'separation of a prefix: ' + n, show(ret))
                    if r and n != 'Null':
                        c.same('builder', s.fn.n, st, fld(ret, full(SEP), kinds()[want], 0), fld(me, full(SEP), kinds()[n], 0), 'separator symbol')


def tupf(t, i):
    return fld(t, '(tuple)', 0, i)


def dest(c):
    c.rule('dest', 'a sequence handed to a list is stored last, handed to the rewriting destination it is rewritten; Cfg::sequence starts a rule that is rewritten into that grammar')
    seq = mk('SYM', 'seq')
    n = 0
    for im in c.p.impls:
        if not im['trait'] or not im['trait'].endswith('SequenceDestination'):
            continue
        for nm, fid in im['items']:
            f = c.p.fns.get(fid)
            if nm != 'add_sequence' or f is None:
                continue
            n += 1
            w = 'SequenceDestination::add_sequence'
            if 'Vec' in str(im['self']):
                lst = mk('SYM', 'list')

                def pre(st):
                    st.cells[('in', 'list')] = lst
                s = c.summary(f, [mk('PTR', ('in', 'list'), ()), 'seq'], pre=pre)
                if not s:
                    continue
                for st, ret in s.outs:
                    v = st.norm(st.cells[('in', 'list')])
                    if v is concat(seqof([seq]), lst):
                        c.viol('dest', w, 'a list receives the sequence', 'at the front')
                    else:
                        c.same('dest', w, st, v, concat(lst, seqof([seq])), 'a list receives the sequence')
            else:
                s = c.summary(f, ['self', 'seq'], prims=dict(PR.STD, **{'SequencesToProductions::rewrite': rec('rewrite')}))
                if not s:
                    continue
                for st, ret in s.outs:
                    ev = [e for e in st.ev if e[0] == 'rewrite']
                    if len(ev) == 1:
                        c.same('dest', w, st, ev[0][1][1], seq, 'the sequence is rewritten')
                    else:
                        c.res(None if st.ev else False, 'dest', w, 'the sequence is rewritten', '%d calls' % len(ev))
    s = c.summary('CfgSequenceExt>::sequence', ['g', 'x'])
    if s:
        for st, ret in s.outs:
            ret = st.norm(ret)
            BL = 'builder::SequenceRuleBuilder'
            d = F(ret, BL, 'destination')
            c.same('dest', s.fn.n, st, F(ret, BL, 'lhs'), some(mk('SYM', 'x')), 'symbol of the sequence')
            t = F(d, 'rewrite::SequencesToProductions', 'destination')
            c.res(True if t.op == 'PTR' and t.a[0] == ('in', 'g') and not t.a[1] else None, 'dest', s.fn.n, 'the grammar receives the rules', show(t))
            c.same('dest', s.fn.n, st, s.cell(st, 'g'), mk('SYM', 'g'), 'nothing is added before the rule is given')


PARTS = [rewrite, ranges, builder, dest]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p01', 'gen', 'next_sym'), ('p19', 'builder', '')]
