"""Decides inequality of two summary terms: both are exact images of the same inputs on one path, so a single
instance of the input variables that satisfies the path condition and gives the two terms different values refutes
their equality.  Instances are small and drawn from the declared types of the inputs; a term with any operator whose
meaning is not defined here is never refuted."""
import random
import time
from terms import *

SEQTY = ('alloc::vec::Vec', 'smallvec::SmallVec', 'alloc::boxed::Box', 'alloc::collections::vec_deque::VecDeque', 'alloc::rcs::rc::Rc', 'alloc::rc::Rc')
BITTY = ('bit_vec::BitVec',)


class Unev(Exception):
    pass


class Lz(object):
    __slots__ = ('ty', 'v', 'kids')

    def __init__(self, ty=None):
        self.ty, self.v, self.kids = ty, None, {}


class Ev(object):
    def __init__(self, types, rnd):
        self.types, self.r = types, rnd
        self.roots, self.env, self.app, self.memo = {}, {}, {}, {}
        self.steps = 0

    # ---------------------------------------------------------- lazy inputs
    def strip(self, ty):
        while ty is not None and ty[0] == 'ref':
            ty = ty[-1]
        return ty

    def lz(self, ty):
        return Lz(self.strip(ty))

    def force(self, x):
        """value of known outer shape, by declared type; unchanged when the type is unknown"""
        if not isinstance(x, Lz):
            return x
        if x.v is not None:
            return x.v
        ty = x.ty
        if ty is None or ty[0] in ('param', 'alias', 'closure', 'other', 'dyn', 'proj'):
            return x
        if ty[0] == 'adt':
            n = ty[1]
            if n.startswith('core::num::nonzero'):
                x.v = self.r.randint(1, 4)
            elif n == 'alloc::boxed::Box' and len(ty) > 2 and ty[2] and ty[2][0][0] not in ('slice', 'str'):
                x.ty = self.strip(ty[2][0])
                return self.force(x)
            elif n in SEQTY:
                a = ty[2][0] if len(ty) > 2 and ty[2] else None
                if a is not None and a[0] in ('slice', 'array'):
                    a = a[1]
                self.mkseq(x, a)
            elif n in BITTY:
                self.mkseq(x, ('prim', 'bool'))
            elif n in ADTS and ADTS[n]['v'] and not any(k in n for k in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet', 'RefCell', 'Cow', 'String')):
                self.mkadt(x, n)
            else:
                raise Unev(n)
            return x.v
        if ty[0] in ('slice', 'array'):
            self.mkseq(x, ty[1])
            return x.v
        if ty[0] == 'tuple':
            x.v = ('T', tuple(self.lz(t) for t in ty[1]))
            return x.v
        nm = ty[1] if len(ty) > 1 and isinstance(ty[1], str) else ty[0]
        if nm in ('bool',):
            x.v = self.r.randint(0, 1)
        elif nm in ('usize', 'u8', 'u16', 'u32', 'u64', 'isize', 'i32', 'i64', 'char'):
            x.v = self.r.randint(0, 4)
        else:
            raise Unev(str(ty))
        return x.v

    def mkseq(self, x, ety):
        x.v = ('Q', tuple(self.lz(ety) for _ in range(self.r.choice((0, 1, 2, 2, 3)))))

    def mkadt(self, x, n, var=None):
        vs = ADTS[n]['v']
        if var is None:
            var = self.r.randrange(len(vs))
        g = dict(zip(ADTS[n].get('g') or (), x.ty[2] if x.ty and x.ty[0] == 'adt' and len(x.ty) > 2 else ()))
        x.v = ('A', n, var, tuple(self.lz(self.sub(f[1], g)) for f in vs[var]['f']))

    def sub(self, ty, g):
        if not isinstance(ty, tuple):
            return ty
        if len(ty) == 2 and ty[0] == 'param':
            return g.get(ty[1])
        return tuple(self.sub(t, g) if isinstance(t, tuple) else t for t in ty)

    def asint(self, x, boolean=False):
        x = self.force(x)
        if isinstance(x, Lz):
            x.v = self.r.randint(0, 1 if boolean else 3)
            x = x.v
        if not isinstance(x, int):
            raise Unev('int')
        return x

    def asseq(self, x):
        x = self.force(x)
        if isinstance(x, Lz):
            self.mkseq(x, None)
            x = x.v
        if not (isinstance(x, tuple) and x[0] == 'Q'):
            raise Unev('seq')
        return x[1]

    def asadt(self, x, n):
        x = self.force(x)
        if isinstance(x, Lz):
            if n == '(tuple)' or n not in ADTS:
                raise Unev(n)
            self.mkadt(x, n)
            x = x.v
        if n == '(tuple)':
            if x[0] != 'T':
                raise Unev('tuple')
            return x
        if not (isinstance(x, tuple) and x[0] == 'A' and x[1] == n):
            raise Unev('adt')
        return x

    # ---------------------------------------------------------- equality
    def same(self, a, b):
        if a is b:
            return True
        a, b = self.force(a), self.force(b)
        if a is b:
            return True
        la, lb = isinstance(a, Lz), isinstance(b, Lz)
        if la and lb:
            a.v, b.v = 'tok%d' % self.r.randint(0, 2), 'tok%d' % self.r.randint(0, 2)
            return a.v == b.v
        if la or lb:
            x, y = (a, b) if la else (b, a)
            if isinstance(y, int):
                self.asint(x)
            elif isinstance(y, str):
                x.v = 'tok%d' % self.r.randint(0, 2)
            elif y[0] == 'Q':
                self.asseq(x)
            elif y[0] == 'A':
                self.asadt(x, y[1])
            else:
                x.v = ('T', tuple(Lz() for _ in y[1]))
            return self.same(x.v, y)
        if isinstance(a, (int, str)) or isinstance(b, (int, str)):
            if type(a) is not type(b):
                raise Unev('kinds')
            return a == b
        if a[0] != b[0]:
            raise Unev('kinds')
        if a[0] == 'A':
            if a[1] != b[1]:
                raise Unev('kinds')
            if a[2] != b[2]:
                return False
            return all([self.same(x, y) for x, y in zip(a[3], b[3])])
        if len(a[1]) != len(b[1]):
            return False
        return all([self.same(x, y) for x, y in zip(a[1], b[1])])

    def key(self, x):
        x = self.force(x)
        if isinstance(x, Lz):
            x.v = 'tok%d' % self.r.randint(0, 2)
            return x.v
        if isinstance(x, (int, str)):
            return x
        if x[0] == 'A':
            return x[:3] + tuple(self.key(y) for y in x[3])
        return (x[0],) + tuple(self.key(y) for y in x[1])

    # ---------------------------------------------------------- terms
    def cond(self, a, p):
        return bool(self.asint(self.ev(a), True)) == p

    def conds(self, cs):
        return all([self.cond(a, p) for a, p in cs])

    def bind(self, L, src):
        """position of a free loop variable in its source"""
        if L not in self.env:
            n = len(self.asseq(self.ev(src))) if src is not None else 3
            if not n:
                raise Unev('empty')
            self.env[L] = self.r.randrange(n)
        return self.env[L]

    def items(self, ps):
        out = []
        for p in ps:
            o = p.op
            if o == 'ONE':
                out.append(self.ev(p.a[0]))
            elif o == 'ALL':
                out.extend(self.asseq(self.ev(p.a[0])))
            elif o == 'SUB':
                s = self.asseq(self.ev(p.a[0]))
                lo, hi = self.asint(self.ev(p.a[1])), self.asint(self.ev(p.a[2]))
                if not 0 <= lo <= hi <= len(s):
                    raise Unev('range')
                out.extend(s[lo:hi])
            elif o == 'REP':
                n = self.asint(self.ev(p.a[1]))
                if not 0 <= n <= 20:
                    raise Unev('rep')
                out.extend([self.ev(p.a[0])] * n)
            elif o == 'RNG':
                lo, hi = self.asint(self.ev(p.a[0])), self.asint(self.ev(p.a[1]))
                if hi - lo > 20:
                    raise Unev('rng')
                out.extend(range(lo, hi))
            elif o == 'COMP':
                L, src, cases = p.a
                for i, its in self.loop(L, src, cases):
                    out.extend(self.items(its))
            else:
                raise Unev(o)
        return out

    def loop(self, L, src, cases):
        n = len(self.asseq(self.ev(src)))
        old = self.env.get(L)
        m = self.memo
        for i in range(n):
            self.env[L] = i
            self.memo = {}
            hit = [x for c, x in cases if self.conds(c)]
            if len(hit) != 1:
                raise Unev('cases')
            yield i, hit[0]
        self.memo = m
        if old is None:
            self.env.pop(L, None)
        else:
            self.env[L] = old

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            self.steps += 1
            if self.steps > 4000:
                raise Unev('steps')
            r = self.ev1(t)
            self.memo[t] = r
        return r

    def ev1(self, t):
        o, a = t.op, t.a
        if o == 'C':
            return a[0]
        if o == 'S':
            return 's:' + a[0]
        if o == 'SYM':
            if t not in self.roots:
                self.roots[t] = self.lz(self.types.get(a[0]))
            return self.roots[t]
        if o == 'ADT':
            return ('A', a[0], a[1], tuple(self.ev(x) for x in a[2]))
        if o == 'TUP':
            return ('T', tuple(self.ev(x) for x in a))
        if o == 'FLD':
            v = self.ev(a[0])
            if a[1] == '(closure)':
                raise Unev('closure')
            v = self.asadt(v, a[1])
            if a[1] != '(tuple)' and v[2] != a[2]:
                raise Unev('variant')
            return v[-1][a[3]]
        if o == 'VAR':
            v = self.asadt(self.ev(a[0]), a[1])
            return int(v[2] == a[2])
        if o == 'LIN':
            return a[0] + sum(k * self.asint(self.ev(x)) for x, k in a[1])
        if o == 'MUL':
            return self.asint(self.ev(a[0])) * self.asint(self.ev(a[1]))
        if o == 'SATSUB':
            return max(0, self.asint(self.ev(a[0])) - self.asint(self.ev(a[1])))
        if o in ('MIN', 'MAX') and len(a) == 2:
            return (min if o == 'MIN' else max)(self.asint(self.ev(a[0])), self.asint(self.ev(a[1])))
        if o == 'BIN' and a[0] in ('BitAnd', 'BitOr', 'BitXor', 'Shr', 'Div', 'Rem'):
            x, y = self.asint(self.ev(a[1])), self.asint(self.ev(a[2]))
            if x < 0 or y < 0 or (a[0] == 'Shr' and y > 31) or (a[0] in ('Div', 'Rem') and not y):
                raise Unev('bin')
            return {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}.get(a[0]) if a[0].startswith('Bit') else x >> y if a[0] == 'Shr' else x // y if a[0] == 'Div' else x % y
        if o == 'CAST':
            return self.asint(self.ev(a[1])) & ((1 << {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}[a[0]]) - 1)
        if o == 'LT0':
            return int(self.asint(self.ev(a[0])) < 0)
        if o == 'EQ0':
            return int(self.asint(self.ev(a[0])) == 0)
        if o == 'NOT':
            return int(not self.asint(self.ev(a[0]), True))
        if o == 'AND':
            return int(bool(self.asint(self.ev(a[0]), True)) and bool(self.asint(self.ev(a[1]), True)))
        if o == 'EQ':
            return int(self.same(self.ev(a[0]), self.ev(a[1])))
        if o == 'CMP':
            x, y = self.asint(self.ev(a[0])), self.asint(self.ev(a[1]))
            return ('A', ORDERING, 0 if x < y else 1 if x == y else 2, ())
        if o == 'LEN':
            return len(self.asseq(self.ev(a[0])))
        if o == 'SEQ':
            return ('Q', tuple(self.items(a)))
        if o == 'REV':
            return ('Q', tuple(reversed(self.asseq(self.ev(a[0])))))
        if o == 'ZIP':
            ss = [self.asseq(self.ev(x)) for x in a]
            return ('Q', tuple(('T', x) for x in zip(*ss)))
        if o == 'DEDUP' and a[1] is UNIT:
            out = []
            for x in self.asseq(self.ev(a[0])):
                if not out or not self.same(out[-1], x):
                    out.append(x)
            return ('Q', tuple(out))
        if o == 'SORT':
            s = list(self.asseq(self.ev(a[0])))
            k = ('SORT', a[1], self.key(('Q', tuple(s))))
            if k not in self.app:
                pm = list(range(len(s)))
                if a[1].op == 'CLO' and not mentions(a[1], ('SYM',)):
                    raise Unev('order')
                if a[1] is UNIT:
                    s.sort(key=lambda x: self.asint(x))
                else:
                    self.r.shuffle(pm)
                self.app[k] = pm
            return ('Q', tuple(s[i] for i in self.app[k]))
        if o == 'AT':
            s, i = self.asseq(self.ev(a[0])), self.asint(self.ev(a[1]))
            if not 0 <= i < len(s):
                raise Unev('index')
            return s[i]
        if o == 'STORE':
            s, i = list(self.asseq(self.ev(a[0]))), self.asint(self.ev(a[1]))
            if not 0 <= i < len(s):
                raise Unev('index')
            s[i] = self.ev(a[2])
            return ('Q', tuple(s))
        if o == 'LUPD':
            L, base, src, cases = a
            cur = list(self.asseq(self.ev(base)))
            for i, ups in self.loop(L, src, cases):
                for u in ups:
                    if u[0] != 'STORE':
                        raise Unev(u[0])
                    k = self.asint(self.ev(u[1]))
                    if not 0 <= k < len(cur):
                        raise Unev('index')
                    cur[k] = self.ev(u[2])
            return ('Q', tuple(cur))
        if o == 'LASTOF':
            L, src, init, cases = a
            cur = self.ev(init)
            for i, v in self.loop(L, src, cases):
                cur = self.ev(v)
            return cur
        if o == 'ELEM':
            i = self.bind(a[0], a[1])
            s = self.asseq(self.ev(a[1]))
            if i >= len(s):
                raise Unev('elem')
            return s[i]
        if o == 'IDX':
            if a[0] not in self.env:
                raise Unev('idx')
            return self.env[a[0]]
        if o == 'QALL':
            src, dnf = a
            n = len(self.asseq(self.ev(src)))
            old, m, r = self.env.get('•'), self.memo, 1
            for i in range(n):
                self.env['•'] = i
                self.memo = {}
                if not any([self.conds(c) for c in dnf]):
                    r = 0
            self.memo = m
            if old is None:
                self.env.pop('•', None)
            else:
                self.env['•'] = old
            return r
        if o == 'GSYM' and a[0] == 'sym':
            return ('A', SYMP(), 0, (self.asint(self.ev(a[1])) + 1,))
        if o == 'USZ':
            v = self.asadt(self.ev(a[0]), SYMP())
            return self.asint(v[3][0]) - 1
        if o in ('APP', 'NSYMS') and (o == 'NSYMS' or a[0].op == 'SYM'):
            if o == 'NSYMS':
                k = (o, a)
            else:
                k = (o, a[0]) + tuple(self.key(self.ev(x)) for x in a[1:])
            if k not in self.app:
                self.app[k] = Lz() if o == 'APP' else self.r.randint(1, 4)
            return self.app[k]
        raise Unev(o)


def SYMP():
    for p in ADTS:
        if p.endswith('symbol::Symbol'):
            return p
    raise Unev('Symbol')


def differ(conds, a, b, types, tries=400, limit=0.6):
    """an instance that satisfies the conditions and separates a from b (as text), else None"""
    t0 = time.time()
    rnd = random.Random(7)
    valid = 0
    for _ in range(tries):
        if time.time() - t0 > limit:
            return None
        e = Ev(types, rnd)
        try:
            if not e.conds(conds):
                continue
            x, y = e.ev(a), e.ev(b)
            valid += 1
            if not e.same(x, y):
                # conditions once more: values are settled now
                e.memo = {}
                if e.conds(conds):
                    return 'got %s, expected %s' % (txt(e, x), txt(e, y))
            elif valid > 120:
                return None
        except (Unev, RecursionError, IndexError, KeyError, TypeError):
            continue
    return None


def txt(e, v):
    if isinstance(v, Lz):
        return txt(e, v.v) if v.v is not None else '?'
    if isinstance(v, (int, str)):
        return str(v)
    if v[0] == 'A':
        n = v[1].split('::')[-1] if len(ADTS.get(v[1], {'v': [0]})['v']) == 1 else ADTS[v[1]]['v'][v[2]]['n']
        return n + ('(' + ', '.join(txt(e, x) for x in v[3]) + ')' if v[3] else '')
    return ('[%s]' if v[0] == 'Q' else '(%s)') % ', '.join(txt(e, x) for x in v[1])
