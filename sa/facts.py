"""Loads the type-checked program written by the driver."""
import json, glob, os
import terms


def tupled(x):
    if isinstance(x, list):
        return tuple(tupled(y) for y in x)
    if isinstance(x, dict):
        return x if False else {k: tupled(v) for k, v in x.items()}
    return x


def fz(x):
    """fully hashable types (fn refs inside fndef types become name tuples)"""
    if isinstance(x, (list, tuple)):
        return tuple(fz(y) for y in x)
    if isinstance(x, dict):
        return ('fnref', x.get('id'), x.get('n'), fz(x.get('args', ())), x.get('trait'), x.get('m'),
                fz(x['res']) if x.get('res') else None)
    return x


class Fn(object):
    def __init__(self, d, crate):
        self.id = d['id']
        self.n = d['n']
        self.g = d['g']
        self.file = d['file']
        self.line = d['line']
        self.pub = d['pub']
        self.derived = d['derived']
        self.const = d['const']
        self.kind = d['kind']
        self.body = d['body']
        self.prom = d['prom']
        self.crate = crate
        self._loops = None

    def __repr__(self):
        return 'Fn(%s)' % self.n


class Program(object):
    def __init__(self, d):
        self.fns = {}
        self.byname = {}
        self.impls = []
        self.adts = {}
        self.crates = []
        for f in sorted(glob.glob(os.path.join(d, '*.json'))):
            j = json.load(open(f))
            self.crates.append(j['crate'])
            for x in j['fns']:
                fn = Fn(x, j['crate'])
                self.fns[fn.id] = fn
                self.byname.setdefault(fn.n, []).append(fn)
            for i in j['impls']:
                i['self'] = fz(i['self'])
                i['targs'] = fz(i['targs'])
                i['crate'] = j['crate']
                self.impls.append(i)
            for p, a in j['adts'].items():
                old = self.adts.get(p)
                # prefer the defining crate (has field types)
                if old is None or (p.split('::')[0] == j['crate']):
                    for v in a['v']:
                        for fl in v['f']:
                            fl[1] = fz(fl[1]) if fl[1] is not None else None
                    self.adts[p] = a
        terms.ADTS.clear()
        terms.ADTS.update(self.adts)
        self.impl_ix = {}
        for i in self.impls:
            self.impl_ix.setdefault(i['trait'], []).append(i)

    def fn(self, name):
        """unique fn by pretty name or by suffix"""
        l = self.byname.get(name)
        if l and len(l) == 1:
            return l[0]
        if l:
            return l[0]
        c = [f for n, fs in self.byname.items() if n.endswith('::' + name) for f in fs if f.kind != 'Closure']
        if len(c) == 1:
            return c[0]
        return None


def match_ty(pat, t, env):
    """one-way unification of an impl type with a concrete type"""
    if pat[0] == 'param':
        if pat[1] in env:
            return env[pat[1]] == t or True
        env[pat[1]] = t
        return True
    if pat[0] != t[0]:
        return False
    if pat[0] == 'adt':
        if pat[1] != t[1]:
            return False
        return all(match_ty(a, b, env) for a, b in zip(pat[2], t[2]) if a and b and a[0] != 'const' and b[0] != 'const')
    if pat[0] == 'prim':
        return pat[1] == t[1]
    if pat[0] == 'ref':
        return pat[1] == t[1] and match_ty(pat[2], t[2], env)
    if pat[0] in ('slice',):
        return match_ty(pat[1], t[1], env)
    if pat[0] == 'array':
        return match_ty(pat[1], t[1], env)
    if pat[0] == 'tuple':
        return len(pat[1]) == len(t[1]) and all(match_ty(a, b, env) for a, b in zip(pat[1], t[1]))
    return pat == t


def sub_ty(t, env):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'param':
        return env.get(t[1], t)
    if t[0] == 'const':
        return env.get(t[1], t)
    if t[0] == 'array':
        n = t[2]
        if n in env and env[n][0] == 'const':
            n = env[n][1]
        return ('array', sub_ty(t[1], env), n)
    return tuple(sub_ty(x, env) if isinstance(x, tuple) else x for x in t)


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] >= 0 else []
    if k == 'assert':
        return [t[3]]
    return []


def loops_of(body):
    """natural loops: header -> set of blocks"""
    bl = body['blocks']
    n = len(bl)
    sc = [succs(b['t']) for b in bl]
    # reachable, postorder
    order = []
    seen = set()
    stack = [(0, iter(sc[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(sc[s])))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in sc[b]:
            preds[s].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in sc[b]:
            if dom(s, b):
                L = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in L:
                        L.add(x)
                        work.extend(preds[x])
    return loops
