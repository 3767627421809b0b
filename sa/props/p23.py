"""LR(0) item sets and the machine made of them: on grammars of bounded shape the construction runs to
its end on symbolic symbols that are only known to be the same or not, and its result is compared with
the machine of the definition."""
import itertools
import time

from fix import *
from props.p13 import F, Unk, VAGUE, aliasings, grammar, impl_fn, prims, terms_of
from props.p16 import D, bitsof

TECHNIQUE = 'term-level symbolic execution of the LR(0) closure and machine builder on grammars of bounded shape, worklists included, and structural comparison with the machine of the definition'
NEW, CNEW, FSM, CLO, ADV = 'Lr0FsmBuilder::new', 'Lr0ClosureBuilder::new', 'Lr0FsmBuilder::make_lr0_fsm', 'Lr0ClosureBuilder::closure', 'Lr0ClosureBuilder::advance'
NODE, ITEMS, ITEM = 'lr::Lr0Node', 'lr::Lr0Items', 'lr::Lr0Item'


def world(c, rules):
    """the grammar and what is known of the operations the builder performs on it (P12, P14, P21)"""
    g = grammar(terms_of([(D(l), [D(x) for x in r]) for l, r in rules]))
    pr = prims(c)
    lhs = {l for l, r in rules}
    term = [x for x in sorted({x for l, r in rules for x in [l] + list(r)}) if x not in lhs]

    def terminals(I, st, f, vs, site):
        b = seq((mk('REP', FALSE, mk('NSYMS', F(g, 'cfg::Cfg', 'sym_source'))),))
        return [(st, adt(full('symbol_bit_set::SymbolBitSet'), 0, [bitsof(b, term)]))]

    def members(I, st, f, vs, site):
        return [(st, mk('IT', seqof([D(x) for x in term])))]

    def add(I, st, f, vs, site):
        cell, path = I.ptr_of(st, vs[0])
        e = PR.rules_path(I)
        I.writeloc(st, cell, path + (e,), concat(I.readloc(st, cell, path + (e,)), seqof([I.deref_deep(st, vs[1])])))
        return [(st, C(1))]
    pr['Cfg::terminal_symbols'] = terminals
    pr['SymbolBitSet::iter'] = members
    pr['Cfg::add_rule'] = add
    return g, pr, term


def closure(rules, items):
    items = set(items)
    work = list(items)
    while work:
        i, d = work.pop()
        r = rules[i][1]
        if d < len(r):
            for j, (l, _) in enumerate(rules):
                if l == r[d] and (j, 0) not in items:
                    items.add((j, 0))
                    work.append((j, 0))
    return frozenset(items)


def advance(rules, items, t):
    k = {(i, d + 1) for i, d in items if d < len(rules[i][1]) and rules[i][1][d] == t}
    return closure(rules, k) if k else None


def machine(rules, start, term):
    """item sets reachable through terminals from the start item"""
    al = rules + [('', [start])]
    first = closure(al, [(len(rules), 0)])
    nodes, work = {}, [first]
    while work:
        s = work.pop()
        if s in nodes:
            continue
        nodes[s] = {t: n for t in term for n in [advance(al, s, t)] if n is not None}
        work += nodes[s].values()
    return al, first, nodes


def double(s):
    return len({i for i, d in s}) < len(s)


def name(t):
    if t.op == 'DSYM':
        return t.a[0]
    raise Unk(show(t)[:200])


def items_of(st, t, al):
    """the set of items a term stands for, each as (rule, dot); None for an item that is not of its rule"""
    t = st.norm(t)
    m = ground_entries(st.norm(F(t, ITEMS, 'map')))
    if m is None:
        raise Unk(show(t)[:200])
    out = set()
    for k, v in m.items():
        v = st.norm(v)
        if not isC(k) or v.op != 'ADT':
            raise Unk(show(k)[:100])
        r, d = st.norm(F(v, ITEM, 'rhs')), st.norm(F(v, ITEM, 'dot'))
        ps = r.a if r.op == 'SEQ' else None
        if ps is None or not isC(d) or any(p.op != 'ONE' for p in ps):
            raise Unk(show(v)[:200])
        ns = [name(p.a[0]) for p in ps]
        k, d = k.a[0], d.a[0]
        if not 0 <= k < len(al) or ns != list(al[k][1]):
            return None, 'an item for rule %s has the right-hand side %s' % (k, ' '.join(ns))
        out.add((k, d))
    return frozenset(out), None


def said(al, s):
    def one(i, d):
        l, r = al[i]
        return '%s -> %s' % (l or "start'", ' '.join(list(r[:d]) + ['.'] + list(r[d:])))
    return '{%s}' % ', '.join(one(*x) for x in sorted(s))


def late(c):
    return time.time() - c.t0 > (600 if c.tier == 'thorough' else 150)


def title(rules):
    return ', '.join('%s -> %s' % (l, ' '.join(r) or 'nothing') for l, r in rules)


def shapes(tier):
    """grammars as lists of rules over names; every way the symbols of a shape may coincide"""
    sh = [[0], [1], [0, 1], [1, 1], [2], [1, 2], [0, 2]] + ([[2, 2], [1, 1, 1], [0, 1, 1]] if tier == 'thorough' else [])
    for s in sh:
        lists = [[None] * n for n in s]
        k = 0
        for i, n in enumerate(s):
            for j in range(n):
                lists[i][j] = 'v%02d' % k
                k += 1
        for rs in aliasings(lists):
            yield [(l.a[0], [x.a[0] for x in r]) for l, r in rs]
    for txt in CHOSEN:
        yield parse(txt)


CHOSEN = ['s -> x a y b, a -> , b -> a a, b -> x, b -> y', 's -> a b, a -> x, a -> , b -> y s, b -> z', 's -> x y z, s -> x y, s -> x',
          's -> x a, s -> y a, a -> z, a -> ', 's -> x a, s -> y b, a -> z, b -> z', 's -> a, a -> b x, b -> c y, c -> z, c -> a',
          's -> x y x y, s -> y x y', 's -> s x, s -> y', 'a -> x, s -> y', 's -> x a b, a -> b, b -> a, b -> y']
# the map of an item set holds one item per rule: see known_findings.json
DOUBLE = ['s -> x s, s -> y']


def parse(txt):
    return [(l.strip(), r.split()) for l, r in (x.split('->') for x in txt.split(','))]


def run(c):
    c.rule('machine', 'the first node is the closed item of the added start rule; every node leads, through exactly the terminals after a dot, to the node whose items are the closure of those advanced over the terminal; no two nodes have the same items and every node is reached')
    c.rule('entry', 'CfgClassifyExt builds both builders for the grammar it is called on')
    entry(c)
    for rules in itertools.chain(shapes(c.tier), map(parse, DOUBLE)):
        syms = sorted({l for l, r in rules})
        for start in syms if len(syms) < 3 else ['s']:
            one(c, rules, start)
    for txt in CHOSEN[:4]:
        rules = parse(txt)
        for start in sorted({l for l, r in rules}):
            one(c, rules, start, again='s')


def entry(c):
    for m, n in (('lr0_fsm_builder', NEW), ('lr0_closure_builder', CNEW)):
        f = impl_fn(c, 'CfgClassifyExt::' + m, 'Cfg')
        if f is None:
            continue
        s, t = c.summary(f, ['g'], prims=prims(c)), c.summary(n, ['g'], prims=prims(c))
        if s and t and len(s.outs) == 1 and len(t.outs) == 1:
            a, b = [x.outs[0][0].norm(x.I.deref_deep(x.outs[0][0], x.outs[0][1])) for x in (s, t)]
            c.same('entry', 'CfgClassifyExt::' + m, s.outs[0][0], a, b, 'the builder of another grammar')


def sets(c):
    """the two steps themselves, which are public too"""
    c.rule('closure', 'closure() adds, for every nonterminal after a dot, every rule of it with the dot in front, and nothing else')
    c.rule('advance', 'advance() moves the dot of exactly the items with the symbol after it and closes the result; none when there is no such item')
    for rules in shapes(c.tier):
        if late(c):
            c.inc('closure', CLO, title(rules), 'not analysed: the time for this check is used up')
            return
        g, pr, term = world(c, rules)
        s = c.summary(CNEW, [g], prims=pr)
        if s is None or len(s.outs) != 1:
            c.inc('closure', CNEW, title(rules), 'no summary')
            continue
        st, b = s.outs[0]
        b = st.norm(s.I.deref_deep(st, b))
        kernels = [[(i, d)] for i, (l, r) in enumerate(rules) for d in range(len(r) + 1)]
        if len(rules) > 1:
            kernels += [[(0, d), (1, e)] for d in range(len(rules[0][1]) + 1) for e in range(len(rules[1][1]) + 1)]
        seen = set()
        for k in kernels:
            w = closure(rules, k)
            if double(w):
                continue
            tag = '%s: closure of %s' % (title(rules), said(rules, k))
            step(c, 'closure', CLO, tag, pr, rules, b, k, None, w)
            if w in seen:
                continue
            seen.add(w)
            for x in sorted({x for l, r in rules for x in r}):
                a = advance(rules, w, x)
                if a is None or not double(a):
                    step(c, 'advance', ADV, '%s: %s advanced over %s' % (title(rules), said(rules, w), x), pr, rules, b, w, x, a)


def item_term(rules, items):
    m = mk('MAP0')
    for i, d in sorted(items):
        m = mk('MINS', m, C(i), adt(full(ITEM), 0, [seqof([D(x) for x in rules[i][1]]), C(d)]))
    return adt(full(ITEMS), 0, [m])


def step(c, rule, fn, tag, pr, rules, b, k, x, want):
    its = item_term(rules, k)
    s = c.summary(fn, [b, 'its'] if x is None else [b, its, D(x)], prims=pr, decided=True, lits={'its': its})
    if s is None or len(s.outs) != 1:
        c.inc(rule, fn, tag, 'no summary' if s is None else '%d results' % len(s.outs))
        return
    st, r = s.outs[0]
    try:
        if x is None:
            v = st.norm(s.I.deref_deep(st, s.cell(st, 'its')))
        else:
            v = st.norm(s.I.deref_deep(st, r))
            if v is NONE or want is None:
                c.res(v is NONE and want is None if v.op == 'ADT' else None, rule, fn, tag, '%s: %s instead of %s' % (tag, 'nothing' if v is NONE else 'an item set', 'nothing' if want is None else said(rules, want)))
                return
            if v.op != 'ADT':
                raise Unk(show(v)[:200])
            v = v.a[2][0]
        got, bad = items_of(st, v, rules)
        c.res(got == want, rule, fn, tag, '%s: %s instead of %s' % (tag, bad or said(rules, got), said(rules, want)))
    except (Unk, KeyError, Missing) as e:
        c.inc(rule, fn, tag, str(e)[:300])


def one(c, rules, start, again=None):
    """again: the machine is built a second time with the same builder, from another symbol"""
    rule = 'machine'
    if late(c):
        c.inc(rule, FSM, title(rules), 'not analysed: the time for this check is used up')
        return
    g, pr, term = world(c, rules)
    al, first, nodes = machine(rules, start, term)
    if any(double(s) for s in nodes) and title(rules) not in DOUBLE:
        return
    tag = '%s from %s' % (title(rules), start)
    s = c.summary(NEW, ['g'], prims=pr, lits={'g': g})
    if s is None or len(s.outs) != 1:
        c.inc(rule, NEW, tag, 'no summary')
        return
    st, b = s.outs[0]
    cells = {k: v for k, v in st.cells.items() if k[0] == 'in'}
    steps = [(start, al, first, nodes)]
    if again:
        al, first, nodes = machine(al, again, term)
        if any(double(s) for s in nodes):
            return
        steps.append((again, al, first, nodes))
    for k, (start, al, first, nodes) in enumerate(steps):
        if k:
            tag += ', then from %s' % start
        t = c.summary(FSM, ['b', D(start)], prims=pr, decided=True, lits={'b': b}, pre=lambda st: st.cells.update(cells))
        if t is None or len(t.outs) != 1:
            c.inc(rule, FSM, tag, 'no summary' if t is None else '%d results' % len(t.outs))
            return
        st, r = t.outs[0]
        try:
            compare(c, rule, FSM, tag, st, st.norm(t.I.deref_deep(st, r)), al, first, nodes, term)
        except (Unk, KeyError, Missing) as e:
            c.inc(rule, FSM, tag, str(e)[:300])
        cells, b = {k: v for k, v in st.cells.items() if k[0] == 'in'}, t.cell(st, 'b')


def compare(c, rule, fn, tag, st, r, al, first, nodes, term):
    if r.op != 'SEQ' or any(p.op != 'ONE' for p in r.a):
        raise Unk(show(r)[:200])
    got = []
    for p in r.a:
        nd = st.norm(p.a[0])
        its, bad = items_of(st, F(nd, NODE, 'items'), al)
        if its is None:
            c.viol(rule, fn, tag, '%s: %s' % (tag, bad))
            return
        m = ground_entries(st.norm(F(nd, NODE, 'link')))
        if m is None or any(not isC(st.norm(v)) for v in m.values()):
            raise Unk(show(nd)[:200])
        got.append((its, {name(k): st.norm(v).a[0] for k, v in m.items()}))
    why = None
    sets = [i for i, l in got]
    if not got:
        why = 'the machine has no node'
    elif sets[0] != first:
        why = 'the first node is %s instead of %s' % (said(al, sets[0]), said(al, first))
    elif len(set(sets)) < len(sets):
        why = '%s is the item set of two nodes' % said(al, next(i for i in sets if sets.count(i) > 1))
    else:
        for i, (s, l) in enumerate(got):
            if s not in nodes:
                why = 'node %d is %s, which is no item set of the machine' % (i, said(al, s))
                break
            if set(l) != set(nodes[s]):
                why = 'node %s has transitions through %s instead of %s' % (said(al, s), sorted(l), sorted(nodes[s]))
                break
            w = next((t for t in sorted(l) if not 0 <= l[t] < len(sets) or sets[l[t]] != nodes[s][t]), None)
            if w is not None:
                to = said(al, sets[l[w]]) if 0 <= l[w] < len(sets) else 'node %d of %d' % (l[w], len(sets))
                why = 'from %s, %s leads to %s instead of %s' % (said(al, s), w, to, said(al, nodes[s][w]))
                break
        else:
            if len(got) != len(nodes):
                why = '%d nodes instead of %d' % (len(got), len(nodes))
    if any(double(s) for s in nodes):
        # identified by what goes wrong as well: anything else that does is reported
        c.res(why is None, rule, fn, '%s: %s' % (tag, why), '%s: %s' % (tag, why))
        return
    c.res(why is None, rule, fn, tag, '%s: %s' % (tag, why))


PARTS = [run, sets]
