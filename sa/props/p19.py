"""The rule builder adds exactly the rules it is told to."""
import itertools
from fw import *
from props import p07, p10

TECHNIQUE = ('abstract interpretation of MIR: every sequence of builder calls up to a bounded length is run symbolically and the rules handed to the grammar are compared '
             'with the state machine the documentation describes')

RB = 'rule_builder::RuleBuilder'
OPS = ('rule', 'history', 'rhs', 'rhs_with_history', 'rhs_with_linked_history')


def roothist(c, lhs):
    """the history of a rule of lhs that nothing has happened to yet"""
    fs = [i for i in c.p.impls if i['trait'] == 'core::convert::From' and i['self'] == ('adt', full('earley::History'), ()) and i['targs'][1] == ('adt', full('RootHistoryNode'), ())]
    if len(fs) != 1:
        raise Missing('From<RootHistoryNode> for History')
    rn = full('RootHistoryNode')
    i = [x['n'] for x in ADTS[rn]['v']].index('Rule')
    s = c.summary(c.p.fns[dict(fs[0]['items'])['from']], [adt(rn, i, [lhs])], rule='builder')
    return s.outs[0][0].norm(s.outs[0][1]) if s and len(s.outs) == 1 else None


def run(c, I, f, st, b, args, k):
    out = []
    for s, r in I.call_fn(f, [b] + args, {}, st, ('op', k)):
        out.append((s, s.norm(r)))
    return out


def rules_of(st):
    return [st.norm(e[1]) for e in st.ev if e[0] == 'add_rule']


def builder(c):
    c.rule('builder', 'every right-hand side call adds one rule: the left-hand side last named, the symbols given in order, the history given, or the pending one, or the default of the rule; a pending history serves one rule')
    big = c.tier == 'thorough'
    n = 4 if big else 3
    pr = p10.prims(c)
    fs = {o: c.fn(RB + '::' + o) for o in OPS}
    start = {'Cfg::rule': c.fn('Cfg::rule')}
    for ops in itertools.chain(*(itertools.product(OPS, repeat=k) for k in range(1, n + 1))):
        if not ops[-1].startswith('rhs') or unspecified(ops):
            continue
        l0 = mk('SYM', 'lhs')
        s = c.summary('Cfg::rule', ['self', l0], prims=pr, rule='builder')
        if not s:
            return
        cur = [(st, st.norm(r)) for st, r in s.outs]
        lhs, pend, want = l0, None, []
        tag = 'rule, ' + ', '.join(ops)
        for k, o in enumerate(ops):
            a = lambda x: mk('SYM', '%s%d' % (x, k))
            r, h, nd = a('rhs'), a('history'), a('node')
            args = {'rule': [a('lhs')], 'history': [h], 'rhs': [r], 'rhs_with_history': [r, h], 'rhs_with_linked_history': [r, nd]}[o]
            if o == 'rule':
                lhs, pend = a('lhs'), None
            elif o == 'history':
                pend = h
            elif o == 'rhs':
                want.append((lhs, r, pend if pend is not None else ('root', lhs)))
                pend = None
            elif o == 'rhs_with_history':
                want.append((lhs, r, h))
            else:
                want.append((lhs, r, ('linked', nd, lhs)))
            try:
                cur = [x for st, b in cur for x in run(c, s.I, fs[o], st, b, args, k)]
            except Imprecise as e:
                c.inc('builder', fs[o].n, tag, str(e)[:100])
                cur = []
        compare(c, fs[ops[-1]].n, cur, want, tag)


def compare(c, w, cur, want, tag):
    for st, b in cur:
        got = rules_of(st)
        c.res(len(got) == len(want), 'builder', w, tag + ': one rule for every right-hand side', '%d rules for %d right-hand sides' % (len(got), len(want)))
        for g, (l, r, h) in zip(got, want):
            g0 = F(g, 'CfgRule', 'lhs')
            c.same('builder', w, st, g0, l, tag + ': the rule has the left-hand side last named')
            c.same('builder', w, st, F(g, 'CfgRule', 'rhs'), r, tag + ': the rule has the symbols given')
            if isinstance(h, tuple):
                rt = roothist(c, h[-1])
                if rt is None:
                    c.inc('builder', w, tag, 'default history')
                    continue
                if h[0] == 'linked':
                    gh = st.norm(F(g, 'CfgRule', 'history'))
                    what = tag + ': a linked update is applied to the history of a new rule'
                    if gh.op == 'HISTL':
                        c.same('builder', w, st, gh.a[0], h[1], what)
                        c.same('builder', w, st, gh.a[1], rt, what)
                    else:
                        c.res(False if precise(gh) and not any(x is h[1] for x in subterms(gh)) else None, 'builder', w, what, show(gh)[:200])
                    continue
                h = rt
            c.same('builder', w, st, F(g, 'CfgRule', 'history'), h, tag + ': the rule has the history given, pending or default')


def unspecified(ops):
    """whether a history given outright also uses up the pending one is left open"""
    pend = open_ = False
    for o in ops:
        if o == 'rhs' and open_:
            return True
        if o in ('rule', 'rhs'):
            pend = open_ = False
        elif o == 'history':
            pend, open_ = True, False
        elif pend:
            open_ = True
    return False


def unnamed(c):
    """a builder that has not been told a left-hand side adds nothing"""
    f = c.fn(RB + '::new')
    s = c.summary(f, ['self'], prims=p10.prims(c), rule='builder')
    if s:
        for st, r in s.outs:
            c.res(not rules_of(st), 'builder', f.n, 'a new builder adds no rule')
    for a in ('Cfg::rule', 'Cfg::precedenced_rule'):
        s = c.summary(a, ['self', 'lhs'], prims=p10.prims(c), rule='builder')
        if not s:
            continue
        for st, r in s.outs:
            c.res(not rules_of(st), 'builder', c.fn(a).n, 'starting a rule adds none')
            g = st.norm(s.cell(st, 'self'))
            for n in ('rules', 'roots', 'wrapped_roots'):
                c.same('builder', c.fn(a).n, st, F(g, 'cfg::Cfg', n), F(mk('SYM', 'self'), 'cfg::Cfg', n), 'starting a rule leaves rules and roots as they are')


PARTS = [builder, unnamed]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p06', 'roots', ''), ('p06', 'nodes', ''), ('p05', 'split', '')]
