"""Elimination of nulling rules."""
from fix import *
import models
from props.p12 import cf, leaves

TECHNIQUE = ('abstract interpretation of MIR: the rules added, moved and kept are extracted from the loop summaries as a decision table over the length of a binarized rule and the '
             'nullability of its symbols, and compared with the definition')

CFG = 'cfg_grammar::cfg::Cfg'


def fi(n):
    return next(i for i, x in enumerate(ADTS[CFG]['v'][0]['f']) if x[0] == n)


def cell_of(I, st, v, n):
    cell, path = I.ptr_of(st, v)
    return cell, path + (('f', CFG, 0, fi(n), False),)


def p_limit(I, st, f, vs, site):
    cell, path = cell_of(I, st, vs[0], 'rules')
    l = I.deref_deep(st, vs[1])
    I.writeloc(st, cell, path, mk('LIM', I.readloc(st, cell, path), l))
    cell, path = cell_of(I, st, vs[0], 'sym_source')
    I.writeloc(st, cell, path, mk('SRCLIM', I.readloc(st, cell, path), l))
    cell, path = cell_of(I, st, vs[0], 'rhs_len_invariant')
    I.writeloc(st, cell, path, l)
    return [(st, UNIT)]


def forms(st, rule):
    """the rules a term may stand for"""
    if rule.op == 'ELEM' and rule.a[1].op == 'SEQ':
        ps = rule.a[1].a
        out = []
        for p in ps:
            if p.op == 'COMP' and all(x.op == 'ONE' for _, it in p.a[2] for x in it):
                out += [x.a[0] for _, it in p.a[2] for x in it]
            elif p.op == 'ONE':
                out.append(p.a[0])
            else:
                return [rule]
        return out
    return [rule]


def p_add(I, st, f, vs, site):
    """a rule that fits the limit is stored as it is (decided by the property on the limit)"""
    lim = st.norm(I.readloc(st, *cell_of(I, st, vs[0], 'rhs_len_invariant')))
    rule = I.deref_deep(st, vs[1])
    fits = lim is NONE or (lim.op == 'ADT' and lim.a[1] == 1 and all(st.truth(lt(lim.a[2][0], length(st.norm(R(r, 'rhs'))))) is False for r in forms(st, rule)))
    en = st.norm(I.readloc(st, *cell_of(I, st, vs[0], 'eliminate_nulling')))
    if not fits or not (isC(en) and not en.a[0] or all(st.truth(eq(length(st.norm(R(r, 'rhs'))), C(0))) is False for r in forms(st, rule))):
        return PR.p_add_rule(I, st, f, vs, site)
    cell, path = cell_of(I, st, vs[0], 'rules')
    I.writeloc(st, cell, path, concat(I.readloc(st, cell, path), seqof([rule])))
    return [(st, C(1))]


def p_sub(I, st, f, vs, site):
    cell, path = PR.bitcell(I, st, vs[0])
    I.writeloc(st, cell, path, mk('BVSUB', I.readloc(st, cell, path), mk('QSET', 'productive', PR.rulekey(I, st, vs[1]))))
    return [(st, UNIT)]


def p_linked(I, st, f, vs, site):
    return [(st, mk('HISTL', I.deref_deep(st, vs[0]), I.deref_deep(st, vs[1])))]


RECS = (('Binarize', 'HistoryNodeBinarize'), ('EliminateNulling', 'HistoryNodeEliminateNulling'), ('Weight', 'HistoryNodeWeight'),
        ('AssignPrecedence', 'HistoryNodeAssignPrecedence'), ('RewriteSequence', 'HistoryNodeRewriteSequence'), ('SequenceRhs', 'HistoryNodeSequenceRhs'))


def conv_of(c, rec):
    """the conversion of a history record into a history"""
    fs = [i for i in c.p.impls if i['trait'] == 'core::convert::From' and i['self'] == ('adt', full('earley::History'), ()) and i['targs'][1] == ('adt', 'cfg_history::' + rec, ())]
    return dict(fs[0]['items'])['from'] if len(fs) == 1 else None


def hist_prims(c):
    """history updates as symbols: whichever of the two public routes is taken, HISTL(update, previous)"""
    p = {'earley::process_linked': p_linked}
    for var, rec in RECS:
        def h(I, st, f, vs, site, var=var, rec=rec):
            v = I.deref_deep(st, vs[0])
            ln = full('LinkedHistoryNode')
            i = [x['n'] for x in ADTS[ln]['v']].index(var)
            g = lambda n: st.norm(F(v, 'cfg_history::' + rec, n))
            return [(st, mk('HISTL', adt(ln, i, [g(x[0]) for x in ADTS[ln]['v'][i]['f']]), g('prev')))]
        i = conv_of(c, rec)
        if i:
            p[i] = h
    return p


def prims(c):
    p = dict(PR.SETS)
    p.update(hist_prims(c))
    p.update({'Cfg::limit_rhs_len': p_limit, 'Cfg::add_rule': p_add, 'SymbolBitSet::subtract_productive': p_sub})
    return p


OPQ = ('CALL', 'OPQ', 'AFTER', 'LOOPV', 'LV')


def elim(c, hist=False):
    if not hist:
        c.rule('binary', 'rules are split to at most two symbols first, and nothing else happens when no symbol is nullable')
        c.rule('nullable', 'a symbol is nullable iff it has an empty rule or a rule all of whose symbols are nullable')
        c.rule('moved', 'the nulling grammar gets exactly the rules all of whose symbols are nullable, each as it is')
        c.rule('added', 'a rule of two symbols also yields the rule without its nullable symbol; of two nullable symbols, both shorter rules')
        c.rule('kept', 'of the old and new rules exactly the non-empty ones with a productive left-hand side stay')
    g = mk('SYM', 'g')
    s = c.summary('Cfg::binarize_and_eliminate_nulling_rules', ['g'], prims=prims(c))
    if not s:
        return
    w = s.fn.n
    rules = cf(g, 'rules')
    for st, ret in s.outs:
        ret = st.norm(ret)
        out = s.cell(st, 'g')
        v = st.norm(cf(out, 'rules'))
        ps = [x for x in subterms(v) if x.op == 'LIM' and x.a[0] is rules]
        if not ps:
            if not hist:
                c.res(False if not mentions(v, OPQ) else None, 'binary', w, 'rules are split to at most two symbols', show(v)[:200])
            continue
        LM = ps[0]
        two = some(C(2))
        if not hist:
            c.res(True if LM.a[1] is two else (False if precise(LM.a[1]) else None), 'binary', w, 'rules are split to at most two symbols', show(LM.a[1])[:100])
        NU = mk('RHSCL', 'All', LM, mk('QSET', 'nulling', LM))
        res = st.norm(cf(ret, 'rules'))
        if not hist:
            src = st.norm(cf(out, 'sym_source'))
            c.res(True if st.norm(cf(ret, 'sym_source')) is src else (False if st.norm(cf(ret, 'sym_source')) is cf(g, 'sym_source') or cf(ret, 'sym_source').op == 'ADT' else None), 'moved', w,
                  'the nulling grammar shares the symbols', show(cf(ret, 'sym_source'))[:200])
            for n in ('roots', 'wrapped_roots', 'lexemes'):
                c.same('kept', w, st, cf(out, n), cf(g, n), '%s stay' % n)
            c.same('kept', w, st, cf(out, 'rhs_len_invariant'), two, 'the limit stays in force')
        if v is LM:
            if hist:
                continue
            # nothing happened
            c.res(True if nonull(st, NU) else (False if nonull(st, NU) is False else None), 'binary', w, 'rules stay only when no symbol is nullable', showconds(st.conds)[:300])
            c.res(True if res is mk('SEQ') or not parts(res) else (False if not mentions(res, OPQ) else None), 'moved', w, 'the nulling grammar is empty when no symbol is nullable', show(res)[:200])
            continue
        E = mk('ELEM', 'J', LM)
        rhs = R(E, 'rhs')
        N = lambda k: at(NU, PR.usz(at(rhs, C(k))))
        base_ = st.fork()
        base_.learn(le(length(rhs), C(2)), True)
        # the set of nullable symbols that is used
        used = set(x.a[0] for x in subterms(res) if x.op == 'AT' and x.a[0].op in ('QSET', 'RHSCL', 'BVOR', 'BVSUB', 'SEQ')) | \
            set(x.a[0] for x in subterms(res) if x.op == 'AT' and x.a[0] is NU)
        for u in used - {NU}:
            if not hist:
                c.res(False if not mentions(u, OPQ) and all(z.op != 'SEQ' for z in subterms(u)) else None, 'nullable', w, 'nullable symbols', show(u)[:300])
        if used == {NU} and not hist:
            c.ok('nullable', w, 'nullable symbols')
        if used - {NU}:
            continue
        sh = [eq(length(rhs), C(0)), eq(length(rhs), C(1))]

        def shape(s2):
            if s2.truth(sh[0]):
                return 0, None, None
            s2n = 1 if s2.truth(sh[1]) else 2
            return s2n, s2.truth(N(0)), s2.truth(N(1)) if s2n == 2 else None

        def atoms(s0):
            outp = []
            for s1 in c.split(s0, sh):
                if s1.truth(sh[0]):
                    outp.append(s1)
                elif s1.truth(sh[1]):
                    outp += c.split(s1, [N(0)])
                else:
                    outp += c.split(s1, [N(0), N(1)])
            return [x for x in outp if qcons(x, rhs, shape(x)[0])]

        def tag(s2):
            n, a, b = shape(s2)
            return {0: 'an empty rule', 1: 'a rule of one %s symbol' % ('nullable' if a else 'other'), 2: 'a rule of a %s and a %s symbol' % ('nullable' if a else 'other', 'nullable' if b else 'other')}[n]

        def which(n, a, b):
            B = full('BinarizedRhsRange')
            vs = [x['n'] for x in ADTS[B]['v']]
            if n < 2 or a and b:
                return adt(B, vs.index('All'), (C(n),))
            return adt(B, vs.index('Left' if a else 'Right'), ())

        def node(h, s2, what):
            n, a, b = shape(s2)
            h = s2.norm(h)
            if h.op != 'HISTL':
                c.res(False if h is R(E, 'history') or h.op == 'ADT' else None, 'nulling', w, 'the elimination is recorded in the history', show(h)[:200])
                return
            c.same('nulling', w, s2, h.a[1], R(E, 'history'), 'the history continues that of the rule')
            k = h.a[0]
            LN = 'LinkedHistoryNode'
            vs = [x['n'] for x in ADTS[full(LN)]['v']]
            iv = vs.index('EliminateNulling')
            if k.op != 'ADT' or k.a[1] != iv:
                c.res(False if k.op == 'ADT' else None, 'nulling', w, 'the elimination is recorded in the history', show(k)[:200])
                return
            f = dict((x[0], i) for i, x in enumerate(ADTS[full(LN)]['v'][iv]['f']))
            val = lambda x: k.a[2][f[x]]
            for i, m in ((0, 'rhs0'), (1, 'rhs1')):
                c.same('nulling', w, s2, val(m), some(at(rhs, C(i))) if i < n else NONE, 'the record names the symbols of the rule')
            c.same('nulling', w, s2, val('which'), which(n, a, b), 'the record says which symbols are nullable')

        def rulecmp(rule, s2, want, x, what):
            if x.op not in ('ONE',):
                return c.inc(rule, w, what, show(x)[:200])
            r = x.a[0]
            l = s2.norm(R(r, 'lhs'))
            if l is not R(E, 'lhs') and l in [at(rhs, C(0)), at(rhs, C(1))]:
                c.viol(rule, w, what + ': left-hand side', show(l))
            else:
                c.same(rule, w, s2, l, R(E, 'lhs'), what + ': left-hand side')
            got = s2.norm(R(r, 'rhs'))
            pool = [R(E, 'lhs'), at(rhs, C(0)), at(rhs, C(1))]
            r_, why = symbols(s2, got, want, pool)
            c.res(r_, rule, w, what + ': right-hand side', '%s: %s' % (show(got)[:200], why))

        def okp(s2, extra=()):
            return all(not mentions(a, OPQ) for a, _ in s2.conds)
        # ---- the nulling grammar
        J = classes(base_, res, LM)
        if J is None:
            if not hist:
                c.inc('moved', w, 'rules of the nulling grammar', show(res)[:200])
        for s0, items in J or ():
            for s2 in atoms(s0):
                n, a, b = shape(s2)
                nul = n == 0 or n == 1 and a or n == 2 and a and b
                what = 'the nulling grammar and %s' % tag(s2)
                pr = okp(s2)
                if hist:
                    for x in items if nul else ():
                        if x.op == 'ONE':
                            node(R(x.a[0], 'history'), s2, what)
                    continue
                if not nul:
                    c.res(True if not items else (False if pr else None), 'moved', w, what, 'it is included')
                elif len(items) != 1:
                    c.res(False if pr and (not items or all(x.op == 'ONE' for x in items)) else None, 'moved', w, what, 'included %d times' % len(items))
                else:
                    rulecmp('moved', s2, [at(rhs, C(k)) for k in range(n)], items[0], what)
        # ---- what stays
        J = classes(base_, v, LM)
        if J is None:
            if not hist:
                c.inc('kept', w, 'rules that stay', show(v)[:300])
            continue
        PS = set(x.a[0] for a, _ in [z for s0, _ in J for z in s0.conds] for x in subterms(a) if x.op == 'AT' and x.a[1] is PR.usz(R(E, 'lhs')))
        if not hist:
            if len(PS) > 1:
                c.inc('kept', w, 'productive symbols', '')
                continue
            if not PS:
                c.res(False if all(okp(s0) for s0, _ in J) else None, 'kept', w, 'rules of unproductive symbols go', 'no test of the left-hand side')
                continue
            P = PS.pop()
            psym(c, w, st, P, LM, NU, res, E, base_, atoms, shape)
        for s0, items in J:
            if not hist:
                s0s = c.split(s0, [at(P, PR.usz(R(E, 'lhs')))])
            else:
                s0s = [s0]
            for s1 in s0s:
                for s2 in atoms(s1):
                    n, a, b = shape(s2)
                    extra = []
                    if n == 2:
                        extra = [k for k, f in ((0, b), (1, a)) if f]
                    olds = [x for x in items if x.op == 'ONE' and x.a[0] is E]
                    new = [x for x in items if not (x.op == 'ONE' and x.a[0] is E)]
                    if hist:
                        for x in new:
                            if x.op == 'ONE':
                                node(R(x.a[0], 'history'), s2, '')
                        continue
                    pr = okp(s2)
                    if not s2.truth(at(P, PR.usz(R(E, 'lhs')))):
                        c.res(True if not items else (False if pr else None), 'kept', w, 'rules of unproductive symbols go', '')
                        continue
                    if n == 0:
                        c.res(True if not items else (False if pr else None), 'kept', w, 'empty rules go', '')
                        continue
                    c.res(True if len(olds) == 1 else (False if pr and not (len(new) > len(extra)) else None), 'kept', w, '%s stays' % tag(s2), 'kept %d times' % len(olds))
                    what = 'shortened from %s' % tag(s2)
                    if len(new) != len(extra):
                        c.res(False if pr and all(x.op == 'ONE' for x in new) and len(olds) == 1 else None, 'added', w, what, '%d rules instead of %d' % (len(new), len(extra)))
                        continue
                    c.ok('added', w, what)
                    left = list(extra)
                    for x in new:
                        got = s2.norm(R(x.a[0], 'rhs')) if x.op == 'ONE' else None
                        k = next((k for k in left if got is not None and symbols(s2, got, [at(rhs, C(k))])[0] == 'EQ'), left[0] if left else 0)
                        if k in left:
                            left.remove(k)
                        rulecmp('added', s2, [at(rhs, C(k))], x, what)


def symbols(st, got, want, pool=()):
    """got consists of exactly these symbols"""
    r, why = cmp3(st, length(got), C(len(want)))
    if r != 'EQ':
        return r, why
    for k, x in enumerate(want):
        r, why = cmp3(st, st.norm(at(got, C(k))), st.norm(x))
        if r != 'EQ' and distinct(st, st.norm(at(got, C(k))), st.norm(x), pool):
            r = 'DIFF'
        if r != 'EQ':
            return r, why
    return 'EQ', ''


def nonull(st, NU):
    q = mk('QALL', NU, (((mk('ELEM', '•', NU), False),),))
    r = st.truth(q)
    if r is not None:
        return r
    for a, p in st.conds:
        # the number of members is zero
        for x in subterms(a):
            if x.op == 'COMP' and x.a[1] is NU and len(x.a[2]) == 2:
                yes = [it for k, it in x.a[2] if len(k) == 1 and k[0][0].op == 'ELEM' and k[0][1]]
                no = [it for k, it in x.a[2] if len(k) == 1 and k[0][0].op == 'ELEM' and not k[0][1]]
                if yes and no and len(yes[0]) == 1 and not no[0]:
                    n = length(mk('SEQ', x))
                    return st.truth(eq(n, C(0))) is True
    return None


def mentions_t(t, u):
    return any(x is u for x in subterms(t))


def psym(c, w, st, P, LM, NU, res, E, base_, atoms, shape):
    """productive symbols: closure under 'all', over the new rules, of the terminals that are not nulling"""
    if P.op != 'RHSCL':
        c.res(False if P.op in ('QSET', 'BVSUB', 'BVOR') and not mentions(P, OPQ) else None, 'kept', w, 'productive symbols', show(P)[:200])
        return
    mode, K, inner = P.a
    c.res(True if mode == 'All' else False, 'kept', w, 'a rule is productive when all its symbols are', str(mode))
    subd = False
    while inner.op == 'BVSUB':
        if inner.a[1].op == 'QSET' and inner.a[1].a[0] == 'productive' and inner.a[1].a[1] is res:
            subd = True
        else:
            subd = None
        inner = inner.a[0]
    if inner.op != 'QSET':
        c.inc('kept', w, 'productive symbols start with the terminals', show(inner)[:200])
        return
    c.res(True if inner.a[0] == 'terminal' else (None if inner.a[0] in ('unused',) else False), 'kept', w, 'productive symbols start with the terminals', inner.a[0])

    def scan(key):
        """(empty rules present?, shortened rules present?)"""
        J = classes(base_, key, LM)
        if J is None:
            return None, None
        emp = var = True
        for s0, items in J:
            for s2 in atoms(s0):
                n, a, b = shape(s2)
                if n == 0 and not items:
                    emp = False
                if n == 2 and (a or b) and len(items) < 2:
                    var = False
        return emp, var
    emp, _ = (True, None) if inner.a[1] is LM else scan(inner.a[1])
    if subd is True:
        c.ok('kept', w, 'symbols without rules left do not count as terminals')
    else:
        c.res(True if emp else (False if emp is False and subd is False else None), 'kept', w, 'symbols without rules left do not count as terminals', '')
    _, var = (None, False) if K is LM else scan(K)
    c.res(var, 'kept', w, 'productivity takes the shortened rules into account', show(K)[:200])


def idem(c):
    pass


PARTS = [elim]
# statements of other properties this one presupposes: part of its check, restricted to the functions it uses
RELIES = [('p05', 'split', ''), ('p05', 'limit', ''), ('p05', 'shapes', ''), ('p08', 'setclosure', ''), ('p14', 'queries', 'nulling|terminal|productive'), ('p14', 'ops', '::iter|index')]
