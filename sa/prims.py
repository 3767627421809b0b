"""Domain primitives: how symbol generation and rule insertion are abstracted for their callers.

The bodies of these functions are decided separately (properties on fresh symbols and on the
right-hand-side limit); callers are analysed against these contracts."""
from terms import *
from interp import *


def _ctx(I):
    return tuple(mk('IDX', L.id) for L in I.loopstack if L.mode == 'generic')


def fresh(I, st, site, name):
    k = I.cp('fresh', site)
    n = st.nfresh
    st.nfresh = n + 1
    f = mk('FRESH', k, n, _ctx(I))
    st.event('fresh', f, name)
    return f


def p_next_sym(I, st, f, vs, site):
    cell, path = I.ptr_of(st, vs[0])
    name = vs[1] if len(vs) > 1 else NONE
    old = I.readloc(st, cell, path)
    r = fresh(I, st, site, I.deref_deep(st, name))
    I.writeloc(st, cell, path, mk('SRCNEXT', old, r))
    return [(st, r)]


def p_usize(I, st, f, vs, site):
    s = I.deref(st, vs[0])
    return [(st, usz(s))]


def usz(s):
    if s.op == 'GSYM':
        return s.a[1]
    if s.op == 'SYMOF':
        return s.a[0]
    t = mk('USZ', s)
    NONNEG.add(t)
    return t


def p_generate_fresh(I, st, f, vs, site):
    return [(st, mk('IT', mk('INF', 'sym', C(0))))]


def p_num_syms(I, st, f, vs, site):
    s = I.deref(st, vs[0])
    t = mk('NSYMS', s)
    NONNEG.add(t)
    return [(st, t)]


def rules_path(I):
    p = 'cfg_grammar::cfg::Cfg'
    for i, x in enumerate(ADTS[p]['v'][0]['f']):
        if x[0] == 'rules':
            return ('f', p, 0, i, False)
    return None


def p_add_rule(I, st, f, vs, site):
    cell, path = I.ptr_of(st, vs[0])
    e = rules_path(I)
    rule = I.deref_deep(st, vs[1])
    cur = I.readloc(st, cell, path + (e,))
    I.writeloc(st, cell, path + (e,), concat(cur, seqof([mk('ADDED', rule)])))
    st.event('add_rule', rule)
    t = mk('PARTS', rule)
    NONNEG.add(t)
    return [(st, t)]


SYM = {
    'SymbolSource::next_sym': p_next_sym,
    'cfg_symbol::symbol::Symbol::usize': p_usize,
    'SymbolSource::generate_fresh': p_generate_fresh,
    'SymbolSource::num_syms': p_num_syms,
}
STD = dict(SYM)
STD['Cfg::add_rule'] = p_add_rule


# ---- set queries (their bodies are decided by the property on symbol sets)
def _g(I, st, v):
    g = I.deref(st, v)
    return g


def bor(*xs):
    out = []
    for x in xs:
        if x.op == 'BVOR':
            out.extend(x.a)
        elif x.op == 'SEQ' and all(p.op == 'REP' and isC(p.a[0]) and p.a[0].a[0] == 0 for p in x.a):
            continue
        else:
            out.append(x)
    out = sorted(set(out), key=lambda x: x.n)
    return out[0] if len(out) == 1 else mk('BVOR', *out)


def bitcell(I, st, p):
    cell, path = I.ptr_of(st, p)
    pth = 'cfg_grammar::symbol_bit_set::SymbolBitSet'
    path = path + (('f', pth, 0, 0, False),)
    return cell, path


def q_set(kind, add_=False):
    def h(I, st, f, vs, site):
        cell, path = bitcell(I, st, vs[0])
        g = rulekey(I, st, vs[1])
        q = mk('QSET', kind, g)
        if add_:
            q = bor(I.readloc(st, cell, path), q)
        I.writeloc(st, cell, path, q)
        return [(st, UNIT)]
    return h


def rulekey(I, st, g):
    """the rules (and symbol count) a query reads"""
    v = I.deref_deep(st, g)
    p = 'cfg_grammar::cfg::Cfg'
    fs = dict((x[0], i) for i, x in enumerate(ADTS[p]['v'][0]['f']))
    return fld(v, p, 0, fs['rules'])


def q_cfg(kind):
    def h(I, st, f, vs, site):
        return [(st, adt('cfg_grammar::symbol_bit_set::SymbolBitSet', 0, (mk('QSET', kind, rulekey(I, st, vs[0])),)))]
    return h


def q_closure(mode):
    def h(I, st, f, vs, site):
        cell, path = bitcell(I, st, vs[1])
        g = rulekey(I, st, vs[0])
        m = mode
        if m is None:
            m = I.deref(st, vs[2])
            m = m.a[1] if m.op == 'ADT' else m
        I.writeloc(st, cell, path, mk('RHSCL', m, g, I.readloc(st, cell, path)))
        return [(st, UNIT)]
    return h


QUERIES = {
    'SymbolBitSet::terminal': q_set('terminal'), 'SymbolBitSet::used': q_set('used'), 'SymbolBitSet::unused': q_set('unused'),
    'SymbolBitSet::nulling': q_set('nulling', True), 'SymbolBitSet::productive': q_set('productive', True),
    'Cfg::terminal_symbols': q_cfg('terminal'), 'Cfg::nulling_symbols': q_cfg('nulling'), 'Cfg::unused_symbols': q_cfg('unused'),
    'Cfg::rhs_closure_for_all': q_closure('All'), 'Cfg::rhs_closure_for_any': q_closure('Any'), 
}
SETS = dict(STD)
SETS.update(QUERIES)


def q_rel(kind, wrap):
    def h(I, st, f, vs, site):
        p = 'cfg_symbol_bit_matrix::symbol_bit_matrix::'
        return [(st, adt(p + wrap, 0, (adt(p + 'SymbolBitMatrix', 0, (mk('REL', kind, rulekey(I, st, vs[0])),)),)))]
    return h


RELS = {
    'CfgSymbolBitMatrixExt::direct_derivation_matrix': q_rel('direct', 'DirectDerivationMatrix'),
    'CfgSymbolBitMatrixExt::reachability_matrix': q_rel('reach', 'ReachabilityMatrix'),
    'CfgSymbolBitMatrixExt::unit_derivation_matrix': q_rel('unit', 'UnitDerivationMatrix'),
}
SETS.update(RELS)
