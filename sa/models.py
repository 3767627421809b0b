"""Models of the standard library (and of the few crates the workspace leans on)."""
import itertools
from terms import *
import interp
from interp import (mapins, mapval, maphas, store, ITOPS, OPTION, St, shortname, Imprecise, intish_eq, Decline)
from facts import sub_ty

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def V(I, st, v):
    return I.deref(st, v)


# ---------------------------------------------------------------- identities
def ident(I, st, a, cx):
    return [(st, a[0])]


def ident_d(I, st, a, cx):
    """value behind the reference"""
    return [(st, I.deref_deep(st, a[0]))]


for n in ('Clone::clone', 'ToOwned::to_owned', 'slice::to_vec', '[$T]::to_vec', 'Option::cloned', 'Option::copied',
          'Bound::cloned', 'Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'ToString::to_string_',
          'Option::as_deref', 'Option::as_ref', 'Result::as_ref', 'Vec::as_slice', 'SmallVec::as_slice', 'String::as_str',
          'NonZero::get', 'Rc::as_ref', 'Vec::into_boxed_slice', '[$T]::into_vec', 'slice::into_vec', 'Box::into_inner',
          'Cow::into_owned', 'String::into_bytes', 'str::to_owned', 'str::to_string', 'String::as_bytes', 'str::as_bytes',
          'Cow::deref', 'Rc::clone', 'hint::must_use', 'Index::index_full', 'Option::as_slice', 'Arc::new', 'Rc::new', 'Box::new',
          'Cell::new', 'convert::identity', 'SmallVec::into_vec', 'Vec::from', 'Option::into', 'Box::from', 'hint::black_box',
          'Option::as_deref_mut_', 'Rc::from', 'Result::as_deref'):
    MODELS[n] = ident_d
@model('DerefMut::deref_mut')
def _(I, st, a, cx):
    t = cx.targs[0] if cx.targs else None
    if t and t[0] == 'adt' and t[1].split('::')[-1] in ('RefMut', 'Ref', 'MutexGuard') and a[0].op == 'PTR':
        v = I.readloc(st, a[0].a[0], a[0].a[1])
        if v.op == 'PTR':
            return [(st, v)]
    return [(st, a[0])]


for n in ('BorrowMut::borrow_mut', 'AsMut::as_mut', 'Vec::as_mut_slice', 'SmallVec::as_mut_slice',
          'Iterator::by_ref', 'Option::as_mut_', 'ManuallyDrop::new', 'Iterator::fuse_', 'mem::forget'):
    MODELS[n] = ident


@model('Chars::as_str')
def _(I, st, a, cx):
    v = I.deref_deep(st, a[0])
    l = conc_list(v.a[0]) if v.op == 'IT' else None
    if l is not None and all(x.op == 'C' for x in l):
        return [(st, mk('S', ''.join(chr(x.a[0]) for x in l)))]
    return [(st, v)]


@model('String::as_str')
def _(I, st, a, cx):
    return [(st, V(I, st, a[0]))]


@model('Into::into', 'TryInto::try_into', 'From::from', 'TryFrom::try_from')
def conv(I, st, a, cx):
    m = cx.f[5]
    t = cx.targs
    if m in ('into', 'try_into'):
        src, dst = t[0], t[1]
    else:
        dst, src = t[0], (t[1] if len(t) > 1 else None)
    tr = 'core::convert::TryFrom' if m.startswith('try') else 'core::convert::From'
    b = I.find_impl(tr, (dst, src), tr.split('::')[-1] == 'From' and 'from' or 'try_from')
    if b is None and m in ('into', 'try_into'):
        b2 = I.find_impl('core::convert::Into' if m == 'into' else 'core::convert::TryInto', (src, dst), m)
        if b2 and I.p.fns[b2[1]].id not in I.stack:
            return I.call_fn(I.p.fns[b2[1]], a, dict(b2[2]), st, (cx.site, 'into'))
    if b is not None and I.prims.get(b[1]):
        return I.prims[b[1]](I, st, cx.f, a, cx.site)
    if b is not None:
        fn = I.p.fns[b[1]]
        for n in (fn.n, shortname(fn.n)):
            h = I.prims.get(n)
            if h:
                return h(I, st, cx.f, a, cx.site)
        if fn.id not in I.stack:
            return I.call_fn(fn, a, dict(b[2]), st, (cx.site, 'from'))
    v = a[0] if a[0].op in ('CLO',) else I.deref_deep(st, a[0])
    if m in ('try_into', 'try_from'):
        wd, ws = nzbits(dst), nzbits(src)
        if wd and ws:
            if wd >= ws:
                return [(st, ok(v))]
            return [(s, ok(v) if b else err(mk('NZERR'))) for s, b in I.branch(st, lt(v, C(1 << wd)))]
        if dst[0] == 'adt' and dst[1].endswith('NonZero'):
            return nz_new(I, st, [v], cx, res=True)
        return [(st, ok(v))]
    if dst[0] == 'adt' and dst[1] == OPTION and not (src and src[0] == 'adt' and src[1] == OPTION):
        return [(st, some(v))]
    return [(st, v)]


def nzbits(t):
    if t and t[0] == 'adt' and t[1].endswith('NonZero') and len(t) > 2 and t[2] and t[2][0][0] == 'prim':
        return {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}.get(t[2][0][1])
    return None


def nz_new(I, st, a, cx, res=False):
    v = V(I, st, a[0])
    out = []
    for s, b in I.branch(st, intish_eq(v, C(0)) if not isC(v) else C(v.a[0] == 0)):
        if b:
            out.append((s, err(mk('NZERR')) if res else NONE))
        else:
            out.append((s, ok(v) if res else some(v)))
    return out


MODELS['NonZero::new'] = nz_new


@model('NonZero::saturating_add', 'u32::saturating_add_', 'NonZero::checked_add_')
def _(I, st, a, cx):
    return [(st, add(V(I, st, a[0]), V(I, st, a[1])))]


@model('NonZero::checked_add', 'u32::checked_add', 'usize::checked_add', 'u64::checked_add')
def _(I, st, a, cx):
    return [(st, some(add(V(I, st, a[0]), V(I, st, a[1]))))]


@model('u32::saturating_add', 'usize::saturating_add', 'u64::saturating_add', 'usize::wrapping_add', 'u32::wrapping_add')
def _(I, st, a, cx):
    return [(st, add(V(I, st, a[0]), V(I, st, a[1])))]


@model('usize::checked_sub', 'u32::checked_sub')
def _(I, st, a, cx):
    x, y = V(I, st, a[0]), V(I, st, a[1])
    NONNEG.add(x)
    return [(s, NONE if b else some(sub(x, y))) for s, b in I.branch(st, lt(x, y))]


@model('usize::wrapping_sub', 'u32::wrapping_sub')
def _(I, st, a, cx):
    x, y = V(I, st, a[0]), V(I, st, a[1])
    NONNEG.add(x)
    return [(s, mk('HUGE', x, y) if b else sub(x, y)) for s, b in I.branch(st, lt(x, y))]


@model('usize::saturating_sub', 'u32::saturating_sub', 'u64::saturating_sub')
def _(I, st, a, cx):
    x, y = V(I, st, a[0]), V(I, st, a[1])
    NONNEG.add(x)
    NONNEG.add(y)
    return [(s, C(0) if b else sub(x, y)) for s, b in I.branch(st, lt(x, y))]


@model('Ord::min', 'cmp::min', 'usize::min')
def _(I, st, a, cx):
    x, y = V(I, st, a[0]), V(I, st, a[1])
    if x is y:
        return [(st, x)]
    return [(s, y if b else x) for s, b in I.branch(st, lt(y, x))]


@model('Ord::max', 'cmp::max', 'usize::max')
def _(I, st, a, cx):
    x, y = V(I, st, a[0]), V(I, st, a[1])
    if x is y:
        return [(st, x)]
    return [(s, x if b else y) for s, b in I.branch(st, lt(y, x))]


# ---------------------------------------------------------------- memory
@model('mem::replace')
def _(I, st, a, cx):
    c, p = I.ptr_of(st, a[0])
    old = I.readloc(st, c, p)
    I.writeloc(st, c, p, a[1])
    return [(st, old)]


def default_of(I, st, ty, site):
    """-> value or None"""
    if ty[0] == 'prim':
        if ty[1] == 'str':
            return S('')
        if ty[1] in ('f64', 'f32'):
            return mk('F0')
        return C(0)
    if ty[0] == 'tuple':
        vs = [default_of(I, st, t, site) for t in ty[1]]
        return tup(vs) if all(v is not None for v in vs) else None
    if ty[0] == 'adt':
        n = ty[1].split('::')[-1]
        if n in ('Vec', 'SmallVec', 'String', 'VecDeque', 'BinaryHeap', 'List'):
            return EMPTY
        if n in ('BTreeMap', 'HashMap', 'BTreeSet', 'HashSet', 'IndexMap'):
            return mk('MAP0')
        if n == 'Option':
            return NONE
        if n in ('RefCell', 'Cell', 'Rc', 'Box', 'Arc'):
            return default_of(I, st, ty[2][0], site)
        if n == 'BitVec':
            return EMPTY
        b = I.find_impl('core::default::Default', (ty,), 'default')
        if b:
            fn = I.p.fns[b[1]]
            r = I.call_fn(fn, [], dict(b[2]), st.fork(), (site, 'default'))
            if len(r) == 1:
                return r[0][1]
    if ty[0] == 'slice':
        return EMPTY
    if ty[0] == 'array':
        d = default_of(I, st, ty[1], (site, 'el'))
        n = ty[2]
        if d is not None:
            try:
                n = int(str(n).replace('_usize', ''))
                return seqof([d] * n)
            except ValueError:
                return seq([mk('REP', d, mk('CPARAM', n))])
    return None


@model('mem::take')
def _(I, st, a, cx):
    c, p = I.ptr_of(st, a[0])
    old = I.readloc(st, c, p)
    d = default_of(I, st, cx.targs[0], cx.site)
    if d is None:
        d = mk('DEFAULT', cx.targs[0])
    I.writeloc(st, c, p, d)
    return [(st, old)]


@model('mem::swap')
def _(I, st, a, cx):
    c, p = I.ptr_of(st, a[0])
    c2, p2 = I.ptr_of(st, a[1])
    x, y = I.readloc(st, c, p), I.readloc(st, c2, p2)
    I.writeloc(st, c, p, y)
    I.writeloc(st, c2, p2, x)
    return [(st, UNIT)]


@model('mem::drop')
def _(I, st, a, cx):
    return [(st, UNIT)]


@model('Default::default')
def _(I, st, a, cx):
    d = default_of(I, st, cx.targs[0], cx.site)
    if d is None:
        return NotImplemented
    return [(st, d)]


@model('RefCell::new')
def _(I, st, a, cx):
    h = mk('RC', I.cp(cx.site, 'refcell'))
    st.cells[('refcell', h)] = a[0]
    return [(st, h)]


@model('RefCell::borrow_mut', 'RefCell::borrow', 'RefCell::get_mut')
def _(I, st, a, cx):
    h = V(I, st, a[0])
    key = ('refcell', h)
    if key not in st.cells:
        st.cells[key] = mk('CONTENT', h)
    if cx.f[2].endswith('borrow'):
        return [(st, I.deref_deep(st, mk('PTR', key, ())))]
    return [(st, mk('PTR', key, ()))]


@model('RefCell::take')
def _(I, st, a, cx):
    h = V(I, st, a[0])
    key = ('refcell', h)
    old = st.cells.get(key, mk('CONTENT', h))
    st.cells[key] = EMPTY
    return [(st, old)]


@model('Box::new_uninit')
def _(I, st, a, cx):
    key = ('box', I.cp(cx.site, 'box'))
    st.cells[key] = mk('UNINIT')
    return [(st, mk('PTR', key, ()))]


@model('boxed::box_assume_init_into_vec_unsafe', 'Box::assume_init', 'Box::write')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    if a[0].op == 'PTR':
        st.cells.pop(a[0].a[0], None)
    return [(st, v)]


# ---------------------------------------------------------------- options / results
def opt2(f):
    return f


@model('Option::is_some')
def _(I, st, a, cx):
    return [(s, C(i == 1)) for s, i in I.split_variant(st, V(I, st, a[0]), OPTION)]


@model('Option::is_none')
def _(I, st, a, cx):
    return [(s, C(i == 0)) for s, i in I.split_variant(st, V(I, st, a[0]), OPTION)]


@model('Result::is_ok')
def _(I, st, a, cx):
    return [(s, C(i == 0)) for s, i in I.split_variant(st, V(I, st, a[0]), RESULT)]


@model('Result::is_err')
def _(I, st, a, cx):
    return [(s, C(i == 1)) for s, i in I.split_variant(st, V(I, st, a[0]), RESULT)]


def payload(v, path, var):
    return fld(v, path, var, 0)


@model('Option::unwrap', 'Option::expect', 'Option::unwrap_unchecked')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    if v.op == 'ADT':
        if v.a[1] == 0:
            I.panics.append((cx.fr.fn.n if cx.fr else '?', 0, 'unwrap', st))
            return []
        return [(st, v.a[2][0])]
    if not I.assume_variant(st, v, OPTION, 1):
        return []
    return [(st, payload(v, OPTION, 1))]


@model('Result::unwrap', 'Result::expect')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    if v.op == 'ADT':
        if v.a[1] != 0:
            I.panics.append((cx.fr.fn.n if cx.fr else '?', 0, 'unwrap', st))
            return []
        return [(st, v.a[2][0])]
    if not I.assume_variant(st, v, RESULT, 0):
        return []
    return [(st, payload(v, RESULT, 0))]


@model('Result::unwrap_err', 'Result::expect_err')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    if v.op == 'ADT':
        if v.a[1] != 1:
            I.panics.append((cx.fr.fn.n if cx.fr else '?', 0, 'unwrap', st))
            return []
        return [(st, v.a[2][0])]
    if not I.assume_variant(st, v, RESULT, 1):
        return []
    return [(st, payload(v, RESULT, 1))]


def osplit(I, st, v, path=OPTION, good=1):
    v = V(I, st, v)
    return [(s, payload(v, path, i) if nfields(path, i) else None, i == good) for s, i in I.split_variant(st, v, path)]


@model('Option::unwrap_or', 'Option::unwrap_or_default')
def _(I, st, a, cx):
    d = a[1] if len(a) > 1 else (default_of(I, st, cx.targs[0], cx.site) or mk('DEFAULT', cx.targs[0]))
    return [(s, x if g else d) for s, x, g in osplit(I, st, a[0])]


@model('Result::unwrap_or', 'Result::unwrap_or_default')
def _(I, st, a, cx):
    d = a[1] if len(a) > 1 else (default_of(I, st, cx.targs[0], cx.site) or mk('DEFAULT', cx.targs[0]))
    return [(s, x if g else d) for s, x, g in osplit(I, st, a[0], RESULT, 0)]


@model('Option::unwrap_or_else')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0]):
        out += [(s, x)] if g else I.call_closure(s, a[1], [], (cx.site, 'uoe'))
    return out


@model('Result::unwrap_or_else')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0], RESULT, 0):
        out += [(s, x)] if g else I.call_closure(s, a[1], [x], (cx.site, 'uoe'))
    return out


@model('Option::map')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0]):
        if g:
            out += [(s2, some(y)) for s2, y in I.call_closure(s, a[1], [x], (cx.site, 'omap'))]
        else:
            out.append((s, NONE))
    return out


@model('Option::and_then')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0]):
        out += I.call_closure(s, a[1], [x], (cx.site, 'oat')) if g else [(s, NONE)]
    return out


@model('Option::map_or')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0]):
        out += I.call_closure(s, a[2], [x], (cx.site, 'omo')) if g else [(s, a[1])]
    return out


@model('Option::map_or_else')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0]):
        out += I.call_closure(s, a[2], [x], (cx.site, 'omoe')) if g else I.call_closure(s, a[1], [], (cx.site, 'omoe2'))
    return out


@model('Option::is_some_and')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0]):
        out += I.call_closure(s, a[1], [x], (cx.site, 'isa')) if g else [(s, FALSE)]
    return out


@model('Option::is_none_or')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0]):
        out += I.call_closure(s, a[1], [x], (cx.site, 'ino')) if g else [(s, TRUE)]
    return out


@model('Option::filter')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0]):
        if not g:
            out.append((s, NONE))
            continue
        for s2, y in I.call_closure(s, a[1], [x], (cx.site, 'of')):
            out += [(s3, some(x) if b else NONE) for s3, b in I.branch(s2, y)]
    return out


@model('Option::or')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    return [(s, some(x) if g else a[1]) for s, x, g in osplit(I, st, v)]


@model('Option::flatten')
def _(I, st, a, cx):
    return [(s, x if g else NONE) for s, x, g in osplit(I, st, a[0])]


@model('Option::and')
def _(I, st, a, cx):
    return [(s, a[1] if g else NONE) for s, x, g in osplit(I, st, a[0])]


@model('Option::xor')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0]):
        for s2, y, g2 in osplit(I, s, a[1]):
            out.append((s2, NONE if g == g2 else some(x if g else y)))
    return out


@model('Option::zip')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0]):
        if not g:
            out.append((s, NONE))
            continue
        for s2, y, g2 in osplit(I, s, a[1]):
            out.append((s2, some(tup([x, y])) if g2 else NONE))
    return out


@model('Option::or_else')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0]):
        out += [(s, some(x))] if g else I.call_closure(s, a[1], [], (cx.site, 'ooe'))
    return out


@model('Option::ok_or')
def _(I, st, a, cx):
    return [(s, ok(x) if g else err(a[1])) for s, x, g in osplit(I, st, a[0])]


@model('Option::ok_or_else')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0]):
        out += [(s, ok(x))] if g else [(s2, err(e)) for s2, e in I.call_closure(s, a[1], [], (cx.site, 'oke'))]
    return out


@model('Option::take')
def _(I, st, a, cx):
    c, p = I.ptr_of(st, a[0])
    v = I.readloc(st, c, p)
    I.writeloc(st, c, p, NONE)
    return [(st, v)]


@model('Option::replace')
def _(I, st, a, cx):
    c, p = I.ptr_of(st, a[0])
    v = I.readloc(st, c, p)
    I.writeloc(st, c, p, some(a[1]))
    return [(st, v)]


@model('Option::insert')
def _(I, st, a, cx):
    c, p = I.ptr_of(st, a[0])
    I.writeloc(st, c, p, some(a[1]))
    return [(st, mk('PTR', c, p + (('f', OPTION, 1, 0),)))]


@model('Option::as_mut', 'Option::as_deref_mut')
def _(I, st, a, cx):
    c, p = I.ptr_of(st, a[0])
    v = I.readloc(st, c, p)
    out = []
    for s, i in I.split_variant(st, v, OPTION):
        out.append((s, some(mk('PTR', c, p + (('f', OPTION, 1, 0),))) if i else NONE))
    return out


@model('Option::get_or_insert_with', 'Option::get_or_insert')
def _(I, st, a, cx):
    c, p = I.ptr_of(st, a[0])
    v = I.readloc(st, c, p)
    out = []
    ptr = mk('PTR', c, p + (('f', OPTION, 1, 0),))
    for s, i in I.split_variant(st, v, OPTION):
        if i:
            if v.op != 'ADT':
                I.writeloc(s, c, p, v)
            out.append((s, ptr))
        else:
            rs = I.call_closure(s, a[1], [], (cx.site, 'goi')) if cx.f[2].endswith('with') else [(s, a[1])]
            for s2, d in rs:
                I.writeloc(s2, c, p, some(d))
                out.append((s2, ptr))
    return out


@model('Result::ok')
def _(I, st, a, cx):
    return [(s, some(x) if g else NONE) for s, x, g in osplit(I, st, a[0], RESULT, 0)]


@model('Result::err')
def _(I, st, a, cx):
    return [(s, NONE if g else some(x)) for s, x, g in osplit(I, st, a[0], RESULT, 0)]


@model('Result::map')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0], RESULT, 0):
        out += [(s2, ok(y)) for s2, y in I.call_closure(s, a[1], [x], (cx.site, 'rm'))] if g else [(s, err(x))]
    return out


@model('Result::map_err')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0], RESULT, 0):
        out += [(s, ok(x))] if g else [(s2, err(y)) for s2, y in I.call_closure(s, a[1], [x], (cx.site, 'rme'))]
    return out


@model('Result::and_then')
def _(I, st, a, cx):
    out = []
    for s, x, g in osplit(I, st, a[0], RESULT, 0):
        out += I.call_closure(s, a[1], [x], (cx.site, 'rat')) if g else [(s, err(x))]
    return out


CF = 'core::ops::control_flow::ControlFlow'


@model('Try::branch')
def _(I, st, a, cx):
    ty = cx.targs[0]
    v = V(I, st, a[0])
    out = []
    if ty[0] == 'adt' and ty[1] == OPTION:
        for s, x, g in osplit(I, st, v):
            out.append((s, mk('ADT', CF, 0, (x,)) if g else mk('ADT', CF, 1, (NONE,))))
    else:
        for s, x, g in osplit(I, st, v, RESULT, 0):
            out.append((s, mk('ADT', CF, 0, (x,)) if g else mk('ADT', CF, 1, (err(x),))))
    return out


@model('FromResidual::from_residual')
def _(I, st, a, cx):
    v = a[0]
    if v.op == 'ADT' and v.a[0] == RESULT:
        e = v.a[2][0]
        dst = cx.targs[0]
        if dst[0] == 'adt' and dst[1] == RESULT and len(dst[2]) > 1:
            b = I.find_impl('core::convert::From', (dst[2][1],), 'from')
            src = cx.targs[1][2][1] if len(cx.targs) > 1 and len(cx.targs[1]) > 2 and len(cx.targs[1][2]) > 1 else None
            if b and src and src != dst[2][1]:
                b = I.find_impl('core::convert::From', (dst[2][1], src), 'from')
                if b:
                    return [(s, err(x)) for s, x in I.call_fn(I.p.fns[b[1]], [e], dict(b[2]), st, (cx.site, 'res'))]
        return [(st, err(e))]
    return [(st, v)]


# ---------------------------------------------------------------- comparisons
def eqterm(I, st, x, y):
    """structural equality -> [(st, bool term)]"""
    x, y = V(I, st, x), V(I, st, y)
    if x is y:
        return [(st, TRUE)]
    if x.op == 'ADT' and y.op == 'ADT' and x.a[0] == y.a[0]:
        if x.a[1] != y.a[1]:
            return [(st, FALSE)]
        cur = [(st, TRUE)]
        out = []
        for f, g in zip(x.a[2], y.a[2]):
            nx = []
            for s, _ in cur:
                for s2, t in eqterm(I, s, f, g):
                    for s3, b in I.branch(s2, t):
                        if b:
                            nx.append((s3, TRUE))
                        else:
                            out.append((s3, FALSE))
            cur = nx
        return cur + out
    if x.op == 'ADT' or y.op == 'ADT':
        k, o = (x, y) if x.op == 'ADT' else (y, x)
        p = k.a[0]
        d = ADTS.get(p)
        if d and d['enum']:
            out = []
            for s, i in I.split_variant(st, o, p):
                if i != k.a[1]:
                    out.append((s, FALSE))
                elif not k.a[2]:
                    out.append((s, TRUE))
                else:
                    out += eqterm(I, s, k, mk('ADT', p, i, tuple(fld(o, p, i, j) for j in range(len(k.a[2])))))
            return out
    if x.op == 'TUP' and y.op == 'TUP' and len(x.a) == len(y.a):
        out = []
        cur = [st]
        for f, g in zip(x.a, y.a):
            nx = []
            for s in cur:
                for s2, t in eqterm(I, s, f, g):
                    for s3, b in I.branch(s2, t):
                        if b:
                            nx.append(s3)
                        else:
                            out.append((s3, FALSE))
            cur = nx
        return [(s, TRUE) for s in cur] + out
    lx, ly = conc_list(x), conc_list(y)
    if lx is not None and ly is not None:
        if len(lx) != len(ly):
            return [(st, FALSE)]
        return eqterm(I, st, mk('TUP', *lx), mk('TUP', *ly))
    if x is EMPTY or y is EMPTY:
        o = y if x is EMPTY else x
        if o.op not in ('S',):
            return [(st, intish_eq(length(o), C(0)))]
    if isC(x) or isC(y):
        o = y if isC(x) else x
        if o.op in ('NOT', 'EQ', 'EQ0', 'LT0', 'VAR', 'QALL'):
            c = x if isC(x) else y
            return [(st, o if c.a[0] else neg(o))]
        return [(st, intish_eq(x, y))]
    return [(st, eq(x, y))]


@model('PartialEq::eq')
def _(I, st, a, cx):
    return eqterm(I, st, a[0], a[1])


@model('PartialEq::ne')
def _(I, st, a, cx):
    return [(s, neg(t)) for s, t in eqterm(I, st, a[0], a[1])]


def cmpargs(I, st, a):
    return unitenum(V(I, st, a[0])), unitenum(V(I, st, a[1]))


def unitenum(v):
    if v.op == 'ADT' and not v.a[2] and v.a[0] in ADTS and ADTS[v.a[0]]['enum'] and v.a[0] != OPTION:
        return C(int(ADTS[v.a[0]]['v'][v.a[1]]['d']))
    return v


@model('PartialOrd::lt')
def _(I, st, a, cx):
    x, y = cmpargs(I, st, a)
    return [(st, lt(x, y))]


@model('PartialOrd::le')
def _(I, st, a, cx):
    x, y = cmpargs(I, st, a)
    return [(st, le(x, y))]


@model('PartialOrd::gt')
def _(I, st, a, cx):
    x, y = cmpargs(I, st, a)
    return [(st, lt(y, x))]


@model('PartialOrd::ge')
def _(I, st, a, cx):
    x, y = cmpargs(I, st, a)
    return [(st, le(y, x))]


@model('Ord::cmp')
def _(I, st, a, cx):
    x, y = cmpargs(I, st, a)
    if x is y:
        return [(st, mk('ADT', ORDERING, 1, ()))]
    if isC(x) and isC(y):
        return [(st, mk('ADT', ORDERING, 0 if x.a[0] < y.a[0] else 2, ()))]
    v = mk('CMP', x, y)
    St._vp[v] = ORDERING
    return [(st, v)]


@model('PartialOrd::partial_cmp')
def _(I, st, a, cx):
    x, y = cmpargs(I, st, a)
    v = mk('CMP', x, y)
    St._vp[v] = ORDERING
    return [(st, some(v))]


@model('Ordering::then_with')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    P = 'core::cmp::Ordering'
    out = []
    for s, i in I.split_variant(st, v, P):
        if i == 1:
            out += I.call_closure(s, a[1], [], cx.site)
        else:
            out.append((s, adt(P, i, [])))
    return out


@model('Ordering::then')
def _(I, st, a, cx):
    out = []
    for s, i in I.split_variant(st, V(I, st, a[0]), ORDERING):
        out.append((s, a[1] if i == 1 else mk('ADT', ORDERING, i, ())))
    return out


# ---------------------------------------------------------------- sequences
@model('Vec::new', 'SmallVec::new', 'String::new', 'Vec::with_capacity', 'SmallVec::with_capacity', 'VecDeque::new',
       'VecDeque::with_capacity', 'String::with_capacity', 'BitVec::new', 'BitVec::with_capacity', 'List::new', 'BinaryHeap::new',
       'List::new_sync')
def _(I, st, a, cx):
    return [(st, EMPTY)]


@model('vec::from_elem', 'Vec::from_elem')
def _(I, st, a, cx):
    return [(st, seq([mk('REP', a[0], a[1])]))]


@model('BitVec::from_elem')
def _(I, st, a, cx):
    return [(st, seq([mk('REP', a[1], a[0])]))]


@model('BitVec::from_fn')
def _(I, st, a, cx):
    return NotImplemented


def seqloc(I, st, a0):
    c, p = I.ptr_of(st, a0)
    return c, p, I.readloc(st, c, p)


@model('Vec::push', 'SmallVec::push', 'VecDeque::push_back', 'String::push', 'BitVec::push', 'String::push_char_')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    I.writeloc(st, c, p, seq(parts(v) + (one(a[1]),)))
    return [(st, UNIT)]


@model('String::push_str', 'Vec::extend_from_slice', 'SmallVec::extend_from_slice', 'Vec::append_')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    I.writeloc(st, c, p, concat(v, V(I, st, a[1])))
    return [(st, UNIT)]


@model('Vec::append', 'SmallVec::append', 'VecDeque::append')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    c2, p2, w = seqloc(I, st, a[1])
    I.writeloc(st, c, p, concat(v, w))
    I.writeloc(st, c2, p2, EMPTY)
    return [(st, UNIT)]


@model('VecDeque::push_front', 'List::push_front_mut')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    I.writeloc(st, c, p, seq((one(a[1]),) + tuple(parts(v))))
    return [(st, UNIT)]


@model('List::push_front')
def _(I, st, a, cx):
    return [(st, seq((one(a[1]),) + tuple(parts(V(I, st, a[0])))))]


@model('Vec::insert', 'SmallVec::insert', 'VecDeque::insert')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    i = a[1]
    I.writeloc(st, c, p, seq(tuple(parts(slc(v, C(0), i))) + (one(a[2]),) + tuple(parts(slc(v, i, length(v))))))
    return [(st, UNIT)]


@model('Vec::remove', 'SmallVec::remove')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    i = a[1]
    x = at(v, i)
    I.writeloc(st, c, p, seq(tuple(parts(slc(v, C(0), i))) + tuple(parts(slc(v, add(i, C(1)), length(v))))))
    return [(st, x)]


def nonempty(I, st, v):
    return I.branch(st, lt(C(0), length(v)))


@model('Vec::pop', 'SmallVec::pop', 'VecDeque::pop_back', 'BitVec::pop')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    out = []
    for s, b in nonempty(I, st, v):
        if b:
            if v.op == 'SEQ' and v.a and v.a[-1].op == 'ONE':
                x = v.a[-1].a[0]
                I.writeloc(s, c, p, seq(v.a[:-1]))
            else:
                n1 = add(length(v), C(-1))
                x = at(v, n1)
                I.writeloc(s, c, p, slc(v, C(0), n1))
            out.append((s, some(x)))
        else:
            out.append((s, NONE))
    return out


@model('VecDeque::pop_front')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    out = []
    for s, b in nonempty(I, st, v):
        if b:
            x = at(v, C(0))
            I.writeloc(s, c, p, slc(v, C(1), length(v)))
            out.append((s, some(x)))
        else:
            out.append((s, NONE))
    return out


@model('List::drop_first_mut')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    out = []
    for s, b in nonempty(I, st, v):
        if b:
            I.writeloc(s, c, p, slc(v, C(1), length(v)))
        out.append((s, C(b)))
    return out


@model('Vec::clear', 'SmallVec::clear', 'VecDeque::clear', 'String::clear', 'BitVec::clear_')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    I.writeloc(st, c, p, EMPTY)
    return [(st, UNIT)]


@model('BitVec::clear')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    I.writeloc(st, c, p, seq([mk('REP', FALSE, length(v))]))
    return [(st, UNIT)]


@model('Vec::truncate', 'SmallVec::truncate', 'BitVec::truncate')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    out = []
    for s, b in I.branch(st, lt(a[1], length(v))):
        if b:
            I.writeloc(s, c, p, slc(v, C(0), a[1]))
        out.append((s, UNIT))
    return out


@model('Vec::resize', 'SmallVec::resize', 'BitVec::resize')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    out = []
    for s, b in I.branch(st, lt(a[1], length(v))):
        if b:
            I.writeloc(s, c, p, slc(v, C(0), a[1]))
        else:
            d = sub(a[1], length(v))
            I.writeloc(s, c, p, v if d is C(0) else concat(v, seqof([a[2]] * d.a[0]) if isC(d) and d.a[0] <= 8 else seq([mk('REP', a[2], d)])))
        out.append((s, UNIT))
    return out


@model('Vec::split_off')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    I.writeloc(st, c, p, slc(v, C(0), a[1]))
    return [(st, slc(v, a[1], length(v)))]


def rng(I, st, r, n):
    """range value -> (lo, hi)"""
    r = V(I, st, r)
    if r.op == 'ADT':
        k = r.a[0].split('::')[-1]
        f = r.a[2]
        if k == 'Range':
            return f[0], f[1]
        if k == 'RangeFrom':
            return f[0], n
        if k == 'RangeTo':
            return C(0), f[0]
        if k == 'RangeInclusive':
            return f[0], add(f[1], C(1))
        if k == 'RangeToInclusive':
            return C(0), add(f[0], C(1))
        if k == 'RangeFull':
            return C(0), n
    return None


RANGE = 'core::ops::range::Range'


@model('Vec::drain', 'SmallVec::drain', 'VecDeque::drain', 'String::drain')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    r = rng(I, st, a[1], length(v))
    if r is None:
        return NotImplemented
    lo, hi = r
    I.writeloc(st, c, p, seq(tuple(parts(slc(v, C(0), lo))) + tuple(parts(slc(v, hi, length(v))))))
    return [(st, mk('IT', slc(v, lo, hi)))]


@model('Vec::len', '[$T]::len', 'SmallVec::len', 'VecDeque::len', 'str::len', 'String::len', 'BitVec::len', 'BTreeMap::len',
       'HashMap::len', 'BTreeSet::len', 'HashSet::len', 'ExactSizeIterator::len', 'List::len')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    if v.op == 'IT':
        v = v.a[0]
    if v.op in ITOPS:
        return NotImplemented
    es = map_entries(v)
    if es is not None:
        return [(st, C(len(es)))]
    return [(st, length(v))]


@model('Vec::is_empty', '[$T]::is_empty', 'SmallVec::is_empty', 'VecDeque::is_empty', 'str::is_empty', 'String::is_empty',
       'BitVec::is_empty', 'BTreeMap::is_empty', 'HashMap::is_empty', 'BTreeSet::is_empty', 'HashSet::is_empty', 'List::is_empty')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    if v.op == 'MAP0':
        return [(st, TRUE)]
    if v.op == 'MINS':
        return [(st, FALSE)]
    n = length(v)
    return [(st, intish_eq(n, C(0)) if not isC(n) else C(n.a[0] == 0))]


def get(I, st, v, i):
    out = []
    n = length(v)
    if i.op == 'HUGE':
        return [(st, NONE)]
    for s, b in I.branch(st, lt(i, n)):
        out.append((s, some(at(v, i)) if b else NONE))
    return out


@model('[$T]::get', 'Vec::get', 'SmallVec::get', 'VecDeque::get', 'BitVec::get', 'str::get')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    r = rng(I, st, a[1], length(v)) if V(I, st, a[1]).op == 'ADT' else None
    if r:
        lo, hi = r
        out = []
        for s, b in I.branch(st, le(lo, hi)):
            if not b:
                out.append((s, NONE))
                continue
            for s2, b2 in I.branch(s, le(hi, length(v))):
                out.append((s2, some(slc(v, lo, hi)) if b2 else NONE))
        return out
    return get(I, st, v, V(I, st, a[1]))


@model('[$T]::first', 'Vec::first', 'VecDeque::front', 'List::first')
def _(I, st, a, cx):
    return get(I, st, V(I, st, a[0]), C(0))


@model('[$T]::last', 'Vec::last', 'VecDeque::back')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    return [(s, some(last_of(v)) if b else NONE) for s, b in nonempty(I, st, v)]


def last_of(v):
    if v.op == 'SEQ' and v.a and v.a[-1].op == 'ONE':
        return v.a[-1].a[0]
    return at(v, add(length(v), C(-1)))


@model('[$T]::split_first')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    return [(s, some(tup([at(v, C(0)), slc(v, C(1), length(v))])) if b else NONE) for s, b in nonempty(I, st, v)]


@model('[$T]::split_last')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    return [(s, some(tup([last_of(v), slc(v, C(0), add(length(v), C(-1)))])) if b else NONE) for s, b in nonempty(I, st, v)]


@model('[$T]::split_at')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    return [(st, tup([slc(v, C(0), a[1]), slc(v, a[1], length(v))]))]


@model('[$T]::get_mut', '[$T]::last_mut', '[$T]::first_mut', 'Vec::get_mut')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    m = cx.f[2].split('::')[-1]
    i = V(I, st, a[1]) if m == 'get_mut' else (C(0) if m == 'first_mut' else add(length(v), C(-1)))
    cond = lt(i, length(v)) if m == 'get_mut' else lt(C(0), length(v))
    return [(s, some(mk('PTR', c, p + (('i', i),))) if b else NONE) for s, b in I.branch(st, cond)]


@model('Index::index')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    i = V(I, st, a[1])
    ty = cx.targs[0]
    if ty[0] == 'adt' and ty[1].split('::')[-1] in ('BTreeMap', 'HashMap'):
        return [(st, mapval(v, i))]
    if ty[0] == 'adt' and ty[1].endswith('BitMatrix'):
        if i.op == 'TUP':
            return [(st, bit_at(v, i.a[0], i.a[1]))]
        return NotImplemented
    r = rng(I, st, i, length(v)) if i.op == 'ADT' else None
    if r:
        return [(st, slc(v, r[0], r[1]))]
    if i.op == 'ADT':
        return NotImplemented
    rt = cx.targs[1] if len(cx.targs) > 1 else None
    if rt and rt[0] == 'adt' and 'range' in rt[1]:
        return NotImplemented
    return [(st, at(v, i))]


@model('IndexMut::index_mut')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    i = V(I, st, a[1])
    ty = cx.targs[0]
    if ty[0] == 'adt' and ty[1].split('::')[-1] in ('BTreeMap', 'HashMap'):
        return [(st, mk('PTR', c, p + (('key', i),)))]
    r = rng(I, st, i, length(v)) if i.op == 'ADT' else None
    if r:
        return [(st, mk('PTR', c, p + (('ss', r[0], r[1]),)))]
    return [(st, mk('PTR', c, p + (('i', i),)))]


@model('BitVec::set')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    I.writeloc(st, c, p, store(v, a[1], a[2]))
    return [(st, UNIT)]


@model('BitVec::negate')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    lid = ('neg', I.cp(cx.site, 'negate'))
    I.writeloc(st, c, p, seq([mk('COMP', lid, v, (((), (one(neg(elem(lid, v))),)),))]))
    return [(st, UNIT)]


@model('BitVec::grow')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    I.writeloc(st, c, p, seq(parts(v) + (mk('REP', a[2], a[1]),)))
    return [(st, UNIT)]


@model('BitVec::or', 'BitVec::and', 'BitVec::difference', 'BitVec::xor')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    w = V(I, st, a[1])
    I.writeloc(st, c, p, mk('BV' + cx.f[2].split('::')[-1].upper(), v, w))
    ch = mk('BVCHG', cx.f[2].split('::')[-1], v, w)
    return [(st, ch)]


@model('[$T]::reverse')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    I.writeloc(st, c, p, rev(v))
    return [(st, UNIT)]


@model('[$T]::swap')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    x, y = at(v, a[1]), at(v, a[2])
    I.writeloc(st, c, p, store(store(v, a[1], y), a[2], x))
    return [(st, UNIT)]


@model('[$T]::sort', '[$T]::sort_unstable', '[$T]::sort_by', '[$T]::sort_by_key', '[$T]::sort_unstable_by', '[$T]::sort_unstable_by_key')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    l = conc_list(v)
    if l is not None and len(l) <= 1:
        return [(st, UNIT)]
    I.writeloc(st, c, p, mk('SORT', v, a[1] if len(a) > 1 else UNIT))
    return [(st, UNIT)]


@model('Vec::dedup', 'Vec::dedup_by_key', 'Vec::dedup_by', 'SmallVec::dedup', 'SmallVec::dedup_by_key', 'SmallVec::dedup_by')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    l = conc_list(v)
    if l is not None and 1 < len(l) <= 4 and len(a) == 1:
        outs = [(st, l[:1])]
        for x in l[1:]:
            nxt = []
            for s, k in outs:
                for s2, b in I.branch(s, eq(k[-1], x)):
                    nxt.append((s2, k if b else k + [x]))
            outs = nxt
        for s, k in outs:
            I.writeloc(s, c, p, seqof(k))
        return [(s, UNIT) for s, _ in outs]
    if not (v is EMPTY or len(conc_list(v) or ()) == 1):
        I.writeloc(st, c, p, mk('DEDUP', v, a[1] if len(a) > 1 else UNIT))
    return [(st, UNIT)]


@model('[$T]::contains', 'VecDeque::contains', 'SmallVec::contains')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    x = V(I, st, a[1])

    def body(s, e):
        out = []
        for s2, t in eqterm(I, s, e, x):
            out += [(s3, TRUE if b else None) for s3, b in I.branch(s2, t)]
        return out
    res = []
    for k, s, pl in I.each(st, mk('IT', v), body, cx.site, 'contains'):
        res.append((s, C(k == 'exit')))
    return res


@model('[$T]::binary_search', '[$T]::binary_search_by', '[$T]::binary_search_by_key')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    x = V(I, st, a[1])
    if cx.f[2].endswith('binary_search') and (v.op == 'SORT' and v.a[1] is UNIT or len(conc_list(v) or ()) == 1 or v is EMPTY):
        # searching a list sorted in its natural order finds exactly its members

        def body(s, e):
            out = []
            for s2, t in eqterm(I, s, e, x):
                out += [(s3, TRUE if b else None) for s3, b in I.branch(s2, t)]
            return out
        return [(s, adt(RESULT, 0 if k == 'exit' else 1, [mk('BSPOS', v, x)])) for k, s, pl in I.each(st, mk('IT', v.a[0] if v.op == 'SORT' else v), body, cx.site, 'bsearch')]
    lst = conc_list(v)
    if I.decided and lst is not None and len(lst) <= 8 and not cx.f[2].endswith('_key'):
        # a list of known length: the search ends at the first element that is not below
        out = []
        pend = [st]
        for k, e in enumerate(lst):
            nx = []
            for s in pend:
                vs = [(s, mk('CMP', e, x))] if cx.f[2].endswith('binary_search') else I.call_closure(s, a[1], [e], (cx.site, 'bs', k))
                for s2, t in vs:
                    if t.op == 'CMP':
                        for s3, b in I.branch(s2, lt(t.a[0], t.a[1])):
                            if b:
                                nx.append(s3)
                                continue
                            for s4, q in I.branch(s3, eq(t.a[0], t.a[1])):
                                out.append((s4, ok(C(k)) if q else err(C(k))))
                    else:
                        for s3, i in I.split_variant(s2, t, ORDERING):
                            if i == 0:
                                nx.append(s3)
                            else:
                                out.append((s3, ok(C(k)) if i == 1 else err(C(k))))
            pend = nx
        return out + [(s, err(C(len(lst)))) for s in pend]
    r = mk('BSEARCH', v, x)
    St._vp[r] = RESULT
    return [(st, r)]


@model('One::one', 'Zero::zero')
def _(I, st, a, cx):
    # num-traits on a whole-number type (I.decided fixes the type parameters to one)
    return [(st, C(1 if cx.f[2].endswith('one') else 0))] if I.decided and cx.f[2].split('::')[-1] in ('one', 'zero') else NotImplemented


@model('[$T]::partition_point')
def _(I, st, a, cx):
    lst = conc_list(V(I, st, a[0]))
    if not (I.decided and lst is not None and len(lst) <= 8):
        return NotImplemented
    out, pend = [], [st]
    for k, e in enumerate(lst):
        nx = []
        for s in pend:
            for s2, t in I.call_closure(s, a[1], [e], (cx.site, 'pp', k)):
                for s3, b in I.branch(s2, t):
                    if b:
                        nx.append(s3)
                    else:
                        out.append((s3, C(k)))
        pend = nx
    return out + [(s, C(len(lst))) for s in pend]


@model('[$T]::ends_with', '[$T]::starts_with', 'str::starts_with', 'str::ends_with')
def _(I, st, a, cx):
    v, w = V(I, st, a[0]), V(I, st, a[1])
    if v.op == 'S' and w.op == 'S':
        return [(st, C(v.a[0].endswith(w.a[0]) if cx.f[2].endswith('ends_with') else v.a[0].startswith(w.a[0])))]
    return [(st, mk('B:' + cx.f[2].split('::')[-1], v, w))]


@model('[$T]::concat', '[$T]::join_')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    l = conc_list(v)
    if l is None:
        return NotImplemented
    r = EMPTY
    for x in l:
        r = concat(r, x)
    return [(st, r)]


# ---------------------------------------------------------------- iterators
def as_iter(I, st, v):
    """value -> iterator value"""
    if v.op == 'PTR':
        w = I.deref(st, v)
        if w.op in ITOPS:
            return v
        if w.op == 'ADT' and I.find_impl('core::iter::traits::iterator::Iterator', (('adt', w.a[0], ()),), 'next'):
            return v
        return mk('ITMUT', v, C(0))
    if v.op in ITOPS:
        return v
    if v.op == 'ADT':
        k = v.a[0]
        if k == RANGE:
            return mk('IT', rngseq(v.a[2][0], v.a[2][1]))
        if k.endswith('::RangeInclusive'):
            return mk('IT', rngseq(v.a[2][0], add(v.a[2][1], C(1))))
        if k.endswith('::RangeFrom'):
            return mk('IT', mk('INF', 'from', v.a[2][0]))
        if k == OPTION:
            return mk('IT', seqof(v.a[2]))
        b = I.find_impl('core::iter::traits::iterator::Iterator', (('adt', v.a[0], ()),), 'next')
        if b:
            return v
    return mk('IT', v)


def map_entries(v):
    """entries of a map built from nothing by insertions of provably distinct keys, oldest first; else None"""
    if v.op not in ('MINS', 'MAP0'):
        return None
    ks, out = [], []
    while v.op == 'MINS':
        k, x = v.a[1], v.a[2]
        es = [eq(k, y) for y in ks]
        if any(e is not TRUE and e is not FALSE for e in es):
            return None
        if TRUE not in es:
            ks.append(k)
            out.append((k, x))
        v = v.a[0]
    return out[::-1] if v.op == 'MAP0' else None


def groundkey(I, k):
    """the place of a known key among its like, when their order is the derived one"""
    if isC(k):
        return (k.a[0],)
    if k.op == 'S':
        return tuple(k.a[0].encode())
    if k.op == 'ADT' and k.a[0] in ADTS and len(ADTS[k.a[0]]['v']) == 1:
        b = I.find_impl('core::cmp::Ord', (('adt', k.a[0], ()),), 'cmp')
        if b is None or not I.p.fns[b[1]].derived:
            return None
        l = [groundkey(I, x) for x in k.a[2]]
        return tuple(l) if None not in l else None
    return None


def map_iters(I, st, v, ptr=None):
    """iterate a concrete map: one state per order of its keys (the same order every time it is walked)"""
    es = map_entries(v)
    if es is None:
        return None
    gk = [groundkey(I, k) for k, x in es]
    if None not in gk:
        perms = [sorted(range(len(es)), key=lambda i: gk[i])]
    elif len(es) > 4:
        return None
    else:
        perms = list(itertools.permutations(range(len(es))))
    out = []
    for pm in perms:
        prs = [lt2(es[pm[i]][0], es[pm[j]][0]) for i in range(len(pm)) for j in range(i + 1, len(pm))]
        s = st.fork() if len(perms) > 1 else st
        if len(perms) > 1 and not all(s.learn(a, b) for a, b in prs):
            continue
        it = []
        for i in pm:
            k, x = es[i]
            it.append(one(k) if x is UNIT else one(tup([k, x if ptr is None else mk('PTR', ptr.a[0], ptr.a[1] + (('key', k),))])))
        out.append((s, mk('IT', seq(it))))
    return out


def bit_at(m, i, j):
    """a bit of a matrix whose marks are known"""
    k = tup([i, j])
    while m.op == 'MINS':
        e = eq(m.a[1], k)
        if e is TRUE:
            return m.a[2]
        if e is not FALSE:
            break
        m = m.a[0]
    return FALSE if m.op == 'BM0' else mk('BM', m, i, j)


def map_part(I, st, v, i):
    if v.op == 'MAP0':
        return [(st, mk('IT', seqof([])))]
    if v.op != 'MINS' or v.a[2] is UNIT:
        return None
    r = map_iters(I, st, v)
    return r and [(s, mk('IT', seq([one(p.a[0].a[i]) for p in it.a[0].a]))) for s, it in r]


def lt2(a, b):
    """the order of map keys as an atom: (atom, polarity)"""
    return (mk('KLT', a, b), True) if a.n < b.n else (mk('KLT', b, a), False)


def rngseq(lo, hi):
    if isC(lo) and isC(hi):
        n = hi.a[0] - lo.a[0]
        if n <= 0:
            return EMPTY
        if n <= 24:
            return seqof([C(i) for i in range(lo.a[0], hi.a[0])])
    return mk('SEQ', mk('RNG', lo, hi))


@model('IntoIterator::into_iter')
def _(I, st, a, cx):
    v = a[0]
    if v.op == 'PTR':
        ty = cx.targs[0]
        # workspace IntoIterator impls were resolved before; &mut coll -> iter_mut
        w = I.deref(st, v)
        if w.op in ('MINS', 'MAP0'):
            r = map_iters(I, st, w, v if ty[0] == 'ref' and ty[1] else None)
            if r is not None:
                return r
        return [(st, as_iter(I, st, v))]
    if v.op in ('MINS', 'MAP0'):
        r = map_iters(I, st, v)
        if r is not None:
            return r
    if v.op not in ITOPS and cx.targs[0][0] == 'adt' and cx.targs[0][1] == OPTION and v.op != 'ADT':
        return [(s, mk('IT', seqof([x]) if g else EMPTY)) for s, x, g in osplit(I, st, v)]
    return [(st, as_iter(I, st, v))]


@model('[$T]::iter', 'Vec::iter', 'SmallVec::iter', 'VecDeque::iter', 'BTreeMap::iter', 'HashMap::iter', 'BTreeSet::iter',
       'HashSet::iter', 'BitVec::iter', 'List::iter', 'str::bytes', 'Option::iter')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    if cx.f[2].endswith('Option::iter'):
        return [(s, mk('IT', seqof([x]) if g else EMPTY)) for s, x, g in osplit(I, st, v)]
    if v.op in ('MINS', 'MAP0'):
        r = map_iters(I, st, v)
        if r is not None:
            return r
    return [(st, mk('IT', v))]


@model('BTreeMap::iter_mut', 'HashMap::iter_mut')
def _(I, st, a, cx):
    c, p = I.ptr_of(st, a[0])
    r = map_iters(I, st, I.readloc(st, c, p), mk('PTR', c, p))
    return r if r is not None else NotImplemented


@model('str::chars')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    if v.op == 'S':
        return [(st, mk('IT', seqof([C(ord(c)) for c in v.a[0]])))]
    return [(st, mk('IT', mk('CHARS', v)))]


@model('[$T]::iter_mut', 'Vec::iter_mut', 'SmallVec::iter_mut', 'VecDeque::iter_mut')
def _(I, st, a, cx):
    c, p = I.ptr_of(st, a[0])
    lst = conc_list(I.readloc(st, c, p))
    if lst is not None:
        return [(st, mk('IT', seq([one(mk('PTR', c, p + (('i', C(k)),))) for k in range(len(lst))])))]
    return [(st, mk('ITMUT', mk('PTR', c, p), C(0)))]


@model('BTreeMap::values', 'HashMap::values', 'BTreeMap::into_values')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    r = map_part(I, st, v, 1)
    if r is not None:
        return r
    lid = ('vals', I.cp(cx.site, 'values'))
    return [(st, mk('IT', seq([mk('COMP', lid, v, (((), (one(fld(elem(lid, v), '(tuple)', 0, 1)),)),))])))]


@model('BTreeMap::values_mut', 'HashMap::values_mut')
def _(I, st, a, cx):
    c, p = I.ptr_of(st, a[0])
    v = I.readloc(st, c, p)
    lid = ('vals', I.cp(cx.site, 'values_mut'))
    return [(st, mk('IT', seq([mk('COMP', lid, v, (((), (one(mk('PTR', c, p + (('key', fld(elem(lid, v), '(tuple)', 0, 0)),))),)),))])))]


@model('BTreeMap::keys', 'HashMap::keys', 'BTreeMap::into_keys')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    r = map_part(I, st, v, 0)
    if r is not None:
        return r
    lid = ('vals', I.cp(cx.site, 'keys'))
    return [(st, mk('IT', seq([mk('COMP', lid, v, (((), (one(fld(elem(lid, v), '(tuple)', 0, 0)),)),))])))]


@model('Iterator::map')
def _(I, st, a, cx):
    return [(st, mk('ITMAP', as_iter(I, st, a[0]), a[1], I.cp(cx.site, 'm')))]


@model('array::from_fn')
def _(I, st, a, cx):
    n = next((t for t in cx.targs if t[0] in ('const', 'param') and not (t[0] == 'param' and t is cx.targs[0])), None)
    if n is None or n[0] != 'const':
        nn = mk('CPARAM', str(n[1]) if n else 'N')
    else:
        try:
            nn = C(int(str(n[1]).replace('_usize', '')))
        except ValueError:
            nn = mk('CPARAM', n[1])
    it = mk('ITMAP', mk('IT', rngseq(C(0), nn)), a[0], I.cp(cx.site, 'm'))
    return collect_seq(I, st, it, cx.site, 'collect')


@model('Iterator::filter')
def _(I, st, a, cx):
    return [(st, mk('ITFILT', as_iter(I, st, a[0]), a[1], I.cp(cx.site, 'f')))]


@model('Iterator::filter_map')
def _(I, st, a, cx):
    return [(st, mk('ITFM', as_iter(I, st, a[0]), a[1], I.cp(cx.site, 'fm')))]


@model('Iterator::take_while')
def _(I, st, a, cx):
    return [(st, mk('ITTW', as_iter(I, st, a[0]), a[1], I.cp(cx.site, 'tw')))]


@model('Iterator::skip_while')
def _(I, st, a, cx):
    return [(st, mk('ITSW', as_iter(I, st, a[0]), a[1], I.cp(cx.site, 'sw')))]


def endless(it):
    if it.op == 'IT':
        return any(x.op in ('INF', 'INFLEN') for x in subterms(it))
    if it.op == 'ITZIP':
        return endless(it.a[0]) and endless(it.a[1])
    if it.op == 'ITTAKE':
        return False
    if it.op == 'ITCHAIN':
        return endless(it.a[0]) or endless(it.a[1])
    if it.op in ITOPS and it.a and isinstance(it.a[0], T):
        return endless(it.a[0])
    return False


def settle(I, st, it, site, tag):
    """filtering pipelines become the sequence they yield, so that positions count the elements that pass"""
    if it.op in ITOPS and I.filtered(it) and not endless(it) and not any(x.op in ('PTR', 'GIT') for x in subterms(it)):
        return [(s, mk('IT', v)) for s, v in collect_seq(I, st, it, site, tag)]
    return [(st, it)]


@model('Iterator::enumerate')
def _(I, st, a, cx):
    return [(s, mk('ITENUM', it, C(0))) for s, it in settle(I, st, as_iter(I, st, a[0]), cx.site, 'enum')]


@model('Iterator::zip', 'iter::zip')
def _(I, st, a, cx):
    x, y = as_iter(I, st, a[0]), as_iter(I, st, a[1])
    return [(s2, mk('ITZIP', x2, y2)) for s, x2 in settle(I, st, x, cx.site, 'zip0') for s2, y2 in settle(I, s, y, cx.site, 'zip1')]


@model('Iterator::chain')
def _(I, st, a, cx):
    x, y = as_iter(I, st, a[0]), as_iter(I, st, a[1])
    if x.op == 'IT' and y.op == 'IT' and x.a[0].op != 'INF' and y.a[0].op != 'INF':
        return [(st, mk('IT', concat(x.a[0], y.a[0])))]
    # materialise pure pipelines
    out = []
    for s, p in materialise(I, st, x, cx.site, 'c1'):
        if p is None:
            return [(st, mk('ITCHAIN', x, y))]
        for s2, q in materialise(I, s, y, cx.site, 'c2'):
            if q is None:
                return [(st, mk('ITCHAIN', x, y))]
            out.append((s2, mk('IT', concat(p, q))))
    return out


@model('Iterator::rev')
def _(I, st, a, cx):
    return [(st, revit(I, st, as_iter(I, st, a[0])))]


def revit(I, st, it):
    if it.op == 'IT':
        return mk('IT', rev(it.a[0]))
    if it.op in ('ITMAP', 'ITFILT', 'ITFM'):
        return mk(it.op, revit(I, st, it.a[0]), *it.a[1:])
    if it.op == 'ITENUM' and it.a[0].op == 'IT':
        n = length(it.a[0].a[0])
        return mk('ITZIP', mk('IT', rev(rngseq(it.a[1], add(it.a[1], n)))), mk('IT', rev(it.a[0].a[0])))
    return mk('ITREV', it)


@model('Iterator::take')
def _(I, st, a, cx):
    it = as_iter(I, st, a[0])
    n = a[1]
    if it.op == 'PTR':
        w = I.deref(st, it)
        if w.op == 'IT' and w.a[0].op == 'INF':
            return [(st, mk('ITTAKE', it, n))]
        return [(st, mk('ITTAKE', it, n))]
    if it.op == 'IT':
        s = it.a[0]
        if s.op == 'INF':
            if isC(n):
                return [(st, mk('IT', seqof([gsym(s.a[0], add(s.a[1], C(i))) for i in range(n.a[0])])))]
            lid = ('take', I.cp(cx.site, 'take'))
            r = rngseq(C(0), n)
            return [(st, mk('IT', seq([mk('COMP', lid, r, (((), (one(gsym(s.a[0], add(s.a[1], mk('IDX', lid)))),)),))])))]
        if s.op == 'SEQ' and len(s.a) == 1 and s.a[0].op == 'REP' and s.a[0].a[1].op == 'INFLEN':
            return [(st, mk('IT', seq([mk('REP', s.a[0].a[0], n)])))]
        return [(s2, mk('IT', slc(s, C(0), n) if b else s)) for s2, b in I.branch(st, lt(n, length(s)))]
    if it.op in ('ITMAP',):
        out = []
        for s2, x in MODELS['Iterator::take'](I, st, [it.a[0], n], cx):
            out.append((s2, mk('ITMAP', x, it.a[1], it.a[2])))
        return out
    if it.op == 'ITZIP' and not any(x.op in ('GIT', 'PTR') for x in subterms(it)):
        return [(s3, mk('ITZIP', x, y)) for s2, x in MODELS['Iterator::take'](I, st, [it.a[0], n], cx) for s3, y in MODELS['Iterator::take'](I, s2, [it.a[1], n], cx)]
    out = []
    for s, w in settle(I, st, it, cx.site, 'take'):
        if w is not it and w.op == 'IT':
            out.extend(MODELS['Iterator::take'](I, s, [w, n], cx))
        else:
            out.append((s, mk('ITTAKE', it, n)))
    return out


@model('Iterator::skip')
def _(I, st, a, cx):
    it = as_iter(I, st, a[0])
    n = a[1]
    if it.op == 'IT':
        s = it.a[0]
        if s.op == 'INF':
            return [(st, mk('IT', mk('INF', s.a[0], add(s.a[1], n))))]
        return [(s2, mk('IT', slc(s, n, length(s)) if b else EMPTY)) for s2, b in I.branch(st, lt(n, length(s)))]
    if it.op == 'ITMAP':
        return [(s2, mk('ITMAP', x, it.a[1], it.a[2])) for s2, x in MODELS['Iterator::skip'](I, st, [it.a[0], n], cx)]
    if it.op == 'ITENUM':
        return [(s2, mk('ITENUM', x, add(it.a[1], n))) for s2, x in MODELS['Iterator::skip'](I, st, [it.a[0], n], cx)]
    if it.op == 'ITZIP' and not any(x.op in ('GIT', 'PTR') for x in subterms(it)):
        return [(s3, mk('ITZIP', x, y)) for s2, x in MODELS['Iterator::skip'](I, st, [it.a[0], n], cx) for s3, y in MODELS['Iterator::skip'](I, s2, [it.a[1], n], cx)]
    out = []
    for s, w in settle(I, st, it, cx.site, 'skip'):
        if w is it or w.op != 'IT':
            raise Decline()
        out.extend(MODELS['Iterator::skip'](I, s, [w, n], cx))
    return out


@model('Iterator::copied', 'Iterator::cloned', 'Iterator::fuse', 'Iterator::inspect_', 'Iterator::peekable_')
def _(I, st, a, cx):
    return [(st, as_iter(I, st, a[0]))]


@model('Iterator::flatten')
def _(I, st, a, cx):
    return [(st, mk('ITFLAT', as_iter(I, st, a[0])))]


@model('Iterator::flat_map')
def _(I, st, a, cx):
    return [(st, mk('ITFLAT', mk('ITMAP', as_iter(I, st, a[0]), a[1], I.cp(cx.site, 'fmap'))))]


@model('once::once', 'iter::once')
def _(I, st, a, cx):
    return [(st, mk('IT', seqof([a[0]])))]


@model('empty::empty', 'iter::empty')
def _(I, st, a, cx):
    return [(st, mk('IT', EMPTY))]


@model('repeat::repeat', 'iter::repeat')
def _(I, st, a, cx):
    return [(st, mk('IT', mk('SEQ', mk('REP', a[0], mk('INFLEN')))))]


@model('repeat_n::repeat_n', 'iter::repeat_n')
def _(I, st, a, cx):
    return [(st, mk('IT', seq([mk('REP', a[0], a[1])])))]


@model('Iterator::next')
def _(I, st, a, cx):
    if a[0].op == 'PTR':
        # ranges are iterators in place
        v = I.readloc(st, a[0].a[0], a[0].a[1])
        if v.op == 'ADT' and v.a[0].startswith('core::ops::range'):
            I.writeloc(st, a[0].a[0], a[0].a[1], as_iter(I, st, v))
        return I.next_at(st, a[0].a[0], a[0].a[1], cx.site)
    c, p = I.ptr_of(st, a[0])
    return I.next_at(st, c, p, cx.site)


@model('DoubleEndedIterator::next_back')
def _(I, st, a, cx):
    if a[0].op != 'PTR':
        return NotImplemented
    it = I.readloc(st, a[0].a[0], a[0].a[1])
    if it.op == 'ITFILT' and it.a[0].op == 'IT' and conc_list(it.a[0].a[0]) is not None:
        # last element that passes the filter
        out, todo = [], [st]
        cell, path = a[0].a
        while todo:
            s = todo.pop()
            cur = I.readloc(s, cell, path)
            lst = conc_list(cur.a[0].a[0])
            if not lst:
                out.append((s, NONE))
                continue
            x = lst[-1]
            I.writeloc(s, cell, path + (('it', 0),), mk('IT', seq([one(v) for v in lst[:-1]])))
            for s2, y in I.call_closure(s, cur.a[1], [x], (cx.site, 'ITFILT', cur.a[2])):
                for s3, b in I.branch(s2, y):
                    if b:
                        out.append((s3, some(x)))
                    else:
                        todo.append(s3)
        return out
    if it.op == 'IT':
        s = it.a[0]
        out = []
        for s2, b in nonempty(I, st, s):
            if b:
                I.writeloc(s2, a[0].a[0], a[0].a[1], mk('IT', slc(s, C(0), add(length(s), C(-1)))))
                out.append((s2, some(last_of(s))))
            else:
                out.append((s2, NONE))
        return out
    return NotImplemented


def collect_seq(I, st, it, site, tag):
    """-> [(st, seq)]"""
    if it.op == 'IT' and it.a[0].op != 'INF':
        return [(st, it.a[0])]
    acc = ('acc', I.cp(site, 'acc', tag))
    st.cells[acc] = EMPTY

    def body(s, e):
        s.cells[acc] = seq(parts(s.cells[acc]) + (one(e),))
        return [(s, None)]
    out = []
    for k, s, pl in I.each(st, it, body, site, tag):
        v = s.cells.pop(acc)
        out.append((s, v))
    return out


def materialise(I, st, it, site, tag):
    if it.op == 'IT':
        if it.a[0].op == 'INF':
            return [(st, None)]
        return [(st, it.a[0])]
    if it.op in ('ITMAP', 'ITFILT', 'ITFM', 'ITENUM', 'ITZIP', 'ITTAKE'):
        return collect_seq(I, st, it, site, tag)
    return [(st, None)]


@model('Iterator::collect', 'FromIterator::from_iter', 'Vec::from_iter', 'BTreeMap::from_iter')
def _(I, st, a, cx):
    it = as_iter(I, st, a[0])
    dst = cx.targs[-1] if cx.f[5] == 'collect' else cx.targs[0]
    dn = dst[1].split('::')[-1] if dst[0] == 'adt' else ''
    if dn in ('Result', 'Option'):
        return collect_try(I, st, it, cx, dn)
    if dst[0] == 'adt':
        b = I.find_impl('core::iter::traits::collect::FromIterator', (dst,), 'from_iter')
        if b and cx.f[5] == 'collect':
            return I.call_fn(I.p.fns[b[1]], [it], dict(b[2]), st, (cx.site, 'from_iter'))
    out = []
    for s, v in collect_seq(I, st, it, cx.site, 'collect'):
        if dn in ('BTreeMap', 'HashMap', 'BTreeSet', 'HashSet', 'IndexMap'):
            ps = parts(v)
            if dn in ('BTreeMap', 'HashMap') and all(p.op == 'ONE' and p.a[0].op == 'TUP' and len(p.a[0].a) == 2 for p in ps):
                v = mk('MAP0')
                for p in ps:
                    v = mapins(v, p.a[0].a[0], p.a[0].a[1])
            else:
                v = mk('MAPOF', v)
        if dn == 'String':
            v = textual(v)
        out.append((s, v))
    return out


def textual(v):
    """pieces collected into a string are concatenated"""
    def piece(q):
        if q.op == 'ONE' and q.a[0].op in ('SEQ', 'S', 'DISP'):
            return mk('ALL', q.a[0])
        if q.op == 'COMP':
            L, src, cases = q.a
            return mk('COMP', L, src, tuple((c, seq([piece(z) for z in i]).a if seq([piece(z) for z in i]).op == 'SEQ' else (mk('ALL', seq([piece(z) for z in i])),)) for c, i in cases))
        return q
    return seq([piece(q) for q in parts(v)])


def collect_try(I, st, it, cx, dn):
    path, good = (RESULT, 0) if dn == 'Result' else (OPTION, 1)
    acc = ('acc', I.cp(cx.site, 'acc', 'try'))
    st.cells[acc] = EMPTY

    def body(s, e):
        out = []
        for s2, x, g in osplit(I, s, e, path, good):
            if g:
                s2.cells[acc] = seq(parts(s2.cells[acc]) + (one(x),))
                out.append((s2, None))
            else:
                out.append((s2, err(x) if dn == 'Result' else NONE))
        return out
    out = []
    for k, s, pl in I.each(st, it, body, cx.site, 'collect'):
        v = s.cells.pop(acc)
        if k == 'done':
            out.append((s, ok(v) if dn == 'Result' else some(v)))
        else:
            out.append((s, pl))
    return out


@model('Extend::extend', 'Vec::extend', 'SmallVec::extend')
def _(I, st, a, cx):
    c, p = I.ptr_of(st, a[0])
    ty = cx.targs[0]
    dn = ty[1].split('::')[-1] if ty[0] == 'adt' else ''
    it = as_iter(I, st, a[1])
    if dn in ('BTreeMap', 'HashMap', 'BTreeSet', 'HashSet'):
        def body(s, e):
            m = I.readloc(s, c, p)
            if dn.endswith('Map'):
                I.writeloc(s, c, p, mapins(m, fld(e, '(tuple)', 0, 0), fld(e, '(tuple)', 0, 1)))
            else:
                I.writeloc(s, c, p, mapins(m, e, UNIT))
            return [(s, None)]
    elif it.op == 'IT' and it.a[0].op != 'INF':
        I.writeloc(st, c, p, concat(I.readloc(st, c, p), it.a[0]))
        return [(st, UNIT)]
    else:
        def body(s, e):
            I.writeloc(s, c, p, seq(parts(I.readloc(s, c, p)) + (one(e),)))
            return [(s, None)]
    return [(s, UNIT) for k, s, pl in I.each(st, it, body, cx.site, 'extend')]


@model('Iterator::for_each')
def _(I, st, a, cx):
    def body(s, e):
        return [(s2, None) for s2, _ in I.call_closure(s, a[1], [e], (cx.site, 'fe'))]
    return [(s, UNIT) for k, s, pl in I.each(st, as_iter(I, st, a[0]), body, cx.site, 'for_each')]


@model('Vec::retain', 'Vec::retain_mut', 'SmallVec::retain', 'VecDeque::retain')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    acc = ('acc', I.cp(cx.site, 'acc', 'retain'))
    st.cells[acc] = EMPTY

    def body(s, e):
        out = []
        for s2, t in I.call_closure(s, a[1], [e], (cx.site, 'retain')):
            for s3, b in I.branch(s2, t):
                if b:
                    s3.cells[acc] = seq(parts(s3.cells[acc]) + (one(e),))
                out.append((s3, None))
        return out
    out = []
    for k, s, pl in I.each(st, mk('IT', v), body, cx.site, 'retain'):
        w = s.cells.pop(acc)
        I.writeloc(s, c, p, w)
        out.append((s, UNIT))
    return out


def quant(I, st, a, cx, stop, yes, no, tag):
    """stop: bool value of the predicate on which iteration stops"""
    it = a[0]
    it = I.deref(st, it) if it.op == 'PTR' and I.deref(st, it).op in ITOPS else as_iter(I, st, it)

    def body(s, e):
        out = []
        for s2, t in I.call_closure(s, a[1], [e], (cx.site, tag)):
            for s3, b in I.branch(s2, t):
                out.append((s3, (yes(s3, e) if b == stop else None)))
        return out
    res = []
    for k, s, pl in I.each(st, it, body, cx.site, tag):
        res.append((s, pl if k == 'exit' else no))
    return res


@model('Iterator::all')
def _(I, st, a, cx):
    return quant(I, st, a, cx, False, lambda s, e: FALSE, TRUE, 'all')


@model('Iterator::any')
def _(I, st, a, cx):
    return quant(I, st, a, cx, True, lambda s, e: TRUE, FALSE, 'any')


@model('Iterator::find')
def _(I, st, a, cx):
    return quant(I, st, a, cx, True, lambda s, e: some(e), NONE, 'find')


@model('Iterator::position')
def _(I, st, a, cx):
    it = a[0]
    it = I.deref(st, it) if it.op == 'PTR' and I.deref(st, it).op in ITOPS else as_iter(I, st, it)
    return posn(I, st, it, a[1], cx, 'position', lambda i: i)


@model('Iterator::rposition')
def _(I, st, a, cx):
    it = as_iter(I, st, a[0])
    if it.op != 'IT':
        raise Decline()
    n = length(it.a[0])
    return posn(I, st, mk('IT', rev(it.a[0])), a[1], cx, 'rposition', lambda i: sub(sub(n, C(1)), i))


def posn(I, st, it, pred, cx, tag, ix):
    def body(s, e):
        out = []
        for s2, t in I.call_closure(s, pred, [fld(e, '(tuple)', 0, 1)], (cx.site, tag)):
            for s3, b in I.branch(s2, t):
                out.append((s3, some(ix(fld(e, '(tuple)', 0, 0))) if b else None))
        return out
    return [(s, pl if k == 'exit' else NONE) for k, s, pl in I.each(st, mk('ITENUM', it, C(0)), body, cx.site, tag)]


@model('Iterator::find_map')
def _(I, st, a, cx):
    it = as_iter(I, st, a[0])

    def body(s, e):
        out = []
        for s2, t in I.call_closure(s, a[1], [e], (cx.site, 'fmap')):
            for s3, x, g in osplit(I, s2, t):
                out.append((s3, some(x) if g else None))
        return out
    return [(s, pl if k == 'exit' else NONE) for k, s, pl in I.each(st, it, body, cx.site, 'find_map')]


@model('Iterator::count')
def _(I, st, a, cx):
    it = as_iter(I, st, a[0])
    return [(s, length(v)) for s, v in collect_seq(I, st, it, cx.site, 'count')]


@model('Iterator::last')
def _(I, st, a, cx):
    it = as_iter(I, st, a[0])
    out = []
    for s, v in collect_seq(I, st, it, cx.site, 'last'):
        out += [(s2, some(last_of(v)) if b else NONE) for s2, b in nonempty(I, s, v)]
    return out


@model('Iterator::nth')
def _(I, st, a, cx):
    if a[0].op != 'PTR':
        return NotImplemented
    it = I.readloc(st, a[0].a[0], a[0].a[1])
    if it.op == 'IT' and it.a[0].op != 'INF':
        s = it.a[0]
        out = []
        for s2, b in I.branch(st, lt(a[1], length(s))):
            if b:
                I.writeloc(s2, a[0].a[0], a[0].a[1], mk('IT', slc(s, add(a[1], C(1)), length(s))))
                out.append((s2, some(at(s, a[1]))))
            else:
                I.writeloc(s2, a[0].a[0], a[0].a[1], mk('IT', EMPTY))
                out.append((s2, NONE))
        return out
    return NotImplemented


def folded(I, st, it, init, f, cx, tag, brk=None):
    acc = ('acc', I.cp(cx.site, 'acc', tag))
    st.cells[acc] = init

    def body(s, e):
        out = []
        for s2, y in f(s, s.cells[acc], e):
            if brk:
                for s3, z, g in osplit(I, s2, y, brk[0], brk[1]):
                    if g:
                        s3.cells[acc] = z
                        out.append((s3, None))
                    else:
                        out.append((s3, NONE if brk[0] == OPTION else err(z)))
            else:
                s2.cells[acc] = y
                out.append((s2, None))
        return out
    res = []
    for k, s, pl in I.each(st, it, body, cx.site, tag):
        v = s.cells.pop(acc)
        res.append((k, s, pl if k == 'exit' else v))
    return res


@model('Iterator::fold')
def _(I, st, a, cx):
    it = as_iter(I, st, a[0])
    return [(s, v) for k, s, v in folded(I, st, it, a[1], lambda s, x, e: I.call_closure(s, a[2], [x, e], (cx.site, 'fold')), cx, 'fold')]


@model('Iterator::try_fold')
def _(I, st, a, cx):
    it = a[0]
    it = I.deref(st, it) if it.op == 'PTR' else as_iter(I, st, it)
    rt = cx.targs[-1]
    path, good = (OPTION, 1)
    if rt[0] == 'adt' and rt[1] == RESULT:
        path, good = RESULT, 0
    out = []
    for k, s, v in folded(I, st, it, a[1], lambda s, x, e: I.call_closure(s, a[2], [x, e], (cx.site, 'tf')), cx, 'try_fold', (path, good)):
        out.append((s, v if k == 'exit' else adt(path, good, (v,))))
    return out


@model('Iterator::sum', 'Iterator::product', 'Iterator::max', 'Iterator::min', 'Iterator::max_by_key', 'Iterator::min_by_key',
       'Iterator::max_by', 'Iterator::min_by')
def _(I, st, a, cx):
    it = as_iter(I, st, a[0])
    m = cx.f[5]
    out = []
    if m == 'sum':
        rt = cx.targs[-1] if cx.targs else ('?',)
        path = rt[1] if rt[0] == 'adt' and rt[1] in (OPTION, RESULT) else None
        if path:
            good = 1 if path == OPTION else 0

            def f(s, x, e):
                r = []
                for s2, z, g in osplit(I, s, e, path, good):
                    r.append((s2, adt(path, good, (add(x, z),)) if g else (NONE if path == OPTION else err(z))))
                return r
            for k, s, v in folded(I, st, it, C(0), f, cx, 'sum', (path, good)):
                out.append((s, v if k == 'exit' else adt(path, good, (v,))))
            return out
        if not (rt[0] == 'f64' or rt[0] == 'float'):
            return [(s, v) for k, s, v in folded(I, st, it, C(0), lambda s, x, e: [(s, add(x, I.deref_deep(s, e)))], cx, 'sum')]
    for s, v in collect_seq(I, st, it, cx.site, m):
        r = mk(m.upper(), v, *[x for x in a[1:]])
        if m in ('sum', 'product'):
            l = conc_list(v)
            if l is not None and m == 'sum':
                r = C(0)
                for x in l:
                    r = add(r, x)
        else:
            St._vp[r] = OPTION
        out.append((s, r))
    return out


@model('Iterator::size_hint')
def _(I, st, a, cx):
    return [(st, tup([mk('SIZEHINT', I.deref_deep(st, a[0])), NONE]))]


# ---------------------------------------------------------------- maps and sets
@model('BTreeMap::new', 'HashMap::new', 'BTreeSet::new', 'HashSet::new', 'HashMap::with_capacity', 'HashSet::with_capacity')
def _(I, st, a, cx):
    return [(st, mk('MAP0'))]


@model('BTreeMap::clear', 'HashMap::clear', 'BTreeSet::clear', 'HashSet::clear')
def _(I, st, a, cx):
    c, p = I.ptr_of(st, a[0])
    I.writeloc(st, c, p, mk('MAP0'))
    return [(st, UNIT)]


@model('BTreeMap::insert', 'HashMap::insert')
def _(I, st, a, cx):
    c, p, m = seqloc(I, st, a[0])
    out = []
    h = maphas(m, a[1])
    old = mk('MOLD', m, a[1])
    St._vp[old] = OPTION
    I.writeloc(st, c, p, mapins(m, a[1], a[2]))
    return [(st, NONE if h is FALSE else some(mapval(m, a[1])) if h is TRUE else old)]


@model('BTreeSet::insert', 'HashSet::insert')
def _(I, st, a, cx):
    c, p, m = seqloc(I, st, a[0])
    h = maphas(m, a[1])
    I.writeloc(st, c, p, mapins(m, a[1], UNIT))
    return [(st, neg(h))]


@model('BTreeMap::remove', 'HashMap::remove', 'BTreeSet::remove', 'HashSet::remove')
def _(I, st, a, cx):
    c, p, m = seqloc(I, st, a[0])
    k = V(I, st, a[1])
    out = []
    isset = 'Set' in cx.f[2]
    for s, b in I.branch(st, maphas(m, k)):
        if b:
            I.writeloc(s, c, p, mk('MREM', m, k))
            out.append((s, TRUE if isset else some(mapval(m, k))))
        else:
            out.append((s, FALSE if isset else NONE))
    return out


@model('BTreeMap::contains_key', 'HashMap::contains_key', 'BTreeSet::contains', 'HashSet::contains')
def _(I, st, a, cx):
    return [(st, maphas(V(I, st, a[0]), V(I, st, a[1])))]


@model('BTreeMap::get', 'HashMap::get')
def _(I, st, a, cx):
    m, k = V(I, st, a[0]), V(I, st, a[1])
    return [(s, some(mapval(m, k)) if b else NONE) for s, b in I.branch(st, maphas(m, k))]


@model('BTreeMap::get_mut', 'HashMap::get_mut')
def _(I, st, a, cx):
    c, p, m = seqloc(I, st, a[0])
    k = V(I, st, a[1])
    return [(s, some(mk('PTR', c, p + (('key', k),))) if b else NONE) for s, b in I.branch(st, maphas(m, k))]


HENTRY = 'std::collections::hash::map::'
BENTRY = 'alloc::collections::btree::map::entry::'


@model('BTreeMap::entry', 'HashMap::entry')
def _(I, st, a, cx):
    c, p = I.ptr_of(st, a[0])
    m = I.readloc(st, c, p)
    k = I.deref_deep(st, a[1])
    e = mk('ENTRY', mk('PTR', c, p), k)
    out = []
    h = 'HashMap' in cx.f[2]
    for s, b in I.branch(st, maphas(m, k)):
        out.append((s, mk('ADT', (HENTRY if h else BENTRY) + 'Entry', (0 if h else 1) if b else (1 if h else 0), (e,))))
    return out


def entry_of(e):
    """(entry, present?)"""
    if e.op == 'ADT' and e.a[0] in (HENTRY + 'Entry', BENTRY + 'Entry'):
        return e.a[2][0], e.a[1] == (0 if e.a[0].startswith(HENTRY) else 1)
    return None, None


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def _(I, st, a, cx):
    e, b = entry_of(a[0])
    if e is None or e.op != 'ENTRY':
        return NotImplemented
    ptr, k = e.a
    c, p = ptr.a
    r = mk('PTR', c, p + (('key', k),))
    if b:
        return [(st, r)]
    meth = cx.f[2].split('::')[-1]
    s = st
    if meth == 'or_insert':
        ds = [(s, a[1])]
    elif meth == 'or_insert_with':
        ds = I.call_closure(s, a[1], [], (cx.site, 'oiw'))
    else:
        d = default_of(I, s, cx.targs[-1] if cx.targs[-1][0] != 'adt' or not cx.targs[-1][1].endswith('Global') else cx.targs[1], cx.site)
        ds = [(s, d if d is not None else mk('DEFAULT', cx.targs[-1]))]
    out = []
    for s2, d in ds:
        cur = I.readloc(s2, c, p)
        I.writeloc(s2, c, p, mk('MINS', cur, k, d))
        out.append((s2, r))
    return out


@model('VacantEntry::insert')
def _(I, st, a, cx):
    e = a[0]
    if e.op != 'ENTRY':
        return NotImplemented
    ptr, k = e.a
    c, p = ptr.a
    I.writeloc(st, c, p, mk('MINS', I.readloc(st, c, p), k, a[1]))
    return [(st, mk('PTR', c, p + (('key', k),)))]


@model('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def _(I, st, a, cx):
    e = V(I, st, a[0])
    if e.op != 'ENTRY':
        return NotImplemented
    ptr, k = e.a
    c, p = ptr.a
    return [(st, mk('PTR', c, p + (('key', k),)))]


@model('OccupiedEntry::key', 'VacantEntry::key', 'Entry::key')
def _(I, st, a, cx):
    e = V(I, st, a[0])
    e = entry_of(e)[0] or e
    if e.op != 'ENTRY':
        return NotImplemented
    return [(st, e.a[1])]


# ---------------------------------------------------------------- misc std
@model('Range::contains')
def _(I, st, a, cx):
    r, x = V(I, st, a[0]), V(I, st, a[1])
    lo, hi = fld(r, RANGE, 0, 0), fld(r, RANGE, 0, 1)
    out = []
    for s, b in I.branch(st, le(lo, x)):
        if b:
            out += [(s2, C(b2)) for s2, b2 in I.branch(s, lt(x, hi))]
        else:
            out.append((s, FALSE))
    return out


@model('RangeInclusive::contains')
def _(I, st, a, cx):
    r, x = V(I, st, a[0]), V(I, st, a[1])
    if r.op != 'ADT':
        return NotImplemented
    lo, hi = r.a[2][0], r.a[2][1]
    out = []
    for s, b in I.branch(st, le(lo, x)):
        if b:
            out += [(s2, C(b2)) for s2, b2 in I.branch(s, le(x, hi))]
        else:
            out.append((s, FALSE))
    return out


@model('RangeInclusive::new')
def _(I, st, a, cx):
    return [(st, mk('ADT', 'core::ops::range::RangeInclusive', 0, (a[0], a[1], FALSE)))]


BOUND = 'core::ops::range::Bound'


@model('RangeBounds::start_bound', 'RangeBounds::end_bound')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    m = cx.f[5] or cx.f[2].split('::')[-1]
    if v.op == 'ADT':
        k = v.a[0].split('::')[-1]
        f = v.a[2]
        tab = {'Range': (mk('ADT', BOUND, 0, (f[0],)) if f else None, mk('ADT', BOUND, 1, (f[1],)) if len(f) > 1 else None),
               'RangeFrom': (mk('ADT', BOUND, 0, (f[0],)) if f else None, mk('ADT', BOUND, 2, ())),
               'RangeTo': (mk('ADT', BOUND, 2, ()), mk('ADT', BOUND, 1, (f[0],)) if f else None),
               'RangeInclusive': (mk('ADT', BOUND, 0, (f[0],)) if f else None, mk('ADT', BOUND, 0, (f[1],)) if len(f) > 1 else None),
               'RangeFull': (mk('ADT', BOUND, 2, ()), mk('ADT', BOUND, 2, ()))}
        if k in tab:
            return [(st, tab[k][0 if m == 'start_bound' else 1])]
    if v.op == 'TUP':
        return [(st, v.a[0 if m == 'start_bound' else 1])]
    r = mk('BND', m, v)
    St._vp[r] = BOUND
    return [(st, r)]


@model('log::max_level')
def _(I, st, a, cx):
    return [(st, mk('ADT', 'log::LevelFilter', 0, ()))]


@model('Arguments::new', 'Arguments::from_str', 'Arguments::new_const', 'Arguments::new_v1')
def _(I, st, a, cx):
    return [(st, mk('FMT', *[I.deref_deep(st, x) for x in a]))]


@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex')
def _(I, st, a, cx):
    v = I.deref_deep(st, a[0])
    ty = cx.targs[0] if cx.targs else None
    return [(st, mk('FARG', cx.f[2].split('::')[-1], display(v, ty) if cx.f[2].endswith('new_display') else mk('DBG', v)))]


def uncow(v):
    while v.op == 'ADT' and v.a[0].endswith('::Cow') and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


def display(v, ty):
    """text of a displayed value, as a sequence"""
    v = uncow(v)
    while ty and ty[0] == 'ref':
        ty = ty[2]
    if v.op in ('S', 'SEQ', 'DISP'):
        return v
    if ty and (ty == ('prim', 'str') or (ty[0] == 'adt' and ty[1].split('::')[-1] in ('String', 'Cow', 'SymbolName', 'Rc', 'Box'))):
        return v
    if ty and ty == ('prim', 'char'):
        return seqof([v])
    return mk('DISP', v)


def decode_template(lit):
    import ast
    try:
        b = ast.literal_eval(lit.replace('\\0', '\\x00'))
    except Exception:
        return None
    out = []
    i = 0
    arg = 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(('lit', b[i:i + c].decode('utf8', 'replace')))
            i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(('lit', b[i:i + n].decode('utf8', 'replace')))
            i += n
        else:
            spec = c & 0x3f
            ix = arg
            opts = b''
            if spec & 1:
                opts += b[i:i + 4]
                i += 4
            if spec & 2:
                opts += b[i:i + 2]
                i += 2
            if spec & 4:
                opts += b[i:i + 2]
                i += 2
            if spec & 8:
                ix = b[i] | b[i + 1] << 8
                i += 2
            arg = ix + 1
            out.append(('arg', ix, opts))
    return out


def render(f):
    """text denoted by format arguments"""
    if f.op != 'FMT':
        return mk('STRF', f)
    t = f.a[0]
    if t.op == 'S' and len(f.a) == 1:
        return t
    if t.op == 'KONST' and isinstance(t.a[0], str) and t.a[0].startswith('b"') and len(f.a) == 2:
        d = decode_template(t.a[0])
        args = conc_list(f.a[1])
        if d is not None and args is not None:
            ps = []
            for x in d:
                if x[0] == 'lit':
                    ps.append(mk('ALL', mk('S', x[1])))
                elif x[1] < len(args) and args[x[1]].op == 'FARG':
                    v = args[x[1]].a[1]
                    if x[2]:
                        v = mk('FOPT', x[2], v)
                    ps.append(mk('ALL', v))
                else:
                    return mk('STRF', f)
            return seq(ps)
    return mk('STRF', f)


@model('fmt::format')
def _(I, st, a, cx):
    return [(st, render(I.deref_deep(st, a[0])))]


@model('ToString::to_string')
def _(I, st, a, cx):
    return [(st, display(I.deref_deep(st, a[0]), cx.targs[0]))]


@model('Write::write_fmt', 'Formatter::write_fmt', 'Write::write_str', 'Formatter::write_str')
def _(I, st, a, cx):
    if a[0].op == 'PTR':
        c, p = a[0].a
        v = I.readloc(st, c, p)
        x = I.deref_deep(st, a[1])
        w = render(x) if x.op == 'FMT' else x
        I.writeloc(st, c, p, seq(tuple(parts(v)) + (mk('ALL', w),)))
    return [(st, ok(UNIT))]


@model('Write::write_char', 'Formatter::write_char')
def _(I, st, a, cx):
    if a[0].op == 'PTR':
        c, p = a[0].a
        v = I.readloc(st, c, p)
        I.writeloc(st, c, p, seq(tuple(parts(v)) + (one(V(I, st, a[1])),)))
    return [(st, ok(UNIT))]


@model('AddAssign::add_assign')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    w = V(I, st, a[1])
    ty = cx.targs[0]
    if ty[0] == 'adt' and ty[1].endswith('String'):
        I.writeloc(st, c, p, concat(v, w))
    elif ty == ('prim', 'f64'):
        I.writeloc(st, c, p, mk('FAdd', v, w))
    else:
        I.writeloc(st, c, p, add(v, w))
    return [(st, UNIT)]


@model('BitOrAssign::bitor_assign')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    out = []
    for s, b in I.branch(st, v):
        I.writeloc(s, c, p, TRUE if b else V(I, s, a[1]))
        out.append((s, UNIT))
    return out


@model('Vec::reserve', 'SmallVec::reserve', 'Vec::shrink_to_fit', 'String::reserve', 'Vec::reserve_exact')
def _(I, st, a, cx):
    return [(st, UNIT)]


@model('Clone::clone_from')
def _(I, st, a, cx):
    c, p = I.ptr_of(st, a[0])
    I.writeloc(st, c, p, V(I, st, a[1]))
    return [(st, UNIT)]


@model('panicking::panic', 'panicking::panic_fmt', 'panicking::assert_failed', 'panicking::unreachable_default_msg',
       'panicking::unimplemented_default_msg', 'panicking::panic_display', 'panicking::panic_explicit')
def _(I, st, a, cx):
    return []


@model('Grammar::rule_', 'char::from_u32')
def _(I, st, a, cx):
    v = a[0]
    r = mk('FROMU32', v)
    St._vp[r] = OPTION
    return [(st, r)]


# ---------------------------------------------------------------- bit matrix
@model('BitMatrix::new')
def _(I, st, a, cx):
    return [(st, mk('BM0', a[0], a[1]))]


@model('BitMatrix::set')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    I.writeloc(st, c, p, mk('MINS', v, tup([a[1], a[2]]), a[3]))
    return [(st, UNIT)]


@model('BitMatrix::transitive_closure', 'BitMatrix::reflexive_closure')
def _(I, st, a, cx):
    c, p, v = seqloc(I, st, a[0])
    I.writeloc(st, c, p, mk('TCL' if 'transitive' in cx.f[2] else 'RCL', v))
    return [(st, UNIT)]


@model('BitMatrix::size')
def _(I, st, a, cx):
    return [(st, mk('BMSIZE', V(I, st, a[0])))]


@model('BitMatrix::iter_row')
def _(I, st, a, cx):
    return [(st, mk('IT', mk('BMROW', V(I, st, a[0]), a[1])))]


def fallback(I, st, name, vs, cx):
    return NotImplemented


@model('usize::next_power_of_two', 'u32::next_power_of_two', 'u64::next_power_of_two')
def _(I, st, a, cx):
    v = V(I, st, a[0])
    if isC(v) and isinstance(v.a[0], int) and v.a[0] < 1 << 31:
        n = 1
        while n < v.a[0]:
            n *= 2
        return [(st, C(n))]
    t = mk('CALL', 'next_power_of_two', v)
    NONNEG.add(t)
    return [(st, t)]
