"""Models of the library operations the analysed code is built from.

A model takes (interp, state, callee, args, argument types) and returns a list
of (state, value); None means 'no model' and 'dead' a path that panics.
"""
import re
from terms import *
from program import UNIT

OPT = 'std::option::Option'
RES = 'std::result::Result'
ORD = 'std::cmp::Ordering'
NONE = ('en', OPT, 'None', ())

MODELS = {}
_cache = {}


def strip_generics(p):
    """Remove ::<...> and <...> generic argument lists."""
    out = []
    depth = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            depth += 1
        elif c == '>' and not (i and p[i - 1] == '-'):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out).replace('::::', '::').rstrip(':').replace('::::', '::')


def split_as(p):
    """'<T as Trait>::m' -> (T, Trait, m);  'a::<impl Trait for T>::m' likewise."""
    m = re.match(r"^.*?<impl (.+) for (.+)>::(\w+)$", p)
    if m and not p.startswith('<'):
        return m.group(2), m.group(1), m.group(3)
    if p.startswith('<'):
        depth = 0
        for i, c in enumerate(p):
            if c == '<':
                depth += 1
            elif c == '>' and p[i - 1] != '-':
                depth -= 1
                if depth == 0:
                    inner, rest = p[1:i], p[i + 1:]
                    d = 0
                    for j in range(len(inner)):
                        if inner[j] == '<':
                            d += 1
                        elif inner[j] == '>':
                            d -= 1
                        elif d == 0 and inner.startswith(' as ', j):
                            return inner[:j], inner[j + 4:], rest.split('::')[-1]
                    return inner, None, rest.split('::')[-1]
    return None


def head(ty):
    ty = ty.strip()
    ty = re.sub(r"^&('\w+ )?(mut )?", '&', ty)
    if ty.startswith('['):
        return '[]'
    if ty.startswith('&['):
        return '&[]'
    return re.sub(r"<.*$", '', ty)


def keys_of(callee):
    p = callee.get('rpath') or callee['path']
    k = _cache.get((p, callee['path']))
    if k is not None:
        return k
    ks = []
    sp = split_as(p)
    if sp:
        ty, tr, m = sp
        if tr:
            trp = re.sub(r"<.*$", '', tr)
            ks.append('%s as %s::%s' % (head(ty), trp, m))
            ks.append('* as %s::%s' % (trp, m))
        else:
            ks.append('%s::%s' % (head(ty), m))
    m = re.match(r"^(.*?)::<impl ([^>]*(?:<.*>)?)>::(\w+)$", p)
    if m and ' for ' not in m.group(2):
        ks.append('%s::%s' % (head(m.group(2)), m.group(3)))
    elif m and m.group(2).count(' for ') == 1:
        tr, ty = m.group(2).split(' for ')
        ks.append('%s as %s::%s' % (head(ty), re.sub(r"<.*$", '', tr), m.group(3)))
    ks.append(strip_generics(p))
    ks.append(strip_generics(callee['path']))
    _cache[(p, callee['path'])] = ks
    return ks


def find_model(callee):
    for k in keys_of(callee):
        if k in MODELS:
            return MODELS[k]
    return None


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def pure(*names):
    """Model that returns a single value and has no effects."""
    def d(f):
        def g(I, st, callee, args, at):
            return [(st, f(I, st, args))]
        for n in names:
            MODELS[n] = g
        return f
    return d


def some(x):
    return mk_enum(OPT, 'Some', (x,))


def deref(I, st, r):
    if isinstance(r, tuple) and r[0] == 'ref':
        return I.read(st, r[1], r[2])
    if isinstance(r, tuple) and r[0] == 'vref':
        return r[1]
    return r


def deref_str(I, st, r):
    """The string behind any tower of references."""
    while isinstance(r, tuple) and r[0] in ('ref', 'vref'):
        r = deref(I, st, r)
    return r


def store(I, st, r, v):
    if r[0] != 'ref':
        raise_unsup('store through %r' % (r[0],))
    ev = I.write(st, r[1], r[2], v)
    return ev


def raise_unsup(m):
    from absint import Unsupported
    raise Unsupported(m)


def branch(I, st, cond):
    """[(state, truth)] for a boolean term."""
    c = st.K.ev(cond)
    if c is not None:
        return [(st, c)]
    out = []
    t = st.K.assume(cond, True)
    f = st.K.assume(cond, False)
    alts = [(k, 1) for k in t] + [(k, 0) for k in f]
    for k, v in alts[1:]:
        s = st.copy()
        s.K = k
        out.append((s, v))
    if alts:
        st.K = alts[0][0]
        out.insert(0, (st, alts[0][1]))
    return out


# ---------------------------------------------------------------- panics
def _panic(kind):
    def g(I, st, callee, args, at):
        I.H.panic(I, st, kind, callee['path'])
        return 'dead'
    return g


for _n in ('core::panicking::panic', 'core::panicking::panic_fmt', 'std::rt::panic_fmt', 'core::panicking::panic_display',
           'core::panicking::unreachable_default_msg', 'core::panicking::panic_explicit', 'std::rt::panic_display',
           'core::panicking::panic_nounwind', 'std::rt::begin_panic', 'core::panicking::panic_str_2015',
           'core::panicking::panic_const::panic_const_add_overflow', 'core::panicking::unreachable_display',
           'std::option::expect_failed', 'std::option::unwrap_failed', 'std::result::unwrap_failed',
           'core::panicking::assert_failed', 'core::panicking::assert_failed_inner', 'std::process::abort'):
    MODELS[_n] = _panic(_n.split('::')[-1])


# ---------------------------------------------------------------- mem / cell / box
@model('std::mem::replace')
def m_replace(I, st, c, a, at):
    v = deref(I, st, a[0])
    ev = I.write(st, a[0][1], a[0][2], a[1])
    if ev:
        raise_unsup('event in mem::replace')
    return [(st, v)]


@model('std::mem::swap')
def m_swap(I, st, c, a, at):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    if I.write(st, a[0][1], a[0][2], y) or I.write(st, a[1][1], a[1][2], x):
        raise_unsup('event in mem::swap')
    return [(st, UNIT)]


def default_value(I, tid):
    t = I.P.t(tid)
    if t['k'] in ('int', 'bool'):
        return 0
    if I.P.is_stringy(t):
        return ('s', '')
    if t['k'] == 'ref' and I.P.t(t['elem'])['k'] == 'str':
        return ('s', '')
    if t['k'] == 'adt':
        if t['path'] == OPT:
            return NONE
        if t['path'] in ('std::vec::Vec',):
            return ('seq', None, ())
        if t['path'] == 'indexmap::IndexMap':
            return ('imap', None, ())
    if t['k'] == 'tuple':
        return ('tup', tuple(default_value(I, x) for x in t['elems']))
    return None


@model('std::mem::take')
def m_take(I, st, c, a, at):
    d = default_value(I, c['targs'][0])
    if d is None:
        return None
    v = deref(I, st, a[0])
    ev = I.write(st, a[0][1], a[0][2], d)
    if ev:
        raise_unsup('event in mem::take')
    return [(st, v)]


MODELS['std::mem::drop'] = lambda I, st, c, a, at: [(st, UNIT)]
MODELS['std::mem::forget'] = MODELS['std::mem::drop']
MODELS['std::intrinsics::cold_path'] = lambda I, st, c, a, at: [(st, UNIT)]


@pure('std::boxed::Box::new', 'std::boxed::box_new', 'std::hint::must_use', 'std::hint::black_box',
      'std::boxed::Box as std::ops::Deref::deref', 'std::boxed::Box as std::ops::DerefMut::deref_mut',
      'std::boxed::Box as std::convert::AsRef::as_ref', 'std::boxed::Box as std::borrow::Borrow::borrow',
      'std::rc::Rc::new', 'std::convert::identity', 'std::boxed::Box as std::convert::From::from',
      'std::boxed::Box as std::convert::AsMut::as_mut')
def m_ident(I, st, a):
    return a[0]


@pure('std::boxed::Box as std::clone::Clone::clone')
def m_box_clone(I, st, a):
    return deref(I, st, a[0])


# boxed array literal of the vec! macro
@model('std::boxed::Box::new_uninit')
def m_new_uninit(I, st, c, a, at):
    return [(st, ('uninit',))]


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_box_vec(I, st, c, a, at):
    v = a[0]
    while isinstance(v, tuple) and v[0] in ('st', 'en') and v[1].split('::')[-1] in ('MaybeUninit', 'ManuallyDrop', 'MaybeDangling'):
        v = v[-1][-1]
    return [(st, v)]


MODELS['std::slice::into_vec'] = lambda I, st, c, a, at: [(st, a[0])]
MODELS['[]::into_vec'] = MODELS['std::slice::into_vec']


@pure('std::cell::Cell::new')
def m_cell_new(I, st, a):
    return ('st', 'std::cell::Cell', (a[0],))


def cell_get(I, st, v):
    if isinstance(v, tuple) and v[0] == 'st':
        return v[2][0]
    return ('fld', v, 0, 'std::cell::Cell')


@pure('std::cell::Cell::get')
def m_cell_get(I, st, a):
    return cell_get(I, st, deref(I, st, a[0]))


@model('std::cell::Cell::get_mut')
def m_cell_get_mut(I, st, c, a, at):
    if a[0][0] != 'ref':
        raise_unsup('Cell::get_mut through a value')
    v = I.read(st, a[0][1], a[0][2])
    if v[0] != 'st' and I.write(st, a[0][1], a[0][2], ('st', 'std::cell::Cell', (cell_get(I, st, v),))):
        raise_unsup('event in Cell::get_mut')
    return [(st, ('ref', a[0][1], a[0][2] + (('f', 0, 'std::cell::Cell', I.P.t(at[0]).get('elem')),)))]


@pure('std::cell::Cell as std::clone::Clone::clone')
def m_cell_clone(I, st, a):
    return deref(I, st, a[0])


@model('std::cell::Cell::set', 'std::cell::Cell::replace')
def m_cell_set(I, st, c, a, at):
    if a[0][0] != 'ref':
        raise_unsup('Cell::set through a value')
    old = cell_get(I, st, deref(I, st, a[0]))
    ev = I.write(st, a[0][1], a[0][2], ('st', 'std::cell::Cell', (a[1],)))
    if ev:
        raise_unsup('event in Cell::set')
    return [(st, old if c['path'].endswith('replace') else UNIT)]


# ---------------------------------------------------------------- clone
@pure('* as std::clone::Clone::clone')
def m_clone(I, st, a):
    return deref(I, st, a[0])


@pure('std::option::Option::cloned', 'std::option::Option::copied')
def m_opt_cloned(I, st, a):
    v = a[0]
    if v[0] == 'en':
        if v[2] == 'None':
            return v
        return some(deref(I, st, v[3][0]))
    return ('mapd', v)


# ---------------------------------------------------------------- integers
def int_bits(I, at0):
    return I.P.t(at0)


@model('usize::checked_add', 'u16::checked_add', 'u32::checked_add', 'u8::checked_add', 'u64::checked_add')
def m_checked_add(I, st, c, a, at):
    t = I.P.t(at[0])
    r = add(a[0], a[1])
    if t['bits'] == 64:
        # assumption: 64-bit counters of things in memory do not overflow
        return [(st, some(r))]
    out = []
    cond = I.cmp_ints(st, 'Le', r, (1 << t['bits']) - 1)
    for s, v in branch(I, st, cond):
        out.append((s, some(r) if v else NONE))
    return out


@model('usize::checked_sub', 'u16::checked_sub', 'u32::checked_sub', 'u8::checked_sub', 'u64::checked_sub')
def m_checked_sub(I, st, c, a, at):
    r = sub(a[0], a[1])
    out = []
    for s, v in branch(I, st, I.cmp_ints(st, 'Ge', r, 0)):
        out.append((s, some(r) if v else NONE))
    return out


@model('u16::saturating_add', 'u32::saturating_add', 'u8::saturating_add', 'usize::saturating_add', 'u64::saturating_add')
def m_sat_add(I, st, c, a, at):
    t = I.P.t(at[0])
    if t['bits'] == 64:
        return [(st, add(a[0], a[1]))]
    return [(st, sat_add(st.K, a[0], a[1], t['bits'], I.H.keep_sat))]


def sat_add(K, x, y, bits, keep=False):
    """('sat', n, mx) is the smaller of n and mx."""
    mx = (1 << bits) - 1
    if isinstance(x, int) and isinstance(y, int) and not keep:
        return min(mx, x + y)
    if y == 0:
        return x
    if x == 0:
        return y
    if is_sat(x) and is_sat(y):
        return ('sat', add(x, y), mx)
    if is_sat(y):
        x, y = y, x
    if is_sat(x) and x[2] == mx and K.interval(y)[0] >= 0:
        return ('sat', add(x[1], y), mx)
    return ('sat', add(x, y), mx)


def is_sat(x):
    return isinstance(x, tuple) and x[0] == 'sat'


@model('u16::saturating_sub', 'u32::saturating_sub', 'u8::saturating_sub', 'usize::saturating_sub', 'u64::saturating_sub')
def m_sat_sub(I, st, c, a, at):
    r = sub(a[0], a[1])
    if isinstance(r, int):
        return [(st, max(0, r))]
    # saturated adders do not simplify
    if has_sat(r):
        return [(st, ('satsub', a[0], a[1]))]
    out = []
    for s, v in branch(I, st, I.cmp_ints(st, 'Ge', r, 0)):
        out.append((s, r if v else 0))
    return out


def has_sat(r):
    return any(isinstance(x, tuple) and x[0] in ('sat', 'satsub') for x, _ in lin_parts(r)[1])


@model('usize::wrapping_add', 'u16::wrapping_add', 'u32::wrapping_add', 'u8::wrapping_add',
       'usize::wrapping_sub', 'u16::wrapping_sub', 'u32::wrapping_sub', 'u8::wrapping_sub')
def m_wrapping(I, st, c, a, at):
    t = I.P.t(at[0])
    r = add(a[0], a[1]) if 'add' in c['path'] else sub(a[0], a[1])
    lo, hi = st.K.interval(r)
    if lo >= 0 and (hi < (1 << t['bits']) or t['bits'] == 64):
        return [(st, r)]
    return [(st, ('wrap', r, t['bits']))]


@model('std::cmp::min', 'usize as std::cmp::Ord::min', 'u16 as std::cmp::Ord::min')
def m_min(I, st, c, a, at):
    out = []
    for s, v in branch(I, st, I.cmp_ints(st, 'Le', a[0], a[1])):
        out.append((s, a[0] if v else a[1]))
    return out


@model('std::cmp::max', 'usize as std::cmp::Ord::max', 'u16 as std::cmp::Ord::max')
def m_max(I, st, c, a, at):
    out = []
    for s, v in branch(I, st, I.cmp_ints(st, 'Ge', a[0], a[1])):
        out.append((s, a[0] if v else a[1]))
    return out


def m_cmp(I, st, c, a, at):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    d = sub(x, y)
    out = []
    for s, v in branch(I, st, I.cmp_ints(st, 'Eq', x, y)):
        if v:
            out.append((s, ('en', ORD, 'Equal', ())))
            continue
        for s2, w in branch(I, s, I.cmp_ints(s, 'Lt', x, y)):
            out.append((s2, ('en', ORD, 'Less' if w else 'Greater', ())))
    return out


for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'isize'):
    MODELS['%s as std::cmp::Ord::cmp' % _t] = m_cmp


@model('std::intrinsics::three_way_compare')
def m_3way(I, st, c, a, at):
    return m_cmp(I, st, c, a, at)


def m_partial_cmp(I, st, c, a, at):
    return [(s, some(v)) for s, v in m_cmp(I, st, c, a, at)]


for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'isize'):
    MODELS['%s as std::cmp::PartialOrd::partial_cmp' % _t] = m_partial_cmp


@pure('std::intrinsics::discriminant_value')
def m_discr_dummy(I, st, a):
    return None


def m_discriminant_value(I, st, c, a, at):
    t = I.P.t(at[0])
    v = deref(I, st, a[0])
    return [(st, I.discr(st, v, t['elem']))]


MODELS['std::intrinsics::discriminant_value'] = m_discriminant_value


# ---------------------------------------------------------------- equality
def eq_term(I, st, x, y, tid=None):
    """Boolean term for structural equality of two values (None: unknown how)."""
    while isinstance(x, tuple) and x[0] in ('ref', 'vref'):
        x = deref(I, st, x)
    while isinstance(y, tuple) and y[0] in ('ref', 'vref'):
        y = deref(I, st, y)
    if x == y and not (isinstance(x, tuple) and x[0] in ('float', 'parsed')):
        return 1
    if isinstance(x, int) and isinstance(y, int):
        return int(x == y)
    if is_strv(x) or is_strv(y):
        return ('streq', x, y) if st.K.ev_streq(x, y) is None else st.K.ev_streq(x, y)
    return None


def is_strv(x):
    return isinstance(x, tuple) and x[0] == 's'


def m_streq(neg):
    def g(I, st, c, a, at):
        x, y = deref_str(I, st, a[0]), deref_str(I, st, a[1])
        e = st.K.ev_streq(x, y)
        r = ('streq', x, y) if e is None else e
        return [(st, I.bnot(r) if neg else r)]
    return g


for _x in ('str', 'std::string::String', '&str', '&std::string::String'):
    MODELS['%s as std::cmp::PartialEq::eq' % _x] = m_streq(False)
    MODELS['%s as std::cmp::PartialEq::ne' % _x] = m_streq(True)
MODELS['core::str::traits as std::cmp::PartialEq::eq'] = m_streq(False)


def tag_eq(I, st, x, y, tid):
    """Equality of two field-less enum values."""
    dx = I.discr(st, x, tid)
    dy = I.discr(st, y, tid)
    return I.cmp_ints(st, 'Eq', dx, dy)


def elem_eq(I, st, x, y, tid):
    t = I.P.t(tid)
    while t['k'] == 'ref':
        if I.P.t(t['elem'])['k'] == 'str':
            break
        x, y = deref(I, st, x), deref(I, st, y)
        tid = t['elem']
        t = I.P.t(tid)
    if t['k'] == 'ref' or I.P.is_stringy(t):
        x, y = deref_str(I, st, x), deref_str(I, st, y)
        e = st.K.ev_streq(x, y)
        return ('streq', x, y) if e is None else e
    if t['k'] in ('int', 'bool', 'char'):
        return I.cmp_ints(st, 'Eq', x, y)
    if t['k'] == 'adt' and t['kind'] == 'enum' and t.get('variants') and all(not v['fields'] for v in t['variants']):
        if not derived_eq(I, t['path']):
            raise_unsup('hand-written equality of ' + t['path'])
        return tag_eq(I, st, x, y, tid)
    raise_unsup('equality of ' + t['s'])


def derived_eq(I, path):
    for it in I.P.items:
        if it['kind'].startswith('Impl') and it.get('trait') == 'std::cmp::PartialEq' and it.get('self') == path:
            return it['derived']
    return True


@model('[]::contains', 'core::slice::contains')
def m_contains(I, st, c, a, at):
    s = I.as_seq(deref(I, st, a[0]))
    if s[1] is not None:
        x = deref(I, st, a[1])
        return [(st, ('bsym', 'contains', s, x))]
    x = deref(I, st, a[1])
    t = I.P.t(at[1])
    tid = t['elem']
    r = 0
    # a single tag-set test keeps the split small
    et = I.P.t(tid)
    if et['k'] == 'adt' and et['kind'] == 'enum' and all(isinstance(e, tuple) and e[0] == 'en' for e in s[2]):
        if not derived_eq(I, et['path']):
            raise_unsup('hand-written equality of ' + et['path'])
        tags = frozenset(e[2] for e in s[2])
        if isinstance(x, tuple) and x[0] == 'en':
            return [(st, int(x[2] in tags))]
        return [(st, ('is', x, tags, I.all_tags(tid)))]
    for e in s[2]:
        b = elem_eq(I, st, e, x, tid)
        r = I.binop(st, 'BitOr', r, b, I.bool_tid())
    return [(st, r)]


# ---------------------------------------------------------------- Vec / slices
@pure('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::vec::Vec as std::default::Default::default')
def m_vec_new(I, st, a):
    return ('seq', None, ())


def wr(I, st, r, v):
    if not (isinstance(r, tuple) and r[0] == 'ref'):
        raise_unsup('write through %r' % (r,))
    return I.write(st, r[1], r[2], v)


@model('std::vec::Vec::push')
def m_push(I, st, c, a, at):
    s = I.as_seq(deref(I, st, a[0]))
    n = ('seq', s[1], s[2] + (a[1],))
    ev = wr(I, st, a[0], n)
    return ret_ev(I, st, UNIT, ev)


def ret_ev(I, st, v, ev):
    if ev:
        return EvResult([(st, v)], ev)
    return [(st, v)]


class EvResult(list):
    def __init__(self, l, ev):
        super().__init__(l)
        self.ev = ev


@model('std::vec::Vec::pop')
def m_pop(I, st, c, a, at):
    s = I.as_seq(deref(I, st, a[0]))
    if s[2]:
        ev = wr(I, st, a[0], ('seq', s[1], s[2][:-1]))
        return ret_ev(I, st, some(s[2][-1]), ev)
    if s[1] is None:
        return [(st, NONE)]
    out = []
    n = seq_len(s)
    for q, v in branch(I, st, I.cmp_ints(st, 'Ge', n, 1)):
        if v:
            x = I.getelem(q, s, sub(n, 1))
            ev = wr(I, q, a[0], pop_seq(s))
            if ev:
                raise_unsup('event in a split pop')
            out.append((q, some(x)))
        else:
            out.append((q, NONE))
    return out


def pop_seq(s):
    if s[2]:
        return ('seq', s[1], s[2][:-1])
    b = s[1]
    return ('seq', ('init', b), ())


@model('std::vec::Vec::clear')
def m_clear(I, st, c, a, at):
    return ret_ev(I, st, UNIT, wr(I, st, a[0], ('seq', None, ())))


@model('std::vec::Vec::truncate')
def m_truncate(I, st, c, a, at):
    s = I.as_seq(deref(I, st, a[0]))
    n = seq_len(s)
    out = []
    for q, v in branch(I, st, I.cmp_ints(st, 'Ge', a[1], n)):
        if v:
            out.append((q, UNIT))
            continue
        d = sub(n, a[1])
        if isinstance(a[1], int) and s[1] is None:
            x = ('seq', None, s[2][:a[1]])
        elif isinstance(d, int) and d <= len(s[2]) + 4:
            x = s
            for _ in range(d):
                x = pop_seq(x)
        else:
            x = opaque_seq(I, q, 'truncate', s, a[1:], sub(a[1], n))
        if wr(I, q, a[0], x):
            raise_unsup('event in truncate')
        out.append((q, UNIT))
    return out


def opaque_seq(I, st, what, s, extra, delta):
    """A rearranged or edited sequence: nothing but its length is known."""
    r = ('edit', what, s, tuple(extra))
    st.K.assume_eq0(sub(('len', r), add(seq_len(s), delta)))
    return ('seq', r, ())


@model('std::vec::Vec::split_off', 'std::vec::Vec::drain')
def m_split_off(I, st, c, a, at):
    s = I.as_seq(deref(I, st, a[0]))
    n = seq_len(s)
    drain = c['path'].endswith('drain')
    if drain:
        if not (isinstance(a[1], tuple) and a[1][0] == 'st'):
            raise_unsup('drain')
        lo, hi, fits = range_bounds(I, st, a[1], n)
    else:
        lo, hi, fits = a[1], n, I.cmp_ints(st, 'Le', a[1], n)
    out = []
    for q, v in branch(I, st, fits):
        if not v:
            I.H.panic(I, q, 'index out of range', c['path'])
            continue
        taken = I.subseq(s, lo, hi)
        if hi == n:
            rest = I.subseq(s, 0, lo)
        elif lo == 0:
            rest = I.subseq(s, hi, n)
        else:
            rest = opaque_seq(I, q, 'drain', s, (lo, hi), sub(lo, hi))
        if wr(I, q, a[0], rest):
            raise_unsup('event in drain')
        out.append((q, ('intoiter', taken, 0, sub(hi, lo)) if drain else taken))
    return out or 'dead'


@model('std::vec::Vec::insert')
def m_insert(I, st, c, a, at):
    s = I.as_seq(deref(I, st, a[0]))
    n = seq_len(s)
    d = sub(n, a[1])
    if st.K.interval(d) == (0, 0):
        return m_push(I, st, c, (a[0], a[2]), at)
    if isinstance(d, int) and 0 < d <= len(s[2]):
        k = len(s[2]) - d
        v = ('seq', s[1], s[2][:k] + (a[2],) + s[2][k:])
        return ret_ev(I, st, UNIT, wr(I, st, a[0], v))
    out = []
    for q, v in branch(I, st, I.cmp_ints(st, 'Ge', n, a[1])):
        if not v:
            I.H.panic(I, q, 'index out of range', c['path'])
            continue
        for r, w in branch(I, q, I.cmp_ints(q, 'Eq', n, a[1])):
            new = ('seq', s[1], s[2] + (a[2],)) if w else opaque_seq(I, r, 'insert', s, a[1:], 1)
            if wr(I, r, a[0], new):
                raise_unsup('event in insert')
            out.append((r, UNIT))
    return out


@model('std::vec::Vec::remove', 'std::vec::Vec::swap_remove')
def m_remove(I, st, c, a, at):
    s = I.as_seq(deref(I, st, a[0]))
    n = seq_len(s)
    what = c['path'].split('::')[-1]
    out = []
    for q, v in branch(I, st, I.cmp_ints(st, 'Gt', n, a[1])):
        if not v:
            I.H.panic(I, q, 'index out of range', c['path'])
            continue
        for r, w in branch(I, q, I.cmp_ints(q, 'Eq', sub(n, 1), a[1])):
            x = I.getelem(r, s, a[1])
            new = pop_seq(s) if w else opaque_seq(I, r, what, s, a[1:], -1)
            if not w and s[1] is None and isinstance(a[1], int):
                t = list(s[2])
                if what == 'remove':
                    del t[a[1]]
                else:
                    t[a[1]] = t[-1]
                    t.pop()
                new = ('seq', None, tuple(t))
            if wr(I, r, a[0], new):
                raise_unsup('event in remove')
            out.append((r, x))
    return out


@model('[]::swap', 'core::slice::swap', '[]::reverse', 'core::slice::reverse', '[]::rotate_left', '[]::rotate_right',
       '[]::sort', '[]::sort_unstable', '[]::sort_by', '[]::sort_by_key', '[]::sort_unstable_by', '[]::sort_unstable_by_key',
       '[]::fill')
def m_permute(I, st, c, a, at):
    s = I.as_seq(deref(I, st, a[0]))
    what = c['path'].split('::')[-1]
    n = seq_len(s)
    if isinstance(n, int) and n <= 1 and what != 'fill':
        return [(st, UNIT)]
    if s[1] is None and what == 'reverse':
        return ret_ev(I, st, UNIT, wr(I, st, a[0], ('seq', None, s[2][::-1])))
    if s[1] is None and what == 'swap' and isinstance(a[1], int) and isinstance(a[2], int) and max(a[1], a[2]) < n:
        t = list(s[2])
        t[a[1]], t[a[2]] = t[a[2]], t[a[1]]
        return ret_ev(I, st, UNIT, wr(I, st, a[0], ('seq', None, tuple(t))))
    if what == 'swap':
        out = []
        ok = I.binop(st, 'BitAnd', I.cmp_ints(st, 'Lt', a[1], n), I.cmp_ints(st, 'Lt', a[2], n), I.bool_tid())
        for q, v in branch(I, st, ok):
            if not v:
                I.H.panic(I, q, 'index out of range', c['path'])
                continue
            if wr(I, q, a[0], opaque_seq(I, q, what, s, a[1:], 0)):
                raise_unsup('event in swap')
            out.append((q, UNIT))
        return out
    return ret_ev(I, st, UNIT, wr(I, st, a[0], opaque_seq(I, st, what, s, [x for x in a[1:] if isinstance(x, int)], 0)))


@model('std::vec::Vec::dedup', 'std::vec::Vec::dedup_by_key', 'std::vec::Vec::dedup_by', 'std::vec::Vec::retain')
def m_thin(I, st, c, a, at):
    s = I.as_seq(deref(I, st, a[0]))
    if s == ('seq', None, ()):
        return [(st, UNIT)]
    r = ('edit', c['path'].split('::')[-1], s, ())
    st.K.assume_ge(sub(seq_len(s), ('len', r)))
    return ret_ev(I, st, UNIT, wr(I, st, a[0], ('seq', r, ())))


@model('std::vec::Vec::len', '[]::len', 'core::slice::len')
def m_len(I, st, c, a, at):
    return [(st, I.seqlen(deref(I, st, a[0])))]


@model('std::vec::Vec::is_empty', '[]::is_empty', 'core::slice::is_empty')
def m_is_empty(I, st, c, a, at):
    n = I.seqlen(deref(I, st, a[0]))
    return [(st, I.cmp_ints(st, 'Eq', n, 0))]


@pure('std::vec::Vec as std::ops::Deref::deref', 'std::vec::Vec as std::ops::DerefMut::deref_mut',
      'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::vec::Vec as std::convert::AsRef::as_ref',
      'std::vec::Vec as std::borrow::Borrow::borrow', 'std::vec::Vec::into_boxed_slice')
def m_vec_deref(I, st, a):
    return a[0]


def sub_ref(r, step):
    if r[0] == 'ref':
        return ('ref', r[1], r[2] + (step,))
    raise_unsup('element of a value')


def elem_ref(I, st, r, idx):
    if r[0] == 'ref':
        return ('ref', r[1], r[2] + (('i', idx),))
    if r[0] == 'vref':
        x = I.getelem(st, r[1], idx)
        return as_vref(x)
    x = I.getelem(st, r, idx)
    return as_vref(x)


def as_vref(x):
    return ('vref', x)


def get_idx(I, st, r, idx):
    """Option<&T> for slice.get(idx)."""
    n = I.seqlen(deref(I, st, r))
    out = []
    for q, v in branch(I, st, I.cmp_ints(st, 'Lt', idx, n)):
        out.append((q, some(elem_ref(I, q, r, idx)) if v else NONE))
    return out


@model('[]::get', '[]::get_mut', 'core::slice::get', 'core::slice::get_mut')
def m_get(I, st, c, a, at):
    if isinstance(a[1], tuple) and a[1][0] == 'st':
        raise_unsup('slice get by range')
    return get_idx(I, st, a[0], a[1])


@model('[]::last', '[]::last_mut', 'core::slice::last', 'core::slice::last_mut')
def m_last(I, st, c, a, at):
    n = I.seqlen(deref(I, st, a[0]))
    out = []
    for q, v in branch(I, st, I.cmp_ints(st, 'Ge', n, 1)):
        out.append((q, some(elem_ref(I, q, a[0], sub(n, 1))) if v else NONE))
    return out


@model('[]::first', '[]::first_mut', 'core::slice::first', 'core::slice::first_mut')
def m_first(I, st, c, a, at):
    n = I.seqlen(deref(I, st, a[0]))
    out = []
    for q, v in branch(I, st, I.cmp_ints(st, 'Ge', n, 1)):
        out.append((q, some(elem_ref(I, q, a[0], 0)) if v else NONE))
    return out


@model('[]::split_last', '[]::split_first', 'core::slice::split_last', 'core::slice::split_first')
def m_split_end(I, st, c, a, at):
    v = deref(I, st, a[0])
    n = I.seqlen(v)
    last = c['path'].endswith('last')
    out = []
    for q, t in branch(I, st, I.cmp_ints(st, 'Ge', n, 1)):
        if t:
            x = elem_ref(I, q, a[0], sub(n, 1) if last else 0)
            rest = I.subseq(v, 0, sub(n, 1)) if last else I.subseq(v, 1, n)
            out.append((q, some(('tup', (x, ('vref', rest))))))
        else:
            out.append((q, NONE))
    return out


@model('std::vec::Vec as std::ops::Index::index', 'std::vec::Vec as std::ops::IndexMut::index_mut',
       '[] as std::ops::Index::index', '[] as std::ops::IndexMut::index_mut')
def m_index(I, st, c, a, at):
    idx = a[1]
    if isinstance(idx, tuple) and idx[0] == 'st':
        lo, hi, ok = range_bounds(I, st, idx, I.seqlen(deref(I, st, a[0])))
        out = []
        for q, v in branch(I, st, ok):
            if v:
                out.append((q, ('vref', I.subseq(deref(I, q, a[0]), lo, hi))))
            else:
                I.H.panic(I, q, 'slice range', None)
        return out or 'dead'
    n = I.seqlen(deref(I, st, a[0]))
    out = []
    for q, v in branch(I, st, I.cmp_ints(st, 'Lt', idx, n)):
        if v:
            out.append((q, elem_ref(I, q, a[0], idx)))
        else:
            I.H.panic(I, q, 'index', None)
            if q is st:
                out.append((q, 'DEAD'))
    if all(v == 'DEAD' for _, v in out):
        return 'dead'
    return out


def range_bounds(I, st, rg, n):
    p = rg[1].split('::')[-1]
    if p == 'Range':
        lo, hi = rg[2]
    elif p == 'RangeTo':
        lo, hi = 0, rg[2][0]
    elif p == 'RangeFrom':
        lo, hi = rg[2][0], n
    elif p == 'RangeFull':
        lo, hi = 0, n
    else:
        raise_unsup('range ' + p)
    a = I.cmp_ints(st, 'Le', lo, hi)
    b = I.cmp_ints(st, 'Le', hi, n)
    return lo, hi, I.binop(st, 'BitAnd', a, b, I.bool_tid())


@model('std::vec::Vec as std::iter::Extend::extend', 'std::vec::Vec::extend_from_slice', 'std::vec::Vec::append')
def m_extend(I, st, c, a, at):
    s = I.as_seq(deref(I, st, a[0]))
    src = a[1]
    o = None
    if isinstance(src, tuple) and src[0] in ('ref', 'vref'):
        o = I.as_seq(deref(I, st, src))
        if c['path'].endswith('append'):
            if src[0] != 'ref':
                raise_unsup('append')
            wr(I, st, src, ('seq', None, ()))
    elif isinstance(src, tuple) and src[0] == 'seq':
        o = src
    elif isinstance(src, tuple) and src[0] == 'en' and src[1] == OPT:
        o = ('seq', None, tuple(src[3]))
    elif isinstance(src, tuple) and src[0] == 'intoiter' and src[2] == 0:
        o = src[1]
    if o is None:
        raise_unsup('extend from %r' % (src[:1],))
    if o[1] is not None:
        if s == ('seq', None, ()):
            return ret_ev(I, st, UNIT, wr(I, st, a[0], o))
        raise_unsup('extend by an unknown sequence')
    return ret_ev(I, st, UNIT, wr(I, st, a[0], ('seq', s[1], s[2] + o[2])))


# --- iterators over sequences: ('iter', ref, lo, hi) / ('intoiter', seq, lo, hi)
@model('[]::iter', '[]::iter_mut', 'core::slice::iter', 'core::slice::iter_mut',
       '&std::vec::Vec as std::iter::IntoIterator::into_iter', '&[] as std::iter::IntoIterator::into_iter')
def m_iter(I, st, c, a, at):
    n = I.seqlen(deref(I, st, a[0]))
    return [(st, ('iter', a[0], 0, n))]


@model('std::vec::Vec as std::iter::IntoIterator::into_iter', '[] as std::iter::IntoIterator::into_iter',
       'std::array as std::iter::IntoIterator::into_iter')
def m_into_iter(I, st, c, a, at):
    v = a[0]
    if isinstance(v, tuple) and v[0] in ('ref', 'vref'):
        return [(st, ('iter', v, 0, I.seqlen(deref(I, st, v))))]
    s = I.as_seq(v)
    return [(st, ('intoiter', s, 0, seq_len(s)))]


def iter_item(I, st, it, idx):
    if it[0] == 'iter':
        return elem_ref(I, st, it[1], idx)
    return I.getelem(st, it[1], idx)


def m_next(back):
    def g(I, st, c, a, at):
        it = deref(I, st, a[0])
        if it[0] not in ('iter', 'intoiter'):
            raise_unsup('next on %r' % (it[0],))
        lo, hi = it[2], it[3]
        out = []
        for q, v in branch(I, st, I.cmp_ints(st, 'Lt', lo, hi)):
            if v:
                if back:
                    x = iter_item(I, q, it, sub(hi, 1))
                    n = it[:3] + (sub(hi, 1),)
                else:
                    x = iter_item(I, q, it, lo)
                    n = it[:2] + (add(lo, 1), hi)
                if wr(I, q, a[0], n):
                    raise_unsup('event in next')
                out.append((q, some(x)))
            else:
                out.append((q, NONE))
        return out
    return g


for _x in ('std::slice::Iter', 'std::slice::IterMut', 'std::vec::IntoIter', 'std::array::IntoIter', 'std::vec::Drain'):
    MODELS['%s as std::iter::Iterator::next' % _x] = m_next(False)
    MODELS['%s as std::iter::DoubleEndedIterator::next_back' % _x] = m_next(True)


def m_iter_len(I, st, c, a, at):
    it = deref(I, st, a[0])
    return [(st, sub(it[3], it[2]))]


for _x in ('std::slice::Iter', 'std::slice::IterMut', 'std::vec::IntoIter'):
    MODELS['%s as std::iter::ExactSizeIterator::len' % _x] = m_iter_len


def m_size_hint(I, st, c, a, at):
    it = deref(I, st, a[0])
    n = sub(it[3], it[2])
    return [(st, ('tup', (n, some(n))))]


for _x in ('std::slice::Iter', 'std::slice::IterMut', 'std::vec::IntoIter'):
    MODELS['%s as std::iter::Iterator::size_hint' % _x] = m_size_hint


# Range<usize>
@model('std::ops::Range as std::iter::Iterator::next', 'std::iter::range as std::iter::Iterator::next')
def m_range_next(I, st, c, a, at):
    r = deref(I, st, a[0])
    lo, hi = r[2]
    out = []
    for q, v in branch(I, st, I.cmp_ints(st, 'Lt', lo, hi)):
        if v:
            wr(I, q, a[0], ('st', r[1], (add(lo, 1), hi)))
            out.append((q, some(lo)))
        else:
            out.append((q, NONE))
    return out


@model('std::ops::Range as std::iter::DoubleEndedIterator::next_back')
def m_range_next_back(I, st, c, a, at):
    r = deref(I, st, a[0])
    lo, hi = r[2]
    out = []
    for q, v in branch(I, st, I.cmp_ints(st, 'Lt', lo, hi)):
        if v:
            wr(I, q, a[0], ('st', r[1], (lo, sub(hi, 1))))
            out.append((q, some(sub(hi, 1))))
        else:
            out.append((q, NONE))
    return out


# ---------------------------------------------------------------- strings
@model('std::string::String as std::ops::Deref::deref', 'std::string::String as std::convert::AsRef::as_ref',
       'str as std::borrow::ToOwned::to_owned', 'std::string::String as std::convert::From::from',
       'str as std::string::ToString::to_string', 'std::string::String::as_str',
       'std::string::String as std::string::ToString::to_string', 'str as std::convert::AsRef::as_ref',
       'std::string::String as std::borrow::Borrow::borrow', 'std::string::String::into_boxed_str',
       'std::string::String as std::clone::Clone::clone', 'std::string::String::from', 'core::str::to_owned',
       'str::into_string', 'std::string::String as std::str::FromStr::from_str', 'str::as_ref', 'str::to_owned',
       'std::string::String as std::ops::DerefMut::deref_mut', 'std::string::String::into_string')
def m_str_ident(I, st, c, a, at):
    v = deref_str(I, st, a[0])
    if c['path'].endswith('from_str'):
        v = mk_enum(RES, 'Ok', (v,))
    return [(st, v)]


@model('* as std::string::ToString::to_string')
def m_to_string(I, st, c, a, at):
    t = I.P.t(at[0])
    while t['k'] == 'ref':
        t = I.P.t(t['elem'])
    if I.P.is_stringy(t):
        return [(st, deref_str(I, st, a[0]))]
    return [(st, ('tostring', deref(I, st, a[0]), t['s']))]


@model('* as std::convert::Into::into')
def m_into(I, st, c, a, at):
    src = I.P.t(at[0])
    while src['k'] == 'ref':
        src = I.P.t(src['elem'])
    dst = I.P.t(c['targs'][1]) if len(c['targs']) > 1 else None
    if I.P.is_stringy(src) and dst is not None and I.P.is_stringy(dst):
        return [(st, deref_str(I, st, a[0]))]
    return None


@pure('std::string::String::new', 'std::string::String::with_capacity', 'std::string::String as std::default::Default::default')
def m_string_new(I, st, a):
    return ('s', '')


@model('str::len', 'core::str::len', 'std::string::String::len')
def m_str_len(I, st, c, a, at):
    v = deref_str(I, st, a[0])
    return [(st, str_len(I, st, v))]


def str_len(I, st, v):
    if v[0] == 's':
        return len(v[1].encode())
    if v[0] == 'slice':
        return sub(v[3], v[2])
    return ('len', v)


@model('str::is_empty', 'core::str::is_empty', 'std::string::String::is_empty')
def m_str_empty(I, st, c, a, at):
    v = deref_str(I, st, a[0])
    return [(st, I.cmp_ints(st, 'Eq', str_len(I, st, v), 0))]


@model('core::str::starts_with', 'str::starts_with', 'core::str::ends_with', 'str::ends_with', 'str::contains',
       'core::str::contains', 'str::eq_ignore_ascii_case', 'core::str::eq_ignore_ascii_case')
def str_pred(I, st, c, a, at):
    x = deref_str(I, st, a[0])
    y = deref_str(I, st, a[1])
    n = c['path'].split('::')[-1]
    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 's' == y[0]:
        return [(st, int({'starts_with': x[1].startswith(y[1]), 'ends_with': x[1].endswith(y[1]), 'contains': y[1] in x[1],
                          'eq_ignore_ascii_case': x[1].lower() == y[1].lower()}[n]))]
    return [(st, ('bsym', n, x, y))]


@model('std::string::String::push_str')
def m_push_str(I, st, c, a, at):
    s, t = deref(I, st, a[0]), deref_str(I, st, a[1])
    return ret_ev(I, st, UNIT, wr(I, st, a[0], sconcat(s, t)))


def sconcat(s, t):
    if s == ('s', ''):
        return t
    if t == ('s', ''):
        return s
    if s[0] == 's' and t[0] == 's':
        return ('s', s[1] + t[1])
    return ('scat', s, t)


@pure('std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const')
def m_args_from_str(I, st, a):
    return ('fmt', ('seq', None, ()), deref_str(I, st, a[0]))


@model('std::fmt::Arguments::new', 'std::fmt::Arguments::new_v1')
def m_args_new(I, st, c, a, at):
    return [(st, ('fmtargs', deref(I, st, a[0]), snap(I, st, a[1])))]


def snap(I, st, r):
    """Deep value of references (for formatting arguments)."""
    v = deref(I, st, r) if isinstance(r, tuple) and r[0] in ('ref', 'vref') else r
    if isinstance(v, tuple):
        if v[0] == 'ref' or v[0] == 'vref':
            return snap(I, st, v)
        if v[0] == 'seq':
            return ('seq', v[1], tuple(snap(I, st, x) for x in v[2]))
        if v[0] == 'fmtarg':
            return v
    return v


def m_arg(kind):
    def g(I, st, c, a, at):
        t = I.P.t(at[0])
        while t['k'] == 'ref':
            t = I.P.t(t['elem'])
        return [(st, ('fmtarg', kind, snap(I, st, a[0]), t['s']))]
    return g


for _k in ('display', 'debug', 'lower_hex', 'lower_exp', 'pointer'):
    MODELS['core::fmt::rt::Argument::new_%s' % _k] = m_arg(_k)
    MODELS['std::fmt::rt::Argument::new_%s' % _k] = m_arg(_k)


@pure('std::fmt::format', 'std::fmt::Arguments::to_string')
def m_format(I, st, a):
    v = a[0]
    if v[0] == 'fmt':
        return v[2]
    return ('format', v)


MODELS['std::fmt::Arguments::as_str'] = lambda I, st, c, a, at: [(st, NONE)]


# ---------------------------------------------------------------- IndexMap (insertion ordered)
@pure('indexmap::IndexMap::new', 'indexmap::IndexMap as std::default::Default::default', 'indexmap::IndexMap::with_hasher',
      'indexmap::IndexMap::with_capacity_and_hasher', 'indexmap::IndexMap::with_capacity')
def m_imap_new(I, st, a):
    return ('imap', None, ())


def imap_has(m, k):
    return ('haskey', m, k)


@model('indexmap::IndexMap::insert')
def m_imap_insert(I, st, c, a, at):
    m = deref(I, st, a[0])
    k, v = a[1], a[2]
    out = []
    if m == ('imap', None, ()):
        wr(I, st, a[0], imap_add(m, k, v))
        return [(st, NONE)]
    for q, b in branch(I, st, imap_has(m, k)):
        if b:
            wr(I, q, a[0], ('imapset', m, k, v))
            out.append((q, some(('imapget', m, k))))
        else:
            wr(I, q, a[0], imap_add(m, k, v))
            out.append((q, NONE))
    return out


def imap_add(m, k, v):
    if m[0] == 'imap':
        return ('imap', m[1], m[2] + ((k, v),))
    return ('imap', m, ((k, v),))


@model('indexmap::IndexMap::contains_key', 'indexmap::IndexMap::get_index_of')
def m_imap_contains(I, st, c, a, at):
    if c['path'].endswith('get_index_of'):
        raise_unsup('get_index_of')
    m = deref(I, st, a[0])
    k = deref_str(I, st, a[1])
    if m == ('imap', None, ()):
        return [(st, 0)]
    return [(st, imap_has(m, k))]


@model('indexmap::IndexMap::len')
def m_imap_len(I, st, c, a, at):
    m = deref(I, st, a[0])
    if m[0] == 'imap' and m[1] is None:
        return [(st, len(m[2]))]
    return [(st, ('maplen', m))]


@model('indexmap::IndexMap::is_empty')
def m_imap_empty(I, st, c, a, at):
    m = deref(I, st, a[0])
    if m[0] == 'imap' and (m[1] is None or m[2]):
        return [(st, int(not m[2]))]
    return [(st, I.cmp_ints(st, 'Eq', ('maplen', m), 0))]


@model('indexmap::IndexMap::entry')
def m_imap_entry(I, st, c, a, at):
    return [(st, ('imentry', a[0], a[1]))]


# ---------------------------------------------------------------- try / convert helpers
@pure('std::convert::From::from::identity')
def m_from_id(I, st, a):
    return a[0]


# ---------------------------------------------------------------- literal hash maps and lazily built constants
@pure('std::collections::HashMap::new', 'std::collections::HashMap::with_capacity',
      'std::collections::HashMap as std::default::Default::default')
def m_hmap_new(I, st, a):
    return ('hmap', None, ())


def hmap_of(I, st, r):
    v = deref(I, st, r)
    while isinstance(v, tuple) and v and v[0] in ('ref', 'vref'):
        v = deref(I, st, v)
    if not (isinstance(v, tuple) and v and v[0] == 'hmap'):
        return None
    return v


@model('std::collections::HashMap::insert')
def m_hmap_insert(I, st, c, a, at):
    m = hmap_of(I, st, a[0])
    if m is None or m[1] is not None:
        return None
    k = deref_str(I, st, a[1])
    es = list(m[2])
    for i, (x, v) in enumerate(es):
        e = st.K.ev_streq(x, k)
        if e is None:
            return None
        if e:
            es[i] = (x, a[2])
            return ret_ev(I, st, some(v), wr(I, st, a[0], ('hmap', None, tuple(es))))
    return ret_ev(I, st, NONE, wr(I, st, a[0], ('hmap', None, tuple(es) + ((k, a[2]),))))


@model('std::collections::HashMap as std::convert::From::from', 'std::collections::HashMap as std::iter::FromIterator::from_iter')
def m_hmap_from(I, st, c, a, at):
    v = a[0]
    if isinstance(v, tuple) and v[0] == 'intoiter' and v[2] == 0:
        v = v[1]
    if not (isinstance(v, tuple) and v[0] == 'seq' and v[1] is None):
        return None
    es = []
    for kv in v[2]:
        k = deref_str(I, st, I.getfield(st, kv, 0, 'tup', None))
        x = I.getfield(st, kv, 1, 'tup', None)
        for i, (y, _) in enumerate(es):
            e = st.K.ev_streq(y, k)
            if e is None:
                return None
            if e:
                es[i] = (y, x)
                break
        else:
            es.append((k, x))
    return [(st, ('hmap', None, tuple(es)))]


@model('std::collections::HashMap::get', 'std::collections::HashMap::contains_key')
def m_hmap_get(I, st, c, a, at):
    m = hmap_of(I, st, a[0])
    if m is None or m[1] is not None:
        return None
    k = deref_str(I, st, a[1])
    get = c['path'].endswith('get')
    out = []
    s = st
    for x, v in m[2]:
        e = s.K.ev_streq(x, k)
        cond = ('streq', k, x) if e is None else e
        nxt = None
        for q, t in branch(I, s, cond):
            if t:
                out.append((q, some(('vref', v)) if get else 1))
            else:
                nxt = q
        if nxt is None:
            return out
        s = nxt
    out.append((s, NONE if get else 0))
    return out


@model('lazy_static::lazy::Lazy::get', 'std::sync::LazyLock::force', 'std::sync::OnceLock::get_or_init')
def m_lazy(I, st, c, a, at):
    f = a[-1]
    if not (isinstance(f, tuple) and f[0] == 'fndef'):
        return None
    callee = I.P.t(f[1])['callee']
    if 'id' not in callee:
        return None
    return [(st, ('vref', I.eval_const_fn(callee['id'])))]
