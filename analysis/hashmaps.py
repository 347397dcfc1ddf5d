"""Models of hash maps whose contents are not known.

Values: ('hmap', base, new entries) and ('hmapset', map, key, value); anything
else is an opaque map m, asked by ('haskey', m, key), ('mapget', m, key) and
('maplen', m).  A question that is not decided is handed to the client as a
'probe' event; the call is made again once it is answered.
"""
from terms import *
import models
from models import model, deref, deref_str, raise_unsup, wr, ret_ev, some, NONE, branch

HENT = 'std::collections::hash_map::Entry'


def hm_atom(K, m, k):
    """1, 0 or the undecided question whether k is a key of m."""
    while True:
        if m[0] == 'hmap':
            for x, v in reversed(m[2]):
                e = K.ev_streq(k, x)
                if e is None:
                    return ('streq', k, x)
                if e:
                    return 1
            if m[1] is None:
                return 0
            m = m[1]
        elif m[0] == 'hmapset':
            e = K.ev_streq(k, m[2])
            if e:
                return 1
            m = m[1]
        else:
            q = ('haskey', m, k)
            e = K.ev(q)
            return q if e is None else e


def hm_get(K, m, k):
    while True:
        if m[0] == 'hmap':
            for x, v in reversed(m[2]):
                e = K.ev_streq(k, x)
                if e is None:
                    raise_unsup('which entry of a map is meant')
                if e:
                    return v
            if m[1] is None:
                raise_unsup('a missing key')
            m = m[1]
        elif m[0] == 'hmapset':
            e = K.ev_streq(k, m[2])
            if e is None:
                raise_unsup('which entry of a map is meant')
            if e:
                return m[3]
            m = m[1]
        else:
            return ('mapget', m, k)


def unchanged(K, v, o):
    """Is v what o already was, as far as is known?"""
    if v == o:
        return True
    if isinstance(v, tuple) and v and v[0] == 'st':
        return all(unchanged(K, f, ('fld', o, i, v[1])) for i, f in enumerate(v[2]))
    if isinstance(v, tuple) and v and v[0] == 'en' and not v[3]:
        return K.get_tags(o) == frozenset([v[2]])
    return False


def hm_set(K, m, k, v):
    """k, which is a key of m, is given another value."""
    if m[0] == 'hmap':
        es = list(m[2])
        for i in range(len(es) - 1, -1, -1):
            e = K.ev_streq(k, es[i][0])
            if e is None:
                raise_unsup('which entry of a map is meant')
            if e:
                es[i] = (es[i][0], v)
                return ('hmap', m[1], tuple(es))
        if m[1] is None:
            raise_unsup('a missing key')
        return ('hmap', hm_set(K, m[1], k, v), m[2])
    if unchanged(K, v, ('mapget', m, k)):
        return m
    if m[0] == 'hmapset' and K.ev_streq(k, m[2]) == 1:
        if unchanged(K, v, ('mapget', m[1], k)):
            return m[1]
        return ('hmapset', m[1], m[2], v)
    return ('hmapset', m, k, v)


def hm_add(m, k, v):
    """k, which is no key of m, is added."""
    if m[0] == 'hmap':
        return ('hmap', m[1], m[2] + ((k, v),))
    return ('hmap', m, ((k, v),))


def hm_len(m):
    n = 0
    while True:
        if m[0] == 'hmap':
            n += len(m[2])
            if m[1] is None:
                return n
            m = m[1]
        elif m[0] == 'hmapset':
            m = m[1]
        else:
            return add(('maplen', m), n)


def hm_ref(I, st, r):
    """Reference to the map itself, and the map."""
    while True:
        v = deref(I, st, r)
        if isinstance(v, tuple) and v and v[0] in ('ref', 'vref'):
            r = v
        else:
            return r, v


def key_ref(r, v, K, k):
    return ('ref', r[1], r[2] + (('k', k),)) if r[0] == 'ref' else ('vref', hm_get(K, v, k))


def ask(I, st, a):
    """(reference, map, key, answer or question)"""
    r, m = hm_ref(I, st, a[0])
    k = deref_str(I, st, a[1])
    return r, m, k, hm_atom(st.K, m, k)


def probing(*names):
    """Model used when the client answers questions; otherwise the model it replaces."""
    def d(f):
        for n in names:
            old = models.MODELS.get(n)

            def g(I, st, c, a, at, old=old):
                if not I.probes:
                    return old(I, st, c, a, at) if old else None
                r, m, k, q = ask(I, st, a)
                if not isinstance(q, int):
                    return ('probe', q)
                return f(I, st, c, a, r, m, k, q)
            models.MODELS[n] = g
        return f
    return d


@probing('std::collections::HashMap::entry')
def m_entry(I, st, c, a, r, m, k, q):
    return [(st, ('en', HENT, 'Occupied' if q else 'Vacant', (('hent', r, k, q),)))]


@probing('std::collections::HashMap::get', 'std::collections::HashMap::get_mut')
def m_get(I, st, c, a, r, m, k, q):
    return [(st, some(key_ref(r, m, st.K, k)) if q else NONE)]


@probing('std::collections::HashMap::contains_key')
def m_contains(I, st, c, a, r, m, k, q):
    return [(st, q)]


@probing('std::collections::HashMap as std::ops::Index::index')
def m_index(I, st, c, a, r, m, k, q):
    if not q:
        I.H.panic(I, st, 'missing key', None)
        return 'dead'
    return [(st, key_ref(r, m, st.K, k))]


@probing('std::collections::HashMap::insert')
def m_insert(I, st, c, a, r, m, k, q):
    old = some(hm_get(st.K, m, k)) if q else NONE
    return ret_ev(I, st, old, wr(I, st, r, hm_set(st.K, m, k, a[2]) if q else hm_add(m, k, a[2])))


def edited(I, st, r, m, what, extra, n):
    """A map some entries of which are gone: only the number of its entries is known."""
    x = ('edit', what, m, extra)
    K = st.K
    if n is None:
        K.assume_ge(sub(hm_len(m), ('maplen', x)))
        K.assume_ge(('maplen', x))
    else:
        K.assume_eq0(sub(('maplen', x), n))
    return wr(I, st, r, x)


@probing('std::collections::HashMap::remove', 'std::collections::HashMap::remove_entry')
def m_remove(I, st, c, a, r, m, k, q):
    if not q:
        return [(st, NONE)]
    v = hm_get(st.K, m, k)
    return ret_ev(I, st, some(('tup', (k, v)) if c['path'].endswith('entry') else v), edited(I, st, r, m, 'remove', (k,), sub(hm_len(m), 1)))


@model('std::collections::HashMap::clear')
def m_clear(I, st, c, a, at):
    return ret_ev(I, st, ('tup', ()), wr(I, st, hm_ref(I, st, a[0])[0], ('hmap', None, ())))


@model('std::collections::HashMap::retain')
def m_retain(I, st, c, a, at):
    r, m = hm_ref(I, st, a[0])
    if m == ('hmap', None, ()):
        return [(st, ('tup', ()))]
    return ret_ev(I, st, ('tup', ()), edited(I, st, r, m, 'retain', (), None))


@model('std::collections::HashMap::len', 'std::collections::HashMap::is_empty')
def m_len(I, st, c, a, at):
    n = hm_len(hm_ref(I, st, a[0])[1])
    return [(st, I.cmp_ints(st, 'Eq', n, 0) if c['path'].endswith('is_empty') else n)]


def hent(I, st, v):
    v = deref(I, st, v)
    if v[0] == 'en':
        v = v[3][0]
    if v[0] != 'hent':
        raise_unsup('map entry')
    return v[1], v[2], v[3]


@model(HENT + '::and_modify')
def m_and_modify(I, st, c, a, at):
    r, k, occ = hent(I, st, a[0])
    if not occ:
        return [(st, a[0])]
    return ('invoke', a[1], (key_ref(r, None, st.K, k),), a[0], at[1])


def entry_insert(I, st, r, k, v):
    if wr(I, st, r, hm_add(deref(I, st, r), k, v)):
        raise_unsup('event in a map write')
    return key_ref(r, None, st.K, k)


@model(HENT + '::or_insert_with', HENT + '::or_insert_with_key')
def m_or_insert_with(I, st, c, a, at):
    r, k, occ = hent(I, st, a[0])
    if occ:
        return [(st, key_ref(r, None, st.K, k))]
    # the map cannot be seen before the value is there
    return ('invoke', a[1], (('vref', k),) if c['path'].endswith('_key') else (), entry_insert(I, st, r, k, ('uninit',)), at[1], 'into')


@model(HENT + '::or_insert', HENT + '::insert_entry')
def m_or_insert(I, st, c, a, at):
    r, k, occ = hent(I, st, a[0])
    if c['path'].endswith('insert_entry'):
        raise_unsup('insert_entry')
    if not occ:
        entry_insert(I, st, r, k, a[1])
    return [(st, key_ref(r, None, st.K, k))]


@model('std::collections::hash_map::VacantEntry::insert')
def m_vac_insert(I, st, c, a, at):
    r, k, occ = hent(I, st, a[0])
    return [(st, entry_insert(I, st, r, k, a[1]))]


@model('std::collections::hash_map::OccupiedEntry::get', 'std::collections::hash_map::OccupiedEntry::get_mut',
       'std::collections::hash_map::OccupiedEntry::into_mut')
def m_occ_get(I, st, c, a, at):
    r, k, occ = hent(I, st, a[0])
    return [(st, key_ref(r, None, st.K, k))]


@model('std::collections::hash_map::OccupiedEntry::insert')
def m_occ_insert(I, st, c, a, at):
    r, k, occ = hent(I, st, a[0])
    kr = key_ref(r, None, st.K, k)
    old = deref(I, st, kr)
    if wr(I, st, kr, a[1]):
        raise_unsup('event in a map write')
    return [(st, old)]


@model(HENT + '::key', 'std::collections::hash_map::OccupiedEntry::key', 'std::collections::hash_map::VacantEntry::key')
def m_ent_key(I, st, c, a, at):
    return [(st, hent(I, st, a[0])[1])]


# insertion ordered maps: the entries in order, as a sequence of pairs
@model('indexmap::IndexMap::iter', 'indexmap::IndexMap::iter_mut', 'indexmap::IndexMap::values_mut',
       'indexmap::IndexMap::values', '&indexmap::IndexMap as std::iter::IntoIterator::into_iter')
def m_imap_iter(I, st, c, a, at):
    r = a[0]
    if r[0] != 'ref':
        return None
    r = ('ref', r[1], r[2] + (('f', 0, 'indexmap::IndexMap', None),))
    return [(st, ('imiter', r, 0, I.seqlen(deref(I, st, r)), 'v' if 'values' in c['path'].split('::')[-1] else 'kv'))]


@model('indexmap::map::IterMut as std::iter::Iterator::next', 'indexmap::map::Iter as std::iter::Iterator::next',
       'indexmap::map::ValuesMut as std::iter::Iterator::next', 'indexmap::map::Values as std::iter::Iterator::next')
def m_imap_next(I, st, c, a, at):
    it = deref(I, st, a[0])
    if it[0] != 'imiter':
        return None
    out = []
    for q, v in branch(I, st, I.cmp_ints(st, 'Lt', it[2], it[3])):
        if not v:
            out.append((q, NONE))
            continue
        e = it[1][2] + (('i', it[2]),)
        k, x = (('ref', it[1][1], e + (('f', i, 'tup', None),)) for i in (0, 1))
        if wr(I, q, a[0], it[:2] + (add(it[2], 1),) + it[3:]):
            raise_unsup('event in next')
        out.append((q, some(x if it[4] == 'v' else ('tup', (k, x)))))
    return out
