"""What the comparisons of code with rules share: value equality, contexts."""
from terms import *
from absint import Unsupported, Hooks
import models

ANY = ('any',)


class Mismatch(Exception):
    def __init__(self, props, what, detail):
        super().__init__(what)
        self.props = props
        self.what = what
        self.detail = detail


def adt_value(P, path, fields):
    return mk_struct(path, tuple(fields))


class Equality:
    """Semantic equality of a value of the code and a value of the rules."""

    def __init__(self, P, I):
        self.P = P
        self.I = I

    def eq(self, st, a, b, depth=0):
        """None when equal, otherwise a short text."""
        while isinstance(a, tuple) and a and a[0] in ('ref', 'vref'):
            a = models.deref(self.I, st, a)
        while isinstance(b, tuple) and b and b[0] in ('ref', 'vref'):
            b = models.deref(self.I, st, b)
        if b == ANY or a == ANY or a == b:
            return None
        K = st.K
        if isinstance(b, tuple) and b and b[0] == 'oneof':
            r = [self.eq(st, a, x, depth + 1) for x in b[1]]
            return None if None in r else r[0]
        if is_num(a) and is_num(b):
            d = sub(a, b)
            lo, hi = K.interval(d)
            if lo == hi == 0:
                return None
            if K.ev(('eq0', d)) == 1:
                return None
            ta, tb = K.ev(a), K.ev(b)
            if is_bool(a) or is_bool(b):
                if ta is not None and ta == tb:
                    return None
            return '%s instead of %s' % (show(a), show(b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x and x[0] == 'en':
                if isinstance(y, tuple) and y and y[0] == 'en':
                    if x[2] != y[2]:
                        return '%s instead of %s' % (show(a), show(b))
                    return self.fields(st, a[3], b[3], depth, a[2])
                if isinstance(y, tuple) and y[0] not in CONCRETE:
                    t = K.get_tags(y)
                    if t is None or t != frozenset([x[2]]):
                        if t is not None and x[2] in t and len(t) > 1:
                            return '%s instead of %s (one of %s)' % (show(a), show(b), ','.join(sorted(t)))
                        return '%s instead of %s' % (show(a), show(b))
                    vp = x[1] + '::' + x[2]
                    ys = tuple(('fld', y, i, vp) for i in range(len(x[3])))
                    return self.fields(st, x[3], ys, depth, x[2]) if x is a else self.fields(st, ys, x[3], depth, x[2])
                return '%s instead of %s' % (show(a), show(b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x and x[0] == 'st':
                if isinstance(y, tuple) and y and y[0] == 'st':
                    if x[1] != y[1] or len(x[2]) != len(y[2]):
                        return '%s instead of %s' % (show(a), show(b))
                    return self.fields(st, a[2], b[2], depth, a[1])
                if isinstance(y, tuple) and y[0] not in CONCRETE:
                    ys = tuple(('fld', y, i, x[1]) for i in range(len(x[2])))
                    return self.fields(st, x[2], ys, depth, x[1]) if x is a else self.fields(st, ys, x[2], depth, x[1])
                return '%s instead of %s' % (show(a), show(b))
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
            if a[0] == b[0] == 'tup' and len(a[1]) == len(b[1]):
                return self.fields(st, a[1], b[1], depth, 'tuple')
            if a[0] == 'seq' or b[0] == 'seq':
                if a[0] in CONCRETE and a[0] != 'seq' or b[0] in CONCRETE and b[0] != 'seq':
                    return '%s instead of %s' % (show(a), show(b))
                x = self.I.as_seq(a)
                y = self.I.as_seq(b)
                if x[1] == y[1] and len(x[2]) == len(y[2]):
                    return self.fields(st, x[2], y[2], depth, 'element')
                return 'elements %s instead of %s' % (show(a), show(b))
            if a[0] == b[0] == 'imap' and len(a) == len(b) == 3 and a[1] == b[1] and len(a[2]) == len(b[2]):
                for (k1, v1), (k2, v2) in zip(a[2], b[2]):
                    r = self.eq(st, k1, k2, depth + 1) or self.eq(st, v1, v2, depth + 1)
                    if r:
                        return r
                return None
            if K.ev_streq(a, b) == 1:
                return None
            ta, tb = (K.get_tags(x) if x[0] not in CONCRETE else None for x in (a, b))
            if ta and ta == tb and len(ta) == 1 and a[0] == 'fld' and str(a[3]).startswith('token::'):
                return None
        return '%s instead of %s' % (show(a), show(b))

    def fields(self, st, xs, ys, depth, name):
        for i, (x, y) in enumerate(zip(xs, ys)):
            r = self.eq(st, x, y, depth + 1)
            if r:
                return '%s.%d: %s' % (name.split('::')[-1], i, r)
        return None


def parts(v, d, out):
    """A value and the pieces it is made of."""
    out.append(v)
    if d and isinstance(v, tuple) and v:
        if v[0] == 'en':
            for x in v[3]:
                parts(x, d - 1, out)
        elif v[0] in ('st', 'clo'):
            for x in v[2]:
                parts(x, d - 1, out)
        elif v[0] == 'tup':
            for x in v[1]:
                parts(x, d - 1, out)


def share(E, st, mem):
    """Where a structured value of the rules equals one the code holds, use the
    very term the code holds, so that merging states keeps the two together."""
    if not (st.ext and st.ext.spec):
        return False
    cand = None
    hit = False
    for f in st.ext.spec.frames:
        for k, v in f.env.items():
            if not (isinstance(v, tuple) and v and v[0] in ('en', 'st', 'tup', 'seq') and (v[0] == 'seq' or v[-1])):
                continue
            if cand is None:
                cand = []
                for s in sorted((s for s in mem if s[0] in ('L', 'H')), key=repr):
                    parts(mem[s], 2, cand)
                cand = [c for c in dict.fromkeys(cand)
                        if isinstance(c, tuple) and c and c[0] in ('en', 'st', 'tup', 'seq')]
            if v in cand:
                continue
            for c in cand:
                if c[0] == v[0] and E.eq(st, c, v) is None:
                    f.env[k] = c
                    hit = True
                    break
    return hit


def is_num(a):
    return isinstance(a, int) or (isinstance(a, tuple) and a and a[0] not in (
        'st', 'en', 'tup', 's', 'seq', 'ref', 'vref', 'clo', 'fndef', 'imap'))


def is_bool(a):
    return isinstance(a, int) or (isinstance(a, tuple) and a and a[0] in BOOL + ('bsym', 'tageq', 'v', 'fld', 'haskey'))


def show(v, d=3):
    if isinstance(v, int):
        return str(v)
    if not isinstance(v, tuple) or not v:
        return repr(v)
    h = v[0]
    if d == 0:
        return '..'
    if h == 'en':
        return v[2] + ('(%s)' % ', '.join(show(x, d - 1) for x in v[3]) if v[3] else '')
    if h == 'st':
        return '%s{%s}' % (v[1].split('::')[-1], ', '.join(show(x, d - 1) for x in v[2]))
    if h == 'tup':
        return '(%s)' % ', '.join(show(x, d - 1) for x in v[1])
    if h == 's':
        return repr(v[1])
    if h == 'seq':
        return '[%s%s]' % (show(v[1], d - 1) + '; ' if v[1] is not None else '', ', '.join(show(x, d - 1) for x in v[2]))
    if h == 'lin':
        return '+'.join(['%s%s' % ('' if k == 1 else '%d*' % k, show(a, d)) for a, k in v[2]] + ([str(v[1])] if v[1] else []))
    if h == 'v':
        return '%s%s' % (v[1], v[2])
    if h == 'fld':
        return '%s.%s' % (show(v[1], d), str(v[3]).split('::')[-1] + str(v[2]))
    if h == 'elem':
        return '%s[%s]' % (show(v[1], d - 1), show(v[2], d))
    if h == 'any':
        return '_'
    return '%s(%s)' % (h, ', '.join(show(x, d - 1) for x in v[1:3] if isinstance(x, (int, tuple))))
