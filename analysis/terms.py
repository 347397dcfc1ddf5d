"""Terms, linear integer forms, and the knowledge store of the abstract domain.

Values are hashable tuples:
  int               a known integer (booleans are 0/1)
  ('lin', c, ((atom, k), ...))   c + sum k*atom
  ('s', text)       a known string
  ('tup', (..))     tuple;  ('st', path, (..)) struct;  ('en', path, variant, (..)) enum value
  ('clo', tyid, (..)) closure;  ('fndef', tyid) function item
  ('seq', base, (elems..))  sequence: optional opaque base followed by known elements
  ('ref', root, path)   reference to a place;  ('vref', value) reference to an immutable value
  anything else     an opaque term (its head says how it was obtained)
Boolean terms: ('ge', lin)  lin >= 0;  ('eq0', lin);  ('is', term, tags);
  ('streq', a, b); ('not', b); ('and', a, b); ('or', a, b); other opaque.
"""

CONCRETE = ('lin', 's', 'tup', 'st', 'en', 'clo', 'fndef', 'seq', 'ref', 'vref')
BOOL = ('ge', 'eq0', 'is', 'streq', 'not', 'and', 'or')

_key_cache = {}


def skey(t):
    """Deterministic sort key for atoms."""
    k = _key_cache.get(t)
    if k is None:
        k = repr(t)
        _key_cache[t] = k
    return k


def is_lin(t):
    return isinstance(t, tuple) and t[0] == 'lin'


def lin_parts(t):
    if isinstance(t, int):
        return int(t), ()
    if t[0] == 'lin':
        return t[1], t[2]
    return 0, ((t, 1),)


def mk_lin(c, terms):
    """terms: iterable of (atom, coef)"""
    d = {}
    for a, k in terms:
        # normalise nested structure
        if a[0] == 'len':
            cc, tt = len_parts(a[1])
            if tt != ((a, 1),):
                c += k * cc
                for a2, k2 in tt:
                    d[a2] = d.get(a2, 0) + k * k2
                continue
        d[a] = d.get(a, 0) + k
    ts = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: skey(x[0])))
    if not ts:
        return c
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return ('lin', c, ts)


def len_parts(base):
    """Length of an opaque sequence base as (c, terms)."""
    if not isinstance(base, tuple) or not base:
        return 0, ((('len', base), 1),)
    if base[0] == 'init':
        c, t = len_parts(base[1])
        return c - 1, t
    if base[0] in ('upd',):
        return len_parts(base[1])
    if base[0] == 'ver':
        return len_parts(base[1])
    if base[0] == 'seq':
        c, t = lin_parts(seq_len(base))
        return c, t
    if base[0] == 'subseq':
        return lin_parts(sub(base[3], base[2]))
    return 0, ((('len', base), 1),)


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    ca, ta = lin_parts(a)
    cb, tb = lin_parts(b)
    if (not ta or not tb) and not any(x[0] == 'len' for x, k in ta + tb):
        # no new atoms: the order stands
        c, t = ca + cb, ta or tb
        return t[0][0] if c == 0 and len(t) == 1 and t[0][1] == 1 else ('lin', c, t)
    return mk_lin(ca + cb, ta + tb)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 1:
        return a
    c, t = lin_parts(a)
    if k == 0 or any(x[0] == 'len' for x, n in t):
        return mk_lin(c * k, tuple((x, n * k) for x, n in t))
    c, t = c * k, tuple([(x, n * k) for x, n in t])
    return t[0][0] if c == 0 and len(t) == 1 and t[0][1] == 1 else ('lin', c, t)


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return add(a, scale(b, -1))


def seq_len(s):
    base, elems = s[1], s[2]
    if base is None:
        return len(elems)
    c, t = len_parts(base)
    return mk_lin(c + len(elems), t)


def mk_struct(path, fields):
    """Struct value, collapsed when it is a field-by-field copy of one opaque."""
    if fields:
        f0 = fields[0]
        if isinstance(f0, tuple) and f0[0] == 'fld' and f0[2] == 0 and f0[3] == path:
            b = f0[1]
            if all(isinstance(f, tuple) and f[0] == 'fld' and f[1] == b and f[2] == i and f[3] == path
                   for i, f in enumerate(fields)):
                return b
    return ('st', path, tuple(fields))


def mk_enum(path, variant, fields):
    if fields:
        f0 = fields[0]
        vp = path + '::' + variant
        if isinstance(f0, tuple) and f0[0] == 'fld' and f0[2] == 0 and f0[3] == vp:
            b = f0[1]
            if all(isinstance(f, tuple) and f[0] == 'fld' and f[1] == b and f[2] == i and f[3] == vp
                   for i, f in enumerate(fields)):
                return b
    return ('en', path, variant, tuple(fields))


def subst(t, m, cache=None):
    """Replace atoms (whole terms) by the mapping m, rebuilding linear forms."""
    if cache is None:
        cache = {}
    return _subst(t, m, cache)


def _subst(t, m, cache):
    if not isinstance(t, tuple):
        return t
    r = cache.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t and t[0] == 'lin':
        r = t[1]
        for a, k in t[2]:
            r = add(r, scale(_subst(a, m, cache), k))
    elif t and t[0] in ('ge', 'eq0') and len(t) == 2:
        x = _subst(t[1], m, cache)
        r = (t[0], x)
    elif t and t[0] == 'len' and len(t) == 2:
        b = _subst(t[1], m, cache)
        if isinstance(b, tuple) and b[0] == 'seq':
            r = seq_len(b)
        else:
            c, tt = len_parts(b)
            r = mk_lin(c, tt)
    else:
        r = tuple(_subst(x, m, cache) for x in t)
        if r == t:
            r = t
        elif t and t[0] == 'st' and len(t) == 3:
            r = mk_struct(r[1], r[2])
        elif t and t[0] == 'en' and len(t) == 4:
            r = mk_enum(*r[1:])
        elif t and t[0] == 'seq' and isinstance(r[1], tuple) and r[1] and r[1][0] == 'seq':
            r = ('seq', r[1][1], r[1][2] + r[2])
    cache[t] = r
    return r


def subterms(t, out):
    if isinstance(t, tuple):
        if t in out:
            return
        out.add(t)
        for x in t:
            subterms(x, out)


INF = float('inf')


class Know:
    """Path facts: tag sets, intervals, string and boolean facts."""
    __slots__ = ('tags', 'iv', 'strs', 'bools', 'lemma')

    def __init__(self, lemma=None):
        self.tags = {}
        self.iv = {}
        self.strs = {}
        self.bools = {}
        self.lemma = lemma

    def vacuous(self, t):
        """t is a property of something that does not exist."""
        return self.lemma is not None and self.lemma.vacuous(self, t)

    def copy(self):
        k = Know.__new__(Know)
        k.tags = dict(self.tags)
        k.iv = dict(self.iv)
        k.strs = dict(self.strs)
        k.bools = dict(self.bools)
        k.lemma = self.lemma
        return k

    # --- enum tags
    def get_tags(self, t):
        r = self.tags.get(t)
        if self.lemma:
            x = self.lemma.tags(self, t)
            if x is not None:
                r = x if r is None else (r & x)
        return r

    def set_tags(self, t, s):
        self.tags[t] = s
        if self.lemma:
            return self.lemma.on_tags(self, t, s)
        return True

    # --- integers
    @staticmethod
    def norm(lin):
        c, t = lin_parts(lin)
        if t and t[0][1] < 0:
            return -c, tuple((a, -k) for a, k in t), -1
        return c, t, 1

    def atom_iv(self, a):
        if a[0] == 'sat':
            lo, hi = self.interval(a[1])
            return (max(min(lo, a[2]), 0), min(hi, a[2]))
        if a[0] == 'satsub' and isinstance(a[2], int):
            lo, hi = self.interval(a[1])
            return (max(0, lo - a[2]), hi - a[2] if hi != INF else INF)
        if a[0] == 'cast':
            return (0, (1 << a[2]) - 1)
        if a[0] == 'ity':
            return (0, (1 << a[2]) - 1)
        if a[0] == 'v' and a[1] == 'j':
            return (-INF, INF)
        return (0, INF)

    def interval(self, lin):
        c, t, sg = self.norm(lin)
        if not t:
            return (c, c) if sg == 1 else (-c, -c)
        lo, hi = self.iv.get(t, (-INF, INF))
        # sum of atoms
        slo = shi = 0
        for a, k in t:
            if len(t) == 1:
                al, ah = self.atom_iv(a)
            else:
                al, ah = self.interval(a)
            if self.lemma:
                x = self.lemma.atom_iv(self, a)
                if x:
                    al, ah = max(al, x[0]), min(ah, x[1])
            if k > 0:
                slo += k * al
                shi += k * ah
            else:
                slo += k * ah
                shi += k * al
        lo, hi = max(lo, slo), min(hi, shi)
        if len(t) == 2 and t[0][1] == 1 and t[1][1] == -1 and self.lemma is not None and self.lemma.transitive:
            lo, hi = self.through(t[0][0], t[1][0], lo, hi)
        elif len(t) == 1 and self.lemma is not None and self.lemma.transitive:
            a = t[0][0]
            for u, (l, h) in self.iv.items():
                if len(u) == 2 and u[0][1] == 1 and u[1][1] == -1:
                    if u[0][0] == a:
                        x = self.iv.get(((u[1][0], 1),))
                        if x:
                            lo, hi = max(lo, x[0] + l), min(hi, x[1] + h)
                    elif u[1][0] == a:
                        x = self.iv.get(((u[0][0], 1),))
                        if x:
                            lo, hi = max(lo, x[0] - h), min(hi, x[1] - l)
        lo, hi = lo + c, hi + c
        if sg < 0:
            lo, hi = -hi, -lo
        return lo, hi

    def through(self, a, b, lo, hi):
        """Bounds of a - b by way of a third atom."""
        via = {}
        for u, (l, h) in self.iv.items():
            if len(u) == 2 and u[0][1] == 1 and u[1][1] == -1:
                x, y = u[0][0], u[1][0]
                if a == x:
                    via[y] = (l, h)
                elif a == y:
                    via[x] = (-h, -l)
        if via:
            for u, (l, h) in self.iv.items():
                if len(u) == 2 and u[0][1] == 1 and u[1][1] == -1:
                    x, y = u[0][0], u[1][0]
                    if b == y and x in via:
                        m = via[x]
                        lo, hi = max(lo, m[0] + l), min(hi, m[1] + h)
                    elif b == x and y in via:
                        m = via[y]
                        lo, hi = max(lo, m[0] - h), min(hi, m[1] - l)
        return lo, hi

    def assume_ge(self, lin):
        """lin >= 0; False if impossible."""
        lo, hi = self.interval(lin)
        if hi < 0:
            return False
        if lo >= 0:
            return True
        c, t, sg = self.norm(lin)
        a, b = self.iv.get(t, (-INF, INF))
        # sg*(c + t) >= 0
        if sg == 1:
            a = max(a, -c)
        else:
            b = min(b, -c)
        if self.bools:
            while a <= b and a != -INF and self.differs(t, a):
                a += 1
            while a <= b and b != INF and self.differs(t, b):
                b -= 1
        if a > b:
            return False
        self.iv[t] = (a, b)
        if len(t) == 1 and t[0][0][0] == 'chr' and self.lemma:
            return self.lemma.on_chr(self, t[0][0])
        return True

    def differs(self, t, x):
        e = mk_lin(-int(x), t)
        return self.bools.get(('eq0', e)) == 0 or self.bools.get(('eq0', scale(e, -1))) == 0

    def assume_eq0(self, lin):
        return self.assume_ge(lin) and self.assume_ge(scale(lin, -1))

    # --- booleans
    def ev(self, b):
        """1, 0 or None."""
        if isinstance(b, int):
            return 1 if b else 0
        h = b[0]
        if h == 'ge':
            lo, hi = self.interval(b[1])
            if lo >= 0:
                return 1
            if hi < 0:
                return 0
            return self.bools.get(b)
        if h == 'eq0':
            lo, hi = self.interval(b[1])
            if lo == hi == 0:
                return 1
            if lo > 0 or hi < 0:
                return 0
            x = self.bools.get(b)
            if x is None:
                x = self.bools.get(('eq0', scale(b[1], -1)))
            if x is None and self.lemma:
                x = self.lemma.ev(self, b)
            return x
        if h == 'is':
            s = self.get_tags(b[1])
            if s is not None:
                if s <= b[2]:
                    return 1
                if not (s & b[2]):
                    return 0
            return None
        if h == 'not':
            x = self.ev(b[1])
            return None if x is None else 1 - x
        if h == 'and':
            x, y = self.ev(b[1]), self.ev(b[2])
            if x == 0 or y == 0:
                return 0
            if x == 1 and y == 1:
                return 1
            return None
        if h == 'or':
            x, y = self.ev(b[1]), self.ev(b[2])
            if x == 1 or y == 1:
                return 1
            if x == 0 and y == 0:
                return 0
            return None
        if h == 'streq':
            return self.ev_streq(b[1], b[2])
        if h == 'strin':
            rs = {self.ev_streq(b[1], ('s', x)) for x in b[2]}
            if 1 in rs:
                return 1
            if rs == {0}:
                return 0
            f = self.strs.get(b[1])
            if f and f[0] == 'in' and f[1] <= b[2]:
                return 1
            return self.lemma.strin(self, b[1], b[2]) if self.lemma and hasattr(self.lemma, 'strin') else None
        r = self.bools.get(b)
        if r is None and self.lemma:
            r = self.lemma.ev(self, b)
        return r

    def ev_streq(self, a, b):
        if a == b:
            return 1
        ca, cb = a[0] == 's', b[0] == 's'
        if ca and cb:
            return 1 if a[1] == b[1] else 0
        if ca:
            a, b = b, a
            ca, cb = cb, ca
        if cb:
            f = self.strs.get(a)
            if f:
                if f[0] == 'eq':
                    return 1 if f[1] == b[1] else 0
                if (b[1] in f[1]) == (f[0] == 'ne'):
                    return 0
            if self.lemma:
                return self.lemma.streq(self, a, b[1])
            return None
        fa, fb = self.strs.get(a), self.strs.get(b)
        if fa and fb and fa[0] == 'eq' and fb[0] == 'eq':
            return 1 if fa[1] == fb[1] else 0
        k = ('streq',) + tuple(sorted((a, b), key=skey))
        return self.bools.get(k)

    def assume(self, b, truth):
        """List of knowledge stores in which b has the given truth."""
        e = self.ev(b)
        if e is not None:
            return [self] if bool(e) == bool(truth) else []
        h = b[0]
        if h == 'not':
            return self.assume(b[1], not truth)
        if h in ('and', 'or'):
            if (h == 'and') == bool(truth):
                out = []
                for k in self.assume(b[1], truth):
                    out += k.assume(b[2], truth)
                return out
            out = list(self.assume(b[1], truth))
            for k in self.assume(b[1], not truth):
                out += k.assume(b[2], truth)
            return out
        k = self.copy()
        if h == 'ge':
            ok = k.assume_ge(b[1]) if truth else k.assume_ge(sub(scale(b[1], -1), 1))
            return [k] if ok else []
        if h == 'eq0':
            if truth:
                return [k] if k.assume_eq0(b[1]) else []
            lo, hi = k.interval(b[1])
            if lo == 0:
                return [k] if k.assume_ge(sub(b[1], 1)) else []
            if hi == 0:
                return [k] if k.assume_ge(sub(scale(b[1], -1), 1)) else []
            k.bools[b] = 0
            return [k]
        if h == 'is':
            s = k.get_tags(b[1])
            if s is None:
                s = b[3]
            n = (s & b[2]) if truth else (s - b[2])
            if not n:
                return []
            return [k] if k.set_tags(b[1], n) is not False else []
        if h == 'streq':
            return k.assume_streq(b[1], b[2], truth)
        if h == 'strin':
            f = self.strs.get(b[1])
            if truth:
                r = frozenset(x for x in b[2] if self.ev_streq(b[1], ('s', x)) != 0)
                k.strs[b[1]] = ('in', r) if len(r) > 1 else ('eq', min(r))
            elif f and f[0] == 'in':
                r = f[1] - b[2]
                k.strs[b[1]] = ('in', r) if len(r) > 1 else ('eq', min(r))
            else:
                k.strs[b[1]] = ('ne', (f[1] if f else frozenset()) | b[2])
            return [k]
        k.bools[b] = 1 if truth else 0
        return [k]

    def assume_streq(self, a, b, truth):
        if a[0] == 's':
            a, b = b, a
        if b[0] == 's':
            f = self.strs.get(a)
            if truth:
                self.strs[a] = ('eq', b[1])
            else:
                if f and f[0] == 'in':
                    r = f[1] - {b[1]}
                    self.strs[a] = ('in', r) if len(r) > 1 else ('eq', min(r))
                else:
                    old = f[1] if f else frozenset()
                    self.strs[a] = ('ne', old | {b[1]})
            return [self]
        key = ('streq',) + tuple(sorted((a, b), key=skey))
        self.bools[key] = 1 if truth else 0
        return [self]

    # --- maintenance
    def subst(self, m):
        cache = {}
        k = Know(self.lemma)
        for t, s in self.tags.items():
            k.tags[subst(t, m, cache)] = s
        for t, iv in self.iv.items():
            n = subst(('lin', 0, t) if True else t, m, cache)
            c, tt, sg = self.norm(n)
            if not tt:
                continue
            lo, hi = iv
            # value in [lo,hi]; n == value; n = sg*(c+tt)
            if sg < 0:
                lo, hi = -hi, -lo
            lo, hi = lo - c, hi - c
            a, b = k.iv.get(tt, (-INF, INF))
            k.iv[tt] = (max(a, lo), min(b, hi))
        for t, f in self.strs.items():
            k.strs[subst(t, m, cache)] = f
        for t, v in self.bools.items():
            k.bools[subst(t, m, cache)] = v
        return k

    def gc(self, live):
        """Drop facts about terms that no longer occur (live: set of terms)."""
        for d in (self.tags, self.strs):
            for t in [t for t in d if t not in live]:
                del d[t]
        for t in [t for t in self.iv if not all(a in live for a, _ in t)]:
            del self.iv[t]
        for t in list(self.bools):
            s = t[1] if t[0] in ('ge', 'eq0') else t
            c = lin_parts(s)[1] if t[0] in ('ge', 'eq0') else ()
            if t[0] in ('ge', 'eq0'):
                if not all(a in live for a, _ in c):
                    del self.bools[t]
            elif not all((x in live) for x in t[1:] if isinstance(x, tuple)):
                del self.bools[t]
