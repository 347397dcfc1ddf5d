"""Lockstep exploration of the analysed code against the reference rules.

A product state holds the frames and memory of the analysed code, the state of
the rule interpreter and the facts known about the values both share.  States
at the same pair of control points are merged by anti-unification, so loops are
covered for any number of iterations.
"""
from terms import *
from absint import State, Unsupported



class Ext:
    """The rule side of a product state and ghost data."""
    __slots__ = ('spec', 'ghost', 'moved', 'eat', 'prev')

    def __init__(self, spec):
        self.spec = spec
        self.ghost = {}
        self.moved = False
        self.eat = 0
        self.prev = None

    def copy(self):
        e = Ext(self.spec.copy() if self.spec is not None else None)
        e.ghost = dict(self.ghost)
        e.moved = self.moved
        e.eat = self.eat
        e.prev = self.prev
        return e


def live_at(fn, bb, si):
    cache = fn.d.setdefault('_la', {})
    r = cache.get((bb, si))
    if r is not None:
        return r
    live, addr, succ = fn.live_in()
    if si == 0:
        r = live[bb]
    else:
        out = set()
        for s in succ[bb]:
            out |= live[s]
        b = fn.blocks[bb]
        # reuse the block analysis on the tail of the block
        r = tail_live(fn, b, si, out)
    cache[(bb, si)] = r
    return r


def tail_live(fn, b, si, out):
    from program import Fn
    d = {'path': '', 'kind': '', 'argc': 0, 'locals': fn.locals, 'span': ':0', 'local': True, 'names': [],
         'blocks': [[b[0][si:], b[1]]]}
    # a one-block function whose successors are unknown: add them back by hand
    g, k = block_use(b[0][si:], b[1])
    return g | (out - k)


def block_use(stmts, t):
    g, k = set(), set()

    def place(p):
        if p[0] not in k:
            g.add(p[0])
        for e in p[1]:
            if e[0] == 'i' and e[1] not in k:
                g.add(e[1])

    def op(o):
        if o[0] in ('c', 'm') and len(o) == 2:
            place(o[1])

    def defp(p):
        if p[1]:
            place(p)
        else:
            k.add(p[0])
    for s in stmts:
        if s[0] == '=':
            r = s[2]
            h = r[0]
            if h in ('ref', 'raw', 'disc'):
                place(r[1])
            elif h in ('use', 'rep'):
                op(r[1])
            elif h == 'cast':
                op(r[2])
            elif h == 'bin':
                op(r[2])
                op(r[3])
            elif h == 'un':
                op(r[2])
            elif h == 'agg':
                for o in r[4]:
                    op(o)
            defp(s[1])
        elif s[0] == 'setd':
            place(s[1])
        elif s[0] in ('dead', 'live'):
            k.add(s[1])
    if t[0] == 'switch':
        op(t[1])
    elif t[0] == 'call':
        op(t[1])
        for o in t[2]:
            op(o)
        if t[3][1]:
            place(t[3])
        else:
            k.add(t[3][0])
    elif t[0] == 'assert':
        op(t[1])
        for o in t[4]:
            op(o)
    elif t[0] == 'ret':
        if 0 not in k:
            g.add(0)
    return g, k


def find_refs(v, out):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'ref' and isinstance(v[1], tuple) and v[1] and v[1][0] in ('L', 'H'):
            out.append(v[1])
            for e in v[2]:
                find_refs(e, out)
            return
        for x in v:
            find_refs(x, out)


def ren_refs(v, m):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'ref' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'H':
            return ('ref', m.get(v[1], v[1]), v[2])
        r = tuple(ren_refs(x, m) for x in v)
        return v if r == v else r
    return v


def collect(st, fixed_roots=()):
    """Drop dead locals and unreachable heap, rename heap cells; returns the
    memory as {slot: value}."""
    mem = {}
    work = []
    nf = len(st.frames)
    keep = [set() for _ in range(nf)]
    for fi, fr in enumerate(st.frames):
        if fi == nf - 1:
            lv = live_at(fr.fn, fr.bb, fr.si)
        else:
            up = st.frames[fi + 1]
            lv = set(live_at(fr.fn, up.tgt, 0)) if up.tgt is not None else set()
            if not up.dst[1]:
                lv.discard(up.dst[0])
            else:
                lv.add(up.dst[0])
        for l in sorted(lv):
            if l in fr.loc:
                keep[fi].add(l)
                work.append(('L', fi, l))
    order = []
    seen = set(work)
    for r in fixed_roots:
        if r in st.heap and r not in seen:
            seen.add(r)
            work.append(r)
    i = 0
    specvals = []
    if st.ext is not None and st.ext.spec is not None:
        for f in st.ext.spec.frames:
            specvals.append(tuple(f.env.values()))
    extra = []
    find_refs(tuple(specvals), extra)
    find_refs(tuple(st.ext.ghost.values()) if st.ext else (), extra)
    for r in extra:
        if r not in seen:
            seen.add(r)
            work.append(r)
    while i < len(work):
        r = work[i]
        i += 1
        if r[0] == 'L':
            if r[1] >= nf or r[2] not in st.frames[r[1]].loc:
                continue
            keep[r[1]].add(r[2])
            v = st.frames[r[1]].loc[r[2]]
        else:
            if r not in st.heap:
                continue
            order.append(r)
            v = st.heap[r]
        rs = []
        find_refs(v, rs)
        for x in rs:
            if x not in seen:
                seen.add(x)
                work.append(x)
    ren = {}
    n = 0
    for r in order:
        if r in fixed_roots or r[1] == 'self':
            ren[r] = r
        else:
            ren[r] = ('H', 'h', n)
            n += 1
    changed = any(k != v for k, v in ren.items())
    if changed:
        st.heap = {ren[r]: ren_refs(st.heap[r], ren) for r in order}
        for fi, fr in enumerate(st.frames):
            fr.loc = {l: ren_refs(v, ren) for l, v in fr.loc.items() if l in keep[fi]}
        if st.ext and st.ext.spec:
            for f in st.ext.spec.frames:
                f.env = {k: ren_refs(v, ren) for k, v in f.env.items()}
            st.ext.ghost = {k: ren_refs(v, ren) for k, v in st.ext.ghost.items()}
    else:
        st.heap = {r: st.heap[r] for r in order}
        for fi, fr in enumerate(st.frames):
            fr.loc = {l: v for l, v in fr.loc.items() if l in keep[fi]}
    if st.ext and st.ext.spec:
        for f in st.ext.spec.frames:
            if f.rule.live is not None:
                lv = f.rule.live[min(f.pc, len(f.rule.live) - 1)]
                f.env = {k: v for k, v in f.env.items() if k in lv or k.startswith('ctx_')}
    return memory(st)


def memory(st):
    mem = {}
    for fi, fr in enumerate(st.frames):
        for l, v in fr.loc.items():
            mem[('L', fi, l)] = v
    for r, v in st.heap.items():
        mem[r] = v
    if st.ext:
        if st.ext.spec:
            for i, f in enumerate(st.ext.spec.frames):
                for k, v in f.env.items():
                    mem[('S', i, k)] = v
            for k, v in st.ext.spec.g.items():
                mem[('SG', k)] = v
        for k, v in st.ext.ghost.items():
            mem[('G', k)] = v
    return mem


def set_memory(st, mem):
    for s, v in mem.items():
        if s[0] == 'L':
            st.frames[s[1]].loc[s[2]] = v
        elif s[0] == 'H':
            st.heap[s] = v
        elif s[0] == 'S':
            st.ext.spec.frames[s[1]].env[s[2]] = v
        elif s[0] == 'SG':
            st.ext.spec.g[s[1]] = v
        elif s[0] == 'G':
            st.ext.ghost[s[1]] = v


COARSE = ('ast::', 'error::')


def fieldless(path):
    return path in FIELDLESS


FIELDLESS = set()


def shape(v, d=3):
    if isinstance(v, int):
        return '#'
    if not isinstance(v, tuple) or not v:
        return '*'
    h = v[0]
    if h == 'en':
        if v[1].startswith(COARSE) and (v[3] or not fieldless(v[1])):
            return '*'
        return (v[2],) + (tuple(shape(x, d - 1) for x in v[3]) if d > 0 else ())
    if h in ('tup', 'st', 'clo'):
        if h == 'st' and v[1].startswith(COARSE):
            return '*'
        return (h,) + (tuple(shape(x, d - 1) for x in v[-1]) if d > 0 else ())
    if h == 'vref':
        return ('vref', shape(v[1], d - 1) if d > 0 else '*')
    if h == 'ref':
        return ('ref', v[1], tuple(e[:3] if e[0] == 'f' else e[0] for e in v[2]))
    if h == 'fndef':
        return v
    return '*'


def nums(s, h):
    if s[0] in NUM_SLOTS:
        if isinstance(h, tuple):
            return tuple(nums(s, x) for x in h)
        if h == '#':
            return '*'
    return h


NUM_SLOTS = ()


def control_key(st, mem, boolslots, exact=()):
    fs = tuple((fr.fn.idx, fr.bb, fr.si, fr.tgt) for fr in st.frames)
    sk = st.ext.spec.key() if st.ext and st.ext.spec else ()
    sh = tuple(sorted((s, mem[s] if (s in boolslots or (s[0] in ('S', 'G', 'SG') and isinstance(mem[s], int) and
                                                        mem[s] in (0, 1) and s[-1].startswith('b_')))
                       and isinstance(mem[s], int) else nums(s, shape(mem[s]))) for s in mem))
    return fs, sk, tuple(repr(x) for x in sh), st.ext.eat, exact


def settle(P, st):
    """Decided conditions held in variables become constants."""
    for fr in st.frames:
        for l, v in fr.loc.items():
            if not isinstance(v, int) and P.t(fr.fn.locals[l])['k'] == 'bool':
                e = st.K.ev(v)
                if e is not None:
                    fr.loc[l] = e


def bool_slots(P, st):
    out = set()
    for fi, fr in enumerate(st.frames):
        for l in fr.loc:
            if P.t(fr.fn.locals[l])['k'] == 'bool':
                out.add(('L', fi, l))
    return out


def solve(st, mem):
    """Variables with a known value are replaced by it."""
    while True:
        m = None
        for t, (lo, hi) in st.K.iv.items():
            if lo == hi:
                for a, k in t:
                    if a[0] == 'v' and a[1] == 'j' and abs(k) == 1:
                        if any(b[0] not in ('v', 'len') for b, n in t):
                            continue
                        rest = mk_lin(0, tuple((b, n) for b, n in t if b != a))
                        m = {a: scale(sub(int(lo), rest), k)}
                        break
            if m:
                break
        if not m:
            return mem
        cache = {}
        mem = {s: subst(v, m, cache) for s, v in mem.items()}
        st.K = st.K.subst(m)
        set_memory(st, mem)


# ------------------------------------------------------------ subsumption
class NoMatch(Exception):
    pass


def canon_seq(v):
    if isinstance(v, tuple) and v and v[0] == 'seq' and v[1] is not None and not v[2]:
        return v[1] if v[1][0] != 'seq' else canon_seq(v[1])
    return v


class Matcher:
    def __init__(self):
        self.s = {}
        self.defer = []

    def bind(self, a, v):
        v = canon_seq(v)
        o = self.s.get(a)
        if o is None:
            self.s[a] = v
        elif o != v:
            raise NoMatch((a, o, v))

    def m(self, a, b):
        a, b = canon_seq(a), canon_seq(b)
        if isinstance(a, int) or not isinstance(a, tuple):
            if a != b or type(a) != type(b):
                raise NoMatch((a, b))
            return
        h = a[0] if a else None
        if h == 'v':
            self.bind(a, b)
            return
        if h == 'lin':
            self.defer.append((a, b))
            return
        if h == 'len':
            self.defer.append((('lin', 0, ((a, 1),)), b))
            return
        if h == 'sat':
            b = as_sat(b, a)
            if b is None or b[2] != a[2]:
                raise NoMatch((a, b))
            self.m(a[1], b[1])
            return
        if not isinstance(b, tuple) or not b:
            if a == b:
                return
            raise NoMatch((a, b))
        if h == 'seq' and b[0] == 'seq' and a[1] is not None:
            n = len(a[2])
            if len(b[2]) < n:
                raise NoMatch((a, b))
            pre = ('seq', b[1], b[2][:len(b[2]) - n])
            if b[1] is None and len(b[2]) == n:
                pre = ('seq', None, ())
            self.m(a[1], pre)
            for x, y in zip(a[2], b[2][len(b[2]) - n:]):
                self.m(x, y)
            return
        if isinstance(h, tuple):
            if len(a) != len(b):
                raise NoMatch((a, b))
            for x, y in zip(a, b):
                self.m(x, y)
            return
        if len(a) != len(b) or h != b[0]:
            raise NoMatch((a, b))
        for x, y in zip(a[1:], b[1:]):
            self.m(x, y)

    def finish(self):
        for _ in range(len(self.defer) + 1):
            rest = []
            for a, b in self.defer:
                unb = []
                for x, k in a[2]:
                    try:
                        self.need(x, unb, k)
                    except NoMatch:
                        raise
                if not unb:
                    if subst(a, self.s) != b:
                        raise NoMatch((a, b))
                elif len(unb) == 1 and abs(unb[0][1]) == 1 and unb[0][0][0] == 'v':
                    x, k = unb[0]
                    r = a[1]
                    for y, ky in a[2]:
                        if y != x:
                            r = add(r, scale(subst(y, self.s), ky))
                    if isinstance(b, tuple) and b and b[0] not in ('lin', 'v', 'fld', 'elem', 'len', 'sat', 'pos'):
                        pass
                    self.bind(x, scale(sub(b, r), k))
                else:
                    rest.append((a, b))
            if not rest:
                return
            if len(rest) == len(self.defer):
                raise NoMatch('unsolved')
            self.defer = rest

    def need(self, x, unb, k):
        vs = set()
        freev(x, vs)
        if any(v not in self.s for v in vs):
            unb.append((x, k))


def freev(t, out):
    if isinstance(t, tuple):
        if t and t[0] == 'v' and len(t) == 3:
            out.add(t)
            return
        for x in t:
            freev(x, out)


def entails(K, A, s):
    """Every fact of A holds in K after substitution."""
    cache = {}
    for t, tg in A.tags.items():
        u = subst(t, s, cache)
        if isinstance(u, tuple) and u and u[0] == 'en':
            if u[2] not in tg:
                return 'tag %r' % (t,)
            continue
        g = K.get_tags(u)
        if g is None or not g <= tg:
            return 'tags %r' % (t,)
    for t, (lo, hi) in A.iv.items():
        u = subst(('lin', 0, t), s, cache)
        c, tt = lin_parts(u)
        g = K.iv.get(tt)
        if g is not None and g[0] + c >= lo and g[1] + c <= hi:
            continue
        l, h = K.interval(u)
        if (l < lo or h > hi) and not K.vacuous(u):
            return 'interval %r [%s,%s] vs [%s,%s]' % (t, lo, hi, l, h)
    for t, f in A.strs.items():
        u = subst(t, s, cache)
        if u[0] == 's':
            if (f[0] == 'eq' and u[1] != f[1]) or (f[0] == 'ne' and u[1] in f[1]) or (f[0] == 'in' and u[1] not in f[1]):
                return 'str'
            continue
        g = K.strs.get(u)
        if K.vacuous(u):
            continue
        if f[0] == 'eq':
            if g != f:
                return 'str'
        elif f[0] == 'in':
            if not (g and (g[0] == 'eq' and g[1] in f[1] or g[0] == 'in' and g[1] <= f[1])):
                return 'str'
        elif not (g and (g[0] == 'ne' and f[1] <= g[1] or g[0] == 'eq' and g[1] not in f[1] or g[0] == 'in' and not g[1] & f[1])):
            return 'str'
    for t, v in A.bools.items():
        u = subst(t, s, cache)
        if K.ev(u) != v and not K.vacuous(u):
            return 'bool %r' % (t,)
    return None


def subsumed(A, KA, B, KB):
    """Is (B,KB) an instance of (A,KA)?"""
    if set(A) != set(B):
        return False
    m = Matcher()
    try:
        for k in sorted(A, key=skey):
            m.m(A[k], B[k])
        m.finish()
    except NoMatch as e:
        return False
    return entails(KB, KA, m.s) is None


def as_sat(a, b):
    """a as a saturating number like b."""
    if isinstance(a, tuple) and a and a[0] == 'sat':
        return a
    if isinstance(b, tuple) and b and b[0] == 'sat' and isinstance(a, int) and 0 <= a <= b[2]:
        return ('sat', a, b[2])
    return None


def seq_size(v):
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == 'seq':
        return seq_len(v)
    c, t = len_parts(v)
    return mk_lin(c, t)


# ------------------------------------------------------------ anti-unification
LISTS = {'ver', 'upd', 'seq'}


class Joiner:
    def __init__(self, fresh):
        self.fresh = fresh
        self.pairs = {}
        self.var = {}

    def mk(self, a, b):
        k = (a, b)
        r = self.pairs.get(k)
        if r is None:
            n = ('num', ((a, 1),), b)
            if n in self.pairs:
                return self.pairs[n]
            r = self.fresh()
            self.pairs[k] = self.pairs[n] = r
            self.var[r] = (a, b)
            if self.isseq(a) and self.isseq(b):
                # numbers that equal the length on both sides are the length
                la, lb = seq_size(a), seq_size(b)
                if la is not None and lb is not None and la != lb:
                    ca, ta = lin_parts(la)
                    self.pairs.setdefault(('num', ta, sub(lb, ca)), sub(('len', r), ca))
        return r

    @staticmethod
    def isseq(a):
        return isinstance(a, tuple) and a and a[0] in ('seq', 'init', 'v', 'upd', 'fld')

    @staticmethod
    def isnum(a):
        return isinstance(a, int) or (isinstance(a, tuple) and a and a[0] in ('lin', 'len', 'sat', 'satsub'))

    def j(self, a, b):
        a, b = canon_seq(a), canon_seq(b)
        if a == b and type(a) == type(b):
            return a
        if self.isnum(a) or self.isnum(b):
            x, y = as_sat(a, b), as_sat(b, a)
            if x and y and x[2] == y[2]:
                return ('sat', self.num(x[1], y[1]), x[2])
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'len' and a[1][0] == b[1][0] == 'fld' and a[1][2:] == b[1][2:]:
                return ('len', self.j(a[1], b[1]))
            return self.num(a, b)
        if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b:
            return self.mk(a, b)
        h = a[0]
        if h == b[0] and len(a) == len(b):
            if h == 'st' and a[1] == b[1]:
                return mk_struct(a[1], tuple(self.j(x, y) for x, y in zip(a[2], b[2])))
            if h == 'en' and a[1] == b[1] and a[2] == b[2]:
                return mk_enum(a[1], a[2], tuple(self.j(x, y) for x, y in zip(a[3], b[3])))
            if h == 'tup' and len(a[1]) == len(b[1]):
                return ('tup', tuple(self.j(x, y) for x, y in zip(a[1], b[1])))
            if h == 'clo' and a[1] == b[1]:
                return ('clo', a[1], tuple(self.j(x, y) for x, y in zip(a[2], b[2])))
            if h == 'vref':
                return ('vref', self.j(a[1], b[1]))
            if h == 'ref' and a[1] == b[1] and len(a[2]) == len(b[2]):
                p = []
                for x, y in zip(a[2], b[2]):
                    if x == y:
                        p.append(x)
                    elif x[0] == 'i' == y[0]:
                        p.append(('i', self.j(x[1], y[1])))
                    else:
                        raise Unsupported('join of different references')
                return ('ref', a[1], tuple(p))
            if h == 'fld' and a[2:] == b[2:]:
                return ('fld', self.j(a[1], b[1]), a[2], a[3])
            if h == 'elem':
                return ('elem', self.j(a[1], b[1]), self.j(a[2], b[2]))
            if h in ('iter', 'intoiter', 'range', 'imiter'):
                return (h,) + tuple(self.j(x, y) for x, y in zip(a[1:], b[1:]))
            if h == 'seq' and a[1] == b[1] and len(a[2]) == len(b[2]):
                return ('seq', a[1], tuple(self.j(x, y) for x, y in zip(a[2], b[2])))
            f = getattr(self, 'extra', None)
            if f:
                r = f(self, a, b)
                if r is not None:
                    return r
        elif LISTS & {h, b[0]}:
            f = getattr(self, 'extra', None)
            r = f(self, a, b) if f else None
            if r is not None:
                return r
        return self.mk(a, b)

    def num(self, a, b):
        if not (self.numlike(a) and self.numlike(b)):
            return self.mk(a, b)
        ca, ta = lin_parts(a)
        d = sub(b, ca)
        k = ('num', ta, d)
        # d as a hashable
        r = self.pairs.get(k)
        if r is None:
            r = self.fresh()
            self.pairs[k] = r
            self.var[r] = (sub(a, ca), d)
        return add(r, ca)

    def numlike(self, a):
        if isinstance(a, int):
            return True
        return isinstance(a, tuple) and a and a[0] not in ('st', 'en', 'tup', 's', 'seq', 'ref', 'vref', 'clo', 'fndef')


def join(A, KA, B, KB, fresh, lemma, widen, extra=None, watch=None, thresh=((), ()), forms=None):
    """Least general state covering both; None if the slots differ."""
    J = Joiner(fresh)
    if extra:
        J.extra = extra
    mem = {}
    for k in sorted(A, key=skey):
        mem[k] = J.j(A[k], B[k])
    sa = {v: p[0] for v, p in J.var.items()}
    sb = {v: p[1] for v, p in J.var.items()}
    K = Know(lemma)
    subs = set()
    for v in mem.values():
        subterms(v, subs)
    if watch:
        watch(mem, subs)
    # lengths of joined sequences are facts too
    ca, cb = {}, {}
    atoms = set()
    inv = {}

    def note(t):
        a = subst(t, sa, ca)
        inv.setdefault(a, []).append(t)
    for t in list(subs):
        if not t or t[0] in ('lin', 'L', 'H', 'f', 'i') or not isinstance(t[0], str):
            continue
        if t[0] in ('st', 'en', 'tup', 'clo', 'ref', 'vref', 'seq', 's', 'fndef'):
            continue
        a, b = subst(t, sa, ca), subst(t, sb, cb)
        note(t)
        ta = frozenset([a[2]]) if isinstance(a, tuple) and a and a[0] == 'en' else (KA.get_tags(a) if isinstance(a, tuple) else None)
        tb = frozenset([b[2]]) if isinstance(b, tuple) and b and b[0] == 'en' else (KB.get_tags(b) if isinstance(b, tuple) else None)
        if ta is not None and tb is not None:
            K.tags[t] = ta | tb
        fa = strfact(KA, a)
        fb = strfact(KB, b)
        if (fa or fb) and t[0] == 'elem':
            if not fa and KA.vacuous(a):
                fa = fb
            if not fb and KB.vacuous(b):
                fb = fa
        if fa and fb:
            if fa == fb:
                K.strs[t] = fa
            else:
                n = nes(fa, fb)
                if n:
                    K.strs[t] = n
        if t[0] == 'elem' and K.strs.get(t, ('ne',))[0] == 'ne':
            for xs in TEXT_SETS:
                p = [KX.ev(('strin', x, xs)) for KX, x in ((KA, a), (KB, b)) if not KX.vacuous(x)]
                if p and not any(p) and None not in p:
                    K.strs[t] = ('ne', K.strs[t][1] | xs if t in K.strs else xs)
        if t[0] == 'v' or t[0] == 'fld':
            ea, eb = evb(KA, a), evb(KB, b)
            if ea is not None and ea == eb and not isinstance(a, int):
                K.bools[t] = ea
        atoms.add(t)
        lt = ('len', t)
        if t[0] == 'v':
            try:
                la = subst(lt, sa, ca)
                inv.setdefault(la, []).append(lt)
            except Exception:
                pass
    # interval facts: of single atoms that were generalised, and of every
    # combination known on the left side
    cands = {}
    for t in atoms | {('len', t) for t in atoms if t[0] == 'v'}:
        a, b = subst(t, sa, ca), subst(t, sb, cb)
        if (a != t or b != t) and J.numlike(a) and J.numlike(b):
            cands[((t, 1),)] = (a, b)
    for KX, sx in ((KA, 0), (KB, 1)):
        for t, iv in KX.iv.items():
            for comb in combos(t, inv if sx == 0 else None, J, sx):
                c, tt, sg = K.norm(comb)
                if tt and tt not in cands:
                    cands[tt] = (subst(('lin', 0, tt), sa, ca), subst(('lin', 0, tt), sb, cb))
    for f in (forms(mem) if forms else ()):
        c, tt, sg = K.norm(f)
        if tt:
            f = ('lin', 0, tt)
            cands[tt] = (subst(f, sa, ca), subst(f, sb, cb))
    for tt, (a, b) in cands.items():
        if any(x not in subs and not (x[0] == 'len' and x[1] in subs) for x, k in tt):
            continue
        try:
            la, ha = KA.interval(a)
            lb, hb = KB.interval(b)
        except Exception:
            continue
        if len(tt) == 1 and tt[0][0][0] == 'chr':
            if KA.vacuous(a):
                la, ha = lb, hb
            elif KB.vacuous(b):
                lb, hb = la, ha
        lo, hi = min(la, lb), max(ha, hb)
        if widen:
            if lb < la and not (widen < 2 and forms and lo > -INF and len(tt) == 1 and tt[0][0][:2] == ('v', 'j')):
                lo = next((x for x in thresh[0] if x <= lo and widen < 2), -INF)
            if hb > ha:
                hi = next((x for x in thresh[1] if x >= hi), INF)
        dl, dh = K.interval(('lin', 0, tt))
        if lo > dl or hi < dh:
            o = K.iv.get(tt, (-INF, INF))
            K.iv[tt] = (max(lo, o[0]), min(hi, o[1]))
    for t, v in KA.bools.items():
        for t2 in inverse(t, inv):
            u = subst(t2, sb, cb)
            if KB.ev(u) == v or KB.vacuous(u):
                K.bools[t2] = v
    for t in subs:
        if t and t[0] in ('bsym', 'haskey') and t not in K.bools:
            a, b = subst(t, sa, ca), subst(t, sb, cb)
            ea, eb = KA.ev(a), KB.ev(b)
            if ea is None and KA.vacuous(a):
                ea = eb
            if eb is None and KB.vacuous(b):
                eb = ea
            if ea is not None and ea == eb:
                K.bools[t] = ea
    # offsets count from their least value
    m = {}
    for v in (J.var if forms else ()):
        lo = K.interval(v)[0]
        if -INF < lo < 0:
            m[v] = add(fresh(), int(lo))
    if m:
        cache = {}
        mem = {s: subst(v, m, cache) for s, v in mem.items()}
        K = K.subst(m)
    return mem, K


IN_LIMIT = 0
TEXT_SETS = ()           # sets of texts whose exclusion is kept when states are merged


def strfact(K, a):
    if isinstance(a, tuple) and a and a[0] == 's':
        return ('eq', a[1])
    return K.strs.get(a)


def nes(fa, fb):
    """The text fact both facts imply."""
    if fa[0] == 'ne' == fb[0]:
        n = fa[1] & fb[1]
    elif fa[0] == 'ne' or fb[0] == 'ne':
        if fb[0] == 'ne':
            fa, fb = fb, fa
        n = fa[1] - ({fb[1]} if fb[0] == 'eq' else fb[1])
    else:
        a, b = ({f[1]} if f[0] == 'eq' else f[1] for f in (fa, fb))
        return ('in', frozenset(a | b)) if IN_LIMIT >= len(a | b) else None
    return ('ne', n) if n else None


def evb(K, a):
    if isinstance(a, int):
        return None
    return K.bools.get(a)


def combos(t, inv, J, side):
    """Linear forms over joined atoms whose image on one side is t."""
    if inv is None:
        inv = {}
        for v, p in J.var.items():
            inv.setdefault(p[1], []).append(v)
    outs = [0]
    for a, k in t:
        opts = list(inv.get(a, []))
        # number variables: var v with image c + a
        for v, p in J.var.items():
            img = p[side]
            if isinstance(img, tuple) and img and img[0] == 'lin' and img[2] == ((a, 1),):
                opts.append(sub(v, img[1]))
        if side == 1 or not opts:
            vs = set()
            freev(a, vs)
            if not opts:
                opts.append(a)
        nxt = []
        for o in outs:
            for x in opts[:3]:
                nxt.append(add(o, scale(x, k)))
        outs = nxt[:9]
    return [o for o in outs if not isinstance(o, int)]


def inverse(t, inv):
    """Terms over joined atoms whose left image is t (a few)."""
    r = inv.get(t)
    if r:
        return r[:3]
    m = {}
    vs = set()
    subterms(t, vs)
    for x in vs:
        if x in inv and x and isinstance(x[0], str):
            m[x] = inv[x][0]
    return [subst(t, m)]


# ------------------------------------------------------------ exploration
class Explorer:
    def __init__(self, dom, limit=6000, steps=10 ** 9):
        self.D = dom
        self.limit = limit
        self.steps = steps
        self.states = 0
        self.edges = []
        self.joins = 0
        self.subsumptions = 0
        self.transitions = 0
        self.gn = 0

    def explore(self, inits):
        global IN_LIMIT, TEXT_SETS, NUM_SLOTS
        D = self.D
        IN_LIMIT, TEXT_SETS = getattr(D, 'in_limit', 0), getattr(D, 'text_sets', ())
        NUM_SLOTS = getattr(D, 'num_slots', ())
        table = {}
        ids = {}
        work = []
        n = 0
        counts = {}

        def admit(st, parent):
            nonlocal n
            fixed = D.fixed_roots
            settle(D.P, st)
            mem = collect(st, fixed)
            if D.share(st, mem):
                mem = memory(st)
            live = set()
            for v in mem.values():
                subterms(v, live)
            D.watch(mem, live)
            lens = {('len', t) for t in live}
            st.K.gc(live | lens)
            D.invariants(st, mem)
            if D.ordered:
                mem = D.normal(st, solve(st, mem))
            elif D.solved:
                mem = solve(st, mem)
            key = control_key(st, mem, bool_slots(D.P, st), D.exact(st, mem))
            moved = st.ext.moved
            cur = table.get(key)
            if cur is not None:
                A, KA, node, an = cur
                if subsumed(A, KA, mem, st.K):
                    self.subsumptions += 1
                    self.edges.append((parent, node, moved))
                    return
                counts[key] = counts.get(key, 0) + 1
                if counts[key] > 60:
                    raise Unsupported('no fixpoint at %s / rule %s' % (st.where()[1], st.ext.spec.where()))

                def fresh():
                    self.gn += 1
                    return ('v', 'j', self.gn)
                jm, jk = join(A, KA, mem, st.K, fresh, st.K.lemma, (counts[key] > D.patience) + (counts[key] > 25), D.join_extra, D.watch, D.thresholds, D.forms)
                self.joins += 1
                st.n = max(st.n, an)
                set_memory(st, jm)
                st.K = jk
                D.invariants(st, jm)
                if D.ordered:
                    jm, jk = D.normal(st, solve(st, jm)), st.K
                elif D.solved:
                    jm, jk = solve(st, jm), st.K
                mem = jm
                table[key] = (dict(jm), jk.copy(), node, st.n)
            else:
                node = len(table)
                table[key] = (dict(mem), st.K.copy(), node, st.n)
            self.edges.append((parent, node, moved))
            st.ext.moved = False
            st.ext.prev = node
            self.states += 1
            if self.states > self.limit:
                raise Unsupported('state limit in rule')
            if D.ordered:
                work[:] = [w for w in work if w.ext.prev != node]
            work.append(st)
        for s in inits:
            admit(s, None)
        while work:
            if D.ordered:
                # earlier control points settle first
                work.sort(key=lambda s: -s.ext.prev)
            st = work.pop()
            node = st.ext.prev
            for s2 in D.advance(st):
                self.transitions += 1
                if self.transitions > self.steps:
                    raise Unsupported('too many steps')
                admit(s2, node)
        self.nodes = len(table)
        return self

    def bounded(self, inits, deep=None, seconds=60.0):
        """Short runs only, none merged: finds deviations, decides nothing else.

        With `deep` (a bit mask) one long run goes first: bit i says which way it leaves the i-th branching place it meets."""
        import time
        D = self.D
        global IN_LIMIT, TEXT_SETS, NUM_SLOTS
        IN_LIMIT, TEXT_SETS = getattr(D, 'in_limit', 0), getattr(D, 'text_sets', ())
        NUM_SLOTS = getattr(D, 'num_slots', ())
        end = time.time() + seconds
        work = [(s, 0) for s in inits]
        i = 0
        dropped = set()
        places = {}
        while i < len(work):
            if deep is None:
                st, depth = work[i]
                work[i] = None
            else:
                # one long run first
                st, depth = work.pop()
                work.insert(0, None)
            i += 1
            if self.transitions > self.steps or time.time() > end:
                dropped.add('limit')
                break
            settle(D.P, st)
            D.invariants(st, memory(st))
            st.ext.prev = depth
            at = tuple((fr.fn.idx, fr.bb) for fr in st.frames)
            try:
                nxt = D.advance(st)
            except Unsupported as e:
                dropped.add(str(e))
                continue
            except (KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError) as e:
                dropped.add('analyser error: %s: %s' % (type(e).__name__, e))
                continue
            self.transitions += len(nxt)
            if D.findings and D.enough():
                break
            if deep is not None and len(nxt) > 1:
                if deep >> (places.setdefault(at, len(places)) % 4) & 1:
                    nxt = nxt[::-1]
            work += [(s, depth + 1) for s in nxt]
        self.nodes = i
        self.dropped = dropped
        return self

    def still_cycles(self):
        """Nodes on a cycle all of whose edges made no progress."""
        g = {}
        for a, b, m in self.edges:
            if not m and a is not None:
                g.setdefault(a, set()).add(b)
        # cycle detection
        color = {}
        res = []

        def dfs(u):
            stack = [(u, iter(g.get(u, ())))]
            color[u] = 1
            while stack:
                x, it = stack[-1]
                for y in it:
                    if color.get(y) == 1:
                        res.append(y)
                    elif y not in color:
                        color[y] = 1
                        stack.append((y, iter(g.get(y, ()))))
                        break
                else:
                    color[x] = 2
                    stack.pop()
        for u in list(g):
            if u not in color:
                dfs(u)
        return res
