"""Abstract interpreter over the dumped MIR.

Functions that are not anchors are entered (so extracting or inlining a helper
changes nothing); anchors, and writes the client asks about, become events.
"""
from terms import *
from program import UNIT

OPT = 'std::option::Option'
RES = 'std::result::Result'
ORD = 'std::cmp::Ordering'
NONE = ('en', OPT, 'None', ())


def some(x):
    return mk_enum(OPT, 'Some', (x,))


def ok(x):
    return mk_enum(RES, 'Ok', (x,))


def err(x):
    return mk_enum(RES, 'Err', (x,))


class Unsupported(Exception):
    pass


DISCARD = (None, ())


class Frame:
    __slots__ = ('fn', 'bb', 'si', 'loc', 'dst', 'tgt', 'line')

    def __init__(self, fn, dst=None, tgt=None):
        self.fn = fn
        self.bb = 0
        self.si = 0
        self.loc = {}
        self.dst = dst
        self.tgt = tgt
        self.line = 0

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.bb, f.si, f.dst, f.tgt, f.line = self.fn, self.bb, self.si, self.dst, self.tgt, self.line
        f.loc = dict(self.loc)
        return f


class State:
    __slots__ = ('frames', 'heap', 'K', 'n', 'ext', 'trace', 'pending', 'steps', 'event')

    def __init__(self, K):
        self.frames = []
        self.heap = {}
        self.K = K
        self.n = 0
        self.ext = None
        self.trace = ()
        self.pending = None
        self.steps = 0
        self.event = None

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.K = self.K.copy()
        s.n = self.n
        s.ext = self.ext.copy() if self.ext is not None else None
        s.trace = self.trace
        s.pending = self.pending
        s.steps = self.steps
        s.event = self.event
        return s

    def fresh(self, name):
        self.n += 1
        return ('v', name, self.n)

    def where(self):
        for f in reversed(self.frames):
            if f.fn.local:
                return f.fn.path, '%s:%s' % (f.fn.file, f.line)
        return '?', '?'


class Hooks:
    """Client callbacks."""
    keep_sat = False
    cuts = None
    ordered = False
    solved = False          # numbers known to equal others are replaced by them
    forms = None
    patience = 1
    thresholds = ((65535, 256, 255, 3, 2, 1, 0, -1, -2, -3), (0, 1, 2, 3, 254, 255, 256, 257, 65534, 65535, 65536))

    def anchor(self, I, st, callee, args):
        """Name of the anchor if this call is one."""
        return None

    def model(self, I, st, callee, args):
        """Client-specific model; returns list of (state, value) or None."""
        return None

    def on_write(self, I, st, root, path, old, new):
        return None

    def panic(self, I, st, kind, detail):
        pass

    def spin(self, I, st):
        """The same state is reached again without any event."""
        raise Unsupported('a loop that makes no progress at %s' % st.where()[1])

    def opaque_enum(self, I, st, term):
        pass

    def invariants(self, st, mem):
        """Facts that hold in every state (product exploration)."""

    def normal(self, st, mem):
        """Write equal things alike before states are merged (product exploration)."""
        return mem

    def exact(self, st, mem):
        """Values that keep states apart (product exploration)."""
        return ()


class Interp:
    def __init__(self, prog, hooks):
        self.P = prog
        self.H = hooks
        self.limit_steps = 200000
        self.max_depth = 60
        self.fns_entered = set()
        self.models_used = set()
        self.nsteps = 0
        self.const_cache = {}
        self.probes = False

    # ------------------------------------------------------------ places
    def field_key(self, tid, variant, i):
        """Path label of container for field i of type tid."""
        t = self.P.t(tid) if tid is not None else None
        if t is None:
            return '?'
        if t['k'] == 'adt':
            if t['kind'] == 'enum' and variant is not None:
                return t['path'] + '::' + variant
            return t['path']
        if t['k'] == 'tuple':
            return 'tup'
        if t['k'] == 'closure':
            return 'clo'
        return t['k']

    def place(self, st, fi, p):
        """Resolve to ('P', root, path, tid, variant) or ('V', value, tid, variant)."""
        fr = st.frames[fi]
        l = p[0]
        tid = fr.fn.locals[l]
        cur = ('P', ('L', fi, l), ())
        variant = None
        for e in p[1]:
            tid0 = tid
            tid = self.P.strip_box(tid) if e != '*' else tid
            t = self.P.t(tid)
            if e == '*':
                if self.P.is_box(t):
                    tid = t['args'][0]
                    continue
                if t['k'] not in ('ref', 'ptr'):
                    raise Unsupported('deref of ' + t['s'])
                v = self.read_loc(st, cur)
                tid = t['elem']
                et = self.P.t(tid)
                if v[0] == 'ref' if isinstance(v, tuple) else False:
                    cur = ('P', v[1], v[2])
                elif isinstance(v, tuple) and v[0] == 'vref':
                    cur = ('V', v[1])
                else:
                    cur = ('V', v)
                variant = None
            elif e[0] == 'f':
                if t['k'] == 'adt' and t['kind'] == 'enum' and variant is None:
                    raise Unsupported('field of enum without downcast')
                key = self.field_key(tid, variant, e[1])
                if cur[0] == 'P':
                    cur = ('P', cur[1], cur[2] + (('f', e[1], key, tid),))
                else:
                    cur = ('V', self.getfield(st, cur[1], e[1], key, tid))
                tid = e[2]
                variant = None
            elif e[0] == 'd':
                variant = t['variants'][e[1]]['name'] if t.get('variants') else str(e[1])
            elif e[0] == 'i':
                idx = fr.loc.get(e[1])
                if cur[0] == 'P':
                    cur = ('P', cur[1], cur[2] + (('i', idx),))
                else:
                    cur = ('V', self.getelem(st, cur[1], idx))
                tid = t.get('elem', t['args'][0] if t.get('args') else None)
            elif e[0] == 'ci':
                if cur[0] == 'P':
                    base = self.read_loc(st, cur)
                else:
                    base = cur[1]
                if e[3]:
                    idx = sub(self.seqlen(base), e[1])
                else:
                    idx = e[1]
                if cur[0] == 'P':
                    cur = ('P', cur[1], cur[2] + (('i', idx),))
                else:
                    cur = ('V', self.getelem(st, base, idx))
                tid = t.get('elem', t['args'][0] if t.get('args') else None)
            elif e[0] == 'ss':
                base = self.read_loc(st, cur) if cur[0] == 'P' else cur[1]
                n = self.seqlen(base)
                hi = sub(n, e[2]) if e[3] else e[2]
                cur = ('V', self.subseq(base, e[1], hi))
            else:
                raise Unsupported('projection %r' % (e,))
        return cur, tid

    def read_loc(self, st, cur):
        if cur[0] == 'V':
            return cur[1]
        return self.read(st, cur[1], cur[2])

    def read(self, st, root, path):
        if root[0] == 'L':
            loc = st.frames[root[1]].loc
            if root[2] not in loc:
                v = self.only_value(st.frames[root[1]].fn.locals[root[2]])
                if v is not None and not path:
                    return v
                raise Unsupported('read of uninitialised local _%d in %s' % (root[2], st.frames[root[1]].fn.path))
            v = loc[root[2]]
        else:
            if root not in st.heap:
                raise Unsupported('read of unknown cell %r' % (root,))
            v = st.heap[root]
        for e in path:
            if e[0] == 'f':
                v = self.getfield(st, v, e[1], e[2], e[3])
            elif e[0] == 'i':
                v = self.getelem(st, v, e[1])
            elif e[0] == 'k':
                v = self.getkey(st, v, e)
            else:
                raise Unsupported('path %r' % (e,))
        return v

    def only_value(self, tid):
        """The value of a type that has just one: such values are never written."""
        t = self.P.t(tid)
        if t['k'] == 'tuple' and not t['elems']:
            return UNIT
        if t['k'] != 'adt' or not t.get('variants'):
            return None
        vs = [v for v in t['variants'] if not any(self.P.t(f[1])['k'] == 'never' or self.P.t(f[1])['s'].endswith('::Infallible')
                                                  for f in v['fields'])]
        if len(vs) != 1 or vs[0]['fields']:
            return None
        if t['kind'] == 'enum':
            return mk_enum(t['path'], vs[0]['name'], ())
        return None

    def getkey(self, st, v, e):
        from hashmaps import hm_get
        return hm_get(st.K, v, e[1])

    def getfield(self, st, v, i, key, tid):
        if isinstance(v, tuple):
            h = v[0]
            if h == 'st':
                return v[2][i]
            if h == 'tup' or h == 'clo':
                return v[-1][i]
            if h == 'en':
                if not key.endswith('::' + v[2]):
                    raise Unsupported('field %s of %s' % (key, v[2]))
                return v[3][i]
            if h == 'vref':
                return self.getfield(st, v[1], i, key, tid)
            if h in ('lin', 's', 'seq', 'ref', 'fndef'):
                raise Unsupported('field %d of %s (%s)' % (i, h, key))
            return ('fld', v, i, key)
        raise Unsupported('field %d of %r (%s)' % (i, v, key))

    def getelem(self, st, v, idx):
        if isinstance(v, tuple) and v[0] == 'vref':
            v = v[1]
        if isinstance(v, tuple) and v[0] != 'seq' and v[0] not in CONCRETE:
            v = ('seq', v, ())
        if not (isinstance(v, tuple) and v[0] == 'seq'):
            raise Unsupported('index into %r' % (v,))
        base, elems = v[1], v[2]
        if base is None:
            if isinstance(idx, int) and 0 <= idx < len(elems):
                return elems[idx]
            raise Unsupported('index %r of known sequence' % (idx,))
        c, t = len_parts(base)
        d = sub(idx, mk_lin(c, t))
        if isinstance(d, int):
            if 0 <= d < len(elems):
                return elems[d]
            if d >= 0:
                raise Unsupported('index beyond end')
            return self.belem(st, base, idx)
        if not elems:
            return self.belem(st, base, idx)
        lo, hi = st.K.interval(d)
        if hi < 0:
            return self.belem(st, base, idx)
        raise Unsupported('ambiguous index')

    def belem(self, st, base, idx):
        if base[0] == 'init':
            return self.belem(st, base[1], idx)
        if base[0] == 'upd':
            d = sub(idx, base[2])
            if d == 0:
                return base[3]
            lo, hi = st.K.interval(d)
            if lo > 0 or hi < 0:
                return self.belem(st, base[1], idx)
        if base[0] == 'seq':
            return self.getelem(st, base, idx)
        if base[0] == 'subseq':
            return self.getelem(st, base[1], add(base[2], idx))
        return ('elem', base, idx)

    def seqlen(self, v):
        if isinstance(v, tuple) and v[0] == 'vref':
            v = v[1]
        if isinstance(v, tuple) and v[0] == 'seq':
            return seq_len(v)
        if isinstance(v, tuple) and v[0] == 's':
            return len(v[1].encode())
        if isinstance(v, tuple) and v[0] not in CONCRETE:
            c, t = len_parts(v)
            return mk_lin(c, t)
        raise Unsupported('length of %r' % (v,))

    def as_seq(self, v):
        if isinstance(v, tuple) and v[0] == 'vref':
            v = v[1]
        if isinstance(v, tuple) and v[0] == 'seq':
            return v
        if isinstance(v, tuple) and v[0] not in CONCRETE:
            return ('seq', v, ())
        raise Unsupported('not a sequence: %r' % (v,))

    def subseq(self, v, lo, hi):
        v = self.as_seq(v)
        if v[1] is None and isinstance(lo, int) and isinstance(hi, int):
            return ('seq', None, v[2][lo:hi])
        n = seq_len(v)
        if lo == 0 and hi == n:
            return v
        if lo == hi:
            return ('seq', None, ())
        if lo == 0 and v[2]:
            k = sub(n, hi)
            if isinstance(k, int) and 0 < k <= len(v[2]):
                return ('seq', v[1], v[2][:-k])
        if not v[2] and isinstance(v[1], tuple) and v[1][0] == 'subseq':
            b = v[1]
            return self.subseq(b[1], add(b[2], lo), add(b[2], hi))
        return ('seq', ('subseq', v, lo, hi), ())

    def expand(self, st, v, key, tid):
        """Opaque aggregate as an explicit one (to update a field)."""
        if v[0] in ('st', 'tup', 'clo', 'en'):
            return v
        if key == 'tup' and tid is None:
            return ('tup', tuple(('fld', v, i, key) for i in range(2)))
        if key == 'indexmap::IndexMap' and tid is None:
            return ('st', key, (('fld', v, 0, key),))
        t = self.P.t(tid)
        if t['k'] == 'adt' and t.get('variants'):
            if t['kind'] == 'struct':
                fs = t['variants'][0]['fields']
                return ('st', t['path'], tuple(('fld', v, i, key) for i in range(len(fs))))
            vn = key.rsplit('::', 1)[1]
            vd = self.P.vdef(t, vn)
            return ('en', t['path'], vn, tuple(('fld', v, i, key) for i in range(len(vd['fields']))))
        if t['k'] == 'tuple':
            return ('tup', tuple(('fld', v, i, key) for i in range(len(t['elems']))))
        raise Unsupported('expand %s' % t['s'])

    def update(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == 'f':
            x = self.expand(st, v, e[2], e[3])
            fs = list(x[-1])
            fs[e[1]] = self.update(st, fs[e[1]], path[1:], new)
            if x[0] == 'st':
                return mk_struct(x[1], tuple(fs))
            if x[0] == 'en':
                if not e[2].endswith('::' + x[2]):
                    raise Unsupported('write to other variant')
                return mk_enum(x[1], x[2], tuple(fs))
            return x[:-1] + (tuple(fs),)
        if e[0] == 'i':
            s = self.as_seq(v)
            old = self.getelem(st, s, e[1])
            nv = self.update(st, old, path[1:], new)
            if nv == old:
                return v
            base, elems = s[1], s[2]
            if base is None:
                l = list(elems)
                l[e[1]] = nv
                return ('seq', None, tuple(l))
            c, t = len_parts(base)
            d = sub(e[1], mk_lin(c, t))
            if isinstance(d, int) and d >= 0:
                l = list(elems)
                l[d] = nv
                return ('seq', base, tuple(l))
            return ('seq', self.mk_upd(base, e[1], nv), elems)
        if e[0] == 'k':
            return self.updkey(st, v, e, path[1:], new)
        raise Unsupported('write path %r' % (e,))

    def mk_upd(self, base, idx, v):
        if base[0] == 'upd' and base[2] == idx:
            base = base[1]
        return ('upd', base, idx, v)

    def updkey(self, st, v, e, rest, new):
        from hashmaps import hm_get, hm_set
        return hm_set(st.K, v, e[1], self.update(st, hm_get(st.K, v, e[1]), rest, new) if rest else new)

    def write(self, st, root, path, new):
        if root[0] == 'L':
            loc = st.frames[root[1]].loc
            if not path:
                loc[root[2]] = new
                return None
            if root[2] not in loc:
                raise Unsupported('partial write to uninitialised local')
            loc[root[2]] = self.update(st, loc[root[2]], path, new)
            return None
        old = st.heap.get(root)
        if path:
            try:
                oldv = self.read(st, root, path)
            except Unsupported:
                oldv = None
            st.heap[root] = self.update(st, old, path, new)
        else:
            oldv = old
            st.heap[root] = new
        return self.H.on_write(self, st, root, path, oldv, new)

    def write_place(self, st, fi, p, new):
        cur, tid = self.place(st, fi, p)
        if cur[0] != 'P':
            raise Unsupported('write through a value reference')
        return self.write(st, cur[1], cur[2], new)

    # ------------------------------------------------------------ values
    def const(self, st, c):
        t = self.P.t(c['ty'])
        if 'fn' in c:
            return ('fndef', c['ty'])
        if 'ref' in c:
            v = self.eval_const_fn(c['ref'])
            # a promoted constant of reference type already evaluates to a reference
            return v
        if 'parts' in c:
            fs = tuple(self.const(st, f) for f in c['parts']['fields'])
            if t['k'] == 'tuple':
                return ('tup', fs) if fs else UNIT
            v = t['variants'][c['parts']['variant'] or 0]
            return mk_struct(t['path'], fs) if t['kind'] == 'struct' else mk_enum(t['path'], v['name'], fs)
        if 'int' in c:
            if t['k'] == 'adt' and t['kind'] == 'enum' and t.get('variants'):
                return self.const_variant(t, int(c['int']))
            return int(c['int'])
        if 'str' in c:
            return ('s', c['str'])
        if 'bytes' in c:
            return ('vref', ('seq', None, tuple(c['bytes'])))
        if 'zst' in c:
            return self.zst(c['ty'])
        if 'float' in c:
            return ('float', c['float'])
        if 'static' in c:
            return ('static', c['static'])
        if 'name' in c:
            return ('konst', c['name'])
        return ('konst', t['s'], c.get('unk'))

    def const_variant(self, t, n):
        """A constant of an enum that holds nothing but its tag."""
        for v in t['variants']:
            if (v['discr'] or 0) == n:
                fields = tuple(self.zst(f[1]) for f in v['fields'])
                if any(f != UNIT and f[0] == 'zst' for f in fields):
                    break
                return mk_enum(t['path'], v['name'], fields)
        raise Unsupported('constant of %s' % t['s'])

    def zst(self, tid):
        t = self.P.t(tid)
        if t['k'] == 'tuple':
            return UNIT
        if t['k'] == 'fndef':
            return ('fndef', tid)
        if t['k'] == 'closure':
            return ('clo', tid, ())
        if t['k'] == 'adt' and t['kind'] == 'struct':
            if t.get('variants'):
                return ('st', t['path'], tuple(self.zst(f[1]) for f in t['variants'][0]['fields']))
            return ('st', t['path'], ())
        if t['k'] == 'array':
            return ('seq', None, ())
        return ('zst', t['s'])

    def eval_const_fn(self, fid):
        if fid in self.const_cache:
            return self.const_cache[fid]
        fn = self.P.fns[fid]
        st = State(Know())
        fr = Frame(fn)
        st.frames = [fr]
        v = None
        saveH = self.H
        self.H = Hooks()
        try:
            for _ in range(10000):
                evs = self.step_until(st)
                if len(evs) != 1 or evs[0][0][0] != 'ret':
                    raise Unsupported('constant %s' % fn.path)
                v = evs[0][0][1]
                st = evs[0][1]
                break
            v = self.detach(st, v)
        finally:
            self.H = saveH
        self.const_cache[fid] = v
        return v

    def detach(self, st, v):
        """Turn references into value references (constants)."""
        if not isinstance(v, tuple):
            return v
        if v and v[0] == 'ref':
            x = self.read(st, v[1], v[2])
            return ('vref', self.detach(st, x))
        return tuple(self.detach(st, x) for x in v)

    def operand(self, st, fi, o):
        h = o[0]
        if h == 'k':
            return self.const(st, o[1])
        if h == 'rc':
            return 0
        cur, tid = self.place(st, fi, o[1])
        v = self.read_loc(st, cur)
        if h == 'm' and not o[1][1]:
            t = self.P.t(tid)
            if t['k'] not in ('ref', 'int', 'bool'):
                st.frames[fi].loc.pop(o[1][0], None)
        return v

    def otype(self, fr, o):
        if o[0] == 'k':
            return o[1]['ty']
        tid = fr.fn.locals[o[1][0]]
        for e in o[1][1]:
            t = self.P.t(tid)
            if e == '*':
                tid = t['args'][0] if self.P.is_box(t) else t['elem']
            elif e[0] == 'f':
                tid = e[2]
            elif e[0] in ('i', 'ci'):
                t = self.P.t(self.P.strip_box(tid))
                tid = t.get('elem', t['args'][0] if t.get('args') else None)
        return tid

    def discr(self, st, v, tid):
        tid = self.P.strip_box(tid)
        t = self.P.t(tid)
        if isinstance(v, tuple) and v[0] == 'vref':
            v = v[1]
        if isinstance(v, tuple) and v[0] == 'en':
            vd = self.P.vdef(t, v[2])
            if vd is None:
                raise Unsupported('variant %s of %s' % (v[2], t['s']))
            return vd['discr'] if vd['discr'] is not None else 0
        if t['k'] == 'adt' and t['kind'] == 'enum' and t.get('variants'):
            s = st.K.get_tags(v)
            if s is not None and len(s) == 1:
                return self.P.vdef(t, next(iter(s)))['discr']
            if isinstance(v, tuple) and v[0] == 'konst':
                raise Unsupported('the kind of the constant %s' % (v[1],))
            return ('discr', v, tid)
        raise Unsupported('discriminant of %s' % t['s'])

    def all_tags(self, tid):
        return frozenset(v['name'] for v in self.P.t(tid)['variants'])

    def cmp_ints(self, st, op, a, b):
        """Boolean term for an integer comparison."""
        # discriminant comparisons
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == 'discr' and op in ('Eq', 'Ne'):
                if isinstance(y, int):
                    t = self.P.t(x[2])
                    n = self.P.variant_by_discr(t, y)
                    r = ('is', x[1], frozenset([n]) if n else frozenset(), self.all_tags(x[2]))
                    return r if op == 'Eq' else ('not', r)
                if isinstance(y, tuple) and y[0] == 'discr':
                    if x[1] == y[1]:
                        return 1 if op == 'Eq' else 0
                    s = st.K.get_tags(x[1])
                    u = st.K.get_tags(y[1])
                    if s is not None and u is not None and not (s & u):
                        return 0 if op == 'Eq' else 1
                    k = tuple(sorted((x, y), key=skey))
                    r = ('tageq',) + k
                    return r if op == 'Eq' else ('not', r)
        # booleans compared as integers
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] in BOOL + ('bsym', 'tageq') and op in ('Eq', 'Ne'):
                if isinstance(y, int):
                    r = x if y else self.bnot(x)
                    return r if op == 'Eq' else self.bnot(r)
                yy = y
                r = ('or', ('and', x, yy), ('and', self.bnot(x), self.bnot(yy)))
                return r if op == 'Eq' else self.bnot(r)
        for x in (a, b):
            if isinstance(x, tuple) and x[0] in ('float', 'fopaque', 'parsed'):
                return ('bsym', op, a, b)
        d = sub(a, b)
        if op == 'Eq':
            return ('eq0', d) if not isinstance(d, int) else int(d == 0)
        if op == 'Ne':
            return ('not', ('eq0', d)) if not isinstance(d, int) else int(d != 0)
        if op == 'Ge':
            x = d
        elif op == 'Gt':
            x = sub(d, 1)
        elif op == 'Le':
            x = scale(d, -1)
        elif op == 'Lt':
            x = sub(scale(d, -1), 1)
        else:
            raise Unsupported(op)
        return ('ge', x) if not isinstance(x, int) else int(x >= 0)

    @staticmethod
    def bnot(b):
        if isinstance(b, int):
            return 1 - b
        if b[0] == 'not':
            return b[1]
        return ('not', b)

    def binop(self, st, op, a, b, tid):
        t = self.P.t(tid)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if t['k'] == 'char' or t['k'] in ('int', 'bool'):
                if t['k'] == 'char':
                    if isinstance(a, int) and isinstance(b, int):
                        return int({'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op])
                    return self.cmp_ints(st, op, a, b)
                return self.cmp_ints(st, op, a, b)
            return ('bsym', op, a, b)
        if op == 'Cmp':
            return ('cmp3', sub(a, b))
        if t['k'] == 'bool':
            if op == 'BitAnd':
                if a == 0 or b == 0:
                    return 0
                if a == 1:
                    return b
                if b == 1:
                    return a
                return ('and', a, b)
            if op == 'BitOr':
                if a == 1 or b == 1:
                    return 1
                if a == 0:
                    return b
                if b == 0:
                    return a
                return ('or', a, b)
            if op == 'BitXor':
                if isinstance(a, int):
                    return b if a == 0 else self.bnot(b)
                if isinstance(b, int):
                    return a if b == 0 else self.bnot(a)
                return ('or', ('and', a, self.bnot(b)), ('and', self.bnot(a), b))
        if t['k'] != 'int':
            return ('fop', op, a, b)
        o = op.replace('WithOverflow', '').replace('Unchecked', '')
        bits = t['bits']
        if o == 'Add':
            r = add(a, b)
        elif o == 'Sub':
            r = sub(a, b)
        elif o == 'Mul' and isinstance(a, int):
            r = scale(b, a)
        elif o == 'Mul' and isinstance(b, int):
            r = scale(a, b)
        elif isinstance(a, int) and isinstance(b, int) and o in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Div', 'Rem'):
            r = {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}.get(o)
            if r is None:
                r = {'Shl': a << b if b < 128 else 0, 'Shr': a >> b, 'Div': a // b if b else 0, 'Rem': a % b if b else 0}[o]
        else:
            r = ('iop', o, a, b)
        if op.endswith('WithOverflow'):
            mx = (1 << (bits - 1)) - 1 if t['signed'] else (1 << bits) - 1
            mn = -(1 << (bits - 1)) if t['signed'] else 0
            if isinstance(r, tuple) and r[0] == 'iop':
                return ('tup', (r, ('bsym', 'overflow', o, a, b)))
            under = ('ge', sub(mn - 1, r)) if not isinstance(r, int) else int(r < mn)
            if bits == 64:
                over = 0 if o != 'Sub' or not t['signed'] else 0
                if isinstance(r, int) and r > mx:
                    over = 1
            else:
                over = ('ge', sub(r, mx + 1)) if not isinstance(r, int) else int(r > mx)
            if o == 'Add' and not t['signed']:
                under = 0
            if o == 'Sub' and not t['signed']:
                over = 0
            f = self.binop(st, 'BitOr', under, over, self.bool_tid())
            return ('tup', (r, f))
        return r

    def bool_tid(self):
        if not hasattr(self, '_bt'):
            self._bt = next(i for i, t in enumerate(self.P.types) if t.get('k') == 'bool')
        return self._bt

    def cast(self, st, kind, v, tid, src):
        t = self.P.t(tid)
        if kind.startswith('IntToInt'):
            if isinstance(v, tuple) and v[0] == 'discr':
                s = st.K.get_tags(v[1])
                return v
            if isinstance(v, int):
                if t['k'] in ('int',):
                    m = 1 << t['bits']
                    v = v % m
                    if t['signed'] and v >= m // 2:
                        v -= m
                return v
            if t['k'] == 'char':
                return v
            lo, hi = st.K.interval(v)
            s = self.P.t(src)
            if s['k'] == 'bool' or s['k'] == 'char':
                return v
            room = t['bits'] - (1 if t.get('signed') and t['bits'] < 64 else 0)     # sizes and counts stay below 2^63
            if s['k'] == 'int' and s['bits'] <= room and not s['signed']:
                return v
            if lo >= 0 and hi < (1 << room):
                return v
            return ('cast', v, t['bits'])
        if kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr') or kind == 'Subtype':
            return v
        if kind.startswith('Transmute'):
            s = self.P.t(src)
            if s['k'] in ('ref', 'ptr') and t['k'] in ('ref', 'ptr'):
                return v
            return ('transmute', v, t['s'])
        return ('castop', kind.split('(')[0], v, t['s'])

    def rvalue(self, st, fi, r, dty):
        h = r[0]
        fr = st.frames[fi]
        if h == 'use':
            return self.operand(st, fi, r[1])
        if h in ('ref', 'raw'):
            cur, tid = self.place(st, fi, r[1])
            t = self.P.t(tid)
            if self.P.is_box(t):
                pass
            if t['k'] == 'str':
                return self.read_loc(st, cur)
            if cur[0] == 'P':
                return ('ref', cur[1], cur[2])
            v = cur[1]
            if isinstance(v, tuple) and v[0] not in CONCRETE and t['k'] == 'dyn':
                return v
            return ('vref', v)
        if h == 'disc':
            cur, tid = self.place(st, fi, r[1])
            return self.discr(st, self.read_loc(st, cur), tid)
        if h == 'bin':
            a = self.operand(st, fi, r[2])
            b = self.operand(st, fi, r[3])
            return self.binop(st, r[1], a, b, self.otype(fr, r[2]))
        if h == 'un':
            a = self.operand(st, fi, r[2])
            if r[1] == 'Not':
                t = self.P.t(self.otype(fr, r[2]))
                if t['k'] == 'bool':
                    return self.bnot(a)
                if isinstance(a, int):
                    return (~a) % (1 << t['bits'])
                return ('iop', 'Not', a, 0)
            if r[1] == 'Neg':
                return scale(a, -1) if not (isinstance(a, tuple) and a[0] in ('float', 'parsed', 'fop')) else ('fop', 'Neg', a)
            if r[1] == 'PtrMetadata':
                if isinstance(a, tuple) and a[0] == 'ref':
                    return self.seqlen(self.read(st, a[1], a[2]))
                if isinstance(a, tuple) and a[0] == 'vref':
                    return self.seqlen(a[1])
                return self.seqlen(a)
            raise Unsupported('unop ' + r[1])
        if h == 'agg':
            ops = tuple(self.operand(st, fi, o) for o in r[4])
            k = r[1]
            if k == 'tuple':
                return ('tup', ops)
            if k == 'array':
                return ('seq', None, ops)
            if k == 'closure':
                return ('clo', r[2], ops)
            if k == 'adt':
                t = self.P.t(r[2])
                if t['kind'] == 'struct':
                    return mk_struct(t['path'], ops)
                if t['kind'] == 'enum':
                    return mk_enum(t['path'], t['variants'][r[3]]['name'], ops)
            raise Unsupported('aggregate ' + k)
        if h == 'cast':
            v = self.operand(st, fi, r[2])
            return self.cast(st, r[1], v, r[3], self.otype(fr, r[2]))
        if h == 'rep':
            v = self.operand(st, fi, r[1])
            if r[2] is not None and r[2] <= 256:
                return ('seq', None, (v,) * r[2])
            return ('seq', ('repeat', v, r[2]), ())
        raise Unsupported('rvalue %s' % (r[1] if len(r) > 1 else h))

    # ------------------------------------------------------------ stepping
    def call_fn(self, st, fn, args, dst, tgt):
        if len(st.frames) > self.max_depth:
            raise Unsupported('call depth (recursion through %s)' % fn.path)
        if fn.local and sum(1 for f in st.frames if f.fn is fn) > 3:
            raise Unsupported('unbounded recursion through %s' % fn.path)
        fr = Frame(fn, dst, tgt)
        for i, a in enumerate(args):
            fr.loc[i + 1] = a
        self.fns_entered.add(fn.path if fn.local else 'core:' + fn.path)
        st.frames.append(fr)

    def finish(self, st, dst, tgt, value):
        """Complete a call in the top frame."""
        fi = len(st.frames) - 1
        fr = st.frames[fi]
        if tgt is None:
            raise Unsupported('return from diverging call')
        fr.bb, fr.si = tgt, 0
        if dst is DISCARD:
            return None
        return self.write_place(st, fi, dst, value)

    def step_until(self, st0):
        """Run to the next events. Returns [(event, state)]."""
        out = []
        work = [st0]
        base = len(st0.frames)
        total = 0
        while work:
            st = work.pop()
            while True:
                if st.event is not None:
                    res, st.event = st.event, None
                    st.trace = ()
                    out.append((res, st))
                    break
                total += 1
                self.nsteps += 1
                if total > self.limit_steps:
                    raise Unsupported('step limit in %s %s' % st.where())
                fr = st.frames[-1]
                here, depth = fr.bb, len(st.frames)
                res = self.step(st, work)
                if res is None and self.H.cuts and st.event is None and st.frames[-1].si == 0 \
                        and st.frames[-1].bb in self.H.cuts(st.frames[-1].fn):
                    res = ('cut',)
                if res is None:
                    if depth == len(st.frames) and st.frames[-1].bb <= here and st.frames[-1].si == 0:
                        sig = self.signature(st)
                        if sig in st.trace:
                            self.H.spin(self, st)
                            break
                        st.trace = st.trace + (sig,)
                    continue
                if res == 'dead':
                    break
                st.trace = ()
                if st.event is not None:
                    raise Unsupported('two events at once')
                out.append((res, st))
                break
        return out

    @staticmethod
    def signature(st):
        k = st.K
        return hash((tuple((f.fn.idx, f.bb, frozenset(f.loc.items())) for f in st.frames), frozenset(st.heap.items()),
                     frozenset(k.tags.items()), frozenset(k.iv.items()), frozenset(k.strs.items()),
                     frozenset(k.bools.items())))

    def split(self, st, alts):
        """alts: list of Know. First is kept in st; returns other states."""
        others = []
        for k in alts[1:]:
            s2 = st.copy()
            s2.K = k
            others.append(s2)
        st.K = alts[0]
        return others

    def step(self, st, work):
        fi = len(st.frames) - 1
        fr = st.frames[fi]
        b = fr.fn.blocks[fr.bb]
        if b is None:
            raise Unsupported('cleanup block')
        stmts = b[0]
        while fr.si < len(stmts):
            s = stmts[fr.si]
            fr.si += 1
            if s[0] == '=':
                fr.line = s[3]
                v = self.rvalue(st, fi, s[2], None)
                p = s[1]
                if not p[1]:
                    fr.loc[p[0]] = v
                else:
                    ev = self.write_place(st, fi, p, v)
                    if ev:
                        return ev
            elif s[0] == 'dead':
                fr.loc.pop(s[1], None)
            elif s[0] == 'live':
                fr.loc.pop(s[1], None)
            elif s[0] == 'setd':
                cur, tid = self.place(st, fi, s[1])
                t = self.P.t(tid)
                raise Unsupported('set discriminant')
            else:
                raise Unsupported('statement %s' % s[1])
        t = b[1]
        h = t[0]
        if h == 'goto':
            fr.bb, fr.si = t[1], 0
            return None
        if h == 'switch':
            fr.line = t[4]
            v = self.operand(st, fi, t[1])
            return self.do_switch(st, fi, v, t, work)
        if h == 'ret':
            v = fr.loc.get(0, UNIT)
            if len(st.frames) == 1:
                return ('ret', v)
            st.frames.pop()
            ev = self.finish(st, fr.dst, fr.tgt, v)
            return ev
        if h == 'drop':
            fr.bb, fr.si = t[2], 0
            return None
        if h == 'assert':
            fr.line = t[6]
            c = self.operand(st, fi, t[1])
            good = st.K.assume(c, t[2])
            bad = st.K.assume(c, not t[2])
            if bad:
                self.H.panic(self, st, t[3], None)
            if not good:
                return 'dead'
            for o in self.split(st, good):
                o.frames[fi].bb, o.frames[fi].si = t[5], 0
                work.append(o)
            fr.bb, fr.si = t[5], 0
            return None
        if h == 'call':
            fr.line = t[5]
            return self.do_call(st, fi, t, work)
        if h == 'unreach':
            return 'dead'
        if h == 'resume':
            return 'dead'
        raise Unsupported('terminator %s' % h)

    def do_switch(self, st, fi, v, t, work):
        fr = st.frames[fi]
        targets, other = t[2], t[3]
        if isinstance(v, int):
            for val, bb in targets:
                if val == v:
                    fr.bb, fr.si = bb, 0
                    return None
            if fr.fn.blocks[other][1][0] == 'unreach':
                raise Unsupported('no branch for the value %d' % v)
            fr.bb, fr.si = other, 0
            return None
        alts = []  # (Know, bb)
        if v[0] == 'discr':
            tt = self.P.t(v[2])
            allv = self.all_tags(v[2])
            cur = st.K.get_tags(v[1])
            if cur is None:
                cur = allv
            rest = cur
            for val, bb in targets:
                n = self.P.variant_by_discr(tt, val)
                if n in cur:
                    alts.append((frozenset([n]), bb))
                rest = rest - {n}
            if rest:
                alts.append((rest, other))
            # group equal targets
            grouped = {}
            for s, bb in alts:
                grouped[bb] = grouped.get(bb, frozenset()) | s
            res = []
            for bb, s in grouped.items():
                k = st.K.copy()
                if k.set_tags(v[1], s) is not False:
                    res.append((k, bb))
        elif v[0] == 'cmp3':
            # Ordering discriminants -1,0,1
            raise Unsupported('switch on comparison')
        elif v[0] in BOOL or v[0] in ('bsym', 'tageq') or (len(targets) == 1 and targets[0][0] == 0 and
                                                 self.P.t(self.otype(fr, t[1]))['k'] == 'bool'):
            res = []
            done = False
            for val, bb in targets:
                for k in st.K.assume(v, bool(val)):
                    res.append((k, bb))
            vals = {bool(x) for x, _ in targets}
            for tv in (True, False):
                if tv not in vals:
                    for k in st.K.assume(v, tv):
                        res.append((k, other))
        else:
            res = []
            ks = [st.K]
            for val, bb in targets:
                nxt = []
                c = ('eq0', sub(v, val))
                for k in ks:
                    for k2 in k.assume(c, True):
                        res.append((k2, bb))
                    nxt += k.assume(c, False)
                ks = nxt
            for k in ks:
                res.append((k, other))
        if not res:
            return 'dead'
        for k, bb in res[1:]:
            s2 = st.copy()
            s2.K = k
            s2.frames[fi].bb, s2.frames[fi].si = bb, 0
            work.append(s2)
        st.K = res[0][0]
        fr.bb, fr.si = res[0][1], 0
        return None

    def callee_of(self, fr, o):
        tid = self.otype(fr, o)
        t = self.P.t(tid)
        if t['k'] == 'fndef':
            return t['callee']
        return None

    def do_call(self, st, fi, t, work):
        fr = st.frames[fi]
        callee = self.callee_of(fr, t[1])
        if callee is None:
            v = self.operand(st, fi, t[1])
            if isinstance(v, tuple) and v[0] == 'vref':
                v = v[1]
            if isinstance(v, tuple) and v[0] == 'clo' and not v[2]:
                return self.call_closure(st, v, [self.operand(st, fi, a) for a in t[2]], t[3], t[4], v[1])
            if not (isinstance(v, tuple) and v[0] == 'fndef'):
                raise Unsupported('indirect call')
            callee = self.P.t(v[1])['callee']
        saved = dict(fr.loc) if self.probes else None
        args = [self.operand(st, fi, a) for a in t[2]]
        argt = [self.otype(fr, a) for a in t[2]]
        r = self.dispatch(st, callee, args, argt, t[3], t[4], work)
        if saved is not None and isinstance(r, tuple) and r[0] == 'probe':
            fr.loc = saved          # the call is made again when the question is answered
        return r

    def dispatch(self, st, callee, args, argt, dst, tgt, work):
        from models import MODELS, find_model
        kind = callee['kind']
        if kind == 'ctor':
            tt = self.P.t(callee['adt'])
            if tt['kind'] == 'struct':
                v = mk_struct(tt['path'], tuple(args))
            else:
                v = mk_enum(tt['path'], callee['variant'], tuple(args))
            return self.finish(st, dst, tgt, v)
        a = self.H.anchor(self, st, callee, args)
        if a is not None:
            st.pending = (dst, tgt)
            return ('call', a, tuple(args))
        r = self.H.model(self, st, callee, args)
        if r is None:
            m = find_model(callee)
            if m is not None:
                self.models_used.add(callee.get('rpath') or callee['path'])
                r = m(self, st, callee, args, argt)
        if r is not None:
            if r == 'dead':
                return 'dead'
            if isinstance(r, tuple) and r[0] == 'probe':
                return r
            if isinstance(r, tuple) and r[0] == 'invoke':
                # a closure is called for its effect; the call itself gives r[3]
                if self.write_place(st, len(st.frames) - 1, dst, r[3]):
                    raise Unsupported('event in the result of a call')
                # with 'into', what the closure gives is stored where r[3] points
                into = (dst[0], list(dst[1]) + ['*']) if r[5:] == ('into',) else DISCARD
                return self.call_closure(st, r[1], r[2], into, tgt, r[4])
            return self.finish_alts(st, r, dst, tgt, work)
        if callee.get('closure') and kind == 'item' and 'id' in callee:
            # (closure, (args...)): untuple
            fn = self.P.fns[callee['id']]
            tup = args[1]
            if len(args) == 2 and isinstance(tup, tuple) and tup[0] == 'tup':
                cargs = [args[0]] + list(tup[1])
            else:
                n = fn.argc - 1
                cargs = [args[0]] + [self.getfield(st, tup, i, 'tup', None) for i in range(n)]
            self.call_fn(st, fn, cargs, dst, tgt)
            return None
        if kind == 'closure_once' and 'id' in callee:
            # FnOnce shim of a by-reference closure
            root = ('H', 'clo', len(st.frames), st.n)
            st.n += 1
            st.heap[root] = args[0]
            ct = self.P.t(argt[0])
            fn = self.closure_body(ct)
            tup = args[1]
            cargs = [('ref', root, ())] + list(tup[1])
            self.call_fn(st, fn, cargs, dst, tgt)
            return None
        if 'id' in callee:
            fn = self.P.fns[callee['id']]
            if fn is None:
                raise Unsupported('no body for ' + callee['path'])
            self.call_fn(st, fn, args, dst, tgt)
            return None
        raise Unsupported('no model for %s (%s)' % (callee.get('rpath') or callee['path'], kind))

    def call_closure(self, st, clo, args, dst, tgt, tid):
        t = self.P.t(tid)
        while t['k'] == 'ref':
            t = self.P.t(t['elem'])
        fn = self.closure_body(t)
        root = ('H', 'clo', len(st.frames), st.n)
        st.n += 1
        st.heap[root] = clo
        byref = self.P.t(fn.locals[1])['k'] == 'ref'
        self.call_fn(st, fn, [('ref', root, ()) if byref else clo] + list(args), dst, tgt)
        return None

    def closure_body(self, ct):
        for f in self.P.fns:
            if f and f.kind == 'closure' and f.path == ct['path']:
                return f
        raise Unsupported('closure body ' + ct['path'])

    def finish_alts(self, st, alts, dst, tgt, work):
        """alts: list of (state, value); states may be st itself."""
        if not alts:
            return 'dead'
        ev0 = None
        first = None
        for s, v in alts:
            if s is st:
                first = (s, v)
        for s, v in alts:
            if s is st:
                continue
            ev = self.finish(s, dst, tgt, v)
            if ev:
                raise Unsupported('event in a split result')
            work.append(s)
        if first is None:
            return 'dead'
        if first[1] == 'DEAD':
            return 'dead'
        return self.finish(st, dst, tgt, first[1])
