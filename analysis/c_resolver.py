"""The resolver compared with the scoping rules, function by function.

resolve_statement, resolve_expression (found by their types) and the public
resolve method are explored for every tree node and every resolver state in
lockstep with the rules in spec_resolver.py; calls of the first two on parts of
the node are assumed to satisfy their own rule.
"""
import os
import re
import time

import hashmaps
import models
from absint import Interp, Hooks, State, Frame, Unsupported, ok, err, some, NONE
from common import Result, Fail
from hashmaps import hm_atom, hm_get, hm_set, hm_add, hm_len
from c_scanner import loop_heads
from lockstep import Equality, ANY, show, share
import product
from product import Ext, Explorer
from program import UNIT
from speclang import compile_file, Spec, SpecInterp, SFrame
from terms import *

HERE = os.path.dirname(os.path.abspath(__file__))
SELF = ('H', 'self')
NODE = ('H', 'self', 'node')
RES = 'resolver::Resolver'
VRS = 'resolver::VarResolveState'
CAUSE = 'error::ParseErrorCause'
PERR = 'error::ParseError'
CELL = 'std::cell::Cell'
S0 = ('v', 'scopes', 0)
MAXDEPTH = 65535
SLOTS = 256
ACTIONS = {'open_scope', 'close_scope', 'reraise', 'fail', 'raise_all', 'bind', 'set_class', 'set_function', 'restore_class',
           'restore_function', 'lookup', 'put'}


def fname(f):
    return f['name'] if isinstance(f, dict) else f[0]


def ftype(f):
    return f['ty'] if isinstance(f, dict) else f[1]


class Lemma:
    """What holds of scopes the rules built: at most 256 names, slots below 256."""
    transitive = False

    def tags(self, K, t):
        return None

    def on_tags(self, K, t, s):
        return True

    def vacuous(self, K, t):
        if isinstance(t, tuple) and t and t[0] == 'haskey':
            t = t[1]
        if isinstance(t, tuple) and t and t[0] == 'elem' and t[1][0] == 'ver':
            lo, hi = K.interval(sub(t[2], ('len', S0)))
            return lo >= 0
        return False

    def atom_iv(self, K, a):
        if a[0] == 'maplen':
            return (0, SLOTS)
        if a[0] == 'fld' and a[3] == VRS:
            return (0, SLOTS - 1)
        if a == ('len', S0):
            return (1, MAXDEPTH)
        if a[:2] == ('v', 'j'):
            # through a relation of several numbers
            L, H = -INF, INF
            for u, (l, h) in K.iv.items():
                if len(u) < 2:
                    continue
                k = dict(u).get(a)
                if k not in (1, -1):
                    continue
                for b, m in u:
                    if b == a:
                        continue
                    x = (1, MAXDEPTH) if b == ('len', S0) else K.iv.get(((b, 1),), (-INF, INF))
                    l, h = (l - m * x[1], h - m * x[0]) if m > 0 else (l - m * x[0], h - m * x[1])
                if k < 0:
                    l, h = -h, -l
                L, H = max(L, l), min(H, h)
            return (L, H)
        return None

    def ev(self, K, b):
        if b[0] == 'haskey' and b[1][0] == 'elem':
            for t, v in K.bools.items():
                if t[0] == 'haskey' and t[2] == b[2] and t[1][0] == 'elem' and t[1][1] == b[1][1] and t != b \
                        and K.interval(sub(t[1][2], b[1][2])) == (0, 0):
                    return v
        return None

    def streq(self, K, a, text):
        return None


def freev(t, out):
    if isinstance(t, tuple):
        if t and t[0] == 'v' and len(t) == 3:
            out.add(t)
            return
        for x in t:
            freev(x, out)


class REquality(Equality):
    def eq(self, st, a, b, depth=0):
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a != b:
            a, b = self.settled(st, a), self.settled(st, b)
            if a[0] == b[0] == 'hmap' and a[1] == b[1] and len(a[2]) == len(b[2]):
                for (k1, v1), (k2, v2) in zip(a[2], b[2]):
                    r = self.eq(st, k1, k2, depth + 1) or self.eq(st, v1, v2, depth + 1)
                    if r:
                        return r
                return None
            if a[0] == b[0] == 'hmapset':
                return self.eq(st, a[1], b[1], depth + 1) or self.eq(st, a[2], b[2], depth + 1) or self.eq(st, a[3], b[3], depth + 1)
            if a[0] == b[0] == 'upd':
                return self.eq(st, a[1], b[1], depth + 1) or self.eq(st, a[2], b[2], depth + 1) or self.eq(st, a[3], b[3], depth + 1)
            if a[0] == 'seq' or b[0] == 'seq':
                x, y = self.I.as_seq(a), self.I.as_seq(b)
                x, y = flat(x), flat(y)
                if x[1] != y[1] and x[1] is not None and y[1] is not None and len(x[2]) == len(y[2]):
                    r = self.eq(st, x[1], y[1], depth + 1)
                    if not r:
                        return self.fields(st, x[2], y[2], depth, 'element')
        return Equality.eq(self, st, a, b, depth)


    def settled(self, st, t):
        """Without the writes that turned out to change nothing."""
        while isinstance(t, tuple) and t:
            if t[0] == 'seq' and t[1] is not None and t[1][0] in ('upd', 'seq'):
                b = self.settled(st, t[1])
                if b == t[1]:
                    return t
                t = ('seq', b, t[2]) if t[2] else b
            elif t[0] == 'hmapset' and hashmaps.unchanged(st.K, t[3], ('mapget', t[1], t[2])):
                t = t[1]
            elif t[0] == 'upd' and isinstance(t[3], tuple) and t[3] and self.settled(st, t[3]) == ('elem', t[1], t[2]):
                t = t[1]
            else:
                break
        return t


def flat(s):
    while s[1] is not None and s[1][0] == 'seq':
        s = ('seq', s[1][1], s[1][2] + s[2])
    return s


class Vocab:
    namespaces = {}
    context = set()

    def __init__(self, D):
        self.D = D

    def adt(self, path):
        P = self.D.P
        if path in P.adt_by_path:
            return P.t(P.adt_by_path[path])
        last = path.split('::')[-1]
        c = [i for p, i in P.adt_by_path.items() if p.split('::')[-1] == last and not p.startswith('std::')]
        if len(c) != 1:
            raise Unsupported('type %s not found' % path)
        return P.t(c[0])

    def name(self, S, K, n):
        if n in self.D.names:
            return ('word', n)
        raise Unsupported('rule name ' + n)

    def attr(self, S, K, v, a):
        raise Unsupported('rule attribute')

    method = index = construct = attr

    def compare(self, S, K, op, a, b):
        r = self.D.I.cmp_ints(self.D.fake(K), {'Eq': 'Eq', 'NotEq': 'Eq', 'GtE': 'Ge', 'Gt': 'Gt', 'LtE': 'Le', 'Lt': 'Lt'}[op], a, b)
        return Interp.bnot(r) if op == 'NotEq' else r

    # --- places in the tree: ('ref', ('T', type), path)
    def read(self, S, K, pl):
        D = self.D
        v = S.g['node']
        st = D.fake(K)
        for e in pl[2]:
            if e[0] == 'f':
                v = D.I.getfield(st, v, e[1], e[2], e[3])
            else:
                v = D.I.getelem(st, v, e[1])
        return v

    def step(self, pl, e, tid):
        return ('ref', ('T', self.D.P.strip_box(tid)), pl[2] + (e,))

    def is_kind(self, S, K, pl, n):
        v = self.read(S, K, pl)
        t = self.D.P.t(pl[1][1])
        if n not in self.D.P.variants(t):
            raise Unsupported('%s has no variant %s' % (t['s'], n))
        if v[0] == 'en':
            return int(v[2] == n)
        return ('is', v, frozenset([n]), frozenset(self.D.P.variants(t)))

    def eval_call(self, S, K, name, args, kw):
        D = self.D
        P = D.P
        if name == 'kind':
            return self.is_kind(S, K, args[0], args[1][1])
        if name == 'part':
            pl, n, i = args[0], args[1][1], args[2]
            t = P.t(pl[1][1])
            vd = P.vdef(t, n)
            if vd is None or i >= len(vd['fields']):
                raise Unsupported('the shape of %s changed' % n)
            return self.step(pl, ('f', i, t['path'] + '::' + n, pl[1][1]), ftype(vd['fields'][i]))
        if name == 'field':
            pl, n = args[0], args[1][1]
            t = P.t(pl[1][1])
            fs = t['variants'][0]['fields']
            for i, f in enumerate(fs):
                if fname(f) == n:
                    return self.step(pl, ('f', i, t['path'], pl[1][1]), ftype(f))
            raise Unsupported('%s has no field %s' % (t['s'], n))
        if name == 'is_some':
            return self.is_kind(S, K, args[0], 'Some')
        if name == 'inner':
            t = P.t(args[0][1][1])
            return self.step(args[0], ('f', 0, t['path'] + '::Some', args[0][1][1]), ftype(P.vdef(t, 'Some')['fields'][0]))
        if name == 'count':
            return D.I.seqlen(self.read(S, K, args[0]))
        if name == 'item':
            if isinstance(args[0][1][1], tuple):
                return ('ref', ('T', args[0][1][1][1]), args[0][2] + (('i', args[1]),))
            t = P.t(args[0][1][1])
            tid = t.get('elem', t['args'][0] if t.get('args') else None)
            return self.step(args[0], ('i', args[1]), tid)
        if name == 'entries':
            # ast::Map -> IndexMap -> entries
            pl = args[0]
            for _ in range(4):
                t = P.t(pl[1][1])
                if t['path'] == 'indexmap::IndexMap':
                    return ('ref', ('T', ('pairs', t['args'][1])), pl[2] + (('f', 0, 'indexmap::IndexMap', None),))
                fs = t['variants'][0]['fields']
                if len(fs) != 1:
                    raise Unsupported('the shape of map literals changed')
                pl = self.step(pl, ('f', 0, t['path'], pl[1][1]), ftype(fs[0]))
            raise Unsupported('the shape of map literals changed')
        if name == 'second':
            return self.step(args[0], ('f', 1, 'tup', None), args[0][1][1])
        if name in ('val', 'resolved'):
            v = self.read(S, K, args[0])
            if name == 'resolved':
                t = self.adt('ast::ResolvedCode')
                return mk_struct(t['path'], (v,))
            return v
        if name == 'same':
            e = K.ev_streq(args[0], args[1])
            return ('streq', args[0], args[1]) if e is None else e
        if name == 'depth':
            return D.I.seqlen(S.g['scopes'])
        if name == 'scope':
            return D.I.getelem(D.fake(K), S.g['scopes'], args[0])
        if name == 'size':
            return hm_len(args[0])
        if name == 'entry':
            return hm_get(K, args[0], args[1])
        if name == 'slot_of':
            v = args[0]
            return v[2][D.v_slot] if v[0] == 'st' else ('fld', v, D.v_slot, VRS)
        if name == 'state_is':
            v = args[0]
            x = v[2][D.v_state] if v[0] == 'st' else ('fld', v, D.v_state, VRS)
            if x[0] == 'en':
                return int(x[2] == args[1][1])
            return ('is', x, frozenset([args[1][1]]), frozenset(P.variants(D.state_t)))
        if name in ('function_is', 'class_is'):
            x = S.g['ft' if name == 'function_is' else 'ct']
            t = D.ft_t if name == 'function_is' else D.ct_t
            if x[0] == 'en':
                return int(x[2] == args[0][1])
            return ('is', x, frozenset([args[0][1]]), frozenset(P.variants(t)))
        if name == 'class_type':
            return S.g['ct']
        if name == 'function_type':
            return S.g['ft']
        if name == 'var_loc':
            t = self.adt('environment::VarLoc')
            vals = {'distance': self.cast(K, args[0], 16), 'index': self.cast(K, args[1], 8)}
            fs = [fname(f) for f in t['variants'][0]['fields']]
            if set(fs) != set(vals):
                raise Unsupported('the fields of VarLoc changed')
            return mk_struct(t['path'], tuple(vals[f] for f in fs))
        if name == 'slot_index':
            t = self.adt('environment::SlotIndex')
            if len(t['variants'][0]['fields']) != 1:
                raise Unsupported('the fields of SlotIndex changed')
            return mk_struct(t['path'], (self.cast(K, args[0], 8),))
        if name == 'len':
            return D.I.seqlen(args[0])
        raise Unsupported('rule vocabulary ' + name)

    def cast(self, K, v, bits):
        if isinstance(v, int):
            return v % (1 << bits)
        lo, hi = K.interval(v)
        if lo >= 0 and hi < (1 << bits):
            return v
        return ('cast', v, bits)

    def cause(self, loc, text):
        t = self.adt(CAUSE)
        vals = {'source_loc': loc, 'token': some(text), 'message': ANY}
        fs = [fname(f) for f in t['variants'][0]['fields']]
        if set(fs) != set(vals):
            raise Unsupported('the fields of ParseErrorCause changed')
        return mk_struct(t['path'], tuple(vals[f] for f in fs))

    def action(self, SI, S, K, name, pos, kw, dst, work):
        D = self.D
        g = S.g
        if name == 'open_scope':
            s = D.I.as_seq(g['scopes'])
            g['scopes'] = ('seq', s[1], s[2] + (('hmap', None, ()),))
            return None
        if name == 'close_scope':
            g['scopes'] = models.pop_seq(D.I.as_seq(g['scopes']))
            return None
        if name == 'reraise':
            return SI.raise_err(S, pos[0])
        if name == 'fail':
            S.why = S.tags
            return SI.raise_err(S, self.cause(pos[0], pos[1]))
        if name == 'raise_all':
            return SI.raise_err(S, mk_struct(self.adt(PERR)['path'], (pos[0],)))
        if name == 'bind':
            st = D.fake(K)
            g['node'] = D.I.update(st, g['node'], pos[0][2], ('st', CELL, (pos[1],)))
            return None
        if name in ('set_class', 'set_function'):
            t = D.ct_t if name == 'set_class' else D.ft_t
            g['ct' if name == 'set_class' else 'ft'] = ('en', t['path'], pos[0][1], ())
            return None
        if name in ('restore_class', 'restore_function'):
            g['ct' if name == 'restore_class' else 'ft'] = pos[0]
            return None
        if name == 'lookup':
            q = hm_atom(K, pos[0], pos[1])
            if isinstance(q, int):
                S.bind(dst, q)
                return None
            S.frames[-1].pc -= 1
            return ('probe', q)
        if name == 'put':
            st = D.fake(K)
            m = D.I.getelem(st, g['scopes'], pos[0])
            q = hm_atom(K, m, pos[1])
            if not isinstance(q, int):
                raise Unsupported('the rule does not know whether a name is declared')
            vals = {D.v_slot: pos[2], D.v_state: ('en', D.state_t['path'], pos[3][1], ())}
            v = mk_struct(VRS, tuple(vals[i] for i in sorted(vals)))
            m = hm_set(K, m, pos[1], v) if q else hm_add(m, pos[1], v)
            g['scopes'] = D.I.update(st, g['scopes'], (('i', pos[0]),), m)
            return None
        raise Unsupported('rule action ' + name)


class Domain(Hooks):
    fixed_roots = (SELF, NODE)
    patience = 2
    solved = True

    def __init__(self, P):
        self.P = P
        self.I = Interp(P, self)
        self.I.probes = True
        self.I.limit_steps = 60000
        self.lemma = Lemma()
        product.FIELDLESS.update(p for p, i in P.adt_by_path.items() if all(not v['fields'] for v in P.t(i)['variants']))
        self.eqv = REquality(P, self.I)
        self.vocab = Vocab(self)
        self.setup_types()
        self.rules = compile_file(os.path.join(HERE, 'spec_resolver.py'), ACTIONS)
        self.find_anchors()
        self.SI = SpecInterp(self.rules, self.vocab, set(n for n in self.rules if n not in self.anchors))
        self.reset()

    def reset(self):
        self.findings = []
        self.panics = {}
        self.stats = {}
        self.calls = set()
        self.rets = set()
        self.cur = None
        self.I.fns_entered = set()
        self.I.models_used = set()

    def fake(self, K):
        return State(K)

    def setup_types(self):
        P = self.P
        adt = self.vocab.adt
        t = adt(RES)
        self.path = t['path']
        fs = t['variants'][0]['fields']
        self.rf = [fname(f) for f in fs]
        self.i_scopes = self.i_ft = self.i_ct = None
        for i, f in enumerate(fs):
            ft = P.t(ftype(f))
            vs = set(P.variants(ft)) if ft['k'] == 'adt' and ft['kind'] == 'enum' else set()
            if ft['k'] == 'adt' and ft['path'] == 'std::vec::Vec' and 'HashMap' in ft['s']:
                self.i_scopes = i
            elif {'NoFunction', 'Plain', 'Initializer'} <= vs:
                self.i_ft, self.ft_t = i, ft
            elif {'NoClass', 'PlainClass', 'Subclass'} <= vs:
                self.i_ct, self.ct_t = i, ft
        if None in (self.i_scopes, self.i_ft, self.i_ct):
            raise Fail('the fields of the resolver are not recognised: %s' % self.rf)
        v = adt(VRS)
        fs = v['variants'][0]['fields']
        if len(fs) != 2:
            raise Fail('the fields of VarResolveState changed')
        self.v_slot = next((i for i, f in enumerate(fs) if P.t(ftype(f))['k'] == 'int'), None)
        self.v_state = next((i for i, f in enumerate(fs) if P.t(ftype(f))['k'] == 'adt'), None)
        if None in (self.v_slot, self.v_state):
            raise Fail('the fields of VarResolveState changed')
        self.state_t = P.t(ftype(fs[self.v_state]))
        self.names = set(P.variants(self.ft_t)) | set(P.variants(self.ct_t)) | set(P.variants(self.state_t))
        for x in ('ast::Stmt', 'ast::Expr'):
            self.names |= set(P.variants(adt(x)))

    def find_anchors(self):
        P = self.P
        self.impl = {}
        cands = {'resolve_statement': [], 'resolve_expression': [], 'resolve': []}
        for f in P.local_fns():
            if f.kind != 'fn' or f.argc != 2:
                continue
            a = [P.t(f.locals[i]) for i in (1, 2)]
            if a[0]['k'] != 'ref' or P.t(a[0]['elem']).get('path') != self.path:
                continue
            r = P.t(f.locals[0])
            if r['k'] != 'adt' or r['path'] != 'std::result::Result':
                continue
            if a[1]['k'] == 'ref':
                p = P.t(a[1]['elem']).get('path')
                if p == 'ast::Stmt':
                    cands['resolve_statement'].append(f)
                elif p == 'ast::Expr':
                    cands['resolve_expression'].append(f)
            elif a[1].get('path') == 'std::vec::Vec' and 'Stmt' in a[1]['s'] and 'ResolvedCode' in r['s']:
                cands['resolve'].append(f)
        for n, fs in cands.items():
            pick = [f for f in fs if f.path.split('::')[-1] == n] or fs
            if len(pick) != 1:
                raise Fail('%s is not recognised' % n)
            self.impl[n] = pick[0]
        self.anchors = {n: f for n, f in self.impl.items() if n != 'resolve'}

    # --- callbacks of the interpreter
    def anchor(self, I, st, callee, args):
        i = callee.get('id')
        if i is None or callee.get('kind') != 'item':
            return None
        f = self.P.fns[i]
        for n, g in self.impl.items():
            if g is f:
                return n
        return None

    def panic(self, I, st, kind, detail):
        fn, where = st.where()
        lo = 0
        try:
            lo = st.K.interval(self.I.seqlen(self.field(st, self.i_scopes)))[0]
        except Exception:
            pass
        k = (self.cur, fn, where)
        if k in self.panics:
            lo = min(lo, self.panics[k][1])
        self.panics[k] = (kind, lo)

    def spin(self, I, st):
        fn, where = st.where()
        self.report(['T01'], 'spin %s' % fn, where, 'a loop in %s can repeat without getting any further' % fn)

    def report(self, props, key, where, msg):
        self.findings.append((tuple(props), key, where, msg))

    def same_token(self, s, a, b):
        i = [fname(f) for f in self.vocab.adt(CAUSE)['variants'][0]['fields']].index('token')
        return a[0] == b[0] == 'st' and self.eqv.eq(s, a[2][i], b[2][i]) is None

    def deviates(self, st, spec, what, extra=(), only=None):
        props = set(spec.tags | spec.why if spec is not None else ()) | set(extra) | set(self.rules[self.cur].props)
        if only:
            props = set(only)
        fn, where = st.where()
        self.report(sorted(props), '%s: %s' % (self.cur, what.split(':')[0]), where,
                    '%s (in %s) deviates from the scoping rule %s: %s; %s' % (
                        fn, self.impl[self.cur].path, spec.where() if spec else self.cur, what, self.context(st)))

    def context(self, st):
        v = st.heap.get(NODE) if self.cur != 'resolve' else None
        if v is None:
            return 'resolving a program'
        if v[0] == 'en':
            return 'node %s' % v[2]
        t = st.K.get_tags(v)
        return 'node %s' % ('|'.join(sorted(t)) if t else 'of any kind')

    def field(self, st, i):
        return self.I.getfield(st, st.heap[SELF], i, self.path, None)

    # --- exploration
    def initial(self, nt, depth=None):
        K = Know(self.lemma)
        if depth and nt != 'resolve':
            K.assume_eq0(sub(('len', S0), depth))
        st = State(K)
        scopes = ('ver', S0, ('v', 'ver', 0))
        vals = {self.i_scopes: scopes, self.i_ft: ('v', 'ft', 0), self.i_ct: ('v', 'ct', 0)}
        if nt == 'resolve':
            # a program starts at the global scope, outside any function or class
            K.assume_eq0(sub(('len', S0), 1))
            vals[self.i_ft] = ('en', self.ft_t['path'], 'NoFunction', ())
            vals[self.i_ct] = ('en', self.ct_t['path'], 'NoClass', ())
        st.heap[SELF] = mk_struct(self.path, tuple(vals.get(i, ('v', 'field_' + n, 0)) for i, n in enumerate(self.rf)))
        f = self.impl[nt]
        fr = Frame(f)
        fr.loc[1] = ('ref', SELF, ())
        node = ('v', 'node', 0)
        tid = f.locals[2]
        if nt == 'resolve':
            fr.loc[2] = node
        else:
            st.heap[NODE] = node
            fr.loc[2] = ('ref', NODE, ())
            tid = self.P.t(tid)['elem']
        st.frames = [fr]
        spec = Spec()
        spec.frames = [SFrame(self.rules[nt], {self.rules[nt].args[0]: ('ref', ('T', tid), ())})]
        spec.g = {'node': node, 'scopes': scopes, 'ft': vals[self.i_ft], 'ct': vals[self.i_ct]}
        st.ext = Ext(spec)
        st.ext.ghost = {'b_at': 0, 'ft0': vals[self.i_ft], 'ct0': vals[self.i_ct]}
        st.ext.moved = True
        return st

    def watch(self, mem, live):
        live.add(S0)
        live |= self.kept
        for t in list(live):
            if t and t[0] == 'mapget':
                for i in (self.v_slot, self.v_state):
                    live.add(('fld', t, i, VRS))
        # the names of the list elements that are being looked at
        for s, v in list(mem.items()):
            if isinstance(v, tuple) and v and v[0] == 'ref' and (v[1] == NODE or v[1][0] == 'T'):
                t = ('v', 'node', 0)
                p = v[2]
                for k, e in enumerate(p):
                    t = ('fld', t, e[1], e[2]) if e[0] == 'f' else ('elem', t, e[1])
                    if e[0] == 'i' and k + 1 < len(p) and p[k + 1][0] == 'f':
                        live |= {('fld', t, j, p[k + 1][2]) for j in range(2)}
        bases = {t for t in live if t and t[0] == 'ver'}
        nums = set()
        for s, v in mem.items():
            if s[0] in ('L', 'S'):
                if isinstance(v, tuple) and v and v[0] in ('iter', 'imiter'):
                    nums |= {v[2], v[3]}
                elif isinstance(v, int) or isinstance(v, tuple) and v and v[0] in ('lin', 'v', 'len'):
                    nums.add(v)
        for s, n in mem.items():
            # how far the rule has looked for a name
            if s[0] == 'S' and s[2] == 'i' and ('S', s[1], 'name') in mem:
                for b in bases:
                    subterms(('haskey', ('elem', b, n), mem['S', s[1], 'name']), live)
        for b in bases:
            for n in nums:
                if isinstance(n, int) and n != 0:
                    continue
                subterms(('elem', b, n), live)

    @staticmethod
    def forms(mem):
        out = [sub(v, ('len', S0)) for s, v in mem.items() if s[0] in ('L', 'S') and isinstance(v, tuple) and v
               and v[0] in ('v', 'lin')]
        # a counter that runs against an iterator
        ns = []
        for s, v in mem.items():
            if s[0] == 'L' and (isinstance(v, int) and not isinstance(v, bool) or isinstance(v, tuple) and v and v[0] in ('st', 'v', 'lin')):
                numbers(v, ns)
        at = [v for s, v in mem.items() if s[0] == 'S' and s[2] == 'i']
        return out + [sub(add(n, i), ('len', S0)) for n in ns for i in at if not (isinstance(n, int) and isinstance(i, int))]

    def share(self, st, mem):
        # what is known of the node does not depend on how far the code has got
        kept = set()
        for d in (st.K.tags, st.K.strs):
            kept |= set(d)
        for t in st.K.bools:
            kept |= {x for x in t[1:] if isinstance(x, tuple)}
        self.kept = set()
        used = set()
        for v in mem.values():
            freev(v, used)
        for t in kept:
            vs = set()
            freev(t, vs)
            if all(v[1] == 'node' for v in vs) or t in st.K.strs and vs <= used:
                self.kept.add(t)
        changed = False
        if NODE in st.heap and self.cur != 'resolve':
            tid = self.P.strip_box(self.P.t(self.impl[self.cur].locals[2])['elem'])
            for d, k in ((st.heap, NODE), (st.ext.spec.g, 'node')):
                v = self.spread(st, d[k], tid)
                changed |= v != d[k]
                d[k] = v
        # both sides hold the same scopes in the same terms
        v = st.heap.get(SELF)
        if v and v[0] == 'st' and 'scopes' in st.ext.spec.g:
            a, b = self.field(st, self.i_scopes), st.ext.spec.g['scopes']
            c = self.eqv.settled(st, a)
            if c != a:
                st.heap[SELF] = v[:2] + (v[2][:self.i_scopes] + (c,) + v[2][self.i_scopes + 1:],)
                changed = True
            if c != b and self.eqv.eq(st, c, b) is None:
                st.ext.spec.g['scopes'] = c
                changed = True
        return share(self.eqv, st, mem) or changed

    def spread(self, st, v, tid):
        """The node with what is known of its kinds made explicit."""
        t = self.P.t(tid)
        if t['k'] != 'adt':
            return v
        if t['path'] == 'indexmap::IndexMap' and v[0] in ('v', 'fld'):
            return ('st', t['path'], (('fld', v, 0, t['path']),))
        if not t.get('variants') or t['path'] in (CELL,):
            return v
        n = None
        if t['kind'] == 'enum':
            if v[0] == 'en':
                n = v[2]
            elif v[0] in ('v', 'fld'):
                tags = st.K.get_tags(v)
                if tags and len(tags) == 1:
                    n = next(iter(tags))
            if n is None:
                return v
            fs = self.P.vdef(t, n)['fields']
            x = ('en', t['path'], n, tuple(('fld', v, i, t['path'] + '::' + n) for i in range(len(fs)))) if v[0] != 'en' else v
        else:
            fs = t['variants'][0]['fields']
            if v[0] == 'st':
                x = v
            elif v[0] in ('v', 'fld'):
                x = ('st', t['path'], tuple(('fld', v, i, t['path']) for i in range(len(fs))))
            else:
                return v
        if len(x[-1]) != len(fs) or not t['path'].startswith(('ast::', 'std::option::Option')):
            return v
        return x[:-1] + (tuple(self.spread(st, y, self.P.strip_box(ftype(f))) for y, f in zip(x[-1], fs)),)

    @staticmethod
    def join_extra(J, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'st' and y[0] in ('fld', 'elem'):
                # a part that is only known from where it came
                return J.j(*(z if z[0] == 'st' else ('st', x[1], tuple(('fld', y, i, x[1]) for i in range(len(x[2])))) for z in (a, b)))
        if a[0] == 'seq' == b[0] and a[1] is not None and b[1] is not None and len(a[2]) == len(b[2]) and a[1][0] != 'seq':
            base = J.j(a[1], b[1])
            es = tuple(J.j(x, y) for x, y in zip(a[2], b[2]))
            return ('seq', base, es)
        if a[0] in ('ver', 'upd') and b[0] in ('ver', 'upd'):
            if a[0] == b[0] == 'ver':
                return ('ver', S0, J.j(a[2], b[2]))
            return ('ver', S0, J.mk(a, b))
        if a[0] == b[0] == 'haskey':
            return ('haskey', J.j(a[1], b[1]), J.j(a[2], b[2]))
        if a[0] == b[0] and a[0] in ('mapget',):
            return ('mapget', J.j(a[1], b[1]), J.j(a[2], b[2]))
        return None

    def cuts(self, fn):
        """Blocks in which loops start."""
        r = fn.d.get('_cuts')
        if r is None:
            r = fn.d['_cuts'] = loop_heads(fn)
        return r

    def advance(self, st):
        out = []
        self.counters = self.counting(st)
        for ev, s in self.I.step_until(st):
            self.handle(ev, s, out)
        return out

    def counting(self, s):
        """What a loop can count with: {place: (value, end, what it counts)}."""
        r = {}
        for i, f in enumerate(s.frames):
            for l, v in f.loc.items():
                if isinstance(v, tuple) and v and v[0] in ('iter', 'imiter'):
                    r[i, f.fn.idx, l] = (v[2], v[3], v[0:2])
                elif isinstance(v, tuple) and v and v[0] == 'range':
                    r[i, f.fn.idx, l] = (v[1], v[2], 'range')
                elif isinstance(v, int) or isinstance(v, tuple) and v and v[0] in ('lin', 'v', 'len'):
                    r[i, f.fn.idx, l] = (v, None, 'n')
                elif isinstance(v, tuple) and v and v[0] in ('st', 'tup', 'en'):
                    # adapters hold the iterators they draw from
                    its = []
                    inner_iters(v, its)
                    for n, x in enumerate(its):
                        r[i, f.fn.idx, l, n] = (x[2], x[3], x[0:2])
        return r

    def counts(self, s):
        now = self.counting(s)
        for k, (a, ea, wa) in self.counters.items():
            if k not in now:
                continue
            b, eb, wb = now[k]
            if wa != wb:
                continue
            if wa == 'n':
                # unsigned numbers only get smaller finitely often
                if s.K.interval(sub(a, b))[0] >= 1:
                    return True
                if s.K.interval(sub(b, a))[0] >= 1 and any(
                        t[0] == 'len' and s.K.interval(sub(b, t))[1] <= 0 for t in {x for u in s.K.iv for x, _ in u}):
                    return True
            elif s.K.interval(sub(sub(ea, a), sub(eb, b)))[0] >= 1:
                return True
        return False

    def catch_up(self, s, out):
        """Let the rule run to its next loop head, so that both are at corresponding points when states are merged."""
        if self.counts(s):
            s.ext.moved = True
        S0_ = s.ext.spec
        work = [(S0_.copy(), s.K.copy())]
        while work:
            for sev, S, K in self.SI.run(*work.pop(), True, True):
                s2 = s.copy()
                s2.K = K
                if sev[0] == 'head':
                    s2.ext.spec = S
                out.append(s2)

    def handle(self, ev, s, out, depth=0):
        if depth > 40:
            raise Unsupported('too many questions in a row')
        if ev[0] == 'cut':
            return self.catch_up(s, out)
        if ev[0] == 'probe':
            g = s.ext.ghost
            if not g['b_at']:
                # both sides stop before the question, so that states can be merged here
                for sev, S, K in self.SI.run(s.ext.spec.copy(), s.K.copy()):
                    s2 = s.copy()
                    s2.K = K
                    if sev[0] == 'probe' and self.same_question(s2, ev[1], sev[1]):
                        s2.ext.spec = S
                    s2.ext.ghost['b_at'] = 1
                    s2.ext.moved = True
                    out.append(s2)
                return
            g['b_at'] = 0
            for truth in (True, False):
                for k in s.K.assume(ev[1], truth):
                    s2 = s.copy()
                    s2.K = k
                    for ev2, s3 in self.I.step_until(s2):
                        self.handle(ev2, s3, out, depth + 1)
            return
        saved = s.ext.spec.copy()
        for sev, S, K in self.run_spec(s.ext.spec, s.K):
            s2 = s.copy()
            s2.ext.spec = S
            s2.K = K
            self.pair(ev, sev, s2, saved, out, ())

    def run_spec(self, spec, K, n=0):
        """Rule events that matter; its questions are answered both ways."""
        p = spec.g.get('pend')
        if p is not None:
            return [(('ret', ('err', p)), spec, K)]
        if self.SI.unroll and n > 6:
            return []
        if n > 12:
            raise Unsupported('the rule asks too many questions: ' + spec.where())
        out = []
        for sev, S, K2 in self.SI.run(spec, K, keep=n > 0):
            if sev[0] != 'probe':
                out.append((sev, S, K2))
                continue
            for truth in (True, False):
                for k in K2.assume(sev[1], truth):
                    out += self.run_spec(S.copy(), k, n + 1)
        return out

    def same_question(self, s, a, b):
        return a == b or a[0] == b[0] and all(self.eqv.eq(s, x, y) is None for x, y in zip(a[1:], b[1:]))

    def says(self, sev):
        if sev[0] == 'call':
            return 'goes on with %s of %s' % (sev[1], self.place(sev[2][0]))
        if sev[1][0] == 'err':
            return 'fails'
        return 'succeeds'

    def place(self, pl):
        if not pl[2]:
            return 'the node'
        out = []
        for e in pl[2]:
            out.append('%s.%s' % (str(e[2]).split('::')[-1], e[1]) if e[0] == 'f' else '[%s]' % show(e[1]))
        return ' '.join(out)

    def pair(self, ev, sev, s, saved, out, into):
        S = s.ext.spec
        if ev[0] == 'call' and sev[0] == 'call' and ev[1] == sev[1]:
            r = self.wrong_node(ev, sev, s)
            if not r:
                return self.matched_call(ev, sev, s, out)
            if len(into) < 3:
                # the code may go straight to a part of this node
                S2 = S.copy()
                self.SI.force_enter(S2, sev[1], sev[2])
                hit = []
                try:
                    inside = self.run_spec(S2, s.K.copy())
                except Unsupported:
                    inside = []
                for sev2, S3, K3 in inside:
                    s2 = s.copy()
                    s2.ext.spec = S3
                    s2.K = K3
                    hit.append((sev2, s2))
                if any(x[0] == 'call' and x[1] == ev[1] and not self.wrong_node(ev, x, y) for x, y in hit):
                    for x, y in hit:
                        self.pair(ev, x, y, saved, out, into + (sev[1],))
                    return
            self.deviates(s, S, 'resolves another part of the node than the rule: %s' % r, ['R01'])
            return
        if ev[0] == 'ret' and sev[0] == 'ret':
            return self.matched_ret(ev, sev, s)
        if ev[0] == 'call':
            what = 'resolves %s' % show(self.read(s, ev[2][1]))
        else:
            what = 'succeeds' if ev[1][2] == 'Ok' else 'fails'
        self.deviates(s, S, '%s where the rule %s' % (what, self.says(sev)), S.trail)

    def read(self, s, r):
        return models.deref(self.I, s, r)

    def wrong_node(self, ev, sev, s):
        """How the part that is resolved differs from the one the rule names."""
        r, pl = ev[2][1], sev[2][0]
        if r[0] != 'ref' or r[1] != (NODE if self.cur != 'resolve' else ('L', 0, 2)):
            raise Unsupported('what is resolved is not in the node')
        if len(r[2]) == len(pl[2]) and all(
                x[:3] == y[:3] if x[0] == 'f' == y[0] else x[0] == y[0] and self.eqv.eq(s, x[1], y[1]) is None
                for x, y in zip(r[2], pl[2])):
            return None
        return '%s instead of %s' % (self.place(r), self.place(pl))

    def scopes_differ(self, s, S):
        """(what, properties) of a difference between the scopes."""
        a, b = self.field(s, self.i_scopes), S.g['scopes']
        r = self.eqv.eq(s, a, b)
        if not r:
            return None
        la, lb = self.I.seqlen(a), self.I.seqlen(b)
        if self.eqv.eq(s, la, lb):
            return 'the number of open scopes: %s instead of %s' % (show(la), show(lb)), ['R04']
        return 'declared names: %s' % r, ['R02', 'R03', 'R06']

    def same_state(self, s, S, when):
        r = self.scopes_differ(s, S)
        if r:
            self.deviates(s, S, '%s, %s' % (when, r[0]), r[1])
            return False
        for i, g, what in ((self.i_ft, 'ft', 'kind of function'), (self.i_ct, 'ct', 'kind of class')):
            r = self.eqv.eq(s, self.field(s, i), S.g[g])
            if r:
                self.deviates(s, S, '%s, the enclosing %s: %s' % (when, what, r), ['R05'])
                return False
        n = self.I.seqlen(self.field(s, self.i_scopes))
        lo, hi = s.K.interval(n)
        if lo < 1 or hi > MAXDEPTH:
            self.deviates(s, S, '%s, the number of scopes: it can be %s, which a binding cannot express' % (
                when, 'larger than %d' % MAXDEPTH if hi > MAXDEPTH else '0'), ['R02'])
            return False
        return True

    def matched_call(self, ev, sev, s, out):
        name = ev[1]
        S = s.ext.spec
        S.trail = S.why = frozenset()
        if ev[2][0] != ('ref', SELF, ()):
            raise Unsupported('another resolver is used')
        if ev[2][1][0] != 'ref':
            self.deviates(s, S, 'resolves a copy: what it finds out is lost', ['R01'])
            return
        if not self.same_state(s, S, 'when %s is called' % name):
            return
        dst, tgt = s.pending
        self.calls.add((self.cur, name, S.where()))
        s.ext.ghost['b_at'] = 0
        for okay in (True, False):
            q = s.copy()
            g = q.ext.spec.g
            # names may have been declared, everything else is as before
            sc = self.I.as_seq(self.field(q, self.i_scopes))
            if sc[1] is not None and not plain(sc[1]):
                raise Unsupported('scopes below those of the caller are gone')
            base = ('ver', S0, q.fresh('ver')) if sc[1] is not None else None
            sc = ('seq', base, tuple(q.fresh('m') for _ in sc[2]))
            h = list(self.I.expand(q, q.heap[SELF], self.path, None)[2])
            h[self.i_scopes] = sc
            for i, n in enumerate(self.rf):
                if i not in (self.i_scopes, self.i_ft, self.i_ct):
                    h[i] = q.fresh('field_' + n)
            q.heap[SELF] = mk_struct(self.path, tuple(h))
            g['scopes'] = sc
            q.ext.moved = True
            v = UNIT if okay else q.fresh('E')
            self.I.finish(q, dst, tgt, ok(v) if okay else err(v))
            if okay:
                q.ext.spec.bind(q.ext.spec.ntdst, v)
            else:
                r = self.SI.raise_err(q.ext.spec, v)
                if r is not None:
                    q.ext.spec.g['pend'] = v
            out.append(q)

    def matched_ret(self, ev, sev, s):
        S = s.ext.spec
        v = ev[1]
        kind, sv = sev[1]
        self.rets.add((self.cur, s.where()[1], S.where()))
        if not (isinstance(v, tuple) and v[0] == 'en'):
            raise Unsupported('returns an unknown result %s' % show(v))
        okay = v[2] == 'Ok'
        if okay != (kind == 'ok'):
            self.deviates(s, S, '%s where the rule %s' % ('succeeds' if okay else 'fails', self.says(sev)), S.trail)
            return
        if not okay or self.cur == 'resolve':
            r = self.eqv.eq(s, v[3][0], sv)
            if r:
                only = None
                if not okay and self.cur != 'resolve':
                    # an error of the right kind in the wrong place
                    only = ['R09'] if self.same_token(s, v[3][0], sv) else None
                self.deviates(s, S, ('result: %s' if okay else 'error: %s') % r,
                              () if okay else ['R08'] if self.cur == 'resolve' else ['R09'], only)
                return
        if not self.same_state(s, S, 'at the end' if okay else 'after an error'):
            if not okay:
                f = self.findings[-1]
                self.findings[-1] = (tuple(sorted(set(f[0]) | {'R07'})),) + f[1:]
            return
        g = s.ext.ghost
        for i, w, what in ((self.i_ft, 'ft0', 'function'), (self.i_ct, 'ct0', 'class')):
            if self.eqv.eq(s, self.field(s, i), g[w]):
                self.deviates(s, S, 'the kind of %s is not restored' % what, ['R05', 'R07'])
                return
        d = sub(self.I.seqlen(self.field(s, self.i_scopes)), ('len', S0))
        if d != 0 and s.K.interval(d) != (0, 0):
            self.deviates(s, S, 'a scope is left open or closed too often', ['R04', 'R07'])
            return
        if okay and self.cur != 'resolve':
            r = self.eqv.eq(s, s.heap[NODE], S.g['node'])
            if r:
                self.deviates(s, S, 'the resolved node: %s' % r, ['R01'])

    def explore(self, nt):
        self.cur = nt
        ex = Explorer(self, 3000, 60000)
        ex.explore([self.initial(nt)])
        self.stats[nt] = {'states': ex.nodes, 'transitions': ex.transitions}
        for n in ex.still_cycles():
            f = self.impl[nt]
            self.report(['T01'], 'loop in %s' % nt, '%s' % f.span, '%s has a loop that can repeat without getting further' % f.path)
            break

    def enough(self):
        return len(self.findings) >= 40

    dropped = frozenset()

    def explore_long(self, nt, kinds):
        """One long run and those next to it: for what only shows after hundreds of steps."""
        self.cur = nt
        self.SI.unroll = 4
        n = len(self.findings)
        end = time.time() + 240
        for deep in (0, 15, 1, 2, 4, 8, 3, 5, 9, 6, 10, 12, 7, 11, 13, 14):
            for depth in (1, 300):
                for k in kinds or [None]:
                    st = self.initial(nt, depth)
                    if k is not None and nt != 'resolve':
                        st.K.set_tags(('v', 'node', 0), frozenset([k]))
                    self.findings, saved = [], self.findings
                    Explorer(self, 10 ** 9, 1500).bounded([st], deep, 8.0)
                    self.findings = saved + self.findings
                if len(self.findings) > n or time.time() > end:
                    break
            if len(self.findings) > n or time.time() > end:
                break
        self.SI.unroll = None

    def explore_small(self, nt):
        """Few scopes, short lists: when the general exploration does not end, bugs that show there are still found."""
        self.cur = nt
        self.SI.unroll = 4
        n = t = 0
        kinds = [None]
        if nt != 'resolve':
            f = self.impl[nt]
            d = self.P.t(self.P.strip_box(self.P.t(f.locals[2])['elem']))
            kinds = [v['name'] for v in d['variants']]
        for depth in (1, 2, 3):
            for k in kinds:
                st = self.initial(nt, depth)
                if k is not None:
                    st.K.set_tags(('v', 'node', 0), frozenset([k]))
                ex = Explorer(self, 10 ** 9, 1500).bounded([st], seconds=10.0)
                self.dropped |= ex.dropped
                n += ex.nodes
                t += ex.transitions
            if nt == 'resolve' or self.enough():
                break
        self.SI.unroll = None
        self.small[nt] = {'states': n, 'transitions': t}


def inner_iters(v, out):
    if isinstance(v, tuple) and v:
        if v[0] in ('iter', 'imiter'):
            out.append(v)
        elif v[0] in ('st', 'tup', 'en'):
            for x in v[-1]:
                inner_iters(x, out)


def numbers(v, out):
    if isinstance(v, int) and not isinstance(v, bool) or isinstance(v, tuple) and v and v[0] in ('v', 'lin'):
        out.append(v)
    elif isinstance(v, tuple) and v and v[0] in ('st', 'tup'):
        for x in v[-1]:
            numbers(x, out)


def plain(b):
    while b[0] == 'upd':
        b = b[1]
    return b[0] == 'ver'


_cache = {}


class Start(Hooks):
    """The function that resolves a whole program: which resolver it uses and what it returns."""

    def __init__(self, D):
        self.D = D
        self.I = Interp(D.P, self)
        self.I.probes = True
        self.found = []
        self.checked = 0

    def anchor(self, I, st, callee, args):
        i = callee.get('id')
        return 'resolve' if i is not None and self.D.P.fns[i] is self.D.impl['resolve'] else None

    def panic(self, I, st, kind, detail):
        fn, where = st.where()
        self.D.panics[('resolver::resolve', fn, where)] = (kind, 0)

    def bad(self, f, props, what):
        self.found.append((tuple(props), 'start %s' % f.path, f.span, '%s: %s' % (f.path, what)))

    def run(self):
        D, P = self.D, self.D.P
        mod = D.path.rsplit('::', 1)[0]
        fs = [f for f in P.local_fns() if f.kind == 'fn' and f.argc == 1 and 'ResolvedCode' in P.t(f.locals[0])['s']
              and f.path.rsplit('::', 1)[0] == mod]
        news = [f for f in P.local_fns() if f.kind == 'fn' and f.argc == 0 and P.t(f.locals[0]).get('path') == D.path]
        if not fs or not news:
            raise Fail('the functions that start a resolver are not recognised')
        for f in fs + news:
            st = State(Know(D.lemma))
            fr = Frame(f)
            if f.argc:
                fr.loc[1] = ('v', 'program', 0)
            st.frames = [fr]
            self.go(st, f)

    def fresh(self, f, v):
        D = self.D
        st = State(Know(D.lemma))
        g = [self.I.getfield(st, v, i, D.path, None) for i in range(len(D.rf))]
        if REquality(D.P, self.I).eq(st, g[D.i_scopes], ('seq', None, (('hmap', None, ()),))):
            self.bad(f, ['R02', 'R04'], 'the resolver starts with the scopes %s instead of one empty scope' % show(g[D.i_scopes]))
        for i, t, n in ((D.i_ft, D.ft_t, 'NoFunction'), (D.i_ct, D.ct_t, 'NoClass')):
            if g[i] != ('en', t['path'], n, ()):
                self.bad(f, ['R05'], 'the resolver starts with %s instead of %s' % (show(g[i]), n))

    def go(self, st, f):
        work = [(st, None)]
        while work:
            st, val = work.pop()
            for ev, s in self.I.step_until(st):
                if ev[0] == 'ret':
                    self.checked += 1
                    if not f.argc:
                        self.fresh(f, ev[1])
                    elif val is None:
                        self.bad(f, ['R01', 'R08'], 'returns %s without resolving' % show(ev[1]))
                    elif ev[1] != val:
                        self.bad(f, ['R08'], 'returns %s instead of the result of resolving' % show(ev[1]))
                elif ev[0] == 'call':
                    if val is not None:
                        raise Unsupported('%s resolves twice' % f.path)
                    self.fresh(f, models.deref(self.I, s, ev[2][0]))
                    if ev[2][1] != ('v', 'program', 0):
                        self.bad(f, ['R01', 'R08'], 'resolves something else than the program')
                    dst, tgt = s.pending
                    s2 = s.copy()
                    for q, v in ((s, ok(('v', 'resolved', 0))), (s2, err(('v', 'errors', 0)))):
                        self.I.finish(q, dst, tgt, v)
                        work.append((q, v))
                else:
                    raise Unsupported('unexpected event in %s' % f.path)


def analyse(ctx):
    if 'D' in _cache:
        return _cache['D']
    D = Domain(ctx.program('lib'))
    D.undecided = {}
    D.small, D.unconfirmed = {}, []
    for nt in ('resolve', 'resolve_expression', 'resolve_statement'):
        try:
            D.explore(nt)
        except Unsupported as e:
            D.undecided[nt] = str(e)
        except (KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError) as e:
            D.undecided[nt] = 'analyser error: %s: %s' % (type(e).__name__, e)
    # What is found where states were merged must also be found where none are.
    general, D.findings = D.findings, []
    for nt in [n for n in ('resolve', 'resolve_expression', 'resolve_statement')
               if n in D.undecided or any(f[1].startswith(n + ': ') for f in general)]:
        D.explore_small(nt)
    keys = {key(f) for f in D.findings}
    for nt in D.impl:
        lost = [f for f in general if f[1].startswith(nt + ': ') and key(f) not in keys]
        if lost:
            n = len(D.findings)
            D.explore_long(nt, sorted({k for f in lost for k in re.findall(r'; node (\w+)$', f[3])}))
            keys |= {key(f) for f in D.findings[n:]}
            del D.findings[n:]
    for f in general:
        if f[1].split(':')[0] not in D.impl or key(f) in keys:
            D.findings.append(f)
        else:
            D.unconfirmed.append(f)
            D.undecided.setdefault(f[1].split(':')[0], 'not confirmed on short runs: %s [%s]' % (f[3][-200:], f[1]))
    S = Start(D)
    try:
        S.run()
    except Unsupported as e:
        D.undecided['start'] = str(e)
    D.findings += S.found
    D.starts = S.checked
    _cache['D'] = D
    return D


def key(f):
    return re.sub(r'\[[^]]*\]', '[]', f[1])


def tags_of(D, nt):
    if nt == 'start':
        return {'R01', 'R02', 'R04', 'R05', 'R08', 'T01', 'T02'}
    seen, todo, tags = set(), [nt], set()
    while todo:
        r = D.rules[todo.pop()]
        if r.name in seen:
            continue
        seen.add(r.name)
        for c in r.code:
            if c[0] == 'tag':
                tags |= c[1]
            elif c[0] == 'call' and c[1] in D.rules and c[1] not in D.anchors:
                todo.append(c[1])
    return tags | set(D.rules[nt].props) | {'T01', 'T02', 'R09'}


def run(ctx, pids):
    res = Result()
    D = analyse(ctx)
    for props, key, where, msg in D.findings:
        res.add(props, key, where, msg)
    for (nt, fn, where), (kind, lo) in sorted(D.panics.items(), key=repr):
        when = ' with %d or more scopes open' % lo if lo >= 256 else ''
        res.add(['T02'], 'panic in %s%s' % (fn, when), where, '%s can panic%s (%s) in %s' % (fn, when, kind, nt))
    for pid in pids:
        res.coverage[pid] = {
            'rule': 'resolve_statement, resolve_expression and the public resolve method are explored for every tree node and '
                    'every resolver state in lockstep with the scoping rules in analysis/spec_resolver.py; the parts resolved, '
                    'their order, the scopes, slots, bindings, contexts, errors and what is left behind must agree',
            'rules': sorted(n for n in D.rules if pid in {t for c in D.rules[n].code if c[0] == 'tag' for t in c[1]}),
            'resolver_states': sum(x['states'] for x in D.stats.values()),
            'resolver_transitions': sum(x['transitions'] for x in D.stats.values()),
            'resolver_calls_matched': len(D.calls), 'resolver_returns_compared': len(D.rets),
            'resolver_starts_checked': D.starts,
            'resolver_functions_entered': sorted(f for f in D.I.fns_entered if not f.startswith('core:'))}
        for n, w in D.undecided.items():
            if pid in tags_of(D, n):
                res.undecided.append((pid, n, w))
    return res


if __name__ == '__main__':
    import sys
    import time
    from common import Ctx
    sys.setrecursionlimit(20000)
    os.environ.setdefault('VERIF_DUMP', '/tmp/w/out')
    t0 = time.time()
    D = analyse(Ctx('/verif', '/repo', 'quick'))
    print('UNDECIDED', D.undecided, D.small, D.stats, len(D.calls), len(D.rets), D.starts)
    seen = {}
    for f in D.findings:
        seen.setdefault((f[1], f[2]), []).append(f)
    for k, fs in list(seen.items())[:30]:
        print(len(fs), fs[0][0], k[1], fs[0][3])
    print('dropped', sorted(D.dropped)[:10])
    for f in D.unconfirmed:
        print('UNCONFIRMED', f)
    for k, v in D.panics.items():
        print('PANIC', k, v)
    print('%.1fs' % (time.time() - t0))
