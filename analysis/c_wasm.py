"""The WebAssembly entry point and the serialisers of the tree.

The crate is compiled a second time, for analysis only, with the configuration flags of the WebAssembly target (on the host, through
a manifest that lists the target's dependencies), and every path of the entry point and of every serialiser is followed for an
arbitrary source text, arbitrary outcomes of parsing and resolving, and an arbitrary tree.  What a serialiser hands to the serializer
is compared with the definition of the type it serialises.
"""
import re

from terms import *
from absint import Interp, State, Frame, Hooks, Unsupported, ok, err, NONE
from common import Result, Fail, NoCompile
from lockstep import show
from program import UNIT
import models
import hashmaps  # noqa: F401
from product import Explorer, Ext
from c_resolver import loop_heads
from c_cli import alter, text_pieces

ROOT_S = ('H', 'self', 'subject')
CODE = 'ast::ResolvedCode'
CELL = 'std::cell::Cell'
MAP = 'ast::Map'
SER = ('v', 'serializer', 0)
CHANGES = {'trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_end_matches', 'trim_start_matches', 'replace', 'replacen', 'to_uppercase',
           'to_lowercase', 'to_ascii_uppercase', 'to_ascii_lowercase', 'repeat'}


class Walk(Hooks):
    fixed_roots = (ROOT_S,)
    ordered = False
    join_extra = None

    def __init__(self, P, res):
        self.P = P
        self.res = res
        self.seen = set()
        self.rets = 0
        self.states = 0
        self.I = Interp(P, self)
        self.types = {}
        for t in P.types:
            if t.get('k') == 'adt' and t.get('path'):
                self.types.setdefault(t['path'], t)

    def share(self, st, mem):
        return False

    def watch(self, mem, live):
        pass

    def exact(self, st, mem):
        g = st.ext.ghost
        return tuple((k, g[k]) for k in sorted(g) if not k.startswith('n_') and not k.startswith('v_'))

    def enough(self):
        return False

    def cuts(self, fn):
        r = fn.d.get('_cuts')
        if r is None:
            r = fn.d['_cuts'] = loop_heads(fn)
        return r

    def advance(self, st):
        out = []
        for ev, s in self.I.step_until(st):
            if ev[0] == 'cut':
                out.append(s)
            elif ev[0] == 'ret':
                self.rets += 1
                self.ret(s, ev[1])
            else:
                raise Unsupported('unexpected event %s' % ev[0])
        return out

    def bad(self, st, props, key, msg):
        fn, where = st.where()
        k = (tuple(props), key, where)
        if k not in self.seen:
            self.seen.add(k)
            self.res.add(props, '%s %s' % (key, fn), where, '%s: %s' % (fn, msg))

    def explore(self, st, limit=600):
        E = Explorer(self, limit=limit)
        E.explore([st])
        self.states += E.states


# ---------------------------------------------------------------- entry point
class Entry(Walk):
    def find(self):
        gen = [f for f in self.P.fns if f and f.local and '__wasm_bindgen_generated_' in f.path]
        cand = []
        for f in gen:
            for c in callees(self.P, f):
                g = self.P.fns[c]
                if g is not None and g.local and g.argc == 1 and 'Result<' in self.P.t(g.locals[0])['s']:
                    cand.append((f.path.split('__wasm_bindgen_generated_')[-1].split('::')[0], g))
        return cand

    def run(self):
        cand = self.find()
        if not cand:
            raise Fail('the exported parse function is not recognised')
        names = [n for n, g in cand]
        g = dict(cand).get('parseString') or cand[0][1]
        self.fn = g
        if 'parseString' not in names:
            self.res.add(['W01'], 'export %s' % g.path, '%s' % g.file, 'the parse function is exported as %s, not as parseString' % names[0])
        self.stm_i = [f[0] for f in self.types[CODE]['variants'][0]['fields']].index('statements')
        st = State(Know(None))
        fr = Frame(g)
        t = self.P.t(g.locals[1])
        src = ('v', 'source', 0)
        st.heap[ROOT_S] = src
        fr.loc[1] = ('ref', ROOT_S, ()) if t['k'] == 'ref' else src
        st.frames = [fr]
        st.ext = Ext(None)
        st.ext.ghost = {'out': 'none', 'v_out': 0, 'v_ast': 0, 'sererr': 0}
        self.explore(st)
        return self

    def model(self, I, st, callee, args):
        p = models.strip_generics(callee['path'])
        rp = models.strip_generics(callee.get('rpath') or callee['path'])
        ks = models.keys_of(callee)
        g = st.ext.ghost
        w = p.split('::')[-1]
        if rp in ('parser::parse', 'parser::parse_repl_line'):
            x = models.deref_str(I, st, args[0])
            if x != ('v', 'source', 0):
                if x[0] not in ('s', 'scat', 'alt', 'format', 'tostring'):
                    raise Unsupported('parses an unknown text')
                self.bad(st, ['W01'], 'source', 'parses %s instead of the given source' % show(x))
            if rp != 'parser::parse':
                self.bad(st, ['W01'], 'parser', 'parses the source as a line of the prompt')
            if g['out'] != 'none':
                raise Unsupported('parses twice')
            s2 = st.copy()
            a, e = st.fresh('ast'), s2.fresh('errs')
            g.update(out='parsed', v_out=a, v_ast=a)
            s2.ext.ghost.update(out='err', v_out=e)
            return [(st, ok(a)), (s2, err(e))]
        if rp == 'resolver::Resolver::new' or 'resolver::Resolver as std::default::Default::default' in ks:
            return [(st, ('v', 'resolver', 0))]
        if rp in ('resolver::resolve', 'resolver::Resolver::resolve'):
            if g['out'] != 'parsed' or args[-1] != g['v_out']:
                raise Unsupported('resolves something else than what was parsed')
            s2 = st.copy()
            c, e = st.fresh('code'), s2.fresh('errs')
            g.update(out='ok', v_out=c)
            s2.ext.ghost.update(out='err', v_out=e)
            return [(st, ok(c)), (s2, err(e))]
        if p.startswith(('parser::Parser', 'scanner::', 'resolver::')) and 'id' in callee:
            raise Unsupported('the pipeline is put together in another way (%s)' % rp)
        if rp == 'serde_wasm_bindgen::to_value' or w == 'serialize' and 'Serialize' in p:
            v = models.deref(I, st, args[0])
            while isinstance(v, tuple) and v[0] in ('ref', 'vref'):
                v = models.deref(I, st, v)
            s2 = st.copy()
            s2.ext.ghost['sererr'] = 1
            return [(st, ok(('js', v))), (s2, err(('v', 'sererr', 0)))]
        if rp in ('serde_wasm_bindgen::Serializer::new', 'serde_wasm_bindgen::Serializer::json_compatible') or \
                rp.startswith('serde_wasm_bindgen::Serializer::serialize_') and len(args) == 2 or \
                'serde_wasm_bindgen::Serializer as std::default::Default::default' in ks:
            return [(st, SER)]
        if w == 'from' and 'wasm_bindgen::JsError' in (callee.get('rpath') or '') or \
                w == 'into' and 'wasm_bindgen::JsError' in self.P.t((callee.get('targs') or [0])[-1])['s']:
            return [(st, ('jserr', args[0]))]
        if rp in ('wasm_bindgen::JsError::new', 'wasm_bindgen::JsValue::from_str'):
            return [(st, ('jserr', ('text', models.deref_str(I, st, args[0]))))]
        if 'wasm_bindgen::JsValue' in (callee.get('rpath') or '') and w in ('from', 'into') and isinstance(args[0], tuple) and args[0][0] == 'jserr':
            return [(st, args[0])]
        if rp in ('wasm::log', 'wasm_bindgen::JsValue::as_string') or w == 'set_once':
            return [(st, UNIT)]
        if w in CHANGES and ('str' in p.split('::')):
            x = models.deref_str(I, st, args[0])
            return [(st, ('alt', w, x))]
        if args and isinstance(args[0], tuple) and w in ('to_string', 'to_owned', 'into', 'as_str', 'deref', 'clone', 'from', 'as_ref', 'borrow'):
            x = models.deref_str(I, st, args[0])
            if isinstance(x, tuple) and x[0] == 'alt':
                return [(st, x)]
        return None

    def carries(self, st, v, e):
        """Whether the thrown value carries the text of the error."""
        if v == e:
            return True
        if isinstance(v, tuple) and v and v[0] == 'text':
            try:
                ps = text_pieces(v[1])
            except Unsupported:
                raise
            for p in ps:
                if p[0] == 'arg' and p[1] == e and p[2] == 'display' and not p[4]:
                    return True
            if any(p[0] == 'arg' and p[1] not in (('v', 'source', 0),) and not isinstance(p[1], int) for p in ps):
                raise Unsupported('the thrown text is put together from %s' % show(v[1]))
            return False
        return None

    def ret(self, st, v):
        g = st.ext.ghost
        if not isinstance(v, tuple) or v[0] != 'en' or v[2] not in ('Ok', 'Err'):
            raise Unsupported('returns %s' % show(v))
        if v[2] == 'Ok':
            x = v[3][0]
            if g['sererr']:
                self.bad(st, ['W01'], 'lost', 'returns a value although serialisation failed')
            elif g['out'] == 'ok':
                c = g['v_out']
                if not isinstance(x, tuple) or x[0] != 'js':
                    self.bad(st, ['W01'], 'value', 'returns %s instead of the serialised statements' % show(x))
                elif x[1] != self.I.getfield(st, c, self.stm_i, CODE, None):
                    y = x[1]
                    if y == g['v_ast']:
                        self.bad(st, ['W01'], 'value', 'serialises the tree as it was before it was resolved')
                    elif isinstance(y, tuple) and y[0] == 'en' or y in (UNIT, NONE) or isinstance(y, tuple) and y[0] in ('s', 'seq', 'fld', 'elem'):
                        self.bad(st, ['W01'], 'value', 'returns %s serialised instead of the statements' % show(y))
                    else:
                        raise Unsupported('serialises %s' % show(y))
            elif g['out'] == 'parsed':
                self.bad(st, ['W01'], 'resolved', 'returns a value without resolving the parsed program')
            elif g['out'] == 'err':
                self.bad(st, ['W01'], 'swallowed', 'returns a value although the source was rejected')
            else:
                self.bad(st, ['W01'], 'parsed', 'returns a value without parsing the source')
            return
        x = v[3][0]
        if g['sererr']:
            return
        if g['out'] == 'err':
            if isinstance(x, tuple) and x[0] == 'jserr':
                c = self.carries(st, x[1], g['v_out'])
                if c is None:
                    raise Unsupported('throws %s' % show(x[1]))
                if not c:
                    self.bad(st, ['W01'], 'text', 'throws an error that does not carry the text of all causes')
            else:
                raise Unsupported('throws %s' % show(x))
        elif g['out'] == 'ok':
            self.bad(st, ['W01'], 'throws', 'throws an error although the source was accepted')
        else:
            self.bad(st, ['W01'], 'throws', 'throws an error before the source was parsed and resolved')

    def panic(self, I, st, kind, detail):
        if st.ext.ghost['sererr']:
            return
        self.bad(st, ['W01'], 'panic', 'can panic (%s) for %s' % (kind, {'err': 'a rejected source', 'ok': 'an accepted source'}.get(
            st.ext.ghost['out'], 'some source')))


def callees(P, f):
    """Local functions a function calls, also through the closures it makes."""
    out, todo, seen = [], [f], set()
    while todo:
        x = todo.pop()
        if x.idx in seen:
            continue
        seen.add(x.idx)
        for b in x.d['blocks']:
            if b is None:
                continue
            t = b[1]
            if t[0] == 'call':
                o = t[1]
                if o[0] == 'k':
                    ty = P.t(o[1]['ty'])
                    if ty.get('k') == 'fndef' and 'id' in ty['callee']:
                        out.append(ty['callee']['id'])
        for g in P.fns:
            if g and g.local and g.kind == 'closure' and g.path.startswith(x.path + '::{closure'):
                todo.append(g)
        for i in list(out):
            g = P.fns[i]
            if g and g.local and '{closure' in g.path:
                todo.append(g)
    return out


# ---------------------------------------------------------------- serialisers
STARTS = {'serialize_struct': 'struct', 'serialize_tuple': 'seq', 'serialize_tuple_struct': 'seq', 'serialize_seq': 'seq',
          'serialize_map': 'map', 'serialize_tuple_variant': 'vseq', 'serialize_struct_variant': 'vstruct'}
LEAF = {'serialize_bool', 'serialize_u8', 'serialize_u16', 'serialize_u32', 'serialize_u64', 'serialize_i8', 'serialize_i16', 'serialize_i32',
        'serialize_i64', 'serialize_f32', 'serialize_f64', 'serialize_char', 'serialize_str', 'serialize_bytes', 'serialize_u128',
        'serialize_i128'}
SHUFFLE = {'rev', 'filter', 'skip', 'take', 'step_by', 'filter_map', 'skip_while', 'take_while'}


class Trees(Walk):
    """Every serialiser against the type it serialises."""

    def __init__(self, P, res):
        Walk.__init__(self, P, res)
        self.roots = {}
        for f in P.local_fns():
            if f.path.split('::')[-1] == 'serialize' and f.argc == 2 and ('Serialize' in f.path) and P.t(f.locals[1])['k'] == 'ref':
                self.roots[P.t(f.locals[1])['elem']] = f
        self.ast = self.reachable()
        self.events = 0
        self.judged = 0
        self.collect = None

    def reachable(self):
        """The types a tree is made of."""
        out, todo = set(), [i for i, t in enumerate(self.P.types) if t.get('path') == 'ast::Stmt']
        while todo:
            i = todo.pop()
            if i in out:
                continue
            out.add(i)
            t = self.P.t(i)
            for a in t.get('args') or ():
                if isinstance(a, int):
                    todo.append(a)
            if isinstance(t.get('elem'), int):
                todo.append(t['elem'])
            if t.get('k') == 'adt' and not t['path'].startswith(('std::', 'core::', 'alloc::', 'indexmap::')):
                for v in t['variants']:
                    for f in v['fields']:
                        todo.append(f[1] if not isinstance(f, dict) else f['ty'])
        return out

    def run(self):
        if len(self.roots) < 5:
            raise Fail('the serialisers are not recognised')
        paths = {self.P.t(i).get('path') for i in self.ast}
        self.done = []
        for tid, fn in sorted(self.roots.items(), key=lambda x: x[1].idx):
            t = self.P.t(tid)
            if t.get('path') not in paths or '::serialize::' in t.get('path', ''):
                continue
            self.subject = t
            self.kind = 'map' if t['path'] == MAP else t['kind']
            st = State(Know(None))
            fr = Frame(fn)
            st.heap[ROOT_S] = ('v', 'node', 0)
            fr.loc[1] = ('ref', ROOT_S, ())
            fr.loc[2] = SER
            st.frames = [fr]
            st.ext = Ext(None)
            st.ext.ghost = {'failed': 0, 'n_i': 0, 'half': 0}
            st.K.lemma = None
            self.outs = []
            self.variants = {}
            try:
                if t['kind'] == 'enum':
                    for v in t['variants']:
                        s = st.copy()
                        s.K.set_tags(('v', 'node', 0), frozenset([v['name']]))
                        self.variant = v
                        self.explore(s)
                else:
                    self.variant = t['variants'][0]
                    self.explore(st)
                self.done.append(t['path'])
            except Unsupported as e:
                self.res.undecided.append(('W02', fn.path, str(e)))
        return self

    # ---- what is handed over
    def load(self, st, v):
        v = models.deref_str(self.I, st, v)
        while isinstance(v, tuple) and v and v[0] in ('ref', 'vref'):
            v = models.deref_str(self.I, st, v)
        return v

    def inner(self, tid):
        t = self.P.t(tid)
        while t['k'] == 'ref' or self.P.is_box(t):
            tid = t['elem'] if t['k'] == 'ref' else t['args'][0]
            t = self.P.t(tid)
        return tid, t

    def value(self, st, callee, arg):
        """[(state, value)] for something that is serialised."""
        self.events += 1
        tid = None
        ta = callee.get('targs') or []
        for x in reversed(ta):
            i, t = self.inner(x)
            if t.get('k') == 'adt' and '::serialize::' in t.get('path', '') and i in self.roots:
                tid = i
                break
        if tid is None:
            v = self.load(st, arg)
            if isinstance(v, tuple) and v and v[0] in ('st',) and str(v[1]).endswith('AdjacentlyTaggedEnumVariant'):
                if len(v[2]) != 3:
                    raise Unsupported('a tag')
                v = self.load(st, v[2][2])      # enum_name, variant_index, variant_name
            return [(st, ('val', v))]
        v = self.load(st, arg)
        if any(isinstance(x, tuple) and x and x[0] == 'ref' and x[1] != ROOT_S for x in all_terms(v)):
            raise Unsupported('a helper that borrows something else')
        sub = st.copy()
        root = ('H', 'helper', st.n)
        sub.heap[root] = v
        fr = Frame(self.roots[tid])
        fr.loc[1] = ('ref', root, ())
        fr.loc[2] = SER
        sub.frames = [fr]
        saved, self.collect = self.collect, []
        try:
            left = self.advance(sub)
            got = self.collect
        finally:
            self.collect = saved
        if left:
            raise Unsupported('a loop in a helper')
        out = []
        for s, r in got:
            q = st.copy()
            q.K = s.K
            q.n = s.n
            if r[2] == 'Err':
                q.ext.ghost['failed'] = 1
                out.append((q, None))
            else:
                out.append((q, r[3][0]))
        return out

    def forks(self, st, pairs):
        """Results of an operation that may fail."""
        out = []
        for q, v in pairs:
            if v is None:
                out.append((q, err(('v', 'sererr', 0))))
                continue
            f = q.copy()
            f.ext.ghost['failed'] = 1
            out.append((q, ok(v)))
            out.append((f, err(('v', 'sererr', 0))))
        return out

    def compound(self, st, r):
        v = models.deref(self.I, st, r)
        while isinstance(v, tuple) and v[0] == 'ref':
            r = v
            v = models.deref(self.I, st, r)
        if not isinstance(v, tuple) or v[0] != 'serst':
            raise Unsupported('an unknown serializer state')
        return r, v

    def entry_is(self, st, k, v):
        """Whether key and value are those of the next entry of the map."""
        node = ('v', 'node', 0)
        fi = 0
        im = self.I.getfield(st, node, fi, MAP, None)
        seq = self.I.getfield(st, im, 0, 'indexmap::IndexMap', None)
        e = self.I.getelem(st, seq, st.ext.ghost['n_i'])
        want = self.I.getfield(st, e, 0, 'tup', None), self.I.getfield(st, e, 1, 'tup', None)
        return want, seq

    def model(self, I, st, callee, args):
        p = models.strip_generics(callee['path'])
        w = p.split('::')[-1]
        g = st.ext.ghost
        if 'serde' not in p.split('::')[0] and 'serde' not in p and 'Serialize' not in p:
            if p in ('indexmap::IndexMap::len', 'indexmap::IndexMap::is_empty', 'indexmap::IndexMap::get_index'):
                r = args[0]
                if r[0] == 'ref':
                    r = ('ref', r[1], r[2] + (('f', 0, 'indexmap::IndexMap', None),))
                    n = I.seqlen(models.deref(I, st, r))
                    if w != 'get_index':
                        return [(st, n if w == 'len' else I.cmp_ints(st, 'Eq', n, 0))]
                    out = []
                    for q, v in models.branch(I, st, I.cmp_ints(st, 'Lt', args[1], n)):
                        e = r[2] + (('i', args[1]),)
                        out.append((q, models.some(('tup', tuple(('ref', r[1], e + (('f', i, 'tup', None),)) for i in (0, 1)))) if v else NONE))
                    return out
            if args and isinstance(args[0], tuple):
                x = args[0]
                rt = callee.get('rpath') or ''
                if x[0] == 'imiter' and w in ('collect', 'from_iter'):
                    if 'Vec' in rt or w == 'collect' and '::Vec<' in self.P.t((callee.get('targs') or [0])[-1])['s']:
                        return [(st, ('imvec', x))]
                    return [(st, ('scram', 'collect'))]
                if x[0] == 'imvec' and w == 'into_iter':
                    return [(st, x[1])]
                if x[0] == 'imiter' and w in SHUFFLE or x[0] == 'scram' and w in ('into_iter', 'iter', 'collect', 'from_iter'):
                    return [(st, ('scram', w))]
                y = models.deref(I, st, x) if x[0] == 'ref' else None
                if isinstance(y, tuple) and y[0] == 'scram' and w in ('iter', 'into_iter', 'next', 'len', 'deref', 'deref_mut', 'as_slice'):
                    if w == 'next':
                        q = st.copy()
                        k = st.fresh('other')
                        st.n += 1
                        tt = ('tup', (('vref', k), ('vref', ('v', 'otherv', st.n))))
                        return [(st, models.some(tt)), (q, NONE)]
                    return [(st, y if w != 'len' else ('v', 'length', 0))]
            if w.startswith('sort') and args:
                y = models.deref(I, st, args[0])
                if isinstance(y, tuple) and y[0] in ('imvec', 'scram'):
                    models.store(I, st, args[0], ('scram', w))
                    return [(st, UNIT)]
            if w in ('deref', 'deref_mut') and args and isinstance(models.deref(I, st, args[0]), tuple) and \
                    models.deref(I, st, args[0])[0] == 'imvec':
                return [(st, args[0])]
            return alter(I, st, callee, args)
        if w in STARTS:
            kind = STARTS[w]
            name = None
            if kind in ('vseq', 'vstruct'):
                name = self.load(st, args[3])
            return self.forks(st, [(st, ('serst', kind, name, ()))])
        if w in LEAF:
            return self.forks(st, [(st, ('val', self.load(st, args[1])))])
        if w in ('serialize_unit', 'serialize_none', 'serialize_unit_struct'):
            return self.forks(st, [(st, ('unit',))])
        if w == 'serialize_some':
            return self.forks(st, self.value(st, callee, args[1]))
        if w == 'serialize_newtype_struct':
            return self.forks(st, self.value(st, callee, args[2]))
        if w == 'serialize_unit_variant':
            return self.forks(st, [(st, ('ser', 'variant', self.load(st, args[3]), ()))])
        if w == 'serialize_newtype_variant':
            return self.forks(st, [(q, v and ('ser', 'variant', self.load(q, args[3]), (('e', v),))) for q, v in self.value(st, callee, args[4])])
        if w == 'collect_str':
            return self.forks(st, [(st, ('val', ('display', self.load(st, args[1]))))])
        if w in ('collect_map', 'collect_seq'):
            x = args[1]
            if w == 'collect_seq' and self.kind == 'map' and self.collect is None and isinstance(x, tuple) and x[0] in ('imiter', 'scram', 'ref'):
                self.bad(st, ['W02'], 'entries', 'a map is serialised as a sequence, not as its entries')
                return 'dead'
            if w == 'collect_map' and self.kind == 'map':
                if x[0] == 'ref':
                    v = self.load(st, x)
                    node = ('v', 'node', 0)
                    if v in (node, self.I.getfield(st, node, 0, MAP, None)):
                        return self.forks(st, [(st, ('ser', 'allmap'))])
                if x[0] == 'imiter' and x[2] == 0 and x[4] == 'kv' and self.whole(st, x):
                    return self.forks(st, [(st, ('ser', 'allmap'))])
                if x[0] == 'scram':
                    self.bad(st, ['W02'], 'entries', 'the entries of a map are serialised in another order, or not all of them (%s)' % x[1])
                    return 'dead'
            raise Unsupported('no model for %s' % p)
        if w == 'custom':
            return [(st, ('v', 'ownerr', 0))]
        if w == 'is_human_readable':
            return [(st, 1)]
        if w == 'serialize' and 'Serialize' in p:
            if any('FlatMapSerializer' in self.P.t(x)['s'] for x in callee.get('targs') or ()):
                self.bad(st, ['W02'], 'merged', 'a part of the tree is merged into the node that holds it')
                return 'dead'
            if args[1] != SER:
                raise Unsupported('another serializer')
            # a helper or a part of the tree
            return self.forks(st, self.value(st, callee, args[0]))
        if w in ('serialize_field', 'serialize_element', 'serialize_entry', 'serialize_key', 'serialize_value', 'skip_field', 'end'):
            return self.compound_op(st, callee, w, args)
        return None

    def whole(self, st, it):
        r = it[1]
        v = self.load(st, r)
        want, seq = self.entry_is(st, 0, 0)
        return v == seq and it[3] == self.I.seqlen(seq)

    def compound_op(self, st, callee, w, args):
        g = st.ext.ghost
        if w == 'end':
            v = args[0]
            if not isinstance(v, tuple) or v[0] != 'serst':
                raise Unsupported('an unknown serializer state')
            if v[1] == 'map' and self.kind == 'map' and self.collect is None:
                if g['half']:
                    self.bad(st, ['W02'], 'entries', 'a key of a map is serialised without its value')
                return self.forks(st, [(st, ('ser', 'entries'))])
            return self.forks(st, [(st, ('ser', v[1], v[2], v[3]))])
        r, c = self.compound(st, args[0])
        kind = c[1]
        if w == 'skip_field':
            return [(st, ok(UNIT))]
        if kind == 'map' and self.kind == 'map' and self.collect is None:
            want, seq = self.entry_is(st, 0, 0)
            n = self.I.seqlen(seq)

            def check(what, got, exp, q):
                if got != exp:
                    if isinstance(got, tuple) and got[0] in ('s', 'v', 'fld', 'elem', 'alt') or isinstance(got, int):
                        self.bad(q, ['W02'], 'entries', 'serialises %s where the %s of the next entry is due (%s)' % (show(got), what, show(exp)))
                    else:
                        raise Unsupported('a map entry %s' % show(got))
            if w == 'serialize_entry':
                check('key', self.load(st, args[1]), want[0], st)
                check('value', self.load(st, args[2]), want[1], st)
                g['n_i'] = add(g['n_i'], 1)
            elif w == 'serialize_key':
                check('key', self.load(st, args[1]), want[0], st)
                g['half'] = 1
            elif w == 'serialize_value':
                check('value', self.load(st, args[1]), want[1], st)
                g['half'] = 0
                g['n_i'] = add(g['n_i'], 1)
            else:
                raise Unsupported('%s on a map' % w)
            return self.forks(st, [(st, UNIT)])
        if kind in ('struct', 'vstruct') and w == 'serialize_field':
            key = self.load(st, args[1])
            vals = self.value(st, callee, args[2])
        elif kind in ('seq', 'vseq') and w in ('serialize_field', 'serialize_element'):
            key = None
            vals = self.value(st, callee, args[1])
        elif kind == 'map' and w == 'serialize_entry':
            key = self.load(st, args[1])
            vals = self.value(st, callee, args[2])
        else:
            raise Unsupported('%s on %s' % (w, kind))
        out = []
        for q, v in vals:
            if v is None:
                out.append((q, None))
                continue
            _, c2 = self.compound(q, args[0])
            item = ('e', v) if key is None else ('kv', key, v)
            if len(c2[3]) > 12:
                raise Unsupported('a node with very many parts')
            if models.store(self.I, q, r, c2[:3] + (c2[3] + (item,),)):
                raise Unsupported('event in a serializer')
            out.append((q, UNIT))
        return self.forks(st, out)

    # ---- judging
    def field(self, st, i):
        t = self.subject
        key = (t['path'] + '::' + self.variant['name']) if t['kind'] == 'enum' else t['path']
        return self.I.getfield(st, ('v', 'node', 0), i, key, None)

    def same(self, st, v, f):
        if v[0] != 'val':
            return False
        x = v[1]
        return x == f or x == self.I.getfield(st, f, 0, CELL, None)

    def which(self, st, v):
        """The number of the field that is the value, or a short description."""
        n = len(self.variant['fields'])
        for i in range(n):
            if self.same(st, v, self.field(st, i)):
                return i
        return None

    def plain(self, v):
        """Something that certainly is not a field."""
        return v[0] in ('unit',) or v[0] == 'val' and (isinstance(v[1], int) or isinstance(v[1], tuple) and v[1] and
                                                       v[1][0] in ('s', 'tup', 'alt', 'cast'))

    def ret(self, st, v):
        if not isinstance(v, tuple) or v[0] != 'en' or v[2] not in ('Ok', 'Err'):
            raise Unsupported('returns %s' % show(v))
        if self.collect is not None:
            self.collect.append((st, v))
            return
        g = st.ext.ghost
        self.judged += 1
        if v[2] == 'Err':
            if not g['failed']:
                self.bad(st, ['W02'], 'fails', 'serialising %s fails although nothing went wrong' % self.title())
            return
        if g['failed']:
            self.bad(st, ['W02'], 'lost', 'a failed serialisation of a part is ignored')
            return
        x = v[3][0]
        if self.kind == 'map':
            if x == ('ser', 'allmap'):
                return
            if x != ('ser', 'entries'):
                if self.plain(x):
                    self.bad(st, ['W02'], 'entries', 'a map is not serialised as its entries')
                    return
                raise Unsupported('a map is serialised as %s' % show(x))
            want, seq = self.entry_is(st, 0, 0)
            if st.K.interval(sub(self.I.seqlen(seq), g['n_i']))[1] > 0:
                self.bad(st, ['W02'], 'entries', 'not all entries of a map are serialised (%s of them)' % show(g['n_i']))
            return
        fields = self.variant['fields']
        names = [f['name'] if isinstance(f, dict) else f[0] for f in fields]
        if self.kind == 'struct':
            self.judge_struct(st, x, names)
        else:
            self.judge_variant(st, x, names)

    def title(self):
        t = self.subject['path']
        return t if self.kind != 'enum' else '%s::%s' % (t, self.variant['name'])

    def judge_struct(self, st, x, names):
        if names == ['0'] or not names:
            if x[0] == 'val' and self.which(st, x) == 0:
                return
            if x[0] == 'ser' and x[1] == 'seq' and len(x[3]) == 1 and self.which(st, x[3][0][1]) == 0:
                return
            if self.plain(x):
                self.bad(st, ['W02'], 'value', 'serialises %s instead of the value of %s' % (show(x), self.title()))
                return
            raise Unsupported('%s is serialised as %s' % (self.title(), show(x)))
        if x[0] == 'val' and (self.which(st, x) is not None or self.plain(x)) or x[0] == 'unit':
            self.bad(st, ['W02'], 'fields', '%s is serialised as %s only, not as all its fields under their names' % (self.title(), show(x)))
            return
        if x[0] != 'ser' or x[1] not in ('struct', 'map', 'seq'):
            raise Unsupported('%s is serialised as %s' % (self.title(), show(x)))
        if x[1] == 'seq':
            self.bad(st, ['W02'], 'fields', 'the fields of %s are serialised without their names' % self.title())
            return
        self.keyed(st, x[3], names)

    def keyed(self, st, items, names):
        got = {}
        for it in items:
            k = it[1]
            if not isinstance(k, tuple) or k[0] != 's':
                raise Unsupported('a field name %s' % show(k))
            got[k[1]] = it[2]
        for i, n in enumerate(names):
            if n not in got:
                self.bad(st, ['W02'], 'field', 'the field %s of %s is not serialised under its name (names: %s)' %
                         (n, self.title(), ', '.join(sorted(got)) or 'none'))
                continue
            if not self.same(st, got[n], self.field(st, i)):
                w = self.which(st, got[n])
                if w is not None:
                    self.bad(st, ['W02'], 'field', 'the field %s is serialised under the name %s' % (names[w], n))
                elif self.plain(got[n]):
                    self.bad(st, ['W02'], 'field', '%s is serialised as the field %s of %s' % (show(got[n]), n, self.title()))
                else:
                    raise Unsupported('the field %s is serialised as %s' % (n, show(got[n])))

    def judge_variant(self, st, x, names):
        """The name of the variant and its parts in order."""
        name = self.variant['name']
        others = {v['name'] for v in self.subject['variants']} - {name}
        if x[0] == 'val' and x[1] == ('s', name) and not names:
            return
        payload = None
        if x[0] == 'ser' and x[1] in ('variant', 'vseq', 'vstruct'):
            tag = x[2]
            payload = [it[-1] for it in x[3]]
        elif x[0] == 'ser' and x[1] in ('struct', 'map'):
            tags = [it for it in x[3] if it[2][0] == 'val' and isinstance(it[2][1], tuple) and it[2][1][0] == 's']
            tag = next((it[2][1] for it in tags if it[2][1] == ('s', name)), tags[0][2][1] if tags else None)
            rest = [it for it in x[3] if it not in tags]
            if tag is None:
                keys = [it[1] for it in x[3]]
                if keys and keys[0] == ('s', name):
                    tag = keys[0]
            payload = [it[2] for it in rest]
            if len(payload) == 1 and payload[0][0] == 'ser' and payload[0][1] in ('seq', 'struct'):
                payload = [it[-1] for it in payload[0][3]]
        elif x[0] == 'ser' and x[1] == 'seq' or x[0] == 'val' or x[0] == 'unit':
            if x[0] == 'val' and self.which(st, x) is None and not self.plain(x):
                raise Unsupported('%s is serialised as %s' % (self.title(), show(x)))
            self.bad(st, ['W02'], 'variant', '%s is serialised without its name, like other kinds of node' % self.title())
            return
        else:
            raise Unsupported('%s is serialised as %s' % (self.title(), show(x)))
        if tag != ('s', name):
            if tag is None or tag[0] == 's':
                self.bad(st, ['W02'], 'variant', '%s is serialised %s' % (self.title(), 'without its name' if tag is None else
                                                                          'under the name %s%s' % (tag[1], ', which is another kind' if tag[1] in others else '')))
                return
            raise Unsupported('the name of %s is %s' % (self.title(), show(tag)))
        got = [self.which(st, v) for v in payload]
        if got == list(range(len(names))):
            return
        if any(w is None and not self.plain(v) for w, v in zip(got, payload)):
            raise Unsupported('the parts of %s are %s' % (self.title(), show(tuple(payload))))
        missing = [i for i in range(len(names)) if i not in got]
        if missing:
            self.bad(st, ['W02'], 'part', 'part %d of %s is not serialised' % (missing[0], self.title()))
        else:
            self.bad(st, ['W02'], 'part', 'the parts of %s are serialised in the order %s' % (self.title(), got))

    def panic(self, I, st, kind, detail):
        self.bad(st, ['W02'], 'panic', 'serialising %s can panic (%s)' % (self.title(), kind))


def all_terms(v):
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            out.append(x)
            todo.extend(x)
    return out


_memo = {}


def run(ctx, pids):
    res = Result()
    if id(ctx) in _memo:
        return _memo[id(ctx)]
    _memo.clear()
    cov = {}
    try:
        P = ctx.program('wasm')
    except NoCompile as e:
        # what the host build accepts may still not build for WebAssembly; that decides nothing about what it does
        m = re.search(r'error(\[E\d+\])?: .*', str(e))
        for p in ('W01', 'W02'):
            res.undecided.append((p, 'the WebAssembly configuration', 'it does not compile: %s' % (m.group(0) if m else str(e)[-200:])))
        res.coverage = {'W01': {'compiled': 0}, 'W02': {'compiled': 0}}
        return res
    try:
        e = Entry(P, res).run()
        cov['W01'] = {'functions': sorted(e.I.fns_entered | {e.fn.path}), 'states': e.states, 'returns': e.rets,
                      'rule': 'parse the source as a file, resolve, serialise the statements; every other path throws the error'}
    except Unsupported as x:
        res.undecided.append(('W01', 'the entry point', str(x)))
    t = Trees(P, res).run()
    cov['W02'] = {'types': t.done, 'serialisers': len(t.roots), 'states': t.states, 'values_handed_over': t.events, 'returns': t.judged,
                  'rule': 'every field under its own name, every variant under its own name with its parts in order, every map entry in order'}
    res.coverage = cov
    _memo[id(ctx)] = res
    return res


if __name__ == '__main__':
    import sys
    from common import Ctx
    sys.setrecursionlimit(20000)
    c = Ctx('/verif', sys.argv[1] if len(sys.argv) > 1 else '/repo', 'quick')
    try:
        r = run(c, [])
        for f in r.findings:
            print(sorted(f.props), f.key, f.where, f.message)
        print(r.undecided)
        print(r.coverage)
    finally:
        c.cleanup()
