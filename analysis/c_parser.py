"""The parser compared with the grammar, production by production.

Every method of the parser that is a grammar production is explored for every
token list and every cursor, in lockstep with the grammar rule of the same
name; calls of other productions are assumed to satisfy their own rule.
"""
import os
import re

import models
from absint import Interp, Hooks, State, Frame, Unsupported, ok, err, some, NONE
from common import Result, Fail
from lockstep import Equality, ANY, show, share
import product
from product import Ext, Explorer
from program import UNIT
from speclang import compile_file, Spec, SpecInterp, SFrame
from terms import *

HERE = os.path.dirname(os.path.abspath(__file__))
SELF = ('H', 'self')
TOK = 'token::Token'
TT = 'token::TokenType'
LOC = 'source_loc::SourceLoc'
CAUSE = 'error::ParseErrorCause'
PERR = 'error::ParseError'

ORDER = ['parse', 'parse_expression', 'declaration', 'statement', 'expression', 'assignment', 'rule_or', 'rule_and',
         'equality', 'comparison', 'addition', 'multiplication', 'unary', 'call', 'primary']
IMPL = {'rule_or': 'or', 'rule_and': 'and'}
RULE = {v: k for k, v in IMPL.items()}
EXPR = set(ORDER[4:])
RANK = {n: i for i, n in enumerate(ORDER)}
ACTIONS = {'eat', 'skip_one', 'expect', 'fail', 'fail_at', 'raise_all', 'ident'}


class TokenLemma:
    """What the scanner guarantees about the token list."""
    transitive = False

    def __init__(self, D):
        self.D = D

    def idx(self, t):
        """Index of the token whose type term t is."""
        if t[0] == 'fld' and t[3] == TOK and t[2] == self.D.f_type and t[1][0] == 'elem' and t[1][1] == self.D.T:
            return t[1][2]
        return None

    def vacuous(self, K, t):
        return False

    def tags(self, K, t):
        i = self.idx(t)
        if i is not None:
            d = sub(self.D.N, add(i, 1))
            lo, hi = raw_interval(K, d)
            if lo >= 1:
                return self.D.noneof
            if lo == hi == 0:
                return self.D.eof
            return None
        if t[0] == 'fld' and t[3] == TOK and t[1][0] == 'elem':
            kind = K.tags.get(('fld', t[1], self.D.f_type, TOK))
            if kind is not None:
                if t[2] == self.D.f_num and kind <= frozenset(['Number']):
                    return frozenset(['Some'])
                if t[2] == self.D.f_str and kind <= frozenset(['String']):
                    return frozenset(['Some'])
        return None

    def on_tags(self, K, t, s):
        i = self.idx(t)
        if i is not None:
            d = sub(self.D.N, add(i, 1))
            if 'Eof' not in s:
                return K.assume_ge(sub(d, 1))
            if s == self.D.eof:
                return K.assume_eq0(d)
        return True

    def atom_iv(self, K, a):
        if a == self.D.N:
            return (1, INF)
        return None

    def ev(self, K, b):
        return None

    def streq(self, K, a, text):
        return None


def raw_interval(K, lin):
    return K.interval(lin)


class Vocab:
    namespaces = {'Stmt': 'ast::Stmt', 'Expr': 'ast::Expr', 'TokenType': TT, 'BinaryOperator': 'ast::BinaryOperator',
                  'LogicalOperator': 'ast::LogicalOperator', 'UnaryOperator': 'ast::UnaryOperator',
                  'FunctionType': 'ast::FunctionType'}
    structs = {'ClassDefinition': 'ast::ClassDefinition', 'NamedFunctionDefinition': 'ast::NamedFunctionDefinition',
               'FunctionDefinition': 'ast::FunctionDefinition', 'Parameter': 'ast::Parameter'}
    context = {'in_loop'}

    def __init__(self, D):
        self.D = D

    def adt(self, path):
        P = self.D.P
        if path in P.adt_by_path:
            return P.t(P.adt_by_path[path])
        last = path.split('::')[-1]
        c = [i for p, i in P.adt_by_path.items() if p.split('::')[-1] == last]
        if len(c) != 1:
            raise Unsupported('type %s not found' % path)
        return P.t(c[0])

    def name(self, S, K, n):
        if n in ('in_loop',):
            return S.g['in_loop']
        if n == 'trailing':
            return self.D.flag
        if n == 'NONE':
            return NONE
        raise Unsupported('rule name ' + n)

    def token(self, S, k):
        return ('elem', self.D.T, add(S.g['C'], k))

    def kind(self, S, k):
        return ('fld', self.token(S, k), self.D.f_type, TOK)

    def loc(self, tok):
        D = self.D
        t = self.adt(LOC)
        vals = {'line': ('fld', tok, D.f_line, TOK), 'column': ('fld', tok, D.f_col, TOK)}
        return mk_struct(LOC, tuple(vals[f[0]] for f in t['variants'][0]['fields']))

    def fldname(self, f):
        return f['name'] if isinstance(f, dict) else f[0]

    def attr(self, S, K, v, a):
        D = self.D
        if v[0] == 'ns':
            return ('en', self.namespaces[v[1]], a, ())
        if a == 'loc':
            return self.loc(v)
        if a == 'text':
            return ('fld', v, D.f_lex, TOK)
        if a == 'kind':
            return ('fld', v, D.f_type, TOK)
        if a == 'number':
            return ('fld', ('fld', v, D.f_num, TOK), 0, 'std::option::Option::Some')
        if a == 'string':
            return ('fld', ('fld', v, D.f_str, TOK), 0, 'std::option::Option::Some')
        raise Unsupported('rule attribute ' + a)

    def compare(self, S, K, op, a, b):
        if op in ('Eq', 'NotEq'):
            if isinstance(b, tuple) and b[0] == 'en' and not b[3]:
                if isinstance(a, tuple) and a[0] == 'en':
                    r = int(a[2] == b[2])
                else:
                    r = ('is', a, frozenset([b[2]]), frozenset(self.D.P.variants(self.adt(b[1]))))
            elif isinstance(b, tuple) and b[0] == 's' or isinstance(a, tuple) and a[0] == 's':
                r = ('streq', a, b)
            else:
                r = self.D.I.cmp_ints(self.D.fake(K), 'Eq', a, b)
        elif op in ('GtE', 'Gt', 'LtE', 'Lt'):
            r = self.D.I.cmp_ints(self.D.fake(K), {'GtE': 'Ge', 'Gt': 'Gt', 'LtE': 'Le', 'Lt': 'Lt'}[op], a, b)
        else:
            raise Unsupported('rule comparison ' + op)
        return Interp.bnot(r) if op == 'NotEq' else r

    def construct(self, S, K, ns, variant, args, kw):
        path = self.namespaces[ns]
        t = self.adt(path)
        vd = self.D.P.vdef(t, variant)
        if vd is None or len(vd['fields']) != len(args):
            raise Unsupported('the shape of %s::%s changed' % (ns, variant))
        return mk_enum(t['path'], variant, tuple(args))

    def kinds(self, names):
        s = set()
        for n in names:
            if isinstance(n, tuple) and n[0] == 'en':
                s.add(n[2])
            elif isinstance(n, tuple) and n[0] == 'kindname':
                s.add(n[1])
            else:
                raise Unsupported('token kind %r' % (n,))
        return frozenset(s)

    def at(self, S, K, names, k=0):
        s = self.kinds(names)
        D = self.D
        t = ('is', self.kind(S, k), s, D.alltypes)
        if k > 0:
            return ('and', ('ge', sub(sub(D.N, 1), add(S.g['C'], k))), t)
        return t

    def eval_call(self, S, K, name, args, kw):
        D = self.D
        if name == 'at':
            return self.at(S, K, args, kw.get('k', 0))
        if name == 'tok':
            return self.token(S, args[0])
        if name == 'tok_before':
            lo, hi = K.interval(S.g['C'])
            if hi <= 0:
                return ('notok',)
            return self.token(S, -1)
        if name == 'some':
            return some(args[0])
        if name == 'is_none':
            v = args[0]
            if v[0] == 'en':
                return int(v[2] == 'None')
            return ('is', v, frozenset(['None']), frozenset(['None', 'Some']))
        if name == 'unwrap':
            v = args[0]
            if v[0] == 'en':
                return v[3][0]
            return ('fld', v, 0, 'std::option::Option::Some')
        if name in ('unbound_var', 'unbound_slot'):
            return ANY
        if name == 'is_variant':
            v, n = args[0], args[1][1]
            if v[0] == 'en':
                return int(v[2] == n)
            return ('is', v, frozenset([n]), frozenset(D.P.variants(self.adt('ast::Expr'))))
        if name == 'part':
            v, n, i = args[0], args[1][1], args[2]
            if v[0] == 'en':
                return v[3][i]
            return ('fld', v, i, self.adt('ast::Expr')['path'] + '::' + n)
        if name == 'empty_map':
            return ('imap', None, ())
        if name == 'has_key':
            m = args[0]
            return 0 if m == ('imap', None, ()) else ('haskey', m, args[1])
        if name == 'with_entry':
            return models.imap_add(args[0], args[1], args[2])
        if name == 'wrap_map':
            t = self.adt('ast::Map')
            return mk_struct(t['path'], (args[0],))
        if name == 'len':
            return D.I.seqlen(args[0])
        if name in self.structs:
            t = self.adt(self.structs[name])
            fs = [self.fldname(f) for f in t['variants'][0]['fields']]
            if set(fs) != set(kw):
                raise Unsupported('the fields of %s changed' % name)
            return mk_struct(t['path'], tuple(kw[f] for f in fs))
        raise Unsupported('rule vocabulary ' + name)

    def method(self, S, K, v, name, args, kw):
        raise Unsupported('rule method ' + name)

    def index(self, S, K, v, i):
        raise Unsupported('rule subscript')

    def cause(self, loc, text):
        t = self.adt(CAUSE)
        vals = {'source_loc': loc, 'token': text, 'message': ANY}
        fs = [self.fldname(f) for f in t['variants'][0]['fields']]
        if set(fs) != set(vals):
            raise Unsupported('the fields of ParseErrorCause changed')
        return mk_struct(t['path'], tuple(vals[f] for f in fs))

    def error_at(self, tok):
        if tok == ('notok',):
            return self.cause(ANY, ANY)
        return self.cause(self.loc(tok), some(('fld', tok, self.D.f_lex, TOK)))

    # --- actions
    def action(self, SI, S, K, name, pos, kw, dst, work):
        if name == 'eat':
            return self.do_eat(S)
        if name in ('skip_one',):
            c = self.at(S, K, [('kindname', 'Eof')])
            return self.fork(SI, S, K, c, work, lambda S2: None, self.do_eat)
        if name == 'expect':
            c = self.at(S, K, pos)

            def yes(S2):
                if self.kinds(pos) == frozenset(['Eof']):
                    return None
                return self.do_eat(S2)
            return self.fork(SI, S, K, c, work, yes, lambda S2: SI.raise_err(S2, self.error_at(self.token(S2, 0))))
        if name == 'ident':
            c = self.at(S, K, [('kindname', 'Identifier')])

            def yes(S2):
                t = self.token(S2, 0)
                S2.bind(dst, ('tup', (('fld', t, self.D.f_lex, TOK), self.loc(t))))
                return self.do_eat(S2)
            return self.fork(SI, S, K, c, work, yes, lambda S2: SI.raise_err(S2, self.error_at(self.token(S2, 0))))
        if name == 'fail':
            return SI.raise_err(S, self.error_at(pos[0]))
        if name == 'fail_at':
            return SI.raise_err(S, self.cause(pos[0], some(pos[1])))
        if name == 'raise_all':
            t = self.adt(PERR)
            return SI.raise_err(S, mk_struct(t['path'], (pos[0],)))
        raise Unsupported('rule action ' + name)

    def do_eat(self, S):
        S.g['C'] = add(S.g['C'], 1)
        return ('eat', 1)

    def fork(self, SI, S, K, cond, work, yes, no):
        e = K.ev(cond)
        if e is not None:
            return yes(S) if e else no(S)
        for k in K.assume(cond, False):
            s2 = S.copy()
            # re-run this instruction with the condition decided
            s2.frames[-1].pc -= 1
            work.append((s2, k))
        for k in K.assume(cond, True):
            s2 = S.copy()
            s2.frames[-1].pc -= 1
            work.append((s2, k))
        return 'dead'


class KindNames:
    """Token kinds written bare in the rules."""


class Domain(Hooks):
    fixed_roots = (SELF,)

    def __init__(self, P, res):
        self.P = P
        self.res = res
        self.I = Interp(P, self)
        self.I.limit_steps = 60000
        self.T = ('v', 'tokens', 0)
        self.N = ('len', self.T)
        self.flag = ('v', 'trailing', 0)
        self.lemma = TokenLemma(self)
        product.FIELDLESS.update(p for p, i in P.adt_by_path.items() if all(not v['fields'] for v in P.t(i)['variants']))
        self.eqv = Equality(P, self.I)
        self.setup_types()
        self.vocab = ParserVocab(self)
        self.rules = compile_file(os.path.join(HERE, 'spec_parser.py'), ACTIONS)
        self.find_anchors()
        self.SI = SpecInterp(self.rules, self.vocab, set(n for n in self.rules if n not in self.anchors))
        self.findings = []
        self.stats = {}
        self.cur = None
        self.panics = {}
        self.spins = {}

    def fake(self, K):
        st = State(K)
        return st

    # --- the data the parser works on
    def setup_types(self):
        P = self.P

        def adt(path):
            i = P.adt_by_path.get(path)
            if i is None:
                last = path.split('::')[-1]
                c = [j for p, j in P.adt_by_path.items() if p.split('::')[-1] == last and not p.startswith('std::')]
                if len(c) != 1:
                    raise Fail('type %s not found' % path)
                i = c[0]
            return P.t(i)
        tok = adt(TOK)
        fs = [fname(f) for f in tok['variants'][0]['fields']]
        need = {'f_type': 'token_type', 'f_lex': 'lexeme', 'f_str': 'string_literal', 'f_num': 'float_literal',
                'f_line': 'line', 'f_col': 'column'}
        for a, n in need.items():
            if n not in fs:
                raise Fail('Token has no field ' + n)
            setattr(self, a, fs.index(n))
        self.alltypes = frozenset(P.variants(adt(TT)))
        self.eof = frozenset(['Eof'])
        self.noneof = self.alltypes - self.eof
        ps = adt('parser::Parser')
        self.parser_path = ps['path']
        self.pf = [fname(f) for f in ps['variants'][0]['fields']]
        tys = [P.t(ftype(f)) for f in ps['variants'][0]['fields']]
        self.i_tok = self.i_cur = self.i_loop = self.i_flag = None
        nums = []
        for i, (n, t) in enumerate(zip(self.pf, tys)):
            if t['k'] == 'adt' and t['path'] == 'std::vec::Vec' and 'Token' in t['s']:
                self.i_tok = i
            elif t['k'] == 'int':
                nums.append(i)
            elif t['k'] == 'bool':
                nums.append(i)
        ints = [i for i in nums if tys[i]['k'] == 'int']
        bools = [i for i in nums if tys[i]['k'] == 'bool']

        def pick(cands, words):
            for w in words:
                for i in cands:
                    if w in self.pf[i]:
                        return i
            return None
        self.i_loop = pick(ints + bools, ['loop'])
        self.i_cur = pick([i for i in ints if i != self.i_loop], ['cur', 'pos', 'ind', 'offset', ''])
        self.i_flag = pick([i for i in bools if i != self.i_loop], ['trail', 'allow', 'repl', ''])
        if None in (self.i_tok, self.i_cur, self.i_loop, self.i_flag):
            raise Fail('the fields of the parser are not recognised: %s' % self.pf)
        self.loop_is_bool = self.i_loop in bools
        self.nfields = len(self.pf)
        self.ftys = tys

    def find_anchors(self):
        self.anchors = {}
        self.impl = {}
        pre = self.parser_path + '::'
        for f in self.P.local_fns():
            if f.kind != 'fn':
                continue
            base = f.path.split('::')[-1]
            if not (f.path.startswith(pre) or (f.impl_self and self.parser_path.split('::')[-1] in str(f.impl_self))):
                continue
            rule = RULE.get(base, base)
            if rule in self.rules and self.rules[rule].nt and f.argc == 1:
                self.impl[rule] = f
                self.anchors[rule] = f

    # --- callbacks of the interpreter
    def anchor(self, I, st, callee, args):
        i = callee.get('id')
        if i is None or callee.get('kind') != 'item':
            return None
        f = self.P.fns[i]
        for n, g in self.anchors.items():
            if g is f:
                return n
        return None

    def on_write(self, I, st, root, path, old, new):
        if root != SELF or not path:
            if root == SELF:
                raise Unsupported('the whole parser is overwritten')
            return None
        e = path[0]
        if e[1] == self.i_cur:
            d = sub(new, old)
            if not isinstance(d, int):
                raise Unsupported('the cursor is moved by an unknown amount')
            if d:
                st.event = ('eat', d + (st.event[1] if st.event else 0))
        elif e[1] == self.i_tok:
            raise Unsupported('the token list is modified')
        return None

    def panic(self, I, st, kind, detail):
        fn, where = st.where()
        self.panics[(self.cur, fn, where)] = (kind, detail, self.context(st))

    def spin(self, I, st):
        fn, where = st.where()
        self.report(['T01'], 'spin %s' % fn, where, 'a loop in %s can repeat without consuming a token: the parser does '
                    'not terminate' % fn)

    def context(self, st):
        C = self.cursor(st)
        toks = []
        for k in (-1, 0, 1):
            t = st.K.get_tags(('fld', ('elem', self.T, add(C, k)), self.f_type, TOK))
            toks.append('?' if t is None else ('|'.join(sorted(t)) if len(t) <= 4 else 'any but ' + '|'.join(
                sorted(self.alltypes - t)[:4]) if len(self.alltypes - t) <= 4 else '%d kinds' % len(t)))
        return 'tokens around the cursor: [%s] at [%s], then [%s]' % tuple(toks)

    def cursor(self, st):
        return self.I.getfield(st, st.heap[SELF], self.i_cur, self.parser_path, None)

    def loopval(self, st):
        return self.I.getfield(st, st.heap[SELF], self.i_loop, self.parser_path, None)

    def report(self, props, key, where, msg):
        self.findings.append((tuple(props), key, where, msg))

    def deviates(self, st, spec, what, extra=()):
        props = set(spec.tags if spec is not None else ()) | set(extra)
        nt = self.cur
        props |= set(self.rules[nt].props)
        if self.flag in st.K.bools:
            props.add('P13')        # only in a REPL line, or only in a file
        fn, where = st.where()
        self.report(sorted(props), '%s: %s' % (nt, what.split(':')[0]), where,
                    '%s (in %s) deviates from the grammar rule %s: %s; %s' % (
                        fn, self.impl[nt].path, spec.where() if spec else nt, what, self.context(st)))

    # --- exploration
    def initial(self, nt, in_loop):
        K = Know(self.lemma)
        st = State(K)
        C = ('v', 'C', 0)
        K.assume_ge(sub(sub(self.N, 1), C))
        if nt in ('parse', 'parse_expression'):
            C = 0
        vals = []
        for i in range(self.nfields):
            if i == self.i_tok:
                vals.append(self.T)
            elif i == self.i_cur:
                vals.append(C)
            elif i == self.i_flag:
                vals.append(self.flag)
            elif i == self.i_loop:
                if self.loop_is_bool:
                    vals.append(in_loop)
                elif in_loop:
                    L = ('v', 'L', 0)
                    K.assume_ge(sub(L, 1))
                    vals.append(L)
                else:
                    vals.append(0)
            else:
                vals.append(('v', 'field_' + self.pf[i], 0))
        st.heap[SELF] = ('st', self.parser_path, tuple(vals))
        f = self.impl[nt]
        fr = Frame(f)
        fr.loc[1] = ('ref', SELF, ())
        st.frames = [fr]
        spec = Spec()
        spec.frames = [SFrame(self.rules[nt], {})]
        spec.g = {'C': C, 'in_loop': in_loop}
        st.ext = Ext(spec)
        st.ext.ghost = {'C0': C, 'b_still': 1, 'L0': vals[self.i_loop]}
        st.ext.moved = True
        return st

    def watch(self, mem, live):
        """Terms whose facts matter although no variable holds them."""
        live.add(self.T)
        live.add(self.N)
        for e in [x for x in live if x and x[0] == 'elem' and x[1] == self.T]:
            for f in (self.f_type, self.f_num, self.f_str):
                live.add(('fld', e, f, TOK))
        h = mem[SELF]
        C = h[2][self.i_cur] if h[0] == 'st' else ('fld', h, self.i_cur, self.parser_path)
        for c in (C, mem[('SG', 'C')], mem[('G', 'C0')]):
            subterms(c, live)
            for k in (-1, 0, 1, 2):
                e = ('elem', self.T, add(c, k))
                subterms(e, live)
                live.add(('fld', e, self.f_type, TOK))
                live.add(('fld', e, self.f_num, TOK))
                live.add(('fld', e, self.f_str, TOK))

    join_extra = None

    def share(self, st, mem):
        return share(self.eqv, st, mem)

    def run_spec(self, spec, K):
        p = spec.g.get('pend')
        if p is not None:
            return [(('ret', ('err', p)), spec, K)]
        return self.SI.run(spec, K)

    def advance(self, st):
        out = []
        for ev, s in self.I.step_until(st):
            self.handle(ev, s, out, ())
        return out

    def handle(self, ev, s, out, into):
        if ev[0] == 'eat':
            if ev[1] < 0:
                raise Unsupported('the cursor moves backwards')
            s.ext.moved = True
            s.ext.ghost['b_still'] = 0
            s.ext.eat += ev[1]
            self.catch_up(s, out, into)
            return
        saved = s.ext.spec.copy()
        for sev, S, K in self.run_spec(s.ext.spec, s.K):
            s2 = s.copy()
            s2.ext.spec = S
            s2.K = K
            self.pair(ev, sev, s2, saved, out, into)

    def catch_up(self, s, out, into):
        work = [s]
        while work:
            s = work.pop()
            if s.ext.eat == 0:
                out.append(s)
                continue
            for sev, S, K in self.run_spec(s.ext.spec, s.K):
                s2 = s.copy()
                s2.ext.spec = S
                s2.K = K
                if sev[0] == 'eat':
                    s2.ext.eat -= 1
                    work.append(s2)
                elif sev[0] == 'call' and sev[1] not in into and len(into) < 6 and sev[1] != self.cur:
                    self.SI.force_enter(S, sev[1], sev[2])
                    work.append(s2)
                elif self.atend(s2, S):
                    s2.ext.eat = 0
                    out.append(s2)
                else:
                    self.deviates(s2, S, 'a token is consumed where the rule %s' % self.says(sev, s2))

    def atend(self, s, S):
        # whether the end marker itself is stepped over cannot be observed
        return self.cur in ('parse', 'parse_expression') and s.ext.eat == 1 and s.K.get_tags(
            ('fld', ('elem', self.T, S.g['C']), self.f_type, TOK)) == self.eof

    def says(self, sev, st=None):
        if sev[0] == 'eat':
            return 'consumes a token'
        if sev[0] == 'call':
            return 'goes on with "%s"' % sev[1]
        if sev[1][0] == 'err':
            v = sev[1][1]
            return 'fails'
        return 'succeeds with %s' % show(sev[1][1])

    def pair(self, ev, sev, s, saved, out, into):
        S = s.ext.spec
        if ev[0] == 'call' and sev[0] == 'call' and ev[1] == sev[1]:
            self.matched_call(ev, sev, s, out)
            return
        if ev[0] == 'ret' and sev[0] == 'ret':
            self.matched_ret(ev, sev, s)
            return
        # step into a production on one side
        ir = RANK.get(ev[1], 99) if ev[0] == 'call' else None
        sr = RANK.get(sev[1], 99) if sev[0] == 'call' else None
        if sr is not None and (ir is None or sr < ir):
            if ('S', sev[1]) not in into and len(into) < 8 and sev[1] != self.cur:
                self.SI.force_enter(S, sev[1], sev[2])
                saved2 = S.copy()
                for sev2, S2, K2 in self.run_spec(S, s.K):
                    s2 = s.copy()
                    s2.ext.spec = S2
                    s2.K = K2
                    self.pair(ev, sev2, s2, saved2, out, into + (('S', sev[1]),))
                return
        elif ir is not None and (sr is None or ir < sr):
            if ('I', ev[1]) not in into and len(into) < 8 and ev[1] != self.cur:
                s.ext.spec = saved
                dst, tgt = s.pending
                if self.recursion(s, ev[1], S):
                    return
                self.I.call_fn(s, self.anchors[ev[1]], list(ev[2]), dst, tgt)
                for ev2, s2 in self.I.step_until(s):
                    self.handle(ev2, s2, out, into + (('I', ev[1]),))
                return
        what = {'call': lambda: 'parses "%s"' % IMPL.get(ev[1], ev[1]), 'ret': lambda: 'returns %s' % show(ev[1])}[ev[0]]()
        self.deviates(s, S, '%s where the rule %s' % (what, self.says(sev, s)))

    def in_loop_of(self, st):
        L = self.loopval(st)
        if self.loop_is_bool:
            return st.K.ev(L)
        return st.K.ev(('ge', sub(L, 1))) if not isinstance(L, int) else int(L >= 1)

    def recursion(self, s, name, S):
        """Nested productions must have consumed a token or be inner ones."""
        if not s.ext.ghost['b_still'] or RANK[name] > RANK[self.cur]:
            return False
        fn, where = s.where()
        self.report(['T01', 'T02'], 'recursion %s %s' % (self.cur, name), where,
                    '%s can reach %s again without consuming a token: unbounded recursion; %s' % (
                        self.impl[self.cur].path, name, self.context(s)))
        return True

    def matched_call(self, ev, sev, s, out):
        name = ev[1]
        S = s.ext.spec
        a0 = ev[2][0]
        if a0 != ('ref', SELF, ()):
            raise Unsupported('a production is called on another parser')
        if self.recursion(s, name, S):
            return
        C = self.cursor(s)
        if self.eqv.eq(s, C, S.g['C']):
            self.deviates(s, S, 'calls "%s" at another token than the rule: %s' % (name, self.eqv.eq(s, C, S.g['C'])))
            return
        li = self.in_loop_of(s)
        si = S.g['in_loop']
        if li is None or (isinstance(si, int) and li != si):
            self.deviates(s, S, 'loop context: "%s" is parsed as %s a loop, the rule says %s' % (
                name, {1: 'inside', 0: 'outside', None: 'perhaps inside'}[li], 'inside' if si else 'outside'), ['P04'])
            return
        fl = self.I.getfield(s, s.heap[SELF], self.i_flag, self.parser_path, None)
        if self.eqv.eq(s, fl, self.flag):
            self.deviates(s, S, 'trailing-expression mode changes', ['P13'])
            return
        dst, tgt = s.pending
        self.calls.add((self.cur, name))
        # succeeds having consumed something
        alts = []
        s1 = s.copy()
        C1 = s1.fresh('C')
        if s1.K.assume_ge(sub(sub(C1, C), 1)) and s1.K.assume_ge(sub(sub(self.N, 1), C1)):
            alts.append((s1, C1, True, True))
        if name in EXPR:
            for k in s.K.assume(('is', ('fld', ('elem', self.T, C), self.f_type, TOK), frozenset(['This']), self.alltypes),
                                True):
                s2 = s.copy()
                s2.K = k
                s2.n = s1.n
                ks = k.assume(('is', ('fld', ('elem', self.T, add(C, 1)), self.f_type, TOK), frozenset(['Colon']),
                               self.alltypes), True)
                for k3 in ks:
                    s3 = s2.copy()
                    s3.K = k3
                    alts.append((s3, C, True, False))
        s4 = s.copy()
        s4.n = s1.n
        C4 = s4.fresh('C')
        if s4.K.assume_ge(sub(C4, C)) and s4.K.assume_ge(sub(sub(self.N, 1), C4)):
            alts.append((s4, C4, False, False))
        for q, c, okay, moved in alts:
            v = q.fresh('R' if okay else 'E')
            q.ext.moved = q.ext.moved or moved
            if moved:
                q.ext.ghost['b_still'] = 0
            h = q.heap[SELF]
            hs = list(self.I.expand(q, h, self.parser_path, None)[2])
            hs[self.i_cur] = c
            for i in range(self.nfields):
                if i not in (self.i_cur, self.i_tok, self.i_loop, self.i_flag):
                    hs[i] = q.fresh('field_' + self.pf[i])
            q.heap[SELF] = ('st', self.parser_path, tuple(hs))
            q.ext.spec.g['C'] = c
            self.I.finish(q, dst, tgt, ok(v) if okay else err(v))
            if okay:
                q.ext.spec.bind(q.ext.spec.ntdst, v)
            else:
                r = self.SI.raise_err(q.ext.spec, v)
                if r is not None:
                    q.ext.spec.g['pend'] = v
            out.append(q)

    def matched_ret(self, ev, sev, s):
        S = s.ext.spec
        v = ev[1]
        self.rets.add((self.cur, s.where()[1], S.where()))
        kind, sv = sev[1]
        if not (isinstance(v, tuple) and v[0] == 'en'):
            t = s.K.get_tags(v)
            raise Unsupported('returns an unknown result %s' % show(v))
        okay = v[2] == 'Ok'
        if okay != (kind == 'ok'):
            self.deviates(s, S, '%s where the rule %s' % ('succeeds with %s' % show(v[3][0]) if okay else 'fails',
                                                        self.says(sev, s)))
            return
        r = self.eqv.eq(s, v[3][0], sv)
        if r:
            extra = set() if okay else {'P15'}
            if okay and 'SourceLoc.' in r:
                extra.add('P17')
            if okay and re.search(r'\bj\d+ instead of|instead of j\d+\b', r):
                # built before a merge of paths: any part of the rule may be the one that deviates
                extra |= own_tags(self, self.cur)
            self.deviates(s, S, ('result: %s' if okay else 'error position: %s') % r, extra)
            return
        if self.cur in ('parse', 'parse_expression'):
            return
        r = self.eqv.eq(s, self.cursor(s), S.g['C'])
        if r:
            self.deviates(s, S, 'stops at another token than the rule: %s' % r)
            return
        r = self.eqv.eq(s, self.loopval(s), s.ext.ghost['L0'])
        if r:
            self.deviates(s, S, 'loop context is not restored (%s): %s' % ('on success' if okay else 'on failure', r), ['P04'])
            return
        if okay:
            C0 = s.ext.ghost['C0']
            if s.ext.ghost['b_still']:
                t = s.K.get_tags(('fld', ('elem', self.T, C0), self.f_type, TOK))
                if not (self.cur in EXPR and t == frozenset(['This'])):
                    fn, where = s.where()
                    self.report(['T01'], 'progress %s' % self.cur, where,
                                '%s can succeed without consuming a token; %s' % (self.impl[self.cur].path, self.context(s)))

    def explore(self, nt, ctxs=None):
        self.cur = nt
        if ctxs is None:
            ctxs = self.contexts(nt)
        st = {'states': 0, 'transitions': 0}
        for c in ctxs:
            ex = Explorer(self)
            ex.explore([self.initial(nt, c)])
            st['states'] += ex.nodes
            st['transitions'] += ex.transitions
            for n in ex.still_cycles():
                f = self.impl[nt]
                self.report(['T01'], 'loop in %s' % nt, '%s' % f.span, '%s has a loop that can repeat without consuming a '
                            'token' % f.path)
                break
        self.stats[nt] = st

    def contexts(self, nt):
        return (0,) if nt in ('parse', 'parse_expression') else (0, 1)

    def all_tags_cached(self):
        return {t for n in self.rules for t in own_tags(self, n)}

    def tags_of(self, nt):
        """Properties the rule of nt, with its inlined parts, speaks about."""
        seen, todo, tags = set(), [nt], set()
        while todo:
            r = self.rules[todo.pop()]
            if r.name in seen:
                continue
            seen.add(r.name)
            for c in r.code:
                if c[0] == 'tag':
                    tags |= c[1]
                elif c[0] == 'call' and c[1] in self.rules and c[1] not in self.anchors:
                    todo.append(c[1])
        return tags | set(self.rules[nt].props) | {'T01', 'T02', 'P04', 'P15', 'P17'}


def unit(arg):
    """One production in one context (run in a forked worker)."""
    nt, c = arg
    D = _cache['D']
    D.findings, D.panics, D.stats, D.calls, D.rets = [], {}, {}, set(), set()
    D.I.fns_entered = set()
    D.I.models_used = set()
    und = None
    try:
        D.explore(nt, (c,))
    except Unsupported as e:
        und = str(e)
    except Exception as e:      # an analyser error decides nothing
        und = 'analyser error: %s: %s' % (type(e).__name__, e)
    return (nt, c, D.findings, D.panics, D.stats.get(nt), D.calls, D.rets, D.I.fns_entered, D.I.models_used, und)


class Wrappers(Hooks):
    """The public functions that scan and then parse."""
    SPECS = (('parse', 'parse', 0, ('P06', 'P07', 'P13', 'P14')),
             ('parse_repl_line', 'parse', 1, ('P13', 'P07')),
             ('parse_expression', 'parse_expression', 0, ('P06', 'P13')))

    def __init__(self, D):
        self.D = D
        self.P = D.P
        self.I = Interp(D.P, self)
        self.findings = []
        self.checked = 0

    def anchor(self, I, st, callee, args):
        i = callee.get('id')
        f = self.P.fns[i] if i is not None else None
        if f is None or callee.get('kind') != 'item':
            return None
        if f.path.startswith('scanner::Scanner') and f.path.split('::')[-1] in ('new', 'scan_tokens'):
            return f.path.split('::')[-1]
        for n in ('parse', 'parse_expression'):
            if self.D.impl.get(n) is f:
                return n
        return None

    def run(self):
        fns = {f.path: f for f in self.P.local_fns() if f.kind == 'fn'}
        mod = self.D.parser_path.rsplit('::', 1)[0]
        for name, method, flag, props in self.SPECS:
            f = fns.get(mod + '::' + name)
            if f is None or f.argc != 1:
                raise Fail('no function %s::%s(source)' % (mod, name))
            st = State(Know())
            fr = Frame(f)
            fr.loc[1] = ('v', 'source', 0)
            st.frames = [fr]
            self.go(st, f, method, flag, props)

    def bad(self, f, props, what):
        self.findings.append((tuple(props), 'wrapper %s' % f.path, f.span, '%s: %s' % (f.path, what)))

    def go(self, st, f, method, flag, props):
        D = self.D
        work = [(st, 'start', None)]
        while work:
            st, phase, val = work.pop()
            for ev, s in self.I.step_until(st):
                if ev[0] == 'ret':
                    v = ev[1]
                    self.checked += 1
                    want = {'scanerr': err(val), 'ok': ok(val), 'err': err(val)}.get(phase)
                    if want is None or v != want:
                        self.bad(f, props, 'returns %s after %s' % (show(v), phase))
                    continue
                if ev[0] != 'call':
                    raise Unsupported('unexpected event in %s' % f.path)
                dst, tgt = s.pending
                if ev[1] == 'new':
                    if ev[2] != (('v', 'source', 0),):
                        self.bad(f, props, 'scans something else than its argument')
                        continue
                    self.I.finish(s, dst, tgt, ('v', 'scanner', 0))
                    work.append((s, 'new', None))
                elif ev[1] == 'scan_tokens':
                    if models.deref(self.I, s, ev[2][0]) != ('v', 'scanner', 0) or phase != 'new':
                        raise Unsupported('the scanner of %s' % f.path)
                    s2 = s.copy()
                    self.I.finish(s, dst, tgt, ok(D.T))
                    self.I.finish(s2, dst, tgt, err(('v', 'scan error', 0)))
                    work.append((s, 'scanned', None))
                    work.append((s2, 'scanerr', ('v', 'scan error', 0)))
                else:
                    p = models.deref(self.I, s, ev[2][0])
                    if phase != 'scanned' or ev[1] != method:
                        self.bad(f, props, 'calls %s after %s' % (ev[1], phase))
                        continue
                    g = [self.I.getfield(s, p, i, D.parser_path, None) for i in range(D.nfields)]
                    for i, want, what in ((D.i_tok, D.T, 'token list'), (D.i_cur, 0, 'cursor'), (D.i_loop, 0, 'loop context'),
                                          (D.i_flag, flag, 'trailing-expression mode')):
                        if g[i] != want:
                            self.bad(f, props + (('P04',) if i == D.i_loop else ()), 'the parser starts with %s %s instead of %s'
                                     % (what, show(g[i]), show(want)))
                    s2 = s.copy()
                    self.I.finish(s, dst, tgt, ok(('v', 'parsed', 0)))
                    self.I.finish(s2, dst, tgt, err(('v', 'parse error', 0)))
                    work.append((s, 'ok', ('v', 'parsed', 0)))
                    work.append((s2, 'err', ('v', 'parse error', 0)))


class ParserVocab(Vocab):
    def name(self, S, K, n):
        k = n.rstrip('_')
        if k in self.D.alltypes and n not in ('True', 'False'):
            return ('kindname', k)
        return Vocab.name(self, S, K, n)


def fname(f):
    return f['name'] if isinstance(f, dict) else f[0]


def ftype(f):
    return f['ty'] if isinstance(f, dict) else f[1]


_cache = {}


def analyse(ctx):
    if 'r' in _cache:
        return _cache['r']
    import multiprocessing
    D = Domain(ctx.program('lib'), None)
    for need in ('parse', 'parse_expression'):
        if need not in D.impl:
            raise Fail('the parser has no method ' + need)
    _cache['D'] = D
    units = [(n, c) for n in ORDER if n in D.impl for c in D.contexts(n)]
    units.sort(key=lambda u: ('declaration', 'statement', 'primary', 'call').index(u[0]) if u[0] in (
        'declaration', 'statement', 'primary', 'call') else 9)
    D.calls = set()
    r = {'findings': [], 'panics': {}, 'undecided': {}, 'states': 0, 'transitions': 0, 'calls': set(), 'rets': set(),
         'fns': set(), 'models': set(), 'units': len(units), 'D': D}
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 2)) as pool:
        for nt, c, fi, pa, stt, ca, re, fe, mo, und in pool.imap_unordered(unit, units, chunksize=1):
            r['findings'] += fi
            r['panics'].update(pa)
            r['calls'] |= ca
            r['rets'] |= re
            r['fns'] |= fe
            r['models'] |= mo
            if stt:
                r['states'] += stt['states']
                r['transitions'] += stt['transitions']
            if und:
                r['undecided'][nt] = und
    W = Wrappers(D)
    try:
        W.run()
    except Unsupported as e:
        r['undecided']['wrappers'] = str(e)
    r['findings'] += W.findings
    r['wrappers'] = W.checked
    r['findings'].sort(key=repr)
    _cache['r'] = r
    return r


def run(ctx, pids):
    res = Result()
    r = analyse(ctx)
    D = r['D']
    for props, key, where, msg in r['findings']:
        res.add(props, key, where, msg)
    for (nt, fn, where), (kind, detail, c) in sorted(r['panics'].items()):
        res.add(['T02'], 'panic in %s' % fn, where, '%s can panic (%s) while parsing "%s"; %s' % (fn, kind, nt, c))
    for pid in pids:
        res.coverage[pid] = {
            'rule': 'every production of the parser is explored for all token lists, all cursors and both loop contexts in '
                    'lockstep with the grammar in analysis/spec_parser.py; tokens consumed, productions entered, values '
                    'built, error positions and parser context must agree at every step',
            'productions_in_context': r['units'], 'product_states': r['states'], 'transitions': r['transitions'],
            'production_calls_matched': len(r['calls']), 'return_pairs_compared': len(r['rets']),
            'parser_functions_entered': sorted(f for f in r['fns'] if not f.startswith('core:')),
            'entry_wrapper_returns': r['wrappers'], 'undecided': r['undecided']}
        if pid in D.all_tags_cached():
            res.coverage[pid]['rules'] = sorted(n for n in D.rules if pid in own_tags(D, n))
        hit = [n for n in r['undecided'] if pid in (D.tags_of(n) if n in D.rules else ('P06', 'P07', 'P13', 'P14'))]
        for n in hit:
            res.undecided.append((pid, n, r['undecided'][n]))
    return res


def own_tags(D, n):
    return {t for c in D.rules[n].code if c[0] == 'tag' for t in c[1]} | set(D.rules[n].props)


if __name__ == '__main__':
    import sys
    import time
    from common import Ctx
    sys.setrecursionlimit(20000)
    t0 = time.time()
    os.environ.setdefault('VERIF_DUMP', '/tmp/w/out')
    only = sys.argv[1:]
    if not only:
        r = analyse(Ctx('/verif', '/repo', 'quick'))
        for n, e in r['undecided'].items():
            print('UNDECIDED', n, e)
        D = r['D']
        D.findings = r['findings']
        D.panics = r['panics']
        print(r['states'], r['transitions'], len(r['calls']), len(r['rets']))
    else:
        D = Domain(Ctx('/verif', '/repo', 'quick').program('lib'), None)
        D.calls, D.rets, D.undecided = set(), set(), {}
    for nt in ORDER if only else ():
        if only and nt not in only or nt not in D.impl:
            continue
        t1 = time.time()
        try:
            D.explore(nt)
            print(nt, D.stats[nt], '%.1fs' % (time.time() - t1))
        except Unsupported as e:
            import traceback
            if only:
                traceback.print_exc()
            print('UNDECIDED', nt, e)
    seen = {}
    for f in D.findings:
        seen.setdefault((f[1], f[2]), []).append(f)
    for k, fs in seen.items():
        print(len(fs), fs[0][0], k[1], fs[0][3])
    for k, v in D.panics.items():
        print('PANIC', k, v)
    print('%.1fs' % (time.time() - t0))
