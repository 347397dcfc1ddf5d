"""The scanner compared with the lexical rules, character by character.

The scanner is explored for every source text (an unbounded sequence of
user-perceived characters of unknown text) in lockstep with spec_scanner.py:
characters consumed, tokens added, errors added and the final result must agree
at every step, with line, column, text and literal values.
"""
import os

import models
from absint import Interp, Hooks, State, Frame, Unsupported, NONE
from common import Result, Fail
from lockstep import Equality, ANY, show
from models import branch, some, deref, deref_str
import product
from product import Ext, Explorer
from program import UNIT
from speclang import compile_file, Spec, SpecInterp, SFrame
from terms import *

HERE = os.path.dirname(os.path.abspath(__file__))
SELF = ('H', 'self')
TOK = 'token::Token'
TT = 'token::TokenType'
CAUSE = 'error::ParseErrorCause'
ACTIONS = {'eat', 'emit', 'report'}
AHEAD = {'eat': 1, 'tok': 4, 'err': 2}           # how many events of one kind the rule may be ahead of the code
G = ('v', 'chars', 0)
N = ('len', G)
STR_RANGE = 'core::str'


def letters(n):
    return 65 <= n <= 90 or 97 <= n <= 122


def digits(n):
    return 48 <= n <= 57


CLASSES = {
    'alphabetic': letters,
    'numeric': digits,
    'letter': lambda n: letters(n) or n == 95,
    'alnum': lambda n: letters(n) or digits(n) or n == 95,
}
DIGITS = frozenset('0123456789')
RELATIONS = (('letter', ('alphabetic', '_')), ('alnum', ('alphabetic', 'numeric', '_')))


class CharLemma:
    """Facts of texts, characters and positions."""
    transitive = True

    def vacuous(self, K, t):
        while isinstance(t, tuple) and t and t[0] in ('bsym', 'chr', 'streq', 'strin', 'onechar'):
            t = t[2] if t[0] == 'bsym' else t[1]
        if not (isinstance(t, tuple) and t and t[0] == 'elem' and t[1] == G):
            return False
        return K.interval(t[2])[1] < 0 or K.interval(sub(t[2], N))[0] >= 0

    def tags(self, K, t):
        return None

    def on_tags(self, K, t, s):
        return True

    def atom_iv(self, K, a):
        if a[0] == 'chr':
            f = K.strs.get(a[1])
            if f and f[0] == 'eq' and f[1]:
                return (ord(f[1][0]), ord(f[1][0]))
            if f and f[0] == 'in' and all(f[1]):
                return (min(ord(x[0]) for x in f[1]), max(ord(x[0]) for x in f[1]))
            return (0, 0x10FFFF)
        return None

    def on_chr(self, K, c):
        """Can a character in the known range have the known classes?"""
        lo, hi = K.interval(c)
        if hi >= 128:
            return True
        known = [(CLASSES[n], K.bools[('bsym', n, c)]) for n in CLASSES if ('bsym', n, c) in K.bools]
        f = K.strs.get(c[1])
        no = {ord(x) for x in f[1] if len(x) == 1} if f and f[0] == 'ne' and K.bools.get(('onechar', c[1])) == 1 else ()
        return any(n not in no and all(bool(p(n)) == bool(v) for p, v in known) for n in range(int(lo), int(hi) + 1))

    def strin(self, K, a, xs):
        if K.bools.get(('onechar', a)) == 1 and all(len(x) == 1 for x in xs):
            lo, hi = self.chr_iv(K, a)
            if hi - lo < 128 and all(chr(int(n)) in xs for n in range(int(lo), int(hi) + 1)):
                return 1
        return None

    def ev(self, K, b):
        if b[0] == 'onechar':
            f = K.strs.get(b[1])
            if f and f[0] == 'eq':
                return int(len(f[1]) == 1)
            if f and f[0] == 'in' and all(len(x) == 1 for x in f[1]):
                return 1
            return None
        if b[0] == 'bsym' and b[2][0] == 'chr':
            lo, hi = K.interval(b[2])
            if hi < 128:
                r = {int(CLASSES[b[1]](x)) for x in range(int(lo), int(hi) + 1)}
                if len(r) == 1:
                    return r.pop()
            return self.classes(K, b[2]).get(b[1])
        if b[0] == 'eq0':
            # a word character that is neither letter nor digit is the underscore
            c, ts = lin_parts(b[1])
            if len(ts) == 1 and abs(ts[0][1]) == 1 and ts[0][0][0] == 'chr' and -c * ts[0][1] == 95:
                return self.classes(K, ts[0][0]).get('_')
        return None

    def classes(self, K, c):
        d = {n: K.bools[('bsym', n, c)] for n in CLASSES if ('bsym', n, c) in K.bools}
        lo, hi = K.interval(c)
        if lo == hi == 95:
            d['_'] = 1
        elif lo > 95 or hi < 95:
            d['_'] = 0
        else:
            e = ('eq0', sub(c, 95))
            x = K.bools.get(e, K.bools.get(('eq0', scale(e[1], -1))))
            if x is not None:
                d['_'] = x
        for _ in range(2):
            for w, parts in RELATIONS:
                ps = [d.get(p) for p in parts]
                if 1 in ps:
                    d[w] = 1
                elif None not in ps:
                    d[w] = 0
                elif d.get(w) == 0:
                    for p in parts:
                        d[p] = 0
                elif d.get(w) == 1 and ps.count(None) == 1:
                    d[parts[ps.index(None)]] = 1
            if d.get('_') == 1:
                d['alphabetic'] = d['numeric'] = 0
        return d

    def streq(self, K, a, text):
        if a[0] == 'elem' and ('onechar', a) in K.bools:
            one = K.bools[('onechar', a)]
            if one != (len(text) == 1):
                return 0
            lo, hi = self.chr_iv(K, a)
            if one and lo == hi == ord(text):
                return 1
        if a[0] == 'elem' and a[1] == G:
            if len(text) != 1 and text != '\r\n' and text.isascii():
                return 0
            if text:
                lo, hi = self.chr_iv(K, a)
                n = ord(text[0])
                if n < lo or n > hi:
                    return 0
                d = self.classes(K, ('chr', a)) if n < 128 else {}
                for w, f in CLASSES.items():
                    if w in d and d[w] != int(f(n)):
                        return 0
        if a[0] == 'slice' and text == '':
            return 0
        return None

    def chr_iv(self, K, a):
        return K.iv.get(((('chr', a), 1),), (0, 0x10FFFF))


def ceil_text(K, e):
    """The known text of a character, or None."""
    f = K.strs.get(e)
    return f[1] if f and f[0] == 'eq' else None


def norm_pos(K, t):
    """Cursor for a byte offset into the source: the index i of pos(i)."""
    if isinstance(t, int):
        if t == 0:
            return 0
        c, ts = t, []
        base = 0
    else:
        c, ts = lin_parts(t)
        ps = [(a, k) for a, k in ts if a[0] == 'pos']
        rest = {a: k for a, k in ts if a[0] != 'pos'}
        if not ps and all(a[0] == 'strlen' for a in rest):
            base = 0
        elif len(ps) == 1 and ps[0][1] == 1:
            base = ps[0][0][1]
        else:
            return None
        ts = rest
    ts = dict(ts)
    for _ in range(12):
        if c == 0 and not ts:
            return base
        e = ('elem', G, base)
        p = ('elem', G, sub(base, 1))
        if ts.get(('strlen', e), 0) > 0:
            ts[('strlen', e)] -= 1
            ts = {a: k for a, k in ts.items() if k}
            base = add(base, 1)
        elif ts.get(('strlen', p), 0) < 0:
            ts[('strlen', p)] += 1
            ts = {a: k for a, k in ts.items() if k}
            base = sub(base, 1)
        elif c > 0 and ceil_text(K, e) and len(ceil_text(K, e).encode()) <= c:
            c -= len(ceil_text(K, e).encode())
            base = add(base, 1)
        elif c < 0 and ceil_text(K, p) and len(ceil_text(K, p).encode()) <= -c:
            c += len(ceil_text(K, p).encode())
            base = sub(base, 1)
        else:
            return None
    return None


def canon(K, i):
    """Cursors a known distance from the end are written that way."""
    lo, hi = K.interval(sub(N, i))
    return sub(N, int(lo)) if lo == hi else i


def mk_slice(K, i, j):
    d = sub(j, i)
    lo, hi = K.interval(d)
    i, j = canon(K, i), canon(K, j)
    if lo == hi:
        d = int(lo)
        j = add(i, d)
    if d == 0:
        return ('s', '')
    if d == 1:
        return ('elem', G, i)
    return ('slice', i, j)


def bounds_of(v):
    """(i, j) of a piece of the source."""
    if v == ('src',):
        return 0, N
    if v[0] == 'slice':
        return v[1], v[2]
    if v[0] == 'elem' and v[1] == G:
        return v[2], add(v[2], 1)
    return None


def loop_heads(fn):
    succ = fn.live_in()[2]
    color, heads = {0: 1}, set()
    stack = [(0, iter(succ[0]))]
    while stack:
        b, it = stack[-1]
        for x in it:
            if color.get(x) == 1:
                heads.add(x)
            elif x not in color:
                color[x] = 1
                stack.append((x, iter(succ[x])))
                break
        else:
            color[b] = 2
            stack.pop()
    return heads


class Vocab:
    namespaces = {}
    context = {'C', 'line', 'col', 'levels', 'spaces', 'b_bol', 'b_continued', 'b_continues', 'b_abut', 'comment', 'nerr'}

    def __init__(self, D):
        self.D = D

    def name(self, S, K, n):
        if n in self.context:
            return S.g[n]
        if n == 'N':
            return N
        if n == 'ANYTHING':
            return ANY
        k = n.rstrip('_')
        if k in self.D.kinds:
            return ('en', self.D.tt, k, ())
        raise Unsupported('token kind %s is gone' % n)

    def attr(self, S, K, v, a):
        raise Unsupported('rule attribute')

    def construct(self, *a):
        raise Unsupported('rule constructor')

    method = index = construct

    def compare(self, S, K, op, a, b):
        if isinstance(b, tuple) and b[0] == 's':
            r = ('streq', a, b)
            e = K.ev_streq(a, b)
            r = r if e is None else e
        else:
            o = {'Eq': 'Eq', 'NotEq': 'Eq', 'GtE': 'Ge', 'Gt': 'Gt', 'LtE': 'Le', 'Lt': 'Lt'}[op]
            r = self.D.I.cmp_ints(State(K), o, a, b)
        return Interp.bnot(r) if op == 'NotEq' else r

    def eval_call(self, S, K, name, args, kw):
        D = self.D
        if name == 'ch':
            return ('elem', G, args[0])
        if name == 'text':
            return mk_slice(K, *args)
        if name == 'len':
            return D.I.seqlen(args[0])
        if name == 'last':
            s = D.I.as_seq(args[0])
            if s == ('seq', None, ()):
                raise Unsupported('last of nothing')
            return D.I.getelem(State(K), s, sub(seq_len(s), 1))
        if name == 'pop':
            return models.pop_seq(D.I.as_seq(args[0]))
        if name == 'push':
            s = D.I.as_seq(args[0])
            return ('seq', s[1], s[2] + (args[1],))
        if name == 'sat_line':
            return models.sat_add(K, args[0], 1, D.line_bits, True)
        if name == 'sat_col':
            return models.sat_add(K, args[0], 1, D.col_bits, True)
        if name == 'sat_spaces':
            return models.sat_add(K, args[0], 1, D.level_bits, True)
        if name == 'digit':
            return ('strin', args[0], DIGITS)
        if name == 'letter':
            return ('bsym', 'letter', ('chr', args[0]))
        if name == 'alnum':
            return ('bsym', 'alnum', ('chr', args[0]))
        if name == 'decimal':
            return ('num', args[0])
        if name == 'success':
            return ('s', 'tokens')
        if name == 'failure':
            return ('s', 'errors')
        raise Unsupported('rule vocabulary ' + name)

    def action(self, SI, S, K, name, pos, kw, dst, work):
        if name == 'eat':
            S.g['C'] = add(S.g['C'], 1)
            return ('eat', 1)
        if name == 'emit':
            kind, line, col, text = pos
            return ('tok', kind, line, col, text, kw.get('string'), kw.get('number'))
        if name == 'report':
            S.g['nerr'] = add(S.g['nerr'], 1)
            return ('err', pos[0], pos[1])
        raise Unsupported('rule action ' + name)


class ScanDomain(Hooks):
    fixed_roots = (SELF,)
    keep_sat = True
    ordered = True
    patience = 0
    thresholds = ((1, 0, -1), (0, 1))

    def __init__(self, P, sticky=False, balance=False):
        self.P = P
        self.I = Interp(P, self)
        self.I.limit_steps = 400000
        self.lemma = CharLemma()
        product.FIELDLESS.update(p for p, i in P.adt_by_path.items() if all(not v['fields'] for v in P.t(i)['variants']))
        self.in_limit, self.text_sets = 12, (DIGITS,)
        self.num_slots = ('SG', 'H')
        self.setup_types()
        self.eqv = ScanEquality(P, self.I)
        self.vocab = Vocab(self)
        self.rules = compile_file(os.path.join(HERE, 'spec_scanner.py'), ACTIONS)
        self.SI = SpecInterp(self.rules, self.vocab, set(self.rules))
        self.undecided = {}
        self.findings = []
        self.deviations = []
        self.sticky = sticky
        self.balance = balance      # follow only the code and count the blocks it opens and closes
        self.panics = {}
        self.stats = {}
        self.matched = {'tok': set(), 'err': set(), 'ret': set(), 'num': set()}
        self.mode = 'scan'

    def fname(self, f):
        return f['name'] if isinstance(f, dict) else f[0]

    def ftype(self, f):
        return f['ty'] if isinstance(f, dict) else f[1]

    def setup_types(self):
        P = self.P

        def adt(path):
            i = P.adt_by_path.get(path)
            if i is None:
                raise Fail('type %s not found' % path)
            return P.t(i)
        tok = adt(TOK)
        fs = tok['variants'][0]['fields']
        self.tf = {self.fname(f): i for i, f in enumerate(fs)}
        for n in ('token_type', 'lexeme', 'string_literal', 'float_literal', 'line', 'column'):
            if n not in self.tf:
                raise Fail('Token has no field ' + n)
        self.tfn = len(fs)
        self.line_bits = P.t(self.ftype(fs[self.tf['line']]))['bits']
        self.col_bits = P.t(self.ftype(fs[self.tf['column']]))['bits']
        self.tt = adt(TT)['path']
        self.kinds = frozenset(P.variants(adt(TT)))
        cause = adt(CAUSE)
        self.cf = {self.fname(f): i for i, f in enumerate(cause['variants'][0]['fields'])}
        loc = P.t(self.ftype(cause['variants'][0]['fields'][self.cf['source_loc']]))
        self.locpath = loc['path']
        self.lf = {self.fname(f): i for i, f in enumerate(loc['variants'][0]['fields'])}
        sc = adt('scanner::Scanner')
        self.spath = sc['path']
        fields = sc['variants'][0]['fields']
        self.sf = [self.fname(f) for f in fields]
        self.i_tok = self.i_err = self.i_iter = self.i_lev = None
        self.bools = []
        for i, f in enumerate(fields):
            t = P.t(self.ftype(f))
            if t['k'] == 'bool':
                self.bools.append(i)
            elif t['k'] == 'adt' and t['path'] == 'std::vec::Vec':
                e = P.t(t['args'][0])
                if e['k'] == 'adt' and e['path'] == TOK:
                    self.i_tok = i
                elif e['k'] == 'adt' and e['path'] == CAUSE:
                    self.i_err = i
                elif e['k'] == 'int':
                    self.i_lev = i
                    self.level_bits = e['bits']
            elif 'GraphemeIndices' in t['s']:
                self.i_iter = i
        if None in (self.i_tok, self.i_err, self.i_iter, self.i_lev):
            raise Fail('the fields of the scanner are not recognised: %s' % self.sf)
        self.fn = {}
        for f in P.local_fns():
            if f.kind == 'fn' and f.path.startswith('scanner::Scanner') and f.path.split('::')[-1] in ('new', 'scan_tokens'):
                self.fn[f.path.split('::')[-1]] = f
        if len(self.fn) != 2:
            raise Fail('Scanner::new or Scanner::scan_tokens is missing')

    # ------------------------------------------------------------ models
    def model(self, I, st, callee, args):
        for k in models.keys_of(callee):
            m = CMODELS.get(k)
            if m:
                I.models_used.add(callee.get('rpath') or callee['path'])
                return m(self, I, st, callee, args)
        return None

    # ------------------------------------------------------------ events
    def on_write(self, I, st, root, path, old, new):
        if root != SELF or self.mode != 'scan':
            return None
        if not path:
            raise Unsupported('the whole scanner is overwritten')
        i = path[0][1]
        if i == self.i_iter:
            if not (new[0] == 'giter' == old[0] and new[1] == old[1]):
                raise Unsupported('the character iterator is replaced')
            d = sub(new[2], old[2])
            if not isinstance(d, int):
                raise Unsupported('the cursor is moved by an unknown amount')
            if d:
                self.put(st, ('eat', d))
        elif i in (self.i_tok, self.i_err) and len(path) == 1:
            g = st.ext.ghost['TOK' if i == self.i_tok else 'ERR']
            if old == g:
                a, b = I.as_seq(old), I.as_seq(new) if new[0] == 'seq' or new[0] not in CONCRETE else None
                if b is not None and b[1] == a[1] and len(b[2]) > len(a[2]) and b[2][:len(a[2])] == a[2]:
                    self.put(st, ('tok' if i == self.i_tok else 'err', b[2][len(a[2]):], g))
        return None

    def put(self, st, ev):
        if st.event is not None:
            if st.event[0] == 'eat' == ev[0]:
                ev = ('eat', st.event[1] + ev[1])
            else:
                raise Unsupported('two effects in one step')
        st.event = ev

    def panic(self, I, st, kind, detail):
        fn, where = st.where()
        self.panics[(fn, where)] = (kind, self.context(st))

    def spin(self, I, st):
        fn, where = st.where()
        self.report(['T01'], 'spin %s' % fn, where, 'a loop in %s can repeat without consuming a character or adding a token: '
                    'the scanner does not terminate' % fn)

    def cursor(self, st):
        h = st.heap[SELF]
        return h[2][self.i_iter][2]

    def context(self, st):
        if SELF not in st.heap or st.ext is None:
            return 'in the constructor'
        C = self.cursor(st)
        out = []
        for k in (-2, -1, 0, 1):
            i = add(C, k)
            lo, hi = st.K.interval(i)
            if hi < 0:
                out.append('(start)')
                continue
            lo, hi = st.K.interval(sub(sub(N, 1), i))
            if hi < 0:
                out.append('(end)')
                break
            f = st.K.strs.get(('elem', G, i))
            out.append(repr(f[1]) if f and f[0] == 'eq' else '?')
        g = st.ext.spec.g
        flags = [k[2:] for k in sorted(g) if k.startswith('b_') and g[k] == 1]
        return 'characters around the cursor: %s %s [cursor] %s; state: %s' % (
            out[0], out[1], ' '.join(out[2:]), ', '.join(flags) or 'none')

    def report(self, props, key, where, msg):
        self.findings.append((tuple(props), key, where, msg))

    def erred(self, st):
        """Both sides have an error: the tokens are never returned."""
        K = st.K
        return K.interval(self.I.seqlen(st.ext.ghost['ERR']))[0] > 0 and K.interval(st.ext.spec.g['nerr'])[0] > 0

    def deviates(self, st, tags, what, extra=(), code=None, rule=None, err=False):
        """code, rule: the kinds of the tokens added and expected; err: errors or the result are concerned."""
        if not err and self.erred(st):
            self.tolerated(st, what)
            return
        kinds = {k for k in (code, rule) if k}
        props = set(extra)
        if kinds & {'Indent', 'Outdent'}:
            props |= {'L03'}
            if st.ext.spec.g['b_continued'] == 1:
                props.add('L04')
        elif 'Terminator' in kinds:
            props.add('L04')
        elif code and rule and kinds <= {'LeftParen', 'LeftParenAbutting'}:
            props.add('L10')
        elif 'Eof' in kinds:
            props.add('L02')
        if not props:
            props |= set(tags)
        fn, where = st.where()
        key = '%s: %s' % (st.ext.spec.where().split(':')[0], what.split(':')[0][:60])
        msg = '%s deviates from the lexical rules (%s): %s; %s' % (fn, st.ext.spec.where(), what, self.context(st))
        if self.balance:
            msg = '%s: %s' % (fn, what)
        self.deviations.append((props, key, where, msg, (where, what.split(':')[0]), self.seen(st), kinds))

    # What the text must contain for a deviation to appear: CRLF line ends, comments, blanks at the end of a line
    def seen(self, st):
        g = st.ext.ghost
        crlf, cmt = g.get('b_crlf', 0), g.get('b_cmt', 0)
        C = self.cursor(st)
        for k in (-3, -2, -1, 0):
            x = ceil_text(st.K, ('elem', G, add(C, k)))
            if x in ('\r\n', '\r'):
                crlf = 1
            if x in ('\n', '\r\n') and k > -3 and ceil_text(st.K, ('elem', G, add(C, k - 1))) == ' ':
                cmt = 1
            if x == '/' and k > -3 and ceil_text(st.K, ('elem', G, add(C, k - 1))) == '/':
                cmt = 1
        if st.K.interval(st.ext.spec.g['comment'])[0] > 0:
            cmt = 1
        return crlf, cmt

    def attribute(self):
        """A deviation that appears only with CRLF or a comment concerns those properties as well."""
        groups = {}
        for d in self.deviations:
            groups.setdefault(d[4], []).append(d[5])
        for props, key, where, msg, gk, _, kinds in self.deviations:
            ps = set(props)
            crlf, cmt = (all(x[i] for x in groups[gk]) for i in (0, 1))
            if ps - {'L05', 'L06'}:
                ps -= {'L05', 'L06'}
            if crlf:
                ps.add('L06')
            if cmt:
                ps.add('L05')
            self.report(sorted(ps), key, where, msg)

    @staticmethod
    def pending(s):
        """The kind of the token the rule has added and the code has not."""
        for e in s.ext.ghost['Q'][1]:
            if e[1][0][1][0] == 'tok':
                return e[1][1][2]
        return None

    # ------------------------------------------------------------ exploration
    def constructed(self):
        """The scanner Scanner::new builds for any source text."""
        f = self.fn['new']
        if f.argc != 1:
            raise Fail('Scanner::new takes %d arguments' % f.argc)
        st = State(Know(self.lemma))
        fr = Frame(f)
        fr.loc[1] = ('src',)
        st.frames = [fr]
        self.mode = 'new'
        evs = self.I.step_until(st)
        self.mode = 'scan'
        out = []
        for ev, s in evs:
            if ev[0] != 'ret' or not (isinstance(ev[1], tuple) and ev[1][0] == 'st'):
                raise Unsupported('Scanner::new')
            out.append((ev[1], s))
        return out

    def initial(self):
        out = []
        for v, s in self.constructed():
            st = State(s.K)
            st.K.lemma = self.lemma
            it = v[2][self.i_iter]
            if not (isinstance(it, tuple) and it[0] == 'giter' and it[2] == 0):
                raise Unsupported('the scanner does not start at the first character')
            st.heap[SELF] = v
            fr = Frame(self.fn['scan_tokens'])
            fr.loc[1] = ('ref', SELF, ())
            st.frames = [fr]
            spec = Spec()
            spec.frames = [SFrame(self.rules['scan'], {})]
            spec.g = {'C': 0, 'line': 1, 'col': 1, 'levels': ('seq', None, ()), 'spaces': 0, 'b_bol': 1, 'b_continued': 0,
                      'b_continues': 0, 'b_abut': 0, 'comment': 0, 'nerr': 0}
            st.ext = Ext(spec)
            st.ext.ghost = {'TOK': v[2][self.i_tok], 'ERR': v[2][self.i_err], 'Q': ('tup', ())}
            if self.sticky:
                st.ext.ghost.update(b_crlf=0, b_cmt=0)
            if self.balance:
                st.ext.ghost.update(BAL=0, b_eof=0)
            st.ext.moved = True
            if v[2][self.i_tok] != ('seq', None, ()) or v[2][self.i_err] != ('seq', None, ()):
                self.report(['L02', 'L09'], 'new', self.fn['new'].span, 'Scanner::new starts with tokens or errors')
            out.append(st)
        return out

    def invariants(self, st, mem):
        C = self.cursor(st)
        st.K.assume_ge(sub(N, C))
        c = mem[('SG', 'C')]
        d = sub(c, C)
        if isinstance(d, int) and d > 0:
            pass

    def normal(self, st, mem):
        C = self.cursor(st)
        lo, hi = st.K.interval(sub(N, C))
        fv = set()
        subterms(C, fv)
        if lo != hi or N in fv:
            return mem
        end = add(C, int(lo))
        cache = {}

        def go(v):
            if not isinstance(v, tuple):
                return v
            r = cache.get(v)
            if r is None:
                if v and v[0] in ('pos', 'slice') or v and v[0] == 'elem' and v[1] == G:
                    r = v[:1] + tuple(subst(x, {N: end}) if x != G else x for x in v[1:])
                else:
                    r = tuple(go(x) for x in v)
                    if r == v:
                        r = v
                cache[v] = r
            return r
        mem = {s: go(v) for s, v in mem.items()}
        product.set_memory(st, mem)
        return mem

    def forms(self, mem):
        out = [sub(N, mem[SELF][2][self.i_iter][2]), sub(N, mem[('SG', 'C')])]
        if self.balance:
            out.append(sub(mem[('G', 'BAL')], self.I.seqlen(mem[SELF][2][self.i_lev])))
        code = [self.I.seqlen(mem[SELF][2][self.i_lev])]
        rule = [mem[('G', 'BAL')]] if self.balance else []
        for s, v in mem.items():
            if s[0] == 'S' and (product.Joiner.isnum(v) or isinstance(v, tuple) and v[:2] == ('v', 'j')):
                rule.append(v)
            elif s[0] == 'L':
                if v[:1] == ('range',) if isinstance(v, tuple) else 0:
                    code.append(sub(v[2], v[1]))
                elif isinstance(v, tuple) and v[0] == 'st' and v[1].endswith('ops::Range'):
                    code.append(sub(v[2][1], v[2][0]))
        C = mem[SELF][2][self.i_iter][2]
        code.append(C)
        pos = set()
        subterms(tuple(mem.values()), pos)
        out += [sub(C, t[1]) for t in sorted(pos, key=skey) if t and t[0] == 'pos']
        for x in code:
            for y in rule:
                if x != C or not (isinstance(y, tuple) and y[0] == 'sat'):
                    out.append(sub(x, y))
        return out

    def exact(self, st, mem):
        h = st.heap[SELF]
        end = st.K.interval(sub(N, self.cursor(st)))[1] == 0
        return tuple(h[2][i] if isinstance(h[2][i], int) else '?' for i in self.bools) + (
            # what is added after an error at the end of the text is never returned
            end and st.K.interval(st.ext.spec.g['nerr'])[0] > 0,)

    def watch(self, mem, live):
        live.add(G)
        live.add(N)
        h = mem[SELF]
        C = h[2][self.i_iter][2]
        for lev in (h[2][self.i_lev], mem[('SG', 'levels')]):
            s = self.I.as_seq(lev)
            if not s[2] and s[1] is not None:
                subterms(self.I.getelem(State(Know()), s, sub(seq_len(s), 1)), live)
        at = [(c, k) for c in (C, mem[('SG', 'C')]) for k in (0, 1)]
        at += [(v, 0) for s, v in mem.items() if s[0] == 'S' and s[2] == 'g']    # the character a rule has looked at
        at += [(t[2], 0) for t in live if isinstance(t, tuple) and t[:2] == ('elem', G)]
        for c, k in at:
            subterms(c, live)
            if True:
                e = ('elem', G, add(c, k))
                subterms(e, live)
                live.add(('chr', e))
                for n in CLASSES:
                    live.add(('bsym', n, ('chr', e)))

    @staticmethod
    def join_extra(J, a, b):
        h = a[0]
        if h != b[0]:
            return None
        if h == 'pos':
            return ('pos', J.j(a[1], b[1]))
        if h == 'giter' and a[1] == b[1]:
            return ('giter', a[1], J.j(a[2], b[2]))
        if h == 'seq' and a[2] and b[2]:
            n = min(len(a[2]), len(b[2]))
            base = J.j(*(('seq', x[1], x[2][:-n]) for x in (a, b)))
            es = tuple(J.j(x, y) for x, y in zip(a[2][-n:], b[2][-n:]))
            if base[0] == 'seq':
                return ('seq', base[1], base[2] + es)
            return ('seq', base, es)
        if h in ('slice', 'num', 'chr', 'init'):
            return (h,) + tuple(J.j(x, y) for x, y in zip(a[1:], b[1:]))
        return None

    def share(self, st, mem):
        return False

    def advance(self, st):
        out = []
        work = [st]
        while work:
            for ev, s in self.I.step_until(work.pop()):
                if ev[0] == 'cut':
                    if self.balance:
                        out.append(s)
                    else:
                        self.catch_up(s, out)
                elif ev[0] == 'call':
                    self.number(ev, s, work)
                else:
                    self.handle(ev, s, work)
        return out

    def cuts(self, fn):
        """Blocks in which loops start."""
        if self.mode != 'scan':
            return ()
        r = fn.d.get('_cuts')
        if r is None:
            r = fn.d['_cuts'] = loop_heads(fn)
        return r

    def catch_up(self, s, out):
        """Let the rule run to its next loop head, so that both are at corresponding points when states are merged."""
        if self.sticky:
            g = s.ext.ghost
            g['b_crlf'], g['b_cmt'] = self.seen(s)
        work = [s]
        while work:
            s = work.pop()
            for ev, S, K in self.SI.run(s.ext.spec.copy(), s.K.copy(), True):
                s2 = s.copy()
                s2.K = K
                if ev[0] == 'head':
                    s2.ext.spec = S
                    out.append(s2)
                    continue
                n = sum(1 for e in s2.ext.ghost['Q'][1] if e[1][0][1][0] == ev[0])
                if ev[0] == 'ret' or n >= AHEAD[ev[0]]:
                    out.append(s2)
                    continue
                s2.ext.spec = S
                s2.ext.ghost['Q'] = ('tup', s2.ext.ghost['Q'][1] + (self.queued(ev, S),))
                work.append(s2)

    # rule events of one class, in order; the others wait in the queue
    def rule(self, s, cls):
        """[(event or None, tags, state)]"""
        q = s.ext.ghost['Q'][1]
        for i, e in enumerate(q):
            if e[1][0][1][0] == cls:
                s.ext.ghost['Q'] = ('tup', q[:i] + q[i + 1:])
                s.ext.eat = 1 if self.stale(s, e, 1) else 0
                return [((cls,) + e[1][1:-1], e[1][0][1][1], s)]
        s.ext.eat = 0
        out = []
        work = [s]
        while work:
            s = work.pop()
            if cls == 'ret' and s.ext.ghost['Q'][1]:
                out.append((None, s.ext.ghost['Q'][1][0][1][0][1][1], s))
                continue
            for ev, S, K in self.SI.run(s.ext.spec.copy(), s.K.copy()):
                s2 = s.copy()
                s2.K = K
                s2.ext.spec = S
                if ev[0] == cls:
                    out.append((ev, S.tags, s2))
                    continue
                n = sum(1 for e in s2.ext.ghost['Q'][1] if e[1][0][1][0] == ev[0])
                if ev[0] == 'ret' or n >= AHEAD[ev[0]]:
                    out.append((None, S.tags, s2))
                    continue
                s2.ext.ghost['Q'] = ('tup', s2.ext.ghost['Q'][1] + (self.queued(ev, S),))
                work.append(s2)
        return out

    @staticmethod
    def queued(ev, S):
        return ('tup', (('fndef', (ev[0], tuple(sorted(S.tags)))),) + tuple(ANY if x is None else x for x in ev[1:]) + (S.g['C'],))

    def stale(self, s, e, n=1):
        """Has the code gone on since the rule did this?"""
        return s.K.interval(sub(self.cursor(s), e[1][-1]))[0] >= n

    # Blocks: every Indent is closed by one Outdent and exactly one Eof comes last
    def blocks(self, ev, s, out):
        s.ext.moved = True
        if ev[0] in ('eat', 'err'):
            if ev[0] == 'err':
                self.replace(s, 'err')
            out.append(s)
            return
        gh = s.ext.ghost
        if ev[0] == 'ret':
            if ev[1][2] != 'Ok':
                return
            a, b = self.I.as_seq(gh['TOK']), self.I.as_seq(ev[1][3][0])
            if a[1] != b[1] or b[2][:len(a[2])] != a[2]:
                return self.deviates(s, (), 'the tokens returned are not those collected', ['L02'], err=True)
            items = b[2][len(a[2]):]
        else:
            items = ev[1]
        for x in items:
            k = self.kname(self.field(s, x, 'token_type'))
            if k == '?':
                raise Unsupported('a token of unknown kind')
            if gh['b_eof']:
                return self.deviates(s, (), 'a token after Eof', ['L02'], err=True)
            if k == 'Eof':
                gh['b_eof'] = 1
            elif k == 'Indent':
                gh['BAL'] = add(gh['BAL'], 1)
            elif k == 'Outdent':
                gh['BAL'] = sub(gh['BAL'], 1)
                if s.K.interval(gh['BAL'])[0] < 0:
                    return self.deviates(s, (), 'an Outdent without its Indent', ['L02'], err=True)
        if ev[0] != 'ret':
            self.replace(s, 'tok')
            out.append(s)
        elif not gh['b_eof']:
            self.deviates(s, (), 'no Eof at the end', ['L02'], err=True)
        elif s.K.interval(gh['BAL']) != (0, 0):
            self.deviates(s, (), 'blocks are left open at the end', ['L02'], err=True)

    def replace(self, s, cls):
        i = self.i_tok if cls == 'tok' else self.i_err
        v = s.fresh('T' if cls == 'tok' else 'X')
        s.K.assume_ge(sub(('len', v), 1))
        s.ext.ghost['TOK' if cls == 'tok' else 'ERR'] = v
        h = s.heap[SELF]
        s.heap[SELF] = ('st', h[1], h[2][:i] + (v,) + h[2][i + 1:])
        return v

    def handle(self, ev, s, out):
        if self.balance and ev[0] in ('eat', 'tok', 'err', 'ret'):
            return self.blocks(ev, s, out)
        if ev[0] == 'eat':
            if ev[1] < 0:
                raise Unsupported('the cursor moves backwards')
            s.ext.moved = True
            for e in s.ext.ghost['Q'][1]:
                if e[1][0][1][0] == 'err' and self.stale(s, e):
                    self.deviates(s, (), 'no error is reported where the rule reports one', {'L09'} | set(e[1][0][1][1]), err=True)
                    return
            work = [(s, ev[1])]
            while work:
                s, n = work.pop()
                if n == 0:
                    out.append(s)
                    continue
                for e, tags, s2 in self.rule(s, 'eat'):
                    if e is None:
                        self.deviates(s2, tags, 'a character is consumed where the rule goes on otherwise',
                                      rule=self.pending(s2), err=self.errs(s2))
                    else:
                        work.append((s2, n - 1))
        elif ev[0] in ('tok', 'err'):
            s.ext.moved = True
            self.added(ev[0], ev[1], s, out, None)
        elif ev[0] == 'ret':
            self.returned(ev[1], s)
        else:
            raise Unsupported('event %s' % (ev[0],))

    def added(self, cls, items, s, out, cont):
        work = [(s, tuple(items))]
        while work:
            s, xs = work.pop()
            if not xs:
                if cont is not None:
                    cont(s)
                    continue
                n = self.I.seqlen(s.ext.ghost['ERR'])
                v = self.replace(s, cls)
                if cls == 'err':
                    g = s.ext.spec.g
                    g['nerr'] = add(('len', v), sub(g['nerr'], add(n, len(items))))
                s.ext.eat = 0
                out.append(s)
                continue
            for e, tags, s2 in self.rule(s, cls):
                if e is None:
                    if cls == 'tok':
                        k = self.field(s2, xs[0], 'token_type')
                        self.deviates(s2, tags, 'the token %s is added where the rule adds none' % show(k), code=self.kname(k))
                    else:
                        self.deviates(s2, tags, 'an error is reported where the rule reports none', ['L09'], err=True)
                elif self.same(cls, xs[0], e, tags, s2):
                    self.matched[cls].add((s2.where()[1], s2.ext.spec.where()))
                    work.append((s2, xs[1:]))

    @staticmethod
    def errs(s):
        return any(e[1][0][1][0] == 'err' for e in s.ext.ghost['Q'][1])

    @staticmethod
    def kname(k):
        return k[2] if isinstance(k, tuple) and k[0] == 'en' else '?'

    def tolerated(self, st, what):
        """Tokens added after an error are never returned: another sequence of them changes nothing."""
        self.undecided['tokens after an error'] = what

    def field(self, s, t, name):
        return self.I.getfield(s, t, self.tf[name], TOK, None)

    def same(self, cls, x, e, tags, s):
        if cls == 'err':
            loc = self.I.getfield(s, x, self.cf['source_loc'], CAUSE, None)
            for n, want in (('line', e[1]), ('column', e[2])):
                r = self.eqv.eq(s, self.I.getfield(s, loc, self.lf[n], self.locpath, None), want)
                if r:
                    if s.ext.eat:
                        self.deviates(s, (), 'no error is reported where the rule reports one', {'L09'} | set(tags), err=True)
                    else:
                        self.deviates(s, tags, 'error position: %s %s' % (n, r), ['L07'], err=True)
                    return False
            return True
        _, kind, line, col, text, string, number = e
        r = self.eqv.eq(s, self.field(s, x, 'token_type'), kind)
        if r:
            self.deviates(s, tags, 'token kind: %s' % r, code=self.kname(self.field(s, x, 'token_type')), rule=kind[2])
            return False
        if self.erred(s):
            return True
        for n, want in (('line', line), ('column', col)):
            r = self.eqv.eq(s, self.field(s, x, n), want)
            if r:
                self.deviates(s, tags, 'position of %s: %s %s' % (show(kind), n, r), ['L07'])
                return False
        r = self.eqv.eq(s, self.field(s, x, 'lexeme'), text)
        if r:
            self.deviates(s, tags, 'text of %s: %s' % (show(kind), r), ['L08'])
            return False
        for n, want, k in (('string_literal', string, 'String'), ('float_literal', number, 'Number')):
            if kind[2] == k:
                r = self.eqv.eq(s, self.field(s, x, n), some(want))
                if r:
                    self.deviates(s, tags, 'value of %s: %s' % (show(kind), r), ['L08'])
                    return False
        return True

    def number(self, ev, s, out):
        """Parsing a text as a number succeeds for exactly the text the rule calls a number."""
        x = deref_str(self.I, s, ev[2][0])
        dst, tgt = s.pending
        if not self.balance and not self.is_number(s, x):
            q = s.copy()
            self.I.finish(q, dst, tgt, models.mk_enum(models.RES, 'Err', (q.fresh('error'),)))
            out.append(q)
        self.I.finish(s, dst, tgt, models.mk_enum(models.RES, 'Ok', (('num', x),)))
        out.append(s)

    def is_number(self, s, x):
        """Is x the text of the number the rule is about to add?"""
        work = [(s.copy(), 3)]
        while work:
            s, n = work.pop()
            for e, tags, s2 in self.rule(s, 'tok'):
                if e is None or n == 0:
                    return False
                if e[6] in (None, ANY):
                    work.append((s2.copy(), n - 1))
                elif self.eqv.eq(s2, x, e[6][1]):
                    return False
        self.matched['num'].add(show(x))
        return True

    def returned(self, v, s):
        if not (isinstance(v, tuple) and v[0] == 'en'):
            raise Unsupported('scan_tokens returns %s' % show(v))
        okay = v[2] == 'Ok'
        x = v[3][0]
        if not okay:
            x = self.I.getfield(s, x, 0, 'error::ParseError', None)
        g = s.ext.ghost['TOK' if okay else 'ERR']
        a, b = self.I.as_seq(g), self.I.as_seq(x)
        if a[1] == b[1] and b[2][:len(a[2])] == a[2]:
            more = b[2][len(a[2]):]
        else:
            self.deviates(s, s.ext.spec.tags, 'the %s returned are not those collected' % ('tokens' if okay else 'errors'),
                          ['L02', 'L09'], err=True)
            return
        if okay and s.K.interval(s.ext.spec.g['nerr'])[0] > 0:
            self.deviates(s, s.ext.spec.tags, 'tokens are returned although an error was reported', ['L09'], err=True)
            return

        def fin(s2):
            for e, tags, s3 in self.rule(s2, 'ret'):
                if e is None:
                    self.deviates(s3, tags, 'scanning ends where the rule goes on', ['L09'] if self.errs(s3) else (),
                                  rule=self.pending(s3), err=self.errs(s3))
                    continue
                want = e[1][1] == ('s', 'tokens')
                if want != okay:
                    self.deviates(s3, tags, 'scanning %s where the rule %s' % (
                        'succeeds' if okay else 'fails', 'succeeds' if want else 'fails'), ['L09'], err=True)
                else:
                    self.matched['ret'].add((s3.where()[1], okay))
        self.added('tok' if okay else 'err', more, s, [], fin)

    def explore(self):
        ex = Explorer(self, 4500 if self.sticky else 2500, 45000)
        ex.explore(self.initial())
        for n in ex.still_cycles():
            f = self.fn['scan_tokens']
            self.report(['T01'], 'loop in the scanner', f.span, 'the scanner has a loop that can repeat without consuming a '
                        'character or adding a token')
            break
        self.stats = {'states': ex.nodes, 'transitions': ex.transitions, 'merges': ex.joins}

    def anchor(self, I, st, callee, args):
        if self.mode == 'scan' and callee['path'].startswith('core::str') and callee['path'].endswith('::parse'):
            return 'parse'
        return None


class ScanEquality(Equality):
    def eq(self, st, a, b, depth=0):
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and a[0] in ('slice', 'num', 'pos') \
                and a != b:
            return self.fields(st, a[1:], b[1:], depth, a[0])
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == 'elem' and a[1] == b[1] == G:
            lo, hi = st.K.interval(sub(a[2], b[2]))
            if lo == hi == 0:
                return None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == 'slice' and y[0] == 'elem' and y[1] == G:
                return self.fields(st, x[1:], bounds_of(y), depth, 'slice')
        return Equality.eq(self, st, a, b, depth)


CMODELS = {}


def cmodel(*names):
    def d(f):
        for n in names:
            CMODELS[n] = f
        return f
    return d


@cmodel('str as unicode_segmentation::UnicodeSegmentation::grapheme_indices',
        'unicode_segmentation::UnicodeSegmentation::grapheme_indices')
def g_indices(D, I, st, c, a):
    if deref_str(I, st, a[0]) != ('src',):
        return None
    if a[1] != 1:
        return [(st, ('giter', ('v', 'legacy characters', 0), 0))]
    return [(st, ('giter', G, 0))]


def is_giter(v):
    return isinstance(v, tuple) and v and v[0] == 'giter'


@cmodel('std::iter::Iterator::peekable', '* as std::iter::Iterator::peekable')
def g_peekable(D, I, st, c, a):
    return [(st, a[0])] if is_giter(a[0]) else None


def g_item(it, i):
    return ('tup', (('pos', i), ('elem', it[1], i)))


def g_get(D, I, st, r, k, peek, consume):
    it = deref(I, st, r)
    if not is_giter(it):
        return None
    i = add(it[2], k)
    out = []
    for q, v in branch(I, st, I.cmp_ints(st, 'Gt', ('len', it[1]), i)):
        if v:
            x = g_item(it, i)
            if consume:
                I.write(q, r[1], r[2], ('giter', it[1], add(i, 1)))
            out.append((q, some(('vref', x) if peek else x)))
        else:
            if consume and k:
                I.write(q, r[1], r[2], ('giter', it[1], ('len', it[1])))
            out.append((q, NONE))
    return out


@cmodel('std::iter::Peekable::peek', 'std::iter::Peekable::peek_mut')
def g_peek(D, I, st, c, a):
    return g_get(D, I, st, a[0], 0, True, False)


@cmodel('std::iter::Peekable as std::iter::Iterator::next', 'unicode_segmentation::GraphemeIndices as std::iter::Iterator::next')
def g_next(D, I, st, c, a):
    return g_get(D, I, st, a[0], 0, False, True)


@cmodel('std::iter::Peekable as std::iter::Iterator::nth')
def g_nth(D, I, st, c, a):
    if not isinstance(a[1], int):
        return None
    return g_get(D, I, st, a[0], a[1], False, True)


@cmodel('str as std::ops::Index::index', 'core::str::traits as std::ops::Index::index')
def s_index(D, I, st, c, a):
    return s_slice(D, I, st, c, a, True)


@cmodel('core::str::get', 'str::get')
def s_getr(D, I, st, c, a):
    r = s_slice(D, I, st, c, a, False)
    return r if r is None else [(s, some(v)) for s, v in r]


def s_slice(D, I, st, c, a, must):
    v = deref_str(I, st, a[0])
    rg = a[1]
    b = bounds_of(v)
    if b is None or not (isinstance(rg, tuple) and rg[0] == 'st'):
        return None
    n = rg[1].split('::')[-1]
    i, j = b
    base = ('pos', i) if i != 0 else 0
    if n == 'Range':
        lo, hi = rg[2][0], rg[2][1]
    elif n == 'RangeFrom':
        lo, hi = rg[2][0], None
    elif n == 'RangeTo':
        lo, hi = 0, rg[2][0]
    elif n == 'RangeFull':
        lo, hi = 0, None
    else:
        return None
    x = norm_pos(st.K, add(base, lo))
    y = j if hi is None else norm_pos(st.K, add(base, hi))
    if x is None or y is None:
        return [(st, ('bytes', v, lo, -1 if hi is None else hi))]
    if st.K.interval(sub(y, x))[0] < 0:
        if must:
            I.H.panic(I, st, 'slice out of order', c['path'])
        if not st.K.assume_ge(sub(y, x)):
            return []
    return [(st, mk_slice(st.K, x, y))]


@cmodel('core::str::len', 'str::len')
def s_len(D, I, st, c, a):
    v = deref_str(I, st, a[0])
    if v == ('src',):
        return [(st, ('pos', N))]
    if v[0] == 'elem' and v[1] == G:
        t = ceil_text(st.K, v)
        return [(st, len(t.encode()) if t is not None else ('strlen', v))]
    if v[0] == 'slice':
        return [(st, sub(('pos', v[2]), ('pos', v[1]) if v[1] != 0 else 0))]
    return None


@cmodel('core::str::is_empty', 'str::is_empty')
def s_empty(D, I, st, c, a):
    v = deref_str(I, st, a[0])
    b = bounds_of(v)
    if b is None:
        return None
    return [(st, I.cmp_ints(st, 'Eq', b[0], b[1]))]


def s_trim(D, I, st, c, a):
    v = deref_str(I, st, a[0])
    n = c['path'].split('::')[-1]
    x = a[1] if len(a) > 1 else None
    if isinstance(x, tuple) and x[0] in ('ref', 'vref'):
        x = deref_str(I, st, x)
    if isinstance(x, int):
        x = ('s', chr(x))
    if v == ('s', ''):
        return [(st, v)]
    b = bounds_of(v)
    if b is None:
        return None
    if not (isinstance(x, tuple) and x[0] == 's' and len(x[1]) == 1):
        return [(st, ('trimmed', v, n))]
    work, out = [(st, b[0], b[1], 0, 'end' not in n, 'start' not in n)], []
    while work:
        q, i, j, cut, left, right = work.pop()
        if not (left or right):
            out.append((q, mk_slice(q.K, i, j)))
            continue
        e = ('elem', G, i if left else sub(j, 1))
        for q1, more in branch(I, q, I.cmp_ints(q, 'Gt', j, i)):
            if not more:
                out.append((q1, ('s', '')))
                continue
            for q2, t in branch(I, q1, ('streq', e, x) if q1.K.ev_streq(e, x) is None else q1.K.ev_streq(e, x)):
                if not t:
                    work.append((q2, i, j, 0, False, right and left))
                elif cut >= 2:
                    out.append((q2, ('trimmed', v, n)))
                elif left:
                    work.append((q2, add(i, 1), j, cut + 1, left, right))
                else:
                    work.append((q2, i, sub(j, 1), cut + 1, left, right))
    return out


for _n in ('trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches'):
    CMODELS['core::str::' + _n] = CMODELS['str::' + _n] = s_trim


@cmodel('core::str::chars', 'str::chars')
def s_chars(D, I, st, c, a):
    return [(st, ('chars', deref_str(I, st, a[0]), 0))]


@cmodel('std::str::Chars as std::iter::Iterator::next')
def s_chars_next(D, I, st, c, a):
    v = deref(I, st, a[0])
    if not (isinstance(v, tuple) and v[0] == 'chars'):
        return None
    b = bounds_of(v[1])
    if b is None:
        return None
    if v[2]:
        e = v[1]
        if e[0] != 'elem':
            return None
        x = ceil_text(st.K, e)
        if x:
            if v[2] < len(x):
                I.write(st, a[0][1], a[0][2], ('chars', e, v[2] + 1))
                return [(st, some(ord(x[v[2]])))]
            return [(st, NONE)]
        if v[2] > 1:
            return None
        out = []
        for q, t in branch(I, st, ('onechar', e)):
            if not t:
                I.write(q, a[0][1], a[0][2], ('chars', e, 2))
            out.append((q, NONE if t else some(('second', e))))
        return out
    out = []
    for q, t in branch(I, st, I.cmp_ints(st, 'Gt', b[1], b[0])):
        if t:
            e = ('elem', G, b[0])
            x = ceil_text(q.K, e)
            I.write(q, a[0][1], a[0][2], ('chars', v[1], 1))
            out.append((q, some(ord(x[0]) if x else ('chr', e))))
        else:
            out.append((q, NONE))
    return out


def in_range(I, st, c, *rs):
    r = 0
    for lo, hi in rs:
        a = I.cmp_ints(st, 'Ge', c, lo)
        b = I.cmp_ints(st, 'Le', c, hi)
        bt = I.bool_tid()
        r = I.binop(st, 'BitOr', r, I.binop(st, 'BitAnd', a, b, bt), bt)
    return r


UP, LOW, DIG = (65, 90), (97, 122), (48, 57)


def char_pred(name, f, ranges=None):
    def g(D, I, st, c, a):
        x = a[0]
        while isinstance(x, tuple) and x[0] in ('ref', 'vref'):
            x = deref(I, st, x)
        if ranges is not None:
            return [(st, in_range(I, st, x, *ranges))]
        return [(st, f(x))]
    for p in ('std::char::methods', 'core::char::methods'):
        CMODELS['%s::%s' % (p, name)] = g
    CMODELS['char::' + name] = g


def b_alpha(x):
    if isinstance(x, int) and x < 128:
        return int(letters(x))
    return ('bsym', 'alphabetic', x)


def b_num(x):
    if isinstance(x, int) and x < 128:
        return int(digits(x))
    return ('bsym', 'numeric', x)


def b_alnum(x):
    if isinstance(x, int) and x < 128:
        return int(letters(x) or digits(x))
    return ('or', b_alpha(x), b_num(x))


char_pred('is_alphabetic', b_alpha)
char_pred('is_numeric', b_num)
char_pred('is_alphanumeric', b_alnum)
char_pred('is_ascii_digit', None, (DIG,))
char_pred('is_ascii_alphabetic', None, (UP, LOW))
char_pred('is_ascii_alphanumeric', None, (UP, LOW, DIG))
char_pred('is_ascii_uppercase', None, (UP,))
char_pred('is_ascii_lowercase', None, (LOW,))
char_pred('is_ascii', None, ((0, 127),))


_cache = {}


def analyse(ctx):
    if 'r' not in _cache:
        P = ctx.program('lib')
        for sticky in (False, True):
            # a second pass, in which the states remember more, tells what a deviation depends on
            D = ScanDomain(P, sticky)
            try:
                D.explore()
            except Unsupported as e:
                D.undecided['scanner'] = str(e)
            if not D.deviations:
                break
        D.attribute()
        if any(d[6] & {'Indent', 'Outdent', 'Eof'} for d in D.deviations):
            B = ScanDomain(P, balance=True)
            try:
                B.explore()
            except Unsupported as e:
                D.undecided['blocks'] = str(e)
            for d in B.deviations:
                D.report(['L02'], d[1], d[2], d[3])
        _cache['r'] = D
    return _cache['r']


def run(ctx, pids):
    res = Result()
    D = analyse(ctx)
    for props, key, where, msg in D.findings:
        res.add(props, key, where, msg)
    for (fn, where), (kind, c) in sorted(D.panics.items()):
        res.add(['T02'], 'panic in %s' % fn, where, '%s can panic (%s); %s' % (fn, kind, c))
    for pid in pids:
        res.coverage[pid] = {
            'rule': 'Scanner::scan_tokens is explored for all source texts in lockstep with the lexical rules in '
                    'analysis/spec_scanner.py; characters consumed, tokens (kind, line, column, text, value), errors and the '
                    'result must agree at every step',
            'product_states': D.stats.get('states', 0), 'transitions': D.stats.get('transitions', 0),
            'token_sites_matched': len(D.matched['tok']), 'error_sites_matched': len(D.matched['err']),
            'returns_matched': len(D.matched['ret']),
            'scanner_functions_entered': sorted(f for f in D.I.fns_entered if not f.startswith('core:'))}
        for n, w in D.undecided.items():
            res.undecided.append((pid, n, w))
    return res


if __name__ == '__main__':
    import sys
    import time
    from common import Ctx
    sys.setrecursionlimit(20000)
    t0 = time.time()
    os.environ.setdefault('VERIF_DUMP', '/tmp/w/out')
    D = analyse(Ctx('/verif', '/repo', 'quick'))
    print(D.undecided)
    print(D.stats, {k: len(v) for k, v in D.matched.items()})
    seen = {}
    for f in D.findings:
        seen.setdefault((f[1], f[2]), []).append(f)
    for k, fs in list(seen.items())[:20]:
        print(len(fs), fs[0][0], k[1], fs[0][3])
    for k, v in D.panics.items():
        print('PANIC', k, v)
    print('%.1fs' % (time.time() - t0))
