"""The command line program and the text of errors.

Every path of the program's MIR is followed for an arbitrary file, arbitrary lines on standard input and arbitrary outcomes of
parsing and resolving.  What a path prints is reduced to a stream of literal text and printed values, and a monitor compares the
stream, the exit status and the use of the resolver with what the outcome calls for.  Loops are covered for any number of rounds
(states at loop heads are merged by anti-unification).
"""
from terms import *
from absint import Interp, State, Frame, Hooks, Unsupported, ok, err, NONE, OPT
from common import Result, Fail
from lockstep import show
from program import UNIT
import models
import hashmaps  # noqa: F401
from product import Explorer, Ext
from c_resolver import loop_heads

ROOT_F = ('H', 'self', 'formatter')
ROOT_S = ('H', 'self', 'subject')
CAUSE, PERR = 'error::ParseErrorCause', 'error::ParseError'
RESOLVER = 'resolver::Resolver'
CODE = 'ast::ResolvedCode'


def split_template(tpl, args):
    """The pieces of formatted text: ('lit', text) and ('arg', value, kind, type, cut)."""
    out = []
    i = n = 0
    if not isinstance(tpl, tuple) or tpl[0] != 'seq' or tpl[1] is not None:
        raise Unsupported('a format template that is not constant')
    if not isinstance(args, tuple) or args[0] != 'seq' or args[1] is not None:
        raise Unsupported('format arguments that are not listed')
    b, args = bytes(tpl[2]), args[2]
    while True:
        c = b[i]
        i += 1
        if c == 0:
            return out
        if c < 0x80 or c == 0x80:
            if c == 0x80:
                c = b[i] | b[i + 1] << 8
                i += 2
            out.append(('lit', b[i:i + c].decode('utf-8')))
            i += c
            continue
        if c < 0xc0:
            raise Unsupported('format template')
        flags = 0
        cut = False
        if c & 1:
            flags = int.from_bytes(b[i:i + 4], 'little')
            i += 4
        if c & 2:
            i += 2
        if c & 4:
            cut = True
            i += 2
        if c & 8:
            n = b[i] | b[i + 1] << 8
            i += 2
        a = args[n]
        n += 1
        if not isinstance(a, tuple) or a[0] != 'fmtarg':
            raise Unsupported('format argument')
        out.append(('arg', a[2], a[1], a[3], cut, bool(flags & 1 << 23)))


def text_pieces(v):
    """The pieces of a text."""
    if v[0] == 's':
        return [('lit', v[1])] if v[1] else []
    if v[0] == 'scat':
        return text_pieces(v[1]) + text_pieces(v[2])
    if v[0] == 'format':
        return arg_pieces(v[1])
    if v[0] == 'tostring':
        return [('arg', v[1], 'display', v[2], False, False)]
    return [('arg', v, 'display', 'str', False, False)]


def arg_pieces(v):
    """The pieces of `fmt::Arguments`."""
    if v[0] == 'fmt':
        return text_pieces(v[2])
    if v[0] != 'fmtargs':
        raise Unsupported('format arguments')
    out = []
    for p in split_template(v[1], v[2]):
        if p[0] == 'arg' and p[2] == 'display' and not p[4] and isinstance(p[1], tuple) and p[1] and \
                p[1][0] in ('s', 'scat', 'format', 'tostring', 'fmtargs', 'fmt'):
            out += arg_pieces(p[1]) if p[1][0] in ('fmt', 'fmtargs') else text_pieces(p[1])
        else:
            out.append(p)
    return out


ALTER = {'lines', 'trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_end_matches', 'trim_start_matches', 'split', 'splitn', 'rsplit',
         'split_whitespace', 'chars', 'char_indices', 'to_uppercase', 'to_lowercase', 'to_ascii_uppercase', 'to_ascii_lowercase', 'replace',
         'escape_debug', 'escape_default', 'repeat', 'split_once', 'rsplit_once', 'strip_prefix', 'strip_suffix', 'get', 'graphemes',
         'bytes', 'replacen', 'split_terminator', 'split_at', 'split_inclusive'}
STEPS = {'next', 'last', 'nth', 'collect', 'rev', 'take', 'skip', 'filter', 'next_back', 'min', 'max', 'step_by', 'skip_while', 'take_while'}


def alter(I, st, callee, args):
    """A text that is changed in some way: only that it is not the text itself is kept."""
    p = models.strip_generics(callee['path'])
    w = p.split('::')[-1]
    x = models.deref_str(I, st, args[0]) if args else None
    if not isinstance(x, tuple):
        return None
    if w in ALTER and ('str' in p.split('::') or 'unicode_segmentation' in p) and x[0] in ('v', 'fld', 'elem', 'alt'):
        r = ('alt', w, x)
    elif x[0] == 'alt' and (w in STEPS or w in ('to_string', 'to_owned', 'into', 'into_iter', 'as_str', 'deref', 'clone', 'from')):
        r = ('alt', w, x)
    else:
        return None
    if w in ('next', 'last', 'nth', 'next_back', 'strip_prefix', 'strip_suffix', 'get', 'min', 'max', 'split_once', 'rsplit_once'):
        s2 = st.copy()
        return [(st, models.some(r)), (s2, NONE)]
    return [(st, r)]


class Monitor(Hooks):
    """What is common: causes printed as lines or entries."""
    fixed_roots = (ROOT_F, ROOT_S)
    ordered = False
    join_extra = None
    one_line = True

    def __init__(self, P, prefix, res, lib=None):
        self.P = P
        self.lib = lib or P
        self.prefix = prefix
        self.res = res
        self.findings = []
        self.seen = set()
        self.writes = 0
        self.rets = 0
        self.I = Interp(P, self)
        self.types = {}
        for t in self.lib.types:
            if t.get('k') == 'adt' and t.get('path'):
                self.types.setdefault(t['path'], t)
        self.cause = prefix + CAUSE
        self.perr = prefix + PERR
        cf = self.names(CAUSE)
        lf = self.names('source_loc::SourceLoc')
        self.loc_i, self.tok_i, self.msg_i = (cf.index(x) for x in ('source_loc', 'token', 'message'))
        self.line_i, self.col_i = lf.index('line'), lf.index('column')
        self.causes_i = self.names(PERR).index('causes')

    def names(self, path):
        t = self.types.get(path)
        if t is None:
            raise Fail('the type %s is not used' % path)
        return [f[0] for f in t['variants'][0]['fields']]

    def fld(self, st, v, path, i):
        return self.I.getfield(st, v, i, path, None)

    # ---- exploration
    def share(self, st, mem):
        return False

    def watch(self, mem, live):
        pass

    def exact(self, st, mem):
        g = st.ext.ghost
        return tuple((k, g[k]) for k in sorted(g) if not k.startswith('n_') and not k.startswith('v_'))

    def enough(self):
        return False

    def cuts(self, fn):
        r = fn.d.get('_cuts')
        if r is None:
            r = fn.d['_cuts'] = loop_heads(fn)
        return r

    def advance(self, st):
        out = []
        for ev, s in self.I.step_until(st):
            if ev[0] == 'cut':
                out.append(s)
            elif ev[0] == 'ret':
                self.rets += 1
                self.ret(s, ev[1])
            elif ev[0] == 'over':
                pass
            else:
                raise Unsupported('unexpected event %s' % ev[0])
        return out

    def bad(self, st, props, key, msg):
        fn, where = st.where()
        k = (tuple(props), key, where)
        if k not in self.seen:
            self.seen.add(k)
            self.res.add(props, '%s %s' % (key, fn), where, '%s: %s' % (fn, msg))

    def panic(self, I, st, kind, detail):
        pass

    # ---- texts that are put together
    def text_op(self, st, callee, args):
        ks = models.keys_of(callee)
        r = args[0] if args else None
        for k in ks:
            if k not in ('std::string::String::clear', 'std::string::String::push', 'std::fmt::Write::write_fmt', 'std::fmt::Write::write_str',
                         'std::fmt::Write::write_char', 'std::string::String as std::fmt::Write::write_str',
                         'std::string::String as std::fmt::Write::write_char', 'std::string::String as std::fmt::Write::write_fmt'):
                continue
            s = models.deref_str(self.I, st, r)
            while isinstance(r, tuple) and r[0] == 'ref' and isinstance(models.deref(self.I, st, r), tuple) and \
                    models.deref(self.I, st, r)[:1] == ('ref',):
                r = models.deref(self.I, st, r)
            if not isinstance(s, tuple) or s[0] not in ('s', 'scat', 'format', 'tostring', 'v', 'fld') or s[:2] == ('v', 'formatter'):
                return None
            w = k.split('::')[-1]
            if w == 'clear':
                new = ('s', '')
            elif w in ('push', 'write_char'):
                new = models.sconcat(s, ('s', chr(args[1])) if isinstance(args[1], int) else ('tostring', args[1], 'char'))
            elif w == 'write_str':
                new = models.sconcat(s, models.deref_str(self.I, st, args[1]))
            else:
                a = args[1]
                new = models.sconcat(s, a[2] if a[0] == 'fmt' else ('format', a))
            if models.store(self.I, st, r, new):
                raise Unsupported('event in a text operation')
            return [(st, ok(UNIT) if w.startswith('write') else UNIT)]
        return None

    # ---- causes
    def cause_at(self, st, errs, i):
        causes = self.fld(st, errs, self.perr, self.causes_i)
        return self.I.getelem(st, causes, i)

    def count(self, st, errs):
        return self.I.seqlen(self.fld(st, errs, self.perr, self.causes_i))

    def loc(self, st, c):
        return self.fld(st, c, self.cause, self.loc_i)

    def which(self, st, c, p):
        """Which part of the cause the printed value is."""
        v, kind = p[1], p[2]
        if p[4]:
            return None
        loc = self.loc(st, c)
        lp = self.prefix + 'source_loc::SourceLoc'
        if v == self.fld(st, loc, lp, self.line_i):
            return 'line'
        if v == self.fld(st, loc, lp, self.col_i):
            return 'col'
        tok = self.fld(st, c, self.cause, self.tok_i)
        if v == tok or v == self.I.getfield(st, tok, 0, OPT + '::Some', None):
            return 'tok'
        if v == self.fld(st, c, self.cause, self.msg_i) and kind == 'display':
            return 'msg'
        if v == c:
            return 'all'
        return None

    def missing(self, st, c, parts):
        """What of the cause has not been printed."""
        need = {'line', 'col', 'msg'}
        tags = st.K.get_tags(self.fld(st, c, self.cause, self.tok_i))
        if tags is None or 'Some' in tags:
            need.add('tok')
        return sorted(need - set(parts))


WHAT = {'line': 'line', 'col': 'column', 'tok': 'token text', 'msg': 'message', 'all': 'text'}


class ErrorText(Monitor):
    """Display of one cause (D1) and of an error (D2)."""
    one_line = False

    def start(self, fn, subject):
        st = State(Know(None))
        fr = Frame(fn)
        st.heap[ROOT_S] = subject
        st.heap[ROOT_F] = ('v', 'formatter', 0)
        fr.loc[1] = ('ref', ROOT_S, ())
        fr.loc[2] = ('ref', ROOT_F, ())
        st.frames = [fr]
        st.ext = Ext(None)
        st.ext.ghost = {'parts': (), 'sep': 1, 'nl': 1, 'lines': 0, 'n_i': 0}
        return st

    def run(self):
        P = self.P
        fs = {}
        for f in P.local_fns():
            if f.path.endswith(' as std::fmt::Display>::fmt'):
                fs[P.t(P.t(f.locals[1])['elem']).get('path')] = f
        if CAUSE not in fs or PERR not in fs:
            raise Fail('Display of errors is not recognised')
        self.fns = (fs[CAUSE], fs[PERR])
        self.ends = set()
        self.nlines = set()
        self.d1 = None
        self.one = True
        E = Explorer(self, limit=400)
        E.explore([self.start(fs[CAUSE], ('v', 'cause', 0))])
        self.d1 = (self.ends, self.nlines)
        self.one = False
        E2 = Explorer(self, limit=400)
        E2.explore([self.start(fs[PERR], ('v', 'errs', 0))])
        self.states = E.states + E2.states
        return self

    def current(self, st):
        return ('v', 'cause', 0) if self.one else self.cause_at(st, ('v', 'errs', 0), st.ext.ghost['n_i'])

    def model(self, I, st, callee, args):
        ks = models.keys_of(callee)
        t = self.text_op(st, callee, args)
        if t is not None:
            return t
        w = None
        if ks[-1] in ('std::fmt::Write::write_fmt', 'std::fmt::Write::write_str') and models.deref_str(I, st, args[0]) == ('v', 'formatter', 0):
            w = arg_pieces(args[1]) if ks[-1].endswith('fmt') else text_pieces(models.deref_str(I, st, args[1]))
        elif any(k.endswith('std::fmt::Formatter::write_fmt') or k == 'std::fmt::Formatter as std::fmt::Write::write_fmt' for k in ks):
            w = arg_pieces(args[1])
        elif any(k.endswith('Formatter::write_str') or k == 'std::fmt::Formatter as std::fmt::Write::write_str' or k.endswith('Formatter::pad')
                 for k in ks):
            w = text_pieces(models.deref_str(I, st, args[1]))
        elif any(k == 'std::fmt::Formatter as std::fmt::Write::write_char' for k in ks):
            w = [('lit', chr(args[1]))] if isinstance(args[1], int) else [('arg', args[1], 'display', 'char', False, False)]
        elif callee['path'].endswith('fmt::Display::fmt') or callee['path'].endswith('fmt::Debug::fmt'):
            if len(args) == 2 and self.is_fmt(args[1]) and 'id' not in callee:
                v = models.deref_str(I, st, args[0])
                w = [('arg', v, 'display' if 'Display' in callee['path'] else 'debug', '', False, False)]
        if w is None:
            return alter(I, st, callee, args)
        self.writes += 1
        for p in w:
            self.piece(st, p)
        return [(st, ok(UNIT))]

    @staticmethod
    def is_fmt(a):
        return a == ('ref', ROOT_F, ())

    def piece(self, st, p):
        g = st.ext.ghost
        if p[0] == 'lit':
            if p[1]:
                g['sep'] = 1
                g['lines'] = min(g['lines'] + p[1].count('\n'), 2)
                g['nl'] = int(p[1].endswith('\n'))
            return
        c = self.current(st)
        w = self.which(st, c, p)
        if w is None and not self.one and self.end_entry(st):
            c = self.current(st)
            w = self.which(st, c, p)
        if w is None:
            self.bad(st, ['E01'], 'text', 'prints %s where a part of the next cause is due' % show(p[1]))
            return
        if not g['sep']:
            self.bad(st, ['E01'], 'apart', 'the %s follows the preceding value without anything between them' % WHAT[w])
        g['sep'] = 0
        g['nl'] = 0
        if w == 'all':
            if self.one:
                raise Unsupported('a cause printed by itself')
            if p[2] == 'display':
                ends, nl = self.d1
                g['sep'] = int(0 not in ends and ends != set())
                g['nl'] = int('n' in ends and len(ends) == 1)
            g['parts'] = ('col', 'line', 'msg', 'tok')
            return
        g['parts'] = tuple(sorted(set(g['parts']) | {w}))

    def end_entry(self, st):
        """The current cause is finished; move to the next."""
        g = st.ext.ghost
        if not g['parts']:
            return False
        m = self.missing(st, self.current(st), g['parts'])
        if m:
            self.bad(st, ['E01'], 'part', 'a cause is printed without its %s' % ' and '.join(WHAT[x] for x in m))
        g['parts'] = ()
        g['n_i'] = add(g['n_i'], 1)
        return True

    def normal_point(self, st):
        g = st.ext.ghost
        if not self.one and g['parts'] and not self.missing(st, self.current(st), g['parts']):
            g['parts'] = ()
            g['n_i'] = add(g['n_i'], 1)

    def advance(self, st):
        out = Monitor.advance(self, st)
        for s in out:
            self.normal_point(s)
        return out

    def ret(self, st, v):
        g = st.ext.ghost
        if v[0] != 'en' or v[2] != 'Ok':
            self.bad(st, ['E01'], 'result', 'formatting fails (%s) although nothing went wrong' % show(v))
        if self.one:
            m = self.missing(st, self.current(st), g['parts'])
            if m:
                self.bad(st, ['E01'], 'part', 'a cause is printed without its %s' % ' and '.join(WHAT[x] for x in m))
            self.ends.add('n' if g['nl'] else g['sep'])
            self.nlines.add(g['lines'])
            return
        self.end_entry(st)
        n = self.count(st, ('v', 'errs', 0))
        lo, hi = st.K.interval(sub(n, g['n_i']))
        if hi > 0:
            self.bad(st, ['E01'], 'all', 'not all causes are printed (%s of them)' % show(g['n_i']))

    def panic(self, I, st, kind, detail):
        self.bad(st, ['E01'], 'panic', 'formatting an error can panic (%s)' % kind)


class Tool(Monitor):
    """The command line program."""

    def __init__(self, P, res, d1, lib):
        Monitor.__init__(self, P, 'whitespace::', res, lib)
        self.d1 = d1
        self.res_t = self.prefix + RESOLVER
        cf = self.names(CODE)
        self.stmts_i = cf.index('statements')
        self.exits = 0
        self.reads = 0

    def run(self):
        mains = [f for f in self.P.local_fns() if f.path == 'main']
        if len(mains) != 1:
            raise Fail('main is not recognised')
        st = State(Know(None))
        st.frames = [Frame(mains[0])]
        st.ext = Ext(None)
        st.ext.ghost = {'mode': 'start', 'out': 'none', 'v_out': 0, 'parts': (), 'n_i': 0, 'n_t': 0, 'tree': 0, 'sep': 1, 'n_lines': 0,
                        'v_src': 0, 'clean': 1, 'nl': 1, 'named': None}
        self.mains = mains
        E = Explorer(self, limit=2000)
        E.explore([st])
        self.states = E.states
        return self

    def advance(self, st):
        out = Monitor.advance(self, st)
        for s in out:
            g = s.ext.ghost
            if g['out'] == 'err' and not g['parts']:
                n = self.count(s, g['v_out'])
                if s.K.interval(sub(n, g['n_i']))[1] <= 0:
                    g.update(out='errdone', v_out=0, n_i=0)
            elif g['out'] == 'ok' and self.tree_done(s):
                g.update(out='okdone', v_out=0, n_t=0, tree=0)
        return out

    # ---- operations
    def model(self, I, st, callee, args):
        p = models.strip_generics(callee['path'])
        rp = callee.get('rpath') or callee['path']
        ks = models.keys_of(callee)
        f = self.OPS.get(p) or next((self.OPS[k] for k in ks if k in self.OPS), None)
        if f is None:
            t = self.text_op(st, callee, args)
            if t is not None:
                return t
            t = alter(I, st, callee, args)
            if t is not None:
                return t
            if 'id' not in callee and p.startswith(self.prefix + 'parser::'):
                raise Unsupported('no model for %s' % rp)
            return None
        return f(self, st, callee, args)

    def o_parser_new(self, st, c, a):
        return [(st, ('v', 'argparse', 0))]

    def o_unit(self, st, c, a):
        return [(st, UNIT)]

    def o_opaque(self, st, c, a):
        return [(st, ('v', 'argparse', 0))]

    def o_refer(self, st, c, a):
        v = models.deref(self.I, st, a[1])
        text = v[0] == 's'
        if not text and v != NONE:
            raise Unsupported('an option that is not a text')
        if st.ext.ghost['named'] is not None:
            raise Unsupported('more than one option')
        name = ('v', 'filename', 0)
        s2 = st.copy()
        st.ext.ghost['named'] = 0
        s2.ext.ghost['named'] = 1
        s2.K.assume_ge(sub(models.str_len(self.I, s2, name), 1))
        s2.K.assume_streq(name, ('s', ''), False)
        models.store(self.I, s2, a[1], name if text else models.some(name))
        return [(st, ('v', 'argparse', 0)), (s2, ('v', 'argparse', 0))]

    def o_exit(self, st, c, a):
        self.exits += 1
        self.over(st, a[0])
        return 'dead'

    def o_open(self, st, c, a):
        self.opens(st, a[0])
        return [(st, ok(('v', 'file', 0)))]

    def opens(self, st, name):
        g = st.ext.ghost
        if g['named'] == 0:
            self.bad(st, ['C02'], 'prompt', 'opens a file although none is named, instead of starting the prompt')
        elif models.deref_str(self.I, st, name)[0] == 's':
            self.bad(st, ['C01'], 'name', 'opens %s instead of the file named' % show(models.deref_str(self.I, st, name)))

    def source(self, st):
        g = st.ext.ghost
        if g['mode'] != 'start':
            raise Unsupported('a second file')
        g['mode'] = 'file'
        g['v_src'] = ('v', 'contents', 0)
        return g['v_src']

    def o_read_all(self, st, c, a):
        s = self.source(st)
        old = models.deref_str(self.I, st, a[1])
        models.store(self.I, st, a[1], models.sconcat(old, s))
        return [(st, ok(('v', 'nread', 0)))]

    def o_read_file(self, st, c, a):
        self.opens(st, a[0])
        return [(st, ok(self.source(st)))]

    def o_read_io(self, st, c, a):
        return [(st, ok(self.source(st)))]

    def o_read_line(self, st, c, a):
        g = st.ext.ghost
        self.reads += 1
        if g['mode'] == 'ended':
            self.bad(st, ['C02'], 'ended', 'reads another line after the input has ended or could not be read')
            return 'dead'
        if g['mode'] == 'file':
            raise Unsupported('reads lines while running a file')
        if g['named'] == 1:
            self.bad(st, ['C01'], 'named', 'reads lines from the prompt although a file is named')
            return 'dead'
        self.closed(st)
        old = models.deref_str(self.I, st, a[1])
        out = []
        s0, s1, s2 = st, st.copy(), st.copy()
        # end of input
        s0.ext.ghost.update(mode='ended', out='none')
        out.append((s0, ok(0)))
        # a line
        x = s1.fresh('line')
        n = s1.fresh('nread')
        s1.K.assume_ge(sub(n, 1))
        g1 = s1.ext.ghost
        g1.update(mode='line', out='none', v_src=x, parts=(), n_i=0, n_t=0, tree=0, sep=1, clean=1, v_out=0)
        models.store(self.I, s1, a[1], models.sconcat(old, x))
        out.append((s1, ok(n)))
        # failure
        s2.ext.ghost.update(mode='ended', out='none')
        out.append((s2, err(('v', 'ioerror', 0))))
        return out

    def o_resolver(self, st, c, a):
        return [(st, mk_enum(self.res_t, '#', (0,)))]

    def parse(self, st, text, repl):
        g = st.ext.ghost
        if g['mode'] == 'ended':
            self.bad(st, ['C02'], 'ended', 'parses another line after the input has ended or could not be read')
            return 'dead'
        if g['mode'] not in ('file', 'line') or g['out'] != 'none':
            raise Unsupported('parses at an unexpected point')
        file = g['mode'] == 'file'
        pr = ['C01'] if file else ['C02']
        if text[0] == 'alt':
            raise Unsupported('parses a changed text')
        if text != g['v_src']:
            self.bad(st, pr, 'source', 'parses %s instead of %s' % (show(text), 'the contents of the file' if file else 'the line just read'))
        if file and repl:
            self.bad(st, pr, 'parser', 'parses a file as a line of the prompt')
        if not file and not repl:
            self.bad(st, pr, 'parser', 'parses a line of the prompt as a file')
        out = []
        s2 = st.copy()
        a, e = st.fresh('ast'), s2.fresh('errs')
        s2.K.assume_ge(sub(self.count(s2, e), 1))
        g['out'] = 'parsed'
        g['v_out'] = a
        s2.ext.ghost['out'] = 'err'
        s2.ext.ghost['v_out'] = e
        return [(st, ok(a)), (s2, err(e))]

    def o_parse(self, st, c, a):
        return self.parse(st, models.deref_str(self.I, st, a[0]), False)

    def o_parse_repl(self, st, c, a):
        return self.parse(st, models.deref_str(self.I, st, a[0]), True)

    def resolved(self, st, ast):
        g = st.ext.ghost
        if g['out'] != 'parsed' or ast != g['v_out']:
            raise Unsupported('resolves something else than what was just parsed')
        s2 = st.copy()
        c, e = st.fresh('code'), s2.fresh('errs')
        s2.K.assume_ge(sub(self.count(s2, e), 1))
        g['out'] = 'ok'
        g['v_out'] = c
        s2.ext.ghost['out'] = 'err'
        s2.ext.ghost['v_out'] = e
        return [(st, ok(c)), (s2, err(e))]

    def o_resolve(self, st, c, a):
        g = st.ext.ghost
        if len(a) == 1:
            if g['mode'] == 'line':
                self.bad(st, ['C02'], 'resolver', 'resolves a line with a resolver of its own, which forgets earlier declarations')
            return self.resolved(st, a[0])
        r = models.deref(self.I, st, a[0])
        if r[0] != 'en' or r[1] != self.res_t:
            raise Unsupported('an unknown resolver')
        n = r[3][0]
        if g['mode'] == 'line' and st.K.interval(sub(n, g['n_lines'])) != (0, 0):
            self.bad(st, ['C02'], 'resolver', 'resolves a line with a resolver that has not seen the lines before it (%s of %s)' %
                     (show(n), show(g['n_lines'])))
        if g['mode'] == 'file' and n != 0:
            raise Unsupported('a resolver used before')
        if g['mode'] == 'line':
            g['n_lines'] = add(g['n_lines'], 1)
        models.store(self.I, st, a[0], mk_enum(self.res_t, '#', (add(n, 1),)))
        return self.resolved(st, a[1])

    def o_stdout(self, st, c, a):
        return [(st, ('fd', 1))]

    def o_stderr(self, st, c, a):
        return [(st, ('fd', 2))]

    def o_stdin(self, st, c, a):
        return [(st, ('fd', 0))]

    def o_lock(self, st, c, a):
        v = models.deref(self.I, st, a[0])
        if v[0] != 'fd':
            raise Unsupported('lock of an unknown stream')
        return [(st, v)]

    def fd(self, st, r):
        v = models.deref_str(self.I, st, r)
        if v[0] != 'fd':
            raise Unsupported('an unknown stream')
        return v[1]

    def o_flush(self, st, c, a):
        self.fd(st, a[0])
        return [(st, ok(UNIT))]

    def o_print(self, st, c, a):
        return self.emit(st, 1, arg_pieces(a[0]), UNIT)

    def o_eprint(self, st, c, a):
        return self.emit(st, 2, arg_pieces(a[0]), UNIT)

    def o_write_fmt(self, st, c, a):
        return self.emit(st, self.fd(st, a[0]), arg_pieces(a[1]), ok(UNIT))

    def o_write_all(self, st, c, a):
        v = models.deref_str(self.I, st, a[1])
        if v[0] == 'sbytes':
            v = v[1]
        if v[0] == 'seq' and v[1] is None and all(isinstance(x, int) for x in v[2]):
            v = ('s', bytes(v[2]).decode('utf-8', 'replace'))
        if v[0] not in ('s', 'v', 'fld', 'format', 'scat', 'tostring'):
            raise Unsupported('writes unknown bytes')
        return self.emit(st, self.fd(st, a[0]), text_pieces(v), ok(UNIT))

    def o_code(self, st, c, a):
        return [(st, ('exitcode', a[0]))]

    def o_term(self, st, c, a):
        return [(st, ('bsym', 'is_terminal', self.fd(st, a[0])))]

    OPS = {
        'argparse::ArgumentParser::new': o_parser_new, 'argparse::ArgumentParser::set_description': o_unit,
        'argparse::ArgumentParser::add_option': o_unit, 'argparse::ArgumentParser::refer': o_refer,
        'argparse::ArgumentParser::stop_on_first_argument': o_unit, 'argparse::ArgumentParser::silence_double_dash': o_unit,
        'argparse::Ref::add_argument': o_opaque, 'argparse::Ref::add_option': o_opaque, 'argparse::Ref::required': o_opaque,
        'argparse::Ref::metavar': o_opaque, 'argparse::Ref::envvar': o_opaque,
        'argparse::ArgumentParser::parse_args_or_exit': o_unit,
        'std::process::exit': o_exit, 'std::fs::File::open': o_open,
        'std::fs::File as std::io::Read::read_to_string': o_read_all, 'std::fs::read_to_string': o_read_file,
        '&std::fs::File as std::io::Read::read_to_string': o_read_all,
        'std::io::BufReader as std::io::Read::read_to_string': o_read_all,
        'std::io::read_to_string': o_read_io, 'std::io::BufReader::new': o_open and (lambda s, st, c, a: [(st, a[0])]),
        'std::io::StdinLock as std::io::BufRead::read_line': o_read_line, 'std::io::Stdin::read_line': o_read_line,
        'std::io::stdin': o_stdin, 'std::io::stdout': o_stdout, 'std::io::stderr': o_stderr,
        'std::io::Stdin::lock': o_lock, 'std::io::Stdout::lock': o_lock, 'std::io::Stderr::lock': o_lock,
        'std::io::_print': o_print, 'std::io::_eprint': o_eprint, 'std::process::ExitCode as std::convert::From::from': o_code,
        'std::io::stdio::_print': o_print, 'std::io::stdio::_eprint': o_eprint,
    }
    for _t in ('std::io::Stdout', 'std::io::StdoutLock', 'std::io::Stderr', 'std::io::StderrLock', '&std::io::Stdout', '&std::io::Stderr'):
        OPS[_t + ' as std::io::Write::flush'] = o_flush
        OPS[_t + ' as std::io::Write::write_fmt'] = o_write_fmt
        OPS[_t + ' as std::io::Write::write_all'] = o_write_all
    OPS['std::io::Write::write_fmt'] = o_write_fmt
    for _t in ('Stdin', 'Stdout', 'Stderr', 'StdinLock', 'StdoutLock', 'StderrLock'):
        OPS['std::io::%s as std::io::IsTerminal::is_terminal' % _t] = o_term
    for _t in ('parser::parse',):
        OPS['whitespace::' + _t] = o_parse
    OPS['whitespace::parser::parse_repl_line'] = o_parse_repl
    OPS['whitespace::resolver::Resolver::new'] = o_resolver
    OPS['whitespace::resolver::Resolver as std::default::Default::default'] = o_resolver
    OPS['whitespace::resolver::Resolver::resolve'] = o_resolve
    OPS['whitespace::resolver::resolve'] = o_resolve

    # ---- output
    def emit(self, st, fd, ps, result):
        self.writes += 1
        for p in ps:
            if fd == 1:
                self.to_out(st, p)
            elif fd == 2:
                self.to_err(st, p)
        return [(st, result)]

    def is_tree(self, st, p):
        g = st.ext.ghost
        c = g['v_out']
        return p[0] == 'arg' and (p[1] == c or p[1] == self.fld(st, c, self.prefix + CODE, self.stmts_i))

    def to_out(self, st, p):
        g = st.ext.ghost
        if g['out'] == 'ok':
            stm = self.fld(st, g['v_out'], self.prefix + CODE, self.stmts_i)
            if p[0] == 'arg' and not p[4] and p[2] == 'debug' and self.is_tree(st, p):
                if g['tree'] or g['n_t'] != 0:
                    self.bad(st, ['C03'], 'tree', 'prints the tree more than once')
                g['tree'] = 1
                g['nl'] = 0
                return
            if p[0] == 'arg' and p[2] == 'debug' and not p[4] and p[1] == self.I.getelem(st, stm, g['n_t']):
                g['n_t'] = add(g['n_t'], 1)
                return
            if p[0] == 'lit' and (not p[1].strip() or g['mode'] != 'file' and self.tree_done(st)):
                g['nl'] = int('\n' in p[1] or g['nl'])
                return
            self.bad(st, ['C03'], 'other', 'prints %s to standard output for an accepted program' % self.said(p))
        elif g['out'] in ('okdone', 'errdone'):
            if p[0] == 'lit' and (not p[1].strip() or g['out'] == 'errdone' or g['mode'] != 'file'):
                return
            self.bad(st, ['C03'], 'other', 'prints %s to standard output after the result' % self.said(p))
        elif g['out'] == 'err':
            if p[0] == 'lit':
                return
            self.bad(st, ['C03'], 'rejected', 'prints %s to standard output for a rejected program' % self.said(p))
        elif g['mode'] == 'file':
            self.bad(st, ['C03'], 'other', 'prints %s to standard output before the program is accepted' % self.said(p))

    @staticmethod
    def said(p):
        return repr(p[1]) if p[0] == 'lit' else show(p[1])

    def tree_done(self, st):
        g = st.ext.ghost
        if g['tree']:
            return True
        if g['n_t'] == 0:
            return False
        n = self.I.seqlen(self.fld(st, g['v_out'], self.prefix + CODE, self.stmts_i))
        return st.K.interval(sub(n, g['n_t']))[1] <= 0

    def to_err(self, st, p):
        g = st.ext.ghost
        if g['out'] != 'err':
            return
        e = g['v_out']
        if p[0] == 'lit':
            for x in p[1].split('\n')[:-1]:
                self.newline(st)
            if p[1]:
                g['sep'] = 1
            return
        if p[1] == e and p[2] == 'display' and not p[4] and not g['parts'] and g['n_i'] == 0:
            g['n_i'] = self.count(st, e)       # E01 decides that this prints every cause
            return
        c = self.cause_at(st, e, g['n_i'])
        w = self.which(st, c, p)
        if w is None:
            self.bad(st, ['C03'], 'text', 'prints %s where a part of the next cause is due' % show(p[1]))
            return
        if not g['sep']:
            self.bad(st, ['C03'], 'apart', 'the %s follows the preceding value without anything between them' % WHAT[w])
        g['sep'] = 0
        if w == 'all':
            g['parts'] = ('col', 'line', 'msg', 'tok')
            if p[2] == 'display':
                ends, nl = self.d1
                if nl - {0, 1} or 1 in nl and 'n' not in ends:
                    self.bad(st, ['C03'], 'line', 'prints a cause on more than one line')
                if nl == {1}:
                    self.newline(st)
            elif p[5]:
                self.bad(st, ['C03'], 'line', 'prints a cause on more than one line')
            return
        g['parts'] = tuple(sorted(set(g['parts']) | {w}))

    def newline(self, st):
        g = st.ext.ghost
        if not g['parts']:
            return
        c = self.cause_at(st, g['v_out'], g['n_i'])
        m = self.missing(st, c, g['parts'])
        if m:
            self.bad(st, ['C03'], 'part', 'a cause is printed on a line without its %s' % ' and '.join(WHAT[x] for x in m))
        g['parts'] = ()
        g['sep'] = 1
        g['n_i'] = add(g['n_i'], 1)

    def closed(self, st):
        """The result of the last program must have been printed."""
        g = st.ext.ghost
        if g['out'] == 'ok' and not self.tree_done(st):
            if g['n_t'] != 0 or True:
                self.bad(st, ['C03'], 'tree', 'the tree of an accepted program is not printed' if g['n_t'] == 0 else
                         'the tree of an accepted program is not printed completely')
        elif g['out'] == 'err':
            if g['parts']:
                self.bad(st, ['C03'], 'line', 'the last cause is not printed on a line of its own')
                self.newline(st)
            n = self.count(st, g['v_out'])
            if st.K.interval(sub(n, g['n_i']))[1] > 0:
                self.bad(st, ['C03'], 'all', 'not all causes of a rejected program are printed (%s of them)' % show(g['n_i']))
        elif g['out'] == 'parsed':
            raise Unsupported('a program that is parsed but not resolved')

    def over(self, st, status):
        g = st.ext.ghost
        self.closed(st)
        if g['mode'] == 'line':
            self.bad(st, ['C02'], 'stops', 'the prompt stops after a line although there is more input')
        elif g['mode'] == 'file':
            want = {'ok': 0, 'err': 65, 'okdone': 0, 'errdone': 65}.get(g['out'])
            if want is None:
                self.bad(st, ['C03'], 'tree', 'the program ends without parsing the file')
            elif status != want:
                self.bad(st, ['C01'], 'status', 'ends with status %s instead of %d for %s program' %
                         (show(status), want, 'an accepted' if want == 0 else 'a rejected'))
        elif g['mode'] == 'start':
            if g['named'] == 1:
                self.bad(st, ['C01'], 'named', 'ends with status %s without having read the file named' % show(status))
            elif g['named'] == 0:
                self.bad(st, ['C02'], 'prompt', 'ends without starting the prompt although no file is named')

    def ret(self, st, v):
        self.exits += 1
        if v == UNIT or v == ('tup', ()):
            s = 0
        elif isinstance(v, int):
            s = v
        elif v[0] == 'exitcode':
            s = v[1]
        elif v[0] == 'st' and 'ExitCode' in v[1]:
            s = v[2][0]
            while isinstance(s, tuple) and s[0] == 'st' and len(s[2]) == 1:
                s = s[2][0]
        elif v[0] == 'en' and v[2] in ('Ok', 'Err') and 'Result' in v[1]:
            s = 0 if v[2] == 'Ok' else 1
            if v[2] == 'Ok' and v[3] and isinstance(v[3][0], tuple) and v[3][0][:1] == ('exitcode',):
                s = v[3][0][1]
        elif v[0] == 'konst' and 'SUCCESS' in str(v):
            s = 0
        elif v[0] == 'konst' and 'FAILURE' in str(v):
            s = 1
        else:
            raise Unsupported('main returns %s' % show(v))
        self.over(st, s)

    def panic(self, I, st, kind, detail):
        g = st.ext.ghost
        if g['mode'] == 'file':
            if g['out'] in ('ok', 'err', 'okdone', 'errdone'):
                self.bad(st, ['C01'], 'panic', 'can panic (%s) after a file was read, and ends with status 101' % kind)
        elif g['mode'] == 'line':
            self.bad(st, ['C02'], 'panic', 'can panic (%s) on a line' % kind)


_memo = {}


def run(ctx, pids):
    res = Result()
    key = id(ctx)
    if key in _memo:
        return _memo[key]
    _memo.clear()
    cov = {}
    et = None
    try:
        et = ErrorText(ctx.program('lib'), '', res).run()
        cov['E01'] = {'functions': [f.path for f in et.fns], 'states': et.states, 'writes': et.writes, 'returns': et.rets,
                      'rule': 'one entry per cause, in order, with line, column, token text and message'}
    except Unsupported as e:
        res.undecided.append(('E01', 'Display of errors', str(e)))
    try:
        t = Tool(ctx.program('bin'), res, et.d1 if et and et.d1 else (set(), {9}), ctx.program('lib')).run()
        for p, rule in (('C01', 'status 0 exactly for accepted files, 65 for rejected ones'),
                        ('C02', 'every line is parsed and resolved with the one resolver; only end of input or a read error ends the loop'),
                        ('C03', 'an accepted program prints its tree, a rejected one a line per cause with all its parts on standard error')):
            cov[p] = {'functions': sorted(t.I.fns_entered), 'states': t.states, 'exits': t.exits, 'reads': t.reads, 'writes': t.writes,
                      'rule': rule}
    except Unsupported as e:
        for p in ('C01', 'C02', 'C03'):
            res.undecided.append((p, 'main', str(e)))
    res.coverage = cov
    _memo[key] = res
    return res


if __name__ == '__main__':
    import sys
    from common import Ctx
    sys.setrecursionlimit(20000)
    c = Ctx('/verif', sys.argv[1] if len(sys.argv) > 1 else '/repo', 'quick')
    try:
        r = run(c, [])
        for f in r.findings:
            print(sorted(f.props), f.key, f.where, f.message)
        print(r.undecided)
        print(r.coverage)
    finally:
        c.cleanup()
