"""Reference rules, written as restricted Python and compiled to small graphs.

A rule file is parsed (never executed).  Statements: assignment, if/while,
break/continue, return, try/except, and calls of other rules or primitive
actions.  Conditions are boolean terms of the domain's vocabulary; a branch on
an undecided condition splits the knowledge.  P("..") names the properties a
deviation at the following statements is attributed to.
"""
import ast

from terms import *
from program import UNIT
from absint import Unsupported


class Rule:
    def __init__(self, name, args, nt, props):
        self.name = name
        self.args = args
        self.nt = nt
        self.props = props
        self.code = []
        self.lines = []
        self.live = None
        self.heads = {}             # loop head: (start of the body, exit)


def compile_file(path, actions):
    tree = ast.parse(open(path).read())
    rules = {}
    fdefs = [n for n in tree.body if isinstance(n, ast.FunctionDef)]
    for f in fdefs:
        nt = False
        props = ()
        for d in f.decorator_list:
            if isinstance(d, ast.Call):
                if d.func.id in ('nt', 'entry', 'part'):
                    nt = d.func.id
                    props = tuple(d.args[0].value.split()) if d.args else ()
        rules[f.name] = Rule(f.name, [a.arg for a in f.args.args], nt, props)
    for f in fdefs:
        Compiler(rules[f.name], rules, actions, path).run(f)
    return rules


class Compiler:
    def __init__(self, rule, rules, actions, path):
        self.r = rule
        self.rules = rules
        self.actions = actions
        self.path = path
        self.loops = []
        self.tmp = 0

    def emit(self, *ins, line=0):
        self.r.code.append(list(ins))
        self.r.lines.append(line)
        return len(self.r.code) - 1

    def run(self, f):
        if self.r.props:
            self.emit('tag', frozenset(self.r.props), line=f.lineno)
        for s in f.body:
            self.stmt(s)
        self.emit('ret', ast.Tuple(elts=[], ctx=ast.Load()), line=f.lineno)
        self.liveness()

    def is_call(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and (
            e.func.id in self.rules or e.func.id in self.actions)

    def targets(self, t):
        if isinstance(t, ast.Name):
            return t.id
        if isinstance(t, ast.Tuple):
            return [self.targets(x) for x in t.elts]
        raise SyntaxError('target at %s:%d' % (self.path, t.lineno))

    def stmt(self, s):
        ln = s.lineno
        if isinstance(s, ast.Expr):
            e = s.value
            if isinstance(e, ast.Constant):
                return
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'P':
                self.emit('tag', frozenset(e.args[0].value.split()), line=ln)
                return
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'append':
                v = e.func.value.id
                if self.is_call(e.args[0]):
                    self.tmp += 1
                    t = '$t%d' % self.tmp
                    self.call(e.args[0], t, ln)
                    arg = ast.Name(id=t, ctx=ast.Load())
                else:
                    arg = e.args[0]
                self.emit('push', v, arg, line=ln)
                return
            if self.is_call(e):
                self.call(e, None, ln)
                return
            raise SyntaxError('expression statement at %s:%d' % (self.path, ln))
        if isinstance(s, ast.Assign):
            t = self.targets(s.targets[0])
            if self.is_call(s.value):
                self.call(s.value, t, ln)
            else:
                self.emit('set', t, s.value, line=ln)
            return
        if isinstance(s, ast.AugAssign):
            self.emit('set', s.target.id, ast.BinOp(left=ast.Name(id=s.target.id, ctx=ast.Load()), op=s.op,
                                                    right=s.value), line=ln)
            return
        if isinstance(s, ast.Return):
            if s.value is None:
                self.emit('ret', ast.Tuple(elts=[], ctx=ast.Load()), line=ln)
            elif self.is_call(s.value):
                self.tmp += 1
                t = '$t%d' % self.tmp
                self.call(s.value, t, ln)
                self.emit('ret', ast.Name(id=t, ctx=ast.Load()), line=ln)
            else:
                self.emit('ret', s.value, line=ln)
            return
        if isinstance(s, ast.If):
            tj, fj = self.cond(s.test, ln)
            self.patch(tj)
            for x in s.body:
                self.stmt(x)
            if s.orelse:
                end = self.emit('goto', None, line=ln)
                self.patch(fj)
                for x in s.orelse:
                    self.stmt(x)
                self.r.code[end][1] = len(self.r.code)
            else:
                self.patch(fj)
            return
        if isinstance(s, ast.While):
            head = len(self.r.code)
            if isinstance(s.test, ast.Constant) and s.test.value:
                fj = []
            else:
                tj, fj = self.cond(s.test, ln)
                self.patch(tj)
            body = len(self.r.code)
            self.loops.append((head, []))
            for x in s.body:
                self.stmt(x)
            self.emit('goto', head, line=ln)
            _, brks = self.loops.pop()
            self.patch(fj)
            self.r.heads[head] = (body, len(self.r.code))
            for b in brks:
                self.r.code[b][1] = len(self.r.code)
            return
        if isinstance(s, ast.Break):
            self.loops[-1][1].append(self.emit('goto', None, line=ln))
            return
        if isinstance(s, ast.Continue):
            self.emit('goto', self.loops[-1][0], line=ln)
            return
        if isinstance(s, ast.Pass):
            return
        if isinstance(s, ast.Try):
            h = self.emit('pushh', None, None, line=ln)
            for x in s.body:
                self.stmt(x)
            self.emit('poph', line=ln)
            end = self.emit('goto', None, line=ln)
            hd = s.handlers[0]
            self.r.code[h][1] = len(self.r.code)
            self.r.code[h][2] = hd.name or (hd.type.id if hd.type is not None else None)
            for x in hd.body:
                self.stmt(x)
            self.r.code[end][1] = len(self.r.code)
            return
        raise SyntaxError('statement at %s:%d' % (self.path, ln))

    def call(self, e, dst, ln):
        args = [(None, a) for a in e.args] + [(k.arg, k.value) for k in e.keywords]
        self.emit('call', e.func.id, args, dst, line=ln)

    def cond(self, t, ln):
        """Returns (true jumps, false jumps) to be patched."""
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And):
                fj = []
                for x in t.values[:-1]:
                    a, b = self.cond(x, ln)
                    self.patch(a)
                    fj += b
                a, b = self.cond(t.values[-1], ln)
                return a, fj + b
            tj = []
            for x in t.values[:-1]:
                a, b = self.cond(x, ln)
                tj += a
                self.patch(b)
            a, b = self.cond(t.values[-1], ln)
            return tj + a, b
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.cond(t.operand, ln)
            return b, a
        i = self.emit('br', t, None, None, line=ln)
        return [(i, 2)], [(i, 3)]

    def patch(self, js):
        for i, k in js:
            self.r.code[i][k] = len(self.r.code)

    # --- liveness of rule variables
    def liveness(self):
        code = self.r.code

        def names(n):
            return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} if isinstance(n, ast.AST) else set()

        def flat(t):
            if t is None:
                return []
            return [t] if isinstance(t, str) else [y for x in t for y in flat(x)]
        n = len(code)
        use, kill, succ = [], [], []
        handlers = [c[1] for c in code if c[0] == 'pushh']
        for i, c in enumerate(code):
            u, k, s = set(), set(), [i + 1] if i + 1 < n else []
            if c[0] == 'set':
                u, k = names(c[2]), set(flat(c[1]))
            elif c[0] == 'push':
                u = names(c[2]) | {c[1]}
            elif c[0] == 'br':
                u, s = names(c[1]), [c[2], c[3]]
            elif c[0] == 'goto':
                s = [c[1]]
            elif c[0] == 'ret':
                u, s = names(c[1]), []
            elif c[0] == 'call':
                for _, a in c[2]:
                    u |= names(a)
                k = set(flat(c[3]))
                s = s + handlers
            elif c[0] == 'pushh':
                s = s + [c[1]]
            use.append(u)
            kill.append(k)
            succ.append(s)
        live = [set() for _ in range(n + 1)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= live[s]
                v = use[i] | (o - kill[i])
                if code[i][0] == 'call' and handlers:
                    v |= o & kill[i]
                if v != live[i]:
                    live[i] = v
                    ch = True
        self.r.live = live


class SFrame:
    __slots__ = ('rule', 'pc', 'env', 'dst', 'hs')

    def __init__(self, rule, env, dst=None):
        self.rule = rule
        self.pc = 0
        self.env = env
        self.dst = dst
        self.hs = []

    def copy(self):
        f = SFrame(self.rule, dict(self.env), self.dst)
        f.pc = self.pc
        f.hs = list(self.hs)
        return f


class Spec:
    """State of the rule interpreter."""
    __slots__ = ('frames', 'tags', 'g', 'ntdst', 'trail', 'why', 'turns')

    def __init__(self):
        self.frames = []
        self.tags = frozenset()
        self.g = {}
        self.ntdst = None
        self.trail = self.why = frozenset()
        self.turns = 0

    def copy(self):
        s = Spec()
        s.frames = [f.copy() for f in self.frames]
        s.tags = self.tags
        s.g = dict(self.g)
        s.ntdst = self.ntdst
        s.trail, s.why = self.trail, self.why
        s.turns = self.turns
        return s

    def key(self):
        return tuple((f.rule.name, f.pc, tuple(f.hs), str(f.dst)) for f in self.frames)

    def where(self):
        f = self.frames[-1]
        pc = min(f.pc, len(f.rule.lines) - 1)
        return '%s:%d' % (f.rule.name, f.rule.lines[pc])

    def bind(self, dst, v):
        self.assign(self.frames[-1].env, dst, v)

    def assign(self, env, dst, v):
        if dst is None:
            return
        if isinstance(dst, str):
            env[dst] = v
            return
        if isinstance(v, tuple) and v[0] == 'tup' and len(v[1]) == len(dst):
            for d, x in zip(dst, v[1]):
                self.assign(env, d, x)
            return
        raise Unsupported('rule destructuring of %r' % (v,))


class SpecInterp:
    """vocab: object with eval_call(S,K,name,args,kw), attr(S,K,v,name),
    name(S,K,id), action(S,K,name,args) -> list of outcomes."""

    def __init__(self, rules, vocab, stepnt):
        self.rules = rules
        self.V = vocab
        self.stepnt = stepnt  # names of nonterminals stepped into
        self.steps = 0
        self.unroll = None      # only short runs

    def ev(self, S, K, n):
        V = self.V
        if isinstance(n, ast.Name):
            f = S.frames[-1]
            if n.id in f.env:
                return f.env[n.id]
            return V.name(S, K, n.id)
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, str):
                return ('s', v)
            return v
        if isinstance(n, ast.Tuple):
            return ('tup', tuple(self.ev(S, K, x) for x in n.elts))
        if isinstance(n, ast.List):
            return ('seq', None, tuple(self.ev(S, K, x) for x in n.elts))
        if isinstance(n, ast.Attribute):
            return V.attr(S, K, self.ev(S, K, n.value) if not self.is_ns(S, n.value) else ('ns', n.value.id), n.attr)
        if isinstance(n, ast.BinOp):
            a, b = self.ev(S, K, n.left), self.ev(S, K, n.right)
            return add(a, b) if isinstance(n.op, ast.Add) else sub(a, b)
        if isinstance(n, ast.Compare):
            return V.compare(S, K, type(n.ops[0]).__name__, self.ev(S, K, n.left), self.ev(S, K, n.comparators[0]))
        if isinstance(n, ast.Call):
            kw = {k.arg: self.ev(S, K, k.value) for k in n.keywords}
            if isinstance(n.func, ast.Attribute):
                if self.is_ns(S, n.func.value):
                    return V.construct(S, K, n.func.value.id, n.func.attr,
                                       [self.ev(S, K, x) for x in n.args], kw)
                return V.method(S, K, self.ev(S, K, n.func.value), n.func.attr,
                                [self.ev(S, K, x) for x in n.args], kw)
            name = n.func.id
            return V.eval_call(S, K, name, [self.ev(S, K, x) for x in n.args], kw)
        if isinstance(n, ast.Subscript):
            return V.index(S, K, self.ev(S, K, n.value), self.ev(S, K, n.slice))
        if isinstance(n, ast.BoolOp):
            vs = [self.ev(S, K, x) for x in n.values]
            r = vs[0]
            for v in vs[1:]:
                r = ('and' if isinstance(n.op, ast.And) else 'or', r, v)
            return r
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            v = self.ev(S, K, n.operand)
            return 1 - v if isinstance(v, int) else ('not', v)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return scale(self.ev(S, K, n.operand), -1)
        raise Unsupported('rule expression %s' % ast.dump(n)[:80])

    def is_ns(self, S, n):
        return isinstance(n, ast.Name) and n.id not in S.frames[-1].env and n.id in self.V.namespaces

    def run(self, S, K, heads=False, leave=False, keep=False):
        """[(event, S, K)]; the given S and K are consumed.  Stops at loop
        heads if asked to; with leave, not at the one it is at."""
        out = []
        work = [(S, K)]
        count = 0
        if not keep:
            S.turns = 0
        while work:
            S, K = work.pop()
            while True:
                count += 1
                self.steps += 1
                if self.unroll and S.frames[-1].pc in S.frames[-1].rule.heads:
                    S.turns += 1
                    if S.turns > self.unroll:
                        break
                if leave:
                    leave = False
                elif heads and S.frames[-1].pc in S.frames[-1].rule.heads:
                    end = self.leaves(S, K)
                    r = None
                    if end is not None:
                        # go on to the next loop unless something happens on the way
                        S2 = S.copy()
                        S2.frames[-1].pc = end
                        r = self.run(S2, K.copy(), True)
                    if r and all(x[0][0] == 'head' for x in r):
                        out += r
                    else:
                        out.append((('head',), S, K))
                    break
                if count > 20000:
                    raise Unsupported('rule loops without events: ' + S.where())
                r = self.step(S, K, work)
                if r is None:
                    continue
                if r == 'dead':
                    break
                if isinstance(r, tuple) and r and r[0] == 'K':
                    K = r[1]
                    continue
                out.append((r, S, K))
                break
        return out

    def leaves(self, S, K):
        """Where the rule goes on if the loop is known to end here."""
        f = S.frames[-1]
        pc = f.pc
        body, end = f.rule.heads[pc]
        while pc < body and f.rule.code[pc][0] == 'br':
            c = f.rule.code[pc]
            e = K.ev(self.ev(S, K, c[1]))
            if e is None:
                return None
            pc = c[2] if e else c[3]
        return end if pc == end else None

    def raise_err(self, S, e):
        while S.frames:
            f = S.frames[-1]
            if f.hs:
                pc, name = f.hs.pop()
                f.pc = pc
                if name:
                    f.env[name] = e
                return None
            if len(S.frames) == 1:
                return ('ret', ('err', e))
            S.frames.pop()
        raise Unsupported('unwinding')

    def ret(self, S, v):
        if len(S.frames) == 1:
            return ('ret', ('ok', v))
        f = S.frames.pop()
        S.bind(f.dst, v)
        return None

    def step(self, S, K, work):
        f = S.frames[-1]
        c = f.rule.code[f.pc]
        f.pc += 1
        h = c[0]
        if h == 'tag':
            S.tags = c[1]
            S.trail |= S.tags
            return None
        if h == 'set' and isinstance(c[1], str) and c[1] in self.V.context:
            S.g[c[1]] = self.ev(S, K, c[2])
            return None
        if h == 'set':
            S.assign(f.env, c[1], self.ev(S, K, c[2]))
            return None
        if h == 'push':
            v = f.env[c[1]]
            s = v if v[0] == 'seq' else ('seq', v, ())
            f.env[c[1]] = ('seq', s[1], s[2] + (self.ev(S, K, c[2]),))
            return None
        if h == 'goto':
            f.pc = c[1]
            return None
        if h == 'br':
            b = self.ev(S, K, c[1])
            e = K.ev(b)
            if e is not None:
                f.pc = c[2] if e else c[3]
                return None
            t = K.assume(b, True)
            n = K.assume(b, False)
            alts = [(k, c[2]) for k in t] + [(k, c[3]) for k in n]
            if not alts:
                return 'dead'
            for k, pc in alts[1:]:
                s2 = S.copy()
                s2.frames[-1].pc = pc
                work.append((s2, k))
            f.pc = alts[0][1]
            return ('K', alts[0][0])
        if h == 'pushh':
            f.hs.append((c[1], c[2]))
            return None
        if h == 'poph':
            f.hs.pop()
            return None
        if h == 'ret':
            return self.ret(S, self.ev(S, K, c[1]))
        if h == 'call':
            name, args, dst = c[1], c[2], c[3]
            r = self.rules.get(name)
            if r is not None:
                vals = {}
                pos = [a for k, a in args if k is None]
                for a, p in zip(r.args, pos):
                    vals[a] = self.ev(S, K, p)
                for k, a in args:
                    if k is not None:
                        vals[k] = self.ev(S, K, a)
                if r.nt and r.name not in self.stepnt:
                    S.ntdst = dst
                    return ('call', name, tuple(vals.get(a) for a in r.args if a in vals))
                self.enter(S, r, vals, dst)
                return None
            pos = [self.ev(S, K, a) for k, a in args if k is None]
            kw = {k: self.ev(S, K, a) for k, a in args if k is not None}
            return self.V.action(self, S, K, name, pos, kw, dst, work)
        raise Unsupported('rule instruction ' + h)

    def enter(self, S, r, vals, dst):
        if len(S.frames) > 40:
            raise Unsupported('rule recursion through ' + r.name)
        S.frames.append(SFrame(r, vals, dst))

    def force_enter(self, S, name, args):
        """Step into a nonterminal whose call was just reported."""
        r = self.rules[name]
        self.enter(S, r, dict(zip(r.args, args)), S.ntdst)
