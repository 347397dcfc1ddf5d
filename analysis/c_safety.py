"""T04: no unsafe operation written in, or expanded from macros into, the crate.
T03: no effect and no unordered iteration reachable in the library."""
import re

from common import Result, Fail
from models import keys_of

UNSAFE_ITEM_OK = {'std::clone::TrivialClone'}  # emitted by #[derive(Clone)] on nightly only


def run(ctx, pids):
    res = Result()
    if 'T04' in pids:
        unsafe_check(ctx, res)
    if 'T03' in pids:
        effect_check(ctx, res)
    if 'T02' in pids:
        recursion_check(ctx, res)
    return res


def recursion_check(ctx, res):
    """Call-graph cycles: each is a way to exhaust the stack, unless its depth is bounded (none is recognised as such)."""
    P = ctx.program('lib')
    fns = [f for f in P.fns if f is not None and not f.d.get('derived')]
    bodies = {f.path: f.idx for f in fns if f.kind == 'closure'}
    G = {f.idx: set() for f in fns}
    for f in fns:
        for b in f.blocks:
            if b is None:
                continue
            for s in b[0]:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'closure':
                    i = bodies.get(P.t(s[2][2])['path'])
                    if i is not None:
                        G[f.idx].add(i)
            if b[1][0] == 'call':
                c = callee(P, f, b[1][1])
                if c and 'id' in c and c['id'] in G:
                    G[f.idx].add(c['id'])
    n = 0
    for scc in components(G):
        if len(scc) == 1 and not any(x in G[x] for x in scc):
            continue
        loc = sorted((P.fns[i] for i in scc if P.fns[i].local), key=lambda f: f.path)
        if not loc:
            continue
        n += 1
        for m in sorted({f.file for f in loc}):
            fs = [f for f in loc if f.file == m]
            res.add(['T02'], 'unbounded recursion in %s' % m, fs[0].span, 'the functions %s call each other with no bound on the depth: '
                    'deeply nested input exhausts the stack' % ', '.join(sorted({f.path.split('::')[-1] for f in fs})[:30]))
    edges = sum(len(x) for x in G.values())
    if edges < 300:
        raise Fail('only %d call edges seen' % edges)
    res.coverage['T02'] = {'call_graph_functions': len(G), 'call_graph_edges': edges, 'recursive_components': n}


def components(G):
    """Strongly connected components (Tarjan, without recursion)."""
    index, low, on, stack, out = {}, {}, set(), [], []
    for r in G:
        if r in index:
            continue
        work = [(r, iter(G[r]))]
        index[r] = low[r] = len(index)
        stack.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(G[w])))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out


def unsafe_check(ctx, res):
    nf = ni = nb = 0
    for which in ('lib', 'bin'):
        P = ctx.program(which)
        for f in P.facts:
            nb += 1
            if f['user']:
                res.add(['T04'], '%s:%s' % (f['what'], f['span'].split(':')[0]), f['span'],
                        '%s in the %s crate' % (f['what'], which))
        for it in P.items:
            ni += 1
            derived = it.get('derived') and it.get('trait') in UNSAFE_ITEM_OK
            if it.get('unsafe') and not derived:
                res.add(['T04'], 'unsafe item %s' % it['path'], it['span'], 'unsafe %s %s' % (it['kind'], it['path']))
            if it['kind'].startswith('ForeignMod'):
                res.add(['T04'], 'extern block', it['span'], 'extern block: foreign code is called unchecked')
            if it['kind'].startswith('Static') and it.get('mutable'):
                res.add(['T04'], 'static mut %s' % it['path'], it['span'], 'mutable static %s' % it['path'])
        nf += len(P.local_fns())
    if nf < 120 or ni < 300:
        raise Fail('only %d functions / %d items seen' % (nf, ni))
    res.coverage['T04'] = {
        'rule': 'no user-written unsafe block, unsafe fn, unsafe impl, extern block or static mut in the type-checked '
                'lib and bin crates, macro expansions included (blocks the compiler itself generates for formatting '
                'and derives are listed as generated)',
        'functions': nf, 'items': ni, 'generated_blocks_seen': nb}


EFFECT = [
    (r'^std::(io|fs|net|env|process|time|thread|os)::', 'input/output, environment, process, time or thread access'),
    (r'^std::sync::(mpsc|atomic|Mutex|RwLock|Condvar|Barrier|OnceLock|Once)\b', 'shared mutable state'),
    (r'std::thread::local', 'thread-local state'),
    (r'RandomState', 'randomised state'),
    (r'^std::intrinsics::volatile', 'volatile access'),
    (r'^(rand|getrandom|fastrand|libc)\b', 'randomness or system calls'),
    (r'std::time::|Instant::now|SystemTime::now', 'clock'),
    (r'std::any::type_name|std::alloc::System|std::panic::Location', 'build- or run-dependent data'),
    (r'core::fmt::rt::Argument::new_pointer', 'an address is formatted'),
]
ORDERED_FREE = re.compile(
    r'(HashMap|HashSet|hash_map|hash_set).*::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|'
    r'into_iter|extract_if)$')
FMT_HASH = re.compile(r'(HashMap|HashSet)')
OKCRATES = {'std', 'core', 'alloc', 'fnv', 'indexmap', 'lazy_static', 'unicode_segmentation', 'whitespace', 'hashbrown',
            'equivalent'}
ROOTS = ['parser::parse', 'parser::parse_repl_line', 'parser::parse_expression', 'resolver::resolve']


def effect_check(ctx, res):
    P = ctx.program('lib')
    for r in ROOTS:
        if r not in P.by_path:
            raise Fail('entry point %s not found' % r)
    # every non-derived library function is a root: a client may call any of them
    fns = [f for f in P.fns if f and f.local and not (f.d.get('derived'))]
    work = list(fns)
    seen = set(f.idx for f in work)
    calls = 0
    while work:
        f = work.pop()
        for b in f.blocks:
            if b is None:
                continue
            for s in b[0]:
                if s[0] == '=':
                    check_rvalue(P, f, s, res)
            t = b[1]
            if t[0] != 'call':
                continue
            c = callee(P, f, t[1])
            if c is None:
                if f.local:
                    res.add(['T03'], 'indirect call in %s' % f.path, '%s:%s' % (f.file, t[5]),
                            'indirect call of unknown target in %s' % f.path)
                continue
            calls += 1
            classify(P, f, c, t, res)
            if 'id' in c and c['id'] not in seen and P.fns[c['id']] is not None:
                g = P.fns[c['id']]
                if g.local or c['kind'] in ('closure_once', 'fnptr_shim'):
                    seen.add(g.idx)
                    work.append(g)
    for it in P.items:
        if it['kind'].startswith('Static'):
            t = it
            if it.get('mutable') or it.get('freeze') is False:
                if 'lazy' in it['path'].lower():
                    continue
                # lazily initialised constant tables are deterministic; anything else is global state
                res.add(['T03'], 'static %s' % it['path'], it['span'], 'static with interior mutability: %s' % it['path'])
    if calls < 700:
        raise Fail('only %d call sites seen' % calls)
    res.coverage['T03'] = {
        'rule': 'no call reachable in the library, through resolved callees and macro expansions, reaches std I/O, '
                'environment, process, time, thread, random or shared-state APIs, an unknown crate, an iteration over a '
                'hash-ordered collection, or formats an address or a hash-ordered collection; no mutable global state',
        'functions': len(seen), 'call_sites': calls,
        'entry_points': ROOTS, 'denied_patterns': len(EFFECT) + 2}


def callee(P, f, o):
    if o[0] == 'k':
        t = P.t(o[1]['ty'])
    else:
        t = P.t(f.locals[o[1][0]])
    return t.get('callee') if t['k'] == 'fndef' else None


def check_rvalue(P, f, s, res):
    r = s[2]
    if r[0] == 'cast' and 'PointerExpose' in r[1]:
        res.add(['T03'], 'address as integer in %s' % f.path, '%s:%s' % (f.file, s[3]), 'an address is turned into a number')


def classify(P, f, c, t, res):
    where = '%s:%s' % (f.file, t[5])
    names = [c['path'], c.get('rpath') or '']
    ks = keys_of(c)
    for pat, why in EFFECT:
        if any(re.search(pat, n) for n in names + ks):
            res.add(['T03'], '%s calls %s' % (f.path, c['path']), where, '%s calls %s: %s' % (f.path, names[1] or names[0], why))
            return
    if any(ORDERED_FREE.search(k) for k in ks):
        res.add(['T03'], '%s iterates %s' % (f.path, c['path']), where,
                '%s iterates over a hash-ordered collection (%s)' % (f.path, c.get('rpath') or c['path']))
        return
    if c['path'].endswith(('IntoIterator::into_iter', 'Argument::<\'_>::new_debug', 'Iterator::next')):
        for ta in c.get('targs', []):
            s = P.t(ta)['s']
            if FMT_HASH.search(s) and not FMT_HASH.search('Fnv') and True:
                res.add(['T03'], '%s enumerates %s' % (f.path, s[:60]), where,
                        '%s enumerates a hash-ordered collection (%s)' % (f.path, s))
                return
    k = c.get('krate')
    if k and k not in OKCRATES:
        res.add(['T03'], '%s calls crate %s' % (f.path, k), where, '%s calls into crate %s' % (f.path, k))
