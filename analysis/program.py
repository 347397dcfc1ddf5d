"""The dumped program: functions, types, liveness."""
import json

UNIT = ('tup', ())


class Fn:
    __slots__ = ('idx', 'd', 'path', 'name', 'kind', 'argc', 'locals', 'blocks', 'span', 'local',
                 'file', 'names', 'argnames', '_live', 'impl_self', 'trait', '_loops')

    def __init__(self, idx, d):
        self.idx = idx
        self.d = d
        self.path = d['path']
        self.name = d.get('name')
        self.kind = d['kind']
        self.argc = d['argc']
        self.locals = d['locals']
        self.blocks = d['blocks']
        self.span = d['span']
        self.file = d['span'].rsplit(':', 1)[0]
        self.local = d['local']
        self.names = {l: n for l, n in d['names']}
        self.argnames = [self.names.get(i + 1) for i in range(self.argc)]
        self.impl_self = d.get('impl_self')
        self.trait = d.get('trait')
        self._live = None
        self._loops = None

    # --- liveness of locals at block entry (address-taken locals stay live
    # until their storage ends)
    def live_in(self):
        if self._live is not None:
            return self._live
        nb = len(self.blocks)
        gen = [set() for _ in range(nb)]
        kill = [set() for _ in range(nb)]
        succ = [[] for _ in range(nb)]
        addr = set()

        def use_place(p, g, k):
            l = p[0]
            if l not in k:
                g.add(l)
            for e in p[1]:
                if e[0] == 'i' and e[1] not in k:
                    g.add(e[1])

        def use_op(o, g, k):
            if o[0] in ('c', 'm') and len(o) == 2:
                use_place(o[1], g, k)

        def use_rv(r, g, k):
            h = r[0]
            if h in ('ref', 'raw'):
                use_place(r[1], g, k)
                if '*' not in r[1][1]:
                    addr.add(r[1][0])
            elif h == 'disc':
                use_place(r[1], g, k)
            elif h in ('use', 'rep'):
                use_op(r[1], g, k)
            elif h == 'cast':
                use_op(r[2], g, k)
            elif h == 'bin':
                use_op(r[2], g, k)
                use_op(r[3], g, k)
            elif h == 'un':
                use_op(r[2], g, k)
            elif h == 'agg':
                for o in r[4]:
                    use_op(o, g, k)

        def defp(p, g, k):
            if p[1]:
                use_place(p, g, k)
            else:
                k.add(p[0])

        for bi, b in enumerate(self.blocks):
            if b is None:
                continue
            g, k = gen[bi], kill[bi]
            for s in b[0]:
                if s[0] == '=':
                    use_rv(s[2], g, k)
                    defp(s[1], g, k)
                elif s[0] == 'setd':
                    use_place(s[1], g, k)
                elif s[0] in ('dead', 'live'):
                    k.add(s[1])
            t = b[1]
            if t[0] == 'goto':
                succ[bi] = [t[1]]
            elif t[0] == 'switch':
                use_op(t[1], g, k)
                succ[bi] = [x[1] for x in t[2]] + [t[3]]
            elif t[0] == 'drop':
                succ[bi] = [t[2]]
            elif t[0] == 'call':
                use_op(t[1], g, k)
                for o in t[2]:
                    use_op(o, g, k)
                if t[3][1]:
                    use_place(t[3], g, k)
                else:
                    k.add(t[3][0])
                if t[4] is not None:
                    succ[bi] = [t[4]]
            elif t[0] == 'assert':
                use_op(t[1], g, k)
                for o in t[4]:
                    use_op(o, g, k)
                succ[bi] = [t[5]]
            elif t[0] == 'ret':
                g.add(0)
        live = [set() for _ in range(nb)]
        # storage-dead analysis for address-taken locals: keep simple, treat
        # as live wherever some path reaches a StorageDead or the end.
        changed = True
        while changed:
            changed = False
            for bi in range(nb - 1, -1, -1):
                if self.blocks[bi] is None:
                    continue
                out = set()
                for s in succ[bi]:
                    out |= live[s]
                n = gen[bi] | (out - kill[bi])
                if n != live[bi]:
                    live[bi] = n
                    changed = True
        self._live = (live, addr, succ)
        return self._live


class Program:
    def __init__(self, path):
        with open(path) as f:
            text = f.read()
        # names of the standard library as re-exported for macros
        for a in ('wasm_bindgen::__rt::core::', 'wasm_bindgen::__rt::alloc::', 'wasm_bindgen::__rt::std::'):
            text = text.replace(a, 'std::')
        self.d = json.loads(text)
        self.types = self.d['types']
        self.fns = [Fn(i, f) if f else None for i, f in enumerate(self.d['fns'])]
        self.items = self.d['items']
        self.facts = self.d['facts']
        self.by_path = {}
        for f in self.fns:
            if f and f.kind == 'fn':
                self.by_path.setdefault(f.path, f)
        self.adt_by_path = {}
        for i, t in enumerate(self.types):
            if t.get('k') == 'adt' and t.get('variants'):
                self.adt_by_path.setdefault(t['path'], i)
                if t['path'] == 'std::cmp::Ordering':
                    for v in t['variants']:         # signed, but dumped as a byte
                        v['discr'] = -1 if v['discr'] == 255 else v['discr']

    # --- types
    def t(self, tid):
        return self.types[tid]

    def is_box(self, t):
        return t.get('k') == 'adt' and t['path'] == 'std::boxed::Box'

    def is_stringy(self, t):
        return t.get('k') == 'str' or (t.get('k') == 'adt' and t['path'] == 'std::string::String')

    def strip_box(self, tid):
        while tid is not None and self.is_box(self.types[tid]):
            tid = self.types[tid]['args'][0]
        return tid

    def variants(self, t):
        return [v['name'] for v in t['variants']]

    def variant_by_discr(self, t, d):
        for v in t['variants']:
            if v['discr'] == d:
                return v['name']
        return None

    def vdef(self, t, name):
        for v in t['variants']:
            if v['name'] == name:
                return v
        return None

    def local_fns(self):
        return [f for f in self.fns if f and f.local and f.kind in ('fn', 'closure')]
