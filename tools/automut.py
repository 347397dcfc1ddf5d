#!/usr/bin/env python3
"""automut.py OUT FILE...: small mechanical edits of /repo's sources, kept when they compile and pass the tests, and what the checks say
(development aid).  OUT collects one JSON line per surviving edit."""
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {'scanner': ['L%02d' % i for i in range(1, 11)] + ['T01', 'T02'],
         'parser': ['P%02d' % i for i in range(1, 19)] + ['T01', 'T02'],
         'resolver': ['R%02d' % i for i in range(1, 10)] + ['T01', 'T02'],
         'main': ['C01', 'C02', 'C03'], 'error': ['E01', 'C03', 'P07', 'P15', 'R09', 'L07'],
         'token': ['L01', 'L08', 'P02', 'P15', 'E01', 'R01'], 'ast': ['P16', 'P09', 'R01', 'W02', 'P11'], 'environment': ['R03', 'R01', 'R02', 'W02'],
         'source_loc': ['P17', 'L07', 'R09', 'E01'], 'value': ['T03'], 'wasm': ['W01']}
SWAP = [('==', '!='), ('!=', '=='), (' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' < ', ' > '), ('&&', '||'), ('||', '&&'),
        (' + 1', ' + 2'), (' + 1', ''), (' - 1', ''), ('+= 1', '+= 2'), ('-= 1', '-= 2'), ('true', 'false'), ('false', 'true'),
        ('is_some()', 'is_none()'), ('is_none()', 'is_some()'), ('is_ok()', 'is_err()'), ('is_err()', 'is_ok()'), ('.is_empty()', '.len() == 1'),
        ('?;', ';'), ('&& !', '&& '), ('(!', '('), ('if !', 'if '), ('break;', 'continue;'), ('continue;', 'break;'), ('saturating_add', 'wrapping_add'),
        ('push(', 'insert(0, '), ('.iter()', '.iter().rev()'), ('.iter().rev()', '.iter()'), ('.pop()', '.first().cloned()'), ('.last()', '.first()'), ('Indent', 'Outdent')]


def source(path):
    s = open(path).read()
    i = s.find('#[cfg(test)]')
    return s, (len(s) if i < 0 else i)


def edits(name):
    s, end = source('/repo/src/%s.rs' % name)
    out = []
    pos = 0
    for ln in s[:end].splitlines(True):
        t = ln.strip()
        if t and not t.startswith(('//', '#[', 'use ', 'pub mod', 'mod ')):
            code = ln.split('//')[0] if '"//' not in ln and "'/" not in ln and '"/' not in ln else ln
            for a, b in SWAP:
                k = code.find(a)
                while k >= 0:
                    out.append((pos + k, a, b))
                    k = code.find(a, k + 1)
            for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', code):
                n = int(m.group(1))
                out.append((pos + m.start(1), m.group(1), str(n + 1)))
                if n:
                    out.append((pos + m.start(1), m.group(1), str(n - 1)))
            if t.endswith(';') and not t.startswith(('let ', 'return', 'use ', 'pub ', '}', 'const ', ')', '.')) and t.count('(') == t.count(')'):
                out.append((pos, ln, '\n'))
            if re.match(r'.*=> .*,$', t) and t.count('(') == t.count(')') and t.count('{') == t.count('}'):
                out.append((pos, ln, '\n'))
            m = re.match(r'(\s*(?:\} else )?if )(?!let )(.*)( \{\n)$', code)
            if m:
                out.append((pos, ln, m.group(1) + 'true' + m.group(3)))
                out.append((pos, ln, m.group(1) + 'false' + m.group(3)))
            for m in re.finditer(r'(TokenType|Expr|Stmt|BinaryOperator|FunctionType|LogicalOperator|UnaryOperator|VarResolveState|VarState)::(\w+)', code):
                same = sorted(set(re.findall(r'%s::([A-Z]\w+)' % m.group(1), s[:end])) - {m.group(2)})
                r = random.Random(pos + m.start())
                for x in r.sample(same, min(2, len(same))):
                    out.append((pos + m.start(2), m.group(2), x))
        pos += len(ln)
    return s, out


def init(k):
    pass


def work(job):
    name, s, (p, a, b), wid = job
    d = '/tmp/wsauto/w%d' % wid
    assert s[p:p + len(a)] == a
    new = s[:p] + b + s[p + len(a):]
    f = d + '/src/%s.rs' % name
    open(f, 'w').write(new)
    try:
        env = dict(os.environ, CARGO_TARGET_DIR=d + '/target')
        try:
            q = subprocess.run(['cargo', 'test', '--offline', '-q'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=60)
        except subprocess.TimeoutExpired:
            return None
        if q.returncode:
            return None
        try:
            r = subprocess.run([sys.executable, HERE + '/tools/all.py', d] + PROPS[name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=400)
            o = r.stdout
        except subprocess.TimeoutExpired:
            o = 'TIMEOUT'
        first = next((x for x in o.split('\n') if x.startswith('VIOLATED')), o[-300:])
        return {'file': name, 'line': s[:p].count('\n') + 1, 'old': a.strip()[:120], 'new': b.strip()[:120],
                'text': s[s.rfind('\n', 0, p) + 1:s.find('\n', p)].strip(), 'verdict': first, 'und': [x[:200] for x in o.split('\n') if 'UNDECIDED' in x][:4]}
    finally:
        open(f, 'w').write(s)


def run(wid, jobs, out):
    for name, s, e in jobs:
        r = work((name, s, e, wid))
        with open(out, 'a') as f:
            f.write(json.dumps(r or {'dead': 1}) + '\n')


if __name__ == '__main__':
    J = int(os.environ.get('J', '7'))
    limit = int(os.environ.get('LIMIT', '0'))
    os.makedirs('/tmp/wsauto', exist_ok=True)
    jobs = []
    for n in sys.argv[2:]:
        s, es = edits(n)
        es = sorted(set(es))
        if limit and len(es) > limit:
            es = random.Random(int(os.environ.get('SEED', '1'))).sample(es, limit)
        jobs += [(n, s, e) for e in es]
    random.Random(2).shuffle(jobs)
    print(len(jobs), 'edits')
    if os.environ.get('DRY'):
        sys.exit()
    for w in range(J):
        d = '/tmp/wsauto/w%d' % w
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run('git -C /repo archive --format=tar HEAD | tar x -C %s' % d, shell=True, check=True)
    with concurrent.futures.ThreadPoolExecutor(J) as ex:
        for f in [ex.submit(run, w, jobs[w::J], sys.argv[1]) for w in range(J)]:
            f.result()
    shutil.rmtree('/tmp/wsauto', ignore_errors=True)
