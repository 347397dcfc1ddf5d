#!/usr/bin/env python3
"""mut.py FILE [NAME...]: apply each edit listed in FILE to a scratch copy of /repo and run the checks (development aid)."""
import concurrent.futures
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
mod = __import__(os.path.basename(sys.argv[1])[:-3])


def one(e):
    name, edits, expect = e
    d = tempfile.mkdtemp(prefix='wsmut-')
    try:
        subprocess.run(['git', '-C', '/repo', 'archive', '--format=tar', '-o', d + '/a.tar', 'HEAD'], check=True)
        subprocess.run(['tar', 'xf', 'a.tar'], cwd=d, check=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if old not in s:
                return name, expect, 'EDIT DOES NOT APPLY in %s: %r' % (f, old[:60])
            open(p, 'w').write(s.replace(old, new, 1))
        r = subprocess.run([sys.executable, HERE + '/tools/all.py', d] + (os.environ.get('PIDS', '').split()),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        t = ''
        if os.environ.get('TEST'):
            q = subprocess.run(['cargo', 'test', '--offline', '-q'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, CARGO_TARGET_DIR=d + '/target'))
            t = '' if q.returncode == 0 else 'TESTS FAIL\n'
        return name, expect, t + r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


todo = [e for e in mod.EDITS if not sys.argv[2:] or e[0] in sys.argv[2:]]
with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    for name, expect, out in ex.map(one, todo):
        first = next((l for l in out.split('\n') if l.startswith('VIOLATED')), out[:300])
        v = set(first.replace('VIOLATED:', '').split()) - {'-'}
        und = 'UNDECIDED' in out
        good = (expect is None and not v and not und) or (expect is not None and expect in v)
        print('%s %-28s expect=%s %s' % ('ok  ' if good and 'TESTS' not in out else '####', name, expect, first))
        if not good or os.environ.get('V') or 'TESTS' in out:
            print('        ' + out.replace('\n', '\n        ')[:2500])
        sys.stdout.flush()
