#!/usr/bin/env python3
"""runseeds.py [ID...]: run every registered check on scratch copies of /repo with each planted bug (development aid)."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    d = tempfile.mkdtemp(prefix='wsrun-')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/r'], check=True)
        subprocess.run(['git', 'apply', '%s/seeded/%s/patch.diff' % (HERE, sid)], cwd=d + '/r', check=True)
        pid = json.load(open('%s/seeded/%s/meta.json' % (HERE, sid)))['property']
        r = subprocess.run([sys.executable, HERE + '/tools/all.py', d + '/r'] + os.environ.get('PIDS', '').split(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        return sid, pid, r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(HERE + '/seeded'))
with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for sid, pid, out in ex.map(one, ids):
        first = next((l for l in out.split('\n') if l.startswith('VIOLATED')), out[-600:])
        v = set(first.replace('VIOLATED:', '').split()) - {'-'}
        print('%s %-28s %s %s' % ('ok  ' if pid in v else '####', sid, pid, first))
        if pid not in v or os.environ.get('V'):
            print(out[:3000])
        sys.stdout.flush()
