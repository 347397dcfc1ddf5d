#!/usr/bin/env python3
"""all.py REPO [PID...]: every registered check on one tree, in one process (development aid)."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'analysis'))
sys.setrecursionlimit(20000)
from common import Ctx, load_known  # noqa: E402
import registry  # noqa: E402


def main(repo, pids):
    pids = pids or sorted(registry.PROPS)
    known, _ = load_known(os.path.join(HERE, 'known_findings.txt'))
    ctx = Ctx(HERE, repo, 'quick')
    bad, und, msgs, kn = set(), set(), {}, set()
    try:
        for pid in pids:
            for name in registry.PROPS[pid]['components']:
                try:
                    res = __import__(name).run(ctx, [pid])
                except Exception as e:
                    und.add((pid, '%s: %s: %s' % (name, type(e).__name__, str(e)[-300:])))
                    continue
                for q, n, w in res.undecided:
                    if q == pid:
                        und.add((pid, '%s: %s' % (n, w)))
                for f in res.findings:
                    if pid in f.props:
                        if (pid, f.key) in known:
                            kn.add((pid, f.key))
                            continue
                        bad.add(pid)
                        msgs.setdefault((f.key, f.where, f.message), set()).add(pid)
    finally:
        ctx.cleanup()
    print('VIOLATED:', ' '.join(sorted(bad)) or '-')
    by = {}
    for p, w in sorted(und):
        by.setdefault(w, []).append(p)
    for w, ps in by.items():
        print('UNDECIDED', ' '.join(ps), w[:300])
    for (k, w, m), ps in sorted(msgs.items())[:int(os.environ.get('SHOW', '4'))]:
        print('  ', ','.join(sorted(ps)), w, m[:260])


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2:])
