#!/usr/bin/env python3
"""check.py --property ID [--tier quick|thorough]

Decides one property from /repo's current source: compiles it with the
dumping driver (type-checked MIR), analyses the dump, writes
evidence/<ID>.json and reports.  Nothing of /repo is executed.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analysis'))
sys.setrecursionlimit(20000)

from common import Ctx, NoCompile, load_known  # noqa: E402
import registry  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    ctx = Ctx(HERE, os.environ.get('VERIF_REPO', '/repo'), a.tier, a.verbose)
    known, fixed = load_known(os.path.join(HERE, 'known_findings.txt'))
    try:
        comps = registry.PROPS[pid]['components']
        findings = []
        analysed = {}
        und = []
        for name in comps:
            mod = __import__(name)
            try:
                res = mod.run(ctx, [pid])
            except NoCompile:
                raise
            except Exception as e:      # decides nothing: said so, in the output and in the evidence
                traceback.print_exc()
                und.append((name, '%s: %s' % (type(e).__name__, e)))
                continue
            analysed[name] = res.coverage
            und += [(n, w) for q, n, w in res.undecided if q == pid]
            findings += [f for f in res.findings if pid in f.props]
    finally:
        ctx.cleanup()
    seen = set()
    viol, kn = [], []
    for f in findings:
        if f.key in seen:
            continue
        seen.add(f.key)
        (kn if (pid, f.key) in known else viol).append(f)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = registry.evidence(pid, a.tier, analysed, viol, kn, time.time() - t0)
    ev['coverage']['undecided'] = ['%s: %s' % u for u in und]
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write('\n')
    for f in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, f.key + ': ' + f.message.split('\n')[0]))
    for n, w in und:
        print('UNDECIDED property=%s %s was not explored: %s' % (pid, n, w))
    if viol:
        rp = os.path.join(HERE, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as fh:
            for f in viol:
                fh.write('%s\nkey: %s\nwhere: %s\n%s\n\n' % (pid, f.key, f.where, f.message))
        for f in viol:
            print('%s: %s [%s]' % (f.where, f.message, f.key))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s property=%s (%.1fs) %s' % ('UNDECIDED-IN-PART' if und else 'OK', pid, time.time() - t0, registry.summary(analysed)))
    return 0


if __name__ == '__main__':
    sys.exit(main())
