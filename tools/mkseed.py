#!/usr/bin/env python3
"""mkseed.py FILE [ID...]: write /verif/seeded/<id>/ for each planted bug described in FILE, after confirming in a scratch
copy of /repo that it builds, passes the tests, and that its demonstration tells the two trees apart (development aid)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
mod = __import__(os.path.basename(sys.argv[1])[:-3])

DEMO_SH = '''#!/bin/bash
# Run with the repository as current directory: builds demo.rs against it in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
scratch=$(mktemp -d /tmp/wsdemo.XXXXXX) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/demo.rs" "$scratch/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock"
cat > "$scratch/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
whitespace = { path = "$repo" }
[workspace]
END
cd "$scratch" && CARGO_TARGET_DIR="$scratch/target" timeout 250 cargo run --offline --quiet
'''
PRE = '''#![allow(unused_imports)]
use whitespace::ast::*;
use whitespace::error::*;
use whitespace::parser;
use whitespace::resolver::Resolver;
use whitespace::scanner::Scanner;
use whitespace::source_loc::SourceLoc;
use whitespace::token::*;

'''


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          env=dict(os.environ, **env))


for s in mod.SEEDS:
    if sys.argv[2:] and s['id'] not in sys.argv[2:]:
        continue
    d = tempfile.mkdtemp(prefix='wsseed-')
    out = os.path.join(HERE, 'seeded', s['id'])
    try:
        sh('git clone -q /repo r', d)
        r = d + '/r'
        os.makedirs(out, exist_ok=True)
        for f, t in (('demo.sh', s.get('demo_sh', DEMO_SH)), ('demo.rs', (s.get('pre', PRE) + s['demo']) if 'demo' in s else None)):
            if t:
                open(os.path.join(out, f), 'w').write(t)
        os.chmod(out + '/demo.sh', 0o755)
        a = sh('bash %s/demo.sh' % out, r)
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            x = open(p).read()
            assert x.count(old) >= 1, (s['id'], f, old)
            open(p, 'w').write(x.replace(old, new, 1))
        open(out + '/patch.diff', 'w').write(sh('git diff', r).stdout)
        t = sh('cargo test --offline -q', r, CARGO_TARGET_DIR=d + '/target')
        b = sh('bash %s/demo.sh' % out, r)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        ok = a.returncode == 0 and t.returncode == 0 and b.returncode != 0
        print('%s %s demo-clean=%d tests=%d demo-patched=%d' % ('ok  ' if ok else '####', s['id'], a.returncode, t.returncode, b.returncode))
        if not ok:
            print(a.stdout[-1500:], t.stdout[-1500:], b.stdout[-1500:])
            shutil.rmtree(out)
        elif os.environ.get('V'):
            print(b.stdout[-500:])
        sys.stdout.flush()
    finally:
        shutil.rmtree(d, ignore_errors=True)
