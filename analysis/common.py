"""Shared: getting the dump of the current tree, findings, known findings."""
import fcntl
import json
import os
import shutil
import subprocess
import tempfile
import tomllib

from program import Program


class Fail(Exception):
    """The analysis could not be completed."""


class NoCompile(Fail):
    """The tree does not compile (or the toolchain is missing)."""


class Finding:
    def __init__(self, props, key, where, message):
        self.props = set(props)
        self.key = key
        self.where = where
        self.message = message


class Result:
    def __init__(self):
        self.findings = []
        self.coverage = {}
        self.undecided = []     # (property, unit, reason): part of the source this analysis cannot judge

    def add(self, props, key, where, message):
        self.findings.append(Finding(props, key, where, message))


def load_known(path):
    known, fixed = set(), []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property='):
                rest = line[len('known: property='):]
                pid, key = rest.split(' ', 1)
                known.add((pid, key.split(' -- ')[0].strip()))
            elif line.startswith('fixed:'):
                fixed.append(line)
    return known, fixed


WASM_CFG = '--cfg target_arch="wasm32" --cfg target_os="unknown" -Aexplicit_builtin_cfgs_in_flags'


def toml(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, dict):
        return '{ %s }' % ', '.join('%s = %s' % (json.dumps(k), toml(x)) for k, x in v.items())
    if isinstance(v, list):
        return '[%s]' % ', '.join(toml(x) for x in v)
    return str(v)


class Ctx:
    def __init__(self, here, repo, tier, verbose=False):
        self.here = here
        self.repo = repo
        self.tier = tier
        self.verbose = verbose
        self.tmp = None
        self._prog = {}

    def cleanup(self):
        if self.tmp and os.path.isdir(self.tmp) and os.path.basename(self.tmp).startswith('wsverif-'):
            shutil.rmtree(self.tmp, ignore_errors=True)
        self.tmp = None

    def tmpdir(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='wsverif-')
        return self.tmp

    def driver(self):
        d = os.path.join(self.here, 'driver')
        exe = os.path.join(d, 'target', 'debug', 'mirdump')
        env = dict(os.environ)
        for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
            env.pop(k, None)
        with open(os.path.join(d, '.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            r = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(exe):
            raise NoCompile('driver does not build:\n' + r.stdout[-3000:])
        return exe

    def _dump(self, manifest, extra='', prefix=''):
        exe = self.driver()
        out = os.path.join(self.tmpdir(), 'out')
        os.makedirs(out, exist_ok=True)
        sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True,
                                 check=True).stdout.strip()
        env = dict(os.environ)
        for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
            env.pop(k, None)
        env['LD_LIBRARY_PATH'] = sysroot + '/lib'
        env['MIRDUMP_OUT'] = out
        env['RUSTC_WORKSPACE_WRAPPER'] = exe
        env['CARGO_TARGET_DIR'] = os.path.join(self.tmpdir(), 'target' + prefix)
        if extra:
            env['MIRDUMP_EXTRA_ARGS'] = extra
        if prefix:
            env['MIRDUMP_PREFIX'] = prefix
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--manifest-path', manifest],
                           cwd=self.tmpdir(), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise NoCompile('the tree does not compile:\n' + r.stdout[-3000:])
        return out

    def wasm_manifest(self):
        """A manifest that builds the library with the dependencies of the WebAssembly target on the host."""
        d = os.path.join(self.tmpdir(), 'wasm')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(self.repo, 'Cargo.toml'), 'rb') as f:
            m = tomllib.load(f)
        deps = dict(m.get('dependencies', {}))
        for cfg, t in m.get('target', {}).items():
            if 'wasm' in cfg and 'not' not in cfg:
                deps.update(t.get('dependencies', {}))
        lib = m.get('lib', {})
        out = {'package': {'name': m['package']['name'], 'version': m['package'].get('version', '0.0.0'),
                           'edition': m['package'].get('edition', '2015')},
               'lib': {'path': os.path.join(self.repo, lib.get('path', 'src/lib.rs')), 'crate-type': ['rlib']}}
        if 'name' in lib:
            out['lib']['name'] = lib['name']
        for k, v in deps.items():
            if isinstance(v, dict) and 'path' in v:
                deps[k] = dict(v, path=os.path.join(self.repo, v['path']))
        out['dependencies'] = deps
        if 'features' in m:
            out['features'] = m['features']
        out['workspace'] = {}
        with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
            for sec, t in out.items():
                f.write('[%s]\n' % sec)
                for k, v in t.items():
                    f.write('%s = %s\n' % (k, toml(v)))
        lock = os.path.join(self.repo, 'Cargo.lock')
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
        return os.path.join(d, 'Cargo.toml')

    def program(self, which='lib'):
        if which not in self._prog:
            pre = os.environ.get('VERIF_DUMP')
            if pre and which == 'wasm' and os.path.exists(os.path.join(pre, 'wasm.whitespace.lib.json')):
                self._prog[which] = Program(os.path.join(pre, 'wasm.whitespace.lib.json'))
                return self._prog[which]
            if pre and which in ('lib', 'bin'):
                self._prog[which] = Program(os.path.join(pre, 'whitespace.%s.json' % which))
                return self._prog[which]
            if which in ('lib', 'bin'):
                out = self._dump(os.path.join(self.repo, 'Cargo.toml'))
                for k in ('lib', 'bin'):
                    self._prog[k] = Program(os.path.join(out, 'whitespace.%s.json' % k))
            elif which == 'wasm':
                out = self._dump(self.wasm_manifest(), extra=WASM_CFG, prefix='wasm.')
                self._prog[which] = Program(os.path.join(out, 'wasm.whitespace.lib.json'))
            else:
                raise Fail('unknown program ' + which)
        return self._prog[which]
