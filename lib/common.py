"""Shared plumbing: paths, MIR dump (built from /repo's current tree), reports."""
import hashlib, json, os, subprocess, sys, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DBML_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
DRIVER = os.path.join(BUILD, 'driver', 'debug', 'mirdump')


class Broken(Exception):
    """the machinery itself could not run (tool error)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_driver():
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(os.path.join(VERIF, 'driver/src/main.rs')):
        return
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'driver'))
    r = sh(['cargo', '+nightly', 'build', '--offline'], cwd=os.path.join(VERIF, 'driver'), env=env)
    if r.returncode != 0 or not os.path.exists(DRIVER):
        raise Broken('driver build failed:\n' + r.stdout[-3000:])


def source_files(root=None):
    root = root or REPO
    fs = []
    for base, dirs, names in os.walk(os.path.join(root, 'src')):
        dirs.sort()
        for n in sorted(names):
            fs.append(os.path.join(base, n))
    for n in ('Cargo.toml', 'Cargo.lock', 'build.rs', 'rust-toolchain', 'rust-toolchain.toml', '.cargo/config.toml'):
        p = os.path.join(root, n)
        if os.path.exists(p):
            fs.append(p)
    return fs


def tree_key(extra='', root=None):
    root = root or REPO
    h = hashlib.sha256()
    for p in source_files(root):
        h.update(os.path.relpath(p, root).encode() + b'\0')
        h.update(open(p, 'rb').read())
        h.update(b'\0')
    h.update(open(os.path.join(VERIF, 'driver/src/main.rs'), 'rb').read())
    h.update(extra.encode())
    return h.hexdigest()[:24]


REFERENCE = os.path.join(VERIF, 'reference')


def dump(features='utils', root=None):
    """resolved MIR of the crate, compiled from the current tree"""
    root = root or REPO
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        build_driver()
        key = tree_key(features + root, root)
        out = os.path.join(BUILD, '%s-%s.json' % ('reference' if root == REFERENCE else 'dump', key))
        if not os.path.exists(out):
            tgt = os.path.join(BUILD, 'target')
            sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
            env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'), RUSTC_WORKSPACE_WRAPPER=DRIVER,
                       MIRDUMP_OUT=out + '.tmp', CARGO_TARGET_DIR=tgt)
            # cargo's freshness cache would skip the wrapper: forget the crate itself
            base = ['--manifest-path', os.path.join(root, 'Cargo.toml'), '--offline']
            sh(['cargo', '+nightly', 'clean', '-p', 'dbml-rs'] + base, env=env)
            cmd = ['cargo', '+nightly', 'check', '--manifest-path', os.path.join(root, 'Cargo.toml'), '--lib', '--offline']
            if os.path.exists(os.path.join(root, 'Cargo.lock')):
                cmd.append('--locked')
            if features:
                cmd += ['--features', features]
            r = sh(cmd, env=env)
            if r.returncode != 0 or not os.path.exists(out + '.tmp'):
                raise Broken('cannot compile the crate for analysis:\n' + r.stdout[-3000:])
            for n in os.listdir(BUILD):
                if n.startswith('dump-') and n.endswith('.json') and time.time() - os.path.getmtime(os.path.join(BUILD, n)) > 3600:
                    os.unlink(os.path.join(BUILD, n))
            os.rename(out + '.tmp', out)
        return json.load(open(out))
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


class Report:
    """what a check analysed and what it found"""

    def __init__(self, prop):
        self.prop = prop
        self.obligations = 0
        self.by_kind = {}
        self.violations = []      # (key, text)
        self.notes = []
        self.samples = []

    def ok(self, kind, text=None, n=1):
        self.obligations += n
        self.by_kind[kind] = self.by_kind.get(kind, 0) + n
        if text and len(self.samples) < 400:
            self.samples.append('%s: %s' % (kind, text))

    def bad(self, kind, key, text):
        self.obligations += 1
        self.by_kind[kind] = self.by_kind.get(kind, 0) + 1
        self.violations.append((key, '%s: %s' % (kind, text)))

    def floor(self, kind, n):
        """fail closed when fewer instances were analysed than confirmed by hand"""
        c = self.by_kind.get(kind, 0)
        if c < n:
            self.violations.append(('floor:' + kind, 'only %d instances of "%s" were found, at least %d are expected' % (c, kind, n)))
