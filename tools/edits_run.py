#!/usr/bin/env python3
"""apply each edit of tools/edits.py to a scratch copy and run the value-graph comparison on it
usage: edits_run.py [-m] [name..]"""
import os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import edits, edits2, edits3, edits4, edits5
BASE = os.environ.get('SCR', '/tmp/scr')


def apply(name, es):
    d = os.path.join(BASE, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n in ('src', 'Cargo.toml', 'Cargo.lock'):
        p = os.path.join('/repo', n)
        (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, os.path.join(d, n))
    for f, a, b in es:
        p = os.path.join(d, f)
        s = open(p).read()
        if a not in s: return 'edit does not apply: %s: %r' % (f, a[:80])
        open(p, 'w').write(s.replace(a, b, 1))
    return d


def main():
    av = sys.argv[1:]
    mut = '-m' in av
    av = [a for a in av if a != '-m']
    t = {k: v[1] for k, v in edits.M.items()} if mut else edits.R
    bad = []
    for name in av or t:
        d = apply(name, t[name])
        if not d.startswith('/'):
            print('!!', name, d)
            continue
        t0 = time.time()
        r = subprocess.run(['python3', os.path.join(HERE, '../lib/check_values.py')], env=dict(os.environ, DBML_REPO=d),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ''
        print('==', name, '%.0fs' % (time.time() - t0), last, flush=True)
        open(os.path.join(BASE, name + '.out'), 'w').write(r.stdout)
        shutil.rmtree(d)
        if ' 0 differ' not in last: bad.append(name)
    print('differ:', bad)


main()
