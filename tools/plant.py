#!/usr/bin/env python3
"""plant.py [-d | -k] [ids]: -d: which properties are reported with the planted bug; -k: confirm and keep it under seeded/
(default: both, without ids: every plant that is not kept yet). Runs JOBS (4) at a time."""
import json, os, re, subprocess, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plants
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def apply(w, edits):
    sh('git -C %s checkout -q -- . ' % w)
    for f, old, new in edits:
        s = open(w + '/' + f).read()
        if s.count(old) != 1: return 'count %d of the old text in %s' % (s.count(old), f)
        open(w + '/' + f, 'w').write(s.replace(old, new))


def detect(w, prop):
    if prop in ('C02', 'C03', 'C30', 'C31'):
        r = sh('cd %s && DBML_REPO=%s python3 check.py %s | tail -5' % (HERE, w, prop))
    else:
        r = sh('cd %s && ulimit -v 16000000; DBML_REPO=%s python3 lib/check_values.py -p 2>&1 | cut -c1-500 | tail -30' % (HERE, w))
    return r.stdout


def one(w, pid, mode):
    prop, edits, needs, breaks, cases = plants.S[pid]
    out = ['== %s (%s)' % (pid, prop)]
    e = apply(w, edits)
    if e: return '\n'.join(out + [e])
    if 'd' in mode:
        d = detect(w, prop)
        hit = re.search(r'VIOLATED (\[.*?\])', d)
        ok = ("'%s'" % prop in hit.group(1)) if hit else 'VIOLATION' in d
        out.append(('CAUGHT ' if ok else 'MISSED ') + pid + ' ' + (hit.group(1) if hit else ''))
        if not ok: out.append(d[-3000:])
    if 'k' in mode:
        r = subprocess.run(['python3', HERE + '/tools/mkseed.py', pid, prop, needs, breaks], input=cases, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, SEEDWORK=w, **plants.ENV.get(pid, {})))
        out.append(r.stdout[-2500:])
    sh('git -C %s checkout -q -- . ' % w)
    return '\n'.join(out)


def main():
    a = sys.argv[1:]
    mode = 'dk'
    if a and a[0] in ('-d', '-k', '-dk'): mode = a.pop(0)[1:]
    ids = [x for x in a if x in plants.S] or [x for x in plants.S if not os.path.exists(HERE + '/seeded/' + x) and (not a or any(x.startswith(y) for y in a))]
    jobs = int(os.environ.get('JOBS', 4))
    todo, lock = list(ids), threading.Lock()

    def work(i):
        w = '/tmp/seedwork%d' % i
        if not os.path.exists(w): sh('cp -a /tmp/seedwork %s' % w)
        while True:
            with lock:
                if not todo: return
                x = todo.pop(0)
            try: r = one(w, x, mode)
            except Exception as e: r = '== %s %r' % (x, e)
            with lock: print(r, flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
