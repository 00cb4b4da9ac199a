#!/usr/bin/env python3
"""mkseed.py <id> <property> : takes the diff of /tmp/seedwork (a copy of /repo with the planted bug), the cases
from stdin and checks: builds, stable tests pass, demo fails with the patch and passes without; then stores it."""
import json, os, subprocess, sys, shutil
sid, prop, needs, breaks = sys.argv[1:5]
W = os.environ.get('SEEDWORK', '/tmp/seedwork')
cases = sys.stdin.read()
out = '/verif/seeded/' + sid


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


d = subprocess.run('git -C %s diff -- src' % W, shell=True, stdout=subprocess.PIPE, text=True).stdout
if not d.strip():
    sys.exit('no change in %s' % W)
os.makedirs(out, exist_ok=True)
open(out + '/patch.diff', 'w').write(d)
custom = os.environ.get('SEED_MAIN')
shutil.copy('/verif/tools/seedkit/demo.sh', out + '/demo.sh')
shutil.copy(custom or '/verif/tools/seedkit/main.rs', out + '/main.rs')
if os.environ.get('SEED_DEMO'):
    shutil.copy(os.environ['SEED_DEMO'], out + '/demo.sh')
os.chmod(out + '/demo.sh', 0o755)
open(out + '/cases.txt', 'w').write(cases)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
fail = []
r = sh('cd %s && cargo test --workspace --offline -q 2>&1 | tail -15; cargo check --offline --all-features -q 2>&1 | grep -E "^error" ' % W)
import re
if 'error' in r.stdout.lower() and 'could not compile' in r.stdout: fail.append('build: ' + r.stdout[-800:])
t = sh(r'cd %s && cargo test --workspace --offline 2>&1 | grep -E "^test .*\.\.\. FAILED|could not compile"' % W).stdout
if t.strip(): fail.append('tests: ' + t)
r = sh('cd %s && bash %s/demo.sh' % (W, out))
if r.returncode == 0: fail.append('demo passes with the patch')
else: print('with patch (%d): %s' % (r.returncode, r.stdout[-700:]))
r = sh('cd /repo && bash %s/demo.sh' % out)
if r.returncode != 0: fail.append('demo fails on the unchanged tree: ' + r.stdout[-700:])
r = sh('git -C /repo apply --check %s/patch.diff' % out)
if r.returncode: fail.append('patch does not apply: ' + r.stdout)
sh('git -C %s checkout -- .' % W)
if fail:
    shutil.rmtree(out)
    print('REJECTED', sid, *fail, sep='\n')
    sys.exit(1)
print('kept', sid)
