#!/bin/sh
# apply one edit and keep the copy in /tmp/scr/<name>
cd /verif/tools && python3 - "$1" <<'P'
import sys; sys.argv=[sys.argv[0]]+sys.argv[1:]
import edits
exec(open('edits_run.py').read().split('def main')[0].replace('os.path.abspath(__file__)','"/verif/tools/x"'))
n=sys.argv[1]
print(apply(n, edits.R[n] if n in edits.R else edits.M[n][1]))
P
