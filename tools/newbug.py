"""
tools/newbug.py SPEC.py  -- SPEC defines ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python text)
Makes seeded/ID from it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for path in sys.argv[1:]:
    s = runpy.run_path(path)
    wt = '/tmp/newbug-%d' % os.getpid()
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs(wt)
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s; cd %s; git init -q; git add -A; '
                          'git -c user.name=x -c user.email=x commit -qm x' % (wt, wt), shell=True)
    for f, old, new in s['EDITS']:
        p = os.path.join(wt, 'src/oidcmsg', f)
        text = open(p).read()
        if text.count(old) != 1:
            sys.exit('%s: %d matches for %r' % (s['ID'], text.count(old), old))
        open(p, 'w').write(text.replace(old, new))
    d = os.path.join(HERE, 'seeded', s['ID'])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(['git', '-C', wt, 'diff'])
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(s['DEMO'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# run with cwd = the repository
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 1
timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"
''')
    json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(wt)
    print('made', s['ID'])
