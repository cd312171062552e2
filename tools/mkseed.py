"""mkseed.py ID PROPERTY FILE <<< JSON {old,new,needs,breaks} : write seeded/ID/patch.diff + meta.json (demo.sh by hand)"""
import json, os, shutil, subprocess, sys, tempfile
W = tempfile.mkdtemp()
subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', W + '/r'])
sid, prop = sys.argv[1:3]
j = eval(sys.stdin.read())
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
for f, old, new in j['edits']:
    p = W + '/r/' + f
    t = open(p).read()
    assert t.count(old) == 1, (f, t.count(old), old)
    open(p, 'w').write(t.replace(old, new))
diff = subprocess.check_output(['git', '-C', W + '/r', 'diff']).decode()
shutil.rmtree(W)
open(d + '/patch.diff', 'w').write(diff)
json.dump({'property': prop, 'needs': j['needs'], 'what_it_breaks': j['breaks']}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.sh', 'w').write('#!/bin/bash\nset -e\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                'W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\n'
                                'cd /repo && exec_py() { PYTHONPATH=/repo /opt/venv/bin/python -W ignore "$D/demo.py" "$W"; }\nexec_py\n')
open(d + '/demo.py', 'w').write('import os, sys, tempfile\nW = sys.argv[1]\n' + j['demo'])
