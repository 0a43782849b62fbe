"""mkseed.py DEF.py: DEF defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, what, demo=python text)]; writes seeded/<id>/."""
import json, os, runpy, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[2:]
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if only and s['id'] not in only:
        continue
    w = tempfile.mkdtemp(prefix='mkseed_')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'list'], stdout=subprocess.DEVNULL)
    subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s' % w, shell=True)
    subprocess.check_call('cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % w, shell=True)
    for f, old, new in s['edits']:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    shutil.rmtree(w)
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# run in the repository root; exit 0 iff the property holds on the demonstrated input\n'
        'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(s['id'])
