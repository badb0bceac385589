"""mkseed.py SPEC.py: turn a description of a planted bug (id, prop, needs, breaks, edits, demo) into /verif/seeded/<id>/."""
import sys, os, subprocess, json, tempfile, shutil
g = {}
exec(open(sys.argv[1]).read(), g)
DEMO = '''#!/bin/bash
# exits 0 when the behaviour is right, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
g++ -std=c++14 -O1 -w %s -I/repo/include -I/repo/_build/root/include "$here/demo.cpp" -o "$d/demo" -L/repo/_build/root/lib -lPothos -lPocoFoundation -pthread || exit 3
export LD_LIBRARY_PATH=/repo/_build/root/lib HOME=$d
timeout -s KILL %d "$d/demo" >"$d/out" 2>&1; rc=$?
tail -n 20 "$d/out"
exit $rc
'''
for s in g['SEEDS']:
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(['git', 'clone', '-q', '-s', '/repo', t + '/r'])
    for path, old, new in s['edits']:
        p = t + '/r/' + path
        x = open(p).read()
        assert x.count(old) == 1, (s['id'], path, x.count(old), old)
        open(p, 'w').write(x.replace(old, new))
    diff = subprocess.check_output(['git', '-C', t + '/r', 'diff']).decode()
    shutil.rmtree(t)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO % (s.get('flags', ''), s.get('timeout', 60)))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(s['demo'].lstrip())
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(s['id'], 'ok')
