#!/usr/bin/env python3
"""mkseed.py: reads a seed description (python dict file) and writes seeded/<id>/.
dict: id, property, needs, breaks, edits=[(file, old, new)], demo (C++ source of main)"""
import json, os, subprocess, sys
V = '/verif/seeded'
R = os.environ.get('SEED_REPO', '/repo')
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; non-zero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -UNDEBUG -DPP_ENABLE_ASSERT -include cassert -include algorithm -Iplanner/src "$d/demo.cpp" build/lib/libpathPlanning.a -lflann -llz4 -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
'''
PY = '''#!/bin/bash
# exit 0: the behaviour is right; non-zero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
l=$PWD/build/lib
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cd "$t" && PYTHONPATH=$l PYTHONDONTWRITEBYTECODE=1 timeout 120 /usr/bin/python3 "$d/demo.py"
'''
for f in sys.argv[1:]:
    for s in eval(open(f).read()):
        d = os.path.join(V, s['id'])
        os.makedirs(d, exist_ok=True)
        try:
            for (file, old, new) in s['edits']:
                p = R + '/' + (file if file.startswith('interfaces/') else 'planner/src/' + file)
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], file, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
        finally:
            subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
        open(d + '/patch.diff', 'w').write(diff)
        py = s.get('python')
        open(d + '/demo.sh', 'w').write(PY if py else DEMO.replace('"$d/demo.cpp"', s.get('flags', '') + ' "$d/demo.cpp"'))
        open(d + ('/demo.py' if py else '/demo.cpp'), 'w').write(s['demo'].lstrip())
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
