#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines S = list of dict(id, prop, needs, breaks, edits=[(file, old, new)], demo='C++ source') ; writes seeded/<id>/"""
import sys, os, json, subprocess, runpy
DEMO = '''#!/bin/bash
# exit 0: the property holds
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r -- "$T"' EXIT
%s
timeout 120 "$T/demo"
'''
PUB = 'g++ -std=c++17 -O1 -w -I/repo "$D/demo.cpp" /repo/_build/libblend2d.so -Wl,-rpath,/repo/_build -lpthread -o "$T/demo" || exit 99'
INT = 'g++ -std=c++17 -O1 -w -fno-exceptions -fno-rtti -DBL_STATIC -DBL_BUILD_NO_JIT -I/repo "$D/demo.cpp" $(find /repo/_build/CMakeFiles/blend2d.dir -name "*.o") -lpthread -ldl -lm -o "$T/demo" || exit 99'
for s in runpy.run_path(sys.argv[1])['S']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
    R = '/tmp/mkseed'; subprocess.run(['rm', '-rf', R]); subprocess.run(['git', 'clone', '-q', '/repo', R], check=True)
    for f, old, new in s['edits']:
        p = R + '/' + f; t = open(p).read(); assert t.count(old) == 1, (s['id'], f, t.count(old)); open(p, 'w').write(t.replace(old, new))
    d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout)
    open(d + '/demo.cpp', 'w').write(s['demo']); open(d + '/demo.sh', 'w').write(DEMO % (INT if s.get('internal') else PUB)); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(s['id']); subprocess.run(['rm', '-rf', R])
