#!/usr/bin/env python3
"""mkseed.py ID PROPERTY spec.py: spec defines edits=[(file, old, new)], needs, breaks, demo (C++ main)"""
import json
import os
import subprocess
import sys
R = os.environ.get('MKREPO', '/repo')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, spec = sys.argv[1:4]
g = {}
exec(open(spec).read(), g)
d = os.path.join(V, 'seeded', i)
os.makedirs(d, exist_ok=True)
for f, old, new in g['edits']:
    p = R + '/' + f
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, 'w').write(s.replace(old, new))
open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE, text=True).stdout)
subprocess.run(['git', '-C', R, 'checkout', '--', '.'])
open(d + '/demo.cpp', 'w').write(g['demo'])
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# builds the small program beside this script against the library and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
g++ -std=c++14 -O1 -w %s -I. "$D/demo.cpp" $(find _build_noeigen -name '*.a') -o "$T/demo" || exit 2
cd "$T" && ./demo
''' % g.get('flags', ''))
json.dump({'property': prop, 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
