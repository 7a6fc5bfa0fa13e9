#!/usr/bin/env python3
"""seed.py ID: confirm seeded/ID (patch.diff, demo.sh, meta.json): applies, builds, passes the stable tests, the demo
tells the two trees apart, and report which check catches it.  Works on /repo and restores it."""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def main(i, checks):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    man = {c['property']: c['quick_cmd'] for c in json.load(open(V + '/MANIFEST.json'))['checks']}
    out = {}
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
    r = sh('cd /repo && bash %s/demo.sh' % d)
    out['demo_clean'] = r.returncode
    if r.returncode:
        print(r.stdout[-800:])
    r = sh('git -C /repo apply %s/patch.diff' % d)
    try:
        assert not r.returncode, r.stdout
        r = sh('bash /opt/vp/build.sh')
        out['build'] = r.returncode
        if r.returncode:
            print(r.stdout[-1500:])
        sh('bash /opt/vp/test.sh /tmp/seed_o.json')
        o = json.load(open('/tmp/seed_o.json'))
        out['failing'] = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in o['passed']]
        r = sh('cd /repo && bash %s/demo.sh' % d)
        out['demo_bug'] = r.returncode
        for c in [meta['property']] + checks:
            r = sh('cd %s && %s' % (V, man[c]))
            out['check ' + c] = r.returncode
            print('\n'.join(x[:220] for x in r.stdout.splitlines() if 'violated' in x or 'BROKEN' in x)[:900])
    finally:
        sh('git -C /repo checkout -- .')
    out['ok'] = out['demo_clean'] == 0 and out.get('build') == 0 and not out.get('failing') and out.get('demo_bug') != 0 and out.get('check ' + meta['property']) == 1
    print(i, json.dumps(out))


for a in sys.argv[1:]:
    main(*((a.split(':')[0], a.split(':')[1:])))
sh('bash /opt/vp/build.sh')
