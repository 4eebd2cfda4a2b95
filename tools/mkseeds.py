"""python3 tools/mkseeds.py [ID...]: turns the definitions in tools/seeds.py into seeded/<id>/ and confirms each one
against /repo (applied, built, stable tests, demo, the property's check, undone).  --nocheck skips the check."""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds
VERIF = os.path.dirname(HERE)
REPO = '/repo'
DEMO = '''#!/bin/bash
# run in the repository after the build: exit 0 when the property holds in the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g %s-I"$PWD/include" "$here/demo.cpp" "$PWD/_build/libtinygettext.a" -o "$t/demo" || exit 2
cd "$t" && timeout 60 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0, r.stdout


def main(ids, check=True):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    todo = [s for s in seeds.SEEDS if not ids or s['id'] in ids]
    assert not sh('git -C %s status --porcelain' % REPO).stdout.strip(), 'repo not clean'
    ok, out = build()
    assert ok, out
    for s in todo:
        d = '%s/seeded/%s' % (VERIF, s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO % (s.get('flags', '')))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, cwd=REPO)
        for f, old, new in s['edits']:
            p = REPO + '/' + f
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT DOES NOT MATCH', t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new, 1))
        diff = sh('git -C %s diff' % REPO).stdout
        open(d + '/patch.diff', 'w').write(diff)
        ok, out = build()
        if not ok:
            print(s['id'], 'DOES NOT BUILD', out[-800:])
        else:
            r1 = sh('bash %s/demo.sh' % d, cwd=REPO)
            sh('bash /opt/vp/test.sh /tmp/w/t.json')
            t = json.load(open('/tmp/w/t.json'))
            line = '%-28s %s demo clean %d planted %d tests %s' % (
                s['id'], s['property'], r0.returncode, r1.returncode, 'ok' if stable <= set(t['passed']) else 'FAIL')
            if check:
                c = sh('python3 -m tgsa.check %s' % s['property'], cwd=VERIF)
                line += ' check %d %s' % (c.returncode, 'CAUGHT' if c.returncode == 1 else 'missed')
                if c.returncode != 1:
                    line += '\n' + c.stdout[:1500]
                else:
                    line += '  ' + '; '.join(l.strip()[:160] for l in c.stdout.split('\n') if 'violated:' in l)[:330]
            if r0.returncode or not r1.returncode:
                line += '\n  DEMO WRONG ' + r0.stdout[-500:] + r1.stdout[-500:]
            print(line, flush=True)
        sh('git -C %s checkout -- .' % REPO)
    build()


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    main(a, '--nocheck' not in sys.argv)
