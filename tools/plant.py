#!/usr/bin/env python3
"""plant.py SPEC.py: try a planted bug in a scratch copy of /repo and keep it in /verif/seeded.

SPEC.py defines id, property, pkg, needs, breaks, edits=[(file, old, new)], demo (go source).
"""
import json, os, runpy, shutil, subprocess, sys
SW = '/tmp/sw'
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def main(spec, notest=False):
    g = runpy.run_path(spec)
    if not os.path.isdir(SW):
        sh(f'cp -a /repo {SW}')
    sh(f'git -C {SW} fetch -q /repo HEAD && git -C {SW} reset -q --hard FETCH_HEAD && git -C {SW} clean -qfd')
    out = f"/verif/seeded/{g['id']}"
    os.makedirs(out, exist_ok=True)
    for f, old, new in g['edits']:
        p = f'{SW}/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = sh(f'git -C {SW} diff')
    open(out + '/patch.diff', 'w').write(d.stdout)
    open(out + '/demo_test.go', 'w').write(g['demo'])
    pkg = g['pkg']
    pre = '' if pkg == '.' else pkg + '/'
    race = '-race ' if g.get('race') else ''
    race = '-race ' if g.get('race') else ''
    open(out + '/demo.sh', 'w').write(f'''#!/bin/bash
# exit 0 when the behaviour holds; run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
echo "{{\\"Replace\\":{{\\"$PWD/{pre}zz_planted_test.go\\":\\"$D/demo_test.go\\"}}}}" > "$T/o.json"
go test {race}-overlay "$T/o.json" -vet=off -count=1 -timeout 120s -run '^TestPlanted$' ./{pkg} > "$T/log" 2>&1
rc=$?
tail -15 "$T/log"
exit $rc
''')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    b = sh(f'cd {SW} && go build ./...')
    if b.returncode:
        print('BUILD', b.stderr[-1500:]); return
    r = sh(f'cd {SW} && bash {out}/demo.sh'); print('patched demo rc', r.returncode); print(r.stdout[-700:])
    c = sh(f'cd /repo && bash {out}/demo.sh'); print('clean demo rc', c.returncode, c.stdout[-800:] if c.returncode else '')
    if not notest:
        s = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + SW)
        open('/tmp/sw_test.sh', 'w').write(s)
        sh('bash /tmp/sw_test.sh /tmp/sw.json')
        bl = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/sw.json'))
        def names(x):
            for k in ('passed', 'stable', 'pass', 'tests'):
                if k in x:
                    return set(x[k])
        m = names(bl) - names(o)
        print('stable tests missing', len(m), sorted(m)[:6])
    sh('/verif/run.sh --build')
    k = sh(f'cd {SW} && /verif/.bin/lochk -repo {SW} -verif /verif -prop {g["property"]} -noevidence')
    print('check rc', k.returncode, (k.stdout + k.stderr)[-900:])
main(sys.argv[1], '--notest' in sys.argv)
