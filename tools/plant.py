#!/usr/bin/env python3
"""plant.py ID...: builds /verif/seeded/<ID> from tools/bugs.py and confirms it in a scratch copy
(applies, builds, keeps the stable tests, demo passes without and fails with it)."""
import json, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from bugs import BUGS
SEED = '/verif/seeded'
ENV = '. /opt/vp/env.sh; '
DEMO = '''#!/bin/bash
# runs the demonstration test inside the package (through an overlay: nothing is written in the repository)
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$repo" "$here" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -count=1 -timeout 120s -run '^TestZZDemo$' %(flags)s ./%(pkg)s
'''
def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(['bash', '-c', ENV + cmd], cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main(ids):
    stable = None
    base = json.load(open('/opt/vp/BASELINE.json'))
    for id in ids:
        b = BUGS[id]
        d = f'/tmp/plant.{os.getpid()}.{id}'
        sh(f'rm -rf {d}; git -C /repo status --short | head -1; cp -a /repo {d}')
        out = f'{SEED}/{id}'
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(f'{out}/demo_test.go.txt', 'w').write(b['test'])
        open(f'{out}/demo.sh', 'w').write(DEMO % dict(pkg=b['pkg'], flags=b.get('flags', '')))
        os.chmod(f'{out}/demo.sh', 0o755)
        json.dump({k: b[k] for k in ('property', 'needs', 'what_it_breaks')}, open(f'{out}/meta.json', 'w'), indent=1)
        ok = True
        r = sh(f'bash {out}/demo.sh', cwd=d)
        if r.returncode != 0: ok = False; print(id, 'DEMO FAILS ON BASE', r.stdout[-800:])
        for f, old, new in b['edits']:
            s = open(f'{d}/{f}').read()
            if s.count(old) != 1: print(id, 'EDIT MATCHES', s.count(old), f, repr(old)); ok = False; continue
            open(f'{d}/{f}', 'w').write(s.replace(old, new))
        for f, txt in b.get('new', {}).items(): open(f'{d}/{f}', 'w').write(txt)
        sh('gofmt -l . ; git add -N .', cwd=d)
        p = sh('git diff', cwd=d).stdout
        open(f'{out}/patch.diff', 'w').write(p)
        r = sh('go build ./... && go vet ./' + b['pkg'], cwd=d)
        if r.returncode != 0: print(id, 'BUILD', r.stdout[-600:]); ok = False
        r = sh(f'bash {out}/demo.sh', cwd=d)
        if r.returncode == 0: print(id, 'DEMO PASSES WITH BUG'); ok = False
        if ok and '--notest' not in sys.argv:
            fails = set()
            for k in range(2):
                r = sh('go test -json ./... 2>/dev/null', cwd=d)
                st = {}
                for l in r.stdout.splitlines():
                    try: e = json.loads(l)
                    except Exception: continue
                    if e.get('Test') and e['Action'] in ('pass', 'fail', 'skip'): st[(e['Package'], e['Test'])] = e['Action']
                fails |= {k for k, v in st.items() if v == 'fail'}
            txt = set(base['stable'])
            bad = [f'{p}/{t}' for p, t in fails if f'{p}/{t}' in txt]
            if bad: print(id, 'TESTS FAIL', bad[:5]); ok = False
        sh(f'rm -rf {d}')
        print(id, 'OK' if ok else 'BAD')
        if not ok and '--keep' not in sys.argv: shutil.rmtree(out)
main([a for a in sys.argv[1:] if not a.startswith('--')] or list(BUGS))
