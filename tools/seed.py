#!/usr/bin/env python3
"""Plants a bug from a spec file and keeps it only if it is confirmed.

usage: seed.py SPEC...   (each SPEC is ID.spec)

#property C01
#needs ...
#breaks ...
@file
<<<
old
>>>
new
---
%demo DIR            (a Go test file laid over DIR/zz_demo_test.go)
package ...
"""
import json, os, re, shutil, subprocess, sys
REPO, OUT = '/repo', '/verif/seeded'
DEMO = '''#!/bin/bash
# Runs in the repository; lays a test over the module and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/@DIR@/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
TMPDIR=$tmp timeout 250 go test -vet=off -count=1 @FLAGS@ -timeout 200s -overlay "$tmp/overlay.json" -run 'TestDemo' ./@DIR@
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def confirm(spec):
    sid = os.path.basename(spec).removesuffix('.spec')
    txt = open(spec).read()
    head, demo = txt.split('\n%demo ', 1)
    first, demo = demo.split('\n', 1)
    for k, f in (('//HELP', os.path.dirname(os.path.abspath(__file__))+'/help.go.txt'), ('//IMPORT', os.path.dirname(os.path.abspath(__file__))+'/imp.go.txt')):
        if k in demo: demo = demo.replace(k, open(f).read())
    parts = first.split()
    d, flags = parts[0], ' '.join(parts[1:])
    meta = dict(re.findall(r'^#(\w+) (.*)$', head, re.M))
    work = '/tmp/seed_work_%d' % os.getpid()
    shutil.rmtree(work, ignore_errors=True)
    sh(f'cp -a {REPO} {work}', '/')
    sh('git checkout -q -- .', work)
    out = f'{OUT}/{sid}'
    tmpout = f'/tmp/seed_out_{os.getpid()}'
    shutil.rmtree(tmpout, ignore_errors=True); os.makedirs(tmpout)
    try:
        open(f'{tmpout}/demo_test.go.txt', 'w').write(demo)
        open(f'{tmpout}/demo.sh', 'w').write(DEMO.replace('@DIR@', d).replace('@FLAGS@', flags))
        os.chmod(f'{tmpout}/demo.sh', 0o755)
        r = sh(f'bash {tmpout}/demo.sh', work)
        if r.returncode: return f'{sid}: demo fails on the unchanged tree\n{r.stdout[-1500:]}{r.stderr[-1500:]}'
        for f, old, new in re.findall(r'^@(\S+)\n<<<\n(.*?)\n?>>>\n(.*?)\n?---$', head, re.M | re.S):
            s = open(f'{work}/{f}').read()
            if s.count(old) != 1: return f'{sid}: {f}: {s.count(old)} matches for {old[:60]!r}'
            open(f'{work}/{f}', 'w').write(s.replace(old, new))
        patch = sh('git diff', work).stdout
        if not patch: return f'{sid}: no change'
        r = sh('. /opt/vp/env.sh; go build ./... && go vet ./... 2>&1 | grep -v "^#" | head -5', work, executable='/bin/bash')
        if r.returncode: return f'{sid}: build: {r.stdout}{r.stderr}'
        r = sh('. /opt/vp/env.sh; go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files"', work, executable='/bin/bash')
        if 'FAIL' in r.stdout: return f'{sid}: tests fail\n{r.stdout[-2500:]}'
        r = sh(f'bash {tmpout}/demo.sh', work)
        if r.returncode == 0: return f'{sid}: demo passes with the patch'
        # original lines?
        removed = [l for l in patch.splitlines() if l.startswith('-') and not l.startswith('---')]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmpout, out)
        open(f'{out}/patch.diff', 'w').write(patch)
        json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
        # does its check catch it?
        r2 = sh(f'/tmp/checker -repo {work} -out /tmp/ev {meta["property"]}', '/verif')
        v = [l for l in (r2.stdout + r2.stderr).splitlines() if 'VIOLATION' in l or ': [' in l]
        return f'{sid}: kept; {"CAUGHT" if r2.returncode == 1 else "missed"} by {meta["property"]} ({len(removed)} removed lines) {v[:1]}'
    finally:
        shutil.rmtree(work, ignore_errors=True); shutil.rmtree(tmpout, ignore_errors=True)
for s in sys.argv[1:]:
    print(confirm(s), flush=True)
