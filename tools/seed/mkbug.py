#!/usr/bin/env python3
"""mkbug.py FILE.py... : makes /verif/seeded/<id>/ from bug descriptions and confirms each one in scratch copies.

A description file calls bug(id, property, pkg, edits, demo, needs, breaks):
edits are (file, old, new) on /repo; demo is a Go test file placed in pkg through an overlay."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.environ.get('SEEDROOT', '/verif/seeded')
# Tests of two packages depend on the bytes of their binary (the protobuf library varies its text format with
# them): a patch that trips over this is written with VARIANT=k, which also rewords a log message.
VARIANT = int(os.environ.get('VARIANT', '0'))
MSG = ('subscribe/subscribe.go', 'update is not a known type; type is %T')
WORDS = ['update has type %T', 'the update is not of a known type: %T', 'unexpected type %T of an update, it is not sent',
  'update ignored: values of type %T are not notifications and cannot be sent', 'not a notification: %T', 'cannot send a value of type %T to the subscribers',
  'a value of type %T was announced; only notifications are sent to subscribers', 'type %T is not known', 'announced value has the type %T, which no subscriber understands; ignoring it',
  'ignoring %T', 'unknown kind of update (%T)', 'updates are notifications, this one is a %T and is not passed on to any of the registered clients']
DEMO = '''#!/bin/bash
# Runs the test beside this file in package %(pkg)s: passes on the unchanged tree.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$repo" "$here" > "$t/o.json"
exec_() { go test -overlay "$t/o.json" %(flags)s -vet=off -count=1 -timeout 200s -run '^TestZZ' ./%(pkg)s; }
exec_
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
BUGS = []
def bug(id, property, pkg, edits, demo, needs, breaks, flags=''):
    BUGS.append(dict(id=id, property=property, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))

def make(b):
    wt = tempfile.mkdtemp(prefix='wt')
    try:
        sh(f'cp -a /repo/. {wt}/ && git -C {wt} checkout -q -- .')
        for f, old, new in b['edits']:
            p = os.path.join(wt, f); s = open(p).read()
            if s.count(old) != 1: return f'{f}: anchor found {s.count(old)} times: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
        if VARIANT:
            p = os.path.join(wt, MSG[0]); s = open(p).read()
            if s.count(MSG[1]) != 1: return 'no message to reword'
            open(p, 'w').write(s.replace(MSG[1], WORDS[VARIANT - 1]))
        sh(f'cd {wt} && gofmt -w ' + ' '.join({e[0] for e in b['edits']}))
        diff = sh(f'git -C {wt} diff').stdout
        d = os.path.join(ROOT, b['id']); os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO % b); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo_test.go.txt', 'w').write(b['demo'])
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        env = '. /opt/vp/env.sh; '
        r = sh(f'{env} cd {wt} && go build ./... ', executable='/bin/bash')
        if r.returncode: return 'build: ' + r.stdout[-1500:]
        r = sh(f'cd {wt} && {d}/demo.sh', executable='/bin/bash')
        if r.returncode == 0: return 'demo passes with the change'
        fail = r.stdout
        if 'build failed' in fail or '[setup failed]' in fail: return 'demo build: ' + fail[-1500:]
        if not os.environ.get('NOTEST'):
            for k in range(2):
                r = sh(f'{env} cd {wt} && go test -vet=off -count=1 -timeout 3m ./... 2>&1 | grep -v "no test files"', executable='/bin/bash')
                bad = [l for l in r.stdout.splitlines() if l.startswith(('--- FAIL', 'FAIL', 'panic'))]
                if bad: return 'tests fail: ' + '; '.join(bad[:6])
        sh(f'git -C {wt} checkout -q -- .')
        for k in range(3):
            r = sh(f'cd {wt} && {d}/demo.sh', executable='/bin/bash')
            if r.returncode: return 'demo fails on the unchanged tree: ' + r.stdout[-1500:]
        return 'ok: ' + ' | '.join(l.strip() for l in fail.splitlines() if 'zz_demo' in l)[:200]
    finally:
        shutil.rmtree(wt)

for f in sys.argv[1:]: exec(open(f).read())
only = os.environ.get('ONLY', '').split(',') if os.environ.get('ONLY') else None
from concurrent.futures import ThreadPoolExecutor
sel = [b for b in BUGS if not only or b['id'] in only]
with ThreadPoolExecutor(3) as ex:
    for b, r in zip(sel, ex.map(make, sel)):
        print(b['id'], '=>', r, flush=True)
        if not r.startswith('ok'): shutil.rmtree(os.path.join(ROOT, b['id']), ignore_errors=True)
