#!/usr/bin/env python3
"""seed.py FILE...: makes seeded/<id>/ from definitions (python files with ID, PROPERTY, NEEDS, BREAKS, EDITS, MAIN), after checking
in a scratch copy of /repo that the change builds, passes the tests, and that the demonstration tells it from the unchanged tree"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# a definition with BODY instead of MAIN: statements using the helpers below; IMPORTS are more imports
PRELUDE = '''package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
%s)

var _ = bytes.MinRead

type key = aitch.DynamicValueKey

var failed bool

func render(n aitch.Node, data map[string]any, cargo any) string {
	var w bytes.Buffer
	if err := n.Render(context.New(&w, data, cargo)); err != nil {
		return w.String() + " error: " + err.Error()
	}
	return w.String()
}

func expect(got, want string) {
	if got != want {
		fmt.Printf("got  %%q\\nwant %%q\\n", got, want)
		failed = true
	}
}

func main() {
%s
	if failed {
		os.Exit(1)
	}
}
'''
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 if the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp "$here"/*.go "$d/" && cp "$repo/go.sum" "$d/" || exit 2
cat >"$d/go.mod" <<M
module demo

go 1.23.0

require (
	github.com/go-andiamo/aitch v0.0.0
	golang.org/x/net v0.37.0
)

replace github.com/go-andiamo/aitch => $repo
M
cd "$d" || exit 2
go build%s -o demo . || exit 2
%s./demo
'''
def sh(cmd, cwd):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True)
bad = 0
defs = []
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    defs += ns.get('DEFS', [ns])
for ns in defs:
    tmp = tempfile.mkdtemp(prefix='seed')
    wt = tmp + '/repo'
    subprocess.run(['cp', '-a', '/repo', wt], check=True)
    try:
        ok = True
        for file, old, new in ns['EDITS']:
            s = open(f'{wt}/{file}').read()
            if s.count(old) != 1:
                print(ns['ID'], 'EDIT matches', s.count(old), file, old[:60]); ok = False; continue
            open(f'{wt}/{file}', 'w').write(s.replace(old, new))
        if not ok: bad += 1; continue
        r = sh('gofmt -l . | grep -v _test; go vet ./... && go build ./... && go test ./... 2>&1', wt)
        if r.returncode:
            print(ns['ID'], 'TESTS FAIL', r.stdout[-1500:], r.stderr[-500:]); bad += 1; continue
        d = f'{here}/seeded/{ns["ID"]}'
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(['git', 'diff'], cwd=wt, capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        if 'BODY' in ns:
            ns['MAIN'] = PRELUDE % (''.join('\t"%s"\n' % i for i in ns.get('IMPORTS', [])), ns['BODY']) + ns.get('DECLS', '')
        open(d + '/main.go', 'w').write(ns['MAIN'])
        sh('gofmt -w ' + d + '/main.go', d)
        race = ns.get('RACE')
        open(d + '/demo.sh', 'w').write(DEMO % (' -race' if race else '', 'GORACE=halt_on_error=1 ' if race else ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        c = sh(d + '/demo.sh', '/repo'); p = sh(d + '/demo.sh', wt)
        state = 'ok' if c.returncode == 0 and p.returncode not in (0, 2) else 'DEMO WRONG'
        if state != 'ok':
            bad += 1
            print(ns['ID'], state, 'clean', c.returncode, c.stdout[-500:], c.stderr[-800:], 'patched', p.returncode, p.stdout[-500:], p.stderr[-500:])
            if p.returncode != 0 or True: shutil.rmtree(d)
        else:
            print(ns['ID'], 'ok:', (p.stdout + p.stderr).strip()[:200])
    finally:
        shutil.rmtree(tmp)
sys.exit(bad)
