#!/usr/bin/env python3
"""seed.py ID...: builds /verif/seeded/<ID> from tools/seeds/<ID>.txt and confirms it in a scratch copy.

The description file: first line "property: X", then "needs:", "breaks:", then blocks
  == file
  <<<
  old
  ===
  new
  >>>
and "== demo [pkgdir] [race]" followed by the demo test up to the end of the file."""
import sys, os, re, json, subprocess, shutil, tempfile
V = '/verif'
ENV = dict(os.environ)
for l in open('/opt/vp/env.sh'):
    m = re.match(r'export (\w+)=(.*)', l.strip())
    if m: ENV[m[1]] = m[2]
DEMO = '''#!/bin/sh
# runs in the library's directory: exit 0 when the property holds for the inputs of demo_test.go
d=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%szz_seeded_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
%sgo test -overlay "$t/overlay.json" -run '^TestSeededDemo$' -count=1 -vet=off %s./%s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def base_lines(f):
    r = subprocess.run(['git', '-C', '/repo', 'show', 'b4d3f82:' + f], stdout=subprocess.PIPE, text=True)
    return set(r.stdout.split('\n'))
def build(i):
    t = open(f'{V}/tools/seeds/{i}.txt').read()
    head, demo = re.split(r'^== demo.*\n', t, maxsplit=1, flags=re.M)
    dm = re.search(r'^== demo(.*)$', t, re.M)[1].split()
    pkg = next((x for x in dm if x != 'race'), '.')
    race = 'race' in dm
    prop = re.search(r'^property: (.*)$', head, re.M)[1]
    needs = re.search(r'^needs: (.*)$', head, re.M)[1]
    breaks = re.search(r'^breaks: (.*)$', head, re.M)[1]
    w = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        sh(f'cp -a /repo {w}/r', '/')
        r = w + '/r'
        for m in re.finditer(r'^== (\S+)\n((?:<<<\n.*?\n===\n.*?>>>\n)+)', head, re.M | re.S):
            f = m[1]
            s = open(f'{r}/{f}').read()
            for e in re.finditer(r'<<<\n(.*?\n)===\n(.*?)>>>\n', m[2], re.S):
                if s.count(e[1]) != 1:
                    return f'{i}: old text found {s.count(e[1])} times in {f}:\n{e[1]}'
                s = s.replace(e[1], e[2])
            open(f'{r}/{f}', 'w').write(s)
        d = sh('git diff', r).stdout
        if not d.strip():
            return f'{i}: empty patch'
        # which removed lines are of the original
        cur = None; ok = False; own = []
        for l in d.split('\n'):
            if l.startswith('--- a/'): cur = base_lines(l[6:])
            elif l.startswith('-') and not l.startswith('---'):
                if l[1:] in cur and l[1:].strip() not in ('', '}', '{'): ok = True
                elif l[1:] not in cur: own.append(l)
        if not ok or own:
            return f'{i}: changes lines that are not original: {own} {ok}'
        o = f'{V}/seeded/{i}'
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(d)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
        open(o + '/demo_test.go', 'w').write(demo)
        open(o + '/demo.sh', 'w').write(DEMO % ('' if pkg == '.' else pkg + '/', 'CGO_ENABLED=1 ' if race else '', '-race ' if race else '', '' if pkg == '.' else pkg))
        os.chmod(o + '/demo.sh', 0o755)
        b = sh('gofmt -l . | grep -v -e ^doc.go -e ^stmt/set.go ; go build ./... && go vet ./... && go test ./... 2>&1 | grep -v "no test files" | tail -30', r)
        if 'FAIL' in b.stdout or 'rror' in b.stdout or '.go' in b.stdout:
            return f'{i}: build or tests: {b.stdout[-1500:]}'
        x = sh(f'sh {o}/demo.sh', r)
        if x.returncode == 0:
            return f'{i}: demo does not fail with the patch'
        y = sh(f'sh {o}/demo.sh', '/repo')
        if y.returncode != 0:
            return f'{i}: demo fails without the patch: {y.stdout[-1500:]}'
        return f'{i}: ok   ({[l for l in x.stdout.splitlines() if l.strip()][:3]})'
    finally:
        shutil.rmtree(w)
for i in sys.argv[1:]:
    print(build(i), flush=True)
