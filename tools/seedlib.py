"""Writes the planted bugs of /verif/seeded from edits in tools/seeds_*.py.
usage: python3 tools/seedlib.py [ID...]"""
import sys, os, subprocess, json, shutil, glob, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'a9e5b30'
SEEDS = []

def seed(id, prop, needs, breaks, edits, demo, imports=()):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, imports=imports))

DEMO_SH = '''#!/bin/bash
# exit 0: the property holds for the case of demo_test.go, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$PWD/zz_demo_test.go\\": \\"$here/demo_test.go\\"}}" >"$t/overlay.json"
go test -vet=off -count=1 RACE-overlay "$t/overlay.json" -run '^TestDemo$' .
'''

MOD = 'github.com/qjebbs/go-sqlf/v2'
PKG = {'sqlf.': MOD, 'sqlb.': MOD + '/sqlb', 'util.': MOD + '/util', 'syntax.': MOD + '/syntax',
       'errors.': 'errors', 'fmt.': 'fmt', 'sync.': 'sync', 'strings.': 'strings', 'reflect.': 'reflect',
       'sql.': 'database/sql', 'driver.': 'database/sql/driver', 'time.': 'time', 'io.': 'io', 'context.': 'context',
       'runtime.': 'runtime', 'math.': 'math', 'log.': 'log', 'bytes.': 'bytes', 'os.': 'os'}

def run(*a, **k):
    return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout

def write(s):
    d = '/tmp/seedgen'
    shutil.rmtree(d, ignore_errors=True)
    run('git', 'clone', '-q', '/repo', d)
    for path, old, new in s['edits']:
        p = os.path.join(d, path)
        t = open(p).read() if os.path.exists(p) else ''
        assert t.count(old) == 1 or (old == '' and t == ''), (s['id'], path, t.count(old), old)
        open(p, 'w').write(t.replace(old, new) if old else new)
    run('git', 'add', '-AN', cwd=d)
    r = subprocess.run(['/opt/veriftools/go1.27.3/bin/gofmt', '-l', '.'], cwd=d, capture_output=True, text=True)
    if r.stdout or r.stderr: print(s['id'], 'gofmt:', r.stdout, r.stderr)
    diff = run('git', 'diff', cwd=d)
    # at least one removed line of the base commit
    n = 0
    for f in {e[0] for e in s['edits']}:
        if not os.path.exists('/repo/' + f): continue
        blame = run('git', 'blame', '-s', f, cwd='/repo').splitlines()
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?', run('git', 'diff', '-U0', '--', f, cwd=d), re.M):
            a, c = int(m[1]), int(m[2] or 1)
            n += sum(blame[i - 1].startswith('^') for i in range(a, a + c))
    if n == 0: print(s['id'], 'changes no line of the base commit')
    out = os.path.join(ROOT, 'seeded', s['id'])
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    race = '-race ' if s['demo'].startswith('//race') else ''
    open(out + '/demo.sh', 'w').write(DEMO_SH.replace('RACE', race))
    os.chmod(out + '/demo.sh', 0o755)
    imps = sorted({v for k, v in PKG.items() if re.search(r'(?<![\w.])' + re.escape(k), s['demo'])} | {'testing'} | set(s['imports']))
    body = 'package sqlf_test\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in imps) + ')\n\n' + s['demo'].strip() + '\n'
    body = subprocess.run(['/opt/veriftools/go1.27.3/bin/gofmt'], input=body, capture_output=True, text=True)
    if body.stderr: print(s['id'], body.stderr)
    open(out + '/demo_test.go', 'w').write(body.stdout)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)

if __name__ == '__main__':
    sys.modules['seedlib'] = sys.modules['__main__']
    sys.path.insert(0, os.path.join(ROOT, 'tools'))
    for f in sorted(glob.glob(ROOT + '/tools/seeds_*.py')):
        __import__(os.path.basename(f)[:-3])
    for s in SEEDS:
        if len(sys.argv) == 1 or s['id'] in sys.argv[1:]:
            write(s)
