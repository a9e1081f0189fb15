#!/usr/bin/env python3
"""mkseed.py SPEC.py: plants one bug in a scratch copy of /repo, confirms that it
builds, passes the stable tests and that its demonstration tells it from the
unchanged tree, and keeps it under seeded/. SPEC defines id, property, needs,
breaks, edits [(file, old, new)] and main (Go source of the demonstration)."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from sub import sub
DEMO = '''#!/bin/bash
# exit 0: the library in the current directory behaves; anything else: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$d" -delete' EXIT
mkdir "$d/plc" && cp "$here"/plc/*.go "$d/plc/" && cp "$here/main.go" "$d/"
printf 'module verifharness\\n\\ngo 1.23\\n\\nrequire (\\n\\tgithub.com/danomagnum/gologix v0.0.0\\n\\tgithub.com/npat-efault/crc16 v0.0.0-20161013170008-4128ccbe47c3 // indirect\\n)\\n\\nreplace github.com/danomagnum/gologix => %s\\n' "$repo" > "$d/go.mod"
cp "$repo/go.sum" "$d/"
cd "$d" || exit 3
go build -o demo . || exit 3
timeout 120 ./demo
'''
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod',
           GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')


def stable(repo):
    out = subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', './...'], cwd=repo, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
    ok = set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get('Action') == 'pass' and e.get('Test'):
            ok.add((e['Package'], e['Test']))
    base = json.load(open('/opt/vp/BASELINE.json'))
    return base, ok


def main():
    s = {}
    exec(open(sys.argv[1]).read(), s)
    work = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        repo = work + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        assert subprocess.run(['git', 'status', '--porcelain'], cwd=repo, stdout=subprocess.PIPE).stdout == b''
        for f, old, new in s['edits']:
            # only lines of the original repository
            sub(os.path.join(repo, f), old, new)
        diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE).stdout
        # blame of removed lines
        for f in set(e[0] for e in s['edits']):
            d = subprocess.run(['git', 'diff', '-U0', '--', f], cwd=repo, stdout=subprocess.PIPE, text=True, errors='replace').stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                if n == 0:
                    continue
                b = subprocess.run(['git', 'blame', '-s', '-L', '%d,+%d' % (a, n), 'HEAD', '--', f], cwd='/repo', stdout=subprocess.PIPE, text=True).stdout
                for l in b.splitlines():
                    if not l.startswith('^'):
                        print('NOTE: changes a line of my own:', l)
        b = subprocess.run(['go', 'build', './...'], cwd=repo, env=ENV)
        if b.returncode:
            sys.exit('does not build')
        base, ok = stable(repo)
        names = base['stable'] if isinstance(base, dict) and 'stable' in base else base
        missing = [n for n in flat(names) if not any(match(n, p, t) for p, t in ok)]
        if missing:
            sys.exit('breaks tests %s' % missing[:5])
        dst = os.path.join(ROOT, 'seeded', s['id'])
        tmp = work + '/out'
        os.makedirs(tmp + '/plc')
        for f in ('mem.go', 'plc.go', 'objects.go'):
            shutil.copy(os.path.join(ROOT, 'harness/plc', f), tmp + '/plc')
        open(tmp + '/main.go', 'w').write(s['main'])
        open(tmp + '/demo.sh', 'w').write(s.get('demo', DEMO))
        os.chmod(tmp + '/demo.sh', 0o755)
        good = subprocess.run(['bash', tmp + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = subprocess.run(['bash', tmp + '/demo.sh'], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print('clean:', good.returncode, good.stdout[-300:])
        print('planted:', bad.returncode, bad.stdout[-300:])
        if good.returncode != 0 or bad.returncode in (0, 3):
            sys.exit('the demonstration does not tell them apart')
        open(tmp + '/patch.diff', 'wb').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(tmp, dst)
        print('kept', dst)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def flat(b):
    if isinstance(b, dict):
        for k in ('stable', 'passed', 'pass', 'tests'):
            if k in b:
                return flat(b[k])
        return list(b)
    return list(b)


def match(n, p, t):
    return n in (t, p + '::' + t, p + '.' + t, p + '/' + t, p + ' ' + t)


main()
