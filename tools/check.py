#!/usr/bin/env python3
"""Build the harness against /repo's working tree and run one property's checks.

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken;
anything else: the check itself could not run."""
import json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CFG = json.load(open(os.path.join(ROOT, 'tools', 'checks.json')))


def main():
    pid = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == '--replay' else None
    cfg = CFG.get(pid, {})
    tier = os.environ.get('VERIF_TIER', 'quick')
    start = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir='/tmp')
    try:
        return run(pid, cfg, tier, scratch, replay, start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, cfg, tier, scratch, replay, start):
    race = cfg.get('race', False)
    binary = os.path.join(scratch, 'props.test')
    build = ['go', 'test', '-c', '-o', binary]
    if race:
        build.insert(2, '-race')
    b = subprocess.run(build + ['./props'], cwd=os.path.join(ROOT, 'harness'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0:
        print(b.stdout[-6000:])
        print('ERROR: the harness does not build against /repo')
        return 2
    env = dict(os.environ)
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    evfile = os.path.join(evdir, pid + '.json')
    if os.path.exists(evfile):
        os.remove(evfile)
    env.update(VERIF_EVIDENCE_DIR=evdir, VERIF_PROPERTY=pid, VERIF_FINDINGS=os.path.join(ROOT, 'known_findings.txt'),
               VERIF_TIER=tier, GORACE='halt_on_error=0 exitcode=66', GOTRACEBACK='all', VERIF_SCRATCH=scratch)
    limit = 800 if tier == 'quick' else 4 * 3600
    cmd = [binary, '-test.run', cfg.get('run', '^Test%s' % pid), '-test.timeout', '%ds' % limit, '-rapid.shrinktime=15s']
    if replay:
        m = re.search(r'(TestC\d\d\w*)', os.path.basename(replay))
        cmd[2] = '^%s$' % m.group(1)
        cmd.append('-rapid.failfile=' + os.path.abspath(replay))
    if cfg.get('netns') and subprocess.run(['unshare', '-Urn', 'sh', '-c', 'ip link set lo up'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
        cmd = ['unshare', '-Urn', 'sh', '-c', 'ip link set lo up && exec "$@"', 'sh'] + cmd
    outpath = os.path.join(scratch, 'out.txt')
    timed_out = False
    with open(outpath, 'w') as f:
        p = subprocess.Popen(cmd, cwd=scratch, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=limit + 30)
        except subprocess.TimeoutExpired:
            timed_out = True
            rc = -1
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
    out = open(outpath, errors='replace').read()
    for l in sorted(set(re.findall(r'^KNOWN-FINDING: .*$', out, re.M))):
        print(l)
    late = timed_out or 'panic: test timed out after' in out
    if late and not re.search('^CASE-FAILED ', out, re.M):
        print(out[-4000:])
        print('ERROR: time limit')
        return 2
    if 'HARNESS-ERROR' in out:
        print(out[-4000:])
        return 2
    if rc == 0:
        if not os.path.exists(evfile):
            print(out[-3000:])
            print('ERROR: no evidence written')
            return 2
        ev = json.load(open(evfile))
        print('%s held: %d cases, %d distinct non-trivial, %.1fs' % (pid, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
        return 0
    # something failed: is it the code under test?
    crashed = re.search(r'^(panic: |fatal error: |SIG|unexpected fault)', out, re.M)
    failed = re.search(r'^\s*--- FAIL', out, re.M)
    raced = 'WARNING: DATA RACE' in out
    repo = os.path.realpath('/repo')
    if late:
        print('a case failed; the time ran out while it was being reduced')
    elif crashed and not failed:
        tail = out[crashed.start():]
        stacks = [b for b in tail.split('\n\n') if b.lstrip().startswith('goroutine ')]
        mine = stacks[0] if stacks else tail
        if repo + '/' not in mine and '/repo/' not in mine and 'danomagnum/gologix' not in mine:
            print(out[-6000:])
            print('ERROR: crash outside the code under test')
            return 2
    elif not failed and not raced:
        print(out[-6000:])
        print('ERROR: unexpected end of the check, code', rc)
        return 2
    rdir = os.path.join(ROOT, 'replays', pid)
    os.makedirs(rdir, exist_ok=True)
    path = None
    for d, _, fs in os.walk(os.path.join(scratch, 'testdata')):
        for fn in sorted(fs):
            if fn.endswith('.fail'):
                path = os.path.join(rdir, fn)
                shutil.copy(os.path.join(d, fn), path)
    log = os.path.join(rdir, 'output-%d.txt' % int(time.time()))
    open(log, 'w').write(out)
    if path is None:
        path = log
    lines = [l[:1500] for l in out.split('\n') if ' draw ' not in l]
    print('\n'.join(lines[:80]))
    if not os.path.exists(evfile):
        json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0) if str(os.environ.get('VERIF_SEED', '0') or 0).lstrip('-').isdigit() else 0,
                   'level': 'exploration', 'coverage': {'evaluations': 1, 'distinct_nontrivial': 1, 'rule': 'the process under test died before the cases were counted', 'samples': [lines[:5]]},
                   'wall_s': time.time() - start, 'violations': 1}, open(evfile, 'w'), indent=1)
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


if __name__ == '__main__':
    sys.exit(main())
