#!/usr/bin/env python3
"""Checks planted bugs in scratch copies of /repo.

seed.py check ID [--no-run]   patch applies, builds, tests pass, demo tells, and the property's check catches it
seed.py all                   the same for all, with a table at the end
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, t=900, env=None):
    e = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='')
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 124, str(x.stdout)[-2000:]


def check(i, run=True):
    d = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    w = tempfile.mkdtemp(prefix='seed-%s-' % i)
    try:
        a, b = os.path.join(w, 'clean'), os.path.join(w, 'bug')
        for x in (a, b):
            sh(['cp', '-a', '/repo', x], '/')
        dd = os.path.join(w, 'demo')
        os.makedirs(dd)
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy2(os.path.join(d, f), dd)
        rc, o = sh(['git', 'apply', os.path.join(d, 'patch.diff')], b)
        if rc:
            return 'patch does not apply: ' + o
        mods = ['.', 'types/uuid'] if os.path.exists(os.path.join(b, 'types/uuid/go.mod')) else ['.']
        for m in mods:
            rc, o = sh('go build -o /dev/null $(go list ./... | grep -v wasmrs/testing) && go test -vet=off ./... 2>&1', os.path.join(b, m), env={'SHELL': 'bash'}) if False else sh(
                ['bash', '-c', 'go build -o /dev/null $(go list ./... | grep -v -e wasmrs/testing -e /example) && go test -vet=off $(go list ./... | grep -v -e /example)'], os.path.join(b, m))
            fails = set(re.findall(r'--- FAIL: (\S+)', o))
            rc0, o0 = (0, '') if rc == 0 else sh(['bash', '-c', 'go test -vet=off $(go list ./... | grep -v -e /example)'], os.path.join(a, m))
            if fails - set(re.findall(r'--- FAIL: (\S+)', o0)) or (rc and not fails and rc0 == 0):
                return 'build or tests fail: ' + o[-1500:]
        rc, o = sh(['bash', os.path.join(dd, 'demo.sh')], a, 300)
        if rc:
            return 'demo fails on the clean tree: ' + o[-2500:]
        rc, o = sh(['bash', os.path.join(dd, 'demo.sh')], b, 300)
        if rc == 0:
            return 'demo passes with the bug: ' + o[-1500:]
        if not run:
            return 'ok (not run)'
        t = time.time()
        rc, o = sh(['python3', os.path.join(HERE, 'run.py'), meta['property']], HERE, 900, {'VERIF_REPO': b, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
        s = time.time() - t
        if rc == 1 and 'VIOLATION property=%s ' % meta['property'] in o:
            sig = re.findall(r'scenario (.*?\]):', o)
            return 'caught in %.0fs: %s' % (s, '; '.join(sorted(set(sig))[:3]))
        return 'MISSED rc=%d %.0fs %s' % (rc, s, o[-600:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'check':
        for i in sys.argv[2:]:
            if not i.startswith('--'):
                print(i, check(i, '--no-run' not in sys.argv), flush=True)
    else:
        for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
            print(i, check(i), flush=True)
