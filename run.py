#!/usr/bin/env python3
"""Builds the harness of one property against /repo's working tree, runs it under
its monitors, and turns what they report into a verdict, a replay file and an
evidence file.

usage: run.py ID [--replay FILE] [--keep] [--only SCENARIO] [--repo DIR]

exit 0: held on everything explored; 1: violation (line on stdout); 2: no verdict.
"""
import glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')


def env_go(extra=None):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='', GOSUMDB='off', GOWORK='off', HOME=e.get('HOME', '/root'),
             PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', ''))
    for k in ('GOOS', 'GOARCH', 'GORACE', 'GODEBUG', 'GOMAXPROCS', 'GOGC', 'GOMEMLIMIT'):
        e.pop(k, None)
    if extra:
        e.update(extra)
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


def overlay(build, tmp):
    """Maps the harness sources, and what replaces repository files, into the module."""
    rep = {}
    for base in ('kit', 'yield') + tuple(build.get('libs', ())) + (build['harness'],):
        for f in sorted(glob.glob(os.path.join(HERE, 'h', base, '*.go'))):
            rep[os.path.join(REPO, 'verifh', base, os.path.basename(f))] = f
    for dst, src in build.get('replace', {}).items():
        rep[os.path.join(REPO, dst)] = os.path.join(HERE, src) if src else ''
    pk = build.get('perturb', ())
    if pk:
        tool = os.path.join(tmp, 'perturb')
        r = sh(['go', 'build', '-o', tool, '.'], cwd=os.path.join(HERE, 'tools', 'perturb'), env=env_go())
        if r.returncode:
            raise SystemExit_(2, 'perturb does not build: ' + r.stderr)
        out = os.path.join(tmp, 'perturbed' + build.get('name', ''))
        os.makedirs(out)
        files = []
        for d in pk:
            for f in sorted(glob.glob(os.path.join(REPO, d, '*.go'))):
                if not f.endswith('_test.go') and f not in rep:
                    files.append(f)
        r = sh([tool, out] + files)
        if r.returncode:
            raise SystemExit_(2, 'perturb: ' + r.stderr)
        for line in r.stdout.splitlines():
            a, b = line.split('\t')
            rep[a] = b
    path = os.path.join(tmp, 'overlay%s.json' % build.get('name', ''))
    with open(path, 'w') as f:
        json.dump({'Replace': rep}, f)
    return path


def programs(build, tmp, viol):
    """Builds the programs of the repository that a harness runs."""
    d = os.path.join(tmp, 'programs')
    os.makedirs(d, exist_ok=True)
    for name, mod, pkg in build.get('programs', ()):
        cmd = ['go', 'build', '-race', '-buildvcs=false', '-o', os.path.join(d, name), pkg]
        r = sh(cmd, cwd=os.path.join(REPO, mod), env=env_go())
        sub = build.get('instead', {}).get(name)
        if r.returncode and sub:
            # The harness runs a corrected copy of a program that does not compile.
            viol.append(dict(ev='viol', scn='(build)', sig='a program does not build', detail='%s: %s' % (pkg, r.stderr[-3000:]), build='', **{'yield': 0}))
            ov = os.path.join(tmp, 'instead.json')
            with open(ov, 'w') as f:
                json.dump({'Replace': {os.path.join(REPO, sub[0]): os.path.join(HERE, sub[1])}}, f)
            cmd[2:2] = ['-overlay', ov]
            r = sh(cmd, cwd=os.path.join(REPO, mod), env=env_go())
        if r.returncode:
            raise SystemExit_(2, 'build failed: %s\n%s' % (' '.join(cmd), r.stderr[-4000:]))


def guests(build, tmp):
    """Builds programs for guests for this machine. Those of the repository
    serve the host after their main function, as in a module."""
    d = os.path.join(tmp, 'programs')
    os.makedirs(d, exist_ok=True)
    for name, pkg in build.get('guests', ()):
        rep = {os.path.join(REPO, a): os.path.join(HERE, b) if b else '' for a, b in build['guest_replace'].items()}
        for lib in build['guest_libs'] + ([pkg] if pkg.startswith('verifh/') else []):
            lib = lib.split('/')[-1]
            for f in glob.glob(os.path.join(HERE, 'h', lib, '*.go')):
                rep[os.path.join(REPO, 'verifh', lib, os.path.basename(f))] = f
        if not pkg.startswith('verifh/'):
            src = os.path.join(REPO, pkg, 'main.go')
            text, n = re.subn(r'(?m)^func main\(\)', 'func verifMain()', open(src).read())
            if n != 1:
                raise SystemExit_(2, 'no main function in ' + src)
            for a, b in (('main.go', text), ('zz_verif.go', 'package main\n\nimport "github.com/nanobus/iota/go/transport/wasmrs/guest"\n\nfunc main() {\n\tverifMain()\n\tguest.VerifServe()\n}\n')):
                p = os.path.join(tmp, '%s.%s' % (name, a))
                with open(p, 'w') as f:
                    f.write(b)
                rep[os.path.join(REPO, pkg, a)] = p
        ov = os.path.join(tmp, 'guest-%s.json' % name)
        with open(ov, 'w') as f:
            json.dump({'Replace': rep}, f)
        cmd = ['go', 'build', '-buildvcs=false', '-tags', 'wasi', '-overlay', ov, '-o', os.path.join(d, name), './' + pkg]
        r = sh(cmd, cwd=REPO, env=env_go())
        if r.returncode:
            raise SystemExit_(2, 'build failed: %s\n%s' % (' '.join(cmd), r.stderr[-4000:]))


class SystemExit_(Exception):
    def __init__(self, code, msg):
        self.code, self.msg = code, msg


def compile_(build, tmp):
    ov = overlay(build, tmp)
    binp = os.path.join(tmp, 'harness' + build.get('name', ''))
    cmd = ['go', 'build', '-buildvcs=false', '-overlay', ov, '-o', binp]
    if build.get('race'):
        cmd.append('-race')
    if build.get('tags'):
        cmd += ['-tags', build['tags']]
    if build.get('gcflags'):
        cmd += ['-gcflags', build['gcflags']]
    cmd.append('./verifh/' + build['harness'])
    r = sh(cmd, cwd=REPO, env=env_go(build.get('goenv')))
    if r.returncode:
        raise SystemExit_(2, 'build failed: %s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
    return binp


RACE = 'WARNING: DATA RACE'


def races(logs):
    seen, reps = set(), []
    for p in logs:
        text = open(p, errors='replace').read()
        for blk in text.split('==================')[0:]:
            if RACE not in blk:
                continue
            key = re.sub(r'0x[0-9a-f]+|goroutine \d+|:\d+( \+0x\S*)?', '', blk, flags=re.I)
            key = tuple(l.strip() for l in key.splitlines() if l.startswith('  '))[:12]
            if key in seen:
                continue
            seen.add(key)
            reps.append(blk.strip())
    return reps


def first_panic(err):
    for pat in (r'^(fatal error: .*)$', r'^(panic: .*)$', r'^(unexpected fault address.*)$', r'^(SIGSEGV.*)$', r'^(runtime: .*)$'):
        m = re.search(pat, err, re.M)
        if m:
            return m.group(1)[:300]
    return ''


def run_build(binp, build, tmp, seed, tier, only, deadline):
    """Runs the harness to its end, restarting it after the scenario that crashed."""
    name = build.get('name', '')
    viol, inconclusive = [], []
    tot = dict(evaluations=0, distinct=0, counters={}, samples=[])
    cfg = {}
    start_from, crashes, scn_s = 0, 0, []
    while True:
        outp = os.path.join(tmp, 'out%s.%d.jsonl' % (name, crashes))
        errp = os.path.join(tmp, 'err%s.%d' % (name, crashes))
        e = env_go(dict(VERIF_OUT=outp, VERIF_BUILD=name, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_FROM=str(start_from),
                        GORACE='log_path=%s halt_on_error=0 exitcode=0 history_size=2' % os.path.join(tmp, 'race%s.%d' % (name, crashes)),
                        GOTRACEBACK='all'))
        if only:
            e['VERIF_ONLY'] = only
        if build.get('programs') or build.get('guests'):
            e['VERIF_PROGRAMS'] = os.path.join(tmp, 'programs')
        scratch = os.path.join(tmp, 'scratch%s.%d' % (name, crashes))
        os.makedirs(scratch)

        def limits():
            os.setsid()
            if not build.get('race'):
                lim = build.get('mem', 6 << 30)
                resource.setrlimit(resource.RLIMIT_AS, (lim, lim))

        with open(errp, 'wb') as ef:
            pr = subprocess.Popen([binp], cwd=scratch, env=e, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, preexec_fn=limits)
            timed_out = False
            try:
                rc = pr.wait(timeout=max(5, deadline - time.time()))
            except subprocess.TimeoutExpired:
                timed_out = True
                rc = None
            try:
                os.killpg(pr.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            pr.wait()
        err = open(errp, errors='replace').read()
        cur, done, n_v = None, False, 0
        if os.path.exists(outp):
            for line in open(outp, errors='replace'):
                try:
                    ev = json.loads(line)
                except ValueError:
                    continue
                k = ev.get('ev')
                if k == 'config':
                    cfg = ev
                elif k == 'begin':
                    cur = ev
                elif k == 'end':
                    scn_s.append((ev['scn'], ev.get('yield', 0), round(ev['s'], 2)))
                    cur = None
                elif k == 'viol':
                    ev['build'] = name
                    viol.append(ev)
                    n_v += 1
                elif k == 'inconclusive':
                    inconclusive.append(ev)
                elif k in ('done', 'partial'):
                    done = done or k == 'done'
                    tot['evaluations'] += ev['evaluations']
                    tot['distinct'] += ev['distinct']
                    for a, b in ev['counters'].items():
                        tot['counters'][a] = tot['counters'].get(a, 0) + b
                    tot['samples'] += ev['samples'] or []
        if timed_out:
            inconclusive.append(dict(scn=(cur or {}).get('scn'), detail='out of time'))
            break
        if done and rc == 0:
            break
        # the process died
        crashes += 1
        if rc != 97 or not n_v:  # 97: the watchdog has reported its own violation
            what = first_panic(err)
            if cur is None and not cfg:
                inconclusive.append(dict(scn=None, detail='harness did not start: rc=%s %s' % (rc, err[-2000:])))
                break
            viol.append(dict(ev='viol', scn=(cur or {}).get('scn', '?'), sig='crash', build=name, **{'yield': (cur or {}).get('yield', 0)},
                             detail='process ended with rc=%s: %s\n%s' % (rc, what, err[:5000])))
        if cur is None or crashes >= 3 or len(viol) >= 4:
            break
        start_from = cur['i'] + 1
    for rep in races(sorted(glob.glob(os.path.join(tmp, 'race%s.*' % name)))):
        # What each of the two accesses was made by: the innermost frame that is
        # neither the standard library's nor another module's. Two accesses of the
        # harness are its own business.
        made = []
        for acc in re.split(r'\n\s*\n', rep)[:2]:
            fs = [f for f in re.findall(r'^\s+(/\S+\.go):\d+', acc, re.M) if f.startswith(REPO + '/') or '/verif/' in f or f.startswith('/tmp/verif-')]
            made.append(bool(fs) and '/verifh/' not in fs[0])
        rec = dict(ev='viol', scn='(race detector)', sig='data race', build=name, detail=rep[:6000], **{'yield': 0})
        if any(made):
            viol.append(rec)
        else:
            print('NOTE: race within the harness\n' + rep[:4000], file=sys.stderr)
    return cfg, tot, viol, inconclusive, scn_s


def known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) scenario="([^"]*)" sig="([^"]*)" match="([^"]*)" (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def main():
    prop = sys.argv[1]
    replay = only = None
    keep = '--keep' in sys.argv
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--replay' in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        only = replay['scn'] if not replay['scn'].startswith('(') else None
        seed, tier = replay['seed'], replay['tier']
    chk = CHECKS[prop]
    t0 = time.time()
    limit = 840 if tier == 'quick' else 6 * 3600
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    viol, inconc, counters, samples, steps = [], [], {}, [], []
    ev = dict(evaluations=0, distinct=0)
    cfg = {}
    try:
        try:
            for build in chk['builds']:
                programs(build, tmp, viol)
                guests(build, tmp)
                b = compile_(build, tmp)
                c, tot, v, inc, s = run_build(b, build, tmp, seed, tier, only, t0 + limit)
                cfg = c or cfg
                viol += v
                inconc += inc
                steps += s
                ev['evaluations'] += tot['evaluations']
                ev['distinct'] += tot['distinct']
                samples += tot['samples']
                for k, n in tot['counters'].items():
                    counters[k] = counters.get(k, 0) + n
                if len(viol) >= 4:
                    break
        except SystemExit_ as e:
            print('ERROR: ' + e.msg)
            return e.code
    finally:
        if keep:
            print('kept', tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    fresh, hit = [], set()
    kn = known(prop)
    for v in viol:
        for i, (scn, sig, match, desc) in enumerate(kn):
            if v['scn'] == scn and v['sig'] == sig and match in v['detail']:
                hit.add(i)
                break
        else:
            fresh.append(v)
    if not only:
        evid = dict(property=prop, tier=tier, seed=seed, level='exploration',
                    coverage=dict(evaluations=ev['evaluations'], distinct_nontrivial=ev['distinct'], rule=cfg.get('rule', ''),
                                  samples=samples[:40], observed=counters,
                                  scenarios=['%s (yield %s): %ss' % s for s in steps]),
                    assumptions=cfg.get('assumptions') or [], wall_s=round(time.time() - t0, 2), violations=len(viol))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        p = os.path.join(HERE, 'evidence', prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(evid, f, indent=1)
        os.replace(p + '.tmp', p)
    for i, (scn, sig, match, desc) in enumerate(kn):
        print('KNOWN-FINDING: property=%s %s' % (prop, desc))
    for n in inconc:
        print('inconclusive: %s: %s' % (n.get('scn'), n.get('detail')))
    if fresh:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for i, v in enumerate(fresh[:6]):
            p = os.path.join(HERE, 'replays', '%s-%d.json' % (prop, i))
            v.update(property=prop, seed=seed, tier=tier, replay='python3 run.py %s --replay %s' % (prop, p))
            with open(p, 'w') as f:
                json.dump(v, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, p))
            print('  scenario %s [%s]: %s' % (v['scn'], v['sig'], v['detail'][:1500].replace('\n', '\n    ')))
        return 1
    if inconc:
        return 2
    print('property %s held: %d evaluations, %d distinct, observed %s, %.1fs' % (prop, ev['evaluations'], ev['distinct'], counters, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
