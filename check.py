#!/usr/bin/env python3
"""Runner: python3 check.py <property id> | --setup | --all
Exit 0: property held on everything analysed.  Exit 1 + VIOLATION line: broken.  Exit 2: error of the check."""
import hashlib, importlib, json, os, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
CACHE = os.environ.get('VERIF_CACHE', os.path.join(HERE, '.cache'))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print('command failed:', ' '.join(cmd))
        sys.exit(2)
    return r.stdout


def sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def sysroot():
    return run(['rustc', '+nightly', '--print', 'sysroot']).strip()


def driver():
    src = os.path.join(HERE, 'driver', 'main.rs')
    d = os.path.join(CACHE, 'driver-' + sha([src]))
    if not os.path.exists(d):
        os.makedirs(CACHE, exist_ok=True)
        tmp = d + '.%d' % os.getpid()
        run(['rustc', '+nightly', '--edition', '2024', '-O', src, '-o', tmp])
        os.rename(tmp, d)
    return d


def repo_files():
    out = []
    for base in ('src', 'assets'):
        for r, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            if 'geocoding' in ds:
                ds.remove('geocoding')
            if 'carrier' in ds:
                ds.remove('carrier')
            out += [os.path.join(r, f) for f in sorted(fs)]
    for f in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


class NoFacts(Exception):
    """the compiler itself gave up while the facts were written (not an error of the source)"""


def facts():
    """MIR facts of the current working tree (regenerated whenever any source file changed)"""
    drv = driver()
    key = hashlib.sha256((os.path.basename(drv) + sha(repo_files())).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, 'facts-%s.json' % key)
    if os.path.exists(out):
        return out
    target = os.path.join(CACHE, 'target')
    fp = os.path.join(target, 'debug', '.fingerprint')
    if os.path.isdir(fp):
        import shutil
        for f in os.listdir(fp):
            if f.startswith('phonenumber-'):
                shutil.rmtree(os.path.join(fp, f))
    env = dict(os.environ)
    env['LD_LIBRARY_PATH'] = sysroot() + '/lib'
    env['RUSTC_WORKSPACE_WRAPPER'] = drv
    env['FACTS_OUT'] = out + '.tmp'
    env['CARGO_TARGET_DIR'] = target
    env['CARGO_NET_OFFLINE'] = 'true'
    env.pop('RUSTFLAGS', None)
    r = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline', '--locked'], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        if "thread 'rustc'" in r.stdout and 'panicked at' in r.stdout:
            raise NoFacts([l for l in r.stdout.splitlines() if l.strip()][-1][:200])
        sys.stderr.write(r.stdout[-4000:])
        sys.exit(2)
    if not os.path.exists(out + '.tmp'):
        print('the compiler driver produced no facts')
        sys.exit(2)
    for f in os.listdir(CACHE):
        if f.startswith('facts-') and os.path.join(CACHE, f) != out + '.tmp':
            try:
                os.remove(os.path.join(CACHE, f))
            except OSError:
                pass
    os.rename(out + '.tmp', out)
    return out


class Result:
    def __init__(self):
        self.violations = []      # (key, message)
        self.obligations = 0
        self.discharged = 0
        self.undecided = []       # (key, message)
        self.coverage = {}
        self.samples = []
        self.assumptions = []

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def bad(self, key, msg):
        self.obligations += 1
        if all(k != key for k, _ in self.violations):
            self.violations.append((key, msg))

    def und(self, key, msg=''):
        self.obligations += 1
        if all(k != key for k, _ in self.undecided):
            self.undecided.append((key, msg))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


class Ctx:
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.repo = REPO
        self._F = None
        self.t0 = time.time()

    @property
    def F(self):
        if self._F is None:
            import ai
            self._F = ai.Facts(facts())
        return self._F

    def fn(self, path):
        return self.F.bypath.get(path)


def known(pid):
    ks = {}
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p))['findings']:
            if e['property'] == pid and not e.get('fixed'):
                ks[e['key']] = e
    return ks


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('checks.' + pid.lower())
    ctx = Ctx(tier, seed)
    res = Result()
    try:
        mod.check(ctx, res)
    except NoFacts as e:
        res.und('facts', 'the compiler gave up while the facts were written: %s' % e)
    except Exception as e:
        # the analysis met something it does not understand: nothing is decided beyond what was found so far
        traceback.print_exc(limit=-6, file=sys.stdout)
        res.und('analysis', 'internal error: %r' % (e,))
    kn = known(pid)
    new = [(k, m) for k, m in res.violations if k not in kn]
    old = [(k, m) for k, m in res.violations if k in kn]
    cov = dict(res.coverage)
    cov['obligations'] = res.obligations
    cov['discharged'] = res.discharged
    cov['undecided'] = [('%s: %s' % u)[:600] for u in res.undecided][:60]
    cov['samples'] = res.samples or [str(k) for k in list(cov)[:3]]
    cov['explanation'] = mod.EXPLAIN
    cov['rule'] = mod.RULE
    if mod.LEVEL == 'proof':
        cov['checker_cmd'] = 'python3 /verif/check.py ' + pid
        cov['trusted_base'] = getattr(mod, 'TRUST', TRUST)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUME', [])) + res.assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, m in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, m))
    print('%s: %d obligations, %d discharged, %d undecided, %d violations (%.1fs)' % (
        pid, res.obligations, res.discharged, len(res.undecided), len(new), time.time() - t0))
    for k, m in res.undecided[:20]:
        print('  undecided %s: %s' % (k, m[:300]))
    if new:
        rp = os.path.join(EVID, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for k, m in new:
                f.write('%s\n    %s\n' % (k, m))
        for k, m in new[:20]:
            print('  broken %s: %s' % (k, m[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


TRUST = ['rustc 1.101 nightly front end (MIR as built for cargo check, debug profile)', '/verif/driver (MIR to JSON)',
         '/verif/engine (abstract interpreter, and its models of std, regex, nom, quick-xml, fnv, once_cell, either)']

if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    try:
        if '--setup' in sys.argv:
            print(facts())
            sys.exit(0)
        if '--all' in sys.argv:
            bad = 0
            for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
                r = subprocess.run([sys.executable, os.path.abspath(__file__), c['property']])
                bad += r.returncode != 0
            sys.exit(1 if bad else 0)
        sys.exit(main(a[0]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc(limit=-12, file=sys.stdout)
        print('error of the check')
        sys.exit(2)
