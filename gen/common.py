"""Shared parts of the checks that drive the generator, the web page and other builds."""
import atexit, json, os, shutil, subprocess, sys, time
from subprocess import TimeoutExpired

ROOT = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
REPO = '/repo'
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()


def scratch(name):
    d = '%s/out/scratch/%s-%d' % (ROOT, name, os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    me = os.getpid()
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(d, ignore_errors=True))
    return d


def log(*a):
    print('  [%.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


class Violations:
    def __init__(self, prop, check):
        self.prop, self.check, self.n = prop, check, 0
        self.known = []
        try:
            for l in open(ROOT + '/known_findings.txt'):
                if l.startswith('finding: property=%s ' % prop):
                    self.known.append(l.strip().split(' ', 2)[2])
        except OSError:
            pass

    def add(self, what, **data):
        key = data.get('key')
        if key and key in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, key))
            return
        self.n += 1
        if self.n > 4:
            return
        os.makedirs(ROOT + '/out/replay', exist_ok=True)
        f = '%s/out/replay/%s-%d.json' % (ROOT, self.prop, self.n)
        data.update(property=self.prop, tier=TIER, what=what, rerun='VERIF_TIER=%s bash run.sh %s' % (TIER, self.prop))
        json.dump(data, open(f, 'w'), indent=1, ensure_ascii=False)
        print('%s: %s' % (self.prop, what))
        print('VIOLATION property=%s replay=%s' % (self.prop, f), flush=True)


def finish(v, level, coverage, assumptions):
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    ev = dict(property=v.prop, tier=TIER, seed=SEED, level=level, coverage=coverage, assumptions=assumptions,
              wall_s=round(time.time() - T0, 2), violations=v.n)
    json.dump(ev, open('%s/evidence/%s.json' % (ROOT, v.prop), 'w'), indent=1, ensure_ascii=False)
    if v.n:
        sys.exit(1)
    nums = ' '.join('%s=%s' % (k, x) for k, x in coverage.items() if isinstance(x, int) and not isinstance(x, bool))
    print('%s %s: held on everything explored; %s (%.1f s)' % (v.prop, TIER, nums, time.time() - T0))
    sys.exit(0)


def broken(why, out=''):
    """The check itself cannot run: neither 0 nor 1"""
    if out:
        print(out, file=sys.stderr)
    print('cannot decide: ' + why, file=sys.stderr)
    sys.exit(2)


def sh(cmd, cwd=None, env=None, timeout=600, input=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, input=input, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


NOBODY = 65534
_drop = None


def can_drop():
    """Whether an unprivileged user reaches the scratch folders"""
    global _drop
    if _drop is None:
        d = scratch('user')
        os.chown(d, NOBODY, NOBODY)
        try:
            _drop = subprocess.run(['/bin/sh', '-c', 'cd "$0" && : > x', d], user=NOBODY, group=NOBODY, extra_groups=[],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        except (OSError, PermissionError, ValueError):
            _drop = False
        shutil.rmtree(d, ignore_errors=True)
    return _drop


def confined(cmd, own, cwd, env=None, timeout=600):
    """Run the code under test as an unprivileged user who owns nothing but the scratch folder `own`"""
    if not can_drop():
        return sh(cmd, cwd=cwd, env=env, timeout=timeout)
    os.lchown(own, NOBODY, NOBODY)
    for p, ds, fs in os.walk(own):
        for x in ds + fs:
            os.lchown(os.path.join(p, x), NOBODY, NOBODY)
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          user=NOBODY, group=NOBODY, extra_groups=[])


def text(r):
    return r.stdout.decode('utf-8', 'replace')


def copy_library(dst):
    """/repo's library sources (no tests of ours, no build output)"""
    os.makedirs(dst, exist_ok=True)
    shutil.copytree(REPO + '/src', dst + '/src')
    for f in ['Cargo.toml', 'Cargo.lock']:
        if os.path.exists(REPO + '/' + f):
            shutil.copy(REPO + '/' + f, dst)


def go_build(src, out):
    """Build the generator in src; its cache is kept in the scratch folder's parent"""
    r = sh(['go', 'build', '-buildvcs=false', '-o', out, '.'], cwd=src)
    if r.returncode:
        broken('the generator does not build', text(r))


def tree(d):
    """Every file below d with its content"""
    m = {}
    for p, ds, fs in os.walk(d):
        for x in ds:
            m[os.path.relpath(os.path.join(p, x), d) + '/'] = None
        for x in fs:
            f = os.path.join(p, x)
            m[os.path.relpath(f, d)] = os.readlink(f) if os.path.islink(f) else open(f, 'rb').read()
    return m
