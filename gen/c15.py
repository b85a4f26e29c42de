"""C15: the committed fonts behave like the ones the generator makes of the committed sources."""
import json, os, shutil
from common import *

FONTS = ['emoji', 'hanzi', 'bold', 'regular', 'small']


def main():
    v = Violations('C15', 'committed fonts')
    d = scratch('C15')
    repo = d + '/repo'
    copy_library(repo)
    shutil.copytree(REPO + '/codegen', repo + '/codegen')
    go_build(repo + '/codegen', d + '/gen')
    conf = json.load(open(repo + '/codegen/config.json'))
    outs = [os.path.normpath(repo + '/codegen/' + g['rustout']) for g in conf['glyphSets']]
    for o in outs:
        if not os.path.relpath(o, repo).startswith('src/fonts/'):
            v.add('the configuration writes outside src/fonts: ' + os.path.relpath(o, repo))
        elif os.path.exists(o):
            os.remove(o)
    if v.n:
        finish(v, 'exploration', {'explanation': 'stopped'}, [])
    runs = []
    for k in range(2 if TIER == 'quick' else 5):
        before = tree(repo)
        r = confined([d + '/gen', '--write'], repo, cwd=repo + '/codegen')
        after = tree(repo)
        if r.returncode:
            v.add('the generator fails on the committed sources', output=text(r)[-3000:])
            finish(v, 'exploration', {'explanation': 'stopped'}, [])
        changed = [f for f in after if after[f] != before.get(f)] + [f for f in before if f not in after]
        extra = [f for f in changed if repo + '/' + f not in outs]
        if extra:
            v.add('the generator changes files that are not outputs of its configuration', files=extra)
        runs.append([open(o, 'rb').read() if os.path.exists(o) else None for o in outs])
    for k, o in enumerate(outs):
        if runs[0][k] is None:
            v.add('the generator does not write ' + os.path.relpath(o, repo))
        elif any(x[k] != runs[0][k] for x in runs):
            v.add('two runs of the generator differ in ' + os.path.relpath(o, repo))
    if v.n:
        finish(v, 'exploration', {'explanation': 'stopped'}, [])
    log('generated', len(outs), 'fonts', len(runs), 'times')
    # the exploration engine, linked with the regenerated fonts
    mc2 = d + '/mc'
    os.makedirs(mc2)
    os.symlink(ROOT + '/mc/src', mc2 + '/src')
    t = open(ROOT + '/mc/Cargo.toml').read()
    assert 'path = "/repo"' in t
    open(mc2 + '/Cargo.toml', 'w').write(t.replace('path = "/repo"', 'path = "%s"' % repo))
    shutil.copy(ROOT + '/mc/Cargo.lock', mc2)
    r = sh(['cargo', 'build', '--release', '--offline'], cwd=mc2)
    if r.returncode:
        v.add('the regenerated fonts do not compile', output=text(r)[-3000:])
        finish(v, 'exploration', {'explanation': 'stopped'}, [])
    log('engine built with the regenerated fonts')
    A, B = ROOT + '/mc/target/release/mc', mc2 + '/target/release/mc'
    env = {'VERIF_ROOT': ROOT}

    def digests(b):
        r = sh([b, 'digest'], env=env, timeout=3000)
        if r.returncode:
            return None, text(r)
        m = {}
        for l in text(r).split('\n'):
            p = l.split()
            if len(p) == 3:
                m[p[0]] = (int(p[1]), p[2])
        return m, text(r)
    a, ta = digests(A)
    b, tb = digests(B)
    if a is None:
        broken('the engine fails on the committed fonts', ta[-2000:])
    if b is None:
        v.add('painting with the regenerated fonts fails', output=tb[-2000:])
        finish(v, 'exploration', {'explanation': 'stopped'}, [])
    bad = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
    for k in bad[:4]:
        ops = [text(sh([x, 'digest', k], env=env, timeout=3000)).split('\n') for x in (A, B)]
        one = sorted(set(ops[0]) - set(ops[1]), key=lambda l: (len(l), l[17:]))
        v.add('the committed and the regenerated fonts paint differently (%s): %s' % (k, one[0][17:300] if one else '?'),
              operation=one[0][17:] if one else None, differing=len(one))
    v.n += max(0, len(bad) - 4)
    n = sum(x[0] for x in a.values())
    finish(v, 'exploration', {
        'evaluations': 2 * n, 'distinct_nontrivial': n,
        'rule': 'the generator runs on copies of the committed sources; every operation of the listed spaces is painted by the library with the '
                'committed and with the regenerated fonts and frame buffer and cursor are compared; each operation is distinct and counted once',
        'digest_classes': len(a), 'generator_runs': len(runs), 'fonts': len(outs),
        'spaces': ['every supported cluster x style x 32 alignments', 'every Unicode scalar value x style', 'clusters with one code point changed, added or removed', 'texts of up to 3 (thorough: 4) tokens'],
        'samples': [k for k in sorted(a)][:5], 'exhaustive': True,
    }, ['the digests of a class of operations are 64 bit; classes with equal digests are taken as equal'])
