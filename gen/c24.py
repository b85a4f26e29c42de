"""C24: the dry run announces exactly what the write run writes.

All configurations with up to three outputs (thorough: four) over an alphabet of paths go through
the real generator, without and with the switch, in a scratch folder.
"""
import itertools, json, os, shutil
import c17
from c17 import pool, work
from common import *

PATHS = ['a.rs', 'out/b.rs', '../up/c.rs', './d.rs', 'sp ace.rs', 'é漢😸.rs', 'a&b<c>.rs', 'q\'uo"te`.rs', '{{.Confirm}}.rs', '%s%d.rs', '--write.rs', 'out/../e$1.rs', 'out/deep/er/f.rs', '\\n#.rs', 'noext', 'out/h.txt', 'out/UPPER.RS', 'out/two.rs.rs', 'out/.hidden', 'out/upper.rs']


def main():
    v = Violations('C24', 'announced outputs')
    th = TIER == 'thorough'
    d = scratch('C24')
    shutil.copytree(REPO + '/codegen', d + '/src', ignore=shutil.ignore_patterns('src_data'))
    go_build(d + '/src', d + '/gen')
    good = c17.base()
    fonts = json.loads(good['config.json'])['glyphSets']
    confs = [[]]
    for n in range(1, 5 if th else 4):
        confs += itertools.product(PATHS[:8] if n > 3 or n > 2 and not th else PATHS, repeat=n)
    for n in [5, 20, 200]:
        confs.append(['out/n%d.rs' % i for i in range(n)])
        confs.append((PATHS * n)[:n])
    args = [[], ['x'], ['--help']]
    # fonts of other kinds: without glyphs, with one, without aliases or notice, of another name, seed or trim, alike
    kinds = []
    for f in fonts:
        j = f['indexType'].startswith('json')
        kinds += [f, dict(f, index='none.json' if j else 'none.txt', aliases='none.txt'), dict(f, index='one.json' if j else 'one.txt', aliases='none.txt'),
                  dict(f, aliases='none.txt'), dict(f, legal='empty.txt'), dict(f, name='', m3Seed=4294967295), dict(f, name=f['name'] * 40),
                  dict(f, glyphTrim='CJK' if f['glyphTrim'] == 'proportional' else 'proportional')]
    good.update({'none.txt': b'# nothing\n', 'empty.txt': b'', 'one.txt': b'1f600\n', 'none.json': b'{"map": []}',
                 'one.json': b'{"map": [{"hex": "4E2D", "row": 1, "col": 2}]}'})
    chosen = {}
    for n in range(1, 5 if th else 4):
        for t in itertools.product(range(len(kinds)), repeat=n):
            if n < 4 or all(k % 8 in (0, 1, 2) for k in t):
                chosen[len(confs)] = t
                confs.append(PATHS[1:1 + n])

    def job(k):
        paths = confs[k]
        r = '%s/j%d' % (d, k)
        os.makedirs(r + '/run/out/deep/er')
        os.makedirs(r + '/up')
        for f, x in good.items():
            open(r + '/run/' + f, 'wb').write(x)
        sets = [dict(fonts[(i + k) % len(fonts)], rustout=p) for i, p in enumerate(paths)]
        if k in chosen:
            sets = [dict(kinds[i], rustout=p) for i, p in zip(chosen[k], paths)]
        json.dump({'comment': ['c'], 'glyphSets': sets}, open(r + '/run/config.json', 'w'))
        bad = []
        before = tree(r)
        a = args[k % len(args)]
        p = confined([d + '/gen'] + a, r, cwd=r + '/run', timeout=60)
        dry = text(p)
        if p.returncode:
            bad.append('the dry run fails: ' + dry[-300:])
        if tree(r) != before:
            bad.append('the dry run changes files')
        said = sorted({l.strip() for l in dry.split('\n') if l.strip() in paths or l.strip().endswith('.rs')})
        if said != sorted(set(paths)):
            bad.append('the dry run announces %r' % said[:12])
        if '--write' not in dry.split() and '--write' not in [w.strip('.,`"\'') for w in dry.split()]:
            bad.append('the dry run does not name the switch')
        p = confined([d + '/gen', '--write'], r, cwd=r + '/run', timeout=60)
        if p.returncode:
            bad.append('the write run fails: ' + text(p)[-300:])
        after = tree(r)
        changed = {f for f in set(before) | set(after) if before.get(f, 0) != after.get(f, 0)}
        want = {os.path.normpath('run/' + x) for x in paths}
        if changed != want:
            bad.append('the write run writes %r' % sorted(changed)[:12])
        shutil.rmtree(r)
        return bad
    n = 0
    with pool(job, range(len(confs))) as ex:
        for k, bad in zip(range(len(confs)), ex.imap(work, range(len(confs)), 16)):
            n += 1
            for b in bad:
                v.add('outputs %r: %s' % (confs[k][:6], b), outputs=list(confs[k]), fonts=[kinds[i] for i in chosen.get(k, [])])
    log(n, 'configurations')
    finish(v, 'exploration', {
        'evaluations': 2 * n, 'distinct_nontrivial': n - 1,
        'rule': 'every configuration is run without and with the switch; the announced paths and the files changed have to be the outputs it names; non-trivial: at least one output',
        'spaces': ['all lists of up to %d outputs over %d paths (%d at the greatest length); lists of up to 200 outputs; all lists of up to three fonts of 16 kinds: %d configurations' % (4 if th else 3, len(PATHS), 8, len(confs))],
        'samples': [list(confs[i]) for i in (3, 40, 500)], 'exhaustive': True,
    }, ['output folders exist'])
