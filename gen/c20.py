"""C20: builds for 32-bit WebAssembly and for the host, in every build mode, paint the same."""
import json, os
from concurrent.futures import ThreadPoolExecutor
from common import *

WASM_TC = '1.98.0-x86_64-unknown-linux-gnu'


def main():
    v = Violations('C20', 'builds')
    d = scratch('C20')
    th = TIER == 'thorough'
    # (name, cargo arguments, runs in node)
    # the four combinations of optimisation and overflow checks, and a firmware build, for either target
    profiles = [('release', 'release'), ('debug', 'dev'), ('small', 'small'), ('release with overflow checks', 'checked'), ('debug without overflow checks', 'plain')]
    if th:
        profiles.append(('not optimised at all', 'plain0'))
    builds = [('host ' + n, p, False) for n, p in profiles] + [('wasm32 ' + n, p, True) for n, p in profiles]

    def build(b):
        name, prof, wasm = b
        t = d + '/' + name.replace(' ', '-')
        cmd = ['cargo', 'build', '--offline', '--manifest-path', ROOT + '/parity/Cargo.toml', '--target-dir', t, '--profile', prof]
        env = {}
        if wasm:
            cmd += ['--lib', '--target', 'wasm32-unknown-unknown']
            env['RUSTUP_TOOLCHAIN'] = WASM_TC
        r = sh(cmd, env=env)
        if r.returncode:
            broken('%s does not build' % name, text(r)[-3000:])
        prof = 'debug' if prof == 'dev' else prof
        return ['node', ROOT + '/gen/parity.mjs', '%s/wasm32-unknown-unknown/%s/parity.wasm' % (t, prof)] if wasm else ['%s/%s/parity' % (t, prof)]
    with ThreadPoolExecutor(5) as ex:
        cmds = list(ex.map(build, builds))
    log('built', ', '.join(b[0] for b in builds))
    n = int(text(sh([cmds[0][0], 'groups'] + ([] if th else ['quick']))))
    N = 8

    def digests(job):
        cmd, k = job
        r = sh(cmd + ['digest', str(k), str(n), str(N)], timeout=3000)
        return {int(l.split()[0]): l.split()[1:] for l in text(r).split('\n') if len(l.split()) >= 2}, r.returncode, text(r)
    res = []
    ops = 0
    for (name, _, wasm), cmd in zip(builds, cmds):
        m = {}
        with ThreadPoolExecutor(N) as ex:
            for part, rc, txt in ex.map(digests, [(cmd, k) for k in range(N)]):
                m.update(part)
        for g in range(n):
            m.setdefault(g, ['ended'])
        res.append(m)
        log(name, 'done')
    ops = sum(int(x[1]) for x in res[0].values() if len(x) > 1)
    for k in range(1, len(builds)):
        bad = [g for g in range(n) if res[k][g][0] != res[0][g][0]]
        if not bad:
            continue
        g = bad[0]

        def one(c, i):
            return text(sh(c + ['op', str(g), str(i)], timeout=600)).strip().split(' ', 1)
        # first operation with a different digest (digests accumulate: binary search)
        lo, hi = 0, int(res[0][g][1]) if len(res[0][g]) > 1 else 0
        while lo < hi:
            mid = (lo + hi) // 2
            if one(cmds[0], mid)[0] != one(cmds[k], mid)[0]:
                hi = mid
            else:
                lo = mid + 1
        p = one(cmds[0] if not builds[0][2] else cmds[k], lo)
        what = p[1] if len(p) > 1 else 'group %d' % g
        v.add('%s and %s give different results for %s' % (builds[0][0], builds[k][0], what), operation=what, group=g, index=lo, groups=len(bad))
    finish(v, 'exploration', {
        'evaluations': ops * len(builds), 'distinct_nontrivial': ops,
        'rule': 'the same enumerated calls run in every build; frame buffer (every 32 calls and at the end of a group) and cursor (every call) go into the digest of a group; every call is distinct',
        'builds': [b[0] for b in builds], 'groups': n,
        'spaces': ['every Unicode scalar value x 3 styles', '24 texts at every column and row', 'all rectangles over 23x15 edge values x 8 paints and a clear', 'clears for every right edge and 64 left edges',
                   'rectangles and cursors over 13 values up to 2^31', 'cursors (x, y, line height) over 24^3 values up to 2^32-1 x 8 rectangles x 4 texts', 'texts repeated up to 128 times', 'demos, style numbers'] + (['every scalar value x 32 alignments'] if th else []),
        'samples': [' '.join(text(sh(cmds[0] + ['op', str(g), '5'])).split()[1:]) for g in (0x41, 0x1105, 0x1120, 0x1150)], 'exhaustive': True,
    }, ['coordinates are below 2^32 and the lines of the text end below 2^32, so that no sum exceeds 32 bits; the digests are 32 bit per group'])
