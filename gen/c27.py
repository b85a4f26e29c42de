"""C27: the steps of a call are bounded by the length of its text.

The library runs as a WebAssembly module whose code has been rewritten to count function entries
and loop iterations (work.mjs).
"""
import json, subprocess
from common import *

WASM_TC = '1.98.0-x86_64-unknown-linux-gnu'


def clusters():
    base = REPO + '/codegen/'
    out = set()
    for g in json.load(open(base + 'config.json'))['glyphSets']:
        t = open(base + g['index'], encoding='utf-8').read()
        if g['indexType'].startswith('json'):
            out |= {c['hex'] for c in json.loads(t)['map']}
        else:
            out |= {l.split('#')[0].strip() for l in t.split('\n')}
        if g['aliases']:
            for l in open(base + g['aliases'], encoding='utf-8'):
                out |= set(l.split('#')[0].split())
    return sorted(x.upper() for x in out if x)


def main():
    v = Violations('C27', 'steps')
    d = scratch('C27')
    r = sh(['cargo', 'build', '--offline', '--release', '--manifest-path', ROOT + '/work/Cargo.toml', '--target', 'wasm32-unknown-unknown', '--target-dir', d + '/t'],
           env={'RUSTUP_TOOLCHAIN': WASM_TC})
    if r.returncode:
        broken('the library does not build for WebAssembly', text(r)[-3000:])
    cs = clusters()
    open(d + '/clusters', 'w').write('\n'.join(cs) + '\n')
    log('built')
    N = 8
    ps = [subprocess.Popen(['node', ROOT + '/gen/work.mjs', d + '/t/wasm32-unknown-unknown/release/work.wasm', d + '/clusters', TIER, str(k), str(N)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE) for k in range(N)]
    n = nt = 0
    last, samples = {}, []
    for p in ps:
        out, err = p.communicate(timeout=3600)
        done = False
        for l in out.decode().split('\n'):
            if not l.startswith('{'):
                continue
            x = json.loads(l)
            done = True
            if x.get('done'):
                n += x['n']
                nt += x['nontrivial']
                last = dict(x, most=max(x['most'], last.get('most', 0)))
                samples += x['samples']
            else:
                what = x.pop('what')
                v.add('%s (%s)' % (what, json.dumps(x, ensure_ascii=False)), scenario=x)
        if not done:
            broken('the counting run ended', (out + err).decode()[-2000:])
    finish(v, 'exploration', {
        'evaluations': n, 'distinct_nontrivial': n, 'long_texts': nt,
        'rule': 'every call runs in a WebAssembly module whose function entries, loop iterations and bulk memory operations count; a call may take, for each character of its text, four times the steps of the dearest character in plain places (and 2000), clearing four times those of the whole screen; four times the text, at most 4.6 times the steps plus those of a screen full of glyphs; non-trivial: every call, they differ in their arguments',
        'dearest_character_in_plain_places': last.get('M'), 'dearest_single_call': last.get('most'), 'clearing_the_screen': last.get('clear'),
        'spaces': ['edges of rectangles over 19 values up to 2^32-1 (columns: %d), 30 cursors each; clears of the same' % (19 if TIER == 'thorough' else 12),
                   'all pairs of columns and a quarter of all pairs of lines, painted in and cleared',
                   'every scalar value; %d clusters x 3 styles x 4 columns; the demos' % len(cs),
                   'long texts to %d bytes of all words of up to %d of 16 characters and clusters, 9 settings (pairs 3, triples 1)' % ((262144, 3) if TIER == 'thorough' else (131072, 2))],
        'samples': samples[:4], 'exhaustive': True,
    }, ['steps are counted on the 32-bit WebAssembly build with little optimisation'])
