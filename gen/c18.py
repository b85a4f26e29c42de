"""C18: the web page shows exactly the frame buffer."""
import json, os, subprocess
from common import *

WASM_TC = '1.98.0-x86_64-unknown-linux-gnu'


def main():
    v = Violations('C18', 'web page')
    d = scratch('C18')
    page = REPO + '/wasm_demo'
    # the demo module, and the screens the native library paints
    r = sh(['cargo', 'build', '--offline', '--release', '--target', 'wasm32-unknown-unknown', '--target-dir', d + '/wasm'],
           cwd=page, env={'RUSTUP_TOOLCHAIN': WASM_TC})
    if r.returncode:
        broken('the demo module does not build', text(r)[-3000:])
    wasm = d + '/wasm/wasm32-unknown-unknown/release/demo.wasm'
    r = sh(['cargo', 'build', '--offline', '--release', '--manifest-path', ROOT + '/parity/Cargo.toml', '--target-dir', d + '/host'])
    if r.returncode:
        broken('the native library does not build', text(r)[-3000:])
    r = sh([d + '/host/release/parity', 'screens'])
    open(d + '/screens.json', 'wb').write(r.stdout)
    if r.returncode or len(json.loads(r.stdout)) != 3:
        v.add('a demo does not return', output=text(r)[-500:])
        finish(v, 'exploration', {'explanation': 'stopped'}, [])
    log('built')
    N = 8
    ps = [subprocess.Popen(['node', ROOT + '/gen/page.mjs', d, page, TIER, str(k), str(N), wasm, d + '/screens.json'],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE) for k in range(N)]
    tot = {'loads': 0, 'nontrivial': 0}
    samples, last = [], {}
    for k, p in enumerate(ps):
        out, err = p.communicate(timeout=3000)
        done = False
        for l in out.decode().split('\n'):
            if not l.startswith('{'):
                continue
            x = json.loads(l)
            if x.get('done'):
                done = True
                last = x
                for t in tot:
                    tot[t] += x[t]
                samples += x['samples'][:1]
            else:
                what = x.pop('what')
                v.add('%s (%s)' % (what, ', '.join('%s: %s' % i for i in x.items())), scenario=x)
        if not done and not v.n:
            broken('the page driver ended', (out + err).decode()[-2000:])
    log('pages loaded')
    finish(v, 'exploration', {
        'evaluations': tot['loads'], 'distinct_nontrivial': tot['nontrivial'],
        'rule': 'the real page scripts run in node with a stand-in canvas; each load shows one frame buffer content kept at one place of a module, over one loading path; all 180096 canvas pixels are compared; non-trivial: the content has both on and off pixels',
        'contents': last.get('contents', 0), 'places': last.get('places', 0), 'loading_paths': 2,
        'samples': samples, 'exhaustive': True,
    }, ['the stand-in for the browser implements the canvas and fetch calls of the page as the standards say', 'the frame buffer is below 2 GiB and the memory does not grow'])
