"""C23: every generated font carries the credits its configuration names.

All legal notices of up to three lines over an alphabet of lines (and a few long ones) go through
the real generator, many fonts to a configuration. A font generated with a marker as its notice
shows where the notice goes; every other font has to be that file with its own notice there.
"""
import itertools, json, os, shutil
import c17
from c17 import pool, work
from common import *

MARK = '// @@MARK@@ 7f3a'
LINES = ['// a', '//', '', '// {{.Font.Name}}', '// <b>&amp; & "q" \'s\'', '// %s %d \\n \\', '// © é 漢字 😸', '//\t tab  twice ', '// */ /* */', '// $1 `x`',
         '// // nested', '//! inner', '// {{/* c */}} {{end}}', '//no blank', '/* block */', '// Copyright (c) 2020 Sam Blenny', '// CREDITS:', '//    indented', '// #![forbid(unsafe_code)]',
         '// license: https://creativecommons.org/licenses/by/4.0/']


def main():
    v = Violations('C23', 'credits')
    th = TIER == 'thorough'
    d = scratch('C23')
    shutil.copytree(REPO + '/codegen', d + '/src', ignore=shutil.ignore_patterns('src_data'))
    go_build(d + '/src', d + '/gen')
    good = c17.base()
    fonts = json.loads(good['config.json'])['glyphSets']
    texts = []
    for n in range(1, 4):
        for t in itertools.product(LINES[:None if n < 3 or th else 12], repeat=n):
            texts.append('\n'.join(t))
            if n < 3:
                texts.append('\r\n'.join(t) + '\r\n')
                texts.append('\n\n  ' + '\n'.join(t) + ' \n\n')
    for n in [4, 10, 63, 64, 100, 1000, 20000]:
        texts.append('\n'.join('// line %d' % i for i in range(n)))
        texts.append('// ' + 'x' * n)
        texts.append('// ' + '漢' * n)
    per = 40
    jobs = [(k, base) for base in range(len(fonts)) for k in range(0, len(texts), per)]

    def job(j):
        k, base = j
        r = '%s/j%d-%d' % (d, base, k)
        os.makedirs(r + '/out')
        for f, x in good.items():
            open(r + '/' + f, 'wb').write(x)
        open(r + '/mark.txt', 'w').write(MARK)
        part = texts[k:k + per]
        sets = [dict(fonts[base], legal='mark.txt', rustout='out/mark.rs')]
        for i, t in enumerate(part):
            # some in folders of their own, under one name
            name = 'l%d.txt' % i if i % 3 else 'n%d/%s' % (i, 'mark.txt' if i % 2 else 'legal.txt')
            if '/' in name:
                os.makedirs('%s/n%d' % (r, i))
            open(r + '/' + name, 'w', newline='').write(t)
            sets.append(dict(fonts[base], legal=name, rustout='out/f%d.rs' % i))
        sets.append(dict(fonts[base], legal='', rustout='out/none.rs'))
        # where the marker stands in the list does not matter either
        rot = k // per % len(sets)
        json.dump({'comment': ['c'], 'glyphSets': sets[rot:] + sets[:rot]}, open(r + '/config.json', 'w'))
        p = confined([d + '/gen', '--write'], r, cwd=r, timeout=120)
        bad = []
        if p.returncode:
            bad.append(('the generator fails on configurations which differ in their legal notices only', text(p)[-800:]))
        else:
            def get(n):
                f = '%s/out/%s.rs' % (r, n)
                return open(f, newline='', encoding='utf-8', errors='replace').read() if os.path.isfile(f) else 'no such file'
            m = get('mark')
            if m.count(MARK) < 1:
                bad.append(('the font file does not carry its legal notice', MARK))
            else:
                for i, t in list(enumerate(part)) + [(None, '')]:
                    g = get('none' if i is None else 'f%d' % i)
                    if g != m.replace(MARK, t.strip()):
                        bad.append(('the font file does not carry its legal notice as it is', t[:600]))
        shutil.rmtree(r)
        return len(part), bad
    n = 0
    with pool(job, jobs) as ex:
        for k, bad in ex.imap(work, range(len(jobs)), 1):
            n += k
            for what, t in bad:
                v.add('%s: %r' % (what, t[:300]), notice=t)
    log(n, 'generated fonts')
    # the committed fonts
    conf = json.load(open(REPO + '/codegen/config.json'))
    c = 0
    for g in conf['glyphSets']:
        if not g.get('legal'):
            continue
        want = open(REPO + '/codegen/' + g['legal'], encoding='utf-8').read().strip()
        head = []
        for l in open(os.path.join(REPO + '/codegen', g['rustout']), encoding='utf-8'):
            if l.strip() and not l.lstrip().startswith(('//', '/*', '*')):
                break
            head.append(l)
        c += 1
        if '\n' + want + '\n' not in '\n' + ''.join(head) + '\n':
            v.add('the committed %s does not carry %s' % (g['rustout'], g['legal']), font=g['name'])
    log(c, 'committed fonts')
    finish(v, 'exploration', {
        'evaluations': n + c, 'distinct_nontrivial': len(set(texts)) + c,
        'rule': 'every notice goes through the real generator, and the whole file is compared with that of a font whose notice is a marker; non-trivial: distinct notices',
        'spaces': ['all notices of 1 to 3 lines over %d lines (%d at length 3), with line feeds, carriage returns and blank lines around; notices of up to 20000 lines or characters: %d texts x %d kinds of font' % (len(LINES), len(LINES) if th else 12, len(texts), len(fonts)),
                   '%d committed fonts' % c],
        'samples': texts[5:8], 'exhaustive': True,
    }, ['notices are UTF-8 and consist of Rust comments'])
