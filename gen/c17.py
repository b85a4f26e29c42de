"""C17: the generator writes only when told to and never from bad input.

Fault enumeration: every single fault of the listed kinds in every input and output of a small
configuration is injected, the real generator runs on it in a scratch folder, and exit status and
file system are compared with what the input formats allow.
"""
import itertools, json, os, shutil, copy, stat
import multiprocessing, re
from common import *
from sheet import *

SIZE, COLS, ROWS, BORDER, GUTTER = 5, 3, 2, 1, 1


def bitmap(k):
    b = [[0] * SIZE for _ in range(SIZE)]
    for i in range(9):
        if (k * 37 + 11) >> i & 1:
            b[1 + i // 3][i % 3 + k % 3] = 1
    b[1][k % 3] = 1
    return b


def base():
    """The fault-free inputs: path -> bytes"""
    cells = {(r, c): bitmap(r * COLS + c) for r in range(ROWS) for c in range(COLS)}
    img = png(sheet(cells, SIZE, COLS, ROWS, BORDER, GUTTER), 'gray8')
    a = dict(name='Emoji', m3Seed=0, sprites='a.png', size=SIZE, cols=COLS, gutter=GUTTER, border=BORDER, legal='legal.txt',
             index='a_index.txt', indexType='txt-row-major', aliases='a_alias.txt', glyphTrim='proportional', rustout='out/emoji.rs')
    b = dict(a, name='Hanzi', sprites='b.png', index='b_index.json', indexType='json-grid-coord', aliases='b_alias.txt',
             glyphTrim='CJK', rustout='out/hanzi.rs')
    return {
        'config.json': json.dumps({'comment': ['c'], 'glyphSets': [a, b]}, indent=1).encode(),
        'legal.txt': b'// credits\n',
        'a.png': img, 'b.png': img,
        'a_index.txt': b'# index\n1f600\n1f601-fe0f # two\n41\n1F468-200d-1f469\n\n2600\n',
        'b_index.json': json.dumps({'comment': ['c'], 'map': [
            {'hex': '4E2D', 'row': 1, 'col': 2}, {'hex': '4E00', 'row': 0, 'col': 0}, {'hex': 'e000-fe0f', 'row': 1, 'col': 0}]}).encode(),
        'a_alias.txt': b'# aliases\n2600 2600-fe0f\n\n41 41-301 # x\n',
        'b_alias.txt': b'4E2D 4E2E\n',
    }


OUT = ['out/emoji.rs', 'out/hanzi.rs']


JOB = None


def pool(f, items):
    """Worker processes (forked, so that f may be a closure)"""
    global JOB
    JOB = f, items
    return multiprocessing.get_context('fork').Pool(8)


def work(i):
    return JOB[0](JOB[1][i])


class Run:
    def __init__(self, gen, d):
        self.gen, self.d, self.n = gen, d, itertools.count()

    def __call__(self, files, prepare=None, args=('--write',)):
        """Run the generator on these files; (exit status, outputs, files it changed besides, output)"""
        d = '%s/r%d-%d' % (self.d, os.getpid(), next(self.n))
        os.makedirs(d + '/out')
        for f, x in files.items():
            if x is not None:
                open(d + '/' + f, 'wb').write(x)
        open(d + '/bystander.rs', 'wb').write(b'keep')
        open(d + '/out/bystander.rs', 'wb').write(b'keep')
        if prepare:
            prepare(d)
        before = tree(d)
        try:
            r = confined([self.gen] + list(args), d, cwd=d, timeout=60)
            rc, txt = r.returncode, text(r)
        except subprocess.TimeoutExpired:
            rc, txt = 'hang', ''
        after = tree(d)
        changed = sorted(f for f in set(before) | set(after) if before.get(f, 0) != after.get(f, 0))
        outs = [after.get(o) for o in OUT]
        self.after = after
        shutil.rmtree(d)
        return rc, outs, changed, txt


def main():
    v = Violations('C17', 'generator faults')
    d = scratch('C17')
    shutil.copytree(REPO + '/codegen', d + '/src', ignore=shutil.ignore_patterns('src_data'))
    go_build(d + '/src', d + '/gen')
    run = Run(d + '/gen', d)
    good = base()
    rc, want, changed, txt = run(good)
    if rc != 0 or None in want or sorted(changed) != OUT:
        v.add('the generator fails on a correct configuration', output=txt[-2000:], changed=changed)
        finish(v, 'fault_enumeration', {'explanation': 'stopped'}, [])
    th = TIER == 'thorough'
    cases = []  # (kind, description, files, prepare, expectation, expected files)

    def case(kind, what, ch, expect, prepare=None, equiv=None):
        f = dict(good)
        f.update(ch)
        cases.append((kind, what, f, prepare, expect, equiv))

    # missing, empty, replaced files
    for f in good:
        case('missing input', f, {f: None}, 'reject')
        if can_drop():
            case('input without read permission', f, {}, 'reject', prepare=lambda d, f=f: os.chmod(d + '/' + f, 0o300))
        case('input is a directory', f, {f: None}, 'reject', prepare=lambda d, f=f: os.mkdir(d + '/' + f))
        case('input is a dangling link', f, {f: None}, 'reject', prepare=lambda d, f=f: os.symlink('nowhere', d + '/' + f))
        # the same where no other input depends on what is missing
        bare = {a: b'' for a in ('a_alias.txt', 'b_alias.txt')}
        if f != 'config.json':
            case('correct', 'without aliases', bare, 'accept')
            case('missing input, no aliases', f, dict(bare, **{f: None}), 'reject')
            case('input is a directory, no aliases', f, dict(bare, **{f: None}), 'reject', prepare=lambda d, f=f: os.mkdir(d + '/' + f))
            case('input is a dangling link, no aliases', f, dict(bare, **{f: None}), 'reject', prepare=lambda d, f=f: os.symlink('nowhere', d + '/' + f))
        if f.endswith(('.png', '.json')):
            case('empty input', f, {f: b''}, 'reject')
    # sprite sheets: every truncation, every bit, every size
    for f in ['a.png', 'b.png']:
        img = good[f]
        for n in range(len(img)):
            case('truncated sheet', '%s to %d bytes' % (f, n), {f: img[:n]}, 'reject')
        if f == 'a.png' or th:
            for i in range(len(img)):
                for b in range(8) if th else [0, 3, 7]:
                    case('flipped bit in sheet', '%s byte %d bit %d' % (f, i, b), {f: img[:i] + bytes([img[i] ^ 1 << b]) + img[i + 1:]}, 'reject or same')
        cells = {(r, c): bitmap(r * COLS + c) for r in range(ROWS) for c in range(COLS)}
        used = [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1)] if f == 'a.png' else [(1, 2), (0, 0), (1, 0)]
        pitch = SIZE + GUTTER
        right = BORDER + max(c for r, c in used) * pitch + SIZE
        bottom = BORDER + max(r for r, c in used) * pitch + SIZE
        W, H = BORDER + COLS * pitch, BORDER + ROWS * pitch
        for w in range(1, W + 4):
            for h in range(1, H + 4) if th or w % 3 == 1 or w >= right - 1 else [H]:
                e = 'reject' if w < right or h < bottom else 'same' if w >= W and h >= H else 'reject or same'
                case('sheet size', '%s %dx%d' % (f, w, h), {f: png(sheet(cells, SIZE, COLS, ROWS, BORDER, GUTTER, 1, w, h))}, e)
    # JSON coordinates
    conf = json.loads(good['config.json'])
    jx = json.loads(good['b_index.json'])
    for k in range(len(jx['map'])):
        for r in range(-2, ROWS + 3):
            for c in range(-2, COLS + 3):
                x = copy.deepcopy(jx)
                x['map'][k].update(row=r, col=c)
                inside = 0 <= r < ROWS and 0 <= c < COLS
                case('grid coordinates', 'entry %d at row %d col %d' % (k, r, c), {'b_index.json': json.dumps(x).encode()}, 'accept' if inside else 'reject')
        for key, bad in [('hex', 5), ('hex', None), ('hex', ''), ('row', 'x'), ('row', 1.5), ('col', []), ('col', True)]:
            x = copy.deepcopy(jx)
            x['map'][k][key] = bad
            case('index entry of a wrong type', 'entry %d %s=%r' % (k, key, bad), {'b_index.json': json.dumps(x).encode()}, 'reject')
    # more entries than cells
    for n in range(1, 9):
        t = good['a_index.txt'] + ''.join('%x\n' % (0x1f610 + i) for i in range(n)).encode()
        case('more index entries than cells', '%d more' % n, {'a_index.txt': t}, 'accept' if 5 + n <= ROWS * COLS else 'reject')
    # code points that do not exist or belong to no known block
    bad = [0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x100000000, 0x10000000000000000]
    bad += range(0xD800, 0xE000, 1 if th else 61)
    for n in bad:
        for lead in ['', '1f600-', '41-']:
            h = lead + '%x' % n
            case('not a code point', h, {'a_index.txt': good['a_index.txt'] + h.encode() + b'\n'}, 'reject')
            x = copy.deepcopy(jx)
            x['map'][1]['hex'] = h
            case('not a code point', h, {'b_index.json': json.dumps(x).encode()}, 'reject')
            case('not a code point', 'alias ' + h, {'a_alias.txt': good['a_alias.txt'] + b'41 ' + h.encode() + b'\n'}, 'reject')
            case('not a code point', 'alias of ' + h, {'b_alias.txt': h.encode() + b' 4E44\n'}, 'reject')
    for n in [0x10FFFF, 0x10FFFE, 0x90000, 0xE0FFF]:
        case('code point of no block', '%x' % n, {'a_index.txt': good['a_index.txt'] + b'%x\n' % n}, 'reject')
        case('code point of no block', 'alias %x' % n, {'a_alias.txt': b'41 %x\n' % n}, 'reject')
    # aliases
    for t in ['42 43', '41-301 43', '1f601 43', '1f468-200d 43', '1f468-200d-1f469-fe0f 43', '4E00 43', '2601 2602', '9FFF 9FFE']:
        case('alias of a cluster that is not listed', t, {'a_alias.txt': t.encode() + b'\n'}, 'reject')
        if t != '41-301 43':  # an alias by then
            case('alias of a cluster that is not listed', t, {'a_alias.txt': good['a_alias.txt'] + t.encode() + b'\n'}, 'reject')
    for t in ['41', '41 ', ' 41', '41 43 44', '41 43 x', '41,43', '41=43', '41:43', '41;43', '41->43', '41 -> 43', '41 = 43', '41 U+43', '41 \\u0043', "41 'C'"]:
        for where in (0, 1):
            t2 = (t.encode() + b'\n' + good['a_alias.txt']) if where == 0 else good['a_alias.txt'] + t.encode()
            case('malformed alias line', t, {'a_alias.txt': t2}, 'reject')
    for sep in ['  ', '\t', ' \t ', '\u00a0']:
        case('alias separator', repr(sep), {'a_alias.txt': good['a_alias.txt'].decode().replace('2600 2600', '2600%s2600' % sep).encode()}, 'reject or same')
    # configuration
    for k in (0, 1):
        def cfg(**kw):
            x = copy.deepcopy(conf)
            x['glyphSets'][k].update(kw)
            return {'config.json': json.dumps(x).encode()}
        for key in ['sprites', 'index', 'aliases', 'legal']:
            for val in ['nowhere', 'out', 'a.png/x', '\0', 'legal.txt/..' + '/x']:
                case('input path', '%s=%r' % (key, val), cfg(**{key: val}), 'reject')
            case('configuration value of a wrong type', key, cfg(**{key: 7}), 'reject')
        for t in ['', 'txt', 'json', 'txt-row-majo', 'TXT-ROW-MAJOR', 'json-grid-coor', 'json-grid-coord ', 'csv']:
            case('index type', t, cfg(indexType=t), 'reject')
        case('index type', 'swapped', cfg(indexType=conf['glyphSets'][1 - k]['indexType']), 'reject')
        for key in ['size', 'cols', 'gutter', 'border', 'm3Seed']:
            for val in ['3', 1.5, [], {}]:
                case('configuration value of a wrong type', '%s=%r' % (key, val), cfg(**{key: val}), 'reject')
        case('configuration value of a wrong type', 'negative seed', cfg(m3Seed=-1), 'reject')
        case('configuration value of a wrong type', 'seed over 32 bits', cfg(m3Seed=1 << 32), 'reject')
        for val in range(SIZE + GUTTER * 2 + 1, 40):
            case('cell larger than the sheet allows', 'size=%d' % val, cfg(size=val), 'reject')
        for val in range(1, 3) if k == 0 else [2, 1]:
            case('fewer columns than the index needs', 'cols=%d' % val, cfg(cols=val), 'reject')
        # outputs that cannot be written
        for val, prep in [
            ('nowhere/x.rs', None), ('', None), ('out', None), ('legal.txt/x.rs', None),
            ('out/' + 'x' * 300, None), ('out/dir.rs', lambda d: os.mkdir(d + '/out/dir.rs')),
        ]:
            case('output cannot be written', val[:30], cfg(rustout=val), 'reject', prepare=prep)
        # a link that leads nowhere: refused, or replaced by the font
        for val, to in [('out/loop.rs', 'loop.rs'), ('out/gone.rs', 'nowhere/x')]:
            case('output link', val, cfg(rustout=val), k, prepare=lambda d, val=val, to=to: os.symlink(to, d + '/' + val))
        if can_drop():
            # what an unprivileged user is not allowed
            if stat.S_ISCHR(os.stat('/dev/full').st_mode):
                case('output cannot be written', 'full device', cfg(rustout='/dev/full'), 'reject')
            case('output cannot be written', 'in a folder of another user', cfg(rustout='/zz-no-such.rs'), 'reject')
            case('output cannot be written', 'in a folder without write permission', cfg(rustout='ro/x.rs'), 'reject',
                 prepare=lambda d: os.mkdir(d + '/ro', 0o555))
            case('output cannot be written', 'in a folder without search permission', cfg(rustout='ro/x.rs'), 'reject',
                 prepare=lambda d: os.mkdir(d + '/ro', 0o666))
    # every character of every text input deleted, replaced and inserted
    subst = list("\n#- gG0fF,") + (list('"{}[]:.x+_\t\r') if th else [])
    jsub = list('"{}[],:0-x') + (list('\\ \n.e+tfn\t') if th else [])
    for f in ['a_index.txt', 'a_alias.txt', 'b_alias.txt', 'b_index.json', 'config.json']:
        t = good[f].decode()
        seen = set()
        js = f.endswith('.json')
        places = range(len(t) + 1)
        for i in places:
            muts = []
            if i < len(t):
                muts.append(t[:i] + t[i + 1:])
                muts += [t[:i] + x + t[i + 1:] for x in (jsub if js else subst)]
            if not js or th or f == 'b_index.json':
                muts += [t[:i] + x + t[i:] for x in (jsub if js else subst)]
            muts.append(t[:i])
            for m in muts:
                if m == t or m in seen:
                    continue
                seen.add(m)
                if js:
                    try:
                        val = json.loads(m, parse_constant=lambda c: 1 / 0)
                        if re.search(r'-0\b', m):
                            continue  # a number to some parsers only
                        same = val == json.loads(t)
                        if f == 'config.json' and not same:
                            continue  # arbitrary paths and geometries: decided above, and in C16
                        case('edited ' + f, m[max(0, i - 8):i + 8], {f: m.encode()}, 'same' if same else 'as', equiv={f: json.dumps(val).encode()})
                    except (ValueError, ZeroDivisionError, RecursionError):
                        case('edited ' + f, repr(m[max(0, i - 8):i + 8]), {f: m.encode()}, 'reject')
                    continue
                parse = index_lines if f == 'a_index.txt' else alias_lines
                p = parse(m)
                if p is None:
                    case('edited ' + f, repr(m[max(0, i - 8):i + 8]), {f: m.encode()}, 'reject')
                elif p == parse(t):
                    case('edited ' + f, repr(m[max(0, i - 8):i + 8]), {f: m.encode()}, 'same')
                else:
                    lines = p if f == 'a_index.txt' else [a + ' ' + b for a, b in p]
                    case('edited ' + f, repr(m[max(0, i - 8):i + 8]), {f: m.encode()}, 'as', equiv={f: ('\n'.join(lines) + '\n').encode()})
    # formatting which the input formats allow
    for f in ['a_index.txt', 'a_alias.txt', 'b_alias.txt']:
        t = good[f].decode()
        for m in [t + '\n\n', '\n' + t, '# x\n' + t, t.replace('\n', '\n\n'), t.replace('\n', '  \n'), t.replace('\n', ' # c\n'), t.rstrip('\n'),
                  t.replace('\n', '\r\n'), ''.join('  ' + l + '\n' for l in t.split('\n')), t + '#', t + '   ']:
            case('allowed formatting', f, {f: m.encode()}, 'same')
    if th:
        # two faults at once are no better than one
        one = [c for c in cases if c[4] == 'reject' and c[3] is None]
        step = max(1, len(one) // 90)
        reps = one[::step]
        for a, b in itertools.combinations(reps, 2):
            fa = {k for k in a[2] if a[2][k] != good[k]}
            fb = {k for k in b[2] if b[2][k] != good[k]}
            if fa & fb:
                continue
            f = dict(a[2])
            f.update({k: b[2][k] for k in fb})
            cases.append(('two faults', a[0] + ': ' + a[1] + ' and ' + b[0] + ': ' + b[1], f, None, 'reject', None))
    log(len(cases), 'faults')

    def judge(c):
        kind, what, files, prep, expect, equiv = c
        rc, outs, changed, txt = run(files, prep)
        names = {o for o in OUT}
        extra = [f for f in changed if f not in names]
        if rc == 'hang':
            return 'does not end'
        if extra:
            conf_outs = []
            try:
                conf_outs = [g.get('rustout') for g in json.loads(files['config.json'])['glyphSets']]
            except Exception:
                pass
            # outputs that this configuration names elsewhere
            extra = [f for f in extra if f not in conf_outs and f != 'out/gone.rs']
            if extra:
                return 'changes ' + ', '.join(extra)
        if expect == 'reject' and rc == 0:
            return 'is accepted'
        if expect in (0, 1) and rc == 0 and run.after.get(what) != want[expect]:
            return 'is accepted, and the font is not there'
        if expect == 'accept' and rc != 0:
            return 'is rejected: ' + txt[:200]
        if expect == 'same' and (rc != 0 or outs != want):
            return 'is not generated like the same input in another layout: ' + txt[:200]
        if expect == 'reject or same' and rc == 0 and outs != want:
            return 'gives another font'
        if expect == 'as' and rc == 0:
            f2 = dict(files)
            f2.update(equiv)
            rc2, outs2, _, _ = run(f2)
            if rc2 != 0 or outs2 != outs:
                return 'is not generated as what it says'
        return None

    kinds, rejected, n = {}, 0, 0
    with pool(judge, cases) as ex:
        for c, bad in zip(cases, ex.imap(work, range(len(cases)), 32)):
            n += 1
            kinds[c[0]] = kinds.get(c[0], 0) + 1
            rejected += c[4] == 'reject'
            if bad and os.environ.get('MC_COLLECT'):
                print('COLLECT', c[0], '|', c[1], '|', bad)
            elif bad:
                v.add('%s (%s): %s' % (c[0], c[1], bad), fault=c[0], detail=c[1],
                      inputs={f: (x.decode('latin1') if x is not None else None) for f, x in c[2].items() if x != good[f]})
    log('write runs done')
    # without the switch: no file changes, whatever the inputs
    dry = [[], ['x'], ['--help'], ['--writ'], ['write'], [''], ['--no-write'], ['--', 'x']]
    step = 1 if th else 97
    dcases = [(good, None, a) for a in dry] + [(c[2], c[3], a) for c in cases[::step] for a in ([], ['x'])]

    def drun(x):
        return run(x[0], x[1], x[2])
    with pool(drun, dcases) as ex:
        for x, (rc, outs, changed, txt) in zip(dcases, ex.imap(work, range(len(dcases)), 8)):
            if changed:
                v.add('without the write switch (arguments %r) the generator changes %s' % (x[2], ', '.join(changed)), arguments=x[2])
    log('dry runs done')
    finish(v, 'fault_enumeration', {
        'evaluations': n + len(dcases) + 1, 'distinct_nontrivial': rejected,
        'rule': 'one fault per case (thorough: also pairs); non-trivial: the case has to be rejected; the others have to give the fonts of the equivalent correct input',
        'faults_by_kind': kinds, 'dry_runs': len(dcases),
        'samples': [{'fault': c[0], 'where': c[1], 'expected': c[4]} for c in cases[::max(1, len(cases) // 8)]], 'exhaustive': True,
    }, ['faults of the file system are a missing, unreadable or full target; the generator runs as root, so permission faults cannot be injected'])
