"""C26: a generated font depends on its own entry in the configuration and its own input files.

The generator is built with a runtime whose map iteration, goroutines and clock are under control:
every `range` over a map asks a script where to start, and wherever more than one goroutine could go
on (at every call, loop iteration, lock and channel operation) the script says which. All scripts
which differ from the first order at up to two (thorough: three) places are run, and so are
surroundings, earlier outputs, histories of runs and lists of fonts. Every file has to be, byte for byte, the one that the font alone gives
in a fresh folder.
"""
import itertools, json, os, re, shutil
import c17
from c17 import pool, work
from common import *
from sheet import *

PICK = '''package maps

import _ "unsafe"

//go:linkname zzState
var zzState [1 << 16]uint32

func zzSeed() uint64 {
	return uint64(zzState[1]) * 0x9E3779B97F4A7C15
}

func zzPick(n uint64) uint64 {
	k := zzState[2]
	if zzState[0] == 0 || k >= 30000 {
		return 0
	}
	zzState[2] = k + 1
	zzState[32768+k] = uint32(n)
	return uint64(zzState[16+k])
}

func ZzOn() bool {
	return zzState[3] != 0
}

// which of n goroutines goes on
func ZzSched(n uint32) uint32 {
	return uint32(zzPick(uint64(n|1<<30))) % n
}
'''
# one processor, no preemption by time: the script alone says which goroutine goes on
SCHED = '''
var zzForced uint32

func zzUser(gp *g) bool {
	return gp != nil && !isSystemGoroutine(gp, false)
}

func zzCount(pp *p) (n uint32) {
	if zzUser(pp.runnext.ptr()) {
		n++
	}
	for i := pp.runqhead; i != pp.runqtail; i++ {
		if zzUser(pp.runq[i%uint32(len(pp.runq))].ptr()) {
			n++
		}
	}
	return
}

func zzRun(pp *p) *g {
	k := zzForced
	zzForced = 0
	if k != 0 {
		k--
	} else {
		n := zzCount(pp)
		if n < 2 {
			return nil
		}
		k = maps.ZzSched(n)
	}
	if next := pp.runnext; zzUser(next.ptr()) {
		if k == 0 {
			pp.runnext.cas(next, 0)
			return next.ptr()
		}
		k--
	}
	m := uint32(len(pp.runq))
	for i := pp.runqhead; i != pp.runqtail; i++ {
		gp := pp.runq[i%m].ptr()
		if !zzUser(gp) {
			continue
		}
		if k == 0 {
			for ; i != pp.runqhead; i-- {
				pp.runq[i%m] = pp.runq[(i-1)%m]
			}
			atomic.StoreRel(&pp.runqhead, pp.runqhead+1)
			return gp
		}
		k--
	}
	return nil
}

//go:linkname zzYield
func zzYield() {
	if maps.ZzOn() {
		zzYield1()
	}
}

func zzYield1() {
	gp := getg()
	if gp != gp.m.curg || gp.m.locks != 0 || gp.m.mallocing != 0 || isSystemGoroutine(gp, false) {
		return
	}
	mp := acquirem()
	n := zzCount(mp.p.ptr())
	k := uint32(0)
	if n != 0 {
		k = maps.ZzSched(n + 1)
		zzForced = k
	}
	releasem(mp)
	if k != 0 {
		goyield()
	}
}
'''
# puts a call of zzYield at the start of every function body and loop body
INSTRUMENT = '''package main

import (
	"bytes"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"sort"
)

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		fs := token.NewFileSet()
		t, err2 := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil || err2 != nil {
			os.Exit(1)
		}
		at := []int{}
		add := func(b *ast.BlockStmt) {
			if b != nil {
				at = append(at, fs.Position(b.Lbrace).Offset+1)
			}
		}
		ast.Inspect(t, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				add(x.Body)
			case *ast.FuncLit:
				add(x.Body)
			case *ast.ForStmt:
				add(x.Body)
			case *ast.RangeStmt:
				add(x.Body)
			}
			return true
		})
		sort.Ints(at)
		out := bytes.Buffer{}
		k := 0
		for _, p := range at {
			out.Write(src[k:p])
			out.WriteString("zzYield();")
			k = p
		}
		out.Write(src[k:])
		b, err := format.Source(out.Bytes())
		if err != nil {
			os.Exit(1)
		}
		os.WriteFile(f, b, 0644)
	}
}
'''
WRAP = '''package main

import (
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	_ "unsafe"
)

//go:linkname zzState internal/runtime/maps.zzState
var zzState [1 << 16]uint32

//go:linkname zzSkew time.zzSkew
var zzSkew int64

func main() {
	get := func(k string) string {
		v := os.Getenv(k)
		os.Unsetenv(k)
		return v
	}
	zzSkew, _ = strconv.ParseInt(get("ZZ_SKEW"), 10, 64)
	salt, _ := strconv.Atoi(get("ZZ_SALT"))
	zzState[1] = uint32(salt)
	for _, p := range strings.Split(get("ZZ_PICKS"), ",") {
		if k := strings.IndexByte(p, ':'); k > 0 {
			v, _ := strconv.Atoi(p[k+1:])
			if p[:k] == "all" {
				for j := 16; j < 32000; j++ {
					zzState[j] = uint32(v)
				}
			} else if i, err := strconv.Atoi(p[:k]); err == nil {
				zzState[16+i] = uint32(v)
			}
		}
	}
	out := get("ZZ_TRACE")
	if get("ZZ_SCHED") != "" {
		runtime.GOMAXPROCS(1)
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(1 << 30)
		zzState[3] = 1
	}
	zzState[0] = 1
	zzMain()
	zzState[3] = 0
	zzState[0] = 0
	if out != "" {
		b := []string{}
		for i := uint32(0); i < zzState[2]; i++ {
			b = append(b, strconv.Itoa(int(zzState[32768+i])))
		}
		os.WriteFile(out, []byte(strings.Join(b, " ")), 0644)
	}
}
'''


def controlled(d, sched=True):
    """The generator with map iteration, goroutines and clock under control: (program, whether
    goroutines are), or None if that cannot be built"""
    root = text(sh(['go', 'env', 'GOROOT'])).strip()
    rep = {}
    d = d + ('/ctl' if sched else '/ctl0')
    os.makedirs(d + '/ov')
    n = 0

    def put(f, changes, end=''):
        nonlocal n
        t = open(root + '/src/' + f).read() if changes else ''
        for a, b in changes:
            n += t.count(a)
            t = t.replace(a, b)
        o = '%s/ov/%d.go' % (d, len(rep))
        open(o, 'w').write(t + end)
        rep[root + '/src/' + f] = o
    rand = [('it.entryOffset = rand()', 'it.entryOffset = zzPick(m.used)'), ('it.dirOffset = rand()', 'it.dirOffset = zzPick(uint64(m.dirLen))'), ('uintptr(rand())', 'uintptr(zzSeed())')]
    put('internal/runtime/maps/table.go', rand)
    put('internal/runtime/maps/map.go', rand)
    put('internal/runtime/maps/zz.go', [], PICK)
    put('time/time.go', [('\tsec, nsec, mono := runtimeNow()\n', '\tsec, nsec, mono := runtimeNow()\n\tsec += zzSkew\n')], '\n//go:linkname zzSkew\nvar zzSkew int64\n')
    want = n >= 5
    if sched:
        def entry(f, extra='zzYield()'):
            return (f, f + '\n\t' + extra + '\n')
        decl = '\n//go:linkname zzYield runtime.zzYield\nfunc zzYield()\n'
        n = 0
        put('runtime/proc.go', [entry('func runqget(pp *p) (gp *g, inheritTime bool) {', 'if maps.ZzOn() {\n\t\tif gp := zzRun(pp); gp != nil {\n\t\t\treturn gp, false\n\t\t}\n\t}'),
                                entry('func retake(now int64) uint32 {', 'if maps.ZzOn() {\n\t\treturn 0\n\t}')], SCHED)
        put('runtime/chan.go', [entry('func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {'),
                                entry('func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {')])
        put('internal/sync/mutex.go', [entry('func (m *Mutex) Lock() {'), entry('func (m *Mutex) Unlock() {')], decl)
        put('sync/waitgroup.go', [entry('func (wg *WaitGroup) Add(delta int) {'), entry('func (wg *WaitGroup) Wait() {')], decl)
        want = want and n == 8
    json.dump({'Replace': rep}, open(d + '/ov.json', 'w'))
    src = d + '/csrc'
    shutil.copytree(REPO + '/codegen', src, ignore=shutil.ignore_patterns('src_data'))
    m = 0
    files = []
    for p, _, fs in os.walk(src):
        for f in fs:
            if not f.endswith('.go') or f.endswith('_test.go'):
                continue
            t = open(p + '/' + f).read()
            files.append(p + '/' + f)
            if p == src:
                t2 = re.sub(r'^func main\(\)', 'func zzMain()', t, flags=re.M)
                m += t != t2
                open(p + '/' + f, 'w').write(t2)
    r = None
    if sched:
        os.makedirs(d + '/ins')
        open(d + '/ins/main.go', 'w').write(INSTRUMENT)
        r = sh(['go', 'build', '-o', d + '/instrument', d + '/ins/main.go'])
        if r.returncode == 0:
            r = sh([d + '/instrument'] + files)
        for p in set(os.path.dirname(f) for f in files):
            pkg = [re.search(r'^package (\w+)', open(f).read(), re.M) for f in files if os.path.dirname(f) == p]
            open(p + '/zz_yield.go', 'w').write('package %s\n\nimport _ "unsafe"\n' % next((x[1] for x in pkg if x), 'main') + decl)
            open(p + '/zz_yield.s', 'w').write('')
    open(src + '/zz_wrap.go', 'w').write(WRAP)
    if r is None or r.returncode == 0:
        r = sh(['go', 'build', '-buildvcs=false', '-overlay', d + '/ov.json', '-ldflags=-checklinkname=0', '-o', d + '/cgen', '.'], cwd=src)
    if r.returncode or not want or m != 1:
        log('no control over', 'goroutines' if sched else 'map iteration', n, m, text(r)[-1500:])
        return controlled(d, False) if sched else None
    return d + '/cgen', sched


def kinds():
    """Fonts: (entry of the configuration, its files)"""
    ks = []

    def kind(name, clusters, json_index=False, aliases=(), size=5, legal=None, trim='proportional', seed=0, cols=4, shift=0, share=()):
        k = 'k%d' % len(ks)
        rows = -(-len(clusters) // cols)
        cells = {}
        for i in range(rows * cols):
            b = [[0] * size for _ in range(size)]
            for j in range((size - 2) ** 2):
                if (i * 37 + 11 + shift) >> (j % 9) & 1:
                    b[1 + j // (size - 2)][1 + j % (size - 2)] = 1
            b[1 + i % (size - 2)][1] = 1
            cells[i // cols, i % cols] = b
        e = dict(name=name, m3Seed=seed, sprites=k + '.png', size=size, cols=cols, gutter=1, border=1, legal=k + '_legal.txt' if legal else '',
                 index=k + '_index', indexType='json-grid-coord' if json_index else 'txt-row-major', aliases=k + '_alias.txt' if aliases else '', glyphTrim=trim)
        if json_index:
            idx = json.dumps({'comment': ['c'], 'map': [{'hex': c, 'row': i // cols, 'col': i % cols} for i, c in enumerate(clusters)]})
        else:
            idx = '# index\n' + '\n'.join(clusters) + '\n'
        f = {k + '.png': png(sheet(cells, size, cols, rows, 1, 1), 'gray8'), k + '_index': idx.encode()}
        if legal:
            f[k + '_legal.txt'] = legal.encode()
        if aliases:
            f[k + '_alias.txt'] = ('\n'.join(aliases) + '\n').encode()
        # some use a file of an earlier font
        for what, other in dict(share).items():
            f.pop(e[what], None)
            e[what] = ks[other][0][what]
            f[e[what]] = ks[other][1][e[what]]
        ks.append((e, f))
    kind('Emoji', ['1f600', '1f601-fe0f', '41', '1F468-200d-1f469', '2600', '1f680'], aliases=['2600 2600-fe0f', '41 41-301'], legal='// one\n')
    kind('Hanzi', ['4e2d', '4e00', 'e000', '20000', '2f800', '3400-fe00'], json_index=True, aliases=['4e2d 4e2e'], trim='CJK', seed=7, legal='// two\n// lines\n')
    kind('Regular', ['41', '42', 'e9', '100', '2010', '20ac', 'fffd'], json_index=True, shift=5)
    blocks = [0x41, 0x80, 0x100, 0x2000, 0x20A0, 0x2100, 0x2190, 0x2300, 0x2460, 0x25A0, 0x2600, 0x2700, 0x2900, 0x2B00, 0x3000, 0x3200, 0x3400, 0x4E00, 0xE000, 0xFFF0, 0xFF00, 0x1F000, 0x1F0A0,
              0x1F100, 0x1F200, 0x1F300, 0x1F600, 0x1F680, 0x1F780, 0x1F900, 0x1FA70, 0x20000, 0x2A700, 0x2B740, 0x2B820, 0x2CEB0, 0x2F800, 0x30000]
    kind('Small', ['%x' % b for b in blocks], size=6, aliases=['41 %x' % (b + 1) for b in blocks[1:9]], seed=99, legal='// three\n', cols=7)
    kind('Emoji', ['1f600', '2600-fe0f', '42'], seed=3, shift=2)
    kind('Bold', ['-'.join(['%x' % (0x61 + n)] + ['301'] * n) for n in range(8)] + ['65', '66-302'], aliases=['65 e9', '61 61-308-301'], legal='// one\n', shift=9)
    kind('Hanzi', ['1f601', '1f600-fe0f', '42'], trim='CJK', legal='// four\n', share={'sprites': 0})
    kind('Emoji', ['1f600'] * 6, size=6, seed=5, shift=3, share={'index': 0, 'aliases': 0, 'legal': 1})
    kind('Regular', ['41'], json_index=True, size=4, trim='CJK', shift=3, share={'sprites': 5, 'index': 2, 'legal': 0})
    return ks


def main():
    v = Violations('C26', 'independent fonts')
    th = TIER == 'thorough'
    d = scratch('C26')
    ctl = controlled(d)
    if ctl:
        gen, sched = ctl
    else:
        sched = False
        shutil.copytree(REPO + '/codegen', d + '/src', ignore=shutil.ignore_patterns('src_data'))
        go_build(d + '/src', d + '/gen')
        gen = d + '/gen'
    log('built')
    ks = kinds()
    ids = itertools.count()

    def folder():
        r = '%s/r%d-%d' % (d, os.getpid(), next(ids))
        os.makedirs(r + '/out')
        return r

    def inputs(r, fonts, outs):
        for k in fonts:
            for f, x in ks[k][1].items():
                open(r + '/' + f, 'wb').write(x)
        conf(r, fonts, outs)

    def conf(r, fonts, outs):
        json.dump({'comment': ['c'], 'glyphSets': [dict(ks[k][0], rustout=o) for k, o in zip(fonts, outs)]}, open(r + '/config.json', 'w'))

    def run(r, **env):
        p = confined([gen, '--write'], d + '/' + os.path.relpath(r, d).split('/')[0], cwd=r, timeout=120, env={k: str(x) for k, x in env.items()})
        return None if p.returncode == 0 else 'the generator fails: ' + text(p)[-400:]

    def read(r, o):
        return open(r + '/' + o, 'rb').read() if os.path.isfile(r + '/' + o) else b'no such file'
    OUTS = ['out/f%d.rs' % i for i in range(9)]
    # what each font gives alone, at each place
    solo = {}
    r = folder()
    for k in range(len(ks)):
        for o in OUTS:
            inputs(r, [k], [o])
            e = run(r)
            if e:
                v.add(e, font=k)
                finish(v, 'exploration', {'explanation': 'stopped'}, [])
            solo[k, o] = read(r, o)
    shutil.rmtree(r)

    def differs(r, fonts, outs=OUTS):
        for k, o in zip(fonts, outs):
            g = read(r, o)
            if g != solo[k, o]:
                a, b = g.split(b'\n'), solo[k, o].split(b'\n')
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                return 'font %d (%s) differs from what it gives alone, in line %d: %r instead of %r' % (
                    k, ks[k][0]['name'], i + 1, (a + [b''])[i][:80], (b + [b''])[i][:80])
        return None
    jobs = []
    spaces = []

    # 1. orders of map iteration
    lists = [[k] for k in range(len(ks))] + [[0, 1], [2, 3], [5, 0]]
    total = {}
    if ctl:
        depth = 3 if th else 2
        for fonts in lists:
            r = folder()
            inputs(r, fonts, OUTS)
            run(r, ZZ_TRACE=r + '/trace')
            sizes = [int(x) for x in open(r + '/trace').read().split()] if os.path.exists(r + '/trace') else []
            shutil.rmtree(r)
            # a small map starts at any of its entries, a large one at any slot of its table
            alt = []
            for i, u in enumerate(sizes):
                n = u if u <= 8 else 1 << (u * 8 // 7).bit_length()
                alt.append((i, range(1, n)))
            points = [(i, a) for i, a in alt if len(a)]
            scripts = [[('all', k)] for k in range(1, 64)]
            single = [[(i, x)] for i, a in points for x in a]
            scripts += single
            for n in range(2, depth + 1):
                # deeper scripts on the font alone, and only where the number stays moderate
                if n == 3 and (len(fonts) > 1 or sum(len(a) for _, a in points) > 90):
                    continue
                for c in itertools.combinations(points, n):
                    # large maps of the standard library: one representative each
                    opts = [a if len(a) < 8 else (a[0], a[-1]) for _, a in c]
                    scripts += [list(zip([i for i, _ in c], x)) for x in itertools.product(*opts)]
            total[tuple(fonts)] = (len(points), len(scripts))
            jobs += [('order', fonts, s) for s in zip(*[iter([(x, 0) for x in scripts] + [None] * 39)] * 40)]
            jobs += [('order', fonts, [([('all', k)], salt) for k in range(0, 64, 5)]) for salt in range(1, 41 if th else 13)]
        spaces.append('orders of map iteration: %d lists of fonts, %s iterations each; every script which differs from the first order at up to %d places: %d scripts; and 64 starts for all maps, with %d hash seeds' % (
            len(lists), '/'.join(str(a) for a, _ in total.values()), depth, sum(b for _, b in total.values()), 41 if th else 13))
    else:
        spaces.append('orders of map iteration: not explored, the generator does not build with a controlled runtime')
    # 1b. schedules of goroutines
    if sched:
        points, scripts = [], 0
        for fonts in lists:
            r = folder()
            inputs(r, fonts, OUTS)
            bad = run(r, ZZ_SCHED=1, ZZ_TRACE=r + '/trace') or differs(r, fonts)
            if bad:
                v.add('goroutines: ' + bad, fonts=fonts)
            sizes = [int(x) for x in open(r + '/trace').read().split()] if os.path.exists(r + '/trace') else []
            shutil.rmtree(r)
            pts = [(i, x & (1 << 30) - 1) for i, x in enumerate(sizes) if x >> 30]
            points.append(len(pts))
            if not pts:
                continue
            s = [[('all', k)] for k in range(1, 64)]
            full = sum(n - 1 for _, n in pts) <= (20000 if th else 4000)
            s += [[(i, x)] for i, n in (pts if full else pts[:800]) for x in (range(1, n) if full else (1, n - 1))]
            few = [(i, x) for i, n in pts[:40 if th else 20] for x in range(1, n)]
            s += [[a, b] for a, b in itertools.combinations(few, 2) if a[0] != b[0]][:20000 if th else 3000]
            scripts += len(s)
            jobs += [('sched', fonts, c) for c in zip(*[iter([(x, 0) for x in s] + [None] * 39)] * 40)]
        spaces.append('schedules of goroutines: on the same lists %s places where more than one could go on; %d scripts with up to 2 departures from the first schedule%s' % (
            '/'.join(map(str, points)), scripts, '' if scripts else ': there is one goroutine, so there is one schedule'))
    else:
        spaces.append('schedules of goroutines: not controlled, the generator does not build with such a runtime')
    # 2. surroundings
    dims = {
        'TZ': ['UTC', 'Asia/Tokyo', 'America/Los_Angeles', ''], 'LANG': ['C', 'tr_TR.UTF-8', 'de_DE.UTF-8'], 'LC_ALL': ['C', 'ja_JP.UTF-8'], 'HOME': ['/nonexistent', ''], 'USER': ['nobody', ''],
        'GOMAXPROCS': ['1', '2', '7'], 'GOGC': ['1', 'off'], 'PWD': ['/'], 'SOURCE_DATE_EPOCH': ['0', '1700000000'], 'DEBUG': ['1'], 'NO_COLOR': ['1'], 'TERM': ['dumb', 'xterm-256color'], 'COLUMNS': ['20'],
        'ZZ_SKEW': [1, 59, 3600, 86400, 31 * 86400, 366 * 86400, 20 * 366 * 86400, -20 * 366 * 86400], 'mtime': [0, 1, 2000000000], 'place': ['long', 'blank', 'link', 'deep'], 'files': ['links', 'extra', 'mode'],
        'umask': [0o077, 0o000],
    }
    if not ctl:
        del dims['ZZ_SKEW']
    flat = [(k, x) for k, l in dims.items() for x in l]
    sets = [[a] for a in flat] + [[a, b] for a, b in itertools.combinations(flat, 2) if a[0] != b[0]]
    fl = [[0, 1], [3, 5]] if th else [[0, 1]]
    jobs += [('around', f, c) for f in fl for c in sets]
    spaces.append('surroundings: %d values of %d kinds (environment, clock, folder, times and kinds of input files, permissions), each and every pair: %d' % (len(flat), len(dims), len(sets) * len(fl)))
    # 3. what was there before
    before = ['empty', 'short', 'long', 'same', 'same+', 'same-', 'other', 'binary', 'link', 'dangling', 'hard']
    jobs += [('before', [k], b) for k in range(len(ks)) for b in before]
    spaces.append('%d kinds of earlier content of the output x %d fonts' % (len(before), len(ks)))
    hist = [h for n in range(2, 5 if th else 4) for h in itertools.product(range(len(ks)), repeat=n)]
    jobs += [('history', h, None) for h in hist]
    spaces.append('histories of runs into one output: all %d of 2 to %d fonts' % (len(hist), 4 if th else 3))
    # 4. fonts beside it
    seqs = [s for n in range(2, 5 if th else 4) for s in itertools.product(range(len(ks)), repeat=n)]
    N = len(ks)
    seqs += [tuple((i * m + k) % N for i in range(N)) for k in range(N) for m in range(1, N) if th or m in (1, N - 1)]
    jobs += [('beside', s, None) for s in seqs]
    spaces.append('lists of fonts: all %d of 2 to %d out of %d fonts, repetitions included, and longer ones' % (len(seqs), 4 if th else 3, len(ks)))

    def job(j):
        kind, fonts, x = j
        n, bad = 0, None
        r = folder()
        if kind in ('order', 'sched'):
            inputs(r, fonts, OUTS)
            for s in x:
                if s is None:
                    continue
                script, salt = s
                picks = ','.join('%s:%d' % p for p in script)
                n += 1
                bad = run(r, ZZ_PICKS=picks, ZZ_SALT=salt, **({'ZZ_SCHED': 1} if kind == 'sched' else {})) or differs(r, fonts)
                if bad:
                    bad += ' (%s %s%s)' % ('map iteration' if kind == 'order' else 'goroutines', picks, ', hash seed %d' % salt if salt else '')
                    break
        elif kind == 'around':
            c = dict(x)
            w = r
            if 'place' in c:
                w = r + {'long': '/' + 'x' * 200, 'blank': '/a b\'"$é', 'link': '/real', 'deep': '/d' * 60}[c['place']]
                os.makedirs(w + '/out')
                if c['place'] == 'link':
                    os.symlink('real', r + '/sym')
                    w = r + '/sym'
            inputs(w, fonts, OUTS)
            ins = [f for f in os.listdir(w) if f != 'out']
            if c.get('files') == 'links':
                os.makedirs(r + '/elsewhere')
                for f in ins:
                    os.rename(w + '/' + f, r + '/elsewhere/' + f)
                    os.symlink(r + '/elsewhere/' + f, w + '/' + f)
            elif c.get('files') == 'extra':
                for f in ['a.png', 'config.json.bak', 'Makefile', 'out/old.rs', '.hidden', 'k0_index~', 'k9.png']:
                    open(w + '/' + f, 'w').write('x')
            elif c.get('files') == 'mode':
                for f in ins:
                    os.chmod(w + '/' + f, 0o444)
            if 'mtime' in c:
                for f in ins:
                    os.utime(w + '/' + f, (c['mtime'], c['mtime']))
            env = {k: y for k, y in c.items() if k not in ('mtime', 'place', 'files', 'umask')}
            old = os.umask(c.get('umask', 0o022))
            n += 1
            bad = run(w, **env) or differs(w, fonts)
            os.umask(old)
            if bad:
                bad += ' (%s)' % x
        elif kind == 'before':
            inputs(r, fonts, OUTS)
            o = r + '/' + OUTS[0]
            good = solo[fonts[0], OUTS[0]]
            if x == 'link' or x == 'dangling':
                if x == 'link':
                    open(r + '/target.rs', 'wb').write(good * 2)
                os.symlink('../target.rs', o)
            elif x == 'hard':
                open(r + '/target.rs', 'wb').write(good + good)
                os.link(r + '/target.rs', o)
            else:
                open(o, 'wb').write({'empty': b'', 'short': b'//', 'long': b'x' * 200000, 'same': good, 'same+': good + b'// more\n', 'same-': good[:-40], 'other': solo[(fonts[0] + 1) % len(ks), OUTS[0]], 'binary': bytes(range(256)) * 9}[x])
            for _ in range(2):
                n += 1
                bad = bad or run(r) or differs(r, fonts)
            if bad:
                bad += ' (output before: %s)' % x
        elif kind == 'history':
            for k in set(fonts):
                inputs(r, [k], OUTS)
            for k in fonts:
                conf(r, [k], OUTS)
                n += 1
                bad = bad or run(r) or differs(r, [k])
            if bad:
                bad += ' (runs: %s)' % (fonts,)
        else:
            inputs(r, fonts, OUTS)
            n += 1
            bad = run(r) or differs(r, fonts)
            if bad:
                bad += ' (fonts: %s)' % (fonts,)
        shutil.rmtree(r)
        return n, bad
    n = 0
    count = {}
    with pool(job, jobs) as ex:
        for j, (k, bad) in zip(jobs, ex.imap(work, range(len(jobs)), 2)):
            n += k
            count[j[0]] = count.get(j[0], 0) + k
            if bad:
                v.add('%s: %s' % (j[0], bad), fonts=list(j[1]))
    log(count)
    if v.n:
        finish(v, 'exploration', {'explanation': 'stopped after the first part', 'evaluations': n}, [])
    # the committed configuration: every font alone, all together in two orders
    src = d + '/repo/codegen'
    copy_library(d + '/repo')
    shutil.copytree(REPO + '/codegen', src)
    cf = json.load(open(src + '/config.json'))
    gs = cf['glyphSets']
    outs = [os.path.normpath(src + '/' + g['rustout']) for g in gs]

    def committed(j):
        order, picks, sc = j
        r = folder()
        shutil.rmtree(r)
        shutil.copytree(d + '/repo', r)
        c = r + '/codegen'
        json.dump(dict(cf, glyphSets=[gs[i] for i in order]), open(c + '/config.json', 'w'))
        for i in range(len(gs)):
            f = os.path.normpath(c + '/' + gs[i]['rustout'])
            if os.path.exists(f):
                os.remove(f)
        try:
            p = confined([gen, '--write'], r, cwd=c, timeout=240 if sc else 400, env={'ZZ_PICKS': picks, 'ZZ_SCHED': sc})
        except TimeoutExpired:
            if not sc:
                raise
            # one processor and a switch at every call: too slow to be decided
            shutil.rmtree(r)
            return 0, {}
        res = {}
        for i in order:
            f = os.path.normpath(c + '/' + gs[i]['rustout'])
            res[i] = open(f, 'rb').read() if os.path.exists(f) else None
        shutil.rmtree(r)
        return p.returncode, res
    N = len(gs)
    cj = [((i,), '', '') for i in range(N)] + [(tuple(range(N)), '', ''), (tuple(reversed(range(N))), '', '')]
    if ctl:
        cj += [(tuple(range(N)), 'all:%d' % k, '') for k in (range(1, 64) if th else (1, 2, 3, 5, 7, 13))]
    if sched:
        cj += [(tuple(range(N)), 'all:%d' % k, '1') for k in (range(64) if th else (0, 1, 2))]
    if th:
        cj += [(p, '', '') for p in itertools.permutations(range(N))]
    alone = {}
    late = 0
    with pool(committed, cj) as ex:
        for (order, picks, sc), (rc, res) in zip(cj, ex.imap(work, range(len(cj)), 1)):
            n += 1
            late += not res
            if rc:
                v.add('the generator fails on fonts %s of the committed configuration' % (order,), fonts=list(order))
            for i, x in res.items():
                if len(order) == 1:
                    alone[i] = x
                elif x != alone.get(i):
                    v.add('committed configuration: font %s depends on the order of fonts, of map iteration or of goroutines (%s %s%s)' % (gs[i]['name'], order, picks, ' goroutines' if sc else ''), fonts=list(order))
    spaces.append('the committed configuration: each font alone, orders of the fonts, starts of map iteration, schedules: %d runs' % (len(cj) - late))
    log(len(cj), 'runs on the committed configuration')
    finish(v, 'exploration', {
        'evaluations': n, 'distinct_nontrivial': len(jobs) + len(cj),
        'rule': 'every run of the real generator is compared, byte for byte, with the fonts generated alone in a fresh folder; schedules: the places where map iteration starts are chosen by a script through an overlaid runtime; non-trivial: distinct scenarios',
        'schedules': count.get('order', 0) + count.get('sched', 0), 'spaces': spaces, 'samples': [repr(j)[:300] for j in jobs[3:6]], 'exhaustive': True,
    }, ['a map with up to 8 entries is iterated in insertion order from an arbitrary entry, as the installed Go runtime does'] + (['goroutines are switched at calls and loop iterations of the generator, locks, channels and wait groups, not between two memory accesses'] if sched else ['the schedule of goroutines has no influence']))
