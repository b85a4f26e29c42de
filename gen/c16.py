"""C16: the generator preserves every glyph of any sprite sheet.

Synthetic sprite sheets, indexes and alias lists are enumerated, the real generator turns them into
font modules, these replace the fonts of a scratch copy of the library, and every cluster is painted
through its public interface. The oracle is the ink of the sheet itself.
"""
import itertools, json, os, shutil, random
from concurrent.futures import ThreadPoolExecutor
from common import *
from sheet import *

SLOTS = ['Emoji', 'Bold', 'Regular', 'Small', 'Hanzi']
LATIN = ['Bold', 'Regular', 'Small']
STYLE = {'Bold': 'b', 'Regular': 'r', 'Small': 's'}
TH = TIER == 'thorough'

# Unicode blocks the generator knows (the documented list in codegen/lib/ublock.go)
BLOCKS = [(0x20, 0x7F), (0x80, 0xFF), (0x100, 0x17F), (0x2000, 0x206F), (0x20A0, 0x20CF), (0x2100, 0x214F), (0x2190, 0x21FF),
          (0x2300, 0x23FF), (0x2460, 0x24FF), (0x25A0, 0x25FF), (0x2600, 0x26FF), (0x2700, 0x27BF), (0x2900, 0x297F),
          (0x2B00, 0x2BFF), (0x3000, 0x303F), (0x3200, 0x32FF), (0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0xE000, 0xF8FF),
          (0xFFF0, 0xFFFF), (0xFF00, 0xFFEF), (0x1F000, 0x1F02F), (0x1F0A0, 0x1F0FF), (0x1F100, 0x1F1FF), (0x1F200, 0x1F2FF),
          (0x1F300, 0x1F5FF), (0x1F600, 0x1F64F), (0x1F680, 0x1F6FF), (0x1F780, 0x1F7FF), (0x1F900, 0x1F9FF), (0x1FA70, 0x1FAFF),
          (0x20000, 0x2A6DF), (0x2A700, 0x2B73F), (0x2B740, 0x2B81F), (0x2B820, 0x2CEAF), (0x2CEB0, 0x2EBEF), (0x2F800, 0x2FA1F),
          (0x30000, 0x3134F)]
# code points for fonts that only need many of them; no two slots which are searched together share any
POOL = {'Emoji': range(0x20000, 0x2A6E0), 'Hanzi': list(range(0x4E00, 0xA000)) + list(range(0x2CEB0, 0x2EBF0)),
        'Bold': range(0xE000, 0xF900), 'Regular': range(0x2B820, 0x2CEB0), 'Small': range(0x30000, 0x31350)}
SEEDS = [0, 1, 0xFFFFFFFF, 0x80000000, 12345]
KINDS = ['gray8', 'gray1', 'gray16', 'rgb8', 'rgba8', 'graya8', 'pal1', 'pal8']


def block(c):
    return next((b for b in [(0, 0x7F)] + BLOCKS[1:] if b[0] <= c <= b[1]), None)


def hx(c):
    return '-'.join('%x' % x for x in c)


INDENT = ['', ' ', '\t', '  \t ']
SUFFIX = ['', ' ', '#', ' #', '\t', '# x', '   # 41 42', '#41', '\t## 1f600 #', ' # nfc: [C0, \u00c0]']
BEFORE = [None, '', '  \t', '#', '# 41', ' # comment', '#41 42', '\t#\u00e9\u9e45']
CASE = [str.lower, str.upper, lambda s: ''.join(c.upper() if i % 2 else c for i, c in enumerate(s))]
BETWEEN = [' ', '\t', '   ', ' \t ']
LENGTHS = [255, 256, 1023, 1024, 4094, 4095, 4096, 4097, 8192, 16384, 32768, 65534, 65535, 65536, 65537, 131072, 1 << 20]
DECO = list(itertools.product(range(len(INDENT)), range(len(SUFFIX)), range(len(BEFORE))))


def lines(items, layout):
    """The lines of an index (strings) or alias file (pairs), plain or with every combination of blanks and comments"""
    nl, last = layout or ('\n', True)
    out = []
    for i, x in enumerate(items):
        if layout:
            a, b, c = DECO[i % len(DECO)]
            f = CASE[i % 3]
            x = f(x) if isinstance(x, str) else f(x[0]) + BETWEEN[i % 4] + f(x[1])
            if BEFORE[c] is not None:
                out.append(BEFORE[c])
            # long comments and blanks, which show that no line is cut or lost
            if i >= 3 and i % 7 == 3 and i // 7 < len(LENGTHS):
                n = LENGTHS[i // 7]
                out.append(('# ' + '41 42 ' * n)[:n])
                x = ' ' * (n if i % 2 else 0) + x + ' ' * (0 if i % 2 else n)
            elif i >= 5 and i % 7 == 5 and i // 7 < len(LENGTHS):
                x += (' # ' + '1f600 ' * LENGTHS[i // 7])[:LENGTHS[i // 7]]
            x = INDENT[a] + x + SUFFIX[b]
        elif not isinstance(x, str):
            x = x[0] + ' ' + x[1]
        out.append(x)
    return nl.join(out) + (nl if last and out else '')


class Font:
    """One glyph set: clusters and their cell bitmaps, and how they lie in the sheet"""
    def __init__(self, slot, size, clusters, trim=None, border=0, gutter=0, cols=None, index='txt-row-major', kind='gray8', seed=0,
                 aliases=(), fill=1, extra=(0, 0), tag='', layout=None, given=None):
        # clusters: [(tuple of code points, bitmap or None for one that is not judged)]
        self.slot, self.size, self.index, self.kind, self.seed = slot, size, index, kind, seed
        self.border, self.gutter, self.fill, self.extra, self.tag = border, gutter, fill, extra, tag
        # layout of the text files: (line end, is there one after the last line) or a number for JSON
        self.layout = layout
        # (a cluster, another one in whose cell it is listed a second time)
        self.again = None
        self.trim = trim or ('CJK' if slot == 'Hanzi' else 'proportional')
        self.aliases = list(aliases)
        clusters = list(clusters)
        have = {c for c, b in clusters}
        if slot in LATIN and (0xFFFD,) not in have:
            clusters.insert(0, ((0xFFFD,), [[int(x < 20 and ((x * y + x) % 3 != 1 or x == y)) for x in range(size)] for y in range(size)]))
        n = len(clusters)
        self.cols = cols or max(1, min(n, max(3, int(n ** .5))))
        self.cells, self.where, self.glyph, self.space = {}, {}, {}, None
        places = [divmod(i, self.cols) for i in range(n + 8)]
        if index == 'json-grid-coord':
            # no order, with unused cells
            places = places[::-1] if n % 2 else places[3:] + places[:3]
        if given:
            places = given
        k = 0
        for c, b in clusters:
            if slot in LATIN and b is not None and places[k] == (0, 2):
                # the cell of the space: 4 x 2 blank
                if index == 'txt-row-major':
                    sp = ((0x20,) if (0x20,) not in have else (0xF123,))
                    self.put(sp, places[k], [[0] * size for _ in range(size)], None)
                    if size % 2 == 0 and size >= 4:
                        self.glyph[sp] = (4, 2, size // 2 - 1, [0, 0])
                k += 1
            self.put(c, places[k], b, b and self.trimmed(b))
            k += 1
        self.rows = max(r for r, c in self.cells) + 1
        for a, b in self.aliases:
            self.glyph[b] = self.glyph[a]

    def put(self, c, at, bitmap, g):
        self.where[c] = at
        self.cells[at] = bitmap or [[1] * self.size for _ in range(self.size)]
        self.glyph[c] = g

    def trimmed(self, b):
        """The ink as configured: (w, h, offset from the top, rows as numbers)"""
        n = len(b)
        if self.trim == 'CJK':
            x0, x1, y0, y1 = 0, n, 0, n
        else:
            xs = [x for x in range(n) if any(r[x] for r in b)]
            ys = [y for y in range(n) if any(b[y])]
            if not xs:
                return (0, 0, 0, [])
            x0, x1, y0, y1 = xs[0], xs[-1] + 1, ys[0], ys[-1] + 1
        return (x1 - x0, y1 - y0, y0, [sum(1 << (x - x0) for x in range(x0, x1) if b[y][x]) for y in range(y0, y1)])

    def write(self, d, outs):
        p = '%s/%s' % (d, self.slot.lower())
        pitch = self.size + self.gutter
        w = self.border + self.cols * pitch + self.extra[0]
        h = self.border + self.rows * pitch + self.extra[1]
        open(p + '.png', 'wb').write(png(sheet(self.cells, self.size, self.cols, self.rows, self.border, self.gutter, self.fill, w, h), self.kind))
        if self.index == 'txt-row-major':
            order = sorted(self.where, key=lambda c: self.where[c])
            if self.again:
                order.append(self.again[0])
            open(p + '.idx', 'w', newline='').write(lines([hx(c) for c in order], self.layout))
        elif self.layout:
            m = [{'hex': hx(c).upper() if i % 2 else hx(c), 'row': r, 'col': k} for i, (c, (r, k)) in enumerate(self.where.items())]
            m = [dict(reversed(list(e.items()))) if i % 3 else e for i, e in enumerate(m)]
            j = {'map': m, 'comment': ['"map": []', '#', '', '\u00e9']} if self.layout == 1 else {'comment': ['x'], 'map': m}
            t = json.dumps(j, indent=['\t', 1][self.layout - 1], separators=(',', ':') if self.layout == 1 else (' , ', ' : '))
            # escapes
            t = t.replace('"hex"', '"h\\u0065x"', 3).replace('\n', '\r\n' if self.layout == 2 else '\n')
            open(p + '.idx', 'w', newline='').write('\n ' + t + '  \n\n')
        else:
            where = list(self.where.items())
            if self.again:
                where.append((self.again[0], self.where[self.again[1]]))
            json.dump({'comment': [], 'map': [{'hex': hx(c), 'row': r, 'col': k} for c, (r, k) in where]}, open(p + '.idx', 'w'))
        open(p + '.als', 'w', newline='').write(lines([(hx(a), hx(b)) for a, b in self.aliases], self.layout if isinstance(self.layout, tuple) else None))
        open(p + '.lic', 'w').write('// %s\n' % self.slot)
        n = self.slot.lower()
        return dict(name=self.slot, m3Seed=self.seed, sprites=n + '.png', size=self.size, cols=self.cols, gutter=self.gutter, border=self.border,
                    legal=n + '.lic', index=n + '.idx', indexType=self.index, aliases=n + '.als' if self.aliases else '', glyphTrim=self.trim,
                    rustout=outs[self.slot])

    # the meaning of the index: longest listed cluster of the first code point's block
    def tables(self):
        if not hasattr(self, 'tab'):
            self.tab = {}
            for c in self.glyph:
                t = self.tab.setdefault(block(c[0]), (set(), set(), set()))
                t[0].add(len(c))
                t[1].add(m3(c, self.seed))
                t[2].add(c)
        return self.tab

    def match(self, cps):
        """Length of the longest listed cluster, and whether hashes alone would say the same"""
        t = self.tables().get(block(cps[0]))
        if not t:
            return 0, True
        clean = True
        for n in sorted(t[0], reverse=True):
            p = tuple(cps[:n])
            if p in t[2]:
                return len(p), clean
            clean = clean and m3(p, self.seed) not in t[1]
        return 0, clean

    def until_unlike(self):
        while self.collides():
            self.seed += 1
            del self.tab

    def collides(self):
        """Two listed clusters with one hash: another seed is needed"""
        return any(len(t[1]) != len(t[2]) for t in self.tables().values())


class Library:
    def __init__(self, k):
        self.k, self.fonts, self.lines, self.texts, self.refuse = k, {}, [], [], None

    def glyph_ids(self):
        self.ids, out = {}, []
        for s, f in self.fonts.items():
            for c, g in f.glyph.items():
                if g is not None:
                    i = '%s%d' % (s[0], len(self.ids))
                    self.ids[s, c] = i
                    out.append('G %s %d %d %d %d%s' % (i, f.size, g[0], g[1], g[2], ''.join(' %x' % r for r in g[3])))
        return out

    def resolve(self, style, cps):
        """Glyphs of a text; None if a text is not judged (hash collisions, cells without a judged glyph)"""
        out, i = [], 0
        latin = {v: k for k, v in STYLE.items()}[style]
        while i < len(cps):
            for s in ('Emoji', latin, 'Hanzi'):
                n, clean = self.fonts[s].match(cps[i:])
                if not clean:
                    return None
                if n:
                    c = tuple(cps[i:i + n])
                    break
            else:
                s, n, c = latin, 1, (0xFFFD,)
            if self.fonts[s].glyph[c] is None:
                return None
            out.append((s, c))
            i += n
        return out

    def cases(self):
        out = self.glyph_ids()
        n = 0
        for s, f in self.fonts.items():
            for c, g in f.glyph.items():
                if g is None or c[0] == 0x0A:
                    continue
                st = STYLE.get(s) or 'brs'[n % 3]
                if self.resolve(st, c) != [(s, c)]:
                    continue
                n += 1
                out.append('A %s %s %s' % (self.ids[s, c], st, hx(c)))
        for st, cps in self.texts:
            r = self.resolve(st, cps)
            if r is None:
                continue
            width = sum(self.fonts[s].glyph[c][0] + 3 for s, c in r)
            x = (len(out) * 7) % 32
            if width + x + 40 >= 336:
                x = 0
            if width + 40 >= 336:
                continue
            out.append('T %s %d %d %s %s' % (st, x, len(out) % 400, hx(cps), ' '.join(self.ids[k] for k in r)))
        return out


def filler(slot):
    b = [[1, 1, 0, 0], [1, 0, 1, 0], [0, 1, 1, 0], [0, 0, 0, 1]]
    return Font(slot, 4, [((POOL[slot][0],), b)], seed=7)


def pattern(w, h, k):
    """A w x h bitmap whose ink touches all four sides; k = 0 full, 1 frame corners, then bit k-2 of the pixel's number"""
    if k == 0:
        b = [[1] * w for _ in range(h)]
    elif k == 1:
        b = [[int((x in (0, w - 1)) and (y in (0, h - 1))) for x in range(w)] for y in range(h)]
    else:
        b = [[(y * w + x + 1) >> (k - 2) & 1 for x in range(w)] for y in range(h)]
        if not (any(b[0]) and any(b[-1]) and any(r[0] for r in b) and any(r[-1] for r in b)):
            b[0][-1] = b[-1][0] = 1
    return b


def cell(size, b, ox, oy):
    c = [[0] * size for _ in range(size)]
    for y, r in enumerate(b):
        for x, p in enumerate(r):
            c[oy + y][ox + x] = p
    return c


def spread(slots, bitmaps, per, **kw):
    """Fonts with these bitmaps, one code point each, per of them in one font"""
    out = []
    for k in range(0, len(bitmaps), per):
        s = slots[len(out) % len(slots)]
        part = bitmaps[k:k + per]
        out.append(Font(s, len(part[0]), [((POOL[s][i],), b) for i, b in enumerate(part)], **kw))
    return out


def family_shapes():
    """Every width and height, by patterns which identify every pixel's position"""
    fonts = []
    shapes = [(w, h) for w in range(1, 33) for h in range(1, 33)]
    pats = range(0, 13) if TH else [0, 5, 8]
    bm = []
    for k in pats:
        for i, (w, h) in enumerate(shapes):
            bm.append(cell(32, pattern(w, h, k), [0, 32 - w, (32 - w) // 2][(i + k) % 3], [0, 32 - h, (32 - h) // 2][(i // 3 + k) % 3]))
    fonts += spread(SLOTS[:4], bm, 520, tag='shapes')
    # whole cells, one ink pixel at a time (the packing has no other state than the position)
    for size in range(1, 33) if TH else [1, 3, 8, 11, 16, 31, 32]:
        bm = [[[int((x, y) == (i % size, i // size)) for x in range(size)] for y in range(size)] for i in range(size * size)]
        fonts += spread(['Hanzi'], bm, 1024, tag='single pixels')
    return fonts


def family_trim():
    """Every box at every place of a cell; every 3 x 3 bitmap at every place"""
    fonts = []
    for size in ([6, 9] if TH else [6]):
        bm = [cell(size, pattern(w, h, k), ox, oy) for w in range(1, size + 1) for h in range(1, size + 1)
              for ox in range(size - w + 1) for oy in range(size - h + 1) for k in (0, 1)]
        fonts += spread(SLOTS[:4], bm, 500, tag='boxes')
    bm = []
    for ox, oy in itertools.product(range(3), repeat=2):
        for n in range(512):
            bm.append(cell(5, [[n >> (y * 3 + x) & 1 for x in range(3)] for y in range(3)], ox, oy))
    fonts += spread(SLOTS[:4], bm, 1536, tag='3x3', border=1, gutter=2)
    bm = [[[n >> (y * 3 + x) & 1 for x in range(3)] for y in range(3)] for n in range(512)]
    fonts += spread(['Hanzi'], bm, 512, tag='3x3 whole cells')
    if TH:
        bm = [[[n >> (y * 4 + x) & 1 for x in range(4)] for y in range(4)] for n in range(1 << 16)]
        fonts += spread(['Hanzi'], bm[::2], 16384, tag='4x4 whole cells', gutter=1)
        fonts += spread(['Emoji'], bm[1::2], 16384, tag='4x4 whole cells', trim='CJK', border=1)
        fonts += spread(['Emoji'], bm, 16384, tag='4x4', gutter=1)
    return fonts


def family_geometry():
    fonts = []
    sizes = [1, 2, 3, 4, 5, 8, 16, 24, 30, 31, 32, 40]
    gaps = [0, 1, 2, 3, 7]
    n = 0
    # borders and gutters that do not fit a byte
    wide = [(255, 0), (256, 1), (257, 255), (0, 256), (1, 257), (1000, 300), (300, 1000)]
    for size in sizes:
        for border, gutter in list(itertools.product(gaps, gaps)) + (wide if size in (5, 32) else []):
            n += 1
            if not TH and border < 9 and gutter < 9 and (n * 7 + size) % 5 and not (size in (5, 24) and border != gutter and border < 3 and gutter < 3):
                continue
            for v in range(4 if TH else 1):
                slot = SLOTS[(n + v) % 5]
                trim = 'CJK' if slot == 'Hanzi' and size <= 32 else 'proportional'
                # distinct bitmaps that touch the edges of the cell
                bm = []
                for i in range(7 if size > 2 else 3):
                    m = min(size, 32)
                    w, h = [(m, size), (m, 1), (1, size), (max(1, m // 2), max(1, size // 2)), (m, size), (max(1, m - 1), size), (1, 1)][i]
                    bm.append(cell(size, pattern(w, h, [0, 1, 0, 2, 3, 4, 0][i]), [0, 0, size - w, size - w, 0, 0, size // 2][i], [0, size - h, 0, 0, 0, 0, size - h][i]))
                cols = [1, 3, 7, 4, 2][(n + v) % 5]
                if slot in LATIN and cols == 7:
                    cols = 5
                # the right gutter may be missing, and the sheet larger than its cells
                extra = [(0, 0), (-gutter, 0), (13, 0), (0, 29), (5, 5)][(n * 3 + v) % 5]
                fonts.append(Font(slot, size, [((POOL[slot][i * 5],), b) for i, b in enumerate(bm)], trim=trim, border=border, gutter=gutter, cols=cols,
                                  index=['txt-row-major', 'json-grid-coord'][(n + v) // 2 % 2], kind=KINDS[(n + 3 * v) % 8], seed=SEEDS[(n + v) % 5],
                                  fill=(n + v) % 3 != 0, extra=extra, tag='geometry'))
    return fonts


def small(k, size=6):
    """Distinct small glyphs"""
    b = [[0] * size for _ in range(size)]
    w, h = 1 + k % 4, 1 + k // 4 % 4
    for y in range(h):
        for x in range(w):
            b[1 + y][1 + x] = int(x == 0 or y == 0 or (x * 7 + y * 3 + k) % 3 == 0)
    b[5][k % 5] = 1
    return b


def family_clusters(libs):
    """Every subset of a set of overlapping clusters, each in a block of its own; every short text over its letters"""
    U = [(0,), (1,), (0, 1), (0, 0), (0, 1, 0), (1, 0, 1), (0, 1, 0, 1)]
    if TH:
        U += [(0, 1, 1), (1, 1)]
    subsets = [[u for i, u in enumerate(U) if n >> i & 1] for n in range(1, 1 << len(U))]
    blocks = [b for b in BLOCKS if b != (0xFFF0, 0xFFFF)]
    strings = [s for n in range(1, 7 if TH else 6) for s in itertools.product((0, 1), repeat=n)]
    it = iter(subsets)
    done = False
    while not done:
        lib = Library(len(libs))
        plan = []
        for si, slot in enumerate(SLOTS):
            cl, al, k = [], [], 0
            for bi, (lo, hi) in enumerate(blocks):
                sub = next(it, None)
                if sub is None:
                    done = True
                    break
                # letters of the three Latin fonts coincide; some clusters continue with letters of another block
                base = lo + [2, 9, 9, 9, 20][si]
                other = 0x200D if bi % 3 == 1 else base + 3 if bi % 3 == 2 else 0xFE0F
                ab = (base, other) if not any(u[0] for u in sub) and bi % 2 else (base, base + 1)
                plan.append((slot, ab))
                for u in sub:
                    cl.append((tuple(ab[i] for i in u), small(k)))
                    k += 1
            if cl:
                f = Font(slot, 6, cl, trim='proportional', seed=SEEDS[si], cols=16, gutter=1, tag='clusters')
                while f.collides():
                    f = Font(slot, 6, cl, trim='proportional', seed=f.seed + 1 & 0xFFFFFFFF, cols=16, gutter=1, tag='clusters')
                lib.fonts[slot] = f
        for slot, ab in plan:
            st = STYLE.get(slot) or 'brs'[len(lib.texts) % 3]
            for s in strings:
                lib.texts.append((st, tuple(ab[i] for i in s)))
                if len(s) < 4:
                    # before another letter, and after an unlisted one
                    lib.texts.append((st, tuple(ab[i] for i in s) + (ab[0] + 5, 0x301)))
                    lib.texts.append((st, (0x0E01,) + tuple(ab[i] for i in s)))
        libs.append(lib)


def family_blocks(libs):
    """The first and last code point of every block, and those beside the blocks; with every seed"""
    edge = sorted({c for lo, hi in BLOCKS for c in (lo, lo + 1, hi - 1, hi)} - {0xFFFD})
    outside = sorted({c for lo, hi in BLOCKS for c in (lo - 1, hi + 1) if c not in edge and not 0xD800 <= c < 0xE000 and c != 0x1F})
    outside += [0x1, 0x1F, 0x10FFFF, 0x90000, 0xD7FF, 0x340]
    for k, seed in enumerate(SEEDS):
        lib = Library(len(libs))
        for slot in SLOTS:
            # every font lists a part of them, so that each is found in each font of some library
            part = [c for i, c in enumerate(edge) if (i + SLOTS.index(slot)) % 5 == k or slot in LATIN and i % 3 == k % 3]
            if slot == 'Hanzi':
                part = edge
            f = Font(slot, 6, [((c,), small(i)) for i, c in enumerate(part)], trim='proportional', seed=seed, index=['txt-row-major', 'json-grid-coord'][k % 2], gutter=1, tag='block edges')
            while f.collides():
                f = Font(slot, 6, [((c,), small(i)) for i, c in enumerate(part)], trim='proportional', seed=f.seed + 1 & 0xFFFFFFFF, index=f.index, gutter=1, tag='block edges')
            lib.fonts[slot] = f
        for st in 'brs':
            for c in edge + outside:
                lib.texts.append((st, (c,)))
                lib.texts.append((st, (c, 0x2603, c)))
        libs.append(lib)


def family_aliases(libs):
    """Aliases: in the same and in another block, longer and shorter, several for one glyph, of an alias, and chains of prefixes"""
    starts = [0x41, 0xC1, 0x2605, 0xE010, 0x4E10, 0x1F600]
    tails = [(), (0x301,), (0xFE0F,), (0x200D, 0x2640), (0x1F3FB,)]
    for k in range(len(SEEDS) if TH else 2):
        lib = Library(len(libs))
        for si, slot in enumerate(SLOTS):
            d = [0, 1, 1, 1, 2][si] * 8
            cl, al, n = [], [], 0
            for i, a in enumerate(starts):
                for j, t in enumerate(tails):
                    if (i + j + k) % 2 == 0:
                        cl.append(((a + d,) + t, small(n)))
                        n += 1
            listed = [c for c, b in cl]
            free = [(a + d + 1,) + t for a in starts for t in tails] + [(a + d + 2,) + t for a in starts for t in tails]
            for i, c in enumerate(free):
                # every third is an alias of the alias before it
                al.append((al[-1][1] if i % 3 == 2 else listed[(i * 5 + k) % len(listed)], c))
            lib.fonts[slot] = Font(slot, 6, cl, trim='proportional', seed=SEEDS[(k + si) % 5], index=['json-grid-coord', 'txt-row-major'][(k + si) % 2],
                                   aliases=al, cols=4, gutter=2, border=1, tag='aliases')
            st = STYLE.get(slot) or 'brs'[k % 3]
            for c in listed + free:
                for e in [(), (0x301,), (0xFE0F, 0x41 + d)]:
                    lib.texts.append((st, c + e))
        libs.append(lib)


def number(k, size=16):
    """A glyph which shows its number"""
    return [[k >> x & 1 if y in (3, 11) else int(x == y) for x in range(size)] for y in range(size)]


def family_grid(libs):
    """Sheets with very many columns, rows and glyphs, and coordinates around powers of two"""
    lib = Library(len(libs))
    edge = [0, 1] + [p + k for p in (16, 32, 64, 128, 256, 512, 1024, 2048) for k in (-1, 0, 1)]
    far = [x for x in edge if x <= (2049 if TH else 1025)]
    # the sheets are more than 65 535 pixels wide, high
    lib.fonts['Emoji'] = Font('Emoji', 6, [((c,), small(i)) for i, c in enumerate(list(POOL['Emoji'])[:9600])], trim='proportional', cols=9500, gutter=1, tag='grid')
    lib.fonts['Hanzi'] = Font('Hanzi', 6, [((c,), small(i)) for i, c in enumerate(list(POOL['Hanzi'])[:9600])], trim='proportional', cols=1, gutter=1, tag='grid')
    for slot, at in zip(LATIN, ([(r, c) for r in (1, 2, 0) for c in far], [(r, c) for c in (1, 0) for r in far],
                                [(r, c) for r in edge for c in edge if r < 258 and c < 258 and (r < 18 or c < 18 or abs(r - c) < 2)])):
        at = [x for x in at if x != (0, 2)]
        lib.fonts[slot] = Font(slot, 6, [((0xFFFD,), small(len(at) - 1))] + [((list(POOL[slot])[i],), small(i)) for i in range(len(at) - 1)], trim='proportional',
                               cols=1 + max(c for r, c in at), gutter=1, border=1, index='json-grid-coord', tag='grid', given=at)
    libs.append(lib)
    lib = Library(len(libs))
    n = 40000 if TH else 17000
    lib.fonts['Hanzi'] = Font('Hanzi', 16, [((c,), number(i)) for i, c in enumerate((list(POOL['Hanzi']) + list(POOL['Emoji']))[:n])], cols=130, tag='grid')
    libs.append(lib)
    for lib in libs[-2:]:
        for f in lib.fonts.values():
            f.until_unlike()


def family_spaces(libs):
    """The space of the Latin fonts: 4 x 2 pixels wide and blank, in every size"""
    fonts = []
    for i, size in enumerate(range(4, 33, 2)):
        fonts.append(Font(LATIN[i % 3], size, [((0xE000 + j,), cell(size, pattern(1 + j % size, 1 + j // 2 % size, 0), 0, 0)) for j in range(6)],
                          cols=3, gutter=i % 3, border=(i + 1) % 3, tag='spaces'))
    return fonts


def family_text(libs):
    """Every combination of line ends, blanks, comments and letter case in the index and alias files"""
    lib = Library(len(libs))
    n = len(DECO)
    for slot, layout in zip(SLOTS, [('\n', True), ('\n', False), ('\r\n', True), ('\r\n', False), ('\n', True)]):
        pool = [c for c in POOL[slot]][:2 * n + 40]
        cl = [((c,), small(i)) for i, c in enumerate(pool[:n])]
        al = [((pool[i],), (pool[n + i],)) for i in range(n)]
        seed = 0
        f = Font(slot, 6, cl, trim='proportional', aliases=al, cols=17, gutter=1, layout=layout, seed=seed, tag='text files')
        while f.collides():
            seed += 1
            f = Font(slot, 6, cl, trim='proportional', aliases=al, cols=17, gutter=1, layout=layout, seed=seed, tag='text files')
        lib.fonts[slot] = f
        # what only stands in a comment is not listed
        for c in (0x41, 0x42, 0x1F600, 0xC0):
            lib.texts.append((STYLE.get(slot) or 'b', (c,)))
    libs.append(lib)
    lib = Library(len(libs))
    for slot, layout in zip(SLOTS, [1, 2, 1, 2, 1]):
        cl = [((c,), small(i)) for i, c in enumerate(list(POOL[slot])[0x1a:0x1a + 60])]
        f = Font(slot, 6, cl, trim='proportional', cols=9, gutter=1, index='json-grid-coord', layout=layout, tag='JSON files')
        assert not f.collides()
        lib.fonts[slot] = f
    libs.append(lib)


def family_long(libs):
    """Clusters of every length, alone in a block, with a prefix of every length, and all lengths in one block"""
    N = 40 if TH else 20
    blocks = [b for b in BLOCKS if b != (0xFFF0, 0xFFFF)]
    jobs = [[n] for n in range(1, N + 1)] + [[n, k] for n in (5, 8, 9, 10, 16, N) for k in range(1, n)][::1 if TH else 3] + [list(range(1, N + 1))]
    it = iter(jobs)
    done = False
    while not done:
        lib = Library(len(libs))
        for si, slot in enumerate(SLOTS):
            cl, k = [], 0
            for bi, (lo, hi) in enumerate(blocks):
                j = next(it, None)
                if j is None:
                    done = True
                    break
                base = lo + [2, 9, 9, 9, 20][si]
                full = tuple([base, 0x200D, base + 1, 0xFE0F, 0x1F3FB][i % 5] if i else base for i in range(N + 2))
                for n in j:
                    cl.append((full[:n], small(k)))
                    k += 1
                st = STYLE.get(slot) or 'brs'[k % 3]
                for n in range(1, N + 3):
                    if n in j or n + 1 in j or n - 1 in j:
                        lib.texts.append((st, full[:n]))
            if cl:
                seed = si
                f = Font(slot, 6, cl, trim='proportional', seed=seed, cols=11, gutter=1, tag='long clusters')
                while f.collides():
                    seed += 1
                    f = Font(slot, 6, cl, trim='proportional', seed=seed, cols=11, gutter=1, tag='long clusters')
                lib.fonts[slot] = f
        libs.append(lib)


def state(cps, seed):
    """Murmur3 state after these code points, before the length and the final mix"""
    h = seed
    for k in cps:
        h = mix(h, scramble(k))
    return h


def scramble(k):
    k = k * 0xcc9e2d51 & 0xFFFFFFFF
    k = (k << 15 | k >> 17) & 0xFFFFFFFF
    return k * 0x1b873593 & 0xFFFFFFFF


def mix(h, k):
    h ^= k
    h = (h << 13 | h >> 19) & 0xFFFFFFFF
    return h * 5 + 0xe6546b64 & 0xFFFFFFFF


INV = [pow(c, -1, 1 << 32) for c in (0xcc9e2d51, 0x1b873593, 5)]


def before(h, start):
    """The code point which leads from the state start to h"""
    h = (h - 0xe6546b64) * INV[2] & 0xFFFFFFFF
    h = (h >> 13 | h << 19) & 0xFFFFFFFF
    k = (h ^ start) * INV[1] & 0xFFFFFFFF
    k = (k >> 15 | k << 17) & 0xFFFFFFFF
    return k * INV[0] & 0xFFFFFFFF


def twin(p, q, seed):
    """Clusters p + one code point and q + one code point with the same hash"""
    s, e = state(p, seed), state(q, seed)
    base = len(''.join(map(chr, p)).encode()), len(''.join(map(chr, q)).encode())
    for b in itertools.chain(range(0x300, 0x370), range(0x200D, 0x2100), range(0x21, 0xD800)):
        h = mix(s, scramble(b)) ^ base[0] + len(chr(b).encode())
        for n in range(1, 5):
            x = before(h ^ base[1] + n, e)
            if 0x20 < x < 0x110000 and not 0xD800 <= x < 0xE000 and x != 0x23 and len(chr(x).encode()) == n:
                a, c = tuple(p) + (b,), tuple(q) + (x,)
                assert m3(a, seed) == m3(c, seed)
                return a, c
    return None


def family_contradictions(libs):
    """Indexes and alias lists that name a cluster twice, or two clusters with one hash, at every place of the list"""
    N = 6
    for si, slot in enumerate(SLOTS):
        for index in ('txt-row-major', 'json-grid-coord'):
            for kind in ('listed twice', 'alias is listed', 'alias is listed twice', 'two listed', 'listed and alias', 'two aliases'):
                for at in itertools.combinations(range(N), 2):
                    if not TH and (at[0] + at[1] + si) % 3:
                        continue
                    seed = SEEDS[(si + at[0]) % 5]
                    lo = list(POOL[slot])[at[0] * 7 + at[1]]
                    names = [(lo + 9 * i,) for i in range(N)]
                    free = [(lo + 9 * i + 1,) for i in range(N)]
                    if kind[:2] == 'tw' or kind == 'listed and alias':
                        k, pair = 0, None
                        while not pair:
                            k += 1
                            pair = twin((lo + 100 + k,), (lo + 200 + 3 * k,) if k % 2 else (lo + 200 + k, 0x200D), seed)
                        if kind == 'two listed':
                            names[at[0]], names[at[1]] = pair
                        elif kind == 'two aliases':
                            free[at[0]], free[at[1]] = pair
                        else:
                            names[at[0]], free[at[1]] = pair
                    al = list(zip(names, free)) if 'alias' in kind else []
                    f = Font(slot, 6, [(c, small(i)) for i, c in enumerate(names)], trim='proportional', seed=seed, cols=5, gutter=1, index=index,
                             aliases=al, tag='contradictions')
                    f.must = kind in ('listed twice', 'alias is listed', 'alias is listed twice')
                    f.kind_of = kind
                    if kind == 'listed twice':
                        f.again = (names[at[0]], names[at[1]])
                        f.rows += 1
                    elif kind == 'alias is listed':
                        f.aliases[at[1]] = (names[at[1]], names[at[0]])
                    elif kind == 'alias is listed twice':
                        f.aliases[at[1]] = (names[at[1]], free[at[0]])
                    lib = Library(len(libs))
                    lib.fonts[slot] = f
                    lib.refuse = f
                    for st in 'brs':
                        for c in names + free:
                            lib.texts.append((st, c))
                    libs.append(lib)
            for size in range(33, 49) if TH else (33, 34, 40, 48):
                for w in range(33, size + 1, 1 if TH else 5):
                    for ox in {0, size - w}:
                        b = [small(i, size) for i in range(N)]
                        b[(size + w) % N] = cell(size, pattern(w, 1 + w % 7, (w + ox) % 3), ox, (size * 3 + w) % (size - 7))
                        lib = Library(len(libs))
                        f = Font(slot, size, [((POOL[slot][i * 3],), b[i]) for i in range(N)], trim='proportional', cols=3, border=w % 3, gutter=ox % 3, index=index,
                                 tag='contradictions')
                        f.must, f.kind_of = True, 'glyph too wide'
                        lib.fonts[slot] = f
                        lib.refuse = f
                        libs.append(lib)


def main():
    v = Violations('C16', 'generated fonts')
    d = scratch('C16')
    shutil.copytree(REPO + '/codegen', d + '/src', ignore=shutil.ignore_patterns('src_data'))
    go_build(d + '/src', d + '/gen')
    outs = {}
    for g in json.load(open(REPO + '/codegen/config.json'))['glyphSets']:
        outs[g['name']] = os.path.relpath(os.path.normpath(REPO + '/codegen/' + g['rustout']), REPO)
    if sorted(outs) != sorted(SLOTS):
        broken('the library has other fonts: %s' % sorted(outs))
    fonts = family_shapes() + family_trim() + family_geometry() + family_spaces([])
    libs = []
    while fonts:
        lib = Library(len(libs))
        for s in SLOTS:
            f = next((f for f in fonts if f.slot == s), None)
            if f:
                fonts.remove(f)
                lib.fonts[s] = f
        libs.append(lib)
    family_clusters(libs)
    family_blocks(libs)
    family_aliases(libs)
    family_text(libs)
    family_long(libs)
    family_grid(libs)
    family_contradictions(libs)
    refused = []
    total = {}
    for lib in libs:
        for s in SLOTS:
            if s not in lib.fonts:
                lib.fonts[s] = filler(s)
            f = lib.fonts[s]
            assert f.tag != 'clusters' or not f.collides()
            total[f.tag or 'filler'] = total.get(f.tag or 'filler', 0) + len(f.glyph)
    log(len(libs), 'libraries', total)

    def run(lib):
        t = '%s/lib%d' % (d, lib.k)
        copy_library(t)
        os.makedirs(t + '/cg')
        try:
            sets = [lib.fonts[s].write(t + '/cg', {k: '../' + x for k, x in outs.items()}) for s in SLOTS]
            for s in SLOTS:
                os.unlink(t + '/' + outs[s])
            json.dump({'comment': [], 'glyphSets': sets}, open(t + '/cg/config.json', 'w'), indent=1)
            r = confined([d + '/gen', '--write'], t, cwd=t + '/cg', timeout=300)
            what = [{'font': s, 'family': f.tag, 'size': f.size, 'border': f.border, 'gutter': f.gutter, 'cols': f.cols, 'rows': f.rows, 'index': f.index,
                     'trim': f.trim, 'png': f.kind, 'seed': f.seed, 'sheet larger by': f.extra} for s, f in lib.fonts.items()]
            if lib.refuse:
                f = lib.refuse
                if r.returncode:
                    refused.append(f.kind_of)
                    return lib, None, 1, 0
                if f.must:
                    return lib, 'the generator accepts a %s with a contradiction (%s)' % (f.index, f.kind_of), dict(output=text(r)[-500:], fonts=[x for x in what if x['font'] == f.slot]), 0
            if r.returncode:
                return lib, 'the generator rejects a correct configuration', dict(output=text(r)[-1500:], fonts=what), 0
            shutil.copytree(ROOT + '/gen/c16', t + '/drv/src')
            open(t + '/drv/Cargo.toml', 'w').write(
                '[package]\nname = "drv"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nblitstr = { path = ".." }\n[workspace]\n'
                '[profile.dev]\nopt-level = 1\ndebug = false\nincremental = false\ncodegen-units = 2\n')
            r = sh(['cargo', 'build', '--offline', '-q'], cwd=t + '/drv', env={'CARGO_TARGET_DIR': t + '/t', 'CARGO_BUILD_JOBS': '2', 'RUSTFLAGS': '-Awarnings'}, timeout=600)
            if r.returncode:
                return lib, 'the generated fonts do not compile', dict(output=text(r)[-3000:], fonts=what), 0
            lines = lib.cases()
            open(t + '/cases', 'w').write('\n'.join(lines) + '\n')
            r = sh([t + '/t/debug/drv', t + '/cases'], timeout=600)
            out = text(r).split('\n')
            for l in out:
                if l.startswith('BAD '):
                    _, k, why = l.split(' ', 2)
                    f = lines[int(k)].split(' ')
                    if f[0] == 'A':
                        slot = next(s for (s, c), i in lib.ids.items() if i == f[1])
                        x = next(x for x in what if x['font'] == slot)
                        return lib, 'a font of size %d, border %d, gutter %d (%s): cluster %s %s' % (x['size'], x['border'], x['gutter'], x['family'], f[3], why), dict(font=x), 0
                    return lib, 'text %s %s' % (f[4], why), dict(fonts=what, case=lines[int(k)]), 0
            done = [l for l in out if l.startswith('DONE ')]
            if r.returncode or not done:
                return lib, 'painting generated fonts fails', dict(output=text(r)[-2000:], fonts=what), 0
            return lib, None, len(lines), int(done[0].split()[1])
        finally:
            shutil.rmtree(t, ignore_errors=True)

    paints = cases = 0
    with ThreadPoolExecutor(7) as ex:
        for lib, bad, info, n in ex.map(run, libs):
            if bad:
                v.add(bad, **info)
            else:
                cases += info
                paints += n
    log('done')
    finish(v, 'exploration', {
        'evaluations': paints, 'distinct_nontrivial': cases,
        'rule': 'one evaluation is one paint_str call with fonts from the real generator, judged on the whole frame buffer and the cursor; distinct cases are glyphs and texts',
        'libraries': len(libs), 'refused': {k: refused.count(k) for k in sorted(set(refused))}, 'glyphs_by_family': total,
        'samples': ['%s size %d border %d gutter %d cols %d %s %s %s' % (f.slot, f.size, f.border, f.gutter, f.cols, f.index, f.kind, f.tag) for f in list(libs[len(libs) // 3].fonts.values())],
        'exhaustive': True,
    }, ['ink is pure black on white in PNG files; sheets keep a whole gutter below the last row',
        'texts which collide by hash with another listed cluster are left out (C07 and C09 list them for the real fonts)'])
