"""Synthetic sprite sheets, and the reference meaning of the generator's input formats."""
import struct, zlib


def png(rows, kind='gray8'):
    """rows: list of lists, 1 = ink (black), 0 = paper (white)"""
    h = len(rows)
    w = len(rows[0]) if h else 0
    raw = bytearray()
    plte = b''
    if kind in ('gray1', 'pal1'):
        ct, depth = (0, 1) if kind == 'gray1' else (3, 1)
        ink = 0 if kind == 'gray1' else 1
        plte = b'\xff\xff\xff\0\0\0'
        for r in rows:
            bits = ''.join(str(ink if p else 1 - ink) for p in r)
            bits += '0' * (-len(bits) % 8)
            raw += b'\0' + bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
    else:
        ct, depth, on, off = {
            'gray8': (0, 8, b'\0', b'\xff'), 'gray16': (0, 16, b'\0\0', b'\xff\xff'),
            'rgb8': (2, 8, b'\0\0\0', b'\xff\xff\xff'), 'rgba8': (6, 8, b'\0\0\0\xff', b'\xff\xff\xff\xff'),
            'graya8': (4, 8, b'\0\xff', b'\xff\xff'), 'pal8': (3, 8, b'\2', b'\1'),
        }[kind]
        plte = b'\x80\x80\x80\xff\xff\xff\0\0\0'
        for r in rows:
            raw += b'\0' + b''.join(on if p else off for p in r)

    def chunk(t, d):
        return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d) & 0xFFFFFFFF)
    out = b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, depth, ct, 0, 0, 0))
    if ct == 3:
        out += chunk(b'PLTE', plte)
    return out + chunk(b'IDAT', zlib.compress(bytes(raw), 9 if len(raw) < 1 << 22 else 1)) + chunk(b'IEND', b'')


def sheet(cells, size, cols, rows, border, gutter, fill=1, width=None, height=None):
    """cells: {(row, col): size x size bitmap}; everything outside the cells is ink if fill, so
    that a cell read from the wrong place shows"""
    pitch = size + gutter
    w, h = border + cols * pitch, border + rows * pitch
    img = [[fill] * w for _ in range(h)]
    for r in range(rows):
        for c in range(cols):
            b = cells.get((r, c))
            for y in range(size):
                for x in range(size):
                    img[border + r * pitch + y][border + c * pitch + x] = b[y][x] if b else fill
    w2, h2 = w if width is None else width, h if height is None else height
    return [(img[y] + [fill] * w2)[:w2] if y < h else [fill] * w2 for y in range(h2)]


def scalar(h):
    """A hexadecimal code point, or None"""
    if not h or any(c not in '0123456789abcdefABCDEF' for c in h):
        return None
    n = int(h, 16)
    return n if n < 0x110000 and not 0xD800 <= n < 0xE000 else None


def cluster(h):
    v = [scalar(x) for x in h.split('-')]
    return None if None in v else tuple(v)


SPACE = ' \t\r\v\f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'


def index_lines(text):
    """Entries of a text index: cluster strings in sheet order; None if a line is malformed"""
    v = []
    for line in text.split('\n'):
        t = line.split('#', 1)[0].strip(SPACE)
        if t:
            if cluster(t) is None:
                return None
            v.append(t)
    return v


def alias_lines(text):
    v = []
    for line in text.split('\n'):
        t = line.split('#', 1)[0].strip(SPACE)
        if t:
            p = t.split()
            if len(p) != 2 or None in (cluster(p[0]), cluster(p[1])):
                return None
            v.append((p[0], p[1]))
    return v


def m3(cps, seed=0):
    h = seed
    M = 0xFFFFFFFF
    for k in cps:
        k = k * 0xcc9e2d51 & M
        k = (k << 15 | k >> 17) & M
        k = k * 0x1b873593 & M
        h ^= k
        h = (h << 13 | h >> 19) & M
        h = (h * 5 + 0xe6546b64) & M
    h ^= len(''.join(map(chr, cps)).encode())
    h ^= h >> 16
    h = h * 0x85ebca6b & M
    h ^= h >> 13
    h = h * 0xc2b2ae35 & M
    return h ^ h >> 16
