#!/usr/bin/env python3
"""Explain collected mismatches (COLLECT lines of MC_COLLECT=1 mc run <id>) as hash collisions.

usage: collisions.py <mc binary> <property> <collect file>...   -> finding: lines on stdout
Used by hand when known_findings.txt is (re)written; no check runs it.
"""
import subprocess, sys

def rotl(x, r):
    return ((x << r) | (x >> (32 - r))) & 0xFFFFFFFF

def m3(cps):
    h = 0
    for k in cps:
        k = k * 0xcc9e2d51 & 0xFFFFFFFF
        k = rotl(k, 15) * 0x1b873593 & 0xFFFFFFFF
        h = rotl(h ^ k, 13) * 5 + 0xe6546b64 & 0xFFFFFFFF
    h ^= len(''.join(map(chr, cps)).encode())
    h ^= h >> 16
    h = h * 0x85ebca6b & 0xFFFFFFFF
    h ^= h >> 13
    h = h * 0xc2b2ae35 & 0xFFFFFFFF
    return h ^ h >> 16

mc, prop, files = sys.argv[1], sys.argv[2], sys.argv[3:]
table = {}
for l in subprocess.run([mc, 'clusters'], capture_output=True, text=True).stdout.split('\n'):
    if l:
        f, c = l.split()
        c = tuple(int(x, 16) for x in c.split('-'))
        table.setdefault(m3(c), []).append((f, c))
out, bad = set(), []
for f in files:
    for l in open(f):
        if not l.startswith('COLLECT '):
            continue
        _, style, cps = l.split()
        v = [int(x, 16) for x in cps.split('-')]
        hit = False
        for i in range(len(v)):
            for n in range(1, 12):
                p = tuple(v[i:i + n])
                if len(p) < n:
                    break
                for font, c in table.get(m3(p), []):
                    if c != p and font in ('Emoji', 'Hanzi', style):
                        h = lambda t: '-'.join('%X' % x for x in t)
                        out.add('finding: property=%s codepoints=%s taken-for=%s font=%s' % (prop, h(p), h(c), font))
                        hit = True
        if not hit:
            bad.append(l.strip())
for l in sorted(out):
    print(l)
for b in bad:
    print('NOT EXPLAINED', b, file=sys.stderr)
