#!/bin/bash
# build.sh OUT: the schedule explorer over a copy of /repo's library in which core (and std) are the
# instrumented ones; leaves OUT/drv, or nothing if that copy does not build
o=$1; here=$(cd "$(dirname "$0")" && pwd)
rm -rf "${o:?}/src"; mkdir -p "$o/src" "$o/t"
cp -a "$here/mccore" "$here/mcstd" "$here/drv" "$o/src/"
mkdir "$o/src/lib"; cp -a /repo/src /repo/Cargo.toml "$o/src/lib/"; rm -f "$o/src/lib/src/main.rs" "$o/drv"
python3 - "$o/src/lib" <<'X'
import re, sys, os
d = sys.argv[1]
p = d + '/src/lib.rs'
t = open(p, encoding='utf-8').read()
std = re.search(r'^\s*extern crate std( as \w+)?;', t, re.M) or '#![no_std]' not in t
t = re.sub(r'^\s*(#\[[^\]]*\]\s*)?(pub )?extern crate std;', '', t, flags=re.M)
use = '#[allow(unused_extern_crates)] extern crate mccore as core;\n' + ('#[macro_use] extern crate mcstd as std;\n' if std else '')
# after the inner attributes and comments at the top
m = re.match(r'(?:\s*(?://[^\n]*\n|/\*.*?\*/|#!\[[^\n]*\]\s*\n))*', t, re.S)
open(p, 'w', encoding='utf-8').write(t[:m.end()] + use + t[m.end():])
c = open(d + '/Cargo.toml', encoding='utf-8').read()
c = re.sub(r'(?ms)^\[(workspace|\[bin\]|profile|dev-dependencies)[^\n]*\n(?:(?!\[).*?\n)*', '', c)
dep = 'mccore = { path = "../mccore" }\nmcstd = { path = "../mcstd" }\n'
c = c.replace('[dependencies]\n', '[dependencies]\n' + dep) if '[dependencies]\n' in c else c + '\n[dependencies]\n' + dep
open(d + '/Cargo.toml', 'w', encoding='utf-8').write(c + '\n[workspace]\n')
X
cd "$o/src/drv" && CARGO_TARGET_DIR="$o/t" RUSTFLAGS=-Awarnings timeout 300 cargo build --offline -q > "$o/log" 2>&1 && cp "$o/t/debug/drv" "$o/drv"
exit 0
