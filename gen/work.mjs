// C27: counts the steps of calls. The module's code is rewritten so that every function entry,
// every loop iteration and every eighth byte of a bulk memory operation adds one to a counter,
// and so that a call traps beyond a limit.
import fs from 'fs'

const [, , file, clustersFile, tier, share, shares] = process.argv
const th = tier === 'thorough'

// --- rewriting ---
function instrument(buf) {
  let p = 0
  const u32 = () => { let r = 0, s = 0, b; do { b = buf[p++]; r += (b & 127) * 2 ** s; s += 7 } while (b & 128); return r }
  const skip = () => { while (buf[p++] & 128); }
  const enc = n => { const o = []; do { let b = n % 128; n = Math.floor(n / 128); if (n) b |= 128; o.push(b) } while (n); return o }
  const out = [...buf.subarray(0, 8)]
  p = 8
  const secs = []
  while (p < buf.length) {
    const id = buf[p++], n = u32()
    secs.push({ id, start: p, end: p + n })
    p += n
  }
  const params = [] // of every type
  const funcType = []
  let importedFuncs = 0, importedGlobals = 0, globals = 0
  for (const s of secs) {
    p = s.start
    if (s.id === 1) {
      for (let n = u32(); n--;) {
        if (buf[p++] !== 0x60) throw Error('type')
        const k = u32(); p += k
        params.push(k)
        const q = u32(); p += q
      }
    } else if (s.id === 2) {
      for (let n = u32(); n--;) {
        for (let i = 0; i < 2; i++) { const k = u32(); p += k }
        const kind = buf[p++]
        if (kind === 0) { u32(); importedFuncs++ } else if (kind === 3) { p += 2; importedGlobals++ } else throw Error('import')
      }
    } else if (s.id === 3) for (let n = u32(); n--;) funcType.push(u32())
    else if (s.id === 6) globals = u32()
  }
  const G = importedGlobals + globals, L = G + 1
  const body = (a, b, type) => {
    p = a
    const tmp = { at: params[type] }
    const groups = u32()
    for (let i = 0; i < groups; i++) { tmp.at += u32(); p++ }
    const o = [...enc(groups + 1), ...buf.subarray(a + enc(groups).length, p), 1, 0x7f]
    // add one; beyond the limit: trap
    const count = [0x23, ...enc(G), 0x42, 1, 0x7c, 0x24, ...enc(G), 0x23, ...enc(G), 0x23, ...enc(L), 0x55, 0x04, 0x40, 0x00, 0x0b]
    const bulk = [0x22, ...enc(tmp.at), 0x23, ...enc(G), 0x20, ...enc(tmp.at), 0xad, 0x42, 3, 0x88, 0x7c, 0x24, ...enc(G)]
    o.push(...count)
    while (p < b) {
      const q = p, op = buf[p++]
      let before = [], after = []
      if (op === 0x02 || op === 0x03 || op === 0x04) { skip(); if (op === 0x03) after = count }
      else if (op === 0x0c || op === 0x0d || op === 0x10 || (op >= 0x20 && op <= 0x26) || op === 0xd2 || op === 0xd0) skip()
      else if (op === 0x0e) { for (let n = u32() + 1; n--;) skip() }
      else if (op === 0x11) { skip(); skip() }
      else if (op === 0x1c) { for (let n = u32(); n--;) skip() }
      else if (op >= 0x28 && op <= 0x3e) { skip(); skip() }
      else if (op === 0x3f || op === 0x40 || op === 0x41 || op === 0x42) skip()
      else if (op === 0x43) p += 4
      else if (op === 0x44) p += 8
      else if (op === 0xfc) {
        const k = u32()
        if (k >= 8) skip()
        if (k === 8 || k === 10 || k === 12 || k === 14) skip()
        if (k === 10 || k === 11) before = bulk
      } else if (op <= 0x01 || op === 0x05 || op === 0x0b || op === 0x0f || op === 0x1a || op === 0x1b || (op >= 0x45 && op <= 0xc4) || op === 0xd1) { /* no operands */ } else throw Error('opcode ' + op.toString(16))
      o.push(...before)
      for (let i = q; i < p; i++) o.push(buf[i])
      o.push(...after)
    }
    return o
  }
  const append = (a, b) => { for (let i = 0; i < b.length; i++) a.push(b[i]) }
  const section = (id, content) => { out.push(id, ...enc(content.length)); append(out, content) }
  for (const s of secs) {
    if (s.id === 0) continue
    p = s.start
    if (s.id === 6) {
      const n = u32()
      section(6, [...enc(n + 2), ...buf.subarray(p, s.end), 0x7e, 1, 0x42, 0, 0x0b, 0x7e, 1, 0x42, 0, 0x0b])
    } else if (s.id === 7) {
      const n = u32()
      section(7, [...enc(n + 2), ...buf.subarray(p, s.end), 4, ...Buffer.from('work'), 3, ...enc(G), 5, ...Buffer.from('limit'), 3, ...enc(L)])
    } else if (s.id === 10) {
      const n = u32(), c = [...enc(n)]
      for (let i = 0; i < n; i++) {
        const len = u32(), at = p
        const b = body(at, at + len, funcType[i])
        append(c, enc(b.length))
        append(c, b)
        p = at + len
      }
      section(10, c)
    } else section(s.id, buf.subarray(s.start, s.end))
  }
  return new Uint8Array(out)
}

const mod = new WebAssembly.Module(instrument(fs.readFileSync(file)))
const LIMIT = 3_000_000_000n
let w, at
const fresh = () => { w = new WebAssembly.Instance(mod, {}).exports; w.limit.value = LIMIT; at = w.text() }
fresh()
const W = 336, H = 536, MAX = 0xffffffff
let n = 0, nontrivial = 0, most = 0
const samples = []
function cost(f) {
  n++
  w.work.value = 0n
  w.limit.value = LIMIT
  try { f() } catch (e) {
    if (w.work.value <= LIMIT) throw e
    fresh()
    return Infinity
  }
  return Number(w.work.value)
}
const put = bytes => new Uint8Array(w.memory.buffer).set(bytes, at)
const paint = (bytes, c) => { put(bytes); return cost(() => w.paint(bytes.length, ...c)) }
const utf8 = s => Buffer.from(s)
const cs = fs.readFileSync(clustersFile, 'utf8').split('\n').filter(Boolean).map(l => utf8(String.fromCodePoint(...l.split('-').map(h => parseInt(h, 16)))))
let job = 0
const mine = () => job++ % +shares === +share
function bad(what, x) {
  console.log(JSON.stringify({ what, ...x }))
  process.exit(0)
}

// the dearest single cluster, painted in plain places
let M = 0
for (const c of cs) for (let st = 0; st < 3; st++) M = Math.max(M, paint(c, [0, 0, W, H, 40, 40, 0, st]))
for (let x = 0; x < 32; x++) M = Math.max(M, paint(utf8('😸'), [0, 0, W, H, 40 + x, 40, 0, 1]), paint(utf8('鹅'), [0, 0, W, H, 40 + x, 40, 0, 1]), paint(utf8('\u{378}'), [0, 0, W, H, 40 + x, 40, 0, 1]))
const ONE = 4 * M + 2000
const CLEAR = 4 * cost(() => w.clear(0, 0, W, H)) + 2000
const show = (b, c) => ({ text: b.toString('utf8').slice(0, 80), clip: c.slice(0, 4), cursor: c.slice(4, 7), style: c[7] })
function single(b, c) {
  const k = paint(b, c)
  most = Math.max(most, k)
  // a text takes at most as many steps as its characters, one by one
  if (k > ONE * Math.max(1, b.toString('utf8').length)) bad(`a call takes ${k} steps, where the dearest character in plain places takes ${M}`, show(b, c))
}
const CO = [0, 1, 31, 32, 300, 335, 336, 337, 535, 536, 537, 65535, 65536, 2 ** 24, 2 ** 31 - 1, 2 ** 31, MAX - 64, MAX - 1, MAX]
const TOK = ['a', '\n', '😸', '鹅', '\u{378}', 'e\u{301}', '👩🏽‍🚀', 'W\n'].map(utf8)

// 1. rectangles and cursors, ends of numbers included
const XS = th ? CO : CO.filter((_, i) => i % 2 === 0 || i > 13)
for (const a of XS) for (const c of XS) {
  if (!mine()) continue
  for (const b of CO) for (const d of CO) {
    const k = cost(() => w.clear(a, b, c, d))
    if (k > CLEAR) bad(`clearing takes ${k} steps, the whole screen ${(CLEAR - 2000) / 4}`, { clip: [a, b, c, d] })
    for (const x of [0, 320, 336, MAX - 40, MAX]) for (const y of [0, 520, 536, 2 ** 20, MAX - 40, MAX]) {
      const t = TOK[(a % 7 + b % 5 + c % 3 + d % 11 + x % 13 + y % 3) % TOK.length]
      single(t, [a, b, c, d, x, y, [0, 30, 65536, MAX][(x + y + b) % 4], (a + d) % 3])
    }
  }
}
// 2. all edges of the screen's rectangles, one token each
for (let a = 0; a <= W + 8; a++) {
  if (!mine()) continue
  for (let c = 0; c <= W + 8; c++) {
    const k = cost(() => w.clear(a, 5, c, 531))
    if (k > CLEAR) bad(`clearing takes ${k} steps, the whole screen ${(CLEAR - 2000) / 4}`, { clip: [a, 5, c, 531] })
    for (const x of [a, (a + c) >> 1, c]) single(TOK[(a + c) % 8], [a, 0, c, H, x, 40, 0, (a + c) % 3])
  }
}
for (let b = 0; b <= H + 8; b++) {
  if (!mine()) continue
  for (let d = b % 4; d <= H + 8; d += 4) {
    const k = cost(() => w.clear(31, b, 300, d))
    if (k > CLEAR) bad(`clearing takes ${k} steps, the whole screen ${(CLEAR - 2000) / 4}`, { clip: [31, b, 300, d] })
    for (const y of [b, (b + d) >> 1, d, d - 20 < 0 ? 0 : d - 20]) single(TOK[(b + d) % 8], [0, b, W, d, 40, y, 0, (b + d) % 3])
  }
}
// 3. every scalar value and every cluster
for (let v = 0; v < 0x110000; v++) {
  if (v >= 0xd800 && v < 0xe000) continue
  if (v % 64 === 0 ? !mine() : (job - 1) % +shares !== +share) continue
  single(utf8(String.fromCodePoint(v)), [0, 0, W, H, v % 320, v % 500, 0, v % 3])
  if (th) single(utf8('e' + String.fromCodePoint(v)), [0, 0, W, H, v % 320, v % 500, 0, (v + 1) % 3])
}
for (const c of cs) {
  if (!mine()) continue
  for (let st = 0; st < 3; st++) for (const x of [0, 31, 300, 334]) single(c, [0, 0, W, H, x, 500 + x % 40, 0, st])
}
for (let k = 0; k < 3; k++) {
  const a = cost(() => w.demos(k))
  if (a > 200 * ONE + CLEAR * 2) bad(`demo ${k} takes ${a} steps`, {})
}
// 4. long texts: four times the text takes at most about four times the steps
const settings = [
  [0, 0, W, H, 0, 0, 0, 1], [6, 6, 330, 530, 6, 6, 0, 2], [0, 0, W, H, 0, H, 0, 0], [300, 500, 336, 536, 0, 0, 0, 1], [0, 0, 400, 600, 0, 0, 0, 1], [100, 100, 40, 40, 0, 0, 0, 0],
  [0, 0, W, H, MAX, MAX, MAX, 2], [0, 0, 5, 5, 0, 0, 0, 1], [0, 0, W, 0, 0, 0, 0, 0],
]
const words = [...'aW \n\u{378}\u{301}\u{200d}😸鹅é', 'e\u{301}', '👩🏽‍🚀', '👩', '\u{fe0f}', '1\u{fe0f}\u{20e3}', '\u{10ffff}', '\r\n'].map(utf8)
const toks = words.map(b => [b])
for (const a of words) for (const b of words) toks.push([a, b])
if (th) for (const a of words) for (const b of words) for (const c of words) toks.push([a, b, c])
const SCREEN = 2000 * M
const long = th ? [4096, 16384, 65536, 262144] : [8192, 32768, 131072]
for (const t of toks) {
  const u = Buffer.concat(t)
  for (const [i, c] of settings.entries()) {
    if (!mine()) continue
    // pairs and triples: some of the settings each
    if (t.length === 2 && (job + u.length) % 3 || t.length === 3 && (job + u.length) % 9) continue
    let last = null
    for (const len of t.length > 1 ? long.slice(1) : long) {
      const b = Buffer.alloc(Math.floor(len / u.length) * u.length, u)
      const k = paint(b, c)
      if (k > ONE * b.length + SCREEN) bad(`a text of ${b.length} bytes takes ${k} steps, where the dearest character takes ${M}`, show(b, c))
      // what is visible costs more than what is not: allow a screen full of glyphs
      if (last !== null && k > 4.6 * last + SCREEN) bad(`${b.length} bytes take ${k} steps, a quarter of them took ${last}`, show(b, c))
      last = k
      nontrivial++
      if (samples.length < 2) samples.push(`${u.toString('utf8')} to ${b.length} bytes in ${JSON.stringify(c)}: ${k} steps`)
    }
  }
}
console.log(JSON.stringify({ done: true, n, nontrivial, most, M, clear: (CLEAR - 2000) / 4, samples }))
