// node page.mjs <scratch dir> <page dir> <tier> <part> <parts> [<real wasm> <native screens json>]
// Loads the real web page scripts with a stand-in browser around them, once per scenario, and
// compares the canvas with the frame buffer. Prints one JSON line per failure and a summary.
import { readFileSync, existsSync, writeFileSync, mkdirSync, readdirSync, copyFileSync, rmSync } from 'node:fs';
import { pathToFileURL } from 'node:url';
import { join } from 'node:path';

const [dir, page, tier, part, parts, realWasm, nativeScreens] = process.argv.slice(2);
const W = 336, H = 536, WPL = 11, BYTES = H * WPL * 4;

// ---- the page: its scripts and its canvas
const html = readFileSync(join(page, 'index.html'), 'utf8');
const script = (/<script[^>]*\bsrc="([^"]+)"/.exec(html) || [])[1] || 'main.js';
const canvasTag = (/<canvas[^>]*>/.exec(html) || [''])[0];
const canvasId = (/\bid="([^"]+)"/.exec(canvasTag) || [])[1];
const attr = (n, d) => +((new RegExp(`\\b${n}="(\\d+)"`).exec(canvasTag) || [])[1] || d);

// ---- stand-in browser
class ImageDataStub {
    constructor(a, b, c) {
        if (typeof a === 'number') { this.width = a; this.height = b; this.data = new Uint8ClampedArray(a * b * 4); }
        else { this.data = a; this.width = b; this.height = c === undefined ? a.length / 4 / b : c; }
    }
}
class CanvasStub {
    #w; #h; #ctx = null;
    constructor(w, h) { this.id = canvasId; this.style = {}; this.#w = w; this.#h = h; this.reset(); }
    reset() { this.px = new Uint8ClampedArray(this.#w * this.#h * 4); }
    get width() { return this.#w; }
    set width(v) { this.#w = v >>> 0; this.reset(); }
    get height() { return this.#h; }
    set height(v) { this.#h = v >>> 0; this.reset(); }
    setAttribute(n, v) { if (n === 'width' || n === 'height') this[n] = +v; }
    getAttribute(n) { return n === 'width' || n === 'height' ? String(this[n]) : null; }
    addEventListener() {}
    getContext(kind) {
        if (kind !== '2d') return null;
        if (this.#ctx) return this.#ctx;
        const c = this;
        const get = (x, y, w, h) => {
            const d = new ImageDataStub(w, h);
            for (let j = 0; j < h; j++) for (let i = 0; i < w; i++) {
                const [X, Y] = [x + i, y + j];
                if (X < 0 || Y < 0 || X >= c.width || Y >= c.height) continue;
                d.data.set(c.px.subarray((Y * c.width + X) * 4, (Y * c.width + X) * 4 + 4), (j * w + i) * 4);
            }
            return d;
        };
        this.#ctx = {
            canvas: c,
            imageSmoothingEnabled: true,
            getImageData: (x, y, w, h) => {
                if (w === 0 || h === 0) throw new RangeError('IndexSizeError');
                if (x === 0 && y === 0 && w === c.width && h === c.height) return new ImageDataStub(c.px.slice(), w, h);
                return get(x, y, w, h);
            },
            createImageData: (a, b) => typeof a === 'object' ? new ImageDataStub(a.width, a.height) : new ImageDataStub(a, b),
            putImageData: (img, dx, dy, sx = 0, sy = 0, sw = img.width, sh = img.height) => {
                for (let j = sy; j < sy + sh; j++) {
                    const Y = dy + j;
                    if (Y < 0 || Y >= c.height) continue;
                    for (let i = sx; i < sx + sw; i++) {
                        const X = dx + i;
                        if (X < 0 || X >= c.width) continue;
                        const [p, q] = [(Y * c.width + X) * 4, (j * img.width + i) * 4];
                        c.px[p] = img.data[q]; c.px[p + 1] = img.data[q + 1]; c.px[p + 2] = img.data[q + 2]; c.px[p + 3] = img.data[q + 3];
                    }
                }
            },
            clearRect: (x, y, w, h) => {
                for (let j = y; j < y + h; j++) for (let i = x; i < x + w; i++)
                    if (i >= 0 && j >= 0 && i < c.width && j < c.height) c.px.fill(0, (j * c.width + i) * 4, (j * c.width + i) * 4 + 4);
            },
        };
        return this.#ctx;
    }
}
let canvas;
const idOf = (s) => (s === '#' + canvasId || s === 'canvas' || s === 'canvas#' + canvasId) ? canvas : null;
globalThis.ImageData = ImageDataStub;
globalThis.document = {
    querySelector: idOf, querySelectorAll: (s) => [idOf(s)].filter((x) => x), getElementById: (s) => s === canvasId ? canvas : null,
    getElementsByTagName: (s) => s.toLowerCase() === 'canvas' ? [canvas] : [], addEventListener: (e, f) => { if (e === 'DOMContentLoaded') queueMicrotask(f); },
    readyState: 'interactive', createElement: () => ({ style: {}, addEventListener() {}, appendChild() {} }), body: { appendChild() {} },
};
globalThis.window = globalThis;
globalThis.requestAnimationFrame = (f) => setTimeout(f, 0);
globalThis.addEventListener = (e, f) => { if (e === 'load') queueMicrotask(f); };
const realConsole = console.log.bind(console);
console.log = () => {};
const streaming = WebAssembly.instantiateStreaming;

// ---- modules that keep a given frame buffer anywhere in their memory
function leb(n) { const v = []; do { let b = n & 127; n >>>= 7; if (n) b |= 128; v.push(b); } while (n); return v; }
function sleb(n) { const v = []; for (;;) { const b = n & 127; n >>= 7; if ((n === 0 && !(b & 64)) || (n === -1 && (b & 64))) { v.push(b); return v; } v.push(b | 128); } }
function str(s) { return [...leb(s.length), ...Buffer.from(s)]; }
function section(id, body) { return [id, ...leb(body.length), ...body]; }
/// late: the content is in the frame buffer only after init()
function module(ptr, pages, fb, late) {
    const at = late ? (ptr >= BYTES ? 0 : ptr + BYTES) : ptr;
    const init = late ? [0x41, ...sleb(ptr), 0x41, ...sleb(at), 0x41, ...sleb(BYTES), 0xfc, 0x0a, 0, 0] : [];
    const f0 = [0, ...init, 0x0b];
    const f1 = [0, 0x41, ...sleb(ptr), 0x0b];
    const head = [0, 0x61, 0x73, 0x6d, 1, 0, 0, 0,
        ...section(1, [2, 0x60, 0, 0, 0x60, 0, 1, 0x7f]),
        ...section(3, [2, 0, 1]),
        ...section(5, [1, 0, ...leb(pages)]),
        ...section(7, [3, ...str('memory'), 2, 0, ...str('init'), 0, 0, ...str('frame_buf_ptr'), 0, 1]),
        ...section(10, [2, ...leb(f0.length), ...f0, ...leb(f1.length), ...f1])];
    const dh = [1, 0, 0x41, ...sleb(at), 0x0b, ...leb(fb.length)];
    const data = [11, ...leb(dh.length + fb.length), ...dh];
    const out = new Uint8Array(head.length + data.length + fb.length);
    out.set(head);
    out.set(data, head.length);
    out.set(fb, head.length + data.length);
    return out;
}

let count = 0, loads = 0, nontrivial = 0, failures = 0;
const files = readdirSync(page).filter((f) => /\.m?js$/.test(f));
const fail = (what, x) => { if (failures++ < 3) realConsole(JSON.stringify({ what, ...x })); };

/// Load the page with this module; the canvas afterwards
async function load(wasm, stream, ticks) {
    canvas = new CanvasStub(attr('width', 300), attr('height', 150));
    const errors = [];
    let fetched = 0;
    globalThis.fetch = async (url) => {
        fetched++;
        const name = String(url && url.url ? url.url : url).split('/').pop().split('?')[0];
        if (name !== 'demo.wasm') errors.push('fetches ' + name);
        for (let i = 0; i < ticks; i++) await new Promise((r) => setImmediate(r));
        return new Response(wasm, { headers: { 'Content-Type': 'application/wasm' } });
    };
    if (stream) WebAssembly.instantiateStreaming = streaming;
    else delete WebAssembly.instantiateStreaming;
    const d = join(dir, `p${part}-${count++}`);
    mkdirSync(d);
    for (const f of files) copyFileSync(join(page, f), join(d, f));
    writeFileSync(join(d, 'package.json'), '{"type":"module"}');
    const onReject = (e) => errors.push(String(e && e.stack || e));
    process.on('unhandledRejection', onReject);
    try { await import(pathToFileURL(join(d, script)).href); } catch (e) { errors.push(String(e && e.stack || e)); }
    // the page is done when nothing is pending any more: wait for its canvas to have its size
    for (let i = 0; i < 400 && !errors.length; i++) {
        await new Promise((r) => i < 60 ? setImmediate(r) : setTimeout(r, 5));
        if (canvas.width === W && canvas.height === H && canvas.px.some((x) => x)) break;
    }
    for (let i = 0; i < 4; i++) await new Promise((r) => setImmediate(r));
    process.off('unhandledRejection', onReject);
    rmSync(d, { recursive: true });
    loads++;
    return errors[0];
}

function compare(fb, desc) {
    if (canvas.width !== W || canvas.height !== H) return fail(`the canvas is ${canvas.width}x${canvas.height}`, desc);
    const w32 = new Uint32Array(fb.buffer, fb.byteOffset, H * WPL);
    const px = canvas.px;
    let ink = -1, both = 0;
    for (let y = 0; y < H; y++) for (let x = 0; x < W; x++) {
        const off = w32[y * WPL + (x >> 5)] >>> (x & 31) & 1;   // 1 is clear, 0 is black
        const p = (y * W + x) * 4;
        both |= 1 << off;
        if (off ? px[p + 3] !== 0 : px[p + 3] !== 255) return fail(`frame buffer pixel (${x},${y}) is ${off ? 'off' : 'on'}, canvas pixel has alpha ${px[p + 3]}`, desc);
        if (!off) {
            const c = px[p] << 16 | px[p + 1] << 8 | px[p + 2];
            if (ink < 0) ink = c;
            if (ink !== c) return fail(`on pixels have different colours at (${x},${y})`, desc);
            if (px[p] + px[p + 1] + px[p + 2] > 384) return fail(`the on pixel (${x},${y}) is light`, desc);
        }
    }
    if (both === 3) nontrivial++;
}

// ---- contents: functions word index -> word
const lfsr = (k) => { let s = k * 2654435761 >>> 0 || 1; return () => { s ^= s << 13; s >>>= 0; s ^= s >>> 17; s ^= s << 5; s >>>= 0; return s; }; };
const contents = [];
const bitAt = (f) => (i) => { let w = 0; for (let b = 0; b < 32; b++) w |= (f(i % WPL * 32 + b, Math.floor(i / WPL)) ? 1 : 0) << b; return w >>> 0; };
for (const inv of [0, 1]) {
    const put = (name, f) => contents.push([name + (inv ? ' inverted' : ''), (i) => (f(i) ^ (inv ? 0xffffffff : 0)) >>> 0]);
    put('clear', () => 0xffffffff);
    for (let j = 0; j < 18; j++) put(`bit ${j} of the pixel number`, bitAt((x, y) => (y * W + x) >> j & 1));
    for (let b = 0; b < 32; b++) put(`bit ${b} of every word`, () => (1 << b) >>> 0);
    for (let c = 0; c < WPL; c++) put(`word column ${c}`, (i) => i % WPL === c ? 0xffffffff : 0);
    for (let y = 0; y < H; y += tier === 'thorough' ? 1 : 9) put(`row ${y}`, (i) => Math.floor(i / WPL) === y ? 0xffffffff : 0);
    put('padding', (i) => i % WPL === WPL - 1 ? 0xffff0000 : 0);
    for (let k = 1; k <= 20; k++) { const r = lfsr(k); const v = Array.from({ length: H * WPL }, r); put(`pseudorandom ${k}`, (i) => v[i]); }
    for (let b = 0; b < 4; b++) for (const v of [0x7f, 0x80, 0xff, 0x01, 0xfe]) put(`byte ${b} is ${v}`, () => (v << b * 8) >>> 0);
}
if (tier === 'thorough') {
    for (let k = 0; k < H * WPL; k++) contents.push([`only word ${k}`, (i) => i === k ? 0 : 0xffffffff]);
    for (let k = 0; k < W * H; k += 29) contents.push([`only pixel ${k}`, bitAt((x, y) => y * W + x !== k)]);
}
const places = [[0, 2], [4, 1], [65536 - BYTES, 1], [65536, 2], [1052, 3], [0x100000, 24], [0x100004, 40]];
if (tier === 'thorough') for (let p = 8; p < 65536 - BYTES; p += 1024) places.push([p, 1]);
if (tier === 'thorough') places.push([0x7fff0000 - BYTES, 0x7fff]);

const jobs = [];
contents.forEach((c, i) => {
    for (const stream of [true, false]) jobs.push({ c, place: places[(i + (stream ? 0 : 3)) % Math.min(places.length, 7)], stream, late: (i >> 1) % 2 === 0, ticks: i % 3 });
});
for (const place of places) for (const stream of [true, false]) for (const late of [true, false]) for (const ticks of [0, 1, 5])
    jobs.push({ c: contents[60 + jobs.length % 30], place, stream, late, ticks });

const samples = [];
for (let k = +part; k < jobs.length && failures < 3; k += +parts) {
    const j = jobs[k];
    const fb = new Uint8Array(BYTES);
    const w32 = new Uint32Array(fb.buffer);
    for (let i = 0; i < w32.length; i++) w32[i] = j.c[1](i);
    const desc = { content: j.c[0], position: j.place[0], pages: j.place[1], loading: j.stream ? 'streaming' : 'fallback', late: j.late, ticks: j.ticks };
    const pages = j.late ? Math.max(j.place[1], Math.ceil((Math.max(j.place[0], BYTES) + BYTES * 2) / 65536)) : j.place[1];
    const err = await load(module(j.place[0], pages, fb, j.late), j.stream, j.ticks);
    if (err) fail('the page fails: ' + err.slice(0, 300), desc); else compare(fb, desc);
    if (samples.length < 2) samples.push(desc);
}
// ---- the real module
if (+part === 0 && realWasm) {
    const screens = JSON.parse(readFileSync(nativeScreens, 'utf8'));
    // and the one the page comes with
    const shipped = process.argv[3] + '/demo.wasm';
    for (const [file, name] of [[realWasm, 'the demo module built from the sources'], [shipped, 'the demo module in the folder of the page']]) for (const stream of [true, false]) for (const ticks of [0, 3]) {
        if (file === shipped && !existsSync(file)) continue;
        const wasm = readFileSync(file);
        const desc = { content: name, loading: stream ? 'streaming' : 'fallback', ticks };
        const err = await load(wasm, stream, ticks);
        if (err) { fail('the page fails: ' + err.slice(0, 300), desc); continue; }
        const before = failures;
        const shown = (s) => { const q = canvas.px; for (let y = 0; y < H; y++) for (let x = 0; x < W; x++) if ((s[y * WPL + (x >> 5)] >>> (x & 31) & 1) !== (q[(y * W + x) * 4 + 3] === 0 ? 1 : 0)) return false; return true; };
        const hit = screens.find((s) => shown(s.words));
        if (!hit) fail('the canvas shows none of the demo screens as the native library paints them', desc);
        else if (hit.name !== 'goose_poem') fail(`the canvas shows ${hit.name}, not the poem`, desc);
        else compare(new Uint8Array(Uint32Array.from(hit.words).buffer), desc);
    }
}
realConsole(JSON.stringify({ done: true, loads, nontrivial, failures, jobs: jobs.length, contents: contents.length, places: places.length, samples }));
process.exit(0);
