// node parity.mjs <wasm> digest <from> <to> <step> | op <group> <k>
import { readFileSync } from 'node:fs';
const [wasm, cmd, ...n] = process.argv.slice(2);
const mod = new WebAssembly.Module(readFileSync(wasm));
let ex;
const fresh = () => { ex = new WebAssembly.Instance(mod, {}).exports; };
fresh();
const hex = (v) => (v >>> 0).toString(16).padStart(8, '0');
const attempt = (f) => { try { return f(); } catch (e) { fresh(); return 'trap'; } };
if (cmd === 'digest') {
    for (let g = +n[0]; g < +n[1]; g += +n[2]) {
        const d = attempt(() => hex(ex.parity_digest(g)));
        console.log(`${g} ${d}`);
    }
} else {
    console.log(attempt(() => hex(ex.parity_op(+n[0], +n[1]))));
}
