// Calls functions of the compiled WebAssembly module on behalf of the checks.
// One JSON request per line, one JSON answer per line (see server.py). An error
// value (a thrown string) is an ordinary refusal; anything else thrown is "bad".
const fs = require('fs');
const path = require('path');
// what the module prints must not mix with the answers
for (const f of ['log', 'info', 'debug', 'warn']) console[f] = console.error;
const m = require(path.join(process.env.GPSW_WASM_PKG, 'cosmian_abe_gpsw.js'));

const arg = (a) => {
    if (a === null) return undefined;
    const k = Object.keys(a)[0], v = a[k];
    if (k === 'b') return new Uint8Array(Buffer.from(v, 'hex'));
    if (k === 's') return v;
    if (k === 'i') return Number(v);
    throw new Error('arg ' + k);
};
const enc = (v) => {
    if (v instanceof Uint8Array) return { b: Buffer.from(v).toString('hex') };
    if (typeof v === 'string') return { s: v };
    if (typeof v === 'number') return { i: String(v) };
    return { n: typeof v };
};
const answer = (line) => {
    const r = JSON.parse(line);
    let args = r.a.map(arg);
    try {
        return { ok: enc(m[r.f](...args)) };
    } catch (e) {
        if (typeof e === 'string') return { err: e, cls: 'string' };
        return { bad: String(e && e.stack ? e.stack : e) };
    }
};
let pending = '';
const buf = Buffer.alloc(1 << 20);
for (;;) {
    let n;
    try {
        n = fs.readSync(0, buf, 0, buf.length, null);
    } catch (e) {
        if (e.code === 'EAGAIN') continue;
        if (e.code === 'EOF') break;
        throw e;
    }
    if (n === 0) break;
    pending += buf.toString('latin1', 0, n);
    let i;
    while ((i = pending.indexOf('\n')) >= 0) {
        const line = Buffer.from(pending.slice(0, i), 'latin1').toString('utf8');
        pending = pending.slice(i + 1);
        fs.writeSync(1, JSON.stringify(answer(line)) + '\n');
    }
}
