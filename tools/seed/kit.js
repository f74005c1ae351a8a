'use strict';
// Demonstration kit: builds the real compiler of the repository in a scratch directory, compiles Yul with it and runs the result.
const path = require('path');
const C = require('./js/lib/compile.js'); const { World } = require('./js/lib/world.js'); const { runWasm } = require('./js/lib/host.js'); const fe = require('./js/lib/fe.js');
const K = { World, fe };
K.fail = (m) => { console.log('FAILED: ' + m); process.exit(1); };
K.check = (c, m) => { if (!c) K.fail(m); };
K.eq = (a, b, m) => { const x = String(a), y = String(b); if (x !== y) K.fail(`${m}: ${x} instead of ${y}`); };
K.compile = (src, flags = []) => C.compile(src, flags);
K.module = (src, flags = []) => { const r = C.compile(src, flags); if (!r.ok) K.fail('does not compile: ' + r.stdout + r.stderr); return new WebAssembly.Module(r.wasm); };
// one transaction: {out, events, host, w}
K.tx = (mod, spec = {}, o = {}) => { const w = o.world || new World(spec); const r = runWasm(mod, o.entry || 'deploy', w); return { out: r.out, events: w.events, host: r.host, w }; };
K.word = (v) => (BigInt.asUintN(256, BigInt(v))).toString(16).padStart(64, '0');
// runs code in a main block and returns the 32-byte words it returns
K.run = (code, spec, flags) => { const t = K.tx(K.module(`object "T" { code { ${code} } }`, flags), spec); return t; };
K.ret = (code, spec, flags) => { const t = K.run(code, spec, flags); if (t.out.kind !== 'return') K.fail('ended with ' + JSON.stringify(t.out)); return t.out.data; };
K.hex = (s) => Uint8Array.from(Buffer.from(s.replace(/^0x/, ''), 'hex'));
module.exports = K;
if (require.main === module) Promise.resolve(require(path.resolve(process.argv[2]))(K)).then(() => console.log('as it should be'), (e) => { console.log(e); process.exit(1); });
