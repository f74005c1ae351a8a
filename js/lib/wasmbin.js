'use strict';
// Imports (with their types), exports and custom sections of a wasm module, read from its bytes.
const T = { 0x7f: 'i', 0x7e: 'I', 0x7d: 'f', 0x7c: 'F' };
function read(buf) {
  const b = Buffer.from(buf); let p = 8; const types = [], imports = [], exports = [], custom = [], funcs = [];
  if (b.readUInt32LE(0) !== 0x6d736100 || b.readUInt32LE(4) !== 1) throw new Error('no wasm header');
  const u = () => { let r = 0, s = 0, c; do { c = b[p++]; r += (c & 127) * 2 ** s; s += 7; } while (c & 128); return r; };
  const name = () => { const n = u(); p += n; return b.toString('utf8', p - n, p); };
  const limits = () => { const f = u(); const lo = u(); return f & 1 ? [lo, u()] : [lo, null]; };
  while (p < b.length) {
    const id = b[p++], n = u(), end = p + n;
    if (id === 0) custom.push(name());
    else if (id === 1) for (let k = u(); k; k--) { if (b[p++] !== 0x60) throw new Error('type'); const P = Array.from({ length: u() }, () => T[b[p++]] || '?'), Q = Array.from({ length: u() }, () => T[b[p++]] || '?'); types.push(P.join('') + ':' + Q.join('')); }
    else if (id === 2) for (let k = u(); k; k--) { const mod = name(), nm = name(), kind = b[p++]; if (kind === 0) imports.push({ mod, name: nm, kind: 'func', type: types[u()] }); else { imports.push({ mod, name: nm, kind: ['func', 'table', 'memory', 'global'][kind] }); if (kind === 1) { p++; limits(); } else if (kind === 2) limits(); else p += 2; } }
    else if (id === 3) for (let k = u(); k; k--) funcs.push(types[u()]);
    else if (id === 7) for (let k = u(); k; k--) { const nm = name(), kind = b[p++], i = u(); exports.push({ name: nm, kind: ['func', 'table', 'memory', 'global'][kind], index: i }); }
    p = end;
  }
  const nf = imports.filter((i) => i.kind === 'func'); for (const e of exports) if (e.kind === 'func') e.type = e.index < nf.length ? nf[e.index].type : funcs[e.index - nf.length];
  return { types, imports, exports, custom };
}
module.exports = { read };
