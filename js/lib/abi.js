'use strict';
// ABI encoding written from the contract ABI specification.
const { keccak256 } = require('./keccak.js'); const { h64, hex } = require('./util.js');
const canon = (t) => t.replace(/^(u?int)(?=\[|$)/, '$1256');
const isDyn = (t) => /\[\]$/.test(t) || t === 'string';
const pad = (h) => h.padEnd(Math.ceil(h.length / 64) * 64, '0');
function enc(t, v) { // v: bigint | boolean | string | array
  if (/\[\]$/.test(t)) { const e = t.slice(0, -2); return h64(BigInt(v.length)) + tuple(v.map(() => e), v); }
  if (t === 'string') { const b = Buffer.from(v, 'utf8'); return h64(BigInt(b.length)) + pad(hex(b)); }
  if (t === 'bool') return h64(v ? 1n : 0n);
  return h64(BigInt.asUintN(256, v));
}
function tuple(ts, vs) {
  let head = '', tail = ''; const hl = 32 * ts.length;
  ts.forEach((t, i) => { const e = enc(t, vs[i]); if (isDyn(t)) { head += h64(BigInt(hl + tail.length / 2)); tail += e; } else head += e; });
  return head + tail;
}
const selector = (name, ts) => hex(keccak256(Buffer.from(`${name}(${ts.map(canon).join(',')})`))).slice(0, 8);
module.exports = { calldata: (name, ts, vs) => '0x' + selector(name, ts) + tuple(ts, vs), selector };
