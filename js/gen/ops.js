'use strict';
// Programs that apply one builtin to operands in every representation the compiler may pick.
const { toBytes } = require('../lib/util.js');
const ARITH = { add: 2, sub: 2, mul: 2, div: 2, sdiv: 2, mod: 2, smod: 2, exp: 2, addmod: 3, mulmod: 3, signextend: 2 };
const CMP = { lt: 2, gt: 2, slt: 2, sgt: 2, eq: 2, iszero: 1, and: 2, or: 2, xor: 2, not: 1, byte: 2, shl: 2, shr: 2, sar: 2 };
const FORMS = ['cd', 'ptrvar', 'u256var', 'sl', 'ml', 'dec', 'hex', 'sel', 'i64', 'cmp', 'fnret', 'tload', 'const64', 'bool', 'cds', 'uninit', 'addr', 'nested'];
// One operand: {pre: statements, ex: expression, fixed: value|undefined}. n = operand index (calldata slot).
function operand(rng, form, n, val) {
  const cd = `calldataload(${36 + 32 * n})`;
  switch (form) {
    case 'cd': return { pre: '', ex: cd };
    case 'ptrvar': return { pre: `let p${n} := ${cd}\n`, ex: `p${n}` };
    case 'u256var': return { pre: `let u${n} := add(${cd}, 0x00)\n`, ex: `u${n}` };
    case 'sl': return { pre: `sstore(${n + 5}, ${cd})\n`, ex: `sload(${n + 5})` };
    case 'tload': return { pre: `tstore(${n + 5}, ${cd})\n`, ex: `tload(${n + 5})` };
    case 'ml': return { pre: `mstore(${256 + 32 * n}, ${cd})\n`, ex: `mload(${256 + 32 * n})` };
    case 'dec': return { pre: '', ex: val.toString() };
    case 'hex': return { pre: '', ex: '0x' + (rng.bool(0.2) && val < (1n << 240n) ? '00' : '') + (rng.bool(0.3) ? val.toString(16).toUpperCase() : val.toString(16)) };
    case 'sel': return { pre: '', ex: 'shr(224, calldataload(0))' };
    case 'i64': return { pre: '', ex: rng.pick(['timestamp()', 'number()', 'gas()', 'gaslimit()']) };
    case 'cmp': return { pre: '', ex: rng.pick([`iszero(${cd})`, `lt(${cd}, 0x8000000000000000000000000000000000000000000000000000000000000000)`, `eq(${cd}, 0)`]) };
    case 'fnret': return { pre: '', ex: `idf(${cd})` };
    case 'const64': return { pre: '', ex: rng.pick(['shl(40, 3)', 'shl(5, 3)', 'shl(62, 1)', 'shl(63, 1)', 'shl(31, 1)', 'shl(30, 1)', 'shl(200, 5)', 'shl(255, 3)', 'shl(256, 1)', 'shl(0, 7)']) };
    case 'bool': return { pre: '', ex: rng.pick(['true', 'false']) };
    case 'cds': return { pre: '', ex: 'calldatasize()' };
    case 'uninit': return { pre: `let z${n}\n`, ex: `z${n}` };
    case 'addr': return { pre: '', ex: rng.pick(['caller()', 'address()', 'origin()', 'callvalue()', 'selfbalance()', 'chainid()']) };
    case 'nested': return { pre: '', ex: rng.pick([`not(not(${cd}))`, `add(${cd}, ${cd})`, `and(${cd}, not(0))`, `sub(0, ${cd})`, `mul(${cd}, 3)`, `xor(${cd}, 0xffffffffffffffffffffffffffffffffffffffffffffffff)`]) };
  }
  throw new Error(form);
}
// result positions
const SINKS = {
  mstore: (e) => `mstore(0, ${e})`, letvar: (e) => `let r := ${e}\nmstore(0, r)`, assign: (e) => `let r := 0\nr := ${e}\nmstore(0, r)`, sstore: (e) => `sstore(1, ${e})\nmstore(0, sload(1))`,
  fnarg: (e) => `mstore(0, idf(${e}))`, ret: (e) => `mstore(0, ${e})`, arith: (e) => `mstore(0, add(${e}, 1))`, notnot: (e) => `mstore(0, not(${e}))`, ifz: (e) => `mstore(0, 5)\nif ${e} { mstore(0, 9) }`,
  sw: (e) => `switch ${e} case 0 { mstore(0, 11) } case 1 { mstore(0, 12) } default { mstore(0, 13) }`, tstore: (e) => `tstore(1, ${e})\nmstore(0, tload(1))`, cmpz: (e) => `mstore(0, iszero(${e}))`, log: (e) => `log1(0, 0, ${e})`,
};
const shiftBy = (rng) => BigInt(rng.bool(0.5) ? rng.int(270) : rng.pick([0, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 160, 191, 192, 193, 224, 247, 248, 249, 254, 255, 256, 257]));
function opCases(rng, table, count) {
  const names = Object.keys(table), cases = [];
  for (let i = 0; i < count; i++) {
    const op = names[i % names.length], n = table[op], forms = [], parts = [];
    for (let j = 0; j < n; j++) {
      let form = rng.pick(FORMS); forms.push(form);
      let v = rng.u256(); if ((op === 'byte' || op === 'signextend') && j === 0) v = rng.bool(0.7) ? BigInt(rng.int(36)) : v; if (['shl', 'shr', 'sar'].includes(op) && j === 0) v = rng.bool(0.7) ? shiftBy(rng) : v;
      if (op === 'exp' && rng.bool(0.6)) v = j ? BigInt(rng.pick([rng.int(80), rng.int(260)])) : rng.pick([2n, 10n, 256n, 16n, 1n << BigInt(rng.int(256))]);
      parts.push(operand(rng, form, j, v));
    }
    const sink = rng.wpick([[6, 'mstore'], [2, 'letvar'], [2, 'assign'], [1, 'sstore'], [1, 'fnarg'], [1, 'arith'], [1, 'notnot'], [1, 'ifz'], [1, 'sw'], [1, 'tstore'], [1, 'cmpz'], [1, 'log']]);
    cases.push({ id: i, op, forms, sink, body: parts.map((p) => p.pre).join('') + SINKS[sink](`${op}(${parts.map((p) => p.ex).join(', ')})`) + '\nreturn(0, 32)' });
  }
  return cases;
}
function program(cases, o = {}) {
  const b = cases.map((c) => `case ${c.id} { t${c.id}() }`).join('\n');
  const f = cases.map((c) => `function t${c.id}() {\n${c.body}\n}`).join('\n');
  const code = `{ switch shr(224, shl(32, calldataload(0)))\n${b}\ndefault { revert(0, 0) }\nfunction idf(a) -> r { r := a }\n${o.helpers || ''}${f} }`;
  return o.deploy ? `object "P" { code ${code} }` : `object "P" { code { return(0, 0) } object "P_deployed" { code ${code} } }`;
}
function calldataFor(rng, id, selBytes, vals) { // 4 selector bytes, 4 bytes case id, padding, then words at 36
  const u = new Uint8Array(36 + 32 * vals.length); u.set(selBytes, 0); new DataView(u.buffer).setUint32(4, id);
  vals.forEach((v, i) => u.set(toBytes(v), 36 + 32 * i)); return u;
}
function valuesFor(rng, op, n) {
  const vals = []; for (let j = 0; j < n; j++) vals.push(rng.u256());
  if (n >= 2 && rng.bool(0.2)) vals[1] = vals[0];
  if (['byte', 'signextend'].includes(op) && rng.bool(0.75)) vals[0] = BigInt(rng.int(36));
  if (['shl', 'shr', 'sar'].includes(op) && rng.bool(0.75)) vals[0] = shiftBy(rng);
  if (['div', 'sdiv', 'mod', 'smod', 'addmod', 'mulmod'].includes(op) && rng.bool(0.2)) vals[n - 1] = 0n;
  if (op === 'exp' && rng.bool(0.7)) { // the bases and exponents of everyday use and where their powers leave the word
    const b = rng.pick([2n, 3n, 4n, 5n, 7n, 8n, 10n, 16n, 32n, 100n, 255n, 256n, 257n, 1000n, 65536n, 1n << BigInt(rng.int(256)), (1n << 256n) - 1n, (1n << 256n) - 2n, 0n, 1n]); vals[0] = b;
    vals[1] = rng.pick([() => BigInt(rng.int(40)), () => BigInt(rng.int(40)), () => BigInt(rng.int(300)), () => { let k = 0, x = 1n; while (b > 1n && x < 1n << 256n) { x *= b; k++; } return BigInt(Math.max(0, k + rng.range(-2, 1))); }, () => { let k = 0, x = 1n; while (b > 1n && x < 1n << 256n) { x *= b; k++; } return BigInt(Math.max(0, k + rng.range(-2, 1))); }, () => 1n << BigInt(rng.int(256)), () => (1n << 256n) - 1n])();
  }
  if (n >= 2 && ['lt', 'gt', 'slt', 'sgt', 'eq', 'sub', 'add', 'xor', 'and', 'div', 'mod', 'sdiv', 'smod', 'addmod', 'mulmod'].includes(op) && rng.bool(0.3)) { // operands that are related
    const M = (1n << 256n) - 1n, i = n === 3 && rng.bool() ? 2 : 1, a = vals[0]; vals[i] = M & rng.pick([() => a ^ (1n << BigInt(rng.int(256))), () => a + BigInt(rng.range(1, 3)), () => a - BigInt(rng.range(1, 3)), () => -a, () => ~a, () => a >> BigInt(rng.int(256)), () => a << BigInt(rng.int(256)), () => a ^ (1n << 255n), () => a ^ (M >> BigInt(rng.int(256))), () => a * BigInt(rng.range(2, 9))])();
  }
  if (op === 'sdiv' && rng.bool(0.1)) { vals[0] = 1n << 255n; vals[1] = (1n << 256n) - 1n; }
  return vals;
}
module.exports = { ARITH, CMP, FORMS, opCases, program, calldataFor, valuesFor, SINKS };
