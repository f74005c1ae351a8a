'use strict';
// Units whose variables start narrow and are assigned a wide value at exactly one place of the control flow.
const VN = ['k_', 'acc', 'm.n', 'w$', 'usr_9', 'sum', 'idx'];
const narrow = (r) => r.pick(['0', '1', '5', '0x07', '255', '65535', '999999999', '4294967295', 'true', 'false', 'calldatasize()', 'returndatasize()', 'lt(1, 2)', 'timestamp()', 'number()', 'iszero(0)', '"a"', 'shr(224, calldataload(0))', 'gas0()', 'mload(0)', 'sload(9)', 'caller()', '12345678901', '18446744073709551615', 'eq(calldatasize(), 4)', 'add(calldatasize(), not(3))', 'codesize()', 'chainid()', 'tload(1)', '', 'byte(31, 7)', 'and(timestamp(), 255)']).replace('gas0()', 'msize0').replace('msize0', '3');
const wide = (r, v) => r.pick(['calldataload(36)', `not(${v})`, `sub(${v}, 9)`, 'shl(200, 3)', 'sload(1)', 'mul(calldataload(36), calldataload(68))', `exp(3, 150)`, `xor(${v}, calldataload(36))`, 'shl(32, add(calldatasize(), 1))', 'shl(64, add(calldatasize(), 1))', '4294967296', '0x010000000000000000', '18446744073709551616', 'not(0)', 'address()', 'keccak256(0, 32)', 'idw(calldataload(36))', 'sub(0, 1)', 'shl(255, 1)', 'shl(31, 1)']);
// wraps the statement so that it stays the only place; cnt gives fresh loop counters
function wrap(r, st, d, C, f) {
  if (d <= 0) return st;
  const i = 'it' + C.n++; const cond = () => r.pick(['1', 'calldatasize()', 'iszero(0)', 'lt(1, 2)', 'calldataload(4)', 'iszero(calldataload(4))', 'gt(calldatasize(), 3)', 'callvalue()', 'true']);
  const k = r.pick(['if', 'case', 'default', 'defonly', 'block', 'forbody', 'forpost', 'forinit', 'while', 'cont', 'seq', 'casefirst', 'caselast', 'break']); f('spot:' + k);
  const s = wrap(r, st, d - 1, C, f); const eff = () => r.pick(['', `sstore(7, ${r.int(9)})`, 'pop(tr0(1))', 'mstore(0, calldataload(36))']);
  const sel = () => r.pick(['and(calldataload(4), 3)', '3', 'and(calldatasize(), 3)', 'calldataload(4)', 'shr(224, calldataload(0))']);
  switch (k) {
    case 'if': return `if ${cond()} { ${s} ${eff()} }`;
    case 'case': { const e = sel(); return `switch ${e} case 0 { ${eff()} } case 3 { ${s} } case 2 { ${eff()} }${r.bool() ? ` default { ${eff()} }` : ''}`; }
    case 'casefirst': return `switch ${sel()} case ${r.int(4)} { ${s} } default { ${eff()} }`;
    case 'caselast': { const n = r.bool(0.2) ? 30 : 4; return `switch ${r.pick([sel(), 'sub(calldatasize(), 4)', 'div(calldatasize(), 32)'])} ${Array.from({ length: n }, (_, q) => `case ${q + 10} { ${eff()} }`).join(' ')} case ${r.int(4)} { ${s} }`; }
    case 'default': return `switch ${sel()} case ${r.pick(['77', '0x0100000000', 'not_'.length, '18446744073709551616'])} { ${eff()} } case 2 { ${eff()} } default { ${s} }`;
    case 'defonly': return `switch ${sel()} default { ${s} }`;
    case 'block': return `{ ${s} }`;
    case 'forbody': return `for { let ${i} := 0 } lt(${i}, ${1 + r.int(2)}) { ${i} := add(${i}, 1) } { ${eff()} ${s} }`;
    case 'forpost': return `for { let ${i} := 0 } lt(${i}, ${1 + r.int(2)}) { ${r.bool() ? `${i} := add(${i}, 1) ${s}` : `${s} ${i} := add(${i}, 1)`} } { ${eff()} }`;
    case 'forinit': return `for { ${s} let ${i} := 0 } lt(${i}, 2) { ${i} := add(${i}, 1) } { ${eff()} }`;
    case 'while': return `for {} ${r.pick(['1', 'calldatasize()'])} {} { ${s} break }`;
    case 'cont': return `for { let ${i} := 0 } lt(${i}, 3) { ${i} := add(${i}, 1) } { if eq(${i}, ${r.int(3)}) { continue } ${s} }`;
    case 'break': return `for { let ${i} := 0 } lt(${i}, 4) { ${i} := add(${i}, 1) } { if gt(${i}, ${r.int(3)}) { break } ${s} }`;
    default: return `${eff()} ${s} ${eff()}`;
  }
}
// a switch on a narrow value with case values that only agree in their low bits
function wideCases(r, v, f) {
  f('spot:wide-case'); const [e, at] = r.pick([['calldatasize()', [4, 36, 100, 196]], ['shr(224, calldataload(0))', [0, 1, 2, 3, 4, 5, 6, 7]], ['timestamp()', [3, 7]], ['number()', [3, 7]], ['returndatasize()', [0]], ['lt(1, calldatasize())', [1]], ['iszero(calldatasize())', [0]], ['eq(calldataload(4), 1)', [0, 1]], ['true', [1]], ['5', [5]], ['and(timestamp(), 7)', [0, 1, 2, 3, 4, 5, 6, 7]], ['calldataload(4)', [0, 1, 2, 3, 4, 5, 6, 7]]]);
  const ks = new Map(); const n = r.pick([1, 2, 4, 9, 12, 20, 33]); const add = (x, w) => { if (x >= 0n && x < 1n << 256n && !ks.has(x)) ks.set(x, w); };
  const L = []; for (let i = 0; i < n; i++) L.push(BigInt(1000 + 13 * i)); for (let i = 0; i < 1 + r.int(3); i++) L.splice(r.int(L.length + 1), 0, BigInt(r.pick(at)) + (BigInt(1 + r.int(3)) << BigInt(r.pick([8, 31, 32, 33, 48, 63, 64, 65, 128, 192, 248, 254]))));
  if (r.bool()) L.splice(r.int(L.length + 1), 0, BigInt(r.pick(at))); for (const x of L) add(x, 1);
  return `switch ${e} ${[...ks.keys()].map((x, i) => `case ${r.bool() ? x : '0x' + x.toString(16)} { ${v} := add(${v}, ${i + 1}) }`).join(' ')} default { ${v} := mul(${v}, 3) }`;
}
// returns {body, fns}: statements of a unit, its result at 1024
function spots(r, u, f, magic) {
  const C = { n: 0 }; let body = '', fns = ''; const res = []; let names = r.shuffle(VN.slice());
  for (let t = 0; t < 2 + r.int(2); t++) {
    const v = names.pop(); const k = r.pick(['plain', 'plain', 'plain', 'param', 'ret', 'tuple', 'tuplelet', 'cases', 'callers'].concat(magic ? ['callers', 'callers', 'callers'] : [])); f('spot-kind:' + k); const d = 1 + r.int(3);
    if (k === 'plain') { const n = narrow(r); body += `let ${v}${n ? ' := ' + n : ''}\n${wrap(r, `${v} := ${wide(r, v)}`, d, C, f)}\n`; res.push(v); }
    else if (k === 'cases') { body += `let ${v} := ${r.pick(['1', 'calldataload(36)'])}\n${wideCases(r, v, f)}\n`; res.push(v); }
    else if (k === 'callers') { // what a function does to its parameters is not seen by its caller
      const N = magic && r.bool(0.7) ? 3 : 1 + r.int(4), n = magic ? `${r.pick(['fun_transfer', 'fun__transfer', 'abi_decode_address', 'fun_transfer_'])}sp${u}_${t}` : `sp${u}_${t}`, P = Array.from({ length: N }, (_, i) => v + 'p' + i), at = r.int(magic ? Math.min(N, 2) : N), w = wrap(r, `${P[at]} := ${wide(r, P[at])}`, d, C, f);
      fns += `function ${n}(${P.join(', ')})${r.pick([' -> q', ''])} { ${w} mstore(96, xor(${P[at]}, mload(96)))${r.bool(0.3) ? ` ${P[r.int(N)]} := mload(96)` : ''} }\n`; const ret = /-> q/.test(fns.slice(fns.lastIndexOf('function ')).split('{')[0]);
      const L = P.map((x) => x + 'a'); body += L.map((x) => `let ${x} := ${magic && r.bool(0.6) ? r.pick(['address()', 'caller()', 'origin()', 'coinbase()', 'sload(1)', 'calldataload(36)', 'mload(0)', 'blockhash(3)']) : r.pick(['calldataload(36)', 'calldataload(68)', 'address()', 'caller()', 'keccak256(0, 32)', 'sload(1)', 'tload(1)', 'callvalue()', 'mload(0)', 'blockhash(3)', 'and(calldataload(36), sub(shl(160, 1), 1))', narrow(r) || '3'])}\n`).join(''); const call = `${n}(${L.map((x) => (r.bool(0.8) ? x : r.pick(L))).join(', ')})`; body += (ret ? `pop(${call})` : call) + '\n' + (r.bool(0.3) ? (ret ? `pop(${call})` : call) + '\n' : ''); res.push(...L); if (r.bool()) { body += `let ${v}m := mload(96)\n`; res.push(v + 'm'); } }
    else if (k === 'param') { const n = `sp${u}_${t}`; fns += `function ${n}(${v}) -> q { ${wrap(r, `${v} := ${wide(r, v)}`, d, C, f)} q := ${v} }\n`; body += `let ${v} := ${n}(${narrow(r) || '4'})\n`; res.push(v); }
    else if (k === 'ret') { const n = `sp${u}_${t}`, N = 1 + r.int(r.bool(0.3) ? 14 : 8), at = r.int(N); fns += `function ${n}(a_) -> ${Array.from({ length: N }, (_, i) => 'r' + i).join(', ')} { ${Array.from({ length: N }, (_, i) => (i === at ? wrap(r, `r${i} := ${wide(r, 'a_')}`, d, C, f) : `r${i} := add(a_, ${i})`)).join(' ')} ${r.bool(0.3) ? 'if callvalue() { leave }' : ''} }\n`; const L = Array.from({ length: N }, (_, i) => v + i); body += `let ${L.join(', ')} := ${n}(${narrow(r) || '4'})\n`; res.push(...L); }
    else { const n = `sp${u}_${t}`, N = 2 + r.int(r.bool(0.3) ? 12 : 6); fns += `function ${n}_(a_) -> ${Array.from({ length: N }, (_, i) => 'r' + i).join(', ')} { ${Array.from({ length: N }, (_, i) => `r${i} := ${wide(r, 'a_')}`).join(' ')} }\n`;
      const L = Array.from({ length: N }, (_, i) => v + i);
      if (k === 'tuplelet') { fns += `function ${n}(b_) -> ${r.shuffle(L.slice()).join(', ')} { ${wrap(r, `${L.join(', ')} := ${n}_(b_)`, d, C, f)} }\n`; body += `let ${L.join(', ')} := ${n}(${narrow(r) || '4'})\n`; }
      else body += L.map((x) => { const w = narrow(r); return `let ${x}${w ? ' := ' + w : ''}`; }).join('\n') + `\n${wrap(r, `${r.shuffle(L.slice()).join(', ')} := ${n}_(calldataload(36))`, d, C, f)}\n`;
      res.push(...L); }
  }
  res.forEach((v, i) => { body += `mstore(${1024 + 32 * i}, ${v})\n`; });
  return { body: body + `return(1024, ${32 * res.length})\n`, fns: fns + '' };
}
module.exports = { spots };
