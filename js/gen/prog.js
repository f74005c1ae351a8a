'use strict';
// Random whole programs: functions, scopes, loops, switches, tuples, recursion, effects in argument position.
const BIN = ['add', 'sub', 'mul', 'div', 'sdiv', 'mod', 'smod', 'exp', 'signextend', 'lt', 'gt', 'slt', 'sgt', 'eq', 'and', 'or', 'xor', 'byte', 'shl', 'shr', 'sar'];
const NAMES = ['a', 'b', 'c', 'x', 'y', 'val', '_1', 'usr$x', 'p.q', 'i_', 'expr_12', 'zero_t', 'ret', 'value', 'end', 'offset', 'memPtr', 'var_to', 'result', 'i32'];
// names that mean something to the runtime library, the linker or LLVM
const HOSTILE = ['memcpy', 'memset', 'memcmp', 'wrapper_mstore_u256', 'wrapper_mstore_bytes32', 'wrapper_calldata_load', 'wrapper_sload_bytes32', 'deploy', 'finish', 'getCaller', 'main', '_start', 'malloc', 'evm_make_sure_memory', 'evm_access_memory', '__multi3', '__udivti3', 'memory', '__wasm_call_ctors', '__heap_base', '__stack_pointer', 'storageLoad', '__init_evm_heap', 'entry', 'wasm_start', 'init', 'abort', '__abort', 'llvm.trap', 'getCallDataSize', 'memory_alloca_bytes32'  , 'set_is_deploying_tx', 'u256_to_big_endian', 'wrapper_exp', 'f.1', 'P', 'P_deployed'];
// names the code generator looks at
const MAGIC = ['fun_transfer', 'fun__transfer', 'abi_decode_address', 'abi_decode_t_address', 'fun_transfer_'];
const { spots } = require('./spots.js');
class Gen {
  // o: {units, deploy, little} ; avoids constructs whose meaning this compiler changes on purpose (see DESIGN.md)
  constructor(rng, o = {}) { this.r = rng; this.o = o; this.fns = []; this.feat = {}; }
  f(k) { this.feat[k] = (this.feat[k] || 0) + 1; }
  lit() {
    const r = this.r;
    switch (r.int(9)) {
      case 0: return r.bool() ? 'true' : 'false';
      case 1: return '"' + r.pick(['', 'a', 'abc', 'hello world', '0123456789abcdef0123456789abcdef', 'x{}', '//', '/* */', ':=']) + '"';
      case 2: return '0x' + r.u256().toString(16); case 3: return r.u256().toString();
      case 4: return '0x' + r.pick(['00', '0', '01', 'ff', '7fffffff', '80000000', 'ffffffff', '0100000000', 'FFFFffffffffffff', '010000000000000000']);
      case 5: return r.pick(['2147483647', '2147483648', '4294967295', '4294967296', '999999999', '1000000000', '18446744073709551615', '18446744073709551616', '9223372036854775808', '007']);
      default: return String(r.int(r.pick([3, 10, 70])));
    }
  }
  leaf(S) {
    const r = this.r, vs = this.visible(S);
    if (vs.length && r.bool(0.6)) return r.pick(vs);
    if (r.bool(0.45)) return this.lit();
    return r.wpick([[6, `calldataload(${4 + 32 * r.int(6)})`], [1, 'calldatasize()'], [1, 'caller()'], [1, 'callvalue()'], [1, 'timestamp()'], [1, 'number()'], [1, 'address()'], [1, 'returndatasize()'], [1, 'gasprice()'], [2, `sload(${r.int(4)})`], [1, `tload(${r.int(4)})`], [2, `mload(${this.moff()})`], [1, 'shr(224, calldataload(0))'], [1, 'add(calldatasize(), not(3))'], [1, `keccak256(${this.moff()}, ${r.int(70)})`], [1, 'chainid()']]);
  }
  moff() { return this.r.pick(['0', '0x20', '1', '31', '96', '128', '0x80', '160', '200', '288']); }
  expr(S, d) {
    const r = this.r;
    if (d <= 0 || r.bool(0.22)) return this.leaf(S);
    const callable = this.fns.filter((f) => f.i > S.fi && f.rets === 1);
    return r.wpick([
      [10, () => `${r.pick(BIN)}(${this.expr(S, d - 1)}, ${this.expr(S, d - 1)})`],
      [3, () => `${r.pick(['iszero', 'not'])}(${this.expr(S, d - 1)})`],
      [1, () => `${r.pick(['addmod', 'mulmod'])}(${this.expr(S, d - 1)}, ${this.expr(S, d - 1)}, ${this.expr(S, d - 1)})`],
      [2, () => `sload(and(${this.expr(S, d - 1)}, 3))`], [1, () => `tload(${this.expr(S, d - 1)})`],
      [2, () => `mload(and(${this.expr(S, d - 1)}, 127))`],
      [1, () => `calldataload(and(${this.expr(S, d - 1)}, 255))`],
      [callable.length ? 6 : 0, () => { const f = r.pick(callable); return this.call(f, S, d - 1); }],
      [S.self && S.self.rets === 1 && S.self.fuel && r.bool(0.5) ? 3 : 0, () => this.selfCall(S, d - 1)],
      [2, () => { this.f('effectful-arg'); return `tr${r.int(2)}(${this.expr(S, d - 1)})`; }],
    ])();
  }
  call(f, S, d) { this.f('call'); return `${f.name}(${f.params.map((p, i) => (f.fuel && i === 0 ? this.fuelArg(S) : this.expr(S, Math.min(d, 2)))).join(', ')})`; }
  fuelArg(S) { return this.r.pick(['0', '1', '2', '3', 'and(calldatasize(), 3)']); }
  selfCall(S, d) { this.f('recursion'); const f = S.self; return `${f.name}(sub(${f.params[0]}, 1)${f.params.slice(1).map(() => ', ' + this.expr(S, Math.min(d, 2))).join('')})`; }
  visible(S) { return S.scopes.flatMap((s) => s.vars); }
  fresh(S) { const vs = new Set(this.visible(S)); const c = NAMES.filter((n) => !vs.has(n)); if (c.length && this.r.bool(0.9)) return this.r.pick(c); for (let i = 0; ; i++) { const n = 'v' + i; if (!vs.has(n)) return n; } }
  assignable(S) { return this.visible(S).filter((v) => !S.frozen.has(v)); }
  push(S) { S.scopes.push({ vars: [] }); } pop(S) { S.scopes.pop(); }
  declare(S, n) { S.scopes[S.scopes.length - 1].vars.push(n); }
  block(S, d, n) { this.push(S); let s = '{ '; for (let i = 0; i < n; i++) s += this.stmt(S, d) + '\n'; this.pop(S); return s + '}'; }
  stmts(S, d, n) { let s = ''; for (let i = 0; i < n; i++) s += this.stmt(S, d) + '\n'; return s; }
  ty() { return this.r.bool(0.04) ? this.r.pick([':u256', ': uint256']) : ''; }
  stmt(S, d) {
    const r = this.r; const nb = () => (r.bool(0.04) ? 5 + r.int(8) : r.int(4));
    const voids = this.fns.filter((f) => f.i > S.fi && f.rets === 0), tuples = this.fns.filter((f) => f.i > S.fi && f.rets > 1);
    return r.wpick([
      [7, () => { const e = this.expr(S, 3), n = this.fresh(S); this.declare(S, n); return `let ${n}${this.ty()} := ${e}`; }],
      [1, () => { const n = this.fresh(S); this.declare(S, n); this.f('let-noinit'); return `let ${n}`; }],
      [1, () => { const ns = []; for (let i = 0; i < 2 + r.int(2); i++) { const n = this.fresh(S); this.declare(S, n); ns.push(n); } this.f('let-multi-noinit'); return `let ${ns.join(', ')}`; }],
      [tuples.length ? 3 : 0, () => { const f = r.pick(tuples), c = this.call(f, S, 2), ns = []; for (let i = 0; i < f.rets; i++) { const n = this.fresh(S); this.declare(S, n); ns.push(n); } this.f('tuple-let'); return `let ${ns.join(', ')} := ${c}`; }],
      [tuples.length ? 2 : 0, () => { const f = r.pick(tuples), as = r.shuffle(this.assignable(S).slice()); if (as.length < f.rets) return this.assign(S); this.f('tuple-assign'); const c = this.call(f, S, 2); return `${as.slice(0, f.rets).join(', ')} := ${c}`; }],
      [10, () => this.assign(S)],
      [3, () => this.copy(S)],
      [S.scopes.some((s) => s.vars.length) ? 2 : 0, () => { this.f('observe'); return `pop(tr0(${r.pick(this.visible(S))}))`; }],
      [voids.length ? 3 : 0, () => this.call(r.pick(voids), S, 2)],
      [d > 0 ? 5 : 0, () => { this.f('if'); return `if ${this.cond(S)} ${this.block(S, d - 1, nb())}`; }],
      [d > 0 ? 4 : 0, () => this.sw(S, d)],
      [d > 0 ? 5 : 0, () => this.loop(S, d)],
      [d > 0 ? 2 : 0, () => { this.f('block'); return this.block(S, d - 1, nb()); }],
      [2, () => `sstore(${r.int(4)}, ${this.expr(S, 2)})`], [1, () => `tstore(${r.int(4)}, ${this.expr(S, 2)})`],
      [2, () => `mstore(${this.moff()}, ${this.expr(S, 2)})`], [1, () => `mstore8(and(${this.expr(S, 1)}, 127), ${this.expr(S, 2)})`], [1, () => `mstore(and(${this.expr(S, 1)}, 127), ${this.expr(S, 2)})`],
      [1, () => `log${r.int(2)}(${this.moff()}, ${r.int(40)}`.replace(/^(log1.*)$/, (m) => m + ', ' + this.expr(S, 1)) + ')'],
      [1, () => `pop(${this.expr(S, 2)})`],
      [S.loops > 0 ? 3 : 0, () => this.jump(S, r.bool() ? 'break' : 'continue')],
      [S.inFn ? 1.5 : 0, () => this.jump(S, 'leave')],
      [0.5, () => this.exit(S)],
    ])();
  }
  // a condition, at times one that is only non-zero far up
  cond(S) { const r = this.r; if (!r.bool(0.15)) return this.expr(S, 2); this.f('cond:high'); const k = r.pick([32, 63, 64, 128, 129, 160, 192, 224, 248, 255, r.int(256)]); return r.pick([`shl(${k}, ${this.expr(S, 1)})`, `shl(${k}, and(${this.expr(S, 1)}, 1))`, `and(${this.expr(S, 1)}, 0x${(1n << BigInt(k)).toString(16)})`, `and(${this.expr(S, 1)}, not(0x${((1n << BigInt(k)) - 1n).toString(16)}))`, `calldataload(${4 + 32 * r.int(6)})`]); }
  assign(S) { const as = this.assignable(S); if (!as.length) { const e = this.expr(S, 2), n = this.fresh(S); this.declare(S, n); return `let ${n} := ${e}`; } return `${this.r.pick(as)} := ${this.expr(S, 3)}`; }
  // plain copies: a variable must not follow the one it was copied from
  copy(S) {
    const r = this.r, as = this.assignable(S), vs = this.visible(S); if (as.length < 2 || r.bool(0.15)) { if (!vs.length) return this.assign(S); const o = r.pick(vs), n = this.fresh(S); this.declare(S, n); this.f('copy-let'); return `let ${n} := ${o}`; }
    const [a, b] = r.shuffle(as.slice()); this.f('copy');
    const src = () => r.pick([`sload(${r.int(4)})`, `calldataload(${4 + 32 * r.int(6)})`, 'callvalue()', `mload(${this.moff()})`, b]);
    return r.wpick([[S.inFn ? 2 : 1, () => { const n = this.fresh(S); this.declare(S, n); const p = S.self && S.self.params.length > (S.self.fuel ? 1 : 0) ? r.pick(S.self.params.slice(S.self.fuel ? 1 : 0)) : a; return `let ${n} := ${src()} ${p} := ${n} ${n} := ${this.expr(S, 1)} sstore(${r.int(4)}, ${p})`; }], [2, () => `${a} := ${b}`], [2, () => `${a} := ${b} ${b} := ${this.expr(S, 2)} sstore(${r.int(4)}, ${a})`], [2, () => { const t = this.fresh(S); return `{ let ${t} := ${a} ${a} := ${b} ${b} := ${t} ${r.bool(0.5) ? `${t} := ${this.expr(S, 1)} sstore(${r.int(4)}, sub(${a}, ${b}))` : ''} }`; }], [1, () => `${a} := ${this.expr(S, 1)} ${b} := ${a} ${a} := add(${a}, ${b})`]])();
  }
  jump(S, k) { this.f(k); if (this.r.bool(0.3)) return k; return `if ${this.expr(S, 1)} { ${this.r.bool(0.4) ? this.assign2(S) + ' ' : ''}${k} ${this.r.bool(0.1) ? this.assign2(S) : ''}}`; }
  assign2(S) { const as = this.assignable(S); return as.length ? `${this.r.pick(as)} := ${this.expr(S, 1)}` : `sstore(2, ${this.expr(S, 1)})`; }
  exit(S) { this.f('exit'); const e = this.r.pick([`return(${this.moff()}, ${this.r.bool(0.06) ? this.r.pick([65535, 65536, 65600, 70000]) : this.r.int(65)})`, `revert(${this.moff()}, ${this.r.bool(0.06) ? this.r.pick([65535, 65536, 65600, 70000]) : this.r.int(65)})`, 'stop()', 'invalid()', 'rvz()', 'pop(rvz1(tr0(1)))']); return `if ${this.expr(S, 2)} { ${this.r.bool(0.5) ? `mstore(0, ${this.expr(S, 1)}) ` : ''}${e} }`; }
  sw(S, d) {
    const r = this.r; this.f('switch'); const seen = new Set(); let s = `switch ${this.expr(S, 2)}\n`; const big = r.bool(0.06); let n = big ? 5 + r.int(36) : r.int(5); if (big) this.f('switch-big'); const near = big && r.bool(0.5) ? r.pick([0n, 250n, 65530n, (1n << 32n) - 5n, (1n << 64n) - 5n]) : null;
    const { parse } = require('../lib/yul.js'), { Interp } = require('../lib/interp.js');
    for (let i = 0; i < n; i++) { const l = near !== null && r.bool(0.9) ? (r.bool() ? String(near + BigInt(i)) : '0x' + (near + BigInt(i)).toString(16)) : this.lit(); const v = Interp.prototype.lit.call(null, parse(`object "x" { code { pop(${l}) } }`).code[0].e.args[0]); if (seen.has(v)) continue; seen.add(v); s += `case ${l} ${big ? `{ ${this.assign2(S)} }` : this.block(S, d - 1, r.int(3))}\n`; }
    if (!seen.size || r.bool(0.6)) { if (!seen.size) this.f('switch-default-only'); s += `default ${this.block(S, d - 1, r.int(3))}`; }
    return s;
  }
  loop(S, d) {
    const r = this.r; this.f('for'); this.push(S); const fr = (n) => { S.frozen.add(n); return n; }; let s;
    const body = () => { S.loops++; const b = this.block(S, d - 1, 1 + r.int(3)); S.loops--; return b; };
    const k = r.int(5), i = this.fresh(S);
    const sl = S.loops, sf = S.inFn;
    if (k === 0) { this.declare(S, i); fr(i); s = `for { let ${i} := 0 } lt(${i}, ${r.int(5)}) { ${i} := add(${i}, 1) } ${body()}`; }
    else if (k === 1) { this.declare(S, i); fr(i); s = `for { let ${i} := ${r.int(5)} } ${i} { ${i} := sub(${i}, 1) } ${body()}`; }
    else if (k === 2) { const e = this.expr(S, 1); this.declare(S, i); fr(i); const j = this.fresh(S); this.declare(S, j); s = `for { let ${i} := 0 let ${j} := ${e} } iszero(eq(${i}, ${1 + r.int(4)})) { ${i} := add(${i}, 0x01) ${j} := mul(${j}, ${j}) } ${body()}`; }
    else if (k === 3) { this.declare(S, i); fr(i); s = `{ let ${i} := ${r.int(4)} for {} ${r.pick(['1', 'true', 'not(0)', '0x0100000000', '"a"', '18446744073709551616'])} {} { if gt(${i}, 5) { break } ${i} := add(${i}, 1)\n`; S.loops++; this.push(S); s += this.stmts(S, d - 1, 1 + r.int(3)); this.pop(S); S.loops--; s += '} }'; this.f('for-infinite'); }
    else { this.declare(S, i); fr(i); s = `{ let ${i} := ${r.int(5)}\nfor {} and(${this.expr(S, 1)}, lt(${i}, 6)) { ${i} := add(${i}, 1) } ${body()} }`; }
    S.frozen.delete(i); this.pop(S); return s;
  }
  fn(i) { // bodies are generated after all signatures exist
    const r = this.r, f = this.fns[i]; const S = { fi: i, self: f, scopes: [{ vars: f.params.concat(f.retn) }], frozen: new Set(), loops: 0, inFn: true };
    let b = '';
    if (f.fuel) { S.frozen.add(f.params[0]); b += `if iszero(${f.params[0]}) { ${f.rets ? `${f.retn[0]} := ${this.expr(S, 1)} ` : ''}leave }\n`; if (!f.rets || f.rets > 1) { this.f('recursion'); const c = `${f.name}(sub(${f.params[0]}, 1)${f.params.slice(1).map(() => ', ' + this.expr(S, 1)).join('')})`; b += (f.rets ? `${f.retn.join(', ')} := ${c}` : c) + '\n'; } }
    b += this.stmts(S, 2, 1 + r.int(4));
    if (f.rets && r.bool(0.8)) b += `${f.retn[f.rets - 1]} := ${this.expr(S, 2)}\n`;
    return `function ${f.name}(${f.params.map((p) => p + this.ty()).join(', ')})${f.rets ? ' -> ' + f.retn.join(', ') : ''} {\n${b}}`;
  }
  program(units) {
    const r = this.r; const nf = 3 + r.int(5); const hostile = r.bool(0.3) ? r.shuffle(HOSTILE.slice()) : [];
    for (let i = 0; i < nf; i++) {
      const many = r.bool(0.08), magic = !!this.o.magic && r.bool(0.6); if (many) this.f('many-params'); const rets = many && r.bool() ? 4 + r.int(9) : r.pick([0, 1, 1, 1, 2, 3]), np = many ? 4 + r.int(7) : magic && r.bool(0.7) ? 3 : r.int(4), fuel = !magic && r.bool(0.3);
      const pool = r.shuffle(NAMES.slice()); for (let k = 0; pool.length < np + rets; k++) pool.push('q' + k);
      const params = (fuel ? ['fuel'] : []).concat(pool.slice(0, np));
      this.fns.push({ i, name: magic ? r.pick(MAGIC) + (r.bool(0.2) && !this.fns.some((f) => MAGIC.includes(f.name)) ? '' : i) : hostile.length && r.bool(0.6) ? hostile[i] : r.pick(this.o.names && r.bool(0.6) ? this.o.names : ['f', 'fun_x', 'g.h', 'ab$']) + i, params, retn: pool.slice(np, np + rets), rets, fuel });
    }
    let cases = '', mains = '';
    for (let u = 0; u < units; u++) {
      const inline = r.bool(0.5); const S = { fi: -1, self: null, scopes: [{ vars: [] }], frozen: new Set(), loops: 0, inFn: !inline };
      if (r.bool(this.o.spots ?? 0.4)) { const sp = spots(r, u, (k) => this.f(k), !!this.o.magic); cases += inline ? `case ${u} { ${sp.body} }\n` : `case ${u} { main${u}() }\n`; mains += sp.fns + (inline ? '' : `function main${u}() {\n${sp.body}}\n`); continue; }
      let b = this.stmts(S, 3, 3 + r.int(5));
      const vs = this.visible(S); vs.slice(0, 10).forEach((v, i) => { b += `mstore(${1024 + 32 * i}, ${v})\n`; });
      b += `mstore(${1024 + 32 * vs.length}, mload(${this.moff()})) return(1024, ${32 * (Math.min(vs.length, 10) + 1)})\n`;
      cases += inline ? `case ${u} { ${b} }\n` : `case ${u} { main${u}() }\n`;
      if (!inline) mains += `function main${u}() {\n${b}}\n`; else this.f('top-level-code');
    }
    const fns = this.fns.map((f, i) => this.fn(i)); const pieces = r.shuffle(fns.concat([mains, 'function idw(z_) -> w_ { w_ := z_ }', 'function rvz() { revert(0, 0) }', 'function rvz1(a) -> q { revert(0x00, 0) }', 'function tr0(a) -> r { log1(0, 0, a) r := a }', 'function tr1(a) -> r { sstore(2, add(sload(2), a)) r := sload(2) }']));
    const code = `{ switch shr(224, calldataload(0))\n${cases}default { revert(0, 0) }\n${pieces.join('\n')} }`;
    return this.o.deploy ? `object "P" { code ${code} }` : `object "P" { code { return(0, 0) } object "P_deployed" { code ${code} } }`;
  }
}
function inputs(rng, unit, deployShift) {
  const n = rng.pick([0, 1, 6, 6, 6, 6, 3]); const u = new Uint8Array(4 + 32 * n + (rng.bool(0.1) ? 7 : 0)); new DataView(u.buffer).setUint32(0, unit);
  const { toBytes } = require('../lib/util.js'); for (let i = 0; i < n; i++) u.set(toBytes(rng.bool(0.4) ? BigInt(rng.int(8)) : rng.u256()), 4 + 32 * i);
  const storage = {}; for (let i = 0; i < 4; i++) if (rng.bool(0.6)) storage[i] = rng.bool(0.4) ? BigInt(rng.int(5)) : rng.u256();
  return { seed: rng.int(1 << 30), calldata: u, storage, env: { timestamp: rng.bool(0.3) ? BigInt(rng.int(8)) : rng.u256() >> 193n, number: rng.bool(0.3) ? BigInt(rng.int(8)) : rng.u256() >> 193n, callvalue: rng.bool() ? 0n : rng.u256() } };
}
module.exports = { Gen, inputs };
