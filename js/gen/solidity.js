'use strict';
// Contracts in the shape the Solidity compiler gives its Yul output, plain and optimised, with histories of transactions.
const { keccak256 } = require('../lib/keccak.js'); const { toBytes, fromBytes, h64, M256 } = require('../lib/util.js');
const MASK = (bytes) => '0x' + 'ff'.repeat(bytes);
const PANIC = '35408467139433450592217433187231851964531694900788300625387963629091585785856';
const ERRSEL = '3963877391197344453575983046348115674221700746820753546331534351508065746944';
const bytesOf = { uint256: 32, int256: 32, bytes32: 32, address: 20, bool: 1, uint8: 1, int8: 1, uint16: 2, uint32: 4, int64: 8, uint64: 8, uint128: 16, int128: 16, bytes4: 4 };
const signed = (t) => t.startsWith('int'), left = (t) => /^bytes\d/.test(t) && t !== 'bytes32';
class Contract {
  // o: {enableAll: avoid what --enable-all-optimizers is known to change}
  constructor(rng, o = {}) {
    this.r = rng; this.o = o; this.H = new Map(); this.fns = []; this.feat = {}; this.opt = rng.bool(0.5); this.id = rng.range(10, 400);
    this.name = rng.pick(['C', 'Vault', 'Market_7', 'Store', 'C_123', 'Token']) + '_' + rng.int(500); this.slot = 0; this.mkState(); this.mkFns();
  }
  f(k) { this.feat[k] = (this.feat[k] || 0) + 1; }
  nid() { return (this.id += 1 + this.r.int(9)); }
  mask160(x) { return this.opt ? (this.o.enableAll ? `and(add(${x}, 0), sub(shl(160, 1), 1))` : `and(${x}, sub(shl(160, 1), 1))`) : `and(${x}, ${MASK(20)})`; }
  // define helper once, return its name
  h(name, text) { if (!this.H.has(name)) { this.H.set(name, null); this.H.set(name, typeof text === 'function' ? text(name) : text); } return name; }
  panic(c) { return this.h(`panic_error_0x${c}`, (n) => `function ${n}() { mstore(0, ${this.opt ? 'shl(224, 0x4e487b71)' : PANIC}) mstore(4, 0x${c}) revert(0, 0x24) }`) + '()'; }
  rev(tag) { return this.opt && this.r.bool() ? 'revert(0, 0)' : this.h(`revert_error_${tag}`, (n) => `function ${n}() { revert(0, 0) }`) + '()'; }
  unb() { return this.opt ? 'mload(64)' : this.h('allocate_unbounded', 'function allocate_unbounded() -> memPtr { memPtr := mload(64) }') + '()'; }
  round() { return this.h('round_up_to_mul_of_32', 'function round_up_to_mul_of_32(value) -> result { result := and(add(value, 31), not(31)) }'); }
  fin() { const p = this.panic('41'), r = this.round(); return this.h('finalize_allocation', `function finalize_allocation(memPtr, size) { let newFreePtr := add(memPtr, ${r}(size)) if or(gt(newFreePtr, ${this.opt ? 'sub(shl(64, 1), 1)' : MASK(8)}), lt(newFreePtr, memPtr)) { ${p} } mstore(64, newFreePtr) }`); }
  alloc() { const f = this.fin(), u = this.unb(); return this.h('allocate_memory', `function allocate_memory(size) -> memPtr { memPtr := ${u} ${f}(memPtr, size) }`); }
  cleanup(t) {
    const b = bytesOf[t]; const n = `cleanup_t_${t}`;
    if (t === 'bool') return this.h(n, `function ${n}(value) -> cleaned { cleaned := iszero(iszero(value)) }`);
    if (t === 'address') { const m = this.cleanup160(); return this.h(n, `function ${n}(value) -> cleaned { cleaned := ${m}(value) }`); }
    if (b === 32) return this.h(n, `function ${n}(value) -> cleaned { cleaned := value }`);
    if (signed(t)) return this.h(n, `function ${n}(value) -> cleaned { cleaned := signextend(${b - 1}, value) }`);
    if (left(t)) return this.h(n, `function ${n}(value) -> cleaned { cleaned := and(value, ${this.opt ? `shl(${256 - 8 * b}, ${MASK(b)})` : MASK(b) + '00'.repeat(32 - b)}) }`);
    return this.h(n, `function ${n}(value) -> cleaned { cleaned := and(value, ${MASK(b)}) }`);
  }
  cleanup160() { return this.h('cleanup_t_uint160', `function cleanup_t_uint160(value) -> cleaned { cleaned := ${this.mask160('value')} }`); }
  validator(t) { const c = this.cleanup(t); return this.h(`validator_revert_t_${t}`, (n) => `function ${n}(value) { if iszero(eq(value, ${c}(value))) { revert(0, 0) } }`); }
  conv(t, x) { if (this.opt) return x; const c = this.cleanup(t); return this.h(`convert_t_${t}_to_t_${t}`, (n) => `function ${n}(value) -> converted { converted := ${c}(value) }`) + `(${x})`; }
  decValue(t) { // calldata word
    if (t === 'address' && this.opt) { this.f('abi_decode_address'); return this.h('abi_decode_t_address', `function abi_decode_t_address(offset) -> value { value := calldataload(offset) if iszero(eq(value, and(value, sub(shl(160, 1), 1)))) { revert(0, 0) } }`); }
    const v = this.validator(t); return this.h(`abi_decode_t_${t}_from_word`, (n) => `function ${n}(offset) -> value { value := calldataload(offset) ${v}(value) }`);
  }
  decBytes(t) { // string / bytes in memory
    const a = this.alloc(), rnd = this.round(), p = this.panic('41'); const len = this.h(`array_allocation_size_t_${t}`, (n) => `function ${n}(length) -> size { if gt(length, ${MASK(8)}) { ${p} } size := add(${rnd}(length), 0x20) }`);
    const cp = this.h('copy_calldata_to_memory_with_cleanup', (n) => `function ${n}(src, dst, length) { calldatacopy(dst, src, length) mstore(add(dst, length), 0) }`);
    return this.h(`abi_decode_t_${t}_memory_ptr`, (n) => `function ${n}(offset, end) -> array { if iszero(slt(add(offset, 0x1f), end)) { ${this.rev('1b9f4a0a')} } let length := calldataload(offset) let src := add(offset, 0x20) array := ${a}(${len}(length)) mstore(array, length) let dst := add(array, 0x20) if gt(add(src, length), end) { ${this.rev('987264b3')} } ${cp}(src, dst, length) }`);
  }
  decArray() {
    const a = this.alloc(), p = this.panic('41'); const d = this.decValue('uint256');
    return this.h('abi_decode_t_array_uint256_memory', (n) => `function ${n}(offset, end) -> array { if iszero(slt(add(offset, 0x1f), end)) { ${this.rev('1b9f4a0a')} } let length := calldataload(offset) if gt(length, ${MASK(8)}) { ${p} } array := ${a}(add(shl(5, length), 0x20)) mstore(array, length) let dst := add(array, 0x20) offset := add(offset, 0x20) let srcEnd := add(offset, mul(length, 0x20)) if gt(srcEnd, end) { ${this.rev('81385d8c')} } for { let src := offset } lt(src, srcEnd) { src := add(src, 0x20) } { mstore(dst, ${d}(src)) dst := add(dst, 0x20) } }`);
  }
  decTuple(ts) {
    if (!ts.length) return this.h('abi_decode_tuple_', `function abi_decode_tuple_(headStart, dataEnd) { if slt(sub(dataEnd, headStart), 0) { ${this.rev('dbdddcbe')} } }`);
    const parts = ts.map((t, i) => { if (t === 'string' || t === 'bytes' || t === 'uint256[]') { const d = t === 'uint256[]' ? this.decArray() : this.decBytes(t); return `{ let offset := calldataload(add(headStart, ${32 * i})) if gt(offset, ${MASK(8)}) { ${this.rev('c1322bf8')} } ${this.opt ? 'if iszero(slt(add(add(headStart, offset), 0x1f), dataEnd)) { revert(0, 0) } ' : ''}value${i} := ${d}(add(headStart, offset), dataEnd) }`; } if (this.opt && t !== 'address' && this.r.bool()) { const c = this.cleanup(t); return `{ let value := calldataload(add(headStart, ${32 * i})) if iszero(eq(value, ${t === 'bool' ? 'iszero(iszero(value))' : `${c}(value)`})) { revert(0, 0) } value${i} := value }`; }
      const d = this.decValue(t); return this.opt && this.r.bool(0.3) ? `value${i} := ${d}(add(headStart, ${32 * i}))` : `{ let offset := ${32 * i} value${i} := ${d}(add(headStart, offset)) }`; });
    return this.h((this.opt ? 'abi_decode_' : 'abi_decode_tuple_') + ts.map((t) => 't_' + t.replace('[]', '_arr')).join('').slice(this.opt && ts.length > 1 ? 2 : 0) + (ts.length > 1 ? '' : '_only'), (n) => `function ${n}(headStart, dataEnd) -> ${ts.map((_, i) => 'value' + i).join(', ')} { if slt(sub(dataEnd, headStart), ${32 * ts.length}) { ${this.rev('dbdddcbe')} }\n${parts.join('\n')} }`);
  }
  encWord(t) { const c = this.cleanup(t); return this.h(`abi_encode_t_${t}_to_t_${t}_fromStack`, (n) => `function ${n}(value, pos) { mstore(pos, ${c}(value)) }`); }
  encBytes() {
    const r = this.round(); const cp = this.r.bool() ? this.h('copy_memory_to_memory_with_cleanup', (n) => `function ${n}(src, dst, length) { let i := 0 for { } lt(i, length) { i := add(i, 32) } { mstore(add(dst, i), mload(add(src, i))) } mstore(add(dst, length), 0) }`) : this.h('copy_memory_to_memory_with_cleanup', (n) => `function ${n}(src, dst, length) { mcopy(dst, src, length) mstore(add(dst, length), 0) }`);
    return this.h('abi_encode_t_bytes_memory_ptr', (n) => `function ${n}(value, pos) -> end { let length := mload(value) mstore(pos, length) pos := add(pos, 0x20) ${cp}(add(value, 0x20), pos, length) end := add(pos, ${r}(length)) }`);
  }
  encTuple(ts) {
    if (!ts.length) return this.h('abi_encode_tuple__to__fromStack', 'function abi_encode_tuple__to__fromStack(headStart) -> tail { tail := add(headStart, 0) }');
    return this.h('abi_encode_tuple_' + ts.map((t) => 't_' + t.replace('[]', '_arr')).join('') + '__fromStack', (n) => `function ${n}(headStart, ${ts.map((_, i) => 'value' + i).join(', ')}) -> tail { tail := add(headStart, ${32 * ts.length})\n${ts.map((t, i) => (t === 'string' || t === 'bytes' ? `mstore(add(headStart, ${32 * i}), sub(tail, headStart)) tail := ${this.encBytes()}(value${i}, tail)` : `${this.encWord(t)}(value${i}, add(headStart, ${32 * i}))`)).join('\n')} }`);
  }
  checked(op, t) {
    const b = bytesOf[t], c = this.cleanup(t), s = signed(t), p = this.panic('11'); const n = `checked_${op}_t_${t}`; const min = '0x' + ((1n << 256n) - (1n << BigInt(8 * b - 1))).toString(16), max = '0x' + ((1n << BigInt(8 * b - 1)) - 1n).toString(16);
    const pre = `x := ${c}(x) y := ${c}(y)`;
    if (op === 'div' || op === 'mod') { const p12 = this.panic('12'); return this.h(n, `function ${n}(x, y) -> r { ${pre} if iszero(y) { ${p12} } ${s && op === 'div' ? `if and(eq(x, ${min}), eq(y, sub(0, 1))) { ${p} }` : ''} r := ${s ? 's' : ''}${op}(x, y) }`); }
    if (op === 'add') return this.h(n, b === 32 ? (s ? `function ${n}(x, y) -> sum { ${pre} sum := add(x, y) if or(and(iszero(slt(x, 0)), slt(sum, y)), and(slt(x, 0), iszero(slt(sum, y)))) { ${p} } }` : this.opt ? `function ${n}(x, y) -> sum { sum := add(x, y) if gt(x, sum) { ${p} } }` : `function ${n}(x, y) -> sum { ${pre} sum := add(x, y) if gt(x, sum) { ${p} } }`) : `function ${n}(x, y) -> sum { ${pre} sum := add(x, y) if ${s ? `or(sgt(sum, ${max}), slt(sum, ${min}))` : `gt(sum, ${MASK(b)})`} { ${p} } }`);
    if (op === 'sub') return this.h(n, b === 32 ? (s ? `function ${n}(x, y) -> diff { ${pre} diff := sub(x, y) if or(and(iszero(slt(y, 0)), sgt(diff, x)), and(slt(y, 0), slt(diff, x))) { ${p} } }` : `function ${n}(x, y) -> diff { ${this.opt ? '' : pre} diff := sub(x, y) if gt(diff, x) { ${p} } }`) : `function ${n}(x, y) -> diff { ${pre} diff := sub(x, y) if ${s ? `or(slt(diff, ${min}), sgt(diff, ${max}))` : `gt(diff, ${MASK(b)})`} { ${p} } }`);
    return this.h(n, s ? `function ${n}(x, y) -> product { ${pre} let product_raw := mul(x, y) product := ${c}(product_raw) ${b === 32 ? `if and(slt(x, 0), eq(y, ${min})) { ${p} } ` : ''}if iszero(or(iszero(x), eq(y, sdiv(product, x)))) { ${p} } }` : `function ${n}(x, y) -> product { ${pre} let product_raw := mul(x, y) product := ${c}(product_raw) if iszero(or(iszero(x), eq(y, div(product, x)))) { ${p} } }`);
  }
  // storage variable of type t at slot, byte offset off
  read(v) { const b = bytesOf[v.t], n = `read_from_storage_split_offset_${v.off}_t_${v.t}`; const sh = v.off ? `shr(${8 * v.off}, slot_value)` : 'slot_value'; const ex = this.h(`extract_from_storage_value_offset_${v.off}t_${v.t}`, (m) => `function ${m}(slot_value) -> value { value := ${b === 32 ? sh : signed(v.t) ? `signextend(${b - 1}, ${sh})` : left(v.t) ? `shl(${256 - 8 * b}, ${sh})` : `and(${sh}, ${MASK(b)})`} }`); return this.h(n, `function ${n}(slot) -> value { value := ${ex}(sload(slot)) }`) + `(${v.slot})`; }
  write(v, x) {
    const b = bytesOf[v.t], c = this.cleanup(v.t); const ub = this.h(`update_byte_slice_${b}_shift_${v.off}`, (m) => `function ${m}(value, toInsert) -> result { let mask := ${MASK(b)}${'00'.repeat(v.off)} toInsert := ${v.off ? `shl(${8 * v.off}, toInsert)` : 'toInsert'} value := and(value, not(mask)) result := or(value, and(toInsert, mask)) }`);
    return this.h(`update_storage_value_offset_${v.off}t_${v.t}`, (m) => `function ${m}(slot, value_0) { let convertedValue_0 := ${c}(value_0) sstore(slot, ${ub}(sload(slot), ${left(v.t) ? `shr(${256 - 8 * b}, convertedValue_0)` : 'convertedValue_0'})) }`) + `(${v.slot}, ${x})`;
  }
  mapIndex(kt) {
    if (this.opt && kt !== 'string') { const c = kt === 'address' ? (x) => this.mask160(x) : (x) => x; return this.h(`mapping_index_access_${kt}`, (n) => `function ${n}(slot, key) -> dataSlot { mstore(0, ${c('key')}) mstore(0x20, slot) dataSlot := keccak256(0, 0x40) }`); }
    const c = this.cleanup(kt); return this.h(`mapping_index_access_t_mapping_${kt}`, (n) => `function ${n}(slot, key) -> dataSlot { mstore(0, ${c}(key)) mstore(0x20, slot) dataSlot := keccak256(0, 0x40) }`);
  }
  require(cond, msg) { // require(cond, msg) or a custom error
    const r = this.r;
    if (r.bool(0.3)) { const sel = '0x' + r.int(0x7fffffff).toString(16); this.f('custom-error'); return `if iszero(${cond}) { mstore(0, shl(${r.pick(['224', '0xe0'])}, ${sel})) revert(0, 4) }`; }
    this.f('require'); const b = Buffer.from(msg); const words = []; for (let i = 0; i < b.length; i += 32) words.push(JSON.stringify(b.subarray(i, i + 32).toString()));
    const st = this.h(`store_literal_in_memory_${Buffer.from(keccak256(b)).toString('hex')}`, (n) => `function ${n}(memPtr) { ${words.map((w, i) => `mstore(add(memPtr, ${32 * i}), ${w})`).join(' ')} }`);
    return `if iszero(${cond}) { let memPtr := ${this.unb()} mstore(memPtr, ${r.bool() ? ERRSEL : 'shl(229, 4594637)'}) mstore(add(memPtr, 4), 0x20) mstore(add(memPtr, 36), ${b.length}) ${st}(add(memPtr, 68)) revert(memPtr, ${68 + 32 * words.length}) }`;
  }
  event(topics, data) { // data: [[t, expr]]
    this.f('event'); const sig = '0x' + this.r.u256().toString(16).padStart(64, '0'); const m = `_e${this.nid()}`; const enc = this.encTuple(data.map((d) => d[0]));
    return `{ let ${m} := ${this.unb()} let ${m}_end := ${enc}(${[m].concat(data.map((d) => d[1])).join(', ')}) log${topics.length + 1}(${[m, `sub(${m}_end, ${m})`, sig].concat(topics).join(', ')}) }`;
  }
  mkState() {
    const r = this.r; const s = {}; let off = 0; const nextSlot = () => { if (off) { this.slot++; off = 0; } return this.slot++; };
    s.vars = []; const n = r.range(3, 8); for (let i = 0; i < n; i++) { const t = r.pick(['uint256', 'uint256', 'address', 'bool', 'uint8', 'uint64', 'uint128', 'int128', 'int64', 'bytes4', 'bytes32', 'int256', 'uint16']); const b = bytesOf[t]; if (off + b > 32) { this.slot++; off = 0; } s.vars.push({ t, slot: '0x' + this.slot.toString(16).padStart(2, '0'), off, i }); off += b; if (off === 32) { this.slot++; off = 0; } }
    s.bal = nextSlot(); s.allow = nextSlot(); s.structs = nextSlot(); s.arr = nextSlot(); s.str = nextSlot(); s.owner = r.bool() ? { immut: String(this.nid()) } : { slot: nextSlot() }; this.s = s;
  }
  owner() { return this.s.owner.immut ? `loadimmutable("${this.s.owner.immut}")` : this.read({ t: 'address', off: 0, slot: this.s.owner.slot }); }
  fn(name, ts, rets, body, o = {}) { // body(params[], rets[]) -> statements
    const id = this.nid(), fname = `fun_${name}_${id}`; const ps = ts.map((t, i) => `var_${'abcdef'[i]}_${id}`), rs = rets.map((t, i) => `ret_${i}_${id}`); const sel = this.selector();
    this.fns.push({ name, fname, ts, rets, sel, payable: !!o.payable, argGen: o.args }); this.f('fn:' + name);
    this.h(fname, () => `function ${fname}(${ps.join(', ')})${rs.length ? ' -> ' + rs.join(', ') : ''} {\n${body(ps, rs)}\n}`); return fname;
  }
  selector() { for (;;) { const s = this.r.int(1 << 30) * 4 + this.r.int(4); if (!this.fns.some((f) => f.sel === s)) return s; } }
  mkFns() {
    const r = this.r, s = this.s; const T = {
      getset: () => { const v = r.pick(s.vars); this.fn('get_' + v.i, [], [v.t], (p, q) => `${q[0]} := ${this.read(v)}`); this.fn('set_' + v.i, [v.t], [], (p) => `${r.bool(0.4) ? this.require(`eq(caller(), ${this.owner()})`, 'Ownable: caller is not the owner') : ''}\nlet old_ := ${this.read(v)}\n${this.write(v, p[0])}\n${r.bool() ? this.event([], [[v.t, 'old_'], [v.t, p[0]]]) : ''}`); },
      arith: () => { const t = r.pick(['uint256', 'uint8', 'uint16', 'uint64', 'uint128', 'int256', 'int8', 'int64', 'int128']); const op = r.pick(['add', 'sub', 'mul', 'div', 'mod']); const op2 = r.pick(['add', 'sub', 'mul']); this.fn(`${op}_${t}`, [t, t, t], [t], (p, q) => `let expr_1 := ${p[0]} let expr_2 := ${p[1]}\nlet expr_3 := ${this.checked(op, t)}(expr_1, expr_2)\n${q[0]} := ${r.bool() ? this.checked(op2, t) + `(expr_3, ${p[2]})` : 'expr_3'}`); },
      acc: () => { const v = r.pick(s.vars.filter((x) => /int/.test(x.t))) || s.vars[0]; if (!/int/.test(v.t)) return; this.fn('increase', [v.t], [v.t], (p, q) => `let _1 := ${this.read(v)}\nlet expr := ${this.checked(r.pick(['add', 'sub', 'mul']), v.t)}(_1, ${p[0]})\n${this.write(v, 'expr')}\n${q[0]} := expr`); },
      transfer: () => {
        const mi = this.mapIndex('address'); const name = r.pick(this.o.enableAll ? ['move', 'send', 'xfer'] : ['transfer', 'move', '_transfer', 'send']);
        const inner = this.h(`fun_${name}_in_${this.nid()}`, (n) => `function ${n}(var_from, var_to, var_value) {\nlet _1 := ${this.mask160('var_from')}\nif iszero(_1) { mstore(0x00, shl(225, 0x4b637e8f)) mstore(4, 0x00) revert(0x00, 36) }\nlet _3 := ${this.mask160('var_to')} let _4 := iszero(_3)\nif _4 { mstore(0x00, shl(224, 0xec442f05)) mstore(4, 0x00) revert(0x00, 36) }\nlet _5 := sload(${mi}(${s.bal}, var_from))\nif lt(_5, var_value) { mstore(0x00, shl(226, 0x391434e3)) mstore(4, _1) mstore(36, _5) ${this.o.enableAll ? '' : 'mstore(68, var_value)'} revert(0x00, ${this.o.enableAll ? 68 : 100}) }\nsstore(${mi}(${s.bal}, _1), sub(_5, var_value))\nlet dataSlot := ${mi}(${s.bal}, _3) sstore(dataSlot, ${this.checked('add', 'uint256')}(sload(dataSlot), var_value))\nlet _6 := mload(64) mstore(_6, var_value)\nlog3(_6, 32, 0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef, _1, _3) }`);
        this.fn(this.o.enableAll ? 'move_ext' : 'transfer_ext', ['address', 'uint256'], ['bool'], (p, q) => `${inner}(caller(), ${p[0]}, ${p[1]}) ${q[0]} := 0x01`); this.fn('balanceOf', ['address'], ['uint256'], (p, q) => `${q[0]} := sload(${mi}(${s.bal}, ${p[0]}))`);
        this.fn('mint', ['address', 'uint256'], [], (p) => `let d_ := ${mi}(${s.bal}, ${p[0]}) sstore(d_, ${this.checked('add', 'uint256')}(sload(d_), ${p[1]})) ${this.event(['0x00', p[0]], [['uint256', p[1]]])}`);
        const al = (a, b) => `${mi}(${mi}(${s.allow}, ${a}), ${b})`; this.fn('approve', ['address', 'uint256'], ['bool'], (p, q) => `sstore(${al('caller()', p[0])}, ${p[1]}) ${this.event(['caller()', p[0]], [['uint256', p[1]]])} ${q[0]} := 1`);
        this.fn(this.o.enableAll ? 'moveFrom' : 'transferFrom_', ['address', 'address', 'uint256'], ['bool'], (p, q) => `let slot_ := ${al(p[0], 'caller()')} let cur_ := sload(slot_)\nif iszero(eq(cur_, not(0))) { ${this.require(`iszero(lt(cur_, ${p[2]}))`, 'ERC20: insufficient allowance')} sstore(slot_, sub(cur_, ${p[2]})) }\n${inner}(${p[0]}, ${p[1]}, ${p[2]}) ${q[0]} := 1`);
      },
      structs: () => { const mi = this.mapIndex('uint256'); this.fn('putStruct', ['uint256', 'uint128', 'bool'], [], (p) => `let b_ := ${mi}(${s.structs}, ${p[0]})\nlet w_ := sload(b_)\nw_ := or(and(w_, not(${MASK(16)})), and(${p[1]}, ${MASK(16)}))\nw_ := or(and(w_, not(shl(128, 0xff))), shl(128, iszero(iszero(${p[2]}))))\nsstore(b_, w_) sstore(add(b_, 1), timestamp())`); this.fn('getStruct', ['uint256'], ['uint128', 'bool', 'uint256'], (p, q) => `let b_ := ${mi}(${s.structs}, ${p[0]}) let w_ := sload(b_) ${q[0]} := and(w_, ${MASK(16)}) ${q[1]} := and(shr(128, w_), 0xff) ${q[2]} := sload(add(b_, 0x01))`); },
      array: () => {
        const base = (x) => `mstore(0, ${s.arr}) let ${x} := keccak256(0, 0x20)`; this.fn('push', ['uint256'], [], (p) => `let l_ := sload(${s.arr}) if iszero(lt(l_, 18446744073709551616)) { ${this.panic('41')} } sstore(${s.arr}, add(l_, 1)) ${base('b_')} sstore(add(b_, l_), ${p[0]})`);
        this.fn('pop', [], [], () => `let l_ := sload(${s.arr}) if iszero(l_) { ${this.panic('31')} } let n_ := sub(l_, 1) ${base('b_')} sstore(add(b_, n_), 0) sstore(${s.arr}, n_)`); this.fn('at', ['uint256'], ['uint256'], (p, q) => `if iszero(lt(${p[0]}, sload(${s.arr}))) { ${this.panic('32')} } ${base('b_')} ${q[0]} := sload(add(b_, ${p[0]}))`);
        this.fn('sumStored', [], ['uint256'], (p, q) => `let l_ := sload(${s.arr}) ${base('b_')} for { let expr_7 := 0x00 let var_i := expr_7 } 1 { let _2 := var_i let _1 := add(_2, 1) var_i := _1 } { let expr_8 := lt(var_i, l_) if iszero(expr_8) { break } let e_ := sload(add(b_, var_i)) if eq(e_, 7) { continue } if gt(var_i, 50) { leave } ${q[0]} := ${this.checked('add', 'uint256')}(${q[0]}, e_) }`);
      },
      strings: () => {
        const el = this.h('extract_byte_array_length', (n) => `function ${n}(data) -> length { length := div(data, 2) let outOfPlaceEncoding := and(data, 1) if iszero(outOfPlaceEncoding) { length := and(length, 0x7f) } if eq(outOfPlaceEncoding, lt(length, 32)) { ${this.panic('22')} } }`);
        this.fn('setText', ['string'], [], (p) => `let len_ := mload(${p[0]}) if gt(len_, 300) { ${this.panic('41')} } let old_ := ${el}(sload(${s.str}))\nif gt(old_, 31) { mstore(0, ${s.str}) let d_ := keccak256(0, 0x20) for { let i_ := div(add(len_, 31), 32) } lt(i_, div(add(old_, 31), 32)) { i_ := add(i_, 1) } { sstore(add(d_, i_), 0) } }\nlet src_ := add(${p[0]}, 0x20)\nswitch gt(len_, 31)\ncase 1 { mstore(0, ${s.str}) let d_ := keccak256(0, 0x20) let i_ := 0 let loopEnd := and(len_, not(0x1f)) for { } lt(i_, loopEnd) { i_ := add(i_, 0x20) } { sstore(d_, mload(add(src_, i_))) d_ := add(d_, 1) } if lt(loopEnd, len_) { let last_ := mload(add(src_, i_)) let mask_ := not(shr(mul(8, and(len_, 0x1f)), not(0))) sstore(d_, and(last_, mask_)) } sstore(${s.str}, add(mul(len_, 2), 1)) }\ndefault { let value := 0 if len_ { value := mload(src_) } let mask_ := not(shr(mul(8, len_), not(0))) sstore(${s.str}, or(and(value, mask_), mul(2, len_))) }`, { args: () => [this.text()] });
        this.fn('getText', [], ['string'], (p, q) => `let sv_ := sload(${s.str}) let len_ := ${el}(sv_) ${q[0]} := ${this.alloc()}(add(${this.round()}(len_), 0x20)) mstore(${q[0]}, len_) let pos_ := add(${q[0]}, 0x20)\nswitch and(sv_, 1) case 0 { mstore(pos_, and(sv_, not(0xff))) } case 1 { mstore(0, ${s.str}) let d_ := keccak256(0, 0x20) for { let i_ := 0 } lt(i_, len_) { i_ := add(i_, 0x20) } { mstore(add(pos_, i_), sload(d_)) d_ := add(d_, 1) } }`);
        this.fn('concat', ['string', 'bytes'], ['bytes', 'bytes32'], (p, q) => `${q[0]} := ${this.unb()} let pos_ := add(${q[0]}, 0x20) let l1_ := mload(${p[0]}) mcopy(pos_, add(${p[0]}, 0x20), l1_) pos_ := add(pos_, l1_) let l2_ := mload(${p[1]}) mcopy(pos_, add(${p[1]}, 0x20), l2_) pos_ := add(pos_, l2_) mstore(pos_, 0) mstore(${q[0]}, sub(pos_, add(${q[0]}, 0x20))) ${this.fin()}(${q[0]}, add(sub(pos_, ${q[0]}), 0x20)) ${q[1]} := keccak256(add(${q[0]}, 0x20), mload(${q[0]}))`);
      },
      toStr: () => { this.fn('toString', ['uint256'], ['string'], (p, q) => `let v_ := ${p[0]} let n_ := 1 for { } gt(v_, 9) { } { v_ := div(v_, 0x0a) n_ := add(n_, 1) } ${q[0]} := ${this.alloc()}(add(${this.round()}(n_), 0x20)) mstore(${q[0]}, n_) let ptr_ := add(add(${q[0]}, 0x20), n_) mstore(ptr_, 0)\nfor { } 1 { } { ptr_ := sub(ptr_, 1) mstore8(ptr_, byte(mod(${p[0]}, 10), "0123456789abcdef")) ${p[0]} := div(${p[0]}, 10) if iszero(${p[0]}) { break } }`); },
      loop: () => { const rec = this.h(`fun_fib_${this.nid()}`, (n) => `function ${n}(var_n) -> var_r { switch lt(var_n, 2) case 0 { let e1 := ${n}(sub(var_n, 1)) let e2 := ${n}(sub(var_n, 2)) var_r := ${this.checked('add', 'uint256')}(e1, e2) } default { var_r := var_n leave } }`); this.fn('fib', ['uint8'], ['uint256'], (p, q) => `${q[0]} := ${rec}(and(${p[0]}, 7))`); this.fn('sum', ['uint256[]', 'uint256'], ['uint256', 'uint256'], (p, q) => `let var_len := mload(${p[0]})\nfor { let var_i := 0x00 } lt(var_i, var_len) { var_i := add(var_i, 1) } { if iszero(lt(var_i, mload(${p[0]}))) { ${this.panic('32')} } let e_ := mload(add(add(${p[0]}, mul(0x20, var_i)), 32)) if eq(e_, ${p[1]}) { continue } ${q[0]} := ${this.checked(r.pick(['add', 'sub']), 'uint256')}(${q[0]}, e_) ${q[1]} := add(${q[1]}, 1) }`); },
      call: () => {
        this.fn('callOut', ['address', 'uint256'], ['uint256'], (p, q) => `let _m := ${this.unb()} mstore(_m, shl(224, 0x${r.int(0x7fffffff).toString(16)})) mstore(add(_m, 4), ${p[1]})\nlet ok_ := ${r.bool() ? `call(gas(), ${p[0]}, 0, _m, 36, _m, 32)` : `staticcall(gas(), ${p[0]}, _m, 36, _m, 32)`}\nif iszero(ok_) { let pos_ := ${this.unb()} returndatacopy(pos_, 0, returndatasize()) revert(pos_, returndatasize()) }\nif ok_ { let sz_ := 32 if gt(sz_, returndatasize()) { sz_ := returndatasize() } ${this.fin()}(_m, sz_) if slt(sub(add(_m, sz_), _m), 32) { revert(0, 0) } ${q[0]} := mload(_m) }`);
        this.fn('tryCall', ['address', 'bytes'], ['bool', 'bytes'], (p, q) => `${q[0]} := ${r.pick(['call(gas(), A, callvalue(), add(B, 0x20), mload(B), 0, 0)', 'delegatecall(gas(), A, add(B, 0x20), mload(B), 0, 0)', 'staticcall(gas(), A, add(B, 0x20), mload(B), 0, 0)']).replace(/A/, p[0]).replace(/B/g, p[1])}\nswitch returndatasize() case 0 { ${q[1]} := ${this.alloc()}(0x20) mstore(${q[1]}, 0) } default { ${q[1]} := ${this.alloc()}(add(${this.round()}(returndatasize()), 0x20)) mstore(${q[1]}, returndatasize()) returndatacopy(add(${q[1]}, 0x20), 0, returndatasize()) }`, { payable: true });
        this.fn('callValueOf', ['address'], [], (p) => `let ok_ := call(gas(), ${p[0]}, selfbalance(), 0, 0, 0, 0) ${this.require('ok_', 'Address: unable to send value, recipient may have reverted')}`);
      },
      misc: () => { this.fn('ctx', [], ['address', 'uint256', 'uint256', 'address'], (p, q) => `${q[0]} := caller() ${q[1]} := callvalue() ${q[2]} := ${r.pick(['timestamp()', 'number()', 'chainid()', 'gaslimit()', 'selfbalance()'])} ${q[3]} := ${this.owner()}`, { payable: true }); this.fn('assert_', ['bool'], ['bytes4'], (p, q) => `if iszero(${p[0]}) { ${this.panic('01')} } ${q[0]} := and(calldataload(0), shl(224, 0xffffffff))`); this.fn('bits', ['uint256', 'uint8'], ['uint256', 'int256'], (p, q) => `${q[0]} := or(shl(${p[1]}, ${p[0]}), shr(sub(256, ${p[1]}), ${p[0]})) ${q[1]} := sar(${p[1]}, ${p[0]})`); this.fn('enumSet', ['uint8'], ['uint8'], (p, q) => `if iszero(lt(${p[0]}, 4)) { ${this.panic('21')} } switch ${p[0]} case 0 { ${q[0]} := 3 } case 0x01 { ${q[0]} := 2 } case 2 { revert(0, 0) } default { ${q[0]} := 9 }`); },
      lock: () => { const mod = this.nid(); this.fn('guarded', ['uint256'], ['uint256'], (p, q) => `${this.require(`iszero(tload(0x${mod.toString(16)}))`, 'ReentrancyGuard: reentrant call')} tstore(0x${mod.toString(16)}, 1)\n${q[0]} := keccakMix(${p[0]}) tstore(0x${mod.toString(16)}, 0)`); this.h('keccakMix', 'function keccakMix(a) -> b { mstore(0x00, a) mstore(0x20, not(a)) b := keccak256(0x00, 0x40) }'); },
    };
    for (const k of r.shuffle(Object.keys(T)).slice(0, r.range(3, 6))) T[k]();
    if (this.opt && r.bool()) { const a = this.nid(); this.fn('nonzero', ['address', 'bytes'], ['address'], (p, q) => `if iszero(${p[0]}) { revert(0, 0) } ${q[0]} := ${p[0]}`); }
  }
  text() { const r = this.r; return r.bytes(r.pick([0, 1, 5, 30, 31, 32, 33, 63, 64, 65, 100])); }
  dispatchCase(f) {
    const cv = f.payable ? '' : `if callvalue() { ${this.rev('ca66f745')} }`; const ps = f.ts.map((_, i) => `param_${i}`), rs = f.rets.map((_, i) => `ret_${i}`); const dec = this.decTuple(f.ts), enc = this.encTuple(f.rets); const call = `${f.fname}(${ps.join(', ')})`;
    const size = this.opt && this.r.bool() ? 'add(calldatasize(), not(3))' : null; const first = this.opt && f.ts.length && size ? `if slt(${size}, ${32 * f.ts.length}) { revert(0, 0) }` : '';
    return `${cv}\n${first}\n${ps.length ? `let ${ps.join(', ')} := ` : ''}${dec}(4, calldatasize())\n${rs.length ? `let ${rs.join(', ')} := ` : ''}${call}\nlet memPos := ${this.unb()}\nlet memEnd := ${enc}(${['memPos'].concat(rs).join(', ')})\nreturn(memPos, sub(memEnd, memPos))`;
  }
  close(text, H) { const need = new Set(); const todo = [text]; while (todo.length) { const t = todo.pop(); for (const m of t.matchAll(/[A-Za-z_$][\w$.]*/g)) if (H.has(m[0]) && !need.has(m[0])) { need.add(m[0]); todo.push(H.get(m[0])); } } return [...H].filter(([k]) => need.has(k)).map((x) => x[1]); }
  source() {
    const r = this.r; const guard = r.pick(['mstore(64, memoryguard(0x80))', 'mstore(64, memoryguard(0x80))', 'mstore(64, 128)', 'mstore(0x40, 0x80)']); const cases = this.fns.map((f) => { const inl = this.opt && r.bool(0.6); const sel = `0x${f.sel.toString(16).padStart(8, '0')}`; const b = this.dispatchCase(f); if (inl) return `case ${sel} { ${b} }`; const n = `external_${f.fname}`; this.h(n, `function ${n}() { ${b} }`); return `case ${sel} { ${n}() }`; }).join('\n');
    const selx = this.opt && r.bool(0.7) ? 'shr(224, calldataload(0))' : this.h('shift_right_224_unsigned', 'function shift_right_224_unsigned(value) -> newValue { newValue := shr(224, value) }') + '(calldataload(0))';
    const fb = r.pick(['', '', 'if iszero(calldatasize()) { stop() }', `let d_ := ${this.unb()} calldatacopy(d_, 0, calldatasize()) log0(d_, calldatasize()) stop()`]); this.fallback = fb;
    const run = this.opt ? `{ { ${guard} if iszero(lt(calldatasize(), 4)) { switch ${selx}\n${cases} } ${fb} revert(0, 0) } }` : `{ ${guard}\nif iszero(lt(calldatasize(), 4)) { let selector := ${selx}\nswitch selector\n${cases}\ndefault { } }\n${fb}\n${this.rev('42b3090547df1d2001c96683413b8cf91c1b902ef5e3cb8d9f6f304cf7446f74')} }`;
    // constructor: (address owner, uint256 x, string text)
    const H2 = new Map(this.H); const keep = this.H; this.H = H2; const v = this.s.vars[0];
    const setOwner = this.s.owner.immut ? '' : this.write({ t: 'address', off: 0, slot: this.s.owner.slot }, 'o_'); const wr = this.write(v, 'x_');
    const a = this.alloc(); const dep = `{ ${guard} if callvalue() { revert(0, 0) }\nlet programSize := datasize("${this.name}") let argSize := sub(codesize(), programSize) let memoryDataOffset := ${a}(argSize) codecopy(memoryDataOffset, programSize, argSize)\nif slt(argSize, 64) { revert(0, 0) } let o_ := mload(memoryDataOffset) ${this.o.enableAll ? '' : `if iszero(eq(o_, ${this.mask160('o_')})) { revert(0, 0) }`} let x_ := mload(add(memoryDataOffset, 32))\n${setOwner}\n${wr}\nlet _1 := ${this.unb()} codecopy(_1, dataoffset("${this.name}_deployed"), datasize("${this.name}_deployed")) ${this.s.owner.immut ? `setimmutable(_1, "${this.s.owner.immut}", o_)` : ''} return(_1, datasize("${this.name}_deployed")) }`;
    const depF = this.close(dep, H2).join('\n'); this.H = keep; const runF = r.shuffle(this.close(run, this.H)).join('\n');
    const nest = (c, f) => c.replace(/\}\s*$/, `\n${f} }`);
    return `object "${this.name}" { code ${nest(dep, depF)} object "${this.name}_deployed" { code ${nest(run, runF)} data ".metadata" hex"a2646970667358" } }`;
  }
  static actors(rng) { return [1n, 2n, 3n].map((i) => fromBytes(keccak256(Buffer.from('actor' + i))) & ((1n << 160n) - 1n)); }
  val(t, actors) { // mostly valid
    const r = this.r; const b = bytesOf[t] ? BigInt(8 * bytesOf[t]) : 0n; if (t === 'string' || t === 'bytes') return this.text(); if (t === 'uint256[]') return Array.from({ length: r.pick([0, 1, 2, 3, 7]) }, () => (r.bool(0.8) ? BigInt(r.int(9)) : r.u256()));
    if (t === 'address') { if (r.bool(0.07) && !this.dirtyOff) return r.u256(); return r.bool(0.12) ? 0n : r.bool(0.1) ? BigInt(r.int(12)) : r.pick(actors); }
    if (r.bool(0.05)) return r.u256(); if (t === 'bool') return BigInt(r.int(2));
    if (left(t)) return BigInt.asUintN(256, (r.u256() >> (256n - b)) << (256n - b)); const x = r.bool(0.5) ? BigInt(r.int(12)) : r.bool(0.3) ? r.pick([1n << (b - 1n), (1n << (b - 1n)) - 1n, (1n << b) - 1n, 1n, 0n]) : r.u256() >> BigInt(r.int(200)); return signed(t) ? BigInt.asUintN(256, BigInt.asIntN(Number(b), x)) : BigInt.asUintN(Number(b), x);
  }
  encode(ts, vs) { const head = [], tail = []; let tl = 0; ts.forEach((t, i) => { if (t === 'string' || t === 'bytes' || t === 'uint256[]') { head.push(toBytes(BigInt(32 * ts.length + tl))); const e = t === 'uint256[]' ? Buffer.concat([toBytes(BigInt(vs[i].length)), ...vs[i].map((x) => toBytes(x))]) : Buffer.concat([toBytes(BigInt(vs[i].length)), vs[i], Buffer.alloc((32 - vs[i].length % 32) % 32)]); tail.push(e); tl += e.length; } else head.push(toBytes(vs[i])); }); return Buffer.concat([...head, ...tail]); }
  tx(actors) {
    const r = this.r; let data; let f = null;
    if (r.bool(0.05)) data = r.bytes(r.pick([0, 1, 3, 4, 36])); else { f = r.pick(this.fns); data = Buffer.concat([Buffer.from(f.sel.toString(16).padStart(8, '0'), 'hex'), this.encode(f.ts, f.argGen && r.bool(0.8) ? f.argGen() : f.ts.map((t) => this.val(t, actors)))]); if (r.bool(0.06)) data = data.subarray(0, r.int(data.length + 1)); else if (r.bool(0.12) && data.length >= 36) { const w = r.int((data.length - 4) >> 5); if (!(this.dirtyOff && f.ts[w] === 'address')) data[4 + 32 * w + r.int(32)] ^= 1 << r.int(8); } }
    return { seed: 5, calldata: new Uint8Array(data), env: { caller: r.pick(actors), callvalue: r.bool(f && f.payable ? 0.5 : 0.06) ? BigInt(r.int(1000)) : 0n, timestamp: 1700000000n + BigInt(r.int(1000)) }, calls: [{ status: r.bool(0.75) ? 0 : 1, ret: r.bytes(r.pick([0, 32, 32, 64, 31, 100])) }], fname: f ? f.name : 'raw' };
  }
  ctor(actors) { const r = this.r; const v = this.s.vars[0]; const o = r.pick(actors); return { seed: 5, calldata: new Uint8Array(Buffer.concat([toBytes(r.bool(0.05) && !this.dirtyOff ? r.u256() : o), toBytes(this.val(v.t, actors)), r.bool(0.2) ? r.bytes(r.int(40)) : Buffer.alloc(0)]).subarray(0, r.bool(0.05) ? r.int(70) : undefined)), env: { caller: r.pick(actors), callvalue: r.bool(0.04) ? 1n : 0n } }; }
}
module.exports = { Contract };
