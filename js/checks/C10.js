'use strict';
const { Rng, hex, toBytes, fromBytes } = require('../lib/util.js'); const B = require('../lib/batch.js'); const { jobs } = require('./fe_common.js'); const { Model, End, fnv, f8, le, PAGE } = require('../lib/rtmodel.js');
const cp = require('child_process'), path = require('path'); const V = path.resolve(__dirname, '../..'); const DIR = path.join(V, '.work/native');
// arguments: c/d/e cell (u: little endian), o result cell other than the operands, n shift, p memory offset, s size, q calldata/code offset, w u32, x u64
const TABLE = {
  math: { wrapper_bytes32_lt: 'cc', wrapper_bytes32_gt: 'cc', wrapper_bytes32_eq: 'cc', wrapper_bytes32_slt: 'cc', wrapper_bytes32_sgt: 'cc', wrapper_bytes32_iszero: 'c', wrapper_bytes32_not: 'co', wrapper_bytes32_and: 'cco', wrapper_bytes32_or: 'cco', wrapper_bytes32_xor: 'cco', wrapper_bytes32_add: 'cco', wrapper_bytes32_shl: 'cno', wrapper_u256_shl: 'uno', wrapper_bytes32_shr: 'cno', wrapper_u256_shr: 'uno', u256_to_big_endian_bytes: 'uo', u256_from_big_endian_bytes: 'co', wrapper_decode_big_endian_i256_from_wasm_mem: 'co', i32_to_bytes32_big_endian_bytes: 'wo', i32_from_big_endian_bytes32: 'c', wrapper_exp: 'uuo', wrapper_sign_extend: 'buo', wrapper_addmod: 'ccco', wrapper_mulmod: 'ccco' },
  env: { wrapper_caller: 'o', wrapper_current_contract: 'o', wrapper_origin: 'o', wrapper_block_coin_base: 'o', wrapper_block_prevRandao: 'o', wrapper_callvalue: 'o', wrapper_callvalue_not_zero: '', wrapper_query_balance: 'co', wrapper_self_balance: 'o', wrapper_time_stamp: '', wrapper_block_number: '', wrapper_gas: '', wrapper_gas_limit: '', wrapper_current_chainid: 'o', wrapper_current_base_fee: 'o', wrapper_current_blob_base_fee: 'o', wrapper_gas_price: 'o', wrapper_block_hash: 'xo', wrapper_current_contract_code_size: '', wrapper_current_contract_pure_contract_size: '', wrapper_extcode_size: 'c', wrapper_extcode_hash: 'co', wrapper_returndata_size: '', is_deploying_tx: '', wrapper_calldata_size: '', wrapper_calldata_size_minus_4: '', wrapper_calldata_load_selector: '' },
  data: { wrapper_calldataload_u256: 'qo', wrapper_calldataload_bytes32: 'qo', wrapper_calldata_copy: 'pqs', wrapper_extcode_copy: 'cpqs' },
  code: { wrapper_codecopy: 'pks', wrapper_data_copy: 'pks' },
  ret: { wrapper_returndata_copy: 'pqs' },
  mem: { wrapper_mstore_bytes32: 'pc', wrapper_mstore_u256: 'pu', wrapper_mstore_u32: 'pw', wrapper_mstore_u64: 'px', wrapper_mstore_u8: 'p8', wrapper_mload_u256: 'po', wrapper_mload_bytes32: 'po', wrapper_mload_u32: 'p', wrapper_mload_u64: 'p', wrapper_mcopy: 'pps', wrapper_keccak256: 'pso', wrapper_memory_size: '', wrapper_memory_guard: 'g', wrapper_log0: 'ps', wrapper_log1: 'psc', wrapper_log2: 'pscc', wrapper_log3: 'psccc', wrapper_log4: 'pscccc', memory_alloca_bytes32: '', memory_alloca_u256: '' },
  store: { wrapper_sload_u256: 'Ko', wrapper_sload_bytes32: 'Ko', wrapper_tload_u256: 'Ko', wrapper_tload_bytes32: 'Ko', wrapper_sload_u256_using_little_endian_hostapi: 'Ko', wrapper_sstore_u256: 'Ku', wrapper_sstore_u256_using_little_endian_hostapi: 'Ku', wrapper_sstore_bytes32: 'Kc', wrapper_tstore_u256: 'Ku', wrapper_tstore_bytes32: 'Kc', wrapper_setimmutable: '0Ku', wrapper_loadimmutable: 'Ko' },
  ptr: { wrapper_set_memptr_global: 'w', wrapper_get_memptr_global: '', wrapper_allocate_memory: 's' },
  call: { wrapper_call_contract: 'xAupsps', wrapper_delegatecall: 'xApsps', wrapper_staticcall: 'xApsps', wrapper_create: 'uCSo', wrapper_create2: 'uCSuo' },
  erc: { wrapper_optimized_erc20_fun_transfer: 'TTv' },
  dbg: { wrapper_debug_i256: 'u', wrapper_debug_bytes32: 'c', debug_i32: 'w' },
  end: { wrapper_revert: 'ps', wrapper_return: 'ps', wrapper_stop: '', wrapper_invalid: '', wrapper_selfdestruct: 'c' },
};
const GROUPS = Object.keys(TABLE);
class Gen {
  constructor(rng, R, bin) {
    const r = rng; this.r = r; this.R = R; this.lines = []; this.expect = [];
    const small = r.bool(0.5); const pages = small ? 1 : r.pick([1, 2, 3]); const len = () => r.pick([0, 1, 2, 3, 4, 5, 31, 32, 33, 36, 68, 95, 96, 97, 99, 100, 101, 132, 200, r.int(300), r.int(4000), r.bool(0.2) ? r.pick([65535, 65536, 70000]) : 64]);
    const blob = rng.bytes(r.pick([8, 40, 256, 1000])); const far = r.bool(0.1);
    this.cfg = { small, pages, maxPages: r.pick([pages + 1, pages + 8, pages + 16, 64, 256, 1024, 1024, 4096, 4096]), calldata: r.bytes(len()), code: r.bytes(len()), retdata: r.bytes(len()), codeClaim: far ? r.pick([0, 1 << 16, 1 << 24]) : -1, retClaim: r.bool(0.15) ? r.pick([0, 1, 32, 5000, 70000]) : -1, status: r.pick([0, 0, 0, 1, 2, 3]), createStatus: r.pick([0, 0, 1, 3]), u64: r.pick([0n, 1n, 0x7fffffffffffff00n, 0xfffffffffffffff0n, 0x0102030405060708n]), env: r.pick([new Uint8Array(32), new Uint8Array(32).fill(255), r.bytes(32), toBytes(r.u256())]), blob, debug: /debug/.test(bin) };
    this.m = new Model(this.cfg); const c = this.cfg;
    // where the data base is: the first page behind the image, or the buffer in the data of the harness (not known, so no data segments then)
    this.m.dataBase = small ? 0 : 0x30000000 + pages * PAGE; this.m.blobDist = this.m.dataBase - (0x300000 - blob.length);
    const h = (u) => (u.length ? hex(u) : '-');
    this.lines.push(`init ${small ? 0 : 1} ${small ? 1 : 0} ${pages} ${c.maxPages}`, `calldata ${h(c.calldata)}`, `code ${h(c.code)}`, `retdata ${h(c.retdata)}`, `claims ${c.codeClaim} ${c.retClaim}`, `status ${c.status} ${c.createStatus}`, `hostu64 ${c.u64}`, `env ${hex(c.env)}`, `blob ${hex(blob)}`);
    if (r.bool(0.3)) this.op('set_is_deploying_tx', []);
  }
  value() { const r = this.r; return r.pick([() => r.u256(), () => r.u256(), () => 0n, () => (1n << 256n) - 1n, () => BigInt.asUintN(256, (1n << BigInt(8 * r.int(33))) + BigInt(r.pick([-1, 0, 0, 1]))), () => BigInt(r.u32()), () => BigInt(r.u32()) << BigInt(r.int(40)), () => BigInt(r.int(12)), () => r.u256() & ((1n << 160n) - 1n)])(); }
  setCell(i, u8) { this.m.cells[i].set(u8); this.lines.push(`cell ${i} ${hex(u8)}`); }
  base() { return this.r.int(Math.min(this.m.cells.length, 16)); }
  cellIdx() { const n = this.m.cells.length; return this.r.bool(0.2) && n > 16 ? this.r.range(16, n - 1) : this.r.int(16); }
  size() { const r = this.r; return r.wpick([[3, () => 0], [12, () => r.int(100)], [4, () => r.pick([31, 32, 33, 64, 65, 100])], [3, () => r.int(3000)], [0.5, () => r.int(140000)], [0.12, () => r.pick([0x7fffffff, 0x80000000, 0xffffffff, 0xffffffe0, r.u32()])]])(); }
  off() { const r = this.r; return r.wpick([[12, () => r.int(600)], [3, () => 32 * r.int(40)], [1, () => this.m.msize + 32 * r.int(3) + r.pick([1, 1, 31])], [1, () => this.m.capacity - r.pick([33, 32, 31, 30, 9, 8, 7, 5, 4, 3, 1, 0])], [3, () => Math.max(0, this.m.msize - r.int(70))], [3, () => r.pick([16384, 65536, 131072]) - r.int(70)], [1, () => this.m.capacity - r.int(80)], [0.7, () => this.m.capacity + r.int(90000)], [0.12, () => r.pick([0x7fffffff, 0x7fffffe0, 0x7fffffdf, 0x80000000, 0xffffffff, 0xffffffe0, r.u32()])]])(); }
  arg(k, args) {
    const r = this.r;
    switch (k) {
      case 'c': case 'K': case 'u': { const i = r.bool(0.2) && args.length && args.cells.length ? r.pick(args.cells) : this.cellIdx(); if (r.bool(0.7)) { let v = k === 'K' && r.bool(0.7) ? BigInt(r.int(5)) << BigInt(r.pick([0, 0, 248])) : this.value(); if (r.bool(0.25)) { const o = args.cells.length && r.bool(0.7) ? r.pick(args.cells) : this.cellIdx(); v = BigInt('0x' + hex(this.m.cells[o])); if (k === 'u' && r.bool()) v = fromBytes(this.m.cells[o].slice().reverse()); v = BigInt.asUintN(256, r.pick([() => v ^ (1n << BigInt(r.int(256))), () => v ^ (BigInt(1 + r.int(255)) << BigInt(8 * r.int(32))), () => v + 1n, () => v - 1n, () => v])()); } this.setCell(i, k === 'u' ? le(BigInt.asUintN(256, v)) : toBytes(BigInt.asUintN(256, v))); } args.cells.push(i); return i; }
      case 'A': case 'T': { const i = this.base(); this.setCell(i, toBytes(k === 'T' ? r.pick([0n, 5n, 5n, 6n, 7n, 1n << 160n, (1n << 160n) + 5n, r.u256()]) : r.pick([BigInt(r.int(12)), BigInt(r.int(12)) | (BigInt(1 + r.int(255)) << BigInt(8 * r.int(32))), r.u256(), r.u256() & ((1n << 160n) - 1n)]))); args.cells.push(i); return i; }
      case 'v': { const i = this.base(); if (args.cells.includes(i)) return this.arg(k, args); this.setCell(i, toBytes(r.pick([0n, 1n, BigInt(r.int(1000)), r.u256()]))); return i; }
      case 'o': { let i; do i = this.cellIdx(); while (args.cells.includes(i)); return i; }
      case 'n': return r.pick([() => r.int(258), () => r.int(258), () => r.pick([0, 1, 2, 7, 8, 9, 63, 64, 65, 127, 128, 129, 191, 193, 254, 255, 256, 257]), () => 8 * r.int(33), () => 64 * r.int(5), () => r.pick([0x7fffffff, 0x80000000, 0xffffffff, 1000])])();
      case 'b': return r.pick([() => r.int(40), () => r.int(40), () => r.pick([30, 31, 32, 0x7fffffff, 0xffffffff])])();
      case 'p': return r.bool(0.25) && this.lastOff !== undefined ? this.lastOff + r.pick([0, 0, 0, 1, -1, 4, 24, 28]) >>> 0 : (this.lastOff = this.off()); case 's': return this.size();
      case 'g': return r.pick([0, 128, 96, 160, r.int(40000)]);
      case 'q': return r.pick([() => r.int(150), () => r.int(150), () => Math.max(0, this.cfg.calldata.length - r.int(40)), () => Math.max(0, this.cfg.retdata.length - r.int(40)), () => Math.max(0, this.cfg.code.length - r.int(40)), () => r.int(80000), () => 0, () => r.pick([0x7fffffff, 0x80000000, 0xffffffe0, 0xffffffff])])();
      case 'w': return r.pick([() => r.int(300), () => r.u32(), () => r.pick([0, 1, 255, 256, 0x7fffffff, 0x80000000, 0xffffffff])])();
      case 'x': return r.pick([() => BigInt(r.int(300)), () => BigInt(r.u32()) * BigInt(r.u32()), () => r.pick([0n, 0xffffffffn, 0x100000000n, 0x7fffffffffffffffn, 0x8000000000000000n, 0xffffffffffffffffn])])();
      case '8': return r.int(256); case '0': return 0;
    }
  }
  op(name, args) {
    const no = this.lines.push(`${name} ${args.join(' ')}`); const m = this.m; m.events = []; m.trap = null; let r = null, ended = false;
    try { r = m.run(name, args); } catch (e) { if (!(e instanceof End)) throw e; ended = true; }
    this.expect.push({ no, name, args, r, events: m.events, ended, trap: m.trap }); B.bump(this.R, 'op:' + name.replace('wrapper_', '')); if (m.trap) B.bump(this.R, 'trap:' + m.trap);
    this.R.distinct.push(`${name}:${args.map((a) => (typeof a === 'bigint' || a > 40 ? a.toString(2).length : a)).join(',')}:${ended ? 'end' : ''}`);
    if (r && r.free) { this.setCell(args[0], this.r.bytes(32)); }
    return ended;
  }
  one(group) {
    const r = this.r; const T = TABLE[group]; const name = r.pick(Object.keys(T)); const sig = T[name]; const args = []; args.cells = [];
    if (group === 'code') { const p = this.off(); let s = this.size(); let k; const blobN = this.cfg.blob.length; if (!this.cfg.small && r.bool(0.5)) { s = Math.min(s, blobN); const d = this.m.blobDist - r.int(blobN - s + 1); k = 0x100000000 - d; if (s === 0 || k >= 0xffffffff) k = 3; } else k = r.pick([() => r.int(150), () => Math.max(0, this.m.codeSize() - r.int(40)), () => Math.max(0, this.m.codeSize() + r.int(80)), () => r.pick([0x7fffffff, 0xffffffff, 0x7ffffff0])])(); return this.op(name, [p, k >>> 0, s >>> 0]); }
    if (group === 'call' && sig.includes('C')) { // code in memory: a length prefix, code and calldata
      const off = r.int(300); const n = r.pick([0, 1, 20, 60, 4294967295, 0x80000000, r.int(200)]), tail = r.pick([0, 0, 32, 5]); const len = r.pick([4 + n + tail, 4 + n + tail, r.int(80), 0, 3, 4, 4 + n - 1]) >>> 0; const A = [];
      const c = this.base(); this.setCell(c, toBytes(BigInt(n) << 224n)); if (this.op('wrapper_mstore_bytes32', [off, c])) return true;
      A.cells = []; A.push(this.arg('u', A), off, len > 5000 ? r.int(90) : len); if (sig.length === 5) A.push(this.arg('u', A)); A.push(this.arg('o', A)); return this.op(name, A);
    }
    if (group === 'call' && r.bool(0.2)) this.lines.push(`status ${(this.m.status = r.pick([0, 1, 3, 2]))} ${this.m.createStatus}`);
    for (const k of sig) args.push(this.arg(k, args));
    if (name === 'wrapper_allocate_memory' || name === 'wrapper_set_memptr_global') args[0] = r.pick([() => 0, () => r.int(200), () => 32 * r.int(20), () => r.int(100000), () => 0x7fffffff & r.u32(), () => (name.includes('alloc') ? r.pick([0xffffffff, 0xffffffe1, 0x7fffffff]) : 0)])();
    // a word whose reading as a narrow number has to saturate, or just not
    if (/mload_u(32|64)/.test(name) && r.bool(0.6)) { const c = this.base(), k = r.int(32); this.setCell(c, toBytes(BigInt.asUintN(256, (BigInt(r.bool() ? 1 : 1 + r.int(255)) << BigInt(8 * k)) + BigInt(r.pick([0, 0, -1, r.u32()]))))); if (this.op('wrapper_mstore_bytes32', [args[0], c])) return true; }
    if (name === 'wrapper_mcopy' && r.bool(0.4)) { args[1] = this.m.capacity - r.int(70); args[2] = 1 + r.int(120); args[0] = r.int(500); }
    if (name === 'wrapper_mcopy' && r.bool(0.12)) { args[1] = r.int(900); args[2] = r.pick([1000, 5000, 20000, 66000, r.int(70000)]); args[0] = args[1] + r.pick([1, 7, 8, 31, 32, 255, 4095, 4096, r.int(9000)]); if (this.fill(args[1], args[2])) return true; }
    if (group === 'erc' && r.bool(0.5)) { const f = args[0]; const key = hashSlot(this.m, f); const k = this.base(), v = this.base(); if (k !== v && ![k, v].some((x) => args.includes(x))) { this.setCell(k, key); this.setCell(v, toBytes(r.pick([0n, 1000n, r.u256(), (1n << 256n) - 1n]))); this.op('wrapper_sstore_bytes32', [k, v]); } }
    if (!['mem', 'data', 'ret', 'call', 'code'].includes(group) || !r.bool(0.3)) return this.op(name, args);
    return this.op(name, args) || this.op('wrapper_memory_size', []);
  }
  fill(at, n) { const k = this.r.int(900); if (this.cfg.calldata.length > 60000) return this.op('wrapper_calldata_copy', [at, k, n]); for (let i = 0; i < 24; i++) { this.setCell(1, this.r.bytes(32)); if (this.op('wrapper_mstore_bytes32', [at + this.r.int(n), 1])) return true; } return false; }
  check() { // everything the library may have touched
    this.lines.push('dump'); this.expect.push({ dump: this.m.cells.map((c) => f8(c)) });
    const n = this.m.msize; if (n && n < 2e6) { if (this.op('wrapper_log0', [0, n])) return true; }
    return false;
  }
}
const { hash32 } = require('../lib/rtmodel.js');
function hashSlot(m, c) { const M = (1n << 160n) - 1n; return hash32(Buffer.concat([toBytes(m.be(c) & M), new Uint8Array(32)])); }
function strExpect(v, size) { const s = String(v | 0); return size >= 12 ? `=str ${s.length} 1 ${s} terminated` : null; }
function build(rng, R, bin, focus) {
  const g = new Gen(rng, R, bin); const n = rng.pick([20, 60, 120, 200]); const fav = focus ? rng.pick(focus) : rng.pick([...GROUPS.filter((x) => x !== 'end'), 'mem', 'mem', 'math', 'math']); let over = false;
  const wts = GROUPS.filter((x) => x !== 'end').map((x) => [x === fav ? 12 : x === 'mem' ? 3 : x === 'ret' ? 0.15 : 1, x]);
  if (rng.bool(0.8)) for (let i = rng.int(24); i > 0; i--) { g.setCell(1, rng.bytes(32)); g.op('wrapper_mstore_bytes32', [32 * rng.int(20), 1]); }
  if (rng.bool(0.25)) for (let i = rng.pick([10, 40, 298, 310, 310, 2400]); i > 0 && !over; i--) over = g.op('memory_alloca_bytes32', []);
  for (let i = 0; i < n && !over; i++) {
    over = g.one(rng.wpick(wts));
    if (!over && rng.bool(g.m.msize > 2e5 ? 0.02 : 0.08)) over = g.check();
    if (!over && rng.bool(0.03)) { const v = rng.pick([0, 1, -1, 2147483647, -2147483648, rng.u32() | 0, rng.int(100000) - 50000]), s = rng.range(0, 16); g.lines.push(`str ${v} ${s}`); g.expect.push({ str: strExpect(v, s), v, s }); }
    if (!over && rng.bool(0.04)) { const fn = rng.pick(['memcpy', 'memset', 'memcmp']), len = rng.pick([0, 1, 7, 8, 31, 32, 33, 100, 255]); const d = 8 * rng.int(16), s = fn === 'memset' ? rng.int(256) : fn === 'memcmp' && rng.bool(0.4) ? d : 1024 + 8 * rng.int(16); const buf = Uint8Array.from({ length: 4096 }, (_, i) => (i * 7 + (i >> 8)) & 255); let ret = 0; if (fn === 'memcpy') buf.copyWithin(d, s, s + len); if (fn === 'memset') buf.fill(s, d, d + len); if (fn === 'memcmp') ret = Buffer.compare(buf.subarray(d, d + len), buf.subarray(s, s + len)) === 0 ? 1 : 0; if (fn !== 'memset' || s >= 0) { g.lines.push(`bytes ${fn} ${d} ${s} ${len}`); g.expect.push({ bytes: `=bytes ${ret} ${f8(buf)}` }); } }
  }
  if (!over) over = g.check();
  if (!over) { const name = rng.pick([...Object.keys(TABLE.end), null]); if (name) { const args = []; args.cells = []; for (const k of TABLE.end[name]) args.push(g.arg(k, args)); if (args.length === 2 && rng.bool(0.25)) args[1] = rng.pick([65535, 65536, 70000]); g.op(name, args); } }
  return g;
}
function judge(R, g, bin, p) {
  const script = g.lines.join('\n') + '\n'; const fail = (sig, why, no) => { R.failures.push({ sig, why: `${bin}: ${why}`, src: g.lines.slice(0, no || g.lines.length).slice(-400).join('\n'), spec: { bin } }); };
  const err = String(p.stderr || ''), out = String(p.stdout || '').split('\n'); out.pop();
  if (p.error || p.signal === 'SIGKILL' || /SETUP:|can not mmap|ReserveShadowMemoryRange|MADV_DONTDUMP|Failed to mmap/.test(err) || (p.status >= 93 && p.status <= 97)) { R.inconclusive.push(`${bin}: ${p.error || ''} status ${p.status} ${err.slice(0, 200)}`); return; }
  let lastOp = 0; for (const l of out) if (l[0] === '#') lastOp = Number(l.slice(1));
  if (p.status !== 0 || err) {
    const op = g.lines[lastOp - 1] || '?'; const m = /(runtime error: [^\n]*|AddressSanitizer: [^\n]*|MemorySanitizer: [^\n]*|HOST: [^\n]*)/.exec(err); const loc = /(\w+\.c):(\d+)/.exec((/runtime error/.test(err) ? err : err.slice(err.indexOf('#0'))) || '');
    fail('sanitizer:' + (m ? m[1].replace(/0x[0-9a-f]+|\d+/g, 'N').slice(0, 60) : 'exit ' + (p.signal || p.status)) + ':' + (/ in (\w+) /.exec(err) || [0, op.split(' ')[0]])[1], `${op}: ${(m ? m[1] : `ended with ${p.signal || p.status}`).slice(0, 200)} ${loc ? loc[0] : ''} ${err.slice(0, 900)}`, lastOp); return;
  }
  let k = 0; const next = () => out[k++];
  for (const e of g.expect) {
    if (e.dump) { const l = next() || ''; const w = '=cells ' + e.dump.length + ' ' + e.dump.join(' '); R.evals++; if (l !== w) { const a = l.split(' '), b = w.split(' '); fail('cells', `a buffer changed that no operation named: cell ${b.findIndex((x, i) => x !== a[i]) - 2} (${l.slice(0, 60)})`); return; } continue; }
    if ('str' in e) { const l = next() || ''; R.evals++; if (e.str !== null ? l !== e.str : !new RegExp(`^=str ${e.s === 0 ? '0' : '\\d+'} 1 `).test(l)) { fail('int32_to_str', `int32_to_str(${e.v}, buffer of ${e.s}): ${l}, expected ${e.str}`); return; } continue; }
    if (e.bytes) { const l = next(); R.evals++; if (l !== e.bytes) { fail('bytes', `${l}, expected ${e.bytes}`); return; } continue; }
    const h = next(); R.evals++; const opn = `${e.name}(${e.args.join(', ')})`;
    if (h === '=missing') { B.bump(R, 'missing:' + e.name); R.inconclusive.length < 1 && B.bump(R, 'missing'); return; }
    if (h !== '#' + e.no) { fail('lost', `expected line of ${opn}, got ${h}`); return; }
    const evs = []; while (k < out.length && out[k][0] === '@') evs.push(out[k++]);
    if (e.trap) { const l = out[k]; if (l === '!trap') { B.bump(R, 'trapped'); return; } if (e.trap === 'must') { fail('no-trap:' + e.name, `${opn}: the range can not be had, got ${l} ${evs.join(' ')}`, e.no); } return; }
    if (out[k] === '!trap') { fail('trap:' + e.name, `${opn} traps`, e.no); return; }
    if (evs.join('\n') !== e.events.join('\n')) { fail('events:' + e.name, `${opn}: host saw ${evs.join('; ').slice(0, 400)}, expected ${e.events.join('; ').slice(0, 400)}`, e.no); return; }
    if (e.ended) { if (out[k] !== '!end') fail('end:' + e.name, `${opn} does not end the call: ${out[k]}`, e.no); B.bump(R, 'ended:' + e.name.replace('wrapper_', '')); return; }
    const l = next() || ''; B.bump(R, 'host_events', evs.length);
    if (e.r.cell !== undefined) { const [, n, c] = l.split(' '); if (Number(n) !== e.r.cell) { fail('alloca', `${opn}: ${l}`); return; } void c; g.fresh = (g.fresh || 0) + 1; if (c !== '0'.repeat(64)) { fail('alloca-dirty', `${opn}: a new buffer holds ${c}`, e.no); return; } continue; }
    const [ret, o] = l.slice(1).split(' ');
    if (e.r.ret !== undefined && BigInt.asUintN(e.r.bits, BigInt(ret)) !== e.r.ret) { fail('result:' + e.name, `${opn} yields ${BigInt.asUintN(e.r.bits, BigInt(ret))}, expected ${e.r.ret}`, e.no); return; }
    if (e.r.out && o !== hex(e.r.out)) { fail('result:' + e.name, `${opn} yields ${o}, expected ${hex(e.r.out)}`, e.no); return; }
  }
  if (out[k] !== '!done') fail('tail', `unexpected ${out[k]}`);
}
module.exports = {
  build: ['build_native.sh'], quickSeconds: 40, thoroughSeconds: 700, minJobs: 16, minEvals: 20000, jobs, level: 'exploration', stallSeconds: 120,
  rule: 'one evaluation = one runtime-library operation executed under the sanitizers whose effects were compared; distinct = distinct (operation, operand cells and magnitudes, outcome)',
  assumptions: ['the library is compiled for x86-64 with all addresses below 2 GB; the linear memory is a reserved range of which grown pages are accessible', 'misaligned accesses are not reported: wasm defines them', 'AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer of clang 18 report what they report'],
  runJob(job, ctx) { const R = B.newResult(); scripts(R, ctx, `C10/${ctx.seed}/${job.n}`, 24); return R; },
  scripts,
};
// n scripts of operations, of all groups or with the weight on some
function scripts(R, ctx, key, n, focus) {
  const rng = new Rng(key);
  for (let i = 0; i < n; i++) {
    const bin = rng.pick(['asan_release', 'asan_release', 'asan_debug', 'msan_release']); const g = build(new Rng(`${key}/${i}`), R, bin, focus);
    const run = () => cp.spawnSync(path.join(DIR, bin), [], { input: g.lines.join('\n') + '\n', timeout: 20000, maxBuffer: 1 << 27 });
    let p = run(); if (p.error && p.error.code === 'ETIMEDOUT') { const q = cp.spawnSync(path.join(DIR, 'asan_release'), [], { input: g.lines.join('\n') + '\n', timeout: 60000, maxBuffer: 1 << 27 }); if (q.error && q.error.code === 'ETIMEDOUT') { R.failures.push({ sig: 'hang', why: `${bin}: no end after 60 s, twice`, src: g.lines.slice(-400).join('\n') }); continue; } p = q; }
    if (bin[0] === 'm' && p.status && /MemorySanitizer.*mmap|ReserveShadow|memory layout/.test(String(p.stderr))) p = run();
    ctx.tick(); B.bump(R, 'scripts'); B.bump(R, 'bin:' + bin); judge(R, g, bin, p);
    if (R.samples.length < 2) R.samples.push({ bin, script: g.lines.slice(9, 14).join('; ').slice(0, 300) });
  }
}
