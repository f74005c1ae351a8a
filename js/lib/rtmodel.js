'use strict';
// What the operations of the runtime library should do, operation by operation: the oracle of native/harness.c
const { fromBytes, hex, toBytes, M256 } = require('./util.js');
const SEED = 2166136261;
function fnv(u8, seed = SEED) { let h = seed | 0; for (let i = 0; i < u8.length; i++) h = Math.imul(h ^ u8[i], 16777619); return h >>> 0; }
const f8 = (u8) => fnv(u8).toString(16).padStart(8, '0');
function hash32(u8) { const o = new Uint8Array(32); for (let l = 0; l < 8; l++) { let h = fnv(u8, (SEED + l * 0x9e3779b9) >>> 0); h = (h ^ (h >>> 15)) >>> 0; for (let i = 0; i < 4; i++) o[l * 4 + i] = (h >>> (24 - 8 * i)) & 255; } return o; }
const PAGE = 65536, LIMIT = 0x7fffffff;
const le = (v) => toBytes(v).reverse(), fromLe = (u) => fromBytes(Uint8Array.from(u).reverse());
const sgn = (v) => BigInt.asIntN(256, v);
const B32 = (n) => toBytes(BigInt.asUintN(256, BigInt(n)));
class End extends Error {}
class Model {
  constructor(cfg) { // {small, heap, pages, maxPages, calldata, code, retdata, codeClaim, retClaim, status, createStatus, u64, env, blob}
    Object.assign(this, cfg); this.mem = new Uint8Array(1 << 16); this.msize = 0; this.cells = Array.from({ length: 16 }, () => new Uint8Array(32)); this.ncells = 16; this.st = [new Map(), new Map()]; this.deploying = false; this.memptr = 0; this.events = []; this.demand = 0; this.mark = 4096; this.capacity = cfg.small ? 16384 : PAGE; this.allocas = 0; this.zeroCells = [];
  }
  // expected to trap ('must'), able to ('may'), or not
  access(off, size) {
    off >>>= 0; size >>>= 0; if (!size) return null; const end = off + size;
    if (end > LIMIT) { this.trap = 'must'; throw new End(); }
    const pages = Math.ceil(end / PAGE);
    if (end > this.maxPages * PAGE + (1 << 20)) { this.trap = 'must'; throw new End(); }
    // whether it fits depends on how pages are used: the library may start with less, take more than it needs or move to new pages every time
    if (end > this.mark) { this.demand += 2 * pages + 1; this.mark = pages * PAGE; this.demandAlloca(); }
    if (end > this.capacity) this.capacity = pages * PAGE;
    if (end > this.mem.length) { const n = new Uint8Array(Math.max(end + 32, this.mem.length * 2)); n.set(this.mem); this.mem = n; }
    this.msize = Math.max(this.msize, Math.ceil(end / 32) * 32);
    return [off, end];
  }
  extra() { return 2 + Math.ceil(this.allocas / 500); }
  get(off, size) { const r = this.access(off, size); return r ? this.mem.slice(r[0], r[1]) : new Uint8Array(0); }
  put(off, bytes) { const r = this.access(off, bytes.length); if (r) this.mem.set(bytes, r[0]); }
  padded(src, off, len) { const o = new Uint8Array(len >>> 0); for (let i = 0; i < o.length; i++) { const j = (off >>> 0) + i; o[i] = j < src.length ? src[j] : 0; } return o; }
  fill(n, k) { return Uint8Array.from({ length: n }, (_, i) => this.env[i % 32] ^ ((k * 37) & 255)); }
  addr(k) { const o = new Uint8Array(32); o.set(this.fill(20, k), 12); return o; }
  addrKey(c) { return fnv(this.cells[c].subarray(12)) & 0x3f; }
  be(c) { return fromBytes(this.cells[c]); } le(c) { return fromLe(this.cells[c]); }
  ev(s) { this.events.push('@' + s); }
  end() { throw new End(); }
  load(w, key) { return this.st[w].get(hex(key)) || new Uint8Array(32); }
  store(w, key, v) { this.st[w].set(hex(key), Uint8Array.from(v)); this.ev(`${w ? 'transientStore' : 'storageStore'} ${hex(key)} ${hex(v)}`); }
  dataEvent(n, d) { return `${n} ${d.length} ${f8(d)}`; }
  revert(d) { this.ev(this.dataEvent('revert', d) + ' ' + (d.length <= 128 ? hex(d) : '')); this.end(); }
  returnCopy(dst, off, len) { const r = this.access(dst, len); off >>>= 0; len >>>= 0; const have = this.retClaim >= 0 ? this.retClaim : this.retdata.length; if (off + len > have) { this.ev('returnDataCopy out of bounds'); this.end(); } if (r) this.mem.set(this.padded(this.retdata, off, len), r[0]); }
  codeSize() { return this.codeClaim >= 0 ? this.codeClaim : this.code.length; }
  codeCopy(dst, off, len) {
    const r = this.access(dst, len); off >>>= 0; len >>>= 0; if (!r) return;
    const n = 0x100000000 - off; // how far below the data base
    if (off & 0x80000000 && off !== 0xffffffff && n <= this.dataBase) { if (!this.blob || n > this.blobDist || n - len < this.blobDist - this.blob.length) throw new Error('generator: data offset'); this.mem.set(this.blob.subarray(this.blobDist - n, this.blobDist - n + len), r[0]); return; }
    const cs = this.codeSize(); const o = new Uint8Array(len); for (let i = 0; i < len; i++) { const j = off + i; o[i] = j < cs ? (j < this.code.length ? this.code[j] : 0) : this.deploying ? (j - cs < this.calldata.length ? this.calldata[j - cs] : 0) : 0; } this.mem.set(o, r[0]);
  }
  called(name, gas, c, value, inOff, inLen, outOff, outLen) {
    this.access(outOff, outLen); const d = this.get(inOff, inLen); this.ev(`${name} ${BigInt.asUintN(64, gas)} ${hex(this.cells[c].subarray(12))} ${value ? hex(value) : '-'} ${d.length} ${f8(d)}`);
    const a = this.be(c); if (this.status !== 0 && a >= 1n && a <= 10n) return 0n;
    if (this.status === 2) this.revert(Buffer.from('call contract failed'));
    const have = this.retClaim >= 0 ? this.retClaim : this.retdata.length; const n = Math.min(have, outLen >>> 0); if (n) this.returnCopy(outOff, 0, n);
    return this.status === 0 ? 1n : 0n;
  }
  create(c, off, len, salt) {
    const code = this.get(off, len); const z = new Uint8Array(32); if (code.length < 4) return z; const n = ((code[0] << 24) | (code[1] << 16) | (code[2] << 8) | code[3]) >>> 0; if (n > code.length - 4) return z;
    const w = code.subarray(0, n + 4), d = code.subarray(n + 4); this.ev(`createContract ${hex(toBytes(this.le(c)))} ${w.length} ${f8(w)} ${d.length} ${f8(d)} ${salt ? hex(salt) : '-'}`);
    if (this.createStatus !== 0) return z; const o = new Uint8Array(32); o.set(this.fill(20, 77), 12); return o;
  }
  transfer(f, t, v) {
    const M = (1n << 160n) - 1n; const from = this.be(f) & M, to = this.be(t) & M, val = this.be(v); const err = (sel, ...w) => this.revert(Buffer.concat([Buffer.from(sel, 'hex'), ...w.map((x) => toBytes(x))]));
    if (from === 0n) err('96c6fd1e', 0n); if (to === 0n) err('ec442f05', 0n);
    const slot = (a) => hash32(Buffer.concat([toBytes(a), new Uint8Array(32)])); const b = fromBytes(this.load(0, slot(from)));
    if (b < val) err('e450d38c', from, b, val);
    this.store(0, slot(from), toBytes(b - val)); this.store(0, slot(to), toBytes((fromBytes(this.load(0, slot(to))) + val) & M256));
    this.ev(`${this.dataEvent('log', toBytes(val))} ddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef ${hex(toBytes(from))} ${hex(toBytes(to))}`);
  }
  // runs one operation: {ret (BigInt) | undefined, bits, out: bytes | undefined}; events are in this.events
  run(op, a) {
    const C = (i) => this.cells[a[i]], N = (i) => Number(a[i]); const i32 = (x) => Number(BigInt.asIntN(32, BigInt(x)));
    const b = (x) => ({ ret: x ? 1n : 0n, bits: 32 }), u32 = (x) => ({ ret: BigInt.asUintN(32, BigInt(x)), bits: 32 }), u64 = (x) => ({ ret: BigInt.asUintN(64, BigInt(x)), bits: 64 });
    const out = (i, u8) => { this.cells[a[i]].set(u8); return { out: Uint8Array.from(u8) }; };
    switch (op) {
      case 'wrapper_bytes32_lt': return b(this.be(a[0]) < this.be(a[1]));
      case 'wrapper_bytes32_gt': return b(this.be(a[0]) > this.be(a[1]));
      case 'wrapper_bytes32_eq': return b(this.be(a[0]) === this.be(a[1]));
      case 'wrapper_bytes32_slt': return b(sgn(this.be(a[0])) < sgn(this.be(a[1])));
      case 'wrapper_bytes32_sgt': return b(sgn(this.be(a[0])) > sgn(this.be(a[1])));
      case 'wrapper_bytes32_iszero': return b(this.be(a[0]) === 0n);
      case 'wrapper_bytes32_not': return out(1, toBytes(this.be(a[0]) ^ M256));
      case 'wrapper_bytes32_and': return out(2, toBytes(this.be(a[0]) & this.be(a[1])));
      case 'wrapper_bytes32_or': return out(2, toBytes(this.be(a[0]) | this.be(a[1])));
      case 'wrapper_bytes32_xor': return out(2, toBytes(this.be(a[0]) ^ this.be(a[1])));
      case 'wrapper_bytes32_add': return out(2, toBytes((this.be(a[0]) + this.be(a[1])) & M256));
      case 'wrapper_bytes32_shl': case 'wrapper_u256_shl': case 'wrapper_bytes32_shr': case 'wrapper_u256_shr': {
        const s = BigInt(Math.max(0, Math.min(256, i32(a[1])))), L = op.includes('u256'); const x = L ? this.le(a[0]) : this.be(a[0]); const v = op.endsWith('shl') ? (x << s) & M256 : x >> s; return out(2, L ? le(v) : toBytes(v)); }
      case 'u256_to_big_endian_bytes': case 'u256_from_big_endian_bytes': case 'wrapper_decode_big_endian_i256_from_wasm_mem': return out(1, Uint8Array.from(C(0)).reverse());
      case 'i32_to_bytes32_big_endian_bytes': return out(1, toBytes(BigInt.asUintN(32, BigInt(a[0]))));
      case 'i32_from_big_endian_bytes32': return u32(this.be(a[0]));
      case 'wrapper_exp': { let r = 1n, x = this.le(a[0]), e = this.le(a[1]); while (e) { if (e & 1n) r = (r * x) & M256; x = (x * x) & M256; e >>= 1n; } return out(2, le(r)); }
      case 'wrapper_sign_extend': { const k = BigInt.asUintN(32, BigInt(a[0])), x = this.le(a[1]); return out(2, le(k >= 31n ? x : BigInt.asUintN(256, BigInt.asIntN(Number(k + 1n) * 8, x)))); }
      case 'wrapper_addmod': case 'wrapper_mulmod': { const k = op === 'wrapper_addmod' ? 1 : 2; const o = new Uint8Array(32); for (let i = 0; i < 32; i++) o[i] = C(0)[i] ^ (C(1)[i] * 3 & 255) ^ (C(2)[i] * 5 + k & 255); return out(3, o); }
      case 'wrapper_calldataload_u256': return out(1, this.padded(this.calldata, N(0), 32).reverse());
      case 'wrapper_calldataload_bytes32': return out(1, this.padded(this.calldata, N(0), 32));
      case 'wrapper_calldata_load_selector': return u32(fromBytes(this.padded(this.calldata, 0, 4)));
      case 'wrapper_calldata_size': return u32(this.calldata.length);
      case 'wrapper_calldata_size_minus_4': return u32(this.calldata.length - 4);
      case 'wrapper_caller': return out(0, this.addr(2)); case 'wrapper_current_contract': return out(0, this.addr(1)); case 'wrapper_origin': return out(0, this.addr(3)); case 'wrapper_block_coin_base': return out(0, this.addr(4));
      case 'wrapper_block_prevRandao': return { out: null, free: true };
      case 'wrapper_callvalue': return out(0, this.fill(32, 0).reverse()); case 'wrapper_callvalue_not_zero': return b(this.env.some((x) => x));
      case 'wrapper_query_balance': return out(1, this.fill(32, 64 + this.addrKey(a[0])).reverse());
      case 'wrapper_self_balance': return out(0, this.fill(32, 64 + (fnv(this.fill(20, 1)) & 0x3f)).reverse());
      case 'wrapper_revert': return this.revert(this.get(N(0), N(1)));
      case 'wrapper_return': this.ev(this.dataEvent('finish', this.get(N(0), N(1)))); return this.end();
      case 'wrapper_stop': this.ev(this.dataEvent('finish', new Uint8Array(0))); return this.end();
      case 'wrapper_invalid': this.ev('invalid'); return this.end();
      case 'wrapper_selfdestruct': this.ev('selfDestruct ' + hex(C(0).subarray(12))); return this.end();
      case 'wrapper_codecopy': case 'wrapper_data_copy': this.codeCopy(N(0), N(1), N(2)); return {};
      case 'wrapper_memory_guard': this.access(0, N(0)); return u32(96);
      case 'wrapper_mstore_bytes32': this.put(N(0), Uint8Array.from(C(1))); return {};
      case 'wrapper_mstore_u256': this.put(N(0), Uint8Array.from(C(1)).reverse()); return {};
      case 'wrapper_mstore_u32': case 'wrapper_mstore_u64': this.put(N(0), B32(a[1])); return {};
      case 'wrapper_mstore_u8': this.put(N(0), Uint8Array.of(N(1) & 255)); return {};
      case 'wrapper_mload_u256': return out(1, this.get(N(0), 32).reverse()); case 'wrapper_mload_bytes32': return out(1, this.get(N(0), 32));
      case 'wrapper_mload_u32': { const v = fromBytes(this.get(N(0), 32)); return u32(v > 0xffffffffn ? 0xffffffffn : v); }
      case 'wrapper_mload_u64': { const v = fromBytes(this.get(N(0), 32)); return u64(v >> 64n ? (1n << 64n) - 1n : v); }
      case 'wrapper_mcopy': { const d = this.access(N(1), N(2)); const s = this.get(N(1), N(2)); this.put(N(0), s); void d; return {}; }
      case 'wrapper_sload_u256': return out(1, Uint8Array.from(this.load(0, C(0))).reverse()); case 'wrapper_sload_bytes32': return out(1, this.load(0, C(0)));
      case 'wrapper_tload_u256': return out(1, Uint8Array.from(this.load(1, C(0))).reverse()); case 'wrapper_tload_bytes32': return out(1, this.load(1, C(0)));
      case 'wrapper_sload_u256_using_little_endian_hostapi': return out(1, Uint8Array.from(this.load(0, C(0))).reverse());
      case 'wrapper_sstore_u256': this.store(0, Uint8Array.from(C(0)).reverse(), Uint8Array.from(C(1)).reverse()); return {};
      case 'wrapper_sstore_u256_using_little_endian_hostapi': this.store(0, C(0), Uint8Array.from(C(1)).reverse()); return {};
      case 'wrapper_sstore_bytes32': this.store(0, C(0), C(1)); return {};
      case 'wrapper_tstore_u256': this.store(1, Uint8Array.from(C(0)).reverse(), Uint8Array.from(C(1)).reverse()); return {};
      case 'wrapper_tstore_bytes32': this.store(1, C(0), C(1)); return {};
      case 'wrapper_keccak256': return out(2, hash32(this.get(N(0), N(1))));
      case 'wrapper_log0': case 'wrapper_log1': case 'wrapper_log2': case 'wrapper_log3': case 'wrapper_log4': { const d = this.get(N(0), N(1)); this.ev(this.dataEvent('log', d) + a.slice(2).map((c) => ' ' + hex(this.cells[c])).join('')); return {}; }
      case 'wrapper_time_stamp': return u64(this.u64 + 1n); case 'wrapper_block_number': return u64(this.u64 + 3n); case 'wrapper_gas': return u64(this.u64 + 2n); case 'wrapper_gas_limit': return u64(this.u64);
      case 'wrapper_current_chainid': return out(0, this.fill(32, 10).reverse()); case 'wrapper_current_base_fee': return out(0, this.fill(32, 8).reverse()); case 'wrapper_current_blob_base_fee': return out(0, this.fill(32, 9).reverse()); case 'wrapper_gas_price': return out(0, this.fill(32, 7).reverse());
      case 'wrapper_block_hash': return out(1, this.fill(32, Number(BigInt(a[0]) & 0x7fn)));
      case 'wrapper_create': return out(3, this.create(a[0], N(1), N(2), null)); case 'wrapper_create2': { const s = toBytes(this.le(a[3])); return out(4, this.create(a[0], N(1), N(2), s)); }
      case 'wrapper_call_contract': { const v = toBytes(this.le(a[2])); return u32(this.called('callContract', BigInt(a[0]), a[1], v, N(3), N(4), N(5), N(6))); }
      case 'wrapper_delegatecall': return u32(this.called('callDelegate', BigInt(a[0]), a[1], null, N(2), N(3), N(4), N(5))); case 'wrapper_staticcall': return u32(this.called('callStatic', BigInt(a[0]), a[1], null, N(2), N(3), N(4), N(5)));
      case 'wrapper_memory_size': return u64(this.msize); case 'wrapper_returndata_size': return u32(this.retClaim >= 0 ? this.retClaim : this.retdata.length);
      case 'wrapper_calldata_copy': { const r = this.access(N(0), N(2)); if (r) this.mem.set(this.padded(this.calldata, N(1), N(2)), r[0]); return {}; }
      case 'wrapper_returndata_copy': this.returnCopy(N(0), N(1), N(2)); return {};
      case 'set_is_deploying_tx': this.deploying = true; return {}; case 'is_deploying_tx': return b(this.deploying);
      case 'wrapper_current_contract_code_size': return u32(this.codeSize() + (this.deploying ? this.calldata.length : 0)); case 'wrapper_current_contract_pure_contract_size': return u32(this.codeSize());
      case 'wrapper_extcode_size': return u32(this.addrKey(a[0]) * 0x40001); case 'wrapper_extcode_hash': return out(1, this.fill(32, 128 + this.addrKey(a[0])));
      case 'wrapper_extcode_copy': { const r = this.access(N(1), N(3)); if (r) this.mem.set(this.padded(this.code, N(2), N(3)), r[0]); return {}; }
      case 'wrapper_set_memptr_global': this.memptr = N(0) >>> 0; return {}; case 'wrapper_get_memptr_global': return u32(this.memptr);
      case 'wrapper_allocate_memory': { const n = this.memptr + Math.ceil((N(0) >>> 0) / 32) * 32; if (n > 0x7fffffff) { this.trap = 'must'; throw new End(); } const r = this.memptr; this.memptr = n; return u32(r); }
      case 'wrapper_optimized_erc20_fun_transfer': this.transfer(a[0], a[1], a[2]); return {};
      case 'wrapper_setimmutable': { const s = this.le(a[1]), k = toBytes(s); const flag = Uint8Array.from(k); const p = Buffer.from('setimmutable_'); for (let i = 0; i < p.length; i++) flag[i] = (flag[i] + p[i]) & 255; if (fromBytes(this.load(0, flag))) this.revert(Buffer.from('immutable slot already set')); this.store(0, k, Uint8Array.from(C(2)).reverse()); this.store(0, flag, B32(1)); return {}; }
      case 'wrapper_loadimmutable': return out(1, Uint8Array.from(this.load(0, toBytes(this.le(a[0])))).reverse());
      case 'memory_alloca_bytes32': case 'memory_alloca_u256': this.allocas++; this.demandAlloca(); this.cells.push(new Uint8Array(32)); return { cell: this.cells.length - 1 };
      case 'wrapper_debug_i256': if (this.debug) { const v = this.le(a[0]); for (const d of [Buffer.from('debugging_i256\nas u32:'), Buffer.from(String(i32(BigInt.asUintN(32, v)))), Buffer.from('as hex:'), toBytes(v)]) this.ev('debug ' + hex(d)); } return {};
      case 'wrapper_debug_bytes32': if (this.debug) this.ev('debug ' + hex(C(0))); return {};
      case 'debug_i32': if (this.debug) this.ev('debug ' + hex(Buffer.from(String(i32(a[0]))))); return {};
    }
    throw new Error('no model of ' + op);
  }
  demandAlloca() { if (this.demand + this.pages + this.extra() + 1 > this.maxPages) { this.trap = 'may'; throw new End(); } }
}
module.exports = { Model, End, fnv, f8, hash32, le, PAGE };
