'use strict';
// Deterministic chain environment shared by the reference interpreter and the wasm host.
// Every reply is a function of the request and of the world's spec, so both sides see the same chain.
const { keccak256 } = require('./keccak.js');
const { hex, toBytes, fromBytes, h64, M256 } = require('./util.js');
const A160 = (1n << 160n) - 1n;
const mix = (...p) => fromBytes(keccak256(Buffer.from(p.join('|'))));
class World {
  // spec: {seed, address, caller, origin, callvalue, calldata, code, ..., calls:[{status,ret}], creates:[{status,addr,ret}], balances}
  constructor(spec = {}) {
    this.spec = spec; this.seed = spec.seed ?? 1;
    this.storage = new Map(); this.transient = new Map(); this.events = [];
    for (const [k, v] of Object.entries(spec.storage || {})) this.storage.set(h64(BigInt(k)), BigInt(v));
    this.env = Object.assign({
      address: mix('addr', this.seed) & A160, caller: mix('caller', this.seed) & A160, origin: mix('origin', this.seed) & A160,
      coinbase: mix('coinbase', this.seed) & A160, callvalue: 0n, gasprice: mix('gp', this.seed) >> 200n, chainid: 1n + (mix('cid', this.seed) >> 230n),
      basefee: mix('bf', this.seed) >> 190n, blobbasefee: mix('bbf', this.seed) >> 190n, prevrandao: mix('pr', this.seed),
      timestamp: 1700000000n, number: 19000000n, gaslimit: 30000000n, gas: 5000000n,
    }, spec.env || {});
    this.calldata = spec.calldata || new Uint8Array(); this.code = spec.code || new Uint8Array(keccakStream('code', this.seed, 777));
    this.retdata = new Uint8Array(); this.nCall = 0; this.nCreate = 0;
  }
  newTx(over) { // next transaction on the same chain state
    const w = new World(Object.assign({}, this.spec, over)); w.storage = this.storage; w.spec = Object.assign({}, this.spec, over);
    return w;
  }
  sload(k) { return this.storage.get(h64(k)) ?? 0n; }
  sstore(k, v) { this.events.push({ t: 'sstore', k: h64(k), v: h64(v) }); if (v === 0n) this.storage.delete(h64(k)); else this.storage.set(h64(k), v); }
  tload(k) { return this.transient.get(h64(k)) ?? 0n; }
  tstore(k, v) { this.events.push({ t: 'tstore', k: h64(k), v: h64(v) }); this.transient.set(h64(k), v); }
  balance(a) { a &= A160; return this.spec.balances && this.spec.balances[a] !== undefined ? this.spec.balances[a] : mix('bal', this.seed, a); }
  extcode(a) { a &= A160; const s = mix('codelen', this.seed, a); if (s % 16n === 1n) return bigStream(this.seed, Number(s % 140000n)); const n = s % 4n === 0n ? 0 : Number(s % 300n); return keccakStream('ext' + a, this.seed, n); }
  extcodehash(a) { a &= A160; return mix('codehash', this.seed, a); }
  blockhash(n) { // valid only for the 256 most recent blocks
    return n < this.env.number && n + 256n >= this.env.number ? mix('bh', this.seed, n) : 0n;
  }
  log(topics, data) { this.events.push({ t: 'log', topics: topics.map(h64), data: hex(data) }); }
  call(kind, gas, addr, value, input) {
    addr &= A160;
    const ev = { t: kind, addr: addr.toString(16), value: value === null ? null : h64(value), in: hex(input) };
    if (gas !== null) { if (gas < 0n) gas = BigInt.asUintN(64, gas); ev.gas = gas >= 1n << 63n ? 'all' : gas.toString(); } // an amount no block has stands for all there is
    this.events.push(ev);
    const L = this.spec.calls || [{ status: 0, ret: new Uint8Array() }];
    const r = L[this.nCall++ % L.length]; this.retdata = r.status === 1 && addr >= 1n && addr <= 10n ? new Uint8Array() : r.ret; return r.status; // a precompiled contract that fails returns no data
  }
  create(kind, value, code, args, salt) {
    this.events.push({ t: kind, value: h64(value), code: hex(code), args: hex(args), salt: salt === null ? null : h64(salt) });
    const L = this.spec.creates || [{ status: 0, ret: new Uint8Array() }];
    const r = L[this.nCreate++ % L.length]; this.retdata = r.status === 0 ? new Uint8Array() : r.ret;
    return { status: r.status, addr: r.status === 0 ? mix('created', this.seed, this.nCreate) & A160 : 0n };
  }
  selfdestruct(a) { this.events.push({ t: 'selfdestruct', addr: (a & A160).toString(16) }); }
}
// more bytes than are worth hashing
let big = null;
function bigStream(seed, n) { if (!big || big.seed !== seed || big.u.length !== n) { const u = new Uint8Array(n); let x = (Number(fromBytes(keccak256(Buffer.from('big|' + seed))) & 0x7fffffffn) | 1) >>> 0; for (let i = 0; i < n; i++) { x = (Math.imul(x, 1664525) + 1013904223) >>> 0; u[i] = x >>> 24; } big = { seed, u }; } return big.u; }
function keccakStream(tag, seed, n) {
  const out = new Uint8Array(n); for (let i = 0; i * 32 < n; i++) { const k = keccak256(Buffer.from(tag + '|' + seed + '|' + i)); out.set(k.subarray(0, Math.min(32, n - i * 32)), i * 32); }
  return out;
}
module.exports = { World, A160, mix };
