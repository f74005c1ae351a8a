'use strict';
// Recording wasm host implementing stdlib/hostapi.h over a World.
const { keccak256 } = require('./keccak.js');
const crypto = require('crypto');
const { hex, toBytes, fromBytes } = require('./util.js');
class Finish extends Error { constructor(o) { super(o.kind); this.out = o; } }
class HostFault extends Error {}
// name -> wasm signature, from the documented host interface; C18 compares imports with it
const SIG = {
  getAddress: 'i:', getCaller: 'i:', getCallValue: 'i:', getCallDataSize: ':i', callDataCopy: 'iii:', getBlockHash: 'Ii:i', getBlockCoinbase: 'i:', getBlockPrevRandao: 'i:',
  getBlockGasLimit: ':I', getBlockTimestamp: ':I', getGasLeft: ':I', getBlockNumber: ':I', getTxGasPrice: 'i:', getTxOrigin: 'i:', getBaseFee: 'i:', getBlobBaseFee: 'i:', getChainId: 'i:',
  getExternalBalance: 'ii:', getExternalCodeHash: 'ii:', storageLoad: 'ii:', storageStore: 'ii:', storageLoadLittleEndian: 'ii:', storageStoreLittleEndian: 'ii:', transientStore: 'ii:', transientLoad: 'ii:',
  codeCopy: 'iii:', getCodeSize: ':i', externalCodeCopy: 'iiii:', getExternalCodeSize: 'i:i', callContract: 'Iiiii:i', callCode: 'Iiiii:i', callDelegate: 'Iiii:i', callStatic: 'Iiii:i',
  createContract: 'iiiiiiii:i', finish: 'ii:', revert: 'ii:', invalid: ':', emitLogEvent: 'iiiiiii:', getReturnDataSize: ':i', returnDataCopy: 'iii:', selfDestruct: 'i:', keccak256: 'iii:', sha256: 'iii:', addmod: 'iiii:', mulmod: 'iiii:',
  debug_bytes: 'ii:',
};
class Host {
  constructor(world, opts = {}) { this.w = world; this.o = opts; this.mem = null; this.n = {}; this.debug = []; this.misuse = []; }
  u8() { return new Uint8Array(this.mem.buffer); }
  rd(p, n) { p >>>= 0; n >>>= 0; if (p + n > this.mem.buffer.byteLength) throw new HostFault('read out of bounds ' + p + '+' + n); return this.u8().slice(p, p + n); }
  wr(p, b) { p >>>= 0; if (p + b.length > this.mem.buffer.byteLength) throw new HostFault('write out of bounds ' + p + '+' + b.length); this.u8().set(b, p); if (this.o.onWrite) this.o.onWrite(p, b.length); }
  w256(p, v) { this.wr(p, toBytes(v)); } r256(p) { return fromBytes(this.rd(p, 32)); }
  wA(p, v) { this.wr(p, toBytes(v, 20)); } rA(p) { return fromBytes(this.rd(p, 20)); }
  padCopy(src, p, off, len) { // zero padded like the EVM
    if (len < 0 || off < 0) { this.misuse.push(['copy', off, len]); throw new HostFault('negative copy range'); }
    if (off + len > src.length) this.misuse.push(['copyend', off, len, src.length]);
    const out = new Uint8Array(len); if (off < src.length) out.set(src.subarray(off, Math.min(src.length, off + len))); this.wr(p, out);
  }
  imports() {
    const w = this.w, self = this, e = w.env;
    const f = {
      getAddress: (p) => self.wA(p, e.address), getCaller: (p) => self.wA(p, e.caller), getCallValue: (p) => self.w256(p, e.callvalue),
      getCallDataSize: () => w.calldata.length, callDataCopy: (p, o, l) => self.padCopy(w.calldata, p, o, l),
      getBlockHash: (n, p) => { const h = w.blockhash(BigInt.asUintN(64, n)); self.w256(p, h); return h ? 1 : 0; },
      getBlockCoinbase: (p) => self.wA(p, e.coinbase), getBlockPrevRandao: (p) => self.w256(p, e.prevrandao), getBlockGasLimit: () => BigInt.asIntN(64, e.gaslimit), getBlockTimestamp: () => BigInt.asIntN(64, e.timestamp),
      getGasLeft: () => BigInt.asIntN(64, e.gas), getBlockNumber: () => BigInt.asIntN(64, e.number), getTxGasPrice: (p) => self.w256(p, e.gasprice), getTxOrigin: (p) => self.wA(p, e.origin), getBaseFee: (p) => self.w256(p, e.basefee),
      getBlobBaseFee: (p) => self.w256(p, e.blobbasefee), getChainId: (p) => self.w256(p, e.chainid), getExternalBalance: (a, p) => self.w256(p, w.balance(self.rA(a))), getExternalCodeHash: (a, p) => self.w256(p, w.extcodehash(self.rA(a))),
      storageLoad: (k, p) => self.w256(p, w.sload(self.r256(k))), storageStore: (k, v) => w.sstore(self.r256(k), self.r256(v)),
      storageLoadLittleEndian: (k, p) => self.wr(p, toBytes(w.sload(self.r256(k))).reverse()), storageStoreLittleEndian: (k, v) => w.sstore(self.r256(k), fromBytes(self.rd(v, 32).reverse())),
      transientStore: (k, v) => w.tstore(self.r256(k), self.r256(v)), transientLoad: (k, p) => self.w256(p, w.tload(self.r256(k))),
      codeCopy: (p, o, l) => self.padCopy(w.code, p, o, l), getCodeSize: () => w.code.length, externalCodeCopy: (a, p, o, l) => { const A = self.rA(a); if (o < 0 || l < 0) { self.misuse.push(['extcopy', o, l]); throw new HostFault('negative copy range'); } const c = w.extcode(A); const out = new Uint8Array(l); if (o < c.length) out.set(c.subarray(o, Math.min(c.length, o + l))); self.wr(p, out); },
      getExternalCodeSize: (a) => w.extcode(self.rA(a)).length,
      callContract: (g, a, v, d, l) => w.call('call', g, self.rA(a), self.r256(v), self.rd(d, l)), callCode: (g, a, v, d, l) => w.call('callcode', g, self.rA(a), self.r256(v), self.rd(d, l)),
      callDelegate: (g, a, d, l) => w.call('delegatecall', g, self.rA(a), null, self.rd(d, l)), callStatic: (g, a, d, l) => w.call('staticcall', g, self.rA(a), null, self.rd(d, l)),
      createContract: (v, c, cl, d, dl, s, is2, r) => { const x = w.create(is2 ? 'create2' : 'create', self.r256(v), self.rd(c, cl), self.rd(d, dl), is2 ? self.r256(s) : null); if (x.status === 0) self.wA(r, x.addr); return x.status; },
      finish: (p, l) => { throw new Finish({ kind: 'return', data: hex(self.rd(p, l)) }); }, revert: (p, l) => { throw new Finish({ kind: 'revert', data: hex(self.rd(p, l)) }); }, invalid: () => { throw new Finish({ kind: 'fault', data: '' }); },
      emitLogEvent: (p, l, n, a, b, c, d) => { const data = self.rd(p, l); w.log([a, b, c, d].slice(0, n).map((x) => self.r256(x)), data); },
      getReturnDataSize: () => w.retdata.length,
      returnDataCopy: (p, o, l) => { o >>>= 0; l >>>= 0; if (o + l > w.retdata.length) throw new HostFault('returndata out of range'); self.wr(p, w.retdata.subarray(o, o + l)); },
      selfDestruct: (a) => { w.selfdestruct(self.rA(a)); throw new Finish({ kind: 'selfdestruct', data: '' }); },
      keccak256: (p, l, r) => self.wr(r, keccak256(self.rd(p, l))), sha256: (p, l, r) => self.wr(r, new Uint8Array(crypto.createHash('sha256').update(self.rd(p, l)).digest())),
      addmod: (a, b, n, r) => { const m = self.r256(n); self.w256(r, m ? (self.r256(a) + self.r256(b)) % m : 0n); }, mulmod: (a, b, n, r) => { const m = self.r256(n); self.w256(r, m ? (self.r256(a) * self.r256(b)) % m : 0n); },
      debug_bytes: (p, l) => { self.debug.push(hex(self.rd(p, l))); },
    };
    const out = {};
    for (const k of Object.keys(f)) out[k] = (...a) => { self.n[k] = (self.n[k] || 0) + 1; return f[k](...a); };
    return out;
  }
}
// Runs one exported entry point; returns outcome in the interpreter's vocabulary.
function runWasm(module, entry, world, opts = {}) {
  const h = new Host(world, opts); const imp = h.imports();
  const unusable = (why) => ({ out: { kind: 'unusable', data: '', why }, host: h, pages: 0 });
  const need = {}; for (const i of WebAssembly.Module.imports(module)) { if (!(i.name in imp) || i.module !== 'env') return unusable('unknown import ' + i.module + '.' + i.name); need[i.name] = imp[i.name]; }
  let inst; try { inst = new WebAssembly.Instance(module, { env: need }); } catch (e) { if (e instanceof WebAssembly.LinkError || e instanceof WebAssembly.RuntimeError) return unusable(String(e)); throw e; }
  h.mem = inst.exports.memory; if (!h.mem) return unusable('no memory is exported'); if (typeof inst.exports[entry] !== 'function') return unusable('no entry point ' + entry);
  let out;
  try {
    if (inst.exports._start) inst.exports._start();
    inst.exports[entry](); out = { kind: 'stop', data: '' };
  } catch (e) {
    if (e instanceof Finish) out = e.out.kind === 'return' && e.out.data === '' ? { kind: 'stop', data: '' } : e.out;
    else if (e instanceof WebAssembly.RuntimeError || e instanceof HostFault) out = { kind: 'fault', data: '', why: e.message };
    else if (e instanceof RangeError && /call stack/i.test(e.message)) out = { kind: 'fault', data: '', why: 'stack' };
    else throw e;
  }
  return { out, host: h, pages: inst.exports.memory.buffer.byteLength / 65536 };
}
module.exports = { Host, runWasm, SIG };
