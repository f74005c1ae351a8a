'use strict';
const M256 = (1n << 256n) - 1n;
const hex = (u8) => Buffer.from(u8).toString('hex');
const unhex = (s) => new Uint8Array(Buffer.from(s.replace(/^0x/, ''), 'hex'));
function toBytes(v, n = 32) { return unhex(BigInt.asUintN(n*8, v).toString(16).padStart(n*2, '0')); }
function fromBytes(u8) { return u8.length ? BigInt('0x' + hex(u8)) : 0n; }
const h64 = (v) => v.toString(16).padStart(64, '0');
// splitmix64-based PRNG, deterministic from an integer or string seed
class Rng {
  constructor(seed) {
    let h = 0xcbf29ce484222325n;
    for (const c of Buffer.from(String(seed))) h = BigInt.asUintN(64, (h ^ BigInt(c)) * 0x100000001b3n);
    this.a = Number(h & 0xffffffffn) | 0; this.b = Number(h >> 32n) | 0; this.c = 0x9e3779b9 | 0; this.d = 1;
    for (let i = 0; i < 16; i++) this.u32();
  }
  u32() { // sfc32
    const t = (this.a + this.b | 0) + this.d | 0; this.d = this.d + 1 | 0;
    this.a = this.b ^ this.b >>> 9; this.b = this.c + (this.c << 3) | 0;
    this.c = (this.c << 21 | this.c >>> 11); this.c = this.c + t | 0; return t >>> 0;
  }
  int(n) { return n <= 0 ? 0 : Math.floor(this.u32() / 4294967296 * n); }
  range(a, b) { return a + this.int(b - a + 1); }
  bool(p = 0.5) { return this.u32() / 4294967296 < p; }
  pick(a) { return a[this.int(a.length)]; }
  wpick(pairs) { let s = 0; for (const [w] of pairs) s += w; let r = this.u32() / 4294967296 * s; for (const [w, v] of pairs) { r -= w; if (r < 0) return v; } return pairs[pairs.length-1][1]; }
  bytes(n) { const u = new Uint8Array(n); for (let i = 0; i < n; i++) u[i] = this.u32() & 255; return u; }
  shuffle(a) { for (let i = a.length - 1; i > 0; i--) { const j = this.int(i+1); [a[i], a[j]] = [a[j], a[i]]; } return a; }
  u256() { // boundary-heavy 256-bit values
    const k = this.int(15);
    const w = () => fromBytes(this.bytes(32));
    switch (k) {
      case 0: return BigInt(this.int(4));
      case 1: return BigInt.asUintN(256, -BigInt(this.range(1, 4)));
      case 2: { const s = BigInt(this.pick([7,8,15,16,31,32,33,63,64,65,95,96,127,128,129,159,160,161,191,192,223,224,248,252,254,255])); return BigInt.asUintN(256, (1n << s) + BigInt(this.range(-2, 2))); }
      case 3: return (1n << 255n) + BigInt(this.range(-1, 1));
      case 4: return w() >> BigInt(this.int(256));
      case 5: return BigInt.asUintN(256, -(w() >> BigInt(this.int(256))));
      case 6: { let v = 0n; for (let i = 0; i < 32; i++) v = (v << 8n) | BigInt(this.pick([0,0,0xff,0x80,0x7f,1])); return v; }
      case 7: { let v = 0n; for (let i = 0; i < 4; i++) v = (v << 64n) | this.pick([0n, 0xffffffffffffffffn, 0x8000000000000000n, 1n, fromBytes(this.bytes(8))]); return v; }
      case 8: return BigInt(this.int(300));
      case 9: return BigInt(this.u32());
      case 11: { const bit = () => 1n << BigInt(this.int(256)); return this.bool() ? bit() : bit() | bit(); } // one or two bits
      case 12: return fromBytes(this.bytes(this.range(1, 8))) << BigInt(64 * this.int(4)) & M256; // one 64-bit word, the others zero
      case 13: { const a = this.bool() ? fromBytes(this.bytes(8)) : 1n << BigInt(this.int(64)), n = BigInt.asUintN(64, this.pick([-a, a, ~a])); const i = this.int(4); let j = this.int(3); if (j >= i) j++; return (a << BigInt(64 * i)) | (n << BigInt(64 * j)); } // two words that cancel under +, xor, and
      case 10: return w() & ~((1n << BigInt(this.int(256))) - 1n);
      default: return w();
    }
  }
}
module.exports = { M256, hex, unhex, toBytes, fromBytes, h64, Rng };
