'use strict';
// Expressions for a wanted 256-bit value in the representations the compiler may pick. cd(v) registers a calldata word.
class Vals {
  constructor(rng) { this.r = rng; this.words = []; this.pre = ''; this.n = 0; this.feat = {}; }
  f(k) { this.feat[k] = (this.feat[k] || 0) + 1; }
  cd(v) { this.words.push(v); return `calldataload(${36 + 32 * (this.words.length - 1)})`; }
  tmp(e) { const n = 'v' + this.n++; this.pre += `let ${n} := ${e}\n`; return n; }
  take() { const p = this.pre; this.pre = ''; return p; }
  expr(v, o = {}) {
    const r = this.r; const M = (1n << 256n) - 1n;
    for (;;) switch (r.int(16)) {
      case 0: this.f('dec'); return v.toString(); case 1: case 2: this.f('hex'); return '0x' + v.toString(16); case 3: case 4: this.f('ptr'); return this.cd(v); case 5: this.f('u256'); return `add(${this.cd(v)}, 0x00)`; case 6: this.f('ptrvar'); return this.tmp(this.cd(v)); case 7: this.f('u256var'); return this.tmp(`xor(${this.cd(v ^ 5n)}, 5)`);
      case 8: this.f('fn'); return `idf(${this.expr(v)})`; case 9: this.f('not'); return `not(${this.cd(v ^ M)})`; case 10: this.f('sub'); return `sub(${this.cd((v + 9n) & M)}, 9)`; case 11: if (v < 2n) { this.f('bool'); return r.pick([v ? 'true' : 'false', `iszero(${this.cd(v ^ 1n)})`, `eq(${this.cd(v)}, 1)`]); } break;
      case 12: this.f('mload'); this.pre += `mstore(0x1e0, ${this.cd(v)})\n`; if (this.memused) break; this.memused = true; return 'mload(0x1e0)'; case 13: this.f('fnconst'); return this.tmp(`idf(0x${v.toString(16)})`); case 14: this.f('and'); return `and(${this.cd(v)}, not(0))`; default: if (v % 4n === 0n) { this.f('shl'); return `shl(2, ${this.cd(v >> 2n)})`; }
    }
  }
  stmt(f) { this.memused = false; const s = f(); return this.take() + s + '\n'; }
}
module.exports = { Vals };
