'use strict';
// Random objects with data segments and nested contracts, and statements that read and create them.
const { Gen } = require('./prog.js');
const SZ = [1, 2, 3, 4, 31, 32, 33, 63, 64, 100, 255, 256, 257, 1000];
const BIG = [4096, 10000, 65531, 65532, 65535, 65536, 65537, 70000, 131072, 150001];
class Objs {
  constructor(rng, o = {}) { this.r = rng; this.o = o; this.feat = {}; this.kids = []; }
  f(k) { this.feat[k] = (this.feat[k] || 0) + 1; }
  bytes(n) { const r = this.r; const b = r.wpick([[6, 0], [1, 1], [1, 2]]); return b === 0 ? r.bytes(n) : b === 1 ? new Uint8Array(n) : new Uint8Array(n).fill(0xff); }
  // {name, src, bytes}
  seg(taken) {
    const r = this.r; let name; do name = r.pick(['.metadata', 'a', 'b', 'tbl', 'x.y', '0', '12', 'data', 'code', 'C', 'a_b', 'tbl2', 'aa', 'very_long_segment_name_' + r.int(9)]); while (taken.has(name)); taken.add(name);
    let n = r.bool(this.o.big || 0) ? r.pick(BIG) : r.pick([...SZ, r.range(1, 400)]); const c = (x) => (r.bool(0.2) ? x.toUpperCase() : x); let lits;
    if (r.bool(0.12)) { lits = Array.from({ length: r.range(2, 9) }, () => r.wpick([[3, '00'], [1, 'ff'], [1, '0e'], [1, '30'], [1, '0000'], [1, '00'.repeat(r.range(1, 40))], [3, Buffer.from(r.bytes(r.range(1, 40))).toString('hex')]])); n = lits.join('').length / 2; this.f('seg:literals'); }
    else { const h = Buffer.from(this.bytes(n)).toString('hex'); const at = n > 1 && r.bool(0.1) ? 2 * r.range(1, n - 1) : 0; lits = at ? [h.slice(0, at), h.slice(at)] : [h]; if (at) this.f('seg:parts'); }
    this.f(n >= 4096 ? 'seg:big' : 'seg');
    return { name, n: n + 4, src: `data "${name}" ` + lits.map((x) => `hex"${c(x)}"`).join(r.pick([' ', '\n', '  '])) };
  }
  // a contract of its own: {name, src}
  kid(name, depth = 0) {
    const r = this.r; this.f('kid');
    if (name.endsWith('_deployed')) { const k = r.int(1000); this.f('kid:named_deployed'); return { name, src: `object "${name}" { code { mstore(0, add(sload(${k}), calldataload(4))) log1(0, 32, ${k}) ${r.bool() ? `let z_ := datasize("s") datacopy(32, dataoffset("s"), z_) return(0, add(32, z_)) } data "s" hex"${'a1b2c3d4'.repeat(r.range(1, 9))}" }` : 'return(0, 32) } }'}` }; }
    const g = new Gen(r, {}); let src;
    if (r.bool(0.5)) src = g.program(2); else { const k = r.int(1000); src = `object "P" { code { codecopy(0, datasize("P"), 64) sstore(${k}, mload(0)) sstore(add(${k}, 1), mload(32)) return(0, 0) } object "P_deployed" { code { mstore(0, add(sload(${k}), calldataload(4))) log1(0, 32, ${k}) return(0, 32) } } }`; }
    return { name, src: src.replace(/object "P(_deployed)?"/g, (m, d) => `object "${name}${d || ''}"`).replace(/datasize\("P"\)/g, `datasize("${name}")`) };
  }
}
module.exports = { Objs };
