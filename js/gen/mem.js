'use strict';
// Random histories of memory operations.
// o: {base, span, huge, allopt}; offsets lie in [base, base+span)
class Mem {
  constructor(rng, o) { this.r = rng; this.o = o; this.words = []; this.n = 0; this.feat = {}; this.hasRet = false; }
  f(k) { this.feat[k] = (this.feat[k] || 0) + 1; }
  cd(v) { this.words.push(v); return `calldataload(${36 + 32 * (this.words.length - 1)})`; } // a word of calldata whose value the input fixes
  num(v) { // one way of producing the number v
    const r = this.r;
    switch (r.int(10)) {
      case 0: case 1: return String(v); case 2: return '0x' + v.toString(16); case 3: this.f('num:cd'); return this.cd(BigInt(v)); case 4: { const k = r.int(v + 1); return `add(${k}, ${v - k})`; }
      case 5: return `sub(${v + 32}, 0x20)`; case 6: { this.f('num:idf'); return `idf(${v})`; } case 7: return `and(${this.cd(BigInt(v) | (r.u256() << 40n) & ((1n << 256n) - 1n))}, 0xffffffffff)`;
      case 8: { this.f('num:mload'); return `mload(stash(${r.bool() ? v : this.cd(BigInt(v))}))`; }
      default: { this.f('num:u256'); return `add(${this.cd(BigInt(v))}, 0x00)`; }
    }
  }
  off(len) { const o = this.o, r = this.r; let v; const span = Math.max(1, o.span - Number(len)); switch (r.int(5)) { case 0: v = o.base + 32 * r.int(Math.max(1, span >> 5)); break; case 1: v = this.last !== undefined ? this.last + r.range(-33, 33) : o.base; break; case 2: v = this.last !== undefined ? this.last : o.base; break; default: v = o.base + r.int(span); } v = Math.max(o.base, Math.min(o.base + span - 1, v)); this.last = v; return v; }
  len() { const r = this.r; return r.bool(0.006) ? r.pick([65535, 65536, 65600, 70000]) : r.pick([0, 1, 2, 3, 4, 7, 8, 20, 31, 32, 33, 63, 64, 65, 100, 127, 200, r.int(300)]); }
  val() {
    const r = this.r;
    switch (r.int(14)) {
      case 12: { this.f('val:edge'); const v = BigInt.asUintN(256, (1n << BigInt(r.pick([8, 16, 31, 32, 32, 33, 63, 64, 64, 65, 96, 128, 160, 192, 255]))) + BigInt(r.pick([-1, 0, 0, 1]))); return r.bool() ? v.toString() : '0x' + v.toString(16); }
      case 0: case 1: this.f('val:cd'); return this.cd(r.u256()); case 2: this.f('val:u256'); return `add(${this.cd(r.u256())}, 1)`; case 3: return '0x' + r.u256().toString(16); case 4: return String(r.int(300)); case 5: this.f('val:i64'); return r.pick(['timestamp()', 'number()', 'gaslimit()']); case 6: this.f('val:i1'); return `lt(${this.cd(r.u256())}, 0x80)`;
      case 7: this.f('val:mload'); return `mload(${this.num(this.off(32))})`; case 8: return r.pick(['caller()', 'address()', 'callvalue()', 'calldatasize()', 'sload(3)']); case 9: { const v = BigInt(r.u32()) << BigInt(r.int(34)); return r.bool() ? v.toString() : '0x' + v.toString(16); }
      case 10: return `not(${this.cd(r.u256())})`; case 11: return r.pick(['0', '0x00', '1', 'true', 'false', 'not(0)', 'shl(224, 0x4e487b71)']); default: this.f('val:keccak'); return `keccak256(${this.num(this.off(32))}, ${this.num(r.pick([0, 1, 32, 64]))})`;
    }
  }
  op() {
    const r = this.r; const k = r.wpick([[9, 'mstore'], [5, 'mstore8'], [4, 'mcopy'], [3, 'calldatacopy'], [1, 'codecopy'], [1, 'extcodecopy'], [1, 'retcopy'], [5, 'mload'], [2, 'keccak'], [2, 'log'], [1, 'call'], [1, 'cond'], [1, 'loop'], [1, 'arg'], [this.o.msize ? 3 : 0, 'msize']]); this.f('op:' + k);
    switch (k) {
      case 'mstore': { const o = this.num(this.off(32)); return `mstore(${o}, ${this.val()})`; }
      case 'mstore8': { const o = this.num(this.off(1)); return `mstore8(${o}, ${this.val()})`; }
      case 'mcopy': { const l = this.len(); const a = this.off(l); let b = r.bool(0.7) ? Math.max(this.o.base, Math.min(this.o.base + this.o.span - l - 1, a + r.range(-l, l))) : this.off(l); return `mcopy(${this.num(a)}, ${this.num(b)}, ${this.num(l)})`; }
      case 'calldatacopy': { const l = this.len(); return `calldatacopy(${this.num(this.off(l))}, ${r.bool(0.8) ? this.num(r.int(200)) : r.pick(['calldatasize()', '0xffffffff', '0x100000000', 'not(0)', 'sub(calldatasize(), 5)'])}, ${this.num(l)})`; }
      case 'codecopy': { const l = this.len(); return `codecopy(${this.num(this.off(l))}, ${r.bool(0.8) ? this.num(r.int(800)) : r.pick(['codesize()', '0x7fffffff', 'not(0)', '0x100000000'])}, ${this.num(l)})`; }
      case 'extcodecopy': { const l = this.len(); return `extcodecopy(caller(), ${this.num(this.off(l))}, ${this.num(r.int(100))}, ${this.num(l)})`; }
      case 'call': { const l = this.len(), m = this.len(); const a = this.num(this.off(l)), b = this.num(this.off(m)); return `acc := xor(acc, ${r.pick(['call(gas(), caller(), 0, ', 'staticcall(gas(), caller(), ', 'delegatecall(gas(), caller(), '])}${a}, ${this.num(l)}, ${b}, ${this.num(m)}))`; }
      case 'retcopy': { const l = r.int(12); return `if gt(returndatasize(), 30) { returndatacopy(${this.num(this.off(l))}, ${this.num(r.int(18))}, ${this.num(l)}) }`; }
      case 'mload': { const o = this.num(this.off(32)); return `acc := add(mul(acc, 31), mload(${o}))`; }
      case 'keccak': { const l = this.len(); return `acc := xor(acc, keccak256(${this.num(this.off(l))}, ${this.num(l)}))`; }
      case 'log': { const l = this.len(); return `log${r.int(3)}`.replace(/log(\d)/, (m, n) => `log${n}(${this.num(this.off(l))}, ${this.num(l)}${', acc'.repeat(Number(n))})`); }
      case 'cond': return `if ${this.cd(BigInt(r.int(2)))} { ${this.op()} }`;
      case 'loop': { const o = this.off(200); const st = r.pick([1, 8, 31, 32, 33]); return `for { let i := 0 } lt(i, ${r.range(1, 6)}) { i := add(i, 1) } { ${r.pick(['mstore', 'mstore8'])}(add(${this.num(o)}, mul(i, ${st})), add(i, ${this.val()})) }`; }
      case 'arg': { const a = this.num(this.off(32)), b = this.num(this.off(32)); return `mstore(${a}, idf(mload(${b})))`; }
      case 'msize': return `acc := add(mul(acc, 7), msize())`;
    }
  }
  // one operation that reaches both the memory in use and memory far behind it
  far() {
    const r = this.r, F = this.num(r.pick([16352, 16353, 16384, 16400, 20000, 65500, 65536, 65600, 131072, 131090, 200000])), N = this.num(this.off(64)), l = this.num(r.pick([1, 5, 31, 32, 33, 64])), l2 = this.num(r.pick([0, 1, 32, 64])); this.f('far');
    return r.pick([() => `mcopy(${N}, ${F}, ${l})`, () => `mcopy(${N}, ${F}, ${l})`, () => `mcopy(${F}, ${N}, ${l})`, () => `mstore(${F}, mload(${N}))`, () => `mstore(${N}, mload(${F}))`, () => `acc := add(acc, mload(${F}))`, () => `acc := xor(acc, keccak256(${F}, ${l}))`, () => `acc := xor(acc, call(gas(), caller(), 0, ${N}, ${l}, ${F}, ${l2}))`, () => `acc := xor(acc, staticcall(gas(), caller(), ${F}, ${l}, ${N}, ${l2}))`, () => `acc := xor(acc, delegatecall(gas(), caller(), ${N}, ${l2}, ${F}, ${l}))`, () => `calldatacopy(${F}, 4, ${l})`, () => `log1(${F}, ${l}, mload(${N}))`, () => `mstore8(${F}, mload(${N}))`, () => `codecopy(${F}, 1, ${l})`, () => `extcodecopy(caller(), ${F}, 1, ${l})`])();
  }
  // a whole case body
  history(n) {
    const r = this.r; let s = 'let acc := 1\n'; const fars = r.bool(0.3) ? r.range(1, 2) : 0, at = Array.from({ length: fars }, () => r.int(n)); for (let i = 0; i < n; i++) s += (at.includes(i) ? this.far() + '\n' : '') + this.op() + '\n';
    if (r.bool(0.08)) { // a long range, filled, moved by a distance of any size
        
        const L = r.pick([4096, 8200, 20000, 65536, 66000]), d = Math.min(L - 33, r.pick([1, 31, 32, 33, 255, 1000, 4095, 4096, 4097, 5000, 16384, r.int(L), r.int(L)])), A = this.o.base + r.int(70), D = r.bool() ? [A + d, A] : [A, A + d], n = L - (r.bool(0.3) ? d : 0); this.f('bigcopy');
        s += `for { let i := 0 } lt(i, ${L + d}) { i := add(i, 32) } { mstore(add(${A}, i), mul(not(i), 0x9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c18e95)) }\nmcopy(${this.num(D[0])}, ${this.num(D[1])}, ${this.num(n)})\nacc := xor(acc, keccak256(${A}, ${L + d}))\n`;
    }
    if (r.bool(0.12)) { // one range of more than 64 KB
      this.f('big'); const l = this.num(r.pick([65535, 65536, 65537, 66000, 70001, 131072 + r.int(9)])), o = this.num(this.off(32)), q = this.num(this.off(32)); const near = `mstore(${this.num(this.o.base + 65400 + r.int(200))}, ${this.val()})`; const big = r.pick([`acc := xor(acc, keccak256(${o}, ${l}))`, `mcopy(${o}, ${q}, ${l})`, `calldatacopy(${o}, ${this.num(r.int(60))}, ${l})`, `codecopy(${o}, ${this.num(r.int(60))}, ${l})`, `extcodecopy(caller(), ${o}, 0, ${l})`, `log1(${o}, ${l}, acc)`, `acc := xor(acc, call(gas(), caller(), 0, ${o}, ${l}, ${q}, 32))`, `acc := xor(acc, staticcall(gas(), caller(), ${o}, 32, ${q}, ${l}))`]);
      if (r.bool(0.35)) s += `return(${o}, ${l})\n`.replace('return', r.pick(['return', 'revert'])); else s += r.shuffle([near, big]).join('\n') + '\n' + (r.bool() ? `acc := xor(acc, keccak256(${o}, ${l}))\n` : '');
    }
    if (this.o.huge && r.bool(0.5)) { this.f('huge'); const h = r.pick(['4294967296', '4294967328', '9999999999', '18446744073709551616', 'number()', 'add(number(), 32)', '0x80000000', '0x7fffffff', '0xffffffff', '0xffffffe0', '0x100000000', '0x10000000000000000', 'not(0)', this.cd((1n << BigInt(r.range(31, 255))) + BigInt(r.int(64))), 'not(31)', 'sub(0, 1)', `mload(stash(${r.pick(['not(0)', '0x7fffffff', '0x80000000', '0xffffffff', '0x100000000', '0x10000000000000000', this.cd((1n << BigInt(r.range(31, 255))) + BigInt(r.int(64)))])}))`]); const l = this.num(r.range(1, 40)); s += r.pick([`mstore(${h}, 1)`, `mstore8(${h}, 1)`, `acc := mload(${h})`, `mcopy(${h}, 0, ${l})`, `mcopy(0, ${h}, ${l})`, `calldatacopy(${h}, 0, ${l})`, `codecopy(${h}, 0, ${l})`, `acc := keccak256(${h}, ${l})`, `log0(${h}, ${l})`, `return(${h}, ${l})`, `revert(${h}, ${l})`, `acc := keccak256(0, ${h})`, `return(0, ${h})`, `calldatacopy(0, 0, ${h})`, `mcopy(${h}, ${h}, 0)`, `calldatacopy(${h}, 3, 0)`, `log0(${h}, 0)`, `return(${h}, 0)`, `acc := keccak256(${h}, 0)`, `pop(call(gas(), 1234, 0, ${h}, 0, ${h}, 0))`]) + '\n'; }
    s += `sstore(1, acc)\n`; const l = r.bool(0.7) ? Math.min(this.o.span, 700) : this.len(); const b = r.bool(0.7) ? this.o.base : this.off(l);
    return s + r.wpick([[4, 'return'], [2, 'revert']]) + `(${this.num(b)}, ${this.num(l)})`;
  }
  // memory, hashes and calls with many live variables in frames that lie deep
  deep(id) {
    const r = this.r, n = r.pick([4, 12, 20, 24]), b = r.bool(0.5) ? 16384 - 32 * (n + 1) : this.o.base, slot = `add(${b}, mul(n, 32))`; this.f('deep:' + n); const cell = () => r.pick(['calldataload(n)', 'sload(n)', 'caller()', 'idf(add(n, 7))', 'tload(n)', 'not(x)', `mload(${b})`, 'add(x, n)', 'timestamp()']);
    this.helpers = `function d${id}(n, x) -> r {\nmstore(${slot}, x)\nlet a := ${cell()} let b := keccak256(${b}, add(mul(n, 32), ${r.pick([32, 0, 5])})) let c := ${r.pick(['add(x, a)', 'xor(a, b)', cell()])} let d := ${cell()}\nif n { r := add(mul(d${id}(sub(n, 1), xor(c, b)), 3), mload(${slot})) ${r.pick(['', 'd := xor(d, r)', 'a := add(a, 1)'])} }\nr := add(xor(r, a), add(sub(b, c), d))\n}\n`;
    return `let first := ${this.cd(r.u256())} let acc := d${id}(${n}, first)\nsstore(1, acc) sstore(2, first) sstore(3, keccak256(${b}, ${32 * n + 32}))\nreturn(${b}, ${32 * n + 32})`;
  }
  // growth interleaved with the runtime's own 32-byte cells
  growth() {
    const r = this.r; const N = r.pick([3, 40, 290, 310, 700, 2100]); const step = r.pick([1, 32, 97, 640, 1000]); const b = this.o.base; const cells = r.pick(['calldataload(add(36, and(i, 31)))', 'sload(i)', 'keccak256(0x200, 33)', 'caller()', 'idf(add(i, 7))', 'h2(i)', 'tload(i)', 'blockhash(i)', 'extcodehash(i)', 'mload(add(0x200, and(i, 63)))', 'not(calldataload(36))', 'add(calldataload(36), i)']);
    this.f('growth:' + N); this.f('cell:' + cells.replace(/\(.*/, ''));
    const big = r.bool(0.4) ? `if eq(i, ${r.int(N)}) { mstore(${b + r.pick([70000, 131072, 200000, 16384, 16352, 16353, 65536, 65505])}, 0xabcdef) }\n` : ''; const ms = this.o.msize && r.bool(0.5) ? 'acc := add(mul(acc, 5), msize())\n' : '';
    return `let acc := 1 let first := ${r.pick(['caller()', 'calldataload(36)', 'sload(5)', 'add(calldataload(36), 3)'])} calldatacopy(0x200, 0, 100)\nfor { let i := 0 } lt(i, ${N}) { i := add(i, 1) } {\nlet a := ${cells}\n${big}mstore(add(${b}, mul(i, ${step})), xor(a, i))\nlet b := ${r.pick(['idf(a)', 'add(a, 1)', 'xor(idf(a), idf(add(i, 77)))', 'sub(idf(mul(a, 3)), add(idf(a), idf(i)))', 'mload(add(' + b + ', mul(i, ' + step + ')))', cells])}\nacc := add(mul(acc, 31), xor(b, mload(add(${b}, mul(${r.pick(['i', 'div(i, 2)', '0'])}, ${step})))))\n${ms}}\n` +
      `sstore(1, acc) sstore(2, first) sstore(3, keccak256(${b}, ${Math.min(N * step + 40, 250000)}))\n${this.o.msize ? 'sstore(4, msize())\n' : ''}return(${b + (N - 1) * step}, 64)`;
  }
}
module.exports = { Mem };
