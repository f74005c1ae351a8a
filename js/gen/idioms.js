'use strict';
// Expressions at and around the ones the compiler treats specially. Every case is exact Yul; values are clean only where the idiom is met exactly (see the known findings of C19).
const A160 = (1n << 160n) - 1n, M256 = (1n << 256n) - 1n;
const FN = ['abi_decode_address', 'abi_decode_t_address_fromMemory', 'validate', 'fun_transfer', 'cleanup_t_address', 'checked_add', 'my_abi_decode_address_2', 'fun_transferFrom_12', 'f'];
class Idioms {
  constructor(rng) { this.r = rng; this.feat = {}; }
  f(k) { this.feat[k] = (this.feat[k] || 0) + 1; }
  n(v) { return this.r.bool(0.7) ? String(v) : '0x' + BigInt(v).toString(16); }
  word(clean) { const r = this.r; const v = r.u256(); return clean ? v & A160 : v; }
  // sub(shl(160, 1), 1) or something like it; [text, isExact]
  mask() {
    const r = this.r; const k = r.int(11); switch (k) {
      case 0: case 1: case 2: return [`sub(shl(160, 1), 1)`, true]; case 3: return [`sub(shl(160, 1), ${r.pick([0, 2, 3, 4, 8, 16, 255, '0xff00', 'not(0)', 'calldataload(68)', '0x10001'])})`, false]; case 4: return [`sub(shl(${r.pick([159, 161, 128, 96, 255, 64, 32, 8, 1, 256, 0, 152, 168])}, 1), 1)`, false];
      case 5: return [`sub(shl(160, ${r.pick([2, 3, 0, 5, 255])}), 1)`, false]; case 6: return ['sub(1, shl(160, 1))', false]; case 7: return [r.pick(['add(shl(160, 1), 1)', 'xor(shl(160, 1), 1)', 'sub(shr(160, 1), 1)', 'sub(shl(1, 160), 1)', 'sub(exp(160, 1), 1)', 'sub(sar(160, 1), 1)', 'div(shl(160, 1), 1)', 'not(sub(shl(160, 1), 1))', 'shl(160, 1)', 'sub(shl(160, calldataload(68)), 1)', 'sub(shl(calldataload(68), 1), 1)']), false];
      case 8: return ['0x' + (r.bool(0.5) ? A160 : A160 ^ (1n << BigInt(r.int(160)))).toString(16), false]; case 9: return [`sub(shl(0xa0, 0x1), 0x01)`, true]; default: return [(r.bool(0.5) ? A160 : (1n << BigInt(r.int(256))) - 1n).toString(), false];
    }
  }
  // {body, helpers, words}
  one(id) {
    const r = this.r; const k = r.wpick([[4, 'mask'], [4, 'validate'], [2, 'selector'], [2, 'size'], [3, 'shl'], [2, 'guard'], [3, 'iszero'], [3, 'const'], [2, 'free']]); this.f('idiom:' + k); const fn = r.pick(FN) + (r.bool(0.4) ? '_' + id : '_x' + id); let w = [this.word(false), this.word(false), r.bool() ? BigInt(r.int(40)) : r.u256()], body, helpers = '';
    switch (k) {
      case 'mask': { const [m, exact] = this.mask(); const op = r.wpick([[6, 'and'], [1, 'or'], [1, 'xor'], [1, 'add'], [1, 'eq']]); const swap = r.bool(0.3); const a = r.pick(['a', 'a', 'a', 'calldataload(36)', 'idf(a)', 'add(a, 0)', 'caller()', 'c']); if (exact) w[0] &= A160; const e = swap ? `${op}(${m}, ${a})` : `${op}(${a}, ${m})`;
        const use = r.pick([`mstore(0, ${e})`, `sstore(${e}, 1) mstore(0, ${e})`, `let b := ${e} a := 3 mstore(0, b)`, `a := ${e} mstore(0, add(a, 1))`, `mstore(0, ${op === 'and' ? 'eq' : 'xor'}(a, ${e}))`, `mstore(0, shl(96, ${e}))`, `if ${e} { mstore(0, 5) }`, `mstore(0, ${fn}(a))`, `log1(0, 0, ${e})`, `mstore(0, balance(${e}))`, `mstore(0, ${e}) mstore(32, a) return(0, 64)`]); body = `let a := calldataload(36) let c := caller() ${use}`; helpers = `function ${fn}(a) -> r { let c := caller() r := ${e} }`; break; }
      case 'validate': { const [m, exact] = this.mask(); if (exact) w[0] &= A160; else if (r.bool()) w[0] &= A160; const c = r.wpick([[5, `iszero(eq(value, and(value, ${m})))`], [1, `iszero(eq(and(value, ${m}), value))`], [2, `iszero(eq(value, and(other, ${m})))`], [1, `eq(value, and(value, ${m}))`], [1, `iszero(lt(value, and(value, ${m})))`], [1, `iszero(eq(value, or(value, ${m})))`], [1, `gt(value, ${m})`], [1, `iszero(iszero(eq(value, and(value, ${m}))))`], [1, `xor(value, and(value, ${m}))`]]);
        if (/other/.test(c)) w[1] = r.bool() ? w[0] : w[1] & A160; const name = r.pick(FN.filter((x) => !/fun_transfer/.test(x))) + '_' + id; body = `mstore(0, ${name}(36))`; helpers = `function ${name}(offset) -> value { value := calldataload(offset) let other := calldataload(68) if ${c} { mstore(0, 9) revert(0, 32) } ${r.pick(['', 'value := add(value, other)', `sstore(1, and(value, ${m}))`])} }`; if (/other, sub\(shl\((160|0xa0), (1|0x1)\), (1|0x01)\)/.test(helpers)) w[1] &= A160; break; }
      case 'selector': body = `mstore(0, ${r.pick(['shr(224, calldataload(0))', `shr(${r.pick([223, 225, 216, 232, 192, 0, 240, '0xe0', 256])}, calldataload(0))`, `shr(224, calldataload(${r.pick([1, 4, 2, 32, 36, '0x0', '0x00', '00', 'a'])}))`, 'shr(224, mload(0))', 'sar(224, calldataload(0))', 'shl(224, calldataload(0))', 'shr(calldataload(0), 224)', 'div(calldataload(0), exp(2, 224))', 'and(shr(224, calldataload(0)), 0xff)', 'eq(shr(224, calldataload(0)), shr(224, calldataload(36)))'])})`.replace('(a)', '(calldatasize())'); break;
      case 'size': { const e = r.pick(['add(calldatasize(), not(3))', `add(calldatasize(), not(${r.pick([0, 1, 2, 4, 5, 31, 35, 36, '0x3', '0x03', '03'])}))`, 'sub(calldatasize(), 4)', 'add(not(3), calldatasize())', 'add(codesize(), not(3))', 'add(returndatasize(), not(3))', 'add(calldatasize(), not(calldataload(100)))', 'sub(calldatasize(), not(3))', 'add(calldatasize(), 3)', 'add(calldataload(100), not(3))']); body = r.pick([`mstore(0, ${e})`, `mstore(0, slt(${e}, ${this.n(r.pick([0, 32, 64, 96, 97, 128]))}))`, `mstore(0, lt(${e}, ${this.n(32)}))`, `let n := ${e} mstore(0, n)`, `mstore(0, shr(5, ${e}))`, `mstore(0, sgt(${e}, 95))`, `if slt(${e}, 96) { revert(0, 0) } mstore(0, 5)`]); if (r.bool(0.3)) w = w.slice(0, r.int(3)); break; }
      case 'shl': { const s = r.pick([0, 1, 5, 8, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 127, 128, 160, 191, 192, 223, 224, 225, 226, 229, 248, 254, 255, 256, 257, 300, 65536, 2147483646, 2147483647, 2147483648, '0xffffffff', '0x100000000', '0x10000000000000001', 'not(0)']); const v = r.pick([0, 1, 2, 3, 7, 255, 256, 0x4e487b71, 4594637, 2147483646, 2147483647, 2147483648, 4294967295, '0x100000000', '0xffffffffffffffff', 'true', 'false', 'not(0)', '"a"', r.u32()]); const e = `${r.pick(['shl', 'shl', 'shl', 'shr', 'sar'])}(${s}, ${v})`; body = r.pick([`mstore(0, ${e})`, `let a := ${e} mstore(0, a)`, `let a := ${e} a := add(a, a) mstore(0, a)`, `mstore(0, add(${e}, calldataload(36)))`, `mstore(0, idf(${e}))`, `sstore(${e}, ${e}) mstore(0, sload(${e}))`, `mstore(0, not(${e}))`, `mstore(0, iszero(${e}))`, `mstore(0, lt(${e}, calldataload(36)))`, `mstore(0, slt(${e}, 0))`, `switch ${e} case 0 { mstore(0, 1) } case 1 { mstore(0, 2) } default { mstore(0, 3) }`, `mstore(0, sub(${e}, 1))`, `mstore(0, mul(${e}, ${e}))`]); break; }
      case 'guard': { const g = this.n(r.pick([128, 96, 160, 256, 1000])); body = r.pick([`mstore(64, memoryguard(${g})) mstore(0, mload(64))`, `mstore(0, memoryguard(${g}))`, `let p := memoryguard(${g}) mstore(p, 5) mstore(0, add(mload(p), p))`, `mstore(64, add(memoryguard(${g}), ${this.n(r.int(100))})) let p := mload(64) mstore(p, 7) mstore(64, add(p, 32)) let q := mload(64) mstore(q, 9) return(p, 64)`, `if callvalue() { revert(0, 0) } mstore(0, 6)`]); break; }
      case 'iszero': { const e = r.pick(['iszero(x)', 'iszero(iszero(x))', 'iszero(and(x, sub(shl(160, 1), 2)))', 'iszero(shl(96, x))', 'iszero(gt(x, y))', 'iszero(calldataload(36))', 'iszero(sload(7))', 'iszero(sub(x, y))', 'iszero(eq(x, y))', 'iszero(mload(0))', 'iszero(timestamp())', 'iszero(caller())', 'iszero(7)', 'iszero(0)', 'iszero(true)', 'iszero(0x10000000000000000)', 'iszero(idf(x))', 'iszero(calldatasize())', 'iszero(shr(224, x))', 'iszero(x) r := add(r, iszero(y))']); body = `mstore(0, ${fn}(calldataload(36), calldataload(68)))`; helpers = `function ${fn}(x, y) -> r { r := ${e} ${r.pick(['', 'if iszero(y) { r := add(r, 2) }', 'if iszero(and(x, y)) { revert(0, 0) }', 'r := add(r, mul(2, lt(x, y)))'])} }`; if (r.bool(0.6)) w[0] = r.pick([0n, 1n, 1n << 160n, w[1], 1n << BigInt(r.int(256))]); break; }
      case 'const': { const v = r.bool(0.7) ? r.u256() : BigInt(r.u32()); const lit = r.bool() ? v.toString() : '0x' + v.toString(16); const o = this.n(r.pick([0, 1, 4, 31, 32, 96, 100, 128])); body = r.pick([`mstore(${o}, ${lit}) return(${o}, 64)`, `mstore(128, not(0)) mstore(${o}, shl(${r.pick([224, 225, 226, 229, 96, 8])}, ${r.u32() >>> r.int(31)})) mstore(add(${o}, 4), ${lit}) return(0, 192)`, `mstore(${o}, not(${lit})) return(${o}, 32)`, `mstore(${o}, "${'abcdefghijklmnopqrstuvwxyz012345'.slice(0, r.range(1, 32))}") return(${o}, 32)`, `mstore(${o}, sub(0, ${lit})) return(${o}, 40)`, `let k := ${lit} mstore(${o}, k) return(${o}, 32)`, `sstore(${lit}, ${lit}) mstore(0, sload(${lit}))`]); break; }
      case 'free': { const o = r.pick(['0x60', '96', '32', '0x20', '128', '0x80', '0']); body = r.pick([`mstore(${o}, calldataload(36)) mstore(${o}, add(mload(${o}), 1)) return(${o}, 32)`, `mstore(64, 128) let p := mload(64) mstore(p, calldataload(36)) mstore(64, add(p, 32)) mstore(mload(64), calldataload(68)) return(p, 64)`, `mstore(0x40, 0x80) let p := mload(0x40) for { let i := 0 } lt(i, 4) { i := add(i, 1) } { mstore(mload(64), add(i, p)) mstore(64, add(mload(64), 32)) } return(p, sub(mload(64), p))`, `mstore(64, 200) function_${id}() let q := mload(0x40) mstore(0, q) return(0, 32)`.replace(/function_\d+\(\)/, `${fn}()`), `mstore(64, 0x80) mstore(64, add(mload(64), and(calldataload(36), 0xffe0))) mstore(0, mload(64))`, `mstore(64, 4294967295) mstore(0, mload(64)) mstore(32, lt(mload(64), 5)) mstore(96, gt(mload(64), 0x7fffffff)) return(0, 128)`.replace('return(0, 128)', 'mstore(64, 7) return(0, 64)'), `mstore(64, 2147483648) let p := mload(64) mstore(0, add(p, p)) mstore(32, slt(p, 1)) return(0, 64)`]); if (/\b\w+\(\) let q/.test(body)) helpers = `function ${fn}() { mstore(64, add(mload(64), 64)) }`; break; }
    }
    return { id, sig: 'idiom:' + k, body, helpers, words: w };
  }
}
module.exports = { Idioms };
