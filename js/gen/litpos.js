'use strict';
// Every syntactic position a literal can take. L: how the literal is written (placeholder in the body), v: its value.
const POS = {
  mstore: () => 'mstore(0, @)', let: () => 'let a := @ mstore(0, a)', assign: () => 'let a a := @ mstore(0, a)', reassign: () => 'let a := calldataload(36) if calldataload(68) { a := @ } mstore(0, a)', arg: () => 'mstore(0, idf(@))',
  ret: (id) => ({ body: `mstore(0, h${id}())`, helpers: `function h${id}() -> r { r := @ }` }), tuple: (id) => ({ body: `let p, q := h${id}() mstore(0, p) mstore(32, q) return(0, 64)`, helpers: `function h${id}() -> p, q { p := @ q := add(@, 1) }` }),
  arg2: (id) => ({ body: `mstore(0, h${id}(calldataload(36), @))`, helpers: `function h${id}(x, y) -> r { r := xor(x, y) }` }), recv: (id) => ({ body: `mstore(0, h${id}(@, 3))`, helpers: `function h${id}(x, n) -> r { if n { r := add(h${id}(x, sub(n, 1)), x) } }` }),
  sstoreval: () => 'sstore(7, @) mstore(0, sload(7))', sstorekey: () => 'sstore(@, 9) mstore(0, sload(@))', tstore: () => 'tstore(@, @) mstore(0, tload(@))', topic: () => 'log2(0, 0, @, @)', logtopic4: () => 'log4(0, 0, @, 1, @, 2)',
  casev: () => 'switch calldataload(36) case @ { mstore(0, 1) } default { mstore(0, 2) }', cased: () => 'switch calldataload(36) case @ { mstore(0, 1) } case @+ { mstore(0, 3) }', condsw: () => 'switch @ case 0 { mstore(0, 7) } case 1 { mstore(0, 8) } default { mstore(0, 9) }', iff: () => 'if @ { mstore(0, 3) }',
  forcond: () => 'let i for { } @ { i := add(i, 1) } { if gt(i, 2) { break } } mstore(0, i)', iszero: () => 'mstore(0, iszero(@))', not: () => 'mstore(0, not(@))', add: () => 'mstore(0, add(@, calldataload(36)))', add2: () => 'mstore(0, add(@, @))', sub: () => 'mstore(0, sub(calldataload(36), @))', sub2: () => 'mstore(0, sub(@, calldataload(36)))', mul: () => 'mstore(0, mul(@, @))',
  and: () => 'mstore(0, and(@, calldataload(36)))', or: () => 'mstore(0, or(calldataload(36), @))', xor: () => 'mstore(0, xor(@, calldataload(36)))', eq: () => 'mstore(0, eq(@, calldataload(36)))', lt: () => 'mstore(0, lt(@, calldataload(36)))', gt: () => 'mstore(0, gt(calldataload(36), @))', slt: () => 'mstore(0, slt(@, calldataload(36)))', sgt: () => 'mstore(0, sgt(calldataload(36), @))',
  div: () => 'mstore(0, div(calldataload(36), @))', mod: () => 'mstore(0, mod(calldataload(36), @))', sdiv: () => 'mstore(0, sdiv(calldataload(36), @))', addmod: () => 'mstore(0, addmod(@, calldataload(36), @))', shl: () => 'mstore(0, shl(calldataload(68), @))', shr: () => 'mstore(0, shr(3, @))', byte: () => 'mstore(0, byte(calldataload(68), @))', signextend: () => 'mstore(0, signextend(calldataload(68), @))', exp: () => 'mstore(0, exp(@, 3))', shamt: () => 'mstore(0, shl(@, calldataload(36)))', mstore8: () => 'mstore8(31, @)', mixed: () => 'mstore(0, add(mul(@, 2), timestamp()))', selector: () => 'mstore(0, eq(shr(224, calldataload(0)), @))',
  callvalue: () => 'pop(call(gas(), address(), @, 0, 0, 0, 0))', calladdr: () => 'pop(staticcall(1000, @, 0, 0, 0, 0))', callgas: () => 'pop(delegatecall(@g, address(), 0, 0, 0, 0))', callgas2: () => 'mstore(0, call(@g, address(), 0, 0, 0, 0, 0))', callgas3: () => 'if staticcall(@g, caller(), 0, 0, 0, 0) { mstore(0, 3) }', salt: () => 'mstore(0, 0) pop(create2(@, 0, 4, @))', selfdestruct: () => 'selfdestruct(@)', keccak: () => 'mstore(0, @) mstore(0, keccak256(0, 32))', retdata: () => 'mstore(160, @) return(160, 32)', revdata: () => 'mstore(0, @) revert(0, 32)', inner: () => 'let a := add(1, idf(@)) { let b := @ a := xor(a, b) } mstore(0, a)', shadow: () => '{ let a := @ mstore(0, a) } { let a := calldataload(36) mstore(0, add(a, mload(0))) }', calldata: () => 'mstore(0, calldataload(@))', calldatacopy: () => 'mstore(0, not(0)) calldatacopy(1, @, 7)', codecopy: () => 'mstore(0, not(0)) codecopy(1, @p, 7)', extcodecopy: () => 'mstore(0, not(0)) extcodecopy(caller(), 1, @, 7)', codesz: () => 'mstore(0, extcodesize(@))', codehash: () => 'mstore(0, extcodehash(@))', copydst: () => 'calldatacopy(@, 0, 4) mstore(0, 5)', copylen: () => 'calldatacopy(0, 0, @) mstore(0, keccak256(0, 64))', mcopysrc: () => 'mstore(0, 0x1234) mcopy(32, @, 5) return(0, 64)', mcopydst: () => 'mstore(0, 0x1234) mcopy(@, 0, 5) return(0, 64)', mcopylen: () => 'mstore(0, 0x1234) mcopy(32, 3, @) return(0, 64)', mload: () => 'mstore(0, 0x1234) mstore(0, mload(@))', mstoreoff: () => 'mstore(@, 0x1234) return(0, 512)', mstore8off: () => 'mstore8(@, 0x1234) return(0, 512)', logoff: () => 'mstore(0, 0x1234) log0(@, 3)', loglen: () => 'mstore(0, 0x1234) log0(0, @)', hashoff: () => 'mstore(0, 0x1234) mstore(0, keccak256(@, 3))', hashlen: () => 'mstore(0, keccak256(0, @))', retoff: () => 'mstore(0, 0x1234) return(@, 3)', retlen: () => 'mstore(0, 0x1234) return(0, @)', revoff: () => 'mstore(0, 0x1234) revert(@, 3)', byteidx: () => 'mstore(0, byte(@, calldataload(36)))', sgnidx: () => 'mstore(0, signextend(@, calldataload(36)))', shramt: () => 'mstore(0, shr(@, calldataload(36)))', saramt: () => 'mstore(0, sar(@, calldataload(36)))', expexp: () => 'mstore(0, exp(3, @))', expbase: () => 'mstore(0, exp(@, calldataload(68)))', mulmod: () => 'mstore(0, mulmod(calldataload(36), @, calldataload(68)))', smod: () => 'mstore(0, smod(@, calldataload(36)))', sar: () => 'mstore(0, sar(calldataload(68), @))', calldatain: () => 'pop(call(gas(), caller(), 0, @, 4, 0, 0))', calloutlen: () => 'pop(call(gas(), caller(), 0, 0, 4, 0, @)) mstore(0, 3)', createval: () => 'mstore(0, 0) pop(create(@, 0, 4))', balance: () => 'mstore(0, balance(@))', blockhash: () => 'mstore(0, blockhash(@))', typed: () => 'let a := @:u256 mstore(0, a)', typedlet: () => 'let a:u256 := @ mstore(0, a)',
};
// case from a position, the literal's text and its value (bigint)
function litCase(id, pos, text, v, other) {
  const t = POS[pos](id), o = typeof t === 'string' ? { body: t, helpers: '' } : t; const hexv = '0x' + v.toString(16), g = v;
  const fill = (s, l) => s.replace(/@[+pg]?/g, (m) => (m === '@+' ? '0x' + other.toString(16) : m === '@p' ? (v < (1n << 31n) || v >= 1n << 32n ? l : '5') : m === '@g' ? (g === v ? l : '77') : l));
  return { id, pos, v, sig: pos, body: fill(o.body, text), model: fill(o.body, hexv).replace(/:u256/g, ''), helpers: fill(o.helpers || '', text), modelHelpers: fill(o.helpers || '', hexv), key: pos + '|' + text };
}
module.exports = { POS, litCase };
