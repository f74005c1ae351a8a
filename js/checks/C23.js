'use strict';
const { Rng, h64 } = require('../lib/util.js'); const B = require('../lib/batch.js'); const { Vals } = require('../gen/vals.js'); const { SINKS } = require('../gen/ops.js'); const C = require('./cases_common.js'); const { DBG } = require('../lib/compile.js');
const T = (s) => Buffer.from(s).toString('hex'); const HEAD = T('debugging_i256\nas u32:'), HEX = T('as hex:');
const EDGE = [0n, 1n, 9n, 10n, 99n, 100n, 0x7fffffffn, 0x80000000n, 0x80000001n, 0xffffffffn, 0x100000000n, 999999999n, 1000000000n, 1000000001n, 2147483639n, 2147483640n, 0x180000000n, 1n << 63n, (1n << 63n) - 1n, (1n << 64n) - 1n, 1n << 64n, 1n << 127n, 1n << 128n, 1n << 160n, 1n << 255n, (1n << 255n) - 1n, (1n << 256n) - 1n, (1n << 256n) - 10n, (1n << 256n) - 0x80000000n, (1n << 256n) - 0x80000001n];
// what was printed, against the values the source prints: either the 32 bytes alone or the low 32 bits as a signed decimal and the 32 bytes
function printed(got, want) {
  let i = 0; for (let k = 0; k < want.length; k++) {
    if (got[i] === HEAD) { const dec = T(BigInt.asIntN(32, BigInt('0x' + want[k])).toString()); if (got[i + 1] !== dec) return `number ${k}: printed ${Buffer.from(got[i + 1] || '', 'hex')} for 0x${want[k]}`; if (got[i + 2] !== HEX || got[i + 3] !== want[k]) return `number ${k}: printed 0x${got[i + 3]} for 0x${want[k]}`; i += 4; }
    else { if (got[i] !== want[k]) return `word ${k}: printed 0x${got[i]} for 0x${want[k]}`; i++; }
  }
  return i === got.length ? null : `${got.length - i} more outputs than prints`;
}
function body(rng, v) {
  let s = 'let acc := 3\n'; const n = rng.range(1, 8); const val = () => (rng.bool(0.5) ? rng.pick(EDGE) : rng.bool(0.3) ? rng.u256() >> BigInt(224) : rng.u256());
  for (let i = 0; i < n; i++) s += v.stmt(() => { const e = () => v.expr(val()); switch (rng.int(12)) {
    case 0: case 1: case 2: return `debug_print(${e()})`; case 3: return `let p${i} := ${e()} debug_print(p${i}) acc := add(acc, p${i}) debug_print(p${i})`; case 4: return `debug_print(${rng.pick(['caller()', 'callvalue()', 'address()', 'gasprice()', 'calldatasize()', 'timestamp()', 'sload(1)', 'tload(2)', 'mload(64)', 'mload(0x1c0)', 'keccak256(0, 32)', 'iszero(acc)', 'lt(acc, 5)', 'msize()', 'returndatasize()', 'not(acc)', 'true', 'false', '"abc"', 'shr(224, calldataload(0))', 'gas()'])})`;
    case 5: return `for { let i := 0 } lt(i, ${rng.range(1, 4)}) { i := add(i, 1) } { debug_print(add(i, ${e()})) }`; case 6: return `debug_print(prt(${e()}))`; case 7: return `sstore(${i}, ${e()}) debug_print(sload(${i}))`; case 8: return `mstore(${96 + 32 * i}, ${e()}) debug_print(mload(${96 + 32 * i}))`; case 9: return `if ${e()} { debug_print(acc) acc := mul(acc, 7) }`; case 10: return `acc := add(mul(acc, 31), ${rng.pick(['div', 'sdiv', 'mod', 'exp', 'sar', 'byte', 'signextend', 'and'])}(${e()}, ${e()})) debug_print(acc)`; default: return `{ let s := call(1, ${e()}, 0, 0, 32, 64, 32) debug_print(s) debug_print(mload(64)) }`;
  } });
  return s + v.stmt(() => (rng.bool(0.7) ? 'mstore(0, acc) return(0, 512)' : SINKS[rng.pick(Object.keys(SINKS))]('acc')));
}
module.exports = {
  build: ['build_dbg.sh', 'build_native.sh'], native: ['dbg'], quickSeconds: 42, thoroughSeconds: 900, minJobs: 20, minEvals: 400, jobs: C.jobs, level: 'exploration', stallSeconds: 90,
  rule: 'one evaluation = one run of a contract that prints, compiled with the printing or with the silent runtime: every debug_bytes call compared with the value printed at that point and everything else with the model; distinct = program x input x runtime', assumptions: ['the reference interpreter implements Yul/EVM semantics'],
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C23/${ctx.seed}/${job.n}`); const flags = C.flagsFor(job.n, rng).filter((f) => f !== '--debug'); const cases = [];
    for (let i = 0; i < 24; i++) { const v = new Vals(rng); cases.push({ id: i, sig: 'print', body: body(rng, v), words: v.words }); }
    const helpers = 'function prt(a) -> r { debug_print(a) r := sub(a, 1) debug_print(r) if gt(a, 5) { debug_print(7) leave } }', deploy = job.n % 4 === 3;
    for (const [bin, fl, loud] of [[DBG, flags, true], [undefined, rng.bool() ? ['--debug', ...flags] : flags, false]]) {
      const r0 = new Rng(`C23/${ctx.seed}/${job.n}/in`);
      C.runCases(R, ctx, cases, { bin, flags: fl, deploy, helpers, inputs: 3, specFor: (c, t) => ({ seed: t, calldata: C.calldata(r0, c.id, c.words), storage: { 1: r0.pick(EDGE) }, env: { callvalue: r0.pick(EDGE), gasprice: r0.u256(), timestamp: r0.pick(EDGE) & 0x7fffffffffffffffn } }),
        post: (d) => { const want = d.m.it.debug.map(h64), got = d.r.host.debug; B.bump(R, loud ? 'printed' : 'silent', want.length); for (const g of got) if (g === HEAD) B.bump(R, 'printed_as_number'); return loud ? printed(got, want) : got.length ? `${got.length} debug outputs from the release runtime` : null; } });
    }
    return R;
  },
};
