'use strict';
const { Rng } = require('../lib/util.js'); const B = require('../lib/batch.js'); const { Vals } = require('../gen/vals.js'); const { SINKS } = require('../gen/ops.js'); const C = require('./cases_common.js');
const NUL = ['address', 'caller', 'origin', 'coinbase', 'callvalue', 'gasprice', 'selfbalance', 'chainid', 'basefee', 'blobbasefee', 'prevrandao', 'difficulty', 'codesize', 'timestamp', 'number', 'gaslimit', 'gas'], ONE = ['balance', 'extcodehash', 'extcodesize', 'blockhash'];
const { runPinned } = require('../lib/pinned.js'); const { h64 } = require('../lib/util.js');
const RANDAO = 0x0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20n;
const PINNED = [{ sig: 'prevrandao keeps the first 20 of the 32 bytes', src: 'object "P" { code { } object "P_deployed" { code { mstore(0, prevrandao()) return(0, 32) } } }', spec: { env: { prevrandao: RANDAO } }, right: 'return ' + h64(RANDAO), wrong: 'return ' + h64(RANDAO >> 96n) }];
const A160 = (1n << 160n) - 1n;
module.exports = {
  build: ['build_e2e.sh', 'build_native.sh'], native: ['env'], quickSeconds: 42, thoroughSeconds: 1200, minJobs: 24, minEvals: 800, jobs: C.jobs, level: 'exploration', stallSeconds: 60,
  rule: 'one evaluation = one or several environment reads of a compiled contract with random host replies, the results and all surrounding memory compared with the model; distinct = reads x replies', assumptions: ['the reference interpreter implements Yul/EVM semantics'],
  runJob(job, ctx) {
    const R = B.newResult(); if (job.n === 0) runPinned(R, ctx, PINNED); const rng = new Rng(`C08/${ctx.seed}/${job.n}`); const flags = C.flagsFor(job.n, rng), deploy = job.n % 4 === 3; const cases = [];
    for (let i = 0; i < 36; i++) {
      const v = new Vals(rng), num = []; // block numbers relative to the current one are fixed by the input
      const read = () => { const n = rng.pick([...NUL, ...ONE, ...ONE]); B.bump(R, 'read:' + n); if (NUL.includes(n)) return n + '()'; if (n === 'blockhash') { const k = rng.int(6); return k === 0 ? `blockhash(${v.expr(rng.u256())})` : k === 1 ? 'blockhash(number())' : `blockhash(sub(number(), ${rng.pick(['1', '2', '255', '256', '257', v.expr(BigInt(rng.int(300)))])}))`; } return `${n}(${rng.pick([() => v.expr(rng.u256()), () => v.expr(rng.u256() & A160), () => 'caller()', () => 'address()', () => 'origin()', () => 'not(caller())', () => 'coinbase()'])()})`; };
      let body; if (rng.bool(0.25)) { const e = rng.pick(NUL) + '()'; B.bump(R, 'condition'); body = rng.pick([`mstore(0, 5) if ${e} { mstore(0, 6) }`, `mstore(0, iszero(${e}))`, `mstore(0, 5) if iszero(${e}) { mstore(0, 6) }`, `mstore(0, iszero(iszero(${e})))`, `switch ${e} case 0 { mstore(0, 5) } default { mstore(0, 6) }`, `switch ${e} case 1 { mstore(0, 7) } case 0x10000000000000000 { mstore(0, 8) } default { mstore(0, 9) }`, `let a := ${e} mstore(0, 5) if a { mstore(0, 6) }`, `for { let i := ${e} } i { i := 0 } { mstore(0, 6) }`, `mstore(0, eq(${e}, 0))`, `mstore(0, gt(${e}, 0))`, `mstore(0, lt(${e}, 1))`, `mstore(0, and(${e}, 1))`, `if idf(${e}) { mstore(0, 6) }`]); } else if (rng.bool(0.5)) { const s = rng.pick(Object.keys(SINKS)); body = v.stmt(() => SINKS[s](read())); } else { // several in a row, with the memory around them filled
        let n = rng.range(2, 8); body = 'for { let i := 0 } lt(i, 480) { i := add(i, 32) } { mstore(add(96, i), not(i)) }\nlet acc := 1\n'; for (let j = 0; j < n; j++) body += v.stmt(() => rng.pick([(e) => `let a${j} := ${e} mstore(${128 + 32 * j}, a${j})`, (e) => `mstore(${128 + 32 * j}, ${e})`, (e) => `acc := add(mul(acc, 31), ${e})`, (e) => `let a${j} := ${e} let b${j} := ${read()} acc := xor(acc, add(a${j}, shl(1, b${j})))`, (e) => `if gt(${e}, ${v.expr(rng.u256())}) { acc := add(acc, ${j}) }`, (e) => `sstore(${j}, ${e})`])(read()));
        body += 'mstore(96, acc) return(96, 512)';
      }
      cases.push({ id: i, sig: /([a-z]+)\(/.exec(body)[1] === 'for' ? 'several' : 'single', words: v.words, body });
    }
    const u64 = () => BigInt.asUintN(64, rng.u256() >> BigInt(rng.int(64)));
    C.runCases(R, ctx, cases, { flags, deploy, inputs: 5, specFor: (c, t) => ({ seed: `${job.n}.${c.id}.${t}`, calldata: C.calldata(rng, c.id, c.words, rng.bytes(rng.int(40))), code: rng.bytes(rng.pick([0, 1, 300, 5000, rng.bool(0.2) ? 70000 : 40])), balances: undefined,
      env: Object.fromEntries([...['address', 'caller', 'origin', 'coinbase'].map((k) => [k, rng.u256() & A160]), ...['callvalue', 'gasprice', 'chainid', 'basefee', 'blobbasefee', 'prevrandao'].map((k) => [k, rng.u256()]), ...['timestamp', 'number', 'gaslimit', 'gas'].map((k) => [k, u64()])].filter(() => rng.bool(0.8))) }) });
    return R;
  },
};
