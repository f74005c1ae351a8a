'use strict';
const { Rng, fromBytes } = require('../lib/util.js'); const B = require('../lib/batch.js'); const C = require('./cases_common.js');
// offsets and sizes come from the last words of the calldata? no: the input itself is what is read, so numbers are literals, storage or memory
function body(rng, all) {
  const big = rng.bool(0.12); // reads far into long data
  const base = 128; const st = {}; let ns = 0; let out = 'let acc := 1\n';
  const num = (v) => { switch (rng.int(7)) { case 0: case 1: return v.toString(); case 2: return '0x' + v.toString(16); case 3: st[ns] = v; return `sload(${ns++})`; case 4: return `idf(${v})`; case 5: return `mload(stash(${v}))`; default: return `add(${v}, 0x00)`; } };
  const off = (n) => { if (big && rng.bool(0.4)) return num(BigInt(rng.pick([65534, 65535, 65536, 65537, rng.int(70000), rng.int(140000)]))); const k = rng.int(10); return k < 6 ? num(BigInt(rng.int(n))) : k < 8 ? num(BigInt(rng.pick([0, 1, 4, 31, 32, 35, 36, 68, 99, 100, 101, 132]))) : k === 8 ? num(rng.pick([0xffffffffn, 0x7fffffffn, 0x80000000n, 0xf0000000n, 0x100000000n, 1n << 64n, (1n << 256n) - 1n, (1n << 256n) - 32n, 1n << 255n, 0xfffffffffffffffe0n])) : rng.pick(['calldatasize()', 'sub(calldatasize(), 1)', 'add(calldatasize(), not(3))', 'sub(calldatasize(), 33)', 'returndatasize()', 'add(4, calldatasize())']); };
  const mo = () => num(BigInt(base + rng.int(500))), len = () => num(BigInt(rng.pick([0, 1, 4, 31, 32, 33, 36, 64, 99, 100, 101, 200, rng.int(300), ...(rng.bool(0.15) ? [65535, 65536, 65537, 66000, 131080] : [])])));
  const n = rng.pick([1, 2, 4, 8, 16]);
  for (let i = 0; i < n; i++) {
    switch (rng.int(13)) {
      case 0: case 1: case 2: out += `acc := add(mul(acc, 31), calldataload(${off(200)}))\n`; break;
      case 3: case 4: out += `calldatacopy(${mo()}, ${off(200)}, ${len()})\n`; break;
      case 5: out += `acc := add(mul(acc, 31), shr(224, calldataload(${rng.pick(['0', '0x00', off(60)])})))\n`; break;
      case 6: out += `acc := add(mul(acc, 31), ${rng.pick(['calldatasize()', 'add(calldatasize(), not(3))', 'lt(calldatasize(), 4)', 'slt(add(calldatasize(), not(3)), 32)', 'slt(sub(calldatasize(), 4), 64)', 'iszero(calldatasize())', 'gt(calldatasize(), 99)', 'sub(calldatasize(), 100)'])})\n`; break;
      case 7: out += `codecopy(${mo()}, ${off(900)}, ${len()})\n`; break;
      case 8: out += `extcodecopy(${rng.pick(['caller()', 'address()', 'sload(100)', 'not(sload(100))'])}, ${mo()}, ${off(300)}, ${len()})\n`; break;
      case 9: out += `acc := add(mul(acc, 31), add(codesize(), mul(extcodesize(${rng.pick(['caller()', 'sload(100)'])}), 65536)))\n`; break;
      case 10: out += `acc := xor(acc, ${rng.pick(['call(gas(), caller(), 0, 0, 0, 0, 0)', 'staticcall(gas(), 77, 0, 0, 0, 0)', 'delegatecall(gas(), caller(), 0, 4, 128, 5)'])})\n`; break;
      case 11: { const a = big && rng.bool() ? rng.pick([65535, 65536, 65600, rng.int(70000)]) : rng.int(60), b = rng.int(60); out += rng.bool(0.8) ? `if iszero(lt(returndatasize(), ${a + b})) { returndatacopy(${mo()}, ${num(BigInt(a))}, ${num(BigInt(b))}) }\n` : rng.bool() ? `returndatacopy(${mo()}, 0, returndatasize())\n` : `returndatacopy(${mo()}, ${num(BigInt(a))}, ${num(BigInt(b))})\n`; break; }
      default: out += `if calldataload(${off(100)}) { acc := add(acc, ${rng.int(100)}) }\nswitch shr(248, calldataload(${rng.int(40)})) case 0 { acc := add(acc, 1) } default { acc := add(acc, 2) }\n`;
    }
  }
  return { big, body: out + `mstore(96, acc) mstore(96, xor(acc, keccak256(128, ${rng.bool(0.2) ? 140000 : 1000}))) return(96, 900)`, st };
}
module.exports = {
  build: ['build_e2e.sh', 'build_native.sh'], native: ['data', 'code', 'ret'], quickSeconds: 42, thoroughSeconds: 1200, minJobs: 24, minEvals: 500, jobs: C.jobs, level: 'exploration', stallSeconds: 60,
  rule: 'one evaluation = one random sequence of input, code and return-data reads in a compiled contract on one input, every byte placed in memory compared with the model; distinct = sequence x input', assumptions: ['the reference interpreter implements Yul/EVM semantics'],
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C07/${ctx.seed}/${job.n}`); const flags = C.flagsFor(job.n, rng), deploy = job.n % 4 === 3; const cases = [];
    for (let i = 0; i < 24; i++) { const b = body(rng); cases.push({ id: i, sig: 'reads', big: b.big, body: b.body, st: b.st }); }
    // the case number sits in storage so that the whole input is free
    C.runCases(R, ctx, cases, { flags, deploy, inputs: 5, selector: 'sload(999)', diff: {}, specFor: (c, t) => { const n = rng.pick([0, 1, 2, 3, 4, 5, 31, 32, 35, 36, 64, 68, 99, 100, 101, 102, 132, 200, 333, 1000, ...(rng.bool(c.big ? 0.9 : 0.05) ? Array(c.big ? 12 : 1).fill([65535, 65537, 70000, 140000]).flat() : [])]); B.bump(R, 'calldatasize:' + (n < 4 ? '<4' : n <= 100 ? '4..100' : '>100')); const ret = () => ({ status: rng.int(2), ret: rng.bytes(c.big ? rng.pick([100, 65535, 65600, 70100]) : rng.pick([0, 1, 5, 32, 60, 100, 500])) }); return { seed: `${job.n}.${c.id}.${t}`, calldata: rng.bytes(n), code: rng.bytes(c.big ? rng.pick([300, 65540, 70000, 140001]) : rng.pick([0, 1, 5, 300, 777])), storage: Object.assign({ 999: BigInt(c.id), 100: rng.u256() }, c.st), calls: [ret(), ret()] }; } });
    return R;
  },
};
