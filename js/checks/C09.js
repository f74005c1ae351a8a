'use strict';
const { Rng, toBytes } = require('../lib/util.js'); const B = require('../lib/batch.js'); const { Vals } = require('../gen/vals.js'); const C = require('./cases_common.js');
const A160 = (1n << 160n) - 1n;
module.exports = {
  build: ['build_e2e.sh', 'build_native.sh'], native: ['call', 'mem'], quickSeconds: 42, thoroughSeconds: 1200, minJobs: 24, minEvals: 500, jobs: C.jobs, level: 'exploration', stallSeconds: 60,
  rule: 'one evaluation = one sequence of calls, creations and logs of a compiled contract against scripted callees; every argument that reaches the host, every result and all memory afterwards compared with the model; distinct = sequence x callee script', assumptions: ['the reference interpreter implements Yul/EVM semantics', 'a callee status of 2 (host failure) is outside the model'],
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C09/${ctx.seed}/${job.n}`); const flags = C.flagsFor(job.n, rng), deploy = job.n % 5 === 4; const cases = [];
    for (let i = 0; i < 20; i++) {
      const v = new Vals(rng); let body = 'let acc := 1\nfor { let i := 0 } lt(i, 640) { i := add(i, 32) } { mstore(add(128, i), keccak256(0, add(i, 1))) }\n'; const n = rng.pick([1, 1, 2, 4, 7]); let ends = false;
      const sm = (x) => v.expr(BigInt(x)), HUGE = ['4294967424', '0x100000080', '18446744073709551744', 'number()', 'add(number(), 1)', 'not(31)', '0xffffffff'], off = () => (rng.bool(0.02) ? (B.bump(R, 'huge'), rng.bool(0.3) ? v.expr((1n << BigInt(rng.range(32, 255))) + 128n) : rng.pick(HUGE)) : sm(128 + rng.int(500))), len = () => (rng.bool(0.01) ? (B.bump(R, 'huge'), rng.pick(HUGE)) : sm(rng.pick([0, 1, 4, 31, 32, 33, 64, 68, 100, rng.int(140), ...(rng.bool(0.02) ? [65535, 65536, 65541, 70001] : [])]))), addr = () => rng.pick([() => v.expr(rng.u256()), () => v.expr(rng.u256() & A160), () => sm(rng.int(14)), () => sm(rng.pick([1, 1, 2, 9, 10, 10, 11, 0])), () => v.expr(BigInt(rng.int(12)) | (BigInt(1 + rng.int(255)) << BigInt(8 * rng.int(20)))), () => 'caller()', () => 'address()', () => v.expr((rng.u256() & ~A160) | BigInt(rng.int(12)))])(), val = () => (rng.bool(0.4) ? '0' : v.expr(rng.u256())), gas = () => rng.pick([() => 'gas()', () => v.expr(rng.u256() >> BigInt(rng.range(193, 255))), () => '2300', () => v.expr(rng.u256() >> BigInt(rng.int(255))), () => `sub(gas(), ${sm(rng.int(5000))})`, () => 'add(gas(), 7)', () => { if (v.memused) return 'gas()'; v.memused = true; const x = BigInt(rng.pick([1, 1 + rng.int(255)])) << BigInt(8 * rng.range(4, 31)); v.pre += `mstore(0x1e0, ${v.cd(x + BigInt(rng.pick([0, 0, rng.int(1e9)])))})\n`; B.bump(R, 'gas:mload'); return 'mload(0x1e0)'; }, () => { const x = rng.pick([10n ** 9n, 10n ** 18n, 10n ** 19n, 10n ** 20n, 1n << 31n, 1n << 32n, 1n << 63n, 1n << 64n, 1n << 65n, 1n << 128n, 1n << 160n, 1n << 255n]) + BigInt(rng.pick([-1, 0, 1, 5])); B.bump(R, 'gas:edge'); return rng.bool() ? x.toString() : rng.bool() ? '0x' + x.toString(16) : v.expr(x); }, () => sm(rng.int(100000))])();
      const sink = (e) => rng.pick([`acc := add(mul(acc, 31), ${e})`, `if iszero(${e}) { acc := add(acc, 77) }`, `pop(${e})`, `let r_ := ${e} sstore(acc, r_)`, `if ${e} { acc := add(acc, 5) }`, `switch ${e} case 0 { acc := add(acc, 3) } default { acc := add(acc, 4) }`, `mstore(96, ${e}) acc := xor(acc, mload(96))`, `acc := add(acc, idf(${e}))`]).replace(/^let.*/, (m) => `{ ${m} }`);
      for (let j = 0; j < n; j++) body += v.stmt(() => { const k = rng.wpick([[4, 'call'], [3, 'delegatecall'], [3, 'staticcall'], [2, 'create'], [2, 'create2'], [4, 'log'], [j === n - 1 ? 1 : 0, 'selfdestruct'], [2, 'ret']]); B.bump(R, 'op:' + k); switch (k) {
        case 'call': return sink(`call(${gas()}, ${addr()}, ${val()}, ${off()}, ${len()}, ${off()}, ${len()})`); case 'delegatecall': case 'staticcall': return sink(`${k}(${gas()}, ${addr()}, ${off()}, ${len()}, ${off()}, ${len()})`);
        case 'create': case 'create2': { const o = 200 + rng.int(200), w = rng.int(40), a = rng.pick([0, 0, 1, 32, 64, rng.int(90)]); const good = rng.bool(0.8); B.bump(R, good ? 'init:good' : 'init:odd'); const pre = `mstore(${o}, shl(224, ${good ? sm(w) : v.expr(BigInt(rng.pick([0, 5, 1000, 0xffffffff, 0x80000000, 0xfffffffc])))})) `; const l = good ? 4 + w + a : rng.int(20); return pre + sink(`${k}(${val()}, ${sm(o)}, ${sm(l)}${k === 'create2' ? ', ' + v.expr(rng.u256()) : ''})`); }
        case 'log': { const t = rng.int(5); return `log${t}(${off()}, ${len()}${Array.from({ length: t }, () => ', ' + rng.pick([() => v.expr(rng.u256()), () => 'caller()', () => 'acc', () => 'timestamp()', () => 'callvalue()', () => 'lt(acc, 9)'])()).join('')})`; }
        case 'selfdestruct': ends = true; return `selfdestruct(${addr()})`; default: { if (rng.bool(0.4)) return 'acc := add(mul(acc, 5), msize())'; return `if returndatasize() { returndatacopy(${off()}, 0, returndatasize()) } acc := add(acc, returndatasize())`; }
      } });
      cases.push({ id: i, sig: 'sequence', words: v.words, body: body + `mstore(96, acc) ${rng.pick(['return', 'return', 'revert'])}(96, ${rng.bool(0.05) ? 66000 : 900})` }); for (const k in v.feat) B.bump(R, 'form:' + k, v.feat[k]);
    }
    C.runCases(R, ctx, cases, { flags, deploy, inputs: 5, diff: { hugeFault: true }, specFor: (c, t) => { const rep = () => ({ status: rng.wpick([[4, 0], [3, 1]]), ret: rng.bytes(rng.pick([0, 0, 1, 4, 31, 32, 33, 64, 100, 133, 400, ...(rng.bool(0.02) ? [65537, 70000] : [])])) }); return { seed: `${job.n}.${c.id}.${t}`, calldata: C.calldata(rng, c.id, c.words), calls: Array.from({ length: 5 }, rep), creates: Array.from({ length: 3 }, rep), env: { timestamp: rng.u256() >> 193n, number: (1n << BigInt(rng.range(32, 61))) + 128n, callvalue: rng.u256(), gas: rng.u256() >> 193n } }; } });
    return R;
  },
};
