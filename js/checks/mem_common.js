'use strict';
const { Rng } = require('../lib/util.js'); const B = require('../lib/batch.js'); const { Mem } = require('../gen/mem.js'); const C = require('./cases_common.js');
function runMem(prop, job, ctx, mk) {
  const R = B.newResult(); const rng = new Rng(`${prop}/${ctx.seed}/${job.n}`); const flags = job.n % 7 === 1 ? ['--enable-all-optimizers'] : job.n % 7 === 4 ? ['--default_ret_type', 'bytes32'] : C.flagsFor(job.n, rng), allopt = flags.includes('--enable-all-optimizers'), deploy = job.n % 6 === 5 || (allopt && rng.bool());
  const cases = []; const per = mk.per || 14;
  for (let i = 0; i < per; i++) { const m = new Mem(rng, mk.opts(rng, allopt)); const kind = mk.kind(rng, i); const body = kind === 'growth' ? m.growth() : kind === 'deep' ? m.deep(i) : m.history(rng.pick([2, 4, 8, 16, 30])); cases.push({ id: i, sig: kind, body, helpers: m.helpers, words: m.words }); for (const k in m.feat) B.bump(R, k, m.feat[k]); }
  const helpers = 'function h2(a) -> r { let t := calldataload(a) r := add(xor(t, a), 1) }\n';
  C.runCases(R, ctx, cases, { flags, deploy, inputs: mk.inputs || 3, helpers, diff: { hugeFault: true, stepLimit: 400000 }, specFor: (c, t) => { const w = c.words.length ? c.words.slice() : [rng.u256(), rng.u256()]; return { seed: `${job.n}.${c.id}.${t}`, calldata: C.calldata(rng, c.id, w, rng.bytes(rng.pick([0, 0, 1, 31, 60]))), calls: [{ status: rng.int(2), ret: rng.bytes(rng.pick([0, 1, 31, 32, 33, 64, 200])) }, { status: 0, ret: rng.bytes(40) }], storage: { 3: rng.u256(), 5: rng.u256() }, env: { timestamp: rng.u256() >> 193n, number: (1n << BigInt(rng.range(32, 61))) + BigInt(rng.int(64)) } }; } });
  return R;
}
module.exports = { runMem };
