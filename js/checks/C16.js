'use strict';
const { Rng } = require('../lib/util.js'); const B = require('../lib/batch.js'); const { compile } = require('../lib/compile.js'); const { POS, litCase } = require('../gen/litpos.js'); const C = require('./cases_common.js');
const EDGE = [7, 8, 15, 16, 23, 24, 30, 31, 32, 33, 40, 47, 48, 53, 59, 60, 62, 63, 64, 65, 72, 95, 96, 127, 128, 129, 159, 160, 161, 191, 192, 223, 224, 247, 248, 254, 255, 256];
function value(r) {
  switch (r.int(9)) {
    case 8: return r.pick([1n << 32n, 1n << 32n, (1n << 32n) + BigInt(r.int(64)), 4294967295n, 4294967300n, 5n * (1n << 32n), (1n << 33n) + 4n, 9999999999n, 1000000000n, 2147483648n, 2147483647n, 999999999n, (1n << 64n) + BigInt(r.int(64)), 1n << 40n, (1n << 32n) * BigInt(r.range(1, 1000)) + BigInt(r.int(40))]);
    case 0: case 1: case 2: { const v = (1n << BigInt(r.pick(EDGE))) + BigInt(r.range(-2, 1)); return v < (1n << 256n) ? v : (1n << 256n) - 1n; }
    case 3: { const v = 10n ** BigInt(r.range(0, 77)); return v - BigInt(r.int(2)); }
    case 4: return BigInt('9'.repeat(r.range(1, 77))); case 5: return BigInt(r.bool(0.4) ? r.int(2) : r.int(300)); default: return r.u256();
  }
}
const zeros = (r) => (r.bool(0.15) ? '0'.repeat(r.pick([1, 2, 3, 9, 30, 64, 100])) : '');
function text(r, v) { // one of the ways to write v
  if (v < 2n && r.bool(0.4)) return v ? 'true' : 'false';
  if (r.bool(0.5)) return zeros(r) + v.toString();
  let h = v.toString(16); if (r.bool(0.25)) h = h.toUpperCase(); else if (r.bool(0.2)) h = [...h].map((c) => (r.bool() ? c.toUpperCase() : c)).join(''); return '0x' + zeros(r) + h;
}
module.exports = {
  build: ['build_e2e.sh'], quickSeconds: 42, thoroughSeconds: 900, minJobs: 24, minEvals: 1000, jobs: C.jobs, level: 'exploration', stallSeconds: 60,
  rule: 'one evaluation = one literal in one position of a compiled contract, run on one input and compared with its mathematical value run through the reference interpreter; distinct = position x literal text x input', assumptions: ['the reference interpreter implements Yul/EVM semantics'],
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C16/${ctx.seed}/${job.n}`);
    if (job.n % 8 === 5) { // too large: refused
      for (let i = 0; i < 5; i++) {
        const v = rng.pick([1n << 256n, (1n << 256n) + BigInt(rng.int(1000)), 10n ** 78n, 1n << BigInt(rng.range(256, 600)), (rng.u256() << 256n) | rng.u256() | (1n << 256n)]); const t = rng.bool() ? zeros(rng) + v.toString() : '0x' + zeros(rng) + v.toString(16);
        const pos = rng.pick(['mstore', 'let', 'arg', 'sstoreval', 'add', 'casev', 'ret', 'topic', 'shl', 'eq', 'iff']); const k = litCase(1, pos, t, v, 3n); const src = C.program([k]); const c = compile(src, C.flagsFor(job.n, rng)); ctx.tick(); R.evals++;
        if (c.timeout || c.spawnError) { R.inconclusive.push('compile timeout'); continue; }
        if (c.status === 0) { R.failures.push({ sig: 'too-large-accepted:' + pos, why: `literal ${t} accepted`, src }); continue; }
        B.bump(R, 'refused-too-large'); R.distinct.push('big|' + t);
      }
      return R;
    }
    const flags = C.flagsFor(job.n, rng), deploy = job.n % 5 === 2; const names = Object.keys(POS), cases = [];
    for (let i = 0; i < 45; i++) { const pos = names[(job.n * 45 + i) % names.length], v = /gas/.test(pos) && rng.bool(0.7) ? rng.pick([1n << 31n, 1n << 32n, 1n << 63n, 1n << 64n, 10n ** 9n, 10n ** 18n, 10n ** 19n, 5n * 10n ** 19n, 10n ** 20n]) + BigInt(rng.range(-2, 6)) : value(rng); cases.push(litCase(i, pos, text(rng, v), v, v ^ 1n)); }
    C.runCases(R, ctx, cases, { flags, deploy, inputs: 4, diff: { hugeFault: true }, specFor: (c, t) => { const w = [t === 0 ? c.v : t === 1 ? c.v ^ (1n << BigInt(rng.int(256))) : t === 2 ? c.v ^ 1n : rng.u256(), BigInt(rng.int(40))]; return { seed: t, calldata: C.calldata(rng, c.id, w), creates: [{ status: 0, ret: new Uint8Array() }] }; } });
    for (const c of cases) B.bump(R, 'pos:' + c.pos);
    return R;
  },
};
