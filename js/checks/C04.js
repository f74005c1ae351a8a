'use strict';
const C = require('./cases_common.js'); const { runMem } = require('./mem_common.js');
module.exports = {
  build: ['build_e2e.sh', 'build_native.sh'], native: ['mem'], quickSeconds: 42, thoroughSeconds: 1200, minJobs: 24, minEvals: 500, jobs: C.jobs, level: 'exploration', stallSeconds: 60,
  rule: 'one evaluation = one random history of memory operations in a compiled contract on one input, every byte seen by return, revert, logs, calls, hashes and loads compared with a byte-array model; distinct = history x input', assumptions: ['the reference interpreter implements Yul/EVM semantics'],
  runJob(job, ctx) { return runMem('C04', job, ctx, { kind: () => 'history', opts: (r, all) => ({ base: r.bool(0.12) ? r.pick([16200, 16320, 16384, 65400, 65500, 65536]) : all ? 128 : r.pick([0, 0, 32, 64, 128]), span: r.pick([64, 100, 200, 700, 3000]), huge: r.bool(0.1) }) }); },
};
