'use strict';
const C = require('./cases_common.js'); const { runMem } = require('./mem_common.js');
module.exports = {
  build: ['build_e2e.sh', 'build_native.sh'], native: ['mem', 'ptr'], quickSeconds: 42, thoroughSeconds: 1200, minJobs: 24, minEvals: 300, jobs: C.jobs, level: 'exploration', stallSeconds: 60,
  rule: 'one evaluation = one history of memory growth and scratch-cell allocation in a compiled contract on one input, all contents, msize and live variables compared with the model; distinct = history x input', assumptions: ['the reference interpreter implements Yul/EVM semantics'],
  runJob(job, ctx) { return runMem('C05', job, ctx, { kind: (r) => r.wpick([[5, 'growth'], [2, 'deep'], [3, 'history']]), per: 10, inputs: 2, opts: (r, all) => ({ base: r.pick([all ? 1024 : 1024, 16000, 16384, 65536, 65500, 1024]), span: r.pick([700, 40000, 150000]), huge: r.bool(0.3), msize: true }) }); },
};
