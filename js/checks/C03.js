'use strict';
const O = require('./ops_common.js'); const G = require('../gen/ops.js');
module.exports = { build: ['build_e2e.sh', 'build_native.sh'], native: ['math'], jobs: () => O.jobs('C03', 44), runJob: (j, c) => O.runOps(G.CMP, 'C03', j, c), minJobs: 16, quickSeconds: 42, thoroughSeconds: 900,
  rule: 'a case is one builtin applied to operands in generated representations (calldata word, pointer variable, u256/i64/i32/bool value, literal, storage, memory, function result, nested expression) with boundary-heavy values, its result used in a generated position, run on the compiled module and on the reference; non-trivial = both finished and agreed on outcome and effects; distinct by builtin, operand forms, position and values' };
