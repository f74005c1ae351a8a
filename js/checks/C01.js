'use strict';
const { Rng } = require('../lib/util.js'); const { Gen, inputs } = require('../gen/prog.js'); const { diffRun } = require('../lib/diff.js'); const B = require('../lib/batch.js'); const { FLAGSETS } = require('./ops_common.js');
const { compile } = require('../lib/compile.js'); const { parse } = require('../lib/yul.js');
const UNITS = 8, INPUTS = 12;
module.exports = {
  build: ['build_e2e.sh'], quickSeconds: 42, thoroughSeconds: 1500, minJobs: 40, minEvals: 400, stallSeconds: 60, level: 'exploration',
  rule: 'one evaluation = one execution of one compiled program entry on one input, compared with the reference interpreter (outcome, data, storage/log trace); distinct = program text x entry x input',
  assumptions: ['the shim crates standing in for inkwell, clap, wizer and friends forward to the same LLVM 16 / wasm-ld', 'the reference interpreter implements Yul/EVM semantics'],
  *jobs() { for (let n = 0; ; n++) yield { n }; },
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C01/${ctx.seed}/${job.n}`);
    const deploy = rng.bool(0.15); const flags = job.n % 2 ? [] : rng.pick(FLAGSETS);
    const g = new Gen(rng, { deploy, magic: !flags.includes('--enable-all-optimizers') && rng.bool(0.25) }); const src = g.program(UNITS); const c = compile(src, flags); ctx.tick(); B.bump(R, 'programs_compiled');
    for (const k in g.feat) B.bump(R, 'gen:' + k, g.feat[k]);
    if (!c.ok) { if (c.timeout || c.spawnError) R.inconclusive.push('compile: ' + (c.spawnError || 'timeout')); else R.failures.push({ sig: 'compile:' + B.panicLine(c), why: B.compileWhy(c), src, spec: { flags } }); return R; }
    let module; try { module = new WebAssembly.Module(c.wasm); } catch (e) { R.failures.push({ sig: 'invalid-module', why: String(e), src }); return R; }
    const ast = parse(src), obj = deploy ? ast : ast.subs[0];
    for (let u = 0; u < UNITS; u++) for (let t = 0; t < INPUTS; t++) {
      const spec = inputs(rng, u);
      const d = diffRun(module, obj, deploy ? 'deploy' : 'call', spec, { stepLimit: 60000, depthLimit: 60 }); ctx.tick();
      if (d.steps) B.bump(R, 'source_steps', d.steps);
      B.judge(R, d, { sig: d.verdict === 'bad' ? 'differs:' + (d.why.startsWith('outcome') ? (d.m.out.kind + '->' + d.r.out.kind) : 'trace') : '', src, spec: { flags, deploy, unit: u, calldata: Buffer.from(spec.calldata).toString('hex'), storage: Object.fromEntries(Object.entries(spec.storage).map(([k, v]) => [k, '0x' + v.toString(16)])), env: Object.fromEntries(Object.entries(spec.env).map(([k, v]) => [k, '0x' + v.toString(16)])), seed: spec.seed }, key: `${job.n}|${u}|${t}` });
      if (R.samples.length < 1 && d.verdict === 'ok' && d.steps > 30) R.samples.push({ flags, unit: u, outcome: d.m.out, steps: d.steps, effects: d.events });
    }
    return R;
  },
};
