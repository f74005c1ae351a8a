'use strict';
const { Rng, toBytes } = require('../lib/util.js'); const G = require('../gen/ops.js'); const { diffRun } = require('../lib/diff.js'); const B = require('../lib/batch.js');
const FLAGSETS = [[], ['--enable-all-optimizers'], ['--disable-all-optimizers'], ['--opt-level', 'none'], ['--opt-level', 'less'], ['--opt-level', 'aggressive'], ['--debug'], ['--enable-little-endian-storage-load-store'], ['--default_ret_type', 'bytes32'], ['--minify-wasm-size'], ['--no-binaryen-optimize']];
function* jobs(name, per) { for (let i = 0; ; i++) yield { n: i, per }; }
function runOps(table, prop, job, ctx) {
  const R = B.newResult(); const rng = new Rng(`${prop}/${ctx.seed}/${job.n}`);
  const cases = G.opCases(rng, table, job.per); for (const c of cases) c.sig = c.op;
  const flags = job.n % 3 === 0 ? [] : FLAGSETS[Math.floor(job.n / 3 * 2 + job.n % 3) % FLAGSETS.length]; const deploy = job.n % 7 === 3; const entry = deploy ? 'deploy' : 'call';
  const ps = B.flatten(B.compileCases(R, cases, (cs) => G.program(cs, { deploy }), flags, ctx.tick));
  for (const p of ps) {
    const obj = deploy ? p.ast : p.ast.subs[0];
    for (const k of p.cases) for (let t = 0; t < 14; t++) {
      const vals = G.valuesFor(rng, k.op, table[k.op]);
      const narrow = () => rng.bool(0.4) ? rng.u256() >> 193n : rng.pick([0n, 1n, 0x7fffffffn, 0x80000000n, 0xffffffffn, 0x100000000n, 0x100000001n, (1n << 63n) - 1n, 1n << 62n, BigInt(rng.int(1000)), BigInt(rng.int(1 << 30)) * 4n, 0x100000000n * BigInt(rng.int(1 << 30)) + BigInt(rng.int(300))]);
      const spec = { seed: t, calldata: G.calldataFor(rng, k.id, rng.bytes(4), vals), env: { timestamp: narrow(), number: narrow(), gas: narrow(), gaslimit: narrow(), callvalue: rng.u256() } };
      const d = diffRun(p.module, obj, entry, spec, {}); ctx.tick();
      B.judge(R, d, { sig: `${k.op}(${k.forms.join(',')})->${k.sink}`, src: G.program([k], { deploy }), spec: { flags, entry, vals: vals.map((v) => '0x' + v.toString(16)) }, detail: k.body, key: `${k.op}|${k.forms.join(',')}|${k.sink}|${vals.map((v) => v.toString(16)).join(',')}` });
      if (t === 0 && R.samples.length < 2) R.samples.push({ op: k.op, forms: k.forms, sink: k.sink, values: vals.map((v) => '0x' + v.toString(16)), flags, result: d.m && d.m.out });
    }
  }
  return R;
}
module.exports = { jobs, runOps, FLAGSETS };
