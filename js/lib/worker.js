'use strict';
const { parentPort, workerData } = require('worker_threads');
const path = require('path');
const beat = new Int32Array(workerData.sab);
const ctx = { tick() { Atomics.add(beat, 0, 1); }, seed: workerData.seed, tier: workerData.tier };
// Every eighth job of a check whose subject the runtime library implements runs that part of the library under the sanitizers.
function native(check, chk, job) {
  const R = require('./batch.js').newResult(); require('../checks/C10.js').scripts(R, ctx, `${check}/native/${ctx.seed}/${job.n}`, 30, chk.native);
  R.stats = Object.fromEntries(Object.entries(R.stats).map(([k, v]) => ['library:' + k, v])); for (const f of R.failures) f.sig = 'library:' + f.sig; R.distinct = R.distinct.map((d) => 'library|' + d); return R;
}
globalThis.__verif_tick = ctx.tick;
parentPort.on('message', async (m) => {
  let r;
  try { const chk = require(path.resolve(__dirname, '../checks', m.check + '.js')); r = chk.native && !process.env.VERIF_NONATIVE && m.job.n % 8 === 6 ? native(m.check, chk, m.job) : await chk.runJob(m.job, ctx); }
  catch (e) { r = { crash: String(e && e.stack || e) }; }
  parentPort.postMessage({ id: m.id, r });
});
