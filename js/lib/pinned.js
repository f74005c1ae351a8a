'use strict';
// Known findings, each by its own input: the recorded wrong outcome is reported under the recorded
// signature (known_findings.json), the right outcome is fine, and any third outcome is a violation.
const { compile } = require('./compile.js'); const { World } = require('./world.js'); const { runWasm } = require('./host.js'); const B = require('./batch.js');
// probes: [{sig, src, flags, entry, spec, right, wrong}] with right/wrong: hex data or (data) => bool
function runPinned(R, ctx, probes) {
  for (const p of probes) {
    const c = compile(p.src, p.flags || []); ctx.tick(); R.evals++; B.bump(R, 'pinned');
    const f = (sig, why) => R.failures.push({ sig, why, src: p.src, spec: { flags: p.flags, pinned: p.sig } });
    if (!c.ok) { f(p.sig + ' (compilation)', 'compilation failed: ' + c.stderr.slice(-300)); continue; }
    const r = runWasm(new WebAssembly.Module(c.wasm), p.entry || 'call', new World(p.spec || {}), {}); const d = r.out.kind + ' ' + r.out.data;
    const is = (x) => (typeof x === 'function' ? x(d) : d === x);
    if (is(p.right)) { R.distinct.push('pinned ' + p.sig); continue; }
    if (is(p.wrong)) f(p.sig, `outcome ${d}`); else f(p.sig + ' (otherwise)', `outcome ${d}`);
  }
}
module.exports = { runPinned };
