'use strict';
// Many small cases per compiled program, dispatched on a case number in the calldata; every case runs on several inputs on both sides.
const { diffRun } = require('../lib/diff.js'); const B = require('../lib/batch.js'); const { parse } = require('../lib/yul.js'); const { toBytes } = require('../lib/util.js'); const { FLAGSETS } = require('./ops_common.js');
// cases: {id, sig, body, model?, helpers?, modelHelpers?}; body may end the call itself, else the first 32 bytes of memory are returned
function program(cases, o = {}) {
  const pickB = (c) => (o.model && c.model !== undefined ? c.model : c.body), pickH = (c) => ((o.model && c.modelHelpers !== undefined ? c.modelHelpers : c.helpers) || '');
  const b = cases.map((c) => `case ${c.id} { t${c.id}() }`).join('\n');
  const f = cases.map((c) => `function t${c.id}() {\n${pickB(c)}\nreturn(0, 32)\n}\n${pickH(c)}`).join('\n');
  const code = `{ ${o.prologue || ''} switch ${o.selector || 'shr(224, shl(32, calldataload(0)))'}\n${b}\ndefault { revert(0, 0) }\nfunction idf(a) -> r { r := a }\nfunction stash(v) -> p { p := 0x20 mstore(0x20, v) }\n${o.helpers || ''}\n${f} }`; const segs = o.segs || '';
  return o.deploy ? `object "P" { code ${code} ${segs} }` : `object "P" { code { return(0, 0) } object "P_deployed" { code ${code} ${segs} } }`;
}
const calldata = (rng, id, words, extra) => { const u = new Uint8Array(36 + 32 * words.length + (extra ? extra.length : 0)); u.set(rng.bytes(4), 0); new DataView(u.buffer).setUint32(4, id); words.forEach((v, i) => u.set(toBytes(v), 36 + 32 * i)); if (extra) u.set(extra, 36 + 32 * words.length); return u; };
// o: {flags, deploy, inputs, specFor(c, t) -> spec, diff: options or (c) => options, post(d, c, spec) -> why|null}
function runCases(R, ctx, cases, o) {
  const P = (cs) => program(cs, o), entry = o.deploy ? 'deploy' : 'call';
  const ps = B.flatten(B.compileCases(R, cases, P, o.flags, ctx.tick, o));
  for (const p of ps) {
    const ast = parse(program(p.cases, Object.assign({}, o, { model: true }))), obj = o.deploy ? ast : ast.subs.find((s) => s.name === 'P_deployed');
    for (const c of p.cases) for (let t = 0; t < o.inputs; t++) {
      const spec = o.specFor(c, t); if (!spec) continue;
      const d = diffRun(p.module, obj, entry, spec, typeof o.diff === 'function' ? o.diff(c, obj, spec) : o.diff || {}); ctx.tick();
      if (d.verdict === 'ok' && o.post) { const why = o.post(d, c, spec); if (why) { d.verdict = 'bad'; d.why = why; } }
      B.judge(R, d, { sig: c.sig, src: P([c]), spec: { flags: o.flags, entry, input: spec, t }, detail: c.body, key: (c.key || c.body) + '|' + Buffer.from(spec.calldata || []).toString('hex').slice(8) + '|' + (spec.seed ?? '') });
      if (t === 0 && R.samples.length < 1) R.samples.push({ case: c.sig, flags: o.flags, body: c.body.slice(0, 300), outcome: d.m && d.m.out, effects: d.events });
    }
    if (o.onModule) o.onModule(p);
  }
}
const flagsFor = (n, rng) => (n % 3 === 0 ? [] : rng.pick(FLAGSETS));
function* jobs() { for (let n = 0; ; n++) yield { n }; }
module.exports = { program, calldata, runCases, flagsFor, jobs, FLAGSETS };
