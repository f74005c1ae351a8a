'use strict';
const { Rng } = require('../lib/util.js'); const { Syn } = require('../gen/syntax.js'); const B = require('../lib/batch.js'); const { batch, jobs, firstDiff } = require('./fe_common.js');
function deep(s, r, T) { // deeply nested expressions, blocks or objects
  const n = r.pick([10, 40, 120]); const k = r.int(4); const e = (d) => { if (!d) { T.push('x'); return { k: 'id', name: '78' }; } T.push('f', '('); const a = e(d - 1); T.push(')'); return { k: 'call', name: '66', args: [a] }; };
  const b = (d) => { if (!d) return []; if (k === 1) { T.push('{'); const x = b(d - 1); T.push('}'); return [{ k: 'block', body: x }]; } T.push('if', 'x', '{'); const x = b(d - 1); T.push('}'); return [{ k: 'if', cond: { k: 'id', name: '78' }, body: x }]; };
  const o = (d) => { T.push('object', '"o"', '{', 'code', '{', '}'); const subs = d ? [o(d - 1)] : []; T.push('}'); return { k: 'object', name: '6f', code: [], subs }; };
  if (k === 3) return o(n);
  T.push('object', '"o"', '{', 'code', '{'); let code; if (k === 0) { const a = e(n); code = [{ k: 'expr', e: a }]; } else code = b(n);
  T.push('}', '}'); return { k: 'object', name: '6f', code, subs: [] };
}
module.exports = {
  build: ['build_fe.sh'], quickSeconds: 42, thoroughSeconds: 600, minJobs: 24, minEvals: 2000, jobs, level: 'exploration',
  rule: 'one evaluation = one generated tree, written out in a random layout, parsed by the real parser and compared node by node; distinct = distinct texts', assumptions: ['the generator emits the grammar documented in src/yul.lalrpop'],
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C13/${ctx.seed}/${job.n}`); const s = new Syn(rng); const reqs = [], exp = [], kinds = {};
    const count = (x) => { if (Array.isArray(x)) x.forEach(count); else if (x && typeof x === 'object') { if (x.k) kinds[x.k] = (kinds[x.k] || 0) + 1; for (const k in x) count(x[k]); } };
    for (let i = 0; i < 200; i++) {
      const T = []; const ast = rng.bool(0.05) ? deep(s, rng, T) : s.object(T, rng.pick([0, 1, 2, 3])); count(ast); const js = JSON.stringify(ast);
      const lay = rng.pick([1, 1, 2]); for (let j = 0; j < lay; j++) { const c = rng.bool(0.3); reqs.push({ mode: c ? 'C' : 'P', data: s.layout(T, c ? 0.15 : 0) }); exp.push(js); }
    }
    batch(ctx, reqs, (i, o) => {
      R.evals++; const src = reqs[i].data;
      if (o.status !== 'ok') { R.failures.push({ sig: 'refused:' + o.status, why: `valid object not accepted: ${o.status} ${String(o.out).slice(0, 300)}`, src }); return; }
      const got = String(o.out); if (got !== exp[i]) { R.failures.push({ sig: 'tree-differs', why: firstDiff(got, exp[i]), src }); return; }
      R.distinct.push(src); if (R.samples.length < 1 && src.length < 300) R.samples.push({ text: src, tree: got.slice(0, 400) });
    });
    for (const k in kinds) B.bump(R, 'node:' + k, kinds[k]);
    return R;
  },
};
