'use strict';
const { Rng } = require('../lib/util.js'); const { Syn, KW } = require('../gen/syntax.js'); const G = require('../lib/recog.js'); const B = require('../lib/batch.js'); const { batch, jobs } = require('./fe_common.js');
const flat = (T) => T.map((t) => (t.data !== undefined ? 'data "' + t.data + '"' : t));
const lexed = (s) => G.lex(s).filter((t) => t.t !== 'eof').map((t) => (t.t === 'seg' ? 'data "' + /"(.*)"$/s.exec(t.v)[1] + '"' : t.v));
// a sequence of tokens that need not be a program
function soup(s, r) {
  const T = []; const n = r.range(1, 40); for (let i = 0; i < n; i++) switch (r.int(7)) {
    case 0: T.push(s.name()); break; case 1: case 2: if (/^(data|hex)$/.test(T[T.length - 1])) T.push(','); T.push(s.str().src); break; case 3: T.push(r.pick([':=', '->', '{', '}', '(', ')', ',', ':'])); break;
    case 4: T.push('hex"' + Buffer.from(r.bytes(r.range(1, 4))).toString('hex') + '"'); break; case 5: T.push(r.pick([String(r.int(1000)), '0x' + r.int(65536).toString(16)])); break; default: T.push(r.pick([...KW]));
  }
  return T;
}
// texts of comment-relevant characters, for "never fails"
function noise(r) { let t = ''; const n = r.range(0, 60); for (let i = 0; i < n; i++) t += r.pick(['/', '*', '"', "'", '\\', '\n', ' ', '\r', 'a', '//', '/*', '*/', '\\"', 'é', '😀', '\u0000', '{', '\\ \\']); return t; }
module.exports = {
  build: ['build_fe.sh'], quickSeconds: 42, thoroughSeconds: 600, minJobs: 24, minEvals: 2000, jobs, level: 'exploration',
  rule: 'one evaluation = one text passed through the real comment remover; distinct = distinct texts whose tokens survived', assumptions: ['the independent lexer of js/lib/recog.js defines the token patterns of the grammar'],
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C12/${ctx.seed}/${job.n}`); const s = new Syn(rng); const reqs = [], exp = [];
    for (let i = 0; i < 300; i++) {
      let T, src; const k = rng.int(10);
      if (k === 0) { src = noise(rng); T = null; } else {
        T = k < 6 ? soup(s, rng) : []; if (k >= 6) s.object(T, 1);
        src = s.layout(T, rng.pick([0, 0.1, 0.3, 0.7]));
        if (rng.bool(0.15)) { src += '/*' + rng.pick(['', 'x', '*', '"', ' "a" // \n', '/', '/*', '\n']); B.bump(R, 'unterminated-block'); } else if (rng.bool(0.1)) { src += '//' + rng.pick(['', 'x', '"', '/*', '*/']); B.bump(R, 'line-at-eof'); }
      }
      reqs.push({ mode: 'S', data: src }); exp.push(T);
    }
    batch(ctx, reqs, (i, o) => {
      R.evals++; const src = reqs[i].data;
      if (o.status !== 'ok') { R.failures.push({ sig: 'strip:' + o.status, why: `comment removal: ${o.status} ${o.out}`, src }); return; }
      if (exp[i]) {
        let got; try { got = lexed(String(o.out)); } catch (e) { got = ['(cannot be read) ' + String(o.out).slice(0, 200)]; }
        const want = flat(exp[i]); const at = want.findIndex((t, j) => t !== got[j]);
        if (at >= 0 || got.length !== want.length) { const j = at < 0 ? want.length : at; R.failures.push({ sig: 'tokens-changed', why: `token ${j}: written ${JSON.stringify(want.slice(j, j + 3))}, after removal ${JSON.stringify(got.slice(j, j + 3))}`, src, detail: String(o.out) }); return; }
        B.bump(R, 'tokens', want.length);
      }
      R.distinct.push(src); if (R.samples.length < 1 && exp[i] && exp[i].length < 12) R.samples.push({ text: src, stripped: String(o.out) });
    });
    for (const k in s.feat) B.bump(R, k, s.feat[k]);
    return R;
  },
};
