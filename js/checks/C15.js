'use strict';
const { Rng, fromBytes } = require('../lib/util.js'); const { Syn } = require('../gen/syntax.js'); const B = require('../lib/batch.js'); const { compile } = require('../lib/compile.js'); const { POS, litCase } = require('../gen/litpos.js'); const C = require('./cases_common.js'); const { batch, firstDiff } = require('./fe_common.js');
const hex = (b) => Buffer.from(b).toString('hex');
// string contents that must not be accepted
const BADSTR = ['"\\a"', '"\\"', '"\\x1"', '"\\xg0"', '"\\xaa"', '"\\u{41}"', '"\\u{00e9}"', '"\\u00E9"', '"\\u{D800}"', '"\\u{DFFF}"', '"\\xFF"', '"\\xC3"', '"\\xC3\\x28"', '"\\xED\\xA0\\x80"', '"\\xF4\\x90\\x80\\x80"', '"\\x80"', '"\\xC0\\x80"', '"a\nb"', '"\\r"', '"\\0"', '"\\ "', '"\\ x\\"', "'a'", 'hex"', 'hex"0g"'];
module.exports = {
  build: ['build_fe.sh', 'build_e2e.sh'], quickSeconds: 42, thoroughSeconds: 900, minJobs: 24, minEvals: 2000, jobs: C.jobs, level: 'exploration', stallSeconds: 60,
  rule: 'one evaluation = one string or hex literal through the real parser (bytes compared) or as a value in a compiled contract on one input; distinct = literal text x position x input', assumptions: ['the reference interpreter implements Yul/EVM semantics'],
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C15/${ctx.seed}/${job.n}`); const s = new Syn(rng);
    if (job.n % 3 === 0) { this.fe(R, rng, s, ctx); return R; }
    const flags = C.flagsFor(job.n, rng), deploy = job.n % 5 === 2, names = Object.keys(POS).filter((p) => !['typed', 'typedlet', 'callgas'].includes(p));
    if (job.n % 8 === 5) {
      for (let i = 0; i < 4; i++) {
        let b; do b = s.str({ len: rng.range(33, 80) }); while (b.bytes.length <= 32); const pos = rng.pick(['mstore', 'let', 'arg', 'sstoreval', 'casev', 'ret', 'topic', 'eq']); const src = C.program([litCase(1, pos, b.src, 1n, 3n)]); const c = compile(src, flags); ctx.tick(); R.evals++;
        if (c.timeout || c.spawnError) { R.inconclusive.push('compile timeout'); continue; }
        if (c.status === 0) { R.failures.push({ sig: 'too-long-accepted:' + pos, why: `string of ${b.bytes.length} bytes accepted as a value`, src }); continue; }
        B.bump(R, 'refused-too-long'); R.distinct.push('long|' + b.src);
      }
      return R;
    }
    const cases = []; for (let i = 0; i < 40; i++) {
      let b; do b = s.str({ len: rng.pick([0, 1, 2, 4, 8, 16, 31, 32, rng.int(33)]), plain: rng.bool(0.3) }); while (b.bytes.length > 32);
      const w = new Uint8Array(32); w.set(b.bytes); const v = fromBytes(w); const pos = names[(job.n * 40 + i) % names.length]; cases.push(litCase(i, pos, b.src, v, v ^ 1n)); B.bump(R, 'len:' + b.bytes.length);
    }
    C.runCases(R, ctx, cases, { flags, deploy, inputs: 3, specFor: (c, t) => ({ seed: t, calldata: C.calldata(rng, c.id, [t === 0 ? c.v : t === 1 ? c.v ^ (1n << BigInt(rng.int(256))) : rng.u256(), BigInt(rng.int(40))]) }) });
    return R;
  },
  fe(R, rng, s, ctx) {
    const reqs = [], exp = [];
    for (let i = 0; i < 250; i++) {
      if (rng.bool(0.15)) { const b = rng.pick(BADSTR); reqs.push({ mode: 'C', data: rng.pick([`object "o" { code { x(${b}) } }`, `object ${b} { code { } }`, `object "o" { code { let a := ${b} } }`]) }); exp.push(null); continue; }
      if (rng.bool(0.2)) { let h = hex(rng.bytes(rng.pick([1, 2, 31, 32, 33, 300]))); if (rng.bool()) h = h.toUpperCase(); reqs.push({ mode: 'C', data: `object "o" { code { } data "d" hex"${h}" }` }); exp.push(JSON.stringify({ k: 'object', name: '6f', code: [], subs: [{ k: 'data', name: '64', lits: [{ hex: hex(h) }] }] })); continue; }
      const ls = Array.from({ length: rng.range(1, 4) }, () => s.str());
      reqs.push({ mode: rng.bool() ? 'C' : 'P', data: `object ${ls[0].src} { code { x(${ls.map((l) => l.src).join(',')}) switch ${ls[0].src} case ${ls[ls.length - 1].src} { } } }` });
      const lit = (l) => ({ k: 'str', v: hex(l.bytes), type: null }); exp.push(JSON.stringify({ k: 'object', name: hex(ls[0].bytes), code: [{ k: 'expr', e: { k: 'call', name: '78', args: ls.map(lit) } }, { k: 'switch', cond: lit(ls[0]), cases: [{ lit: lit(ls[ls.length - 1]), body: [] }], def: null }], subs: [] }));
    }
    batch(ctx, reqs, (i, o) => {
      R.evals++; const src = reqs[i].data;
      if (exp[i] === null) { if (o.status !== 'error') R.failures.push({ sig: 'bad-literal:' + o.status, why: `not a valid literal: ${o.status} ${String(o.out).slice(0, 200)}`, src }); else { B.bump(R, 'bad-literal-refused'); R.distinct.push(src); } return; }
      if (o.status !== 'ok') { R.failures.push({ sig: 'refused:' + o.status, why: String(o.out).slice(0, 300), src }); return; }
      if (String(o.out) !== exp[i]) { R.failures.push({ sig: 'bytes-differ', why: firstDiff(String(o.out), exp[i]), src }); return; }
      R.distinct.push(src);
    });
    for (const k in s.feat) B.bump(R, k, s.feat[k]);
  },
};
