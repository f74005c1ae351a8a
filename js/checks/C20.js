'use strict';
const { Rng } = require('../lib/util.js'); const B = require('../lib/batch.js'); const { diffRun } = require('../lib/diff.js'); const C = require('./cases_common.js'); const { parse } = require('../lib/yul.js'); const { Near, REVERTS, RNAMES } = require('../gen/near.js');
const FILL = 'for { let i := 0 } lt(i, 480) { i := add(i, 32) } { mstore(i, not(mul(i, 0x0101010101))) }\n';
const args = (rng, n) => Array.from({ length: n }, () => rng.pick(['calldataload(36)', 'calldataload(68)', 'calldataload(100)', 'x', 'y', '1', '0', 'add(x, y)', '0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff']));
// a family of one function and its relatives, all called in turn
function family(rng, id, two) {
  let h = '', hD = '', body = FILL + 'let x := calldataload(36) let y := calldataload(68) let acc := 1\n', n = new Near(rng), kinds = []; const callees = [];
  for (let i = 0; i < 2; i++) { const nm = `g${id}_${i}`; const f = { p: ['a', 'b'], q: ['r'], st: [{ t: ['r := ', '@op', '(a, ', '@op', '(b, ', '@lit', '))'].map((x) => x), h: [n.hole('@op'), n.hole('@op'), n.hole('@lit')], vs: [], fixed: false }] }; const t = n.render(f, nm); h += t; hD += two && rng.bool(0.6) ? n.render(n.mutate(f)[0], nm) : t; callees.push(nm); }
  n = new Near(rng, callees); const base = n.fn(); const fam = [[base, 'base']];
  for (let i = rng.range(2, 6); i > 0; i--) fam.push(n.mutate(rng.bool(0.7) ? base : rng.pick(fam)[0]));
  fam.forEach(([f, k], i) => { const nm = rng.bool(0.7) ? `f${id}_${i}` : `f${id}_${i}_${rng.pick(['a', 'b', 'cleanup', 'revert'])}`; f.nm = nm; kinds.push(k); h += n.render(f, nm, n.renames()); if (two) { const m = n.mutate(f); kinds.push('two:' + m[1]); m[0].p = m[0].p.length === f.p.length ? m[0].p : f.p; hD += n.render(m[0], nm, n.renames()); } });
  const order = rng.shuffle ? rng.shuffle([...fam]) : fam.slice().sort(() => rng.int(3) - 1);
  order.forEach(([f], i) => { const a = args(rng, f.p.length).join(', '); const c = `${f.nm}(${a})`; switch (f.q.length) { case 0: body += c + '\n'; break; case 1: body += rng.pick([`acc := xor(mul(acc, 31), ${c})\n`, `mstore(${0x200 + 32 * i}, ${c})\n`, `let v${i} := ${c} acc := add(mul(acc, 31), v${i})\n`, `if ${c} { acc := add(acc, ${i + 1}) }\n`, `pop(${c})\n`]); break; default: body += `{ let ${f.q.map((_, j) => 'v' + j).join(', ')} := ${c} ${f.q.map((_, j) => `acc := add(mul(acc, 31), v${j})`).join(' ')} }\n`; } if (rng.bool(0.3)) body += 'x := add(x, 1)\n'; });
  body += 'mstore(0x1e0, acc) return(0x180, 0x200)';
  return { id, sig: 'family', kinds, body, helpers: h, helpersD: hD };
}
// functions that only revert, and functions that nearly do
function reverts(rng, id, two) {
  let h = '', hD = '', body = FILL + 'let x := calldataload(36) let acc := 7\nswitch calldataload(68)\n'; const n = rng.range(3, 9), used = new Set(), fs = [];
  for (let i = 0; i < n; i++) {
    let nm = rng.pick(RNAMES) + id + rng.pick(['', '_', 'a', '$']); if (!used.size && id === 0) nm = rng.pick(RNAMES); while (used.has(nm)) nm += i; used.add(nm); const np = rng.pick([0, 0, 0, 1, 2]), nr = rng.pick([0, 0, 0, 1, 1, 2]); const sigt = `(${['p', 'q'].slice(0, np).join(', ')})${nr ? ' -> ' + ['r', 's'].slice(0, nr).join(', ') : ''}`;
    const one = () => { const b = rng.pick(REVERTS); const pre = nr && !/leave/.test(b) && rng.bool(0.3) ? `r := ${rng.pick(['1', 'calldatasize()', 'not(0)'])} ` : ''; return `function ${nm}${sigt} { ${pre}${np && rng.bool(0.25) ? rng.pick(['revert(p, 0)', 'revert(0, p)', 'revert(p, p)', 'revert(0x00, p)', 'revert(0, and(p, 31))', 'revert(0, mload(p))', 'revert(0, calldatasize())']) : b} }\n`; };
    const t = one(); h += t; hD += two ? one() : t; fs.push([nm, np, nr]);
  }
  const ef = () => rng.pick(['x', '3', 'eff' + id + '(x)', 'calldataload(4)']);
  fs.forEach(([nm, np, nr], i) => { const c = `${nm}(${Array.from({ length: np }, ef).join(', ')})`; const s = nr === 0 ? c : nr === 1 ? rng.pick([`acc := add(acc, ${c})`, `mstore(0x20, ${c})`, `if ${c} { acc := 9 }`, `pop(${c})`, `acc := add(eff${id}(2), ${c})`, `sstore(${c}, 4)`, `acc := f${id}w(${c}, 1)`]) : `let v, w := ${c} acc := add(v, mul(w, 3))`; body += `case ${i} { ${rng.bool(0.3) ? `if gt(x, 5) { ${s} } acc := add(acc, 1)` : s} }\n`; });
  body += 'default { acc := 11 }\nmstore(0, acc) return(0, 64)'; const hs = `function eff${id}(v) -> r { sstore(v, add(v, 5)) r := v }\nfunction f${id}w(a, b) -> r { r := sub(a, b) }\n`;
  return { id, sig: 'reverts', body, n, helpers: hs + h, helpersD: hs + hD };
}
function both(cases) { const a = C.program(cases, { deploy: true }), b = C.program(cases.map((c) => Object.assign({}, c, { helpers: c.helpersD })), { deploy: true }); return a.replace(/\}\s*$/, '') + ' ' + b.replace('object "P"', 'object "P_deployed"') + ' }'; }
module.exports = {
  build: ['build_e2e.sh'], quickSeconds: 42, thoroughSeconds: 1200, minJobs: 20, minEvals: 800, jobs: C.jobs, level: 'exploration', stallSeconds: 60,
  rule: 'one evaluation = one input on which every member of a family of equal and nearly equal functions (or one of several functions that only, or nearly only, revert) is called and all results and effects are compared with the model; distinct = family x input', assumptions: ['the reference interpreter implements Yul/EVM semantics'],
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C20/${ctx.seed}/${job.n}`); const flags = C.flagsFor(job.n, rng); const two = job.n % 3 === 2;
    const cases = []; for (let i = 0; i < 14; i++) { const c = (i % 2 ? family : reverts)(rng, i, two); for (const k of c.kinds || []) B.bump(R, 'rel:' + k); cases.push(c); }
    if (!two) { C.runCases(R, ctx, cases, { flags, deploy: job.n % 6 === 4, inputs: 10, specFor: (c, t) => this.spec(rng, c, t) }); return R; }
    // the same names in the creation code and in the deployed code
    for (const p of B.flatten(B.compileCases(R, cases, both, flags, ctx.tick))) {
      const ast = parse(both(p.cases));
      for (const c of p.cases) for (let t = 0; t < 8; t++) for (const entry of ['call', 'deploy']) { const spec = this.spec(rng, c, t); const d = diffRun(p.module, entry === 'call' ? ast.subs[0] : ast, entry, spec, {}); ctx.tick(); B.judge(R, d, { sig: c.sig + '-two', src: both([c]), spec: { flags, entry, input: spec }, detail: c.body, key: entry + c.helpers + Buffer.from(spec.calldata).toString('hex') }); }
    }
    return R;
  },
  spec: (rng, c, t) => ({ seed: t, calldata: C.calldata(rng, c.id, c.sig === 'reverts' ? [BigInt(rng.int(12)), BigInt(t % (c.n + 1)), rng.u256()] : [rng.bool(0.4) ? BigInt(rng.int(5)) : rng.u256(), rng.bool(0.4) ? BigInt(rng.int(300)) : rng.u256(), rng.u256()]) }),
};
