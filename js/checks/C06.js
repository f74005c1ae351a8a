'use strict';
const { Rng, h64 } = require('../lib/util.js'); const B = require('../lib/batch.js'); const { Vals } = require('../gen/vals.js'); const C = require('./cases_common.js'); const { compile } = require('../lib/compile.js'); const { parse } = require('../lib/yul.js'); const { World } = require('../lib/world.js'); const { diffRun } = require('../lib/diff.js');
// a history over a few slots
function history(rng, v, keys, n) {
  let s = 'let acc := 1\n'; const key = () => rng.pick(keys);
  for (let i = 0; i < n; i++) s += v.stmt(() => { const k = key(); switch (rng.int(9)) {
    case 0: case 1: case 2: return `sstore(${v.expr(k)}, ${v.expr(rng.u256())})`; case 3: return `tstore(${v.expr(k)}, ${v.expr(rng.u256())})`; case 4: case 5: return `acc := add(mul(acc, 31), sload(${v.expr(k)}))`; case 6: return `acc := add(mul(acc, 31), tload(${v.expr(k)}))`;
    case 7: return `sstore(${v.expr(k)}, ${rng.pick(['sload', 'tload'])}(${v.expr(key())}))`; default: return `let x${i} := sload(${v.expr(k)}) sstore(${v.expr(k)}, add(x${i}, 1)) log1(0, 0, x${i})`;
  } });
  return s + v.stmt(() => `mstore(0, acc) mstore(32, sload(${v.expr(key())})) return(0, 64)`);
}
const FS = [[], ['--enable-little-endian-storage-load-store'], ['--enable-little-endian-storage-load-store', '--enable-all-optimizers'], ['--default_ret_type', 'bytes32'], ['--default_ret_type', 'bytes32', '--enable-little-endian-storage-load-store'], ['--opt-level', 'none', '--enable-little-endian-storage-load-store'], ['--disable-all-optimizers'], ['--enable-all-optimizers'], ['--debug']];
module.exports = {
  build: ['build_e2e.sh', 'build_native.sh'], native: ['store'], quickSeconds: 42, thoroughSeconds: 1200, minJobs: 24, minEvals: 400, jobs: C.jobs, level: 'exploration', stallSeconds: 60,
  rule: 'one evaluation = one history of storage, transient and immutable accesses of a compiled contract (over several transactions) compared with a map model at every host call; distinct = history x input', assumptions: ['the reference interpreter implements Yul/EVM semantics'],
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C06/${ctx.seed}/${job.n}`); const flags = rng.pick(FS);
    if (job.n % 3 === 1) { for (let i = 0; i < 3; i++) this.immutables(R, rng, ctx, rng.pick(FS)); return R; }
    const cases = []; for (let i = 0; i < 14; i++) { const v = new Vals(rng); const keys = Array.from({ length: rng.range(1, 4) }, () => rng.u256()); if (rng.bool(0.3)) keys.push(keys[0] ^ (1n << BigInt(rng.int(256)))); cases.push({ id: i, sig: 'history', keys, words: v.words, body: history(rng, v, keys, rng.pick([1, 3, 6, 12, 25])) }); for (const k in v.feat) B.bump(R, 'form:' + k, v.feat[k]); }
    C.runCases(R, ctx, cases, { flags, deploy: job.n % 6 === 5, inputs: 3, specFor: (c, t) => ({ seed: t, calldata: C.calldata(rng, c.id, c.words), storage: Object.fromEntries(c.keys.filter(() => rng.bool(0.6)).map((k) => [k, rng.u256()])) }), onModule: (p) => this.txs(R, rng, ctx, p, cases, job.n % 6 === 5) });
    return R;
  },
  // several transactions on one chain: storage stays, transient storage does not
  txs(R, rng, ctx, p, cases, deploy) {
    const ast = parse(p.src), obj = deploy ? ast : ast.subs.find((s) => s.name === 'P_deployed'); let mw = new World({ seed: 9 }), ww = new World({ seed: 9 });
    for (let i = 0; i < 4; i++) {
      const c = rng.pick(p.cases); const spec = { seed: 9, calldata: C.calldata(rng, c.id, c.words) }; mw = mw.newTx(spec); ww = ww.newTx(spec);
      const d = diffRun(p.module, obj, deploy ? 'deploy' : 'call', spec, { mworld: mw, wworld: ww }); ctx.tick(); B.bump(R, 'chained_tx');
      B.judge(R, d, { sig: 'chained', src: p.src, spec: { tx: i, case: c.id }, key: 'chain|' + c.body + i }); if (d.verdict !== 'ok') return;
      if (String([...mw.storage].sort()) !== String([...ww.storage].sort())) { R.failures.push({ sig: 'storage-state', why: 'storage differs after transaction ' + i, src: p.src }); return; }
    }
  },
  immutables(R, rng, ctx, flags) {
    const long = 'n'.repeat(rng.pick([5, 20, 26, 27, 28, 32, 33, 40, 60])); const pool = ['a', 'b', '1234', '567', '0', 'x_y', long + 'a', long + 'b', 'a' + long, 'b' + long, long, '12', '123', 'owner', 'immutable', ' ', 'é', 'É', 'a b', 'Owner', 'OWNER', 'own', 'owners', 'a ', ' a', 'A', 'B', '01', 'owner_', 'x-y', 'xy', long.toUpperCase(), long + ' ']; const names = [...new Set(Array.from({ length: rng.range(1, 6) }, () => rng.pick(pool)))]; const q = (n) => JSON.stringify(n);
    const set = names.filter(() => rng.bool(0.85)), v = new Vals(rng); const vals = set.map(() => rng.u256()); let dep = 'mstore(0x1e0, 0)\n'; const twice = rng.bool(0.15) && set.length ? rng.pick(set) : null; const keys = [rng.u256(), 0n, 1n];
    set.forEach((n, i) => { dep += v.stmt(() => { const s = `setimmutable(${rng.pick(['0', '128', 'mload(64)'])}, ${q(n)}, ${v.expr(vals[i])})`; return rng.bool(0.25) ? `if ${v.cd(1n)} { ${s} }` : s; }); if (rng.bool(0.4)) dep += v.stmt(() => `sstore(${v.expr(rng.pick(keys))}, ${v.expr(rng.u256())})`); });
    if (twice) dep += v.stmt(() => `setimmutable(0, ${q(twice)}, ${v.expr(rng.u256())})`);
    const one = (n) => rng.pick([`mstore(off, loadimmutable(${q(n)}))`, `mstore(off, idf(loadimmutable(${q(n)})))`, `let t := loadimmutable(${q(n)}) t := add(t, 0) mstore(off, t)`, `mstore(off, add(loadimmutable(${q(n)}), 1))`, `mstore(off, ld${names.indexOf(n)}())`, `if loadimmutable(${q(n)}) { mstore(off, 3) }`, `for { let i := 0 } lt(i, 2) { i := add(i, 1) } { mstore(off, xor(mload(off), add(loadimmutable(${q(n)}), i))) }`]);
    const reads = []; const seq = Array.from({ length: rng.range(1, 8) }, () => rng.pick(names)); let body = 'let off := 128\n'; for (const n of seq) { body += `{ ${one(n)} } off := add(off, 32)\n`; reads.push(n); if (rng.bool(0.3)) body += `sstore(${rng.pick(['0', '1', '7', '0x' + keys[0].toString(16)])}, off)\n`; }
    const src = `object "P" { code { ${dep} return(0, 0) function idf(a) -> r { r := a } } object "P_deployed" { code { ${body} return(128, sub(off, 128)) function idf(a) -> r { r := a } ${names.map((n, i) => `function ld${i}() -> r { r := loadimmutable(${q(n)}) }`).join(' ')} } } }`;
    const c = compile(src, flags); ctx.tick(); B.bump(R, 'programs_compiled');
    if (!c.ok) { if (c.timeout || c.spawnError) R.inconclusive.push('compile timeout'); else R.failures.push({ sig: 'compile:immutables:' + B.panicLine(c), why: B.compileWhy(c), src, spec: { flags } }); return; }
    const module = new WebAssembly.Module(c.wasm), ast = parse(src); const used = new Set([...keys, 0n, 1n, 7n].map(h64)); const filt = (e) => e.t !== 'sstore' || used.has(e.k);
    const spec = { seed: 3, calldata: C.calldata(rng, 0, v.words) }; let mw = new World(spec), ww = new World(spec); const immut = new Map(); const meta = { src, spec: { flags, names, set, vals: vals.map(String) } };
    const d = diffRun(module, ast, 'deploy', spec, { mworld: mw, wworld: ww, immutables: immut, eventFilter: filt });
    if (twice) { R.evals++; if (d.r && d.r.out.kind !== 'revert') R.failures.push(Object.assign({ sig: 'immutable-twice', why: `setting ${twice} twice: ${d.r.out.kind}` }, meta)); else { B.bump(R, 'immutable_twice_refused'); R.distinct.push('tw|' + src); } return; }
    B.judge(R, d, Object.assign({ sig: 'immutable-deploy', key: 'imd|' + src }, meta)); if (d.verdict !== 'ok') return;
    for (let i = 0; i < 2; i++) { const s2 = { seed: 3, calldata: rng.bytes(rng.int(50)) }; mw = mw.newTx(s2); ww = ww.newTx(s2); const d2 = diffRun(module, ast.subs[0], 'call', s2, { mworld: mw, wworld: ww, immutables: immut, eventFilter: filt }); B.bump(R, 'immutable_reads', reads.length); B.judge(R, d2, Object.assign({ sig: 'immutable-load', key: 'iml|' + i + src }, meta)); }
  },
};
