'use strict';
const { Rng, hex } = require('../lib/util.js'); const B = require('../lib/batch.js'); const C = require('./cases_common.js'); const { batch } = require('./fe_common.js'); const { compile } = require('../lib/compile.js'); const { parse } = require('../lib/yul.js'); const { diffRun } = require('../lib/diff.js'); const { Vals } = require('../gen/vals.js'); const { withLength } = require('../lib/interp.js'); const { Objs } = require('../gen/objects.js');
const EDGE = [0, 1, 2, 3, 4, 5, 31, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131072, 0xfffffe, 0xffffff, 0x1000000, 0x1000001];
const be = (b) => new DataView(b.buffer, b.byteOffset).getUint32(0);
// creations from memory with every relation between prefix, code and arguments
function creates(rng, i) {
  const v = new Vals(rng); const o = rng.pick([0, 96, 100, 500, 4000]); const w = rng.pick([0, 1, 2, 31, 32, 100, 255, 256, 257, rng.int(700)]), a = rng.pick([0, 0, 1, 4, 32, 64, rng.int(200)]); const total = 4 + w + a;
  const p = rng.wpick([[6, w], [1, w + 1], [1, w + a], [1, w + a + 1], [1, 0], [1, 0xffffffff], [1, 0x80000000], [1, 0x7fffffff], [1, w << 8], [1, w << 16]]) >>> 0; const len = rng.wpick([[8, total], [1, Math.max(0, total - 1)], [1, 4], [1, 3], [1, 0]]); const k2 = rng.bool();
  const fill = `for { let i := 0 } lt(i, ${Math.ceil(total / 32) * 32 + 32}) { i := add(i, 32) } { mstore(add(${o}, i), keccak256(${o}, add(i, 1))) }\n`; const pre = rng.pick([() => `mstore(${o}, or(shl(224, ${v.expr(BigInt(p))}), and(mload(${o}), ${'0x' + 'f'.repeat(56)})))`, () => [24, 16, 8, 0].map((s, j) => `mstore8(${o + j}, ${(p >>> s) & 255})`).join(' ')])();
  const call = `${k2 ? 'create2' : 'create'}(${v.expr(rng.u256())}, ${v.expr(BigInt(o))}, ${v.expr(BigInt(len))}${k2 ? ', ' + v.expr(rng.u256()) : ''})`;
  return { id: i, sig: 'create', words: v.words, body: v.take() + fill + pre + `\nlet r_ := ${call} mstore(0, r_) mstore(32, returndatasize()) return(0, 64)` };
}
module.exports = {
  build: ['build_e2e.sh', 'build_fe.sh'], quickSeconds: 45, thoroughSeconds: 900, minJobs: 24, minEvals: 500, jobs: C.jobs, level: 'exploration', stallSeconds: 90,
  rule: 'one evaluation = one byte string prefixed by the real function, one artefact read back, one creation split by compiled code or one constructor reading its arguments; distinct = contents x position', assumptions: ['the reference interpreter implements Yul/EVM semantics'],
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C24/${ctx.seed}/${job.n}`);
    if (job.n % 4 === 0) {
      const reqs = []; for (let i = 0; i < 60; i++) { const big = i === 0 ? EDGE[18 + (job.n / 4) % 4] : null; const n = big ?? rng.pick([...EDGE.slice(0, 18), rng.int(5000), rng.int(300)]); reqs.push({ mode: 'W', data: rng.bool(0.7) || n > 1e6 ? Buffer.alloc(n, rng.int(256)) : Buffer.from(rng.bytes(n)) }); }
      batch(ctx, reqs, (i, o) => { R.evals++; const b = Buffer.from(reqs[i].data), g = Buffer.from(o.out); if (o.status !== 'ok' || g.length !== b.length + 4 || g.readUInt32BE(0) !== b.length || !g.subarray(4).equals(b)) R.failures.push({ sig: 'prefix', why: `prefixing ${b.length} bytes: ${o.status}, ${g.length} bytes starting ${g.subarray(0, 8).toString('hex')}` }); else { R.distinct.push('w' + b.length + ':' + b.subarray(0, 16).toString('hex')); B.bump(R, 'prefixed_bytes', b.length); } });
      return R;
    }
    const flags = C.flagsFor(job.n, rng);
    if (job.n % 4 === 1) { const cases = Array.from({ length: 24 }, (_, i) => creates(rng, i)); C.runCases(R, ctx, cases, { flags, deploy: rng.bool(0.3), inputs: 4, specFor: (c, t) => ({ seed: `${job.n}.${c.id}.${t}`, calldata: C.calldata(rng, c.id, c.words), creates: [{ status: t % 2, ret: rng.bytes(rng.int(40)) }] }) }); return R; }
    // a contract embedding another; constructor arguments behind both
    const os = new Objs(rng); const fill = rng.bool(0.6) ? `data "pad" hex"${hex(rng.bytes(rng.bool(0.6) ? rng.pick([30000, 62000, 66000, 70000, 135000]) + rng.int(3000) : rng.range(1, 3000)))}"` : ''; const n = rng.range(1, 4), pos = rng.pick([0, 64, 4096]);
    const read = rng.pick([`codecopy(${pos}, datasize("P"), ${32 * n})`, `let s_ := datasize("P") let a_ := sub(codesize(), s_) codecopy(${pos}, s_, a_)`, `codecopy(${pos}, add(datasize("P"), 0), sub(codesize(), datasize("P")))`]);
    const mk = (name, inner, kn) => `object "${name}" { code { { ${read.replace(/"P"/g, `"${name}"`)} } for { let i := 0 } lt(i, ${n}) { i := add(i, 1) } { sstore(i, mload(add(${pos}, mul(32, i)))) } sstore(100, codesize()) sstore(101, datasize("${name}")) ${inner ? `let s_ := datasize("${kn}") datacopy(${pos}, dataoffset("${kn}"), s_) ${Array.from({ length: n }, (_, i) => `mstore(add(${pos + 32 * i}, s_), sload(${i}))`).join(' ')} sstore(102, create(0, ${pos}, add(s_, ${32 * n})))` : ''} return(0, 0) } object "${name}_deployed" { code { mstore(0, calldataload(4)) ${fill ? 'mstore(32, dataoffset("pad"))' : ''} return(0, 32) } ${fill} } ${inner || ''} }`;
    const src = mk('P', mk('Kid', rng.bool(0.5) ? os.kid('Inner').src : '', 'Inner'), 'Kid'); const c = compile(src, flags); ctx.tick(); B.bump(R, 'programs_compiled');
    if (!c.ok) { if (c.timeout || c.spawnError) R.inconclusive.push('compile'); else R.failures.push({ sig: 'compile:' + B.panicLine(c), why: B.compileWhy(c), src, spec: { flags } }); return R; }
    R.evals++; const cb = c.cbin; if (!cb || cb.length !== c.wasm.length + 4 || cb.readUInt32BE(0) !== c.wasm.length || !cb.subarray(4).equals(c.wasm)) R.failures.push({ sig: 'cbin', why: `deployable file of a module of ${c.wasm.length} bytes: ${cb ? cb.length + ' bytes, prefix ' + cb.subarray(0, 4).toString('hex') : 'missing'}`, src, spec: { flags } }); else R.distinct.push('cbin' + job.n);
    const kf = Object.keys(c.extra).find((f) => f.endsWith('_Kid.wasm')); const kid = kf && c.extra[kf]; if (!kid) { R.failures.push({ sig: 'no-module', why: 'no module of the embedded contract', src }); return R; }
    const ast = parse(src); const subBytes = (s) => (s.name === 'Kid' ? withLength(kid) : withLength(new Uint8Array()));
    for (const [mod, obj, bytes] of [[c.wasm, ast, cb], [kid, ast.subs.find((s) => s.name === 'Kid'), Buffer.from(withLength(kid))]]) for (let t = 0; t < 4; t++) {
      const args = rng.bytes(32 * n + rng.pick([0, 0, 0, 5, 40])); const spec = { seed: t, code: bytes, calldata: args };
      const d = diffRun(new WebAssembly.Module(mod), obj, 'deploy', spec, { subBytes: obj === ast ? subBytes : (s) => withLength(new Uint8Array(c.extra[Object.keys(c.extra).find((f) => f.endsWith(`_${s.name}.wasm`))] || [])) }); ctx.tick();
      if (d.verdict === 'ok' && obj === ast && d.w.events.some((e) => e.code)) { const e = d.w.events.find((x) => x.code); const b = Buffer.from(e.code, 'hex'); B.bump(R, 'created_bytes', b.length); if (be(b) !== b.length - 4) { d.verdict = 'bad'; d.why = 'created code does not carry its length'; } }
      B.judge(R, d, { sig: 'constructor', src, spec: { flags, args: hex(args) }, key: `ctor|${job.n}|${obj.name}|${t}` });
    }
    return R;
  },
};
