'use strict';
const { Rng, toBytes } = require('../lib/util.js'); const B = require('../lib/batch.js'); const C = require('./cases_common.js'); const { Objs } = require('../gen/objects.js'); const { compile } = require('../lib/compile.js'); const { parse } = require('../lib/yul.js'); const { diffRun } = require('../lib/diff.js'); const { inputs } = require('../gen/prog.js');
const { withLength: prefix } = require('../lib/interp.js');
// statements over one segment; n = its size including the prefix
function segBody(r, s, rd) {
  const o = `dataoffset("${s.name}")`, z = `datasize("${s.name}")`; const cp = r.pick(['datacopy', 'datacopy', 'codecopy']); const d = r.pick([0, 0, 1, 31, 128, 500, 9000]);
  const k = r.int(s.n), l = r.pick([0, 1, s.n - k, Math.min(32, s.n - k), r.int(s.n - k + 1)]);
  return r.pick([
    () => `${cp}(${d}, ${o}, ${z}) return(${d}, ${z})`, () => `${cp}(${d}, ${o}, ${z}) mstore(0, keccak256(${d}, ${z})) return(0, 32)`, () => `mstore(0, ${z}) return(0, 32)`,
    () => `mstore(${d + l}, not(0)) ${cp}(${d}, add(${o}, ${k}), ${l}) return(${d}, ${l + 32})`, () => `let o_ := ${o} let z_ := ${z} mstore(${r.pick([64, 5000, 70000, 200000])}, 7) ${cp}(${d}, o_, z_) return(${d}, z_)`,
    () => `cpf(${d}, ${o}, ${z}) return(${d}, ${z})`, () => `cpf(${d}, add(${o}, ${k}), ${l}) mstore(0, keccak256(${d}, add(${l}, 5))) return(0, 32)`, () => `let z_ := ${z} ${cp}(0x80, ${o}, z_) sstore(1, keccak256(0x80, z_)) ${rd ? `log1(0x80, z_, ${rd})` : ''} return(0x80, z_)`,
    () => `${cp}(0, ${o}, ${z}) ${cp}(sub(${z}, 1), ${o}, ${z}) return(0, sub(mul(2, ${z}), 1))`, () => `mstore(0, sub(add(${o}, ${z}), ${o})) return(0, 32)`, () => `${cp}(${d}, ${o}, 4) mstore(0, shr(224, mload(${d}))) return(0, 32)`,
  ])();
}
const HELP = 'function cpf(a, b, c) { datacopy(a, b, c) }';
module.exports = {
  build: ['build_e2e.sh'], quickSeconds: 42, thoroughSeconds: 1200, minJobs: 24, minEvals: 300, jobs: C.jobs, level: 'exploration', stallSeconds: 90,
  rule: 'one evaluation = one read of a data segment or embedded contract by compiled code, one creation, or one run of an embedded contract, compared with the source bytes / the reference interpreter; distinct = object layout x statement x input',
  assumptions: ['the reference interpreter implements Yul/EVM semantics', 'the module file the compiler writes for a nested contract identifies it; it is compared with what is embedded and its behaviour with its own object'],
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C17/${ctx.seed}/${job.n}`); const flags = C.flagsFor(job.n, rng); const kids = job.n % 2 === 0; const os = new Objs(rng, { big: job.n % 4 === 1 ? 0.4 : 0.02 });
    // P and P_deployed each have their own segments and contracts
    const mk = () => { const taken = new Set(), S = Array.from({ length: rng.range(kids ? 0 : 1, 6) }, () => os.seg(taken)); const K = kids ? Array.from({ length: rng.range(1, 2) }, () => { let n; do n = rng.pick(['C', 'Child', 'Tok', 'K_1', 'D.e', 'Q_deployed', 'C_deployed_2', 'P_', 'P2_deployed', 'PQ_deployed', 'AP_deployed', 'p_deployed']); while (taken.has(n)); taken.add(n); return os.kid(n); }) : []; return { S, K }; };
    const top = mk(), dep = mk(); if (kids && rng.bool()) (rng.bool() ? top : dep).K = [];
    if (kids) for (const k of dep.K) if (top.K.some((x) => x.name === k.name)) k.src = top.K.find((x) => x.name === k.name).src;
    const bodies = (o, base) => { const L = []; for (const s of o.S) for (let i = 0; i < 3; i++) L.push({ t: 'seg', body: segBody(rng, s, rng.int(99)) });
      for (const k of o.K) { const n = k.name; const mem = rng.pick([0, 0x80, 1000]); const args = rng.int(3); const put = Array.from({ length: args }, (_, i) => `mstore(add(${mem}, add(s_, ${32 * i})), ${rng.pick(['calldataload(36)', rng.u256().toString(), 'caller()'])})`).join(' '); const L32 = `add(s_, ${32 * args})`;
        for (let i = 0; i < 3; i++) L.push({ t: 'create', body: `let s_ := datasize("${n}") datacopy(${mem}, dataoffset("${n}"), s_) ${put} ${rng.pick([`sstore(5, create(callvalue(), ${mem}, ${L32}))`, `let a_ := create2(0, ${mem}, ${L32}, calldataload(36)) if iszero(a_) { returndatacopy(0, 0, returndatasize()) revert(0, returndatasize()) } sstore(a_, 1)`])} mstore(0, s_)` });
        L.push({ t: 'seg', body: `mstore(0, datasize("${n}"))` }, { t: 'seg', body: `let z_ := datasize("${n}") datacopy(0, dataoffset("${n}"), z_) mstore(0, keccak256(0, z_))` }, { t: 'seg', body: `mstore(0, 0) datacopy(${rng.int(29)}, dataoffset("${n}"), 4)` }); }
      return L.map((c, i) => Object.assign(c, { id: base + i })); };
    const bt = bodies(top, 0), bd = bodies(dep, 0); const code = (L) => `{ switch shr(224, shl(32, calldataload(0))) ${L.map((c) => `case ${c.id} { t${c.id}() }`).join('\n')} default { revert(0, 0) }\n${L.map((c) => `function t${c.id}() { ${c.body} return(0, 32) }`).join('\n')} ${HELP} }`;
    const segs = (o, extra) => rng.shuffle([...o.S.map((s) => s.src), ...o.K.map((k) => k.src), ...(extra ? [extra] : [])]).join('\n');
    let src = `object "P" { code ${code(bt)}\n${segs(top, `object "P_deployed" { code ${code(bd)}\n${segs(dep)} }`)} }`;
    const top_name = rng.bool(0.75) ? 'P' : rng.pick(['Deployed', 'A_deployed_b', 'P.1', 'z$', 'deployed', 'K_2', 'ERC20_42']); src = src.replace(/"P(2_deployed|Q_deployed|_deployed)?"/g, (m, d) => `"${top_name}${d || ''}"`).replace(/"AP_deployed"/g, `"A${top_name}_deployed"`); const TD = top_name + '_deployed'; for (const o of [top, dep]) for (const k of o.K) k.name = k.name.replace(/^P(?=2_|Q_)/, top_name).replace(/^AP_/, 'A' + top_name + '_');
    const c = compile(src, flags); ctx.tick(); B.bump(R, 'programs_compiled'); for (const k in os.feat) B.bump(R, k, os.feat[k]);
    if (!c.ok) { if (c.timeout || c.spawnError) R.inconclusive.push('compile: ' + (c.spawnError || 'timeout')); else R.failures.push({ sig: 'compile:' + B.panicLine(c), why: B.compileWhy(c), src, spec: { flags } }); return R; }
    let module; try { module = new WebAssembly.Module(c.wasm); } catch (e) { R.failures.push({ sig: 'invalid-module', why: String(e), src, spec: { flags } }); return R; }
    const ast = parse(src), D = ast.subs.find((s) => s.name === TD);
    const fileOf = (n) => { const f = Object.keys(c.extra).find((x) => x.endsWith(`_${n}.wasm`)); return f ? c.extra[f] : null; };
    const subBytes = (s) => (s.name === TD ? prefix(new Uint8Array()) : (() => { const b = fileOf(s.name); return b ? prefix(b) : null; })());
    for (const [obj, entry, L] of [[ast, 'deploy', bt], [D, 'call', bd]]) for (const cs of L) for (let t = 0; t < (cs.t === 'create' ? 2 : 1); t++) {
      const spec = { seed: `${job.n}.${cs.id}.${t}`, calldata: C.calldata(rng, cs.id, [rng.u256()]), creates: Array.from({ length: 2 }, () => ({ status: rng.wpick([[3, 0], [1, 1]]), ret: rng.bytes(rng.pick([0, 4, 36])) })), env: { callvalue: rng.u256() >> 190n } };
      const d = diffRun(module, obj, entry, spec, { subBytes }); ctx.tick(); B.bump(R, 'read:' + cs.t);
      B.judge(R, d, { sig: cs.t, src, spec: { flags, entry, case: cs.id, body: cs.body }, detail: cs.body, key: cs.t + '|' + cs.body + '|' + job.n + '|' + t });
      if (!R.samples.length && cs.t === 'create' && d.verdict === 'ok') R.samples.push({ body: cs.body, code_bytes: (d.w.events.find((e) => e.code) || { code: '' }).code.length / 2 });
    }
    for (const o of [ast, D]) for (const k of o.subs) if (k.k !== 'data' && k.name !== TD) { // each embedded contract behaves as its own object
      const w = fileOf(k.name); if (!w) { R.failures.push({ sig: 'no-module', why: 'no module for nested contract ' + k.name, src, spec: { flags } }); continue; }
      let m; try { m = new WebAssembly.Module(w); } catch (e) { R.failures.push({ sig: 'invalid-nested', why: String(e), src, spec: { flags } }); continue; }
      for (const [obj, entry] of [[k, k.name.endsWith('_deployed') ? 'call' : 'deploy'], [k.subs.find((s) => s.name === k.name + '_deployed'), 'call']]) if (obj) for (let t = 0; t < 4; t++) { const spec = inputs(rng, t % 2); const d = diffRun(m, obj, entry, spec, { stepLimit: 60000, depthLimit: 60, subBytes: () => prefix(new Uint8Array()) }); ctx.tick(); B.bump(R, 'nested:' + entry); B.judge(R, d, { sig: 'nested-' + entry, src, spec: { flags, kid: k.name, calldata: Buffer.from(spec.calldata).toString('hex') }, key: `nested|${job.n}|${k.name}|${entry}|${t}` }); }
    }
    return R;
  },
};
