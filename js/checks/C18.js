'use strict';
const { Rng, hex } = require('../lib/util.js'); const B = require('../lib/batch.js'); const C = require('./cases_common.js'); const { compile, BIN } = require('../lib/compile.js'); const { read } = require('../lib/wasmbin.js'); const { SIG } = require('../lib/host.js'); const { Gen } = require('../gen/prog.js'); const { Objs } = require('../gen/objects.js'); const { show, parse } = require('../lib/yul.js');
const cp = require('child_process'), fs = require('fs'), path = require('path'); const V = path.resolve(__dirname, '../..');
const X = ['address()', 'caller()', 'callvalue()', 'calldatasize()', 'calldataload(4)', 'blockhash(number())', 'coinbase()', 'prevrandao()', 'gaslimit()', 'timestamp()', 'gas()', 'number()', 'gasprice()', 'origin()', 'basefee()', 'blobbasefee()', 'chainid()', 'balance(caller())', 'selfbalance()', 'extcodehash(caller())', 'sload(1)', 'tload(2)', 'codesize()', 'extcodesize(caller())', 'call(gas(), caller(), 0, 0, 32, 0, 32)', 'delegatecall(gas(), caller(), 0, 32, 0, 32)', 'staticcall(gas(), caller(), 0, 32, 0, 32)', 'create(0, 0, 40)', 'create2(0, 0, 40, 7)', 'returndatasize()', 'keccak256(0, 64)', 'addmod(sload(1), sload(2), sload(3))', 'mulmod(sload(1), sload(2), sload(3))', 'exp(sload(1), sload(2))', 'div(sload(1), sload(2))', 'sdiv(sload(1), sload(2))', 'mod(sload(1), 7)', 'smod(sload(1), sload(2))', 'mul(sload(1), sload(2))', 'byte(sload(1), sload(2))', 'signextend(sload(1), sload(2))', 'sar(sload(1), sload(2))', 'msize()', 'slt(sload(1), caller())'];
const ST = ['sstore(1, caller())', 'tstore(1, number())', 'calldatacopy(0, 4, 32)', 'codecopy(0, 0, 32)', 'extcodecopy(caller(), 0, 0, 32)', 'log0(0, 32)', 'log1(0, 32, caller())', 'log2(0, 32, 1, caller())', 'log3(0, 32, 1, 2, caller())', 'log4(0, 32, 1, 2, 3, caller())', 'if returndatasize() { returndatacopy(0, 0, 1) }', 'mcopy(0, 32, 32)', 'mstore8(1, caller())', 'if caller() { revert(0, 32) }', 'if caller() { return(0, 32) }', 'if caller() { selfdestruct(caller()) }', 'if caller() { invalid() }', 'if caller() { stop() }', 'pop(caller())', 'setimmutable(0, "x", caller())', 'sstore(2, loadimmutable("x"))'];
function uses(rng) { const pick = (A) => A.filter(() => rng.bool(0.4)); const body = () => rng.shuffle([...pick(X).map((e) => `sstore(${rng.int(9)}, ${e})`), ...pick(ST)]).join('\n'); const fn = (n) => `function f${n}(a) -> r { ${rng.bool() ? 'r := a' : ''} ${body()} }`; return `object "P" { code { ${body()} pop(f0(1)) ${fn(0)} } object "P_deployed" { code { ${body()} sstore(9, f0(f1(2))) ${fn(0)} ${fn(1)} } } }`; }
// what a module may import and must export
function moduleWhy(wasm, entries) {
  if (!WebAssembly.validate(wasm)) return 'not a valid wasm module'; const m = read(wasm);
  for (const i of m.imports) { if (i.kind !== 'func' || i.mod !== 'env' || !(i.name in SIG)) return `import ${i.mod}.${i.name} (${i.kind}) is not in the host interface`; if (i.type !== SIG[i.name]) return `import ${i.name} has type ${i.type}, the host interface says ${SIG[i.name]}`; }
  for (const e of entries) { const x = m.exports.find((y) => y.name === e); if (!x || x.kind !== 'func' || x.type !== ':') return `entry point ${e} ${x ? `is a ${x.kind} of type ${x.type}` : 'is not exported'}`; }
  for (const e of ['deploy', 'call']) if (!entries.includes(e) && m.exports.some((x) => x.name === e)) return `exports ${e}, which the object does not have`;
  if (!m.exports.some((x) => x.name === 'memory' && x.kind === 'memory')) return 'memory is not exported';
  return null;
}
const fileWhy = (c) => { if (!c.cbin || !c.hexf) return 'an output file is missing'; const n = c.wasm.length; if (c.cbin.length !== n + 4 || c.cbin.readUInt32BE(0) !== n || !c.cbin.subarray(4).equals(c.wasm)) return 'the deployable file is not the length and the module'; if (c.hexf.toString('latin1') !== hex(c.cbin)) return 'the hex file is not the lower-case hex of the deployable file'; return null; };
module.exports = {
  build: ['build_e2e.sh'], quickSeconds: 42, thoroughSeconds: 900, minJobs: 24, minEvals: 100, jobs: C.jobs, level: 'exploration', stallSeconds: 120,
  rule: 'one evaluation = one compilation whose files were read back (module validity, imports against the host interface, entry points, prefix, hex) and one repetition compared byte for byte; distinct = program x options',
  assumptions: ['the signatures in js/lib/host.js were taken from stdlib/hostapi.h', 'V8 decides validity of a module'],
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C18/${ctx.seed}/${job.n}`);
    for (let i = 0; i < 3; i++) {
      let src; const k = rng.int(4); if (k === 0) src = new Gen(rng, { deploy: false }).program(4); else if (k === 1) { const os = new Objs(rng); src = `object "P" { code { sstore(0, datasize("Kid")) } object "P_deployed" { code { sstore(1, datasize("a1")) } data "a1" hex"${hex(rng.bytes(40))}" } ${os.kid('Kid').src} }`; } else src = uses(rng);
      if (rng.bool(0.2)) src = src.replace(/"P(_deployed)?"/g, (m, d) => `"My_Token${d || ''}"`);
      const flags = rng.pick([...C.FLAGSETS, [], ['--opt-level', 'aggressive', '--minify-wasm-size'], ['--default_ret_type', 'bytes32', '--opt-level', 'less']]); const c = compile(src, flags); ctx.tick(); B.bump(R, 'programs_compiled');
      if (!c.ok) { if (c.timeout || c.spawnError) R.inconclusive.push('compile'); else R.failures.push({ sig: 'compile:' + B.panicLine(c), why: B.compileWhy(c), src, spec: { flags } }); continue; }
      R.evals++; const ast = parse(src); const entries = (o) => ['deploy', ...(o.subs.some((s) => s.name === o.name + '_deployed') ? ['call'] : [])];
      let why = moduleWhy(c.wasm, entries(ast)) || fileWhy(c); if (why) { R.failures.push({ sig: 'artefact', why, src, spec: { flags } }); continue; }
      for (const f of Object.keys(c.extra)) { const s = ast.subs.find((x) => f.endsWith(`_${x.name}.wasm`)); if (!s) continue; why = moduleWhy(c.extra[f], entries(s)); B.bump(R, 'nested_modules'); if (why) R.failures.push({ sig: 'nested-artefact', why: f + ': ' + why, src, spec: { flags } }); }
      for (const im of read(c.wasm).imports) B.bump(R, 'import:' + im.name);
      const reps = ctx.tier === 'thorough' ? 3 : 1; for (let t = 0; t < reps; t++) { const d = compile(src, flags); ctx.tick(); R.evals++; if (d.timeout || d.spawnError) { R.inconclusive.push('compile'); continue; } for (const x of ['wasm', 'cbin', 'hexf']) if (!d[x] || !d[x].equals(c[x])) { R.failures.push({ sig: 'not-deterministic', why: `${x} differs between two compilations (${c[x].length} and ${d[x] ? d[x].length : 'no'} bytes)`, src, spec: { flags } }); break; } for (const f in c.extra) if (!d.extra[f] || !d.extra[f].equals(c.extra[f])) R.failures.push({ sig: 'not-deterministic', why: `${f} differs between two compilations`, src, spec: { flags } }); }
      R.distinct.push(flags.join(' ') + src); if (!R.samples.length) R.samples.push({ flags, bytes: c.wasm.length, imports: read(c.wasm).imports.map((x) => x.name).join(' ') });
      if (i === 0) this.paths(R, rng, ctx, src, flags, c);
    }
    return R;
  },
  // where outputs go: new and existing directories, stale files, odd names, relative paths
  paths(R, rng, ctx, src, flags, c) {
    const d = fs.mkdtempSync(path.join(process.env.VERIF_SCRATCH || '/tmp', 'c18-')); const inp = path.join(d, rng.pick(['in.yul', 'my contract.yul', 'in', 'é.yul', 'a.b.yul'])); fs.writeFileSync(inp, src);
    const sub = rng.pick(['.', 'new', 'new/deep/er', 'with space', 'x.wasm.d']); const stem = rng.pick(['out', 'o.u.t', 'My-Contract', 'out 1']); const rel = rng.bool(); const out = rel ? path.join(sub, stem + '.wasm') : path.join(d, sub, stem + '.wasm'); const O = (e) => path.join(d, sub, stem + e);
    if (rng.bool(0.5)) { fs.mkdirSync(path.join(d, sub), { recursive: true }); if (rng.bool()) for (const e of ['.wasm', '.cbin', '.cbin.hex']) fs.writeFileSync(O(e), Buffer.alloc(400000, 0x41)); }
    const neutral = rng.bool(0.4) ? rng.pick([['--main-contract', 'Other'], ['--main-contract', 'My Token v1.2'], ['--verbose'], ['--verbose', '--main-contract', 'P'], ['--symbol', 'lib/unused.sol:Unused=0x1234567890123456789012345678901234567890']]) : []; if (neutral.length) B.bump(R, 'neutral_options');
    const r = cp.spawnSync(BIN, ['--input', inp, '--output', out, ...flags, ...neutral], { cwd: d, env: Object.assign({}, process.env, { CHAIN_IR_CLANG_RT_LIB_DIR: path.join(V, '.work/rt'), RUST_BACKTRACE: '0' }), timeout: 120000, maxBuffer: 1 << 26 }); ctx.tick(); R.evals++; B.bump(R, 'output_paths');
    const rd = (e) => { try { return fs.readFileSync(O(e)); } catch { return null; } }; const g = { wasm: rd('.wasm'), cbin: rd('.cbin'), hexf: rd('.cbin.hex') };
    if (r.error) R.inconclusive.push('compile: ' + r.error.code); else if (r.status !== 0) R.failures.push({ sig: 'path:refused', why: `output ${JSON.stringify(out)}: status ${r.status} ${String(r.stderr).slice(-300)}`, src, spec: { flags, inp, out } });
    else for (const x of ['wasm', 'cbin', 'hexf']) if (!g[x] || !g[x].equals(c[x])) { R.failures.push({ sig: 'path:content', why: `output ${JSON.stringify(out)}: ${x} ${g[x] ? 'differs from that of another output path' : 'is missing'}`, src, spec: { flags, neutral, inp, out } }); break; }
    fs.rmSync(d, { recursive: true, force: true });
  },
};
