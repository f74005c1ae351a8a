'use strict';
// The same program under several option sets, each against the reference interpreter: random programs, and contracts in Solidity's shape over histories of transactions.
const { Rng } = require('../lib/util.js'); const B = require('../lib/batch.js'); const { Gen, inputs } = require('../gen/prog.js'); const { Contract } = require('../gen/solidity.js'); const { diffRun } = require('../lib/diff.js'); const { World } = require('../lib/world.js'); const { compile } = require('../lib/compile.js'); const { parse } = require('../lib/yul.js'); const { withLength } = require('../lib/interp.js'); const C = require('./cases_common.js'); const { Idioms } = require('../gen/idioms.js'); const { runPinned } = require('../lib/pinned.js');
function combo(rng) { // a set of options
  const f = []; const all = rng.bool(0.35), none = !all && rng.bool(0.15); if (all) f.push('--enable-all-optimizers'); if (none) f.push('--disable-all-optimizers');
  if (rng.bool(0.5)) f.push('--opt-level', rng.pick(['none', 'less', 'default', 'aggressive'])); if (rng.bool(0.35)) f.push('--enable-little-endian-storage-load-store'); if (rng.bool(0.35)) f.push('--default_ret_type', rng.pick(['bytes32', 'u256']));
  if (rng.bool(0.2)) f.push('--minify-wasm-size'); if (rng.bool(0.2)) f.push('--no-binaryen-optimize'); if (rng.bool(0.2)) f.push('--debug'); if (rng.bool(0.1)) f.push('--verbose'); return f;
}
const hexv = (s) => Buffer.from(s, 'hex'); const word = (x) => BigInt(x).toString(16).padStart(64, '0');
const cd = (...w) => new Uint8Array(hexv(w.map(word).join(''))); const obj = (code) => `object "P" { code { return(0, 0) } object "P_deployed" { code { ${code} } } }`;
const DIRTY = (1n << 200n) + 7n;
const KNOWN = [
  { sig: 'idiom: a decoded address with dirty upper bytes is not rejected', src: obj('mstore(0, abi_decode_address(0)) return(0, 32) function abi_decode_address(offset) -> value { value := calldataload(offset) if iszero(eq(value, and(value, sub(shl(160, 1), 1)))) { revert(0, 0) } }'), spec: { calldata: cd(DIRTY) }, right: 'revert ', wrong: (d) => d.startsWith('return ') },
  { sig: 'enable-all: an address mask on a variable keeps the dirty upper bytes', flags: ['--enable-all-optimizers'], src: obj('let a := calldataload(0) mstore(0, and(a, sub(shl(160, 1), 1))) return(0, 32)'), spec: { calldata: cd(DIRTY) }, right: 'return ' + word(7n), wrong: 'return ' + word(DIRTY) },
  { sig: 'enable-all: the free memory pointer is 32 bits wide', flags: ['--enable-all-optimizers'], src: obj('mstore(64, calldataload(0)) mstore(0, mload(64)) return(0, 32)'), spec: { calldata: cd((1n << 64n) + 5n) }, right: 'return ' + word((1n << 64n) + 5n), wrong: (d) => d !== 'return ' + word((1n << 64n) + 5n) },
  { sig: 'enable-all: the free memory pointer is not in memory', flags: ['--enable-all-optimizers'], src: obj('mstore(64, calldataload(32)) let p := calldataload(0) mstore(0, mload(p)) return(0, 32)'), spec: { calldata: cd(64n, 200n) }, right: 'return ' + word(200n), wrong: 'return ' + word(0n) },
  { sig: 'enable-all: storing the free memory pointer leaves msize as it was', flags: ['--enable-all-optimizers'], src: obj('mstore(64, calldataload(0)) mstore(0, msize()) return(0, 32)'), spec: { calldata: cd(200n) }, right: 'return ' + word(96n), wrong: (d) => d === 'return ' + word(0n) },
];
// names Solidity gives its helpers, some of which the compiler looks at
const NAMES = ['abi_decode_address_', 'abi_decode_t_address_', 'abi_decode_addresst_bool', 'abi_decode_tuple_t_address', 'cleanup_t_uint160_', 'allocate_memory_', 'finalize_allocation_', 'panic_error_0x', 'revert_error_', 'checked_add_t_uint', 'external_fun_', 'validator_revert_t_address_', 'read_from_storage_', 'copy_memory_', 'array_length_', 'mapping_index_access_', 'fun_', 'constructor_', 'modifier_'];
module.exports = {
  build: ['build_e2e.sh'], quickSeconds: 45, thoroughSeconds: 1800, minJobs: 20, minEvals: 400, stallSeconds: 60, level: 'exploration', KNOWN,
  rule: 'one evaluation = one transaction or entry of one program compiled under one option set, compared with the reference interpreter (outcome, data, storage, logs and calls); distinct = program x option set x input',
  assumptions: ['the reference interpreter implements Yul/EVM semantics', 'under --enable-all-optimizers the memory cell at 64 is used as Solidity uses it, and addresses are clean where they are masked (see the known findings)'],
  *jobs() { for (let n = 0; ; n++) yield { n }; },
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C19/${ctx.seed}/${job.n}`); if (job.n === 0) runPinned(R, ctx, KNOWN);
    if (job.n % 4 === 1) this.idioms(R, rng, ctx, job); else if (job.n % 3 === 2) this.programs(R, rng, ctx); else this.contracts(R, rng, ctx); return R;
  },
  compile1(R, ctx, src, flags) {
    const c = compile(src, flags); ctx.tick(); B.bump(R, 'programs_compiled'); for (const f of flags) if (f.startsWith('--')) B.bump(R, 'option:' + f);
    if (!c.ok) { if (c.timeout || c.spawnError) R.inconclusive.push('compile: ' + (c.spawnError || 'timeout')); else R.failures.push({ sig: 'compile:' + B.panicLine(c), why: B.compileWhy(c), src, spec: { flags } }); return null; }
    try { return new WebAssembly.Module(c.wasm); } catch (e) { R.failures.push({ sig: 'invalid-module', why: String(e), src, spec: { flags } }); return null; }
  },
  idioms(R, rng, ctx, job) { // around the expressions the compiler treats specially
    const id = new Idioms(rng); const cases = Array.from({ length: 30 }, (_, i) => id.one(i)); for (const k in id.feat) B.bump(R, k, id.feat[k]);
    for (const flags of [rng.bool() ? [] : combo(rng), combo(rng), ['--enable-all-optimizers', ...(rng.bool() ? ['--enable-little-endian-storage-load-store'] : []), ...(rng.bool(0.3) ? ['--default_ret_type', 'bytes32'] : [])]]) C.runCases(R, ctx, cases, { flags, deploy: false, inputs: 3, specFor: (c, t) => ({ seed: `${job.n}.${c.id}.${t}`, calldata: C.calldata(rng, c.id, t === 2 ? c.words.map((x, i) => x ^ (i ? 1n << BigInt(rng.int(256)) : 1n << BigInt(rng.int(160)))) .map((x, i) => (i === 1 && (c.words[1] >> 160n) === 0n ? x & ((1n << 160n) - 1n) : x)) : c.words), env: { callvalue: t === 1 ? 1n << BigInt(rng.int(256)) : 0n } }), diff: { hugeFault: true } });
  },
  programs(R, rng, ctx) {
    const UNITS = 6; const deploy = rng.bool(0.15); const flagSets = [[], combo(rng), combo(rng)], enableAll = flagSets.some((f) => f.includes('--enable-all-optimizers')); const g = new Gen(rng, { deploy, magic: !enableAll && rng.bool(0.2), names: rng.bool(0.6) ? NAMES.concat(enableAll ? [] : ['fun_transfer_', 'fun__transfer', 'fun_transfer']) : null }), src = g.program(UNITS); const ast = parse(src), o = deploy ? ast : ast.subs[0]; const ins = []; for (let u = 0; u < UNITS; u++) for (let t = 0; t < 8; t++) ins.push([u, t, inputs(rng, u)]);
    for (const flags of flagSets) { const m = this.compile1(R, ctx, src, flags); if (!m) continue; for (const [u, t, spec] of ins) { const d = diffRun(m, o, deploy ? 'deploy' : 'call', spec, { stepLimit: 60000, depthLimit: 60 }); ctx.tick(); B.judge(R, d, { sig: 'program-differs', src, spec: { flags, unit: u, calldata: Buffer.from(spec.calldata).toString('hex') }, key: `${src.length}|${flags.join(' ')}|${u}|${t}|${Buffer.from(spec.calldata).toString('hex')}` }); } }
  },
  contracts(R, rng, ctx) {
    const flagList = [rng.bool() ? [] : combo(rng), combo(rng), rng.bool(0.6) ? combo(rng) : ['--enable-all-optimizers', '--enable-little-endian-storage-load-store']]; const enableAll = flagList.some((f) => f.includes('--enable-all-optimizers'));
    const con = new Contract(rng, { enableAll }); const src = con.source(); con.dirtyOff = con.opt; for (const k in con.feat) B.bump(R, k, con.feat[k]); const actors = Contract.actors(rng); const ast = parse(src), run = ast.subs.find((s) => s.name === ast.name + '_deployed'); const ctor = con.ctor(actors); const txs = Array.from({ length: 30 }, () => con.tx(actors));
    for (const flags of flagList) {
      const m = this.compile1(R, ctx, src, flags); if (!m) continue; let mw = new World(ctor), ww = new World(ctor); const immut = new Map(); const isImm = (e) => e.t !== 'sstore' || !immSlots.has(e.k), immSlots = new Set(); let names = [];
      const go = (o, entry, spec, i) => {
        const st0 = new Map(mw.storage), sw0 = new Map(ww.storage); const mk = (w, s) => { const x = w.newTx(s); x.storage = new Map(w.storage); return x; }; const m1 = mk(mw, spec), w1 = mk(ww, spec); const im = new Map(immut);
        const d = diffRun(m, o, entry, spec, { mworld: m1, wworld: w1, immutables: im, subBytes: () => withLength(new Uint8Array()), stepLimit: 100000, eventFilter: con.s.owner.immut ? (e) => e.t !== 'sstore' || entry !== 'deploy' : undefined }); ctx.tick(); names.push(spec.fname || entry);
        B.judge(R, d, { sig: `contract-differs:${spec.fname || entry}`, src, spec: { flags, tx: i, calldata: Buffer.from(spec.calldata).toString('hex'), caller: String((spec.env || {}).caller), history: names.slice(-6) }, key: `${con.name}|${src.length}|${flags.join(' ')}|${i}|${Buffer.from(spec.calldata).toString('hex').slice(0, 200)}` });
        if (d.verdict !== 'ok') return d.verdict === 'skip'; if (d.m.out.kind === 'stop' || d.m.out.kind === 'return') { mw = m1; ww = w1; for (const [k, v] of im) immut.set(k, v); B.bump(R, 'tx_ok'); } else B.bump(R, 'tx_reverted'); return true;
      };
      if (!go(ast, 'deploy', ctor, -1)) continue; let ok = true;
      for (let i = 0; i < txs.length && ok; i++) ok = go(run, 'call', txs[i], i);
      if (ok && !con.s.owner.immut && String([...mw.storage].sort()) !== String([...ww.storage].sort())) R.failures.push({ sig: 'contract-storage', why: 'final storage differs', src, spec: { flags } });
      if (R.samples.length < 1) R.samples.push({ contract: con.name, flags, transactions: txs.slice(0, 6).map((t) => t.fname), style: con.opt ? 'optimised' : 'plain' });
    }
  },
};
