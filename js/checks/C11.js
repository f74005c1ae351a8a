'use strict';
// Token contracts whose transfer the compiler may replace by its own, over histories of transfers; and near misses, which must be refused or behave as written.
const { Rng, toBytes, h64, M256 } = require('../lib/util.js'); const B = require('../lib/batch.js'); const { diffRun } = require('../lib/diff.js'); const { World } = require('../lib/world.js'); const { compile } = require('../lib/compile.js'); const { parse } = require('../lib/yul.js'); const { withLength } = require('../lib/interp.js'); const { keccak256 } = require('../lib/keccak.js'); const { runPinned } = require('../lib/pinned.js');
const TOPIC = 'ddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef', A160 = (1n << 160n) - 1n;
const slotOf = (a) => BigInt('0x' + Buffer.from(keccak256(Buffer.concat([toBytes(a), toBytes(0n)]))).toString('hex'));
const z = (r) => r.pick(['0', '0x00', '0x0', '0']), s32 = (r) => r.pick(['0x20', '32']), s64 = (r) => r.pick(['0x40', '64']), TOP = (r) => (r.bool(0.8) ? '0x' + TOPIC : BigInt('0x' + TOPIC).toString());
// the standard routine, with one change if `near` says so
function transferFn(r, name, near) {
  const [f, t, v] = r.pick([['var_from', 'var_to', 'var_value'], ['var_from_1', 'var_to_2', 'var_value_3'], ['a', 'b', 'c'], ['var_sender', 'var_recipient', 'var_amount']]); const ds = r.pick(['dataSlot', 'dataSlot_1', '_7']), m = r.pick(['_8', '_9', 'mp']); const N = (k) => near === k;
  const err = (sel, sh) => (r.bool() ? `{ mstore(${z(r)}, shl(${sh}, ${sel})) mstore(4, ${z(r)}) revert(${z(r)}, 36) }` : `{ let _3 := mload(64) mstore(_3, shl(${sh}, ${sel})) mstore(add(_3, 4), 0x00) revert(_3, 36) }`);
  const slot = N('slot') ? r.pick(['1', '5', '0x33']) : z(r); const st = [
    `let _1 := ${N('mask') ? 'sub(shl(152, 1), 1)' : 'sub(shl(160, 1), 1)'}`, `let _2 := and(${N('swap') ? t : f}, _1)`, `if iszero(_2) ${err('0x4b637e8f', 225)}`, `let _4 := and(${N('swap') ? f : t}, _1)`, `if iszero(_4) ${err('0xec442f05', 224)}`,
    `mstore(${z(r)}, _2)`, `mstore(${s32(r)}, ${slot})`, `let _6 := sload(keccak256(${z(r)}, ${s64(r)}))`,
    `if ${N('compare') ? `gt(${v}, add(_6, 1))` : `lt(_6, ${v})`} { mstore(0, shl(226, 0x391434e3)) mstore(4, _2) mstore(36, _6) mstore(68, ${v}) revert(0, 100) }`,
    `mstore(${z(r)}, _2)`, `mstore(${s32(r)}, ${slot})`, `sstore(keccak256(${z(r)}, ${s64(r)}), ${N('checked') ? `chk_sub(_6, ${v})` : `sub(_6, ${v})`})`, `mstore(${z(r)}, ${N('burn') ? '_2' : '_4'})`, `let ${ds} := keccak256(${z(r)}, ${s64(r)})`,
    `sstore(${ds}, ${N('checkedadd') ? `chk_add(sload(${ds}), ${v})` : N('fee') ? `add(sload(${ds}), sub(${v}, shr(4, ${v})))` : `add(sload(${ds}), ${v})`})`, `let ${m} := mload(${s64(r)})`, `mstore(${m}, ${N('logdata') ? `not(${v})` : v})`, `log3(${m}, ${s32(r)}, ${N('topic') ? '0x' + '8c5be1e5ebec7d5bd14f71427d1e84f3dd0314c0f7b2291e5b200ac8c7c3b925' : TOP(r)}, ${N('topics') ? '_4, _2' : '_2, _4'})`];
  if (N('extra')) st.push(r.pick(['sstore(77, 1)', 'log1(0, 0, 7)', 'if eq(_2, _4) { revert(0, 0) }'])); if (N('ret')) st.push('ok := 1');
  return `function ${name}(${f}, ${t}, ${v}) ${N('ret') ? '-> ok ' : ''}{\n${st.join('\n')}\n}`;
}
function source(r, o) {
  const fn = r.pick(['fun_transfer', 'fun__transfer']), name = (o.nearName ? 'Coin' : r.pick(['Token', 'MyToken', 'ERC20', 'SimpleERC20_12', 'GLDToken_33', 'TokenVault'])) + (r.bool(0.3) ? '_' + r.int(99) : ''); const call = (a, b, c) => (o.near === 'ret' ? `pop(${fn}(${a}, ${b}, ${c}))` : `${fn}(${a}, ${b}, ${c})`);
  const arg = (k) => { const e = `calldataload(${4 + 32 * k})`; return r.pick([e, e, `id(${e})`, `xor(not(0), not(${e}))`]); };
  const cases = [`case 0 { let to := ${arg(0)} let v := ${arg(1)} ${call('caller()', 'to', 'v')} mstore(0, 1) return(0, 32) }`, `case 1 { ${call(arg(0), arg(1), arg(2))} mstore(0, 1) return(0, 32) }`, `case 2 { mstore(0, ${arg(0)}) mstore(0x20, 0) mstore(0, sload(keccak256(0, 0x40))) return(0, 32) }`,
    `case 3 { let a := ${arg(0)} let b := ${arg(1)} let c := ${arg(2)} ${call('a', 'b', 'c')} ${call('b', 'a', 'c')} ${call('a', 'b', 'shr(1, c)')} mstore(0, add(a, add(b, c))) return(0, 32) }`, `case 4 { for { let i := 0 } lt(i, 3) { i := add(i, 1) } { ${call('caller()', 'calldataload(add(4, shl(5, i)))', 'calldataload(100)')} } stop() }`,
    `case 5 { mstore(0, ${arg(0)}) mstore(0x20, 0) let d := keccak256(0, 0x40) sstore(d, ${arg(1)}) stop() }`, `case 6 { let w := address() ${call('caller()', 'w', '7')} ${r.bool() ? call('caller()', 'w', '0x0100000000') : ''} return(0, 0) }`, `case 7 { if lt(${arg(2)}, 100) { inner(${arg(0)}, ${arg(1)}, ${arg(2)}) } log0(0, 0) stop() }`];
  const run = `mstore(64, memoryguard(0x80)) switch shr(224, calldataload(0))\n${cases.join('\n')}\ndefault { revert(0, 0) }\nfunction id(x) -> y { y := x }\nfunction chk_add(x, y) -> s { s := add(x, y) if gt(x, s) { revert(0, 0) } }\nfunction chk_sub(x, y) -> s { s := sub(x, y) if gt(s, x) { revert(0, 0) } }\nfunction inner(p, q, n) { ${call('p', 'q', 'n')} }\n${transferFn(r, fn, o.near)}`;
  return { name, src: o.deploy ? `object "${name}" { code { ${run} } }` : `object "${name}" { code { return(0, 0) } object "${name}_deployed" { code { ${run} } } }` };
}
const NEAR = ['slot', 'mask', 'swap', 'compare', 'checked', 'checkedadd', 'burn', 'fee', 'logdata', 'topic', 'topics', 'extra', 'ret'];
const REFUSE = /fun_transfer is not a standard ERC20 implementation/;
const cdw = (n, ...w) => new Uint8Array(Buffer.from(n.toString(16).padStart(8, '0') + w.map((x) => BigInt(x).toString(16).padStart(64, '0')).join(''), 'hex'));
const std = (short) => { const r = new Rng('pinned'); const s = source(r, {}).src; return s.replace(/(if lt\(_6, \w+\)) \{[\s\S]*?revert\(0, 100\) \}/, '$1 { revert(0, 0) }'); };
const KNOWN = [{ sig: 'optimised transfer: the error data of the replaced routine is not its own', src: std(), flags: ['--enable-all-optimizers', '--enable-little-endian-storage-load-store'], spec: { calldata: cdw(1, 5n, 6n, 7n) }, right: 'revert ', wrong: 'revert e450d38c' + h64(5n) + h64(0n) + h64(7n) }];
module.exports = {
  build: ['build_e2e.sh', 'build_native.sh'], native: ['erc'], quickSeconds: 42, thoroughSeconds: 1200, minJobs: 20, minEvals: 400, stallSeconds: 60, level: 'exploration', KNOWN,
  rule: 'one evaluation = one transaction in a history of transfers of a compiled token, compared with the reference interpreter running the written routine (outcome, data, storage, events), then checked for conservation and for a single event; distinct = program x options x transaction',
  assumptions: ['the reference interpreter implements Yul/EVM semantics', 'memory below 0x40 is scratch space to the caller of the routine, as in Solidity'],
  *jobs() { for (let n = 0; ; n++) yield { n }; },
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C11/${ctx.seed}/${job.n}`); if (job.n === 0) runPinned(R, ctx, KNOWN);
    for (let i = 0; i < 2; i++) this.one(R, rng, ctx, rng.wpick([[6, 'opt'], [2, 'plain'], [3, 'near']])); return R;
  },
  one(R, rng, ctx, mode) {
    const near = mode === 'near' ? rng.pick(NEAR) : null, nearName = mode === 'near' && rng.bool(0.1); const { name, src } = source(rng, { near: nearName ? null : near, nearName, deploy: rng.bool(0.15) }); const deploy = !/_deployed"/.test(src);
    const flags = []; if (mode !== 'plain') flags.push('--enable-all-optimizers', '--enable-little-endian-storage-load-store'); else if (rng.bool()) flags.push('--enable-little-endian-storage-load-store'); if (rng.bool(0.3)) flags.push('--opt-level', rng.pick(['none', 'less', 'aggressive'])); if (rng.bool(0.25)) flags.push('--default_ret_type', 'bytes32'); if (rng.bool(0.15)) flags.push('--minify-wasm-size'); if (rng.bool(0.1)) flags.push('--no-binaryen-optimize'); if (rng.bool(0.1)) flags.push('--debug');
    const c = compile(src, flags); ctx.tick(); B.bump(R, 'mode:' + mode); if (near && !nearName) B.bump(R, 'near:' + near);
    if (!c.ok) { if (c.timeout || c.spawnError) R.inconclusive.push('compile: ' + (c.spawnError || 'timeout')); else if (mode === 'near' && REFUSE.test(c.stderr)) { R.evals++; B.bump(R, 'near_refused'); R.distinct.push('refused|' + near + src.length); } else R.failures.push({ sig: 'compile:' + B.panicLine(c), why: B.compileWhy(c), src, spec: { flags } }); return; }
    const m = new WebAssembly.Module(c.wasm), ast = parse(src), o = deploy ? ast : ast.subs[0]; const entry = deploy ? 'deploy' : 'call';
    const acc = [1n, A160, 1n << 159n, 1n << 128n, 1n << 127n, 0xffn << 152n, rng.u256() & A160, rng.u256() & A160, 1n << BigInt(rng.int(160)), 1n << 32n, 1n << 31n]; const actors = rng.shuffle(acc).slice(0, 4); const self = actors[0];
    const spec0 = { seed: 8, env: { address: rng.bool() ? self : rng.u256() & A160 } }; let mw = new World(spec0), ww = new World(spec0); const all = () => [...new Set(actors.concat([spec0.env.address & A160]))]; const extreme = () => rng.pick([0n, 1n, 5n, 1000n, M256, 1n << 255n, (1n << 64n) - 1n, 1n << 64n, 1n << 128n, (1n << 128n) - 1n, rng.u256(), rng.u256() >> BigInt(rng.int(255))]);
    for (const a of actors) { const v = extreme(); mw.storage.set(h64(slotOf(a)), v); ww.storage.set(h64(slotOf(a)), v); }
    const bal = (w, a) => w.storage.get(h64(slotOf(a))) ?? 0n; const hist = [];
    for (let i = 0; i < 24; i++) {
      const dirty = () => (rng.bool(0.12) ? (rng.u256() >> 160n) << 160n : 0n); const who = () => (rng.bool(0.08) ? 0n : rng.pick(actors)); const from = who(), to = rng.bool(0.15) ? from : who(); const caller = rng.bool(0.95) ? rng.pick(actors) : 0n;
      const op = rng.wpick([[4, 0], [6, 1], [1, 2], [2, 3], [1, 4], [1, 5], [1, 6], [1, 7]]); const src0 = op === 0 || op === 4 || op === 6 ? caller : from; const b = bal(mw, src0); const val = rng.pick([() => b, () => (b + 1n) & M256, () => (b ? b - 1n : 0n), () => b >> 1n, () => b ^ (1n << BigInt(rng.int(256))), () => extreme(), () => 0n, () => BigInt(rng.int(10)), () => BigInt(rng.int(99))])();
      const w = op === 0 ? [to | dirty(), val] : op === 2 ? [from] : op === 4 ? [to, who(), from, val >> 2n] : op === 5 ? [from, extreme()] : [from | dirty(), to | dirty(), val];
      const spec = { seed: 8, env: { caller, address: spec0.env.address }, calldata: cdw(op, ...w) }; const mk = (W) => { const x = W.newTx(spec); x.storage = new Map(W.storage); return x; }; const m1 = mk(mw), w1 = mk(ww);
      const before = all().reduce((s, a) => s + bal(ww, a), 0n); hist.push(op);
      const d = diffRun(m, o, entry, spec, { mworld: m1, wworld: w1, subBytes: () => withLength(new Uint8Array()), stepLimit: 100000 }); ctx.tick();
      if (d.verdict === 'ok' && mode === 'opt') { // on the compiled side alone
        const done = d.r.out.kind === 'return' || d.r.out.kind === 'stop', logs = w1.events.filter((e) => e.t === 'log' && e.topics[0] === TOPIC); let why = null;
        if (!done && op <= 1 && w1.events.length) why = 'a refused transfer left effects'; if (done && op <= 1) { if (logs.length !== 1) why = `${logs.length} transfer events`; else if (logs[0].topics.length !== 3 || BigInt('0x' + logs[0].topics[1]) !== src0 || BigInt('0x' + logs[0].topics[2]) !== to || logs[0].data !== h64(val)) why = 'event ' + JSON.stringify(logs[0]); if (src0 === 0n || to === 0n || val > b) why = 'a transfer that must be refused succeeded'; }
        if (done && op !== 5) { const after = all().reduce((s, a) => s + bal(w1, a), 0n); if (BigInt.asUintN(256, after) !== BigInt.asUintN(256, before)) why = 'the sum of the balances changed'; else B.bump(R, 'conserved'); }
        if (why) { d.verdict = 'bad'; d.why = why; }
      }
      B.judge(R, d, { sig: `${mode === 'near' ? 'near:' + (nearName ? 'name' : near) : mode}:op${op}`, src, spec: { flags, tx: i, hist: hist.slice(-5), words: w.map(String), caller: String(caller) }, key: `${src.length}|${flags.join(' ')}|${op}|${w.join()}|${caller}|${b}` });
      if (d.verdict !== 'ok') return; if (d.m.out.kind === 'stop' || d.m.out.kind === 'return') { mw = m1; ww = w1; B.bump(R, 'committed'); if (src0 === to && op <= 1) B.bump(R, 'self_transfer'); } else B.bump(R, 'refused:' + d.m.out.data.slice(0, 8));
    }
    if (R.samples.length < 1) R.samples.push({ module: name, mode, flags, history: hist, final: all().map((a) => bal(ww, a).toString()) });
  },
};
