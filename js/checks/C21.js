'use strict';
const { Rng } = require('../lib/util.js'); const B = require('../lib/batch.js'); const { diffRun } = require('../lib/diff.js'); const C = require('./cases_common.js'); const { parse } = require('../lib/yul.js'); const { compile } = require('../lib/compile.js');
const A160 = (1n << 160n) - 1n;
const BASES = ['L', 'Lib', 'lib', 'LIB', 'Lib1', 'Lib2', 'Lib10', 'contracts/Math.sol:Math', 'contracts/Math.sol:Math2', 'contracts/Math.sol', 'contracts/math.sol:Math', 'a/contracts/Math.sol:Math', 'contracts/Math.sol:Mat', 'Math', ':Math', 'node_modules/@oz/contracts-v4.8.1/utils/Strings.sol:Strings', 'src/a b.sol:X', 'x', 'xx', '0x', '1234', 'a.b', 'src/lib-é.sol:Ü', 'a:b:c', '$lib', 'P', 'P_deployed', 'address', 'l'.repeat(120), 'l'.repeat(121), 'l'.repeat(33), 'l'.repeat(32)];
const address = (rng) => { const r = rng.int(8); const v = rng.u256() & A160; return r === 0 ? v >> 32n : r === 1 ? v & ~0xffffffffn : r === 2 ? v | (0xffn << 152n) : r === 3 ? rng.pick([0n, 1n, A160, 1n << 159n, 0xffffffffn, 1n << 32n, 1n << 64n, (1n << 64n) - 1n, (1n << 128n) - 1n]) : v; };
const spell = (rng, a) => { let h = a.toString(16).padStart(40, '0'); const k = rng.int(4); if (k === 1) h = h.toUpperCase(); else if (k === 2) h = [...h].map((c) => (rng.bool() ? c.toUpperCase() : c)).join(''); return (rng.bool(0.6) ? '0x' : '') + h; };
// all the ways a symbol may be used; q is the quoted name
const USES = [
  (q) => `mstore(0, linkersymbol(${q}))`, (q) => `let a := linkersymbol(${q}) mstore(0, a)`, (q) => `mstore(0, idf(linkersymbol(${q})))`, (q) => `let a := linkersymbol(${q}) let b := a sstore(1, a) mstore(0, idf(b)) mstore(32, a) return(0, 64)`, (q) => `if eq(linkersymbol(${q}), calldataload(36)) { mstore(0, 7) return(0, 32) } mstore(0, 9)`,
  (q) => `mstore(0, call(gas(), linkersymbol(${q}), 0, 0, 0, 0, 0))`, (q) => `mstore(0, delegatecall(gas(), linkersymbol(${q}), 0, 4, 0, 32))`, (q) => `let a := linkersymbol(${q}) let s := delegatecall(gas(), a, 0, 4, 0, 0) mstore(0, add(s, a))`, (q) => `let a if calldataload(36) { a := linkersymbol(${q}) } mstore(0, a)`, (q) => `let a := linkersymbol(${q}) a := add(a, 1) mstore(0, a)`,
  (q) => `sstore(linkersymbol(${q}), 5) mstore(0, shl(96, linkersymbol(${q})))`, (q) => `let a := linkersymbol(${q}) { let b := linkersymbol(${q}) mstore(0, add(a, b)) }`, (q) => `switch linkersymbol(${q}) case 0 { mstore(0, 1) } default { mstore(0, 2) }`, (q) => `log2(0, 0, linkersymbol(${q}), 3) mstore(0, extcodesize(linkersymbol(${q})))`, (q) => `for { let a := linkersymbol(${q}) } a { a := 0 } { mstore(0, a) }`, (q) => `mstore(0, slt(linkersymbol(${q}), 0)) mstore(32, not(linkersymbol(${q}))) return(0, 64)`, (q) => `let unused := linkersymbol(${q}) let a := linkersymbol(${q}) mstore(0, sub(0, a))`,
  (q) => `let unused := linkersymbol(${q}) unused := 5 mstore(0, 3)`, (q) => `let u := linkersymbol(${q}) if calldataload(36) { u := calldataload(36) } mstore(0, 2)`, (q) => `{ let a := linkersymbol(${q}) } { let a := calldataload(36) mstore(0, a) a := linkersymbol(${q}) }`, (q) => `let a := linkersymbol(${q}) a := linkersymbol(${q}) mstore(0, a)`, (q) => `for { let i := 0 let a := linkersymbol(${q}) } lt(i, 3) { i := add(i, 1) a := i } { mstore(0, i) }`,
];
const q = (s) => '"' + s + '"';
module.exports = {
  build: ['build_e2e.sh'], quickSeconds: 40, thoroughSeconds: 900, minJobs: 20, minEvals: 300, jobs: C.jobs, level: 'exploration', stallSeconds: 60,
  rule: 'one evaluation = one use of a linker symbol in a compiled contract compared with the address given for that very name among many similar names, or one command line that has to be refused; distinct = use x symbol table', assumptions: [],
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C21/${ctx.seed}/${job.n}`); const flags = C.flagsFor(job.n, rng);
    const names = [...new Set(Array.from({ length: rng.pick([1, 2, 5, 9, 14]) }, () => rng.pick(BASES)))], given = names.filter(() => rng.bool(0.85)); const ignore = rng.bool(0.4); const usable = ignore ? names : given; if (!usable.length) return R;
    const table = {}, args = []; for (const n of given) { const a = address(rng); table[n] = a; args.push('--symbol', n + '=' + spell(rng, a)); } if (rng.bool(0.5)) for (const n of BASES) if (!names.includes(n) && rng.bool(0.3)) args.push('--symbol', n + '=' + spell(rng, address(rng))); // symbols nobody asks for
    for (const n of names) if (table[n] === undefined) table[n] = A160; if (ignore) args.push('--ignore-unknown-linker-library');
    const cases = []; for (let i = 0; i < 12; i++) { const n = rng.pick(usable), u = rng.pick(USES); B.bump(R, given.includes(n) ? 'given' : 'unknown-ignored'); cases.push({ id: i, sig: 'use', name: n, body: u(q(n)), words: [rng.bool(0.6) ? table[n] : rng.u256()] }); }
    const two = job.n % 3 === 1, fl = [...flags, ...args];
    const P = (cs) => { const a = C.program(cs, { deploy: true }); return two ? a.replace(/\}\s*$/, '') + ' ' + a.replace('object "P"', 'object "P_deployed"') + ' }' : job.n % 3 ? a : `object "P" { code { return(0, 0) } ${a.replace('object "P"', 'object "P_deployed"')} }`; };
    for (const p of B.flatten(B.compileCases(R, cases, P, fl, ctx.tick))) { const ast = parse(P(p.cases)); for (const c of p.cases) for (let t = 0; t < 2; t++) for (const entry of two ? ['call', 'deploy'] : job.n % 3 ? ['deploy'] : ['call']) {
      const spec = { seed: t, calldata: C.calldata(rng, c.id, c.words) }; const d = diffRun(p.module, entry === 'deploy' ? ast : ast.subs[0], entry, spec, { symbols: table }); ctx.tick();
      B.judge(R, d, { sig: 'use', src: P([c]), spec: { flags: fl, entry, symbol: c.name, want: table[c.name] }, detail: c.body, key: entry + c.body + JSON.stringify(args) + t });
      if (!R.samples.length) R.samples.push({ symbol: c.name, address: table[c.name].toString(16), use: c.body, args });
    } }
    for (let k = 0; k < 3; k++) this.refused(R, rng, ctx);
    return R;
  },
  // no address, another name's address, or no address at all: the build has to fail and leave nothing behind
  refused(R, rng, ctx) {
    const n = rng.pick(BASES), others = BASES.filter((x) => x !== n && rng.bool(0.3)); const args = []; for (const o of others) args.push('--symbol', o + '=' + spell(rng, address(rng))); let kind;
    if (rng.bool(0.5)) kind = 'missing'; else {
      kind = 'malformed'; const h = (address(rng) | (1n << 159n)).toString(16); const bad = rng.pick(['', '0x', 'zz' + h.slice(2), h.slice(0, 39) + 'g', '0x' + h + '00', h + '0', '0x' + h + h, h.slice(0, 20) + ' ' + h.slice(20), '-' + h.slice(1), '0x' + h.slice(0, 38) + '_1', 'L', '0x-1', '0x0x' + h.slice(4), h.slice(0, 38) + '..', '\u0661'.repeat(20)]); args.splice(2 * rng.int(others.length + 1), 0, '--symbol', n + '=' + bad); if (rng.bool(0.4)) args.push('--ignore-unknown-linker-library');
    }
    const use = rng.pick(USES.slice(0, 8))(q(n)); const src = C.program([{ id: 0, body: use }], { deploy: rng.bool() }); const c = compile(src, args); ctx.tick(); R.evals++; B.bump(R, 'refused:' + kind); R.distinct.push(kind + use + JSON.stringify(args));
    const left = [c.wasm, c.cbin, c.hexf].some(Boolean) || Object.keys(c.extra).length;
    if (c.timeout || c.spawnError) { R.inconclusive.push('compile timeout'); return; }
    if (c.status === 0) R.failures.push({ sig: kind + ' accepted', why: `the compiler accepted ${kind} symbol ${n}: ${args.join(' ')}`.slice(0, 500), src, spec: { flags: args }, detail: use });
    else if (left) R.failures.push({ sig: kind + ' leaves output', why: 'output although the build failed', src, spec: { flags: args } });
    else if (c.signal) R.failures.push({ sig: kind + ' crash', why: 'ended by ' + c.signal, src, spec: { flags: args } });
  },
};
