'use strict';
// node js/tools/reduce.js replay.json : shrinks the failing program of a replay file (development aid, not part of a check).
const fs = require('fs'), os = require('os'), path = require('path'), cp = require('child_process');
const { parse, show } = require('../lib/yul.js'); const { diffRun } = require('../lib/diff.js');
const V = path.resolve(__dirname, '../..'), BIN = path.join(V, 'e2e/target/release/yul2wasm');
const j = JSON.parse(fs.readFileSync(process.argv[2])); const sp = j.spec || {}; const flags = sp.flags || [];
const big = (o) => Object.fromEntries(Object.entries(o || {}).map(([k, v]) => [k, BigInt(v)]));
const mk = () => ({ seed: sp.seed, calldata: new Uint8Array(Buffer.from(sp.calldata || '', 'hex')), storage: big(sp.storage), env: big(sp.env), calls: sp.calls });
const kind = (w) => String(w).replace(/0x[0-9a-f]*/g, '').slice(0, Number(process.env.KLEN || 40));
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'red-'));
let n = 0, tests = 0, last = null;
async function bad(ast) { // true when it fails the same way
  tests++; const src = show(ast); const b = path.join(dir, 'c' + n++); fs.writeFileSync(b + '.yul', src);
  const r = await new Promise((res) => cp.execFile(BIN, ['--input', b + '.yul', '--output', b + '.wasm', ...flags], { timeout: 20000, env: Object.assign({}, process.env, { CHAIN_IR_CLANG_RT_LIB_DIR: path.join(V, '.work/rt') }) }, (e, so, se) => res({ e, se })));
  let out = false;
  try {
    if (!sp.calldata && sp.calldata !== '') out = !!r.e && (!process.env.MATCH || r.se.includes(process.env.MATCH));
    else if (!r.e) { const a = parse(src); const m = new WebAssembly.Module(fs.readFileSync(b + '.wasm')); const d = diffRun(m, sp.deploy ? a : a.subs[0], sp.deploy ? 'deploy' : 'call', mk(), { stepLimit: 60000, depthLimit: 60 }); if (d.verdict === 'bad') { if (!base) base = kind(d.why); if (process.env.ANY || kind(d.why) === base) { out = true; last = d.why; } } }
  } catch (e) { if (process.env.DBG) console.error(e); }
  for (const f of fs.readdirSync(dir)) if (f.startsWith(path.basename(b) + '.') || f.startsWith(path.basename(b) + '_')) fs.rmSync(path.join(dir, f), { force: true, recursive: true });
  return out;
}
let base = null;
const clone = (a) => structuredClone(a);
// yields mutators: functions taking a clone's nodes by path
function edits(ast) {
  const out = [];
  const at = (p) => (a) => p.reduce((x, k) => x[k], a);
  const num0 = { k: 'num', v: 0n, raw: '0' };
  function exprs(e, p, depth) {
    const set = (v) => out.push({ w: 1, f: (a) => { const par = at(p.slice(0, -1))(a); par[p[p.length - 1]] = v(par[p[p.length - 1]]); } });
    if (e.k === 'call') { e.args.forEach((x, i) => { set((y) => y.args[i]); }); set(() => clone(num0)); set(() => ({ k: 'num', v: 1n, raw: '1' })); e.args.forEach((x, i) => exprs(x, p.concat('args', i), depth + 1)); }
    else if (e.k === 'id') { set(() => clone(num0)); set(() => ({ k: 'num', v: 1n, raw: '1' })); }
    else if (e.k === 'num' && e.raw !== '0' && e.raw !== '1') set(() => clone(num0));
  }
  function blk(b, p) {
    const N = b.length;
    for (let sz = N; sz >= 1; sz = sz === 1 ? 0 : Math.ceil(sz / 2)) for (let i = 0; i < N; i += sz) out.push({ w: 100 * sz, f: (a) => { at(p)(a).splice(i, sz); } });
    b.forEach((s, i) => {
      const q = p.concat(i); const repl = (g) => out.push({ w: 50, f: (a) => { const l = at(p)(a); l.splice(i, 1, ...g(l[i])); } });
      switch (s.k) {
        case 'block': repl((x) => x.body); blk(s.body, q.concat('body')); break;
        case 'if': repl((x) => x.body); repl((x) => [{ k: 'expr', e: { k: 'call', name: 'pop', args: [x.cond] } }]); exprs(s.cond, q.concat('cond')); blk(s.body, q.concat('body')); break;
        case 'for': repl((x) => x.init.concat(x.body)); ['init', 'post', 'body'].forEach((k) => blk(s[k], q.concat(k))); exprs(s.cond, q.concat('cond')); break;
        case 'switch': s.cases.forEach((c, ci) => { repl((x) => x.cases[ci].body); out.push({ w: 60, f: (a) => { at(q)(a).cases.splice(ci, 1); } }); blk(c.body, q.concat('cases', ci, 'body')); }); if (s.def) { repl((x) => x.def); out.push({ w: 60, f: (a) => { at(q)(a).def = null; } }); blk(s.def, q.concat('def')); } exprs(s.cond, q.concat('cond')); break;
        case 'fun': blk(s.body, q.concat('body')); break;
        case 'let': if (s.val) { exprs(s.val, q.concat('val')); repl((x) => [{ k: 'let', vars: x.vars, val: null }]); } break;
        case 'assign': exprs(s.val, q.concat('val')); break;
        case 'expr': if (s.e.k === 'call') s.e.args.forEach((x, k) => exprs(x, q.concat('e', 'args', k))); break;
      }
    });
  }
  const root = sp.deploy ? [] : ['subs', 0]; blk(at(root.concat('code'))(ast), root.concat('code'));
  return out.sort((a, b) => b.w - a.w);
}
(async () => {
  let cur = parse(j.src); if (!(await bad(cur))) { console.log('does not fail'); fs.rmSync(dir, { recursive: true }); return; }
  const T = Date.now() + Number(process.env.SECS || 120) * 1000;
  for (;;) {
    const es = edits(cur); let done = false;
    for (let i = 0; i < es.length && !done && Date.now() < T; i += 8) {
      const cands = es.slice(i, i + 8).map((e) => { const a = clone(cur); try { e.f(a); return a; } catch { return null; } }).filter(Boolean);
      const rs = await Promise.all(cands.map(bad)); const k = rs.findIndex(Boolean); if (k >= 0) { cur = cands[k]; done = true; }
    }
    if (!done) break;
  }
  await bad(cur);
  console.log(show(cur)); console.log('//', last, 'tests', tests, 'flags', flags.join(' '), 'calldata', sp.calldata, JSON.stringify(sp.storage));
  fs.rmSync(dir, { recursive: true });
})();
