'use strict';
// Runs a program on both sides and compares what is observable.
const { parse } = require('./yul.js');
const { World } = require('./world.js');
const { Interp, StepLimit, Unsupported } = require('./interp.js');
const { runWasm } = require('./host.js');
const norm = (o) => (o.kind === 'return' && o.data === '' ? { kind: 'stop', data: '' } : { kind: o.kind, data: o.data });
const EFFECTS = new Set(['sstore', 'tstore', 'log', 'call', 'delegatecall', 'staticcall', 'callcode', 'create', 'create2', 'selfdestruct']);
function modelRun(ast, spec, opts) {
  const w = opts.world || new World(spec); const it = new Interp(ast, w, opts);
  try { const out = it.run(); return { out: norm(out), w, it }; }
  catch (e) { if (e instanceof StepLimit) return { skip: 'steps', w, it }; if (e instanceof Unsupported) return { skip: e.message, w, it }; throw e; }
}
function sameEvents(a, b) {
  if (a.length !== b.length) return `event count ${a.length} (source) vs ${b.length} (wasm): next source ${JSON.stringify(a[Math.min(a.length - 1, b.length)] || null)}, next wasm ${JSON.stringify(b[Math.min(b.length - 1, a.length)] || null)}`;
  for (let i = 0; i < a.length; i++) { const x = JSON.stringify(a[i]), y = JSON.stringify(b[i], Object.keys(a[i]).concat(Object.keys(b[i]))); if (JSON.stringify(sortObj(a[i])) !== JSON.stringify(sortObj(b[i]))) return `event ${i}: source ${x} vs wasm ${JSON.stringify(b[i])}`; }
  return null;
}
const sortObj = (o) => Object.fromEntries(Object.keys(o).sort().map((k) => [k, o[k]]));
// obj: the AST object to interpret; entry: wasm export. Returns {verdict:'ok'|'skip'|'bad', why, ...}
function diffRun(module, obj, entry, spec, opts = {}) {
  const d = diffRun1(module, obj, entry, spec, opts);
  if (d.verdict === 'bad' && d.m.it.usedRandao && !opts.mworld && !opts.wworld && !opts.fullRandao) { const e = diffRun1(module, obj, entry, spec, Object.assign({}, opts, { fullRandao: true })); if (e.verdict === 'ok') return e; }
  return d;
}
function diffRun1(module, obj, entry, spec, opts) {
  const m = modelRun(obj, spec, Object.assign({ deploying: entry === 'deploy' }, opts, { world: opts.mworld }));
  if (m.skip) return { verdict: 'skip', why: m.skip };
  const w = opts.wworld || new World(spec);
  const r = runWasm(module, entry, w, opts.host || {});
  const filt = opts.eventFilter || ((e) => true);
  const me = m.w.events.filter(filt), we = w.events.filter(filt);
  let why = null;
  const wo = norm(r.out);
  if (m.out.kind !== wo.kind || m.out.data !== wo.data) why = `outcome: source ${m.out.kind} 0x${m.out.data} vs wasm ${wo.kind} 0x${wo.data}${r.out.why ? ' (' + r.out.why + ')' : ''}`;
  else why = sameEvents(me, we);
  if (!why && r.host.misuse.length && opts.strictHost) why = 'host misuse ' + JSON.stringify(r.host.misuse[0]);
  return { verdict: why ? 'bad' : 'ok', why, m, w, r, events: me.length, steps: m.it.steps };
}
module.exports = { diffRun, modelRun, norm, sameEvents };
