'use strict';
// Compile one generated program, run its cases on both sides, collect what differs.
const { compile } = require('./compile.js'); const { parse } = require('./yul.js'); const { diffRun } = require('./diff.js');
function newResult() { return { evals: 0, skipped: 0, distinct: [], stats: {}, failures: [], inconclusive: [], samples: [] }; }
const bump = (R, k, n = 1) => { R.stats[k] = (R.stats[k] || 0) + n; };
// what a failed compile says, without the parts that vary
function compileWhy(c) { const s = (c.stderr || '').replace(/note: run with.*\n?/g, '').trim(); return `compiler ended with status ${c.status}${c.signal ? ' signal ' + c.signal : ''}${c.timeout ? ' (timeout)' : ''}: ${s.slice(-600)}`; }
const panicLine = (c) => { const m = /panicked at ([^\n]*?):\d+:\d+:?\n?([^\n]*)/.exec(c.stderr || ''); return m ? (m[1].replace(/^.*\/src\//, '') + ' ' + m[2]).slice(0, 120) : (c.signal || 'status ' + c.status); };
// cases: [{id, sig, ...}]; build(cases) -> source; returns {module, ast, c} or null; failures are pinned on single cases
function compileCases(R, cases, build, flags, tick, o = {}) {
  const src = build(cases); const c = compile(src, flags, { bin: o.bin }); tick();
  bump(R, 'programs_compiled');
  if (c.ok) { let module; try { module = new WebAssembly.Module(c.wasm); } catch (e) { R.failures.push({ sig: 'invalid-module', why: String(e), src }); return null; } return { module, get ast() { return parse(src); }, src, c, cases }; }
  if (c.timeout || c.spawnError) { R.inconclusive.push('compile: ' + (c.spawnError || 'timeout')); return null; }
  if (cases.length === 1) { R.failures.push({ sig: 'compile:' + cases[0].sig + ':' + panicLine(c), why: compileWhy(c), src }); return null; }
  // split; keep going with the half that compiles
  const h = cases.length >> 1; const a = compileCases(R, cases.slice(0, h), build, flags, tick, o), b = compileCases(R, cases.slice(h), build, flags, tick, o);
  if (a && b && !a.list && !b.list && a.cases.length === h && b.cases.length === cases.length - h && !R.failures.length) R.failures.push({ sig: 'compile:whole:' + panicLine(c), why: compileWhy(c), src });
  return { list: [a, b].filter(Boolean) };
}
const flatten = (p) => (!p ? [] : p.list ? p.list.flatMap(flatten) : [p]);
function judge(R, d, f) { // f: {sig, src, spec, key}
  R.evals++;
  if (d.verdict === 'skip') { R.skipped++; bump(R, 'skip:' + String(d.why).slice(0, 40)); return; }
  if (d.verdict === 'bad') { R.failures.push({ sig: f.sig, why: d.why, src: f.src, spec: f.spec, detail: f.detail }); return; }
  R.distinct.push(f.key); bump(R, 'events', d.events); bump(R, 'out:' + d.m.out.kind);
}
module.exports = { newResult, bump, compileCases, flatten, judge, compileWhy, panicLine };
