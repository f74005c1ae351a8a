'use strict';
const fs = require('fs'), path = require('path');
const { Rng } = require('../lib/util.js'); const { Syn } = require('../gen/syntax.js'); const G = require('../lib/recog.js'); const B = require('../lib/batch.js'); const { batch, firstDiff } = require('./fe_common.js'); const { compile, BIN } = require('../lib/compile.js');
const STRAY = ['{', '}', '(', ')', ',', ':', ':=', '->', '=', ';', '"', "'", '\\', '/', '*', '#', '@', '!', '[', ']', '<', '>', '-', '+', '.', '$', '`', '~', '%', '^', '&', '|', '?', '0', '0x', '00x', '1a', '0xg', 'hex""', 'hex"0', 'hex"abc"', 'hex "00"', 'data', 'object', 'code', 'let', 'function', 'if', 'for', 'switch', 'case', 'default', 'leave', 'true', 'x', '$x', '.x', '0X1', '1.5', 'é', '\u0000', '\u00a0', '\u2028', '😀', '\ufeff', '//', '/*', '*/', '"a', '"\n"', '"\\a"', '"\\u{12}"', '"\\x1"', '"\\u{D800}"', '"\\xFF"', '"\\x7F"', 'data "a b"', 'data"a"', 'data ""', 'object"a"{code{}}', '\u000b', '\u0085'];
function mutate(s, r, T) {
  T = T.slice(); const i = r.int(T.length), j = r.int(T.length);
  switch (r.int(8)) {
    case 0: T.splice(i, 1); return s.layout(T);
    case 1: T.splice(i, 0, T[j]); return s.layout(T);
    case 2: { const t = T[i]; T[i] = T[(i + 1) % T.length]; T[(i + 1) % T.length] = t; return s.layout(T); }
    case 3: T[i] = r.pick(STRAY); return s.layout(T);
    case 4: T.splice(i, 0, r.pick(STRAY)); return s.layout(T);
    case 5: { const t = s.layout(T); return t.slice(0, r.int(t.length)); }
    case 6: { const t = s.layout(T); const k = r.int(t.length); return t.slice(0, k) + t.slice(k + 1); }
    default: { const t = s.layout(T, 0.02); const k = r.int(t.length); return t.slice(0, k) + r.pick(STRAY) + t.slice(k + r.int(2)); }
  }
}
const W = (b, f = '') => `object "A" { code { datacopy(0, dataoffset("A_deployed"), datasize("A_deployed")) return(0, datasize("A_deployed")) } object "A_deployed" { code { ${b} } ${f} } }`;
// programs that parse but mean nothing: names out of scope, wrong argument counts
function meaningless(r) {
  const n = 'v' + r.int(1000), lit = () => r.pick(['1', '0x20', '0xffffffffffffffffffff', 'calldataload(0)']); const B2 = ['add', 'sub', 'mul', 'div', 'lt', 'gt', 'eq', 'and', 'or', 'xor', 'shl', 'shr', 'sar', 'exp', 'mod', 'byte', 'signextend'];
  const args = (k) => Array.from({ length: k }, lit).join(', ');
  const k = r.int(13); const np = r.int(4); const ps = Array.from({ length: np }, (_, i) => 'p' + i).join(', '); let na; do na = r.int(6); while (na === np);
  switch (k) {
    case 0: return ['undeclared variable read', `sstore(${lit()}, ${r.pick([n, `add(${n}, 1)`, `mload(${n})`])})`];
    case 1: return ['undeclared variable assigned', `${n} := ${lit()}`];
    case 2: return ['undeclared function', `sstore(0, f${n}(${args(r.int(3))}))`];
    case 3: return ['undeclared function as statement', `f${n}(${args(r.int(3))})`];
    case 4: return ['variable used out of its block', `{ let ${n} := ${lit()} } sstore(0, ${n})`];
    case 5: return ['variable used before its declaration', `sstore(0, ${n}) let ${n} := ${lit()}`];
    case 6: return ['outer variable used in a function', `let ${n} := ${lit()} function f() -> b { b := ${n} } sstore(0, f())`];
    case 7: return ['loop variable used after the loop', `for { let ${n} := 0 } lt(${n}, 1) { ${n} := add(${n}, 1) } { } sstore(0, ${n})`];
    case 8: return ['redeclared variable', `let ${n} := ${lit()} let ${n} := ${lit()} sstore(0, ${n})`];
    case 9: return ['builtin with one argument too few', `sstore(0, ${r.pick(B2)}(${lit()}))`];
    case 10: return ['builtin with one argument too many', `sstore(0, ${r.pick(B2)}(${args(3)}))`];
    case 11: return ['function with a wrong number of arguments', `function g(${ps}) -> b { b := 1 } sstore(0, g(${args(na)}))`];
    default: return ['break outside a loop', `sstore(0, 1) ${r.pick(['break', 'continue'])}`];
  }
}
module.exports = {
  build: ['build_fe.sh', 'build_e2e.sh'], quickSeconds: 42, thoroughSeconds: 900, minJobs: 40, minEvals: 2000, level: 'exploration', stallSeconds: 90,
  rule: 'one evaluation = one text given to the real front end (accept/refuse and tree compared with an independent recogniser) or to the real command line tool (exit status and files)', assumptions: ['the independent recogniser of js/lib/recog.js follows src/yul.lalrpop'],
  *jobs() { for (let n = 0; ; n++) yield { n, cli: n % 5 === 4 }; },
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C14/${ctx.seed}/${job.n}`); const s = new Syn(rng);
    if (job.cli) { for (let i = 0; i < 8; i++) this.cli(R, rng, s, ctx, job.n * 8 + i); return R; }
    const reqs = [], exp = [];
    for (let i = 0; i < 250; i++) {
      let src; if (rng.bool(0.06)) { src = ''; const n = rng.range(0, 30); for (let j = 0; j < n; j++) src += rng.bool() ? rng.pick(STRAY) : rng.pick([' ', '\n']); } else { const T = []; s.object(T, rng.pick([0, 0, 1, 2])); src = mutate(s, rng, T); if (rng.bool(0.1)) src = mutate({ layout: () => src }, rng, [src]); }
      reqs.push({ mode: 'C', data: src }); const t = G.parse(src); exp.push(t ? JSON.stringify(t) : null);
    }
    batch(ctx, reqs, (i, o) => {
      R.evals++; const src = reqs[i].data, want = exp[i];
      if (o.status !== 'ok' && o.status !== 'error') { R.failures.push({ sig: 'frontend:' + o.status, why: `${o.status}: ${String(o.out).slice(0, 300)}`, src }); return; }
      if (o.status === 'ok' && want === null) { R.failures.push({ sig: 'accepted-malformed', why: 'not a valid object, but parsed as ' + String(o.out).slice(0, 300), src }); return; }
      if (o.status === 'error' && want !== null) { R.failures.push({ sig: 'refused-valid', why: String(o.out).slice(0, 300), src }); return; }
      if (want !== null && String(o.out) !== want) { R.failures.push({ sig: 'other-program', why: firstDiff(String(o.out), want), src }); return; }
      if (o.status === 'error' && !o.out.length) { R.failures.push({ sig: 'silent-error', why: 'refused without a message', src }); return; }
      B.bump(R, want === null ? 'refused' : 'accepted'); R.distinct.push(src); if (R.samples.length < 1 && want === null && src.length < 200) R.samples.push({ text: src, message: String(o.out).slice(0, 200) });
    });
    return R;
  },
  cli(R, rng, s, ctx, n) {
    let src, what; const k = rng.int(10);
    if (k < 4) { [what, src] = meaningless(rng); src = W(src); } else if (k === 4) { what = 'bytes that are not UTF-8'; const T = []; s.object(T, 0); const b = Buffer.from(s.layout(T)); const p = rng.int(b.length); src = Buffer.concat([b.subarray(0, p), Buffer.from(rng.pick([[0xff], [0xc3], [0xe2, 0x82], [0xed, 0xa0, 0x80], [0xf5, 0x80, 0x80, 0x80]])), Buffer.from(' '), b.subarray(p)]); }
    else if (k === 5) { what = 'empty or blank file'; src = rng.pick(['', ' ', '\n', '// nothing\n', '/* x */']); } else { what = 'malformed text'; let t = 0; do { const T = []; s.object(T, 1); src = mutate(s, rng, T); } while (G.parse(src) !== null && ++t < 200); if (G.parse(src) !== null) return; }
    const c = compile(src, rng.pick([[], [], ['--enable-all-optimizers'], ['--opt-level', 'none']])); ctx.tick(); R.evals++;
    if (c.timeout || c.spawnError) { R.inconclusive.push(what + ': ' + (c.spawnError || 'timeout')); return; }
    const files = ['wasm', 'cbin', 'hexf'].filter((f) => c[f]);
    if (c.status === 0) { R.failures.push({ sig: 'cli-accepts:' + what, why: `${what}: exit status 0`, src: String(src) }); return; }
    if (files.length) { R.failures.push({ sig: 'cli-leaves:' + files.join(','), why: `${what}: refused with status ${c.status}, but ${files} written`, src: String(src) }); return; }
    if (!(c.stderr + c.stdout).trim() && !c.signal) { R.failures.push({ sig: 'cli-silent', why: `${what}: no message`, src: String(src) }); return; }
    B.bump(R, 'cli:' + what); R.distinct.push('cli|' + n); if (R.samples.length < 2) R.samples.push({ cli: what, status: c.status, signal: c.signal });
  },
};
