'use strict';
// Independent recogniser for the compiler's object grammar: text -> tree in the driver's shape, or null.
const KW = new Set(['object', 'code', 'leave', 'break', 'continue', 'function', 'let', 'for', 'if', 'switch', 'case', 'default', 'true', 'false']);
const hx = (s) => Buffer.from(s, 'utf8').toString('hex');
class Bad extends Error {}
function strip(src) { // comments out, strings kept
  let o = '', i = 0;
  while (i < src.length) {
    const c = src[i];
    if (c === '"' || c === "'") { let j = i + 1; while (j < src.length && src[j] !== c) { if (src[j] !== '\\') { j++; continue; } const g = /^\\[ \n\t\r\f]+\\/.exec(src.slice(j, j + 400)); j += g ? g[0].length : 2; } o += src.slice(i, j + 1); i = j + 1; continue; }
    if (c === '/' && src[i + 1] === '/') { const j = src.indexOf('\n', i); if (j < 0) return o; o += '\n'; i = j + 1; continue; }
    if (c === '/' && src[i + 1] === '*') { const j = src.indexOf('*/', i + 2); if (j < 0) return o; o += ' '; i = j + 2; continue; }
    o += c; i++;
  }
  return o;
}
const WS = /[\t\n\v\f\r \u0085\u00a0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]/;
function strBytes(s) { // contents between the quotes
  const b = []; let i = 0;
  if (s.includes('\r')) { // a raw carriage return may only stand in a gap
    if (s.replace(/\\([ \n\t\r\f]+)\\|\\[^ \n\t\r\f]/g, '').includes('\r')) throw new Bad('cr');
  }
  while (i < s.length) {
    if (s[i] !== '\\') { const cp = String.fromCodePoint(s.codePointAt(i)); for (const x of Buffer.from(cp)) b.push(x); i += cp.length; continue; }
    const e = s[i + 1];
    if (e === 'n') b.push(10); else if (e === 't') b.push(9); else if (e === '"' || e === '\\') b.push(e.charCodeAt(0));
    else if (e === 'x') { b.push(parseInt(s.slice(i + 2, i + 4), 16)); i += 4; continue; }
    else if (e === 'u') { const v = parseInt(s.slice(i + 3, i + 7), 16); if (v >= 0xd800 && v < 0xe000) throw new Bad('surrogate'); for (const x of Buffer.from(String.fromCharCode(v))) b.push(x); i += 8; continue; }
    else { const m = /^\\[ \n\t\r\f]+\\/.exec(s.slice(i)); if (!m) throw new Bad('esc'); i += m[0].length; continue; }
    i += 2;
  }
  const u = Buffer.from(b); if (!Buffer.from(u.toString('utf8'), 'utf8').equals(u)) throw new Bad('utf8'); return u;
}
function lex(src) {
  const T = []; let i = 0;
  const R = [['name', /[a-zA-Z_$][a-zA-Z_0-9.$]*/y], ['dec', /[0-9]+/y], ['hex', /0x[0-9a-fA-F]+/y], ['hexdata', /hex"[0-9a-fA-F]+"/y], ['seg', /data[ \t\r\n\f]+"[a-zA-Z_0-9.]+"/y], ['str', /"(?:\\(?:"|\\|n|t|x[0-9A-F][0-9A-F]|u\{[0-9A-F]{4}\}|[ \n\t\r\f]+\\)|[^"\n\\])*"/y], ['p', /:=|->|[{}(),:]/y]];
  for (;;) {
    while (i < src.length && WS.test(src[i])) i++;
    if (i >= src.length) break;
    let best = null; for (const [t, re] of R) { re.lastIndex = i; const m = re.exec(src); if (m && (!best || m[0].length > best.v.length)) best = { t, v: m[0] }; }
    if (!best) throw new Bad('char');
    if (best.t === 'name' && KW.has(best.v)) best.t = 'kw';
    if (best.t === 'str') best.b = strBytes(best.v.slice(1, -1));
    T.push(best); i += best.v.length;
  }
  T.push({ t: 'eof', v: '' }); return T;
}
function parse(src, o = {}) { try { return parse0(src, o); } catch (e) { if (e instanceof Bad) return null; throw e; } }
function parse0(src, o) {
  const T = lex(o.stripped ? src : strip(src)); let p = 0;
  const is = (v) => (T[p].t === 'kw' || T[p].t === 'p') && T[p].v === v;
  const eat = (v) => { if (!is(v)) throw new Bad('want ' + v); p++; };
  const tok = (t) => { if (T[p].t !== t) throw new Bad('want ' + t); return T[p++]; };
  const name = () => tok('name').v;
  const object = () => {
    eat('object'); const nm = tok('str').b.toString('hex'); eat('{'); eat('code'); const code = block(), subs = [];
    while (!is('}')) {
      if (T[p].t === 'seg') { const n = /"(.*)"$/s.exec(T[p++].v)[1]; const lits = []; while (T[p].t === 'hexdata') lits.push({ hex: hx(T[p++].v.slice(4, -1)) }); subs.push({ k: 'data', name: hx(n), lits }); }
      else subs.push(object());
    }
    eat('}'); return { k: 'object', name: nm, code, subs };
  };
  const block = () => { eat('{'); const b = []; while (!is('}')) b.push(stmt()); p++; return b; };
  const tlist = () => { const l = []; do { const n = name(); let ty = null; if (is(':')) { p++; ty = hx(name()); } l.push({ name: hx(n), type: ty }); } while (is(',') && ++p); return l; };
  const stmt = () => {
    if (is('{')) return { k: 'block', body: block() };
    if (T[p].t === 'kw') switch (T[p].v) {
      case 'let': { p++; const vars = tlist(); let val = null; if (is(':=')) { p++; val = expr(); } return { k: 'let', vars, val }; }
      case 'if': { p++; const cond = expr(); return { k: 'if', cond, body: block() }; }
      case 'for': { p++; const init = block(), cond = expr(), post = block(), body = block(); return { k: 'for', init, cond, post, body }; }
      case 'switch': { p++; const cond = expr(), cases = []; while (is('case')) { p++; const l = lit(); cases.push({ lit: l, body: block() }); } let def = null; if (is('default')) { p++; def = block(); } if (!cases.length && !def) throw new Bad('switch'); return { k: 'switch', cond, cases, def }; }
      case 'function': { p++; const n = hx(name()); eat('('); const params = is(')') ? [] : tlist(); eat(')'); let rets = []; if (is('->')) { p++; rets = tlist(); } return { k: 'fun', name: n, params, rets, body: block() }; }
      case 'leave': case 'break': case 'continue': return { k: T[p++].v };
      default: throw new Bad('kw');
    }
    const n = name(); if (is('(')) { return { k: 'expr', e: call(n) }; }
    const names = [hx(n)]; while (is(',')) { p++; names.push(hx(name())); } eat(':='); return { k: 'assign', names, val: expr() };
  };
  const call = (n) => { eat('('); const args = []; if (!is(')')) do args.push(expr()); while (is(',') && ++p); eat(')'); return { k: 'call', name: hx(n), args }; };
  const lit = () => {
    const t = T[p]; let e;
    if (t.t === 'kw' && (t.v === 'true' || t.v === 'false')) e = { k: t.v, v: '' }; else if (t.t === 'dec' || t.t === 'hex') e = { k: t.t, v: hx(t.v) }; else if (t.t === 'str') e = { k: 'str', v: t.b.toString('hex') }; else throw new Bad('lit');
    p++; e.type = null; if (is(':')) { p++; e.type = hx(name()); } return e;
  };
  const expr = () => { if (T[p].t === 'name') { const n = name(); return is('(') ? call(n) : { k: 'id', name: hx(n) }; } return lit(); };
  const ob = object(); if (T[p].t !== 'eof') throw new Bad('trailing'); return ob;
}
module.exports = { parse, strip, lex, Bad };
