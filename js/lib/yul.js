'use strict';
// Independent Yul lexer/parser (EVM dialect object syntax). Produces a plain AST.
class YulError extends Error {}
function lex(src) {
  const toks = []; let i = 0; const n = src.length;
  const err = (m) => { throw new YulError(m + ' at ' + i); };
  while (i < n) {
    const c = src[i];
    if (/\s/.test(c)) { i++; continue; }
    if (src.startsWith('//', i)) { while (i < n && src[i] !== '\n') i++; continue; }
    if (src.startsWith('/*', i)) { const j = src.indexOf('*/', i + 2); if (j < 0) err('unterminated comment'); i = j + 2; continue; }
    if (src.startsWith('hex"', i)) {
      const j = src.indexOf('"', i + 4); if (j < 0) err('unterminated hex');
      const d = src.slice(i + 4, j); if (!/^([0-9a-fA-F]{2})*$/.test(d)) err('bad hex literal');
      toks.push({ t: 'hexstr', v: Buffer.from(d, 'hex') }); i = j + 1; continue;
    }
    if (c === '"') {
      const out = []; i++;
      for (;;) {
        if (i >= n) err('unterminated string');
        const ch = src[i];
        if (ch === '"') { i++; break; }
        if (ch === '\n') err('newline in string');
        if (ch === '\\') {
          const e = src[i + 1];
          if (e === 'n') { out.push(10); i += 2; } else if (e === 't') { out.push(9); i += 2; } else if (e === 'r') { out.push(13); i += 2; }
          else if (e === '\\' || e === '"' || e === "'") { out.push(e.charCodeAt(0)); i += 2; }
          else if (e === 'x') { const h = src.slice(i + 2, i + 4); if (!/^[0-9a-fA-F]{2}$/.test(h)) err('bad \\x'); out.push(parseInt(h, 16)); i += 4; }
          else if (e === 'u') { const h = src.slice(i + 2, i + 6); if (!/^[0-9a-fA-F]{4}$/.test(h)) err('bad \\u'); for (const b of Buffer.from(String.fromCharCode(parseInt(h, 16)))) out.push(b); i += 6; }
          else if (e === '\n') { i += 2; }
          else err('bad escape');
          continue;
        }
        const cp = src.codePointAt(i); const s = String.fromCodePoint(cp);
        for (const b of Buffer.from(s)) out.push(b);
        i += s.length;
      }
      toks.push({ t: 'str', v: Buffer.from(out) }); continue;
    }
    let m;
    const rest = src.slice(i, i + 400);
    if ((m = /^0x[0-9a-fA-F]+/.exec(rest))) { toks.push({ t: 'num', v: BigInt(m[0]), raw: m[0] }); i += m[0].length; continue; }
    if ((m = /^[0-9]+/.exec(rest))) { toks.push({ t: 'num', v: BigInt(m[0]), raw: m[0] }); i += m[0].length; continue; }
    if ((m = /^[a-zA-Z_$][a-zA-Z_$0-9.]*/.exec(rest))) { toks.push({ t: 'id', v: m[0] }); i += m[0].length; continue; }
    if (src.startsWith(':=', i)) { toks.push({ t: ':=' }); i += 2; continue; }
    if (src.startsWith('->', i)) { toks.push({ t: '->' }); i += 2; continue; }
    if ('{}(),:'.includes(c)) { toks.push({ t: c }); i++; continue; }
    err('unexpected character ' + JSON.stringify(c));
  }
  toks.push({ t: 'eof' });
  return toks;
}
const KW = new Set(['let', 'if', 'switch', 'case', 'default', 'for', 'function', 'leave', 'break', 'continue', 'true', 'false', 'hex']);
function parse(src) {
  const T = lex(src); let p = 0;
  const err = (m) => { throw new YulError(m + ' at token ' + p + ' (' + T[p].t + ' ' + (T[p].v ?? '') + ')'); };
  const is = (t, v) => T[p].t === t && (v === undefined || T[p].v === v);
  const eat = (t, v) => { if (!is(t, v)) err('expected ' + (v ?? t)); return T[p++]; };
  function object() {
    eat('id', 'object'); const name = eat('str').v.toString();
    eat('{'); eat('id', 'code'); const code = block(); const subs = [];
    while (!is('}')) {
      if (is('id', 'object')) subs.push(object());
      else if (is('id', 'data')) { p++; const dn = eat('str').v.toString(); let v = Buffer.alloc(0); if (is('str')) v = eat('str').v; else while (is('hexstr')) v = Buffer.concat([v, T[p++].v]); subs.push({ k: 'data', name: dn, bytes: v }); }
      else err('bad segment');
    }
    eat('}'); return { k: 'object', name, code, subs };
  }
  function ident() { const t = eat('id'); if (KW.has(t.v)) { p--; err('keyword as identifier'); } return t.v; }
  function type() { if (is(':')) { p++; return ident(); } return null; }
  function typedList() { const r = []; do { const name = ident(); r.push({ name, type: type() }); } while (is(',') && ++p); return r; }
  function block() { eat('{'); const s = []; while (!is('}')) s.push(stmt()); p++; return s; }
  function stmt() {
    if (is('{')) return { k: 'block', body: block() };
    if (!is('id')) err('bad statement');
    switch (T[p].v) {
      case 'let': { p++; const vars = typedList(); let val = null; if (is(':=')) { p++; val = expr(); } return { k: 'let', vars, val }; }
      case 'if': { p++; const cond = expr(); return { k: 'if', cond, body: block() }; }
      case 'switch': { p++; const cond = expr(); const cases = []; let def = null;
        while (is('id', 'case')) { p++; const lit = literal(); cases.push({ lit, body: block() }); }
        if (is('id', 'default')) { p++; def = block(); }
        if (!cases.length && !def) err('empty switch'); return { k: 'switch', cond, cases, def }; }
      case 'for': { p++; const init = block(), cond = expr(), post = block(), body = block(); return { k: 'for', init, cond, post, body }; }
      case 'function': { p++; const name = ident(); eat('('); const params = is(')') ? [] : typedList(); eat(')'); let rets = []; if (is('->')) { p++; rets = typedList(); } return { k: 'fun', name, params, rets, body: block() }; }
      case 'leave': p++; return { k: 'leave' };
      case 'break': p++; return { k: 'break' };
      case 'continue': p++; return { k: 'continue' };
    }
    const id = ident();
    if (is('(')) { p--; return { k: 'expr', e: expr() }; }
    const names = [id]; while (is(',')) { p++; names.push(ident()); }
    eat(':='); return { k: 'assign', names, val: expr() };
  }
  function literal() {
    if (is('num')) { const t = T[p++]; return { k: 'num', v: t.v, raw: t.raw, type: type() }; }
    if (is('str')) { const t = T[p++]; return { k: 'str', v: t.v, type: type() }; }
    if (is('hexstr')) { const t = T[p++]; return { k: 'str', v: t.v, type: type() }; }
    if (is('id', 'true')) { p++; return { k: 'num', v: 1n, type: type() }; }
    if (is('id', 'false')) { p++; return { k: 'num', v: 0n, type: type() }; }
    err('expected literal');
  }
  function expr() {
    if (is('id') && T[p].v !== 'true' && T[p].v !== 'false') {
      const name = ident();
      if (is('(')) { p++; const args = []; if (!is(')')) do args.push(expr()); while (is(',') && ++p); eat(')'); return { k: 'call', name, args }; }
      return { k: 'id', name };
    }
    return literal();
  }
  const o = object(); if (!is('eof')) err('trailing input'); return o;
}
// Prints an AST back; literals keep their spelling where they have one.
function show(o) {
  const bytes = (b) => '"' + [...b].map((c) => (c >= 32 && c < 127 && c !== 34 && c !== 92 ? String.fromCharCode(c) : '\\x' + c.toString(16).toUpperCase().padStart(2, '0'))).join('') + '"';
  const ty = (t) => (t ? ':' + t : '');
  const ex = (e) => (e.k === 'call' ? `${e.name}(${e.args.map(ex).join(', ')})` : e.k === 'id' ? e.name : e.k === 'num' ? (e.raw || String(e.v)) + ty(e.type) : bytes(e.v) + ty(e.type));
  const tl = (l) => l.map((v) => v.name + ty(v.type)).join(', ');
  const bl = (b, d) => (b.length ? '{\n' + b.map((s) => ' '.repeat(d + 1) + st(s, d + 1)).join('\n') + '\n' + ' '.repeat(d) + '}' : '{ }');
  function st(s, d) {
    switch (s.k) {
      case 'block': return bl(s.body, d); case 'expr': return ex(s.e); case 'let': return `let ${tl(s.vars)}${s.val ? ' := ' + ex(s.val) : ''}`; case 'assign': return `${s.names.join(', ')} := ${ex(s.val)}`;
      case 'if': return `if ${ex(s.cond)} ${bl(s.body, d)}`; case 'for': return `for ${bl(s.init, d)} ${ex(s.cond)} ${bl(s.post, d)} ${bl(s.body, d)}`;
      case 'switch': return `switch ${ex(s.cond)}` + s.cases.map((c) => `\n${' '.repeat(d)}case ${ex(c.lit)} ${bl(c.body, d)}`).join('') + (s.def ? `\n${' '.repeat(d)}default ${bl(s.def, d)}` : '');
      case 'fun': return `function ${s.name}(${tl(s.params)})${s.rets.length ? ' -> ' + tl(s.rets) : ''} ${bl(s.body, d)}`;
      default: return s.k;
    }
  }
  const ob = (x, d) => (x.k === 'data' ? `data "${x.name}" hex"${Buffer.from(x.bytes).toString('hex')}"` : `object "${x.name}" {\n${' '.repeat(d + 1)}code ${bl(x.code, d + 1)}${x.subs.map((y) => '\n' + ' '.repeat(d + 1) + ob(y, d + 1)).join('')}\n${' '.repeat(d)}}`);
  return ob(o, 0) + '\n';
}
module.exports = { parse, lex, show, YulError };
