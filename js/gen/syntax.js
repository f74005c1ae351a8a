'use strict';
// Random syntax: trees and the texts that denote them, with every layout the grammar allows.
const KW = new Set(['object', 'code', 'leave', 'break', 'continue', 'function', 'let', 'for', 'if', 'switch', 'case', 'default', 'true', 'false']);
const h = (s) => Buffer.from(s, 'utf8').toString('hex');
class Syn {
  constructor(rng) { this.r = rng; this.feat = {}; }
  f(k) { this.feat[k] = (this.feat[k] || 0) + 1; }
  name() {
    const r = this.r;
    for (;;) {
      let n;
      switch (r.int(6)) {
        case 0: n = r.pick(['a', 'b', 'x', '_', '_1', 'i', 'hex', 'data', 'u256', 'bool', 'add', 'mstore', 'address', 'letx', 'let_', 'iff', 'truex', 'true_', 'codecopy', 'objects', 'functions', 'casex', 'forx', 'leave1', 'breaks', 'default_', 'x0', 'e1', 'hexx', 'datasize', 'Let', 'IF', 'TRUE', 'switch.', 'case$']); break;
        case 1: n = r.pick(['usr$x', '$', '$x', '$_1', '$.a', 'p.q', 'a..b', 'x$', 'abi_decode_t_uint256', 'fun_transfer_123', '__', '_$_', 'z.1', 'A9', 'zero_t_string.mpos']); break;
        default: { const A = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_', B = A + '0123456789.$'; n = r.pick(A + '$'); const l = r.pick([0, 1, 2, 3, 5, 9, 30]); for (let i = 0; i < l; i++) n += r.pick(B); }
      }
      if (!KW.has(n)) return n;
    }
  }
  // any code point that takes more than one byte, the ends of every range among them
  codePoint() { const r = this.r; let c; do c = r.wpick([[4, 0x80 + r.int(0x780)], [4, 0x800 + r.int(0xf800)], [4, 0x10000 + r.int(0x100000)], [2, r.pick([0x80, 0x85, 0xa0, 0xbf, 0xc0, 0xff, 0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff])]]); while (c >= 0xd800 && c < 0xe000); return String.fromCodePoint(c); }
  // a string literal: {src, bytes}
  str(o = {}) {
    const r = this.r; let src = '"', b = []; const n = o.len ?? r.pick([0, 1, 2, 3, 5, 8, 20, 40]);
    const put = (s) => { for (const x of Buffer.from(s, 'utf8')) b.push(x); };
    for (let i = 0; i < n; i++) {
      const k = r.int(o.plain ? 3 : 16);
      switch (k) {
        case 3: src += '\\"'; put('"'); this.f('esc-quote'); break;
        case 4: src += '\\\\'; put('\\'); this.f('esc-backslash'); break;
        case 5: src += r.pick(['\\n']); put('\n'); this.f('esc-n'); break;
        case 6: src += '\\t'; put('\t'); this.f('esc-t'); break;
        case 7: { const v = r.int(128); src += '\\x' + v.toString(16).toUpperCase().padStart(2, '0'); b.push(v); this.f('esc-x'); break; }
        case 8: { const v = r.pick([0x20, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xffff, r.int(0xd800), 0]); src += '\\u{' + v.toString(16).toUpperCase().padStart(4, '0') + '}'; put(String.fromCharCode(v)); this.f('esc-u'); break; }
        case 9: { src += '\\' + r.pick([' ', '\n', '\t', ' \n  ', '\r\n', '  ', '\f']) + '\\'; this.f('gap'); break; }
        case 10: { const s = r.bool(0.3) ? r.pick(['é', '€', '😀', 'ü', 'ß']) : this.codePoint(); for (const x of Buffer.from(s)) { src += '\\x' + x.toString(16).toUpperCase().padStart(2, '0') + (r.bool(0.05) ? '\\ \\' : ''); b.push(x); } this.f('esc-x-high'); break; }
        case 11: { src += r.pick(['\\\\ \\\\', '\\\\n', '\\\\\\"', '\\\\\\\\']); const u = { '\\\\ \\\\': '\\ \\', '\\\\n': '\\n', '\\\\\\"': '\\"', '\\\\\\\\': '\\\\' }; const t = src.endsWith('\\\\ \\\\') ? '\\\\ \\\\' : src.endsWith('\\\\\\"') ? '\\\\\\"' : src.endsWith('\\\\n') ? '\\\\n' : '\\\\\\\\'; put(u[t]); this.f('esc-run'); break; }
        case 12: { const s = r.pick(['//', '/*', '*/', '/**/', "'", '{', '}', ':=', 'hex', '#', '/', '*']); src += s; put(s); this.f('markers'); break; }
        case 13: { const s = r.bool(0.4) ? r.pick(['é', '€', '😀', 'ÿ', '\t', '\u0001', '\u007f', '中']) : this.codePoint(); src += s; put(s); this.f('raw-utf' + Buffer.byteLength(s)); break; }
        default: { const s = String.fromCharCode(r.pick([32, 33, 35, 47, 42, 48, 57, 65, 97, 122, 126, 35 + r.int(50), 97 + r.int(26)])); if (s === '"' || s === '\\') break; src += s; put(s); }
      }
    }
    return { src: src + '"', bytes: Buffer.from(b) };
  }
  // trees in the driver's shape, with the tokens that spell them
  lit(T) {
    const r = this.r; let e;
    switch (r.int(6)) {
      case 0: { const v = r.bool(); T.push(v ? 'true' : 'false'); e = { k: v ? 'true' : 'false', v: '' }; break; }
      case 1: case 2: { let d = r.bool(0.5) ? String(r.int(100)) : r.u256().toString(); if (r.bool(0.1)) d = '0'.repeat(r.range(1, 5)) + d; T.push(d); e = { k: 'dec', v: h(d) }; break; }
      case 3: case 4: { let d = r.u256().toString(16); if (r.bool(0.4)) d = d.toUpperCase(); if (r.bool(0.2)) d = '0'.repeat(r.range(1, 9)) + d; d = '0x' + d; T.push(d); e = { k: 'hex', v: h(d) }; break; }
      default: { const s = this.str(); T.push(s.src); e = { k: 'str', v: s.bytes.toString('hex') }; }
    }
    e.type = null; if (r.bool(0.12)) { const t = this.name(); T.push(':', t); e.type = h(t); this.f('typed-literal'); }
    return e;
  }
  args(T, n, d) { T.push('('); const a = []; for (let i = 0; i < n; i++) { if (i) T.push(','); a.push(this.expr(T, d)); } T.push(')'); return a; }
  call(T, d) { const n = this.name(); T.push(n); return { k: 'call', name: h(n), args: this.args(T, this.r.pick([0, 1, 2, 3, 7]), d - 1) }; }
  expr(T, d) {
    const k = this.r.int(d > 0 ? 5 : 2);
    if (k === 0) { const n = this.name(); T.push(n); return { k: 'id', name: h(n) }; }
    if (k === 1) return this.lit(T);
    return this.call(T, d);
  }
  typedList(T, n) { const l = []; for (let i = 0; i < n; i++) { if (i) T.push(','); const nm = this.name(); T.push(nm); let ty = null; if (this.r.bool(0.2)) { const t = this.name(); T.push(':', t); ty = h(t); } l.push({ name: h(nm), type: ty }); } return l; }
  block(T, d, n = this.r.pick([0, 0, 1, 2, 3])) { T.push('{'); const b = []; for (let i = 0; i < n; i++) b.push(this.stmt(T, d)); T.push('}'); return b; }
  stmt(T, d) {
    const r = this.r;
    const k = r.int(d > 0 ? 12 : 6);
    switch (k) {
      case 0: { T.push('let'); const vars = this.typedList(T, r.pick([1, 1, 1, 2, 3])); let val = null; if (r.bool(0.75)) { T.push(':='); val = this.expr(T, 2); } return { k: 'let', vars, val }; }
      case 1: { const n = r.pick([1, 1, 2, 4]), names = []; for (let i = 0; i < n; i++) { if (i) T.push(','); const x = this.name(); T.push(x); names.push(h(x)); } T.push(':='); return { k: 'assign', names, val: this.expr(T, 2) }; }
      case 2: case 3: return { k: 'expr', e: this.call(T, 2) };
      case 4: { const w = r.pick(['leave', 'break', 'continue']); T.push(w); return { k: w }; }
      case 5: return { k: 'block', body: this.block(T, d - 1, d > 0 ? undefined : 0) };
      case 6: case 7: { T.push('if'); const cond = this.expr(T, 2); return { k: 'if', cond, body: this.block(T, d - 1) }; }
      case 8: { T.push('for'); const init = this.block(T, d - 1), cond = this.expr(T, 2), post = this.block(T, d - 1), body = this.block(T, d - 1); return { k: 'for', init, cond, post, body }; }
      case 9: case 10: { T.push('switch'); const cond = this.expr(T, 2), cases = []; const n = r.pick([0, 1, 2, 3, 6]); for (let i = 0; i < n; i++) { T.push('case'); const lit = this.lit(T); cases.push({ lit, body: this.block(T, d - 1) }); } let def = null; if (!n || r.bool()) { T.push('default'); def = this.block(T, d - 1); } return { k: 'switch', cond, cases, def }; }
      default: { T.push('function'); const nm = this.name(); T.push(nm, '('); const params = this.typedList(T, r.pick([0, 1, 2, 5])); T.push(')'); let rets = []; if (r.bool(0.6)) { T.push('->'); rets = this.typedList(T, r.pick([1, 1, 2, 3])); } return { k: 'fun', name: h(nm), params, rets, body: this.block(T, d - 1) }; }
    }
  }
  object(T, d) {
    const r = this.r; T.push('object'); const nm = r.bool(0.8) ? { src: '"' + this.name() + '"' } : this.str(); if (!nm.bytes) nm.bytes = Buffer.from(nm.src.slice(1, -1)); T.push(nm.src, '{', 'code');
    const code = this.block(T, r.pick([1, 2, 3]), r.pick([0, 1, 3, 6])); const subs = []; const n = r.pick([0, 1, 2, 4]);
    for (let i = 0; i < n; i++) {
      if (d > 0 && r.bool(0.4)) subs.push(this.object(T, d - 1));
      else {
        let dn; do { dn = r.pick([this.name().replace(/\$/g, ''), '.metadata', 'a', '0', '123', '.', 'x.y', 'hex', 'data']); } while (!dn); T.push({ data: dn }); const lits = []; const m = r.pick([1, 1, 1, 0, 2]);
        for (let j = 0; j < m; j++) { let hx = Buffer.from(r.bytes(r.pick([1, 2, 32, 33, 200]))).toString('hex'); if (r.bool(0.3)) hx = hx.toUpperCase(); T.push('hex"' + hx + '"'); lits.push({ hex: h(hx) }); }
        subs.push({ k: 'data', name: h(dn), lits });
      }
    }
    T.push('}'); return { k: 'object', name: nm.bytes.toString('hex'), code, subs };
  }
  comment(last) {
    const r = this.r; const junk = () => { let s = ''; const n = r.int(6); for (let i = 0; i < n; i++) s += r.pick(['a', ' ', '"', "'", '/*', '//', '*', '**', '\\', '\\"', '{', '}', 'let', '/', 'é', ':=', '@src 0:1:2', 'hex"', '"x']); return s; };
    if (r.bool(0.45)) { this.f('line-comment'); return '//' + junk() + (last && r.bool(0.5) ? '' : '\n'); }
    this.f('block-comment'); let j = junk().replace(/\*\//g, '* /') + r.pick(['', '\n', '*', '**', '***', '\n*', ' *\n *']); if (j.startsWith('/') && r.bool(0.5)) j = ' ' + j; j = j.replace(/\*\//g, '*_/').replace(/\/$/, '/ '.repeat(1)); return '/*' + j + '*/';
  }
  ws() { return this.r.pick([' ', '  ', '\n', '\t', '\r\n', ' \n\t ', '\n\n']); }
  // tokens -> text; comments: probability of a comment in a gap
  layout(T, comments = 0) {
    const r = this.r; let s = ''; const word = (c) => /[A-Za-z0-9_.$]/.test(c); const style = r.int(3);
    const gap = (must) => {
      let g = ''; const n = style === 0 ? 0 : style === 1 ? 1 : r.int(3);
      if (n) g += this.ws(); if (r.bool(comments)) { const c = r.range(1, 2); for (let i = 0; i < c; i++) { const cm = this.comment(); g += cm; if (r.bool(0.5)) g += this.ws(); } }
      if (must && g === '') g = this.ws(); return g;
    };
    s += gap(false);
    for (let i = 0; i < T.length; i++) {
      const t = T[i]; const txt = t.data !== undefined ? 'data' + (r.bool(0.6) ? ' ' : this.ws()) + '"' + t.data + '"' : t;
      if (i) { const p = s[s.length - 1], prev = T[i - 1]; const must = (typeof prev === 'string' && word(prev[prev.length - 1]) && word(txt[0])) || (/^(hex|data)$/.test(prev) && txt[0] === '"') || (prev === ':' && txt[0] === '='); s += gap(must); }
      s += txt;
    }
    s += gap(false); if (r.bool(comments)) s += this.comment(true);
    return s;
  }
}
module.exports = { Syn, KW, h };
