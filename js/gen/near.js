'use strict';
// Families of equal and nearly equal functions.
const OPS = ['add', 'sub', 'mul', 'div', 'sdiv', 'mod', 'smod', 'and', 'or', 'xor', 'lt', 'gt', 'slt', 'sgt', 'eq', 'shl', 'shr', 'sar', 'byte', 'signextend', 'exp'];
const LITS = [0n, 1n, 2n, 3n, 7n, 31n, 32n, 255n, 256n, 0xffffffffn, 0x100000000n, (1n << 64n) - 1n, 1n << 64n, (1n << 160n) - 1n, 1n << 255n, (1n << 256n) - 1n];
// holes: {k:'lit'|'op'|'var'|'call', v}; a template is an array of strings and hole kinds in between
const T = [
  ['$d := ', '@op', '($v, $v)'], ['$d := ', '@op', '($v, ', '@lit', ')'], ['$d := ', '@op', '(', '@lit', ', $v)'], ['$d := add($d, ', '@op', '($v, $v))'], ['sstore(', '@lit', ', $v)'], ['sstore($v, ', '@lit', ')'], ['tstore($v, $v)'],
  ['if ', '@op', '($v, ', '@lit', ') { $d := add($d, ', '@lit', ') }'], ['if $v { $d := xor($d, ', '@lit', ') }'], ['mstore(0x180, ', '@op', '($v, $v)) $d := xor($d, mload(0x180))'], ['mstore8(0x19f, ', '@lit', ') $d := add($d, mload(0x180))'],
  ['switch and($v, 3) case 0 { $d := ', '@lit', ' } case 1 { $d := ', '@op', '($v, $v) } default { $d := $v }'], ['switch $v case ', '@lit', ' { $d := ', '@lit', ' } default { $d := add($d, 1) }'],
  ['for { let i := 0 } lt(i, ', '@small', ') { i := add(i, 1) } { $d := ', '@op', '($d, $v) if eq(i, ', '@small', ') { break } }'], ['log1(0, 0, $v)'], ['log2(0, 0, $v, ', '@lit', ')'], ['$d := ', '@call', '($v, $v)'], ['if gt($v, ', '@lit', ') { leave }'], ['$d := addmod($v, $v, ', '@lit', ')'], ['$d := keccak256(0x180, ', '@small', ')'],
];
class Near {
  constructor(rng, callees = []) { this.r = rng; this.callees = callees; }
  hole(k) { const r = this.r; switch (k) { case '@op': return { k, v: r.pick(OPS) }; case '@lit': return { k, v: r.bool(0.8) ? r.pick(LITS) : r.u256() }; case '@small': return { k, v: BigInt(r.int(6)) }; case '@call': return { k, v: r.pick(this.callees) }; } }
  fn() {
    const r = this.r, nr = r.pick([0, 1, 1, 1, 2, 3]), np = r.pick([0, 1, 2, 2, 2, 3]); const f = { p: ['a', 'b', 'c'].slice(0, np), q: ['r', 's', 'u'].slice(0, nr), st: [] };
    f.st.push({ t: ['let t := ', '@lit'], h: [this.hole('@lit')], vs: [] });
    for (let i = r.range(1, 5); i > 0; i--) { const t = r.pick(this.callees.length ? T : T.filter((x) => !x.includes('@call'))); f.st.push(this.inst(t, f)); }
    for (const q of f.q) if (r.bool(0.5)) f.st.push({ t: [`${q} := add(${q}, t)`], h: [], vs: [], fixed: true });
    return f;
  }
  inst(t, f) { const r = this.r; const vs = [f.p.concat(f.q, 't'), f.q.concat('t')]; const s = { t, h: [], vs: [] }; const d = r.pick(vs[1]); for (const x of t) { if (x[0] === '@') s.h.push(this.hole(x)); else for (const m of x.matchAll(/\$[vd]/g)) s.vs.push(m[0] === '$d' ? d : r.pick(vs[0])); } return s; }
  lit(v) { return this.r.pick(['0x' + v.toString(16), v.toString(), '0x0' + v.toString(16)]).slice(0, 66); }
  render(f, name, ren = {}) {
    const R = (x) => ren[x] || x; let o = '';
    for (const s of f.st) { let hi = 0, vi = 0, b = ''; for (const x of s.t) { if (x[0] === '@') { const h = s.h[hi++]; b += h.k === '@lit' || h.k === '@small' ? (h.v >> 252n ? '0x' + h.v.toString(16) : this.lit(h.v)) : h.v; } else b += s.fixed ? x.replace(/\b[a-z]\b/g, (m) => R(m)) : x.replace(/\$[vd]/g, () => R(s.vs[vi++])).replace(/\bt\b/g, R('t')); } o += b + '\n'; }
    return `function ${name}(${f.p.map(R).join(', ')})${f.q.length ? ' -> ' + f.q.map(R).join(', ') : ''} {\n${o}}\n`;
  }
  clone(f) { return { p: [...f.p], q: [...f.q], st: f.st.map((s) => ({ t: s.t, h: s.h.map((h) => ({ ...h })), vs: [...s.vs], fixed: s.fixed })) }; }
  // one small difference; returns [fn, kind]
  mutate(f0) {
    const r = this.r; for (let tries = 0; tries < 40; tries++) {
      const f = this.clone(f0); const s = r.pick(f.st);
      switch (r.int(11)) {
        case 0: case 1: case 2: if (s.h.length) { const h = r.pick(s.h); const o = h.v; if (h.k === '@lit') h.v = r.pick([o ^ 1n, o ^ (1n << BigInt(r.int(256))), r.pick(LITS)]); else if (h.k === '@small') h.v = o ^ 1n; else Object.assign(h, this.hole(h.k)); if (h.v !== o) return [f, h.k]; } break;
        case 3: { const i = r.int(f.st.length), j = r.int(f.st.length); if (i && j && i !== j) { [f.st[i], f.st[j]] = [f.st[j], f.st[i]]; return [f, 'order']; } break; }
        case 4: if (f.st.length > 2) { f.st.splice(1 + r.int(f.st.length - 1), 1); return [f, 'drop']; } break; case 5: { const i = 1 + r.int(f.st.length - 1); if (f.st[i]) { f.st.splice(i, 0, this.clone({ p: [], q: [], st: [f.st[i]] }).st[0]); return [f, 'double']; } break; }
        case 6: case 7: if (s.vs.length && s.t.filter((x) => x.includes('$d')).length === 0) { const i = r.int(s.vs.length), n = r.pick(f.p.concat(f.q, 't')); if (n !== s.vs[i]) { s.vs[i] = n; return [f, 'var']; } } break;
        case 8: if (f.p.length > 1) { f.p.reverse(); return [f, 'params']; } break; case 9: if (f.q.length > 1) { f.q.reverse(); return [f, 'returns']; } break;
        default: return [f, 'same'];
      }
    }
    return [this.clone(f0), 'same'];
  }
  renames() { const r = this.r; if (r.bool(0.5)) return {}; const pool = ['x', 'y', 'z', 'w', 'v', 'value', 'ret', 'var_a', '_1', '_2', 'cleaned', 'a', 'b', 'r', 't', 'zero_0', 'p$', '$p', '$', 'r_1', 'a.b']; const ren = {}; const used = new Set(); for (const k of ['a', 'b', 'c', 'r', 's', 'u', 't']) { let n; do n = r.pick(pool) + (r.bool(0.3) ? r.int(9) : ''); while (used.has(n)); used.add(n); ren[k] = n; } return ren; }
}
// functions that only fail, and their neighbours
const REVERTS = ['revert(0, 0)', 'revert(0, 0)', 'revert(0x00, 0x0)', 'revert(0, 1)', 'revert(0, 32)', 'revert(1, 0)', 'revert(4, 0x24)', '{ revert(0, 0) }', 'revert(0, 0) revert(0, 1)', 'mstore(0, 5) revert(0, 0)', 'sstore(1, 2) revert(0, 0)', 'return(0, 0)', 'return(0, 32)', 'stop()', 'invalid()', 'pop(0) revert(0, 0)', 'revert("", 0)', 'revert("", "")', 'revert(false, false)', 'revert(false, true)', 'revert(add(0, 0), 0)', 'if 1 { revert(0, 0) }', 'if 0 { revert(0, 0) }', 'revert(0, 0) leave', 'leave revert(0, 0)', 'let z := 0 revert(0, z)', 'let z := 33 revert(0, z)', 'revert(0, returndatasize())', 'revert(0, calldatasize())', 'revert(0, 0x0100000000)', '', 'log0(0, 0) revert(0, 0)', 'revert(0, 0x0000000000000000000000000000000000000000000000000000000000000000)', 'for { } 1 { } { revert(0, 0) }', 'revert("a", 0)', 'revert(0, "")', 'revert(0, 00)'].filter((x) => !/ 00\)/.test(x));
const RNAMES = ['revert_error_dbdddcbe895c83990c08b3492a0e83918d802a52331272ac6fdb6a7c4aea3b1b', 'revert_error_', 'panic_error_0x11', 'revert_forward_1', 'fail', 'require_helper', 'revert_error_zero', 'unified_revert_error_zero', '$unified_revert_error_zero', 'unified_revert', 'wrapper_revert', 'abi_revert', 'init', 'deploy', 'main', 'stop_', 'memory', '_start', 'malloc'];
module.exports = { Near, REVERTS, RNAMES };
