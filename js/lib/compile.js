'use strict';
const fs = require('fs'), path = require('path'), os = require('os'), cp = require('child_process');
const V = path.resolve(__dirname, '../..');
const BIN = process.env.VERIF_BIN || path.join(V, 'e2e/target/release/yul2wasm');
const RT = path.join(V, '.work/rt');
const DBG = path.join(V, 'e2e/target/dbg/yul2wasm');
let seq = 0;
const scratchRoot = process.env.VERIF_SCRATCH || path.join(os.tmpdir(), 'verif-' + process.pid);
function scratch() { const d = path.join(scratchRoot, (require('worker_threads').threadId) + '-' + (seq++)); fs.mkdirSync(d, { recursive: true }); return d; }
// flags: array of extra CLI flags. Returns {ok, status, signal, stderr, stdout, files:{wasm,cbin,hex}, timeout}
function compile(src, flags = [], o = {}) {
  const d = scratch(); const inp = path.join(d, 'in.yul'), out = path.join(d, 'out.wasm');
  fs.writeFileSync(inp, src);
  const r = cp.spawnSync(o.bin || BIN, ['--input', inp, '--output', out, ...flags], { env: Object.assign({}, process.env, { CHAIN_IR_CLANG_RT_LIB_DIR: RT, RUST_BACKTRACE: '0' }), timeout: o.timeout || 120000, maxBuffer: 1 << 26, cwd: d });
  const rd = (f) => { try { return fs.readFileSync(f); } catch { return null; } };
  const res = { status: r.status, signal: r.signal, timeout: !!(r.error && r.error.code === 'ETIMEDOUT'), stderr: String(r.stderr || ''), stdout: String(r.stdout || ''), wasm: rd(out), cbin: rd(path.join(d, 'out.cbin')), hexf: rd(path.join(d, 'out.cbin.hex')), extra: {}, spawnError: r.error && r.error.code !== 'ETIMEDOUT' ? String(r.error) : null };
  for (const f of fs.existsSync(d) ? fs.readdirSync(d) : []) if (!['in.yul', 'out.wasm', 'out.cbin', 'out.cbin.hex'].includes(f)) { try { res.extra[f] = fs.readFileSync(path.join(d, f)); } catch { /* directory */ } }
  res.ok = r.status === 0 && !!res.wasm;
  if (!o.keep) fs.rmSync(d, { recursive: true, force: true }); else res.dir = d;
  return res;
}
module.exports = { compile, V, BIN, DBG, scratchRoot };
