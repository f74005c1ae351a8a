'use strict';
// Batched access to the real front end through the framed driver.
const cp = require('child_process'), path = require('path');
const BIN = path.resolve(__dirname, '../../e2e/target/release/fe');
// reqs: [{mode, data}] -> [{status:'ok'|'error'|'panic'|'died'|'hang', out:Buffer}]; a process that dies is restarted behind the culprit
function run(reqs, timeout = 60000) {
  const out = []; let i = 0;
  while (i < reqs.length) {
    const parts = []; for (const r of reqs.slice(i)) { const b = Buffer.from(r.data); const h = Buffer.alloc(5); h[0] = r.mode.charCodeAt(0); h.writeUInt32LE(b.length, 1); parts.push(h, b); }
    const p = cp.spawnSync(BIN, [], { input: Buffer.concat(parts), timeout, maxBuffer: 1 << 30, stdio: ['pipe', 'pipe', 'ignore'] });
    if (p.error && p.error.code !== 'ETIMEDOUT' && p.error.code !== 'EPIPE') throw p.error;
    const o = p.stdout || Buffer.alloc(0); let k = 0;
    while (k + 5 <= o.length) { const n = o.readUInt32LE(k + 1); if (k + 5 + n > o.length) break; out.push({ status: ['ok', 'error', 'panic'][o[k]], out: o.subarray(k + 5, k + 5 + n) }); i++; k += 5 + n; }
    if (i < reqs.length) { out.push({ status: p.error && p.error.code === 'ETIMEDOUT' ? 'hang' : 'died', out: Buffer.from(String(p.signal || p.status)) }); i++; }
  }
  return out;
}
module.exports = { run, BIN };
