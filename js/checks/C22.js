'use strict';
const { Rng, hex } = require('../lib/util.js'); const B = require('../lib/batch.js'); const { jobs } = require('./fe_common.js'); const abi = require('../lib/abi.js'); const { keccak256 } = require('../lib/keccak.js');
const cp = require('child_process'), fs = require('fs'), path = require('path'); const V = path.resolve(__dirname, '../..'); const REPO = process.env.VERIF_REPO || '/repo'; const PY = '/opt/vp/venv/bin/python';
const ENC = path.join(REPO, 'examples/scripts/abi_encode.py'), B2H = path.join(REPO, 'examples/scripts/bin_to_hex.py');
const A160 = (1n << 160n) - 1n;
const checksum = (h) => { const k = hex(keccak256(Buffer.from(h))); return [...h].map((c, i) => (parseInt(k[i], 16) >= 8 ? c.toUpperCase() : c)).join(''); };
class Gen {
  constructor(r, R) { this.r = r; this.R = R; }
  type(inner) { const r = this.r; const k = r.int(inner ? 5 : 8); if (k >= 5) return r.pick(['address', 'bool', 'string']) + '[]'; return [() => 'uint' + r.pick([8 * r.range(1, 32), 256, 256, 8, 160, 128]), () => 'int' + r.pick([8 * r.range(1, 32), 256, 8]), () => 'address', () => 'bool', () => 'string'][k](); }
  range(t) { const w = BigInt(/\d+$/.exec(t) ? /\d+$/.exec(t)[0] : 256); return t[0] === 'u' ? [0n, (1n << w) - 1n] : [-(1n << (w - 1n)), (1n << (w - 1n)) - 1n]; }
  value(t, elem) { // -> [value, text]
    const r = this.r;
    if (/\[\]$/.test(t)) { const n = r.pick([1, 2, 3, 5, 1 + r.int(40)]); const e = t.slice(0, -2); const L = Array.from({ length: n }, () => this.value(e, true)); B.bump(this.R, 'array:' + Math.min(n, 4)); return [L.map((x) => x[0]), L.map((x) => x[1]).join(r.pick([',', ',', ', ', ' ,']))]; }
    if (/^u?int/.test(t)) { const [lo, hi] = this.range(t); const v = r.pick([() => lo, () => hi, () => 0n, () => 1n, () => (lo < 0n ? -1n : hi >> 1n), () => { const x = r.u256() % (hi - lo + 1n); return lo + x; }])(); return [v, (v >= 0n && r.bool(0.05) ? '00' : '') + v]; }
    if (t === 'address') { const v = r.pick([0n, 1n, A160, r.u256() & A160, r.u256() & A160]); const h = v.toString(16).padStart(40, '0'); return [v, r.pick(['0x', '0x', '']) + r.pick([h, h.toUpperCase(), checksum(h)])]; }
    if (t === 'bool') { const b = r.bool(); return [b, r.pick(b ? ['true', 'True', 'TRUE'] : ['false', 'False', 'FALSE'])]; }
    const n = r.pick([0, 1, 5, 31, 32, 33, 64, 65, r.int(200)]); let s = ''; for (let i = 0; i < n; i++) s += elem ? r.pick([...'abcXYZ09é😀:-_']) : r.pick([...'abc XYZ09é😀,"\'\\\n\t0x()[]:-']);
    return [s, s];
  }
  bad(t) { // a text that is no value of the type
    const r = this.r;
    if (/\[\]$/.test(t)) { const e = t.slice(0, -2); if (e === 'string') return null; const b = this.bad(e); if (b === null || b === '') return null; const L = Array.from({ length: r.int(3) }, () => this.value(e, true)[1]); L.splice(r.int(L.length + 1), 0, b); return L.join(','); }
    if (/^u?int/.test(t)) { const [lo, hi] = this.range(t); return r.pick([() => String(hi + 1n), () => String(lo - 1n), () => String(hi + 1n + (r.u256() >> 10n)), () => 'x', () => '', () => '1.5', () => '0xg', () => '1 2', () => String(lo - 1n - (r.u256() >> 5n))])(); }
    if (t === 'address') { const h = this.value('address')[1].replace(/^0x/, '').toLowerCase(); return r.pick([() => '0x' + h.slice(1), () => '0x0' + h, () => '0x' + h.slice(0, 39) + 'g', () => '', () => '0x', () => '0x' + h + '00', () => '12']) (); }
    // (a bool that is neither true nor false: see KNOWN)
    return null;
  }
  name() { const r = this.r; return r.pick(['transfer', 'balanceOf', 'f', '_x', '$y', 'a1', 'veryLongFunctionNameIndeed_0123456789']) + (r.bool(0.5) ? r.int(1000) : ''); }
}
// known findings, each by its own arguments: the right outcome (calldata, or null: refused) and the recorded wrong one
const W = (...w) => w.map((x) => BigInt(x).toString(16).padStart(64, '0')).join('');
const KNOWN = [
  { sig: 'script: array of integers refused', argv: ['f(uint256[])', '1,2'], right: abi.calldata('f', ['uint256[]'], [[1n, 2n]]), wrong: null },
  { sig: 'script: array of one integer refused', argv: ['f(int8[])', '5'], right: abi.calldata('f', ['int8[]'], [[5n]]), wrong: null },
  { sig: 'script: empty array is encoded as one empty element', argv: ['f(string[])', ''], right: abi.calldata('f', ['string[]'], [[]]), wrong: abi.calldata('f', ['string[]'], [['']]) },
  { sig: 'script: a bool of yes is false', argv: ['f(bool)', 'yes'], right: null, wrong: abi.calldata('f', ['bool'], [false]) },
  { sig: 'script: selector of uint', argv: ['f(uint)', '1'], right: abi.calldata('f', ['uint256'], [1n]), wrong: '0x' + hex(keccak256(Buffer.from('f(uint)'))).slice(0, 8) + W(1) },
  { sig: 'script: unclosed signature accepted', argv: ['f(uint256x', '1'], right: null, wrong: '0x' + hex(keccak256(Buffer.from('f(uint256x'))).slice(0, 8) + W(1) },
];
module.exports = {
  build: [], quickSeconds: 30, thoroughSeconds: 400, minJobs: 16, minEvals: 1000, jobs, level: 'exploration', stallSeconds: 90,
  rule: 'one evaluation = one run of abi_encode.py or bin_to_hex.py; distinct = distinct argument vectors or files whose output was as specified',
  assumptions: ['js/lib/abi.js (written from the ABI specification) is the encoding', 'the scripts run inside one Python process per job (a sample of the runs is a process of its own)'],
  runJob(job, ctx) {
    const R = B.newResult(); const rng = new Rng(`C22/${ctx.seed}/${job.n}`); const g = new Gen(rng, R); const dir = fs.mkdtempSync(path.join(process.env.VERIF_SCRATCH || '/tmp', 'c22-')); const reqs = [];
    for (let i = 0; i < 220; i++) {
      if (rng.bool(0.15)) { // bin_to_hex
        const n = rng.pick([0, 1, 2, 255, 256, 257, 4096, 65536, 65537, rng.int(200000)]); const data = n === 256 ? Uint8Array.from({ length: 256 }, (_, j) => j) : rng.bool(0.3) ? Buffer.from('line\r\n\x1a\0é'.repeat(n / 8)) : rng.bytes(n); const f = path.join(dir, 'i' + i), o = path.join(dir, 'o' + i);
        const miss = rng.bool(0.1); if (!miss) fs.writeFileSync(f, data); if (rng.bool(0.3) && !miss) fs.writeFileSync(o, 'x'.repeat(rng.int(3) * n + 10)); reqs.push({ kind: 'b2h', miss, data, o, req: { script: B2H, argv: [f, o] } }); B.bump(R, 'bin_to_hex'); continue;
      }
      const n = rng.pick([0, 1, 1, 2, 3, 4, rng.int(9)]); const ts = Array.from({ length: n }, () => g.type()); const vs = ts.map((t) => g.value(t)); const name = g.name(); let texts = vs.map((x) => x[1]); let kind = 'good', why = '';
      if (rng.bool(0.25)) {
        const m = rng.int(4);
        if (m === 0) { if (n && rng.bool()) texts = texts.slice(1); else texts = [...texts, rng.pick(['1', '', 'x'])]; kind = 'bad'; why = 'argument count'; }
        else if (m === 1) { const u = rng.pick(['uint257', 'uint0', 'int7', 'foo', 'uint256[', 'bytes33', 'addres', 'uint 8']); const at = rng.int(n + 1); ts.splice(at, 0, u); texts.splice(at, 0, '1'); kind = 'bad'; why = 'unknown type ' + u; }
        else if (n) { const at = rng.int(n); const b = g.bad(ts[at]); if (b !== null) { texts[at] = b; kind = 'bad'; why = `${ts[at]} of ${JSON.stringify(b)}`; } }
      }
      let sig = `${name}(${ts.join(',')})`; if (kind === 'good' && rng.bool(0.04)) { sig = name; kind = 'bad'; why = 'signature ' + sig; }
      const dash = texts.some((t) => t[0] === '-' && !/^-\d+$/.test(t)); const argv = [...(dash || rng.bool(0.3) ? ['--'] : []), sig, ...texts];
      if (argv.some((a) => a.includes('\0'))) continue;
      B.bump(R, 'encode:' + kind); for (const t of ts) B.bump(R, 'type:' + t.replace(/\d+/, 'N')); reqs.push({ kind, why, want: kind === 'good' ? abi.calldata(name, ts, vs.map((x) => x[0])) : null, req: { script: ENC, argv } });
    }
    if (job.n === 0) for (const k of KNOWN) reqs.push({ kind: 'known', k, req: { script: ENC, argv: k.argv } });
    const env = Object.assign({}, process.env, { PYTHONDONTWRITEBYTECODE: '1', PYTHONUTF8: '1' });
    const p = cp.spawnSync(PY, [path.join(V, 'py/scripts_driver.py')], { input: reqs.map((q) => JSON.stringify(q.req)).join('\n') + '\n', encoding: 'utf8', env, maxBuffer: 1 << 28, timeout: 60000 }); const outs = (p.stdout || '').trim().split('\n'); ctx.tick();
    if (outs.length !== reqs.length) { if (p.signal || p.status === null) { R.inconclusive.push('python driver: ' + (p.error || p.signal)); return R; } throw new Error('driver: ' + String(p.stderr).slice(-600)); }
    const check = (q, a, how) => {
      R.evals++; const fail = (sig, why) => R.failures.push({ sig, why: `${how}: ${why}`, src: JSON.stringify(q.req.argv), detail: JSON.stringify(a).slice(0, 800) }); const key = JSON.stringify(q.req.argv);
      if (q.kind === 'known') { const got = a.status === 0 ? a.out.trim() : null; if (got === q.k.right) return; return fail(got === q.k.wrong ? q.k.sig : q.k.sig + ' (otherwise)', `printed ${got}, expected ${q.k.right}`); }
      if (q.kind === 'good') { if (a.status !== 0) return fail('valid-call-refused', `status ${a.status}: ${a.err}`); if (a.out !== q.want + '\n') return fail('wrong-calldata', `printed ${a.out.trim()}, the encoding is ${q.want}`); }
      else if (q.kind === 'bad') { if (a.status === 0) return fail('invalid-call-accepted', `accepted (${q.why}): ${a.out.trim()}`); if (/0x[0-9a-f]{8}/.test(a.out)) return fail('invalid-call-printed', `printed calldata although refused (${q.why})`); }
      else if (q.miss) { if (fs.existsSync(q.o) || /success/i.test(a.out)) return fail('missing-input', 'a missing input was reported as converted'); }
      else { const got = fs.existsSync(q.o) ? fs.readFileSync(q.o, 'latin1') : null; if (got !== hex(q.data)) return fail('hex-differs', `hex of ${q.data.length} bytes differs (${got === null ? 'no file' : got.length + ' characters'}) status ${a.status} ${a.out}${a.err}`.slice(0, 400)); R.distinct.push('b2h' + got.length + got.slice(0, 40)); return; }
      R.distinct.push(key); if (R.samples.length < 2 && q.kind === 'good' && key.length < 120) R.samples.push({ argv: q.req.argv, calldata: q.want });
    };
    reqs.forEach((q, i) => check(q, JSON.parse(outs[i]), 'in process'));
    for (let i = 0; i < 3; i++) { const q = rng.pick(reqs); const a = cp.spawnSync(PY, [q.req.script, ...q.req.argv], { encoding: 'utf8', env, timeout: 40000, maxBuffer: 1 << 26 }); if (a.status === null) { R.inconclusive.push('python: ' + (a.error || a.signal)); continue; } check(q, { status: a.status, out: a.stdout, err: a.stderr.slice(-300) }, 'own process'); B.bump(R, 'own_process'); ctx.tick(); }
    fs.rmSync(dir, { recursive: true, force: true });
    return R;
  },
};
