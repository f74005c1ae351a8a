'use strict';
// node js/run.js <CHECK> : builds what the check needs, runs its jobs on a worker pool, reports.
const { Worker } = require('worker_threads');
const fs = require('fs'), path = require('path'), os = require('os'), cp = require('child_process');
const V = path.resolve(__dirname, '..');
const id = process.argv[2], replayArg = process.argv[3];
const seed = process.env.VERIF_SEED || '1', tier = process.env.VERIF_TIER || 'quick';
const chk = require('./checks/' + id + '.js');
const t0 = Date.now();
const log = (s) => console.log(`[${id} ${((Date.now() - t0) / 1000).toFixed(1)}s] ${s}`);
function die(msg) { console.log(`ERROR ${id}: ${msg}`); cleanup(); process.exit(2); }
const scratch = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-')); process.env.VERIF_SCRATCH = scratch;
function cleanup() { try { fs.rmSync(scratch, { recursive: true, force: true }); } catch { /* gone */ } }
for (const step of process.env.VERIF_NOBUILD ? [] : chk.build || []) {
  const r = cp.spawnSync('bash', [path.join(V, 'tools', step)], { stdio: ['ignore', 'pipe', 'pipe'], maxBuffer: 1 << 28 });
  if (r.status !== 0 && step === 'build_native.sh' && chk.native) { log('the runtime library can not be built natively; its native jobs are left out'); process.env.VERIF_NONATIVE = '1'; continue; }
  if (r.status !== 0) die(`build step ${step} failed:\n${String(r.stdout).slice(-2000)}\n${String(r.stderr).slice(-4000)}`);
}
log('built');
const known = fs.existsSync(path.join(V, 'known_findings.json')) ? JSON.parse(fs.readFileSync(path.join(V, 'known_findings.json'))).filter((k) => k.property === id && k.status === 'open') : [];
const LIMIT = { quick: Number(process.env.VERIF_BUDGET || chk.quickSeconds || 100), thorough: Number(process.env.VERIF_BUDGET || chk.thoroughSeconds || 900) }[tier] * 1000;
const NW = Number(process.env.VERIF_WORKERS || Math.min(8, os.cpus().length));
// After an unlisted violation the check goes on for a moment to see more of them, then ends what is still running.
const isKnown = (f) => known.some((x) => x.signature === f.sig);
const workers = new Set(); let stopAt = Infinity;
function violated() { if (stopAt < Infinity || replayArg || process.env.VERIF_ALL) return; stopAt = Date.now() + 5000; setTimeout(() => { for (const stop of [...workers]) stop(); }, 20000).unref(); }
const agg = { evals: 0, jobs: 0, skipped: 0, distinct: new Set(), stats: {}, failures: [], inconclusive: [], crashes: [], samples: [] };
function absorb(job, r) {
  agg.jobs++;
  if (r.crash) { agg.crashes.push({ job, crash: r.crash }); return; }
  agg.evals += r.evals || 0; agg.skipped += r.skipped || 0;
  for (const d of r.distinct || []) if (agg.distinct.size < 3e6) agg.distinct.add(d);
  for (const k in r.stats || {}) agg.stats[k] = (agg.stats[k] || 0) + r.stats[k];
  for (const f of r.failures || []) { agg.failures.push(Object.assign({ job }, f)); if (!isKnown(f)) violated(); }
  for (const s of r.inconclusive || []) agg.inconclusive.push(s);
  if (agg.samples.length < 12) for (const s of (r.samples || []).slice(0, 2)) agg.samples.push(s);
}
const jobs = replayArg ? [JSON.parse(fs.readFileSync(replayArg)).job][Symbol.iterator]() : chk.jobs({ seed, tier });
const minJobs = chk.minJobs || 0; // jobs that run whatever the time budget says
let started = 0, done = false, retry = [];
function nextJob() {
  if (Date.now() > stopAt) return null;
  if (retry.length) return retry.shift();
  if (done || (started >= minJobs && Date.now() - t0 > LIMIT)) return null;
  if (agg.failures.length > 400) return null;
  const n = jobs.next(); if (n.done) { done = true; return null; }
  started++; return { job: n.value, tries: 0 };
}
const STALL = (chk.stallSeconds || 60) * 1000;
let active = 0;
function spawn() {
  const it = nextJob(); if (!it) return;
  active++;
  const sab = new SharedArrayBuffer(8), beat = new Int32Array(sab);
  const w = new Worker(path.join(__dirname, 'lib/worker.js'), { workerData: { sab, seed, tier }, resourceLimits: { maxOldGenerationSizeMb: 3000 } });
  let cur = it, last = -1, lastT = Date.now(), over = false;
  const lim = () => cur.tries ? STALL * 3 : STALL;
  const tm = setInterval(() => {
    const b = Atomics.load(beat, 0); if (b !== last) { last = b; lastT = Date.now(); return; }
    if (Date.now() - lastT < lim()) return;
    end(); w.terminate();
    if (cur.tries >= 1) { // hung again, alone on its worker with a longer limit
      violated(); agg.failures.push({ job: cur.job, sig: 'hang', why: `no progress for ${lim() / 1000}s at case ${b} of the job, twice; the reference finished` });
    } else retry.push({ job: cur.job, tries: cur.tries + 1 });
    spawn(); finish();
  }, 1000);
  function end() { if (over) return; over = true; clearInterval(tm); active--; workers.delete(stop); }
  function stop() { if (over) return; end(); w.terminate(); finish(); }
  workers.add(stop);
  w.on('message', (m) => { absorb(cur.job, m.r); const n = nextJob(); if (!n) { end(); w.terminate(); finish(); return; } cur = n; lastT = Date.now(); w.postMessage({ id: started, check: id, job: cur.job }); });
  w.on('error', (e) => { if (over) return; end(); if (cur.tries >= 1) agg.crashes.push({ job: cur.job, crash: 'worker: ' + (e.stack || e) }); else retry.push({ job: cur.job, tries: 1 }); spawn(); finish(); });
  w.on('exit', () => { if (over) return; end(); agg.crashes.push({ job: cur.job, crash: 'worker exited' }); spawn(); finish(); });
  w.postMessage({ id: started, check: id, job: cur.job });
}
let finished = false;
function finish() {
  if (active || finished) return; finished = true;
  cleanup();
  if (agg.crashes.length) { for (const c of agg.crashes.slice(0, 5)) console.log('CRASH', JSON.stringify(c.job).slice(0, 300), c.crash.slice(0, 1500)); }
  // group failures by signature; known findings match an exact signature
  const groups = new Map(); if (process.env.VERIF_ALL) for (const f of agg.failures) console.log("F", JSON.stringify(f.spec).slice(0, 300), String(f.why).slice(0, 150)); for (const f of agg.failures) { const g = groups.get(f.sig) || []; g.push(f); groups.set(f.sig, g); }
  const knownHit = new Set(); let bad = [];
  for (const [sig, fs_] of groups) { const k = known.find((x) => x.signature === sig); if (k) knownHit.add(k); else bad.push([sig, fs_]); }
  for (const k of known) if (knownHit.has(k)) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
  const problem = agg.crashes.length ? 'machinery crash' : null;
  if (!replayArg) writeEvidence(bad, [...knownHit]);
  log(`jobs=${agg.jobs} evaluations=${agg.evals} distinct=${agg.distinct.size} skipped=${agg.skipped} inconclusive=${agg.inconclusive.length} stats=${JSON.stringify(agg.stats).slice(0, 1500)}`);
  for (const s of agg.inconclusive.slice(0, 3)) console.log('INCONCLUSIVE', String(s).slice(0, 300));
  if (bad.length) {
    const rd = path.join(V, 'replays'); fs.mkdirSync(rd, { recursive: true }); let n = 0;
    for (const [sig, fl] of bad.slice(0, 40)) {
      const p = path.join(rd, `${id}-${process.pid}-${n++}.json`); fs.writeFileSync(p, JSON.stringify({ check: id, seed, tier, sig, count: fl.length, job: fl[0].job, why: fl[0].why, src: fl[0].src, spec: fl[0].spec, detail: fl[0].detail }, (k, v) => (typeof v === 'bigint' ? '0x' + v.toString(16) : v), 1));
      console.log(`  ${sig} x${fl.length}: ${String(fl[0].why).slice(0, 400)}`); console.log(`VIOLATION property=${id} replay=${p}`);
    }
    process.exit(1);
  }
  if (problem) { console.log(`ERROR ${id}: ${problem}`); process.exit(2); }
  if (!replayArg && (agg.evals < (chk.minEvals || 1) || agg.inconclusive.length > Math.max(20, agg.evals * 0.05))) { console.log(`ERROR ${id}: too little observed (evaluations=${agg.evals}, inconclusive=${agg.inconclusive.length})`); process.exit(2); }
  process.exit(0);
}
function writeEvidence(bad, kn) {
  fs.mkdirSync(path.join(V, 'evidence'), { recursive: true });
  const ev = { property: id, level: chk.level || 'exploration', tier, seed: Number(seed) || 0, wall_s: (Date.now() - t0) / 1000, violations: bad.length, assumptions: chk.assumptions || [],
    coverage: { evaluations: agg.evals, distinct_nontrivial: agg.distinct.size, rule: chk.rule || '', samples: agg.samples.slice(0, 12).map((s) => (typeof s === 'string' ? s : JSON.stringify(s, (k, v) => (typeof v === 'bigint' ? '0x' + v.toString(16) : v)))), jobs: agg.jobs, skipped: agg.skipped, inconclusive: agg.inconclusive.length, observed: agg.stats, known_findings_seen: kn.map((k) => k.signature) } };
  fs.writeFileSync(path.join(V, 'evidence', id + '.json'), JSON.stringify(ev, null, 1) + '\n');
}
for (let i = 0; i < NW; i++) spawn();
finish();
