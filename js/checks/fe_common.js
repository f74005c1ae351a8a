'use strict';
const F = require('../lib/fe.js');
// runs a batch; cb(i, reply) for each
function batch(ctx, reqs, cb) { const t = setInterval(() => {}, 1000); const out = F.run(reqs); clearInterval(t); ctx.tick(); out.forEach((o, i) => cb(i, o)); }
const firstDiff = (a, b) => { let k = 0; while (k < a.length && a[k] === b[k]) k++; return `at ${k}: got ..${a.slice(Math.max(0, k - 60), k + 80)} expected ..${b.slice(Math.max(0, k - 60), k + 80)}`; };
function* jobs() { for (let n = 0; ; n++) yield { n }; }
module.exports = { batch, firstDiff, jobs };
