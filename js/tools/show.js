'use strict';
// Prints a replay: body, flags and the words in which the two outcomes differ.
const fs = require('fs'); const f = process.argv[2]; const j = JSON.parse(fs.readFileSync(f)); console.log(j.sig, 'x' + j.count, JSON.stringify(j.spec && j.spec.flags)); console.log(j.detail || j.src);
const m = /source (\w+) 0x(\w*) vs wasm (\w+) 0x(\w*)/.exec(j.why); if (!m) console.log(j.why.slice(0, 600)); else { console.log(m[1], m[3]); for (let i = 0; i < Math.max(m[2].length, m[4].length); i += 64) if (m[2].slice(i, i + 64) !== m[4].slice(i, i + 64)) console.log(i / 2, m[2].slice(i, i + 64), m[4].slice(i, i + 64)); }
if (process.argv[3]) console.log(JSON.stringify(j.spec).slice(0, 3000));
