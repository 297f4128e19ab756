import fs from 'node:fs';
import { simulate } from './wasi.mjs';
import { randomSched, randomMap } from './sched.mjs';
import { Rng } from './rng.mjs';
const m = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const tree = {
  '/w/bus.fbd': { t: 'f', d: 'import p "fbd-p"\nimport q "fbd-q"\nMain bus\n  const X = p.A + 1\n  c config; width = p.A\n  s [q.B] status\n    width = 7\n' },
  '/w/fbd-p/a.fbd': { t: 'f', d: 'const A = 3\n' },
  '/w/fbd-p/b.fbd': { t: 'f', d: 'const C = 3\ntype T(p) config\n  width = p\n' },
  '/w/fbd-q/b.fbd': { t: 'f', d: 'const B = 3\n' },
};
const spec = { tree, args: ['fbdl', '-main', 'Main', '-c', '/w/c.json', 'bus.fbd'], env: { PWD: '/w', GOGC: 'off' }, readBack: ['/w/c.json'] };
let r = simulate(m, spec);
console.log(r.outcome, r.exit, r.stdout.length, r.stderr.slice(0, 500), r.files, r.steps, r.sys, r.error);
console.log(r.ev.join('\n'));
const N = +process.argv[3] || 100;
let t = Date.now(); const hs = new Set(), ms = new Set(), outs = new Set();
for (let i = 0; i < N; i++) {
  const rng = new Rng(i);
  const s = { ...spec, sched: randomSched(rng), mapOrder: randomMap(rng), entropy: i };
  const a = simulate(m, s);
  if (process.argv[4]) { const b = simulate(m, s); if (a.logHash !== b.logHash) console.log('NONDET', i); }
  hs.add(a.schedHash); ms.add(a.mapHash); outs.add(a.exit + a.stdout + JSON.stringify(a.files));
  if (a.exit !== 0) console.log(a.outcome, a.exit, a.stderr.slice(0, 300));
  if (i < 8) console.log(JSON.stringify(s.sched), a.steps, a.switches, a.maxRunnable, a.decisions.length);
}
console.log((Date.now() - t) / N, 'ms/run', hs.size, ms.size, outs.size);
