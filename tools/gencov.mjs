// Development aid: compiles generated projects natively with a coverage build to see what the generator reaches.
// usage: node gencov.mjs COVER_BINARY OUTDIR N [erroneous]
import fs from 'node:fs';
import path from 'node:path';
import { spawnSync } from 'node:child_process';
import { Gen } from '../sim/host/gen.mjs';
import { plain } from '../sim/host/worlds.mjs';
import { injectErrors } from '../sim/host/errs.mjs';
import { Rng } from '../sim/host/rng.mjs';
const [bin, out, n, bad] = process.argv.slice(2);
fs.mkdirSync(`${out}/cov`, { recursive: true });
for (let i = 0; i < +n; i++) {
  const rng = new Rng(`cov:${i}`);
  const P = new Gen(rng, {}).project();
  if (bad) injectErrors(rng, P, rng.range(1, 2));
  const w = plain(P);
  const d = `${out}/t`;
  fs.rmSync(d, { recursive: true, force: true });
  for (const [p, e] of Object.entries(w.tree)) { const q = d + p; if (e.t === 'd') fs.mkdirSync(q, { recursive: true }); else { fs.mkdirSync(path.dirname(q), { recursive: true }); fs.writeFileSync(q, e.d); } }
  const r = spawnSync(bin, ['-add-timestamp', '-main', P.argMain ?? P.mainName, '-c', `${out}/c.json`, w.mainPath], { cwd: d + w.cwd, env: { GOCOVERDIR: `${out}/cov` }, encoding: 'utf8' });
  if ((r.status === 0) === !!bad) console.log(i, r.status, r.stderr.slice(0, 200));
}
