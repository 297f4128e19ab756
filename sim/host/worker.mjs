// Worker thread: executes cases and minimises violations.
import { parentPort, workerData } from 'node:worker_threads';
import { makeCtx, exec } from './ctx.mjs';
import { PROPS, setEnvs } from './props.mjs';
import { Rng } from './rng.mjs';
import { minimise } from './min.mjs';

const { modules, prop, seed, repo, sites, hot, nsites, envs } = workerData;
setEnvs(envs);
const P = PROPS[prop];

parentPort.on('message', (m) => {
  if (m.op === 'case') {
    const ctx = makeCtx({ modules, repo, sites, hot, nsites });
    const rng = new Rng(`${seed}:${prop}:${m.index}`);
    if (m.trace) { const run = ctx.run; ctx.run = (s) => { parentPort.postMessage({ op: 'start', spec: s }); return run(s); }; }
    let error = null;
    try { P.go(ctx, rng); } catch (e) { error = e.stack ?? String(e); }
    parentPort.postMessage({ op: 'done', index: m.index, error, violation: ctx.violation, stats: ctx.stats });
  } else if (m.op === 'run') {
    exec(modules, m.spec, nsites);
    parentPort.postMessage({ op: 'ran' });
  } else if (m.op === 'min') {
    let out = null, error = null;
    try { out = minimise(m.violation, { modules, nsites, budgetMs: m.budgetMs }); } catch (e) { error = e.stack ?? String(e); }
    parentPort.postMessage({ op: 'min', out, error });
  } else if (m.op === 'known') {
    const res = {};
    let error = null;
    try {
      for (const k of m.keys) { const ctx = makeCtx({ modules, repo, sites, hot, nsites }); res[k] = P.known?.[k] ? P.known[k](ctx) : null; }
    } catch (e) { error = e.stack ?? String(e); }
    parentPort.postMessage({ op: 'known', res, error });
  }
});
