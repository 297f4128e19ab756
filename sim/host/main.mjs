// Driver of the checks: node main.mjs check <property> <dir with guests> | node main.mjs replay <file> <dir>
import fs from 'node:fs';
import path from 'node:path';
import { Worker } from 'node:worker_threads';
import { fileURLToPath } from 'node:url';
import { load } from './modules.mjs';
import { PROPS, setEnvs } from './props.mjs';
import { BUDGET } from './budget.mjs';
import { newStats, exec, makeCtx } from './ctx.mjs';
import { Rng, hashOf } from './rng.mjs';
import { execFileSync } from 'node:child_process';
import { judges } from './judges.mjs';

const here = path.dirname(fileURLToPath(import.meta.url));
const root = path.resolve(here, '../..');
const HOT = /^(internal\/(prs|tok|ast|util)\/|pkg\/fbdl\/[^/]*$)/;

function guests(dir) {
  const meta = JSON.parse(fs.readFileSync(path.join(dir, 'sites.json'), 'utf8'));
  setEnvs(meta.envs);
  return { modules: { fbdl: load(path.join(dir, 'fbdl.wasm')), harness: load(path.join(dir, 'harness.wasm')) }, meta };
}
function merge(a, b) {
  for (const k of Object.keys(b)) {
    if (k === 'distinct') for (const h of b.distinct) a.distinctSet.add(h);
    else if (k === 'parked') for (const s of b.parked) a.parkedSet.add(s);
    else if (k === 'maxRunnable') a[k] = Math.max(a[k], b[k]);
    else if (typeof b[k] === 'number') a[k] += b[k];
    else for (const [x, n] of Object.entries(b[k])) a[k][x] = (a[k][x] ?? 0) + n;
  }
}
export function knownFindings() {
  const out = [];
  let t = ''; try { t = fs.readFileSync(path.join(root, 'known_findings.txt'), 'utf8'); } catch { /* none */ }
  for (const l of t.split('\n')) { const m = /^finding: property=(\S+) key=(\S+) (.*)$/.exec(l); if (m) out.push({ prop: m[1], key: m[2], text: m[3] }); }
  return out;
}

async function check(prop, dir) {
  const t0 = Date.now();
  const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
  const seed = Number.parseInt(process.env.VERIF_SEED || '1', 10) || 0;
  const P = PROPS[prop];
  if (!P) throw new Error(`no check for property ${prop}`);
  const { modules, meta } = guests(dir);
  if (P.needs === 'full' && meta.mode !== 'full') throw new Error('access tracking could not be compiled into the current tree');
  const siteList = meta.sites; // [{id?, pkg, ...}]
  const ids = [], hot = [], names = {};
  const repo = process.env.VERIF_REPO ?? '/repo';
  for (const s of siteList) {
    const pos = s.pos.startsWith(repo + '/') ? s.pos.slice(repo.length + 1) : s.pos;
    names[s.id] = pos;
    if (['R', 'W', 'MR', 'MW', 'A'].includes(s.kind)) { ids.push(s.id); if (HOT.test(pos)) hot.push(s.id); }
  }
  const nsites = Math.max(0, ...siteList.map((s) => s.id)) + 1;
  const b = BUDGET[prop];
  const total = Number(process.env.VERIF_CASES || b[tier]);
  const limitMs = Number(process.env.VERIF_TIME_MS ?? (tier === 'quick' ? 400e3 : 3600e3));
  const nw = Math.max(1, Math.min(Number(process.env.VERIF_WORKERS ?? 8), total));
  console.log(`property=${prop} tier=${tier} seed=${seed} cases=${total} workers=${nw} instrumentation=${meta.mode}`);

  const stats = Object.assign(newStats(), { distinctSet: new Set(), parkedSet: new Set() });
  const violations = [];
  let next = 0, done = 0, stop = false;
  const errors = [], stuck = [];
  let stopped = null;
  const stuckMs = Number(process.env.VERIF_STUCK_MS ?? 200e3);
  const startWorker = () => new Worker(path.join(here, 'worker.mjs'), { workerData: { modules, prop, seed, repo, sites: ids, hot: hot.length ? hot : ids, nsites, envs: meta.envs }, resourceLimits: { stackSizeMb: 24, maxOldGenerationSizeMb: 2048 } });
  const workers = [];
  await new Promise((resolve, reject) => {
    let alive = 0;
    const feed = (w) => {
      if (stop || next >= total || Date.now() - t0 > limitMs) { w.busy = null; alive--; if (alive === 0) resolve(); return; }
      w.busy = { index: next, since: Date.now() };
      w.postMessage({ op: 'case', index: next++ });
    };
    for (let i = 0; i < nw; i++) {
      const w = startWorker(); workers.push(w); alive++;
      w.on('message', (m) => {
        if (m.op !== 'done' || w.dead) return;
        done++;
        merge(stats, m.stats);
        if (m.error) { errors.push({ index: m.index, error: m.error }); stop = true; }
        if (m.violation) { violations.push({ index: m.index, ...m.violation }); stop = true; }
        feed(w);
      });
      w.on('error', (e) => { if (w.dead) return; crashed(w, e); });
      w.on('exit', (c) => { if (!w.dead && w.busy) crashed(w, new Error(`worker ends with ${c}`)); });
      feed(w);
    }
    // A case that does not end, although no simulated step is taken, or that ends the worker.
    const drop = (w) => { w.dead = true; w.terminate(); const b = w.busy; w.busy = null; stop = true; alive--; if (alive === 0) resolve(); return b.index; };
    const crashed = (w, e) => { if (!w.busy) { reject(e); return; } const index = drop(w); stuck.push({ index, how: e.message }); };
    const dog = setInterval(() => {
      if (stop && stopped === null) stopped = Date.now();
      for (const w of workers) {
        if (!w.busy) continue;
        if (stop && violations.length && Date.now() - stopped > 20e3) drop(w);
        else if (Date.now() - w.busy.since > stuckMs) stuck.push({ index: drop(w), how: 'no simulated step is taken' });
      }
    }, 1000);
    dog.unref();
  });
  // The execution that does not end is found by repeating the case with every execution announced.
  if (stuck.length && !violations.length) {
    stuck.sort((a, b) => a.index - b.index);
    const { index, how } = stuck[0];
    const w = startWorker();
    const last = await new Promise((res) => {
      let spec = null;
      w.on('message', (m) => { if (m.op === 'start') spec = m.spec; if (m.op === 'done') res(m.violation ?? null); });
      w.on('error', () => res({ spec })); w.on('exit', () => res({ spec }));
      setTimeout(() => res({ spec }), stuckMs / 2).unref();
      w.postMessage({ op: 'case', index, trace: true });
    });
    w.dead = true; w.terminate();
    if (last?.spec) violations.push({ index, kind: 'ends', data: { how }, what: `no end: ${how}`, specs: [last.spec], hashes: [null], raw: true });
    else if (last) violations.push({ index, ...last });
    else throw new Error(`case ${index}: ${how}, but it ends when repeated`);
  }
  const spare = () => { let w = workers.find((x) => !x.dead && !x.busy); if (!w) { w = startWorker(); workers.push(w); } return w; };
  const ask = (w, msg) => new Promise((res, rej) => { w.once('message', res); w.once('error', rej); w.postMessage(msg); });
  // Known findings.
  const known = knownFindings().filter((k) => k.prop === prop);
  if (known.length && !errors.length) {
    const r = await ask(spare(), { op: 'known', keys: known.map((k) => k.key) });
    if (r.error) errors.push({ index: -1, error: r.error });
    else for (const k of known) if (r.res[k.key]) console.log(`KNOWN-FINDING: property=${prop} ${k.text}`);
  }
  let replay = null;
  if (violations.length) {
    violations.sort((a, c) => a.index - c.index);
    const v = violations[0];
    if (v.data && v.kind === 'races') v.data.sites = names;
    const r = v.raw ? { out: { ...v, results: [], minimiserRuns: 0 } } : await ask(spare(), { op: 'min', violation: v, budgetMs: Number(process.env.VERIF_MIN_MS ?? 30000) });
    if (r.error) throw new Error('minimiser: ' + r.error);
    const out = r.out;
    if (out.unstable) throw new Error(`case ${v.index}: the violation does not repeat: ${v.what}`);
    const rd = path.join(root, 'replays'); fs.mkdirSync(rd, { recursive: true });
    replay = path.join(rd, `${prop}-${seed}-${v.index}.json`);
    fs.writeFileSync(replay, JSON.stringify({ property: prop, seed, index: v.index, kind: out.kind, data: out.data, what: out.what, hashes: out.hashes, nsites, specs: out.specs, results: out.results, minimiserRuns: out.minimiserRuns }, null, 1));
    console.log(`${out.what}`);
  }
  for (const w of workers) w.terminate();
  const wall = (Date.now() - t0) / 1000;
  if (errors.length) { for (const e of errors.slice(0, 3)) console.error(`error in case ${e.index}: ${e.error}`); throw new Error('the check could not be completed'); }
  const ev = {
    property: prop, tier, seed, level: 'exploration',
    coverage: {
      evaluations: stats.runs, distinct_nontrivial: stats.distinctSet.size, rule: P.rule,
      samples: [...stats.distinctSet].slice(0, 5),
      cases: done, checks: stats.checks, seeds_per_hour: Math.round(done / wall * 3600), runs_per_hour: Math.round(stats.runs / wall * 3600),
      simulated_seconds: stats.simNs / 1e9, scheduling_points: stats.steps, goroutine_switches: stats.switches, scheduling_decisions_with_choice: stats.decisionPoints, max_runnable_goroutines: stats.maxRunnable,
      map_order_choices: stats.mapChoices, system_calls: stats.sys, runs_accepted: stats.accepted, runs_rejected: stats.rejected, runs_ended_otherwise: stats.other,
      faults_injected: stats.faults, edits_injected: stats.edits, access_sites_held: stats.parkedSet.size, access_sites_known: ids.length, workload: stats.notes,
      instrumentation: meta.mode,
      real_components: 'compiler (cmd/fbdl, pkg/fbdl, internal/*), Go standard library, Go runtime with its wasm scheduler',
      stubbed_components: 'operating system below the WASI interface: file system, streams, clock, entropy; choice of the running goroutine and of map iteration order',
    },
    wall_s: wall,
    assumptions: ['sampling, not enumeration: a clean batch is evidence', 'one operating system thread (wasm): preemption happens at instrumented statements, accesses are sequentially consistent', 'file system semantics are those of the in-memory model'],
    violations: violations.length ? [{ what: violations[0].what, replay }] : [],
  };
  fs.mkdirSync(path.join(root, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(root, 'evidence', `${prop}.json`), JSON.stringify(ev, null, 1) + '\n');
  console.log(`cases=${done} runs=${stats.runs} distinct=${stats.distinctSet.size} accepted=${stats.accepted} rejected=${stats.rejected} other=${stats.other} wall=${wall.toFixed(1)}s`);
  if (replay) { console.log(`VIOLATION property=${prop} replay=${replay}`); process.exit(1); }
  process.exit(0);
}

async function replayFile(file, dir) {
  const v = JSON.parse(fs.readFileSync(file, 'utf8'));
  const { modules } = guests(dir);
  if (v.kind === 'ends') { // in a worker, as it may never return
    const w = new Worker(path.join(here, 'worker.mjs'), { workerData: { modules, prop: v.property, seed: v.seed, nsites: v.nsites }, resourceLimits: { stackSizeMb: 24, maxOldGenerationSizeMb: 2048 } });
    const ended = await new Promise((res) => { w.on('message', () => res(true)); w.on('error', () => res(false)); w.on('exit', () => res(false)); setTimeout(() => res(false), 100e3); w.postMessage({ op: 'run', spec: v.specs[0] }); });
    console.log(ended ? 'not reproduced: the execution ends' : `reproduced: ${v.what}`);
    if (!ended) console.log(`VIOLATION property=${v.property} replay=${file}`);
    process.exit(ended ? 0 : 1);
  }
  const rs = v.specs.map((s) => exec(modules, s, v.nsites));
  const what = judges[v.kind](v.data, rs);
  const same = rs.every((r, i) => r.logHash === v.hashes[i]);
  console.log(what ? `reproduced: ${what}` : 'not reproduced: the property holds on these executions');
  console.log(`executions identical to the recorded ones: ${same}`);
  if (what) { console.log(`VIOLATION property=${v.property} replay=${file}`); process.exit(1); }
  process.exit(0);
}

// Every execution is a function of its specification alone: the same cases in the opposite order, in another process, must give the
// same sequence of system calls, schedules and results. main.mjs selftest <cases per property> <dir>
function hashes(n, dir, backwards) {
  const { modules, meta } = guests(dir);
  const ids = meta.sites.filter((s) => ['R', 'W', 'MR', 'MW', 'A'].includes(s.kind)).map((s) => s.id);
  const nsites = Math.max(0, ...meta.sites.map((s) => s.id)) + 1;
  const out = {};
  const list = Object.keys(PROPS).flatMap((p) => Array.from({ length: n }, (_, i) => [p, i]));
  if (backwards) list.reverse();
  for (const [p, i] of list) {
    const ctx = makeCtx({ modules, repo: process.env.VERIF_REPO ?? '/repo', sites: ids, hot: ids, nsites }), run = ctx.run, h = [];
    ctx.run = (s) => { const r = run(s); h.push([r.logHash, r.schedHash, r.mapHash, r.steps, r.outcome, r.exit, r.stdout, r.stderr, r.files, r.races, r.simNs]); return r; };
    PROPS[p].go(ctx, new Rng(`${process.env.VERIF_SEED || 1}:${p}:${i}`));
    out[`${p} ${i}`] = hashOf(JSON.stringify(h));
  }
  return out;
}
function selftest(n, dir) {
  const a = hashes(n, dir, false);
  const b = JSON.parse(execFileSync(process.execPath, [...process.execArgv, fileURLToPath(import.meta.url), 'hashes', String(n), dir], { maxBuffer: 1 << 30 }).toString());
  const bad = Object.keys(a).filter((k) => a[k] !== b[k]);
  console.log(`${Object.keys(a).length} cases, ${bad.length} differ when repeated${bad.length ? `: ${bad.slice(0, 10).join(', ')}` : ''}`);
  process.exit(bad.length ? 3 : 0);
}

const [, , cmd, arg, dir] = process.argv;
try {
  if (cmd === 'check') await check(arg, dir);
  else if (cmd === 'replay') await replayFile(arg, dir);
  else if (cmd === 'selftest') selftest(Number(arg), dir);
  else if (cmd === 'hashes') console.log(JSON.stringify(hashes(Number(arg), dir, true)));
  else throw new Error('usage');
} catch (e) { console.error('ERROR: ' + (e.stack ?? e)); process.exit(3); }
