// For each property: how one case is generated from the case's random numbers, what is run and which oracle decides.
import fs from 'node:fs';
import path from 'node:path';
import { Rng } from './rng.mjs';
import { Gen, I, expectProject, fileText } from './gen.mjs';
import { injectErrors } from './errs.mjs';
import { plain, world, addEntry, randomLayout } from './worlds.mjs';
import { randomSched, randomMap } from './sched.mjs';
import { accepted, parseHarness } from './judges.mjs';

// ---------- workloads ----------
const DUMP = '/w/c.json';

// Existing test cases of the repository, read from disk once.
let corpusCache = null;
export function loadCorpus(repo) {
  if (corpusCache) return corpusCache;
  const out = [];
  const walk = (d, rel, acc) => {
    for (const e of fs.readdirSync(d, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
      const p = path.join(d, e.name), r = rel ? `${rel}/${e.name}` : e.name;
      if (e.isDirectory()) walk(p, r, acc); else if (e.isFile()) acc.push([r, p]);
    }
  };
  const top = path.join(repo, 'tests');
  const find = (d) => {
    let es; try { es = fs.readdirSync(d, { withFileTypes: true }); } catch { return; }
    if (es.some((e) => e.name === 'bus.fbd')) {
      const acc = []; walk(d, '', acc);
      const tree = { '/w': { t: 'd' } };
      let golden = null;
      for (const [r, p] of acc) { if (r.endsWith('.golden')) golden = fs.readFileSync(p, 'utf8'); else if (r.endsWith('.fbd')) tree[`/w/${r}`] = { t: 'f', d: fs.readFileSync(p, 'utf8') }; }
      out.push({ name: path.relative(top, d), tree, golden, invalid: !acc.some(([r]) => r === 'golden.json') });
      return;
    }
    for (const e of es.sort((a, b) => (a.name < b.name ? -1 : 1))) if (e.isDirectory()) find(path.join(d, e.name));
  };
  find(top);
  corpusCache = out;
  return out;
}

// A small change somewhere in the sources; whether the result is still valid is not known.
const WORDS = ['width', 'range', 'atomic', 'init-value', 'reset-value', 'read-value', 'size', 'delay', 'masters', 'align', 'clear', 'config', 'status', 'static', 'mask', 'irq', 'block', 'group', 'proc', 'stream', 'param', 'return', 'blackbox', 'A', 'N', 'K', 'true', '"Edge"', '1 ns', 'b"01"', '[1, 2]', '1:4', '2.5'];
function mutate(rng, t) {
  const ls = t.split('\n');
  const k = rng.int(ls.length), l = ls[k];
  switch (rng.int(9)) {
    case 0: ls.splice(k, 1); break;
    case 1: ls.splice(k, 0, l); break;
    case 2: { const j = rng.int(ls.length); [ls[k], ls[j]] = [ls[j], ls[k]]; break; }
    case 3: ls[k] = l.replace(/\d+/, String(rng.pick([0, 1, 2, 3, 7, 8, 33, 70]))); break;
    case 4: ls[k] = l.replace(/\d+/, rng.pick(WORDS)); break;
    case 5: { const ws = l.match(/[A-Za-z_][\w-]*/g) ?? []; if (ws.length) ls[k] = l.replace(rng.pick(ws), rng.pick(WORDS)); break; }
    case 6: { const all = t.match(/[A-Za-z_][\w.-]*/g) ?? [], ws = l.match(/[A-Za-z_][\w-]*/g) ?? []; if (ws.length) ls[k] = l.replace(rng.pick(ws), rng.pick(all)); break; }
    case 7: ls[k] = rng.chance(0.5) ? '  ' + l : l.replace(/^ {2}/, ''); break;
    default: { const i = rng.int(l.length + 1); ls[k] = l.slice(0, i) + rng.pick(['', ' ', ';', '(', ')', '=', '#', '"', '-', '+', '.']) + l.slice(i + rng.int(2)); }
  }
  return ls.join('\n');
}
function mutant(rng, w) {
  const fs_ = Object.keys(w.tree).filter((p) => w.tree[p].t === 'f' && p.endsWith('.fbd') && typeof w.tree[p].d === 'string' && w.tree[p].d.length > 1);
  w.tree = { ...w.tree };
  for (let i = rng.pick([1, 1, 2, 3, 5]); i > 0 && fs_.length; i--) { const p = rng.pick(fs_); w.tree[p] = { ...w.tree[p], d: mutate(rng, w.tree[p].d) }; }
  w.kind = 'mutant'; w.invalid = null; w.P = null;
  return w;
}

const project = (rng, opt) => new Gen(rng, opt).project();

// A workload: {tree, env, cwd, mainPath, mainName, invalid, res, expect, P}
function workload(ctx, rng, o = {}) {
  const kind = o.kind ?? rng.weighted([[6, 'valid'], [2.5, 'invalid'], [1.5, 'corpus']]);
  if (kind === 'corpus') {
    const cs = loadCorpus(ctx.repo).filter((c) => (o.valid === undefined ? true : o.valid === !c.invalid));
    if (cs.length) {
      const c = rng.pick(cs);
      return { kind, name: c.name, tree: { ...c.tree }, env: { PWD: '/w' }, cwd: '/w', mainPath: 'bus.fbd', mainName: null, invalid: c.invalid, golden: c.golden };
    }
  }
  const P = project(rng, { insts: rng.pick([1, 2, 4, 8]), ...(o.gen ?? {}) });
  const res = kind === 'invalid' ? injectErrors(rng, P, o.errors ?? rng.pick([1, 1, 2, 3, 4]), o.errKinds) : [];
  let w;
  if (o.plain ?? rng.chance(0.5)) w = plain(P); else w = world(rng, P, o.world);
  return { ...w, kind, P, mainName: P.argMain ?? P.mainName, invalid: res.length > 0, res: res.map((r) => r.re), errs: res, feats: w.feats ?? [] };
}
const expectOf = (w) => (w.P && !w.invalid ? expectProject(w.P) : null);

function spec(w, o = {}) {
  const args = ['fbdl'];
  const opts = [];
  if (o.debug) opts.push(['-debug']);
  if (o.timestamp) opts.push(['-add-timestamp']);
  if (o.dump !== false) opts.push(['-c', o.dumpArg ?? DUMP]);
  if (w.mainName !== null) opts.push(['-main', w.mainName]);
  if (o.shuffleArgs) opts.sort();
  for (const x of opts) args.push(...x);
  args.push(w.mainPath);
  return { tree: w.tree, args, env: { ...w.env, GOGC: 'off' }, readBack: o.dump === false ? [] : [o.dumpPath ?? DUMP] };
}
// Random schedule, map order, hash seeds, layout.
function perturb(rng, s, o = {}) {
  const r = { ...s };
  if (rng.chance(o.sched ?? 0.9)) r.sched = randomSched(rng);
  if (r.faults && r.sched && r.sched.policy !== 'rtb' && rng.chance(0.4)) r.sched.hold = { on: 'fault', steps: rng.pick([1000, 100000, 250000]) };
  if (rng.chance(0.9)) r.mapOrder = randomMap(rng);
  if (rng.chance(0.5)) r.entropy = rng.u32();
  if (rng.chance(o.gc ?? 0.12)) r.env = { ...r.env, GOGC: rng.pick(['1', '5', '20', '100']) };
  if (rng.chance(0.5)) r.machine = randomMachine(rng);
  if (rng.chance(0.25)) r.env = { ...r.env, ...randomEnv(rng) };
  if (!o.noLayout && rng.chance(0.6)) r.layout = randomLayout(rng);
  if (!o.noClock && rng.chance(0.3)) r.clock = { start: rng.int(2 ** 31), step: rng.pick([1, 1000, 5000000]) };
  return r;
}

// Places outside of the search paths the compiler looked at although nobody mentioned them exist now.
function answerProbes(ctx, rng, s, o = {}) {
  const env = { ...s.env, ...randomEnv(rng), HOME: '/home/u' };
  const ref = ctx.run({ ...s, env });
  const norm = (base, p) => path.posix.resolve(base, p);
  const known = ['/w', '/tmp', DUMP, ...(s.env.FBDPATH ?? '').split(':').filter((x) => x).map((x) => norm('/w', x))];
  for (const [p, e] of Object.entries(s.tree)) { known.push(p); if (e.t === 'l') known.push(norm(path.posix.dirname(p), e.d)); }
  const tree = { ...s.tree };
  for (const q of ref.probes) {
    const p = norm('/w', q);
    if (known.some((k) => k === p || k.startsWith(p + '/')) || known.some((k) => p.startsWith(k + '/') && s.tree[k]?.t !== 'd')) continue;
    const inside = known.slice(3).some((k) => p.startsWith(k + '/')) || p.startsWith('/w/') || p.startsWith('/tmp/');
    if (o.dirs && rng.chance(0.6)) addEntry(tree, p, { t: 'd' });
    else if (!inside && rng.chance(0.7)) addEntry(tree, `${p}/fbd-probe/a.fbd`, { t: 'f', d: 'const PROBE = 1\n' }); else addEntry(tree, p, { t: 'f', d: rng.pick(['', 'x\n', '{}', 'const PROBE = 1\n']) });
    ctx.note('place that was looked at');
  }
  return { ...s, env, tree };
}

// Properties of the machine and of the process.
const randomMachine = (rng) => ({ tz: rng.pick([0, 0, 3600, -18000, 20700, 50400]), ballast: rng.int(40), cpus: rng.pick([1, 2, 2, 3, 4, 8, 64]), pid: 1 + rng.int(4194304), uid: rng.pick([0, 1000, 65534]) });

// Environment variables that are nobody's business.
const ENVS = { HOME: ['/root', '/home/u', ''], USER: ['root', 'u'], LOGNAME: ['u'], LANG: ['C', 'de_DE.UTF-8', 'tr_TR.UTF-8'], LC_ALL: ['C', 'tr_TR.UTF-8'], TERM: ['dumb', 'xterm'], TMPDIR: ['/tmp', '/nonexistent', '/w'], PATH: ['', '/bin'], HOSTNAME: ['a', 'b'], COLUMNS: ['1', '40'], NO_COLOR: ['1'], CI: ['true'], DEBUG: ['1', '*'], VERBOSE: ['1'], TZ: ['UTC', 'Asia/Tokyo', 'bad'], OLDPWD: ['/', '/w'], SHLVL: ['1'], SOURCE_DATE_EPOCH: ['0', '1700000000'], XDG_CACHE_HOME: ['/w/cache', '/tmp'], GOPATH: ['/w', '/go'], GOROOT: ['/w', ''], GOTRACEBACK: ['all'], EDITOR: ['vi'], FBD: ['1', '/w'], FBDL: ['1'], FBDLPATH: ['/w/x'], FBD_DEBUG: ['1'], FBDL_DEBUG: ['1'] };
// ... among them those the program asks for.
let asked = [];
export const setEnvs = (names) => { asked = (names ?? []).filter((k) => k !== 'FBDPATH' && k !== 'PWD'); };
const randomEnv = (rng) => ({
  ...Object.fromEntries(rng.sample(Object.keys(ENVS), rng.range(1, 6)).map((k) => [k, rng.pick(ENVS[k])])),
  ...Object.fromEntries(asked.filter(() => rng.chance(0.7)).map((k) => [k, rng.pick(['1', '0', 'true', 'x', '', '2', '100', '/ext', '/', '/w', '1700000000'])])),
});

// ---------- faults ----------
const READ_ERR = {
  path_open: ['EIO', 'EACCES', 'EMFILE', 'ENFILE', 'ENOMEM', 'ESTALE', 'EPERM', 'EBUSY'],
  fd_read: ['EIO', 'ESTALE', 'ENOMEM', 'EBADF', 'EISDIR', 'EACCES'],
  fd_readdir: ['EIO', 'ENOMEM', 'ESTALE', 'EBADF', 'EACCES'],
  path_stat: ['EIO', 'EACCES', 'ENOMEM', 'ESTALE', 'EPERM'],
  path_lstat: ['EIO', 'EACCES', 'ENOMEM', 'ESTALE', 'EPERM'],
  path_readlink: ['EIO', 'EACCES', 'ENOMEM', 'ESTALE'],
  fd_filestat_get: ['EIO', 'ESTALE', 'EBADF'],
  fd_fdstat_get: ['EBADF', 'EIO'],
  fd_close: ['EIO', 'EBADF'],
  fd_seek: ['EIO'],
};
const isStream = (p) => p === '<stdin>' || p === '<stdout>' || p === '<stderr>';
// Input operations of a recorded trace, as [op, path, nth].
function inputOps(r, dump) {
  const n = new Map(), out = [];
  for (const e of r.ev) {
    const i = e.indexOf(' '), op = e.slice(0, i), p = e.slice(i + 1);
    const k = (n.get(e) ?? 0) + 1; n.set(e, k);
    if (READ_ERR[op] && !isStream(p) && p !== dump) out.push([op, p, k]);
  }
  return out;
}
function readFaults(rng, ref, n) {
  const ops = inputOps(ref, DUMP);
  if (!ops.length) return [];
  const out = [];
  if (rng.chance(0.15)) { // a device or a directory tree does not answer any more
    const paths = [...new Set(ops.map((o) => o[1]))].filter((p) => p.startsWith('/') && p.length > 1);
    const p = rng.pick(paths), cs = p.split('/');
    const region = rng.chance(0.6) ? p : cs.slice(0, rng.range(2, cs.length)).join('/');
    const near = ref.ev.map((e, i) => (e.endsWith(region) || e.includes(region + '/') ? i : 0)).filter((i) => i);
    return [{ region, from: 1 + Math.min(ref.sys, near.length && rng.chance(0.7) ? rng.pick(near) : rng.int(ref.sys)), ops: Object.keys(READ_ERR), err: rng.pick(['EIO', 'ESTALE', 'EACCES', 'EPERM', 'ENOMEM']), sticky: true }];
  }
  let gone = false;
  for (let i = 0; i < n; i++) {
    // choose the kind of operation first: opens and reads are rarer than calls of lstat
    const kinds = [...new Set(ops.map((o) => o[0]))].sort();
    const k = rng.pick(kinds);
    const [op, p, nth] = rng.pick(ops.filter((o) => o[0] === k));
    const f = { op, path: p, nth, err: rng.pick(READ_ERR[op]) };
    if (rng.chance(0.15)) f.sticky = true;
    // What has been listed and is gone when it is opened or examined. A directory that does not exist is skipped by design, and so
    // is a link whose target does not exist, hence not for path_stat of anything but sources, and not twice in an execution.
    else if (rng.chance(0.25) && !gone && (op === 'path_open' || op === 'path_lstat' || (op === 'path_stat' && p.endsWith('.fbd')))) { f.err = rng.pick(['ENOENT', 'ENOENT', 'ENOTDIR', 'ELOOP']); gone = true; }
    out.push(f);
  }
  return out;
}

// The process gets little or no more memory from some system call on.
const randomShortage = (rng, ref) => ({ at: rng.chance(0.4) ? Math.max(1, ref.sys - rng.int(10)) : 1 + rng.int(ref.sys), pages: rng.weighted([[3, 0], [1, 8 * rng.int(4)]]) });

// Content of the dump file left by an earlier compilation.
const oldDump = (rng, ref) => rng.pick(['', 'old\n', 'x'.repeat(5000), ref ? (ref.files[DUMP] ?? '') + '}\n' : '{"main": {}}', ref ? (ref.files[DUMP] ?? '').slice(1) : '{']);

// ---------- library ----------
const HDIR = '/plan/p.json';
function hspec(w, plan, o = {}) {
  const tree = { ...w.tree, [HDIR]: { t: 'f', d: JSON.stringify(plan) } };
  return { prog: 'harness', tree, args: ['verifharness'], env: { ...w.env, GOGC: 'off', VERIF_PLAN: HDIR }, readBack: [], stepLimit: 100e6 * Math.max(1, plan.flat().length), ...o };
}
function libraryWorld(rng, o = {}) {
  const n = o.mains ?? rng.range(1, 3);
  const P = project(rng, { extraMains: n - 1, insts: rng.pick([1, 2, 4]), pkgs: rng.pick([0, 1, 2, 3]), depth: rng.pick([1, 2]), wide: 0.01, ...(o.gen ?? {}) });
  if (rng.chance(0.15)) P.mains.forEach((m) => { m.at = '/w/sub'; });
  const w = rng.chance(0.7) ? plain(P) : world(rng, P, { mainAtCwd: rng.chance(0.5) });
  return { P, w };
}
const callOf = (rng, m, o = {}) => ({ Path: m.files[0].path.replace('/w/', rng.chance(0.2) ? '/w/' : ''), Main: o.badName ? 'Nope' : m.mainName, TS: rng.chance(0.25) });

const ORDER_ERRORS = ['unqualified', 'unqualified', 'unqualifiedType', 'ambiguousImport', 'constInPkg', 'typeInPkg', 'instInPkg', 'dupImport', 'constCycle', 'typeCycle'];

// ---------- properties ----------
export const PROPS = {
  C01: {
    title: 'determinism', judge: 'same',
    rule: 'distinct pairs (order of goroutine switches with their sites, order of map iterations) over executions with at least one scheduling or map choice that differs from the reference',
    go(ctx, rng) {
      if (rng.chance(0.12)) { // through the library
        const { P, w } = libraryWorld(rng, { mains: 1 });
        const s = hspec(w, [[{ Path: P.main.files[0].path, Main: P.mainName, TS: false }]]);
        const runs = [s, perturb(rng, s), perturb(rng, s)];
        return ctx.check('same', runs, { what: 'library call' });
      }
      // An error whose discovery could depend on the order of packages, files or imports.
      const order = rng.chance(0.12) ? { kind: 'invalid', errors: 1, errKinds: ORDER_ERRORS } : {};
      const mut = rng.chance(0.2);
      const w = workload(ctx, rng, { ...order, gen: { many: 0.06, ...(rng.chance(0.6) ? { pkgs: rng.range(2, 6), filesPerPkg: rng.range(1, 4), importP: rng.pick([0.3, 0.7]) } : {}) } });
      if (mut) mutant(rng, w);
      const s = spec(w, { dump: rng.chance(0.85) });
      const runs = [s];
      for (let i = 0; i < 3; i++) runs.push(perturb(rng, s, { gc: 0.3 }));
      ctx.note(w.kind);
      return ctx.check('same', runs, { what: 'execution under another schedule or environment' });
    },
  },
  C02: {
    title: 'verdict', judge: 'rejected',
    rule: 'distinct pairs (order of goroutine switches, order of map iterations) over executions of erroneous projects, and valid ones as control',
    go(ctx, rng) {
      if (rng.chance(0.3)) {
        const w = workload(ctx, rng, { kind: rng.chance(0.85) ? 'valid' : 'corpus', valid: true });
        ctx.note('valid');
        return ctx.check('model', [perturb(rng, spec(w, { dump: rng.chance(0.5) }))], { expect: null });
      }
      const corpus = rng.chance(0.15);
      const w = corpus ? workload(ctx, rng, { kind: 'corpus', valid: false }) : workload(ctx, rng, { kind: 'invalid', gen: { pkgs: rng.range(1, 6), filesPerPkg: rng.range(1, 3), wide: rng.pick([0, 0.15]) } });
      if (!w.invalid) return;
      for (const e of w.errs ?? [{ kind: 'corpus' }]) ctx.note(e.kind);
      const before = rng.chance(0.4) ? 'previous content\n' : null;
      if (before !== null) w.tree[DUMP] = { t: 'f', d: before };
      const res = w.res ?? (w.golden ? [w.golden.trim().replace(/[.*+?^${}()|[\]\\]/g, '\\$&')] : null);
      const s = spec(w, { debug: rng.chance(0.1), timestamp: rng.chance(0.1) });
      const d = { what: w.errs ? w.errs.map((e) => e.kind).join(', ') : w.name, res, dump: DUMP, dumpBefore: before };
      return ctx.check('rejected', [perturb(rng, s), perturb(rng, s)], d);
    },
  },
  C03: {
    title: 'input faults', judge: 'fault',
    rule: 'distinct combinations (operation, path, occurrence, errno of the faults that fired, order of goroutine switches)',
    go(ctx, rng) {
      const ambiguous = rng.chance(0.15);
      const w = workload(ctx, rng, { kind: rng.weighted([[8, 'valid'], [1.5, 'invalid'], [0.7, 'corpus']]), gen: { pkgs: rng.range(1, 4) } });
      if (ambiguous && w.P?.main.files[0].imports.length) {
        // A second package of the same name makes an import ambiguous: losing either of them must not make it unique.
        const im = rng.pick(w.P.main.files[0].imports);
        if (im.pkg) addEntry(w.tree, `/w/second/${im.pkg.dir}/a.fbd`, { t: 'f', d: 'const A = 1\n' });
        ctx.note('ambiguous import');
      }
      const s = spec(w);
      if (rng.chance(0.5)) s.dirChunk = rng.pick([1, 2, 3, 5]);
      const ref = ctx.run(s);
      const n = rng.weighted([[7, 1], [2, 2], [1, 4]]);
      const faults = readFaults(rng, ref, n);
      if (!faults.length) return;
      let f = { ...s, faults };
      if (rng.chance(0.6)) f = perturb(rng, f, { noLayout: true, noClock: true });
      return ctx.check('fault', [s, f], {}, 1);
    },
  },
  C04: {
    title: 'benign I/O', judge: 'same',
    rule: 'distinct combinations (fragmentation seed outcome: sequence of system calls with lengths) by hash of the system call log',
    go(ctx, rng) {
      const w = workload(ctx, rng);
      if (rng.chance(0.15)) mutant(rng, w);
      const s = spec(w);
      const runs = [s];
      for (let i = 0; i < 2; i++) {
        let r = { ...s };
        r.frag = {
          seed: rng.u32(), read: rng.pick([0, 1, 7, 100, 600]), write: rng.pick([0, 0, 1, 16, 512]), eintr: rng.pick([0, 0, 0.05, 0.3]), noWriteEintr: false,
          size0: rng.chance(0.2), delay: rng.pick([0, 0, 10, 5000]),
        };
        if (r.frag.write === 1) r.frag.write = 1 + rng.int(40);
        r.layout = randomLayout(rng);
        if (rng.chance(0.5)) r.dirChunk = rng.pick([1, 2, 3, 7]);
        if (rng.chance(0.4)) r.sched = randomSched(rng);
        if (rng.chance(0.3) && w.invalid === false) r.tree = { ...r.tree, [DUMP]: { t: 'f', d: oldDump(rng, null) } };
        if (rng.chance(0.3)) { // the same files through links
          r.tree = { ...r.tree };
          const fs_ = Object.keys(r.tree).filter((p) => r.tree[p].t === 'f' && p.endsWith('.fbd') && p !== `/w/${w.mainPath}`);
          for (const p of rng.sample(fs_, Math.min(fs_.length, 2))) { const q = `/real${i}/${p.slice(1).replace(/\//g, '_').slice(-200)}`; if (r.tree[q]) continue; r.tree[q] = r.tree[p]; r.tree[p] = { t: 'l', d: q }; }
        }
        runs.push(r);
      }
      return ctx.check('same', runs, { what: 'execution with benign I/O irregularities' });
    },
  },
  C05: {
    title: 'delivery', judge: 'delivered',
    rule: 'distinct combinations (faults fired on the output: operation, kind, errno, offset)',
    go(ctx, rng) {
      const w = workload(ctx, rng, { kind: rng.chance(0.9) ? 'valid' : 'corpus', valid: true, gen: rng.chance(0.2) ? { insts: 30, depth: 3 } : {} });
      const s = spec(w, { timestamp: false, dump: rng.chance(0.8) });
      const ref = ctx.run(s);
      if (!accepted(ref)) { ctx.note('skipped: rejected'); return; }
      const total = { '<stdout>': ref.stdout.length, [DUMP]: (ref.files[DUMP] ?? '').length };
      const faults = [];
      const ERRS = ['EIO', 'ENOSPC', 'EDQUOT', 'EFBIG', 'EPIPE', 'EBADF', 'EAGAIN', 'EPERM'].filter((e) => e !== 'EAGAIN');
      const k = rng.weighted([[4, 'out'], [4, 'outPart'], [3, 'dump'], [3, 'dumpPart'], [3, 'dumpClose'], [3, 'dumpOpen'], [1, 'special'], [1, 'device'], [2, 'short'], [2, 'both'], [1, 'stdoutClose'], [1, 'dumpStat'], [1.5, 'memory']]);
      const d = { lost: true };
      let tree = s.tree;
      if (rng.chance(0.5) && s.readBack.length) tree = { ...tree, [DUMP]: { t: 'f', d: oldDump(rng, ref) } };
      const part = (p) => ({ op: 'fd_write', path: p, kind: 'after', err: rng.pick(ERRS), arg: rng.int(total[p] + 2) });
      const whole = (p) => ({ op: 'fd_write', path: p, err: rng.pick(ERRS), nth: 1 });
      if (k === 'out') faults.push(whole('<stdout>'));
      if (k === 'outPart') faults.push(part('<stdout>'));
      if (k === 'dump') faults.push(whole(DUMP));
      if (k === 'dumpPart') faults.push(part(DUMP));
      if (k === 'dumpClose') faults.push({ op: 'fd_close', path: DUMP, err: rng.pick(['EIO', 'ENOSPC', 'EDQUOT', 'EBADF']) });
      if (k === 'dumpOpen') faults.push({ op: 'path_open', path: DUMP, err: rng.pick(['EACCES', 'ENOSPC', 'EROFS', 'EISDIR', 'EDQUOT', 'EMFILE', 'ENOENT']) });
      if (k === 'both') faults.push(part('<stdout>'), part(DUMP));
      if (k === 'stdoutClose') { faults.push({ op: 'fd_close', path: '<stdout>', err: 'EIO' }); }
      if (k === 'dumpStat') { faults.push({ op: 'fd_fdstat_get', path: DUMP, err: 'EIO' }); d.lost = false; }
      if (k === 'special') { tree = { ...tree, [DUMP]: { t: 'f', d: '', sp: 'full' } }; d.lost = false; }
      if (k === 'device') { tree = { ...tree, [DUMP]: { t: 'f', d: '', sp: 'chr' } }; d.lost = false; d.mustPass = true; }
      let r = { ...s, tree, faults };
      if (k === 'memory') { d.lost = false; r.memory = randomShortage(rng, ref); if (rng.chance(0.6)) r.machine = { ...randomMachine(rng), ballast: rng.int(60) }; }
      if (k === 'short') { r.frag = { seed: rng.u32(), write: rng.pick([1 + rng.int(50), 64, 1000]), eintr: rng.pick([0, 0.2]) }; d.lost = false; d.mustPass = true; }
      if (rng.chance(0.5)) r = perturb(rng, r, { noLayout: true, noClock: true });
      ctx.note(k);
      return ctx.check('delivered', [s, r], d, 1);
    },
  },
  C06: {
    title: 'confinement', judge: 'confined',
    rule: 'distinct combinations (instant of the kill or faults that fired, kind of workload, order of goroutine switches)',
    go(ctx, rng) {
      const w = workload(ctx, rng, { kind: rng.weighted([[5, 'valid'], [4, 'invalid'], [1, 'corpus']]) });
      const sub = rng.chance(0.3);
      let dump = DUMP, dumpArg = DUMP;
      const useDump = rng.chance(0.85);
      if (sub) { dump = rng.pick(['/w/out/c.json', '/w/const.json', '/tmp/d/c.json']); dumpArg = rng.pick([dump, dump.replace('/w/', '')]); if (dump.includes('/out/') && rng.chance(0.7)) w.tree['/w/out'] = { t: 'd' }; if (dump.startsWith('/tmp')) w.tree['/tmp/d'] = { t: 'd' }; }
      if (useDump && rng.chance(0.5) && (w.tree[path.dirname(dump)] || dump === DUMP)) w.tree[dump] = { t: 'f', d: 'previous dump\n' };
      let s = { ...spec(w, { dump: useDump, dumpArg, dumpPath: dump, debug: rng.chance(0.2), timestamp: rng.chance(0.2) }), wantImage: true };
      if (!w.invalid && rng.chance(0.15)) s = answerProbes(ctx, rng, s, { dirs: true });
      const ref = ctx.run(s);
      const data = { dump: useDump ? dump : null, invalid: w.invalid };
      const mode = rng.weighted([[5, 'kill'], [3, 'fault'], [2, 'readfault'], [2, 'plain'], [1, 'killfault'], [1, 'memory']]);
      let r = { ...s };
      if (mode.startsWith('kill')) r.kill = { at: rng.chance(0.4) ? Math.max(1, ref.sys - rng.int(12)) : 1 + rng.int(ref.sys) };
      if (mode === 'fault' || mode === 'killfault') {
        const mk = () => ({ at: rng.chance(0.5) ? Math.max(1, ref.sys - rng.int(8)) : 1 + rng.int(ref.sys), err: rng.pick(['EIO', 'ENOSPC', 'EACCES', 'EROFS', 'EMFILE', 'EINTR']), out: true });
        r.faults = [mk()]; if (rng.chance(0.4)) r.faults.push(mk());
      }
      if (mode === 'readfault') r.faults = readFaults(rng, ref, 1);
      if (mode === 'memory') { r.memory = randomShortage(rng, ref); r.machine = { ...randomMachine(rng), ballast: rng.int(60) }; }
      if (mode !== 'plain' ? rng.chance(0.5) : true) r = perturb(rng, r, { noLayout: true });
      ctx.note(mode); ctx.note(w.invalid ? 'invalid' : 'valid');
      return ctx.check('confined', [r], data, 0);
    },
  },
  C07: {
    title: 'clock', judge: 'clock',
    rule: 'distinct (bus width, sequence of values shown by the wall clock)',
    go(ctx, rng) {
      const jump = () => rng.pick([0, 1, rng.int(2 ** 31), 2 ** 33 + rng.int(1000), 2 ** 34 + 5, 1700000000, -5]);
      if (rng.chance(0.2)) { // calls of a library one after another, while the clock moves
        const { P, w } = libraryWorld(rng, { mains: rng.range(1, 2), gen: { insts: rng.pick([0, 1, 2]), pkgs: rng.pick([0, 1, 2]) } });
        const plan = Array.from({ length: rng.range(2, 4) }, () => [{ ...callOf(rng, rng.pick(P.mains)), TS: rng.chance(0.85) }]);
        let h = hspec(w, plan);
        if (rng.chance(0.5)) h = perturb(rng, h, { noClock: true });
        h.clock = { start: rng.pick([5, 1700000000, 2 ** 31 + 5, 2 ** 33, rng.int(2 ** 31)]), step: rng.pick([1000000, 700000000, 5000000000]) };
        if (rng.chance(0.5)) h.clock.jumps = Array.from({ length: rng.range(1, 4) }, () => ({ at: 1 + rng.int(300), to: jump() })).sort((a, b) => a.at - b.at);
        ctx.note('library');
        return ctx.check('clockLibrary', [h], { ts: plan.map((c) => c[0].TS) });
      }
      const width = rng.weighted([[2, 8], [2, 16], [3, 32], [2, 33 + rng.int(8)], [2, 64], [2, rng.range(8, 64)], [1, 36], [1, 35], [1, 37]]);
      const w = workload(ctx, rng, { kind: 'valid', gen: { busWidth: width, ...(rng.chance(0.3) ? { insts: 0 } : {}) } });
      const mkClock = () => {
        const start = rng.weighted([[3, rng.int(2 ** 31)], [1, 0], [1, 1], [2, 2 ** 32 - 1 - rng.int(3)], [2, 2 ** 32 + rng.int(1000)], [2, 2 ** 33 + rng.int(100000)], [1, 2 ** 34 + rng.int(100000)], [1, width <= 33 ? 2 ** width - 1 : 5], [1, 18446744073 - rng.int(1000)], [1, -rng.int(2 ** 31)]]);
        const c = { start, step: rng.pick([1, 1000, 1000000, 700000000]) };
        if (rng.chance(0.6)) c.jumps = Array.from({ length: rng.range(1, 4) }, () => ({ at: 1 + rng.int(80), to: jump() })).sort((a, b) => a.at - b.at);
        return c;
      };
      // The clocks may only differ in what they show: jumps do not change the monotonic time.
      const s = spec(w);
      const t = spec(w, { timestamp: true });
      const zone = () => (rng.chance(0.5) ? { machine: randomMachine(rng) } : {});
      const ref = { ...s, clock: mkClock() };
      const a = { ...t, ...zone(), clock: mkClock() };
      let b = { ...t, ...zone(), clock: mkClock() };
      if (rng.chance(0.4)) b = perturb(rng, b, { noClock: true });
      const plain2 = { ...s, ...zone(), clock: mkClock() };
      ctx.check('same', [ref, plain2], { what: 'execution with another clock, without timestamp' });
      return ctx.check('clock', [ref, a, b], { width });
    },
  },
  C08: {
    title: 'history', judge: 'library',
    rule: 'distinct histories (sequence of calls with outcomes and edits)',
    go(ctx, rng) {
      const { P, w } = libraryWorld(rng, { mains: rng.range(1, 3) });
      const nsteps = rng.range(2, 6);
      // A call that fails: an erroneous main file whose errors are found while instantiating.
      if (rng.chance(0.4)) {
        const Q = project(rng, { pkgs: 0, insts: 2, depth: 1 });
        injectErrors(rng, Q, 1, ['unknownType', 'invalidProp', 'negWidth', 'propType', 'missingArg', 'unknownArg', 'typeCycle', 'negArray', 'blackboxSize', 'emptyGroup']);
        const f = Q.main.files[0]; f.name = 'bad.fbd';
        w.tree['/w/bad.fbd'] = { t: 'f', d: fileText(f) };
        f.path = '/w/bad.fbd';
        P.mains.push({ ...Q.main, mainName: Q.mainName });
      }
      let tree = w.tree;
      const plan = [], edits = [], trees = [];
      // Other working directories and search paths with packages of the same names and other contents.
      const where = rng.weighted([[5, null], [1.5, 'Dir'], [1.5, 'FbdPath']]);
      const places = where === null ? [] : twin(rng, P, w, where);
      if (where) ctx.note(where === 'Dir' ? 'other directory' : 'other search path');
      for (let i = 0; i < nsteps; i++) {
        if (i > 0 && rng.chance(0.5)) {
          const ops = editOps(rng, P, tree, rng.range(1, 2));
          if (ops.length) { edits.push({ mark: i, ops }); tree = applyOps(tree, ops); }
        }
        const m = rng.pick(P.mains);
        const c = callOf(rng, m, { badName: rng.chance(0.12) });
        if (where) { c[where] = rng.pick(places); if (where === 'Dir') c.Path = m.files[0].path.replace('/w/', rng.chance(0.3) ? `${c.Dir}/` : ''); }
        plan.push([c]);
        trees.push(tree);
      }
      const runs = [], calls = [];
      for (let i = 0; i < nsteps; i++) {
        const s = hspec({ ...w, tree: trees[i] }, [plan[i]]);
        const r = ctx.run(s);
        if (!parseHarness(r)) { ctx.note('skipped: call ends the process'); return; }
        calls.push([runs.length]); runs.push(s);
      }
      let h = hspec(w, plan, { edits });
      if (rng.chance(0.6)) h = perturb(rng, h, { noClock: true });
      ctx.note(edits.length ? 'edited' : 'unchanged');
      if (plan.some((c) => c[0].TS)) ctx.note('timestamp');
      // Timestamps are equal only if the clock stands still.
      for (const r of [...runs, h]) r.clock = { start: 1700000000, step: 0 };
      if (h.sched) h.sched = { ...h.sched, stall: undefined };
      return ctx.check('library', [...runs, h], { calls }, runs.length);
    },
  },
  C09: {
    title: 'concurrent calls', judge: 'library',
    rule: 'distinct orders of goroutine switches over executions with at least two calls in flight',
    go(ctx, rng) {
      const { P, w } = libraryWorld(rng, { mains: rng.range(1, 3), gen: { insts: rng.pick([1, 2, 3]), pkgs: rng.pick([0, 1, 2]) } });
      const nsteps = rng.weighted([[6, 1], [2, 2]]);
      const plan = [], runs = [], calls = [];
      for (let i = 0; i < nsteps; i++) {
        const cs = Array.from({ length: rng.range(2, 4) }, () => callOf(rng, rng.pick(P.mains), { badName: rng.chance(0.08) }));
        plan.push(cs);
        calls.push(cs.map((c) => { runs.push(hspec(w, [[c]])); return runs.length - 1; }));
      }
      for (const s of runs) { s.clock = { start: 1700000000, step: 0 }; if (!parseHarness(ctx.run(s))) { ctx.note('skipped: call ends the process'); return; } }
      const h = perturb(rng, hspec(w, plan), { noClock: true, noLayout: true, sched: 1 });
      h.clock = { start: 1700000000, step: 0 };
      if (h.sched) h.sched = { ...h.sched, stall: undefined };
      return ctx.check('library', [...runs, h], { calls }, runs.length);
    },
  },
  C10: {
    title: 'data races', judge: 'races', needs: 'full',
    rule: 'distinct (goroutine switches, access sites at which a goroutine was held)',
    go(ctx, rng) {
      const traps = (n) => { const t = []; const pool = rng.chance(0.75) ? ctx.hotSites : ctx.allSites; for (let i = 0; i < n; i++) t.push([rng.pick(pool), rng.weighted([[4, 1], [2, rng.range(2, 4)], [2, rng.range(2, 40)]])]); return t; };
      if (rng.chance(0.6)) {
        const w = workload(ctx, rng, { kind: rng.chance(0.85) ? 'valid' : 'invalid', gen: { pkgs: rng.range(2, 6), filesPerPkg: rng.range(1, 3), insts: rng.pick([1, 4]) } });
        const s = { ...perturb(rng, spec(w, { debug: rng.chance(0.2) }), { noLayout: true, sched: 0.8 }), traps: traps(rng.pick([20, 100, 500])) };
        return ctx.check('races', [s], { sites: null });
      }
      const { P, w } = libraryWorld(rng, { mains: rng.range(1, 3), gen: { pkgs: rng.range(0, 3) } });
      const plan = [Array.from({ length: rng.range(2, 3) }, () => callOf(rng, rng.pick(P.mains)))];
      const s = { ...perturb(rng, hspec(w, plan), { noLayout: true, sched: 0.8 }), traps: traps(rng.pick([20, 100, 500])) };
      return ctx.check('races', [s], { sites: null });
    },
  },
  C11: {
    title: 'discovery', judge: 'model',
    rule: 'distinct combinations (placement features, layout, order of entries)',
    go(ctx, rng) {
      const w = workload(ctx, rng, { kind: 'valid', plain: false, gen: { pkgs: rng.range(1, 6), insts: rng.pick([1, 2, 4]), types: rng.pick([0, 1]) } });
      for (const f of new Set(w.feats)) ctx.note(f);
      let s = perturb(rng, spec(w), { sched: 0.5 });
      s.layout = randomLayout(rng);
      if (rng.chance(0.15)) s = answerProbes(ctx, rng, s);
      if (rng.chance(0.5)) s.frag = { seed: rng.u32(), read: 0, write: 0, eintr: rng.pick([0, 0.1]) };
      return ctx.check('model', [s], { expect: expectOf(w), dump: DUMP });
    },
    known: {
      'fbd-main': (ctx) => {
        const tree = { '/w/bus.fbd': { t: 'f', d: 'Main bus\n  s status\n' }, '/w/fbd-main/a.fbd': { t: 'f', d: 'const A = 7\n' } };
        const r = ctx.run({ tree, args: ['fbdl', '-main', 'Main', '-c', DUMP, 'bus.fbd'], env: { PWD: '/w', GOGC: 'off' }, readBack: [DUMP] });
        return accepted(r) && !(r.files[DUMP] ?? '').includes('"A"');
      },
    },
  },
  C12: {
    title: 'imports', judge: 'model',
    rule: 'distinct (import graph, order of goroutine switches, order of map iterations)',
    go(ctx, rng) {
      const P = project(rng, { pkgs: rng.range(2, 6), importP: rng.pick([0.3, 0.6, 0.9]), shadow: rng.chance(0.8), insts: rng.pick([2, 4, 8]), consts: rng.pick([2, 4]) });
      // Import paths of more than one element.
      // A path of several elements is compared with the path by which a package was found, hence no links in that case.
      const long = rng.chance(0.5);
      const w0 = rng.chance(0.5) ? plain(P) : world(rng, P, long ? { noLinks: true, noOverlap: true } : {});
      for (const p of [...P.pkgs, ...P.mains]) for (const f of p.files) for (const im of f.imports) {
        if (!long || !rng.chance(0.4)) continue;
        const comps = im.pkg.at.split('/').filter((x) => x);
        if (comps.length < 2) continue;
        im.path = rng.chance(0.2) ? '/' + comps.slice(-1)[0] : rng.chance(0.8) ? comps.slice(-2).join('/') : comps.slice(-3).join('/');
        im.alias = im.name;
        ctx.note('long path');
      }
      putFilesReal(P, w0.tree);
      const w = { ...w0, P, mainName: P.mainName };
      const mode = rng.weighted([[5, 'valid'], [2, 'ambiguous'], [2, 'missing'], [1.5, 'sibling']]);
      ctx.note(mode);
      const s = spec(w);
      if (mode === 'valid') return ctx.check('model', [perturb(rng, s), perturb(rng, s)], { expect: expectProject(P), dump: DUMP });
      const all = [...P.pkgs, ...P.mains].flatMap((p) => p.files.map((f) => [p, f]));
      let res;
      if (mode === 'missing') {
        const [, f] = rng.pick(all);
        let bad = rng.pick(['fbd-none', 'fbd-', 'fbd-pp', 'x/fbd-zzz', 'FBD-p', 'fbd-q/', 'lib/fbd-p0']);
        if (P.pkgs.length && rng.chance(0.5)) { // almost the path of a package
          const d = rng.pick(P.pkgs).at.split('/').pop();
          bad = rng.pick([`./${d}`, `../${d}`, `.${d}`, `//${d}`, `../x/${d}`, `x/../${d}`, `${d}/`, `${d}/.`, `${d} `, ` ${d}`, d.toUpperCase(), `${d}x`, `zz9${d}`, `${d}/${d}`]);
        }
        if (P.pkgs.some((p) => p.at.endsWith(bad) || (p.found ?? p.at).endsWith(bad))) return;
        f.imports.push({ alias: 'nope1', name: 'nope1', path: bad });
        res = ['cannot find package "' + bad.replace(/[.*+?^${}()|[\]\\/]/g, '\\$&') + '"'];
      } else if (mode === 'ambiguous') {
        const withIm = all.filter(([, f]) => f.imports.length);
        if (!withIm.length) return;
        const [, f] = rng.pick(withIm), im = rng.pick(f.imports);
        const n = rng.range(1, 3);
        for (let i = 0; i < n; i++) addEntry(w.tree, `/w/amb${i}/${im.path}/z.fbd`, { t: 'f', d: 'const A = 1\nconst B = 2\n' });
        res = ['packages match path'];
      } else { // a name imported by another file of the package only
        const p = rng.pick(P.pkgs.filter((q) => q.files.length > 1)); if (!p) return;
        const [f, g] = rng.sample(p.files, 2);
        const q = rng.pick(P.pkgs);
        g.imports.push({ alias: 'sib1', name: 'sib1', path: q.dir, pkg: q });
        g.tail.push('const SibG = 1'); q.files[0].tail.push('const SibX = 5');
        f.tail.push('const SibF = sib1.SibX');
        res = ['sib1'];
      }
      putFilesReal(P, w.tree);
      return ctx.check('rejected', [perturb(rng, s), perturb(rng, s)], { what: `${mode} import`, res, dump: DUMP, dumpBefore: null });
    },
    known: {
      'same-name': (ctx) => {
        const tree = {
          '/w/bus.fbd': { t: 'f', d: 'import p "a/fbd-p"\nimport q "b/fbd-p"\nMain bus\n  s status; width = p.A + q.A\n' },
          '/w/a/fbd-p/a.fbd': { t: 'f', d: 'const A = 3\n' }, '/w/b/fbd-p/a.fbd': { t: 'f', d: 'const A = 4\n' },
        };
        const r = ctx.run({ tree, args: ['fbdl', '-main', 'Main', 'bus.fbd'], env: { PWD: '/w', GOGC: 'off' }, readBack: [] });
        return !accepted(r) && /implement/.test(r.stderr);
      },
    },
  },
  C13: {
    title: 'racing edits', judge: 'oneOf',
    rule: 'distinct (files edited, instants of the edits relative to the system calls, order of goroutine switches)',
    go(ctx, rng) {
      const w = workload(ctx, rng, { kind: 'valid', plain: rng.chance(0.7), gen: { pkgs: rng.range(1, 4), filesPerPkg: 2, many: 0.08 } });
      const P = w.P;
      const files = [...P.pkgs, ...P.mains].flatMap((p) => p.files);
      const k = Math.min(files.length, rng.weighted([[3, 1], [4, 2], [3, 3]]));
      const chosen = rng.sample(files, k);
      const ops = [];
      for (const f of chosen) {
        const d = changedText(rng, f);
        if (d !== null && d !== fileText(f)) ops.push({ path: f.real ?? f.path, t: 'f', d });
      }
      if (!ops.length) return;
      if (rng.chance(0.25)) { // the other way round: a source is repaired
        const o = rng.pick(ops), good = w.tree[o.path].d;
        w.tree[o.path] = { t: 'f', d: rng.chance(0.5) ? o.d : good + rng.pick(['const Broken = 1 \n', 'const Broken 1\n', 'type Tb(\n', `const Broken = ${'1 + '.repeat(rng.int(30))}\n`]) };
        o.d = good;
        ctx.note('repaired');
      }
      const s = spec(w);
      const runs = [];
      for (let m = 0; m < 2 ** ops.length; m++) runs.push({ ...s, tree: applyOps(s.tree, ops.filter((o, i) => (m >> i) & 1)) });
      const ref = ctx.run(s);
      // Instants: uniformly over the system calls, or around the calls that touch the file.
      const edits = ops.map((o) => {
        const near = ref.ev.map((e, i) => [e, i]).filter(([e]) => e.endsWith(' ' + o.path));
        if (near.length && rng.chance(0.6)) { const e = rng.pick(near)[0]; const op = e.slice(0, e.indexOf(' ')); return { op, path: o.path, nth: 1 + rng.int(near.filter((x) => x[0] === e).length + 1), ops: [o] }; }
        return { at: 1 + rng.int(ref.sys), ops: [o] };
      });
      let r = { ...s, edits };
      r = perturb(rng, r, { noLayout: true, noClock: true });
      return ctx.check('oneOf', [...runs, r], { ops: ops.map((o) => ({ path: o.path, old: s.tree[o.path]?.d, new: o.d })) }, runs.length);
    },
  },
  C14: {
    title: 'termination', judge: 'terminates',
    rule: 'distinct (workload shape, order of goroutine switches, faults fired)',
    go(ctx, rng) {
      const mode = rng.weighted([[3, 'starve'], [4, 'faults'], [3, 'adversarial'], [2, 'invalid'], [1.5, 'library'], [1.5, 'links']]);
      ctx.note(mode);
      if (mode === 'adversarial') {
        const a = adversarial(rng);
        ctx.note(a.name);
        const runs = a.trees.map((tree) => ({ tree, args: ['fbdl', '-main', 'Main', '-c', DUMP, 'bus.fbd'], env: { PWD: '/w', GOGC: 'off', ...(a.env ?? {}) }, readBack: [] }));
        if (rng.chance(0.3)) for (const r of runs) r.mapOrder = randomMap(rng);
        return ctx.check('terminates', runs, { scale: a.scale ?? null, bound: 30e6 });
      }
      if (mode === 'library') {
        const { P, w } = libraryWorld(rng);
        const plan = Array.from({ length: rng.range(1, 2) }, () => Array.from({ length: rng.range(1, 3) }, () => callOf(rng, rng.pick(P.mains), { badName: rng.chance(0.3) })));
        return ctx.check('terminates', [perturb(rng, hspec(w, plan), { sched: 1 })], {});
      }
      const w = workload(ctx, rng, { kind: mode === 'invalid' ? 'invalid' : rng.chance(0.8) ? 'valid' : 'invalid', plain: mode !== 'links' && rng.chance(0.6), gen: { pkgs: rng.range(1, 6) }, errors: rng.range(1, 5) });
      if (rng.chance(0.2)) mutant(rng, w);
      let s = spec(w, { debug: rng.chance(0.1) });
      if (mode === 'faults') {
        const ref = ctx.run(s);
        s = { ...s, faults: readFaults(rng, ref, rng.range(1, 4)) };
        if (rng.chance(0.3)) for (const f of s.faults) if (f.op === 'path_open' || f.op?.startsWith('path_')) f.err = 'ENOENT';
        if (rng.chance(0.3)) s.frag = { seed: 1, read: rng.pick([0, 1, 50]), eintr: 0.3 };
      }
      s = perturb(rng, s, { sched: 1, noLayout: mode === 'faults' });
      if (mode === 'starve') s.sched = { policy: rng.pick(['starve', 'only']), seed: rng.u32(), victim: rng.int(8), q: rng.pick([1, 5, 50]) };
      return ctx.check('terminates', [s], {});
    },
  },
  C15: {
    title: 'diagnostics', judge: 'same',
    rule: 'distinct combinations (faults fired on standard error, debug flag, order of goroutine switches)',
    go(ctx, rng) {
      const w = workload(ctx, rng);
      if (rng.chance(0.15)) mutant(rng, w);
      const s = spec(w);
      const runs = [s];
      for (let i = 0; i < 2; i++) {
        const t = spec(w, { debug: rng.chance(0.8) });
        const k = rng.weighted([[2, 'none'], [4, 'err'], [3, 'after'], [2, 'nth'], [1, 'short']]);
        const err = rng.pick(['EPIPE', 'EIO', 'ENOSPC', 'EBADF', 'EAGAIN', 'EDQUOT'].filter((e) => e !== 'EAGAIN'));
        let r = { ...t };
        if (k === 'err') r.faults = [{ op: 'fd_write', path: '<stderr>', err, sticky: true }];
        if (k === 'after') r.faults = [{ op: 'fd_write', path: '<stderr>', kind: 'after', err, arg: rng.int(60) }];
        if (k === 'nth') r.faults = [{ op: 'fd_write', path: '<stderr>', err, nth: rng.range(1, 8) }];
        if (k === 'short') r.frag = { seed: rng.u32(), write: 1 + rng.int(30), delay: 100 };
        if (rng.chance(0.5)) r = perturb(rng, r);
        ctx.note(k + (t.args.includes('-debug') ? ' debug' : ''));
        runs.push(r);
      }
      return ctx.check('same', runs, { what: 'execution with another diagnostic stream' });
    },
  },
  C16: {
    title: 'parametrised types', judge: 'model',
    rule: 'distinct (type hierarchy, order of goroutine switches, order of map iterations)',
    go(ctx, rng) {
      const w = workload(ctx, rng, { kind: 'valid', plain: rng.chance(0.85), gen: { params: true, types: rng.range(1, 4), pkgs: rng.range(0, 4), insts: rng.pick([4, 8, 14]), depth: rng.range(1, 3), importP: rng.pick([0.5, 0.9]) } });
      const s = spec(w);
      return ctx.check('model', [perturb(rng, s), perturb(rng, s)], { expect: expectOf(w), dump: DUMP });
    },
  },
  C17: {
    title: 'restart', judge: 'same',
    rule: 'distinct histories (instants of the kills, faults that fired, edits, order of goroutine switches) of processes one after another on one file system',
    go(ctx, rng) {
      const w = workload(ctx, rng, { kind: rng.weighted([[8, 'valid'], [1, 'invalid'], [1, 'corpus']]), gen: { pkgs: rng.range(0, 4) } });
      if (rng.chance(0.1)) { const P = w.P; mutant(rng, w); w.P = P; }
      const s = spec(w), ref = ctx.run(s);
      let tree = w.tree;
      const edits = [];
      // The earlier processes saw other files.
      if (w.P && rng.chance(0.4)) {
        const fs_ = [...w.P.pkgs, ...w.P.mains].flatMap((p) => p.files).filter((f) => tree[f.real ?? f.path]?.t === 'f');
        tree = { ...tree };
        for (const f of rng.sample(fs_, Math.min(fs_.length, rng.range(1, 3)))) {
          const p = f.real ?? f.path;
          edits.push({ at: 1, ops: [{ path: p, t: 'f', d: tree[p].d }] });
          tree[p] = { t: 'f', d: rng.chance(0.2) ? '' : changedText(rng, f) };
        }
        ctx.note('edited');
      }
      // ... or packages that are not there any more, or the dump belongs to another project.
      if (rng.chance(0.25)) {
        const d = rng.pick(['fbd-old', 'sub/fbd-old', 'fbd-q9', 'fbd-main2', w.P?.pkgs[0] ? `old/${w.P.pkgs[0].dir}` : 'fbd-x']), p = `/w/${d}/a.fbd`, t = { ...tree };
        if (addEntry(t, p, { t: 'f', d: rng.pick(['const A = 3\n', 'const A = true\nconst S = "x"\n', 'type Cfg config; width = 3\nconst L = [1, 2]\n', 'broken(\n']) })) { tree = t; edits.push({ at: 1, ops: [{ path: p, rm: true }] }); ctx.note('package removed'); }
      } else if (rng.chance(0.2) && !tree[DUMP]) {
        const Q = project(rng, { pkgs: rng.range(0, 3), insts: 1 }), o = ctx.run(spec({ ...plain(Q), mainName: Q.argMain ?? Q.mainName }));
        if (o.files[DUMP]) { tree = { ...tree, [DUMP]: { t: 'f', d: o.files[DUMP] } }; ctx.note('dump of another project'); }
      }
      const peers = [];
      for (let n = rng.weighted([[5, 1], [3, 2], [1, 4]]); n > 0; n--) {
        const dump = rng.chance(0.8) ? DUMP : rng.pick(['/w/k.json', '/tmp/c.json']);
        let p = spec(rng.chance(0.85) ? w : { ...w, mainName: w.mainName === null ? null : 'Nope' }, { dump: rng.chance(0.9), dumpArg: dump, dumpPath: dump, debug: rng.chance(0.1), timestamp: rng.chance(0.1) });
        const mode = rng.weighted([[6, 'kill'], [2, 'fault'], [1, 'killfault'], [2, 'complete'], [1, 'memory']]);
        const late = () => (rng.chance(0.5) ? Math.max(1, ref.sys - rng.int(12)) : 1 + rng.int(ref.sys));
        if (mode.startsWith('kill')) p.kill = { at: late() };
        if (mode === 'fault') p.faults = rng.chance(0.5) ? readFaults(rng, ref, 1) : [{ at: late(), err: rng.pick(['EIO', 'ENOSPC', 'EACCES', 'EDQUOT', 'EINTR']) }];
        if (mode === 'memory') p.memory = randomShortage(rng, ref);
        if (mode === 'killfault') p.frag = { seed: rng.u32(), write: rng.pick([1 + rng.int(60), 512]) };
        if (rng.chance(0.5)) p = perturb(rng, p, { noLayout: true });
        peers.push({ at: 0, spec: p });
        ctx.note(mode);
      }
      let r = { ...s, tree, peers, edits };
      if (rng.chance(0.25)) { // the machine went down: what had been written to the dump is lost, partly or entirely
        const ops = [rng.chance(0.3) ? { path: DUMP, rm: true } : { path: DUMP, t: 'f', d: oldDump(rng, ref) }];
        edits.push({ at: 1, ops }); ctx.note('power loss');
      }
      if (rng.chance(0.4)) r = perturb(rng, r);
      return ctx.check('same', [s, r], { what: 'compilation after earlier ones that were killed or failed' }, 1);
    },
  },
  C18: {
    title: 'other processes', judge: 'processes',
    rule: 'distinct interleavings (instants at which other processes run or are killed, faults, order of goroutine switches)',
    go(ctx, rng) {
      const w = workload(ctx, rng, { kind: rng.weighted([[8, 'valid'], [1.5, 'invalid']]), gen: { pkgs: rng.range(0, 4), extraMains: rng.pick([0, 0, 1]) } });
      const shared = rng.chance(0.35); // all write the same dump with the same content
      const others = ['/w/c2.json', '/w/c3.json', '/w/c4.json', '/tmp/c.json', '/w/c.json.tmp'];
      if (rng.chance(0.3)) addEntry(w.tree, '/tmp', { t: 'd' });
      const variant = (i) => {
        const m = !shared && i > 0 && w.P.mains.length > 1 && rng.chance(0.6) ? w.P.mains[1] : null;
        const v = m ? { ...w, mainName: m.mainName, mainPath: m.files[0].path.replace('/w/', '') } : !shared && i > 0 && rng.chance(0.1) ? { ...w, mainName: 'Nope' } : w;
        const dump = shared || i === 0 ? DUMP : others[i - 1];
        return spec(v, { dump: shared || rng.chance(0.9), dumpArg: dump, dumpPath: dump, debug: i > 0 && rng.chance(0.1) });
      };
      const n = rng.weighted([[4, 1], [3, 2], [2, 3]]);
      const s = variant(0), ref = ctx.run(s), specs = [s], solo = [];
      let r = s;
      const peers = [];
      let parts = false;
      for (let i = 1; i <= n; i++) {
        const a = variant(i), ra = ctx.run(a);
        let p = rng.chance(0.6) ? perturb(rng, a, { noLayout: true }) : { ...a };
        // A process that dies while it writes leaves an incomplete dump: only its own, unless another one writes it again.
        const mode = shared && rng.chance(0.7) ? 'complete' : rng.weighted([[5, 'complete'], [3, 'killed'], [1, 'fault'], [0.7, 'memory']]);
        if (mode === 'killed') p.kill = { at: rng.chance(0.5) ? Math.max(1, ra.sys - rng.int(10)) : 1 + rng.int(ra.sys) };
        if (mode === 'memory') p.memory = randomShortage(rng, ra);
        if (mode === 'fault') p.faults = [{ at: Math.max(1, ra.sys - rng.int(10)), err: rng.pick(['EIO', 'ENOSPC', 'EACCES']) }];
        ctx.note(mode);
        const at = rng.chance(0.4) ? Math.max(1, ref.sys - rng.int(10)) : 1 + rng.int(ref.sys);
        const q = { at, spec: p };
        // started while the previous one is at work
        if (peers.length && rng.chance(0.3) && !(shared && mode !== 'complete')) { const h = rng.pick(peers); h.spec = { ...h.spec, peers: [...(h.spec.peers ?? []), { ...q, at: rng.chance(0.5) ? Math.max(1, ra.sys - rng.int(10)) : 1 + rng.int(ra.sys) }] }; ctx.note('nested'); continue; }
        if (shared && mode !== 'complete') { const o = ref.ev.findIndex((e) => e === `path_open ${DUMP}`); q.at = 1 + rng.int(o < 0 ? ref.sys : o); }
        // Interrupted several times, so that both are in the middle of their work.
        if (mode !== 'memory' && !(shared && mode !== 'complete') && rng.chance(0.45)) {
          const n = rng.range(2, 4), some = (k, sys) => { const x = new Set(), late = rng.chance(0.6); while (x.size < k) x.add(late ? Math.max(1, sys - rng.int(14)) : 1 + rng.int(sys)); return [...x].sort((a, b) => a - b); };
          q.at = some(n, ref.sys); q.until = some(n - 1, ra.sys); parts = true;
          ctx.note('interrupted');
        }
        peers.push(q);
        if (mode === 'complete') { solo.push(specs.length); specs.push(a); } else solo.push(null);
      }
      if (rng.chance(0.6)) r = perturb(rng, s, { noClock: true });
      r = { ...r, peers, readBack: [...new Set([...s.readBack, ...specs.flatMap((x) => x.readBack)])] };
      return ctx.check('processes', [...specs, r], { solo, shared, parts }, specs.length);
    },
  },
  C19: {
    title: 'leftovers', judge: 'leftovers',
    rule: 'distinct (sequence of calls with outcomes, order of goroutine switches)',
    go(ctx, rng) {
      const { P, w } = libraryWorld(rng, { mains: rng.range(1, 2), gen: { insts: rng.pick([1, 2, 3]), pkgs: rng.pick([0, 1, 2, 3]), types: rng.pick([0, 1, 2]) } });
      if (rng.chance(0.4)) { // calls that fail
        const Q = project(rng, { pkgs: 0, insts: 2, depth: 1 });
        injectErrors(rng, Q, 1, ['unknownType', 'invalidProp', 'negWidth', 'propType', 'missingArg', 'unknownArg', 'typeCycle', 'negArray', 'blackboxSize', 'emptyGroup']);
        const f = Q.main.files[0]; f.name = 'bad.fbd'; f.path = '/w/bad.fbd';
        w.tree['/w/bad.fbd'] = { t: 'f', d: fileText(f) };
        P.mains.push({ ...Q.main, mainName: Q.mainName });
      }
      const plan = Array.from({ length: rng.range(1, 2) }, () => Array.from({ length: rng.weighted([[3, 1], [1, 2], [1, 3]]) }, () => callOf(rng, rng.pick(P.mains), { badName: rng.chance(0.2) })));
      let h = hspec(w, plan);
      h.env = { ...h.env, VERIF_MODE: 'rounds' };
      const memory = rng.chance(0.5);
      if (rng.chance(0.3)) {
        const ref = ctx.run(h);
        h = { ...h, faults: readFaults(rng, ref, rng.pick([1, 2])).map((f) => ({ ...f, sticky: false })) };
      }
      if (!memory) { const e = h.env; h = perturb(rng, h); h.env = e; }
      ctx.note(memory ? 'memory' : 'schedule');
      return ctx.check('leftovers', [h], { memory, faulted: !!h.faults }, 0);
    },
  },
};

// ---------- helpers of the drivers ----------
function putFilesReal(P, tree) { // rewrite the files, keeping links
  for (const p of [...P.pkgs, ...P.mains]) for (const f of p.files) tree[f.real ?? f.path] = { t: 'f', d: fileText(f) };
}
export function applyOps(tree, ops) {
  const t = { ...tree };
  for (const o of ops) { if (o.rm) delete t[o.path]; else t[o.path] = { t: o.t, d: o.d }; }
  return t;
}
// Another version of a file: other values, so that the result changes, or an error.
function changedText(rng, f) {
  const cs = f.syms.filter((s) => s.s === 'const' && s.expr.k === 'int');
  const saved = cs.map((c) => c.expr);
  if (cs.length && rng.chance(0.7)) { const n = rng.range(1, cs.length); for (const c of rng.sample(cs, n)) c.expr = I(c.expr.v + rng.range(1, 3)); }
  let d = fileText(f);
  cs.forEach((c, i) => { c.expr = saved[i]; });
  const r = rng.float();
  if (r < 0.5) d += `const New${rng.int(3)} = ${rng.int(100)}\n`;
  else if (r < 0.6) d += 'const Broken = 1 \n';
  else if (r < 0.65) d = d.slice(0, rng.int(d.length));
  return d;
}
function editOps(rng, P, tree, n) {
  const ops = [];
  const files = [...P.pkgs, ...P.mains].flatMap((p) => p.files).filter((f) => tree[f.real ?? f.path]);
  for (let i = 0; i < n; i++) {
    const k = rng.weighted([[5, 'change'], [2, 'addFile'], [1, 'addPkg'], [1, 'undo']]);
    if (k === 'change') {
      const f = rng.pick(files);
      const cs = f.syms.filter((s) => s.s === 'const' && s.expr.k === 'int');
      if (cs.length) { const c = rng.pick(cs), old = c.expr; c.expr = I(old.v + rng.range(1, 2)); ops.push({ path: f.real ?? f.path, t: 'f', d: fileText(f) }); if (rng.chance(0.5)) c.expr = old; } else { f.syms.push({ s: 'const', name: `Ed${rng.int(100000)}`, expr: I(rng.int(9)) }); ops.push({ path: f.real ?? f.path, t: 'f', d: fileText(f) }); }
    } else if (k === 'addFile' && P.pkgs.length) ops.push({ path: `${rng.pick(P.pkgs).at}/new${rng.int(3)}.fbd`, t: 'f', d: `const Nw${rng.int(1e6)} = ${rng.int(50)}\n` });
    else if (k === 'addPkg') ops.push({ path: `/w/fbd-nw${rng.int(3)}/a.fbd`, t: 'f', d: `const A = ${rng.int(50)}\n` });
    else if (k === 'undo') { const added = Object.keys(tree).filter((p) => /new\d\.fbd$|fbd-nw\d/.test(p)).sort(); if (added.length) ops.push({ path: rng.pick(added), rm: true }); }
  }
  // A save within the granularity of the modification time: same inode, same time, same size.
  for (const o of ops) if (!o.rm && tree[o.path]?.t === 'f' && tree[o.path].d.length === o.d.length && rng.chance(0.5)) o.inPlace = true;
  const seen = new Set();
  return ops.filter((o) => (seen.has(o.path) ? false : (seen.add(o.path), true)));
}
// A second place with the same packages and other values of their constants: a working directory or a search path.
function twin(rng, P, w, kind) {
  const fs_ = [...P.pkgs, ...(kind === 'Dir' ? P.mains : [])].flatMap((p) => p.files.map((f) => [p, f]));
  const at = (f) => f.path ?? `/w/${f.name}`;
  const base = kind === 'Dir' ? '/w2' : '/lib2';
  w.tree[base] = { t: 'd' };
  for (const [, f] of fs_) {
    const path = at(f);
    if (!path.startsWith('/w/') || w.tree[path]?.t !== 'f') continue;
    const cs = f.syms.filter((s) => s.s === 'const' && s.expr.k === 'int'), saved = cs.map((c) => c.expr);
    for (const c of cs) if (rng.chance(0.7)) c.expr = I(c.expr.v + rng.range(1, 3));
    addEntry(w.tree, path.replace('/w', base), { t: 'f', d: fileText(f) });
    cs.forEach((c, i) => { c.expr = saved[i]; });
  }
  if (kind === 'Dir') return ['/w', base];
  // The packages move from the working directory to another search path.
  for (const p of P.pkgs) for (const f of p.files) {
    if (!f.path.startsWith('/w/')) continue;
    const e = w.tree[f.path]; delete w.tree[f.path];
    f.path = f.path.replace('/w', '/lib1'); addEntry(w.tree, f.path, e);
    if (p.at?.startsWith('/w')) p.at = p.at.replace('/w', '/lib1');
  }
  return ['/lib1', base];
}
// Inputs that provoke unbounded work.
function adversarial(rng) {
  const f = (d) => ({ t: 'f', d });
  const n = rng.range(5, 30);
  const rep = (k, g) => Array.from({ length: k }, (_, i) => g(i)).join('');
  const two = (g) => [{ '/w/bus.fbd': f(g(n)) }, { '/w/bus.fbd': f(g(2 * n)) }];
  return rng.pick([
    () => ({ name: 'const cycle', trees: [{ '/w/bus.fbd': f(rep(n, (i) => `const C${i} = C${(i + 1) % n} + 1\n`) + 'Main bus\n  s status; width = C0\n') }] }),
    () => ({ name: 'const cycle in body', trees: [{ '/w/bus.fbd': f('Main bus\n' + rep(n, (i) => `  const C${i} = C${(i + 1) % n}\n`) + '  s status; width = C0\n') }] }),
    () => ({ name: 'const cycle across packages', trees: [{ '/w/bus.fbd': f('import "fbd-p"\nMain bus\n  s status; width = p.A\n'), '/w/fbd-p/a.fbd': f('import q "fbd-q"\nconst A = q.A\n'), '/w/fbd-q/a.fbd': f('import p "fbd-p"\nconst A = p.A\n') }] }),
    () => ({ name: 'type cycle', trees: [{ '/w/bus.fbd': f(rep(n, (i) => `type T${i} T${(i + 1) % n}\n`) + 'Main bus\n  s T0\n') }] }),
    () => ({ name: 'type within itself', trees: [{ '/w/bus.fbd': f('type T block\n  a U\ntype U block\n  b T\nMain bus\n  s T\n') }] }),
    () => ({ name: 'type cycle across packages', trees: [{ '/w/bus.fbd': f('import "fbd-p"\nMain bus\n  s p.T\n'), '/w/fbd-p/a.fbd': f('import q "fbd-q"\ntype T q.T\n'), '/w/fbd-q/a.fbd': f('import p "fbd-p"\ntype T p.T\n') }] }),
    () => ({ name: 'parameter cycle', trees: [{ '/w/bus.fbd': f('type T(a = b, b = a) status\n  width = a\nMain bus\n  s T\n') }] }),
    () => ({ name: 'argument named as parameter', trees: [{ '/w/bus.fbd': f('const n = 3\ntype T(n) status\n  width = n\ntype U(n) T(n)\nMain bus\n  s U(n)\n  t T(n + 1)\n') }] }),
    () => ({ name: 'constant shadowing itself', trees: [{ '/w/bus.fbd': f('const A = 3\nMain bus\n  const A = A + 1\n  s status; width = A\n') }] }),
    () => ({ name: 'import cycle', trees: [{ '/w/bus.fbd': f('import "fbd-p"\nMain bus\n  s status; width = p.A\n'), '/w/fbd-p/a.fbd': f('import "fbd-p"\nimport q "fbd-q"\nconst A = 3\n'), '/w/fbd-q/a.fbd': f('import "fbd-p"\nimport x "fbd-q"\nconst B = p.A + 1\n') }] }),
    () => ({ name: 'many narrow statuses', scale: 8, trees: two((k) => 'Main bus\n' + rep(4 * k, (i) => `  s${i} status; width = ${1 + ((i * 7) % 31)}\n`)) }),
    () => ({ name: 'many atomic and wide', scale: 8, trees: two((k) => 'Main bus\n' + rep(3 * k, (i) => `  s${i} ${i % 2 ? 'status' : 'config'}; width = ${1 + ((i * 13) % 70)}; atomic = ${i % 3 ? 'true' : 'false'}\n`)) }),
    () => ({ name: 'arrays', scale: 8, trees: two((k) => 'Main bus\n' + rep(2 * k, (i) => `  s${i} [${1 + ((i * 5) % 40)}] ${i % 2 ? 'status' : 'config'}; width = ${1 + ((i * 13) % 32)}\n`)) }),
    () => ({ name: 'nested blocks', scale: 8, trees: two((k) => { let s = 'Main bus\n', ind = '  '; for (let i = 0; i < Math.min(k, 25); i++) { s += `${ind}b${i} block\n${ind}  s status\n`; ind += '  '; } return s; }) }),
    () => ({ name: 'type chain', scale: 10, trees: two((k) => `type T0(n) status\n  width = n\n${rep(k, (i) => `type T${i + 1}(n) T${i}(n)\n`)}Main bus\n  s T${k}(5)\n`) }),
    () => ({ name: 'long expression', scale: 10, trees: two((k) => `const A = ${Array.from({ length: 4 * k }, () => 1).join(' + ')}\nMain bus\n  s status; width = 3\n`) }),
    () => ({ name: 'constant chain', scale: 10, trees: two((k) => `const A0 = 1\n${rep(k, (i) => `const A${i + 1} = A${i} + 1\n`)}Main bus\n  s status; width = 3\n`) }),
    () => ({ name: 'procs and streams', scale: 10, trees: two((k) => 'Main bus\n' + rep(k, (i) => `  p${i} ${i % 2 ? 'proc' : 'stream'}\n    a param; width = ${1 + ((i * 11) % 60)}\n    b param; width = 3\n${i % 2 ? '    r return; width = 9\n' : ''}`)) }),
    () => ({ name: 'groups', scale: 10, trees: two((k) => 'Main bus\n' + rep(k, (i) => `  g${i} group\n    a config; width = ${1 + ((i * 11) % 20)}\n    b status; width = 3\n`)) }),
    () => ({ name: 'directory cycle', trees: [{ '/w/bus.fbd': f('Main bus\n  s status\n'), '/w/a/b/up': { t: 'l', d: '../..' }, '/w/a/c': { t: 'l', d: 'b' }, '/w/x': { t: 'l', d: 'y' }, '/w/y': { t: 'l', d: 'x' }, '/w/fbd-p/me': { t: 'l', d: '.' }, '/w/fbd-p/a.fbd': f('const A = 1\n') }] }),
    () => ({ name: 'files without end', trees: [{ '/w/bus.fbd': f(rng.pick(['Main bus', '', '\n', '\n\n\n', 'const', 'type', 'import', 'Main bus\n  ', '#', '# x', 'Main bus\n  s status; width =', 'const A = (', 'const A = [1,', 'const A = "', "const A = '", 'Main bus; width', 'import (', 'type T(', 'type T(a = ', 'Main bus\n\ts status', 'A [', 'A [1', 'const\n  A = 1', 'const\n', 'const A = b"', 'import\n  p', '  ', 'Main bus(a'])) }] }),
    () => ({ name: 'random bytes', trees: [{ '/w/bus.fbd': f(Array.from({ length: rng.int(80) }, () => rng.pick([' ', '  ', '\n', 'a', 'A', '=', '(', ')', '[', ']', ',', ';', ':', '"', 'b"1', '1', '0x', '.', '#', '+', '-', '<<', '/', '&&', 'const ', 'type ', 'bus', 'status', 'import ', '\t', 'Main bus\n  ', 'ns', 'true', '!', '^', '*', '**', '%', 'é', '\0'])).join('')) }] }),
  ])();
}
