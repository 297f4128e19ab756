// Minimisation of a violation: schedule, map order, faults, edits, held accesses, layout, clock and sources.
import { judges } from './judges.mjs';
import { exec } from './ctx.mjs';

const classOf = (v) => (v === null ? null : v.split(':')[0]);
// Kinds whose oracle compares executions of the same sources with each other: the sources may be reduced freely.
const TREE_FREE = new Set(['same', 'fault', 'delivered', 'library', 'races', 'terminates', 'leftovers']);

export function minimise(v, { modules, nsites, budgetMs = 40000 }) {
  const end = Date.now() + budgetMs;
  const out = () => Date.now() > end;
  const cls = classOf(v.what);
  let runsUsed = 0;
  const memo = new WeakMap();
  const judge = (specs) => {
    const rs = specs.map((s) => { let r = memo.get(s); if (!r) { r = exec(modules, s, nsites); memo.set(s, r); runsUsed++; } return r; });
    return { what: judges[v.kind](v.data, rs), rs };
  };
  let best = v.specs.slice();
  const first = judge(best);
  if (classOf(first.what) !== cls) return { ...v, unstable: true, results: summary(first.rs) };
  let what = first.what;
  const attempt = (specs) => {
    if (out()) return false;
    let j; try { j = judge(specs); } catch { return false; }
    if (classOf(j.what) === cls) { best = specs; what = j.what; return true; }
    return false;
  };
  const set = (i, patch) => { const s = best.slice(); s[i] = { ...s[i], ...patch }; for (const k of Object.keys(patch)) if (patch[k] === undefined) delete s[i][k]; return s; };

  // Fewer compared executions.
  if (v.kind === 'same' && best.length > 2) for (let i = 1; i < best.length; i++) if (attempt([best[0], best[i]])) break;
  if (['rejected', 'model', 'accepted', 'races'].includes(v.kind) && best.length > 1) for (let i = 0; i < best.length; i++) if (attempt([best[i]])) break;

  const reduceList = (i, key, get = (s) => s[key], put = (list) => ({ [key]: list.length ? list : undefined })) => {
    let list = get(best[i]);
    if (!list || !list.length) return;
    for (let n = Math.min(list.length, 2); !out();) {
      const size = Math.ceil(list.length / n); let done = false;
      for (let a = 0; a < list.length; a += size) {
        const cand = [...list.slice(0, a), ...list.slice(a + size)];
        if (attempt(set(i, put(cand)))) { list = cand; done = true; break; }
      }
      if (!list.length) break;
      if (done) n = Math.max(2, Math.min(n - 1, list.length)); else if (size <= 1) break; else n = Math.min(list.length, n * 2);
    }
  };
  for (let i = 0; i < best.length; i++) {
    for (const k of ['layout', 'entropy', 'frag', 'clock', 'sched', 'mapOrder', 'faults', 'edits', 'kill', 'dirChunk', 'machine']) if (best[i][k] !== undefined && !(k === 'clock' && ['library', 'clock'].includes(v.kind))) attempt(set(i, { [k]: undefined }));
    if (best[i].traps) reduceList(i, 'traps');
    reduceList(i, 'faults'); reduceList(i, 'edits');
    if (v.kind !== 'processes') reduceList(i, 'peers');
    for (let j = 0; j < (best[i].peers?.length ?? 0); j++) for (const k of ['sched', 'mapOrder', 'entropy', 'clock', 'machine', 'faults', 'kill', 'frag', 'peers']) if (best[i].peers[j].spec[k] !== undefined) { const l = best[i].peers.slice(); l[j] = { ...l[j], spec: { ...l[j].spec, [k]: undefined } }; attempt(set(i, { peers: l })); }
    if (best[i].clock?.jumps) reduceList(i, 'jumps', (s) => s.clock.jumps, (l) => ({ clock: { ...best[i].clock, jumps: l } }));
    if (best[i].frag) for (const k of ['read', 'write', 'eintr', 'size0', 'delay']) if (best[i].frag[k]) attempt(set(i, { frag: { ...best[i].frag, [k]: 0 } }));
    if (best[i].layout) for (const k of ['order', 'ino', 'mtime', 'noDtype']) if (best[i].layout[k]) { const l = { ...best[i].layout }; delete l[k]; attempt(set(i, { layout: l })); }
  }
  // Sources.
  if (TREE_FREE.has(v.kind)) {
    const paths = [...new Set(best.flatMap((s) => Object.keys(s.tree)))].filter((p) => !p.startsWith('/plan/')).sort();
    for (const p of paths) {
      if (out()) break;
      attempt(best.map((s) => { if (!s.tree[p] || s.tree[p].t === 'd') return s; const t = { ...s.tree }; delete t[p]; return { ...s, tree: t }; }));
    }
    for (const p of paths) {
      // Remove blocks of lines from a file that is the same in all executions.
      const have = best.filter((s) => s.tree[p]?.t === 'f');
      if (!have.length || !have.every((s) => s.tree[p].d === have[0].tree[p].d)) continue;
      let lines = have[0].tree[p].d.split('\n');
      for (let size = Math.max(1, lines.length >> 1); size >= 1 && !out(); size = size === 1 ? 0 : size >> 1) {
        for (let a = 0; a < lines.length && !out();) {
          const cand = [...lines.slice(0, a), ...lines.slice(a + size)];
          const d = cand.join('\n');
          if (attempt(best.map((s) => (s.tree[p]?.t === 'f' ? { ...s, tree: { ...s.tree, [p]: { ...s.tree[p], d } } } : s)))) lines = cand; else a += size;
        }
      }
    }
  }
  // Explicit schedule and map choices, reduced.
  for (let i = 0; i < best.length && !out(); i++) {
    if (best[i].sched && best[i].sched.policy !== 'list') {
      const r = judge(best).rs[i];
      attempt(set(i, { sched: { policy: 'list', list: r.decisions } }));
    }
    if (best[i].sched?.policy === 'list') {
      const put = (l) => ({ sched: l.length ? { policy: 'list', list: l } : undefined });
      for (let n = best[i].sched.list.length >> 1; n >= 1 && !out(); n >>= 1) while (best[i].sched?.list && best[i].sched.list.length >= n && attempt(set(i, put(best[i].sched.list.slice(0, best[i].sched.list.length - n))))) if (out()) break;
      if (best[i].sched?.list) reduceList(i, 'sched', (s) => s.sched?.list, put);
      // Join grants of the same goroutine by longer quanta: keep the running goroutine where possible.
      const l = best[i].sched?.list;
      if (l) for (let k = 0; k < l.length && !out(); k++) if (l[k][1] !== -1) { const c = best[i].sched.list.slice(); c[k] = [c[k][0], -1]; attempt(set(i, { sched: { policy: 'list', list: c } })); }
    }
    if (best[i].mapOrder && best[i].mapOrder.policy !== 'list') {
      const r = judge(best).rs[i];
      attempt(set(i, { mapOrder: { policy: 'list', list: r.mapChoices } }));
    }
    if (best[i].mapOrder?.policy === 'list') {
      const l = best[i].mapOrder.list;
      for (let n = l.length >> 1; n >= 1 && !out(); n >>= 1) while (best[i].mapOrder?.list && best[i].mapOrder.list.length >= n && attempt(set(i, { mapOrder: { policy: 'list', list: best[i].mapOrder.list.slice(0, best[i].mapOrder.list.length - n) } }))) if (out()) break;
      for (let k = 0; k < (best[i].mapOrder?.list?.length ?? 0) && !out(); k++) { const c = best[i].mapOrder.list.slice(); if (c[k]) { c[k] = 0; attempt(set(i, { mapOrder: { policy: 'list', list: c } })); } }
    }
  }
  const fin = judge(best);
  return { ...v, what: fin.what ?? what, specs: best, hashes: fin.rs.map((r) => r.logHash), results: summary(fin.rs), minimiserRuns: runsUsed, original: { specs: v.specs.length } };
}
const cut = (s) => (s.length > 4000 ? s.slice(0, 4000) + '…' : s);
export const summary = (rs) => rs.map((r) => ({ outcome: r.outcome, exit: r.exit, error: r.error, stdout: cut(r.stdout), stderr: cut(r.stderr), fired: r.fired, races: r.races, switches: r.switches, decisions: r.decisions.length, ev: r.ev.slice(0, 400), logHash: r.logHash }));
