// Execution context of a case: runs executions, applies oracles, collects statistics.
import { simulate } from './wasi.mjs';
import { judges } from './judges.mjs';
import { hashOf } from './rng.mjs';

export function exec(modules, spec, nsites) {
  const m = modules[spec.prog ?? 'fbdl'];
  return simulate(m, { ...spec, nsites });
}
export function newStats() { return { cases: 0, checks: 0, runs: 0, steps: 0, switches: 0, decisionPoints: 0, mapChoices: 0, sys: 0, simNs: 0, accepted: 0, rejected: 0, other: 0, faults: {}, notes: {}, distinct: [], parked: [], maxRunnable: 0, edits: 0 }; }

export function makeCtx({ modules, repo, sites, hot, nsites }) {
  const cache = new Map();
  const stats = newStats();
  stats.cases = 1;
  const ctx = {
    repo, stats, violation: null, allSites: sites, hotSites: hot,
    note(k) { stats.notes[k] = (stats.notes[k] ?? 0) + 1; },
    run(spec) {
      let r = cache.get(spec);
      if (r) return r;
      r = exec(modules, spec, nsites);
      cache.set(spec, r);
      stats.runs++;
      stats.steps += r.steps; stats.switches += r.switches; stats.decisionPoints += r.decisionPoints; stats.mapChoices += r.mapN; stats.sys += r.sys; stats.simNs += r.simNs;
      stats.maxRunnable = Math.max(stats.maxRunnable, r.maxRunnable);
      if (r.outcome === 'exit') { if (r.exit === 0) stats.accepted++; else stats.rejected++; } else stats.other++;
      for (const f of r.fired) { const k = `${f.kind} ${f.op}${f.peer ? ' (another process)' : ''}`; stats.faults[k] = (stats.faults[k] ?? 0) + 1; }
      for (const p of r.peers) if (p) { stats.runs++; stats.sys += p.sys; stats.steps += p.steps; stats.simNs += p.simNs; }
      if (r.stalls) stats.faults['stall goroutine'] = (stats.faults['stall goroutine'] ?? 0) + r.stalls;
      for (const s of r.parkedSites) stats.parked.push(s);
      stats.edits += r.ev.filter((e) => e.startsWith('edit ')).length;
      const nontrivial = r.decisionPoints > 0 || r.mapN > 0 && spec.mapOrder || r.fired.length || r.parkedSites.length || spec.edits?.length || spec.peers?.length || spec.layout || spec.clock;
      if (nontrivial && (spec.sched || spec.mapOrder || spec.faults || spec.frag || spec.kill || spec.traps || spec.edits || spec.peers || spec.layout || spec.clock)) {
        stats.distinct.push(hashOf([r.schedHash, r.mapHash, r.logHash, JSON.stringify(r.fired), r.parkedSites.join(','), JSON.stringify(spec.layout ?? 0), JSON.stringify(spec.clock ?? 0)].join('|')));
      }
      return r;
    },
    // Judges runs; records the first violation of the case.
    check(kind, specs, data = {}) {
      stats.checks++;
      const rs = specs.map((s) => ctx.run(s));
      const v = judges[kind](data, rs);
      if (v && !ctx.violation) ctx.violation = { kind, data, what: v, specs, hashes: rs.map((r) => r.logHash) };
      return v;
    },
  };
  return ctx;
}
