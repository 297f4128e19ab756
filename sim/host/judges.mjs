// Oracles. A judge gets the data of a check and the results of its runs and returns null or a description of the violation
// ("class: details").
import { diffExpected } from './gen.mjs';

const short = (s, n = 200) => { s = String(s).replace(/\s+/g, ' ').trim(); return s.length > n ? s.slice(0, n) + '…' : s; };
export function firstDiff(a, b) {
  const x = a.split('\n'), y = b.split('\n');
  for (let i = 0; i < Math.max(x.length, y.length); i++) if (x[i] !== y[i]) return `line ${i + 1}: ${JSON.stringify(short(x[i] ?? '<end>', 80))} instead of ${JSON.stringify(short(y[i] ?? '<end>', 80))}`;
  return 'equal';
}
const accepted = (r) => r.outcome === 'exit' && r.exit === 0;
const rejected = (r) => r.outcome === 'exit' && r.exit !== 0;
const how = (r) => (r.outcome === 'exit' ? `exit status ${r.exit}` : r.outcome) + (r.stderr ? ` (${short(r.stderr)})` : '');
const crash = (r) => rejected(r) && /(^|\n)(panic: |fatal error: |goroutine \d+ \[)/.test(r.stderr);

// Same verdict, and the same bytes when accepted.
function sameResult(sub, ref, what) {
  if (accepted(sub) !== accepted(ref)) return `verdict: ${what}: ${how(sub)} instead of ${how(ref)}`;
  if (!accepted(ref)) return null;
  if (sub.stdout !== ref.stdout) return `output: ${what}: standard output differs, ${firstDiff(sub.stdout, ref.stdout)}`;
  for (const p of Object.keys(ref.files)) if (sub.files[p] !== ref.files[p]) return `dump: ${what}: ${p} differs, ${firstDiff(sub.files[p] ?? '<absent>', ref.files[p] ?? '<absent>')}`;
  return null;
}

// Value of a bit string literal or null.
function bitValue(s) {
  const m = /^([xXoObB])"([0-9a-fA-F]+)"$/.exec(s);
  if (!m) return null;
  try { return BigInt('0' + m[1].toLowerCase() + m[2]); } catch { return null; }
}

export const judges = {
  // runs[0] is the reference, the others must agree with it.
  same(d, rs) {
    for (let i = 1; i < rs.length; i++) { const v = sameResult(rs[i], rs[0], d.what ?? 'execution'); if (v) return v; }
    return null;
  },
  // The result is the one computed by the reference model.
  model(d, rs) {
    for (const r of rs) {
      if (!accepted(r)) return `valid project rejected: ${how(r)}`;
      if (d.expect) {
        let bus, dump = null;
        try { bus = JSON.parse(r.stdout); if (d.dump) dump = JSON.parse(r.files[d.dump] ?? 'null'); } catch (e) { return `output: not JSON: ${e.message}`; }
        if (d.dump && !dump) return 'dump: missing';
        let df;
        try { df = diffExpected(d.expect, bus, dump); } catch (e) { df = [`unexpected structure of the result: ${e.message}`]; }
        if (d.only) df = df.filter((x) => new RegExp(d.only).test(x));
        if (df.length) return `model: ${df.slice(0, 3).join('; ')}`;
      }
    }
    return null;
  },
  accepted(d, rs) { for (const r of rs) if (!accepted(r)) return `valid project rejected: ${how(r)}`; return null; },
  // An erroneous project.
  rejected(d, rs) {
    for (const r of rs) {
      if (accepted(r)) return `erroneous project accepted: ${d.what}`;
      if (r.outcome !== 'exit') return `no rejection: ${how(r)}: ${d.what}`;
      if (r.stdout !== '') return `standard output not empty for a rejected project: ${short(r.stdout, 60)}`;
      if (d.dump) {
        if ((r.files[d.dump] ?? null) !== (d.dumpBefore ?? null)) return `dump changed by a rejected compilation: ${short(r.files[d.dump], 60)}`;
      }
      if (d.res && !d.res.some((x) => new RegExp(x).test(r.stderr))) return `no diagnostic of an error of the project: ${short(r.stderr)}; expected ${short(d.res.join(' | '))}`;
      if (d.crash !== false && crash(r)) return `crash instead of a diagnostic: ${short(r.stderr)}`;
    }
    return null;
  },
  // runs[0] fault free, runs[1] with faults: the same result or a proper rejection.
  fault(d, rs) {
    const [ref, r] = rs;
    if (r.outcome !== 'exit') return d.term ? `no end: ${how(r)}` : null;
    if (accepted(r)) {
      if (!accepted(ref)) return `verdict: accepted under faults (${faultText(r)}), rejected without: ${short(ref.stderr)}`;
      const v = sameResult(r, ref, `with faults ${faultText(r)}`);
      return v ? 'silently wrong ' + v : null;
    }
    if (r.stdout !== '') return `standard output not empty for a failed compilation: ${short(r.stdout, 60)} (${faultText(r)})`;
    if (r.stderr === '') return `no diagnostic for a failed compilation (${faultText(r)})`;
    return null;
  },
  // Faults of the output: exit status zero means that everything was delivered.
  delivered(d, rs) {
    const [ref, r] = rs;
    if (!accepted(r)) {
      if (r.outcome !== 'exit') return null;
      return r.stderr === '' && !d.stderrFault ? `no diagnostic after a failed write (${faultText(r)})` : d.mustPass ? `continuable writes not continued: ${how(r)} (${faultText(r)})` : null;
    }
    if (!accepted(ref)) return null;
    if (d.lost && r.fired.some((f) => !['short', 'after', 'EINTR'].includes(f.kind))) return `exit status 0 although a write or close failed (${faultText(r)})`;
    const v = sameResult(r, ref, `after ${faultText(r) || 'no fault'}`);
    return v ? 'lost ' + v : null;
  },
  // Nothing but the dump may be touched.
  confined(d, rs) {
    const r = rs[rs.length - 1];
    const keys = new Set([...Object.keys(r.before), ...Object.keys(r.after)]);
    for (const k of [...keys].sort()) {
      if (k === d.dump) continue;
      if (r.before[k] !== r.after[k]) return `file system changed: ${k} ${r.before[k] === undefined ? 'created' : r.after[k] === undefined ? 'removed' : 'modified'} (${how(r)}; ${faultText(r)})`;
    }
    for (const m of r.mut) { const [op, ...p] = m.split(' '); const path = p.join(' '); if (path !== d.dump) return `modifying call on another file: ${m}`; }
    if (d.invalid || rejectedEarly(r, d.dump)) {
      if (r.mut.length) return `dump touched by a compilation that is rejected: ${r.mut[0]} (${how(r)})`;
      if (d.dump && r.before[d.dump] !== r.after[d.dump]) return `dump changed by a compilation that is rejected (${how(r)})`;
    }
    return null;
  },
  // Timestamp.
  clock(d, rs) {
    const [ref, a, b] = rs; // ref: without -add-timestamp, a and b with it and different clocks; d.plainB: b without timestamp
    for (const r of [a, b]) if (accepted(r) !== accepted(ref)) return `verdict: clock or timestamp changes the verdict: ${how(r)} instead of ${how(ref)}`;
    if (!accepted(ref)) return null;
    const masked = [];
    for (const r of [a, b]) {
      let bus; try { bus = JSON.parse(r.stdout); } catch (e) { return 'output: not JSON'; }
      const ts = (bus.Statics ?? []).filter((s) => s.Name === 'TIMESTAMP');
      if (ts.length !== 1) return `timestamp: ${ts.length} TIMESTAMP statics`;
      const t = ts[0], W = Math.min(36, bus.Width);
      if (d.width && bus.Width !== d.width) return `bus: width ${bus.Width}, expected ${d.width}`;
      if (t.Width !== W) return `timestamp: width ${t.Width}, expected ${W}`;
      const v = bitValue(t.InitValue);
      if (v === null) return `timestamp: initial value ${t.InitValue}`;
      const mask = (1n << BigInt(W)) - 1n;
      const reads = r.clockReads.map((x) => BigInt(x) & mask);
      if (!reads.includes(v)) return `timestamp: value ${v}, but the clock showed ${r.clockReads.join(', ')} (${W} bits)`;
      const acc = t.Access, addr = acc?.StartAddr ?? acc?.Addr;
      if (addr !== bus.Sizes.Own - 1) return `timestamp: at address ${addr}, own size ${bus.Sizes.Own}`;
      if (bus.Statics[bus.Statics.length - 1].Name !== 'TIMESTAMP') return 'timestamp: not the last static';
      t.InitValue = 'T';
      masked.push(JSON.stringify(bus, null, 1));
    }
    if (masked[0] !== masked[1]) return `clock: output depends on the clock: ${firstDiff(masked[0], masked[1])}`;
    for (const p of Object.keys(a.files)) { if (a.files[p] !== b.files[p]) return 'clock: dump depends on the clock'; if (a.files[p] !== ref.files[p]) return 'clock: dump depends on the timestamp'; }
    return null;
  },
  // Timestamps of calls one after another: the clock as it was read during the call.
  clockLibrary(d, [r]) {
    const got = parseHarness(r);
    if (!got) return null; // a call ended the process
    for (let i = 0; i < d.ts.length; i++) {
      const x = got.results[i]?.[0];
      if (!x || x.Err !== '') continue;
      const ts = (x.Bus.Statics ?? []).filter((s) => s.Name === 'TIMESTAMP');
      if (ts.length !== (d.ts[i] ? 1 : 0)) return `timestamp: ${ts.length} TIMESTAMP statics in the result of call ${i}`;
      if (!d.ts[i]) continue;
      const v = bitValue(ts[0].InitValue), mask = (1n << BigInt(Math.min(36, x.Bus.Width))) - 1n;
      if (v === null) return `timestamp: initial value ${ts[0].InitValue}`;
      const [a, b] = [1, 2].map((k) => r.marks.find((m) => m[0] === k && m[1] === i && m[2] === 0)?.[3]);
      const reads = r.clockReads.slice(a, b);
      if (!reads.some((t) => (BigInt(t) & mask) === v)) return `timestamp: value ${v} of call ${i}, but the clock showed ${reads.slice(0, 5).join(', ') || 'nothing'} during the call`;
    }
    return null;
  },
  // Library. runs[0..n-1]: solo runs of the calls (d.calls[i] = index of the solo run per step and call), last run: the history.
  library(d, rs) {
    const r = rs[rs.length - 1];
    const got = parseHarness(r);
    if (!got) return `verdict: the process ended: ${how(r)}`;
    if (got.changed) return 'history: a result returned earlier was changed by a later call';
    for (let s = 0; s < d.calls.length; s++) {
      for (let i = 0; i < d.calls[s].length; i++) {
        const solo = parseHarness(rs[d.calls[s][i]]);
        if (!solo) continue;
        const want = solo.results[0][0], have = got.results[s]?.[i];
        if (!have) return `history: no result of call ${s}.${i}`;
        if ((have.Err === '') !== (want.Err === '')) return `history: call ${s}.${i} ${have.Err === '' ? 'succeeds' : 'fails: ' + short(have.Err)}, alone it ${want.Err === '' ? 'succeeds' : 'fails: ' + short(want.Err)}`;
        if (want.Err !== '') continue;
        for (const k of ['Bus', 'Pkgs']) {
          const a = JSON.stringify(have[k], null, 1), b = JSON.stringify(want[k], null, 1);
          if (a !== b) return `history: ${k} of call ${s}.${i} differs from the same call alone, ${firstDiff(a, b)}`;
        }
      }
    }
    return null;
  },
  // Other processes: d.solo[i] is the solo run of the i-th of them (null: not compared), rs[0] the one of the main process. Dumps are
  // compared when everything has ended.
  processes(d, rs) {
    const r = rs[rs.length - 1];
    const v = sameResult(r, rs[0], 'with other compilers at work');
    if (v) return v;
    for (let i = 0; i < d.solo.length; i++) {
      if (d.solo[i] === null || !r.peers[i]) continue;
      const ref = rs[d.solo[i]], p = r.peers[i];
      if (p.outcome !== 'exit') return `verdict: another compiler does not end: ${how(p)}`;
      const w = sameResult(p, d.shared && d.parts ? { ...ref, files: {} } : ref, 'compiler started while another one is at work');
      if (w) return w;
      if (accepted(ref)) for (const f of Object.keys(ref.files)) if (!d.shared && f in r.files && r.files[f] !== ref.files[f]) return `dump: ${f} of another compiler was changed after it had ended`;
    }
    return null;
  },
  // State of the process after every round of calls.
  leftovers(d, [r]) {
    if (r.outcome !== 'exit' || r.exit !== 0 || !/\nDONE\n?$/.test(r.stdout)) return null; // a call ended the process
    const st = JSON.parse(r.stdout.split('\n')[0]);
    const open = r.marks.filter((m) => m[0] === 3).map((m) => m[4].slice().sort().join(', '));
    for (let i = 1; i < st.length; i++) {
      if (open[i] !== open[0]) return `descriptors: open after round ${i} of the calls: ${short(open[i] || 'none')}; before: ${short(open[0] || 'none')}`;
      if (st[i].Goroutines > st[0].Goroutines) return `goroutines: ${st[i].Goroutines - st[0].Goroutines} left after round ${i} of the calls`;
      for (const k of ['Cwd', 'Env', 'Args', 'Log']) if (st[i][k] !== st[0][k] && !(d.faulted && k === 'Cwd' && (st[i][k] === '' || st[0][k] === ''))) return `process: ${k} after round ${i} of the calls: ${short(st[i][k])}; before: ${short(st[0][k])}`;
      if (st[i].Changed && !d.faulted) return `history: the verdict of a call changes in round ${i} of the same calls`;
    }
    if (d.memory) {
      const t = st.slice(3), up = (k) => t.every((x, i) => i === 0 || x[k] >= t[i - 1][k]) && t[t.length - 1][k] > t[0][k];
      for (const k of ['Objects', 'Bytes']) if (up(k) && t[t.length - 1].Bytes - t[0].Bytes >= 64) return `memory: ${t.map((x) => x[k]).join(', ')} ${k === 'Objects' ? 'objects' : 'bytes'} in use after rounds of the same calls`;
    }
    return null;
  },
  races(d, rs) {
    for (const r of rs) {
      if (r.races.length) {
        const x = r.races[0];
        return `race: ${x.wa ? 'write' : 'read'} at ${siteName(d, x.sa)} and ${x.wb ? 'write' : 'read'} at ${siteName(d, x.sb)} by two goroutines without synchronisation`;
      }
      if (/concurrent map (iteration|writes|read)/.test(r.stderr)) return `race: ${short(r.stderr)}`;
    }
    return null;
  },
  // The last run equals one of the others.
  oneOf(d, rs) {
    const r = rs[rs.length - 1];
    const refs = rs.slice(0, -1);
    if (r.outcome !== 'exit') return null;
    if (!accepted(r)) {
      if (refs.some((x) => !accepted(x))) {
        if (r.stdout !== '') return 'verdict: output of a rejected compilation';
        // The line shown by the diagnostic tells the version of its file. One of the trees with this version is rejected.
        const m = /^(\S.*) \+(\d+):\d+\n *\|\n (\d+) \| (.*)\n/m.exec(r.stderr);
        for (const [i, o] of m && refs.length === 2 ** (d.ops ?? []).length ? d.ops.entries() : []) {
          if (o.path !== m[1] && !o.path.endsWith('/' + m[1].replace(/^(\.\/)+/, ''))) continue;
          const has = [o.old, o.new].map((t) => (t ?? '').split('\n')[Number(m[2]) - 1] === m[4]);
          if (has[0] === has[1] || d.ops.filter((x) => x.path.endsWith('/' + m[1].split('/').pop())).length > 1) continue;
          if (refs.every((x, k) => accepted(x) || ((k >> i) & 1) !== (has[1] ? 1 : 0))) return `mixed: the diagnostic shows line ${m[2]} of a version of ${o.path} which is accepted: ${how(r)}`;
        }
        return null;
      }
      return `verdict: rejected while every combination of old and new files is accepted: ${how(r)}`;
    }
    for (const x of refs) if (accepted(x) && sameResult(r, x, '') === null) return null;
    return `mixed: the result equals no combination of old and new files; ${firstDiff(r.stdout, refs.find(accepted)?.stdout ?? '')}`;
  },
  terminates(d, rs) {
    for (const r of rs) {
      if (r.outcome !== 'exit' && r.outcome !== 'killed') return `no termination: ${r.outcome} ${r.error ?? ''} after ${r.steps} steps`;
      if (r.outcome === 'exit') {
        if (/all goroutines are asleep/.test(r.stderr)) return `deadlock: ${short(r.stderr)}`;
        if (/stack overflow|stack exceeds|out of memory|cannot allocate memory/.test(r.stderr)) return `unbounded: ${short(r.stderr)}`;
        if (r.exit !== 0 && r.stderr === '' && !d.noDiag) return 'no diagnostic';
      }
      if (d.bound && r.steps > d.bound) return `unbounded: ${r.steps} steps, bound ${d.bound}`;
    }
    if (d.scale && rs.length > 1) { const [a, b] = rs; if (accepted(a) && b.steps > d.scale * a.steps + 2e5) return `unbounded: ${b.steps} steps for twice the input that takes ${a.steps}`; }
    return null;
  },
};
// Rejected for another reason than a failed output.
const rejectedEarly = (r, dump) => rejected(r) && !r.fired.some((f) => f.path === dump || f.path === '<stdout>' || f.kind === 'kill' || f.op === 'memory');
export const faultText = (r) => r.fired.slice(0, 4).map((f) => `${f.op} ${f.path ?? ''} ${f.kind ?? ''} #${f.sysno}`).join(', ');
const siteName = (d, s) => (d.sites ? d.sites[s] ?? s : s);
export function parseHarness(r) {
  if (r.outcome !== 'exit' || r.exit !== 0 || !/\nDONE\n?$/.test(r.stdout)) return null;
  const lines = r.stdout.split('\n');
  const changed = lines[0] === 'CHANGED';
  return { changed, results: JSON.parse(lines[changed ? 1 : 0]).first };
}
export { accepted, rejected, how, short };
