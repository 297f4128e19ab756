// Goroutine scheduler decisions. The guest asks at scheduling points when its quantum is used up; the host collects the
// set of runnable goroutines (everyone who asks before the first one asks again), picks one and grants a quantum.
import { Rng, Hash } from './rng.mjs';

export class StepLimit extends Error {}

const CHUNK = 20000;
const FAIR = 300000; // steps a goroutine that can run waits at most, as the Go scheduler is fair

export class Sched {
  constructor(spec = {}, stepLimit = 100e6) {
    this.spec = spec;
    this.policy = spec.policy ?? 'rtb';
    this.rng = new Rng(`sched:${spec.seed ?? 0}`);
    this.limit = stepLimit;
    this.steps = 0;
    this.phase = 'run';
    this.runnable = [];
    this.target = 0; this.waits = 0;
    this.last = 0;
    this.switches = 0;
    this.maxRunnable = 0;
    this.decisions = [];   // [quantum, index] per grant
    this.pos = 0;
    this.hash = new Hash();
    this.ids = new Map();  // goroutine pointer -> small number
    this.seen = [];        // goroutines in order of first appearance
    this.prio = new Map();
    this.decisionPoints = 0;
    this.stall = spec.stall ?? null; // {p, ms}: a goroutine is held for some simulated time while the others go on
    this.stalls = 0;
    this.known = [];
    this.since = new Map(); // runnable goroutine -> step since when it waits
    this.fair = false; this.grants = 0;
    this.asks = 0;         // questions of the guest, with those answered by waiting
    this.held = 0; this.heldUntil = 0;
    if (this.policy === 'pct') {
      const est = spec.est ?? 20000;
      this.change = [];
      for (let i = 0; i < (spec.d ?? 3); i++) this.change.push(1 + this.rng.int(est));
      this.change.sort((a, b) => a - b);
    }
  }
  ask(gp, site, used) {
    let g = this.ids.get(gp);
    if (g === undefined) { g = this.ids.size + 1; this.ids.set(gp, g); }
    this.steps += used; this.asks++;
    if (this.steps > this.limit) throw new StepLimit('step limit');
    if (this.policy === 'rtb' || (this.policy === 'list' && this.pos >= this.spec.list.length)) {
      if (this.last !== g) { this.sw(g, site); this.grants = 0; }
      if (++this.grants > FAIR / CHUNK) { this.grants = 0; return 0; }
      return CHUNK;
    }
    if (this.phase === 'run') {
      this.phase = 'collect';
      this.runnable = [g];
      return 0;
    }
    if (this.phase === 'collect') {
      if (!this.runnable.includes(g)) { this.runnable.push(g); return 0; }
      const rs = this.runnable.slice().sort((a, b) => a - b);
      for (const r of rs) if (!this.seen.includes(r)) this.seen.push(r);
      if (rs.length > this.maxRunnable) this.maxRunnable = rs.length;
      this.target = this.pick(rs);
      this.phase = 'await'; this.waits = 0;
    }
    if (g === this.target || ++this.waits > 2 * this.runnable.length + 8) return this.grant(g, site);
    return 0;
  }
  // Something happened to the running goroutine; it may have to wait for a while, in which the others go on.
  happened(what) {
    if (this.spec.hold?.on === what && this.policy !== 'list') { this.held = this.last; this.heldUntil = this.steps + this.spec.hold.steps; }
  }
  sw(g, site) {
    if (this.last !== 0) this.switches++;
    this.last = g;
    this.hash.num(g); this.hash.num(site);
  }
  grant(g, site) {
    this.phase = 'run';
    const rs = this.runnable.slice().sort((a, b) => a - b);
    let q = g === this.held && this.steps < this.heldUntil ? 1 : this.quantum();
    const fresh = !this.known.includes(g); // started or woken up since it ran
    this.known = this.known.filter((x) => x !== g && this.runnable.includes(x)); this.known.push(g);
    if (this.policy === 'list') q = this.spec.list[this.pos - 1][0];
    else if (this.stall && this.stalls < 40 && this.rng.chance(fresh ? this.stall.fresh ?? this.stall.p : this.stall.p)) q = -(1 + this.rng.int(this.stall.ms));
    if (q < 0) this.stalls++;
    this.decisions.push([q, Math.max(0, rs.indexOf(g))]);
    if (rs.length > 1) this.decisionPoints++;
    if (this.last !== g) this.sw(g, site);
    return q;
  }
  pick(rs) {
    const policy = this.policy;
    if (policy !== 'list') {
      for (const r of [...this.since.keys()]) if (!rs.includes(r)) this.since.delete(r);
      for (const r of rs) if (!this.since.has(r)) this.since.set(r, this.steps);
      this.fair ||= rs.some((r) => this.steps - this.since.get(r) > FAIR);
      const r = this.choice(this.fair ? 'random' : policy, this.held && this.steps < this.heldUntil && !this.fair && rs.length > 1 ? rs.filter((r) => r !== this.held) : rs);
      this.since.delete(r);
      return r;
    }
    return this.choice(policy, rs);
  }
  choice(policy, rs) {
    switch (policy) {
      case 'list': {
        const [, i] = this.spec.list[this.pos++];
        if (i < 0) return rs.includes(this.last) ? this.last : rs[0];
        return rs[Math.min(i, rs.length - 1)];
      }
      case 'pct': {
        for (const r of rs) if (!this.prio.has(r)) this.prio.set(r, 1 + this.rng.float());
        while (this.change.length && this.steps >= this.change[0]) {
          this.change.shift();
          // lower the priority of the running goroutine below everything seen so far
          this.prio.set(this.last, -this.steps);
        }
        let best = rs[0];
        for (const r of rs) if (this.prio.get(r) > this.prio.get(best)) best = r;
        return best;
      }
      case 'starve': {
        const victim = this.seen[Math.min(this.spec.victim ?? 0, this.seen.length - 1)];
        const others = rs.filter((r) => r !== victim);
        return others.length ? this.rng.pick(others) : rs[0];
      }
      case 'only': { // one goroutine runs as far as it can before any other
        const fav = this.seen[Math.min(this.spec.victim ?? 0, this.seen.length - 1)];
        return rs.includes(fav) ? fav : rs.includes(this.last) ? this.last : this.rng.pick(rs);
      }
      case 'rr': {
        const i = rs.findIndex((r) => r > this.last);
        return i < 0 ? rs[0] : rs[i];
      }
      default: return this.rng.pick(rs);
    }
  }
  quantum() {
    // Fine interleaving of a long execution with many goroutines takes minutes: coarser after so many switches.
    if (this.asks > 100000 && this.policy !== 'list') return (40 + this.rng.int(400)) * Math.max(1, this.runnable.length >> 3);
    switch (this.fair ? 'random' : this.policy) {
      case 'pct': {
        const next = this.change.length ? Math.max(1, this.change[0] - this.steps) : 200;
        return Math.min(200, next);
      }
      case 'rr': return this.spec.q ?? 1;
      case 'starve': case 'only': return 1 + this.rng.int(2 * (this.spec.q ?? 20));
      default: {
        const q = this.spec.q ?? 30;
        // heavy tailed: mostly around q, sometimes 1, sometimes long
        const r = this.rng.float();
        if (r < 0.2) return 1 + this.rng.int(3);
        if (r < 0.9) return 1 + this.rng.int(2 * q);
        return 1 + this.rng.int(20 * q);
      }
    }
  }
}

export class MapOrder {
  constructor(spec = {}) {
    this.policy = spec.policy ?? 'id';
    this.rng = new Rng(`map:${spec.seed ?? 0}`);
    this.list = spec.list; this.pos = 0;
    this.choices = [];
    this.hash = new Hash();
    this.n = 0;
  }
  choose(site, n) {
    let r = 0;
    if (this.policy === 'random') r = this.rng.int(n);
    else if (this.policy === 'last') r = n - 1;
    else if (this.policy === 'list') r = this.pos < this.list.length ? this.list[this.pos++] % n : 0;
    this.choices.push(r);
    if (n > 1) { this.n++; this.hash.num(site); this.hash.num(r); }
    return r;
  }
}

// A random schedule specification.
export function randomSched(rng) {
  const seed = rng.u32();
  const s = rng.weighted([
    [4, { policy: 'random', seed, q: rng.pick([2, 5, 10, 30, 100, 300]) }],
    [3, { policy: 'pct', seed, d: rng.range(1, 5), est: rng.pick([500, 2000, 8000, 30000]) }],
    [1.5, { policy: 'starve', seed, victim: rng.int(8), q: rng.pick([5, 20, 100]) }],
    [1.5, { policy: 'only', seed, victim: rng.int(8), q: rng.pick([5, 20, 100]) }],
    [1, { policy: 'rr', seed, q: rng.pick([1, 1, 2, 7, 40]) }],
    [0.5, { policy: 'rtb' }],
  ]);
  if (rng.chance(0.2) && s.policy !== 'rtb') s.hold = { on: rng.pick(['fault', 'fault', 'stderr']), steps: rng.pick([30, 1000, 100000, 250000]) };
  if (rng.chance(0.25) && s.policy !== 'rtb') s.stall = { p: rng.pick([0.003, 0.02, 0.1, 0.3]), fresh: rng.pick([0.02, 0.1, 0.5]), ms: rng.pick([10, 2000, 60000]) };
  return s;
}
export function randomMap(rng) {
  return { policy: rng.weighted([[8, 'random'], [1, 'last'], [1, 'id']]), seed: rng.u32() };
}
