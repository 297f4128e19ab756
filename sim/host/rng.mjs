// Seeded pseudo-random numbers. Every random choice of the simulator comes from here.
export class Rng {
  constructor(seed) {
    // splitmix32 state initialisation from an integer or string seed
    let h = 0x9e3779b9;
    const s = String(seed);
    for (let i = 0; i < s.length; i++) {
      h = Math.imul(h ^ s.charCodeAt(i), 0x85ebca6b);
      h = (h << 13) | (h >>> 19);
    }
    const sm = () => {
      h = (h + 0x9e3779b9) | 0;
      let z = h;
      z = Math.imul(z ^ (z >>> 16), 0x21f0aaad);
      z = Math.imul(z ^ (z >>> 15), 0x735a2d97);
      return (z ^ (z >>> 15)) >>> 0;
    };
    this.a = sm(); this.b = sm(); this.c = sm(); this.d = sm() | 1;
    for (let i = 0; i < 8; i++) this.u32();
  }
  u32() { // sfc32
    const t = (((this.a + this.b) | 0) + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11);
    this.c = (this.c + t) | 0;
    return t >>> 0;
  }
  int(n) { return n <= 1 ? 0 : this.u32() % n; }           // 0..n-1
  range(a, b) { return a + this.int(b - a + 1); }          // a..b
  float() { return this.u32() / 4294967296; }
  chance(p) { return this.float() < p; }
  pick(xs) { return xs[this.int(xs.length)]; }
  weighted(pairs) { // [[weight, value], ...]
    let t = 0;
    for (const [w] of pairs) t += w;
    let r = this.float() * t;
    for (const [w, v] of pairs) { r -= w; if (r < 0) return v; }
    return pairs[pairs.length - 1][1];
  }
  shuffle(xs) {
    const a = xs.slice();
    for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; }
    return a;
  }
  sample(xs, n) { return this.shuffle(xs).slice(0, n); }
  fork(label) { return new Rng(`${this.u32()}:${label}`); }
}

export class Hash { // order-sensitive 64 bit FNV-like hash, for event logs
  constructor() { this.h1 = 0x811c9dc5 | 0; this.h2 = 0x1234567 | 0; }
  str(s) {
    let a = this.h1, b = this.h2;
    for (let i = 0; i < s.length; i++) {
      const c = s.charCodeAt(i);
      a = Math.imul(a ^ c, 0x01000193);
      b = Math.imul((b + c) | 0, 0x85ebca6b) ^ (b >>> 13);
    }
    this.h1 = Math.imul(a ^ 0xff, 0x01000193); this.h2 = b ^ s.length;
  }
  num(n) { this.h1 = Math.imul(this.h1 ^ n, 0x01000193); this.h2 = Math.imul((this.h2 + n) | 0, 0x85ebca6b) ^ (this.h2 >>> 15); }
  hex() { return (this.h1 >>> 0).toString(16).padStart(8, '0') + (this.h2 >>> 0).toString(16).padStart(8, '0'); }
}
export const hashOf = (s) => { const h = new Hash(); h.str(s); return h.hex(); };
