// In-memory file system with inode and device numbers, symbolic links, bind mounts and a configurable entry order.
import { Rng } from './rng.mjs';

const enc = new TextEncoder();
const dec = new TextDecoder();
export const bytesOf = (s) => (typeof s === 'string' ? enc.encode(s) : s);
export const textOf = (b) => dec.decode(b);

export class Node {
  constructor(type) { this.type = type; this.id = 0; this.ino = 0; this.dev = 0; this.mtime = 0; this.entries = null; this.data = null; this.target = null; this.special = null; }
}

// tree: { "/abs/path": {t:'f',d:'text'} | {t:'d'} | {t:'l',d:'target'} | {t:'b',d:'/abs/other'} (same directory mounted twice) }
// A directory may carry dev: n, which starts another device there.
export class Vfs {
  constructor(tree, layout = {}) {
    this.rng = new Rng(`layout:${layout.seed ?? 0}`);
    this.order = layout.order ?? 'name'; // name, reverse, random
    this.inoMode = layout.ino ?? 'seq';  // seq, random, small (collisions across devices), big
    this.mtimeMode = layout.mtime ?? 'fixed';
    this.nextIno = 2;
    this.perDev = new Map();
    this.nodes = []; // every node that was ever made, by id
    this.root = this.mk('d', 1);
    const binds = [];
    const paths = Object.keys(tree).sort((a, b) => (a.split('/').length - b.split('/').length) || (a < b ? -1 : a > b ? 1 : 0));
    for (const p of paths) {
      const e = tree[p];
      if (e.t === 'b') { binds.push([p, e]); continue; }
      this.put(p, e);
    }
    for (const [p, e] of binds) {
      const { dir, name } = this.parentOf(p, true);
      const target = this.walk(e.d);
      if (target) dir.entries.set(name, target);
    }
    if (this.order === 'random') this.shuffleDirs(this.root, new Set());
  }
  ino(dev) {
    if (this.inoMode === 'small') { // numbered per device: equal numbers appear on different devices
      const n = (this.perDev.get(dev) ?? 1) + 1; this.perDev.set(dev, n); return BigInt(n);
    }
    const n = this.nextIno++;
    if (this.inoMode === 'random') return BigInt(this.rng.u32()) * 4096n + BigInt(n);
    if (this.inoMode === 'big') return (1n << 32n) * BigInt(n) + 7n; // equal in the low 32 bits
    return BigInt(n);
  }
  mk(type, dev) {
    const n = new Node(type);
    n.id = this.nodes.push(n) - 1;
    n.dev = dev; n.ino = this.ino(dev);
    n.mtime = this.mtimeMode === 'random' ? this.rng.u32() : this.mtimeMode === 'epoch' ? 0 : this.mtimeMode === 'future' ? 4102444800 + this.rng.int(1000) : 1700000000;
    if (type === 'd') n.entries = new Map();
    return n;
  }
  // The same file system at this instant; nodes keep their ids.
  clone() {
    const v = Object.assign(Object.create(Vfs.prototype), this);
    v.rng = Object.assign(Object.create(Rng.prototype), this.rng);
    v.perDev = new Map(this.perDev);
    v.nodes = this.nodes.map((n) => Object.assign(Object.create(Node.prototype), n, n.data ? { data: n.data.slice() } : null));
    for (const n of v.nodes) if (n.entries) n.entries = new Map([...n.entries].map(([k, c]) => [k, v.nodes[c.id]]));
    v.root = v.nodes[this.root.id];
    return v;
  }
  walk(p) { // no symlinks
    let n = this.root;
    for (const c of p.split('/')) { if (!c) continue; n = n?.entries?.get(c); if (!n) return null; }
    return n;
  }
  parentOf(p, create) {
    const cs = p.split('/').filter((c) => c);
    const name = cs.pop();
    let n = this.root;
    for (const c of cs) {
      let m = n.entries?.get(c);
      if (!m && create) { m = this.mk('d', n.dev); n.entries.set(c, m); }
      if (!m) return { dir: null, name };
      n = m;
    }
    return { dir: n, name };
  }
  put(p, e) {
    const { dir, name } = this.parentOf(p, true);
    if (!name) return;
    if (e.t === 'd') {
      const old = dir.entries.get(name);
      if (old && old.type === 'd') return;
      const d = this.mk('d', e.dev ?? dir.dev);
      dir.entries.set(name, d);
      return;
    }
    const n = this.mk(e.t, dir.dev);
    if (e.t === 'f') n.data = bytesOf(e.d);
    if (e.t === 'l') n.target = e.d;
    if (e.sp) n.special = e.sp;
    dir.entries.set(name, n); // replaces the directory entry: open descriptors keep the old node (rename semantics)
  }
  overwrite(p, e) { // the same inode with the same times and another content
    const n = this.walk(p);
    if (n && n.type === 'f') n.data = bytesOf(e.d); else this.put(p, e);
  }
  remove(p) { const { dir, name } = this.parentOf(p, false); dir?.entries?.delete(name); }
  shuffleDirs(d, seen) {
    if (seen.has(d)) return; seen.add(d);
    const es = this.rng.shuffle([...d.entries.entries()]);
    d.entries = new Map(es);
    for (const [, n] of es) if (n.type === 'd') this.shuffleDirs(n, seen);
  }
  list(d) {
    const es = [...d.entries.entries()];
    if (this.order === 'name') es.sort((a, b) => (a[0] < b[0] ? -1 : 1));
    else if (this.order === 'reverse') es.sort((a, b) => (a[0] < b[0] ? 1 : -1));
    return es;
  }
  // Image of the whole file system, for comparison.
  image() {
    const out = {};
    const seen = new Set();
    const rec = (n, p) => {
      if (n.type === 'f') out[p] = 'f:' + textOf(n.data);
      else if (n.type === 'l') out[p] = 'l:' + n.target;
      else if (n.type === 'd') {
        out[p || '/'] = 'd';
        if (seen.has(n)) return; seen.add(n);
        for (const [name, c] of [...n.entries.entries()].sort((a, b) => (a[0] < b[0] ? -1 : 1))) rec(c, p + '/' + name);
        seen.delete(n);
      }
    };
    rec(this.root, '');
    return out;
  }
}
