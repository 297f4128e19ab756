// One simulated execution of the compiler: WASI host with in-memory world, simulated clock, faults, edits and kills.
import { Rng, Hash } from './rng.mjs';
import { Vfs, Node, bytesOf } from './vfs.mjs';
import { MAX_PAGES } from './modules.mjs';
import { Sched, MapOrder, StepLimit } from './sched.mjs';

export const E = {
  SUCCESS: 0, E2BIG: 1, EACCES: 2, EAGAIN: 6, EBADF: 8, EBUSY: 10, EDQUOT: 19, EEXIST: 20, EFBIG: 22, EINTR: 27, EINVAL: 28, EIO: 29,
  EISDIR: 31, ELOOP: 32, EMFILE: 33, ENAMETOOLONG: 37, ENFILE: 41, ENOENT: 44, ENOMEM: 48, ENOSPC: 51, ENOSYS: 52, ENOTDIR: 54,
  ENOTEMPTY: 55, ENOTSUP: 58, ENXIO: 60, EPERM: 63, EPIPE: 64, EROFS: 69, ESPIPE: 70, ESTALE: 72,
};
class Exit extends Error { constructor(code) { super('exit'); this.code = code; } }
class Killed extends Error {}
class Paused extends Error {}
class SysLimit extends Error {}
export class HarnessError extends Error {}

const FT = { d: 3, f: 4, l: 7, c: 2 };

export function simulate(module, spec) {
  const enc = new TextEncoder(), dec = new TextDecoder();
  // A process that other ones interrupt is executed again for every part: on copies of the file system as it was when its earlier
  // parts began, then on the current one. segs: [{vfs, until}], until: the system call in front of which the part ends.
  const segs = spec.segs ?? [{ vfs: spec.vfs ?? new Vfs(spec.tree, spec.layout) }];
  let seg = 0, vfs = segs[0].vfs;
  const before = spec.wantImage ? vfs.image() : null;
  const sched = new Sched(spec.sched, spec.stepLimit);
  const maps = new MapOrder(spec.mapOrder);
  const entropy = new Rng(`entropy:${spec.entropy ?? 0}`);
  const log = new Hash();
  const ev = [];            // system call trace
  const fired = [];         // faults that took effect
  const races = new Map();
  const marks = [];
  const parkedSites = [];
  const mut = [];           // mutating operations on the file system
  const clockReads = [];
  let sysno = 0, calls = 0;
  let memory = null, dv = null, u8 = null;
  const view = () => { if (u8 === null || u8.buffer !== memory.buffer || u8.length === 0) { u8 = new Uint8Array(memory.buffer); dv = new DataView(memory.buffer); } return dv; };

  // Clock.
  const clk = spec.clock ?? {};
  let real = BigInt(clk.start ?? 1700000000) * 1000000000n;
  let mono = 1000000000n;
  const simStart = mono;
  const step = BigInt(clk.step ?? 1000);
  const jumps = (clk.jumps ?? []).slice(); // {at: sysno, to: seconds}
  const advance = (ns) => { real += ns; mono += ns; };
  let jpos = 0;

  // Streams.
  const mkStream = (name) => { const n = new Node('c'); n.name = name; n.chunks = []; n.len = 0; return n; };
  const sin = mkStream('<stdin>'), sout = mkStream('<stdout>'), serr = mkStream('<stderr>');
  const fds = new Map();
  fds.set(0, { node: sin, path: '<stdin>', pos: 0n, flags: 0 });
  fds.set(1, { node: sout, path: '<stdout>', pos: 0n, flags: 0 });
  fds.set(2, { node: serr, path: '<stderr>', pos: 0n, flags: 0 });
  fds.set(3, { node: vfs.root, path: '/', pos: 0n, flags: 0, preopen: '/' });
  let nextFd = 4;
  const newFd = (o) => { const f = nextFd++; fds.set(f, o); return f; };

  // Faults: {op, path?, nth?} or {at}, err? or kind: 'short' (arg: bytes), 'size0', 'after' (partial, then error)
  const counts = new Map();
  const faults = (spec.faults ?? []).map((f) => ({ ...f, left: f.times ?? 1 }));
  const edits = (spec.edits ?? []).map((e) => ({ ...e }));
  const frag = spec.frag ?? null; // {read: n, write: n, eintr: p, seed}
  const fragRng = frag ? new Rng(`frag:${frag.seed ?? 0}`) : null;
  let eintrRun = 0;
  const kill = spec.kill ?? null;
  // Allocation failures: from the numbered system call on, the process gets only so many more pages of 64 KiB: {at, pages}.
  const shortage = spec.memory ? { ...spec.memory } : null;
  const starve = () => {
    shortage.done = true;
    let free = MAX_PAGES - memory.buffer.byteLength / 65536 - shortage.pages;
    if (free > 0) { try { memory.grow(free); } catch { /* the limit is lower */ } }
    fired.push({ op: 'memory', kind: `${shortage.pages} pages left`, sysno }); log.str(`memory ${shortage.pages}`);
  };
  // Other processes on the same file system: {at, until?, spec}. The process runs to its end (or is killed) in front of the numbered
  // system call at, or before this process starts if at is 0. If at is a list, its part k begins in front of at[k] and is interrupted in
  // front of its own system call until[k]; the last part is not interrupted.
  const peers = (spec.peers ?? []).map((p) => ({ ...p, result: null, parts: [] }));
  const runPeer = (p, finish) => {
    const k = p.parts.length, last = finish || !Array.isArray(p.at) || k >= p.at.length - 1, now = last || vfs.clone();
    const parts = [...p.parts.map((x, i) => ({ vfs: x.clone(), until: p.until[i] })), { vfs, until: last ? undefined : p.until[k] }];
    const r = simulate(module, { ...p.spec, segs: parts, nsites: spec.nsites });
    if (r.outcome === 'paused') { p.parts.push(now); ev.push(`process ${p.spec.args.join(' ')}: interrupted`); log.str(`part ${r.logHash}`); return; }
    p.result = r;
    log.str(`process ${r.logHash}`); ev.push(`process ${p.spec.args.join(' ')}: ${r.outcome} ${r.exit ?? ''}`);
    fired.push(...r.fired.map((f) => ({ ...f, peer: true })));
  };

  const applyEdit = (e) => {
    for (const o of e.ops) { if (o.d === null || o.rm) vfs.remove(o.path); else if (o.inPlace) vfs.overwrite(o.path, o); else vfs.put(o.path, o); }
    e.done = true; ev.push(`edit ${e.ops.map((o) => o.path).join(',')}`);
  };

  // enter is called at the start of every system call; returns a fault to apply or null.
  const nextSegment = () => {
    if (++seg === segs.length) throw new Paused('paused');
    vfs = segs[seg].vfs;
    const same = (n) => (n.type === 'c' ? n : vfs.nodes[n.id]);
    for (const f of fds.values()) { f.node = same(f.node); f.stack = f.stack?.map(same); if (f.listing) f.listing = f.listing.map(([k, n]) => [k, same(n)]); }
  };
  // Nodes of a part of the file system that does not answer any more.
  const regionOf = (prefix) => {
    const s = new Set(), add = (n) => { if (!n || s.has(n)) return; s.add(n); if (n.entries) for (const c of n.entries.values()) add(c); };
    add(vfs.walk(prefix));
    return s;
  };
  const hasRegion = faults.some((f) => f.region !== undefined);
  // The running goroutine can be descheduled right after something happened to it.
  let qptr = 0, gptr = 0;
  const happened = (what) => {
    if (!qptr) return;
    const m = view(), q = m.getInt32(qptr, true);
    if (q > 0) { m.setInt32(gptr, m.getInt32(gptr, true) - q, true); m.setInt32(qptr, 0, true); }
    sched.happened(what);
  };
  const enter = (op, path, node) => {
    // Calls of the scheduler itself (clock, entropy, idle waits) are not numbered: their count depends on the schedule alone.
    calls++;
    const numbered = op !== 'clock_time_get' && op !== 'random_get' && op !== 'poll_oneoff';
    if (numbered && ++sysno === segs[seg].until) nextSegment();
    if (sysno > (spec.sysLimit ?? (frag && (frag.read || frag.write) ? 1000000 : 100000))) throw new SysLimit('system call limit');
    advance(step);
    while (jpos < jumps.length && jumps[jpos].at <= calls) { real = BigInt(jumps[jpos].to) * 1000000000n; jpos++; }
    const key = `${op} ${path ?? ''}`;
    const nth = (counts.get(key) ?? 0) + 1; counts.set(key, nth);
    for (const e of edits) if (!e.done && (e.at !== undefined ? numbered && sysno >= e.at : e.op === op && e.path === path && nth >= (e.nth ?? 1))) applyEdit(e);
    for (const p of peers) if (!p.result && numbered && (p.at === sysno || p.at[p.parts.length] === sysno)) runPeer(p);
    if (shortage && !shortage.done && numbered && sysno >= shortage.at) starve();
    log.str(key);
    if (!numbered) return null;
    ev.push(key);
    if (kill && kill.at === sysno) { fired.push({ op, path, kind: 'kill', sysno }); throw new Killed('killed'); }
    for (const f of faults) {
      if (f.left <= 0) continue;
      const m = f.region !== undefined ? sysno >= f.from && f.ops.includes(op) && (path === f.region || path?.startsWith(f.region + '/') || (node && (f.set ??= regionOf(f.region)).has(node)))
        : f.at !== undefined ? f.at === sysno : (f.op === op && (f.path === undefined || f.path === path) && (f.nth === undefined || (f.sticky ? nth >= f.nth : nth === f.nth)));
      if (m) {
        if (!f.sticky) f.left--;
        if (fired.length < 1000) fired.push({ op, path, kind: f.kind ?? f.err, sysno, dump: f.dump });
        log.str(`fault ${f.kind ?? ''} ${f.err ?? ''}`);
        ev.push(`  fault ${f.kind ?? ''} ${f.err ?? ''}`);
        happened('fault');
        return f;
      }
    }
    if (frag && frag.eintr && ['fd_read', 'fd_write', 'path_open', 'path_filestat_get', 'path_readlink'].includes(op) && eintrRun < 3 && fragRng.chance(frag.eintr)) {
      if (!(op === 'fd_write' && frag.noWriteEintr)) {
        eintrRun++;
        fired.push({ op, path, kind: 'EINTR', sysno });
        return { err: 'EINTR' };
      }
    }
    eintrRun = 0;
    if (frag && frag.delay && fragRng.chance(0.2)) advance(BigInt(fragRng.int(frag.delay)) * 1000000n);
    return null;
  };
  const probes = new Set(); // looked for, but not there
  const miss = (p, e) => { if (e === E.ENOENT) probes.add(p); return e; };
  const errOf = (f) => { const e = E[f.err]; if (e === undefined) throw new HarnessError('unknown errno ' + f.err); return e; };
  const isErr = (f) => f && f.err && !['short', 'after'].includes(f.kind);

  const str = (ptr, len) => { view(); return dec.decode(u8.subarray(ptr, ptr + len)); };
  const getFd = (fd) => fds.get(fd);

  // Path resolution. Returns {err} or {dir, name, node}: node is null if the last component does not exist.
  const resolve = (base, path, follow) => {
    let links = 0;
    const start = base.node;
    let stack = base.stack ? base.stack.slice() : [start];
    let comps = path.split('/');
    if (path.startsWith('/')) stack = [vfs.root];
    let parent = null, name = '.', trailing = path.endsWith('/');
    while (comps.length) {
      const c = comps.shift();
      if (c === '' || c === '.') continue;
      if (c.length > 255) return { err: E.ENAMETOOLONG };
      const cur = stack[stack.length - 1];
      if (cur.type !== 'd') return { err: E.ENOTDIR };
      if (c === '..') { if (stack.length > 1) stack.pop(); parent = null; name = '.'; continue; }
      const rest = comps.some((x) => x !== '' && x !== '.');
      const n = cur.entries.get(c);
      if (!n) {
        if (!rest) return { dir: cur, name: c, node: null, stack };
        return { err: E.ENOENT };
      }
      if (n.type === 'l' && (rest || follow || trailing)) {
        if (++links > 40) return { err: E.ELOOP };
        if (n.target.startsWith('/')) stack = [vfs.root];
        comps = n.target.split('/').concat(comps);
        parent = null; name = '.';
        continue;
      }
      if (rest || n.type === 'd') { stack.push(n); parent = cur; name = c; if (!rest) return { dir: cur, name: c, node: n, stack }; continue; }
      return { dir: cur, name: c, node: n, stack };
    }
    const node = stack[stack.length - 1];
    return { dir: parent, name, node, stack };
  };
  const full = (b, p) => (p.startsWith('/') ? p : (b.path === '/' ? '/' : b.path + '/') + p);

  const putStat = (ptr, n) => {
    view();
    for (let i = 0; i < 64; i++) u8[ptr + i] = 0;
    dv.setBigUint64(ptr, BigInt(n.dev ?? 0), true);
    dv.setBigUint64(ptr + 8, BigInt(n.ino ?? 0), true);
    u8[ptr + 16] = n.special ? 2 : FT[n.type] ?? 0;
    const L = spec.layout ?? {};
    let nlink = 1;
    if (L.links === 'posix' && n.type === 'd') { nlink = 2; for (const x of n.entries.values()) if (x.type === 'd') nlink++; }
    if (L.links === 'hard' && n.type === 'f') nlink = 2 + n.id % 3;
    dv.setBigUint64(ptr + 24, BigInt(nlink), true);
    const size = n.special ? 0 : n.type === 'f' ? n.data.length : n.type === 'l' ? n.target.length : n.type === 'd' ? (L.dirSize === 'entries' ? n.entries.size : L.dirSize ?? 4096) : 0;
    dv.setBigUint64(ptr + 32, BigInt(size), true);
    const t = BigInt(n.mtime ?? 0) * 1000000000n;
    dv.setBigUint64(ptr + 40, t, true); dv.setBigUint64(ptr + 48, t, true); dv.setBigUint64(ptr + 56, t, true);
  };
  const touch = (n) => { n.mtime = Number(real / 1000000000n); };
  const isSpecialFull = (n) => n.special === 'full';

  const argv = spec.args.map((a) => enc.encode(a + '\0'));
  const envv = Object.entries(spec.env ?? {}).map(([k, v]) => enc.encode(`${k}=${v}\0`));

  const readInto = (iovs, n, src, off) => {
    let done = 0; view();
    for (let i = 0; i < n; i++) {
      const p = dv.getUint32(iovs + 8 * i, true), l = dv.getUint32(iovs + 8 * i + 4, true);
      const k = Math.min(l, src.length - off - done);
      if (k <= 0) continue;
      u8.set(src.subarray(off + done, off + done + k), p);
      done += k;
    }
    return done;
  };
  const gather = (iovs, n) => {
    view(); const parts = []; let t = 0;
    for (let i = 0; i < n; i++) {
      const p = dv.getUint32(iovs + 8 * i, true), l = dv.getUint32(iovs + 8 * i + 4, true);
      parts.push(u8.slice(p, p + l)); t += l;
    }
    const b = new Uint8Array(t); let o = 0;
    for (const p of parts) { b.set(p, o); o += p.length; }
    return b;
  };
  const writeNode = (f, b, at) => {
    const n = f.node;
    if (n.type === 'c') { n.chunks.push(b); n.len += b.length; return; }
    mut.push(`write ${f.path}`);
    const pos = (f.flags & 1) && at === undefined ? n.data.length : Number(at ?? f.pos);
    if (n.data.length < pos + b.length) { const d = new Uint8Array(pos + b.length); d.set(n.data); n.data = d; }
    n.data.set(b, pos);
    if (at === undefined) f.pos = BigInt(pos + b.length);
    touch(n);
  };
  const ioRead = (op, fd, iovs, n, out, at) => {
    const f = getFd(fd); if (!f) return E.EBADF;
    const flt = enter(op, f.path, f.node);
    if (isErr(flt)) return errOf(flt);
    if (f.node.type === 'd') return E.EISDIR;
    let src = f.node.type === 'f' ? f.node.data : new Uint8Array(0);
    const off = Number(at ?? f.pos);
    if (off > src.length) { dv.setUint32(out, 0, true); return 0; }
    let max = src.length - off;
    if (flt && flt.kind === 'short') max = Math.min(max, Math.max(1, flt.arg ?? 1));
    if (flt && flt.kind === 'eof') max = 0;
    if (frag && frag.read) { const m = 1 + fragRng.int(frag.read); if (m < max) { max = m; if (fired.length < 50) fired.push({ op, path: f.path, kind: 'short', sysno }); } }
    src = src.subarray(0, off + max);
    const k = readInto(iovs, n, src, off);
    if (at === undefined) f.pos += BigInt(k);
    view(); dv.setUint32(out, k, true);
    return 0;
  };
  const ioWrite = (op, fd, iovs, n, out, at) => {
    const f = getFd(fd); if (!f) return E.EBADF;
    const flt = enter(op, f.path);
    if (isErr(flt)) return errOf(flt);
    if (f.closed) return E.EBADF;
    let b = gather(iovs, n);
    log.num(b.length);
    if (isSpecialFull(f.node)) return E.ENOSPC;
    if (f.node.special === 'chr') { if (at !== undefined) return E.ESPIPE; f.pos = BigInt(f.node.data.length); } // a device or pipe takes what it gets
    if (flt && (flt.kind === 'short' || flt.kind === 'after')) b = b.subarray(0, Math.min(b.length, Math.max(flt.kind === 'after' ? 0 : 1, flt.arg ?? 1)));
    if (flt && flt.kind === 'after') { // part is written, the rest of the device is full from now on
      faults.push({ op, path: f.path, err: flt.err, left: 1, sticky: true, dump: flt.dump });
      if (b.length === 0) return errOf(flt);
    }
    if (frag && frag.write && b.length > 1) { const m = 1 + fragRng.int(frag.write); if (m < b.length) { b = b.subarray(0, m); if (fired.length < 50) fired.push({ op, path: f.path, kind: 'short', sysno }); } }
    writeNode(f, b, at);
    view(); dv.setUint32(out, b.length, true);
    return 0;
  };
  const pathOp = (op, fd, ptr, len, follow = false) => {
    const b = getFd(fd); if (!b) return { errno: E.EBADF };
    const p = str(ptr, len);
    const fp = full(b, p);
    const flt = enter(op, fp, hasRegion && len <= 4094 ? resolve(b, p, follow).node : null);
    if (isErr(flt)) return { errno: errOf(flt) };
    if (len > 4094) return { errno: E.ENAMETOOLONG };
    return { b, p, fp, flt };
  };

  const wasi = {
    args_sizes_get(c, s) { view(); dv.setUint32(c, argv.length, true); dv.setUint32(s, argv.reduce((a, x) => a + x.length, 0), true); return 0; },
    args_get(av, buf) { view(); argv.forEach((a, i) => { dv.setUint32(av + 4 * i, buf, true); u8.set(a, buf); buf += a.length; }); return 0; },
    environ_sizes_get(c, s) { view(); dv.setUint32(c, envv.length, true); dv.setUint32(s, envv.reduce((a, x) => a + x.length, 0), true); return 0; },
    environ_get(av, buf) { view(); envv.forEach((a, i) => { dv.setUint32(av + 4 * i, buf, true); u8.set(a, buf); buf += a.length; }); return 0; },
    clock_res_get(id, out) { view(); dv.setBigUint64(out, 1n, true); return 0; },
    clock_time_get(id, prec, out) {
      enter('clock_time_get', String(id));
      if (id === 0) clockReads.push(Number(BigInt.asUintN(64, real) / 1000000000n));
      view(); dv.setBigUint64(out, id === 0 ? BigInt.asUintN(64, real) : mono, true); return 0;
    },
    random_get(p, n) { enter('random_get', ''); view(); for (let i = 0; i < n; i++) u8[p + i] = entropy.u32() & 255; return 0; },
    sched_yield() { return 0; },
    proc_exit(code) { log.num(code); throw new Exit(code); },
    proc_raise() { throw new Exit(128); },
    poll_oneoff(inp, out, n, nev) {
      enter('poll_oneoff', ''); view();
      let k = 0, min = null, mi = -1;
      for (let i = 0; i < n; i++) {
        const s = inp + 48 * i, tag = u8[s + 8];
        if (tag === 0) {
          const id = dv.getUint32(s + 16, true), to = dv.getBigUint64(s + 24, true), abs = dv.getUint16(s + 40, true) & 1;
          const now = id === 0 ? real : mono;
          const wait = abs ? (to > now ? to - now : 0n) : to;
          if (min === null || wait < min) { min = wait; mi = i; }
        } else { // fd readiness: always ready
          const o = out + 32 * k++;
          for (let j = 0; j < 32; j++) u8[o + j] = 0;
          dv.setBigUint64(o, dv.getBigUint64(s, true), true); u8[o + 10] = tag; dv.setBigUint64(o + 16, 1n, true);
        }
      }
      if (k === 0 && mi >= 0) {
        advance(min);
        const o = out; for (let j = 0; j < 32; j++) u8[o + j] = 0;
        dv.setBigUint64(o, dv.getBigUint64(inp + 48 * mi, true), true); u8[o + 10] = 0; k = 1;
      }
      dv.setUint32(nev, k, true); return 0;
    },
    fd_close(fd) {
      const f = getFd(fd); if (!f) return E.EBADF;
      const flt = enter('fd_close', f.path, f.node);
      fds.delete(fd);
      if (f.wrote) mut.push(`close ${f.path}`);
      return isErr(flt) ? errOf(flt) : 0;
    },
    fd_fdstat_get(fd, out) {
      const f = getFd(fd); if (!f) return E.EBADF;
      const flt = enter('fd_fdstat_get', f.path, f.node); if (isErr(flt)) return errOf(flt);
      view(); for (let i = 0; i < 24; i++) u8[out + i] = 0;
      u8[out] = f.node.type === 'c' ? (spec.tty ? 2 : 0) : f.node.special ? 2 : FT[f.node.type]; dv.setUint16(out + 2, f.flags, true);
      dv.setBigUint64(out + 8, 0x1fffffffn, true); dv.setBigUint64(out + 16, 0x1fffffffn, true);
      return 0;
    },
    fd_fdstat_set_flags(fd, fl) { const f = getFd(fd); if (!f) return E.EBADF; f.flags = fl; return 0; },
    fd_fdstat_set_rights() { return 0; },
    fd_prestat_get(fd, out) { const f = getFd(fd); if (!f || !f.preopen) return E.EBADF; view(); u8[out] = 0; dv.setUint32(out + 4, f.preopen.length, true); return 0; },
    fd_prestat_dir_name(fd, p, n) { const f = getFd(fd); if (!f || !f.preopen) return E.EBADF; view(); u8.set(enc.encode(f.preopen).subarray(0, n), p); return 0; },
    fd_filestat_get(fd, out) {
      const f = getFd(fd); if (!f) return E.EBADF;
      const flt = enter('fd_filestat_get', f.path, f.node); if (isErr(flt)) return errOf(flt);
      putStat(out, f.node);
      if ((flt && flt.kind === 'size0') || (frag && frag.size0)) { dv.setBigUint64(out + 32, 0n, true); if (fired.length < 50) fired.push({ op: 'fd_filestat_get', path: f.path, kind: 'size0', sysno }); }
      return 0;
    },
    fd_filestat_set_size(fd, sz) {
      const f = getFd(fd); if (!f) return E.EBADF;
      const flt = enter('fd_filestat_set_size', f.path); if (isErr(flt)) return errOf(flt);
      if (f.node.type !== 'f' || f.node.special) return E.EINVAL;
      mut.push(`truncate ${f.path}`); const d = new Uint8Array(Number(sz)); d.set(f.node.data.subarray(0, Number(sz))); f.node.data = d; touch(f.node); return 0;
    },
    fd_filestat_set_times(fd) { const f = getFd(fd); if (!f) return E.EBADF; enter('fd_filestat_set_times', f.path); mut.push(`utimes ${f.path}`); return 0; },
    fd_allocate(fd) { const f = getFd(fd); if (!f) return E.EBADF; enter('fd_allocate', f.path); mut.push(`allocate ${f.path}`); return 0; },
    fd_advise() { return 0; },
    fd_sync(fd) { const f = getFd(fd); if (!f) return E.EBADF; const flt = enter('fd_sync', f.path); return isErr(flt) ? errOf(flt) : 0; },
    fd_datasync(fd) { const f = getFd(fd); if (!f) return E.EBADF; const flt = enter('fd_sync', f.path); return isErr(flt) ? errOf(flt) : 0; },
    fd_read(fd, iovs, n, out) { return ioRead('fd_read', fd, iovs, n, out); },
    fd_pread(fd, iovs, n, off, out) { return ioRead('fd_read', fd, iovs, n, out, off); },
    fd_write(fd, iovs, n, out) { const r = ioWrite('fd_write', fd, iovs, n, out); if (fd === 2) happened('stderr'); return r; },
    fd_pwrite(fd, iovs, n, off, out) { return ioWrite('fd_write', fd, iovs, n, out, off); },
    fd_seek(fd, off, wh, out) {
      const f = getFd(fd); if (!f) return E.EBADF;
      if (f.node.type === 'c' || f.node.special) return E.ESPIPE;
      const flt = enter('fd_seek', f.path); if (isErr(flt)) return errOf(flt);
      const size = BigInt(f.node.type === 'f' ? f.node.data.length : 0);
      const p = wh === 0 ? off : wh === 1 ? f.pos + off : size + off;
      if (p < 0n) return E.EINVAL;
      f.pos = p; if (f.node.type === 'd') f.listing = null;
      view(); dv.setBigUint64(out, p, true); return 0;
    },
    fd_tell(fd, out) { const f = getFd(fd); if (!f) return E.EBADF; view(); dv.setBigUint64(out, f.pos, true); return 0; },
    fd_renumber(a, b) { const f = getFd(a); if (!f) return E.EBADF; fds.set(b, f); fds.delete(a); return 0; },
    fd_readdir(fd, buf, len, cookie, out) {
      const f = getFd(fd); if (!f) return E.EBADF;
      const flt = enter('fd_readdir', f.path, f.node); if (isErr(flt)) return errOf(flt);
      if (f.node.type !== 'd') return E.ENOTDIR;
      if (cookie === 0n || !f.listing) {
        f.listing = [['.', f.node], ['..', vfs.root], ...vfs.list(f.node)];
      }
      view();
      let used = 0;
      const last = spec.dirChunk ? Number(cookie) + spec.dirChunk : f.listing.length;
      for (let i = Number(cookie); i < f.listing.length && i < last && used < len; i++) {
        const [name, node] = f.listing[i]; const nb = enc.encode(name);
        const e = new Uint8Array(24 + nb.length), ed = new DataView(e.buffer);
        ed.setBigUint64(0, BigInt(i + 1), true); ed.setBigUint64(8, BigInt(node.ino), true); ed.setUint32(16, nb.length, true);
        e[20] = spec.layout?.noDtype ? 0 : node.special ? 2 : FT[node.type]; e.set(nb, 24);
        const k = Math.min(e.length, len - used);
        u8.set(e.subarray(0, k), buf + used); used += k;
      }
      dv.setUint32(out, used, true); return 0;
    },
    path_open(fd, dirflags, ptr, len, oflags, rb, ri, fdflags, out) {
      const r = pathOp('path_open', fd, ptr, len, (dirflags & 1) !== 0); if (r.errno !== undefined) return r.errno;
      const creat = oflags & 1, dirOnly = oflags & 2, excl = oflags & 4, trunc = oflags & 8;
      const wantW = (rb & 64n) !== 0n;
      const t = resolve(r.b, r.p, (dirflags & 1) !== 0);
      if (t.err) return miss(r.fp, t.err);
      let n = t.node;
      if (!n) {
        if (!creat) return miss(r.fp, E.ENOENT);
        mut.push(`create ${r.fp}`);
        n = vfs.mk('f', t.dir.dev); n.data = new Uint8Array(0); touch(n); t.dir.entries.set(t.name, n);
      } else {
        if (creat && excl) return E.EEXIST;
        if (n.type === 'l') return E.ELOOP;
        if (dirOnly && n.type !== 'd') return E.ENOTDIR;
        if (n.type === 'd' && (wantW || creat)) return E.EISDIR;
        if (trunc && n.type === 'f' && n.special === null) { mut.push(`truncate ${r.fp}`); n.data = new Uint8Array(0); touch(n); }
      }
      if (wantW) mut.push(`openw ${r.fp}`);
      const id = newFd({ node: n, path: r.fp, pos: 0n, flags: fdflags, stack: n.type === 'd' ? t.stack : undefined, wrote: wantW });
      view(); dv.setUint32(out, id, true); return 0;
    },
    path_filestat_get(fd, flags, ptr, len, out) {
      const follow = (flags & 1) !== 0;
      const r = pathOp(follow ? 'path_stat' : 'path_lstat', fd, ptr, len, follow); if (r.errno !== undefined) return r.errno;
      const t = resolve(r.b, r.p, follow);
      if (t.err) return miss(r.fp, t.err);
      if (!t.node) return miss(r.fp, E.ENOENT);
      putStat(out, t.node); if (frag?.size0 && t.node.type === 'f') dv.setBigUint64(out + 32, 0n, true);
      return 0;
    },
    path_filestat_set_times(fd, fl, ptr, len) { const r = pathOp('path_utimes', fd, ptr, len); if (r.errno !== undefined) return r.errno; mut.push(`utimes ${r.fp}`); return 0; },
    path_readlink(fd, ptr, len, buf, blen, out) {
      const r = pathOp('path_readlink', fd, ptr, len); if (r.errno !== undefined) return r.errno;
      const t = resolve(r.b, r.p, false);
      if (t.err) return miss(r.fp, t.err);
      if (!t.node) return miss(r.fp, E.ENOENT);
      if (t.node.type !== 'l') return E.EINVAL;
      const b = enc.encode(t.node.target).subarray(0, blen); view(); u8.set(b, buf); dv.setUint32(out, b.length, true); return 0;
    },
    path_create_directory(fd, ptr, len) {
      const r = pathOp('path_mkdir', fd, ptr, len); if (r.errno !== undefined) return r.errno;
      const t = resolve(r.b, r.p, false); if (t.err) return t.err; if (t.node) return E.EEXIST;
      mut.push(`mkdir ${r.fp}`); t.dir.entries.set(t.name, vfs.mk('d', t.dir.dev)); return 0;
    },
    path_remove_directory(fd, ptr, len) {
      const r = pathOp('path_rmdir', fd, ptr, len); if (r.errno !== undefined) return r.errno;
      const t = resolve(r.b, r.p, false); if (t.err) return t.err; if (!t.node) return E.ENOENT; if (t.node.type !== 'd') return E.ENOTDIR;
      if (t.node.entries.size) return E.ENOTEMPTY;
      mut.push(`rmdir ${r.fp}`); t.dir.entries.delete(t.name); return 0;
    },
    path_unlink_file(fd, ptr, len) {
      const r = pathOp('path_unlink', fd, ptr, len); if (r.errno !== undefined) return r.errno;
      const t = resolve(r.b, r.p, false); if (t.err) return t.err; if (!t.node) return E.ENOENT; if (t.node.type === 'd') return E.EISDIR;
      mut.push(`unlink ${r.fp}`); t.dir.entries.delete(t.name); return 0;
    },
    path_rename(fd, ptr, len, fd2, ptr2, len2) {
      const r = pathOp('path_rename', fd, ptr, len); if (r.errno !== undefined) return r.errno;
      const b2 = getFd(fd2); if (!b2) return E.EBADF; const p2 = str(ptr2, len2);
      const t = resolve(r.b, r.p, false), t2 = resolve(b2, p2, false);
      if (t.err) return t.err; if (t2.err) return t2.err; if (!t.node) return E.ENOENT;
      mut.push(`rename ${r.fp} ${full(b2, p2)}`);
      t.dir.entries.delete(t.name); t2.dir.entries.set(t2.name, t.node); return 0;
    },
    path_symlink(tp, tl, fd, ptr, len) {
      const target = str(tp, tl);
      const r = pathOp('path_symlink', fd, ptr, len); if (r.errno !== undefined) return r.errno;
      const t = resolve(r.b, r.p, false); if (t.err) return t.err; if (t.node) return E.EEXIST;
      mut.push(`symlink ${r.fp}`); const n = vfs.mk('l', t.dir.dev); n.target = target; t.dir.entries.set(t.name, n); return 0;
    },
    path_link(fd, fl, ptr, len, fd2, ptr2, len2) {
      const r = pathOp('path_link', fd, ptr, len); if (r.errno !== undefined) return r.errno;
      const b2 = getFd(fd2); if (!b2) return E.EBADF; const p2 = str(ptr2, len2);
      const t = resolve(r.b, r.p, (fl & 1) !== 0), t2 = resolve(b2, p2, false);
      if (t.err) return t.err; if (t2.err) return t2.err; if (!t.node) return E.ENOENT; if (t2.node) return E.EEXIST;
      mut.push(`link ${full(b2, p2)}`); t2.dir.entries.set(t2.name, t.node); return 0;
    },
    sock_accept() { return E.ENOTSUP; }, sock_recv() { return E.ENOTSUP; }, sock_send() { return E.ENOTSUP; }, sock_shutdown() { return E.ENOTSUP; },
  };

  const traps = spec.traps ?? [];
  const verif = {
    ask(g, site, used) { const r = sched.ask(g, site, used); if (r !== 0) { log.num(site); log.num(r); } return r; },
    choose(site, n) { return maps.choose(site, n); },
    quantum(q, granted) { qptr = q; gptr = granted; },
    cfg(i) {
      if (i === 0) return traps.length;
      if (i === 1) return spec.nsites ?? 1 << 16;
      const t = traps[(i - 2) >> 1];
      return i & 1 ? t[1] : t[0];
    },
    // Time zone (seconds), ballast on the heap, processors, process number, user and host.
    machine(i) { const m = spec.machine ?? {}; return [m.tz ?? 0, m.ballast ?? 0, m.cpus ?? 1, m.pid ?? 3, m.uid ?? 1][i] ?? 0; },
    race(sa, ga, wa, sb, gb, wb) { const k = `${sa}:${wa}:${sb}:${wb}`; if (!races.has(k)) races.set(k, { sa, ga, wa, sb, gb, wb, sysno }); },
    parked(site, g) { parkedSites.push(site); log.num(site); log.num(g); },
    mark(kind, step_, idx) {
      marks.push([kind, step_, idx, clockReads.length, kind === 3 ? [...fds.entries()].filter(([n]) => n > 3).map(([, f]) => f.path) : null]); log.num(kind); log.num(step_);
      for (const e of edits) if (!e.done && e.mark !== undefined && kind === 0 && e.mark <= step_) applyEdit(e);
    },
  };

  let exit = null, outcome = 'exit', error = null;
  // Unknown imports of a changed program are reported as harness errors when called.
  const proxy = new Proxy(wasi, { get(t, k) { return t[k] ?? (() => { throw new HarnessError('unimplemented WASI call ' + String(k)); }); }, has() { return true; } });
  const imports = { wasi_snapshot_preview1: {}, verif: {} };
  for (const im of WebAssembly.Module.imports(module)) {
    if (im.module === 'wasi_snapshot_preview1') imports.wasi_snapshot_preview1[im.name] = proxy[im.name];
    else if (im.module === 'verif') imports.verif[im.name] = verif[im.name];
  }
  for (const p of peers) if (p.at === 0) runPeer(p);
  try {
    const inst = new WebAssembly.Instance(module, imports);
    memory = inst.exports.memory;
    if (shortage && shortage.at === 0) starve();
    inst.exports._start();
    exit = 0;
  } catch (e) {
    if (e instanceof Exit) exit = e.code;
    else if (e instanceof Killed) outcome = 'killed';
    else if (e instanceof Paused) outcome = 'paused';
    else if (e instanceof StepLimit || e instanceof SysLimit) { outcome = 'hang'; error = e.message; }
    else if (e instanceof HarnessError) throw e;
    else if (e instanceof RangeError && /call stack/i.test(e.message)) { outcome = 'stackoverflow'; error = e.message; }
    else if (e instanceof WebAssembly.RuntimeError) { outcome = 'trap'; error = e.message; }
    else throw e;
  }
  if (outcome !== 'paused') for (const p of peers) if (!p.result && (p.always || p.parts.length)) runPeer(p, true);
  const cat = (n) => { const b = new Uint8Array(n.len); let o = 0; for (const c of n.chunks) { b.set(c, o); o += c.length; } return dec.decode(b); };
  const files = {};
  for (const p of spec.readBack ?? []) { const n = vfs.walk(p); files[p] = n && n.type === 'f' ? dec.decode(n.data) : null; }
  return {
    probes: [...probes], outcome, exit, error, stdout: cat(sout), stderr: cat(serr), files,
    sys: sysno, ev, fired, races: [...races.values()], marks, mut, clockReads, parkedSites,
    stalls: sched.stalls, asks: sched.asks, steps: sched.steps, switches: sched.switches, maxRunnable: sched.maxRunnable, decisions: sched.decisions, decisionPoints: sched.decisionPoints,
    mapChoices: maps.choices, mapN: maps.n, schedHash: sched.hash.hex(), mapHash: maps.hash.hex(), logHash: log.hex(),
    simNs: Number(mono - simStart), before, after: spec.wantImage ? vfs.image() : null,
    peers: peers.map((p) => p.result), grown: memory ? memory.buffer.byteLength / 65536 : 0,
  };
}
