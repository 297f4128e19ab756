// Loads a compiled guest and limits its memory, so that runaway allocation fails inside the simulation.
import fs from 'node:fs';

function leb(buf, p) { let r = 0, s = 0, b; do { b = buf[p++]; r |= (b & 127) << s; s += 7; } while (b & 128); return [r >>> 0, p]; }
function enc(n) { const o = []; do { let b = n & 127; n >>>= 7; if (n) b |= 128; o.push(b); } while (n); return o; }

const MAX_MIB = 768;
export const MAX_PAGES = MAX_MIB * 16;

export function load(file, maxMiB = MAX_MIB) {
  const b = fs.readFileSync(file);
  let p = 8;
  while (p < b.length) {
    const start = p, id = b[p];
    let size; [size, p] = leb(b, p + 1);
    if (id === 5) { // memory section: one memory, limits
      let n, q = p; [n, q] = leb(b, q);
      const flags = b[q]; let min; [min, q] = leb(b, q + 1);
      if (n !== 1 || flags & ~1) break;
      const max = Math.max(min, maxMiB * 16);
      const body = [...enc(1), 1, ...enc(min), ...enc(max)];
      const sec = Buffer.from([5, ...enc(body.length), ...body]);
      return new WebAssembly.Module(Buffer.concat([b.subarray(0, start), sec, b.subarray(p + size)]));
    }
    p += size;
  }
  return new WebAssembly.Module(b);
}
