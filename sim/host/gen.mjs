// Generator of FBDL projects together with a reference model that predicts what a compilation must produce.
//
// A project is a set of packages; a package is a list of files; a file has imports and top level symbols. The expected
// result is computed by an interpreter over this model (closures and call by value), which shares nothing with the
// compiler: the compiler binds names in shared, mutable type definitions.
import { Rng } from './rng.mjs';

// ---------- expressions ----------
export const I = (v, fmt) => ({ k: 'int', v, fmt });
export const Ref = (name) => ({ k: 'ref', name });
export const Bin = (op, a, b) => ({ k: 'bin', op, a, b });

export function text(e) {
  switch (e.k) {
    case 'int': return e.fmt === 'hex' ? '0x' + e.v.toString(16) : e.fmt === 'bin' ? '0b' + e.v.toString(2) : String(e.v);
    case 'ref': return e.name;
    case 'bin': return `${text(e.a)} ${e.op} ${text(e.b)}`;
    case 'bool': return String(e.v);
    case 'str': return JSON.stringify(e.v);
    case 'float': return e.v;
    case 'list': return `[${e.xs.map(text).join(', ')}]`;
    case 'range': return `${text(e.a)}:${text(e.b)}`;
    case 'time': return `${text(e.v)} ${e.unit}`;
    case 'bits': return e.t;
    case 'call': return `${e.f}(${e.args.map(text).join(', ')})`;
    case 'un': return `${e.op}${text(e.x)}`;
    default: throw new Error('expr ' + e.k);
  }
}
export function evalExpr(e, env) {
  switch (e.k) {
    case 'int': case 'bool': case 'str': return e.v;
    case 'float': return Number(e.v);
    case 'ref': return lookup(e.name, env);
    case 'bin': {
      const a = evalExpr(e.a, env), b = evalExpr(e.b, env);
      switch (e.op) { case '+': return a + b; case '-': return a - b; case '*': return a * b; case '/': return a / b; case '%': return a % b; case '**': return a ** b; case '<<': return a * 2 ** b; case '>>': return Math.floor(a / 2 ** b); default: return NaN; }
    }
    case 'list': return e.xs.map((x) => evalExpr(x, env));
    case 'range': return { L: evalExpr(e.a, env), R: evalExpr(e.b, env) };
    case 'time': {
      const v = evalExpr(e.v, env);
      const ns = v * { s: 1e9, ms: 1e6, us: 1e3, ns: 1 }[e.unit];
      return { S: Math.floor(ns / 1e9), Ns: ns % 1e9 };
    }
    case 'bits': return e;
    case 'call': { const a = evalExpr(e.args[0], env); return e.f === 'bool' ? a !== 0 : e.f === 'ceil' ? Math.ceil(a) : e.f === 'floor' ? Math.floor(a) : e.f === 'log2' ? Math.log2(a) : Math.log10(a); }
    case 'un': return e.op === '-' ? -evalExpr(e.x, env) : evalExpr(e.x, env);
    default: throw new Error('eval ' + e.k);
  }
}

// Names used by the expressions of a node and everything within it.
export function usedNames(node, out = new Set()) {
  const ex = (e) => { if (!e || typeof e !== 'object') return; if (e.k === 'ref') out.add(e.name); for (const v of Object.values(e)) if (v && typeof v === 'object') { if (Array.isArray(v)) v.forEach(ex); else ex(v); } };
  if (node.expr) ex(node.expr);
  if (node.count) ex(node.count);
  for (const a of node.args ?? []) ex(a.expr);
  for (const p of node.params ?? []) ex(p.dflt);
  for (const p of node.props ?? []) ex(p.expr);
  for (const s of node.syms ?? []) usedNames(s, out);
  return out;
}

// ---------- environments ----------
// {file} for a file, or {parent, consts: {name: expr}, params: {name: value}, types: {name: type}}
function lookup(name, env) {
  for (let e = env; e; e = e.parent) {
    if (e.file) return fileConst(e.file, name);
    if (Object.hasOwn(e.consts, name)) return evalExpr(e.consts[name], e);
    if (Object.hasOwn(e.params, name)) return e.params[name];
  }
  throw new Error('model: unresolved constant ' + name);
}
function fileConst(file, name) {
  let pkg = file.pkg;
  if (name.includes('.')) {
    const [al, n] = name.split('.');
    const im = file.imports.find((i) => i.name === al);
    if (!im) throw new Error('model: not imported ' + al);
    pkg = im.pkg; name = n;
  }
  for (const f of pkg.files) for (const s of f.syms) if (s.s === 'const' && s.name === name) return evalExpr(s.expr, { file: f });
  throw new Error('model: no constant ' + name);
}
function lookupType(name, env) {
  for (let e = env; e; e = e.parent) {
    if (e.file) {
      let pkg = e.file.pkg, n = name;
      if (name.includes('.')) {
        const [al, m] = name.split('.');
        pkg = e.file.imports.find((i) => i.name === al).pkg; n = m;
      }
      for (const f of pkg.files) for (const s of f.syms) if (s.s === 'type' && s.name === n) return { type: s, env: { file: f } };
      throw new Error('model: no type ' + name);
    }
    if (e.types[name]) return { type: e.types[name], env: e };
  }
  throw new Error('model: no type ' + name);
}

// ---------- reference instantiation ----------
const bodyEnv = (node, parent, params) => {
  const env = { parent, consts: {}, params, types: {} };
  for (const s of node.syms) { if (s.s === 'const') env.consts[s.name] = s.expr; if (s.s === 'type') env.types[s.name] = s; }
  return env;
};
const bw = (n) => { let b = 0; while (2 ** b < n + 1) b++; return b; };
// Names that mean something to shells, format strings, glob patterns, or are not ASCII.
export const ODD = [(x) => ` ${x}`, (x) => `${x} `, (x) => `\t${x}`, (x) => `${x}\\n`, (x) => `%d${x}`, (x) => `%${x}`, (x) => `*${x}`, (x) => `[${x}]`, (x) => `?${x}`, (x) => `~${x}`, (x) => `$HOME${x}`, (x) => `'${x}'`, (x) => `-${x}`, (x) => `${x}\u00e4`, (x) => `\u65e5${x}`, (x) => `e\u0301${x}`, (x) => `${x};`, (x) => `#${x}`, (x) => `${x}.fbd`, (x) => `${x}..`, (x) => `..${x}`, (x) => `{${x}}`, (x) => `&${x}`];
const BASE = new Set(['blackbox', 'block', 'bus', 'config', 'group', 'irq', 'mask', 'param', 'proc', 'return', 'static', 'status', 'stream']);

export function instantiate(inst, parent, busWidth) {
  const env = bodyEnv(inst, parent, {});
  // Type chain from the instantiation up to the base type.
  const chain = [{ node: inst, env }];
  let cur = inst, curEnv = env, scope = parent;
  while (!BASE.has(cur.type)) {
    const { type, env: defEnv } = lookupType(cur.type, scope);
    const params = {};
    const tEnv = bodyEnv(type, defEnv, params);
    type.params.forEach((p, i) => {
      let a = cur.args.find((x) => x.name === p.name);
      if (!a && cur.args[i] && !cur.args[i].name) a = cur.args[i];
      params[p.name] = a ? evalExpr(a.expr, curEnv) : evalExpr(p.dflt, tEnv);
    });
    chain.push({ node: type, env: tEnv });
    cur = type; curEnv = tEnv; scope = defEnv;
  }
  const kind = cur.type === 'bus' ? 'block' : cur.type;
  chain.reverse();
  const f = { kind, Name: inst.name, Doc: (inst.doc ?? []).join('\n'), IsArray: !!inst.count, Count: inst.count ? evalExpr(inst.count, env) : 1, props: {}, consts: {}, subs: [] };
  for (const { node, env: e } of chain) {
    for (const p of node.props) f.props[p.name] = evalExpr(p.expr, e);
    for (const s of node.syms) {
      if (s.s === 'const') f.consts[s.name] = evalExpr(s.expr, e);
      if (s.s === 'inst') f.subs.push(instantiate(s, e, busWidth));
    }
  }
  const P = f.props;
  const want = {};
  switch (kind) {
    case 'block':
      want.Align = P.align ?? 0; want.Masters = P.masters ?? 1; want.Reset = P.reset ?? ''; want.Width = P.width ?? 32; break;
    case 'config': case 'mask': case 'status': case 'static':
      if (kind !== 'static') want.Atomic = P.atomic ?? true;
      if (kind === 'config') { want.Range = rangeOf(P.range); want.Width = P.width ?? (P.range === undefined ? busWidth : rangeWidth(want.Range)); } else want.Width = P.width ?? busWidth;
      if (kind !== 'status') { want.InitValue = P['init-value'] ?? null; want.ResetValue = P['reset-value'] ?? null; }
      want.ReadValue = P['read-value'] ?? null;
      break;
    case 'param':
      want.Range = rangeOf(P.range); want.Width = P.width ?? (P.range === undefined ? busWidth : rangeWidth(want.Range)); break;
    case 'return': want.Width = P.width ?? busWidth; break;
    case 'irq':
      want.AddEnable = P['add-enable'] ?? false; want.Clear = P.clear ?? 'Explicit'; want.InTrigger = P['in-trigger'] ?? 'Level'; want.OutTrigger = P['out-trigger'] ?? 'Level';
      want.EnableInitValue = P['enable-init-value'] ?? null; want.EnableResetValue = P['enable-reset-value'] ?? null; break;
    case 'proc': case 'stream': want.Delay = P.delay ?? null; break;
    case 'group': want.Virtual = P.virtual ?? false; break;
    case 'blackbox': want.Size = P.size; break;
  }
  f.want = want;
  return f;
}
const rangeOf = (v) => (v === undefined ? null : typeof v === 'number' ? { Start: 0, End: v } : Array.isArray(v) ? v.map((r) => ({ Start: r.L, End: r.R })) : { Start: v.L, End: v.R });
const rangeWidth = (r) => (Array.isArray(r) ? Math.max(...r.map((x) => bw(x.End))) : bw(r.End));

export function expectedConsts(pkg) {
  const out = {};
  for (const f of pkg.files) for (const s of f.syms) if (s.s === 'const') out[s.name] = evalExpr(s.expr, { file: f });
  return out;
}

// ---------- comparison with the compiler's output ----------
const KINDS = { block: 'Subblocks', config: 'Configs', group: 'Groups', irq: 'Irqs', mask: 'Masks', param: 'Params', proc: 'Procs', return: 'Returns', static: 'Statics', status: 'Statuses', stream: 'Streams', blackbox: 'Blackboxes' };
const bitVal = (s) => {
  const m = /^([bBoOxX])"([0-9a-fA-F]*)"$/.exec(s); if (!m) return s;
  return BigInt({ b: '0b', o: '0o', x: '0x' }[m[1].toLowerCase()] + m[2]);
};
const sameJSON = (a, b) => JSON.stringify(a) === JSON.stringify(b);

export function constsOf(c) { // flatten a constants container
  const out = {};
  for (const k of ['Bools', 'BoolLists', 'Floats', 'Ints', 'IntLists', 'Strings']) for (const [n, v] of Object.entries(c?.[k] ?? {})) out[n] = v;
  return out;
}
export function diffConsts(got, want, where, out) {
  const g = constsOf(got);
  for (const n of new Set([...Object.keys(g), ...Object.keys(want)])) {
    if (!sameJSON(g[n], want[n])) out.push(`${where}: constant ${n} is ${JSON.stringify(g[n])}, expected ${JSON.stringify(want[n])}`);
  }
}
export function diffFunc(got, f, path, out) {
  if (!got) { out.push(`${path}: missing ${f.kind}`); return; }
  for (const k of ['IsArray', 'Count']) if (got[k] !== f[k]) out.push(`${path}: ${k} is ${got[k]}, expected ${f[k]}`);
  for (const [k, v] of Object.entries(f.want)) {
    const g = got[k];
    if (k.endsWith('Value')) {
      if (v === null ? g !== '' : bitVal(g) !== (typeof v === 'object' ? bitVal(v.t) : BigInt(v))) out.push(`${path}: ${k} is ${g}, expected ${v === null ? 'none' : JSON.stringify(v)}`);
    } else if (!sameJSON(g, v)) out.push(`${path}: ${k} is ${JSON.stringify(g)}, expected ${JSON.stringify(v)}`);
  }
  if (f.kind === 'block' || f.kind === 'group') diffConsts(got.Consts, f.consts, path, out);
  for (const [kind, field] of Object.entries(KINDS)) {
    const want = f.subs.filter((s) => s.kind === kind);
    const have = (got[field] ?? []).filter((x) => !(path.indexOf('/') < 0 && kind === 'static' && (x.Name === 'ID' || x.Name === 'TIMESTAMP')));
    for (const x of have) if (!want.find((w) => w.Name === x.Name)) out.push(`${path}: unexpected ${kind} ${x.Name}`);
    if (have.length > new Set(have.map((x) => x.Name)).size) out.push(`${path}: duplicate ${kind}`);
    if (kind !== 'block' && !sameJSON(have.map((x) => x.Name), want.map((x) => x.Name)) && have.length === want.length) out.push(`${path}: order of ${field} is ${have.map((x) => x.Name)}, expected ${want.map((x) => x.Name)}`);
    for (const w of want) diffFunc(have.find((x) => x.Name === w.Name), w, `${path}/${w.Name}`, out);
  }
}
// The expected result of compiling a project, as plain data.
export function expectProject(P, main = P.main, mainName = P.mainName) {
  const file = main.files[0];
  const inst = file.syms.find((s) => s.s === 'inst' && s.name === mainName);
  const width = inst.props.find((p) => p.name === 'width');
  const consts = { main: expectedConsts(main) };
  for (const p of P.pkgs) consts[p.name] = expectedConsts(p);
  return { func: instantiate(inst, { file }, width ? evalExpr(width.expr, { file }) : 32), consts };
}
// Differences between a compilation result (parsed standard output and parsed dump or null) and the expectation.
export function diffExpected(x, bus, dump) {
  const out = [];
  diffFunc(bus, x.func, x.func.Name, out);
  if (dump) {
    for (const n of Object.keys(dump)) if (!Object.hasOwn(x.consts, n)) out.push(`dump: unexpected package ${n}`);
    for (const [n, c] of Object.entries(x.consts)) {
      if (!dump[n]) { out.push(`dump: missing package ${n}`); continue; }
      diffConsts(dump[n].Consts, c, `dump of ${n}`, out);
    }
  }
  return out;
}

// ---------- text ----------
function emitNode(s, ind, out) {
  const pad = '  '.repeat(ind);
  if (s.s === 'raw') { for (const l of s.lines) out.push(pad + l); return; }
  for (const d of s.doc ?? []) out.push(`${pad}# ${d}`);
  if (s.s === 'const') { out.push(`${pad}const ${s.name} = ${text(s.expr)}`); return; }
  let h = pad;
  if (s.s === 'type') {
    h += `type ${s.name}`;
    if (s.params.length) h += `(${s.params.map((p) => p.name + (p.dflt ? ' = ' + text(p.dflt) : '')).join(', ')})`;
  } else {
    h += s.name;
    if (s.count) h += ` [${text(s.count)}]`;
  }
  h += ` ${s.type}`;
  if (s.args.length) h += `(${s.args.map((a) => (a.name ? a.name + ' = ' : '') + text(a.expr)).join(', ')})`;
  const props = s.props.map((p) => `${p.name} = ${text(p.expr)}`);
  if (props.length && s.syms.length === 0 && s.oneline) { out.push(`${h}; ${props.join('; ')}`); return; }
  out.push(h);
  // Properties, constants, types and instantiations can come in any order.
  const items = [...props.map((p) => ({ p })), ...s.syms];
  for (const it of items) { if (it.p) out.push(`${pad}  ${it.p}`); else emitNode(it, ind + 1, out); }
}
export function fileText(f) {
  if (f.bare !== undefined && !f.imports.length && !f.syms.length && !f.tail.length) return f.bare;
  const out = [];
  if (f.head) out.push(...f.head);
  if (f.multiImport && f.imports.length > 1) {
    out.push('import');
    for (const i of f.imports) out.push(`  ${i.alias ? i.alias + ' ' : ''}"${i.path}"`);
  } else for (const i of f.imports) out.push(`import ${i.alias ? i.alias + ' ' : ''}"${i.path}"`);
  const cs = f.syms.filter((s) => s.s === 'const');
  if (f.multiConst && cs.length > 1 && !cs[0].doc?.length) {
    out.push('const');
    for (const c of cs) {
      for (const d of c.doc ?? []) out.push(`  # ${d}`);
      out.push(`  ${c.name} = ${text(c.expr)}`);
      if (f.multiConst > 1) out.push('');
    }
  } else for (const c of cs) emitNode(c, 0, out);
  for (const s of f.syms) if (s.s !== 'const') emitNode(s, 0, out);
  if (f.tail) out.push(...f.tail);
  return out.join('\n') + '\n';
}

// ---------- generation ----------
export class Gen {
  constructor(rng, opt = {}) {
    this.rng = rng;
    this.opt = {
      pkgs: rng.pick([0, 1, 2, 3, 4, 6]), filesPerPkg: rng.pick([1, 1, 2, 3, 5]), consts: rng.pick([1, 2, 4]), types: rng.pick([0, 1, 2, 3]),
      insts: rng.pick([2, 4, 8, 14]), depth: rng.pick([1, 2, 3]), params: rng.chance(0.7), shadow: rng.chance(0.5), importP: rng.pick([0.2, 0.5, 0.8]), big: false,
      uniqueTypes: false, ...opt,
    };
    this.n = 0;
  }
  fresh(p) { return `${p}${this.n++}`; }
  project() {
    const { rng, opt } = this;
    const width = () => opt.busWidth ?? rng.weighted([[6, 32], [2, 64], [2, 16], [1, 8], [1, 24], [1, 40]]);
    const widths = Array.from({ length: 1 + (opt.extraMains ?? 0) }, width);
    this.busWidth = Math.min(...widths); // what packages may assume
    const P = { mainName: opt.mainName ?? rng.pick(['Main', 'main', 'Bus_1', 'mainBus']), pkgs: [], main: null };
    const names = rng.shuffle(['p', 'q', 'lib', 'uart', 'a', 'dsp-core', 'x1', 'util', 'lp', 'ab', 'b', 'io2']);
    const np = !opt.names && opt.pkgs && rng.chance(opt.wide ?? 0.04) ? rng.pick([9, 12, 17, 24, 24, 33, 70]) : opt.pkgs; // many packages
    for (let i = 0; i < np; i++) {
      const name = opt.names?.[i] ?? names[i % names.length] + (i >= names.length ? i : '');
      P.pkgs.push({ name, dir: `fbd-${name}`, files: [] });
    }
    for (const p of P.pkgs) {
      const nf = opt.exactFiles ?? rng.range(1, opt.filesPerPkg);
      const odd = rng.chance(0.05);
      for (let j = 0; j < nf; j++) p.files.push(this.mkFile(p, `${odd ? rng.pick(ODD)(rng.pick(['a', 'z'])) : rng.pick(['a', 'b', 'types', 'z', '0', 'm'])}${j}.fbd`));
      if (!opt.exactFiles && rng.chance(opt.wide ?? 0.05)) { // many files, most of them small
        const n = rng.pick([9, 12, 17, 33, 70]);
        for (let j = nf; j < n; j++) { const f = this.mkFile(p, `${rng.pick(['a', 'b', 'types', 'z', '0', 'm'])}${j}.fbd`); f.small = true; p.files.push(f); }
        p.files = rng.shuffle(p.files);
      }
    }
    P.mains = widths.map((w, i) => {
      const m = { name: 'main', dir: null, files: [], width: w, mainName: i === 0 ? P.mainName : rng.pick([P.mainName, 'Main', `Bus${i}`]) };
      m.files.push(this.mkFile(m, i === 0 ? 'bus.fbd' : `bus${i}.fbd`));
      return m;
    });
    P.main = P.mains[0];
    this.P = P;
    // Imports first (a file can import any package), then constants in one global order, then types, then instantiations.
    for (const p of [...P.pkgs, ...P.mains]) for (const f of p.files) this.addImports(f, P);
    this.allConsts = []; // {pkg, file, name, v}
    this.allTypes = [];
    const rounds = opt.consts;
    for (let r = 0; r < rounds; r++) for (const p of rng.shuffle([...P.pkgs, ...P.mains])) for (const f of p.files) if (r === 0 || (!f.small && rng.chance(0.8))) this.addConst(p, f);
    for (let r = 0; r < opt.types; r++) for (const p of rng.shuffle([...P.pkgs, ...P.mains])) for (const f of rng.shuffle(p.files)) if (rng.chance(f.small ? 0.1 : 0.7)) this.addType(p, f);
    // Main bus.
    for (const m of P.mains) {
      this.busWidth = m.width;
      const mf = m.files[0];
      const bus = { s: 'inst', name: m.mainName, type: 'bus', args: [], props: [], syms: [], doc: this.doc(0.3) };
      if (this.busWidth !== 32 || rng.chance(0.3)) bus.props.push({ name: 'width', expr: this.exprFor(this.busWidth, this.vis({ file: mf, env: null })) });
      if (rng.chance(0.2)) bus.props.push({ name: 'masters', expr: I(rng.range(1, 4)) });
      if (rng.chance(0.15)) bus.props.push({ name: 'align', expr: I(rng.pick([1, 2, 4, 8, 16])) });
      if (rng.chance(0.15)) bus.props.push({ name: 'reset', expr: { k: 'str', v: rng.pick(['Sync', 'Async']) } });
      this.fillBlock(bus, { file: mf, chainConsts: [], params: [], types: [], depth: 0 }, opt.insts, opt.depth);
      mf.syms.push(bus);
    }
    this.busWidth = Math.min(...widths);
    // Package level instantiations of types, used by nobody.
    if (rng.chance(0.3)) for (const p of [...P.pkgs]) if (rng.chance(0.4)) {
      const f = rng.pick(p.files);
      const i = this.typedInst({ file: f, chainConsts: [], params: [], types: [] }, null); if (i) f.syms.push(i);
    }
    for (const p of [...P.pkgs, ...P.mains]) for (const f of p.files) f.syms = [...f.syms.filter((s) => s.s === 'const'), ...rng.shuffle(f.syms.filter((s) => s.s !== 'const'))];
    // Files without symbols.
    if (!opt.exactFiles) for (const p of P.pkgs) if (rng.chance(0.05)) {
      const f = { pkg: p, name: rng.pick(['0nil.fbd', 'nil.fbd', 'zz.fbd', '.fbd']), imports: [], syms: [], head: [], tail: [], bare: rng.pick(['', '\n', '# nothing\n', '\n\n# nothing\n\n', '# no newline at the end']) };
      p.files.splice(rng.int(p.files.length + 1), 0, f);
    }
    return P;
  }
  doc(p) { return this.rng.chance(p) ? Array.from({ length: this.rng.range(1, 2) }, () => 'Doc ' + this.rng.pick(['alpha', 'beta', 'gamma delta', 'żółć', '100 %'])) : []; }
  mkFile(pkg, name) {
    const { rng } = this;
    const f = { pkg, name, imports: [], syms: [], multiImport: rng.chance(0.3), multiConst: rng.pick([0, 0, 0, 0, 1, 1, 2]), head: [], tail: [] };
    if (rng.chance(0.2)) f.head = ['# File header', ''];
    if (rng.chance(0.2)) f.tail = ['', '# The end'];
    return f;
  }
  addImports(f, P) {
    const { rng, opt } = this;
    const used = new Set();
    for (const q of rng.shuffle(P.pkgs)) {
      if (!rng.chance(f.small ? 0.1 : opt.importP)) continue;
      const dfltOk = /^[a-z][a-z0-9]*$/.test(q.name);
      let alias = null, name = q.name;
      if (!dfltOk || rng.chance(0.5)) { alias = rng.pick(['p', 'q', 'lib', 'k', 'm', 'zz', 'uart']); name = alias; } // aliases often equal names of other packages
      if (used.has(name)) { alias = this.fresh('al'); name = alias; }
      used.add(name);
      f.imports.push({ alias, name, path: q.dir, pkg: q });
    }
  }
  constName(p, scopeNames) {
    const { rng, opt } = this;
    for (let i = 0; i < 4; i++) {
      const n = opt.shadow ? rng.pick(['A', 'B', 'C', 'WIDTH', 'N', 'n', 'K', 'X1', 'Y_2']) : this.fresh('C');
      if (!scopeNames.has(n)) return n;
    }
    return this.fresh('C');
  }
  pkgNames(p, kind) { const s = new Set(); for (const f of p.files) for (const x of f.syms) if (x.s === kind) s.add(x.name); return s; }
  addConst(p, f) {
    const { rng } = this;
    const name = this.constName(p, this.pkgNames(p, 'const'));
    const kind = rng.weighted([[10, 'int'], [1, 'str'], [1, 'bool'], [1, 'float'], [1, 'list'], [0.7, 'bools'], [0.5, 'neg'], [0.5, 'frac']]);
    let expr, v = null;
    if (kind === 'int') { v = rng.weighted([[6, rng.range(1, 12)], [2, rng.range(13, 5000)], [1, 0]]); expr = this.exprFor(v, this.vis({ file: f, chainConsts: [], params: [] })); } else expr = this.other(kind, this.vis({ file: f, chainConsts: [], params: [] }));
    f.syms.push({ s: 'const', name, expr, doc: this.doc(0.1) });
    this.allConsts.push({ pkg: p, name, v });
  }
  other(kind, vis) {
    const { rng } = this;
    switch (kind) {
      case 'str': return { k: 'str', v: rng.pick(['abc', 'x y', '', 'Sync', 'a;b', '# no comment']) };
      case 'bool': return rng.chance(0.3) ? { k: 'call', f: 'bool', args: [this.exprFor(rng.int(3), vis)] } : { k: 'bool', v: rng.chance(0.5) };
      case 'float': return { k: 'float', v: rng.pick(['1.5', '0.25', '3.125', '10.75']) };
      case 'bools': return { k: 'list', xs: Array.from({ length: rng.range(1, 4) }, () => ({ k: 'bool', v: rng.chance(0.5) })) };
      case 'neg': return rng.chance(0.5) ? { k: 'un', op: '-', x: I(rng.range(1, 99)) } : Bin('-', I(rng.int(10)), I(rng.range(10, 99)));
      case 'frac': return rng.chance(0.5) ? Bin('/', I(rng.range(1, 9) * 2 + 1), I(rng.pick([2, 4, 8]))) : { k: 'float', v: rng.pick(['100.0', '0.1', '12345.678', '3.0']) };
      default: { // list
        return { k: 'list', xs: Array.from({ length: rng.range(1, 4) }, () => this.exprFor(rng.range(0, 50), vis)) };
      }
    }
  }
  // Integer constants visible in a scope: [{name, v}], v null if not known statically (parameters).
  vis(sc) {
    const out = [];
    const hidden = new Set();
    for (const c of sc.chainConsts ?? []) { if (!hidden.has(c.name)) { hidden.add(c.name); if (c.v !== null && c.v !== undefined) out.push(c); } }
    for (const p of sc.params ?? []) hidden.add(p);
    if (sc.file) {
      for (const c of this.allConsts) if (c.pkg === sc.file.pkg && c.v !== null && !hidden.has(c.name)) out.push({ name: c.name, v: c.v });
      for (const im of sc.file.imports) for (const c of this.allConsts) if (c.pkg === im.pkg && c.v !== null) out.push({ name: `${im.name}.${c.name}`, v: c.v });
    }
    return out;
  }
  exprFor(v, vis) { // an expression with the given value
    const { rng } = this;
    if (vis.length && rng.chance(0.7)) {
      const c = rng.pick(vis);
      if (c.v === v) return Ref(c.name);
      if (c.v < v) return rng.chance(0.5) ? Bin('+', Ref(c.name), I(v - c.v)) : Bin('+', I(v - c.v), Ref(c.name));
      return Bin('-', Ref(c.name), I(c.v - v));
    }
    if (v > 0 && v % 2 === 0 && rng.chance(0.15)) return Bin('*', I(2), I(v / 2));
    if (rng.chance(0.1)) return Bin('+', I(v), I(0));
    if (rng.chance(0.12)) { // other operators and functions
      const k = rng.range(2, 5), lg = Math.log2(v);
      switch (rng.int(9)) {
        case 0: return Bin('/', I(v * k), I(k));
        case 1: return Bin('%', I(v + (v + k) * rng.int(3)), I(v + k));
        case 2: return v > 0 && Number.isInteger(lg) ? Bin('**', I(2), I(lg)) : Bin('**', I(v), I(1));
        case 3: return v > 0 && Number.isInteger(lg) ? Bin('<<', I(1), I(lg)) : Bin('<<', I(v), I(0));
        case 4: return Bin('>>', I(v * 4 + rng.int(4)), I(2));
        case 5: return { k: 'call', f: 'ceil', args: [v > 0 ? { k: 'float', v: `${v - 1}.5` } : I(v)] };
        case 6: return { k: 'call', f: 'floor', args: [rng.chance(0.5) ? { k: 'float', v: `${v}.25` } : I(v)] };
        case 7: return v < 20 ? { k: 'call', f: 'log2', args: [I(2 ** v)] } : v < 8 ? { k: 'call', f: 'log10', args: [I(10 ** v)] } : I(v);
        default: return { k: 'un', op: '+', x: I(v) };
      }
    }
    return I(v, rng.weighted([[6, 'dec'], [1, 'hex'], [1, 'bin']]));
  }
  // A small positive integer expression in a type body: may use parameters, whose values are 1..6.
  small(sc, max) {
    const { rng } = this;
    if (sc.params?.length && rng.chance(0.8)) {
      const p = Ref(rng.pick(sc.params));
      const o = rng.int(4);
      if (max >= 8 && o === 1) return Bin('+', p, this.exprFor(rng.range(0, 2), rng.chance(0.3) ? this.vis(sc) : []));
      if (max >= 12 && o === 2) return Bin('*', p, I(2));
      if (max >= 12 && o === 3 && sc.params.length > 1) return Bin('+', p, Ref(rng.pick(sc.params)));
      return p;
    }
    return this.exprFor(rng.range(1, max), this.vis(sc));
  }
  propsFor(kind, sc, set, inArray) {
    const { rng } = this;
    const props = [];
    const add = (name, expr) => { if (!set.has(name)) { set.add(name); props.push({ name, expr }); } };
    const bwid = this.busWidth;
    const wmax = Math.min(bwid, 12);
    switch (kind) {
      case 'config': {
        if (!set.has('width') && !set.has('range')) {
          const r = rng.float();
          if (r < 0.65) add('width', this.small(sc, wmax));
          else if (r < 0.75) add('range', rng.weighted([[1, this.small(sc, wmax)], [1, { k: 'range', a: I(rng.int(3)), b: I(rng.range(3, 200)) }], [1, { k: 'list', xs: [{ k: 'range', a: I(1), b: I(rng.range(2, 5)) }, { k: 'range', a: I(7), b: I(rng.range(8, 20)) }] }]]));
          else if (!inArray && r < 0.8) add('width', I(bwid + rng.range(1, 40)));
        }
        if (rng.chance(0.15) && !inArray) add('atomic', { k: 'bool', v: rng.chance(0.5) });
        if (rng.chance(0.15)) add('init-value', rng.chance(0.5) ? I(rng.int(2)) : { k: 'bits', t: rng.pick(['b"1"', 'b"0"']) });
        if (rng.chance(0.1)) add('reset-value', I(rng.int(2)));
        if (rng.chance(0.1)) add('read-value', I(rng.int(2)));
        break;
      }
      case 'status':
        if (!set.has('width')) { const r = rng.float(); if (r < 0.7) add('width', this.small(sc, wmax)); else if (r < 0.8) add('width', I(bwid + rng.range(1, 40))); }
        if (rng.chance(0.15) && !inArray) add('atomic', { k: 'bool', v: rng.chance(0.5) });
        if (rng.chance(0.1)) add('read-value', I(rng.int(2)));
        break;
      case 'mask':
        if (rng.chance(0.7)) add('width', this.small(sc, wmax));
        if (rng.chance(0.2)) add('init-value', I(rng.int(2)));
        if (rng.chance(0.15)) add('reset-value', I(rng.int(2)));
        if (rng.chance(0.15)) add('read-value', I(rng.int(2)));
        break;
      case 'static':
        if (rng.chance(0.8)) add('width', this.small(sc, wmax));
        if (rng.chance(0.2)) add('reset-value', I(rng.int(2)));
        if (rng.chance(0.15)) add('read-value', I(rng.int(2)));
        break;
      case 'irq':
        if (rng.chance(0.3)) { add('add-enable', { k: 'bool', v: true }); if (rng.chance(0.3)) add('enable-init-value', I(rng.int(2))); if (rng.chance(0.3)) add('enable-reset-value', I(rng.int(2))); }
        if (rng.chance(0.3)) add('clear', { k: 'str', v: rng.pick(['Explicit', 'On Read']) });
        if (rng.chance(0.3)) add('in-trigger', { k: 'str', v: rng.pick(['Edge', 'Level']) });
        if (rng.chance(0.2)) add('out-trigger', { k: 'str', v: 'Level' });
        break;
      case 'param':
        if (!set.has('width') && !set.has('range')) { if (rng.chance(0.7)) add('width', this.small(sc, wmax)); else if (rng.chance(0.5)) add('range', rng.weighted([[2, this.small(sc, wmax)], [1, { k: 'range', a: I(rng.int(3)), b: I(rng.range(3, 200)) }], [1, { k: 'list', xs: [{ k: 'range', a: I(1), b: I(rng.range(2, 5)) }, { k: 'range', a: I(7), b: I(rng.range(8, 100)) }] }]])); }
        break;
      case 'return': if (rng.chance(0.8)) add('width', this.small(sc, wmax)); break;
      case 'proc': case 'stream': if (rng.chance(0.3)) add('delay', { k: 'time', v: I(rng.range(1, 999)), unit: rng.pick(['ns', 'us', 'ms', 's']) }); break;
      case 'block':
        if (rng.chance(0.1)) add('masters', I(rng.range(1, 3)));
        if (rng.chance(0.1)) add('align', I(rng.pick([1, 2, 4, 8, 16])));
        if (rng.chance(0.1)) add('reset', { k: 'str', v: rng.pick(['Sync', 'Async']) });
        break;
      case 'group': break;
    }
    return props;
  }
  required(kind, sc, set) {
    const props = [];
    if (kind === 'static') { set.add('init-value'); props.push({ name: 'init-value', expr: I(this.rng.int(2)) }); }
    if (kind === 'blackbox') { set.add('size'); props.push({ name: 'size', expr: sc.params?.length ? this.small(sc, 12) : this.exprFor(this.rng.range(1, 40), this.vis(sc)) }); }
    return props;
  }
  innerKinds(kind) {
    return { proc: ['param', 'return'], stream: [this.rng.pick(['param', 'return'])], group: this.groupKinds() }[kind] ?? [];
  }
  groupKinds() { return this.rng.pick([['config', 'status', 'static', 'mask'], ['config'], ['status'], ['irq'], ['param'], ['return'], ['config', 'status']]); }
  isArrayable(kind) { return ['config', 'status', 'static', 'param', 'return', 'block'].includes(kind); }
  // Body of a functionality with inner functionalities.
  fillBody(node, kind, sc, n, depth, names = new Set()) {
    const { rng } = this;
    if (kind === 'block') return this.fillBlock(node, sc, n, depth, names);
    const kinds = node.innerKinds ?? this.innerKinds(kind);
    node.innerKinds = kinds;
    if (!kinds.length) return;
    const inner = this.enter(node, sc);
    if (kind === 'group' && rng.chance(0.3)) this.innerConst(node, inner, names);
    const k = Math.max(kind === 'group' ? 1 : 0, rng.range(0, 3));
    for (let i = 0; i < k; i++) {
      const ik = rng.pick(kinds);
      const x = (rng.chance(0.3) && this.typedInst(inner, [ik], names)) || this.baseInst(ik, inner, names);
      node.syms.push(x);
    }
  }
  enter(node, sc) { // scope of the inside of node
    return { ...sc, chainConsts: [...(sc.chainConsts ?? [])], types: [...(sc.types ?? [])], params: [...(sc.params ?? [])] };
  }
  innerConst(node, inner, names) {
    const { rng } = this;
    const name = this.opt.shadow && rng.chance(0.5) ? rng.pick(['A', 'B', 'N', 'K', 'WIDTH', 'L1', 'L2']) : this.fresh('L');
    // A constant is visible in the whole body, also where it has been used under another meaning already.
    if (names.has(name) || (inner.params ?? []).includes(name) || usedNames(node).has(name)) return;
    names.add(name);
    const kind = rng.weighted([[8, 'int'], [1.5, 'str'], [0.7, 'bool'], [0.7, 'float'], [1, 'list'], [0.7, 'bools'], [0.3, 'neg'], [0.3, 'frac']]);
    const usesParam = kind === 'int' && inner.params.length && rng.chance(0.5);
    let expr, v = null;
    if (kind !== 'int') expr = this.other(kind, this.vis(inner).filter((c) => c.name !== name));
    else if (usesParam) expr = this.small(inner, 20);
    else {
      v = rng.range(0, 40); // not defined by a shadowed constant of the same name
      expr = this.exprFor(v, this.vis(inner).filter((c) => c.name !== name));
    }
    if (usedNames({ expr }).has(name)) return;
    node.syms.push({ s: 'const', name, expr, doc: this.doc(0.1) });
    inner.chainConsts = [{ name, v }, ...inner.chainConsts];
    if (usesParam) { inner.params = inner.params.filter((p) => p !== name); }
  }
  fillBlock(node, sc, n, depth, names = new Set()) {
    const { rng, opt } = this;
    const inner = this.enter(node, sc);
    for (let i = rng.pick([0, 0, 1, 1, 2, 4, 7]); i > 0; i--) this.innerConst(node, inner, names);
    if (opt.params && rng.chance(0.3)) this.innerType(node, inner, names);
    const k = rng.range(Math.ceil(n / 2), n);
    for (let i = 0; i < k; i++) {
      let x = null;
      if (rng.chance(0.5)) x = this.typedInst(inner, ['config', 'status', 'static', 'mask', 'irq', 'proc', 'stream', 'group', 'block', 'blackbox'], names, depth);
      if (!x) {
        const kind = rng.weighted([[4, 'config'], [4, 'status'], [1.5, 'static'], [1, 'mask'], [1, 'irq'], [1.5, 'proc'], [1.5, 'stream'], [1, 'group'], [depth > 0 ? 2 : 0, 'block'], [0.5, 'blackbox']]);
        x = this.baseInst(kind, inner, names, depth);
      }
      node.syms.push(x);
    }
    if (rng.chance(opt.many ?? 0.015)) { // a long list of functionalities of one kind
      const kind = rng.pick(['config', 'status', 'static', 'mask', 'irq', 'irq', 'proc', 'stream']);
      for (let i = rng.pick([10, 20, 33, 64, 100, 130]); i > 0; i--) node.syms.push(rng.chance(0.7) ? { s: 'inst', name: this.iname(names), type: kind, args: [], props: this.required(kind, inner, new Set()), syms: [], oneline: true } : this.baseInst(kind, inner, names, depth));
    }
  }
  iname(names) {
    let n;
    do n = this.rng.chance(0.3) ? this.rng.pick(['c', 's', 'cfg', 'st', 'data', 'x', 'y', 'ctrl', 'A', 'N']) + this.rng.pick(['', '', '1', '2', '_a']) : this.fresh('f'); while (names?.has(n));
    names?.add(n);
    return n;
  }
  baseInst(kind, sc, names, depth = 0) {
    const { rng } = this;
    const node = { s: 'inst', name: this.iname(names), type: kind, args: [], props: [], syms: [], doc: this.doc(0.1), oneline: rng.chance(0.5) };
    const arr = this.isArrayable(kind) && rng.chance(0.25);
    if (arr) node.count = this.countExpr(sc);
    const set = new Set();
    node.props.push(...this.required(kind, sc, set), ...this.propsFor(kind, sc, set, arr));
    if (arr) this.fixArray(kind, node, sc, set);
    this.fillBody(node, kind, sc, rng.range(1, 4), depth - 1);
    return node;
  }
  countExpr(sc) { return this.small({ ...sc }, 5); }
  fixArray(kind, node, sc, set) {
    if (['config', 'static', 'status'].includes(kind)) {
      if (!set.has('width') && !set.has('range')) { set.add('width'); node.props.push({ name: 'width', expr: this.small(sc, Math.min(12, this.busWidth)) }); }
    }
  }
  // Types. A record {pkg|null, name, kind, params: [{name, hasDflt}], set, arrayOk, innerKinds, names}
  newType(sc, name, from) {
    const { rng, opt } = this;
    const node = { s: 'type', name, params: [], args: [], props: [], syms: [], doc: this.doc(0.1) };
    const np = opt.params ? rng.pick([0, 1, 1, 2, 3]) : 0;
    let dflt = rng.chance(0.4);
    const pn = rng.shuffle(['n', 'p', 'w', 'A', 'N', 'K', 'q', 'width2']);
    const psc = { ...sc, params: sc.params ? [...sc.params] : [] };
    for (let i = 0; i < np; i++) {
      const p = { name: pn[i], dflt: null };
      if (dflt || rng.chance(0.4)) { dflt = true; }
      if (dflt) {
        const prev = node.params.map((x) => x.name);
        p.dflt = prev.length && rng.chance(0.3) ? Ref(rng.pick(prev)) : this.exprFor(rng.range(1, 6), this.vis({ ...sc, params: [...(sc.params ?? []), ...pn.slice(0, np)] }).filter((c) => !pn.slice(0, np).includes(c.name)));
      }
      node.params.push(p);
    }
    const params = node.params.map((p) => p.name);
    const tsc = { ...psc, chainConsts: (sc.chainConsts ?? []).filter((c) => !params.includes(c.name)), params: [...new Set([...params, ...(sc.params ?? [])])] };
    let rec;
    if (from) {
      node.type = from.ref; node.args = this.argsFor(from, tsc);
      rec = { name, node, kind: from.kind, set: new Set(from.set), names: new Set(from.names), arrayOk: from.arrayOk, innerKinds: from.innerKinds, depth: from.depth };
    } else {
      const kind = rng.weighted([[4, 'config'], [4, 'status'], [1, 'static'], [1, 'mask'], [1, 'irq'], [2, 'proc'], [2, 'stream'], [2, 'group'], [3, 'block'], [1, 'blackbox'], [1, 'param'], [1, 'return']]);
      node.type = kind;
      rec = { name, node, kind, set: new Set(), names: new Set(), arrayOk: this.isArrayable(kind), innerKinds: null, depth: 1 };
      node.props.push(...this.required(kind, tsc, rec.set));
    }
    node.props.push(...this.propsFor(rec.kind, tsc, rec.set, rec.arrayOk));
    if (!rec.set.has('width') && !rec.set.has('range') && ['config', 'static', 'status'].includes(rec.kind)) { rec.set.add('width'); node.props.push({ name: 'width', expr: this.small(tsc, Math.min(12, this.busWidth)) }); }
    node.innerKinds = rec.innerKinds;
    if (rec.kind === 'block') { if (!from || rng.chance(0.5)) this.fillBlock(node, tsc, rng.range(1, 4), 0, rec.names); } else if (!from || rng.chance(0.4)) this.fillBody(node, rec.kind, tsc, 2, 0, rec.names);
    rec.innerKinds = node.innerKinds;
    rec.params = node.params.map((p) => ({ name: p.name, dflt: !!p.dflt }));
    rec.inner = true;
    return rec;
  }
  addType(p, f) {
    const { rng } = this;
    const names = this.pkgNames(p, 'type');
    let name = rng.pick(['T', 'U', 'Cfg', 'Stat', 'Blk', 'V']);
    if (this.opt.uniqueTypes || names.has(name)) name = this.fresh('T');
    const sc = { file: f, chainConsts: [], params: [], types: [] };
    const cands = this.visTypes(sc);
    const from = cands.length && rng.chance(0.4) ? rng.pick(cands) : null;
    const rec = this.newType(sc, name, from);
    rec.pkg = p;
    f.syms.push(rec.node);
    this.allTypes.push(rec);
  }
  innerType(node, inner, names) {
    const name = this.fresh('IT');
    const cands = this.visTypes(inner).filter((t) => t.kind !== 'block');
    const from = cands.length && this.rng.chance(0.3) ? this.rng.pick(cands) : null;
    const save = this.opt.params;
    const rec = this.newType(inner, name, from);
    this.opt.params = save;
    node.syms.push(rec.node);
    inner.types = [{ ...rec, ref: name }, ...inner.types];
  }
  visTypes(sc) {
    const out = [...(sc.types ?? [])];
    for (const t of this.allTypes) if (t.pkg === sc.file.pkg) out.push({ ...t, ref: t.name });
    for (const im of sc.file.imports) for (const t of this.allTypes) if (t.pkg === im.pkg) out.push({ ...t, ref: `${im.name}.${t.name}` });
    return out;
  }
  argsFor(t, sc) {
    const { rng } = this;
    const args = [];
    const val = () => {
      if (sc.params?.length && rng.chance(0.5)) return Ref(rng.pick(sc.params));
      return this.exprFor(rng.range(1, 6), this.vis(sc));
    };
    const ps = t.params;
    let npos = rng.range(0, ps.length);
    const req = ps.filter((p) => !p.dflt).length;
    if (rng.chance(0.5)) npos = Math.max(npos, req);
    for (let i = 0; i < npos; i++) args.push({ name: null, expr: val() });
    const rest = ps.slice(npos).filter((p) => !p.dflt || rng.chance(0.4));
    for (const p of rng.shuffle(rest)) args.push({ name: p.name, expr: val() });
    return args;
  }
  typedInst(sc, kinds, names, depth = 0) {
    const { rng } = this;
    let cands = this.visTypes(sc).filter((t) => (kinds ? kinds.includes(t.kind) : true) && !(t.kind === 'block' && depth <= 0 && kinds));
    if (!cands.length) return null;
    const t = rng.pick(cands);
    const node = { s: 'inst', name: this.iname(names), type: t.ref, args: this.argsFor(t, sc), props: [], syms: [], doc: this.doc(0.1), oneline: rng.chance(0.5) };
    if (t.arrayOk && rng.chance(0.25)) node.count = this.countExpr(sc);
    const set = new Set(t.set);
    if (rng.chance(0.4)) node.props.push(...this.propsFor(t.kind, sc, set, t.arrayOk).filter((p) => p.name !== 'atomic' || !node.count));
    node.innerKinds = t.innerKinds;
    if (t.kind !== 'group' && t.innerKinds?.length && rng.chance(0.2)) this.fillBody(node, t.kind, sc, 2, 0, new Set(t.names));
    if (t.kind === 'block' && rng.chance(0.3)) this.fillBlock(node, sc, 2, 0, new Set(t.names));
    return node;
  }
}

export const genProject = (seed, opt) => { const rng = new Rng(`gen:${seed}`); const g = new Gen(rng, opt); return g.project(); };
