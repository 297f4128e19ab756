// Injection of errors into generated projects. Each injection returns the regular expression (source) that matches the
// diagnostic of the injected error. Names contain a unique number, so that diagnostics can be attributed.
import { I, Ref, fileText } from './gen.mjs';

const esc = (s) => s.replace(/[.*+?^${}()|[\]\\]/g, '\\$&');
const fileRe = (f) => (f.name === 'bus.fbd' ? '(?:bus|lnmain)\\.fbd' : esc(f.name)); // the main file may be reached through a link
const raw = (...lines) => ({ s: 'raw', lines });

// stage: when the error can be noticed. where: 'any' file, 'pkg' (not the main file), 'bus' (inside the main bus).
export const KINDS = {
  trailingSpace: { stage: 'parse', where: 'any', go: (c) => { c.f.tail.push(`const ${c.u} = 1 `); return `extra space at line end\\s+${c.at}`; } },
  missingType: { stage: 'parse', where: 'any', go: (c) => { c.f.tail.push(`type ${c.u}`); return `unexpected [^\\n]*\\s+${c.at}`; } },
  garbage: { stage: 'parse', where: 'any', go: (c) => { c.f.tail.push(c.rng.pick([`const ${c.u} 1`, `const = ${c.u}`, `type ${c.u}( block`, `const ${c.u} = "abc`, `const ${c.u} = b"12"`])); return c.at; } },
  indent: { stage: 'parse', where: 'any', go: (c) => { c.f.tail.push(`type ${c.u} status`, '    width = 1'); return `multi indent increase[^\\n]*\\s+${c.at}`; } },
  constInFile: { stage: 'parse', where: 'any', go: (c) => { c.f.tail.push(`const ${c.u} = 1`, `const ${c.u} = 2`); return `redefinition of constant '${c.u}'[^\\n]*\\s+${c.at}`; } },
  typeInFile: { stage: 'parse', where: 'any', go: (c) => { c.f.tail.push(`type ${c.u} config`, `type ${c.u} status`); return `redefinition of type '${c.u}'[^\\n]*\\s+${c.at}`; } },
  constInPkg: { stage: 'parse', where: 'two', go: (c) => { c.f.tail.push(`const ${c.u} = 1`); c.g.tail.push(`const ${c.u} = 1`); return `redefinition of constant '${c.u}' in package '${c.p.name}'`; } },
  typeInPkg: { stage: 'parse', where: 'two', go: (c) => { c.f.tail.push(`type ${c.u} config`); c.g.tail.push(`type ${c.u} config`); return `redefinition of type '${c.u}' in package '${c.p.name}'`; } },
  instInPkg: { stage: 'parse', where: 'two', go: (c) => { c.f.tail.push(`type ${c.u} config`, `i${c.u} ${c.u}`); c.g.tail.push(`i${c.u} ${c.u}`); return `reinstantiation of 'i${c.u}' in package '${c.p.name}'`; } },
  dupImport: { stage: 'parse', where: 'any', go: (c) => { c.f.imports.push({ alias: c.u, name: c.u, path: 'fbd-zz1' }, { alias: c.u, name: c.u, path: 'fbd-zz2' }); return `${fileRe(c.f)}: line \\d+: at least two packages imported as '${c.u}'`; } },
  basePkgLevel: { stage: 'parse', where: 'any', go: (c) => { allowed(c); const k = c.rng.pick(['status', 'config', 'block', 'irq', 'proc']); c.f.tail.push(`${c.u} ${k}`); return `functionality '${c.u}' of type ${k} cannot be instantiated at package level`; } },
  busInPkg: { stage: 'parse', where: 'pkg', go: (c) => { allowed(c); c.f.tail.push(`${c.u} bus`); return `${fileRe(c.f)}:\\d+:\\d+: bus instantiation must be placed within 'main' package`; } },
  propTwice: { stage: 'parse', where: 'any', go: (c) => { c.f.tail.push(`type ${c.u} status`, '  width = 1', '  width = 1'); return `reassignment to 'width' property\\s+${c.at}`; } },
  argTwice: { stage: 'parse', where: 'any', go: (c) => { c.f.tail.push(`type ${c.u} t${c.u}(a = 1, a = 2)`); return `reassignment to 'a' argument\\s+${c.at}`; } },
  paramTwice: { stage: 'parse', where: 'any', go: (c) => { c.f.tail.push(`type ${c.u}(a, a) status`); return `redeclaration of 'a' parameter\\s+${c.at}`; } },
  paramOrder: { stage: 'parse', where: 'any', go: (c) => { c.f.tail.push(`type ${c.u}(a = 1, b) status`); return `parameters without default value must precede[^\\n]*\\s+${c.at}`; } },
  noImport: { stage: 'bind', where: 'any', go: (c) => { c.f.imports.push({ alias: c.u, name: c.u, path: `fbd-${c.u}` }); return `${fileRe(c.f)}: cannot find package "fbd-${c.u}"`; } },
  ambiguousImport: { stage: 'bind', where: 'imp', go: (c) => { const q = c.im.pkg; c.P.pkgs.push({ name: q.name, dir: q.dir, at: `/w/amb${c.u}/${q.dir}`, fixed: true, files: [{ name: 'z.fbd', imports: [], syms: [], tail: ['const A = 1'] }] }); return `packages match path`; } },
  unqualified: { stage: 'ins', where: 'imp', go: (c) => { c.f.imports.forEach((im, i) => { if (im.pkg?.files[0] && !im.pkg.files.includes(c.f)) im.pkg.files[0].tail.push(`const ${c.u}i = ${i + 1}`); }); c.f.tail.push(`const ${c.u} = ${c.u}i + 1`); return `${c.u}i`; } },
  unqualifiedType: { stage: 'ins', where: 'impMain', go: (c) => { c.f.imports.forEach((im, i) => { if (im.pkg?.files[0] && !im.pkg.files.includes(c.f)) im.pkg.files[0].tail.push(`type ${c.u} status; width = ${i + 1}`); }); c.bus.syms.push(raw(`i${c.u} ${c.u}`)); return c.u; } },
  constCycle: { stage: 'ins', where: 'any', go: (c) => { c.f.tail.push(`const ${c.u} = Z${c.u} + 1`, `const Z${c.u} = ${c.u}`); return `constant 'Z?${c.u}'`; } },
  constUnknown: { stage: 'ins', where: 'any', go: (c) => { c.f.tail.push(`const ${c.u} = Z${c.u} + 1`); return `Z${c.u}`; } },
  constNotImported: { stage: 'ins', where: 'any', go: (c) => { c.f.tail.push(`const ${c.u} = z${c.u.toLowerCase()}.A + 1`); return `z${c.u.toLowerCase()}`; } },
  unknownType: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} T${c.u}`)); return `T${c.u}`; } },
  typeNotImported: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} z${c.u.toLowerCase()}.T`)); return `z${c.u.toLowerCase()}`; } },
  typeNotInPkg: { stage: 'ins', where: 'import', go: (c) => { c.bus.syms.push(raw(`i${c.u} ${c.im.name}.T${c.u}`)); return `T${c.u}`; } },
  invalidProp: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} status`, '  masters = 2')); return `masters`; } },
  negWidth: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} status`, '  width = -3')); return `width property must be natural, current value \\(?-3|width property must[^\\n]*-3`; } },
  propType: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} status`, '  width = "a"')); return `width property must be of type integer, current type string`; } },
  missingArg: { stage: 'ins', where: 'bus', go: (c) => { c.f.tail.push(`type ${c.u}(pa, pb) status`, '  width = pa + pb'); c.bus.syms.push(raw(`i${c.u} ${c.f === c.mf ? '' : c.alias}${c.u}(1)`)); return `pb`; } },
  unknownArg: { stage: 'ins', where: 'bus', go: (c) => { c.f.tail.push(`type ${c.u}(pa = 1) status`, '  width = pa'); c.bus.syms.push(raw(`i${c.u} ${c.u}(z${c.u} = 1)`)); return `z${c.u}`; } },
  manyArgs: { stage: 'ins', where: 'bus', go: (c) => { c.f.tail.push(`type ${c.u}(pa = 1) status`, '  width = pa'); c.bus.syms.push(raw(`i${c.u} ${c.u}(1, 2)`)); return `argument|parameter`; } },
  typeCycle: { stage: 'ins', where: 'bus', go: (c) => { c.f.tail.push(`type ${c.u} Z${c.u}`, `type Z${c.u} ${c.u}`); c.bus.syms.push(raw(`i${c.u} ${c.u}`)); return `${c.u}`; } },
  negArray: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} [-2] status`, '  width = 1')); return `i${c.u}`; } },
  divZero: { stage: 'ins', where: 'any', go: (c) => { c.f.tail.push(`const ${c.u} = 7 ${c.rng.pick(['/', '%'])} 0`); return `const '${c.u}': [^\\n]*division by zero`; } },
  badLog: { stage: 'ins', where: 'any', go: (c) => { const f = c.rng.pick(['log2', 'log10']); c.f.tail.push(`const ${c.u} = ${f}(${c.rng.pick(['0', '-1', '1 - 1'])})`); return `const '${c.u}': cannot evaluate ${f}`; } },
  badCall: { stage: 'ins', where: 'any', go: (c) => { const f = c.rng.pick(['log2', 'log10', 'ceil', 'floor']); c.f.tail.push(`const ${c.u} = ${f}(${c.rng.pick(['"a"', 'true'])})`); return `const '${c.u}': cannot evaluate ${f}`; } },
  unknownFunc: { stage: 'parse', where: 'any', go: (c) => { c.f.tail.push(`const ${c.u} = fn${c.u.toLowerCase()}(1)`); return `unknown function 'fn${c.u.toLowerCase()}'`; } },
  badShift: { stage: 'ins', where: 'any', go: (c) => { c.f.tail.push(`const ${c.u} = 1 ${c.rng.pick(['<<', '>>'])} -1`); return `const '${c.u}': [^\\n]*negative value of (left|right) shift`; } },
  badOperand: { stage: 'ins', where: 'any', go: (c) => { c.f.tail.push(`const ${c.u} = ${c.rng.pick(['1 + "a"', 'true + 1', '"a" * 2', '-"a"'])}`); return `const '${c.u}': `; } },
  badList: { stage: 'ins', where: 'any', go: (c) => { c.f.tail.push(`const ${c.u} = ${c.rng.pick(['[]', '[1, true]', '[true, "a"]', '["a"]', '[1.5]'])}`); return `constant '${c.u}' is `; } },
  badConst: { stage: 'ins', where: 'any', go: (c) => { c.f.tail.push(`const ${c.u} = ${c.rng.pick(['1:2', '5 ns', 'b"1"'])}`); return `constant '${c.u}' is `; } },
  widthAndRange: { stage: 'parse', where: 'bus', go: (c) => { const ps = c.rng.shuffle(['width = 4', 'range = 7']); c.bus.syms.push(raw(`i${c.u} config`, ...ps.map((p) => '  ' + p))); const n = (s) => s.split(' ')[0]; return `cannot set '${n(ps[1])}' property, because '${n(ps[0])}' property is already set in line \\d{1,4} column \\d{1,3}\\n`; } },
  ancestorProp: { stage: 'ins', where: 'bus', go: (c) => { c.f.tail.push(`type T${c.u} status`, '  width = 3'); c.bus.syms.push(raw(`i${c.u} T${c.u}`, '  width = 4')); return `cannot set 'width' property`; } },
  ancestorConst: { stage: 'ins', where: 'bus', go: (c) => { const v = c.rng.pick(['1', '1.5', '"a"', 'true', '[1]', '[true]']); c.f.tail.push(`type T${c.u} block`, `  const ${c.u} = ${v}`); c.bus.syms.push(raw(`i${c.u} T${c.u}`, `  const ${c.u} = ${v}`)); return `const '${c.u}' is already defined`; } },
  bigValue: { stage: 'ins', where: 'bus', go: (c) => { const p = c.rng.pick(['init-value', 'reset-value', 'read-value']); c.bus.syms.push(raw(`i${c.u} config`, '  width = 2', `  ${p} = ${c.rng.pick(['4', 'b"101"', 'x"f"', 'o"77"'])}`)); return `'${p}': `; } },
  badTrigger: { stage: 'ins', where: 'bus', go: (c) => { const p = c.rng.pick(['in-trigger', 'out-trigger', 'clear']); c.bus.syms.push(raw(`i${c.u} irq`, `  ${p} = "z"`)); return `${p} property must be `; } },
  irqEnable: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} irq`, '  enable-init-value = 1')); return `'enable-init-value' set but 'add-enable' is false`; } },
  badAlign: { stage: 'ins', where: 'bus', go: (c) => { const v = c.rng.pick(['3', '0', '-4']); c.bus.syms.push(raw(`i${c.u} block`, `  align = ${v}`)); return `align property[^\\n]*${v}`; } },
  badRange: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} config`, `  range = ${c.rng.pick(['5:2', '-1:2', '[1, 2]', '[]', '-5', '"a"'])}`)); return `range`; } },
  badDelay: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} ${c.rng.pick(['proc', 'stream'])}`, '  delay = 1')); return `delay property must be of type time`; } },
  badInner: { stage: 'ins', where: 'bus', go: (c) => { const k = c.rng.pick(['param', 'return']); c.bus.syms.push(raw(`i${c.u} ${k}`)); return `'i${c.u}' of base type '${k}' cannot be instantiated`; } },
  arrayType: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} [${c.rng.pick(['1.5', '"a"', 'true'])}] status`)); return `size of array must be of 'integer' type`; } },
  blackboxSize: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} blackbox`)); return `'i${c.u}' of type 'blackbox' must have 'size'`; } },
  staticInit: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} static`)); return `'i${c.u}' static functionality must have init-value`; } },
  emptyGroup: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} group`)); return `group 'i${c.u}' is empty`; } },
  paramAndReturn: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} stream`, '  p param', '  r return')); return `i${c.u}|stream`; } },
  reinstInner: { stage: 'parse', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} status`, `i${c.u} config`)); return `reinstantiation of 'i${c.u}'`; } },
  groupMix: { stage: 'ins', where: 'bus', go: (c) => { const [a, b] = c.rng.sample([['config', 'irq'], ['config', 'param'], ['irq', 'config'], ['param', 'return'], ['return', 'param'], ['irq', 'status'], ['mask', 'irq'], ['status', 'return'], ['static', 'irq']], 1)[0]; const iv = (k) => (k === 'static' ? '; init-value = 1' : ''); c.bus.syms.push(raw(`i${c.u} group`, `  a ${a}${iv(a)}`, `  b ${b}${iv(b)}`)); return `cannot add ${b} 'b' to group 'i${c.u}', group already has ${a} 'a'`; } },
  groupTrigger: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} group`, '  a irq; out-trigger = "Edge"', '  b irq')); return `mismatched output trigger within irq group 'i${c.u}'`; } },
  innerKind: { stage: 'ins', where: 'bus', go: (c) => { const [a, b] = c.rng.pick([['proc', 'config'], ['stream', 'status'], ['group', 'proc'], ['group', 'block'], ['proc', 'irq']]); c.bus.syms.push(raw(`i${c.u} ${a}`, `  a${c.u} ${b}`)); return `'a${c.u}' of base type '${b}' cannot be instantiated in functionality of base type '${a}'`; } },
  ancestorInst: { stage: 'ins', where: 'bus', go: (c) => { const [a, b] = c.rng.pick([['proc', 'param'], ['stream', 'return'], ['group', 'config'], ['block', 'status']]); c.f.tail.push(`type T${c.u} ${a}`, `  i${c.u} ${b}`); c.bus.syms.push(raw(`j${c.u} T${c.u}`, `  i${c.u} ${b}`)); return `cannot instantiate 'i${c.u}', functionality with such name is already instantiated`; } },
  badMasters: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} block`, c.rng.pick(['  masters = 0', '  masters = -1']))); return `masters property must be positive`; } },
  badReset: { stage: 'ins', where: 'bus', go: (c) => { c.bus.syms.push(raw(`i${c.u} block`, '  reset = "z"')); return `reset property must be`; } },
  noMainBus: { stage: 'ins', where: 'none', go: (c) => { c.P.argMain = 'no' + c.u; return `instantiation 'no${c.u}' not found in package 'main'`; } },
};

let uniq = 0;
// Injects n errors into the project and returns [{kind, stage, re}].
// Files of the package get instantiations that are allowed.
const allowed = (c) => { if (c.rng.chance(0.5)) c.p.files.forEach((f, i) => { if (f.bare === undefined && c.rng.chance(0.7)) f.tail.push(`type Al${c.u}${i} config`, `al${c.u}${i} Al${c.u}${i}`); }); };
export function injectErrors(rng, P, n, kinds = Object.keys(KINDS)) {
  const out = [];
  const mf = P.main.files[0];
  const bus = mf.syms.find((s) => s.s === 'inst' && s.name === P.mainName);
  uniq = 0;
  for (let tries = 0; out.length < n && tries < 50; tries++) {
    const name = rng.pick(kinds), k = KINDS[name];
    const c = { rng, P, mf, bus, f: mf, u: `Er${rng.int(9)}q${uniq++}`, p: P.main };
    if (k.where === 'pkg' || (k.where === 'any' && P.pkgs.length && rng.chance(0.8))) {
      if (!P.pkgs.length) continue;
      c.p = rng.pick(P.pkgs); c.f = rng.pick(c.p.files);
    } else if (k.where === 'two') {
      const ps = P.pkgs.filter((p) => p.files.length > 1); if (!ps.length) continue;
      c.p = rng.pick(ps); [c.f, c.g] = rng.sample(c.p.files, 2);
    } else if (k.where === 'imp' || k.where === 'impMain') { // a file with imports
      const fs = [...P.pkgs, P.main].flatMap((p) => p.files).filter((f) => (k.where === 'imp' || f === mf) && f.imports.some((im) => im.pkg && !im.pkg.files.includes(f)));
      if (!fs.length) continue;
      c.f = rng.pick(fs); c.im = rng.pick(c.f.imports.filter((im) => im.pkg && !im.pkg.files.includes(c.f)));
    } else if (k.where === 'import') {
      if (!mf.imports.length) continue;
      c.im = rng.pick(mf.imports);
    }
    c.at = `[^\\n]*${fileRe(c.f)} \\+\\d+`;
    const re = k.go(c);
    out.push({ kind: name, stage: k.stage, re });
  }
  // Around the errors there are declarations without any.
  if (rng.chance(0.3)) for (const f of [...P.pkgs, P.main].flatMap((p) => p.files)) if (f.bare === undefined && rng.chance(0.5)) {
    const u = `Ok${uniq++}`, ls = rng.pick([[`type ${u} config`, `i${u} ${u}`], [`const K${u} = 1`], [`type ${u} block`]]);
    if (rng.chance(0.5)) f.tail.push(...ls); else f.tail.unshift(...ls);
  }
  return out;
}
