// Placement of a project in a simulated file system.
import { fileText, ODD } from './gen.mjs';

const CWD = '/w';

// Writes all files of the project into tree; packages keep the directory chosen in p.at (default: working directory).
export function putFiles(P, tree, cwd = CWD) {
  for (const p of P.pkgs) {
    p.at ??= `${cwd}/${p.dir}`;
    for (const f of p.files) { f.path = `${p.at}/${f.name}`; tree[f.path] = { t: 'f', d: fileText(f) }; }
  }
  for (const m of P.mains) {
    const f = m.files[0];
    f.path = `${m.at ?? cwd}/${f.name}`;
    tree[f.path] = { t: 'f', d: fileText(f) };
  }
  return tree;
}

// Simple placement: packages beside the main file.
export function plain(P) {
  const tree = { [CWD]: { t: 'd' } };
  putFiles(P, tree);
  return { cwd: CWD, tree, env: { PWD: CWD }, mainPath: P.main.files[0].name };
}

const JUNK = ['readme.md', 'x.fb', 'fbd', 'a.fbd.bak', 'Makefile', '.fbdrc', 'z', 'bus.json', 'a.FBD', 'fbd.x', '.x'];
const BROKEN = 'this is not FBDL )(\n';

// Adds an entry unless its place is taken or lies below something that is not a directory.
export function addEntry(tree, p, e) {
  if (tree[p]) return false;
  const cs = p.split('/');
  for (let i = 2; i < cs.length; i++) { const q = tree[cs.slice(0, i).join('/')]; if (q && q.t !== 'd') return false; }
  if (e.t !== 'd') for (const q of Object.keys(tree)) if (q.startsWith(p + '/')) return false;
  tree[p] = e;
  return true;
}

// Elaborate placement: nested directories, FBDPATH entries, several devices, links, decoys. The set of packages that must be
// found is exactly P.pkgs.
export function world(rng, P, o = {}) {
  const tree = { [CWD]: { t: 'd' } };
  const feats = [];
  const add = (p, e) => addEntry(tree, p, e);
  const on = (p, name) => { if (rng.chance(p)) { feats.push(name); return true; } return false; };
  const roots = [CWD];
  const fbdpath = [];
  if (on(0.6, 'fbdpath')) {
    const n = rng.range(1, 3);
    for (let i = 0; i < n; i++) {
      const odd = on(0.15, 'odd name');
      const d = odd ? rng.pick(['/opt/', '/mnt/', '/']) + rng.pick(ODD)(`${rng.pick(['l', 'k'])}${i}`) : rng.pick(['/opt/lib', '/opt/fbdl', '/mnt/a', '/mnt/b', '/srv', '/home/u/pk']) + i;
      add(d, on(0.5, 'device') ? { t: 'd', dev: 10 + i } : { t: 'd' });
      roots.push(d);
      // Spellings of a search path.
      const rel = '../' + d.slice(1);
      const form = rng.weighted([[6, d], [1, d + '/'], [0.7, d + '/.'], [0.7, '//' + d.slice(1)], [1, rel], [0.5, './' + rel + '/'], [o.noLinks ? 0 : 1.5, null]]);
      if (form !== null) { if (form !== d) feats.push('spelling of a search path'); fbdpath.push(form); continue; }
      const ln = rng.pick([`/lnk/sp${i}`, `/lnk/fbd-sp${i}`]);
      if (add(ln, { t: 'l', d: rng.chance(0.5) ? d : '..' + d })) { feats.push('linked search path'); fbdpath.push(ln); } else fbdpath.push(d);
    }
  }
  const dirNames = ['a', 'sub', 'rtl', '.hidden', 'v1.0', 'lib', 'fbd', 'x y', 'fbdl-x', 'deep', 'debug'];
  const subdirs = [...roots];
  for (let i = rng.int(4); i > 0; i--) {
    const d = `${rng.pick(subdirs)}/${on(0.1, 'odd name') ? rng.pick(ODD)(rng.pick(['a', 'sub'])) : rng.pick(dirNames)}${rng.pick(['', '', '2'])}`;
    if (add(d, { t: 'd', ...(rng.chance(0.2) ? { dev: 20 + i } : {}) })) { subdirs.push(d); feats.push('nested'); }
  }
  if (on(0.05, 'deep directories')) { // a long chain of directories
    let d = rng.pick(subdirs); const n = rng.pick([8, 15, 40, 120]);
    for (let i = 0; i < n; i++) d += '/' + rng.pick(['d', 'e']);
    if (add(d, { t: 'd' })) subdirs.push(d, d, d, d, d);
  }
  // Outside of every search directory: reachable through links only.
  const outside = ['/ext', '/ext/deep/er', '/data'];
  let nl = 0;
  const placed = [];
  for (const p of rng.shuffle(P.pkgs)) {
    if (p.fixed) { add(p.at, { t: 'd' }); placed.push(p); continue; }
    const r = rng.float();
    p.at = null;
    if (r < 0.25 && !o.noLinks) {
      const at = `${rng.pick(outside)}/${p.dir}`;
      const ln = `${rng.pick(subdirs)}/${rng.pick(['ln', 'link', p.dir, 'current'])}${rng.chance(0.5) ? '' : nl}`;
      const target = rng.chance(0.3) ? `${'../'.repeat(ln.split('/').length - 2)}${at.slice(1)}` : at;
      if (!tree[at] && add(ln, { t: 'l', d: target })) {
        add(at, { t: 'd' }); p.at = at; nl++; feats.push('linked package');
        if (on(0.3, 'linked twice')) add(`${rng.pick(subdirs)}/again${nl}`, { t: 'l', d: rng.chance(0.5) ? ln : at });
      }
    } else if (r < 0.35) {
      const hosts = placed.filter((q) => q.direct);
      if (hosts.length) { const at = `${rng.pick(hosts).at}/${p.dir}`; if (add(at, { t: 'd' })) { p.at = at; feats.push('package within package'); } }
    } else if (r < 0.42 && !o.noLinks) { // a link to an outside directory that holds the package
      const base = `/ext/tree${nl}`;
      const at = `${base}/${rng.pick(['', 'q/'])}${p.dir}`;
      if (add(`${rng.pick(subdirs)}/tree${nl}`, { t: 'l', d: base })) { add(at, { t: 'd' }); p.at = at; nl++; feats.push('linked directory'); }
    }
    else if (r < 0.48) { // a package which is a search path
      const at = `/solo/${p.dir}`;
      if (add(at, { t: 'd' })) {
        p.at = at; feats.push('search path is a package');
        const ln = `/lnk/solo${nl++}`;
        fbdpath.push(!o.noLinks && rng.chance(0.5) && add(ln, { t: 'l', d: at }) ? ln : rng.pick([at, at + '/', at + '/.', '..' + at]));
        if (!o.noOverlap && rng.chance(0.3)) fbdpath.splice(rng.int(fbdpath.length + 1), 0, '/solo');
      }
    }
    if (!p.at) {
      for (const d of [rng.pick(subdirs), CWD]) if (add(`${d}/${p.dir}`, { t: 'd' })) { p.at = `${d}/${p.dir}`; p.direct = true; break; }
      if (!p.at) throw new Error(`no place for package ${p.dir}`);
    }
    placed.push(p);
  }
  const tb = `${CWD}/${rng.pick(['tb', 'debug'])}`;
  if (rng.chance(0.2) && !o.mainAtCwd && (tree[tb]?.t === 'd' || add(tb, { t: 'd' }))) P.mains.forEach((m) => { m.at = tb; });
  else if (rng.chance(0.05) && !o.mainAtCwd) { P.mains.forEach((m) => { m.at = '/ext/main'; }); feats.push('main file elsewhere'); }
  putFiles(P, tree);
  // .fbd files that are links to files elsewhere
  if (!o.noLinks) for (const p of P.pkgs) for (const f of p.files) if (rng.chance(0.08)) { const real = `/ext/files/${p.name}_${f.name}`; tree[real] = tree[f.path]; tree[f.path] = { t: 'l', d: real }; f.real = real; feats.push('linked file'); }
  // Decoys.
  const anyDir = () => rng.pick([...subdirs, ...P.pkgs.map((p) => p.at)]);
  for (let i = rng.int(5); i > 0; i--) add(`${anyDir()}/${rng.pick(JUNK)}`, { t: 'f', d: BROKEN });
  if (on(0.2, 'no source')) { add(`${rng.pick(subdirs)}/fbd-nosrc`, { t: 'd' }); add(`${CWD}/fbd-junk/${rng.pick(JUNK)}`, { t: 'f', d: BROKEN }); }
  if (on(0.1, 'no source but a directory named .fbd')) {
    const d = `${rng.pick(subdirs)}/fbd-nosrc2`;
    add(d, { t: 'd' });
    if (rng.chance(0.6) || o.noLinks) add(`${d}/src.fbd`, { t: 'd' }); else add(`${d}/src.fbd`, { t: 'l', d: rng.pick(['/ext/none1/dir', '/nowhere.fbd', 'src.fbd']) });
    if (!o.noLinks) add('/ext/none1/dir', { t: 'd' });
    if (rng.chance(0.3)) add(`${d}/src.fbd/readme.fbd`, { t: 'f', d: BROKEN });
  }
  if (on(0.2, 'not a package')) add(`${rng.pick(subdirs)}/${rng.pick(['xfbd-p', 'fbd_p', 'Fbd-p', 'fbdp', 'pkg'])}/a.fbd`, { t: 'f', d: BROKEN });
  if (on(0.15, 'subdirectory of package') && P.pkgs.length) add(`${rng.pick(P.pkgs).at}/${rng.pick(['sub1', 'old'])}/a.fbd`, { t: 'f', d: BROKEN });
  if (on(0.1, 'directory named .fbd') && P.pkgs.length) {
    if (rng.chance(0.5) || o.noLinks) add(`${rng.pick(P.pkgs).at}/dir.fbd`, { t: 'd' });
    else { add('/ext/none2/dir', { t: 'd' }); add(`${rng.pick(P.pkgs).at}/dir.fbd`, { t: 'l', d: '/ext/none2/dir' }); }
  }
  if (on(0.04, 'many entries')) { // a directory with a long listing
    const d = anyDir(), n = rng.pick([70, 150, 300, 600]);
    for (let i = 0; i < n; i++) add(`${d}/${rng.pick(['a', 'e', 'g', 'z'])}${i}.txt`, { t: 'f', d: '' });
  }
  const mfile = P.main.files[0].path;
  if (!o.noLinks) {
    if (on(0.2, 'dangling link')) add(`${anyDir()}/dangling`, { t: 'l', d: rng.pick(['/nowhere', 'gone/x', '../missing', '/ext/none/fbd-none']) });
    if (on(0.15, 'self link')) { const d = anyDir(); add(`${d}/selfl`, { t: 'l', d: 'selfl' }); }
    if (on(0.1, 'link loop')) { const d = anyDir(); add(`${d}/l1`, { t: 'l', d: 'l2' }); add(`${d}/l2`, { t: 'l', d: 'l1' }); }
    if (on(0.2, 'directory cycle')) add(`${anyDir()}/up`, { t: 'l', d: rng.pick(['.', '..', CWD, '../..']) });
    if (on(0.1, 'link through file')) add(`${anyDir()}/notdir`, { t: 'l', d: `${mfile}/x` });
    if (on(0.15, 'second mount') && P.pkgs.length) {
      const p = rng.pick(P.pkgs), ds = subdirs.filter((s) => !s.startsWith(p.at));
      add(`${rng.pick(ds)}/mnt/${p.dir}`, { t: 'b', d: p.at });
    }
    if (on(0.1, 'link to main file')) add(`${CWD}/mainlink`, { t: 'l', d: mfile });
  }
  if (!o.noLinks && on(0.12, 'link named as a package')) { // the name of the directory counts
    add('/ext/none0/plain/a.fbd', { t: 'f', d: BROKEN });
    if (rng.chance(0.5)) add(`${rng.pick(subdirs)}/fbd-zz`, { t: 'l', d: '/ext/none0/plain' });
    else { add('/lnk/fbd-zz', { t: 'l', d: '/ext/none0/plain' }); fbdpath.splice(rng.int(fbdpath.length + 1), 0, '/lnk/fbd-zz'); }
  }
  const env = { PWD: CWD };
  if (on(0.25, 'missing search path')) fbdpath.splice(rng.int(fbdpath.length + 1), 0, rng.pick(['/missing', 'nope/x', `${mfile}/x`]));
  if (!o.noOverlap && fbdpath.length && on(0.25, 'overlapping search path')) fbdpath.splice(rng.int(fbdpath.length + 1), 0, rng.pick([CWD, fbdpath[0], '.', rng.pick(subdirs)]));
  if (!o.noOverlap && rng.chance(0.1) && P.pkgs.length) { fbdpath.push(rng.pick(P.pkgs).at); feats.push('package as search path'); }
  if (fbdpath.length) env.FBDPATH = fbdpath.join(':');
  const rel = mfile.startsWith(CWD + '/') ? mfile.slice(CWD.length + 1) : '..' + mfile;
  let mainPath = rng.weighted([[3, rel], [1, mfile], [1, './' + rel]]);
  if (!o.noLinks && !o.mainAtCwd && on(0.05, 'main file is a link') && add(`${CWD}/lnmain.fbd`, { t: 'l', d: mfile })) mainPath = 'lnmain.fbd';
  return { cwd: CWD, tree, env, mainPath, feats };
}

export function randomLayout(rng) {
  return {
    seed: rng.u32(), order: rng.pick(['name', 'reverse', 'random', 'random']), ino: rng.pick(['seq', 'random', 'small', 'big']),
    mtime: rng.pick(['fixed', 'random', 'epoch', 'future']), noDtype: rng.chance(0.25),
    links: rng.pick(['one', 'posix', 'posix', 'hard']), dirSize: rng.pick([4096, 4096, 0, 'entries']),
  };
}
