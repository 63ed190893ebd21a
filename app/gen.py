#!/usr/bin/env python3
"""Generates gen/sc (the library), gen/app (the application) and gen/appfull (the same with its sweep counts as they
are) from /repo's working tree: the same sources with
`std` replaced by the controlled `vstd`, recording hooks at the entry of the chain operations, and the hard-coded
sweep counts scaled down (except in appfull). Anything not recognised is left as it is."""
import json, os, re, shutil, sys

REPO = sys.argv[1] if len(sys.argv) > 1 else '/repo'
HERE = os.path.dirname(os.path.abspath(__file__))
GEN = os.path.join(HERE, 'gen')
notes = []


def strip_tests(s):
    """drop `#[cfg(test)] mod x { ... }` (not compiled anyway, but keeps the rewriting away from it)"""
    m = re.search(r'#\[cfg\(test\)\]\s*mod\s+\w+\s*\{', s)
    if not m:
        return s
    i = m.end()
    d = 1
    while i < len(s) and d:
        d += (s[i] == '{') - (s[i] == '}')
        i += 1
    return s[:m.start()] + s[i:]


def common(s):
    s = re.sub(r'(?<![\w:])(?:::)?std::', '::vstd::', s)
    s = re.sub(r'\buse\s+(?:::)?std\s*;', 'use ::vstd as std;', s)
    s = re.sub(r'(?<![\w:])println!', '::vhook::vprintln!', s)
    s = re.sub(r'(?<![\w:])print!', '::vhook::vprint!', s)
    s = re.sub(r'(?<![\w:])eprint(?:ln)?!', '::vhook::veprint!', s)
    return s


def sweeps(s, top=float('inf')):
    """hard-coded sweep counts of 1e4 and more are divided by 1e4 (at least 10 sweeps stay)"""
    def f(m):
        v = float(m.group(1).replace('_', ''))
        return '%de0' % max(10, v / 1e4) + m.group(2) if top >= v >= 1e4 else m.group(0)
    def i(m):
        v = int(m.group(1).replace('_', ''))
        return str(max(10, v // 10000)) + m.group(2) if top >= v >= 10000 else m.group(0)
    pre = r'(?<!\w)(?<![^.]\.)'
    s = re.sub(pre + r'(\d[\d_]*(?:\.\d+)?[eE]\+?\d+)(_?f64|_?f32)?\b', lambda m: f2(m, f), s)
    return re.sub(pre + r'(\d[\d_]*)((?:_?(?:usize|isize|u64|i64|u32|i32|u128))?)\b(?!\.\d)', i, s)


def f2(m, f):
    class M:
        def group(self, k):
            return m.group(k) or ''
    return f(M())


SIG = r'((?:#\[[^\]]*\]\s*)*)pub(?:\([a-z]+\))?\s+fn\s+'


def snap(struct_src, lang):
    def has(f):
        return re.search(r'\b%s\s*:' % f, struct_src) is not None
    g = 'self.gamma as f64' if has('gamma') else '0.0'
    j = 'self.j_couple.clone()' if has('j_couple') else 'vec![]'
    h = 'self.static_h.clone()' if has('static_h') else 'vec![]'
    return ('::vhook::Snap { lang: %s, t: self.t, tau: self.vars.tau, dt: self.vars.dt, tt: self.vars.t, '
            'beta: self.vars.beta, gamma: %s, e: self.vars.e, hsize: self.vars.hsize as usize, '
            'ssize: self.vars.ssize as usize, strob: self.vars.strob, trel: self.vars.trel, '
            'hs: self.vars.hs.clone(), drive: format!("{:?}", self.vars.drive), file: self.vars.file.clone(), '
            'spins: self.spins.iter().map(|s| s.dir).collect(), j: %s, h: %s }'
            % ('true' if lang else 'false', g, j, h))


def hook_engine(s, name):
    m = re.search(r'pub struct %s\b[^{]*\{(.*?)\n\}' % name, s, re.S)
    if not m:
        notes.append('no struct ' + name)
        return s
    sn = snap(m.group(1), 'Langevin' in name)
    found = []

    def mc(m):
        f = m.group(1)
        found.append(f)
        return ('pub fn %s(&mut self) { if ::vhook::mc_skip() { return; } let d = ::vhook::deep(); '
                'self.vreal_%s(); if d.outer() { ::vhook::mc_done("%s", || %s); } }\n    #[inline] fn vreal_%s(&mut self) {'
                % (f, f, f, sn, f))

    def up(m):
        f = m.group(1)
        found.append(f)
        return ('pub fn %s(&mut self) { ::vhook::upd_before(self.spins.iter().map(|s| s.dir), || %s); let d = ::vhook::deep(); self.vreal_%s(); '
                'if d.outer() { ::vhook::upd_done("%s", self.t, self.spins.iter().map(|s| s.dir).collect()); } }\n'
                '    #[inline] fn vreal_%s(&mut self) {' % (f, sn, f, f, f))

    s = re.sub(r'pub fn (metropolis_update\w*)\s*\(\s*&mut self\s*,?\s*\)\s*(?:->\s*\(\)\s*)?\{', mc, s)
    s = re.sub(r'pub fn (update|update_no_field)\s*\(\s*&mut self\s*,?\s*\)\s*(?:->\s*\(\)\s*)?\{', up, s)

    def obs(m):
        f = m.group(1)
        if f.startswith('vreal_'):
            return m.group(0)
        out = m.group(0) + ' ::vhook::touch();'
        ret = re.sub(r'\s+', '', m.group(2) or '')
        if f in ('mc_system_energy', 'mc_total_energy', 'mc_system_energy_rot', 'mc_system_energy_maglab') and ret == '->f64':
            found.append(f)
            out += ' if let Some(v) = ::vhook::ov_e("%s", self.vars.beta, self.vars.tau) { return v; }' % f
        if f == 'total_energy2' and ret == '->f64':
            out += ' if let Some(v) = ::vhook::ov_hist_e(self.vars.ednsty) { return v; }'
        if f == 'm_tot' and ret == '->[f64;3]':
            out += ' if let Some(v) = ::vhook::ov_hist_m(self.vars.hsize as f64) { return v; }'
        if f == 'm' and ret == '->[f64;3]':
            found.append(f)
            out += ' if let Some(v) = ::vhook::ov_m(self.vars.beta, self.vars.ssize as f64) { return v; }'
        return out
    s = re.sub(r'pub fn (\w+)\s*\(\s*&self\s*,?\s*\)\s*(->\s*[^{]*?)?\s*\{', obs, s)
    s = re.sub(r'(pub fn new\s*\([^)]*\)\s*->\s*(?:%s|Self)\s*\{)' % name, r'\1 ::vhook::fresh();', s)
    notes.append('%s: %s' % (name, ' '.join(found)))
    return s


def put(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == s:
            return
    except OSError:
        pass
    open(path, 'w').write(s)


def main():
    src = os.path.join(REPO, 'src')
    shutil.rmtree(GEN, ignore_errors=True)
    files = {}
    for root, _, names in os.walk(src):
        for n in names:
            p = os.path.join(root, n)
            files[os.path.relpath(p, src)] = p
    # which files belong to the binary: main.rs and whatever it declares with `mod`, transitively
    def mods(f):
        s = strip_tests(open(files[f]).read())
        base = os.path.dirname(f)
        stem = os.path.splitext(os.path.basename(f))[0]
        sub = base if stem in ('main', 'lib', 'mod') else os.path.join(base, stem)
        out = []
        for m in re.findall(r'^\s*(?:pub(?:\([a-z]+\))?\s+)?mod\s+(\w+)\s*;', s, re.M):
            for c in (os.path.join(sub, m + '.rs'), os.path.join(sub, m, 'mod.rs')):
                if c in files:
                    out.append(c)
        return out
    def closure(root):
        seen = [root]
        for f in seen:
            for c in mods(f):
                if c not in seen:
                    seen.append(c)
        return seen
    lib = closure('lib.rs')
    app = closure('main.rs')
    # sweep counts may live in the library, too; then appfull gets a copy of it which keeps them
    texts = {}
    for f, p in files.items():
        if f in lib and f.endswith('.rs'):
            s = common(strip_tests(open(p).read()))
            for name in re.findall(r'pub struct (SpinChain\w*)\b', s):
                s = hook_engine(s, name)
            texts[f] = s
    scaled = {f: sweeps(s, 1e10) for f, s in texts.items()}
    libs = {'sc': scaled}
    if scaled != texts:
        libs['scfull'] = texts
    else:
        shutil.rmtree(os.path.join(GEN, 'scfull'), ignore_errors=True)
    for f, p in files.items():
        for name, t in libs.items():
            if f in t:
                put(os.path.join(GEN, name, 'src', f), t[f])
            elif not f.endswith('.rs'):
                shutil_put(p, os.path.join(GEN, name, 'src', f))
        if f not in texts and not f.endswith('.rs'):
            shutil_put(p, os.path.join(GEN, 'app', 'src', f))
            shutil_put(p, os.path.join(GEN, 'appfull', 'src', f))
    for f in app:
        s = common(strip_tests(open(files[f]).read()))
        s = re.sub(r'(?<![\w:])(\w+)::parse\(\)', r'::vstd::cli::parse::<\1>()', s)
        s = re.sub(r'<(\w+) as (?:clap::)?Parser>::parse\(\)', r'::vstd::cli::parse::<\1>()', s)
        if f == 'main.rs':
            s += '\n#[allow(clippy::all)]\npub fn verif_main() { let _ = main(); }\n'
            f = 'lib.rs'
        put(os.path.join(GEN, 'app', 'src', f), sweeps(s))
        put(os.path.join(GEN, 'appfull', 'src', f), s)
    toml = open(os.path.join(REPO, 'Cargo.toml')).read()
    m = re.search(r'^\[dependencies\]\s*\n(.*?)(?=^\[|\Z)', toml, re.M | re.S)
    deps = m.group(1) if m else ''
    ed = re.search(r'^edition\s*=\s*"(\d+)"', toml, re.M)
    ed = ed.group(1) if ed else '2018'
    for name in libs:
        put(os.path.join(GEN, name, 'Cargo.toml'),
        '[package]\nname = "%s"\nversion = "0.1.38"\nedition = "%s"\n\n[lints.rust]\nwarnings = "allow"\n\n[dependencies]\n%s\nvstd = { path = "../../vstd" }\n'
        'vhook = { path = "../../vhook" }\n' % (name, ed, deps))
    for name in ('app', 'appfull'):
        put(os.path.join(GEN, name, 'Cargo.toml'),
            '[package]\nname = "%s"\nversion = "0.1.38"\nedition = "%s"\n\n[lints.rust]\nwarnings = "allow"\n\n[dependencies]\n%s\nvstd = { path = "../../vstd" }\n'
            'vhook = { path = "../../vhook" }\nsc = { path = "../%s"%s }\n' % (name, ed, deps,
            'scfull' if name == 'appfull' and 'scfull' in libs else 'sc', ', package = "scfull"' if name == 'appfull' and 'scfull' in libs else ''))
    put(os.path.join(GEN, 'notes.json'), json.dumps(notes, indent=1))


def shutil_put(a, b):
    os.makedirs(os.path.dirname(b), exist_ok=True)
    shutil.copyfile(a, b)


main()
