#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy and stores them under /verif/seeded.

usage: plant.py FILE.py [ID...]     FILE defines PLANTS, a list of dicts:
  id, property, edits=[(file, old, new[, nth])], needs, breaks, demo (Rust source)
The scratch copy is /tmp/plant (cp -a /repo /tmp/plant); a bug is stored only if
it applies, builds, passes the tests, and its demo passes without and fails with it.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
S = '/tmp/plant'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='')
PRE = '''#![allow(unused_imports, dead_code, unused_macros, unused_variables, unused_mut)]
fn refused<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    let _ = std::panic::take_hook();
    r
}
'''
def git(*a): return subprocess.run(['git', '-C', S, *a], capture_output=True, text=True)
def baseline():
    return set(json.load(open('/opt/vp/BASELINE.json'))['tests']) if False else None
def tests():
    p = subprocess.run('cargo test --workspace --no-fail-fast --offline', shell=True, cwd=S, env=ENV, capture_output=True, text=True)
    ok = len(re.findall(r'^test .* \.\.\. ok$', p.stdout, re.M)); bad = re.findall(r'^test (.*) \.\.\. FAILED$', p.stdout, re.M)
    return p.returncode, ok, bad, p.stderr
def own_lines(path):
    """Line numbers of the HEAD file that our own commits added."""
    out = git('blame', '--porcelain', 'HEAD', '--', path).stdout; own = set()
    base = ROOT
    for m in re.finditer(r'^([0-9a-f]{40}) \d+ (\d+)', out, re.M):
        if m.group(1) != base: own.add(int(m.group(2)))
    return own
ROOT = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]
def main():
    m = runpy.run_path(sys.argv[1]); only = sys.argv[2:]
    subprocess.run(['git', '-C', S, 'fetch', '-q', '/repo', 'HEAD']); git('checkout', '-qf', '--detach', 'FETCH_HEAD')
    for p in m['PLANTS']:
        if only and p['id'] not in only: continue
        git('checkout', '-qf', '--', '.')
        err = None
        for e in p['edits']:
            f, old, new = e[:3]; t = open(f'{S}/{f}').read(); n = t.count(old)
            nth = e[3] if len(e) > 3 else None
            if n == 0 or (n > 1 and nth is None): err = f'{f}: {n} matches of {old!r}'; break
            if nth == 'all': t = t.replace(old, new)
            else:
                i = -1
                for _ in range((nth or 0) + 1): i = t.index(old, i + 1)
                t = t[:i] + new + t[i+len(old):]
            open(f'{S}/{f}', 'w').write(t)
        if err: print(p['id'], 'EDIT', err); continue
        d = git('diff').stdout
        changed = False
        for h in re.finditer(r'^--- a/(\S+)\n.*?(?=^diff |\Z)', d, re.M | re.S):
            own = own_lines(h.group(1)); ln = 0
            for l in h.group(0).splitlines():
                k = re.match(r'@@ -(\d+)', l)
                if k: ln = int(k.group(1)); continue
                if l.startswith('---') or l.startswith('+++'): continue
                if l.startswith('-'):
                    if ln not in own: changed = True
                    ln += 1
                elif l.startswith(' '): ln += 1
        if not changed: print(p['id'], 'touches no original line'); continue
        rc, ok, bad, se = tests()
        if rc or ok != 160:
            print(p['id'], 'TESTS', ok, bad[:6], '' if bad else '\n'.join(re.findall(r'^error.*\n.*', se, re.M))[:600]); continue
        w = tempfile.mkdtemp(); 
        open(f'{w}/demo.rs', 'w').write(PRE + p['demo']); shutil.copy('/verif/tools/demo_template.sh', f'{w}/demo.sh')
        if p.get('compile_only'):
            t = open(f'{w}/demo.sh').read().replace('#!/bin/bash\n', '#!/bin/bash\nCOMPILE_ONLY=1\n', 1); open(f'{w}/demo.sh', 'w').write(t)
        if p.get('nodebug'):
            t = open(f'{w}/demo.sh').read().replace('#!/bin/bash\n', '#!/bin/bash\nexport CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false\n', 1); open(f'{w}/demo.sh', 'w').write(t)
        a = subprocess.run(['bash', f'{w}/demo.sh'], cwd=S, capture_output=True, text=True)
        git('checkout', '-qf', '--', '.')
        b = subprocess.run(['bash', f'{w}/demo.sh'], cwd=S, capture_output=True, text=True)
        if b.returncode != 0 or a.returncode == 0 or (a.returncode == 2 and not p.get('compile_only')):
            print(p['id'], 'DEMO with', a.returncode, 'without', b.returncode, a.stderr[-600:], '|', b.stderr[-900:]); continue
        o = f"/verif/seeded/{p['id']}"; os.makedirs(o, exist_ok=True)
        open(f'{o}/patch.diff', 'w').write(d)
        for x in ('demo.rs', 'demo.sh'): shutil.copy(f'{w}/{x}', o)
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(f'{o}/meta.json', 'w'), indent=1)
        shutil.rmtree(w); print(p['id'], 'KEPT', flush=True)
main()
