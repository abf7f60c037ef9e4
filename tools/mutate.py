#!/usr/bin/env python3
"""Random mutants of /repo's sources that its tests do not notice, tried against the checks.

usage: mutate.py WORKER NWORKERS SEED SECONDS     results: /tmp/mut/results.jsonl
Works in scratch copies under /tmp/mut (repo and checks); ordered by a seeded shuffle."""
import json, os, random, re, subprocess, sys, time
W, N, SEED, SECS = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
PER = int(os.environ.get('PER', '400'))
ONLY = os.environ.get('FILES')
D = f'/tmp/mut/{W}'; R = f'{D}/repo'; V = f'{D}/verif'
os.makedirs(D, exist_ok=True)
run = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
run(f'rsync -a --delete --exclude target /repo/ {R}/; mkdir -p {V}; rsync -a --delete --exclude target --exclude seeded --exclude .git --exclude evidence /verif/ {V}/; mkdir -p {V}/evidence')
run(f"sed -i 's#\"/repo/#\"{R}/#' {V}/harness/Cargo.toml {V}/ct/Cargo.toml {V}/ct/ops/Cargo.toml {V}/harness/src/bin/standalone.rs")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='0', RUSTC_WRAPPER='')
MAP = [('secret-integers/src', 'C01 C02 C03 C04 C05'), ('abstract-integers/src/nat_mod', 'C08 C09'), ('abstract-integers/src', 'C06 C07 C08 C09'),
       ('hacspec/src/machine_integers', 'C10 C11 C01 C02 C03'), ('hacspec/src/math_util', 'C10 C11'), ('hacspec/src/math_integers', 'C06 C07 C08 C09'),
       ('hacspec/src/array', 'C12 C13 C14 C15'), ('hacspec/src/seq', 'C12 C13 C14 C15'), ('hacspec/src/vec_integers', 'C14 C12'),
       ('hacspec/src/poly', 'C16 C17 C18'), ('hacspec/src/traits', 'C12 C13 C10 C11'), ('hacspec/src/transmute', 'C15 C04'), ('hacspec/src/util', 'C33'), ('hacspec/src', 'C12 C15'),
       ('hacspec-dev', 'C30 C33'), ('sha2', 'C19'), ('hmac', 'C20'), ('hkdf', 'C20'), ('fips202', 'C21'), ('blake2', 'C22'),
       ('chacha20.rs', 'C23 C25'), ('/poly1305.rs', 'C24 C25'), ('chacha20poly1305.rs', 'C25'), ('aes_gcm/aes.rs', 'C26'), ('gf128', 'C27'), ('aesgcm.rs', 'C27'), ('curve25519', 'C28'), ('p256', 'C29')]
OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r' \^ ', ' | '), (r' & ', ' | '), (r' \| ', ' & '), (r' << ', ' >> '), (r' >> ', ' << '), (r' % ', ' / '), (r' / ', ' % '),
       (r'\.\.=?', None), (r'\b\d+\b', None), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[a-z(])(?<![a-z]!)', ''), (r'wrapping_add', 'wrapping_sub'), (r'wrapping_sub', 'wrapping_add'),
       (r'wrap_add', 'wrap_sub'), (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'MAX', 'MIN'), (r'_le\b', '_be'), (r'_be\b', '_le'), (r'^\s+[^/#{}]*;$', ''), (r'\bself\b(?=\.[a-z]+\()', None),
       (r'if ', 'if true || '), (r'if ', 'if false && '), (r'Some\(', None), (r'rotate_left', 'rotate_right'), (r'rotate_right', 'rotate_left'), (r' as u64', ' as u32'), (r' as u128', ' as u64'), (r'u128', 'u64'), (r'usize', 'u8')]
def mutants():
    out = []
    for f in run('git ls-files', cwd=R).stdout.split():
        if not f.endswith('.rs') or re.search(r'(^|/)(tests?|examples|attributes|benches)/', f): continue
        if 'fuzz' in f or 'build.rs' in f: continue
        if ONLY and not re.search(ONLY, f): continue
        t = open(f'{R}/{f}').read().split('\n')
        for i, l in enumerate(t):
            s = l.strip()
            if 'cfg(test)' in s or re.match(r'mod tests?\b', s): break
            if not s or s.startswith(('//', '#', 'use ', 'pub use', '///', '*', '/*', 'extern', 'pub mod', 'mod ')) or 'assert' in s or 'unimplemented' in s: continue
            code = l.split('//')[0]
            if re.fullmatch(r'[\s0-9a-fx_,\[\]();]+', code): continue
            for a, b in OPS:
                for m in re.finditer(a, code):
                    x = m.group(0)
                    if b is None:
                        if x == '..': ys = ['..=']
                        elif x == '..=': ys = ['..']
                        elif x.isdigit(): ys = [str(int(x) + 1)] + ([str(int(x) - 1)] if int(x) else [])
                        else: continue
                    else: ys = [b]
                    for y in ys:
                        n = l[:m.start()] + y + l[m.end():]
                        if n != l: out.append((f, i, l, n))
    return out
ms = mutants()
by = {}
for m in ms: by.setdefault(m[0], []).append(m)
rnd = random.Random(SEED); pick = []
for f in sorted(by):
    v = by[f]; rnd.shuffle(v)
    seen = {}; keep = []
    for m in v:  # spread over lines
        seen[m[1]] = seen.get(m[1], 0) + 1
        keep.append((seen[m[1]], rnd.random(), m))
    keep.sort(key=lambda k: k[:2])
    pick += [k[2] for k in keep[:PER // 16 if f.startswith('spec') else PER]]
rnd.shuffle(pick)
if W == 0: print(len(ms), 'mutants,', len(pick), 'picked', flush=True)
done = set()
if os.path.exists('/tmp/mut/results.jsonl'):
    for l in open('/tmp/mut/results.jsonl'):
        j = json.loads(l); done.add((j['file'], j['line'], j['new']))
def log(m, **k):
    with open('/tmp/mut/results.jsonl', 'a') as o: o.write(json.dumps(dict(file=m[0], line=m[1] + 1, old=m[2], new=m[3], **k)) + '\n')
end = time.time() + SECS
for n, m in enumerate(pick):
    if n % N != W or (m[0], m[1] + 1, m[3]) in done: continue
    if time.time() > end: break
    run('git checkout -qf -- .', cwd=R)
    t = open(f'{R}/{m[0]}').read().split('\n'); t[m[1]] = m[3]; open(f'{R}/{m[0]}', 'w').write('\n'.join(t))
    try: p = run('timeout -k 5 200 cargo test --workspace --no-fail-fast --offline -q', cwd=R, env=ENV)
    except Exception as e: log(m, result='killed-by-tests', why=str(e)); continue
    if 'could not compile' in p.stderr: continue
    if p.returncode != 0: log(m, result='killed-by-tests'); continue
    cs = next(c for k, c in MAP if k in m[0]) if any(k in m[0] for k, c in MAP) else 'C31'
    res = 'missed'; info = []
    for c in cs.split():
        s = time.time()
        q = run(f'timeout -k 5 900 {V}/check.sh {c}', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_SCALE=os.environ.get('VERIF_SCALE', '30')))
        info.append(f'{c}:{q.returncode}:{time.time()-s:.0f}s')
        if q.returncode == 1 and 'VIOLATION' in q.stdout: res = 'caught'; break
        if q.returncode not in (0, 1): info.append(q.stderr[-300:])
    log(m, result=res, checks=info)
