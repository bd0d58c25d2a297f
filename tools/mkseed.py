#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from tools/seeds/*.py style tables, and validate in a scratch copy.
usage: mkseed.py make [id..] | validate [id..] | check [id..]"""
import os, sys, json, subprocess, tempfile, shutil, glob, importlib.util, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, 'seeded')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
DEMO = '''#!/bin/bash
# run with cwd = repository root; exits 0 when the property holds
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
advantage = { path = "$repo" }
nalgebra = "*"
num = "*"
paste = "*"
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/"
cd "$t"
CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(i):
    s = SEEDS[i]; d = os.path.join(SEED, i); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(); sh(f'git -C /repo worktree list')
    sh(f'git clone -q /repo {t}/r')
    for f, old, new in s['edits']:
        p = f'{t}/r/{f}'; x = open(p).read()
        assert x.count(old) == 1, (i, f, old, x.count(old))
        open(p, 'w').write(x.replace(old, new))
    diff = sh(f'git -C {t}/r diff').stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    if 'demo_sh' in s: open(os.path.join(d, 'demo.sh'), 'w').write(s['demo_sh'])
    else:
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace('offline -q', 'offline -q --release') if s.get('release') else DEMO.replace('path = "$repo"', 'path = "$repo", features = ["ffi"]') if s.get('features') else DEMO)
        open(os.path.join(d, 'demo.rs'), 'w').write(s['demo'].strip() + '\n')
    for n, x in s.get('files', {}).items(): open(os.path.join(d, n), 'w').write(x)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(t)
def validate(ids):
    t = tempfile.mkdtemp(prefix='seedv'); sh(f'cp -a /repo {t}/r')
    base = json.load(open('/opt/vp/BASELINE.json'))
    r = sh(f'cd {t}/r && true')
    for i in ids:
        d = os.path.join(SEED, i); msg = []
        env = dict(os.environ)
        a = sh(f'cd {t}/r && git checkout -q -- . && bash {d}/demo.sh')
        msg.append(f'demo clean rc={a.returncode}')
        b = sh(f'cd {t}/r && git apply {d}/patch.diff'); 
        if b.returncode: msg.append('PATCH DOES NOT APPLY ' + b.stderr)
        c = sh(f'cd {t}/r && cargo test --offline 2>&1 | grep -E "^test |test result|error" ')
        bad = [l for l in c.stdout.splitlines() if 'FAILED' in l or l.startswith('error')]
        msg.append('tests ' + ('ok' if not bad else 'BAD ' + '; '.join(bad[:3])))
        e = sh(f'cd {t}/r && bash {d}/demo.sh')
        msg.append(f'demo patched rc={e.returncode}')
        ok = a.returncode == 0 and e.returncode != 0 and not bad and not b.returncode
        print(('OK  ' if ok else 'BAD ') + i, '; '.join(msg)); sys.stdout.flush()
        if a.returncode: print(a.stderr[-1500:])
        if 'error' in e.stderr and 'could not compile' in e.stderr: print('DEMO DOES NOT COMPILE', e.stderr[-800:])
        sh(f'cd {t}/r && git checkout -q -- .')
    shutil.rmtree(t)
def check(ids, props=None):
    for i in ids:
        d = os.path.join(SEED, i); p = props or SEEDS[i]['property']
        sh(f'git -C /repo apply {d}/patch.diff')
        t0 = time.time()
        r = sh(f'cd {ROOT} && python3 vc/check.py {p}')
        sh('git -C /repo checkout -- .')
        line = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(('CAUGHT ' if line and r.returncode == 1 else 'MISSED ') + i, p, line, f'{time.time()-t0:.0f}s', r.stderr.strip()[-700:] if 1 else ''); sys.stdout.flush()
        rp = os.path.join(ROOT, 'evidence', f'{p}.replay.txt')
        if os.path.exists(rp): print('    ', '\n     '.join(open(rp).read().splitlines()[1:8]))
if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:] 
    if not ids: ids = sorted(SEEDS)
    else: ids = [k for k in sorted(SEEDS) if any(k == x or k.startswith(x) for x in ids)]
    if cmd == 'make': [make(i) for i in ids]
    elif cmd == 'validate': validate(ids)
    elif cmd == 'check': check(ids)
