#!/usr/bin/env python3
"""mkseed.py DEF.py...: plant the change each definition file describes in a scratch copy of /repo,
confirm it (compiles, passes the 17 stable tests, the demo fails with it and passes without) and write
/verif/seeded/<id>/.  A definition file sets: id, prop, needs, breaks, edits=[(file, old, new)...], main."""
import sys, os, subprocess, shutil, json, tempfile
SC = '/tmp/seedcopy'
PRE = open('/verif/tools/seed_prelude.rs').read()
DEMO = '''#!/bin/bash
# run in /repo (after its build): exit 0 if the property held on this demonstration
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
faerie = { path = "$repo" }
goblin = "0.6"
target-lexicon = "0.12"
X
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUST_BACKTRACE=0 CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0
cd "$d" && timeout 250 cargo run --offline -q 2>&1 | tail -5
exit "${PIPESTATUS[0]}"
'''
def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
def reset():
    r = sh(f'git -C {SC} checkout -q -- . && git -C {SC} clean -qfd') 
    assert r.returncode == 0, r.stderr
def tests():
    env = 'export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0 CARGO_TARGET_DIR=/tmp/seedcopy-target; '
    r = sh(env + 'touch src/lib.rs; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed.log 2>&1', SC)
    out = open('/tmp/seed.log').read()
    if 'could not compile' in out: return 'does not compile:\n' + '\n'.join([l for l in out.splitlines() if 'error' in l][:8])
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('stable_passed') or base
    failed = [l for l in out.splitlines() if l.startswith('test ') and 'FAILED' in l]
    return ('tests fail: ' + '; '.join(failed)) if failed or 'test result' not in out else None
def demo(d):
    r = sh(f'bash {d}/demo.sh', SC)
    return r.returncode, (r.stdout + r.stderr)[-600:]
if not os.path.isdir(SC): sh(f'cp -a /repo {SC}')
h1 = sh('git rev-parse HEAD', '/repo').stdout; h2 = sh('git rev-parse HEAD', SC).stdout
if h1 != h2: shutil.rmtree(SC); sh(f'cp -a /repo {SC}')
ok = True
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    i = ns['id']
    reset()
    d = tempfile.mkdtemp()
    open(f'{d}/demo.sh', 'w').write(DEMO); os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/main.rs', 'w').write(PRE + ns['main'])
    rc, out = demo(d)
    if rc != 0: print(i, 'NO: demo fails on the clean tree', out); ok = False; continue
    bad = None
    for (file, old, new, *n) in ns['edits']:
        p = f'{SC}/{file}'; s = open(p).read(); n = n[0] if n else 1
        if s.count(old) != n: bad = f'{s.count(old)} matches: {old}'; break
        open(p, 'w').write(s.replace(old, new))
    if bad: print(i, 'NO:', bad); ok = False; continue
    bad = tests()
    if bad: print(i, 'NO:', bad); ok = False; continue
    rc, out = demo(d)
    if rc == 0: print(i, 'NO: demo passes with the change'); ok = False; continue
    diff = sh('git diff', SC).stdout
    # changed lines have to be lines of the original repository
    orig = 0; cur = None
    blames = {}
    for l in sh('git diff -U0', SC).stdout.splitlines():
        if l.startswith('--- a/'): cur = l[6:]
        if l.startswith('@@'):
            a = l.split()[1][1:].split(','); s = int(a[0]); n = int(a[1]) if len(a) > 1 else 1
            if cur not in blames: blames[cur] = [x.startswith('^') or x.startswith('0c104aa') for x in sh(f'git blame -s HEAD -- {cur}', SC).stdout.splitlines()]
            orig += sum(blames[cur][k - 1] for k in range(s, s + n))
    if not orig: print(i, 'NO: changes no line of the original repository'); ok = False; continue
    t = f'/verif/seeded/{i}'
    os.makedirs(t, exist_ok=True)
    for x in ('demo.sh', 'main.rs'): shutil.copy(f'{d}/{x}', t)
    open(f'{t}/patch.diff', 'w').write(diff)
    json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(f'{t}/meta.json', 'w'), indent=1)
    shutil.rmtree(d)
    print(i, 'kept; demo:', out.strip().splitlines()[-3:] if out.strip() else rc)
reset()
sys.exit(0 if ok else 1)
