#!/usr/bin/env python3
"""developer helper for planted bugs.
plant.py new ID PROP [features]   - takes the diff of /tmp/pl/repo and /tmp/pl/demo.rs (and meta on stdin: needs/what) into seeded/ID, then resets the scratch copy
plant.py confirm ID...            - demo on clean, tests and demo with the patch, in the scratch copy
plant.py check ID... [--also P..] - applies the patch in /repo, runs the property's check, undoes it
"""
import json, os, shutil, subprocess, sys, time
S = '/verif/seeded'
W = '/tmp/pl/repo'
DEMO = '''#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T=/tmp/vp_demo_@ID@
rm -rf /tmp/vp_demo_@ID@
mkdir -p $T/src
cp "$D/demo.rs" $T/src/main.rs
cp "$R/Cargo.lock" $T/Cargo.lock
cat > $T/Cargo.toml <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
procedural_modelling = { path = "$R", default-features = false, features = [@FEAT@] }
@DEPS@
E
cd $T
CARGO_TARGET_DIR="${DEMO_TARGET:-$T/target}" timeout 270 cargo build --offline >$T/log 2>&1 || { tail -20 $T/log; rm -rf /tmp/vp_demo_@ID@; exit 3; }
timeout 25 "${DEMO_TARGET:-$T/target}/debug/demo"
rc=$?
rm -rf /tmp/vp_demo_@ID@
exit $rc
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(r):
    subprocess.check_call(['git', '-C', r, 'checkout', '-q', '--', '.'])
def new(i, prop, feats):
    d = f'{S}/{i}'
    os.makedirs(d, exist_ok=True)
    diff = sh(f'git -C {W} diff').stdout
    assert diff.strip(), 'empty diff'
    open(f'{d}/patch.diff', 'w').write(diff)
    shutil.copy('/tmp/pl/demo.rs', f'{d}/demo.rs')
    m = json.load(sys.stdin)
    json.dump({'property': prop, 'needs': m['needs'], 'what_it_breaks': m['what']}, open(f'{d}/meta.json', 'w'), indent=1)
    f = ', '.join(f'"{x}"' for x in feats)
    deps = m.get('deps', '')
    open(f'{d}/demo.sh', 'w').write(DEMO.replace('@ID@', i).replace('@FEAT@', f).replace('@DEPS@', deps))
    os.chmod(f'{d}/demo.sh', 0o755)
    clean(W)
def demo(i):
    e = dict(os.environ, DEMO_TARGET='/tmp/pl/demo_target')
    return sh(f'bash {S}/{i}/demo.sh', cwd=W, env=e)
def sync():
    clean(W)
    subprocess.check_call(['git', '-C', W, 'fetch', '-q', '/repo', 'HEAD'])
    subprocess.check_call(['git', '-C', W, 'reset', '-q', '--hard', 'FETCH_HEAD'])
def confirm(i):
    sync()
    r = demo(i)
    if r.returncode: return f'{i}: REJECTED demo fails on the clean tree\n' + (r.stdout + r.stderr)[-1500:]
    r = sh(f'git -C {W} apply {S}/{i}/patch.diff')
    if r.returncode: return f'{i}: REJECTED does not apply {r.stderr}'
    r = demo(i)
    dm = r.returncode
    msg = (r.stdout + r.stderr)[-300:]
    t = sh('cargo test -p procedural_modelling --no-fail-fast --offline --features bevy,gizmo,nalgebra,netsci,fonts,svg,wgpu -- --test-threads 8 2>&1',
        cwd=W, env=dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER=''))
    open('/tmp/pl/test.log', 'w').write(t.stdout)
    sh('python3 /opt/vp/results.py /tmp/pl/t.json cargo:/tmp/pl/test.log')
    names = json.load(open('/opt/vp/BASELINE.json'))['stable']
    got = json.load(open('/tmp/pl/t.json'))
    miss = [n for n in names if n not in got['passed']]
    clean(W)
    ok = dm in range(1, 256) and dm != 3 and not miss
    return f'{i}: {"CONFIRMED" if ok else "REJECTED"} demo={dm} tests missing={miss[:5]} {msg.strip()[-200:]}'
def check(i, extra):
    p = json.load(open(f'{S}/{i}/meta.json'))['property']
    out = []
    assert not sh('git -C /repo status --short').stdout, '/repo is dirty'
    subprocess.check_call(['git', '-C', '/repo', 'apply', f'{S}/{i}/patch.diff'])
    try:
        for q in [p] + extra:
            t = time.time()
            r = sh(f'VERIF_SEED=1 bash /verif/check.sh {q} --tier quick', cwd='/verif')
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            f = [l.strip()[:160] for l in r.stdout.splitlines() if 'failing case' in l][:2]
            out.append(f'{i}: {q} rc={r.returncode} {"CAUGHT" if v and r.returncode == 1 else "MISSED"} {time.time()-t:.0f}s {len(v)} targets {f}')
    finally:
        clean('/repo')
    return '\n'.join(out)
a = sys.argv[1:]
if a[0] == 'new': new(a[1], a[2], a[3:] or ['nalgebra'])
elif a[0] == 'sync': sync()
elif a[0] == 'confirm':
    for i in a[1:]: print(confirm(i), flush=True)
elif a[0] == 'check':
    extra = a[a.index('--also')+1:] if '--also' in a else []
    for i in (a[1:a.index('--also')] if extra else a[1:]): print(check(i, extra), flush=True)
