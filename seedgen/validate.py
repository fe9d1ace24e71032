#!/usr/bin/env python3
"""Validate planted bugs in a scratch copy: the demo passes without and fails with the patch, the
patched tree builds (tests included) and its unit tests pass."""
import os, shutil, subprocess, sys
W = '/tmp/seedval'
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, RUST_BACKTRACE="0", RUSTUP_TOOLCHAIN='1.87.0', CARGO_NET_OFFLINE='true')
os.makedirs(W, exist_ok=True)
repo = W + '/repo'
if not os.path.exists(repo):
    subprocess.check_call(['cp', '-a', '/repo', repo])
ids = sys.argv[1:] or sorted(os.listdir(root + '/seeded'))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, env=dict(env, **k.pop('e', {})), capture_output=True, text=True, **k)


def demo(d):
    shutil.rmtree(W + '/demo', ignore_errors=True)
    shutil.copytree(d + '/demo', W + '/demo')
    t = W + '/demo/Cargo.toml'
    x = open(t).read().replace('/repo/', repo + '/')
    open(t, 'w').write(x)
    e = {'CARGO_TARGET_DIR': W + '/target'}
    r = sh(f'cargo build --manifest-path {t} --offline --quiet', e=e)
    if r.returncode:
        return 'BUILD', r.stderr[-1500:]
    r = sh(W + '/target/debug/mc', timeout=200)
    return r.returncode, r.stderr[-400:]


for i in ids:
    d = f'{root}/seeded/{i}'
    sh(f'git -C {repo} checkout -q -- . ')
    sh(f'find {repo}/programs {repo}/merkle-tree -name "*.rs" | xargs touch')
    a = demo(d)
    r = sh(f'git -C {repo} apply {d}/patch.diff')
    assert r.returncode == 0, r.stderr
    sh(f'find {repo}/programs {repo}/merkle-tree -name "*.rs" | xargs touch')
    b = demo(d)
    r = sh(f'. /opt/vp/env.sh; cd {repo}; unset CARGO_TARGET_DIR; cargo test --workspace --no-run --locked --offline 2>&1 | tail -5 && cargo test --workspace --lib --locked --offline 2>&1 | grep "test result\\|FAILED\\|panicked"')
    ok = a[0] == 0 and b[0] not in (0, 'BUILD') and 'FAILED' not in r.stdout and 'error' not in r.stdout
    print(i, 'OK' if ok else 'BAD', a if a[0] else 'base 0', '|', str(b[0]), b[1].strip().splitlines()[-2:] if b[1] else '', flush=True)
    if not ok:
        print(r.stdout[-800:])
    sh(f'git -C {repo} checkout -q -- .')
