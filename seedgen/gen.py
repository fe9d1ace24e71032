#!/usr/bin/env python3
"""seedgen/gen.py: write /verif/seeded/<id>/ for every planted bug of seeds.py."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from seeds import SEEDS
out = os.path.join(root, 'seeded')
only = set(sys.argv[1:])
os.makedirs(out, exist_ok=True)
for s in SEEDS:
    if only and s['id'] not in only:
        continue
    d = os.path.join(out, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w', 'HEAD'])
        for f, old, new in s['edits']:
            p = os.path.join(t, 'w', f)
            x = open(p).read()
            assert x.count(old) == 1, (s['id'], f, x.count(old))
            open(p, 'w').write(x.replace(old, new))
        diff = subprocess.check_output(['git', '-C', t + '/w', 'diff'])
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w'])
        shutil.rmtree(t, ignore_errors=True)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.copy(os.path.join(here, 'demo.sh'), d)
    dd = os.path.join(d, 'demo')
    shutil.copytree(os.path.join(here, 'demo'), dd)
    shutil.copytree(os.path.join(root, 'mc', 'vendor'), os.path.join(dd, 'vendor'))
    shutil.copy(os.path.join(root, 'mc', 'Cargo.lock'), dd)
    for f in ['svm.rs', 'abi.rs', 'world.rs']:
        shutil.copy(os.path.join(root, 'mc', 'src', f), os.path.join(dd, 'src'))
    open(os.path.join(dd, 'src', 'main.rs'), 'w').write(
        '#![allow(dead_code, unused_imports, unused_mut, unused_variables)]\nmod abi;\nmod prelude;\nmod svm;\nmod world;\nuse prelude::*;\n\nfn main() {\n    svm::init_runtime();\n'
        + '    ' + s['body'].strip() + '\n    println!("as promised");\n}\n')
    print(s['id'])
