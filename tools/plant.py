#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a bug description and confirms it.

usage: plant.py BUGS.py [ID...]    where BUGS.py defines BUGS = [dict(id, prop, file,
edits=[(old, new)], needs, breaks, demo=<Rust main>, features=..., deps=..., extra=[(file, old, new)])]

Works in a scratch copy of /repo under /tmp; nothing in /repo is changed.
"""
import json, os, shutil, subprocess, sys, runpy
OUT = '/verif/seeded'
LAB = '/tmp/plant-lab'
DEMO = '''#!/bin/bash
# Builds main.rs against the barcoders of the current directory, in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat >"$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
barcoders = { path = "$repo", default-features = false, features = [@FEATURES@] }
@DEPS@
E
cd "$t" && CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 timeout 250 cargo run --offline --quiet @PROFILE@ 2>&1
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in bugs:
        if want and b['id'] not in want:
            continue
        d = f"{OUT}/{b['id']}"
        if sh('git -C /repo status --porcelain').stdout.strip():
            sys.exit('/repo is not clean')
        shutil.rmtree(LAB, ignore_errors=True)
        sh(f'git clone -q /repo {LAB}')
        ok = True
        for f, old, new in [(b['file'], o, n) for o, n in b['edits']] + b.get('extra', []):
            p = f'{LAB}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT does not match once:', f, s.count(old), repr(old[:60]))
                ok = False
                break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        patch = sh(f'git -C {LAB} diff').stdout
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(patch)
        open(f'{d}/main.rs', 'w').write(b['demo'])
        feats = b.get('features', 'std ascii json svg').split()
        open(f'{d}/demo.sh', 'w').write(DEMO.replace('@FEATURES@', ', '.join(f'"{x}"' for x in feats)).replace('@DEPS@', b.get('deps', '')).replace('@PROFILE@', b.get('profile', '')))
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        # confirm: the demo on the unchanged tree, the stable tests and the demo with the patch
        r0 = sh(f'bash {d}/demo.sh', cwd='/repo')
        os.makedirs(f'{LAB}/target/debug', exist_ok=True)
        sh('bash -c ". /opt/vp/env.sh; CARGO_TARGET_DIR=/tmp/plant-target cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 >/tmp/plant.log 2>&1"', cwd=LAB)
        sh('python3 /opt/vp/results.py /tmp/plant.json cargo:/tmp/plant.log', cwd=LAB)
        missing = stable - set(json.load(open('/tmp/plant.json'))['passed'])
        r1 = sh(f'bash {d}/demo.sh', cwd=LAB)
        good = r0.returncode == 0 and r1.returncode not in (0, 3) and not missing
        print(b['id'], 'GOOD' if good else 'BAD', f'clean={r0.returncode} patched={r1.returncode} missing={sorted(missing)[:5]}')
        if r0.returncode:
            print(r0.stdout[-1500:])
        if not good:
            if r1.returncode in (0, 101) and not missing:
                print(r1.stdout[-600:])
            shutil.rmtree(d)
        else:
            print('    ', (r1.stdout.strip().splitlines() or [''])[-1][:150])
        shutil.rmtree(LAB, ignore_errors=True)

main()
