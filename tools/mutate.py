#!/usr/bin/env python3
"""Mutants of /repo/src against the checks: which small changes that the repository's tests
let pass do the checks let pass too?

usage: mutate.py list OUT.json [PER_LINE]     writes the mutants
       mutate.py run MUTANTS.json LANES LANE RESULTS.jsonl   (as root; a private mount
           namespace with copies of /repo and /verif; every LANES-th mutant)
"""
import json, os, random, re, shutil, subprocess, sys

FILES = {
    'src/sym.rs': 'C14 C09 C15', 'src/error.rs': 'C14 C26',
    'src/sym/helpers.rs': 'C05 C12 C09 C01 C26', 'src/sym/codabar.rs': 'C11 C14 C24 C25',
    'src/sym/code11.rs': 'C08 C14 C24 C25', 'src/sym/code128.rs': 'C09 C10 C14 C24 C25',
    'src/sym/code39.rs': 'C06 C14 C24 C25', 'src/sym/code93.rs': 'C07 C14 C24 C25',
    'src/sym/ean13.rs': 'C01 C05 C28 C14 C03', 'src/sym/ean8.rs': 'C02 C05 C28 C14',
    'src/sym/ean_supp.rs': 'C04 C14', 'src/sym/tf.rs': 'C12 C13 C14 C24', 'src/sym/upca.rs': 'C03 C05 C28 C14',
    'src/generators/ascii.rs': 'C16 C24 C27', 'src/generators/json.rs': 'C17 C24 C27',
    'src/generators/svg.rs': 'C18 C19 C27 C24', 'src/generators/image.rs': 'C20 C21 C22 C23 C27',
}
SWAPS = [(' == ', ' != '), (' != ', ' == '), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '),
         (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), (' * ', ' + '), (' % ', ' / '), (' += ', ' -= '),
         ('..=', '..'), ('.rev()', ''), ('true', 'false'), ('false', 'true'), ('!', ''), ('.any(', '.all('), ('.all(', '.any('),
         ('.min(', '.max('), ('.max(', '.min('), ('saturating_', 'wrapping_'), ('checked_mul', 'overflowing_mul'), ('rotate90', 'rotate270'),
         ('rotate270', 'rotate90'), ('rotate180()', 'fliph()'), ('.cloned()', '.cloned().skip(1)'), ('.iter()', '.iter().rev()'),
         ('.chars()', '.chars().rev()'), ('.skip(1)', ''), ('>> ', '<< '), ('Error::Length', 'Error::Character'), ('Error::Character', 'Error::Length'),
         ('N', 'W'), ('W', 'N')]


def mutants(per_line):
    rng = random.Random(7)
    out = []
    for f in FILES:
        lines = open('/repo/' + f).read().split('\n')
        end = next((i for i, l in enumerate(lines) if 'cfg(test)' in l), len(lines))
        for i in range(end):
            l = lines[i]
            code = l.split('//')[0]
            if not code.strip() or code.strip().startswith(('#', 'use ', 'pub use', 'extern')):
                continue
            c = set()
            for a, b in SWAPS:
                if len(a) == 1 and a.isupper() and '"' not in code:
                    continue
                for m in re.finditer(re.escape(a), code):
                    c.add(code[:m.start()] + b + code[m.end():])
            for m in re.finditer(r'(?<![\w.])\d+', code):
                n = int(m.group())
                for k in ([1 - n] if n < 2 and '[' in code else [n + 1, n - 1]):
                    if k >= 0:
                        c.add(code[:m.start()] + str(k) + code[m.end():])
            for m in re.finditer(r"'(.)'", code):
                c.add(code[:m.start()] + "'" + chr(ord(m.group(1)) + 1) + "'" + code[m.end():])
            if code.rstrip().endswith(';') and not code.strip().startswith(('let', 'const', 'pub', 'type', '}')):
                c.add('')
            c.discard(code)
            c = sorted(c)
            rng.shuffle(c)
            out += [dict(file=f, line=i, old=l, new=x) for x in c[:per_line]]
    rng.shuffle(out)
    return out


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def run(mutants, lanes, lane, results):
    lab = f'/tmp/mutate-lab-{lane}'
    if os.environ.get('MUTATE_INSIDE') != lab:
        shutil.rmtree(lab, ignore_errors=True)
        os.makedirs(lab + '/repo'), os.makedirs(lab + '/verif'), os.makedirs(lab + '/tmp')
        sh(f'cp -a /repo/. {lab}/repo; cp -a /verif/. {lab}/verif; git -C {lab}/repo checkout -q -- .')
        env = dict(os.environ, MUTATE_INSIDE=lab, TMPDIR=lab + '/tmp', FUZZ_SECONDS='0', CARGO_PROFILE_RELEASE_OPT_LEVEL='1', CARGO_PROFILE_RELEASE_DEBUG='0', VERIF_SEED='1')
        rc = subprocess.call(['unshare', '-m', sys.executable, os.path.abspath(__file__)] + sys.argv[1:], env=env)
        shutil.rmtree(lab, ignore_errors=True)
        return rc
    script = open(__file__).read()  # noqa: keeps the file readable after the mount
    assert script and sh(f'mount --bind {lab}/repo /repo && mount --bind {lab}/verif /verif').returncode == 0
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    known = None
    env = '. /opt/vp/env.sh; cd /repo;'
    out = open(results, 'a')

    def failed(log):
        return set(re.findall(r'^test (\S+) .*FAILED$', log, re.M))
    base = sh(env + 'timeout 300 cargo test --lib --all-features --no-fail-fast --offline -- --test-threads 4')
    known = failed(base.stdout)
    assert len(known) == 13, base.stdout[-2000:]
    del stable
    for n, m in enumerate(mutants):
        if n % lanes != lane:
            continue
        p = '/repo/' + m['file']
        src = open(p).read().split('\n')
        assert src[m['line']] == m['old']
        src[m['line']] = m['new']
        open(p, 'w').write('\n'.join(src))
        t = sh(env + 'timeout 120 cargo test --lib --all-features --no-fail-fast --offline -- --test-threads 4')
        if 'running ' not in t.stdout:
            v = 'does not build or hangs'
        elif failed(t.stdout) != known or 'test result' not in t.stdout:
            v = 'tests'
        else:
            v = 'SURVIVES'
            for c in FILES[m['file']].split():
                r = sh(f'cd /verif && timeout 870 ./check.sh {c}')
                if r.returncode == 1 and f'VIOLATION property={c}' in r.stdout:
                    v = 'caught by ' + c
                    break
                if r.returncode not in (0, 1):
                    v = f'no answer from {c}: {r.returncode} {r.stderr[-300:]}'
                    break
        sh('git -C /repo checkout -q -- .')
        out.write(json.dumps(dict(m, verdict=v)) + '\n')
        out.flush()
    return 0


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        ms = mutants(int(sys.argv[3]) if len(sys.argv) > 3 else 2)
        json.dump(ms, open(sys.argv[2], 'w'))
        print(len(ms), 'mutants')
    else:
        sys.exit(run(json.load(open(sys.argv[2])), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]))
