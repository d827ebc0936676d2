#!/usr/bin/env python3
"""Generate /verif/seeded/<id>/ from bugs*.py and confirm each one:
mk.py ID...  (no ID: all)  -- builds the patch in a scratch copy of /repo, runs the repository's
tests and the demonstration with and without the change."""
import glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
BUGS = {}
for f in sorted(glob.glob(HERE + '/bugs*.py')):
    ns = {}
    exec(open(f).read(), ns)
    for b in ns['BUGS']:
        assert b['id'] not in BUGS, b['id']
        BUGS[b['id']] = b
def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
ids = sys.argv[1:] or list(BUGS)
os.environ['RUST_BACKTRACE'] = '0'
os.environ['CARGO_PROFILE_DEV_OPT_LEVEL'] = '1'
bad = []
def work(args):
    W, todo = args
    subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    if not os.path.exists(W + '/Cargo.lock'): shutil.copy('/repo/Cargo.lock', W)
    for i in todo: one(W, i)
def one(W, i):
    b = BUGS[i]
    sh('git checkout -q -- .', W)
    for (f, old, new) in b['edits']:
        p = W + '/' + f
        s = open(p).read()
        if s.count(old) != 1:
            print(i, 'edit does not match uniquely in', f, s.count(old)); bad.append(i); return
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', W).stdout
    d = f'{OUT}/{i}'; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write('mod prelude;\nuse prelude::*;\n\n' + b['demo'].lstrip('\n'))
    shutil.copy(HERE + '/prelude.rs', d)
    open(d + '/demo.sh', 'w').write(open(HERE + '/demo.sh').read().replace('EXTRA\n', b.get('extra', '')))
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    t = sh('timeout 300 cargo test --offline --no-fail-fast -- --include-ignored 2>&1', W)
    passed = sum(int(l.split()[3]) for l in t.stdout.splitlines() if l.startswith('test result:'))
    tests_ok = passed >= 22
    with_bug = sh(['bash', d + '/demo.sh'], W)
    sh('git checkout -q -- .', W)
    without = sh(['bash', d + '/demo.sh'], W)
    good = tests_ok and with_bug.returncode not in (0, 99) and without.returncode == 0
    msg = [i + (' OK' if good else ' BAD') + f' tests {tests_ok} {passed} demo with bug {with_bug.returncode} without {without.returncode}']
    if not good:
        bad.append(i)
        if not tests_ok: msg.append('\n'.join(l for l in t.stdout.splitlines() if 'FAILED' in l or 'error' in l)[:1500])
        msg += [with_bug.stdout[-1500:], '--- without', without.stdout[-1500:]]
    else:
        msg += ['   ' + ' | '.join(with_bug.stdout.strip().splitlines()[1:2])]
    print('\n'.join(msg), flush=True)
from concurrent.futures import ThreadPoolExecutor
N = min(4, len(ids))
parts = [(f'/tmp/mutwork{k}', ids[k::N]) for k in range(N)]
for W, _ in parts: subprocess.run(['rm', '-rf', W])
with ThreadPoolExecutor(N) as ex: list(ex.map(work, parts))
for W, _ in parts: subprocess.run(['rm', '-rf', W])
print('bad:', bad)
