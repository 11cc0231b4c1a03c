#!/usr/bin/env python3
"""plant.py FILE...: build and validate planted bugs from specs (tools/plants_*.py) into /verif/seeded/<id>/.

Works on a scratch copy of /repo; a bug is kept when the patched tree builds, passes the stable tests and the
demo passes on the clean tree and fails on the patched one."""
import sys, os, subprocess, json, shutil, importlib.util
W = '/tmp/plant'
R = W + '/repo'
DEMO = '''#!/bin/bash
# builds main.rs against the crate in the current directory; exits 0 when the property holds on the demonstrated case
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
w=$(mktemp -d) || exit 2
mkdir "$w/src"; cp "$here/main.rs" "$w/src/main.rs"; cp "$here/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ebur128 = { path = "$repo", features = ["internal-tests", "capi"] }
E
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2>"$w/log" || { cat "$w/log"; rm -rf "$w"; exit 2; }
timeout 120 "$w/target/debug/demo"; rc=$?
rm -rf "$w"
exit $rc
'''


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prep():
    if not os.path.exists(R):
        os.makedirs(W, exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', R])
        os.makedirs(W + '/vp', exist_ok=True)
        for f in ('build.sh', 'test.sh', 'env.sh', 'results.py'):
            s = open('/opt/vp/' + f).read().replace('/opt/vp/env.sh', W + '/vp/env.sh').replace('/opt/vp/logs', W + '/vp/logs').replace('/opt/vp/results.py', W + '/vp/results.py').replace('/repo', R)
            open(W + '/vp/' + f, 'w').write(s)
    sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -qf FETCH_HEAD' % (R, R))


def plant(b):
    sh('git -C %s checkout -qf .' % R)
    out = '/verif/seeded/' + b['id']
    for f, old, new in b['edits']:
        p = os.path.join(R, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1 and not b.get('all'): return 'edit matches %d times: %r' % (n, old[:60])
        s = s.replace(old, new)
        open(p, 'w').write(s)
    diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    # only original lines may be changed
    for f in {e[0] for e in b['edits']}:
        ours = {l for l in subprocess.run(['git', '-C', R, 'diff', '-U0', '5b76391', 'HEAD', '--', f], stdout=subprocess.PIPE, text=True).stdout.splitlines() if l.startswith('+') and not l.startswith('+++')}
        for l in subprocess.run(['git', '-C', R, 'diff', '-U0', '--', f], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            if l.startswith('-') and not l.startswith('---') and '+' + l[1:] in ours and l[1:].strip() not in ('', '}', 'Ok(())'): print('  note: changes a line of ours: ' + l)
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/main.rs', 'w').write(b['main'])
    open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
    shutil.copy('/verif/tools/demo.Cargo.lock', out + '/Cargo.lock')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    bad = lambda m: (shutil.rmtree(out), m)[1]
    r = sh(out + '/demo.sh', cwd='/repo')
    if r.returncode: return bad('demo fails on the clean tree: ' + r.stdout[-600:])
    r = sh(out + '/demo.sh', cwd=R)
    if r.returncode == 0: return bad('demo passes with the patch')
    if r.returncode == 2: return bad('patched tree does not build: ' + r.stdout[-1500:])
    demo_out = r.stdout.strip().splitlines()[-1:]
    if '--notest' not in sys.argv:
        r = sh('bash %s/vp/build.sh' % W)
        if r.returncode: return bad('build fails: ' + r.stdout[-800:])
        for k in range(2):
            r = sh('bash %s/vp/test.sh %s/out.json' % (W, W))
            try: o = json.load(open(W + '/out.json'))
            except Exception: return bad('no test result ' + r.stdout[-300:])
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            failed = stable - set(o.get('passed', o.get('pass', [])))
            if failed: return bad('tests fail: %s' % sorted(failed)[:4])
    return 'ok'


prep()
for f in sys.argv[1:]:
    if f.startswith('--'): continue
    spec = importlib.util.spec_from_file_location('p', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for b in m.BUGS:
        if os.path.exists('/verif/seeded/' + b['id']) and '--force' not in sys.argv: continue
        print(b['id'], plant(b), flush=True)
sh('git -C %s checkout -qf .' % R)
