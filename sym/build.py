"""Build the harness crate (and through it /repo's crate) as LLVM IR and as native replayers."""
import re, os, subprocess, hashlib, glob, shutil, time, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HD = os.path.join(VERIF, 'harness')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'


def env():
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTC_WRAPPER', None)
    e['CARGO_INCREMENTAL'] = '0'
    return e


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(REPO + '/src')):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode()); h.update(open(p, 'rb').read())
    for f in ('Cargo.toml', 'build.rs'):
        p = os.path.join(REPO, f)
        if os.path.exists(p): h.update(open(p, 'rb').read())
    return h.hexdigest()


def harness_dir():
    """crate directory; when VERIF_REPO is set (development only) a copy pointing there"""
    return HD


def run(cmd, e, cwd, log):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:] + '\n')
        raise SystemExit('build failed: ' + ' '.join(cmd))
    return r.stdout


IRFLAGS = '--emit=llvm-ir -C panic=abort -C overflow-checks=on -C debug-assertions=off -C codegen-units=1 -C no-prepopulate-passes'


def lock(target):
    import fcntl
    os.makedirs(target, exist_ok=True)
    f = open(os.path.join(target, '.vlock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def stale(target, tag):
    p = os.path.join(target, '.repo-hash-' + tag)
    h = repo_hash() + ':' + REPO
    old = open(p).read() if os.path.exists(p) else ''
    return p, h, old != h


def clean(target):
    for prof in ('release', 'debug'):
        for g in ('.fingerprint/ebur128-*', '.fingerprint/h-*', 'deps/ebur128-*', 'deps/h-*', 'deps/libebur128-*', 'deps/libh-*', 'deps/*.llopt'):
            for p in glob.glob(os.path.join(target, prof, g)):
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)


def build_ir(features=''):
    target = os.path.join(HD, 'target', 'ir' + ('-' + features if features else ''))
    lk = lock(target)
    p, h, st = stale(target, 'ir')
    if st: clean(target)
    e = env()
    e['RUSTFLAGS'] = IRFLAGS
    e['CARGO_TARGET_DIR'] = target
    cmd = ['cargo', 'build', '--offline', '--release', '--lib']
    if features: cmd += ['--features', features]
    run(cmd, e, HD, None)
    open(p, 'w').write(h)
    res = []
    for crate in ('h', 'ebur128', 'smallvec', 'dasp_sample', 'dasp_frame', 'bitflags'):
        c = sorted(glob.glob(os.path.join(target, 'release/deps/%s-*.ll' % crate)), key=os.path.getmtime)
        if c: res.append(optimize(c[-1]))
    return res


# functions of the crate from an energy to a histogram bin (f64 -> usize), whatever they are called
BIN_FN = re.compile(r'^define [^@]*\bi64 @"?(_R(?!NvX)[^ ("]*7ebur128[^ ("]*)"?\(double [^,)]*\)')


def bin_fns(text): return [m.group(1) for m in re.finditer(BIN_FN.pattern, text, re.M)]


def opt_bin():
    r = subprocess.run(['rustc', '--print', 'sysroot'], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    b = glob.glob(r + '/lib/rustlib/*/bin/opt')
    return b[0]


def optimize(path):
    """run LLVM's own -O2 pipeline (scalar) over the front end's IR; functions that have a solver-checked
    summary are kept out of line"""
    out = path[:-3] + '.O2.llopt'
    if os.path.exists(out) and os.path.getmtime(out) > os.path.getmtime(path): return out
    text = open(path).read()
    lines = text.split('\n')
    for i, l in enumerate(lines):
        if l.startswith('define ') and BIN_FN.match(l):
            l = re.sub(r'( #\d+)', r' noinline\1', l, count=1)
            lines[i] = l.replace(' inlinehint', '').replace(' alwaysinline', '')
    tmp = out + '.in'
    open(tmp, 'w').write('\n'.join(lines))
    subprocess.run([opt_bin(), '-S', '-passes=default<O2>', '-force-vector-width=1', '-force-vector-interleave=1', '-vectorize-slp=false',
                    '-o', out + '.tmp', tmp], check=True)
    os.rename(out + '.tmp', out)
    os.unlink(tmp)
    return out


def build_native(features=''):
    target = os.path.join(HD, 'target', 'native' + ('-' + features if features else ''))
    lk = lock(target)
    p, h, st = stale(target, 'nat')
    if st: clean(target)
    e = env()
    e.pop('RUSTFLAGS', None)
    e['CARGO_TARGET_DIR'] = target
    out = []
    for prof in ([], ['--release']):
        cmd = ['cargo', 'build', '--offline', '--bin', 'replay'] + prof
        if features: cmd += ['--features', features]
        run(cmd, e, HD, None)
        out.append(os.path.join(target, 'release' if prof else 'debug', 'replay'))
    open(p, 'w').write(h)
    return out


if __name__ == '__main__':
    t = time.time()
    print(build_ir()); print(time.time() - t)
    print(build_native()); print(time.time() - t)
