"""Driver: explore a list of harness configurations symbolically, replay counterexamples natively."""
import os, sys, time, json, signal, tempfile, multiprocessing as mp, subprocess, shutil, re
from . import build, rt, ll

VERIF = build.VERIF
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or max(1, min(8, os.cpu_count() or 1))


class Config:
    def __init__(self, fn, args, must_cover=(), feature='', **opts):
        self.fn = fn; self.args = list(args); self.opts = opts; self.must_cover = tuple(must_cover); self.feature = feature
        self.key = '%s(%s)%s' % (fn, ','.join(map(str, args)), '+' + feature if feature else '')


def load_program(feature=''):
    paths = build.build_ir(feature)
    rt.PROG = rt.Program(paths)
    return rt.PROG


CALLRE = re.compile(r"CALL\['([^']+)'\]")


def precompile(prog, fns):
    todo = [k for k in (prog.resolve(f) for f in fns) if k]
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen: continue
        seen.add(k)
        try:
            prog.ns['CALL'][k]
        except Exception as e:
            sys.stderr.write('compile %s: %r\n' % (k, e)); continue
        todo += CALLRE.findall(prog.func(k).src)
    return seen


def explore(prog, configs, deadline, base=None, verbose=False, real=False, on_cex=None):
    """returns {key: [records]}; on_cex(config, record) is called for counterexamples as they come in and
    ends the exploration by returning True; everything still running 15 s after the deadline is ended"""
    tmp = tempfile.mkdtemp(prefix='vsym')
    sem = mp.Semaphore(NPROC)
    res = {}
    procs = {}
    npaths = []
    polled = {}
    last = [time.time()]
    stop = False

    def poll():
        if on_cex is None or time.time() - last[0] < 2: return False
        last[0] = time.time()
        for n, c, out, t in list(procs.values()): 
            if scan(n, c, out): return True
        return False

    def scan(n, c, out):
        if on_cex is None or not os.path.exists(out): return False
        with open(out) as f:
            f.seek(polled.get(n, 0))
            data = f.read()
        end = data.rfind('\n') + 1
        polled[n] = polled.get(n, 0) + len(data[:end].encode())
        for l in data[:end].splitlines():
            if '"cex"' in l:
                try: r = json.loads(l)
                except ValueError: continue
                if r['t'] == 'cex' and on_cex(c, r): return True
        return False

    def reap():
        nonlocal stop
        while procs:
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0: break
            if pid in procs:
                n, c, out, t = procs[pid]
                _done(procs, pid, st, res, verbose)
                if scan(n, c, out): stop = True
        if poll(): stop = True
        if time.time() > deadline + 15:
            for pid in list(procs):
                kill(pid)
                _, st = os.waitpid(pid, 0)
                _done(procs, pid, 0, res, verbose)
                res[configs_by_pid[pid].key].append({'t': 'timeout', 'what': 'ended'})

    def kill(pid):
        try: os.killpg(pid, signal.SIGKILL)
        except OSError: pass

    configs_by_pid = {}
    try:
        for n, c in enumerate(configs):
            while not stop and time.time() < deadline and not sem.acquire(True, 0.5): reap()
            if stop: break
            if time.time() >= deadline:
                res[c.key] = [{'t': 'timeout', 'what': 'not started'}]; continue
            npath = mp.Value('L', 1); nsample = mp.Value('L', 0)
            npaths.append((npath, nsample))
            out = os.path.join(tmp, '%d.json' % n)
            cfg = {'key': c.key, 'out': out, 'deadline': deadline, 'root_token': True, 'sample': True, 'want_fns': False, 'real': real}
            cfg.update(base or {}); cfg.update(c.opts)
            if 'limit_s' in cfg: cfg['deadline'] = min(deadline, time.time() + cfg['limit_s'])
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                rt.run_harness(prog, c.fn, c.args, cfg, sem, npath, nsample)
                os._exit(9)
            try: os.setpgid(pid, pid)
            except OSError: pass
            procs[pid] = (n, c, out, time.time())
            configs_by_pid[pid] = c
            reap()
            if stop: break
        while procs and not stop:
            reap()
            if procs and not stop: time.sleep(0.05)
    finally:
        for pid in list(procs):
            kill(pid)
            try: os.waitpid(pid, 0)
            except OSError: pass
            n, c, out, t = procs[pid]
            if c.key not in res: res[c.key] = []
        shutil.rmtree(tmp)
    return res


def _done(procs, pid, st, res, verbose):
    if pid not in procs: return
    n, c, out, t = procs.pop(pid)
    recs = []
    if os.path.exists(out):
        for l in open(out):
            try: recs.append(json.loads(l))
            except ValueError: recs.append({'t': 'error', 'what': 'bad record'})
    if st != 0: recs.append({'t': 'error', 'what': 'status %d' % st})
    if not any(r['t'] == 'path' for r in recs): recs.append({'t': 'error', 'what': 'no path'})
    res[c.key] = recs
    if verbose:
        s = summarize(recs)
        sys.stderr.write('%-52s %6.1fs paths %d checks %d (%d trivial) queries %d (%.1fs) cex %d err %s cov %s\n' % (
            c.key, time.time() - t, s['paths'], s['checks'], s['trivial'], s['queries'], s['qtime'], len(s['cex']), s['errors'][:2], sorted(s['covers'])[:12]))


def summarize(recs):
    s = {'paths': 0, 'checks': 0, 'trivial': 0, 'queries': 0, 'qtime': 0.0, 'cex': [], 'errors': [], 'covers': {}, 'timeouts': 0, 'unknown': 0,
         'samples': [], 'fns': set(), 'infeasible': 0}
    for r in recs:
        if r['t'] == 'path':
            s['paths'] += 1
            s['checks'] += r['checks']; s['trivial'] += r['trivial']; s['queries'] += r['queries']; s['qtime'] += r['qtime']
            s['unknown'] += r['unknown']
            for c in r['covers']: s['covers'][c] = s['covers'].get(c, 0) + 1
            if r.get('sample'): s['samples'].append(r['sample'])
            if r['status'] == 'end': s['infeasible'] += 1
        elif r['t'] == 'cex': s['cex'].append(r)
        elif r['t'] == 'error': s['errors'].append(r['what'])
        elif r['t'] == 'timeout': s['timeouts'] += 1
        elif r['t'] == 'fns': s['fns'].update(r['fns'])
    return s


# ---------------------------------------------------------------- native replay
def write_replay(path, c, vals, extra=''):
    with open(path, 'w') as f:
        f.write('# %s\n' % extra.replace('\n', ' '))
        f.write('fn %s %s\n' % (c.fn, ' '.join(str(a) for a in c.args)))
        f.write('feature %s\n' % (c.feature or '-'))
        for k, v in vals: f.write('%s %s\n' % (k, '-' if v is None else v))


def native(bins, path, attempts, out, timeout=120, seed=1):
    """run the replayer; returns (violated, message)"""
    for b in bins:
        try:
            r = subprocess.run([b, path, str(attempts), out, str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired:
            continue
        if r.returncode == 1:
            m = [l for l in r.stdout.splitlines() if l.startswith('FAIL')]
            return True, (m[0] if m else 'failed'), b
        if r.returncode < 0:
            return True, 'killed by signal %d' % -r.returncode, b
        if r.returncode not in (0,):
            sys.stderr.write('replay exit %d: %s\n' % (r.returncode, r.stderr[-500:]))
    return False, '', ''
