"""check.py PROP [quick|thorough]: decide one property on /repo's current tree.

exit 0: every obligation of every configuration was discharged by the solver;
exit 1: a counterexample was found and reproduced against the natively compiled code (VIOLATION line);
exit 2: something could not be decided (engine error, timeout, counterexample that does not replay)."""
import os, sys, time, json, threading, random, collections, math, subprocess
from . import build, rt, run, terms as T
from .suites import SUITES

EVD = os.path.join(build.VERIF, 'evidence')
KNOWN = os.path.join(build.VERIF, 'known_findings.txt')
LIMIT = {'quick': 640, 'thorough': 5400}


def known_findings(prop):
    """lines 'known: property=<id> harness=<fn> id=<assertion> <what>'"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if not l.startswith('known:'): continue
            w = l.split()
            d = dict(x.split('=', 1) for x in w[1:4])
            if d['property'] == prop: out.append((d['harness'], d['id'], ' '.join(w[4:])))
    return out


def concrete_values(rng, vals):
    """value source for a concrete engine run, logging what it hands out"""
    def get(n, kind, lo, hi):
        if kind == 'choice': v = rng.randrange(hi + 1)
        elif kind == 'int':
            v = rng.choice((lo, hi, rng.randint(lo, hi), min(hi, lo + rng.randrange(16))))
        elif kind in ('f64', 'f32', 'f64r', 'f32r'):
            if kind[-1] == 'r': v = rng.choice((rng.uniform(lo, hi), math.exp(rng.uniform(math.log(max(lo, 1e-12)), math.log(hi))) if hi > 1e-12 and lo >= 0 else lo))
            else: v = rng.choice((0.0, 1.0, 0.3, 1e-4)) * rng.uniform(-1, 1)
            if kind[1] == '3': v = T.f32(v)
        elif kind == 'i16': v = rng.randrange(65536)
        elif kind == 'i32': v = rng.randrange(1 << 32)
        else: v = rng.randrange(2)
        vals.append([kind, '%016x' % T.d2b(v) if kind[0] == 'f' else v])
        return v
    return get


def selftest(prog, configs, bins, deadline, seed, per=1):
    """run the engine with concrete values and compare every compared value with the natively compiled
    harness on the same values, bit for bit"""
    traces = 0; outs = 0; bad = []
    jobs = []
    for c in configs:
        if c.opts.get('selftest', True) is False: continue
        for k in range(per): jobs.append((c, k))
    if not jobs: return 0, 0, []
    tmp = os.path.join('/tmp', 'vself%d' % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    import multiprocessing as mp
    pids = {}

    def reap():
        nonlocal traces, outs
        pid, st = os.wait()
        i, c, f = pids.pop(pid)
        if st != 0: bad.append('%s: engine run failed (status %d)' % (c.key, st)); return
        d = json.load(open(f))
        os.unlink(f)
        if d['status'] != 'ok':
            if d['status'] == 'error': bad.append('%s: %s' % (c.key, d['err']))
            return
        rp = f + '.txt'
        run.write_replay(rp, c, d['vals'])
        e = dict(os.environ); e['VOUT'] = '1'
        r = subprocess.run([bins[-1], rp, '1'], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        os.unlink(rp)
        nat = [int(l[4:], 16) for l in r.stdout.splitlines() if l.startswith('OUT ')]
        if r.returncode not in (0, 1): bad.append('%s: native run ended with %d' % (c.key, r.returncode)); return
        if len(nat) != len(d['outs']) or any(x != y and not (isnan64(x) and isnan64(y)) and (x | y) != 1 << 63 for x, y in zip(nat, d['outs'])):
            k = next((k for k, (x, y) in enumerate(zip(nat, d['outs'])) if x != y), -1)
            bad.append('%s: engine and native differ (value %d of %d/%d: %s %s) on %s' % (c.key, k, len(nat), len(d['outs']),
                       T.b2d(nat[k]) if nat else None, T.b2d(d['outs'][k]) if d['outs'] else None, d['vals'][:6]))
        else:
            traces += 1; outs += len(nat)
    for i, (c, k) in enumerate(jobs):
        if time.time() > deadline: break
        while len(pids) >= run.NPROC: reap()
        f = os.path.join(tmp, '%d.json' % i)
        pid = os.fork()
        if pid == 0:
            try:
                vals = []
                cfg = {'key': c.key, 'out': '/dev/null', 'deadline': deadline, 'want_outs': True}
                cfg.update(c.opts)
                cfg['concolic'] = k % 2 == 0         # symbolic terms evaluated afterwards / plain concrete execution
                if k % 2: cfg['hidx'] = False
                cfg['real'] = False
                d = rt.run_concrete(prog, c.fn, c.args, cfg, concrete_values(random.Random('%d/%d/%s' % (seed, k, c.key)), vals))
                d['vals'] = vals
                json.dump(d, open(f, 'w'))
                os._exit(0)
            except BaseException:
                import traceback; traceback.print_exc()
                os._exit(9)
        pids[pid] = (i, c, f)
    while pids: reap()
    try: os.rmdir(tmp)
    except OSError: pass
    return traces, outs, bad


def isnan64(b): return (b >> 52) & 0x7ff == 0x7ff and b & ((1 << 52) - 1)


def main(prop, tier, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    suite = SUITES[prop]
    configs = suite['configs'](tier)
    limit = float(os.environ.get('VERIF_LIMIT', LIMIT[tier]))
    deadline = t0 + limit
    feats = sorted({c.feature for c in configs})
    nat = {}

    def bn(f):
        try: nat[f] = build.build_native(f)
        except SystemExit as e: nat[f] = e
    ths = [threading.Thread(target=bn, args=(f,)) for f in feats]
    for t in ths: t.start()
    results = {}
    progs = {}
    try:
        irs = {f: build.build_ir(f) for f in feats}
    except SystemExit as e:
        print('ERROR ' + str(e)); return 2
    for t in ths: t.join()
    for f in feats:
        if not isinstance(nat[f], list): print('ERROR native build: %s' % nat[f]); return 2
    fns = set(); selft = [0, 0, []]
    known = known_findings(prop)
    early = collections.Counter()
    hits = []

    def on_cex(c, x):
        """replay a counterexample as soon as it is found; a confirmed one ends the exploration"""
        k = (c.fn, str(x['id']))
        if time.time() > deadline - 90 or early[k] >= 2 or sum(early.values()) >= 12 or any(h == c.fn and i == k[1] for h, i, w in known): return False
        early[k] += 1
        os.makedirs(EVD + '/replay', exist_ok=True)
        p = os.path.join(EVD, 'replay', '%s-0.txt' % prop); o = p + '.out'
        run.write_replay(p, c, x['vals'] or [], '%s %s id %s level %s cond %s' % (prop, x['kind'], x['id'], x['level'], x['cond']))
        ok, msg, b = run.native(nat[c.feature], p, 60, o, timeout=20, seed=seed)
        if not ok:
            os.unlink(p); return False
        if os.path.exists(o): os.replace(o, p)
        hits.append((c.key, x['id'], (p, msg, b)))
        return True

    for f in feats:
        cs = [c for c in configs if c.feature == f]
        rt.PROG = prog = rt.Program(irs[f])
        fns |= run.precompile(prog, {c.fn for c in cs})
        results.update(run.explore(prog, cs, deadline - 60, base={'seed': seed}, verbose=verbose, on_cex=on_cex))
        if hits: break
        a, b, bad = selftest(prog, cs if tier == 'thorough' else pick(cs, 12, seed), nat[f], min(deadline, time.time() + 150), seed, 3 if tier == 'thorough' else 2)
        selft[0] += a; selft[1] += b; selft[2] += bad
    # ------------------------------------------------------------ judge
    tot = collections.Counter(); qtime = 0.0; undecided = []; samples = []; covers = collections.Counter(); sums = set()
    cexs = []
    byid = collections.Counter()
    for c in configs:
        recs = results.get(c.key, [])
        s = run.summarize(recs)
        for k in ('paths', 'checks', 'trivial', 'queries', 'unknown', 'infeasible'): tot[k] += s[k]
        tot['dec'] += sum(r.get('dec', 0) for r in recs if r['t'] == 'path')
        qtime += s['qtime']
        for k, v in s['covers'].items(): covers[k] += v
        if s['errors']: undecided.append('%s: %s' % (c.key, s['errors'][0]))
        if s['timeouts']: undecided.append('%s: not finished in time' % c.key)
        for k in c.must_cover:
            if k not in s['covers'] and not s['cex'] and not s['errors'] and not s['timeouts']: undecided.append('%s: cover point %s not reached' % (c.key, k))
        for x in s['cex']: cexs.append((c, x))
        for r in recs:
            if r['t'] == 'path': sums.update(r.get('sum', ()))
        if s['samples'] and len(samples) < 8: samples.append({'config': c.key, 'path_witness': s['samples'][0]})
    undecided += ['engine self-test: ' + b for b in selft[2]]
    violations = list(hits); unrepro = []; ties = []; retry = collections.OrderedDict()
    printed = set()
    os.makedirs(EVD + '/replay', exist_ok=True)
    n = 0
    seen_fn = set()

    def replay(cexs, final):
        nonlocal n
        groups = collections.OrderedDict()
        for c, x in cexs: groups.setdefault((c.key, str(x['id'])), []).append((c, x))
        for (key, ident), l in groups.items():
            if violations and (l[0][0].fn, ident) in seen_fn: continue       # same failure in another configuration
            if len(violations) >= 5 or (violations and time.time() > deadline - 30): break
            hit = None
            l.sort(key=lambda e: bool(e[1].get('tie')))
            for c, x in l[:6]:
                n += 1
                p = os.path.join(EVD, 'replay', '%s-%d.txt' % (prop, n)); o = p + '.out'
                run.write_replay(p, c, x['vals'] or [], '%s %s id %s level %s cond %s' % (prop, x['kind'], ident, x['level'], x['cond']))
                ok, msg, b = run.native(nat[c.feature], p, 300, o, timeout=60, seed=seed)
                if ok:
                    if os.path.exists(o): os.replace(o, p)
                    hit = (p, msg, b); break
                os.unlink(p)
            if hit is None and all(x.get('tie') for c, x in l):
                ties.append('%s: obligation %s' % (key, ident)); continue
            if hit is None:
                if not final and not l[0][0].opts.get('real') and not l[0][0].opts.get('noretry'): retry[key] = l[0][0]
                else: unrepro.append('%s: obligation %s: %s' % (key, ident, l[0][1]['cond'][:300]))
                continue
            k = [w for h, i, w in known if h == l[0][0].fn and i == ident]
            if k:
                printed.add(k[0]); continue
            seen_fn.add((l[0][0].fn, ident))
            violations.append((key, ident, hit))

    if not hits: replay(cexs, False)
    rerun = []
    if retry and not violations:
        # the difference is not real on any replayed input: decide the configuration again over the reals
        # (equal up to rounding), where reassociated arithmetic has one normal form
        cexs2 = []
        for f in feats:
            cs = [run.Config(c.fn, c.args, c.must_cover, c.feature, **dict(c.opts, real=True)) for c in retry.values() if c.feature == f]
            if not cs: continue
            rt.PROG = rt.Program(irs[f])
            run.precompile(rt.PROG, {c.fn for c in cs})
            for c, (key, recs) in zip(cs, sorted_like(cs, run.explore(rt.PROG, cs, deadline - 30, base={'seed': seed}, verbose=verbose))):
                s = run.summarize(recs)
                rerun.append(key)
                for k in ('paths', 'checks', 'trivial', 'queries', 'unknown', 'infeasible'): tot[k] += s[k]
                qtime += s['qtime']
                if s['errors']: undecided.append('%s (reals): %s' % (c.key, s['errors'][0]))
                if s['timeouts']: undecided.append('%s (reals): not finished in time' % c.key)
                cexs2 += [(c, x) for x in s['cex']]
        replay(cexs2, True)
        cexs = [(c, x) for c, x in cexs if c.key not in retry] + cexs2
    for w in sorted(printed): print('KNOWN-FINDING: property=%s %s' % (prop, w))
    for key, ident, (p, msg, b) in violations:
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('  %s obligation %s: %s (reproduce: %s %s)' % (key, ident, msg, b, p))
    undecided += ['counterexample does not replay: ' + u for u in unrepro]
    # ------------------------------------------------------------ evidence
    discharged = tot['checks'] - len(cexs)
    names = sorted(n.split(':', 1)[1] for n in fns)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': suite['level'],
        'coverage': {
            'states': tot['paths'], 'transitions': tot['dec'], 'traces_validated_against_impl': selft[0],
            'obligations': tot['checks'], 'discharged': discharged,
            'discharged_by_term_rewriting': tot['trivial'], 'solver_queries': tot['queries'], 'solver_seconds': round(qtime, 2),
            'paths_ending_in_assumption_or_panic_edge': tot['infeasible'], 'solver_unknown': tot['unknown'],
            'configurations': [c.key for c in configs],
            'cover_points_reached': {str(k): v for k, v in sorted(covers.items())},
            'functions_encoded': short(names), 'summaries_used': sorted(sums),
            'engine_vs_native_values_compared': selft[1],
            'bounds': suite['bounds'], 'outside': suite.get('outside', ''),
            'solver': 'z3 %s' % '.'.join(map(str, rt.z3.get_version()[:3])),
            'decided_over_reals_after_unconfirmed_difference': rerun, 'differences_within_rounding': ties, 'undecided': undecided, 'samples': samples or [{'config': configs[0].key}],
            'explanation': 'states = symbolic paths, each standing for all inputs that satisfy its path condition; transitions = branch decisions both sides of which the solver found feasible; '
                           'traces_validated_against_impl = concrete runs on which the symbolic engine and the compiled code agreed bit for bit on every compared value',
        },
        'assumptions': suite['assumptions'], 'wall_s': round(time.time() - t0, 1), 'violations': len(violations)}
    os.makedirs(EVD, exist_ok=True)
    with open(os.path.join(EVD, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d configurations, %d paths, %d obligations (%d by rewriting), %d queries %.1fs, %d traces validated, %.0fs' % (
        prop, tier, len(configs), tot['paths'], tot['checks'], tot['trivial'], tot['queries'], qtime, selft[0], time.time() - t0))
    if violations: return 1
    if undecided:
        for u in undecided[:20]: print('UNDECIDED ' + u)
        return 2
    return 0


def sorted_like(cs, res): return [(c.key, res.get(c.key, [])) for c in cs]


def pick(cs, n, seed):
    if len(cs) <= n: return cs
    return random.Random(seed).sample(cs, n)


def short(names):
    """demangle a little: keep crate paths readable"""
    import shutil
    b = shutil.which('rustfilt') or shutil.which('llvm-cxxfilt') or shutil.which('llvm-cxxfilt-18') or shutil.which('c++filt')
    if b:
        try:
            r = subprocess.run([b], input='\n'.join(names), stdout=subprocess.PIPE, text=True, timeout=20)
            l = r.stdout.splitlines()
            if len(l) == len(names): names = l
        except Exception: pass
    return sorted({n[:160] for n in names if not n.startswith(('core::', '_RNvC'))})[:400]


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(main(a[0], tier, '-v' in sys.argv))
