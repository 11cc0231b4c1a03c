"""Runtime of the symbolic executor: memory, path conditions, forking, externals.

One process executes one path.  At a decision that the solver finds feasible both ways the process
forks (os.fork); the child takes one side.  Everything is process global on purpose.
"""
import os, sys, time, json, math, bisect
from fractions import Fraction
import z3
from . import terms as T, ll, realnf
from .terms import Term
from .smt import Trans, OTrans

M64 = T.mask(64)
SH = 36
BIAS = 1 << 35


class PathEnd(Exception): pass
class EngineError(Exception): pass


class Obj:
    __slots__ = ('size', 'cells', 'base', 'fill', 'name', 'ro', 'sym')

    def __init__(self, size, name, fill=None, base=None, ro=False):
        self.size = size; self.cells = {}; self.base = base; self.fill = fill; self.name = name; self.ro = ro
        self.sym = None


OBJS = {}
NEXT = [16]
CELLN = {'d': 8, 's': 4}; CELLN.update((i, i) for i in range(1, 17))


def new_obj(size, name, fill=None, base=None, ro=False):
    i = NEXT[0]; NEXT[0] += 1
    OBJS[i] = Obj(size, name, fill, base, ro)
    return (i << SH) + BIAS


class CallTab(dict):
    def __missing__(self, key):
        f = PROG.compile(key)
        self[key] = f
        return f


class Program:
    def __init__(self, paths):
        self.mods = [ll.Module(p) for p in paths]
        self.findex = {}
        self.gindex = {}
        for n, m in enumerate(self.mods):
            m.n = n
            for f in m.funcs: self.findex.setdefault(f, n)
            for g in m.globals: self.gindex.setdefault(g, n)
        from . import build
        c = sorted({f for q in paths for f in build.bin_fns(open(q).read())})
        self.bin_fn = c[0] if len(c) == 1 else None
        self.addrs = {}
        self.faddr = {}
        self.ns = {'T': T, 'rt': sys.modules[__name__], 'NAN': math.nan, 'INF': math.inf, 'CALL': CallTab()}
        self.ns['CALL'].prog = self
        self.compiled = []
        self.compile_s = 0

    def resolve(self, name, mod=None):
        n = self.findex.get(name)
        if mod is not None and name in mod.funcs: n = mod.n
        if n is None:
            for m in self.mods:
                if name in m.alias: return self.resolve(m.alias[name], m)
            return None
        return '%d:%s' % (n, name)

    def func(self, key):
        n, name = key.split(':', 1)
        return self.mods[int(n)].funcs[name]

    def compile(self, key):
        fn = self.func(key)
        t = time.time()
        f = ll.CG(fn, self).compile()
        self.compile_s += time.time() - t
        self.compiled.append(key)
        return f

    def addr_of(self, name, mod=None):
        n = self.gindex.get(name)
        if mod is not None and name in mod.globals: n = mod.n
        if n is None:
            key = self.resolve(name, mod) or 'ext:' + name
            a = self.addrs.get(key)
            if a is None:
                a = self.addrs[key] = new_obj(1, 'fn ' + name, ro=True)
                self.faddr[a] = key
            return a
        key = (n, name)
        a = self.addrs.get(key)
        if a is not None: return a
        ty, v, const = ll.parse_global(self.mods[n].globals[name])
        size = ll.sizeof(ty)
        a = self.addrs[key] = new_obj(size, '@' + name, base=bytearray(size), ro=const)
        if v is None: raise EngineError('external global ' + name)
        o = OBJS[a >> SH]
        self.init(o, 0, ty, v, self.mods[n], a)
        return a

    def init(self, o, off, ty, v, mod, self_addr):
        if v.k == 'zero' or v.k == 'u': return
        if v.k == 'bytes': o.base[off:off + len(v.v)] = v.v; return
        if v.k == 'agg':
            if ty[0] == 'a':
                sz = ll.sizeof(ty[2])
                for k, e in enumerate(v.v): self.init(o, off + k * sz, ty[2], e, mod, self_addr)
            else:
                for k, e in enumerate(v.v): self.init(o, off + ll.field_off(ty, k), ty[2][k], e, mod, self_addr)
            return
        if v.k == 'g':
            o.cells[off] = (8, self.addr_of(v.v[0], mod) + v.v[1]); return
        if v.k == 'cexpr':
            x = self.cexpr(v, mod)
            n = ll.sizeof(ty)
            o.cells[off] = (n, x & T.mask(8 * n)); return
        if ty in ('d', 's'):
            o.cells[off] = (ty, v.v); return
        n = ll.sizeof(ty)
        o.base[off:off + n] = v.v.to_bytes(n, 'little')

    def cexpr(self, v, mod):
        if v.k == 'g': return self.addr_of(v.v[0], mod) + v.v[1]
        if v.k == 'c': return v.v
        op = v.v[0]
        if op == 'trunc': return REL_TAG | 0 if False else self.cexpr(v.v[1], mod)
        a = self.cexpr(v.v[1], mod); b = self.cexpr(v.v[2], mod)
        return (a - b if op == 'sub' else a + b)


# --------------------------------------------------------------- path state
class St: pass


S = St()


def reset_state(cfg):
    S.cfg = cfg
    T.REAL[0] = realnf if cfg.get('real') else None
    realnf.EXPAND[0] = bool(cfg.get('expand'))
    S.conds = []
    S.solver = z3.SimpleSolver()
    S.solver.set('timeout', cfg.get('feas_ms', 20000))
    S.solver.set('random_seed', cfg.get('seed', 1) & 0x7fffffff)
    S.tr = OTrans('op', cfg.get('ints', 'bv'))
    S.inputs = []         # (name, kind, term, lo, hi)
    S.nvar = 0
    S.covers = []
    S.outs = []
    S.checks = 0; S.trivial = 0; S.queries = 0; S.qtime = 0.0
    S.decisions = 0
    S.children = []
    S.mxcsr = 0x1f80
    S.depth = 0
    S.token = True
    S.viol = 0
    S.concrete = cfg.get('concrete')
    S.concolic = None
    if cfg.get('concolic'):
        S.concolic = T.Evaluator({}, lambda e: HREAL[0](e), table_value)
    S.unknown = 0
    S.forksel = cfg.get('forksel', False)
    S.choices = []
    S.summaries = set()
    S.fb = {}
    T.KNOWN.clear(); T.FLO.clear(); T.NONNEG.clear()


def record(d):
    d['h'] = S.cfg.get('key')
    b = (json.dumps(d) + '\n').encode()
    fd = os.open(S.cfg['out'], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
    os.write(fd, b)
    os.close(fd)


def flush_side(tr, solver):
    if tr.side:
        solver.add(*tr.side)
        tr.side.clear()


def check(*assumptions):
    t = time.time()
    r = S.solver.check(*assumptions)
    dt = time.time() - t
    S.queries += 1
    S.qtime += dt
    return r


def known_add(c, v):
    """record that boolean term c has value v on this path, with cheap consequences"""
    K = T.KNOWN
    st = [(c, v)]
    while st:
        c, v = st.pop()
        if c.__class__ is not Term: continue
        if c.op == 'not': st.append((c.args[0], 1 - v)); continue
        if c in K: continue
        K[c] = v
        op = c.op; A = c.args
        if op == 'and' and v: st += [(A[0], 1), (A[1], 1)]
        elif op == 'or' and not v: st += [(A[0], 0), (A[1], 0)]
        elif op in ('flt', 'fle'):
            so = A[0].sort if A[0].__class__ is Term else A[1].sort
            bound(op, A, v, so)
            if v:
                for x in A:
                    if x.__class__ is Term: st.append((T.isnan(x, so), 1)) if False else st.append((T.isnan(x, so), 0))
                rev = T.mk_raw('flt', 1, A[1], A[0])
                if op == 'flt':
                    st.append((rev, 0)); st.append((T.mk_raw('fle', 1, A[1], A[0]), 0)); st.append((T.mk_raw('fle', 1, A[0], A[1]), 1))
                else: st.append((rev, 0))
            else:
                if op == 'fle': st.append((T.mk_raw('flt', 1, A[0], A[1]), 0))
        elif op == 'eq' and v and A[0].__class__ is Term and A[1].__class__ is int:
            subst(A[0], A[1])
        elif op == 'isnan' and v:
            pass


def bound(op, A, v, so):
    """remember the constant bounds of a float term"""
    a, b = A
    if a.__class__ is Term and b.__class__ is Term: return
    x = a if a.__class__ is Term else b
    c = b if x is a else a
    if not v and not (T.REAL[0] or K_isnan(x, so)): return
    upper = (x is a) == bool(v)
    strict = (op == 'flt') == bool(v)
    lo, ls, hi, hs = S.fb.get(x, (-math.inf, False, math.inf, False))
    if upper:
        if c < hi or (c == hi and strict): hi, hs = c, strict
    elif c > lo or (c == lo and strict): lo, ls = c, strict
    S.fb[x] = (lo, ls, hi, hs)


def K_isnan(x, so):
    n = T.isnan(x, so)
    return n == 0 if n.__class__ is int else T.KNOWN.get(n) == 0


def by_bounds(c):
    """truth value of a comparison with a constant as far as the known bounds decide it"""
    a, b = c.args
    if a.__class__ is Term and b.__class__ is Term: return None
    x = a if a.__class__ is Term else b
    k = b if x is a else a
    f = S.fb.get(x)
    if T.REAL[0] and x.op == 'fsum':
        lo, hi = interval(x)
        if f is None or lo > f[0] or hi < f[2]:
            g = f or (-math.inf, False, math.inf, False)
            f = (lo, False) if lo > g[0] else g[:2]
            f += (hi, False) if hi < g[2] else g[2:]
    if f is None: return None
    lo, ls, hi, hs = f
    strict = c.op == 'flt'
    if x is a:       # x < k
        if hi < k or (hi == k and (hs or not strict)):
            return 1 if T.REAL[0] or K_isnan(x, x.sort) else None
        if lo > k or (lo == k and (ls or strict)): return 0
    else:            # k < x
        if lo > k or (lo == k and (ls or not strict)):
            return 1 if T.REAL[0] or K_isnan(x, x.sort) else None
        if hi < k or (hi == k and (hs or strict)): return 0
    return None


def interval(t):
    """bounds of a sum from the bounds of its terms (slightly widened)"""
    if t.op != 'fsum':
        f = S.fb.get(t)
        if f is not None: return f[0], f[2]
        return (0.0 if T.nonneg(t) else -math.inf), math.inf
    lo = hi = float(t.args[0]); m = abs(lo)
    for u, c in zip(t.args[1::2], t.args[2::2]):
        l, h = interval(u)
        c = float(c)
        if c < 0: l, h = h, l
        lo += c * l; hi += c * h
        m = max(m, abs(c * l), abs(c * h))
        if lo == -math.inf and hi == math.inf: return lo, hi
    if m == math.inf: return (lo - abs(lo) * 1e-12 if lo > -math.inf else lo), (hi + abs(hi) * 1e-12 if hi < math.inf else hi)
    return lo - m * 1e-12, hi + m * 1e-12


def subst(t, v):
    K = T.KNOWN
    if t in K: return
    K[t] = v
    if t.op in ('zext',): 
        subst(t.args[0], v)


def assume(c):
    """assert a boolean term on the path (it must be feasible)"""
    if c.__class__ is int:
        return
    if S.concolic is not None:
        known_add(c, 1); return
    z = S.tr.tr(c)
    flush_side(S.tr, S.solver)
    S.solver.add(z)
    S.conds.append(c)
    known_add(c, 1)


def simp(c):
    """re-simplify a boolean under KNOWN (shallow)"""
    if c.__class__ is int: return c
    v = T.KNOWN.get(c)
    if v is not None: return v
    if c.op == 'flt' or c.op == 'fle':
        v = by_bounds(c)
        if v is not None: return v
        return c
    if c.op == 'not':
        r = simp(c.args[0])
        return 1 - r if r.__class__ is int else T.not_(r)
    if c.op == 'ite':
        k = simp(c.args[0])
        if k.__class__ is int: return simp(c.args[1] if k else c.args[2])
        return c
    if c.op in ('and', 'or') and c.sort == 1:
        a = simp(c.args[0]); b = simp(c.args[1])
        return T.and_(a, b, 1) if c.op == 'and' else T.or_(a, b, 1)
    return c


ICMPS = {'eq', 'ult', 'ule', 'slt', 'sle'}


def branch(c):
    if c.__class__ is int: return c
    c = simp(c)
    if c.__class__ is int: return c
    if S.concolic is not None:
        v = S.concolic(c)
        known_add(c, v)
        return v
    if c.op in ICMPS:
        l = []
        seen = set()
        if boolbuilt(c.args[0], seen, l) and boolbuilt(c.args[1], seen, l) and None in l:
            for b in sorted((b for b in l if b.__class__ is Term), key=lambda b: b.id): branch(b)
    if time.time() > S.cfg['deadline']:
        record({'t': 'timeout', 'what': 'deadline'}); raise PathEnd()
    z = S.tr.tr(c)
    flush_side(S.tr, S.solver)
    r1 = check(z)
    if r1 == z3.unsat:
        known_add(c, 0)
        return 0
    r0 = check(z3.Not(z))
    if r0 == z3.unsat:
        known_add(c, 1)
        return 1
    if r0 == z3.unknown or r1 == z3.unknown: S.unknown += 1
    S.decisions += 1
    v = fork(2)
    # first process takes 1, child takes 0
    v = 1 - v
    assume(c if v else T.not_(c))
    return v


def okaddr(p, n, write):
    if p.__class__ is not int: return False
    o = OBJS.get(p >> SH)
    if o is None or (write and o.ro) or o.size.__class__ is not int: return False
    off = (p & ((1 << SH) - 1)) - BIAS
    return 0 <= off and off + n <= o.size


def merge(c, a, b, sort):
    """value of 'c ? a : b' when it stays simple, None to fork instead"""
    if a.__class__ is b.__class__ and (a is b or (a.__class__ is not Term and T._key(a) == T._key(b))): return a
    if sort in ('d', 's'):
        r = T.max_canon(c, a, b, sort)
        if r is not None: return r
        return None
    ka = a.__class__ is int or a.x == 'K'; kb = b.__class__ is int or b.x == 'K'
    if (ka and kb) or sort == 1: return T.ite(c, a, b, sort)
    return None


def sel(c, a, b, sort):
    """select instruction; with forksel, a path per outcome unless the value is the same or a maximum"""
    if S.forksel and sort in ('d', 's', 64) and a is not b:
        r = T.max_canon(c, a, b, sort) if sort != 64 else None
        if r is not None: return r
        if sort != 64 or not (a.__class__ is int and b.__class__ is int and a < 1 << 40 and b < 1 << 40): return a if branch(c) else b
    return T.ite(c, a, b, sort)


def bext(c, w, one):
    """zext (one = 1) or sext (one = all ones) of a boolean"""
    if c.__class__ is int: return one if c else 0
    if S.forksel: return one if branch(c) else 0
    return T.zext(c, 1, w) if one == 1 else T.sext(c, 1, w)


ARITH = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'udiv', 'zext', 'trunc', 'lin'}


def boolbuilt(t, seen, conds):
    """whether an integer term is arithmetic over constants and a few comparisons only"""
    if t.__class__ is not Term or t.id in seen: return True
    seen.add(t.id)
    if len(seen) > 40: return False
    if t.op == 'ite':
        conds.append(t.args[0])
        return boolbuilt(t.args[1], seen, conds) and boolbuilt(t.args[2], seen, conds)
    if t.op == 'zext' and t.args[0].sort == 1:
        conds.append(t.args[0]); conds.append(None)
        return True
    if t.op in ARITH: return all(boolbuilt(a, seen, conds) for a in t.args)
    return False


def fewvals(t, w):
    """an index computed from comparisons without branches (a binary search): one path per outcome"""
    if t.__class__ is int or S.concolic is not None: return t
    l = []
    if not boolbuilt(t, set(), l) or not (S.forksel or None in l or len(l) <= 3): return t
    # inner comparisons first
    for c in sorted((c for c in l if c.__class__ is Term), key=lambda c: c.id): branch(c)
    return resolve(t, w)


def resolve(t, w):
    """t with the outcomes of its comparisons, all known by now, put in"""
    if t.__class__ is not Term: return t
    if t.op == 'ite':
        v = simp(t.args[0])
        return resolve(t.args[1] if v else t.args[2], w) if v.__class__ is int else t
    return concretize(t, w, 'index from comparisons')


SEM = None
NPATH = None


def fork(n):
    """fork into n processes, returns the index of this one"""
    for k in range(1, n):
        if time.time() > S.cfg['deadline']:
            record({'t': 'timeout', 'what': 'deadline'}); raise PathEnd()
        with NPATH.get_lock():
            NPATH.value += 1
            if NPATH.value > S.cfg.get('max_paths', 200000):
                record({'t': 'timeout', 'what': 'path limit'})
                raise PathEnd()
        got = SEM.acquire(False)
        pid = os.fork()
        if pid == 0:
            S.children = []
            S.own_token = got
            S.checks = S.trivial = S.queries = S.decisions = S.unknown = 0
            S.qtime = 0.0
            return k
        if got: S.children.append(pid)
        else:
            # no free worker: explore the child first
            _, status = os.waitpid(pid, 0)
            if status != 0:
                record({'t': 'error', 'what': 'child status %d' % status})
    return 0


def switch(c, vals, w):
    """concretize c to one of vals, or to a value different from all of them"""
    for v in vals:
        if branch(T.eq(c, v, w)): return v
    return -1


def concretize(t, w=64, what=''):
    """fork over all feasible values of an integer term"""
    if t.__class__ is int: return t
    v = T.KNOWN.get(t)
    if v is not None: return v
    if t.op == 'ite' and t.x == 'K':
        return concretize(t.args[1] if branch(t.args[0]) else t.args[2], w, what)
    if S.concolic is not None:
        v = S.concolic(t)
        known_add(T.eq(t, v, w), 1)
        return v
    n = 0
    while True:
        z = S.tr.tr(t); flush_side(S.tr, S.solver)
        r = check()
        if r != z3.sat:
            if r == z3.unsat: raise PathEnd()
            record({'t': 'error', 'what': 'unknown in concretize'}); raise PathEnd()
        m = S.solver.model()
        mv = m.eval(z, model_completion=True)
        v = mv.as_long()
        n += 1
        if n > S.cfg.get('max_conc', 4096):
            record({'t': 'error', 'what': 'too many values in concretize ' + what}); raise PathEnd()
        e = T.eq(t, v, w)
        if branch(e):
            return v


# --------------------------------------------------------------- violations
def model_values(m, tr):
    vals = []
    for name, kind, t, lo, hi in S.inputs:
        if t.__class__ is not Term:
            vals.append([kind, t if t.__class__ is int else ('%016x' % T.d2b(t))])
            continue
        z = tr.vars.get(name)
        if z is None:
            vals.append([kind, None]); continue
        z = z[0]
        if z.__class__ is tuple:
            if z[1] is not False and z3.is_true(m.eval(z[1], model_completion=True)): f = math.nan
            else:
                v = m.eval(z[0], model_completion=True)
                if not z3.is_rational_value(v): v = v.approx(30)
                try: f = v.numerator_as_long() / v.denominator_as_long()
                except OverflowError: f = math.inf if v.numerator_as_long() > 0 else -math.inf
                if t.sort == 's': f = T.f32(f)
            vals.append([kind, '%016x' % T.d2b(f)])
            continue
        v = m.eval(z, model_completion=True)
        if z3.is_bool(v): v = 1 if z3.is_true(v) else 0
        else: v = v.as_long()
        if kind[0] == 'f':
            f = T.b2d(v) if kind[1] == '6' else T.b2s(v)
            vals.append([kind, '%016x' % T.d2b(f)])
        else: vals.append([kind, v])
    return vals


def fresh_solver(level, extra, timeout):
    tr = (Trans if level == 'fp' else OTrans)(level, S.cfg.get('ints', 'bv'))
    tr.nra = bool(S.cfg.get('nra'))
    s = z3.Solver()
    s.set('timeout', timeout)
    zs = [tr.tr(c) for c in S.conds] + [tr.tr(c) for c in extra]
    # declare remaining inputs
    for name, kind, t, lo, hi in S.inputs:
        if t.__class__ is Term: tr.tr(t)
    s.add(*zs)
    s.add(*tr.side)
    return s, tr


def robust(tr, c, pol):
    """c (or its negation) with every comparison with a constant decided by a margin"""
    if c.__class__ is int: return z3.BoolVal(bool(c) == pol)
    A = c.args
    if c.op == 'not': return robust(tr, A[0], not pol)
    if c.op in ('and', 'or'):
        l = [robust(tr, x, pol) for x in A]
        return z3.And(*l) if (c.op == 'and') == pol else z3.Or(*l)
    z = tr.tr(c)
    if not pol: z = z3.Not(z)
    if c.op != 'flt': return z
    m = max([abs(x) if x.__class__ is float else abs(float(x.args[0])) if x.op == 'fsum' else 0.0 for x in A])
    if m == math.inf: return z
    so = A[0].sort if A[0].__class__ is Term else A[1].sort
    a, b = tr.tr(A[0], so)[0], tr.tr(A[1], so)[0]
    f = Fraction(m) / 10**9
    k = z3.Q(1, 10**9)
    d = b - a if pol else a - b
    return z3.And(z, d >= k * a, d >= -k * a, d >= z3.Q(f.numerator, f.denominator))


MODERATE = (1, 1 << 20)


def candidate(kind, ident, cond):
    """the path condition and cond are jointly satisfiable as far as the abstraction knows: decide it
    with uninterpreted float arithmetic and, if that is satisfiable too, record a counterexample."""
    extra = [cond] if cond.__class__ is Term else []
    t = time.time()
    s, tr = fresh_solver('uf', extra, S.cfg.get('uf_ms', 60000))
    r = s.check()
    S.queries += 1; S.qtime += time.time() - t
    if r == z3.unsat: return False
    level = 'uf'
    vals = None
    if r == z3.sat and T.REAL[0]:
        # samples of moderate size only (real arithmetic does not describe overflow and infinities)
        for b in MODERATE:
            xs = [tr.tr(x) for name, kind, x, lo, hi in S.inputs if x.__class__ is Term and kind in ('f64', 'f32')]
            if not xs: break
            t = time.time()
            s.push(); s.add(*[z3.And(x[0] <= b, x[0] >= -b) for x in xs], *[z3.Not(x[1]) for x in xs if x[1] is not False])
            r = s.check()
            S.queries += 1; S.qtime += time.time() - t
            if r == z3.sat: break
            s.pop()
        if r == z3.unsat: return False
    if r == z3.sat:
        vals = model_values(s.model(), tr)
    if S.cfg.get('fp_ms'):
        t = time.time()
        s2, tr2 = fresh_solver('fp', extra, S.cfg['fp_ms'])
        r2 = s2.check()
        S.queries += 1; S.qtime += time.time() - t
        if r2 == z3.unsat: return False
        if r2 == z3.sat:
            level = 'fp'; vals = model_values(s2.model(), tr2)
    tie = False
    if r == z3.sat and T.REAL[0]:
        # does it need two values within 1e-9 of each other (a window of rounding)?
        t = time.time()
        s3, tr3 = fresh_solver('uf', [], S.cfg.get('uf_ms', 60000))
        s3.add(*[robust(tr3, c, True) for c in S.conds + extra])
        s3.add(*tr3.side)
        tie = s3.check() == z3.unsat
        S.queries += 1; S.qtime += time.time() - t
    S.viol += 1
    record({'t': 'cex', 'tie': tie, 'kind': kind, 'id': ident, 'level': level, 'vals': vals, 'r': str(r),
            'choices': S.choices, 'conds': [T.show(c, 3) for c in S.conds[-6:]], 'cond': T.show(cond, 5) if isinstance(cond, Term) else str(cond)})
    return True


def obligation(c, ident):
    """check that boolean c holds on this path for all values"""
    if S.concrete is not None: return
    S.checks += 1
    if c.__class__ is not int: c = simp(c)
    if c.__class__ is int:
        if c: S.trivial += 1; return
        candidate('check', ident, 1)
        raise PathEnd()
    n = T.not_(c)
    z = S.tr.tr(n)
    flush_side(S.tr, S.solver)
    r = check(z)
    if r == z3.unsat:
        known_add(c, 1); return
    bad = candidate('check', ident, n)
    # continue under the obligation
    if not bad:
        known_add(c, 1); return
    if S.cfg.get('stop_on_cex', True): raise PathEnd()
    zc = S.tr.tr(c); flush_side(S.tr, S.solver)
    if check(zc) == z3.unsat: raise PathEnd()
    assume(c)


def panic(name, args=()):
    if S.cfg.get('nopanic', True):
        candidate('panic', name, 1)
    raise PathEnd()


def memfault(what):
    candidate('memory', what, 1)
    raise PathEnd()


def unreachable(fn):
    candidate('unreachable', fn, 1)
    raise PathEnd()


def unsupported(what):
    record({'t': 'error', 'what': 'unsupported ' + what})
    raise PathEnd()


# --------------------------------------------------------------- memory
def find_overlap(cells, off, n):
    """(offset, cell) of the cell covering byte off, or None"""
    for k in range(16):
        c = cells.get(off - k)
        if c is not None:
            if CELLN[c[0]] > k: return off - k, c
            return None
    return None


def ld(addr, k):
    if addr.__class__ is not int: return ld_sym(addr, k)
    o = OBJS.get(addr >> SH)
    if o is None: memfault('load from invalid address %x' % addr)
    off = (addr & ((1 << SH) - 1)) - BIAS
    c = o.cells.get(off)
    if c is not None and c[0] == k: return c[1]
    return ld_slow(o, off, k)


def bounds(o, off, n, what):
    size = o.size
    if size.__class__ is int:
        if off < 0 or off + n > size: memfault('%s of %d bytes at offset %d of %s (size %d)' % (what, n, off, o.name, size))
    else:
        if off < 0: memfault('%s at negative offset of %s' % (what, o.name))
        ok = T.icmp('ule', off + n, size, 64)
        if not branch(ok): memfault('%s of %d bytes at offset %d of %s' % (what, n, off, o.name))


def ld_slow(o, off, k):
    n = CELLN[k]
    bounds(o, off, n, 'load')
    cells = o.cells
    c = cells.get(off)
    if c is not None and CELLN[c[0]] == n:
        v = c[1]
        if k == 'd' or k == 's':
            return T.bits2f(v, k)
        return T.fbits(v, c[0])
    # any cell in range?
    over = [x for x in range(off - 15, off + n) if x in cells and x + CELLN[cells[x][0]] > off]
    if not over:
        if o.base is not None:
            b = int.from_bytes(o.base[off:off + n], 'little')
        elif o.fill is not None:
            b = int.from_bytes(bytes([o.fill]) * n, 'little')
        else:
            return fresh_undef(o, off, k)
        return T.bits2f(b, k) if k in ('d', 's') else b
    # assemble by bytes (low to high), merging runs
    acc = None; accw = 0
    pos = off
    while pos < off + n:
        f = find_overlap(cells, pos, n)
        if f is None:
            if o.base is not None: v = o.base[pos]
            elif o.fill is not None: v = o.fill
            else: v = fresh_undef(o, pos, 1)
            take = 1
        else:
            o2, (k2, v2) = f
            n2 = CELLN[k2]
            if k2 in ('d', 's'): v2 = T.fbits(v2, k2)
            st_ = pos - o2
            take = min(n2 - st_, off + n - pos)
            v = T.extract(v2, 8 * n2, 8 * st_, 8 * take)
        if acc is None: acc = v; accw = 8 * take
        else: acc = T.concat(v, 8 * take, acc, accw); accw += 8 * take
        pos += take
    return T.bits2f(acc, k) if k in ('d', 's') else acc


def fresh_undef(o, off, k):
    if o.sym is not None:
        return o.sym(off, k)
    S.nvar += 1
    w = k if k in ('d', 's') else 8 * k
    v = T.var('undef!%d' % S.nvar, w)
    o.cells[off] = (k, v)
    return v


def st(addr, k, v):
    if addr.__class__ is not int: return st_sym(addr, k, v)
    o = OBJS.get(addr >> SH)
    if o is None: memfault('store to invalid address %x' % addr)
    off = (addr & ((1 << SH) - 1)) - BIAS
    cells = o.cells
    c = cells.get(off)
    if c is not None and c[0] == k:
        if o.ro: memfault('store to constant ' + o.name)
        cells[off] = (k, v); return
    n = CELLN[k]
    bounds(o, off, n, 'store')
    if o.ro: memfault('store to constant ' + o.name)
    if c is not None and CELLN[c[0]] == n:
        cells[off] = (k, v); return
    clear(o, off, n)
    cells[off] = (k, v)


def clear(o, off, n):
    """make [off, off+n) free of cells, splitting partially overlapping ones"""
    cells = o.cells
    if not cells: return
    if n > 64 and len(cells) < n:
        xs = [x for x in cells if x < off + n and x + CELLN[cells[x][0]] > off]
    else:
        xs = [x for x in range(off - 15, off + n) if x in cells and x + CELLN[cells[x][0]] > off]
    for x in xs:
        k, v = cells.pop(x)
        nn = CELLN[k]
        if x < off or x + nn > off + n:
            if k in ('d', 's'): v = T.fbits(v, k)
            for b in range(nn):
                if x + b < off or x + b >= off + n:
                    cells[x + b] = (1, T.extract(v, 8 * nn, 8 * b, 8))


def split_addr(addr):
    """(object, offset term) of a symbolic address"""
    if addr.op == 'lin':
        c = addr.args[0]
        o = OBJS.get(c >> SH)
        if o is not None:
            return o, T.sub(addr, (c >> SH << SH) + BIAS, 64), (c >> SH << SH) + BIAS
    if addr.op == 'ite':
        return None, None, None
    return None, None, None


def sym_bounds(o, off, n, what):
    size = o.size
    if size.__class__ is int:
        ok = T.icmp('ule', off, size - n, 64) if size >= n else 0
    else:
        ok = T.and_(T.icmp('ule', off, T.sub(size, n, 64), 64), T.icmp('ule', n, size, 64), 1)
    if not branch(ok): memfault('%s of %d bytes out of bounds of %s' % (what, n, o.name))


def ld_sym(addr, k):
    if addr.op == 'ite':
        if addr.x == 'K' and not S.forksel and all(okaddr(a, CELLN[k], False) or a.__class__ is not int for a in addr.args[1:]):
            return T.ite(addr.args[0], ld(addr.args[1], k), ld(addr.args[2], k), k if k in ('d', 's') else 8 * k)
        return ld(addr.args[1] if branch(addr.args[0]) else addr.args[2], k)
    o, off, base = split_addr(addr)
    if o is None:
        return ld(concretize(addr, 64, 'load address'), k)
    n = CELLN[k]
    sym_bounds(o, off, n, 'load')
    # lifted constant tree?
    if off.__class__ is int: return ld(base + off, k)
    if off.op == 'ite' and off.x == 'K':
        if S.forksel: return ld(base + concretize(off, 64, 'load offset in ' + o.name), k)
        return lift_ld(base, off, k)
    if not o.cells and o.fill is not None:
        b = int.from_bytes(bytes([o.fill]) * n, 'little')
        return T.bits2f(b, k) if k in ('d', 's') else b
    if o.ro and k in ('d', 's') and has_hidx(off): return T.mk('f_tab', k, o.name, off)
    return ld(base + concretize(off, 64, 'load offset in ' + o.name), k)


def lift_ld(base, off, k):
    if off.__class__ is int: return ld(base + off, k)
    o = OBJS.get(base >> SH)
    if o is not None and o.ro:
        key = ('ld', base, off.id, k)
        r = T.MEMO.get(key)
        if r is None: r = T.MEMO[key] = lift_ld_(base, off, k)
        return r
    return lift_ld_(base, off, k)


def lift_ld_(base, off, k):
    c, a, b = off.args
    cc = simp(c)
    if cc.__class__ is int: return lift_ld(base, a if cc else b, k)
    if any(x.__class__ is int and not okaddr(base + x, CELLN[k], False) for x in (a, b)): return lift_ld(base, a if branch(c) else b, k)
    return T.ite(c, lift_ld(base, a, k), lift_ld(base, b, k), k if k in ('d', 's') else 8 * k)


HREAL = [None]


def table_value(name, off, k):
    for i, o in OBJS.items():
        if o.name == name: return ld((i << SH) + BIAS + off, k)
    raise EngineError('no table ' + name)


def hidx(real, e):
    """summary of the crate's energy -> bin function: some index in 0..=999 (the lemma harness decides the real function)"""
    HREAL[0] = real
    if e.__class__ is float or not S.cfg.get('hidx', True): return real(e)
    t = T.mk('f_hidx', 64, e)
    if t.__class__ is Term: t.rng = (0, 999)
    S.summaries.add('find_histogram_index')
    return t


def has_hidx(t):
    st = [t]
    while st:
        u = st.pop()
        if u.__class__ is not Term: continue
        if u.op == 'f_hidx': return True
        if u.op in ('lin', 'ite', 'zext', 'trunc'): st.extend(u.args)
    return False


def st_sym(addr, k, v):
    if addr.op == 'ite':
        return st(addr.args[1] if branch(addr.args[0]) else addr.args[2], k, v)
    o, off, base = split_addr(addr)
    if o is None:
        return st(concretize(addr, 64, 'store address'), k, v)
    sym_bounds(o, off, CELLN[k], 'store')
    return st(base + concretize(off, 64, 'store offset in ' + o.name), k, v)


def getobj(addr, what):
    o = OBJS.get(addr >> SH)
    if o is None: memfault(what + ' of invalid address %x' % addr)
    return o, (addr & ((1 << SH) - 1)) - BIAS


def memcpy(d, s, n):
    n = concretize(n, 64, 'memcpy length')
    if n == 0: return
    d = concretize(d, 64, 'memcpy dst'); s = concretize(s, 64, 'memcpy src')
    od, fd = getobj(d, 'memcpy dst'); os_, fs = getobj(s, 'memcpy src')
    bounds(od, fd, n, 'store'); bounds(os_, fs, n, 'load')
    if od.ro: memfault('store to constant ' + od.name)
    sc = os_.cells
    if n > 256 and len(sc) < n:
        xs = sorted(x for x in sc if x < fs + n and x + CELLN[sc[x][0]] > fs)
    else:
        xs = [x for x in range(fs - 15, fs + n) if x in sc and x + CELLN[sc[x][0]] > fs]
    new = []
    cov = fs
    holes = []
    for x in xs:
        k, v = sc[x]; nn = CELLN[k]
        if x > cov: holes.append((cov, x))
        cov = max(cov, x + nn)
        if x < fs or x + nn > fs + n:
            if k in ('d', 's'): v = T.fbits(v, k)
            for b in range(nn):
                if fs <= x + b < fs + n: new.append((x + b, (1, T.extract(v, 8 * nn, 8 * b, 8))))
        else: new.append((x, (k, v)))
    if cov < fs + n: holes.append((cov, fs + n))
    fill = []
    for a, b in holes:
        if os_.base is not None:
            p = a
            while p < b:
                q = 8 if b - p >= 8 else 4 if b - p >= 4 else 1
                fill.append((p, (q, int.from_bytes(os_.base[p:p + q], 'little')))); p += q
        elif os_.fill is not None:
            if od.fill == os_.fill and not any(fd + (x - fs) in od.cells for x in range(a, b)) and od.base is None: continue
            p = a
            while p < b:
                q = 8 if b - p >= 8 else 4 if b - p >= 4 else 1
                fill.append((p, (q, int.from_bytes(bytes([os_.fill]) * q, 'little')))); p += q
        elif os_.sym is not None:
            raise EngineError('memcpy from lazily symbolic object')
    clear(od, fd, n)
    if fill == [] and holes and os_.fill is None and os_.base is None and (od.fill is not None or od.base is not None):
        # copying undefined bytes over defined ones
        for a, b in holes:
            for p in range(a, b): od.cells[fd + p - fs] = (1, fresh_u8())
    for x, c in new: od.cells[fd + x - fs] = c
    for x, c in fill: od.cells[fd + x - fs] = c


def fresh_u8():
    S.nvar += 1
    return T.var('undef!%d' % S.nvar, 8)


def memset(d, v, n):
    while d.__class__ is Term and d.op == 'ite': d = d.args[1] if branch(d.args[0]) else d.args[2]
    if n.__class__ is not int:
        # clearing an object that is known to be clear already
        if d.__class__ is int and v == 0:
            o, off = getobj(d, 'memset')
            if not o.cells and o.fill == 0:
                sym_bounds_len(o, off, n); return
        if d.__class__ is Term and v == 0:
            o, off, _ = split_addr(d)
            if o is not None and not o.cells and o.fill == 0:
                sym_bounds_len(o, off, n); return
        n = concretize(n, 64, 'memset length')
    if n == 0: return
    d = concretize(d, 64, 'memset dst')
    o, off = getobj(d, 'memset')
    bounds(o, off, n, 'store')
    clear(o, off, n)
    if o.base is None and off == 0 and n == o.size and v.__class__ is int:
        o.fill = v; return
    if v.__class__ is int and o.fill == v and o.base is None: return
    p = off
    if v.__class__ is not int:
        for p in range(off, off + n): o.cells[p] = (1, v)
        return
    while p < off + n:
        q = 8 if off + n - p >= 8 else 4 if off + n - p >= 4 else 1
        o.cells[p] = (q, int.from_bytes(bytes([v]) * q, 'little')); p += q


def sym_bounds_len(o, off, n):
    size = o.size
    ok = T.icmp('ule', off, size, 64)
    if ok == 1 or ok != 0 and branch(ok): ok = T.icmp('ule', n, T.sub(size, off, 64), 64)
    if not branch(ok): memfault('memset out of bounds of %s' % o.name)


def alloca(n):
    return new_obj(n, 'alloca')


def insertvalue(agg, v, ix):
    l = list(agg)
    if len(ix) == 1: l[ix[0]] = v
    else: l[ix[0]] = insertvalue(l[ix[0]], v, ix[1:])
    return tuple(l)


# --------------------------------------------------------------- integer helpers
def _div(name, a, b, w):
    if b.__class__ is not int and name in ('udiv', 'urem') and S.cfg.get('forkdiv') and b.__class__ is Term:
        return forkdiv(name, a, b, w)
    if b.__class__ is int:
        if b == 0: memfault('division by zero')
    elif not branch(T.not_(T.eq(b, 0, w))): memfault('division by zero')
    return getattr(T, name)(a, b, w)


def forkdiv(name, a, b, w):
    """division by a symbolic divisor: fork over the (few) values of the quotient"""
    if not branch(T.not_(T.eq(b, 0, w))): memfault('division by zero')
    key = (a, b)
    q = S.qcache.get(key) if hasattr(S, 'qcache') else None
    if not hasattr(S, 'qcache'): S.qcache = {}
    if q is None:
        t = T.mk_raw('udiv', w, a, b)
        q = concretize(t, w, 'quotient')
        # a = q*b + r
        r = T.sub(a, T.mul(b, q, w), w)
        assume_if(T.icmp('ult', r, b, w))
        assume_if(T.icmp('ule', T.mul(b, q, w), a, w))
        S.qcache[key] = q
    return q if name == 'udiv' else T.sub(a, T.mul(b, q, w), w)


def assume_if(c):
    if c.__class__ is Term: assume(c)


def udiv(a, b, w): return a // b if a.__class__ is int and b.__class__ is int and b else _div('udiv', a, b, w)
def urem(a, b, w): return a % b if a.__class__ is int and b.__class__ is int and b else _div('urem', a, b, w)
def sdiv(a, b, w): return _div('sdiv', a, b, w)
def srem(a, b, w): return _div('srem', a, b, w)


def ovf(k, a, b, w):
    m = T.mask(w)
    if a.__class__ is int and b.__class__ is int:
        if k[0] == 's': x, y = T.sx(a, w), T.sx(b, w)
        else: x, y = a, b
        r = x + y if k[1:] == 'add' else x - y if k[1:] == 'sub' else x * y
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if k[0] == 's' else (0, m)
        return (r & m, 0 if lo <= r <= hi else 1)
    if k == 'uadd':
        r = T.add(a, b, w); ra = T.urange(a); rb = T.urange(b)
        if ra[1] + rb[1] <= m: return (r, 0)
        return (r, T.icmp('ult', r, a, w))
    if k == 'usub':
        return (T.sub(a, b, w), T.icmp('ult', a, b, w))
    if k == 'umul':
        r = T.mul(a, b, w); ra = T.urange(a); rb = T.urange(b)
        if ra[1] * rb[1] <= m: return (r, 0)
        if a.__class__ is int: a, b = b, a
        if b.__class__ is int: return (r, T.icmp('ugt', a, m // b, w)) if b else (0, 0)
        wide = T.mul(T.zext(a, w, 2 * w), T.zext(b, w, 2 * w), 2 * w)
        return (r, T.not_(T.eq(T.extract(wide, 2 * w, w, w), 0, w)))
    if k in ('sadd', 'ssub'):
        f = T.add if k == 'sadd' else T.sub
        wa = T.sext(a, w, 2 * w); wb = T.sext(b, w, 2 * w)
        r = f(a, b, w)
        return (r, T.not_(T.eq(f(wa, wb, 2 * w), T.sext(r, w, 2 * w), 2 * w)))
    wide = T.mul(T.sext(a, w, 2 * w), T.sext(b, w, 2 * w), 2 * w)
    r = T.mul(a, b, w)
    return (r, T.not_(T.eq(wide, T.sext(r, w, 2 * w), 2 * w)))


def sat(k, a, b, w):
    if k == 'uadd':
        r, o = ovf('uadd', a, b, w)
        return T.ite(o, T.mask(w), r, w)
    r, o = ovf('usub', a, b, w)
    return T.ite(o, 0, r, w)


def cmp3(k, a, b, w, rw):
    p = 'ult' if k == 'ucmp' else 'slt'
    return T.ite(T.icmp(p, a, b, w), T.mask(rw), T.ite(T.eq(a, b, w), 0, 1, rw), rw)


def bitop(k, A, w):
    a = A[0]
    if k in ('ctlz', 'cttz', 'ctpop', 'bswap', 'abs'):
        if a.__class__ is not int:
            if k == 'abs': return T.ite(T.icmp('slt', a, 0, w), T.sub(0, a, w), a, w)
            a = concretize(a, w, k)
        if k == 'ctlz': return w - a.bit_length()
        if k == 'cttz': return w if a == 0 else (a & -a).bit_length() - 1
        if k == 'ctpop': return bin(a).count('1')
        if k == 'abs': return abs(T.sx(a, w)) & T.mask(w)
        return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
    b = A[1]; s = A[2]
    if s.__class__ is not int: s = concretize(s, w, k)
    s %= w
    if k == 'fshr': s = (w - s) % w
    if s == 0: return a if k == 'fshl' else (b if A[2] % w == 0 else a)
    return T.or_(T.shl(a, s, w), T.lshr(b, w - s, w), w)


def load_relative(p, off):
    o, fo = getobj(p, 'load.relative')
    off = concretize(off, 64, 'load.relative')
    c = o.cells.get(fo + off)
    if c is None: raise EngineError('load.relative')
    # stored truncated difference target - base
    d = T.sx(c[1], 8 * CELLN[c[0]])
    return (p + d) & M64


def stmxcsr(p): st(p, 4, S.mxcsr)


def ldmxcsr(p): S.mxcsr = ld(p, 4)


# --------------------------------------------------------------- calls
def indirect(p, args):
    p = concretize(p, 64, 'call target')
    key = PROG.faddr.get(p)
    if key is None: memfault('call of non-function %x' % p)
    if key.startswith('ext:'): return call(key[4:], args)
    return PROG.ns['CALL'][key](*args)


HARNESS = {}


def call(name, args):
    f = HARNESS.get(name)
    if f is not None: return f(*args)
    if name.startswith('_RNv') or name.startswith('_ZN') or name.startswith('_R'):
        for k, g in RUST_EXT:
            if k in name: return g(*args)
    if name in ('tan', 'log10', 'cos', 'sin', 'sqrt', 'exp', 'log'): return T.fun1(name, args[0], 'd')
    if name == 'pow': return T.fun2('pow', args[0], args[1], 'd')
    if name == 'fma': return T.fma(args[0], args[1], args[2], 'd')
    if name == 'fmaf': return T.fma(args[0], args[1], args[2], 's')
    if name in ('fmaf32', 'powf', 'fmod'): raise EngineError(name)
    if name in ('memcmp', 'bcmp'): return memcmp(*args)
    if any(k in name for k in PANICS): panic(name, args)
    record({'t': 'error', 'what': 'call to unmodelled external ' + name})
    raise PathEnd()


def memcmp(a, b, n):
    n = concretize(n, 64, 'memcmp')
    for i in range(n):
        x = ld(T.add(a, i, 64), 1); y = ld(T.add(b, i, 64), 1)
        e = T.eq(x, y, 8)
        if not branch(e):
            return 1 if branch(T.icmp('ult', y, x, 8)) else T.mask(32)
    return 0


PANICS = ('panic', 'handle_alloc_error', 'handle_error', 'unwrap_failed', 'expect_failed', 'slice_index_fail', 'len_mismatch',
          'index_fail', 'capacity_overflow', 'assert_failed', 'begin_panic', 'fail')


def rust_alloc(size, align):
    S.allocs = getattr(S, 'allocs', 0) + 1
    return new_obj(size, 'heap%d' % S.allocs)


def rust_alloc_zeroed(size, align):
    S.allocs = getattr(S, 'allocs', 0) + 1
    return new_obj(size, 'heapz%d' % S.allocs, fill=0)


def rust_dealloc(p, size, align):
    if p.__class__ is int:
        if p >> SH not in OBJS: memfault('double free')
        o = OBJS[p >> SH]
        if (p & ((1 << SH) - 1)) != BIAS: memfault('free of interior pointer')
        del OBJS[p >> SH]


def rust_realloc(p, old, align, new):
    new = concretize(new, 64, 'realloc size')
    q = new_obj(new, 'heapr')
    memcpy(q, p, min(old, new) if old.__class__ is int else concretize(old, 64, 'realloc old'))
    del OBJS[p >> SH]
    return q


RUST_EXT = [('___rust_alloc_zeroed', rust_alloc_zeroed), ('___rust_no_alloc_shim', lambda *a: None), ('___rust_alloc', rust_alloc),
            ('___rust_dealloc', rust_dealloc), ('___rust_realloc', rust_realloc)]


# --------------------------------------------------------------- harness interface
def newinput(kind, sort, lo=None, hi=None):
    n = len(S.inputs)
    name = 'x%d' % n
    if S.concrete is not None:
        v = S.concrete(n, kind, lo, hi)
        S.inputs.append((name, kind, v, lo, hi))
        if S.concolic is None: return v
        S.concolic.env[name] = v
        t = T.mk_raw('var', sort, name)
        if kind == 'int': t.rng = (lo, hi)
        return t
    t = T.mk_raw('var', sort, name)
    if kind == 'int': t.rng = (lo, hi)
    S.inputs.append((name, kind, t, lo, hi))
    return t


def H(f):
    HARNESS[f.__name__] = f
    return f


@H
def v_int(lo, hi):
    """an arbitrary integer in [lo, hi] (unsigned 64 bit)"""
    if lo == hi: return lo
    t = newinput('int', 64, lo, hi)
    if t.__class__ is int: return t
    if not (lo == 0 and hi == M64):
        if S.tr.ints == 'bv':
            assume(T.mk_raw('not', 1, T.mk_raw('ult', 1, t, lo))) if lo else None
            assume(T.mk_raw('not', 1, T.mk_raw('ult', 1, hi, t)))
    return t


@H
def v_choice(n):
    """every value 0..n-1, explored separately"""
    if S.concrete is not None:
        v = S.concrete(len(S.inputs), 'choice', 0, n - 1)
        S.inputs.append(('x%d' % len(S.inputs), 'choice', v, 0, n - 1))
        return v
    if n == 1: k = 0
    else: k = fork(n)
    S.inputs.append(('x%d' % len(S.inputs), 'choice', k, 0, n - 1))
    S.choices.append(k)
    return k


@H
def v_f64(): return newinput('f64', 'd')


@H
def v_f32(): return newinput('f32', 's')


@H
def v_f64r(lo, hi):
    t = newinput('f64r', 'd', lo, hi)
    if t.__class__ is float: return t
    if lo >= 0: T.FLO[t] = lo
    assume(T._flt(lo, t, 'd', False)); assume(T._flt(t, hi, 'd', False))
    return t


@H
def v_f32r(lo, hi):
    t = newinput('f32r', 's', lo, hi)
    if t.__class__ is float: return t
    if lo >= 0: T.FLO[t] = lo
    assume(T._flt(lo, t, 's', False)); assume(T._flt(t, hi, 's', False))
    return t


@H
def v_i16(): return newinput('i16', 16)


@H
def v_i32(): return newinput('i32', 32)


@H
def v_bool(): return newinput('bool', 1)


@H
def v_assume(c):
    if c.__class__ is not int: c = simp(c)
    if c.__class__ is int:
        if not c: S.assume_fail = True; raise PathEnd()
        return
    if S.concolic is not None:
        if not S.concolic(c): raise PathEnd()
        known_add(c, 1); return
    z = S.tr.tr(c); flush_side(S.tr, S.solver)
    if check(z) == z3.unsat: raise PathEnd()
    assume(c)


@H
def v_assert(c, ident): obligation(c, ident)


@H
def v_eq_f64(a, b, ident):
    if S.concrete is not None: v_out(a); v_out(b); return
    obligation(T.same(a, b, 'd'), ident)


@H
def v_eq_u64(a, b, ident):
    if S.concrete is not None: S.outs += [S.concolic(x) if x.__class__ is Term else x for x in (a, b)]; return
    obligation(T.eq(a, b, 64), ident)


@H
def v_out(x):
    if S.concolic is not None: x = S.concolic(x)
    S.outs.append(T.d2b(x) if x.__class__ is float else None)


@H
def v_cover(ident):
    S.covers.append(ident)


@H
def v_concrete(x):
    """fork over all values of an integer"""
    return concretize(x, 64, 'v_concrete')


@H
def v_mxcsr_get(): return S.mxcsr


@H
def v_mxcsr_set(v): S.mxcsr = v


@H
def v_buffer(len_bytes, kind):
    """buffer of (possibly symbolic) length; its content is unconstrained (kind 0: f32, 1: f64, 2: i16, 3: i32)"""
    a = new_obj(len_bytes, 'buffer')
    o = OBJS[a >> SH]
    return a


@H
def v_native():
    return 0


def finish(status):
    """end of this path: wait for the concurrent children"""
    d = {'t': 'path', 'status': status, 'checks': S.checks, 'trivial': S.trivial, 'queries': S.queries,
         'qtime': round(S.qtime, 4), 'dec': S.decisions, 'covers': S.covers, 'unknown': S.unknown, 'ncond': len(S.conds)}
    if S.cfg.get('want_outs'): d['outs'] = S.outs
    if S.summaries: d['sum'] = sorted(S.summaries)
    if status == 'ok' and S.cfg.get('sample') and not S.viol:
        d['sample'] = sample()
    record(d)


def sample():
    """a concrete witness of this path (non-vacuity), from the feasibility solver"""
    if NSAMPLE.value >= 3: return None
    NSAMPLE.value += 1
    r = S.solver.check()
    if r != z3.sat: return str(r)
    m = S.solver.model()
    for name, kind, t, lo, hi in S.inputs:
        if t.__class__ is Term: S.tr.tr(t)
    v = model_values(m, S.tr)
    return v[:12]


NSAMPLE = None
PROG = None


def run_concrete(prog, fname, args, cfg, source):
    """run a harness on concrete values (in this process)"""
    global PROG
    PROG = prog
    import gc; gc.disable()
    cfg['concrete'] = source
    reset_state(cfg)
    sys.setrecursionlimit(20000)
    status = 'ok'; err = ''
    try: prog.ns['CALL'][prog.resolve(fname)](*args)
    except PathEnd: status = 'end'
    except BaseException as e:
        import traceback
        status = 'error'; err = ''.join(traceback.format_exception(e))[-700:]
    return {'status': status, 'outs': [x if x.__class__ is int else None for x in S.outs], 'err': err}


def run_harness(prog, fname, args, cfg, sem, npath, nsample):
    """run in a forked process (the root of the path tree)"""
    global PROG, SEM, NPATH, NSAMPLE
    PROG = prog; SEM = sem; NPATH = npath; NSAMPLE = nsample
    import gc; gc.disable(); gc.freeze()
    reset_state(cfg)
    S.own_token = cfg.get('root_token', False)
    sys.setrecursionlimit(20000)
    status = 'ok'
    code = 0
    try:
        key = prog.resolve(fname)
        if key is None:
            record({'t': 'error', 'what': 'harness %s not found' % fname}); status = 'error'
        else:
            prog.ns['CALL'][key](*args)
    except PathEnd:
        status = 'end'
    except BaseException as e:
        import traceback
        record({'t': 'error', 'what': 'engine: %s' % ''.join(traceback.format_exception(e))[-700:]})
        status = 'error'
    try:
        finish(status)
        if S.own_token: SEM.release()
        for pid in S.children:
            _, st_ = os.waitpid(pid, 0)
            if st_ != 0: record({'t': 'error', 'what': 'child status %d' % st_})
        record({'t': 'fns', 'fns': sorted(prog.compiled)}) if cfg.get('want_fns') else None
    except BaseException as e:
        import traceback
        try: record({'t': 'error', 'what': 'engine: %s' % ''.join(traceback.format_exception(e))[-700:]})
        except BaseException: pass
        code = 3
    os._exit(code)
