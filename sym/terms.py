"""Hash-consed symbolic terms and their simplifier.

Integers of width w are Python ints when concrete, Term(sort=w) otherwise.  Floats are
Python floats when concrete (f32 values are kept as floats that are exactly representable
in f32), Term(sort='d') / Term(sort='s') otherwise.

Float arithmetic is kept as uninterpreted structure (operation + operands); only identities
that hold bit for bit in IEEE-754 round-to-nearest (up to NaN payloads) are applied, except in
REAL mode (see realnf.py) where terms are put in a normal form of real expressions.
"""
import struct, math

_pd = struct.Struct('<d'); _pq = struct.Struct('<Q')
_pf = struct.Struct('<f'); _pi = struct.Struct('<I')


def d2b(x): return _pq.unpack(_pd.pack(x))[0]
def b2d(b): return _pd.unpack(_pq.pack(b))[0]


def f32(x):
    """round a double to the nearest f32, as a Python float"""
    try:
        return _pf.unpack(_pf.pack(x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def s2b(x):
    return _pi.unpack(_pf.pack(x))[0]


def b2s(b): return _pf.unpack(_pi.pack(b))[0]


class Term:
    __slots__ = ('id', 'op', 'args', 'sort', 'z', 'zi', 'rng', 'x')

    def __init__(self, id, op, args, sort):
        self.id = id; self.op = op; self.args = args; self.sort = sort
        self.z = None; self.zi = None; self.rng = None; self.x = None

    def __repr__(self):
        return show(self, 3)


def show(t, d=4):
    if not isinstance(t, Term):
        return repr(t)
    if t.op == 'var':
        return str(t.args[0])
    if d == 0:
        return '#%d' % t.id
    return '%s(%s)' % (t.op, ', '.join(show(a, d - 1) if isinstance(a, (Term, int, float)) else str(a) for a in t.args))


TAB = {}
ALL = []
KNOWN = {}      # Term -> concrete value implied by the current path condition


def _key(a):
    c = a.__class__
    if c is Term: return -1 - a.id
    if c is float: return ('f', d2b(a)) if a == a else ('f', 'nan')
    return a


def mk(op, sort, *args):
    k = (op, sort) + tuple([_key(a) for a in args])
    t = TAB.get(k)
    if t is None:
        t = Term(len(ALL), op, args, sort)
        TAB[k] = t
        ALL.append(t)
    if KNOWN:
        v = KNOWN.get(t)
        if v is not None:
            return v
    return t


def mk_raw(op, sort, *args):
    k = (op, sort) + tuple([_key(a) for a in args])
    t = TAB.get(k)
    if t is None:
        t = Term(len(ALL), op, args, sort)
        TAB[k] = t
        ALL.append(t)
    return t


def var(name, sort):
    return mk('var', sort, name)


def isT(x): return x.__class__ is Term


# ---------------------------------------------------------------- integers
def mask(w): return (1 << w) - 1


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def urange(t):
    """unsigned interval of an integer term (cheap, syntactic)"""
    if t.__class__ is int: return (t, t)
    r = t.rng
    if r is not None: return r
    op = t.op; w = t.sort; full = (0, mask(w)); r = full
    if op == 'zext': r = urange(t.args[0])
    elif op == 'lin':
        lo = hi = t.args[0]
        if lo >> (w - 1): lo = hi = lo - (1 << w)
        for x, c in zip(t.args[1::2], t.args[2::2]):
            if c >> (w - 1): c -= 1 << w
            l, h = urange(x)
            if c >= 0: lo += c * l; hi += c * h
            else: lo += c * h; hi += c * l
        if 0 <= lo and hi <= full[1]: r = (lo, hi)
    elif op == 'ite':
        a = urange(t.args[1]); b = urange(t.args[2])
        r = (min(a[0], b[0]), max(a[1], b[1]))
    elif op == 'and':
        r = (0, min(urange(t.args[0])[1], urange(t.args[1])[1]))
    elif op == 'or':
        a = urange(t.args[0]); b = urange(t.args[1])
        r = (max(a[0], b[0]), min(full[1], (1 << max(a[1].bit_length(), b[1].bit_length())) - 1))
    elif op == 'udiv':
        a = urange(t.args[0]); b = urange(t.args[1])
        if b[0] > 0: r = (a[0] // b[1], a[1] // b[0])
    elif op == 'urem':
        a = urange(t.args[0]); b = urange(t.args[1])
        if b[0] > 0: r = (0, min(a[1], b[1] - 1))
    elif op == 'mul':
        a = urange(t.args[0]); b = urange(t.args[1])
        if a[1] * b[1] <= full[1]: r = (a[0] * b[0], a[1] * b[1])
    elif op == 'lshr':
        a = urange(t.args[0])
        if t.args[1].__class__ is int: r = (a[0] >> t.args[1], a[1] >> t.args[1])
        else: r = (0, a[1])
    elif op == 'trunc':
        a = urange(t.args[0])
        if a[1] <= full[1]: r = a
    elif op == 'umin':
        a = urange(t.args[0]); b = urange(t.args[1]); r = (min(a[0], b[0]), min(a[1], b[1]))
    elif op == 'umax':
        a = urange(t.args[0]); b = urange(t.args[1]); r = (max(a[0], b[0]), max(a[1], b[1]))
    t.rng = r
    return r


def _lin_parts(t, w):
    if t.__class__ is int: return t, {}
    if t.op == 'lin':
        d = {}
        a = t.args
        for i in range(1, len(a), 2): d[a[i]] = a[i + 1]
        return a[0], d
    return 0, {t: 1}


def _mk_lin(c, d, w):
    m = mask(w)
    c &= m
    items = [(t, k & m) for t, k in d.items() if k & m]
    if not items: return c
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    items.sort(key=lambda p: p[0].id)
    flat = []
    for t, k in items: flat.append(t); flat.append(k)
    return mk('lin', w, c, *flat)


def add(a, b, w):
    if a.__class__ is int and b.__class__ is int: return (a + b) & mask(w)
    if w == 1: return xor(a, b, 1)
    r = _ite_lift(add, a, b, w)
    if r is not None: return r
    c1, d1 = _lin_parts(a, w); c2, d2 = _lin_parts(b, w)
    d = dict(d1)
    for t, k in d2.items(): d[t] = d.get(t, 0) + k
    return _mk_lin(c1 + c2, d, w)


def sub(a, b, w):
    if a.__class__ is int and b.__class__ is int: return (a - b) & mask(w)
    if w == 1: return xor(a, b, 1)
    r = _ite_lift(sub, a, b, w)
    if r is not None: return r
    c1, d1 = _lin_parts(a, w); c2, d2 = _lin_parts(b, w)
    d = dict(d1)
    for t, k in d2.items(): d[t] = d.get(t, 0) - k
    return _mk_lin(c1 - c2, d, w)


def mul(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int: return (a * b) & mask(w)
        a, b = b, a
    if w == 1: return and_(a, b, 1)
    r = _ite_lift(mul, a, b, w)
    if r is not None: return r
    if b.__class__ is int:
        if b == 0: return 0
        if b == 1: return a
        c, d = _lin_parts(a, w)
        return _mk_lin(c * b, {t: k * b for t, k in d.items()}, w)
    if a.id > b.id: a, b = b, a
    return mk('mul', w, a, b)


def _constish(x):
    return x.__class__ is int or (x.op == 'ite' and x.x == 'K')


MEMO = {}


def _ite_lift(f, a, b, *rest):
    """lift an operation over if-then-else trees whose leaves are constants"""
    at = a.__class__ is Term and a.op == 'ite' and a.x == 'K'
    bt = b.__class__ is Term and b.op == 'ite' and b.x == 'K'
    if not (at or bt): return None
    key = (f, _key(a), _key(b), rest)
    r = MEMO.get(key, MEMO)
    if r is MEMO: r = MEMO[key] = _ite_lift_(f, a, b, *rest)
    return r


def _ite_lift_(f, a, b, *rest):
    at = a.__class__ is Term and a.op == 'ite' and a.x == 'K'
    bt = b.__class__ is Term and b.op == 'ite' and b.x == 'K'
    if at and (b.__class__ is int or b.__class__ is float):
        c, x, y = a.args
        return ite(c, f(x, b, *rest), f(y, b, *rest))
    if bt and (a.__class__ is int or a.__class__ is float):
        c, x, y = b.args
        return ite(c, f(a, x, *rest), f(a, y, *rest))
    if at and bt:
        c, x, y = a.args
        return ite(c, f(x, under(b, c, 1), *rest), f(y, under(b, c, 0), *rest))
    return None


def under(t, c, v):
    """cofactor of an ite-of-constants tree under c == v (only through ite nodes)"""
    if t.__class__ is not Term or t.op != 'ite' or t.x != 'K': return t
    c2, x, y = t.args
    if c2 is c: return under(x if v else y, c, v)
    # c2 = not c is never built (not is pushed by swapping)
    nx = under(x, c, v); ny = under(y, c, v)
    if nx is x and ny is y: return t
    return ite(c2, nx, ny)


def udiv(a, b, w):
    if b.__class__ is int:
        if b == 1: return a
        if a.__class__ is int: return a // b
        if b & (b - 1) == 0: return lshr(a, b.bit_length() - 1, w)
        if a.op == 'udiv' and a.args[1].__class__ is int:
            return udiv(a.args[0], a.args[1] * b, w) if a.args[1] * b <= mask(w) else 0
    r = _ite_lift(udiv, a, b, w)
    if r is not None: return r
    if a.__class__ is int and a == 0: return 0
    ra = urange(a); rb = urange(b)
    if rb[0] > ra[1]: return 0
    if rb[0] > 0 and ra[0] // rb[1] == ra[1] // rb[0]: return ra[0] // rb[1]
    return mk('udiv', w, a, b)


def urem(a, b, w):
    if b.__class__ is int:
        if b == 1: return 0
        if a.__class__ is int: return a % b
        if b & (b - 1) == 0: return and_(a, b - 1, w)
    r = _ite_lift(urem, a, b, w)
    if r is not None: return r
    if a.__class__ is int and a == 0: return 0
    ra = urange(a); rb = urange(b)
    if rb[0] > ra[1]: return a
    return mk('urem', w, a, b)


def sdiv(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        x, y = sx(a, w), sx(b, w); q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    return mk('sdiv', w, a, b)


def srem(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        x, y = sx(a, w), sx(b, w); r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    return mk('srem', w, a, b)


def shl(a, b, w):
    if b.__class__ is int:
        if b >= w: return 0
        return mul(a, 1 << b, w)
    r = _ite_lift(shl, a, b, w)
    if r is not None: return r
    return mk('shl', w, a, b)


def lshr(a, b, w):
    if b.__class__ is int:
        if a.__class__ is int: return a >> b if b < w else 0
        if b == 0: return a
        if b >= w: return 0
        if a.op == 'concat':
            lo = a.args[1]; lw = a.x
            if b == lw: return zext(a.args[0], w - lw, w)
        if a.op == 'zext' and b >= a.args[0].sort: return 0
        if a.op == 'lin':       # high and low parts that do not meet
            c, d = _lin_parts(a, w)
            if c + sum(k * urange(t)[1] for t, k in d.items()) <= mask(w):
                low = [(t, k) for t, k in d.items() if k & mask(b)]
                if (c & mask(b)) + sum(k * urange(t)[1] for t, k in low) <= mask(b):
                    r = c >> b
                    for t, k in d.items():
                        if not k & mask(b): r = add(r, mul(t, k >> b, w), w)
                    return r
    r = _ite_lift(lshr, a, b, w)
    if r is not None: return r
    return mk('lshr', w, a, b)


def ashr(a, b, w):
    if b.__class__ is int:
        if a.__class__ is int: return (sx(a, w) >> min(b, w - 1)) & mask(w)
        if b == 0: return a
    return mk('ashr', w, a, b)


def and_(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int: return a & b
        a, b = b, a
    if b.__class__ is int:
        if b == 0: return 0
        if b == mask(w): return a
        if w > 1:
            if urange(a)[1] <= b and (b & (b + 1)) == 0: return a
            r = _ite_lift(and_, a, b, w)
            if r is not None: return r
            if a.op == 'and' and a.args[1].__class__ is int: return and_(a.args[0], a.args[1] & b, w)
            if (b & (b + 1)) == 0 and a.op == 'zext': return zext(and_(a.args[0], b & mask(a.args[0].sort), a.args[0].sort), a.args[0].sort, w)
        return mk('and', w, a, b)
    if a is b: return a
    if w == 1:
        if is_not(a, b): return 0
    if a.id > b.id: a, b = b, a
    return mk('and', w, a, b)


def or_(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int: return a | b
        a, b = b, a
    if b.__class__ is int:
        if b == 0: return a
        if b == mask(w): return b
        if w > 1:
            r = _ite_lift(or_, a, b, w)
            if r is not None: return r
            # disjoint or == add when low bits of a are known zero (aligned lin)
            if a.op == 'lin':
                g = a.args[0]
                for k in a.args[2::2]: g |= k
                low = (g & -g)
                if b < low: return add(a, b, w)
            if urange(a)[1] < (b & -b): return add(a, b, w)
        return mk('or', w, a, b)
    if a is b: return a
    if w == 1:
        if is_not(a, b): return 1
    else:
        # (zext lo) | (hi << k)
        r = _concat_or(a, b, w)
        if r is not None: return r
    if a.id > b.id: a, b = b, a
    return mk('or', w, a, b)


def _concat_or(a, b, w):
    for lo, hi in ((a, b), (b, a)):
        if lo.op == 'zext' and hi.op == 'lin' and hi.args[0] == 0 and len(hi.args) == 3:
            lw = lo.args[0].sort
            if hi.args[2] == 1 << lw and hi.args[1].op == 'zext' and hi.args[1].args[0].sort + lw <= w:
                hw = hi.args[1].args[0].sort
                return zext(concat(hi.args[1].args[0], hw, lo.args[0], lw), hw + lw, w)
    return None


def xor(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int: return a ^ b
        a, b = b, a
    if b.__class__ is int:
        if b == 0: return a
        if w == 1: return not_(a)
        r = _ite_lift(xor, a, b, w)
        if r is not None: return r
        return mk('xor', w, a, b)
    if a is b: return 0
    if w == 1:
        if is_not(a, b): return 1
    if a.id > b.id: a, b = b, a
    return mk('xor', w, a, b)


def is_not(a, b):
    return (a.op == 'not' and a.args[0] is b) or (b.op == 'not' and b.args[0] is a)


def not_(a):
    if a.__class__ is int: return 1 - a
    if a.op == 'not': return a.args[0]
    return mk('not', 1, a)


def ite(c, a, b):
    if c.__class__ is int: return a if c else b
    if a is b: return a
    ca = a.__class__; cb = b.__class__
    if ca is not Term and cb is not Term:
        if ca is float:
            if _key(a) == _key(b): return a
        elif a == b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    sort = a.sort if ca is Term else (b.sort if cb is Term else None)
    if sort is None:
        raise ValueError('ite of constants needs a sort; use ite_s')
    return _ite(c, a, b, sort)


def ite_s(c, a, b, sort):
    if c.__class__ is int: return a if c else b
    if c.op == 'not': c, a, b = c.args[0], b, a
    return _ite(c, a, b, sort)


_orig_ite = ite


def ite(c, a, b, sort=None):
    if c.__class__ is int: return a if c else b
    if sort is None:
        if a.__class__ is Term: sort = a.sort
        elif b.__class__ is Term: sort = b.sort
        else: sort = CURSORT[0]
    if c.op == 'not': c, a, b = c.args[0], b, a
    return _ite(c, a, b, sort)


CURSORT = [64]      # sort used when lifting constant trees


def _ite(c, a, b, sort):
    if KNOWN:
        v = KNOWN.get(c)
        if v is not None: return a if v else b
    ca = a.__class__; cb = b.__class__
    if ca is Term:
        if a is b: return a
        if a.op == 'ite' and a.args[0] is c: a = a.args[1]; ca = a.__class__
    elif cb is not Term:
        if _key(a) == _key(b): return a
    if cb is Term and b.op == 'ite' and b.args[0] is c: b = b.args[2]; cb = b.__class__
    if a is b: return a
    if ca is not Term and cb is not Term and _key(a) == _key(b): return a
    if sort == 1:
        if ca is int and cb is int: return c if a else not_(c)
        if ca is int: return or_(c, b, 1) if a else and_(not_(c), b, 1)
        if cb is int: return or_(not_(c), a, 1) if b else and_(c, a, 1)
        if a is c: return or_(c, b, 1)
        if b is c: return and_(c, a, 1)
    elif sort in ('d', 's'):
        r = max_canon(c, a, b, sort)
        if r is not None: return r
        if ca is Term and cb is Term:
            r = abs_canon(c, a, b, sort)
            if r is not None: return r
        # keep scale/neg/abs outside
        if ca is Term and cb is Term and a.op == b.op and a.op in ('fscale', 'fpext', 'fneg', 'fabs', 'sitofp', 'uitofp', 'fptrunc') and a.args[1:] == b.args[1:] \
                and a.args[0].__class__ is Term and b.args[0].__class__ is Term and a.args[0].sort == b.args[0].sort:
            inner = _ite(c, a.args[0], b.args[0], a.args[0].sort)
            return {'fscale': lambda: fscale(inner, a.args[1], sort), 'fpext': lambda: fpext(inner), 'fneg': lambda: fneg(inner, sort),
                    'fabs': lambda: fabs(inner, sort), 'sitofp': lambda: sitofp(inner, a.args[0].sort, sort),
                    'uitofp': lambda: uitofp(inner, a.args[0].sort, sort), 'fptrunc': lambda: fptrunc(inner)}[a.op]()
    t = mk('ite', sort, c, a, b)
    if t.__class__ is Term and t.x is None:
        ka = ca is not Term or a.x == 'K'; kb = cb is not Term or b.x == 'K'
        t.x = 'K' if ka and kb else 'N'
    return t


def _notnan(x):
    if x.__class__ is float: return x == x
    if x.op == 'fmax': return True
    return isnan(x, x.sort) == 0


def _elems(x):
    if x.__class__ is float: return x, ()
    if x.op == 'fmax': return x.args[0], x.args[1:]
    return None, (x,)


def mkmax(x, y, sort):
    """maximum of x and y, ignoring NaN; at least one of them is not NaN"""
    bx, ex = _elems(x); by, ey = _elems(y)
    base = max(v for v in (bx, by, -math.inf) if v is not None and v == v)
    el = {e for e in ex + ey}
    if REAL[0] and len(el) > 1: el = set(dominant(el))
    if REAL[0] and el and base <= 0.0 and base > -math.inf and any(nonneg(e) for e in el): base = -math.inf
    if not el: return base
    if base == -math.inf and len(el) == 1 and _notnan(next(iter(el))): return next(iter(el))
    if base == 0.0: base = 0.0
    return mk('fmax', sort, base, *sorted(el, key=lambda t: t.id))


def _mult(e):
    """e = k * u"""
    if e.op == 'fsum' and not e.args[0] and len(e.args) == 3: return e.args[2], e.args[1]
    return 1, e


def dominant(el):
    """REAL mode: of several multiples of a nonnegative term only the largest"""
    best = {}
    for e in el:
        k, u = _mult(e)
        if not nonneg(u): u = e; k = 1
        o = best.get(u)
        if o is None or k > o[0]: best[u] = (k, e)
    return [e for k, e in best.values()]


def _below(xs, ys):
    """every element of xs is at most some element of ys"""
    ys = set(ys)
    rest = [x for x in xs if x not in ys]
    if not rest: return True
    if not REAL[0]: return False
    m = {}
    for y in ys:
        k, u = _mult(y)
        if nonneg(u): m[u] = max(k, m.get(u, k))
    for x in rest:
        k, u = _mult(x)
        if u not in m or m[u] < k: return False
    return True


def max_canon(c, a, b, sort):
    """c ? a : b as a maximum, or None"""
    if c.op == 'not': c = c.args[0]; a, b = b, a
    if c.op == 'or': return _max_dirty(c, a, b)
    if c.op not in ('flt', 'fle'): return None
    p, q = c.args
    if _same(a, q) and _same(b, p) and _notnan(p): return mkmax(p, q, sort)
    if REAL[0] and (REAL[0].cmp_strict(b, a, sort) is c or _below_cond(c, b, a)): return mkmax(a, b, sort)
    return None


def abs_canon(c, a, b, sort):
    """x < 0 ? -x : x and the like (up to the sign of zero), or None"""
    if c.op not in ('flt', 'fle', 'slt', 'sle'): return None
    p, q = c.args
    if p.__class__ is Term and q.__class__ is not Term and q == 0: x = p; neg, pos = a, b
    elif q.__class__ is Term and p.__class__ is not Term and p == 0: x = q; neg, pos = b, a
    else: return None
    if fneg(pos, sort) is not neg: return None
    y = pos; minus = False
    while y.op in ('fscale', 'fpext', 'fneg', 'fptrunc', 'fcast') or (y.op == 'fsum' and len(y.args) == 3 and not y.args[0]):
        if y.op == 'fneg' or (y.op == 'fsum' and y.args[2] < 0): minus = not minus
        y = y.args[0] if y.op != 'fsum' else y.args[1]
    if c.op[0] == 's':
        if y.op != 'sitofp': return None
        y = y.args[0]
        if y is not x and not (x.op == 'sext' and x.args[0] is y): return None
    else:
        while x.op in ('fscale', 'fpext', 'fptrunc', 'fcast'): x = x.args[0]
        if y is not x: return None
    r = fabs(pos, sort)
    return fneg(r, sort) if minus else r


def _below_cond(c, b, a):
    """c is flt(m, x) where b = max(m) and a = max(b, x) up to dropped elements"""
    if a.__class__ is float: return False
    m, x = c.args
    if x.__class__ is float: return False
    bm, em = _elems(m); bb, eb = _elems(b); ba, ea = _elems(a)
    new = [e for e in ea if e not in eb]
    if len(new) == 1 and _base_le(ba, bb, eb) and REAL[0].cmp_strict(b, new[0], a.sort) is c and _below(eb, ea): return True
    if not (_base_le(bm, bb, em) and _base_le(bb, bm, eb)): return False
    return _below(em, eb) and _below(eb, em) and _below(ea, list(eb) + list(_elems(x)[1])) and _below(eb, ea)


def _base_le(x, y, ey):
    if x is None or x == y: return True
    if y is not None and x <= y: return True
    return bool(REAL[0]) and x <= 0.0 and any(nonneg(e) for e in ey)


def _max_dirty(c, a, b):
    """c is a disjunction b < x1 or max(b, x1) < x2 or ...; a is max(b, x1, ...): without c, a equals b"""
    if a.__class__ is float or not _notnan(b): return None
    if a.op != 'fmax' and not REAL[0]: return None
    ds = []; st = [c]
    while st:
        t = st.pop()
        if t.op == 'or': st += t.args
        elif t.op == 'flt': ds.append(t)
        else: return None
    ba, ea = _elems(a); bb, eb = _elems(b)
    if not _base_le(ba, bb, eb) or not _base_le(bb, ba, ea): return None
    if not _below(eb, ea): return None
    known = set(eb)
    sort = a.sort
    while ds:
        for t in ds:
            m, x = t.args
            bm, em = _elems(m)
            if REAL[0]:
                new = [e for e in ea if e not in known and REAL[0].cmp_strict(b, e, sort) is t]
                if not new:
                    cur = b
                    for e in known: cur = mkmax(cur, e, sort)
                    new = [e for e in ea if e not in known and REAL[0].cmp_strict(cur, e, sort) is t]
                if new:
                    known.update(new); ds.remove(t); break
                if x.__class__ is float: continue
                bx, ex = _elems(x)
                if bx is not None or not (_base_le(bm, bb, eb) and _base_le(bb, bm, em)): continue
                if not (_below(eb, em) and _below(em, known)): continue
            else:
                if bm != bb or not (set(eb) <= set(em) <= known): continue
                if x.__class__ is float: continue
                bx, ex = _elems(x)
                if bx is not None: continue
            known.update(ex)
            ds.remove(t)
            break
        else: break
    return a if _below(ea, known) else None


def _same(x, y):
    if x is y: return True
    return x.__class__ is float and y.__class__ is float and x == y


def zext(a, w0, w):
    if a.__class__ is int: return a
    if w0 == w: return a
    if a.op == 'zext': return zext(a.args[0], a.args[0].sort, w)
    if a.op == 'ite' and a.x == 'K': return _ite(a.args[0], zext(a.args[1], w0, w), zext(a.args[2], w0, w), w)
    if a.op == 'lin' and w0 > 1:
        # distribute when the sum cannot wrap
        c, d = _lin_parts(a, w0)
        if urange(a) != (0, mask(w0)):
            lo = sx(c, w0)
            return _mk_lin(lo & mask(w), {_zx(t, w0, w): sx(k, w0) for t, k in d.items()}, w)
    return mk('zext', w, a)


def _zx(t, w0, w):
    r = zext(t, w0, w)
    return r


def sext(a, w0, w):
    if a.__class__ is int: return sx(a, w0) & mask(w)
    if a.op == 'ite' and a.x == 'K': return _ite(a.args[0], sext(a.args[1], w0, w), sext(a.args[2], w0, w), w)
    if a.op == 'zext': return zext(a.args[0], a.args[0].sort, w)
    if urange(a)[1] < 1 << (w0 - 1): return zext(a, w0, w)
    return mk('sext', w, a)


def trunc(a, w0, w):
    if a.__class__ is int: return a & mask(w)
    if w0 == w: return a
    op = a.op
    if op in ('zext', 'sext'):
        i = a.args[0]
        if i.sort == w: return i
        if i.sort > w: return trunc(i, i.sort, w)
        return zext(i, i.sort, w) if op == 'zext' else sext(i, i.sort, w)
    if op == 'ite': return _ite(a.args[0], trunc(a.args[1], w0, w), trunc(a.args[2], w0, w), w)
    if op == 'lin':
        c, d = _lin_parts(a, w0)
        r = c & mask(w)
        for t, k in d.items():
            if k & mask(w): r = add(r, mul(trunc(t, w0, w), k & mask(w), w), w)
        return r
    if op == 'trunc': return trunc(a.args[0], a.args[0].sort, w)
    if op == 'concat':
        lw = a.x
        if w == lw: return a.args[1]
        if w < lw: return trunc(a.args[1], lw, w)
    if op == 'and' and a.args[1].__class__ is int and (a.args[1] & mask(w)) == mask(w): return trunc(a.args[0], w0, w)
    return mk('trunc', w, a)


def extract(a, w0, lo, w):
    """bits [lo, lo+w) of a"""
    if a.__class__ is int: return (a >> lo) & mask(w)
    if lo == 0: return trunc(a, w0, w)
    if a.op == 'concat':
        lw = a.x
        if lo >= lw: return extract(a.args[0], w0 - lw, lo - lw, w)
        if lo + w <= lw: return extract(a.args[1], lw, lo, w)
    if a.op == 'zext':
        iw = a.args[0].sort
        if lo >= iw: return 0
        if lo + w <= iw: return extract(a.args[0], iw, lo, w)
    if a.op == 'ite': return _ite(a.args[0], extract(a.args[1], w0, lo, w), extract(a.args[2], w0, lo, w), w)
    if a.op == 'extract': return mk('extract', w, a.args[0], a.args[1] + lo)
    if a.op == 'lin':
        r = lshr(a, lo, w0)
        if r.__class__ is int or r.op != 'lshr': return trunc(r, w0, w)
    return mk('extract', w, a, lo)


def concat(hi, hw, lo, lw):
    w = hw + lw
    if hi.__class__ is int and lo.__class__ is int: return hi << lw | lo
    if hi.__class__ is int and hi == 0: return zext(lo, lw, w)
    # extract(x, k+lw, hw) : extract(x, k, lw)
    hb, ho = _ext(hi); lb, lo_ = _ext(lo)
    if hb is not None and hb is lb and ho == lo_ + lw:
        return extract(hb, hb.sort, lo_, w)
    t = mk('concat', w, hi, lo)
    if t.__class__ is Term: t.x = lw
    return t


def _ext(t):
    if t.__class__ is not Term: return None, 0
    if t.op == 'extract': return t.args[0], t.args[1]
    if t.op == 'trunc': return t.args[0], 0
    return None, 0


# ------------------------------------------------------------- integer compare
def _total(t, w):
    """the float whose total_cmp key (bits with the low ones flipped if negative) t is, None if it is none"""
    if t.__class__ is int:
        if t >> (w - 1): t ^= mask(w - 1)
        x = b2d(t) if w == 64 else b2s(t)
        return None if x != x else x
    if t.op != 'xor': return None
    for x, y in (t.args, t.args[::-1]):
        if x.__class__ is Term and x.op == 'fbits' and y.__class__ is Term:
            if y.op == 'lshr' and y.args[1] == 1: y = y.args[0]
            elif y.op == 'and' and y.args[1] == mask(w - 1): y = y.args[0]
            else: continue
            if y.__class__ is Term and y.op == 'ashr' and y.args[0] is x and y.args[1] == w - 1: return x.args[0]
    return None


def icmp(p, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if p == 'eq': return 1 if a == b else 0
        if p == 'ne': return 1 if a != b else 0
        if p[0] == 's': a = sx(a, w); b = sx(b, w)
        q = p[1:]
        if q == 'lt': return 1 if a < b else 0
        if q == 'le': return 1 if a <= b else 0
        if q == 'gt': return 1 if a > b else 0
        return 1 if a >= b else 0
    if p == 'ne': return not_(icmp('eq', a, b, w))
    if p[1:] == 'gt': return icmp(p[0] + 'lt', b, a, w)
    if p[1:] == 'ge': return not_(icmp(p[0] + 'lt', a, b, w))
    if p[1:] == 'le': return not_(icmp(p[0] + 'lt', b, a, w))
    if p == 'eq': return eq(a, b, w)
    # ult / slt
    if a is b: return 0
    if p == 'slt':
        ra = urange(a); rb = urange(b); h = 1 << (w - 1)
        if ra[1] < h and rb[1] < h: return icmp('ult', a, b, w)
        if ra[0] >= h and rb[1] < h: return 1
        if rb[0] >= h and ra[1] < h: return 0
        if REAL[0] and w in (32, 64):
            # total_cmp of reals
            x = _total(a, w)
            y = _total(b, w) if x is not None else None
            if y is not None: return fcmp('olt', x, y, 'd' if w == 64 else 's')
        return mk('slt', 1, a, b)
    ra = urange(a); rb = urange(b)
    if ra[1] < rb[0]: return 1
    if ra[0] >= rb[1]: return 0
    r = _ite_lift1(lambda x, y: icmp('ult', x, y, w), a, b, ('u', w))
    if r is not None: return r
    if a.__class__ is int and a == 0: return not_(eq(b, 0, w))
    if b.__class__ is int and b == 1: return eq(a, 0, w)
    if a.__class__ is int and a == mask(w): return 0
    za = a.__class__ is Term and a.op == 'zext'; zb = b.__class__ is Term and b.op == 'zext'
    if za and zb and a.args[0].sort == b.args[0].sort: return icmp('ult', a.args[0], b.args[0], a.args[0].sort)
    if za and b.__class__ is int: return icmp('ult', a.args[0], b, a.args[0].sort)
    if zb and a.__class__ is int: return icmp('ult', a, b.args[0], b.args[0].sort)
    return mk('ult', 1, a, b)


def _ite_lift1(f, a, b, name):
    at = a.__class__ is Term and a.op == 'ite' and a.x == 'K'
    bt = b.__class__ is Term and b.op == 'ite' and b.x == 'K'
    if not (at or bt): return None
    key = (name, _key(a), _key(b))
    r = MEMO.get(key, MEMO)
    if r is MEMO: r = MEMO[key] = _ite_lift1_(f, a, b)
    return r


def _ite_lift1_(f, a, b):
    at = a.__class__ is Term and a.op == 'ite' and a.x == 'K'
    bt = b.__class__ is Term and b.op == 'ite' and b.x == 'K'
    if at and b.__class__ is not Term:
        return _ite(a.args[0], f(a.args[1], b), f(a.args[2], b), 1)
    if bt and a.__class__ is not Term:
        return _ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]), 1)
    if at and bt:
        c = a.args[0]
        return _ite(c, f(a.args[1], under(b, c, 1)), f(a.args[2], under(b, c, 0)), 1)
    return None


def eq(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int: return 1 if a == b else 0
        a, b = b, a
    if a is b: return 1
    ra = urange(a); rb = urange(b)
    if ra[1] < rb[0] or rb[1] < ra[0]: return 0
    if REAL[0] and a.op == 'xor' and w in (32, 64):
        x = _total(a, w)
        y = _total(b, w) if x is not None else None
        if y is not None: return fcmp('oeq', x, y, 'd' if w == 64 else 's')
    if b.__class__ is int:
        if w == 1: return a if b else not_(a)
        if a.op == 'zext': return eq(a.args[0], b, a.args[0].sort)
        if a.op == 'ite':
            c, x, y = a.args
            if a.x == 'K' or x.__class__ is int or y.__class__ is int:
                return _ite(c, eq(x, b, w), eq(y, b, w), 1)
        if a.op == 'lin' and len(a.args) == 3:
            c, t, k = a.args
            if k == 1: return eq(t, (b - c) & mask(w), w)
            if k == mask(w): return eq(t, (c - b) & mask(w), w)
            if urange(a) != (0, mask(w)) and not (k >> (w - 1)) and not (c >> (w - 1)):
                if b < c or (b - c) % k: return 0
                return eq(t, (b - c) // k, w)
        if a.op == 'concat':
            lw = a.x
            return and_(eq(a.args[0], b >> lw, w - lw), eq(a.args[1], b & mask(lw), lw), 1)
        if a.op == 'xor' and a.args[1].__class__ is int: return eq(a.args[0], a.args[1] ^ b, w)
        return mk('eq', 1, a, b)
    if a.op == 'zext' and b.op == 'zext' and a.args[0].sort == b.args[0].sort:
        return eq(a.args[0], b.args[0], a.args[0].sort)
    r = _ite_lift1(lambda x, y: eq(x, y, w), a, b, ('e', w))
    if r is not None: return r
    if a.op == 'lin' or b.op == 'lin':
        d = sub(a, b, w)
        if d.__class__ is int: return 1 if d == 0 else 0
        if d.op != 'lin' or len(d.args) == 3:
            return eq(d, 0, w)
    if w == 1:
        if is_not(a, b): return 0
    if a.id > b.id: a, b = b, a
    return mk('eq', 1, a, b)


def umin(a, b, w):
    if a.__class__ is int and b.__class__ is int: return min(a, b)
    return ite(icmp('ult', a, b, w), a, b, w)


def umax(a, b, w):
    if a.__class__ is int and b.__class__ is int: return max(a, b)
    return ite(icmp('ult', a, b, w), b, a, w)


def smin(a, b, w): return ite(icmp('slt', a, b, w), a, b, w)
def smax(a, b, w): return ite(icmp('slt', a, b, w), b, a, w)


# ------------------------------------------------------------- floats
def rnd(x, s): return x if s == 'd' else f32(x)


REAL = [None]       # set to the realnf module in REAL mode


def fadd(a, b, s):
    if a.__class__ is float and b.__class__ is float: return rnd(a + b, s)
    if REAL[0]: return REAL[0].fadd(a, b, s)
    if a.__class__ is float: a, b = b, a
    if b.__class__ is float:
        if b == 0.0:
            if math.copysign(1, b) < 0: return a      # x + (-0.0) == x
            if never_negzero(a): return a             # x + 0.0 == x unless x is -0.0
        return mk('fadd', s, a, b)
    if a.id > b.id: a, b = b, a
    return mk('fadd', s, a, b)


def never_negzero(t):
    if t.op in ('fabs', 'sitofp', 'uitofp'): return True
    if t.op == 'fmul': return t.args[0] is t.args[1]
    if t.op == 'fadd':
        # a sum is -0 only if both operands are -0
        return any(a.__class__ is float and not (a == 0 and math.copysign(1, a) < 0) for a in t.args) or any(a.__class__ is Term and never_negzero(a) for a in t.args)
    if t.op in ('fscale', 'fpext', 'fptrunc') and t.args[0].__class__ is Term: return never_negzero(t.args[0])
    if t.op == 'ite': return all(never_negzero(a) if a.__class__ is Term else not (a == 0 and math.copysign(1, a) < 0) for a in t.args[1:])
    return False


def fsub(a, b, s):
    if a.__class__ is float and b.__class__ is float: return rnd(a - b, s)
    return fadd(a, fneg(b, s), s)


def _strip_neg(a):
    if a.__class__ is Term and a.op == 'fneg': return a.args[0], 1
    if a.__class__ is float and math.copysign(1, a) < 0 and a == a: return -a, 1
    return a, 0


def fmul(a, b, s):
    if a.__class__ is float and b.__class__ is float: return rnd(a * b, s)
    if REAL[0]: return REAL[0].fmul(a, b, s)
    a, n1 = _strip_neg(a); b, n2 = _strip_neg(b)
    if a.__class__ is float: a, b = b, a
    if b.__class__ is float and b == 1.0: r = a
    elif b.__class__ is float and b < 1 and math.frexp(b)[0] == 0.5 and _exactint(a, math.frexp(b)[1] - 1, s):
        r = fscale(a, math.frexp(b)[1] - 1, s)
    else:
        if b.__class__ is Term and a.id > b.id: a, b = b, a
        r = mk('fmul', s, a, b)
    return fneg(r, s) if n1 ^ n2 else r


def fdiv(a, b, s):
    if a.__class__ is float and b.__class__ is float:
        if b == 0.0:
            if a != a or a == 0.0: return math.nan
            return math.copysign(math.inf, a) * math.copysign(1, b)
        return rnd(a / b, s)
    if REAL[0]: return REAL[0].fdiv(a, b, s)
    a, n1 = _strip_neg(a); b, n2 = _strip_neg(b)
    if b.__class__ is float and b == 1.0: r = a
    elif b.__class__ is float and b > 1 and math.frexp(b)[0] == 0.5 and a.__class__ is Term and _exactint(a, 1 - math.frexp(b)[1], s):
        r = fscale(a, 1 - math.frexp(b)[1], s)
    elif b.__class__ is float and b > 1 and math.frexp(b)[0] == 0.5 and a.__class__ is Term:
        # dividing by 2^k and multiplying by 2^-k round identically
        return fneg(fmul(a, 1.0 / b, s), s) if n1 ^ n2 else fmul(a, 1.0 / b, s)
    else: r = mk('fdiv', s, a, b)
    return fneg(r, s) if n1 ^ n2 else r


def frem(a, b, s):
    if a.__class__ is float and b.__class__ is float: return rnd(math.fmod(a, b), s)
    return mk('frem', s, a, b)


def _exactint(a, k, s):
    """a * 2^k is exact: a is integer valued (possibly rounded to s), |k| <= 200 and no overflow/underflow"""
    if a.__class__ is not Term: return False
    if s == 's' and abs(k) > 60: return False
    if abs(k) > 200: return False
    return _intval(a)


def _intval(a):
    if a.__class__ is float: return a == int(a) if math.isfinite(a) else False
    if a.op in ('sitofp', 'uitofp'): return True
    if a.op in ('fabs', 'fneg', 'fptrunc', 'fpext'): return _intval(a.args[0])
    if a.op == 'ite': return _intval(a.args[1]) and _intval(a.args[2])
    if a.op == 'fmax': return all(_intval(x) for x in a.args)
    if a.op == 'fscale': return _intval(a.args[0]) and abs(a.args[1]) < 40
    return False


def fscale(a, k, s):
    """exact scaling by 2^k of an integer valued term"""
    if a.__class__ is float: return rnd(math.ldexp(a, k), s)
    if k == 0: return a
    if REAL[0]: return REAL[0].fmul(a, math.ldexp(1.0, k), s)
    if a.op == 'fscale': return fscale(a.args[0], a.args[1] + k, s)
    if a.op == 'fneg': return fneg(fscale(a.args[0], k, s), s)
    if a.op == 'fmax': return _mapmax(a, lambda x: fscale(x, k, s), s)
    return mk('fscale', s, a, k)


def fneg(a, s):
    if a.__class__ is float: return -a
    if REAL[0]: return REAL[0].fneg(a, s)
    if a.op == 'fneg': return a.args[0]
    return mk('fneg', s, a)


def fabs(a, s):
    if a.__class__ is float: return math.fabs(a)
    if REAL[0]: return REAL[0].fabs(a, s)
    if a.op == 'fneg': return fabs(a.args[0], s)
    if a.op == 'fabs': return a
    if a.op == 'fscale': return fscale(fabs(a.args[0], s), a.args[1], s)
    if a.op == 'fpext': return fpext(fabs(a.args[0], 's'))
    if a.op == 'fptrunc': return fptrunc(fabs(a.args[0], 'd'))
    if a.op == 'fmul' and a.args[0] is a.args[1]: return a
    if a.op in ('uitofp', 'fmax') and nonneg(a): return a
    return mk('fabs', s, a)


def _mapmax(t, f, s):
    r = f(t.args[0])
    for e in t.args[1:]: r = mkmax(r, f(e), s)
    return r


def fpext(a):
    if a.__class__ is float: return a
    if REAL[0]: return a if a.sort == 'd' else REAL[0].cast(a, 'd')
    if a.op == 'fneg': return fneg(fpext(a.args[0]), 'd')
    if a.op == 'fmax': return _mapmax(a, fpext, 'd')
    if a.op == 'ite' and a.x == 'K': return _ite(a.args[0], fpext(a.args[1]), fpext(a.args[2]), 'd')
    if a.op == 'sitofp' and a.args[0].sort <= 24: return sitofp(a.args[0], a.args[0].sort, 'd')
    if a.op == 'fscale': return fscale(fpext(a.args[0]), a.args[1], 'd')
    return mk('fpext', 'd', a)


def fptrunc(a):
    if a.__class__ is float: return f32(a)
    if REAL[0]: return REAL[0].cast(a, 's')
    if a.op == 'fpext': return a.args[0]
    if a.op == 'fneg': return fneg(fptrunc(a.args[0]), 's')
    if a.op == 'fmax': return _mapmax(a, fptrunc, 's')
    if a.op == 'fscale' and _intval(a.args[0]) and abs(a.args[1]) <= 60: return fscale(fptrunc(a.args[0]), a.args[1], 's')
    if a.op == 'sitofp' and a.args[0].sort <= 53: return sitofp(a.args[0], a.args[0].sort, 's')
    if a.op == 'uitofp' and a.args[0].sort <= 53: return uitofp(a.args[0], a.args[0].sort, 's')
    return mk('fptrunc', 's', a)


def sitofp(a, w, s):
    if a.__class__ is Term: a = KNOWN.get(a, a)
    if a.__class__ is int: return rnd(float(sx(a, w)), s)
    if a.op == 'sext': return sitofp(a.args[0], a.args[0].sort, s)
    if a.op == 'zext': return uitofp(a.args[0], a.args[0].sort, s)
    if a.op == 'ite' and a.x == 'K': return _ite(a.args[0], sitofp(a.args[1], w, s), sitofp(a.args[2], w, s), s)
    return mk('sitofp', s, a)


def uitofp(a, w, s):
    if a.__class__ is Term: a = KNOWN.get(a, a)
    if a.__class__ is int: return rnd(float(a), s)
    if a.op == 'zext': return uitofp(a.args[0], a.args[0].sort, s)
    if a.op == 'ite' and a.x == 'K': return _ite(a.args[0], uitofp(a.args[1], w, s), uitofp(a.args[2], w, s), s)
    return mk('uitofp', s, a)


def fptoui_sat(a, w):
    if a.__class__ is float:
        if a != a: return 0
        return int(max(0, min(a, mask(w)))) if math.isfinite(a) else (0 if a < 0 else mask(w))
    if a.op == 'ite' and a.x == 'K': return _ite(a.args[0], fptoui_sat(a.args[1], w), fptoui_sat(a.args[2], w), w)
    return mk('fptoui', w, a)


def fptosi_sat(a, w):
    if a.__class__ is float:
        if a != a: return 0
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return (lo if a < lo else hi if a > hi else int(a)) & mask(w)
    return mk('fptosi', w, a)


def fbits(a, s):
    if a.__class__ is float: return d2b(a) if s == 'd' else s2b(a)
    if a.op == 'bits2f': return a.args[0]
    if a.op == 'ite' and a.x == 'K': return _ite(a.args[0], fbits(a.args[1], s), fbits(a.args[2], s), 64 if s == 'd' else 32)
    return mk('fbits', 64 if s == 'd' else 32, a)


def bits2f(a, s):
    if a.__class__ is int: return b2d(a) if s == 'd' else b2s(a)
    if a.op == 'fbits': return a.args[0]
    if a.op == 'ite': return _ite(a.args[0], bits2f(a.args[1], s), bits2f(a.args[2], s), s)
    return mk('bits2f', s, a)


def isnan(a, s):
    if a.__class__ is float: return 1 if a != a else 0
    if REAL[0]: return 0
    if a.op in ('fneg', 'fabs', 'fpext', 'fscale', 'fptrunc'): return isnan(a.args[0], a.args[0].sort if a.args[0].__class__ is Term else s)
    if a.op in ('sitofp', 'uitofp', 'fmax'): return 0
    if a.op == 'ite': return _ite(a.args[0], isnan(a.args[1], s), isnan(a.args[2], s), 1)
    return mk('isnan', 1, a)


def _flt(a, b, s, strict):
    """a < b (strict) or a <= b, ordered"""
    if a.__class__ is float and b.__class__ is float:
        return 1 if (a < b if strict else a <= b) else 0
    if (a.__class__ is float and a != a) or (b.__class__ is float and b != b): return 0
    if a is b:
        return 0 if strict else not_(isnan(a, s))
    r = _ite_lift1(lambda x, y: _flt(x, y, s, strict), a, b, (s, strict))
    if r is not None: return r
    if REAL[0]: return REAL[0].cmp(a, b, s, strict)
    at = a.__class__ is Term; bt = b.__class__ is Term
    if not at and a == 0.0: a = 0.0
    if not bt and b == 0.0: b = 0.0
    # negations: -x < -y  <=>  y < x
    if at and a.op == 'fneg':
        if bt and b.op == 'fneg': return _flt(b.args[0], a.args[0], s, strict)
        if not bt: return _flt(-b, a.args[0], s, strict)
    elif bt and b.op == 'fneg' and not at: return _flt(b.args[0], -a, s, strict)
    if (at and a.op == 'fmax') or (bt and b.op == 'fmax'):
        ba, ea = _elems(a); bb, eb = _elems(b)
        # max(S) < max(R) with R a subset of S
        if set(eb) <= set(ea) and (bb is None or (ba is not None and bb <= ba)):
            if strict: return 0
        if set(ea) <= set(eb) and (ba is None or (bb is not None and ba <= bb)) and not strict and (ba is not None or _notnan(a)): return 1
    # nonnegative terms against constants
    if bt and not at and (a < 0 or (a == 0 and not strict)) and nonneg(b): return not_(isnan(b, s))
    if at and not bt and (b < 0 or (b == 0 and strict)) and nonneg(a): return 0
    return mk('flt' if strict else 'fle', 1, a, b)


NONNEG = {}
FLO = {}             # float variables known to be at least 0


def nonneg(t):
    if t.__class__ is float: return t >= 0
    r = NONNEG.get(t)
    if r is None:
        # long sums are chains of fadd
        c = []
        u = t
        while u.__class__ is Term and u.op == 'fadd' and u not in NONNEG:
            c.append(u); u = u.args[0]
        for v in c[:0:-1]: nonneg(v)
        r = NONNEG[t] = nonneg_(t)
    return r


def nonneg_(t):
    if t.op == 'var': return t in FLO
    if t.op in ('fabs', 'uitofp'): return True
    if t.op == 'fmax': return t.args[0] >= 0 or any(nonneg(e) and _notnan(e) for e in t.args[1:])
    if t.op == 'fmul': return t.args[0] is t.args[1] or all(nonneg(a) for a in t.args)
    if t.op in ('fadd', 'fdiv'): return all(nonneg(a) for a in t.args)
    if t.op in ('fscale', 'fpext', 'fptrunc', 'fcast', 'frecip'): return nonneg(t.args[0])
    if t.op == 'fsum': return t.args[0] >= 0 and all(c >= 0 for c in t.args[2::2]) and all(nonneg(x) for x in t.args[1::2])
    if t.op == 'fprod': return (len(t.args) == 2 and t.args[0] is t.args[1]) or all(nonneg(a) for a in t.args)
    if t.op == 'ite': return nonneg(t.args[1]) and nonneg(t.args[2])
    return False


def fcmp(p, a, b, s):
    if a.__class__ is float and b.__class__ is float:
        un = a != a or b != b
        if p == 'ord': return 0 if un else 1
        if p == 'uno': return 1 if un else 0
        if p == 'true': return 1
        if p == 'false': return 0
        q = p[1:]
        if un: return 1 if p[0] == 'u' else 0
        r = {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[q]
        return 1 if r else 0
    if p == 'uno': return or_(isnan(a, s), isnan(b, s), 1)
    if p == 'ord': return not_(or_(isnan(a, s), isnan(b, s), 1))
    if p == 'true': return 1
    if p == 'false': return 0
    if p == 'olt': return _flt(a, b, s, True)
    if p == 'ogt': return _flt(b, a, s, True)
    if p == 'ole': return _flt(a, b, s, False)
    if p == 'oge': return _flt(b, a, s, False)
    if p == 'ult': return not_(_flt(b, a, s, False))
    if p == 'ugt': return not_(_flt(a, b, s, False))
    if p == 'ule': return not_(_flt(b, a, s, True))
    if p == 'uge': return not_(_flt(a, b, s, True))
    if p == 'oeq': return feq(a, b, s)
    if p == 'une': return not_(feq(a, b, s))
    if p == 'one': return or_(_flt(a, b, s, True), _flt(b, a, s, True), 1)
    if p == 'ueq': return not_(or_(_flt(a, b, s, True), _flt(b, a, s, True), 1))
    raise ValueError(p)


def feq(a, b, s):
    if a.__class__ is float and b.__class__ is float: return 1 if a == b else 0
    if a is b: return not_(isnan(a, s))
    return and_(_flt(a, b, s, False), _flt(b, a, s, False), 1)


def same(a, b, s):
    """'the same value': equal, or both NaN"""
    if a.__class__ is float and b.__class__ is float: return 1 if a == b or (a != a and b != b) or REAL[0] and REAL[0].near(a, b) else 0
    if a is b: return 1
    if REAL[0] and REAL[0].near(a, b): return 1
    return or_(feq(a, b, s), and_(isnan(a, s), isnan(b, s), 1), 1)


LIBM = {
    'log10': lambda x: (math.nan if x != x or x < 0 else -math.inf if x == 0 else math.log10(x) if x != math.inf else math.inf),
    'log': lambda x: (math.nan if x != x or x < 0 else -math.inf if x == 0 else math.log(x) if x != math.inf else math.inf),
    'cos': lambda x: math.cos(x) if math.isfinite(x) else math.nan,
    'sin': lambda x: math.sin(x) if math.isfinite(x) else math.nan,
    'tan': lambda x: math.tan(x) if math.isfinite(x) else math.nan,
    'sqrt': lambda x: math.sqrt(x) if x >= 0 else math.nan,
    'exp': lambda x: math.exp(x),
    'floor': lambda x: float(math.floor(x)) if math.isfinite(x) else x,
    'ceil': lambda x: float(math.ceil(x)) if math.isfinite(x) else x,
    'trunc': lambda x: float(math.trunc(x)) if math.isfinite(x) else x,
    'round': lambda x: (math.copysign(math.floor(abs(x) + 0.5), x) if math.isfinite(x) else x),
    'rint': lambda x: float(round(x)) if math.isfinite(x) else x,
}


def fun1(name, a, s):
    if a.__class__ is float: return rnd(LIBM[name](a), s)
    if REAL[0]: return REAL[0].fun1(name, a, s)
    if a.op == 'ite' and a.x == 'K': return _ite(a.args[0], fun1(name, a.args[1], s), fun1(name, a.args[2], s), s)
    return mk('f_' + name, s, a)


def fun2(name, a, b, s):
    if a.__class__ is float and b.__class__ is float:
        if name == 'pow':
            try: return rnd(math.pow(a, b), s)
            except (OverflowError, ValueError): return math.nan
        if name == 'minnum': return b if a != a else a if b != b else min(a, b)
        if name == 'maxnum': return b if a != a else a if b != b else max(a, b)
        if name == 'copysign': return math.copysign(a, b)
        if name in ('maximum', 'minimum'): return math.nan if a != a or b != b else (max if name == 'maximum' else min)(a, b)
    if name in ('maximum', 'minimum'):      # NaN if one of them is
        return ite(isnan(a, s), a, ite(isnan(b, s), b, fun2(name[:3] + 'num', a, b, s), s), s)
    if name == 'copysign' and REAL[0]:
        m = fabs(a, s)
        return ite(_flt(b, 0.0, s, True), fneg(m, s), m, s)
    if name == 'maxnum' and (_notnan(a) or _notnan(b)): return mkmax(a, b, s)
    if name == 'maxnum':      # the non-NaN operand, else the larger
        return ite(isnan(a, s), b, ite(isnan(b, s), a, ite(_flt(a, b, s, True), b, a, s), s), s)
    if name == 'minnum':
        return ite(isnan(a, s), b, ite(isnan(b, s), a, ite(_flt(b, a, s, True), b, a, s), s), s)
    return mk('f_' + name, s, a, b)


def fma(a, b, c, s):
    if a.__class__ is float and b.__class__ is float and c.__class__ is float:
        from fractions import Fraction
        try:
            r = Fraction(a) * Fraction(b) + Fraction(c)
            if r == 0: return rnd(a * b + c, s)
            if s == 'd': return float(r)
            # correctly rounded to f32 via round-to-odd double
            d = float(r)
            if Fraction(d) != r and (d2b(d) & 1) == 0:
                nb = d2b(d) + (1 if (Fraction(d) < r) == (d > 0) else -1)
                d = b2d(nb)
            return f32(d)
        except (ValueError, OverflowError):
            return rnd(a * b + c, s)
    if REAL[0]: return fadd(fmul(a, b, s), c, s)
    if a.__class__ is float or (b.__class__ is Term and a.id > b.id): a, b = b, a
    return mk('f_fma', s, a, b, c)


# ---------------------------------------------------------------- evaluation
class Evaluator:
    """value of a term for concrete values of its variables (used to validate the engine)"""

    def __init__(self, env, hidx=None, table=None):
        self.env = env; self.memo = {}; self.hidx = hidx; self.table = table

    def __call__(self, t):
        if t.__class__ is not Term: return t
        memo = self.memo
        st = [t]
        while st:
            u = st[-1]
            if u.id in memo: st.pop(); continue
            if u.op == 'ite':
                c = u.args[0]
                if c.id not in memo: st.append(c); continue
                x = u.args[1] if memo[c.id] else u.args[2]
                if x.__class__ is Term:
                    if x.id not in memo: st.append(x); continue
                    x = memo[x.id]
                memo[u.id] = x; st.pop(); continue
            miss = [a for a in u.args if a.__class__ is Term and a.id not in memo]
            if miss: st.extend(miss); continue
            memo[u.id] = self.op(u, [memo[a.id] if a.__class__ is Term else a for a in u.args])
            st.pop()
        return memo[t.id]

    def op(self, u, A):
        op = u.op; s = u.sort
        a0 = u.args[0]
        so = a0.sort if a0.__class__ is Term else (u.args[1].sort if len(u.args) > 1 and u.args[1].__class__ is Term else None)
        if op == 'var':
            if u.args[0] not in self.env: self.env[u.args[0]] = 0.0 if s in ('d', 's') else 0
            return self.env[u.args[0]]
        if op == 'lin':
            r = A[0]
            for x, c in zip(A[1::2], A[2::2]): r += x * c
            return r & mask(s)
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem', 'mul'):
            return {'and': and_, 'or': or_, 'xor': xor, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem, 'mul': mul}[op](A[0], A[1], s)
        if op == 'not': return 1 - A[0]
        if op in ('zext', 'sext', 'trunc'): return {'zext': zext, 'sext': sext, 'trunc': trunc}[op](A[0], so, s)
        if op == 'extract': return extract(A[0], so, A[1], s)
        if op == 'concat': return A[0] << u.x | A[1]
        if op in ('eq', 'ult', 'slt'): return icmp(op, A[0], A[1], so)
        if op == 'flt': return 1 if A[0] < A[1] else 0
        if op == 'fle': return 1 if A[0] <= A[1] else 0
        if op == 'isnan': return 1 if A[0] != A[0] else 0
        if op in ('fadd', 'fmul', 'fdiv', 'frem'): return {'fadd': fadd, 'fmul': fmul, 'fdiv': fdiv, 'frem': frem}[op](A[0], A[1], s)
        if op == 'fscale': return fscale(A[0], A[1], s)
        if op == 'fneg': return -A[0]
        if op == 'fabs': return math.fabs(A[0])
        if op == 'fpext': return A[0]
        if op == 'fptrunc': return f32(A[0])
        if op == 'sitofp': return sitofp(A[0], so, s)
        if op == 'uitofp': return uitofp(A[0], so, s)
        if op == 'fptoui': return fptoui_sat(A[0], s)
        if op == 'fptosi': return fptosi_sat(A[0], s)
        if op == 'fbits': return fbits(A[0], so)
        if op == 'bits2f': return bits2f(A[0], s)
        if op == 'fsum': return float(A[0]) + sum(float(c) * x for x, c in zip(A[1::2], A[2::2]))
        if op == 'fprod': return math.prod(A)
        if op == 'frecip': return 1.0 / A[0]
        if op == 'fcast': return A[0] if s == 'd' else f32(A[0])
        if op == 'fmax':
            l = [x for x in A if x == x]
            return max(l)
        if op == 'f_fma': return fma(A[0], A[1], A[2], s)
        if op == 'f_hidx': return self.hidx(A[0])
        if op == 'f_tab': return self.table(A[0], A[1], s)
        if op.startswith('f_'):
            return fun1(op[2:], A[0], s) if len(A) == 1 else fun2(op[2:], A[0], A[1], s)
        raise ValueError('evaluate ' + op)
