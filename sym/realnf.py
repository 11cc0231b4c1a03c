"""Normal form of float terms as real expressions ("equal up to rounding").

fsum(c0, t1, c1, t2, c2, ...)  = c0 + c1*t1 + ...   (exact rational coefficients, t_i not constants)
fprod(t1, ..., tn)             = product of non-constant factors with leading coefficient 1
Nested sums are flattened, so the state of a linear filter is one sum over the samples whatever the shape of
the code that computes it; products of sums are kept as atoms (with EXPAND[0] they are distributed as well,
for polynomial identities).  NaN and overflow are outside this mode.
"""
from fractions import Fraction
import math
from . import terms as T
from .terms import Term, mk

ONE = Fraction(1)
EXPAND = [False]
TOL = Fraction(1, 10**9)


def lin(a):
    """(constant, {term: coefficient})"""
    if a.__class__ is float:
        if not math.isfinite(a): raise OverflowError
        return Fraction(a), {}
    if a.op == 'fsum': return a.args[0], dict(zip(a.args[1::2], a.args[2::2]))
    return Fraction(0), {a: ONE}


CANCEL = Fraction(1, 1 << 150)


def plus(x, y):
    """x + y for coefficients; what is left of a cancellation by rounding is nothing"""
    if not x: return y
    if not y: return x
    z = x + y
    if z and z.denominator.bit_length() > 150 and abs(z) <= CANCEL * abs(x): return Fraction(0)
    return z


def trim(c):
    """coefficients keep 200 significant bits (far more than the floats they stand for)"""
    d = c.denominator.bit_length(); n = c.numerator.bit_length()
    if d <= 400 and n <= 400: return c
    k = 200 + d - n         # c * 2**k has about 200 bits
    if k >= 0: m = (c.numerator << k) // c.denominator; return Fraction(m, 1 << k)
    return Fraction((c.numerator // (c.denominator << -k)) << -k)


def build(c0, d, s):
    d = {t: trim(c) for t, c in d.items() if c}
    c0 = trim(c0)
    if not d: return tofloat(c0)
    # a single nested sum with coefficient one, or sums with coefficient one inside: flatten
    again = [t for t in d if t.op == 'fsum']
    while again:
        for t in again:
            c = d.pop(t)
            k, e = lin(t)
            c0 = plus(c0, k * c)
            for u, x in e.items(): d[u] = plus(d.get(u, 0), x * c)
        d = {t: c for t, c in d.items() if c}
        again = [t for t in d if t.op == 'fsum']
    if not d: return tofloat(c0)
    if not c0 and len(d) == 1:
        t, c = next(iter(d.items()))
        if c == 1: return t
    flat = []
    ts = sorted(d, key=lambda t: t.id)
    for t in ts: flat.append(t); flat.append(d[t])
    # sums that differ by the rounding of constants only are one term
    l = CANON.setdefault((s, tuple([t.id for t in ts])), {})
    try: k = T.d2b(float(flat[1])) >> 16; m = T.d2b(float(c0)) >> 16
    except OverflowError: k = m = 0
    for i in (k, k - 1, k + 1):
        for j in (m, m - 1, m + 1):
            for a in l.get((i, j), ()):
                if tight(c0, a.args[0]) and all(tight(x, y) for x, y in zip(flat[1::2], a.args[2::2])): return a
    a = mk('fsum', s, c0, *flat)
    if a.__class__ is Term and a.op == 'fsum': l.setdefault((k, m), []).append(a)
    return a


CANON = {}
TIGHT = Fraction(1, 10**11)


def tight(x, y):
    return x == y or abs(x - y) <= TIGHT * abs(x)


def tofloat(c):
    try: return float(c)
    except OverflowError: return math.inf if c > 0 else -math.inf


def content(a):
    """a = c * b with b normalised"""
    if a.op != 'fsum': return ONE, a
    k = a.args[2]
    if k == 1: return ONE, a
    d = {t: c / k for t, c in zip(a.args[1::2], a.args[2::2])}
    return k, build(a.args[0] / k, d, a.sort)


def bad(a): return a.__class__ is float and not math.isfinite(a)


def fadd(a, b, s):
    if bad(a): return a
    if bad(b): return b
    c1, d1 = lin(a); c2, d2 = lin(b)
    for t, c in d2.items(): d1[t] = plus(d1.get(t, 0), c)
    return build(plus(c1, c2), d1, s)


def scale(a, k, s):
    """k * a"""
    if k == 0: return 0.0
    if k == 1: return a
    if a.__class__ is float: return tofloat(Fraction(a) * k) if math.isfinite(a) else (a if k > 0 else -a)
    if a.op == 'fmax' and k > 0: return T._mapmax(a, lambda x: scale(x, k, s), s)
    if a.op == 'ite' and a.x == 'K': return T._ite(a.args[0], scale(a.args[1], k, s), scale(a.args[2], k, s), s)
    if a.op == 'fsum':
        if not a.args[0] and len(a.args) == 3: return build(Fraction(0), {a.args[1]: a.args[2] * k}, s)
        return build(a.args[0] * k, {t: c * k for t, c in zip(a.args[1::2], a.args[2::2])}, s)
    return build(Fraction(0), {a: k}, s)


def factors(a):
    if a.op == 'fprod': return list(a.args)
    return [a]


def fmul(a, b, s):
    if a.__class__ is float: a, b = b, a
    if bad(b): return b
    if b.__class__ is float: return scale(a, Fraction(b), s)
    if EXPAND[0] and (a.op == 'fsum' or b.op == 'fsum'):
        c1, d1 = lin(a); c2, d2 = lin(b)
        r = {}
        for t, c in d1.items():
            if c2: r[t] = r.get(t, 0) + c * c2
            for u, e in d2.items():
                p = prod(factors(t) + factors(u), s)
                r[p] = r.get(p, 0) + c * e
        if c1:
            for u, e in d2.items(): r[u] = r.get(u, 0) + e * c1
        return build(c1 * c2, r, s)
    k1, a = content1(a); k2, b = content1(b)
    p = prod(factors(a) + factors(b), s)
    return scale(p, k1 * k2, s)


def content1(a):
    if a.op == 'fsum' and not a.args[0] and len(a.args) == 3: return a.args[2], a.args[1]
    return content(a)


def prod(l, s):
    # cancel t * (1/t)
    l = sorted(l, key=lambda t: t.id)
    for t in l:
        if t.op == 'frecip' and t.args[0] in l:
            l.remove(t); l.remove(t.args[0])
            if not l: return 1.0
            if len(l) == 1: return l[0]
            return prod(l, s)
    if len(l) == 1: return l[0]
    return mk('fprod', s, *l)


def fdiv(a, b, s):
    if bad(a): return a
    if b.__class__ is float:
        if b == 0.0: return mk('fdiv', s, a, b)
        if not math.isfinite(b): return 0.0
        return scale(a, 1 / Fraction(b), s)
    if a.__class__ is float and a == 0.0: return 0.0
    k, b = content1(b)
    r = recip(b, s)
    if a.__class__ is float: return scale(r, Fraction(a) / k, s)
    p = fmul(a, r, s)
    return scale(p, 1 / k, s)


def recip(b, s):
    if b.op == 'frecip': return b.args[0]
    if b.op == 'fprod': return prod([recip(x, s) for x in b.args], s)
    return mk('frecip', s, b)


def fneg(a, s): return scale(a, Fraction(-1), s)


def fabs(a, s):
    if a.op in ('fabs', 'uitofp') or T.nonneg(a): return a
    if a.op == 'fsum':
        k, b = content1(a)
        if k != 1: return scale(fabs(b, s), abs(k), s)
        if len(a.args) == 3 and not a.args[0]: return fabs(a.args[1], s)
    return mk('fabs', s, a)


def cast(a, s):
    if a.__class__ is float: return a
    if a.sort == s: return a
    if a.op == 'fcast': return a.args[0] if a.args[0].sort == s else cast(a.args[0], s)
    if a.op == 'fsum': return build(a.args[0], {cast(t, s): c for t, c in zip(a.args[1::2], a.args[2::2])}, s)
    if a.op == 'fmax': return T._mapmax(a, lambda x: cast(x, s), s)
    if a.op == 'fabs': return fabs(cast(a.args[0], s), s)
    if a.op in ('sitofp', 'uitofp'): return mk(a.op, s, a.args[0])
    if a.op == 'fprod': return prod([cast(x, s) for x in a.args], s)
    if a.op == 'ite' and a.x == 'K': return T._ite(a.args[0], cast(a.args[1], s), cast(a.args[2], s), s)
    return mk('fcast', s, a)


def cmp(a, b, s, strict):
    if not strict: return T.not_(cmp_strict(b, a, s))
    return cmp_strict(a, b, s)


def cmp_strict(a, b, s):
    if a is b: return 0
    if a.__class__ is float and b.__class__ is float: return 1 if a < b else 0
    if near(a, b): return 0
    if a.__class__ is float and a < 0 and T.nonneg(b): return 1
    if b.__class__ is float and b <= 0 and T.nonneg(a): return 0
    at = a.__class__ is Term; bt = b.__class__ is Term
    if (at and a.op == 'fmax') or (bt and b.op == 'fmax'):
        ba, ea = T._elems(a); bb, eb = T._elems(b)
        if set(eb) <= set(ea) and (bb is None or (ba is not None and bb <= ba)): return 0
        return mk('flt', 1, a, b)
    if bad(a) or bad(b): return mk('flt', 1, a, b)
    # canonical form: positive part < negative part, leading coefficient 1, coefficients rounded
    c0, d = lin(a)
    k, e = lin(b)
    c0 -= k
    d = dict(d)
    for t, c in e.items():
        x = d.get(t, 0) - c
        y = abs(d.get(t, 0)) + abs(c)
        if abs(x) <= y * TINY: d.pop(t, None)
        else: d[t] = x
    for rounds in range(4):
        small = [t for t in d if t.op == 'fsum' and (len(d) == 1 or len(t.args) <= 5)]
        if not small: break
        mag = abs(c0)
        for t in small:
            c = d.pop(t)
            k, e = lin(t)
            c0 += k * c; mag = max(mag, abs(k * c))
            for u, x in e.items():
                y = d.get(u, 0) + x * c
                if abs(y) <= TINY * abs(x * c): d.pop(u, None)
                else: d[u] = y
        if abs(c0) <= TINY * mag: c0 = Fraction(0)
    if not d: return 1 if c0 < 0 else 0
    if abs(c0) <= TINY * (max(abs(c) for c in d.values())): c0 = Fraction(0)
    # log is increasing
    if not c0 and len(d) == 2:
        (t, c), (u, e) = d.items()
        if t.op == u.op == 'f_log10' and c == -e and T.nonneg(t.args[0]) and T.nonneg(u.args[0]):
            if c < 0: t, u = u, t
            return cmp_strict(t.args[0], u.args[0], s)
    lead = abs(d[min(d, key=lambda t: t.id)])
    pos = {t: rnd(c / lead) for t, c in d.items() if c > 0}
    neg = {t: rnd(-c / lead) for t, c in d.items() if c < 0}
    c0 = rnd(c0 / lead)
    l = build(max(c0, Fraction(0)), pos, s); r = build(max(-c0, Fraction(0)), neg, s)
    if r.__class__ is float and r <= 0 and T.nonneg(l): return 0
    if l.__class__ is float and l < 0 and T.nonneg(r): return 1
    return mk('flt', 1, l, r)


TINY = Fraction(1, 10**14)


def rnd(c):
    """nearest 44-bit number"""
    if not c: return c
    m, e = math.frexp(c) if abs(c) < 1e300 and abs(c) > 1e-300 else (None, 0)
    if m is None: return c
    return Fraction(round(m * (1 << 44)), 1 << 44) * (Fraction(2) ** e)


def near(a, b):
    """equal up to the rounding of constants"""
    if a is b: return True
    if a.__class__ is float and b.__class__ is float:
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    if a.__class__ is float or b.__class__ is float: return False
    if a.op != b.op or a.sort != b.sort or len(a.args) != len(b.args): return False
    if a.op == 'fsum':
        da = dict(zip(a.args[1::2], a.args[2::2])); db = dict(zip(b.args[1::2], b.args[2::2]))
        if not close(a.args[0], b.args[0]): return False
        if da.keys() == db.keys(): return all(close(c, db[t]) for t, c in da.items())
        return False
    if a.op in ('fabs', 'frecip', 'fcast') or a.op.startswith('f_'):
        return all(x is y or (x.__class__ in (Term, float) and y.__class__ in (Term, float) and near(x, y)) for x, y in zip(a.args, b.args))
    return False


def close(x, y): return x == y or abs(x - y) <= TOL * max(abs(x), abs(y))


def fun1(name, a, s):
    if a.op == 'ite' and a.x == 'K': return T._ite(a.args[0], T.fun1(name, a.args[1], s), T.fun1(name, a.args[2], s), s)
    if name in ('log', 'log2'): return scale(mk('f_log10', s, a), Fraction(math.log(10) if name == 'log' else math.log2(10)), s)
    return mk('f_' + name, s, a)
