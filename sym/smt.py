"""Translation of terms to z3.

levels:  'op'  float arithmetic results are unconstrained fresh values (over-approximation)
         'uf'  float arithmetic results are uninterpreted functions of their operands
         'fp'  float arithmetic is IEEE-754 (z3 floating-point theory), libm functions stay uninterpreted
Integers are bit-vectors ('bv') or mathematical integers with exact wrap-around side conditions ('int').
Float values are represented by their IEEE bit patterns in all levels.
"""
import z3, math
from . import terms as T
from .terms import Term

z3.set_param('model.completion', True)

RNE = z3.RNE()
F64 = z3.Float64(); F32 = z3.Float32()
FARITH = {'fsum', 'fprod', 'frecip', 'fcast', 'fadd', 'fmul', 'fdiv', 'frem', 'fptrunc', 'sitofp', 'uitofp', 'fscale', 'f_fma'}


def fw(s): return 64 if s == 'd' else 32


class Trans:
    def __init__(self, level='op', ints='bv'):
        self.level = level
        self.ints = ints
        self.cache = {}
        self.side = []       # side axioms not yet asserted
        self.ufs = {}
        self.fresh = 0
        self.vars = {}       # name -> (z3 const, sort)

    # ---- leaves
    def const(self, v, sort):
        if v.__class__ is float:
            return z3.BitVecVal(T.d2b(v) if sort == 'd' else T.s2b(v), fw(sort))
        if sort == 1: return z3.BoolVal(bool(v))
        if sort in ('d', 's'):
            raise ValueError('int const for float sort')
        if self.ints == 'int': return z3.IntVal(v)
        return z3.BitVecVal(v, sort)

    def newint(self, lo, hi, pre='k'):
        self.fresh += 1
        k = z3.Int('%s!%d' % (pre, self.fresh))
        self.side.append(k >= lo); self.side.append(k <= hi)
        return k

    def uf(self, name, *zs):
        if z3.is_bv(zs[-1]) or True:
            key = (name,) + tuple(z.sort().sexpr() for z in zs)
        f = self.ufs.get(key)
        return key, f

    def app(self, name, outsort, *zs):
        key = (name, outsort.sexpr()) + tuple(z.sort().sexpr() for z in zs)
        f = self.ufs.get(key)
        if f is None:
            f = z3.Function('%s!%d' % (name, len(self.ufs)), *([z.sort() for z in zs] + [outsort]))
            self.ufs[key] = f
        return f(*zs)

    def argsort(self, t, i):
        """sort of the constant operand i of t"""
        for a in t.args:
            if a.__class__ is Term and not (t.op == 'ite' and a is t.args[0]): return a.sort
        return t.sort

    def tr(self, t, sort=None):
        if t.__class__ is not Term: return self.const(t, sort)
        cache = self.cache
        r = cache.get(t.id)
        if r is not None: return r
        stack = [t]
        while stack:
            u = stack[-1]
            if u.id in cache:
                stack.pop(); continue
            if self.opaque(u):
                cache[u.id] = self.mkopaque(u); stack.pop(); continue
            miss = [a for a in u.args if a.__class__ is Term and a.id not in cache]
            if miss:
                stack.extend(miss); continue
            cache[u.id] = self.build(u)
            stack.pop()
        return cache[t.id]

    def opaque(self, u):
        if self.level == 'op':
            return u.op in FARITH or u.op.startswith('f_')
        return False

    def mkopaque(self, u):
        z = z3.BitVec('o!%d' % u.id, fw(u.sort))
        self.signax(u, z)
        return z

    def signax(self, u, z):
        w = fw(u.sort)
        nan = self.z_isnan(z, u.sort)
        if u.op in ('sitofp', 'uitofp'): self.side.append(z3.Not(nan))
        if T.nonneg(u): self.side.append(z3.Or(nan, z >= 0))

    # ---- float helpers
    def z_isnan(self, z, s):
        w = fw(s)
        m = (1 << (w - 1)) - 1
        inf = 0x7ff0000000000000 if s == 'd' else 0x7f800000
        return z3.UGT(z & m, z3.BitVecVal(inf, w))

    def z_key(self, z, s):
        if z3.is_bv_value(z):
            w = fw(s); v = z.as_long(); m = (1 << (w - 1)) - 1
            return z3.BitVecVal(-(v & m) if v >> (w - 1) else v, w)
        w = fw(s); m = (1 << (w - 1)) - 1
        return z3.If(z < 0, -(z & m), z)

    def tofp(self, z, s): return z3.fpBVToFP(z, F64 if s == 'd' else F32)

    def int2bv(self, z, w):
        return z if z3.is_bv(z) else z3.Int2BV(z, w)

    def build(self, t):
        op = t.op; s = t.sort; A = t.args
        if op == 'var':
            name = A[0]
            if s == 1: z = z3.Bool(name)
            elif s in ('d', 's'): z = z3.BitVec(name, fw(s))
            elif self.ints == 'int':
                z = z3.Int(name)
                lo, hi = T.urange(t)
                self.side.append(z >= lo); self.side.append(z <= hi)
            else: z = z3.BitVec(name, s)
            self.vars[name] = (z, s)
            return z
        if op in INTOPS: return self.build_int(t)
        tr = self.tr
        if op == 'not': return z3.Not(tr(A[0]))
        if op == 'ite':
            return z3.If(tr(A[0]), tr(A[1], s), tr(A[2], s))
        if op in ('flt', 'fle'):
            so = self.argsort(t, 0)
            a = tr(A[0], so); b = tr(A[1], so)
            ka = self.z_key(a, so); kb = self.z_key(b, so)
            c = [ka < kb if op == 'flt' else ka <= kb]
            if A[0].__class__ is Term: c.append(z3.Not(self.z_isnan(a, so)))
            if A[1].__class__ is Term: c.append(z3.Not(self.z_isnan(b, so)))
            return z3.And(*c)
        if op == 'isnan': return self.z_isnan(tr(A[0]), A[0].sort)
        if op == 'fneg': return tr(A[0]) ^ z3.BitVecVal(1 << (fw(s) - 1), fw(s))
        if op == 'fabs': return tr(A[0]) & z3.BitVecVal((1 << (fw(s) - 1)) - 1, fw(s))
        if op == 'fbits':
            z = tr(A[0])
            return z if self.ints == 'bv' else z3.BV2Int(z)
        if op == 'bits2f':
            z = tr(A[0])
            return z if z3.is_bv(z) else z3.Int2BV(z, fw(s))
        if op == 'fpext':
            z = tr(A[0])
            if self.level == 'fp' or True:
                return z3.fpToIEEEBV(z3.fpFPToFP(RNE, self.tofp(z, 's'), F64))
        # arithmetic
        w = fw(s)
        if self.level == 'fp':
            F = F64 if s == 'd' else F32
            if op in ('fadd', 'fmul', 'fdiv'):
                a = self.tofp(tr(A[0], s), s); b = self.tofp(tr(A[1], s), s)
                r = {'fadd': z3.fpAdd, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RNE, a, b)
                return z3.fpToIEEEBV(r)
            if op == 'fscale':
                a = self.tofp(tr(A[0], s), s)
                return z3.fpToIEEEBV(z3.fpMul(RNE, a, z3.FPVal(math.ldexp(1.0, A[1]), F)))
            if op == 'fptrunc': return z3.fpToIEEEBV(z3.fpFPToFP(RNE, self.tofp(tr(A[0]), 'd'), F32))
            if op == 'sitofp': return z3.fpToIEEEBV(z3.fpSignedToFP(RNE, self.int2bv(tr(A[0]), A[0].sort), F))
            if op == 'uitofp': return z3.fpToIEEEBV(z3.fpUnsignedToFP(RNE, self.int2bv(tr(A[0]), A[0].sort), F))
            if op == 'f_fma':
                return z3.fpToIEEEBV(z3.fpFMA(RNE, *[self.tofp(tr(a, s), s) for a in A]))
            if op == 'fptoui':
                a = self.tofp(tr(A[0]), A[0].sort)
                return z3.If(z3.Or(self.z_isnan(tr(A[0]), A[0].sort), tr(A[0]) < 0), z3.BitVecVal(0, s),
                             z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(s)))
        zs = []
        for i, a in enumerate(A):
            if a.__class__ is Term: zs.append(tr(a))
            elif a.__class__ is float: zs.append(tr(a, self.fsort_of(t, i)))
            else: zs.append(z3.BitVecVal(a, 64))
        if op == 'fptoui' or op == 'fptosi':
            z = self.app(op, z3.BitVecSort(s), *zs)
            return z if self.ints == 'bv' else z3.BV2Int(z)
        z = self.app(op, z3.BitVecSort(w), *zs)
        self.signax(t, z)
        return z

    def fsort_of(self, t, i):
        return t.sort

    # ---- integers
    def build_int(self, t):
        op = t.op; s = t.sort; A = t.args; tr = self.tr
        so = self.argsort(t, 0)
        if op in ('and', 'or', 'xor') and s == 1:
            a = tr(A[0], 1); b = tr(A[1], 1)
            return z3.And(a, b) if op == 'and' else z3.Or(a, b) if op == 'or' else z3.Xor(a, b)
        if op == 'eq' and so == 1: return tr(A[0], 1) == tr(A[1], 1)
        if self.ints == 'int':
            return self.build_intmode(t, so)
        if op == 'lin':
            z = z3.BitVecVal(A[0], s) if A[0] else None
            for x, c in zip(A[1::2], A[2::2]):
                y = tr(x)
                if c != 1:
                    if c == T.mask(s): y = -y
                    elif c >> (s - 1): y = -(y * z3.BitVecVal((-c) & T.mask(s), s))
                    else: y = y * z3.BitVecVal(c, s)
                z = y if z is None else z + y
            return z
        if op == 'zext':
            if A[0].sort == 1: return z3.If(tr(A[0]), z3.BitVecVal(1, s), z3.BitVecVal(0, s))
            return z3.ZeroExt(s - A[0].sort, tr(A[0]))
        if op == 'sext':
            if A[0].sort == 1: return z3.If(tr(A[0]), z3.BitVecVal(-1, s), z3.BitVecVal(0, s))
            return z3.SignExt(s - A[0].sort, tr(A[0]))
        if op == 'trunc':
            if s == 1: return z3.Extract(0, 0, tr(A[0])) == 1
            return z3.Extract(s - 1, 0, tr(A[0]))
        if op == 'extract':
            z = z3.Extract(A[1] + s - 1, A[1], tr(A[0]))
            return z == 1 if s == 1 else z
        if op == 'concat':
            lw = t.x; hw = s - lw
            return z3.Concat(tr(A[0], hw), tr(A[1], lw))
        if op in ('eq', 'ult', 'slt'):
            a = tr(A[0], so); b = tr(A[1], so)
            return a == b if op == 'eq' else z3.ULT(a, b) if op == 'ult' else a < b
        a = tr(A[0], s); b = tr(A[1], s)
        return {'mul': lambda: a * b, 'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b),
                'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b), 'and': lambda: a & b, 'or': lambda: a | b,
                'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b}[op]()

    def build_intmode(self, t, so):
        op = t.op; s = t.sort; A = t.args; tr = self.tr
        M = T.mask(s) if s.__class__ is int else None
        if op == 'lin':
            c0 = T.sx(A[0], s); lo = hi = c0
            z = z3.IntVal(c0) if c0 else None
            for x, c in zip(A[1::2], A[2::2]):
                c = T.sx(c, s); l, h = T.urange(x)
                y = tr(x) * c if c != 1 else tr(x)
                lo += c * l if c >= 0 else c * h
                hi += c * h if c >= 0 else c * l
                z = y if z is None else z + y
            if 0 <= lo and hi <= M: return z
            k = self.newint(lo >> s, hi >> s)
            r = z - k * (1 << s)
            self.side.append(r >= 0); self.side.append(r <= M)
            return r
        if op == 'zext':
            return z3.If(tr(A[0]), z3.IntVal(1), z3.IntVal(0)) if A[0].sort == 1 else tr(A[0])
        if op == 'sext':
            if A[0].sort == 1: return z3.If(tr(A[0]), z3.IntVal(M), z3.IntVal(0))
            a = tr(A[0]); h = 1 << (A[0].sort - 1)
            return z3.If(a >= h, a + ((1 << s) - (1 << A[0].sort)), a)
        if op == 'trunc':
            a = tr(A[0]); r = T.urange(A[0])
            if s == 1: return self.mod(a, 2, r)[1] == 1
            if r[1] <= M: return a
            return self.mod(a, 1 << s, r)[1]
        if op == 'extract':
            a = self.mod(tr(A[0]), 1 << A[1], T.urange(A[0]))[0]
            q = self.mod(a, 1 << s, (0, T.mask(A[0].sort - A[1])))[1]
            return q == 1 if s == 1 else q
        if op == 'concat':
            lw = t.x
            return tr(A[0], s - lw) * (1 << lw) + tr(A[1], lw)
        if op in ('eq', 'ult', 'slt'):
            a = tr(A[0], so); b = tr(A[1], so)
            if op == 'eq': return a == b
            if op == 'ult': return a < b
            h = 1 << (so - 1)
            sg = lambda z, x: z if T.urange(x)[1] < h else z3.If(z >= h, z - (1 << so), z)
            return sg(a, A[0]) < sg(b, A[1])
        a = tr(A[0], s); b = tr(A[1], s)
        ra = T.urange(A[0]); rb = T.urange(A[1])
        if op == 'mul':
            if ra[1] * rb[1] <= M: return a * b
            k = self.newint(0, (ra[1] * rb[1]) >> s)
            r = a * b - k * (1 << s)
            self.side.append(r >= 0); self.side.append(r <= M)
            return r
        if op in ('udiv', 'urem'):
            if A[1].__class__ is int:
                q, r = self.mod(a, A[1], ra)
                return q if op == 'udiv' else r
            key = ('divmod', _k(A[0]), _k(A[1]))
            qr = self.cache.get(key)
            if qr is None:
                q = self.newint(0, ra[1] // max(rb[0], 1)); r = self.newint(0, M)
                self.side.append(z3.Implies(b > 0, z3.And(a == q * b + r, r < b)))
                qr = self.cache[key] = (q, r)
            return qr[0] if op == 'udiv' else qr[1]
        if op == 'lshr' and A[1].__class__ is int: return self.mod(a, 1 << A[1], ra)[0]
        if op == 'and' and A[1].__class__ is int:
            m = A[1]
            if m & (m + 1) == 0: return self.mod(a, m + 1, ra)[1]
            inv = M ^ m
            if inv & (inv + 1) == 0: return a - self.mod(a, inv + 1, ra)[1]
            tz = (m & -m).bit_length() - 1; mm = m >> tz
            if mm & (mm + 1) == 0:
                q = self.mod(a, 1 << tz, ra)[0]
                return self.mod(q, mm + 1, (0, ra[1] >> tz))[1] * (1 << tz)
        # fall back to bit-vectors
        za = z3.Int2BV(a, s); zb = z3.Int2BV(b, s)
        r = {'and': lambda: za & zb, 'or': lambda: za | zb, 'xor': lambda: za ^ zb, 'shl': lambda: za << zb,
             'lshr': lambda: z3.LShR(za, zb), 'ashr': lambda: za >> zb, 'sdiv': lambda: za / zb,
             'srem': lambda: z3.SRem(za, zb)}[op]()
        return z3.BV2Int(r)

    def mod(self, z, c, rng):
        if rng[1] < c: return z3.IntVal(0), z
        key = ('mod', z.get_id(), c)
        r = self.cache.get(key)
        if r is None:
            q = self.newint(rng[0] // c, rng[1] // c, 'q')
            rem = z - q * c
            self.side.append(rem >= 0); self.side.append(rem < c)
            r = self.cache[key] = (q, rem, z)
        return r[0], r[1]


def _k(a): return a.id if a.__class__ is Term else ('c', a)


INTOPS = {'lin', 'zext', 'sext', 'trunc', 'extract', 'concat', 'eq', 'ult', 'slt', 'mul', 'udiv', 'urem', 'sdiv', 'srem',
          'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}


def depends_opaque(t, memo):
    """does t contain float arithmetic (cut at level 'op')?"""
    st = [t]; seen = set()
    while st:
        u = st.pop()
        if u.__class__ is not Term or u.id in seen: continue
        seen.add(u.id)
        m = memo.get(u.id)
        if m: return True
        if u.op in FARITH or u.op.startswith('f_'):
            memo[t.id] = True
            return True
        st.extend(u.args)
    return False


# ---------------------------------------------------------------- order encoding
from fractions import Fraction
INFK = Fraction(2) ** 1024


class OTrans(Trans):
    nra = False
    """Floats are pairs (value as a real, NaN flag); +-inf are +-2^1024, the zeros are identified.
    Only ordering, sign manipulation, exact widening/scaling and maxima are interpreted; other arithmetic is
    opaque (level 'op') or uninterpreted functions of its operands (level 'uf')."""

    def const(self, v, sort):
        if v.__class__ is float:
            if v != v: return (z3.RealVal(0), True)
            if math.isinf(v): return (z3.RealVal(INFK if v > 0 else -INFK), False)
            f = Fraction(v)
            return (z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator), False)
        return Trans.const(self, v, sort)

    def tr(self, t, sort=None):
        if t.__class__ is not Term: return self.const(t, sort)
        cache = self.cache
        r = cache.get(t.id)
        if r is not None: return r
        stack = [t]
        while stack:
            u = stack[-1]
            if u.id in cache:
                stack.pop(); continue
            if self.opaque(u):
                cache[u.id] = self.mkopaque(u); stack.pop(); continue
            miss = [a for a in u.args if a.__class__ is Term and a.id not in cache]
            if miss:
                stack.extend(miss); continue
            cache[u.id] = self.build(u)
            stack.pop()
        return cache[t.id]

    def opaque(self, u):
        if T.REAL[0] and u.op in ('fsum', 'fcast'): return False
        if T.REAL[0] and self.level != 'op' and u.op in ('fprod', 'frecip') and self.nra: return False
        if self.level == 'op':
            if u.op in ('fscale',): return False
            return u.op in FARITH or u.op.startswith('f_') or u.op in ('bits2f', 'fbits', 'fptoui', 'fptosi')
        return False

    def mkopaque(self, u):
        if u.sort not in ('d', 's'):
            if self.ints == 'int':
                z = z3.Int('o!%d' % u.id); lo, hi = T.urange(u)
                self.side += [z >= lo, z <= hi]
                return z
            z = z3.BitVec('o!%d' % u.id, u.sort)
            if u.rng: self.side += [z3.UGE(z, u.rng[0]), z3.ULE(z, u.rng[1])]
            return z
        k = z3.Real('o!%d' % u.id)
        if u.op in ('sitofp', 'uitofp'):
            n = False; w = u.args[0].sort
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1))) if u.op == 'sitofp' else (0, 1 << w)
            if u.op == 'uitofp':
                lo, hi = T.urange(u.args[0])
                lo = int(T.rnd(float(lo), u.sort)); hi = int(T.rnd(float(hi), u.sort))
            self.side += [k >= lo, k <= hi]
            return (k, n)
        n = False if T.REAL[0] else z3.Bool('n!%d' % u.id)
        self.fside(u, k)
        return (k, n)

    def fside(self, u, k):
        self.side.append(k <= INFK)
        self.side.append(k >= (0 if T.nonneg(u) else -INFK))

    def pick(self, c, a, b):
        n = self.ifn(c, a[1], b[1])
        return (z3.If(c, a[0], b[0]), n)

    def ifn(self, c, x, y):
        if x is False and y is False: return False
        if x is True and y is True: return True
        return z3.If(c, zb(x), zb(y))

    def build(self, t):
        op = t.op; s = t.sort; A = t.args; tr = self.tr
        if op == 'var':
            name = A[0]
            if s == 1: z = z3.Bool(name)
            elif s in ('d', 's'):
                z = (z3.Real(name), False if T.REAL[0] else z3.Bool(name + 'n'))
                self.side += [z[0] <= INFK, z[0] >= -INFK]
            elif self.ints == 'int':
                z = z3.Int(name)
                lo, hi = T.urange(t)
                self.side.append(z >= lo); self.side.append(z <= hi)
            else: z = z3.BitVec(name, s)
            self.vars[name] = (z, s)
            return z
        if op in INTOPS: return self.build_int(t)
        if op == 'not': return z3.Not(tr(A[0]))
        if op == 'ite':
            c = tr(A[0])
            if s in ('d', 's'): return self.pick(c, tr(A[1], s), tr(A[2], s))
            return z3.If(c, tr(A[1], s), tr(A[2], s))
        if op in ('flt', 'fle'):
            so = self.argsort(t, 0)
            a = tr(A[0], so); b = tr(A[1], so)
            c = [a[0] < b[0] if op == 'flt' else a[0] <= b[0]]
            for x in (a, b):
                if x[1] is True: return z3.BoolVal(False)
                if x[1] is not False: c.append(z3.Not(x[1]))
            return z3.And(*c) if len(c) > 1 else c[0]
        if op == 'isnan': return zb(tr(A[0])[1])
        if op == 'fneg':
            a = tr(A[0]); return (-a[0], a[1])
        if op == 'fabs':
            a = tr(A[0]); return (z3.If(a[0] < 0, -a[0], a[0]), a[1])
        if op == 'fpext': return tr(A[0])
        if op == 'fscale':
            a = tr(A[0])
            c = Fraction(2) ** A[1]
            return (a[0] * z3.Q(c.numerator, c.denominator), a[1])
        if op == 'fcast': return tr(A[0])
        if op == 'fsum':
            l = [q(A[0])] if A[0] else []
            n = False
            for x, c in zip(A[1::2], A[2::2]):
                z = tr(x)
                l.append(z[0] if c == 1 else z[0] * q(c))
            return (z3.Sum(l) if len(l) > 1 else l[0], n)
        if op == 'fprod' and self.nra and self.level != 'op':
            z = tr(A[0])[0]
            for x in A[1:]: z = z * tr(x)[0]
            return (z, False)
        if op == 'frecip' and self.nra and self.level != 'op':
            k = z3.Real('r!%d' % t.id)
            self.side.append(k * tr(A[0])[0] == 1)
            return (k, False)
        if op == 'fmax':
            self.fresh += 1
            k = z3.Real('m!%d' % t.id)
            base = self.const(A[0], s)[0]
            self.side.append(k >= base)
            alt = [k == base]
            for e in A[1:]:
                x = tr(e)
                if x[1] is True: continue
                if x[1] is False:
                    self.side.append(k >= x[0]); alt.append(k == x[0])
                else:
                    self.side.append(z3.Or(x[1], k >= x[0])); alt.append(z3.And(z3.Not(x[1]), k == x[0]))
            self.side.append(z3.Or(*alt))
            return (k, False)
        # uninterpreted
        zs = []
        if op == 'f_tab':
            op = 'f_tab_' + A[0]; A = A[1:]
        for i, a in enumerate(A):
            if a.__class__ is Term: z = tr(a)
            elif a.__class__ is float: z = self.const(a, s)
            else: z = z3.RealVal(str(a))
            if z.__class__ is tuple: zs += [z[0], zb(z[1])]
            else: zs.append(z)
        if s in ('d', 's'):
            if op in ('sitofp', 'uitofp') and self.ints == 'int' and T.urange(A[0])[1] <= (1 << (53 if s == 'd' else 24)) and op == 'uitofp':
                return (z3.ToReal(zs[0]), False)
            k = self.app(op + str(s), z3.RealSort(), *zs)
            n = False if op in ('sitofp', 'uitofp') or T.REAL[0] else self.app(op + str(s) + 'n', z3.BoolSort(), *zs)
            self.fside(t, k)
            return (k, n)
        z = self.app(op + str(s), z3.BoolSort() if s == 1 else z3.IntSort() if self.ints == 'int' else z3.BitVecSort(s), *zs)
        return z


def q(c): return z3.Q(c.numerator, c.denominator)


def zb(x): return x if x.__class__ is not bool else z3.BoolVal(x)
