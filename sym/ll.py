"""Parser for the textual LLVM IR that rustc emits, and compiler from IR functions to Python."""
import re, struct
from . import terms as T

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*"
 | [%@]"(?:[^"\\]|\\.)*" | [%@!\#$][\w.$-]*
 | [+-](?:inf|qnan|s?nan\(0x[0-9A-Fa-f]+\))
 | [+-]?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?
 | f?0x[KLMHR]?[0-9A-Fa-f]+
 | -?[0-9]+
 | [A-Za-z_][\w.]*
 | \.\.\. | [()\[\]{}<>,=*:|]
''', re.X)


def toks(line): return TOK.findall(line)


class LLError(Exception): pass


# ---- types: ints -> int width; 'd','s','p','v'(void); ('a',n,t); ('st',packed,(t,...)); 'm' metadata
def parse_type(tk, i):
    t = tk[i]
    if t[0] == 'i' and t[1:].isdigit(): r = int(t[1:]); i += 1
    elif t == 'ptr': r = 'p'; i += 1
    elif t == 'double': r = 'd'; i += 1
    elif t == 'float': r = 's'; i += 1
    elif t == 'void': r = 'v'; i += 1
    elif t == 'metadata': r = 'm'; i += 1
    elif t == '[':
        n = int(tk[i + 1]); assert tk[i + 2] == 'x'
        e, i = parse_type(tk, i + 3); assert tk[i] == ']'
        r = ('a', n, e); i += 1
    elif t == '{' or (t == '<' and tk[i + 1] == '{'):
        packed = t == '<'
        i += 2 if packed else 1
        l = []
        while tk[i] != '}':
            e, i = parse_type(tk, i); l.append(e)
            if tk[i] == ',': i += 1
        i += 2 if packed else 1
        r = ('st', packed, tuple(l))
    elif t == '<':
        raise LLError('vector type')
    else:
        raise LLError('type? ' + ' '.join(tk[max(0, i - 5):i + 5]))
    if i < len(tk) and tk[i] == 'addrspace': raise LLError('addrspace')
    return r, i


def is_type(t):
    return t in ('ptr', 'double', 'float', 'void', '{', '[', '<', 'metadata') or (t[0] == 'i' and t[1:].isdigit())


def sizeof(t):
    if t.__class__ is int: return (t + 7) // 8 if t < 128 else 16
    if t in ('p', 'd'): return 8
    if t == 's': return 4
    if t[0] == 'a': return t[1] * sizeof(t[2])
    if t[0] == 'st':
        off = 0; al = 1
        for e in t[2]:
            a = 1 if t[1] else alignof(e)
            off = (off + a - 1) // a * a + sizeof(e); al = max(al, a)
        return (off + al - 1) // al * al
    raise LLError('sizeof %r' % (t,))


def alignof(t):
    if t.__class__ is int: return {1: 1, 2: 2, 3: 4, 4: 4}.get((t + 7) // 8, 8 if t <= 64 else 16)
    if t in ('p', 'd'): return 8
    if t == 's': return 4
    if t[0] == 'a': return alignof(t[2])
    return 1 if t[1] else max([alignof(e) for e in t[2]] or [1])


def field_off(t, k):
    off = 0
    for n, e in enumerate(t[2]):
        a = 1 if t[1] else alignof(e)
        off = (off + a - 1) // a * a
        if n == k: return off
        off += sizeof(e)


VALKW = {'null', 'true', 'false', 'undef', 'poison', 'zeroinitializer', 'getelementptr', 'inttoptr', 'ptrtoint',
         'bitcast', 'none', 'add', 'sub', 'trunc'}


def skip_attrs(tk, i):
    while True:
        t = tk[i]
        c = t[0]
        if c in '%@{[<(' or c.isdigit() or c in '+-' or t.startswith('c"') or t in VALKW or c == '!' or t.startswith('f0x'): return i
        i += 1
        if t == 'align' and tk[i] != '(': i += 1
        elif i < len(tk) and tk[i] == '(':
            d = 0
            while True:
                if tk[i] == '(': d += 1
                elif tk[i] == ')':
                    d -= 1
                    if d == 0: i += 1; break
                i += 1


def parse_float(s, ty):
    if s.startswith('f0x'):
        b = int(s[3:], 16)
        return T.b2d(b) if ty == 'd' else T.b2s(b)
    if s.startswith('0x'): return T.b2d(int(s, 16))
    if s[1:] == 'inf': return float(s)
    if 'nan' in s: return float('nan')
    return float(s)


def unescape(s):
    """c"..." -> bytes"""
    s = s[2:-1]; out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)


class Value:
    """operand: kind 'r' register, 'c' concrete constant, 'g' global symbol (+offset), 'agg' aggregate, 'u' undef"""
    __slots__ = ('k', 'v', 'ty')

    def __init__(self, k, v, ty): self.k = k; self.v = v; self.ty = ty

    def __repr__(self): return 'V(%s,%r,%r)' % (self.k, self.v, self.ty)


def parse_value(tk, i, ty):
    t = tk[i]
    c = t[0]
    if c == '%': return Value('r', t[1:], ty), i + 1
    if c == '@': return Value('g', (t[1:].strip('"'), 0), ty), i + 1
    if t in ('undef', 'poison'): return Value('u', None, ty), i + 1
    if t == 'null': return Value('c', 0, ty), i + 1
    if t in ('true', 'false'): return Value('c', 1 if t == 'true' else 0, ty), i + 1
    if t == 'zeroinitializer': return zero(ty), i + 1
    if ty in ('d', 's'): return Value('c', parse_float(t, ty), ty), i + 1
    if c.isdigit() or c in '+-':
        return Value('c', int(t) & T.mask(ty), ty), i + 1
    if t.startswith('c"'):
        return Value('bytes', unescape(t), ty), i + 1
    if t in ('{', '[') or (t == '<' and tk[i + 1] == '{'):
        i += 2 if t == '<' else 1
        l = []
        while tk[i] not in ('}', ']'):
            ety, i = parse_type(tk, i)
            v, i = parse_value(tk, i, ety)
            l.append(v)
            if tk[i] == ',': i += 1
        i += 2 if t == '<' else 1
        return Value('agg', l, ty), i
    if t == 'getelementptr':
        i += 1
        while tk[i] != '(':
            i += 1
            # inrange(-16, 8) attributes
        # handle 'inrange' with parens
        if tk[i - 1] in ('inrange',):
            d = 0
            while True:
                if tk[i] == '(': d += 1
                elif tk[i] == ')':
                    d -= 1
                    if d == 0: i += 1; break
                i += 1
        i += 1
        ety, i = parse_type(tk, i); i += 1
        _, i = parse_type(tk, i)
        b, i = parse_value(tk, i, 'p')
        off = 0; cur = ety; first = True
        while tk[i] == ',':
            ity, i = parse_type(tk, i + 1)
            ix, i = parse_value(tk, i, ity)
            n = T.sx(ix.v, ity)
            if first: off += n * sizeof(cur); first = False
            elif cur[0] == 'a': cur = cur[2]; off += n * sizeof(cur)
            else: off += field_off(cur, n); cur = cur[2][n]
        assert tk[i] == ')'
        if b.k == 'g': return Value('g', (b.v[0], b.v[1] + off), 'p'), i + 1
        return Value('c', (b.v + off) & T.mask(64), 'p'), i + 1
    if t in ('inttoptr', 'ptrtoint', 'bitcast'):
        i += 2
        sty, i = parse_type(tk, i)
        v, i = parse_value(tk, i, sty)
        assert tk[i] == 'to'
        dty, i = parse_type(tk, i + 1)
        assert tk[i] == ')'
        return Value(v.k, v.v, dty), i + 1
    if t in ('sub', 'add', 'trunc'):
        # constant expressions (relative lookup tables)
        op = t; i += 1
        while tk[i] != '(': i += 1
        i += 1
        ty1, i = parse_type(tk, i)
        a, i = parse_value(tk, i, ty1)
        if op == 'trunc':
            assert tk[i] == 'to'
            dty, i = parse_type(tk, i + 1)
            return Value('cexpr', ('trunc', a, dty), dty), i + 1
        assert tk[i] == ','
        ty2, i = parse_type(tk, i + 1)
        b, i = parse_value(tk, i, ty2)
        assert tk[i] == ')', tk[i:i + 4]
        return Value('cexpr', (op, a, b), ty1), i + 1
    raise LLError('value? ' + ' '.join(tk[i:i + 8]))


def zero(ty):
    if ty.__class__ is int or ty == 'p': return Value('c', 0, ty)
    if ty in ('d', 's'): return Value('c', 0.0, ty)
    if ty[0] == 'a': return Value('zero', None, ty)
    return Value('agg', [zero(e) for e in ty[2]], ty)


class Func:
    def __init__(self, name, header, lines, mod, dem):
        self.name = name; self.header = header; self.lines = lines; self.mod = mod; self.dem = dem
        self.py = None


class Module:
    def __init__(self, path):
        self.path = path
        self.funcs = {}; self.globals = {}; self.decls = set(); self.alias = {}
        dem = ''
        with open(path, encoding='latin-1') as f:
            it = iter(f)
            for line in it:
                c = line[:1]
                if c == ';':
                    dem = line[2:].strip()
                elif c == 'd':
                    m = re.search(r'@("[^"]*"|[\w.$-]+)\(', line)
                    name = m.group(1).strip('"')
                    if line.startswith('define'):
                        body = []
                        for l in it:
                            if l[0] == '}': break
                            body.append(l)
                        if re.match(r'^ModuleID|^Function Attrs', dem): dem = ''
                        self.funcs[name] = Func(name, line, body, self, dem)
                    else: self.decls.add(name)
                    dem = ''
                elif c == '@':
                    m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$', line)
                    name = m.group(1).strip('"')
                    if re.match(r'[a-z_ ]*\balias\b', m.group(2)):
                        self.alias[name] = re.findall(r'@([\w.$-]+)', m.group(2))[-1]
                    else:
                        self.globals[name] = m.group(2)


def parse_global(text):
    """-> (type, Value or None, constant?)"""
    tk = toks(text)
    i = 0
    const = False
    while tk[i] not in ('constant', 'global'): i += 1
    const = tk[i] == 'constant'
    ext = 'external' in tk[:i]
    ty, i = parse_type(tk, i + 1)
    if ext: return ty, None, const
    v, i = parse_value(tk, i, ty)
    return ty, v, const


# =========================================================== codegen
ICMP = {'eq', 'ne', 'ult', 'ule', 'ugt', 'uge', 'slt', 'sle', 'sgt', 'sge'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign',
         'inbounds', 'nusw'}


class CG:
    def __init__(self, fn, prog):
        self.fn = fn; self.prog = prog
        self.regs = {}
        self.out = []

    def reg(self, name):
        r = self.regs.get(name)
        if r is None: r = self.regs[name] = 'v%d' % len(self.regs)
        return r

    def val(self, v):
        if v.k == 'r': return self.reg(v.v)
        if v.k == 'c':
            x = v.v
            if x.__class__ is float:
                if x != x: return 'NAN'
                if x in (float('inf'), float('-inf')): return 'INF' if x > 0 else '(-INF)'
                return repr(x) if x >= 0 and not (x == 0 and str(x)[0] == '-') else '(%r)' % x
            return repr(x)
        if v.k == 'g':
            return repr(self.prog.addr_of(v.v[0], self.fn.mod) + v.v[1])
        if v.k == 'u':
            return self.undef(v.ty)
        if v.k == 'agg': return '(' + ''.join(self.val(e) + ',' for e in v.v) + ')'
        raise LLError('operand %r' % v)

    def undef(self, ty):
        if ty in ('d', 's'): return '0.0'
        if ty.__class__ is tuple and ty[0] == 'st': return '(' + ''.join(self.undef(e) + ',' for e in ty[2]) + ')'
        if ty.__class__ is tuple and ty[0] == 'a': return '(' + (self.undef(ty[2]) + ',') * ty[1] + ')'
        return '0'

    def compile(self):
        fn = self.fn
        # header
        tk = toks(fn.header)
        i = next(k for k, t in enumerate(tk) if t[0] == '@' and t[1:].strip('"') == fn.name)
        j = 0
        rty = None
        k = 1
        while k < i:
            if is_type(tk[k]): rty, _ = parse_type(tk, k); break
            k += 1
            if k < len(tk) and tk[k] == '(':
                d = 0
                while True:
                    if tk[k] == '(': d += 1
                    elif tk[k] == ')':
                        d -= 1
                        if d == 0: k += 1; break
                    k += 1
        params = []
        i += 2
        while tk[i] != ')':
            ty, i = parse_type(tk, i)
            i = skip_attrs(tk, i)
            params.append((ty, tk[i][1:])); i += 1
            if tk[i] == ',': i += 1
        fn.params = params; fn.rty = rty
        # blocks
        blocks = []; cur = None
        lines = iter(fn.lines)
        for l in lines:
            if not l.strip() or l[0] == ';': continue
            if l[0] != ' ':
                m = re.match(r'("[^"]*"|[\w.$-]+):', l)
                assert m, l
                cur = [m.group(1).strip('"'), []]; blocks.append(cur); continue
            s = l.strip()
            if not s or s[0] == ';': continue
            if s.startswith('#dbg'): continue
            if cur is None: cur = ['%entry', []]; blocks.append(cur)
            if s.startswith('switch ') and s.rstrip().endswith('['):
                while True:
                    n = next(lines).strip(); s += ' ' + n
                    if n.startswith(']'): break
            cur[1].append(s)
        self.bidx = {b[0]: n for n, b in enumerate(blocks)}
        # phis
        self.phis = []
        parsed = []
        for b in blocks:
            ph = []; rest = []
            for s in b[1]:
                t = toks(s)
                if len(t) > 2 and t[1] == '=' and t[2] == 'phi': ph.append(self.parse_phi(t))
                else: rest.append((t, s))
            self.phis.append(ph); parsed.append(rest)
        self.parsed = parsed
        self.blocks = blocks
        npred = {}
        for rest in parsed:
            for t, _ in rest:
                if t[0] in ('br', 'switch'):
                    for k in range(len(t) - 1):
                        if t[k] == 'label':
                            l = t[k + 1][1:].strip('"'); npred[l] = npred.get(l, 0) + 1
        self.npred = npred
        self.block_code = []
        for n, rest in enumerate(parsed):
            self.out = []
            self.cur = blocks[n][0]
            self.term = False
            for t, s in rest:
                try:
                    self.inst(t, s)
                except LLError as e:
                    self.out.append('rt.unsupported(%r)' % ('%s in %s: %s' % (e, fn.name, s)))
                    self.term = True
                if self.term: break
            self.block_code.append(self.out)
        args = ','.join(self.reg(p) for _, p in params)
        src = ['def F(%s):' % args]
        if len(blocks) == 1:
            src += ['  ' + l for l in self.block_code[0]]
        else:
            src.append('  bb=0')
            src.append('  while True:')
            self.tree(src, 0, len(blocks), 3)
        fn.nblocks = len(blocks)
        ns = self.prog.ns
        text = '\n'.join(src) + '\n'
        exec(compile(text, '<ll:%s>' % fn.name, 'exec'), ns)
        f = ns.pop('F')
        fn.src = text
        return f

    def tree(self, src, lo, hi, ind):
        if hi - lo == 1:
            p = ' ' * ind
            for l in self.block_code[lo]: src.append(p + l)
            return
        mid = (lo + hi) // 2
        src.append(' ' * ind + 'if bb<%d:' % mid)
        self.tree(src, lo, mid, ind + 1)
        src.append(' ' * ind + 'else:')
        self.tree(src, mid, hi, ind + 1)

    def parse_phi(self, t):
        i = 3
        while t[i] in FLAGS: i += 1
        ty, i = parse_type(t, i)
        inc = {}
        while i < len(t) and t[i] == '[':
            v, i = parse_value(t, i + 1, ty)
            assert t[i] == ','
            inc[t[i + 1][1:].strip('"')] = v
            i += 3
            if i < len(t) and t[i] == ',': i += 1
        return (t[0][1:], ty, inc)

    def goto(self, label, ind=''):
        label = label[1:].strip('"')
        n = self.bidx[label]
        ph = self.phis[n]
        l = []
        dst = []; srcs = []
        for name, ty, inc in ph:
            v = inc[self.cur]
            d = self.reg(name); s = self.val(v)
            if d != s: dst.append(d); srcs.append(s)
        if dst: l.append('%s=%s' % (','.join(dst), ','.join(srcs)))
        l.append('bb=%d' % n)
        l.append('continue')
        return [ind + x for x in l]

    def tv(self, t, i):
        ty, i = parse_type(t, i)
        i = skip_attrs(t, i)
        return parse_value(t, i, ty)

    def inst(self, t, s):
        o = self.out
        if len(t) > 1 and t[1] == '=':
            d = self.reg(t[0][1:]); i = 2
        else: d = None; i = 0
        op = t[i]; i += 1
        if op in ('tail', 'musttail', 'notail'): op = t[i]; i += 1
        W = self.w
        if op in BIN:
            while t[i] in FLAGS: i += 1
            a, i = self.tv(t, i)
            b, i = parse_value(t, i + 1, a.ty)
            w = a.ty
            A = self.val(a); B = self.val(b)
            if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                if w == 'd' and op in ('fadd', 'fsub', 'fmul'):
                    conds = [x + '.__class__ is float' for x, v in ((A, a), (B, b)) if v.k != 'c']
                    o.append('%s=%s%s%s if %s else T.%s(%s,%s,"d")' % (d, A, {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op], B, ' and '.join(conds) or 'True', op, A, B))
                else: o.append('%s=T.%s(%s,%s,%r)' % (d, op, A, B, w))
                return
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                o.append('%s=rt.%s(%s,%s,%d)' % (d, op, A, B, w)); return
            conds = ' and '.join([x + '.__class__ is int' for x, v in ((A, a), (B, b)) if v.k == 'r'])
            f = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'and': 'and_', 'or': 'or_', 'xor': 'xor', 'shl': 'shl', 'lshr': 'lshr', 'ashr': 'ashr'}[op]
            sym = {'add': '(%s+%s)&%d', 'sub': '(%s-%s)&%d', 'mul': '(%s*%s)&%d', 'and': '%s&%s', 'or': '%s|%s', 'xor': '%s^%s'}.get(op)
            if sym and conds:
                e = sym % ((A, B, T.mask(w)) if '%d' in sym else (A, B))
                o.append('%s=%s if %s else T.%s(%s,%s,%d)' % (d, e, conds, f, A, B, w))
            else: o.append('%s=T.%s(%s,%s,%d)' % (d, f, A, B, w))
            return
        if op == 'icmp':
            while t[i] in FLAGS: i += 1
            p = t[i]; i += 1
            a, i = self.tv(t, i)
            b, i = parse_value(t, i + 1, a.ty)
            w = 64 if a.ty == 'p' else a.ty
            A = self.val(a); B = self.val(b)
            conds = ' and '.join([x + '.__class__ is int' for x, v in ((A, a), (B, b)) if v.k == 'r'])
            if p in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge') and conds:
                y = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[p]
                o.append('%s=(1 if %s%s%s else 0) if %s else T.icmp(%r,%s,%s,%d)' % (d, A, y, B, conds, p, A, B, w))
            else: o.append('%s=T.icmp(%r,%s,%s,%d)' % (d, p, A, B, w))
            return
        if op == 'fcmp':
            while t[i] in FLAGS: i += 1
            p = t[i]; i += 1
            a, i = self.tv(t, i)
            b, i = parse_value(t, i + 1, a.ty)
            o.append('%s=T.fcmp(%r,%s,%s,%r)' % (d, p, self.val(a), self.val(b), a.ty))
            return
        if op == 'select':
            while t[i] in FLAGS: i += 1
            c, i = self.tv(t, i)
            a, i = self.tv(t, i + 1)
            b, i = self.tv(t, i + 1)
            C = self.val(c); A = self.val(a); B = self.val(b)
            if a.ty.__class__ is tuple:
                o.append('%s=%s if rt.branch(%s) else %s' % (d, A, C, B)); return
            so = 64 if a.ty == 'p' else a.ty
            o.append('%s=(%s if %s else %s) if %s.__class__ is int else rt.sel(%s,%s,%s,%r)' % (d, A, C, B, C, C, A, B, so))
            return
        if op == 'getelementptr':
            while t[i] in FLAGS: i += 1
            ety, i = parse_type(t, i); i += 1
            b, i = self.tv(t, i)
            off = 0; dyn = []; cur = ety; first = True
            while i < len(t) and t[i] == ',' and t[i + 1][0] != '!':
                ix, i = self.tv(t, i + 1)
                if first: sz = sizeof(cur); first = False
                elif cur[0] == 'a': cur = cur[2]; sz = sizeof(cur)
                else:
                    off += field_off(cur, ix.v); cur = cur[2][ix.v]; continue
                if ix.k == 'c': off += T.sx(ix.v, ix.ty) * sz
                else:
                    x = self.val(ix)
                    if ix.ty != 64: x = 'T.sext(%s,%d,64)' % (x, ix.ty)
                    dyn.append((x, sz))
            B = self.val(b)
            m = T.mask(64)
            if not dyn:
                if off == 0: o.append('%s=%s' % (d, B))
                elif b.k == 'r': o.append('%s=(%s+%d)&%d if %s.__class__ is int else T.add(%s,%d,64)' % (d, B, off, m, B, B, off & m))
                else: o.append('%s=(%s+%d)&%d' % (d, B, off, m))
            elif len(dyn) == 1 and dyn[0][0][0] == 'v':
                x, sz = dyn[0]
                conds = ' and '.join([y + '.__class__ is int' for y in ([B] if b.k == 'r' else []) + [x]])
                o.append('%s=(%s+%s*%d+%d)&%d if %s else T.add(T.add(%s,%d,64),T.mul(%s,%d,64),64)' % (d, B, x, sz, off, m, conds, B, off & m, x, sz))
            else:
                e = 'T.add(%s,%d,64)' % (B, off & m)
                for x, sz in dyn: e = 'T.add(%s,T.mul(%s,%d,64),64)' % (e, x, sz)
                o.append('%s=%s' % (d, e))
            return
        if op == 'load':
            while t[i] in ('volatile', 'atomic'): i += 1
            ty, i = parse_type(t, i); i += 1
            p, i = self.tv(t, i)
            o.append('%s=%s' % (d, self.load(self.val(p), ty))); return
        if op == 'store':
            while t[i] in ('volatile', 'atomic'): i += 1
            v, i = self.tv(t, i)
            p, i = self.tv(t, i + 1)
            self.store(self.val(p), v); return
        if op == 'br':
            self.term = True
            if t[i] == 'label':
                o.extend(self.goto(t[i + 1])); return
            c, i = self.tv(t, i)
            C = self.val(c)
            l1 = t[i + 2]; l2 = t[i + 5]
            if l1 == l2: o.extend(self.goto(l1)); return
            sp = self.speculate(C, l1, l2) if c.k == 'r' else None
            if sp:
                o.append('if %s.__class__ is not int:' % C)
                o.append(' %s=rt.simp(%s)' % (C, C))
                o.append(' if %s.__class__ is not int:' % C)
                o.extend('  ' + x for x in sp)
            o.append('if %s if %s.__class__ is int else rt.branch(%s):' % (C, C, C))
            o.extend(self.goto(l1, ' '))
            o.extend(self.goto(l2)); return
        if op == 'switch':
            self.term = True
            c, i = self.tv(t, i)
            dflt = t[i + 2]; i += 4
            cases = []
            while t[i] != ']':
                v, i = self.tv(t, i)
                cases.append((v.v, t[i + 2])); i += 3
            C = self.val(c)
            o.append('if %s.__class__ is not int: %s=rt.switch(%s,%r,%d)' % (C, C if c.k == 'r' else '_sw', C, tuple(v for v, _ in cases), c.ty))
            for v, l in cases:
                o.append('if %s==%d:' % (C, v)); o.extend(self.goto(l, ' '))
            o.extend(self.goto(dflt)); return
        if op == 'ret':
            self.term = True
            if t[i] == 'void': o.append('return None'); return
            v, i = self.tv(t, i)
            o.append('return ' + self.val(v)); return
        if op == 'unreachable':
            self.term = True
            o.append('rt.unreachable(%r)' % self.fn.name); return
        if op in ('zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast'):
            while t[i] in FLAGS: i += 1
            a, i = self.tv(t, i)
            assert t[i] == 'to'
            ty, i = parse_type(t, i + 1)
            A = self.val(a)
            if op in ('zext', 'sext') and a.ty == 1 and ty >= 8: o.append('%s=rt.bext(%s,%d,%d)' % (d, A, ty, 1 if op == 'zext' else T.mask(ty)))
            elif op == 'zext': o.append('%s=%s if %s.__class__ is int else T.zext(%s,%d,%d)' % (d, A, A, A, a.ty, ty))
            elif op in ('sext', 'trunc'): o.append('%s=T.%s(%s,%d,%d)' % (d, op, A, a.ty, ty))
            elif op in ('fpext', 'fptrunc'): o.append('%s=T.%s(%s)' % (d, op, A))
            elif op in ('sitofp', 'uitofp'): o.append('%s=T.%s(rt.fewvals(%s,%d),%d,%r)' % (d, op, A, a.ty, a.ty, ty))
            elif op == 'fptoui': o.append('%s=T.fptoui_sat(%s,%d)' % (d, A, ty))
            elif op == 'fptosi': o.append('%s=T.fptosi_sat(%s,%d)' % (d, A, ty))
            elif op == 'bitcast':
                fi = a.ty in ('d', 's'); fo = ty in ('d', 's')
                if fi and not fo: o.append('%s=T.fbits(%s,%r)' % (d, A, a.ty))
                elif fo and not fi: o.append('%s=T.bits2f(%s,%r)' % (d, A, ty))
                else: o.append('%s=%s' % (d, A))
            else:
                sw = 64 if a.ty == 'p' else a.ty; dw = 64 if ty == 'p' else ty
                if sw == dw: o.append('%s=%s' % (d, A))
                elif sw < dw: o.append('%s=T.zext(%s,%d,%d)' % (d, A, sw, dw))
                else: o.append('%s=T.trunc(%s,%d,%d)' % (d, A, sw, dw))
            return
        if op == 'fneg':
            while t[i] in FLAGS: i += 1
            a, i = self.tv(t, i)
            o.append('%s=T.fneg(%s,%r)' % (d, self.val(a), a.ty)); return
        if op == 'freeze':
            a, i = self.tv(t, i)
            o.append('%s=%s' % (d, self.val(a))); return
        if op == 'extractvalue':
            a, i = self.tv(t, i)
            e = self.val(a)
            while i < len(t) and t[i] == ',' and t[i + 1].isdigit(): e += '[%s]' % t[i + 1]; i += 2
            o.append('%s=%s' % (d, e)); return
        if op == 'insertvalue':
            a, i = self.tv(t, i)
            b, i = self.tv(t, i + 1)
            ix = []
            while i < len(t) and t[i] == ',' and t[i + 1].isdigit(): ix.append(int(t[i + 1])); i += 2
            o.append('%s=rt.insertvalue(%s,%s,%r)' % (d, self.val(a), self.val(b), tuple(ix))); return
        if op == 'alloca':
            ty, i = parse_type(t, i)
            n = 1
            o.append('%s=rt.alloca(%d)' % (d, sizeof(ty))); return
        if op == 'call':
            self.call(d, t, i, s); return
        raise LLError('instruction ' + op)

    def w(self, ty): return ty

    # ---- if-conversion: triangles and diamonds whose merged values stay simple
    SPEC = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'icmp', 'fcmp', 'select',
            'getelementptr', 'zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fneg', 'freeze', 'ptrtoint', 'inttoptr', 'bitcast'}

    def spec_block(self, label):
        """(instructions, stores, join label) of a block that can be executed speculatively"""
        n = self.bidx[label]
        if self.npred.get(label) != 1 or self.phis[n]: return None
        rest = self.parsed[n]
        if len(rest) > 40: return None
        ins = []; stores = []
        for t, s in rest[:-1]:
            op = t[2] if len(t) > 2 and t[1] == '=' else t[0]
            if op == 'store': stores.append((t, s)); continue
            if op == 'load':
                if stores: return None
                ins.append((t, s)); continue
            if op not in self.SPEC: return None
            if op == 'select' and any(x in ('{', '[') for x in t[:8]): return None
            ins.append((t, s))
        t, s = rest[-1]
        if t[0] != 'br' or t[1] != 'label': return None
        return ins, stores, t[2][1:].strip('"')

    def speculate(self, C, l1, l2):
        a = l1[1:].strip('"'); b = l2[1:].strip('"')
        A = self.spec_block(a); B = self.spec_block(b)
        if A and A[2] == b: sides = [(A, 1)]; J = b; fa, fb = a, self.cur
        elif B and B[2] == a: sides = [(B, 0)]; J = a; fa, fb = self.cur, b
        elif A and B and A[2] == B[2]: sides = [(A, 1), (B, 0)]; J = A[2]; fa, fb = a, b
        else: return None
        if len(sides) == 2 and A[1] and B[1]: return None
        n = self.bidx[J]
        phis = self.phis[n]
        if any(not (ty.__class__ is int or ty in ('d', 's', 'p')) for _, ty, _ in phis): return None
        save = self.out
        self.out = o = []
        try:
            stores = []
            for (ins, sts, _), side in sides:
                for t, s in ins:
                    if t[2] == 'load':
                        k = 3
                        while t[k] in ('volatile', 'atomic'): k += 1
                        ty, k = parse_type(t, k); k += 1
                        p, k = self.tv(t, k)
                        if not (ty.__class__ is int or ty in ('d', 's', 'p')): return None
                        o.append('if not rt.okaddr(%s,%d,False): break' % (self.val(p), sizeof(ty)))
                    self.inst(t, s)
                for t, s in sts:
                    k = 1
                    while t[k] in ('volatile', 'atomic'): k += 1
                    v, k = self.tv(t, k)
                    p, k = self.tv(t, k + 1)
                    ty = v.ty
                    if not ((ty.__class__ is int and ty % 8 == 0) or ty in ('d', 's', 'p')): return None
                    P = self.val(p); kind = repr(ty) if ty in ('d', 's') else '8' if ty == 'p' else str(ty // 8)
                    srt = repr(ty) if ty in ('d', 's') else '64' if ty == 'p' else str(ty)
                    q = len(stores)
                    o.append('if not rt.okaddr(%s,%d,True): break' % (P, sizeof(ty)))
                    old = 'rt.ld(%s,%s)' % (P, kind)
                    o.append('_s%d=rt.merge(%s,%s,%s,%s)' % ((q, C) + ((self.val(v), old) if side else (old, self.val(v))) + (srt,)))
                    o.append('if _s%d is None: break' % q)
                    stores.append((P, kind))
            if len(stores) > 1: 
                # distinct addresses are required (each merge reads the old value)
                o.append('if len({%s})!=%d: break' % (','.join(p for p, _ in stores), len(stores)))
            dst = []; src = []
            for q, (name, ty, inc) in enumerate(phis):
                x = self.val(inc[fa]); y = self.val(inc[fb])
                d = self.reg(name)
                if x == y:
                    if d != x: dst.append(d); src.append(x)
                    continue
                srt = repr(ty) if ty in ('d', 's') else '64' if ty == 'p' else str(ty)
                o.append('_p%d=rt.merge(%s,%s,%s,%s)' % (q, C, x, y, srt))
                o.append('if _p%d is None: break' % q)
                dst.append(d); src.append('_p%d' % q)
            for q, (P, kind) in enumerate(stores): o.append('rt.st(%s,%s,_s%d)' % (P, kind, q))
            if dst: o.append('%s=%s' % (','.join(dst), ','.join(src)))
            o.append('_ok=True')
            o.append('break')
        except (LLError, KeyError):
            return None
        finally:
            self.out = save
            self.term = True
        return ['_ok=False', 'while True:'] + [' ' + x for x in o] + ['if _ok:', ' bb=%d' % n, ' continue']

    def load(self, p, ty):
        if ty.__class__ is int:
            n = sizeof(ty)
            if ty == 8 * n: return 'rt.ld(%s,%d)' % (p, n)
            return 'T.trunc(rt.ld(%s,%d),%d,%d)' % (p, n, 8 * n, ty)
        if ty == 'p': return 'rt.ld(%s,8)' % p
        if ty in ('d', 's'): return 'rt.ld(%s,%r)' % (p, ty)
        if ty[0] == 'st':
            return '(' + ''.join(self.load('T.add(%s,%d,64)' % (p, field_off(ty, k)), e) + ',' for k, e in enumerate(ty[2])) + ')'
        raise LLError('load %r' % (ty,))

    def store(self, p, v, e=None):
        ty = v.ty
        x = e or self.val(v)
        if ty.__class__ is int:
            n = sizeof(ty)
            if ty != 8 * n: x = 'T.zext(%s,%d,%d)' % (x, ty, 8 * n)
            self.out.append('rt.st(%s,%d,%s)' % (p, n, x))
        elif ty == 'p': self.out.append('rt.st(%s,8,%s)' % (p, x))
        elif ty in ('d', 's'): self.out.append('rt.st(%s,%r,%s)' % (p, ty, x))
        elif ty[0] == 'st':
            self.out.append('_t=%s' % x)
            for k, et in enumerate(ty[2]):
                self.store('T.add(%s,%d,64)' % (p, field_off(ty, k)), Value('r', None, et), '_t[%d]' % k)
        else: raise LLError('store %r' % (ty,))

    def call(self, d, t, i, s):
        o = self.out
        # skip to return type
        while not is_type(t[i]):
            i += 1
            if t[i] == '(':
                dd = 0
                while True:
                    if t[i] == '(': dd += 1
                    elif t[i] == ')':
                        dd -= 1
                        if dd == 0: i += 1; break
                    i += 1
        rty, i = parse_type(t, i)
        if t[i] == '(':      # function type signature for varargs
            raise LLError('varargs call')
        callee = t[i]; i += 1
        if callee == 'asm': raise LLError('inline asm')
        assert t[i] == '(', s
        i += 1
        args = []
        if callee[0] == '@':
            nm = callee[1:].strip('"')
            if nm.startswith(('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.prefetch', 'llvm.sideeffect')): return
            if nm == 'llvm.assume': return
        while t[i] != ')':
            v, i = self.tv(t, i)
            args.append(v)
            if t[i] == ',': i += 1
        A = [self.val(a) for a in args]
        pre = d + '=' if d else ''
        if callee[0] == '%':
            o.append('%srt.indirect(%s,(%s))' % (pre, self.reg(callee[1:]), ''.join(a + ',' for a in A))); return
        if nm.startswith('llvm.'):
            self.intrinsic(nm, pre, A, args, rty); return
        if nm == self.prog.bin_fn and len(A) == 1 and args[0].ty == 'd' and rty == 64 and self.prog.resolve(nm, self.fn.mod):
            key = self.prog.resolve(nm, self.fn.mod)
            o.append('%srt.hidx(CALL[%r],%s)' % (pre, key, A[0])); return
        o.append('%srt.call(%r,(%s))' % (pre, nm, ''.join(a + ',' for a in A))) if not self.prog.resolve(nm, self.fn.mod) else \
            o.append('%sCALL[%r](%s)' % (pre, self.prog.resolve(nm, self.fn.mod), ','.join(A)))

    def intrinsic(self, nm, pre, A, args, rty):
        o = self.out
        p = nm.split('.')
        k = p[1]
        s = rty
        if k in ('fabs',): o.append('%sT.fabs(%s,%r)' % (pre, A[0], s))
        elif k in ('log10', 'log', 'cos', 'sin', 'tan', 'sqrt', 'exp', 'floor', 'ceil', 'trunc', 'round', 'rint'):
            o.append('%sT.fun1(%r,%s,%r)' % (pre, k, A[0], s))
        elif k in ('maximumnum', 'minimumnum'): o.append('%sT.fun2(%r,%s,%s,%r)' % (pre, k[:3] + 'num', A[0], A[1], s))
        elif k in ('pow', 'minnum', 'maxnum', 'copysign', 'maximum', 'minimum'): o.append('%sT.fun2(%r,%s,%s,%r)' % (pre, k, A[0], A[1], s))
        elif k in ('fma', 'fmuladd'): o.append('%sT.fma(%s,%s,%s,%r)' % (pre, A[0], A[1], A[2], s))
        elif k in ('umin', 'umax', 'smin', 'smax'): o.append('%sT.%s(%s,%s,%d)' % (pre, k, A[0], A[1], rty))
        elif k == 'fptoui': o.append('%sT.fptoui_sat(%s,%d)' % (pre, A[0], rty))
        elif k == 'fptosi': o.append('%sT.fptosi_sat(%s,%d)' % (pre, A[0], rty))
        elif k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and p[2] == 'with': o.append('%srt.ovf(%r,%s,%s,%d)' % (pre, k, A[0], A[1], args[0].ty))
        elif k in ('uadd', 'usub') and p[2] == 'sat': o.append('%srt.sat(%r,%s,%s,%d)' % (pre, k, A[0], A[1], rty))
        elif k in ('ctlz', 'cttz', 'ctpop', 'bswap', 'fshl', 'fshr', 'abs'): o.append('%srt.bitop(%r,%s,%d)' % (pre, k, '(' + ''.join(a + ',' for a in A) + ')', rty))
        elif k in ('memcpy', 'memmove'): o.append('rt.memcpy(%s,%s,%s)' % (A[0], A[1], A[2]))
        elif k == 'memset': o.append('rt.memset(%s,%s,%s)' % (A[0], A[1], A[2]))
        elif k == 'trap': o.append('rt.panic("llvm.trap")')
        elif k == 'x86' and p[3] == 'stmxcsr': o.append('rt.stmxcsr(%s)' % A[0])
        elif k == 'x86' and p[3] == 'ldmxcsr': o.append('rt.ldmxcsr(%s)' % A[0])
        elif k == 'load' and p[2] == 'relative': o.append('%srt.load_relative(%s,%s)' % (pre, A[0], A[1]))
        elif k == 'expect': o.append('%s%s' % (pre, A[0]))
        elif k in ('ucmp', 'scmp'): o.append('%srt.cmp3(%r,%s,%s,%d,%d)' % (pre, k, A[0], A[1], args[0].ty, rty))
        elif k == 'is' and p[2] == 'constant': o.append('%s0' % pre)
        else: raise LLError('intrinsic ' + nm)


BIN = {'add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
