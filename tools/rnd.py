"""Pseudo-random schemas.  Everything is a pure function of the seed.  The schemas stay inside the part of the
language that the implementation is meant to support (see DESIGN.md) and are well-formed by construction: values of
expressions are bounded by intervals, so that array lengths are small, bit widths lie in 1..64 and nothing leaves 64 bits."""
import os, random

LIM = 1 << 40


class E:
    """an expression: text, binding strength, value interval (integers) or type"""
    __slots__ = ('s', 'p', 'lo', 'hi', 'idx')

    def __init__(self, s, p=99, lo=0, hi=0, idx=False):
        self.s, self.p, self.lo, self.hi, self.idx = s, p, lo, hi, idx


LV = {'?:': 0, '||': 1, '&&': 2, '|': 3, '^': 4, '&': 5, '==': 6, '!=': 6, '<': 7, '<=': 7, '>': 7, '>=': 7, '<<': 8, '>>': 8,
      '+': 9, '-': 9, '*': 10, '/': 10, '%': 10, 'u': 11}


class Var:
    """what expressions of a type can mention"""

    def __init__(self):
        self.ints, self.bools, self.enums, self.masks, self.arrs, self.objs = [], [], [], [], [], []

    def prefixed(self, pre):
        v = Var()
        v.ints = [E(pre + e.s, 50, e.lo, e.hi) for e in self.ints]
        v.bools = [E(pre + e.s, 50) for e in self.bools]
        v.enums = [(pre + n, d) for n, d in self.enums]
        v.masks = [(pre + n, d) for n, d in self.masks]
        v.arrs = [(pre + n, k, c) for n, k, c in self.arrs]
        v.objs = [(pre + n, d) for n, d in self.objs]
        return v

    def add(self, o):
        for k in self.__dict__:
            getattr(self, k).extend(getattr(o, k))


class Decl:
    def __init__(self, kind, name, pkg):
        self.kind, self.name, self.pkg = kind, name, pkg
        self.params = []            # (name, kind, extra)
        self.exports = Var()        # members usable behind a dot
        self.weight = 1
        self.tparams = 0
        self.text = ''


PRIMS = ['uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64', 'bool', 'string', 'bytes', 'extern', 'float16',
         'float32', 'float64', 'varint16', 'varint32', 'varint64', 'varint', 'varuint16', 'varuint32', 'varuint64', 'varuint', 'varsize']


class Schema:
    def __init__(self, seed, size=14, features=None):
        self.r = random.Random('schema %s' % seed)
        self.n = 0
        self.pkgs = [self.r.choice(['base', 'base_types', 'core.lib']), self.r.choice(['mid', 'mid.deep', 'core.more']), 'top']
        self.imports = [[], [0], self.r.choice([[0, 1], [1, 0]])]
        self.single = {}             # (package, imported package) -> only these symbols
        self.decls = [[], [], []]
        self.size = size
        self.taken = set()             # the name of the declaration being made
        self.f = dict(params=1, cond=1, opt=1, arr=1, packed=1, align=1, offs=1, dyn=1, fns=1, choice=1, union=1, tmpl=1, names=1, sym=1)
        self.f.update(features or {})
        for p in range(3):
            self.package(p)

    # ------------------------------------------------------------------ names
    def name(self, kind):
        self.n += 1
        n, r = self.n, self.r
        if kind == 'type':
            return r.choice(['Type%d', 'RoadType%d', 'T%dX', 'HTTPInfo%d', 'Tile_%d', 'X%d'] ) % n
        if kind == 'const':
            return r.choice(['MAX_%d', 'C%d', 'LIMIT_%d_A']) % n
        return r.choice(['f%d', 'fieldName%d', 'snake_name_%d', 'a%dB', 'xyId%d', 'HTTP%d', 'v%d_']) % n

    def chance(self, p):
        return self.r.random() < p

    # ------------------------------------------------------------------ what package p sees
    def visible(self, p, kinds):
        out = []
        own = {d.name for d in self.decls[p]} | self.taken
        for q in [p] + self.imports[p]:
            for d in self.decls[q]:
                if d.kind in kinds and (q == p or (d.name not in own and self.unique(p, d.name))):
                    out.append(d)
        return out

    def unique(self, p, name):
        return sum(name in {d.name for d in self.decls[q]} for q in self.imports[p]) == 1

    def package(self, p):
        r = self.r
        for _ in range(r.randrange(1, 4) * self.f['sym']):
            self.const(p)
        for _ in range(r.randrange(1, 4) * self.f['sym']):
            self.enum(p)
        for _ in range(r.randrange(1, 3) * self.f['sym']):
            self.mask(p)
        for k in range(self.size):
            c = r.random()
            for kind, at in (('choice', 0.65), ('union', 0.8), ('tmpl', 0.95)):
                # more of the kinds with a weight above one
                if self.f[kind] > 1 and self.chance(0.1 * self.f[kind]):
                    c = at
            if c < 0.60:
                self.struct(p)
            elif c < 0.74 and self.chance(self.f['choice']):
                self.choice(p)
            elif c < 0.84 and self.f['union']:
                self.union(p)
            elif c < 0.90:
                self.subtype(p)
            elif self.f['tmpl']:
                self.template(p)
            if self.chance(0.1):
                self.const(p)

    def declname(self, p, kind):
        """now and then the name of something in an imported package, which the new declaration hides"""
        used = {d.name for q in self.decls for d in q if getattr(d, 'used', False)}
        if p and self.chance(0.08 * self.f['names']):
            own = {d.name for d in self.decls[p]}
            c = [d.name for q in self.imports[p] for d in self.decls[q] if d.name not in own and d.kind == kind and not d.used.get(p)]
            if c:
                return self.r.choice(c)
        return self.name('const' if kind == 'const' else 'type')

    def use(self, p, d):
        d.used[p] = True
        if d.pkg != p and self.chance(0.1) and d.kind in ('struct', 'enum', 'mask', 'union', 'choice', 'subtype') and not d.tparams:
            return self.pkgs[d.pkg] + '.' + d.name
        return d.name

    def new(self, kind, p, name=None):
        d = Decl(kind, name or self.declname(p, kind), p)
        d.used = {}
        self.taken = {d.name}
        return d

    # ------------------------------------------------------------------ leaf declarations
    def const(self, p):
        if self.chance(0.2):
            # not for expressions
            d = self.new('other', p, self.name('const'))
            d.text = self.r.choice(['const string %s = "a \\"b\\" }";', 'const float32 %s = 1.5;', 'const float64 %s = -2.25;', 'const bool %s = 3 < 4 && !(1 > 2);',
                                    'const float16 %s = 0.5f;', 'const bool %s = false;', 'const string %s = "";']) % d.name
            self.decls[p].append(d)
        d = self.new('const', p)
        e = self.int(Var(), p, 2)
        v = None
        e2 = self.clamp(e, 0, 200) if self.chance(0.5) else e
        d.lo, d.hi = e2.lo, e2.hi
        t = self.fit(e2.lo, e2.hi)
        d.text = 'const %s %s = %s;' % (t, d.name, e2.s)
        self.decls[p].append(d)

    def fit(self, lo, hi):
        """a type that has room for lo..hi"""
        out = []
        for n in (8, 16, 32, 64):
            if 0 <= lo and hi < 1 << n:
                out.append('uint%d' % n)
            if -(1 << n - 1) <= lo and hi < 1 << n - 1:
                out.append('int%d' % n)
        b = max(abs(lo), abs(hi)).bit_length()
        if lo >= 0 and b:
            out.append('bit:%d' % self.r.randrange(b, 64))
        if lo >= 0 and b <= 63:
            out.append('varuint')
        if b <= 60:
            out.append('varint')
        return self.r.choice(out)

    def enum(self, p):
        r = self.r
        d = self.new('enum', p)
        base, lo, hi = r.choice([('uint8', 0, 255), ('int8', -128, 127), ('bit:4', 0, 15), ('int16', -30000, 30000), ('uint16', 0, 65535),
                                 ('varuint16', 0, 32767), ('int:5', -16, 15), ('varint32', -100000, 100000), ('uint32', 0, 1 << 31),
                                 ('bit:2', 0, 3), ('varsize', 0, 100000)])
        v, used, items, vals = -1, set(), [], []
        for k in range(r.randrange(1, 6)):
            nxt = v + 1
            if nxt in used or nxt > hi or (k and self.chance(0.4)) or (not k and self.chance(0.3)):
                c = [x for x in (r.randrange(lo, hi + 1), lo, hi, nxt + 2) if x not in used and lo <= x <= hi]
                if not c:
                    break
                v = r.choice(c)
                items.append('IT%d = %s' % (k, v if v < 0 or self.chance(0.6) else hex(v)))
            else:
                v = nxt
                items.append('IT%d' % k)
            if self.chance(0.08):
                items[-1] = r.choice(['@deprecated ', '@removed ', '/* x */ ', '/** doc */ ']) + items[-1]
            used.add(v)
            vals.append(v)
        d.items, d.lo, d.hi = ['IT%d' % k for k in range(len(vals))], min(vals), max(vals)
        d.text = 'enum %s %s { %s%s };' % (base, d.name, ', '.join(items), self.r.choice(['', '', '', ',']))
        self.decls[p].append(d)

    def mask(self, p):
        r = self.r
        d = self.new('mask', p)
        base, w = r.choice([('uint8', 8), ('bit:5', 5), ('uint16', 16), ('uint32', 31), ('varuint16', 15), ('bit:11', 11)])
        items, v = [], 0
        d.items = []
        for k in range(r.randrange(1, 5)):
            nxt = 1 << v.bit_length()
            if nxt >= 1 << w or (k and self.chance(0.3)):
                v = r.randrange(1, 1 << w)
                items.append('B%d = %s' % (k, hex(v) if self.chance(0.5) else v))
            else:
                v = nxt
                items.append('B%d' % k)
            d.items.append('B%d' % k)
        d.hi = (1 << w) - 1
        d.text = 'bitmask %s %s { %s%s };' % (base, d.name, ', '.join(items), self.r.choice(['', '', '', ',']))
        self.decls[p].append(d)

    def subtype(self, p):
        d = self.new('subtype', p)
        c = self.visible(p, ('struct', 'choice', 'union', 'enum', 'mask', 'subtype'))
        c = [x for x in c if not x.tparams and (x.kind != 'subtype' or x.target is not None)]
        if c and self.chance(0.7):
            x = self.r.choice(c)
            d.target = x.target if x.kind == 'subtype' else x
            d.params, d.exports, d.weight = d.target.params, d.target.exports, d.target.weight
            d.text = 'subtype %s %s;' % (self.use(p, x), d.name)
        else:
            t, lo, hi = self.numtype()
            d.target, d.prim = None, (t, lo, hi)
            d.text = 'subtype %s %s;' % (t, d.name)
        self.decls[p].append(d)

    # ------------------------------------------------------------------ expressions
    def op(self, o, a, b, lo, hi):
        l = LV[o]
        def side(x, tight):
            need = x.p < l or (tight and x.p == l)
            return '(%s)' % x.s if need or self.chance(0.08) else x.s
        sp = ' ' if self.chance(0.85) else ''
        bs = side(b, True)
        if not sp and (bs[0] in '-+&<>=!|'):
            sp = ' '
        return E(side(a, False) + sp + o + sp + bs, l, lo, hi, a.idx or b.idx)

    def un(self, o, a, lo=0, hi=0):
        s = a.s if a.p >= 11 and a.s[0] not in '-+~!' else '(%s)' % a.s
        return E(o + s, 11, lo, hi, a.idx)

    def lit(self, lo=None, hi=None):
        r = self.r
        v = r.choice([0, 1, 2, 3, 5, 7, 8, 15, 16, 100, 255, 256, 1000]) if lo is None else r.randrange(lo, hi + 1)
        c = r.random()
        s = str(v) if c < 0.8 or v < 0 else hex(v) if c < 0.9 else bin(v)[2:] + 'b' if c < 0.95 else ('0%o' % v if v else '0')
        return E(s, 99, v, v)

    def atom(self, vs, p):
        r = self.r
        c = []
        if vs.ints:
            c += ['int'] * 6
        if vs.enums:
            c.append('valueof')
        if vs.arrs:
            c += ['len', 'at']
        if vs.masks:
            c.append('mask')
        cs = [d for d in self.visible(p, ('const',))]
        if cs:
            c.append('const')
        en = self.visible(p, ('enum',))
        if en:
            c.append('item')
        c.append('lit')
        k = r.choice(c)
        if k == 'int':
            e = r.choice(vs.ints)
            return E(e.s, 50, e.lo, e.hi, e.idx)
        if k == 'valueof':
            n, d = r.choice(vs.enums)
            return E('valueof(%s)' % n, 50, d.lo, d.hi)
        if k == 'mask':
            n, d = r.choice(vs.masks)
            return E('valueof(%s)' % n, 50, 0, d.hi)
        if k == 'item':
            d = r.choice(en)
            return E('valueof(%s.%s)' % (self.local(p, d), r.choice(d.items)), 50, d.lo, d.hi)
        if k == 'len':
            n, _, _ = r.choice(vs.arrs)
            return E('lengthof(%s)' % n, 50, 0, 40)
        if k == 'at':
            a = [x for x in vs.arrs if x[1] and x[2]]
            if not a:
                return self.lit()
            n, (lo, hi), cnt = r.choice(a)
            return E('%s[%d]' % (n, r.randrange(cnt)), 50, lo, hi)
        if k == 'const':
            d = r.choice(cs)
            d.used[p] = True
            return E(d.name, 50, d.lo, d.hi)
        return self.lit()

    def local(self, p, d):
        d.used[p] = True
        return d.name

    def int(self, vs, p, depth):
        r = self.r
        if depth == 0 or self.chance(0.15):
            return self.atom(vs, p)
        for _ in range(8):
            o = r.choice(['+', '+', '-', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '?:', 'neg', 'inv', 'numbits', 'plus'])
            a = self.int(vs, p, depth - 1)
            if o == '?:':
                b, c = self.int(vs, p, depth - 1), self.bool(vs, p, depth - 1)
                ps = lambda x, m: '(%s)' % x.s if x.p <= m else x.s
                return E('%s ? %s : %s' % (ps(c, 0), ps(a, -1), ps(b, -1)), 0, min(a.lo, b.lo), max(a.hi, b.hi), a.idx or b.idx or c.idx)
            if o == 'neg':
                return self.un('-', a, -a.hi, -a.lo)
            if o == 'plus':
                return self.un('+', a, a.lo, a.hi)
            if o == 'inv':
                return self.un('~', a, ~a.hi, ~a.lo)
            if o == 'numbits':
                if a.lo < 0:
                    continue
                return E('numbits(%s)' % a.s, 50, 0, max(1, (a.hi - 1).bit_length() + 1), a.idx)
            if o in ('<<', '>>'):
                if self.chance(0.7):
                    b = self.lit(0, 9)
                else:
                    b = self.atom(vs, p)
                if b.lo < 0 or b.hi > 20:
                    continue
                if o == '<<':
                    lo, hi = min(a.lo << b.lo, a.lo << b.hi), max(a.hi << b.lo, a.hi << b.hi)
                else:
                    lo, hi = min(a.lo >> b.lo, a.lo >> b.hi), max(a.hi >> b.lo, a.hi >> b.hi)
            else:
                b = self.int(vs, p, depth - 1)
                if o in '/%':
                    if b.lo <= 0:
                        b = self.lit(1, 12) if b.lo < 0 else self.op('+', b, self.lit(1, 1), b.lo + 1, b.hi + 1)
                    m = max(abs(a.lo), abs(a.hi))
                    lo, hi = -m, m
                    if a.lo >= 0:
                        lo = 0
                    if o == '%':
                        lo, hi = max(lo, -(b.hi - 1)), min(hi, b.hi - 1)
                elif o == '+':
                    lo, hi = a.lo + b.lo, a.hi + b.hi
                elif o == '-':
                    lo, hi = a.lo - b.hi, a.hi - b.lo
                elif o == '*':
                    xs = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
                    lo, hi = min(xs), max(xs)
                else:
                    if a.lo < 0 or b.lo < 0:
                        if self.chance(0.7):
                            continue
                        m = max(abs(a.lo), abs(a.hi), abs(b.lo), abs(b.hi)).bit_length()
                        lo, hi = -(1 << m), (1 << m) - 1
                        if o == '&' and min(a.lo, b.lo) < 0 <= max(a.lo, b.lo):
                            lo, hi = 0, (a.hi if a.lo >= 0 else b.hi)
                    else:
                        hi = min(a.hi, b.hi) if o == '&' else (1 << max(a.hi, b.hi).bit_length()) - 1
                        lo = 0
            if lo < -LIM or hi > LIM:
                continue
            return self.op(o, a, b, lo, hi)
        return self.atom(vs, p)

    def bool(self, vs, p, depth):
        r = self.r
        c = ['cmp'] * 4
        if vs.bools:
            c += ['var'] * 3
        if depth > 0:
            c += ['&&', '||', '!', '==b', '?:']
        if vs.enums:
            c += ['enum'] * 2
        if vs.masks:
            c += ['isset', 'maskeq']
        k = r.choice(c)
        if k == 'var':
            e = r.choice(vs.bools)
            return E(e.s, 50)
        if k == 'enum':
            n, d = r.choice(vs.enums)
            return E('%s %s %s.%s' % (n, r.choice(['==', '!=']), self.local(d.at, d.d), r.choice(d.d.items)), 6)
        if k == 'isset':
            n, d = r.choice(vs.masks)
            return E('isset(%s, %s)' % (n, self.maskexp(vs, p, d, 1, items=True).s), 50)
        if k == 'maskeq':
            n, d = r.choice(vs.masks)
            a = E(n, 50)
            if self.chance(0.5):
                a = self.op(r.choice('&|^'), a, self.maskexp(vs, p, d, 0), 0, 0)
            return self.op(r.choice(['==', '!=']), a, self.maskexp(vs, p, d, 1), 0, 0)
        if k in ('&&', '||'):
            return self.op(k, self.bool(vs, p, depth - 1), self.bool(vs, p, depth - 1), 0, 0)
        if k == '!':
            return self.un('!', self.bool(vs, p, depth - 1))
        if k == '==b':
            return self.op(r.choice(['==', '!=']), self.bool(vs, p, depth - 1), self.bool(vs, p, 0), 0, 0)
        if k == '?:':
            a, b, c = [self.bool(vs, p, depth - 1) for _ in range(3)]
            ps = lambda x, m: '(%s)' % x.s if x.p <= m else x.s
            return E('%s ? %s : %s' % (ps(a, 0), ps(b, -1), ps(c, -1)), 0, 0, 0, a.idx or b.idx or c.idx)
        a = self.int(vs, p, min(depth, 1))
        if self.chance(0.5) and a.hi > a.lo:       # a constant from the middle of the range
            lo, hi = max(a.lo, 0), a.hi
            b = self.lit(lo, hi) if 0 <= lo <= hi else self.lit()
        else:
            b = self.int(vs, p, min(depth, 1))
        return self.op(r.choice(['<', '<=', '>', '>=', '==', '!=']), a, b, 0, 0)

    def maskexp(self, vs, p, d, depth, items=False):
        r = self.r
        same = [n for n, x in vs.masks if x.d is d.d]
        if depth and self.chance(0.4):
            return self.op(r.choice('|&^|'), self.maskexp(vs, p, d, 0, items), self.maskexp(vs, p, d, 0, items), 0, 0)
        if same and self.chance(0.4):
            return E(r.choice(same), 50)
        return E('%s.%s' % (self.local(p, d.d), r.choice(d.d.items)), 50)

    def clamp(self, e, lo, hi):
        """an expression with values in lo..hi that depends on e"""
        if lo <= e.lo and e.hi <= hi:
            return e
        n = hi - lo + 1
        if e.lo >= 0 or (n & (n - 1)) == 0:
            if (n & (n - 1)) == 0 and (self.chance(0.5) or e.lo < 0):
                x = self.op('&', e, E(str(n - 1)), 0, n - 1)
            else:
                x = self.op('%', e, E(str(n)), 0, n - 1)
        else:
            m = 1 << (n.bit_length() - 1)
            x = self.op('&', e, E(str(m - 1)), 0, m - 1)
        return self.op('+', x, E(str(lo)), lo, x.hi + lo) if lo else x

    # ------------------------------------------------------------------ types of fields
    def numtype(self):
        r = self.r
        c = r.random()
        if c < 0.3:
            n = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 11, 12, 13])
            return 'bit:%d' % n, 0, (1 << n) - 1
        if c < 0.4:
            n = r.choice([2, 3, 5, 7, 10, 13])
            return 'int:%d' % n, -(1 << n - 1), (1 << n - 1) - 1
        return r.choice([('uint8', 0, 255), ('uint16', 0, 65535), ('int8', -128, 127), ('int16', -32768, 32767), ('uint8', 0, 255),
                         ('varuint16', 0, 32767), ('varint16', -16383, 16383), ('uint32', 0, (1 << 32) - 1), ('int32', -(1 << 31), (1 << 31) - 1),
                         ('varint32', -(1 << 28) + 1, (1 << 28) - 1), ('varsize', 0, (1 << 31) - 1)])

    def args(self, d, vs, p, idx):
        """arguments for the parameters of d, or None"""
        out, used = [], False
        for n, k, x in d.params:
            if k == 'int':
                lo, hi, plo, phi = x
                v = vs
                if idx and self.chance(0.6):
                    v = Var()
                    v.add(vs)
                    v.ints = v.ints + [E('@index', 50, 0, 40, True)] * (1 + len(v.ints) // 2)
                e = self.int(v, p, self.r.randrange(3))
                if plo is not None:
                    e = self.clamp(e, plo, phi)
                elif not (lo <= e.lo and e.hi <= hi) and (hi not in (255, 65535, 2**32 - 1, 127, 32767) or hi == 32767 and lo == 0 or e.lo == e.hi or self.chance(0.8)):
                    e = self.clamp(e, max(lo, 0), min(hi, 255))
                out.append(e.s)
            elif k == 'bool':
                e = self.bool(vs, p, self.r.randrange(2))
                out.append(e.s if e.p > 1 else e.s)
            elif k == 'enum':
                c = [n for n, y in vs.enums if y.d is x] + (['%s.%s' % (self.local(p, x), self.r.choice(x.items))] if x in self.visible(p, ('enum',)) else [])
                if not c:
                    return None
                out.append(self.r.choice(c))
            elif k == 'mask':
                if x not in self.visible(p, ('mask',)):
                    return None
                y = Ref(x, p)
                out.append(self.maskexp(vs, p, y, 1).s)
            else:
                c = [n for n, y in vs.objs if y is x]
                if not c:
                    return None
                out.append(self.r.choice(c))
        return '(%s)' % ', '.join(out)

    def fieldtype(self, vs, p, budget, idx=False, prims=True, tvars=()):
        """(text, what, weight): what is ('int', lo, hi) ('bool',) ('enum', d) ('mask', d) ('obj', d) or ('other',)"""
        r = self.r
        for _ in range(12):
            c = r.random()
            if tvars and c < 0.3:
                return r.choice(tvars), ('other',), 3
            if c < 0.32:
                t, lo, hi = self.numtype()
                return t, ('int', lo, hi), 1
            if c < 0.36:
                return 'bool', ('bool',), 1
            if c < 0.5:
                t = r.choice(PRIMS) if self.chance(0.85) else r.choice(['bit:17', 'bit:33', 'bit:64', 'int:21', 'int:64', 'int:1', 'bit:63'])
                return t, ('other',), 1
            if c < 0.58:
                en = self.visible(p, ('enum',))
                d = r.choice(en)
                return self.use(p, d), ('enum', d), 1
            if c < 0.63:
                en = self.visible(p, ('mask',))
                d = r.choice(en)
                return self.use(p, d), ('mask', d), 1
            if c < 0.68 and self.f['dyn']:
                e = self.clamp(self.int(vs, p, 2), 1, r.choice([8, 16, 64, 33]))
                return '%s<%s>' % (r.choice(['bit', 'bit', 'int']), e.s if e.p >= LV['+'] else '(%s)' % e.s), ('other',), 1
            if c < 0.73:
                sub = self.visible(p, ('subtype',))
                if sub:
                    d = r.choice(sub)
                    if d.target is None:
                        return self.use(p, d), ('int', d.prim[1], d.prim[2]), 1
                    if d.target.kind in ('enum', 'mask'):
                        return self.use(p, d), ('other',), 1
                    if d.weight <= budget:
                        a = self.args(d, vs, p, idx) if d.params else ''
                        if a is not None:
                            return self.use(p, d) + a, ('other',), d.weight
                continue
            comp = [d for d in self.visible(p, ('struct', 'choice', 'union')) if not d.tparams and d.weight <= budget]
            if not self.f['params']:
                comp = [d for d in comp if not d.params]
            tm = [d for d in self.visible(p, ('struct', 'choice', 'union')) if d.tparams and d.pkg == p and d.weight <= budget]
            if tm and self.chance(0.15):
                d = r.choice(tm)
                a = self.args(d, vs, p, idx) if d.params else ''
                if a is not None:
                    return self.instance(p, d) + a, ('other',), d.weight
            if comp:
                # those that take parameters are more interesting
                d = r.choice(comp)
                if not d.params and self.chance(0.4):
                    d = r.choice(comp)
                a = self.args(d, vs, p, idx) if d.params else ''
                if a is not None:
                    return self.use(p, d) + a, ('obj', d) if not d.params and d.kind == 'struct' else ('other',), d.weight
        return 'uint8', ('int', 0, 255), 1

    def instance(self, p, d, depth=2):
        out = []
        for _ in range(d.tparams):
            c = self.r.random()
            tm = [x for x in self.visible(p, ('struct', 'union', 'choice')) if x.tparams and x.pkg == p and not x.params and x.weight < 15 and x is not d]
            if depth and tm and c > 0.85:
                out.append(self.instance(p, self.r.choice(tm), depth - 1))
                continue
            if c > 0.75:
                out.append('%s:%d' % (self.r.choice(['bit', 'int']), self.r.choice([1, 2, 3, 5, 7, 8, 12, 31, 32, 33, 63, 64])))
                continue
            en = [x for x in self.visible(p, ('enum', 'struct', 'subtype')) if not x.params and not x.tparams and x.weight < 20
                  and (x.kind != 'subtype' or x.target is None)]
            out.append(self.r.choice(en).name if c < 0.4 and en else self.r.choice([x for x in PRIMS]))
            for x in en:
                if x.name == out[-1]:
                    x.used[p] = True
        return '%s<%s>' % (d.name, ', '.join(out))

    # ------------------------------------------------------------------ compound types
    def parlist(self, p, d, vs):
        r = self.r
        out = []
        for k in range(r.choice([1, 1, 2, 2, 3])):
            n = self.name('field')
            c = r.random()
            if c < 0.6:
                t, lo, hi = r.choice([('uint8', 0, 255), ('uint16', 0, 65535), ('bit:3', 0, 7), ('int16', -32768, 32767), ('uint32', 0, 2**32 - 1),
                                      ('bit:5', 0, 31), ('int8', -128, 127), ('varuint16', 0, 32767), ('varsize', 0, 2**31 - 1), ('bit:12', 0, 4095)])
                m = {'bit:3': (0, 255), 'bit:5': (0, 255), 'bit:12': (0, 65535), 'varuint16': (0, 65535), 'varsize': (0, 2**32 - 1)}.get(t, (lo, hi))
                d.params.append((n, 'int', (lo, hi, None, None)))
                vs.ints += [E(n, 50, *m)] * 2
            elif c < 0.7:
                t = 'bool'
                d.params.append((n, 'bool', None))
                vs.bools.append(E(n, 50))
            elif c < 0.8:
                x = r.choice(self.visible(p, ('enum',)))
                t = self.use(p, x)
                d.params.append((n, 'enum', x))
                vs.enums.append((n, Ref(x, p)))
            elif c < 0.88:
                x = r.choice(self.visible(p, ('mask',)))
                t = self.use(p, x)
                d.params.append((n, 'mask', x))
                vs.masks.append((n, Ref(x, p)))
            else:
                cs = [x for x in self.visible(p, ('struct',)) if not x.tparams and not x.params and x.exports.ints]
                if not cs:
                    continue
                x = r.choice(cs)
                t = self.use(p, x)
                d.params.append((n, 'obj', x))
                vs.add(self.seen(x, n + '.', p))
                vs.objs.append((n, x))
            out.append('%s %s' % (t, n))
        return '(%s)' % ', '.join(out) if out else ''

    def seen(self, x, pre, p):
        """members of x as package p can use them"""
        v = x.exports.prefixed(pre)
        vis = self.visible(p, ('enum', 'mask'))
        v.enums = [(n, Ref(y.d, p)) for n, y in v.enums if y.d in vis]
        v.masks = [(n, Ref(y.d, p)) for n, y in v.masks if y.d in vis]
        if len(v.ints) > 6:
            v.ints = self.r.sample(v.ints, 6)
        return v

    def field(self, p, d, vs, exports, budget, where, tvars=()):
        """text and weight of one field"""
        r = self.r
        n = self.name('field')
        pre, post = '', ''
        arr = ''
        isarr = self.chance(0.3 * self.f['arr'])
        t, what, w = self.fieldtype(vs, p, budget // (4 if isarr else 1), isarr, tvars=tvars)
        opt = where == 'struct' and self.chance(0.15 * self.f['opt'])
        cond = where == 'struct' and self.f['cond'] and not opt and self.chance(0.15) or (where == 'struct' and opt and self.chance(0.15))
        cnt = None
        offarr = None
        if isarr:
            c = r.random()
            if c < 0.5:
                arr = '[]'
            elif c < 0.7:
                cnt = r.randrange(1, 5)
                arr = '[%d]' % cnt
            else:
                arr = '[%s]' % self.clamp(self.int(vs, p, 2), 0, r.choice([2, 3, 3, 6])).s
            w *= 4
            if self.chance(0.4 * self.f['packed']):
                t = 'packed ' + t
        if opt:
            t = 'optional ' + t
        if where == 'struct':
            if self.chance(0.08 * self.f['offs']):
                on = self.name('field')
                if arr and self.chance(0.6):
                    ot = r.choice(['uint32', 'uint16', 'varsize', 'uint64', 'bit:20'])
                    pre += '    %s %s%s;\n' % (ot, on, r.choice(['[]', '[2]']))
                    if self.chance(0.4):
                        pre += '    bit:%d %s;\n' % (r.randrange(1, 8), self.name('field'))
                    t = on + '[@index]: ' + t
                else:
                    pre += '    %s %s;\n' % (r.choice(['uint32', 'uint16', 'varuint32', 'bit:7']), on)
                    if self.chance(0.5):
                        pre += '    bit:%d %s;\n' % (r.randrange(1, 8), self.name('field'))
                    t = on + ': ' + t
                w += 1
            if self.chance(0.08 * self.f['align']):
                t = 'align(%d): %s' % (r.choice([8, 8, 16, 32, 2, 3, 4, 5, 7, 12, 64, 100]), t)
        if where == 'struct' and what[0] == 'int' and not isarr and self.chance(0.1):
            post = ' = %d' % r.randrange(max(what[1], 0), min(what[2], 1000) + 1)
        if cond:
            post += ' if %s' % self.bool(vs, p, r.randrange(3)).s
        if what[0] == 'int' and not isarr and not opt and not cond and where == 'struct' and self.chance(0.08):
            post += ' : %s %s %d' % (n, r.choice(['<=', '!=', '>']), what[2])
        pre = self.comment(0.08) + pre
        txt = pre + '%s%s %s%s%s;\n' % ('    ', t, n, arr, post)
        if where == 'struct' and not opt and not cond:
            new = Var()
            if isarr:
                el = (what[1], what[2]) if what[0] == 'int' else None
                new.arrs.append((n, el, cnt))
                if what[0] == 'obj' and cnt:
                    k = r.randrange(cnt)
                    new.objs.append(('%s[%d]' % (n, k), what[1]))
                    if self.chance(0.5):
                        vs.add(self.seen(what[1], '%s[%d].' % (n, k), p))
            elif what[0] == 'int':
                new.ints += [E(n, 50, what[1], what[2])]
            elif what[0] == 'bool':
                new.bools.append(E(n, 50))
            elif what[0] == 'enum':
                new.enums.append((n, Ref(what[1], p)))
            elif what[0] == 'mask':
                new.masks.append((n, Ref(what[1], p)))
            elif what[0] == 'obj':
                new.objs.append((n, what[1]))
                new.add(self.seen(what[1], n + '.', p))
            vs.add(new)
            exports.add(new)
        return txt, w

    def comment(self, chance):
        if not self.chance(chance):
            return ''
        return self.r.choice(['    // struct } of; "things\n', '    /** Documented.\n     * @param x struct Foo { uint8 y; };\n     */\n', '    /* a */ /* b */\n',
                              '    /*! *Markdown* !*/\n', '\n\t\n', '    // @deprecated\n'])

    def function(self, p, d, vs, exports, where='struct'):
        r = self.r
        n = r.choice(['get%d', 'calc_%d', 'isOk%d', 'fn%d']) % (self.n + 1)
        self.n += 1
        c = r.random()
        if c < 0.6:
            e = self.int(vs, p, r.randrange(1, 4))
            t = self.fit(e.lo, e.hi)
            if exports is not None:
                for v in (vs, exports):
                    v.ints.append(E(n + '()', 50, e.lo, e.hi))
        elif c < 0.85 or not (vs.enums or vs.masks):
            e = self.bool(vs, p, r.randrange(1, 4))
            t = 'bool'
            if exports is not None:
                for v in (vs, exports):
                    v.bools.append(E(n + '()', 50))
        elif vs.enums and self.chance(0.5):
            m, x = r.choice(vs.enums)
            e, t = (E(m, 50) if self.chance(0.6) else E('%s.%s' % (self.local(p, x.d), r.choice(x.d.items)), 50)), self.local(p, x.d)
        elif vs.masks:
            m, x = r.choice(vs.masks)
            e, t = self.maskexp(vs, p, x, 1), self.local(p, x.d)
        else:
            return ''
        return '    function %s %s() { return %s; }\n' % (t, n, e.s)

    def struct(self, p, tvars=()):
        r = self.r
        d = self.new('struct', p)
        vs = Var()
        head = self.parlist(p, d, vs) if self.chance(0.3 * self.f['params']) else ''
        budget = r.choice([15, 30, 60, 90])
        body, fns, w = '', '', 0
        for k in range(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8] if self.chance(0.1) else [2, 3, 4, 5, 6, 7])):
            t, x = self.field(p, d, vs, d.exports, max(1, budget - w), 'struct', tvars)
            body += t
            w += x
            if self.chance(0.15 * self.f['fns']):
                fns += self.function(p, d, vs, d.exports)
        d.weight = max(1, w)
        if tvars:
            d.tparams = len(tvars)
        d.text = 'struct %s%s%s\n{\n%s%s};' % (d.name, '<%s>' % ', '.join(tvars) if tvars else '', head, body, fns)
        self.decls[p].append(d)

    def union(self, p, tvars=()):
        r = self.r
        d = self.new('union', p)
        vs = Var()
        head = self.parlist(p, d, vs) if self.f['params'] and not tvars and self.chance(0.25) else ''
        body, w = '', 0
        for k in range(r.randrange(1, 6)):
            t, x = self.field(p, d, vs, None, 30, 'union', tvars)
            body += t
            w = max(w, x)
        if self.f['fns'] and not tvars and head and self.chance(0.4):
            body += self.function(p, d, vs, None)
        d.weight = w + 1
        if tvars:
            d.tparams = len(tvars)
        d.text = 'union %s%s%s\n{\n%s};' % (d.name, '<%s>' % ', '.join(tvars) if tvars else '', head, body)
        self.decls[p].append(d)

    def choice(self, p, tvars=()):
        r = self.r
        d = self.new('choice', p)
        vs = Var()
        n = self.name('field')
        c = r.random()
        dflt = True
        if c < 0.5:
            t, lo, hi = r.choice([('uint8', 0, 255), ('bit:3', 0, 7), ('uint16', 0, 65535), ('int8', -128, 127), ('uint32', 0, 2**32 - 1)])
            m = r.randrange(1, 7)
            # no default: the arguments have to be one of the cases
            dflt = self.chance(0.6)
            top = m - 1 if not dflt else m + 1
            d.params.append((n, 'int', (lo, hi, 0, top)))
            vs.ints.append(E(n, 50, *((0, top) if not dflt else {'bit:3': (0, 255)}.get(t, (lo, hi)))))
            labels = [str(k) if self.chance(0.8) else hex(k) for k in range(m)]
            sel = n
            if dflt and self.chance(0.2):
                sel = self.r.choice(['%s + 1', '%s - 0', '%s ^ 1', '%s * 2', '%s %% 7', '%s & 0xF', '1 + %s']) % n
            elif dflt and lo < 0 and self.chance(0.4):
                labels.append('-1')
        elif c < 0.6:
            t, labels, dflt, sel = 'bool', ['true', 'false'], False, n
            d.params.append((n, 'bool', None))
            vs.bools.append(E(n, 50))
        elif c < 0.85:
            x = r.choice(self.visible(p, ('enum',)))
            t, sel = self.use(p, x), n
            d.params.append((n, 'enum', x))
            labels = [i if self.chance(0.6) else '%s.%s' % (self.local(p, x), i) for i in x.items]
            dflt = False
            if len(labels) > 1 and self.chance(0.4):
                labels, dflt = labels[:r.randrange(1, len(labels))], True
        else:
            x = r.choice(self.visible(p, ('mask',)))
            t, sel = self.use(p, x), n
            d.params.append((n, 'mask', x))
            labels = [x.items[0]]
        head = '%s %s' % (t, n)
        if self.chance(0.3) and not tvars:
            more = self.parlist(p, d, vs)
            if more:
                head += ', ' + more[1:-1]
        r.shuffle(labels)
        body, w = '', 0
        while labels:
            k = 2 if len(labels) > 1 and self.chance(0.2) else 1
            for l in labels[:k]:
                body += '    case %s:\n' % l
            labels = labels[k:]
            if self.chance(0.15):
                body += '        ;\n'
            else:
                tx, x = self.field(p, d, vs, None, 30, 'choice', tvars)
                body += tx
                w = max(w, x)
        if dflt:
            body += '    default:\n'
            if self.chance(0.4):
                body += '        ;\n'
            else:
                tx, x = self.field(p, d, vs, None, 30, 'choice', tvars)
                body += tx
                w = max(w, x)
        if self.f['fns'] and not tvars and self.chance(0.15):
            body += self.function(p, d, vs, None)
        d.weight = w + 1
        if tvars:
            d.tparams = len(tvars)
        d.text = 'choice %s%s(%s) on %s\n{\n%s};' % (d.name, '<%s>' % ', '.join(tvars) if tvars else '', head, sel, body)
        self.decls[p].append(d)

    def template(self, p):
        tv = ['T', 'U', 'KEY', 'VALUE'][:self.r.choice([1, 1, 2, 2, 3, 4])]
        self.r.choice([self.struct] * 6 + [self.union, self.union, self.choice])(p, tv)
        d = self.decls[p][-1]
        for k in range(self.r.randrange(0, 3)):
            i = self.new('inst', p, self.name('type'))
            i.text = 'instantiate %s %s;' % (self.instance(p, d), i.name)
            self.decls[p].append(i)

    # ------------------------------------------------------------------ output
    def files(self):
        out = {}
        for p in range(3):
            x = random.Random('%d %d' % (self.n, p)).random()
            s = ('zserio_compatibility_version("2.4.2");\n' if x < 0.2 else '/** The package. */\n' if x < 0.4 else '') + 'package %s;\n\n' % self.pkgs[p]
            for q in self.imports[p]:
                names = [d.name for d in self.decls[q] if d.used.get(p)]
                if names and len(names) < 5 and random.Random(self.n + p).random() < 0.4:
                    s += ''.join('import %s.%s;\n' % (self.pkgs[q], n) for n in names)
                else:
                    s += 'import %s.*;\n' % self.pkgs[q]
            if x > 0.7:
                st = [d.name for d in self.decls[p] if d.kind == 'struct' and not d.tparams and not d.params][:2]
                extra = 'rule_group Rules%d { rule "a-1"; };\n' % p
                if st:
                    extra += 'service Service%d { %s call(%s); };\npubsub Pub%d { topic("a/b") %s t; };\n' % (p, st[0], st[-1], p, st[0])
            else:
                extra = ''
            out['p%d.zs' % p] = s + '\n' + '\n'.join(d.text for d in self.decls[p]) + '\n' + extra
        return out


class Ref:
    """a declaration as seen from package at"""

    def __init__(self, d, at):
        self.d, self.at = d, at

    @property
    def lo(self):
        return self.d.lo

    @property
    def hi(self):
        return self.d.hi


# what the random schemas of a property's check are rich in
THEMES = {'C03': {}, 'C04': {'offs': 2, 'align': 2}, 'C05': {}, 'C06': {'arr': 2.3, 'packed': 0.3, 'offs': 3}, 'C07': {'arr': 2.3, 'packed': 2.2, 'align': 2},
          'C08': {'arr': 2, 'packed': 2.2, 'choice': 2, 'union': 2}, 'C09': {'align': 4, 'offs': 4, 'opt': 2, 'cond': 2}, 'C10': {'choice': 4, 'union': 3},
          'C11': {'params': 2.2, 'dyn': 2, 'arr': 1.5, 'packed': 0.5}, 'C12': {'sym': 5}, 'C13': {'fns': 3, 'cond': 3}, 'C14': {'names': 5, 'sym': 2},
          'C15': {'tmpl': 6}, 'C16': {'names': 2, 'tmpl': 2}, 'C17': {}, 'C18': {'opt': 2, 'packed': 2, 'choice': 2, 'union': 2}}


def make(seed, dst, size=14, theme=None):
    os.makedirs(dst, exist_ok=True)
    for f, t in Schema('%s %s' % (theme, seed) if theme else seed, size, THEMES.get(theme)).files().items():
        with open(os.path.join(dst, f), 'w') as o:
            o.write(t)


if __name__ == '__main__':
    import sys
    make(sys.argv[1], sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 14)
