"""A parser for the zserio schema language, written from the language's grammar (not from the code under
test).  It produces the abstract syntax that spec/Zserio.tla interprets (see the header comment there)."""
import json, os, re, struct, sys

BASE = 1 << 14

def big(n):
    """BigNum literal: sign, then base 2^14 limbs, least significant first"""
    s, m, out = (1 if n < 0 else 0), abs(n), []
    while m:
        out.append(m % BASE)
        m //= BASE
    return [s] + out

def unbig(l):
    n = 0
    for x in reversed(l[1:]):
        n = n * BASE + x
    return -n if l[0] else n

TOK = re.compile(r'''
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 |(?P<num>0[xX][0-9a-fA-F]+|[01]+[bB](?![0-9A-Za-z_])|\d+\.\d*(?:[eE][+-]?\d+)?f?|\d+[eE][+-]?\d+f?|\d+f(?![0-9A-Za-z_])|\d+)
 |(?P<str>"(?:[^"\\]|\\.)*")
 |(?P<id>[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op><<|>=|<=|==|!=|&&|\|\||[-+*/%&|^~!<>=?:;,.(){}\[\]@])
''', re.X | re.S)

class P:
    def __init__(self, text, where):
        self.toks, self.where = [], where
        i = 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise SyntaxError('%s: bad character %r' % (where, text[i:i + 20]))
            if m.lastgroup != 'ws':
                self.toks.append((m.lastgroup, m.group(), m.start()))
            i = m.end()
        self.toks.append(('eof', '', i))
        self.i = 0

    def peek(self, k=0):
        return self.toks[min(self.i + k, len(self.toks) - 1)][1]

    def kind(self, k=0):
        return self.toks[min(self.i + k, len(self.toks) - 1)][0]

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t[1]

    def accept(self, s):
        if self.peek() == s and self.kind() != 'str':
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise SyntaxError('%s: expected %r, got %r near token %d: %s' % (
                self.where, s, self.peek(), self.i, ' '.join(t[1] for t in self.toks[max(0, self.i - 8):self.i + 4])))

    def ident(self):
        if self.kind() != 'id':
            raise SyntaxError('%s: expected a name, got %r' % (self.where, self.peek()))
        return self.next()

    # ------------------------------------------------------------ expressions
    LEVELS = [['||'], ['&&'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '<=', '>', '>='], ['<<', '>>'],
              ['+', '-'], ['*', '/', '%']]

    def expr(self):
        c = self.binary(0)
        if self.accept('?'):
            a = self.expr()
            self.expect(':')
            return {'op': 'cond', 'c': c, 'a': a, 'b': self.expr()}
        return c

    def binop(self, level):
        t = self.peek()
        if self.kind() == 'str':
            return None
        ops = self.LEVELS[level]
        # ">>" is two adjacent ">" tokens
        if t == '>':
            adj = self.peek(1) == '>' and self.toks[self.i + 1][2] == self.toks[self.i][2] + 1
            if adj:
                return '>>' if '>>' in ops else None
        return t if t in ops else None

    def binary(self, level):
        if level == len(self.LEVELS):
            return self.unary()
        a = self.binary(level + 1)
        while True:
            o = self.binop(level)
            if o is None or (self.noge and o in ('>', '>>', '>=') and self.depth == 0):
                return a
            self.i += 2 if o == '>>' else 1
            a = {'op': 'bin', 'o': o, 'a': a, 'b': self.binary(level + 1)}

    noge = False      # inside bit<...>: a bare > closes
    depth = 0

    def unary(self):
        for o in ('-', '+', '!', '~'):
            if self.peek() == o and self.kind() == 'op':
                self.next()
                return {'op': 'un', 'o': o, 'a': self.unary()}
        return self.postfix(self.primary())

    def postfix(self, a):
        while True:
            if self.accept('('):
                self.expect(')')
                a = {'op': 'call', 'a': a}
            elif self.accept('['):
                self.depth += 1
                i = self.expr()
                self.depth -= 1
                self.expect(']')
                a = {'op': 'at', 'a': a, 'i': i}
            elif self.peek() == '.' and self.kind() == 'op':
                self.next()
                a = {'op': 'dot', 'a': a, 'n': self.ident()}
            else:
                return a

    def primary(self):
        k, t = self.kind(), self.peek()
        if k == 'num':
            self.next()
            return number(t)
        if k == 'str':
            self.next()
            return {'op': 'str', 'v': list(json.loads(t).encode())}
        if self.accept('('):
            self.depth += 1
            e = self.expr()
            self.depth -= 1
            self.expect(')')
            return e
        if self.accept('@'):
            assert self.ident() == 'index'
            return {'op': 'idx'}
        if t in ('true', 'false'):
            self.next()
            return {'op': 'bool', 'v': t == 'true'}
        if t in ('lengthof', 'valueof', 'numbits') and self.peek(1) == '(':
            self.next()
            self.expect('(')
            self.depth += 1
            e = self.expr()
            self.depth -= 1
            self.expect(')')
            return {'op': t, 'a': e}
        if t == 'isset' and self.peek(1) == '(':
            self.next()
            self.expect('(')
            self.depth += 1
            a = self.expr()
            self.expect(',')
            b = self.expr()
            self.depth -= 1
            self.expect(')')
            return {'op': 'isset', 'a': a, 'b': b}
        return {'op': 'id', 'n': self.ident()}

    # ------------------------------------------------------------------ types
    PRIMS = {'bool': {'p': 'bool'}, 'float16': {'p': 'f16'}, 'float32': {'p': 'f32'}, 'float64': {'p': 'f64'},
             'string': {'p': 'str'}, 'bytes': {'p': 'bytes'}, 'extern': {'p': 'extern'}, 'varsize': {'p': 'varsize'},
             'varuint': {'p': 'varu', 'm': 9}, 'varuint16': {'p': 'varu', 'm': 2}, 'varuint32': {'p': 'varu', 'm': 4},
             'varuint64': {'p': 'varu', 'm': 8}, 'varint': {'p': 'vars', 'm': 9}, 'varint16': {'p': 'vars', 'm': 2},
             'varint32': {'p': 'vars', 'm': 4}, 'varint64': {'p': 'vars', 'm': 8}}
    for _n in (8, 16, 32, 64):
        PRIMS['uint%d' % _n] = {'p': 'uint', 'n': _n}
        PRIMS['int%d' % _n] = {'p': 'sint', 'n': _n}

    def type(self, args_ok=True):
        t = self.peek()
        if t in self.PRIMS:
            self.next()
            return {'k': 'prim', 't': dict(self.PRIMS[t])}
        if t in ('bit', 'int'):
            self.next()
            sg = t == 'int'
            if self.accept(':'):
                n = unbig(number(self.next())['v'])
                return {'k': 'prim', 't': {'p': 'sint' if sg else 'uint', 'n': n}}
            self.expect('<')
            old = (self.noge, self.depth)
            self.noge, self.depth = True, 0
            w = self.expr()
            self.noge, self.depth = old
            self.expect('>')
            return {'k': 'dyn', 'sg': sg, 'w': w}
        n = self.ident()
        while self.peek() == '.' and self.kind() == 'op':
            self.next()
            n += '.' + self.ident()
        targs, args = [], []
        if self.accept('<'):
            targs.append(self.type())
            while self.accept(','):
                targs.append(self.type())
            self.expect('>')
        if args_ok and self.accept('('):
            self.depth += 1
            while not self.accept(')'):
                if self.accept('explicit'):
                    raise SyntaxError('explicit arguments are not supported')
                args.append(self.expr())
                if not self.accept(','):
                    self.expect(')')
                    break
            self.depth -= 1
        return {'k': 'ref', 'n': n, 'q': 0, 'targs': targs, 'args': args}

    def tparams(self):
        out = []
        if self.accept('<'):
            out.append(self.ident())
            while self.accept(','):
                out.append(self.ident())
            self.expect('>')
        return out

    def params(self):
        out = []
        if self.accept('('):
            while not self.accept(')'):
                t = self.type()
                out.append({'type': t, 'name': self.ident()})
                if not self.accept(','):
                    self.expect(')')
                    break
        return out

    def field(self, union=False, choice=False):
        f = {'align': 0, 'off': [], 'offidx': False, 'isoff': False, 'opt': False, 'cond': [], 'arr': []}
        if not union and not choice:
            if self.peek() == 'align' and self.peek(1) == '(':
                self.next()
                self.expect('(')
                e = self.expr()
                self.expect(')')
                self.expect(':')
                f['align'] = unbig(e['v'])
            # an offset: expression followed by ':' before the type
            save = self.i
            if self.kind() == 'id' and self.peek() not in ('bit', 'int'):
                try:
                    e = self.postfix_only()
                    if self.accept(':'):
                        f['off'] = [e]
                        f['offidx'] = has_idx(e)
                    else:
                        self.i = save
                except SyntaxError:
                    self.i = save
            self.accept('extend')
            f['opt'] = self.accept('optional')
        packed = self.accept('packed')
        if self.accept('implicit'):
            raise SyntaxError('implicit arrays are not supported')
        f['type'] = self.type()
        f['name'] = self.ident()
        if self.accept('['):
            ln = [] if self.peek() == ']' else [self.expr()]
            self.expect(']')
            f['arr'] = [{'len': ln, 'packed': packed}]
        elif packed:
            raise SyntaxError('packed without array')
        if not choice and not union and self.accept('='):
            self.expr()
        if not choice and not union and self.accept('if'):
            f['cond'] = [self.expr()]
        if self.accept(':'):
            self.expr()
        self.expect(';')
        return f

    def postfix_only(self):
        return self.postfix({'op': 'id', 'n': self.ident()})

    def function(self):
        f = {'type': self.type(), 'name': self.ident()}
        self.expect('(')
        self.expect(')')
        self.expect('{')
        self.expect('return')
        f['body'] = self.expr()
        self.expect(';')
        self.expect('}')
        return f

    def items(self):
        out = []
        self.expect('{')
        while not self.accept('}'):
            if self.accept('@'):
                assert self.ident() in ('deprecated', 'removed')
            it = {'name': self.ident(), 'val': []}
            if self.accept('='):
                it['val'] = [self.expr()]
            out.append(it)
            if not self.accept(','):
                self.expect('}')
                break
        self.expect(';')
        return out

    def package(self):
        name, imports, decls, order = '', [], {}, []
        if self.accept('zserio_compatibility_version'):
            while not self.accept(';'):
                self.next()
        if self.accept('package'):
            name = self.ident()
            while self.accept('.'):
                name += '.' + self.ident()
            self.expect(';')
        while self.accept('import'):
            parts = [self.ident()]
            sym = ''
            while self.accept('.'):
                if self.accept('*'):
                    break
                parts.append(self.ident())
            else:
                sym = parts.pop()
            self.expect(';')
            imports.append({'pkg': '.'.join(parts), 'sym': sym})
        while self.kind() != 'eof':
            k = self.next()
            if k == 'const':
                d = {'k': 'const', 'type': self.type()}
                n = self.ident()
                self.expect('=')
                d['val'] = self.expr()
                self.expect(';')
            elif k == 'subtype':
                d = {'k': 'subtype', 'type': self.type()}
                n = self.ident()
                self.expect(';')
            elif k == 'instantiate':
                d = {'k': 'inst', 'type': self.type()}
                n = self.ident()
                self.expect(';')
            elif k in ('enum', 'bitmask'):
                d = {'k': 'enum' if k == 'enum' else 'mask', 'base': self.type()}
                n = self.ident()
                d['items'] = self.items()
            elif k in ('struct', 'union', 'choice'):
                n = self.ident()
                d = {'k': k, 'tparams': self.tparams(), 'params': self.params(), 'funcs': []}
                if k == 'choice':
                    self.expect('on')
                    d['sel'] = self.expr()
                    d['cases'], d['default'] = [], []
                else:
                    d['fields'] = []
                self.expect('{')
                while not self.accept('}'):
                    if self.accept('function'):
                        d['funcs'].append(self.function())
                    elif k == 'choice':
                        labels, dflt = [], False
                        while True:
                            if self.accept('case'):
                                labels.append(self.expr())
                                self.expect(':')
                            elif self.accept('default'):
                                dflt = True
                                self.expect(':')
                            else:
                                break
                        fs = [] if self.accept(';') else [self.field(choice=True)]
                        if dflt:
                            d['default'] = [fs]
                        else:
                            d['cases'].append({'labels': labels, 'field': fs})
                    else:
                        d['fields'].append(self.field(union=k == 'union'))
                self.expect(';')
            elif k in ('service', 'pubsub', 'rule_group', 'sql_table', 'sql_database'):
                # nothing that is encoded
                while not (self.peek() == '}' and self.peek(1) == ';'):
                    self.next()
                self.next()
                self.next()
                continue
            else:
                raise SyntaxError('%s: unexpected %r' % (self.where, k))
            d['name'] = n
            if n in decls:
                raise SyntaxError('%s: duplicate %s' % (self.where, n))
            decls[n] = d
            order.append(n)
        return {'name': name, 'imports': imports, 'decls': decls, 'order': order}


def has_idx(e):
    if isinstance(e, dict):
        return e.get('op') == 'idx' or any(has_idx(v) for v in e.values())
    return False


def number(t):
    if re.fullmatch(r'[01]+[bB]', t):
        v = int(t[:-1], 2)
    elif t.lower().startswith('0x'):
        v = int(t, 16)
    elif re.fullmatch(r'\d+', t):
        v = int(t, 8) if len(t) > 1 and t[0] == '0' else int(t)
    else:
        # m * 2^e; a float32 literal that float32 cannot represent is left open
        v = float(t.rstrip('fF'))
        if t[-1] in 'fF' and struct.unpack('<f', struct.pack('<f', v))[0] != v:
            return {'op': 'flt', 'm': [], 'e': 0}
        m, d = v.as_integer_ratio()
        return {'op': 'flt', 'm': [big(m)], 'e': 1 - d.bit_length()}
    return {'op': 'int', 'v': big(v)}


def parse_files(files):
    """files: list of (path, text).  Packages are numbered in order of their names, whatever the file order."""
    pkgs = [P(text, path).package() for path, text in files]
    pkgs.sort(key=lambda p: p['name'])
    idx = {p['name']: i + 1 for i, p in enumerate(pkgs)}
    if len(idx) != len(pkgs):
        raise SyntaxError('package defined twice')
    for p in pkgs:
        p['imports'] = [{'pkg': idx[i['pkg']], 'sym': i['sym']} for i in p['imports']]
    qualify(pkgs, idx)
    mark_offsets(pkgs)
    return {'pkgs': pkgs}


def mark_offsets(pkgs):
    """fields that hold offsets of others"""
    def field(decl, p, e):
        if e['op'] == 'at':
            return field(decl, p, e['a'])
        if e['op'] == 'id':
            for f in decl['fields'] + decl['params']:
                if f['name'] == e['n']:
                    return f, p
        if e['op'] == 'dot':
            f, q = field(decl, p, e['a'])
            t = f['type']
            while t['k'] == 'ref':
                for r in ([t['q'] - 1] if t['q'] else [q] + [im['pkg'] - 1 for im in pkgs[q]['imports']]):
                    if t['n'] in pkgs[r]['decls']:
                        d = pkgs[r]['decls'][t['n']]
                        if d['k'] == 'struct':
                            return field(d, r, {'op': 'id', 'n': e['n']})
                        t, q = d['type'], r
                        break
                else:
                    break
        raise SyntaxError('offset field not found: %s' % e)
    for i, p in enumerate(pkgs):
        for d in p['decls'].values():
            if d['k'] == 'struct':
                for f in d['fields']:
                    if f['off']:
                        field(d, i, f['off'][0])[0]['isoff'] = True


def qualify(x, idx):
    """package-qualified type names get the number of their package"""
    if isinstance(x, dict):
        if x.get('k') == 'ref' and '.' in x['n']:
            p, x['n'] = x['n'].rsplit('.', 1)
            x['q'] = idx[p]
        for v in x.values():
            qualify(v, idx)
    elif isinstance(x, list):
        for v in x:
            qualify(v, idx)


def parse_dir(d):
    fs = []
    for root, _, names in sorted(os.walk(d)):
        for n in sorted(names):
            if n.endswith('.zs'):
                p = os.path.join(root, n)
                fs.append((p, open(p).read()))
    return parse_files(fs)


if __name__ == '__main__':
    json.dump(parse_dir(sys.argv[1]), sys.stdout, indent=1)
