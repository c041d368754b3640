"""Generates the Rust glue between abstract values (JSON) and the types the generator under test produced.
Only the documented surface of generated code is used: module and type paths, public members, TryFrom/bits of
enums and bitmasks, functions and constants.  Names of template instances are taken from the declared types of
the members that use them."""
import os, re, subprocess

RESERVED = {'type': 'z_type', 'struct': 'z_struct', 'self': 'z_self'}
KEYWORDS = set('''abstract as async await become box break const continue crate do dyn else enum extern false final fn for
gen if impl in let loop macro match mod move mut override priv pub ref return static super trait true try typeof unsafe
unsized use virtual where while yield'''.split())


class Names:
    """snake/Pascal case exactly as the generator's documented naming (the stringcase crate)"""
    def __init__(self, zgen, words):
        ws = sorted({RESERVED.get(w.lower(), w) for w in words})
        out = subprocess.run([zgen, '--names'], input='\n'.join(ws), capture_output=True, text=True, check=True).stdout
        self.snake_, self.pascal_ = {}, {}
        for line in out.splitlines():
            w, s, p = line.split('\t')
            self.snake_[w], self.pascal_[w] = s, p

    def snake(self, w):
        s = self.snake_[RESERVED.get(w.lower(), w)]
        return 'z_' + s if s in KEYWORDS else s

    def pascal(self, w):
        return self.pascal_[RESERVED.get(w.lower(), w)]

    def upper(self, w):
        return RESERVED.get(w.lower(), w).upper()


def all_words(x, acc):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ('name', 'n') and isinstance(v, str):
                acc.update(re.split(r'\.', v))
            elif k == 'decls':
                acc.update(v)
            all_words(v, acc)
    elif isinstance(x, list):
        for v in x:
            all_words(v, acc)
    return acc


class Glue:
    def __init__(self, schema, gen_dir, zgen, root='gen'):
        self.s, self.dir, self.root = schema, gen_dir, root
        self.nm = Names(zgen, all_words(schema, set()))
        self.done, self.out, self.makes, self.consts, self.reach = {}, [], [], [], []

    # ------------------------------------------------------------- resolution
    def pkg(self, p):
        return self.s['pkgs'][p - 1]

    def lookup(self, p, n):
        if n in self.pkg(p)['decls']:
            return (p, n)
        level, seen = self.pkg(p)['imports'], {p}
        while level:
            for im in level:
                if im['sym'] in ('', n) and n in self.pkg(im['pkg'])['decls']:
                    return (im['pkg'], n)
            nxt = [i for im in level if im['pkg'] not in seen for i in self.pkg(im['pkg'])['imports']]
            seen |= {im['pkg'] for im in level}
            level = nxt
        raise KeyError('%s in %s' % (n, self.pkg(p)['name']))

    def resolve(self, tr, p, tm):
        if tr['k'] != 'ref':
            return (tr['k'],)
        if not tr['q'] and tr['n'] in tm:
            return tm[tr['n']]
        r = (tr['q'], tr['n']) if tr['q'] else self.lookup(p, tr['n'])
        d = self.decl(r)
        if d['k'] in ('subtype', 'inst'):
            return self.resolve(d['type'], r[0], {})
        return (d['k'], r, tuple(self.resolve(t, p, tm) for t in tr['targs']))

    def decl(self, r):
        return self.pkg(r[0])['decls'][r[1]]

    def fields(self, d):
        if d['k'] != 'choice':
            return d['fields']
        return [f for c in d['cases'] for f in c['field']] + (d['default'][0] if d['default'] else [])

    # ------------------------------------------------------------------ paths
    def pkg_path(self, p):
        return '::'.join(['crate', self.root] + [self.nm.snake(x) for x in self.pkg(p)['name'].split('.')])

    def path(self, r):
        return '%s::%s::%s' % (self.pkg_path(r[0]), self.nm.snake(r[1]), self.nm.pascal(r[1]))

    def source(self, path):
        parts = path.split('::')[2:]
        f = os.path.join(self.dir, *parts[:-1]) + '.rs'
        try:
            return open(f).read()
        except OSError:
            return ''

    def member_type(self, path, member):
        """element type of a member, as written in the generated struct"""
        src = self.source(path)
        m = re.search(r'pub struct %s \{(.*?)\n\}' % re.escape(path.split('::')[-1]), src, re.S)
        if not m:
            return None
        m = re.search(r'\bpub %s:(.*?)(?=\bpub \w+\s*:(?!:)|\Z)' % re.escape(member), m.group(1), re.S)
        if not m:
            return None
        t = re.sub(r',(?=>|$)', '', re.sub(r'\s+', '', m.group(1)))
        while True:
            w = re.fullmatch(r'(?:Option|Vec|Box)<(.*)>', t)
            if not w:
                return t
            t = w.group(1)

    # ------------------------------------------------------------------- emit
    def emit(self, ty, path):
        """implements Glue for the Rust type at path, which stands for ty"""
        if ty[0] in ('prim', 'dyn') or path is None or not path.startswith('crate::'):
            return
        if path in self.done:
            return
        self.done[path] = ty
        k, r, targs = ty
        d = self.decl(r)
        if k == 'enum':
            vs = ['%s::%s' % (path, self.nm.pascal(i['name'])) for i in d['items']]
            self.out.append('''impl hx::Glue for %s {
    fn build(j: &hx::J) -> Result<Self, String> {
        match j.int() { %s _ => Err("no such item".into()) }
    }
    fn dump(&self) -> hx::J {
        match self { %s }
    }
}
''' % (path, ' '.join('%d => Ok(%s),' % (i + 1, v) for i, v in enumerate(vs)),
                ' '.join('%s => hx::J::Int(%d),' % (v, i + 1) for i, v in enumerate(vs))))
            return
        if k == 'mask':
            self.out.append('''impl hx::Glue for %s {
    fn build(j: &hx::J) -> Result<Self, String> { Ok(Self::from(same(Self::none().bits(), j)?)) }
    fn dump(&self) -> hx::J { hx::Glue::dump(&self.bits()) }
}
''' % path)
            return
        tm = dict(zip(d['tparams'], targs))
        ps = [(p['name'], self.nm.snake(p['name'])) for p in d['params']]
        fs = [(f['name'], self.nm.snake(f['name'])) for f in self.fields(d)]
        b = ['let mut o = Self::default();']
        if ps:
            b.append('if let Some(p) = j.get("$") {')
            b += ['hx::set(&mut o.%s, p, "%s")?;' % (m, n) for n, m in ps]
            b.append('}')
        if k == 'union':
            sel = '%sSelector' % path
            b.append('match j.at("$t").int() { %s _ => () }' % ' '.join(
                '%d => o.union_selector = %s::%s,' % (i + 1, sel, self.nm.pascal(n)) for i, (n, m) in enumerate(fs)))
        b += ['hx::set(&mut o.%s, j, "%s")?;' % (m, n) for n, m in fs]
        b.append('Ok(o)')
        dump = ['("$", hx::J::obj(vec![%s]))' % ', '.join('("%s", hx::Glue::dump(&self.%s))' % x for x in ps)]
        if k == 'union':
            dump.append('("$t", hx::J::Int(match self.union_selector { %s }))' % ' '.join(
                '%s::%s => %d,' % (sel, self.nm.pascal(n), i + 1) for i, (n, m) in enumerate(fs)))
        dump += ['("%s", hx::Glue::dump(&self.%s))' % x for x in fs]
        self.out.append('''impl hx::Glue for %s {
    fn build(j: &hx::J) -> Result<Self, String> {
        %s
    }
    fn dump(&self) -> hx::J {
        hx::J::obj(vec![%s])
    }
}
impl hx::Calls for %s {
    fn call(&self, name: &str) -> Option<hx::J> {
        match name { %s _ => None }
    }
}
''' % (path, '\n        '.join(b), ',\n            '.join(dump), path,
            ' '.join('"%s" => Some(hx::Glue::dump(&self.%s())),' % (f['name'], self.nm.snake(f['name']))
                     for f in d['funcs'])))
        for x in d['params'] + self.fields(d):
            t = self.resolve(x['type'], r[0], tm)
            if t[0] in ('prim', 'dyn'):
                continue
            if self.decl(t[1]).get('tparams'):
                self.emit(t, self.member_type(path, self.nm.snake(x['name'])))
            else:
                self.emit(t, self.path(t[1]))
        for f in d['funcs']:
            t = self.resolve(f['type'], r[0], tm)
            if t[0] in ('enum', 'mask'):
                self.emit(t, self.path(t[1]))

    def generate(self):
        for p in range(1, len(self.s['pkgs']) + 1):
            for n in self.pkg(p)['order']:
                d = self.pkg(p)['decls'][n]
                q = '%s.%s' % (self.pkg(p)['name'], n)
                if not d.get('tparams'):
                    self.reach.append('pub use %s as R%d;' % (
                        '%s::%s::%s' % (self.pkg_path(p), self.nm.snake(n), self.nm.upper(n) if d['k'] == 'const' else self.nm.pascal(n)),
                        len(self.reach)))
                if d['k'] in ('struct', 'choice', 'union') and not d['tparams']:
                    self.emit((d['k'], (p, n), ()), self.path((p, n)))
                    self.makes.append('"%s" => Some(Box::new(hx::Slot(%s::default()))),' % (q, self.path((p, n))))
                elif d['k'] in ('enum', 'mask'):
                    self.emit((d['k'], (p, n), ()), self.path((p, n)))
                elif d['k'] == 'inst':
                    t = self.resolve(d['type'], p, {})
                    self.emit(t, self.path((p, n)))
                    self.makes.append('"%s" => Some(Box::new(hx::Slot(%s::default()))),' % (q, self.path((p, n))))
                elif d['k'] == 'const':
                    c = '%s::%s::%s' % (self.pkg_path(p), self.nm.snake(n), self.nm.upper(n))
                    t = d['type']
                    while t['k'] == 'ref':
                        r = (t['q'], t['n']) if t['q'] else self.lookup(p, t['n'])
                        t = self.decl(r)['type'] if self.decl(r)['k'] == 'subtype' else {'k': 'prim', 't': {'p': '?'}}
                    if t['k'] == 'prim' and t['t']['p'] == 'str':
                        c += '.to_string()'
                    self.consts.append('"%s" => Some(hx::Glue::dump(&%s)),' % (q, c))
        return '''#![allow(warnings)]
pub mod %s;
#[allow(dead_code)]
fn same<B: hx::Glue>(_: B, j: &hx::J) -> Result<B, String> { B::build(j) }
%s
mod reach { %s }
struct Reg;
impl hx::Registry for Reg {
    fn make(&self, ty: &str) -> Option<Box<dyn hx::AnyObj>> {
        match ty { %s _ => None }
    }
    fn constant(&self, n: &str) -> Option<hx::J> {
        match n { %s _ => None }
    }
}
fn main() { hx::main(&Reg) }
''' % (self.root, ''.join(self.out), ' '.join(self.reach), '\n            '.join(self.makes), '\n            '.join(self.consts))
