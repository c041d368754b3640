"""Building blocks of the checks: build the harness against /repo's tree, generate code for schemas, have TLC
produce behaviours, replay them on the implementation, compare."""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time
import zs, glue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
TARGET = os.path.join(BUILD, 'target')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

ENV = dict(os.environ)
ENV['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + ENV.get('PATH', '/usr/bin:/bin')
ENV.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           CARGO_TARGET_DIR=TARGET, RUST_BACKTRACE='0', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
ENV.pop('RUSTFLAGS', None)


class ToolError(Exception):
    """the machinery itself failed: neither held nor violated"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


T0 = time.time()


def stamp(msg):
    log('[%6.1fs] %s' % (time.time() - T0, msg))


def sh(cmd, cwd=None, timeout=600, env=None, input=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout, input=input)


# --------------------------------------------------------------------- building
def cargo(crate, extra=(), timeout=800):
    os.makedirs(TARGET, exist_ok=True)
    return sh(['cargo', 'build', '--offline', '--quiet'] + list(extra), cwd=crate, timeout=timeout)


def build_tool(name, extra=()):
    r = cargo(os.path.join(VERIF, 'harness', name), extra)
    if r.returncode:
        raise ToolError('building %s failed:\n%s' % (name, r.stderr[-4000:]))


def exe(name):
    return os.path.join(TARGET, 'debug', name)


# ------------------------------------------------------------------------ schemas
class Group:
    """a directory of schema files that are used together"""

    def __init__(self, name, src_dir, work):
        self.name, self.src, self.dir = name, src_dir, os.path.join(work, 'in_' + name)
        os.makedirs(work, exist_ok=True)
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.copytree(src_dir, self.dir)
        self.schema = zs.parse_dir(self.dir)
        self.error = None                       # why there is no executable
        self.opts, picks = {}, {}
        for d, _, fs in os.walk(self.dir):
            for f in sorted(fs):
                for m in re.finditer(r'^(?://)?\s*@(\w+)\s+(.*)$', open(os.path.join(d, f)).read(), re.M):
                    if m.group(1) == 'pick':    # @pick NAME: values that fields and parameters of this name take
                        n, vs = m.group(2).split(':')
                        picks[n.strip()] = [zs.big(x) for r in vs.split() for x in
                                            (range(int(r.split('..')[0]), int(r.split('..')[1]) + 1) if '..' in r else [int(r)])]
                    else:
                        self.opts.setdefault(m.group(1), []).extend(x.strip() for x in m.group(2).split(','))
        if os.path.exists(os.path.join(self.dir, 'opts')):
            os.unlink(os.path.join(self.dir, 'opts'))
        for p in self.schema['pkgs']:
            p['picks'] = picks

    def roots(self, only=None):
        """the types behaviours start from: those named in @roots comments, else all that need no parameters"""
        out = []
        named = only or self.opts.get('roots')
        for pi, p in enumerate(self.schema['pkgs']):
            for n in p['order']:
                d = p['decls'][n]
                q = p['name'] + '.' + n
                if named is not None:
                    if n in named or q in named:
                        out.append((pi + 1, n))
                elif d['k'] == 'inst' or (d['k'] in ('struct', 'choice', 'union') and not d['tparams'] and not d['params']):
                    out.append((pi + 1, n))
        return out


class Crate:
    """one cargo package with one executable per group"""

    def __init__(self, work, name='codec'):
        os.makedirs(work, exist_ok=True)
        self.work, self.dir = work, os.path.join(work, 'crate_' + name)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, 'src'))
        self.tag = hashlib.sha1(self.dir.encode()).hexdigest()[:8]
        self.groups = []

    def bin(self, g):
        return 'g%s_%s' % (self.tag, g.name)

    def generate(self, g):
        """runs the generator of the tree under test on the group's schemas"""
        self.groups.append(g)
        root = g.name
        g.gen = os.path.join(self.dir, 'src', root)
        try:
            r = sh([exe('zgen'), g.dir, g.gen, root], timeout=60)
        except subprocess.TimeoutExpired:
            g.error = 'the generator does not terminate'
            return
        if r.returncode:
            g.error = 'the generator fails: ' + tail(r.stderr, 600)
            return
        try:
            src = glue.Glue(g.schema, g.gen, exe('zgen'), root).generate()
        except Exception as x:
            raise ToolError('glue for %s: %r' % (g.name, x))
        with open(os.path.join(self.dir, 'src', 'main_%s.rs' % g.name), 'w') as f:
            f.write(src)

    def build(self):
        live = [g for g in self.groups if not g.error]
        with open(os.path.join(self.dir, 'Cargo.toml'), 'w') as f:
            f.write('''[package]
name = "zc%s"
version = "0.0.0"
edition = "2021"
autobins = false
[workspace]
[dependencies]
hx = { path = "%s/harness/hx" }
zserio = { path = "%s/crates/zserio" }
bitreader = "0.3.8"
rust-bitwriter = "0.0.1"
bitmask-enum = "2.2.4"
[profile.dev]
debug = 0
''' % (self.tag, VERIF, REPO))
            for g in live:
                f.write('[[bin]]\nname = "%s"\npath = "src/main_%s.rs"\n' % (self.bin(g), g.name))
        shutil.copy(os.path.join(VERIF, 'harness', 'zgen', 'Cargo.lock'), os.path.join(self.dir, 'Cargo.lock'))
        if not live:
            return
        r = cargo(self.dir, ['--keep-going'])
        if r.returncode == 0:
            return
        for g in live:
            r = cargo(self.dir, ['--bin', self.bin(g)])
            if r.returncode:
                errs = re.findall(r'^error.*?(?=^(?:error|warning)|\Z)', r.stderr, re.M | re.S)
                gen = [e for e in errs if '/%s/' % g.name in e or '/%s/' % g.name in e]
                if 'could not compile `zserio`' in r.stderr or 'could not compile `hx`' in r.stderr or 'failed to' in r.stderr:
                    raise ToolError('building the harness: ' + r.stderr[-3000:])
                g.error = 'the generated code does not compile: ' + tail((gen or errs or [r.stderr])[0], 900)


def tail(s, n):
    s = s.strip()
    return s if len(s) <= n else s[:n] + ' ...'


def shift(x, by):
    """a copy in which package numbers in type names are raised"""
    if isinstance(x, dict):
        y = {k: shift(v, by) for k, v in x.items()}
        if y.get('k') == 'ref' and y.get('q'):
            y['q'] += by
        return y
    return [shift(v, by) for v in x] if isinstance(x, list) else x


def merge(groups):
    """one schema with the packages of all groups (which do not see each other)"""
    pkgs, base = [], {}
    for g in groups:
        base[g.name] = len(pkgs)
        for p in g.schema['pkgs']:
            q = shift(p, base[g.name])
            q['imports'] = [dict(im, pkg=im['pkg'] + base[g.name]) for im in p['imports']]
            pkgs.append(q)
    return {'pkgs': pkgs}, base


# ----------------------------------------------------------------------------- TLC
def tlc(module, cfg, env, work, workers=8, timeout=800, heap='6g'):
    """returns (stdout, states generated, distinct states); raises if TLC reports an error"""
    meta = os.path.join(work, 'tlc_%s_%d' % (re.sub(r'\W', '_', cfg), threading.get_ident()))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    e = dict(ENV)
    e.update(env)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xss512m', '-Xmx' + heap, '-cp', JARS, 'tlc2.TLC',
           '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE', '-config', cfg, module]
    try:
        r = sh(cmd, cwd=SPEC, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC: time limit on %s' % cfg)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.findall(r'(\d+) states generated, (\d+) distinct', out)
    if r.returncode != 0 or not m:
        raise ToolError('TLC on %s (exit %d):\n%s\n%s' % (cfg, r.returncode, re.sub(r'(?m)^\d+\. Line.*\n', '', out)[-5000:], r.stderr[-2000:]))
    return out, int(m[-1][0]), int(m[-1][1])


def generate_cases(module, cfg, schema, job, work, name, timeout=800):
    """TLC walks the specification's behaviours; returns (cases, states, transitions)"""
    sp, jp, op = (os.path.join(work, '%s_%s' % (name, x)) for x in ('schema.json', 'job.json', 'cases'))
    shutil.rmtree(op, ignore_errors=True)
    os.makedirs(op)
    cache = os.environ.get('ZS_CACHE')           # for development only: behaviours of earlier runs
    if cache:
        h = hashlib.sha1(json.dumps([module, cfg, schema, job]).encode())
        for f in sorted(os.listdir(SPEC)):
            h.update(open(os.path.join(SPEC, f), 'rb').read())
        cache = os.path.join(cache, h.hexdigest())
        if os.path.exists(cache):
            return tuple(json.load(open(cache)))
    job = dict(job, out=op + '/')                # one file per case: lines of parallel writers would mix
    json.dump(schema, open(sp, 'w'))
    json.dump(job, open(jp, 'w'))
    _, gen, distinct = tlc(module, cfg, {'ZS_SCHEMA': sp, 'ZS_JOB': jp}, work, timeout=timeout)
    cases = read_cases(op)
    if cache:
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        json.dump([cases, distinct, gen], open(cache + '.%d' % threading.get_ident(), 'w'))
        os.rename(cache + '.%d' % threading.get_ident(), cache)
    return cases, distinct, gen


def read_cases(op):
    out = []
    for f in os.listdir(op):
        with open(os.path.join(op, f)) as h:
            x = json.loads(h.read())
        out.append(json.loads(x) if isinstance(x, str) else x)
    shutil.rmtree(op)
    out.sort(key=lambda c: (c['i'], c.get('root', '')))
    return out


# -------------------------------------------------------------------------- replay
def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay_part(binary, cases, path, per_case):
    """runs the harness on the cases; a case on which it dies or hangs gets {"r":"crash"|"hang"}"""
    with open(path, 'w') as f:
        for c in cases:
            f.write(json.dumps(c) + '\n')
    env = dict(ENV, HX_TMP=os.path.dirname(path))
    out = []
    while len(out) < len(cases):
        p = subprocess.Popen([binary, path, str(len(out))], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                             env=env, preexec_fn=limits)
        last, hung = [time.time()], [False]
        done = threading.Event()

        def watch():
            while not done.wait(0.5):
                if time.time() - last[0] > per_case:
                    hung[0] = True
                    p.kill()
                    return
        th = threading.Thread(target=watch, daemon=True)
        th.start()
        for line in p.stdout:
            if not line.endswith('\n'):
                break
            out.append(json.loads(line))
            last[0] = time.time()
        rc = p.wait()
        done.set()
        if len(out) < len(cases):
            out.append({'r': 'hang' if hung[0] else 'crash', 'e': 'process ended with %s' % rc})
    os.unlink(path)
    return out


def replay(binary, cases, work, name, parts=8, per_case=20):
    if not cases:
        return []
    n = max(1, min(parts, len(cases) // 20 + 1))
    chunks = [cases[i::n] for i in range(n)]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda k: replay_part(binary, chunks[k], os.path.join(work, '%s_%d.in' % (name, k)), per_case), range(n)))
    out = [None] * len(cases)
    for k in range(n):
        out[k::n] = res[k]
    return out


# ------------------------------------------------------------------------- compare
def empty(x):
    return x == [] or x == {}


def same(exp, got):
    """is got what exp prescribes?  {"any":true} in exp matches everything"""
    if isinstance(exp, dict):
        if exp.get('any') is True:
            return True
        if exp.get('nan') is True:
            return is_nan(got)
        if empty(exp) and empty(got):
            return True
        return isinstance(got, dict) and exp.keys() <= got.keys() and all(same(v, got[k]) for k, v in exp.items())
    if isinstance(exp, list):
        if empty(exp) and empty(got):
            return True
        return isinstance(got, list) and len(exp) == len(got) and all(same(a, b) for a, b in zip(exp, got))
    return exp == got


def is_nan(x):
    """the pattern of a 32- or 64-bit NaN, as [sign, limbs of 14 bits]"""
    v = sum(d << (14 * k) for k, d in enumerate(x[1:]))
    return any((v >> m) & ((1 << e) - 1) == (1 << e) - 1 and v & ((1 << m) - 1) != 0 for e, m in ((8, 23), (11, 52)))


def bitstr(bits):
    return ''.join(map(str, bits))


class Looseness(Exception):
    pass


def cmp_enc(op, exp, res, want):
    """differences of an encoding step, as (what, detail)"""
    if res.get('r') != 'ok':
        return [('enc', 'the object cannot be set up: %s' % res)] if res.get('r') == 'build' else [('crash', str(res))]
    out = []
    e, b = res['enc'], bitstr(exp['bits'])
    if e['r'] == 'panic':
        out.append(('crash', 'writing panics: %s' % e['e']))
    elif e['r'] != 'ok':
        out.append(('enc', 'writing is refused: %s' % e.get('e')))
    elif e['bits'] != b:
        out.append(('enc', 'bits written differ: %s, should be %s' % (e['bits'], b)))
    elif e['len'] != (op['pos'] + len(b) + 7) // 8:
        out.append(('enc', 'bytes written: %d for %d bits' % (e['len'], op['pos'] + len(b))))
    real = e['n'] if e['r'] == 'ok' else len(b)
    if res['sz'] != real:
        out.append(('size', 'size reported: %s, bits written: %d' % (res['sz'], real)))
    if res.get('changed'):
        out.append(('changed', 'the object changed while it was encoded'))
    return out


def cmp_dec(op, exp, res, want):
    if res.get('r') != 'ok':
        return [('crash', str(res))] if res.get('r') != 'build' else [('dec', str(res))]
    out = []
    d = res['dec']
    if d['r'] == 'panic':
        return [('crash', 'reading panics: %s' % d['e'])]
    if 'peak' in d and d['peak'] > peak_bound(op):
        out.append(('memory', '%d bytes of memory used to decode %d bytes' % (d['peak'], len(op['b']))))
    if not exp['ok']:
        if exp['err'] in ('loose', 'huge'):
            return out
        if d['r'] != 'err':
            out.append(('dec', 'should be refused (%s) but was read as %s' % (exp['err'], json.dumps(d.get('v')))))
        return out
    if d['r'] != 'ok':
        return out + [('dec', 'should be read but is refused: %s' % d.get('e'))]
    if not same(exp['v'], d['v']):
        out.append(('dec', 'read %s, should be %s' % (json.dumps(d['v']), json.dumps(exp['v']))))
    if d['n'] != exp['n']:
        out.append(('dec', 'consumed %d bits, should be %d' % (d['n'], exp['n'])))
    if op.get('again') and 'enc' in res and 'bits' in exp:
        e, b = res['enc'], bitstr(exp['bits'])
        if e['r'] == 'panic':
            out.append(('crash', 'writing the decoded object panics: %s' % e['e']))
        elif e['r'] != 'ok':
            out.append(('again', 'the decoded object cannot be written: %s' % e.get('e')))
        elif e['bits'] != b:
            out.append(('again', 'the decoded object is written as %s, should be %s' % (e['bits'], b)))
        real = e['n'] if e['r'] == 'ok' else len(b)
        if res['sz'] != real:
            out.append(('size', 'size reported: %s, bits written: %d' % (res['sz'], real)))
    return out


def peak_bound(op):
    c = op.get('chunk', 1000)
    return (16 << 20) + 4000 * len(op['b']) if c <= 1000 else 1 << 62


def cmp_fn(op, exp, res, want):
    if res.get('r') != 'ok':
        return [('crash' if res.get('r') != 'build' else 'fn', str(res))]
    out = []
    for f, e, r in zip(op['fs'], exp, res['fs']):
        if isinstance(e, dict) and e.get('any') is True:
            continue
        if r['r'] == 'panic':
            out.append(('crash', 'function %s panics: %s' % (f, r['e'])))
        elif r['r'] != 'ok' or not same(e, r['v']):
            out.append(('fn', 'function %s gives %s, should give %s' % (f, json.dumps(r.get('v', r)), json.dumps(e))))
    return out


def cmp_session(op, exp, res, want):
    if res.get('r') != 'ok':
        return [('crash' if res.get('r') != 'build' else 'session', str(res))]
    out = []
    for k, (st, e, r) in enumerate(zip(op['steps'], exp, res['steps'])):
        if r['r'] == 'panic':
            out.append(('crash', 'call %d (%s) panics: %s' % (k, st['do'], r['e'])))
        elif r['r'] == 'build':
            raise ToolError('session: %s %s' % (st, r))
        elif not same(e, r):
            out.append(('session', 'call %d (%s): %s, should be %s; calls so far: %s' % (
                k, st['do'], json.dumps(r), json.dumps(e), ' '.join(x['do'] for x in op['steps'][:k + 1]))))
    return out


def cmp_const(op, exp, res, want):
    if res.get('r') != 'ok' or not same(exp, res['v']):
        return [('const', 'the constant %s is %s, should be %s' % (op['n'], json.dumps(res.get('v', res)), json.dumps(exp)))]
    return []


def cmp_rt_enc(op, exp, res, want):
    """the runtime's writers and sizes, used directly"""
    if exp['ok']:
        return cmp_enc(op, exp, res, want)
    if res.get('r') != 'ok':
        return [('crash', str(res))]
    out = []
    e, sz = res['enc'], res['sz']
    if e['r'] == 'panic' or isinstance(sz, dict) and sz['r'] == 'panic':
        out.append(('crash', 'a value outside the range: %s, %s' % (e, sz)))
    elif e['r'] == 'build':
        raise ToolError('value cannot be set up: %s' % op)
    elif e['r'] == 'ok':
        out.append(('range', 'a value outside the range was written as %s' % e['bits']))
    elif not isinstance(sz, dict) and op['t']['p'] not in ('bytes', 'extern'):
        out.append(('range', 'a value outside the range has size %s' % sz))
    return out


def cmp_rt_lim(op, exp, res, want):
    if res.get('r') != 'ok':
        return [('crash', str(res))]
    if not same(exp, res):
        return [('range', 'the limits of %s are %s, should be %s' % (op['t'], json.dumps(res), json.dumps(exp)))]
    return []


def cmp_rt_dec(op, exp, res, want):
    if res.get('r') in ('crash', 'build'):
        return [('crash', str(res))]
    return cmp_dec(op, exp, {'r': 'ok', 'dec': res}, want)


def cmp_rt_adec(op, exp, res, want):
    out = cmp_dec(op, exp, {'r': 'ok', 'dec': res['all']}, want)
    return out or [(w, 'element by element: ' + d) for w, d in cmp_dec(op, exp, {'r': 'ok', 'dec': res['one']}, want)]


CMP = {'lim': cmp_rt_lim, 'penc': cmp_rt_enc, 'aenc': cmp_rt_enc, 'pdec': cmp_rt_dec, 'adec': cmp_rt_adec,
       'const': cmp_const, 'session': cmp_session, 'enc': cmp_enc, 'dec': cmp_dec, 'fn': cmp_fn}


def compare(case, res, want):
    """list of (step, what, detail) for the kinds of difference this check is about"""
    if isinstance(res, dict) and res.get('r') in ('crash', 'hang'):
        return [(-1, 'crash', res['e'] if res['r'] == 'crash' else 'does not terminate')]
    if not isinstance(res, list):
        raise ToolError('harness: %s' % res)
    out = []
    for k, (op, exp, r) in enumerate(zip(case['ops'], case['exp'], res)):
        for what, detail in CMP[op['op']](op, exp, r, want):
            if what in want:
                out.append((k, what, detail))
        if 'like' in want and isinstance(exp, dict) and exp.get('like') and outcome(r) != outcome(res[k - 1]):
            out.append((k, 'like', 'a used object gives %s, a fresh one %s' % (outcome(r), outcome(res[k - 1]))))
    return out


def outcome(r):
    """what decoding came to, without the values nobody looks at"""
    d, e = r.get('dec', {}), r.get('enc', {})
    return d.get('r'), d.get('n'), e.get('r'), e.get('n'), e.get('bits')
