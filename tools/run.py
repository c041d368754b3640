#!/usr/bin/env python3
"""The checks.
   run.py setup                      build what all checks need
   run.py check ID [--tier T]        decide property ID on /repo's current tree
   run.py replay FILE                show a violation again
   run.py dev GROUP[,GROUP] [N] [BAD] [SEED]   try schema groups out
"""
import concurrent.futures, json, os, random, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, rnd
from vlib import *

ALL = ['prims', 'arrays', 'packed', 'pcomp', 'layout', 'choice', 'params', 'enums', 'exprs', 'names', 'tmpl', 'refm', 'mods', 'big']
EVERY = {'like', 'enc', 'dec', 'again', 'size', 'crash', 'memory', 'fn', 'changed'}


class Ctx:
    """one run of one check"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed, self.quick = pid, tier, seed, tier == 'quick'
        self.work = os.path.join(BUILD, 'w', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.viol, self.known = [], []
        self.states = self.trans = self.traces = self.steps = 0
        self.samples, self.parts = [], {}
        self.lock = threading.Lock()

    def size(self, quick, thorough):
        return quick if self.quick else thorough

    def violation(self, what, data):
        """what: one line; data: all that is needed to see it again"""
        with self.lock:
            if len(self.viol) < 50:
                self.viol.append((what, dict(data, property=self.pid, what=what)))

    def explored(self, part, states, trans, traces, steps, **more):
        with self.lock:
            self.states += states
            self.trans += trans
            self.traces += traces
            self.steps += steps
            self.parts[part] = dict(more, states=states, transitions=trans, behaviours=traces, steps=steps)

    def sample(self, x):
        with self.lock:
            if len(self.samples) < 4:
                s = json.dumps(x)
                self.samples.append(x if len(s) < 3000 else s[:3000] + '...')


def harvest(ctx, part, group, cases, res, want):
    """compares what the implementation did with what the specification prescribes"""
    bad = 0
    for case, r in zip(cases, res):
        ds = compare(case, r, want)
        if ds:
            bad += 1
            k, what, detail = ds[0]
            ctx.violation('%s: %s: %s' % (case.get('root', part), what, detail),
                          {'part': part, 'group': group.name if group else None, 'case': case, 'step': k, 'kinds': sorted(want),
                           **({'files': schema_files(group)} if group and group.name.startswith('rnd') else {})})
    return bad


def schema_files(g):
    out = {}
    for d, _, fs in os.walk(g.src):
        for f in sorted(fs):
            p = os.path.join(d, f)
            out[os.path.relpath(p, g.src)] = open(p).read()
    return out


def codec(ctx, names, n, bad, want, also=(), part='codec', used=True, dirs=None, module='Codec', extra={}, only={}):
    """behaviours of Codec.tla (or Session.tla) over schema groups.  names: the groups the property is about;
    also: groups visited less often"""
    gs = [Group(x, (dirs or {}).get(x) or os.path.join(VERIF, 'schemas', x), os.path.join(ctx.work, part)) for x in list(names) + list(also)]
    schema, base = merge(gs)
    roots, owner = [], []
    for g in gs:
        # the main groups' types come up three times as often
        for _ in range(3 if also and g.name in names else 1):
            for p, nm in g.roots(only.get(g.name)):
                roots.append({'p': p + base[g.name], 'n': nm})
                owner.append(g)
    n = max(n, len(roots))
    job = {'seed': ctx.seed, 'from': 0, 'to': n - 1, 'bad': bad, 'used': used, 'roots': roots, **extra}
    with concurrent.futures.ThreadPoolExecutor(1) as ex:
        fut = ex.submit(generate_cases, module, module + '.cfg', schema, job, ctx.work, part)
        c = Crate(ctx.work, part)
        for g in gs:
            c.generate(g)
        c.build()
        cases, st, tr = fut.result()
    steps = 0
    per = {}
    for g in gs:
        if g.error:
            ctx.violation('%s: %s' % (g.name, g.error), {'part': 'build', 'group': g.name, 'files': schema_files(g)})
            continue
        mine = [x for x in cases if owner[x['i'] % len(roots)] is g]
        res = replay(exe(c.bin(g)), mine, ctx.work, part + '_' + g.name)
        b = harvest(ctx, part, g, mine, res, want)
        steps += sum(len(x['ops']) for x in mine)
        per[g.name] = {'types': len(g.roots()), 'behaviours': len(mine), 'differing': b}
        for x in mine[1:2]:
            ctx.sample({'type': x['root'], 'op': x['ops'][0], 'expected': x['exp'][0]})
    ctx.explored(part, st, tr, len(cases), steps, seed=ctx.seed, damaged_streams=bad, groups=per)


def runtime(ctx, mode, n, more, want, part=None):
    """behaviours of Runtime.tla: the runtime library on its own"""
    part = part or 'runtime_' + mode
    work = os.path.join(ctx.work, part)
    os.makedirs(work)
    steps = traces = st = tr = 0
    for a in range(0, n, 4000):
        job = {'seed': ctx.seed, 'from': a, 'to': min(n, a + 4000) - 1, 'mode': mode, 'more': more, 'long': True}
        cases, s1, t1 = generate_cases('Runtime', 'Runtime.cfg', {}, job, work, part)
        harvest(ctx, part, None, cases, replay(exe('rt'), cases, work, part), want)
        steps, traces, st, tr = steps + sum(len(x['ops']) for x in cases), traces + len(cases), st + s1, tr + t1
        for x in cases[5:6]:
            ctx.sample({'type': x['root'], 'op': x['ops'][0], 'expected': x['exp'][0]})
    ctx.explored(part, st, tr, traces, steps, seed=ctx.seed)


def random_dirs(ctx, theme, ks):
    dirs = {}
    for k in ks:
        n = 'rnd_%s_%d' % (theme.lower(), k)
        dirs[n] = os.path.join(ctx.work, 'schema_' + n)
        rnd.make(k, dirs[n], theme=theme)
    return dirs


def random_seeds(ctx, quick, thorough):
    return range(ctx.seed * 1000, ctx.seed * 1000 + ctx.size(quick, thorough))


def randoms(ctx, bad, want, quick=5, thorough=40, theme=None, per=60):
    """behaviours over pseudo-random schemas, ten at a time"""
    ks = list(random_seeds(ctx, quick, thorough))
    for k in range(0, len(ks), 10):
        dirs = random_dirs(ctx, theme or ctx.pid, ks[k:k + 10])
        codec(ctx, list(dirs), per * len(dirs), bad, want, part='random%s' % (k // 10 or ''), dirs=dirs)


def both(*fs):
    """parts of a check, at the same time"""
    with concurrent.futures.ThreadPoolExecutor(len(fs)) as ex:
        for f in [ex.submit(f) for f in fs]:
            f.result()


# ------------------------------------------------------------------ the checks
LAYOUT = {'enc', 'dec', 'again', 'crash'}


def c01(ctx):
    both(lambda: codec(ctx, ['prims'], ctx.size(400, 6000), 1, LAYOUT),
         lambda: runtime(ctx, 'prim', 163 * ctx.size(8, 64), ctx.size(4, 12), LAYOUT))


def c02(ctx):
    both(lambda: codec(ctx, ['prims'], ctx.size(300, 4000), 4, LAYOUT | {'size'}),
         lambda: runtime(ctx, 'range', ctx.size(200, 3000), ctx.size(12, 40), LAYOUT | {'size', 'range'}))


def c03(ctx):
    both(lambda: codec(ctx, ALL + ['undef', 'floats'], ctx.size(1100, 13000), 6, {'dec', 'crash', 'memory'}, only={'big': ['Bits', 'CEl', 'BigU', 'Long']}),
         lambda: randoms(ctx, 6, {'dec', 'crash', 'memory'}, 5),
         lambda: runtime(ctx, 'prim', ctx.size(326, 3000), 4, {'dec', 'crash', 'memory'}),
         lambda: runtime(ctx, 'packed', ctx.size(162, 3000), 6, {'dec', 'crash', 'memory'}))


def c04(ctx):
    both(lambda: codec(ctx, ALL, ctx.size(1400, 20000), 0, {'size'}, used=False),
         lambda: randoms(ctx, 0, {'size'}, 5),
         lambda: runtime(ctx, 'prim', ctx.size(163, 3000), 4, {'size'}),
         lambda: runtime(ctx, 'packed', ctx.size(162, 3000), 6, {'size'}))


def c05(ctx):
    both(lambda: codec(ctx, ALL, ctx.size(1200, 20000), 1, EVERY - {'size', 'memory', 'fn'}),
         lambda: randoms(ctx, 1, EVERY - {'size', 'memory', 'fn'}, 5))


def c06(ctx):
    both(lambda: codec(ctx, ['arrays'], ctx.size(900, 10000), 1, LAYOUT | {'size'}, ['refm', 'big'], only={'big': ['Long', 'LongPar', 'LongComp']}),
         lambda: runtime(ctx, 'array', ctx.size(320, 4000), 5, LAYOUT | {'size'}),
         lambda: randoms(ctx, 1, LAYOUT | {'size'}, 5))


def c07(ctx):
    both(lambda: codec(ctx, ['packed'], ctx.size(900, 10000), 1, LAYOUT | {'size'}, ['arrays', 'big'], only={'big': ['Long', 'Bits']}),
         lambda: runtime(ctx, 'packed', ctx.size(800, 8000), 12, LAYOUT | {'size'}),
         lambda: randoms(ctx, 1, LAYOUT | {'size'}, 5))


def c08(ctx):
    both(lambda: codec(ctx, ['pcomp'], ctx.size(900, 10000), 1, LAYOUT | {'size'}, ['packed', 'big'],
                       only={'big': ['LongComp', 'LongPar', 'Many', 'PackC', 'PackW', 'Deep']}),
         lambda: randoms(ctx, 1, LAYOUT | {'size'}, 5))


def c09(ctx):
    both(lambda: codec(ctx, ['layout'], ctx.size(1000, 12000), 1, LAYOUT | {'size'}, ['refm', 'big'], only={'big': ['Wide', 'Deep']}),
         lambda: randoms(ctx, 1, LAYOUT | {'size'}, 5))


def c10(ctx):
    both(lambda: codec(ctx, ['choice'], ctx.size(1000, 12000), 2, LAYOUT | {'size', 'changed'}, ['pcomp', 'big'], only={'big': ['Many', 'PackC']}),
         lambda: randoms(ctx, 2, LAYOUT | {'size', 'changed'}, 5))


def c11(ctx):
    both(lambda: codec(ctx, ['params'], ctx.size(1000, 12000), 1, LAYOUT | {'size'}, ['arrays', 'big'], only={'big': ['LongPar', 'PackC']}),
         lambda: randoms(ctx, 1, LAYOUT | {'size'}, 5))


def c12(ctx):
    dirs = random_dirs(ctx, 'C12', random_seeds(ctx, 5, 20))
    both(lambda: codec(ctx, ['enums'], ctx.size(900, 10000), 3, LAYOUT | {'size', 'fn'}, ['names', 'big'], only={'big': ['Many', 'Bits']}),
         lambda: consts(ctx, ['enums', 'names', 'mods', 'exprs', 'refm', 'floats'] + list(dirs), dirs=dirs),
         lambda: randoms(ctx, 2, LAYOUT | {'size', 'fn'}))


def c13(ctx):
    both(lambda: codec(ctx, ['exprs', 'floats'], ctx.size(1200, 12000), 1, LAYOUT | {'fn'}, ['params', 'undef', 'big'], only={'big': ['Long', 'Many', 'Bits']}),
         lambda: randoms(ctx, 1, LAYOUT | {'fn'}, 5))


def c14(ctx):
    both(lambda: codec(ctx, ['names'], ctx.size(900, 10000), 1, LAYOUT | {'fn'}, ['refm']),
         lambda: randoms(ctx, 1, LAYOUT | {'fn'}, 5))


def c15(ctx):
    both(lambda: codec(ctx, ['tmpl'], ctx.size(900, 10000), 1, LAYOUT | {'fn', 'size'}),
         lambda: randoms(ctx, 1, LAYOUT | {'fn', 'size'}, 5))


def sessions(ctx, names, n, length, mode='rnd', part='session', only={}, dirs=None):
    codec(ctx, names, n, 0, {'session', 'crash'}, part=part, module='Session', extra={'len': length, 'mode': mode}, only=only, dirs=dirs)


def random_sessions(ctx, quick=4, thorough=40):
    ks = list(random_seeds(ctx, quick, thorough))
    for k in range(0, len(ks), 10):
        dirs = random_dirs(ctx, ctx.pid, ks[k:k + 10])
        sessions(ctx, list(dirs), 40 * len(dirs), ctx.size(10, 16), part='random%s' % (k // 10 or ''), dirs=dirs)


def c17(ctx):
    both(lambda: sessions(ctx, ['layout', 'packed', 'choice', 'prims', 'arrays'], ctx.size(300, 6000), ctx.size(14, 20)),
         lambda: sessions(ctx, ['layout', 'packed'], 0, ctx.size(3, 4), 'all', 'sequences',
                          {'layout': ['CondOpt', 'AlOpt'], 'packed': ['Opt']}),
         lambda: random_sessions(ctx))


def c18(ctx):
    both(lambda: sessions(ctx, ['pcomp', 'layout', 'choice', 'params'], ctx.size(300, 6000), ctx.size(14, 20), only={
             'choice': ['ByU8', 'ByEnumD', 'TwoPar', 'UPar', 'U2', 'InArrays', 'ByDot'],
             'params': ['PMix', 'PObj', 'PNest', 'Narrow', 'User1', 'User2']}),
         lambda: sessions(ctx, ['pcomp', 'choice'], 0, ctx.size(3, 4), 'all', 'sequences',
                          {'pcomp': ['PSep', 'POpt'], 'choice': ['ByU8', 'U2']}),
         lambda: codec(ctx, ['undef', 'layout', 'params'], ctx.size(500, 8000), 6, {'dec', 'again', 'like', 'crash'}, part='reuse'),
         lambda: random_sessions(ctx))


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


def shuffled(src, dst, rnd):
    """the same schema files under other names, in other directories, created in another order"""
    files = [os.path.join(r, f) for r, _, fs in os.walk(src) for f in fs if f.endswith('.zs')]
    files.sort()
    rnd.shuffle(files)
    shutil.rmtree(dst, ignore_errors=True)
    for k, f in enumerate(files):
        d = os.path.join(dst, *[rnd.choice('abxyz') for _ in range(rnd.randrange(3))])
        os.makedirs(d, exist_ok=True)
        shutil.copy(f, os.path.join(d, '%s%d%s' % (rnd.choice('zamq_'), k, rnd.choice(['.zs', '.zs', '.ZS', '.zserio']))))


def generation(ctx, names, again, dirs={}, part='gen'):
    """Modules.tla says which files there are; whatever the order of files, the same bytes are generated each time"""
    work = os.path.join(ctx.work, part)
    gs = [Group(x, dirs.get(x) or os.path.join(VERIF, 'schemas', x), work) for x in names]
    codes = lambda w: [ord(c) for c in w]
    def files(g):
        return [{'pkg': [codes(w) for w in p['name'].split('.')],
                 'decls': [codes(n) for n in p['order'] if not p['decls'][n].get('tparams')]} for p in g.schema['pkgs']]
    op = os.path.join(work, 'modules')
    os.makedirs(op)
    json.dump({'out': op + '/', 'reserved': [[codes(k), codes(v)] for k, v in glue.RESERVED.items()],
               'keywords': [codes(k) for k in sorted(glue.KEYWORDS)],
               'groups': [{'name': g.name, 'files': files(g)} for g in gs]}, open(os.path.join(work, 'job.json'), 'w'))

    def spec():
        out = tlc('Modules', 'Modules.cfg', {'ZS_JOB': os.path.join(work, 'job.json')}, work)
        cases = read_cases(op)
        return cases, out[2], out[1]
    with concurrent.futures.ThreadPoolExecutor(9) as ex:
        fut = ex.submit(spec)
        crate = Crate(work, part)
        for g in gs:
            crate.generate(g)
        build = ex.submit(crate.build)

        def once(g, k):
            """generation number k of group g -> what is wrong"""
            rnd = random.Random('%d %s %d' % (ctx.seed, g.name, k))
            src, dst = g.dir, os.path.join(work, 'again_%s_%d' % (g.name, k))
            if k % 2 == 1:
                src = dst + '_in'
                shuffled(g.dir, src, rnd)
            if k % 4 == 1:                      # over the output of an earlier generation from other schemas
                shutil.copytree(g.gen, dst)
                for d, _, fs in os.walk(dst):
                    for f in fs:
                        with open(os.path.join(d, f), 'a' if rnd.random() < 0.5 else 'w') as o:
                            o.write('pub struct Left {}\n' * rnd.randrange(400))
            cmd = [exe('zgen'), src, dst, g.name]
            if k % 4 == 2:                      # the command line tool
                cmd = [exe('zserio-rs-build'), '-r', g.name, '--out', dst, src]
            if k % 4 == 3:
                cmd = [exe('zserio-rs-build'), src, '-o' + dst + '/', '--root=' + g.name] + ['-v'] * rnd.randrange(4)
            try:
                r = sh(cmd, timeout=60)
            except subprocess.TimeoutExpired:
                return 'the generator does not terminate'
            if r.returncode:
                return 'the generator fails: ' + tail(r.stderr, 500)
            t0, t1 = tree(g.gen), tree(dst)
            shutil.rmtree(dst)
            for p in sorted(set(t0) | set(t1)):
                if t0.get(p) != t1.get(p):
                    return '%s differs between two generations%s' % (p, ' (files renamed)' if k % 2 else '')
        jobs = [(g, k, ex.submit(once, g, k)) for g in gs if not g.error for k in range(again)]
        for g, k, j in jobs:
            if j.result():
                ctx.violation('%s: %s' % (g.name, j.result()), {'part': 'generation', 'group': g.name, 'files': schema_files(g)})
        build.result()
        cases, st, tr = fut.result()
    n = 0
    for g in gs:
        if g.error:
            ctx.violation('%s: %s' % (g.name, g.error), {'part': 'build', 'group': g.name, 'files': schema_files(g)})
            continue
        want = [c for c in cases if gs[c['i'] - 1] is g][0]
        want = {'/'.join(''.join(map(chr, w)) for w in p) + '.rs' for p in want['files']}
        got = set(tree(g.gen))
        templates = any(d.get('tparams') for p in g.schema['pkgs'] for d in p['decls'].values())
        n += len(want)
        if want - got or (got - want and not templates):
            ctx.violation('%s: files generated: missing %s, unexpected %s' % (g.name, sorted(want - got), sorted(got - want)),
                          {'part': 'generation', 'group': g.name, 'files': schema_files(g)})
        ctx.sample({'group': g.name, 'files': sorted(want)[:12]})
    ctx.explored('generation' if part == 'gen' else part, st, tr, len(jobs) + len(gs), n, generations=len(jobs), files=n, schema_groups=len(gs))


def roots(ctx, names, dirs={}):
    """the generated code is a crate of its own (no root), or sits somewhere in a crate (--root)"""
    work = os.path.join(ctx.work, 'roots')
    n = 0
    for name in names:
        src = dirs.get(name) or os.path.join(VERIF, 'schemas', name)
        for root in ('', 'outer::in_ner'):
            d = os.path.join(work, name, root.replace('::', '_') or 'top')
            os.makedirs(os.path.join(d, 'src'))
            out = os.path.join(d, 'src', *root.split('::')) if root else os.path.join(d, 'src')
            r = sh([exe('zserio-rs-build'), '-o', out] + (['-r', root] if root else []) + [src], timeout=60)
            what = None
            if r.returncode:
                what = 'the generator fails: ' + tail(r.stderr, 500)
            else:
                if root:
                    open(os.path.join(d, 'src', 'lib.rs'), 'w').write('pub mod outer { pub mod in_ner; }\n')
                open(os.path.join(d, 'Cargo.toml'), 'w').write(CRATE_TOML % ('zr%s' % hashlib.sha1(d.encode()).hexdigest()[:8], REPO))
                shutil.copy(os.path.join(VERIF, 'harness', 'zgen', 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
                r = cargo(d)
                if r.returncode:
                    errs = re.findall(r'^error.*?(?=^(?:error|warning)|\Z)', r.stderr, re.M | re.S)
                    what = 'the code generated for root "%s" does not compile: %s' % (root, tail((errs or [r.stderr])[0], 900))
            if what:
                files = {f: open(os.path.join(src, f)).read() for f in os.listdir(src) if f.endswith('.zs')}
                ctx.violation('%s: %s' % (name, what), {'part': 'build', 'group': name, 'files': files})
            n += 1
    ctx.explored('roots', 0, 0, n, n)


CRATE_TOML = """[package]
name = "%s"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
zserio = { path = "%s/crates/zserio" }
bitreader = "0.3.8"
rust-bitwriter = "0.0.1"
bitmask-enum = "2.2.4"
[profile.dev]
debug = 0
"""


def consts(ctx, names, part='consts', dirs={}):
    """Consts.tla: every constant of the schemas"""
    work = os.path.join(ctx.work, part)
    gs = [Group(x, dirs.get(x) or os.path.join(VERIF, 'schemas', x), work) for x in names]
    schema, base = merge(gs)
    with concurrent.futures.ThreadPoolExecutor(1) as ex:
        fut = ex.submit(generate_cases, 'Consts', 'Consts.cfg', schema, {}, work, part)
        c = Crate(work, part)
        for g in gs:
            c.generate(g)
        c.build()
        cases, st, tr = fut.result()
    for g in gs:
        if g.error:
            ctx.violation('%s: %s' % (g.name, g.error), {'part': 'build', 'group': g.name, 'files': schema_files(g)})
            continue
        mine = [x for x in cases if base[g.name] < x['i'] <= base[g.name] + len(g.schema['pkgs'])]
        harvest(ctx, part, g, mine, replay(exe(c.bin(g)), mine, work, part + '_' + g.name), {'const'})
        for x in mine[:1]:
            ctx.sample({'constant': x['root'], 'value': x['exp'][0]})
    ctx.explored(part, st, tr, len(cases), len(cases))


def c16(ctx):
    dirs = random_dirs(ctx, 'C16', random_seeds(ctx, 8, 60))
    build_cli()
    both(lambda: generation(ctx, ALL + ['undef', 'floats'] + list(dirs), ctx.size(8, 40), dirs),
         lambda: roots(ctx, ['names', 'mods'] + list(dirs)[:ctx.size(1, 10)], dirs))


CHECKS = {k.upper(): v for k, v in list(globals().items()) if re.fullmatch(r'c\d\d', k)}


def build_cli():
    r = cargo(REPO, ['--locked', '-p', 'zserio-rs-build', '--bin', 'zserio-rs-build', '--config', 'profile.dev.debug=0'])
    if r.returncode:
        raise ToolError('building the command line tool failed:\n' + r.stderr[-3000:])


def setup():
    with open(os.path.join(BUILD, 'lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        build_tool('hx')
        build_tool('zgen')


def known_findings(pid):
    out = []
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def check(pid, tier, seed):
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    setup()
    stamp('tools built')
    CHECKS[pid](ctx)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': ctx.states, 'transitions': ctx.trans, 'traces_validated_against_impl': ctx.traces,
                       'samples': ctx.samples, 'steps_compared': ctx.steps, 'parts': ctx.parts},
          'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 1), 'violations': len(ctx.viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in ctx.known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    stamp('%d behaviours, %d steps, %d violations' % (ctx.traces, ctx.steps, len(ctx.viol)))
    if not ctx.viol:
        shutil.rmtree(ctx.work, ignore_errors=True)
        return 0
    os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
    for k, (what, data) in enumerate(ctx.viol[:5]):
        path = os.path.join(BUILD, 'replay', '%s_%d.json' % (pid, k))
        json.dump(data, open(path, 'w'))
        log('  ' + what[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


ASSUMPTIONS = ['the TLA+ specification states the zserio format and language correctly (it was compared with the reference '
               'implementation zserio 2.17 for python on all schema groups while it was written)',
               'the harness and the glue generated for a schema move values faithfully between JSON and the generated types',
               'TLC evaluates the specification correctly']


def show(path):
    """replay a recorded violation"""
    d = json.load(open(path))
    print(d['what'])
    if d['part'] == 'build':
        return 1
    os.makedirs(os.path.join(BUILD, 'w'), exist_ok=True)
    work = os.path.join(BUILD, 'w', 'replay')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    setup()
    if d.get('group'):
        src = os.path.join(VERIF, 'schemas', d['group'])
        if d.get('files'):
            src = os.path.join(work, 'src')
            for f, text in d['files'].items():
                os.makedirs(os.path.dirname(os.path.join(src, f)), exist_ok=True)
                open(os.path.join(src, f), 'w').write(text)
        g = Group(d['group'], src, work)
        c = Crate(work)
        c.generate(g)
        c.build()
        if g.error:
            print(g.error)
            return 1
        binary = exe(c.bin(g))
    else:
        binary = exe('rt')
    res = replay(binary, [d['case']], work, 'replay')[0]
    ds = compare(d['case'], res, set(d['kinds']))
    for k, what, detail in ds:
        print('step %d: %s: %s' % (k, what, detail))
        print('  operation: %s' % json.dumps(d['case']['ops'][k]))
    return 1 if ds else 0


def dev(names, n, bad, seed=1):
    """names: schema groups, or rnd:FROM-TO for pseudo-random ones"""
    ctx = Ctx('dev', 'quick', seed)
    setup()
    if names[0].startswith('rnd'):
        m = re.fullmatch(r'rnd@?(\w*):(\d+)-(\d+)', names[0])
        dirs = random_dirs(ctx, m.group(1) or 'C05', range(int(m.group(2)), int(m.group(3)) + 1))
        codec(ctx, list(dirs), n, bad, EVERY, dirs=dirs)
    else:
        codec(ctx, names, n, bad, EVERY)
    seen = {}
    for what, d in ctx.viol:
        seen.setdefault(':'.join(what.split(':')[:2]), []).append((d.get('case', {}).get('i'), what))
    for k, v in seen.items():
        print(k, len(v), str(v[0])[:700])
    stamp('%d behaviours, %d violations' % (ctx.traces, len(ctx.viol)))


def main():
    a = sys.argv[1:]
    if a[0] == 'setup':
        os.makedirs(BUILD, exist_ok=True)
        setup()
        return 0
    if a[0] == 'check':
        tier = os.environ.get('VERIF_TIER') or 'quick'
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        return check(a[1], tier, int(os.environ.get('VERIF_SEED') or 1))
    if a[0] == 'replay':
        return show(a[1])
    if a[0] == 'dev':
        os.makedirs(BUILD, exist_ok=True)
        dev(a[1].split(','), int(a[2]) if len(a) > 2 else 0, int(a[3]) if len(a) > 3 else 3, int(a[4]) if len(a) > 4 else 1)
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        sys.exit(main())
    except ToolError as x:
        log('ERROR: %s' % x)
        sys.exit(2)
