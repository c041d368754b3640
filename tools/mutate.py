#!/usr/bin/env python3
"""Development aid: random small changes to the code under test, to see which of them no check notices.

mutate.py WORKERS COUNT SEED [FILE-SUBSTRING..]    works in /tmp/mw*, writes /tmp/mutants.jsonl
Each worker has a copy of /repo and of /verif; behaviours that TLC produced are shared between runs (ZS_CACHE).
No registered check uses this.
"""
import json, os, random, re, shutil, subprocess, sys, threading, time

ORDER = ['C05', 'C01', 'C07', 'C06', 'C04', 'C02', 'C12', 'C16', 'C17', 'C18', 'C03', 'C08', 'C09', 'C10', 'C11', 'C13', 'C14', 'C15']


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sources(subs):
    out = []
    for f in sh('git -C /repo ls-files "crates/*/src/*"').stdout.split():
        if f.endswith('.rs') and '/parser/gen' not in f and 'test' not in f and 'vendor' not in f:
            if not subs or any(s in f for s in subs):
                out.append(f)
    return out


SWAPS = [('<=', '<'), ('>=', '>'), (' < ', ' <= '), (' > ', ' >= '), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'),
         ('true', 'false'), ('false', 'true'), ('.min(', '.max('), ('.max(', '.min('), (' + ', ' - '), (' - ', ' + '),
         ('+= ', '-= '), ('.is_some()', '.is_none()'), ('.is_none()', '.is_some()'), ('.is_empty()', '.is_empty() == false'),
         ('if !', 'if '), ('<<', '>>'), ('>>', '<<'), (' | ', ' & '), (' * ', ' + '), (' / ', ' * '), ('.first()', '.last()'),
         ('.last()', '.first()'), ('break', 'continue'), ('.iter()', '.iter().skip(1)'), ('.iter()', '.iter().rev()'),
         ('.rev()', ''), ('.sort_unstable()', '.reverse()'), ('u64', 'u32'), ('i64', 'i32'), ('usize', 'u8')]


def mutants(subs):
    out = []
    for f in sources(subs):
        lines = open('/repo/' + f).read().split('\n')
        for k, l in enumerate(lines):
            t = l.strip()
            if t.startswith('#[cfg(test)]'):
                break
            if not t or t.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'extern', '}')):
                continue
            code = l
            for a, b in SWAPS:
                p = -1
                while True:
                    p = code.find(a, p + 1)
                    if p < 0:
                        break
                    out.append((f, k, code[:p] + b + code[p + len(a):]))
            for m in re.finditer(r'(?<![\w.])\d+(?![\w.])', code):
                n = int(m.group())
                for v in {n + 1, max(0, n - 1)} - {n}:
                    out.append((f, k, code[:m.start()] + str(v) + code[m.end():]))
            if t.endswith(';') and not t.startswith(('let ', 'return', 'pub ', 'const ', 'static ', 'type ')) and t.count('(') == t.count(')'):
                out.append((f, k, ''))
            m = re.match(r'(\s*(?:} else )?if )(?!let)(.*)( \{)$', l)
            if m:
                out.append((f, k, m.group(1) + 'true' + m.group(3)))
                out.append((f, k, m.group(1) + 'false' + m.group(3)))
    return out


class Worker:
    def __init__(self, k):
        self.d = '/tmp/mw%d' % k
        self.repo, self.verif, self.vp = self.d + '/repo', self.d + '/verif', self.d + '/vp'
        if not os.path.exists(self.d):
            os.makedirs(self.d)
            sh('cp -a /repo %s' % self.repo)
            sh('cp -a /opt/vp %s' % self.vp)
            sh("sed -i 's#/repo#%s#g; s#/opt/vp/\\(env.sh\\|harness\\)#%s/\\1#g' %s/build.sh %s/test.sh %s/env.sh %s/harness/gen.py" % (
                self.repo, self.vp, *[self.vp] * 4))
        sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD' % (self.repo, self.repo, self.repo))
        os.makedirs(self.verif, exist_ok=True)
        for x in ('tools', 'spec', 'schemas', 'harness'):
            shutil.rmtree(os.path.join(self.verif, x), ignore_errors=True)
            shutil.copytree('/verif/' + x, os.path.join(self.verif, x))
        shutil.copy('/verif/known_findings.txt', self.verif)
        sh("sed -i 's#/repo/crates#%s/crates#' %s/harness/*/Cargo.toml; sed -i \"s#^REPO = .*#REPO = '%s'#\" %s/tools/vlib.py" % (
            self.repo, self.verif, self.repo, self.verif))
        self.stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable' if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else 'passed'])

    def check(self, c, timeout=600):
        e = dict(os.environ, ZS_CACHE='/tmp/zscache', VERIF_SEED='1')
        try:
            r = subprocess.run(['python3-vt', self.verif + '/tools/run.py', 'check', c], cwd=self.verif, env=e, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        except subprocess.TimeoutExpired:
            return 'timeout', ''
        line = [l for l in r.stderr.split('\n') if l.startswith('  ')]
        return r.returncode, (line[0] if line else r.stderr[-300:] if r.returncode == 2 else '')

    def run(self, m):
        f, k, new = m
        p = os.path.join(self.repo, f)
        text = open(p).read()
        lines = text.split('\n')
        res = {'file': f, 'line': k + 1, 'old': lines[k].strip(), 'new': new.strip()}
        t0 = time.time()
        try:
            lines[k] = new
            open(p, 'w').write('\n'.join(lines))
            r = sh(['bash', self.vp + '/build.sh'])
            if r.returncode:
                return dict(res, r='build')
            o = self.d + '/test.json'
            if os.path.exists(o):
                os.unlink(o)
            try:
                sh(['bash', self.vp + '/test.sh', o], timeout=200)
                got = json.load(open(o))
            except Exception:
                return dict(res, r='tests')
            if self.stable - set(got['passed']):
                return dict(res, r='tests')
            for c in ORDER:
                rc, what = self.check(c)
                if rc == 1:
                    return dict(res, r='killed', by=c, what=what[:300], t=time.time() - t0)
                if rc != 0:
                    return dict(res, r='error', by=c, what=what[:600], t=time.time() - t0)
            return dict(res, r='SURVIVED', t=time.time() - t0)
        finally:
            open(p, 'w').write(text)


def main():
    nw, count, seed = map(int, sys.argv[1:4])
    ms = mutants(sys.argv[4:])
    random.Random(seed).shuffle(ms)
    print(len(ms), 'possible changes')
    todo, lock = ms[:count], threading.Lock()

    def work(k):
        w = Worker(k)
        while True:
            with lock:
                if not todo:
                    return
                m = todo.pop()
            r = w.run(m)
            with lock:
                open('/tmp/mutants.jsonl', 'a').write(json.dumps(r) + '\n')
    ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
